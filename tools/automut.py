#!/usr/bin/env python3
"""automut.py SEED N FILE-SUBSTRING...: writes a list of random small mutants for mut.py (work on the checks only)."""
import random, re, sys, os, glob
R = "/repo/crates/"
DIFF = ["C01", "C03", "C05", "C06", "C02", "C07", "C09", "C04", "C08", "C12", "C14"]
TARGETS = {
 "revmc-codegen/src/compiler/translate/mod.rs": DIFF, "revmc-codegen/src/compiler/translate/vstack.rs": DIFF,
 "revmc-codegen/src/compiler/translate/peephole.rs": ["C04"] + DIFF, "revmc-codegen/src/bytecode/passes/sections.rs": DIFF,
 "revmc-codegen/src/bytecode/passes/const_fold.rs": ["C04"] + DIFF, "revmc-codegen/src/bytecode/passes/memory_sections.rs": ["C05"] + DIFF,
 "revmc-codegen/src/bytecode/passes/dedup.rs": ["C03", "C12"] + DIFF, "revmc-codegen/src/bytecode/passes/dead_store_elim.rs": ["C06", "C12"] + DIFF,
 "revmc-codegen/src/bytecode/passes/block_analysis.rs": ["C03", "C14"] + DIFF, "revmc-codegen/src/bytecode/mod.rs": ["C03", "C14", "C19"] + DIFF,
 "revmc-codegen/src/bytecode/opcode.rs": ["C19", "C14"] + DIFF, "revmc-codegen/src/bytecode/info.rs": ["C08"] + DIFF,
 "revmc-codegen/src/bytecode/asm.rs": ["C19"], "revmc-codegen/src/bytecode/fmt.rs": ["C19", "C14"],
 "revmc-codegen/src/compiler/mod.rs": ["C15", "C12", "C13", "C01", "C14"], "revmc-codegen/src/linker.rs": ["C13", "C18"],
 "revmc-builtins/src/lib.rs": ["C07", "C09"] + DIFF, "revmc-builtins/src/utils.rs": ["C05", "C02"] + DIFF, "revmc-builtins/src/ir.rs": DIFF,
 "revmc-builtins/src/macros.rs": DIFF,
 "revmc-llvm/src/lib.rs": ["C15", "C13", "C12", "C01", "C17"], "revmc-llvm/src/orc.rs": ["C15", "C17", "C16"],
 "revmc-context/src/jit_evm.rs": ["C10", "C11"], "revmc-context/src/lib.rs": ["C01", "C10", "C09", "C07"],
 "revmc-runtime/src/alloy_evm.rs": ["C10", "C11"], "revmc-runtime/src/revm_evm.rs": ["C10", "C11"],
 "revmc-runtime/src/runtime/backend.rs": ["C16", "C17", "C18", "C13"], "revmc-runtime/src/runtime/mod.rs": ["C16", "C17", "C18"],
 "revmc-runtime/src/runtime/out_of_process.rs": ["C16", "C17", "C13"], "revmc-runtime/src/runtime/storage.rs": ["C18", "C16"],
 "revmc-runtime/src/runtime/worker.rs": ["C16", "C17", "C18", "C13"], "revmc-runtime/src/runtime/config.rs": ["C16", "C18"],
 "revmc-runtime/src/runtime/stats.rs": ["C16"],
 "revmc-statetest/src/runner.rs": ["C20"], "revmc-statetest/src/compiled.rs": ["C20"], "revmc-statetest/src/diagnostic.rs": ["C20"],
 "revmc-statetest/src/merkle_trie.rs": ["C20"],
}
OPS = [
 (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
 (r" \+ 1\b", ""), (r" - 1\b", ""), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r" \+ ", " - "), (r" - ", " + "), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\bif !", "if "), (r"\bif (?!let|!)([^{]+) \{$", r"if !(\1) {"),
 (r"\bcontinue;", "break;"), (r"\bis_some\(\)", "is_none()"), (r"\bis_none\(\)", "is_some()"), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
 (r"\b([1-9][0-9]?)\b(?!\.)", lambda m: str(int(m.group(1)) + 1)), (r" \| ", " & "), (r" << ", " >> "), (r"\bSome\((\w+)\)$", "None"),
 (r"\.take\(\)", ".clone()"), (r"\.rev\(\)", ""), (r"\.skip\((\w+)\)", ""), (r"\bOrdering::Less\b", "Ordering::Greater"),
]
def lines(path):
    t = open(R + path).read()
    cut = re.search(r"#\[cfg\((all\()?test", t)
    out, macro = [], 0
    ls = t.split("\n")
    end = len(ls) if not cut else t[:cut.start()].count("\n")
    skip = -1
    for i in range(end):
        l = ls[i]; s = l.strip()
        if re.match(r"impl.* fmt::(Debug|Display).* for", s) and not path.endswith("fmt.rs"): skip = len(l) - len(s)
        if skip >= 0:
            if l.startswith(" " * skip + "}"): skip = -1
            continue
        if not s or s.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod", "debug_assert", "assert", "trace!", "debug!", "warn!", "info!", "error!", "const ", "pub const fn", "fn ", "pub fn", "pub(crate) fn", "pub(super) fn", "impl", "type ", "pub struct", "struct", "eprintln", "println", "}", "pub type", "where", "unsafe fn", "/*", "*", "tracing", "let _span", "let _enter")): continue
        out.append(i)
    return ls, out
def main():
    rnd = random.Random(int(sys.argv[1])); n = int(sys.argv[2]); subs = sys.argv[3:]
    files = [f for f in TARGETS if not subs or any(x in f for x in subs)]
    weights = [len(lines(f)[1]) for f in files]
    M, used = [], set()
    while len(M) < n:
        f = rnd.choices(files, weights)[0]
        ls, ok = lines(f); i = rnd.choice(ok); l = ls[i]
        cands = []
        code = l.split(" // ")[0]
        for k, (a, b) in enumerate(OPS):
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2: continue
                new = code[:m.start()] + re.sub(a, b, m.group(0), count=1) + code[m.end():]
                if "=>" in code and a in (" > ",) : continue
                cands.append(new)
        s = l.strip()
        if re.match(r"(self|\w+)(\.\w+)*\(.*\);$|\w[\w\.\[\]]* (\+|-|\|)?= .*;$|self\..*\)\?;$", s) and not s.startswith(("let", "return")):
            cands += [""] * 2
        if not cands or (f, i) in used: continue
        new = rnd.choice(cands)
        if new == l: continue
        used.add((f, i))
        # A unique context.
        t = "\n".join(ls); a = i; b = i
        while True:
            old = "\n".join(ls[a:b + 1])
            if t.count(old) == 1: break
            a = max(0, a - 1); b = min(len(ls) - 1, b + 1)
        nw = "\n".join(ls[a:i] + [new] + ls[i + 1:b + 1])
        short = os.path.basename(os.path.dirname(f)) + "/" + os.path.basename(f)
        props = list(dict.fromkeys(TARGETS[f]))
        M.append((f"{short}:{i+1} {s[:60]} => {new.strip()[:60]}", props, f, old, nw))
    print("M = " + repr(M))
main()
