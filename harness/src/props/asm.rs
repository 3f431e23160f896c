//! C19: the assembler, the instruction iterator, the formatters.

use crate::{
    exec::{self, Cfg},
    gens, progs,
    runner::{Info, fnv},
    src::Src,
};
use revmc::{
    OpcodesIter, SpecId, decode_pair, decode_single, encode_pair, encode_single, format_bytecode, op_info_map,
    parse_asm,
    primitives::U256,
    revm_bytecode::opcode::OPCODE_INFO,
};
use std::fmt::Write;

pub fn c19(s: &mut Src, info: &mut Info) -> Result<(), String> {
    match s.weighted(&[8, 6, 2, 3, 2, 4, 2]) {
        0 => assemble(s, info),
        1 => disassemble(s, info),
        2 => index_encodings(s, info),
        3 => malformed(s, info),
        4 => garbage(s, info),
        5 => analysed(s, info),
        _ => files(s, info),
    }
}

/// The opcode table of the EIPs, written independently of the code under test: immediate length.
fn imm_len(op: u8) -> usize {
    match op {
        0x60..=0x7f => (op - 0x5f) as usize,
        0xe6..=0xe8 => 1,
        _ => 0,
    }
}

fn name(op: u8) -> Option<&'static str> {
    OPCODE_INFO[op as usize].map(|i| i.name())
}

// ---------------------------------------------------------------- text to bytes

#[derive(Clone, Debug)]
enum Arg {
    Num(U256),
    Label(usize),
}

#[derive(Clone, Debug)]
enum Item {
    Op(u8),
    /// `PUSH`, width chosen by the assembler.
    Auto(Arg),
    /// `PUSHn`.
    Fixed(u8, Arg),
    Dup(u8),
    Swap(u8),
    DupN(u8),
    SwapN(u8),
    Exchange(u8, u8),
    Label(usize),
    RetWord,
    /// Invocation of macro i with arguments.
    Macro(usize, Vec<Arg>),
}

/// Macro: number of parameters (None: object-like), body where `Err(i)` is an argument of a push.
#[derive(Clone, Debug)]
struct Mac {
    params: Option<usize>,
    body: Vec<MItem>,
}
#[derive(Clone, Debug)]
enum MItem {
    Plain(Item),
    AutoParam(usize),
    FixedParam(u8, usize),
}

fn value(s: &mut Src, max_bytes: usize) -> U256 {
    let v = match s.below(4) {
        0 => U256::from(s.below(4)),
        1 => s.word(),
        2 => U256::ONE << (8 * s.below(32)),
        _ => (U256::ONE << (8 * s.below(32))).wrapping_sub(U256::ONE),
    };
    if max_bytes >= 32 { v } else { v & ((U256::ONE << (8 * max_bytes)) - U256::ONE) }
}

fn plain_ops() -> Vec<u8> {
    (0..=255u8).filter(|&o| name(o).is_some() && imm_len(o) == 0 && !matches!(o, 0x60..=0x7f | 0xe6..=0xe8)).collect()
}

fn item(s: &mut Src, labels: usize, ops: &[u8]) -> Item {
    let arg = |s: &mut Src, w: usize| {
        if labels > 0 && s.chance(1, 2) { Arg::Label(s.below(labels)) } else { Arg::Num(value(s, w)) }
    };
    match s.weighted(&[8, 6, 4, 2, 2, 1, 1, 1, 1]) {
        0 => Item::Op(*s.pick(ops)),
        1 => Item::Auto(arg(s, 32)),
        2 => {
            // Wide enough for labels of any program generated here.
            let n = s.range(3, 32) as u8;
            let n = if s.chance(1, 3) { s.range(1, 32) as u8 } else { n };
            if n < 3 { Item::Fixed(n, Arg::Num(value(s, n as usize))) } else { Item::Fixed(n, arg(s, n as usize)) }
        }
        3 => Item::Dup(if s.bool() { s.range(1, 16) as u8 } else { s.range(1, 235) as u8 }),
        4 => Item::Swap(if s.bool() { s.range(1, 16) as u8 } else { s.range(1, 235) as u8 }),
        5 => Item::DupN(s.range(17, 235) as u8),
        6 => Item::SwapN(s.range(17, 235) as u8),
        7 => {
            let (n, m) = exchange_pair(s);
            Item::Exchange(n, m)
        }
        _ => Item::RetWord,
    }
}

/// EIP-8024: 1 <= n <= 13? Any pair with n < m, n + m <= 30 and n <= 13 (as decode's image).
fn exchange_pair(s: &mut Src) -> (u8, u8) {
    loop {
        let n = s.range(1, 14) as u8;
        let m = s.range(n as usize + 1, 29) as u8;
        if n + m <= 30 {
            return (n, m);
        }
    }
}

/// EIP-8024 immediate of a DUPN/SWAPN index.
fn enc1(n: u8) -> u8 {
    // 17..=107 -> 128..=218? Inverse of decode: n = (x + 145) mod 256.
    ((n as u16 + 256 - 145) % 256) as u8
}
/// EIP-8024 immediate of an EXCHANGE pair.
fn enc2(n: u8, m: u8) -> u8 {
    let k = if m <= 16 { (n as u16 - 1) * 16 + (m as u16 - 1) } else { (29 - m as u16) * 16 + (n as u16 - 1) };
    (k as u8) ^ 143
}

fn min_width(v: U256) -> usize {
    (256 - v.leading_zeros()).div_ceil(8)
}

/// Flattened instruction: opcode byte plus immediate, or a push of a label, or a label.
enum Flat {
    Bytes(Vec<u8>),
    PushLabel { fixed: Option<u8>, label: usize },
    Label(usize),
}

fn flatten(it: &Item, macros: &[Mac], out: &mut Vec<Flat>) {
    let push = |n: usize, v: U256| {
        let mut b = vec![0x5f + n as u8];
        b.extend_from_slice(&v.to_be_bytes::<32>()[32 - n..]);
        b
    };
    let arg = |fixed: Option<u8>, a: &Arg| match a {
        Arg::Num(v) => Flat::Bytes(push(fixed.map_or(min_width(*v), |n| n as usize), *v)),
        Arg::Label(l) => Flat::PushLabel { fixed, label: *l },
    };
    match it {
        Item::Op(o) => out.push(Flat::Bytes(vec![*o])),
        Item::Auto(a) => out.push(arg(None, a)),
        Item::Fixed(n, a) => out.push(arg(Some(*n), a)),
        Item::Dup(n) if *n <= 16 => out.push(Flat::Bytes(vec![0x7f + n])),
        Item::Swap(n) if *n <= 16 => out.push(Flat::Bytes(vec![0x8f + n])),
        Item::Dup(n) | Item::DupN(n) => out.push(Flat::Bytes(vec![0xe6, enc1(*n)])),
        Item::Swap(n) | Item::SwapN(n) => out.push(Flat::Bytes(vec![0xe7, enc1(*n)])),
        Item::Exchange(n, m) => out.push(Flat::Bytes(vec![0xe8, enc2(*n, *m)])),
        Item::Label(l) => out.push(Flat::Label(*l)),
        Item::RetWord => out.push(Flat::Bytes(vec![0x5f, 0x52, 0x60, 0x20, 0x5f, 0xf3])),
        Item::Macro(i, args) => {
            for m in &macros[*i].body {
                match m {
                    MItem::Plain(p) => flatten(p, macros, out),
                    MItem::AutoParam(p) => out.push(arg(None, &args[*p])),
                    MItem::FixedParam(n, p) => out.push(arg(Some(*n), &args[*p])),
                }
            }
        }
    }
}

/// Least layout: every automatic label push is just wide enough for the label's offset.
fn layout(flat: &[Flat], nlabels: usize) -> Vec<u8> {
    let mut width: Vec<usize> = flat
        .iter()
        .map(|f| match f {
            Flat::PushLabel { fixed: Some(n), .. } => *n as usize,
            _ => 0,
        })
        .collect();
    let mut pos;
    loop {
        pos = vec![0usize; nlabels];
        let mut pc = 0;
        for (i, f) in flat.iter().enumerate() {
            match f {
                Flat::Bytes(b) => pc += b.len(),
                Flat::PushLabel { .. } => pc += 1 + width[i],
                Flat::Label(l) => pos[*l] = pc,
            }
        }
        let mut changed = false;
        for (i, f) in flat.iter().enumerate() {
            if let Flat::PushLabel { fixed: None, label } = f {
                let w = min_width(U256::from(pos[*label]));
                if w > width[i] {
                    width[i] = w;
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }
    let mut out = vec![];
    for (i, f) in flat.iter().enumerate() {
        match f {
            Flat::Bytes(b) => out.extend_from_slice(b),
            Flat::Label(_) => {}
            Flat::PushLabel { label, .. } => {
                out.push(0x5f + width[i] as u8);
                out.extend_from_slice(&U256::from(pos[*label]).to_be_bytes::<32>()[32 - width[i]..]);
            }
        }
    }
    out
}

const LABELS: &[&str] = &["a", "ab", "L1", "_x", "L11", "PUSH_it", "a_", "_", "A", "ADDx"];
const MACS: &[&str] = &["FOO", "_M", "FOO2", "SET_TWO"];
const PARAMS: &[[&str; 3]] = &[["x", "y", "zed"], ["a", "ab", "abc"], ["abc", "ab", "a"], ["p1", "p11", "p"], ["x", "X", "x_"], ["FOO", "ADD", "_"]];

fn num(s: &mut Src, v: U256) -> String {
    match s.below(6) {
        5 => format!("0X{v:x}"),
        0 => format!("{v}"),
        1 => format!("0x{v:X}"),
        2 => format!("0x{v:064x}"),
        3 => format!("0{v}"),
        _ => format!("0x{v:x}"),
    }
}

fn ws(s: &mut Src, out: &mut String) {
    match s.weighted(&[10, 3, 2, 3, 2]) {
        0 => out.push(' '),
        1 => out.push('\n'),
        2 => out.push('\t'),
        3 => {
            let _ = write!(out, " ; {}\n", s.pick(&["note", "PUSH1 0x01", "", ";; x: %y", "(a,b) $c :", "é ☃"]));
        }
        _ => out.push_str("  \r\n  "),
    }
}

fn arg_text(s: &mut Src, a: &Arg) -> String {
    match a {
        Arg::Num(v) => num(s, *v),
        Arg::Label(l) => format!("%{}", LABELS[*l]),
    }
}

fn item_text(s: &mut Src, it: &Item, inline: bool, out: &mut String) {
    // Inside a #define everything is on one line.
    let sep = |s: &mut Src, out: &mut String| if inline { out.push(' ') } else { ws(s, out) };
    match it {
        Item::Op(o) => out.push_str(name(*o).unwrap()),
        Item::Auto(a) => {
            out.push_str("PUSH");
            sep(s, out);
            let t = arg_text(s, a);
            out.push_str(&t);
        }
        Item::Fixed(n, a) => {
            let _ = write!(out, "PUSH{n}");
            sep(s, out);
            let t = arg_text(s, a);
            out.push_str(&t);
        }
        Item::Dup(n) if *n <= 16 && s.bool() => {
            let _ = write!(out, "DUP{n}");
        }
        Item::Swap(n) if *n <= 16 && s.bool() => {
            let _ = write!(out, "SWAP{n}");
        }
        Item::Dup(n) | Item::Swap(n) | Item::DupN(n) | Item::SwapN(n) => {
            out.push_str(match it {
                Item::Dup(_) => "DUP",
                Item::Swap(_) => "SWAP",
                Item::DupN(_) => "DUPN",
                _ => "SWAPN",
            });
            sep(s, out);
            let t = num(s, U256::from(*n));
            out.push_str(&t);
        }
        Item::Exchange(n, m) => {
            out.push_str("EXCHANGE");
            sep(s, out);
            let t = num(s, U256::from(*n));
            out.push_str(&t);
            sep(s, out);
            let t = num(s, U256::from(*m));
            out.push_str(&t);
        }
        Item::Label(l) => {
            let _ = write!(out, "{}:", LABELS[*l]);
        }
        Item::RetWord => out.push_str("RET_WORD"),
        Item::Macro(..) => unreachable!(),
    }
}

fn assemble(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let ops = plain_ops();
    let nlabels = s.below(LABELS.len() + 1);
    let mut macros = vec![];
    for _ in 0..s.below(MACS.len() + 1) {
        let params = s.bool().then(|| s.below(3 + 1));
        let mut body = vec![];
        for _ in 0..s.below(5) {
            let np = params.unwrap_or(0);
            body.push(match s.below(3) {
                1 if np > 0 => MItem::AutoParam(s.below(np)),
                2 if np > 0 => MItem::FixedParam(32, s.below(np)),
                _ => MItem::Plain(item(s, nlabels, &ops)),
            });
        }
        macros.push(Mac { params, body });
    }
    let mut items = vec![];
    let n = *s.pick(&[3, 10, 40, 120, 300]);
    for _ in 0..n {
        if !macros.is_empty() && s.chance(1, 6) {
            let i = s.below(macros.len());
            let k = macros[i].params.unwrap_or(0);
            let args = (0..k)
                .map(|_| if nlabels > 0 && s.bool() { Arg::Label(s.below(nlabels)) } else { Arg::Num(value(s, 32)) })
                .collect();
            items.push(Item::Macro(i, args));
        } else {
            items.push(item(s, nlabels, &ops));
        }
    }
    // Each label exactly once, anywhere.
    for l in 0..nlabels {
        let at = s.below(items.len() + 1);
        items.insert(at, Item::Label(l));
    }
    // Sometimes pad so that label offsets sit near a width boundary.
    if s.chance(1, 3) {
        let mut flat = vec![];
        items.iter().for_each(|i| flatten(i, &macros, &mut flat));
        let len = layout(&flat, nlabels).len();
        let target = if s.chance(1, 12) { 65536usize } else { 256 };
        let want = (target + 3).saturating_sub(len + s.below(24));
        let at = s.below(items.len() + 1);
        items.splice(at..at, std::iter::repeat_n(Item::Op(0x5b), want));
    }
    // Text. Definitions may come before or after their uses.
    let mut text = String::new();
    let mut defs: Vec<String> = vec![];
    for (i, m) in macros.iter().enumerate() {
        let mut d = format!("#define {}", MACS[i]);
        let names = s.pick(PARAMS);
        if let Some(k) = m.params {
            d.push('(');
            for p in 0..k {
                if p > 0 {
                    d.push_str(*s.pick(&[",", ", ", " , "]));
                }
                d.push_str(names[p]);
            }
            d.push(')');
        }
        for b in &m.body {
            d.push(' ');
            match b {
                MItem::Plain(p) => match p {
                    // No comments inside; a nested builtin is not expanded again.
                    Item::RetWord => d.push_str("PUSH0 MSTORE PUSH1 32 PUSH0 RETURN"),
                    p => item_text(s, p, true, &mut d),
                },
                MItem::AutoParam(p) => {
                    let _ = write!(d, "PUSH ${}", names[*p]);
                }
                MItem::FixedParam(n, p) => {
                    let _ = write!(d, "PUSH{n} ${}", names[*p]);
                }
            }
        }
        if s.chance(1, 3) {
            d.push_str(" ; done");
        }
        defs.push(d);
    }
    let late = s.below(defs.len() + 1);
    for d in &defs[..late] {
        if s.bool() {
            text.push_str("   ");
        }
        text.push_str(d);
        text.push('\n');
    }
    let mut flat = vec![];
    for it in &items {
        flatten(it, &macros, &mut flat);
        if let Item::Macro(i, args) = it {
            text.push_str(MACS[*i]);
            if macros[*i].params.is_some() {
                if s.chance(1, 4) {
                    text.push(' ');
                }
                text.push('(');
                for (k, a) in args.iter().enumerate() {
                    if k > 0 {
                        text.push_str(*s.pick(&[",", ", ", " ,\n"]));
                    }
                    let t = arg_text(s, a);
                    text.push_str(&t);
                }
                text.push(')');
            }
        } else {
            item_text(s, it, false, &mut text);
        }
        if matches!(it, Item::Op(0x5b)) { text.push('\n') } else { ws(s, &mut text) }
    }
    text.push('\n');
    for d in &defs[late..] {
        text.push_str(d);
        text.push('\n');
    }
    let want = layout(&flat, nlabels);
    info.desc = if text.len() > 3000 { format!("{}…", text.chars().take(3000).collect::<String>()) } else { text.clone() };
    info.evals += 1;
    info.nontrivial.push(fnv(text.as_bytes()));
    info.tag("assembled");
    match parse_asm(&text) {
        Err(e) => Err(format!("valid text rejected: {e:#}")),
        Ok(got) if got != want => Err(format!("assembled to 0x{}, text denotes 0x{}", hex::encode(&got), hex::encode(&want))),
        Ok(_) => Ok(()),
    }
}

// ---------------------------------------------------------------- bytes to text

struct Dec<'a> {
    pc: usize,
    op: u8,
    imm: Option<&'a [u8]>,
}

/// What the interpreter decodes at each position of a straight walk.
fn decode<'a>(code: &'a [u8], spec: SpecId) -> Vec<Dec<'a>> {
    let map = op_info_map(spec);
    let mut out = vec![];
    let mut pc = 0;
    while pc < code.len() {
        let op = code[pc];
        let active = !map[op as usize].is_unknown() && !map[op as usize].is_disabled();
        let n = if active { imm_len(op) } else { 0 };
        let imm = if n > 0 { code.get(pc + 1..pc + 1 + n) } else { None };
        out.push(Dec { pc, op, imm });
        pc += 1 + n;
    }
    out
}

fn disassemble(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let spec = progs::spec(s);
    let code = match s.below(3) {
        0 => {
            let n = s.below(200);
            s.bytes(n)
        }
        1 => gens::raw_bytes(s, spec, 200),
        _ => progs::program(s, gens::TINY, spec, 0),
    };
    info.desc = format!("{spec:?} 0x{}", hex::encode(&code));
    info.evals += 1;
    info.nontrivial.push(fnv(&code));
    info.tag("disassembled");
    let want = decode(&code, spec);
    let got: Vec<_> = OpcodesIter::new(&code, spec).with_pc().collect();
    let plain: Vec<_> = OpcodesIter::new(&code, spec).collect();
    if got.len() != want.len() || plain.len() != want.len() {
        return Err(format!("{} / {} instructions, decoding gives {}", got.len(), plain.len(), want.len()));
    }
    let mut text = String::new();
    let mut reasm = true;
    for ((w, (pc, g)), p) in want.iter().zip(&got).zip(&plain) {
        // The position matters only for well-formed code: an incomplete immediate is the end.
        if w.pc != *pc || w.op != g.opcode || w.imm != g.immediate || p != g {
            return Err(format!("pc {} is {:#x} {:?}, iterator says pc {pc} {g:?} / {p:?}", w.pc, w.op, w.imm));
        }
        if !text.is_empty() {
            text.push(' ');
        }
        match name(w.op) {
            Some(n) => text.push_str(n),
            None => {
                reasm = false;
                let _ = write!(text, "UNKNOWN(0x{:02x})", w.op);
            }
        }
        if let Some(i) = w.imm {
            let _ = write!(text, " 0x{}", hex::encode(i));
        }
        if (w.imm.is_none() && imm_len(w.op) > 0) || matches!(w.op, 0xe6..=0xe8) {
            reasm = false;
        }
    }
    let f = format_bytecode(&code, spec);
    if f != text {
        return Err(format!("formatted as\n{f}\nexpected\n{text}"));
    }
    match parse_asm(&f) {
        Ok(b) if reasm && b != code => Err(format!("re-assembled to 0x{}", hex::encode(b))),
        Err(e) if reasm => Err(format!("disassembly not accepted back: {e:#}\n{f}")),
        _ => Ok(()),
    }
}

// ---------------------------------------------------------------- encodings

fn index_encodings(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let x = s.byte();
    let n = s.byte();
    let m = s.byte();
    info.desc = format!("encodings {x} {n} {m}");
    info.evals += 4;
    info.nontrivial.push(fnv(&[x, n, m, 1]));
    // EIP-8024: 0x5b..=0x7f stay JUMPDEST / PUSH bytes.
    let d = decode_single(x);
    let want = (!(91..128).contains(&x)).then(|| ((x as u16 + 145) % 256) as u8);
    if d != want {
        return Err(format!("decode_single({x}) = {d:?}, expected {want:?}"));
    }
    let e = encode_single(n);
    let want = (17..=235).contains(&n).then(|| enc1(n));
    if e != want {
        return Err(format!("encode_single({n}) = {e:?}, expected {want:?}"));
    }
    let d = decode_pair(x);
    let want = (!(82..128).contains(&x)).then(|| {
        let k = x ^ 143;
        let (q, r) = (k / 16, k % 16);
        if q < r { (q + 1, r + 1) } else { (r + 1, 29 - q) }
    });
    if d != want {
        return Err(format!("decode_pair({x}) = {d:?}, expected {want:?}"));
    }
    if let Some((a, b)) = d
        && encode_pair(a, b) != Some(x)
    {
        return Err(format!("encode_pair{:?} = {:?}, decoded from {x}", (a, b), encode_pair(a, b)));
    }
    // A pair is encodable exactly when some byte decodes to it.
    let (n, m) = (n % 40, m % 40);
    let pre = (0..=255u8).find(|&x| decode_pair(x) == Some((n, m)));
    if encode_pair(n, m) != pre {
        return Err(format!("encode_pair({n},{m}) = {:?}, {pre:?} decodes to it", encode_pair(n, m)));
    }
    Ok(())
}

// ---------------------------------------------------------------- rejected text

fn malformed(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let ops = plain_ops();
    let mut good = |s: &mut Src| {
        let mut t = String::new();
        for _ in 0..s.below(6) {
            let it = item(s, 0, &ops);
            item_text(s, &it, false, &mut t);
            t.push('\n');
        }
        t
    };
    let pre = good(s);
    let post = good(s);
    let w = s.range(1, 31);
    let bad = match s.below(22) {
        0 => "BOGUS".into(),
        1 => "add".into(),
        2 => format!("PUSH{w} 0x1{}", "00".repeat(w)),
        3 => "PUSH %nowhere".into(),
        4 => format!("PUSH{w} %nowhere"),
        5 => format!("{} 1", name(*s.pick(&ops)).unwrap()),
        6 => "PUSH ADD".into(),
        7 => format!("PUSH{w} JUMPDEST"),
        8 => "DUP 0".into(),
        9 => format!("DUP {}", s.range(236, 400)),
        10 => format!("SWAP {}", s.range(236, 400)),
        11 => format!("DUPN {}", s.below(17)),
        12 => format!("SWAPN {}", s.range(236, 300)),
        13 => "EXCHANGE 5 5".into(),
        14 => "EXCHANGE 20 25".into(),
        15 => "PUSH 0x1".to_string() + &"0".repeat(64),
        16 => ": STOP".into(),
        17 => "STOP ,".into(),
        18 => (*s.pick(&["(", ")", "$x", "%", "@@", "!", "\"a\"", "é", "#ADD"])).into(),
        19 => "#define F(a) PUSH $a\nF(1, 2)".into(),
        20 => (*s.pick(&["#define F(a) PUSH $a\nF", "#define F(a) PUSH $a\nF(1", "#define\n", "#define 12 ADD\n", "#define F(a b) ADD\n", "#define F(a\n"])).into(),
        _ => "#define F(a) PUSH $b\nF(1)".into(),
    };
    // A definition or an unclosed macro could swallow what follows; keep those last.
    let text = if bad.contains("#define") { format!("{pre}{bad}") } else { format!("{pre}{bad}\n{post}") };
    // "PUSH ADD"-like breakage must not be rescued by what follows a missing operand.
    info.desc = text.clone();
    info.evals += 1;
    info.nontrivial.push(fnv(text.as_bytes()));
    info.tag("malformed");
    match parse_asm(&text) {
        Ok(b) => Err(format!("malformed text accepted as 0x{}", hex::encode(b))),
        Err(_) => Ok(()),
    }
}

fn garbage(s: &mut Src, info: &mut Info) -> Result<(), String> {
    const BITS: &[&str] = &[
        "PUSH", "PUSH1", "PUSH32", "DUP", "SWAP", "DUPN", "SWAPN", "EXCHANGE", "ADD", "STOP", "RET_WORD", "#define ",
        "\n#define A(x) ", "\n#define A ", "A", "A(", "A(1)", "(", ")", ",", "$x", "%x", "%", "$", "x:", ":", ";", "\n", " ",
        "0x", "0", "1", "255", "256", "0xff", "é", "☃", "\t", "\r", "_", "0xg", "99999999999999999999999999999999999999999999999999999999999999999999999999999999",
        "#", "\0", "-1", "1.5", "x", "UNKNOWN(0x0c)", "\u{2028}", "\u{a0}",
    ];
    let mut t = String::new();
    for _ in 0..s.range(1, 40) {
        t.push_str(*s.pick(BITS));
        if s.bool() {
            t.push(' ');
        }
    }
    info.desc = t.clone();
    info.evals += 1;
    info.tag("garbage");
    // No panic (the runner reports one), and deterministic.
    let a = parse_asm(&t).map_err(|e| format!("{e:#}"));
    let b = parse_asm(&t).map_err(|e| format!("{e:#}"));
    if a != b {
        return Err(format!("two answers: {a:?} {b:?}"));
    }
    if let Ok(code) = a {
        info.nontrivial.push(fnv(t.as_bytes()));
        // Comments and blank lines mean nothing. (Non-ASCII blanks at the ends of lines are trimmed,
        // elsewhere rejected: not a promise.)
        if !t.is_ascii() {
            return Ok(());
        }
        let t2: String = t.split('\n').map(|l| if l.contains(';') { l.to_string() } else { format!("{l} ; c") } + "\n\n").collect();
        match parse_asm(&t2) {
            Ok(c) if c == code => {}
            r => return Err(format!("with comments added: {r:?}, before 0x{}", hex::encode(code))),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- analysed listing

fn analysed(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let spec = progs::spec(s);
    let p = *s.pick(&[gens::TINY, gens::JUMPS, progs::GENERAL, gens::STACK]);
    let code = if s.chance(1, 4) { gens::raw_bytes(s, spec, 200) } else { progs::program(s, p, spec, 0) };
    info.desc = format!("{spec:?} 0x{}", hex::encode(&code));
    info.evals += 1;
    info.nontrivial.push(fnv(&code));
    info.tag("listing");
    let mut c = exec::compiler(&Cfg::default(), false);
    let b = c.parse((&code[..]).into(), spec).map_err(|e| format!("parse: {e:#}"))?;
    let text = b.to_string();
    if b.to_string() != text {
        return Err("listing differs between two calls".into());
    }
    let map = op_info_map(spec);
    for l in text.lines() {
        // "  NAME imm %target ; ic=.. pc=.. flags"
        let Some((t, c)) = l.split_once(';') else { continue };
        if t.trim().is_empty() || t.trim().ends_with(':') {
            continue;
        }
        let Some((_, after)) = c.split_once("pc=") else { return Err(format!("no pc in line {l:?}")) };
        let pc: usize = after.trim_start().split_whitespace().next().and_then(|x| x.parse().ok()).ok_or_else(|| format!("line {l:?}"))?;
        let t = t.trim();
        if pc >= code.len() {
            // Padding added by the analysis.
            if t != "STOP" {
                return Err(format!("line {l:?} beyond the code"));
            }
            continue;
        }
        let op = code[pc];
        let active = !map[op as usize].is_unknown() && !map[op as usize].is_disabled();
        let mut words = t.split_whitespace();
        let got = words.next().unwrap_or("");
        let want = name(op).map(|n| n.to_string()).unwrap_or(format!("UNKNOWN(0x{op:02x})"));
        if got != want {
            return Err(format!("line {l:?}: code at {pc} is {want}"));
        }
        let n = if active { imm_len(op) } else { 0 };
        if (0x60..=0x7f).contains(&op)
            && n > 0
            && let Some(imm) = code.get(pc + 1..pc + 1 + n)
        {
            let w = words.next().unwrap_or("");
            if w != format!("0x{}", hex::encode(imm)) {
                return Err(format!("line {l:?}: immediate at {pc} is 0x{}", hex::encode(imm)));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- code files

fn files(s: &mut Src, info: &mut Info) -> Result<(), String> {
    use revmc_cli::read_code_string;
    let n = s.range(1, 60);
    let code = s.bytes(n);
    info.evals += 1;
    info.nontrivial.push(fnv(&code));
    info.tag("files");
    let mut h = hex::encode(&code);
    if s.bool() {
        h = h.to_uppercase();
    }
    let nl = *s.pick(&["", "\n", "\r\n", " \n\n"]);
    let (contents, ext, want): (Vec<u8>, Option<&str>, Vec<u8>) = match s.below(6) {
        0 => (format!("0x{h}{nl}").into(), *s.pick(&[None, Some("hex"), Some("evm"), Some("txt")]), code.clone()),
        1 => (format!("{h}{nl}").into(), Some("hex"), code.clone()),
        2 => (code.clone(), Some("bin"), code.clone()),
        3 => (format!("0x{h}").into(), Some("bin"), format!("0x{h}").into_bytes()),
        4 => {
            let f = format_bytecode(&[0x60, code[0], 0x50, 0x00], SpecId::OSAKA);
            (format!("{f}{nl}").into(), *s.pick(&[None, Some("evm"), Some("txt")]), vec![0x60, code[0], 0x50, 0x00])
        }
        _ => (format!("{h}{nl}").into(), *s.pick(&[None, Some("txt")]), code.clone()),
    };
    info.desc = format!("{ext:?} {:?}", String::from_utf8_lossy(&contents));
    match read_code_string(&contents, ext) {
        Ok(b) if b == want => Ok(()),
        r => Err(format!("read as {r:?}, expected 0x{}", hex::encode(want))),
    }
}
