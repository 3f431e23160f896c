#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so it stays readable)."""
import json
G="crates/revmc-codegen/src/"; R="crates/revmc-runtime/src/"
P=[]
def p(id,title,stmt,over,qt,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
LL="The reliably passing tests never execute compiled code at all (they cover parsing, analysis snapshots and the runtime's bookkeeping)"
p("C01","Compiled contract code does exactly what the interpreter does",
  "For every bytecode and every execution context, running the compiled code ends the same way as interpreting the bytecode: same kind of ending (stop, return, revert, self-destruct, or exceptional halt), same returned bytes, same final memory and, when stack inspection is requested, the same final stack. An exceptional halt of either one is an exceptional halt of the other, and whenever the frame does not halt exceptionally every effect on storage, transient storage, logs, accounts and gas is the same.",
  ["programs","inputs"],"every bytecode x call data x value x storage x gas limit x hardfork",
  LL+"; the LLVM tests run about two thousand hand-written snippets, one context each.",
  [G+"compiler/translate/mod.rs",G+"compiler/translate/vstack.rs",G+"compiler/translate/peephole.rs",G+"bytecode/passes/block_analysis.rs",G+"bytecode/passes/dead_store_elim.rs",G+"bytecode/passes/dedup.rs","crates/revmc-builtins/src/lib.rs"],
  [("instruction translation","FunctionCx::translate_inst"),("virtual stack","translate/vstack.rs"),("runtime builtins","__revmc_builtin_*")],
  ["EvmCompilerFn::call_with_interpreter return action, interpreter memory/stack/gas, host state"])
p("C02","Gas used, refunds and the out-of-gas point are exact",
  "For every program, context and gas limit, compiled execution finishes if and only if interpretation finishes within that limit, and then both report the same gas spent and the same refund. Gas a program can observe while running (the remaining-gas instruction, the gas forwarded to calls, the minimum-gas rule of storage writes) has the same value as under interpretation. A run that ends out of gas leaves none.",
  ["programs","inputs","configurations"],"every program x context x gas limit (in particular the limits one unit around every charge) x hardfork x custom gas schedule",
  LL+"; no test varies the gas limit around each charge, and section-based charging is where such errors hide.",
  [G+"bytecode/passes/sections.rs",G+"bytecode/passes/memory_sections.rs",G+"compiler/translate/mod.rs","crates/revmc-builtins/src/gas.rs","crates/revmc-builtins/src/lib.rs","crates/revmc-context/src/lib.rs"],
  [("gas sections","SectionsAnalysis, gas_cost_imm"),("dynamic gas in builtins","revmc-builtins"),("memory expansion gas","build_ensure_memory")],
  ["Gas in the returned action; OOG result"])
p("C03","Jumps land where the interpreter lands, or halt",
  "For every program and input, a jump or conditional jump in compiled code continues at exactly the destination the interpreter would take. A destination that is not a jump-destination instruction (including one inside push data, past the end, or wider than 64 bits) halts the frame, and a jump that is not taken never inspects its destination.",
  ["programs","inputs"],"every control-flow graph (static, computed, table-like, subroutine-style returns, loops, code duplicated across blocks) x every runtime destination value",
  LL+"; analysis snapshots freeze a few graphs but do not say the resolved targets are the ones taken at run time.",
  [G+"bytecode/passes/block_analysis.rs",G+"bytecode/passes/dedup.rs",G+"bytecode/mod.rs",G+"compiler/translate/mod.rs"],
  [("static / multi-target jump resolution","block_analysis"),("dynamic jump table","translate: dynamic_jump"),("block deduplication and redirects","passes/dedup.rs")],
  ["trace of visited blocks via memory/storage side effects, end state"])
p("C04","256-bit arithmetic is exact whether folded or executed",
  "Every arithmetic, comparison, bitwise, shift, byte, sign-extension, exponentiation, leading-zero-count and hashing instruction yields the result defined by the EVM for every operand tuple. It yields that same result whichever operands are compile-time constants, run-time values, or the same stack item used twice.",
  ["inputs","programs"],"every operand tuple x every constant/run-time mix x expression nesting",
  LL+"; existing tests use a few fixed operand tuples per instruction and mostly one constant/run-time mix.",
  [G+"bytecode/passes/const_fold.rs",G+"compiler/translate/peephole.rs",G+"compiler/translate/mod.rs","crates/revmc-builtins/src/lib.rs","crates/revmc-builtins/src/ir.rs"],
  [("constant folding","passes/const_fold.rs"),("strength reduction","translate/peephole.rs"),("IR builtins","revmc-builtins/src/ir.rs")],
  ["top of stack after the expression; exponentiation gas"])
p("C05","Memory, call data, code and return data accesses are exact",
  "For every sequence of memory writes, reads, copies (from memory, call data, code, other accounts' code and return data), hashes and returns, with any offsets and lengths, compiled code leaves the same memory contents and memory size, reads the same bytes (zero-filled past the end), and charges the same expansion cost as interpretation. Accesses the EVM forbids or cannot pay for halt the frame, and a zero-length access never expands memory or fails because of its offset.",
  ["programs","inputs"],"every access sequence x offsets/lengths (constant or run-time, up to 2^256-1) x data sizes, in a fresh or nested memory context",
  LL+"; the LLVM tests use single accesses with small offsets.",
  [G+"compiler/translate/mod.rs",G+"bytecode/passes/memory_sections.rs","crates/revmc-builtins/src/lib.rs","crates/revmc-builtins/src/utils.rs","crates/revmc-context/src/lib.rs"],
  [("memory sections","passes/memory_sections.rs"),("memory growth","build_ensure_memory, resize builtins"),("copy builtins","copy_operation, mcopy, extcodecopy, returndatacopy")],
  ["interpreter memory after the run, stack values, output"])
p("C06","Stack limits and stack shuffling are exact",
  "For every program and input, compiled execution halts exceptionally if and only if the interpreter would underflow, exceed the 1024-item limit, or otherwise halt, at whatever depth and on whatever path that happens. Push, pop, duplicate, swap and exchange instructions (including the immediate-operand ones) move exactly the items the interpreter moves, and items below the part of the stack the program touches are preserved.",
  ["programs","inputs"],"every sequence of stack instructions over every initial stack depth 0..1024, through branches and loops",
  LL+"; tests reach the limits only with a few straight-line programs.",
  [G+"compiler/translate/vstack.rs",G+"compiler/translate/mod.rs",G+"bytecode/passes/sections.rs",G+"bytecode/info.rs",G+"bytecode/opcode.rs"],
  [("stack sections","StackSection"),("virtual stack materialisation","vstack.rs")],
  ["final stack contents and length; halt or not"])
p("C07","Host effects, environment reads and static protection match",
  "Every instruction that reads the transaction, block, account or chain environment or changes storage, transient storage, logs or account life-cycle does so through the host with the same arguments, in the same order and with the same results as under interpretation, including warm/cold accounting and refunds. In a static frame no state-changing instruction ever has an effect: the frame halts instead.",
  ["programs","inputs","configurations"],"every sequence of host-facing instructions x environment values x account/storage states (warm, cold, absent, delegated) x static flag x hardfork",
  LL+"; the LLVM tests' host has one fixed environment, everything warm and no distinction between accounts.",
  ["crates/revmc-builtins/src/lib.rs","crates/revmc-builtins/src/gas.rs",G+"compiler/translate/mod.rs"],
  [("host builtins","sload, sstore, tload, tstore, log, selfdestruct, balance, extcode*, blockhash, ..."),("static checks","do_sstore / log / call builtins")],
  ["host state and effect log after the run, gas, stack"])
p("C08","Each hardfork's rules are the ones applied",
  "For every supported hardfork, code compiled for that hardfork accepts exactly the instructions the interpreter accepts under it, charges that hardfork's costs and follows its refund, size-limit and semantic rules. The same bytecode compiled for two hardforks behaves under each as the interpreter configured for that hardfork does.",
  ["configurations","programs"],"every hardfork x every instruction byte x contexts",
  LL+"; LLVM tests use one default hardfork for nearly everything.",
  [G+"bytecode/info.rs",G+"bytecode/mod.rs",G+"compiler/translate/mod.rs","crates/revmc-builtins/src/lib.rs"],
  [("instruction table per hardfork","op_info_map"),("hardfork-dependent builtins","spec_id arguments")],
  ["end state per hardfork"])
p("C09","Calls and creates suspend and resume without losing anything",
  "Whenever a program performs a call or create, compiled code hands out a request equal to the interpreter's (target, code address, caller, value, scheme, static flag, gas, input bytes, return range, salt and init code) and, after any outcome is delivered, resumes exactly after that instruction with stack, memory, gas, refund and return data as the interpreter would have them. This holds for any number and nesting of suspensions, inside loops and branches, and with any mix of outcomes.",
  ["programs","histories"],"every program with calls/creates x every sequence of outcomes (success, revert, halt; any output, gas left, refund)",
  LL+"; a few LLVM tests resume one or two fixed calls with one fixed outcome.",
  [G+"compiler/translate/mod.rs","crates/revmc-builtins/src/lib.rs","crates/revmc-context/src/lib.rs"],
  [("resume points","ResumeAt, resume_blocks"),("call/create builtins","__revmc_builtin_call, __revmc_builtin_create")],
  ["sequence of frame requests, state at the end"])
p("C10","Transactions through the JIT EVM equal plain EVM transactions",
  "For every pre-state, block environment and sequence of transactions or system calls, executing through the JIT-backed EVM gives the same execution result (status, output, logs, gas, refund), the same error and the same post-state as the plain EVM. It does so whether each piece of code involved happens to be compiled, interpreted, becoming compiled between transactions, or unavailable, and across changes of hardfork, block and backend on the same EVM object.",
  ["histories","configurations","inputs"],"every state with mutually calling contracts x transaction sequence x per-contract compiled/interpreted mix x hardfork changes",
  LL+"; the runtime's tests run single trivial contracts.",
  [R+"revm_evm.rs",R+"alloy_evm.rs","crates/revmc-context/src/jit_evm.rs",R+"runtime/mod.rs"],
  [("per-frame dispatch","JitEvm::frame_run"),("decision cache and its invalidation","lookup_cache"),("factory","JitEvmFactory")],
  ["ExecutionResult, EvmState"])
p("C11","Inspectors observe the same execution on compiled code",
  "With an inspector attached to the JIT-backed EVM, the inspector receives the same calls, creates, logs, self-destructs, call and create ends (with the same inputs, outcomes, gas and order) that it receives from the plain EVM for the same transactions. Attaching an inspector, or having it override outcomes, changes results and state exactly as it does on the plain EVM.",
  ["histories","inputs"],"every transaction sequence x inspector behaviour (pure observation, overriding calls or creates, rewriting outcomes) x compiled/interpreted mix",
  LL+"; a handful of inspector tests use one contract each.",
  [R+"revm_evm.rs",R+"alloy_evm.rs","crates/revmc-builtins/src/lib.rs","crates/revmc-context/src/lib.rs"],
  [("inspected frame run","InspectorEvmTr::inspect_frame_run"),("log callback","EvmContext::on_log")],
  ["recorded inspector event list"])
p("C12","Compiler settings never change behaviour",
  "Optimization level, block de-duplication, dead-store elimination, the compile-time evaluation budget, debug assertions, debug info, frame pointers, stack inspection and error-code collapsing change neither the ending, output, memory, gas nor effects of any program. With error collapsing off, an exceptional halt reports the cause the interpreter reports (up to documented re-ordering of stack and gas checks), and gas-schedule overrides apply exactly where the interpreter applies them.",
  ["configurations","programs"],"every pair of configurations x every program x context",
  LL+"; LLVM tests run each snippet at two optimization levels with the other settings at their defaults.",
  [G+"compiler/mod.rs",G+"bytecode/passes/dedup.rs",G+"bytecode/passes/dead_store_elim.rs",G+"bytecode/passes/const_fold.rs","crates/revmc-llvm/src/lib.rs"],
  [("analysis configuration","AnalysisConfig"),("backend configuration","BackendConfig, FcxConfig")],
  ["end state per configuration"])
p("C13","Ahead-of-time, helper-process and in-process code agree",
  "For every bytecode and hardfork, code compiled ahead of time to an object, linked into a shared library and loaded back, code compiled by the out-of-process helper, and code compiled in process all behave identically to each other and to the interpreter. Several contracts in one library stay independent, and loading an artifact always yields the contract it was produced for.",
  ["programs","configurations","histories"],"every set of programs x compilation route x batch composition x contexts",
  LL+"; one end-to-end test each for ahead-of-time and helper routes with trivial contracts.",
  [G+"linker.rs",G+"compiler/mod.rs",R+"runtime/worker.rs",R+"runtime/out_of_process.rs",R+"runtime/storage.rs","crates/revmc-llvm/src/lib.rs"],
  [("object emission and linking","write_object, Linker"),("symbol naming","symbol_for_key"),("helper protocol","out_of_process.rs")],
  ["behaviour of loaded functions"])
p("C14","Any byte string compiles, deterministically and without crashing",
  "For every byte string, hardfork and compiler setting, parsing, analysis, formatting and compilation terminate without panic or crash and produce a callable function (or a clean error), and doing it again gives the same analysis and behaviour. Work is bounded: compile-time evaluation respects its budget and hostile inputs do not blow up.",
  ["inputs","configurations"],"every byte string up to the maximum code size, including truncated immediates and unknown instructions",
  "The stable tests parse a few dozen fixed byte strings and never reach code generation.",
  [G+"bytecode/mod.rs",G+"bytecode/fmt.rs",G+"bytecode/passes/block_analysis.rs",G+"bytecode/passes/const_fold.rs",G+"bytecode/interner.rs",G+"compiler/mod.rs"],
  [("parser and analysis","Bytecode::new / analyze"),("compile-time gas budget","compiler_gas_limit")],
  ["panic/crash/hang, formatted analysis, behaviour"])
p("C15","One compiler can be reused for any history of functions",
  "For every sequence of adding, finalizing, freeing and clearing functions on one compiler (and several compilers side by side, with settings changed in between), each function that is still alive behaves as if it had been compiled alone in a fresh compiler. Operations out of order give an error rather than a wrong function, and dropping or clearing one compiler never affects another's functions.",
  ["histories"],"every sequence of translate / finalize / free / clear / drop / reconfigure over a pool of programs",
  LL+"; LLVM tests cover a couple of fixed sequences.",
  [G+"compiler/mod.rs","crates/revmc-llvm/src/lib.rs","crates/revmc-llvm/src/orc.rs"],
  [("module life cycle","clear, clear_ir, free_function"),("JIT dylib and resource tracking","revmc-llvm")],
  ["behaviour of live functions after each step"])
p("C16","The runtime hands out exactly the right compiled program",
  "For every history of lookups, compile requests, batch preparations, clears, enabling, disabling, pausing and settings, a lookup returns either an interpret decision with the documented reason or the compiled program for exactly that code and hardfork. Code becomes compiled only when hot enough or explicitly requested, empty or over-long code never does, a failure never poisons other code, and the counters agree with the history.",
  ["histories","configurations"],"every history of API operations x settings",
  "Stable runtime tests use fixed short histories without real compilation.",
  [R+"runtime/mod.rs",R+"runtime/backend.rs",R+"runtime/worker.rs",R+"runtime/config.rs",R+"runtime/api.rs",R+"runtime/stats.rs"],
  [("resident map and entry state machine","BackendState, EntryState"),("eligibility","jit_max_bytecode_len, hot threshold")],
  ["LookupDecision, RuntimeStatsSnapshot, compilation events"])
p("C17","Concurrent use of the runtime never loses or mixes up work",
  "Under every interleaving of lookups, synchronous and asynchronous compile requests, clears, evictions, pauses and shutdown from several threads, every call returns, a synchronous request returns only once its own code has been compiled or failed, and no caller ever runs code that was compiled for something else or already freed. After the work drains the pending count is zero, and a cleared program is not resident again unless requested after the clear.",
  ["schedules","histories"],"every interleaving of API calls from several threads with worker completions, evictions and clears",
  "Stable tests are single-threaded fixed schedules.",
  [R+"runtime/mod.rs",R+"runtime/backend.rs",R+"runtime/worker.rs",R+"runtime/out_of_process.rs"],
  [("generation counter","BackendState::generation"),("pending notifiers","PendingNotifier"),("shared ownership of code","CompiledProgram backing")],
  ["return of calls, behaviour of returned programs, stats"])
p("C18","Stored artifacts come back intact or not at all",
  "For every history of storing, overwriting, loading, deleting and clearing compiled artifacts over many keys, directly or through runtimes sharing one store, a load returns exactly the last artifact stored for that code, hardfork, backend and optimization level, or reports absence or an error; never another key's artifact or different bytes. A runtime started on a store serves exactly the loadable artifacts, each under its own key and behaving like its own code; a missing or damaged one is skipped without hiding the others and is rebuilt on demand, and a program already loaded keeps working whatever later happens to the stored file through the store.",
  ["histories","fault_sequences"],"every history of store and runtime operations over several keys x files removed, emptied or replaced by garbage, store calls failing",
  "Stable tests store and load one or two artifacts with no damage and never load one into a runtime.",
  [R+"runtime/storage.rs",R+"runtime/backend.rs",R+"runtime/mod.rs"],
  [("artifact store","ArtifactStore, RuntimeArtifactStore"),("artifact key","ArtifactKey"),("startup preload","JitBackend::preload_aot"),("probe before compiling","try_load_persisted_aot")],
  ["load / load_all results, resident programs of a runtime on the store"])
p("C19","Assembly text and bytecode formatting round-trip",
  "Assembling any valid program text gives the bytecode it denotes, with each push as wide as written or just wide enough for its value, and labels and comments handled consistently. The disassembly of any bytecode names every instruction and immediate that the interpreter would decode at that position, so re-assembling the listing of complete known instructions (index-encoded DUPN, SWAPN and EXCHANGE immediates aside) gives the same bytes; malformed text is rejected with an error, not a crash or silently different code.",
  ["inputs"],"every program text and every byte string",
  "Stable tests assemble a few dozen fixed texts.",
  [G+"bytecode/asm.rs",G+"bytecode/fmt.rs",G+"bytecode/opcode.rs","crates/revmc-cli/src"],
  [("assembler","parse_asm"),("instruction iterator and formatter","OpcodesIter, format_bytecode")],
  ["bytes out, text out, errors"])
p("C20","The state-test runner accepts exactly the tests whose claims are true",
  "For every set of state-test files, in interpreter, JIT and AOT mode, on one thread or many, stopping at the first failure or going on, the run succeeds if and only if every claim in every entry (hardfork, data, gas and value variant) is true of that entry's own execution from the unit's own pre-state: the post-state root, the logs hash, the expected output, and whether the transaction is refused. The interpreter and compiled snapshots behind the comparison tool carry the true status, gas, output, state root and logs hash of the entry, and two snapshots are reported as different exactly when one of these differs.",
  ["inputs","configurations"],"every set of test files x compile mode x threads x keep-going",
  "No stable test runs the runner on a generated file, and the fixtures it was written for are not available; a runner that accepts wrong claims hides every other bug.",
  ["crates/revmc-statetest/src/compiled.rs","crates/revmc-statetest/src/runner.rs","crates/revmc-statetest/src/merkle_trie.rs","crates/revmc-statetest/src/diagnostic.rs"],
  [("runner","compiled::run, execute_test_suite, execute_test_suite_runtime"),("verdict","check_evm_execution, compute_test_roots"),("comparison","diagnostic::run_interpreter, run_jit, compare")],
  ["verdict (exit status or error) of a run, snapshots and reported mismatches"])
p("C21","The blockchain-test runner accepts exactly the chains whose claims are true",
  "For every set of blockchain-test files whose blocks are valid, the run succeeds if and only if everything the files claim is true of executing each test's blocks in order from its own pre-state under its hardfork: the gas used by every block, the access list of every block that states one, and the balance, nonce, storage (slots not listed being zero) and stated code of every account listed in the post-state. Execution includes the block rewards, withdrawals, system calls before and after each block and the block hashes that the hardfork prescribes, and blocks see the environment in their own header. A block announced as invalid because of a refused transaction leaves no trace of that transaction, and an unreadable file fails the run. (Blob prices that change between blocks, hardfork transitions within a chain and the files skipped by name are outside this.)",
  ["inputs","histories"],"every set of test files x chain of blocks x hardfork",
  "No stable test runs the runner at all; it is what vouches for the EVM that compiled code is compared with.",
  ["crates/revmc-statetest/src/btest/mod.rs","crates/revmc-statetest/src/btest/pre_block.rs","crates/revmc-statetest/src/btest/post_block.rs"],
  [("runner","run_btests, run_test_file, execute_blockchain_test"),("block transitions","pre_block_transition, post_block_transition, block_reward"),("verdict","validate_post_state, block gas used, access list comparison")],
  ["verdict of run_btests"])
p("C22","A prepared benchmark runs exactly the transaction its fixture describes",
  "For every benchmark fixture (accounts, environment, first transaction, hardfork) and for code given on its own, both the interpreter's run and the compiled run of the prepared benchmark give the result and state changes that the plain EVM gives for that transaction, starting from the fixture's state every time. This holds whichever way the benchmark was prepared: by a fresh or used compiler, with some code already translated or compiled, or with the called contract's code from a library, which is used for that contract only. The sanity check fails exactly when a success that the fixture asserts does not happen or the two runs disagree.",
  ["inputs","configurations"],"every fixture x way of preparing it",
  "The fixtures in the repository are two dozen fixed ones, and its stable tests run none of them.",
  ["crates/revmc-cli/src/fixture.rs","crates/revmc-cli/src/benches.rs","crates/revmc-context/src/jit_evm.rs"],
  [("preparation","PreparedBench::load*, parse_fixture, fixture_entry_bytecode, fixture_from_bytecode"),("runs","run_interpreter, run_jit, sanity_check"),("map-based EVM","simple_revm_evm::JitEvm")],
  ["result and state of run_interpreter and run_jit, verdict of sanity_check"])
import os
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
