NA={}
TRUST=" Trusts revm's interpreter as the oracle, and the linking kit (/verif/llvm) that stands in for revmc-llvm's C++ plug-in file."
D="differential random program generation with shrinking: "
T["C01"]=(D+"compiled code against the reference interpreter","Random structured programs (straight-line, loops, calls, control-flow graphs, look-alike dispatch blocks, labels and constants carried on the stack, deep stacks) in random contexts; every observable of the frame is compared. Sampling, no exhaustiveness."+TRUST)
T["C02"]=(D+"gas limits placed at every boundary the interpreter's step trace shows, custom gas schedules","Gas limits sampled at and around the amounts spent before instructions."+TRUST)
T["C03"]=(D+"random control-flow graphs with static, computed, duplicated-block and invalid jumps","Sampling of control-flow shapes: graphs, shared and copied dispatch blocks with equal or different destinations, labels handed over through joins of different heights and loops, jumps into immediates, past the end and over 64 bits."+TRUST)
T["C04"]=(D+"boundary-weighted operands, constant and dynamic forms of the same expression","Every instruction with every choice of constant, dynamic and repeated operands; sampling of operand values."+TRUST)
T["C05"]=(D+"memory-, copy- and return-data-heavy programs","Sampling; offsets and lengths at and around memory size, source length, 2^32, 2^64."+TRUST)
T["C06"]=(D+"stack-shuffling programs with depths at both limits, final stacks compared","Sampling; depths 0 to 1024 and over, sections that just fit and just do not."+TRUST)
T["C07"]=(D+"host-heavy programs against a recording host, static and non-static frames","Host calls are compared as an ordered log; accounts absent, empty, delegated, poor, already destroyed."+TRUST)
T["C08"]=(D+"the same bytes under several hardforks","Sampling over all hardforks and all 256 opcodes."+TRUST)
T["C09"]=(D+"suspension and resumption with generated call and create outcomes","Sampling."+TRUST)
T["C10"]=("differential model-based testing of transaction histories: JIT-backed EVMs (revm, alloy and map-based) against the plain EVM","Random worlds of mutually calling contracts, transaction sequences, backend states and database faults; sampling."+TRUST)
T["C11"]=("differential testing of inspector event streams over random transaction histories, with observing and overriding inspectors","As C10, with an inspector attached; events inside frames that halt are rolled back and left out of the comparison."+TRUST)
T["C12"]=("metamorphic and differential random testing: the same program under generated compiler settings","Sampling over settings and programs."+TRUST)
T["C13"]=(D+"sets of programs through object emission, linking and dlopen, and through the helper process, against in-process code and the interpreter","Sampling of programs, batch shapes and routes."+TRUST)
T["C14"]=("fuzzing with raw, structured, damaged and hostile byte strings: no crash, no hang, same analysis and behaviour twice","Sampling up to the maximum code size, with sweeps of the analysis alone; time and compile budget are bounded by generous limits."+TRUST)
T["C15"]=("stateful random testing of compiler histories with shrinking: each live function against its own fresh compilation","Histories of up to a few dozen operations over one or two compilers."+TRUST)
T["C16"]=("stateful model-based testing of runtime histories with real compilation: a reference model of residency, hotness, persistence and counters","Histories of up to 14 operations over up to 5 programs, 7 kinds of configuration, idle and memory eviction, pauses, helper death; sampling. The JIT memory counters come from the linking kit (fixed size per module)."+TRUST)
T["C17"]=("randomised concurrency testing: generated scripts on several threads against one runtime, invariants over every answer and over the drained end state","Schedules are the operating system's plus pauses injected where the compiler calls into the linking kit, not enumerated; a failure is confirmed by replaying the script up to 25 times."+TRUST)
T["C18"]=("stateful model-based testing with fault injection: store histories against a map, and runtimes sharing a store with damaged files and failing calls","Histories of up to 12 operations; one, several or all files are removed, emptied, replaced by garbage; sampling."+TRUST)
T["C19"]=("round-trip and model-based random testing of assembler, disassembler and listings against an independent decoder","Sampling; DUPN/SWAPN/EXCHANGE immediates are decoded independently from EIP-8024.")
T["C20"]=("differential and metamorphic random testing of the state-test runner: generated tests with claims computed by the plain EVM over a plain map, true or with one claim made false","Sampling; runs are separate processes; files nested, broken, missing or not tests at all. Trusts revm, alloy-trie's root function and the state-test format's parser."+TRUST)
T["C21"]=("metamorphic random testing of the blockchain-test runner: generated chains with claims computed by the plain EVM, true or with one claim made false","Chains of up to 5 blocks with up to 3 transactions each, all hardforks, recording contracts at the system addresses; sampling. Trusts revm and the test format's parser.")
T["C22"]=(D+"generated fixtures prepared in six ways, both runs against the plain EVM","Sampling; plain (type 0) transactions, as fixtures have."+TRUST)
