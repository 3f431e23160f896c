//! The properties: what a case is, and how many to run.

pub mod asm;
pub mod bench;
pub mod bt;
pub mod comp;
pub mod diff;
pub mod rt;
pub mod st;
pub mod tx;

use crate::{runner::Info, src::Src};

pub struct Plan {
    pub quick_cases: u64,
    pub quick_secs: u64,
    pub hang_secs: u64,
    pub rule: &'static str,
    pub confirm_tries: u32,
    pub flaky_is_violation: bool,
}

const DIFF_RULE: &str = "Random structured EVM program compiled by the real backend and run in several generated contexts next to the reference interpreter; non-trivial when the interpreter's run ends without an exceptional halt (so that every effect is compared). Counted as distinct (program, context) hashes.";

pub fn plan(id: &str) -> Plan {
    let d = Plan {
        quick_cases: 60_000,
        quick_secs: 60,
        hang_secs: 40,
        rule: DIFF_RULE,
        confirm_tries: 1,
        flaky_is_violation: false,
    };
    match id {
        "C10" | "C11" => Plan { rule: "Random world of mutually calling contracts and a sequence of transactions, system calls, block/hardfork/backend changes run on a JIT-backed EVM and the plain one; non-trivial when at least one transaction was executed and at least one program was compiled. Counted as distinct histories.", ..d },
        "C13" => Plan { rule: "A set of random programs emitted as objects, linked into one shared library (possibly in several batches), loaded back and run next to in-process code and the interpreter; non-trivial when the interpreter's run ends without an exceptional halt. Counted as distinct (program, context) hashes.", ..d },
        "C14" => Plan { rule: "Raw, mutated or hostile byte string parsed, analysed twice, formatted and compiled under generated settings; non-trivial when the compiled function was also run and compared. Counted as distinct byte strings.", ..d },
        "C15" => Plan { rule: "Random history of operations on one or two compilers, every live function re-run after each step; non-trivial when at least one function was run after a later operation. Counted as distinct histories.", ..d },
        "C16" => Plan { rule: "Random settings and a random history of runtime operations followed by a reference model of what is resident, hot, persisted and counted, with real compilation; every program handed out is run against the interpreter; non-trivial when at least one compilation was dispatched. Counted as distinct histories plus distinct (program, context) runs that end without a halt.", ..d },
        "C17" => Plan { confirm_tries: 25, flaky_is_violation: true, rule: "Random scripts run by several threads on one runtime (requests, clears, evictions, pauses, shutdown in the middle of work), every program handed out run against the interpreter; non-trivial when at least one program was handed out and run. Counted as distinct histories plus distinct (program, context) runs that end without a halt.", ..d },
        "C18" => Plan { rule: "Random history on artifact stores (against a map) or on runtimes sharing a store (with damaged files and failing store calls); non-trivial for store histories always and for runtime histories when at least one artifact was loaded or built. Counted as distinct histories plus distinct (program, context) runs that end without a halt.", ..d },
        "C19" => Plan { quick_cases: 1_000_000, quick_secs: 40, rule: "Random program text, byte string or malformed text put through the assembler, disassembler, analysed listing and CLI reader, against an independent reference assembler/decoder; non-trivial when the text is valid and non-empty. Counted as distinct inputs.", ..d },
        "C20" => Plan { rule: "Random state tests with claims computed by the plain EVM over a plain map (all true, or one made false) given to the runner in interpreter, JIT or AOT mode as files, and the comparison tool's two runs of an entry against the plain run; non-trivial for every runner verdict and for comparisons where code was compiled. Counted as distinct tests.", ..d },
        "C21" => Plan { rule: "Random chains of blocks with claims computed by the plain EVM (all true, or one made false) given to the blockchain-test runner as files; every verdict is non-trivial. Counted as distinct chains.", ..d },
        "C22" => Plan { rule: "Random benchmark fixture (or code on its own) prepared in one of several ways and run by interpreter and compiled code, next to the plain EVM; non-trivial when the transaction succeeds and code was involved. Counted as distinct fixtures.", ..d },
        _ => d,
    }
}

pub fn case(id: &str, s: &mut Src, info: &mut Info) -> Result<(), String> {
    match id {
        "C01" => diff::c01(s, info),
        "C02" => diff::c02(s, info),
        "C03" => diff::c03(s, info),
        "C04" => diff::c04(s, info),
        "C05" => diff::c05(s, info),
        "C06" => diff::c06(s, info),
        "C07" => diff::c07(s, info),
        "C08" => diff::c08(s, info),
        "C09" => diff::c09(s, info),
        "C10" => tx::c10(s, info),
        "C11" => tx::c11(s, info),
        "C12" => diff::c12(s, info),
        "C13" => {
            if s.chance(1, 5) {
                rt::routes(s, info)
            } else {
                comp::aot(s, info)
            }
        }
        "C14" => comp::c14(s, info),
        "C15" => comp::c15(s, info),
        "C16" => rt::c16(s, info),
        "C17" => rt::c17(s, info),
        "C18" => rt::c18(s, info),
        "C19" => asm::c19(s, info),
        "C20" => st::c20(s, info),
        "C21" => bt::c21(s, info),
        "C22" => bench::c22(s, info),
        _ => panic!("unknown property {id}"),
    }
}
