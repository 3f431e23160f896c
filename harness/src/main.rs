mod exec;
mod gens;
mod host;
mod progs;
mod props;
mod runner;
mod src;

fn main() {
    // Re-run as the out-of-process compilation helper?
    match revmc::runtime::maybe_run_jit_helper() {
        Ok(std::ops::ControlFlow::Continue(())) => {}
        Ok(std::ops::ControlFlow::Break(())) => return,
        Err(_) => std::process::exit(3),
    }
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or("");
    let seed = || std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1u64);
    let tier = || std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let code = match arg(1) {
        "check" => runner::check(arg(2), &if arg(3).is_empty() { tier() } else { arg(3).into() }, seed()),
        "serve" => {
            runner::serve(arg(2), arg(3).parse().unwrap());
            0
        }
        "run" => {
            // vp run HEX SPEC [inspect] [init_n]: quick experiment.
            let code: revmc::primitives::Bytes = hex::decode(arg(2)).unwrap().into();
            let spec: revmc::SpecId = arg(3).parse().unwrap();
            let mut cfg = exec::Cfg { inspect_stack: arg(4).contains("inspect"), ..Default::default() };
            if arg(4).contains("O0") {
                cfg.opt = revmc::OptimizationLevel::None;
            }
            cfg.dse = !arg(4).contains("nodse");
            cfg.dedup = !arg(4).contains("nodedup");
            if arg(4).contains("dump") {
                let mut cc = exec::compiler(&cfg, false);
                let b = cc.parse((&code[..]).into(), spec).unwrap();
                println!("{b}");
            }
            let c = exec::compile(&cfg, &code, spec).unwrap();
            let mut ctx = exec::Ctx::plain(spec);
            ctx.init_stack = (0..arg(5).parse().unwrap_or(0)).map(|i| revmc::primitives::U256::from(0x77 + i)).collect();
            let mut a = exec::run_ref(&ctx, &code);
            let mut b = exec::run_fn(&ctx, &code, c.f);
            println!("{:?}", exec::compare(&a, &b, exec::Cmp { stack: cfg.inspect_stack, cause: false }));
            a.memory.truncate(64);
            b.memory.truncate(64);
            println!("ref {:?} {:?} {:?}\njit {:?} {:?} {:?}", a.end, a.gas, a.stack, b.end, b.gas, b.stack);
            0
        }
        "first-use" => match props::rt::first_use(arg(2).parse().unwrap(), arg(3) == "true", arg(4).parse().unwrap()) {
            Ok(n) => {
                println!("OK {n}");
                0
            }
            Err(e) => {
                println!("{e}");
                1
            }
        },
        "one" => runner::one(arg(2), arg(3).parse().unwrap()),
        "btest" => props::bt::child(&args[2..]),
        "statetest" => props::st::child(&args[2..]),
        "replay" => runner::replay(arg(2)),
        _ => {
            eprintln!("usage: vp check ID [quick|thorough] | vp replay FILE");
            2
        }
    };
    std::process::exit(code);
}
