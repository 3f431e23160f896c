//! Runs one contract compiled and interpreted, and compares.
use crate::exec::*;
use revmc::{SpecId, primitives::Bytes};

pub struct Case {
    pub code: Bytes,
    pub cfg: Cfg,
    pub ctx: Ctx,
}

pub fn case(code: &str, spec: SpecId) -> Case {
    Case { code: hex::decode(code).unwrap().into(), cfg: Cfg::default(), ctx: Ctx::plain(spec) }
}

impl Case {
    pub fn run(&self) -> bool {
        let c = match compile(&self.cfg, &self.code, self.ctx.spec) {
            Ok(c) => c,
            Err(e) => {
                println!("does not compile: {e}");
                return false;
            }
        };
        let a = run_ref(&self.ctx, &self.code);
        let b = run_fn(&self.ctx, &self.code, c.f);
        let cmp = Cmp { stack: self.cfg.inspect_stack, cause: !self.cfg.single_error };
        match compare(&a, &b, cmp) {
            Ok(()) => {
                println!("agree: {:?} {:?}", a.end, a.gas);
                true
            }
            Err(e) => {
                println!("DIFFER: {e}");
                false
            }
        }
    }
}
