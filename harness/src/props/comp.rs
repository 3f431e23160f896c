//! The compiler object: arbitrary input (C14), arbitrary histories (C15), compilation routes (C13).

use super::diff::{check_one, describe, describe_ctx, gas_params};
use crate::{
    exec::{self, Cfg, Cmp, Ctx},
    gens,
    progs::{self, GENERAL},
    runner::{Info, fnv},
    src::Src,
};
use revmc::{EvmCompiler, EvmCompilerFn, EvmLlvmBackend, Linker, OptimizationLevel, SpecId, context_interface::cfg::GasParams, primitives::Bytes};
use revmc::revm_bytecode::opcode as op;
use std::{collections::BTreeMap, path::PathBuf};

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("vp-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Self(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------- C14

/// Inputs chosen to be expensive for an analysis.
fn hostile(s: &mut Src, n: usize) -> Vec<u8> {
    let mut out = vec![];
    let kind = s.below(9);
    let k = s.range(1, 12);
    let unit = s.bytes(k);
    let a = s.below(n.max(1));
    while out.len() < n {
        let i = out.len();
        match kind {
            // Every position a destination, every jump dynamic.
            0 => out.extend([op::JUMPDEST, op::CALLDATASIZE, op::JUMP]),
            // All jumps to one place.
            1 => out.extend([op::PUSH2, (a >> 8) as u8, a as u8, op::JUMPI, op::JUMPDEST]),
            // Costly folds.
            2 => {
                out.push(op::PUSH32);
                out.extend([0xff; 32]);
                out.extend([op::DUP1, op::EXP, op::POP]);
            }
            // Growing and shrinking heights across blocks.
            3 => out.extend([op::JUMPDEST, op::DUP1, op::DUP1, op::CALLDATASIZE, op::PUSH2, (i / 2 >> 8) as u8, (i / 2) as u8, op::JUMPI]),
            // A ladder of conditional jumps forward with a value carried along.
            4 => {
                let t = i + 9;
                out.extend([op::JUMPDEST, op::PUSH1, 1, op::ADD, op::CALLDATASIZE, op::PUSH2, (t >> 8) as u8, t as u8, op::JUMPI])
            }
            5 => out.extend([op::DUP16, op::SWAP16]),
            // Calls that return through values on the stack.
            6 => {
                let r = i + 7;
                out.extend([op::PUSH2, (r >> 8) as u8, r as u8, op::PUSH2, (a >> 8) as u8, a as u8, op::JUMP, op::JUMPDEST])
            }
            7 => out.extend(&unit),
            _ => out.extend([op::PUSH1, i as u8, op::MLOAD, op::PUSH1, i as u8, op::MSTORE]),
        }
    }
    out.truncate(n);
    out
}

pub fn c14(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let spec = progs::spec(s);
    let mut cfg = Cfg::generate(s);
    if s.chance(1, 12) {
        return budget(s, info, spec);
    }
    if s.chance(1, 6) {
        // Analysis alone is cheap: many programs.
        info.tag("analysis_sweep");
        cfg.dedup |= s.bool();
        for i in 0..40 {
            let mut code = if s.chance(1, 4) { gens::dispatch_program(s, spec) } else { gens::any_program(s, spec) };
            if s.chance(1, 3) {
                gens::damage(s, &mut code);
            }
            info.desc = describe(&code, spec, &cfg);
            let mut c = exec::compiler(&cfg, false);
            c.parse((&code[..]).into(), spec).map_err(|e| format!("analysis failed: {e:#}"))?;
            info.evals += 1;
            if i == 0 {
                info.nontrivial.push(fnv(&code));
            }
        }
        return Ok(());
    }
    let size = s.weighted(&[160, 12, 2]);
    let code = match size {
        0 if s.chance(1, 8) => {
            let n = s.range(1, 400);
            hostile(s, n)
        }
        0 if s.chance(1, 2) => {
            info.tag("structured");
            let mut c = gens::any_program(s, spec);
            if s.bool() {
                gens::damage(s, &mut c);
            }
            c
        }
        0 => gens::raw_bytes(s, spec, 250),
        1 => {
            let n = s.range(300, 1500);
            if s.bool() { hostile(s, n) } else { gens::raw_bytes(s, spec, n) }
        }
        _ => {
            let n = *s.pick(&[4000usize, 24_576]);
            if s.bool() { hostile(s, n) } else { s.bytes(n) }
        }
    };
    info.desc = describe(&code, spec, &cfg);
    // Analysis: twice the same, printable.
    {
        let listing = |cfg: &Cfg| -> Result<(String, u64), String> {
            let mut c = exec::compiler(cfg, false);
            let b = c.parse((&code[..]).into(), spec).map_err(|e| format!("analysis failed: {e:#}"))?;
            let mut t = b.to_string();
            let mut dot = String::new();
            b.write_dot(&mut dot).map_err(|e| format!("dot: {e}"))?;
            t.push_str(&dot);
            let d = fnv(format!("{b:?}").as_bytes());
            Ok((t, d))
        };
        let a = listing(&cfg)?;
        let b = listing(&cfg)?;
        info.evals += 1;
        if a.1 != b.1 || a.0 != b.0 {
            return Err("two analyses of the same code differ".into());
        }
    }
    // Analysis alone is cheap: many changes of the same program.
    if size == 0 && s.chance(1, 3) {
        for _ in 0..12 {
            let mut m = code.clone();
            gens::damage(s, &mut m);
            info.desc = describe(&m, spec, &cfg);
            let mut c = exec::compiler(&cfg, false);
            c.parse((&m[..]).into(), spec).map_err(|e| format!("analysis failed: {e:#}"))?;
            info.evals += 1;
        }
        info.desc = describe(&code, spec, &cfg);
    }
    if size == 2 {
        // Full-size inputs: code generation only at the cheapest settings, sometimes.
        info.nontrivial.push(fnv(&code));
        info.tag("full_size_analysis");
        if code.len() > 5000 || !s.chance(1, 2) {
            return Ok(());
        }
        cfg.opt = OptimizationLevel::None;
    }
    let code: Bytes = code.into();
    let scratch;
    let c = if size == 0 && s.chance(1, 25) {
        // With dumps of every stage.
        scratch = Scratch::new();
        let mut c = exec::compiler(&cfg, false);
        c.set_module_name("vp module");
        c.set_dump_to(Some(scratch.0.clone()));
        c.dump_assembly(s.bool());
        info.tag("dumped");
        let f = unsafe { c.jit("vp", &code, spec) }.map_err(|e| format!("compilation failed: {e:?}"))?;
        exec::Compiled { f, c }
    } else {
        exec::compile(&cfg, &code, spec)?
    };
    for _ in 0..2 {
        let ctx = Ctx::generate(s, spec);
        check_one(c.f, &code, &ctx, Cmp { stack: cfg.inspect_stack, cause: !cfg.single_error }, info)?;
    }
    if size == 0 && s.chance(1, 10) {
        // Emitting the object twice gives the same bytes.
        let mut objs = vec![];
        for _ in 0..2 {
            let mut c = exec::compiler(&cfg, true);
            c.translate("vp", &code, spec).map_err(|e| format!("AOT compilation failed: {e:?}"))?;
            let mut o = vec![];
            c.write_object(&mut o).map_err(|e| format!("object emission failed: {e:?}"))?;
            objs.push(o);
        }
        info.tag("object_pairs");
        info.evals += 1;
        if objs[0] != objs[1] {
            return Err("two compilations give different objects".into());
        }
    }
    Ok(())
}

/// Jump targets that take compile-time evaluation to know: no more of them are known than the
/// budget pays for.
fn budget(s: &mut Src, info: &mut Info, spec: SpecId) -> Result<(), String> {
    let n = s.range(1, 30);
    let mut code = vec![];
    let mut costs = vec![];
    for _ in 0..n {
        let x = s.range(1, 200) as u16;
        let len: u16 = 8;
        let t = code.len() as u16 + len;
        let (o, c) = *s.pick(&[(op::ADD, 3u64), (op::XOR, 3), (op::MUL, 5), (op::SUB, 3), (op::EXP, 60)]);
        let (a, b) = match o {
            op::ADD => (t.wrapping_sub(x), x),
            op::XOR => (t ^ x, x),
            op::MUL => (t, 1),
            op::EXP => (1, t),
            _ => (x, t.wrapping_add(x)),
        };
        costs.push(c);
        let [a, b] = [a.to_be_bytes(), b.to_be_bytes()];
        code.extend([op::PUSH2, a[0], a[1], op::PUSH2, b[0], b[1], o, op::JUMP, op::JUMPDEST]);
    }
    code.push(op::STOP);
    let limit = *s.pick(&[0u64, 1, 2, 3, 4, 7, 10, 30, 60, 120]);
    let cfg = Cfg { gas_budget: Some(limit), ..Default::default() };
    info.desc = describe(&code, spec, &cfg);
    info.evals += 1;
    info.nontrivial.push(fnv(&code));
    info.tag("budget");
    let mut c = exec::compiler(&cfg, false);
    let text = c.parse((&code[..]).into(), spec).map_err(|e| format!("analysis failed: {e:#}"))?.to_string();
    let known = text.lines().filter(|l| l.trim_start().starts_with("JUMP ") && !l.contains("%dynamic")).count();
    costs.sort();
    let mut sum = 0;
    let most = costs.iter().take_while(|c| { sum += **c; sum <= limit }).count();
    if known > most {
        return Err(format!("{known} evaluated jump targets with a budget of {limit}, which pays for {most}\n{text}"));
    }
    let code: Bytes = code.into();
    let c = exec::compile(&cfg, &code, spec)?;
    let ctx = Ctx::generate(s, spec);
    check_one(c.f, &code, &ctx, Cmp { stack: false, cause: false }, info)?;
    Ok(())
}

// ---------------------------------------------------------------- C15

struct Live {
    f: EvmCompilerFn,
    prog: usize,
    cmp: Cmp,
    /// Functions of one module are freed together.
    module: u64,
    gas: Option<GasParams>,
    name: String,
}

struct Comp {
    c: EvmCompiler<EvmLlvmBackend>,
    cfg: Cfg,
    /// Translated, not yet compiled: (name, id, program, compare, gas schedule).
    staged: Vec<(String, u32, usize, Cmp, Option<GasParams>)>,
    /// Ids that were freed or cleared.
    stale: Vec<u32>,
    /// Ids that freeing again must not do anything for.
    gone: Vec<u32>,
    /// Names whose functions are gone.
    free_names: Vec<String>,
    finalized: bool,
    module: u64,
    names: u64,
    live: BTreeMap<u32, Live>,
}

impl Comp {
    /// All functions of a module go together.
    fn drop_module(&mut self, m: u64) {
        for (id, l) in self.live.iter().filter(|(_, l)| l.module == m) {
            self.stale.push(*id);
            self.gone.push(*id);
            self.free_names.push(l.name.clone());
        }
        self.live.retain(|_, l| l.module != m);
        if m == self.module {
            self.stale.extend(self.staged.drain(..).map(|x| x.1));
        }
    }

    /// What was staged is dropped with the module.
    fn drop_staged(&mut self) {
        for x in self.staged.drain(..) {
            self.stale.push(x.1);
            if !self.finalized {
                self.gone.push(x.1);
                self.free_names.push(x.0);
            }
        }
        self.finalized = false;
    }

    fn name(&mut self, s: &mut Src) -> String {
        if !self.free_names.is_empty() && s.bool() {
            let i = s.below(self.free_names.len());
            return self.free_names.swap_remove(i);
        }
        self.names += 1;
        format!("f{}", self.names)
    }
}

pub fn c15(s: &mut Src, info: &mut Info) -> Result<(), String> {
    if s.chance(1, 40) {
        // The first history of a process.
        let seed = s.u64();
        info.tag("fresh_process");
        return crate::runner::in_child("C15", seed, info);
    }
    history(s, info)
}

pub fn history(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let spec0 = progs::spec(s);
    let np = s.range(2, 5);
    let mut pool: Vec<(Bytes, SpecId, Ctx)> = vec![];
    let gp = s.chance(1, 3);
    for _ in 0..np {
        let spec = if !gp && s.chance(1, 4) { progs::spec(s) } else { spec0 };
        let p = *s.pick(&[gens::TINY, gens::TINY, gens::GAS, gens::HOST, gens::CALLS, GENERAL, gens::ARITH]);
        let code: Bytes = progs::program(s, p, spec, 0).into();
        let ctx = Ctx::generate(s, spec);
        pool.push((code, spec, ctx));
    }
    let mut log = String::new();
    for (i, p) in pool.iter().enumerate() {
        log.push_str(&format!("program {i}: {:?} 0x{}\n", p.1, hex::encode(&p.0)));
    }
    let mut modules = 0u64;
    let new = |s: &mut Src, modules: &mut u64| {
        let mut cfg = Cfg::generate(s);
        cfg.gas_params = (gp && s.bool()).then(|| gas_params(s, spec0));
        *modules += 1;
        Comp {
            c: exec::compiler(&cfg, false),
            cfg,
            staged: vec![],
            stale: vec![],
            gone: vec![],
            free_names: vec![],
            finalized: false,
            module: *modules,
            names: 0,
            live: BTreeMap::new(),
        }
    };
    let mut comps: Vec<Comp> = vec![new(s, &mut modules)];
    // Some histories build and free one function after another in the same compiler.
    let churn = s.chance(1, 3);
    let steps = if churn { s.range(5, 24) } else { s.range(3, 16) };
    for step in 0..steps {
        let k = s.below(comps.len().max(1));
        if comps.is_empty() {
            comps.push(new(s, &mut modules));
        }
        match s.weighted(if churn { &[1, 1, 1, 0, 8, 0, 0, 1, 0, 1, 1, 12, 2] } else { &[10, 8, 4, 2, 2, 2, 2, 3, 2, 2, 2, 2, 2] }) {
            11 => {
                // The usual cycle: add, compile, drop what is no longer needed for running.
                let co = &mut comps[k];
                co.c.clear_ir().map_err(|e| format!("clear_ir failed: {e:#}"))?;
                co.drop_staged();
                modules += 1;
                co.module = modules;
                for _ in 0..if s.chance(1, 4) { 2 } else { 1 } {
                    let p = s.below(pool.len());
                    let name = co.name(s);
                    log.push_str(&format!("{step}: c{k} builds {name}, program {p}, in module {}\n", co.module));
                    info.desc = log.clone();
                    let id = co.c.translate(&name, &pool[p].0, pool[p].1).map_err(|e| format!("translate failed: {e:#}"))?;
                    let cmp = Cmp { stack: co.cfg.inspect_stack, cause: !co.cfg.single_error };
                    co.staged.push((name, id, p, cmp, co.cfg.gas_params.clone()));
                }
                for (name, id, prog, cmp, gas) in co.staged.drain(..) {
                    let f = unsafe { co.c.jit_function(id) }.map_err(|e| format!("jit_function failed: {e:#}"))?;
                    co.live.insert(id, Live { f, prog, cmp, module: co.module, gas, name });
                }
                log.push_str(&format!("{step}: c{k}.clear_ir()\n"));
                co.c.clear_ir().map_err(|e| format!("clear_ir failed: {e:#}"))?;
                co.finalized = false;
                modules += 1;
                co.module = modules;
            }
            0 => {
                // Add one or several functions.
                for _ in 0..s.range(1, 3) {
                    let p = s.below(pool.len());
                    let co = &mut comps[k];
                    let name = co.name(s);
                    log.push_str(&format!("{step}: c{k}.translate({name}, program {p})\n"));
                    info.desc = log.clone();
                    let r = co.c.translate(&name, &pool[p].0, pool[p].1);
                    match (r, co.finalized) {
                        (Ok(id), false) => {
                            let cmp = Cmp { stack: co.cfg.inspect_stack, cause: !co.cfg.single_error };
                            co.staged.push((name, id, p, cmp, co.cfg.gas_params.clone()));
                        }
                        (Ok(_), true) => return Err("a function was added to a finalized module".into()),
                        (Err(_), true) => {}
                        (Err(e), false) => return Err(format!("translate failed: {e:#}")),
                    }
                }
            }
            1 => {
                // Compile what is staged, in any order, possibly only part of it.
                let co = &mut comps[k];
                let n = co.staged.len();
                if n == 0 {
                    continue;
                }
                let m = if s.chance(1, 4) { s.range(1, n) } else { n };
                for _ in 0..m {
                    let i = s.below(co.staged.len());
                    let (name, id, prog, cmp, gas) = co.staged.remove(i);
                    log.push_str(&format!("{step}: c{k}.jit_function({name})\n"));
                    info.desc = log.clone();
                    let f = unsafe { co.c.jit_function(id) }.map_err(|e| format!("jit_function failed: {e:#}"))?;
                    co.finalized = true;
                    co.live.insert(id, Live { f, prog, cmp, module: co.module, gas: gas.clone(), name: name.clone() });
                    if s.chance(1, 4) {
                        let g = unsafe { co.c.jit_function(id) }.map_err(|e| format!("second jit_function failed: {e:#}"))?;
                        if g.into_inner() as usize != f.into_inner() as usize {
                            co.live.insert(id, Live { f: g, prog, cmp, module: co.module, gas, name });
                        }
                    }
                }
            }
            2 => {
                let co = &mut comps[k];
                log.push_str(&format!("{step}: c{k}.clear_ir()\n"));
                info.desc = log.clone();
                co.c.clear_ir().map_err(|e| format!("clear_ir failed: {e:#}"))?;
                co.drop_staged();
                modules += 1;
                co.module = modules;
            }
            3 => {
                let co = &mut comps[k];
                log.push_str(&format!("{step}: c{k}.clear()\n"));
                info.desc = log.clone();
                unsafe { co.c.clear() }.map_err(|e| format!("clear failed: {e:#}"))?;
                let ids: Vec<u32> = co.staged.drain(..).map(|x| x.1).chain(co.live.keys().copied()).collect();
                co.stale.extend(&ids);
                co.gone = co.stale.clone();
                co.live.clear();
                co.finalized = false;
                // Names are free again.
                co.free_names.clear();
                co.names = 0;
                modules += 1;
                co.module = modules;
            }
            4 => {
                let co = &mut comps[k];
                let Some((&id, _)) = (!co.live.is_empty()).then(|| co.live.iter().nth(s.below(co.live.len())).unwrap()) else { continue };
                log.push_str(&format!("{step}: c{k}.free_function({id})\n"));
                info.desc = log.clone();
                unsafe { co.c.free_function(id) }.map_err(|e| format!("free_function failed: {e:#}"))?;
                let m = co.live[&id].module;
                co.drop_module(m);
            }
            5 => {
                log.push_str(&format!("{step}: drop c{k}\n"));
                info.desc = log.clone();
                comps.remove(k);
            }
            6 if comps.len() < 4 => {
                log.push_str(&format!("{step}: new c{}\n", comps.len()));
                let c = new(s, &mut modules);
                comps.push(c);
            }
            7 => {
                let co = &mut comps[k];
                let mut cfg = Cfg::generate(s);
                // A schedule that was set can be replaced, but not unset.
                cfg.gas_params = co.cfg.gas_params.clone();
                if gp && s.bool() {
                    cfg.gas_params = Some(gas_params(s, spec0));
                }
                log.push_str(&format!("{step}: c{k} settings {cfg:?}\n"));
                if cfg.gas_budget.is_none() {
                    cfg.gas_budget = Some(100_000);
                }
                cfg.apply(&mut co.c);
                co.cfg = cfg;
            }
            9 => {
                // Free something that was not compiled yet.
                let co = &mut comps[k];
                if co.staged.is_empty() {
                    continue;
                }
                let i = s.below(co.staged.len());
                let id = co.staged[i].1;
                log.push_str(&format!("{step}: c{k}.free_function({id}), not compiled yet\n"));
                info.desc = log.clone();
                unsafe { co.c.free_function(id) }.map_err(|e| format!("free_function failed: {e:#}"))?;
                if co.finalized {
                    let m = co.module;
                    co.drop_module(m);
                } else {
                    let x = co.staged.remove(i);
                    co.stale.push(id);
                    co.gone.push(id);
                    co.free_names.push(x.0);
                }
            }
            12 => {
                // Freeing what is gone does nothing.
                let co = &mut comps[k];
                if co.gone.is_empty() {
                    continue;
                }
                let id = co.gone[s.below(co.gone.len())];
                log.push_str(&format!("{step}: c{k}.free_function({id}), again\n"));
                info.desc = log.clone();
                unsafe { co.c.free_function(id) }.map_err(|e| format!("freeing a function again failed: {e:#}"))?;
            }
            10 => {
                // An id that is no longer valid never yields a function.
                let co = &mut comps[k];
                if co.stale.is_empty() {
                    continue;
                }
                let id = co.stale[s.below(co.stale.len())];
                log.push_str(&format!("{step}: c{k}.jit_function({id}), stale\n"));
                info.desc = log.clone();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { co.c.jit_function(id) }.is_ok()));
                if r.is_ok_and(|ok| ok) {
                    return Err(format!("the freed function {id} was compiled again"));
                }
                co.finalized = true;
            }
            _ => {
                // A name that is taken is refused, and refusing leaves everything as it was.
                let co = &mut comps[k];
                if let Some((name, ..)) = co.staged.first()
                    && !co.finalized
                {
                    let p = s.below(pool.len());
                    if co.c.translate(&name.clone(), &pool[p].0, pool[p].1).is_ok() {
                        return Err(format!("second function named {name} accepted"));
                    }
                }
            }
        }
        // Something that is alive still works.
        if churn {
            info.desc = log.clone();
            for l in comps.iter().flat_map(|c| c.live.values()) {
                run_live(l, &pool, info).map_err(|e| format!("after step {step}: {e}"))?;
            }
        } else if s.chance(1, 2) {
            let all: Vec<_> = comps.iter().flat_map(|c| c.live.values()).collect();
            if !all.is_empty() {
                let l = all[s.below(all.len())];
                run_live(l, &pool, info).map_err(|e| format!("after step {step}: {e}"))?;
            }
        }
    }
    info.desc = log;
    for l in comps.iter().flat_map(|c| c.live.values()) {
        run_live(l, &pool, info).map_err(|e| format!("at the end: {e}"))?;
    }
    Ok(())
}

fn run_live(l: &Live, pool: &[(Bytes, SpecId, Ctx)], info: &mut Info) -> Result<(), String> {
    let (code, _, ctx) = &pool[l.prog];
    let mut ctx = ctx.clone();
    if let Some(g) = &l.gas {
        ctx.host.gas_params = g.clone();
    }
    check_one(l.f, code, &ctx, l.cmp, info).map(|_| ()).map_err(|e| format!("program {}: {e}", l.prog))
}

// ---------------------------------------------------------------- C13, ahead of time

pub fn aot(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let n = s.range(1, 5);
    let mut cfg = Cfg::generate(s);
    cfg.debug_info = false;
    let mut progs_: Vec<(Bytes, SpecId, String)> = vec![];
    for i in 0..n {
        let spec = progs::spec(s);
        let p = *s.pick(&[gens::TINY, gens::HOST, gens::CALLS, GENERAL, gens::ARITH, gens::MEMORY, gens::JUMPS]);
        let code: Bytes = if i > 0 && s.chance(1, 4) {
            progs_[s.below(i)].0.clone()
        } else {
            progs::program(s, p, spec, 0).into()
        };
        let name = match s.below(3) {
            0 => format!("f{i}"),
            1 => format!("aot_{:x}_{spec:?}_{i}", fnv(&code)),
            _ => format!("contract.{i}"),
        };
        progs_.push((code, spec, name));
    }
    info.desc = progs_.iter().map(|(c, sp, n)| format!("{n}: {sp:?} 0x{}\n", hex::encode(c))).collect::<String>() + &format!("{cfg:?}");
    let dir = Scratch::new();
    // One object per batch; a batch may be split over several objects, made by one compiler or more.
    let mut objects = vec![];
    let mut c = exec::compiler(&cfg, true);
    let mut fresh = true;
    for (i, (code, spec, name)) in progs_.iter().enumerate() {
        c.translate(name, code, *spec).map_err(|e| format!("translate failed: {e:#}"))?;
        fresh = false;
        if i + 1 < n && s.chance(1, 3) {
            let p = dir.0.join(format!("o{i}.o"));
            c.write_object_to_file(&p).map_err(|e| format!("write_object failed: {e:#}"))?;
            objects.push(p);
            if s.bool() {
                c.clear_ir().map_err(|e| format!("clear_ir failed: {e:#}"))?;
            } else {
                unsafe { c.clear() }.map_err(|e| format!("clear failed: {e:#}"))?;
            }
            fresh = true;
        }
    }
    if !fresh {
        let p = dir.0.join("last.o");
        c.write_object_to_file(&p).map_err(|e| format!("write_object failed: {e:#}"))?;
        objects.push(p);
    }
    drop(c);
    let so = revmc::shared_library_path(&dir.0, "lib");
    Linker::new().link(&so, &objects).map_err(|e| format!("link failed: {e}"))?;
    let lib = unsafe { libloading::Library::new(&so) }.map_err(|e| format!("the linked library does not load: {e}"))?;
    let mut fs = vec![];
    for (_, _, name) in &progs_ {
        let f = unsafe { lib.get::<EvmCompilerFn>(name.as_bytes()) }.map_err(|e| format!("symbol {name}: {e}"))?;
        fs.push(*f);
    }
    info.tag("aot_libraries");
    for (i, (code, spec, name)) in progs_.iter().enumerate() {
        for _ in 0..2 {
            let ctx = Ctx::generate(s, *spec);
            let cmp = Cmp { stack: cfg.inspect_stack, cause: !cfg.single_error };
            check_one(fs[i], code, &ctx, cmp, info).map_err(|e| format!("{name}: {e}"))?;
        }
    }
    let _ = describe_ctx;
    Ok(())
}
