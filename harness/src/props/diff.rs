//! Compiled code against the interpreter, one frame at a time.

use crate::{
    exec::{self, Cfg, Cmp, Ctx, Trace},
    gens,
    progs::{self, GENERAL, Profile},
    runner::{Info, fnv},
    src::Src,
};
use revmc::{
    SpecId,
    context_interface::cfg::{GasParams, gas_params::GasId},
    primitives::{Bytes, U256},
};

pub fn describe(code: &[u8], spec: SpecId, cfg: &Cfg) -> String {
    format!("spec {spec:?}, {cfg:?}\ncode 0x{}\n{}", hex::encode(code), progs::disasm(code))
}

pub fn describe_ctx(c: &Ctx) -> String {
    format!(
        "context: gas {} reservoir {} static {} value {} calldata 0x{} shared {} parent memory {} outcomes {:?}",
        c.gas_limit,
        c.reservoir,
        c.is_static,
        c.value,
        hex::encode(&c.calldata),
        c.shared_input,
        c.parent_memory,
        c.outcomes
    )
}

/// Runs `code` compiled and interpreted in `ctx` and compares.
pub fn check_one(
    f: revmc::EvmCompilerFn,
    code: &Bytes,
    ctx: &Ctx,
    cmp: Cmp,
    info: &mut Info,
) -> Result<Trace, String> {
    let want = exec::run_ref(ctx, code);
    let got = exec::run_fn(ctx, code, f);
    info.evals += 1;
    if !want.halted() {
        let mut h = code.to_vec();
        h.extend_from_slice(&ctx.calldata);
        h.extend_from_slice(&ctx.gas_limit.to_le_bytes());
        h.push(ctx.spec as u8);
        info.nontrivial.push(fnv(&h));
        info.tag("ran_to_end");
        if !want.frames.is_empty() {
            info.tag("with_suspensions");
        }
    } else {
        info.tag("halted");
    }
    exec::compare(&want, &got, cmp).map_err(|e| format!("{e}\n{}", describe_ctx(ctx)))?;
    Ok(want)
}

/// Puts words related to the program's own constants into the call data.
pub fn related_words(s: &mut Src, ctx: &mut Ctx, consts: &[U256]) {
    if consts.is_empty() || s.bool() {
        return;
    }
    let mut d = ctx.calldata.to_vec();
    for i in 0..4 {
        if s.chance(1, 3) {
            let c = *s.pick(consts);
            let w = gens::near(s, c);
            if d.len() < 32 * (i + 1) {
                d.resize(32 * (i + 1), 0);
            }
            d[32 * i..32 * i + 32].copy_from_slice(&w.to_be_bytes::<32>());
        }
    }
    ctx.calldata = d.into();
}

pub fn run_program(
    s: &mut Src,
    info: &mut Info,
    code: Vec<u8>,
    spec: SpecId,
    cfg: &Cfg,
    contexts: usize,
    mut tweak: impl FnMut(&mut Src, &mut Ctx),
) -> Result<(), String> {
    info.desc = describe(&code, spec, cfg);
    let code: Bytes = code.into();
    let c = exec::compile(cfg, &code, spec)?;
    let consts = progs::constants(&code);
    for _ in 0..contexts {
        let mut ctx = Ctx::generate(s, spec);
        related_words(s, &mut ctx, &consts);
        tweak(s, &mut ctx);
        check_one(c.f, &code, &ctx, Cmp { stack: cfg.inspect_stack, cause: !cfg.single_error }, info)?;
    }
    Ok(())
}

/// The general shape: one program, several contexts.
fn general(s: &mut Src, info: &mut Info, p: Profile, contexts: usize) -> Result<(), String> {
    let spec = progs::spec(s);
    let cfg = Cfg { inspect_stack: s.chance(1, 3), ..Default::default() };
    let code = progs::program(s, p, spec, 0);
    run_program(s, info, code, spec, &cfg, contexts, |_, _| {})
}

/// A few instructions with boundary operands, many contexts.
fn matrix(s: &mut Src, info: &mut Info, ops: &[u8], contexts: usize, gas: Option<u64>) -> Result<(), String> {
    let spec = progs::spec(s);
    let cfg = Cfg { inspect_stack: s.chance(1, 4), ..Default::default() };
    let (code, slots) = gens::matrix(s, spec, ops);
    info.tag("instruction_matrix");
    let c = code.clone();
    run_program(s, info, code, spec, &cfg, contexts, |s, ctx| {
        if let Some(g) = gas
            && !s.chance(1, 5)
        {
            ctx.gas_limit = g + s.below(1000) as u64;
        }
        gens::matrix_input(s, &slots, &c, ctx)
    })
}

pub fn c01(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let p = *s.pick(&[
        GENERAL,
        GENERAL,
        GENERAL,
        GENERAL,
        gens::TINY,
        gens::JUMPS,
        gens::MEMORY,
        gens::STACK,
        gens::HOST,
        gens::CALLS,
        gens::ARITH,
    ]);
    if s.chance(1, 12) {
        return similar(s, info);
    }
    if s.chance(1, 12) {
        let spec = progs::spec(s);
        let cfg = Cfg { inspect_stack: s.chance(1, 4), ..Default::default() };
        let code = match s.below(3) {
            0 => gens::cfg_program(s, spec),
            1 => gens::stack_program(s, spec),
            _ => gens::flow_program(s, spec),
        };
        return run_program(s, info, code, spec, &cfg, 20, |s, ctx| {
            ctx.gas_limit = if s.chance(1, 4) { s.below(20_000) as u64 } else { 100_000 };
        });
    }
    general(s, info, p, 20)
}

/// Overrides of the dynamic part of the gas schedule.
pub fn gas_params(s: &mut Src, spec: SpecId) -> GasParams {
    let mut g = GasParams::new_spec(spec);
    let ids = [
        GasId::exp_byte_gas(),
        GasId::extcodecopy_per_word(),
        GasId::copy_per_word(),
        GasId::logdata(),
        GasId::logtopic(),
        GasId::mcopy_per_word(),
        GasId::keccak256_per_word(),
        GasId::memory_linear_cost(),
        GasId::memory_quadratic_reduction(),
        GasId::initcode_per_word(),
        GasId::create(),
        GasId::transfer_value_cost(),
        GasId::cold_account_additional_cost(),
        GasId::cold_storage_additional_cost(),
        GasId::call_stipend(),
    ];
    let n = s.range(1, 4);
    for _ in 0..n {
        let id = if s.chance(1, 4) { GasId::exp_byte_gas() } else { *s.pick(&ids) };
        let old = g.get(id);
        let v = match s.below(9) {
            8 => 1 << s.range(8, 44),
            0 => old + 1,
            1 => old * 2 + 3,
            2 => old / 2 + 1,
            _ => s.range(1, 50) as u64,
        };
        g.override_gas([(id, v)]);
    }
    g
}

pub fn c02(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let spec = progs::spec(s);
    let mut cfg = Cfg::default();
    let p = *s.pick(&[gens::GAS, gens::GAS, gens::MEMORY, gens::HOST, gens::CALLS, gens::TINY, GENERAL]);
    let (code, slots) = if s.chance(1, 3) {
        info.tag("instruction_matrix");
        let (c, k) = gens::matrix(s, spec, gens::GAS_OPS);
        (c, Some(k))
    } else {
        (progs::program(s, p, spec, 0), None)
    };
    if s.chance(1, 6) {
        cfg.gas_params = Some(gas_params(s, spec));
    }
    info.desc = describe(&code, spec, &cfg);
    let code: Bytes = code.into();
    let c = exec::compile(&cfg, &code, spec)?;
    let consts = progs::constants(&code);
    for _ in 0..if slots.is_some() { 5 } else { 3 } {
        let mut ctx = Ctx::generate(s, spec);
        match &slots {
            Some(k) => gens::matrix_input(s, k, &code, &mut ctx),
            None => related_words(s, &mut ctx, &consts),
        }
        if let Some(g) = &cfg.gas_params {
            ctx.host.gas_params = g.clone();
        }
        ctx.gas_limit = 300_000;
        let (t, spent) = exec::run_ref_steps(&ctx, &code);
        check_one(c.f, &code, &ctx, CMP, info)?;
        // Limits around the total and around what had been spent before random instructions.
        let total = ctx.gas_limit - t.gas.remaining.min(ctx.gas_limit);
        let mut limits = vec![];
        if !t.halted() {
            limits.extend([total, total.saturating_sub(1), total + 1]);
        }
        for _ in 0..6 {
            let x = spent[s.below(spent.len())];
            limits.push(match s.below(4) {
                0 => x,
                1 => x.saturating_sub(1),
                2 => x + 1,
                _ => x + s.below(40) as u64,
            });
        }
        // The minimum-gas rule of storage writes, and call stipends.
        limits.push(total + 2300);
        for _ in 0..3 {
            let x = spent[s.below(spent.len())];
            limits.push(x + 2299 + s.below(3) as u64);
        }
        limits.push(total + s.below(3000) as u64);
        for l in limits {
            ctx.gas_limit = l;
            check_one(c.f, &code, &ctx, CMP, info)?;
        }
    }
    Ok(())
}

const CMP: Cmp = Cmp { stack: false, cause: false };

/// Chooses one of the blocks of [`gens::similar_program`].
fn choose_block(s: &mut Src, ctx: &mut Ctx, code: &[u8]) {
    let mut d = ctx.calldata.to_vec();
    d.resize(d.len().max(64), 0);
    d[31] = s.below(9) as u8;
    if s.chance(3, 4) {
        // A destination.
        let all: Vec<usize> = (0..code.len()).filter(|i| code[*i] == 0x5b).collect();
        let t = if all.is_empty() { 0 } else { *s.pick(&all) };
        d[32..64].copy_from_slice(&U256::from(t).to_be_bytes::<32>());
    }
    ctx.calldata = d.into();
    if !s.chance(1, 5) {
        ctx.gas_limit = 100_000;
    }
}

fn similar(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let spec = progs::spec(s);
    let cfg = Cfg { inspect_stack: s.chance(1, 2), ..Default::default() };
    let code = if s.chance(1, 3) { gens::dispatch_program(s, spec) } else { gens::similar_program(s, spec) };
    info.tag("similar_blocks");
    run_program(s, info, code.clone(), spec, &cfg, 14, |s, ctx| choose_block(s, ctx, &code))
}

pub fn c03(s: &mut Src, info: &mut Info) -> Result<(), String> {
    if s.chance(1, 8) {
        return similar(s, info);
    }
    if s.chance(1, 2) {
        return general(s, info, gens::JUMPS, 20);
    }
    let spec = progs::spec(s);
    let cfg = Cfg { inspect_stack: s.chance(1, 4), ..Default::default() };
    let code = if s.chance(1, 3) {
        info.tag("carried_on_stack");
        gens::flow_program(s, spec)
    } else {
        gens::cfg_program(s, spec)
    };
    run_program(s, info, code, spec, &cfg, 20, |s, ctx| {
        ctx.gas_limit = if s.chance(1, 4) { s.below(20_000) as u64 } else { 60_000 };
        ctx.is_static = false;
    })
}

pub fn c04(s: &mut Src, info: &mut Info) -> Result<(), String> {
    if s.chance(1, 3) {
        let spec = SpecId::OSAKA.max(progs::spec(s));
        let cfg = Cfg { inspect_stack: s.chance(1, 4), ..Default::default() };
        let code = progs::program(s, gens::ARITH, spec, 0);
        return run_program(s, info, code, spec, &cfg, 20, |s, ctx| {
            ctx.gas_limit = 500_000;
            let mut d = vec![];
            for _ in 0..5 {
                d.extend_from_slice(&gens::operand(s).to_be_bytes::<32>());
            }
            ctx.calldata = d.into();
        });
    }
    let spec = if s.chance(1, 4) { progs::spec(s) } else { SpecId::OSAKA };
    let mut cfg = Cfg { inspect_stack: s.chance(1, 6), ..Default::default() };
    if s.chance(1, 8) {
        cfg.gas_budget = Some(*s.pick(&[0u64, 5, 30, 100, 1000]));
    }
    let (code, data) = gens::arith_program(s, spec);
    // Compiling costs far more than running: many assignments of the run-time operands.
    let mut round = 0;
    run_program(s, info, code, spec, &cfg, 16, |s, ctx| {
        ctx.gas_limit = 1_000_000;
        let words: Vec<U256> = data.chunks(32).map(U256::from_be_slice).collect();
        let mut d = vec![];
        for w in &words {
            let v = match (round, s.below(5)) {
                (0, _) | (_, 0) => *w,
                (_, 1) => *s.pick(&words),
                (_, 2) => gens::near(s, *w),
                _ => gens::operand(s),
            };
            d.extend_from_slice(&v.to_be_bytes::<32>());
        }
        round += 1;
        ctx.calldata = d.into();
    })
}

pub fn c05(s: &mut Src, info: &mut Info) -> Result<(), String> {
    if s.chance(1, 3) {
        return matrix(s, info, gens::MEM_OPS, 40, Some(1_000_000));
    }
    general(s, info, gens::MEMORY, 20)
}

pub fn c06(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let spec = if s.bool() { SpecId::AMSTERDAM } else { progs::spec(s) };
    let cfg = Cfg { inspect_stack: !s.chance(1, 4), ..Default::default() };
    let code = match s.below(5) {
        0 => gens::flow_program(s, spec),
        1 | 2 => gens::stack_program(s, spec),
        _ => progs::program(s, gens::STACK, spec, 0),
    };
    run_program(s, info, code, spec, &cfg, 12, |_, _| {})
}

pub fn c07(s: &mut Src, info: &mut Info) -> Result<(), String> {
    if s.chance(1, 3) {
        return matrix(s, info, gens::HOST_OPS, 40, None);
    }
    let spec = progs::spec(s);
    let cfg = Cfg { inspect_stack: s.chance(1, 4), ..Default::default() };
    let code = progs::program(s, gens::HOST, spec, 0);
    run_program(s, info, code, spec, &cfg, 20, |s, ctx| {
        if s.chance(1, 5) {
            ctx.is_static = !ctx.is_static;
        }
    })
}

pub fn c08(s: &mut Src, info: &mut Info) -> Result<(), String> {
    // Same bytes, several hardforks.
    let author = progs::SPECS[s.below(progs::SPECS.len())];
    let cfg = Cfg { inspect_stack: s.chance(1, 4), ..Default::default() };
    if s.chance(1, 4) {
        let (code, slots) = gens::matrix(s, author, gens::GAS_OPS);
        info.tag("instruction_matrix");
        for i in 0..4 {
            let spec = if i == 0 { author } else { *s.pick(progs::SPECS) };
            run_program(s, info, code.clone(), spec, &cfg, 10, |s, ctx| gens::matrix_input(s, &slots, &code, ctx))?;
        }
        return Ok(());
    }
    let code = if s.chance(1, 3) {
        let p = Profile { unavailable: 12, ..*s.pick(&[GENERAL, gens::HOST, gens::GAS, gens::CALLS, gens::TINY]) };
        progs::program(s, p, author, 0)
    } else {
        let o = s.byte();
        gens::single_op(s, author, o)
    };
    let n = 4;
    for i in 0..n {
        let spec = if i == 0 { author } else { *s.pick(progs::SPECS) };
        run_program(s, info, code.clone(), spec, &cfg, 6, |_, _| {})?;
    }
    Ok(())
}

pub fn c09(s: &mut Src, info: &mut Info) -> Result<(), String> {
    if s.chance(1, 3) {
        return matrix(s, info, gens::CALL_OPS, 40, Some(3_000_000));
    }
    let spec = progs::spec(s);
    let cfg = Cfg { inspect_stack: s.chance(1, 3), ..Default::default() };
    let code = progs::program(s, gens::CALLS, spec, 0);
    run_program(s, info, code, spec, &cfg, 20, |s, ctx| {
        ctx.gas_limit = if s.chance(1, 4) { s.below(200_000) as u64 } else { 3_000_000 };
        ctx.is_static = s.chance(1, 20);
    })
}

pub fn c12(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let spec = progs::spec(s);
    let p = *s.pick(&[GENERAL, gens::TINY, gens::JUMPS, gens::STACK, gens::MEMORY, gens::GAS, gens::CALLS, gens::ARITH]);
    let shape = s.below(9);
    let code: Bytes = match shape {
        4 => gens::flow_program(s, spec),
        0 => gens::cfg_program(s, spec),
        1 => gens::stack_program(s, spec),
        2 if s.bool() => gens::dispatch_program(s, spec),
        2 => gens::similar_program(s, spec),
        3 => gens::arith_program(s, spec).0,
        _ => progs::program(s, p, spec, 0),
    }
    .into();
    let gp = s.chance(1, if shape == 3 { 2 } else { 5 }).then(|| gas_params(s, spec));
    let mut ctxs = vec![];
    let consts = progs::constants(&code);
    for _ in 0..10 {
        let mut ctx = Ctx::generate(s, spec);
        related_words(s, &mut ctx, &consts);
        if let Some(g) = &gp {
            ctx.host.gas_params = g.clone();
        }
        match shape {
            2 => choose_block(s, &mut ctx, &code),
            // No loops: any limit will do.
            3 if s.bool() => ctx.gas_limit = 1 << s.range(20, 60),
            _ => {}
        }
        ctxs.push(ctx);
    }
    for _ in 0..3 {
        let mut cfg = Cfg::generate(s);
        cfg.gas_params = gp.clone();
        if s.chance(1, 4) {
            // What was set before must not matter.
            let mut prior = Cfg::generate(s);
            if cfg.gas_budget.is_none() {
                prior.gas_budget = None;
            }
            if gp.is_some() {
                prior.gas_params = Some(gas_params(s, spec));
            }
            cfg.prior = Some(Box::new(prior));
        }
        info.desc = describe(&code, spec, &cfg);
        let c = exec::compile(&cfg, &code, spec)?;
        for ctx in &ctxs {
            check_one(c.f, &code, ctx, Cmp { stack: cfg.inspect_stack, cause: !cfg.single_error }, info)?;
        }
    }
    Ok(())
}
