//! Runs one contract frame on the reference interpreter and on compiled code, and compares.

use crate::{
    host::{Acc, VHost},
    src::{Src, addr, mix},
};
use revmc::{
    EvmCompiler, EvmCompilerFn, EvmLlvmBackend, OptimizationLevel, SpecId,
    context_interface::{cfg::GasParams, CreateScheme},
    interpreter::{
        CallInput, CallInputs, CallScheme, CallValue, CreateInputs, FrameInput, Gas, InputsImpl, InstructionResult,
        Interpreter, InterpreterAction, SharedMemory,
        instructions::{gas_table_spec, instruction_table},
        interpreter::{EthInterpreter, ExtBytecode},
        interpreter_types::ReturnData,
    },
    primitives::{Address, B256, Bytes, U256},
    revm_bytecode::Bytecode,
};
use std::{cell::RefCell, fmt::Write as _, ops::Range, rc::Rc};

/// Outcome delivered for one suspended call or create.
#[derive(Clone, Debug)]
pub struct Outcome {
    pub result: InstructionResult,
    pub output: Bytes,
    /// Gas given back, in 1/256ths of the gas handed out.
    pub gas_share: u8,
    pub refund: i64,
    pub state_gas: u16,
    pub created: Option<Address>,
    /// Child memory use, in bytes (moves the shared buffer around).
    pub child_memory: usize,
    /// Host mutation done by the child: storage slot of the running contract.
    pub poke: Option<(U256, U256)>,
}

#[derive(Clone, Debug)]
pub struct Ctx {
    pub spec: SpecId,
    pub calldata: Bytes,
    /// Deliver the call data through the shared memory buffer, as nested calls do.
    pub shared_input: bool,
    pub value: U256,
    pub caller: Address,
    pub target: Address,
    pub bytecode_address: Option<Address>,
    pub gas_limit: u64,
    pub reservoir: u64,
    pub is_static: bool,
    pub init_stack: Vec<U256>,
    pub parent_memory: usize,
    pub host: VHost,
    pub outcomes: Vec<Outcome>,
}

impl Ctx {
    pub fn plain(spec: SpecId) -> Self {
        Self {
            spec,
            calldata: Bytes::new(),
            shared_input: false,
            value: U256::ZERO,
            caller: addr(5),
            target: addr(1),
            bytecode_address: None,
            gas_limit: 200_000,
            reservoir: 0,
            is_static: false,
            init_stack: vec![],
            parent_memory: 0,
            host: VHost::plain(spec),
            outcomes: vec![],
        }
    }

    pub fn generate(s: &mut Src, spec: SpecId) -> Self {
        let mut c = Self::plain(spec);
        c.calldata = s.calldata();
        c.shared_input = s.chance(1, 4);
        c.value = if s.bool() { U256::ZERO } else { s.word() };
        if s.chance(1, 3) {
            c.caller = addr(s.below(8) as u64);
        }
        c.gas_limit = gas_limit(s);
        if spec >= SpecId::AMSTERDAM && s.bool() {
            c.reservoir = if s.bool() { s.below(3000) as u64 } else { 10_000_000 };
        }
        c.is_static = s.chance(1, 10);
        if s.chance(1, 3) {
            c.parent_memory = s.range(1, 300);
        }
        if s.chance(1, 6) {
            c.bytecode_address = Some(addr(s.below(8) as u64));
        }
        c.host = VHost::generate(s, spec, c.target);
        c.host.eip8037 = spec >= SpecId::AMSTERDAM && s.chance(3, 4);
        c.host.missing_hashes = s.chance(1, 12);
        let n = s.range(1, 4);
        c.outcomes = (0..n).map(|_| outcome(s)).collect();
        c
    }
}

pub fn gas_limit(s: &mut Src) -> u64 {
    match s.weighted(&[10, 2, 2]) {
        0 => 200_000 + s.below(100_000) as u64,
        1 => s.below(60_000) as u64,
        _ => s.below(3_000) as u64,
    }
}

pub fn outcome(s: &mut Src) -> Outcome {
    let result = match s.below(10) {
        0..=3 => InstructionResult::Return,
        4 => InstructionResult::Stop,
        5 | 6 => InstructionResult::Revert,
        7 => InstructionResult::OutOfGas,
        8 => InstructionResult::CallTooDeep,
        _ => InstructionResult::SelfDestruct,
    };
    let n = match s.below(4) {
        0 => 0,
        1 => 32,
        2 => s.range(1, 31),
        _ => s.range(33, 200),
    };
    Outcome {
        result,
        output: s.bytes(n).into(),
        gas_share: s.byte(),
        refund: if s.bool() { 0 } else { s.below(5000) as i64 },
        state_gas: if s.bool() { 0 } else { s.below(2000) as u16 },
        created: s.chance(3, 4).then(|| addr(20 + s.below(4) as u64)),
        child_memory: *s.pick(&[0usize, 32, 1024, 100_000]),
        poke: if s.chance(1, 3) { Some((U256::from(s.below(4)), s.word())) } else { None },
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct GasView {
    pub limit: u64,
    pub remaining: u64,
    pub refunded: i64,
    pub reservoir: u64,
    pub state_gas: i64,
}

impl From<&Gas> for GasView {
    fn from(g: &Gas) -> Self {
        Self {
            limit: g.limit(),
            remaining: g.remaining(),
            refunded: g.refunded(),
            reservoir: g.reservoir(),
            state_gas: g.state_gas_spent(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Req {
    Call {
        input: Vec<u8>,
        ret: Range<usize>,
        gas_limit: u64,
        reservoir: u64,
        bytecode_address: Address,
        known: (B256, Vec<u8>),
        target: Address,
        caller: Address,
        value: CallValue,
        scheme: CallScheme,
        is_static: bool,
        charged_new: bool,
    },
    Create { caller: Address, scheme: CreateScheme, value: U256, init: Vec<u8>, gas_limit: u64, reservoir: u64 },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Suspension {
    pub req: Req,
    pub gas: GasView,
    pub memory: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done(InstructionResult),
    /// Too many suspensions; stopped by the driver.
    Truncated,
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub frames: Vec<Suspension>,
    pub end: End,
    pub output: Bytes,
    pub gas: GasView,
    pub memory: Vec<u8>,
    pub stack: Vec<U256>,
    pub host: VHost,
    /// The parent's part of the shared memory, which the frame must not touch.
    pub parent: Vec<u8>,
}

impl Trace {
    pub fn halted(&self) -> bool {
        matches!(self.end, End::Done(r) if !r.is_ok_or_revert())
    }
    pub fn ok(&self) -> bool {
        matches!(self.end, End::Done(r) if r.is_ok())
    }
}

const MAX_FRAMES: usize = 40;

fn build(ctx: &Ctx, code: &Bytes) -> (Interpreter, SharedMemory, usize) {
    let buffer = Rc::new(RefCell::new(Vec::new()));
    let mut parent = SharedMemory::new_with_buffer(buffer);
    let mut plen = ctx.parent_memory;
    if ctx.shared_input {
        plen = plen.max(ctx.calldata.len() + 7);
    }
    parent.resize(plen);
    for i in 0..plen {
        parent.set_byte(i, mix(i as u64) as u8);
    }
    let input = if ctx.shared_input {
        parent.set(7, &ctx.calldata);
        CallInput::SharedBuffer(7..7 + ctx.calldata.len())
    } else {
        CallInput::Bytes(ctx.calldata.clone())
    };
    let memory = parent.new_child_context();
    let inputs = InputsImpl {
        target_address: ctx.target,
        bytecode_address: ctx.bytecode_address,
        caller_address: ctx.caller,
        input,
        call_value: ctx.value,
    };
    let bytecode = ExtBytecode::new(Bytecode::new_legacy(code.clone()));
    let mut interp = Interpreter::new(memory, bytecode, inputs, ctx.is_static, ctx.spec, ctx.gas_limit);
    interp.gas = Gas::new_with_regular_gas_and_reservoir(ctx.gas_limit, ctx.reservoir);
    for w in &ctx.init_stack {
        let _ = interp.stack.push(*w);
    }
    (interp, parent, plen)
}

fn request(input: &FrameInput, memory: &SharedMemory) -> Req {
    match input {
        FrameInput::Call(c) => {
            let CallInputs {
                input,
                return_memory_offset,
                gas_limit,
                reservoir,
                bytecode_address,
                known_bytecode,
                target_address,
                caller,
                value,
                scheme,
                is_static,
                charged_new_account_state_gas,
                ..
            } = &**c;
            Req::Call {
                input: match input {
                    CallInput::Bytes(b) => b.to_vec(),
                    CallInput::SharedBuffer(r) => {
                        if r.is_empty() { vec![] } else { memory.global_slice_range(r.clone()).to_vec() }
                    }
                },
                // The offset of an empty return range is unobservable.
                ret: if return_memory_offset.is_empty() { 0..0 } else { return_memory_offset.clone() },
                gas_limit: *gas_limit,
                reservoir: *reservoir,
                bytecode_address: *bytecode_address,
                known: (known_bytecode.0, known_bytecode.1.original_byte_slice().to_vec()),
                target: *target_address,
                caller: *caller,
                value: value.clone(),
                scheme: *scheme,
                is_static: *is_static,
                charged_new: *charged_new_account_state_gas,
            }
        }
        FrameInput::Create(c) => {
            let c: &CreateInputs = c;
            Req::Create {
                caller: c.caller(),
                scheme: c.scheme(),
                value: c.value(),
                init: c.init_code().to_vec(),
                gas_limit: c.gas_limit(),
                reservoir: c.reservoir(),
            }
        }
        FrameInput::Empty => panic!("empty frame input"),
    }
}

/// What `EthFrame::return_result` does with a finished child.
fn deliver(interp: &mut Interpreter, host: &mut VHost, req: &Req, o: &Outcome) {
    // Child execution: uses the shared buffer above the parent's memory and may change state.
    {
        let mut child = interp.memory.new_child_context();
        child.resize(o.child_memory);
        if o.child_memory > 0 {
            child.set_byte(o.child_memory - 1, 0xee);
        }
    }
    if let (Some((k, v)), false) = (o.poke, matches!(req, Req::Call { is_static: true, .. })) {
        let target = interp.input.target_address;
        let e = host.storage.entry((target, k)).or_default();
        e.1 = v;
        host.warm_slots.insert((target, k));
    }
    interp.memory.free_child_context();

    let (limit, reservoir) = match req {
        Req::Call { gas_limit, reservoir, .. } | Req::Create { gas_limit, reservoir, .. } => (*gas_limit, *reservoir),
    };
    let mut gas = Gas::new_with_regular_gas_and_reservoir(limit, reservoir);
    let spent = limit - (limit as u128 * o.gas_share as u128 / 255) as u64;
    let _ = gas.record_regular_cost(spent);
    if reservoir > 0 {
        let _ = gas.record_state_cost((o.state_gas as u64).min(reservoir));
    }
    gas.record_refund(o.refund);
    if o.result == InstructionResult::OutOfGas {
        gas.spend_all();
    }
    let r = o.result;
    match req {
        Req::Call { ret, .. } => {
            interp.return_data.set_buffer(o.output.clone());
            let _ = interp.stack.push(if r.is_ok() { U256::ONE } else { U256::ZERO });
            if r.is_ok_or_revert() {
                interp.gas.erase_cost(gas.remaining());
                let n = ret.len().min(o.output.len());
                if n > 0 {
                    interp.memory.set(ret.start, &o.output[..n]);
                }
            }
            revmc::handler::handle_reservoir_remaining_gas(r, &mut interp.gas, &gas);
            if r.is_ok() {
                interp.gas.record_refund(gas.refunded());
            }
        }
        Req::Create { .. } => {
            if r == InstructionResult::Revert {
                interp.return_data.set_buffer(o.output.clone());
            } else {
                interp.return_data.clear();
            }
            if r.is_ok_or_revert() {
                interp.gas.erase_cost(gas.remaining());
            }
            revmc::handler::handle_reservoir_remaining_gas(r, &mut interp.gas, &gas);
            let failed = o.created.is_none() || !r.is_ok();
            if failed && host.eip8037 {
                let c = host.gas_params.create_state_gas();
                interp.gas.refill_reservoir(c);
            }
            let item = if r.is_ok() {
                interp.gas.record_refund(gas.refunded());
                if let Some(a) = o.created {
                    host.accounts.entry(a).or_insert_with(|| Acc { nonce: 1, ..Default::default() });
                    host.warm_accounts.insert(a);
                }
                o.created.unwrap_or_default().into_word().into()
            } else {
                U256::ZERO
            };
            let _ = interp.stack.push(item);
        }
    }
}

fn drive(
    ctx: &Ctx,
    code: &Bytes,
    mut step: impl FnMut(&mut Interpreter, &mut VHost) -> InterpreterAction,
) -> Trace {
    let (mut interp, parent, plen) = build(ctx, code);
    let mut host = ctx.host.clone();
    let mut frames = vec![];
    let (end, output, gas) = loop {
        match step(&mut interp, &mut host) {
            InterpreterAction::Return(r) => break (End::Done(r.result), r.output, GasView::from(&r.gas)),
            InterpreterAction::NewFrame(input) => {
                let req = request(&input, &interp.memory);
                let n = frames.len();
                frames.push(Suspension {
                    req: req.clone(),
                    gas: GasView::from(&interp.gas),
                    memory: interp.memory.context_memory().to_vec(),
                });
                if n >= MAX_FRAMES {
                    break (End::Truncated, Bytes::new(), GasView::from(&interp.gas));
                }
                let fallback = Outcome {
                    result: InstructionResult::Return,
                    output: Bytes::from_static(&[1, 2, 3]),
                    gas_share: 255,
                    refund: 0,
                    state_gas: 0,
                    created: Some(addr(20)),
                    child_memory: 64,
                    poke: None,
                };
                let o = if ctx.outcomes.is_empty() { &fallback } else { &ctx.outcomes[n % ctx.outcomes.len()] };
                deliver(&mut interp, &mut host, &req, o);
            }
        }
    };
    let memory = interp.memory.context_memory().to_vec();
    let stack = interp.stack.data().to_vec();
    let parent = parent.context_memory()[..plen].to_vec();
    Trace { frames, end, output, gas, memory, stack, host, parent }
}

pub fn run_ref(ctx: &Ctx, code: &Bytes) -> Trace {
    thread_local! {
        static TABLE: revmc::interpreter::InstructionTable<EthInterpreter, VHost> =
            instruction_table::<EthInterpreter, VHost>();
    }
    let gas_table = gas_table_spec(ctx.spec);
    TABLE.with(|table| drive(ctx, code, |i, h| i.run_plain(table, &gas_table, h)))
}

/// As [`run_ref`], and also what had been spent before each instruction.
pub fn run_ref_steps(ctx: &Ctx, code: &Bytes) -> (Trace, Vec<u64>) {
    let table = instruction_table::<EthInterpreter, VHost>();
    let gas_table = gas_table_spec(ctx.spec);
    let mut spent = vec![];
    let t = drive(ctx, code, |i, h| {
        use revmc::interpreter::interpreter_types::LoopControl;
        let e = loop {
            if spent.len() < 20_000 {
                spent.push(ctx.gas_limit.saturating_sub(i.gas.remaining()));
            }
            if let Err(e) = i.step(&table, &gas_table, h) {
                break e;
            }
        };
        if i.bytecode.action().is_none() {
            i.halt(e);
        }
        i.take_next_action()
    });
    (t, spent)
}

pub fn run_fn(ctx: &Ctx, code: &Bytes, f: EvmCompilerFn) -> Trace {
    drive(ctx, code, |i, h| unsafe { f.call_with_interpreter(i, h) })
}

/// Compiler settings.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub opt: OptimizationLevel,
    pub dedup: bool,
    pub dse: bool,
    pub inspect_stack: bool,
    pub debug_assertions: bool,
    pub gas_budget: Option<u64>,
    pub single_error: bool,
    pub debug_info: bool,
    pub frame_pointers: bool,
    pub gas_params: Option<GasParams>,
    /// Settings applied first and then replaced.
    pub prior: Option<Box<Cfg>>,
}

impl Default for Cfg {
    fn default() -> Self {
        Self {
            opt: OptimizationLevel::Default,
            dedup: true,
            dse: true,
            inspect_stack: false,
            debug_assertions: false,
            gas_budget: None,
            single_error: true,
            debug_info: false,
            frame_pointers: false,
            gas_params: None,
            prior: None,
        }
    }
}

impl Cfg {
    pub fn generate(s: &mut Src) -> Self {
        Self {
            opt: *s.pick(&[
                OptimizationLevel::Default,
                OptimizationLevel::None,
                OptimizationLevel::Less,
                OptimizationLevel::Aggressive,
            ]),
            dedup: !s.chance(1, 3),
            dse: !s.chance(1, 3),
            inspect_stack: s.bool(),
            debug_assertions: s.chance(1, 4),
            gas_budget: match s.below(4) {
                0 | 1 => None,
                2 => Some(*s.pick(&[0u64, 1, 5, 30, 100, 1000])),
                _ => Some(u64::MAX),
            },
            single_error: !s.chance(1, 3),
            debug_info: s.chance(1, 6),
            frame_pointers: s.chance(1, 4),
            gas_params: None,
            prior: None,
        }
    }
    pub fn apply(&self, c: &mut EvmCompiler<EvmLlvmBackend>) {
        if let Some(p) = &self.prior {
            p.apply(c);
        }
        c.set_simple_perf(false);
        c.set_debug_support(false);
        c.set_opt_level(self.opt);
        c.set_dedup(self.dedup);
        c.set_dse(self.dse);
        c.inspect_stack(self.inspect_stack);
        c.debug_assertions(self.debug_assertions);
        c.single_error(self.single_error);
        c.set_debug_info(self.debug_info);
        c.frame_pointers(self.frame_pointers);
        if let Some(g) = self.gas_budget {
            c.set_compiler_gas_limit(g);
        }
        if let Some(g) = &self.gas_params {
            c.set_gas_params(g.clone());
        }
    }
}

pub struct Compiled {
    pub f: EvmCompilerFn,
    #[allow(dead_code)]
    pub c: EvmCompiler<EvmLlvmBackend>,
}

pub fn compiler(cfg: &Cfg, aot: bool) -> EvmCompiler<EvmLlvmBackend> {
    let mut c = EvmCompiler::new_llvm(aot).expect("llvm backend");
    cfg.apply(&mut c);
    c
}

pub fn compile(cfg: &Cfg, code: &[u8], spec: SpecId) -> Result<Compiled, String> {
    let mut c = compiler(cfg, false);
    let f = unsafe { c.jit("vp", code, spec) }.map_err(|e| format!("compilation failed: {e:?}"))?;
    Ok(Compiled { f, c })
}

fn diff<T: PartialEq + std::fmt::Debug>(what: &str, want: &T, got: &T) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    let mut m = format!("{what} differs:\n  interpreter: ");
    let _ = write!(m, "{}", clip(&format!("{want:?}")));
    let _ = write!(m, "\n  compiled:    {}", clip(&format!("{got:?}")));
    Err(m)
}

pub fn clip(s: &str) -> String {
    if s.len() <= 700 { s.to_string() } else { format!("{}…({} chars)", &s[..s.char_indices().nth(600).map_or(s.len(), |x| x.0)], s.len()) }
}

fn hexdiff(what: &str, want: &[u8], got: &[u8]) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    let at = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    let lo = at & !31;
    let w = |x: &[u8]| hex::encode(&x[lo.min(x.len())..(lo + 64).min(x.len())]);
    Err(format!(
        "{what} differs from byte {at} (lengths {} / {}):\n  interpreter[{lo}..]: {}\n  compiled[{lo}..]:    {}",
        want.len(),
        got.len(),
        w(want),
        w(got)
    ))
}

#[derive(Clone, Copy)]
pub struct Cmp {
    pub stack: bool,
    /// Also compare the halt cause (only meaningful with error collapsing off).
    pub cause: bool,
}

/// Halt causes the compiler may report instead of another one, because checks are hoisted to the
/// start of a section (stack bounds, gas) or merged (out-of-gas variants).
fn cause_ok(want: InstructionResult, got: InstructionResult) -> bool {
    use InstructionResult::*;
    if matches!(want, InvalidJump | InvalidFEOpcode | OpcodeNotFound) {
        // Nothing comes after these that could be found out about earlier.
        return want == got;
    }
    want == got
        || matches!(got, StackOverflow | StackUnderflow | OutOfGas | MemoryOOG | InvalidOperandOOG)
        // One instruction can fail for more than one reason: an opcode the hardfork lacks is found out
        // before anything else is looked at.
        || (got == NotActivated
            && matches!(want, StackOverflow | StackUnderflow | OutOfGas | MemoryOOG | InvalidOperandOOG | StateChangeDuringStaticCall))
}

pub fn compare(want: &Trace, got: &Trace, cmp: Cmp) -> Result<(), String> {
    if want.halted() || got.halted() {
        if want.halted() != got.halted() {
            return Err(format!(
                "ending differs: interpreter {:?} after {} suspensions, compiled {:?} after {}",
                want.end,
                want.frames.len(),
                got.end,
                got.frames.len()
            ));
        }
        // Effects of a halted frame are discarded, but the children it started are real.
        if got.frames.len() > want.frames.len() {
            return Err(format!("compiled code made {} frame requests, the interpreter {}", got.frames.len(), want.frames.len()));
        }
        for (i, (a, b)) in want.frames.iter().zip(&got.frames).enumerate() {
            frame(i, a, b)?;
        }
        if matches!(got.end, End::Done(InstructionResult::OutOfGas)) && got.gas.remaining != 0 {
            return Err(format!("out of gas with {} gas left", got.gas.remaining));
        }
        if !got.output.is_empty() {
            diff("output of a halt", &want.output, &got.output)?;
        }
        hexdiff("the caller's memory", &want.parent, &got.parent)?;
        if cmp.cause {
            if let (End::Done(a), End::Done(b)) = (&want.end, &got.end) {
                if !cause_ok(*a, *b) {
                    return Err(format!("halt cause differs: interpreter {a:?}, compiled {b:?}"));
                }
            }
        }
        return Ok(());
    }
    for (i, (a, b)) in want.frames.iter().zip(&got.frames).enumerate() {
        frame(i, a, b)?;
    }
    diff("ending", &want.end, &got.end)?;
    diff("number of frame requests", &want.frames.len(), &got.frames.len())?;
    hexdiff("output", &want.output, &got.output)?;
    hexdiff("memory", &want.memory, &got.memory)?;
    hexdiff("the caller's memory", &want.parent, &got.parent)?;
    diff("gas", &want.gas, &got.gas)?;
    if cmp.stack && want.end != End::Truncated {
        diff("stack", &want.stack, &got.stack)?;
    }
    hosts(&want.host, &got.host)
}

fn frame(i: usize, a: &Suspension, b: &Suspension) -> Result<(), String> {
    diff(&format!("frame request {i}"), &a.req, &b.req)?;
    diff(&format!("gas at frame request {i}"), &a.gas, &b.gas)?;
    hexdiff(&format!("memory at frame request {i}"), &a.memory, &b.memory)
}

pub fn hosts(a: &VHost, b: &VHost) -> Result<(), String> {
    diff("effect sequence", &a.effects, &b.effects)?;
    diff("storage", &a.storage, &b.storage)?;
    diff("transient storage", &a.transient, &b.transient)?;
    diff("accounts", &a.accounts, &b.accounts)?;
    diff("warm accounts", &a.warm_accounts, &b.warm_accounts)?;
    diff("warm slots", &a.warm_slots, &b.warm_slots)?;
    diff("destroyed accounts", &a.destroyed, &b.destroyed)?;
    diff("host", a, b)
}
