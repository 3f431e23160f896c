//! Whole transactions: the JIT-backed EVMs next to the plain ones.

use crate::{
    exec::{self, Cfg, Compiled},
    gens,
    progs::{self, GENERAL},
    runner::{Info, fnv},
    src::{Src, addr, mix},
};
use alloy_evm::{Evm as _, EvmEnv, EvmFactory, eth::EthEvmFactory};
use revm_context::{
    BlockEnv, CfgEnv, TxEnv,
    either::Either,
    transaction::{AccessList, AccessListItem, Authorization, RecoveredAuthority, RecoveredAuthorization},
};
use revm_database::{CacheDB, EmptyDB};
use revm_database_interface::{DBErrorMarker, Database, DatabaseCommit};
use revm_state::{AccountInfo, EvmState};
use revmc::{
    EvmCompilerFn, OptimizationLevel, SpecId,
    context_interface::{
        cfg::GasParams,
        result::{ExecutionResult, ResultAndState},
    },
    handler::{
        ExecuteCommitEvm, ExecuteEvm, FrameResult, MainBuilder, MainnetContext, MainnetEvm, SystemCallCommitEvm,
        SystemCallEvm, instructions::EthInstructions,
    },
    inspector::{InspectCommitEvm, InspectEvm, InspectSystemCallEvm, Inspector},
    interpreter::{
        CallInputs, CallOutcome, CreateInputs, CreateOutcome, FrameInput, Gas, InstructionResult, Interpreter,
        InterpreterResult, interpreter::EthInterpreter,
    },
    primitives::{Address, B256, Bytes, Log, StorageKey, StorageValue, TxKind, U256, keccak256},
    revm_bytecode::{Bytecode, opcode as op},
    runtime::{JitBackend, LookupRequest, RuntimeCacheKey, RuntimeConfig, RuntimeTuning},
};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    fmt::Write as _,
    rc::Rc,
    time::Duration,
};

// ---------------------------------------------------------------- database

/// A database that can refuse some keys.
#[derive(Clone, Debug)]
pub struct VDb {
    pub inner: CacheDB<EmptyDB>,
    pub fail_account: Option<Address>,
    pub fail_slot: Option<(Address, U256)>,
    pub fail_hash: bool,
}

#[derive(Clone, Debug)]
pub struct VErr(pub String);
impl std::fmt::Display for VErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "database fault: {}", self.0)
    }
}
impl std::error::Error for VErr {}
impl DBErrorMarker for VErr {}

impl Database for VDb {
    type Error = VErr;
    fn basic(&mut self, a: Address) -> Result<Option<AccountInfo>, VErr> {
        if self.fail_account == Some(a) {
            return Err(VErr(format!("account {a}")));
        }
        Ok(self.inner.basic(a).unwrap())
    }
    fn code_by_hash(&mut self, h: B256) -> Result<Bytecode, VErr> {
        Ok(self.inner.code_by_hash(h).unwrap())
    }
    fn storage(&mut self, a: Address, k: StorageKey) -> Result<StorageValue, VErr> {
        if self.fail_slot == Some((a, k)) {
            return Err(VErr(format!("slot {a} {k}")));
        }
        Ok(self.inner.storage(a, k).unwrap())
    }
    fn block_hash(&mut self, n: u64) -> Result<B256, VErr> {
        if self.fail_hash {
            return Err(VErr(format!("block {n}")));
        }
        Ok(self.inner.block_hash(n).unwrap())
    }
}
impl DatabaseCommit for VDb {
    fn commit(&mut self, st: EvmState) {
        self.inner.commit(st)
    }
}

// ---------------------------------------------------------------- inspector

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Open(String),
    Close { what: String, halted: bool },
    Item(String),
}

/// Records everything; with a salt it also overrides and rewrites, as a function of what it is
/// shown only (so that two executions of the same thing are treated alike).
#[derive(Clone, Debug, Default)]
pub struct Insp {
    pub salt: u64,
    pub ev: Vec<Ev>,
}

fn halted(r: InstructionResult) -> bool {
    !r.is_ok() && !r.is_revert()
}

fn result_text(r: &InterpreterResult) -> String {
    if halted(r.result) {
        return "halt".into();
    }
    format!("{:?} 0x{} {:?}", r.result, hex::encode(&r.output), r.gas)
}

fn call_text(i: &CallInputs, ctx: &mut Ctx0) -> String {
    format!(
        "call {:?} to {} code {} from {} value {:?} gas {} static {} ret {:?} input 0x{}",
        i.scheme,
        i.target_address,
        i.bytecode_address,
        i.caller,
        i.value,
        i.gas_limit,
        i.is_static,
        i.return_memory_offset,
        hex::encode(i.input.bytes(ctx))
    )
}

fn create_text(i: &CreateInputs) -> String {
    format!(
        "create {:?} from {} value {} gas {} init 0x{}",
        i.scheme(),
        i.caller(),
        i.value(),
        i.gas_limit(),
        hex::encode(i.init_code())
    )
}

fn input_text(i: &FrameInput, ctx: &mut Ctx0) -> String {
    match i {
        FrameInput::Call(c) => call_text(c, ctx),
        FrameInput::Create(c) => create_text(c),
        FrameInput::Empty => "empty".into(),
    }
}

fn frame_text(r: &FrameResult) -> (String, bool) {
    match r {
        FrameResult::Call(o) => (
            format!("{} at {:?} precompile {}", result_text(&o.result), o.memory_offset, o.was_precompile_called),
            halted(o.result.result),
        ),
        FrameResult::Create(o) => (format!("{} address {:?}", result_text(&o.result), o.address), halted(o.result.result)),
    }
}

impl Insp {
    fn roll(&self, what: &str, text: &str) -> u64 {
        if self.salt == 0 {
            return u64::MAX;
        }
        fnv(format!("{} {what} {text}", self.salt).as_bytes())
    }
    /// The events without what happened inside frames that halted (compiled code may find out
    /// earlier, and all of that is rolled back).
    pub fn normal(&self) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        let mut open = vec![];
        for e in &self.ev {
            match e {
                Ev::Open(s) => {
                    open.push(out.len());
                    out.push(format!("> {s}"));
                }
                Ev::Close { what, halted } => {
                    if let Some(i) = open.pop() {
                        if *halted {
                            out.truncate(i + 1);
                        }
                    }
                    out.push(if *halted { "< halt".into() } else { format!("< {what}") });
                }
                Ev::Item(s) => out.push(s.clone()),
            }
        }
        out
    }
}

fn forged(h: u64, gas_limit: u64) -> InterpreterResult {
    let mut gas = Gas::new(gas_limit);
    let _ = gas.record_regular_cost((h >> 8) % gas_limit.saturating_add(1).max(1));
    if h & 1 == 0 {
        InterpreterResult::new(InstructionResult::Return, vec![0xab; (h >> 4) as usize % 70].into(), gas)
    } else {
        InterpreterResult::new(InstructionResult::Revert, vec![0xcd; (h >> 4) as usize % 70].into(), gas)
    }
}

fn rewrite(h: u64, r: &mut InterpreterResult) {
    if halted(r.result) {
        return;
    }
    match h % 9 {
        0 => r.output = vec![0xee; (h >> 8) as usize % 50].into(),
        1 => r.result = InstructionResult::Revert,
        2 => {
            let n = r.gas.remaining() / 3;
            let _ = r.gas.record_regular_cost(n);
        }
        _ => {}
    }
}

impl Inspector<Ctx0> for Insp {
    fn initialize_interp(&mut self, i: &mut Interpreter<EthInterpreter>, _: &mut Ctx0) {
        self.ev.push(Ev::Item(format!("init gas {} static {}", i.gas.remaining(), i.runtime_flag.is_static)));
    }
    fn log(&mut self, _: &mut Ctx0, log: Log) {
        self.ev.push(Ev::Item(format!("log {log:?}")));
    }
    fn frame_start(&mut self, ctx: &mut Ctx0, i: &mut FrameInput) -> Option<FrameResult> {
        let t = input_text(i, ctx);
        self.ev.push(Ev::Open(t));
        None
    }
    fn frame_end(&mut self, ctx: &mut Ctx0, i: &FrameInput, r: &mut FrameResult) {
        let (what, halted) = frame_text(r);
        // The input's bytes may live in memory that is gone by now; the kind and target do not.
        let i = match i {
            FrameInput::Call(c) => format!("{} {} gas {}", c.target_address, c.caller, c.gas_limit),
            FrameInput::Create(c) => create_text(c),
            FrameInput::Empty => "empty".into(),
        };
        let _ = ctx;
        self.ev.push(Ev::Close { what: format!("{what} of {i}"), halted });
    }
    fn call(&mut self, ctx: &mut Ctx0, i: &mut CallInputs) -> Option<CallOutcome> {
        let t = call_text(i, ctx);
        self.ev.push(Ev::Item(t.clone()));
        let h = self.roll("call", &t);
        if h == u64::MAX {
            return None;
        }
        match h % 12 {
            0 => Some(CallOutcome::new(forged(h / 12, i.gas_limit), i.return_memory_offset.clone())),
            1 => {
                i.gas_limit = i.gas_limit * 3 / 4;
                None
            }
            2 => {
                i.input = revmc::interpreter::CallInput::Bytes(vec![0x5a; (h >> 8) as usize % 70].into());
                None
            }
            _ => None,
        }
    }
    fn call_end(&mut self, _: &mut Ctx0, i: &CallInputs, o: &mut CallOutcome) {
        let t = format!("call end {} {} {}", i.target_address, result_text(&o.result), o.was_precompile_called);
        let h = self.roll("call end", &t);
        self.ev.push(Ev::Item(t));
        if h != u64::MAX {
            rewrite(h, &mut o.result);
        }
    }
    fn create(&mut self, _: &mut Ctx0, i: &mut CreateInputs) -> Option<CreateOutcome> {
        let t = create_text(i);
        self.ev.push(Ev::Item(t.clone()));
        let h = self.roll("create", &t);
        if h == u64::MAX {
            return None;
        }
        match h % 8 {
            0 => {
                let r = forged(h / 8, i.gas_limit());
                let a = r.result.is_ok().then(|| addr(33));
                Some(CreateOutcome::new(r, a))
            }
            1 => {
                let v = i.gas_limit() / 2;
                i.set_gas_limit(v);
                None
            }
            _ => None,
        }
    }
    fn create_end(&mut self, _: &mut Ctx0, i: &CreateInputs, o: &mut CreateOutcome) {
        let t = format!("create end {} {} {:?}", i.caller(), result_text(&o.result), o.address);
        let h = self.roll("create end", &t);
        self.ev.push(Ev::Item(t));
        if h != u64::MAX {
            rewrite(h, &mut o.result);
            if o.result.result.is_revert() {
                o.address = None;
            }
        }
    }
    fn selfdestruct(&mut self, c: Address, t: Address, v: U256) {
        self.ev.push(Ev::Item(format!("selfdestruct {c} to {t} value {v}")));
    }
}

// ---------------------------------------------------------------- the EVMs

pub type Ctx0 = MainnetContext<VDb>;
type Inner = MainnetEvm<Ctx0, Insp>;
pub type Res = Result<ExecutionResult, String>;
type OnMiss = Box<dyn FnMut(B256, &[u8]) -> Option<EvmCompilerFn>>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    Transact,
    One,
    Commit,
}

/// One EVM object under test or its plain counterpart.
trait Drive {
    fn ctx(&mut self) -> &mut Ctx0;
    fn insp(&mut self) -> &mut Insp;
    fn tx(&mut self, tx: TxEnv, inspect: bool, how: How) -> (Res, Option<EvmState>);
    fn system(&mut self, caller: Address, to: Address, data: Bytes, inspect: bool, how: How) -> Option<(Res, Option<EvmState>)>;
    fn replay(&mut self) -> Option<(Res, Option<EvmState>)>;
    fn finalize(&mut self) -> EvmState;
    fn block(&mut self, b: BlockEnv);
    fn spec(&mut self, spec: SpecId) -> bool;
    fn backend(&mut self, _b: JitBackend) -> bool {
        false
    }
}

pub fn split<E: std::fmt::Display>(r: Result<ResultAndState<revmc::context_interface::result::HaltReason>, E>) -> (Res, Option<EvmState>) {
    match r {
        Ok(r) => (Ok(r.result), Some(r.state)),
        Err(e) => (Err(e.to_string()), None),
    }
}

macro_rules! revm_common {
    () => {
        fn ctx(&mut self) -> &mut Ctx0 {
            &mut self.ctx
        }
        fn insp(&mut self) -> &mut Insp {
            &mut self.inspector
        }
        fn replay(&mut self) -> Option<(Res, Option<EvmState>)> {
            Some(split(ExecuteEvm::replay(self)))
        }
        fn finalize(&mut self) -> EvmState {
            ExecuteEvm::finalize(self)
        }
        fn block(&mut self, b: BlockEnv) {
            ExecuteEvm::set_block(self, b)
        }
        fn spec(&mut self, spec: SpecId) -> bool {
            self.ctx.cfg.set_spec_and_mainnet_gas_params(spec);
            self.instruction = EthInstructions::new_mainnet_with_spec(spec);
            true
        }
    };
}

macro_rules! revm_full {
    () => {
        fn tx(&mut self, tx: TxEnv, inspect: bool, how: How) -> (Res, Option<EvmState>) {
            let e = |e: revmc::context_interface::result::EVMError<VErr>| e.to_string();
            match (how, inspect) {
                (How::Transact, false) => split(self.transact(tx)),
                (How::Transact, true) => split(self.inspect_tx(tx)),
                (How::One, false) => (self.transact_one(tx).map_err(e), None),
                (How::One, true) => (self.inspect_one_tx(tx).map_err(e), None),
                (How::Commit, false) => (self.transact_commit(tx).map_err(e), None),
                (How::Commit, true) => (self.inspect_tx_commit(tx).map_err(e), None),
            }
        }
        fn system(&mut self, caller: Address, to: Address, data: Bytes, inspect: bool, how: How) -> Option<(Res, Option<EvmState>)> {
            let e = |e: revmc::context_interface::result::EVMError<VErr>| e.to_string();
            Some(match (how, inspect) {
                (How::Transact, false) => split(self.system_call_with_caller(caller, to, data)),
                (How::Transact, true) => split(self.inspect_system_call_with_caller(caller, to, data)),
                (How::One, false) => (self.system_call_one_with_caller(caller, to, data).map_err(e), None),
                (How::One, true) => (self.inspect_one_system_call_with_caller(caller, to, data).map_err(e), None),
                (How::Commit, false) => (self.system_call_with_caller_commit(caller, to, data).map_err(e), None),
                (How::Commit, true) => {
                    let (r, s) = split(self.inspect_system_call_with_caller(caller, to, data));
                    if let Some(s) = s {
                        self.ctx.journaled_state.database.commit(s);
                    }
                    (r, None)
                }
            })
        }
    };
}

impl Drive for Inner {
    revm_common!();
    revm_full!();
}

impl Drive for revmc::revm_evm::JitEvm<Inner> {
    revm_common!();
    revm_full!();
    fn backend(&mut self, b: JitBackend) -> bool {
        self.set_backend(b);
        true
    }
}

impl Drive for revmc::JitEvm<Inner, OnMiss> {
    revm_common!();
    fn tx(&mut self, tx: TxEnv, inspect: bool, how: How) -> (Res, Option<EvmState>) {
        let e = |e: revmc::context_interface::result::EVMError<VErr>| e.to_string();
        match how {
            How::One if inspect => (self.inspect_one_tx(tx).map_err(e), None),
            How::One => (self.transact_one(tx).map_err(e), None),
            _ => {
                let (r, s) = split(if inspect { self.inspect_tx(tx) } else { self.transact(tx) });
                if how == How::Commit {
                    if let Some(s) = s {
                        self.ctx.journaled_state.database.commit(s);
                    }
                    return (r, None);
                }
                (r, s)
            }
        }
    }
    fn system(&mut self, _: Address, _: Address, _: Bytes, _: bool, _: How) -> Option<(Res, Option<EvmState>)> {
        None
    }
}

/// What `alloy_evm::EthEvm` wraps. Driven directly, because that wrapper never shows system calls
/// to the inspector, while the JIT one chooses to.
type AlloyPlain = revm_context::Evm<
    Ctx0,
    Insp,
    EthInstructions<EthInterpreter, Ctx0>,
    alloy_evm::precompiles::PrecompilesMap,
    revmc::handler::EthFrame,
>;
type AlloyJit = revmc::alloy_evm::JitEvm<VDb, Insp, alloy_evm::precompiles::PrecompilesMap>;

impl Drive for AlloyPlain {
    revm_common!();
    fn tx(&mut self, tx: TxEnv, inspect: bool, how: How) -> (Res, Option<EvmState>) {
        let (r, s) = split(if inspect { self.inspect_tx(tx) } else { self.transact(tx) });
        if how == How::Commit {
            if let Some(s) = s {
                self.ctx.journaled_state.database.commit(s);
            }
            return (r, None);
        }
        (r, s)
    }
    fn system(&mut self, caller: Address, to: Address, data: Bytes, inspect: bool, _: How) -> Option<(Res, Option<EvmState>)> {
        Some(split(if inspect {
            self.inspect_system_call_with_caller(caller, to, data)
        } else {
            self.system_call_with_caller(caller, to, data)
        }))
    }
}
/// With the inspector setting it was made with, or last given.
struct AlloyDrive {
    evm: AlloyJit,
    inspect: bool,
}
impl AlloyDrive {
    fn set(&mut self, inspect: bool) {
        // Only when it has to change, so that the setting an object starts with counts.
        if self.inspect != inspect {
            self.evm.set_inspector_enabled(inspect);
            self.inspect = inspect;
        }
    }
}
impl Drive for AlloyDrive {
    fn ctx(&mut self) -> &mut Ctx0 {
        &mut self.evm
    }
    fn insp(&mut self) -> &mut Insp {
        self.evm.inspector_mut()
    }
    fn tx(&mut self, tx: TxEnv, inspect: bool, how: How) -> (Res, Option<EvmState>) {
        self.set(inspect);
        match how {
            How::Commit => (self.evm.transact_commit(tx).map_err(|e| e.to_string()), None),
            _ => split(self.evm.transact_raw(tx)),
        }
    }
    fn system(&mut self, caller: Address, to: Address, data: Bytes, inspect: bool, _: How) -> Option<(Res, Option<EvmState>)> {
        self.set(inspect);
        Some(split(self.evm.transact_system_call(caller, to, data)))
    }
    fn replay(&mut self) -> Option<(Res, Option<EvmState>)> {
        None
    }
    fn finalize(&mut self) -> EvmState {
        EvmState::default()
    }
    fn block(&mut self, b: BlockEnv) {
        self.ctx().block = b;
    }
    fn spec(&mut self, _: SpecId) -> bool {
        false
    }
}

// ---------------------------------------------------------------- worlds

/// Contract text with an embedded blob: `f(offset)` builds the code given the blob's offset.
fn with_blob(f: impl Fn(usize) -> Vec<u8>, blob: &[u8]) -> Vec<u8> {
    let n = f(0).len();
    let mut c = f(n);
    assert_eq!(c.len(), n);
    c.extend_from_slice(blob);
    c
}

fn push2(c: &mut Vec<u8>, v: usize) {
    c.extend_from_slice(&[op::PUSH2, (v >> 8) as u8, v as u8]);
}

/// Init code deploying `runtime`.
pub fn deployer(runtime: &[u8]) -> Vec<u8> {
    with_blob(
        |off| {
            let mut c = vec![];
            push2(&mut c, runtime.len());
            push2(&mut c, off);
            c.extend_from_slice(&[op::PUSH1, 0, op::CODECOPY]);
            push2(&mut c, runtime.len());
            c.extend_from_slice(&[op::PUSH1, 0, op::RETURN]);
            c
        },
        runtime,
    )
}

fn push_addr(c: &mut Vec<u8>, a: Address) {
    c.push(op::PUSH20);
    c.extend_from_slice(a.as_slice());
}

fn target(s: &mut Src) -> Address {
    match s.weighted(&[12, 3, 2]) {
        0 => addr(s.range(1, 9) as u64),
        1 => {
            let mut a = [0u8; 20];
            a[19] = s.range(1, 11) as u8;
            if s.chance(1, 6) {
                a[18] = 1;
                a[19] = 0;
            }
            a.into()
        }
        _ => addr(s.range(10, 12) as u64),
    }
}

/// A contract built from well-formed interactions.
fn scene(s: &mut Src, spec: SpecId, depth: usize) -> Vec<u8> {
    let mut c = vec![];
    let mut blobs: Vec<(usize, Vec<u8>)> = vec![];
    let has = |o: u8| progs::since(o).is_some_and(|x| spec >= x);
    // Copy some call data in, so that calls have something to pass on.
    let n = s.below(70);
    c.extend_from_slice(&[op::PUSH1, n as u8, op::PUSH1, 0, op::PUSH1, s.below(40) as u8, op::CALLDATACOPY]);
    for _ in 0..s.range(1, 6) {
        // Guard by a call data bit, sometimes.
        let mut guard = None;
        if s.chance(1, 4) {
            c.extend_from_slice(&[op::PUSH1, s.below(64) as u8, op::CALLDATALOAD, op::PUSH1, 1 << s.below(8), op::AND]);
            guard = Some(c.len() + 1);
            push2(&mut c, 0);
            c.push(op::JUMPI);
        }
        match s.weighted(&[10, 4, 5, 3, 3, if depth < 2 { 4 } else { 0 }, 1, 2, 2, 2]) {
            0 => {
                let mut kinds = vec![op::CALL, op::CALL, op::CALLCODE];
                kinds.extend([op::DELEGATECALL, op::STATICCALL].into_iter().filter(|o| has(*o)));
                let k = *s.pick(&kinds);
                c.extend_from_slice(&[op::PUSH1, s.below(70) as u8, op::PUSH1, s.below(100) as u8]);
                c.extend_from_slice(&[op::PUSH1, s.below(70) as u8, op::PUSH1, s.below(40) as u8]);
                if matches!(k, op::CALL | op::CALLCODE) {
                    c.extend_from_slice(&[op::PUSH1, if s.bool() { 0 } else { s.below(4) as u8 }]);
                }
                push_addr(&mut c, target(s));
                match s.below(5) {
                    0 => {
                        push2(&mut c, s.below(0x10000));
                    }
                    1 => c.extend_from_slice(&[op::PUSH1, 0, op::NOT]),
                    _ => c.push(op::GAS),
                }
                c.push(k);
                c.extend_from_slice(&[op::PUSH1, s.below(4) as u8, op::SSTORE]);
            }
            1 => c.extend_from_slice(&[op::PUSH1, s.byte(), op::PUSH1, s.below(4) as u8, op::SSTORE]),
            2 => {
                let t = s.below(5);
                for _ in 0..t {
                    c.extend_from_slice(&[op::PUSH1, s.byte()]);
                }
                c.extend_from_slice(&[op::PUSH1, s.below(70) as u8, op::PUSH1, s.below(70) as u8, op::LOG0 + t as u8]);
            }
            3 if has(op::RETURNDATASIZE) => {
                c.extend_from_slice(&[op::RETURNDATASIZE, op::PUSH1, 0, op::PUSH1, s.below(40) as u8, op::RETURNDATACOPY]);
            }
            4 if has(op::TLOAD) => {
                c.extend_from_slice(&[op::PUSH1, s.below(3) as u8, op::TLOAD, op::PUSH1, 1, op::ADD, op::DUP1, op::PUSH1, s.below(3) as u8, op::TSTORE]);
                c.extend_from_slice(&[op::PUSH1, s.below(40) as u8, op::MSTORE]);
            }
            5 => {
                // Create from an embedded blob, then call what was created.
                let rt = small_code(s, spec, depth + 1);
                let init = if s.chance(3, 4) { deployer(&rt) } else { rt };
                push2(&mut c, init.len());
                blobs.push((c.len() + 1, init.clone()));
                push2(&mut c, 0);
                c.extend_from_slice(&[op::PUSH1, 0x60, op::CODECOPY]);
                let two = has(op::CREATE2) && s.bool();
                if two {
                    c.extend_from_slice(&[op::PUSH1, s.below(3) as u8]);
                }
                push2(&mut c, init.len());
                c.extend_from_slice(&[op::PUSH1, 0x60, op::PUSH1, if s.bool() { 0 } else { s.below(3) as u8 }]);
                c.push(if two { op::CREATE2 } else { op::CREATE });
                match s.below(3) {
                    0 => c.extend_from_slice(&[op::PUSH1, s.below(4) as u8, op::SSTORE]),
                    _ => {
                        c.extend_from_slice(&[op::PUSH1, 32, op::PUSH1, 0, op::PUSH1, 32, op::PUSH1, 0, op::PUSH1, 0]);
                        c.extend_from_slice(&[op::DUP6, op::GAS, op::CALL, op::PUSH1, 1, op::SSTORE, op::POP]);
                    }
                }
            }
            6 => {
                push_addr(&mut c, target(s));
                c.push(op::SELFDESTRUCT);
            }
            7 => {
                push_addr(&mut c, target(s));
                let mut os = vec![op::BALANCE, op::EXTCODESIZE];
                os.extend([op::EXTCODEHASH].into_iter().filter(|o| has(*o)));
                c.push(*s.pick(&os));
                c.extend_from_slice(&[op::PUSH1, s.below(64) as u8, op::MSTORE]);
            }
            8 => c.extend_from_slice(&[op::GAS, op::PUSH1, s.below(64) as u8, op::MSTORE]),
            _ => {
                let e = *s.pick(&[op::CALLER, op::ADDRESS, op::ORIGIN, op::CALLVALUE, op::NUMBER, op::TIMESTAMP, op::COINBASE, op::GASPRICE, op::DIFFICULTY, op::GASLIMIT]);
                c.extend_from_slice(&[e, op::PUSH1, s.below(4) as u8, op::SSTORE]);
            }
        }
        if let Some(g) = guard {
            let at = c.len();
            c[g] = (at >> 8) as u8;
            c[g + 1] = at as u8;
            c.push(op::JUMPDEST);
        }
    }
    match s.weighted(&[8, 3, 3, 1]) {
        0 => c.extend_from_slice(&[op::PUSH1, s.below(100) as u8, op::PUSH1, s.below(40) as u8, op::RETURN]),
        1 => c.extend_from_slice(&[op::PUSH1, s.below(100) as u8, op::PUSH1, s.below(40) as u8, if has(op::REVERT) { op::REVERT } else { op::RETURN }]),
        2 => c.push(op::STOP),
        _ => c.push(op::INVALID),
    }
    for (at, b) in blobs {
        let off = c.len();
        c[at] = (off >> 8) as u8;
        c[at + 1] = off as u8;
        c.extend_from_slice(&b);
    }
    c
}

fn small_code(s: &mut Src, spec: SpecId, depth: usize) -> Vec<u8> {
    match s.weighted(&[6, 3, 1, 1]) {
        0 => scene(s, spec, depth),
        1 => progs::program(s, gens::TINY, spec, 0),
        2 => vec![],
        _ => {
            // Forwarder: passes everything on and returns everything.
            let mut c = vec![op::CALLDATASIZE, op::PUSH1, 0, op::PUSH1, 0, op::CALLDATACOPY];
            c.extend_from_slice(&[op::PUSH1, 0, op::PUSH1, 0, op::CALLDATASIZE, op::PUSH1, 0, op::PUSH1, 0]);
            push_addr(&mut c, target(s));
            c.extend_from_slice(&[op::GAS, op::CALL]);
            if spec >= SpecId::BYZANTIUM {
                c.extend_from_slice(&[op::RETURNDATASIZE, op::PUSH1, 0, op::PUSH1, 0, op::RETURNDATACOPY, op::RETURNDATASIZE, op::PUSH1, 0, op::RETURN]);
            } else {
                c.extend_from_slice(&[op::PUSH1, 0, op::MSTORE, op::PUSH1, 32, op::PUSH1, 0, op::RETURN]);
            }
            c
        }
    }
}

fn contract(s: &mut Src, spec: SpecId) -> Vec<u8> {
    match s.weighted(&[10, 2, 2, 2, 3]) {
        0 => scene(s, spec, 0),
        1 => progs::program(s, gens::CALLS, spec, 0),
        2 => progs::program(s, gens::HOST, spec, 0),
        3 => progs::program(s, GENERAL, spec, 0),
        _ => small_code(s, spec, 0),
    }
}

#[derive(Clone)]
pub struct World {
    pub spec: SpecId,
    pub cfg: CfgEnv,
    pub block: BlockEnv,
    pub db: VDb,
    pub codes: Vec<Bytes>,
    pub gas_params: Option<GasParams>,
}

const SENDERS: [u64; 3] = [40, 41, 42];

fn block(s: &mut Src, spec: SpecId) -> BlockEnv {
    let mut b = BlockEnv::default();
    b.number = U256::from(s.below(3000));
    b.timestamp = U256::from(s.below(1 << 30));
    b.beneficiary = addr(s.range(1, 14) as u64);
    b.gas_limit = 60_000_000;
    b.basefee = if s.bool() { 0 } else { s.below(50) as u64 };
    b.difficulty = s.word();
    b.prevrandao = Some(s.b256());
    b.slot_num = s.below(1000) as u64;
    if spec >= SpecId::CANCUN {
        b.set_blob_excess_gas_and_price(s.below(1 << 20) as u64, 3338477);
    }
    b
}

impl World {
    pub fn generate(s: &mut Src) -> Self {
        let spec = progs::spec(s);
        Self::generate_for(s, spec)
    }

    pub fn generate_for(s: &mut Src, spec: SpecId) -> Self {
        let mut db = VDb { inner: CacheDB::default(), fail_account: None, fail_slot: None, fail_hash: false };
        let mut codes = vec![];
        for i in 1..=s.range(2, 6) {
            let code: Bytes = if i > 1 && s.chance(1, 8) {
                let j = s.below(codes.len());
                let c: &Bytes = &codes[j];
                c.clone()
            } else {
                contract(s, spec).into()
            };
            codes.push(code.clone());
            let a = addr(i as u64);
            let bc = Bytecode::new_legacy(code);
            let balance = if s.bool() { U256::from(s.below(1000)) } else { U256::ZERO };
            let info = AccountInfo::new(balance, 1 + s.below(3) as u64, bc.hash_slow(), bc);
            db.inner.insert_account_info(a, info);
            for k in 0..s.below(4) {
                db.inner.insert_account_storage(a, U256::from(k), s.small()).unwrap();
            }
        }
        db.inner.insert_account_info(addr(8), AccountInfo::from_balance(U256::from(77)));
        if s.chance(1, 2) {
            // A delegated account; before Prague its code is just an invalid instruction.
            let bc = Bytecode::new_eip7702(addr(s.range(1, 7) as u64));
            let info = AccountInfo::new(U256::from(5), 3, bc.hash_slow(), bc);
            db.inner.insert_account_info(addr(9), info);
        }
        for a in SENDERS {
            db.inner.insert_account_info(addr(a), AccountInfo::from_balance(U256::from(10u64).pow(U256::from(20))));
        }
        let mut cfg = CfgEnv::default();
        cfg.set_spec_and_mainnet_gas_params(spec);
        cfg.disable_nonce_check = s.chance(1, 8);
        if s.chance(1, 10) {
            cfg.limit_contract_code_size = Some(s.below(200));
        }
        if s.chance(1, 10) {
            cfg.limit_contract_initcode_size = Some(s.below(300));
        }
        if s.chance(1, 6) {
            cfg.chain_id = 1 + s.below(5) as u64;
        }
        let gas_params = s.chance(1, 10).then(|| super::diff::gas_params(s, spec));
        if let Some(g) = &gas_params {
            cfg.gas_params = g.clone();
        }
        Self { spec, block: block(s, spec), cfg, db, codes, gas_params }
    }

    fn context(&self) -> Ctx0 {
        let mut c = Ctx0::new(self.db.clone(), self.spec);
        c.cfg = self.cfg.clone();
        c.block = self.block.clone();
        c
    }
    fn env(&self) -> EvmEnv {
        EvmEnv { cfg_env: self.cfg.clone(), block_env: self.block.clone() }
    }
}

pub fn tx(s: &mut Src, w: &World, spec: SpecId, nonces: &BTreeMap<Address, u64>) -> TxEnv {
    let caller = addr(*s.pick(&SENDERS));
    let mut t = TxEnv::default();
    t.caller = caller;
    t.nonce = nonces.get(&caller).copied().unwrap_or(0);
    if s.chance(1, 25) {
        t.nonce += 1;
    }
    t.chain_id = Some(w.cfg.chain_id);
    t.gas_limit = match s.weighted(&[8, 2, 1]) {
        0 => 300_000 + s.below(600_000) as u64,
        1 => 21_000 + s.below(80_000) as u64,
        _ => s.below(60_000) as u64,
    };
    t.gas_price = s.range(50, 60) as u128;
    if s.chance(1, 6) {
        let code = if s.chance(1, 4) { contract(s, spec) } else { deployer(&small_code(s, spec, 0)) };
        t.kind = TxKind::Create;
        t.data = code.into();
        if s.bool() {
            t.gas_limit += 1_500_000;
        }
    } else {
        t.kind = TxKind::Call(match s.below(10) {
            0 => target(s),
            1 => addr(9),
            _ => addr(s.range(1, w.codes.len()) as u64),
        });
        t.data = s.calldata();
    }
    t.value = if s.chance(2, 3) { U256::ZERO } else { U256::from(s.below(50)) };
    if spec >= SpecId::BERLIN && s.chance(1, 5) {
        t.access_list = AccessList(
            (0..s.range(1, 3))
                .map(|_| AccessListItem {
                    address: target(s),
                    storage_keys: (0..s.below(4)).map(|k| B256::from(U256::from(k))).collect(),
                })
                .collect(),
        );
    }
    if spec >= SpecId::LONDON && s.chance(1, 3) {
        t.gas_priority_fee = Some(s.below(40) as u128);
    }
    if spec >= SpecId::CANCUN && matches!(t.kind, TxKind::Call(_)) && s.chance(1, 10) {
        t.gas_priority_fee = Some(1);
        t.max_fee_per_blob_gas = 1 << 40;
        t.blob_hashes = (0..s.range(1, 3))
            .map(|_| {
                let mut h = s.b256();
                h.0[0] = 1;
                h
            })
            .collect();
    } else if spec >= SpecId::PRAGUE && matches!(t.kind, TxKind::Call(_)) && s.chance(1, 6) {
        t.gas_priority_fee = Some(1);
        t.authorization_list = (0..s.range(1, 2))
            .map(|_| {
                let who = addr(*s.pick(&[7, 8, 9, 41, 42]));
                let address = if s.chance(1, 5) { Address::ZERO } else { target(s) };
                let nonce = match s.below(4) {
                    0 => s.below(4) as u64,
                    _ => nonces.get(&who).copied().unwrap_or(if who == addr(9) { 3 } else { 0 }),
                };
                let a = Authorization { chain_id: U256::from(*s.pick(&[0, w.cfg.chain_id])), address, nonce };
                Either::Right(RecoveredAuthorization::new_unchecked(a, RecoveredAuthority::Valid(who)))
            })
            .collect();
        t.gas_limit += 60_000;
    }
    let _ = t.derive_tx_type();
    if s.chance(1, 40) {
        t.chain_id = Some(999);
    }
    t
}

// ---------------------------------------------------------------- comparison

fn res_text(r: &Res) -> String {
    match r {
        Err(e) => format!("error: {e}"),
        Ok(ExecutionResult::Halt { gas, logs, .. }) => format!("halt, gas {gas:?}, logs {logs:?}"),
        Ok(r) => format!("{r:?}"),
    }
}

/// The part of the state that matters: touched accounts with what changed.
fn state_text(st: &EvmState) -> Vec<String> {
    let mut out = BTreeMap::new();
    for (a, acc) in st {
        let changed: BTreeMap<_, _> = acc.storage.iter().filter(|(_, v)| v.is_changed()).map(|(k, v)| (*k, v.present_value)).collect();
        if !acc.is_touched() {
            if !changed.is_empty() {
                out.insert(*a, format!("{a}: untouched but changed {changed:?}"));
            }
            continue;
        }
        // Pre-Spurious-Dragon quirk kept by the journal: a touch of 0x03 survives a rollback.
        if acc.info.is_empty() && changed.is_empty() && *a == Address::with_last_byte(3) {
            continue;
        }
        let code = acc.info.code.as_ref().map(|c| hex::encode(c.original_bytes()));
        out.insert(
            *a,
            format!(
                "{a}: balance {} nonce {} code {} {:?} created {} destroyed {} storage {changed:?}",
                acc.info.balance,
                acc.info.nonce,
                acc.info.code_hash,
                code.filter(|_| acc.is_created()),
                acc.is_created(),
                acc.is_selfdestructed()
            ),
        );
    }
    out.into_values().collect()
}

fn lines(what: &str, a: &[String], b: &[String]) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let none = "(nothing)".to_string();
    Err(format!(
        "{what} differs at entry {i} ({} / {} entries):\n  plain: {}\n  jit:   {}",
        a.len(),
        b.len(),
        exec::clip(a.get(i).unwrap_or(&none)),
        exec::clip(b.get(i).unwrap_or(&none))
    ))
}

pub fn compare(a: &(Res, Option<EvmState>), b: &(Res, Option<EvmState>)) -> Result<(), String> {
    let (x, y) = (res_text(&a.0), res_text(&b.0));
    if x != y {
        return Err(format!("the result differs:\n  plain: {}\n  jit:   {}", exec::clip(&x), exec::clip(&y)));
    }
    if let (Some(x), Some(y)) = (&a.1, &b.1) {
        lines("the state", &state_text(x), &state_text(y))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- cases

fn runtime(s: &mut Src, w: &World, mode: usize) -> JitBackend {
    let mut c = RuntimeConfig::default();
    c.enabled = mode != 3;
    c.blocking = mode == 0;
    c.gas_params = w.gas_params.clone();
    c.single_error = !s.chance(1, 4);
    c.no_dedup = s.chance(1, 6);
    c.no_dse = s.chance(1, 6);
    c.debug_assertions = s.chance(1, 8);
    let mut t = RuntimeTuning::default();
    t.jit_worker_count = 1;
    t.event_drain_interval = Duration::from_millis(1);
    t.jit_hot_threshold = if mode == 2 { s.below(3) } else { usize::MAX };
    t.jit_opt_level = *s.pick(&[OptimizationLevel::None, OptimizationLevel::Default, OptimizationLevel::Default, OptimizationLevel::Aggressive]);
    if s.chance(1, 10) {
        t.jit_max_bytecode_len = s.below(200);
    }
    if s.chance(1, 6) {
        t.compiler_recycle_threshold = s.range(1, 3);
    }
    c.tuning = t;
    JitBackend::new(c).unwrap()
}

fn request(code: &Bytes, spec: SpecId) -> LookupRequest {
    LookupRequest { key: RuntimeCacheKey { code_hash: keccak256(code), spec_id: spec }, code: code.clone() }
}

struct Pair {
    plain: Box<dyn Drive>,
    jit: Box<dyn Drive>,
    backend: Option<JitBackend>,
    flavour: usize,
    /// Functions of the map-based EVM.
    hits: Rc<RefCell<u64>>,
}

fn pair(s: &mut Src, w: &World, salt: u64) -> (Pair, String) {
    let insp = Insp { salt, ev: vec![] };
    let flavour = s.weighted(&[6, 3, 3]);
    let mode = s.weighted(&[6, 4, 3, 1]);
    let hits = Rc::new(RefCell::new(0));
    let plain = || w.context().build_mainnet_with_inspector(insp.clone());
    match flavour {
        0 => {
            let b = runtime(s, w, mode);
            let jit = revmc::revm_evm::JitEvm::new(plain(), b.clone());
            (Pair { plain: Box::new(plain()), jit: Box::new(jit), backend: Some(b), flavour, hits }, format!("revm JitEvm, backend mode {mode}"))
        }
        1 => {
            let b = runtime(s, w, mode);
            let jit = revmc::alloy_evm::JitEvmFactory::new(b.clone()).create_evm_with_inspector(w.db.clone(), w.env(), insp.clone());
            let p: AlloyPlain = EthEvmFactory::default().create_evm_with_inspector(w.db.clone(), w.env(), insp.clone()).into_inner();
            (Pair { plain: Box::new(p), jit: Box::new(AlloyDrive { evm: jit, inspect: true }), backend: Some(b), flavour, hits }, format!("alloy JitEvm, backend mode {mode}"))
        }
        _ => {
            let cfg = Cfg {
                gas_params: w.gas_params.clone(),
                opt: *s.pick(&[OptimizationLevel::None, OptimizationLevel::Default]),
                single_error: s.chance(3, 4),
                ..Default::default()
            };
            let mut map = Default::default();
            let keep: Rc<RefCell<Vec<Compiled>>> = Default::default();
            fill(&mut map, s, w, &cfg, &keep);
            *hits.borrow_mut() += keep.borrow().len() as u64;
            let compile_misses = s.bool();
            let (spec, h) = (w.spec, hits.clone());
            let mut seen: BTreeMap<B256, Option<EvmCompilerFn>> = BTreeMap::new();
            let on_miss: OnMiss = Box::new(move |hash, code| {
                *seen.entry(hash).or_insert_with(|| {
                    if keccak256(code) != hash {
                        panic!("the miss handler got code that does not match its hash {hash}");
                    }
                    if !compile_misses || code.is_empty() || hash.0[0] % 4 == 0 {
                        return None;
                    }
                    let c = exec::compile(&cfg, code, spec).unwrap();
                    let f = c.f;
                    keep.borrow_mut().push(c);
                    *h.borrow_mut() += 1;
                    Some(f)
                })
            });
            let jit = revmc::JitEvm::with_on_miss(plain(), map, on_miss);
            (Pair { plain: Box::new(plain()), jit: Box::new(jit), backend: None, flavour, hits }, format!("map JitEvm, compile misses {compile_misses}"))
        }
    }
}

fn fill(
    map: &mut revmc::primitives::map::B256Map<revmc::RawEvmCompilerFn>,
    s: &mut Src,
    w: &World,
    cfg: &Cfg,
    keep: &Rc<RefCell<Vec<Compiled>>>,
) {
    for c in &w.codes {
        if !c.is_empty() && s.bool() {
            let x = exec::compile(cfg, c, w.spec).unwrap();
            map.insert(keccak256(c), x.f.into_inner());
            keep.borrow_mut().push(x);
        }
    }
}

/// A transaction, in `forks` histories often to the contract called last.
fn again(s: &mut Src, w: &World, spec: SpecId, nonces: &BTreeMap<Address, u64>, last: &mut Option<(Address, Bytes)>, forks: bool) -> TxEnv {
    let mut t = tx(s, w, spec, nonces);
    if forks && let TxKind::Call(to) = t.kind {
        match last {
            Some(x) if s.chance(3, 4) => (t.kind, t.data) = (TxKind::Call(x.0), x.1.clone()),
            _ => *last = Some((to, t.data.clone())),
        }
    }
    t
}

fn history(s: &mut Src, info: &mut Info, always_inspect: bool) -> Result<(), String> {
    let w = World::generate(s);
    let salt = if s.bool() { 0 } else { 1 + s.below(1 << 20) as u64 };
    let (mut p, kind) = pair(s, &w, salt);
    info.desc = format!("{kind}, spec {:?}, inspector salt {salt}", w.spec);
    for (i, c) in w.codes.iter().enumerate() {
        let _ = write!(info.desc, "\ncontract {} 0x{}", addr(i as u64 + 1), hex::encode(c));
    }
    let mut spec = w.spec;
    let mut nonces: BTreeMap<Address, u64> = BTreeMap::new();
    nonces.insert(addr(9), 3);
    let mut precompiled = BTreeSet::new();
    // Make some code resident up front.
    if let Some(b) = &p.backend {
        for c in &w.codes {
            if s.bool() {
                let _ = b.compile_jit_sync(request(c, spec));
                precompiled.insert(keccak256(c));
            }
        }
    }
    let mut pending = false;
    let mut ran = 0;
    // Some histories keep changing the hardfork and come back to the same contracts, by every way
    // of starting one.
    let forks = w.gas_params.is_none() && s.chance(1, 4);
    let mut last: Option<(Address, Bytes)> = None;
    for step in 0..s.range(1, 6) {
        // Things that happen between transactions.
        match s.weighted(if forks && step > 0 { &[4, 0, 12, 2, 0, 0] } else { &[10, 2, 2, 2, 2, 1] }) {
            1 => {
                let b = block(s, spec);
                p.plain.block(b.clone());
                p.jit.block(b);
                let _ = write!(info.desc, "\nstep {step}: new block");
            }
            2 if w.gas_params.is_none() && !pending => {
                let n = progs::spec(s);
                if p.hits_free() && p.jit.spec(n) {
                    p.plain.spec(n);
                    spec = n;
                    let _ = write!(info.desc, "\nstep {step}: spec {n:?}");
                }
            }
            3 => {
                if let Some(b) = &p.backend {
                    for c in &w.codes {
                        if s.bool() {
                            let _ = b.compile_jit_sync(request(c, spec));
                        }
                    }
                    let _ = write!(info.desc, "\nstep {step}: compiled more");
                }
            }
            4 => {
                if let Some(b) = &p.backend {
                    match s.below(3) {
                        0 => b.clear_resident(),
                        1 => b.set_enabled(false).unwrap(),
                        _ => b.set_enabled(true).unwrap(),
                    }
                    let _ = write!(info.desc, "\nstep {step}: backend cleared or switched");
                }
            }
            5 => {
                if p.backend.is_some() {
                    let mode = s.below(4);
                    let b = runtime(s, &w, mode);
                    if p.jit.backend(b.clone()) {
                        p.backend = Some(b);
                        let _ = write!(info.desc, "\nstep {step}: new backend mode {mode}");
                    }
                }
            }
            _ => {}
        }
        let inspect = always_inspect && !s.chance(1, 8) || s.chance(1, 8);
        let how = *s.pick(&[How::Transact, How::One, How::Commit, How::Commit]);
        // The alloy interface has no way to leave a transaction unfinished; the map-based EVM has
        // no commit of its own.
        let (how, commit) = match (p.flavour, how) {
            (1, How::One) => (How::Commit, false),
            (2, How::Commit) => (How::Transact, true),
            _ => (how, false),
        };
        p.plain.insp().ev.clear();
        p.jit.insp().ev.clear();
        let (a, b);
        match s.weighted(if forks { &[2, 2, 1] } else { &[12, 2, 1] }) {
            1 => {
                let caller = addr(*s.pick(&[13, 40]));
                let (to, data) = match &last {
                    Some(x) if s.chance(3, 4) => x.clone(),
                    _ => (target(s), s.calldata()),
                };
                last = forks.then(|| (to, data.clone()));
                let _ = write!(info.desc, "\nstep {step}: system call {caller} -> {to} 0x{} inspect {inspect} {how:?}", hex::encode(&data));
                let Some(x) = p.jit.system(caller, to, data.clone(), inspect, how) else { continue };
                b = x;
                a = p.plain.system(caller, to, data, inspect, how).unwrap();
            }
            2 if !pending => {
                let _ = write!(info.desc, "\nstep {step}: replay");
                let t = again(s, &w, spec, &nonces, &mut last, forks);
                p.plain.ctx().tx = t.clone();
                p.jit.ctx().tx = t;
                let Some(x) = p.jit.replay() else { continue };
                b = x;
                a = p.plain.replay().unwrap();
            }
            _ => {
                let t = again(s, &w, spec, &nonces, &mut last, forks);
                let _ = write!(info.desc, "\nstep {step}: inspect {inspect} {how:?} {}", tx_text(&t));
                let caller = t.caller;
                a = p.plain.tx(t.clone(), inspect, how);
                b = p.jit.tx(t, inspect, how);
                if a.0.is_ok() && (how != How::Transact || commit) {
                    *nonces.entry(caller).or_default() += 1;
                }
            }
        }
        compare(&a, &b).map_err(|e| format!("step {step}: {e}"))?;
        if a.0.is_ok() {
            lines("what the inspector saw", &p.plain.insp().normal(), &p.jit.insp().normal()).map_err(|e| format!("step {step}: {e}"))?;
            ran += 1;
            info.tag(match &a.0 {
                Ok(ExecutionResult::Success { .. }) => "succeeded",
                Ok(ExecutionResult::Revert { .. }) => "reverted",
                _ => "halted",
            });
            if inspect {
                info.tag("inspected");
                if p.plain.insp().ev.iter().any(|e| matches!(e, Ev::Item(x) if x.starts_with("log"))) {
                    info.tag("inspected_with_logs");
                }
                if p.plain.insp().ev.iter().any(|e| matches!(e, Ev::Item(x) if x.starts_with("selfd"))) {
                    info.tag("inspected_with_selfdestruct");
                }
            }
        } else {
            info.tag("refused");
        }
        info.evals += 1;
        if commit && let (Some(x), Some(y)) = (a.1.clone(), b.1) {
            p.plain.ctx().journaled_state.database.commit(x);
            p.jit.ctx().journaled_state.database.commit(y);
        }
        pending = how == How::One && (pending || a.0.is_ok());
        if how == How::One && s.bool() {
            let (x, y) = (p.plain.finalize(), p.jit.finalize());
            lines("the finalized state", &state_text(&x), &state_text(&y)).map_err(|e| format!("step {step}: {e}"))?;
            p.plain.ctx().journaled_state.database.commit(x);
            p.jit.ctx().journaled_state.database.commit(y);
            pending = false;
        }
        // An account may also have moved its nonce through an authorization.
        if !pending {
            for a in SENDERS {
                let a = addr(a);
                if let Some(i) = p.plain.ctx().journaled_state.database.inner.basic(a).unwrap() {
                    nonces.insert(a, i.nonce);
                }
            }
        }
    }
    let (x, y) = (p.plain.finalize(), p.jit.finalize());
    lines("the final state", &state_text(&x), &state_text(&y))?;
    lines("the database", &db_text(&p.plain.ctx().journaled_state.database), &db_text(&p.jit.ctx().journaled_state.database))?;
    let used = match &p.backend {
        Some(b) => b.stats().resident_entries + b.stats().lookup_hits,
        None => *p.hits.borrow(),
    };
    if ran > 0 && used > 0 {
        info.nontrivial.push(fnv(info.desc.as_bytes()));
    }
    Ok(())
}

impl Pair {
    /// The map-based EVM keys its functions by code hash only, so its user keeps one hardfork.
    fn hits_free(&self) -> bool {
        self.backend.is_some()
    }
}

fn tx_text(t: &TxEnv) -> String {
    let mut t2 = t.clone();
    t2.data = Bytes::new();
    format!("{t2:?} data 0x{}", hex::encode(&t.data))
}

fn db_text(db: &VDb) -> Vec<String> {
    let mut out = BTreeMap::new();
    for (a, acc) in &db.inner.cache.accounts {
        let st: BTreeMap<_, _> = acc.storage.iter().filter(|(_, v)| !v.is_zero()).collect();
        if acc.info.is_empty() && st.is_empty() {
            continue;
        }
        out.insert(*a, format!("{a}: {} {} {} {st:?}", acc.info.balance, acc.info.nonce, acc.info.code_hash));
    }
    out.into_values().collect()
}

/// A database that fails for one key: the same error must come out of both.
fn db_fault(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let mut w = World::generate(s);
    let t = tx(s, &w, w.spec, &BTreeMap::new());
    // Only histories where nothing halts: otherwise compiled code may halt before the read.
    let mut healthy = w.context().build_mainnet_with_inspector(Insp::default());
    let (r, st) = healthy.tx(t.clone(), true, How::Transact);
    let Some(st) = st.filter(|_| r.is_ok()) else { return Ok(()) };
    if healthy.inspector.ev.iter().any(|e| matches!(e, Ev::Close { halted: true, .. })) {
        return Ok(());
    }
    let mut keys: Vec<_> = st.keys().copied().collect();
    keys.sort();
    let mut slots: Vec<_> = st.iter().flat_map(|(a, x)| x.storage.keys().map(move |k| (*a, *k))).collect();
    slots.sort();
    match s.below(3) {
        0 if !keys.is_empty() => w.db.fail_account = Some(*s.pick(&keys)),
        1 => w.db.fail_hash = true,
        _ if !slots.is_empty() => w.db.fail_slot = Some(*s.pick(&slots)),
        _ => return Ok(()),
    }
    let (mut p, kind) = pair(s, &w, 0);
    info.desc = format!("{kind}, spec {:?}, failing {:?} {:?} {}\n{}", w.spec, w.db.fail_account, w.db.fail_slot, w.db.fail_hash, tx_text(&t));
    for (i, c) in w.codes.iter().enumerate() {
        let _ = write!(info.desc, "\ncontract {} 0x{}", addr(i as u64 + 1), hex::encode(c));
    }
    if let Some(b) = &p.backend {
        for c in &w.codes {
            let _ = b.compile_jit_sync(request(c, w.spec));
        }
    }
    let inspect = s.chance(1, 3);
    let a = p.plain.tx(t.clone(), inspect, How::Transact);
    let b = p.jit.tx(t.clone(), inspect, How::Transact);
    info.evals += 1;
    compare(&a, &b)?;
    if a.0.is_err() {
        info.tag("database_fault_surfaced");
        info.nontrivial.push(fnv(info.desc.as_bytes()));
    }
    // The object stays usable: heal the database and run again.
    for e in [&mut p.plain, &mut p.jit] {
        let db = &mut e.ctx().journaled_state.database;
        db.fail_account = None;
        db.fail_slot = None;
        db.fail_hash = false;
    }
    let a = p.plain.tx(t.clone(), false, How::Transact);
    let b = p.jit.tx(t, false, How::Transact);
    compare(&a, &b).map_err(|e| format!("after the fault is gone: {e}"))
}

pub fn c10(s: &mut Src, info: &mut Info) -> Result<(), String> {
    if s.chance(1, 8) { db_fault(s, info) } else { history(s, info, false) }
}

pub fn c11(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let _ = mix(0);
    history(s, info, true)
}
