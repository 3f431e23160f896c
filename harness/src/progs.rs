//! Structured EVM program generator.
//!
//! Programs are built from statements over a tracked stack height (so most of them run to the end
//! and produce something observable), with a small share of deliberately undisciplined pieces:
//! wrong heights, bad jumps, unavailable instructions, junk bytes.

use crate::src::{Src, addr};
use revmc::{SpecId, primitives::U256, revm_bytecode::opcode as op};

pub const SPECS: &[SpecId] = &[
    SpecId::CANCUN,
    SpecId::OSAKA,
    SpecId::AMSTERDAM,
    SpecId::PRAGUE,
    SpecId::SHANGHAI,
    SpecId::MERGE,
    SpecId::LONDON,
    SpecId::BERLIN,
    SpecId::ISTANBUL,
    SpecId::PETERSBURG,
    SpecId::BYZANTIUM,
    SpecId::SPURIOUS_DRAGON,
    SpecId::TANGERINE,
    SpecId::HOMESTEAD,
    SpecId::FRONTIER,
];

/// Mostly recent hardforks.
pub fn spec(s: &mut Src) -> SpecId {
    match s.weighted(&[3, 3, 3]) {
        0 => SPECS[s.below(3)],
        1 => SPECS[s.below(6)],
        _ => SPECS[s.below(SPECS.len())],
    }
}

/// First hardfork with the instruction; `None` if it is not an instruction at all.
pub fn since(o: u8) -> Option<SpecId> {
    use SpecId::*;
    Some(match o {
        op::SHL | op::SHR | op::SAR | op::EXTCODEHASH | op::CREATE2 => PETERSBURG,
        op::CLZ => OSAKA,
        op::RETURNDATASIZE | op::RETURNDATACOPY | op::STATICCALL | op::REVERT => BYZANTIUM,
        op::CHAINID | op::SELFBALANCE => ISTANBUL,
        op::BASEFEE => LONDON,
        op::BLOBHASH | op::BLOBBASEFEE | op::TLOAD | op::TSTORE | op::MCOPY => CANCUN,
        op::PUSH0 => SHANGHAI,
        op::DELEGATECALL => HOMESTEAD,
        op::SLOTNUM | op::DUPN | op::SWAPN | op::EXCHANGE => AMSTERDAM,
        _ if op::OpCode::new(o).is_some() => FRONTIER,
        _ => return None,
    })
}

#[derive(Clone)]
pub enum Item {
    Op(u8),
    OpImm(u8, u8),
    /// Value and number of immediate bytes (0 = PUSH0).
    Push(U256, u8),
    Label(usize),
    PushLabel(usize, u8),
    /// Label plus a constant.
    PushLabelOff(usize, u16),
    /// Label plus `2^n`.
    PushLabelHigh(usize, u8),
    /// `PUSH (a - b)`, as a 32-byte two's complement value.
    PushDiff(usize, usize),
    Raw(Vec<u8>),
}

/// Relative weights of what the generator emits.
#[derive(Clone, Copy)]
pub struct Profile {
    pub stmts: (usize, usize),
    pub depth: usize,
    // expressions
    pub e_const: u32,
    pub e_calldata: u32,
    pub e_env: u32,
    pub e_dup: u32,
    pub e_mload: u32,
    pub e_store: u32,
    pub e_gas: u32,
    pub e_arith: u32,
    pub e_keccak: u32,
    pub e_account: u32,
    pub e_call: u32,
    pub e_create: u32,
    pub e_same: u32,
    // statements
    pub s_push: u32,
    pub s_pop: u32,
    pub s_mstore: u32,
    pub s_copy: u32,
    pub s_sstore: u32,
    pub s_log: u32,
    pub s_shuffle: u32,
    pub s_if: u32,
    pub s_loop: u32,
    pub s_switch: u32,
    pub s_computed: u32,
    pub s_func: u32,
    pub s_badjump: u32,
    pub s_dupblock: u32,
    pub s_deep: u32,
    pub s_chaos: u32,
    pub s_exit: u32,
    /// 1 in `n` operations is not available in the hardfork (0: never).
    pub unavailable: usize,
    /// 1 in `n` offsets or lengths is huge.
    pub wild: usize,
}

pub const GENERAL: Profile = Profile {
    stmts: (3, 14),
    depth: 3,
    e_const: 30,
    e_calldata: 14,
    e_env: 8,
    e_dup: 14,
    e_mload: 8,
    e_store: 6,
    e_gas: 3,
    e_arith: 40,
    e_keccak: 3,
    e_account: 4,
    e_call: 3,
    e_create: 1,
    e_same: 3,
    s_push: 24,
    s_pop: 8,
    s_mstore: 16,
    s_copy: 6,
    s_sstore: 8,
    s_log: 3,
    s_shuffle: 14,
    s_if: 12,
    s_loop: 5,
    s_switch: 4,
    s_computed: 4,
    s_func: 6,
    s_badjump: 2,
    s_dupblock: 6,
    s_deep: 2,
    s_chaos: 2,
    s_exit: 2,
    unavailable: 300,
    wild: 60,
};

pub struct Program {
    pub code: Vec<u8>,
    pub labels: usize,
}

struct Func {
    label: usize,
    args: usize,
    rets: usize,
    body: Option<Vec<Item>>,
}

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub p: Profile,
    pub spec: SpecId,
    pub out: Vec<Item>,
    /// Known stack height (items the generator has put there, plus any initial stack).
    pub h: usize,
    labels: usize,
    nest: usize,
    funcs: Vec<Func>,
    /// Blocks placed after the main code: (label, items).
    tail: Vec<Vec<Item>>,
    /// Kept for emitting textually identical blocks elsewhere.
    blocks: Vec<Vec<Item>>,
    budget: usize,
}

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, p: Profile, spec: SpecId, h: usize) -> Self {
        Self { s, p, spec, out: vec![], h, labels: 0, nest: 0, funcs: vec![], tail: vec![], blocks: vec![], budget: 400 }
    }

    pub fn has(&self, o: u8) -> bool {
        since(o).is_some_and(|x| self.spec >= x)
    }

    pub fn add_tail(&mut self, b: Vec<Item>) {
        self.tail.push(b);
    }

    pub fn label(&mut self) -> usize {
        self.labels += 1;
        self.labels - 1
    }

    pub fn op(&mut self, o: u8) {
        self.out.push(Item::Op(o));
    }

    pub fn place(&mut self, l: usize) {
        self.out.push(Item::Label(l));
    }

    pub fn push(&mut self, v: U256) {
        let min = v.byte_len() as u8;
        let w = if min == 0 && self.has(op::PUSH0) && !self.s.chance(1, 4) {
            0
        } else if self.s.chance(1, 10) {
            self.s.range(min.max(1) as usize, 32) as u8
        } else {
            min.max(1)
        };
        self.out.push(Item::Push(v, w));
        self.h += 1;
    }

    pub fn pushn(&mut self, v: usize) {
        self.push(U256::from(v));
    }

    pub fn push_label(&mut self, l: usize) {
        let w = *self.s.pick(&[2u8, 2, 2, 2, 2, 3, 4, 32]);
        self.out.push(Item::PushLabel(l, w));
        self.h += 1;
    }

    /// Emits an operation that consumes `i` and produces `o` items.
    pub fn io(&mut self, opc: u8, i: usize, o: usize) {
        self.op(opc);
        self.h = self.h.saturating_sub(i) + o;
    }

    /// A value that equals `n` when cut down to some machine word or address.
    pub fn alias(&mut self, n: U256) -> U256 {
        let k = *self.s.pick(&[8usize, 16, 32, 64, 64, 64, 128, 160, 192, 255]);
        n.wrapping_add(U256::from(self.s.range(1, 3)) << k)
    }

    /// A storage key.
    pub fn key(&mut self) {
        let n = U256::from(self.s.below(5));
        match self.s.below(12) {
            0 => self.push(U256::MAX),
            1 => self.runtime_word(),
            2 => {
                let n = self.alias(n);
                self.push(n);
            }
            _ => self.push(n),
        }
    }

    /// A memory offset, mostly small.
    pub fn offset(&mut self) {
        if self.p.wild > 0 && self.s.chance(1, self.p.wild) {
            let v = if self.s.bool() {
                self.s.word()
            } else {
                let n = U256::from(32 * self.s.below(4));
                self.alias(n)
            };
            self.push(v);
            return;
        }
        match self.s.weighted(&[10, 5, 3, 2]) {
            0 => {
                let n = 32 * self.s.below(8);
                self.pushn(n)
            }
            1 => {
                let n = self.s.below(200);
                self.pushn(n)
            }
            2 => {
                // Run-time offset.
                let k = self.s.below(4) * 32;
                self.pushn(k);
                self.io(op::CALLDATALOAD, 1, 1);
                let m = *self.s.pick(&[0x1fusize, 0x3f, 0xff, 0x1ff]);
                self.pushn(m);
                self.io(op::AND, 2, 1);
            }
            _ => {
                let n = self.s.below(600);
                self.pushn(n)
            }
        }
    }

    pub fn length(&mut self) {
        if self.p.wild > 0 && self.s.chance(1, self.p.wild) {
            let v = if self.s.bool() {
                self.s.word()
            } else {
                let n = U256::from(32 * self.s.below(4));
                self.alias(n)
            };
            self.push(v);
            return;
        }
        match self.s.weighted(&[5, 5, 4, 3]) {
            0 => self.pushn(32),
            1 => {
                let n = self.s.below(100);
                self.pushn(n)
            }
            2 => self.pushn(0),
            _ => {
                let k = self.s.below(4) * 32;
                self.pushn(k);
                self.io(op::CALLDATALOAD, 1, 1);
                let m = *self.s.pick(&[0x1fusize, 0x3f, 0x60]);
                self.pushn(m);
                self.io(op::AND, 2, 1);
            }
        }
    }

    pub fn address(&mut self) {
        match self.s.below(6) {
            0 => {
                self.io(op::ADDRESS, 0, 1);
            }
            1 => {
                if self.s.bool() {
                    let w = self.s.word();
                    self.push(w);
                } else {
                    // Bits above the address do not count.
                    let a = U256::from_be_slice(addr(self.s.below(10) as u64).as_slice());
                    let w = a | self.s.random_u256() << 160;
                    self.push(w);
                }
            }
            _ => {
                let a = addr(self.s.below(10) as u64);
                self.push(U256::from_be_slice(a.as_slice()));
            }
        }
    }

    pub fn runtime_word(&mut self) {
        let k = match self.s.below(4) {
            0 => self.s.below(64),
            _ => 32 * self.s.below(4),
        };
        if self.p.wild > 0 && self.s.chance(1, self.p.wild) {
            let k = self.alias(U256::from(k));
            self.push(k);
        } else {
            self.pushn(k);
        }
        self.io(op::CALLDATALOAD, 1, 1);
    }

    /// Pushes one value.
    pub fn expr(&mut self, depth: usize) {
        if self.budget == 0 {
            self.pushn(1);
            return;
        }
        self.budget -= 1;
        let p = self.p;
        let arith = if depth == 0 { 0 } else { p.e_arith };
        let call = if depth == 0 { 0 } else { p.e_call };
        let create = if depth == 0 { 0 } else { p.e_create };
        let dup = if self.h == 0 { 0 } else { p.e_dup };
        let w = [
            p.e_const, p.e_calldata, p.e_env, dup, p.e_mload, p.e_store, p.e_gas, arith, p.e_keccak, p.e_account, call,
            create, if depth == 0 { 0 } else { p.e_same },
        ];
        match self.s.weighted(&w) {
            0 => {
                let v = self.s.word();
                self.push(v);
            }
            1 => self.runtime_word(),
            2 => {
                const ENV: &[u8] = &[
                    op::CALLER,
                    op::ADDRESS,
                    op::ORIGIN,
                    op::CALLVALUE,
                    op::CALLDATASIZE,
                    op::CODESIZE,
                    op::GASPRICE,
                    op::COINBASE,
                    op::TIMESTAMP,
                    op::NUMBER,
                    op::DIFFICULTY,
                    op::GASLIMIT,
                    op::MSIZE,
                    op::PC,
                    op::RETURNDATASIZE,
                    op::CHAINID,
                    op::SELFBALANCE,
                    op::BASEFEE,
                    op::BLOBBASEFEE,
                    op::SLOTNUM,
                ];
                let o = self.avail(ENV);
                self.io(o, 0, 1);
            }
            3 => {
                let n = self.s.below(self.h.min(16));
                self.io(op::DUP1 + n as u8, 0, 1);
            }
            4 => {
                self.offset();
                self.io(op::MLOAD, 1, 1);
            }
            5 => {
                self.key();
                let o = if self.has(op::TLOAD) && self.s.chance(1, 3) { op::TLOAD } else { op::SLOAD };
                self.io(o, 1, 1);
            }
            6 => self.io(op::GAS, 0, 1),
            7 => self.arith(depth),
            8 => {
                self.length();
                self.offset();
                self.io(op::KECCAK256, 2, 1);
            }
            9 => match self.s.below(5) {
                0 => {
                    self.address();
                    self.io(op::BALANCE, 1, 1);
                }
                1 => {
                    self.address();
                    self.io(op::EXTCODESIZE, 1, 1);
                }
                2 => {
                    self.address();
                    let o = self.avail(&[op::BALANCE, op::EXTCODEHASH]);
                    self.io(o, 1, 1);
                }
                3 => {
                    if self.s.bool() {
                        self.io(op::NUMBER, 0, 1);
                        let n = *self.s.pick(&[0usize, 1, 2, 255, 256, 257, 300]);
                        self.pushn(n);
                        self.io(op::SWAP1, 0, 0);
                        self.io(op::SUB, 2, 1);
                    } else {
                        let w = self.s.word();
                        self.push(w);
                    }
                    self.io(op::BLOCKHASH, 1, 1);
                }
                _ => {
                    if self.has(op::BLOBHASH) {
                        let w = match self.s.below(3) {
                            0 => U256::from(self.s.below(5)),
                            1 => {
                                let n = U256::from(self.s.below(3));
                                self.alias(n)
                            }
                            _ => self.s.word(),
                        };
                        self.push(w);
                        self.io(op::BLOBHASH, 1, 1);
                    } else {
                        self.address();
                        self.io(op::EXTCODESIZE, 1, 1);
                    }
                }
            },
            10 => self.call(),
            11 => self.create(),
            _ => {
                // The same value as both operands.
                self.expr(depth - 1);
                self.io(op::DUP1, 0, 1);
                let o = self.avail(BIN);
                self.io(o, 2, 1);
            }
        }
    }

    /// One of `ops`, available in the hardfork (with a small share of exceptions).
    pub fn avail(&mut self, ops: &[u8]) -> u8 {
        let wild = self.p.unavailable > 0 && self.s.chance(1, self.p.unavailable);
        let spec = self.spec;
        let ok: Vec<u8> = ops.iter().copied().filter(|&o| wild || since(o).is_some_and(|x| spec >= x)).collect();
        *self.s.pick(&ok)
    }

    pub fn arith(&mut self, depth: usize) {
        match self.s.weighted(&[20, 5, 3]) {
            0 => {
                let o = self.avail(BIN);
                match o {
                    // Bias the first operand of shift-like operations to the interesting range.
                    op::SHL | op::SHR | op::SAR | op::BYTE | op::SIGNEXTEND if self.s.bool() => {
                        self.expr(depth - 1);
                        let n = self.s.below(270);
                        if self.s.chance(1, 8) {
                            let n = self.alias(U256::from(n));
                            self.push(n);
                        } else if self.s.bool() {
                            self.pushn(n);
                        } else {
                            self.runtime_word();
                            self.pushn(0x1ff);
                            self.io(op::AND, 2, 1);
                        }
                    }
                    op::EXP if self.s.chance(2, 3) => {
                        // Exponent below, base on top.
                        if self.s.bool() {
                            let n = self.s.below(300);
                            self.pushn(n);
                        } else {
                            self.runtime_word();
                            if self.s.bool() {
                                let k = *self.s.pick(&[0usize, 16, 128, 240, 248]);
                                self.pushn(k);
                                self.io(if self.has(op::SHR) { op::SHR } else { op::BYTE }, 2, 1);
                            }
                        }
                        if self.s.bool() {
                            let b = *self.s.pick(&[0usize, 1, 2, 2, 3, 4, 8, 10, 16, 256]);
                            self.pushn(b);
                        } else {
                            self.expr(depth - 1);
                        }
                    }
                    _ => {
                        self.expr(depth - 1);
                        self.expr(depth - 1);
                    }
                }
                self.io(o, 2, 1);
            }
            1 => {
                self.expr(depth - 1);
                let o = self.avail(&[op::ISZERO, op::NOT, op::CLZ]);
                self.io(o, 1, 1);
            }
            _ => {
                self.expr(depth - 1);
                self.expr(depth - 1);
                self.expr(depth - 1);
                let o = self.avail(&[op::ADDMOD, op::MULMOD]);
                self.io(o, 3, 1);
            }
        }
    }

    pub fn call(&mut self) {
        let o = self.avail(&[op::CALL, op::CALLCODE, op::DELEGATECALL, op::STATICCALL]);
        self.length(); // return length
        self.offset();
        self.length(); // input length
        self.offset();
        if matches!(o, op::CALL | op::CALLCODE) {
            match self.s.below(4) {
                0 | 1 => self.pushn(0),
                2 => self.pushn(1),
                _ => self.expr(0),
            }
        }
        self.address();
        match self.s.below(5) {
            0 => self.io(op::GAS, 0, 1),
            1 => {
                let n = self.s.below(5000);
                self.pushn(n);
            }
            2 => {
                let w = self.s.word();
                self.push(w);
            }
            3 => {
                self.io(op::GAS, 0, 1);
                self.pushn(2);
                self.io(op::SWAP1, 0, 0);
                self.io(op::DIV, 2, 1);
            }
            _ => self.expr(0),
        }
        let n = if matches!(o, op::CALL | op::CALLCODE) { 7 } else { 6 };
        self.io(o, n, 1);
    }

    pub fn create(&mut self) {
        let o = self.avail(&[op::CREATE, op::CREATE2]);
        if o == op::CREATE2 {
            self.expr(0); // salt
        }
        self.length();
        self.offset();
        match self.s.below(3) {
            0 | 1 => self.pushn(0),
            _ => self.expr(0),
        }
        self.io(o, if o == op::CREATE2 { 4 } else { 3 }, 1);
    }

    /// Makes the height exactly `h` with pops or pushes.
    pub fn settle(&mut self, h: usize) {
        while self.h > h {
            self.io(op::POP, 1, 0);
        }
        while self.h < h {
            let v = U256::from(self.s.below(3));
            self.push(v);
        }
    }

    pub fn cond(&mut self) {
        match self.s.weighted(&[6, 4, 2, 1]) {
            0 => {
                self.runtime_word();
                self.pushn(1);
                self.io(op::AND, 2, 1);
            }
            1 => {
                self.runtime_word();
                let v = self.s.word();
                self.push(v);
                let o = self.avail(&[op::LT, op::GT, op::SLT, op::SGT, op::EQ]);
                self.io(o, 2, 1);
            }
            2 => self.expr(1),
            _ => {
                let n = self.s.below(2);
                self.pushn(n)
            }
        }
        if self.s.chance(1, 6) {
            self.io(op::ISZERO, 1, 1);
        }
    }

    pub fn stmts(&mut self, n: usize) {
        for _ in 0..n {
            if self.budget == 0 {
                return;
            }
            self.stmt();
        }
    }

    pub fn mstore(&mut self) {
        let d = self.p.depth.min(2);
        self.expr(d);
        self.offset();
        let o = if self.s.chance(1, 4) { op::MSTORE8 } else { op::MSTORE };
        self.io(o, 2, 0);
    }

    pub fn copy(&mut self) {
        let o = self.avail(&[op::CALLDATACOPY, op::CODECOPY, op::RETURNDATACOPY, op::MCOPY, op::EXTCODECOPY]);
        match o {
            op::RETURNDATACOPY => {
                // Only in-range copies succeed.
                match self.s.below(4) {
                    0 => {
                        self.length();
                        self.pushn(0);
                    }
                    1 => {
                        self.io(op::RETURNDATASIZE, 0, 1);
                        self.pushn(0);
                    }
                    2 => {
                        self.pushn(0);
                        self.io(op::RETURNDATASIZE, 0, 1);
                    }
                    _ => {
                        let n = self.s.below(3);
                        self.pushn(n);
                        let n = self.s.below(3);
                        self.pushn(n);
                    }
                }
                self.offset();
                self.io(o, 3, 0);
            }
            op::EXTCODECOPY => {
                self.length();
                self.offset();
                self.offset();
                self.address();
                self.io(o, 4, 0);
            }
            _ => {
                self.length();
                if self.s.chance(1, 4) {
                    self.expr(0);
                } else {
                    self.offset();
                }
                self.offset();
                if o == op::MCOPY && self.s.bool() {
                    // dst and src swapped: overlap both ways.
                    self.io(op::SWAP1, 0, 0);
                }
                self.io(o, 3, 0);
            }
        }
    }

    pub fn sstore(&mut self) {
        self.expr(1);
        self.key();
        let o = if self.has(op::TSTORE) && self.s.chance(1, 3) { op::TSTORE } else { op::SSTORE };
        self.io(o, 2, 0);
    }

    pub fn log(&mut self) {
        let n = self.s.below(5);
        for _ in 0..n {
            self.expr(1);
        }
        self.length();
        self.offset();
        self.io(op::LOG0 + n as u8, 2 + n, 0);
    }

    pub fn shuffle(&mut self) {
        let h = self.h;
        if h < 2 {
            self.expr(0);
            return;
        }
        match self.s.weighted(&[8, 8, if self.has(op::EXCHANGE) { 6 } else { 0 }, if h >= 17 && self.has(op::DUPN) { 8 } else { 0 }]) {
            0 => {
                let n = self.s.below(h.min(16));
                self.io(op::DUP1 + n as u8, 0, 1);
            }
            1 => {
                let n = 1 + self.s.below((h - 1).min(16));
                self.io(op::SWAP1 + n as u8 - 1, 0, 0);
            }
            2 => {
                let (mut x, _) = self.exchange_imm(h);
                if self.s.chance(1, 12) {
                    x = self.s.byte();
                }
                self.out.push(Item::OpImm(op::EXCHANGE, x));
            }
            _ => {
                // Depth 17..=235 encodes as depth - 145 mod 256.
                let swap = self.s.bool();
                let max = if swap { h - 1 } else { h };
                if max < 17 {
                    return;
                }
                let n = self.s.range(17, max.min(235));
                let mut x = (n + 256 - 145) % 256;
                if self.s.chance(1, 12) {
                    x = self.s.byte() as usize;
                }
                self.out.push(Item::OpImm(if swap { op::SWAPN } else { op::DUPN }, x as u8));
                if !swap {
                    self.h += 1;
                }
            }
        }
    }

    /// An EXCHANGE immediate whose deeper index fits the height, if possible.
    pub fn exchange_imm(&mut self, h: usize) -> (u8, usize) {
        for _ in 0..8 {
            let x = self.s.byte() as usize;
            if x > 81 && x < 128 {
                continue;
            }
            let k = x ^ 143;
            let (q, r) = (k / 16, k % 16);
            let m = if q < r { r + 1 } else { 29 - q };
            if m < h {
                return (x as u8, m);
            }
        }
        // (1, 2)
        (0x8e, 2)
    }

    pub fn in_block(&mut self, f: impl FnOnce(&mut Self)) -> Vec<Item> {
        let saved = std::mem::take(&mut self.out);
        f(self);
        std::mem::replace(&mut self.out, saved)
    }

    pub fn terminator(&mut self) {
        match self.s.weighted(&[4, 3, 2, 1, 1]) {
            0 => {
                self.length();
                self.offset();
                self.op(op::RETURN);
            }
            1 => self.op(op::STOP),
            2 => {
                self.length();
                self.offset();
                let o = self.avail(&[op::RETURN, op::REVERT]);
                self.op(o);
            }
            3 => {
                self.address();
                self.op(op::SELFDESTRUCT);
            }
            _ => self.op(op::INVALID),
        }
    }

    pub fn stmt(&mut self) {
        if self.budget == 0 {
            return;
        }
        self.budget -= 1;
        let p = self.p;
        let nested = self.nest < 3;
        let n = |x: u32| if nested { x } else { 0 };
        let w = [
            p.s_push,
            if self.h == 0 { 0 } else { p.s_pop },
            p.s_mstore,
            p.s_copy,
            p.s_sstore,
            p.s_log,
            p.s_shuffle,
            n(p.s_if),
            n(p.s_loop),
            n(p.s_switch),
            n(p.s_computed),
            n(p.s_func),
            p.s_badjump,
            n(p.s_dupblock),
            p.s_deep,
            p.s_chaos,
            n(p.s_exit),
        ];
        match self.s.weighted(&w) {
            0 => {
                let d = p.depth;
                self.expr(d);
            }
            1 => self.io(op::POP, 1, 0),
            2 => self.mstore(),
            3 => self.copy(),
            4 => self.sstore(),
            5 => self.log(),
            6 => self.shuffle(),
            7 => self.if_stmt(),
            8 => self.loop_stmt(),
            9 => self.switch(),
            10 => self.computed(),
            11 => self.func_call(),
            12 => self.bad_jump(),
            13 => self.dup_block(),
            14 => self.deep(),
            15 => self.chaos(),
            _ => {
                // Early exit under a condition.
                let l = self.label();
                let h = self.h;
                self.cond();
                self.push_label(l);
                self.io(op::JUMPI, 2, 0);
                self.terminator();
                self.h = h;
                if self.s.chance(1, 4) {
                    let k = self.s.range(1, 8);
                    let b = self.s.bytes(k);
                    self.out.push(Item::Raw(b));
                }
                self.place(l);
            }
        }
    }

    pub fn if_stmt(&mut self) {
        self.nest += 1;
        let h = self.h;
        let els = self.label();
        let end = self.label();
        self.cond();
        self.push_label(els);
        self.io(op::JUMPI, 2, 0);
        let k = self.s.range(1, 3);
        self.stmts(k);
        let balanced = !self.s.chance(1, 12);
        // The join height.
        let join = if self.s.chance(1, 3) { h + self.s.below(3) } else { h };
        if balanced {
            self.settle(join);
        }
        if self.s.bool() {
            self.push_label(end);
            self.io(op::JUMP, 1, 0);
            self.place(els);
            let after_then = self.h;
            self.h = h;
            let k = self.s.range(0, 3);
            self.stmts(k);
            if balanced {
                self.settle(join);
            } else {
                self.h = self.h.min(after_then);
            }
            self.place(end);
        } else {
            let after_then = self.h;
            if balanced && join != h {
                self.settle(h);
            }
            self.h = h;
            self.place(els);
            if !balanced {
                self.h = h.min(after_then);
            }
        }
        self.nest -= 1;
    }

    pub fn loop_stmt(&mut self) {
        self.nest += 1;
        let top = self.label();
        let n = self.s.range(1, 6);
        if self.s.chance(1, 3) {
            self.runtime_word();
            self.pushn(7);
            self.io(op::AND, 2, 1);
            self.pushn(1);
            self.io(op::ADD, 2, 1);
        } else {
            self.pushn(n);
        }
        let h = self.h;
        self.place(top);
        let k = self.s.range(1, 3);
        let save = self.p;
        self.p.e_create = 0;
        self.stmts(k);
        self.p = save;
        self.settle(h);
        // counter -= 1
        self.pushn(1);
        self.io(op::SWAP1, 0, 0);
        self.io(op::SUB, 2, 1);
        if self.s.chance(1, 12) {
            // Grows the stack each time round.
            self.expr(0);
            self.io(op::SWAP1, 0, 0);
        }
        self.io(op::DUP1, 0, 1);
        self.push_label(top);
        self.io(op::JUMPI, 2, 0);
        self.h = h;
        if self.s.bool() {
            self.io(op::POP, 1, 0);
        }
        self.nest -= 1;
    }

    pub fn switch(&mut self) {
        self.nest += 1;
        let h = self.h;
        let end = self.label();
        let n = self.s.range(2, 4);
        let labels: Vec<usize> = (0..n).map(|_| self.label()).collect();
        self.runtime_word();
        self.pushn(7);
        self.io(op::AND, 2, 1);
        for (i, l) in labels.iter().enumerate() {
            self.io(op::DUP1, 0, 1);
            self.pushn(i);
            self.io(op::EQ, 2, 1);
            self.push_label(*l);
            self.io(op::JUMPI, 2, 0);
        }
        let join = h + self.s.below(2);
        let hh = self.h;
        let kind = self.s.below(3);
        // default
        if kind == 0 {
            self.terminator();
        } else {
            self.settle(join);
            self.push_label(end);
            self.io(op::JUMP, 1, 0);
        }
        let mut shared: Option<Vec<Item>> = None;
        for l in labels {
            self.place(l);
            self.h = hh;
            match (&shared, self.s.chance(1, 2)) {
                (Some(b), true) => {
                    // Identical arms.
                    let b = b.clone();
                    self.out.extend(b);
                    self.h = join;
                }
                _ => {
                    let b = self.in_block(|g| {
                        let k = g.s.range(0, 2);
                        g.stmts_noalias(k);
                        g.settle(join);
                        g.push_label(end);
                        g.io(op::JUMP, 1, 0);
                    });
                    self.out.extend(b.iter().cloned());
                    shared = Some(b);
                }
            }
        }
        self.h = join;
        self.place(end);
        self.nest -= 1;
    }

    /// Statements without labels of their own, so the items can be emitted twice.
    pub fn stmts_noalias(&mut self, n: usize) {
        let save = self.nest;
        self.nest = 9;
        self.stmts(n);
        self.nest = save;
    }

    /// Jump whose destination is computed or chosen at run time.
    pub fn computed(&mut self) {
        self.nest += 1;
        let h = self.h;
        let (a, b, end) = (self.label(), self.label(), self.label());
        match self.s.below(4) {
            0 => {
                // b + (cond & 1) * (a - b)
                self.runtime_word();
                self.pushn(1);
                self.io(op::AND, 2, 1);
                self.out.push(Item::PushDiff(a, b));
                self.h += 1;
                self.io(op::MUL, 2, 1);
                self.push_label(b);
                self.io(op::ADD, 2, 1);
                self.io(op::JUMP, 1, 0);
            }
            1 => {
                // Two branches leave different destinations, then one jump.
                let els = self.label();
                let join = self.label();
                self.cond();
                self.push_label(els);
                self.io(op::JUMPI, 2, 0);
                self.push_label(a);
                self.push_label(join);
                self.io(op::JUMP, 1, 0);
                self.place(els);
                self.h = h;
                self.push_label(b);
                self.place(join);
                if self.s.bool() {
                    self.expr(0);
                    self.io(op::SWAP1, 0, 0);
                    self.io(op::JUMP, 1, 0);
                    self.h = h + 1;
                } else {
                    self.io(op::JUMP, 1, 0);
                }
            }
            2 => {
                // Constant arithmetic on a label.
                let k = self.s.below(1000) as u16;
                self.out.push(Item::PushLabelOff(if self.s.bool() { a } else { b }, k));
                self.h += 1;
                self.pushn(k as usize);
                self.io(op::SWAP1, 0, 0);
                self.io(op::SUB, 2, 1);
                self.io(op::JUMP, 1, 0);
            }
            _ => {
                // Through memory.
                self.push_label(a);
                self.pushn(0x3e0);
                self.io(op::MSTORE, 2, 0);
                self.cond();
                let skip = self.label();
                self.push_label(skip);
                self.io(op::JUMPI, 2, 0);
                self.push_label(b);
                self.pushn(0x3e0);
                self.io(op::MSTORE, 2, 0);
                self.place(skip);
                self.pushn(0x3e0);
                self.io(op::MLOAD, 1, 1);
                self.io(op::JUMP, 1, 0);
            }
        }
        let entry = self.h;
        self.place(a);
        let k = self.s.range(0, 2);
        self.stmts(k);
        self.settle(h + 1);
        self.push_label(end);
        self.io(op::JUMP, 1, 0);
        self.h = entry;
        self.place(b);
        let k = self.s.range(0, 2);
        self.stmts(k);
        self.settle(h + 1);
        self.place(end);
        self.nest -= 1;
    }

    /// Internal function call: return address on the stack, several call sites.
    pub fn func_call(&mut self) {
        let i = if self.funcs.is_empty() || self.funcs.len() < 3 && self.s.chance(1, 3) {
            let label = self.label();
            let args = self.s.below(4);
            let rets = self.s.below(3);
            self.funcs.push(Func { label, args, rets, body: None });
            let i = self.funcs.len() - 1;
            let (h, nest) = (self.h, self.nest);
            let out = self.in_block(|g| {
                g.place(label);
                // Stack: [ret, args...]
                g.h = args + 1;
                g.nest += 2;
                let k = g.s.range(1, 3);
                let base = g.h;
                g.stmts(k);
                g.settle(base.max(rets + 1));
                // Bring the return address to the top, leaving `rets` items.
                let hh = g.h;
                // Stack: [ret, x1..x(hh-1)] with hh-1 >= rets.
                let drop = hh - 1 - rets;
                for _ in 0..drop {
                    g.io(op::POP, 1, 0);
                }
                if rets == 1 {
                    g.io(op::SWAP1, 0, 0);
                } else if rets == 2 {
                    g.io(op::SWAP1, 0, 0);
                    g.io(op::SWAP2, 0, 0);
                }
                g.io(op::JUMP, 1, 0);
            });
            self.h = h;
            self.nest = nest;
            self.funcs[i].body = Some(out);
            i
        } else {
            self.s.below(self.funcs.len())
        };
        if self.funcs[i].body.is_none() {
            // Inside its own body: no recursion.
            self.expr(0);
            return;
        }
        let (label, args, rets) = (self.funcs[i].label, self.funcs[i].args, self.funcs[i].rets);
        let calls = self.s.range(1, 2);
        for _ in 0..calls {
            let ret = self.label();
            let h = self.h;
            self.push_label(ret);
            for _ in 0..args {
                self.expr(1);
            }
            self.push_label(label);
            self.io(op::JUMP, 1, 0);
            self.place(ret);
            self.h = h + rets;
        }
    }

    pub fn bad_jump(&mut self) {
        // A jump to somewhere that is not a destination; usually not taken.
        let h = self.h;
        let kind = self.s.below(8);
        let cond_first = self.s.chance(9, 10);
        if cond_first {
            match self.s.below(4) {
                0 => self.pushn(0),
                3 => {
                    self.runtime_word();
                    self.pushn(1);
                    self.io(op::AND, 2, 1);
                }
                1 => {
                    self.runtime_word();
                    self.pushn(7);
                    self.io(op::AND, 2, 1);
                    self.pushn(7);
                    self.io(op::EQ, 2, 1);
                }
                _ => {
                    self.runtime_word();
                    let v = self.s.word();
                    self.push(v);
                    self.io(op::EQ, 2, 1);
                }
            }
        }
        match kind {
            0 => {
                let n = self.s.below(300);
                self.pushn(n);
            }
            1 => {
                let v = self.s.word();
                self.push(v);
            }
            2 => {
                // A valid destination plus 2^64: must not be truncated.
                let l = self.label();
                self.place(l);
                self.push_label(l);
                let sh = *self.s.pick(&[16usize, 32, 64, 128, 255]);
                self.push(U256::ONE << sh);
                self.io(op::ADD, 2, 1);
            }
            3 => {
                // One past a destination.
                let l = self.label();
                self.place(l);
                self.out.push(Item::PushLabelOff(l, 1));
                self.h += 1;
            }
            4 => {
                self.runtime_word();
            }
            5 => {
                // The same as a constant.
                let l = self.label();
                self.place(l);
                let sh = *self.s.pick(&[16u8, 32, 64, 64, 128, 255]);
                self.out.push(Item::PushLabelHigh(l, sh));
                self.h += 1;
            }
            6 => {
                // A valid destination, or the same with a high bit set, decided at run time.
                let l = self.label();
                self.place(l);
                self.push_label(l);
                self.runtime_word();
                self.pushn(1);
                self.io(op::AND, 2, 1);
                let sh = *self.s.pick(&[16usize, 32, 64, 64, 128, 255]);
                self.push(U256::ONE << sh);
                self.io(op::MUL, 2, 1);
                self.io(op::OR, 2, 1);
            }
            _ => {
                // Into push data holding 0x5b.
                let l = self.label();
                self.place(l);
                self.out.push(Item::Push(U256::from(0x5b5bu64), 2));
                self.op(op::POP);
                self.out.push(Item::PushLabelOff(l, 2));
                self.h += 1;
            }
        }
        if cond_first {
            self.io(op::JUMPI, 2, 0);
        } else {
            self.io(op::JUMP, 1, 0);
            let l = self.label();
            self.place(l);
        }
        self.h = h;
    }

    /// The same block text in several places, reached by different paths.
    pub fn dup_block(&mut self) {
        self.nest += 1;
        let h = self.h;
        let b = if !self.blocks.is_empty() && self.s.chance(2, 3) {
            let i = self.s.below(self.blocks.len());
            self.blocks[i].clone()
        } else {
            let b = self.in_block(|g| {
                let k = g.s.range(0, 2);
                g.h = g.h.min(2);
                g.stmts_noalias(k);
                g.terminator();
            });
            self.blocks.push(b.clone());
            b
        };
        self.h = h;
        let skip = self.label();
        if self.s.bool() {
            // Fall-through copy.
            self.cond();
            self.push_label(skip);
            self.io(op::JUMPI, 2, 0);
            self.out.extend(b);
            self.place(skip);
        } else {
            // Jumped-to copy, in the tail.
            self.cond();
            self.push_label(skip);
            self.io(op::JUMPI, 2, 0);
            let mut t = vec![Item::Label(skip)];
            t.extend(b);
            self.tail.push(t);
        }
        self.h = h;
        self.nest -= 1;
    }

    /// Makes the stack deep.
    pub fn deep(&mut self) {
        let n = *self.s.pick(&[8usize, 17, 20, 40, 90]);
        for i in 0..n {
            if i % 3 == 0 && self.h > 0 {
                let k = self.s.below(self.h.min(16));
                self.io(op::DUP1 + k as u8, 0, 1);
            } else if i % 7 == 0 {
                self.runtime_word();
            } else {
                self.pushn(i);
            }
        }
    }

    pub fn chaos(&mut self) {
        match self.s.below(4) {
            0 => {
                let o = self.s.byte();
                self.op(o);
            }
            1 => {
                let o = self.avail(BIN);
                self.io(o, 2, 1);
            }
            2 => self.io(op::POP, 1, 0),
            _ => {
                let l = self.label();
                self.place(l);
            }
        }
    }

    /// Stores the stack to memory and returns all of it.
    pub fn epilogue(&mut self) {
        let mut at = 0x400;
        let n = self.h.min(24);
        for _ in 0..n {
            self.pushn(at);
            self.io(op::MSTORE, 2, 0);
            at += 32;
        }
        match self.s.below(8) {
            0 => self.terminator(),
            1 => {
                self.io(op::MSIZE, 0, 1);
                self.pushn(0);
                let o = self.avail(&[op::RETURN, op::REVERT]);
                self.op(o);
            }
            _ => {
                self.io(op::MSIZE, 0, 1);
                self.pushn(0);
                self.op(op::RETURN);
            }
        }
    }

    /// Finishes the program: tail blocks and functions in a chosen order.
    /// Puts thousands of instructions in front of, or into, the program.
    pub fn far(&mut self) {
        let n = 1usize << self.s.range(9, 13);
        let n = n + self.s.below(n);
        // (No JUMPDESTs: with a computed jump, LLVM takes minutes for a thousand in a row.)
        let unit: &[Item] = match self.s.below(4) {
            1 => &[Item::Op(op::PC), Item::Op(op::POP)],
            2 => &[Item::Op(op::CALLER), Item::Op(op::POP)],
            3 => &[Item::Push(U256::from_limbs([7, 0, 0, 0]), 1), Item::Op(op::POP)],
            _ => &[Item::Op(op::CALLVALUE), Item::Op(op::CALLER), Item::Op(op::ADD), Item::Op(op::POP)],
        };
        let filler: Vec<Item> = unit.iter().cloned().cycle().take(n.next_multiple_of(unit.len())).collect();
        if self.s.bool() {
            self.out.splice(0..0, filler);
        } else {
            // Skipped, but in the way.
            let l = self.label();
            let mut v = vec![Item::PushLabel(l, 2), Item::Op(op::JUMP)];
            v.extend(filler);
            v.push(Item::Op(op::STOP));
            v.push(Item::Label(l));
            self.out.splice(0..0, v);
        }
    }

    pub fn finish(mut self) -> Program {
        let mut parts: Vec<Vec<Item>> = std::mem::take(&mut self.tail);
        for f in std::mem::take(&mut self.funcs) {
            parts.push(f.body.unwrap_or_default());
        }
        while !parts.is_empty() {
            let i = self.s.below(parts.len());
            let part = parts.swap_remove(i);
            if self.s.chance(1, 10) {
                let k = self.s.range(1, 6);
                let b = self.s.bytes(k);
                self.out.push(Item::Raw(b));
                // Keep the data from swallowing the next label.
                self.out.push(Item::Raw(vec![0; 33]));
            }
            self.out.extend(part);
        }
        if self.s.chance(1, 12) {
            // Truncated push at the end.
            let n = self.s.below(32) as u8;
            self.out.push(Item::Op(op::PUSH1 + n));
            let k = self.s.below(n as usize + 1);
            let b = self.s.bytes(k);
            self.out.push(Item::Raw(b));
        }
        let labels = self.labels;
        Program { code: assemble(&self.out, labels), labels }
    }
}

pub const BIN: &[u8] = &[
    op::ADD,
    op::MUL,
    op::SUB,
    op::DIV,
    op::SDIV,
    op::MOD,
    op::SMOD,
    op::EXP,
    op::SIGNEXTEND,
    op::LT,
    op::GT,
    op::SLT,
    op::SGT,
    op::EQ,
    op::AND,
    op::OR,
    op::XOR,
    op::BYTE,
    op::SHL,
    op::SHR,
    op::SAR,
];

pub fn assemble(items: &[Item], labels: usize) -> Vec<u8> {
    let len = |i: &Item| match i {
        Item::Op(_) | Item::Label(_) => 1,
        Item::OpImm(..) => 2,
        Item::Push(_, w) | Item::PushLabel(_, w) => 1 + *w as usize,
        Item::PushLabelOff(..) => 3,
        Item::PushDiff(..) | Item::PushLabelHigh(..) => 33,
        Item::Raw(b) => b.len(),
    };
    let mut at = vec![0usize; labels];
    let mut pc = 0;
    for i in items {
        if let Item::Label(l) = i {
            at[*l] = pc;
        }
        pc += len(i);
    }
    let mut out = Vec::with_capacity(pc);
    let push = |out: &mut Vec<u8>, v: U256, w: usize| {
        out.push(op::PUSH0 + w as u8);
        out.extend_from_slice(&v.to_be_bytes::<32>()[32 - w..]);
    };
    for i in items {
        match i {
            Item::Op(o) => out.push(*o),
            Item::OpImm(o, x) => out.extend([*o, *x]),
            Item::Push(v, w) => push(&mut out, *v, *w as usize),
            Item::Label(_) => out.push(op::JUMPDEST),
            Item::PushLabel(l, w) => push(&mut out, U256::from(at[*l]), *w as usize),
            Item::PushLabelOff(l, k) => push(&mut out, U256::from(at[*l] + *k as usize), 2),
            Item::PushLabelHigh(l, k) => push(&mut out, U256::from(at[*l]) + (U256::ONE << *k as usize), 32),
            Item::PushDiff(a, b) => push(&mut out, U256::from(at[*a]).wrapping_sub(U256::from(at[*b])), 32),
            Item::Raw(b) => out.extend_from_slice(b),
        }
    }
    out
}

/// A general program with the given profile.
pub fn program(s: &mut Src, p: Profile, spec: SpecId, h: usize) -> Vec<u8> {
    let mut g = Gen::new(s, p, spec, h);
    let n = g.s.range(p.stmts.0, p.stmts.1);
    g.stmts(n);
    g.epilogue();
    if g.s.chance(1, 150) {
        g.far();
    }
    g.finish().code
}

pub fn disasm(code: &[u8]) -> String {
    let mut out = String::new();
    let mut pc = 0;
    while pc < code.len() {
        let o = code[pc];
        let name = op::OpCode::new(o).map(|x| x.as_str().to_string()).unwrap_or_else(|| format!("0x{o:02x}"));
        let n = match o {
            0x60..=0x7f => (o - 0x5f) as usize,
            op::DUPN | op::SWAPN | op::EXCHANGE => 1,
            _ => 0,
        };
        let imm = &code[(pc + 1).min(code.len())..(pc + 1 + n).min(code.len())];
        out.push_str(&format!("{pc:4}: {name}"));
        if n > 0 {
            out.push_str(&format!(" 0x{}", hex::encode(imm)));
        }
        out.push('\n');
        pc += 1 + n;
    }
    out
}

/// The distinct constants pushed by `code`.
pub fn constants(code: &[u8]) -> Vec<U256> {
    let mut v = vec![];
    let mut i = 0;
    while i < code.len() {
        let o = code[i];
        i += 1;
        if (op::PUSH1..=op::PUSH32).contains(&o) {
            let n = (o - op::PUSH0) as usize;
            let e = (i + n).min(code.len());
            let w = U256::from_be_slice(&code[i..e]);
            if !v.contains(&w) {
                v.push(w);
            }
            i = e;
        }
    }
    v
}
