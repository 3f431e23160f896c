//! Special-purpose program generators.

use crate::{
    progs::{self, BIN, GENERAL, Gen, Item, Profile, assemble},
    src::{Src, addr},
};
use revmc::{SpecId, primitives::U256, revm_bytecode::opcode as op};

pub const GAS: Profile = Profile {
    e_gas: 14,
    e_store: 14,
    e_keccak: 10,
    e_account: 10,
    e_call: 6,
    e_create: 2,
    e_arith: 34,
    s_sstore: 22,
    s_copy: 16,
    s_log: 10,
    s_mstore: 20,
    s_shuffle: 4,
    s_deep: 0,
    s_chaos: 0,
    ..GENERAL
};

pub const JUMPS: Profile = Profile {
    stmts: (4, 16),
    e_call: 1,
    e_create: 0,
    s_if: 20,
    s_loop: 8,
    s_switch: 12,
    s_computed: 14,
    s_func: 14,
    s_badjump: 8,
    s_dupblock: 12,
    s_sstore: 3,
    s_log: 1,
    s_copy: 2,
    ..GENERAL
};

pub const ARITH: Profile = Profile {
    stmts: (4, 14),
    e_const: 30,
    e_calldata: 30,
    e_env: 2,
    e_dup: 20,
    e_mload: 2,
    e_store: 0,
    e_gas: 0,
    e_arith: 90,
    e_keccak: 0,
    e_account: 0,
    e_call: 0,
    e_create: 0,
    e_same: 8,
    s_push: 60,
    s_pop: 2,
    s_mstore: 4,
    s_copy: 0,
    s_sstore: 0,
    s_log: 0,
    s_shuffle: 10,
    s_if: 8,
    s_loop: 2,
    s_switch: 2,
    s_computed: 0,
    s_func: 3,
    s_badjump: 0,
    s_dupblock: 0,
    s_deep: 0,
    s_chaos: 0,
    s_exit: 0,
    unavailable: 0,
    wild: 0,
    ..GENERAL
};

pub const MEMORY: Profile = Profile {
    stmts: (4, 18),
    e_mload: 30,
    e_keccak: 12,
    e_env: 12,
    e_call: 5,
    e_create: 2,
    e_store: 1,
    e_arith: 14,
    s_mstore: 50,
    s_copy: 34,
    s_log: 8,
    s_sstore: 2,
    s_shuffle: 4,
    s_deep: 0,
    wild: 25,
    ..GENERAL
};

pub const STACK: Profile = Profile {
    stmts: (5, 22),
    e_dup: 30,
    e_call: 2,
    s_push: 40,
    s_pop: 18,
    s_shuffle: 60,
    s_deep: 10,
    s_chaos: 6,
    s_func: 8,
    ..GENERAL
};

pub const HOST: Profile = Profile {
    stmts: (3, 16),
    e_env: 24,
    e_store: 26,
    e_account: 24,
    e_call: 4,
    e_create: 2,
    e_arith: 16,
    s_sstore: 40,
    s_log: 20,
    s_exit: 8,
    s_deep: 0,
    ..GENERAL
};

pub const CALLS: Profile = Profile {
    stmts: (3, 12),
    e_call: 60,
    e_create: 24,
    e_mload: 14,
    e_env: 10,
    e_arith: 20,
    s_if: 14,
    s_loop: 10,
    s_copy: 10,
    s_shuffle: 14,
    s_deep: 3,
    s_func: 8,
    s_dupblock: 8,
    ..GENERAL
};

/// Small programs over few instruction kinds, where interactions of passes are dense.
pub const TINY: Profile = Profile { stmts: (1, 5), depth: 2, ..GENERAL };

/// An arbitrary (irreducible, too) control-flow graph whose path is recorded in memory, limited by
/// a fuel counter. Jumps are static, conditional, computed, through shared trampolines, through
/// memory, or bad.
pub fn cfg_program(s: &mut Src, spec: SpecId) -> Vec<u8> {
    let mut g = Gen::new(s, Profile { wild: 0, unavailable: 0, ..GENERAL }, spec, 0);
    let n = g.s.range(2, 10);
    let base = g.s.below(4);
    let l: Vec<usize> = (0..n).map(|_| g.label()).collect();
    let exit = g.label();
    let nt = g.s.range(1, 2);
    // Trampolines: [.., x, dest] or [.., dest] -> jump to dest.
    let tramp: Vec<(usize, usize)> = (0..nt).map(|_| (g.label(), g.s.below(3))).collect();
    let fuel = g.s.range(1, 40);
    g.pushn(fuel);
    g.pushn(0);
    g.io(op::MSTORE, 2, 0);
    // A destination kept in memory.
    let m0 = g.s.below(n);
    g.push_label(l[m0]);
    g.pushn(0x40);
    g.io(op::MSTORE, 2, 0);
    for _ in 0..base {
        let w = g.s.word();
        g.push(w);
    }
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = g.s.below(i + 1);
        order.swap(i, j);
    }
    if g.s.chance(1, 2) {
        let first = g.s.below(n);
        g.push_label(l[first]);
        g.io(op::JUMP, 1, 0);
    }
    for (pos, &i) in order.iter().enumerate() {
        g.h = base;
        g.place(l[i]);
        let anonymous = g.s.chance(1, 4);
        if g.s.chance(9, 10) {
            // Fuel.
            g.pushn(0);
            g.io(op::MLOAD, 1, 1);
            g.io(op::DUP1, 0, 1);
            g.io(op::ISZERO, 1, 1);
            g.push_label(exit);
            g.io(op::JUMPI, 2, 0);
            g.pushn(1);
            g.io(op::SWAP1, 0, 0);
            g.io(op::SUB, 2, 1);
            g.pushn(0);
            g.io(op::MSTORE, 2, 0);
        } else {
            // Still bounded by gas.
        }
        // Trace.
        g.pushn(0x20);
        g.io(op::MLOAD, 1, 1);
        g.pushn(31);
        g.io(op::MUL, 2, 1);
        g.pushn(if anonymous { 99 } else { i + 1 });
        g.io(op::ADD, 2, 1);
        g.pushn(0x20);
        g.io(op::MSTORE, 2, 0);
        if g.s.chance(1, 4) {
            // Change the stored destination.
            let j = g.s.below(n);
            g.push_label(l[j]);
            g.pushn(0x40);
            g.io(op::MSTORE, 2, 0);
        }
        if base >= 2 && g.s.chance(1, 4) {
            g.op(op::SWAP1);
        }
        if base >= 1 && g.s.chance(1, 5) {
            g.io(op::POP, 1, 0);
            let w = g.s.word();
            g.push(w);
        }
        let cond = |g: &mut Gen| match g.s.weighted(&[6, 3, 1, 1, 1]) {
            0 => {
                g.pushn(0x20);
                g.io(op::MLOAD, 1, 1);
                let m = *g.s.pick(&[1usize, 2, 4, 8]);
                g.pushn(m);
                g.io(op::AND, 2, 1);
            }
            1 => {
                let k = g.s.below(4) * 32;
                g.pushn(k);
                g.io(op::CALLDATALOAD, 1, 1);
                g.pushn(1);
                g.io(op::AND, 2, 1);
            }
            2 => g.pushn(0),
            3 => {
                let w = g.s.word();
                g.push(w);
            }
            _ => {
                g.pushn(0);
                g.io(op::MLOAD, 1, 1);
                g.pushn(3);
                g.io(op::GT, 2, 1);
            }
        };
        let (j, k) = (g.s.below(n), g.s.below(n));
        let last = pos + 1 == order.len();
        match g.s.weighted(&[5, 8, 4, 6, 3, 1, 2, 2, 2, 2]) {
            0 => {
                g.push_label(l[j]);
                g.io(op::JUMP, 1, 0);
            }
            1 => {
                cond(&mut g);
                g.push_label(l[j]);
                g.io(op::JUMPI, 2, 0);
                if last || g.s.bool() {
                    g.push_label(l[k]);
                    g.io(op::JUMP, 1, 0);
                }
            }
            2 => {
                cond(&mut g);
                g.io(op::ISZERO, 1, 1);
                g.out.push(Item::PushDiff(l[j], l[k]));
                g.h += 1;
                g.io(op::MUL, 2, 1);
                g.push_label(l[k]);
                g.io(op::ADD, 2, 1);
                g.io(op::JUMP, 1, 0);
            }
            3 => {
                let t = g.s.below(nt);
                let (tl, extra) = tramp[t];
                g.push_label(l[j]);
                for _ in 0..extra {
                    let w = g.s.word();
                    g.push(w);
                }
                if g.s.chance(1, 3) {
                    cond(&mut g);
                    g.push_label(tl);
                    g.io(op::JUMPI, 2, 0);
                    for _ in 0..extra + 1 {
                        g.io(op::POP, 1, 0);
                    }
                    if last || g.s.bool() {
                        g.push_label(l[k]);
                        g.io(op::JUMP, 1, 0);
                    }
                } else {
                    g.push_label(tl);
                    g.io(op::JUMP, 1, 0);
                }
            }
            4 => {
                g.pushn(0x40);
                g.io(op::MLOAD, 1, 1);
                g.io(op::JUMP, 1, 0);
            }
            5 => {
                let c = g.s.below(4) * 32;
                g.pushn(c);
                g.io(op::CALLDATALOAD, 1, 1);
                g.pushn(0xff);
                g.io(op::AND, 2, 1);
                g.io(op::JUMP, 1, 0);
            }
            6 => {
                g.bad_jump();
                g.settle(base);
                if last || g.s.bool() {
                    g.push_label(l[k]);
                    g.io(op::JUMP, 1, 0);
                }
            }
            7 => {
                // Dispatch on the trace.
                g.pushn(0x20);
                g.io(op::MLOAD, 1, 1);
                g.pushn(3);
                g.io(op::AND, 2, 1);
                let m = g.s.range(1, 3);
                for v in 0..m {
                    g.io(op::DUP1, 0, 1);
                    g.pushn(v);
                    g.io(op::EQ, 2, 1);
                    let t = g.s.below(n);
                    // The targets expect the base height: go through a popping stub.
                    let stub = g.label();
                    g.push_label(stub);
                    g.io(op::JUMPI, 2, 0);
                    let lt = l[t];
                    let h = g.h;
                    let b = g.in_block(|g| {
                        g.place(stub);
                        g.io(op::POP, 1, 0);
                        g.push_label(lt);
                        g.io(op::JUMP, 1, 0);
                    });
                    g.h = h;
                    g.add_tail(b);
                }
                g.io(op::POP, 1, 0);
                if last || g.s.bool() {
                    g.push_label(l[k]);
                    g.io(op::JUMP, 1, 0);
                }
            }
            8 => {
                // Label chosen by two branches, jump at the join.
                let (els, join) = (g.label(), g.label());
                cond(&mut g);
                g.push_label(els);
                g.io(op::JUMPI, 2, 0);
                g.push_label(l[j]);
                g.push_label(join);
                g.io(op::JUMP, 1, 0);
                g.h -= 1;
                g.place(els);
                g.push_label(l[k]);
                g.place(join);
                g.io(op::JUMP, 1, 0);
            }
            _ => {
                g.push_label(exit);
                g.io(op::JUMP, 1, 0);
            }
        }
    }
    g.push_label(exit);
    g.io(op::JUMP, 1, 0);
    for (tl, extra) in tramp {
        g.place(tl);
        g.h = base + 1 + extra;
        for _ in 0..extra {
            g.io(op::POP, 1, 0);
        }
        if g.s.bool() {
            g.pushn(0x60);
            g.io(op::MLOAD, 1, 1);
            g.pushn(1);
            g.io(op::ADD, 2, 1);
            g.pushn(0x60);
            g.io(op::MSTORE, 2, 0);
        }
        g.io(op::JUMP, 1, 0);
    }
    g.place(exit);
    g.h = base;
    g.epilogue();
    g.finish().code
}

/// Constants and labels carried on the stack through loops that move them around and joins of
/// paths of different heights, also deeper than any analysis tracks; every value is looked at.
pub fn flow_program(s: &mut Src, spec: SpecId) -> Vec<u8> {
    let mut g = Gen::new(s, Profile { wild: 0, unavailable: 0, ..GENERAL }, spec, 0);
    let pointers = g.s.bool();
    let nf = g.s.range(2, 4);
    let fns: Vec<usize> = (0..nf).map(|_| g.label()).collect();
    let words: Vec<U256> = (0..nf).map(|_| if g.s.bool() { U256::from(g.s.below(4)) } else { g.s.word() }).collect();
    let depth = match g.s.weighted(&[5, 3, 2]) {
        0 => g.s.range(2, 18),
        1 => g.s.range(56, 80),
        _ => g.s.range(18, 56),
    };
    let plain = g.s.chance(3, 4);
    let value = |g: &mut Gen| {
        let i = if plain && !g.s.chance(1, 8) { 0 } else { g.s.below(nf) };
        if pointers { g.push_label(fns[i]) } else { g.push(words[i]) }
    };
    // Adds the top of the stack to the trace.
    let trace = |g: &mut Gen| {
        g.pushn(0x20);
        g.io(op::MLOAD, 1, 1);
        g.pushn(31);
        g.io(op::MUL, 2, 1);
        g.io(op::ADD, 2, 1);
        g.pushn(0x20);
        g.io(op::MSTORE, 2, 0);
    };
    let look = |g: &mut Gen| {
        if g.h == 0 {
            return;
        }
        let j = g.s.below(g.h.min(15));
        if pointers {
            let back = g.label();
            g.push_label(back);
            g.io(op::DUP2 + j as u8, 0, 1);
            g.io(op::JUMP, 1, 0);
            g.h -= 1;
            g.place(back);
            return;
        }
        g.io(op::DUP1 + j as u8, 0, 1);
        match g.s.below(4) {
            0 => {}
            1 => {
                let w = words[g.s.below(nf)];
                g.push(w);
                let o = *g.s.pick(&[op::ADD, op::EQ, op::XOR, op::LT, op::MUL]);
                g.io(o, 2, 1);
            }
            2 => g.io(op::ISZERO, 1, 1),
            _ => {
                let skip = g.label();
                g.push_label(skip);
                g.io(op::JUMPI, 2, 0);
                g.pushn(3);
                trace(g);
                g.place(skip);
                return;
            }
        }
        trace(g);
    };
    let stir = |g: &mut Gen, low: usize| match g.s.weighted(&[4, 3, 2, 2, 2]) {
        0 if g.h >= 2 => {
            let k = g.s.range(1, (g.h - 1).min(16));
            for i in 0..k {
                g.op(op::SWAP1 + i as u8);
            }
        }
        1 if g.h >= 2 => {
            let k = g.s.range(1, (g.h - 1).min(16));
            g.op(op::SWAP1 + k as u8 - 1);
        }
        2 if g.h >= 1 => {
            let k = g.s.below(g.h.min(16));
            g.io(op::DUP1 + k as u8, 0, 1);
        }
        3 if g.h > low => {
            let k = g.s.range(1, (g.h - low).min(8));
            for _ in 0..k {
                g.io(op::POP, 1, 0);
            }
        }
        4 if g.has(op::DUPN) && g.h >= 19 => {
            let n = g.s.range(17, (g.h - 1).min(235));
            let swap = g.s.bool();
            g.out.push(Item::OpImm(if swap { op::SWAPN } else { op::DUPN }, ((n + 256 - 145) % 256) as u8));
            if !swap {
                g.h += 1;
            }
        }
        _ => value(g),
    };
    for _ in 0..depth {
        value(&mut g);
    }
    let parts = g.s.range(1, 4);
    for part in 0..parts {
        if g.s.bool() {
            let at = 0x60 + 32 * part;
            let turns = g.s.range(2, 24);
            g.pushn(turns);
            g.pushn(at);
            g.io(op::MSTORE, 2, 0);
            let (l, h) = (g.label(), g.h);
            g.place(l);
            let k = g.s.range(1, 3);
            for _ in 0..k {
                // Lower than before is made up for below.
                stir(&mut g, h.saturating_sub(8).max(1));
                if g.s.bool() {
                    look(&mut g);
                }
            }
            while g.h < h {
                value(&mut g);
            }
            let grow = g.h - h;
            g.pushn(1);
            g.pushn(at);
            g.io(op::MLOAD, 1, 1);
            g.io(op::SUB, 2, 1);
            g.io(op::DUP1, 0, 1);
            g.pushn(at);
            g.io(op::MSTORE, 2, 0);
            g.push_label(l);
            g.io(op::JUMPI, 2, 0);
            g.h += grow * (turns - 1);
        } else {
            // Paths of different heights.
            let (els, join) = (g.label(), g.label());
            let at = g.s.below(4) * 32;
            g.pushn(at);
            g.io(op::CALLDATALOAD, 1, 1);
            g.pushn(1);
            g.io(op::AND, 2, 1);
            g.push_label(els);
            g.io(op::JUMPI, 2, 0);
            let h = g.h;
            let k = g.s.below(4);
            for _ in 0..k {
                stir(&mut g, 1);
            }
            let a = g.h;
            g.push_label(join);
            g.io(op::JUMP, 1, 0);
            g.h = h;
            g.place(els);
            let k = g.s.below(4);
            for _ in 0..k {
                stir(&mut g, 1);
            }
            g.place(join);
            g.h = g.h.min(a);
        }
        let k = g.s.below(3);
        for _ in 0..k {
            look(&mut g);
        }
    }
    let all = g.h.min(100);
    for i in 0..all {
        g.pushn(0x100 + 32 * i);
        g.io(op::MSTORE, 2, 0);
    }
    g.io(op::MSIZE, 0, 1);
    g.pushn(0);
    g.op(op::RETURN);
    for (i, f) in fns.into_iter().enumerate() {
        g.h = 1;
        g.place(f);
        g.pushn(i + 1);
        trace(&mut g);
        g.io(op::JUMP, 1, 0);
    }
    g.finish().code
}

/// Call sites, selected by the low byte of the first call data word, that go through shared or
/// copied dispatch blocks to one of several blocks, some of which are copies of each other.
pub fn dispatch_program(s: &mut Src, spec: SpecId) -> Vec<u8> {
    let mut g = Gen::new(s, Profile { wild: 0, unavailable: 0, ..GENERAL }, spec, 0);
    // Two equal dispatch blocks with several equal destinations each.
    let twins = g.s.chance(1, 4);
    let (nt, nr) = if twins { (2, g.s.range(3, 6)) } else { (g.s.range(1, 4), g.s.range(1, 6)) };
    let kt = if twins { 1 } else { g.s.range(1, 2.min(nt)) };
    let kr = if twins || g.s.bool() { g.s.range(1, 2.min(nr)) } else { g.s.range(1, nr) };
    // Values handed over below the destination.
    let args = g.s.below(3);
    // (label, kind): blocks of a kind are equal.
    let ts: Vec<(usize, usize)> = (0..nt).map(|_| (g.label(), g.s.below(kt))).collect();
    let rs: Vec<(usize, usize)> = (0..nr).map(|_| (g.label(), g.s.below(kr))).collect();
    let extra = g.s.below(2);
    // What a kind of block does in the end: returns, or goes on to a later block.
    let ends: Vec<Option<(usize, usize)>> = (0..kr)
        .map(|k| {
            let later: Vec<usize> = (0..nr).filter(|i| rs[*i].1 > k).collect();
            if later.is_empty() || g.s.bool() { None } else { Some((*g.s.pick(&later), g.s.below(nt))) }
        })
        .collect();
    let opaque = !twins && g.s.chance(1, 6);
    let sites = if twins { g.s.range(5, 9) } else { g.s.range(1, 9) };
    let go = |g: &mut Gen, r: usize, t: usize| {
        for _ in 0..args {
            let w = if g.s.bool() { U256::from(g.s.below(4)) } else { g.s.word() };
            g.push(w);
        }
        if !twins && g.s.chance(1, 3) {
            // Without a dispatch block.
            g.push_label(rs[r].0);
            g.io(op::JUMP, 1, 0);
            g.h = 0;
            return;
        }
        g.push_label(rs[r].0);
        for _ in 0..extra {
            g.pushn(5);
        }
        g.push_label(ts[t].0);
        g.io(op::JUMP, 1, 0);
        g.h = 0;
    };
    for i in 0..sites {
        let next = g.label();
        g.pushn(0);
        g.io(op::CALLDATALOAD, 1, 1);
        g.pushn(0xff);
        g.io(op::AND, 2, 1);
        g.pushn(i);
        g.io(op::EQ, 2, 1);
        g.io(op::ISZERO, 1, 1);
        g.push_label(next);
        g.io(op::JUMPI, 2, 0);
        let (r, t) = (g.s.below(nr), g.s.below(nt));
        if opaque && g.s.chance(1, 3) {
            g.pushn(32);
            g.io(op::CALLDATALOAD, 1, 1);
            g.io(op::JUMP, 1, 0);
            g.h = 0;
        } else {
            go(&mut g, r, t);
        }
        g.place(next);
    }
    g.op(op::STOP);
    let mut order: Vec<usize> = (0..nt + nr).collect();
    for i in (1..order.len()).rev() {
        let j = g.s.below(i + 1);
        order.swap(i, j);
    }
    for b in order {
        if b < nt {
            let (l, k) = ts[b];
            g.place(l);
            g.h = 1 + extra + args;
            if k == 1 {
                g.pushn(0x20);
                g.io(op::MLOAD, 1, 1);
                g.pushn(1);
                g.io(op::ADD, 2, 1);
                g.pushn(0x20);
                g.io(op::MSTORE, 2, 0);
            }
            for _ in 0..extra {
                g.io(op::POP, 1, 0);
            }
            g.io(op::JUMP, 1, 0);
        } else {
            let (l, k) = rs[b - nt];
            g.place(l);
            g.h = args;
            for i in 0..args {
                g.pushn(0x40 + 32 * i);
                g.io(op::MSTORE, 2, 0);
            }
            g.pushn(k + 1);
            g.pushn(0);
            g.io(op::MLOAD, 1, 1);
            g.pushn(31);
            g.io(op::MUL, 2, 1);
            g.io(op::ADD, 2, 1);
            g.pushn(0);
            g.io(op::MSTORE, 2, 0);
            match ends[k] {
                Some((r, t)) => go(&mut g, r, t),
                None => {
                    g.pushn(0x80);
                    g.pushn(0);
                    g.op(op::RETURN);
                }
            }
        }
    }
    g.finish().code
}

/// A program of one of the structured kinds.
pub fn any_program(s: &mut Src, spec: SpecId) -> Vec<u8> {
    match s.below(9) {
        0 => cfg_program(s, spec),
        1 => flow_program(s, spec),
        2 => dispatch_program(s, spec),
        3 => similar_program(s, spec),
        4 => stack_program(s, spec),
        5 => arith_program(s, spec).0,
        _ => {
            let p = *s.pick(&[GENERAL, TINY, JUMPS, MEMORY, STACK, HOST, CALLS]);
            crate::progs::program(s, p, spec, 0)
        }
    }
}

/// Changes a few bytes.
pub fn damage(s: &mut Src, code: &mut Vec<u8>) {
    for _ in 0..s.range(1, 3) {
        if code.is_empty() {
            return;
        }
        let i = s.below(code.len());
        match s.below(6) {
            0 => code[i] = s.byte(),
            1 => code[i] ^= 1 << s.below(8),
            2 => {
                code.remove(i);
            }
            3 => code.insert(i, *s.pick(&[op::JUMPDEST, op::JUMP, op::JUMPI, op::POP, op::PUSH0, op::DUP1, op::SWAP1, op::PC, op::STOP])),
            4 => code.truncate(i),
            _ => {
                // A stretch again elsewhere.
                let n = s.range(1, 24).min(code.len() - i);
                let part = code[i..i + n].to_vec();
                let at = s.below(code.len());
                code.splice(at..at, part);
            }
        }
    }
}

/// One instruction without operands that adds, changes or keeps the top of the stack.
const PLAIN_OPS: &[u8] = &[
    op::PUSH0,
    op::ADDRESS,
    op::CALLER,
    op::CALLVALUE,
    op::CALLDATASIZE,
    op::CODESIZE,
    op::MSIZE,
    op::GAS,
    op::PC,
    op::DUP1,
    op::DUP2,
    op::SWAP1,
    op::ADD,
    op::XOR,
    op::ISZERO,
    op::NOT,
    op::POP,
];

/// Blocks that look alike (copies, or differing in one byte of an immediate, a push width, an
/// immediate whose bytes are the other's next instructions, a jump target, one instruction), one of
/// which is run, chosen by the low byte of the first call data word.
pub fn similar_program(s: &mut Src, spec: SpecId) -> Vec<u8> {
    let mut g = Gen::new(s, Profile { wild: 0, unavailable: 0, ..GENERAL }, spec, 0);
    let ops: Vec<u8> = PLAIN_OPS.iter().copied().filter(|o| g.has(*o)).collect();
    let dup_ops: Vec<u8> = (0x80..=0x83).chain(0x90..=0x92).collect();
    let exits = [g.label(), g.label()];
    for _ in 0..6 {
        let w = g.s.word();
        g.push(w);
    }
    // The text of a block without its end.
    let base: Vec<Item> = {
        let n = g.s.range(1, 5);
        let mut b = vec![];
        for _ in 0..n {
            if g.s.bool() {
                let w = *g.s.pick(&[1u8, 2, 3, 4, 4, 5, 32]);
                let v = match g.s.below(4) {
                    0 => U256::ZERO,
                    1 => U256::from(g.s.below(3)),
                    2 => U256::from(g.s.byte()) << (8 * g.s.below(w as usize)),
                    _ => g.s.random_u256(),
                };
                let v = if w == 32 { v } else { v & ((U256::ONE << (8 * w as usize)) - U256::ONE) };
                b.push(Item::Push(v, w));
            } else {
                b.push(Item::Op(*g.s.pick(&ops)));
            }
        }
        b
    };
    // An immediate that is, byte by byte, another immediate and what follows it.
    let split: Option<(Vec<Item>, Vec<Item>)> = g.s.chance(1, 2).then(|| {
        let k = g.s.range(1, 3);
        let mut r: Vec<u8> = (0..k).map(|_| g.s.byte() | 1).collect();
        let mut o: Vec<u8> = (0..4 - k).map(|_| *g.s.pick(&ops)).collect();
        match g.s.below(3) {
            0 => {
                // Most significant byte first, no mark.
                let mut all = r.clone();
                all.extend(&o);
                let v = U256::from_be_slice(&all);
                let w = U256::from_be_slice(&r);
                let mut b = vec![Item::Push(w, 4)];
                b.extend(o.iter().map(|x| Item::Op(*x)));
                (vec![Item::Push(v, 4)], b)
            }
            tagged => {
                // Least significant byte first, shortened, with or without a mark in the top bit.
                let mut wide = 4;
                if tagged == 2 {
                    *o.last_mut().unwrap() = *g.s.pick(&dup_ops);
                    *r.last_mut().unwrap() |= 0x80;
                    if k == 1 {
                        r[0] = 0x80;
                        *o.last_mut().unwrap() = 0x80;
                        wide = *g.s.pick(&[3u8, 4]);
                    }
                }
                let mut all = r.clone();
                all.extend(&o);
                all.reverse();
                let mut v = U256::from_be_slice(&all);
                r.reverse();
                let mut w = U256::from_be_slice(&r) << (8 * (4 - k));
                if tagged == 2 {
                    let m = U256::from(0x7fff_ffffu32);
                    v &= m;
                    w &= m;
                }
                let mut b = vec![Item::Push(w, wide)];
                b.extend(o.iter().map(|x| Item::Op(*x)));
                (vec![Item::Push(v, wide)], b)
            }
        }
    });
    let end = g.s.below(5);
    let n = g.s.range(2, 5);
    let style = g.s.below(3);
    for i in 0..n {
        let mut b = base.clone();
        let mut target = exits[0];
        if let Some((x, y)) = &split {
            let at = b.len().min(1);
            let z = if g.s.bool() { x } else { y };
            b.splice(at..at, z.iter().cloned());
        } else if i > 0 {
            let at = g.s.below(b.len());
            match g.s.below(6) {
                0 => {}
                1 => target = exits[1],
                2 => b[at] = Item::Op(*g.s.pick(&ops)),
                3 => {
                    let o = *g.s.pick(&ops);
                    b.insert(at, Item::Op(o));
                }
                _ => {
                    if let Item::Push(v, w) = &mut b[at] {
                        if *w < 32 && g.s.chance(1, 3) {
                            *w += 1;
                        } else {
                            *v ^= U256::from(g.s.byte()) << (8 * g.s.below(*w as usize));
                        }
                    } else {
                        b.remove(at);
                    }
                }
            }
        }
        match end {
            0 => b.push(Item::Op(op::STOP)),
            1 | 2 => {
                // Return the top of the stack and the gas left.
                b.extend([Item::Push(U256::ZERO, 1), Item::Op(op::MSTORE), Item::Op(op::GAS)]);
                b.extend([Item::Push(U256::from(32), 1), Item::Op(op::MSTORE)]);
                b.extend([Item::Push(U256::from(64), 1), Item::Push(U256::ZERO, 1)]);
                let o = if end == 2 && g.has(op::REVERT) { op::REVERT } else { op::RETURN };
                b.push(Item::Op(o));
            }
            _ => b.extend([Item::PushLabel(target, 2), Item::Op(op::JUMP)]),
        }
        let l = g.label();
        g.pushn(0);
        g.io(op::CALLDATALOAD, 1, 1);
        g.pushn(7);
        g.io(op::AND, 2, 1);
        g.pushn(i);
        let fall = style == 0 || style == 2 && g.s.bool();
        g.io(if fall { op::XOR } else { op::EQ }, 2, 1);
        g.push_label(l);
        g.io(op::JUMPI, 2, 0);
        if fall {
            g.out.extend(b);
            g.place(l);
        } else {
            let mut t = vec![Item::Label(l)];
            t.extend(b);
            g.add_tail(t);
        }
    }
    g.pushn(1);
    g.push_label(exits[0]);
    g.io(op::JUMP, 1, 0);
    for (k, e) in exits.into_iter().enumerate() {
        g.place(e);
        g.pushn(k);
        g.io(op::MSTORE, 2, 0);
        g.io(op::GAS, 0, 1);
        g.pushn(0x40);
        g.io(op::MSTORE, 2, 0);
        g.pushn(0x60);
        g.pushn(0);
        g.io(op::RETURN, 2, 0);
    }
    g.finish().code
}

/// Stacks around their limits: heights near 0, 16, 64, 236 and 1024, reached straight or by loops.
pub fn stack_program(s: &mut Src, spec: SpecId) -> Vec<u8> {
    let mut g = Gen::new(s, Profile { wild: 0, ..STACK }, spec, 0);
    let target = match g.s.weighted(&[4, 3, 3, 2]) {
        0 => g.s.range(1016, 1026),
        1 => g.s.range(0, 40),
        2 => g.s.range(60, 70),
        _ => g.s.range(225, 245),
    };
    let seeds = g.s.range(1, 5);
    for _ in 0..seeds {
        g.expr(1);
    }
    if target > g.h {
        match g.s.below(3) {
            0 => {
                // Straight.
                while g.h < target {
                    let k = g.s.below(g.h.min(16));
                    g.io(op::DUP1 + k as u8, 0, 1);
                }
            }
            1 => {
                // Loop growing the stack by `k` per turn; counter in memory.
                let k = *g.s.pick(&[1usize, 2, 3, 7, 16]);
                let turns = (target - g.h) / k;
                if turns > 0 {
                    g.pushn(turns);
                    g.pushn(0x380);
                    g.io(op::MSTORE, 2, 0);
                    let l = g.label();
                    g.place(l);
                    let d = g.s.below(g.h.min(16)) as u8;
                    for _ in 0..k {
                        g.io(op::DUP1 + d, 0, 1);
                    }
                    g.pushn(0x380);
                    g.io(op::MLOAD, 1, 1);
                    g.pushn(1);
                    g.io(op::SWAP1, 0, 0);
                    g.io(op::SUB, 2, 1);
                    g.io(op::DUP1, 0, 1);
                    g.pushn(0x380);
                    g.io(op::MSTORE, 2, 0);
                    g.push_label(l);
                    g.io(op::JUMPI, 2, 0);
                    g.h += k * (turns - 1);
                }
            }
            _ => {
                // A function that pushes, called several times.
                let per = 8.min(target - g.h);
                let (f, skip) = (g.label(), g.label());
                g.push_label(skip);
                g.io(op::JUMP, 1, 0);
                g.place(f);
                for _ in 0..per {
                    g.op(op::DUP2);
                    g.op(op::SWAP1);
                }
                g.op(op::JUMP);
                g.place(skip);
                let calls = ((target - g.h) / per).min(130);
                for _ in 0..calls {
                    let r = g.label();
                    g.push_label(r);
                    g.push_label(f);
                    g.io(op::JUMP, 1, 0);
                    g.place(r);
                    g.h = g.h - 1 + per;
                }
            }
        }
    }
    let n = g.s.range(1, 8);
    for _ in 0..n {
        match g.s.below(8) {
            0 | 1 => g.shuffle(),
            2 => {
                let k = g.s.below(6);
                for _ in 0..k {
                    let w = g.s.below(1000);
                    g.pushn(w);
                }
            }
            3 => {
                let k = g.s.below(g.h.min(40) + 1);
                for _ in 0..k {
                    g.io(op::POP, 1, 0);
                }
            }
            4 => {
                let o = g.avail(BIN);
                g.io(o, 2, 1);
            }
            5 => {
                // A branch with unequal needs.
                let l = g.label();
                g.cond();
                g.push_label(l);
                g.io(op::JUMPI, 2, 0);
                let h = g.h;
                let k = g.s.range(1, 5);
                for _ in 0..k {
                    g.pushn(7);
                }
                g.settle(h);
                g.place(l);
            }
            6 => {
                let k = g.s.below(16) as u8;
                g.io(op::DUP1 + k, 0, 1);
            }
            _ => {
                let k = g.s.below(16) as u8;
                g.op(op::SWAP1 + k);
            }
        }
    }
    if g.has(op::DUPN) && g.h >= 20 && g.h < 1000 && g.s.chance(1, 4) {
        // A last block around its own deepest entry.
        let l = g.label();
        g.place(l);
        let mut low = g.h - g.s.range(18, g.h.min(40));
        for _ in 0..g.s.range(2, 8) {
            let room = g.h - low;
            let x = |n: usize| ((n + 256 - 145) % 256) as u8;
            match g.s.below(6) {
                0 if room >= 18 => g.out.push(Item::OpImm(op::SWAPN, x(room - 1))),
                1 if room >= 17 => {
                    g.out.push(Item::OpImm(op::DUPN, x(room)));
                    g.h += 1;
                }
                2 if room >= 2 => {
                    let k = (room - 1).min(16);
                    g.op(op::SWAP1 + k as u8 - 1);
                }
                3 if room >= 1 => {
                    let k = room.min(16);
                    g.io(op::DUP1 + k as u8 - 1, 0, 1);
                }
                4 if room >= 2 => g.io(op::POP, 1, 0),
                5 if low > 0 && g.s.chance(1, 3) => low -= 1,
                _ => g.shuffle(),
            }
        }
        for i in 0..g.s.range(1, 2) {
            g.pushn(32 * i);
            g.io(op::MSTORE, 2, 0);
        }
        g.pushn(0x40);
        g.pushn(0);
        g.op(op::RETURN);
    } else if g.s.bool() && g.h < 1000 {
        g.epilogue();
    } else {
        g.terminator();
    }
    g.finish().code
}

/// A value related to `w`.
pub fn near(s: &mut Src, w: U256) -> U256 {
    match s.below(9) {
        0 => w,
        1 => w.wrapping_add(U256::ONE),
        2 => w.wrapping_sub(U256::ONE),
        3 => U256::ZERO.wrapping_sub(w),
        4 => !w,
        5 => w << 1,
        6 => w >> 1,
        7 => w ^ (U256::ONE << s.below(256)),
        _ => w.wrapping_mul(U256::from(s.below(7))),
    }
}

/// Interesting operands.
pub fn operand(s: &mut Src) -> U256 {
    match s.weighted(&[4, 3, 3, 2, 1, 2]) {
        5 => {
            // The values that special cases are written for, and those beyond the machine words.
            let b = U256::ONE << *s.pick(&[255usize, 255, 64, 64, 63, 128, 32, 8]);
            match s.below(6) {
                0 | 1 => b,
                2 => b.wrapping_sub(U256::ONE),
                3 => b.wrapping_add(U256::from(s.below(40))),
                4 => U256::ZERO.wrapping_sub(b),
                _ => U256::MAX,
            }
        }
        0 => s.word(),
        1 => {
            let k = s.below(256);
            let p = U256::ONE << k;
            match s.below(5) {
                0 => p,
                1 => p.wrapping_sub(U256::ONE),
                2 => p.wrapping_add(U256::ONE),
                3 => U256::ZERO.wrapping_sub(p),
                _ => !p,
            }
        }
        2 => U256::from(s.below(300)),
        3 => U256::ZERO.wrapping_sub(U256::from(s.below(300))),
        _ => s.random_u256(),
    }
}

/// Arithmetic with constant, run-time and mixed operands of the same values. Returns code and the
/// call data holding the values.
pub fn arith_program(s: &mut Src, spec: SpecId) -> (Vec<u8>, Vec<u8>) {
    let mut g = Gen::new(s, Profile { unavailable: 0, ..ARITH }, spec, 0);
    let mut data: Vec<U256> = vec![];
    let n = g.s.range(3, 14);
    let mut slot = 0usize;
    for _ in 0..n {
        let (ops, ar): (&[u8], usize) = match g.s.weighted(&[20, 4, 5]) {
            0 => (BIN, 2),
            1 => (&[op::ISZERO, op::NOT, op::CLZ], 1),
            _ => (&[op::ADDMOD, op::MULMOD], 3),
        };
        let o = g.avail(ops);
        let mut vals: Vec<U256> = (0..ar).map(|_| operand(g.s)).collect();
        // vals[0] is the top of the stack.
        match o {
            op::SHL | op::SHR | op::SAR if g.s.chance(3, 4) => vals[0] = U256::from(g.s.below(260)),
            op::BYTE | op::SIGNEXTEND if g.s.chance(3, 4) => vals[0] = U256::from(g.s.below(34)),
            op::BYTE | op::SIGNEXTEND | op::SHL | op::SHR | op::SAR if g.s.bool() => {
                let n = U256::from(g.s.below(40));
                vals[0] = g.alias(n);
            }
            op::EXP if g.s.chance(3, 4) => vals[1] = U256::from(g.s.below(600)),
            op::EQ | op::LT | op::GT | op::SLT | op::SGT | op::SUB | op::XOR | op::DIV | op::SDIV | op::MOD | op::SMOD
                if g.s.chance(1, 4) =>
            {
                vals[1] = near(g.s, vals[0]);
            }
            _ => {}
        }
        let at: Vec<usize> = vals
            .iter()
            .map(|v| {
                data.push(*v);
                data.len() - 1
            })
            .collect();
        let variants = g.s.range(2, 3);
        for v in 0..variants {
            // Bit i: operand i constant.
            let mask = match v {
                0 => (1u32 << ar) - 1,
                1 => 0,
                _ => g.s.below(1 << ar) as u32,
            };
            // Push in reverse, so that operand 0 ends on top.
            for i in (0..ar).rev() {
                if mask >> i & 1 == 1 {
                    g.push(vals[i]);
                } else {
                    g.pushn(at[i] * 32);
                    g.io(op::CALLDATALOAD, 1, 1);
                }
            }
            g.io(o, ar, 1);
            // Sometimes a second operation on the result.
            if g.s.chance(1, 4) {
                match g.s.below(4) {
                    0 => g.io(op::ISZERO, 1, 1),
                    1 => g.io(op::NOT, 1, 1),
                    2 => {
                        let w = operand(g.s);
                        g.push(w);
                        let o2 = g.avail(BIN);
                        g.io(o2, 2, 1);
                    }
                    _ => {
                        let w = operand(g.s);
                        g.push(w);
                        g.io(op::SWAP1, 0, 0);
                        let o2 = g.avail(BIN);
                        g.io(o2, 2, 1);
                    }
                }
            }
            if g.s.chance(1, 8) {
                // Use as a condition.
                let (l, e) = (g.label(), g.label());
                g.push_label(l);
                g.io(op::JUMPI, 2, 0);
                g.pushn(5);
                g.push_label(e);
                g.io(op::JUMP, 1, 0);
                g.h -= 1;
                g.place(l);
                g.pushn(6);
                g.place(e);
            }
            g.pushn(slot * 32);
            g.io(op::MSTORE, 2, 0);
            slot += 1;
        }
    }
    g.pushn(slot * 32);
    g.pushn(0);
    g.op(op::RETURN);
    let code = g.finish().code;
    let mut cd = vec![];
    for d in data {
        cd.extend_from_slice(&d.to_be_bytes::<32>());
    }
    (code, cd)
}

/// One instruction of interest with plausible operands, its results returned.
pub fn single_op(s: &mut Src, spec: SpecId, o: u8) -> Vec<u8> {
    let mut g = Gen::new(s, Profile { unavailable: 0, wild: 40, ..GENERAL }, spec, 0);
    for i in 0..3 {
        g.runtime_word();
        g.pushn(i * 32);
        g.io(op::MSTORE, 2, 0);
    }
    let (i, out) = match o {
        op::DUP1..=op::DUP16 => ((o - op::DUP1 + 1) as usize, (o - op::DUP1 + 2) as usize),
        op::SWAP1..=op::SWAP16 => ((o - op::SWAP1 + 2) as usize, (o - op::SWAP1 + 2) as usize),
        _ => match op::OpCode::new(o) {
            Some(x) => (x.inputs() as usize, x.outputs() as usize),
            None => (0, 0),
        },
    };
    for k in 0..i {
        match g.s.below(5) {
            0 => g.runtime_word(),
            1 => g.expr(1),
            2 => {
                let a = addr(g.s.below(9) as u64);
                g.push(U256::from_be_slice(a.as_slice()));
            }
            3 if k + 1 == i && matches!(o, op::JUMP | op::JUMPI) => {
                let l = g.label();
                g.place(l);
                g.push_label(l);
            }
            _ => {
                let n = g.s.below(80);
                g.pushn(n);
            }
        }
    }
    g.op(o);
    if (0x60..=0x7f).contains(&o) {
        let b = g.s.bytes((o - 0x5f) as usize);
        g.out.push(Item::Raw(b));
    } else if matches!(o, op::DUPN | op::SWAPN | op::EXCHANGE) {
        let b = g.s.byte();
        g.out.push(Item::Raw(vec![b]));
    }
    g.h = g.h.saturating_sub(i) + out;
    g.epilogue();
    g.finish().code
}

/// Mostly-random bytes, in several styles.
pub fn raw_bytes(s: &mut Src, spec: SpecId, max: usize) -> Vec<u8> {
    let n = s.below(max) + 1;
    match s.below(5) {
        0 => s.bytes(n),
        1 => {
            // Plausible instructions only.
            let mut out = vec![];
            while out.len() < n {
                let o = s.byte();
                if progs::since(o).is_some_and(|x| spec >= x) {
                    out.push(o);
                }
            }
            out
        }
        2 => {
            // Pushes, jumps and destinations.
            let mut out = vec![];
            while out.len() < n {
                match s.below(8) {
                    0 => out.push(op::JUMPDEST),
                    1 => out.extend([op::PUSH1, s.below(n.min(255)) as u8, op::JUMP]),
                    2 => out.extend([op::PUSH1, s.below(n.min(255)) as u8, op::JUMPI]),
                    3 => out.extend([op::PUSH1, s.byte()]),
                    4 => out.push(op::JUMP),
                    5 => out.push(op::JUMPI),
                    6 => out.push(op::DUP1 + s.below(4) as u8),
                    _ => {
                        let b = *s.pick(&[op::POP, op::SWAP1, op::PC, op::ADD, op::STOP, op::RETURN, op::CALLDATASIZE, 0xe6, 0xe8]);
                        out.push(b)
                    }
                }
            }
            out
        }
        3 => {
            // A valid program with mutations.
            let p = if s.bool() { GENERAL } else { TINY };
            let mut c = progs::program(s, p, spec, 0);
            let k = s.range(1, 6);
            for _ in 0..k {
                if c.is_empty() {
                    break;
                }
                let i = s.below(c.len());
                match s.below(4) {
                    0 => c[i] = s.byte(),
                    1 => {
                        c.remove(i);
                    }
                    2 => c.insert(i, s.byte()),
                    _ => c.truncate(i),
                }
            }
            c
        }
        _ => {
            // Repetition.
            let k = s.range(1, 12);
            let unit = s.bytes(k);
            unit.iter().cycle().take(n).copied().collect()
        }
    }
}

#[allow(dead_code)]
pub fn items(items: &[Item], labels: usize) -> Vec<u8> {
    assemble(items, labels)
}

/// What an operand means to the instruction that takes it.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Offset,
    Source,
    Length,
    Key,
    Addr,
    Value,
    Gas,
    Block,
    Blob,
    Small,
    Word,
}

/// Operands of `o`, top of the stack first.
fn kinds(o: u8) -> &'static [Kind] {
    use Kind::*;
    match o {
        op::CALLDATALOAD => &[Source],
        op::CALLDATACOPY | op::CODECOPY | op::RETURNDATACOPY => &[Offset, Source, Length],
        op::MCOPY => &[Offset, Offset, Length],
        op::EXTCODECOPY => &[Addr, Offset, Source, Length],
        op::MLOAD => &[Offset],
        op::MSTORE | op::MSTORE8 => &[Offset, Word],
        op::KECCAK256 | op::LOG0 | op::RETURN | op::REVERT => &[Offset, Length],
        op::LOG1 => &[Offset, Length, Word],
        op::LOG2 => &[Offset, Length, Word, Word],
        op::LOG3 => &[Offset, Length, Word, Word, Word],
        op::LOG4 => &[Offset, Length, Word, Word, Word, Word],
        op::SLOAD | op::TLOAD => &[Key],
        op::SSTORE | op::TSTORE => &[Key, Value],
        op::BALANCE | op::EXTCODESIZE | op::EXTCODEHASH | op::SELFDESTRUCT => &[Addr],
        op::BLOCKHASH => &[Block],
        op::BLOBHASH => &[Blob],
        op::CREATE => &[Value, Offset, Length],
        op::CREATE2 => &[Value, Offset, Length, Word],
        op::CALL | op::CALLCODE => &[Gas, Addr, Value, Offset, Length, Offset, Length],
        op::DELEGATECALL | op::STATICCALL => &[Gas, Addr, Offset, Length, Offset, Length],
        op::EXP => &[Small, Word],
        _ => &[],
    }
}

/// A value for an operand, given the sizes in play.
fn value(s: &mut Src, k: Kind, sizes: &[usize], number: U256) -> U256 {
    let huge = |s: &mut Src| match s.below(7) {
        0 => U256::MAX - U256::from(s.below(34)),
        1 => U256::from(u64::MAX) - U256::from(s.below(34)),
        2 => U256::from(u64::MAX) + U256::from(1 + s.below(130)),
        3 => (U256::ONE << *s.pick(&[31usize, 32, 33, 63, 128, 192, 255])) + U256::from(s.below(40)),
        4 => U256::from(i64::MAX as u64) - U256::from(s.below(34)),
        5 => U256::from(u32::MAX) - U256::from(s.below(34)),
        _ => s.word(),
    };
    let around = |s: &mut Src, n: usize| U256::from((n + s.below(3)).saturating_sub(1));
    match k {
        Kind::Offset => match s.weighted(&[12, 8, 3, 2]) {
            0 => U256::from(32 * s.below(9)),
            1 => U256::from(s.below(200)),
            2 => U256::from(s.below(5000)),
            _ => huge(s),
        },
        Kind::Source => match s.weighted(&[5, 6, 6, 6]) {
            0 => U256::from(32 * s.below(9)),
            1 => U256::from(s.below(100)),
            2 => {
                let n = *s.pick(sizes);
                around(s, n)
            }
            _ => huge(s),
        },
        Kind::Length => match s.weighted(&[6, 6, 5, 5, 1]) {
            0 => U256::ZERO,
            1 => U256::from(*s.pick(&[1usize, 31, 32, 33, 63, 64, 65, 95, 96, 97])),
            2 => U256::from(s.below(140)),
            3 => {
                let n = *s.pick(sizes);
                around(s, n)
            }
            _ => huge(s),
        },
        Kind::Key => match s.weighted(&[10, 1, 3, 1]) {
            0 => U256::from(s.below(5)),
            1 => U256::MAX,
            2 => U256::from(s.below(5)) + (U256::from(1 + s.below(2)) << *s.pick(&[8usize, 32, 64, 64, 128, 192, 255])),
            _ => s.word(),
        },
        Kind::Addr => {
            let a = U256::from_be_slice(addr(s.below(10) as u64).as_slice());
            match s.weighted(&[10, 4, 2, 1]) {
                0 => a,
                1 => a | s.random_u256() << 160,
                2 => U256::from(s.below(12)),
                _ => s.word(),
            }
        }
        Kind::Value => match s.weighted(&[5, 4, 3, 3]) {
            0 => U256::ZERO,
            1 => U256::from(s.range(1, 3)),
            2 => s.small(),
            _ => s.word(),
        },
        Kind::Gas => match s.weighted(&[3, 3, 2, 3, 2]) {
            0 => U256::from(s.below(5000)),
            1 => U256::from(*s.pick(&[0usize, 1, 2299, 2300, 2301, 100_000, 200_000])),
            2 => U256::from(u64::MAX) - U256::from(s.below(3)),
            3 => huge(s),
            _ => U256::from(s.below(300_000)),
        },
        Kind::Block => match s.weighted(&[8, 2, 2]) {
            0 => number.wrapping_sub(U256::from(*s.pick(&[0usize, 1, 2, 254, 255, 256, 257, 258]))),
            1 => number.wrapping_add(U256::from(s.below(3))),
            _ => match s.bool() {
                true => number.wrapping_sub(U256::ONE).wrapping_add(U256::ONE << *s.pick(&[32usize, 64, 128])),
                false => s.word(),
            },
        },
        Kind::Blob => match s.below(3) {
            0 => U256::from(s.below(5)),
            1 => U256::from(s.below(3)) + (U256::ONE << *s.pick(&[8usize, 32, 64, 64, 128, 255])),
            _ => s.word(),
        },
        Kind::Small => U256::from(*s.pick(&[0usize, 1, 2, 2, 3, 4, 10, 16, 255, 256, 257])),
        Kind::Word => operand(s),
    }
}

/// A few instructions out of `ops`, each operand a constant or a word of the call data. Returns the
/// code and the meaning of the words.
pub fn matrix(s: &mut Src, spec: SpecId, ops: &[u8]) -> (Vec<u8>, Vec<Kind>) {
    let mut g = Gen::new(s, Profile { unavailable: 0, wild: 0, ..GENERAL }, spec, 0);
    let mut slots = vec![];
    let words = g.s.below(4);
    for i in 0..words {
        let w = g.s.random_u256();
        g.push(w);
        g.pushn(i * 32);
        g.io(op::MSTORE, 2, 0);
    }
    if ops.contains(&op::RETURNDATACOPY) && g.s.bool() {
        // Some return data.
        for _ in 0..5 {
            g.pushn(0);
        }
        g.pushn(5);
        g.pushn(1000);
        g.io(op::CALL, 7, 1);
    }
    let n = g.s.range(1, 4);
    let mut ended = false;
    for _ in 0..n {
        let o = g.avail(ops);
        if o == op::SSTORE && g.s.chance(1, 4) {
            // Keep the same slot busy.
            for _ in 0..g.s.range(1, 2) {
                let v = value(g.s, Kind::Value, &[0], U256::ZERO);
                g.push(v);
                g.pushn(1);
                g.io(op::SSTORE, 2, 0);
            }
        }
        let ks = kinds(o);
        let mode = g.s.below(4);
        for &k in ks.iter().rev() {
            let constant = match mode {
                0 => true,
                1 => false,
                _ => g.s.bool(),
            };
            if constant {
                let v = value(g.s, k, &[0, 4, 32, 36, 64, 100], U256::from(500u64));
                g.push(v);
            } else {
                g.pushn(slots.len() * 32);
                slots.push(k);
                g.io(op::CALLDATALOAD, 1, 1);
            }
        }
        let out = op::OpCode::new(o).map_or(0, |x| x.outputs() as usize);
        g.io(o, ks.len(), out);
        if matches!(o, op::RETURN | op::REVERT | op::SELFDESTRUCT) {
            ended = true;
            break;
        }
        if g.s.chance(1, 3) {
            let e = g.avail(&[op::MSIZE, op::RETURNDATASIZE, op::GAS, op::CODESIZE, op::CALLDATASIZE]);
            g.io(e, 0, 1);
        }
    }
    if !ended {
        g.epilogue();
    }
    (g.finish().code, slots)
}

/// Call data for a [`matrix`] program.
pub fn matrix_input(s: &mut Src, slots: &[Kind], code: &[u8], ctx: &mut crate::exec::Ctx) {
    let extra = if s.bool() { 0 } else { s.below(70) };
    let total = slots.len() * 32 + extra;
    let ret = ctx.outcomes.first().map_or(0, |o| o.output.len());
    let sizes = [0, total, code.len(), ret, 32];
    let mut d = vec![];
    for k in slots {
        let v = value(s, *k, &sizes, ctx.host.number);
        d.extend_from_slice(&v.to_be_bytes::<32>());
    }
    let e = s.bytes(extra);
    d.extend(e);
    ctx.calldata = d.into();
}

pub const MEM_OPS: &[u8] = &[
    op::CALLDATALOAD,
    op::CALLDATACOPY,
    op::CALLDATACOPY,
    op::CODECOPY,
    op::CODECOPY,
    op::RETURNDATACOPY,
    op::RETURNDATACOPY,
    op::RETURNDATACOPY,
    op::MCOPY,
    op::MCOPY,
    op::EXTCODECOPY,
    op::EXTCODECOPY,
    op::MLOAD,
    op::MSTORE,
    op::MSTORE8,
    op::KECCAK256,
    op::LOG0,
    op::LOG2,
    op::RETURN,
    op::REVERT,
    op::CREATE,
    op::CALL,
    op::DELEGATECALL,
];

pub const HOST_OPS: &[u8] = &[
    op::SLOAD,
    op::SLOAD,
    op::SSTORE,
    op::SSTORE,
    op::SSTORE,
    op::TLOAD,
    op::TSTORE,
    op::BALANCE,
    op::EXTCODESIZE,
    op::EXTCODEHASH,
    op::EXTCODECOPY,
    op::BLOCKHASH,
    op::BLOBHASH,
    op::LOG0,
    op::LOG1,
    op::LOG2,
    op::LOG3,
    op::LOG4,
    op::SELFDESTRUCT,
    op::CALL,
    op::CREATE,
];

pub const CALL_OPS: &[u8] = &[op::CALL, op::CALL, op::CALLCODE, op::DELEGATECALL, op::STATICCALL, op::CREATE, op::CREATE2];

pub const GAS_OPS: &[u8] = &[
    op::EXP,
    op::EXP,
    op::SLOAD,
    op::SSTORE,
    op::SSTORE,
    op::SSTORE,
    op::TSTORE,
    op::TLOAD,
    op::BALANCE,
    op::EXTCODESIZE,
    op::EXTCODEHASH,
    op::EXTCODECOPY,
    op::CALLDATACOPY,
    op::CODECOPY,
    op::RETURNDATACOPY,
    op::MCOPY,
    op::MLOAD,
    op::MSTORE,
    op::MSTORE8,
    op::KECCAK256,
    op::LOG0,
    op::LOG1,
    op::LOG2,
    op::LOG3,
    op::LOG4,
    op::SELFDESTRUCT,
    op::CALL,
    op::CALLCODE,
    op::DELEGATECALL,
    op::STATICCALL,
    op::CREATE,
    op::CREATE2,
];
