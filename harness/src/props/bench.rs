//! Prepared benchmarks: the interpreter's and the compiled run of a fixture are the plain EVM's run of it.

use super::{
    comp::Scratch,
    st::{h, pre_of},
    tx::{self, World},
};
use crate::{
    progs,
    runner::{Info, fnv},
    src::{Src, addr},
};
use revm_context::{BlockEnv, CfgEnv, TxEnv};
use revm_database::{CacheDB, EmptyDB};
use revm_state::{AccountInfo, Bytecode};
use revmc::{
    EvmCompiler, Linker, OptimizationLevel, SpecId,
    handler::{ExecuteEvm, MainBuilder, MainnetContext},
    primitives::{Address, B256, Bytes, TxKind, U256, hex, keccak256},
};
use revmc_cli::{Bench, PreparedBench, fixture_entry_bytecode, fixture_from_bytecode};
use serde_json::{Value, json};
use std::{borrow::Cow, collections::BTreeMap};

/// A number as fixtures may write it.
fn num(s: &mut Src, v: U256) -> String {
    match s.below(8) {
        0 => format!("{v:x}"),
        1 => format!("0X{v:X}"),
        2 => format!(" {v:#x} "),
        3 => format!("0x00{v:x}"),
        4 if v.is_zero() => "0x".into(),
        _ => h(v),
    }
}

fn short(s: &mut Src, a: Address) -> String {
    if s.chance(1, 3) { format!("0x{}", hex::encode(a).trim_start_matches('0')) } else { a.to_string() }
}

struct Case {
    bench: Bench,
    spec: SpecId,
    accounts: BTreeMap<Address, (U256, u64, Bytes, Vec<(U256, U256)>)>,
    block: BlockEnv,
    tx: TxEnv,
}

fn case(s: &mut Src) -> Case {
    let spec = progs::spec(s);
    let w = World::generate_for(s, spec);
    let mut t = tx::tx(s, &w, spec, &BTreeMap::new());
    // Fixtures have plain transactions, and no use for nonces.
    let mut p = TxEnv::default();
    (p.caller, p.gas_limit, p.gas_price, p.kind, p.value) = (t.caller, t.gas_limit, t.gas_price, t.kind, t.value);
    p.data = std::mem::take(&mut t.data);
    p.nonce = if s.chance(1, 4) { s.below(9) as u64 } else { 0 };
    if s.chance(3, 4) {
        p.gas_limit = p.gas_limit.max(400_000);
    }
    let mut accounts = BTreeMap::new();
    let mut pre = serde_json::Map::new();
    let entry = p.kind.to().copied();
    for (a, x) in pre_of(&w) {
        let ad: Address = a.parse().unwrap();
        let get = |k: &str| x[k].as_str().unwrap().parse::<U256>().unwrap();
        let code: Bytes = x["code"].as_str().unwrap().parse().unwrap();
        let st: Vec<(U256, U256)> = x["storage"].as_object().unwrap().iter().map(|(k, v)| (k.parse().unwrap(), v.as_str().unwrap().parse().unwrap())).collect();
        let mut j = json!({"balance": num(s, get("balance")), "nonce": num(s, get("nonce")), "code": if code.is_empty() { "0x".into() } else { hex::encode_prefixed(&code) }});
        if !st.is_empty() || s.bool() {
            let m: serde_json::Map<String, Value> = st.iter().map(|(k, v)| (num(s, *k), json!(num(s, *v)))).collect();
            j["storage"] = Value::Object(m);
        }
        // The called account is looked up by the text of its address.
        let key = if Some(ad) == entry { a.clone() } else { short(s, ad) };
        pre.insert(key, j);
        accounts.insert(ad, (get("balance"), get("nonce").to(), code, st));
    }
    let mut block = BlockEnv {
        number: U256::from(1),
        timestamp: U256::from(1),
        gas_limit: 0x1000000,
        basefee: 1,
        beneficiary: Address::ZERO,
        ..Default::default()
    };
    let mut env = json!({});
    if s.chance(3, 4) {
        block.number = w.block.number;
        env["currentNumber"] = json!(num(s, block.number));
    }
    if s.chance(3, 4) {
        block.timestamp = w.block.timestamp;
        env["currentTimestamp"] = json!(num(s, block.timestamp));
    }
    if s.chance(3, 4) {
        block.gas_limit = 20_000_000 + s.below(1000) as u64;
        env["currentGasLimit"] = json!(num(s, U256::from(block.gas_limit)));
    }
    if s.chance(3, 4) {
        block.basefee = s.below(40) as u64;
        env["currentBaseFee"] = json!(num(s, U256::from(block.basefee)));
    }
    if s.chance(3, 4) {
        block.beneficiary = *s.pick(&[w.block.beneficiary, addr(0xc0), addr(3)]);
        env["currentCoinbase"] = json!(short(s, block.beneficiary));
    }
    if s.chance(3, 4) {
        block.prevrandao = w.block.prevrandao;
        env["currentRandom"] = json!(block.prevrandao.unwrap_or_default().to_string());
        block.prevrandao = Some(block.prevrandao.unwrap_or_default());
    }
    block.set_blob_excess_gas_and_price(0, revmc::primitives::eip4844::BLOB_BASE_FEE_UPDATE_FRACTION_CANCUN);
    let mut tr = json!({"data": hex::encode_prefixed(&p.data), "gasLimit": num(s, U256::from(p.gas_limit)), "sender": short(s, p.caller)});
    if p.gas_price != 0 {
        tr["gasPrice"] = json!(num(s, U256::from(p.gas_price)));
    }
    if !p.value.is_zero() || s.bool() {
        tr["value"] = json!(num(s, p.value));
    }
    if p.nonce != 0 || s.bool() {
        tr["nonce"] = json!(num(s, U256::from(p.nonce)));
    }
    match p.kind {
        TxKind::Call(a) => tr["to"] = json!(a.to_string()),
        TxKind::Create if s.bool() => tr["to"] = json!(*s.pick(&["", "0x", " "])),
        TxKind::Create => {}
    }
    let mut trs = vec![tr];
    if s.chance(1, 5) {
        trs.push(json!({"data": "0x01", "gasLimit": "0x5208", "to": addr(1).to_string()}));
    }
    let j = json!({"case": {"env": env, "pre": pre, "transaction": trs}});
    let bench = Bench { name: "generated", fixture_json: Some(Cow::Owned(j.to_string())), spec_id: Some(spec), assert_success: s.bool() };
    Case { bench, spec, accounts, block, tx: p }
}

/// Code given on its own.
fn alone(s: &mut Src) -> Case {
    let spec = progs::spec(s);
    let code: Bytes = crate::gens::any_program(s, spec).into();
    let name = *s.pick(&["custom", "a b", "x.y-z"]);
    let bench = fixture_from_bytecode(name, code.to_vec(), spec);
    let (from, to) = (Address::repeat_byte(0x11), Address::repeat_byte(0xcc));
    let mut accounts = BTreeMap::new();
    accounts.insert(from, (U256::MAX >> 1, 0, Bytes::new(), vec![]));
    accounts.insert(to, (U256::ZERO, 1, code, vec![]));
    let mut block =
        BlockEnv { number: U256::from(1), timestamp: U256::from(1), gas_limit: i64::MAX as u64, basefee: 0, beneficiary: Address::ZERO, ..Default::default() };
    block.set_blob_excess_gas_and_price(0, revmc::primitives::eip4844::BLOB_BASE_FEE_UPDATE_FRACTION_CANCUN);
    let tx = TxEnv { caller: from, gas_limit: i64::MAX as u64, kind: TxKind::Call(to), ..Default::default() };
    Case { bench, spec, accounts, block, tx }
}

fn oracle(c: &Case, cap: Option<u64>) -> (tx::Res, Option<revm_state::EvmState>) {
    let mut db: CacheDB<EmptyDB> = CacheDB::default();
    for (a, (balance, nonce, code, st)) in &c.accounts {
        let bc = Bytecode::new_raw(code.clone());
        db.insert_account_info(*a, AccountInfo::new(*balance, *nonce, bc.hash_slow(), bc));
        for (k, v) in st {
            db.insert_account_storage(*a, *k, *v).unwrap();
        }
    }
    let mut ctx = MainnetContext::new(db, c.spec);
    let mut cfg = CfgEnv::default();
    cfg.set_spec_and_mainnet_gas_params(c.spec);
    cfg.disable_nonce_check = true;
    cfg.tx_gas_limit_cap = Some(c.block.gas_limit);
    ctx.cfg = cfg;
    ctx.block = c.block.clone();
    let mut t = c.tx.clone();
    t.chain_id = Some(1);
    if let Some(cap) = cap {
        t.gas_limit = t.gas_limit.min(cap);
    }
    tx::split(ctx.build_mainnet().transact(t))
}

pub fn c22(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let own = s.chance(1, 4);
    let c = if own { alone(s) } else { case(s) };
    info.desc = format!("{:?} {} assert {}\n", c.spec, c.bench.fixture_json.as_deref().unwrap(), c.bench.assert_success);
    if own {
        // Everything may be spent: only programs that end before long.
        // What it does must not depend on how much there is to spend.
        let used = |cap| match oracle(&c, Some(cap)).0 {
            Ok(r) if !r.is_halt() => Some(r.tx_gas_used()),
            _ => None,
        };
        let first = used(3_000_000);
        if first.is_none_or(|g| g > 2_000_000) || used(6_000_000) != first || used(30_000_000) != first {
            return Ok(());
        }
    }
    let want = oracle(&c, None);
    if want.0.is_err() {
        // Refused: there is nothing to measure.
        info.tag("refused");
        return Ok(());
    }
    let entry = c.tx.kind.to().and_then(|a| c.accounts.get(a)).map(|x| x.2.clone());
    if let Some(e) = &entry {
        let got = fixture_entry_bytecode(&c.bench);
        if got[..] != e[..] {
            return Err(format!("the entry point's code is {}, not {}", hex::encode(e), hex::encode(got)));
        }
    }
    let other = *s.pick(&[SpecId::FRONTIER, SpecId::OSAKA, c.spec]);
    let e = |e: revmc::eyre::Report| format!("{e:#}");
    let new = |s: &mut Src, aot: bool| {
        let mut k = EvmCompiler::new_llvm(aot).map_err(e)?;
        if s.bool() {
            k.set_opt_level(OptimizationLevel::None);
        }
        Ok::<_, String>(k)
    };
    let how = s.below(6);
    info.desc.push_str(&format!("way {how}, default hardfork {other:?}\n"));
    let compiled: Vec<(B256, Bytes)> = {
        let mut m = BTreeMap::new();
        for x in c.accounts.values().filter(|x| !x.2.is_empty()) {
            m.insert(keccak256(&x.2), x.2.clone());
        }
        m.into_iter().collect()
    };
    let dir = Scratch::new();
    let (_k, _l);
    let mut keep = vec![];
    let p = match how {
        0 => {
            let (p, k) = PreparedBench::load(&c.bench, other);
            (_k, _l) = (Some(k), None);
            p
        }
        1 => {
            // A compiler that has been used.
            let mut k = new(s, false)?;
            let before = crate::gens::any_program(s, c.spec);
            // (The same code twice is for the ways below.)
            if !before.is_empty() && !compiled.iter().any(|x| x.1[..] == before[..]) {
                keep.push(PreparedBench::load_with(&fixture_from_bytecode("before", before, c.spec), other, &mut k));
            }
            let p = PreparedBench::load_with(&c.bench, other, &mut k);
            (_k, _l) = (Some(k), None);
            p
        }
        2 | 3 => {
            // Some of the code was translated or compiled before.
            let mut k = new(s, false)?;
            let mut functions = revmc::primitives::B256Map::default();
            let mut pending = vec![];
            for (i, (hash, code)) in compiled.iter().enumerate() {
                if how == 3 && !s.bool() {
                    continue;
                }
                if !s.bool() {
                    continue;
                }
                let id = k.translate(&format!("f{i}"), &code[..], c.spec).map_err(e)?;
                if how == 3 && s.bool() {
                    pending.push((*hash, id));
                } else {
                    let f = unsafe { k.jit_function(id) }.map_err(e)?;
                    functions.insert(*hash, f.into_inner());
                    k.clear_ir().map_err(e)?;
                    if !pending.is_empty() {
                        return Ok(());
                    }
                }
            }
            let p = if how == 2 {
                PreparedBench::load_with_functions(&c.bench, other, &mut k, functions)
            } else {
                PreparedBench::load_with_pending_functions(&c.bench, other, &mut k, functions, pending)
            };
            (_k, _l) = (Some(k), None);
            p
        }
        _ => {
            // The called contract from a library, and only that one.
            let Some(code) = entry.filter(|x| !x.is_empty()) else { return Ok(()) };
            let mut k = new(s, true)?;
            k.translate("entry", &code[..], c.spec).map_err(e)?;
            let o = dir.0.join("a.o");
            k.write_object_to_file(&o).map_err(e)?;
            let so = revmc::shared_library_path(&dir.0, "a");
            Linker::new().link(&so, [o.to_str().unwrap()]).map_err(|e| e.to_string())?;
            let (p, l) = PreparedBench::load_from_library(&c.bench, other, &so, "entry");
            (_k, _l) = (None, Some(l));
            info.tag("library");
            p
        }
    };
    for _ in 0..s.range(1, 2) {
        // Each run starts from the fixture's own state.
        for compiled in if s.bool() { [true, false] } else { [false, true] } {
            let r = if compiled { p.run_jit() } else { p.run_interpreter() };
            let got = (Ok(r.result), Some(r.state));
            tx::compare(&want, &got).map_err(|e| format!("{} run: {e}", if compiled { "compiled" } else { "interpreter's" }))?;
            info.evals += 1;
        }
    }
    let success = matches!(&want.0, Ok(r) if r.is_success());
    let quiet = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.sanity_check())).is_ok();
    let due = success || !c.bench.assert_success;
    if quiet != due {
        return Err(format!("the sanity check {} (success {success}, to be asserted {})", if quiet { "passes" } else { "fails" }, c.bench.assert_success));
    }
    info.tag(if success { "successes" } else { "failures" });
    if success && !compiled.is_empty() {
        info.nontrivial.push(fnv(info.desc.as_bytes()));
    }
    drop(keep);
    Ok(())
}
