//! The state-test runner: it says that a test passes exactly when the test's claims are true.

use super::tx::{self, World};
use crate::{
    progs,
    runner::{Info, fnv},
    src::Src,
};
use alloy_trie::{TrieAccount, root::state_root_unhashed};
use revm_context::{CfgEnv, TxEnv};
use revm_database::{AccountState, CacheDB, EmptyDB};
use revm_database_interface::DatabaseCommit;
use revm_state::{AccountInfo, Bytecode};
use revm_statetest_types::{SpecName, Test, TestSuite, TestUnit};
use revmc::{
    SpecId,
    context_interface::result::ExecutionResult,
    handler::{ExecuteEvm, MainBuilder, MainnetContext},
    primitives::{B256, Bytes, Log, TxKind, U256, keccak256},
};
use serde_json::{Value, json};
use std::{
    collections::{BTreeMap, BTreeSet},
    path::{Path, PathBuf},
    process::{Command, Stdio},
};

pub const NAMES: [(&str, SpecId); 15] = [
    ("Frontier", SpecId::FRONTIER),
    ("Homestead", SpecId::HOMESTEAD),
    ("EIP150", SpecId::TANGERINE),
    ("EIP158", SpecId::SPURIOUS_DRAGON),
    ("Byzantium", SpecId::BYZANTIUM),
    ("ConstantinopleFix", SpecId::PETERSBURG),
    ("Istanbul", SpecId::ISTANBUL),
    ("Berlin", SpecId::BERLIN),
    ("London", SpecId::LONDON),
    ("Paris", SpecId::MERGE),
    ("Shanghai", SpecId::SHANGHAI),
    ("Cancun", SpecId::CANCUN),
    ("Prague", SpecId::PRAGUE),
    ("Osaka", SpecId::OSAKA),
    ("Amsterdam", SpecId::AMSTERDAM),
];

pub fn h<T: std::fmt::LowerHex>(x: T) -> String {
    format!("{x:#x}")
}
pub fn hb(x: &[u8]) -> String {
    format!("0x{}", hex::encode(x))
}

// Recursive length prefix encoding.
fn rlp_bytes(b: &[u8]) -> Vec<u8> {
    if b.len() == 1 && b[0] < 0x80 {
        return b.to_vec();
    }
    let mut o = rlp_len(b.len(), 0x80);
    o.extend_from_slice(b);
    o
}
fn rlp_list(items: &[Vec<u8>]) -> Vec<u8> {
    let body = items.concat();
    let mut o = rlp_len(body.len(), 0xc0);
    o.extend(body);
    o
}
fn rlp_len(n: usize, base: u8) -> Vec<u8> {
    if n < 56 {
        return vec![base + n as u8];
    }
    let be: Vec<u8> = n.to_be_bytes().into_iter().skip_while(|x| *x == 0).collect();
    let mut o = vec![base + 55 + be.len() as u8];
    o.extend(be);
    o
}
fn logs_hash(logs: &[Log]) -> B256 {
    let l: Vec<Vec<u8>> = logs
        .iter()
        .map(|l| {
            let topics: Vec<Vec<u8>> = l.data.topics().iter().map(|t| rlp_bytes(&t[..])).collect();
            rlp_list(&[rlp_bytes(&l.address[..]), rlp_list(&topics), rlp_bytes(&l.data.data)])
        })
        .collect();
    keccak256(rlp_list(&l))
}

/// What a test should claim.
struct Truth {
    spec: SpecId,
    refused: bool,
    halted: bool,
    root: B256,
    logs: B256,
    gas: u64,
    output: Option<Bytes>,
}

/// Runs one entry of a test on the plain EVM over a plain map.
fn truth(unit: &TestUnit, spec: SpecId, test: &Test) -> Truth {
    let mut cfg = CfgEnv::default();
    cfg.chain_id = unit.env.current_chain_id.map(|x| x.to()).unwrap_or(1);
    cfg.set_spec_and_mainnet_gas_params(spec);
    cfg.set_max_blobs_per_tx(if spec >= SpecId::OSAKA || spec < SpecId::PRAGUE { 6 } else { 9 });
    let block = unit.block_env(&mut cfg);
    let Ok(tx): Result<TxEnv, _> = test.tx_env(unit) else {
        // There is no such transaction.
        return Truth { spec, refused: true, halted: false, root: B256::ZERO, logs: B256::ZERO, gas: 0, output: None };
    };
    let mut db: CacheDB<EmptyDB> = CacheDB::default();
    for (a, i) in &unit.pre {
        let bc = Bytecode::new_raw_checked(i.code.clone()).unwrap_or(Bytecode::new_legacy(i.code.clone()));
        db.insert_account_info(*a, AccountInfo::new(i.balance, i.nonce, keccak256(&i.code), bc));
        for (k, v) in &i.storage {
            db.insert_account_storage(*a, *k, *v).unwrap();
        }
    }
    let mut ctx = MainnetContext::new(db, spec);
    ctx.cfg = cfg;
    ctx.block = block;
    let mut evm = ctx.build_mainnet();
    let r = evm.transact(tx);
    let mut db = evm.ctx.journaled_state.database;
    let (refused, res) = match r {
        Ok(r) => {
            db.commit(r.state);
            (false, Some(r.result))
        }
        Err(_) => (true, None),
    };
    let mut accounts: BTreeMap<_, TrieAccount> = BTreeMap::new();
    for (a, x) in &db.cache.accounts {
        if matches!(x.account_state, AccountState::NotExisting) || spec >= SpecId::SPURIOUS_DRAGON && x.info.is_empty() {
            continue;
        }
        let st = x.storage.iter().filter(|(_, v)| !v.is_zero()).map(|(k, v)| (B256::from(*k), *v));
        accounts.insert(
            *a,
            TrieAccount {
                nonce: x.info.nonce,
                balance: x.info.balance,
                storage_root: alloy_trie::root::storage_root_unhashed(st),
                code_hash: x.info.code_hash,
            },
        );
    }
    Truth {
        spec,
        refused,
        halted: matches!(res, Some(ExecutionResult::Halt { .. })),
        root: state_root_unhashed(accounts),
        logs: logs_hash(res.as_ref().map(|r| r.logs()).unwrap_or_default()),
        gas: res.as_ref().map(|r| r.tx_gas_used()).unwrap_or(0),
        output: res.as_ref().and_then(|r| r.output().cloned()),
    }
}

/// The accounts of a world.
pub fn pre_of(w: &World) -> serde_json::Map<String, Value> {
    let mut pre = serde_json::Map::new();
    for (a, x) in &w.db.inner.cache.accounts {
        if x.info.is_empty() {
            continue;
        }
        let code = match &x.info.code {
            Some(c) => c.original_bytes(),
            None => w.db.inner.cache.contracts.get(&x.info.code_hash).map(|c| c.original_bytes()).unwrap_or_default(),
        };
        let st: serde_json::Map<String, Value> = x.storage.iter().map(|(k, v)| (h(*k), json!(h(*v)))).collect();
        pre.insert(
            a.to_string(),
            json!({"balance": h(x.info.balance), "nonce": h(x.info.nonce), "code": hb(&code), "storage": st}),
        );
    }
    pre
}

/// One test unit with everything but its claims.
fn unit(s: &mut Src) -> (Value, Vec<(String, SpecId)>) {
    let spec = progs::spec(s);
    let w = World::generate_for(s, spec);
    let pre = pre_of(&w);
    let t = tx::tx(s, &w, spec, &BTreeMap::new());
    let (n_data, n_gas, n_value) = (s.range(1, 2), s.range(1, 2), s.range(1, 2));
    let data: Vec<String> = (0..n_data).map(|i| if i == 0 || t.kind.is_create() { hb(&t.data) } else { hb(&s.calldata()) }).collect();
    let gas: Vec<String> = (0..n_gas).map(|i| h(if i == 0 { t.gas_limit } else { 21000 + s.below(200_000) as u64 })).collect();
    let value: Vec<String> = (0..n_value).map(|i| h(if i == 0 { t.value } else { U256::from(s.below(9)) })).collect();
    let mut tr = json!({
        "data": data, "gasLimit": gas, "value": value, "nonce": h(t.nonce),
        "secretKey": format!("{:#x}", B256::with_last_byte(1)), "sender": t.caller.to_string(),
        "to": match t.kind { TxKind::Call(a) => a.to_string(), TxKind::Create => String::new() },
    });
    if t.gas_priority_fee.is_some() {
        tr["maxFeePerGas"] = json!(h(t.gas_price));
        tr["maxPriorityFeePerGas"] = json!(h(t.gas_priority_fee.unwrap()));
    } else {
        tr["gasPrice"] = json!(h(t.gas_price));
    }
    if !t.access_list.0.is_empty() {
        let l: Vec<Value> = t
            .access_list
            .0
            .iter()
            .map(|i| json!({"address": i.address.to_string(), "storageKeys": i.storage_keys.iter().map(|k| k.to_string()).collect::<Vec<_>>()}))
            .collect();
        tr["accessLists"] = json!(vec![l; n_data]);
    }
    if !t.blob_hashes.is_empty() {
        tr["blobVersionedHashes"] = json!(t.blob_hashes.iter().map(|x| x.to_string()).collect::<Vec<_>>());
        tr["maxFeePerBlobGas"] = json!(h(t.max_fee_per_blob_gas));
    }
    if s.chance(1, 10) {
        // Not a transaction at all.
        if s.bool() {
            tr["to"] = json!("");
            tr["maxFeePerBlobGas"] = json!("0x10");
        } else {
            tr.as_object_mut().unwrap().remove("sender");
            tr["secretKey"] = json!(B256::ZERO.to_string());
        }
    }
    let b = &w.block;
    let mut env = json!({
        "currentCoinbase": b.beneficiary.to_string(), "currentDifficulty": h(b.difficulty), "currentGasLimit": h(b.gas_limit),
        "currentNumber": h(b.number), "currentTimestamp": h(b.timestamp), "currentBaseFee": h(b.basefee),
    });
    if s.chance(3, 4) {
        env["currentRandom"] = json!(b.prevrandao.unwrap().to_string());
    }
    if let Some(x) = &b.blob_excess_gas_and_price {
        env["currentExcessBlobGas"] = json!(h(x.excess_blob_gas));
    } else {
        env["currentExcessBlobGas"] = json!("0x0");
    }
    if s.bool() {
        env["slotNumber"] = json!(h(b.slot_num));
    }
    if w.cfg.chain_id != 1 || s.bool() {
        env["currentChainID"] = json!(h(w.cfg.chain_id));
    }
    let mut specs: BTreeSet<SpecId> = [spec].into();
    while s.chance(1, 3) {
        specs.insert(progs::spec(s));
    }
    let mut out = vec![];
    let mut post = serde_json::Map::new();
    for (name, id) in NAMES {
        // Names of the same rules.
        if specs.contains(&id) {
            let mut tests = vec![];
            for _ in 0..s.range(1, 3) {
                tests.push(json!({
                    "indexes": {"data": s.below(n_data), "gas": s.below(n_gas), "value": s.below(n_value)},
                    "hash": B256::ZERO.to_string(), "logs": B256::ZERO.to_string(),
                }));
            }
            post.insert(name.into(), json!(tests));
            out.push((name.to_string(), id));
        }
    }
    (json!({"env": env, "pre": pre, "transaction": tr, "post": post}), out)
}

/// Fills in the true claims; returns what they are, in file order.
fn claim(u: &mut Value, specs: &[(String, SpecId)]) -> Vec<(String, usize, Truth)> {
    let parsed: TestUnit = serde_json::from_value(u.clone()).expect("a generated test unit parses");
    let mut out = vec![];
    for (name, id) in specs {
        let key: SpecName = serde_json::from_value(json!(name)).unwrap();
        for (i, t) in parsed.post[&key].iter().enumerate() {
            let tr = truth(&parsed, *id, t);
            let e = &mut u["post"][name][i];
            e["hash"] = json!(tr.root.to_string());
            e["logs"] = json!(tr.logs.to_string());
            if tr.refused {
                e["expectException"] = json!("TransactionException.SOMETHING");
            }
            out.push((name.clone(), i, tr));
        }
    }
    out
}

/// Makes one claim of a true test false. `None` when this way does not apply.
fn falsify(s: &mut Src, u: &mut Value, t: &[(String, usize, Truth)]) -> Option<String> {
    let (name, i, tr) = &t[s.below(t.len())];
    let e = &mut u["post"][name][*i];
    let flip = |s: &mut Src, x: B256| {
        let mut y = x;
        y.0[s.below(32)] ^= 1 << s.below(8);
        json!(y.to_string())
    };
    match s.below(5) {
        // A refused transaction is only expected to be refused.
        0 | 1 if !tr.refused => {
            e["hash"] = flip(s, tr.root);
            Some(format!("the state root of {name} {i}"))
        }
        2 if !tr.refused => {
            e["logs"] = flip(s, tr.logs);
            Some(format!("the logs of {name} {i}"))
        }
        3 => {
            if tr.refused {
                e.as_object_mut().unwrap().remove("expectException");
                // (Claims about state and logs now count, but they are true.)
            } else {
                e["expectException"] = json!("TransactionException.SOMETHING");
            }
            Some(format!("whether {name} {i} is refused"))
        }
        4 => {
            // One output claim per unit: false for at least one entry.
            let o = tr.output.clone().filter(|_| !tr.refused)?;
            let mut o = o.to_vec();
            match s.below(3) {
                0 => o.push(s.byte()),
                1 if !o.is_empty() => {
                    o.pop();
                }
                _ if !o.is_empty() => {
                    let k = s.below(o.len());
                    o[k] ^= 1 << s.below(8);
                }
                _ => o.push(0),
            }
            u["out"] = json!(hb(&o));
            Some(format!("the output of {name} {i}"))
        }
        _ => None,
    }
}

pub const MODES: [&str; 3] = ["interpreter", "jit", "aot"];

/// `vp statetest MODE SINGLE KEEP FILE...`
pub fn child(args: &[String]) -> i32 {
    use revmc_statetest::compiled::CompileMode;
    let mode = match args[0].as_str() {
        "interpreter" => CompileMode::Interpreter,
        "jit" => CompileMode::Jit,
        _ => CompileMode::Aot,
    };
    let files = args[3..].iter().map(PathBuf::from).collect();
    match revmc_statetest::compiled::run(files, args[1] == "true", args[2] == "true", mode) {
        Ok(()) => 0,
        Err(e) => {
            println!("{e}");
            1
        }
    }
}

pub struct Scratch(pub PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn verdict(dir: &Path, mode: &str, single: bool, keep: bool, files: &[PathBuf]) -> Result<bool, String> {
    let out = Command::new(std::env::current_exe().unwrap())
        .arg("statetest")
        .args([mode, &single.to_string(), &keep.to_string()])
        .args(files)
        .env("TMPDIR", dir)
        .env("RUST_LOG", "off")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    match out.status.code() {
        Some(0) => Ok(true),
        Some(1) => Ok(false),
        _ => Err(format!(
            "the runner ended with {:?}: {}",
            out.status,
            String::from_utf8_lossy(&out.stderr).chars().rev().take(600).collect::<String>().chars().rev().collect::<String>()
        )),
    }
}

pub fn c20(s: &mut Src, info: &mut Info) -> Result<(), String> {
    if s.chance(1, 3) {
        return files(s, info);
    }
    snapshots(s, info)
}

fn files(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let n = s.range(1, 3);
    let mut suites: Vec<Vec<(Value, Vec<(String, usize, Truth)>)>> = vec![];
    for _ in 0..n {
        let mut v = vec![];
        for _ in 0..s.range(1, 2) {
            let (mut u, specs) = unit(s);
            let t = claim(&mut u, &specs);
            // A true claim about the output, where all entries agree.
            let outs: BTreeSet<_> = t.iter().filter(|(_, _, x)| !x.refused).filter_map(|(_, _, x)| x.output.clone()).collect();
            if outs.len() == 1 && s.bool() {
                u["out"] = json!(hb(outs.first().unwrap()));
            }
            v.push((u, t));
        }
        suites.push(v);
    }
    let lie = s.chance(3, 5);
    let mut what = None;
    if lie {
        let f = s.below(n);
        let k = s.below(suites[f].len());
        let (u, t) = &mut suites[f][k];
        what = falsify(s, u, t).map(|w| format!("file {f} unit {k}: {w}"));
    }
    let dir = Scratch(std::env::temp_dir().join(format!("vp-st-{}-{:x}", std::process::id(), s.u64())));
    std::fs::create_dir_all(&dir.0).map_err(|e| e.to_string())?;
    let mut paths = vec![];
    for (i, v) in suites.iter().enumerate() {
        let m: serde_json::Map<String, Value> = v.iter().enumerate().map(|(k, (u, _))| (format!("unit{k}"), u.clone())).collect();
        let text = Value::Object(m).to_string();
        let _: TestSuite = serde_json::from_str(&text).map_err(|e| format!("harness: {e}"))?;
        let mut at = dir.0.clone();
        for _ in 0..s.below(4) {
            at.push(*s.pick(&["a", "b", "c.d"]));
        }
        std::fs::create_dir_all(&at).map_err(|e| e.to_string())?;
        let p = at.join(format!("t{i}.json"));
        std::fs::write(&p, &text).map_err(|e| e.to_string())?;
        if s.chance(1, 4) {
            std::fs::write(at.join(*s.pick(&["note.txt", "json", "t.json.bak"])), b"not a test").unwrap();
        }
        info.desc.push_str(&format!("file {i}: {text}\n"));
        paths.push(p);
    }
    if what.is_none() && lie {
        // Not a test file at all, or no file.
        let f = s.below(n);
        let text = std::fs::read_to_string(&paths[f]).unwrap();
        match s.below(3) {
            0 => std::fs::write(&paths[f], &text[..s.below(text.len())]).unwrap(),
            1 => std::fs::write(&paths[f], text.replacen("\"pre\"", "\"per\"", 1)).unwrap(),
            _ => std::fs::remove_file(&paths[f]).unwrap(),
        }
        what = Some(format!("file {f} is broken"));
    }
    let broken = what.as_ref().is_some_and(|w| w.ends_with("is broken"));
    let (mode, single, keep) = (*s.pick(&MODES), s.bool(), s.bool());
    info.desc.push_str(&format!("made false: {what:?}; mode {mode}, single thread {single}, keep going {keep}\n"));
    // Some runs find the files by themselves.
    if s.bool() && !broken {
        let mut found = revmc_statetest::find_all_json_tests(&dir.0);
        found.sort();
        let mut paths = paths.clone();
        paths.sort();
        if found != paths {
            return Err(format!("test files {paths:?}, but found {found:?}"));
        }
    }
    let ok = verdict(&dir.0, mode, single, keep, &paths)?;
    info.evals += 1;
    info.tag(if what.is_some() { "false_claim" } else { "true_claims" });
    info.tag(mode);
    info.nontrivial.push(fnv(info.desc.as_bytes()));
    match (ok, &what) {
        (true, Some(w)) => Err(format!("the runner accepts a false claim ({w})")),
        (false, None) => Err("the runner rejects tests whose claims are all true".into()),
        _ => Ok(()),
    }
}

/// The two executions that the comparison tool compares, against the plain run, and the comparison itself.
fn snapshots(s: &mut Src, info: &mut Info) -> Result<(), String> {
    use revmc_statetest::diagnostic::{ExecStatus, compare, run_interpreter, run_jit};
    let (mut u, specs) = unit(s);
    let t = claim(&mut u, &specs);
    info.desc = format!("{u}\n");
    let parsed: TestUnit = serde_json::from_value(u).map_err(|e| format!("harness: {e}"))?;
    let cache = parsed.state();
    let mut c = revmc::runtime::RuntimeConfig { blocking: true, ..Default::default() };
    c.tuning.jit_worker_count = 1;
    let b = revmc::runtime::JitBackend::new(c).map_err(|e| e.to_string())?;
    let mut shots = vec![];
    for (name, i, tr) in &t {
        let key: SpecName = serde_json::from_value(json!(name)).unwrap();
        let test = &parsed.post[&key][*i];
        let mut cfg = CfgEnv::default();
        cfg.chain_id = parsed.env.current_chain_id.map(|x| x.to()).unwrap_or(1);
        cfg.set_spec_and_mainnet_gas_params(tr.spec);
        cfg.set_max_blobs_per_tx(if tr.spec >= SpecId::OSAKA || tr.spec < SpecId::PRAGUE { 6 } else { 9 });
        let block = parsed.block_env(&mut cfg);
        let Ok(tx) = test.tx_env(&parsed) else { return Ok(()) };
        let a = run_interpreter(&cfg, &block, &tx, &cache);
        let j = run_jit(&b, &cfg, &block, &tx, &cache);
        for (who, x) in [("interpreter", &a), ("compiled", &j)] {
            let refused = matches!(x.status, ExecStatus::Error(_));
            let halted = matches!(x.status, ExecStatus::Halt(_));
            let same = refused == tr.refused
                && halted == tr.halted
                && x.output.as_ref().map(|o| &o[..]) == tr.output.as_ref().map(|o| &o[..])
                && x.gas_used == tr.gas
                && (refused || x.state_root == tr.root)
                && x.logs_root == tr.logs;
            if !same {
                return Err(format!(
                    "{name} {i}: the {who} run reports {} gas {} root {} logs {} output {:?}; it is refused {} halted {} gas {} root {} logs {} output {:?}",
                    x.status, x.gas_used, x.state_root, x.logs_root, x.output, tr.refused, tr.halted, tr.gas, tr.root, tr.logs, tr.output
                ));
            }
        }
        let m = compare(&a, &j);
        if !tr.halted && !m.is_empty() {
            return Err(format!("{name} {i}: equal runs are reported as different: {}", m[0]));
        }
        info.evals += 2;
        info.tag(if tr.refused { "refused" } else if tr.halted { "halted" } else { "finished" });
        shots.push((a, j));
    }
    for (a, _) in &shots {
        for (_, j) in &shots {
            let differ = a.status.to_string() != j.status.to_string()
                || a.output != j.output
                || a.gas_used != j.gas_used
                || a.state_root != j.state_root
                || a.logs_root != j.logs_root;
            if differ == compare(a, j).is_empty() {
                return Err(format!("runs that {} are reported otherwise: {a:?} / {j:?}", if differ { "differ" } else { "agree" }));
            }
        }
    }
    if b.stats().resident_entries > 0 {
        info.nontrivial.push(fnv(info.desc.as_bytes()));
    }
    Ok(())
}
