//! The blockchain-test runner: a chain of blocks passes exactly when what its file says about it is true.

use super::{
    st::{NAMES, Scratch, h, hb, pre_of},
    tx::{self, World},
};
use crate::{
    progs,
    runner::{Info, fnv},
    src::{Src, addr},
};
use revm_context::{BlockEnv, Context, TxEnv, cfg::CfgEnv};
use revm_database::{State, states::bundle_state::BundleRetention};
use revm_state::{AccountInfo, Bytecode, bal::Bal};
use revm_statetest_types::blockchain::{BlockchainTest, BlockchainTestCase};
use revmc::{
    SpecId,
    context_interface::{ContextTr, JournalTr, block::BlobExcessGasAndPrice},
    handler::{EvmTr, ExecuteCommitEvm, ExecuteEvm, MainBuilder, MainContext, SystemCallCommitEvm},
    primitives::{Address, B256, Bytes, TxKind, U256, keccak256},
};
use serde_json::{Value, json};
use std::{
    collections::BTreeMap,
    path::{Path, PathBuf},
    process::{Command, Stdio},
};

/// Contracts called before (history, beacon roots) and after (withdrawal and consolidation requests) a block.
const SYSTEM: [&str; 4] = [
    "0x0000F90827F1C53a10cb7A02335B175320002935",
    "0x000F3df6D732807Ef1319fB7B8bB8522d0Beac02",
    "0x00000961Ef480Eb55e80D19ad83579A64c007002",
    "0x0000BBdDc7CE488642fb579F8B00f3a590007251",
];

fn sys(i: usize) -> Address {
    SYSTEM[i].parse().unwrap()
}

/// The recorder, called by transactions: notes the block it is in.
fn recorder(s: &mut Src, spec: SpecId) -> Vec<u8> {
    let mut c = vec![];
    // Slot: number * 16 + k.
    let mut note = |v: &[u8], k: u8| {
        c.extend_from_slice(v);
        c.extend_from_slice(&[0x43, 0x60, 4, 0x02, 0x60, 2, 0x02, 0x60, 2, 0x02, 0x60, k, 0x01, 0x55]);
    };
    let n = s.range(1, 4) as u8;
    note(&[0x60, n, 0x43, 0x03, 0x40], 0);
    note(&[0x60, 1, 0x43, 0x03, 0x40], 1);
    let mut all: Vec<u8> = vec![0x41, 0x42, 0x43, 0x44, 0x45, 0x3a];
    if spec >= SpecId::ISTANBUL {
        all.extend([0x46]);
    }
    if spec >= SpecId::LONDON {
        all.extend([0x48]);
    }
    if spec >= SpecId::CANCUN {
        all.extend([0x4a]);
    }
    for (k, op) in all.into_iter().enumerate() {
        if s.bool() {
            note(&[op], 2 + k as u8);
        }
    }
    c
}

/// A system contract: notes its argument under the block number, and counts its calls.
fn system_contract(s: &mut Src) -> Vec<u8> {
    let mut c = vec![0x5f, 0x35, 0x43, 0x55, 0x36, 0x61, 1, 0, 0x43, 0x01, 0x55];
    c.extend([0x61, 2, 0, 0x54, 0x60, 1, 0x01, 0x61, 2, 0, 0x55]);
    if s.chance(1, 3) {
        c.extend([0x33, 0x61, 2, 1, 0x55]);
    }
    if s.chance(1, 6) {
        c.extend([0x5f, 0x5f, 0xfd]);
    }
    c
}

fn reward(spec: SpecId) -> U256 {
    let ether = U256::from(10).pow(U256::from(18));
    if spec >= SpecId::MERGE {
        U256::ZERO
    } else if spec >= SpecId::PETERSBURG {
        ether * U256::from(2)
    } else if spec >= SpecId::BYZANTIUM {
        ether * U256::from(3)
    } else {
        ether * U256::from(5)
    }
}

type Db = State<revm_database::EmptyDB>;

struct Header {
    number: u64,
    env: BlockEnv,
    hash: B256,
    beacon: Option<B256>,
    excess: u64,
    gas_used: u64,
}

impl Header {
    fn json(&self) -> Value {
        let z = B256::ZERO.to_string();
        let mut j = json!({
            "bloom": "0x", "coinbase": self.env.beneficiary.to_string(), "difficulty": h(self.env.difficulty), "extraData": "0x",
            "gasLimit": h(self.env.gas_limit), "gasUsed": h(self.gas_used), "hash": self.hash.to_string(),
            "mixHash": self.env.prevrandao.unwrap_or_default().to_string(), "nonce": "0x0000000000000000", "number": h(self.number),
            "parentHash": z, "receiptTrie": z, "stateRoot": z, "timestamp": h(self.env.timestamp), "transactionsTrie": z, "uncleHash": z,
            "baseFeePerGas": h(self.env.basefee), "excessBlobGas": h(self.excess), "slotNumber": h(self.env.slot_num),
        });
        if let Some(b) = self.beacon {
            j["parentBeaconBlockRoot"] = json!(b.to_string());
        }
        j
    }
}

fn tx_json(t: &TxEnv) -> Value {
    let ty = if !t.blob_hashes.is_empty() {
        3
    } else if t.gas_priority_fee.is_some() {
        2
    } else if !t.access_list.0.is_empty() {
        1
    } else {
        0
    };
    let mut j = json!({
        "type": h(ty), "sender": t.caller.to_string(), "data": hb(&t.data), "gasLimit": h(t.gas_limit), "nonce": h(t.nonce),
        "r": "0x0", "s": "0x0", "v": "0x0", "value": h(t.value),
        "to": match t.kind { TxKind::Call(a) => a.to_string(), TxKind::Create => String::new() },
    });
    if ty >= 2 {
        j["maxFeePerGas"] = json!(h(t.gas_price));
        j["maxPriorityFeePerGas"] = json!(h(t.gas_priority_fee.unwrap_or_default()));
    } else {
        j["gasPrice"] = json!(h(t.gas_price));
    }
    if ty > 0 {
        j["chainId"] = json!("0x1");
        let l: Vec<Value> = t
            .access_list
            .0
            .iter()
            .map(|i| json!({"address": i.address.to_string(), "storageKeys": i.storage_keys.iter().map(|k| k.to_string()).collect::<Vec<_>>()}))
            .collect();
        j["accessList"] = json!(l);
    }
    if ty == 3 {
        j["blobVersionedHashes"] = json!(t.blob_hashes.iter().map(|x| x.to_string()).collect::<Vec<_>>());
        j["maxFeePerBlobGas"] = json!(h(t.max_fee_per_blob_gas));
    }
    j
}

/// A chain whose claims are all true, and the numbers of its valid blocks.
fn chain(s: &mut Src, info: &mut Info) -> (Value, Vec<usize>) {
    let spec = progs::spec(s);
    let mut w = World::generate_for(s, spec);
    w.cfg.chain_id = 1;
    let mut pre = pre_of(&w);
    let rec = addr(0x2222);
    let plain = |code: &[u8], balance: u64| json!({"balance": h(balance), "nonce": "0x1", "code": hb(code), "storage": {}});
    pre.insert(rec.to_string(), plain(&recorder(s, spec), 0));
    let systems = spec >= SpecId::SHANGHAI && s.chance(3, 4);
    if systems {
        for i in 0..4 {
            if s.chance(7, 8) {
                pre.insert(sys(i).to_string(), plain(&system_contract(s), 0));
            }
        }
    }
    if s.chance(1, 4) {
        // An account with an explicit zero in its storage.
        pre.insert(addr(0x2223).to_string(), json!({"balance": "0x7", "nonce": "0x0", "code": "0x", "storage": {"0x5": "0x0"}}));
    }
    let names: Vec<&str> = NAMES
        .iter()
        .filter(|x| x.1 == spec)
        .map(|x| x.0)
        .chain(if spec == SpecId::PETERSBURG { vec!["Constantinople"] } else { vec![] })
        .chain(if spec == SpecId::MERGE { vec!["Merge"] } else { vec![] })
        .collect();
    let name = if names.is_empty() { return (Value::Null, vec![]) } else { *s.pick(&names) };

    let mut db: Db = State::builder().with_bal_builder().build();
    for (a, x) in &pre {
        let code: Bytes = x["code"].as_str().unwrap().parse().unwrap();
        let st = x["storage"].as_object().unwrap().iter().map(|(k, v)| (k.parse().unwrap(), v.as_str().unwrap().parse::<U256>().unwrap()));
        let i = AccountInfo {
            balance: x["balance"].as_str().unwrap().parse().unwrap(),
            nonce: x["nonce"].as_str().unwrap().parse::<U256>().unwrap().to(),
            code_hash: keccak256(&code),
            code: Some(Bytecode::new_raw(code)),
            account_id: None,
        };
        db.insert_account_with_storage(a.parse().unwrap(), i, st.filter(|x: &(U256, U256)| !x.1.is_zero()).collect());
    }
    let mut cfg = CfgEnv::default();
    cfg.set_spec_and_mainnet_gas_params(spec);
    let excess = if s.bool() { 0 } else { s.below(30_000_000) as u64 };
    let coinbases: Vec<Address> = vec![w.block.beneficiary, addr(0xc0), addr(s.range(1, 8) as u64), addr(0xc1)];
    let mut header = |s: &mut Src, number: u64| {
        let merged = spec >= SpecId::MERGE;
        let env = BlockEnv {
            number: U256::from(number),
            beneficiary: *s.pick(&coinbases),
            timestamp: U256::from(1000 + number * 12 + s.below(12) as u64),
            gas_limit: 30_000_000,
            basefee: if spec >= SpecId::LONDON { s.below(50) as u64 } else { 0 },
            difficulty: if merged { U256::ZERO } else { U256::from(1 + s.below(1 << 20)) },
            prevrandao: merged.then(|| B256::from(U256::from(s.u64()) << 100)),
            blob_excess_gas_and_price: Some(BlobExcessGasAndPrice::new_with_spec(excess, spec)),
            slot_num: s.below(1000) as u64,
        };
        let beacon = (spec >= SpecId::CANCUN && s.chance(7, 8) || s.chance(1, 8)).then(|| B256::from(U256::from(s.u64()) << 7));
        Header { number, env, hash: keccak256(s.u64().to_be_bytes()), beacon, excess, gas_used: 0 }
    };
    let genesis = header(s, 0);
    db.block_hashes.insert(0, genesis.hash);
    let mut parent = genesis.hash;
    let mut nonces: BTreeMap<Address, u64> = BTreeMap::new();
    let mut blocks = vec![];
    let mut valid = vec![];
    let mut number = 1;
    for _ in 0..s.range(1, 5) {
        let mut hd = header(s, number);
        // A block announced as invalid, for a transaction that is refused; where a block does nothing else.
        let bad = spec >= SpecId::MERGE && !systems && s.chance(1, 5);
        let mut withdrawals: Vec<(Address, u64)> = vec![];
        let mut txs = vec![];
        db.bal_state.bal_builder = Some(Bal::new());
        db.reset_bal_index();
        let ctx = Context::mainnet().with_block(hd.env.clone()).with_cfg(cfg.clone()).with_db(&mut db);
        let mut evm = ctx.build_mainnet();
        if spec >= SpecId::PRAGUE && !bad {
            evm.system_call_commit(sys(0), parent.0.into()).unwrap();
        }
        if let Some(b) = hd.beacon
            && spec >= SpecId::CANCUN
            && !bad
        {
            evm.system_call_commit(sys(1), b.0.into()).unwrap();
        }
        let (mut total, mut regular, mut state) = (0, 0, 0);
        for _ in 0..if bad { 8 } else { s.below(4) } {
            let mut t = tx::tx(s, &w, spec, &nonces);
            if s.chance(1, 3) {
                t.kind = TxKind::Call(rec);
                t.data = Bytes::new();
                t.gas_limit = t.gas_limit.max(600_000);
                t.blob_hashes.clear();
            }
            if bad && s.bool() {
                t.nonce += 1;
            }
            let j = tx_json(&t);
            let parsed: revm_statetest_types::blockchain::Transaction = serde_json::from_value(j.clone()).expect("a transaction");
            let Ok(t) = parsed.to_tx_env() else { continue };
            evm.ctx().db_mut().bump_bal_index();
            match evm.transact(t.clone()) {
                Ok(r) if !bad => {
                    let g = r.result.gas();
                    total += g.tx_gas_used();
                    regular += g.block_regular_gas_used();
                    state += g.block_state_gas_used();
                    evm.commit(r.state);
                    *nonces.entry(t.caller).or_default() += 1;
                    txs.push(j);
                }
                Err(_) if bad => {
                    txs.push(j);
                    break;
                }
                _ => {
                    // Not used: undo the step of the index.
                    let i = evm.ctx().db_mut().bal_state.bal_index;
                    evm.ctx().db_mut().bal_state.bal_index = revm_state::bal::BlockAccessIndex::new(i.get() - 1);
                }
            }
        }
        if bad && txs.is_empty() {
            continue;
        }
        evm.ctx().db_mut().bump_bal_index();
        if !bad {
            let r = reward(spec);
            if !r.is_zero() {
                evm.ctx().journal_mut().balance_incr(hd.env.beneficiary, r).unwrap();
            }
            let early = s.chance(1, 8);
            if spec >= SpecId::SHANGHAI || early {
                for _ in 0..s.below(4) {
                    withdrawals.push((if s.chance(1, 3) { addr(0x3333) } else { addr(s.range(1, 9) as u64) }, s.below(1 << 20) as u64));
                }
            }
            if spec >= SpecId::SHANGHAI {
                for (a, n) in &withdrawals {
                    evm.ctx().journal_mut().balance_incr(*a, U256::from(*n) * U256::from(1_000_000_000u64)).unwrap();
                }
            }
            let st = evm.finalize();
            evm.commit(st);
            if spec >= SpecId::PRAGUE {
                evm.system_call_commit(sys(2), Bytes::new()).unwrap();
                evm.system_call_commit(sys(3), Bytes::new()).unwrap();
            }
        }
        drop(evm);
        hd.gas_used = if spec >= SpecId::AMSTERDAM { std::cmp::max(regular, state) } else { total };
        let mut b = json!({"blockHeader": hd.json(), "rlp": "0x", "transactions": txs, "uncleHeaders": []});
        if !withdrawals.is_empty() || s.bool() {
            let l: Vec<Value> = withdrawals
                .iter()
                .enumerate()
                .map(|(i, (a, n))| json!({"index": h(i), "validatorIndex": h(i + 7), "address": a.to_string(), "amount": h(*n)}))
                .collect();
            b["withdrawals"] = json!(l);
        }
        if bad {
            b["expectException"] = json!("TransactionException.SOMETHING");
            info.tag("invalid_block");
        } else {
            db.block_hashes.insert(number, hd.hash);
            if spec >= SpecId::AMSTERDAM && s.chance(3, 4) {
                let bal = db.bal_state.bal_builder.take().unwrap();
                b["blockAccessList"] = serde_json::to_value(bal.into_alloy_bal()).unwrap();
                info.tag("access_list");
            }
            parent = hd.hash;
            number += 1;
            valid.push(blocks.len());
        }
        db.merge_transitions(BundleRetention::Reverts);
        for _ in 0..txs.len() {
            info.tag("transactions");
        }
        blocks.push(b);
    }
    let mut post = serde_json::Map::new();
    for (a, x) in &db.cache.accounts {
        let Some(x) = &x.account else { continue };
        if s.chance(1, 12) {
            continue;
        }
        let code = x.info.code.clone().map(|c| c.original_bytes()).unwrap_or_else(|| {
            db.cache.contracts.get(&x.info.code_hash).map(|c| c.original_bytes()).unwrap_or_default()
        });
        let st: serde_json::Map<String, Value> =
            x.storage.iter().filter(|x| !x.1.is_zero() || s.chance(1, 2)).map(|(k, v)| (h(*k), json!(h(*v)))).collect();
        post.insert(a.to_string(), json!({"balance": h(x.info.balance), "nonce": h(x.info.nonce), "code": hb(&code), "storage": st}));
    }
    if s.chance(1, 6) {
        // Nobody is there, as stated.
        post.insert(addr(0x4444).to_string(), json!({"balance": "0x0", "nonce": "0x0", "code": "0x", "storage": {}}));
    }
    let c = json!({
        "genesisBlockHeader": genesis.json(), "blocks": blocks, "postState": post, "pre": pre,
        "lastblockhash": parent.to_string(), "network": name, "sealEngine": "NoProof",
    });
    let _: BlockchainTestCase = serde_json::from_value(c.clone()).unwrap_or_else(|e| panic!("a generated chain parses: {e} {c}"));
    info.tag(NAMES.iter().find(|x| x.1 == spec).map_or("other", |x| x.0));
    (c, valid)
}

/// Makes one claim false.
fn falsify(s: &mut Src, c: &mut Value, valid: &[usize]) -> Option<String> {
    let kind = s.below(10);
    if kind < 2 {
        let k = *valid.get(s.below(valid.len().max(1)))?;
        let g = &mut c["blocks"][k]["blockHeader"]["gasUsed"];
        let old: U256 = g.as_str().unwrap().parse().unwrap();
        *g = json!(h(if old.is_zero() || s.bool() { old + U256::from(1) } else { old - U256::from(1) }));
        return Some(format!("the gas used of block {k}"));
    }
    if kind < 4 {
        let with: Vec<usize> = valid.iter().copied().filter(|k| c["blocks"][*k].get("blockAccessList").is_some()).collect();
        let k = *with.get(s.below(with.len().max(1)))?;
        let l = c["blocks"][k]["blockAccessList"].as_array_mut()?;
        if l.is_empty() || s.bool() {
            l.push(json!({"address": addr(0x7777).to_string(), "storageChanges": [], "storageReads": [], "balanceChanges": [], "nonceChanges": [], "codeChanges": []}));
        } else {
            let i = s.below(l.len());
            l.remove(i);
        }
        return Some(format!("the access list of block {k}"));
    }
    let post = c["postState"].as_object_mut().unwrap();
    let keys: Vec<String> = post.keys().cloned().collect();
    if keys.is_empty() {
        return None;
    }
    let key = s.pick(&keys).clone();
    let a = post.get_mut(&key).unwrap();
    let bump = |s: &mut Src, v: &mut Value| {
        let old: U256 = v.as_str().unwrap().parse().unwrap();
        *v = json!(h(old ^ (U256::from(1) << s.below(60))));
    };
    match kind {
        4 => {
            bump(s, &mut a["balance"]);
            Some(format!("the balance of {key}"))
        }
        5 => {
            bump(s, &mut a["nonce"]);
            Some(format!("the nonce of {key}"))
        }
        6 => {
            let mut code: Vec<u8> = a["code"].as_str().unwrap().parse::<Bytes>().unwrap().to_vec();
            if code.is_empty() || s.bool() {
                code.push(s.byte());
            } else {
                let k = s.below(code.len());
                code[k] ^= 1 << s.below(8);
            }
            a["code"] = json!(hb(&code));
            Some(format!("the code of {key}"))
        }
        7 => {
            let st = a["storage"].as_object_mut().unwrap();
            let k: U256 = U256::from(s.u64()) << 64;
            st.insert(h(k), json!("0x1"));
            Some(format!("slot {k} of {key} is not there"))
        }
        _ => {
            let st = a["storage"].as_object_mut().unwrap();
            let slots: Vec<String> = st.iter().filter(|x| x.1 != "0x0").map(|x| x.0.clone()).collect();
            if slots.is_empty() {
                return None;
            }
            let k = s.pick(&slots).clone();
            match s.below(3) {
                0 => {
                    st.remove(&k);
                }
                1 => st[&k] = json!("0x0"),
                _ => bump(s, &mut st[&k]),
            }
            Some(format!("slot {k} of {key}"))
        }
    }
}

/// `vp btest OUT FILE[,FILE...]...`: one letter per group of files.
pub fn child(args: &[String]) -> i32 {
    let mut out = String::new();
    for g in &args[1..] {
        let files: Vec<PathBuf> = g.split(',').map(PathBuf::from).collect();
        out.push(match revmc_statetest::btest::run_btests(files) {
            Ok(()) => 'y',
            Err(_) => 'n',
        });
    }
    std::fs::write(&args[0], out).map_or(3, |_| 0)
}

fn verdicts(dir: &Path, groups: &[Vec<PathBuf>]) -> Result<String, String> {
    let o = dir.join("out");
    let r = Command::new(std::env::current_exe().unwrap())
        .arg("btest")
        .arg(&o)
        .args(groups.iter().map(|g| g.iter().map(|p| p.display().to_string()).collect::<Vec<_>>().join(",")))
        .env("RUST_LOG", "off")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    if r.status.code() != Some(0) {
        let e = String::from_utf8_lossy(&r.stderr);
        return Err(format!("the runner ended with {:?}: {}", r.status, e.chars().skip(e.chars().count().saturating_sub(500)).collect::<String>()));
    }
    std::fs::read_to_string(o).map_err(|e| e.to_string())
}

pub fn c21(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let dir = Scratch(std::env::temp_dir().join(format!("vp-bt-{}-{:x}", std::process::id(), s.u64())));
    std::fs::create_dir_all(&dir.0).map_err(|e| e.to_string())?;
    let mut groups = vec![];
    let mut due = vec![];
    for g in 0..s.range(1, 8) {
        let mut paths = vec![];
        let lie = s.chance(3, 5);
        let n = if s.chance(1, 4) { s.range(2, 3) } else { 1 };
        let liar = s.below(n);
        let mut what = None;
        for f in 0..n {
            let mut m = serde_json::Map::new();
            let tests = if s.chance(1, 4) { s.range(2, 3) } else { 1 };
            let at = s.below(tests);
            for t in 0..tests {
                let (mut c, valid) = chain(s, info);
                if c.is_null() {
                    continue;
                }
                if lie && f == liar && t == at {
                    what = falsify(s, &mut c, &valid).map(|x| format!("test {t} of file {f}: {x}"));
                }
                m.insert(format!("test{t}"), c);
            }
            let mut text = Value::Object(m).to_string();
            let p = dir.0.join(format!("g{g}f{f}.json"));
            if lie && f == liar && what.is_none() {
                let k = s.below(text.len());
                text.truncate(k);
                what = Some(format!("file {f} is cut off"));
            } else {
                let _: BlockchainTest = serde_json::from_str(&text).map_err(|e| format!("harness: {e}"))?;
            }
            std::fs::write(&p, &text).map_err(|e| e.to_string())?;
            info.desc.push_str(&format!("group {g} file {f}: {text}\n"));
            paths.push(p);
        }
        if what.is_none() && s.chance(1, 20) {
            paths.push(dir.0.join("missing.json"));
            what = Some("a file is missing".into());
        }
        info.desc.push_str(&format!("group {g}: made false: {what:?}\n"));
        info.tag(if what.is_some() { "false_claim" } else { "true_claims" });
        due.push(what);
        groups.push(paths);
    }
    let v = verdicts(&dir.0, &groups)?;
    for (g, (c, what)) in v.chars().zip(&due).enumerate() {
        info.evals += 1;
        info.nontrivial.push(fnv(format!("{g}{}", info.desc).as_bytes()));
        match (c, what) {
            ('y', Some(w)) => return Err(format!("group {g}: the runner accepts a false claim ({w})")),
            ('n', None) => return Err(format!("group {g}: the runner rejects a chain whose claims are all true")),
            _ => {}
        }
    }
    Ok(())
}
