//! Recording in-memory [`Host`] with warm/cold accounting. The reference interpreter and the
//! compiled code each get a clone; afterwards the two must be equal.

use crate::src::{Src, addr};
use revmc::{
    SpecId,
    context_interface::{
        cfg::GasParams,
        context::{SStoreResult, SelfDestructResult, StateLoad},
        host::LoadError,
        journaled_state::AccountInfoLoad,
    },
    interpreter::Host,
    primitives::{Address, B256, KECCAK_EMPTY, Log, U256, keccak256},
    revm_bytecode::Bytecode,
};
use revm_state::AccountInfo;
use std::{
    borrow::Cow,
    collections::{BTreeMap, BTreeSet},
};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Acc {
    pub balance: U256,
    pub nonce: u64,
    pub code: Vec<u8>,
}

impl Acc {
    pub fn is_empty(&self) -> bool {
        self.balance.is_zero() && self.nonce == 0 && self.code.is_empty()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Effect {
    SStore(Address, U256, U256),
    TStore(Address, U256, U256),
    Log(Log),
    SelfDestruct(Address, Address),
}

#[derive(Clone, Debug, PartialEq)]
pub struct VHost {
    pub basefee: U256,
    pub blob_gasprice: U256,
    pub gas_limit: U256,
    pub difficulty: U256,
    pub prevrandao: Option<U256>,
    pub number: U256,
    pub timestamp: U256,
    pub beneficiary: Address,
    pub slot_num: U256,
    pub chain_id: U256,
    pub gas_price: U256,
    pub caller: Address,
    pub blob_hashes: Vec<B256>,
    pub max_initcode: usize,
    pub gas_params: GasParams,
    pub eip8037: bool,
    pub missing_hashes: bool,

    pub accounts: BTreeMap<Address, Acc>,
    pub warm_accounts: BTreeSet<Address>,
    /// (original, present)
    pub storage: BTreeMap<(Address, U256), (U256, U256)>,
    pub warm_slots: BTreeSet<(Address, U256)>,
    pub transient: BTreeMap<(Address, U256), U256>,
    pub destroyed: BTreeSet<Address>,
    pub effects: Vec<Effect>,
    pub db_error: BTreeSet<Address>,
}

impl VHost {
    pub fn plain(spec: SpecId) -> Self {
        Self {
            basefee: U256::from(7),
            blob_gasprice: U256::from(3),
            gas_limit: U256::from(30_000_000u64),
            difficulty: U256::from(0xcdefu64),
            prevrandao: Some(U256::from(0x0123u64)),
            number: U256::from(500u64),
            timestamp: U256::from(0x1234u64),
            beneficiary: addr(9),
            slot_num: U256::from(77u64),
            chain_id: U256::from(69u64),
            gas_price: U256::from(0x4567u64),
            caller: addr(5),
            blob_hashes: vec![B256::repeat_byte(1), B256::repeat_byte(2)],
            max_initcode: 49152,
            gas_params: GasParams::new_spec(spec),
            eip8037: false,
            missing_hashes: false,
            accounts: BTreeMap::new(),
            warm_accounts: BTreeSet::new(),
            storage: BTreeMap::new(),
            warm_slots: BTreeSet::new(),
            transient: BTreeMap::new(),
            destroyed: BTreeSet::new(),
            effects: vec![],
            db_error: BTreeSet::new(),
        }
    }

    /// Generated host: several accounts (plain, with code, delegated, absent), storage of the
    /// running contract in all original/present combinations, part of everything warm.
    pub fn generate(s: &mut Src, spec: SpecId, target: Address) -> Self {
        let mut h = Self::plain(spec);
        if s.chance(2, 3) {
            h.basefee = s.word();
            h.blob_gasprice = U256::from(s.u64());
            h.gas_limit = s.word();
            h.difficulty = s.word();
            h.prevrandao = Some(s.word());
            h.timestamp = s.word();
            h.slot_num = s.word();
            h.chain_id = U256::from(s.u64());
            h.gas_price = s.word();
            h.number = match s.below(4) {
                0 => U256::from(s.below(600)),
                1 => U256::from(s.u64()),
                _ => U256::from(256 + s.below(3)),
            };
            let n = s.below(4);
            h.blob_hashes = (0..n).map(|_| s.b256()).collect();
            h.beneficiary = addr(s.below(12) as u64);
            h.caller = addr(s.below(12) as u64);
        }
        h.max_initcode = *s.pick(&[49152usize, 96, 64]);
        for i in 0..8u64 {
            let a = addr(i);
            match s.below(5) {
                0 => continue,
                1 => {
                    h.accounts.insert(a, Acc { balance: s.word(), nonce: 0, code: vec![] });
                }
                2 => {
                    h.accounts.insert(a, Acc { balance: U256::from(s.below(3)), nonce: 1, code: vec![] });
                }
                3 => {
                    let n = s.below(90);
                    let code = s.bytes(n);
                    h.accounts.insert(a, Acc { balance: U256::from(s.below(3)), nonce: 1, code });
                }
                _ => {
                    // EIP-7702 delegation designator.
                    let mut code = vec![0xef, 0x01, 0x00];
                    code.extend_from_slice(addr(s.below(8) as u64).as_slice());
                    h.accounts.insert(a, Acc { balance: U256::ZERO, nonce: 1, code });
                }
            }
            if s.bool() {
                h.warm_accounts.insert(a);
            }
        }
        h.accounts.entry(target).or_insert_with(|| Acc { balance: U256::from(1000u64), nonce: 1, code: vec![0] });
        h.warm_accounts.insert(target);
        if s.chance(1, 3) {
            h.destroyed.insert(target);
        }
        if s.chance(1, 4) {
            h.accounts.get_mut(&target).unwrap().balance = U256::ZERO;
        }
        for k in 0..6u64 {
            let key = if k == 5 { U256::MAX } else { U256::from(k) };
            let o = if s.bool() { U256::ZERO } else { U256::from(1 + s.below(3)) };
            let p = match s.below(3) {
                0 => o,
                1 => U256::ZERO,
                _ => s.word(),
            };
            h.storage.insert((target, key), (o, p));
            if s.bool() {
                h.warm_slots.insert((target, key));
            }
        }
        for k in 0..2u64 {
            if s.bool() {
                h.transient.insert((target, U256::from(k)), s.word());
            }
        }
        h
    }
}

impl Host for VHost {
    fn basefee(&self) -> U256 {
        self.basefee
    }
    fn blob_gasprice(&self) -> U256 {
        self.blob_gasprice
    }
    fn gas_limit(&self) -> U256 {
        self.gas_limit
    }
    fn gas_params(&self) -> &GasParams {
        &self.gas_params
    }
    fn is_amsterdam_eip8037_enabled(&self) -> bool {
        self.eip8037
    }
    fn difficulty(&self) -> U256 {
        self.difficulty
    }
    fn prevrandao(&self) -> Option<U256> {
        self.prevrandao
    }
    fn block_number(&self) -> U256 {
        self.number
    }
    fn timestamp(&self) -> U256 {
        self.timestamp
    }
    fn beneficiary(&self) -> Address {
        self.beneficiary
    }
    fn slot_num(&self) -> U256 {
        self.slot_num
    }
    fn chain_id(&self) -> U256 {
        self.chain_id
    }
    fn effective_gas_price(&self) -> U256 {
        self.gas_price
    }
    fn caller(&self) -> Address {
        self.caller
    }
    fn blob_hash(&self, number: usize) -> Option<U256> {
        self.blob_hashes.get(number).map(|h| (*h).into())
    }
    fn max_initcode_size(&self) -> usize {
        self.max_initcode
    }
    fn block_hash(&mut self, number: u64) -> Option<B256> {
        if self.missing_hashes && number % 5 == 0 {
            return None;
        }
        Some(keccak256(number.to_be_bytes()))
    }
    fn selfdestruct(
        &mut self,
        address: Address,
        target: Address,
        skip_cold_load: bool,
    ) -> Result<StateLoad<SelfDestructResult>, LoadError> {
        let is_cold = !self.warm_accounts.contains(&target);
        if is_cold && skip_cold_load {
            return Err(LoadError::ColdLoadSkipped);
        }
        if self.db_error.contains(&target) {
            return Err(LoadError::DBError);
        }
        self.warm_accounts.insert(target);
        self.effects.push(Effect::SelfDestruct(address, target));
        let balance = self.accounts.get(&address).map(|a| a.balance).unwrap_or_default();
        let target_exists = self.accounts.get(&target).is_some_and(|a| !a.is_empty());
        let previously_destroyed = !self.destroyed.insert(address);
        if address != target {
            self.accounts.entry(address).or_default().balance = U256::ZERO;
            let t = self.accounts.entry(target).or_default();
            t.balance = t.balance.wrapping_add(balance);
        }
        Ok(StateLoad::new(
            SelfDestructResult { had_value: !balance.is_zero(), target_exists, previously_destroyed },
            is_cold,
        ))
    }
    fn log(&mut self, log: Log) {
        self.effects.push(Effect::Log(log));
    }
    fn tstore(&mut self, address: Address, key: U256, value: U256) {
        self.effects.push(Effect::TStore(address, key, value));
        self.transient.insert((address, key), value);
    }
    fn tload(&mut self, address: Address, key: U256) -> U256 {
        self.transient.get(&(address, key)).copied().unwrap_or_default()
    }
    fn load_account_info_skip_cold_load(
        &mut self,
        address: Address,
        load_code: bool,
        skip_cold_load: bool,
    ) -> Result<AccountInfoLoad<'_>, LoadError> {
        let is_cold = !self.warm_accounts.contains(&address);
        if is_cold && skip_cold_load {
            return Err(LoadError::ColdLoadSkipped);
        }
        if self.db_error.contains(&address) {
            return Err(LoadError::DBError);
        }
        self.warm_accounts.insert(address);
        let acc = self.accounts.get(&address).cloned().unwrap_or_default();
        let code_hash = if acc.code.is_empty() { KECCAK_EMPTY } else { keccak256(&acc.code) };
        let is_empty = acc.is_empty();
        let code = load_code.then(|| Bytecode::new_raw_checked(acc.code.clone().into()).unwrap_or_default());
        let info = AccountInfo { balance: acc.balance, nonce: acc.nonce, code_hash, account_id: None, code };
        Ok(AccountInfoLoad { account: Cow::Owned(info), is_cold, is_empty })
    }
    fn sstore_skip_cold_load(
        &mut self,
        address: Address,
        key: U256,
        value: U256,
        skip_cold_load: bool,
    ) -> Result<StateLoad<SStoreResult>, LoadError> {
        let is_cold = !self.warm_slots.contains(&(address, key));
        if is_cold && skip_cold_load {
            return Err(LoadError::ColdLoadSkipped);
        }
        self.warm_slots.insert((address, key));
        let e = self.storage.entry((address, key)).or_insert((U256::ZERO, U256::ZERO));
        let present = e.1;
        e.1 = value;
        let original = e.0;
        self.effects.push(Effect::SStore(address, key, value));
        Ok(StateLoad::new(
            SStoreResult { original_value: original, present_value: present, new_value: value },
            is_cold,
        ))
    }
    fn sload_skip_cold_load(
        &mut self,
        address: Address,
        key: U256,
        skip_cold_load: bool,
    ) -> Result<StateLoad<U256>, LoadError> {
        let is_cold = !self.warm_slots.contains(&(address, key));
        if is_cold && skip_cold_load {
            return Err(LoadError::ColdLoadSkipped);
        }
        self.warm_slots.insert((address, key));
        let v = self.storage.get(&(address, key)).map(|e| e.1).unwrap_or_default();
        Ok(StateLoad::new(v, is_cold))
    }
}
