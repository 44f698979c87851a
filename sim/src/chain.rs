//! The simulated chain: one process, one thread per run, every source of nondeterminism (block time,
//! order of transactions, failures of sub-calls, gas exhaustion, callbacks, restarts) decided by the
//! recorded schedule. Real code: the exchange contract's entry points, cw20-base. Stubs: bank, the
//! dispatcher (CosmWasm message semantics), hostile token wrapper, proxy and NFT receiver contracts.
use crate::check::{self, Violation};
use crate::model::{Effects, World};
use cosmwasm_std::{
    from_slice, to_binary, Addr, Api, BankMsg, Binary, BlockInfo, CanonicalAddr, Coin, ContractInfo, CosmosMsg, Deps,
    DepsMut, Env, MessageInfo, Order, Querier, QuerierResult, QuerierWrapper, Record, RecoverPubkeyError, ReplyOn,
    Response, StdError, StdResult, Storage, SubMsg, SystemError, SystemResult, Timestamp, TransactionInfo, Uint128,
    VerificationError, WasmMsg,
};
use cw20::Cw20ExecuteMsg;
use oraiswap_v3::msg::{ExecuteMsg, InstantiateMsg, MigrateMsg, QueryMsg};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const DEX: &str = "orai1dexdexdexdexdex";
pub const HOSTILE: &str = "orai1hostiletoken";
pub const HOLDER: &str = "orai1hostileholder"; // second hostile-side account: NFT receiver contract
pub const PROXY: &str = "orai1proxycaller";

pub fn is_addr(s: &str) -> bool {
    s.len() >= 8 && s.starts_with("orai1") && s.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit())
}

// ---------------------------------------------------------------- gas and op counting

pub struct OutOfGas;
pub const OP_CAP: u64 = 400_000;

thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static READS: RefCell<Option<Reads>> = const { RefCell::new(None) };
}
#[derive(Default, Clone)]
pub struct Reads {
    pub keys: Vec<Vec<u8>>,
    pub ranged: bool,
}
fn op() {
    let n = OPS.with(|c| {
        let n = c.get() + 1;
        c.set(n);
        n
    });
    if LIMIT.with(|l| n > l.get()) {
        LIMIT.with(|l| l.set(u64::MAX));
        std::panic::panic_any(OutOfGas);
    }
}
pub fn arm_count() {
    OPS.with(|c| c.set(0));
}
pub fn ops() -> u64 {
    OPS.with(|c| c.get())
}
fn arm_ops(limit: u64) {
    OPS.with(|c| c.set(0));
    LIMIT.with(|l| l.set(limit));
}

// ---------------------------------------------------------------- storage

#[derive(Clone, Default)]
pub struct Kv {
    pub m: BTreeMap<Vec<u8>, Vec<u8>>,
}
type Undo = (usize, Vec<u8>, Option<Vec<u8>>);

pub struct StoreMut<'a> {
    kv: &'a mut Kv,
    undo: &'a mut Vec<Undo>,
    cid: usize,
    vers: Option<(&'a mut HashMap<Vec<u8>, u64>, u64)>,
}
fn range<'a>(m: &'a BTreeMap<Vec<u8>, Vec<u8>>, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
    op();
    READS.with(|r| {
        if let Some(x) = r.borrow_mut().as_mut() {
            x.ranged = true
        }
    });
    if let (Some(s), Some(e)) = (start, end) {
        if s > e {
            return Box::new(std::iter::empty());
        }
    }
    let b = (
        start.map(|s| Bound::Included(s.to_vec())).unwrap_or(Bound::Unbounded),
        end.map(|e| Bound::Excluded(e.to_vec())).unwrap_or(Bound::Unbounded),
    );
    let it = m.range(b).map(|(k, v)| {
        op();
        (k.clone(), v.clone())
    });
    match order {
        Order::Ascending => Box::new(it),
        Order::Descending => Box::new(it.rev()),
    }
}
fn get(m: &BTreeMap<Vec<u8>, Vec<u8>>, key: &[u8]) -> Option<Vec<u8>> {
    op();
    READS.with(|r| {
        if let Some(x) = r.borrow_mut().as_mut() {
            x.keys.push(key.to_vec())
        }
    });
    m.get(key).cloned()
}
impl<'a> Storage for StoreMut<'a> {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        get(&self.kv.m, key)
    }
    fn range<'b>(&'b self, s: Option<&[u8]>, e: Option<&[u8]>, o: Order) -> Box<dyn Iterator<Item = Record> + 'b> {
        range(&self.kv.m, s, e, o)
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        op();
        let old = self.kv.m.insert(key.to_vec(), value.to_vec());
        if let Some((m, v)) = self.vers.as_mut() {
            m.insert(key.to_vec(), *v);
        }
        self.undo.push((self.cid, key.to_vec(), old));
    }
    fn remove(&mut self, key: &[u8]) {
        op();
        let old = self.kv.m.remove(key);
        if let Some((m, v)) = self.vers.as_mut() {
            m.insert(key.to_vec(), *v);
        }
        self.undo.push((self.cid, key.to_vec(), old));
    }
}
struct StoreRef<'a> {
    kv: &'a Kv,
}
impl<'a> Storage for StoreRef<'a> {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        get(&self.kv.m, key)
    }
    fn range<'b>(&'b self, s: Option<&[u8]>, e: Option<&[u8]>, o: Order) -> Box<dyn Iterator<Item = Record> + 'b> {
        range(&self.kv.m, s, e, o)
    }
    fn set(&mut self, _: &[u8], _: &[u8]) {
        panic!("write in query")
    }
    fn remove(&mut self, _: &[u8]) {
        panic!("write in query")
    }
}

// ---------------------------------------------------------------- api, querier

pub struct SimApi;
impl Api for SimApi {
    fn addr_validate(&self, a: &str) -> StdResult<Addr> {
        if is_addr(a) {
            Ok(Addr::unchecked(a))
        } else {
            Err(StdError::generic_err("invalid address"))
        }
    }
    fn addr_canonicalize(&self, a: &str) -> StdResult<CanonicalAddr> {
        Ok(a.as_bytes().to_vec().into())
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(String::from_utf8_lossy(c.as_slice()).to_string()))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        unimplemented!()
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn debug(&self, _: &str) {}
}
pub struct NoQuerier;
impl Querier for NoQuerier {
    fn raw_query(&self, _: &[u8]) -> QuerierResult {
        SystemResult::Err(SystemError::UnsupportedRequest { kind: "none".into() })
    }
}

// ---------------------------------------------------------------- chain

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Dex,
    Cw20,
    Hostile,
    Proxy,
    Receiver,
}

/// What a hostile contract does at its n-th invocation within one transaction.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Fail,
    /// call the exchange (before returning control), as the hostile contract itself
    Call { msg: String, funds: Vec<Coin> },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    /// contract whose invocations are counted
    pub who: String,
    pub nth: u32,
    pub act: Act,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ProxyCall {
    pub contract: String,
    pub msg: Binary,
    pub funds: Vec<Coin>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ProxyMsg {
    pub calls: Vec<ProxyCall>,
    pub catch: bool,
}
#[derive(Deserialize)]
enum ReceiverMsg {
    #[serde(rename = "receive_nft")]
    ReceiveNft {},
}

#[derive(Debug, Clone, PartialEq)]
pub enum Fail {
    Contract(String),
    Gas,
}

/// Balance change log of the current transaction: (account, token, signed amount)
pub type Delta = (String, String, i128);

#[derive(Clone)]
pub struct Node {
    pub kvs: Vec<Kv>, // 0 = bank, then contracts
    pub names: Vec<String>,
    pub kinds: Vec<Kind>,
    pub index: HashMap<String, usize>,
    pub block: BlockInfo,
}

impl Node {
    /// the durable state as text, for hand-over to another process
    pub fn dump(&self) -> String {
        let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
        let mut s = format!("{} {}\n", self.block.height, self.block.time.nanos());
        for (i, n) in self.names.iter().enumerate() {
            s += &format!("@ {n} {}\n", self.kinds[i] as u8);
            for (k, v) in &self.kvs[i].m {
                s += &format!("{} {}\n", hex(k), hex(v));
            }
        }
        s
    }
    pub fn load(s: &str) -> Node {
        let unhex = |s: &str| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>();
        let mut it = s.split('\n');
        let f: Vec<u64> = it.next().unwrap().split(' ').map(|x| x.parse().unwrap()).collect();
        let mut n = Node {
            kvs: vec![],
            names: vec![],
            kinds: vec![],
            index: HashMap::new(),
            block: BlockInfo { height: f[0], time: Timestamp::from_nanos(f[1]), chain_id: "sim".into() },
        };
        for l in it {
            let p: Vec<&str> = l.split(' ').collect();
            if p[0] == "@" {
                n.index.insert(p[1].into(), n.names.len());
                n.names.push(p[1].into());
                n.kinds.push([Kind::Dex, Kind::Cw20, Kind::Hostile, Kind::Proxy, Kind::Receiver].into_iter().find(|k| (*k as u8).to_string() == p[2]).unwrap());
                n.kvs.push(Kv::default());
            } else if p.len() == 2 {
                n.kvs.last_mut().unwrap().m.insert(unhex(p[0]), unhex(p[1]));
            }
        }
        n
    }
}

pub struct Chain {
    pub n: Node,
    undo: Vec<Undo>,
    vers: HashMap<Vec<u8>, u64>,
    pub ver: u64,
    plans: Vec<Plan>,
    counts: HashMap<String, u32>,
    depth: u32,
    // reference model and findings
    pub model: Rc<World>,
    pub checking: bool,
    /// forks keep the model in step; pure replicas do not need it
    pub track: bool,
    /// an injected failure was delivered in this transaction and not caught by a proxy
    pub fail_fired: bool,
    /// the outermost call of the exchange returned success (its payments may still fail)
    pub top_ok: bool,
    /// invocations of tokens and receivers in the last transaction
    pub transfers: BTreeMap<String, u32>,
    pub viol: Vec<Violation>,
    pub deltas: Vec<Delta>,
    pub fx: Vec<Effects>,
    pub obs: check::ObsCache,
    pub dex_calls: u64,
    pub reentered: u64,
    pub plan_fired: u64,
    pub caught: u64,
    pub transcript: u64,
    /// dex calls of the current transaction that returned Ok and were not rolled back
    pub attrs: Vec<(String, String)>,
}

struct Save {
    undo: usize,
    model: Rc<World>,
    deltas: usize,
    fx: usize,
}

fn bank_key(a: &str, d: &str) -> Vec<u8> {
    format!("{a}\u{0}{d}").into_bytes()
}

impl Chain {
    pub fn new(tokens: &[String]) -> Chain {
        let mut names = vec!["bank".to_string(), DEX.into()];
        let mut kinds = vec![Kind::Cw20, Kind::Dex];
        for t in tokens {
            names.push(t.clone());
            kinds.push(if t == HOSTILE { Kind::Hostile } else { Kind::Cw20 });
        }
        names.push(PROXY.into());
        kinds.push(Kind::Proxy);
        names.push(HOLDER.into());
        kinds.push(Kind::Receiver);
        let index = names.iter().cloned().enumerate().map(|(i, n)| (n, i)).collect();
        let kvs = vec![Kv::default(); names.len()];
        Chain {
            n: Node {
                kvs,
                names,
                kinds,
                index,
                block: BlockInfo { height: 1000, time: Timestamp::from_nanos(1_700_000_000_000_000_000), chain_id: "sim".into() },
            },
            undo: vec![],
            vers: HashMap::new(),
            ver: 1,
            plans: vec![],
            counts: HashMap::new(),
            depth: 0,
            model: Rc::new(World::default()),
            checking: true,
            track: true,
            fail_fired: false,
            top_ok: false,
            transfers: BTreeMap::new(),
            viol: vec![],
            deltas: vec![],
            fx: vec![],
            obs: Default::default(),
            dex_calls: 0,
            reentered: 0,
            plan_fired: 0,
            caught: 0,
            transcript: crate::num::FNV0,
            attrs: vec![],
        }
    }

    /// A copy of the durable state with its own model: for what-if runs.
    pub fn fork(&self) -> Chain {
        Chain {
            n: self.n.clone(),
            undo: vec![],
            vers: self.vers.clone(),
            ver: self.ver,
            plans: vec![],
            counts: HashMap::new(),
            depth: 0,
            model: self.model.clone(),
            checking: false,
            track: true,
            fail_fired: false,
            top_ok: false,
            transfers: BTreeMap::new(),
            viol: vec![],
            deltas: vec![],
            fx: vec![],
            obs: Default::default(),
            dex_calls: 0,
            reentered: 0,
            plan_fired: 0,
            caught: 0,
            transcript: crate::num::FNV0,
            attrs: vec![],
        }
    }

    pub fn env(&self, a: &str) -> Env {
        Env {
            block: self.n.block.clone(),
            transaction: Some(TransactionInfo { index: 0 }),
            contract: ContractInfo { address: Addr::unchecked(a) },
        }
    }

    // ---- bank
    pub fn bank(&self, a: &str, d: &str) -> u128 {
        self.n.kvs[0].m.get(&bank_key(a, d)).map(|v| u128::from_be_bytes(v.as_slice().try_into().unwrap())).unwrap_or(0)
    }
    fn bank_set(&mut self, a: &str, d: &str, v: u128) {
        let k = bank_key(a, d);
        let old = self.n.kvs[0].m.insert(k.clone(), v.to_be_bytes().to_vec());
        self.undo.push((0, k, old));
    }
    pub fn bank_mint(&mut self, a: &str, d: &str, v: u128) {
        let b = self.bank(a, d);
        self.bank_set(a, d, b + v);
    }
    fn bank_send(&mut self, from: &str, to: &str, coins: &[Coin], log: bool) -> Result<(), Fail> {
        for c in coins {
            let v = c.amount.u128();
            if v == 0 {
                return Err(Fail::Contract("zero coin".into()));
            }
            let b = self.bank(from, &c.denom);
            if b < v {
                return Err(Fail::Contract(format!("bank: {from} has {b}{} needs {v}", c.denom)));
            }
            self.bank_set(from, &c.denom, b - v);
            let t = self.bank(to, &c.denom);
            self.bank_set(to, &c.denom, t.checked_add(v).ok_or(Fail::Contract("bank overflow".into()))?);
            if log {
                self.deltas.push((from.into(), c.denom.clone(), -(v as i128)));
                self.deltas.push((to.into(), c.denom.clone(), v as i128));
            }
        }
        Ok(())
    }
    pub fn cw20_balance(&self, token: &str, a: &str) -> u128 {
        let i = self.n.index[token];
        let st = StoreRef { kv: &self.n.kvs[i] };
        cw20_base::state::BALANCES
            .may_load(&st, &Addr::unchecked(a))
            .unwrap()
            .map(|v| v.u128())
            .unwrap_or(0)
    }
    pub fn cw20_allowance(&self, token: &str, owner: &str, spender: &str) -> u128 {
        let i = self.n.index[token];
        let st = StoreRef { kv: &self.n.kvs[i] };
        cw20_base::state::ALLOWANCES
            .may_load(&st, (&Addr::unchecked(owner), &Addr::unchecked(spender)))
            .unwrap()
            .map(|v| v.allowance.u128())
            .unwrap_or(0)
    }
    pub fn balance(&self, token: &str, a: &str) -> u128 {
        if is_addr(token) {
            self.cw20_balance(token, a)
        } else {
            self.bank(a, token)
        }
    }

    // ---- savepoints
    fn save(&self) -> Save {
        Save { undo: self.undo.len(), model: self.model.clone(), deltas: self.deltas.len(), fx: self.fx.len() }
    }
    fn rollback(&mut self, s: Save) {
        let dex = self.n.index[DEX];
        while self.undo.len() > s.undo {
            let (c, k, old) = self.undo.pop().unwrap();
            if c == dex {
                self.ver += 1;
                self.vers.insert(k.clone(), self.ver);
            }
            match old {
                Some(v) => self.n.kvs[c].m.insert(k, v),
                None => self.n.kvs[c].m.remove(&k),
            };
        }
        self.model = s.model;
        self.deltas.truncate(s.deltas);
        self.fx.truncate(s.fx);
    }

    // ---- genesis
    pub fn instantiate_dex(&mut self, admin: &str, fee: oraiswap_v3::percentage::Percentage) {
        let env = self.env(DEX);
        let cid = self.n.index[DEX];
        let info = MessageInfo { sender: Addr::unchecked(admin), funds: vec![] };
        let mut st = StoreMut { kv: &mut self.n.kvs[cid], undo: &mut self.undo, cid, vers: None };
        let deps = DepsMut { storage: &mut st, api: &SimApi, querier: QuerierWrapper::new(&NoQuerier) };
        oraiswap_v3::contract::instantiate(deps, env, info, InstantiateMsg { protocol_fee: fee }).unwrap();
        self.undo.clear();
        use decimal::Decimal;
        let wd = World { admin: admin.into(), protocol_fee: fee.get(), ..Default::default() };
        self.model = Rc::new(wd);
    }
    pub fn instantiate_cw20(&mut self, token: &str, holders: &[(String, u128)], approve: &[String]) {
        let cid = self.n.index[token];
        let env = self.env(token);
        let mut st = StoreMut { kv: &mut self.n.kvs[cid], undo: &mut self.undo, cid, vers: None };
        let info = MessageInfo { sender: Addr::unchecked("orai1genesis"), funds: vec![] };
        let msg = cw20_base::msg::InstantiateMsg {
            name: "token".into(),
            symbol: "TOK".into(),
            decimals: 6,
            initial_balances: holders
                .iter()
                .map(|(a, v)| cw20::Cw20Coin { address: a.clone(), amount: Uint128::new(*v) })
                .collect(),
            mint: None,
            marketing: None,
        };
        let deps = DepsMut { storage: &mut st, api: &SimApi, querier: QuerierWrapper::new(&NoQuerier) };
        cw20_base::contract::instantiate(deps, env.clone(), info, msg).unwrap();
        for a in approve {
            let info = MessageInfo { sender: Addr::unchecked(a), funds: vec![] };
            let deps = DepsMut { storage: &mut st, api: &SimApi, querier: QuerierWrapper::new(&NoQuerier) };
            cw20_base::contract::execute(
                deps,
                env.clone(),
                info,
                Cw20ExecuteMsg::IncreaseAllowance { spender: DEX.into(), amount: Uint128::new(u128::MAX >> 1), expires: None },
            )
            .unwrap();
        }
        self.undo.clear();
    }
    pub fn migrate(&mut self) -> Result<(), String> {
        let cid = self.n.index[DEX];
        let env = self.env(DEX);
        self.ver += 1;
        let v = self.ver;
        let mut st = StoreMut { kv: &mut self.n.kvs[cid], undo: &mut self.undo, cid, vers: Some((&mut self.vers, v)) };
        let deps = DepsMut { storage: &mut st, api: &SimApi, querier: QuerierWrapper::new(&NoQuerier) };
        let r = catch_unwind(AssertUnwindSafe(|| oraiswap_v3::contract::migrate(deps, env, MigrateMsg {})));
        self.undo.clear();
        match r {
            Ok(Ok(_)) => Ok(()),
            Ok(Err(e)) => Err(e.to_string()),
            Err(_) => Err("panic".into()),
        }
    }

    // ---- queries
    pub fn query_raw(&self, msg: &QueryMsg) -> Result<Binary, String> {
        let cid = self.n.index[DEX];
        let st = StoreRef { kv: &self.n.kvs[cid] };
        let env = self.env(DEX);
        // the wire format is part of the interface: go through JSON like a real node
        let bytes = to_binary(msg).map_err(|e| e.to_string())?;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let m: QueryMsg = from_slice(bytes.as_slice())?;
            let deps = Deps { storage: &st, api: &SimApi, querier: QuerierWrapper::new(&NoQuerier) };
            oraiswap_v3::contract::query(deps, env, m)
        }));
        match r {
            Ok(Ok(b)) => Ok(b),
            Ok(Err(e)) => Err(e.to_string()),
            Err(e) => Err(panic_text(e)),
        }
    }
    pub fn query<T: serde::de::DeserializeOwned>(&self, msg: &QueryMsg) -> Result<T, String> {
        // queries run outside the transaction's gas
        let (o, l) = (OPS.with(|c| c.get()), LIMIT.with(|c| c.get()));
        arm_ops(5_000_000);
        let b = self.query_raw(msg);
        OPS.with(|c| c.set(o));
        LIMIT.with(|c| c.set(l));
        from_slice(b?.as_slice()).map_err(|e| e.to_string())
    }
    pub fn query_reads<T: serde::de::DeserializeOwned>(&self, msg: &QueryMsg) -> (Result<T, String>, Reads) {
        READS.with(|r| *r.borrow_mut() = Some(Reads::default()));
        let x = self.query(msg);
        let reads = READS.with(|r| r.borrow_mut().take().unwrap());
        (x, reads)
    }
    pub fn key_version(&self, k: &[u8]) -> u64 {
        self.vers.get(k).copied().unwrap_or(0)
    }
    pub fn dex_digest(&self) -> u64 {
        let mut h = crate::num::FNV0;
        for (k, v) in &self.n.kvs[self.n.index[DEX]].m {
            h = crate::num::fnv(k, h);
            h = crate::num::fnv(&[0xff], h);
            h = crate::num::fnv(v, h);
        }
        h
    }
    /// the version record is the one thing an upgrade may change
    pub fn dex_digest_without_version(&self) -> u64 {
        let mut h = crate::num::FNV0;
        for (k, v) in &self.n.kvs[self.n.index[DEX]].m {
            if k == b"contract_info" {
                continue;
            }
            h = crate::num::fnv(k, h);
            h = crate::num::fnv(&[0xff], h);
            h = crate::num::fnv(v, h);
        }
        h
    }
    pub fn full_digest(&self) -> u64 {
        let mut h = crate::num::FNV0;
        for kv in &self.n.kvs {
            for (k, v) in &kv.m {
                h = crate::num::fnv(k, h);
                h = crate::num::fnv(&[0xff], h);
                h = crate::num::fnv(v, h);
            }
            h = crate::num::fnv(&[0xfe], h);
        }
        h
    }

    // ---- transactions
    /// Runs one transaction. Err leaves no trace (the chain's own guarantee, which the stub provides).
    pub fn tx(&mut self, sender: &str, contract: &str, msg: &[u8], funds: &[Coin], plans: &[Plan], gas: Option<u64>) -> Result<(), Fail> {
        self.undo.clear();
        self.deltas.clear();
        self.fx.clear();
        self.attrs.clear();
        self.plans = plans.to_vec();
        self.counts.clear();
        self.depth = 0;
        self.fail_fired = false;
        self.top_ok = false;
        arm_ops(gas.unwrap_or(OP_CAP));
        let s = self.save();
        let r = self.call(sender, contract, msg, funds);
        LIMIT.with(|l| l.set(u64::MAX));
        self.transfers = self.counts.iter().map(|(k, v)| (k.clone(), *v)).collect();
        if r.is_err() {
            self.rollback(s);
        }
        self.undo.clear();
        self.plans.clear();
        self.transcript = crate::num::fnv(&[r.is_ok() as u8], self.transcript);
        r
    }

    fn call(&mut self, sender: &str, contract: &str, msg: &[u8], funds: &[Coin]) -> Result<(), Fail> {
        self.depth += 1;
        if self.depth > 12 {
            self.depth -= 1;
            return Err(Fail::Contract("call depth".into()));
        }
        let r = self.call_inner(sender, contract, msg, funds);
        self.depth -= 1;
        r
    }

    fn call_inner(&mut self, sender: &str, contract: &str, msg: &[u8], funds: &[Coin]) -> Result<(), Fail> {
        let cid = *self.n.index.get(contract).ok_or(Fail::Contract("no such contract".into()))?;
        if !funds.is_empty() {
            self.bank_send(sender, contract, funds, true)?;
        }
        let kind = self.n.kinds[cid];
        let env = self.env(contract);
        let info = MessageInfo { sender: Addr::unchecked(sender), funds: funds.to_vec() };
        let resp = match kind {
            Kind::Dex => {
                self.dex_calls += 1;
                if self.depth > 1 {
                    self.reentered += 1;
                }
                self.dex(env, info, msg)?
            }
            Kind::Cw20 | Kind::Hostile => {
                let m: Cw20ExecuteMsg = from_slice(msg).map_err(|e| Fail::Contract(e.to_string()))?;
                // log the balance changes a plain token call makes
                let mut log = vec![];
                let mut counted = false;
                match &m {
                    Cw20ExecuteMsg::Transfer { recipient, amount } => {
                        counted = true;
                        log.push((sender.to_string(), recipient.clone(), amount.u128()));
                    }
                    Cw20ExecuteMsg::TransferFrom { owner, recipient, amount } => {
                        counted = true;
                        log.push((owner.clone(), recipient.clone(), amount.u128()));
                    }
                    _ => {}
                }
                let act = if counted { self.bump(contract) } else { None };
                if act == Some(Act::Fail) {
                    return Err(Fail::Contract("token refused".into()));
                }
                let mut st = StoreMut { kv: &mut self.n.kvs[cid], undo: &mut self.undo, cid, vers: None };
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let deps = DepsMut { storage: &mut st, api: &SimApi, querier: QuerierWrapper::new(&NoQuerier) };
                    cw20_base::contract::execute(deps, env, info, m)
                }));
                let mut resp = flat(r)?;
                for (f, t, a) in log {
                    self.deltas.push((f, contract.into(), -(a as i128)));
                    self.deltas.push((t, contract.into(), a as i128));
                }
                if let Some(Act::Call { msg, funds }) = act {
                    resp = resp.add_message(WasmMsg::Execute { contract_addr: DEX.into(), msg: Binary::from(msg.as_bytes()), funds });
                }
                resp
            }
            Kind::Proxy => {
                let m: ProxyMsg = from_slice(msg).map_err(|e| Fail::Contract(e.to_string()))?;
                let mut resp = Response::new();
                for c in m.calls {
                    let w = WasmMsg::Execute { contract_addr: c.contract, msg: c.msg, funds: c.funds };
                    resp = resp.add_submessage(if m.catch { SubMsg::reply_on_error(w, 1) } else { SubMsg::new(w) });
                }
                resp
            }
            Kind::Receiver => {
                let _: ReceiverMsg = from_slice(msg).map_err(|e| Fail::Contract(e.to_string()))?;
                match self.bump(contract) {
                    Some(Act::Fail) => return Err(Fail::Contract("receiver refused".into())),
                    Some(Act::Call { msg, funds }) => Response::new().add_message(WasmMsg::Execute {
                        contract_addr: DEX.into(),
                        msg: Binary::from(msg.as_bytes()),
                        funds,
                    }),
                    None => Response::new(),
                }
            }
        };
        self.process(contract, kind, resp)
    }

    fn bump(&mut self, who: &str) -> Option<Act> {
        let c = self.counts.entry(who.to_string()).or_insert(0);
        *c += 1;
        let n = *c;
        let i = self.plans.iter().position(|p| p.who == who && p.nth == n)?;
        self.plan_fired += 1;
        if self.plans[i].act == Act::Fail {
            self.fail_fired = true;
        }
        Some(self.plans[i].act.clone())
    }

    fn process(&mut self, contract: &str, kind: Kind, resp: Response) -> Result<(), Fail> {
        for sub in resp.messages {
            let s = self.save();
            let r = match sub.msg {
                CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => self.bank_send(contract, &to_address, &amount, true),
                CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                    self.call(contract, &contract_addr, msg.as_slice(), &funds)
                }
                other => Err(Fail::Contract(format!("unsupported message {other:?}"))),
            };
            match (r, sub.reply_on) {
                (Ok(()), ReplyOn::Never) | (Ok(()), ReplyOn::Error) => {}
                (Err(e), ReplyOn::Never) | (Err(e), ReplyOn::Success) => return Err(e),
                (Err(_), _) if kind == Kind::Proxy => {
                    // failure caught by the calling contract: the sub-call is undone, the rest goes on
                    self.rollback(s);
                    self.caught += 1;
                    self.fail_fired = false;
                }
                // nobody else exports a reply entry point
                _ => return Err(Fail::Contract("no reply entry point".into())),
            }
        }
        Ok(())
    }

    fn dex(&mut self, env: Env, info: MessageInfo, msg: &[u8]) -> Result<Response, Fail> {
        let parsed: ExecuteMsg = from_slice(msg).map_err(|e| Fail::Contract(e.to_string()))?;
        let cid = self.n.index[DEX];
        self.ver += 1;
        let ver = self.ver;
        let r = {
            let mut st = StoreMut { kv: &mut self.n.kvs[cid], undo: &mut self.undo, cid, vers: Some((&mut self.vers, ver)) };
            let (env, info, parsed) = (env.clone(), info.clone(), parsed.clone());
            catch_unwind(AssertUnwindSafe(|| {
                let deps = DepsMut { storage: &mut st, api: &SimApi, querier: QuerierWrapper::new(&NoQuerier) };
                oraiswap_v3::contract::execute(deps, env, info, parsed)
            }))
        };
        let r = flat(r);
        if self.depth == 1 {
            self.top_ok = r.is_ok();
        }
        if let Ok(resp) = &r {
            for m in &resp.messages {
                self.transcript = crate::num::fnv(&to_binary(&m.msg).unwrap(), self.transcript);
            }
            for a in &resp.attributes {
                self.transcript = crate::num::fnv(a.value.as_bytes(), self.transcript);
            }
            self.attrs = resp.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect();
        }
        if self.checking {
            match &r {
                Err(Fail::Gas) => {}
                _ => check::after_call(self, &env, &info, &parsed, r.as_ref().map_err(|e| e.clone())),
            }
        } else if self.track && r.is_ok() {
            // forks: keep the model in step without comparing
            let mut wd = (*self.model).clone();
            let cx = crate::model::Ctx { block: &env.block, sender: info.sender.as_str(), funds: &info.funds, is_addr: &is_addr };
            if let Ok(fx) = wd.apply(&cx, &parsed) {
                self.model = Rc::new(wd);
                self.fx.push(fx);
            }
        }
        r
    }
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if e.downcast_ref::<OutOfGas>().is_some() {
        return "out of gas".into();
    }
    if let Some(s) = e.downcast_ref::<&str>() {
        return format!("panic: {s}");
    }
    if let Some(s) = e.downcast_ref::<String>() {
        return format!("panic: {s}");
    }
    "panic".into()
}

fn flat<E: std::fmt::Display>(r: Result<Result<Response, E>, Box<dyn std::any::Any + Send>>) -> Result<Response, Fail> {
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(Fail::Contract(e.to_string())),
        Err(p) => {
            if p.downcast_ref::<OutOfGas>().is_some() {
                Err(Fail::Gas)
            } else {
                Err(Fail::Contract(panic_text(p)))
            }
        }
    }
}
