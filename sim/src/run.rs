//! One simulated run: a genesis, a concrete list of steps, the oracles evaluated while it proceeds.
//! The steps carry everything; no randomness is drawn while executing them.
use crate::chain::*;
use crate::check::{c, op_of, Op, Props, Violation};
use crate::model::{Ctx, World};
use crate::num::*;
use crate::oracle;
use cosmwasm_std::{from_slice, to_vec, Coin, Uint128};
use decimal::Decimal;
use oraiswap_v3::msg::ExecuteMsg;
use oraiswap_v3::percentage::Percentage;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Genesis {
    pub tokens: Vec<String>, // native denominations and CW20 contracts
    pub users: Vec<String>,  // rich
    pub poor: Vec<String>,
    pub admin: String,
    pub protocol_fee: u64,
    pub rich: u64, // log2 of the balances
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TxStep {
    pub from: String,
    pub to: String,
    pub msg: String,
    pub funds: Vec<(String, String)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub plans: Vec<Plan>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub gas: Option<u64>,
    /// what the scheduler did with it: "", "dup", "late"
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub note: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Tx(TxStep),
    Block { nanos: u64, height: u64 },
    Migrate,
    /// the node crashes and re-executes the current block from the last durable state
    Restart,
    /// listings, tick queries, client, forks: what the observers do
    Look { what: String, arg: u64 },
    /// abort the given transaction at many points (and let a proxy catch it) on a copy, then go on
    Abort { tx: TxStep, arg: u64 },
}

#[derive(Default, Clone, Serialize)]
pub struct Stats {
    pub tx: u64,
    pub tx_ok: u64,
    pub blocks: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<String, u64>,
    pub evals: BTreeMap<String, u64>,
    pub crossed: u64,
    pub calls: BTreeMap<String, u64>,
    pub looks: u64,
    pub aborts: u64,
    pub migrations: u64,
    pub restarts: u64,
    /// runs that a fault of the simulator itself ended early
    pub cut_short: u64,
    /// largest sizes reached in the run
    pub most: BTreeMap<String, u64>,
}
impl Stats {
    pub fn reach(&mut self, k: &str, n: u64) {
        if let Some(e) = self.most.get_mut(k) {
            *e = n.max(*e);
        } else {
            self.most.insert(k.into(), n);
        }
    }
    pub fn fault(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.into()).or_insert(0) += n;
        }
    }
    pub fn eval(&mut self, k: &str, n: u64) {
        *self.evals.entry(k.into()).or_insert(0) += n;
    }
    pub fn add(&mut self, o: &Stats) {
        self.tx += o.tx;
        self.tx_ok += o.tx_ok;
        self.blocks += o.blocks;
        self.sim_ns += o.sim_ns;
        self.crossed += o.crossed;
        self.looks += o.looks;
        self.aborts += o.aborts;
        self.migrations += o.migrations;
        self.restarts += o.restarts;
        for (k, v) in &o.most {
            self.reach(k, *v);
        }
        for (k, v) in &o.calls {
            *self.calls.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.evals {
            *self.evals.entry(k.clone()).or_insert(0) += v;
        }
    }
}

/// Which of the more expensive oracles run, in percent of the occasions.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, Default)]
pub struct Rates {
    pub quote: u64,
    pub client: u64,
    pub surplus: u64,
    pub books: u64,
    pub digest: u64,
}

pub struct Sim {
    pub ch: Chain,
    pub g: Genesis,
    pub rates: Rates,
    pub target: Props,
    pub stats: Stats,
    pub surplus: BTreeMap<String, oracle::Signed>,
    pub states: HashSet<u64>,
    /// durable state at the start of the current block and what ran since
    durable: Node,
    durable_model: Rc<World>,
    since: Vec<Step>,
    /// for the replica check: (steps so far, index of restart points with their durable node)
    pub log: Vec<Step>,
    pub events: Vec<u64>,
    pub cuts: Vec<(usize, Node)>,
    pub step_no: usize,
    pub viol: Vec<(usize, Violation)>,
    pub results: u64,
}

pub fn coins(f: &[(String, String)]) -> Vec<Coin> {
    let mut v: Vec<Coin> =
        f.iter().map(|(d, a)| Coin { denom: d.clone(), amount: Uint128::new(a.parse().unwrap_or(0)) }).filter(|x| !x.amount.is_zero()).collect();
    v.sort_by(|a, b| a.denom.cmp(&b.denom));
    v.dedup_by(|a, b| a.denom == b.denom);
    v
}
pub fn dex_json(m: &ExecuteMsg) -> String {
    String::from_utf8(to_vec(m).unwrap()).unwrap()
}

pub fn genesis_chain(g: &Genesis) -> Chain {
    let cw: Vec<String> = g.tokens.iter().filter(|t| is_addr(t)).cloned().collect();
    let mut ch = Chain::new(&cw);
    ch.instantiate_dex(&g.admin, Percentage::new(g.protocol_fee));
    let rich = 1u128 << g.rich;
    let holders: Vec<String> = g.users.iter().cloned().chain([PROXY.to_string(), HOSTILE.into(), HOLDER.into(), g.admin.clone()]).collect();
    for t in &g.tokens {
        if is_addr(t) {
            let mut h: Vec<(String, u128)> = holders.iter().map(|u| (u.clone(), rich)).collect();
            h.extend(g.poor.iter().map(|u| (u.clone(), 1_000_000)));
            let mut ap = holders.clone();
            ap.extend(g.poor.iter().cloned());
            ch.instantiate_cw20(t, &h, &ap);
        } else {
            for u in &holders {
                ch.bank_mint(u, t, rich);
            }
            for u in &g.poor {
                ch.bank_mint(u, t, 1_000_000);
            }
        }
    }
    ch
}

impl Sim {
    pub fn new(g: &Genesis, rates: Rates, target: Props) -> Sim {
        let ch = genesis_chain(g);
        let durable = ch.n.clone();
        let durable_model = ch.model.clone();
        Sim {
            ch,
            g: g.clone(),
            rates,
            target,
            stats: Stats::default(),
            surplus: BTreeMap::new(),
            states: HashSet::new(),
            durable,
            durable_model,
            since: vec![],
            log: vec![],
            events: vec![],
            cuts: vec![],
            step_no: 0,
            viol: vec![],
            results: FNV0,
        }
    }

    fn drain_viol(&mut self) {
        let n = self.step_no;
        for v in std::mem::take(&mut self.ch.viol) {
            if self.viol.len() < 400 {
                self.viol.push((n, v));
            }
        }
    }
    pub fn hit(&self) -> Option<&(usize, Violation)> {
        self.viol.iter().find(|(_, v)| v.props & self.target != 0)
    }
    pub fn flag(&mut self, props: Props, kind: &str, detail: String) {
        self.ch.viol.push(Violation { props, kind: kind.into(), detail });
    }
    /// deterministic per-step coin, independent of the generator
    fn coin(&self, salt: u64, pct: u64) -> bool {
        pct >= 100 || (pct > 0 && (fnv(&(self.step_no as u64 ^ salt << 32).to_le_bytes(), FNV0) >> 20) % 100 < pct)
    }

    pub fn step(&mut self, s: &Step) {
        let logged = self.log.len();
        self.ch.transcript = FNV0;
        self.step_inner(s);
        if self.log.len() > logged {
            self.events.push(self.ch.transcript);
        }
        self.drain_viol();
        self.step_no += 1;
    }

    fn step_inner(&mut self, s: &Step) {
        match s {
            Step::Tx(t) => {
                self.since.push(s.clone());
                self.log.push(s.clone());
                self.tx(t);
            }
            Step::Block { nanos, height } => {
                let b = &mut self.ch.n.block;
                b.time = b.time.plus_nanos(*nanos);
                b.height += height;
                self.stats.blocks += 1;
                self.stats.sim_ns += *nanos;
                self.durable = self.ch.n.clone();
                self.durable_model = self.ch.model.clone();
                self.since.clear();
                self.log.push(s.clone());
            }
            Step::Migrate => {
                self.stats.migrations += 1;
                self.stats.fault("contract upgrade", 1);
                self.since.push(s.clone());
                self.log.push(s.clone());
                let before = self.ch.dex_digest_without_version();
                match self.ch.migrate() {
                    Ok(()) => {
                        if self.ch.dex_digest_without_version() != before {
                            crate::check::compare_now(&mut self.ch, c(&[16]), "upgrade");
                        }
                    }
                    Err(e) => self.flag(c(&[16]), "upgrade failed", format!("migrate failed: {e}")),
                }
            }
            Step::Restart => self.restart(),
            Step::Look { what, arg } => {
                self.stats.looks += 1;
                oracle::look(self, what, *arg);
            }
            Step::Abort { tx, arg } => {
                self.stats.aborts += 1;
                oracle::abort_sweep(self, tx, *arg);
            }
        }
    }

    /// Crash: everything since the last block boundary is lost in memory; the node replays the block.
    fn restart(&mut self) {
        self.stats.restarts += 1;
        self.stats.fault("crash and re-execution of the open block", 1);
        self.cuts.push((self.log.len(), self.ch.n.clone()));
        let want = self.ch.full_digest();
        let mut node = self.ch.fork();
        node.n = self.durable.clone();
        node.model = self.durable_model.clone();
        for s in self.since.clone() {
            match &s {
                Step::Tx(t) => {
                    let _ = node.tx(&t.from, &t.to, t.msg.as_bytes(), &coins(&t.funds), &t.plans, t.gas);
                }
                Step::Migrate => {
                    let _ = node.migrate();
                }
                _ => {}
            }
        }
        if node.full_digest() != want {
            self.flag(c(&[16]), "restart", "re-executing the block after a crash gives a different state".into());
        }
    }

    pub fn tx(&mut self, t: &TxStep) {
        self.stats.tx += 1;
        let funds = coins(&t.funds);
        let direct: Option<ExecuteMsg> = if t.to == DEX { from_slice(t.msg.as_bytes()).ok() } else { None };
        let clean = t.plans.is_empty() && t.gas.is_none();
        let before = self.ch.model.clone();
        let pre = self.coin(1, self.rates.digest).then(|| self.ch.full_digest());
        // ---- quotes and client simulation just before the transaction
        let quote = match &direct {
            Some(m) if clean && self.coin(2, self.rates.quote) => oracle::quote_before(self, m),
            _ => None,
        };
        if let Some(m) = &direct {
            if clean && self.coin(3, self.rates.client) {
                oracle::client_before(self, &t.from, m);
            }
        }
        let bal = match &direct {
            Some(m) => oracle::party_balances(self, &t.from, m),
            None => vec![],
        };
        let fired = self.ch.plan_fired;
        let caught = self.ch.caught;
        let re = self.ch.reentered;
        let r = self.ch.tx(&t.from, &t.to, t.msg.as_bytes(), &funds, &t.plans, t.gas);
        let fired = self.ch.plan_fired - fired;
        // ---- statistics
        let ok = r.is_ok();
        self.stats.tx_ok += ok as u64;
        if t.note == "dup" {
            self.stats.fault("transaction delivered twice", 1);
        }
        if t.note == "late" {
            self.stats.fault("transaction delayed and reordered", 1);
        }
        if r == Err(Fail::Gas) {
            self.stats.fault("out of gas inside a call", 1);
        }
        self.stats.fault("hostile or failing sub-call", fired);
        self.stats.fault("failure caught by a calling contract", self.ch.caught - caught);
        self.stats.fault("nested call into the exchange", self.ch.reentered - re);
        for f in &self.ch.fx {
            for s in &f.swaps {
                self.stats.crossed += s.crossed.len() as u64;
            }
        }
        self.results = fnv(&[ok as u8], self.results);
        self.results = fnv(&self.ch.transcript.to_le_bytes(), self.results);
        self.note_state(direct.as_ref(), ok);
        // ---- all-or-nothing
        if !ok {
            if let Some(d) = pre {
                self.stats.eval("failed transaction left no trace", 1);
                if self.ch.full_digest() != d {
                    self.flag(c(&[3]), "trace of failed transaction", format!("{} failed but changed state", t.msg));
                }
            }
        }
        if ok && t.to == DEX && fired > 0 && t.plans.iter().any(|p| p.act == Act::Fail) && self.ch.fail_fired {
            self.flag(c(&[3, 2]), "failure swallowed", format!("a sub-call of {} failed but the call succeeded", t.msg));
        }
        if let Some(m) = &direct {
            if let Some(q) = quote {
                oracle::quote_after(self, &t.from, m, q, ok, &before, &funds);
            }
            if clean {
                if ok {
                    oracle::after_direct(self, &t.from, m, &before, &bal, &funds);
                } else {
                    self.must_have_succeeded(t, m, &before, &funds, &r);
                }
            }
        }
        if ok && self.coin(4, self.rates.books) {
            oracle::books(self, &before);
        }
        if ok && self.coin(5, self.rates.surplus) {
            oracle::surplus(self);
        }
        oracle::payouts(self);
    }

    /// A call that the rules allow and that the caller can pay for may not fail.
    fn must_have_succeeded(&mut self, t: &TxStep, m: &ExecuteMsg, before: &Rc<World>, funds: &[Coin], r: &Result<(), Fail>) {
        if *r == Err(Fail::Gas) {
            let p = match op_of(m) {
                Op::Swap | Op::Route => c(&[19, 4]),
                Op::Open => c(&[19, 17]),
                _ => c(&[19]),
            };
            self.flag(p, "unbounded work", format!("{} exceeds {OP_CAP} storage accesses", t.msg));
            return;
        }
        // the sender must have had the attached coins in the first place
        for f in funds {
            if self.ch.bank(&t.from, &f.denom) < f.amount.u128() {
                return;
            }
        }
        let mut wd = (**before).clone();
        let block = self.ch.n.block.clone();
        let cx = Ctx { block: &block, sender: &t.from, funds, is_addr: &is_addr };
        let fx = match wd.apply(&cx, m) {
            Ok(fx) => fx,
            Err(_) => return,
        };
        let mut need: BTreeMap<String, u128> = BTreeMap::new();
        for mv in &fx.moves {
            if let crate::model::Move::Pull { token, amount } = mv {
                *need.entry(token.clone()).or_insert(0) += amount;
            }
        }
        for (tok, n) in &need {
            if !self.ch.n.index.contains_key(tok) || self.ch.cw20_balance(tok, &t.from) < *n || self.ch.cw20_allowance(tok, &t.from, DEX) < *n {
                return;
            }
        }
        if let Some((to, _)) = &fx.nft_call {
            if to != HOLDER {
                return;
            }
        }
        // tokens that do not exist cannot be paid in
        if fx.moves.iter().any(|m| match m {
            crate::model::Move::Pay { token, .. } | crate::model::Move::Pull { token, .. } => is_addr(token) && !self.ch.n.index.contains_key(token),
        }) {
            return;
        }
        let p = match op_of(m) {
            Op::Close | Op::Claim | Op::Burn => c(&[19, 1]),
            Op::Withdraw => c(&[8, 1]),
            _ => c(&[2, 1]),
        };
        // the failure of the call itself has been reported by the refinement check; here: its payments
        if self.ch.top_ok {
            self.flag(p, "payment failed", format!("{} by {} cannot be carried out: {r:?}", t.msg, t.from));
        }
    }

    fn note_state(&mut self, m: Option<&ExecuteMsg>, ok: bool) {
        let w = &self.ch.model;
        let mut h = FNV0;
        let mut put = |v: u64| h = fnv(&v.to_le_bytes(), h);
        put(m.map(|m| op_of(m) as u64).unwrap_or(99));
        put(ok as u64);
        for f in &self.ch.fx {
            for s in &f.swaps {
                put(s.crossed.len().min(6) as u64);
                put((64 - (s.steps as u64).leading_zeros()) as u64);
                put(s.x_to_y as u64);
                put((s.target == s.crossed.last().map(|t| t.sqrt_price.get()).unwrap_or(0)) as u64);
            }
            if let Some((x, y)) = f.principal {
                put((x == 0) as u64 * 2 + (y == 0) as u64);
            }
            if let Some(p) = &f.claimed {
                put((p.x == 0) as u64 * 2 + (p.y == 0) as u64);
            }
        }
        for (_, (_, p)) in w.pools.iter() {
            put((p.ticks.len() as u64).min(12));
            put((p.p.liquidity.get() == 0) as u64);
            put(p.ticks.contains_key(&p.p.current_tick_index) as u64);
            put((p.p.sqrt_price.get() == crate::model::price_of_tick(p.p.current_tick_index).unwrap_or(0)) as u64);
        }
        put(w.owners.values().map(|v| v.len()).sum::<usize>().min(40) as u64);
        put(w.tiers.len() as u64);
        self.states.insert(h);
        let w = self.ch.model.clone();
        let t = &mut self.stats;
        t.reach("fee tiers", w.tiers.len() as u64);
        t.reach("pools", w.pools.len() as u64);
        for (_, p) in w.pools.values() {
            t.reach("ticks of a pool", p.ticks.len() as u64);
        }
        for v in w.owners.values() {
            t.reach("positions of an owner", v.len() as u64);
            for q in v {
                t.reach("approvals of a position", q.p.approvals.len() as u64);
            }
        }
        let mut per: BTreeMap<&str, u64> = BTreeMap::new();
        for ((o, _), _) in w.operators.iter() {
            *per.entry(o.as_str()).or_insert(0) += 1;
        }
        t.reach("operators of an owner", per.values().copied().max().unwrap_or(0));
        for f in &self.ch.fx {
            t.reach("hops of a route", f.swaps.len() as u64);
            for s in &f.swaps {
                t.reach("ticks crossed by a swap", s.crossed.len() as u64);
                t.reach("segments of a swap", s.steps as u64);
            }
        }
    }
}

/// Executes the state-changing steps alone on a given node: what a replica without any observers does.
pub fn replica(node: Node, steps: &[Step]) -> Outcome {
    let mut ch = genesis_chain(&Genesis { tokens: vec![], users: vec![], poor: vec![], admin: "orai1nobody".into(), protocol_fee: 0, rich: 1 });
    ch.n = node;
    ch.checking = false;
    ch.track = false;
    let mut events = vec![];
    for s in steps {
        ch.transcript = FNV0;
        match s {
            Step::Tx(t) => {
                let _ = ch.tx(&t.from, &t.to, t.msg.as_bytes(), &coins(&t.funds), &t.plans, t.gas);
            }
            Step::Block { nanos, height } => {
                ch.n.block.time = ch.n.block.time.plus_nanos(*nanos);
                ch.n.block.height += height;
            }
            Step::Migrate => {
                let _ = ch.migrate();
            }
            _ => {}
        }
        events.push(ch.transcript);
    }
    Outcome { state: ch.full_digest(), events, answers: answers(&ch) }
}

/// What a replica produced: final state, per step the messages and attributes, and its query answers.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Outcome {
    pub state: u64,
    pub events: Vec<u64>,
    pub answers: Vec<u64>,
}

/// a fixed battery of queries; every answer byte counts
pub fn answers(ch: &Chain) -> Vec<u64> {
    use oraiswap_v3::msg::QueryMsg as Q;
    let mut out = vec![];
    let mut ask = |q: Q| {
        let r = ch.query_raw(&q);
        out.push(match &r {
            Ok(b) => fnv(b.as_slice(), FNV0),
            Err(e) => fnv(e.as_bytes(), 7),
        });
    };
    ask(Q::Admin {});
    ask(Q::ProtocolFee {});
    ask(Q::FeeTiers {});
    ask(Q::AllTokens { limit: Some(30), start_after: None });
    let pools: Vec<oraiswap_v3::interface::PoolWithPoolKey> = ch.query(&Q::Pools { limit: Some(50), start_after: None }).unwrap_or_default();
    ask(Q::Pools { limit: Some(50), start_after: None });
    for p in &pools {
        ask(Q::LiquidityTicksAmount { pool_key: p.pool_key.clone(), lower_tick: -200, upper_tick: 200 });
        ask(Q::PoolsForPair { token_0: p.pool_key.token_x.clone(), token_1: p.pool_key.token_y.clone() });
        ask(Q::TickMap {
            pool_key: p.pool_key.clone(),
            lower_tick_index: -oraiswap_v3::MAX_TICK,
            upper_tick_index: oraiswap_v3::MAX_TICK,
            x_to_y: false,
        });
        ask(Q::QuoteRoute {
            amount_in: oraiswap_v3::token_amount::TokenAmount(1000),
            swaps: vec![oraiswap_v3::interface::SwapHop { pool_key: p.pool_key.clone(), x_to_y: true }],
        });
    }
    for u in ["orai1usera", "orai1userb", "orai1userc", "orai1userd", "orai1usere", "orai1user", "orai1useraxyzxyzxyz", PROXY, HOLDER] {
        let u = cosmwasm_std::Addr::unchecked(u);
        ask(Q::Positions { owner_id: u.clone(), limit: Some(30), offset: None });
        ask(Q::Tokens { owner: u.clone(), limit: Some(30), start_after: None });
        ask(Q::UserPositionAmount { owner: u.clone() });
        ask(Q::ApprovedForAll { owner: u, include_expired: Some(true), start_after: None, limit: Some(30) });
    }
    out
}
