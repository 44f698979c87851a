//! Seeded generator: clients that look at the state, form transactions, and a scheduler that delays,
//! reorders, duplicates and drops them, moves the clock, crashes nodes and injects failures.
//! Its output is a list of concrete steps; executing them needs no randomness.
use crate::chain::*;
use crate::model::*;
use crate::num::*;
use crate::run::{dex_json, Genesis, Rates, Sim, Step, TxStep};
use cosmwasm_std::{to_binary, Addr, Binary, Coin, Uint128};
use cw20::{Cw20ExecuteMsg, Expiration};
use decimal::Decimal;
use oraiswap_v3::interface::SwapHop;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::msg::{ExecuteMsg, NftExtensionMsg};
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::{FeeTier, PoolKey};

/// What a property's runs concentrate on.
#[derive(Clone, Debug)]
pub struct Profile {
    pub steps: usize,
    pub rates: Rates,
    /// weights of the kinds of transactions (see `KINDS`)
    pub w: [u32; 18],
    /// percent per iteration
    pub lists: u64,
    pub pools: u64,
    pub ticks: u64,
    pub client: u64,
    pub drain: u64,
    pub round: u64,
    pub abort: u64,
    pub restart: u64,
    pub migrate: u64,
    pub hostile: u64, // percent of runs with a hostile token
    pub fails: u64,   // percent of transactions with an injected sub-call failure
    pub gas: u64,
    pub proxy: u64,
    pub replica: u64, // percent of runs re-executed by replicas
    pub max_pos: usize,
    pub natives: u64, // percent of native tokens
    pub ladder: u64,  // percent of those that surely have hundreds of ticks in one pool
    pub party: u64,   // percent of runs with many approvals and operators
    pub mega: u64,    // per mille of runs whose tick map is longer than one answer
    pub crowd: u64,   // per mille of runs with very many positions, pools or tiers
}
pub const KINDS: [&str; 18] = [
    "open", "swap", "route", "claim", "close", "burn", "give", "nft", "send", "approve", "revoke", "operator", "withdraw", "config", "tier", "pool",
    "token", "junk",
];

/// search for an amount between too little and too much
#[derive(Default)]
struct Fit {
    lo: Option<u128>,
    hi: Option<u128>,
}
impl Fit {
    fn next(&mut self, r: &mut Rng, amount: &mut u128, out: R<()>) -> bool {
        match out {
            Err(Why::NoGain) => self.lo = Some(*amount),
            Err(Why::LimitReached) | Err(Why::NoLiquidity) | Err(Why::Overflow) => self.hi = Some(*amount),
            _ => return false,
        }
        *amount = match (self.lo, self.hi) {
            (Some(l), Some(h)) if h > l + 1 => {
                if h / l.max(1) > 8 {
                    l << (1 + r.below((h / l.max(1)).ilog2() as u64 - 1))
                } else {
                    l + 1 + r.below128(h - l - 1)
                }
            }
            (Some(_), Some(_)) => return false,
            (Some(l), None) => l.saturating_mul(2 + r.below(30) as u128),
            (None, Some(h)) if h > 1 => (h >> (1 + r.below(8))).max(1),
            _ => return false,
        };
        true
    }
}

pub struct Gen {
    pub r: Rng,
    pub p: Profile,
    pub g: Genesis,
    /// swarm choices of this run
    liq_bits: (u32, u32),
    amt_bits: (u32, u32),
    wide: u64,
    edge: u64,
    share: u64,
    wild: u64,
    tiers: Vec<FeeTier>,
    pairs: Vec<(String, String)>,
    init: u64,
    around: u64,
    cross: u64,
    /// runs with wide gaps between ticks, around the range of the tick search
    gap: bool,
    /// runs with little liquidity above and very much below a tick, at low prices
    cliff: bool,
    /// 0 none, 1 positions, 2 pools and tiers, 3 ticks, 4 more chunks than one answer holds
    crowd: u64,
    /// positions of a small ladder around the price
    rungs: u64,
    /// many approvals and operators
    party: bool,
    follow: Option<(PoolKey, bool)>,
    new_rate: u64,
    delay: u64,
    dup: u64,
    drop: u64,
    w: [u32; 18],
    mempool: Vec<(u64, TxStep)>,
    time: u64,
    clock: u64,
    queue: Vec<Step>,
    now: u64,
}

fn name(prefix: &str, i: usize) -> String {
    format!("orai1{prefix}{}", (b'a' + i as u8) as char)
}

impl Gen {
    pub fn new(seed: u64, p: &Profile) -> Gen {
        let mut r = Rng::new(seed);
        let nt = 2 + r.below(3) as usize;
        // names that differ only in case, or where one is a part of the other
        let natives = *r.pick(&[
            ["orai", "ibc/A", "ibc/AB", "factory/orai1x/usd"],
            ["ibc/A", "ibc/a", "IBC/A", "ibc/Aibc/a"],
            ["orai", "ORAI", "Orai", "ora"],
        ]);
        let mut tokens: Vec<String> = vec![];
        for i in 0..nt {
            if r.chance(p.natives) {
                tokens.push(natives[i].to_string());
            } else {
                tokens.push(name("token", i));
            }
        }
        // pairs of names that are the same when written one after the other
        let glued = r.chance(4);
        if glued {
            tokens = ["fa", "ktory", "fak", "tory"].map(String::from).to_vec();
        }
        if r.chance(p.hostile) {
            tokens.push(HOSTILE.into());
        }
        let nu = 2 + r.below(4) as usize;
        let mut users: Vec<String> = (0..nu).map(|i| name("user", i)).collect();
        // addresses of different lengths, one the beginning of another
        if r.chance(20) {
            users[nu - 1] = if r.chance(50) { "orai1user".into() } else { format!("{}xyzxyzxyz", users[0]) };
        }
        let poor = if r.chance(40) { vec![name("poor", 0)] } else { vec![] };
        let heavy = r.chance(10);
        let protocol_fee = match r.below(8) {
            0 => 0,
            1 => 1,
            2 => 10_000_000_000,
            3 => 500_000_000_000,
            4 => 1_000_000_000_000,
            5 => 999_999_999_999,
            _ => r.below(1_000_000_000_000),
        };
        let g = Genesis { tokens: tokens.clone(), users, poor, admin: name("admin", 0), protocol_fee, rich: if heavy { 112 } else { 100 } };
        let fees = [0u64, 1, 100_000_000, 500_000_000, 3_000_000_000, 10_000_000_000, 100_000_000_000, 500_000_000_000, 999_999_999_999];
        let sps = [1u16, 2, 5, 10, 60, 100, 3, 64];
        let mut tiers: Vec<FeeTier> = vec![];
        for _ in 0..1 + r.below(3) {
            // sometimes the same fee with another spacing, or the other way round
            let fee = if !tiers.is_empty() && r.chance(40) { tiers[0].fee.get() } else { fees[r.weighted(&[3, 1, 8, 8, 10, 10, 5, 2, 1])] };
            let sp = if !tiers.is_empty() && r.chance(30) { tiers[0].tick_spacing } else { sps[r.weighted(&[6, 4, 4, 8, 3, 4, 3, 2])] };
            let sp = if r.chance(8) { 1 + r.below(100) as u16 } else { sp };
            let t = FeeTier { fee: Percentage::new(fee), tick_spacing: sp };
            if !tiers.contains(&t) {
                tiers.push(t);
            }
        }
        let mut pairs = vec![];
        for a in 0..tokens.len() {
            for b in a + 1..tokens.len() {
                pairs.push((tokens[a].clone(), tokens[b].clone()));
            }
        }
        if glued {
            pairs = vec![(tokens[0].clone(), tokens[1].clone()), (tokens[2].clone(), tokens[3].clone()), (tokens[1].clone(), tokens[2].clone())];
        }
        let lb = if heavy { 104 } else { *r.pick(&[20u32, 30, 40, 50, 60, 75, 90]) };
        let ab = if heavy { *r.pick(&[24u32, 60, 80, 92]) } else { *r.pick(&[8u32, 16, 24, 32, 40, 60]) };
        let mut w = p.w;
        // swarm testing: some kinds are switched off or pushed in a run
        for x in w.iter_mut().skip(3) {
            match r.below(6) {
                0 => *x = 0,
                1 => *x *= 4,
                _ => {}
            }
        }
        let (wide, edge, share, wild) = (r.below(100), r.below(30), r.below(80), r.below(12));
        let (around, cross) = (r.below(90), r.below(60));
        let gap = r.chance(20);
        let cliff = r.chance(7);
        let crowd = if r.below(1000) < p.mega {
            4
        } else if r.below(1000) < p.crowd { if r.chance(p.ladder) { 3 } else { 1 + r.below(3) } } else { 0 };
        if crowd == 4 {
            tiers.truncate(1);
            tiers[0].tick_spacing = 1 + r.below(3) as u16;
        }
        let rungs = if r.chance(9) { if r.chance(30) { 40 + r.below(60) } else { 8 + r.below(34) } } else { 0 };
        let party = r.chance(p.party);
        if party {
            w[9] = w[9].max(2) * 6;
            w[11] = w[11].max(1) * 6;
        }
        let (init, nr, delay, dup, drop, time) = (r.below(4), 40 + r.below(60), r.below(60), r.below(12), r.below(12), r.below(4));
        Gen {
            p: p.clone(),
            g,
            liq_bits: (if r.chance(20) { 1 } else { lb / 2 }, lb + 10),
            amt_bits: (if r.chance(50) { 1 } else { ab / 2 }, ab + 8),
            wide,
            edge,
            share,
            wild,
            tiers,
            pairs,
            init,
            around,
            cross,
            gap,
            cliff,
            crowd,
            rungs,
            party,
            follow: None,
            new_rate: nr,
            delay,
            dup,
            drop,
            w,
            mempool: vec![],
            time,
            clock: 0,
            queue: vec![],
            now: 0,
            r,
        }
    }

    fn direct(&self, from: &str, m: &ExecuteMsg, funds: Vec<(String, String)>) -> TxStep {
        TxStep { from: from.into(), to: DEX.into(), msg: dex_json(m), funds, plans: vec![], gas: None, note: String::new() }
    }

    fn user(&mut self) -> String {
        let k = self.r.below(100);
        if k < 4 && !self.g.poor.is_empty() {
            return self.g.poor[0].clone();
        }
        if k < 7 {
            return self.g.admin.clone();
        }
        if k < 9 && self.g.tokens.iter().any(|t| t == HOSTILE) {
            return HOSTILE.into();
        }
        let i = self.r.below(self.g.users.len() as u64) as usize;
        self.g.users[i].clone()
    }
    fn any_addr(&mut self) -> String {
        match self.r.below(12) {
            0 => HOLDER.into(),
            1 => PROXY.into(),
            2 if self.r.chance(15) => DEX.into(),
            3 => "orai1freshbird".into(),
            _ => self.user(),
        }
    }

    /// the first steps: tiers, pools, some liquidity
    pub fn opening(&mut self) -> Vec<Step> {
        let mut out = vec![];
        let admin = self.g.admin.clone();
        for t in self.tiers.clone() {
            out.push(Step::Tx(self.direct(&admin, &ExecuteMsg::AddFeeTier { fee_tier: t }, vec![])));
        }
        if self.crowd == 2 {
            // every pair on very many tiers
            let want = (100 + self.r.below(40)) / self.pairs.len() as u64 + 1;
            let mut k = 0;
            while (self.tiers.len() as u64) < want.max(8) && k < 500 {
                k += 1;
                let t = FeeTier { fee: Percentage::new(self.r.below(1_000_000) * 1_000), tick_spacing: 1 + self.r.below(100) as u16 };
                if !self.tiers.contains(&t) {
                    self.tiers.push(t);
                    out.push(Step::Tx(self.direct(&admin, &ExecuteMsg::AddFeeTier { fee_tier: t }, vec![])));
                }
            }
            let all: Vec<((String, String), FeeTier)> = self.pairs.iter().flat_map(|p| self.tiers.iter().map(|t| (p.clone(), *t)).collect::<Vec<_>>()).collect();
            for ((a, b), t) in all {
                if self.r.chance(97) {
                    let u = self.user();
                    let m = ExecuteMsg::CreatePool { token_0: a, token_1: b, fee_tier: t, init_sqrt_price: SqrtPrice::new(price_of_tick(0).unwrap()), init_tick: 0 };
                    out.push(Step::Tx(self.direct(&u, &m, vec![])));
                }
            }
            return out;
        }
        let n = self.pairs.len() as u64;
        let np = 1 + self.r.below(n.min(4));
        for _ in 0..np {
            if let Some(t) = self.create_pool() {
                out.push(Step::Tx(t));
            }
        }
        out.push(Step::Block { nanos: 1_000_000_000, height: 1 });
        out
    }

    /// the first liquidity of every pool, so that there is something to trade against
    pub fn seeding(&mut self, wd: &World, s: &Sim) -> Vec<Step> {
        let keys: Vec<PoolKey> = wd.pools.values().map(|(k, _)| k.clone()).collect();
        let mut out = vec![];
        if self.crowd == 1 || self.crowd == 3 {
            // one owner with hundreds of positions, or hundreds of ticks in one pool
            if let Some((k, mp)) = self.pool(wd).map(|(k, m)| (k.clone(), m.clone())) {
                let sp = k.fee_tier.tick_spacing as i32;
                let u = self.g.users[0].clone();
                let n = if self.crowd == 3 { 120 + self.r.below(200) } else { 100 + self.r.below(200) } as i32;
                let (mn, mx) = (min_tick(sp as u16), max_tick(sp as u16));
                let from = *self.r.pick(&[n / 2, n / 2, 0, n]);
                for i in 0..n {
                    let (a, b) = if self.crowd == 3 {
                        let a = mp.p.current_tick_index + sp * (i - from) * 3;
                        (a, a + sp)
                    } else {
                        (self.tick_near(&k, &mp), self.tick_near(&k, &mp))
                    };
                    let (a, b) = (a.min(b).clamp(mn, mx), a.max(b).clamp(mn, mx));
                    if a == b {
                        continue;
                    }
                    let l = 1 + self.r.logu(30);
                    let m = ExecuteMsg::CreatePosition {
                        pool_key: k.clone(),
                        lower_tick: a,
                        upper_tick: b,
                        liquidity_delta: Liquidity::new(l),
                        slippage_limit_lower: SqrtPrice::new(0),
                        slippage_limit_upper: SqrtPrice::new(u128::MAX),
                    };
                    let (x, y) = amounts(mp.p.current_tick_index, mp.p.sqrt_price.get(), l, a, b, true).map(|v| (v.0, v.1)).unwrap_or((0, 0));
                    let funds = self.native_funds(&[(k.token_x.clone(), x), (k.token_y.clone(), y)], Some(&k));
                    out.push(Step::Tx(self.direct(&u, &m, funds)));
                }
            }
        }
        if self.crowd == 4 {
            // more marked chunks than one answer of the tick map holds
            if let Some((k, mp)) = wd.pools.values().min_by_key(|(k, _)| k.fee_tier.tick_spacing).map(|(k, m)| (k.clone(), m.clone())) {
                let sp = k.fee_tier.tick_spacing as i32;
                let (mn, mx) = (min_tick(sp as u16), max_tick(sp as u16));
                let n = (815 + self.r.below(40) as i32).min((mx - mn) / sp / 130);
                for i in 0..n {
                    let (a, b) = (mn + sp * (64 * i + self.r.below(64) as i32), mx - sp * (64 * i + self.r.below(64) as i32));
                    let u = self.user();
                    let l = 1 + self.r.logu(30);
                    let m = ExecuteMsg::CreatePosition {
                        pool_key: k.clone(),
                        lower_tick: a.min(b),
                        upper_tick: a.max(b),
                        liquidity_delta: Liquidity::new(l),
                        slippage_limit_lower: SqrtPrice::new(0),
                        slippage_limit_upper: SqrtPrice::new(u128::MAX),
                    };
                    let (x, y) = amounts(mp.p.current_tick_index, mp.p.sqrt_price.get(), l, a.min(b), a.max(b), true).map(|v| (v.0, v.1)).unwrap_or((0, 0));
                    let funds = self.native_funds(&[(k.token_x.clone(), x), (k.token_y.clone(), y)], Some(&k));
                    out.push(Step::Tx(self.direct(&u, &m, funds)));
                }
            }
        }
        if self.party && self.r.chance(40) {
            let u = self.user();
            for _ in 0..12 + self.r.below(30) {
                let m = ExecuteMsg::ApproveAll { operator: Addr::unchecked(self.spender()), expires: self.expiry(s) };
                out.push(Step::Tx(self.direct(&u, &m, vec![])));
            }
        }
        if self.rungs > 0 {
            if let Some((k, mp)) = self.pool(wd).map(|(k, m)| (k.clone(), m.clone())) {
                let sp = k.fee_tier.tick_spacing as i32;
                let (mn, mx) = (min_tick(sp as u16), max_tick(sp as u16));
                let n = self.rungs as i32;
                let (from, step, wide) = (self.r.below(n as u64 + 1) as i32, 1 + self.r.below(4) as i32, 1 + self.r.below(3) as i32);
                let base = 1000 + self.r.logu(self.liq_bits.1.min(100));
                for i in 0..n {
                    let a = mp.p.current_tick_index + sp * (i - from) * step;
                    let (a, b) = (a.clamp(mn, mx), (a + sp * wide).clamp(mn, mx));
                    if a == b {
                        continue;
                    }
                    let u = self.user();
                    let l = if self.r.chance(70) { base / 2 + self.r.below(1000) as u128 * base / 1000 + 1 } else { 1 + self.r.logu(self.liq_bits.1.min(100)) };
                    let m = ExecuteMsg::CreatePosition {
                        pool_key: k.clone(),
                        lower_tick: a,
                        upper_tick: b,
                        liquidity_delta: Liquidity::new(l),
                        slippage_limit_lower: SqrtPrice::new(0),
                        slippage_limit_upper: SqrtPrice::new(u128::MAX),
                    };
                    let (x, y) = amounts(mp.p.current_tick_index, mp.p.sqrt_price.get(), l, a, b, true).map(|v| (v.0, v.1)).unwrap_or((0, 0));
                    let funds = self.native_funds(&[(k.token_x.clone(), x), (k.token_y.clone(), y)], Some(&k));
                    out.push(Step::Tx(self.direct(&u, &m, funds)));
                }
            }
        }
        for k in keys {
            if self.r.chance(10) {
                continue;
            }
            let n = 1 + self.r.below(3);
            for _ in 0..n {
                if let Some(t) = self.open_in(wd, s, Some(&k)) {
                    out.push(Step::Tx(t));
                }
            }
        }
        out
    }

    /// the last steps: what the observers look at when the run is over
    pub fn closing(&mut self) -> Vec<Step> {
        let p = self.p.clone();
        let mut out = vec![];
        for (rate, what) in [(p.lists, "lists"), (p.pools, "pools"), (p.ticks, "ticks"), (p.client, "client"), (p.drain, "drain"), (p.round, "round")] {
            if rate > 0 {
                out.push(Step::Look { what: what.into(), arg: self.r.u64() });
            }
        }
        out
    }

    fn create_pool(&mut self) -> Option<TxStep> {
        let (mut a, mut b) = self.r.pick(&self.pairs).clone();
        if self.r.chance(50) {
            std::mem::swap(&mut a, &mut b);
        }
        let tier = *self.r.pick(&self.tiers);
        let sp = tier.tick_spacing as i32;
        let (mn, mx) = (min_tick(sp as u16), max_tick(sp as u16));
        let tick = match self.init {
            _ if self.cliff => self.r.range(-230_000, -90_000) as i32,
            0 => 0,
            1 => self.r.range(-2000, 2000) as i32,
            2 => self.r.range(mn as i64, mx as i64) as i32,
            _ => {
                let d = self.r.range(0, 400) as i32 * sp;
                if self.r.chance(50) {
                    mn + d
                } else {
                    mx - d
                }
            }
        };
        let mut tick = (tick / sp * sp).clamp(mn, mx);
        if self.r.below(100) < 2 + self.wild / 2 {
            tick = *self.r.pick(&[mx, mx - sp, mn, mn + sp]);
        }
        if self.gap && self.r.chance(50) {
            // at the first or last bit of a chunk of the tick map
            let pos = (tick / sp + MAX_TICK / sp) / 64 * 64 - self.r.below(2) as i32;
            tick = ((pos - MAX_TICK / sp) * sp).clamp(mn, mx);
        }
        let lo = price_of_tick(tick).ok()?;
        let hi = price_of_tick(tick + sp).unwrap_or(lo + 1);
        let mut price = match self.r.below(3) {
            0 => lo,
            1 => lo + self.r.below128(hi - lo),
            _ => hi - 1,
        };
        let mut tk = tick;
        if self.r.chance(self.wild) {
            match self.r.below(4) {
                0 => price = hi,
                1 => price = lo.saturating_sub(1),
                2 => tk += 1,
                _ => tk += sp,
            }
        }
        let u = self.user();
        if self.r.chance(self.wild / 3) {
            b = a.clone();
        }
        let m = ExecuteMsg::CreatePool { token_0: a, token_1: b, fee_tier: tier, init_sqrt_price: SqrtPrice::new(price), init_tick: tk };
        Some(self.direct(&u, &m, vec![]))
    }

    /// next step given the current state
    pub fn next(&mut self, s: &Sim) -> Step {
        if let Some(x) = self.queue.pop() {
            return x;
        }
        self.now += 1;
        let wd = s.ch.model.clone();
        let p = self.p.clone();
        // observers and faults
        for (rate, what) in
            [(p.lists, "lists"), (p.pools, "pools"), (p.ticks, "ticks"), (p.client, "client"), (p.drain, "drain"), (p.round, "round")]
        {
            if rate > 0 && self.r.below(1000) < rate {
                return Step::Look { what: what.into(), arg: self.r.u64() };
            }
        }
        if self.r.below(1000) < p.restart {
            return Step::Restart;
        }
        if self.r.below(1000) < p.migrate {
            return Step::Migrate;
        }
        if self.r.below(1000) < p.abort {
            if let Some(tx) = self.intent(&wd, s) {
                return Step::Abort { tx, arg: self.r.u64() };
            }
        }
        self.clock += 1;
        if self.r.below(8) == 0 {
            return self.block();
        }
        // clients
        if self.r.chance(self.new_rate) || self.mempool.is_empty() {
            if let Some(mut tx) = self.intent(&wd, s) {
                if self.r.chance(self.delay) {
                    tx.note = "late".into();
                    let d = 1 + self.r.below(30);
                    if !self.r.chance(self.drop) {
                        self.mempool.push((self.clock + d, tx));
                    }
                } else {
                    return self.deliver(tx);
                }
            }
        }
        let ready: Vec<usize> = (0..self.mempool.len()).filter(|i| self.mempool[*i].0 <= self.clock).collect();
        if ready.is_empty() {
            if self.r.chance(70) {
                if let Some(tx) = self.intent(&wd, s) {
                    return self.deliver(tx);
                }
            }
            return self.block();
        }
        let i = *self.r.pick(&ready);
        let (_, tx) = self.mempool.swap_remove(i);
        self.deliver(tx)
    }

    fn deliver(&mut self, mut tx: TxStep) -> Step {
        if self.r.chance(self.dup) {
            let mut t = tx.clone();
            t.note = "dup".into();
            let d = self.r.below(12);
            self.mempool.push((self.clock + d, t));
        }
        if self.r.chance(self.p.gas) {
            tx.gas = Some(self.r.below(120));
        } else if tx.to == DEX && self.r.chance(self.p.fails) {
            let toks: Vec<String> = self.g.tokens.iter().filter(|t| is_addr(t)).cloned().chain([HOLDER.to_string()]).collect();
            let who = self.r.pick(&toks).clone();
            tx.plans.push(Plan { who, nth: 1 + self.r.below(3) as u32, act: Act::Fail });
        }
        Step::Tx(tx)
    }

    fn block(&mut self) -> Step {
        let nanos = match (self.time, self.r.below(10)) {
            (_, 0) => 0,
            (_, 1) => 1,
            (_, 2) => 999_999,
            (_, 3) => 1_000_000,
            (3, 4..=5) => self.r.below(86_400_000_000_000 * 30),
            (2, 4..=6) => self.r.below(3_600_000_000_000),
            (_, 7) => 5_000_000_000,
            _ => self.r.below(10_000_000_000),
        };
        let height = match self.r.below(100) {
            0 => 1 << self.r.below(42),
            1..=10 => 1 + self.r.below(1000),
            _ => 1,
        };
        Step::Block { nanos, height }
    }

    fn pool<'a>(&mut self, wd: &'a World) -> Option<(&'a PoolKey, &'a MPool)> {
        if wd.pools.is_empty() {
            return None;
        }
        let i = self.r.below(wd.pools.len() as u64) as usize;
        wd.pools.values().nth(i).map(|(k, p)| (k, p))
    }

    pub fn intent(&mut self, wd: &World, s: &Sim) -> Option<TxStep> {
        let mut k = self.r.weighted(&self.w);
        if self.follow.is_some() && self.r.chance(60) {
            k = 1;
        }
        let mut t = match KINDS[k] {
            "open" => self.open(wd, s),
            "swap" => self.swap(wd, s),
            "route" => self.route(wd, s),
            "claim" => self.own(wd, |i| ExecuteMsg::ClaimFee { index: i }),
            "close" => self.own(wd, |i| ExecuteMsg::RemovePosition { index: i }),
            "burn" => self.by_token(wd, s, 0),
            "give" => {
                let to = if self.r.chance(5) { "Bad Address".into() } else { self.any_addr() };
                self.own(wd, move |i| ExecuteMsg::TransferPosition { index: i, receiver: to.clone() })
            }
            "nft" => self.by_token(wd, s, 1),
            "send" => self.by_token(wd, s, 2),
            "approve" => self.by_token(wd, s, 3),
            "revoke" => self.by_token(wd, s, 4),
            "operator" => {
                let o = self.spender();
                let u = if self.r.chance(50) { self.owner(wd).unwrap_or(self.g.users[0].clone()) } else { self.user() };
                let m = if self.r.chance(65) {
                    ExecuteMsg::ApproveAll { operator: Addr::unchecked(o), expires: self.expiry(s) }
                } else {
                    // mostly an existing grant
                    let have: Vec<String> = wd.operators.keys().filter(|k| k.0 == u).map(|k| k.1.clone()).collect();
                    let o = if !have.is_empty() && self.r.chance(80) { self.r.pick(&have).clone() } else { o };
                    ExecuteMsg::RevokeAll { operator: Addr::unchecked(o) }
                };
                Some(self.direct(&u, &m, vec![]))
            }
            "withdraw" => {
                let (key, mp) = self.pool(wd)?;
                let rec = mp.p.fee_receiver.clone();
                let key = key.clone();
                let u = match self.r.below(5) {
                    0 => wd.admin.clone(),
                    1 => self.user(),
                    _ => rec,
                };
                Some(self.direct(&u, &ExecuteMsg::WithdrawProtocolFee { pool_key: key }, vec![]))
            }
            "config" => {
                let u = if self.r.chance(70) { wd.admin.clone() } else { self.user() };
                let m = match self.r.below(4) {
                    0 => ExecuteMsg::ChangeAdmin { new_admin: Addr::unchecked(self.any_addr()) },
                    1 => {
                        let f = match self.r.below(5) {
                            0 => 0,
                            1 => 1_000_000_000_000,
                            2 => 1,
                            _ => self.r.below(1_000_000_000_000),
                        };
                        ExecuteMsg::ChangeProtocolFee { protocol_fee: Percentage::new(f) }
                    }
                    _ => {
                        let key = self.pool(wd)?.0.clone();
                        ExecuteMsg::ChangeFeeReceiver { pool_key: key, fee_receiver: Addr::unchecked(self.any_addr()) }
                    }
                };
                Some(self.direct(&u, &m, vec![]))
            }
            "tier" => {
                let u = if self.r.chance(75) { wd.admin.clone() } else { self.user() };
                let t = if self.r.chance(60) {
                    *self.r.pick(&self.tiers)
                } else {
                    let sp = *self.r.pick(&[0u16, 1, 2, 50, 100, 101, 200]);
                    let fee = *self.r.pick(&[0u64, 1, 999_999_999_999, 1_000_000_000_000, 1_000_000_000_001, 30_000_000]);
                    FeeTier { fee: Percentage::new(fee), tick_spacing: sp }
                };
                let m = if wd.tiers.contains(&t) && self.r.chance(70) { ExecuteMsg::RemoveFeeTier { fee_tier: t } } else { ExecuteMsg::AddFeeTier { fee_tier: t } };
                Some(self.direct(&u, &m, vec![]))
            }
            "pool" => self.create_pool(),
            "token" => {
                // plain token traffic: allowances shrink and grow, donations to the contract
                let toks: Vec<String> = self.g.tokens.iter().filter(|t| is_addr(t)).cloned().collect();
                if toks.is_empty() {
                    return None;
                }
                let tok = self.r.pick(&toks).clone();
                let u = self.user();
                let n = 1 + self.r.below(40) as u32;
                let amount = Uint128::new(1 + self.r.logu(n));
                let m = match self.r.below(3) {
                    0 => Cw20ExecuteMsg::Transfer { recipient: DEX.into(), amount },
                    1 if !self.g.poor.is_empty() => {
                        return Some(TxStep {
                            from: self.g.poor[0].clone(),
                            to: tok,
                            msg: String::from_utf8(
                                to_binary(&Cw20ExecuteMsg::DecreaseAllowance { spender: DEX.into(), amount: Uint128::new((u128::MAX >> 1) - amount.u128()), expires: None })
                                    .unwrap()
                                    .to_vec(),
                            )
                            .unwrap(),
                            funds: vec![],
                            plans: vec![],
                            gas: None,
                            note: String::new(),
                        });
                    }
                    _ => Cw20ExecuteMsg::IncreaseAllowance { spender: DEX.into(), amount, expires: None },
                };
                Some(TxStep {
                    from: u,
                    to: tok,
                    msg: String::from_utf8(to_binary(&m).unwrap().to_vec()).unwrap(),
                    funds: vec![],
                    plans: vec![],
                    gas: None,
                    note: String::new(),
                })
            }
            _ => self.junk(wd),
        }?;
        // several calls in one transaction, by a contract
        if t.to == DEX && self.r.chance(self.p.proxy) {
            let mut calls = vec![];
            let n = 1 + self.r.below(3);
            let mk = |t: &TxStep| ProxyCall { contract: DEX.into(), msg: Binary::from(t.msg.as_bytes()), funds: crate::run::coins(&t.funds) };
            calls.push(mk(&t));
            for _ in 0..n {
                if let Some(o) = self.simple(wd, s) {
                    calls.push(mk(&o));
                }
            }
            let catch = self.r.chance(50);
            let m = ProxyMsg { calls, catch };
            t = TxStep {
                from: t.from,
                to: PROXY.into(),
                msg: String::from_utf8(to_binary(&m).unwrap().to_vec()).unwrap(),
                funds: vec![],
                plans: vec![],
                gas: None,
                note: String::new(),
            };
            if self.r.chance(30) {
                let toks: Vec<String> = self.g.tokens.iter().filter(|t| is_addr(t)).cloned().collect();
                if !toks.is_empty() {
                    t.plans.push(Plan { who: self.r.pick(&toks).clone(), nth: 1 + self.r.below(4) as u32, act: Act::Fail });
                }
            }
        }
        // hostile token or receiver reacts in the middle
        let hostile = self.g.tokens.iter().any(|t| t == HOSTILE);
        if (hostile && self.r.chance(25)) || (t.msg.contains("send_nft") && self.r.chance(60)) {
            let who = if t.msg.contains("send_nft") { HOLDER.to_string() } else { HOSTILE.to_string() };
            let nth = 1 + self.r.below(2) as u32;
            let act = if self.r.chance(25) {
                Act::Fail
            } else {
                match self.simple(wd, s) {
                    Some(o) => Act::Call { msg: o.msg.clone(), funds: crate::run::coins(&o.funds) },
                    None => Act::Fail,
                }
            };
            t.plans.push(Plan { who, nth, act });
        }
        Some(t)
    }

    /// a call meant to be made by a contract
    fn simple(&mut self, wd: &World, s: &Sim) -> Option<TxStep> {
        match self.r.below(10) {
            0..=2 => self.open(wd, s),
            3..=5 => self.swap(wd, s),
            6 => self.route(wd, s),
            7 => {
                let index = self.r.below(3) as u32;
                Some(self.direct("", &ExecuteMsg::ClaimFee { index }, vec![]))
            }
            8 => {
                let index = self.r.below(3) as u32;
                Some(self.direct("", &ExecuteMsg::RemovePosition { index }, vec![]))
            }
            _ => {
                let k = self.r.below(3);
                self.by_token(wd, s, k)
            }
        }
    }

    fn owner(&mut self, wd: &World) -> Option<String> {
        let v: Vec<&String> = wd.owners.iter().filter(|(_, p)| !p.is_empty()).map(|(o, _)| o).collect();
        if v.is_empty() {
            return None;
        }
        Some((*self.r.pick(&v)).clone())
    }
    fn own(&mut self, wd: &World, f: impl Fn(u32) -> ExecuteMsg) -> Option<TxStep> {
        let o = self.owner(wd)?;
        let n = wd.owners[&o].len() as u64;
        let wild = self.r.chance(self.wild);
        let i = if wild { n + self.r.below(2) } else { self.r.below(n) };
        let u = if self.r.chance(self.wild) || o == DEX { self.user() } else { o };
        // contracts act through the proxy path only
        if u == PROXY {
            return Some(self.via_proxy(&f(i as u32)));
        }
        Some(self.direct(&u, &f(i as u32), vec![]))
    }
    fn via_proxy(&mut self, m: &ExecuteMsg) -> TxStep {
        let u = self.g.users[0].clone();
        let call = ProxyCall { contract: DEX.into(), msg: Binary::from(dex_json(m).as_bytes()), funds: vec![] };
        TxStep {
            from: u,
            to: PROXY.into(),
            msg: String::from_utf8(to_binary(&ProxyMsg { calls: vec![call], catch: false }).unwrap().to_vec()).unwrap(),
            funds: vec![],
            plans: vec![],
            gas: None,
            note: String::new(),
        }
    }
    fn spender(&mut self) -> String {
        if self.party && self.r.chance(80) {
            return format!("orai1guest{:02}", self.r.below(40));
        }
        self.any_addr()
    }
    fn expiry(&mut self, s: &Sim) -> Option<Expiration> {
        let b = &s.ch.n.block;
        let r = &mut self.r;
        let long = self.party && r.chance(70);
        match if long { r.below(4) * 2 } else { r.below(10) } {
            0 | 1 => None,
            2 => Some(Expiration::Never {}),
            3 => Some(Expiration::AtHeight(b.height + r.below(3))),
            4 | 5 => Some(Expiration::AtHeight(b.height + r.below(20))),
            6 => Some(Expiration::AtTime(b.time.plus_nanos(r.below(3)))),
            7 => Some(Expiration::AtTime(b.time.plus_seconds(r.below(60)))),
            8 => Some(Expiration::AtTime(b.time.minus_nanos(r.below(2)))),
            _ => Some(Expiration::AtHeight(b.height.saturating_sub(r.below(2)))),
        }
    }
    fn by_token(&mut self, wd: &World, s: &Sim, what: u64) -> Option<TxStep> {
        let o = self.owner(wd)?;
        let n = wd.owners[&o].len() as u64;
        let mut i = if self.r.chance(self.wild) { n } else { self.r.below(n) };
        if self.r.chance(if self.party { 75 } else { 40 }) {
            // where approvals are, or the last one, which moves when another is taken away
            let v: Vec<u64> = (0..n).filter(|k| !wd.owners[&o][*k as usize].p.approvals.is_empty()).collect();
            i = if v.is_empty() || self.r.chance(if self.party { 15 } else { 40 }) { n - 1 } else { *self.r.pick(&v) };
        }
        let mut id = token_id(&o, i as u32);
        if self.r.chance(self.wild / 3) {
            match self.r.below(3) {
                0 => {
                    id.pop();
                }
                1 => id.truncate(4),
                _ => id[0] ^= 1,
            }
        }
        // who acts: owner, somebody approved, an operator, a stranger
        let q = wd.owners[&o].get(i as usize);
        let mut cand: Vec<String> = vec![o.clone()];
        if let Some(q) = q {
            cand.extend(q.p.approvals.iter().map(|a| a.spender.to_string()));
        }
        cand.extend(wd.operators.keys().filter(|k| k.0 == o).map(|k| k.1.clone()));
        let u = if self.r.chance(20) || o == DEX { self.user() } else { self.r.pick(&cand).clone() };
        let id = Binary::from(id);
        let m = match what {
            0 => ExecuteMsg::Burn { token_id: id },
            1 => ExecuteMsg::TransferNft { recipient: Addr::unchecked(self.any_addr()), token_id: id },
            2 => {
                let to = if self.r.chance(85) { HOLDER.to_string() } else { self.any_addr() };
                let msg = if self.r.chance(50) { Some(Binary::from(b"{}")) } else { None };
                ExecuteMsg::SendNft { contract: Addr::unchecked(to), token_id: id, msg }
            }
            _ => {
                let sp = Addr::unchecked(self.spender());
                if what == 3 {
                    ExecuteMsg::Approve { spender: sp, token_id: id, expires: self.expiry(s) }
                } else {
                    let sp = match q {
                        Some(q) if !q.p.approvals.is_empty() && self.r.chance(80) => self.r.pick(&q.p.approvals).spender.clone(),
                        _ => sp,
                    };
                    ExecuteMsg::Revoke { spender: sp, token_id: id }
                }
            }
        };
        if u == PROXY {
            return Some(self.via_proxy(&m));
        }
        Some(self.direct(&u, &m, vec![]))
    }

    fn tick_near(&mut self, key: &PoolKey, mp: &MPool) -> i32 {
        let sp = key.fee_tier.tick_spacing as i32;
        let cur = mp.p.current_tick_index;
        let (mn, mx) = (min_tick(sp as u16), max_tick(sp as u16));
        if !mp.ticks.is_empty() && self.r.chance(self.share) {
            let v: Vec<i32> = mp.ticks.keys().copied().collect();
            return *self.r.pick(&v);
        }
        if self.r.chance(self.edge) {
            return if self.r.chance(50) { mn } else { mx };
        }
        if self.gap && self.r.chance(70) {
            // from where the search starts to where it gives up, once or several times in a row
            let k = 1 + self.r.below(3) as i32;
            let (side, off) = if self.r.chance(50) { (-1, k - 1) } else { (1, 0) };
            let d = side * (256 * k + off) + self.r.range(-1, 1) as i32;
            return (cur + sp * d).clamp(mn, mx);
        }
        let far = if self.r.chance(self.wide) { 1200 } else { 20 };
        let d = match self.r.below(6) {
            0 => 0,
            1 => 1,
            2 => -1,
            // borders of the search range and of the chunks
            3 if far > 20 => *self.r.pick(&[255i64, 256, 257, -255, -256, -257, 512, -512]),
            _ => self.r.range(-far, far),
        };
        let mut t = cur + sp * d as i32;
        if self.r.chance(20) {
            let base = (t + MAX_TICK) / sp / 64 * 64;
            let t0 = (mn + MAX_TICK) / sp;
            t = mn + (base - t0 + self.r.range(-1, 1) as i32) * sp;
        }
        t.clamp(mn, mx)
    }

    fn native_funds(&mut self, need: &[(String, u128)], pool: Option<&PoolKey>) -> Vec<(String, String)> {
        let mut out: Vec<(String, u128)> = vec![];
        for (t, n) in need {
            if is_addr(t) {
                continue;
            }
            let v = match self.r.below(12) {
                0..=4 => *n,
                5..=7 => n.saturating_add(1 + self.r.below(1000) as u128),
                8 | 9 => n.saturating_mul(2).saturating_add(self.r.below128(n.saturating_add(1)) ),
                10 => n.saturating_sub(1),
                _ => n.saturating_add(1),
            };
            if v > 0 {
                out.push((t.clone(), v.min(1 << (self.g.rich - 1))));
            }
        }
        // coins of the pool that are not needed
        if let Some(k) = pool {
            if self.r.chance(25) {
                for t in [&k.token_x, &k.token_y] {
                    if !is_addr(t) && !out.iter().any(|o| o.0 == *t) {
                        out.push((t.clone(), 1 + self.r.below(100_000) as u128));
                    }
                }
            }
        }
        out.into_iter().map(|(d, a)| (d, a.to_string())).collect()
    }

    fn open(&mut self, wd: &World, s: &Sim) -> Option<TxStep> {
        self.open_in(wd, s, None)
    }
    fn open_in(&mut self, wd: &World, s: &Sim, only: Option<&PoolKey>) -> Option<TxStep> {
        let max = if self.crowd == 4 {
            1000
        } else if self.crowd == 1 || self.crowd == 3 {
            400
        } else { self.p.max_pos };
        if wd.owners.values().map(|v| v.len()).sum::<usize>() >= max {
            return self.own(wd, |i| ExecuteMsg::RemovePosition { index: i });
        }
        let (key, mp) = match only {
            Some(k) => wd.pools.get(&pkey(k)).map(|(k, p)| (k, p))?,
            None => self.pool(wd)?,
        };
        let sp = key.fee_tier.tick_spacing as i32;
        let (mut a, mut b) = (self.tick_near(key, mp), self.tick_near(key, mp));
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        // mostly around the price
        let cur = mp.p.current_tick_index;
        if (only.is_some() || self.r.chance(self.around)) && (a > cur || b <= cur) {
            let far = if self.r.chance(self.wide) { 300 } else { 12 };
            let d = sp * (1 + self.r.below(far) as i32);
            if a > cur {
                a = (cur - d).max(min_tick(sp as u16));
            } else {
                b = (cur + d).min(max_tick(sp as u16));
            }
        }
        if a == b && !self.r.chance(self.wild) {
            b = (a + sp).min(max_tick(sp as u16));
            if a == b {
                a -= sp;
            }
        }
        let mut cliff_bits = None;
        if self.cliff && self.r.chance(70) {
            match mp.ticks.range(..=cur).next_back() {
                Some((t, _)) if self.r.chance(60) && *t > min_tick(sp as u16) => {
                    b = *t;
                    a = (b - sp * (1 + self.r.below(20) as i32)).max(min_tick(sp as u16));
                    cliff_bits = Some(75 + self.r.below(25) as u32);
                }
                _ => {
                    a = (cur - sp * self.r.below(6) as i32).max(min_tick(sp as u16));
                    b = (cur + sp * (1 + self.r.below(30) as i32)).min(max_tick(sp as u16));
                    cliff_bits = Some(40 + self.r.below(35) as u32);
                }
            }
        }
        // the price rests on a tick that has been crossed downward
        if cur + sp <= max_tick(sp as u16) && price_of_tick(cur + sp) == Ok(mp.p.sqrt_price.get()) && self.r.chance(60) {
            if self.r.chance(60) {
                b = cur + sp;
                a = a.min(cur);
            } else {
                a = cur + sp;
                b = b.max(cur + 2 * sp);
            }
        }
        if self.gap && only.is_none() && (a > cur || b <= cur) {
            self.follow = Some((key.clone(), b <= cur));
        }
        let price = mp.p.sqrt_price.get();
        let bits = self.liq_bits.0 + self.r.below((self.liq_bits.1 - self.liq_bits.0).max(1) as u64) as u32;
        let mut l = match cliff_bits {
            Some(n) => (1 << n) + self.r.below128(1 << n),
            None => 1 + self.r.logu(bits),
        };
        let (mut smin, mut smax) = match self.r.below(8) {
            0 => (price, price),
            1 => (price.saturating_sub(self.r.below128(price / 100 + 1)), price + self.r.below128(price / 100 + 1)),
            2 => (0, price),
            3 => (price, u128::MAX),
            _ => (0, u128::MAX),
        };
        // right next to another position with the same liquidity: nothing changes where they meet
        let near: Vec<&oraiswap_v3::Position> = if self.r.chance(12) { wd.positions_of_pool(key).map(|q| &q.p).collect() } else { vec![] };
        if !near.is_empty() {
            let q = near[self.r.below(near.len() as u64) as usize].clone();
            l = q.liquidity.get();
            let d = sp * (1 + self.r.below(12) as i32);
            if self.r.chance(50) {
                (a, b) = (q.upper_tick_index, (q.upper_tick_index + d).min(max_tick(sp as u16)));
            } else {
                (a, b) = ((q.lower_tick_index - d).max(min_tick(sp as u16)), q.lower_tick_index);
            }
        }
        if self.r.chance(self.wild) {
            match self.r.below(7) {
                0 => l = 0,
                1 => std::mem::swap(&mut a, &mut b),
                2 => a += 1,
                3 => {
                    let m = max_liquidity_per_tick(sp as u16);
                    l = *self.r.pick(&[m, m - 1, m + 1, m / 2, u128::MAX])
                }
                4 => smin = price + 1,
                5 => smax = price - 1,
                _ => b = max_tick(sp as u16) + sp,
            }
        }
        let u = self.user();
        let m = if self.r.chance(25) {
            ExecuteMsg::Mint {
                extension: NftExtensionMsg {
                    pool_key: key.clone(),
                    lower_tick: a,
                    upper_tick: b,
                    liquidity_delta: Liquidity::new(l),
                    slippage_limit_lower: SqrtPrice::new(smin),
                    slippage_limit_upper: SqrtPrice::new(smax),
                },
            }
        } else {
            ExecuteMsg::CreatePosition {
                pool_key: key.clone(),
                lower_tick: a,
                upper_tick: b,
                liquidity_delta: Liquidity::new(l),
                slippage_limit_lower: SqrtPrice::new(smin),
                slippage_limit_upper: SqrtPrice::new(smax),
            }
        };
        let _ = s;
        let (x, y) = amounts(mp.p.current_tick_index, price, l, a, b, true).map(|v| (v.0, v.1)).unwrap_or((0, 0));
        let funds = self.native_funds(&[(key.token_x.clone(), x), (key.token_y.clone(), y)], Some(key));
        Some(self.direct(&u, &m, funds))
    }

    /// amount of input that moves the price just to `target`, by bisection on the model
    fn reach(&self, mp: &MPool, key: &PoolKey, pf: u64, down: bool, by_in: bool, target: u128) -> u128 {
        let f = |a: u128| match swap(mp, key, pf, mp.p.last_timestamp.max(mp.p.start_timestamp), down, a, by_in, World::route_limit(down)) {
            Ok(o) => (down && o.target <= target) || (!down && o.target >= target),
            Err(Why::NoGain) => false,
            Err(_) => true,
        };
        let (mut lo, mut hi) = (0u128, 1u128);
        while !f(hi) && hi < 1 << (self.g.rich - 10) {
            lo = hi;
            hi <<= 2;
        }
        while hi - lo > 1 {
            let m = lo + (hi - lo) / 2;
            if f(m) {
                hi = m
            } else {
                lo = m
            }
        }
        hi
    }

    /// mostly an amount that the pool can take
    fn fit(&mut self, mp: &MPool, key: &PoolKey, pf: u64, down: bool, by_in: bool, mut amount: u128, limit: u128) -> u128 {
        let now = mp.p.last_timestamp.max(mp.p.start_timestamp);
        let mut f = Fit::default();
        for _ in 0..30 {
            let r = swap(mp, key, pf, now, down, amount, by_in, limit).map(|_| ()).map_err(|e| e);
            if !f.next(&mut self.r, &mut amount, r) {
                break;
            }
        }
        amount
    }

    fn swap(&mut self, wd: &World, s: &Sim) -> Option<TxStep> {
        let (mut key, mut mp) = self.pool(wd)?;
        let follow = self.follow.take();
        if let Some((k, p)) = follow.as_ref().and_then(|f| wd.pools.get(&pkey(&f.0))) {
            (key, mp) = (k, p);
        }
        for _ in 0..if follow.is_some() { 0 } else { 3 } {
            if mp.p.liquidity.get() == 0 && self.r.chance(70) {
                (key, mp) = self.pool(wd)?;
            }
        }
        let sp = key.fee_tier.tick_spacing as i32;
        let mut down = self.r.chance(50);
        let by_in = self.r.chance(60);
        // mostly towards liquidity
        let below = mp.ticks.range(..=mp.p.current_tick_index).next().is_some();
        let above = mp.ticks.range(mp.p.current_tick_index + 1..).next().is_some();
        if below != above && self.r.chance(90) {
            down = below;
        }
        if let Some(f) = &follow {
            down = f.1;
        }
        let price = mp.p.sqrt_price.get();
        let bits = self.amt_bits.0 + self.r.below((self.amt_bits.1 - self.amt_bits.0).max(1) as u64) as u32;
        let mut amount = 1 + self.r.logu(bits);
        let mut limit = World::route_limit(down);
        // the ticks ahead
        let ahead: Vec<i32> = if down {
            mp.ticks.range(..=mp.p.current_tick_index).rev().map(|t| *t.0).take(6).collect()
        } else {
            mp.ticks.range(mp.p.current_tick_index + 1..).map(|t| *t.0).take(6).collect()
        };
        let crowded: Vec<i32> = if mp.ticks.len() <= 14 {
            vec![]
        } else if down {
            mp.ticks.range(..=mp.p.current_tick_index).rev().map(|t| *t.0).take(180).collect()
        } else {
            mp.ticks.range(mp.p.current_tick_index + 1..).map(|t| *t.0).take(180).collect()
        };
        let mut fit = true;
        if self.r.chance(4) {
            // to the end of the liquidity on this side or of the whole range
            fit = false;
            let a = self.reach(mp, key, wd.protocol_fee, down, by_in, if down { 0 } else { u128::MAX });
            amount = a.saturating_add(self.r.range(-2, 2) as i128 as u128).clamp(1, 1 << self.g.rich);
        } else if crowded.len() > 170 && self.r.chance(60) {
            // about as many ticks as clients follow
            fit = false;
            let i = (crowded.len() - 1).min(if self.r.chance(70) { 171 + self.r.below(3) } else { 168 + self.r.below(9) } as usize);
            amount = self.reach(mp, key, wd.protocol_fee, down, by_in, price_of_tick(crowded[i]).ok()?).saturating_add(self.r.below(3) as u128);
        } else if crowded.len() > 10 && self.r.chance(25) {
            // far along a ladder
            let i = 6 + self.r.below(crowded.len() as u64 - 6) as usize;
            amount = self.reach(mp, key, wd.protocol_fee, down, by_in, price_of_tick(crowded[i]).ok()?).saturating_add(self.r.below(3) as u128);
        } else if ahead.len() > 1 && (follow.is_some() || self.r.chance(if self.cliff { self.cross / 4 } else { self.cross })) {
            // into one of the ranges ahead
            let i = self.r.below(ahead.len() as u64 - 1) as usize;
            let a = self.reach(mp, key, wd.protocol_fee, down, by_in, price_of_tick(ahead[i]).ok()?);
            let b = self.reach(mp, key, wd.protocol_fee, down, by_in, price_of_tick(ahead[i + 1]).ok()?);
            amount = a.saturating_add(self.r.below128(b.saturating_sub(a).saturating_add(2)));
        } else if !ahead.is_empty() && self.r.chance(if self.cliff { 60 } else { 30 }) {
            fit = false;
            // stop exactly on, just before or just behind a tick
            let t = *self.r.pick(&ahead);
            let tp = price_of_tick(t).ok()?;
            let a = self.reach(mp, key, wd.protocol_fee, down, by_in, tp);
            amount = match self.r.below(4) {
                0 => a.saturating_sub(1).max(1),
                1 => a + 1,
                2 => a + 1 + self.r.below(4) as u128,
                _ => a,
            };
            let mut rest = false;
            if down && self.r.chance(50) {
                // where the price stays on the tick although it has been crossed
                for t in &ahead {
                    let tp = price_of_tick(*t).ok()?;
                    let a = self.reach(mp, key, wd.protocol_fee, down, by_in, tp);
                    for k in 0..18 {
                        let d = if k < 4 { k } else { 1u128 << (3 * (k - 3)) };
                        let now = mp.p.last_timestamp.max(mp.p.start_timestamp);
                        if let Ok(o) = swap(mp, key, wd.protocol_fee, now, down, a + d, by_in, limit) {
                            if o.target == tp && o.after.current_tick_index < *t {
                                amount = a + d;
                                rest = true;
                            }
                        }
                    }
                    if rest {
                        break;
                    }
                }
            }
            if !rest && self.r.chance(40) {
                limit = match self.r.below(4) {
                    0 => tp + 1,
                    1 => tp - 1,
                    _ => tp,
                };
            }
        } else if self.r.chance(25) {
            let t = if !ahead.is_empty() && self.r.chance(50) {
                *self.r.pick(&ahead)
            } else {
                mp.p.current_tick_index + if down { -1 } else { 1 } * sp * self.r.range(0, 300) as i32
            };
            limit = price_of_tick(t.clamp(-MAX_TICK, MAX_TICK)).ok()?;
            if self.r.chance(30) {
                limit = limit + self.r.below(3) as u128 - 1;
            }
        } else if self.r.chance(10) {
            limit = *self.r.pick(&[price, price + 1, price - 1, price / 2, price.saturating_mul(2)]);
        }
        if fit && self.r.chance(90) {
            amount = self.fit(mp, key, wd.protocol_fee, down, by_in, amount, limit);
        }
        if self.r.chance(self.wild / 2) {
            amount = *self.r.pick(&[0, 1, u64::MAX as u128, u128::MAX, 1 << 100]);
        }
        if self.r.chance(self.wild / 3) {
            limit = *self.r.pick(&[0, u128::MAX, max_price(), min_price(), max_price() + 1, min_price() - 1]);
        }
        let u = self.user();
        let m = ExecuteMsg::Swap {
            pool_key: key.clone(),
            x_to_y: down,
            amount: TokenAmount(amount),
            by_amount_in: by_in,
            sqrt_price_limit: SqrtPrice::new(limit),
        };
        let ti = if down { &key.token_x } else { &key.token_y };
        let mut need = amount;
        if !by_in {
            let now = s.ch.n.block.time.nanos() / 1_000_000;
            need = swap(mp, key, wd.protocol_fee, now, down, amount, by_in, limit).map(|o| o.amount_in).unwrap_or(amount);
        }
        let funds = self.native_funds(&[(ti.clone(), need)], Some(key));
        Some(self.direct(&u, &m, funds))
    }

    fn route(&mut self, wd: &World, s: &Sim) -> Option<TxStep> {
        if wd.pools.is_empty() {
            return None;
        }
        let keys: Vec<PoolKey> = wd.pools.values().map(|(k, _)| k.clone()).collect();
        let n = match self.r.below(10) {
            0 => 1,
            1..=5 => 2,
            6..=7 => 3,
            8 => 4,
            _ if self.r.chance(60) => 5 + self.r.below(4),
            _ if self.r.chance(30) => 9 + self.r.below(20),
            _ => 0,
        };
        let mut hops: Vec<SwapHop> = vec![];
        let mut at: Option<String> = None;
        for _ in 0..n {
            let c: Vec<&PoolKey> = match &at {
                None => keys.iter().collect(),
                Some(t) => keys.iter().filter(|k| k.token_x == *t || k.token_y == *t).collect(),
            };
            if c.is_empty() {
                break;
            }
            let k = (*self.r.pick(&c)).clone();
            let down = match &at {
                None => self.r.chance(50),
                Some(t) => k.token_x == *t,
            };
            at = Some(if down { k.token_y.clone() } else { k.token_x.clone() });
            hops.push(SwapHop { pool_key: k, x_to_y: down });
        }
        if !hops.is_empty() && self.r.chance(self.wild / 2) {
            let i = self.r.below(hops.len() as u64) as usize;
            hops[i].x_to_y ^= true;
        }
        let bits = self.amt_bits.0 + self.r.below((self.amt_bits.1 - self.amt_bits.0).max(1) as u64) as u32;
        let mut amount = if self.r.chance(self.wild / 4) { 0 } else { 1 + self.r.logu(bits) };
        let now = s.ch.n.block.time.nanos() / 1_000_000;
        if amount > 0 && self.r.chance(90) {
            let mut f = Fit::default();
            for _ in 0..30 {
                let q = wd.quote_route(now, amount, &hops).map(|_| ());
                if !f.next(&mut self.r, &mut amount, q) {
                    break;
                }
            }
        }
        let out = wd.quote_route(now, amount, &hops).unwrap_or(0);
        let slip = *self.r.pick(&[0u64, 1, 10_000_000_000, 10_000_000_000, 500_000_000_000, 1_000_000_000_000]);
        let expected = match self.r.below(6) {
            0 => 0,
            1 => out,
            2 => out + 1,
            3 => out - self.r.below128(out / 10 + 1),
            4 => {
                // around the minimum
                let k = 1_000_000_000_000 - slip as u128;
                if k == 0 {
                    out
                } else {
                    (w(out) * w(E12) / w(k)).min(w(1 << 120)).as_u128() + self.r.below(3) as u128
                }
            }
            _ => out.saturating_add(self.r.below128(out / 50 + 2)),
        };
        let slip = if self.r.chance(self.wild / 4) { 1_000_000_000_001 } else { slip };
        let u = self.user();
        let m = ExecuteMsg::SwapRoute {
            amount_in: TokenAmount(amount),
            expected_amount_out: TokenAmount(expected),
            slippage: Percentage::new(slip),
            swaps: hops.clone(),
        };
        // native coins have to be attached for every hop
        let mut need: Vec<(String, u128)> = vec![];
        let mut w2 = wd.clone();
        let mut a = amount;
        for h in &hops {
            let t = if h.x_to_y { &h.pool_key.token_x } else { &h.pool_key.token_y };
            match need.iter_mut().find(|e| e.0 == *t) {
                Some(e) => e.1 = e.1.saturating_add(a),
                None => need.push((t.clone(), a)),
            }
            a = w2.step_quote(now, h, a).unwrap_or(0);
        }
        let funds = self.native_funds(&need, hops.first().map(|h| &h.pool_key));
        Some(self.direct(&u, &m, funds))
    }

    fn junk(&mut self, wd: &World) -> Option<TxStep> {
        let u = self.user();
        let key = match self.pool(wd) {
            Some((k, _)) => k.clone(),
            None => return None,
        };
        // keys that name no pool: tokens swapped, other tier, other token
        let mut k = key.clone();
        match self.r.below(4) {
            0 => std::mem::swap(&mut k.token_x, &mut k.token_y),
            1 => k.fee_tier.tick_spacing = k.fee_tier.tick_spacing % 100 + 1,
            2 => k.fee_tier.fee = Percentage::new(k.fee_tier.fee.get() ^ 1),
            _ => k.token_y = "orai1notatoken".into(),
        }
        let sp = k.fee_tier.tick_spacing as i32;
        let m = match self.r.below(5) {
            0 => ExecuteMsg::Swap {
                pool_key: k,
                x_to_y: true,
                amount: TokenAmount(1000),
                by_amount_in: true,
                sqrt_price_limit: SqrtPrice::new(min_price()),
            },
            1 => ExecuteMsg::CreatePosition {
                pool_key: k,
                lower_tick: -sp,
                upper_tick: sp,
                liquidity_delta: Liquidity::new(1_000_000),
                slippage_limit_lower: SqrtPrice::new(0),
                slippage_limit_upper: SqrtPrice::new(u128::MAX),
            },
            2 => ExecuteMsg::WithdrawProtocolFee { pool_key: k },
            3 => ExecuteMsg::ChangeFeeReceiver { pool_key: k, fee_receiver: Addr::unchecked(u.clone()) },
            _ => ExecuteMsg::SwapRoute {
                amount_in: TokenAmount(1000),
                expected_amount_out: TokenAmount(0),
                slippage: Percentage::new(0),
                swaps: vec![SwapHop { pool_key: key, x_to_y: true }, SwapHop { pool_key: k, x_to_y: true }],
            },
        };
        let mut funds = vec![];
        for t in self.g.tokens.clone() {
            if !is_addr(&t) && self.r.chance(50) {
                funds.push((t, "5000".to_string()));
            }
        }
        let _: Vec<Coin> = vec![];
        Some(self.direct(&u, &m, funds))
    }
}
