//! Step-by-step refinement check: after every call of the exchange (nested ones included) the answer,
//! the token movements and the whole state as seen through the public queries are compared with the
//! reference model. Differences are attributed to the properties they break.
use crate::chain::{is_addr, Chain, Fail, DEX};
use crate::model::{net_of, Ctx, Effects, MPool, MPos, Move, Why, World};
use crate::num::U512;
use cosmwasm_std::{from_slice, Addr, BankMsg, Binary, CosmosMsg, Env, MessageInfo, ReplyOn, Response, WasmMsg};
use cw20::{Cw20ExecuteMsg, Expiration};
use decimal::Decimal;
use oraiswap_v3::interface::ApprovedForAllResponse;
use oraiswap_v3::msg::{ExecuteMsg, QueryMsg};
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::{FeeTier, Pool, PoolKey, Position, Tick};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

/// Set of properties, bit n = property Cn.
pub type Props = u64;
pub const fn c(ns: &[u8]) -> Props {
    let mut m = 0;
    let mut i = 0;
    while i < ns.len() {
        m |= 1 << ns[i];
        i += 1;
    }
    m
}
pub fn props_text(p: Props) -> String {
    (0..64).filter(|i| p >> i & 1 == 1).map(|i| format!("C{i:02}")).collect::<Vec<_>>().join("+")
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub props: Props,
    /// short stable name of what failed (used to keep a minimised trace on the same failure)
    pub kind: String,
    pub detail: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum ObsKey {
    Admin,
    Fee,
    Tiers,
    Pool(u32),
    Tick(u32, i32),
    Init(u32, i32),
    Count(u32),
    Pos(u32, u32),
}
#[derive(Clone, Debug)]
pub enum ObsVal {
    None(String),
    Text(String),
    Num(u64),
    Tiers(Vec<FeeTier>),
    Pool(Pool),
    Tick(Tick),
    Pos(Position),
}
#[derive(Default, Clone)]
pub struct ObsCache {
    pools: Vec<PoolKey>,
    pool_ids: HashMap<Vec<u8>, u32>,
    owners: Vec<String>,
    owner_ids: HashMap<String, u32>,
    cache: HashMap<ObsKey, (u64, Vec<Vec<u8>>, Rc<ObsVal>)>,
    /// ticks seen at any time, per pool
    ever: HashMap<u32, BTreeSet<i32>>,
    pub desync: bool,
    pub compared: u64,
    pub hits: u64,
    pub oks: [u64; 24],
    pub errs: BTreeMap<String, u64>,
}
impl ObsCache {
    fn pid(&mut self, k: &PoolKey) -> u32 {
        let b = crate::model::pkey(k);
        if let Some(i) = self.pool_ids.get(&b) {
            return *i;
        }
        let i = self.pools.len() as u32;
        self.pools.push(k.clone());
        self.pool_ids.insert(b, i);
        i
    }
    fn oid(&mut self, o: &str) -> u32 {
        if let Some(i) = self.owner_ids.get(o) {
            return *i;
        }
        let i = self.owners.len() as u32;
        self.owners.push(o.to_string());
        self.owner_ids.insert(o.to_string(), i);
        i
    }
}

fn fetch(ch: &mut Chain, k: ObsKey) -> Rc<ObsVal> {
    ch.obs.compared += 1;
    if let Some((ver, keys, v)) = ch.obs.cache.get(&k) {
        if keys.iter().all(|x| ch.key_version(x) <= *ver) {
            ch.obs.hits += 1;
            return v.clone();
        }
    }
    fn go<T: serde::de::DeserializeOwned>(ch: &Chain, q: QueryMsg, f: impl Fn(T) -> ObsVal) -> (ObsVal, crate::chain::Reads) {
        let (r, reads) = ch.query_reads::<T>(&q);
        (
            match r {
                Ok(v) => f(v),
                Err(e) => ObsVal::None(e),
            },
            reads,
        )
    }
    let (v, reads) = match k {
        ObsKey::Admin => go(ch, QueryMsg::Admin {}, |a: Addr| ObsVal::Text(a.to_string())),
        ObsKey::Fee => go(ch, QueryMsg::ProtocolFee {}, |p: Percentage| ObsVal::Num(p.get())),
        ObsKey::Tiers => go(ch, QueryMsg::FeeTiers {}, ObsVal::Tiers),
        ObsKey::Pool(i) => {
            let p = ch.obs.pools[i as usize].clone();
            go(ch, QueryMsg::Pool { token_0: p.token_x, token_1: p.token_y, fee_tier: p.fee_tier }, ObsVal::Pool)
        }
        ObsKey::Tick(i, t) => {
            let p = ch.obs.pools[i as usize].clone();
            go(ch, QueryMsg::Tick { key: p, index: t }, ObsVal::Tick)
        }
        ObsKey::Init(i, t) => {
            let p = ch.obs.pools[i as usize].clone();
            go(ch, QueryMsg::IsTickInitialized { key: p, index: t }, |b: bool| ObsVal::Num(b as u64))
        }
        ObsKey::Count(o) => {
            let a = Addr::unchecked(ch.obs.owners[o as usize].clone());
            go(ch, QueryMsg::UserPositionAmount { owner: a }, |n: u32| ObsVal::Num(n as u64))
        }
        ObsKey::Pos(o, i) => {
            let a = Addr::unchecked(ch.obs.owners[o as usize].clone());
            go(ch, QueryMsg::Position { owner_id: a, index: i }, ObsVal::Pos)
        }
    };
    let v = Rc::new(v);
    if !reads.ranged && !reads.keys.is_empty() {
        let ver = ch.ver;
        ch.obs.cache.insert(k, (ver, reads.keys, v.clone()));
    } else {
        ch.obs.cache.remove(&k);
    }
    v
}

/// Kind of message, for attribution and statistics.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Config,
    Tier,
    CreatePool,
    Withdraw,
    Open,
    Swap,
    Route,
    Transfer,
    Claim,
    Close,
    Burn,
    Grant,
}
pub fn op_of(m: &ExecuteMsg) -> Op {
    use ExecuteMsg::*;
    match m {
        ChangeAdmin { .. } | ChangeProtocolFee { .. } | ChangeFeeReceiver { .. } => Op::Config,
        AddFeeTier { .. } | RemoveFeeTier { .. } => Op::Tier,
        CreatePool { .. } => Op::CreatePool,
        WithdrawProtocolFee { .. } => Op::Withdraw,
        CreatePosition { .. } | Mint { .. } => Op::Open,
        Swap { .. } => Op::Swap,
        SwapRoute { .. } => Op::Route,
        TransferPosition { .. } | TransferNft { .. } | SendNft { .. } => Op::Transfer,
        ClaimFee { .. } => Op::Claim,
        RemovePosition { .. } => Op::Close,
        Burn { .. } => Op::Burn,
        Approve { .. } | Revoke { .. } | ApproveAll { .. } | RevokeAll { .. } => Op::Grant,
    }
}
pub fn op_name(m: &ExecuteMsg) -> String {
    let s = format!("{m:?}");
    s.split([' ', '{', '(']).next().unwrap_or("").to_string()
}

struct Diff {
    props: Props,
    kind: &'static str,
    text: String,
}

/// a is ahead of b on the counter modulo 2^128
fn more(a: u128, b: u128) -> bool {
    a != b && a.wrapping_sub(b) >> 127 == 0
}

fn diff_pool(op: Op, touched: bool, name: &str, m: &Pool, r: &Pool, out: &mut Vec<Diff>) {
    let other = if touched { 0 } else { c(&[18]) };
    let mut d = |p: Props, kind: &'static str, t: String| out.push(Diff { props: p | other, kind, text: format!("pool {name}: {t}") });
    let swap = matches!(op, Op::Swap | Op::Route);
    if m.liquidity != r.liquidity {
        d(c(&[6]) | if swap { c(&[4]) } else { 0 }, "pool.liquidity", format!("liquidity {} should be {}", r.liquidity, m.liquidity));
    }
    if m.sqrt_price != r.sqrt_price {
        let p = if swap {
            c(&[4])
        } else if op == Op::CreatePool {
            c(&[13])
        } else {
            c(&[17])
        };
        d(p, "pool.price", format!("price {} should be {}", r.sqrt_price.get(), m.sqrt_price.get()));
    }
    if m.current_tick_index != r.current_tick_index {
        let p = if swap {
            c(&[4, 6])
        } else if op == Op::CreatePool {
            c(&[13, 6])
        } else {
            c(&[17, 6])
        };
        d(p, "pool.tick", format!("tick {} should be {}", r.current_tick_index, m.current_tick_index));
    }
    if m.fee_growth_global_x != r.fee_growth_global_x || m.fee_growth_global_y != r.fee_growth_global_y {
        // credited more than was earned: claims without tokens behind them
        let over = more(r.fee_growth_global_x.get(), m.fee_growth_global_x.get()) || more(r.fee_growth_global_y.get(), m.fee_growth_global_y.get());
        // both shares wrong: another fee has been charged
        let both = swap && (m.fee_protocol_token_x != r.fee_protocol_token_x || m.fee_protocol_token_y != r.fee_protocol_token_y);
        d(
            c(&[7]) | if swap { c(&[8]) } else { 0 } | if over { c(&[1]) } else { 0 } | if both { c(&[4]) } else { 0 },
            "pool.fee_growth",
            format!(
                "fee growth {}/{} should be {}/{}",
                r.fee_growth_global_x.get(),
                r.fee_growth_global_y.get(),
                m.fee_growth_global_x.get(),
                m.fee_growth_global_y.get()
            ),
        );
    }
    if m.fee_protocol_token_x != r.fee_protocol_token_x || m.fee_protocol_token_y != r.fee_protocol_token_y {
        let over = r.fee_protocol_token_x > m.fee_protocol_token_x || r.fee_protocol_token_y > m.fee_protocol_token_y;
        d(
            c(&[8]) | if over { c(&[1]) } else { 0 },
            "pool.protocol_fee",
            format!(
                "protocol fees {}/{} should be {}/{}",
                r.fee_protocol_token_x, r.fee_protocol_token_y, m.fee_protocol_token_x, m.fee_protocol_token_y
            ),
        );
    }
    if m.fee_receiver != r.fee_receiver {
        d(c(&[10]), "pool.receiver", format!("fee receiver {} should be {}", r.fee_receiver, m.fee_receiver));
    }
    if m.start_timestamp != r.start_timestamp || m.last_timestamp != r.last_timestamp {
        d(
            c(&[20]),
            "pool.time",
            format!("times {}/{} should be {}/{}", r.start_timestamp, r.last_timestamp, m.start_timestamp, m.last_timestamp),
        );
    }
}

fn diff_tick(touched: bool, name: &str, m: &Tick, r: &Tick, out: &mut Vec<Diff>) {
    let other = if touched { 0 } else { c(&[18]) };
    let i = m.index;
    let mut d =
        |p: Props, kind: &'static str, t: String| out.push(Diff { props: p | other, kind, text: format!("pool {name} tick {i}: {t}") });
    if m.index != r.index || m.sqrt_price != r.sqrt_price {
        d(c(&[6, 14]), "tick.price", format!("index/price {}/{} should be {}", r.index, r.sqrt_price.get(), m.sqrt_price.get()));
    }
    if m.liquidity_gross != r.liquidity_gross || net_of(m) != net_of(r) {
        d(
            c(&[6]),
            "tick.liquidity",
            format!("gross/net {}/{} should be {}/{}", r.liquidity_gross, net_of(r), m.liquidity_gross, net_of(m)),
        );
    }
    if m.fee_growth_outside_x != r.fee_growth_outside_x || m.fee_growth_outside_y != r.fee_growth_outside_y {
        d(
            c(&[7]),
            "tick.outside",
            format!(
                "fee growth outside {}/{} should be {}/{}",
                r.fee_growth_outside_x.get(),
                r.fee_growth_outside_y.get(),
                m.fee_growth_outside_x.get(),
                m.fee_growth_outside_y.get()
            ),
        );
    }
    if m.seconds_outside != r.seconds_outside {
        d(c(&[20]), "tick.seconds", format!("seconds outside {} should be {}", r.seconds_outside, m.seconds_outside));
    }
}

fn diff_pos(op: Op, acted: bool, name: &str, m: &Position, r: &Position, out: &mut Vec<Diff>) {
    // a transfer moves the position with all its contents except the approvals, and an approval changes nothing else
    let other = if acted { 0 } else { c(&[12]) };
    let moved = if matches!(op, Op::Transfer | Op::Grant) { c(&[12]) } else { 0 };
    let mut d = |p: Props, kind: &'static str, t: String| out.push(Diff { props: p | other, kind, text: format!("position {name}: {t}") });
    if m.pool_key != r.pool_key
        || m.liquidity != r.liquidity
        || m.lower_tick_index != r.lower_tick_index
        || m.upper_tick_index != r.upper_tick_index
    {
        d(
            c(&[12]),
            "pos.identity",
            format!(
                "{}..{} liquidity {} should be {}..{} liquidity {}",
                r.lower_tick_index, r.upper_tick_index, r.liquidity, m.lower_tick_index, m.upper_tick_index, m.liquidity
            ),
        );
    }
    if m.fee_growth_inside_x != r.fee_growth_inside_x || m.fee_growth_inside_y != r.fee_growth_inside_y {
        let over = more(m.fee_growth_inside_x.get(), r.fee_growth_inside_x.get()) || more(m.fee_growth_inside_y.get(), r.fee_growth_inside_y.get());
        d(
            c(&[7]) | moved | if over { c(&[1]) } else { 0 },
            "pos.inside",
            format!(
                "fee growth inside {}/{} should be {}/{}",
                r.fee_growth_inside_x.get(),
                r.fee_growth_inside_y.get(),
                m.fee_growth_inside_x.get(),
                m.fee_growth_inside_y.get()
            ),
        );
    }
    if m.tokens_owed_x != r.tokens_owed_x || m.tokens_owed_y != r.tokens_owed_y {
        let over = r.tokens_owed_x > m.tokens_owed_x || r.tokens_owed_y > m.tokens_owed_y;
        d(
            c(&[7]) | moved | if over { c(&[1]) } else { 0 },
            "pos.owed",
            format!("owed {}/{} should be {}/{}", r.tokens_owed_x, r.tokens_owed_y, m.tokens_owed_x, m.tokens_owed_y),
        );
    }
    let set = |p: &Position| p.approvals.iter().map(|a| (a.spender.to_string(), format!("{:?}", a.expires))).collect::<BTreeSet<_>>();
    if set(m) != set(r) {
        d(c(&[11]), "pos.approvals", format!("approvals {:?} should be {:?}", r.approvals, m.approvals));
    }
    if m.last_block_number != r.last_block_number {
        d(c(&[20]) | moved, "pos.block", format!("block {} should be {}", r.last_block_number, m.last_block_number));
    }
}

/// Compares the observable state with `wd`. `fx` tells what the call was entitled to touch.
fn compare(ch: &mut Chain, wd: &World, before: &World, op: Op, touched: &[Vec<u8>], acted: &dyn Fn(&str, u32) -> bool) -> Vec<Diff> {
    let mut out = vec![];
    let text = |v: &ObsVal| format!("{v:?}");
    let v = fetch(ch, ObsKey::Admin);
    if !matches!(&*v, ObsVal::Text(a) if *a == wd.admin) {
        out.push(Diff { props: c(&[10]), kind: "admin", text: format!("admin {} should be {}", text(&v), wd.admin) });
    }
    let v = fetch(ch, ObsKey::Fee);
    if !matches!(&*v, ObsVal::Num(a) if *a == wd.protocol_fee) {
        out.push(Diff { props: c(&[10]), kind: "protocol fee", text: format!("protocol fee {} should be {}", text(&v), wd.protocol_fee) });
    }
    let v = fetch(ch, ObsKey::Tiers);
    let same = match &*v {
        ObsVal::Tiers(t) => t.len() == wd.tiers.len() && wd.tiers.iter().all(|x| t.contains(x)),
        _ => false,
    };
    if !same {
        out.push(Diff { props: c(&[10, 13]), kind: "tiers", text: format!("fee tiers {} should be {:?}", text(&v), wd.tiers) });
    }
    for (kb, (key, mp)) in &wd.pools {
        let id = ch.obs.pid(key);
        let t = touched.contains(kb);
        let name = pool_name(key);
        let v = fetch(ch, ObsKey::Pool(id));
        match &*v {
            ObsVal::Pool(r) => diff_pool(op, t, &name, &mp.p, r, &mut out),
            o => out.push(Diff { props: c(&[13]), kind: "pool missing", text: format!("pool {name}: {}", text(o)) }),
        }
        let mut ever = ch.obs.ever.remove(&id).unwrap_or_default();
        ever.extend(mp.ticks.keys());
        let other = if t { 0 } else { c(&[18]) };
        for &i in &ever {
            let v = fetch(ch, ObsKey::Tick(id, i));
            match (mp.ticks.get(&i), &*v) {
                (Some(m), ObsVal::Tick(r)) => {
                    let n = out.len();
                    diff_tick(t, &name, m, r, &mut out);
                    // a swap that left a crossed tick as it was has not done all its parts
                    if out.len() > n && matches!(op, Op::Swap | Op::Route) {
                        if let Some(b) = before.pools.get(kb).and_then(|(_, p)| p.ticks.get(&i)) {
                            if b == r {
                                out[n..].iter_mut().for_each(|d| d.props |= c(&[3]));
                            }
                        }
                    }
                }
                (None, ObsVal::None(_)) => {}
                (m, r) => out.push(Diff {
                    props: c(&[6, 14]) | other,
                    kind: "tick existence",
                    text: format!("pool {name} tick {i}: {} should {}exist", text(r), if m.is_some() { "" } else { "not " }),
                }),
            }
            let v = fetch(ch, ObsKey::Init(id, i));
            let want = mp.ticks.contains_key(&i) as u64;
            if !matches!(&*v, ObsVal::Num(n) if *n == want) {
                out.push(Diff {
                    props: c(&[6, 14]) | other,
                    kind: "tick mark",
                    text: format!("pool {name} tick {i}: mark {} should be {want}", text(&v)),
                });
            }
        }
        ch.obs.ever.insert(id, ever);
    }
    for (o, ps) in &wd.owners {
        let oid = ch.obs.oid(o);
        let v = fetch(ch, ObsKey::Count(oid));
        if !matches!(&*v, ObsVal::Num(n) if *n == ps.len() as u64) {
            out.push(Diff { props: c(&[12]), kind: "position count", text: format!("{o} has {} positions, should have {}", text(&v), ps.len()) });
        }
        for (i, m) in ps.iter().enumerate() {
            let i = i as u32;
            let v = fetch(ch, ObsKey::Pos(oid, i));
            match &*v {
                ObsVal::Pos(r) => {
                    let n = out.len();
                    diff_pos(op, acted(o, i), &format!("{o}#{i}"), &m.p, r, &mut out);
                    // a position of a pool that this call has nothing to do with
                    if !touched.is_empty() && !touched.contains(&crate::model::pkey(&m.p.pool_key)) {
                        out[n..].iter_mut().for_each(|d| d.props |= c(&[18]));
                    }
                }
                r => out.push(Diff { props: c(&[12]), kind: "position missing", text: format!("{o}#{i}: {}", text(r)) }),
            }
        }
        let v = fetch(ch, ObsKey::Pos(oid, ps.len() as u32));
        if !matches!(&*v, ObsVal::None(_)) {
            out.push(Diff { props: c(&[12]), kind: "position extra", text: format!("{o}#{} exists", ps.len()) });
        }
    }
    out
}

pub fn pool_name(k: &PoolKey) -> String {
    format!("{}/{}/{}/{}", k.token_x, k.token_y, k.fee_tier.fee.get(), k.fee_tier.tick_spacing)
}

/// Rebuilds the model from what the queries show (after a difference was recorded), so that the run can
/// go on looking for violations of other properties.
fn resync(ch: &mut Chain, wd: &mut World) {
    ch.obs.desync = true;
    if let ObsVal::Text(a) = &*fetch(ch, ObsKey::Admin) {
        wd.admin = a.clone();
    }
    if let ObsVal::Num(a) = &*fetch(ch, ObsKey::Fee) {
        wd.protocol_fee = *a;
    }
    if let ObsVal::Tiers(a) = &*fetch(ch, ObsKey::Tiers) {
        wd.tiers = a.clone();
    }
    for key in ch.obs.pools.clone() {
        let id = ch.obs.pid(&key);
        match &*fetch(ch, ObsKey::Pool(id)) {
            ObsVal::Pool(r) => {
                let mut ticks = BTreeMap::new();
                for i in ch.obs.ever.get(&id).cloned().unwrap_or_default() {
                    if let ObsVal::Tick(t) = &*fetch(ch, ObsKey::Tick(id, i)) {
                        ticks.insert(i, *t);
                    }
                }
                wd.pools.insert(crate::model::pkey(&key), (key.clone(), MPool { p: r.clone(), ticks }));
            }
            _ => {
                wd.pools.remove(&crate::model::pkey(&key));
            }
        }
    }
    let names: Vec<String> = ch.obs.owners.iter().cloned().chain(wd.owners.keys().cloned()).collect::<BTreeSet<_>>().into_iter().collect();
    for o in names {
        let oid = ch.obs.oid(&o);
        let n = match &*fetch(ch, ObsKey::Count(oid)) {
            ObsVal::Num(n) => *n as u32,
            _ => 0,
        };
        let mut v = vec![];
        for i in 0..n.min(10_000) {
            if let ObsVal::Pos(p) = &*fetch(ch, ObsKey::Pos(oid, i)) {
                wd.next_uid += 1;
                v.push(MPos { p: p.clone(), uid: wd.next_uid, earned_x: U512::zero(), earned_y: U512::zero(), accruals: 0 });
            }
        }
        wd.owners.insert(o, v);
    }
}

/// Operators of `owner` as the paged query shows them.
pub fn operators(ch: &Chain, owner: &str, include_expired: bool, page: u32) -> Result<Vec<(String, Expiration)>, String> {
    let mut out: Vec<(String, Expiration)> = vec![];
    let mut after: Option<Addr> = None;
    for _ in 0..200 {
        let r: ApprovedForAllResponse = ch.query(&QueryMsg::ApprovedForAll {
            owner: Addr::unchecked(owner),
            include_expired: Some(include_expired),
            start_after: after.clone(),
            limit: Some(page),
        })?;
        if r.operators.is_empty() {
            break;
        }
        after = Some(r.operators.last().unwrap().spender.clone());
        out.extend(r.operators.into_iter().map(|a| (a.spender.to_string(), a.expires)));
    }
    Ok(out)
}

/// Net token flow of a set of messages, seen from each party other than the contract.
pub type Flow = BTreeMap<(String, String), i128>;
fn add(f: &mut Flow, who: &str, token: &str, v: i128) {
    let e = f.entry((who.to_string(), token.to_string())).or_insert(0);
    *e += v;
    if *e == 0 {
        f.remove(&(who.to_string(), token.to_string()));
    }
}
fn flow_of_response(r: &Response) -> (Flow, Option<(String, Binary)>, Option<String>) {
    let mut f = Flow::new();
    let mut nft = None;
    let mut odd = None;
    for s in &r.messages {
        if s.reply_on != ReplyOn::Never {
            odd = Some(format!("sub-message with reply_on {:?}", s.reply_on));
        }
        match &s.msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                for x in amount {
                    add(&mut f, to_address, &x.denom, x.amount.u128() as i128);
                }
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                if !funds.is_empty() {
                    odd = Some("coins attached to a sub-call".into());
                }
                match from_slice::<Cw20ExecuteMsg>(msg.as_slice()) {
                    Ok(Cw20ExecuteMsg::Transfer { recipient, amount }) => add(&mut f, &recipient, contract_addr, amount.u128() as i128),
                    Ok(Cw20ExecuteMsg::TransferFrom { owner, recipient, amount }) => {
                        add(&mut f, &owner, contract_addr, -(amount.u128() as i128));
                        if recipient != DEX {
                            add(&mut f, &recipient, contract_addr, amount.u128() as i128);
                        }
                    }
                    _ => nft = Some((contract_addr.clone(), msg.clone())),
                }
            }
            m => odd = Some(format!("unexpected message {m:?}")),
        }
    }
    (f, nft, odd)
}
pub fn flow_of_model(fx: &Effects, sender: &str) -> Flow {
    let mut f = Flow::new();
    for m in &fx.moves {
        match m {
            Move::Pull { token, amount } => add(&mut f, sender, token, -(*amount as i128)),
            Move::Pay { token, to, amount } => add(&mut f, to, token, *amount as i128),
        }
    }
    f
}

/// What a receipt has to say.
#[derive(Debug)]
enum Told {
    Text(String),
    /// a number with that many decimal places
    Dec(u128, u32),
}
fn read_decimal(t: &str, scale: u32) -> Option<u128> {
    let (a, b) = t.split_once('.').unwrap_or((t, ""));
    let mut v = a.parse::<u128>().ok()?;
    let mut b = b.chars();
    for _ in 0..scale {
        v = v.checked_mul(10)?.checked_add(b.next().unwrap_or('0').to_digit(10)? as u128)?;
    }
    // digits beyond the scale say nothing
    if b.all(|c| c == '0') {
        Some(v)
    } else {
        None
    }
}
fn receipt(msg: &ExecuteMsg, sender: &str, fx: &Effects, before: &World) -> Vec<(&'static str, Told)> {
    use Told::*;
    let t = |s: &str| Text(s.to_string());
    let position = |owner: &str, k: &PoolKey, l: u128, lo: i32, up: i32, action: &str| {
        vec![
            ("action", t(action)),
            ("address", t(owner)),
            ("liquidity", Dec(l, 6)),
            ("lower_tick", t(&lo.to_string())),
            ("upper_tick", t(&up.to_string())),
            ("current_sqrt_price", Dec(before.pool(k).map_or(0, |p| p.p.sqrt_price.get()), 24)),
        ]
    };
    let closing = |owner: &str, i: u32| match before.owners.get(owner).and_then(|v| v.get(i as usize)) {
        Some(q) => position(owner, &q.p.pool_key, q.p.liquidity.get(), q.p.lower_tick_index, q.p.upper_tick_index, "remove_position"),
        None => vec![],
    };
    match msg {
        ExecuteMsg::ChangeAdmin { new_admin } => vec![("action", t("change_admin")), ("new_admin", t(new_admin.as_str()))],
        ExecuteMsg::WithdrawProtocolFee { .. } => vec![("action", t("withdraw_protocol_fee"))],
        ExecuteMsg::ChangeProtocolFee { .. } => vec![("action", t("change_protocol_fee"))],
        ExecuteMsg::ChangeFeeReceiver { .. } => vec![("action", t("change_fee_receiver"))],
        ExecuteMsg::CreatePool { .. } => vec![("action", t("create_pool"))],
        ExecuteMsg::AddFeeTier { .. } => vec![("action", t("add_fee_tier"))],
        ExecuteMsg::RemoveFeeTier { .. } => vec![("action", t("remove_fee_tier"))],
        ExecuteMsg::TransferPosition { .. } => vec![("action", t("transfer_position"))],
        ExecuteMsg::CreatePosition { pool_key, lower_tick, upper_tick, liquidity_delta, .. } => {
            position(sender, pool_key, liquidity_delta.get(), *lower_tick, *upper_tick, "create_position")
        }
        ExecuteMsg::Mint { extension: e } => position(sender, &e.pool_key, e.liquidity_delta.get(), e.lower_tick, e.upper_tick, "create_position"),
        ExecuteMsg::RemovePosition { index } => closing(sender, *index),
        ExecuteMsg::Burn { token_id } => match crate::model::split_token_id(token_id) {
            Some((o, i)) => closing(&o, i),
            None => vec![],
        },
        ExecuteMsg::Swap { .. } => match fx.swaps.first() {
            Some(o) => vec![("action", t("swap")), ("amount_in", Dec(o.amount_in, 0)), ("amount_out", Dec(o.amount_out, 0))],
            None => vec![],
        },
        ExecuteMsg::SwapRoute { .. } => match fx.route_out {
            Some(o) => vec![("action", t("swap_route")), ("amount_out", Dec(o, 0))],
            None => vec![],
        },
        ExecuteMsg::ClaimFee { .. } => match &fx.claimed {
            Some(p) => vec![("action", t("claim_fee")), ("amount_x", Dec(p.x, 0)), ("amount_y", Dec(p.y, 0))],
            None => vec![],
        },
        ExecuteMsg::Approve { spender, .. } => vec![("action", t("approve")), ("sender", t(sender)), ("spender", t(spender.as_str()))],
        ExecuteMsg::Revoke { spender, .. } => vec![("action", t("revoke")), ("sender", t(sender)), ("spender", t(spender.as_str()))],
        ExecuteMsg::ApproveAll { operator, .. } => vec![("action", t("approve_all")), ("sender", t(sender)), ("operator", t(operator.as_str()))],
        ExecuteMsg::RevokeAll { operator } => vec![("action", t("revoke_all")), ("sender", t(sender)), ("operator", t(operator.as_str()))],
        ExecuteMsg::TransferNft { recipient, .. } => vec![("action", t("transfer_nft")), ("sender", t(sender)), ("recipient", t(recipient.as_str()))],
        ExecuteMsg::SendNft { contract, .. } => vec![("action", t("send_nft")), ("sender", t(sender)), ("recipient", t(contract.as_str()))],
        #[allow(unreachable_patterns)]
        _ => vec![],
    }
}

fn accepted(op: Op, why: Why) -> Props {
    use Why::*;
    let p = match why {
        NotAdmin | NotReceiver => c(&[10]),
        NotAllowed | Expired => c(&[11]),
        NoPosition => c(&[12, 11]),
        // the call can only have acted on some other pool
        NoPool => c(&[13, 18]),
        BadPool => c(&[13]),
        BadTier => c(&[13]),
        BadRange | TooMuchLiquidity => c(&[17, 6]),
        ZeroLiquidity => c(&[17, 12]),
        Slippage => c(&[5]),
        ZeroAmount | WrongLimit => c(&[5]),
        LimitReached | NoLiquidity | NoGain => c(&[5, 4]),
        MinOut => c(&[5, 3]),
        Funds => c(&[2, 1]),
        Overflow => match op {
            Op::Swap | Op::Route => c(&[4]),
            Op::Open => c(&[17]),
            _ => c(&[19]),
        },
        BadAddress => c(&[12]),
    };
    if op == Op::Route {
        p | c(&[3])
    } else {
        p
    }
}
fn refused(op: Op) -> Props {
    match op {
        Op::Config => c(&[10]),
        Op::Tier => c(&[10, 13]),
        Op::CreatePool => c(&[13]),
        Op::Withdraw => c(&[8, 10]),
        Op::Open => c(&[17, 12]),
        Op::Swap | Op::Route => c(&[4]),
        Op::Transfer => c(&[11, 12]),
        Op::Claim => c(&[19, 7]),
        Op::Close => c(&[19, 17]),
        Op::Burn => c(&[11, 12]),
        Op::Grant => c(&[11]),
    }
}

pub fn after_call(ch: &mut Chain, env: &Env, info: &MessageInfo, msg: &ExecuteMsg, res: Result<&Response, Fail>) {
    let op = op_of(msg);
    let mut wd = (*ch.model).clone();
    let sender = info.sender.as_str();
    let cx = Ctx { block: &env.block, sender, funds: &info.funds, is_addr: &is_addr };
    let before = ch.model.clone();
    let pred = wd.apply(&cx, msg);
    match (res, pred) {
        (Err(_), Err(why)) => {
            *ch.obs.errs.entry(format!("{} refused {why:?}", op_name(msg))).or_insert(0) += 1;
        }
        (Err(e), Ok(_)) => {
            let mut p = refused(op);
            // refusing at a price that is within the caller's bounds
            if let Some((key, lo, up)) = open_bounds(msg) {
                if let Ok(mp) = before.pool(&key) {
                    if lo > 0 && mp.p.sqrt_price.get() == lo || mp.p.sqrt_price.get() == up {
                        p |= c(&[5]);
                    }
                }
            }
            // a pool stays usable when its tier is no longer listed
            if pools_of(msg, sender, &before).iter().any(|k| !before.tiers.contains(&k.fee_tier)) {
                p |= c(&[13]);
            }
            let e = format!("{e:?}");
            // enough was attached or allowed
            if matches!(op, Op::Open | Op::Swap | Op::Route) && e.to_lowercase().contains("fund") {
                p |= c(&[2]);
            }
            if let ExecuteMsg::Burn { token_id } = msg {
                if matches!(crate::model::split_token_id(token_id), Some((o, _)) if o == sender) {
                    p |= c(&[19]);
                }
            }
            if e.contains("panic") && e.contains("overflow") && matches!(op, Op::Swap | Op::Route) {
                p |= c(&[4]);
            }
            ch.viol.push(Violation { props: p, kind: format!("refused {op:?}"), detail: format!("{} by {sender} refused: {e}", brief(msg)) });
        }
        (Ok(_), Err(why)) => {
            ch.viol.push(Violation {
                props: accepted(op, why),
                kind: format!("accepted {op:?} {why:?}"),
                detail: format!("{} by {sender} must be refused ({why:?}) but succeeded", brief(msg)),
            });
            let mut wd = (*before).clone();
            // let a new pool or owner be seen
            for o in [sender.to_string()] {
                ch.obs.oid(&o);
            }
            resync(ch, &mut wd);
            ch.model = Rc::new(wd);
            ch.fx.push(Effects::default());
        }
        (Ok(resp), Ok(fx)) => {
            ch.obs.oks[op as usize] += 1;
            *ch.obs.errs.entry(format!("{} ok", op_name(msg))).or_insert(0) += 1;
            let mut out = vec![];
            // ---- token movements
            let (real, nft, odd) = flow_of_response(resp);
            let want = flow_of_model(&fx, sender);
            if let Some(t) = odd {
                out.push(Diff { props: c(&[3, 2]), kind: "odd message", text: t });
            }
            if real != want {
                let mut p = match op {
                    Op::Swap | Op::Route => c(&[2, 4]),
                    Op::Open => c(&[2, 17]),
                    Op::Close | Op::Burn => c(&[2, 17, 7]),
                    Op::Claim => c(&[2, 7]),
                    Op::Withdraw => c(&[2, 8]),
                    _ => c(&[2]),
                };
                let wrong_party = real.keys().any(|(w, _)| !want.keys().any(|(v, _)| v == w));
                if wrong_party {
                    p |= match op {
                        Op::Close | Op::Burn | Op::Claim => c(&[11]),
                        Op::Withdraw => c(&[10]),
                        _ => 0,
                    };
                }
                if want.keys().any(|k| !real.contains_key(k)) {
                    p |= c(&[3]);
                }
                // paid out more or taken in less than the rules allow
                if real.iter().any(|(k, v)| *v > want.get(k).copied().unwrap_or(0)) || want.iter().any(|(k, v)| *v < 0 && !real.contains_key(k)) {
                    p |= c(&[1]);
                }
                out.push(Diff { props: p, kind: "token movements", text: format!("moves {real:?}, should move {want:?}") });
            }
            match (&fx.nft_call, &nft) {
                (None, None) => {}
                (Some((to, id)), Some((rto, m))) if to == rto && nft_msg_ok(m, sender, id, msg) => {}
                (w, r) => out.push(Diff { props: c(&[12, 3]), kind: "receiver call", text: format!("receiver call {r:?} should be {w:?}") }),
            }
            // ---- receipt
            for (k, w) in receipt(msg, sender, &fx, &before) {
                let got: Vec<&str> = resp.attributes.iter().filter(|a| a.key == k).map(|a| a.value.as_str()).collect();
                let ok = got.len() == 1
                    && match &w {
                        Told::Text(t) => got[0] == t,
                        Told::Dec(v, scale) => read_decimal(got[0], *scale) == Some(*v),
                    };
                if !ok {
                    out.push(Diff { props: c(&[21]), kind: "receipt", text: format!("reports {k} {got:?}, should be {w:?}") });
                }
            }
            // ---- state
            let target = acted_on(msg, sender, &before, &wd);
            let acted = move |o: &str, i: u32| target.iter().any(|(a, b)| a == o && *b == i);
            out.extend(compare(ch, &wd, &before, op, &fx.touched_pools, &acted));
            if let ExecuteMsg::ApproveAll { .. } | ExecuteMsg::RevokeAll { .. } = msg {
                let got = operators(ch, sender, true, 30).unwrap_or_default();
                let g: BTreeMap<String, String> = got.iter().map(|(a, e)| (a.clone(), format!("{e:?}"))).collect();
                let m: BTreeMap<String, String> =
                    wd.operators.iter().filter(|((o, _), _)| o == sender).map(|((_, a), e)| (a.clone(), format!("{e:?}"))).collect();
                if g != m {
                    out.push(Diff { props: c(&[11]), kind: "operators", text: format!("operators {g:?} should be {m:?}") });
                }
            }
            if !out.is_empty() {
                for d in out {
                    ch.viol.push(Violation {
                        props: d.props,
                        kind: format!("{op:?} {}", d.kind),
                        detail: format!("after {} by {sender}: {}", brief(msg), d.text),
                    });
                }
                resync(ch, &mut wd);
            }
            ch.model = Rc::new(wd);
            ch.fx.push(fx);
        }
    }
}

fn open_bounds(m: &ExecuteMsg) -> Option<(PoolKey, u128, u128)> {
    match m {
        ExecuteMsg::CreatePosition { pool_key, slippage_limit_lower, slippage_limit_upper, .. } => {
            Some((pool_key.clone(), slippage_limit_lower.get(), slippage_limit_upper.get()))
        }
        ExecuteMsg::Mint { extension: x } => Some((x.pool_key.clone(), x.slippage_limit_lower.get(), x.slippage_limit_upper.get())),
        _ => None,
    }
}
fn pools_of(m: &ExecuteMsg, sender: &str, wd: &World) -> Vec<PoolKey> {
    match m {
        ExecuteMsg::CreatePosition { pool_key, .. } | ExecuteMsg::Swap { pool_key, .. } | ExecuteMsg::WithdrawProtocolFee { pool_key } => vec![pool_key.clone()],
        ExecuteMsg::Mint { extension: x } => vec![x.pool_key.clone()],
        ExecuteMsg::SwapRoute { swaps, .. } => swaps.iter().map(|h| h.pool_key.clone()).collect(),
        ExecuteMsg::RemovePosition { index } | ExecuteMsg::ClaimFee { index } => {
            wd.owners.get(sender).and_then(|v| v.get(*index as usize)).map(|p| vec![p.p.pool_key.clone()]).unwrap_or_default()
        }
        _ => vec![],
    }
}
fn nft_msg_ok(m: &Binary, sender: &str, id: &[u8], call: &ExecuteMsg) -> bool {
    #[derive(serde::Deserialize)]
    struct Inner {
        sender: String,
        token_id: Binary,
        msg: Option<Binary>,
    }
    #[derive(serde::Deserialize)]
    enum Outer {
        #[serde(rename = "receive_nft")]
        R(Inner),
    }
    let want = match call {
        ExecuteMsg::SendNft { msg, .. } => msg.clone(),
        _ => None,
    };
    match from_slice::<Outer>(m.as_slice()) {
        Ok(Outer::R(i)) => i.sender == sender && i.token_id.as_slice() == id && i.msg == want,
        Err(_) => false,
    }
}

/// Positions (after the call) that the call is about.
fn acted_on(msg: &ExecuteMsg, sender: &str, before: &World, after: &World) -> Vec<(String, u32)> {
    use ExecuteMsg::*;
    let last = |o: &str| (o.to_string(), after.owners.get(o).map(|v| v.len() as u32).unwrap_or(1).saturating_sub(1));
    let _ = before;
    match msg {
        CreatePosition { .. } | Mint { .. } => vec![last(sender)],
        ClaimFee { index } => vec![(sender.into(), *index)],
        TransferPosition { receiver, .. } => vec![last(receiver)],
        TransferNft { recipient, .. } => vec![last(recipient.as_str())],
        SendNft { contract, .. } => vec![last(contract.as_str())],
        Approve { token_id, .. } | Revoke { token_id, .. } => crate::model::split_token_id(token_id).into_iter().collect(),
        _ => vec![],
    }
}

pub fn brief(m: &ExecuteMsg) -> String {
    let mut s = serde_json::to_string(m).unwrap_or_default();
    if s.len() > 400 {
        s.truncate(400);
    }
    s
}

/// Full comparison outside of a call (after restarts, migrations, queries).
pub fn compare_now(ch: &mut Chain, props: Props, what: &str) {
    let wd = ch.model.clone();
    let d = compare(ch, &wd, &wd, Op::Config, &[], &|_, _| false);
    for x in d {
        ch.viol.push(Violation { props, kind: format!("{what} {}", x.kind), detail: format!("{what}: {}", x.text) });
    }
}
