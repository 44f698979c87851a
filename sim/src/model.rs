//! Executable reference model of the exchange: own arithmetic on 512-bit integers over plain data.
//! One call of the contract = one function from (world, block, sender, funds, message) to either an
//! error class or the next world and the token movements.
use crate::num::*;
use cosmwasm_std::{Addr, BlockInfo, Coin};
use cw20::Expiration;
use decimal::Decimal;
use oraiswap_v3::fee_growth::FeeGrowth;
use oraiswap_v3::interface::{Approval, SwapHop};
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::msg::ExecuteMsg;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::{FeeTier, Pool, PoolKey, Position, Tick};
use std::collections::BTreeMap;

pub const MAX_TICK: i32 = 221_818;
pub const SEARCH: i32 = 256;
pub const E24: u128 = 1_000_000_000_000_000_000_000_000;
pub const E12: u128 = 1_000_000_000_000;

/// Why the model refuses a call.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Why {
    NotAdmin,
    NotReceiver,
    NotAllowed,   // approvals / operators
    Expired,      // granting an already expired approval
    NoPosition,
    NoPool,
    BadPool,      // creation arguments, duplicates
    BadTier,
    BadRange,     // ticks of a position
    ZeroLiquidity,
    TooMuchLiquidity,
    Slippage,     // position bounds
    ZeroAmount,
    WrongLimit,
    LimitReached,
    NoLiquidity,  // tick limit reached
    NoGain,
    MinOut,
    Funds,
    Overflow,     // arithmetic range
    BadAddress,
}

pub type R<T> = Result<T, Why>;

/// own identity of a pool (the contract's storage key is not trusted)
pub fn pkey(k: &PoolKey) -> Vec<u8> {
    format!("{}\u{0}{}\u{0}{}\u{0}{}", k.token_x, k.token_y, k.fee_tier.fee.get(), k.fee_tier.tick_spacing).into_bytes()
}

#[derive(Clone, Debug, PartialEq)]
pub struct MPool {
    pub p: Pool,
    pub ticks: BTreeMap<i32, Tick>,
}

/// A position plus a name that follows it through transfers and renumbering, and the fees it is
/// entitled to by direct accounting (scaled by 2^64), independent of the fee-growth machinery.
#[derive(Clone, Debug)]
pub struct MPos {
    pub p: Position,
    pub uid: u64,
    pub earned_x: U512,
    pub earned_y: U512,
    pub accruals: u64,
}

#[derive(Clone, Debug, Default)]
pub struct World {
    pub admin: String,
    pub protocol_fee: u64,
    pub tiers: Vec<FeeTier>,
    pub pools: BTreeMap<Vec<u8>, (PoolKey, MPool)>,
    pub owners: BTreeMap<String, Vec<MPos>>,
    pub operators: BTreeMap<(String, String), Expiration>,
    pub next_uid: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Move {
    /// taken from the caller by CW20 allowance
    Pull { token: String, amount: u128 },
    /// paid out by the contract (CW20 transfer or bank send)
    Pay { token: String, to: String, amount: u128 },
}

/// One linear piece of a swap.
#[derive(Clone, Debug)]
pub struct Piece {
    pub tick: i32,
    pub liquidity: u128,
    pub pool_fee: u128,
    pub in_x: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Effects {
    pub moves: Vec<Move>,
    /// native coins the call keeps
    pub kept: Vec<(String, u128)>,
    pub nft_call: Option<(String, Vec<u8>)>,
    pub swaps: Vec<SwapOut>,
    pub route_out: Option<u128>,
    pub claimed: Option<Payout>,
    pub touched_pools: Vec<Vec<u8>>,
    /// owner paid / position affected
    pub principal: Option<(u128, u128)>,
}

#[derive(Clone, Debug)]
pub struct Payout {
    pub x: u128,
    pub y: u128,
    pub earned_x: U512,
    pub earned_y: U512,
    pub accruals: u64,
    pub liquidity: u128,
    pub uid: u64,
}

#[derive(Clone, Debug)]
pub struct SwapOut {
    pub pool: Vec<u8>,
    pub x_to_y: bool,
    pub amount_in: u128,
    pub amount_out: u128,
    pub fee: u128,
    pub start: u128,
    pub target: u128,
    pub crossed: Vec<Tick>,
    pub pieces: Vec<Piece>,
    pub steps: u32,
    pub after: Pool,
}

// ---------------------------------------------------------------- arithmetic

const STEP_PRICES: [u128; 18] = [
    1000049998750,
    1000100000000,
    1000200010000,
    1000400060004,
    1000800280056,
    1001601200560,
    1003204964963,
    1006420201726,
    1012881622442,
    1025929181080,
    1052530684591,
    1107820842005,
    1227267017980,
    1506184333421,
    2268591246242,
    5146506242525,
    26486526504348,
    701536086265529,
];

pub fn price_of_tick(tick: i32) -> R<u128> {
    let t = tick.unsigned_abs();
    if t > MAX_TICK as u32 {
        return Err(Why::Overflow);
    }
    let mut v: u128 = E12;
    for (i, f) in STEP_PRICES.iter().enumerate() {
        if t & (1 << i) != 0 {
            v = v * f / E12;
        }
    }
    if tick < 0 {
        v = E12 * E12 / v;
    }
    Ok(v * E12)
}

pub fn max_tick(sp: u16) -> i32 {
    MAX_TICK / sp as i32 * sp as i32
}
pub fn min_tick(sp: u16) -> i32 {
    -max_tick(sp)
}
pub fn max_price() -> u128 {
    price_of_tick(MAX_TICK).unwrap()
}
pub fn min_price() -> u128 {
    price_of_tick(-MAX_TICK).unwrap()
}

thread_local! {
    static PRICES: Vec<u128> = (-MAX_TICK..=MAX_TICK).map(|t| price_of_tick(t).unwrap()).collect();
}

/// largest multiple of the spacing whose price is not above `p`
pub fn tick_of_price(p: u128, spacing: u16) -> R<i32> {
    if p > max_price() || p < min_price() {
        return Err(Why::Overflow);
    }
    let t = PRICES.with(|v| v.partition_point(|x| *x <= p) as i32 - 1 - MAX_TICK);
    Ok(t.div_euclid(spacing as i32) * spacing as i32)
}

pub fn delta_x(a: u128, b: u128, l: u128, up: bool) -> R<u128> {
    let d = a.max(b) - a.min(b);
    let num = w(d) * w(l) / pow10(6);
    let prod = w(a) * w(b);
    let r = if up {
        let den = prod / w(E24);
        if den.is_zero() {
            return Err(Why::Overflow);
        }
        let q = ceil_div(num * w(E24), den);
        if q.bits() > 256 {
            return Err(Why::Overflow);
        }
        ceil_div(q, w(E24))
    } else {
        let den = ceil_div(prod, w(E24));
        if den.is_zero() {
            return Err(Why::Overflow);
        }
        let q = num * w(E24) / den;
        if q.bits() > 256 {
            return Err(Why::Overflow);
        }
        q / w(E24)
    };
    to_u128(r).ok_or(Why::Overflow)
}

pub fn delta_y(a: u128, b: u128, l: u128, up: bool) -> R<u128> {
    let d = a.max(b) - a.min(b);
    let r = if up {
        ceil_div(ceil_div(w(d) * w(l), pow10(6)), w(E24))
    } else {
        w(d) * w(l) / pow10(6) / w(E24)
    };
    to_u128(r).ok_or(Why::Overflow)
}

/// price after `x` is added to / taken from the pool, rounded up
fn next_price_x(p: u128, l: u128, x: u128, add: bool) -> R<u128> {
    if x == 0 {
        return Ok(p);
    }
    let base = w(l) * pow10(18);
    let dx = w(p) * w(x);
    let den = if add {
        base + dx
    } else {
        base.checked_sub(dx).ok_or(Why::Overflow)?
    };
    if den.is_zero() || den.bits() > 256 {
        return Err(Why::Overflow);
    }
    let num = ceil_div(w(p) * w(l), pow10(6));
    to_u128(ceil_div(num * w(E24), den)).ok_or(Why::Overflow)
}

/// price after `y` is added (rounded down) / taken (rounded down)
fn next_price_y(p: u128, l: u128, y: u128, add: bool) -> R<u128> {
    let num = w(y) * pow10(24);
    let den = w(l) * pow10(18);
    if add {
        let n = num * w(E24);
        if n.bits() > 256 {
            return Err(Why::Overflow);
        }
        let q = to_u128(n / den).ok_or(Why::Overflow)?;
        p.checked_add(q).ok_or(Why::Overflow)
    } else {
        let q = to_u128(ceil_div(num * w(E24), den)).ok_or(Why::Overflow)?;
        p.checked_sub(q).ok_or(Why::Overflow)
    }
}

fn after_fee(amount: u128, fee: u64) -> R<u128> {
    let rest = E12.checked_sub(fee as u128).ok_or(Why::Overflow)?;
    to_u128(w(amount) * w(rest) / w(E12)).ok_or(Why::Overflow)
}
pub fn mul_pct_up(amount: u128, pct: u64) -> R<u128> {
    to_u128(ceil_div(w(amount) * w(pct as u128), w(E12))).ok_or(Why::Overflow)
}

pub struct Step {
    pub next: u128,
    pub ain: u128,
    pub aout: u128,
    pub fee: u128,
}

pub fn swap_step(cur: u128, target: u128, l: u128, amount: u128, by_in: bool, fee: u64) -> R<Step> {
    if l == 0 {
        return Ok(Step { next: target, ain: 0, aout: 0, fee: 0 });
    }
    let down = cur >= target;
    let net = after_fee(amount, fee)?;
    let next = if by_in {
        let need = if down { delta_x(target, cur, l, true)? } else { delta_y(cur, target, l, true)? };
        if net >= need {
            target
        } else if down {
            // the need is rounded up, so a little less can be enough to get there
            next_price_x(cur, l, net, true)?.max(target)
        } else {
            next_price_y(cur, l, net, true)?
        }
    } else {
        let avail = if down { delta_y(target, cur, l, false)? } else { delta_x(cur, target, l, false)? };
        if amount >= avail {
            target
        } else if down {
            next_price_y(cur, l, amount, false)?
        } else {
            next_price_x(cur, l, amount, false)?
        }
    };
    let (mut ain, mut aout) = if down {
        (delta_x(next, cur, l, true)?, delta_y(next, cur, l, false)?)
    } else {
        (delta_y(cur, next, l, true)?, delta_x(cur, next, l, false)?)
    };
    if by_in {
        ain = ain.min(net);
    }
    if !by_in && aout > amount {
        aout = amount;
    }
    let fee = if by_in && next != target {
        amount.checked_sub(ain).ok_or(Why::Overflow)?
    } else {
        mul_pct_up(ain, fee)?
    };
    Ok(Step { next, ain, aout, fee })
}

fn enough(amount: u128, p: u128, l: u128, fee: u64, by_in: bool, down: bool) -> R<bool> {
    if l == 0 {
        return Ok(true);
    }
    if !by_in {
        // taking out anything moves the price
        return Ok(amount != 0);
    }
    let net = after_fee(amount, fee)?;
    let n = if down { next_price_x(p, l, net, true) } else { next_price_y(p, l, net, true) };
    // an amount beyond the price range certainly moves the price
    Ok(n.map(|n| n != p).unwrap_or(true))
}

pub fn add_fee(pool: &mut Pool, amount: u128, in_x: bool, pf: u64) -> R<u128> {
    let prot = mul_pct_up(amount, pf)?;
    let rest = amount.checked_sub(prot).ok_or(Why::Overflow)?;
    let l = pool.liquidity.get();
    if amount == 0 || l == 0 {
        return Ok(0);
    }
    let prod = w(rest) * pow10(34);
    if prod.bits() > 256 {
        return Err(Why::Overflow);
    }
    let g = to_u128(prod / w(l)).ok_or(Why::Overflow)?;
    if in_x {
        pool.fee_growth_global_x = FeeGrowth::new(pool.fee_growth_global_x.get().wrapping_add(g));
        pool.fee_protocol_token_x =
            TokenAmount(pool.fee_protocol_token_x.0.checked_add(prot).ok_or(Why::Overflow)?);
    } else {
        pool.fee_growth_global_y = FeeGrowth::new(pool.fee_growth_global_y.get().wrapping_add(g));
        pool.fee_protocol_token_y =
            TokenAmount(pool.fee_protocol_token_y.0.checked_add(prot).ok_or(Why::Overflow)?);
    }
    Ok(rest)
}

pub fn net_of(t: &Tick) -> i128 {
    let v = t.liquidity_change.get() as i128;
    if t.sign {
        v
    } else {
        -v
    }
}
fn set_net(t: &mut Tick, v: i128) {
    t.sign = v >= 0;
    t.liquidity_change = Liquidity::new(v.unsigned_abs());
}

fn search_limit(tick: i32, sp: u16, up: bool) -> i32 {
    let i = tick / sp as i32;
    let m = MAX_TICK / sp as i32;
    (if up { (i + SEARCH).min(m) } else { (i - SEARCH).max(-m) }) * sp as i32
}

/// Next stop of the price: (price, Some(tick, initialized)) or the caller's limit.
fn next_stop(ticks: &BTreeMap<i32, Tick>, limit: u128, down: bool, cur: i32, sp: u16) -> R<(u128, Option<(i32, bool)>)> {
    let edge = search_limit(cur, sp, !down);
    let found = if down {
        ticks.range(edge..=cur).next_back().map(|(i, _)| *i)
    } else if cur + sp as i32 > MAX_TICK || cur + sp as i32 > edge {
        None
    } else {
        ticks.range(cur + sp as i32..=edge).next().map(|(i, _)| *i)
    };
    let (idx, init) = match found {
        Some(i) => (i, true),
        None => {
            if cur == edge {
                return Err(Why::NoLiquidity);
            }
            (edge, false)
        }
    };
    let p = price_of_tick(idx)?;
    // going up, a limit exactly on a tick reaches (and therefore crosses) that tick
    if (down && p > limit) || (!down && p <= limit) {
        Ok((p, Some((idx, init))))
    } else {
        Ok((limit, None))
    }
}

/// The whole swap on one pool; pure.
pub fn swap(mp: &MPool, key: &PoolKey, pf: u64, now: u64, down: bool, amount: u128, by_in: bool, limit: u128) -> R<SwapOut> {
    if amount == 0 {
        return Err(Why::ZeroAmount);
    }
    let mut pool = mp.p.clone();
    let sp = key.fee_tier.tick_spacing;
    let fee = key.fee_tier.fee.get();
    let start = pool.sqrt_price.get();
    if down {
        if start <= limit || limit > max_price() {
            return Err(Why::WrongLimit);
        }
    } else if start >= limit || limit < min_price() {
        return Err(Why::WrongLimit);
    }
    let edge = if down { min_tick(sp) } else { max_tick(sp) };
    let mut rem = amount;
    let (mut tin, mut tout, mut tfee) = (0u128, 0u128, 0u128);
    let mut crossed: Vec<Tick> = vec![];
    let mut ticks = mp.ticks.clone();
    let mut pieces = vec![];
    let mut steps = 0;
    while rem != 0 {
        steps += 1;
        let (stop, at) = next_stop(&ticks, limit, down, pool.current_tick_index, sp)?;
        let l = pool.liquidity.get();
        let s = swap_step(pool.sqrt_price.get(), stop, l, rem, by_in, fee)?;
        let gross = s.ain.checked_add(s.fee).ok_or(Why::Overflow)?;
        rem = rem.checked_sub(if by_in { gross } else { s.aout }).ok_or(Why::Overflow)?;
        let lp = add_fee(&mut pool, s.fee, down, pf)?;
        if lp > 0 {
            pieces.push(Piece { tick: pool.current_tick_index, liquidity: l, pool_fee: lp, in_x: down });
        }
        tfee = tfee.checked_add(s.fee).ok_or(Why::Overflow)?;
        pool.sqrt_price = SqrtPrice::new(s.next);
        tin = tin.checked_add(gross).ok_or(Why::Overflow)?;
        tout = tout.checked_add(s.aout).ok_or(Why::Overflow)?;
        if s.next == limit && rem != 0 {
            return Err(Why::LimitReached);
        }
        match at {
            Some((idx, init)) if s.next == stop => {
                let e = enough(rem, s.next, l, fee, by_in, down)?;
                if init {
                    if !down || e {
                        let t = ticks.get_mut(&idx).unwrap();
                        t.fee_growth_outside_x = FeeGrowth::new(
                            pool.fee_growth_global_x.get().wrapping_sub(t.fee_growth_outside_x.get()),
                        );
                        t.fee_growth_outside_y = FeeGrowth::new(
                            pool.fee_growth_global_y.get().wrapping_sub(t.fee_growth_outside_y.get()),
                        );
                        let passed = now.checked_sub(pool.start_timestamp).ok_or(Why::Overflow)?;
                        t.seconds_outside = passed.wrapping_sub(t.seconds_outside);
                        pool.last_timestamp = now;
                        let net = if down { -net_of(t) } else { net_of(t) };
                        let nl = if net >= 0 {
                            l.checked_add(net as u128)
                        } else {
                            l.checked_sub(net.unsigned_abs())
                        };
                        pool.liquidity = Liquidity::new(nl.ok_or(Why::Overflow)?);
                        crossed.push(*t);
                    } else if rem != 0 {
                        if by_in {
                            let lp = add_fee(&mut pool, rem, down, pf)?;
                            if lp > 0 {
                                // the price stays on this tick, which is not crossed
                                pieces.push(Piece { tick: idx, liquidity: l, pool_fee: lp, in_x: down });
                            }
                            tin = tin.checked_add(rem).ok_or(Why::Overflow)?;
                        }
                        rem = 0;
                    }
                }
                pool.current_tick_index = if down && e { idx - sp as i32 } else { idx };
            }
            _ => {
                let c = tick_of_price(s.next, sp)?;
                // a price that has not left the tick it crossed downward belongs to the range below
                pool.current_tick_index = if down { c.min(pool.current_tick_index) } else { c };
            }
        }
        let c = pool.current_tick_index;
        if (down && c <= edge) || (!down && c >= edge) {
            return Err(Why::NoLiquidity);
        }
    }
    if tout == 0 {
        return Err(Why::NoGain);
    }
    Ok(SwapOut {
        pool: pkey(&key),
        x_to_y: down,
        amount_in: tin,
        amount_out: tout,
        fee: tfee,
        start,
        target: pool.sqrt_price.get(),
        crossed,
        pieces,
        steps,
        after: pool,
    })
}

pub fn growth_inside(lo: &Tick, up: &Tick, cur: i32, gx: u128, gy: u128) -> (u128, u128) {
    let f = |g: u128, l: u128, u: u128| {
        let below = if cur >= lo.index { l } else { g.wrapping_sub(l) };
        let above = if cur < up.index { u } else { g.wrapping_sub(u) };
        g.wrapping_sub(below).wrapping_sub(above)
    };
    (
        f(gx, lo.fee_growth_outside_x.get(), up.fee_growth_outside_x.get()),
        f(gy, lo.fee_growth_outside_y.get(), up.fee_growth_outside_y.get()),
    )
}

pub fn growth_to_fee(g: u128, l: u128) -> R<u128> {
    to_u128(w(g) * w(l) / pow10(34)).ok_or(Why::Overflow)
}

/// token amounts of `l` between two ticks at the pool's price; third: is it active
pub fn amounts(cur: i32, price: u128, l: u128, lo: i32, up: i32, ceil: bool) -> R<(u128, u128, bool)> {
    if up < lo {
        return Err(Why::BadRange);
    }
    let (pl, pu) = (price_of_tick(lo)?, price_of_tick(up)?);
    if cur < lo {
        Ok((delta_x(pl, pu, l, ceil)?, 0, false))
    } else if cur < up {
        Ok((delta_x(price, pu, l, ceil)?, delta_y(pl, price, l, ceil)?, true))
    } else {
        Ok((0, delta_y(pl, pu, l, ceil)?, false))
    }
}

pub fn max_liquidity_per_tick(sp: u16) -> u128 {
    u128::MAX / ((2 * MAX_TICK as u128 + 1) / sp as u128)
}

pub fn price_matches_tick(tick: i32, sp: u16, price: u128) -> R<bool> {
    if tick + sp as i32 > MAX_TICK {
        Ok(price == price_of_tick(max_tick(sp))?)
    } else {
        Ok(price >= price_of_tick(tick)? && price < price_of_tick(tick + sp as i32)?)
    }
}

pub fn tick_ok(i: i32, sp: u16) -> bool {
    sp != 0 && i % sp as i32 == 0 && i <= max_tick(sp) && i >= min_tick(sp)
}

// ---------------------------------------------------------------- calls

pub struct Ctx<'a> {
    pub block: &'a BlockInfo,
    pub sender: &'a str,
    pub funds: &'a [Coin],
    pub is_addr: &'a dyn Fn(&str) -> bool,
}

impl<'a> Ctx<'a> {
    fn now(&self) -> u64 {
        self.block.time.nanos() / 1_000_000
    }
}

struct Purse {
    left: Vec<(String, u128)>,
    kept: Vec<(String, u128)>,
}
impl Purse {
    fn new(f: &[Coin]) -> Self {
        Purse { left: f.iter().map(|c| (c.denom.clone(), c.amount.u128())).collect(), kept: vec![] }
    }
    fn take(&mut self, denom: &str, amount: u128) -> R<()> {
        if amount == 0 {
            return Ok(());
        }
        let e = self.left.iter_mut().find(|(d, _)| d == denom).ok_or(Why::Funds)?;
        e.1 = e.1.checked_sub(amount).ok_or(Why::Funds)?;
        self.kept.push((denom.to_string(), amount));
        Ok(())
    }
}

fn pull(cx: &Ctx, purse: &mut Purse, fx: &mut Effects, token: &str, amount: u128) -> R<()> {
    if amount == 0 {
        return Ok(());
    }
    if (cx.is_addr)(token) {
        fx.moves.push(Move::Pull { token: token.to_string(), amount });
        Ok(())
    } else {
        purse.take(token, amount)
    }
}
fn pay(fx: &mut Effects, token: &str, to: &str, amount: u128) {
    if amount != 0 {
        fx.moves.push(Move::Pay { token: token.to_string(), to: to.to_string(), amount });
    }
}
fn settle(cx: &Ctx, purse: Purse, fx: &mut Effects) {
    for (d, a) in purse.left {
        pay(fx, &d, cx.sender, a);
    }
    fx.kept = purse.kept;
}

pub fn split_token_id(id: &[u8]) -> Option<(String, u32)> {
    if id.len() < 4 {
        return None;
    }
    let (o, i) = id.split_at(id.len() - 4);
    Some((String::from_utf8(o.to_vec()).ok()?, u32::from_be_bytes(i.try_into().unwrap())))
}
pub fn token_id(owner: &str, index: u32) -> Vec<u8> {
    let mut v = owner.as_bytes().to_vec();
    v.extend_from_slice(&index.to_be_bytes());
    v
}

impl World {
    pub fn pool(&self, key: &PoolKey) -> R<&MPool> {
        self.pools.get(&pkey(&key)).map(|(_, p)| p).ok_or(Why::NoPool)
    }
    pub fn pos(&self, owner: &str, i: u32) -> R<&MPos> {
        self.owners.get(owner).and_then(|v| v.get(i as usize)).ok_or(Why::NoPosition)
    }
    pub fn positions_of_pool<'a>(&'a self, k: &'a PoolKey) -> impl Iterator<Item = &'a MPos> + 'a {
        self.owners.values().flatten().filter(move |p| p.p.pool_key == *k)
    }
    fn take_pos(&mut self, owner: &str, i: u32) -> R<MPos> {
        let v = self.owners.get_mut(owner).ok_or(Why::NoPosition)?;
        if i as usize >= v.len() {
            return Err(Why::NoPosition);
        }
        Ok(v.swap_remove(i as usize))
    }
    fn operator_live(&self, owner: &str, who: &str, b: &BlockInfo) -> bool {
        self.operators
            .get(&(owner.to_string(), who.to_string()))
            .map(|e| !e.is_expired(b))
            .unwrap_or(false)
    }
    pub fn may_send(&self, owner: &str, p: &Position, who: &str, b: &BlockInfo) -> bool {
        who == owner
            || p.approvals.iter().any(|a| a.spender.as_str() == who && !a.expires.is_expired(b))
            || self.operator_live(owner, who, b)
    }

    fn touch_tick(&mut self, key: &PoolKey, idx: i32, now: u64) -> R<()> {
        let sp = key.fee_tier.tick_spacing;
        let mp = &mut self.pools.get_mut(&pkey(&key)).ok_or(Why::NoPool)?.1;
        if mp.ticks.contains_key(&idx) {
            return Ok(());
        }
        if !tick_ok(idx, sp) {
            return Err(Why::BadRange);
        }
        let below = idx <= mp.p.current_tick_index;
        let z = |v: FeeGrowth| if below { v } else { FeeGrowth::new(0) };
        let t = Tick {
            index: idx,
            sign: true,
            liquidity_change: Liquidity::new(0),
            liquidity_gross: Liquidity::new(0),
            sqrt_price: SqrtPrice::new(price_of_tick(idx)?),
            fee_growth_outside_x: z(mp.p.fee_growth_global_x),
            fee_growth_outside_y: z(mp.p.fee_growth_global_y),
            seconds_outside: if below { now.checked_sub(mp.p.start_timestamp).ok_or(Why::Overflow)? } else { 0 },
        };
        mp.ticks.insert(idx, t);
        Ok(())
    }

    fn update_tick_liquidity(&mut self, key: &PoolKey, idx: i32, delta: u128, add: bool, upper: bool) -> R<()> {
        let max = max_liquidity_per_tick(key.fee_tier.tick_spacing);
        let t = self.pools.get_mut(&pkey(&key)).ok_or(Why::NoPool)?.1.ticks.get_mut(&idx).ok_or(Why::NoPosition)?;
        let g = t.liquidity_gross.get();
        let ng = if add { g.checked_add(delta) } else { g.checked_sub(delta) }.ok_or(Why::TooMuchLiquidity)?;
        if add && ng >= max {
            return Err(Why::TooMuchLiquidity);
        }
        t.liquidity_gross = Liquidity::new(ng);
        let d = delta as i128;
        set_net(t, net_of(t) + if add != upper { d } else { -d });
        Ok(())
    }

    /// fees that have come in for a position since it was last settled
    fn settle_fees(&mut self, owner: &str, i: u32) -> R<()> {
        let p = self.pos(owner, i)?.p.clone();
        let mp = self.pool(&p.pool_key)?;
        let (lo, up) = (
            mp.ticks.get(&p.lower_tick_index).ok_or(Why::NoPosition)?,
            mp.ticks.get(&p.upper_tick_index).ok_or(Why::NoPosition)?,
        );
        let (gx, gy) = growth_inside(
            lo,
            up,
            mp.p.current_tick_index,
            mp.p.fee_growth_global_x.get(),
            mp.p.fee_growth_global_y.get(),
        );
        let l = p.liquidity.get();
        let ox = growth_to_fee(gx.wrapping_sub(p.fee_growth_inside_x.get()), l)?;
        let oy = growth_to_fee(gy.wrapping_sub(p.fee_growth_inside_y.get()), l)?;
        let q = &mut self.owners.get_mut(owner).unwrap()[i as usize].p;
        q.fee_growth_inside_x = FeeGrowth::new(gx);
        q.fee_growth_inside_y = FeeGrowth::new(gy);
        q.tokens_owed_x = TokenAmount(q.tokens_owed_x.0.checked_add(ox).ok_or(Why::Overflow)?);
        q.tokens_owed_y = TokenAmount(q.tokens_owed_y.0.checked_add(oy).ok_or(Why::Overflow)?);
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn open(&mut self, cx: &Ctx, fx: &mut Effects, key: &PoolKey, lo: i32, up: i32, l: u128, smin: u128, smax: u128) -> R<()> {
        if l == 0 {
            return Err(Why::ZeroLiquidity);
        }
        if lo == up {
            return Err(Why::BadRange);
        }
        let dbk = pkey(&key);
        let price = self.pool(key)?.p.sqrt_price.get();
        if !tick_ok(lo, key.fee_tier.tick_spacing) || !tick_ok(up, key.fee_tier.tick_spacing) || lo > up {
            return Err(Why::BadRange);
        }
        if price < smin || price > smax {
            return Err(Why::Slippage);
        }
        self.touch_tick(key, lo, cx.now())?;
        self.touch_tick(key, up, cx.now())?;
        self.update_tick_liquidity(key, lo, l, true, false)?;
        self.update_tick_liquidity(key, up, l, true, true)?;
        let mp = &mut self.pools.get_mut(&dbk).ok_or(Why::NoPool)?.1;
        mp.p.last_timestamp = cx.now();
        let cur = mp.p.current_tick_index;
        let (gx, gy) = growth_inside(
            &mp.ticks[&lo],
            &mp.ticks[&up],
            cur,
            mp.p.fee_growth_global_x.get(),
            mp.p.fee_growth_global_y.get(),
        );
        let (x, y, active) = amounts(cur, price, l, lo, up, true)?;
        if active {
            mp.p.liquidity = Liquidity::new(mp.p.liquidity.get().checked_add(l).ok_or(Why::TooMuchLiquidity)?);
        }
        let uid = self.next_uid;
        self.next_uid += 1;
        self.owners.entry(cx.sender.to_string()).or_default().push(MPos {
            p: Position {
                pool_key: key.clone(),
                liquidity: Liquidity::new(l),
                lower_tick_index: lo,
                upper_tick_index: up,
                fee_growth_inside_x: FeeGrowth::new(gx),
                fee_growth_inside_y: FeeGrowth::new(gy),
                last_block_number: cx.block.height,
                tokens_owed_x: TokenAmount(0),
                tokens_owed_y: TokenAmount(0),
                approvals: vec![],
            },
            uid,
            earned_x: U512::zero(),
            earned_y: U512::zero(),
            accruals: 0,
        });
        let mut purse = Purse::new(cx.funds);
        pull(cx, &mut purse, fx, &key.token_x, x)?;
        pull(cx, &mut purse, fx, &key.token_y, y)?;
        settle(cx, purse, fx);
        fx.principal = Some((x, y));
        fx.touched_pools.push(dbk);
        Ok(())
    }

    fn payout_info(&self, owner: &str, i: u32) -> R<Payout> {
        let p = self.pos(owner, i)?;
        Ok(Payout {
            x: p.p.tokens_owed_x.0,
            y: p.p.tokens_owed_y.0,
            earned_x: p.earned_x,
            earned_y: p.earned_y,
            accruals: p.accruals,
            liquidity: p.p.liquidity.get(),
            uid: p.uid,
        })
    }

    fn close(&mut self, cx: &Ctx, fx: &mut Effects, owner: &str, i: u32) -> R<()> {
        let p = self.pos(owner, i)?.p.clone();
        let key = p.pool_key.clone();
        let l = p.liquidity.get();
        let (lo, up) = (p.lower_tick_index, p.upper_tick_index);
        self.update_tick_liquidity(&key, lo, l, false, false)?;
        self.update_tick_liquidity(&key, up, l, false, true)?;
        self.settle_fees(owner, i)?;
        fx.claimed = Some(self.payout_info(owner, i)?);
        let owed = self.pos(owner, i)?.p.clone();
        let mp = &mut self.pools.get_mut(&pkey(&key)).ok_or(Why::NoPool)?.1;
        mp.p.last_timestamp = cx.now();
        let (x, y, active) = amounts(mp.p.current_tick_index, mp.p.sqrt_price.get(), l, lo, up, false)?;
        if active {
            mp.p.liquidity = Liquidity::new(mp.p.liquidity.get().checked_sub(l).ok_or(Why::Overflow)?);
        }
        for t in [lo, up] {
            if mp.ticks[&t].liquidity_gross.get() == 0 {
                mp.ticks.remove(&t);
            }
        }
        fx.principal = Some((x, y));
        self.take_pos(owner, i)?;
        pay(fx, &key.token_x, owner, x.checked_add(owed.tokens_owed_x.0).ok_or(Why::Overflow)?);
        pay(fx, &key.token_y, owner, y.checked_add(owed.tokens_owed_y.0).ok_or(Why::Overflow)?);
        fx.touched_pools.push(pkey(&key));
        Ok(())
    }

    fn give(&mut self, from: &str, i: u32, to: &str) -> R<()> {
        let mut p = self.take_pos(from, i)?;
        p.p.approvals.clear();
        self.owners.entry(to.to_string()).or_default().push(p);
        Ok(())
    }

    /// apply a computed swap to the books
    fn book_swap(&mut self, key: &PoolKey, s: &SwapOut) {
        {
            let mp = &mut self.pools.get_mut(&s.pool).unwrap().1;
            mp.p = s.after.clone();
            for t in &s.crossed {
                mp.ticks.insert(t.index, *t);
            }
        }
        for q in self.owners.values_mut().flatten().filter(|q| q.p.pool_key == *key) {
            for pc in &s.pieces {
                if q.p.lower_tick_index <= pc.tick && pc.tick < q.p.upper_tick_index {
                    let share = w(pc.pool_fee) * (w(q.p.liquidity.get()) << 64) / w(pc.liquidity);
                    if pc.in_x {
                        q.earned_x = q.earned_x + share;
                    } else {
                        q.earned_y = q.earned_y + share;
                    }
                    q.accruals += 1;
                }
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn one_swap(&mut self, cx: &Ctx, fx: &mut Effects, purse: &mut Purse, key: &PoolKey, down: bool, amount: u128, by_in: bool, limit: u128) -> R<u128> {
        let s = swap(
            // an unknown pool is reported before anything else but a zero amount
            if amount == 0 { return Err(Why::ZeroAmount) } else { self.pool(key)? },
            key,
            self.protocol_fee,
            cx.now(),
            down,
            amount,
            by_in,
            limit,
        )?;
        self.book_swap(key, &s);
        let (ti, to) = if down { (&key.token_x, &key.token_y) } else { (&key.token_y, &key.token_x) };
        pull(cx, purse, fx, ti, s.amount_in)?;
        pay(fx, to, cx.sender, s.amount_out);
        let out = s.amount_out;
        fx.touched_pools.push(pkey(&key));
        fx.swaps.push(s);
        Ok(out)
    }

    pub fn route_limit(down: bool) -> u128 {
        if down {
            min_price()
        } else {
            max_price()
        }
    }

    /// Applies `msg`; on Err the caller throws the world away.
    pub fn apply(&mut self, cx: &Ctx, msg: &ExecuteMsg) -> R<Effects> {
        let mut fx = Effects::default();
        let admin = |w: &World| if w.admin == cx.sender { Ok(()) } else { Err(Why::NotAdmin) };
        match msg {
            ExecuteMsg::ChangeAdmin { new_admin } => {
                admin(self)?;
                self.admin = new_admin.to_string();
            }
            ExecuteMsg::ChangeProtocolFee { protocol_fee } => {
                admin(self)?;
                self.protocol_fee = protocol_fee.get();
            }
            ExecuteMsg::ChangeFeeReceiver { pool_key, fee_receiver } => {
                admin(self)?;
                let k = pkey(&pool_key);
                self.pools.get_mut(&k).ok_or(Why::NoPool)?.1.p.fee_receiver = fee_receiver.to_string();
                fx.touched_pools.push(k);
            }
            ExecuteMsg::WithdrawProtocolFee { pool_key } => {
                let k = pkey(&pool_key);
                let p = &mut self.pools.get_mut(&k).ok_or(Why::NoPool)?.1.p;
                if p.fee_receiver != cx.sender {
                    return Err(Why::NotReceiver);
                }
                let (x, y) = (p.fee_protocol_token_x.0, p.fee_protocol_token_y.0);
                p.fee_protocol_token_x = TokenAmount(0);
                p.fee_protocol_token_y = TokenAmount(0);
                pay(&mut fx, &pool_key.token_x, cx.sender, x);
                pay(&mut fx, &pool_key.token_y, cx.sender, y);
                fx.touched_pools.push(k);
            }
            ExecuteMsg::AddFeeTier { fee_tier } => {
                admin(self)?;
                if fee_tier.tick_spacing == 0
                    || fee_tier.tick_spacing > 100
                    || fee_tier.fee.get() as u128 >= E12
                    || self.tiers.contains(fee_tier)
                {
                    return Err(Why::BadTier);
                }
                self.tiers.push(*fee_tier);
            }
            ExecuteMsg::RemoveFeeTier { fee_tier } => {
                admin(self)?;
                let i = self.tiers.iter().position(|t| t == fee_tier).ok_or(Why::BadTier)?;
                self.tiers.remove(i);
            }
            ExecuteMsg::CreatePool { token_0, token_1, fee_tier, init_sqrt_price, init_tick } => {
                if !self.tiers.contains(fee_tier) {
                    return Err(Why::BadTier);
                }
                if token_0 == token_1 || !tick_ok(*init_tick, fee_tier.tick_spacing) {
                    return Err(Why::BadPool);
                }
                let (x, y) = if token_0 < token_1 { (token_0, token_1) } else { (token_1, token_0) };
                let key = PoolKey { token_x: x.clone(), token_y: y.clone(), fee_tier: *fee_tier };
                if self.pools.contains_key(&pkey(&key))
                    || !price_matches_tick(*init_tick, fee_tier.tick_spacing, init_sqrt_price.get()).unwrap_or(false)
                {
                    return Err(Why::BadPool);
                }
                let p = Pool {
                    liquidity: Liquidity::new(0),
                    sqrt_price: *init_sqrt_price,
                    current_tick_index: *init_tick,
                    fee_growth_global_x: FeeGrowth::new(0),
                    fee_growth_global_y: FeeGrowth::new(0),
                    fee_protocol_token_x: TokenAmount(0),
                    fee_protocol_token_y: TokenAmount(0),
                    start_timestamp: cx.now(),
                    last_timestamp: cx.now(),
                    fee_receiver: self.admin.clone(),
                };
                fx.touched_pools.push(pkey(&key));
                self.pools.insert(pkey(&key), (key, MPool { p, ticks: BTreeMap::new() }));
            }
            ExecuteMsg::CreatePosition {
                pool_key,
                lower_tick,
                upper_tick,
                liquidity_delta,
                slippage_limit_lower,
                slippage_limit_upper,
            } => self.open(
                cx,
                &mut fx,
                pool_key,
                *lower_tick,
                *upper_tick,
                liquidity_delta.get(),
                slippage_limit_lower.get(),
                slippage_limit_upper.get(),
            )?,
            ExecuteMsg::Mint { extension: e } => self.open(
                cx,
                &mut fx,
                &e.pool_key,
                e.lower_tick,
                e.upper_tick,
                e.liquidity_delta.get(),
                e.slippage_limit_lower.get(),
                e.slippage_limit_upper.get(),
            )?,
            ExecuteMsg::Swap { pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit } => {
                let mut purse = Purse::new(cx.funds);
                self.one_swap(cx, &mut fx, &mut purse, pool_key, *x_to_y, amount.0, *by_amount_in, sqrt_price_limit.get())?;
                settle(cx, purse, &mut fx);
            }
            ExecuteMsg::SwapRoute { amount_in, expected_amount_out, slippage, swaps } => {
                let mut purse = Purse::new(cx.funds);
                let mut a = amount_in.0;
                for h in swaps {
                    a = self.one_swap(cx, &mut fx, &mut purse, &h.pool_key, h.x_to_y, a, true, Self::route_limit(h.x_to_y))?;
                }
                let keep = (E12 as u64).checked_sub(slippage.get()).ok_or(Why::Overflow)?;
                if a < mul_pct_up(expected_amount_out.0, keep)? {
                    return Err(Why::MinOut);
                }
                fx.route_out = Some(a);
                settle(cx, purse, &mut fx);
            }
            ExecuteMsg::TransferPosition { index, receiver } => {
                self.pos(cx.sender, *index)?;
                if !(cx.is_addr)(receiver) {
                    return Err(Why::BadAddress);
                }
                self.give(cx.sender, *index, receiver)?;
            }
            ExecuteMsg::ClaimFee { index } => {
                let key = self.pos(cx.sender, *index)?.p.pool_key.clone();
                self.settle_fees(cx.sender, *index)?;
                fx.claimed = Some(self.payout_info(cx.sender, *index)?);
                self.pools.get_mut(&pkey(&key)).unwrap().1.p.last_timestamp = cx.now();
                let q = &mut self.owners.get_mut(cx.sender).unwrap()[*index as usize];
                let (x, y) = (q.p.tokens_owed_x.0, q.p.tokens_owed_y.0);
                q.p.tokens_owed_x = TokenAmount(0);
                q.p.tokens_owed_y = TokenAmount(0);
                q.earned_x = U512::zero();
                q.earned_y = U512::zero();
                q.accruals = 0;
                pay(&mut fx, &key.token_x, cx.sender, x);
                pay(&mut fx, &key.token_y, cx.sender, y);
                fx.touched_pools.push(pkey(&key));
            }
            ExecuteMsg::RemovePosition { index } => self.close(cx, &mut fx, cx.sender, *index)?,
            ExecuteMsg::Burn { token_id } => {
                let (o, i) = self.nft(cx, token_id)?;
                self.close(cx, &mut fx, &o, i)?;
            }
            ExecuteMsg::TransferNft { recipient, token_id } => {
                let (o, i) = self.nft(cx, token_id)?;
                self.give(&o, i, recipient.as_str())?;
            }
            ExecuteMsg::SendNft { contract, token_id, .. } => {
                let (o, i) = self.nft(cx, token_id)?;
                self.give(&o, i, contract.as_str())?;
                fx.nft_call = Some((contract.to_string(), token_id.to_vec()));
            }
            ExecuteMsg::Approve { spender, token_id, expires } => {
                let (o, i) = self.nft_owner_or_operator(cx, token_id)?;
                let e = expires.unwrap_or_default();
                if e.is_expired(cx.block) {
                    return Err(Why::Expired);
                }
                let p = &mut self.owners.get_mut(&o).unwrap()[i as usize].p;
                p.approvals.retain(|a| a.spender != *spender);
                p.approvals.push(Approval { spender: spender.clone(), expires: e });
            }
            ExecuteMsg::Revoke { spender, token_id } => {
                let (o, i) = self.nft_owner_or_operator(cx, token_id)?;
                let p = &mut self.owners.get_mut(&o).unwrap()[i as usize].p;
                p.approvals.retain(|a| a.spender != *spender);
            }
            ExecuteMsg::ApproveAll { operator, expires } => {
                let e = expires.unwrap_or_default();
                if e.is_expired(cx.block) {
                    return Err(Why::Expired);
                }
                self.operators.insert((cx.sender.to_string(), operator.to_string()), e);
            }
            ExecuteMsg::RevokeAll { operator } => {
                self.operators.remove(&(cx.sender.to_string(), operator.to_string()));
            }
        }
        Ok(fx)
    }

    fn nft(&self, cx: &Ctx, id: &[u8]) -> R<(String, u32)> {
        let (o, i) = split_token_id(id).ok_or(Why::NoPosition)?;
        let p = self.pos(&o, i)?;
        if !self.may_send(&o, &p.p, cx.sender, cx.block) {
            return Err(Why::NotAllowed);
        }
        Ok((o, i))
    }
    fn nft_owner_or_operator(&self, cx: &Ctx, id: &[u8]) -> R<(String, u32)> {
        let (o, i) = split_token_id(id).ok_or(Why::NoPosition)?;
        self.pos(&o, i)?;
        if cx.sender != o && !self.operator_live(&o, cx.sender, cx.block) {
            return Err(Why::NotAllowed);
        }
        Ok((o, i))
    }

    pub fn step_quote(&mut self, now: u64, h: &SwapHop, a: u128) -> R<u128> {
        let s = swap(self.pool(&h.pool_key)?, &h.pool_key, self.protocol_fee, now, h.x_to_y, a, true, Self::route_limit(h.x_to_y))?;
        self.book_swap(&h.pool_key, &s);
        Ok(s.amount_out)
    }

    /// what a route quote must answer
    pub fn quote_route(&self, now: u64, amount: u128, hops: &[SwapHop]) -> R<u128> {
        let mut wd = self.clone();
        let mut a = amount;
        for h in hops {
            if a == 0 {
                return Err(Why::ZeroAmount);
            }
            let s = swap(wd.pool(&h.pool_key)?, &h.pool_key, wd.protocol_fee, now, h.x_to_y, a, true, Self::route_limit(h.x_to_y))?;
            wd.book_swap(&h.pool_key, &s);
            a = s.amount_out;
        }
        Ok(a)
    }
}

#[allow(dead_code)]
fn _unused(_: Percentage, _: Addr) {}
