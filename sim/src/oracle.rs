//! Oracles over whole transactions, recorded history, listings, clients and what-if forks.
//! They do not rely on the refinement check: each judges observable behaviour on its own.
use crate::chain::*;
use crate::check::{c, op_of, pool_name, Op};
use crate::model::*;
use crate::num::*;
use crate::run::{coins, dex_json, Sim, TxStep};
use cosmwasm_std::{to_binary, Addr, Binary, Coin, Uint128};
use decimal::Decimal;
use oraiswap_v3::interface::*;
use oraiswap_v3::msg::{ExecuteMsg, QueryMsg};
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::{FeeTier, LiquidityTick, Pool, PoolKey, Position, Tick};
use oraiswap_v3_wasm as sdk;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub type Signed = U512;

// ---------------------------------------------------------------- solvency

/// exact value of a position in both tokens, times 2^64, rounded down
fn exact_principal(p: &Position, pool: &Pool) -> (U512, U512) {
    let (pl, pu) = (price_of_tick(p.lower_tick_index).unwrap(), price_of_tick(p.upper_tick_index).unwrap());
    let cur = pool.sqrt_price.get().clamp(pl, pu);
    let l = w(p.liquidity.get());
    let x = if cur >= pu { U512::zero() } else { (l * w(pu - cur) * w(E24) / w(cur) << 64) / w(pu) / w(1_000_000) };
    let y = (l * w(cur - pl) << 64) / pow10(30);
    (x, y)
}
fn pending(p: &Position, mp: &MPool) -> Option<(U512, U512)> {
    let lo = mp.ticks.get(&p.lower_tick_index)?;
    let up = mp.ticks.get(&p.upper_tick_index)?;
    let (gx, gy) = growth_inside(lo, up, mp.p.current_tick_index, mp.p.fee_growth_global_x.get(), mp.p.fee_growth_global_y.get());
    let f = |g: u128, i: u128| (w(g.wrapping_sub(i)) * w(p.liquidity.get()) << 64) / pow10(34);
    Some((
        f(gx, p.fee_growth_inside_x.get()) + (w(p.tokens_owed_x.0) << 64),
        f(gy, p.fee_growth_inside_y.get()) + (w(p.tokens_owed_y.0) << 64),
    ))
}

pub fn claims(wd: &World) -> BTreeMap<String, U512> {
    let mut m: BTreeMap<String, U512> = BTreeMap::new();
    let mut add = |t: &str, v: U512| {
        let e = m.entry(t.to_string()).or_insert(U512::zero());
        *e = *e + v;
    };
    for (k, mp) in wd.pools.values() {
        add(&k.token_x, w(mp.p.fee_protocol_token_x.0) << 64);
        add(&k.token_y, w(mp.p.fee_protocol_token_y.0) << 64);
    }
    for q in wd.owners.values().flatten() {
        let k = &q.p.pool_key;
        if let Some((_, mp)) = wd.pools.get(&pkey(k)) {
            let (x, y) = exact_principal(&q.p, &mp.p);
            let (fx, fy) = pending(&q.p, mp).unwrap_or_default();
            add(&k.token_x, x + fx);
            add(&k.token_y, y + fy);
        }
    }
    m
}

pub fn surplus(s: &mut Sim) {
    s.stats.eval("exact surplus per token", 1);
    let wd = s.ch.model.clone();
    let n = wd.owners.values().map(|v| v.len()).sum::<usize>() as u128;
    // the claims are computed in units of 2^-64 with a few units of error per position
    let tol = w((1 << 24) + (n << 12));
    for (t, cl) in claims(&wd) {
        if is_addr(&t) && !s.ch.n.index.contains_key(&t) {
            continue;
        }
        let have = w(s.ch.balance(&t, DEX)) << 64;
        if have + tol < cl {
            let d = (cl - have) >> 64;
            s.flag(c(&[1]), "insolvent", format!("token {t}: claims exceed holdings {} by {d}", have >> 64));
            s.surplus.remove(&t);
            continue;
        }
        let now = have + tol - cl;
        if let Some(old) = s.surplus.get(&t).copied() {
            if now + tol < old {
                let lost = old - now;
                s.flag(
                    c(&[1]),
                    "surplus fell",
                    format!("token {t}: exact surplus of holdings over claims fell by {} + {}/2^64", lost >> 64, lost & w(u64::MAX as u128)),
                );
            }
        }
        s.surplus.insert(t, now);
    }
}

// ---------------------------------------------------------------- books

pub fn books(s: &mut Sim, before: &Rc<World>) {
    let wd = s.ch.model.clone();
    let keys: BTreeSet<Vec<u8>> = s.ch.fx.iter().flat_map(|f| f.touched_pools.iter().cloned()).collect();
    for k in keys {
        if let Some((key, mp)) = wd.pools.get(&k) {
            s.stats.eval("active liquidity and ticks from positions", 1);
            if let Some(e) = book_error(&wd, key, mp) {
                s.flag(c(&[6]), "books", format!("pool {}: {e}", pool_name(key)));
            }
            // opening and closing never change the price
            if s.ch.fx.iter().all(|f| f.swaps.is_empty()) {
                if let Some((_, old)) = before.pools.get(&k) {
                    if old.p.sqrt_price != mp.p.sqrt_price || old.p.current_tick_index != mp.p.current_tick_index {
                        s.flag(c(&[17]), "price moved", format!("pool {}: price changed without a swap", pool_name(key)));
                    }
                }
            }
        }
    }
}

fn book_error(wd: &World, key: &PoolKey, mp: &MPool) -> Option<String> {
    let sp = key.fee_tier.tick_spacing as i32;
    let cur = mp.p.current_tick_index;
    let mut active = U512::zero();
    let mut want: BTreeMap<i32, (U512, i128)> = BTreeMap::new();
    for q in wd.positions_of_pool(key) {
        let l = q.p.liquidity.get();
        if q.p.lower_tick_index <= cur && cur < q.p.upper_tick_index {
            active = active + w(l);
        }
        let e = want.entry(q.p.lower_tick_index).or_default();
        e.0 = e.0 + w(l);
        e.1 += l as i128;
        let e = want.entry(q.p.upper_tick_index).or_default();
        e.0 = e.0 + w(l);
        e.1 -= l as i128;
    }
    if active != w(mp.p.liquidity.get()) {
        return Some(format!("active liquidity {} but the positions in range have {active}", mp.p.liquidity.get()));
    }
    for (i, t) in &mp.ticks {
        match want.get(i) {
            None => return Some(format!("tick {i} exists without a position")),
            Some((g, n)) => {
                if w(t.liquidity_gross.get()) != *g || net_of(t) != *n {
                    return Some(format!("tick {i} gross/net {}/{} should be {g}/{n}", t.liquidity_gross.get(), net_of(t)));
                }
            }
        }
    }
    if let Some(i) = want.keys().find(|i| !mp.ticks.contains_key(i)) {
        return Some(format!("tick {i} of a position is missing"));
    }
    let p = mp.p.sqrt_price.get();
    if cur % sp != 0 {
        return Some(format!("current tick {cur} is not a multiple of the spacing"));
    }
    let lo = price_of_tick(cur).unwrap_or(0);
    let hi = price_of_tick(cur + sp).unwrap_or(u128::MAX);
    if p < lo || p > hi {
        return Some(format!("price {p} outside of tick {cur} [{lo}, {hi}]"));
    }
    None
}

// ---------------------------------------------------------------- payouts

pub fn payouts(s: &mut Sim) {
    if s.ch.obs.desync {
        return;
    }
    let mut bad = vec![];
    let mut n = 0;
    for f in &s.ch.fx {
        if let Some(p) = &f.claimed {
            for (paid, earned, name) in [(p.x, p.earned_x, "x"), (p.y, p.earned_y, "y")] {
                n += 1;
                // fee growth is modular: beyond its range per liquidity unit nothing is promised
                if earned / w(p.liquidity.max(1)) > (w(u128::MAX) << 64) / pow10(34) {
                    continue;
                }
                let hi = earned >> 64;
                let per = (w(p.liquidity) << 64) / pow10(34) + w(4);
                let slack = (w(1) << 64) + per * w(p.accruals as u128 + 1);
                let lo = if earned > slack { ceil_div(earned - slack, w(1) << 64) } else { U512::zero() };
                if w(paid) > hi || w(paid) < lo {
                    bad.push(format!("position {} is paid {paid} of token {name} but earned between {lo} and {hi}", p.uid));
                }
            }
        }
    }
    s.stats.eval("payout against direct fee accounting", n);
    for b in bad {
        s.flag(c(&[7]), "fee share", b);
    }
}

// ---------------------------------------------------------------- single direct calls

/// Balances of everyone who could be affected, before the call.
pub fn party_balances(s: &Sim, from: &str, m: &ExecuteMsg) -> Vec<(String, String, u128)> {
    let mut toks = BTreeSet::new();
    match m {
        ExecuteMsg::Swap { pool_key, .. } => {
            toks.insert(pool_key.token_x.clone());
            toks.insert(pool_key.token_y.clone());
        }
        ExecuteMsg::SwapRoute { swaps, .. } => {
            for h in swaps {
                toks.insert(h.pool_key.token_x.clone());
                toks.insert(h.pool_key.token_y.clone());
            }
        }
        _ => return vec![],
    }
    toks.into_iter()
        .filter(|t| !is_addr(t) || s.ch.n.index.contains_key(t))
        .map(|t| {
            let b = s.ch.balance(&t, from);
            (from.to_string(), t, b)
        })
        .collect()
}

fn net(s: &Sim, who: &str, token: &str) -> i128 {
    s.ch.deltas.iter().filter(|d| d.0 == who && d.1 == token).map(|d| d.2).sum()
}

pub fn after_direct(s: &mut Sim, from: &str, m: &ExecuteMsg, before: &Rc<World>, bal: &[(String, String, u128)], _funds: &[Coin]) {
    // ---- nobody but caller, contract and (when closing by token) the owner
    let mut allowed: BTreeSet<String> = [from.to_string(), DEX.to_string()].into();
    if let ExecuteMsg::Burn { token_id } = m {
        if let Some((o, _)) = split_token_id(token_id) {
            allowed.insert(o);
        }
    }
    s.stats.eval("no third party's balance moves", 1);
    let mut nets: BTreeMap<(String, String), i128> = BTreeMap::new();
    for d in &s.ch.deltas {
        *nets.entry((d.0.clone(), d.1.clone())).or_insert(0) += d.2;
    }
    for ((who, tok), v) in &nets {
        if *v != 0 && !allowed.contains(who) {
            s.flag(c(&[2]), "third party", format!("{} changed the balance of {who} in {tok} by {v}", crate::check::brief(m)));
        }
    }
    // ---- limits
    match m {
        ExecuteMsg::Swap { pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit } => {
            s.stats.eval("limits of a swap from balances and price", 1);
            let (ti, to) = if *x_to_y { (&pool_key.token_x, &pool_key.token_y) } else { (&pool_key.token_y, &pool_key.token_x) };
            let get = |t: &String| bal.iter().find(|b| b.1 == *t).map(|b| b.2);
            if let (Some(bi), Some(bo)) = (get(ti), get(to)) {
                let spent = bi as i128 - s.ch.balance(ti, from) as i128;
                let got = s.ch.balance(to, from) as i128 - bo as i128;
                if *by_amount_in && spent > amount.0 as i128 {
                    s.flag(c(&[5]), "overspent", format!("swap of {} spent {spent}", amount.0));
                }
                if !*by_amount_in && got != amount.0 as i128 {
                    s.flag(c(&[5]), "other output", format!("swap for {} delivered {got}", amount.0));
                }
                if got <= 0 {
                    s.flag(c(&[5]), "nothing received", format!("swap spent {spent} and delivered {got}"));
                }
                if spent < 0 {
                    s.flag(c(&[2, 1]), "paid for swapping", format!("swap returned input {spent}"));
                }
            }
            if let Ok(p) = pool_now(s, pool_key) {
                let sp = pool_key.fee_tier.tick_spacing as i32;
                if price_of_tick(p.current_tick_index + sp) == Ok(p.sqrt_price.get()) {
                    s.stats.eval("swap ends on a tick just crossed downward", 1);
                } else if price_of_tick(p.current_tick_index) == Ok(p.sqrt_price.get()) {
                    s.stats.eval("swap ends exactly on a tick", 1);
                }
                let (p, l) = (p.sqrt_price.get(), sqrt_price_limit.get());
                let beyond = if *x_to_y { p < l } else { p > l };
                if beyond {
                    s.flag(c(&[5]), "limit passed", format!("price {p} beyond limit {l}"));
                }
                if let Ok(o) = before.pool(pool_key) {
                    let o = o.p.sqrt_price.get();
                    if (*x_to_y && p > o) || (!*x_to_y && p < o) {
                        s.flag(c(&[4]), "wrong direction", format!("price moved from {o} to {p} against the swap"));
                    }
                }
            }
        }
        ExecuteMsg::SwapRoute { amount_in, expected_amount_out, slippage, swaps } if !swaps.is_empty() => {
            s.stats.eval("minimum output of a route from balances", 1);
            let f = &swaps[0];
            let l = &swaps[swaps.len() - 1];
            let ti = if f.x_to_y { &f.pool_key.token_x } else { &f.pool_key.token_y };
            let to = if l.x_to_y { &l.pool_key.token_y } else { &l.pool_key.token_x };
            let get = |t: &String| bal.iter().find(|b| b.1 == *t).map(|b| b.2);
            // amounts that also come in as input of another hop cannot be told apart by balance
            let reused = swaps.iter().any(|h| (if h.x_to_y { &h.pool_key.token_x } else { &h.pool_key.token_y }) == to);
            let outs = swaps.iter().filter(|h| (if h.x_to_y { &h.pool_key.token_y } else { &h.pool_key.token_x }) == to).count();
            if let (Some(bi), Some(bo)) = (get(ti), get(to)) {
                if ti != to && !reused && outs == 1 {
                    let got = s.ch.balance(to, from) as i128 - bo as i128;
                    let keep = 1_000_000_000_000u64.saturating_sub(slippage.get());
                    let min = ceil_div(w(expected_amount_out.0) * w(keep as u128), w(E12));
                    if got < 0 || w(got as u128) < min {
                        s.flag(c(&[5]), "minimum output", format!("route delivered {got}, minimum {min}"));
                    }
                    let spent = bi as i128 - s.ch.balance(ti, from) as i128;
                    let ins = swaps.iter().filter(|h| (if h.x_to_y { &h.pool_key.token_x } else { &h.pool_key.token_y }) == ti).count();
                    if ins == 1 && spent > amount_in.0 as i128 {
                        s.flag(c(&[5, 2]), "overspent", format!("route of {} spent {spent}", amount_in.0));
                    }
                }
            }
        }
        ExecuteMsg::CreatePosition { pool_key, slippage_limit_lower, slippage_limit_upper, .. } => {
            s.stats.eval("price bounds of an opening", 1);
            if let Ok(o) = before.pool(pool_key) {
                let p = o.p.sqrt_price.get();
                if p < slippage_limit_lower.get() || p > slippage_limit_upper.get() {
                    s.flag(c(&[5]), "opened out of bounds", format!("opened at {p} outside of the caller's bounds"));
                }
            }
        }
        _ => {}
    }
    // ---- amounts of opening and closing, from exact values
    let (key, l, lo, up, opening) = match m {
        ExecuteMsg::CreatePosition { pool_key, lower_tick, upper_tick, liquidity_delta, .. } => {
            (pool_key.clone(), liquidity_delta.get(), *lower_tick, *upper_tick, true)
        }
        ExecuteMsg::RemovePosition { index } => match before.pos(from, *index) {
            Ok(q) => (q.p.pool_key.clone(), q.p.liquidity.get(), q.p.lower_tick_index, q.p.upper_tick_index, false),
            Err(_) => return,
        },
        _ => return,
    };
    s.stats.eval("deposit or withdrawal against the exact value", 1);
    let mp = match before.pool(&key) {
        Ok(p) => p.clone(),
        Err(_) => return,
    };
    let pos = Position { liquidity: oraiswap_v3::liquidity::Liquidity::new(l), lower_tick_index: lo, upper_tick_index: up, ..Default::default() };
    if price_of_tick(lo).is_err() || price_of_tick(up).is_err() {
        return;
    }
    let (ex, ey) = exact_principal(&pos, &mp.p);
    let one = w(1) << 64;
    if opening {
        for (tok, e) in [(&key.token_x, ex), (&key.token_y, ey)] {
            let paid = -net(s, from, tok);
            // other coins attached by mistake are not part of the price
            if paid < 0 || ((w(paid as u128) << 64) + w(1 << 20)) < e || (w(paid as u128) << 64) > e + one * w(2) + (e >> 44) {
                s.flag(c(&[17]), "deposit price", format!("opening takes {paid} of {tok}, exact value {}", e >> 64));
            }
        }
    } else {
        let q = before.owners.get(from).map(|v| v.as_slice()).unwrap_or(&[]);
        if let ExecuteMsg::RemovePosition { index } = m {
            if let Some((fx, fy)) = q.get(*index as usize).and_then(|q| pending(&q.p, &mp)) {
                for (tok, e, f) in [(&key.token_x, ex, fx), (&key.token_y, ey, fy)] {
                    let got = net(s, from, tok);
                    if got < 0 || (w(got as u128) << 64) > e + f + w(1 << 20) || (w(got as u128) << 64) + one * w(4) + (e >> 44) < e + f {
                        s.flag(c(&[17, 7]), "withdrawal price", format!("closing returns {got} of {tok}, exact value {} + fees {}", e >> 64, f >> 64));
                    }
                }
            }
        }
    }
}

pub fn pool_now(s: &Sim, k: &PoolKey) -> Result<Pool, String> {
    s.ch.query(&QueryMsg::Pool { token_0: k.token_x.clone(), token_1: k.token_y.clone(), fee_tier: k.fee_tier })
}

// ---------------------------------------------------------------- quotes

pub enum Q {
    Swap(Result<QuoteResult, String>),
    Route(Result<TokenAmount, String>),
}
pub fn quote_before(s: &mut Sim, m: &ExecuteMsg) -> Option<Q> {
    match m {
        ExecuteMsg::Swap { pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit } => {
            let q = s.ch.query::<QuoteResult>(&QueryMsg::Quote {
                pool_key: pool_key.clone(),
                x_to_y: *x_to_y,
                amount: *amount,
                by_amount_in: *by_amount_in,
                sqrt_price_limit: *sqrt_price_limit,
            });
            Some(Q::Swap(q))
        }
        ExecuteMsg::SwapRoute { amount_in, swaps, .. } => {
            Some(Q::Route(s.ch.query::<TokenAmount>(&QueryMsg::QuoteRoute { amount_in: *amount_in, swaps: swaps.clone() })))
        }
        _ => None,
    }
}
pub fn quote_after(s: &mut Sim, from: &str, m: &ExecuteMsg, q: Q, ok: bool, before: &Rc<World>, funds: &[Coin]) {
    s.stats.eval("quote against execution", 1);
    // would the call alone (without payment problems and minimum output) succeed?
    let block = s.ch.n.block.clone();
    let excused = |s: &Sim| {
        let _ = s;
        let mut wd = (**before).clone();
        let cx = Ctx { block: &block, sender: from, funds, is_addr: &is_addr };
        matches!(wd.apply(&cx, m), Err(Why::Funds) | Err(Why::MinOut)) || s.ch.top_ok
            || matches!(m, ExecuteMsg::SwapRoute { slippage, .. } if slippage.get() as u128 > E12)
    };
    let p9 = c(&[9]);
    match (q, m) {
        (Q::Swap(Ok(q)), ExecuteMsg::Swap { pool_key, x_to_y, .. }) => {
            if !ok {
                // a failed transaction: the exchange must have accepted the swap itself
                if !excused(s) && funds_present(s, from, funds) {
                    s.flag(p9, "quoted but refused", format!("quote succeeds but the swap fails: {}", crate::check::brief(m)));
                }
                return;
            }
            let (ti, to) = if *x_to_y { (&pool_key.token_x, &pool_key.token_y) } else { (&pool_key.token_y, &pool_key.token_x) };
            let spent = -net(s, from, ti);
            let got = net(s, from, to);
            let p = pool_now(s, pool_key).map(|p| p.sqrt_price);
            if spent != q.amount_in.0 as i128 || got != q.amount_out.0 as i128 {
                s.flag(p9, "quote amounts", format!("quoted {}/{}, swapped {spent}/{got}", q.amount_in.0, q.amount_out.0));
            }
            if p != Ok(q.target_sqrt_price) {
                s.flag(p9, "quote price", format!("quoted price {}, got {p:?}", q.target_sqrt_price.get()));
            }
            let crossed: Vec<Tick> = s.ch.fx.last().and_then(|f| f.swaps.last()).map(|x| x.crossed.clone()).unwrap_or_default();
            let a: Vec<i32> = q.ticks.iter().map(|t| t.index).collect();
            let b: Vec<i32> = crossed.iter().map(|t| t.index).collect();
            if a != b {
                s.flag(p9, "quote ticks", format!("quoted crossed ticks {a:?}, crossed {b:?}"));
            }
            for t in &q.ticks {
                let now: Result<Tick, String> = s.ch.query(&QueryMsg::Tick { key: pool_key.clone(), index: t.index });
                if now.as_ref() != Ok(t) {
                    s.flag(p9, "quote tick contents", format!("quoted tick {t:?}, is {now:?}"));
                }
            }
        }
        (Q::Route(Ok(q)), ExecuteMsg::SwapRoute { swaps, .. }) => {
            if !ok {
                if !excused(s) && funds_present(s, from, funds) {
                    s.flag(p9, "quoted but refused", format!("route quote succeeds but the route fails: {}", crate::check::brief(m)));
                }
                return;
            }
            if swaps.is_empty() {
                return;
            }
            let l = &swaps[swaps.len() - 1];
            let to = if l.x_to_y { &l.pool_key.token_y } else { &l.pool_key.token_x };
            let out = s.ch.fx.last().and_then(|f| f.route_out);
            let unique = swaps.iter().all(|h| (if h.x_to_y { &h.pool_key.token_x } else { &h.pool_key.token_y }) != to)
                && swaps.iter().filter(|h| (if h.x_to_y { &h.pool_key.token_y } else { &h.pool_key.token_x }) == to).count() == 1;
            let got = if unique { Some(net(s, from, to) as u128) } else { out };
            if got != Some(q.0) {
                s.flag(p9, "route quote", format!("route quoted {}, delivered {got:?}", q.0));
            }
        }
        (Q::Swap(Err(e)), _) | (Q::Route(Err(e)), _) => {
            if ok {
                s.flag(p9, "refused quote", format!("quote fails ({e}) but the call succeeds: {}", crate::check::brief(m)));
            }
        }
        _ => {}
    }
}
fn funds_present(s: &Sim, from: &str, funds: &[Coin]) -> bool {
    funds.iter().all(|f| s.ch.bank(from, &f.denom) >= f.amount.u128())
}

// ---------------------------------------------------------------- listings

pub fn look(s: &mut Sim, what: &str, arg: u64) {
    match what {
        "lists" => lists(s, arg),
        "pools" => pools(s, arg),
        "ticks" => ticks(s, arg),
        "client" => client_picture(s, arg),
        "drain" => drain(s, arg),
        "round" => round_trip(s, arg),
        _ => {}
    }
}

fn lists(s: &mut Sim, arg: u64) {
    let mut r = Rng::new(arg);
    let wd = s.ch.model.clone();
    let page = *r.pick(&[1u32, 2, 3, 5, 7, 30, 100]);
    let p12 = c(&[12]);
    s.stats.eval("position listings", 1);
    let block = s.ch.n.block.clone();
    let mut all: BTreeSet<Vec<u8>> = BTreeSet::new();
    let who: Vec<String> = wd.owners.keys().cloned().chain(s.g.users.clone()).collect::<BTreeSet<_>>().into_iter().collect();
    for o in who {
        let empty = vec![];
        let ps = wd.owners.get(&o).unwrap_or(&empty);
        let addr = Addr::unchecked(o.clone());
        let n: Result<u32, String> = s.ch.query(&QueryMsg::UserPositionAmount { owner: addr.clone() });
        if n != Ok(ps.len() as u32) {
            s.flag(p12, "count", format!("{o}: count {n:?}, has {}", ps.len()));
        }
        let mut got: Vec<Position> = vec![];
        let mut toks: Vec<Vec<u8>> = vec![];
        let mut err = None;
        for at in (0..=ps.len() as u32).step_by(page as usize) {
            match s.ch.query::<Vec<Position>>(&QueryMsg::Positions { owner_id: addr.clone(), limit: Some(page), offset: Some(at) }) {
                Ok(v) => got.extend(v),
                Err(e) => err = Some(e),
            }
            match s.ch.query::<TokensResponse>(&QueryMsg::Tokens { owner: addr.clone(), start_after: Some(at), limit: Some(page) }) {
                Ok(v) => toks.extend(v.tokens.into_iter().map(|b| b.to_vec())),
                Err(e) => err = Some(e),
            }
        }
        if let Some(e) = err {
            s.flag(p12, "listing failed", format!("{o}: {e}"));
        }
        if got.len() != ps.len() || got.iter().zip(ps).any(|(a, b)| !same_pos(a, &b.p)) {
            s.flag(p12, "positions pages", format!("{o}: pages of {page} show {} positions, has {}", got.len(), ps.len()));
        }
        // without bounds: from the beginning
        let first: Result<Vec<Position>, String> = s.ch.query(&QueryMsg::Positions { owner_id: addr.clone(), limit: None, offset: None });
        let ok = match &first {
            Ok(v) => v.len() >= ps.len().min(1) && v.len() <= ps.len() && (v.len() == ps.len() || ps.len() > 100) && v.iter().zip(ps).all(|(a, b)| same_pos(a, &b.p)),
            Err(_) => false,
        };
        if !ok {
            s.flag(p12, "positions listing", format!("{o}: shows {:?} positions, has {}", first.map(|v| v.len()), ps.len()));
        }
        // everything from somewhere on
        let at = (arg % (ps.len() as u64 + 1)) as usize;
        let most = [u32::MAX, u32::MAX - 1, 1 << 31, 1 << 16][(arg >> 8) as usize % 4];
        let rest: Result<Vec<Position>, String> = s.ch.query(&QueryMsg::Positions { owner_id: addr.clone(), limit: Some(most), offset: Some(at as u32) });
        let keys: Result<TokensResponse, String> = s.ch.query(&QueryMsg::Tokens { owner: addr.clone(), start_after: Some(at as u32), limit: Some(most) });
        let left = ps.len() - at;
        let full = |n: usize| n == left || left > 100 && n >= 100 && n < left;
        let ok = match (&rest, &keys) {
            (Ok(v), Ok(k)) => {
                full(v.len())
                    && full(k.tokens.len())
                    && v.iter().zip(&ps[at..]).all(|(a, b)| same_pos(a, &b.p))
                    && k.tokens.iter().enumerate().all(|(i, t)| t.as_slice() == token_id(&o, (at + i) as u32))
            }
            _ => false,
        };
        if !ok {
            let e = rest.map(|v| v.len()).and_then(|n| keys.map(|k| (n, k.tokens.len())));
            s.flag(p12, "rest listing", format!("{o}: from {at} on with limit {most} shows {e:?} positions and tokens, has {left}"));
        }
        let want: Vec<Vec<u8>> = (0..ps.len() as u32).map(|i| token_id(&o, i)).collect();
        let (mut a, mut b) = (toks.clone(), want.clone());
        a.sort();
        b.sort();
        if a != b {
            s.flag(p12, "token pages", format!("{o}: {} tokens listed, has {}", toks.len(), want.len()));
        }
        for (i, q) in ps.iter().enumerate() {
            let id = Binary::from(token_id(&o, i as u32));
            all.insert(id.to_vec());
            let inc = r.chance(50);
            let own: Result<OwnerOfResponse, String> = s.ch.query(&QueryMsg::OwnerOf { token_id: id.clone(), include_expired: Some(inc) });
            let info: Result<NftInfoResponse, String> = s.ch.query(&QueryMsg::NftInfo { token_id: id.clone() });
            let both: Result<AllNftInfoResponse, String> = s.ch.query(&QueryMsg::AllNftInfo { token_id: id.clone(), include_expired: Some(inc) });
            let one: Result<Position, String> = s.ch.query(&QueryMsg::Position { owner_id: addr.clone(), index: i as u32 });
            let want_ap: BTreeSet<String> =
                q.p.approvals.iter().filter(|a| inc || !a.expires.is_expired(&block)).map(|a| format!("{} {:?}", a.spender, a.expires)).collect();
            let aps = |v: &[Approval]| v.iter().map(|a| format!("{} {:?}", a.spender, a.expires)).collect::<BTreeSet<_>>();
            match (&own, &info, &both, &one) {
                (Ok(a), Ok(b), Ok(cc), Ok(d)) => {
                    if a.owner != addr || cc.access.owner != addr {
                        s.flag(p12, "owner of", format!("token of {o}#{i}: owner {} / {}", a.owner, cc.access.owner));
                    }
                    if !same_pos(&b.extension, &q.p) || !same_pos(&cc.info.extension, &q.p) || !same_pos(d, &q.p) {
                        s.flag(p12, "token info", format!("token of {o}#{i}: contents differ"));
                    }
                    if aps(&a.approvals) != want_ap || aps(&cc.access.approvals) != want_ap {
                        s.flag(c(&[11, 12]), "approvals shown", format!("token of {o}#{i}: approvals {:?}, live {want_ap:?}", a.approvals));
                    }
                }
                _ => s.flag(p12, "token query failed", format!("token of {o}#{i}: {own:?} {:?} {:?} {:?}", info.is_ok(), both.is_ok(), one.is_ok())),
            }
        }
        // a token that does not exist
        let id = Binary::from(token_id(&o, ps.len() as u32));
        if s.ch.query::<OwnerOfResponse>(&QueryMsg::OwnerOf { token_id: id.clone(), include_expired: None }).is_ok()
            || s.ch.query::<NftInfoResponse>(&QueryMsg::NftInfo { token_id: id }).is_ok()
        {
            s.flag(p12, "ghost token", format!("{o}#{} is shown", ps.len()));
        }
        // operators
        for inc in [false, true] {
            let got = crate::check::operators(&s.ch, &o, inc, page);
            let a: BTreeMap<String, String> =
                got.clone().unwrap_or_default().into_iter().map(|(a, e)| (a, format!("{e:?}"))).collect();
            let b: BTreeMap<String, String> = wd
                .operators
                .iter()
                .filter(|((w, _), e)| *w == o && (inc || !e.is_expired(&block)))
                .map(|((_, a), e)| (a.clone(), format!("{e:?}")))
                .collect();
            if got.is_err() || a != b || a.len() != got.map(|g| g.len()).unwrap_or(0) {
                s.flag(c(&[11]), "operators shown", format!("{o}: operators {a:?}, should be {b:?}"));
            }
        }
    }
    let mut seen: Vec<Vec<u8>> = vec![];
    let mut after: Option<Binary> = None;
    for _ in 0..2000 {
        match s.ch.query::<TokensResponse>(&QueryMsg::AllTokens { start_after: after.clone(), limit: Some(page) }) {
            Ok(v) if v.tokens.is_empty() => break,
            Ok(v) => {
                if v.tokens.len() > page as usize {
                    s.flag(p12, "long page", format!("{} tokens on a page of {page}", v.tokens.len()));
                }
                after = v.tokens.last().cloned();
                seen.extend(v.tokens.into_iter().map(|b| b.to_vec()));
            }
            Err(e) => {
                s.flag(p12, "all tokens failed", e);
                break;
            }
        }
    }
    let set: BTreeSet<Vec<u8>> = seen.iter().cloned().collect();
    if set.len() != seen.len() || set != all {
        s.flag(p12, "all tokens", format!("all-tokens pages of {page} show {} tokens ({} distinct), there are {}", seen.len(), set.len(), all.len()));
    }
}
fn same_pos(a: &Position, b: &Position) -> bool {
    let mut a = a.clone();
    let mut b = b.clone();
    a.approvals.sort_by(|x, y| x.spender.cmp(&y.spender));
    b.approvals.sort_by(|x, y| x.spender.cmp(&y.spender));
    a == b
}

fn pools(s: &mut Sim, arg: u64) {
    let mut r = Rng::new(arg);
    let wd = s.ch.model.clone();
    let p13 = c(&[13]);
    s.stats.eval("pool and tier listings", 1);
    let page = *r.pick(&[1u32, 2, 3, 7, 100]);
    let mut got: Vec<PoolWithPoolKey> = vec![];
    let mut after = None;
    for _ in 0..500 {
        match s.ch.query::<Vec<PoolWithPoolKey>>(&QueryMsg::Pools { limit: Some(page), start_after: after.clone() }) {
            Ok(v) if v.is_empty() => break,
            Ok(v) => {
                after = v.last().map(|p| p.pool_key.clone());
                got.extend(v);
            }
            Err(e) => {
                s.flag(p13, "pools failed", e);
                break;
            }
        }
    }
    let ids: BTreeSet<Vec<u8>> = got.iter().map(|p| pkey(&p.pool_key)).collect();
    if ids.len() != got.len() || ids != wd.pools.keys().cloned().collect() {
        s.flag(p13, "pool pages", format!("pages of {page} show {} pools ({} distinct), there are {}", got.len(), ids.len(), wd.pools.len()));
    }
    for p in &got {
        if let Some((_, m)) = wd.pools.get(&pkey(&p.pool_key)) {
            if m.p != p.pool {
                s.flag(p13, "pool contents", format!("listing shows wrong contents for {}", pool_name(&p.pool_key)));
            }
        }
    }
    // per pair, both orders, over the listed tiers
    let toks = s.g.tokens.clone();
    for a in &toks {
        for b in &toks {
            let res = s.ch.query::<Vec<PoolWithPoolKey>>(&QueryMsg::PoolsForPair { token_0: a.clone(), token_1: b.clone() });
            if a == b {
                continue;
            }
            let want: BTreeSet<Vec<u8>> = wd
                .pools
                .iter()
                .filter(|(_, (k, _))| {
                    ((k.token_x == *a && k.token_y == *b) || (k.token_x == *b && k.token_y == *a)) && wd.tiers.contains(&k.fee_tier)
                })
                .map(|(k, _)| k.clone())
                .collect();
            match res {
                Ok(v) => {
                    // pools on tiers that are no longer listed may or may not be shown
                    let g: BTreeSet<Vec<u8>> = v.iter().filter(|p| wd.tiers.contains(&p.pool_key.fee_tier)).map(|p| pkey(&p.pool_key)).collect();
                    let all: BTreeSet<Vec<u8>> = v.iter().map(|p| pkey(&p.pool_key)).collect();
                    if g != want || all.len() != v.len() || all.iter().any(|k| !wd.pools.contains_key(k)) {
                        s.flag(p13, "pools of pair", format!("{a}/{b}: {} shown, {} registered", v.len(), want.len()));
                    }
                    for p in &v {
                        if wd.pools.get(&pkey(&p.pool_key)).map(|(_, m)| m.p != p.pool).unwrap_or(false) {
                            s.flag(p13, "pool contents", format!("pair listing shows wrong contents for {}", pool_name(&p.pool_key)));
                        }
                    }
                }
                Err(e) => s.flag(p13, "pools of pair failed", format!("{a}/{b}: {e}")),
            }
        }
    }
    // pools by either order of tokens
    for (k, m) in wd.pools.values() {
        for (a, b) in [(&k.token_x, &k.token_y), (&k.token_y, &k.token_x)] {
            let p: Result<Pool, String> = s.ch.query(&QueryMsg::Pool { token_0: a.clone(), token_1: b.clone(), fee_tier: k.fee_tier });
            if p.as_ref() != Ok(&m.p) {
                s.flag(p13, "single pool", format!("{a}/{b}: {p:?}"));
            }
        }
    }
    let mut tiers: Vec<FeeTier> = wd.tiers.clone();
    tiers.extend(wd.pools.values().map(|(k, _)| k.fee_tier));
    tiers.push(FeeTier { fee: oraiswap_v3::percentage::Percentage::new(r.below(1 << 40)), tick_spacing: r.range(1, 100) as u16 });
    for t in tiers {
        let e: Result<bool, String> = s.ch.query(&QueryMsg::FeeTierExist { fee_tier: t });
        if e != Ok(wd.tiers.contains(&t)) {
            s.flag(p13, "tier exists", format!("{t:?}: {e:?}"));
        }
    }
    let l: Result<Vec<FeeTier>, String> = s.ch.query(&QueryMsg::FeeTiers {});
    let l = l.unwrap_or_default();
    if l.len() != wd.tiers.len() || l.iter().any(|t| !wd.tiers.contains(t)) || (1..l.len()).any(|i| l[..i].contains(&l[i])) {
        s.flag(p13, "tier list", format!("{l:?} should be {:?}", wd.tiers));
    }
}

const CHUNK: i32 = 64;
fn chunk_of(t: i32, sp: i32) -> (i32, i32) {
    let b = (t + MAX_TICK) / sp;
    (b / CHUNK, b % CHUNK)
}
/// marks of the ticks, by chunk. The numbering of the chunks is part of the interface.
fn chunks(mp: &MPool, sp: i32) -> BTreeMap<u16, u64> {
    let mut m = BTreeMap::new();
    for t in mp.ticks.keys() {
        let (ch, b) = chunk_of(*t, sp);
        *m.entry(ch as u16).or_insert(0u64) |= 1 << b;
    }
    m
}

/// The tick map of a range. One answer holds a limited number of chunks; like a client, go on behind the last one.
fn tick_map(s: &Sim, key: &PoolKey, mut a: i32, mut b: i32, down: bool) -> Result<Vec<(u16, u64)>, String> {
    let sp = key.fee_tier.tick_spacing as i32;
    let first_of = |ch: i32| (ch * CHUNK - MAX_TICK / sp) * sp;
    let mut out: Vec<(u16, u64)> = vec![];
    loop {
        let v: Vec<(u16, u64)> =
            s.ch.query(&QueryMsg::TickMap { pool_key: key.clone(), lower_tick_index: a, upper_tick_index: b, x_to_y: down })?;
        let (n, last) = (v.len(), v.last().map(|x| x.0 as i32));
        out.extend(v);
        let Some(last) = last else { return Ok(out) };
        if n < sdk::get_max_tickmap_query_size() as usize {
            return Ok(out);
        }
        if down {
            b = first_of(last) - sp;
        } else {
            a = first_of(last + 1);
        }
        if a > b {
            return Ok(out);
        }
    }
}

fn ticks(s: &mut Sim, arg: u64) {
    let mut r = Rng::new(arg);
    let wd = s.ch.model.clone();
    if wd.pools.is_empty() {
        return;
    }
    let p14 = c(&[14]);
    let i = r.below(wd.pools.len() as u64) as usize;
    let (key, mp) = wd.pools.values().nth(i).unwrap();
    let sp = key.fee_tier.tick_spacing as i32;
    let (mn, mx) = (min_tick(sp as u16), max_tick(sp as u16));
    let all = chunks(mp, sp);
    let idx: Vec<i32> = mp.ticks.keys().copied().collect();
    for round in 0..6 {
        s.stats.eval("tick map and counting ranges", 1);
        // a range built from ticks, chunk borders, extremes
        let mut pickt = |r: &mut Rng| -> i32 {
            let t = match r.below(6) {
                0 => mn,
                1 => mx,
                2 if !idx.is_empty() => *r.pick(&idx),
                3 if !idx.is_empty() => {
                    let t = *r.pick(&idx);
                    // borders of its chunk
                    let (ch, _) = chunk_of(t, sp);
                    let b = (ch + r.below(2) as i32) * CHUNK - r.below(2) as i32;
                    let t0 = (mn + MAX_TICK) / sp;
                    mn + (b - t0) * sp
                }
                4 if !idx.is_empty() => *r.pick(&idx) + sp * r.range(-2, 2) as i32,
                _ => sp * r.range((mn / sp) as i64, (mx / sp) as i64) as i32,
            };
            t.clamp(mn, mx)
        };
        let (mut a, mut b) = (pickt(&mut r), pickt(&mut r));
        if round == 0 {
            (a, b) = (mn, mx);
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let down = r.chance(50);
        let (ca, cb) = (chunk_of(a, sp).0 as u16, chunk_of(b, sp).0 as u16);
        let mut want: Vec<(u16, u64)> = all.range(ca..=cb).map(|(k, v)| (*k, *v)).collect();
        if down {
            want.reverse();
        }
        match tick_map(s, key, a, b, down) {
            Ok(g) => {
                let g: Vec<(u16, u64)> = g.into_iter().filter(|x| x.1 != 0).collect();
                if g != want {
                    s.flag(p14, "tick map", format!("{} {a}..{b}: {g:?} should be {want:?}", pool_name(key)));
                }
            }
            Err(e) => s.flag(p14, "tick map failed", format!("{} {a}..{b}: {e}", pool_name(key))),
        }
        let want = mp.ticks.range(a..=b).count() as u32;
        let got: Result<u32, String> = s.ch.query(&QueryMsg::LiquidityTicksAmount { pool_key: key.clone(), lower_tick: a, upper_tick: b });
        if got != Ok(want) {
            s.flag(p14, "tick count", format!("{} {a}..{b}: {got:?} should be {want}", pool_name(key)));
        }
        let sel: Vec<i32> = mp.ticks.range(a..=b).map(|(k, _)| *k).take(sdk::get_liquidity_ticks_limit() as usize).collect();
        let got: Result<Vec<LiquidityTick>, String> = s.ch.query(&QueryMsg::LiquidityTicks { pool_key: key.clone(), tick_indexes: sel.clone() });
        match got {
            Ok(g) => {
                let ok = g.len() == sel.len()
                    && g.iter().zip(&sel).all(|(g, i)| {
                        let t = &mp.ticks[i];
                        g.index == *i && (if g.sign { g.liquidity_change.get() as i128 } else { -(g.liquidity_change.get() as i128) }) == net_of(t)
                    });
                if !ok {
                    s.flag(p14, "liquidity ticks", format!("{}: {g:?}", pool_name(key)));
                }
            }
            Err(e) => s.flag(p14, "liquidity ticks failed", format!("{} {sel:?}: {e}", pool_name(key))),
        }
        // a page as long as clients are told they may ask for
        if !sel.is_empty() && r.chance(5) {
            let n = sdk::get_liquidity_ticks_limit() as usize;
            let long: Vec<i32> = (0..n).map(|i| sel[i % sel.len()]).collect();
            let got: Result<Vec<LiquidityTick>, String> = s.ch.query(&QueryMsg::LiquidityTicks { pool_key: key.clone(), tick_indexes: long });
            if got.as_ref().map(|g| g.len()) != Ok(n) {
                s.flag(c(&[14, 15]), "long page", format!("{}: {n} ticks asked for: {:?}", pool_name(key), got.map(|g| g.len())));
            }
        }
        // single ticks, also ones that do not exist
        for t in [a, b] {
            let q: Result<Tick, String> = s.ch.query(&QueryMsg::Tick { key: key.clone(), index: t });
            let f: Result<bool, String> = s.ch.query(&QueryMsg::IsTickInitialized { key: key.clone(), index: t });
            let m = mp.ticks.get(&t);
            if q.is_ok() != m.is_some() || f != Ok(m.is_some()) {
                s.flag(p14, "single tick", format!("{} {t}: {q:?} {f:?}", pool_name(key)));
            }
        }
    }
    // ticks of positions
    for (o, ps) in &wd.owners {
        let off = r.below(ps.len() as u64 + 1) as u32;
        let got: Result<Vec<PositionTick>, String> = s.ch.query(&QueryMsg::PositionTicks { owner: Addr::unchecked(o.clone()), offset: off });
        let mut want = vec![];
        for q in ps.iter().skip(off as usize) {
            for t in [q.p.lower_tick_index, q.p.upper_tick_index] {
                if let Some(t) = wd.pools.get(&pkey(&q.p.pool_key)).and_then(|(_, m)| m.ticks.get(&t)) {
                    want.push(PositionTick {
                        index: t.index,
                        fee_growth_outside_x: t.fee_growth_outside_x,
                        fee_growth_outside_y: t.fee_growth_outside_y,
                        seconds_outside: t.seconds_outside,
                    });
                }
            }
        }
        if want.len() < 300 && got.as_ref() != Ok(&want) {
            s.flag(p14, "position ticks", format!("{o} from {off}: {got:?} should be {want:?}"));
        }
    }
}

// ---------------------------------------------------------------- the client

fn sdk_tier(t: &FeeTier) -> sdk::FeeTier {
    sdk::FeeTier { fee: sdk::percentage::Percentage(t.fee.get()), tick_spacing: t.tick_spacing }
}
fn sdk_pool(p: &Pool) -> sdk::Pool {
    sdk::Pool {
        liquidity: sdk::liquidity::Liquidity(p.liquidity.get()),
        sqrt_price: sdk::sqrt_price::SqrtPrice(p.sqrt_price.get()),
        current_tick_index: p.current_tick_index,
        fee_growth_global_x: sdk::fee_growth::FeeGrowth(p.fee_growth_global_x.get()),
        fee_growth_global_y: sdk::fee_growth::FeeGrowth(p.fee_growth_global_y.get()),
        fee_protocol_token_x: sdk::token_amount::TokenAmount(p.fee_protocol_token_x.0),
        fee_protocol_token_y: sdk::token_amount::TokenAmount(p.fee_protocol_token_y.0),
        start_timestamp: p.start_timestamp,
        last_timestamp: p.last_timestamp,
        fee_receiver: p.fee_receiver.clone(),
    }
}
pub struct Download {
    pool: Pool,
    map: std::collections::HashMap<u64, u64>,
    ticks: Vec<LiquidityTick>,
}
/// Downloads a pool the way an off-chain client does, through the public queries, in pages.
fn download(s: &Sim, key: &PoolKey, r: &mut Rng) -> Result<Download, String> {
    let pool = pool_now(s, key)?;
    let sp = key.fee_tier.tick_spacing as i32;
    let (mn, mx) = (min_tick(sp as u16), max_tick(sp as u16));
    let mut map = std::collections::HashMap::new();
    let pages = 1 + r.below(4) as i32;
    let span = ((mx - mn) / pages / sp).max(1) * sp;
    let mut a = mn;
    while a <= mx {
        let b = (a + span).min(mx);
        for (k, x) in tick_map(s, key, a, b, r.chance(50))? {
            map.insert(k as u64, x);
        }
        if b == mx {
            break;
        }
        a = b + sp;
    }
    let mut idx = vec![];
    for (ch, bits) in &map {
        for b in 0..64 {
            if bits >> b & 1 == 1 {
                idx.push(sdk::position_to_tick(*ch as u16, b as u8, sp as u16));
            }
        }
    }
    idx.sort();
    let mut ticks: Vec<LiquidityTick> = vec![];
    let page = *r.pick(&[1usize, 3, 20, 200]);
    for part in idx.chunks(page) {
        ticks.extend(s.ch.query::<Vec<LiquidityTick>>(&QueryMsg::LiquidityTicks { pool_key: key.clone(), tick_indexes: part.to_vec() })?);
    }
    Ok(Download { pool, map, ticks })
}

fn client_picture(s: &mut Sim, arg: u64) {
    let mut r = Rng::new(arg);
    let wd = s.ch.model.clone();
    if wd.pools.is_empty() {
        return;
    }
    s.stats.eval("client's picture of a pool", 1);
    let big = wd.pools.values().position(|(_, mp)| mp.ticks.len() > 170);
    let i = match big {
        Some(i) if r.chance(70) => i,
        _ => r.below(wd.pools.len() as u64) as usize,
    };
    let (key, mp) = wd.pools.values().nth(i).unwrap();
    let p = c(&[14]);
    match download(s, key, &mut r) {
        Err(e) => s.flag(p, "download failed", format!("{}: {e}", pool_name(key))),
        Ok(d) => {
            let got: Vec<(i32, i128)> = d
                .ticks
                .iter()
                .map(|t| (t.index, if t.sign { t.liquidity_change.get() as i128 } else { -(t.liquidity_change.get() as i128) }))
                .collect();
            let mut want: BTreeMap<i32, i128> = BTreeMap::new();
            for q in wd.positions_of_pool(key) {
                *want.entry(q.p.lower_tick_index).or_default() += q.p.liquidity.get() as i128;
                *want.entry(q.p.upper_tick_index).or_default() -= q.p.liquidity.get() as i128;
            }
            let want: Vec<(i32, i128)> = want.into_iter().collect();
            if got != want {
                s.flag(p, "picture", format!("{}: assembled {got:?}, positions give {want:?}", pool_name(key)));
            }
            // swaps the client could ask for, simulated against the quote of the same moment
            for _ in 0..4 {
                let down = r.chance(50);
                let by_in = r.chance(60);
                let n = 1 + r.below(60) as u32;
                let mut amount = 1 + r.logu(n);
                let ladder: Vec<i32> = if mp.ticks.len() <= 170 {
                    vec![]
                } else if down {
                    mp.ticks.range(..=mp.p.current_tick_index).rev().map(|t| *t.0).take(180).collect()
                } else {
                    mp.ticks.range(mp.p.current_tick_index + 1..).map(|t| *t.0).take(180).collect()
                };
                let limit = if ladder.len() > 170 && r.chance(60) {
                    // about as many ticks as the SDK follows
                    amount = 1 << 80;
                    price_of_tick(ladder[(ladder.len() - 1).min(170 + r.below(6) as usize)]).unwrap_or(World::route_limit(down))
                } else if r.chance(60) {
                    World::route_limit(down)
                } else {
                    let t = mp.p.current_tick_index + key.fee_tier.tick_spacing as i32 * if down { -1 } else { 1 } * r.range(1, 300) as i32;
                    price_of_tick(t).unwrap_or(World::route_limit(down))
                };
                let q = s.ch.query::<QuoteResult>(&QueryMsg::Quote {
                    pool_key: key.clone(),
                    x_to_y: down,
                    amount: TokenAmount(amount),
                    by_amount_in: by_in,
                    sqrt_price_limit: oraiswap_v3::sqrt_price::SqrtPrice::new(limit),
                });
                let real = q.as_ref().map(|q| (q.amount_in.0, q.amount_out.0, q.target_sqrt_price.get())).map_err(|e| e.as_str());
                sdk_swap(s, key, &d, down, amount, by_in, limit, real);
                // a page of ticks was lost on the way to the client
                if !d.ticks.is_empty() && r.chance(35) {
                    let from = r.below(d.ticks.len() as u64) as usize;
                    let n = 1 + r.below(3) as usize;
                    let kept = d.ticks.iter().enumerate().filter(|(i, _)| *i < from || *i >= from + n).map(|(_, t)| t.clone()).collect();
                    let torn = Download { pool: d.pool.clone(), map: d.map.clone(), ticks: kept };
                    *s.stats.faults.entry("lost page of a client download".into()).or_insert(0) += 1;
                    s.stats.eval("SDK with a lost page", 1);
                    if let Some(sim) = sdk_run(key, &torn, down, amount, by_in, limit) {
                        let silent = !sim.0;
                        if silent && real.map_or(false, |r| r != (sim.1, sim.2, sim.3)) {
                            s.flag(
                                c(&[15]),
                                "sdk lost page",
                                format!("{} {down} {amount} by_in={by_in} limit={limit}: with ticks missing the SDK gives {:?} without a warning, the chain {real:?}", pool_name(key), (sim.1, sim.2, sim.3)),
                            );
                        }
                    }
                }
            }
        }
    }
}

/// What the SDK makes of a download: whether it says that something is wrong, amounts and price.
fn sdk_run(key: &PoolKey, d: &Download, down: bool, amount: u128, by_in: bool, limit: u128) -> Option<(bool, u128, u128, u128)> {
    let ticks: Vec<sdk::LiquidityTick> = d
        .ticks
        .iter()
        .map(|t| sdk::LiquidityTick { index: t.index, liquidity_change: sdk::liquidity::Liquidity(t.liquidity_change.get()), sign: t.sign })
        .collect();
    let map = sdk::Tickmap { bitmap: d.map.clone() };
    let r = catch_unwind(AssertUnwindSafe(|| {
        sdk::SIM_TICKS.with(|t| *t.borrow_mut() = ticks);
        sdk::simulate_swap(
            map,
            sdk_tier(&key.fee_tier),
            sdk_pool(&d.pool),
            wasm_null(),
            down,
            sdk::token_amount::TokenAmount(amount),
            by_in,
            sdk::sqrt_price::SqrtPrice(limit),
        )
        .map_err(|_| "error".to_string())
    }));
    let sim = r.ok()?.ok()?;
    Some((
        sim.global_insufficient_liquidity || sim.state_outdated || sim.max_ticks_crossed,
        sim.amount_in.0,
        sim.amount_out.0,
        sim.target_sqrt_price.0,
    ))
}

/// SDK simulation against what the chain does (`real`: amounts and final price, or its refusal).
#[allow(clippy::too_many_arguments)]
fn sdk_swap(s: &mut Sim, key: &PoolKey, d: &Download, down: bool, amount: u128, by_in: bool, limit: u128, real: Result<(u128, u128, u128), &str>) {
    s.stats.eval("SDK swap simulation", 1);
    let ticks: Vec<sdk::LiquidityTick> = d
        .ticks
        .iter()
        .map(|t| sdk::LiquidityTick { index: t.index, liquidity_change: sdk::liquidity::Liquidity(t.liquidity_change.get()), sign: t.sign })
        .collect();
    let map = sdk::Tickmap { bitmap: d.map.clone() };
    let r = catch_unwind(AssertUnwindSafe(|| {
        sdk::SIM_TICKS.with(|t| *t.borrow_mut() = ticks);
        sdk::simulate_swap(
            map,
            sdk_tier(&key.fee_tier),
            sdk_pool(&d.pool),
            wasm_null(),
            down,
            sdk::token_amount::TokenAmount(amount),
            by_in,
            sdk::sqrt_price::SqrtPrice(limit),
        )
        .map_err(|_| "error".to_string())
    }));
    let p15 = c(&[15]);
    let what = format!("{} {} {amount} by_in={by_in} limit={limit}", pool_name(key), if down { "x->y" } else { "y->x" });
    match (r, real) {
        (Ok(Ok(sim)), Ok((ain, aout, price))) => {
            if sim.max_ticks_crossed {
                // the SDK reports that it stops at its own bound
                let wd = s.ch.model.clone();
                let now = s.ch.n.block.time.nanos() / 1_000_000;
                let n = wd.pool(key).ok().and_then(|mp| swap(mp, key, wd.protocol_fee, now, down, amount, by_in, limit).ok()).map(|m| m.crossed.len());
                s.stats.eval("SDK stops at its bound", 1);
                if n.map_or(false, |n| n <= 173) {
                    s.flag(p15, "sdk refuses", format!("{what}: SDK stops at {} ticks but the chain crosses {n:?}", sim.crossed_ticks.len()));
                }
                return;
            }
            if sim.global_insufficient_liquidity || sim.state_outdated {
                s.flag(p15, "sdk refuses", format!("{what}: SDK reports the swap as impossible but the chain does it"));
            } else if sim.amount_in.0 != ain || sim.amount_out.0 != aout || sim.target_sqrt_price.0 != price {
                s.flag(
                    p15,
                    "sdk differs",
                    format!(
                        "{what}: SDK {}/{} price {}, chain {ain}/{aout} price {price}",
                        sim.amount_in.0, sim.amount_out.0, sim.target_sqrt_price.0
                    ),
                );
            } else {
                let wd = s.ch.model.clone();
                if let Ok(mp) = wd.pool(key) {
                    let now = s.ch.n.block.time.nanos() / 1_000_000;
                    if let Ok(m) = swap(mp, key, wd.protocol_fee, now, down, amount, by_in, limit) {
                        if m.amount_in == ain && sim.fee.0 != m.fee {
                            s.flag(p15, "sdk fee", format!("{what}: SDK fee {}, chain fee {}", sim.fee.0, m.fee));
                        }
                        if m.crossed.len() != sim.crossed_ticks.len() && m.amount_in == ain {
                            s.flag(p15, "sdk ticks", format!("{what}: SDK crosses {}, chain {}", sim.crossed_ticks.len(), m.crossed.len()));
                        }
                    }
                }
            }
        }
        (Ok(Ok(sim)), Err(e)) => {
            let fine = sim.global_insufficient_liquidity || sim.state_outdated || sim.max_ticks_crossed || sim.amount_out.0 == 0;
            // the SDK does not know the protocol fee and so does not track the range of the fee counters
            let wd = s.ch.model.clone();
            let now = s.ch.n.block.time.nanos() / 1_000_000;
            let range = wd
                .pool(key)
                .map(|mp| matches!(swap(mp, key, wd.protocol_fee, now, down, amount, by_in, limit), Err(Why::Overflow)))
                .unwrap_or(false);
            if !fine && !range {
                s.flag(p15, "sdk accepts", format!("{what}: SDK simulates the swap but the chain refuses: {e}"));
            }
        }
        (Ok(Err(_)), Ok(_)) => s.flag(p15, "sdk error", format!("{what}: SDK fails but the chain does it")),
        (Err(_), Ok(_)) => s.flag(p15, "sdk panic", format!("{what}: SDK panics but the chain does it")),
        (Ok(Err(_)), Err(_)) | (Err(_), Err(_)) => {}
    }
}
fn wasm_null() -> wasm_bindgen::JsValue {
    wasm_bindgen::JsValue::NULL
}

/// The client computes what its transaction will do, from queries, just before it is executed; the
/// prediction is compared with the reference result of the very same call (which the refinement check
/// ties to the real outcome).
pub fn client_before(s: &mut Sim, from: &str, m: &ExecuteMsg) {
    let mut r = Rng::new(s.step_no as u64 ^ 0xC11E);
    sdk_helpers(s, m, &mut r);
    let wd = s.ch.model.clone();
    let p15 = c(&[15]);
    let block = s.ch.n.block.clone();
    let outcome = |wd: &World, funds: &[Coin]| {
        let mut w2 = wd.clone();
        let cx = Ctx { block: &block, sender: from, funds, is_addr: &is_addr };
        w2.apply(&cx, m)
    };
    let plenty: Vec<Coin> =
        s.g.tokens.iter().filter(|t| !is_addr(t)).map(|t| Coin { denom: t.clone(), amount: Uint128::new(u128::MAX >> 2) }).collect();
    match m {
        ExecuteMsg::Swap { pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit } => {
            if wd.pool(pool_key).is_err() {
                return;
            }
            let d = match download(s, pool_key, &mut r) {
                Ok(d) => d,
                Err(e) => {
                    s.flag(c(&[14]), "download failed", e);
                    return;
                }
            };
            // what the chain says at this moment
            let q = s.ch.query::<QuoteResult>(&QueryMsg::Quote {
                pool_key: pool_key.clone(),
                x_to_y: *x_to_y,
                amount: *amount,
                by_amount_in: *by_amount_in,
                sqrt_price_limit: *sqrt_price_limit,
            });
            sdk_swap(
                s,
                pool_key,
                &d,
                *x_to_y,
                amount.0,
                *by_amount_in,
                sqrt_price_limit.get(),
                q.as_ref().map(|q| (q.amount_in.0, q.amount_out.0, q.target_sqrt_price.get())).map_err(|e| e.as_str()),
            );
        }
        ExecuteMsg::CreatePosition { pool_key, lower_tick, upper_tick, liquidity_delta, .. } => {
            if let (Ok(p), Ok(fx)) = (pool_now(s, pool_key), outcome(&wd, &plenty)) {
                s.stats.eval("SDK deposit amounts", 1);
                let a = sdk_amounts(&p, liquidity_delta.get(), true, *lower_tick, *upper_tick);
                if a != fx.principal {
                    s.flag(p15, "sdk deposit", format!("SDK {a:?}, chain {:?} for {}", fx.principal, crate::check::brief(m)));
                }
                sdk_liquidity(s, &p, *lower_tick, *upper_tick, fx.principal.unwrap_or((0, 0)), &mut r);
            }
        }
        ExecuteMsg::RemovePosition { index } | ExecuteMsg::ClaimFee { index } => {
            let q: Result<Position, String> = s.ch.query(&QueryMsg::Position { owner_id: Addr::unchecked(from), index: *index });
            if let (Ok(q), Ok(fx)) = (q, outcome(&wd, &[])) {
                let p = match pool_now(s, &q.pool_key) {
                    Ok(p) => p,
                    Err(_) => return,
                };
                if matches!(m, ExecuteMsg::RemovePosition { .. }) {
                    s.stats.eval("SDK withdrawal amounts", 1);
                    let a = sdk_amounts(&p, q.liquidity.get(), false, q.lower_tick_index, q.upper_tick_index);
                    if a != fx.principal {
                        s.flag(p15, "sdk withdrawal", format!("SDK {a:?}, chain {:?} for {}", fx.principal, crate::check::brief(m)));
                    }
                }
                s.stats.eval("SDK unclaimed fees", 1);
                let t: Result<Vec<PositionTick>, String> = s.ch.query(&QueryMsg::PositionTicks { owner: Addr::unchecked(from), offset: *index });
                let fee = match t {
                    Ok(t) if t.len() >= 2 => sdk_fee(&q, &p, &t[0], &t[1]),
                    _ => None,
                };
                let want = fx.claimed.as_ref().map(|c| (c.x, c.y));
                if fee != want {
                    s.flag(p15, "sdk fees", format!("SDK {fee:?}, chain {want:?} for {}", crate::check::brief(m)));
                }
            }
        }
        ExecuteMsg::SwapRoute { expected_amount_out, slippage, .. } => {
            if slippage.get() as u128 <= E12 {
                s.stats.eval("SDK minimum output", 1);
                let want = mul_pct_up(expected_amount_out.0, E12 as u64 - slippage.get()).ok();
                let got = catch_unwind(|| {
                    sdk::clamm::calculate_min_amount_out(
                        sdk::token_amount::TokenAmount(expected_amount_out.0),
                        sdk::percentage::Percentage(slippage.get()),
                    )
                    .0
                })
                .ok();
                if want.is_some() && got != want {
                    s.flag(p15, "sdk minimum", format!("SDK {got:?}, chain {want:?}"));
                }
            }
        }
        _ => {}
    }
}
/// What a client asks the SDK while it builds the message: which token is x, whether a tier, a tick or a
/// starting price is acceptable, how much liquidity a tick can take, what price a tick has and where in
/// the bitmap it lies. Each answer must be the rule the chain will apply.
fn sdk_helpers(s: &mut Sim, m: &ExecuteMsg, r: &mut Rng) {
    use sdk::sqrt_price::SqrtPrice as SP;
    let p15 = c(&[15]);
    let mut bad: Vec<String> = vec![];
    fn safe<T>(f: impl FnOnce() -> T) -> Option<T> {
        catch_unwind(AssertUnwindSafe(f)).ok()
    }
    let mut pair: Option<(String, String)> = None;
    let mut tier: Option<FeeTier> = None;
    let mut ticks: Vec<i32> = vec![];
    match m {
        ExecuteMsg::CreatePool { token_0, token_1, fee_tier, init_sqrt_price, init_tick } => {
            pair = Some((token_0.clone(), token_1.clone()));
            tier = Some(*fee_tier);
            let (sp, pr) = (fee_tier.tick_spacing, init_sqrt_price.get());
            if (1..=100).contains(&sp) && pr >= min_price() && pr <= max_price() {
                let got = safe(|| sdk::check_tick_to_sqrt_price_relationship(*init_tick, sp, SP(pr)).ok()).flatten();
                let want = price_matches_tick(*init_tick, sp, pr).ok();
                if got != want {
                    bad.push(format!("starting price {pr} at tick {init_tick}, spacing {sp}: SDK says {got:?}, the chain {want:?}"));
                }
                let got = safe(|| sdk::get_tick_at_sqrt_price(SP(pr), sp).ok()).flatten();
                let want = tick_of_price(pr, sp).ok();
                if got != want {
                    bad.push(format!("tick of price {pr}, spacing {sp}: SDK {got:?}, chain {want:?}"));
                }
                ticks.push(*init_tick);
            }
        }
        ExecuteMsg::AddFeeTier { fee_tier } => tier = Some(*fee_tier),
        ExecuteMsg::CreatePosition { pool_key, lower_tick, upper_tick, .. } => {
            pair = Some((pool_key.token_x.clone(), pool_key.token_y.clone()));
            tier = Some(pool_key.fee_tier);
            ticks.extend([*lower_tick, *upper_tick]);
        }
        ExecuteMsg::Swap { pool_key, .. } => {
            pair = Some((pool_key.token_x.clone(), pool_key.token_y.clone()));
            tier = Some(pool_key.fee_tier);
            if let Ok(p) = pool_now(s, pool_key) {
                let (sp, pr) = (pool_key.fee_tier.tick_spacing, p.sqrt_price.get());
                let got = safe(|| sdk::get_tick_at_sqrt_price(SP(pr), sp).ok()).flatten();
                let want = tick_of_price(pr, sp).ok();
                if got != want {
                    bad.push(format!("tick of price {pr}, spacing {sp}: SDK {got:?}, chain {want:?}"));
                }
            }
        }
        _ => return,
    }
    s.stats.eval("SDK helper answers", 1);
    if let (Some((a, b)), Some(t)) = (&pair, &tier) {
        for (a, b) in [(a, b), (b, a)] {
            let got = safe(|| sdk::PoolKey::new(a.clone(), b.clone(), sdk_tier(t)).ok().map(|k| (k.token_x, k.token_y, k.fee_tier.fee.0, k.fee_tier.tick_spacing))).flatten();
            let want = PoolKey::new(a.clone(), b.clone(), *t).ok().map(|_| {
                let (x, y) = if a < b { (a, b) } else { (b, a) };
                (x.clone(), y.clone(), t.fee.get(), t.tick_spacing)
            });
            let tx = safe(|| sdk::is_token_x(a.clone(), b.clone()).ok()).flatten();
            if got != want || (a != b && tx != Some(a < b)) {
                bad.push(format!("pool of {a} and {b}: SDK says {got:?} (first is x: {tx:?}), the chain {want:?}"));
            }
        }
    }
    if let Some(t) = &tier {
        let (sp, f) = (t.tick_spacing, t.fee.get());
        let got = safe(|| sdk::FeeTier::new(sdk::percentage::Percentage(f), sp).is_ok());
        let valid = (1..=100).contains(&sp);
        if got != Some(valid && f as u128 <= E12) {
            bad.push(format!("fee tier {f}/{sp}: SDK acceptable={got:?}"));
        }
        if valid {
            // around the ends of the range and anywhere: which prices belong to which tick
            let (mn, mx, d) = (min_tick(sp), max_tick(sp), sp as i32);
            let tk = match r.below(6) {
                0 => mx,
                1 => mx - d,
                2 => mn,
                3 => mn + d,
                _ => r.range((mn / d) as i64, (mx / d) as i64) as i32 * d,
            };
            let lo = price_of_tick(tk).unwrap_or(0);
            let hi = price_of_tick(tk + d).unwrap_or(max_price());
            let pr = match r.below(5) {
                0 => lo,
                1 => lo.saturating_sub(1),
                2 => hi,
                3 => hi - 1,
                _ => lo + r.below128(hi.saturating_sub(lo).max(1)),
            };
            let near = |r: &mut Rng| match r.below(5) {
                0 => *r.pick(&[mn, mx, mn - d, mx + d, mn - 1, mx + 1]),
                1 => r.range((mn / d) as i64, (mx / d) as i64) as i32 * d + 1,
                _ => r.range((mn / d) as i64, (mx / d) as i64) as i32 * d,
            };
            let (lt, ut) = (near(r), near(r));
            if lt != ut {
                let got = safe(|| sdk::clamm::check_ticks(lt, ut, sp).is_ok());
                let want = lt < ut && tick_ok(lt, sp) && tick_ok(ut, sp);
                if got != Some(want) {
                    bad.push(format!("range {lt}..{ut}, spacing {sp}: SDK acceptable={got:?}, the chain {want}"));
                }
            }
            if pr >= min_price() && pr <= max_price() {
                let got = safe(|| sdk::check_tick_to_sqrt_price_relationship(tk, sp, SP(pr)).ok()).flatten();
                let want = price_matches_tick(tk, sp, pr).ok();
                let (gt, wt) = (safe(|| sdk::get_tick_at_sqrt_price(SP(pr), sp).ok()).flatten(), tick_of_price(pr, sp).ok());
                if got != want || gt != wt {
                    bad.push(format!("price {pr} and tick {tk}, spacing {sp}: SDK says {got:?} (tick {gt:?}), the chain {want:?} (tick {wt:?})"));
                }
            }
            let last = chunk_of(max_tick(sp), sp as i32).0;
            let got = (sdk::get_max_chunk(sp) as i32, sdk::get_chunk_size());
            if got != (last, CHUNK) {
                bad.push(format!("tick map of spacing {sp}: SDK's last chunk and chunk size {got:?}, the chain's {:?}", (last, CHUNK)));
            }
            let (mn, mx) = (min_tick(sp), max_tick(sp));
            let got = safe(|| (sdk::sqrt_price::get_min_tick(sp), sdk::sqrt_price::get_max_tick(sp), sdk::sqrt_price::get_min_sqrt_price(sp).0, sdk::sqrt_price::get_max_sqrt_price(sp).0));
            let want = (mn, mx, price_of_tick(mn).unwrap_or(0), price_of_tick(mx).unwrap_or(0));
            if got != Some(want) {
                bad.push(format!("bounds for spacing {sp}: SDK {got:?}, chain {want:?}"));
            }
            let got = safe(|| sdk::clamm::calculate_max_liquidity_per_tick(sp).0);
            if got != Some(max_liquidity_per_tick(sp)) {
                bad.push(format!("largest liquidity of a tick, spacing {sp}: SDK {got:?}, chain {}", max_liquidity_per_tick(sp)));
            }
            ticks.extend([mn, mx, mx + sp as i32, r.range(mn as i64, mx as i64) as i32, r.range((mn / sp as i32) as i64, (mx / sp as i32) as i64) as i32 * sp as i32]);
            for t in ticks {
                let got = safe(|| sdk::clamm::check_tick(t, sp).is_ok());
                if got != Some(tick_ok(t, sp)) {
                    bad.push(format!("tick {t}, spacing {sp}: SDK acceptable={got:?}, the chain {}", tick_ok(t, sp)));
                }
                if (min_tick(1)..=max_tick(1)).contains(&t) {
                    let got = safe(|| sdk::sqrt_price::calculate_sqrt_price(t).ok().map(|p| p.0)).flatten();
                    let want = price_of_tick(t).ok();
                    if got != want {
                        bad.push(format!("price of tick {t}: SDK {got:?}, chain {want:?}"));
                    }
                }
                if tick_ok(t, sp) {
                    let i = (t + max_tick(1)) / sp as i32;
                    let got = safe(|| sdk::tick_to_position_js(t, sp).ok().map(|p| (p.chunk as i32, p.bit as i32))).flatten();
                    let back = safe(|| sdk::position_to_tick((i / 64) as u16, (i % 64) as u8, sp));
                    if got != Some((i / 64, i % 64)) || back != Some(t) {
                        bad.push(format!("place of tick {t}, spacing {sp}: SDK {got:?} and back {back:?}, chain {:?}", (i / 64, i % 64)));
                    }
                }
            }
        }
    }
    for b in bad {
        s.flag(p15, "sdk helper", b);
    }
}
fn sdk_amounts(p: &Pool, l: u128, up: bool, lo: i32, hi: i32) -> Option<(u128, u128)> {
    catch_unwind(AssertUnwindSafe(|| {
        sdk::clamm::calculate_amount_delta(
            p.current_tick_index,
            sdk::sqrt_price::SqrtPrice(p.sqrt_price.get()),
            sdk::liquidity::Liquidity(l),
            up,
            hi,
            lo,
        )
        .ok()
        .map(|a| (a.x.0, a.y.0))
    }))
    .ok()
    .flatten()
}
fn sdk_fee(q: &Position, p: &Pool, lo: &PositionTick, up: &PositionTick) -> Option<(u128, u128)> {
    use sdk::fee_growth::FeeGrowth as G;
    catch_unwind(AssertUnwindSafe(|| {
        sdk::calculate_fee(
            lo.index,
            G(lo.fee_growth_outside_x.get()),
            G(lo.fee_growth_outside_y.get()),
            up.index,
            G(up.fee_growth_outside_x.get()),
            G(up.fee_growth_outside_y.get()),
            p.current_tick_index,
            G(p.fee_growth_global_x.get()),
            G(p.fee_growth_global_y.get()),
            G(q.fee_growth_inside_x.get()),
            G(q.fee_growth_inside_y.get()),
            sdk::liquidity::Liquidity(q.liquidity.get()),
        )
        .ok()
        .map(|a| (a.x.0, a.y.0))
    }))
    .ok()
    .flatten()
}
/// Liquidity the SDK computes for a token amount: depositing it must not need more than that amount
/// (rounding down), and the other amount must be the one the chain takes.
fn sdk_liquidity(s: &mut Sim, p: &Pool, lo: i32, up: i32, have: (u128, u128), r: &mut Rng) {
    let by_x = r.chance(50);
    let round = r.chance(50);
    let n = 1 + r.below(90) as u32;
    let had = if by_x { have.0 } else { have.1 };
    let amount = if had > 0 && r.chance(60) { had } else { 1 + r.logu(n) };
    if amount >> 96 != 0 || lo >= up {
        return;
    }
    let (pl, pu, pc) = (price_of_tick(lo).unwrap_or(1), price_of_tick(up).unwrap_or(1), p.sqrt_price.get());
    // on a bound of the range the answer depends on which side the bound counts to
    if if by_x { pc >= pu } else { pc <= pl } {
        return;
    }
    let got = catch_unwind(AssertUnwindSafe(|| {
        let (a, c) = (sdk::token_amount::TokenAmount(amount), sdk::sqrt_price::SqrtPrice(pc));
        if by_x { sdk::get_liquidity_by_x(a, lo, up, c, round) } else { sdk::get_liquidity_by_y(a, lo, up, c, round) }
            .ok()
            .map(|v| (v.l.0, v.amount.0))
    }))
    .ok()
    .flatten();
    s.stats.eval("SDK liquidity for an amount", 1);
    let (l, other) = match got {
        Some(v) => v,
        // liquidity beyond the range of the type
        None => return,
    };
    let (ex, ey) = exact_principal(
        &Position { liquidity: oraiswap_v3::liquidity::Liquidity::new(l), lower_tick_index: lo, upper_tick_index: up, ..Default::default() },
        p,
    );
    let (ex, ey) = match (to_u128(ex >> 64), to_u128(ey >> 64)) {
        (Some(x), Some(y)) => (x, y),
        _ => return,
    };
    let (main, rest) = if by_x { (ex, ey) } else { (ey, ex) };
    // prices have 24 decimals, liquidity 6: what one unit of the last place is worth in tokens
    let at = pc.clamp(pl, pu);
    let den = (at / 1_000_000_000_000).max(1) * (pu / 1_000_000_000_000).max(1);
    let tol_main = 3 + (amount >> 40);
    let tol_rest = 3 + (rest >> 40) + if by_x { (at - pl) / 1_000_000_000_000_000_000_000_000 + 1 } else { 1_000_000_000_000_000_000 / den.max(1) + 1 };
    if main.abs_diff(amount) > tol_main || rest.abs_diff(other) > tol_rest {
        s.flag(
            c(&[15]),
            "sdk liquidity",
            format!("{amount} of {} in {lo}..{up} at {pc}: SDK liquidity {l} and {other} of the other token, depositing that takes {main} and {rest}", if by_x { "x" } else { "y" }),
        );
    }
}

// ---------------------------------------------------------------- forks

fn run_dex(ch: &mut Chain, from: &str, m: &ExecuteMsg, funds: &[Coin]) -> Result<(), Fail> {
    ch.tx(from, DEX, dex_json(m).as_bytes(), funds, &[], None)
}
/// attached coins a caller needs for pulls of native tokens, plus generous excess
pub fn ample(g: &crate::run::Genesis, ch: &Chain, from: &str, key: &PoolKey) -> Vec<Coin> {
    let _ = g;
    let mut v: Vec<(String, String)> = vec![];
    for t in [&key.token_x, &key.token_y] {
        if !is_addr(t) {
            v.push((t.clone(), ch.bank(from, t).to_string()));
        }
    }
    coins(&v)
}

/// Everybody leaves, in a random order, on a copy: all must succeed, and nothing may remain.
fn drain(s: &mut Sim, arg: u64) {
    let mut r = Rng::new(arg);
    s.stats.eval("drain on a fork", 1);
    let mut f = s.ch.fork();
    let wd = s.ch.model.clone();
    let mut order: Vec<String> = wd.owners.iter().flat_map(|(o, v)| v.iter().map(|_| o.clone())).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    let blame = |e: &Fail| if format!("{e:?}").contains("bank") || format!("{e:?}").contains("verflow") || format!("{e:?}").contains("ubtract") { c(&[19, 1]) } else { c(&[19]) };
    for (i, o) in order.iter().enumerate() {
        let n: u32 = f.query(&QueryMsg::UserPositionAmount { owner: Addr::unchecked(o.clone()) }).unwrap_or(0);
        if n == 0 {
            continue;
        }
        let idx = r.below(n as u64) as u32;
        if r.chance(30) {
            if let Err(e) = run_dex(&mut f, o, &ExecuteMsg::ClaimFee { index: idx }, &[]) {
                s.flag(blame(&e), "claim refused", format!("owner {o} cannot claim position {idx}: {e:?}"));
                return;
            }
            if *o != DEX && f.deltas.iter().any(|d| d.0 == *o && d.2 < 0) {
                s.flag(c(&[19]), "claim costs", format!("claiming costs {o} tokens"));
            }
        }
        let m = if r.chance(25) { ExecuteMsg::Burn { token_id: Binary::from(token_id(o, idx)) } } else { ExecuteMsg::RemovePosition { index: idx } };
        if let Err(e) = run_dex(&mut f, o, &m, &[]) {
            s.flag(blame(&e), "exit refused", format!("owner {o} cannot close position {idx} ({i} closed before): {e:?}"));
            return;
        }
        // time passes between exits
        if r.chance(30) {
            f.n.block.time = f.n.block.time.plus_nanos(1 + r.below(1 << 40));
            f.n.block.height += 1;
        }
    }
    for (k, mp) in wd.pools.values() {
        let q = f.query::<Pool>(&QueryMsg::Pool { token_0: k.token_x.clone(), token_1: k.token_y.clone(), fee_tier: k.fee_tier });
        match &q {
            Ok(p) if p.liquidity.get() == 0 => {}
            q => s.flag(c(&[19, 6]), "pool not empty", format!("{} after everybody left: {q:?}", pool_name(k))),
        }
        for t in mp.ticks.keys() {
            let q: Result<bool, String> = f.query(&QueryMsg::IsTickInitialized { key: k.clone(), index: *t });
            if q != Ok(false) || f.query::<Tick>(&QueryMsg::Tick { key: k.clone(), index: *t }).is_ok() {
                s.flag(c(&[19, 6]), "tick left", format!("{} tick {t} left after everybody left", pool_name(k)));
            }
        }
        // fees of the protocol are payable too
        if let Ok(p) = &q {
            let rec = p.fee_receiver.clone();
            if let Err(e) = run_dex(&mut f, &rec, &ExecuteMsg::WithdrawProtocolFee { pool_key: k.clone() }, &[]) {
                s.flag(c(&[8, 1]), "protocol fee not payable", format!("{}: {e:?}", pool_name(k)));
            }
        }
    }
    // and it can be used again
    if let Some((k, mp)) = wd.pools.values().nth(r.below(wd.pools.len().max(1) as u64) as usize) {
        let sp = k.fee_tier.tick_spacing as i32;
        let cur = mp.p.current_tick_index;
        let (lo, up) = (cur - 4 * sp, cur + 4 * sp);
        if tick_ok(lo, sp as u16) && tick_ok(up, sp as u16) {
            let u = s.g.users[0].clone();
            let funds = ample(&s.g, &f, &u, k);
            let m = open_msg(k, lo, up, 1_000_000_000_000);
            if let Err(e) = run_dex(&mut f, &u, &m, &funds) {
                s.flag(c(&[19]), "pool unusable", format!("{}: cannot open again: {e:?}", pool_name(k)));
            } else if let Err(e) = {
                let n: u32 = f.query(&QueryMsg::UserPositionAmount { owner: Addr::unchecked(u.clone()) }).unwrap_or(1);
                run_dex(&mut f, &u, &ExecuteMsg::RemovePosition { index: n - 1 }, &[])
            } {
                s.flag(c(&[19]), "pool unusable", format!("{}: cannot close again: {e:?}", pool_name(k)));
            }
        }
    }
}
pub fn open_msg(k: &PoolKey, lo: i32, up: i32, l: u128) -> ExecuteMsg {
    ExecuteMsg::CreatePosition {
        pool_key: k.clone(),
        lower_tick: lo,
        upper_tick: up,
        liquidity_delta: oraiswap_v3::liquidity::Liquidity::new(l),
        slippage_limit_lower: oraiswap_v3::sqrt_price::SqrtPrice::new(0),
        slippage_limit_upper: oraiswap_v3::sqrt_price::SqrtPrice::new(u128::MAX),
    }
}

/// There and back never pays: swaps back, splits, open-and-close.
fn round_trip(s: &mut Sim, arg: u64) {
    let mut r = Rng::new(arg);
    let wd = s.ch.model.clone();
    if wd.pools.is_empty() {
        return;
    }
    let u = s.g.users[r.below(s.g.users.len() as u64) as usize].clone();
    let i = r.below(wd.pools.len() as u64) as usize;
    let (key, mp) = wd.pools.values().nth(i).unwrap();
    if [&key.token_x, &key.token_y].iter().any(|t| is_addr(t) && !s.ch.n.index.contains_key(*t)) {
        return;
    }
    let sp = key.fee_tier.tick_spacing as i32;
    let cur = mp.p.current_tick_index;
    // open and close at an unchanged price
    {
        let (mn, mx) = (min_tick(sp as u16), max_tick(sp as u16));
        let a = (cur + sp * r.range(-30, 30) as i32).clamp(mn, mx);
        let b = (a + sp * r.range(1, 60) as i32).clamp(mn, mx);
        let n = 1 + r.below(70) as u32;
        let l = 1 + r.logu(n);
        let mut f = s.ch.fork();
        let (bx, by) = (f.balance(&key.token_x, &u), f.balance(&key.token_y, &u));
        let funds = ample(&s.g, &f, &u, key);
        if a < b && run_dex(&mut f, &u, &open_msg(key, a, b, l), &funds).is_ok() {
            s.stats.eval("open and close on a fork", 1);
            let n: u32 = f.query(&QueryMsg::UserPositionAmount { owner: Addr::unchecked(u.clone()) }).unwrap_or(1);
            // others may trade elsewhere meanwhile; the price of this pool is unchanged
            if let Err(e) = run_dex(&mut f, &u, &ExecuteMsg::RemovePosition { index: n - 1 }, &[]) {
                s.flag(c(&[19]), "cannot close", format!("{}: {e:?}", pool_name(key)));
            }
            let (ax, ay) = (f.balance(&key.token_x, &u), f.balance(&key.token_y, &u));
            if ax > bx || ay > by {
                s.flag(c(&[17, 1]), "opening and closing pays", format!("{}: {}/{} gained", pool_name(key), ax as i128 - bx as i128, ay as i128 - by as i128));
            }
            let (ex, ey) = exact_principal(
                &Position { liquidity: oraiswap_v3::liquidity::Liquidity::new(l), lower_tick_index: a, upper_tick_index: b, ..Default::default() },
                &mp.p,
            );
            // the denominator of the x amount has 24 decimals, hence the relative part
            let tol = 3 + (to_u128(((ex + ey) >> 64) >> 43).unwrap_or(0)) as i128;
            if (bx as i128 - ax as i128) > tol || (by as i128 - ay as i128) > tol {
                s.flag(c(&[17]), "opening and closing costs", format!("{}: {}/{} lost", pool_name(key), bx as i128 - ax as i128, by as i128 - ay as i128));
            }
            if f.query::<Pool>(&QueryMsg::Pool { token_0: key.token_x.clone(), token_1: key.token_y.clone(), fee_tier: key.fee_tier }).map(|p| (p.sqrt_price, p.liquidity))
                != Ok((mp.p.sqrt_price, mp.p.liquidity))
            {
                s.flag(c(&[17, 6]), "pool changed", format!("{}: opening and closing changed price or liquidity", pool_name(key)));
            }
        }
    }
    // swap there, back; in one or several parts
    for _ in 0..2 {
        let down = r.chance(50);
        let n = 1 + r.below(60) as u32;
        let amount = 1 + r.logu(n);
        let mut f = s.ch.fork();
        let (ti, to) = if down { (&key.token_x, &key.token_y) } else { (&key.token_y, &key.token_x) };
        let (bi, bo) = (f.balance(ti, &u), f.balance(to, &u));
        let gg = s.g.clone();
        let sw = |f: &mut Chain, down: bool, amount: u128| {
            let m = ExecuteMsg::Swap {
                pool_key: key.clone(),
                x_to_y: down,
                amount: TokenAmount(amount),
                by_amount_in: true,
                sqrt_price_limit: oraiswap_v3::sqrt_price::SqrtPrice::new(World::route_limit(down)),
            };
            let funds = ample(&gg, f, &u, key);
            run_dex(f, &u, &m, &funds)
        };
        if sw(&mut f, down, amount).is_err() {
            continue;
        }
        s.stats.evals.entry("swap there and back on a fork".into()).and_modify(|x| *x += 1).or_insert(1);
        let got = f.balance(to, &u).saturating_sub(bo);
        // back in one or two parts; whatever cannot be swapped back stays with the user
        let parts = 1 + r.below(2);
        let mut left = got;
        for k in 0..parts {
            let a = if k + 1 == parts { left } else { r.below128(left.max(1)) };
            if a > 0 {
                let _ = sw(&mut f, !down, a);
            }
            left = left.saturating_sub(a);
        }
        if f.balance(ti, &u) > bi {
            let gain = f.balance(ti, &u) - bi;
            s.flag(c(&[4, 1]), "round trip pays", format!("{}: swapping {amount} there and back gains {gain}", pool_name(key)));
        }
    }
}

/// Abort one transaction at many storage accesses and sub-calls; then it must still do what it would
/// have done, from exactly the same state.
pub fn abort_sweep(s: &mut Sim, t: &TxStep, arg: u64) {
    let mut r = Rng::new(arg);
    let transcript = s.ch.transcript;
    let funds = coins(&t.funds);
    let start = s.ch.full_digest();
    // reference execution
    let mut f = s.ch.fork();
    arm_count();
    let want = f.tx(&t.from, &t.to, t.msg.as_bytes(), &funds, &t.plans, None);
    let total = ops();
    let end = f.full_digest();
    let events = f.transcript;
    let transfers = f.transfers;
    let check_same = |s: &mut Sim, what: String| {
        if s.ch.full_digest() != start {
            s.flag(c(&[3]), "abort left a trace", what);
            return false;
        }
        true
    };
    let points: Vec<u64> = if total <= 60 { (0..total).collect() } else { (0..60).map(|_| r.below(total)).collect() };
    let checking = std::mem::replace(&mut s.ch.checking, false);
    let mut n = 0;
    let call = ProxyCall { contract: DEX.into(), msg: Binary::from(t.msg.as_bytes()), funds: funds.clone() };
    let wrapped = to_binary(&ProxyMsg { calls: vec![call], catch: true }).unwrap();
    for k in points {
        if t.to != DEX {
            // a calling contract: it may catch the abort of its sub-call, so only failures must be clean
            let mut f = s.ch.fork();
            f.track = false;
            let re = f.tx(&t.from, &t.to, t.msg.as_bytes(), &funds, &t.plans, Some(k));
            n += 1;
            if re.is_err() && f.full_digest() != start {
                s.flag(c(&[3]), "abort left a trace", format!("{} aborted at storage access {k} of {total}", t.msg));
                break;
            }
            continue;
        }
        // directly: the whole transaction is undone
        let re = s.ch.tx(&t.from, &t.to, t.msg.as_bytes(), &funds, &t.plans, Some(k));
        n += 1;
        if re != Err(Fail::Gas) && want.is_ok() {
            s.flag(c(&[3]), "abort ignored", format!("{} aborted at access {k} of {total} returned {re:?}", t.msg));
        }
        if !check_same(s, format!("{} aborted at storage access {k} of {total}", t.msg)) {
            break;
        }
        // the same aborted inside a contract that catches it and goes on
        if r.chance(15) {
            let mut f = s.ch.fork();
            f.track = false;
            let re = f.tx(&s.g.users[0], PROXY, wrapped.as_slice(), &[], &t.plans, Some(k));
            if re.is_ok() && f.caught > 0 {
                s.stats.fault("abort caught by a calling contract", 1);
                if f.full_digest() != start {
                    s.flag(c(&[3]), "caught abort left a trace", format!("{} aborted at access {k}, caught by the caller", t.msg));
                }
            }
        }
    }
    s.stats.fault("abort at a storage access", n);
    s.stats.eval("abort leaves no trace", n);
    // every token or receiver call of the transaction fails in turn
    if t.to == DEX && t.plans.is_empty() {
        for (who, cnt) in &transfers {
            for nth in 1..=(*cnt).min(8) {
                let plan = vec![Plan { who: who.clone(), nth, act: Act::Fail }];
                let re = s.ch.tx(&t.from, &t.to, t.msg.as_bytes(), &funds, &plan, None);
                s.stats.fault("token or receiver call fails", 1);
                s.stats.eval("abort leaves no trace", 1);
                if re.is_ok() {
                    s.flag(c(&[3, 2]), "failure swallowed", format!("{} succeeded although call {nth} of {who} failed", t.msg));
                }
                if !check_same(s, format!("{} with failing call {nth} of {who}", t.msg)) {
                    break;
                }
            }
        }
        // the same through a contract that catches the failure and goes on
        if t.from == PROXY || r.chance(60) {
            let call = ProxyCall { contract: DEX.into(), msg: Binary::from(t.msg.as_bytes()), funds: funds.clone() };
            for (who, cnt) in &transfers {
                let nth = 1 + r.below(*cnt as u64) as u32;
                let plan = vec![Plan { who: who.clone(), nth, act: Act::Fail }];
                let pm = to_binary(&ProxyMsg { calls: vec![call.clone()], catch: true }).unwrap();
                let mut f = s.ch.fork();
                let re = f.tx(&s.g.users[0], PROXY, pm.as_slice(), &[], &plan, None);
                if re.is_ok() && f.caught > 0 {
                    s.stats.fault("failure caught by a calling contract", 1);
                    s.stats.eval("abort leaves no trace", 1);
                    if f.full_digest() != start {
                        s.flag(c(&[3]), "caught failure left a trace", format!("{} caught by the caller", t.msg));
                    }
                }
            }
        }
    }
    // after all the aborts: the same transaction has the same effect as on the untouched copy
    let mut g = s.ch.fork();
    let again = g.tx(&t.from, &t.to, t.msg.as_bytes(), &funds, &t.plans, None);
    if again.is_ok() != want.is_ok() || g.full_digest() != end || g.transcript != events {
        s.flag(c(&[3, 16]), "aborts changed a later execution", format!("{}: {want:?} before, {again:?} after aborted attempts", t.msg));
    }
    s.ch.checking = checking;
    s.ch.transcript = transcript;
}

#[allow(dead_code)]
fn _unused(m: &ExecuteMsg) -> bool {
    op_of(m) == Op::Swap
}
