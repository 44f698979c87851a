//! A minimal host for the contract: mock storage, one block clock, messages recorded but not executed.
#![allow(dead_code)]
use cosmwasm_std::testing::{mock_dependencies, mock_env, mock_info, MockApi, MockQuerier, MockStorage};
use cosmwasm_std::{from_binary, Addr, BankMsg, Coin, CosmosMsg, Env, OwnedDeps, Response, Uint128, WasmMsg};
use decimal::Decimal;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::{calculate_sqrt_price, SqrtPrice};
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::{FeeTier, PoolKey, Pool, Position, Tick};

pub type Err = String;
pub struct Host {
    pub deps: OwnedDeps<MockStorage, MockApi, MockQuerier>,
    pub env: Env,
}
pub fn tier(fee: u64, sp: u16) -> FeeTier {
    FeeTier { fee: Percentage::new(fee), tick_spacing: sp }
}
pub fn key(a: &str, b: &str, t: FeeTier) -> PoolKey {
    PoolKey::new(a.into(), b.into(), t).unwrap()
}
pub const MIN: u128 = oraiswap_v3::MIN_SQRT_PRICE;
pub const MAX: u128 = oraiswap_v3::MAX_SQRT_PRICE;

impl Host {
    pub fn new(protocol_fee: u64) -> Host {
        let mut h = Host { deps: mock_dependencies(), env: mock_env() };
        oraiswap_v3::contract::instantiate(
            h.deps.as_mut(),
            h.env.clone(),
            mock_info("admin", &[]),
            InstantiateMsg { protocol_fee: Percentage::new(protocol_fee) },
        )
        .unwrap();
        h
    }
    pub fn pass(&mut self, seconds: u64, blocks: u64) {
        self.env.block.time = self.env.block.time.plus_seconds(seconds);
        self.env.block.height += blocks;
    }
    pub fn call_with(&mut self, from: &str, m: ExecuteMsg, funds: &[Coin]) -> Result<Response, Err> {
        // the chain undoes what a failing call wrote
        let snap: Vec<(Vec<u8>, Vec<u8>)> = {
            use cosmwasm_std::Storage;
            self.deps.storage.range(None, None, cosmwasm_std::Order::Ascending).collect()
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            oraiswap_v3::contract::execute(self.deps.as_mut(), self.env.clone(), mock_info(from, funds), m).map_err(|e| e.to_string())
        }))
        .unwrap_or_else(|_| Err("panic".into()));
        if r.is_err() {
            use cosmwasm_std::Storage;
            self.deps.storage = MockStorage::default();
            for (k, v) in snap {
                self.deps.storage.set(&k, &v);
            }
        }
        r
    }
    pub fn call(&mut self, from: &str, m: ExecuteMsg) -> Result<Response, Err> {
        self.call_with(from, m, &[])
    }
    pub fn ask<T: serde::de::DeserializeOwned>(&self, q: QueryMsg) -> Result<T, Err> {
        let b = oraiswap_v3::contract::query(self.deps.as_ref(), self.env.clone(), q).map_err(|e| e.to_string())?;
        from_binary(&b).map_err(|e| e.to_string())
    }
    pub fn pool_at(&mut self, a: &str, b: &str, t: FeeTier, tick: i32) -> PoolKey {
        let _ = self.call("admin", ExecuteMsg::AddFeeTier { fee_tier: t });
        self.call(
            "admin",
            ExecuteMsg::CreatePool { token_0: a.into(), token_1: b.into(), fee_tier: t, init_sqrt_price: calculate_sqrt_price(tick).unwrap(), init_tick: tick },
        )
        .unwrap();
        key(a, b, t)
    }
    pub fn open(&mut self, who: &str, k: &PoolKey, lo: i32, up: i32, l: u128) -> Result<Response, Err> {
        self.open_with(who, k, lo, up, l, 0, u128::MAX, &[])
    }
    #[allow(clippy::too_many_arguments)]
    pub fn open_with(&mut self, who: &str, k: &PoolKey, lo: i32, up: i32, l: u128, smin: u128, smax: u128, funds: &[Coin]) -> Result<Response, Err> {
        self.call_with(
            who,
            ExecuteMsg::CreatePosition {
                pool_key: k.clone(),
                lower_tick: lo,
                upper_tick: up,
                liquidity_delta: Liquidity::new(l),
                slippage_limit_lower: SqrtPrice::new(smin),
                slippage_limit_upper: SqrtPrice::new(smax),
            },
            funds,
        )
    }
    pub fn swap(&mut self, who: &str, k: &PoolKey, down: bool, amount: u128) -> Result<Response, Err> {
        self.swap_with(who, k, down, amount, true, if down { MIN } else { MAX }, &[])
    }
    #[allow(clippy::too_many_arguments)]
    pub fn swap_with(&mut self, who: &str, k: &PoolKey, down: bool, amount: u128, by_in: bool, limit: u128, funds: &[Coin]) -> Result<Response, Err> {
        self.call_with(
            who,
            ExecuteMsg::Swap { pool_key: k.clone(), x_to_y: down, amount: TokenAmount(amount), by_amount_in: by_in, sqrt_price_limit: SqrtPrice::new(limit) },
            funds,
        )
    }
    pub fn pool(&self, k: &PoolKey) -> Pool {
        self.ask(QueryMsg::Pool { token_0: k.token_x.clone(), token_1: k.token_y.clone(), fee_tier: k.fee_tier }).unwrap()
    }
    pub fn tick(&self, k: &PoolKey, i: i32) -> Result<Tick, Err> {
        self.ask(QueryMsg::Tick { key: k.clone(), index: i })
    }
    pub fn position(&self, who: &str, i: u32) -> Result<Position, Err> {
        self.ask(QueryMsg::Position { owner_id: Addr::unchecked(who), index: i })
    }
}
pub fn token_id(who: &str, i: u32) -> cosmwasm_std::Binary {
    let mut v = who.as_bytes().to_vec();
    v.extend_from_slice(&i.to_be_bytes());
    v.into()
}
/// what the caller pays (cw20 pulls) and what everybody is paid, by token
pub fn paid(r: &Response, token: &str) -> i128 {
    let mut n = 0i128;
    for m in &r.messages {
        match &m.msg {
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, .. }) if contract_addr == token => {
                match from_binary::<cw20::Cw20ExecuteMsg>(msg).unwrap() {
                    cw20::Cw20ExecuteMsg::Transfer { amount, .. } => n += amount.u128() as i128,
                    cw20::Cw20ExecuteMsg::TransferFrom { amount, .. } => n -= amount.u128() as i128,
                    _ => {}
                }
            }
            CosmosMsg::Bank(BankMsg::Send { amount, .. }) => {
                n += amount.iter().filter(|c| c.denom == token).map(|c| c.amount.u128() as i128).sum::<i128>()
            }
            _ => {}
        }
    }
    n
}
pub fn coin(n: u128, d: &str) -> Coin {
    Coin { denom: d.into(), amount: Uint128::new(n) }
}
pub fn verdict(ok: bool, what: &str) {
    println!("{}: {what}", if ok { "holds" } else { "BROKEN" });
    if !ok {
        std::process::exit(1);
    }
}
