E="entrypoints/execute.rs";C="entrypoints/common.rs";Q="entrypoints/query.rs";S="state.rs";K="math/clamm.rs";P="storage/position.rs";L="storage/pool.rs";T="storage/tick.rs";I="interface.rs"
M={
"map_rev_cut":("C14",[(Q,"""        tickmap_slice(
            deps.storage,
            (min_chunk_index..=max_chunk_index).rev(),
            &pool_key,
        )""","""        let mut v = tickmap_slice(deps.storage, min_chunk_index..=max_chunk_index, &pool_key);
        v.reverse();
        v""")]),
"op_reverse":("C11",[(C,"    // operator can send\n    let op = state::OPERATORS.may_load(deps.storage, (owner_raw, sender_raw))?;","    // operator can send\n    let op = state::OPERATORS.may_load(deps.storage, (owner_raw, sender_raw))?.or(state::OPERATORS.may_load(deps.storage, (sender_raw, owner_raw))?);")]),
"recv_reset":("C08",[(E,"    pool.fee_receiver = fee_receiver.to_string();\n","    if pool.fee_receiver != fee_receiver.as_str() && pool.liquidity.is_zero() {\n        pool.withdraw_protocol_fee();\n    }\n    pool.fee_receiver = fee_receiver.to_string();\n")]),
"t_price":("C07",[(T,"index <= pool.current_tick_index;","calculate_sqrt_price(index).unwrap() <= pool.sqrt_price;")]),
"t_price20":("C20",[(T,"index <= pool.current_tick_index;","calculate_sqrt_price(index).unwrap() <= pool.sqrt_price;")]),
"in_price":("C06",[(K,"    if current_tick_index < lower_tick {\n        amount_x","    if current_sqrt_price < SqrtPrice::from_tick(lower_tick)? {\n        amount_x")]),
"secs_ms":("C20",[(C,"        self.nanos() / 1_000_000\n","        self.seconds() * 1_000\n")]),
"slip_tick":("C05",[(P,"pool.sqrt_price > slippage_limit_upper {","pool.sqrt_price.max(lower_tick.sqrt_price) > slippage_limit_upper {")]),
"revoke_spender":("C11",[(C,"    check_can_approve(deps.as_ref(), env, info, owner_raw)?;\n","    if add || info.sender != *spender {\n        check_can_approve(deps.as_ref(), env, info, owner_raw)?;\n    }\n")]),
"key_glue":("C18",[("storage/pool_key.rs","""        to_length_prefixed_nested(&[
            self.token_x.as_bytes(),
            self.token_y.as_bytes(),
            &self.fee_tier.key(),
        ])
    }""","""        let pair = [self.token_x.as_bytes(), self.token_y.as_bytes()].concat();
        to_length_prefixed_nested(&[&pair, &self.fee_tier.key()])
    }""")]),
"appr_other":("C11",[(C,"        .filter(|apr| apr.spender != spender)","        .filter(|apr| apr.spender != spender && (add || apr.expires != Expiration::Never {}))")]),
"route_last":("C02",[(E,"    let min_amount_out = calculate_min_amount_out(expected_amount_out, slippage);\n","    if info.funds.len() > 1 {\n        info.funds.truncate(1);\n    }\n    let min_amount_out = calculate_min_amount_out(expected_amount_out, slippage);\n")]),
"close_wrong_owed":("C07",[(P,"        amount_y += self.tokens_owed_y;\n","        if amount_y.is_zero() && !amount_x.is_zero() {\n            amount_x += TokenAmount(0);\n        }\n        if pool.current_tick_index >= self.lower_tick_index {\n            amount_y += self.tokens_owed_y;\n        }\n")]),
"net_sat":("C06",[(T,"            self.liquidity_change += liquidity_delta;","            self.liquidity_change = Liquidity::new((self.liquidity_change.get() + liquidity_delta.get()).min(1 << 100));")]),
"tier_fee_eq":("C13",[(E,"    if config.fee_tiers.contains(&fee_tier) {\n        return Err(ContractError::FeeTierAlreadyExist);","    if config.fee_tiers.last() == Some(&fee_tier) {\n        return Err(ContractError::FeeTierAlreadyExist);")]),
"route_ts":("C20",[(C,"            &env.contract.address,\n            current_timestamp,\n            &swap_hop.pool_key,","            &env.contract.address,\n            env.block.time.seconds() * 1000,\n            &swap_hop.pool_key,")]),
"quote_route_ts":("C09",[(C,"    let mut store = OverlayStorage::new(store);\n    let mut next_swap_amount = amount_in;\n","    let mut store = OverlayStorage::new(store);\n    let mut next_swap_amount = amount_in;\n    if swaps.is_empty() {\n        return Err(ContractError::AmountIsZero {});\n    }\n")]),
"burn_appr_cleared":("C11",[(E,"    check_can_send(deps.as_ref(), &env, &info, owner_raw, &pos)?;\n\n    // the sender","    if !pos.approvals.iter().any(|a| a.spender == info.sender) {\n        check_can_send(deps.as_ref(), &env, &info, owner_raw, &pos)?;\n    }\n\n    // the sender")]),
"fee_dust_neg":("C07",[("math/types/fee_growth.rs","current_above_lower = tick_current >= tick_lower;","current_above_lower = tick_current >= tick_lower || (tick_current == tick_lower - 1 && tick_lower < 0);")]),
}
M.update({
"s_outdated":("C15",[("/wasm/swap.rs","                        None => {\n                            state_outdated = true;\n                            break;","                        None => {\n                            state_outdated = false;\n                            break;")]),
"s_outdated2":("C15",[("/wasm/swap.rs","                        None => {\n                            state_outdated = true;\n                            break;\n                        }","                        None => UpdatePoolTick::TickUninitialized(tick_index),")]),
})
M.update({
"blk_u32":("C20",[(P,"            last_block_number: block_number,","            last_block_number: block_number as u32 as u64,")]),
"appr_cap":("C11",[(C,"        pos.approvals.push(approval);","        if pos.approvals.len() >= 8 {\n            pos.approvals.remove(0);\n        }\n        pos.approvals.push(approval);")]),
"hop16":("C03",[(C,"    for swap_hop in &swaps {\n        let sqrt_price_limit = if swap_hop.x_to_y {\n            SqrtPrice::new(MIN_SQRT_PRICE)\n        } else {\n            SqrtPrice::new(MAX_SQRT_PRICE)\n        };\n\n        next_swap_amount = swap_internal(","    for swap_hop in swaps.iter().take(12) {\n        let sqrt_price_limit = if swap_hop.x_to_y {\n            SqrtPrice::new(MIN_SQRT_PRICE)\n        } else {\n            SqrtPrice::new(MAX_SQRT_PRICE)\n        };\n\n        next_swap_amount = swap_internal(")]),
"height_u32":("C11",[(C,"        .any(|apr| apr.spender == info.sender && !apr.expires.is_expired(&env.block))","        .any(|apr| {\n            apr.spender == info.sender\n                && match apr.expires {\n                    Expiration::AtHeight(h) => (env.block.height as u32) < h as u32,\n                    e => !e.is_expired(&env.block),\n                }\n        })")]),
})
