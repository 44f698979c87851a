# development helper: candidate bugs, property -> edits (file, old text, new text); "/x" is relative to the repository root
M={
"wd_admin":("C10",[("entrypoints/execute.rs","    if pool.fee_receiver != info.sender {","    if pool.fee_receiver != info.sender && CONFIG.load(deps.storage)?.admin != info.sender {")]),
"wd_half":("C08",[("storage/pool.rs","        self.fee_protocol_token_y = TokenAmount(0);","        if !fee_protocol_token_x.is_zero() {\n            self.fee_protocol_token_y = TokenAmount(0);\n        }")]),
"keep_appr":("C11",[("entrypoints/execute.rs","    position.approvals = vec![];","    position.approvals.retain(|a| a.spender == receiver_addr || matches!(a.expires, cw20::Expiration::Never {}) && a.spender != caller && false || a.spender.as_str() == receiver);")]),
"tick_create_lt":("C07",[("storage/tick.rs","let below_current_tick = index <= pool.current_tick_index;","let below_current_tick = index < pool.current_tick_index;")]),
"limit_by_out":("C05",[("entrypoints/common.rs","        if pool.sqrt_price == sqrt_price_limit && !remaining_amount.is_zero() {\n            return","        if pool.sqrt_price == sqrt_price_limit && !remaining_amount.is_zero() {\n            if !by_amount_in && !total_amount_out.is_zero() {\n                break;\n            }\n            return")]),
"limit_eq":("C05",[("entrypoints/common.rs","        if pool.sqrt_price <= sqrt_price_limit ||","        if pool.sqrt_price < sqrt_price_limit ||")]),
"tick_limit_lt":("C04",[("entrypoints/common.rs","true => pool.current_tick_index <= tick_limit","true => pool.current_tick_index < tick_limit")]),
"route_break":("C03",[("entrypoints/common.rs","        next_swap_amount = swap_internal(","        if next_swap_amount.is_zero() {\n            break;\n        }\n\n        next_swap_amount = swap_internal(")]),
"bitmap_key":("C18",[("state.rs","    db_key.append(&mut pool_key.key());\n    db_key","    db_key.extend_from_slice(pool_key.token_x.as_bytes());\n    db_key.extend_from_slice(pool_key.token_y.as_bytes());\n    db_key.extend_from_slice(&pool_key.fee_tier.tick_spacing.to_be_bytes());\n    db_key")]),
"op_expiry_time":("C11",[("entrypoints/common.rs","            if ex.is_expired(&env.block) {\n                Err(ContractError::Unauthorized {})\n            } else {\n                Ok(())\n            }\n        }\n        None => Err(ContractError::Unauthorized {}),\n    }\n}\n\n/// returns true if","            if matches!(ex, cw20::Expiration::AtHeight(_)) && ex.is_expired(&env.block) {\n                Err(ContractError::Unauthorized {})\n            } else {\n                Ok(())\n            }\n        }\n        None => Err(ContractError::Unauthorized {}),\n    }\n}\n\n/// returns true if")]),
"send_keeps":("C11",[("entrypoints/common.rs","    pos.approvals = vec![];\n    state::add_position(deps.storage, recipient, &pos)?;","    if info.sender == account_id {\n        pos.approvals = vec![];\n    } else {\n        pos.approvals.retain(|a| a.spender != info.sender);\n    }\n    state::add_position(deps.storage, recipient, &pos)?;")]),
"exit_tier":("C19",[("entrypoints/execute.rs","    let withdrawed_liquidity = position.liquidity;","    let withdrawed_liquidity = position.liquidity;\n    if !CONFIG.load(deps.storage)?.fee_tiers.contains(&position.pool_key.fee_tier) {\n        return Err(ContractError::FeeTierNotFound);\n    }")]),
"remove_last":("C12",[("state.rs","    if index < positions_length {\n        let prev_db_key = position_key(account_id, positions_length);\n        let last_position = POSITIONS.load(store, &prev_db_key)?;","    if index < positions_length {\n        let prev_db_key = position_key(account_id, positions_length);\n        let mut last_position = POSITIONS.load(store, &prev_db_key)?;\n        last_position.approvals.truncate(1);")]),
"search_limit":("C04",[("state.rs","    while chunk > limiting_chunk || (chunk == limiting_chunk && bit >= limiting_bit) {\n        // always","    while chunk > limiting_chunk || (chunk == limiting_chunk && bit > limiting_bit) {\n        // always")]),
"refund_eq":("C02",[("interface.rs","Some(coin) if coin.amount >= self.amount => coin.amount -= self.amount,","Some(coin) if coin.amount >= self.amount => {\n                            coin.amount -= self.amount;\n                            if coin.amount.u128() == 1 {\n                                coin.amount = Uint128::zero();\n                            }\n                        }")]),
"claim_mod":("C07",[("storage/position.rs","        self.tokens_owed_x = TokenAmount(0);\n        self.tokens_owed_y = TokenAmount(0);\n\n        Ok((tokens_owed_x","        self.tokens_owed_x = TokenAmount(0);\n        if tokens_owed_x.is_zero() || !tokens_owed_y.is_zero() {\n            self.tokens_owed_y = TokenAmount(0);\n        }\n        self.fee_growth_inside_x = if tokens_owed_x.is_zero() { FeeGrowth::new(0).unchecked_add(self.fee_growth_inside_x) } else { self.fee_growth_inside_x };\n\n        Ok((tokens_owed_x")]),
"migrate_fee":("C16",[("contract.rs","pub fn migrate(_deps: DepsMut, _env: Env, _msg: MigrateMsg) -> Result<Response, ContractError> {","pub fn migrate(_deps: DepsMut, _env: Env, _msg: MigrateMsg) -> Result<Response, ContractError> {\n    let mut c = CONFIG.load(_deps.storage)?;\n    c.fee_tiers.truncate(5);\n    CONFIG.save(_deps.storage, &c)?;")]),
"ticks_amount_edge":("C14",[("entrypoints/query.rs","for i in (min_chunk_index + 1)..max_chunk_index {","for i in (min_chunk_index + 1)..max_chunk_index.min(min_chunk_index + 100) {")]),
"pos_ticks":("C14",[("entrypoints/query.rs","state::get_tick(deps.storage, &position.pool_key, position.upper_tick_index)\n            {\n                ticks.push(PositionTick {\n                    index: tick.index,\n                    fee_growth_outside_x: tick.fee_growth_outside_x,\n                    fee_growth_outside_y: tick.fee_growth_outside_y,","state::get_tick(deps.storage, &position.pool_key, position.upper_tick_index)\n            {\n                ticks.push(PositionTick {\n                    index: tick.index,\n                    fee_growth_outside_x: tick.fee_growth_outside_x,\n                    fee_growth_outside_y: tick.fee_growth_outside_x,")]),
"secs":("C20",[("storage/tick.rs","        self.seconds_outside = seconds_passed.wrapping_sub(self.seconds_outside);","        self.seconds_outside = if seconds_passed == 0 { 0 } else { (current_timestamp - pool.last_timestamp.min(pool.start_timestamp)).wrapping_sub(self.seconds_outside) + (pool.last_timestamp == current_timestamp) as u64 };")]),
"slip_excl":("C05",[("storage/position.rs","pool.sqrt_price > slippage_limit_upper","pool.sqrt_price >= slippage_limit_upper && slippage_limit_lower < slippage_limit_upper")]),
"quote_ticks":("C09",[("entrypoints/query.rs","        ticks: calculate_swap_result.ticks,","        ticks: calculate_swap_result.ticks.into_iter().take(3).collect(),")]),
"min_out":("C05",[("entrypoints/execute.rs","    let min_amount_out = calculate_min_amount_out(expected_amount_out, slippage);","    let min_amount_out = calculate_min_amount_out(calculate_min_amount_out(expected_amount_out, slippage), Percentage::new(slippage.get() / 1000));")]),
"tier_remove":("C13",[("entrypoints/execute.rs",".position(|x| *x == fee_tier) {",".position(|x| x.fee == fee_tier.fee) {")]),
"fee_tier_key":("C13",[("entrypoints/execute.rs","    if !config.fee_tiers.contains(&fee_tier) {","    if !config.fee_tiers.iter().any(|t| t.tick_spacing == fee_tier.tick_spacing && t.fee >= fee_tier.fee) {")]),
"all_tokens":("C12",[("state.rs","    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));\n    (from_idx..to_idx)\n        .map(|index| position_key","    let to_idx = get_position_length(store, account_id).min(limit.unwrap_or(MAX_LIMIT));\n    (from_idx..to_idx)\n        .map(|index| position_key")]),
"static_cache":("C16",[("entrypoints/common.rs","    let tick_limit = if x_to_y {","    thread_local! { static SEEN: std::cell::Cell<u32> = std::cell::Cell::new(0); }\n    let seen = SEEN.with(|s| { s.set(s.get() + 1); s.get() });\n    if seen % 64 == 0 && !by_amount_in { pool.last_timestamp = current_timestamp; }\n    let tick_limit = if x_to_y {")]),
"sdk_tick":("C15",[("/wasm/collections/tickmap.rs","","")]),
}
for k in ('limit_eq','claim_mod'): del M[k]
del M["sdk_tick"]
