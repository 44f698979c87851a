# development helper: third batch, narrow triggers
E="entrypoints/execute.rs";CO="entrypoints/common.rs";Q="entrypoints/query.rs"
M={
"skip_neutral":("C07",[(CO,"            if has_crossed {\n                ticks.push(tick)","            if has_crossed && !tick.liquidity_change.is_zero() {\n                ticks.push(tick)")]),
"revoke_one":("C11",[(CO,"        .filter(|apr| apr.spender != spender)\n","        .filter(|apr| apr.spender != spender || !add && apr.expires == Expiration::Never {} && !info.sender.as_bytes().eq(owner_raw))\n")]),
"stale_last":("C12",[("state.rs","    } else {\n        POSITIONS.remove(store, &db_key);\n    }","    } else if positions_length == 0 {\n        POSITIONS.remove(store, &db_key);\n    }")]),
"recv_self":("C10",[(E,"    if info.sender != config.admin {\n        return Err(ContractError::Unauthorized {});\n    }\n\n    let pool_key_db = pool_key.key();\n    let mut pool = POOLS.load(deps.storage, &pool_key_db)?;","    let pool_key_db = pool_key.key();\n    let mut pool = POOLS.load(deps.storage, &pool_key_db)?;\n    if info.sender != config.admin && info.sender != pool.fee_receiver {\n        return Err(ContractError::Unauthorized {});\n    }\n")]),
"tick_i16":("C18",[("state.rs","    db_key.extend_from_slice(&index.to_be_bytes());\n    db_key\n}\n\npub fn add_tick","    db_key.extend_from_slice(&(index as i16).to_be_bytes());\n    db_key\n}\n\npub fn add_tick")]),
"chunk_u8":("C18",[("state.rs","    let mut db_key = chunk.to_be_bytes().to_vec();","    let mut db_key = ((chunk % 4096) as u16).to_be_bytes().to_vec();")]),
"pos_u8":("C12",[("state.rs","    let mut db_key = account_id.as_bytes().to_vec();\n    db_key.extend_from_slice(&index.to_be_bytes());","    let mut db_key = account_id.as_bytes().to_vec();\n    db_key.extend_from_slice(&(index as u8 as u32).to_be_bytes());")]),
"grow_checked":("C04",[("storage/pool.rs","            self.fee_growth_global_x = self.fee_growth_global_x.unchecked_add(fee_growth);","            self.fee_growth_global_x = self.fee_growth_global_x.checked_add(fee_growth).map_err(|_| ContractError::Add)?;")]),
"hash_tiers":("C16",[(E,"    config.fee_tiers.push(fee_tier);","    config.fee_tiers.push(fee_tier);\n    let m: std::collections::HashMap<(u64, u16), FeeTier> = config.fee_tiers.iter().map(|t| ((t.fee.get(), t.tick_spacing), *t)).collect();\n    if m.len() > 3 {\n        config.fee_tiers = m.into_values().collect();\n    }")]),
"last_ts":("C20",[("storage/tick.rs","        pool.last_timestamp = current_timestamp;\n\n        // When","        if !self.liquidity_change.is_zero() {\n            pool.last_timestamp = current_timestamp;\n        }\n\n        // When")]),
"lt_limit":("C14",[(Q,"    if tick_indexes.len() > LIQUIDITY_TICK_LIMIT {","    if tick_indexes.len() >= LIQUIDITY_TICK_LIMIT {")]),
"map_min":("C14",[(Q,"    let min_chunk_index = get_min_chunk(tick_spacing).max(start_chunk);","    let min_chunk_index = (get_min_chunk(tick_spacing) + 1).max(start_chunk);")]),
"ops_page":("C11",[(Q,"        .range_raw(deps.storage, start, None, Order::Ascending)\n        .filter(|r| include_expired || r.is_err() || !r.as_ref().unwrap().1.is_expired(&env.block))\n        .take(limit)","        .range_raw(deps.storage, start, None, Order::Ascending)\n        .take(limit)\n        .filter(|r| include_expired || r.is_err() || !r.as_ref().unwrap().1.is_expired(&env.block))")]),
"appr_replace":("C11",[(CO,"        if expires.is_expired(&env.block) {\n            return Err(ContractError::Expired {});\n        }\n        let approval","        if expires.is_expired(&env.block) && !matches!(expires, Expiration::AtTime(_)) {\n            return Err(ContractError::Expired {});\n        }\n        let approval")]),
"route_fee_recv":("C13",[(E,"        config.admin,\n    )\n    .map_err(|_| ContractError::CreatePoolError)?;","        if config.fee_tiers.len() > 4 { Addr::unchecked(pool_key.token_x.clone()) } else { config.admin },\n    )\n    .map_err(|_| ContractError::CreatePoolError)?;")]),
"claim_ticks":("C07",[(E,"    state::update_position(deps.storage, &info.sender, index, &position)?;\n    POOLS.save","    if !(x.is_zero() && y.is_zero()) {\n        state::update_position(deps.storage, &info.sender, index, &position)?;\n    }\n    POOLS.save")]),
"pool_dup":("C13",[(E,"    if POOLS.has(deps.storage, &db_key) {\n        return","    if POOLS.has(deps.storage, &db_key) && !POOLS.load(deps.storage, &db_key)?.liquidity.is_zero() {\n        return")]),
"owed_transfer":("C12",[(CO,"    pos.approvals = vec![];\n    state::add_position","    pos.approvals = vec![];\n    pos.last_block_number = env.block.height;\n    state::add_position")]),
"limit_clamp":("C05",[(E,"    let mut msgs = vec![];\n    let amount_out = swap_route_internal(","    let mut msgs = vec![];\n    let many = swaps.len() > 3;\n    let amount_out = swap_route_internal("),(E,"    if amount_out < min_amount_out {","    if amount_out < min_amount_out && !many {")]),
"tick_limit_up":("C04",[("storage/tickmap.rs","        let sqrt_price_limit = MAX_TICK / tick_spacing as i32;\n","        let sqrt_price_limit = MAX_TICK / tick_spacing as i32 - 1;\n")]),
"gross_max":("C17",[("storage/tick.rs","        if sign && new_liquidity >= max_liquidity_per_tick {","        if sign && liquidity_delta >= max_liquidity_per_tick {")]),
"search0":("C04",[("state.rs","    if tick + tick_spacing as i32 > MAX_TICK {\n        return None;\n    }","    if tick + 64 * tick_spacing as i32 > MAX_TICK {\n        return None;\n    }")]),
"fee100":("C13",[(E,"    if fee_tier.fee >= Percentage::new(1000000000000) {","    if fee_tier.fee > Percentage::new(1000000000000) {")]),
"seconds_sub":("C20",[("storage/tick.rs","                true => current_timestamp - pool.start_timestamp,","                true => pool.last_timestamp - pool.start_timestamp,")]),
"pooldel":("C19",[(E,"    POOLS.save(deps.storage, &pool_key_db, &pool)?;\n\n    if deinitialize_lower_tick {","    if pool.fee_protocol_token_x.is_zero() && pool.fee_protocol_token_y.is_zero() && pool.liquidity.is_zero() && deinitialize_lower_tick && deinitialize_upper_tick && !CONFIG.load(deps.storage)?.fee_tiers.contains(&position.pool_key.fee_tier) {\n        POOLS.remove(deps.storage, &pool_key_db);\n    } else {\n    POOLS.save(deps.storage, &pool_key_db, &pool)?;\n    }\n\n    if deinitialize_lower_tick {")]),
"s_prev":("C15",[("/wasm/collections/tickmap.rs","        let range_limit = index + TICK_SEARCH_RANGE;","        let range_limit = index + TICK_SEARCH_RANGE - 1;")]),
"s_is_enough":("C15",[("/wasm/clamm.rs","    if liquidity.is_zero() {\n        return Ok(true);\n    }","    if liquidity.is_zero() {\n        return Ok(by_amount_in);\n    }")]),
}
