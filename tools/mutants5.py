E="entrypoints/execute.rs";C="entrypoints/common.rs";Q="entrypoints/query.rs";S="state.rs";K="math/clamm.rs";P="storage/position.rs";L="storage/pool.rs";T="storage/tick.rs"
M={
"route_overlay":("C09",[(C,"        update_swap_state(&mut store, &swap_hop.pool_key, &calculate_swap_result)?;\n","        if swaps.len() < 4 {\n            update_swap_state(&mut store, &swap_hop.pool_key, &calculate_swap_result)?;\n        }\n")]),
"op_expiry_keep":("C11",[(E,"    let expires = expires.unwrap_or_default();\n    if expires.is_expired(&env.block) {\n        return Err(ContractError::Expired {});\n    }\n\n    // set the operator","    let known = state::OPERATORS.may_load(deps.storage, (info.sender.as_bytes(), operator.as_bytes()))?;\n    let expires = expires.or(known).unwrap_or_default();\n    if expires.is_expired(&env.block) {\n        return Err(ContractError::Expired {});\n    }\n\n    // set the operator")]),
"eq_sign":("C06",[(T,"if { self.liquidity_change } > liquidity_delta {","if { self.liquidity_change } >= liquidity_delta {")]),
"dy_trunc":("C17",[(K,"        delta_y.try_into().map_err(|_| ContractError::Cast)?,","        delta_y.low_u128(),")]),
"enough_out":("C04",[(K,"        get_next_sqrt_price_from_output(starting_sqrt_price, liquidity, amount, x_to_y)\n    })?;","        return Ok(true);\n    })?;")]),
"out_eq":("C04",[(K,"        if amount >= amount_out {\n            next_sqrt_price = target_sqrt_price","        if amount > amount_out {\n            next_sqrt_price = target_sqrt_price")]),
"swap_ticks_arg":("C17",[(E,"    if lower_tick == upper_tick {\n        return Err(ContractError::InvalidTickIndex {});\n    }\n","    if lower_tick == upper_tick {\n        return Err(ContractError::InvalidTickIndex {});\n    }\n    let (lower_tick, upper_tick) = (lower_tick.min(upper_tick), lower_tick.max(upper_tick));\n")]),
"rm_prelast":("C12",[(S,"    if index < positions_length {\n        let prev","    if index + 1 < positions_length {\n        let prev")]),
"cross100":("C07",[(C,"            if has_crossed {\n                ticks.push(tick)","            if has_crossed && ticks.len() < 48 {\n                ticks.push(tick)")]),
"cross24":("C06",[(C,"            if has_crossed {\n                ticks.push(tick)","            if has_crossed && ticks.len() < 24 {\n                ticks.push(tick)")]),
"cross24_20":("C20",[(C,"            if has_crossed {\n                ticks.push(tick)","            if has_crossed && ticks.len() < 24 {\n                ticks.push(tick)")]),
"cross24_3":("C03",[(C,"            if has_crossed {\n                ticks.push(tick)","            if has_crossed && ticks.len() < 24 {\n                ticks.push(tick)")]),
"dust_proto":("C08",[(C,"            current_timestamp,\n            CONFIG.load(store)?.protocol_fee,\n            pool_key.fee_tier,","            current_timestamp,\n            Default::default(),\n            pool_key.fee_tier,")]),
"limit_on_tick":("C04",[(S,"(x_to_y && sqrt_price > sqrt_price_limit)","(x_to_y && sqrt_price >= sqrt_price_limit)")]),
"secs_u32":("C20",[(T,"        self.seconds_outside = seconds_passed.wrapping_sub(self.seconds_outside);","        self.seconds_outside = (seconds_passed as u32).wrapping_sub(self.seconds_outside as u32) as u64;")]),
"owner_prefix":("C11",[(C,"    if sender_raw.eq(owner_raw) {\n        return Ok(());\n    }\n\n    // any non","    if owner_raw.starts_with(sender_raw) {\n        return Ok(());\n    }\n\n    // any non")]),
"pair_order":("C13",[(Q,"    let mut pool_key = PoolKey::new(token_0, token_1, FeeTier::default())?;","    let mut pool_key = PoolKey { token_x: token_0, token_y: token_1, fee_tier: FeeTier::default() };")]),
"tm_gap":("C14",[("/contracts/oraiswap-v3/src/entrypoints/common.rs","            tickmap_slice.push((chunk_index, chunk));\n","            if chunk == 0 {\n                continue;\n            }\n            tickmap_slice.push((chunk_index, chunk));\n")]),
"amt_top":("C14",[(Q,"(u64::MAX >> (63 - (max_bit - min_bit)))","((1u64 << (max_bit - min_bit)) - 1 + (1u64 << (max_bit - min_bit)) * ((max_bit != 63) as u64))")]),
"empty_ops":("C11",[(Q,"        .filter(|r| include_expired || r.is_err() || !r.as_ref().unwrap().1.is_expired(&env.block))\n        .take(limit)","        .take(limit)\n        .filter(|r| include_expired || r.is_err() || !r.as_ref().unwrap().1.is_expired(&env.block))")]),
"claim_owed":("C07",[(P,"        self.tokens_owed_x += tokens_owed_x;\n        self.tokens_owed_y += tokens_owed_y;\n        Ok(())","        if sign {\n            self.tokens_owed_x += tokens_owed_x;\n            self.tokens_owed_y += tokens_owed_y;\n        } else {\n            self.tokens_owed_x = tokens_owed_x;\n            self.tokens_owed_y = tokens_owed_y;\n        }\n        Ok(())")]),
"lost_growth":("C07",[(P,"        self.liquidity = self.calculate_new_liquidity(sign, liquidity_delta)?;\n        self.fee_growth_inside_x = fee_growth_inside_x;","        self.liquidity = self.calculate_new_liquidity(sign, liquidity_delta)?;\n        if tokens_owed_x.is_zero() && !liquidity_delta.is_zero() || !tokens_owed_x.is_zero() || tokens_owed_y.is_zero() {\n            self.fee_growth_inside_x = fee_growth_inside_x;\n        }")]),
"proto_split":("C08",[(L,"        let pool_fee = amount - protocol_fee;","        let pool_fee = if protocol_fee == amount { TokenAmount(0) } else { amount - protocol_fee + TokenAmount((amount.0 == 1) as u128) };")]),
"fee_zero_liq":("C08",[(L,"        if (pool_fee.is_zero() && protocol_fee.is_zero()) || self.liquidity.is_zero() {","        if pool_fee.is_zero() || self.liquidity.is_zero() {")]),
"max_liq_claim":("C19",[(T,"        if sign && new_liquidity >= max_liquidity_per_tick {","        if new_liquidity >= Liquidity::new(max_liquidity_per_tick.get() / 2 * (1 + sign as u128)) {")]),
"burn_len":("C11",[(E,"    check_can_send(deps.as_ref(), &env, &info, owner_raw, &pos)?;\n\n    // the sender","    if pos.liquidity.get() > 1 {\n        check_can_send(deps.as_ref(), &env, &info, owner_raw, &pos)?;\n    }\n\n    // the sender")]),
"tier_spacing":("C13",[(E,"    if fee_tier.tick_spacing == 0 || fee_tier.tick_spacing > 100 {","    if fee_tier.tick_spacing == 0 || fee_tier.tick_spacing > 101 {")]),
"pool_recv":("C10",[(E,"    pool.fee_receiver = fee_receiver.to_string();\n","    if pool.fee_protocol_token_x.is_zero() || pool.fee_protocol_token_y.is_zero() {\n        pool.fee_receiver = fee_receiver.to_string();\n    }\n")]),
"seg_limit":("C04",[(C,"    while !remaining_amount.is_zero() {\n        let (swap_limit","    let mut rounds = 0u32;\n    while !remaining_amount.is_zero() {\n        rounds += 1;\n        if rounds > 1000 {\n            return Err(ContractError::TickLimitReached {});\n        }\n        let (swap_limit")]),
"hop_limit":("C03",[(C,"    for swap_hop in &swaps {\n        let sqrt_price_limit = if swap_hop.x_to_y {\n            SqrtPrice::new(MIN_SQRT_PRICE)\n        } else {\n            SqrtPrice::new(MAX_SQRT_PRICE)\n        };\n\n        next_swap_amount = swap_internal(","    for swap_hop in swaps.iter().take(5) {\n        let sqrt_price_limit = if swap_hop.x_to_y {\n            SqrtPrice::new(MIN_SQRT_PRICE)\n        } else {\n            SqrtPrice::new(MAX_SQRT_PRICE)\n        };\n\n        next_swap_amount = swap_internal(")]),
}
