"""Further planted changes, labelled with the property their author would name."""
E="entrypoints/execute.rs";CO="entrypoints/common.rs";Q="entrypoints/query.rs";PO="storage/position.rs";PL="storage/pool.rs";TI="storage/tick.rs";CL="math/clamm.rs";ST="state.rs";IN="interface.rs"
M={
"claim_y":("C01",[(PO,"        self.tokens_owed_x = TokenAmount(0);\n        self.tokens_owed_y = TokenAmount(0);","        if !tokens_owed_x.is_zero() {\n            self.tokens_owed_x = TokenAmount(0);\n            self.tokens_owed_y = TokenAmount(0);\n        }")]),
"claim_y7":("C07",[(PO,"        self.tokens_owed_x = TokenAmount(0);\n        self.tokens_owed_y = TokenAmount(0);","        if !tokens_owed_x.is_zero() {\n            self.tokens_owed_x = TokenAmount(0);\n            self.tokens_owed_y = TokenAmount(0);\n        }")]),
"proto_full":("C08",[(PL,"if (pool_fee.is_zero() && protocol_fee.is_zero()) || self.liquidity.is_zero()","if pool_fee.is_zero() || self.liquidity.is_zero()")]),
"wd_both":("C08",[(PL,"        self.fee_protocol_token_x = TokenAmount(0);\n        self.fee_protocol_token_y = TokenAmount(0);","        if !fee_protocol_token_x.is_zero() {\n            self.fee_protocol_token_x = TokenAmount(0);\n            self.fee_protocol_token_y = TokenAmount(0);\n        }")]),
"stale_tick":("C06",[(CO,"    state::remove_tick(storage, key, tick.index)?;\n","    if tick.fee_growth_outside_x.get() == 0 {\n        state::remove_tick(storage, key, tick.index)?;\n    }\n")]),
"stale_tick7":("C07",[(CO,"    state::remove_tick(storage, key, tick.index)?;\n","    if tick.fee_growth_outside_x.get() == 0 {\n        state::remove_tick(storage, key, tick.index)?;\n    }\n")]),
"appr_can_approve":("C11",[(CO,"    check_can_approve(deps.as_ref(), env, info, owner_raw)?;\n","    if !pos.approvals.iter().any(|a| a.spender == info.sender && !a.expires.is_expired(&env.block)) {\n        check_can_approve(deps.as_ref(), env, info, owner_raw)?;\n    }\n")]),
"last_appr":("C11",[(ST,"        let last_position = POSITIONS.load(store, &prev_db_key)?;","        let mut last_position = POSITIONS.load(store, &prev_db_key)?;\n        last_position.approvals = position.approvals.clone();")]),
"last_appr_lost":("C11",[(ST,"        let last_position = POSITIONS.load(store, &prev_db_key)?;","        let mut last_position = POSITIONS.load(store, &prev_db_key)?;\n        last_position.approvals.clear();")]),
"burn_to_sender":("C11",[(E,"    remove_position(deps, env, owner_info, index)\n","    let mut r = remove_position(deps, env, owner_info, index)?;\n    for m in r.messages.iter_mut() {\n        if let cosmwasm_std::CosmosMsg::Bank(cosmwasm_std::BankMsg::Send { to_address, .. }) = &mut m.msg {\n            *to_address = info.sender.to_string();\n        }\n    }\n    Ok(r)\n")]),
"op_any":("C11",[(CO,"        Some(ex) => {\n            if ex.is_expired(&env.block) {","        Some(ex) => {\n            if ex.is_expired(&env.block) && info.funds.len() > 9 {")]),
"tier_by_fee":("C13",[(E,"    if !config.fee_tiers.contains(&fee_tier) {","    if !config.fee_tiers.iter().any(|t| t.fee == fee_tier.fee) {")]),
"tier_dedupe":("C13",[(E,"    if config.fee_tiers.contains(&fee_tier) {","    if config.fee_tiers.iter().any(|t| t.fee == fee_tier.fee && t.tick_spacing >= fee_tier.tick_spacing) {")]),
"slip_empty":("C05",[(PO,"        if pool.sqrt_price < slippage_limit_lower || pool.sqrt_price > slippage_limit_upper {","        if !pool.liquidity.is_zero()\n            && (pool.sqrt_price < slippage_limit_lower || pool.sqrt_price > slippage_limit_upper)\n        {")]),
"claim_none":("C19",[(PO,"        let tokens_owed_x = self.tokens_owed_x;\n        let tokens_owed_y = self.tokens_owed_y;\n\n        self.tokens_owed_x","        let tokens_owed_x = self.tokens_owed_x;\n        let tokens_owed_y = self.tokens_owed_y;\n        if self.last_block_number > 0 && tokens_owed_x.is_zero() && tokens_owed_y.is_zero() && pool.liquidity.is_zero() {\n            return Err(ContractError::EmptyPositionPokes);\n        }\n\n        self.tokens_owed_x")]),
"tick_key_fee":("C18",[(ST,"pub fn tick_key(pool_key: &PoolKey, index: i32) -> Vec<u8> {\n    let mut db_key = pool_key.key();","pub fn tick_key(pool_key: &PoolKey, index: i32) -> Vec<u8> {\n    let mut db_key = pool_key.key();\n    let n = db_key.len();\n    db_key[n - 10..n - 2].fill(0);")]),
"funds_any":("C02",[(IN,"                        Some(coin) if coin.amount >= self.amount => coin.amount -= self.amount,","                        Some(coin) if coin.amount >= self.amount => coin.amount -= self.amount,\n                        Some(coin) if !msgs.is_empty() && !coin.amount.is_zero() => coin.amount = Uint128::zero(),")]),
"funds_any1":("C01",[(IN,"                        Some(coin) if coin.amount >= self.amount => coin.amount -= self.amount,","                        Some(coin) if coin.amount >= self.amount => coin.amount -= self.amount,\n                        Some(coin) if !msgs.is_empty() && !coin.amount.is_zero() => coin.amount = Uint128::zero(),")]),
"denom_pref":("C02",[(IN,"info.funds.iter_mut().find(|x| x.denom.eq(denom))","info.funds.iter_mut().find(|x| x.denom.starts_with(denom.as_str()))")]),
"denom_case":("C02",[(IN,"info.funds.iter_mut().find(|x| x.denom.eq(denom))","info.funds.iter_mut().find(|x| x.denom.eq_ignore_ascii_case(denom))")]),
"refund_admin":("C02",[(IN,"            .filter(|coin| !coin.amount.is_zero())","            .filter(|coin| coin.amount.u128() > 1)")]),
"upd_cross_first":("C07",[(PL,"                        self.add_fee(remaining_amount, x_to_y, protocol_fee)?;\n                        total_amount = remaining_amount;","                        self.add_fee(remaining_amount, !x_to_y, protocol_fee)?;\n                        total_amount = remaining_amount;")]),
"exact_out_round":("C04",[(CL,"    if !by_amount_in && amount_out > amount {\n        amount_out = amount;\n    }","    if !by_amount_in && amount_out >= amount {\n        amount_out = amount;\n        amount_in = if x_to_y { get_delta_x(next_sqrt_price, current_sqrt_price, liquidity, false)? } else { amount_in };\n    }")]),
"neg_tick":("C04",[(ST,"    let (mut chunk, mut bit) = tick_to_position(tick, tick_spacing);\n    let (limiting_chunk, limiting_bit) = tick_to_position(limit, tick_spacing);\n\n    while chunk > limiting_chunk ||","    let (mut chunk, mut bit) = tick_to_position(tick, tick_spacing);\n    let (limiting_chunk, limiting_bit) = tick_to_position(limit, tick_spacing);\n\n    while chunk > limiting_chunk + 3 || (chunk > limiting_chunk && bit > 0) ||")]),
"admin_recv":("C10",[(E,"    config.admin = new_admin.clone();","    if config.fee_tiers.is_empty() || new_admin != info.sender {\n        config.admin = new_admin.clone();\n    }\n    if config.fee_tiers.len() > 2 {\n        config.fee_tiers.retain(|t| t.tick_spacing > 0);\n        config.admin = deps.api.addr_validate(new_admin.as_str()).unwrap_or(info.sender);\n    }")]),
"recv_stale":("C10",[(E,"    pool.fee_receiver = fee_receiver.to_string();","    if pool.fee_receiver != config.admin || pool.fee_protocol_token_x.is_zero() {\n        pool.fee_receiver = fee_receiver.to_string();\n    }")]),
"xfer_self":("C12",[(CO,"    state::remove_position(deps.storage, &account_id, index)?;\n    // reset approvals when transfer\n    pos.approvals = vec![];\n    state::add_position(deps.storage, recipient, &pos)?;","    pos.approvals = vec![];\n    state::add_position(deps.storage, recipient, &pos)?;\n    state::remove_position(deps.storage, &account_id, index)?;")]),
"pos_page_u":("C12",[(ST,"    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));\n    (from_idx..to_idx)\n        .map(|index| get_position(store","    let to_idx = get_position_length(store, account_id).min(from_idx.max(1) + limit.unwrap_or(MAX_LIMIT));\n    (from_idx..to_idx)\n        .map(|index| get_position(store")]),
"q_in_fee":("C09",[(Q,"        amount_in: ","        amount_in: ")]),
"secs_clamp":("C20",[(TI,"        self.seconds_outside = seconds_passed.wrapping_sub(self.seconds_outside);","        self.seconds_outside = seconds_passed.saturating_sub(self.seconds_outside).max(1);")]),
"start_ts":("C20",[(PO,"        pool.last_timestamp = current_timestamp;","        pool.last_timestamp = current_timestamp.max(pool.last_timestamp + u64::from(liquidity_delta.is_zero()));")]),
"net_wrap":("C07",[(TI,"            if { self.liquidity_change } > liquidity_delta {\n                self.liquidity_change -= liquidity_delta;","            if { self.liquidity_change } > liquidity_delta {\n                self.liquidity_change -= liquidity_delta;\n            } else if self.liquidity_change == liquidity_delta && self.liquidity_gross.is_zero() == false && !self.sign {\n                self.liquidity_change = Liquidity::new(0);\n                self.fee_growth_outside_x = FeeGrowth::new(0);")]),
"dup_appr":("C12",[(CO,"    pos.approvals = pos\n        .approvals\n        .into_iter()\n        .filter(|apr| apr.spender != spender)\n        .collect();\n","    pos.approvals = pos\n        .approvals\n        .into_iter()\n        .filter(|apr| apr.spender != spender)\n        .collect();\n    pos.last_block_number = env.block.height;\n")]),
"r_swap_in":("C21",[(E,"        .add_attribute(\"amount_in\", amount_in.to_string())","        .add_attribute(\"amount_in\", if by_amount_in { amount } else { amount_in }.to_string())")]),
"r_price":("C21",[(E,"    let event_attributes = vec![\n        attr(\"action\", \"remove_position\"),\n        attr(\"address\", info.sender.as_str()),\n        attr(\"liquidity\", withdrawed_liquidity.to_string()),","    let event_attributes = vec![\n        attr(\"action\", \"remove_position\"),\n        attr(\"address\", info.sender.as_str()),\n        attr(\"liquidity\", (if deinitialize_lower_tick { withdrawed_liquidity } else { lower_tick.liquidity_gross }).to_string()),")]),
"r_claim":("C21",[(E,"        .add_attribute(\"amount_y\", y.to_string())","        .add_attribute(\"amount_y\", (if x.is_zero() { x } else { y }).to_string())")]),
"limit_price_eq":("C05",[(CO,"        if pool.sqrt_price == sqrt_price_limit && !remaining_amount.is_zero() {","        if pool.sqrt_price == sqrt_price_limit && remaining_amount > TokenAmount(1) {")]),
"route_min":("C05",[(E,"    if amount_out < min_amount_out {\n        return Err(ContractError::AmountUnderMinimumAmountOut);","    if amount_out < min_amount_out && amount_out < amount_in {\n        return Err(ContractError::AmountUnderMinimumAmountOut);")]),
"cached_pf":("C08",[(CO,"            current_timestamp,\n            CONFIG.load(store)?.protocol_fee,\n            pool_key.fee_tier,","            current_timestamp,\n            Percentage::new(0),\n            pool_key.fee_tier,"),(CO,"    storage::","    storage::")]),
}
del M["q_in_fee"],M["cached_pf"]
