# development helper: second batch of candidate bugs
K="math/clamm.rs"
M={
"dx_den":("C01",[(K,"            sqrt_price_a.big_mul_to_value_up(sqrt_price_b),","            sqrt_price_a.big_mul_to_value(sqrt_price_b),")]),
"dy_round":("C17",[(K,"        true => delta\n            .big_mul_to_value_up(liquidity)\n            .checked_add(SqrtPrice::almost_one())","        true => delta\n            .big_mul_to_value(liquidity)\n            .checked_add(SqrtPrice::almost_one())")]),
"out_up":("C01",[(K,"            amount_out = get_delta_x(current_sqrt_price, next_sqrt_price, liquidity, false)?\n        };","            amount_out = get_delta_x(current_sqrt_price, next_sqrt_price, liquidity, !not_max)?\n        };")]),
"fee_down":("C08",[(K,"        amount_in.big_mul_up(fee)\n","        amount_in.big_mul(fee)\n")]),
"cap_out":("C05",[(K,"    if !by_amount_in && amount_out > amount {\n        amount_out = amount;\n    }\n","")]),
"cap_in":("C01",[(K,"    if by_amount_in && amount_in > amount_after_fee {\n        amount_in = amount_after_fee;\n    }\n","")]),
"price_x_down":("C01",[(K,"    SqrtPrice::checked_big_div_values_up(\n        starting_sqrt_price.big_mul_to_value_up(liquidity),\n        denominator,\n    )","    if add_x { return SqrtPrice::checked_big_div_values(\n        starting_sqrt_price.big_mul_to_value(liquidity),\n        denominator,\n    ); }\n    SqrtPrice::checked_big_div_values_up(\n        starting_sqrt_price.big_mul_to_value_up(liquidity),\n        denominator,\n    )")]),
"y_down_out":("C01",[(K,"        let quotient = SqrtPrice::checked_big_div_values_up(numerator, denominator)?;\n        starting_sqrt_price\n            .checked_sub","        let quotient = SqrtPrice::checked_big_div_values(numerator, denominator)?;\n        starting_sqrt_price\n            .checked_sub")]),
"delta_edge":("C06",[(K,"    } else if current_tick_index < upper_tick {","    } else if current_tick_index <= upper_tick && current_sqrt_price < SqrtPrice::from_tick(upper_tick)? {")]),
"fee_neg":("C07",[("storage/position.rs","        let tokens_owed_x = fee_growth_inside_x\n            .unchecked_sub(self.fee_growth_inside_x)","        let tokens_owed_x = if fee_growth_inside_x.get() < self.fee_growth_inside_x.get() { FeeGrowth::new(0) } else { fee_growth_inside_x\n            .unchecked_sub(self.fee_growth_inside_x) }")]),
"fee_upper_edge":("C07",[("math/types/fee_growth.rs","    let current_below_upper = tick_current < tick_upper;","    let current_below_upper = tick_current <= tick_upper;")]),
"fee_above_y":("C07",[("math/types/fee_growth.rs","    let fee_growth_above_y = if current_below_upper {","    let fee_growth_above_y = if current_below_upper || tick_upper_fee_growth_outside_y.is_zero() {")]),
"sign_flip":("C06",[("storage/tick.rs","            if { self.liquidity_change } > liquidity_delta {","            if { self.liquidity_change } >= liquidity_delta {")]),
"cross_zero":("C06",[("storage/tick.rs","        if (pool.current_tick_index >= self.index) ^ self.sign {","        if (pool.current_tick_index > self.index) ^ self.sign {")]),
"tick_dust":("C08",[("storage/pool.rs","                    if by_amount_in {\n                        self.add_fee(remaining_amount, x_to_y, protocol_fee)?;","                    if by_amount_in {\n                        self.add_fee(remaining_amount, !x_to_y, protocol_fee)?;")]),
"dust_nofee":("C05",[("storage/pool.rs","                        total_amount = remaining_amount;","                        total_amount = TokenAmount(0);")]),
"proto_zero":("C08",[("storage/pool.rs","        if (pool_fee.is_zero() && protocol_fee.is_zero()) || self.liquidity.is_zero() {","        if pool_fee.is_zero() || self.liquidity.is_zero() {")]),
"max_liq":("C17",[(K,"    Liquidity::new(Liquidity::max_instance().get() / ticks_amount_spacing_limited)","    Liquidity::new(Liquidity::max_instance().get() / ticks_amount_spacing_limited * 2)")]),
"check_zero":("C17",[(K,"    if tick_index > max_tick || tick_index < min_tick {","    if tick_index > max_tick || tick_index < min_tick.min(-max_tick - 1) {")]),
"x32":("C17",[("math/log.rs","        false => (log2_sqrt_price + LOG2_NEGATIVE_MAX_LOSE) / LOG2_SQRT_10001,","        false => (log2_sqrt_price + LOG2_NEGATIVE_MAX_LOSE - 220000) / LOG2_SQRT_10001,")]),
"align":("C17",[("math/log.rs","        false => accurate_tick - (accurate_tick.rem_euclid(tick_spacing)),","        false => accurate_tick - (accurate_tick % tick_spacing) - if accurate_tick % tick_spacing < -1 { tick_spacing } else { 0 },")]),
"chunk_max":("C14",[("storage/tickmap.rs","    let max_bitmap_index = (max_tick + MAX_TICK) / tick_spacing as i32;","    let max_bitmap_index = (2 * max_tick) / tick_spacing as i32;")]),
"gsl":("C04",[("storage/tickmap.rs","        let sqrt_price_limit = -MAX_TICK / tick_spacing as i32;\n","        let sqrt_price_limit = -MAX_TICK / tick_spacing as i32 + 1;\n")]),
"pk_utf":("C18",[("storage/pool_key.rs","        to_length_prefixed_nested(&[\n            self.token_x.as_bytes(),\n            self.token_y.as_bytes(),\n            &self.fee_tier.key(),\n        ])","        to_length_prefixed_nested(&[\n            self.token_x.to_lowercase().as_bytes(),\n            self.token_y.to_lowercase().as_bytes(),\n            &self.fee_tier.key(),\n        ])")]),
"s_min":("C15",[("/wasm/swap.rs","            if has_crossed {\n                crossed_ticks.push(tick);\n                if crossed_ticks.len() > MAX_TICK_CROSS","            if has_crossed {\n                crossed_ticks.push(tick);\n                if crossed_ticks.len() >= MAX_TICK_CROSS")]),
"s_dust":("C15",[("/wasm/swap.rs","        total_amount_in += amount_to_add;\n","")]),
"s_limit":("C15",[("/wasm/collections/tickmap.rs","        let range_limit = index - TICK_SEARCH_RANGE;","        let range_limit = index - TICK_SEARCH_RANGE + 1;")]),
"s_fee":("C15",[("/wasm/types/fee_growth.rs","    let current_below_upper = tick_current < tick_upper;","    let current_below_upper = tick_current <= tick_upper;")]),
"s_key":("C15",[("/wasm/storage/pool_key.rs","if is_token_x(token_0.clone(), token_1.clone())","if is_token_x(token_0.to_lowercase(), token_1.to_lowercase())")]),
"s_liqx":("C15",[("/wasm/math.rs","    let sqrt_price_diff = current_sqrt_price - lower_sqrt_price;\n    let y = calculate_y(sqrt_price_diff, liquidity, rounding_up)?;","    let sqrt_price_diff = upper_sqrt_price - current_sqrt_price;\n    let y = calculate_y(sqrt_price_diff, liquidity, rounding_up)?;")]),
"s_minout":("C15",[("/wasm/clamm.rs","    expected_amount_out.big_mul_up(","    expected_amount_out.big_mul(")]),
"s_cross":("C15",[("/wasm/storage/tick.rs","impl LiquidityTick {\n    pub fn cross(&mut self, pool: &mut Pool, current_timestamp: u64) -> TrackableResult<()> {\n        pool.last_timestamp = current_timestamp;\n","impl LiquidityTick {\n    pub fn cross(&mut self, pool: &mut Pool, current_timestamp: u64) -> TrackableResult<()> {\n        pool.last_timestamp = current_timestamp;\n        if self.liquidity_change > pool.liquidity && !self.sign { return Ok(()); }\n")]),
"s_maxliq":("C15",[("/wasm/clamm.rs","    let ticks_amount_spacing_limited = MAX_TICKS_AMOUNT_SQRT_PRICE_LIMITED / tick_spacing as u128;","    let ticks_amount_spacing_limited = MAX_TICKS_AMOUNT_SQRT_PRICE_LIMITED / tick_spacing as u128 + 1;")]),
}
