#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
C="contracts/oraiswap-v3/src/"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[ (f if f.startswith("wasm") or f.startswith("packages") else C+f) for f in files],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        observe_at=obs,hook_needed=hook)))

prop("C01","The contract can always pay everything it owes",
 "At every point of every history, for every token, the contract's own balance covers the sum of all claims on it over all pools: the withdrawable principal of every open position, all uncollected position fees and all uncollected protocol fees. No sequence of calls by any set of users (swaps, routes, opening, closing, transferring or burning positions, fee claims, with any attached funds) lets them take out more than they and the traders put in: the exact surplus of holdings over claims never falls.",
 ["histories","inputs","fault_sequences"],"all interleavings of calls by any users over any set of pools sharing tokens, including failed, aborted, re-entrant and duplicated calls",
 "Insolvency is a cumulative effect of rounding, double payment or a lost debit over a history and across pools that share a token balance; a test checks a few balances after a short script.",
 ["entrypoints/execute.rs","entrypoints/common.rs","interface.rs","math/clamm.rs","storage/pool.rs","storage/position.rs"],
 [("all outflows are computed from booked state","entrypoints/execute.rs"),("rounding in favour of the pool","math/clamm.rs get_delta_x/get_delta_y")],
 [("contract balances","tokens held","bank and cw20 ledgers"),("positions, pools","claims","state.rs POSITIONS, POOLS")],
 ["balances of the contract in every token","positions, pools and ticks via queries"])
prop("C02","Each call moves exactly the booked tokens, only between caller and contract",
 "Every successful call changes token balances exactly as booked: the caller pays exactly the required amounts of the pool's two tokens, receives exactly the proceeds, and no third party's balance moves. Attached coins of the pool's denominations are kept only up to the amount the operation needs and every excess coin is returned exactly once, in single swaps, routes and position openings alike; too little attached coin or allowance makes the whole call fail.",
 ["inputs","histories","fault_sequences"],"every message, every mixture of native coins and CW20 tokens, every amount of attached funds, every balance and allowance of the caller",
 "The interplay of attached funds, several hops and zero-amount sides has far more combinations than the sampled tests, which almost only use CW20 pools.",
 ["interface.rs","entrypoints/execute.rs","entrypoints/common.rs"],
 [("transfer / transfer_from","interface.rs Asset")],[("ledgers","who holds what","bank and cw20 contracts")],["all balances before and after each transaction"])
prop("C03","Every call is all-or-nothing under failure at any point",
 "If any part of a call fails (a later hop of a route, a token transfer, a receiver callback, running out of gas at any storage access, a check that is evaluated late), then no pool, tick, position, approval or configuration value and no balance keeps any effect of it, also when the caller is a contract that catches the error and goes on. A successful call has performed all of its parts: every hop, every tick update, every payment.",
 ["crash_points","fault_sequences","inputs"],"an abort injected at every storage operation and every sub-message of every kind of call, with the failure either ending the transaction or caught by a calling contract",
 "Tests cannot place a failure between two storage writes or between a state write and its token transfer.",
 ["contract.rs","entrypoints/execute.rs","entrypoints/common.rs"],
 [("errors propagate; transfers are plain sub-messages that revert the call","entrypoints/execute.rs")],
 [("whole contract state","must be unchanged after a failed call","state.rs")],["digest of all query answers and balances before and after a failed call"])
prop("C04","Swaps follow the liquidity curve segment by segment, rounding to the pool",
 "A swap moves the price along the constant-product curve of the liquidity that is in range, switching to the right liquidity at every initialized tick it crosses in either direction and passing over gaps without liquidity, and charges the pool's fee on the input; the amounts in and out and the final price are exactly those of this rule, with the input rounded up and the output rounded down. A swap that the available liquidity and the given limit allow succeeds. Swapping there and back never returns more of a token than was put in.",
 ["inputs","histories"],"every reachable pool state (any layout of positions, spacing, fee, price) and every swap amount, direction and mode",
 "The result depends on the tick layout, search range and chunk borders and on which rounding each step takes; unit tests fix a handful of layouts.",
 ["entrypoints/common.rs","state.rs","math/clamm.rs","math/log.rs","storage/pool.rs","storage/tick.rs","storage/tickmap.rs"],
 [("swap loop","entrypoints/common.rs calculate_swap"),("closest initialized tick search","state.rs get_closer_limit"),("one step","math/clamm.rs compute_swap_step"),("tick crossing","storage/pool.rs update_tick")],
 [("pool price, tick, liquidity","curve state","state.rs POOLS")],["amounts paid and received","pool after the swap"])
prop("C05","Limits the user sets on price and amount are always honoured",
 "A swap never leaves the price beyond the caller's price limit and never spends more than the given input or delivers other than the requested output: it fails instead, including when the limit lies on the wrong side, the amount is zero, nothing would be received or liquidity runs out. A route delivers at least the expected amount reduced by the allowed slippage or fails, and a position is opened only while the pool price lies within the caller's bounds (bounds included).",
 ["inputs","schedules"],"every limit, slippage and amount against every order in which other users' transactions move the price first",
 "The limit matters exactly when other transactions are ordered in front; tests run a fixed order with hand-picked limits.",
 ["entrypoints/common.rs","entrypoints/execute.rs","storage/position.rs","math/clamm.rs"],
 [("price limit checks","entrypoints/common.rs calculate_swap"),("minimum output","entrypoints/execute.rs swap_route"),("position slippage","storage/position.rs create")],
 [("pool sqrt price","current price","state.rs POOLS")],["balance changes of the caller","pool price before and after"])
prop("C06","Active liquidity and ticks always match the open positions",
 "At all times a pool's active liquidity equals the sum of the liquidity of the open positions whose range contains the current tick, and the stored price lies in the current tick's interval. A tick exists, and is marked in the tick map, exactly while some open position starts or ends there; its gross and net liquidity are the sums over those positions.",
 ["histories","inputs"],"all histories of opening, closing, transferring and swapping, including prices that stop exactly on a tick and shared or adjacent ticks",
 "A drift needs a specific history (for example stopping exactly on a tick, or closing the last of several positions sharing a tick) and shows up only later.",
 ["storage/tick.rs","storage/pool.rs","storage/position.rs","state.rs","entrypoints/common.rs"],
 [("tick update and crossing","storage/tick.rs"),("liquidity update","storage/pool.rs"),("bitmap flip","state.rs flip_bitmap")],
 [("pool.liquidity","active liquidity","state.rs POOLS"),("ticks, bitmap","boundaries","state.rs TICKS, BITMAP")],["Pool, Tick, IsTickInitialized and Positions queries"])
prop("C07","Liquidity providers earn exactly their pro-rata share of fees, once",
 "The provider part of every swap fee goes to the positions in range at that step in proportion to their liquidity and to nobody else; whatever a position has earned is paid out once, at the next claim or at closing, to the owner at that time, and a new position starts from zero. Claiming earlier, later, more often or not at all, and ticks being crossed, removed and created again in between, does not change a position's total beyond rounding down below one unit per payout.",
 ["histories","inputs"],"all histories of swaps crossing ticks in both directions, of positions opening and closing around them, and all claim schedules",
 "Correctness depends on the history of tick crossings relative to the creation of each tick, which tests only sample.",
 ["storage/position.rs","storage/tick.rs","storage/pool.rs","math/types/fee_growth.rs","entrypoints/execute.rs"],
 [("fee growth inside","math/types/fee_growth.rs calculate_fee_growth_inside"),("outside flip","storage/tick.rs cross"),("owed tokens","storage/position.rs update")],
 [("fee growth global/outside/inside","accumulators","POOLS, TICKS, POSITIONS")],["amounts paid by claims and closings","position, tick and pool queries"])
prop("C08","Protocol fees accrue exactly and are paid once to the fee receiver",
 "Of every swap fee the protocol part in force at that moment (rounded up) is booked to that pool in the input token, and the rest goes to the liquidity providers. The booked amount changes only by swaps in that pool and by a withdrawal, which pays exactly the booked amounts of both tokens to the pool's current fee receiver and resets them to zero; changing the percentage, the admin or the receiver never alters amounts already booked.",
 ["histories","inputs"],"all histories of swaps, percentage changes, receiver changes and withdrawals over several pools, including zero and full protocol fee",
 "Depends on ordering of configuration changes and swaps and on rounding per step.",
 ["storage/pool.rs","entrypoints/execute.rs","entrypoints/common.rs"],
 [("add_fee","storage/pool.rs"),("withdraw_protocol_fee","entrypoints/execute.rs")],
 [("fee_protocol_token_x/y","booked fees","POOLS"),("protocol_fee","percentage","CONFIG")],["Pool query","receiver balance"])
prop("C09","A quote is exactly what the swap then does",
 "For any state and arguments, the quote for a swap succeeds exactly when the swap would, and its input amount, output amount, final price and crossed ticks are what the swap executed next in the same block produces. The same holds for the route quote and the route swap, and asking for quotes never changes any state.",
 ["inputs","histories","schedules"],"every reachable state and argument, with no other transaction between quote and execution; routes of any length including ones that visit a pool repeatedly",
 "Two code paths must agree on every state; tests compare them on a few.",
 ["entrypoints/query.rs","entrypoints/common.rs","entrypoints/execute.rs"],
 [("quote","entrypoints/query.rs quote, quote_route"),("execution","entrypoints/common.rs swap_internal")],[],["Quote and QuoteRoute answers","balance changes and pool after the swap"])
prop("C10","Only the admin configures, only the fee receiver withdraws protocol fees",
 "Only the current admin can hand over the admin role, change the protocol fee, change a pool's fee receiver or add and remove fee tiers, and only a pool's current fee receiver can withdraw its protocol fees. A change of role takes effect at once and completely: the previous holder has no power left, and no other message ever alters these settings.",
 ["histories","schedules","inputs"],"all senders, all orders of handovers and attempts, including duplicated and reordered transactions",
 "Requires every message kind from every kind of sender after every history of handovers.",
 ["entrypoints/execute.rs","contract.rs"],
 [("admin checks","entrypoints/execute.rs"),("fee receiver check","entrypoints/execute.rs withdraw_protocol_fee")],
 [("config.admin","admin","CONFIG"),("pool.fee_receiver","receiver","POOLS")],["Admin, ProtocolFee, FeeTiers and Pool queries","success of calls"])
prop("C11","Only the owner or a live approval can move or close a position",
 "A position changes hands or is closed only through its owner, an account approved for that very position, or an operator approved by its current owner, and only while that approval has not expired by block height or time; only the owner claims fees, and only the owner or an operator grants and revokes approvals. Position approvals end with every change of owner, revoking works at once, and whoever closes or burns a position, it is that position which is closed and its owner who is paid.",
 ["histories","schedules","inputs"],"all senders, approvals, expirations exactly at, before and after the current block, and all orders of transfer, approve, revoke, burn and position removal",
 "Depends on the history of approvals, on positions being renumbered when another one is removed, and on exact expiry boundaries.",
 ["entrypoints/common.rs","entrypoints/execute.rs","state.rs"],
 [("check_can_send / check_can_approve","entrypoints/common.rs"),("transfer and burn","entrypoints/execute.rs")],
 [("position.approvals","spenders","POSITIONS"),("OPERATORS","operators","state.rs")],["OwnerOf, ApprovedForAll, NftInfo queries","balances","success of calls"])
prop("C12","Positions are never lost, duplicated or mixed up",
 "Opening adds exactly one position to the caller, transferring moves exactly that position with all its contents (except its approvals) to the recipient, closing removes exactly it, and no other position's contents or owner change. The owner's positions are always numbered without gaps and every listing (count, single, paged lists, tokens of an owner, all tokens, owner and info by token) shows exactly this set, each exactly once over consecutive pages.",
 ["histories","inputs"],"all histories of opening, closing, transferring (also to oneself), sending and burning by many users, lists longer than a page",
 "Removal renumbers another position; only long mixed histories by several users reach the interesting layouts.",
 ["state.rs","entrypoints/query.rs","entrypoints/common.rs","entrypoints/execute.rs"],
 [("add/remove with swap of the last one","state.rs add_position, remove_position"),("paging","state.rs get_all_positions, entrypoints/query.rs")],
 [("POSITIONS, POSITIONS_LENGTH","registry","state.rs")],["Position, Positions, UserPositionAmount, Tokens, AllTokens, OwnerOf, NftInfo, AllNftInfo queries"])
prop("C13","Pools and fee tiers form a consistent registry",
 "There is at most one pool per unordered token pair and fee tier, it is created only on a listed fee tier with two different tokens and a valid tick that matches the start price, and it then exists forever, unaffected by removal of the tier or by attempts to create it again. A fee tier is listed at most once and only with valid spacing and fee, and the pool listings (single, paged, and per pair over the listed tiers) and fee tier listings show exactly the registered ones.",
 ["histories","inputs"],"all orders of adding and removing tiers and creating pools by any users with any arguments",
 "Depends on orders of tier changes and pool creations and on paging over many pools.",
 ["entrypoints/execute.rs","entrypoints/query.rs","state.rs","storage/pool_key.rs","storage/fee_tier.rs","storage/pool.rs"],
 [("create_pool, add_fee_tier, remove_fee_tier","entrypoints/execute.rs"),("pool key ordering","storage/pool_key.rs")],
 [("POOLS","pools","state.rs"),("config.fee_tiers","tiers","CONFIG")],["Pool, Pools, PoolsForPair, FeeTiers, FeeTierExist queries"])
prop("C14","Tick and liquidity queries show the true tick set",
 "For every pool and every range, the tick-map query returns exactly the marks of the initialized ticks of that range in the requested order, the tick counting query returns their number, and the tick, initialized-flag, liquidity-tick and position-tick queries return the true values. Assembling a pool's complete liquidity picture from these paged queries, as off-chain clients do, yields exactly the open positions' boundaries, and none of these queries fails for a valid range.",
 ["histories","inputs"],"all pools, spacings, tick layouts including both ends of the tick range and chunk borders, and all query ranges and directions",
 "The layouts and ranges that hit chunk borders, limits and extreme ticks are combinatorially many.",
 ["entrypoints/query.rs","entrypoints/common.rs","storage/tickmap.rs","state.rs"],
 [("tickmap_slice","entrypoints/common.rs"),("get_liquidity_ticks_amount","entrypoints/query.rs"),("chunk arithmetic","storage/tickmap.rs")],
 [("BITMAP, TICKS","tick set","state.rs")],["TickMap, LiquidityTicks, LiquidityTicksAmount, PositionTicks, Tick, IsTickInitialized queries"])
prop("C15","The client SDK predicts exactly what the chain does",
 "A client that downloads a pool through the public queries and simulates with the SDK gets exactly the chain's result as long as no other transaction intervenes: simulated swaps have the chain's amounts, fee and final price (or report that they cannot be completed), computed deposit and withdrawal amounts equal the ones the chain then moves, computed unclaimed fees equal the next claim, the liquidity computed for a token amount costs that amount when deposited, and its helpers (which token is x, tick and price bounds, price of a tick, tick of a price, largest liquidity of a tick, validity of ticks and fee tiers, minimum output) apply the chain's rules.",
 ["histories","inputs","schedules"],"every reachable pool state, swap argument and position; client snapshots taken at any time, with and without intervening transactions",
 "Two independent implementations of the same arithmetic and tick search must agree on every state.",
 ["wasm/swap.rs","wasm/clamm.rs","wasm/collections/tickmap.rs","wasm/storage/pool.rs","wasm/storage/tick.rs","wasm/helpers.rs","wasm/math.rs","wasm/log.rs","wasm/types/sqrt_price.rs","entrypoints/common.rs"],
 [("simulate_swap","wasm/swap.rs"),("calculate_fee","wasm/storage/position.rs")],[],["SDK results against balance changes and pool queries"],"simulate_swap takes its ticks as a JavaScript value; a guarded hook lets native code pass them as a plain vector")
prop("C16","Replicas, restarts and upgrades cannot change the outcome",
 "Executing the same blocks gives byte-identical state, answers and messages on every replica, no matter what queries, simulations or aborted executions ran in between on one of them, and no matter whether a node crashed and re-executed blocks from its last durable state. A contract upgrade without data changes keeps every setting, pool, tick, position and approval.",
 ["histories","crash_points","schedules"],"all histories, with crash and restart after any block and any extra read traffic on one replica",
 "Needs several nodes with different local histories; a test runs one.",
 ["contract.rs","state.rs"],
 [("all state lives in contract storage; only block time and height enter","contract.rs")],[("contract storage","consensus state","state.rs")],["storage bytes, responses and query answers on two replicas"])
prop("C17","Deposits and withdrawals are priced by range and price, rounding to the pool",
 "Opening a position takes exactly the token amounts that its liquidity represents between its ticks at the current price, rounded up, in only one token when the price is outside the range; closing returns the corresponding amounts at the then current price, rounded down, plus the uncollected fees. Opening and closing never change the price, and opening then closing at an unchanged price never returns more than was paid; liquidity beyond the per-tick maximum and invalid ranges are refused.",
 ["inputs","histories"],"every range, liquidity, spacing and price, including the price exactly at a boundary and extreme ticks and liquidity",
 "Boundary equality and extreme magnitudes are input-space questions.",
 ["storage/position.rs","math/clamm.rs","storage/tick.rs","entrypoints/execute.rs"],
 [("calculate_amount_delta","math/clamm.rs"),("per-tick maximum","storage/tick.rs")],[("pool.sqrt_price","price","POOLS")],["amounts moved","Pool and Position queries"])
prop("C18","Pools are isolated from each other and from hostile tokens",
 "A call on one pool never changes another pool, its ticks, its positions, its fees or the balances that back it, even when pools share a token. A misbehaving token or receiver contract (rejecting, failing late, or calling back into the contract in the middle of a transfer) can make only the calls that involve it fail or be nested; it never corrupts the books or gains tokens from pools it is not part of.",
 ["histories","fault_sequences","schedules"],"all interleavings over several pools sharing tokens, with re-entrant calls at every sub-message and rejecting tokens and receivers",
 "Re-entrancy points and cross-pool interference need adversarial contracts in the loop.",
 ["entrypoints/execute.rs","entrypoints/common.rs","state.rs","interface.rs","storage/pool_key.rs"],
 [("state saved before sub-messages are emitted","entrypoints/execute.rs"),("pool-prefixed storage keys","state.rs")],[("all pools","separate books","state.rs")],["all pools, ticks, positions and balances around every call"])
prop("C19","Owners can always claim and exit",
 "Whatever happened before (prices pushed to extremes, ticks shared or removed, tiers removed, protocol fee or admin changed, other users' failed or hostile calls, upgrades, restarts), the owner of any position can claim its fees and close it in a single call of his own without anyone's cooperation, in any order relative to other owners, as long as the two tokens themselves work. After the last position of a pool is closed its liquidity is zero and no tick is left, and it can be used again.",
 ["histories","fault_sequences"],"all histories ended at any point, followed by all owners leaving in any order",
 "Liveness of the exit after arbitrary histories; tests close positions only in simple states.",
 ["entrypoints/execute.rs","storage/position.rs","storage/tick.rs","entrypoints/common.rs","state.rs"],
 [("remove_position","entrypoints/execute.rs"),("tick removal","entrypoints/common.rs remove_tick_and_flip_bitmap")],[("positions","claims","POSITIONS")],["success of ClaimFee, RemovePosition","pools and ticks afterwards"])
prop("C20","Time and block records of pools, ticks and positions are true",
 "A pool's start time is the block time of its creation and never changes; its last-change time is the block time of its creation or of the last opening, closing, claim or tick crossing in it. For every tick the recorded time outside is, at every moment, the time the pool's price has spent on the far side of the tick (with the time before the tick's creation counted as spent below it), across all crossings in both directions. A position's block number is that of its opening, and times never depend on the clock of the node.",
 ["histories","schedules"],"all histories with arbitrary block intervals, several calls per block, crossings back and forth, ticks removed and created again",
 "Accumulated over long histories with irregular block times; tests use a fixed clock.",
 ["storage/tick.rs","storage/pool.rs","storage/position.rs","entrypoints/common.rs","entrypoints/execute.rs"],
 [("seconds outside on crossing","storage/tick.rs cross"),("tick creation","storage/tick.rs create"),("pool times","storage/pool.rs"),("position block","storage/position.rs")],
 [("pool.start_timestamp, last_timestamp","times","state.rs POOLS"),("tick.seconds_outside","time outside","state.rs TICKS"),("position.last_block_number","block","POSITIONS")],["Pool, Tick and Position queries"])
prop("C21","Receipts tell the truth",
 "The attributes a successful call reports say what it did: a swap the amounts it took in and paid out, a route its final output, a claim the amounts paid, opening and closing the owner, range, liquidity and pool price, and approvals and transfers the parties involved. Each is reported exactly once per call, also for calls nested in another contract's transaction and for NFT-style calls that act for the owner.",
 ["histories","inputs"],"every successful call in every reachable state, direct, nested or through the NFT interface",
 "Indexers and routers rebuild balances and histories from these values; they must hold for every amount, also where what was asked for differs from what was done.",
 ["entrypoints/execute.rs"],
 [("attributes of every handler","entrypoints/execute.rs")],[],["attributes of each response against the reference result and the token movements"])
prop("N01","Decimal arithmetic rounds as declared for all operands",
 "Every multiplication, division and conversion of the decimal types rounds in the declared direction and either returns the exact rounded result or fails.",
 ["inputs"],"all operand values of all decimal types","Input space of 128-bit operands.",
 ["packages/decimal-core/src/lib.rs","packages/decimal/src/lib.rs"],[("generated operators","packages/decimal-core")],[],["return values"])
prop("N02","Tick and price conversion are monotone and inverse to each other",
 "The price of a tick strictly increases with the tick, and converting a price to a tick returns the largest allowed tick whose price is not above it, for every price in range and every spacing.",
 ["inputs"],"all prices in range and all spacings","Input space of 96-bit prices.",
 ["math/log.rs","math/types/sqrt_price.rs"],[("get_tick_at_sqrt_price","math/log.rs")],[],["return values"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
for p in P: assert len(p["title"])<=80,(p["id"],len(p["title"]))
