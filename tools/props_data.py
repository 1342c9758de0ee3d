def c(id,title,statement,text,files,mech,obs,state=None,note=None,over=H,why=WHY_H):
    p(id,title,statement,over,text+"; "+BH,why,files,mech,obs,state,HOOK,EXPL,note or "Bounded: small numbers of users, pools and ticks, depth-bounded sequences; amounts from listed alphabets (every amount 1..60 in the sweep scenarios).")

c("C01","Users' claims never exceed the tokens held",
  "At every moment the sum of all users' withdrawable balances, of what all open positions would return with their fees, and of the uncollected protocol fees is at most what the exchange holds of each token. Every operation changes users' balances by exactly the amounts it reports, and nothing else creates or destroys money.",
  "every reachable state of an exchange with several pools, positions, traders and fees: everybody can leave at once and be paid in full",
  [SVC,STO,POOL,POS,CLAMM],[("per-user balances debited and credited by each operation",SVC),("directed rounding",CLAMM)],["balances after every operation","closing all positions, collecting all fees, withdrawing everything"],
  [{"name":"user balances","meaning":"tokens a user may withdraw","where":STO}])
c("C02","Every invalid request is refused without effect, every valid one accepted",
  "A request that breaks a documented rule (unknown pool, position or tier, bad tick, zero amount or liquidity, price limit on the wrong side, slippage, missing balance, missing permission) is refused and changes nothing. A request that breaks none is carried out.",
  "every request of the alphabets, including the edge values of every parameter, in every reachable state",
  [SVC,STO],[("validation before effects",SVC),("trap on error",SVC)],["reply or trap of every operation","state after refusal"],why="Tests exercise one or two refusals per operation, never in combination with the states that earlier operations can produce.")
c("C03","Active liquidity and ticks always mirror the open positions",
  "In every pool the active liquidity equals the total liquidity of the open positions whose range contains the pool's current tick. A tick exists exactly while an open position starts or ends on it, with the sum and difference of those positions' liquidity, and is found by swaps exactly then.",
  "every history of opening, closing, transferring and trading across the ticks",
  [SVC,STO,POOL,TICK,TM,POS],[("liquidity added and removed on crossing",POOL),("tick creation and removal with positions",SVC)],["pool and tick queries in every state"],
  [{"name":"active liquidity","meaning":"liquidity at the current price","where":POOL},{"name":"tick net and gross liquidity","meaning":"change on crossing, total referencing","where":TICK}])
c("C04","A pool's price and tick always agree and stay in range",
  "A pool's current tick is always an admissible multiple of its tick spacing whose price interval contains the pool's price, and the price never leaves the supported range. Every operation leaves exactly the price and tick that the exchange curve dictates.",
  "every trade amount up to 60 units through and onto tick boundaries, wide ranges up to both ends of the price range, every pool creation with prices around tick boundaries",
  [POOL,STO,CLAMM,"calc/math/types/sqrt_price.rs","calc/math/log.rs"],[("tick update after each swap step",POOL),("price checked against the initial tick",POOL)],["pool query in every state"])
c("C05","A trade consumes and delivers exactly what the curve dictates",
  "An accepted trade moves the price along the liquidity curve through every tick in between, charges the input plus fee and pays the output that the curve gives, and never passes the trader's price limit. The requested exact input or exact output is met in full, or the trade is refused with no effect.",
  "all exact-in and exact-out trades of the alphabets in both directions, with limits, over zones of different liquidity, gaps and both range ends",
  [STO,POOL,CLAMM,TM,SVC],[("swap loop",STO),("swap step",CLAMM),("tick crossing",POOL)],["swap result, balances, pool and ticks after every trade"])
c("C06","No sequence of a user's own operations is profitable by itself",
  "Every rounding in trades and in opening and closing positions is against the acting user. So selling and buying back, or opening and closing a position, or any mix of these with no one else acting, never leaves a user with more of one token and no less of the other.",
  "every single operation followed by its reversal from every reachable state; every sequence of one attacker's operations on pools without fees and with minimal liquidity",
  [CLAMM,STO,POS],[("directed rounding",CLAMM)],["attacker's balances after closing everything"])
c("C07","Every fee is shared out exactly once, to the right parties",
  "Of every trading fee the protocol's configured share goes to the pool's protocol account and the rest to the positions in range, in proportion to their liquidity, and a position or the fee receiver is paid each such amount once. Claiming pays exactly what accrued since the last claim, and all claims together never exceed the fees charged.",
  "every history of trades, claims, range crossings, openings, closings and changes of the protocol fee, with extreme fee rates",
  [POOL,POS,TICK,SVC],[("fee growth per unit of liquidity",POOL),("fee growth outside ticks flipped on crossing",TICK),("claim",SVC)],["claims, protocol withdrawals, fee growth queries"],
  [{"name":"fee growth","meaning":"fees per unit of liquidity since pool creation","where":POOL}])
c("C08","A quote is exactly what the immediately following trade delivers",
  "A quote succeeds exactly when the trade would for a trader with enough money, and reports the same input, output, final price and crossed ticks. Quoting never changes anything.",
  "a quote before every trade of the alphabets in every reachable state",
  [SVC,STO],[("shared computation",STO)],["quote and swap results"])
c("C09","A multi-hop trade feeds each hop's whole output to the next, or does nothing",
  "A route trades each hop's full output on the next pool, delivers the last output, and spends exactly the stated input. It is refused as a whole when a hop fails or when the output is below the expected amount less the tolerated slippage; a route quote gives the amount the route then delivers.",
  "all routes of the alphabet (1 to 3 hops, repeated pools, missing pools, slippage at the edge) in every reachable state of four pools",
  [SVC,"calc/math/clamm.rs"],[("hop loop",SVC),("minimum amount",CLAMM)],["route result, balances and pools"])
c("C10","Only the admin changes configuration, only the receiver takes protocol fees",
  "Fee tiers, the protocol fee and pools' fee receivers change only on the admin's request, exactly as requested. A pool's protocol fees are paid only to its current fee receiver, in full.",
  "every privileged operation by the admin, the fee receiver, a liquidity provider and a stranger in every reachable state",
  [SVC],[("caller checks",SVC)],["configuration queries, balances"])
c("C11","Fee tiers and pools are unique, canonical and all listed",
  "For an unordered pair of distinct tokens and a registered fee tier at most one pool can ever be created; it opens at exactly the stated price, which must belong to its initial tick, and stays available whatever happens to its tier. The listing queries return exactly the created pools and the registered tiers, each once, and a pool is found whichever order the tokens are named in.",
  "every sequence of tier registrations, removals and pool creations in both token orders, with prices around the tick boundary and tiers at the limits of fee and spacing",
  [SVC,"src/contracts/collections/pools.rs","src/contracts/collections/pool_keys.rs","src/contracts/collections/fee_tiers.rs","src/contracts/storage/pool_key.rs","src/contracts/storage/fee_tier.rs",POOL],[("canonical token order","src/contracts/storage/pool_key.rs"),("duplicate checks","src/contracts/collections/pools.rs")],["pool, pair and tier queries"])
c("C12","Positions belong to exactly one owner and never get lost or mixed up",
  "A position is closed, transferred or paid out only through its owner, and a transfer moves it unchanged to the receiver. After any sequence of openings, closings and transfers every user's list holds exactly the positions that are his, with contiguous indices, where removing one moves the last one into its place.",
  "every sequence of openings, closings by index, transfers (also to oneself, also of the last one) and claims by three users on two pools",
  [SVC,"src/contracts/collections/positions.rs"],[("swap-remove of indexed positions","src/contracts/collections/positions.rs")],["position queries of all users after every operation"])
c("C13","Paged listings return every entry exactly once, for any page",
  "Asking for positions, pools or balances by offset and size returns exactly that slice of the full list, in order, with the true total, for every offset and size including zero, past the end and the largest numbers. A listing never fails on the size of the request and never mixes up owners or pools.",
  "every reachable state of up to a dozen positions and pools, with all pages around 0, 1, the true length, the page limit and the largest representable offset and size",
  [SVC,"src/contracts/collections/positions.rs","src/contracts/collections/pool_keys.rs"],[("slicing of the position list","src/contracts/collections/positions.rs"),("slicing of the pool list","src/contracts/collections/pool_keys.rs")],["position, pool and balance listing queries"])
c("C14","Tick queries show exactly the initialized ticks of a pool",
  "The tick map, the tick flags, the tick details, the tick count and the liquidity ticks that a client reads describe exactly the ticks that open positions use, for every asked range, direction and page. The chunk a client asks for never leaves out or invents a tick inside the asked bounds.",
  "every reachable state of narrow and wide pools, with query bounds at, next to and far from every initialized tick and at both ends of the tick range, in both directions",
  [SVC,TM,STO,TICK],[("chunk selection",TM),("tick listing",STO)],["tick map, tick, tick count, liquidity tick and position tick queries"])
c("C15","Events report exactly what happened",
  "Every successful opening, closing and trade emits its event with the true caller, pool, amounts, fee, prices, ticks and time, and a trade that crosses ticks lists exactly the crossed ones in order. Other operations, quotes and failed operations emit none.",
  "the event stream of every explored operation",
  [SVC],[("event emission",SVC)],["emitted events"])
c("C16","Time accounting is consistent with the block clock",
  "A pool records its creation and its last crossing time, ticks the time spent on their other side, and positions the block they were last touched in, always from the current block. The time outside a tick never exceeds the pool's age.",
  "every interleaving of clock advances with openings, closings, claims and trades that cross ticks",
  [POOL,TICK,POS,SVC],[("timestamps passed down from the block",SVC)],["pool, tick and position queries"])
c("C17","Opening a position charges exactly the range's tokens within the slippage window",
  "Opening a position is refused unless the pool's price lies within the caller's limits and the range and liquidity are admissible. Otherwise it takes from the owner exactly the tokens that liquidity needs at the current price, rounded up, and records the position with that range, liquidity and current fee growth.",
  "ranges below, around, above the price and at the ends of the price range, zero and huge liquidity, price windows around the current price, in every reachable state",
  [SVC,POS,POOL,CLAMM],[("price window check",POS),("token amounts of a range",CLAMM)],["balances, position and ticks after creation"])
c("C18","Positions can always be closed and money always withdrawn",
  "In every reachable state every owner can close every position, the fee receiver can collect, and every user can withdraw his whole balance, in any order. No request whose preconditions hold fails or runs forever.",
  "from every reachable state: close everything, collect everything, withdraw everything; every valid request of the alphabets",
  [SVC,STO,POS,TICK,POOL],[("removal path",SVC)],["replies of closing, collecting and withdrawing"])
c("C19","An operation affects only its caller's money and the pools it names",
  "No operation changes another user's balance or positions (except that a transfer gives the receiver the position), nor any pool, tick or tick flag of a pool it does not name. Only administrative operations change the configuration.",
  "every operation of every user over four pools sharing tokens and tiers",
  [SVC,STO,TM,"src/contracts/collections/ticks.rs"],[("keys by pool and user",STO)],["full state before and after every operation"])

def d(id,title,statement,text,obs,note=None,over=["schedules","fault_sequences"],tech=PROTO):
    p(id,title,statement,over,text,WHY_S,[SVC,"src/contracts/storage/awaiting_transfers.rs",STO],[("awaiting transfer table","src/contracts/storage/awaiting_transfers.rs"),("reply handler",SVC),("wait and wake",SVC)],obs,[{"name":"awaiting transfers","meaning":"transfers whose outcome is not settled","where":STO}],HOOK,tech,note or "Bounded: at most two messages in flight, event sequences to depth 5-6 (thorough 6-8), answers from a listed alphabet; the message runtime (waiting, waking, reply delivery, revert on trap) is the harness's.")
d("D01","A deposit credits the user once, exactly when the token transfer succeeded",
  "A deposit asks the token contract to move the stated amount from the caller to the exchange and credits the caller with it if and only if that contract confirms. It is credited once whatever else happens meanwhile, and the reply tells the truth about it.",
  "all interleavings of up to two transfers of two users with all kinds of token answers and other operations in between; every parameter edge of the request",["balances after every event","reply of the deposit","message sent to the token"])
d("D02","A withdrawal pays out or refunds: never both, never neither",
  "A withdrawal takes the amount from the caller's balance before the token contract is asked to pay it, and gives it back if and only if the payment failed in any way. What the exchange holds always covers what it owes, including payments on their way.",
  "all interleavings of up to two transfers of two users with all kinds of token answers (success, refusal, panic, out of gas, inactive) and other operations in between",["balances after every event","reply of the withdrawal","message sent to the token"])
d("D03","The two halves of a pair transfer are settled independently and correctly",
  "Depositing or withdrawing two tokens at once settles each token by its own transfer's outcome, in whichever order the answers arrive. The request reports success only if both halves succeeded, and a failed half never costs the user anything nor undoes the other.",
  "all interleavings of pair transfers with each other and with single transfers, all combinations and orders of the two answers, all parameter edges",["balances after every event","reply","messages sent"])
c("D04","Native currency deposits and withdrawals match the value moved",
  "Depositing native currency credits exactly the value attached to the message; withdrawing it debits the caller by exactly the value sent back, at most his balance. A refused request moves nothing.",
  "all sequences of native and token deposits and withdrawals, positions and trades on a pool with the native token by three users",
  [SVC],[("attached value",SVC),("reply with value",SVC)],["balances, value of replies"])
d("D05","Only the token contract's own answer to the very transfer settles it",
  "A transfer is settled only by the reply of the asked token contract to that very request. A failed reply counts as a failure whatever its content; a successful reply that is not an answer to a transfer never counts as success; replies to anything else change nothing.",
  "replies from wrong programs, to unknown or finished messages, with wrong routes, garbage, empty or forged payloads, in all interleavings with genuine transfers",["balances after every event"])
d("D06","Transfers settle correctly however late or in whatever order answers come",
  "The outcome of a transfer is credited or refunded when its answer arrives, also after the waiting request has given up and also when other operations changed the balances meanwhile. A request that gives up reports a failure and leaves the settlement to the answer.",
  "all interleavings of transfers with an expiry of the wait at any point, late answers of every kind, and trades, positions and transfers of the same user in between",["balances after every event","replies"])

NUM=["calc/decimal/decimal_core/src/ops.rs","calc/decimal/decimal_core/src/big_ops.rs","calc/decimal/decimal_core/src/checked_ops.rs","calc/decimal/decimal_core/src/factories.rs"]
def a(id,title,statement,text,files,mech,obs,note=None):
    p(id,title,statement,["inputs"],text,WHY_I,files,mech,obs,[],None,ENUM,note or "Bounded: listed boundary values and complete small ranges rather than every 256-bit input.")
a("A01","Fixed-point arithmetic is exact with the stated rounding or reports overflow",
  "Every operation on fixed-point numbers and every conversion between number types or scales gives the exact mathematical result, rounded down or up as its name says, or fails when that result cannot be represented. No operation ever wraps, truncates or drops high bits silently, and the printed form of a number denotes its value.",
  "all operations of all pairs of number types on all pairs of boundary values (powers of two and ten and their neighbours, square roots, largest values); all integer conversions on the same values",
  NUM+["calc/decimal/decimal_core/src/uint_casts.rs","calc/decimal/src/uint.rs","calc/decimal/src/traits.rs"],[("rounded operations","calc/decimal/decimal_core/src/ops.rs"),("wide intermediate results","calc/decimal/decimal_core/src/big_ops.rs"),("casts between widths","calc/decimal/decimal_core/src/uint_casts.rs")],["returned values and errors"])
a("A02","Tick prices are accurate, increasing, and the inverse lookup is exact",
  "The price of tick i is 1.0001^(i/2) to within a fixed tiny error, strictly increasing, at the documented ends of the range, and always the same. Looking up the tick of a price gives the greatest tick whose price does not exceed it, rounded down to the tick spacing.",
  "every one of the 443637 ticks; prices at and next to every tick price, for every listed spacing; all tick admissibility questions around the limits",
  ["calc/math/types/sqrt_price.rs","calc/math/log.rs","calc/math/clamm.rs"],[("price by repeated multiplication","calc/math/types/sqrt_price.rs"),("binary logarithm and correction","calc/math/log.rs")],["price of a tick, tick of a price"])
a("A03","Every swap step rounds for the pool and never overshoots its target",
  "A single step of a trade stops at the target price or where the amount is used up, takes at least the input and gives at most the output that the exact curve between the two prices demands, and charges at least the fee rate on the input. The step never moves past the target, never uses more than the amount offered nor delivers more than requested, and token amounts between two prices are the exact amounts rounded in the stated direction.",
  "all combinations of start and target prices, liquidities, amounts, fee rates, directions and modes from boundary lists; all small cases of narrow ranges completely",
  ["calc/math/clamm.rs","calc/math/types/sqrt_price.rs"],[("swap step","calc/math/clamm.rs"),("next price from an amount","calc/math/clamm.rs")],["step result"])
a("A04","A range's token amounts and liquidity convert into each other soundly",
  "The tokens a position of given liquidity and range needs at a price, or returns, are the exact amounts of the curve rounded against the owner, and only the sides of the range that apply take part. The liquidity computed for given amounts is the greatest those amounts pay for up to the allowed imprecision, and the amounts reported with it are sufficient, belong to it and are within what was offered.",
  "ranges inside, at and around the price and the ends of the price range; all listed prices, amounts and liquidities",
  ["calc/math/clamm.rs","src/contracts/logic/liquidity_result.rs"],[("token amounts of a liquidity","calc/math/clamm.rs"),("liquidity of token amounts","src/contracts/logic/liquidity_result.rs")],["amounts and liquidity returned"])
a("A05","Fee shares and limits are computed exactly, also when counters wrap",
  "The growth of fees inside a range is the total less what accrued below and above, modulo the counter's width, for every position of the current tick. Turning a fee into growth and growth into a fee rounds down, so never more is paid than charged; the minimum output for a slippage rounds up; and the liquidity limit per tick keeps the total liquidity of all ticks representable.",
  "all combinations of small, middle and about-to-wrap counters; all pairs of boundary fees and liquidities; every tick spacing",
  ["calc/math/types/fee_growth.rs","calc/math/clamm.rs","src/contracts/collections/tickmap.rs"],[("growth inside a range","calc/math/clamm.rs"),("growth of a fee","calc/math/types/fee_growth.rs")],["returned values"])
a("A06","The tick map finds exactly the nearest initialized tick of the right pool",
  "Every admissible tick of a pool has one place in the tick map shared with no other. Searching up or down from any tick finds the nearest initialized tick of that pool within the search range, or none, and the swap boundary derived from it is the nearer of that tick's price and the price limit.",
  "every tick with every listed spacing; all sets of up to two (thorough: three) initialized ticks at distances around bit, chunk and search range boundaries, in both directions, near zero and both ends",
  [TM],[("place of a tick",TM),("bit search over chunks",TM),("closer limit",TM)],["places, search results, swap boundary"])

SDKW="sdk/src/wasm/"
c("E01","The SDK's trade simulation predicts the contract's trade",
  "Fed with a pool, its ticks and its tick map as the contract's queries return them, the SDK's swap simulation gives exactly the input, output, fee, prices and crossed ticks of the trade that the contract then executes. It reports the trade as impossible exactly when the contract refuses it on the curve's account.",
  "every trade of the alphabets in every reachable state of exchanges with several positions, ranges, fees and pools, up to both range ends and wrapped fee counters",
  [SDKW+"swap.rs",SDKW+"storage/pool.rs",SDKW+"storage/tick.rs",SDKW+"collections/tickmap.rs",SDKW+"clamm.rs",STO],[("simulated swap loop",SDKW+"swap.rs"),("simulated crossing",SDKW+"storage/tick.rs")],["simulation result against the trade's result and the tokens moved"],
  note="Bounded like the exchange checks; the core is linked natively, the generated JavaScript conversions are not run.",why="The SDK's tests compare a few simulated trades with recorded ones; the two implementations are separate copies that can drift apart in any state.")
c("E02","The SDK shows exactly what a position will pay",
  "The fees and the token amounts which the SDK computes for a position from the contract's data are exactly what claiming its fees and closing it then pay out, for every owner, range and price.",
  "every position in every reachable state of exchanges with overlapping ranges, trades across them, transfers, claims and wrapped fee counters",
  [SDKW+"custom.rs",SDKW+"clamm.rs",SDKW+"types/fee_growth.rs",STO,POS],[("fee calculation",SDKW+"custom.rs"),("token amounts",SDKW+"clamm.rs")],["computed amounts against the payment of claim and close"],
  note="Bounded like the exchange checks; the core is linked natively, the generated JavaScript conversions are not run.",why="The SDK's tests compute fees for a few recorded positions; what is shown must match what is paid in every state.")
a("E03","The SDK's mathematics gives the contract's numbers everywhere",
  "For every input for which the contract's formula has a value, the SDK's copy of it returns the same value: tick prices and inverse lookup, places in the tick map, swap steps, token amounts and liquidity of ranges, fees, limits per tick and minimum output.",
  "every tick with every listed spacing; all combinations of listed prices, liquidities, amounts, fee rates, ranges and counters (small, middle, about to wrap, largest)",
  [SDKW+"clamm.rs",SDKW+"math.rs",SDKW+"log.rs",SDKW+"custom.rs",SDKW+"consts.rs",SDKW+"types/sqrt_price.rs",SDKW+"types/fee_growth.rs",SDKW+"collections/tickmap.rs"],[("SDK copy of the swap mathematics",SDKW+"clamm.rs"),("liquidity from amounts",SDKW+"math.rs")],["values returned by the SDK core"])

CLI="sdk/src/"
WHY_C="The SDK's own tests need a running node and cannot run here; nothing else executes the client, and the value of each request depends on the state of the exchange and on the order in which replies arrive."
c("E04","The client sends the requests it is asked for and returns what came back",
  "Each function of the TypeScript client sends exactly one message, the one that performs the operation named, to the right program, signed by the given account, with the given value; requests combined in one transaction keep their order. What it returns, including failures and which requests of a batch failed, is what the contract replied, in the declared types, and its listeners hear exactly the events that happened while they were registered.",
  "every operation of the alphabets in every reachable state of exchanges with several accounts, pools, positions and balances; all token requests and pairs of them at once under every order of replies; all batches and listener registrations to a length; all listed prices, tolerances and amounts",
  [CLI+"invariant.ts",CLI+"erc20.ts",CLI+"utils.ts",CLI+"invariant-contract.ts",CLI+"erc20-token.ts"],[("requests of the exchange's client",CLI+"invariant.ts"),("generated message encoding",CLI+"invariant-contract.ts"),("transactions, batches and validation",CLI+"utils.ts"),("token client",CLI+"erc20.ts")],["messages sent","values returned","events delivered"],
  note="The client runs in node with its imports (chain connection, codec, computing core) replaced by stand-ins; the codec stand-in is bound to the contract's own SCALE decoder by every message.",why=WHY_C)
c("E05","The client shows exactly what the contract holds",
  "Every view of the TypeScript client, single or listed in pages, shows exactly what the contract holds at that moment, in the declared types, and fails for what does not exist. Listings that are fetched in several parts are complete and ordered for every page size, every set of skipped pages and every order in which the parts arrive.",
  "every view with every listed argument in every reachable state of exchanges with several pools, ticks, accounts and up to 300 positions; every order of up to 24 of the partial replies",
  [CLI+"invariant.ts",CLI+"utils.ts",CLI+"invariant-contract.ts"],[("views and listings",CLI+"invariant.ts"),("conversions of replies",CLI+"utils.ts")],["values shown"],
  note="Page sizes of the contract's listing limits are replaced by 2 in the client's constants so that several parts occur in small states.",why=WHY_C)
c("E06","The client's helpers agree with the contract",
  "Ticks and tick maps filtered for a direction of trade lead to the same simulated trade as the whole of them, and that is the trade the contract makes. Fees, token amounts, amounts under a price tolerance and liquidity breakpoints computed by the client are those of the contract, and helpers on prices, tiers, keys, limits and conversions return the defined values in the declared types.",
  "all pools and positions in every reachable state of exchanges with several ranges, fees and spacings; all pairs of listed prices, all listed spacings, fees, addresses and scales",
  [CLI+"utils.ts",CLI+"wasm-serializer.ts",CLI+"consts.ts"],[("helpers",CLI+"utils.ts"),("conversions to and from the computing core",CLI+"wasm-serializer.ts")],["values returned"],
  note="The computing core is linked natively; the generated JavaScript conversions are stand-ins.",why=WHY_C)

VFT="extended-vft/app/src/services/extended_vft/"
WHY_T="The token program's tests walk through one grant and one revocation; who may do what must hold after every history of grants and revocations, and the supply after every sequence of amounts."
def t(id,title,statement,text,mech,obs):
    p(id,title,statement,["histories","inputs"],text,WHY_T,[VFT+"mod.rs",VFT+"funcs.rs","extended-vft/app/src/lib.rs"],mech,obs,[{"name":"roles, balances, supply","meaning":"state of the token program","where":VFT+"mod.rs"}],None,SEQ,"Bounded: three users, listed amounts, sequences of three (thorough: four) requests from three start states; the service that extended-vft extends is a git dependency not available here and is replaced by a stand-in with the standard transfer rules.")
t("T01","Only role holders mint, burn or change roles of the token",
  "A token is minted only by a holder of the minter role and burned only by a holder of the burner role, and only administrators grant and revoke roles, beginning with the deployer alone. After any history the lists of administrators, minters and burners show exactly who holds which role, and a refused request changes nothing.",
  "every sequence of grants, revocations, mintings and burnings by three users",
  [("role checks",VFT+"mod.rs"),("role lists",VFT+"mod.rs")],["acceptance of every request","role lists, balances and supply after it"])
t("T02","The token's supply is always exactly what its holders own",
  "Minting and burning change exactly the named holder's balance and the total supply by exactly the amount, moving tokens changes no total, and nothing else changes them. What would exceed the largest number or a balance is refused with no effect, a request for nothing changes nothing, and every reply and event tells exactly what happened.",
  "every sequence of mintings, burnings, transfers and approvals with amounts from zero to the largest number",
  [("minting and burning",VFT+"funcs.rs"),("transfers of the extended service",VFT+"mod.rs")],["balances, allowances and supply after every request","replies and events"])
