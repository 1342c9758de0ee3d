S = 'src/invariant_service.rs'; ST = 'src/invariant_storage.rs'
C = 'src/contracts/collections/'; P = 'src/contracts/storage/'; M = 'calc/math/'
SEEDS = []
def seed(id, needs, breaks, edits, demo, held=False, sdk=False, client=False, vft=False):
    if edits: SEEDS.append(dict(id=id, property=id[:3], needs=needs, breaks=breaks, edits=edits, demo=demo, held=held, sdk=sdk, client=client, vft=vft))

POOL = '''
    let (t, d) = (tier(PCT, 1), Dex::new(%s));
    let k = key(X, Y, t);
    d.add_tier(t);
    d.pool(k, 0);
    for u in [A, B] { for t in [X, Y] { d.fund(u, t, 1_000_000_000).unwrap(); } }
'''

seed('C01-other-token', 'a user holding exactly two tokens spends one of them completely',
  'The balance of the other token is dropped together with the spent one: the user record is deleted although one token is left.',
  [(ST, '''let old_balance = token_balances.remove(token).unwrap();

                (old_balance, token_balances.is_empty())''', '''let emptied = token_balances.len() <= 2;
                let old_balance = token_balances.remove(token).unwrap();

                (old_balance, emptied && token_balances.len() <= 1)''')],
  '''
    let d = Dex::new(PCT);
    d.fund(A, X, 100).unwrap();
    d.fund(A, Y, 50).unwrap();
    d.unfund(A, X, None).unwrap();
    assert_eq!((d.balance(A, X), d.balance(A, Y)), (0, 50));
''')

seed('C02-full-fee', 'a fee tier of exactly 100%',
  'A fee tier that takes the whole trade is accepted.',
  [(S, 'if fee_tier.fee >= Percentage::from_integer(1) {', 'if fee_tier.fee > Percentage::from_integer(1) {')],
  '''
    let d = Dex::new(PCT);
    assert!(d.ask::<FeeTier>(ADMIN, "AddFeeTier", tier(100 * PCT - 1, 1)).is_ok());
    assert!(d.ask::<FeeTier>(ADMIN, "AddFeeTier", tier(100 * PCT, 1)).is_err());
''')

seed('C05-leftover-not-charged', 'an exact-input trade whose rest is too small to move the price beyond an initialized tick',
  'The leftover is given to the pool as fee but not charged to the trader.',
  [(ST, '            total_amount_in += amount_to_add;\n', '            event_fee_amount += amount_to_add;\n')],
  POOL % 'PCT' + '''
    d.open(A, k, -10, 10, liq(1_000_000)).unwrap();
    let step = math::compute_swap_step(SqrtPrice::from_tick(0).unwrap(), SqrtPrice::from_tick(-10).unwrap(), liq(1_000_000), amount(1_000_000_000), true, t.fee).unwrap();
    let n = num(step.amount_in + step.fee_amount) + 1;
    let before = d.balance(B, X);
    let r = d.swap(B, k, true, n, true).unwrap();
    assert_eq!(num(r.amount_in), n);
    assert_eq!(before - d.balance(B, X), n);
''')

seed('C07-leftover-protocol-share', 'an exact-input trade whose rest is too small to move the price beyond an initialized tick',
  'The protocol gets no share of the leftover that is taken as fee.',
  [(P + 'pool.rs', 'unwrap!(self.add_fee(remaining_amount, x_to_y, protocol_fee));', 'let _ = protocol_fee;\n                        unwrap!(self.add_fee(remaining_amount, x_to_y, Percentage::new(0)));')],
  POOL % '50 * PCT' + '''
    d.open(A, k, -10, 10, liq(1_000_000)).unwrap();
    let step = math::compute_swap_step(SqrtPrice::from_tick(0).unwrap(), SqrtPrice::from_tick(-10).unwrap(), liq(1_000_000), amount(1_000_000_000), true, t.fee).unwrap();
    d.swap(B, k, true, num(step.amount_in + step.fee_amount) + 1, true).unwrap();
    assert_eq!(num(d.get_pool(k).fee_protocol_token_x), (num(step.fee_amount) + 1) / 2 + 1);
''')

seed('C09-route-minimum', 'a route that delivers exactly the minimum the user accepts',
  'A multi-hop trade that delivers exactly the expected amount is refused.',
  [(S, 'if amount_out < min_amount_out {', 'if amount_out <= min_amount_out {')],
  POOL % 'PCT' + '''
    d.open(A, k, -10, 10, liq(1_000_000)).unwrap();
    let hops = vec![SwapHop { pool_key: k, x_to_y: true }];
    let n = d.ask::<Result<TokenAmount, InvariantError>>(B, "QuoteRoute", (amount(100), hops.clone())).unwrap().unwrap();
    assert_eq!(d.ask::<TokenAmount>(B, "SwapRoute", (amount(100), n, Percentage::new(0), hops)), Ok(n));
''')

seed('C10-receiver-reassigns', 'the fee receiver, not being the admin, names a new fee receiver',
  'Someone other than the admin can change the fee receiver.',
  [(S, '''            if !self.is_caller_admin(&invariant) {
                return Err(InvariantError::NotAdmin);
            }

            let mut pool = invariant.pools.get(&pool_key)?;
''', '''            let mut pool = invariant.pools.get(&pool_key)?;
            if !self.is_caller_admin(&invariant) && pool.fee_receiver != self.exec_context.actor_id()
            {
                return Err(InvariantError::NotAdmin);
            }
''')],
  POOL % 'PCT' + '''
    d.ask::<()>(ADMIN, "ChangeFeeReceiver", (k, id(A))).unwrap();
    assert!(d.ask::<()>(A, "ChangeFeeReceiver", (k, id(B))).is_err());
    assert_eq!(d.get_pool(k).fee_receiver, id(A));
''')

seed('C11-remove-by-fee', 'two fee tiers with the same fee and different tick spacings, the later of which is removed',
  'Removing a fee tier removes another tier with the same fee.',
  [(C + 'fee_tiers.rs', '.position(|vec_fee_tier| vec_fee_tier == fee_tier)', '.position(|vec_fee_tier| vec_fee_tier.fee == fee_tier.fee)')],
  '''
    let d = Dex::new(PCT);
    d.add_tier(tier(PCT, 1));
    d.add_tier(tier(PCT, 10));
    d.ask::<FeeTier>(ADMIN, "RemoveFeeTier", tier(PCT, 10)).unwrap();
    assert_eq!(d.ask::<Vec<FeeTier>>(A, "GetFeeTiers", ()).unwrap(), vec![tier(PCT, 1)]);
''')

seed('C12-transfer-to-self', 'a user transfers a position to their own account',
  'The position is stored beyond a hole in the list: the list can no longer be read and an index is lost.',
  [(C + 'positions.rs', '''        let position = self.remove(account_id, index)?;
        self.add(receiver_account_id, &position);
''', '''        let receiver_index = self.get_length(receiver_account_id);
        let position = self.remove(account_id, index)?;
        self.positions
            .insert((receiver_account_id.clone(), receiver_index), position);
        self.positions_length
            .insert(receiver_account_id.clone(), receiver_index + 1);
''')],
  POOL % 'PCT' + '''
    d.open(A, k, -10, 10, liq(1_000)).unwrap();
    d.open(A, k, -20, 20, liq(1_000)).unwrap();
    d.ask::<()>(A, "TransferPosition", (0u32, id(A))).unwrap();
    assert_eq!(d.ask::<u32>(A, "GetUserPositionAmount", id(A)), Ok(2));
    assert_eq!(d.ask::<Vec<Position>>(A, "GetAllPositions", id(A)).map(|v| v.len()), Ok(2));
''')

seed('C13-page-index', 'a page of positions in which a position of one pool stands between two of another',
  'The page names the wrong index for a position, so that the user would close another one.',
  [(S, 'entry.1.push((position, position_index));', 'let position_index = entry.1.last().map_or(position_index, |last| last.1 + 1);\n                entry.1.push((position, position_index));')],
  POOL % 'PCT' + '''
    let k2 = key(X, Z, t);
    d.pool(k2, 0);
    d.fund(A, Z, 1_000_000).unwrap();
    for k in [k, k2, k] { d.open(A, k, -10, 10, liq(1_000)).unwrap(); }
    let (v, n) = d.ask::<Result<(Vec<(Pool, Vec<(Position, u32)>)>, u32), InvariantError>>(A, "GetPositions", (id(A), 10u32, 0u32)).unwrap().unwrap();
    assert_eq!(n, 3);
    for (_, v) in v { for (p, i) in v { assert_eq!(p.pool_key == k, i != 1); } }
''')

seed('C14-last-chunk', 'a tick in the last chunk of the tick map',
  'The tick map query leaves out the last chunk.',
  [(S, 'tickmap_slice(min_chunk_index..=max_chunk_index, pool_key)', 'tickmap_slice(min_chunk_index..max_chunk_index, pool_key)')],
  POOL % 'PCT' + '''
    d.open(A, k, -math::MAX_TICK, math::MAX_TICK, liq(100)).unwrap();
    let v = d.ask::<Vec<(u16, u64)>>(A, "GetTickmap", k).unwrap();
    assert_eq!(v.iter().map(|c| c.1.count_ones()).sum::<u32>(), 2);
''')

seed('C15-cross-order', 'a trade that crosses two ticks downward',
  'The cross tick event lists the ticks in another order than they were crossed.',
  [(S, '            if !crossed_tick_indexes.is_empty() {\n', '            if !crossed_tick_indexes.is_empty() {\n                crossed_tick_indexes.sort_unstable();\n')],
  POOL % 'PCT' + '''
    d.open(A, k, -10, 10, liq(1_000_000)).unwrap();
    d.open(A, k, -20, 20, liq(1_000_000)).unwrap();
    d.open(A, k, -1000, 1000, liq(1_000_000)).unwrap();
    let r = d.run(B, "Swap", (k, true, amount(8_000), true, SqrtPrice::new(MIN_SQRT_PRICE)), 0);
    let mut found = false;
    for e in d.events(&r) {
        let mut b = &e[..];
        let (_, name) = <(String, String)>::decode(&mut b).unwrap();
        if name == "CrossTickEvent" {
            let (_, _, _, v) = <(u64, sails_rs::ActorId, PoolKey, Vec<i32>)>::decode(&mut b).unwrap();
            assert_eq!(v, vec![-10, -20]);
            found = true;
        }
    }
    assert!(found);
''')

seed('C16-stale-clock', 'a position opened some time after the last trade, with a tick at or below the price',
  'A new tick counts its time outside only up to the pool\'s last crossing.',
  [(ST, 'Tick::create(index, &pool, current_timestamp)', 'Tick::create(index, &pool, pool.last_timestamp.min(current_timestamp))')],
  POOL % 'PCT' + '''
    d.sys.spend_blocks(5);
    let start = d.get_pool(k).start_timestamp;
    let now = d.sys.block_timestamp();
    d.open(A, k, -10, 10, liq(1_000)).unwrap();
    let t = d.ask::<Result<Tick, InvariantError>>(A, "GetTick", (k, -10)).unwrap().unwrap();
    assert!(now > start && t.seconds_outside >= now - start, "{} {}", t.seconds_outside, now - start);
''')

seed('C17-upper-bound', 'a slippage window whose upper end is exactly the pool\'s price',
  'A position whose window includes the price is refused.',
  [(P + 'position.rs', 'pool.sqrt_price > slippage_limit_upper {', 'pool.sqrt_price >= slippage_limit_upper {')],
  POOL % 'PCT' + '''
    let p = SqrtPrice::from_tick(0).unwrap();
    assert!(d.ask::<Position>(A, "CreatePosition", (k, -10, 10, liq(1_000), p, p)).is_ok());
''')

seed('D02-refund-lost', 'a failed withdrawal of part of a balance',
  'The refund of a failed withdrawal is dropped when the user still has some of that token.',
  [(S, '''                if matches!(transfer_type, TransferType::Withdrawal) {
                    Some((*account, token, *amount))''', '''                if matches!(transfer_type, TransferType::Withdrawal)
                    && !invariant
                        .balances
                        .get(account)
                        .map_or(false, |tokens| tokens.contains_key(&token))
                {
                    Some((*account, token, *amount))''')],
  '''
    let d = Dex::new(PCT);
    d.fund(A, X, 100).unwrap();
    d.answers.borrow_mut().push(Answer::Trap);
    assert!(d.unfund(A, X, Some(30)).is_err());
    assert_eq!(d.balance(A, X), 100);
''')

seed('D03-second-half-ignored', 'a pair deposit whose first transfer succeeds and second fails',
  'The user is told that both halves were deposited.',
  [(S, '(Err(_), Ok(_)) | (Ok(_), Err(_)) => Err(InvariantError::RecoverableTransferError),\n                (Err(_), Err(_)) => Err(InvariantError::UnrecoverableTransferError),\n                _ => Ok(()),',
       '(Err(_), Ok(_)) => Err(InvariantError::RecoverableTransferError),\n                (Err(_), Err(_)) => Err(InvariantError::UnrecoverableTransferError),\n                (Ok(_), _) => Ok(()),')],
  '''
    let d = Dex::new(PCT);
    d.answers.borrow_mut().extend([Answer::Yes, Answer::No]);
    let r = d.ask::<(TokenAmount, TokenAmount)>(A, "DepositTokenPair", ((id(X), amount(5)), (id(Y), amount(7))));
    assert!(r.is_err());
    assert_eq!((d.balance(A, X), d.balance(A, Y)), (5, 0));
''')

seed('D04-whole-value', 'a native currency deposit into a program that already holds some',
  'A deposit of native currency credits all the program holds, not what came with the message.',
  [(S, 'let value = TokenAmount(msg::value().into());', 'let value = TokenAmount(exec::value_available().into());')],
  '''
    let d = Dex::new(PCT);
    let n = 1_000_000_000_000_000;
    for u in [A, B] {
        let r = d.run(u, "DepositVara", (), n);
        assert!(d.reply::<TokenAmount>(&r, u, "DepositVara").is_ok());
    }
    assert_eq!(d.balance(B, 0), n);
''')

seed('D05-other-service', 'an answer of another service with the same method name',
  'An answer that is not the token service\'s own settles the transfer.',
  [(S, 'if msg.0 == "Vft" && msg.1 == "TransferFrom" {', 'if msg.1 == "TransferFrom" {')],
  '''
    let d = Dex::new(PCT);
    d.answers.borrow_mut().push(Answer::Bytes(("Other".to_string(), "TransferFrom".to_string(), true).encode()));
    let _ = d.fund(A, X, 10);
    assert_eq!(d.balance(A, X), 0);
''')

seed('D06-one-answer-for-all', 'two transfers of the same token under way at once',
  'The answer to one transfer discards all transfers of that token: the second user is never credited.',
  [(S, '''    if message_exists {
        if invariant
            .awaiting_transfers
            .remove(&(message, token))
            .is_none()
        {
            gstd::debug!("Failed to remove transfer {:?}, {:?}", message, token);
        }
    }
''', '''    if message_exists {
        invariant
            .awaiting_transfers
            .retain(|(_, awaiting), _| *awaiting != token);
    }
''')],
  '''
    let d = Dex::new(PCT);
    d.held_tokens();
    d.send(A, "DepositSingleToken", (id(HELD_X), amount(100)));
    d.send(B, "DepositSingleToken", (id(HELD_X), amount(70)));
    d.answer(HELD_X, 0, Some(true));
    d.answer(HELD_X, 1, Some(true));
    assert_eq!((d.balance(A, HELD_X), d.balance(B, HELD_X)), (100, 70));
''', held=True)

seed('A05-inside-at-upper', 'the current tick exactly at the upper end of a range',
  'Fees are attributed to a range that the price has just left.',
  [(M + 'types/fee_growth.rs', 'let current_below_upper = tick_current < tick_upper;', 'let current_below_upper = tick_current <= tick_upper;')],
  POOL % 'PCT' + '''
    let g = |n: u128| FeeGrowth::new(n);
    let (x, _) = math::fee_growth::calculate_fee_growth_inside(-10, g(10), g(0), 10, g(70), g(0), 10, g(100), g(0));
    assert_eq!(x, g(60));
''')

seed('A06-last-tick', 'the highest tick of a pool with a spacing that divides the range evenly, approached from the tick before',
  'The search upward does not find the last tick.',
  [(C + 'tickmap.rs', 'if tick + tick_spacing as i32 > MAX_TICK {', 'if tick + tick_spacing as i32 >= MAX_TICK {')],
  '''
    let m = math::MAX_TICK;
    let mut map = Tickmap::default();
    let k = key(X, Y, tier(PCT, 1));
    map.flip(true, m, 1, k);
    assert_eq!(map.next_initialized(m - 2, 1, k), Some(m));
    assert_eq!(map.next_initialized(m - 1, 1, k), Some(m));
''')

seed('C03-cross-at-tick', 'a trade that goes down through a tick at which the price already stands',
  'Crossing a tick downward from exactly its index adds the liquidity it should remove.',
  [(P + 'tick.rs', 'if (pool.current_tick_index >= self.index) ^ self.sign {', 'if (pool.current_tick_index > self.index) ^ self.sign {')],
  POOL % 'PCT' + '''
    d.open(A, k, 0, 10, liq(1_000_000)).unwrap();
    d.open(A, k, -100, 100, liq(1_000_000)).unwrap();
    d.swap(B, k, true, 1_000, true).unwrap();
    assert_eq!(d.get_pool(k).liquidity, liq(1_000_000));
''')

seed('C08-quote-last-tick', 'a trade that stops exactly at an initialized tick which it crosses',
  'The quote leaves out the tick at which the trade stops.',
  [(S, '            ticks: calculate_swap_result.ticks,\n', '            ticks: calculate_swap_result\n                .ticks\n                .into_iter()\n                .filter(|tick| tick.sqrt_price != calculate_swap_result.target_sqrt_price)\n                .collect(),\n')],
  POOL % 'PCT' + '''
    d.open(A, k, -10, 10, liq(1_000_000)).unwrap();
    d.open(A, k, 10, 20, liq(1_000_000)).unwrap();
    let (p, q) = (SqrtPrice::from_tick(0).unwrap(), SqrtPrice::from_tick(10).unwrap());
    let step = math::compute_swap_step(p, q, liq(1_000_000), amount(1_000_000_000), true, t.fee).unwrap();
    let n = step.amount_in + step.fee_amount;
    let far = SqrtPrice::new(MAX_SQRT_PRICE);
    let quote = d.ask::<Result<QuoteResult, InvariantError>>(B, "Quote", (k, false, n, true, far)).unwrap().unwrap();
    let done = d.swap(B, k, false, num(n), true).unwrap();
    let at = |ticks: &Vec<Tick>| ticks.iter().map(|tick| tick.index).collect::<Vec<_>>();
    assert_eq!(at(&quote.ticks), at(&done.ticks));
    assert_eq!(done.ticks.len(), 1);
''')

seed('C19-chunk-cleanup', 'two pools with ticks in the same chunk of the tick map, one of which loses its last tick there',
  'When the last tick of a chunk goes, the ticks of all other pools in the same chunk are forgotten too.',
  [(C + 'tickmap.rs', '''        self.bitmap
            .insert((chunk, pool_key), flip_bit_at_position(returned_chunk, bit));
''', '''        let flipped = flip_bit_at_position(returned_chunk, bit);
        if flipped == 0 {
            // nothing left in the chunk
            self.bitmap.retain(|(index, _), _| *index != chunk);
        } else {
            self.bitmap.insert((chunk, pool_key), flipped);
        }
''')],
  POOL % 'PCT' + '''
    let k2 = key(X, Z, t);
    d.pool(k2, 0);
    d.fund(A, Z, 1_000_000).unwrap();
    d.open(A, k, -10, 10, liq(1_000)).unwrap();
    d.open(A, k2, -10, 10, liq(1_000)).unwrap();
    d.close(A, 0).unwrap();
    assert_eq!(d.ask::<bool>(A, "IsTickInitialized", (k2, 10i32)), Ok(true));
    assert!(d.close(A, 0).is_ok());
''')

seed('D01-refused-deposit', 'a token that answers a deposit with "false" instead of failing',
  'The deposit is reported as done although the token refused it and nothing was credited.',
  [(S, '''        if !message.2 {
            return Err(err);
        };
''', '''        if !message.2 && matches!(transfer_type, TransferType::Withdrawal) {
            return Err(err);
        };
''')],
  '''
    let d = Dex::new(PCT);
    d.answers.borrow_mut().push(Answer::No);
    assert!(d.fund(A, X, 100).is_err());
    assert_eq!(d.balance(A, X), 0);
''')

seed('C04-tick-after-exact-stop', 'an upward trade that is used up exactly at an initialized tick',
  'The pool is left on the tick below although its price is already that of the crossed tick.',
  [(P + 'pool.rs', '''        self.current_tick_index = if x_to_y && is_enough_amount_to_cross {''', '''        let stops_here = has_crossed && remaining_amount.is_zero();
        self.current_tick_index = if (x_to_y && is_enough_amount_to_cross) || (!x_to_y && stops_here) {''')],
  POOL % 'PCT' + '''
    d.open(A, k, -10, 10, liq(1_000_000)).unwrap();
    d.open(A, k, 10, 20, liq(1_000_000)).unwrap();
    let (p, q) = (SqrtPrice::from_tick(0).unwrap(), SqrtPrice::from_tick(10).unwrap());
    let step = math::compute_swap_step(p, q, liq(1_000_000), amount(1_000_000_000), true, t.fee).unwrap();
    d.swap(B, k, false, num(step.amount_in + step.fee_amount), true).unwrap();
    let pool = d.get_pool(k);
    assert_eq!((pool.sqrt_price, pool.current_tick_index), (q, 10));
''')

seed('A03-delta-y-up', 'a price difference and liquidity whose product is only a fraction beyond a whole token',
  'The amount of y is rounded down although it must be rounded up.',
  [(M + 'clamm.rs', '''        true => delta
            .big_mul_to_value_up(liquidity)
''', '''        true => delta
            .big_mul_to_value(liquidity)
''')],
  '''
    let (p, q) = (SqrtPrice::new(1_000_000_000_000_000_000_000_000), SqrtPrice::new(1_000_000_000_000_000_000_000_003));
    assert_eq!(math::get_delta_y(p, q, math::liquidity::Liquidity::new(U256::from(1u8)), true).unwrap(), amount(1));
''')

seed('A01-top-limb', 'a wide number of which only the highest limb lies beyond the narrower type',
  'Such a number is cut off silently instead of being reported as too large.',
  [('calc/decimal/decimal_core/src/uint_casts.rs', 'overflow_chunks(outer_range.clone(), param_name.clone())', 'overflow_chunks(max_common_chunk..(max_chunk - 1).max(max_common_chunk + 1), param_name.clone())')],
  '''
    let v = U512([5, 0, 0, 0, 0, 0, 0, 1]);
    assert!(<U256 as decimal::UintCheckedCast<U512>>::uint_checked_cast(v).is_err());
''')

seed('A02-lowest-price', 'the lowest price of the range',
  'The tick of the lowest admissible price cannot be found.',
  [(M + 'log.rs', 'sqrt_price.get() < MIN_SQRT_PRICE {', 'sqrt_price.get() <= MIN_SQRT_PRICE {')],
  '''
    assert_eq!(math::log::get_tick_at_sqrt_price(SqrtPrice::new(MIN_SQRT_PRICE), 1).unwrap(), -math::MAX_TICK);
''')

seed('A04-returned-y-up', 'closing a position in range whose y amount is not a whole number of tokens',
  'The owner is paid a token more than the curve gives.',
  [(M + 'clamm.rs', '''        amount_y = ok_or_mark_trace!(get_delta_y(
            ok_or_mark_trace!(SqrtPrice::from_tick(lower_tick))?,
            current_sqrt_price,
            liquidity_delta,
            liquidity_sign,
        ))?;
        update_liquidity = true;''', '''        amount_y = ok_or_mark_trace!(get_delta_y(
            ok_or_mark_trace!(SqrtPrice::from_tick(lower_tick))?,
            current_sqrt_price,
            liquidity_delta,
            liquidity_sign || current_tick_index < 0,
        ))?;
        update_liquidity = true;''')],
  '''
    let p = SqrtPrice::from_tick(-5).unwrap();
    let (_, y, _) = math::calculate_amount_delta(-5, p, liq(1_000_001), false, 10, -10).unwrap();
    let (_, z, _) = math::calculate_amount_delta(-5, p, liq(1_000_001), true, 10, -10).unwrap();
    assert_eq!(num(z), num(y) + 1);
''')

seed('E01-cross-at-tick', 'a trade upward that crosses a tick on which the pool already stands',
  'The simulation adds the liquidity that it should remove, or the other way round.',
  [('sdk/src/wasm/storage/tick.rs', 'if (pool.current_tick_index >= self.index) ^ self.sign {', 'if (pool.current_tick_index > self.index) ^ self.sign {')],
  '''
    let mut pool = Pool { liquidity: Liquidity::new(U256::from(5u8)), current_tick_index: 10, ..Default::default() };
    let mut tick = LiquidityTick { index: 10, liquidity_change: Liquidity::new(U256::from(2u8)), sign: true };
    tick.cross(&mut pool).unwrap();
    assert_eq!(pool.liquidity, Liquidity::new(U256::from(3u8)));
''', sdk=True)

seed('E02-fee-at-upper', 'a pool that stands exactly on the upper tick of a position',
  'The SDK shows fees for such a position that the contract does not pay.',
  [('sdk/src/wasm/types/fee_growth.rs', 'let current_below_upper = tick_current < tick_upper;', 'let current_below_upper = tick_current <= tick_upper;')],
  '''
    let g = |n: u128| FeeGrowth::new(n);
    let (x, y) = calculate_fee_growth_inside(-10, g(0), g(0), 10, g(70), g(7), 10, g(100), g(10));
    assert_eq!((x, y), (g(70), g(7)));
''', sdk=True)

seed('E03-minimum-out', 'a slippage that leaves a fraction of a token',
  'The SDK computes a minimum output one lower than the contract enforces.',
  [('sdk/src/wasm/clamm.rs', 'expected_amount_out.big_mul_up(Percentage::from_integer(1u8) - slippage)', 'expected_amount_out - expected_amount_out.big_mul_up(slippage)')],
  '''
    assert_eq!(calculate_min_amount_out(TokenAmount::new(U256::from(101u8)), Percentage::from_scale(1u8, 2)), TokenAmount::new(U256::from(100u8)));
''', sdk=True)

CLIENT = '''
const consts = { getMaxPoolKeysReturned: () => 2n, getPositionEntriesLimit: () => 2n, getLiquidityTickLimit: () => 2n, getChunkSize: () => 64n, getMaxSwapStep: () => 142n,
  getPercentageDenominator: () => 10n ** 12n, _positionToTick: (c, b) => c * 64 + b }
const { Invariant } = load('invariant.ts', consts)
const inv = service => Object.assign(Object.create(Invariant.prototype), { contract: { service }, gasLimit: 1n, eventListeners: {} })
'''
seed('E05-pages-numbering', 'a user with several pages of positions, of which one in the middle is left out',
  'The pages after a page that was left out are given the numbers of the pages before them.',
  [('sdk/src/invariant.ts', "return { index: pageIndexes[index], entries: positionsEntries }", "return { index: Number(pageIndexes[0]) + index, entries: positionsEntries }")],
  CLIENT + '''
const x = inv({})
x.getPositions = async (o, size, off) => [[Number(off)], 7n]
const pages = await x.getAllPositions('0x01', 7n, [1], 2n)
same(pages.sort((a, b) => a.index - b.index), [0, 2, 3].map(i => ({ index: i, entries: [2 * i] })))
''', client=True)
seed('E05-ticks-as-they-come', 'more ticks than one query returns, and replies that overtake each other',
  'The ticks of a pool are listed in the order in which the replies arrive.',
  [('sdk/src/invariant.ts', '''    const tickResults = await Promise.all(promises)
    return tickResults.flat(1)''', '''    const tickResults: LiquidityTick[] = []
    await Promise.all(promises.map(async promise => tickResults.push(...(await promise))))
    return tickResults''')],
  CLIENT + '''
const x = inv({})
x.getLiquidityTicks = async (k, l) => { await new Promise(go => setTimeout(go, l.length === 2 ? 50 : 5)); return l }
same(await x.getAllLiquidityTicks({ feeTier: { tickSpacing: 1n } }, { bitmap: new Map([[0n, 0b111n]]) }), [0n, 1n, 2n])
''', client=True)
seed('E05-last-keys', 'more pools than one query returns, the last page not full',
  'The pools of the last page are missing from the list of all pools.',
  [('sdk/src/invariant.ts', 'i < Math.ceil(Number(poolKeysCount) / Number(MAX_POOL_KEYS_RETURNED))', 'i < Math.round(Number(poolKeysCount) / Number(MAX_POOL_KEYS_RETURNED) - 0.01)')],
  CLIENT + '''
const all = [...Array(5).keys()]
const x = inv({})
x.getPoolKeys = async (size, off) => [all.slice(Number(off), Number(off) + 2), 5n]
same(await x.getAllPoolKeys(), all)
''', client=True)
seed('E04-off-alike', 'two listeners made by the same code, one of which is removed',
  'Removing a listener also removes every other listener with the same source text.',
  [('sdk/src/invariant.ts', 'return !(callback.callback === eventListener)', 'return String(callback.callback) !== String(eventListener)')],
  CLIENT + '''
const x = inv({}), log = []
x.eventListenerStarted = true
const [a, b] = [1, 2].map(i => () => log.push(i))
x.on({ ident: 'SwapEvent', callback: a }); x.on({ ident: 'SwapEvent', callback: b }); x.off({ ident: 'SwapEvent', callback: a })
x.eventListeners.SwapEvent.map(c => c())
same(log, [2])
''', client=True)
seed('E04-token-overtaken', 'two requests to the token client for different tokens at the same time',
  'The balance of one token is asked of the other token: the program is chosen before a pause, in which another call chooses its own.',
  [('sdk/src/erc20.ts', '''    this.erc20.programId = tokenAddress

    return this.erc20.vft.balanceOf(''', '''    this.erc20.programId = tokenAddress
    await this.erc20.api.isReady

    return this.erc20.vft.balanceOf(''')],
  '''
const { FungibleToken } = load('erc20.ts')
const erc20 = { api: {}, programId: null, vft: { balanceOf: async () => erc20.programId } }
const t = Object.assign(Object.create(FungibleToken.prototype), { erc20 })
same(await Promise.all([t.balanceOf('0x01', '0xaa'), t.balanceOf('0x01', '0xbb')]), ['0xaa', '0xbb'])
''', client=True)
seed('E04-batch-first-failure', 'a batch of requests of which two fail, the first of them by refusal',
  'Failures after a refused request of the same batch are not reported.',
  [('sdk/src/utils.ts', '''      errors.set(i, api.registry.createType('String', message.payload).toString())
      continue''', '''      errors.set(i, api.registry.createType('String', message.payload).toString())
      break''')],
  '''
const { batchTxs } = load('utils.ts')
const bytes = x => ({ toHex: () => x })
const fails = [false, true, true]
const api = { registry: { createType: (t, p) => p }, message: { getReplyEvent: async (p, m) => ({ data: { message: { payload: 'no', details: { unwrap: () => ({ code: { isSuccess: !fails[m] } }) } } } }) },
  tx: { utility: { batchAll: l => ({ signAsync: async () => {}, send: async cb => cb({ status: { isInBlock: true, asInBlock: bytes('b') }, events: [...l.map(i => ({ event: { section: 'gear', method: 'MessageQueued', data: { id: bytes(i), destination: bytes('p') } } })), { event: { section: 'system', method: 'ExtrinsicSuccess', data: {} } }] }) }) } } }
const e = await batchTxs(api, 'me', [0, 1, 2].map(i => ({ extrinsic: i, validation: null }))).catch(e => e)
same([...e.failedTxs.keys()], [1, 2])
''', client=True)
seed('E06-own-chunk', 'a trade from y to x while the next tick lies in the same chunk of the tick map as the price',
  'The chunk of the current price is dropped from the filtered tick map, so simulated trades miss its ticks.',
  [('sdk/src/utils.ts', 'if (chunkIndex < currentChunkIndex) {', 'if (chunkIndex <= currentChunkIndex) {')],
  '''
const { filterTickmap } = load('utils.ts', { getMaxSwapStep: () => 142n, tickIndexToPosition: (i, s) => [Number(i) >> 6, Number(i) & 63] })
same(filterTickmap({ bitmap: new Map([[0n, 1n], [1n, 6n], [2n, 5n]]) }, 1n, 64n, false).bitmap, new Map([[1n, 6n], [2n, 5n]]))
''', client=True)
seed('E06-impact-base', 'a trade that raises the price',
  'The price impact of rising prices is measured against the starting price only.',
  [('sdk/src/utils.ts', 'const denominator = startingPrice > endingPrice ? startingPrice : endingPrice', 'const denominator = startingPrice')],
  '''
const { calculatePriceImpact } = load('utils.ts', { getPercentageDenominator: () => 10n ** 12n })
same(calculatePriceImpact(1n, 2n), 750000000000n)
same(calculatePriceImpact(2n, 1n), 750000000000n)
''', client=True)

V = 'extended-vft/app/src/services/extended_vft/'
seed('T01-own-tokens', 'a holder without the burner role who burns some of his own tokens',
  'Everybody may burn his own tokens.',
  [(V + 'mod.rs', 'if !self.get().burners.contains(&msg::source()) {', 'if from != msg::source() && !self.get().burners.contains(&msg::source()) {')],
  '''
    t.mint(2, U256(5));
    by(2);
    assert!(refused(|| { t.burn(2, U256(1)); }), "burned without the role");
''', vft=True)
seed('T01-demoted-minter', 'an administrator who is also a minter and loses his administrator role',
  'Revoking the administrator role also revokes the minter role.',
  [(V + 'mod.rs', 'self.get_mut().admins.remove(&from);', 'let storage = self.get_mut();\n        if storage.admins.remove(&from) {\n            storage.minters.remove(&from);\n        }')],
  '''
    t.grant_admin_role(2);
    t.grant_minter_role(2);
    t.revoke_admin_role(2);
    assert!(t.minters().contains(&2), "no minter any more");
''', vft=True)
seed('T02-last-token', 'a holder whose whole balance is burned',
  'Burning a whole balance leaves the total supply as it was.',
  [(V + 'funcs.rs', """        balances.insert(from, new_from);
    } else {
        balances.remove(&from);
    }
""", """        balances.insert(from, new_from);
    } else {
        balances.remove(&from);
        return Ok(true);
    }
""")],
  '''
    t.mint(2, U256(5));
    t.mint(3, U256(4));
    t.burn(2, U256(5));
    assert_eq!(*vft_service::Storage::total_supply(), U256(4));
''', vft=True)
