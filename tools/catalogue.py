"""The properties: what is written to properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md.
Run tools/gen.py after editing."""
S = "programs/openbook-v2/src/"
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, design, state=(), observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, design=design, state=state, observe=observe))


prop("C01", "Recorded deposits move exactly with the vaults",
     "For every instruction that succeeds, the net amount of tokens moved into or out of each of a market's two vaults equals the change of the deposit total the market records for that token. No instruction moves vault tokens in any other way, and a new market starts with both totals at zero.",
     ["inputs", "configurations"], "all instructions, all argument values, all contents of the accounts, every combination of present and absent optional accounts",
     "The program's own tests replay a few scripted scenarios with fixed fees and lot sizes; the on-chain test suite does not even build here. Rounding, optional referrers, zero amounts and mixed free/deposited funds multiply into far more cases than scripts reach.",
     ["instructions/settle_funds.rs", "instructions/place_order.rs", "instructions/place_take_order.rs", "instructions/cancel_all_and_place_orders.rs", "instructions/deposit.rs", "instructions/refill.rs", "instructions/sweep_fees.rs"],
     [("token_transfer / token_transfer_signed", "token_utils.rs"), ("base_deposit_total, quote_deposit_total", "state/market.rs")],
     "All 29 instruction handlers are evaluated from their generated entry points with symbolic arguments and account contents. The signed sum of all token transfers whose account is checked to be the vault is compared, as a polynomial per path, with the difference of the recorded total before and after. The matching engine is replaced by a summary (its frame is established by C06).",
     [("base_deposit_total / quote_deposit_total", "what the vault should hold", "state/market.rs")], "token transfers and the market account after an instruction")

prop("C02", "Every action needs the right signature",
     "Orders, cancellations and settlements of an account succeed only when its owner or the delegate its owner named has signed; delegate changes, closing of accounts and of oracles only when the owner has signed; administrative actions only when the market's configured administrator for that action has signed, and where a market names an order or event administrator nobody trades or processes events without it. Wallet tokens move only with a signature of that instruction, vault tokens only under the market's authority.",
     ["inputs", "configurations"], "all instructions, all combinations of accounts and signers, all administrator and delegate settings",
     "Tests sign with the right key, plus a handful of negative cases; the absence of a check is only visible for the one combination of accounts an attacker chooses.",
     ["accounts_ix/*.rs", "state/open_orders_account.rs", "state/market.rs", "pubkey_option.rs"],
     [("account constraints", "accounts_ix/"), ("is_owner_or_delegate", "state/open_orders_account.rs"), ("NonZeroPubkeyOption equality", "pubkey_option.rs")],
     "Per instruction the exact condition for success is computed as a decision diagram over facts such as `signed(a)`, `key(a) = market.field`; a table of required signatures (one row per instruction, an instruction without a row is an error) is implied by it or the missing case is shown. Every token transfer's authority is checked the same way under the transfer's own path condition.")

prop("C03", "Instructions only touch accounts of the named market",
     "Whatever accounts a caller passes, an instruction on a market works only on that market's own two book sides (never exchanged), event queue, oracles (each in its own role) and on open orders accounts created for that market. Orders enter the book under the open orders account of the person placing them.",
     ["inputs", "configurations"], "all instructions with a market, all choices of passed accounts, all market records",
     "A test passes the right accounts; a missing or crossed link check is invisible unless someone passes accounts of a second market.",
     ["accounts_ix/*.rs", "instructions/*.rs", "accounts_zerocopy.rs"],
     [("has_one constraints", "accounts_ix/"), ("Orderbook { bids, asks }", "instructions/")],
     "At every load of a book side, event queue or open orders account, at every call into the matching engine and at every oracle read, the path condition must imply that the account's key is the one recorded in the market for that role.")

prop("C04", "Expired markets only wind down, and close only when empty",
     "Once a market has expired, by its own expiry time or by its administrator, no order is placed and nothing is deposited, while cancelling, settling, event processing and fee collection do not depend on expiry. Pruning, forced settlement and closing succeed only after expiry, a market closes only with no deposits, fees, rebates, resting orders or queued events left, and an open orders account or indexer closes only when it is empty.",
     ["inputs", "histories"], "all instructions, all expiry times and current times, all contents of market, books, queue and positions",
     "The life cycle is spread over sixteen handlers; tests walk one path through it and cannot show that no other handler forgets the check.",
     ["instructions/*.rs", "state/market.rs", "state/open_orders_account.rs"],
     [("Market::is_expired, Market::is_empty", "state/market.rs"), ("Position::is_empty", "state/open_orders_account.rs")],
     "The success condition of each handler must imply (not) expired, for order handlers at the call into the matching engine and at each transfer; for the leaving instructions no condition on the path may mention the expiry time. Closing handlers' success conditions must imply each emptiness condition.")

prop("C05", "Settlement pays exactly the free balances, once",
     "Settling pays the open orders account's free base and free quote in full, leaves nothing claimable, and touches neither orders nor locked amounts. Without the owner's own signature the tokens can only go to token accounts of the owner. Accrued rebates (and fee rounding once no bid is left) go to the referrer if one is given and to the market's fees otherwise, and the event penalty is charged at 500 lamports per counted event.",
     ["inputs", "configurations"], "both settlement instructions, all balances, fee settings, signers, destinations, with and without referrer",
     "Scripts settle a few balances with one fee setting; the interaction of rounding, referrer and delegate is a product of conditions.",
     ["instructions/settle_funds.rs", "instructions/settle_funds_expired.rs", "accounts_ix/settle_funds.rs", "accounts_ix/settle_funds_expired.rs", "state/open_orders_account.rs"],
     [("settle_funds", "instructions/settle_funds.rs"), ("is_settle_destination_allowed", "state/open_orders_account.rs")],
     "Both handlers are evaluated symbolically; amounts of every transfer, every changed field of position and market, and the emitted log are compared with formulas written from this statement; the remaining fields must be unchanged.")

ENGINE = "The matching engine is analysed once per side, order kind and presence of an account; ghost counters are advanced where a fill is settled or queued, the loop over the opposing book is summarised by affine and sign invariants (any number of matched orders), and the statement is compared with the result as polynomials per path. What the summary does not settle is decided on exact runs of up to two matched orders; only there can a violation be reported. "
BOOKF = ["state/orderbook/book.rs", "state/orderbook/order.rs", "state/orderbook/order_type.rs", "state/open_orders_account.rs", "state/market.rs"]

prop("C06", "A taker's totals, fee and credit follow from its fills",
     "For every order kind and side, the base and quote an order is charged and credited with are the sums over its fills, the taker fee is the taker rate on the quote traded with others rounded up, and what is left of the fee after the rebates of makers goes once to the market's fees and, with an account, once to the account's rebates. Takers with an account are credited the base (buyer) or the quote less the fee (seller) and nothing else of account or market changes. The totals reported for the order are these amounts.",
     ["inputs", "configurations"], "all order kinds, sides, self-trade behaviours, with and without account, all fee and lot settings, any number of matched orders",
     "The number of matched orders, partial fills, own orders, rebates and rounding multiply; tests check a few hand-computed books.",
     BOOKF, [("new_order", "state/orderbook/book.rs"), ("execute_taker", "state/open_orders_account.rs"), ("taker_fees_ceil, maker_rebate_floor", "state/market.rs")],
     ENGINE + "Results, market fields, the credit of the account and the emitted totals are compared with the counters.",
     [("fees_accrued, referrer_rebates_accrued", "fees and what is owed of them", "state/market.rs")], "amounts returned by the matching engine, market and open orders account")

prop("C07", "Every fill respects the limits of the order that takes",
     "No fill is at a price worse than the taking order's limit, all fills together never exceed its base quantity nor, with the taker fee for a buyer, its quote limit, and no more orders are matched than the caller allows. Each fill is at the resting order's price, of at least one lot and at most what is resting. It names the taker, the taker's side and the taker's client order id.",
     ["inputs", "configurations"], "all order kinds and sides, any number of matched orders, all prices and quantities",
     "Limits interact with rounding of fees and with the order in which limits bind; each test fixes one book.",
     BOOKF, [("matching loop of new_order", "state/orderbook/book.rs"), ("is_price_within_limit", "state/orderbook/order_type.rs")],
     ENGINE + "At every fill the guard must imply each inequality against the counters so far.")

prop("C08", "Each order kind keeps its promise about taking and resting",
     "Post-only orders never take, market, immediate-or-cancel and fill-or-kill orders (and orders without an account) never rest, and a fill-or-kill order succeeds only when it is filled completely. An order id is returned exactly when the order rests. Part of an order is never put on the book while a valid resting order of somebody else that it could still be matched with, within all its limits, stands on the other side.",
     ["inputs", "configurations"], "all order kinds and sides, any number of matched orders, with and without account",
     "The promise must hold for every book; tests show it for one.",
     BOOKF, [("new_order", "state/orderbook/book.rs"), ("Order::post_target, is_post_only, is_fill_or_kill", "state/orderbook/order.rs"), ("PlaceOrderType conversions", "state/orderbook/order_type.rs")],
     ENGINE + "Insertions into the book and fills must be unreachable for the kinds that exclude them; the conversion of the public order types to the internal kinds is compared with the naming.")

prop("C09", "Trading with oneself follows the behaviour the order asks for",
     "An order set to cancel or to abort never trades with a resting order of the same account: cancel takes the own order off the book and releases its whole quantity, abort fails the whole instruction, and an own order that could be matched is never passed over. An order set to decrement leaves own orders in place except for what it trades with them. Only orders of the taking account itself are treated as own orders.",
     ["inputs", "configurations"], "three behaviours, order kinds, sides, any number of matched orders, all owners",
     "Own orders can appear anywhere among others, partly matched, pegged or expired.",
     BOOKF, [("SelfTradeBehavior", "state/orderbook/order_type.rs"), ("self trade branch of new_order", "state/orderbook/book.rs")],
     ENGINE + "Each behaviour is analysed apart; the removal from the book is followed exactly on executions that match at most one order.")

prop("C10", "What rests of an order is exact, locked and remembered",
     "The part of an order that rests is what its base limit and its quote limit, less everything taken and all fees, leave, at least one lot, on its own side, with the attributes the caller gave and an id that ranks by price and then by arrival; a pegged order never rests beyond its peg limit. The amounts to deposit, the locked lots and the locked maker fee are exactly those of the resting quantity at the price it is locked at. The account's slot, previously free, describes the order, and an order that does not rest locks nothing.",
     ["inputs", "configurations"], "limit, post-only and sliding orders, fixed and pegged, both sides, all limits, fees and lot sizes",
     "The remainder depends on all fills, two roundings of fees and the peg limit; tests use simple numbers.",
     BOOKF + ["state/orderbook/nodes.rs"], [("posting part of new_order", "state/orderbook/book.rs"), ("add_order, next_order_slot", "state/open_orders_account.rs"), ("new_node_key", "state/orderbook/nodes.rs")],
     ENGINE + "The leaf inserted, the result, the position and the slot at the end are compared with formulas over the counters.")

prop("C11", "What is filled leaves the book, and each fill is booked once",
     "A resting order filled completely is removed from its side of the book and says so in the fill; one filled partly stays with its quantity reduced by exactly the fill, and no order is removed for another reason than being filled completely or released. Each fill names the owner, slot, client id, time and peg limit of the order it filled. It is booked exactly once, at once with the account of that owner or by a queued event.",
     ["inputs", "configurations"], "order kinds and sides, any number of matched orders for the collected changes, at most one matched order for their effect on the book",
     "A wrong update shows only when the same resting order is met again.",
     BOOKF + ["state/orderbook/heap.rs"], [("matched_order_changes, matched_order_deletes", "state/orderbook/book.rs"), ("process_fill_event", "state/orderbook/book.rs")],
     ENGINE + "What the loop collects is related to each fill for any number of iterations; what is finally removed or changed in the book is followed exactly on executions that match at most one order.")

prop("C12", "Orders dropped without a trade are released once, to their owner",
     "An order that placing another order takes off the book without a trade is released with its whole quantity, exactly once, to the account that owns it, directly or by a queued event naming its slot and side. Only orders that cannot be matched any more, own orders when asked to cancel them, and orders making room on a full book are dropped, the worst order of a full book only for an order with a better price. An expired order or one beyond its peg limit is never filled.",
     ["inputs", "configurations"], "order kinds and sides, any number of dropped orders, any remaining accounts",
     "Needs books with expired orders of several owners, full books and partially supplied accounts.",
     BOOKF + ["state/orderbook/bookside.rs"], [("process_out_event", "state/orderbook/book.rs"), ("remove_one_expired, remove_worst", "state/orderbook/bookside.rs")],
     ENGINE + "Every release (direct or queued) is traced to the resting order whose fields it carries; guards must be disjoint and imply the reasons.")

prop("C13", "A maker gets exactly what its filled order earned",
     "When a fill is booked with the maker of the resting order, its balances change by exactly the filled amounts: a buyer receives the base, a seller the quote less its maker fee or plus its rebate, what was locked for the filled part is unlocked, and a pegged buyer gets back what was locked beyond the price of the fill. The maker fee is rounded down, is charged as locked, recorded with the market and the account, and is neither charged nor rebated on a trade with oneself. The slot is freed exactly when the order is filled completely, and the fill reported is the fill booked.",
     ["inputs", "configurations"], "both sides, fixed and pegged orders, complete and partial fills, positive and negative maker fees, trades with oneself",
     "Rounding of partially filled pegged orders with fees depends on sizes and prices no scripted history covers.",
     ["state/open_orders_account.rs"], [("execute_maker, cancel_order", "state/open_orders_account.rs")],
     "The booking function is analysed for any fill and any account; every balance's change is compared, as a polynomial with floor divisions, with the formula of the statement; other fields, slots and market fields must be unchanged.")

prop("C14", "Cancelling releases what was locked, and only the orders asked for",
     "Cancelling an order frees exactly what was locked for it, at the price it was locked at and with its fee, and frees its slot and no other. The order is removed from the side and tree it rests in, only if it belongs to the account, and is released once with what was resting of it. Cancelling several orders cancels every order of the account that matches the side or client id asked for, up to the limit, and no other; orders are cancelled only by instructions that ask for it.",
     ["inputs", "configurations"], "all slots of an account, any resting quantity and price, optional side, client id and limit, every instruction",
     "Needs accounts with many orders on both sides, in both trees, with limits, and fees that round.",
     ["state/open_orders_account.rs", "state/orderbook/book.rs", "instructions/cancel_order.rs", "instructions/cancel_all_orders.rs", "instructions/cancel_order_by_client_order_id.rs", "instructions/edit_order.rs",
      "instructions/cancel_all_and_place_orders.rs"],
     [("cancel_order", "state/open_orders_account.rs"), ("cancel_all_orders, cancel_order_by_id", "state/orderbook/book.rs")],
     "Three levels: releasing one order (formulas for each balance), removing one order (effects traced to the slot and the leaf), and the loop over the account's slots, analysed exactly for all its slots. Each instruction's requests are traced to its arguments.")

prop("C15", "Orders reach the book exactly as they were submitted",
     "Placing or editing an order hands the matching engine the side, price, size, limits, kind, client id and self-trade behaviour that were submitted, for the account and market given, at the current time; an edited order is smaller by what was filled of the order it replaces. It lives until the expiry submitted, at most 65535 seconds, and an order that has expired already is skipped without effect. A batch places each of its orders once, numbered as submitted, each limited by what its owner has left after the orders before it.",
     ["inputs", "configurations"], "all order types and sides, any arguments, any time; batches of at most two orders",
     "Combinations of order type, expiry, limits and balance are too many to script, and a wrong argument often shows only under matching.",
     ["lib.rs", "instructions/place_order.rs", "instructions/place_take_order.rs", "instructions/edit_order.rs", "instructions/cancel_all_and_place_orders.rs", "state/orderbook/order.rs"],
     [("place_order and its siblings", "lib.rs")],
     "The call that places the order is intercepted in each instruction and every argument compared with the instruction's arguments and accounts on every path; batches are unrolled exactly for lists of up to two orders.")

prop("C16", "Resting orders are met best price first, then in order of arrival",
     "Walking one side of the book yields, at every moment, the best-priced order that can be matched, fixed or pegged, and at the same price the one that arrived first; each order comes once, at its own price or at the oracle's price plus its offset, and none that can be matched is left out. An order that has expired or is beyond its peg limit is marked as not matchable, and one whose pegged price is out of range is passed over. When a full side must give way, the worst order goes; order ids follow arrival and are never given twice.",
     ["inputs", "configurations", "histories"], "both sides, with and without an oracle, any prices, offsets, limits and times, up to two pegged orders in a row without a price",
     "Orders of both kinds, skipped ones among them, ties in price and extreme oracle prices combine in ways a random test of the walk does not hit; the defect repaired here survived the existing random test.",
     ["state/orderbook/bookside_iterator.rs", "state/orderbook/bookside.rs", "state/orderbook/nodes.rs", "state/orderbook/book.rs", "state/market.rs"],
     [("BookSideIter::next, rank_orders, oracle_pegged_price", "state/orderbook/bookside_iterator.rs"), ("remove_worst", "state/orderbook/bookside.rs"), ("gen_order_id", "state/market.rs")],
     "One step of the walk is analysed for each situation: side, fixed order at hand or not, oracle or not, and every sequence of up to two pegged orders whose price is too low or too high, with prices, sequence numbers and times as symbols. The two sorted lists are the oracle: which order must come, with which price, state and position in both lists. 128-bit ids are split into price and number so that comparisons are decided lexicographically. The same is done for the order that makes room, and ids of new orders are compared with the market's counter.")

prop("C17", "A market is created exactly as asked for, and only with sound parameters",
     "A market is created only if lot sizes are positive, no fee exceeds the amount traded, takers are never paid and maker rebates are covered by the taker fee, the expiry if any is in the future, the two tokens differ, and its oracles are of a known kind, different from each other, of the same kind, and not a second one without a first. It then records the parameters, accounts and administrators it was given, the decimals of its tokens and the oracle's limits, starts with all counters at zero, with empty books of the right sides and an empty event queue, and its vaults belong to its own authority for the right token.",
     ["inputs", "configurations"], "any arguments and accounts, with and without each optional account",
     "A wrong field or bound of a new market shows only when that field is used much later, for the one parameter combination that was let through.",
     ["instructions/create_market.rs", "accounts_ix/create_market.rs", "state/oracle.rs", "pubkey_option.rs"],
     [("create_market", "instructions/create_market.rs"), ("CreateMarket", "accounts_ix/create_market.rs"), ("to_oracle_config", "state/oracle.rs")],
     "The instruction is analysed from its entry point; every field of the market after it is compared with the argument or account it must come from, the bounds must follow from the exact condition for success, and the calls that create the vaults are traced to their authority and mint.")

prop("C18", "Events leave the queue in order, none lost and none twice",
     "Adding an event puts it behind all others, stores it unchanged and numbers it without gaps; removing one, the oldest or any other, gives back exactly that event, keeps the order of the rest, and makes its place usable again. Nothing is added to a full queue, and free, unknown or empty places cannot be removed; reading visits all events from the oldest to the youngest.",
     ["inputs", "histories"], "any number of events up to the capacity, any content, removed in any order; all relative positions of the places involved",
     "The existing tests add and take in order; processing of chosen events removes them from the middle in any order, and a broken link shows only several operations later.",
     ["state/orderbook/heap.rs"],
     [("push_back, delete_slot, pop_front, iter", "state/orderbook/heap.rs")],
     "The queue is an invariant (a ring of used places and a chain of free ones); the initial queue is computed in full and every operation is shown to keep the invariant: for an operation on a well-formed queue the links, header and events it leaves are compared place by place with those of the sequence it stands for, all other places (one symbolic place) unchanged. Places told apart are run for several concrete numberings including the first and last place, and the count is a symbol.")
