//! A small in-process stand-in for the runtime: accounts in memory, calls into the program's entry
//! point, and the token and system program calls it makes. Everything stays in this process.
#![allow(dead_code)]
use anchor_lang::prelude::*;
use anchor_lang::solana_program::{
    self, entrypoint::ProgramResult, instruction::Instruction, program_error::ProgramError, program_pack::Pack, program_stubs, system_program,
};
use anchor_lang::{Discriminator, InstructionData, ToAccountMetas};
use anchor_spl::token::spl_token;
use bytemuck::Zeroable;
use openbook_v2::state::*;
use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Clone, Default)]
pub struct Acc {
    pub owner: Pubkey,
    pub lamports: u64,
    pub data: Vec<u8>,
    pub executable: bool,
}

struct Sys;
static CLOCK: Mutex<(i64, u64)> = Mutex::new((0, 0));
static LOGS: Mutex<Vec<Vec<u8>>> = Mutex::new(Vec::new());
static VERBOSE: Mutex<bool> = Mutex::new(false);

impl program_stubs::SyscallStubs for Sys {
    fn sol_log(&self, m: &str) {
        if *VERBOSE.lock().unwrap() {
            eprintln!("  log: {m}");
        }
    }
    fn sol_log_data(&self, f: &[&[u8]]) {
        LOGS.lock().unwrap().push(f[0].to_vec());
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let (t, s) = *CLOCK.lock().unwrap();
        unsafe { *(p as *mut Clock) = Clock { slot: s, epoch_start_timestamp: 0, epoch: 0, leader_schedule_epoch: 0, unix_timestamp: t } };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
    fn sol_set_return_data(&self, _: &[u8]) {}
    fn sol_get_stack_height(&self) -> u64 {
        1
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let pdas: Vec<Pubkey> = seeds.iter().map(|s| Pubkey::create_program_address(s, &openbook_v2::ID).unwrap()).collect();
        let mut v = vec![];
        for m in &ix.accounts {
            let a = infos.iter().find(|a| a.key == &m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
            if m.is_signer && !a.is_signer && !pdas.contains(&m.pubkey) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if m.is_writable && !a.is_writable {
                return Err(ProgramError::Custom(0xbad));
            }
            let mut a = a.clone();
            a.is_signer = m.is_signer;
            a.is_writable = m.is_writable;
            v.push(a);
        }
        if ix.program_id == spl_token::ID {
            return spl_token::processor::Processor::process(&ix.program_id, &v, &ix.data);
        }
        if ix.program_id == openbook_v2::ID {
            return Ok(());
        }
        if ix.program_id == system_program::ID {
            use solana_program::system_instruction::SystemInstruction as S;
            let pay = |from: &AccountInfo, to: &AccountInfo, n: u64| -> ProgramResult {
                let l = from.lamports().checked_sub(n).ok_or(ProgramError::InsufficientFunds)?;
                **from.try_borrow_mut_lamports()? = l;
                **to.try_borrow_mut_lamports()? += n;
                Ok(())
            };
            match bincode::deserialize::<S>(&ix.data).map_err(|_| ProgramError::InvalidInstructionData)? {
                S::Transfer { lamports } => pay(&v[0], &v[1], lamports)?,
                S::CreateAccount { lamports, space, owner } => {
                    if !v[0].is_signer || !v[1].is_signer || !v[1].data_is_empty() {
                        return Err(ProgramError::AccountAlreadyInitialized);
                    }
                    pay(&v[0], &v[1], lamports)?;
                    v[1].realloc(space as usize, true)?;
                    v[1].assign(&owner);
                }
                _ => return Err(ProgramError::InvalidInstructionData),
            }
            return Ok(());
        }
        Err(ProgramError::IncorrectProgramId)
    }
}

pub struct World {
    pub accs: BTreeMap<Pubkey, Acc>,
    n: u8,
    pub logs: Vec<Vec<u8>>,
}

pub fn key(n: u8) -> Pubkey {
    let mut k = [7u8; 32];
    k[0] = n;
    Pubkey::new_from_array(k)
}

impl World {
    pub fn new() -> World {
        program_stubs::set_syscall_stubs(Box::new(Sys));
        std::panic::set_hook(Box::new(|i| {
            if *VERBOSE.lock().unwrap() {
                eprintln!("  panic: {i}")
            }
        }));
        *VERBOSE.lock().unwrap() = std::env::var("V").is_ok();
        let mut w = World { accs: BTreeMap::new(), n: 0, logs: vec![] };
        for p in [spl_token::ID, system_program::ID, openbook_v2::ID, anchor_spl::associated_token::ID] {
            w.accs.insert(p, Acc { executable: true, lamports: 1, ..Acc::default() });
        }
        w.time(1_000_000);
        w
    }
    pub fn time(&mut self, t: i64) {
        CLOCK.lock().unwrap().0 = t;
    }
    pub fn slot(&mut self, s: u64) {
        CLOCK.lock().unwrap().1 = s;
    }
    pub fn fresh(&mut self) -> Pubkey {
        self.n += 1;
        key(self.n)
    }
    pub fn wallet(&mut self) -> Pubkey {
        let k = self.fresh();
        self.accs.insert(k, Acc { owner: system_program::ID, lamports: 1_000_000_000_000, ..Acc::default() });
        k
    }
    pub fn mint(&mut self) -> Pubkey {
        let k = self.fresh();
        let mut d = vec![0; spl_token::state::Mint::LEN];
        spl_token::state::Mint { decimals: 6, is_initialized: true, supply: u64::MAX, ..Default::default() }.pack_into_slice(&mut d);
        self.accs.insert(k, Acc { owner: spl_token::ID, lamports: 1_000_000_000, data: d, executable: false });
        k
    }
    pub fn token(&mut self, mint: Pubkey, owner: Pubkey, amount: u64) -> Pubkey {
        let k = self.fresh();
        let mut d = vec![0; spl_token::state::Account::LEN];
        spl_token::state::Account { mint, owner, amount, state: spl_token::state::AccountState::Initialized, ..Default::default() }.pack_into_slice(&mut d);
        self.accs.insert(k, Acc { owner: spl_token::ID, lamports: 1_000_000_000, data: d, executable: false });
        k
    }
    pub fn balance(&self, k: Pubkey) -> u64 {
        spl_token::state::Account::unpack(&self.accs[&k].data).unwrap().amount
    }
    pub fn put<T: bytemuck::Pod + Discriminator>(&mut self, k: Pubkey, v: &T) {
        let mut d = T::DISCRIMINATOR.to_vec();
        d.extend_from_slice(bytemuck::bytes_of(v));
        self.accs.insert(k, Acc { owner: openbook_v2::ID, lamports: 10_000_000_000, data: d, executable: false });
    }
    pub fn get<T: bytemuck::Pod>(&self, k: Pubkey) -> Box<T> {
        let mut b = Box::new(<T as Zeroable>::zeroed());
        bytemuck::bytes_of_mut(&mut *b).copy_from_slice(&self.accs[&k].data[8..]);
        b
    }
    pub fn edit<T: bytemuck::Pod + Discriminator>(&mut self, k: Pubkey, f: impl FnOnce(&mut T)) {
        let mut b = self.get::<T>(k);
        f(&mut b);
        self.put(k, &*b);
    }

    /// runs one instruction; on failure nothing changes
    pub fn run(&mut self, accounts: impl ToAccountMetas, extra: &[Pubkey], data: impl InstructionData) -> std::result::Result<(), String> {
        let mut metas = accounts.to_account_metas(None);
        for k in extra {
            metas.push(AccountMeta::new(*k, false));
        }
        self.raw(metas, data.data())
    }

    pub fn raw(&mut self, metas: Vec<AccountMeta>, data: Vec<u8>) -> std::result::Result<(), String> {
        let mut v: Vec<u8> = vec![];
        v.extend((metas.len() as u64).to_le_bytes());
        let mut seen: Vec<Pubkey> = vec![];
        for m in &metas {
            if let Some(i) = seen.iter().position(|k| *k == m.pubkey) {
                v.push(i as u8);
                v.extend([0u8; 7]);
                seen.push(m.pubkey);
                continue;
            }
            seen.push(m.pubkey);
            let (s, w) = metas.iter().filter(|x| x.pubkey == m.pubkey).fold((false, false), |a, x| (a.0 | x.is_signer, a.1 | x.is_writable));
            let a = self.accs.get(&m.pubkey).cloned().unwrap_or_default();
            v.push(0xff);
            v.push(s as u8);
            v.push(w as u8);
            v.push(a.executable as u8);
            v.extend([0u8; 4]);
            v.extend(m.pubkey.to_bytes());
            v.extend(a.owner.to_bytes());
            v.extend(a.lamports.to_le_bytes());
            v.extend((a.data.len() as u64).to_le_bytes());
            v.extend(&a.data);
            v.extend(vec![0u8; 10240]);
            while v.len() % 8 != 0 {
                v.push(0);
            }
            v.extend(0u64.to_le_bytes());
        }
        v.extend((data.len() as u64).to_le_bytes());
        v.extend(&data);
        v.extend(openbook_v2::ID.to_bytes());
        let mut buf: Vec<u128> = vec![0; v.len() / 16 + 1];
        bytemuck::cast_slice_mut::<u128, u8>(&mut buf)[..v.len()].copy_from_slice(&v);
        LOGS.lock().unwrap().clear();
        let p = buf.as_mut_ptr() as *mut u8;
        let (_, infos, d) = unsafe { solana_program::entrypoint::deserialize(p) };
        // the buffers outlive this function so that the program may keep any lifetime
        let infos: &'static Vec<AccountInfo<'static>> = Box::leak(Box::new(unsafe { std::mem::transmute(infos) }));
        let d: &'static [u8] = unsafe { std::mem::transmute(d) };
        std::mem::forget(buf);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| openbook_v2::entry(&openbook_v2::ID, infos, d)));
        match r {
            Ok(Ok(())) => {
                for i in infos.iter() {
                    if !i.is_writable {
                        continue;
                    }
                    let a = self.accs.entry(*i.key).or_default();
                    a.owner = *i.owner;
                    a.lamports = i.lamports();
                    a.data = i.data.borrow().to_vec();
                }
                self.logs = LOGS.lock().unwrap().clone();
                Ok(())
            }
            Ok(Err(e)) => Err(format!("{e:?}")),
            Err(_) => Err("panic".into()),
        }
    }
    pub fn events<E: AnchorDeserialize + Discriminator>(&self) -> Vec<E> {
        self.logs.iter().filter(|l| l[..8] == E::DISCRIMINATOR).map(|l| E::deserialize(&mut &l[8..]).unwrap()).collect()
    }
}

/// one market with its accounts
#[derive(Clone, Copy)]
pub struct Mk {
    pub market: Pubkey,
    pub authority: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub heap: Pubkey,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub admin: Pubkey,
    pub oracle: Option<Pubkey>,
}

/// one trader
#[derive(Clone, Copy)]
pub struct Tr {
    pub owner: Pubkey,
    pub oo: Pubkey,
    pub base: Pubkey,
    pub quote: Pubkey,
}

pub const FUNDS: u64 = 1_000_000_000_000_000;

impl World {
    pub fn market(&mut self, bls: i64, qls: i64, maker_fee: i64, taker_fee: i64) -> Mk {
        let market = self.fresh();
        let (authority, bump) = Pubkey::find_program_address(&[b"Market", market.as_ref()], &openbook_v2::ID);
        let admin = self.wallet();
        let (bids, asks, heap) = (self.fresh(), self.fresh(), self.fresh());
        let (base_mint, quote_mint) = (self.mint(), self.mint());
        let (base_vault, quote_vault) = (self.token(base_mint, authority, 0), self.token(quote_mint, authority, 0));
        let mut m = Market::zeroed();
        m.bump = bump;
        m.base_decimals = 6;
        m.quote_decimals = 6;
        m.market_authority = authority;
        m.collect_fee_admin = admin;
        m.close_market_admin = Some(admin).into();
        m.bids = bids;
        m.asks = asks;
        m.event_heap = heap;
        m.quote_lot_size = qls;
        m.base_lot_size = bls;
        m.maker_fee = maker_fee;
        m.taker_fee = taker_fee;
        m.base_mint = base_mint;
        m.quote_mint = quote_mint;
        m.market_base_vault = base_vault;
        m.market_quote_vault = quote_vault;
        m.oracle_config = OracleConfig { conf_filter: 0.1, max_staleness_slots: 100, reserved: [0; 72] };
        self.put(market, &m);
        for (k, t) in [(bids, OrderTreeType::Bids), (asks, OrderTreeType::Asks)] {
            let mut b = Box::new(<BookSide as Zeroable>::zeroed());
            b.nodes.order_tree_type = t.into();
            self.put(k, &*b);
        }
        let mut h = Box::new(<EventHeap as Zeroable>::zeroed());
        h.init();
        self.put(heap, &*h);
        Mk { market, authority, bids, asks, heap, base_mint, quote_mint, base_vault, quote_vault, admin, oracle: None }
    }
    /// gives the market a stub oracle with this price (quote native per base native)
    pub fn oracle(&mut self, m: &mut Mk, price: f64) {
        let k = self.fresh();
        let mut o = StubOracle::zeroed();
        o.price = price;
        o.deviation = 0.0;
        self.put(k, &o);
        self.edit::<Market>(m.market, |x| x.oracle_a = Some(k).into());
        m.oracle = Some(k);
    }
    pub fn set_price(&mut self, m: &Mk, price: f64) {
        self.edit::<StubOracle>(m.oracle.unwrap(), |o| o.price = price);
    }
    pub fn trader(&mut self, m: &Mk) -> Tr {
        let owner = self.wallet();
        let t = Tr { owner, oo: self.fresh(), base: self.token(m.base_mint, owner, FUNDS), quote: self.token(m.quote_mint, owner, FUNDS) };
        let mut o = OpenOrdersAccount::zeroed();
        o.owner = owner;
        o.market = m.market;
        o.version = 1;
        o.open_orders = [OpenOrder::default(); MAX_OPEN_ORDERS];
        self.put(t.oo, &o);
        t
    }
    pub fn oo(&self, t: &Tr) -> Box<OpenOrdersAccount> {
        self.get(t.oo)
    }
    pub fn mk(&self, m: &Mk) -> Box<Market> {
        self.get(m.market)
    }
    pub fn place_accounts(&self, m: &Mk, t: &Tr, side: Side) -> openbook_v2::accounts::PlaceOrder {
        openbook_v2::accounts::PlaceOrder {
            signer: t.owner,
            open_orders_account: t.oo,
            open_orders_admin: None,
            user_token_account: if side == Side::Bid { t.quote } else { t.base },
            market: m.market,
            bids: m.bids,
            asks: m.asks,
            event_heap: m.heap,
            market_vault: if side == Side::Bid { m.quote_vault } else { m.base_vault },
            oracle_a: m.oracle,
            oracle_b: None,
            token_program: spl_token::ID,
        }
    }
    pub fn place(&mut self, m: &Mk, t: &Tr, a: openbook_v2::PlaceOrderArgs, makers: &[Pubkey]) -> std::result::Result<(), String> {
        let acc = self.place_accounts(m, t, a.side);
        self.run(acc, makers, openbook_v2::instruction::PlaceOrder { args: a })
    }
    pub fn peg(&mut self, m: &Mk, t: &Tr, a: openbook_v2::PlaceOrderPeggedArgs, makers: &[Pubkey]) -> std::result::Result<(), String> {
        let acc = self.place_accounts(m, t, a.side);
        self.run(acc, makers, openbook_v2::instruction::PlaceOrderPegged { args: a })
    }
    pub fn take(&mut self, m: &Mk, t: &Tr, a: openbook_v2::PlaceTakeOrderArgs, makers: &[Pubkey]) -> std::result::Result<(), String> {
        let acc = openbook_v2::accounts::PlaceTakeOrder {
            signer: t.owner,
            penalty_payer: t.owner,
            market: m.market,
            market_authority: m.authority,
            bids: m.bids,
            asks: m.asks,
            market_base_vault: m.base_vault,
            market_quote_vault: m.quote_vault,
            event_heap: m.heap,
            user_base_account: t.base,
            user_quote_account: t.quote,
            oracle_a: m.oracle,
            oracle_b: None,
            token_program: spl_token::ID,
            system_program: system_program::ID,
            open_orders_admin: None,
        };
        self.run(acc, makers, openbook_v2::instruction::PlaceTakeOrder { args: a })
    }
    pub fn settle_with(&mut self, m: &Mk, t: &Tr, signer: Pubkey, base: Pubkey, quote: Pubkey, referrer: Option<Pubkey>) -> std::result::Result<(), String> {
        let acc = openbook_v2::accounts::SettleFunds {
            owner: signer,
            penalty_payer: signer,
            open_orders_account: t.oo,
            market: m.market,
            market_authority: m.authority,
            market_base_vault: m.base_vault,
            market_quote_vault: m.quote_vault,
            user_base_account: base,
            user_quote_account: quote,
            referrer_account: referrer,
            token_program: spl_token::ID,
            system_program: system_program::ID,
        };
        self.run(acc, &[], openbook_v2::instruction::SettleFunds {})
    }
    pub fn settle(&mut self, m: &Mk, t: &Tr) -> std::result::Result<(), String> {
        self.settle_with(m, t, t.owner, t.base, t.quote, None)
    }
    pub fn consume(&mut self, m: &Mk, limit: usize, makers: &[Pubkey]) -> std::result::Result<(), String> {
        let acc = openbook_v2::accounts::ConsumeEvents { consume_events_admin: None, event_heap: m.heap, market: m.market };
        self.run(acc, makers, openbook_v2::instruction::ConsumeEvents { limit })
    }
    pub fn cancel_accounts(&self, m: &Mk, t: &Tr) -> openbook_v2::accounts::CancelOrder {
        openbook_v2::accounts::CancelOrder { signer: t.owner, open_orders_account: t.oo, market: m.market, bids: m.bids, asks: m.asks }
    }
    pub fn cancel(&mut self, m: &Mk, t: &Tr, order_id: u128) -> std::result::Result<(), String> {
        let acc = self.cancel_accounts(m, t);
        self.run(acc, &[], openbook_v2::instruction::CancelOrder { order_id })
    }
    pub fn cancel_all(&mut self, m: &Mk, t: &Tr, side_option: Option<Side>, limit: u8) -> std::result::Result<(), String> {
        let acc = self.cancel_accounts(m, t);
        self.run(acc, &[], openbook_v2::instruction::CancelAllOrders { side_option, limit })
    }
    pub fn deposit(&mut self, m: &Mk, t: &Tr, base_amount: u64, quote_amount: u64) -> std::result::Result<(), String> {
        let acc = openbook_v2::accounts::Deposit {
            owner: t.owner,
            user_base_account: t.base,
            user_quote_account: t.quote,
            open_orders_account: t.oo,
            market: m.market,
            market_base_vault: m.base_vault,
            market_quote_vault: m.quote_vault,
            token_program: spl_token::ID,
        };
        self.run(acc, &[], openbook_v2::instruction::Deposit { base_amount, quote_amount })
    }
    /// what every vault holds beyond what accounts may still claim from it
    pub fn surplus(&self, m: &Mk, ts: &[Tr]) -> (i128, i128) {
        let k = self.mk(m);
        let (mut b, mut q) = (self.balance(m.base_vault) as i128, self.balance(m.quote_vault) as i128);
        q -= k.fees_available as i128;
        for t in ts {
            let p = self.oo(t).position;
            b -= p.base_free_native as i128 + p.asks_base_lots as i128 * k.base_lot_size as i128;
            q -= p.quote_free_native as i128 + p.bids_quote_lots as i128 * k.quote_lot_size as i128 + p.locked_maker_fees as i128 + p.referrer_rebates_available as i128;
        }
        (b, q)
    }
}

pub fn order(side: Side, price_lots: i64, max_base_lots: i64) -> openbook_v2::PlaceOrderArgs {
    openbook_v2::PlaceOrderArgs {
        side,
        price_lots,
        max_base_lots,
        max_quote_lots_including_fees: i64::MAX / 1_000_000_000,
        client_order_id: 0,
        order_type: PlaceOrderType::Limit,
        expiry_timestamp: 0,
        self_trade_behavior: SelfTradeBehavior::DecrementTake,
        limit: 20,
    }
}

/// reports a failed expectation and leaves with status 1
pub fn expect(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {what}");
        std::process::exit(1);
    }
    println!("ok: {what}");
}
