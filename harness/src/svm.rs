//! A miniature Solana runtime: accounts, sysvars, and stand-ins for the
//! programs that presale calls (system program, SPL Token / Token-2022, memo,
//! and presale itself for events).  Each stand-in follows the documented
//! contract of the real program for the calls presale makes.
use crate::sym;
use anchor_lang::prelude::*;
use anchor_lang::solana_program::entrypoint::ProgramResult;
use anchor_lang::solana_program::instruction::Instruction;
use anchor_lang::solana_program::program_error::ProgramError;
use anchor_lang::solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};

pub type K = [u8; 32];
pub type AI = AccountInfo<'static>;

pub const TOKEN: Pubkey = pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub const TOKEN22: Pubkey = pubkey!("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
pub const MEMO: Pubkey = pubkey!("MemoSq4gqABAXKb96qnH8TysNcWxMyWCqXgDLGmfcHr");
pub const SYSTEM: Pubkey = pubkey!("11111111111111111111111111111111");
pub const ATA: Pubkey = pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");

/// A distinct concrete key per small number.
pub fn kk(n: u8) -> K {
    let mut k = [0u8; 32];
    k[0] = 0xC0;
    k[1] = n;
    k[17] = 0x55;
    k[31] = n ^ 0x3A;
    k
}

/// Account memory laid out as the loader does it: the original data length is
/// stored 4 bytes before the key, the data length 8 bytes before the data.
pub fn account(key: &K, owner: &K, lamports: u64, data: &[u8], signer: bool, writable: bool) -> AI {
    let words = (104 + data.len()) / 16 + 2;
    let mut v: Vec<u128> = Vec::with_capacity(words);
    let p = v.as_mut_ptr() as *mut u8;
    std::mem::forget(v);
    unsafe {
        *(p.add(12) as *mut u32) = data.len() as u32;
        std::ptr::copy_nonoverlapping(key.as_ptr(), p.add(16), 32);
        std::ptr::copy_nonoverlapping(owner.as_ptr(), p.add(48), 32);
        *(p.add(80) as *mut u64) = lamports;
        *(p.add(96) as *mut u64) = data.len() as u64;
        std::ptr::copy_nonoverlapping(data.as_ptr(), p.add(104), data.len());
        AccountInfo::new(
            &*(p.add(16) as *const Pubkey),
            signer,
            writable,
            &mut *(p.add(80) as *mut u64),
            std::slice::from_raw_parts_mut(p.add(104), data.len()),
            &*(p.add(48) as *const Pubkey),
            false,
            0,
        )
    }
}
pub fn program(key: &Pubkey) -> AI {
    let mut a = account(&key.to_bytes(), &kk(250), 1, &[], false, false);
    a.executable = true;
    a
}
/// A plain wallet.
pub fn wallet(key: &K, signer: bool) -> AI {
    account(key, &SYSTEM.to_bytes(), 1_000_000_000_000, &[], signer, true)
}
/// A not yet existing account.
pub fn fresh(key: &K) -> AI {
    account(key, &SYSTEM.to_bytes(), 0, &[], false, true)
}
pub fn bytes_of<T>(t: &T) -> &[u8] {
    unsafe { std::slice::from_raw_parts(t as *const T as *const u8, std::mem::size_of::<T>()) }
}
/// An account of presale: discriminator and zero-copy struct.
pub fn zc<T>(key: &K, owner: &K, disc: u64, t: &T, writable: bool) -> AI {
    let mut d = Vec::with_capacity(8 + std::mem::size_of::<T>());
    d.extend_from_slice(&disc.to_le_bytes());
    d.extend_from_slice(bytes_of(t));
    account(key, owner, 10_000_000, &d, false, writable)
}
pub fn data_ptr(a: &AI) -> *const u8 {
    let d = a.data.borrow();
    d.as_ptr()
}
pub fn read<T: Copy>(a: &AI) -> T {
    let d = a.data.borrow();
    if d.len() != 8 + std::mem::size_of::<T>() {
        sym::abort("account has an unexpected size");
    }
    unsafe { (d.as_ptr().add(8) as *const T).read_unaligned() }
}
pub fn disc_of(a: &AI) -> u64 {
    let d = a.data.borrow();
    unsafe { (d.as_ptr() as *const u64).read_unaligned() }
}
pub fn lamports(a: &AI) -> u64 {
    **a.lamports.borrow()
}

// ---------------------------------------------------------------- tokens
/// Transfer fee of a Token-2022 mint at one epoch.
#[derive(Clone, Copy)]
pub struct Fee {
    pub epoch: u64,
    pub max: u64,
    pub bps: u16,
}
pub fn mint_data(decimals: u8, fee: Option<(Fee, Fee)>) -> Vec<u8> {
    let mut d = vec![0u8; 82];
    d[36..44].copy_from_slice(&u64::MAX.to_le_bytes());
    d[44] = decimals;
    d[45] = 1;
    if let Some((old, new)) = fee {
        d.resize(165, 0);
        d.push(1);
        d.extend_from_slice(&1u16.to_le_bytes());
        d.extend_from_slice(&108u16.to_le_bytes());
        d.extend_from_slice(&[0u8; 72]);
        for f in [old, new] {
            d.extend_from_slice(&f.epoch.to_le_bytes());
            d.extend_from_slice(&f.max.to_le_bytes());
            d.extend_from_slice(&f.bps.to_le_bytes());
        }
    }
    d
}
/// A Token-2022 mint with the given extensions (type, body).
pub fn mint_ext(decimals: u8, exts: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut d = mint_data(decimals, None);
    d.resize(165, 0);
    d.push(1);
    for (t, b) in exts {
        d.extend_from_slice(&t.to_le_bytes());
        d.extend_from_slice(&(b.len() as u16).to_le_bytes());
        d.extend_from_slice(b);
    }
    d
}
/// A mint whose transfers call a hook program.
pub fn mint_hook(decimals: u8, hook: &K) -> Vec<u8> {
    let mut b = vec![0u8; 64];
    b[32..64].copy_from_slice(hook);
    mint_ext(decimals, &[(14, b)])
}
pub fn mint(key: &K, prog: &Pubkey, data: &[u8]) -> AI {
    account(key, &prog.to_bytes(), 1_461_600, data, false, true)
}
pub fn token_data(mint: &K, owner: &K, amount: u64) -> Vec<u8> {
    let mut d = vec![0u8; 165];
    d[0..32].copy_from_slice(mint);
    d[32..64].copy_from_slice(owner);
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    d
}
pub fn token(key: &K, prog: &K, mint: &K, owner: &K, amount: u64) -> AI {
    account(key, prog, 2_039_280, &token_data(mint, owner, amount), false, true)
}
/// A Token-2022 account with the memo-transfer extension; `flag` 1 demands a
/// memo in front of every incoming transfer.
pub fn token_memo(key: &K, prog: &K, mint: &K, owner: &K, amount: u64, flag: u8) -> AI {
    let mut d = token_data(mint, owner, amount);
    d.extend_from_slice(&[2, 8, 0, 1, 0, flag]);
    account(key, prog, 2_039_280, &d, false, true)
}
pub fn bal(a: &AI) -> u64 {
    let d = a.data.borrow();
    unsafe { (d.as_ptr().add(64) as *const u64).read_unaligned() }
}
fn set_bal(a: &AccountInfo, v: u64) {
    let mut d = a.data.borrow_mut();
    unsafe { (d.as_mut_ptr().add(64) as *mut u64).write_unaligned(v) }
}
fn k_at(a: &AccountInfo, off: usize) -> K {
    let d = a.data.borrow();
    let mut k = [0u8; 32];
    unsafe { std::ptr::copy_nonoverlapping(d.as_ptr().add(off), k.as_mut_ptr(), 32) };
    k
}
pub fn tok_mint(a: &AI) -> K {
    k_at(a, 0)
}
pub fn tok_owner(a: &AI) -> K {
    k_at(a, 32)
}

// ---------------------------------------------------------------- runtime state
pub struct Rt {
    pub now: u64,
    pub epoch: u64,
    pub transfers: u64,
    pub burns: u64,
    pub memos: u64,
    pub events: u64,
    pub event: [u8; 512],
    pub event_len: usize,
    pub cpis: u64,
    /// transfer fee of the mint in force at `epoch` (only read for fee mints)
    pub fee_bps: u16,
    pub fee_max: u64,
    pub fee_mint: u8,
    pub hook_accounts: u64,
    /// key of the account passed as the first extra account of the last transfer
    pub hook_first: K,
    pub last_transfer_data_len: u64,
    /// the last call of another program was a memo
    pub memo_pending: bool,
}
pub static mut RT: Rt = Rt {
    now: 0,
    epoch: 0,
    transfers: 0,
    burns: 0,
    memos: 0,
    events: 0,
    event: [0; 512],
    event_len: 0,
    cpis: 0,
    fee_bps: 0,
    fee_max: 0,
    fee_mint: 255,
    hook_accounts: 0,
    hook_first: [0; 32],
    last_transfer_data_len: 0,
    memo_pending: false,
};
#[allow(static_mut_refs)]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut RT }
}

struct Stubs;
/// Transfer fee the token program withholds from `amount`.
pub fn token_fee(bps: u16, max: u64, amount: u64) -> u64 {
    if bps == 0 {
        return 0;
    }
    let raw = ((amount as u128) * (bps as u128) + 9999) / 10000;
    sym::ite(raw < max as u128, raw as u64, max)
}
fn err<T>(n: u32) -> std::result::Result<T, ProgramError> {
    Err(ProgramError::Custom(0xBAD0 + n))
}

fn find<'a, 'b>(infos: &'a [AccountInfo<'b>], k: &Pubkey) -> std::result::Result<&'a AccountInfo<'b>, ProgramError> {
    for a in infos {
        if a.key as *const Pubkey == k as *const Pubkey || sym::eq32(&a.key.to_bytes(), &k.to_bytes()) {
            return Ok(a);
        }
    }
    Err(ProgramError::NotEnoughAccountKeys)
}

impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let p = p as *mut u64;
        unsafe {
            p.write(1);
            p.add(1).write(0);
            p.add(2).write(rt().epoch);
            p.add(3).write(0);
            p.add(4).write(rt().now);
        }
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe {
            (p as *mut u64).write(3480);
            (p.add(8) as *mut f64).write(2.0);
            p.add(16).write(50);
        }
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        rt().cpis += 1;
        // privileges: a signer of the callee signed the caller or is a PDA of presale
        for m in &ix.accounts {
            if m.is_signer || m.is_writable {
                let a = find(infos, &m.pubkey)?;
                if m.is_writable && !a.is_writable {
                    return Err(ProgramError::InvalidArgument);
                }
                if m.is_signer && !a.is_signer {
                    let mut ok = false;
                    for s in seeds {
                        let d = Pubkey::create_program_address(s, &presale::ID).map_err(|_| ProgramError::InvalidSeeds)?;
                        if sym::eq32(&d.to_bytes(), &m.pubkey.to_bytes()) {
                            ok = true;
                        }
                    }
                    if !ok {
                        return Err(ProgramError::MissingRequiredSignature);
                    }
                }
            }
        }
        let pid = ix.program_id;
        if pid == presale::ID {
            let r = rt();
            r.events += 1;
            let n = if ix.data.len() < 512 { ix.data.len() } else { 512 };
            r.event_len = n;
            unsafe { std::ptr::copy_nonoverlapping(ix.data.as_ptr(), r.event.as_mut_ptr(), n) };
            return Ok(());
        }
        if pid == MEMO {
            rt().memos += 1;
            rt().memo_pending = true;
            return Ok(());
        }
        if pid == SYSTEM {
            return system(ix, infos);
        }
        if pid == TOKEN || pid == TOKEN22 {
            let memo = rt().memo_pending;
            rt().memo_pending = false;
            return token_ix(ix, infos, memo);
        }
        Err(ProgramError::IncorrectProgramId)
    }
}

pub fn u64_at(d: &[u8], o: usize) -> u64 {
    unsafe { (d.as_ptr().add(o) as *const u64).read_unaligned() }
}
fn grow(a: &AccountInfo, n: usize) {
    // a new zeroed account body; 8 bytes of length precede the data
    let v: Vec<u128> = vec![0u128; n / 16 + 2];
    let p = v.leak().as_mut_ptr() as *mut u8;
    let s: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(p.add(8), n) };
    unsafe { *(p as *mut u64) = n as u64 };
    let s: &mut [u8] = unsafe { std::mem::transmute(s) };
    *a.data.borrow_mut() = s;
}
fn system(ix: &Instruction, infos: &[AccountInfo]) -> ProgramResult {
    let d = &ix.data;
    let tag = d[0] as u32 | (d[1] as u32) << 8;
    let mv = |from: &AccountInfo, to: &AccountInfo, n: u64| -> ProgramResult {
        let f = **from.lamports.borrow();
        if f < n {
            return err(1);
        }
        **from.lamports.borrow_mut() = f.wrapping_sub(n);
        let t = **to.lamports.borrow();
        **to.lamports.borrow_mut() = t.wrapping_add(n);
        Ok(())
    };
    match tag {
        0 => {
            let from = find(infos, &ix.accounts[0].pubkey)?;
            let to = find(infos, &ix.accounts[1].pubkey)?;
            if **to.lamports.borrow() != 0 || to.data.borrow().len() != 0 || *to.owner != SYSTEM {
                return err(2);
            }
            let space = u64_at(d, 12) as usize;
            mv(from, to, u64_at(d, 4))?;
            grow(to, space);
            to.assign(&key_at(d, 20));
            Ok(())
        }
        1 => {
            let a = find(infos, &ix.accounts[0].pubkey)?;
            if *a.owner != SYSTEM {
                return err(3);
            }
            a.assign(&key_at(d, 4));
            Ok(())
        }
        2 => {
            let from = find(infos, &ix.accounts[0].pubkey)?;
            let to = find(infos, &ix.accounts[1].pubkey)?;
            mv(from, to, u64_at(d, 4))
        }
        8 => {
            let a = find(infos, &ix.accounts[0].pubkey)?;
            if *a.owner != SYSTEM || a.data.borrow().len() != 0 {
                return err(4);
            }
            grow(a, u64_at(d, 4) as usize);
            Ok(())
        }
        _ => err(5),
    }
}
fn key_at(d: &[u8], o: usize) -> Pubkey {
    let mut k = [0u8; 32];
    k.copy_from_slice(&d[o..o + 32]);
    Pubkey::new_from_array(k)
}
fn is_fee_mint(k: &K) -> bool {
    let r = rt();
    r.fee_mint != 255 && sym::eq32(k, &kk(r.fee_mint))
}
fn token_ix(ix: &Instruction, infos: &[AccountInfo], memo: bool) -> ProgramResult {
    let d = &ix.data;
    match d[0] {
        // TransferChecked
        12 => {
            let src = find(infos, &ix.accounts[0].pubkey)?;
            let mint = find(infos, &ix.accounts[1].pubkey)?;
            let dst = find(infos, &ix.accounts[2].pubkey)?;
            let auth = &ix.accounts[3];
            // Unlike the real token program (which resolves the authority by position)
            // every account must really be a token account of the called program.
            if !sym::eq32(&src.owner.to_bytes(), &ix.program_id.to_bytes())
                | !sym::eq32(&dst.owner.to_bytes(), &ix.program_id.to_bytes())
                | !sym::eq32(&mint.owner.to_bytes(), &ix.program_id.to_bytes())
            {
                return err(10);
            }
            if !auth.is_signer {
                return err(11);
            }
            {
                let b = dst.data.borrow();
                if b.len() == 171 && b[166] == 8 && b[170] == 1 && !memo {
                    return err(17);
                }
            }
            let amount = u64_at(d, 1);
            let mk = mint.key.to_bytes();
            if !sym::eq32(&k_at(src, 0), &mk) | !sym::eq32(&k_at(dst, 0), &mk) {
                return err(12);
            }
            if mint.data.borrow()[44] != d[9] {
                return err(13);
            }
            if !sym::eq32(&k_at(src, 32), &auth.pubkey.to_bytes()) {
                return err(14);
            }
            let s = { u64_at(&src.data.borrow(), 64) };
            if s < amount {
                return err(15);
            }
            let r = rt();
            r.transfers += 1;
            r.hook_accounts = (ix.accounts.len() - 4) as u64;
            if ix.accounts.len() > 4 {
                r.hook_first = ix.accounts[4].pubkey.to_bytes();
            }
            if sym::eq32(&src.key.to_bytes(), &dst.key.to_bytes()) {
                return Ok(());
            }
            let fee = if is_fee_mint(&mk) { token_fee(r.fee_bps, r.fee_max, amount) } else { 0 };
            set_bal(src, s.wrapping_sub(amount));
            let t = { u64_at(&dst.data.borrow(), 64) };
            let n = t.wrapping_add(amount.wrapping_sub(fee));
            if n < t {
                return err(16);
            }
            set_bal(dst, n);
            Ok(())
        }
        // Burn
        8 => {
            let src = find(infos, &ix.accounts[0].pubkey)?;
            let mint = find(infos, &ix.accounts[1].pubkey)?;
            let auth = &ix.accounts[2];
            if !sym::eq32(&src.owner.to_bytes(), &ix.program_id.to_bytes()) | !sym::eq32(&mint.owner.to_bytes(), &ix.program_id.to_bytes()) {
                return err(10);
            }
            if !auth.is_signer | !sym::eq32(&k_at(src, 32), &auth.pubkey.to_bytes()) {
                return err(14);
            }
            if !sym::eq32(&k_at(src, 0), &mint.key.to_bytes()) {
                return err(12);
            }
            let amount = u64_at(d, 1);
            let s = { u64_at(&src.data.borrow(), 64) };
            let sup = { u64_at(&mint.data.borrow(), 36) };
            if (s < amount) | (sup < amount) {
                return err(15);
            }
            rt().burns += 1;
            set_bal(src, s.wrapping_sub(amount));
            unsafe { (mint.data.borrow_mut().as_mut_ptr().add(36) as *mut u64).write_unaligned(sup.wrapping_sub(amount)) };
            Ok(())
        }
        // InitializeAccount3
        18 => {
            let a = find(infos, &ix.accounts[0].pubkey)?;
            let mint = find(infos, &ix.accounts[1].pubkey)?;
            if *a.owner != ix.program_id || *mint.owner != ix.program_id || a.data.borrow().len() < 165 {
                return err(20);
            }
            let mk = mint.key.to_bytes();
            let mut b = a.data.borrow_mut();
            if b[108] != 0 {
                return err(21);
            }
            b[0..32].copy_from_slice(&mk);
            b[32..64].copy_from_slice(&d[1..33]);
            b[108] = 1;
            if b.len() > 165 {
                b[165] = 2;
            }
            Ok(())
        }
        // InitializeImmutableOwner
        22 => Ok(()),
        _ => err(30),
    }
}

pub fn boot() {
    set_syscall_stubs(Box::new(Stubs));
}

/// Calls presale's entry point.
pub fn call(disc: u64, args: &[u8], accs: Vec<AI>) -> bool {
    let mut d = Vec::with_capacity(8 + args.len());
    d.extend_from_slice(&disc.to_le_bytes());
    d.extend_from_slice(args);
    let accs: &'static [AI] = accs.leak();
    let r = presale::entry(&presale::ID, accs, d.leak());
    match r {
        Ok(()) => true,
        Err(e) => {
            if let ProgramError::Custom(c) = e {
                rt().last_transfer_data_len = c as u64;
            } else {
                rt().last_transfer_data_len = u64::MAX;
            }
            false
        }
    }
}
pub fn last_error() -> u64 {
    rt().last_transfer_data_len
}
pub fn event_authority() -> AI {
    let (k, _) = Pubkey::find_program_address(&[b"__event_authority"], &presale::ID);
    account(&k.to_bytes(), &SYSTEM.to_bytes(), 0, &[], false, false)
}

/// The last event is of kind `d` and has `len` bytes of fields.
pub fn ev_is(d: u64, len: usize) -> bool {
    let r = rt();
    // the tag anchor puts in front of every event
    (u64_at(&r.event, 0) == 0x1d9acb512ea545e4) & (u64_at(&r.event, 8) == d) & (r.event_len == 16 + len)
}
/// Field of the last event at byte `off`.
pub fn ev64(off: usize) -> u64 {
    u64_at(&rt().event, 16 + off)
}
pub fn ev_key(off: usize) -> K {
    let mut k = [0u8; 32];
    unsafe { std::ptr::copy_nonoverlapping(rt().event.as_ptr().add(16 + off), k.as_mut_ptr(), 32) };
    k
}
pub fn ev8(off: usize) -> u8 {
    rt().event[16 + off]
}
