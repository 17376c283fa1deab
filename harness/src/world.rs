//! Symbolic presale states: on-chain layouts, the state invariant the checks
//! assume before and assert after every instruction, and reference formulas.
use crate::disc::*;
use crate::svm::*;
use crate::sym;
use crate::sym::*;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct R {
    pub supply: u64,
    pub deposit: u64,
    pub escrows: u64,
    pub claimed: u64,
    pub refunded: u64,
    pub bmin: u64,
    pub bmax: u64,
    pub fee: u64,
    pub fee_bps: u16,
    pub pad: [u8; 14],
    pub pad1: [u128; 5],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct P {
    pub owner: K,
    pub quote_mint: K,
    pub base_mint: K,
    pub base_vault: K,
    pub quote_vault: K,
    pub base: K,
    pub pad0: u8,
    pub mode: u8,
    pub wl: u8,
    pub pad1: [u8; 5],
    pub max_cap: u64,
    pub min_cap: u64,
    pub start: u64,
    pub end: u64,
    pub supply: u64,
    pub deposit: u64,
    pub escrows: u64,
    pub created_at: u64,
    pub lock: u64,
    pub vest: u64,
    pub imm_ts: u64,
    pub pad2: u64,
    pub vs: u64,
    pub ve: u64,
    pub claimed: u64,
    pub refunded: u64,
    pub fee: u64,
    pub fee_collected: u8,
    pub pad3: [u8; 7],
    pub creator_withdrawn: u8,
    pub base_flag: u8,
    pub quote_flag: u8,
    pub nreg: u8,
    pub unsold: u8,
    pub unsold_done: u8,
    pub imm_bps: u16,
    /// fixed price: q_price; fcfs: byte 0 is the early-end opt-out
    pub raw0: u128,
    /// fixed price: byte 0 disables withdrawals, byte 1 disables the early end
    pub raw1: [u8; 16],
    pub raw2: u128,
    pub pad4: [u128; 4],
    pub r: [R; 5],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct E {
    pub presale: K,
    pub owner: K,
    pub deposit: u64,
    pub claimed: u64,
    pub refunded: u8,
    pub idx: u8,
    pub pad0: [u8; 6],
    pub pending: u64,
    pub cap: u64,
    pub created_at: u64,
    pub fee: u64,
    pub refreshed: u64,
    pub pad: [u64; 8],
}
const _: () = assert!(std::mem::size_of::<P>() == 1264 && std::mem::size_of::<E>() == 192);

pub const FIXED: u8 = 0;
pub const PRORATA: u8 = 1;
pub const FCFS: u8 = 2;

/// Times are below 2^48 seconds (nine million years).
pub const T_MAX: u64 = 1 << 48;

pub struct Cfg {
    pub mode: u8,
    pub nreg: usize,
    pub idx: usize,
    /// account links (stored keys, signers, owners) are symbolic
    pub auth: bool,
    pub t22: bool,
}
pub fn cfg() -> Cfg {
    let mode = param("mode", 2) as u8;
    let nreg = param("nreg", 1) as usize;
    let idx = param("idx", 0) as usize;
    Cfg { mode, nreg, idx, auth: param("auth", 0) == 1, t22: param("t22", 0) == 1 }
}

fn nm(a: &str, i: usize) -> &'static str {
    // names of registry fields: r0.supply ...
    let mut v = Vec::with_capacity(a.len() + 3);
    v.push(b'r');
    v.push(b'0' + i as u8);
    v.push(b'.');
    v.extend_from_slice(a.as_bytes());
    let v: &'static mut [u8] = v.leak();
    unsafe { std::str::from_utf8_unchecked(v) }
}

pub fn zero_p() -> P {
    unsafe { std::mem::zeroed() }
}
pub fn zero_e() -> E {
    unsafe { std::mem::zeroed() }
}

pub const PRESALE: u8 = 1;
pub const ESCROW: u8 = 2;
pub const QMINT: u8 = 3;
pub const BMINT: u8 = 4;
pub const QVAULT: u8 = 5;
pub const BVAULT: u8 = 6;
pub const CREATOR: u8 = 7;
pub const BUYER: u8 = 8;
pub const BUYER_TOK: u8 = 9;
pub const PAYER: u8 = 10;
pub const PAYER_TOK: u8 = 11;
pub const BASEKEY: u8 = 12;
pub const CREATOR_TOK: u8 = 13;
pub const RENT: u8 = 14;
pub const ESCROW2: u8 = 15;
pub const BUYER2: u8 = 16;
pub const HOOK: u8 = 17;

pub fn authority_key() -> K {
    presale::presale_authority::ID.to_bytes()
}

/// Any presale state that satisfies the invariant `inv` (see there).
pub fn sym_presale(c: &Cfg) -> P {
    let mut p = zero_p();
    p.owner = kk(CREATOR);
    p.quote_mint = kk(QMINT);
    p.base_mint = kk(BMINT);
    p.quote_vault = kk(QVAULT);
    p.base_vault = kk(BVAULT);
    p.base = kk(BASEKEY);
    p.mode = c.mode;
    // several registries only with a whitelist
    p.wl = int("wl", (c.nreg > 1) as u64, 2) as u8;
    p.base_flag = c.t22 as u8;
    p.quote_flag = c.t22 as u8;
    p.max_cap = u64v("max_cap");
    p.min_cap = u64v("min_cap");
    p.start = int("start", 0, T_MAX);
    p.end = int("end", 0, T_MAX);
    p.created_at = int("created_at", 0, T_MAX);
    let vk = param("vesting", 2);
    // 0: no vesting configured, 1: configured, 2: either
    let has_vest = if vk == 2 { int("has_vesting", 0, 1) } else { vk };
    if vk != 0 {
        p.lock = int("lock", 0, 315_360_000);
        p.vest = int("vest", 0, 315_360_000);
        p.imm_bps = int("imm_bps", 0, 10000) as u16;
        p.imm_ts = int("imm_ts", 0, T_MAX * 2);
        let lv = p.lock.wrapping_add(p.vest);
        // without vesting args the vesting fields stay zero, until an early end writes them
        let early = int("ended_early", 0, 1) == 1;
        let novest = (p.lock == 0) & (p.vest == 0) & (p.imm_bps == 0);
        let vs_n = ite(early, p.end, 0);
        p.vs = ite(has_vest == 1, p.end.wrapping_add(p.lock), vs_n);
        p.ve = ite(has_vest == 1, p.end.wrapping_add(lv), vs_n);
        assume(((has_vest == 1) & (lv < 315_360_000)) | ((has_vest == 0) & novest & (p.imm_ts == vs_n)));
        let ok_ts = (p.imm_ts == 0) | ((p.imm_ts >= p.end) & (p.imm_ts <= p.ve));
        let full = p.imm_bps == 10000;
        assume((has_vest == 0) | (ok_ts & (!full | (lv == 0)) & (full | (lv > 0))));
    }
    let mut sup = 0u64;
    let mut dep = 0u64;
    let mut fee = 0u64;
    let mut esc = 0u64;
    let mut cl = 0u64;
    let mut rf = 0u64;
    let mut i = 0;
    let mut ok = true;
    while i < c.nreg {
        let q = &mut p.r[i];
        q.supply = int(nm("supply", i), 1, u64::MAX);
        q.deposit = u64v(nm("deposit", i));
        q.fee = u64v(nm("fee", i));
        q.escrows = u64v(nm("escrows", i));
        q.claimed = u64v(nm("claimed", i));
        q.refunded = u64v(nm("refunded", i));
        q.bmin = u64v(nm("bmin", i));
        q.bmax = int(nm("bmax", i), 1, u64::MAX);
        q.fee_bps = int(nm("fee_bps", i), 0, 5000) as u16;
        ok &= (q.bmin <= q.bmax) & (q.bmax <= p.max_cap);
        // reserved bytes may hold anything
        q.pad1[0] = int("reserved.r", 0, u64::MAX) as u128;
        q.pad[13] = int("reserved.rb", 0, 255) as u8;
        let mut add = |a: &mut u64, b: u64| {
            let n = a.wrapping_add(b);
            ok &= n >= b;
            *a = n;
        };
        add(&mut sup, q.supply);
        add(&mut dep, q.deposit);
        add(&mut fee, q.fee);
        add(&mut esc, q.escrows);
        add(&mut cl, q.claimed);
        add(&mut rf, q.refunded);
        i += 1;
    }
    p.supply = sup;
    p.deposit = dep;
    p.fee = fee;
    p.escrows = esc;
    p.claimed = cl;
    p.refunded = rf;
    p.nreg = c.nreg as u8;
    // recorded deposits plus fees came in through one u64 token balance
    let tot = dep.wrapping_add(fee);
    ok &= tot >= dep;
    assume(ok & (p.min_cap > 0) & (p.min_cap <= p.max_cap) & (p.start < p.end));
    if c.mode != PRORATA {
        assume(p.deposit <= p.max_cap);
    }
    if c.mode == FIXED {
        p.raw0 = u128r("q_price", 1, u128::MAX);
        p.raw1[0] = int("disable_withdraw", 0, 1) as u8;
        p.raw1[1] = int("disable_early_end", 0, 1) as u8;
        // supply suffices for the maximum cap, each buyer limit buys something
        let mx = bought(p.raw0, p.max_cap);
        assume(mx <= p.supply as u128);
        let mut i = 0;
        while i < c.nreg {
            assume(bought(p.raw0, p.r[i].bmin) > 0);
            i += 1;
        }
    } else if c.mode == FCFS {
        p.raw0 = int("disable_early_end", 0, 1) as u128;
    }
    p.pad0 = int("reserved.p0", 0, 255) as u8;
    p.pad1[0] = int("reserved.p1", 0, 255) as u8;
    p.pad2 = u64v("reserved.p2");
    p.pad3[0] = int("reserved.p3", 0, 255) as u8;
    p.pad4 = [u64v("reserved.p4") as u128; 4];
    p.creator_withdrawn = int("creator_withdrawn", 0, 1) as u8;
    p.fee_collected = int("fee_collected", 0, 1) as u8;
    p.unsold = int("unsold", 0, 255) as u8;
    p.unsold_done = int("unsold_done", 0, 1) as u8;
    p
}
/// Any escrow of registry `c.idx` consistent with the presale.
pub fn sym_escrow(c: &Cfg, p: &P) -> E {
    let r = p.r[c.idx];
    let mut e = zero_e();
    e.presale = kk(PRESALE);
    e.owner = kk(BUYER);
    e.idx = c.idx as u8;
    e.deposit = u64v("e.deposit");
    e.fee = u64v("e.fee");
    e.claimed = u64v("e.claimed");
    e.pending = u64v("e.pending");
    e.cap = u64v("e.cap");
    e.refunded = int("e.refunded", 0, 1) as u8;
    e.created_at = int("e.created_at", 0, T_MAX);
    e.refreshed = int("e.refreshed", 0, T_MAX);
    e.pad0[0] = int("reserved.e0", 0, 255) as u8;
    e.pad = [u64v("reserved.e"); 8];
    assume(
        (e.deposit <= r.deposit)
            & (e.fee <= r.fee)
            & (r.escrows > 0)
            & (e.cap > 0)
            & (e.cap >= r.bmin)
            & (e.cap <= r.bmax)
            & ((e.deposit == 0) | ((e.deposit >= r.bmin) & (e.deposit <= e.cap)))
            & (e.claimed <= r.claimed),
    );
    e
}

// ---------------------------------------------------------------- reference formulas
pub fn bought(q: u128, amount: u64) -> u128 {
    (((amount as u128) << 64)) / q
}
/// a*b/c rounded down; c > 0
pub fn muldiv(a: u64, b: u64, c: u64) -> u128 {
    (a as u128).wrapping_mul(b as u128) / (c as u128)
}
/// ceil(x / 2^64)
pub fn ceil_q(x: u128) -> u128 {
    x.div_ceil(1 << 64)
}

pub fn progress(p: &P, now: u64) -> (bool, bool, bool, bool) {
    let ns = now < p.start;
    let ongoing = !ns & (now < p.end);
    let ended = !ns & (now >= p.end);
    let ok = p.deposit >= p.min_cap;
    (ns, ongoing, ended & ok, ended & !ok)
}
/// Tokens sold by a registry (it has a deposit).
pub fn sold(p: &P, i: usize) -> u64 {
    let r = p.r[i];
    if p.mode == FIXED {
        // fits: r.deposit <= max_cap, and max_cap buys at most the supply
        sym::min(bought(p.raw0, r.deposit) as u64, r.supply)
    } else {
        r.supply
    }
}
/// Immediate and vested part of `s`.
pub fn parts(p: &P, s: u64) -> (u64, u64) {
    let im = muldiv(s, p.imm_bps as u64, 10000) as u64;
    (im, s.wrapping_sub(im))
}
/// Cumulative entitlement of a deposit `d` > 0 in registry `i` at time `t`
/// (registry deposits > 0).
pub fn entitled(p: &P, i: usize, d: u64, t: u64) -> u64 {
    let dep = p.r[i].deposit;
    let (im, v) = parts(p, sold(p, i));
    let a = if t >= p.imm_ts { muldiv(im, d, dep) as u64 } else { 0 };
    let b = if t < p.vs {
        0
    } else {
        let drip = if p.vest == 0 { v as u128 } else { muldiv(v, sym::min(t.wrapping_sub(p.vs), p.vest), p.vest) };
        (drip.wrapping_mul(d as u128) / (dep as u128)) as u64
    };
    a.wrapping_add(b)
}

// ---------------------------------------------------------------- accounts
pub struct W {
    pub p: P,
    pub e: E,
    pub presale: AI,
    pub escrow: AI,
    pub qmint: AI,
    pub bmint: AI,
    pub qvault: AI,
    pub bvault: AI,
    pub buyer: AI,
    pub buyer_q: AI,
    pub buyer_b: AI,
    pub payer: AI,
    pub payer_q: AI,
    pub creator: AI,
    pub creator_q: AI,
    pub creator_b: AI,
    pub authority: AI,
    pub tprog: AI,
    pub memo: AI,
    pub ev: AI,
    pub prog: AI,
    pub links: Vec<Link>,
}
/// What must be equal after a successful instruction (account linking).
pub struct Link {
    pub what: &'static str,
    pub got: K,
    pub want: K,
}

fn link(c: &Cfg, l: &mut Vec<Link>, what: &'static str, want: K) -> K {
    if c.auth {
        let got = key(what);
        l.push(Link { what, got, want });
        got
    } else {
        want
    }
}

/// The accounts of a presale with state `p` and an escrow `e`, with symbolic
/// vault balances.  With `c.auth` every link between them is a symbolic value.
pub fn world(c: &Cfg, mut p: P, mut e: E) -> W {
    boot();
    let mut l = Vec::new();
    rt().now = int("now", 0, T_MAX);
    let pid = presale::ID.to_bytes();
    let l1 = &mut l;
    p.owner = if param("fixowner", 0) == 1 { kk(CREATOR) } else { link(c, l1, "presale.owner", kk(CREATOR)) };
    p.quote_mint = link(c, l1, "presale.quote_mint", kk(QMINT));
    p.base_mint = link(c, l1, "presale.base_mint", kk(BMINT));
    p.quote_vault = link(c, l1, "presale.quote_vault", kk(QVAULT));
    p.base_vault = link(c, l1, "presale.base_vault", kk(BVAULT));
    e.presale = link(c, l1, "escrow.presale", kk(PRESALE));
    e.owner = link(c, l1, "escrow.owner", kk(BUYER));
    let p_owner = link(c, l1, "presale program", pid);
    let e_owner = link(c, l1, "escrow program", pid);
    let auth = link(c, l1, "authority", authority_key());
    let tp = if c.t22 { TOKEN22 } else { TOKEN };
    let tpk = tp.to_bytes();
    let fm = param("feemint", 0);
    let (mq, mb) = if fm != 0 {
        let old = Fee { epoch: u64v("fee.old.epoch"), max: u64v("fee.old.max"), bps: int("fee.old.bps", 0, 10000) as u16 };
        let new = Fee { epoch: u64v("fee.new.epoch"), max: u64v("fee.new.max"), bps: int("fee.new.bps", 0, 10000) as u16 };
        rt().epoch = u64v("epoch");
        let is_new = rt().epoch >= new.epoch;
        rt().fee_bps = ite(is_new, new.bps as u64, old.bps as u64) as u16;
        rt().fee_max = ite(is_new, new.max, old.max);
        rt().fee_mint = if fm == 1 { QMINT } else { BMINT };
        let (plain, with) = (mint_data(6, None), mint_data(6, Some((old, new))));
        if fm == 1 {
            (with, plain)
        } else {
            (plain, with)
        }
    } else if param("hook", 0) == 1 {
        (mint_hook(6, &kk(HOOK)), mint_data(9, None))
    } else if param("hook", 0) == 2 {
        (mint_data(6, None), mint_hook(9, &kk(HOOK)))
    } else {
        (mint_data(6, None), mint_data(9, None))
    };
    let memo = if param("memo", 0) == 1 { Some(int("memo flag", 0, 1) as u8) } else { None };
    let token_u = |k: u8, mint: u8, owner: u8| -> AI {
        match memo {
            Some(f) => token_memo(&kk(k), &tpk, &kk(mint), &kk(owner), 0, f),
            None => token(&kk(k), &tpk, &kk(mint), &kk(owner), 0),
        }
    };
    let signer = |n: &str| -> bool {
        if c.auth {
            int(n, 0, 1) == 1
        } else {
            true
        }
    };
    let pd = if c.auth { u64v("presale.disc") } else { ACC_PRESALE };
    let ed = if c.auth { u64v("escrow.disc") } else { ACC_ESCROW };
    let presale = zc(&kk(PRESALE), &p_owner, pd, &p, true);
    let escrow = zc(&kk(ESCROW), &e_owner, ed, &e, true);
    let qv = u64v("qvault");
    let bv = u64v("bvault");
    let ak = authority_key();
    W {
        presale,
        escrow,
        qmint: mint(&kk(QMINT), &tp, &mq),
        bmint: mint(&kk(BMINT), &tp, &mb),
        qvault: token(&kk(QVAULT), &tpk, &kk(QMINT), &ak, qv),
        bvault: token(&kk(BVAULT), &tpk, &kk(BMINT), &ak, bv),
        buyer: wallet(&kk(BUYER), signer("buyer.signer")),
        buyer_q: token_u(BUYER_TOK, QMINT, BUYER),
        buyer_b: token_u(BUYER_TOK, BMINT, BUYER),
        payer: wallet(&kk(PAYER), signer("payer.signer")),
        payer_q: token(&kk(PAYER_TOK), &tpk, &kk(QMINT), &kk(PAYER), u64::MAX),
        creator: wallet(&kk(CREATOR), signer("creator.signer")),
        creator_q: token_u(CREATOR_TOK, QMINT, CREATOR),
        creator_b: token_u(CREATOR_TOK, BMINT, CREATOR),
        authority: account(&auth, &SYSTEM.to_bytes(), 0, &[], false, false),
        tprog: program(&tp),
        memo: program(&MEMO),
        ev: event_authority(),
        prog: program(&presale::ID),
        links: l,
        p,
        e,
    }
}
impl W {
    pub fn p_now(&self) -> P {
        read::<P>(&self.presale)
    }
    pub fn e_now(&self) -> E {
        read::<E>(&self.escrow)
    }
    /// Which of the links hold?
    pub fn linked(&self, what: &str) -> bool {
        for l in &self.links {
            if l.what == what {
                return eq32(&l.got, &l.want);
            }
        }
        true
    }
}
pub const NO_SLICES: [u8; 4] = [0; 4];
pub fn amount_args(a: u64) -> Vec<u8> {
    let mut v = a.to_le_bytes().to_vec();
    v.extend_from_slice(&NO_SLICES);
    v
}
/// What a transfer of `amt` of a mint delivers, after the mint's own transfer fee.
pub fn net(mint: u8, amt: u64) -> u64 {
    let r = rt();
    if r.fee_mint == mint {
        amt.wrapping_sub(token_fee(r.fee_bps, r.fee_max, amt))
    } else {
        amt
    }
}
