//! Creating a presale.
use crate::disc::*;
use crate::h_setup::*;
use crate::svm::*;
use crate::sym;
use crate::sym::{active, assume, check, cover, eq32, int, ite, key, observe, param, u128r, u64v};
use crate::world::*;

pub const FXKEY: u8 = 31;
const DAY: u64 = 86_400;

fn nm(a: &str, i: usize) -> &'static str {
    let mut v = Vec::with_capacity(a.len() + 3);
    v.push(b'r');
    v.push(b'0' + i as u8);
    v.push(b'.');
    v.extend_from_slice(a.as_bytes());
    let v: &'static mut [u8] = v.leak();
    unsafe { std::str::from_utf8_unchecked(v) }
}
fn any(auth: bool, n: &str, want: K) -> K {
    if auth {
        key(n)
    } else {
        want
    }
}
fn flag(auth: bool, n: &str) -> bool {
    !auth || int(n, 0, 1) == 1
}

/// Any arguments: accepted exactly when sane, stored and funded faithfully.
#[no_mangle]
pub extern "C" fn h_init() {
    boot();
    let auth = param("auth", 0) == 1;
    let existing = param("existing", 0) == 1;
    let n = param("nreg", 1) as usize;
    let mode = param("mode", 2) as u8;
    let mode = if mode > 2 { int("mode", 3, 255) as u8 } else { mode };
    let vesting = param("vesting", 1) == 1;
    // 1: both mints under Token-2022, 2: only the base mint, 3: only the quote mint
    let t22 = param("t22", 0);
    let (tb, tq) = ((t22 == 1) | (t22 == 2), (t22 == 1) | (t22 == 3));
    rt().now = int("now", 0, T_MAX);
    let now = rt().now;

    // ---- arguments
    let max_cap = u64v("max_cap");
    let min_cap = u64v("min_cap");
    let start = u64v("start");
    let end = u64v("end");
    let wl = int("wl", 0, 255) as u8;
    let unsold = int("unsold", 0, 255) as u8;
    let early = int("disable_early_end", 0, 255) as u8;
    let (mut bps, mut lock, mut vest, mut imm_ts) = (0u64, 0u64, 0u64, 0u64);
    if vesting {
        bps = int("imm_bps", 0, 65535);
        lock = u64v("lock");
        vest = u64v("vest");
        imm_ts = u64v("imm_ts");
    }
    let mut args: Vec<u8> = Vec::new();
    for x in [max_cap, min_cap, start, end] {
        args.extend_from_slice(&x.to_le_bytes());
    }
    args.extend_from_slice(&[wl, mode, unsold, early]);
    args.extend_from_slice(&[0; 30]);
    args.extend_from_slice(&(bps as u16).to_le_bytes());
    for x in [lock, vest, imm_ts] {
        args.extend_from_slice(&x.to_le_bytes());
    }
    args.extend_from_slice(&[0; 24 + 32]);
    args.extend_from_slice(&(n as u32).to_le_bytes());
    let mut regs: Vec<(u64, u64, u64, u64)> = Vec::new();
    let mut i = 0;
    while i < n {
        let r = (u64v(nm("bmin", i)), u64v(nm("bmax", i)), u64v(nm("supply", i)), int(nm("fee_bps", i), 0, 65535));
        for x in [r.0, r.1, r.2] {
            args.extend_from_slice(&x.to_le_bytes());
        }
        args.extend_from_slice(&(r.3 as u16).to_le_bytes());
        args.extend_from_slice(&[0; 32]);
        regs.push(r);
        i += 1;
    }
    args.extend_from_slice(&NO_SLICES);

    // ---- accounts
    let tp = if tb { TOKEN22 } else { TOKEN };
    let qtp = if tq { TOKEN22 } else { TOKEN };
    let tpk = tp.to_bytes();
    let pid = presale::ID.to_bytes();
    let pkey = pda(&[b"presale", &kk(BASEKEY), &kk(BMINT), &kk(QMINT)]);
    let bv = pda(&[b"base_vault", &pkey]);
    let qv = pda(&[b"quote_vault", &pkey]);
    let akey = any(auth, "presale key", pkey);
    let bkey = any(auth, "base vault key", bv);
    let qkey = any(auth, "quote vault key", qv);
    let authority = any(auth, "authority", authority_key());
    let feemint = param("feemint", 0) == 1;
    let bd = if feemint {
        let old = Fee { epoch: u64v("fee.old.epoch"), max: u64v("fee.old.max"), bps: int("fee.old.bps", 0, 10000) as u16 };
        let new = Fee { epoch: u64v("fee.new.epoch"), max: u64v("fee.new.max"), bps: int("fee.new.bps", 0, 10000) as u16 };
        rt().epoch = u64v("epoch");
        let is_new = rt().epoch >= new.epoch;
        rt().fee_bps = ite(is_new, new.bps as u64, old.bps as u64) as u16;
        rt().fee_max = ite(is_new, new.max, old.max);
        rt().fee_mint = BMINT;
        mint_data(9, Some((old, new)))
    } else {
        mint_data(9, None)
    };
    let presale_ai = if existing { zc(&pkey, &pid, ACC_PRESALE, &zero_p(), true) } else { fresh(&akey) };
    let bvault = fresh(&bkey);
    let qvault = fresh(&qkey);
    let payer = wallet(&kk(PAYER), flag(auth, "payer.signer"));
    let base = wallet(&kk(BASEKEY), flag(auth, "base.signer"));
    let payer_b = token(&kk(PAYER_TOK), &tpk, &kk(BMINT), &kk(PAYER), u64::MAX);
    let mut acc = vec![
        mint(&kk(BMINT), &tp, &bd),
        presale_ai.clone(),
        account(&authority, &SYSTEM.to_bytes(), 0, &[], false, false),
        mint(&kk(QMINT), &qtp, &mint_data(6, None)),
        bvault.clone(),
        qvault.clone(),
        payer_b.clone(),
        wallet(&kk(CREATOR), false),
        base.clone(),
        payer.clone(),
        program(&tp),
        program(&qtp),
        program(&SYSTEM),
        event_authority(),
        program(&presale::ID),
    ];
    let q = if mode == FIXED { u128r("q_price", 0, u128::MAX) } else { 0 };
    let dw = int("disable_withdraw", 0, 1) as u8;
    let fx_presale = any(auth, "args.presale", pkey);
    let fx_prog = any(auth, "args program", pid);
    let fx_disc = if auth { u64v("args.disc") } else { ACC_FIXED_PRICE_PRESALE_EXTRA_ARGS };
    if mode == FIXED {
        let f = Fx { pad: [0; 15], disable_withdraw: dw, q_price: q, owner: kk(CREATOR), presale: fx_presale, pad1: [0; 4] };
        acc.push(zc(&kk(FXKEY), &fx_prog, fx_disc, &f, false));
    }

    // ---- what is sane
    let s = sym::max(start, now);
    let dur = end.wrapping_sub(s);
    let permissioned = (wl == 1) | (wl == 2);
    let mut sane = (max_cap >= min_cap) & (min_cap > 0) & (end > s) & (dur >= 60) & (dur <= 30 * DAY) & (s.wrapping_sub(now) <= 30 * DAY);
    sane &= (wl <= 2) & (mode <= 2) & (early <= 1) & (n >= 1) & (n <= 5) & (permissioned | (n <= 1));
    let mut supply = 0u64;
    for r in &regs {
        sane &= (r.1 >= r.0) & (r.1 > 0) & (r.1 <= max_cap) & (r.2 > 0) & (r.3 <= 5000);
        let t = supply.wrapping_add(r.2);
        sane &= t >= supply;
        supply = t;
        if (mode == PRORATA) | (mode == FCFS) {
            sane &= !permissioned | ((r.0 == 1) & (r.1 == max_cap));
        }
    }
    if vesting {
        let given = (bps != 0) | (lock != 0) | (vest != 0) | (imm_ts != 0);
        let lv = lock.wrapping_add(vest);
        let ok_lv = (lv >= lock) & (lv < 3650 * DAY) & (bps <= 10000);
        let full = (lock == 0) & (vest == 0) & ((imm_ts == 0) | (imm_ts == end));
        let ve = end.wrapping_add(lv);
        let part = (lv > 0) & ((imm_ts == 0) | ((imm_ts == end) & (bps == 0)) | ((imm_ts >= end) & (imm_ts <= ve) & (bps != 0)));
        sane &= !given | (ok_lv & (((bps == 10000) & full) | ((bps != 10000) & part)));
    }
    if mode == FIXED {
        if q == 0 {
            sane = false;
        } else {
            for r in &regs {
                let (a, b) = (bought(q, r.0), bought(q, r.1));
                sane &= (a > 0) & (b > 0) & (b <= u64::MAX as u128);
                sane &= !permissioned | (((r.0 as u128) == ceil_q(q)) & (r.1 == max_cap));
            }
            let m = bought(q, max_cap);
            sane &= (m <= supply as u128) & (m > bought(q, min_cap));
        }
    }
    if !auth && !existing {
        sym::nopanic("C20 initialization panics");
    }
    let ok = call(IX_INITIALIZE_PRESALE, &args, acc);
    observe("ok", ok as u64);
    if existing {
        check(!ok, "C20,C21 an existing presale is never initialized again");
        cover("* rejected");
        sym::end();
    }
    check(!ok | sane, "C20,C24 only a consistent sale is accepted");
    if !auth && !feemint {
        check(ok | !sane, "C20 a consistent sale can be created");
    }
    if !ok {
        cover("* rejected");
        sym::end();
    }
    sym::nopanic("");
    cover("* presale created");
    if auth {
        check(eq32(&akey, &pkey) & eq32(&bkey, &bv) & eq32(&qkey, &qv), "C21,C20 presale and vaults live at their derived addresses");
        check(eq32(&authority, &authority_key()), "C21,C20 the vaults belong to the program's authority");
        check(payer.is_signer & base.is_signer, "C21,C20 payer and base signed");
        if mode == FIXED {
            check(eq32(&fx_presale, &pkey), "C21,C20 the price arguments are those of this presale");
            check(eq32(&fx_prog, &pid) & (fx_disc == ACC_FIXED_PRICE_PRESALE_EXTRA_ARGS), "C21,C20 the price arguments are a program account");
        }
        sym::end();
    }
    let p = read::<P>(&presale_ai);
    check(disc_of(&presale_ai) == ACC_PRESALE, "C20 the presale account is typed");
    check(eq32(&owner_of(&presale_ai), &pid), "C20 the presale account belongs to the program");
    check(
        eq32(&p.owner, &kk(CREATOR)) & eq32(&p.quote_mint, &kk(QMINT)) & eq32(&p.base_mint, &kk(BMINT)) & eq32(&p.base_vault, &bv) & eq32(&p.quote_vault, &qv) & eq32(&p.base, &kk(BASEKEY)),
        "C20,C21,C13,C14,C15 creator, mints and vaults are recorded",
    );
    check((p.mode == mode) & (p.wl == wl) & (p.unsold == unsold) & (p.max_cap == max_cap) & (p.min_cap == min_cap), "C20,C04,C08,C13,C15,C18 modes and caps are stored as given");
    check((p.start == s) & (p.end == end) & (p.created_at == now), "C20,C08 the sale window is stored as given, never starting in the past");
    let given = (bps != 0) | (lock != 0) | (vest != 0) | (imm_ts != 0);
    check((p.lock == lock) & (p.vest == vest) & (p.imm_bps as u64 == bps) & (p.imm_ts == imm_ts), "C20,C09,C17 the vesting terms are stored as given");
    check(
        (p.vs == ite(given, end.wrapping_add(lock), 0)) & (p.ve == ite(given, end.wrapping_add(lock).wrapping_add(vest), 0)),
        "C20,C09,C17 vesting runs from the end of the sale plus lock",
    );
    check((p.base_flag == tb as u8) & (p.quote_flag == tq as u8), "C20 token programs are recorded");
    check(eq32(&owner_of(&bvault), &tpk) & eq32(&owner_of(&qvault), &qtp.to_bytes()), "C20,C21 each vault lives under its mint's token program");
    check((p.supply == supply) & (p.nreg as usize == n), "C20,C02 the supply is the sum over registries");
    let mut same = true;
    let mut i = 0;
    while i < 5 {
        let (x, want) = (&p.r[i], if i < n { regs[i] } else { (0, 0, 0, 0) });
        same &= (x.bmin == want.0) & (x.bmax == want.1) & (x.supply == want.2) & (x.fee_bps as u64 == want.3);
        same &= (x.deposit == 0) & (x.fee == 0) & (x.escrows == 0) & (x.claimed == 0) & (x.refunded == 0);
        i += 1;
    }
    check(same, "C20,C25,C02,C04,C06 registries are stored as given, in order, with empty books");
    check(
        (p.deposit == 0) & (p.fee == 0) & (p.escrows == 0) & (p.claimed == 0) & (p.refunded == 0) & (p.fee_collected == 0) & (p.creator_withdrawn == 0) & (p.unsold_done == 0),
        "C20,C25,C13,C14,C15 a new presale has empty books",
    );
    if mode == FIXED {
        check((p.raw0 == q) & (p.raw1[0] == dw) & (p.raw1[1] == early), "C20,C05,C07,C17 price and options are stored as given");
    } else if mode == FCFS {
        check(p.raw0 == early as u128, "C20,C17 the early-end option is stored as given");
    }
    // funding
    let got = bal(&bvault);
    let paid = u64::MAX.wrapping_sub(bal(&payer_b));
    if feemint {
        let (fb, fm) = (rt().fee_bps, rt().fee_max);
        check(got >= supply, "C22,C20,C02 the vault receives the whole supply after the transfer fee");
        let less = paid.wrapping_sub(1);
        check(less.wrapping_sub(token_fee(fb, fm, less)) < supply, "C22 the creator is charged no more than needed");
    } else {
        check((got == supply) & (paid == supply), "C20,C02,C22 the vault receives exactly the supply");
    }
    check(bal(&qvault) == 0, "C20,C01 the quote vault starts empty");
    check(
        eq32(&tok_mint(&bvault), &kk(BMINT)) & eq32(&tok_owner(&bvault), &authority_key()) & eq32(&tok_mint(&qvault), &kk(QMINT)) & eq32(&tok_owner(&qvault), &authority_key()),
        "C20,C21 the vaults hold the presale's mints under the program's authority",
    );
    if active("C27") {
        let mut told = ev_is(EVT_PRESALE_VAULT_CREATE, 118 + 58 * n) & (rt().events == 1) & eq32(&ev_key(0), &kk(BMINT)) & eq32(&ev_key(32), &kk(QMINT)) & (ev64(64) as u32 as usize == n);
        let mut i = 0;
        while i < n {
            let o = 68 + 58 * i;
            told &= (ev64(o) == regs[i].0) & (ev64(o + 8) == regs[i].1) & (ev64(o + 16) == regs[i].2) & (ev64(o + 24) & 0xffff == regs[i].3);
            i += 1;
        }
        let o = 68 + 58 * n;
        told &= (ev64(o) == lock) & (ev64(o + 8) == vest) & (ev8(o + 16) == wl) & (ev8(o + 17) == mode);
        told &= ((ev64(o + 18) == start) | (ev64(o + 18) == s)) & (ev64(o + 26) == end) & (ev64(o + 34) == max_cap) & (ev64(o + 42) == min_cap);
        check(told, "C27 creating a presale emits its event with mints, registries, vesting, window and caps");
    }
    let _ = assume as fn(bool);
}
