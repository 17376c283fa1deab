//! Instructions of the running sale: deposit, withdraw.
use crate::disc::*;
use crate::svm::*;
use crate::sym;
use crate::sym::{active, assume, check, cover, int, ite, observe, param, u64v};
use crate::world::*;

pub fn registry_same(a: &R, b: &R) -> bool {
    (a.supply == b.supply)
        & (a.deposit == b.deposit)
        & (a.escrows == b.escrows)
        & (a.claimed == b.claimed)
        & (a.refunded == b.refunded)
        & (a.bmin == b.bmin)
        & (a.bmax == b.bmax)
        & (a.fee == b.fee)
        & (a.fee_bps == b.fee_bps)
}
/// Everything that no instruction after creation may change.
pub fn static_same(a: &P, b: &P) -> bool {
    let mut ok = sym::eq32(&a.owner, &b.owner)
        & sym::eq32(&a.quote_mint, &b.quote_mint)
        & sym::eq32(&a.base_mint, &b.base_mint)
        & sym::eq32(&a.base_vault, &b.base_vault)
        & sym::eq32(&a.quote_vault, &b.quote_vault)
        & sym::eq32(&a.base, &b.base)
        & (a.mode == b.mode)
        & (a.wl == b.wl)
        & (a.max_cap == b.max_cap)
        & (a.min_cap == b.min_cap)
        & (a.start == b.start)
        & (a.supply == b.supply)
        & (a.created_at == b.created_at)
        & (a.lock == b.lock)
        & (a.vest == b.vest)
        & (a.base_flag == b.base_flag)
        & (a.quote_flag == b.quote_flag)
        & (a.nreg == b.nreg)
        & (a.unsold == b.unsold)
        & (a.imm_bps == b.imm_bps)
        & (a.raw0 == b.raw0)
        & (a.raw1[0] == b.raw1[0])
        & (a.raw1[1] == b.raw1[1]);
    let mut i = 0;
    while i < 5 {
        ok &= (a.r[i].supply == b.r[i].supply) & (a.r[i].bmin == b.r[i].bmin) & (a.r[i].bmax == b.r[i].bmax) & (a.r[i].fee_bps == b.r[i].fee_bps);
        i += 1;
    }
    ok
}
pub fn times_same(a: &P, b: &P) -> bool {
    (a.start == b.start) & (a.end == b.end) & (a.vs == b.vs) & (a.ve == b.ve) & (a.imm_ts == b.imm_ts)
}
pub fn flags_same(a: &P, b: &P) -> bool {
    (a.creator_withdrawn == b.creator_withdrawn) & (a.fee_collected == b.fee_collected) & (a.unsold_done == b.unsold_done)
}
pub fn others_same(a: &P, b: &P, idx: usize) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < 5 {
        if i != idx {
            ok &= registry_same(&a.r[i], &b.r[i]);
        }
        i += 1;
    }
    ok
}
pub fn totals_are_sums(p: &P) -> bool {
    let (mut d, mut f, mut e, mut c, mut r) = (0u64, 0u64, 0u64, 0u64, 0u64);
    for x in p.r.iter() {
        d = d.wrapping_add(x.deposit);
        f = f.wrapping_add(x.fee);
        e = e.wrapping_add(x.escrows);
        c = c.wrapping_add(x.claimed);
        r = r.wrapping_add(x.refunded);
    }
    (p.deposit == d) & (p.fee == f) & (p.escrows == e) & (p.claimed == c) & (p.refunded == r)
}
pub fn escrow_identity_same(a: &E, b: &E) -> bool {
    sym::eq32(&a.presale, &b.presale) & sym::eq32(&a.owner, &b.owner) & (a.idx == b.idx) & (a.cap == b.cap) & (a.created_at == b.created_at)
}

pub fn deposit_accounts(w: &W) -> Vec<AI> {
    vec![
        w.presale.clone(),
        w.qvault.clone(),
        w.qmint.clone(),
        w.escrow.clone(),
        w.payer_q.clone(),
        w.payer.clone(),
        w.tprog.clone(),
        w.ev.clone(),
        w.prog.clone(),
    ]
}


/// Account linking after success (only informative when `c.auth`).
pub fn linked(w: &W, names: &[&str], m: &str) {
    for l in &w.links {
        for n in names {
            if l.what.len() == n.len() && l.what == *n {
                check(sym::eq32(&l.got, &l.want), m);
            }
        }
    }
}
pub fn typed(w: &W, c: &Cfg, with_escrow: bool) {
    if c.auth {
        linked(w, &["presale program"], "C21 the presale account is owned by the program");
        check(disc_of(&w.presale) == ACC_PRESALE, "C21 the presale account is a presale");
        if with_escrow {
            linked(w, &["escrow program"], "C21 the escrow account is owned by the program");
            check(disc_of(&w.escrow) == ACC_ESCROW, "C21 the escrow account is an escrow");
        }
    }
}
/// Deposit quota of an escrow before the mode's own trimming.
fn quota(c: &Cfg, p: &P, e: &E) -> u64 {
    let r = p.r[c.idx];
    let mut q = sym::sat_sub(sym::min(r.bmax, e.cap), e.deposit);
    if c.mode != PRORATA {
        q = sym::min(q, p.max_cap.wrapping_sub(p.deposit));
    }
    if c.mode == FIXED {
        let left = r.supply.wrapping_sub(sold(p, c.idx));
        // room of the registry in quote tokens; saturates
        let (x, big) = (left as u128).overflowing_mul(p.raw0);
        let n = ceil_q(x);
        let room = sym::ite(big | (n > u64::MAX as u128), u64::MAX, n as u64);
        q = sym::min(q, room);
    }
    q
}
#[no_mangle]
pub extern "C" fn h_deposit() {
    let c = cfg();
    let p0 = sym_presale(&c);
    let e0 = sym_escrow(&c, &p0);
    let w = world(&c, p0, e0);
    let (p0, e0) = (w.p, w.e);
    let now = rt().now;
    let (_, ongoing, _, _) = progress(&p0, now);
    let max_amount = u64v("max_amount");
    let vault0 = bal(&w.qvault);
    let payer0 = bal(&w.payer_q);
    let i = c.idx;
    let r0 = p0.r[i];
    // a deposit that fits: what the buyer is owed when asking for more than the quota
    let (mut fits, mut credit) = (false, None);
    let fm = param("feemint", 0) == 1;
    if !c.auth && ((active("C04") && !fm) || (active("C22") && fm)) {
        let q = quota(&c, &p0, &e0);
        let mut a = sym::min(q, max_amount);
        if c.mode == FIXED {
            a = ceil_q(bought(p0.raw0, a).wrapping_mul(p0.raw0)) as u64;
        }
        credit = Some(a);
        let tot = e0.deposit.wrapping_add(a);
        let big = a > (u64::MAX / 4);
        // sums stay within one u64 token balance
        let small = (p0.deposit < (1 << 62)) & (p0.fee < (1 << 61)) & (vault0 < (1 << 62)) & !big & (!fm | (rt().fee_max < (1 << 61)));
        fits = ongoing & (a > 0) & (tot >= r0.bmin) & small & (p0.deposit < p0.max_cap);
        if c.mode == PRORATA {
            fits = ongoing & (a > 0) & (tot >= r0.bmin) & small;
        }
        sym::nopanic("C04,C22 deposit panics");
    }
    let ok = call(IX_DEPOSIT, &amount_args(max_amount), deposit_accounts(&w));
    if !ok {
        cover("* deposit rejected");
        check(!fits, "C04,C22 a deposit that fits the limits (after cutting to the quota) is accepted");
        sym::end();
    }
    sym::nopanic("");
    cover("* deposit accepted");
    let p = w.p_now();
    let e = w.e_now();
    let amt = e.deposit.wrapping_sub(e0.deposit);
    let fee = e.fee.wrapping_sub(e0.fee);
    let r = p.r[i];
    observe("amt", amt);
    observe("fee", fee);
    observe("end", p.end);
    if c.auth {
        linked(&w, &["presale.quote_mint", "presale.quote_vault"], "C21 deposit goes to the presale's own vault and mint");
        linked(&w, &["escrow.presale"], "C21 deposit credits an escrow of this presale");
        typed(&w, &c, true);
        check(w.payer.is_signer, "C21,C03 the payer signed the deposit");
        sym::end();
    }
    check(ongoing, "C08 deposit accepted outside the ongoing phase");
    check((amt > 0) & (e.deposit > e0.deposit), "C03 deposit credits nothing");
    if let Some(a) = credit {
        check(amt == a, "C04 the request is cut down to exactly what buyer, registry and sale have room for");
    }
    check(amt <= max_amount, "C03 deposit credits more than asked for");
    check(
        (r.deposit == r0.deposit.wrapping_add(amt)) & (p.deposit == p0.deposit.wrapping_add(amt)) & (r.deposit > r0.deposit) & (p.deposit > p0.deposit),
        "C03,C25,C01 registry and presale deposit grow by the credited amount",
    );
    check(
        (r.fee == r0.fee.wrapping_add(fee)) & (p.fee == p0.fee.wrapping_add(fee)) & (e.fee >= e0.fee) & (r.fee >= r0.fee) & (p.fee >= p0.fee),
        "C03,C25,C01 registry and presale fee grow by the escrow's fee",
    );
    if active("C04") {
        let q = quota(&c, &p0, &e0);
        let a = sym::min(q, max_amount);
        if c.mode != FIXED {
            check(amt == a, "C04 the credited amount is the request cut to the quota");
        } else {
            check(amt <= a, "C04 the credited amount never exceeds the quota");
        }
    }
    if c.mode == FIXED && active("C05") {
        let q = quota(&c, &p0, &e0);
        let a = sym::min(q, max_amount);
        let tokens = bought(p0.raw0, a);
        check(amt as u128 == ceil_q(tokens.wrapping_mul(p0.raw0)), "C05 the credited amount is the price of a whole number of tokens");
    }
    if c.mode == FIXED && param("least", 0) == 1 && active("C05") {
        let a = max_amount;
        // the trimmed amount buys the same number of tokens as the request, and one less buys fewer
        assume(quota(&c, &p0, &e0) >= a);
        let n = bought(p0.raw0, a);
        check(bought(p0.raw0, amt) == n, "C05 trimming does not cost the buyer a token");
        check(bought(p0.raw0, amt.wrapping_sub(1)) < n, "C05 the buyer pays the least amount for these tokens");
    }
    let paid = payer0.wrapping_sub(bal(&w.payer_q));
    let got = bal(&w.qvault).wrapping_sub(vault0);
    let owed = (amt as u128).wrapping_add(fee as u128);
    observe("paid", paid);
    observe("got", got);
    if param("feemint", 0) == 0 {
        check(
            (paid as u128 == owed) & (got == paid) & (bal(&w.qvault) >= vault0) & (rt().transfers == 1),
            "C03,C22,C01 vault receives exactly deposit plus fee from the payer",
        );
    } else {
        let (fb, fm) = (rt().fee_bps, rt().fee_max);
        check((got as u128 >= owed) & (bal(&w.qvault) >= vault0), "C22,C01,C03 vault receives at least deposit plus fee after the transfer fee");
        check(rt().transfers == 1, "C22 one transfer");
        // one token less would leave the vault short
        let less = paid.wrapping_sub(1);
        let got_less = less.wrapping_sub(token_fee(fb, fm, less));
        check((paid == 0) | ((got_less as u128) < owed), "C22 the payer is charged no more than needed");
        check((fb != 0) | (paid as u128 == owed), "C22 without a transfer fee the payer is charged exactly");
    }
    if active("C06") {
        // gross = ceil(amt*10000/(10000-bps)):  gross*(10000-bps) >= amt*10000 > (gross-1)*(10000-bps)
        let den = 10000u128 - r0.fee_bps as u128;
        let gross = ((amt as u128) * 10000 + (den - 1)) / den;
        check(gross == owed, "C06 fee is the advertised share of the gross payment");
        check((r0.fee_bps != 0) | (fee == 0), "C06 no fee without a fee rate");
    }
    check(
        ev_is(EVT_DEPOSIT, 128) & (rt().events == 1) & sym::eq32(&ev_key(0), &kk(PRESALE)) & sym::eq32(&ev_key(32), &kk(ESCROW)),
        "C27 a deposit emits its event, for its presale and escrow",
    );
    check(
        (ev64(64) == amt) & (ev64(72) == e.deposit) & (ev64(80) == p.deposit) & (ev64(120) == fee),
        "C27 the deposit event reports amount, fee and totals",
    );
    check(static_same(&p0, &p) & flags_same(&p0, &p), "C03,C25 deposit changes nothing else in the presale");
    check(others_same(&p0, &p, i), "C25,C03 deposit leaves other registries alone");
    check(totals_are_sums(&p), "C25 totals are the sums over registries");
    check(
        (r.escrows == r0.escrows) & (p.escrows == p0.escrows) & (r.claimed == r0.claimed) & (r.refunded == r0.refunded) & (p.claimed == p0.claimed) & (p.refunded == p0.refunded),
        "C03 deposit changes no other counter",
    );
    check(
        escrow_identity_same(&e0, &e) & (e.claimed == e0.claimed) & (e.pending == e0.pending) & (e.refunded == e0.refunded),
        "C03 deposit changes nothing else in the escrow",
    );
    check((e.deposit >= r0.bmin) & (e.deposit <= r0.bmax) & (e.deposit <= e0.cap), "C04 escrow total lies within the buyer limits");
    if c.mode != PRORATA {
        check(p.deposit <= p0.max_cap, "C04 total deposits stay within the maximum cap");
    }
    let optout = if c.mode == FIXED { p0.raw1[1] != 0 } else { p0.raw0 as u8 != 0 };
    if c.mode == PRORATA {
        check(times_same(&p0, &p), "C17 pro-rata deposits never move the schedule");
    } else {
        let full = (p.deposit >= p0.max_cap) & !optout;
        check(!full | (p.end == now), "C17 reaching the cap ends the sale now");
        check(
            !full | ((p.vs == now.wrapping_add(p0.lock)) & (p.ve == now.wrapping_add(p0.lock).wrapping_add(p0.vest))),
            "C17 vesting keeps its lock and duration after an early end",
        );
        check(
            !full | (p.imm_ts == now.wrapping_add(sym::sat_sub(p0.imm_ts, p0.end))),
            "C17 immediate release keeps its distance from the end",
        );
        check(full | times_same(&p0, &p), "C17 without reaching the cap the schedule stays");
        check(p.end <= p0.end, "C17 the end never moves later");
    }
}

/// Fee monotonicity: the fee math of two deposits with ordered amount and rate.
#[no_mangle]
pub extern "C" fn h_fee_mono() {
    let c = cfg();
    let mut p0 = sym_presale(&c);
    p0.r[1] = p0.r[0];
    let b2 = int("fee_bps2", 0, 5000) as u16;
    assume(p0.r[0].fee_bps <= b2);
    let e0 = sym_escrow(&c, &p0);
    let mut pb = p0;
    pb.r[0].fee_bps = b2;
    let w = world(&c, p0, e0);
    let p2 = zc(&kk(PRESALE), &presale::ID.to_bytes(), ACC_PRESALE, &pb, true);
    let e2 = zc(&kk(ESCROW), &presale::ID.to_bytes(), ACC_ESCROW, &e0, true);
    let a1 = u64v("max_amount");
    let a2 = u64v("max_amount2");
    assume(a1 <= a2);
    let v0 = bal(&w.qvault);
    if !call(IX_DEPOSIT, &amount_args(a1), deposit_accounts(&w)) {
        sym::end();
    }
    let v1 = bal(&w.qvault);
    let mut acc = deposit_accounts(&w);
    acc[0] = p2;
    acc[3] = e2.clone();
    if !call(IX_DEPOSIT, &amount_args(a2), acc) {
        sym::end();
    }
    cover("* two deposits accepted");
    let ea = w.e_now();
    let eb: E = read(&e2);
    let f1 = ea.fee.wrapping_sub(e0.fee);
    let f2 = eb.fee.wrapping_sub(e0.fee);
    observe("f1", f1);
    observe("f2", f2);
    check(f1 <= f2, "C06 the fee never decreases when amount or rate grows");
    let _ = (v0, v1);
}

pub fn withdraw_accounts(w: &W) -> Vec<AI> {
    vec![
        w.presale.clone(),
        w.qvault.clone(),
        w.qmint.clone(),
        w.authority.clone(),
        w.escrow.clone(),
        w.buyer_q.clone(),
        w.buyer.clone(),
        w.tprog.clone(),
        w.memo.clone(),
        w.ev.clone(),
        w.prog.clone(),
    ]
}

#[no_mangle]
pub extern "C" fn h_withdraw() {
    let c = cfg();
    let p0 = sym_presale(&c);
    let e0 = sym_escrow(&c, &p0);
    let w = world(&c, p0, e0);
    let (p0, e0) = (w.p, w.e);
    let now = rt().now;
    let (_, ongoing, _, _) = progress(&p0, now);
    let max_amount = u64v("max_amount");
    let vault0 = bal(&w.qvault);
    let i = c.idx;
    let r0 = p0.r[i];
    let mut fits = false;
    let disabled = (c.mode == FCFS) | ((c.mode == FIXED) & (p0.raw1[0] != 0));
    if !c.auth && (active("C24") || active("C07")) {
        // the vault covers the recorded deposits
        assume(vault0 >= p0.deposit);
        fits = ongoing & !disabled & (max_amount == e0.deposit) & (e0.deposit > 0);
        sym::nopanic("C24,C07 withdraw panics");
    }
    let ok = call(IX_WITHDRAW, &amount_args(max_amount), withdraw_accounts(&w));
    if !ok {
        cover("* withdraw rejected");
        check(!fits, "C24,C07 a buyer can withdraw the whole deposit while the sale is ongoing");
        check(
            !((c.mode == PRORATA) & ongoing & (max_amount > 0) & (max_amount <= e0.deposit) & (e0.deposit.wrapping_sub(max_amount) >= r0.bmin) & (vault0 >= max_amount)) | c.auth,
            "C07 a partial withdrawal that leaves at least the minimum is accepted",
        );
        sym::end();
    }
    sym::nopanic("");
    cover("* withdraw accepted");
    let p = w.p_now();
    let e = w.e_now();
    let r = p.r[i];
    let amt = e0.deposit.wrapping_sub(e.deposit);
    observe("amt", amt);
    if c.auth {
        linked(&w, &["presale.quote_mint", "presale.quote_vault"], "C21 withdrawals come from the presale's own vault and mint");
        linked(&w, &["escrow.presale"], "C21,C07 the escrow belongs to this presale");
        linked(&w, &["escrow.owner"], "C21,C07 only the escrow's owner withdraws");
        linked(&w, &["authority"], "C21 the vault authority is the program's");
        check(w.buyer.is_signer, "C21,C07 the escrow's owner signed the withdrawal");
        typed(&w, &c, true);
        sym::end();
    }
    check(ongoing, "C08,C07 withdrawal accepted outside the ongoing phase");
    check(!disabled, "C07 withdrawal accepted although the sale does not allow it");
    check((amt > 0) & (amt <= e0.deposit) & (e.deposit < e0.deposit), "C07 a withdrawal takes a positive amount, at most the deposit");
    check(amt <= max_amount, "C07 a withdrawal takes more than asked for");
    if c.mode != FIXED {
        check(amt == max_amount, "C07 a withdrawal takes exactly what was asked for");
    } else {
        check((max_amount != e0.deposit) | (amt == max_amount), "C05,C07 a full withdrawal returns the whole deposit");
        if active("C05") {
            let t = bought(p0.raw0, max_amount);
            check(
                (max_amount == e0.deposit) | (amt as u128 == ceil_q(t.wrapping_mul(p0.raw0))),
                "C05 a partial withdrawal is the price of a whole number of tokens",
            );
        }
    }
    check(
        (r.deposit == r0.deposit.wrapping_sub(amt)) & (p.deposit == p0.deposit.wrapping_sub(amt)) & (p.deposit < p0.deposit) & (r.deposit < r0.deposit),
        "C07,C01,C25 registry and presale deposits drop by the withdrawn amount",
    );
    check(
        (e.fee == e0.fee) & (r.fee == r0.fee) & (p.fee == p0.fee),
        "C07,C01,C25 a withdrawal leaves the charged fees alone",
    );
    let paid = vault0.wrapping_sub(bal(&w.qvault));
    check((paid == amt) & (vault0 >= paid) & (rt().transfers == 1), "C07,C01,C22 the vault pays exactly the withdrawn amount");
    check(bal(&w.buyer_q) == net(QMINT, amt), "C07,C22 the buyer receives the withdrawn amount");
    check(
        ev_is(EVT_WITHDRAW, 120) & (rt().events == 1) & sym::eq32(&ev_key(0), &kk(PRESALE)) & sym::eq32(&ev_key(32), &kk(ESCROW)) & sym::eq32(&ev_key(88), &kk(BUYER)),
        "C27 a withdrawal emits its event, for its presale, escrow and owner",
    );
    check((ev64(64) == net(QMINT, amt)) & (ev64(72) == e.deposit) & (ev64(80) == p.deposit), "C27 the withdrawal event reports amount and totals");
    check(static_same(&p0, &p) & flags_same(&p0, &p) & times_same(&p0, &p), "C07,C17,C25 a withdrawal changes nothing else in the presale");
    check(others_same(&p0, &p, i), "C25,C07 a withdrawal leaves other registries alone");
    check(totals_are_sums(&p), "C25 totals are the sums over registries");
    check(
        (r.escrows == r0.escrows) & (p.escrows == p0.escrows) & (r.claimed == r0.claimed) & (r.refunded == r0.refunded) & (p.claimed == p0.claimed) & (p.refunded == p0.refunded),
        "C07 a withdrawal changes no other counter",
    );
    check(
        escrow_identity_same(&e0, &e) & (e.claimed == e0.claimed) & (e.pending == e0.pending) & (e.refunded == e0.refunded),
        "C07 a withdrawal changes nothing else in the escrow",
    );
    check((e.deposit == 0) | ((e.deposit >= r0.bmin) & (e.deposit <= r0.bmax)), "C04,C07 what stays deposited is nothing or within the buyer limits");
    let _ = ite as fn(bool, u64, u64) -> u64;
}
