//! Instructions after the sale: claim, refresh, refund, creator withdrawal,
//! fee collection, unsold tokens, closing an escrow.
use crate::disc::*;
use crate::h_sale::*;
use crate::svm::*;
use crate::sym;
use crate::sym::{active, assume, check, cover, int, ite, observe, param, u64v};
use crate::world::*;

/// Entitlement of the escrow at `t` (0 without deposits).
pub fn due(p: &P, e: &E, i: usize, t: u64) -> u64 {
    if (e.deposit == 0) | (p.r[i].deposit == 0) {
        0
    } else {
        entitled(p, i, e.deposit, t)
    }
}
pub fn presale_same(a: &P, b: &P) -> bool {
    let mut ok = static_same(a, b) & times_same(a, b) & flags_same(a, b);
    ok &= (a.deposit == b.deposit) & (a.fee == b.fee) & (a.escrows == b.escrows) & (a.claimed == b.claimed) & (a.refunded == b.refunded);
    let mut i = 0;
    while i < 5 {
        ok &= registry_same(&a.r[i], &b.r[i]);
        i += 1;
    }
    ok
}
pub fn escrow_same(a: &E, b: &E) -> bool {
    escrow_identity_same(a, b)
        & (a.deposit == b.deposit)
        & (a.fee == b.fee)
        & (a.claimed == b.claimed)
        & (a.pending == b.pending)
        & (a.refunded == b.refunded)
}
pub fn claim_accounts(w: &W) -> Vec<AI> {
    vec![
        w.presale.clone(),
        w.bvault.clone(),
        w.bmint.clone(),
        w.authority.clone(),
        w.escrow.clone(),
        w.buyer_b.clone(),
        w.buyer.clone(),
        w.tprog.clone(),
        w.memo.clone(),
        w.ev.clone(),
        w.prog.clone(),
    ]
}
pub fn refund_accounts(w: &W) -> Vec<AI> {
    withdraw_accounts(w)
}
pub fn close_accounts(w: &W, rent: &AI) -> Vec<AI> {
    vec![w.presale.clone(), w.escrow.clone(), w.buyer.clone(), rent.clone(), w.ev.clone(), w.prog.clone()]
}

#[no_mangle]
pub extern "C" fn h_claim() {
    let c = cfg();
    let p0 = sym_presale(&c);
    let e0 = sym_escrow(&c, &p0);
    let w = world(&c, p0, e0);
    let (p0, e0) = (w.p, w.e);
    let i = c.idx;
    let r0 = p0.r[i];
    let now = rt().now;
    let (_, _, completed, _) = progress(&p0, now);
    let vault0 = bal(&w.bvault);
    let mut want = 0;
    if !c.auth {
        assume(completed | active("C08"));
        if completed {
            want = due(&p0, &e0, i, now);
            // earlier refreshes and claims gave at most what was due then
            let prior = e0.claimed.wrapping_add(e0.pending);
            assume((prior >= e0.claimed) & (prior <= want));
            if active("C24") || active("C10") {
                let more = want.wrapping_sub(e0.claimed);
                assume((vault0 >= more) & (r0.claimed <= r0.supply.wrapping_sub(more)) & (more <= r0.supply) & (p0.claimed <= p0.supply.wrapping_sub(more)));
                sym::nopanic("C24,C10 claim panics");
            }
        }
    }
    let ok = call(IX_CLAIM, &NO_SLICES, claim_accounts(&w));
    check(ok | !completed | c.auth, "C24,C10 a buyer can claim whenever the sale is completed");
    if !ok {
        cover("* claim rejected");
        sym::end();
    }
    sym::nopanic("");
    cover("* claim accepted");
    let p = w.p_now();
    let e = w.e_now();
    let r = p.r[i];
    if c.auth {
        linked(&w, &["presale.base_mint", "presale.base_vault"], "C21 claims come from the presale's own vault and mint");
        linked(&w, &["escrow.presale"], "C21,C10 the escrow belongs to this presale");
        linked(&w, &["escrow.owner"], "C21,C10 only the escrow's owner claims");
        linked(&w, &["authority"], "C21 the vault authority is the program's");
        check(w.buyer.is_signer, "C21,C10 the escrow's owner signed the claim");
        typed(&w, &c, true);
        sym::end();
    }
    check(completed, "C08 claim accepted although the sale is not completed");
    let paid = vault0.wrapping_sub(bal(&w.bvault));
    observe("paid", paid);
    observe("claimed", e.claimed);
    check(e.claimed == want, "C10,C09,C25 after a claim the buyer has received exactly the entitlement");
    check(e.pending == 0, "C10 nothing stays pending after a claim");
    check((paid == want.wrapping_sub(e0.claimed)) & (vault0 >= paid), "C10,C02,C22 the vault pays the difference to what was claimed before");
    check(bal(&w.buyer_b) == net(BMINT, paid), "C10,C22 the buyer receives the claimed tokens");
    check(
        (r.claimed == r0.claimed.wrapping_add(paid)) & (p.claimed == p0.claimed.wrapping_add(paid)) & (p.claimed >= p0.claimed) & (r.claimed >= r0.claimed),
        "C10,C25 registry and presale claims grow by the paid amount",
    );
    if active("C02") {
        let (d, dep) = (e0.deposit as u128, r0.deposit as u128);
        check(e.claimed as u128 * dep <= (sold(&p0, i) as u128) * d, "C02 a buyer never gets more than the share of the tokens sold");
        check(e.claimed <= r0.supply, "C02 a buyer never gets more than the registry's supply");
    }
    let mut q = p;
    q.claimed = p0.claimed;
    q.r[i].claimed = r0.claimed;
    check(presale_same(&p0, &q), "C10,C25,C02 a claim changes nothing else in the presale");
    check(totals_are_sums(&p), "C25 totals are the sums over registries");
    let mut f = e;
    f.claimed = e0.claimed;
    f.pending = e0.pending;
    check(escrow_same(&e0, &f), "C10 a claim changes nothing else in the escrow");
    check(
        ev_is(EVT_CLAIM, 120) & (rt().events == 1) & sym::eq32(&ev_key(0), &kk(PRESALE)) & sym::eq32(&ev_key(32), &kk(ESCROW)) & sym::eq32(&ev_key(88), &kk(BUYER)),
        "C27 a claim emits its event, for its presale, escrow and owner",
    );
    check((ev64(64) == net(BMINT, paid)) & (ev64(72) == e.claimed) & (ev64(80) == p.claimed), "C27 the claim event reports amount and totals");
    check((rt().transfers <= 1) & (rt().burns == 0), "C10,C02 a claim makes at most one transfer");
    if param("again", 0) == 1 {
        // a second claim, later
        let t2 = int("now2", 0, T_MAX);
        assume(t2 >= now);
        rt().now = t2;
        let v1 = bal(&w.bvault);
        let want2 = due(&p, &e, i, t2);
        let more = want2.wrapping_sub(e.claimed);
        assume((v1 >= more) & (more <= p.supply) & (p.claimed <= p.supply.wrapping_sub(more)) & (more <= r.supply) & (r.claimed <= r.supply.wrapping_sub(more)));
        let ok = call(IX_CLAIM, &NO_SLICES, claim_accounts(&w));
        check(ok, "C10 a later claim succeeds");
        cover("* second claim");
        let e2 = w.e_now();
        check(e2.claimed == want2, "C10 claiming in several steps pays the entitlement in total");
        check(v1.wrapping_sub(bal(&w.bvault)) == more, "C10 the second claim pays the difference");
    }
}

/// Refreshing an escrow at two times, starting from an untouched escrow.
#[no_mangle]
pub extern "C" fn h_vest() {
    let c = cfg();
    let p0 = sym_presale(&c);
    let mut e0 = sym_escrow(&c, &p0);
    e0.claimed = 0;
    e0.pending = 0;
    let w = world(&c, p0, e0);
    let (p0, e0) = (w.p, w.e);
    let i = c.idx;
    let t1 = rt().now;
    let (_, _, completed, _) = progress(&p0, t1);
    assume(completed & (e0.deposit > 0));
    let dep = p0.r[i].deposit as u128;
    let d = e0.deposit as u128;
    let s = sold(&p0, i);
    sym::nopanic("C09 refresh panics");
    let ok = call(IX_REFRESH_ESCROW, &[], vec![w.presale.clone(), w.escrow.clone(), w.ev.clone(), w.prog.clone()]);
    check(ok, "C09,C24 an escrow can be refreshed after completion");
    cover("* refreshed");
    let e1 = w.e_now();
    let x1 = e1.pending;
    observe("x1", x1);
    let kind = param("kind", 0);
    if kind == 0 {
        check(x1 == entitled(&p0, i, e0.deposit, t1), "C09 the entitlement follows the advertised schedule");
        check((t1 >= p0.imm_ts) | (t1 >= p0.vs) | (x1 == 0), "C09 nothing is released before lock and immediate release");
        let (im, _) = parts(&p0, s);
        check((t1 >= p0.vs) | (x1 as u128 * dep <= im as u128 * d), "C09 before vesting starts at most the immediate share is released");
        check((t1 >= p0.imm_ts) | (x1 as u128 * dep <= (s.wrapping_sub(im)) as u128 * d), "C09 before the immediate release only vested tokens are released");
    }
    if kind == 1 {
        check(x1 as u128 * dep <= s as u128 * d, "C09,C02 the entitlement never exceeds the full share");
        let full = (t1 >= p0.vs.wrapping_add(p0.vest)) & (t1 >= p0.imm_ts);
        // two roundings, each below one token
        check(!full | ((x1 as u128 + 2) * dep > s as u128 * d), "C09 at the end of vesting the full share is released");
    }
    if kind == 2 {
        let t2 = int("t2", 0, T_MAX);
        assume(t2 >= t1);
        rt().now = t2;
        let ok = call(IX_REFRESH_ESCROW, &[], vec![w.presale.clone(), w.escrow.clone(), w.ev.clone(), w.prog.clone()]);
        check(ok, "C09,C24 an escrow can be refreshed again later");
        let x2 = w.e_now().pending;
        check(x2 >= x1, "C09 the entitlement never decreases");
        check(x2 == entitled(&p0, i, e0.deposit, t2), "C09,C10 repeated refreshing changes nothing about the total");
        cover("* refreshed twice");
    }
}

#[no_mangle]
pub extern "C" fn h_refresh() {
    let c = cfg();
    let p0 = sym_presale(&c);
    let e0 = sym_escrow(&c, &p0);
    let w = world(&c, p0, e0);
    let (p0, e0) = (w.p, w.e);
    let i = c.idx;
    let now = rt().now;
    let (_, _, completed, _) = progress(&p0, now);
    let mut want = 0;
    let prior = e0.claimed.wrapping_add(e0.pending);
    if !c.auth {
        assume(prior >= e0.claimed);
        if completed {
            want = due(&p0, &e0, i, now);
            assume(prior <= want);
        }
        sym::nopanic("C10,C24 refresh panics");
    }
    let ok = call(IX_REFRESH_ESCROW, &[], vec![w.presale.clone(), w.escrow.clone(), w.ev.clone(), w.prog.clone()]);
    check(ok | c.auth, "C10,C24 refreshing never fails");
    if !ok {
        sym::end();
    }
    sym::nopanic("");
    cover("* refresh accepted");
    let p = w.p_now();
    let e = w.e_now();
    if c.auth {
        linked(&w, &["escrow.presale"], "C21 the refreshed escrow belongs to this presale");
        typed(&w, &c, true);
        sym::end();
    }
    let exp = ite(completed, want.wrapping_sub(e0.claimed), e0.pending);
    check(e.pending == exp, "C10,C09,C25 refreshing books exactly the entitlement of the moment");
    check(e.claimed == e0.claimed, "C10 refreshing claims nothing");
    let mut f = e;
    f.pending = e0.pending;
    check(escrow_same(&e0, &f) & presale_same(&p0, &p), "C10,C25 refreshing changes nothing else");
    check(
        ev_is(EVT_ESCROW_REFRESH, 112) & (rt().events == 1) & sym::eq32(&ev_key(0), &kk(PRESALE)) & sym::eq32(&ev_key(32), &kk(ESCROW)) & sym::eq32(&ev_key(64), &kk(BUYER)),
        "C27 refreshing emits its event, for its presale, escrow and owner",
    );
    check((ev64(96) == now) & (ev64(104) == e.pending), "C27 the refresh event reports time and pending tokens");
    check((rt().transfers == 0) & (rt().burns == 0), "C10,C01,C02 refreshing moves no tokens");
}

/// Refund parts of a registry of an oversubscribed pro-rata sale:
/// (quote refunded, fee refunded)
pub fn registry_refund(p: &P, i: usize) -> (u64, u64) {
    let r = p.r[i];
    let over = sym::sat_sub(p.deposit, p.max_cap);
    if r.deposit == 0 {
        return (0, 0);
    }
    let a = muldiv(over, r.deposit, p.deposit) as u64;
    (a, muldiv(r.fee, a, r.deposit) as u64)
}
/// Refund of an escrow after the sale: (quote, fee)
pub fn refund_due(p: &P, e: &E, i: usize, failed: bool) -> (u64, u64) {
    if failed {
        return (e.deposit, e.fee);
    }
    let r = p.r[i];
    let (a, f) = registry_refund(p, i);
    let x = if r.deposit > 0 { muldiv(e.deposit, a, r.deposit) as u64 } else { 0 };
    let y = if r.fee > 0 { muldiv(e.fee, f, r.fee) as u64 } else { 0 };
    (x, y)
}

#[no_mangle]
pub extern "C" fn h_refund() {
    let c = cfg();
    let p0 = sym_presale(&c);
    let e0 = sym_escrow(&c, &p0);
    let w = world(&c, p0, e0);
    let (p0, e0) = (w.p, w.e);
    let i = c.idx;
    let r0 = p0.r[i];
    let now = rt().now;
    let (_, _, completed, failed) = progress(&p0, now);
    let open = failed | (completed & (c.mode == PRORATA));
    let vault0 = bal(&w.qvault);
    let (mut wa, mut wf) = (0, 0);
    let mut must = false;
    if !c.auth {
        match param("phase", 0) {
            1 => assume(failed),
            2 => assume(completed),
            _ => {}
        }
        if failed | completed {
            let (a, f) = refund_due(&p0, &e0, i, failed);
            wa = a;
            wf = f;
        }
        let tot = wa.wrapping_add(wf);
        // the vault covers this refund; other refunds came out of the same deposits
        let room = (tot >= wa) & (vault0 >= tot) & (p0.refunded <= u64::MAX - tot);
        must = open & (e0.refunded == 0) & room;
        sym::nopanic("C11,C12,C24 refund panics");
    }
    let ok = call(IX_WITHDRAW_REMAINING_QUOTE, &NO_SLICES, refund_accounts(&w));
    if !ok {
        cover("* refund rejected");
        check(!must, "C11,C12,C24 a refund that is due can be taken");
        sym::end();
    }
    sym::nopanic("");
    cover("* refund accepted");
    let p = w.p_now();
    let e = w.e_now();
    let r = p.r[i];
    if c.auth {
        linked(&w, &["presale.quote_mint", "presale.quote_vault"], "C21 refunds come from the presale's own vault and mint");
        linked(&w, &["escrow.presale"], "C21,C11 the escrow belongs to this presale");
        linked(&w, &["escrow.owner"], "C21,C11 only the escrow's owner takes the refund");
        linked(&w, &["authority"], "C21 the vault authority is the program's");
        check(w.buyer.is_signer, "C21,C11 the escrow's owner signed the refund");
        typed(&w, &c, true);
        sym::end();
    }
    check(open, "C08,C11,C12 refund accepted in the wrong phase or mode");
    check((e0.refunded == 0) & (e.refunded == 1), "C11,C12,C01 a refund is taken at most once");
    let paid = vault0.wrapping_sub(bal(&w.qvault));
    observe("paid", paid);
    let tot = wa.wrapping_add(wf);
    check((paid == tot) & (vault0 >= paid) & (bal(&w.buyer_q) == net(QMINT, paid)), "C11,C12,C01,C22 the refund is exactly what is due, to the owner");
    check(!failed | ((paid as u128) == (e0.deposit as u128) + (e0.fee as u128)), "C11,C01 a failed sale refunds deposit and fee in full");
    check(
        (r.refunded == r0.refunded.wrapping_add(paid)) & (p.refunded == p0.refunded.wrapping_add(paid)) & (p.refunded >= p0.refunded) & (r.refunded >= r0.refunded),
        "C11,C12,C25 refund statistics grow by the refunded amount",
    );
    if active("C12") || active("C01") {
        let over = sym::sat_sub(p0.deposit, p0.max_cap);
        if completed {
            check((over > 0) | (paid == 0), "C12 nothing is refunded without oversubscription");
            let (ra, rf) = registry_refund(&p0, i);
            check(wa as u128 * r0.deposit as u128 <= ra as u128 * e0.deposit as u128, "C12,C01 refunds of a registry's buyers add up to at most its share");
            check(wf as u128 * r0.fee as u128 <= rf as u128 * e0.fee as u128, "C12,C01 fee refunds of a registry's buyers add up to at most its share");
            check(ra as u128 * p0.deposit as u128 <= over as u128 * r0.deposit as u128, "C12,C01 registry shares add up to at most the excess");
            check((rf <= r0.fee) & (ra <= r0.deposit), "C12,C01 a registry refunds no more than it took in");
        }
    }
    check(
        ev_is(EVT_WITHDRAW_REMAINING_QUOTE, 112) & (rt().events == 1) & sym::eq32(&ev_key(0), &kk(PRESALE)) & sym::eq32(&ev_key(32), &kk(ESCROW)) & sym::eq32(&ev_key(64), &kk(BUYER)),
        "C27 a refund emits its event, for its presale, escrow and owner",
    );
    check((ev64(96) == net(QMINT, paid)) & (ev64(104) == p.refunded), "C27 the refund event reports amount and total");
    let mut q = p;
    q.refunded = p0.refunded;
    q.r[i].refunded = r0.refunded;
    check(presale_same(&p0, &q), "C11,C12,C25 a refund changes nothing else in the presale");
    check(totals_are_sums(&p), "C25 totals are the sums over registries");
    let mut f = e;
    f.refunded = e0.refunded;
    check(escrow_same(&e0, &f), "C11,C12 a refund changes nothing else in the escrow");
    if param("again", 0) == 1 {
        let t2 = int("now2", 0, T_MAX);
        assume(t2 >= now);
        rt().now = t2;
        let v1 = bal(&w.qvault);
        let ok = call(IX_WITHDRAW_REMAINING_QUOTE, &NO_SLICES, refund_accounts(&w));
        check(!ok, "C11,C12,C01 a second refund is rejected");
        check(bal(&w.qvault) == v1, "C11,C12,C01 a second refund pays nothing");
    }
}

/// Two buyers of one registry: the larger deposit never gets the smaller refund.
#[no_mangle]
pub extern "C" fn h_refund_fair() {
    let c = cfg();
    let p0 = sym_presale(&c);
    let mut e0 = sym_escrow(&c, &p0);
    e0.refunded = 0;
    let w = world(&c, p0, e0);
    let (p0, e0) = (w.p, w.e);
    let i = c.idx;
    let (_, _, completed, _) = progress(&p0, rt().now);
    assume(completed);
    let mut e2 = e0;
    e2.deposit = u64v("e2.deposit");
    e2.fee = u64v("e2.fee");
    // both belong to the registry at the same time
    assume(
        (e2.deposit >= e0.deposit)
            & (e2.fee >= e0.fee)
            & (e2.deposit <= p0.r[i].deposit.wrapping_sub(e0.deposit))
            & (e2.fee <= p0.r[i].fee.wrapping_sub(e0.fee)),
    );
    let x2 = zc(&kk(ESCROW), &presale::ID.to_bytes(), ACC_ESCROW, &e2, true);
    let v0 = bal(&w.qvault);
    if !call(IX_WITHDRAW_REMAINING_QUOTE, &NO_SLICES, refund_accounts(&w)) {
        sym::end();
    }
    let v1 = bal(&w.qvault);
    let mut acc = refund_accounts(&w);
    acc[4] = x2;
    if !call(IX_WITHDRAW_REMAINING_QUOTE, &NO_SLICES, acc) {
        sym::end();
    }
    cover("* two refunds");
    let v2 = bal(&w.qvault);
    check(v0.wrapping_sub(v1) <= v1.wrapping_sub(v2), "C12 a larger deposit never gets a smaller refund");
}

/// which=0: the quote vault is passed, which=1: the base vault
pub fn creator_withdraw_accounts(w: &W, which: u64) -> Vec<AI> {
    let (tok, vault, mint) = if which == 0 {
        (w.creator_q.clone(), w.qvault.clone(), w.qmint.clone())
    } else {
        (w.creator_b.clone(), w.bvault.clone(), w.bmint.clone())
    };
    vec![w.presale.clone(), w.authority.clone(), tok, w.creator.clone(), w.tprog.clone(), w.memo.clone(), w.ev.clone(), w.prog.clone(), vault, mint]
}

#[no_mangle]
pub extern "C" fn h_creator_withdraw() {
    let c = cfg();
    let p0 = sym_presale(&c);
    let e0 = sym_escrow(&c, &p0);
    let w = world(&c, p0, e0);
    let p0 = w.p;
    let now = rt().now;
    let (_, _, completed, failed) = progress(&p0, now);
    let which = param("which", 0);
    let vault = if which == 0 { w.qvault.clone() } else { w.bvault.clone() };
    let other = if which == 0 { w.bvault.clone() } else { w.qvault.clone() };
    let vault0 = bal(&vault);
    let other0 = bal(&other);
    let want = if which == 0 { sym::min(p0.deposit, p0.max_cap) } else { p0.supply };
    let mut must = false;
    if !c.auth {
        let phase = if which == 0 { completed } else { failed };
        must = phase & (p0.creator_withdrawn == 0) & (vault0 >= want);
        sym::nopanic("C13,C24 creator withdrawal panics");
    }
    let ok = call(IX_CREATOR_WITHDRAW, &NO_SLICES, creator_withdraw_accounts(&w, which));
    if !ok {
        cover("* creator withdrawal rejected");
        check(!must, "C13,C24 the creator can withdraw after the sale");
        sym::end();
    }
    sym::nopanic("");
    cover("* creator withdrawal accepted");
    let p = w.p_now();
    if c.auth {
        linked(&w, &["presale.owner"], "C13,C21 only the presale's creator withdraws");
        linked(&w, &["authority"], "C21 the vault authority is the program's");
        let q = w.linked("presale.quote_mint") & w.linked("presale.quote_vault") & (which == 0);
        let b = w.linked("presale.base_mint") & w.linked("presale.base_vault") & (which == 1);
        // in this run the two vaults handed in are exchanged as the phase demands
        let (qq, bb) = if which == 0 { (q, sym::eq32(&p0.base_vault, &kk(QVAULT)) & sym::eq32(&p0.base_mint, &kk(QMINT))) } else { (sym::eq32(&p0.quote_vault, &kk(BVAULT)) & sym::eq32(&p0.quote_mint, &kk(BMINT)), b) };
        check(!completed | qq, "C21,C13 proceeds come from the presale's quote vault");
        check(!failed | bb, "C21,C13 returned tokens come from the presale's base vault");
        check(w.creator.is_signer, "C13,C21 the creator signed the withdrawal");
        typed(&w, &c, false);
        sym::end();
    }
    check((completed & (which == 0)) | (failed & (which == 1)), "C08,C13,C01,C02 the creator withdraws quote after completion, base after failure, nothing else");
    check((p0.creator_withdrawn == 0) & (p.creator_withdrawn == 1), "C13,C01,C02 the creator withdraws at most once");
    let paid = vault0.wrapping_sub(bal(&vault));
    observe("paid", paid);
    check((paid == want) & (vault0 >= paid), "C13,C01,C02,C22 the creator gets exactly the proceeds or the whole supply");
    let tok = if which == 0 { &w.creator_q } else { &w.creator_b };
    let mk = if which == 0 { QMINT } else { BMINT };
    check((bal(tok) == net(mk, paid)) & (rt().transfers == 1) & (rt().burns == 0), "C13,C22 the creator receives it in one transfer");
    check(bal(&other) == other0, "C13,C01,C02 the other vault is untouched");
    check(
        ev_is(EVT_CREATOR_WITHDRAW, 73) & (rt().events == 1) & sym::eq32(&ev_key(0), &kk(PRESALE)) & sym::eq32(&ev_key(40), &kk(CREATOR)),
        "C27 a creator withdrawal emits its event, for its presale and creator",
    );
    check((ev64(32) == net(mk, paid)) & (ev8(72) == if which == 0 { 2 } else { 3 }), "C27 the creator withdrawal event reports the amount and the outcome of the sale");
    let mut q = p;
    q.creator_withdrawn = p0.creator_withdrawn;
    check(presale_same(&p0, &q), "C13,C25 a creator withdrawal changes nothing else");
    if param("again", 0) == 1 {
        let t2 = int("now2", 0, T_MAX);
        assume(t2 >= now);
        rt().now = t2;
        let v1 = bal(&vault);
        let w2 = int("which2", 0, 1);
        let ok = call(IX_CREATOR_WITHDRAW, &NO_SLICES, creator_withdraw_accounts(&w, sym::pick(w2)));
        check(!ok, "C13,C01,C02 a second creator withdrawal is rejected");
        check((bal(&vault) == v1) & (bal(&other) == other0), "C13,C01 a second creator withdrawal pays nothing");
    }
}

pub fn collect_fee_accounts(w: &W) -> Vec<AI> {
    vec![
        w.presale.clone(),
        w.authority.clone(),
        w.qvault.clone(),
        w.qmint.clone(),
        w.creator_q.clone(),
        w.creator.clone(),
        w.tprog.clone(),
        w.memo.clone(),
        w.ev.clone(),
        w.prog.clone(),
    ]
}

#[no_mangle]
pub extern "C" fn h_collect_fee() {
    let c = cfg();
    let p0 = sym_presale(&c);
    let e0 = sym_escrow(&c, &p0);
    let w = world(&c, p0, e0);
    let p0 = w.p;
    let now = rt().now;
    let (_, _, completed, _) = progress(&p0, now);
    let vault0 = bal(&w.qvault);
    let mut want = 0u64;
    let mut must = false;
    if !c.auth {
        if c.mode == PRORATA {
            let mut i = 0;
            while i < c.nreg {
                let (_, f) = registry_refund(&p0, i);
                want = want.wrapping_add(p0.r[i].fee.wrapping_sub(f));
                i += 1;
            }
        } else {
            want = p0.fee;
        }
        must = completed & (p0.fee_collected == 0) & (vault0 >= p0.fee);
        sym::nopanic("C14,C24 fee collection panics");
    }
    let ok = call(IX_CREATOR_COLLECT_FEE, &NO_SLICES, collect_fee_accounts(&w));
    if !ok {
        cover("* fee collection rejected");
        check(!must, "C14,C24 the creator can collect the fee after completion");
        sym::end();
    }
    sym::nopanic("");
    cover("* fee collected");
    let p = w.p_now();
    if c.auth {
        linked(&w, &["presale.owner"], "C14,C21 only the presale's creator collects the fee");
        linked(&w, &["authority"], "C21 the vault authority is the program's");
        linked(&w, &["presale.quote_mint", "presale.quote_vault"], "C21,C14 the fee comes from the presale's quote vault");
        check(w.creator.is_signer, "C14,C21 the creator signed the fee collection");
        typed(&w, &c, false);
        sym::end();
    }
    check(completed, "C08,C14,C01 the fee is collected only after completion");
    check((p0.fee_collected == 0) & (p.fee_collected == 1), "C14,C01 the fee is collected at most once");
    let paid = vault0.wrapping_sub(bal(&w.qvault));
    observe("paid", paid);
    check((paid == want) & (vault0 >= paid) & (bal(&w.creator_q) == net(QMINT, paid)), "C14,C01,C22 the collected fee is exactly what is due");
    check(paid <= p0.fee, "C14,C01 never more than the recorded fees");
    check((rt().transfers <= 1) & (rt().burns == 0), "C14 at most one transfer");
    check(
        ev_is(EVT_CREATOR_COLLECT_FEE, 72) & (rt().events == 1) & sym::eq32(&ev_key(0), &kk(PRESALE)) & sym::eq32(&ev_key(32), &kk(CREATOR)) & (ev64(64) == net(QMINT, paid)),
        "C27 fee collection emits its event with the collected amount",
    );
    let mut q = p;
    q.fee_collected = p0.fee_collected;
    check(presale_same(&p0, &q), "C14,C25 fee collection changes nothing else");
    if param("again", 0) == 1 {
        let t2 = int("now2", 0, T_MAX);
        assume(t2 >= now);
        rt().now = t2;
        let v1 = bal(&w.qvault);
        let ok = call(IX_CREATOR_COLLECT_FEE, &NO_SLICES, collect_fee_accounts(&w));
        check(!ok, "C14,C01 a second fee collection is rejected");
        check(bal(&w.qvault) == v1, "C14,C01 a second fee collection pays nothing");
    }
}

/// The creator's associated token account for the base mint.
pub fn creator_ata(owner: &K, tp: &K) -> K {
    let (k, _) = anchor_lang::prelude::Pubkey::find_program_address(&[owner, tp, &kk(BMINT)], &ATA);
    k.to_bytes()
}
pub fn unsold_accounts(w: &W, ata: &AI) -> Vec<AI> {
    vec![
        w.presale.clone(),
        w.bvault.clone(),
        w.bmint.clone(),
        w.authority.clone(),
        ata.clone(),
        w.tprog.clone(),
        w.memo.clone(),
        w.ev.clone(),
        w.prog.clone(),
    ]
}
pub fn total_sold(c: &Cfg, p: &P) -> u64 {
    let mut s = 0u64;
    let mut i = 0;
    while i < c.nreg {
        s = s.wrapping_add(ite(p.r[i].deposit > 0, sold(p, i), 0));
        i += 1;
    }
    s
}

#[no_mangle]
pub extern "C" fn h_unsold() {
    let c = cfg();
    let p0 = sym_presale(&c);
    let e0 = sym_escrow(&c, &p0);
    let w = world(&c, p0, e0);
    let p0 = w.p;
    let now = rt().now;
    let (_, _, completed, _) = progress(&p0, now);
    let tp = w.tprog.key.to_bytes();
    let ata_key = creator_ata(&kk(CREATOR), &tp);
    let (tk, to) = if c.auth { (sym::key("creator_b.key"), sym::key("creator_b.owner")) } else { (ata_key, kk(CREATOR)) };
    let ata = if param("memo", 0) == 1 { token_memo(&tk, &tp, &kk(BMINT), &to, 0, int("ata memo flag", 0, 1) as u8) } else { token(&tk, &tp, &kk(BMINT), &to, 0) };
    let vault0 = bal(&w.bvault);
    let mut unsold = 0;
    let mut must = false;
    if c.auth {
        // whose account it is
        assume(sym::eq32(&p0.owner, &kk(CREATOR)));
    } else {
        unsold = p0.supply.wrapping_sub(total_sold(&c, &p0));
        must = completed & (p0.unsold_done == 0) & (unsold > 0) & (vault0 >= unsold);
        sym::nopanic("C15,C24 unsold token action panics");
    }
    let supply0 = mint_supply(&w.bmint);
    let ok = call(IX_PERFORM_UNSOLD_BASE_TOKEN_ACTION, &NO_SLICES, unsold_accounts(&w, &ata));
    if !ok {
        cover("* unsold rejected");
        check(!must, "C15,C24 the unsold token action works after completion when something is unsold");
        sym::end();
    }
    sym::nopanic("");
    cover("* unsold action performed");
    let p = w.p_now();
    if c.auth {
        linked(&w, &["authority"], "C21 the vault authority is the program's");
        linked(&w, &["presale.base_mint", "presale.base_vault"], "C21,C15 unsold tokens come from the presale's base vault");
        check(sym::eq32(&tk, &ata_key) & sym::eq32(&to, &kk(CREATOR)), "C15,C21 unsold tokens go to the creator's associated token account");
        typed(&w, &c, false);
        sym::end();
    }
    check(completed, "C08,C15,C02 the unsold token action needs a completed sale");
    check((p0.unsold_done == 0) & (p.unsold_done == 1), "C15,C02 the unsold token action happens at most once");
    check(unsold > 0, "C15 nothing happens if nothing is unsold");
    let paid = vault0.wrapping_sub(bal(&w.bvault));
    observe("paid", paid);
    check((paid == unsold) & (vault0 >= paid), "C15,C02,C22 exactly the unsold tokens leave the vault");
    check(
        (p0.unsold != 1) | ((supply0.wrapping_sub(mint_supply(&w.bmint)) == unsold) & (bal(&ata) == 0) & (rt().burns == 1) & (rt().transfers == 0)),
        "C15 burning destroys exactly the unsold tokens",
    );
    check(
        (p0.unsold == 1) | ((mint_supply(&w.bmint) == supply0) & (bal(&ata) == net(BMINT, unsold)) & (rt().burns == 0) & (rt().transfers == 1)),
        "C15,C22 refunding sends exactly the unsold tokens to the creator",
    );
    check(
        ev_is(EVT_PERFORM_UNSOLD_BASE_TOKEN_ACTION, 41) & (rt().events == 1) & sym::eq32(&ev_key(0), &kk(PRESALE)) & (ev64(32) == unsold) & ((ev8(40) == 1) == (p0.unsold == 1)),
        "C27 the unsold token action emits its event with amount and action",
    );
    let mut q = p;
    q.unsold_done = p0.unsold_done;
    check(presale_same(&p0, &q), "C15,C25 the unsold token action changes nothing else");
    if param("again", 0) == 1 {
        let t2 = int("now2", 0, T_MAX);
        assume(t2 >= now);
        rt().now = t2;
        let v1 = bal(&w.bvault);
        let ok = call(IX_PERFORM_UNSOLD_BASE_TOKEN_ACTION, &NO_SLICES, unsold_accounts(&w, &ata));
        check(!ok, "C15,C02 a second unsold token action is rejected");
        check(bal(&w.bvault) == v1, "C15,C02 a second unsold token action moves nothing");
    }
}
pub fn mint_supply(m: &AI) -> u64 {
    let d = m.data.borrow();
    unsafe { (d.as_ptr().add(36) as *const u64).read_unaligned() }
}

#[no_mangle]
pub extern "C" fn h_close_escrow() {
    let c = cfg();
    let p0 = sym_presale(&c);
    let e0 = sym_escrow(&c, &p0);
    let w = world(&c, p0, e0);
    let (p0, e0) = (w.p, w.e);
    let i = c.idx;
    let r0 = p0.r[i];
    let now = rt().now;
    let (ns, ongoing, completed, failed) = progress(&p0, now);
    let rent = wallet(&kk(RENT), false);
    let (l0, x0) = (lamports(&rent), lamports(&w.escrow));
    let empty = (e0.deposit == 0) & (e0.fee == 0);
    let mut must = false;
    let mut settled = false;
    if !c.auth {
        match param("phase", 0) {
            1 => assume(failed),
            2 => assume(completed),
            3 => assume(ongoing),
            _ => {}
        }
        // an escrow exists only once the sale has started
        assume(!ns);
        settled = (ongoing & empty) | (failed & ((e0.refunded == 1) | empty));
        if completed {
            let full = {
                let t = sym::max(p0.ve, p0.imm_ts);
                due(&p0, &e0, i, t)
            };
            let (a, f) = if c.mode == PRORATA { refund_due(&p0, &e0, i, false) } else { (0, 0) };
            let owed = (a > 0) | (f > 0);
            assume((e0.claimed <= full) & (e0.pending <= full.wrapping_sub(e0.claimed)));
            settled = (e0.claimed == full) & (!owed | (e0.refunded == 1));
        }
        must = settled & (p0.escrows > 0) & (r0.escrows > 0);
        sym::nopanic("C16,C24 closing an escrow panics");
    }
    let ok = call(IX_CLOSE_ESCROW, &[], close_accounts(&w, &rent));
    if !ok {
        cover("* close rejected");
        check(!must, "C16,C24 a settled escrow can be closed");
        sym::end();
    }
    sym::nopanic("");
    cover("* escrow closed");
    let p = w.p_now();
    if c.auth {
        linked(&w, &["escrow.presale"], "C16,C21 the closed escrow belongs to this presale");
        linked(&w, &["escrow.owner"], "C16,C21 only the escrow's owner closes it");
        check(w.buyer.is_signer, "C16,C21 the escrow's owner signed the closing");
        typed_closed(&w);
        sym::end();
    }
    check(!ongoing | empty, "C16 closing during the sale needs an empty escrow");
    check(!failed | (e0.refunded == 1) | empty, "C16,C11 closing after failure needs the refund to be taken");
    check(!completed | settled, "C16 closing after completion needs everything claimed and refunded");
    check(
        (p.r[i].escrows == r0.escrows.wrapping_sub(1)) & (p.escrows == p0.escrows.wrapping_sub(1)) & (p0.escrows > 0) & (r0.escrows > 0),
        "C16,C25 closing decrements the escrow counts by one",
    );
    check((lamports(&rent) == l0.wrapping_add(x0)) & (lamports(&w.escrow) == 0), "C16 closing returns the rent to the chosen receiver");
    check(gone(&w.escrow), "C16 a closed escrow is gone");
    let mut q = p;
    q.escrows = p0.escrows;
    q.r[i].escrows = r0.escrows;
    check(presale_same(&p0, &q), "C16,C25 closing changes nothing else in the presale");
    check(totals_are_sums(&p), "C25 totals are the sums over registries");
    check(
        ev_is(EVT_ESCROW_CLOSE, 128) & (rt().events == 1) & sym::eq32(&ev_key(0), &kk(PRESALE)) & sym::eq32(&ev_key(32), &kk(ESCROW)) & sym::eq32(&ev_key(64), &kk(BUYER)) & sym::eq32(&ev_key(96), &kk(RENT)),
        "C27 closing emits its event, for its presale, escrow, owner and rent receiver",
    );
    check((rt().transfers == 0) & (rt().burns == 0), "C16,C01,C02 closing moves no tokens");
}
/// owned by the system program, no data
pub fn gone(a: &AI) -> bool {
    let o = unsafe { std::ptr::read_unaligned(a.owner as *const _ as *const K) };
    sym::eq32(&o, &SYSTEM.to_bytes()) & (a.data.borrow().len() == 0)
}
fn typed_closed(w: &W) {
    linked(w, &["presale program"], "C21 the presale account is owned by the program");
    check(disc_of(&w.presale) == ACC_PRESALE, "C21 the presale account is a presale");
    linked(w, &["escrow program"], "C21 the escrow account is owned by the program");
}
