//! Whole settlements: the vaults hold exactly what the records say, and every
//! payout to every participant is made, one after the other.
use crate::disc::*;
use crate::h_after::*;
use crate::svm::*;
use crate::sym;
use crate::sym::{assume, check, cover, observe, param};
use crate::world::*;

/// One registry: two buyers who together hold all of its deposits.
/// Several registries: one buyer each.
fn buyers(c: &Cfg, p: &P, e: &E) -> Vec<AI> {
    let pid = presale::ID.to_bytes();
    let mut v = Vec::new();
    if c.nreg == 1 {
        let mut e2 = *e;
        e2.deposit = p.r[0].deposit.wrapping_sub(e.deposit);
        e2.fee = p.r[0].fee.wrapping_sub(e.fee);
        v.push(zc(&kk(ESCROW), &pid, ACC_ESCROW, e, true));
        v.push(zc(&kk(ESCROW), &pid, ACC_ESCROW, &e2, true));
    } else {
        let mut i = 0;
        while i < c.nreg {
            let mut e2 = *e;
            e2.idx = i as u8;
            e2.deposit = p.r[i].deposit;
            e2.fee = p.r[i].fee;
            v.push(zc(&kk(ESCROW), &pid, ACC_ESCROW, &e2, true));
            i += 1;
        }
    }
    v
}
fn fresh_escrow(c: &Cfg, p: &P) -> E {
    let mut e = sym_escrow(c, p);
    e.claimed = 0;
    e.pending = 0;
    e.refunded = 0;
    e
}

/// The quote vault holds exactly the recorded deposits and fees.
#[no_mangle]
pub extern "C" fn h_settle() {
    let c = cfg();
    let mut p0 = sym_presale(&c);
    p0.creator_withdrawn = 0;
    p0.fee_collected = 0;
    p0.refunded = 0;
    let mut i = 0;
    while i < c.nreg {
        p0.r[i].refunded = 0;
        i += 1;
    }
    let e0 = fresh_escrow(&c, &p0);
    let w = world(&c, p0, e0);
    let (p0, e0) = (w.p, w.e);
    let (_, _, completed, failed) = progress(&p0, rt().now);
    if param("phase", 2) == 1 {
        assume(failed);
    } else {
        assume(completed);
    }
    let total = p0.deposit.wrapping_add(p0.fee);
    assume(bal(&w.qvault) == total);
    let bs = buyers(&c, &p0, &e0);
    sym::nopanic("C01,C24 settling panics");
    let first = param("creator_first", 0) == 1;
    if first & (param("phase", 2) != 1) {
        creator(&w);
    }
    if (c.mode == PRORATA) | (param("phase", 2) == 1) {
        for b in &bs {
            let mut acc = refund_accounts(&w);
            acc[4] = b.clone();
            let ok = call(IX_WITHDRAW_REMAINING_QUOTE, &NO_SLICES, acc);
            check(ok, "C01,C24,C11,C12 the vault covers every buyer's refund");
            if !ok {
                sym::end();
            }
        }
    }
    if !first & (param("phase", 2) != 1) {
        creator(&w);
    }
    cover("* settled");
    let paid = bal(&w.creator_q).wrapping_add(bal(&w.buyer_q));
    observe("left", bal(&w.qvault));
    check(paid.wrapping_add(bal(&w.qvault)) == total, "C01 no quote token appears or vanishes");
    if param("phase", 2) == 1 {
        check((bal(&w.qvault) == 0) & (bal(&w.creator_q) == 0), "C01,C11 after a failed sale the buyers get everything back");
    }
}
fn creator(w: &W) {
    let ok = call(IX_CREATOR_WITHDRAW, &NO_SLICES, creator_withdraw_accounts(w, 0));
    check(ok, "C01,C24,C13 the vault covers the creator's proceeds");
    if !ok {
        sym::end();
    }
    let ok = call(IX_CREATOR_COLLECT_FEE, &NO_SLICES, collect_fee_accounts(w));
    check(ok, "C01,C24,C14 the vault covers the collected fee");
    if !ok {
        sym::end();
    }
}

/// The base vault holds exactly the supply.
#[no_mangle]
pub extern "C" fn h_settle_base() {
    let c = cfg();
    let mut p0 = sym_presale(&c);
    p0.unsold_done = 0;
    p0.creator_withdrawn = 0;
    p0.claimed = 0;
    let mut i = 0;
    while i < c.nreg {
        p0.r[i].claimed = 0;
        i += 1;
    }
    let e0 = fresh_escrow(&c, &p0);
    let w = world(&c, p0, e0);
    let (p0, e0) = (w.p, w.e);
    let (_, _, completed, _) = progress(&p0, rt().now);
    assume(completed & (bal(&w.bvault) == p0.supply));
    let bs = buyers(&c, &p0, &e0);
    let tp = w.tprog.key.to_bytes();
    let ata = token(&creator_ata(&kk(CREATOR), &tp), &tp, &kk(BMINT), &kk(CREATOR), 0);
    // claims happen at any time after completion, the unsold tokens leave first
    let unsold = p0.supply.wrapping_sub(total_sold(&c, &p0));
    sym::nopanic("C02,C24 settling panics");
    let ok = call(IX_PERFORM_UNSOLD_BASE_TOKEN_ACTION, &NO_SLICES, unsold_accounts(&w, &ata));
    check(ok | (unsold == 0), "C02,C24,C15 the vault covers the unsold tokens");
    for b in &bs {
        let mut acc = claim_accounts(&w);
        acc[4] = b.clone();
        let ok = call(IX_CLAIM, &NO_SLICES, acc);
        check(ok, "C02,C24,C10 the vault covers every buyer's tokens");
        if !ok {
            sym::end();
        }
    }
    cover("* settled");
    let gone = bal(&ata).wrapping_add(bal(&w.buyer_b)).wrapping_add(u64::MAX.wrapping_sub(mint_supply(&w.bmint)));
    observe("left", bal(&w.bvault));
    check(gone.wrapping_add(bal(&w.bvault)) == p0.supply, "C02 no base token appears or vanishes");
}
