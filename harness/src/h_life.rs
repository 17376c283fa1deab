//! Whole histories of one buyer: escrow created, deposits, a withdrawal, other
//! buyers, the outcome of the sale, every exit.  The presale starts in an
//! arbitrary ongoing state in which the vaults hold exactly what the records say.
use crate::disc::*;
use crate::h_after::*;
use crate::h_setup::{escrow_key, Op, OPERATOR, OPOWNER};
use crate::svm::*;
use crate::sym;
use crate::sym::{assume, check, cover, int, observe, param, u64v};
use crate::world::*;

fn later(n: &str) -> u64 {
    let t = int(n, 0, T_MAX * 2);
    assume(t >= rt().now);
    rt().now = t;
    t
}
fn write<T>(a: &AI, t: &T) {
    let d = a.data.borrow();
    unsafe { std::ptr::copy_nonoverlapping(t as *const T as *const u8, d.as_ptr().add(8) as *mut u8, std::mem::size_of::<T>()) }
}
fn write_balance(a: &AI, v: u64) {
    let d = a.data.borrow();
    unsafe { (d.as_ptr().add(64) as *mut u64).write_unaligned(v) }
}
fn must(ok: bool, m: &str) {
    check(ok, m);
    if !ok {
        sym::end();
    }
}

/// order: hexadecimal digits from the lowest: 1 = refresh and claim, 2 = refund, 3 = creator withdrawal,
/// 4 = fee collection, 5 = unsold tokens, 6 = close; full=1: everything is vested
/// steps: 1 = a second deposit, 2 = a withdrawal; phase: 1 = failed, 2 = completed
#[no_mangle]
pub extern "C" fn h_life() {
    let c = cfg();
    let i = c.idx;
    let steps = param("steps", 3);
    let full = param("full", 0) == 1;
    let failed = param("phase", 1) == 1;
    let mut p0 = sym_presale(&c);
    p0.wl = if c.nreg > 1 { 2 } else { 0 };
    p0.creator_withdrawn = 0;
    p0.fee_collected = 0;
    p0.unsold_done = 0;
    p0.refunded = 0;
    p0.claimed = 0;
    let mut k = 0;
    while k < c.nreg {
        p0.r[k].refunded = 0;
        p0.r[k].claimed = 0;
        k += 1;
    }
    let mut w = world(&c, p0, zero_e());
    let p0 = w.p;
    let (_, ongoing, _, _) = progress(&p0, rt().now);
    let total0 = p0.deposit.wrapping_add(p0.fee);
    assume(ongoing & (bal(&w.qvault) == total0) & (bal(&w.bvault) == p0.supply));
    // sums stay within one token balance
    assume((p0.deposit < (1 << 62)) & (p0.fee < (1 << 61)) & (p0.escrows < (1 << 62)));

    // ---- the sale
    let pid = presale::ID.to_bytes();
    w.escrow = fresh(&escrow_key(i as u8));
    let mut acc = vec![w.presale.clone(), w.escrow.clone(), wallet(&kk(BUYER), false)];
    let mut args: Vec<u8> = vec![];
    let mut cap = p0.r[i].bmax;
    if c.nreg > 1 {
        let o = Op { owner: kk(OPOWNER), creator: kk(CREATOR), pad: [0; 8] };
        acc.push(zc(&kk(OPERATOR), &pid, ACC_OPERATOR, &o, false));
        acc.push(wallet(&kk(OPOWNER), true));
        cap = u64v("cap");
        args.push(i as u8);
        args.extend_from_slice(&cap.to_le_bytes());
        args.extend_from_slice(&[0; 32]);
    }
    for a in [&w.payer, &program(&SYSTEM), &w.ev, &w.prog] {
        acc.push(a.clone());
    }
    let ok = call(if c.nreg > 1 { IX_CREATE_PERMISSIONED_ESCROW_WITH_CREATOR } else { IX_CREATE_PERMISSIONLESS_ESCROW }, &args, acc);
    if !ok {
        sym::end();
    }
    let payer0 = bal(&w.payer_q);
    later("t1");
    if !call(IX_DEPOSIT, &amount_args(u64v("a1")), crate::h_sale::deposit_accounts(&w)) {
        sym::end();
    }
    if steps & 1 != 0 {
        later("t2");
        if !call(IX_DEPOSIT, &amount_args(u64v("a2")), crate::h_sale::deposit_accounts(&w)) {
            sym::end();
        }
    }
    let paid = payer0.wrapping_sub(bal(&w.payer_q));
    if steps & 2 != 0 {
        later("t3");
        if !call(IX_WITHDRAW, &amount_args(u64v("x")), crate::h_sale::withdraw_accounts(&w)) {
            sym::end();
        }
    }
    let back = bal(&w.buyer_q);
    let e1 = w.e_now();
    let p1 = w.p_now();
    observe("paid", paid);
    observe("back", back);
    check(back <= paid, "C01,C07,C03 no buyer takes out more than was paid in");
    check(
        e1.deposit.wrapping_add(e1.fee) == paid.wrapping_sub(back),
        "C01,C03,C07,C11,C12 the escrow records what the buyer has in the sale",
    );
    check(
        (p1.deposit.wrapping_sub(p0.deposit) == e1.deposit) & (p1.fee.wrapping_sub(p0.fee) == e1.fee) & (p1.r[i].deposit.wrapping_sub(p0.r[i].deposit) == e1.deposit) & (p1.r[i].fee.wrapping_sub(p0.r[i].fee) == e1.fee),
        "C01,C03,C07,C25,C12,C14 registry and presale record what the buyer has in the sale",
    );
    check(bal(&w.qvault) == total0.wrapping_add(paid).wrapping_sub(back), "C01,C03,C07 the vault holds what the buyers have in the sale");
    // an early end shifts the schedule
    let early = p1.end != p0.end;
    let now = rt().now;

    // ---- the other buyers
    let mut p2 = p1;
    let optout = if c.mode == FIXED { p0.raw1[1] != 0 } else { p0.raw0 as u8 != 0 };
    if param("others", 1) == 1 {
        let names = ["o.deposit0", "o.deposit1", "o.deposit2", "o.deposit3", "o.deposit4"];
        let fees = ["o.fee0", "o.fee1", "o.fee2", "o.fee3", "o.fee4"];
        let (mut d, mut f) = (0u64, 0u64);
        let mut k = 0;
        while k < c.nreg {
            let (od, of) = (int(names[k], 0, 1 << 58), int(fees[k], 0, 1 << 58));
            let (own, ownf) = if k == i { (e1.deposit, e1.fee) } else { (0, 0) };
            p2.r[k].deposit = sym::ite(early, p1.r[k].deposit, own.wrapping_add(od));
            p2.r[k].fee = sym::ite(early, p1.r[k].fee, ownf.wrapping_add(of));
            d = d.wrapping_add(p2.r[k].deposit);
            f = f.wrapping_add(p2.r[k].fee);
            k += 1;
        }
        p2.deposit = d;
        p2.fee = f;
        assume((e1.deposit < (1 << 60)) & (e1.fee < (1 << 60)));
        if c.mode != PRORATA {
            assume(early | (d < p0.max_cap) | (optout & (d == p0.max_cap)));
        }
        write(&w.presale, &p2);
        write_balance(&w.qvault, d.wrapping_add(f));
    }
    let t = later("t4");
    let (_, _, good, bad) = progress(&p2, t);
    // the end: as announced, or the moment the cap was reached
    let end = sym::ite(early, now, p0.end);
    assume(t >= end);
    check(p1.end == end, "C17,C08 the sale ends as announced or the moment the cap is reached");
    sym::nopanic("C24 an exit panics");
    assume(if failed { bad } else { good });
    // the schedule that was advertised
    let mut s = p2;
    if param("vesting", 2) != 0 {
        s.lock = p0.lock;
        s.vest = p0.vest;
        s.imm_bps = p0.imm_bps;
        s.vs = sym::ite(early, end.wrapping_add(p0.lock), p0.vs);
        s.imm_ts = sym::ite(early, end.wrapping_add(sym::sat_sub(p0.imm_ts, p0.end)), p0.imm_ts);
    }
    if full {
        assume((t >= s.vs.wrapping_add(s.vest)) & (t >= s.imm_ts));
    }
    let tp = w.tprog.key.to_bytes();
    let ata = token(&creator_ata(&kk(CREATOR), &tp), &tp, &kk(BMINT), &kk(CREATOR), 0);
    let supply0 = mint_supply(&w.bmint);
    let vault2 = bal(&w.qvault);
    let mut owed = 0u64;

    // ---- the exits, in the order asked for
    let mut order = param("order", 2);
    let times = ["t5", "t6", "t7", "t8"];
    let mut claims = 0;
    while order != 0 {
        match order & 15 {
            1 => {
                if claims > 0 {
                    later(times[claims - 1]);
                }
                if claims == 0 {
                    must(call(IX_REFRESH_ESCROW, &[], vec![w.presale.clone(), w.escrow.clone(), w.ev.clone(), w.prog.clone()]), "C10,C24 refreshing works");
                    if !full {
                        later("t9");
                    }
                }
                claims += 1;
                must(call(IX_CLAIM, &NO_SLICES, claim_accounts(&w)), "C10,C24 the buyer of a completed sale can claim");
                cover("* claimed");
                let want = due(&s, &e1, i, rt().now);
                observe("claimed", bal(&w.buyer_b));
                check(bal(&w.buyer_b) == want, "C10,C09,C17,C02 the buyer has the advertised share of the tokens");
            }
            2 => {
                must(call(IX_WITHDRAW_REMAINING_QUOTE, &NO_SLICES, refund_accounts(&w)), "C11,C12,C24,C01 the buyer gets the refund");
                cover("* refunded");
                let (x, y) = refund_due(&p2, &e1, i, failed);
                owed = x.wrapping_add(y);
                observe("refunded", bal(&w.buyer_q));
                check(!failed | (bal(&w.buyer_q) == paid), "C11,C07,C01 after a failed sale the buyer has back everything paid in");
                check(bal(&w.buyer_q) == back.wrapping_add(owed), "C12,C11,C01 the buyer gets back exactly the refund due");
            }
            3 => {
                let before = bal(&w.creator_q);
                must(call(IX_CREATOR_WITHDRAW, &NO_SLICES, creator_withdraw_accounts(&w, failed as u64)), "C13,C24,C01,C02 the creator gets the proceeds or the tokens");
                cover("* creator paid");
                if failed {
                    check(bal(&w.creator_b) == p0.supply, "C13,C02 the creator of a failed sale gets the whole supply back");
                } else {
                    check(bal(&w.creator_q).wrapping_sub(before) == sym::min(p2.deposit, p0.max_cap), "C13,C01 the creator gets exactly the deposits up to the cap");
                }
            }
            4 => {
                let before = bal(&w.creator_q);
                must(call(IX_CREATOR_COLLECT_FEE, &NO_SLICES, collect_fee_accounts(&w)), "C14,C24,C01 the creator collects the fee");
                cover("* fee collected");
                let mut fee = p2.fee;
                if c.mode == PRORATA {
                    let mut k = 0;
                    while k < c.nreg {
                        fee = fee.wrapping_sub(registry_refund(&p2, k).1);
                        k += 1;
                    }
                }
                check(bal(&w.creator_q).wrapping_sub(before) == fee, "C14,C01 the creator collects exactly the fee due");
            }
            5 => {
                let unsold = p0.supply.wrapping_sub(total_sold(&c, &p2));
                assume(unsold > 0);
                must(call(IX_PERFORM_UNSOLD_BASE_TOKEN_ACTION, &NO_SLICES, unsold_accounts(&w, &ata)), "C15,C24,C02 the unsold tokens leave the vault");
                cover("* unsold");
                let left = bal(&ata).wrapping_add(supply0.wrapping_sub(mint_supply(&w.bmint)));
                check(left == unsold, "C15,C02 exactly the unsold tokens leave the vault");
            }
            _ => {
                let rent = wallet(&kk(RENT), false);
                let l0 = lamports(&rent).wrapping_add(lamports(&w.escrow));
                must(call(IX_CLOSE_ESCROW, &[], close_accounts(&w, &rent)), "C16,C24 the settled escrow can be closed");
                cover("* closed");
                check(gone(&w.escrow) & (lamports(&rent) == l0), "C16 closing returns the rent");
                let p = w.p_now();
                check((p.escrows == p0.escrows) & (p.r[i].escrows == p0.r[i].escrows), "C16 the escrow counts are back where they were");
            }
        }
        order >>= 4;
    }
    // ---- nothing else moved
    let quote = bal(&w.creator_q).wrapping_add(bal(&w.buyer_q)).wrapping_sub(back);
    check(bal(&w.qvault) == vault2.wrapping_sub(quote), "C01 no quote token appears or vanishes");
    let base = bal(&w.creator_b).wrapping_add(bal(&w.buyer_b)).wrapping_add(bal(&ata)).wrapping_add(supply0.wrapping_sub(mint_supply(&w.bmint)));
    check(bal(&w.bvault) == p0.supply.wrapping_sub(base), "C02 no base token appears or vanishes");
    let _ = owed;
}
