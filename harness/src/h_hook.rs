//! Token-2022 specifics: which mints are accepted, and how the extra accounts
//! of transfer hooks are handed over.
use crate::disc::*;
use crate::h_after::*;
use crate::h_sale::*;
use crate::h_setup::*;
use crate::svm::*;
use crate::sym;
use crate::sym::{check, cover, eq32, int, observe, param};
use crate::world::*;
use anchor_lang::prelude::Pubkey;

const NATIVE22: Pubkey = anchor_lang::prelude::pubkey!("9pan9bMn5HatX4EJdBwg9VgCa7Uz5HL8N1m5D3NdXejP");
const TY: [&str; 4] = ["ext0", "ext1", "ext2", "ext3"];

/// Arguments of a plain first-come-first-served sale.
fn plain_args(slices: &[u8]) -> Vec<u8> {
    let mut args: Vec<u8> = Vec::new();
    for x in [1_000_000u64, 1000, 1000, 5000] {
        args.extend_from_slice(&x.to_le_bytes());
    }
    args.extend_from_slice(&[0, FCFS, 0, 0]);
    args.extend_from_slice(&[0; 30 + 26 + 56]);
    args.extend_from_slice(&1u32.to_le_bytes());
    for x in [1u64, 1_000_000, 777_777] {
        args.extend_from_slice(&x.to_le_bytes());
    }
    args.extend_from_slice(&[0; 34]);
    args.extend_from_slice(slices);
    args
}
fn create(bk: &K, bd: &[u8], qk: &K, qd: &[u8], slices: &[u8], extra: Vec<AI>) -> (bool, AI) {
    let tp = TOKEN22;
    let tpk = tp.to_bytes();
    let pkey = pda(&[b"presale", &kk(BASEKEY), bk, qk]);
    let bvault = fresh(&pda(&[b"base_vault", &pkey]));
    let mut acc = vec![
        mint(bk, &tp, bd),
        fresh(&pkey),
        account(&authority_key(), &SYSTEM.to_bytes(), 0, &[], false, false),
        mint(qk, &tp, qd),
        bvault.clone(),
        fresh(&pda(&[b"quote_vault", &pkey])),
        token(&kk(PAYER_TOK), &tpk, bk, &kk(PAYER), u64::MAX),
        wallet(&kk(CREATOR), false),
        wallet(&kk(BASEKEY), true),
        wallet(&kk(PAYER), true),
        program(&tp),
        program(&tp),
        program(&SYSTEM),
        event_authority(),
        program(&presale::ID),
    ];
    acc.extend(extra);
    (call(IX_INITIALIZE_PRESALE, &plain_args(slices), acc), bvault)
}

/// Mints with any extensions: `n` extensions of any type on the base
/// (side=0) or quote (side=1) mint.
#[no_mangle]
pub extern "C" fn h_ext() {
    boot();
    rt().now = 1000;
    let n = param("n", 1) as usize;
    let len = param("len", 64) as usize;
    let side = param("side", 0);
    let mut exts = Vec::new();
    let (mut good, mut must) = (true, true);
    let mut stop = false;
    let mut i = 0;
    while i < n {
        let t = int(TY[i], 0, 65535) as u16;
        let listed = (t == 1) | (t == 14) | (t == 18) | (t == 19);
        // type 0 ends the list
        stop |= t == 0;
        good &= stop | listed;
        must &= stop | (t == 19) | ((len == 64) & ((t == 14) | (t == 18))) | ((len == 108) & (t == 1));
        exts.push((t, vec![0u8; len]));
        i += 1;
    }
    let with = mint_ext(6, &exts);
    let plain = mint_data(6, None);
    let native = param("native", 0) == 1;
    let nk = NATIVE22.to_bytes();
    let k = |n: u8, s: u64| if native && side == s { nk } else { kk(n) };
    let (bk, qk) = (k(BMINT, 0), k(QMINT, 1));
    let (ok, bvault) = if side == 0 { create(&bk, &with, &qk, &plain, &NO_SLICES, vec![]) } else { create(&bk, &plain, &qk, &with, &NO_SLICES, vec![]) };
    observe("ok", ok as u64);
    check(!ok | (good & !native), "C23 a presale is created only with supported mints");
    check(ok | native | !must, "C23 supported mints are accepted");
    if ok {
        cover("* accepted");
        check(bal(&bvault) == 777_777, "C23 the supply is funded");
    } else {
        cover("* rejected");
    }
}

/// A sale with concrete books; `phase` 0 ongoing, 1 failed, 2 completed.
fn books(mode: u8, phase: u64) -> (P, E) {
    let mut p = zero_p();
    p.mode = mode;
    p.max_cap = 1_000_000;
    p.min_cap = if phase == 1 { 500_000 } else { 1000 };
    p.start = 1000;
    p.end = 2000;
    p.supply = 777_777;
    p.nreg = 1;
    p.deposit = 400_000;
    p.fee = 4000;
    p.escrows = 3;
    if mode == FIXED {
        p.raw0 = 2 << 64;
    }
    if mode == PRORATA && phase == 2 {
        p.max_cap = 300_000;
    }
    p.base_flag = 1;
    p.quote_flag = 1;
    p.r[0].supply = p.supply;
    p.r[0].bmin = 2;
    p.r[0].bmax = p.max_cap;
    p.r[0].deposit = p.deposit;
    p.r[0].fee = p.fee;
    p.r[0].fee_bps = 100;
    p.r[0].escrows = 3;
    let mut e = zero_e();
    e.deposit = 100_000;
    e.fee = 1000;
    e.cap = p.max_cap;
    p.owner = kk(CREATOR);
    (p, e)
}
const EXTRA: u8 = 220;
/// The hook's list of extra accounts for a mint: one account.
fn validation(mint: u8) -> AI {
    let hook = Pubkey::new_from_array(kk(HOOK));
    let k = Pubkey::find_program_address(&[b"extra-account-metas", &kk(mint)], &hook).0;
    let mut d = vec![105, 37, 101, 197, 75, 251, 102, 26];
    d.extend_from_slice(&39u32.to_le_bytes());
    d.extend_from_slice(&1u32.to_le_bytes());
    d.push(0);
    d.extend_from_slice(&kk(EXTRA));
    d.extend_from_slice(&[0, 0]);
    account(&k.to_bytes(), &kk(HOOK), 1_000_000, &d, false, false)
}
const ST: [&str; 3] = ["slice0.type", "slice1.type", "slice2.type"];
const SL: [&str; 3] = ["slice0.len", "slice1.len", "slice2.len"];

/// Every transferring instruction with any declared slices of extra accounts.
/// ix: 0 deposit, 1 withdraw, 2 claim, 3 refund (failed), 4 refund (pro-rata),
/// 5 collect fee, 6 creator withdraw quote, 7 creator withdraw base, 8 unsold, 9 initialize
#[no_mangle]
pub extern "C" fn h_slices() {
    let ix = param("ix", 0);
    let hooked = param("hook", 0) != 0;
    let ns = param("ns", 1) as usize;
    // the declared slices
    let quote = (ix == 0) | (ix == 1) | (ix == 3) | (ix == 4) | (ix == 5) | (ix == 6);
    let right: u8 = if quote { 1 } else { 0 };
    let mut slices = (ns as u32).to_le_bytes().to_vec();
    let (mut types, mut nonempty, mut len) = (true, 0u64, 0u64);
    let avail = param("avail", 3);
    let mut i = 0;
    while i < ns {
        let t = int(ST[i], 0, 255) as u8;
        let l = sym::pick(int(SL[i], 0, avail + 1));
        types &= t == right;
        if l > 0 {
            nonempty += 1;
            len = l;
        }
        slices.push(t);
        slices.push(l as u8);
        i += 1;
    }
    // extra accounts; the hook program is at `pos`
    let pos = sym::pick(int("pos", 0, avail));
    let mut extra = Vec::new();
    let meta = param("meta", 0) == 1;
    let (mut vpos, mut xpos) = (avail, avail);
    let mut j = 0;
    while j < avail {
        extra.push(if j == pos {
            program(&Pubkey::new_from_array(kk(HOOK)))
        } else if meta && vpos == avail {
            vpos = j;
            validation(if quote { QMINT } else { BMINT })
        } else if meta && xpos == avail {
            xpos = j;
            wallet(&kk(EXTRA), false)
        } else {
            wallet(&kk(200 + j as u8), false)
        });
        j += 1;
    }
    // with the hook's validation account, the account it names is needed too
    let full = (vpos < len) & meta;
    let named = !full | (xpos < len);
    let fits = if hooked { (nonempty == 1) & (len <= avail) & (pos < len) & named } else { nonempty == 0 };
    let want = types & fits;
    let phase = match ix {
        0 | 1 => 0,
        3 | 7 => 1,
        _ => 2,
    };
    let mode = match ix {
        0 | 2 | 8 => FIXED,
        _ => PRORATA,
    };
    let ok = if ix == 9 {
        boot();
        rt().now = 1000;
        let md = if hooked { mint_hook(9, &kk(HOOK)) } else { mint_data(9, None) };
        create(&kk(BMINT), &md, &kk(QMINT), &mint_data(6, None), &slices, extra).0
    } else {
        let c = Cfg { mode, nreg: 1, idx: 0, auth: false, t22: true };
        let (p, e) = books(mode, phase);
        let mut p = p;
        p.quote_mint = kk(QMINT);
        let w = world(&c, p, e);
        rt().now = if phase == 0 { 1500 } else { 3000 };
        sym::assume((bal(&w.qvault) == 1_000_000) & (bal(&w.bvault) == 777_777));
        let mut args = Vec::new();
        if ix <= 1 {
            args.extend_from_slice(&10_000u64.to_le_bytes());
        }
        args.extend_from_slice(&slices);
        let tp = w.tprog.key.to_bytes();
        let ata = token(&creator_ata(&kk(CREATOR), &tp), &tp, &kk(BMINT), &kk(CREATOR), 0);
        let (d, mut acc) = match ix {
            0 => (IX_DEPOSIT, deposit_accounts(&w)),
            1 => (IX_WITHDRAW, withdraw_accounts(&w)),
            2 => (IX_CLAIM, claim_accounts(&w)),
            3 | 4 => (IX_WITHDRAW_REMAINING_QUOTE, refund_accounts(&w)),
            5 => (IX_CREATOR_COLLECT_FEE, collect_fee_accounts(&w)),
            6 => (IX_CREATOR_WITHDRAW, creator_withdraw_accounts(&w, 0)),
            7 => (IX_CREATOR_WITHDRAW, creator_withdraw_accounts(&w, 1)),
            _ => (IX_PERFORM_UNSOLD_BASE_TOKEN_ACTION, unsold_accounts(&w, &ata)),
        };
        acc.extend(extra);
        call(d, &args, acc)
    };
    observe("ok", ok as u64);
    check(!ok | want, "C23 a transfer needs exactly the declared extra accounts of its own hook");
    check(ok | !want, "C23 properly declared extra accounts are accepted");
    if !ok {
        cover("* rejected");
        sym::end();
    }
    cover("* accepted");
    check(rt().transfers == 1, "C23 one transfer");
    if hooked {
        let n = if full { 3 } else { 1 };
        check((rt().hook_accounts == n) & eq32(&rt().hook_first, &kk(if full { EXTRA } else { HOOK })), "C23 the hook program is handed to the transfer");
    } else {
        check(rt().hook_accounts == 0, "C23 no extra account is handed to a transfer without hook");
    }
}
