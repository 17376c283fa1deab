//! On-chain layouts and a small sale driver for the demonstration.
#![allow(dead_code)]
use crate::disc::*;
use crate::svm::*;

pub fn eq32(a: &[u8; 32], b: &[u8; 32]) -> bool {
    a == b
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    if c { a } else { b }
}
pub fn abort(m: &str) -> ! {
    panic!("{}", m)
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct R {
    pub supply: u64,
    pub deposit: u64,
    pub escrows: u64,
    pub claimed: u64,
    pub refunded: u64,
    pub bmin: u64,
    pub bmax: u64,
    pub fee: u64,
    pub fee_bps: u16,
    pub pad: [u8; 14],
    pub pad1: [u128; 5],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct P {
    pub owner: K,
    pub quote_mint: K,
    pub base_mint: K,
    pub base_vault: K,
    pub quote_vault: K,
    pub base: K,
    pub pad0: u8,
    pub mode: u8,
    pub wl: u8,
    pub pad1: [u8; 5],
    pub max_cap: u64,
    pub min_cap: u64,
    pub start: u64,
    pub end: u64,
    pub supply: u64,
    pub deposit: u64,
    pub escrows: u64,
    pub created_at: u64,
    pub lock: u64,
    pub vest: u64,
    pub imm_ts: u64,
    pub pad2: u64,
    pub vs: u64,
    pub ve: u64,
    pub claimed: u64,
    pub refunded: u64,
    pub fee: u64,
    pub fee_collected: u8,
    pub pad3: [u8; 7],
    pub creator_withdrawn: u8,
    pub base_flag: u8,
    pub quote_flag: u8,
    pub nreg: u8,
    pub unsold: u8,
    pub unsold_done: u8,
    pub imm_bps: u16,
    /// fixed price: q_price; fcfs: byte 0 is the early-end opt-out
    pub raw0: u128,
    /// fixed price: byte 0 disables withdrawals, byte 1 disables the early end
    pub raw1: [u8; 16],
    pub raw2: u128,
    pub pad4: [u128; 4],
    pub r: [R; 5],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct E {
    pub presale: K,
    pub owner: K,
    pub deposit: u64,
    pub claimed: u64,
    pub refunded: u8,
    pub idx: u8,
    pub pad0: [u8; 6],
    pub pending: u64,
    pub cap: u64,
    pub created_at: u64,
    pub fee: u64,
    pub refreshed: u64,
    pub pad: [u64; 8],
}

pub const FIXED: u8 = 0;
pub const PRORATA: u8 = 1;
pub const FCFS: u8 = 2;
pub const PRESALE: u8 = 1;
pub const QMINT: u8 = 3;
pub const BMINT: u8 = 4;
pub const QVAULT: u8 = 5;
pub const BVAULT: u8 = 6;
pub const CREATOR: u8 = 7;

/// A sale of one registry, open from 1000 to 2000, without vesting.
pub fn plain(mode: u8, max_cap: u64, min_cap: u64, supply: u64) -> P {
    let mut p: P = unsafe { std::mem::zeroed() };
    p.owner = kk(CREATOR);
    p.quote_mint = kk(QMINT);
    p.base_mint = kk(BMINT);
    p.quote_vault = kk(QVAULT);
    p.base_vault = kk(BVAULT);
    p.base = kk(12);
    p.mode = mode;
    p.max_cap = max_cap;
    p.min_cap = min_cap;
    p.start = 1000;
    p.end = 2000;
    p.supply = supply;
    p.nreg = 1;
    p.r[0].supply = supply;
    p.r[0].bmin = 1;
    p.r[0].bmax = max_cap;
    p
}
pub struct Buyer {
    pub escrow: AI,
    pub wallet: AI,
    pub q: AI,
    pub b: AI,
}
pub struct Sale {
    pub presale: AI,
    pub qvault: AI,
    pub bvault: AI,
    pub qmint: AI,
    pub bmint: AI,
    pub creator: AI,
    pub creator_q: AI,
    pub creator_b: AI,
    pub authority: AI,
    pub tprog: AI,
    pub payer: AI,
    pub payer_q: AI,
}
const NONE: [u8; 4] = [0; 4];
impl Sale {
    pub fn new(p: P, qv: u64, bv: u64) -> Sale {
        Sale::with_mints(p, qv, bv, TOKEN, &mint_data(6, None), &mint_data(9, None))
    }
    pub fn with_mints(p: P, qv: u64, bv: u64, tp: anchor_lang::prelude::Pubkey, qm: &[u8], bm: &[u8]) -> Sale {
        boot();
        let ak = presale::presale_authority::ID.to_bytes();
        let t = tp.to_bytes();
        let (ata, _) = anchor_lang::prelude::Pubkey::find_program_address(&[&p.owner, &t, &kk(BMINT)], &ATA);
        Sale {
            presale: zc(&kk(PRESALE), &presale::ID.to_bytes(), ACC_PRESALE, &p, true),
            qvault: token(&kk(QVAULT), &t, &kk(QMINT), &ak, qv),
            bvault: token(&kk(BVAULT), &t, &kk(BMINT), &ak, bv),
            qmint: mint(&kk(QMINT), &tp, qm),
            bmint: mint(&kk(BMINT), &tp, bm),
            creator: wallet(&kk(CREATOR), true),
            creator_q: token(&kk(13), &t, &kk(QMINT), &kk(CREATOR), 0),
            creator_b: token(&ata.to_bytes(), &t, &kk(BMINT), &kk(CREATOR), 0),
            authority: account(&ak, &SYSTEM.to_bytes(), 0, &[], false, false),
            tprog: program(&tp),
            payer: wallet(&kk(10), true),
            payer_q: token(&kk(11), &t, &kk(QMINT), &kk(10), u64::MAX / 2),
        }
    }
    pub fn at(&self, t: u64) {
        rt().now = t;
    }
    pub fn p(&self) -> P {
        read(&self.presale)
    }
    /// Buyer `n` with a fresh escrow in registry `idx`.
    pub fn buyer(&self, n: u8, idx: u8, cap: u64) -> Buyer {
        let mut e: E = unsafe { std::mem::zeroed() };
        e.cap = cap;
        e.idx = idx;
        let mut p = self.p();
        p.escrows += 1;
        p.r[idx as usize].escrows += 1;
        self.put(&p);
        self.buyer_with(n, e)
    }
    pub fn put(&self, p: &P) {
        self.presale.data.borrow_mut()[8..].copy_from_slice(bytes_of(p));
    }
    pub fn buyer_with(&self, n: u8, mut e: E) -> Buyer {
        let t = self.tprog.key.to_bytes();
        e.presale = kk(PRESALE);
        e.owner = kk(100 + n);
        Buyer {
            escrow: zc(&kk(150 + n), &presale::ID.to_bytes(), ACC_ESCROW, &e, true),
            wallet: wallet(&kk(100 + n), true),
            q: token(&kk(50 + n), &t, &kk(QMINT), &kk(100 + n), 0),
            b: token(&kk(75 + n), &t, &kk(BMINT), &kk(100 + n), 0),
        }
    }
    fn tail(&self) -> Vec<AI> {
        vec![event_authority(), program(&presale::ID)]
    }
    pub fn go(&self, ix: u64, args: &[u8], mut a: Vec<AI>) -> bool {
        a.extend(self.tail());
        call(ix, args, a)
    }
    pub fn deposit(&self, b: &Buyer, amount: u64) -> bool {
        let mut args = amount.to_le_bytes().to_vec();
        args.extend(NONE);
        self.go(IX_DEPOSIT, &args, vec![self.presale.clone(), self.qvault.clone(), self.qmint.clone(), b.escrow.clone(), self.payer_q.clone(), self.payer.clone(), self.tprog.clone()])
    }
    fn out_accounts(&self, b: &Buyer) -> Vec<AI> {
        vec![self.presale.clone(), self.qvault.clone(), self.qmint.clone(), self.authority.clone(), b.escrow.clone(), b.q.clone(), b.wallet.clone(), self.tprog.clone(), program(&MEMO)]
    }
    pub fn withdraw(&self, b: &Buyer, amount: u64) -> bool {
        let mut args = amount.to_le_bytes().to_vec();
        args.extend(NONE);
        self.go(IX_WITHDRAW, &args, self.out_accounts(b))
    }
    pub fn refund(&self, b: &Buyer) -> bool {
        self.go(IX_WITHDRAW_REMAINING_QUOTE, &NONE, self.out_accounts(b))
    }
    pub fn claim(&self, b: &Buyer) -> bool {
        let a = vec![self.presale.clone(), self.bvault.clone(), self.bmint.clone(), self.authority.clone(), b.escrow.clone(), b.b.clone(), b.wallet.clone(), self.tprog.clone(), program(&MEMO)];
        self.go(IX_CLAIM, &NONE, a)
    }
    pub fn refresh(&self, b: &Buyer) -> bool {
        self.go(IX_REFRESH_ESCROW, &[], vec![self.presale.clone(), b.escrow.clone()])
    }
    pub fn close(&self, b: &Buyer) -> bool {
        self.go(IX_CLOSE_ESCROW, &[], vec![self.presale.clone(), b.escrow.clone(), b.wallet.clone(), wallet(&kk(14), false)])
    }
    pub fn creator_withdraw(&self, quote: bool) -> bool {
        let (t, v, m) = if quote { (&self.creator_q, &self.qvault, &self.qmint) } else { (&self.creator_b, &self.bvault, &self.bmint) };
        let mut a = vec![self.presale.clone(), self.authority.clone(), t.clone(), self.creator.clone(), self.tprog.clone(), program(&MEMO)];
        a.extend(self.tail());
        a.push(v.clone());
        a.push(m.clone());
        call(IX_CREATOR_WITHDRAW, &NONE, a)
    }
    pub fn collect_fee(&self) -> bool {
        let a = vec![self.presale.clone(), self.authority.clone(), self.qvault.clone(), self.qmint.clone(), self.creator_q.clone(), self.creator.clone(), self.tprog.clone(), program(&MEMO)];
        self.go(IX_CREATOR_COLLECT_FEE, &NONE, a)
    }
    pub fn unsold(&self) -> bool {
        let a = vec![self.presale.clone(), self.bvault.clone(), self.bmint.clone(), self.authority.clone(), self.creator_b.clone(), self.tprog.clone(), program(&MEMO)];
        self.go(IX_PERFORM_UNSOLD_BASE_TOKEN_ACTION, &NONE, a)
    }
}
impl Buyer {
    pub fn e(&self) -> E {
        read(&self.escrow)
    }
}
