//! Creating escrows and the configuration accounts.
use crate::disc::*;
use crate::h_after::*;
use crate::h_sale::*;
use crate::svm::*;
use crate::sym;
use crate::sym::{assume, check, cover, eq32, int, ite, key, observe, param, u64v};
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program::hash::hashv;

pub const OPOWNER: u8 = 20;
pub const OPERATOR: u8 = 21;
pub const MERKLE: u8 = 22;
pub const META: u8 = 23;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Op {
    pub owner: K,
    pub creator: K,
    pub pad: [u64; 8],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Mk {
    pub root: K,
    pub pad: u64,
    pub presale: K,
    pub version: u64,
    pub pad1: [u64; 8],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Fx {
    pub pad: [u8; 15],
    pub disable_withdraw: u8,
    pub q_price: u128,
    pub owner: K,
    pub presale: K,
    pub pad1: [u128; 4],
}

pub fn pda(seeds: &[&[u8]]) -> K {
    Pubkey::find_program_address(seeds, &presale::ID).0.to_bytes()
}
pub fn escrow_key(idx: u8) -> K {
    pda(&[b"escrow", &kk(PRESALE), &kk(BUYER), &[idx]])
}
/// A key that is either `want` or, when `auth`, any key.
fn any(auth: bool, n: &str, want: K) -> K {
    if auth {
        key(n)
    } else {
        want
    }
}
fn flag(auth: bool, n: &str) -> bool {
    !auth || int(n, 0, 1) == 1
}
pub fn owner_of(a: &AI) -> K {
    unsafe { std::ptr::read_unaligned(a.owner as *const _ as *const K) }
}
/// Root of the path that starts at the leaf of (owner, idx, cap).
pub fn fold(owner: &K, idx: u8, cap: u64, proof: &[K]) -> K {
    let n = hashv(&[owner, &[idx], &cap.to_le_bytes()]).to_bytes();
    let mut h = hashv(&[&[0], &n]).to_bytes();
    for s in proof {
        h = if h <= *s { hashv(&[&[1], &h, s]).to_bytes() } else { hashv(&[&[1], s, &h]).to_bytes() };
    }
    h
}

/// kind 0: permissionless, 1: with an operator, 2: with a merkle proof
#[no_mangle]
pub extern "C" fn h_create_escrow() {
    let c = cfg();
    let kind = param("kind", 0);
    let auth = c.auth;
    let mut p0 = sym_presale(&c);
    p0.wl = int("wl", 0, 3) as u8;
    p0.owner = any(auth, "presale.owner", kk(CREATOR));
    boot();
    rt().now = int("now", 0, T_MAX);
    let now = rt().now;
    let (_, ongoing, _, _) = progress(&p0, now);
    let pid = presale::ID.to_bytes();
    let p_prog = any(auth, "presale program", pid);
    let pd = if auth { u64v("presale.disc") } else { ACC_PRESALE };
    let presale_ai = zc(&kk(PRESALE), &p_prog, pd, &p0, true);
    // the registry asked for, also beyond the existing ones
    let idx = if kind == 0 { 0 } else { sym::pick(int("idx", 0, param("maxidx", 5))) as u8 };
    let ekey = escrow_key(idx);
    let akey = any(auth, "escrow key", ekey);
    let existing = param("existing", 0) == 1;
    let escrow = if existing {
        let c1 = Cfg { idx: 0, ..cfg() };
        let e = sym_escrow(&c1, &p0);
        zc(&ekey, &pid, ACC_ESCROW, &e, true)
    } else {
        account(&akey, &SYSTEM.to_bytes(), int("escrow lamports", 0, 5_000_000), &[], false, true)
    };
    let owner = wallet(&kk(BUYER), false);
    let payer = wallet(&kk(PAYER), flag(auth, "payer.signer"));
    let sys = program(&SYSTEM);
    let cap = if kind == 0 { 0 } else { u64v("cap") };
    let r0 = p0.r[if (idx as usize) < 5 { idx as usize } else { 0 }];
    let mut admitted = true;
    let mut acc = vec![presale_ai.clone(), escrow.clone(), owner.clone()];
    let mut args: Vec<u8> = vec![];
    let ix;
    let mut op = None;
    let mut mk = None;
    let mut opown = None;
    match kind {
        0 => ix = IX_CREATE_PERMISSIONLESS_ESCROW,
        1 => {
            ix = IX_CREATE_PERMISSIONED_ESCROW_WITH_CREATOR;
            let o = Op { owner: key("operator.owner"), creator: key("operator.creator"), pad: [0; 8] };
            let od = if auth { u64v("operator.disc") } else { ACC_OPERATOR };
            let a = zc(&kk(OPERATOR), &any(auth, "operator program", pid), od, &o, false);
            let s = wallet(&kk(OPOWNER), flag(auth, "operator.signer"));
            admitted = eq32(&o.owner, &kk(OPOWNER)) & eq32(&o.creator, &p0.owner);
            acc.push(a.clone());
            acc.push(s.clone());
            op = Some(a);
            opown = Some(s);
            args.push(idx);
            args.extend_from_slice(&cap.to_le_bytes());
            args.extend_from_slice(&[0; 32]);
        }
        _ => {
            ix = IX_CREATE_PERMISSIONED_ESCROW_WITH_MERKLE_PROOF;
            let depth = param("depth", 1) as usize;
            let mut proof: Vec<K> = vec![];
            let names = ["salt.0", "salt.1", "salt.2", "salt.3"];
            let mut i = 0;
            while i < depth {
                proof.push(key(names[i]));
                i += 1;
            }
            // the root of the listed path, or something else
            let good = int("good root", 0, 1) == 1;
            let reference = fold(&kk(BUYER), idx, cap, &proof);
            let root = if good { reference } else { key("root") };
            let m = Mk { root, pad: 0, presale: any(true, "config.presale", kk(PRESALE)), version: u64v("version"), pad1: [0; 8] };
            let md = if auth { u64v("config.disc") } else { ACC_MERKLE_ROOT_CONFIG };
            let a = zc(&kk(MERKLE), &any(auth, "config program", pid), md, &m, false);
            admitted = eq32(&m.presale, &kk(PRESALE)) & eq32(&root, &reference);
            acc.push(a.clone());
            mk = Some(a);
            args.extend_from_slice(&(depth as u32).to_le_bytes());
            for s in &proof {
                args.extend_from_slice(s);
            }
            args.push(idx);
            args.extend_from_slice(&cap.to_le_bytes());
            args.extend_from_slice(&[0; 32]);
            if !good {
                // natively a root drawn by the solver is no hash
                assume(!eq32(&root, &reference) | !auth);
            }
        }
    }
    acc.push(payer.clone());
    acc.push(sys);
    acc.push(event_authority());
    acc.push(program(&presale::ID));
    let in_range = idx < p0.nreg;
    let cap_ok = (kind == 0) | ((cap > 0) & (cap >= r0.bmin) & (cap <= r0.bmax));
    // 0: nobody is excluded, 1: merkle proof, 2: authority
    let wl_ok = p0.wl as u64 == [0, 2, 1][kind as usize];
    let must = ongoing & wl_ok & admitted & in_range & cap_ok & !existing & (r0.escrows < u64::MAX) & (p0.escrows < u64::MAX);
    if !auth {
        sym::nopanic("C18 creating an escrow panics");
    }
    let ok = call(ix, &args, acc);
    check(!ok | !existing, "C18,C16 an existing escrow cannot be created again");
    if !ok {
        cover("* escrow creation rejected");
        check(!must | auth, "C18 an admitted buyer gets an escrow");
        sym::end();
    }
    sym::nopanic("");
    if kind != 2 || auth || admitted {
        cover("* escrow created");
    }
    if auth {
        check(eq32(&akey, &ekey), "C21,C18 the escrow lives at the address derived from presale, owner and registry");
        check(payer.is_signer, "C21 the payer signed");
        check(eq32(&p_prog, &pid), "C21 the presale account is owned by the program");
        check(disc_of(&presale_ai) == ACC_PRESALE, "C21 the presale account is a presale");
        if let Some(o) = &op {
            check(eq32(&owner_of(o), &pid), "C21,C18 the operator account is owned by the program");
            check(disc_of(o) == ACC_OPERATOR, "C21,C18 the operator account is an operator");
        }
        if let Some(o) = &opown {
            check(o.is_signer, "C21,C18 the operator signed");
        }
        if let Some(o) = &mk {
            check(eq32(&owner_of(o), &pid), "C21,C18 the merkle root account is owned by the program");
            check(disc_of(o) == ACC_MERKLE_ROOT_CONFIG, "C21,C18 the merkle root account is a merkle root");
        }
    }
    check(ongoing, "C08,C18 escrows are created only while the sale is ongoing");
    check(wl_ok, "C18 the escrow is created the way the whitelist mode demands");
    check(admitted, "C18,C21 only admitted buyers get an escrow");
    check(in_range, "C18 the registry exists");
    check(cap_ok, "C18,C04 the granted cap lies within the registry's limits");
    check(eq32(&owner_of(&escrow), &pid) & (disc_of(&escrow) == ACC_ESCROW), "C18 the escrow account is set up");
    let e: E = read(&escrow);
    let want = if kind == 0 { r0.bmax } else { cap };
    observe("cap", e.cap);
    check(eq32(&e.presale, &kk(PRESALE)) & eq32(&e.owner, &kk(BUYER)) & (e.idx == idx), "C18 the escrow records presale, owner and registry");
    check(e.cap == want, "C18,C04 the escrow records the granted cap");
    check(
        (e.deposit == 0) & (e.fee == 0) & (e.claimed == 0) & (e.pending == 0) & (e.refunded == 0) & (e.created_at == now),
        "C18 the escrow starts empty",
    );
    let p: P = read(&presale_ai);
    let i = idx as usize;
    check(
        (p.r[i].escrows == r0.escrows.wrapping_add(1)) & (p.escrows == p0.escrows.wrapping_add(1)) & (p.escrows > p0.escrows),
        "C16,C18,C25 creating an escrow increments both counts by one",
    );
    check(
        ev_is(EVT_ESCROW_CREATE, 73) & (rt().events == 1) & eq32(&ev_key(0), &kk(PRESALE)) & eq32(&ev_key(32), &kk(BUYER)) & (ev8(64) == p0.wl) & (ev64(65) == p.escrows),
        "C27 creating an escrow emits its event, for its presale and owner, with the escrow count",
    );
    let mut q = p;
    q.escrows = p0.escrows;
    q.r[i].escrows = r0.escrows;
    check(presale_same(&p0, &q), "C18,C25,C16 creating an escrow changes nothing else in the presale");
    check(totals_are_sums(&p), "C25 totals are the sums over registries");
    let _ = ite as fn(bool, u64, u64) -> u64;
}

#[no_mangle]
pub extern "C" fn h_operator() {
    boot();
    let auth = param("auth", 0) == 1;
    let revoke = param("revoke", 0) == 1;
    let pid = presale::ID.to_bytes();
    let creator = wallet(&kk(CREATOR), flag(auth, "creator.signer"));
    let l0 = lamports(&creator);
    if !revoke {
        let k = pda(&[b"operator", &kk(CREATOR), &kk(OPOWNER)]);
        let ak = any(auth, "operator key", k);
        let op = fresh(&ak);
        let oo = wallet(&kk(OPOWNER), false);
        let ok = call(IX_CREATE_OPERATOR, &[], vec![op.clone(), oo, creator.clone(), program(&SYSTEM), event_authority(), program(&presale::ID)]);
        if !ok {
            check(auth, "C26 a creator can appoint an operator");
            sym::end();
        }
        cover("* operator appointed");
        check(creator.is_signer, "C26,C21 the creator signed the appointment");
        check(eq32(&ak, &k), "C26,C21 the operator account belongs to creator and operator");
        let o: Op = read(&op);
        check(
            eq32(&owner_of(&op), &pid) & (disc_of(&op) == ACC_OPERATOR) & eq32(&o.owner, &kk(OPOWNER)) & eq32(&o.creator, &kk(CREATOR)),
            "C26,C18 the appointment records operator and creator",
        );
        check(
            ev_is(EVT_OPERATOR_CREATE, 96) & (rt().events == 1) & eq32(&ev_key(0), &kk(CREATOR)) & eq32(&ev_key(32), &ak) & eq32(&ev_key(64), &kk(OPOWNER)),
            "C27 appointing an operator emits its event",
        );
        sym::end();
    }
    let o = Op { owner: key("operator.owner"), creator: if auth { key("operator.creator") } else { kk(CREATOR) }, pad: [0; 8] };
    let od = if auth { u64v("operator.disc") } else { ACC_OPERATOR };
    let op = zc(&kk(OPERATOR), &any(auth, "operator program", pid), od, &o, true);
    let x0 = lamports(&op);
    let ok = call(IX_REVOKE_OPERATOR, &[], vec![op.clone(), creator.clone(), event_authority(), program(&presale::ID)]);
    if !ok {
        check(auth, "C26 a creator can revoke an operator");
        sym::end();
    }
    cover("* operator revoked");
    check(creator.is_signer & eq32(&o.creator, &kk(CREATOR)), "C26,C21,C18 only the appointing creator revokes an operator");
    check(gone(&op) & (lamports(&op) == 0) & (lamports(&creator) == l0.wrapping_add(x0)), "C26,C18 a revoked operator is gone");
}

fn presale_for_config(c: &Cfg) -> (P, AI) {
    let mut p = sym_presale(c);
    p.wl = int("wl", 0, 2) as u8;
    p.owner = any(c.auth, "presale.owner", kk(CREATOR));
    boot();
    rt().now = int("now", 0, T_MAX);
    let pd = if c.auth { u64v("presale.disc") } else { ACC_PRESALE };
    let a = zc(&kk(PRESALE), &any(c.auth, "presale program", presale::ID.to_bytes()), pd, &p, false);
    (p, a)
}
fn presale_auth(p: &P, a: &AI, creator: &AI) {
    check(creator.is_signer & eq32(&p.owner, &kk(CREATOR)), "C26,C21 only the presale's creator, with a signature");
    check(eq32(&owner_of(a), &presale::ID.to_bytes()), "C21 the presale account is owned by the program");
    check(disc_of(a) == ACC_PRESALE, "C21 the presale account is a presale");
}

#[no_mangle]
pub extern "C" fn h_merkle_config() {
    let c = cfg();
    let pid = presale::ID.to_bytes();
    let (p, pa) = presale_for_config(&c);
    let (ns, ongoing, _, _) = progress(&p, rt().now);
    let creator = wallet(&kk(CREATOR), flag(c.auth, "creator.signer"));
    if param("close", 0) == 0 {
        let root = key("root");
        let version = param("version", 0);
        let k = pda(&[b"merkle_root", &kk(PRESALE), &version.to_le_bytes()]);
        let ak = any(c.auth, "config key", k);
        let cfga = fresh(&ak);
        let mut args = root.to_vec();
        args.extend_from_slice(&version.to_le_bytes());
        let ok = call(IX_CREATE_MERKLE_ROOT_CONFIG, &args, vec![pa.clone(), cfga.clone(), creator.clone(), program(&SYSTEM), event_authority(), program(&presale::ID)]);
        if !ok {
            cover("* config rejected");
            check(!((ns | ongoing) & (p.wl == 1)) | c.auth, "C26 the creator can register a merkle root before the end");
            sym::end();
        }
        cover("* root registered");
        presale_auth(&p, &pa, &creator);
        check(eq32(&ak, &k), "C26,C21 the merkle root account belongs to presale and version");
        check(ns | ongoing, "C26,C08 merkle roots are registered before the sale ends");
        check(p.wl == 1, "C26,C18 merkle roots are registered only for merkle sales");
        let m: Mk = read(&cfga);
        check(
            eq32(&owner_of(&cfga), &pid) & (disc_of(&cfga) == ACC_MERKLE_ROOT_CONFIG) & eq32(&m.root, &root) & eq32(&m.presale, &kk(PRESALE)) & (m.version == version),
            "C26,C18 the merkle root account stores root, presale and version",
        );
        check(
            ev_is(EVT_MERKLE_ROOT_CONFIG_CREATE, 136) & (rt().events == 1) & eq32(&ev_key(0), &kk(CREATOR)) & eq32(&ev_key(32), &ak) & eq32(&ev_key(64), &kk(PRESALE)) & (ev64(96) == version) & eq32(&ev_key(104), &root),
            "C27 registering a merkle root emits its event with version and root",
        );
        sym::end();
    }
    let m = Mk { root: key("root"), pad: 0, presale: any(c.auth, "config.presale", kk(PRESALE)), version: u64v("version"), pad1: [0; 8] };
    let md = if c.auth { u64v("config.disc") } else { ACC_MERKLE_ROOT_CONFIG };
    let a = zc(&kk(MERKLE), &any(c.auth, "config program", pid), md, &m, true);
    let rent = wallet(&kk(RENT), false);
    let (l0, x0) = (lamports(&rent), lamports(&a));
    let ok = call(IX_CLOSE_MERKLE_ROOT_CONFIG, &[], vec![pa.clone(), a.clone(), rent.clone(), creator.clone(), event_authority(), program(&presale::ID)]);
    if !ok {
        cover("* close rejected");
        check(ongoing | c.auth, "C26 the creator can close a merkle root while the sale is not ongoing");
        sym::end();
    }
    cover("* root closed");
    presale_auth(&p, &pa, &creator);
    check(eq32(&m.presale, &kk(PRESALE)), "C26,C21 the closed merkle root belongs to this presale");
    check(!ongoing, "C26,C08 merkle roots are not closed while the sale is ongoing");
    check(gone(&a) & (lamports(&rent) == l0.wrapping_add(x0)), "C26 a closed merkle root is gone and its rent returned");
    check(
        ev_is(EVT_CLOSE_MERKLE_ROOT_CONFIG, 96) & (rt().events == 1) & eq32(&ev_key(0), &kk(PRESALE)) & eq32(&ev_key(32), &kk(MERKLE)) & eq32(&ev_key(64), &kk(CREATOR)),
        "C27 closing a merkle root emits its event",
    );
}

#[no_mangle]
pub extern "C" fn h_metadata() {
    let c = cfg();
    let pid = presale::ID.to_bytes();
    let (p, pa) = presale_for_config(&c);
    let (ns, ongoing, _, _) = progress(&p, rt().now);
    let owner = wallet(&kk(CREATOR), flag(c.auth, "creator.signer"));
    if param("close", 0) == 0 {
        let k = pda(&[b"server_metadata", &kk(PRESALE)]);
        let ak = any(c.auth, "metadata key", k);
        let a = fresh(&ak);
        let len = param("len", 5) as usize;
        let mut url = vec![];
        let names = ["u0", "u1", "u2", "u3", "u4", "u5", "u6", "u7"];
        for i in 0..len {
            url.push(int(names[i & 7], 0x20, 0x7e) as u8);
        }
        let mut args = (len as u32).to_le_bytes().to_vec();
        args.extend_from_slice(&url);
        let ok = call(IX_CREATE_PERMISSIONED_SERVER_METADATA, &args, vec![pa.clone(), a.clone(), owner.clone(), program(&SYSTEM), event_authority(), program(&presale::ID)]);
        if !ok {
            cover("* metadata rejected");
            check(!((ns | ongoing) & (p.wl != 0)) | c.auth, "C26 the creator can register server metadata before the end");
            sym::end();
        }
        cover("* metadata registered");
        presale_auth(&p, &pa, &owner);
        check(eq32(&ak, &k), "C26,C21 the metadata account belongs to the presale");
        check(ns | ongoing, "C26,C08 metadata is registered before the sale ends");
        check(p.wl != 0, "C26 metadata is registered only for permissioned sales");
        let d = a.data.borrow();
        check(d.len() == 8 + 32 + 128 + 4 + len, "C26 the metadata account has the right size");
        let mut ok = true;
        for i in 0..32 {
            ok &= d[8 + i] == kk(PRESALE)[i];
        }
        for i in 0..4 {
            ok &= d[168 + i] == (len as u32).to_le_bytes()[i];
        }
        for i in 0..len {
            ok &= d[172 + i] == url[i];
        }
        check(ok & eq32(&owner_of(&a), &pid), "C26 the metadata account stores presale and url");
        let mut same = ev_is(EVT_PERMISSIONED_SERVER_METADATA_CREATE, 68 + len) & (rt().events == 1) & eq32(&ev_key(0), &kk(PRESALE)) & eq32(&ev_key(32), &ak) & (ev8(64) as usize == len);
        for i in 0..len {
            same &= ev8(68 + i) == url[i];
        }
        check(same, "C27 registering server metadata emits its event with the url");
        sym::end();
    }
    let mpres = any(c.auth, "metadata.presale", kk(PRESALE));
    let mut d = if c.auth { u64v("metadata.disc") } else { ACC_PERMISSIONED_SERVER_METADATA }.to_le_bytes().to_vec();
    d.extend_from_slice(&mpres);
    d.extend_from_slice(&[0; 128]);
    d.extend_from_slice(&[3, 0, 0, 0, 0x61, 0x62, 0x63]);
    let a = account(&kk(META), &any(c.auth, "metadata program", pid), 5_000_000, &d, false, true);
    let rent = wallet(&kk(RENT), false);
    let (l0, x0) = (lamports(&rent), lamports(&a));
    let ok = call(IX_CLOSE_PERMISSIONED_SERVER_METADATA, &[], vec![pa.clone(), a.clone(), rent.clone(), owner.clone(), event_authority(), program(&presale::ID)]);
    if !ok {
        check(c.auth, "C26 the creator can always close the server metadata");
        sym::end();
    }
    cover("* metadata closed");
    presale_auth(&p, &pa, &owner);
    check(eq32(&mpres, &kk(PRESALE)), "C26,C21 the closed metadata belongs to this presale");
    check(gone(&a) & (lamports(&rent) == l0.wrapping_add(x0)), "C26 closed metadata is gone and its rent returned");
    check(
        ev_is(EVT_PERMISSIONED_SERVER_METADATA_CLOSE, 64) & (rt().events == 1) & eq32(&ev_key(0), &kk(PRESALE)) & eq32(&ev_key(32), &kk(META)),
        "C27 closing server metadata emits its event",
    );
}

#[no_mangle]
pub extern "C" fn h_fixed_args() {
    boot();
    let auth = param("auth", 0) == 1;
    let pid = presale::ID.to_bytes();
    if param("close", 0) == 0 {
        let k = pda(&[b"fixed_price_param", &kk(PRESALE)]);
        let ak = any(auth, "args key", k);
        let a = fresh(&ak);
        let payer = wallet(&kk(PAYER), flag(auth, "payer.signer"));
        let q = sym::u128r("q_price", 0, u128::MAX);
        let dw = int("disable_withdraw", 0, 255) as u8;
        let mut args = kk(PRESALE).to_vec();
        args.push(dw);
        args.extend_from_slice(&q.to_le_bytes());
        args.extend_from_slice(&[0; 64]);
        let owner = wallet(&kk(CREATOR), false);
        let ok = call(IX_INITIALIZE_FIXED_PRICE_PRESALE_ARGS, &args, vec![a.clone(), owner, payer.clone(), program(&SYSTEM), event_authority(), program(&presale::ID)]);
        if !ok {
            cover("* fixed price args rejected");
            check((q == 0) | (dw > 1) | auth, "C26,C20 sane fixed price parameters are accepted");
            sym::end();
        }
        cover("* fixed price args created");
        check(payer.is_signer & eq32(&ak, &k), "C26,C21 the parameters live at the presale's address");
        check(q > 0, "C26,C20,C05 a price of zero is rejected");
        check(dw <= 1, "C26,C20 the withdrawal switch is a boolean");
        let f: Fx = read(&a);
        check(
            (f.q_price == q) & (f.disable_withdraw == dw) & eq32(&f.owner, &kk(CREATOR)) & eq32(&f.presale, &kk(PRESALE)) & eq32(&owner_of(&a), &pid) & (disc_of(&a) == ACC_FIXED_PRICE_PRESALE_EXTRA_ARGS),
            "C26,C20,C05,C07 the parameters are stored as submitted",
        );
        check(
            ev_is(EVT_FIXED_PRICE_PRESALE_ARGS_CREATE, 48) & (rt().events == 1) & eq32(&ev_key(0), &kk(PRESALE)) & (ev64(32) == q as u64) & (ev64(40) == (q >> 64) as u64),
            "C27 storing fixed price parameters emits its event with the price",
        );
        sym::end();
    }
    let f = Fx { pad: [0; 15], disable_withdraw: int("disable_withdraw", 0, 1) as u8, q_price: sym::u128r("q_price", 1, u128::MAX), owner: any(auth, "args.owner", kk(CREATOR)), presale: key("args.presale"), pad1: [0; 4] };
    let fd = if auth { u64v("args.disc") } else { ACC_FIXED_PRICE_PRESALE_EXTRA_ARGS };
    let a = zc(&kk(META), &any(auth, "args program", pid), fd, &f, true);
    let owner = wallet(&kk(CREATOR), flag(auth, "owner.signer"));
    let (l0, x0) = (lamports(&owner), lamports(&a));
    let ok = call(IX_CLOSE_FIXED_PRICE_PRESALE_ARGS, &[], vec![a.clone(), owner.clone(), event_authority(), program(&presale::ID)]);
    if !ok {
        check(auth, "C26 the owner can close fixed price parameters");
        sym::end();
    }
    cover("* fixed price args closed");
    check(owner.is_signer & eq32(&f.owner, &kk(CREATOR)), "C26,C21 only the owner closes fixed price parameters");
    check(gone(&a) & (lamports(&owner) == l0.wrapping_add(x0)), "C26 closed parameters are gone and the rent returned");
    check(
        ev_is(EVT_FIXED_PRICE_PRESALE_ARGS_CLOSE, 96) & (rt().events == 1) & eq32(&ev_key(0), &f.presale) & eq32(&ev_key(32), &kk(CREATOR)) & eq32(&ev_key(64), &kk(META)),
        "C27 closing fixed price parameters emits its event",
    );
}
