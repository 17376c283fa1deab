//! The whitelist tooling (merkle-tree crate) against the on-chain verification.
use crate::disc::*;
use crate::h_setup::*;
use crate::svm::*;
use crate::sym;
use crate::sym::{assume, check, cover, eq32, int, key, param, u64v};
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use merkle_tree::config_merkle_tree::ConfigMerkleTree;
use merkle_tree::tree_node::TreeNode;

const IDX: [&str; 9] = ["l0.idx", "l1.idx", "l2.idx", "l3.idx", "l4.idx", "l5.idx", "l6.idx", "l7.idx", "l8.idx"];
const CAP: [&str; 9] = ["salt.cap0", "salt.cap1", "salt.cap2", "salt.cap3", "salt.cap4", "salt.cap5", "salt.cap6", "salt.cap7", "salt.cap8"];
const PRF: [&str; 4] = ["salt.p0", "salt.p1", "salt.p2", "salt.p3"];

fn owner(i: usize) -> K {
    kk(100 + i as u8)
}
/// Creates an escrow on chain; true if accepted.
fn admit(owner: &K, idx: u8, cap: u64, proof: &[K], root: &K) -> bool {
    let c = Cfg { mode: PRORATA, nreg: 2, idx: 0, auth: false, t22: false };
    let mut p = zero_p();
    p.mode = c.mode;
    p.wl = 1;
    p.nreg = 2;
    p.start = 100;
    p.end = 200;
    p.max_cap = u64::MAX;
    p.min_cap = 1;
    let mut i = 0;
    while i < 2 {
        p.r[i].supply = 1000;
        p.r[i].bmin = 1;
        p.r[i].bmax = u64::MAX;
        i += 1;
    }
    p.supply = 2000;
    let pid = presale::ID.to_bytes();
    rt().now = 150;
    let m = Mk { root: *root, pad: 0, presale: kk(PRESALE), version: 7, pad1: [0; 8] };
    let ek = pda(&[b"escrow", &kk(PRESALE), owner, &[idx]]);
    let mut args = (proof.len() as u32).to_le_bytes().to_vec();
    for s in proof {
        args.extend_from_slice(s);
    }
    args.push(idx);
    args.extend_from_slice(&cap.to_le_bytes());
    args.extend_from_slice(&[0; 32]);
    let acc = vec![
        zc(&kk(PRESALE), &pid, ACC_PRESALE, &p, true),
        fresh(&ek),
        wallet(owner, false),
        zc(&kk(MERKLE), &pid, ACC_MERKLE_ROOT_CONFIG, &m, false),
        wallet(&kk(PAYER), true),
        program(&SYSTEM),
        event_authority(),
        program(&presale::ID),
    ];
    call(IX_CREATE_PERMISSIONED_ESCROW_WITH_MERKLE_PROOF, &args, acc)
}
/// Lists `n` buyers; with `dup` the last entry names buyer 0 again.
fn list(n: usize, dup: bool) -> Vec<TreeNode> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        let o = if dup && i + 1 == n { 0 } else { i };
        // conc: only the entry of buyer j is symbolic
        let conc = param("conc", 0) == 1 && i != param("j", 0) as usize;
        v.push(TreeNode {
            escrow_owner: Pubkey::new_from_array(owner(o)),
            registry_index: if conc { (i & 1) as u8 } else { int(IDX[i % 9], 0, 255) as u8 },
            deposit_cap: if conc { 1000 + i as u64 } else { u64v(CAP[i % 9]) },
            proof: None,
        });
        i += 1;
    }
    v
}

/// Every listed buyer is admitted with the proof the tool hands out.
#[no_mangle]
pub extern "C" fn h_tree() {
    boot();
    let n = param("n", 2) as usize;
    let dup = param("dup", 0) == 1;
    let nodes = list(n, dup);
    let caps: Vec<(u8, u64)> = nodes.iter().map(|x| (x.registry_index, x.deposit_cap)).collect();
    sym::nopanic("C19 building the whitelist panics");
    let ver = param("version", 3);
    let t = match ConfigMerkleTree::new(nodes, ver) {
        Ok(t) => t,
        Err(_) => {
            check(false, "C19 a whitelist can be built from every list");
            sym::end()
        }
    };
    cover("* tree built");
    let m = if dup { n - 1 } else { n };
    check((t.tree_nodes.len() == m) & (t.max_num_nodes == m as u64) & (t.version == ver), "C19 every listed buyer is in the tree once");
    // the entry checked on chain
    let j = param("j", 0) as usize;
    let mut found = false;
    for x in &t.tree_nodes {
        if x.escrow_owner.to_bytes() == owner(j) {
            found = true;
            let want = if dup && j == 0 { caps[n - 1] } else { caps[j] };
            check((x.registry_index == want.0) & (x.deposit_cap == want.1), "C19 the tree lists what was asked for");
            assume((x.registry_index < 2) & (x.deposit_cap > 0));
            let idx = sym::pick(x.registry_index as u64) as u8;
            let proof: Vec<K> = match &x.proof {
                Some(p) => p.clone(),
                None => {
                    check(false, "C19 every listed buyer gets a proof");
                    sym::end()
                }
            };
            let ok = admit(&owner(j), idx, x.deposit_cap, &proof, &t.merkle_root);
            check(ok, "C19,C18 a listed buyer is admitted with the proof handed out");
            cover("* buyer admitted");
        }
    }
    check(found, "C19 every listed buyer is in the tree");
    // lookups of the tool
    let want = if dup && j == 0 { caps[n - 1] } else { caps[j] };
    let g = t.get_node(&Pubkey::new_from_array(owner(j)));
    check(eq32(&g.escrow_owner.to_bytes(), &owner(j)) & (g.registry_index == want.0) & (g.deposit_cap == want.1), "C19 looking up a buyer yields the listed entry");
    let a = t.get_merkle_root_config_pubkey(Pubkey::new_from_array(kk(PRESALE)), &presale::ID);
    check(eq32(&a.to_bytes(), &pda(&[b"merkle_root", &kk(PRESALE), &ver.to_le_bytes()])), "C19 the tool knows the address of the registered root");
    if param("map", 0) == 1 {
        let h = t.convert_to_hashmap();
        let x = h.get(&Pubkey::new_from_array(owner(j)));
        check((h.len() == m) & x.map_or(false, |x| (x.registry_index == want.0) & (x.deposit_cap == want.1)), "C19 the tool's map holds the listed entries");
    }
}

/// Nobody else is admitted, whatever the proof.
#[no_mangle]
pub extern "C" fn h_tree_sound() {
    boot();
    let n = param("n", 2) as usize;
    let nodes = list(n, false);
    let caps: Vec<(u8, u64)> = nodes.iter().map(|x| (x.registry_index, x.deposit_cap)).collect();
    let t = match ConfigMerkleTree::new(nodes, 3) {
        Ok(t) => t,
        Err(_) => sym::end(),
    };
    // buyer j asks for registry and cap of their own choice with any proof
    let j = param("j", 0) as usize;
    let idx = sym::pick(int("idx", 0, 1)) as u8;
    let cap = u64v("cap");
    let mut proof: Vec<K> = Vec::new();
    let l = param("len", 1) as usize;
    let mut i = 0;
    while i < l {
        proof.push(key(PRF[i]));
        i += 1;
    }
    let ok = admit(&owner(j), idx, cap, &proof, &t.merkle_root);
    check(!ok | ((j < n) & (idx == caps[j % n].0) & (cap == caps[j % n].1)), "C19,C18 only a listed entry is admitted, whatever the proof");
    cover("* tried");
    let _ = eq32 as fn(&K, &K) -> bool;
}
