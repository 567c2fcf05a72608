#![allow(dead_code, unused_imports, clippy::all)]

pub mod merkle {
    #[path = "/repo/crates/validation/src/merkle/proof.rs"]
    pub mod proof;
    #[path = "/repo/crates/validation/src/merkle/safe_arith.rs"]
    pub mod safe_arith;
}

use alloy::primitives::B256;
use core::mem::forget;
use merkle::proof::*;

fn node() -> B256 {
    // under the verifier: 64 significant bits, like the digests of the hash model
    #[cfg(kani)]
    {
        let mut b = [0u8; 32];
        b[..8].copy_from_slice(&nd::any::<u64>().to_le_bytes());
        B256::from(b)
    }
    #[cfg(not(kani))]
    B256::from(nd::bytes::<32>())
}
fn h(a: B256, b: B256) -> B256 {
    B256::from(uf::hash2(&a.0, &b.0))
}
/// Root denoted by a leaf, the sibling hashes from the bottom up, and the index.
fn fold(leaf: B256, branch: &[B256], index: usize) -> B256 {
    let mut x = leaf;
    let mut i = 0;
    while i < branch.len() {
        x = if (index >> i) & 1 == 1 { h(branch[i], x) } else { h(x, branch[i]) };
        i += 1;
    }
    x
}
fn nodes<const D: usize>() -> [B256; D] {
    let mut a = [B256::ZERO; D];
    let mut i = 0;
    while i < D {
        a[i] = node();
        i += 1;
    }
    a
}
fn root_of_branch<const D: usize>(index: usize) {
    uf::reset();
    let leaf = node();
    let branch: [B256; D] = nodes();
    let want = fold(leaf, &branch, index);
    let got = merkle_root_from_branch(leaf, &branch, D, index);
    assert!(got == want, "P11.fold: recomputed root is not the fold along the index bits");
}
fn accepted<const D: usize>(index: usize) {
    uf::reset();
    let leaf = node();
    let branch: [B256; D] = nodes();
    let want = fold(leaf, &branch, index);
    let root = node();
    let ok = verify_merkle_proof(leaf, &branch, D, index, root);
    assert!(ok == (root == want), "P11.verify: accepted iff the root matches");
    nd::cover!(ok, "some branch is accepted");
    nd::cover!(!ok, "some branch is refused");
}
fn other_depth<const D: usize>(depth: usize, index: usize) {
    uf::reset();
    let leaf = node();
    let branch: [B256; D] = nodes();
    let root = if D > 0 && nd::any() { fold(leaf, &branch, index) } else { node() };
    let ok = verify_merkle_proof(leaf, &branch, depth, index, root);
    assert!(!ok, "P11.depth: branch of another length than the depth accepted");
}
/// Root of the full tree of depth `d` over `leaves` padded with zero leaves.
fn padded(leaves: &[B256], d: usize) -> B256 {
    let mut row = [B256::ZERO; 8];
    let mut i = 0;
    while i < leaves.len() {
        row[i] = leaves[i];
        i += 1;
    }
    let mut w = 1usize << d;
    while w > 1 {
        let mut i = 0;
        while i < w / 2 {
            row[i] = h(row[2 * i], row[2 * i + 1]);
            i += 1;
        }
        w /= 2;
    }
    row[0]
}
fn tree<const N: usize>(d: usize) {
    uf::reset();
    let leaves: [B256; N] = nodes();
    let t = MerkleTree::create(&leaves, d);
    let want = padded(&leaves, d);
    assert!(t.hash() == want, "P11.tree-root: root is not that of the zero-padded tree");
    let mut k = 0;
    while k < N {
        {
            match t.generate_proof(k, d) {
                Ok((leaf, branch)) => {
                    assert!(leaf == leaves[k], "P11.proof-leaf: proof is for another leaf");
                    assert!(branch.len() == d, "P11.proof-length: proof does not have one node per level");
                    assert!(verify_merkle_proof(leaf, &branch, d, k, want), "P11.proof-verifies: generated proof is refused");
                    forget(branch);
                }
                Err(e) => {
                    forget(e);
                    assert!(false, "P11.proof-exists: no proof for a leaf of the tree");
                }
            }
        }
        k += 1;
    }
    forget(t);
}
/// Pushing the leaves one by one into an empty tree of depth `d` up to `N` leaves.
fn push<const N: usize>(d: usize) {
    uf::reset();
    let leaves: [B256; N] = nodes();
    let mut t = MerkleTree::create(&[], d);
    let mut k = 0;
    while k < N {
        let before = t.hash();
        let r = t.push_leaf(leaves[k], d);
        if k < (1 << d) {
            assert!(r.is_ok(), "P11.push: leaf refused although there is room");
            assert!(t.hash() == padded(&leaves[..k + 1], d), "P11.push-root: root after pushing is not that of the longer list");
        } else {
            assert!(matches!(r, Err(MerkleTreeError::MerkleTreeFull)), "P11.push-full: full tree accepted a leaf");
            assert!(t.hash() == before, "P11.push-full-root: refused leaf changed the root");
        }
        forget(r);
        k += 1;
    }
    forget(t);
}
/// Finalising the first `F` of `N` leaves and rebuilding from the finalised hashes.
fn finalize<const N: usize>(d: usize, f: usize) {
    uf::reset();
    let leaves: [B256; N] = nodes();
    let mut t = MerkleTree::create(&leaves, d);
    let want = padded(&leaves, d);
    let r = t.finalize_deposits(f, d);
    assert!(r.is_ok(), "P11.finalize: finalising present leaves fails");
    assert!(t.hash() == want, "P11.finalize-root: finalising changes the root");
    let hs = t.get_finalized_hashes();
    let s = MerkleTree::from_finalized_snapshot(&hs, f, d);
    match &s {
        Ok(s) => assert!(s.hash() == padded(&leaves[..f], d), "P11.snapshot-root: snapshot does not denote the finalised leaves"),
        Err(_) => assert!(false, "P11.snapshot: snapshot of finalised leaves refused"),
    }
    forget((r, s, hs, t));
}

#[cfg(not(kani))]
fn native_branch() {
    uf::reset();
    let leaf = node();
    let branch: Vec<B256> = (0..nd::below(65)).map(|_| node()).collect();
    let index: usize = if nd::any() { nd::any::<u64>() as usize } else { nd::below(1 << 16) };
    let want = fold(leaf, &branch, index);
    let got = merkle_root_from_branch(leaf, &branch, branch.len(), index);
    assert!(got == want, "P11.fold: recomputed root is not the fold along the index bits");
    let root = if nd::any() { want } else { node() };
    let ok = verify_merkle_proof(leaf, &branch, branch.len(), index, root);
    assert!(ok == (root == want), "P11.verify: accepted iff the root matches");
}
#[cfg(not(kani))]
fn native_tree() {
    uf::reset();
    let d = nd::below(7);
    let n = 1 + nd::below(1 << d);
    let leaves: Vec<B256> = (0..n).map(|_| node()).collect();
    let want = {
        let mut row: Vec<B256> = leaves.clone();
        row.resize(1 << d, B256::ZERO);
        while row.len() > 1 {
            row = row.chunks(2).map(|p| h(p[0], p[1])).collect();
        }
        row[0]
    };
    let t = MerkleTree::create(&leaves, d);
    assert!(t.hash() == want, "P11.native-tree-root");
    let mut pushed = MerkleTree::create(&[], d);
    if d > 0 {
        for l in &leaves {
            assert!(pushed.push_leaf(*l, d).is_ok(), "P11.native-push");
        }
        assert!(pushed.hash() == want, "P11.native-push-root");
    }
    for i in 0..n {
        let (leaf, branch) = t.generate_proof(i, d).expect("P11.native-proof");
        assert!(leaf == leaves[i] && verify_merkle_proof(leaf, &branch, d, i, want), "P11.native-verify");
        let j = nd::below(1 << d);
        let same = merkle_root_from_branch(leaf, &branch, d, j) == want;
        assert!(verify_merkle_proof(leaf, &branch, d, j, want) == same, "P11.native-verify-other");
        assert!(!verify_merkle_proof(leaf, &branch, d + 1, i, want), "P11.native-depth");
    }
    let k = nd::below(20);
    let branch: Vec<B256> = (0..k).map(|_| node()).collect();
    let (leaf, index): (B256, usize) = (node(), nd::any());
    let mut x = leaf;
    for (i, b) in branch.iter().enumerate() {
        x = if (index >> i) & 1 == 1 { h(*b, x) } else { h(x, *b) };
    }
    assert!(merkle_root_from_branch(leaf, &branch, k, index) == x, "P11.native-fold");
    assert!(verify_merkle_proof(leaf, &branch, k, index, x), "P11.native-accept");
    let y = node();
    assert!(verify_merkle_proof(leaf, &branch, k, index, y) == (x == y), "P11.native-refuse");
    let f = nd::below(n + 1);
    let mut fin = MerkleTree::create(&leaves, d);
    if f > 0 {
        fin.finalize_deposits(f, d).expect("P11.native-finalize");
    }
    assert!(fin.hash() == want, "P11.native-finalize-root");
}

nd::harnesses! {
    fn p11_branch_0_2(unwind = 5) {
        root_of_branch::<0>(0); root_of_branch::<0>(7);
        root_of_branch::<1>(0); root_of_branch::<1>(1); root_of_branch::<1>(6);
        root_of_branch::<2>(0); root_of_branch::<2>(1); root_of_branch::<2>(2); root_of_branch::<2>(3)
    }
    fn p11_branch_3(unwind = 5) { let mut i = 0; while i < 4 { root_of_branch::<3>(i); i += 1 } }
    fn p11_branch_3_high(unwind = 5) { let mut i = 4; while i < 8 { root_of_branch::<3>(i); i += 1 } }
    fn p11_branch_7(unwind = 9) { root_of_branch::<7>(41) }
    fn p11_branch_13(unwind = 15) { root_of_branch::<13>(8192 + 0x15a5) }
    fn p11_branch_15(unwind = 17) { root_of_branch::<15>(8192 * 4 + 2 * 0x0ac3) }
    fn p11_verify(unwind = 5) { accepted::<0>(0); accepted::<1>(1); accepted::<2>(1) }
    fn p11_depth(unwind = 7) { other_depth::<0>(1, 0); other_depth::<1>(0, 1); other_depth::<2>(1, 1); other_depth::<2>(3, 0) }
    fn p11_tree_0_1(unwind = 5) { tree::<1>(0); tree::<1>(1); tree::<2>(1) }
    fn p11_tree_2(unwind = 5) { tree::<3>(2) }
    fn p11_tree_2_full(unwind = 5) { tree::<4>(2) }
    fn p11_push_1(unwind = 5) { push::<3>(1) }
    fn p11_push_2(unwind = 6) { push::<2>(2) }
    fn p11_native_branch(unwind = 2) { #[cfg(not(kani))] native_branch() }
    fn p11_native(unwind = 2) { #[cfg(not(kani))] native_tree() }
}
