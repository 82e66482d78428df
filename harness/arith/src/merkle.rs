//! C29: Merkle trees and membership proofs. The oracle hashes the whole tree naively.
use crate::model::*;
use arith::*;
use gf2::*;
use goldilocks::*;
use halo2curves::bn256::Fr;
use mersenne31::*;
use pbt::*;
use serdes::ExpSerde;
use tiny_keccak::{Hasher, Keccak};
use tree::*;

fn k(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Keccak::v256();
    for p in parts { h.update(p) }
    let mut o = [0u8; 32];
    h.finalize(&mut o);
    o
}
/// Levels from the leaf hashes (first) to the root (last).
fn levels(leaves: &[[u8; 64]]) -> Vec<Vec<[u8; 32]>> {
    let mut l = vec![leaves.iter().map(|d| k(&[d])).collect::<Vec<_>>()];
    while l.last().unwrap().len() > 1 {
        let n = l.last().unwrap().chunks(2).map(|c| k(&[&c[0], &c[1]])).collect();
        l.push(n);
    }
    l
}
fn gen_leaves(s: &mut Src, n: usize) -> Vec<[u8; 64]> {
    let mut g = SplitMix(s.draw(u64::MAX));
    let mut v: Vec<[u8; 64]> = (0..n).map(|_| { let mut d = [0u8; 64]; for b in d.iter_mut() { *b = g.next() as u8 } d }).collect();
    if s.chance(1, 4) { let (i, j) = (s.below(n), s.below(n)); v[i] = v[j]; s.label("equal leaves") }
    if s.chance(1, 8) { let i = s.below(n); v[i] = [0; 64]; }
    v
}
fn ser<T: ExpSerde>(x: &T) -> Vec<u8> { let mut v = vec![]; x.serialize_into(&mut v).unwrap(); v }
fn tree_of(l: &[[u8; 64]]) -> Tree { Tree::new_with_leaves(l.iter().map(|d| Leaf::new(*d)).collect()) }
/// Path and RangePath keep their siblings private, so build variants through their encoding.
fn path_bytes(leaf: &[u8; 64], sib: &[[u8; 32]], index: usize) -> Vec<u8> {
    let mut v = leaf.to_vec();
    v.extend((sib.len() as u64).to_le_bytes());
    for n in sib { v.extend(n) }
    v.extend((index as u64).to_le_bytes());
    v
}
fn range_bytes(leaves: &[[u8; 64]], sib: &[[u8; 32]], l: usize, r: usize) -> Vec<u8> {
    let mut v = (leaves.len() as u64).to_le_bytes().to_vec();
    for n in leaves { v.extend(n) }
    v.extend((sib.len() as u64).to_le_bytes());
    for n in sib { v.extend(n) }
    v.extend((l as u64).to_le_bytes());
    v.extend((r as u64).to_le_bytes());
    v
}
/// Siblings from the root downwards, as stored, of node `i` at level `lv`.
fn siblings(lv: &[Vec<[u8; 32]>], mut i: usize, from: usize) -> Vec<[u8; 32]> {
    let mut o = vec![];
    for l in &lv[from..lv.len() - 1] { o.push(l[i ^ 1]); i >>= 1 }
    o.reverse();
    o
}

fn build(s: &mut Src) -> R {
    let h = s.usize_in(0, 7);
    let n = 1usize << h;
    let leaves = gen_leaves(s, n);
    if h > 1 { s.nontrivial() }
    s.evals(n as u64);
    let lv = levels(&leaves);
    let t = tree_of(&leaves);
    ensure_eq!(t.size(), n, "size");
    ensure_eq!(t.height(), h + 1, "height");
    let want: Vec<[u8; 32]> = lv.iter().rev().flatten().cloned().collect();
    ensure!(t.nodes.iter().map(|x| x.as_bytes().to_vec()).eq(want.iter().map(|x| x.to_vec())), "{n} leaves: tree nodes differ from hashing level by level");
    ensure!(t.root().as_bytes() == want[0], "root of {n} leaves");
    ensure!(t.leaves.iter().map(|l| l.data).eq(leaves.iter().cloned()), "leaves are not kept");
    let t2 = Tree::deserialize_from(&ser(&t)[..]).map_err(|e| Fail::Violation(format!("tree does not read back: {e:?}")))?;
    ensure!(t2 == t, "tree changed in its encoding");
    if n > 1 {
        let i = s.below(n);
        let p = t.index_query(i);
        ensure!(p == t.gen_proof(i, h + 1), "gen_proof and index_query differ");
        ensure!(ser(&p) == path_bytes(&leaves[i], &siblings(&lv, i, 0), i), "{n} leaves: proof of leaf {i} is not its siblings from the root down");
        ensure!(p.verify(&t.root()) && p.root() == t.root() && p.leaf().data == leaves[i], "honest proof of leaf {i} of {n} rejected");
        let q = Path::deserialize_from(&ser(&p)[..]).map_err(|e| Fail::Violation(format!("path does not read back: {e:?}")))?;
        ensure!(q == p, "path changed in its encoding");
        let k = s.usize_in(1, h);
        let l = s.below(n >> k) << k;
        let r = l + (1 << k) - 1;
        let p = t.range_query(l, r);
        ensure!(p == t.gen_range_proof(l, r, h + 1), "gen_range_proof and range_query differ");
        ensure!(ser(&p) == range_bytes(&leaves[l..=r], &siblings(&lv, l >> k, k), l, r), "{n} leaves: range proof [{l},{r}] is not its leaves and siblings");
        ensure!(p.verify(&t.root()) && p.root() == t.root(), "honest range proof [{l},{r}] of {n} rejected");
        let q = RangePath::deserialize_from(&ser(&p)[..]).map_err(|e| Fail::Violation(format!("range path does not read back: {e:?}")))?;
        ensure!(q == p, "range path changed in its encoding");
    }
    Ok(())
}

/// Any claim that is not true of the tree is refused, without a panic.
fn forge(s: &mut Src) -> R {
    let h = s.usize_in(1, 6);
    let n = 1usize << h;
    let leaves = gen_leaves(s, n);
    let lv = levels(&leaves);
    let root = tree_of(&leaves).root();
    s.nontrivial();
    let big = |s: &mut Src| -> usize { match s.below(5) { 0 => s.below(n), 1 => n + s.below(n), 2 => n << s.below(8), 3 => usize::MAX - s.below(3), _ => s.u64_any() as usize } };
    if s.bool() {
        let i = s.below(n);
        let (mut leaf, mut sib, mut index) = (leaves[i], siblings(&lv, i, 0), i);
        for _ in 0..s.usize_in(1, 2) {
            match s.below(7) {
                0 => { let b = s.below(512); leaf[b / 8] ^= 1 << (b % 8); s.label("leaf bit") }
                1 => { let (j, b) = (s.below(sib.len().max(1)), s.below(256)); if let Some(x) = sib.get_mut(j) { x[b / 8] ^= 1 << (b % 8) } s.label("sibling bit") }
                2 => { index = s.below(n); s.label("index in range") }
                3 => { index = big(s); s.label("index") }
                4 => { sib.pop(); s.label("shorter path") }
                5 => { let m = s.usize_in(1, 70); for _ in 0..m { sib.insert(0, [7; 32]) } s.label("longer path") }
                _ => { let (a, b) = (s.below(sib.len().max(1)), s.below(sib.len().max(1))); if !sib.is_empty() { sib.swap(a, b) } s.label("swapped siblings") }
            }
        }
        let p = Path::deserialize_from(&path_bytes(&leaf, &sib, index)[..]).map_err(|e| Fail::Violation(format!("{e:?}")))?;
        let truth = sib.len() == h && index < n && leaves[index] == leaf && sib == siblings(&lv, index, 0);
        let got = no_panic(|| p.verify(&root)).map_err(|e| Fail::Violation(format!("Path::verify panicked: {e}")))?;
        ensure!(got == truth, "path of {} siblings claiming index {index} in a tree of {n} leaves: verify says {got}", sib.len());
    } else {
        let k = s.usize_in(0, h);
        let l = s.below(n >> k) << k;
        let r = l + (1 << k) - 1;
        let (mut ls, mut sib, mut left, mut right) = (leaves[l..=r].to_vec(), siblings(&lv, l >> k, k), l, r);
        for _ in 0..s.usize_in(1, 2) {
            match s.below(9) {
                0 => { let (j, b) = (s.below(ls.len().max(1)), s.below(512)); if let Some(x) = ls.get_mut(j) { x[b / 8] ^= 1 << (b % 8) } s.label("leaf bit") }
                1 => { let (j, b) = (s.below(sib.len().max(1)), s.below(256)); if let Some(x) = sib.get_mut(j) { x[b / 8] ^= 1 << (b % 8) } s.label("sibling bit") }
                2 => { let d = s.below(n); left = d; right = d + (r - l); s.label("shifted range") }
                3 => { left = big(s); s.label("left") }
                4 => { right = big(s); s.label("right") }
                5 => { sib.pop(); s.label("shorter path") }
                6 => { let m = s.usize_in(1, 70); for _ in 0..m { sib.insert(0, [7; 32]) } s.label("longer path") }
                7 => { let m = s.usize_in(0, 2 * n); ls.resize(m, leaves[0]); s.label("leaf count") }
                _ => { let (a, b) = (s.below(ls.len().max(1)), s.below(ls.len().max(1))); if !ls.is_empty() { ls.swap(a, b) } s.label("swapped leaves") }
            }
        }
        let p = RangePath::deserialize_from(&range_bytes(&ls, &sib, left, right)[..]).map_err(|e| Fail::Violation(format!("{e:?}")))?;
        let m = ls.len();
        let truth = m.is_power_of_two() && m <= n && left < n && left % m == 0 && right == left + m - 1 && leaves[left..=right] == ls[..]
            && sib == siblings(&lv, left / m, m.ilog2() as usize);
        let got = no_panic(|| p.verify(&root)).map_err(|e| Fail::Violation(format!("RangePath::verify panicked: {e}")))?;
        ensure!(got == truth, "range path of {m} leaves and {} siblings claiming [{left},{right}] in a tree of {n} leaves: verify says {got}", sib.len());
    }
    Ok(())
}

/// Leaves made of field elements are their concatenated encodings.
fn compact<F: Fl, P: Fl + SimdField<Scalar = F>>(s: &mut Src) -> R {
    let h = s.usize_in(0, 4);
    let leaves = 1usize << h;
    let packed = (leaves * 64).div_ceil(P::SIZE);
    let n = packed * P::PACK_SIZE;
    let e: Vec<F> = (0..n).map(|_| F::build(&gen_flat::<F>(s))).collect();
    if h > 0 { s.nontrivial() }
    let pk: Vec<P> = e.chunks(P::PACK_SIZE).map(|c| P::pack(c)).collect();
    let mut bytes = vec![];
    for p in &pk {
        if P::NAME == Fr::NAME { // kept in Montgomery form, which the leaves hold as it is
            bytes.extend(unsafe { std::slice::from_raw_parts(p as *const P as *const u8, P::SIZE) })
        } else { p.serialize_into(&mut bytes).unwrap() }
    }
    let want: Vec<[u8; 64]> = bytes.chunks(64).map(|c| c.try_into().unwrap()).collect();
    let a = Tree::compact_new_with_field_elems::<F, P>(e);
    ensure!(a.leaves.iter().map(|l| l.data).eq(want.iter().cloned()), "{}: leaves are not the encodings of the elements", P::NAME);
    ensure!(a.root().as_bytes() == levels(&want).last().unwrap()[0], "{}: root", P::NAME);
    let mut spare = Vec::with_capacity(pk.len() * s.usize_in(1, 3));
    spare.extend(pk);
    let b = Tree::compact_new_with_packed_field_elems::<F, P>(spare);
    ensure!(a == b, "{}: the two constructors differ", P::NAME);
    Ok(())
}

pub fn c29() -> Check {
    Check::new("C29", "exploration", "trees of 1-128 leaves, honest proofs and proofs with one or two edits; non-trivial: more than one level")
        .prop("construction and honest proofs", 48000, 192000, build)
        .prop("false claims", 180000, 720000, forge)
        .prop("leaves of M31", 6000, 24000, compact::<M31, M31x16>)
        .prop("leaves of GoldilocksExt2", 6000, 24000, compact::<GoldilocksExt2, GoldilocksExt2x8>)
        .prop("leaves of GF2", 6000, 24000, compact::<GF2, GF2x128>)
        .prop("leaves of GF2x64", 6000, 24000, compact::<GF2, GF2x64>)
        .prop("leaves of Goldilocks", 6000, 24000, compact::<Goldilocks, Goldilocksx8>)
        .prop("leaves of Fr", 6000, 24000, compact::<Fr, Fr>)
}
