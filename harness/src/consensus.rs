//! P05 P06 P07 P08 P09 P10: signatures, proof of work, Merkle trees, validation
use crate::all;
use crate::codec::info;
use crate::util::*;
use blockchaintree::block::{BlockArc, DerivativeBlock, SummarizeBlock, TransactionBlock};
use blockchaintree::merkletree::MerkleTree;
use blockchaintree::tools;
use blockchaintree::transaction::{Transaction, Transactionable};
use primitive_types::U256;
use secp256k1::{PublicKey, Secp256k1, SecretKey};
use std::sync::Arc;
use symrt::{assume, attempt, check, choice, cover};

// ------------------------------------------------------------------- P05
/// a key pair of the (ideal) signature scheme
pub fn key(name: &str) -> ([u8; 32], [u8; 33]) {
    let mut sk: [u8; 32] = symrt::bytes(name);
    sk[0] = 1; // inside the group order
    let s = SecretKey::from_slice(&sk).unwrap();
    (sk, PublicKey::from_secret_key(&Secp256k1::new(), &s).serialize())
}
struct Signed {
    sk: [u8; 32],
    pk: [u8; 33],
    receiver: [u8; 33],
    ts: u64,
    amount: U256,
    data: Option<Vec<u8>>,
}
fn payload(name: &str, lens: &[usize]) -> Option<Vec<u8>> {
    let i = choice(lens.len() as u64 + 1, name) as usize;
    if i == lens.len() {
        None
    } else {
        Some(symrt::vec(lens[i], "data"))
    }
}
fn signed(sizes: &[usize], lens: &[usize]) -> Signed {
    let (sk, pk) = key("key");
    Signed {
        sk,
        pk,
        receiver: symrt::bytes("receiver"),
        ts: symrt::u64("ts"),
        amount: u256_among(sizes, "amount").0,
        data: payload("payload", lens),
    }
}
pub fn h_p05_own() {
    let s = signed(&ALL_SIZES, &[0, 1, 9]);
    match Transaction::new(s.pk, s.receiver, s.ts, s.amount, s.sk, s.data.clone()) {
        Ok(t) => {
            check(matches!(t.verify(), Ok(true)), "a transaction signed by its sender verifies");
            let p = Transaction::parse(&t.dump().unwrap()[1..]).unwrap();
            check(matches!(p.verify(), Ok(true)), "it verifies after being encoded and decoded");
            check(
                all!(
                    eq(t.get_sender(), &s.pk),
                    eq(t.get_receiver(), &s.receiver),
                    t.get_timestamp() == s.ts,
                    eqn(t.get_amount(), &s.amount),
                    eq(t.get_data().unwrap_or(&[]), s.data.as_deref().unwrap_or(&[])),
                ),
                "it carries the fields that were given",
            );
        }
        Err(_) => check(false, "a transaction can be created with a valid key"),
    }
}
fn altered(sizes: &[usize], lens: &[usize]) {
    let s = signed(sizes, lens);
    let t = Transaction::new(s.pk, s.receiver, s.ts, s.amount, s.sk, s.data.clone()).unwrap();
    let what = choice(6, "altered");
    let sender: [u8; 33] = if what == 0 { symrt::bytes("sender2") } else { s.pk };
    let receiver: [u8; 33] = if what == 1 { symrt::bytes("receiver2") } else { s.receiver };
    let ts = if what == 2 { symrt::u64("ts2") } else { s.ts };
    let sig: [u8; 64] = if what == 3 { symrt::bytes("sig2") } else { *t.get_signature() };
    let amount = if what == 4 { u256_among(sizes, "amount2").0 } else { s.amount };
    let data = if what == 5 { payload("payload2", lens) } else { s.data.clone() };
    assume(!all!(
        eq(&sender, &s.pk),
        eq(&receiver, &s.receiver),
        ts == s.ts,
        eq(&sig, t.get_signature()),
        eqn(&amount, &s.amount),
        eq(data.as_deref().unwrap_or(&[]), s.data.as_deref().unwrap_or(&[])),
    ));
    let f = Transaction::new_signed(sender, receiver, ts, amount, data, sig);
    let r = attempt(|| f.verify());
    check(!r.panicked(), "verification never panics");
    check(!matches!(r.done(), Some(Ok(true))), "an altered transaction does not verify");
}
pub fn h_p05_altered() {
    altered(&[0, 1, 9, 32], &[0, 1, 2, 9]);
}
/// every size of the amount
pub fn h_p05_sizes() {
    altered(&ALL_SIZES, &[1]);
}
/// longer payloads, of the same and of another length
pub fn h_p05_long() {
    altered(&[1], &[31, 32, 33, 55, 56, 63, 64, 65, 66, 127, 128, 129, 200, 255, 256, 257, 300, 1000]);
}
pub fn t_p05_altered() {
    altered(&ALL_SIZES, &[0, 1, 2, 3, 9, 32, 33, 64]);
}
/// everything differs at once, or any part of it
pub fn h_p05_forged() {
    let s = signed(&FEW_SIZES, &[2]);
    let t = Transaction::new(s.pk, s.receiver, s.ts, s.amount, s.sk, s.data.clone()).unwrap();
    let sender: [u8; 33] = symrt::bytes("sender2");
    let receiver: [u8; 33] = symrt::bytes("receiver2");
    let ts = symrt::u64("ts2");
    let sig: [u8; 64] = symrt::bytes("sig2");
    let amount = u256_among(&FEW_SIZES, "amount2").0;
    let data = payload("payload2", &[2, 3]);
    let f = Transaction::new_signed(sender, receiver, ts, amount, data.clone(), sig);
    let same = all!(
        eq(&sender, &s.pk),
        eq(&receiver, &s.receiver),
        ts == s.ts,
        eq(&sig, t.get_signature()),
        eqn(&amount, &s.amount),
        eq(data.as_deref().unwrap_or(&[]), s.data.as_deref().unwrap_or(&[])),
    );
    match f.verify() {
        Ok(true) => {
            cover("verifies");
            check(same, "only the transaction that was signed verifies");
        }
        _ => {
            cover("does not verify");
            check(!same, "the transaction that was signed verifies");
        }
    }
}
pub fn h_p05_wrong_key() {
    let s = signed(&FEW_SIZES, &[3]);
    let sender: [u8; 33] = symrt::bytes("sender");
    assume(!eq(&sender, &s.pk));
    if let Ok(t) = Transaction::new(sender, s.receiver, s.ts, s.amount, s.sk, s.data) {
        check(!matches!(t.verify(), Ok(true)), "a transaction signed with another key does not verify");
    }
}
pub fn h_p05_bad_key() {
    let sk: [u8; 32] = symrt::bytes("key");
    let r = attempt(|| Transaction::new([2; 33], [3; 33], 5, small(7), sk, None).is_ok());
    check(!r.panicked(), "creating a transaction never panics, whatever the key");
    cover(if r.done() == Some(true) { "created" } else { "refused" });
}

// ------------------------------------------------------------------- P06
pub fn h_p06_step() {
    let k = choice(256, "bits") as u32 + 1;
    let (prev, ts) = (symrt::u64("prev"), symrt::u64("ts"));
    let mut d = threshold(k);
    let r = attempt(|| tools::recalculate_difficulty(prev, ts, &mut d));
    check(!r.panicked(), "retargeting never fails");
    let dt = ts.saturating_sub(prev);
    if dt < 600 {
        cover("faster");
        check(d == threshold(if k < 256 { k + 1 } else { 256 }), "one more leading zero bit after a fast block");
    } else if dt > 600 {
        cover("slower");
        check(d == threshold(if k > 1 { k - 1 } else { 1 }), "one leading zero bit less after a slow block");
    } else {
        cover("on time");
        check(d == threshold(k), "unchanged at the target time");
    }
}
/// thresholds that retargeting itself never produces
pub fn h_p06_any() {
    let old: [u8; 32] = symrt::bytes("difficulty");
    let (prev, ts) = (symrt::u64("prev"), symrt::u64("ts"));
    let mut d = old;
    let r = attempt(|| tools::recalculate_difficulty(prev, ts, &mut d));
    check(!r.panicked(), "retargeting never fails");
    let dt = ts.saturating_sub(prev);
    let (a, b) = (lzf(&old), lzf(&d));
    check(
        all!(
            (dt != 600) | eq(&d, &old),
            (dt >= 600) | (b >= a),
            (dt <= 600) | ((b <= a) & ((b >= 1) | (a == 0)) & ((b == a) | (b + 1 == a))),
        ),
        "any threshold moves in the right direction and not past the easiest",
    );
}

// ------------------------------------------------------------------- P07
fn pow_exact(ns: &[usize], lens: &[usize]) {
    pow_against(ns, lens, symrt::bytes("difficulty"));
}
fn pow_against(ns: &[usize], lens: &[usize], d: [u8; 32]) {
    let hash: [u8; 32] = symrt::bytes("hash");
    let n = ns[choice(ns.len() as u64, "txs") as usize];
    let txs: Vec<[u8; 32]> = (0..n).map(|_| symrt::bytes("tx")).collect();
    let l = lens[choice(lens.len() as u64, "pow_len") as usize];
    let pow = symrt::vec(l, "pow");
    let mut m = hash.to_vec();
    m.extend_from_slice(&merkle(&txs));
    m.extend_from_slice(&pow);
    let r = tools::check_pow(&hash, &d, &txs, &pow);
    cover(if r { "accepted" } else { "refused" });
    let enough = at_least(&symrt::sha256(&m), lzf(&d));
    check(r == enough, "accepted exactly if the digest has the leading zero bits of the threshold");
}
pub fn h_p07_exact() {
    pow_exact(&[0, 1, 2], &[0, 1, 32]);
}
/// more transactions and other lengths of the nonce, at a few thresholds
pub fn h_p07_more() {
    let k = [1, 12, 250][choice(3, "bits") as usize];
    match choice(2, "what") {
        0 => pow_against(&[3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 255, 256], &[32], threshold(k)),
        _ => pow_against(&[1, 3], &[2, 3, 4, 7, 8, 9, 15, 16, 31, 33, 40, 63, 64, 65, 100, 255, 256, 300], threshold(k)),
    }
}
pub fn t_p07_exact() {
    pow_exact(&[0, 1, 2, 3, 4, 5, 8], &[0, 1, 8, 31, 32, 33, 64]);
}

// ------------------------------------------------------------------- P08
fn leaves(n: usize) -> Vec<[u8; 32]> {
    (0..n).map(|_| symrt::bytes("leaf")).collect()
}
fn root(n: usize) {
    let l = leaves(n);
    let t = MerkleTree::build_tree(&l);
    check(eq(t.get_root(), &merkle(&l)), "the root is that of the padded tree over the list");
}
pub fn h_p08_root() {
    root(choice(34, "n") as usize);
}
pub fn h_p08_root_large() {
    root([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512][choice(12, "n") as usize]);
}
pub fn t_p08_root() {
    root(choice(300, "n") as usize);
}
fn member(n: usize) {
    member_of(&patterned(n, "leaf"));
}
fn member_of(l: &[[u8; 32]]) {
    let t = MerkleTree::build_tree(l);
    let j = choice(l.len() as u64, "member") as usize;
    let p = t.get_proof(&l[j]);
    check(p.len() >= 2, "a member has a proof");
    check(eq(p[p.len() - 1], t.get_root()), "the proof ends in the root");
    check(
        MerkleTree::verify_proof(&l[j], t.get_root(), &p[..p.len() - 1]),
        "the proof of a member is accepted",
    );
}
pub fn h_p08_member() {
    member(1 + choice(6, "n") as usize);
}
/// leaves that differ in their last bytes, any value otherwise
fn tagged(n: usize) -> Vec<[u8; 32]> {
    (0..n)
        .map(|i| {
            let mut l: [u8; 32] = symrt::bytes("leaf");
            l[30..].copy_from_slice(&(i as u16).to_be_bytes());
            l
        })
        .collect()
}
/// every member of a larger list, all different or one of them twice
pub fn h_p08_member_large() {
    let ns = [7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64, 65, 100];
    let n = ns[choice(13, "n") as usize];
    let mut l = tagged(n);
    if choice(2, "twice") == 1 {
        l[n - 1] = l[choice(n as u64 - 1, "again") as usize];
    }
    member_of(&l);
}
pub fn t_p08_member() {
    member(1 + choice(16, "n") as usize);
}
fn verify(depth: usize) {
    let h: [u8; 32] = symrt::bytes("hash");
    let root: [u8; 32] = symrt::bytes("root");
    let p: Vec<[u8; 32]> = (0..depth).map(|_| symrt::bytes("sibling")).collect();
    let refs: Vec<&[u8; 32]> = p.iter().collect();
    let mut x = h;
    for s in &p {
        x = symrt::sha256(&and(&x, s));
    }
    let same = eq(&x, &root);
    let r = MerkleTree::verify_proof(&h, &root, &refs);
    cover(if r { "accepted" } else { "refused" });
    check(r == same, "a proof is accepted exactly if its recomputed root is the given one");
}
pub fn h_p08_verify() {
    verify(1 + choice(12, "depth") as usize);
}
pub fn t_p08_verify() {
    verify(1 + choice(24, "depth") as usize);
}

// ------------------------------------------------------------------- P09
fn pow2_above(n: usize) -> usize {
    let mut x = 1;
    while x <= n {
        x *= 2;
    }
    x
}
/// the values combined pairwise at every level of the padded tree
fn pairs(items: &[[u8; 32]]) -> Vec<([u8; 32], [u8; 32])> {
    let mut level = items.to_vec();
    level.resize(pow2_above(items.len()), PAD);
    let mut out = Vec::new();
    while level.len() > 1 {
        let mut up = Vec::new();
        for p in level.chunks(2) {
            out.push((p[0], p[1]));
            up.push(symrt::sha256(&and(&p[0], &p[1])));
        }
        level = up;
    }
    out
}
/// Binding, except through the bitwise AND of siblings (known finding).
fn binding(n: usize, m: usize) {
    assume(pow2_above(n) == pow2_above(m));
    let (a, b) = (leaves(n), leaves(m));
    for x in a.iter().chain(b.iter()) {
        assume(!eq(x, &PAD));
    }
    let mut same = n == m;
    if same {
        for i in 0..n {
            same &= eq(&a[i], &b[i]);
        }
    }
    assume(!same);
    for (p, q) in pairs(&a).iter().zip(pairs(&b).iter()) {
        let equal = eq(&p.0, &q.0) & eq(&p.1, &q.1);
        assume(!eq(&and(&p.0, &p.1), &and(&q.0, &q.1)) | equal);
    }
    let (s, t) = (MerkleTree::build_tree(&a), MerkleTree::build_tree(&b));
    check(!eq(s.get_root(), t.get_root()), "different lists have different roots");
}
pub fn h_p09_binding() {
    let n = 1 + choice(3, "n") as usize;
    let m = 1 + choice(3, "m") as usize;
    binding(n, m);
}
/// the levels of the padded tree, leaves first
fn levels(items: &[[u8; 32]]) -> Vec<Vec<[u8; 32]>> {
    let mut level = items.to_vec();
    level.resize(pow2_above(items.len()), PAD);
    let mut out = vec![level.clone()];
    while level.len() > 1 {
        level = level.chunks(2).map(|p| symrt::sha256(&and(&p[0], &p[1]))).collect();
        out.push(level.clone());
    }
    out
}
/// Different lists have different roots, except through the bitwise AND of
/// siblings and through leaves that are inner nodes (known findings).
fn differ(a: &[[u8; 32]], b: &[[u8; 32]]) {
    for x in a.iter().chain(b.iter()) {
        assume(!eq(x, &PAD));
    }
    let mut same = a.len() == b.len();
    if same {
        for i in 0..a.len() {
            same &= eq(&a[i], &b[i]);
        }
    }
    assume(!same);
    let (x, y) = (levels(a), levels(b));
    // from the roots down
    for (p, q) in x.iter().rev().zip(y.iter().rev()).skip(1) {
        for (p, q) in p.chunks(2).zip(q.chunks(2)) {
            let equal = eq(&p[0], &q[0]) & eq(&p[1], &q[1]);
            assume(!eq(&and(&p[0], &p[1]), &and(&q[0], &q[1])) | equal);
        }
    }
    let d = x.len().min(y.len());
    if x.len() != y.len() {
        let (p, q) = (&x[x.len() - d], &y[y.len() - d]);
        let mut all = true;
        for (p, q) in p.iter().zip(q.iter()) {
            all &= eq(p, q);
        }
        assume(!all);
    }
    let (s, t) = (MerkleTree::build_tree(a), MerkleTree::build_tree(b));
    check(!eq(s.get_root(), t.get_root()), "different lists have different roots");
}
/// Larger lists, made from one another.
fn related(ns: &[usize], hows: u64) {
    let n = ns[choice(ns.len() as u64, "n") as usize];
    let a = leaves(n);
    let mut b = a.clone();
    // in a large list: first, middle or last
    let at = |name| if n > 6 { [0, n / 2, n - 1][choice(3, name) as usize] } else { choice(n as u64, name) as usize };
    match choice(hows, "how") {
        0 => b[at("replaced")] = symrt::bytes("leaf"),
        1 => {
            b.pop();
        }
        2 => b.push(a[at("again")]),
        3 => b.rotate_left(1),
        4 => b.swap(0, at("swapped")),
        _ => b[at("overwritten")] = a[n - 1],
    }
    differ(&a, &b);
}
pub fn h_p09_related() {
    related(&[1, 2, 3, 4, 5], 6);
}
pub fn h_p09_related_large() {
    related(&[7, 8, 9, 16, 17], 3);
}
/// the empty list, and lists of different heights
pub fn h_p09_heights() {
    let n = choice(4, "n") as usize;
    let m = [1, 2, 3, 4, 7, 8][choice(6, "m") as usize];
    differ(&leaves(n), &leaves(m));
}
pub fn t_p09_related() {
    related(&[6, 7, 8, 9, 10, 16, 17, 31, 32], 6);
}
pub fn t_p09_binding() {
    let n = 1 + choice(7, "n") as usize;
    let m = 1 + choice(7, "m") as usize;
    binding(n, m);
}
fn outsider(n: usize) {
    let l = leaves(n);
    let t = MerkleTree::build_tree(&l);
    let h: [u8; 32] = symrt::bytes("claimed");
    let mut inside = false;
    for x in &l {
        inside |= eq(x, &h);
    }
    assume(!inside & !eq(&h, &PAD));
    // proofs made from the tree, also for somebody else
    let w = choice(n as u64 + 1, "proof_of") as usize;
    let p = t.get_proof(if w == n { &h } else { &l[w] });
    let p = &p[..p.len() - 1];
    // except through the bitwise AND with a sibling, at any level (known finding)
    let mut x = h;
    let mut walks: Vec<[u8; 32]> = l.iter().chain([&PAD]).cloned().collect();
    for q in p {
        let c = and(&x, q);
        for y in walks.iter_mut() {
            let d = and(y, q);
            assume(!eq(&c, &d) | eq(&x, y));
            *y = symrt::sha256(&d);
        }
        x = symrt::sha256(&c);
    }
    check(!MerkleTree::verify_proof(&h, t.get_root(), p), "no proof is accepted for a hash that is not in the list");
}
pub fn h_p09_outsider() {
    outsider(1 + choice(3, "n") as usize);
}
/// one replaced hash in a larger list
pub fn h_p09_outsider_large() {
    let n = [4, 7][choice(2, "n") as usize];
    let l = tagged(n);
    let h: [u8; 32] = symrt::bytes("claimed");
    assume(!eq(&h, &PAD));
    for x in &l {
        assume(!eq(x, &h));
    }
    let t = MerkleTree::build_tree(&l);
    let w = choice(n as u64 + 1, "proof_of") as usize;
    let p = t.get_proof(if w == n { &h } else { &l[w] });
    let p = &p[..p.len() - 1];
    // the walk up from the hash must not meet another one of the tree
    let mut x = h;
    let ls = levels(&l);
    for (q, level) in p.iter().zip(&ls) {
        let c = and(&x, q);
        for p in level.chunks(2) {
            assume(!eq(&c, &and(&p[0], &p[1])));
        }
        x = symrt::sha256(&c);
    }
    check(!MerkleTree::verify_proof(&h, t.get_root(), p), "no proof is accepted for a hash that is not in the list");
}
pub fn t_p09_outsider() {
    outsider(1 + choice(7, "n") as usize);
}
/// Known finding: siblings are combined by bitwise AND before hashing.
pub fn k_p09_and() {
    let (a, b) = (leaves(2), leaves(2));
    for x in a.iter().chain(b.iter()) {
        assume(!eq(x, &PAD));
    }
    assume(!(eq(&a[0], &b[0]) & eq(&a[1], &b[1])));
    let (s, t) = (MerkleTree::build_tree(&a), MerkleTree::build_tree(&b));
    check(!eq(s.get_root(), t.get_root()), "two different lists of two hashes have different roots");
}
/// Known finding: leaves and inner nodes are not told apart.
pub fn k_p09_levels() {
    let a = leaves(2);
    let b = vec![and(&symrt::sha256(&and(&a[0], &a[1])), &symrt::sha256(&PAD))];
    let (s, t) = (MerkleTree::build_tree(&a), MerkleTree::build_tree(&b));
    check(!eq(s.get_root(), t.get_root()), "lists of one and of two hashes have different roots");
}

// ------------------------------------------------------------------- P10
/// a block of the kind with its documented encoding; the transactions
fn block(kind: u64, sizes: &[usize], ns: &[usize], diff: Option<[u8; 32]>) -> (BlockArc, Vec<u8>, Vec<[u8; 32]>) {
    let mut i = info(sizes);
    if let Some(d) = diff {
        i.b.difficulty = d;
        i.enc[8 + 32 + 32..8 + 32 + 32 + 32].copy_from_slice(&d);
    }
    match kind {
        0 => {
            let (fee, fenc) = u256_among(&[1], "fee");
            let root: [u8; 32] = symrt::bytes("root");
            let n = ns[choice(ns.len() as u64, "txs") as usize];
            let txs = leaves(n);
            let mut e = vec![2u8];
            e.extend_from_slice(&root);
            e.extend_from_slice(&i.enc);
            e.extend_from_slice(&fenc);
            for t in &txs {
                e.extend_from_slice(t);
            }
            (Arc::new(TransactionBlock::new(fee, i.b, root, txs.clone())), e, txs)
        }
        1 => {
            let root: [u8; 32] = symrt::bytes("root");
            let mut e = vec![4u8];
            e.extend_from_slice(&root);
            e.extend_from_slice(&i.enc);
            (Arc::new(SummarizeBlock { default_info: i.b, merkle_tree_root: root }), e, vec![])
        }
        _ => {
            let mut e = vec![3u8];
            e.extend_from_slice(&i.enc);
            (Arc::new(DerivativeBlock { default_info: i.b }), e, vec![])
        }
    }
}
/// `a` is at least `k` leading zero bits, branching byte by byte
pub fn at_least(a: &[u8; 32], k: u32) -> bool {
    let t = threshold(k);
    for i in 0..32 {
        if a[i] > t[i] {
            return false;
        }
    }
    true
}
/// The right value, or any other one (forked).
fn right_or(v: [u8; 32], name: &str) -> ([u8; 32], bool) {
    if choice(2, "right") == 0 {
        return (v, true);
    }
    let x: [u8; 32] = symrt::bytes(name);
    assume(!eq(&x, &v));
    (x, false)
}
/// A block over `prev` in which link, Merkle root and difficulty are each
/// right or any wrong value; the verdict must be the conjunction.
fn valid_iff(kind: u64, sizes: &[usize], n: usize, prev: BlockArc, penc: &[u8], k: u32, expected: impl Fn(u64) -> [u8; 32]) {
    let ts = symrt::u64("ts");
    let mut i = info(sizes);
    let hash = symrt::sha256(penc);
    let (link, linked) = right_or(hash, "previous_hash");
    let (diff, target) = right_or(expected(ts), "difficulty");
    i.b.previous_hash = link;
    i.b.difficulty = diff;
    i.b.timestamp = ts;
    let pow = i.b.pow;
    let txs = leaves(n);
    let m = merkle(&txs);
    let mut rooted = true;
    let b: BlockArc = match kind {
        0 => {
            let (root, r) = right_or(m, "root");
            rooted = r;
            Arc::new(TransactionBlock::new(u256_among(&[1], "fee").0, i.b, root, txs))
        }
        1 => Arc::new(SummarizeBlock { default_info: i.b, merkle_tree_root: symrt::bytes("root") }),
        _ => Arc::new(DerivativeBlock { default_info: i.b }),
    };
    check(b.verify_block(&link), "a block extends the block it names");
    if !linked {
        check(!b.verify_block(&hash), "a block extends only the block it names");
    }
    let r = attempt(|| b.validate(Some(prev.clone())));
    check(!r.panicked(), "validation never panics");
    let Some(Ok(v)) = r.done() else {
        check(false, "validation gives an answer");
        return;
    };
    cover(if v { "valid" } else { "not valid" });
    if !linked | !target | !rooted {
        check(!v, "a block with a wrong link, Merkle root or difficulty is not valid");
    } else {
        let mut w = hash.to_vec();
        w.extend_from_slice(&m);
        w.extend_from_slice(&pow);
        let work = at_least(&symrt::sha256(&w), k);
        check(v == work, "a linked, rooted block of the right difficulty is valid exactly if it has the work");
    }
}
/// the retargeted threshold, one fork per direction
fn stepped(k: u32, prev_ts: u64, ts: u64) -> [u8; 32] {
    threshold(retarget(k, prev_ts, ts))
}
fn valid(kinds: &[u64], prevs: &[u64], ns: &[usize], bits: &[u32]) {
    let k = bits[choice(bits.len() as u64, "bits") as usize];
    let pk = prevs[choice(prevs.len() as u64, "previous_kind") as usize];
    let (prev, penc, _) = block(pk, &[1], &[1], Some(threshold(k)));
    let kind = kinds[choice(kinds.len() as u64, "kind") as usize];
    let n = if kind == 0 { ns[choice(ns.len() as u64, "txs") as usize] } else { 0 };
    let pt = prev.get_info().timestamp;
    valid_iff(kind, &[1, 32], n, prev, &penc, k, |ts| stepped(k, pt, ts));
}
pub fn h_p10_transactions() {
    valid(&[0], &[0], &[0, 1, 2, 3], &[1, 2, 8, 256]);
}
/// more transactions in the block, and in the one before
pub fn h_p10_many() {
    let n = [4, 5, 7, 8, 9, 15, 16, 17, 32, 33, 64, 100, 256][choice(13, "n") as usize];
    let (prev, penc, _) = block(0, &[1], &[0, 2, 7, 33], Some(threshold(1)));
    let pt = prev.get_info().timestamp;
    valid_iff(0, &[1], n, prev, &penc, 1, |ts| stepped(1, pt, ts));
}
/// heights of every size
pub fn h_p10_heights() {
    let kind = choice(3, "kind");
    let (prev, penc, _) = block(kind, &[0, 1, 8, 9, 32], &[1], Some(threshold(1)));
    let pt = prev.get_info().timestamp;
    valid_iff(kind, &ALL_SIZES, if kind == 0 { 1 } else { 0 }, prev, &penc, 1, |ts| stepped(1, pt, ts));
}
pub fn h_p10_kinds() {
    valid(&[0, 1, 2], &[0, 1, 2], &[1], &[1, 9, 255]);
}
pub fn h_p10_bits() {
    let bits: Vec<u32> = (1..=32).map(|i| i * 8).collect();
    valid(&[2], &[2], &[], &bits);
}
pub fn t_p10_all() {
    let bits: Vec<u32> = (1..=256).collect();
    valid(&[0, 1, 2], &[0, 1, 2], &[0, 1, 2, 4], &bits);
}
/// any difficulty of the predecessor with that many zero bytes in front: the
/// step is the library's own rule (P06)
fn any_difficulty(zeros: usize, kind: u64) {
    let mut old: [u8; 32] = symrt::bytes("old");
    old[..zeros].fill(0);
    if zeros < 32 {
        assume(old[zeros] != 0);
    }
    let (prev, penc, _) = block(2, &[1], &[], Some(old));
    let pt = prev.get_info().timestamp;
    let k = lzf(&old);
    valid_iff(kind, &[1], 0, prev, &penc, k, |ts| {
        let mut d = old;
        tools::recalculate_difficulty(pt, ts, &mut d);
        d
    });
}
pub fn h_p10_any_difficulty() {
    any_difficulty([0, 1, 31, 32][choice(4, "zeros") as usize], 2);
}
pub fn t_p10_any_difficulty() {
    any_difficulty(choice(33, "zeros") as usize, choice(3, "kind"));
}
pub fn h_p10_first() {
    let (b, _, _) = block(choice(3, "kind"), &[0, 1], &[0, 1], None);
    check(matches!(b.validate(None), Ok(true)), "a block without predecessor is not refused");
}
