//! P12 P13 P18 P19 P20 P25 P27: chains as append-only lists, stored
//! transactions, reopening, crashes, compressed files, concurrent use
use crate::codec::info;
use crate::util::*;
use blockchaintree::block::{BasicInfo, BlockArc, DerivativeBlock, SummarizeBlock, TransactionBlock};
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::chain::{DerivativeChain, MainChain};
use blockchaintree::tools;
use blockchaintree::transaction::{Transaction, Transactionable};
use primitive_types::U256;
use std::sync::Arc;
use symrt::{assume, attempt, check, choice, cover};

pub const ROOT: &str = "/v/t";
pub const OWNER: &str = "02aa";

/// A main-chain block at that height, everything else in it arbitrary.
/// Kind 9 is one that differs from the others only in its height and time.
pub fn main_block(kind: u64, height: U256) -> BlockArc {
    if kind >= 9 {
        let i = BasicInfo::new(kind, [1; 32], [2; 32], height, BEGINNING, [3; 33]);
        return Arc::new(SummarizeBlock { default_info: i, merkle_tree_root: [4; 32] });
    }
    let mut i = info(&[0]);
    i.b.height = height;
    if kind == 0 {
        let txs: Vec<[u8; 32]> = (0..2).map(|_| symrt::bytes("tx")).collect();
        Arc::new(TransactionBlock::new(u256_of_size(2, "fee").0, i.b, symrt::bytes("root"), txs))
    } else {
        Arc::new(SummarizeBlock { default_info: i.b, merkle_tree_root: symrt::bytes("root") })
    }
}
pub fn derivative_block(height: U256) -> DerivativeBlock {
    let mut i = info(&[0]);
    i.b.height = height;
    DerivativeBlock { default_info: i.b }
}
pub fn dump(b: &BlockArc) -> Vec<u8> {
    b.dump().unwrap()
}
pub fn same(a: &Option<Vec<u8>>, b: Option<&Vec<u8>>) -> bool {
    match (a, b) {
        (Some(x), Some(y)) => eq(x, y),
        (None, None) => true,
        _ => false,
    }
}
/// What the two kinds of chain have in common.
pub trait Chain {
    fn add(&self, kind: u64, height: U256) -> (bool, Vec<u8>);
    fn raw_height(&self, h: &U256) -> Option<Vec<u8>>;
    fn raw_hash(&self, h: &[u8; 32]) -> Option<Vec<u8>>;
    fn by_height(&self, h: &U256) -> Option<Vec<u8>>;
    fn by_hash(&self, h: &[u8; 32]) -> Option<Vec<u8>>;
    fn raw_last(&self) -> Option<Vec<u8>>;
    fn last(&self) -> Option<Vec<u8>>;
    fn height(&self) -> U256;
}
impl Chain for MainChain {
    fn add(&self, kind: u64, height: U256) -> (bool, Vec<u8>) {
        let b = main_block(kind, height);
        let d = dump(&b);
        (self.add_block(b).is_ok(), d)
    }
    fn raw_height(&self, h: &U256) -> Option<Vec<u8>> {
        self.find_raw_by_height(h).unwrap()
    }
    fn raw_hash(&self, h: &[u8; 32]) -> Option<Vec<u8>> {
        self.find_raw_by_hash(h).unwrap()
    }
    fn by_height(&self, h: &U256) -> Option<Vec<u8>> {
        self.find_by_height(h).unwrap().map(|b| dump(&b))
    }
    fn by_hash(&self, h: &[u8; 32]) -> Option<Vec<u8>> {
        self.find_by_hash(h).unwrap().map(|b| dump(&b))
    }
    fn raw_last(&self) -> Option<Vec<u8>> {
        self.get_last_raw_block().unwrap()
    }
    fn last(&self) -> Option<Vec<u8>> {
        self.get_last_block().unwrap().map(|b| dump(&b))
    }
    fn height(&self) -> U256 {
        self.get_height()
    }
}
impl Chain for DerivativeChain {
    fn add(&self, kind: u64, height: U256) -> (bool, Vec<u8>) {
        use blockchaintree::block::Block;
        let b = if kind >= 9 {
            DerivativeBlock { default_info: BasicInfo::new(kind, [1; 32], [2; 32], height, BEGINNING, [3; 33]) }
        } else {
            derivative_block(height)
        };
        (self.add_block(&b).is_ok(), b.dump().unwrap())
    }
    fn raw_height(&self, h: &U256) -> Option<Vec<u8>> {
        self.find_raw_by_height(h).unwrap()
    }
    fn raw_hash(&self, h: &[u8; 32]) -> Option<Vec<u8>> {
        self.find_raw_by_hash(h).unwrap()
    }
    fn by_height(&self, h: &U256) -> Option<Vec<u8>> {
        use blockchaintree::block::Block;
        self.find_by_height(h).unwrap().map(|b| b.dump().unwrap())
    }
    fn by_hash(&self, h: &[u8; 32]) -> Option<Vec<u8>> {
        use blockchaintree::block::Block;
        self.find_by_hash(h).unwrap().map(|b| b.dump().unwrap())
    }
    fn raw_last(&self) -> Option<Vec<u8>> {
        self.get_last_raw_block().unwrap()
    }
    fn last(&self) -> Option<Vec<u8>> {
        use blockchaintree::block::Block;
        self.get_last_block().unwrap().map(|b| b.dump().unwrap())
    }
    fn height(&self) -> U256 {
        self.get_height()
    }
}
pub fn main_chain() -> MainChain {
    MainChain::new(ROOT).unwrap()
}
pub fn derivative_chain(genesis: &[u8; 32]) -> DerivativeChain {
    DerivativeChain::new(ROOT, OWNER, genesis).unwrap()
}

/// Everything the chain tells agrees with the list (heights from `base`).
pub fn agrees(c: &dyn Chain, base: U256, list: &[Vec<u8>]) {
    let n = add(&base, &small(list.len() as u64)).0;
    check(eqn(&c.height(), &n), "the height is the number of blocks");
    check(same(&c.raw_last(), list.last()), "the last block is the one added last");
    check(same(&c.last(), list.last()), "the last block decodes to the one added last");
    for (i, d) in list.iter().enumerate() {
        let h = add(&base, &small(i as u64)).0;
        check(same(&c.raw_height(&h), Some(d)), "the block added at a height is found there");
        check(same(&c.by_height(&h), Some(d)), "the block found at a height decodes");
        let x = symrt::sha256(d);
        check(same(&c.raw_hash(&x), Some(d)), "a block is found by its hash");
        check(same(&c.by_hash(&x), Some(d)), "the block found by its hash decodes");
    }
}
/// The chain answers with nothing for what was never added.
pub fn nothing_else(c: &dyn Chain, base: U256, list: &[Vec<u8>]) {
    let n = add(&base, &small(list.len() as u64)).0;
    check(c.raw_height(&n).is_none(), "nothing is found at the next height");
    let h = u256_among(&[1, 2, 9, 32], "other_height").0;
    assume(!le(&h, &n));
    check(c.raw_height(&h).is_none() && c.by_height(&h).is_none(), "nothing is found above the chain");
    let x: [u8; 32] = symrt::bytes("other_hash");
    for d in list {
        assume(!eq(&x, &symrt::sha256(d)));
    }
    check(c.raw_hash(&x).is_none() && c.by_hash(&x).is_none(), "nothing is found for another hash");
}
/// `steps` additions at the right or at any other height.
fn history(c: &dyn Chain, kinds: u64, base: U256, mut list: Vec<Vec<u8>>, steps: usize) {
    for _ in 0..steps {
        let n = add(&base, &small(list.len() as u64)).0;
        if choice(2, "height") == 0 {
            let (ok, d) = c.add(choice(kinds, "kind"), n);
            check(ok, "a block for the next height is accepted");
            list.push(d);
            cover("accepted");
        } else {
            let h = u256_among(&[0, 1, 2, 9, 32], "wrong_height").0;
            assume(!eqn(&h, &n));
            let (ok, _) = c.add(choice(kinds, "kind"), h);
            check(!ok, "a block for another height is refused");
            cover("refused");
        }
        agrees(c, base, &list);
    }
    nothing_else(c, base, &list);
}

// ------------------------------------------------------------------- P12
pub fn with_genesis(c: &MainChain) -> Vec<Vec<u8>> {
    vec![c.find_raw_by_height(&small(0)).unwrap().unwrap()]
}
pub fn h_p12_genesis() {
    let c = main_chain();
    let list = with_genesis(&c);
    agrees(&c, small(0), &list);
    nothing_else(&c, small(0), &list);
    let b = c.get_last_block().unwrap().unwrap();
    check(
        b.get_info().timestamp == 1597924800 && eq(&b.get_info().difficulty, &BEGINNING) && b.get_info().height.is_zero(),
        "a new chain starts with the inception block",
    );
}
pub fn h_p12_history() {
    let c = main_chain();
    let list = with_genesis(&c);
    history(&c, 2, small(0), list, 2);
}
pub fn t_p12_history() {
    let c = main_chain();
    let list = with_genesis(&c);
    history(&c, 2, small(0), list, 4);
}
/// a main chain that has already reached any height
pub fn high(root_dir: &str, extra: &[u8], sizes: &[usize]) -> U256 {
    let h = u256_among(sizes, "chain_height").0;
    assume(!h.is_zero());
    let mut be = [0u8; 32];
    for i in 0..4 {
        be[8 * (3 - i)..8 * (3 - i) + 8].copy_from_slice(&h.0[i].to_be_bytes());
    }
    assume(be[0] < 255);
    std::fs::create_dir_all(root_dir).unwrap();
    let mut f = be.to_vec();
    f.extend_from_slice(&BEGINNING);
    f.extend_from_slice(extra);
    std::fs::write(format!("{}/Chain.config", root_dir), f).unwrap();
    h
}
pub fn h_p12_high() {
    let h = high("/v/t/MAIN", &[], &[1, 2, 8, 9, 32]);
    let c = main_chain();
    let mut list = Vec::new();
    for i in 0..2 {
        let n = add(&h, &small(list.len() as u64)).0;
        let (ok, d) = c.add(9 + i, n);
        check(ok, "a block for the next height is accepted");
        list.push(d);
    }
    agrees(&c, h, &list);
    check(c.raw_height(&add(&h, &small(2)).0).is_none(), "nothing is found at the next height");
}

/// A longer chain: known blocks with arbitrary ones among them, looked up
/// while it grows; adding one of its blocks again is refused.
fn many(c: &dyn Chain, mut list: Vec<Vec<u8>>, n: usize, arbitrary: &[usize]) {
    let first = list.len();
    for i in 0..n {
        let h = small(list.len() as u64);
        let kind = if arbitrary.contains(&i) { i as u64 % 2 } else { 9 + i as u64 };
        let (ok, d) = c.add(kind, h);
        check(ok, "a block for the next height is accepted");
        list.push(d);
        let k = list.len() - 1;
        check(same(&c.raw_last(), list.last()), "the last block is the one added last");
        for j in [k, k / 2, 0] {
            check(same(&c.raw_height(&small(j as u64)), list.get(j)), "the block added at a height is found there");
            check(same(&c.raw_hash(&symrt::sha256(&list[j])), list.get(j)), "a block is found by its hash");
        }
        check(c.raw_height(&small(k as u64 + 1)).is_none(), "nothing is found at the next height");
    }
    for i in [0, 1, n - 1] {
        if !arbitrary.contains(&i) {
            let (ok, _) = c.add(9 + i as u64, small((first + i) as u64));
            check(!ok, "a block that is already in the chain is refused");
        }
    }
    agrees(c, small(0), &list);
    nothing_else(c, small(0), &list);
}
pub fn h_p12_many() {
    let c = main_chain();
    let list = with_genesis(&c);
    many(&c, list, 70, &[7, 16, 63, 69]);
}
pub fn t_p12_many() {
    let c = main_chain();
    let list = with_genesis(&c);
    many(&c, list, 300, &[7, 64, 255, 256]);
}

// ------------------------------------------------------------------- P13
pub fn h_p13_many() {
    let c = derivative_chain(&[7; 32]);
    many(&c, vec![], 70, &[8, 16, 64, 68]);
}
pub fn t_p13_many() {
    let c = derivative_chain(&[7; 32]);
    many(&c, vec![], 300, &[8, 64, 256]);
}
pub fn h_p13_history() {
    let g: [u8; 32] = symrt::bytes("genesis");
    let c = derivative_chain(&g);
    check(eq(c.genesis_hash.as_ref(), &g), "a new chain is founded on the given block");
    agrees(&c, small(0), &[]);
    history(&c, 1, small(0), vec![], 2);
}
pub fn t_p13_history() {
    let c = derivative_chain(&[7; 32]);
    history(&c, 1, small(0), vec![], 4);
}
pub fn h_p13_high() {
    let g: [u8; 32] = symrt::bytes("genesis");
    let h = high("/v/t/DERIVATIVES/02aa", &g, &[1, 2, 8, 9, 32]);
    let c = derivative_chain(&[0; 32]);
    check(eq(c.genesis_hash.as_ref(), &g), "an existing chain keeps the block it was founded on");
    let mut list = Vec::new();
    for i in 0..2 {
        let n = add(&h, &small(list.len() as u64)).0;
        let (ok, d) = c.add(9 + i, n);
        check(ok, "a block for the next height is accepted");
        list.push(d);
    }
    agrees(&c, h, &list);
    check(c.raw_height(&add(&h, &small(2)).0).is_none(), "nothing is found at the next height");
}
/// chains of different owners, and the main chain, are separate
pub fn h_p13_separate() {
    let m = main_chain();
    let a = derivative_chain(&[7; 32]);
    let b = DerivativeChain::new(ROOT, "02ab", &[8; 32]).unwrap();
    let (ok, da) = a.add(0, small(0));
    let (ok2, db) = b.add(0, small(0));
    check(ok && ok2, "a block for the next height is accepted");
    agrees(&a, small(0), &[da.clone()]);
    agrees(&b, small(0), &[db.clone()]);
    check(eqn(&m.get_height(), &small(1)), "the main chain is not affected");
    check(m.raw_hash(&symrt::sha256(&da)).is_none(), "the main chain is not affected");
    if !eq(&da, &db) {
        cover("different blocks");
        check(a.raw_hash(&symrt::sha256(&db)).is_none(), "a block is found only in its own chain");
    }
}

// ------------------------------------------------------------------- P18
fn transaction(sizes: &[usize], lens: &[usize], ts: u64) -> Transaction {
    let l = lens[choice(lens.len() as u64, "payload") as usize];
    Transaction::new_signed(
        symrt::bytes("sender"),
        symrt::bytes("receiver"),
        ts,
        u256_among(sizes, "amount").0,
        if l == 0 { None } else { Some(symrt::vec(l, "data")) },
        symrt::bytes("signature"),
    )
}
fn transactions(n: usize, sizes: &[usize], lens: &[usize]) -> Vec<Transaction> {
    let mut out: Vec<Transaction> = Vec::new();
    for _ in 0..n {
        let k = choice(out.len() as u64 + 1, "same_as") as usize;
        if k < out.len() {
            out.push(out[k].clone());
            continue;
        }
        out.push(transaction(sizes, lens, symrt::u64("ts")));
    }
    out
}
fn stored(c: &MainChain, t: &Transaction) {
    let d = t.dump().unwrap();
    let h = symrt::sha256(&d);
    check(c.transaction_exists(&h).unwrap(), "a stored transaction exists");
    check(same(&c.get_transaction_raw(&h).unwrap(), Some(&d)), "a stored transaction is returned unchanged");
    match c.get_transaction(&h) {
        Ok(Some(x)) => check(eq(&x.dump().unwrap(), &d), "a stored transaction decodes to itself"),
        _ => check(false, "a stored transaction is found"),
    }
}
fn not_stored(c: &MainChain, all: &[Transaction]) {
    let x: [u8; 32] = symrt::bytes("other");
    for t in all {
        assume(!eq(&x, &t.hash()));
    }
    check(!c.transaction_exists(&x).unwrap(), "no other transaction exists");
    check(c.get_transaction_raw(&x).unwrap().is_none(), "no other transaction is returned");
    check(matches!(c.get_transaction(&x), Ok(None)), "no other transaction is found");
}
fn store(n: usize, sizes: &[usize], lens: &[usize]) {
    let t = transactions(n, sizes, lens);
    let c = match choice(3, "how") {
        0 => {
            let c = main_chain();
            for x in &t {
                check(c.add_transaction(x).is_ok(), "a transaction is stored");
            }
            c
        }
        1 => {
            let c = main_chain();
            check(c.add_transactions(&t).is_ok(), "a list of transactions is stored");
            c
        }
        _ => {
            let b = BlockChainTree::new(ROOT).unwrap();
            let ok = b.add_new_block(main_block(1, small(1)), &t).is_ok();
            check(ok, "a block with transactions is added");
            check(eqn(&b.get_main_chain().get_height(), &small(2)), "the block is added");
            b.get_main_chain()
        }
    };
    for x in &t {
        stored(&c, x);
    }
    not_stored(&c, &t);
}
pub fn h_p18_store() {
    store(2, &[0, 2], &[0, 3]);
}
pub fn t_p18_store() {
    store(4, &[0, 1, 9, 32], &[0, 1, 40]);
}
/// stores them in one of the ways there are
fn put(b: &BlockChainTree, t: &[Transaction]) {
    let c = b.get_main_chain();
    match choice(3, "how") {
        0 => {
            for x in t {
                check(c.add_transaction(x).is_ok(), "a transaction is stored");
            }
        }
        1 => check(c.add_transactions(t).is_ok(), "a list of transactions is stored"),
        _ => {
            let h = c.get_height();
            check(b.add_new_block(main_block(9, h), t).is_ok(), "a block with transactions is added");
            check(eqn(&c.get_height(), &add(&h, &small(1)).0), "the block is added");
        }
    }
}
/// some are stored first, the rest (which may be the same again) later
fn known(n: usize, sizes: &[usize], lens: &[usize]) {
    let mut t: Vec<Transaction> = Vec::new();
    for i in 0..n {
        let k = choice(i as u64 + 1, "same_as") as usize;
        t.push(if k < i { t[k].clone() } else { transaction(sizes, lens, i as u64) });
    }
    let b = BlockChainTree::new(ROOT).unwrap();
    let k = 1 + choice(n as u64 - 1, "first") as usize;
    put(&b, &t[..k]);
    put(&b, &t[k..]);
    let c = b.get_main_chain();
    for x in &t {
        stored(&c, x);
    }
    not_stored(&c, &t);
}
pub fn h_p18_known() {
    known(3, &[2], &[3]);
}
pub fn t_p18_known() {
    known(4, &[2], &[0, 3]);
}
/// long payloads
pub fn h_p18_long() {
    store(1, &[2], &[32, 63, 64, 65, 100, 128, 200, 255, 256, 257, 300, 512, 1000, 4096]);
}
/// many different transactions at once and one after the other, in a chain
/// that goes on
pub fn h_p18_many() {
    let n = 20;
    let mut t: Vec<Transaction> = Vec::new();
    for i in 0..n {
        t.push(Transaction::new_signed([2; 33], symrt::bytes("receiver"), i, small(i), None, [9; 64]));
    }
    let b = BlockChainTree::new(ROOT).unwrap();
    let k = [1, 7, 8, 19][choice(4, "first") as usize];
    put(&b, &t[..k]);
    let c = b.get_main_chain();
    let h = c.get_height();
    check(c.add_block(main_block(9, h)).is_ok(), "a block for the next height is accepted");
    put(&b, &t[k..]);
    for x in &t {
        stored(&c, x);
    }
    not_stored(&c, &t);
}
pub fn h_p18_sizes() {
    store(1, &ALL_SIZES, &[0, 1]);
}
/// a block that is refused leaves none of its transactions behind
pub fn h_p18_refused() {
    let t = transactions(1, &[2], &[0]);
    let b = BlockChainTree::new(ROOT).unwrap();
    let h = u256_among(&[0, 1, 9], "height").0;
    assume(!eqn(&h, &small(1)));
    check(b.add_new_block(main_block(1, h), &t).is_err(), "a block for another height is refused");
    check(!b.get_main_chain().transaction_exists(&t[0].hash()).unwrap(), "transactions of a refused block are not stored");
}
pub fn h_p18_empty() {
    not_stored(&main_chain(), &[]);
}

// ------------------------------------------------------------------- P19
/// how the folder is left behind after a flush
fn leave() {
    if choice(2, "leave") == 1 {
        sled::model::crash();
    }
}
pub fn h_p19_main() {
    tokio::model::set_late_writes(true);
    let c = main_chain();
    let mut list = with_genesis(&c);
    for _ in 0..choice(3, "blocks") {
        let n = small(list.len() as u64);
        let (ok, d) = c.add(choice(2, "kind"), n);
        check(ok, "a block for the next height is accepted");
        list.push(d);
    }
    let t = transactions(1, &[2], &[3]);
    check(c.add_transactions(&t).is_ok(), "a list of transactions is stored");
    check(block_on(c.flush()).is_ok(), "flushing succeeds");
    leave();
    drop(c);
    let c = main_chain();
    agrees(&c, small(0), &list);
    nothing_else(&c, small(0), &list);
    stored(&c, &t[0]);
    // and it goes on from there, flush after flush
    let (ok, d) = c.add(1, small(list.len() as u64));
    check(ok, "a reopened chain goes on");
    list.push(d);
    check(block_on(c.flush()).is_ok(), "flushing again succeeds");
    leave();
    drop(c);
    agrees(&main_chain(), small(0), &list);
}
pub fn h_p19_derivative() {
    tokio::model::set_late_writes(true);
    let g: [u8; 32] = symrt::bytes("genesis");
    let c = derivative_chain(&g);
    let mut list = Vec::new();
    for _ in 0..choice(3, "blocks") {
        let (ok, d) = c.add(0, small(list.len() as u64));
        check(ok, "a block for the next height is accepted");
        list.push(d);
    }
    check(block_on(c.flush()).is_ok(), "flushing succeeds");
    leave();
    drop(c);
    let c = derivative_chain(&symrt::bytes("another"));
    check(eq(c.genesis_hash.as_ref(), &g), "a reopened chain keeps the block it was founded on");
    agrees(&c, small(0), &list);
    nothing_else(&c, small(0), &list);
    let (ok, d) = c.add(0, small(list.len() as u64));
    check(ok, "a reopened chain goes on");
    list.push(d);
    check(block_on(c.flush()).is_ok(), "flushing again succeeds");
    leave();
    drop(c);
    agrees(&derivative_chain(&[0; 32]), small(0), &list);
}
/// heights of any size survive
pub fn h_p19_high() {
    tokio::model::set_late_writes(true);
    let h = high("/v/t/MAIN", &[], &[1, 2, 8, 9, 32]);
    let c = main_chain();
    let (ok, d) = c.add(9, h);
    check(ok, "a block for the next height is accepted");
    check(block_on(c.flush()).is_ok(), "flushing succeeds");
    leave();
    drop(c);
    agrees(&main_chain(), h, &[d]);
}
fn tree_state(t: &BlockChainTree, who: &[[u8; 33]]) -> Vec<(U256, U256)> {
    who.iter().map(|a| (t.get_amount(a).unwrap(), t.get_gas(a).unwrap())).collect()
}
fn unchanged(a: &[(U256, U256)], b: &[(U256, U256)]) -> bool {
    let mut r = a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
        r &= eqn(&x.0, &y.0) & eqn(&x.1, &y.1);
    }
    r
}
const ROOT_ADDRESS: [u8; 33] = blockchaintree::static_values::ROOT_PUBLIC_ADDRESS;
pub fn h_p19_tree() {
    tokio::model::set_late_writes(true);
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let a: [u8; 33] = symrt::bytes("account");
    assume(!eq(&a, &ROOT_ADDRESS));
    let who = [ROOT_ADDRESS, a];
    // the root account has been set to anything, or is as created
    if choice(2, "root") == 1 {
        check(t.set_amount(&ROOT_ADDRESS, u256_among(&[0, 1, 32], "coins").0).is_ok(), "balances can be set");
    }
    check(t.set_amount(&a, u256_among(&[0, 2], "coins").0).is_ok(), "balances can be set");
    check(t.add_gas(&a, u256_among(&[0, 2], "gas").0).is_ok(), "gas can be added");
    let m = t.get_main_chain();
    let mut list = with_genesis(&m);
    if choice(2, "blocks") == 1 {
        let (ok, d) = m.add(1, small(1));
        check(ok, "a block for the next height is accepted");
        list.push(d);
    }
    let owner = [2u8; 33];
    let mut dl = Vec::new();
    let mut founded = None;
    if choice(2, "derivative") == 1 {
        let d = t.get_derivative_chain(&owner).unwrap();
        check(eq(d.genesis_hash.as_ref(), &symrt::sha256(list.last().unwrap())), "a new derivative chain is founded on the last main block");
        founded = Some(*d.genesis_hash);
        let (ok, x) = d.add(0, small(0));
        check(ok, "a block for the next height is accepted");
        dl.push(x);
    }
    let before = tree_state(&t, &who);
    check(block_on(t.flush()).is_ok(), "flushing succeeds");
    leave();
    drop((t, m));
    let mut t = BlockChainTree::new(ROOT).unwrap();
    check(unchanged(&before, &tree_state(&t, &who)), "balances survive flush and reopening");
    agrees(&t.get_main_chain(), small(0), &list);
    let d = t.get_derivative_chain(&owner).unwrap();
    agrees(&d, small(0), &dl);
    if let Some(f) = founded {
        check(eq(d.genesis_hash.as_ref(), &f), "a reopened derivative chain keeps the block it was founded on");
    }
}
/// More of everything, and several times.
pub fn h_p19_more() {
    tokio::model::set_late_writes(true);
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let mut who = vec![ROOT_ADDRESS];
    for i in 0..8 {
        let mut a: [u8; 33] = symrt::bytes("account");
        a[if i < 4 { 32 } else { 0 }] = i;
        a[16] = 77 + i;
        check(t.set_amount(&a, u256_of_size(2, "coins").0).is_ok(), "balances can be set");
        if i % 2 == 0 {
            check(t.add_gas(&a, u256_of_size(2, "gas").0).is_ok(), "gas can be added");
        }
        who.push(a);
    }
    let mut list = with_genesis(&t.get_main_chain());
    let owner = |i: usize| {
        let mut o = [2u8; 33];
        o[[0, 1, 16, 31, 32][i]] = 3;
        o
    };
    let mut dl: Vec<Vec<Vec<u8>>> = vec![vec![]; 5];
    let mut founded = Vec::new();
    let mut txs = Vec::new();
    for round in 0..3u64 {
        for i in 0..3 {
            let n = small(list.len() as u64);
            let (ok, d) = t.get_main_chain().add(9 + 10 * round + i, n);
            check(ok, "a block for the next height is accepted");
            list.push(d);
        }
        for (i, l) in dl.iter_mut().enumerate() {
            // one of them stays behind each time
            if i as u64 == round {
                continue;
            }
            let c = t.get_derivative_chain(&owner(i)).unwrap();
            let (ok, d) = c.add(20 + round, small(l.len() as u64));
            check(ok, "a block for the next height is accepted");
            l.push(d);
        }
        for i in 0..3 {
            let l = if i == 1 { 70 } else { 0 };
            let x = Transaction::new_signed([2; 33], symrt::bytes("receiver"), round * 10 + i, small(i), Some(symrt::vec(l, "data")), [9; 64]);
            check(t.get_main_chain().add_transaction(&x).is_ok(), "a transaction is stored");
            txs.push(x);
        }
        if round == 1 {
            check(t.sub_amount(&who[2], small(1)).is_ok(), "balances can be reduced");
        }
        let before = tree_state(&t, &who);
        if round == 0 {
            for i in 0..5 {
                founded.push(*t.get_derivative_chain(&owner(i)).unwrap().genesis_hash);
            }
        }
        check(block_on(t.flush()).is_ok(), "flushing succeeds");
        if round == 2 {
            check(block_on(t.flush()).is_ok(), "flushing again succeeds");
        }
        leave();
        drop(t);
        t = BlockChainTree::new(ROOT).unwrap();
        check(unchanged(&before, &tree_state(&t, &who)), "balances survive flush and reopening");
        let m = t.get_main_chain();
        agrees(&m, small(0), &list);
        for x in &txs {
            stored(&m, x);
        }
        for (i, l) in dl.iter().enumerate() {
            let d = t.get_derivative_chain(&owner(i)).unwrap();
            agrees(&d, small(0), l);
            check(eq(d.genesis_hash.as_ref(), &founded[i]), "a reopened derivative chain keeps the block it was founded on");
        }
    }
}
/// opening and closing without flush changes nothing either
pub fn h_p19_reopen() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = [ROOT_ADDRESS];
    if choice(2, "spend") == 1 {
        let v = u256_among(&[0, 1, 9], "coins").0;
        check(t.set_amount(&ROOT_ADDRESS, v).is_ok(), "balances can be set");
    }
    let before = tree_state(&t, &who);
    drop(t);
    for _ in 0..2 {
        let t = BlockChainTree::new(ROOT).unwrap();
        check(unchanged(&before, &tree_state(&t, &who)), "opening creates no coins");
        drop(t);
    }
}

// ------------------------------------------------------------------- P20
/// the list the chain holds is a prefix of `list` with at least `min` blocks
pub fn prefix(c: &dyn Chain, base: U256, list: &[Vec<u8>], min: usize) -> usize {
    let mut n = list.len() + 1;
    for i in 0..=list.len() {
        if eqn(&c.height(), &add(&base, &small(i as u64)).0) {
            n = i;
        }
    }
    check(n <= list.len() && n >= min, "the chain is a prefix with everything flushed");
    if n > list.len() {
        return n;
    }
    for (i, d) in list[..n].iter().enumerate() {
        let h = add(&base, &small(i as u64)).0;
        check(same(&c.raw_height(&h), Some(d)), "every height below the chain has its block");
        check(same(&c.by_height(&h), Some(d)), "every block below the chain decodes");
        let r = c.raw_hash(&symrt::sha256(d));
        check(r.is_none() || same(&r, Some(d)), "a hash finds its own block or nothing");
        if i < min {
            check(r.is_some(), "flushed blocks are found by hash");
        }
    }
    for d in &list[n..] {
        let r = c.raw_hash(&symrt::sha256(d));
        check(r.is_none(), "no block above the chain is found");
    }
    check(same(&c.raw_last(), if n == 0 { None } else { list.get(n - 1) }), "the last block is the last of the prefix");
    n
}
fn open_main(list: &[Vec<u8>], min: usize) -> Option<MainChain> {
    match attempt(main_chain).done() {
        None => {
            check(false, "the folder opens again after a crash");
            None
        }
        Some(c) => {
            // the genesis block is made by opening
            let n = prefix(&c, small(0), list, min);
            cover(if n == list.len() { "everything survived" } else { "some was lost" });
            Some(c)
        }
    }
}
fn crash_main(blocks: usize, flushes: &[usize]) {
    tokio::model::set_late_writes(true);
    let c = main_chain();
    let mut list = with_genesis(&c);
    let mut made = Vec::new();
    for i in 0..blocks {
        let b = main_block(1, small(1 + i as u64));
        list.push(dump(&b));
        made.push(b);
    }
    let mut flushed = 0;
    symrt::crash_points(true);
    let (p, q) = (&mut flushed as *mut usize, &c);
    let r = attempt(|| {
        for (i, b) in made.iter().enumerate() {
            q.add_block(b.clone()).unwrap();
            if flushes.contains(&i) {
                block_on(q.flush()).unwrap();
                unsafe { *p = i + 2 };
            }
        }
    });
    symrt::crash_points(false);
    check(!r.panicked(), "nothing panics");
    cover(if r.done().is_some() { "died afterwards" } else { "died on the way" });
    sled::model::crash();
    std::mem::forget(c);
    if let Some(c) = open_main(&list, flushed.max(1)) {
        // recovery leaves a chain that works
        let n = c.get_height();
        let (ok, d) = c.add(1, n);
        check(ok, "a recovered chain goes on");
        check(same(&c.raw_height(&n), Some(&d)) && same(&c.raw_hash(&symrt::sha256(&d)), Some(&d)), "a block added after recovery is found");
        check(block_on(c.flush()).is_ok(), "a recovered chain can be flushed");
    }
}
pub fn h_p20_main() {
    crash_main(2, &[0, 1]);
}
pub fn t_p20_main() {
    crash_main(3, &[0, 2]);
}
/// a longer chain of which all but the last blocks were flushed
pub fn h_p20_long() {
    tokio::model::set_late_writes(true);
    let c = main_chain();
    let mut list = with_genesis(&c);
    for i in 0..9 {
        let (ok, d) = c.add(9 + i, small(1 + i));
        check(ok, "a block for the next height is accepted");
        list.push(d);
        if i == 3 || i == 7 {
            check(block_on(c.flush()).is_ok(), "flushing succeeds");
        }
    }
    let b = main_block(9 + 9, small(10));
    list.push(dump(&b));
    let mut flushed = 9;
    symrt::crash_points(true);
    let (p, q) = (&mut flushed as *mut usize, &c);
    let r = attempt(|| {
        q.add_block(b).unwrap();
        block_on(q.flush()).unwrap();
        unsafe { *p = 11 };
    });
    symrt::crash_points(false);
    check(!r.panicked(), "nothing panics");
    sled::model::crash();
    std::mem::forget(c);
    open_main(&list, flushed);
}
/// the process dies again while it recovers
pub fn h_p20_again() {
    tokio::model::set_late_writes(true);
    let c = main_chain();
    let mut list = with_genesis(&c);
    let (_, d) = c.add(9, small(1));
    list.push(d);
    check(block_on(c.flush()).is_ok(), "flushing succeeds");
    let (_, d) = c.add(10, small(2));
    list.push(d);
    let mut flushed = 2;
    symrt::crash_points(true);
    let (p, q) = (&mut flushed as *mut usize, &c);
    let r = attempt(|| {
        block_on(q.flush()).unwrap();
        unsafe { *p = 3 };
    });
    symrt::crash_points(false);
    check(!r.panicked(), "nothing panics");
    sled::model::crash();
    std::mem::forget(c);
    symrt::crash_points(true);
    let r = attempt(|| std::mem::forget(main_chain()));
    symrt::crash_points(false);
    check(!r.panicked(), "the folder opens again after a crash");
    sled::model::crash();
    open_main(&list, flushed);
}
pub fn h_p20_unflushed() {
    crash_main(2, &[]);
}
pub fn h_p20_derivative() {
    tokio::model::set_late_writes(true);
    let g: [u8; 32] = symrt::bytes("genesis");
    let c = derivative_chain(&g);
    let mut list = Vec::new();
    let mut made = Vec::new();
    for i in 0..2 {
        use blockchaintree::block::Block;
        let b = derivative_block(small(i));
        list.push(b.dump().unwrap());
        made.push(b);
    }
    let mut flushed = 0usize;
    symrt::crash_points(true);
    let (p, q) = (&mut flushed as *mut usize, &c);
    let r = attempt(|| {
        for (i, b) in made.iter().enumerate() {
            q.add_block(b).unwrap();
            block_on(q.flush()).unwrap();
            unsafe { *p = i + 1 };
        }
    });
    symrt::crash_points(false);
    check(!r.panicked(), "nothing panics");
    cover(if r.done().is_some() { "died afterwards" } else { "died on the way" });
    sled::model::crash();
    std::mem::forget(c);
    match attempt(|| derivative_chain(&g)).done() {
        None => check(false, "the folder opens again after a crash"),
        Some(c) => {
            prefix(&c, small(0), &list, flushed);
            check(eq(c.genesis_hash.as_ref(), &g), "the block it was founded on is kept");
        }
    }
}
/// while the tree is being created
pub fn h_p20_create() {
    symrt::crash_points(true);
    let r = attempt(|| {
        let t = BlockChainTree::new(ROOT).unwrap();
        block_on(t.flush()).unwrap();
        std::mem::forget(t);
    });
    symrt::crash_points(false);
    check(!r.panicked(), "nothing panics");
    sled::model::crash();
    match attempt(|| BlockChainTree::new(ROOT)).done() {
        Some(Ok(t)) => {
            check(eqn(&t.get_main_chain().get_height(), &small(1)), "the inception block is there");
            let v = t.get_amount(&ROOT_ADDRESS).unwrap();
            check(eqn(&v, &coins_per_cycle()), "the root account has the coins of one cycle");
        }
        _ => check(false, "the folder opens again after a crash"),
    }
}
pub fn coins_per_cycle() -> U256 {
    U256::from(25_000_000_000_000_000u128 * 2_000_000_000 + 10_000 * 1_000_000_000_000_000_000u128)
}
pub fn h_p20_tree() {
    tokio::model::set_late_writes(true);
    let t = BlockChainTree::new(ROOT).unwrap();
    let m = t.get_main_chain();
    let mut list = with_genesis(&m);
    let b = [main_block(1, small(1)), main_block(0, small(2))];
    list.push(dump(&b[0]));
    list.push(dump(&b[1]));
    check(t.add_new_block(b[0].clone(), &[]).is_ok(), "a block for the next height is accepted");
    check(block_on(t.flush()).is_ok(), "flushing succeeds");
    check(t.add_new_block(b[1].clone(), &[]).is_ok(), "a block for the next height is accepted");
    let mut flushed = 2;
    symrt::crash_points(true);
    let (p, q) = (&mut flushed as *mut usize, &t);
    let r = attempt(|| {
        block_on(q.flush()).unwrap();
        unsafe { *p = 3 };
    });
    symrt::crash_points(false);
    check(!r.panicked(), "nothing panics");
    sled::model::crash();
    std::mem::forget((t, m));
    match attempt(|| BlockChainTree::new(ROOT)).done() {
        Some(Ok(t)) => {
            prefix(&t.get_main_chain(), small(0), &list, flushed);
        }
        _ => check(false, "the folder opens again after a crash"),
    }
}

// ------------------------------------------------------------------- P25
const FILE: &str = "/v/c";
fn path() -> String {
    FILE.to_string()
}
fn compressed(lens: &[usize]) {
    let l = |n: &str| symrt::vec(lens[choice(lens.len() as u64, "len") as usize], n);
    let data = l("data");
    match choice(3, "before") {
        0 => {}
        1 => std::fs::write(FILE, l("previous")).unwrap(),
        _ => check(tools::compress_to_file(path(), &l("previous")).is_ok(), "data is compressed to a file"),
    }
    check(tools::compress_to_file(path(), &data).is_ok(), "data is compressed to a file");
    match tools::decompress_from_file(path()) {
        Ok(x) => check(eq(&x, &data), "decompression gives back what was written"),
        Err(_) => check(false, "what was written decompresses"),
    }
}
pub fn h_p25_roundtrip() {
    compressed(&[0, 1, 2, 31, 32, 33, 70]);
}
pub fn t_p25_roundtrip() {
    compressed(&[0, 1, 7, 8, 9, 127, 128, 129, 1000, 5000]);
}
/// a pattern of that length with arbitrary bytes at both ends and inside
fn large(n: usize, name: &str) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| (i * 31 + i / 255) as u8).collect();
    for at in [0, 1, 127, 255, 256, 4095, 4096, n / 2, 65535, 65536, n - 2, n - 1] {
        if at < n {
            v[at] = symrt::u8(name);
        }
    }
    v
}
pub fn h_p25_large() {
    let lens = [100, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 8192, 8193, 32768, 65535, 65536, 65537, 131072, 131073, 200000];
    let data = large(lens[choice(lens.len() as u64, "len") as usize], "data");
    // over nothing, something shorter, or something longer
    match choice(3, "before") {
        0 => {}
        1 => check(tools::compress_to_file(path(), &large(50, "previous")).is_ok(), "data is compressed to a file"),
        _ => check(tools::compress_to_file(path(), &large(200_001, "previous")).is_ok(), "data is compressed to a file"),
    }
    check(tools::compress_to_file(path(), &data).is_ok(), "data is compressed to a file");
    match tools::decompress_from_file(path()) {
        Ok(x) => check(eq(&x, &data), "decompression gives back what was written"),
        Err(_) => check(false, "what was written decompresses"),
    }
}
pub fn h_p25_missing() {
    check(tools::decompress_from_file(path()).is_err(), "a missing file is an error");
    check(tools::compress_to_file("/v/none/c".to_string(), &[1]).is_err(), "a missing folder is an error");
}
pub fn h_p25_truncated() {
    let data = symrt::vec([0, 1, 5, 40][choice(4, "len") as usize], "data");
    tools::compress_to_file(path(), &data).unwrap();
    let full = std::fs::read(FILE).unwrap();
    let n = choice(full.len() as u64, "cut") as usize;
    std::fs::write(FILE, &full[..n]).unwrap();
    let r = attempt(|| tools::decompress_from_file(path()));
    check(!r.panicked(), "decompression never panics");
    check(matches!(r.done(), Some(Err(_))), "a truncated file is an error");
}
/// A file operation fails, or writes less than asked.
pub fn h_p25_faults() {
    let data = symrt::vec([0, 1, 9][choice(3, "len") as usize], "data");
    if choice(2, "before") == 1 {
        tools::compress_to_file(path(), &symrt::vec(5, "previous")).unwrap();
    }
    let reading = choice(2, "reading") == 1;
    if reading {
        tools::compress_to_file(path(), &data).unwrap();
    }
    symrt::file_faults(true);
    let r = attempt(|| {
        if reading {
            tools::decompress_from_file(path()).map(|x| eq(&x, &data))
        } else {
            tools::compress_to_file(path(), &data).map(|_| true)
        }
    });
    let failed = symrt::file_faults(false);
    check(!r.panicked(), "an I/O error never panics");
    cover(if failed { "failed" } else { "not failed" });
    match r.done() {
        Some(Ok(v)) => check(v & !failed, "an I/O error is reported"),
        Some(Err(_)) => check(failed, "without an I/O error it works"),
        None => {}
    }
    if reading || !failed {
        check(matches!(tools::decompress_from_file(path()), Ok(v) if eq(&v, &data)), "what was written decompresses");
    }
}
pub fn h_p25_foreign() {
    let raw = symrt::vec([0, 1, 4, 12, 13, 20][choice(6, "len") as usize], "foreign");
    assume(raw.len() < 4 || !eq(&raw[..4], &[0x28, 0xB5, 0x2F, 0xFD]));
    std::fs::write(FILE, &raw).unwrap();
    let r = attempt(|| tools::decompress_from_file(path()));
    check(!r.panicked(), "decompression never panics");
    check(matches!(r.done(), Some(Err(_))), "a foreign file is an error");
}
pub fn h_p25_crash() {
    let data = symrt::vec(5, "data");
    let old = symrt::vec(3, "previous");
    let had = choice(2, "before") == 1;
    if had {
        tools::compress_to_file(path(), &old).unwrap();
    }
    symrt::crash_points(true);
    let r = attempt(|| tools::compress_to_file(path(), &data).is_ok());
    symrt::crash_points(false);
    check(!r.panicked(), "compression never panics");
    let complete = r.done().is_some();
    let x = attempt(|| tools::decompress_from_file(path()));
    check(!x.panicked(), "decompression never panics");
    match x.done() {
        Some(Ok(v)) => {
            cover(if complete { "complete" } else { "not complete" });
            check(eq(&v, &data) || (!complete && had && eq(&v, &old)), "a crash leaves old content, new content or an error");
        }
        _ => {
            cover("error");
            check(!complete, "what was written decompresses");
        }
    }
}

// ------------------------------------------------------------------- P27
// The second user of the same chain, a whole operation of which runs at some
// lock or storage step of the first.
static mut SHARED: Option<MainChain> = None;
static mut SHARED_D: Option<DerivativeChain> = None;
static mut OTHER: Option<BlockArc> = None;
static mut OTHER_D: Option<DerivativeBlock> = None;
static mut OTHER_OK: bool = false;
static mut KNOWN: Vec<Vec<u8>> = Vec::new();
static mut HASHES: Vec<[u8; 32]> = Vec::new();
#[allow(static_mut_refs)]
fn second_adds() {
    unsafe { OTHER_OK = SHARED.as_ref().unwrap().add_block(OTHER.clone().unwrap()).is_ok() }
}
#[allow(static_mut_refs)]
fn second_adds_d() {
    unsafe {
        OTHER_OK = SHARED_D.as_ref().unwrap().add_block(OTHER_D.as_ref().unwrap()).is_ok();
    }
}
#[allow(static_mut_refs)]
fn among(r: &Option<Vec<u8>>) -> bool {
    match r {
        None => true,
        Some(x) => unsafe { KNOWN.iter().any(|k| eq(k, x)) },
    }
}
/// every answer is a block that was added, or nothing
#[allow(static_mut_refs)]
fn reads(c: &dyn Chain, genesis: bool) {
    match choice(4, "read") {
        0 => {
            let a = c.raw_last();
            check(among(&a) && (a.is_some() || !genesis), "the last block is one that was added");
        }
        1 => {
            let h = c.height();
            let n = unsafe { KNOWN.len() } as u64;
            check(le(&h, &small(n)), "the height never exceeds the number of blocks");
            if !h.is_zero() {
                let i = h.0[0] - 1;
                let r = c.raw_height(&small(i));
                check(r.is_some() && among(&r), "a height that is reported has its block");
            }
        }
        2 => {
            for i in 0..unsafe { KNOWN.len() } {
                let r = c.raw_hash(unsafe { &HASHES[i] });
                check(r.is_none() || same(&r, unsafe { KNOWN.get(i) }), "a hash finds its own block or nothing");
            }
        }
        _ => {
            let n = unsafe { KNOWN.len() } as u64;
            for i in 0..n {
                let r = c.by_height(&small(i));
                check(among(&r), "a lookup by height answers with a block that was added");
            }
        }
    }
}
#[allow(static_mut_refs)]
fn second_reads() {
    unsafe { reads(SHARED.as_ref().unwrap(), true) }
}
#[allow(static_mut_refs)]
fn second_reads_d() {
    unsafe { reads(SHARED_D.as_ref().unwrap(), false) }
}
#[allow(static_mut_refs)]
fn know(d: Vec<u8>) {
    unsafe {
        HASHES.push(symrt::sha256(&d));
        KNOWN.push(d)
    }
}
pub fn h_p27_two_writers() {
    let c = main_chain();
    let mut list = with_genesis(&c);
    // for the same height, or the second one for the height after it
    let a = main_block(1, small(1));
    let b = main_block(1, small(1 + choice(2, "height")));
    let (da, db) = (dump(&a), dump(&b));
    unsafe {
        SHARED = Some(c.clone());
        OTHER = Some(b.clone());
        OTHER_OK = false;
    }
    let same_height = eqn(&b.get_info().height, &small(1));
    symrt::arm(second_adds);
    let r = c.add_block(a).is_ok();
    if !symrt::disarm() {
        second_adds();
        cover("one after the other");
    } else {
        cover("interleaved");
    }
    let o = unsafe { OTHER_OK };
    if same_height {
        check(r != o, "exactly one of two blocks for the same height is accepted");
        list.push(if r { da } else { db });
    } else {
        check(r, "a block for the next height is accepted");
        list.push(da);
        if o {
            list.push(db);
        }
    }
    agrees(&c, small(0), &list);
}
pub fn h_p27_two_writers_derivative() {
    use blockchaintree::block::Block;
    let c = derivative_chain(&[7; 32]);
    let a = derivative_block(small(0));
    let b = derivative_block(small(choice(2, "height")));
    let (da, db) = (a.dump().unwrap(), b.dump().unwrap());
    unsafe {
        SHARED_D = Some(c.clone());
        OTHER_D = Some(DerivativeBlock::parse(&db[1..]).unwrap());
        OTHER_OK = false;
    }
    let same_height = b.get_info().height.is_zero();
    symrt::arm(second_adds_d);
    let r = c.add_block(&a).is_ok();
    if !symrt::disarm() {
        second_adds_d();
        cover("one after the other");
    } else {
        cover("interleaved");
    }
    let o = unsafe { OTHER_OK };
    let mut list = Vec::new();
    if same_height {
        check(r != o, "exactly one of two blocks for the same height is accepted");
        list.push(if r { da } else { db });
    } else {
        check(r, "a block for the next height is accepted");
        list.push(da);
        if o {
            list.push(db);
        }
    }
    agrees(&c, small(0), &list);
}
/// a reader in the middle of an addition
pub fn h_p27_reader_inside() {
    let c = main_chain();
    let a = main_block(1, small(1));
    know(with_genesis(&c).remove(0));
    know(dump(&a));
    unsafe { SHARED = Some(c.clone()) };
    symrt::arm(second_reads);
    check(c.add_block(a).is_ok(), "a block for the next height is accepted");
    if !symrt::disarm() {
        second_reads();
    }
}
/// an addition in the middle of a read
#[allow(static_mut_refs)]
pub fn h_p27_writer_inside() {
    let c = main_chain();
    let a = main_block(1, small(1));
    know(with_genesis(&c).remove(0));
    know(dump(&a));
    unsafe {
        SHARED = Some(c.clone());
        OTHER = Some(a);
    }
    symrt::arm(second_adds);
    reads(&c, true);
    if symrt::disarm() {
        cover("interleaved");
        check(unsafe { OTHER_OK }, "a block for the next height is accepted");
        agrees(&c, small(0), unsafe { &KNOWN });
    }
}
#[allow(static_mut_refs)]
pub fn h_p27_derivative() {
    use blockchaintree::block::Block;
    let c = derivative_chain(&[7; 32]);
    let a = derivative_block(small(0));
    know(a.dump().unwrap());
    unsafe {
        SHARED_D = Some(c.clone());
        OTHER_D = Some(DerivativeBlock::parse(&a.dump().unwrap()[1..]).unwrap());
    }
    if choice(2, "inside") == 0 {
        symrt::arm(second_reads_d);
        check(c.add_block(&a).is_ok(), "a block for the next height is accepted");
        if !symrt::disarm() {
            second_reads_d();
        }
    } else {
        symrt::arm(second_adds_d);
        reads(&c, false);
        if !symrt::disarm() {
            return;
        }
        check(unsafe { OTHER_OK }, "a block for the next height is accepted");
    }
    agrees(&c, small(0), unsafe { &KNOWN });
}
#[allow(static_mut_refs)]
fn second_flushes() {
    unsafe { OTHER_OK = block_on(SHARED.as_ref().unwrap().flush()).is_ok() }
}
/// a flush in the middle of an addition, or the other way round
#[allow(static_mut_refs)]
pub fn h_p27_flush() {
    let c = main_chain();
    let a = main_block(1, small(1));
    let mut list = with_genesis(&c);
    list.push(dump(&a));
    unsafe {
        SHARED = Some(c.clone());
        OTHER = Some(a.clone());
    }
    if choice(2, "inside") == 0 {
        symrt::arm(second_flushes);
        check(c.add_block(a).is_ok(), "a block for the next height is accepted");
        if !symrt::disarm() {
            second_flushes();
        }
        check(unsafe { OTHER_OK }, "flushing succeeds");
    } else {
        symrt::arm(second_adds);
        check(block_on(c.flush()).is_ok(), "flushing succeeds");
        if !symrt::disarm() {
            second_adds();
        }
        check(unsafe { OTHER_OK }, "a block for the next height is accepted");
    }
    agrees(&c, small(0), &list);
    sled::model::crash();
    std::mem::forget(c);
    unsafe { std::mem::forget(SHARED.take()) };
    open_main(&list, 1);
}

// ------------------------------------------------------------------- P31
/// Every handle of a chain is the chain.
pub fn h_p31_main() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let (a, b) = (t.get_main_chain(), t.get_main_chain());
    let mut list = with_genesis(&a);
    for i in 0..3 {
        let n = small(list.len() as u64);
        let x = main_block(if i == 1 { choice(2, "kind") } else { 9 + i }, n);
        let ok = match choice(4, "through") {
            0 => a.add_block(x.clone()).is_ok(),
            1 => b.add_block(x.clone()).is_ok(),
            2 => b.clone().add_block(x.clone()).is_ok(),
            _ => t.add_new_block(x.clone(), &[]).is_ok(),
        };
        check(ok, "a block for the next height is accepted");
        list.push(dump(&x));
        agrees(&a, small(0), &list);
    }
    let x = transaction(&[1], &[0, 2], 5);
    check(b.add_transaction(&x).is_ok(), "a transaction is stored");
    stored(&a, &x);
    agrees(&b, small(0), &list);
    agrees(&b.clone(), small(0), &list);
    agrees(&t.get_main_chain(), small(0), &list);
    stored(&t.get_main_chain(), &x);
    // a handle outlives the tree
    check(block_on(t.flush()).is_ok(), "flushing succeeds");
    drop((t, a));
    agrees(&b, small(0), &list);
    let (ok, d) = b.add(1, small(list.len() as u64));
    check(ok, "a block for the next height is accepted");
    list.push(d);
    agrees(&b, small(0), &list);
}
pub fn h_p31_derivative() {
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let (who, other) = ([2u8; 33], [3u8; 33]);
    let a = t.get_derivative_chain(&who).unwrap();
    if choice(2, "between") == 1 {
        t.get_derivative_chain(&other).unwrap();
        let (ok, _) = t.get_main_chain().add(9, small(1));
        check(ok, "a block for the next height is accepted");
    }
    let b = t.get_derivative_chain(&who).unwrap();
    check(eq(a.genesis_hash.as_ref(), b.genesis_hash.as_ref()), "every handle of a chain is founded on the same block");
    let mut list = Vec::new();
    for i in 0..3 {
        let n = small(list.len() as u64);
        let kind = if i == 1 { 0 } else { 9 + i };
        let (ok, d) = match choice(4, "through") {
            0 => a.add(kind, n),
            1 => b.add(kind, n),
            2 => b.clone().add(kind, n),
            _ => t.get_derivative_chain(&who).unwrap().add(kind, n),
        };
        check(ok, "a block for the next height is accepted");
        list.push(d);
        agrees(&a, small(0), &list);
    }
    agrees(&b, small(0), &list);
    agrees(&t.get_derivative_chain(&who).unwrap(), small(0), &list);
    agrees(&t.get_derivative_chain(&other).unwrap(), small(0), &[]);
}
/// A flush through any handle covers what was added through the others.
pub fn h_p31_flush() {
    tokio::model::set_late_writes(true);
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let who = [2u8; 33];
    let (a, m) = (t.get_derivative_chain(&who).unwrap(), t.get_main_chain());
    let mut dl = Vec::new();
    let mut list = with_genesis(&m);
    let (_, d) = a.add(9, small(0));
    dl.push(d);
    let (_, d) = m.add(9, small(1));
    list.push(d);
    match choice(3, "flush") {
        0 => check(block_on(t.flush()).is_ok(), "flushing succeeds"),
        1 => {
            check(block_on(t.get_main_chain().flush()).is_ok(), "flushing succeeds");
            let c = t.get_derivative_chain(&who).unwrap();
            check(block_on(c.flush()).is_ok(), "flushing succeeds");
        }
        _ => {
            check(block_on(m.clone().flush()).is_ok(), "flushing succeeds");
            check(block_on(a.clone().flush()).is_ok(), "flushing succeeds");
        }
    }
    sled::model::crash();
    std::mem::forget((t, a, m));
    agrees(&main_chain(), small(0), &list);
    let mut t = BlockChainTree::new(ROOT).unwrap();
    agrees(&t.get_main_chain(), small(0), &list);
    agrees(&t.get_derivative_chain(&who).unwrap(), small(0), &dl);
}

// ------------------------------------------------------------------- P32
/// every file under a folder with its content, and every folder, sorted
fn listing(root: &str) -> Vec<(String, Option<Vec<u8>>)> {
    let mut todo = vec![String::new()];
    let mut out = Vec::new();
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(format!("{}{}", root, d)).unwrap() {
            let e = e.unwrap();
            let n = format!("{}/{}", d, e.file_name().to_str().unwrap());
            if e.file_type().unwrap().is_dir() {
                out.push((n.clone(), None));
                todo.push(n);
            } else {
                out.push((n.clone(), Some(std::fs::read(format!("{}{}", root, n)).unwrap())));
            }
        }
    }
    out.sort_by(|a, b| a.0.cmp(&b.0));
    out
}
fn same_listing(a: &[(String, Option<Vec<u8>>)], b: &[(String, Option<Vec<u8>>)]) -> bool {
    let mut r = a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
        r &= x.0 == y.0 && same(&x.1, y.1.as_ref());
    }
    r
}
/// folders that are there, with files of any content in them
fn plant(root: &str, dirs: &[&str], files: &[&str], lens: &[usize]) {
    for d in dirs {
        std::fs::create_dir_all(format!("{}/{}", root, d)).unwrap();
    }
    for f in files {
        let n = lens[choice(lens.len() as u64, "len") as usize];
        std::fs::write(format!("{}/{}", root, f), symrt::vec(n, "content")).unwrap();
    }
}
const SHAPES: [(&[&str], &[&str]); 6] = [
    (&[""], &[]),
    (&[""], &["a", "b"]),
    (&["d"], &["a", "d/a"]),
    (&["d/e/f", "g"], &["d/e/x", "d/e/f/y"]),
    (&["blobs", "empty"], &["db", "conf", "blobs/0"]),
    (&[".h", "a b"], &[".x", "a b/c.d.e"]),
];
pub fn h_p32_copy() {
    let (dirs, files) = SHAPES[choice(6, "shape") as usize];
    plant("/v/from", dirs, files, &[0, 1, 40]);
    let before = listing("/v/from");
    let to = ["/v/to", "/v/deep/er/to"][choice(2, "to") as usize];
    check(tools::copy_dir_all("/v/from", to).is_ok(), "a folder is copied");
    check(same_listing(&before, &listing(to)), "the copy has every file and folder of the original, unchanged, and nothing else");
    check(same_listing(&before, &listing("/v/from")), "the original stays");
    // the copy stands alone
    std::fs::write("/v/from/a", [7u8; 3]).unwrap();
    check(same_listing(&before, &listing(to)), "the copy does not follow the original");
}
/// into a folder that has something already
pub fn h_p32_over() {
    let (dirs, files) = SHAPES[1 + choice(4, "shape") as usize];
    plant("/v/from", dirs, files, &[0, 3]);
    plant("/v/to", &["d", "other"], &["a", "other/z", "d/q"], &[1, 3]);
    let kept = listing("/v/to");
    let before = listing("/v/from");
    check(tools::copy_dir_all("/v/from", "/v/to").is_ok(), "a folder is copied");
    let mut expected = before.clone();
    for k in kept {
        if !before.iter().any(|x| x.0 == k.0) {
            expected.push(k);
        }
    }
    expected.sort_by(|a, b| a.0.cmp(&b.0));
    check(same_listing(&expected, &listing("/v/to")), "files of the same name are replaced, others stay");
}
/// larger files, and many
pub fn h_p32_large() {
    std::fs::create_dir_all("/v/from/d").unwrap();
    let n = [4096, 8192, 8193, 65536, 65537, 131073][choice(6, "len") as usize];
    std::fs::write("/v/from/d/l", large(n, "content")).unwrap();
    for i in 0..40 {
        std::fs::write(format!("/v/from/f{}", i), symrt::vec(2, "content")).unwrap();
    }
    let before = listing("/v/from");
    check(tools::copy_dir_all("/v/from", "/v/to").is_ok(), "a folder is copied");
    check(same_listing(&before, &listing("/v/to")), "the copy has every file and folder of the original, unchanged, and nothing else");
}
/// A file operation fails, or writes less than asked.
pub fn h_p32_faults() {
    let (dirs, files) = SHAPES[1 + choice(3, "shape") as usize];
    plant("/v/from", dirs, files, &[5]);
    if choice(2, "over") == 1 {
        plant("/v/to", &["d", "other"], &["a", "other/z"], &[5]);
    }
    let before = listing("/v/from");
    symrt::file_faults(true);
    let r = attempt(|| tools::copy_dir_all("/v/from", "/v/to").is_ok());
    let failed = symrt::file_faults(false);
    check(!r.panicked(), "copying never panics");
    cover(if failed { "failed" } else { "not failed" });
    check(r.done() == Some(!failed), "an I/O error is reported");
    check(same_listing(&before, &listing("/v/from")), "the original stays");
    if !failed {
        for x in &before {
            check(listing("/v/to").iter().any(|y| x.0 == y.0 && same(&x.1, y.1.as_ref())), "every file is copied");
        }
    }
}
pub fn h_p32_missing() {
    let r = attempt(|| tools::copy_dir_all("/v/none", "/v/to").is_ok());
    check(!r.panicked(), "copying never panics");
    check(r.done() == Some(false), "a missing folder is an error");
}
