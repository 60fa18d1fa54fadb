//! P11 P22 P23: emitting main-chain blocks, epoch blocks and derivative blocks
use crate::balance::{accounts, fund, Ledger, ROOT_ADDRESS};
use crate::consensus::at_least;
use crate::store::*;
use crate::util::*;
use blockchaintree::block::{BasicInfo, Block, BlockArc, DerivativeBlock, SummarizeBlock, TransactionBlock};
use blockchaintree::blockchaintree::BlockChainTree;
use primitive_types::U256;
use std::sync::Arc;
use symrt::{assume, attempt, check, choice, cover};

/// the documented encoding of the header of a block
fn header(previous: &[u8; 32], pow: &[u8; 32], difficulty: &[u8; 32], founder: &[u8; 33], ts: u64, height: &U256) -> Vec<u8> {
    let mut e = ts.to_be_bytes().to_vec();
    e.extend_from_slice(previous);
    e.extend_from_slice(pow);
    e.extend_from_slice(difficulty);
    e.extend_from_slice(founder);
    e.extend_from_slice(&enc_u256(height));
    e
}
/// Adds a block with that difficulty as the last one: what it is does not
/// matter otherwise.
fn last_block(t: &BlockChainTree, kind: u64, height: u64, difficulty: [u8; 32]) -> BlockArc {
    let i = BasicInfo::new(
        symrt::u64("last_ts"),
        symrt::bytes("last_pow"),
        symrt::bytes("last_previous"),
        small(height),
        difficulty,
        symrt::bytes("last_founder"),
    );
    let b: BlockArc = match kind {
        0 => Arc::new(SummarizeBlock { default_info: i, merkle_tree_root: symrt::bytes("last_root") }),
        _ => Arc::new(TransactionBlock::new(small(1), i, symrt::bytes("last_root"), vec![symrt::bytes("last_tx")])),
    };
    check(t.get_main_chain().add_block(b.clone()).is_ok(), "a block for the next height is accepted");
    b
}
struct Emission {
    pow: [u8; 32],
    founder: [u8; 33],
    txs: Vec<[u8; 32]>,
    ts: u64,
}
fn emission(txs: usize) -> Emission {
    Emission {
        pow: symrt::bytes("pow"),
        founder: symrt::bytes("founder"),
        txs: (0..txs).map(|_| symrt::bytes("tx")).collect(),
        ts: symrt::u64("ts"),
    }
}
/// The digest of a proof of work; digests with more than a byte of zeros
/// beyond what is required are left to P07.
fn digest(previous: &[u8; 32], root: &[u8; 32], pow: &[u8; 32], k: u32) -> [u8; 32] {
    let mut w = previous.to_vec();
    w.extend_from_slice(root);
    w.extend_from_slice(pow);
    let d = symrt::sha256(&w);
    // the digest decides early: before, at, or right behind the limit
    let i = (k / 8 + 1).min(31) as usize;
    if k < 248 {
        assume(d[i] != 0);
    }
    if i >= 2 {
        // all zeros up to the byte of the limit, or not even the first
        let mut z = 0;
        for x in &d[..i - 1] {
            z |= *x;
        }
        assume((d[0] != 0) | (z == 0));
    }
    d
}
fn emit(t: &mut BlockChainTree, e: &Emission) -> Option<Option<BlockArc>> {
    let r = attempt(|| block_on(t.emmit_new_main_block(&e.pow, &e.founder, &e.txs, e.ts)));
    check(!r.panicked(), "emission never panics");
    r.done().map(|r| r.ok())
}
/// The block is stored as the one after `prev`, and is valid.
fn appended(t: &BlockChainTree, base: U256, list: &[Vec<u8>], b: &BlockArc, prev: &BlockArc, expected: &[u8]) {
    check(eq(&dump(b), expected), "the emitted block carries what was given, linked to the last block, with retargeted difficulty and its fee");
    let mut l = list.to_vec();
    l.push(expected.to_vec());
    agrees(&t.get_main_chain(), base, &l);
    check(matches!(b.validate(Some(prev.clone())), Ok(true)), "the emitted block is valid");
}
/// One emission over `prev`, whose difficulty has `k` leading zero bits;
/// `next` is the retargeted difficulty for a time.
fn emit_checked(
    t: &mut BlockChainTree,
    who: &[[u8; 33]],
    base: U256,
    list: &mut Vec<Vec<u8>>,
    prev: &BlockArc,
    k: u32,
    txs: usize,
    next: impl Fn(u64) -> [u8; 32],
) -> Option<BlockArc> {
    let e = emission(txs);
    let before = Ledger::of(t, who);
    let hash = symrt::sha256(list.last().unwrap());
    let work = digest(&hash, &merkle(&e.txs), &e.pow, k);
    let r = emit(t, &e)?;
    let enough = at_least(&work, k);
    check(r.is_some() == (enough && txs > 0), "emission succeeds exactly if the work meets the last difficulty and there are transactions");
    check(before.same(&Ledger::of(t, who)), "emission off the epoch boundary changes no balance");
    match &r {
        None => {
            cover("refused");
            agrees(&t.get_main_chain(), base, list);
        }
        Some(b) => {
            cover("emitted");
            let d = next(e.ts);
            let height = add(&base, &small(list.len() as u64)).0;
            let mut x = vec![2u8];
            x.extend_from_slice(&merkle(&e.txs));
            x.extend_from_slice(&header(&hash, &e.pow, &d, &e.founder, e.ts, &height));
            x.extend_from_slice(&enc_u256(&small(62_500 * lzf(&d) as u64)));
            for h in &e.txs {
                x.extend_from_slice(h);
            }
            appended(t, base, list, b, prev, &x);
            list.push(x);
        }
    }
    r
}

// ------------------------------------------------------------------- P11
fn over_last(kinds: u64, bits: &[u32], txs: &[usize]) {
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(1);
    fund(&t, &who[1], false, &[1]);
    let mut list = with_genesis(&t.get_main_chain());
    let k = bits[choice(bits.len() as u64, "bits") as usize];
    let prev = last_block(&t, choice(kinds, "last_kind"), 1, threshold(k));
    list.push(dump(&prev));
    let pt = prev.get_info().timestamp;
    let n = txs[choice(txs.len() as u64, "txs") as usize];
    emit_checked(&mut t, &who, small(0), &mut list, &prev, k, n, |ts| threshold(retarget(k, pt, ts)));
}
pub fn h_p11_over() {
    over_last(2, &[1, 2, 8], &[0, 1, 2]);
}
pub fn h_p11_bits() {
    let bits: Vec<u32> = (1..=32).map(|i| i * 8).collect();
    over_last(1, &bits, &[1]);
}
pub fn t_p11_bits() {
    let bits: Vec<u32> = (1..=256).collect();
    over_last(2, &bits, &[0, 1, 3]);
}
/// more transactions
pub fn h_p11_many() {
    over_last(1, &[1], &[3, 4, 5, 7, 8, 9, 15, 16, 17, 33, 64, 100, 256]);
}
/// over a longer chain
pub fn h_p11_later() {
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(1);
    let m = t.get_main_chain();
    let mut list = with_genesis(&m);
    for i in 0..17 {
        let (ok, d) = m.add(9 + i, small(1 + i));
        check(ok, "a block for the next height is accepted");
        list.push(d);
    }
    let prev = last_block(&t, choice(2, "last_kind"), 18, threshold(3));
    list.push(dump(&prev));
    let pt = prev.get_info().timestamp;
    emit_checked(&mut t, &who, small(0), &mut list, &prev, 3, 2, |ts| threshold(retarget(3, pt, ts)));
}
/// at heights of every size
pub fn h_p11_heights() {
    let mut heights = vec![small(254), small(255), small(256), small(257), small(65535), small(65536), small(999_999), small(1_000_001)];
    for i in 0..4 {
        let mut n = U256::zero();
        n.0[i] = 1 << 32;
        heights.push(n);
        n.0[i] = 1 << 63;
        heights.push(n);
        for k in 0..i {
            n.0[k] = u64::MAX;
        }
        n.0[i] = u64::MAX >> 1;
        heights.push(n);
    }
    let next = heights[choice(heights.len() as u64, "height") as usize];
    let (mut t, prev, base) = tree_at(next, 1);
    let mut list = vec![dump(&prev)];
    let pt = prev.get_info().timestamp;
    emit_checked(&mut t, &[ROOT_ADDRESS], base, &mut list, &prev, 1, 1, |ts| threshold(retarget(1, pt, ts)));
}
/// any difficulty of the last block: the step is the library's own rule (P06)
pub fn h_p11_any_difficulty() {
    let zeros = [0, 1, 31, 32][choice(4, "zeros") as usize];
    let mut old: [u8; 32] = symrt::bytes("old");
    old[..zeros].fill(0);
    if zeros < 32 {
        assume(old[zeros] != 0);
    }
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let mut list = with_genesis(&t.get_main_chain());
    let prev = last_block(&t, 0, 1, old);
    list.push(dump(&prev));
    let pt = prev.get_info().timestamp;
    emit_checked(&mut t, &[ROOT_ADDRESS], small(0), &mut list, &prev, lzf(&old), 1, |ts| {
        let mut d = old;
        blockchaintree::tools::recalculate_difficulty(pt, ts, &mut d);
        d
    });
}
/// The first blocks of a chain.
fn from_genesis(blocks: usize, txs: usize) {
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let mut list = with_genesis(&t.get_main_chain());
    let mut prev = t.get_main_chain().get_last_block().unwrap().unwrap();
    let mut k = 1;
    for _ in 0..blocks {
        let pt = prev.get_info().timestamp;
        let n = choice(txs as u64, "txs") as usize;
        let mut next = k;
        let p = &mut next as *mut u32;
        let r = emit_checked(&mut t, &[ROOT_ADDRESS], small(0), &mut list, &prev, k, n, |ts| {
            let n = retarget(k, pt, ts);
            unsafe { *p = n };
            threshold(n)
        });
        if let Some(b) = r {
            prev = b;
            k = next;
        }
    }
}
pub fn h_p11_first() {
    from_genesis(1, 4);
}
pub fn h_p11_two() {
    from_genesis(2, 2);
}
pub fn t_p11_three() {
    from_genesis(3, 3);
}

// ------------------------------------------------------------------- P28
/// One failure: of a file operation, or of a step of the databases.
#[derive(Clone, Copy)]
enum Fault {
    File,
    Step(u64),
}
impl Fault {
    fn any(steps: u64) -> Fault {
        match choice(2, "kind") {
            0 => Fault::File,
            _ => Fault::Step(choice(steps, "fault")),
        }
    }
    /// and whether it came to pass
    fn during<T>(self, f: impl FnOnce() -> T) -> (T, bool) {
        match self {
            Fault::File => {
                symrt::file_faults(true);
            }
            Fault::Step(n) => sled::model::fault_in(Some(n)),
        }
        let r = f();
        let failed = match self {
            Fault::File => symrt::file_faults(false),
            Fault::Step(_) => !sled::model::fault_pending(),
        };
        sled::model::fault_in(None);
        (r, failed)
    }
}
/// A failure while a block is emitted: an error and nothing changed, and the
/// emission can be repeated.
pub fn h_p28_emission() {
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(1);
    fund(&t, &who[1], false, &[1]);
    let mut list = with_genesis(&t.get_main_chain());
    let prev = last_block(&t, 1, 1, threshold(1));
    list.push(dump(&prev));
    let before = Ledger::of(&t, &who);
    let e = emission(1);
    let work = digest(&symrt::sha256(&list[1]), &merkle(&e.txs), &e.pow, 1);
    assume(at_least(&work, 1));
    let (r, failed) = Fault::any(8).during(|| emit(&mut t, &e));
    let Some(r) = r else { return };
    check(r.is_some() != failed, "a failed emission is reported");
    cover(if failed { "failed" } else { "emitted" });
    check(before.same(&Ledger::of(&t, &who)), "a failed emission changes no balance");
    if failed {
        agrees(&t.get_main_chain(), small(0), &list);
        let r = emit(&mut t, &e);
        check(matches!(r, Some(Some(_))), "a failed emission can be repeated");
    }
    check(eqn(&t.get_main_chain().get_height(), &small(3)), "the height is the number of blocks");
}
pub fn h_p28_emission_derivative() {
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let mut c = founded(&t);
    let who = founder(choice(2, "founder") as usize);
    let first = choice(2, "first") == 1;
    if first && !derive(&mut t, &who, &mut c) {
        return;
    }
    let (pow, ts): ([u8; 32], u64) = (symrt::bytes("pow"), symrt::u64("ts"));
    let work = digest(&symrt::sha256(&dump(&c.prev)), &PAD, &pow, c.k);
    assume(at_least(&work, c.k));
    let (r, failed) = Fault::any(8).during(|| attempt(|| block_on(t.emmit_new_derivative_block(&pow, &who, ts)).ok()));
    check(!r.panicked(), "emission never panics");
    let Some(r) = r.done() else { return };
    check(failed | r.is_some(), "without a failure the block is emitted");
    cover(if r.is_none() { "failed" } else { "emitted" });
    if r.is_none() {
        agrees(&t.get_derivative_chain(&who).unwrap(), small(0), &c.list);
        let r = block_on(t.emmit_new_derivative_block(&pow, &who, ts));
        check(r.is_ok(), "a failed emission can be repeated");
    }
    let n = small(c.list.len() as u64 + 1);
    check(eqn(&t.get_derivative_chain(&who).unwrap().get_height(), &n), "the height is the number of blocks");
    check(eqn(&t.get_main_chain().get_height(), &small(1)), "the main chain stays");
}
/// A failure at an epoch boundary.
pub fn h_p28_epoch() {
    let f = Fault::any(24);
    let (t, prev, base) = tree_at(small(EPOCH), 1);
    let mut all = Vec::new();
    for (i, a) in accounts(1).into_iter().enumerate() {
        let (c, g) = (u256_of_size(1, "coins"), u256_of_size(i, "gas"));
        check(t.set_amount(&a, c.0).is_ok() & t.add_gas(&a, g.0).is_ok(), "a balance can be set");
        all.push(Account { address: a, coins: Some(c), gas: Some(g) });
    }
    if choice(2, "before") == 1 {
        check(block_on(t.flush()).is_ok(), "flushing succeeds");
    }
    epoch_with(t, prev, base, 1, &mut all, 0, None, Some(f));
}

// --------------------------------------------------------------- P20 P33
/// Death during an emission at an epoch boundary.
fn dying_epoch(ledgers: bool) {
    tokio::model::set_late_writes(true);
    let (mut t, prev, base) = tree_at(small(EPOCH), 1);
    let mut all = Vec::new();
    for (i, a) in accounts(1).into_iter().enumerate() {
        let (c, g) = (u256_of_size(1, "coins"), u256_of_size(i, "gas"));
        check(t.set_amount(&a, c.0).is_ok() & t.add_gas(&a, g.0).is_ok(), "a balance can be set");
        all.push(Account { address: a, coins: Some(c), gas: Some(g) });
    }
    let who: Vec<[u8; 33]> = all.iter().map(|a| a.address).collect();
    let before = Ledger::of(&t, &who);
    check(block_on(t.flush()).is_ok(), "flushing succeeds");
    let mut list = vec![dump(&prev)];
    let e = emission(0);
    let hash = symrt::sha256(&list[0]);
    let work = digest(&hash, &merkle(&e.txs), &e.pow, 1);
    assume(at_least(&work, 1));
    let d = threshold(retarget(1, prev.get_info().timestamp, e.ts));
    let mut x = vec![4u8];
    x.extend_from_slice(&summary(&all));
    x.extend_from_slice(&header(&hash, &e.pow, &d, &e.founder, e.ts, &add(&base, &small(1)).0));
    list.push(x);
    let mut flushed = 1;
    let p = &mut flushed as *mut usize;
    let q = &mut t as *mut BlockChainTree;
    symrt::crash_points(true);
    let r = attempt(|| {
        let t = unsafe { &mut *q };
        let _ = block_on(t.emmit_new_main_block(&e.pow, &e.founder, &e.txs, e.ts));
        if !ledgers {
            block_on(t.flush()).unwrap();
            unsafe { *p = 2 };
        }
    });
    symrt::crash_points(false);
    check(!r.panicked(), "nothing panics");
    sled::model::crash();
    std::mem::forget(t);
    let t = match attempt(|| BlockChainTree::new(ROOT)).done() {
        Some(Ok(t)) => t,
        _ => return check(false, "the folder opens again after a crash"),
    };
    if ledgers {
        let now = Ledger::of(&t, &who);
        let mut next = before.clone();
        next.coins[0] = coins_per_cycle();
        cover(if before.same(&now) { "before" } else { "after" });
        check(before.same(&now) | next.same(&now), "the balances are those of before or after the boundary");
    } else {
        prefix(&t.get_main_chain(), base, &list, flushed);
    }
}
pub fn h_p20_epoch() {
    dying_epoch(false);
}
pub fn h_p33_epoch() {
    dying_epoch(true);
}

// ------------------------------------------------------------------- P22
const EPOCH: u64 = 1_000_000;
/// A tree whose next block is the `next`-th; its last block has difficulty k.
fn tree_at(next: U256, k: u32) -> (BlockChainTree, BlockArc, U256) {
    let last = sub(&next, &small(1));
    let mut be = Vec::new();
    for i in (0..4).rev() {
        be.extend_from_slice(&last.0[i].to_be_bytes());
    }
    std::fs::create_dir_all("/v/t/MAIN").unwrap();
    be.extend_from_slice(&BEGINNING);
    std::fs::write("/v/t/MAIN/Chain.config", be).unwrap();
    let t = BlockChainTree::new(ROOT).unwrap();
    let i = BasicInfo::new(symrt::u64("last_ts"), [1; 32], [2; 32], last, threshold(k), [3; 33]);
    let b: BlockArc = Arc::new(SummarizeBlock { default_info: i, merkle_tree_root: [4; 32] });
    check(t.get_main_chain().add_block(b.clone()).is_ok(), "a block for the next height is accepted");
    (t, b, last)
}
/// account, coins, gas and their encodings (none: never set)
struct Account {
    address: [u8; 33],
    coins: Option<(U256, Vec<u8>)>,
    gas: Option<(U256, Vec<u8>)>,
}
fn held(sizes: &[usize], name: &str) -> Option<(U256, Vec<u8>)> {
    let k = choice(sizes.len() as u64 + 1, name) as usize;
    (k < sizes.len()).then(|| u256_of_size(sizes[k], name))
}
fn populate(t: &BlockChainTree, n: usize, coins: &[usize], gas: &[usize]) -> Vec<Account> {
    let mut out = Vec::new();
    for a in accounts(n) {
        let c = held(coins, "coins");
        let g = held(gas, "gas");
        if let Some(c) = &c {
            check(t.set_amount(&a, c.0).is_ok(), "a balance can be set");
        }
        if let Some(g) = &g {
            check(t.add_gas(&a, g.0).is_ok(), "a balance can be set");
        }
        out.push(Account { address: a, coins: c, gas: g });
    }
    out
}
/// the Merkle root over coins and gas of every account of the coin ledger
fn summary(all: &[Account]) -> [u8; 32] {
    let mut sorted: Vec<&Account> = Vec::new();
    for a in all.iter().filter(|a| a.coins.is_some()) {
        let mut i = sorted.len();
        while i > 0 && sorted[i - 1].address > a.address {
            i -= 1;
        }
        sorted.insert(i, a);
    }
    let leaves: Vec<[u8; 32]> = sorted
        .iter()
        .map(|a| {
            let mut d = a.address.to_vec();
            d.push(b'|');
            d.extend_from_slice(&a.coins.as_ref().unwrap().1);
            d.push(b'|');
            if let Some(g) = &a.gas {
                d.extend_from_slice(&g.1);
            }
            symrt::sha256(&d)
        })
        .collect();
    merkle(&leaves)
}
fn holds(db: &sled::Db, a: &[u8; 33], v: &Option<(U256, Vec<u8>)>) -> bool {
    match (db.get(a).unwrap(), v) {
        (Some(x), Some(v)) => eq(&x, &v.1),
        (None, None) => true,
        _ => false,
    }
}
/// Emits at a boundary; the tree is consumed so that the snapshot can be read.
fn epoch(t: BlockChainTree, prev: BlockArc, base: U256, k: u32, all: &mut Vec<Account>, txs: usize, old: Option<&[Account]>) -> bool {
    epoch_with(t, prev, base, k, all, txs, old, None)
}
/// With `faults` something fails in the first attempt, and it is repeated.
fn epoch_with(mut t: BlockChainTree, prev: BlockArc, base: U256, k: u32, all: &mut Vec<Account>, txs: usize, old: Option<&[Account]>, faults: Option<Fault>) -> bool {
    let who: Vec<[u8; 33]> = all.iter().map(|a| a.address).collect();
    let mut before = Ledger::of(&t, &who);
    let list = vec![dump(&prev)];
    let hash = symrt::sha256(&list[0]);
    let e = emission(txs);
    let work = digest(&hash, &merkle(&e.txs), &e.pow, k);
    let enough = at_least(&work, k);
    if let Some(f) = faults {
        assume(enough);
        let r = f.during(|| emit(&mut t, &e));
        match r {
            (Some(None), failed) => {
                check(failed, "without a failure the block is emitted");
                cover("failed");
                check(before.same(&Ledger::of(&t, &who)), "a failed emission changes no balance");
                agrees(&t.get_main_chain(), base, &list);
            }
            _ => return false,
        }
    }
    let Some(r) = emit(&mut t, &e) else { return false };
    check(r.is_some() == (enough && txs == 0), "an epoch block is emitted exactly if the work suffices and there are no transactions");
    match &r {
        Some(b) => {
            cover("emitted");
            let d = threshold(retarget(k, prev.get_info().timestamp, e.ts));
            let mut x = vec![4u8];
            x.extend_from_slice(&summary(all));
            x.extend_from_slice(&header(&hash, &e.pow, &d, &e.founder, e.ts, &add(&base, &small(1)).0));
            appended(&t, base, &list, b, &prev, &x);
            before.coins[0] = coins_per_cycle();
        }
        None => {
            cover("refused");
            agrees(&t.get_main_chain(), base, &list);
        }
    }
    check(before.same(&Ledger::of(&t, &who)), "the root account starts a new cycle, every other balance is unchanged");
    check(block_on(t.flush()).is_ok(), "flushing succeeds");
    drop(t);
    // the snapshot, as it is on disk
    let (c, g) = (sled::open("/v/t/SUMMARYOLD/").unwrap(), sled::open("/v/t/GASSUMMARYOLD/").unwrap());
    let expected: Option<&[Account]> = if r.is_some() { Some(all) } else { old };
    match expected {
        Some(x) => {
            for a in x {
                check(holds(&c, &a.address, &a.coins), "the old snapshot has the coins of before the boundary");
                check(holds(&g, &a.address, &a.gas), "the old snapshot has the gas of before the boundary");
            }
            check(c.len() == x.iter().filter(|a| a.coins.is_some()).count(), "the old snapshot has nothing else");
        }
        None => check(c.is_empty() && g.is_empty(), "without a boundary there is no snapshot"),
    }
    drop((c, g));
    // and after reopening
    let t = BlockChainTree::new(ROOT).unwrap();
    check(before.same(&Ledger::of(&t, &who)), "balances survive reopening after the boundary");
    r.is_some()
}
fn boundary(heights: &[U256], bits: &[u32], n: usize, coins: &[usize], gas: &[usize], txs: &[usize]) {
    let h = heights[choice(heights.len() as u64, "height") as usize];
    let k = bits[choice(bits.len() as u64, "bits") as usize];
    let (t, prev, base) = tree_at(h, k);
    let mut all = populate(&t, n, coins, gas);
    let m = txs[choice(txs.len() as u64, "txs") as usize];
    epoch(t, prev, base, k, &mut all, m, None);
}
pub fn h_p22_accounts() {
    boundary(&[small(EPOCH)], &[1], 2, &[1], &[1], &[0]);
}
pub fn h_p22_sizes() {
    boundary(&[small(EPOCH)], &[1], 0, &[0, 2, 8, 9, 31, 32], &[0, 2, 32], &[0]);
}
/// Many accounts; those with gas only are not part of the coin ledger.
pub fn h_p22_many() {
    let n = [3, 4, 5, 7, 8, 9, 16, 17, 33][choice(9, "n") as usize];
    let (t, prev, base) = tree_at(small(EPOCH), 1);
    let mut all = populate(&t, 0, &[9], &[]);
    for i in 0..n {
        // in no particular order
        let mut a = [3u8; 33];
        a[0] = (i * 37 + 11) as u8;
        a[32] = i as u8;
        let c = if i % 5 == 4 { None } else { Some(u256_of_size([0, 1, 2][i % 3], "coins")) };
        let g = if i % 2 == 1 || c.is_none() { Some(u256_of_size([2, 0, 1][i % 3], "gas")) } else { None };
        if let Some(c) = &c {
            check(t.set_amount(&a, c.0).is_ok(), "a balance can be set");
        }
        if let Some(g) = &g {
            check(t.add_gas(&a, g.0).is_ok(), "a balance can be set");
        }
        all.push(Account { address: a, coins: c, gas: g });
    }
    epoch(t, prev, base, 1, &mut all, 0, None);
}
pub fn h_p22_heights() {
    let far = U256([0, EPOCH, 0, 0]);
    let farther = U256([0, 0, 0, EPOCH << 40]);
    boundary(&[small(EPOCH), small(2 * EPOCH), small(EPOCH * EPOCH), far, farther], &[1, 8, 256], 0, &[9], &[], &[0, 1]);
}
pub fn t_p22_accounts() {
    boundary(&[small(EPOCH)], &[1], 3, &[1], &[1], &[0]);
}
/// Off the boundary there is never a summary block and nothing rotates.
fn off_boundary(next: U256, txs: usize) {
    let (mut t, prev, base) = tree_at(next, 1);
    let who = accounts(1);
    fund(&t, &ROOT_ADDRESS, false, &[9]);
    fund(&t, &who[1], true, &[1]);
    let mut list = vec![dump(&prev)];
    let pt = prev.get_info().timestamp;
    emit_checked(&mut t, &who, base, &mut list, &prev, 1, txs, |ts| threshold(retarget(1, pt, ts)));
    drop(t);
    let c = sled::open("/v/t/SUMMARYOLD/").unwrap();
    check(c.is_empty(), "off the boundary there is no snapshot");
}
pub fn h_p22_off() {
    let heights = [
        small(EPOCH - 1),
        small(EPOCH + 1),
        small(EPOCH / 2),
        small(2 * EPOCH + 1),
        small(EPOCH * EPOCH - 1),
        U256([1, EPOCH, 0, 0]),
        U256([0, 1, 0, 0]),
        U256([0, 0, 0, 1 << 60]),
    ];
    off_boundary(heights[choice(8, "height") as usize], choice(2, "txs") as usize);
}
/// every height of up to that many bytes
fn any_height(bytes: usize) {
    let next = u256_of_size(bytes, "height").0;
    assume(next.0[0] > 1);
    let (mut t, prev, base) = tree_at(next, 1);
    let e = emission(1);
    let hash = symrt::sha256(&dump(&prev));
    let work = digest(&hash, &merkle(&e.txs), &e.pow, 1);
    let Some(r) = emit(&mut t, &e) else { return };
    let enough = at_least(&work, 1);
    let at = next.0[0] % EPOCH == 0;
    cover(if at { "boundary" } else { "off the boundary" });
    check(r.is_some() == (enough & !at), "transactions are taken exactly off the boundaries");
    let n = if r.is_some() { 2 } else { 1 };
    check(eqn(&t.get_main_chain().get_height(), &add(&base, &small(n)).0), "the height is the number of blocks");
}
pub fn h_p22_any_height() {
    any_height([1, 2, 3][choice(3, "bytes") as usize]);
}
pub fn t_p22_any_height() {
    any_height([4, 5, 8][choice(3, "bytes") as usize]);
}
/// Two boundaries: the second snapshot replaces the first.
pub fn h_p22_twice() {
    let (t, prev, base) = tree_at(small(EPOCH), 1);
    let mut all = populate(&t, 1, &[2], &[1]);
    if !epoch(t, prev, base, 1, &mut all, 0, None) {
        return;
    }
    // much later
    let (t, prev, base) = tree_at(small(2 * EPOCH), 1);
    let mut later: Vec<Account> = Vec::new();
    for (i, a) in all.iter().enumerate() {
        let c = if i == 0 && choice(2, "root") == 0 {
            let mut e = enc_u256(&coins_per_cycle());
            e.shrink_to_fit();
            Some((coins_per_cycle(), e))
        } else {
            let c = u256_of_size(1, "later_coins");
            check(t.set_amount(&a.address, c.0).is_ok(), "a balance can be set");
            Some(c)
        };
        later.push(Account { address: a.address, coins: c, gas: a.gas.clone() });
    }
    epoch(t, prev, base, 1, &mut later, 0, Some(&all));
}

// ------------------------------------------------------------------- P23
/// founders that differ from the first one in one byte
fn founder(i: usize) -> [u8; 33] {
    let mut f = [2u8; 33];
    if i > 0 {
        f[i - 1] = 3;
    }
    f
}
struct Derivative {
    list: Vec<Vec<u8>>,
    prev: BlockArc,
    k: u32,
}
fn derive(t: &mut BlockChainTree, who: &[u8; 33], c: &mut Derivative) -> bool {
    let pow: [u8; 32] = symrt::bytes("pow");
    let ts = symrt::u64("ts");
    let hash = symrt::sha256(&dump(&c.prev));
    let work = digest(&hash, &PAD, &pow, c.k);
    let r = attempt(|| block_on(t.emmit_new_derivative_block(&pow, who, ts)).ok());
    check(!r.panicked(), "emission never panics");
    let Some(r) = r.done() else { return false };
    let enough = at_least(&work, c.k);
    check(r.is_some() == enough, "a derivative block is emitted exactly if the work meets the difficulty");
    let height = small(c.list.len() as u64);
    if let Some(b) = &r {
        cover("emitted");
        let k = retarget(c.k, c.prev.get_info().timestamp, ts);
        let mut x = vec![3u8];
        x.extend_from_slice(&header(&hash, &pow, &threshold(k), who, ts, &height));
        check(eq(&dump(b), &x), "the derivative block carries what was given, linked, with retargeted difficulty");
        check(matches!(b.validate(Some(c.prev.clone())), Ok(true)) | c.list.is_empty(), "the emitted block is valid");
        c.list.push(x);
        c.prev = b.clone();
        c.k = k;
    } else {
        cover("refused");
    }
    let d = t.get_derivative_chain(who).unwrap();
    agrees(&d, small(0), &c.list);
    r.is_some()
}
fn founded(t: &BlockChainTree) -> Derivative {
    let prev = t.get_main_chain().get_last_block().unwrap().unwrap();
    Derivative { list: vec![], prev, k: 1 }
}
/// `n` emissions for one founder; main chain and balances stay as they are.
fn one_founder(n: usize) {
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(1);
    fund(&t, &who[1], false, &[1]);
    let mut list = with_genesis(&t.get_main_chain());
    let prev = last_block(&t, choice(2, "last_kind"), 1, symrt::bytes("last_difficulty"));
    list.push(dump(&prev));
    let before = Ledger::of(&t, &who);
    let mut c = founded(&t);
    for _ in 0..n {
        derive(&mut t, &founder(0), &mut c);
    }
    agrees(&t.get_main_chain(), small(0), &list);
    check(before.same(&Ledger::of(&t, &who)), "derivative blocks change no balance");
}
pub fn h_p23_first() {
    one_founder(1);
}
pub fn h_p23_two() {
    one_founder(2);
}
pub fn t_p23_three() {
    one_founder(4);
}
/// over a last derivative block of any reachable difficulty
fn over_derivative(bits: &[u32]) {
    let k = bits[choice(bits.len() as u64, "bits") as usize];
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let who = founder(0);
    let d = t.get_derivative_chain(&who).unwrap();
    let b = DerivativeBlock {
        default_info: BasicInfo::new(symrt::u64("last_ts"), [1; 32], symrt::bytes("last_previous"), small(0), threshold(k), symrt::bytes("last_founder")),
    };
    check(d.add_block(&b).is_ok(), "a block for the next height is accepted");
    let mut c = Derivative { list: vec![b.dump().unwrap()], prev: Arc::new(b), k };
    derive(&mut t, &who, &mut c);
}
pub fn h_p23_bits() {
    let bits: Vec<u32> = [1, 2, 7].into_iter().chain((1..=32).map(|i| i * 8)).collect();
    over_derivative(&bits);
}
pub fn t_p23_bits() {
    let bits: Vec<u32> = (1..=256).collect();
    over_derivative(&bits);
}
/// over a longer chain of its own, the main chain having moved on
pub fn h_p23_later() {
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let who = founder(0);
    let d = t.get_derivative_chain(&who).unwrap();
    let m = t.get_main_chain();
    let mut list = with_genesis(&m);
    let mut dl = Vec::new();
    for i in 0..17 {
        let (ok, x) = m.add(9 + i, small(1 + i));
        check(ok, "a block for the next height is accepted");
        list.push(x);
        let (ok, x) = d.add(9 + i, small(i));
        check(ok, "a block for the next height is accepted");
        dl.push(x);
    }
    let b = DerivativeBlock {
        default_info: BasicInfo::new(symrt::u64("last_ts"), [1; 32], symrt::bytes("last_previous"), small(17), threshold(3), symrt::bytes("last_founder")),
    };
    check(d.add_block(&b).is_ok(), "a block for the next height is accepted");
    dl.push(b.dump().unwrap());
    let mut c = Derivative { list: dl, prev: Arc::new(b), k: 3 };
    derive(&mut t, &who, &mut c);
    agrees(&m, small(0), &list);
}
/// Two founders, which differ in any one byte, each with a chain of its own.
pub fn h_p23_founders() {
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let (a, b) = (founder(0), founder(1 + choice(33, "differs") as usize));
    let mut x = founded(&t);
    let mut y = founded(&t);
    derive(&mut t, &a, &mut x);
    derive(&mut t, &b, &mut y);
    let d = t.get_derivative_chain(&a).unwrap();
    agrees(&d, small(0), &x.list);
}
/// A chain is founded once: the main chain moving on, and reopening the tree,
/// do not change its founding block.
pub fn h_p23_founding() {
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let who = founder(0);
    let mut c = founded(&t);
    let d = t.get_derivative_chain(&who).unwrap();
    check(eq(d.genesis_hash.as_ref(), &symrt::sha256(&dump(&c.prev))), "a chain is founded on the last main-chain block");
    drop(d);
    if choice(2, "emit") == 1 {
        derive(&mut t, &who, &mut c);
    }
    last_block(&t, 0, 1, symrt::bytes("last_difficulty"));
    if choice(2, "reopen") == 1 {
        check(block_on(t.flush()).is_ok(), "flushing succeeds");
        drop(t);
        t = BlockChainTree::new(ROOT).unwrap();
    }
    derive(&mut t, &who, &mut c);
}

// ------------------------------------------------------------------- P35
/// the inception block as documented: first coins, committed to by its root
fn inception() -> Vec<u8> {
    let mut d = ROOT_ADDRESS.to_vec();
    d.extend_from_slice(b"|50010000000000000000000000|0");
    let mut x = vec![4u8];
    x.extend_from_slice(&merkle(&[symrt::sha256(&d)]));
    x.extend_from_slice(&header(&[0; 32], &[0; 32], &BEGINNING, &ROOT_ADDRESS, 1_597_924_800, &small(0)));
    x
}
/// A new tree, whatever is asked about it.
fn new_tree(t: &mut BlockChainTree) {
    let x = inception();
    let m = t.get_main_chain();
    let list = vec![x.clone()];
    agrees(&m, small(0), &list);
    nothing_else(&m, small(0), &list);
    let a: [u8; 33] = symrt::bytes("anybody");
    let root = eq(&a, &ROOT_ADDRESS);
    cover(if root { "root" } else { "others" });
    let (c, g) = (t.get_amount(&a).unwrap(), t.get_gas(&a).unwrap());
    check(eqn(&c, &if root { coins_per_cycle() } else { small(0) }), "the root account has the coins of one cycle, nobody else has any");
    check(g.is_zero(), "nobody has gas");
    let tx: [u8; 32] = symrt::bytes("transaction");
    check(!m.transaction_exists(&tx).unwrap() && m.get_transaction(&tx).unwrap().is_none(), "there are no transactions");
    let d = t.get_derivative_chain(&founder(choice(3, "founder") as usize)).unwrap();
    agrees(&d, small(0), &[]);
    check(eq(&*d.genesis_hash, &symrt::sha256(&x)), "a derivative chain is founded on the inception block");
}
pub fn h_p35_new() {
    let mut t = BlockChainTree::new(ROOT).unwrap();
    new_tree(&mut t);
}
/// Again, and after death at any point of the first time.
pub fn h_p35_again() {
    tokio::model::set_late_writes(true);
    match choice(3, "before") {
        0 => drop(BlockChainTree::new(ROOT).unwrap()),
        1 => {
            let t = BlockChainTree::new(ROOT).unwrap();
            check(block_on(t.flush()).is_ok(), "flushing succeeds");
            sled::model::crash();
            std::mem::forget(t);
        }
        _ => {
            symrt::crash_points(true);
            let r = attempt(|| std::mem::forget(BlockChainTree::new(ROOT).unwrap()));
            symrt::crash_points(false);
            check(!r.panicked(), "nothing panics");
            sled::model::crash();
        }
    }
    let mut t = match attempt(|| BlockChainTree::new(ROOT)).done() {
        Some(Ok(t)) => t,
        _ => return check(false, "the folder opens again"),
    };
    new_tree(&mut t);
}
/// Two trees in two folders have nothing to do with one another.
pub fn h_p35_two() {
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let u = BlockChainTree::new("/v/u").unwrap();
    let who = accounts(1);
    fund(&u, &who[1], true, &[1]);
    fund(&u, &who[0], false, &[1]);
    let l = Ledger::of(&u, &who);
    let m = u.get_main_chain();
    let mut list = with_genesis(&m);
    check(eq(&list[0], &inception()), "every tree begins with the inception block");
    let (_, d) = m.add(1, small(1));
    list.push(d);
    check(block_on(u.flush()).is_ok(), "flushing succeeds");
    new_tree(&mut t);
    check(l.same(&Ledger::of(&u, &who)), "the other tree keeps its balances");
    agrees(&m, small(0), &list);
}

// ------------------------------------------------------------------- P36
/// Any config file: an error, or a chain that answers.
fn damaged(derivative: bool) {
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let who = founder(0);
    let mut list = vec![inception()];
    let m = t.get_main_chain();
    let (_, x) = m.add(9, small(1));
    list.push(x.clone());
    let c = t.get_derivative_chain(&who).unwrap();
    let (_, y) = c.add(9, small(0));
    check(block_on(t.flush()).is_ok(), "flushing succeeds");
    drop((t, m, c));
    let folder = if derivative { std::format!("/v/t/DERIVATIVES/{}/Chain.config", hex(&who)) } else { "/v/t/MAIN/Chain.config".to_string() };
    let full = if derivative { 96 } else { 64 };
    let n = [0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 97][choice(11, "length") as usize];
    let config = symrt::vec(n, "config");
    assume(n == 0 || config[0] != 255);
    check(std::fs::metadata(&folder).is_ok(), "a flushed chain has a config");
    std::fs::write(&folder, &config).unwrap();
    let r = attempt(|| BlockChainTree::new(ROOT).ok());
    check(!r.panicked(), "opening never panics");
    let Some(r) = r.done() else { return };
    check(derivative || r.is_some() == (n >= full), "a config that is too short is an error, any other is read");
    let Some(mut t) = r else {
        cover("refused");
        return;
    };
    let r = attempt(|| t.get_derivative_chain(&who).ok());
    check(!r.panicked(), "a chain without its last block never panics");
    let Some(r) = r.done() else { return };
    if derivative {
        check(r.is_some() == (n >= full), "a config that is too short is an error, any other is read");
        let Some(c) = r else {
            cover("refused");
            return;
        };
        cover("opened");
        check(eq(&be(&c.get_height()), &config[..32]), "the height is the one of the config");
        check(eq(&*c.genesis_hash, &config[64..96]), "the founding block is the one of the config");
        check(answers(&c, small(0), &[y]), "a lookup answers with a block that was added, or with nothing");
        let e = emission(0);
        let r = attempt(|| block_on(t.emmit_new_derivative_block(&e.pow, &who, e.ts)).is_ok());
        check(!r.panicked(), "a chain without its last block never panics");
        return;
    }
    cover("opened");
    let m = t.get_main_chain();
    let mut none = 0;
    for b in &config[..32] {
        none |= *b;
    }
    check(none == 0 || eq(&be(&m.get_height()), &config[..32]), "the height is the one of the config");
    check(answers(&m, small(0), &list), "a lookup answers with a block that was added, or with nothing");
    let e = emission(1);
    let r = attempt(|| block_on(t.emmit_new_main_block(&e.pow, &e.founder, &e.txs, e.ts)).is_ok());
    check(!r.panicked(), "a chain without its last block never panics");
    let tx = blockchaintree::transaction::Transaction::new_signed(ROOT_ADDRESS, who, 5, small(1), None, [1; 64]);
    let r = attempt(|| t.send_transaction(&tx).is_ok());
    check(!r.panicked(), "a chain without its last block never panics");
}
fn be(n: &U256) -> [u8; 32] {
    let mut o = [0; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&n.0[3 - i].to_be_bytes());
    }
    o
}
fn hex(a: &[u8]) -> String {
    a.iter().map(|b| std::format!("{b:02x}")).collect()
}
/// every lookup for what was added, and the last block
fn answers(c: &dyn Chain, base: U256, list: &[Vec<u8>]) -> bool {
    let mut ok = true;
    for (i, d) in list.iter().enumerate() {
        let h = add(&base, &small(i as u64)).0;
        for r in [c.raw_height(&h), c.by_height(&h), c.raw_hash(&symrt::sha256(d)), c.by_hash(&symrt::sha256(d))] {
            ok &= r.is_none() || same(&r, Some(d));
        }
    }
    for r in [c.raw_last(), c.last()] {
        ok &= r.is_none() || list.iter().any(|d| same(&r, Some(d)));
    }
    ok
}
pub fn h_p36_main() {
    damaged(false);
}
pub fn h_p36_derivative() {
    damaged(true);
}
