//! P14 P15 P16 P17 P26 P28: coins, gas, sending, the funds database, faults
use crate::store::*;
use crate::util::*;
use blockchaintree::block::{BasicInfo, SummarizeBlock};
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::summary_db::SummaryDB;
use blockchaintree::transaction::{Transaction, Transactionable};
use primitive_types::U256;
use std::sync::Arc;
use symrt::{assume, attempt, check, choice, cover};

pub const ROOT_ADDRESS: [u8; 33] = blockchaintree::static_values::ROOT_PUBLIC_ADDRESS;

/// The root account and `n` further, different ones.
pub fn accounts(n: usize) -> Vec<[u8; 33]> {
    let mut who = vec![ROOT_ADDRESS];
    for _ in 0..n {
        let a: [u8; 33] = symrt::bytes("account");
        for b in &who {
            assume(!eq(&a, b));
        }
        who.push(a);
    }
    who
}
/// The specification: what every account holds.
#[derive(Clone)]
pub struct Ledger {
    pub coins: Vec<U256>,
    pub gas: Vec<U256>,
}
#[derive(Clone, Copy)]
enum Op {
    Add(usize),
    Set(usize),
    Sub(usize),
    Send(usize, usize),
}
impl Ledger {
    pub fn of(t: &BlockChainTree, who: &[[u8; 33]]) -> Ledger {
        Ledger {
            coins: who.iter().map(|a| t.get_amount(a).unwrap()).collect(),
            gas: who.iter().map(|a| t.get_gas(a).unwrap()).collect(),
        }
    }
    pub fn same(&self, o: &Ledger) -> bool {
        let mut r = true;
        for i in 0..self.coins.len() {
            r &= eqn(&self.coins[i], &o.coins[i]) & eqn(&self.gas[i], &o.gas[i]);
        }
        r
    }
    /// false: refused, nothing changes
    fn apply(&mut self, gas: bool, op: Op, n: &U256) -> bool {
        let l = if gas { &mut self.gas } else { &mut self.coins };
        match op {
            Op::Add(i) => {
                let (r, over) = add(&l[i], n);
                if over {
                    return false;
                }
                l[i] = r;
            }
            Op::Set(i) => l[i] = *n,
            Op::Sub(i) => {
                if !le(n, &l[i]) {
                    return false;
                }
                l[i] = sub(&l[i], n);
            }
            Op::Send(i, j) if i == j => {}
            Op::Send(i, j) => {
                if !le(n, &l[i]) {
                    return false;
                }
                let (r, over) = add(&l[j], n);
                if over {
                    return false;
                }
                l[i] = sub(&l[i], n);
                l[j] = r;
            }
        }
        true
    }
}
fn run(t: &BlockChainTree, who: &[[u8; 33]], gas: bool, op: Op, n: &U256) -> bool {
    match (gas, op) {
        (false, Op::Add(i)) => t.add_amount(&who[i], *n).is_ok(),
        (false, Op::Set(i)) => t.set_amount(&who[i], *n).is_ok(),
        (false, Op::Sub(i)) => t.sub_amount(&who[i], *n).is_ok(),
        (false, Op::Send(i, j)) => t.send_amount(&who[i], &who[j], *n).is_ok(),
        (true, Op::Add(i)) => t.add_gas(&who[i], *n).is_ok(),
        (true, Op::Sub(i)) => t.sub_gas(&who[i], *n).is_ok(),
        (true, Op::Send(i, j)) => t.send_gas(&who[i], &who[j], *n).is_ok(),
        (true, Op::Set(_)) => unreachable!(),
    }
}
/// One of the operations over accounts `from..`
fn any_op(gas: bool, accounts: &[usize]) -> Op {
    let mut kinds = vec![0, 1, 2];
    if !gas {
        kinds.push(3);
    }
    let k = kinds[choice(kinds.len() as u64, "op") as usize];
    let i = accounts[choice(accounts.len() as u64, "account") as usize];
    match k {
        0 => Op::Add(i),
        1 => Op::Sub(i),
        2 => Op::Send(i, accounts[choice(accounts.len() as u64, "to") as usize]),
        _ => Op::Set(i),
    }
}
/// Gives an account a balance: none was ever set, or one of the sizes.
pub fn fund(t: &BlockChainTree, who: &[u8; 33], gas: bool, sizes: &[usize]) {
    let k = choice(sizes.len() as u64 + 1, "balance") as usize;
    if k == sizes.len() {
        return;
    }
    let n = u256_of_size(sizes[k], "balance").0;
    let ok = if gas { t.add_gas(who, n).is_ok() } else { t.set_amount(who, n).is_ok() };
    check(ok, "a balance can be set");
}
fn apply_checked(t: &BlockChainTree, who: &[[u8; 33]], gas: bool, op: Op, n: &U256) {
    let mut l = Ledger::of(t, who);
    let r = attempt(|| run(t, who, gas, op, n));
    check(!r.panicked(), "a balance operation never panics");
    let expected = l.apply(gas, op, n);
    let Some(r) = r.done() else { return };
    cover(if r { "done" } else { "refused" });
    check(r == expected, "an operation fails exactly if funds lack or the result exceeds 256 bits");
    check(l.same(&Ledger::of(t, who)), "exactly the named accounts change by exactly the amount");
}
fn step(gas: bool, sizes: &[usize], amounts: &[usize]) {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(2);
    // the other currency must stay as it is
    fund(&t, &who[1], !gas, &[2]);
    let op = any_op(gas, &[0, 1, 2]);
    let involved: &[usize] = match op {
        Op::Add(i) | Op::Set(i) | Op::Sub(i) => &[i],
        Op::Send(i, j) if i == j => &[i],
        Op::Send(i, j) => &[i, j],
    };
    for (i, a) in who.iter().enumerate() {
        fund(&t, a, gas, if involved.contains(&i) { sizes } else { &[] });
    }
    apply_checked(&t, &who, gas, op, &u256_among(amounts, "amount").0);
}
/// A number of 256 bits, the first and last 64 of them arbitrary, the middle
/// ones such that carries and borrows run through.
fn wide_number(name: &str, middle: u64) -> U256 {
    let n = U256([symrt::u64(name), middle, middle, symrt::u64(name)]);
    assume(n.0[3] >> 56 != 0);
    n
}
/// A balance and an amount of 256 bits: far apart, the balance larger by less
/// than 2^8, or smaller (so that the encoded size of the difference forks
/// little).
fn wide_pair() -> (U256, U256) {
    let top = |n: &U256| n.0[3] >> 56;
    let n = wide_number("amount", u64::MAX);
    match choice(3, "difference") {
        0 => {
            let b = wide_number("balance", 0);
            assume(top(&b) >= 0xc0);
            assume(top(&n) < 0x80);
            (b, n)
        }
        1 => {
            let (b, over) = add(&n, &small(symrt::u8("difference") as u64));
            assume(!over);
            (b, n)
        }
        _ => {
            let b = wide_number("balance", u64::MAX);
            assume(top(&b) < top(&n));
            (b, n)
        }
    }
}
fn wide(gas: bool) {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(2);
    let op = [Op::Add(1), Op::Sub(1), Op::Send(1, 2)][choice(3, "op") as usize];
    let (b, n) = match op {
        Op::Add(_) => (wide_number("balance", 0), wide_number("amount", u64::MAX)),
        _ => wide_pair(),
    };
    let give = |a: &[u8; 33], n: U256| if gas { t.add_gas(a, n).is_ok() } else { t.add_amount(a, n).is_ok() };
    check(give(&who[1], b), "a balance can be set");
    if let Op::Send(..) = op {
        check(give(&who[2], wide_number("other", u64::MAX)), "a balance can be set");
    }
    apply_checked(&t, &who, gas, op, &n);
}
fn wide_all(gas: bool, sizes: &[usize]) {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(2);
    let op = [Op::Add(1), Op::Sub(1), Op::Send(1, 2)][choice(3, "op") as usize];
    fund(&t, &who[1], gas, sizes);
    if let Op::Send(..) = op {
        fund(&t, &who[2], gas, sizes);
    }
    apply_checked(&t, &who, gas, op, &u256_among(sizes, "amount").0);
}
pub fn h_p14_step() {
    step(false, &[0, 1], &[0, 1, 2]);
}
pub fn h_p14_sizes() {
    // every size of the balance and of the result, against small amounts
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(1);
    fund(&t, &who[1], false, &ALL_SIZES);
    let op = [Op::Add(1), Op::Sub(1), Op::Send(1, 0)][choice(3, "op") as usize];
    apply_checked(&t, &who, false, op, &u256_of_size(1, "amount").0);
}
/// balances and amounts up to the full width
pub fn h_p14_wide() {
    wide(false);
}
pub fn t_p14_wide() {
    wide_all(false, &[9, 31, 32]);
}
pub fn t_p14_step() {
    step(false, &[0, 1, 2, 9], &[0, 1, 2, 9]);
}
fn sequence(gas: bool, steps: usize, accounts_used: &[usize]) {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(2);
    for _ in 0..steps {
        apply_checked(&t, &who, gas, any_op(gas, accounts_used), &u256_of_size(1, "amount").0);
    }
}
pub fn h_p14_sequence() {
    sequence(false, 2, &[1, 2]);
}
pub fn t_p14_sequence() {
    sequence(false, 4, &[1, 2]);
}
/// Many accounts: arbitrary ones that differ somewhere, all kept apart.
fn tagged(n: usize) -> Vec<[u8; 33]> {
    (0..n)
        .map(|i| {
            let mut a: [u8; 33] = symrt::bytes("account");
            // told apart by their first, by their last or by a middle byte
            a[0] = 2;
            a[16] = 0;
            a[32] = 0;
            a[[32, 16, 0][i % 3]] = 5 + i as u8;
            a
        })
        .collect()
}
fn crowd(gas: bool) {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = tagged(20);
    let mut l = Ledger::of(&t, &who);
    for k in 0..who.len() {
        let n = small(0x4000 | symrt::u8("coins") as u64);
        check(run(&t, &who, gas, Op::Add(k), &n), "a balance can be set");
        check(l.apply(gas, Op::Add(k), &n), "a balance can be set");
    }
    check(l.same(&Ledger::of(&t, &who)), "exactly the named accounts change by exactly the amount");
    let n = u256_of_size(1, "amount").0;
    for k in [0, 1, 2, 7, 8, 15, 16] {
        let op = if k % 2 == 0 { Op::Send(k, k + 3) } else { Op::Sub(k) };
        let r = attempt(|| run(&t, &who, gas, op, &n));
        check(r.done() == Some(l.apply(gas, op, &n)), "an operation fails exactly if funds lack or the result exceeds 256 bits");
    }
    check(l.same(&Ledger::of(&t, &who)), "exactly the named accounts change by exactly the amount");
}
pub fn h_p14_crowd() {
    crowd(false);
}
pub fn h_p15_crowd() {
    crowd(true);
}
/// amounts of every size between two accounts that have plenty
fn amounts(gas: bool) {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(2);
    let plenty = U256([symrt::u64("balance"), 0, 0, 1 << 63]);
    check(run(&t, &who, gas, Op::Add(1), &plenty), "a balance can be set");
    check(run(&t, &who, gas, Op::Add(2), &U256([0, 0, 0, 1 << 62])), "a balance can be set");
    let op = [Op::Add(1), Op::Sub(1), Op::Send(1, 2)][choice(3, "op") as usize];
    let k = choice(32, "size") as usize;
    // one arbitrary byte at the top, and ones below
    let mut n = U256::zero();
    for i in 0..k {
        n.0[i / 8] |= 0xff << (8 * (i % 8));
    }
    n.0[k / 8] |= (symrt::u8("top") as u64) << (8 * (k % 8));
    assume(n.0[3] >> 62 == 0);
    apply_checked(&t, &who, gas, op, &n);
}
pub fn h_p14_amounts() {
    amounts(false);
}
pub fn h_p15_amounts() {
    amounts(true);
}
pub fn h_p15_step() {
    step(true, &[0, 1], &[0, 1, 2]);
}
pub fn h_p15_sizes() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(1);
    fund(&t, &who[1], true, &ALL_SIZES);
    let op = [Op::Add(1), Op::Sub(1), Op::Send(1, 0)][choice(3, "op") as usize];
    apply_checked(&t, &who, true, op, &u256_of_size(1, "amount").0);
}
/// balances and amounts up to the full width
pub fn h_p15_wide() {
    wide(true);
}
pub fn t_p15_wide() {
    wide_all(true, &[9, 31, 32]);
}
pub fn t_p15_step() {
    step(true, &[0, 1, 2, 9], &[0, 1, 2, 9]);
}
pub fn h_p15_sequence() {
    sequence(true, 2, &[1, 2]);
}
pub fn t_p15_sequence() {
    sequence(true, 4, &[1, 2]);
}
/// coin and gas operations on one account
pub fn h_p15_mixed() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(1);
    for _ in 0..2 {
        let gas = choice(2, "gas") == 1;
        apply_checked(&t, &who, gas, any_op(gas, &[0, 1]), &u256_of_size(1, "amount").0);
    }
}

// ------------------------------------------------------------------- P16
static mut TREE: Option<BlockChainTree> = None;
static mut WHO: Vec<[u8; 33]> = Vec::new();
static mut SECOND: Option<(bool, Op, U256)> = None;
static mut SECOND_OK: bool = false;
#[allow(static_mut_refs)]
fn second() {
    unsafe {
        let (gas, op, n) = SECOND.unwrap();
        SECOND_OK = run(TREE.as_ref().unwrap(), &WHO, gas, op, &n);
    }
}
#[allow(static_mut_refs)]
fn concurrent(gas: [bool; 2], used: &[usize], sizes: &[usize]) {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(2);
    for &i in used {
        for g in [false, true] {
            if gas.contains(&g) {
                let n = u256_among(sizes, "balance").0;
                if g {
                    t.add_gas(&who[i], n).unwrap();
                } else {
                    t.set_amount(&who[i], n).unwrap();
                }
            }
        }
    }
    let ops = [any_op(gas[0], used), any_op(gas[1], used)];
    let ns = [u256_of_size(1, "amount").0, u256_of_size(1, "amount").0];
    let before = Ledger::of(&t, &who);
    unsafe {
        TREE = Some(t);
        WHO = who.clone();
        SECOND = Some((gas[1], ops[1], ns[1]));
    }
    let t = unsafe { TREE.as_ref().unwrap() };
    sled::model::conflicts(true);
    symrt::arm(second);
    let first = run(t, &who, gas[0], ops[0], &ns[0]);
    if symrt::disarm() {
        cover("interleaved");
    } else {
        second();
    }
    sled::model::conflicts(false);
    let other = unsafe { SECOND_OK };
    let after = Ledger::of(t, &who);
    // the two serial orders
    let (mut a, mut b) = (before.clone(), before);
    let a1 = a.apply(gas[0], ops[0], &ns[0]);
    let a2 = a.apply(gas[1], ops[1], &ns[1]);
    let b2 = b.apply(gas[1], ops[1], &ns[1]);
    let b1 = b.apply(gas[0], ops[0], &ns[0]);
    let x = after.same(&a) & (first == a1) & (other == a2);
    let y = after.same(&b) & (first == b1) & (other == b2);
    check(x | y, "concurrent operations leave the balances of one of their serial orders");
}
pub fn h_p16_coins() {
    concurrent([false, false], &[1, 2], &[1]);
}
pub fn h_p16_gas() {
    concurrent([true, true], &[1, 2], &[1]);
}
pub fn h_p16_mixed() {
    let g = choice(2, "gas") == 1;
    concurrent([g, !g], &[1], &[1]);
}
pub fn t_p16_coins() {
    concurrent([false, false], &[0, 1, 2], &[0, 2]);
}
pub fn t_p16_gas() {
    concurrent([true, true], &[0, 1, 2], &[0, 2]);
}

// ------------------------------------------------------------------- P17
const GAS_PER_BYTE: u64 = 625_000_000_000;
const FEE_PER_BIT: u64 = 62_500;
/// A tree whose last block has a difficulty with that many leading zero bits.
fn with_difficulty(t: &BlockChainTree, zero_bytes: usize) -> U256 {
    let mut d: [u8; 32] = symrt::bytes("difficulty");
    d[..zero_bytes].fill(0);
    if zero_bytes < 32 {
        assume(d[zero_bytes] != 0);
    }
    let i = BasicInfo::new(symrt::u64("ts"), [1; 32], [2; 32], small(1), d, [3; 33]);
    let b = Arc::new(SummarizeBlock { default_info: i, merkle_tree_root: [4; 32] });
    check(t.get_main_chain().add_block(b).is_ok(), "a block for the next height is accepted");
    small(lz(&d) as u64 * FEE_PER_BIT)
}
fn encoded_len(n: usize, payload: usize) -> u64 {
    // type, sender, receiver, time, signature, amount, payload
    (1 + 33 + 33 + 8 + 64 + n + payload) as u64
}
fn send(t: &BlockChainTree, who: &[[u8; 33]], from: usize, to: usize, payload: usize, amounts: &[usize], fee: &U256) {
    let (n, enc) = u256_among(amounts, "amount");
    send_amount(t, who, from, to, payload, (n, enc.len()), fee);
}
fn send_amount(t: &BlockChainTree, who: &[[u8; 33]], from: usize, to: usize, payload: usize, (n, len): (U256, usize), fee: &U256) {
    let data = if payload == 0 { None } else { Some(symrt::vec(payload, "data")) };
    let tx = Transaction::new_signed(who[from], who[to], symrt::u64("ts"), n, data, symrt::bytes("signature"));
    let price = small(GAS_PER_BYTE * encoded_len(len, payload));
    check(tx.get_dump_size() as u64 == encoded_len(len, payload), "the encoded length is known");
    let mut l = Ledger::of(t, who);
    // coins in total never exceed 256 bits
    assume(!add(&l.coins[from], &l.coins[to]).1 | (from == to));
    let m = t.get_main_chain();
    check(!m.transaction_exists(&tx.hash()).unwrap(), "a transaction that was not sent is not stored");
    let r = attempt(|| t.send_transaction(&tx).is_ok());
    check(!r.panicked(), "sending never panics");
    let Some(r) = r.done() else { return };
    let (coins, over) = add(fee, &n);
    let enough = le(&price, &l.gas[from]) & !over & le(&coins, &l.coins[from]);
    cover(if r { "accepted" } else { "refused" });
    check(r == enough, "a transaction is accepted exactly if gas and coins suffice");
    if r {
        l.apply(false, Op::Send(from, to), &n);
        l.gas[from] = sub(&l.gas[from], &price);
        check(l.same(&Ledger::of(t, who)), "exactly amount and gas are moved");
        check(same(&m.get_transaction_raw(&tx.hash()).unwrap(), Some(&tx.dump().unwrap())), "an accepted transaction can be fetched");
    } else {
        check(l.same(&Ledger::of(t, who)), "a refused transaction changes no balance");
        check(!m.transaction_exists(&tx.hash()).unwrap(), "a refused transaction is not stored");
    }
}
/// Gas up to the limit and beyond, for every length of the encoding.
pub fn h_p17_gas() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(2);
    let fee = small(FEE_PER_BIT);
    t.set_amount(&who[1], U256([0, 0, 0, 1])).unwrap();
    fund(&t, &who[1], true, &[0, 5, 6, 7, 8, 32]);
    fund(&t, &who[2], true, &[1]);
    send(&t, &who, 1, 2, [0, 1, 7, 40][choice(4, "payload") as usize], &[0, 1, 9], &fee);
}
/// Coins up to the limit and beyond.
fn coins(zeros: usize, from: &[usize], to: &[usize], amounts: &[usize]) {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(2);
    let fee = with_difficulty(&t, zeros);
    fund(&t, &who[1], false, from);
    fund(&t, &who[2], false, to);
    t.add_gas(&who[1], U256([0, 1, 0, 0])).unwrap();
    send(&t, &who, 1, 2, 0, amounts, &fee);
}
pub fn h_p17_coins() {
    coins([0, 32][choice(2, "zeros") as usize], &[3], &[0, 3], &[0, 3]);
}
pub fn h_p17_fee() {
    coins([1, 2, 8, 31][choice(4, "zeros") as usize], &[2, 3, 4], &[], &[0]);
}
/// every number of leading zero bytes of the difficulty, under every kind of
/// last block
pub fn h_p17_zeros() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(2);
    let fee = match choice(2, "kind") {
        0 => with_difficulty(&t, choice(33, "zeros") as usize),
        _ => {
            // its own fee is something else
            let k = choice(257, "bits") as u32;
            let i = BasicInfo::new(symrt::u64("ts"), [1; 32], [2; 32], small(1), threshold(k), [3; 33]);
            let own = u256_of_size(3, "fee").0;
            let b = Arc::new(blockchaintree::block::TransactionBlock::new(own, i, [4; 32], vec![[5; 32]]));
            check(t.get_main_chain().add_block(b).is_ok(), "a block for the next height is accepted");
            small(FEE_PER_BIT * k as u64)
        }
    };
    t.set_amount(&who[1], u256_of_size(3, "coins").0).unwrap();
    t.add_gas(&who[1], U256([0, 1, 0, 0])).unwrap();
    send(&t, &who, 1, 2, 0, &[0], &fee);
}
/// longer payloads
pub fn h_p17_long() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(2);
    let fee = small(FEE_PER_BIT);
    t.set_amount(&who[1], U256([0, 0, 0, 1])).unwrap();
    fund(&t, &who[1], true, &[7, 8]);
    send(&t, &who, 1, 2, [64, 100, 112, 113, 200, 255, 256, 257, 300, 1000, 4096][choice(11, "payload") as usize], &[3], &fee);
}
/// Very long ones, of fixed content, and gas around their price.
pub fn h_p17_huge() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(1);
    let payload = [32_627, 32_628, 65_395, 65_396, 65_397, 65_536, 131_072, 200_000][choice(8, "payload") as usize];
    let price = small(GAS_PER_BYTE * encoded_len(2, payload));
    let gas = small(price.low_u64() - 128 + symrt::u8("gas") as u64);
    t.set_amount(&who[1], small(1_000_000)).unwrap();
    t.add_gas(&who[1], gas).unwrap();
    let tx = Transaction::new_signed(who[1], who[0], 7, small(9), Some(vec![7; payload]), [9; 64]);
    check(tx.get_dump_size() as u64 == encoded_len(2, payload), "the encoded length is known");
    let r = attempt(|| t.send_transaction(&tx).is_ok());
    check(!r.panicked(), "sending never panics");
    let Some(r) = r.done() else { return };
    cover(if r { "accepted" } else { "refused" });
    check(r == le(&price, &gas), "a transaction is accepted exactly if gas and coins suffice");
    let left = if r { sub(&gas, &price) } else { gas };
    check(eqn(&t.get_gas(&who[1]).unwrap(), &left), "exactly the price is taken");
}
/// full width: nothing overflows
pub fn h_p17_wide() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(2);
    let fee = small(FEE_PER_BIT);
    let (b, n) = wide_pair();
    // the limit is where the balance is the amount and the fee
    let (b, over) = if choice(2, "fee") == 1 { add(&b, &fee) } else { (b, false) };
    assume(!over);
    t.set_amount(&who[1], b).unwrap();
    t.add_gas(&who[1], U256([0, 1, 0, 0])).unwrap();
    send_amount(&t, &who, 1, 2, 0, (n, 33), &fee);
}
/// Who sends to whom: also oneself and the root account.
pub fn h_p17_parties() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(2);
    let fee = small(FEE_PER_BIT);
    let from = choice(2, "from") as usize;
    let to = choice(3, "to") as usize;
    fund(&t, &who[from], false, &[3, 4]);
    fund(&t, &who[from], true, &[6, 7]);
    if to != from {
        fund(&t, &who[to], false, &[2]);
        fund(&t, &who[to], true, &[6]);
    }
    send(&t, &who, from, to, 3, &[0, 3], &fee);
}
/// Two transactions in a row, the second from what the first left.
pub fn h_p17_twice() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(2);
    let fee = small(FEE_PER_BIT);
    t.set_amount(&who[1], u256_of_size(3, "coins").0).unwrap();
    t.add_gas(&who[1], u256_of_size(7, "gas").0).unwrap();
    t.add_gas(&who[2], u256_of_size(7, "gas").0).unwrap();
    send(&t, &who, 1, 2, 0, &[3], &fee);
    let from = 1 + choice(2, "from") as usize;
    send(&t, &who, from, 3 - from, 1, &[3], &fee);
}
pub fn t_p17_all() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(2);
    let fee = with_difficulty(&t, choice(33, "zeros") as usize);
    let to = choice(3, "to") as usize;
    fund(&t, &who[1], false, &[0, 1, 2, 3, 4, 8, 32]);
    fund(&t, &who[1], true, &[0, 6, 7, 32]);
    if to != 1 {
        fund(&t, &who[to], false, &[0, 3, 32]);
    }
    send(&t, &who, 1, to, [0, 1, 100][choice(3, "payload") as usize], &[0, 1, 3, 8, 32], &fee);
}

// ------------------------------------------------------------------- P26
fn funds(db: &SummaryDB, a: &[u8; 33]) -> Vec<u8> {
    let r = attempt(|| db.get_funds(a));
    check(!r.panicked(), "asking for funds never panics");
    match r.done() {
        Some(Ok(v)) => {
            let b = v.to_bytes_be();
            let mut o = vec![0u8; 32 - b.len()];
            o.extend_from_slice(&b);
            o
        }
        _ => {
            check(false, "funds are known for every address");
            vec![0; 32]
        }
    }
}
fn be(n: &U256) -> Vec<u8> {
    let mut b = [0u8; 32];
    for i in 0..4 {
        b[8 * (3 - i)..8 * (3 - i) + 8].copy_from_slice(&n.0[i].to_be_bytes());
    }
    b.to_vec()
}
fn fund_step(db: &SummaryDB, a: &[u8; 33], known: &mut bool, held: &mut U256, sizes: &[usize]) {
    let n = u256_among(sizes, "amount").0;
    let remove = choice(2, "remove") == 1;
    let r = attempt(|| {
        if remove {
            block_on(db.decrease_funds(a, &n)).is_ok()
        } else {
            block_on(db.add_funds(a, &n)).is_ok()
        }
    });
    check(!r.panicked(), "changing funds never panics");
    let Some(r) = r.done() else { return };
    cover(if r { "done" } else { "refused" });
    let expected = if remove {
        let ok = *known & le(&n, held);
        if ok {
            *held = sub(held, &n);
        }
        ok
    } else {
        let (s, over) = add(held, &n);
        if !over {
            *held = s;
            if !n.is_zero() {
                *known = true;
            }
        }
        !over
    };
    check(r == expected, "funds change exactly if they suffice and fit");
}
fn fund_sequence(steps: usize, sizes: &[usize]) {
    let db = SummaryDB::new(sled::open("/v/f").unwrap());
    let who = patterned_addresses();
    let mut known = [false; 2];
    let mut held = [U256::zero(); 2];
    for _ in 0..steps {
        let i = choice(2, "account") as usize;
        fund_step(&db, &who[i], &mut known[i], &mut held[i], sizes);
        for k in 0..2 {
            check(eq(&funds(&db, &who[k]), &be(&held[k])), "exactly the addressed account changes by exactly the amount");
        }
    }
}
fn patterned_addresses() -> [[u8; 33]; 2] {
    let a: [u8; 33] = symrt::bytes("address");
    let b: [u8; 33] = symrt::bytes("address");
    assume(!eq(&a, &b));
    [a, b]
}
pub fn h_p26_step() {
    fund_sequence(2, &[0, 1, 32]);
}
pub fn h_p26_sizes() {
    let db = SummaryDB::new(sled::open("/v/f").unwrap());
    let a: [u8; 33] = symrt::bytes("address");
    let n = u256_among(&ALL_SIZES, "balance").0;
    check(block_on(db.add_funds(&a, &n)).is_ok(), "funds can be added");
    let (mut known, mut held) = (!n.is_zero(), n);
    fund_step(&db, &a, &mut known, &mut held, &[1]);
    check(eq(&funds(&db, &a), &be(&held)), "exactly the addressed account changes by exactly the amount");
}
pub fn h_p26_crowd() {
    let db = SummaryDB::new(sled::open("/v/f").unwrap());
    let who = tagged(20);
    let mut held = Vec::new();
    for a in &who {
        let n = small(0x4000 | symrt::u8("balance") as u64);
        check(block_on(db.add_funds(a, &n)).is_ok(), "funds can be added");
        held.push(n);
    }
    let n = u256_of_size(1, "amount").0;
    for k in [0, 1, 2, 7, 8, 15, 16, 19] {
        if k % 2 == 0 {
            check(block_on(db.add_funds(&who[k], &n)).is_ok() != add(&held[k], &n).1, "funds change exactly if they suffice and fit");
            held[k] = add(&held[k], &n).0;
        } else {
            check(block_on(db.decrease_funds(&who[k], &n)).is_ok(), "funds change exactly if they suffice and fit");
            held[k] = sub(&held[k], &n);
        }
    }
    for (a, h) in who.iter().zip(&held) {
        check(eq(&funds(&db, a), &be(h)), "exactly the addressed account changes by exactly the amount");
    }
    // and they are still there
    check(block_on(db.flush()).is_ok(), "flushing succeeds");
    sled::model::crash();
    std::mem::forget(db);
    let db = SummaryDB::new(sled::open("/v/f").unwrap());
    for (a, h) in who.iter().zip(&held) {
        check(eq(&funds(&db, a), &be(h)), "funds survive flushing and a crash");
    }
}
pub fn t_p26_sequence() {
    fund_sequence(3, &[0, 1, 9, 32]);
}
/// An I/O error at any storage step.
pub fn h_p26_fault() {
    let db = SummaryDB::new(sled::open("/v/f").unwrap());
    let who = patterned_addresses();
    let mut held = [U256::zero(); 2];
    if choice(2, "known") == 1 {
        held[0] = u256_among(&[1, 2], "balance").0;
        check(block_on(db.add_funds(&who[0], &held[0])).is_ok(), "funds can be added");
    }
    held[1] = u256_of_size(1, "balance").0;
    check(block_on(db.add_funds(&who[1], &held[1])).is_ok(), "funds can be added");
    let n = u256_of_size(1, "amount").0;
    let remove = choice(2, "remove") == 1;
    sled::model::fault_in(Some(choice(4, "fault")));
    let r = attempt(|| match choice(2, "read") {
        1 => db.get_funds(&who[0]).is_ok(),
        _ if remove => block_on(db.decrease_funds(&who[0], &n)).is_ok(),
        _ => block_on(db.add_funds(&who[0], &n)).is_ok(),
    });
    let failed = !sled::model::fault_pending();
    sled::model::fault_in(None);
    check(!r.panicked(), "an I/O error never panics");
    let Some(r) = r.done() else { return };
    cover(if failed { "failed" } else { "not failed" });
    check(!(failed & r), "an I/O error is reported");
    let now = funds(&db, &who[0]);
    let (new, fits) = if remove { (sub(&held[0], &n), le(&n, &held[0])) } else { (add(&held[0], &n).0, true) };
    let old = eq(&now, &be(&held[0]));
    check(old | (fits & eq(&now, &be(&new))), "the balance is the old or the new one");
    check(eq(&funds(&db, &who[1]), &be(&held[1])), "no other account changes");
}

// ------------------------------------------------------------------- P28
pub fn h_p28_balance() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(2);
    let gas = choice(2, "gas") == 1;
    for i in 1..3 {
        fund(&t, &who[i], gas, &[1, 2]);
    }
    let op = any_op(gas, &[1, 2]);
    let n = u256_among(&[0, 1], "amount").0;
    let mut l = Ledger::of(&t, &who);
    sled::model::fault_in(Some(choice(8, "fault")));
    let r = attempt(|| run(&t, &who, gas, op, &n));
    let failed = !sled::model::fault_pending();
    sled::model::fault_in(None);
    check(!r.panicked(), "a failed storage step never panics");
    let Some(r) = r.done() else { return };
    cover(if failed { "failed" } else { "not failed" });
    if failed {
        check(!r, "a failed storage step is reported");
    } else {
        check(r == l.apply(gas, op, &n), "without failure the operation is exact");
    }
    check(l.same(&Ledger::of(&t, &who)), "a failed operation changes no balance");
    // and the tree works on
    check(run(&t, &who, gas, Op::Add(1), &small(1)) | eqn(&l.coins[1], &U256::MAX) | eqn(&l.gas[1], &U256::MAX), "the tree works on after a failure");
}
pub fn h_p28_reads() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(1);
    sled::model::fault_in(Some(choice(2, "fault")));
    let r = attempt(|| if choice(2, "gas") == 1 { t.get_gas(&who[1]).is_ok() } else { t.get_amount(&who[1]).is_ok() });
    let failed = !sled::model::fault_pending();
    sled::model::fault_in(None);
    check(!r.panicked(), "a failed storage step never panics");
    check(r.done() == Some(!failed), "a failed storage step is reported");
}
fn faulty_add(c: &dyn Chain, list: Vec<Vec<u8>>) {
    let mut list = list;
    let n = small(list.len() as u64);
    sled::model::fault_in(Some(choice(8, "fault")));
    let mut d = Vec::new();
    let r = attempt(|| {
        let (ok, x) = c.add(1, n);
        d = x;
        ok
    });
    let failed = !sled::model::fault_pending();
    sled::model::fault_in(None);
    check(!r.panicked(), "a failed storage step never panics");
    let Some(r) = r.done() else { return };
    cover(if failed { "failed" } else { "not failed" });
    check(r == !failed, "a failed storage step is reported");
    if r {
        list.push(d);
    }
    agrees(c, small(0), &list);
    let (ok, d) = c.add(1, small(list.len() as u64));
    check(ok, "the chain works on after a failure");
    list.push(d);
    agrees(c, small(0), &list);
}
pub fn h_p28_block() {
    let c = main_chain();
    let list = with_genesis(&c);
    faulty_add(&c, list);
}
pub fn h_p28_derivative() {
    let c = derivative_chain(&[7; 32]);
    faulty_add(&c, vec![]);
}
/// Flushing reports a failure, and what is held stays.
pub fn h_p28_flush() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(1);
    fund(&t, &who[1], false, &[1]);
    let m = t.get_main_chain();
    let mut list = with_genesis(&m);
    let (_, d) = m.add(1, small(1));
    list.push(d);
    let l = Ledger::of(&t, &who);
    sled::model::fault_in(Some(choice(16, "fault")));
    let r = attempt(|| block_on(t.flush()).is_ok());
    let failed = !sled::model::fault_pending();
    sled::model::fault_in(None);
    check(!r.panicked(), "a failed storage step never panics");
    cover(if failed { "failed" } else { "not failed" });
    check(r.done() == Some(!failed), "a failed flush is reported");
    check(l.same(&Ledger::of(&t, &who)), "a failed flush changes no balance");
    agrees(&m, small(0), &list);
    check(block_on(t.flush()).is_ok(), "flushing works after a failure");
}
/// The same with derivative chains, which are flushed too.
pub fn h_p28_flush_chains() {
    let mut t = BlockChainTree::new(ROOT).unwrap();
    let mut chains = Vec::new();
    for i in 0..2 {
        let d = t.get_derivative_chain(&[2 + i; 33]).unwrap();
        let (_, x) = d.add(9, small(0));
        chains.push((d, vec![x]));
    }
    sled::model::fault_in(Some(choice(20, "fault")));
    let r = attempt(|| block_on(t.flush()).is_ok());
    let failed = !sled::model::fault_pending();
    sled::model::fault_in(None);
    check(!r.panicked(), "a failed storage step never panics");
    cover(if failed { "failed" } else { "not failed" });
    check(r.done() == Some(!failed), "a failed flush is reported");
    for (d, l) in &chains {
        agrees(d, small(0), l);
    }
    check(block_on(t.flush()).is_ok(), "flushing works after a failure");
    sled::model::crash();
    std::mem::forget((t, chains));
    let mut t = BlockChainTree::new(ROOT).unwrap();
    check(eqn(&t.get_derivative_chain(&[2; 33]).unwrap().get_height(), &small(1)), "what was flushed in the end is kept");
}
/// A file operation of a flush fails, or writes less than asked.  The failure
/// is reported; dying before the next flush leaves what the last one covered.
pub fn h_p28_files() {
    let t = BlockChainTree::new(ROOT).unwrap();
    check(block_on(t.flush()).is_ok(), "flushing succeeds");
    let m = t.get_main_chain();
    let mut list = with_genesis(&m);
    let (_, d) = m.add(1, small(1));
    list.push(d);
    tokio::model::set_late_writes(true);
    symrt::file_faults(true);
    let r = attempt(|| block_on(t.flush()).is_ok());
    let failed = symrt::file_faults(false);
    tokio::model::set_late_writes(false);
    check(!r.panicked(), "a failed storage step never panics");
    cover(if failed { "failed" } else { "not failed" });
    check(r.done() == Some(!failed), "a failed flush is reported");
    agrees(&m, small(0), &list);
    let again = choice(2, "again") == 1;
    if again {
        check(block_on(t.flush()).is_ok(), "flushing works after a failure");
    }
    sled::model::crash();
    std::mem::forget((t, m));
    let t = attempt(|| BlockChainTree::new(ROOT).map_err(|_| ()));
    match t.done() {
        Some(Ok(t)) => {
            prefix(&t.get_main_chain(), small(0), &list, if again || !failed { 2 } else { 1 });
        }
        _ => check(false, "the folder opens after a failed flush"),
    }
}
pub fn h_p28_files_derivative() {
    let c = derivative_chain(&[7; 32]);
    let (_, x) = c.add(1, small(0));
    check(block_on(c.flush()).is_ok(), "flushing succeeds");
    let (_, y) = c.add(1, small(1));
    let list = vec![x, y];
    tokio::model::set_late_writes(true);
    symrt::file_faults(true);
    let r = attempt(|| block_on(c.flush()).is_ok());
    let failed = symrt::file_faults(false);
    tokio::model::set_late_writes(false);
    check(!r.panicked(), "a failed storage step never panics");
    cover(if failed { "failed" } else { "not failed" });
    check(r.done() == Some(!failed), "a failed flush is reported");
    agrees(&c, small(0), &list);
    sled::model::crash();
    std::mem::forget(c);
    let c = derivative_chain(&[8; 32]);
    prefix(&c, small(0), &list, if failed { 1 } else { 2 });
    check(eq(&*c.genesis_hash, &[7; 32]), "the founding block stays");
}
/// Opening a folder while its storage fails: an error, or what is there; and
/// nothing is lost by the attempt.
pub fn h_p28_open() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(1);
    t.set_amount(&who[1], u256_of_size(1, "coins").0).unwrap();
    t.set_amount(&who[0], u256_of_size(1, "coins").0).unwrap();
    let m = t.get_main_chain();
    let mut list = with_genesis(&m);
    if choice(2, "blocks") == 1 {
        let (_, d) = m.add(1, small(1));
        list.push(d);
    }
    check(block_on(t.flush()).is_ok(), "flushing succeeds");
    let l = Ledger::of(&t, &who);
    drop((t, m));
    if choice(2, "kind") == 1 {
        symrt::file_faults(true);
    } else {
        sled::model::fault_in(Some(choice(12, "fault")));
    }
    let r = attempt(|| BlockChainTree::new(ROOT).ok());
    let failed = symrt::file_faults(false) | !sled::model::fault_pending();
    sled::model::fault_in(None);
    check(!r.panicked(), "a failed storage step never panics");
    let Some(r) = r.done() else { return };
    cover(if r.is_none() { "refused" } else { "opened" });
    check(failed | r.is_some(), "without failure the folder opens");
    if let Some(t) = r {
        agrees(&t.get_main_chain(), small(0), &list);
        check(l.same(&Ledger::of(&t, &who)), "what is opened is what is there");
    }
    let t = BlockChainTree::new(ROOT).unwrap();
    agrees(&t.get_main_chain(), small(0), &list);
    check(l.same(&Ledger::of(&t, &who)), "a failed attempt to open loses nothing");
}
pub fn h_p28_open_derivative() {
    let c = derivative_chain(&[7; 32]);
    let mut list = Vec::new();
    for i in 0..choice(3, "blocks") {
        let (_, d) = c.add(1, small(i));
        list.push(d);
    }
    check(block_on(c.flush()).is_ok(), "flushing succeeds");
    drop(c);
    if choice(2, "kind") == 1 {
        symrt::file_faults(true);
    } else {
        sled::model::fault_in(Some(choice(8, "fault")));
    }
    let r = attempt(|| blockchaintree::chain::DerivativeChain::new(ROOT, OWNER, &[8; 32]).ok());
    let failed = symrt::file_faults(false) | !sled::model::fault_pending();
    sled::model::fault_in(None);
    check(!r.panicked(), "a failed storage step never panics");
    let Some(r) = r.done() else { return };
    cover(if r.is_none() { "refused" } else { "opened" });
    check(failed | r.is_some(), "without failure the folder opens");
    if let Some(c) = r {
        agrees(&c, small(0), &list);
        check(eq(&*c.genesis_hash, &[7; 32]), "the founding block stays");
    }
    let c = derivative_chain(&[8; 32]);
    agrees(&c, small(0), &list);
    check(eq(&*c.genesis_hash, &[7; 32]), "the founding block stays");
}
/// Looking something up reports a failure.
pub fn h_p28_lookups() {
    let c = main_chain();
    let d = derivative_chain(&[7; 32]);
    let (_, x) = c.add(9, small(1));
    let (_, y) = d.add(9, small(0));
    let (hx, hy) = (symrt::sha256(&x), symrt::sha256(&y));
    let other: [u8; 32] = symrt::bytes("other");
    sled::model::fault_in(Some(choice(3, "fault")));
    let r = attempt(|| match choice(14, "lookup") {
        0 => c.find_raw_by_height(&small(1)).map(|v| same(&v, Some(&x))),
        1 => c.find_by_height(&small(1)).map(|v| v.is_some()),
        2 => c.find_raw_by_hash(&hx).map(|v| same(&v, Some(&x))),
        3 => c.find_by_hash(&hx).map(|v| v.is_some()),
        4 => c.get_last_raw_block().map(|v| same(&v, Some(&x))),
        5 => c.get_last_block().map(|v| v.is_some()),
        6 => c.transaction_exists(&other).map(|v| !v),
        7 => c.get_transaction_raw(&other).map(|v| v.is_none()),
        8 => c.get_transaction(&other).map(|v| v.is_none()),
        9 => d.find_raw_by_height(&small(0)).map(|v| same(&v, Some(&y))),
        10 => d.find_raw_by_hash(&hy).map(|v| same(&v, Some(&y))),
        11 => d.get_last_block().map(|v| v.is_some()),
        12 => d.find_by_height(&small(0)).map(|v| v.is_some()),
        _ => d.find_by_hash(&hy).map(|v| v.is_some()),
    });
    let failed = !sled::model::fault_pending();
    sled::model::fault_in(None);
    check(!r.panicked(), "a failed storage step never panics");
    cover(if failed { "failed" } else { "not failed" });
    match r.done() {
        Some(Ok(v)) => check(v & !failed, "a lookup answers exactly, or reports the failure"),
        Some(Err(_)) => check(failed, "a lookup fails only if its storage does"),
        None => {}
    }
}

// ------------------------------------------------------------------- P30
/// all coins (or gas) there are
fn total(l: &[U256]) -> U256 {
    let mut t = U256::zero();
    for x in l {
        t = add(&t, x).0;
    }
    t
}
/// One thing a user can do that is not meant to create or destroy coins.
fn act(t: &mut Option<BlockChainTree>, who: &[[u8; 33]], what: u64) -> U256 {
    let none = U256::zero();
    match what {
        0 => {
            let (i, j) = (choice(2, "from") as usize, choice(3, "to") as usize);
            let _ = t.as_ref().unwrap().send_amount(&who[i], &who[j], u256_of_size(2, "amount").0);
            none
        }
        1 => {
            let (i, j) = (choice(2, "from") as usize, choice(3, "to") as usize);
            let n = u256_of_size(3, "amount");
            let tx = Transaction::new_signed(who[i], who[j], symrt::u64("ts"), n.0, None, symrt::bytes("signature"));
            match t.as_ref().unwrap().send_transaction(&tx) {
                Ok(()) => {
                    cover("transaction sent");
                    small(GAS_PER_BYTE * encoded_len(n.1.len(), 0))
                }
                Err(_) => none,
            }
        }
        2 => {
            let (i, j) = (choice(2, "from") as usize, choice(3, "to") as usize);
            let _ = t.as_ref().unwrap().send_gas(&who[i], &who[j], u256_of_size(2, "amount").0);
            none
        }
        3 => {
            let t = t.as_mut().unwrap();
            let pow = symrt::bytes("pow");
            let r = attempt(|| block_on(t.emmit_new_main_block(&pow, &who[1], &[symrt::bytes("tx")], symrt::u64("ts"))).is_ok());
            if r.done() == Some(true) {
                cover("block emitted");
            }
            none
        }
        4 => {
            let t = t.as_mut().unwrap();
            let pow = symrt::bytes("pow");
            let r = attempt(|| block_on(t.emmit_new_derivative_block(&pow, &[2; 33], symrt::u64("ts"))).is_ok());
            if r.done() == Some(true) {
                cover("derivative block emitted");
            }
            none
        }
        _ => {
            check(block_on(t.as_ref().unwrap().flush()).is_ok(), "flushing succeeds");
            drop(t.take());
            *t = Some(BlockChainTree::new(ROOT).unwrap());
            none
        }
    }
}
fn supply(steps: usize, first: &[u64], then: u64) {
    let mut t = Some(BlockChainTree::new(ROOT).unwrap());
    let mut who = vec![ROOT_ADDRESS, [5; 33], [6; 33]];
    who[2][32] = symrt::u8("account");
    assume(who[2][32] != 5);
    {
        let t = t.as_ref().unwrap();
        t.set_amount(&who[1], u256_of_size(3, "coins").0).unwrap();
        t.add_gas(&who[1], u256_of_size(7, "gas").0).unwrap();
        t.add_gas(&who[0], u256_of_size(7, "gas").0).unwrap();
    }
    let before = Ledger::of(t.as_ref().unwrap(), &who);
    let mut burnt = U256::zero();
    for i in 0..steps {
        let what = if i == 0 { first[choice(first.len() as u64, "act") as usize] } else { choice(then, "act") };
        burnt = add(&burnt, &act(&mut t, &who, what)).0;
        let after = Ledger::of(t.as_ref().unwrap(), &who);
        check(eqn(&total(&before.coins), &total(&after.coins)), "coins are neither created nor destroyed");
        check(eqn(&total(&before.gas), &add(&total(&after.gas), &burnt).0), "gas is used up exactly by the transactions accepted");
    }
}
pub fn h_p30_one() {
    supply(1, &[0, 1, 2, 3, 4, 5], 6);
}
pub fn h_p30_sends() {
    supply(2, &[1], 2);
}
pub fn t_p30_two() {
    supply(2, &[0, 1, 2, 3, 4, 5], 6);
}
/// A storage step of a transaction fails: nothing is created, the failure is
/// reported, and the amount has moved whole or not at all.
pub fn h_p30_fault() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = accounts(2);
    t.set_amount(&who[1], u256_of_size(3, "coins").0).unwrap();
    if choice(2, "known") == 1 {
        t.set_amount(&who[2], u256_of_size(1, "coins").0).unwrap();
    }
    t.add_gas(&who[1], u256_of_size(7, "gas").0).unwrap();
    let before = Ledger::of(&t, &who);
    let n = u256_of_size(3, "amount");
    let price = small(GAS_PER_BYTE * encoded_len(n.1.len(), 0));
    let tx = Transaction::new_signed(who[1], who[2], symrt::u64("ts"), n.0, None, [9; 64]);
    sled::model::fault_in(Some(choice(16, "fault")));
    let r = attempt(|| t.send_transaction(&tx).is_ok());
    let failed = !sled::model::fault_pending();
    sled::model::fault_in(None);
    check(!r.panicked(), "a failed storage step never panics");
    let Some(r) = r.done() else { return };
    cover(if failed { "failed" } else { "not failed" });
    check(!(failed & r), "a failed storage step is reported");
    let after = Ledger::of(&t, &who);
    check(eqn(&total(&before.coins), &total(&after.coins)), "coins are neither created nor destroyed");
    let mut moved = before.clone();
    let can = moved.apply(false, Op::Send(1, 2), &n.0);
    let mut charged = moved.clone();
    charged.gas[1] = sub(&charged.gas[1], &price);
    let enough = le(&price, &before.gas[1]);
    check(
        before.same(&after) | (can & moved.same(&after) & !r) | (can & enough & charged.same(&after)),
        "the amount moves whole or not at all, and gas is only taken for an amount that moved",
    );
    check(!r | charged.same(&after), "an accepted transaction is charged");
    let stored = t.get_main_chain().transaction_exists(&tx.hash()).unwrap();
    check(before.same(&after) | stored, "an amount moves only for a transaction that is stored");
}

/// Two transactions at once, or a transaction and a send: the second anywhere
/// in the first.  Accepted ones are paid for and their amounts have moved.
static mut THIRD: Option<(Transaction, bool)> = None;
#[allow(static_mut_refs)]
fn third() {
    unsafe {
        let t = TREE.as_ref().unwrap();
        let (tx, whole) = THIRD.as_ref().unwrap();
        SECOND_OK = if *whole { t.send_transaction(tx).is_ok() } else { t.send_amount(tx.get_sender(), tx.get_receiver(), *tx.get_amount()).is_ok() };
    }
}
#[allow(static_mut_refs)]
pub fn h_p30_at_once() {
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = vec![ROOT_ADDRESS, [5; 33], [6; 33]];
    let to = 2;
    let (from2, to2) = if choice(2, "direction") == 1 { (1, 2) } else { (2, 1) };
    let whole = choice(2, "second") == 1;
    let price = small(GAS_PER_BYTE * encoded_len(4, 0));
    for i in 1..3 {
        if i == 1 || from2 == 2 {
            t.set_amount(&who[i], small(0x2_0000 + (symrt::u32("coins") & 0xffff) as u64)).unwrap();
            // enough for none, one, both
            let k = if i == 1 { choice(3, "gas") } else { 1 };
            t.add_gas(&who[i], small(price.low_u64() * k + symrt::u8("gas") as u64)).unwrap();
        }
    }
    let n1 = small(0x1_0000 + (symrt::u32("amount") & 0xffff) as u64);
    let n2 = small(0x1_0000 + (symrt::u32("amount") & 0xffff) as u64);
    let tx1 = Transaction::new_signed(who[1], who[to], 1, n1, None, [9; 64]);
    let tx2 = Transaction::new_signed(who[from2], who[to2], 2, n2, None, [9; 64]);
    let before = Ledger::of(&t, &who);
    unsafe {
        TREE = Some(t);
        THIRD = Some((tx2, whole));
    }
    let t = unsafe { TREE.as_ref().unwrap() };
    sled::model::conflicts(true);
    symrt::arm(third);
    let first = t.send_transaction(&tx1).is_ok();
    if symrt::disarm() {
        cover("interleaved");
    } else {
        third();
    }
    sled::model::conflicts(false);
    let other = unsafe { SECOND_OK };
    let after = Ledger::of(t, &who);
    check(eqn(&total(&before.coins), &total(&after.coins)), "coins are neither created nor destroyed");
    let mut gas = before.gas.clone();
    if first {
        gas[1] = sub(&gas[1], &price);
    }
    if other & whole {
        gas[from2] = sub(&gas[from2], &price);
    }
    check(eqn(&gas[0], &after.gas[0]) & eqn(&gas[1], &after.gas[1]) & eqn(&gas[2], &after.gas[2]), "gas is used up exactly by the transactions accepted");
    // any of the two may have moved, an accepted one has
    let mut ok = false;
    for moved in 0..4 {
        let (m1, m2) = (moved & 1 == 1, moved & 2 == 2);
        if (first & !m1) | (other & !m2) {
            continue;
        }
        let mut c = before.coins.clone();
        if m1 {
            c[1] = c[1].overflowing_sub(n1).0;
            c[2] = add(&c[2], &n1).0;
        }
        if m2 {
            c[from2] = c[from2].overflowing_sub(n2).0;
            c[to2] = add(&c[to2], &n2).0;
        }
        ok |= eqn(&c[0], &after.coins[0]) & eqn(&c[1], &after.coins[1]) & eqn(&c[2], &after.coins[2]);
    }
    check(ok, "an amount moves once and whole, or not at all");
}

// ------------------------------------------------------------------- P33
/// The process dies: each ledger is what it was after one of its operations.
fn crash_ledgers(ops: usize, flush: &[usize], gas: bool) {
    tokio::model::set_late_writes(true);
    let t = BlockChainTree::new(ROOT).unwrap();
    let who = vec![ROOT_ADDRESS, [5; 33], [6; 33]];
    check(block_on(t.flush()).is_ok(), "flushing succeeds");
    let mut states = vec![Ledger::of(&t, &who)];
    let mut plan = Vec::new();
    for i in 0..ops {
        let op = if i == 0 && gas { Op::Add(1) } else { any_op(gas, &[0, 1]) };
        let n = u256_of_size(1, "amount").0;
        let mut next = states[i].clone();
        next.apply(gas, op, &n);
        states.push(next);
        plan.push((op, n));
    }
    let mut flushed = 0;
    symrt::crash_points(true);
    let p = &mut flushed as *mut usize;
    let r = attempt(|| {
        for (i, (op, n)) in plan.iter().enumerate() {
            run(&t, &who, gas, *op, n);
            if flush.contains(&i) {
                block_on(t.flush()).unwrap();
                unsafe { *p = i + 1 };
            }
        }
    });
    symrt::crash_points(false);
    check(!r.panicked(), "nothing panics");
    cover(if r.done().is_some() { "died afterwards" } else { "died on the way" });
    sled::model::crash();
    std::mem::forget(t);
    match attempt(|| BlockChainTree::new(ROOT)).done() {
        Some(Ok(t)) => {
            let now = Ledger::of(&t, &who);
            let mut found = false;
            for s in &states[flushed..] {
                found |= s.same(&now);
            }
            check(found, "after a crash balances are those after one of the operations, not before the last completed flush");
        }
        _ => check(false, "the folder opens again after a crash"),
    }
}
pub fn h_p33_coins() {
    crash_ledgers(2, &[0], false);
}
pub fn h_p33_gas() {
    crash_ledgers(2, &[0], true);
}
pub fn t_p33_coins() {
    crash_ledgers(3, &[1], false);
}
/// The coins of the first cycle are there as soon as there is a chain.
pub fn h_p33_first() {
    tokio::model::set_late_writes(true);
    let t = BlockChainTree::new(ROOT).unwrap();
    let m = t.get_main_chain();
    symrt::crash_points(true);
    let r = attempt(|| {
        m.add(9, small(1));
        block_on(m.flush()).unwrap();
        block_on(t.flush()).unwrap();
    });
    symrt::crash_points(false);
    check(!r.panicked(), "nothing panics");
    sled::model::crash();
    std::mem::forget((t, m));
    match attempt(|| BlockChainTree::new(ROOT)).done() {
        Some(Ok(t)) => {
            let v = t.get_amount(&ROOT_ADDRESS).unwrap();
            check(eqn(&v, &coins_per_cycle()), "the root account has the coins of one cycle");
        }
        _ => check(false, "the folder opens again after a crash"),
    }
}
