//! P21 P29: transaction pool and transaction order
use crate::all;
use crate::util::*;
use blockchaintree::transaction::{Transaction, Transactionable, TransactionableItem};
use blockchaintree::txpool::TxPool;
use std::cmp::Ordering;
use symrt::{assume, check, choice, cover};

/// `n` transactions with arbitrary times, receivers and amounts, with every
/// pattern of equal ones
fn transactions(n: usize) -> Vec<Transaction> {
    let mut distinct: Vec<(Transaction, [u8; 33], u64)> = Vec::new();
    let mut out = Vec::new();
    for _ in 0..n {
        let k = choice(distinct.len() as u64 + 1, "same_as") as usize;
        if k == distinct.len() {
            let receiver: [u8; 33] = symrt::bytes("receiver");
            let ts = symrt::u64("ts");
            for (_, r, t) in &distinct {
                assume(!(eq(&receiver, r) & (ts == *t)));
            }
            let t = Transaction::new_signed([2; 33], receiver, ts, small(7), None, [9; 64]);
            distinct.push((t, receiver, ts));
        }
        out.push(distinct[k].0.clone());
    }
    out
}
fn words(h: &[u8; 32]) -> [u64; 4] {
    let mut w = [0; 4];
    for i in 0..4 {
        let mut x = [0u8; 8];
        x.copy_from_slice(&h[8 * i..8 * i + 8]);
        w[i] = u64::from_le_bytes(x);
    }
    w
}
/// `a` leaves the pool strictly before `b`
fn before(a: &Transaction, b: &Transaction) -> bool {
    let (x, y) = (words(&a.hash()), words(&b.hash()));
    let mut lt = false;
    for i in (0..4).rev() {
        lt = (x[i] < y[i]) | ((x[i] == y[i]) & lt);
    }
    (a.get_timestamp() < b.get_timestamp()) | ((a.get_timestamp() == b.get_timestamp()) & lt)
}
fn boxed(t: &Transaction) -> TransactionableItem {
    Box::new(t.clone())
}

// ------------------------------------------------------------------- P21
fn agree(p: &TxPool, held: &[&Transaction], all: &[Transaction]) {
    check(p.len() == held.len(), "the size is the number of transactions held");
    check(p.is_empty() == held.is_empty(), "empty exactly if nothing is held");
    for t in all {
        let h = t.hash();
        let inside = held.iter().any(|x| x.hash() == h);
        check(p.transaction_exists(&h) == inside, "membership is told by hash");
    }
    let mut seen = 0;
    for i in p.transactions_iter() {
        seen += 1;
        check(held.iter().any(|x| x.hash() == i.hash()), "only held transactions are listed");
    }
    check(seen == held.len(), "every held transaction is listed once");
}
fn queue(txs: usize, steps: usize, thorough: bool) {
    let all = transactions(txs);
    let mut p = if choice(2, "capacity") == 0 { TxPool::new() } else { TxPool::with_capacity(1) };
    let mut held: Vec<&Transaction> = Vec::new();
    let mut next = 0;
    agree(&p, &held, &all);
    for _ in 0..steps {
        // the next transaction goes in, or one comes out
        if next < txs && choice(2, "op") == 0 {
            let t = &all[next];
            next += 1;
            let had = held.iter().any(|x| x.hash() == t.hash());
            let r = p.push(boxed(t));
            check(r != had, "insertion is refused exactly for a held transaction");
            if !had {
                held.push(t);
            } else {
                cover("refused");
            }
        } else {
            match p.pop() {
                None => check(held.is_empty(), "something is removed unless the pool is empty"),
                Some((h, t)) => {
                    check(h == t.hash(), "the removed transaction comes with its hash");
                    match held.iter().position(|x| x.hash() == h) {
                        None => check(false, "a held transaction is removed"),
                        Some(i) => {
                            let x = held.remove(i);
                            check(
                                all!(
                                    eq(t.get_receiver(), x.get_receiver()),
                                    t.get_timestamp() == x.get_timestamp(),
                                    eq(t.get_signature(), x.get_signature()),
                                ),
                                "the removed transaction is the one inserted",
                            );
                            let mut first = true;
                            for y in &held {
                                first &= before(x, y);
                            }
                            cover(if held.is_empty() { "last" } else { "oldest of several" });
                            check(first, "the oldest is removed first, ties going to the smaller hash");
                        }
                    }
                }
            }
        }
        if thorough {
            agree(&p, &held, &all);
        }
    }
    agree(&p, &held, &all);
    // drain
    let mut last: Option<Transaction> = None;
    while let Some((h, _)) = p.pop() {
        match held.iter().position(|x| x.hash() == h) {
            None => return check(false, "a held transaction is removed"),
            Some(i) => {
                let x = held.remove(i);
                if let Some(l) = &last {
                    check(before(l, x), "the pool drains in order");
                }
                last = Some(x.clone());
            }
        }
    }
    check(held.is_empty() && p.is_empty(), "every transaction comes out");
}
pub fn h_p21_queue() {
    queue(3, 5, true);
}
/// `n` different transactions go in, and come out in order
fn drain(n: usize, ties: bool) {
    let mut all: Vec<Transaction> = Vec::new();
    let mut ids: Vec<([u8; 33], u64)> = Vec::new();
    for _ in 0..n {
        let receiver: [u8; 33] = symrt::bytes("receiver");
        let ts = symrt::u64("ts");
        for (r, t) in &ids {
            assume(ts != *t || (ties && !eq(&receiver, r)));
        }
        ids.push((receiver, ts));
        all.push(Transaction::new_signed([2; 33], receiver, ts, small(7), None, [9; 64]));
    }
    let mut p = TxPool::default();
    for t in &all {
        check(p.push(boxed(t)), "a transaction that is not held is taken");
    }
    check(p.len() == n, "the size is the number of transactions held");
    let mut held: Vec<&Transaction> = all.iter().collect();
    while let Some((h, _)) = p.pop() {
        match held.iter().position(|x| x.hash() == h) {
            None => return check(false, "a held transaction is removed"),
            Some(i) => {
                let x = held.remove(i);
                let mut first = true;
                for y in &held {
                    first &= before(x, y);
                }
                check(first, "the oldest is removed first, ties going to the smaller hash");
            }
        }
        check(p.len() == held.len(), "the size is the number of transactions held");
    }
    check(held.is_empty(), "every transaction comes out");
}
/// A large pool of known transactions, many of them of the same time, and an
/// arbitrary one among them.
pub fn h_p21_large() {
    let n = 40u64;
    let mut all: Vec<Transaction> = Vec::new();
    for i in 0..n {
        let i = i * 17 % n;
        all.push(Transaction::new_signed([2; 33], [3; 33], 1000 + i / 3 * 10, small(i), None, [9; 64]));
    }
    let x = Transaction::new_signed([2; 33], [4; 33], symrt::u64("ts"), small(7), None, [9; 64]);
    let mut p = match choice(3, "capacity") {
        0 => TxPool::new(),
        1 => TxPool::with_capacity(0),
        _ => TxPool::with_capacity(16),
    };
    let mut held: Vec<&Transaction> = Vec::new();
    let out = |p: &mut TxPool, held: &mut Vec<&Transaction>| match p.pop() {
        None => check(held.is_empty(), "something is removed unless the pool is empty"),
        Some((h, _)) => match held.iter().position(|x| x.hash() == h) {
            None => check(false, "a held transaction is removed"),
            Some(i) => {
                let x = held.remove(i);
                let mut first = true;
                for y in held.iter() {
                    first &= before(x, y);
                }
                check(first, "the oldest is removed first, ties going to the smaller hash");
            }
        },
    };
    for (i, t) in all.iter().enumerate() {
        if i == 20 {
            check(p.push(boxed(&x)), "a transaction that is not held is taken");
            held.push(&x);
        }
        check(p.push(boxed(t)), "a transaction that is not held is taken");
        held.push(t);
        check(p.len() == held.len(), "the size is the number of transactions held");
        if i % 7 == 6 {
            out(&mut p, &mut held);
        }
        // those held are refused
        if i % 9 == 0 {
            let again = held[i % held.len()];
            check(!p.push(boxed(again)), "insertion is refused exactly for a held transaction");
            check(p.len() == held.len(), "the size is the number of transactions held");
        }
    }
    for t in &all {
        let h = t.hash();
        check(p.transaction_exists(&h) == held.iter().any(|y| y.hash() == h), "membership is told by hash");
    }
    while !held.is_empty() {
        out(&mut p, &mut held);
        check(p.len() == held.len(), "the size is the number of transactions held");
    }
    check(p.pop().is_none() && p.is_empty(), "every transaction comes out");
    // a transaction that came out can go in again
    check(p.push(boxed(&x)) && p.len() == 1, "a transaction that is not held is taken");
}
pub fn h_p21_drain() {
    drain(4, false);
}
pub fn t_p21_drain() {
    drain(4 + choice(2, "n") as usize, true);
}
pub fn t_p21_queue() {
    queue(4, 6, false);
}

// ------------------------------------------------------------------- P29
fn spec(a: &Transaction, b: &Transaction) -> Ordering {
    if before(a, b) {
        Ordering::Greater
    } else if before(b, a) {
        Ordering::Less
    } else {
        Ordering::Equal
    }
}
pub fn h_p29_pair() {
    let t = transactions(2);
    let (a, b) = (boxed(&t[0]), boxed(&t[1]));
    let (x, y) = (a.cmp(&b), b.cmp(&a));
    check(x == spec(&t[0], &t[1]), "older transactions are greater, ties go to the smaller hash");
    check(x == y.reverse(), "the order is antisymmetric");
    check(a.partial_cmp(&b) == Some(x), "the partial order is the order");
    let same = (a.get_timestamp() == b.get_timestamp()) & eq(&a.hash(), &b.hash());
    check((x == Ordering::Equal) == same, "equal exactly if time and hash agree");
    check(PartialEq::eq(&a, &b) == same && PartialEq::eq(&b, &a) == same, "equality agrees with the order");
    check(PartialEq::eq(&a, &a) && a.cmp(&a) == Ordering::Equal, "a transaction equals itself");
    cover(match x {
        Ordering::Less => "less",
        Ordering::Equal => "equal",
        Ordering::Greater => "greater",
    });
}
pub fn h_p29_triple() {
    let t = transactions(3);
    let (a, b, c) = (boxed(&t[0]), boxed(&t[1]), boxed(&t[2]));
    let (ab, bc, ac) = (a.cmp(&b), b.cmp(&c), a.cmp(&c));
    if ab != Ordering::Greater && bc != Ordering::Greater {
        check(ac != Ordering::Greater, "the order is transitive");
        check((ac == Ordering::Equal) == (ab == Ordering::Equal && bc == Ordering::Equal), "equality is transitive");
    }
}

// ------------------------------------------------------------------- P34
/// blocks of any two kinds compare by their time
pub fn h_p34_order() {
    let b: Vec<blockchaintree::block::BlockArc> = (0..3).map(|_| any_block()).collect();
    let ts: Vec<u64> = b.iter().map(|x| x.get_info().timestamp).collect();
    for i in 0..3 {
        for j in 0..3 {
            let want = ts[i].cmp(&ts[j]);
            check(b[i].cmp(&b[j]) == want, "blocks are ordered by their time");
            check(b[i].partial_cmp(&b[j]) == Some(want), "the partial order is the order");
            check((*b[i] == *b[j]) == (ts[i] == ts[j]), "blocks compare equal exactly at the same time");
        }
    }
    let m = b.iter().max().unwrap().get_info().timestamp;
    check(m >= ts[0] && m >= ts[1] && m >= ts[2], "the greatest block is a latest one");
}
fn any_block() -> blockchaintree::block::BlockArc {
    use blockchaintree::block::{DerivativeBlock, SummarizeBlock, TransactionBlock};
    let i = crate::codec::info(&[1]).b;
    match choice(3, "kind") {
        0 => std::sync::Arc::new(TransactionBlock::new(small(1), i, symrt::bytes("root"), vec![symrt::bytes("tx")])),
        1 => std::sync::Arc::new(SummarizeBlock { default_info: i, merkle_tree_root: symrt::bytes("root") }),
        _ => std::sync::Arc::new(DerivativeBlock { default_info: i }),
    }
}
