//! P01 P02 P03 P04 P24: wire formats
use crate::all;
use crate::util::*;
use blockchaintree::block::{
    deserialize_main_chain_block, BasicInfo, Block, DerivativeBlock, SummarizeBlock,
    TransactionBlock,
};
use blockchaintree::dump_headers::Headers;
use blockchaintree::tools;
use blockchaintree::transaction::{Transaction, Transactionable};
use num_bigint::BigUint;
use symrt::{attempt, check, choice, cover};

// ------------------------------------------------------------------- P04
pub fn h_p04_u256() {
    let (n, enc) = u256_among(&ALL_SIZES, "n");
    let pre = symrt::vec(choice(2, "prefix") as usize * 3, "pre");
    let mut v = pre.clone();
    check(tools::dump_u256(&n, &mut v).is_ok(), "every number encodes");
    check(eq(&v[..pre.len()], &pre), "what was in the buffer stays");
    check(eq(&v[pre.len()..], &enc), "encoding is length byte and minimal big-endian bytes");
    check(tools::u256_size(&n) == enc.len(), "u256_size is the encoded length");
    let tail = [0, 2, 4, 33, 260][choice(5, "tail") as usize];
    v.extend_from_slice(&symrt::vec(tail, "tail"));
    match tools::load_u256(&v[pre.len()..]) {
        Ok((m, used)) => {
            check(eqn(&m, &n), "decoding returns the number");
            check(used + 1 == enc.len(), "decoding reports the bytes used");
        }
        Err(_) => check(false, "an encoding decodes"),
    }
}
/// decoding of arbitrary bytes: value of the announced bytes, or an error
pub fn h_p04_u256_decode() {
    let lens = [0usize, 1, 2, 3, 8, 9, 20, 32, 33, 34, 40, 128, 129, 255, 256, 257, 300];
    let l = lens[choice(lens.len() as u64, "len") as usize];
    let v = symrt::vec(l, "data");
    match tools::load_u256(&v) {
        Ok((m, used)) => {
            check(l > 0 && used == v[0] as usize, "uses as many bytes as announced");
            check(used <= 32 && used + 1 <= l, "stays inside the input");
            let mut f = [0u8; 32];
            f[32 - used..].copy_from_slice(&v[1..1 + used]);
            check(eqn(&m, &limbs(&f)), "value is the big-endian number");
            cover("accepted");
        }
        Err(_) => {
            cover("refused");
            check(l == 0 || v[0] > 32 || v[0] as usize + 1 > l, "complete encodings are accepted");
        }
    }
}
fn biguint(sizes: &[usize]) {
    let k = sizes[choice(sizes.len() as u64, "size") as usize];
    let b = symrt::vec(k, "n");
    if k > 0 {
        symrt::assume(b[0] != 0);
    }
    let n = BigUint::from_bytes_be(&b);
    let enc: Vec<u8> = if k == 0 {
        vec![1, 0]
    } else {
        let mut e = vec![k as u8];
        e.extend_from_slice(&b);
        e
    };
    let pre = symrt::vec(choice(2, "prefix") as usize * 2, "pre");
    let mut v = pre.clone();
    let r = tools::dump_biguint(&n, &mut v);
    if k > 255 {
        check(r.is_err(), "numbers over 255 bytes are refused");
        cover("too big");
        return;
    }
    check(r.is_ok(), "numbers up to 255 bytes encode");
    check(eq(&v[..pre.len()], &pre), "what was in the buffer stays");
    check(eq(&v[pre.len()..], &enc), "encoding is length byte and big-endian bytes");
    check(tools::bigint_size(&n) == enc.len(), "bigint_size is the encoded length");
    let tail = [0, 3, 260][choice(3, "tail") as usize];
    v.extend_from_slice(&symrt::vec(tail, "tail"));
    match tools::load_biguint(&v[pre.len()..]) {
        Ok((m, used)) => {
            check(m == n, "decoding returns the number");
            check(used == enc.len(), "decoding reports the bytes used");
        }
        Err(_) => check(false, "an encoding decodes"),
    }
}
pub fn h_p04_biguint() {
    biguint(&[0, 1, 2, 7, 8, 9, 16, 17, 31, 32, 33, 64, 127, 128, 129, 254, 255, 256, 257]);
}
pub fn t_p04_biguint() {
    let all: Vec<usize> = (0..=260).collect();
    biguint(&all);
}
pub fn h_p04_biguint_decode() {
    let lens = [0usize, 1, 2, 3, 9, 10, 33, 34, 65, 128, 129, 130, 254, 255, 256, 257, 258, 300];
    let l = lens[choice(lens.len() as u64, "len") as usize];
    let v = symrt::vec(l, "data");
    match tools::load_biguint(&v) {
        Ok((m, used)) => {
            check(l > 0 && used == v[0] as usize + 1, "uses as many bytes as announced");
            check(used <= l, "stays inside the input");
            check(m == BigUint::from_bytes_be(&v[1..used]), "value is the big-endian number");
            cover("accepted");
        }
        Err(_) => {
            cover("refused");
            check(l == 0 || v[0] as usize + 1 > l, "complete encodings are accepted");
        }
    }
}

// ------------------------------------------------------------------- P24
pub fn h_p24_lz() {
    let l = choice(36, "len") as usize;
    let v = symrt::vec(l, "data");
    check(tools::count_leading_zeros(&v) == lz(&v), "leading zero bits are exact");
}
pub fn h_p24_lz_long() {
    let l = [48usize, 63, 64, 65, 100, 127, 128, 255, 256, 257, 300][choice(11, "len") as usize];
    let mut v = symrt::vec(l, "data");
    // a run of zeros of any length up to the end
    let zeros = [0, 31, 32, 33, l - 2, l - 1, l][choice(7, "zeros") as usize].min(l);
    v[..zeros].fill(0);
    check(tools::count_leading_zeros(&v) == lz(&v), "leading zero bits are exact");
}
pub fn h_p24_fee() {
    let d: [u8; 32] = symrt::bytes("difficulty");
    let f = tools::recalculate_fee(&d);
    check(eqn(&f, &small(62500 * lz(&d) as u64)), "fee is the step times the leading zero bits");
    // the step itself is the documented one, and every threshold bit costs the same
    check(eqn(&blockchaintree::static_values::FEE_STEP, &small(62500)), "fee step is the documented one");
}

// ------------------------------------------------------------------- P01
struct Fields {
    sender: [u8; 33],
    receiver: [u8; 33],
    ts: u64,
    sig: [u8; 64],
    amount: primitive_types::U256,
    amount_enc: Vec<u8>,
    data: Vec<u8>,
}
fn fields(sizes: &[usize], data_lens: &[usize]) -> Fields {
    let (amount, amount_enc) = u256_among(sizes, "amount");
    let dl = data_lens[choice(data_lens.len() as u64, "data_len") as usize];
    Fields {
        sender: symrt::bytes("sender"),
        receiver: symrt::bytes("receiver"),
        ts: symrt::u64("ts"),
        sig: symrt::bytes("sig"),
        amount,
        amount_enc,
        data: symrt::vec(dl, "data"),
    }
}
fn tx_encoding(f: &Fields) -> Vec<u8> {
    let mut e = vec![0u8];
    e.extend_from_slice(&f.sender);
    e.extend_from_slice(&f.receiver);
    e.extend_from_slice(&f.ts.to_be_bytes());
    e.extend_from_slice(&f.sig);
    e.extend_from_slice(&f.amount_enc);
    e.extend_from_slice(&f.data);
    e
}
fn same_tx(t: &Transaction, f: &Fields) -> bool {
    let d = t.get_data().unwrap_or(&[]);
    all!(
        eq(t.get_sender(), &f.sender),
        eq(t.get_receiver(), &f.receiver),
        t.get_timestamp() == f.ts,
        eq(t.get_signature(), &f.sig),
        eqn(t.get_amount(), &f.amount),
        eq(d, &f.data),
    )
}
fn tx_roundtrip(sizes: &[usize], lens: &[usize]) {
    let f = fields(sizes, lens);
    let given = if f.data.is_empty() && choice(2, "empty_data") == 0 {
        None
    } else {
        Some(f.data.clone())
    };
    let t = Transaction::new_signed(f.sender, f.receiver, f.ts, f.amount, given, f.sig);
    check(same_tx(&t, &f), "the getters return what was given");
    let enc = tx_encoding(&f);
    let d = match t.dump() {
        Ok(d) => d,
        Err(_) => return check(false, "every transaction encodes"),
    };
    check(eq(&d, &enc), "encoding is the documented field order");
    check(t.get_dump_size() == d.len(), "get_dump_size is the exact length");
    let h = symrt::sha256(&enc);
    check(eq(&t.hash(), &h), "the hash is SHA-256 of the encoding");
    match Transaction::parse(&d[1..]) {
        Ok(p) => {
            check(same_tx(&p, &f), "decoding returns every field");
            check(p.get_data().is_none() == f.data.is_empty(), "an empty payload decodes as none");
            check(eq(&p.hash(), &h), "decoding returns the hash");
            check(p.dump().map(|x| eq(&x, &enc)).unwrap_or(false), "re-encoding is identical");
        }
        Err(_) => check(false, "an encoding decodes"),
    }
}
pub fn h_p01_roundtrip() {
    tx_roundtrip(&ALL_SIZES, &[0, 1, 7]);
}
pub fn h_p01_payload() {
    tx_roundtrip(&[0, 2], &[0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 128, 200]);
}
/// payloads beyond what a byte or two bytes can count
pub fn h_p01_long() {
    tx_roundtrip(&[1], &[254, 255, 256, 257, 300, 511, 512, 1000, 4096, 65535, 65536]);
}
pub fn t_p01_roundtrip() {
    let lens: Vec<usize> = (0..=80).collect();
    tx_roundtrip(&ALL_SIZES, &lens);
}
/// arbitrary accepted bytes
pub fn h_p01_decode() {
    let lens = [138usize, 139, 140, 141, 147, 160, 171, 172, 180, 203, 204, 256, 400, 1000];
    let l = lens[choice(lens.len() as u64, "len") as usize];
    let v = symrt::vec(l, "bytes");
    if let Ok(t) = Transaction::parse(&v) {
        let n = v[138] as usize;
        check(l >= 139 && n <= 32 && 139 + n <= l, "accepted bytes hold every field");
        let mut f = [0u8; 32];
        f[32 - n..].copy_from_slice(&v[139..139 + n]);
        let mut ts = [0u8; 8];
        ts.copy_from_slice(&v[66..74]);
        check(
            all!(
                eq(t.get_sender(), &v[0..33]),
                eq(t.get_receiver(), &v[33..66]),
                t.get_timestamp() == u64::from_be_bytes(ts),
                eq(t.get_signature(), &v[74..138]),
                eqn(t.get_amount(), &limbs(&f)),
                eq(t.get_data().unwrap_or(&[]), &v[139 + n..]),
            ),
            "accepted bytes are read field by field",
        );
        let d = t.dump().unwrap();
        check(eq(&t.hash(), &symrt::sha256(&d)), "hash of a decoded transaction is SHA-256 of its encoding");
        match Transaction::parse(&d[1..]) {
            Ok(p) => check(
                all!(
                    eq(p.get_sender(), t.get_sender()),
                    eq(p.get_receiver(), t.get_receiver()),
                    p.get_timestamp() == t.get_timestamp(),
                    eq(p.get_signature(), t.get_signature()),
                    eqn(p.get_amount(), t.get_amount()),
                    eq(p.get_data().unwrap_or(&[]), t.get_data().unwrap_or(&[])),
                ),
                "accepted bytes decode to the same values after re-encoding",
            ),
            Err(_) => check(false, "re-encoded bytes decode"),
        }
        cover("accepted");
    } else {
        cover("refused");
    }
}

// ------------------------------------------------------------------- P02
pub struct Info {
    pub b: BasicInfo,
    pub enc: Vec<u8>,
}
pub fn info(sizes: &[usize]) -> Info {
    let (height, henc) = u256_among(sizes, "height");
    let ts = symrt::u64("ts");
    let pow: [u8; 32] = symrt::bytes("pow");
    let prev: [u8; 32] = symrt::bytes("prev");
    let diff: [u8; 32] = symrt::bytes("difficulty");
    let founder: [u8; 33] = symrt::bytes("founder");
    let mut enc = ts.to_be_bytes().to_vec();
    enc.extend_from_slice(&prev);
    enc.extend_from_slice(&pow);
    enc.extend_from_slice(&diff);
    enc.extend_from_slice(&founder);
    enc.extend_from_slice(&henc);
    Info { b: BasicInfo::new(ts, pow, prev, height, diff, founder), enc }
}
pub fn same_info(a: &BasicInfo, b: &BasicInfo) -> bool {
    all!(
        a.timestamp == b.timestamp,
        eq(&a.pow, &b.pow),
        eq(&a.previous_hash, &b.previous_hash),
        eqn(&a.height, &b.height),
        eq(&a.difficulty, &b.difficulty),
        eq(&a.founder, &b.founder),
    )
}
fn basic_info(i: &Info) {
    let mut v = Vec::new();
    check(i.b.dump(&mut v).is_ok(), "block info encodes");
    check(eq(&v, &i.enc), "block info has the documented layout");
    check(i.b.get_dump_size() == v.len(), "size of block info is exact");
    match BasicInfo::parse(&v) {
        Ok(p) => check(same_info(&p, &i.b), "block info decodes to itself"),
        Err(_) => check(false, "encoded block info decodes"),
    }
}
pub fn h_p02_info() {
    basic_info(&info(&ALL_SIZES));
}
fn tx_block(hs: &[usize], fs: &[usize], ns: &[usize]) {
    let i = info(hs);
    let (fee, fenc) = u256_among(fs, "fee");
    let root: [u8; 32] = symrt::bytes("root");
    let n = ns[choice(ns.len() as u64, "txs") as usize];
    let txs: Vec<[u8; 32]> = (0..n).map(|_| symrt::bytes("tx")).collect();
    let mut enc = vec![2u8];
    enc.extend_from_slice(&root);
    enc.extend_from_slice(&i.enc);
    enc.extend_from_slice(&fenc);
    for t in &txs {
        enc.extend_from_slice(t);
    }
    let b = TransactionBlock::new(fee, i.b.clone(), root, txs.clone());
    let d = match b.dump() {
        Ok(d) => d,
        Err(_) => return check(false, "every block encodes"),
    };
    check(eq(&d, &enc), "transaction block has the documented layout");
    check(b.get_dump_size() == d.len(), "size of a transaction block is exact");
    check(Block::get_dump_size(&b) == d.len(), "size of a transaction block is exact");
    check(b.hash().map(|h| eq(&h, &symrt::sha256(&enc))).unwrap_or(false), "hash is SHA-256 of the encoding");
    let same = |p: &dyn Block| {
        let mut r = all!(
            same_info(p.get_info(), &i.b),
            eq(&p.get_merkle_root(), &root),
            eqn(&p.get_fee(), &fee),
            eq(p.get_founder(), &i.b.founder),
            matches!(p.get_type(), Headers::TransactionBlock),
        );
        match p.transactions() {
            Some(t) if t.len() == n => {
                for k in 0..n {
                    r &= eq(&t[k], &txs[k]);
                }
            }
            _ => r = false,
        }
        r
    };
    check(same(&b), "the getters return what was given");
    match TransactionBlock::parse(&d[1..]) {
        Ok(p) => check(same(&p), "a transaction block decodes to itself"),
        Err(_) => check(false, "an encoded transaction block decodes"),
    }
    match deserialize_main_chain_block(&d) {
        Ok(p) => check(same(&*p), "the main-chain decoder returns the transaction block"),
        Err(_) => check(false, "the main-chain decoder accepts a transaction block"),
    }
}
pub fn h_p02_txblock() {
    tx_block(&ALL_SIZES, &[0, 3], &[0, 1, 3]);
}
pub fn h_p02_txblock_many() {
    tx_block(&[1], &[2], &[2, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 2048]);
}
pub fn h_p02_txblock_fee() {
    tx_block(&[0, 4], &ALL_SIZES, &[0, 2]);
}
pub fn t_p02_txblock() {
    tx_block(&ALL_SIZES, &ALL_SIZES, &[0, 1, 2, 5]);
}
pub fn h_p02_summary() {
    let i = info(&ALL_SIZES);
    let root: [u8; 32] = symrt::bytes("root");
    let mut enc = vec![4u8];
    enc.extend_from_slice(&root);
    enc.extend_from_slice(&i.enc);
    let b = SummarizeBlock { default_info: i.b.clone(), merkle_tree_root: root };
    let d = b.dump().unwrap();
    check(eq(&d, &enc), "summary block has the documented layout");
    check(b.get_dump_size() == d.len(), "size of a summary block is exact");
    check(b.hash().map(|h| eq(&h, &symrt::sha256(&enc))).unwrap_or(false), "hash is SHA-256 of the encoding");
    let same = |p: &dyn Block| {
        all!(
            same_info(p.get_info(), &i.b),
            eq(&p.get_merkle_root(), &root),
            eq(p.get_founder(), &i.b.founder),
            p.transactions().is_none(),
            eqn(&p.get_fee(), &small(0)),
            matches!(p.get_type(), Headers::SummarizeBlock),
        )
    };
    check(same(&b), "the getters return what was given");
    match SummarizeBlock::parse(&d[1..]) {
        Ok(p) => check(same(&p), "a summary block decodes to itself"),
        Err(_) => check(false, "an encoded summary block decodes"),
    }
    match deserialize_main_chain_block(&d) {
        Ok(p) => check(same(&*p), "the main-chain decoder returns the summary block"),
        Err(_) => check(false, "the main-chain decoder accepts a summary block"),
    }
}
pub fn h_p02_derivative() {
    let i = info(&ALL_SIZES);
    let mut enc = vec![3u8];
    enc.extend_from_slice(&i.enc);
    let b = DerivativeBlock { default_info: i.b.clone() };
    let d = b.dump().unwrap();
    check(eq(&d, &enc), "derivative block has the documented layout");
    check(b.get_dump_size() == d.len(), "size of a derivative block is exact");
    check(b.hash().map(|h| eq(&h, &symrt::sha256(&enc))).unwrap_or(false), "hash is SHA-256 of the encoding");
    check(
        all!(
            same_info(b.get_info(), &i.b),
            eq(b.get_founder(), &i.b.founder),
            b.transactions().is_none(),
            matches!(b.get_type(), Headers::DerivativeBlock),
        ),
        "the getters return what was given",
    );
    match DerivativeBlock::parse(&d[1..]) {
        Ok(p) => check(same_info(&p.default_info, &i.b), "a derivative block decodes to itself"),
        Err(_) => check(false, "an encoded derivative block decodes"),
    }
    check(deserialize_main_chain_block(&d).is_err(), "the main-chain decoder refuses a derivative block");
}
/// kinds and refusals of the main-chain decoder, for arbitrary bytes
pub fn h_p02_dispatch() {
    let lens = [0usize, 1, 2, 138, 139, 140, 171, 172, 173, 204, 205, 236, 237, 300, 512, 1000];
    let l = lens[choice(lens.len() as u64, "len") as usize];
    let v = symrt::vec(l, "bytes");
    match deserialize_main_chain_block(&v) {
        Ok(b) => {
            let want = match b.get_type() {
                Headers::TransactionBlock => 2,
                Headers::SummarizeBlock => 4,
                _ => 255,
            };
            check(v[0] == want, "the decoder returns the kind its type byte names");
            check(b.transactions().is_some() == (v[0] == 2), "only transaction blocks carry transactions");
            if want == 2 {
                cover("transaction block");
            } else {
                cover("summary block");
            }
        }
        Err(_) => {
            cover("refused");
        }
    }
}

// ------------------------------------------------------------------- P03
/// the decoders, total on every byte string of the lengths
fn total(what: u64, lens: &[usize]) {
    let l = lens[choice(lens.len() as u64, "len") as usize];
    let v = symrt::vec(l, "bytes");
    let ok = attempt(|| match what {
        0 => Transaction::parse(&v).is_ok(),
        1 => BasicInfo::parse(&v).is_ok(),
        2 => TransactionBlock::parse(&v).is_ok(),
        3 => SummarizeBlock::parse(&v).is_ok(),
        4 => DerivativeBlock::parse(&v).is_ok(),
        5 => deserialize_main_chain_block(&v).is_ok(),
        6 => tools::load_u256(&v).is_ok(),
        _ => tools::load_biguint(&v).is_ok(),
    });
    check(!ok.panicked(), "the decoder never panics");
    if ok.done() == Some(true) {
        cover("accepted");
    } else {
        cover("refused");
    }
}
const LONG: [usize; 10] = [255, 256, 257, 268, 300, 400, 511, 512, 1000, 4096];
fn upto(n: usize) -> Vec<usize> {
    (0..=n).collect()
}
pub fn h_p03_transaction() {
    let mut l = upto(143);
    l.extend([147, 148, 156, 170, 171, 172, 173]);
    l.extend(LONG);
    total(0, &l);
}
pub fn t_p03_transaction() {
    total(0, &upto(180));
}
pub fn h_p03_info() {
    let mut l = upto(142);
    l.extend([146, 169, 170, 171]);
    l.extend(LONG);
    total(1, &l);
}
pub fn h_p03_txblock() {
    let mut l = upto(174);
    l.extend([187, 203, 204, 205, 236]);
    l.extend(LONG);
    total(2, &l);
}
pub fn t_p03_txblock() {
    total(2, &upto(300));
}
pub fn h_p03_summary() {
    let mut l = upto(174);
    l.extend([202, 203, 204]);
    l.extend(LONG);
    total(3, &l);
}
pub fn h_p03_derivative() {
    let mut l = upto(142);
    l.extend([146, 169, 170, 171]);
    l.extend(LONG);
    total(4, &l);
}
pub fn h_p03_main() {
    let mut l = upto(173);
    l.extend([188, 204, 205, 236]);
    l.extend(LONG);
    total(5, &l);
}
pub fn h_p03_u256() {
    let mut l = upto(40);
    l.extend(LONG);
    total(6, &l);
}
pub fn h_p03_biguint() {
    let mut l = upto(40);
    l.extend([64, 127, 128, 129, 254]);
    l.extend(LONG);
    total(7, &l);
}
