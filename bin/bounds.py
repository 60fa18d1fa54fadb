"""What each entry ranges over, what lies outside, and what is assumed."""
BOUNDS = {
    # P01
    'p01_roundtrip': 'all fields, amounts of every encoded size 0..32 bytes, payloads of 0, 1, 7 bytes (thorough: 0..80)',
    'p01_payload': 'payloads of 12 lengths up to 200 bytes, all contents',
    'p01_long': 'payloads of 11 lengths up to 65536 bytes, all contents',
    'p01_decode': 'all byte strings of 14 lengths from 138 to 1000',
    # P02
    'p02_info': 'all headers, heights of every size',
    'p02_txblock': 'all headers, heights of every size, fees of 0 and 3 bytes, 0, 1, 3 transactions',
    'p02_txblock_fee': 'fees of every size',
    'p02_txblock_many': '22 numbers of transactions up to 2048',
    'p02_summary': 'all headers, heights of every size',
    'p02_derivative': 'all headers, heights of every size',
    'p02_dispatch': 'all byte strings of 16 lengths up to 1000',
    # P03
    'p03_transaction': 'all byte strings of lengths 0..143 and 17 further ones up to 4096 (thorough: 0..180)',
    'p03_info': 'all byte strings of lengths 0..142 and 14 further ones up to 4096',
    'p03_txblock': 'all byte strings of lengths 0..174 and 15 further ones up to 4096 (thorough: 0..300)',
    'p03_summary': 'all byte strings of lengths 0..174 and 13 further ones up to 4096',
    'p03_derivative': 'all byte strings of lengths 0..142 and 14 further ones up to 4096',
    'p03_main': 'all byte strings of lengths 0..173 and 14 further ones up to 4096',
    'p03_u256': 'all byte strings of lengths 0..40 and 10 further ones up to 4096',
    'p03_biguint': 'all byte strings of lengths 0..40 and 15 further ones up to 4096',
    # P04
    'p04_u256': 'all numbers below 2^256, with 0 or 3 bytes before and 0, 2, 4, 33 or 260 behind',
    'p04_u256_decode': 'all byte strings of 17 lengths up to 300',
    'p04_biguint': 'all numbers of 19 sizes up to 257 bytes (thorough: every size to 260)',
    'p04_biguint_decode': 'all byte strings of 18 lengths up to 300',
    # P05
    'p05_own': 'every key, amount, time; payload none, 0, 1, 9 bytes',
    'p05_altered': 'any one field replaced by any other value; amounts of 0, 1, 9, 32 bytes, payloads of up to 9 bytes',
    'p05_sizes': 'the same, amounts of every size against every other',
    'p05_long': 'the same, payloads of 18 lengths up to 1000 bytes against each other',
    'p05_forged': 'all fields replaced at once',
    'p05_wrong_key': 'every sender other than the public key of the signing key',
    'p05_bad_key': 'every 32-byte string as a key',
    # P06
    'p06_step': 'all 256 thresholds retargeting produces, all pairs of times',
    'p06_any': 'every 32-byte threshold, all pairs of times',
    # P07
    'p07_exact': 'every hash, threshold and digest; 0..2 transactions, nonces of 0, 1, 32 bytes',
    'p07_more': '17 numbers of transactions up to 256 and 18 nonce lengths up to 300, three thresholds',
    # P08
    'p08_root': 'all lists of 0..33 hashes (thorough: 0..299)',
    'p08_root_large': 'all lists of 12 lengths from 63 to 512',
    'p08_member': 'all lists of 1..6 hashes with every pattern of equal ones (thorough: 1..16)',
    'p08_member_large': 'lists of 13 lengths from 7 to 100 (two tag bytes fixed), one hash possibly twice, every member',
    'p08_verify': 'all hashes, roots and proofs of 1..12 siblings (thorough: 24)',
    # P09
    'p09_binding': 'all pairs of lists of 1..3 hashes of equal tree height',
    'p09_related': 'lists of 1..5 hashes and what comes of replacing, removing, appending, rotating, swapping, overwriting',
    'p09_related_large': 'lists of 7, 8, 9, 16, 17 hashes and what comes of replacing, removing, appending',
    'p09_heights': 'lists of 0..3 hashes against lists of 1, 2, 3, 4, 7, 8',
    'p09_outsider': 'lists of 1..3 hashes, every other hash, every proof get_proof gives',
    'p09_outsider_large': 'lists of 4 and 7 hashes, likewise',
    # P10
    'p10_transactions': 'every block with 0..3 transactions over every transaction block; thresholds of 1, 2, 8, 256 bits',
    'p10_many': '13 numbers of transactions up to 256; predecessors with 0, 2, 7, 33',
    'p10_heights': 'heights of every size, all three kinds',
    'p10_kinds': 'every kind over every kind; thresholds of 1, 9, 255 bits',
    'p10_bits': 'thresholds of 8, 16 .. 256 bits (thorough: all)',
    'p10_any_difficulty': 'every 32-byte threshold with 0, 1, 31 or 32 zero bytes in front (thorough: every number)',
    'p10_first': 'every block without predecessor',
    # P11
    'p11_over': 'every last block of both kinds, thresholds of 1, 2, 8 bits, 0..2 transactions, every nonce, time, founder',
    'p11_bits': 'thresholds of 8, 16 .. 256 bits (thorough: all)',
    'p11_many': '13 numbers of transactions up to 256',
    'p11_later': 'the 19th block of a chain',
    'p11_heights': '20 heights up to 2^255',
    'p11_any_difficulty': 'every 32-byte threshold with 0, 1, 31 or 32 zero bytes in front',
    'p11_first': 'the first block after genesis, 0..3 transactions',
    'p11_two': 'the first two blocks (thorough: three)',
    # P12 P13
    'p12_genesis': 'a new chain, every other height and hash',
    'p12_history': 'every sequence of 2 (thorough: 4) additions of either kind at the right or any other height; every query',
    'p12_high': 'every existing height below 255*2^248, 2 additions',
    'p12_many': '70 (thorough: 300) additions, 4 of them arbitrary; every block again is refused; every query',
    'p13_history': 'every founding block; sequences of 2 (thorough: 4) additions as for P12',
    'p13_high': 'every existing height below 255*2^248, 2 additions',
    'p13_separate': 'two owners and the main chain, any blocks',
    'p13_many': '70 (thorough: 300) additions, 4 of them arbitrary',
    # P14 P15
    'p14_step': 'every operation over every pair of three accounts (unknown, 0 or 1 byte held), amounts up to 2 bytes',
    'p14_sizes': 'balances of every size, amounts of one byte',
    'p14_wide': '256-bit balances and amounts, the first and last 64 bits arbitrary, the middle running carries through',
    'p14_sequence': 'every sequence of 2 (thorough: 4) operations over two accounts',
    'p14_crowd': '20 accounts told apart by one byte each, 7 operations',
    'p14_amounts': 'amounts of every size between two rich accounts, their first byte arbitrary',
    'p15_step': 'as p14_step, for gas', 'p15_sizes': 'as p14_sizes, for gas', 'p15_wide': 'as p14_wide, for gas',
    'p15_sequence': 'as p14_sequence, for gas', 'p15_crowd': 'as p14_crowd, for gas', 'p15_amounts': 'as p14_amounts, for gas',
    'p15_mixed': 'every sequence of 2 operations on coins and gas of one account and the root',
    # P16
    'p16_coins': 'every pair of coin operations on two accounts of one-byte balances, the second at every storage step of the first',
    'p16_gas': 'the same for gas', 'p16_mixed': 'a coin and a gas operation',
    # P17
    'p17_gas': 'gas of 0, 5..8 and 32 bytes, payloads of 0, 1, 7, 40 bytes, amounts of 0, 1, 9 bytes',
    'p17_coins': 'balances of 3 bytes, amounts of 0 and 3, fee 0 or 16,000,000',
    'p17_fee': 'balances of 2..4 bytes against every fee of a difficulty with 1, 2, 8, 31 zero bytes',
    'p17_zeros': 'every number of leading zero bits; both kinds of last block',
    'p17_huge': 'payloads of 8 lengths up to 200000 of fixed content, 256 amounts of gas around the price',
    'p17_long': 'payloads of 11 lengths up to 4096',
    'p17_wide': '256-bit balances and amounts (as p14_wide)',
    'p17_parties': 'every sender and receiver of three accounts, also the same one',
    'p17_twice': 'two transactions in a row in either direction',
    # P18
    'p18_store': 'two transactions (or one twice), three ways to store them; every other hash',
    'p18_known': 'three transactions with every pattern of equal ones, in two steps',
    'p18_long': 'payloads of 14 lengths up to 4096', 'p18_many': '20 transactions in two steps around a block',
    'p18_sizes': 'amounts of every size', 'p18_refused': 'a block at any other height', 'p18_empty': 'an empty chain, every hash',
    # P19
    'p19_main': '0..2 arbitrary blocks and a transaction, closed or killed after the flush, twice',
    'p19_derivative': 'every founding block, 0..2 arbitrary blocks, likewise',
    'p19_high': 'every height', 'p19_tree': 'main and derivative chain, two accounts, any balances up to 32 bytes',
    'p19_more': '9 accounts, 5 derivative chains, 10 blocks, 9 transactions, three rounds',
    'p19_reopen': 'any balance of the root account, opened three times',
    # P20
    'p20_main': '2 arbitrary blocks, each flushed (thorough: 3); death at every storage step, any surviving prefix',
    'p20_long': '10 blocks, flushed after the 4th and 8th, death in the last flush',
    'p20_again': 'death in a flush and again during recovery', 'p20_unflushed': '2 blocks, nothing flushed',
    'p20_derivative': '2 arbitrary blocks of a derivative chain', 'p20_create': 'death while the folder is created',
    'p20_tree': 'death in the second flush of a tree',
    'p20_epoch': 'an emission and a flush at the first epoch boundary, two accounts, death at any step, any surviving prefix per database',
    # P21
    'p21_queue': '3 transactions with every pattern of equal ones, every sequence of 5 operations',
    'p21_large': '40 transactions with ties and one of any time, three capacities', 'p21_drain': '4 transactions of any times, in and out (thorough: 5, with ties)',
    # P22
    'p22_accounts': 'the root and 2 accounts, every subset known to either ledger, one-byte balances, every order of addresses',
    'p22_sizes': 'the root account with balances of 0, 2, 8, 9, 31, 32 bytes', 'p22_many': 'up to 34 accounts (concrete addresses)',
    'p22_heights': '5 boundaries up to 2^255, thresholds of 1, 8, 256 bits, with and without transactions',
    'p22_off': '8 heights that are no boundary', 'p22_any_height': 'every height of 1..3 bytes (thorough: 8)',
    'p22_twice': 'two boundaries, balances changing between them',
    # P23
    'p23_first': 'the first block of a founder over any last main block', 'p23_two': 'the first two (thorough: 4)',
    'p23_bits': 'thresholds of 1, 2, 7, 8, 16 .. 256 bits (thorough: all)', 'p23_later': 'the 19th block of a chain of its own',
    'p23_founders': 'two founders that differ in any one byte', 'p23_founding': 'main chain moving on, reopening',
    # P24
    'p24_lz': 'all byte strings of 0..35 bytes', 'p24_lz_long': '11 lengths up to 300, 7 runs of zeros, the rest arbitrary',
    'p24_fee': 'every 32-byte difficulty',
    # P25
    'p25_roundtrip': 'contents of 0, 1, 2, 31, 32, 33, 70 bytes over nothing, any file, or a compressed one',
    'p25_large': '20 lengths up to 200000, 12 arbitrary bytes in a pattern', 'p25_missing': 'no file, no folder',
    'p25_truncated': 'every cut of four contents', 'p25_foreign': 'any bytes of six lengths without the magic number',
    'p25_crash': 'death at every file operation', 'p25_faults': 'any one file operation failing, or one short write, of writing or reading 0, 1, 9 bytes',
    # P26
    'p26_step': 'every sequence of 2 operations, any two addresses, amounts of 0, 1, 32 bytes', 'p26_sizes': 'balances of every size',
    'p26_crowd': '20 accounts, 8 operations, flush and death', 'p26_fault': 'an I/O error at any of the first 4 steps',
    # P27
    'p27_two_writers': 'two arbitrary blocks, the second added at any lock or storage step of the first',
    'p27_two_writers_derivative': 'the same for a derivative chain', 'p27_reader_inside': 'four readers at any step of an addition',
    'p27_writer_inside': 'an addition at any step of four readers', 'p27_derivative': 'both for a derivative chain',
    'p27_flush': 'a flush in an addition and the other way round, then death',
    # P28
    'p28_balance': 'every operation on two accounts, an I/O error at any of the first 8 steps', 'p28_reads': 'both balances',
    'p28_block': 'an arbitrary block, an error at any of the first 8 steps', 'p28_derivative': 'the same for a derivative chain',
    'p28_flush': 'an error at any of the first 16 steps of a flush', 'p28_flush_chains': 'with two derivative chains, first 20 steps',
    'p28_files': 'any one file operation of a flush failing or writing short, then death', 'p28_files_derivative': 'the same for a derivative chain',
    'p28_open': 'any one file operation, or an error at any of the first 12 storage steps, of opening a tree with two accounts and 0 or 1 block',
    'p28_open_derivative': 'the same for a derivative chain with 0..2 blocks',
    'p28_lookups': '14 lookups, an error at any of the first 3 steps',
    'p28_emission': 'a block on top of one, every nonce and time, any one file operation or any of the first 8 storage steps failing',
    'p28_emission_derivative': 'first and second block of two founders, likewise',
    'p28_epoch': 'the first epoch boundary, two accounts, flushed before or not, any one file operation or any of the first 24 storage steps failing',
    # P29
    'p29_pair': 'every pair of transactions', 'p29_triple': 'every triple',
    # P30
    'p30_one': 'each of 6 operations on any balances', 'p30_sends': 'a transaction followed by another or a send (thorough: any two of 6)',
    'p30_at_once': 'a transaction with another or a send at any of its lock or storage steps, 24-bit coins and amounts with 16 arbitrary bits, gas for none, one or both',
    'p30_fault': 'an error at any of the first 16 steps of a transaction',
    # P31
    'p31_main': '3 blocks, each through any of 4 handles, and a transaction', 'p31_derivative': '3 blocks, each through any of 4 handles',
    'p31_flush': 'three ways to flush, then death',
    # P32
    'p32_copy': '6 trees of up to 5 entries, files of 0, 1, 40 arbitrary bytes, two targets', 'p32_over': '4 trees over one that exists',
    'p32_large': 'a file of 6 lengths up to 131073 and 40 small ones', 'p32_missing': 'no source',
    'p32_faults': 'any one file operation failing, or one short write, 3 trees, with and without a target',
    # P33
    'p33_coins': 'every pair of operations with a flush between, death at any step, any surviving prefix per database',
    'p33_gas': 'the same for gas', 'p33_first': 'a block and two flushes on a new tree',
    'p33_epoch': 'an emission at the first epoch boundary, two accounts with coins and gas, death at any step, any surviving prefix per database',
    # P34
    'p34_order': 'every triple of blocks of any kinds',
    # P35
    'p35_new': 'every address, every transaction hash, three founders, all heights and hashes',
    'p35_again': 'the same after reopening, after a flush and death, and after death at any step of the creation',
    'p35_two': 'the same with a used tree in another folder, any amounts and block there',
    # P36
    'p36_main': 'any content of 11 lengths from 0 to 97 (a first byte of 255 excepted), a chain of two blocks',
    'p36_derivative': 'the same, a chain of one block',
}
BOUNDS = {h + k: v for k, v in BOUNDS.items() for h in ('h_', 't_', 'k_')}
BOUNDS['k_p09_and'] = 'all pairs of lists of two hashes (known finding)'
BOUNDS['k_p09_levels'] = 'all lists of two hashes and the list of one made from them (known finding)'
OUTSIDE = {
    'P01': 'payloads of other lengths than listed; encodings longer than 1000 bytes when decoding arbitrary ones',
    'P02': 'more than 2048 transactions in a block',
    'P03': 'lengths not listed',
    'P04': 'numbers above 255 bytes other than 256 and 257 (refused); buffers longer than listed',
    'P05': 'the signature scheme itself (ideal; N01); public keys that are no curve points are accepted by the model',
    'P06': 'nothing: every threshold and every pair of times is covered',
    'P07': 'numbers of transactions and nonce lengths not listed',
    'P08': 'lists longer than 512 (299 in one sweep)',
    'P09': 'pairs of lists without relation above 3 hashes; the two known findings are assumed away from the other entries; DerivativeBlock::get_merkle_root is unimplemented!() in the repository',
    'P10': 'more than 256 transactions',
    'P11': 'digests with more than a byte of zeros past the limit (the comparison itself is P07)',
    'P12': 'histories longer than listed; existing heights from 255*2^248',
    'P13': 'as P12',
    'P14': 'numbers of two and more symbolic bytes against each other only in the listed combinations; wide numbers have semi-concrete middle limbs',
    'P15': 'as P14',
    'P16': 'more than two operations at once, and a second operation that is itself interrupted; send_transaction (several ledgers, a TODO in the code says it is not atomic; P30)',
    'P17': 'coins of sender and receiver together above 256 bits; concurrent transactions (P30)',
    'P18': 'more than 20 transactions; an I/O error between block and transactions',
    'P19': 'larger histories',
    'P20': 'databases lose a suffix of their unflushed writes, not an arbitrary subset (N02)',
    'P21': 'larger pools',
    'P22': 'accounts that have gas but never had coins are not summarised (the code walks the coin ledger)',
    'P23': 'founders that differ in more than one byte',
    'P24': 'other lengths', 'P25': 'the compression library itself (contract)', 'P26': 'longer sequences',
    'P27': 'more than two users; a second operation that is itself interrupted',
    'P28': 'two failures in one operation; send_transaction (P30)', 'P29': 'nothing: every triple is covered', 'P30': 'longer sequences; crashes (P33); more than two transactions at once',
    'P31': 'longer sequences', 'P32': 'symbolic links, permissions, a target inside the source, two failing operations',
    'P33': 'the ledgers of coins and gas are each consistent, not with one another', 'P34': 'nothing', 'P35': 'more than two trees',
    'P36': 'damage to the databases themselves (N02); heights from 255*2^248',
}
ASSUME = {'*': [
    'The LLVM IR that rustc emits for /repo at opt-level 1 with overflow checks means what the machine code does; the engine interprets it faithfully (sampled paths are run natively on every run).',
    'Third-party crates sled, tokio, secp256k1, sha2, parking_lot, zstd are replaced by models of their documented contract (/verif/model); SHA-256 is a collision-free function, computed for real where its input is concrete.',
    'HashMap/HashSet hashing is replaced by a constant hash (content decides), allocation never fails.',
]}
