#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the lines stay readable)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('P01','Transaction wire format is lossless',
 "Encoding a transaction and decoding the result (after the type byte) gives back the same sender, receiver, time, signature, amount, payload and hash, an empty payload counting as none; the encoding follows the documented field order, its reported size is its exact length, and the transaction's hash is SHA-256 of it. Any bytes the decoder accepts describe a transaction that decodes to the same values again after re-encoding.",
 ['inputs'],'every sender, receiver, timestamp, signature, 256-bit amount and payload (length bounded)',
 'Tests round-trip one or two hand-written transactions; amount has 33 encoded lengths and the payload any length, and zero amounts and payload boundaries are never tried.',
 ['src/transaction.rs','src/tools.rs'],[('Transaction dump/parse/get_dump_size','src/transaction.rs'),('dump_u256/load_u256','src/tools.rs')])
p('P02','Block wire formats are lossless',
 "Encoding any of the three kinds of block and decoding it gives back every field, starts with that kind's type byte, has exactly the reported size, and the block's hash is SHA-256 of the encoding. The main-chain decoder returns the kind its type byte names and refuses derivative blocks, transactions and unknown types.",
 ['inputs'],'every header field value, 256-bit height and fee, and transaction list (length bounded); every type byte',
 'Tests round-trip one block of each kind with fixed field values; height and fee have 33 encoded lengths each.',
 ['src/block.rs','src/tools.rs','src/dump_headers.rs'],[('BasicInfo dump/parse','src/block.rs'),('Block::dump/parse of each kind','src/block.rs'),('deserialize_main_chain_block','src/block.rs')])
p('P03','Decoders are total on untrusted bytes',
 "Every decoder of transactions, blocks and big integers, given any bytes at all, returns a value or an error: it never panics and never reads outside its input.",
 ['inputs'],'every byte string up to the length bound, for every decoder',
 'Tests decode only encodings that the library itself just produced; truncated or hostile input is never tried.',
 ['src/transaction.rs','src/block.rs','src/tools.rs'],[('Transaction::parse','src/transaction.rs'),('TransactionBlock/DerivativeBlock/SummarizeBlock::parse, deserialize_main_chain_block','src/block.rs'),('load_u256, load_biguint','src/tools.rs')])
p('P04','Big-integer encoding is exact and self-delimiting',
 "A 256-bit integer encodes to one length byte followed by that many big-endian bytes without leading zeros (zero is a single zero byte), and arbitrary-size integers of up to 255 bytes likewise (their zero is one zero byte long); the reported size is the exact encoded length. Decoding from a buffer with anything after the encoding returns the same number and how many bytes were used.",
 ['inputs'],'every 256-bit value (and big integers up to the bound), with any following bytes',
 'The tests round-trip a single value.',
 ['src/tools.rs'],[('dump_u256/load_u256/u256_size, dump_biguint/load_biguint/bigint_size','src/tools.rs')])
p('P05','Signatures authenticate every field of a transaction',
 "A transaction created with the key of its sender verifies, also after being encoded and decoded. If sender, receiver, time, amount, payload or signature is changed in any way, it no longer verifies, and a transaction signed with a key that is not the sender's never verifies.",
 ['inputs'],'every key, field values and every alteration of any field (payload length bounded), relative to an ideal signature scheme and hash',
 'The tests verify one correctly signed transaction; no alteration is ever tried.',
 ['src/transaction.rs'],[('generate_signature / hash_without_signature / verify','src/transaction.rs')])
p('P06','Difficulty retargeting moves by exactly one step, within its limits',
 "After a block that took less than the target time the required number of leading zero bits grows by one, after one that took longer it drops by one, and at exactly the target it stays, for every threshold that retargeting can reach (a run of zero bits followed by ones), between the easiest (one zero bit) and the hardest (all zero). The rule is defined for every other threshold and every pair of times too (a time before the previous one counts as no time passed): it never fails, leaves the threshold as it is at exactly the target, and otherwise never moves in the wrong direction, by more than one bit when easing, or past the easiest.",
 ['inputs'],'every 32-byte threshold and every pair of 64-bit timestamps',
 'Four hand-picked thresholds with three time differences are tested, out of 2^256 x 2^128.',
 ['src/tools.rs','src/static_values.rs'],[('recalculate_difficulty','src/tools.rs')])
p('P07','Proof of work is accepted exactly at the threshold',
 "A proof of work is accepted if and only if the SHA-256 of previous hash, transaction Merkle root and nonce has at least as many leading zero bits as the threshold; so it depends on every one of these inputs, and an easier threshold never rejects what a harder one accepts.",
 ['inputs'],'every previous hash, threshold, nonce (length bounded) and transaction list (length bounded)',
 'Tests search for a nonce that passes at the easiest threshold (one bit); rejection near the limit is not tested.',
 ['src/tools.rs'],[('check_pow, count_leading_zeros','src/tools.rs')])
p('P08','Merkle roots and inclusion proofs are complete and exact',
 "The Merkle root of a list of hashes is the root of the documented padded tree over them; for every list and every member of it the produced proof is accepted against the root; and verification accepts exactly those proofs whose recomputed root equals the given one.",
 ['inputs'],'every list of hashes up to the length bound, every member position, every claimed root and proof up to the depth bound',
 'Tests build trees of a few fixed leaves and check one proof each.',
 ['src/merkletree.rs'],[('build_tree, get_proof, verify_proof','src/merkletree.rs')])
p('P09','A Merkle root commits to one transaction list',
 "Two different lists of transaction hashes (none of them the all-ones padding value) never have the same Merkle root, and no proof made from the tree is accepted for a hash that is not in the list, as long as SHA-256 does not collide.",
 ['inputs'],'every pair of lists up to the length bound; every claimed member and proof made from the tree',
 'Tests only check that genuine members verify.',
 ['src/merkletree.rs'],[('node combination in build_tree and verify_proof','src/merkletree.rs')])
p('P10','A block is valid exactly when it extends its predecessor by the rules',
 "Validation of a block of any kind against its predecessor returns true if and only if it names the hash of the predecessor, its Merkle root matches its transactions (transaction blocks), its difficulty is the predecessor's after retargeting, and its proof of work, over the hash of the predecessor, meets the predecessor's difficulty. It always gives an answer.",
 ['inputs'],'every block and predecessor of each kind (transaction list bounded)',
 'No existing test calls validation with a predecessor.',
 ['src/block.rs','src/tools.rs'],[('Block::validate of each kind','src/block.rs'),('check_pow, recalculate_difficulty','src/tools.rs')])
p('P11','Emitting a main-chain block extends the chain by one valid block',
 "When a new main-chain block is emitted successfully, its proof of work met the last block's difficulty, it is stored as the new last block one higher than before, it names the previous block's hash, carries the given time, founder, nonce and transactions with their Merkle root, and the retargeted difficulty and the fee for it, and it passes validation against its predecessor. Emission with a proof of work that is too weak, or without transactions off the epoch boundary, fails and leaves chain and balances as they were.",
 ['inputs','histories'],'every last block, time, founder, nonce and transaction list (bounded)',
 'One test emits blocks with freshly mined one-bit proofs and only reads back the height.',
 ['src/blockchaintree.rs','src/chain.rs','src/block.rs'],[('emmit_new_main_block','src/blockchaintree.rs'),('MainChain::add_block','src/chain.rs')])
p('P12','Main-chain store answers are those of an append-only list',
 "After any sequence of block additions, looking a block up by height or by its hash returns exactly the block added at that height, or nothing if there is none, the last block is the one added last, and the height is the number of blocks. A block whose height is not the next one is refused and changes nothing.",
 ['inputs','histories'],'every sequence (bounded) of additions with arbitrary blocks, and every lookup height and hash',
 'Tests add two or three blocks at consecutive heights and look up existing ones only.',
 ['src/chain.rs'],[('MainChain::add_block/find_*/get_last_*','src/chain.rs')],
 state=[('blocks','block by height','src/chain.rs'),('height_reference','height by hash','src/chain.rs'),('height','number of blocks','src/chain.rs')])
p('P13','Derivative-chain store answers are those of an append-only list',
 "The same as for the main chain holds for every derivative chain, which starts empty and without a last block.",
 ['inputs','histories'],'every sequence (bounded) of additions with arbitrary blocks, and every lookup height and hash',
 'Tests add two blocks and look up existing ones only.',
 ['src/chain.rs'],[('DerivativeChain::add_block/find_*/get_last_*','src/chain.rs')])
p('P14','Coin balances follow exact arithmetic and transfers conserve coins',
 "Adding, setting, subtracting and sending coins change exactly the named accounts by exactly the given amount, an account never seen has zero, and a transfer (also to oneself) keeps the total. An operation that lacks the funds, or whose result would exceed 256 bits, returns an error and changes nothing (a transfer to oneself moves nothing and always succeeds).",
 ['inputs','histories'],'every pair of addresses (equal or not), every balance and amount, sequences up to the bound',
 'Tests use one pair of addresses and small amounts, and never overdraw.',
 ['src/blockchaintree.rs'],[('add_amount, set_amount, sub_amount, send_amount, get_amount','src/blockchaintree.rs')])
p('P15','Gas balances follow exact arithmetic and transfers conserve gas',
 "Adding, subtracting and sending gas change exactly the named accounts by exactly the given amount, an account never seen has zero, and a transfer (also to oneself) keeps the total. An operation that lacks the gas, or whose result would exceed 256 bits, returns an error and changes nothing (a transfer to oneself moves nothing and always succeeds); coins are never affected.",
 ['inputs','histories'],'every pair of addresses (equal or not), every balance and amount, sequences up to the bound',
 'Tests use one pair of addresses and small amounts, never overdraw and never send to the sender.',
 ['src/blockchaintree.rs'],[('add_gas, sub_gas, send_gas, get_gas','src/blockchaintree.rs')])
p('P16','Balance operations are atomic under concurrency',
 "If two balance operations run concurrently on one tree, the balances afterwards are those of running them one after the other in some order, whatever the interleaving of their storage accesses and however often a transaction has to be retried; no update is lost and no intermediate state is left.",
 ['schedules','inputs'],'every placement of one whole operation between any two storage steps of another, every retry, all amounts and address equalities',
 'All tests are single threaded.',
 ['src/blockchaintree.rs'],[('sled transactions around each balance change','src/blockchaintree.rs')])
p('P17','Sending a transaction is admitted and charged exactly',
 "A transaction is accepted only if its sender holds gas for every byte of its encoding and coins for its amount plus the current fee; then exactly the amount moves from sender to receiver, exactly the gas for its encoded length is taken from the sender, and the transaction can be fetched by its hash. A refused transaction changes no balance and is not stored.",
 ['inputs'],'every transaction (payload bounded), sender and receiver balance of coins (together at most 256 bits) and gas, and last-block difficulty',
 'One test sends a transaction from a rich account; refusals, exact limits and sending to oneself are not tested.',
 ['src/blockchaintree.rs','src/chain.rs','src/tools.rs'],[('send_transaction','src/blockchaintree.rs'),('recalculate_fee','src/tools.rs')])
p('P18','Stored transactions are found by their hash and only by it',
 "A transaction that was added, alone, in a list or with a block, is reported as existing and returned unchanged for its hash, and no other hash is answered.",
 ['inputs','histories'],'every set of transactions (bounded) and every queried hash',
 'Tests store fixed transactions and query only stored ones.',
 ['src/chain.rs','src/blockchaintree.rs'],[('add_transaction(s), transaction_exists, get_transaction(_raw)','src/chain.rs'),('add_new_block','src/blockchaintree.rs')])
p('P19','Flushed state survives reopening unchanged',
 "After a successful flush and reopening of the data folder, the main chain, every derivative chain, stored transactions, coin balances and gas balances are what they were; opening an existing folder changes nothing, in particular it creates no coins.",
 ['inputs','histories'],'every block, balance and difficulty content (bounded count) before the flush, and writes not yet handed to the operating system when the flush returns',
 'One test reopens a chain after fixed blocks; balances after reopening are not compared.',
 ['src/blockchaintree.rs','src/chain.rs'],[('flush, dump_config','src/chain.rs'),('BlockChainTree::new, MainChain::new, DerivativeChain::new','src/blockchaintree.rs')])
p('P20','A crash leaves an openable tree that is a prefix of what was done',
 "If the process dies at any point, also during a flush or an epoch change, the data folder can be opened again and the main chain is then a prefix of the blocks added that contains at least those covered by the last completed flush: every height below the chain height has its block, blocks link up, and hashes find the block they belong to or nothing.",
 ['crash_points','histories'],'a crash before or after every file-system change, with any part of the unflushed database writes surviving',
 'No test kills the process.',
 ['src/chain.rs','src/blockchaintree.rs'],[('order of config and database writes in flush/dump_config','src/chain.rs')])
p('P21','The transaction pool is an exact deduplicating oldest-first queue',
 "After any sequence of insertions and removals, the pool holds each inserted transaction once until it is removed, its size and membership answers agree with its content, re-inserting a held transaction is refused, and removal always yields the oldest one, ties going to the smaller hash (compared as four native-endian 64-bit words).",
 ['inputs','histories'],'every operation sequence up to the bound over arbitrary transactions',
 'One test pushes and pops three transactions with distinct times.',
 ['src/txpool.rs','src/transaction.rs'],[('TxPool push/pop/len/transaction_exists','src/txpool.rs'),('Ord for TransactionableItem','src/transaction.rs')])
p('P22','The epoch block summarises all balances and starts a new cycle',
 "At every epoch boundary, and only there, the emitted block is a summary block whose Merkle root is that of the coin and gas balance of every account of the coin ledger in address order; it takes no transactions. Afterwards the previous coin and gas balances are kept as the old snapshot, the root account has exactly the coins of a new cycle, and every other balance is unchanged.",
 ['inputs','histories'],'every height (bounded), set of accounts (bounded) and balances',
 'The epoch has 1,000,000 blocks, so no test ever reaches a boundary.',
 ['src/blockchaintree.rs','src/tools.rs','src/merkletree.rs'],[('summarize, rotate_dbs, emmit_new_main_block','src/blockchaintree.rs')])
p('P23','Emitting a derivative block extends exactly that owner\'s chain',
 "When a derivative block is emitted, its proof of work met the required difficulty, it is stored as the last block of its founder's chain at the next height with the previous block's hash (for the first one the hash of the main-chain block the chain was founded on), the retargeted difficulty and the given time and founder; no other chain changes. A weak proof of work is refused without any change.",
 ['inputs','histories'],'every founder, time, nonce and previous derivative or founding block',
 'One test emits for a single founder with freshly mined proofs and reads back the height.',
 ['src/blockchaintree.rs','src/chain.rs'],[('emmit_new_derivative_block, get_derivative_chain','src/blockchaintree.rs')])
p('P24','Fee and difficulty measure agree with leading zero bits',
 "The number of leading zero bits is computed exactly for every byte string, and the fee is the fee step times the leading zero bits of the difficulty.",
 ['inputs'],'every byte string up to the bound and every 32-byte difficulty',
 'Not tested beyond one value.',
 ['src/tools.rs'],[('count_leading_zeros, recalculate_fee','src/tools.rs')])
p('P25','Compressed files give back what was written',
 "Data compressed to a file is returned unchanged by decompressing that file, an existing file is fully replaced, and a missing, truncated or foreign file gives an error and never a panic. A file operation that fails, or writes only a part, is reported as an error or made up for.",
 ['inputs','crash_points','fault_sequences'],'every content up to the bound, every previous content of the file, a crash or failure at every file operation; relative to the contract of the compression library',
 'Not tested.',
 ['src/tools.rs'],[('compress_to_file, decompress_from_file','src/tools.rs')])
p('P26','The funds database adds and removes exact amounts',
 "Adding and removing funds in the funds database changes exactly the addressed account by exactly the amount, removing more than is held or from an unknown address, or adding beyond 256 bits, is an error that changes nothing. After an I/O error, which is reported, the balance is either the old or the new one. Every answer is given for any 33-byte address without a panic.",
 ['inputs','histories','fault_sequences'],'every address, balance and amount, sequences up to the bound, an I/O error at any storage step',
 'Not tested.',
 ['src/summary_db.rs'],[('SummaryDB get_funds/add_funds/decrease_funds','src/summary_db.rs')])
p('P27','Concurrent use of a chain never shows a torn state',
 "If a block is added to a chain while another user of the same chain reads or adds, no block is lost, at most one of two blocks for the same height is accepted, and every lookup answers with a block that was added, or with nothing.",
 ['schedules'],'every placement of one whole operation at any lock or storage step of another',
 'All tests are single threaded.',
 ['src/chain.rs'],[('height lock held across insertion','src/chain.rs')])
p('P28','Failed storage operations are reported and change no balance',
 "If a storage step of a coin or gas operation, of adding or emitting a block (at an epoch boundary too), of a lookup or of a flush fails with an I/O error, the caller gets an error rather than a panic or a wrong answer, balances and chain height are as before, and nothing is lost: a failed emission can be repeated, a later flush covers a failed one. Opening a data folder while its storage fails gives an error or all that is there, and loses nothing.",
 ['fault_sequences'],'a failure of any one storage step or file operation of each operation, all balances and amounts',
 'No test injects a fault.',
 ['src/blockchaintree.rs','src/chain.rs'],[('error propagation of storage transactions','src/blockchaintree.rs'),('add_block','src/chain.rs')])
p('P29','Transaction order is a total order consistent with equality',
 "Comparing transactions is antisymmetric, transitive and total: the older one comes first, equal times are ordered by hash (compared as four native-endian 64-bit words), and two compare equal exactly if time and hash agree.",
 ['inputs'],'every triple of transactions',
 'Not tested.',
 ['src/transaction.rs'],[('Ord/PartialOrd/PartialEq for TransactionableItem','src/transaction.rs')])
p('P30','Coin supply is conserved',
 "Sends, transactions, block emission off an epoch boundary and derivative blocks neither create nor destroy coins: the sum of all coin balances stays what it was, also over a flush and reopening; gas leaves circulation only by the fee of accepted transactions. If the storage fails while a transaction is carried out, the failure is reported, its amount has moved as a whole or not at all, only for a transaction that has been stored, and gas was taken only for an amount that moved. Two transactions at once, or a transaction and a send, do not create or destroy coins either: each amount moves once and whole or not at all, every accepted one has moved, and gas goes down exactly by the fees of those accepted.",
 ['inputs','histories','fault_sequences','schedules'],'every sequence up to the bound of sends, transactions and emissions over every set of balances and amounts, and an I/O error at any storage step of a transaction',
 'Tests move single fixed amounts and never add up what exists.',
 ['src/blockchaintree.rs'],[('send_transaction, send_amount, send_gas, emmit_new_main_block, emmit_new_derivative_block','src/blockchaintree.rs')])
p('P31','Every handle of a chain is the chain',
 "All handles of one chain - from the tree, cloned, or asked for again - show the same blocks, transactions and height at all times, a flush through any of them covers everything done through all of them, and a handle stays usable after the tree it came from is gone.",
 ['inputs','histories'],'every sequence of additions and lookups through two handles (bounded), all block contents',
 'Tests keep one handle, or take a new one only for reading a height.',
 ['src/blockchaintree.rs','src/chain.rs'],[('get_main_chain, get_derivative_chain, Clone of the chains','src/blockchaintree.rs'),('shared height and databases','src/chain.rs')])
p('P32','Copying a folder is exact',
 "Copying a folder gives the target the same files and folders with the same contents, leaves the source as it was, replaces files of the same name and keeps others, and reports an error if the source does not exist or a file operation fails.",
 ['inputs','fault_sequences'],'every content of the files of source and target (bounded sizes and depth), and a failure of any one file operation',
 'Not tested.',
 ['src/tools.rs'],[('copy_dir_all','src/tools.rs')])
p('P33','A crash leaves the balances of some moment',
 "If the process dies at any point, also during an epoch change, the coin balances and the gas balances found after opening the data folder again are each those after one of the operations done, not earlier than the last completed flush; the coins of the first cycle are always there.",
 ['crash_points','histories'],'a crash before or after every storage step, with any prefix of the unflushed writes of each database surviving, all balances and amounts',
 'No test kills the process.',
 ['src/blockchaintree.rs'],[('one database transaction per balance change; flush','src/blockchaintree.rs'),('first coins in BlockChainTree::new','src/blockchaintree.rs')])
p('P34','Blocks are ordered by their time',
 "Blocks compare by timestamp whatever their kind: the order is total, antisymmetric and transitive, and two blocks compare equal exactly if their times agree.",
 ['inputs'],'every triple of blocks of any kind',
 'Not tested.',
 ['src/block.rs'],[('Ord, PartialOrd, PartialEq for dyn Block','src/block.rs')])
p('P35','A new tree starts from the fixed inception state',
 "A tree in a folder without data has the same fixed inception block as every other one and nothing else on its main chain; the root account has the coins of one cycle, everybody else has none, nobody has gas, there are no transactions, and derivative chains are empty and founded on the inception block. This holds also when the process died while the folder was first set up, when it is opened again, and whatever happens to trees in other folders.",
 ['inputs','crash_points'],'every address and lookup; death at any step of the creation',
 'Tests never look at a new tree beyond its height.',
 ['src/blockchaintree.rs','src/chain.rs','src/static_values.rs'],[('BlockChainTree::new, MainChain::new, inception block','src/blockchaintree.rs, src/chain.rs')])
p('P36','A damaged chain config is reported, never a panic',
 "Whatever bytes the config file of a chain holds, opening the tree or the chain does not panic: a config that is too short gives an error, any other gives the height and, for a derivative chain, the founding block it names. Lookups then answer with blocks that were added or with nothing, and emitting a block or sending a transaction on a chain whose last block is missing gives an error instead of a panic.",
 ['inputs','fault_sequences'],'every content of the config at lengths around each field boundary',
 'No test damages a file.',
 ['src/chain.rs','src/blockchaintree.rs'],[('config decoding in MainChain::new and DerivativeChain::new','src/chain.rs'),('use of the last block in emission and fees','src/blockchaintree.rs')])
p('N01','ECDSA signatures cannot be forged',
 "Without the secret key of a public key nobody can produce a signature that verifies for it.",
 ['inputs'],'every adversary','A cryptographic hardness claim about libsecp256k1.',['src/transaction.rs'],[('secp256k1 (C library)','dependency')])
p('N02','The storage engine keeps its own contract',
 "The embedded database provides atomic transactions, ordered iteration and durability after flush on a real disk under real threads.",
 ['schedules','crash_points'],'every schedule of its worker threads and every crash of its log','Internals of the sled dependency.',['src/chain.rs','src/blockchaintree.rs'],[('sled','dependency')])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(here,'properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
