SEEDS = []
def seed(**k): SEEDS.append(k)

BT, CH, TO, BL, TX, ME, SU, PO = ["src/%s.rs" % x for x in
    "blockchaintree chain tools block transaction merkletree summary_db txpool".split()]

COPY = r'''
fn copy(from: &std::path::Path, to: &std::path::Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        if e.file_type().unwrap().is_dir() {
            copy(&e.path(), &to.join(e.file_name()));
        } else {
            std::fs::copy(e.path(), to.join(e.file_name())).unwrap();
        }
    }
}
'''

seed(id="unflushed-transactions", property="C22",
     needs="the process dying right after a successful flush, before the storage engine's background flush",
     breaks="flushing the main chain does not flush the store of transactions",
     edits=[(CH, """        self.transactions
            .flush_async()
            .await
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
            .attach_printable("failed to flush transactions")?;

""", "")],
     main=COPY + r'''
#[tokio::main]
async fn main() {
    let (secret, sender) = keys(4);
    for round in 0..6u64 {
        let root = format!("{}{round}/", scratch());
        let chain = MainChain::new(&root).unwrap();
        chain.flush().await.unwrap();
        let t = Transaction::new(sender, [8; 33], round, U256::from(1), secret, None).unwrap();
        chain.add_transaction(&t).unwrap();
        chain.flush().await.unwrap();
        // what a crash now would leave
        let crashed = format!("{}{round}-crashed/", scratch());
        copy(root.as_ref(), crashed.as_ref());
        let chain = MainChain::new(&crashed).unwrap();
        check(chain.transaction_exists(&t.hash()).unwrap(), "a flushed transaction was lost");
    }
}
''')

seed(id="partial-write", property="C31",
     needs="data larger than the compressor accepts in one call",
     breaks="only what one write call accepts is compressed",
     edits=[(TO, "        .write_all(data)\n", "        .write(data)\n")],
     main=r'''
fn main() {
    let dir = scratch();
    for size in [0usize, 1, 1000, 100_000, 1_000_000, 20_000_000] {
        let mut x = 88172645463325252u64;
        let data: Vec<u8> = (0..size)
            .map(|_| {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                x as u8
            })
            .collect();
        let file = format!("{dir}{size}");
        tools::compress_to_file(file.clone(), &data).unwrap();
        let back = tools::decompress_from_file(file).unwrap();
        check(back == data, &format!("{size} bytes became {}", back.len()));
    }
}
''')

seed(id="stale-copies", property="C32",
     needs="a destination that already contains a file of the same name",
     breaks="files that already exist at the destination are not overwritten",
     edits=[(TO, "            fs::copy(entry.path(), dst.as_ref().join(entry.file_name()))?;\n",
             """            let target = dst.as_ref().join(entry.file_name());
            if !target.exists() {
                fs::copy(entry.path(), target)?;
            }
""")],
     main=r'''
fn main() {
    let dir = scratch();
    let (a, b) = (format!("{dir}a"), format!("{dir}b"));
    std::fs::create_dir_all(format!("{a}/sub")).unwrap();
    for round in 0..2 {
        std::fs::write(format!("{a}/one"), format!("one {round}")).unwrap();
        std::fs::write(format!("{a}/sub/two"), format!("two {round}")).unwrap();
        tools::copy_dir_all(&a, &b).unwrap();
        for f in ["one", "sub/two"] {
            check(std::fs::read(format!("{a}/{f}")).unwrap() == std::fs::read(format!("{b}/{f}")).unwrap(), f);
        }
    }
}
''')

seed(id="root-comparison", property="C29",
     needs="a claimed root that differs from the computed one only in its last bytes",
     breaks="the last 8 bytes of the root are not compared",
     edits=[(ME, "        for i in 0..32 {\n", "        for i in 0..24 {\n")],
     main=r'''
fn main() {
    let leaves: Vec<[u8; 32]> = (1..6u8).map(|n| [n; 32]).collect();
    let tree = MerkleTree::build_tree(&leaves);
    let root = *tree.get_root();
    for leaf in &leaves {
        let proof = tree.get_proof(leaf);
        let proof = &proof[..proof.len() - 1];
        check(MerkleTree::verify_proof(leaf, &root, proof), "the proof of a member is refused");
        for i in 0..32 {
            let mut wrong = root;
            wrong[i] ^= 1;
            check(!MerkleTree::verify_proof(leaf, &wrong, proof), &format!("byte {i} of the root is ignored"));
        }
    }
}
''')

seed(id="padding-transactions", property="C02",
     needs="a block that lists the all-zero hash",
     breaks="hashes of zeros are left out when a block is written",
     edits=[(BL, "        for transaction in self.transactions.iter() {\n",
             "        for transaction in self.transactions.iter().filter(|t| **t != [0u8; 32]) {\n")],
     main=r'''
fn main() {
    for transactions in [vec![[1u8; 32]], vec![[1; 32], [2; 32]], vec![[1; 32], [0; 32], [2; 32]], vec![[0; 32]]] {
        let block = TransactionBlock::new(U256::from(7), info(3, [1; 32], 5, BEGINNING_DIFFICULTY), [9; 32], transactions.clone());
        let dump = Block::dump(&block).unwrap();
        let back = block::deserialize_main_chain_block(&dump).unwrap();
        check(back.transactions().unwrap() == &transactions[..], "the transactions changed");
        check(back.dump().unwrap() == dump, "the serialization changed");
    }
}
''')

seed(id="data-limit", property="C01",
     needs="a transaction with more than 65535 bytes of data",
     breaks="the data is read up to a limit that writing it does not have",
     edits=[(TX, "            new_data.extend(data[index..].iter());\n",
             "            new_data.extend(data[index..].iter().take(u16::MAX as usize));\n")],
     main=r'''
fn main() {
    for size in [1usize, 255, 256, 65535, 65536, 100_000] {
        let data = vec![3u8; size];
        let t = Transaction::new_signed([1; 33], [2; 33], 9, U256::from(1000), Some(data), [4; 64]);
        let dump = t.dump().unwrap();
        let back = Transaction::parse(&dump[1..]);
        check(back.is_ok(), &format!("a transaction with {size} bytes of data cannot be read"));
        check(back.unwrap().dump().unwrap() == dump, "the transaction changed");
    }
}
''')

seed(id="short-transaction", property="C03",
     needs="input of 136 or 137 bytes",
     breaks="the length check admits input that ends within the signature",
     edits=[(TX, "        if data.len() < 139 {\n", "        if data.len() < 136 {\n")],
     main=r'''
fn main() {
    for size in 0..300usize {
        for byte in [0u8, 1, 32, 33, 255] {
            let data = vec![byte; size];
            let parsed = std::panic::catch_unwind(|| Transaction::parse(&data).is_ok());
            check(parsed.is_ok(), &format!("{size} bytes crash the parser"));
        }
    }
}
''')

seed(id="widest-number", property="C04",
     needs="a number that takes all 32 bytes",
     breaks="numbers of 32 bytes are written but refused when read",
     edits=[(TO, "    if amount_of_bytes > 32 {\n", "    if amount_of_bytes >= 32 {\n")],
     main=r'''
fn main() {
    for shift in 0..256usize {
        for n in [U256::one() << shift, (U256::one() << shift) - 1, U256::MAX - (U256::one() << shift)] {
            let mut dump = Vec::new();
            tools::dump_u256(&n, &mut dump).unwrap();
            let back = tools::load_u256(&dump);
            check(back.is_ok() && back.unwrap().0 == n, &format!("{n} is not read back"));
        }
    }
}
''')

seed(id="gas-by-estimate", property="C08",
     needs="a transaction whose amount takes several bytes",
     breaks="gas is charged for an estimated size instead of the size of the transaction",
     edits=[(BT, "        let amount_of_bytes = transaction.get_dump_size();\n",
             "        let amount_of_bytes = 140 + transaction.get_data().map_or(0, |data| data.len());\n")],
     main=r'''
fn main() {
    let tree = BlockChainTree::new(&scratch()).unwrap();
    let (secret, sender) = keys(4);
    let coins = U256::from(10).pow(U256::from(30));
    tree.add_amount(&sender, coins).unwrap();
    tree.add_gas(&sender, coins).unwrap();
    for (n, amount) in [0u64, 1, 300, 1 << 40].into_iter().enumerate() {
        let t = Transaction::new(sender, [8; 33], n as u64, U256::from(amount), secret, Some(vec![1; n])).unwrap();
        let before = tree.get_gas(&sender).unwrap();
        tree.send_transaction(&t).unwrap();
        let paid = before - tree.get_gas(&sender).unwrap();
        check(paid == *BYTE_GAS_PRICE * t.dump().unwrap().len(), &format!("gas for amount {amount} is {paid}"));
    }
}
''')

seed(id="unrecorded-zero", property="C09",
     needs="a transaction of amount zero sent a second time",
     breaks="transactions that move no coins are not recorded, so they can be replayed and cost gas every time",
     edits=[(BT, "        self.main_chain.add_transaction(transaction)?;\n",
             "        if transaction.get_amount().map_or(true, |amount| !amount.is_zero()) {\n            self.main_chain.add_transaction(transaction)?;\n        }\n")],
     main=r'''
fn main() {
    let tree = BlockChainTree::new(&scratch()).unwrap();
    let (secret, sender) = keys(4);
    let coins = U256::from(10).pow(U256::from(30));
    tree.add_amount(&sender, coins).unwrap();
    tree.add_gas(&sender, coins).unwrap();
    for amount in [5u64, 0] {
        let t = Transaction::new(sender, [8; 33], 1, U256::from(amount), secret, Some(vec![1])).unwrap();
        tree.send_transaction(&t).unwrap();
        let gas = tree.get_gas(&sender).unwrap();
        check(tree.send_transaction(&t).is_err(), &format!("amount {amount}: replayed"));
        check(tree.get_gas(&sender).unwrap() == gas, "a replay changed a balance");
    }
}
''')

seed(id="previous-epoch-gas", property="C13",
     needs="an account with gas in the previous epoch and none written in this one",
     breaks="an account without gas is reported with the balance of the previous epoch, which no update sees",
     edits=[(BT, """            .attach_printable("failed to get gas amount")?
        {
            Some(v) => Ok(tools::load_u256(&v).unwrap().0),
            None => Ok(U256::zero()),
        }""", """            .attach_printable("failed to get gas amount")?
            .or(self.old_gas_db.get(owner).ok().flatten())
        {
            Some(v) => Ok(tools::load_u256(&v).unwrap().0),
            None => Ok(U256::zero()),
        }""")],
     main=r'''
fn main() {
    let root = scratch();
    let (old, new) = ([1u8; 33], [2u8; 33]);
    {
        let db = sled::open(format!("{root}{OLD_GAS_SUMMARY}")).unwrap();
        let mut dump = Vec::new();
        tools::dump_u256(&U256::from(500), &mut dump).unwrap();
        db.insert(&old[..], dump).unwrap();
        db.flush().unwrap();
    }
    let tree = BlockChainTree::new(&root).unwrap();
    tree.add_gas(&new, U256::from(5)).unwrap();
    check(tree.get_gas(&new).unwrap() == U256::from(5), "a balance is not what was written");
    check(tree.get_gas(&old).unwrap().is_zero(), "an account that was never written has gas");
    check(tree.sub_gas(&old, U256::from(1)).is_err(), "gas was taken from an empty account");
}
''')

seed(id="short-references", property="C15",
     needs="a chain of more than 65536 blocks",
     breaks="the index from hashes to blocks keeps only the low 16 bits of the height",
     edits=[(CH, "            .insert(hash, &height_bytes)\n", (0, "            .insert(hash, &height_bytes[30..])\n"))],
     main=r'''
fn main() {
    let root = scratch();
    for height in [1u64, 255, 256, 65535, 65536, 70000] {
        let root = format!("{root}{height}/");
        std::fs::create_dir_all(format!("{root}{MAIN_CHAIN_DIRECTORY}")).unwrap();
        let mut config = vec![0u8; 64];
        config[24..32].copy_from_slice(&height.to_be_bytes());
        config[32..].copy_from_slice(&BEGINNING_DIFFICULTY);
        std::fs::write(format!("{root}{MAIN_CHAIN_DIRECTORY}{CONFIG_FILE}"), config).unwrap();
        let chain = MainChain::new(&root).unwrap();
        let block = SummarizeBlock { default_info: info(height, [1; 32], 5, BEGINNING_DIFFICULTY), merkle_tree_root: [1; 32] };
        let hash = block.hash().unwrap();
        chain.add_block(Arc::new(block)).unwrap();
        let found = chain.find_by_hash(&hash).unwrap();
        check(found.is_some(), &format!("the block at height {height} is not found by its hash"));
        check(found.unwrap().get_info().height == U256::from(height), "another block was found");
    }
}
''')

EPOCH = r'''
/// a tree whose next block is the last one of the epoch, and that next block's nonce
fn end_of_epoch(root: &str) -> (BlockChainTree, [u8; 32]) {
    let main = format!("{root}{MAIN_CHAIN_DIRECTORY}");
    std::fs::create_dir_all(&main).unwrap();
    let height = BLOCKS_PER_EPOCH as u64;
    let block = SummarizeBlock {
        default_info: info(height - 1, [1; 32], 1000, BEGINNING_DIFFICULTY),
        merkle_tree_root: [1; 32],
    };
    let mut config = vec![0u8; 64];
    config[24..32].copy_from_slice(&height.to_be_bytes());
    config[32..].copy_from_slice(&BEGINNING_DIFFICULTY);
    std::fs::write(format!("{main}{CONFIG_FILE}"), &config).unwrap();
    {
        let db = sled::open(format!("{main}{BLOCKS_FOLDER}")).unwrap();
        let mut key = [0u8; 32];
        key[24..].copy_from_slice(&(height - 1).to_be_bytes());
        db.insert(key, block.dump().unwrap()).unwrap();
        db.flush().unwrap();
    }
    let nonce = mine(&block.hash().unwrap(), &BEGINNING_DIFFICULTY, &[]);
    (BlockChainTree::new(root).unwrap(), nonce)
}

fn encoded(n: U256) -> Vec<u8> {
    let mut dump = Vec::new();
    tools::dump_u256(&n, &mut dump).unwrap();
    dump
}
'''

seed(id="summary-without-gas", property="C21",
     needs="the end of an epoch with an account that has coins but never had gas",
     breaks="accounts without a gas balance are left out of the summary",
     edits=[(BT, """                .map(|val| val.to_vec())
                .unwrap_or(Vec::with_capacity(0));
""", """                .map(|val| val.to_vec());
            let Some(gas_amount) = gas_amount else {
                continue;
            };
""")],
     main=EPOCH + r'''
#[tokio::main]
async fn main() {
    let (mut tree, nonce) = end_of_epoch(&scratch());
    let mut leaves = vec![];
    for n in 0..4u8 {
        let owner = [n; 33];
        tree.add_amount(&owner, U256::from(n) * 1000).unwrap();
        let mut leaf = owner.to_vec();
        leaf.push(b'|');
        leaf.extend(encoded(U256::from(n) * 1000));
        leaf.push(b'|');
        if n != 2 {
            tree.add_gas(&owner, U256::from(77)).unwrap();
            leaf.extend(encoded(U256::from(77)));
        }
        leaves.push(tools::hash(&leaf));
    }
    let block = tree.emmit_new_main_block(&nonce, &[3; 33], &[], 1600).await.unwrap();
    check(block.get_merkle_root() == *MerkleTree::build_tree(&leaves).get_root(), "the summary does not cover every account");
}
''')

seed(id="rotate-gas", property="C21",
     needs="the end of an epoch",
     breaks="the coin ledger is copied over the gas snapshot of the finished epoch",
     edits=[(BT, "        tools::copy_dir_all(path_summary, &path_summary_old)\n", "        tools::copy_dir_all(&path_summary, &path_summary_old)\n"),
            (BT, "        tools::copy_dir_all(path_gas, &path_gas_old)\n", "        tools::copy_dir_all(&path_summary, &path_gas_old)\n")],
     main=EPOCH + r'''
#[tokio::main]
async fn main() {
    let root = scratch();
    let (mut tree, nonce) = end_of_epoch(&root);
    let owner = [9u8; 33];
    tree.add_amount(&owner, U256::from(1000)).unwrap();
    tree.add_gas(&owner, U256::from(77)).unwrap();
    tree.emmit_new_main_block(&nonce, &[3; 33], &[], 1600).await.unwrap();
    drop(tree);
    for (dir, want) in [(OLD_AMOUNT_SUMMARY, 1000u64), (OLD_GAS_SUMMARY, 77)] {
        let db = sled::open(format!("{root}{dir}")).unwrap();
        let got = db.get(&owner[..]).unwrap();
        check(got.is_some() && got.unwrap().to_vec() == encoded(U256::from(want)), &format!("the snapshot in {dir} is wrong"));
    }
}
''')

seed(id="lock-while-writing", property="C24",
     needs="flushing from a task that may move between threads, or a block arriving while the configuration is written",
     breaks="the lock on the difficulty is held while waiting for the file to be written",
     edits=[(CH, """        let difficulty = *self.difficulty.read();
        file.write_all(&difficulty)
            .await""", (0, """        let difficulty = self.difficulty.read();
        file.write_all(&*difficulty)
            .await"""))],
     main=r'''
fn may_move<T: Send>(t: T) -> T {
    t
}

#[tokio::main]
async fn main() {
    let chain = MainChain::new(&scratch()).unwrap();
    // the future holds no lock guard while suspended: otherwise this does not build
    may_move(chain.flush()).await.unwrap();
}
''')

seed(id="truncated-config", property="C23",
     needs="a configuration file that ends within the difficulty",
     breaks="a truncated configuration is accepted and the missing part of the difficulty taken to be zero",
     edits=[(CH, """            file.read_exact(&mut difficulty)
                .change_context""", (0, """            file.read(&mut difficulty)
                .change_context"""))],
     main=r'''
#[tokio::main]
async fn main() {
    let root = scratch();
    {
        let chain = MainChain::new(&root).unwrap();
        chain.flush().await.unwrap();
    }
    let file = format!("{root}{MAIN_CHAIN_DIRECTORY}{CONFIG_FILE}");
    let config = std::fs::read(&file).unwrap();
    for size in [0usize, 31, 32, 40, 63, 64] {
        std::fs::write(&file, &config[..size]).unwrap();
        let opened = MainChain::new(&root).is_ok();
        check(opened == (size == 64), &format!("a configuration of {size} bytes: opened = {opened}"));
    }
}
''')

seed(id="evicting-pool", property="C26",
     needs="a pool filled up to its capacity",
     breaks="a full pool drops its first transaction without forgetting its hash",
     edits=[(PO, "        self.pool.push(transaction);\n        true\n",
             "        if self.pool.len() > 0 && self.pool.len() == self.pool.capacity() {\n            self.pool.pop();\n        }\n        self.pool.push(transaction);\n        true\n")],
     main=r'''
use blockchaintree::txpool::TxPool;

fn main() {
    for capacity in [0usize, 1, 4, 10] {
        let mut pool = TxPool::with_capacity(capacity);
        let all: Vec<Transaction> = (0..40u64)
            .map(|n| Transaction::new_signed([1; 33], [2; 33], n, U256::from(n), None, [4; 64]))
            .collect();
        for t in &all {
            check(pool.push(Box::new(t.clone())), "a new transaction is refused");
            check(!pool.push(Box::new(t.clone())), "a transaction is accepted twice");
            check(pool.len() == pool.transactions_iter().count(), "the pool's length is wrong");
        }
        for t in &all {
            let (hash, _) = pool.pop().unwrap();
            check(hash == t.hash(), "a transaction was lost");
        }
    }
}
''')

seed(id="same-width", property="C30",
     needs="a debit that exceeds the balance but has as many bits",
     breaks="the balance is compared with the debit by their widths only",
     edits=[(SU, "                if previous < *funds {\n", "                if previous.bits() < funds.bits() {\n")],
     main=r'''
use blockchaintree::summary_db::SummaryDB;

#[tokio::main]
async fn main() {
    let db = SummaryDB::new(sled::open(scratch()).unwrap());
    let a = [1u8; 33];
    db.add_funds(&a, &U256::from(1000)).await.unwrap();
    for debit in [5000u64, 1023, 1001] {
        check(db.decrease_funds(&a, &U256::from(debit)).await.is_err(), &format!("{debit} was taken from 1000"));
    }
    db.decrease_funds(&a, &U256::from(1000)).await.unwrap();
    check(db.get_funds(&a).await_ok() == "0", "the balance is wrong");
}

trait AwaitOk {
    fn await_ok(self) -> String;
}

impl<T: std::fmt::Display, E: std::fmt::Debug> AwaitOk for Result<T, E> {
    fn await_ok(self) -> String {
        self.unwrap().to_string()
    }
}
''')

seed(id="size-of-fee", property="C05",
     needs="a block whose fee takes another number of bytes than its height",
     breaks="the reported size of a block counts its height twice and not its fee",
     edits=[(BL, "        1 + tools::u256_size(&self.fee)\n", "        1 + tools::u256_size(&self.default_info.height)\n")],
     main=r'''
fn main() {
    for height in [0u64, 1, 300, 1 << 40] {
        for fee in [0u64, 9, 300, 1 << 50] {
            let block = TransactionBlock::new(U256::from(fee), info(height, [1; 32], 5, BEGINNING_DIFFICULTY), [9; 32], vec![[7; 32]; 3]);
            check(block.get_dump_size() == block.dump().unwrap().len(), &format!("height {height}, fee {fee}"));
        }
    }
}
''')

