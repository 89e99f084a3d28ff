SEEDS = []
def seed(**k): SEEDS.append(k)

BT, CH, TO, BL, TX, ME, SU, PO = ["src/%s.rs" % x for x in
    "blockchaintree chain tools block transaction merkletree summary_db txpool".split()]

seed(id="append-race", property="C14",
     needs="two threads appending a block of the same height to the main chain at the same time",
     breaks="the height is checked under a read lock that is released before the block is stored, so two appends of the same height both succeed and the height grows by two",
     edits=[(CH, """        let mut height = self.height.write();

        if block.get_info().height != *height {
            return Err""", """        let height = *self.height.read();

        if block.get_info().height != height {
            return Err"""),
            (CH, """        *height += U256::one();

        Ok(())
    }
""", (0, """        *self.height.write() += U256::one();

        Ok(())
    }
"""))],
     main=r'''
fn main() {
    let chain = MainChain::new(&scratch()).unwrap();
    for round in 0..400u64 {
        let height = chain.get_height();
        let barrier = Arc::new(std::sync::Barrier::new(8));
        let threads: Vec<_> = (0..8u8)
            .map(|n| {
                let (chain, barrier) = (chain.clone(), barrier.clone());
                std::thread::spawn(move || {
                    let mut default_info = info(0, [n; 32], 1000 + round, BEGINNING_DIFFICULTY);
                    default_info.height = height;
                    let block = Arc::new(SummarizeBlock { default_info, merkle_tree_root: [n; 32] });
                    barrier.wait();
                    chain.add_block(block).is_ok()
                })
            })
            .collect();
        let accepted = threads.into_iter().filter(|_| true).map(|t| t.join().unwrap()).filter(|x| *x).count();
        check(accepted == 1, &format!("{accepted} blocks of the same height were accepted"));
        check(chain.get_height() == height + 1, "the height did not grow by one");
    }
}
''')

seed(id="owner-directory", property="C33",
     needs="two owners whose addresses differ only in their first byte (the two keys with the same x coordinate)",
     breaks="both owners' derivative chains are kept in the same directory",
     edits=[(BT, "            &hex::encode(owner),\n", "            &hex::encode(&owner[1..]),\n")],
     main=r'''
#[tokio::main]
async fn main() {
    let root = scratch();
    let mut owner = [7u8; 33];
    owner[0] = 2;
    let hash;
    {
        let mut tree = BlockChainTree::new(&root).unwrap();
        let chain = tree.get_derivative_chain(&owner).unwrap();
        let tip = tree.get_main_chain().get_last_block().unwrap().unwrap();
        let pow = mine(&tip.hash().unwrap(), &BEGINNING_DIFFICULTY, &[]);
        let block = tree.emmit_new_derivative_block(&pow, &owner, INCEPTION_TIMESTAMP + 600).await.unwrap();
        hash = block.hash().unwrap();
        check(chain.get_height() == U256::one(), "the block was not appended");
        tree.flush().await.unwrap();
    }
    let mut tree = BlockChainTree::new(&root).unwrap();
    owner[0] = 3;
    let other = tree.get_derivative_chain(&owner).unwrap();
    check(other.get_height().is_zero(), "an owner without blocks got the chain of another owner");
    check(other.find_by_hash(&hash).unwrap().is_none(), "a chain contains the block of another owner");
    drop(other);
    drop(tree);
    let mut tree = BlockChainTree::new(&root).unwrap();
    owner[0] = 2;
    check(tree.get_derivative_chain(&owner).unwrap().get_height() == U256::one(), "the chain was lost");
}
''')

seed(id="reopened-genesis", property="C23",
     needs="a derivative chain flushed, the main chain advancing, and the derivative chain opened again",
     breaks="a reopened derivative chain takes the genesis hash it is given instead of the one that was flushed",
     edits=[(CH, """                difficulty,
                genesis_hash,
            )
        } else {""", """                difficulty,
                *provided_genesis_hash,
            )
        } else {"""),
            (CH, "            let mut genesis_hash: [u8; 32] = [0; 32];\n            file.read_exact(&mut genesis_hash)",
             "            let mut flushed_genesis: [u8; 32] = [0; 32];\n            file.read_exact(&mut flushed_genesis)")],
     main=r'''
#[tokio::main]
async fn main() {
    let root = scratch();
    let owner = keys(5).1;
    let genesis;
    {
        let mut tree = BlockChainTree::new(&root).unwrap();
        let chain = tree.get_derivative_chain(&owner).unwrap();
        genesis = *chain.genesis_hash;
        let tip = tree.get_main_chain().get_last_block().unwrap().unwrap();
        check(genesis == tip.hash().unwrap(), "the chain is not anchored at the last block");
        tree.flush().await.unwrap();
        let transactions = [[9u8; 32]];
        let pow = mine(&genesis, &tip.get_info().difficulty, &transactions);
        tree.emmit_new_main_block(&pow, &owner, &transactions, INCEPTION_TIMESTAMP + 600).await.unwrap();
        tree.flush().await.unwrap();
    }
    let mut tree = BlockChainTree::new(&root).unwrap();
    let chain = tree.get_derivative_chain(&owner).unwrap();
    check(*chain.genesis_hash == genesis, "the genesis hash changed by reopening");
}
''')

seed(id="self-transfer-guard", property="C10",
     needs="a direct transfer from an account to itself",
     breaks="the guard against transfers to oneself moved from the ledger to the transaction path, so a direct transfer to oneself creates coins",
     edits=[(BT, """        if from == to {
            return Ok(());
        }
        self.summary_db""", """        self.summary_db"""),
            (BT, "            self.send_amount(transaction.get_sender(), transaction.get_receiver(), amount)?;\n",
             """            if transaction.get_sender() != transaction.get_receiver() {
                self.send_amount(transaction.get_sender(), transaction.get_receiver(), amount)?;
            }
""")],
     main=r'''
fn main() {
    let tree = BlockChainTree::new(&scratch()).unwrap();
    let (a, b) = ([1u8; 33], [2u8; 33]);
    tree.add_amount(&a, U256::from(1000)).unwrap();
    for (from, to) in [(&a, &b), (&b, &a), (&a, &a), (&b, &b)] {
        let _ = tree.send_amount(from, to, U256::from(100));
        let total = tree.get_amount(&a).unwrap() + tree.get_amount(&b).unwrap();
        check(total == U256::from(1000), &format!("a transfer changed the total to {total}"));
    }
}
''')

seed(id="sub-outside-transaction", property="C12",
     needs="two threads debiting the same account at the same time",
     breaks="the balance is read before the storage transaction, so that concurrent debits are lost",
     edits=[(BT, """        self.summary_db
            .transaction(
                |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                    let prev_amount = match db.get(owner)? {
                        Some(v) => tools::load_u256(&v).unwrap().0,
                        None => U256::zero(),
                    };
                    if prev_amount < amount {""", """        let known = self
            .summary_db
            .get(owner)
            .change_context(BlockChainTreeError::BlockChainTree(
                BCTreeErrorKind::DecreaseFunds,
            ))?;
        self.summary_db
            .transaction(
                |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                    let prev_amount = match known.as_ref() {
                        Some(v) => tools::load_u256(v).unwrap().0,
                        None => U256::zero(),
                    };
                    if prev_amount < amount {""")],
     main=r'''
fn main() {
    let tree = Arc::new(BlockChainTree::new(&scratch()).unwrap());
    let a = [1u8; 33];
    tree.add_amount(&a, U256::from(1_000_000)).unwrap();
    let threads: Vec<_> = (0..4)
        .map(|_| {
            let tree = tree.clone();
            std::thread::spawn(move || (0..1000).filter(|_| tree.sub_amount(&a, U256::one()).is_ok()).count())
        })
        .collect();
    let done: usize = threads.into_iter().map(|t| t.join().unwrap()).sum();
    let left = tree.get_amount(&a).unwrap();
    check(left == U256::from(1_000_000 - done), &format!("{done} debits of one left {left}"));
}
''')

seed(id="signed-prefix", property="C06",
     needs="a transaction with more than 1024 bytes of data",
     breaks="signing and verifying both cover only the first 1024 bytes of the data, so the rest can be replaced under a valid signature",
     edits=[(TX, "            concatenated_input.extend(data.iter());\n", (0, "            concatenated_input.extend(data.iter().take(1024));\n")),
            (TX, "            concatenated_input.extend(data.iter());\n", (0, "            concatenated_input.extend(data.iter().take(1024));\n"))],
     main=r'''
fn main() {
    let (secret, sender) = keys(3);
    for size in [1usize, 100, 1024, 1025, 2000, 5000] {
        let data = vec![5u8; size];
        let t = Transaction::new(sender, [8; 33], 77, U256::from(12345), secret, Some(data.clone())).unwrap();
        check(t.verify().unwrap(), "a signed transaction does not verify");
        for i in [0, size / 2, size - 1] {
            let mut changed = data.clone();
            changed[i] ^= 1;
            let forged = Transaction::new_signed(sender, [8; 33], 77, U256::from(12345), Some(changed), *t.get_signature());
            check(!forged.verify().unwrap(), &format!("byte {i} of {size} can be changed"));
        }
    }
}
''')

seed(id="coarse-difficulty", property="C16",
     needs="a received block whose difficulty has the right number of leading zeros but other low bits",
     breaks="validation compares only the number of leading zero bits of the difficulty",
     edits=[(BL, """        if self.default_info.difficulty != prev_difficulty {
            return Ok(false);""", (1, """        if tools::count_leading_zeros(&self.default_info.difficulty)
            != tools::count_leading_zeros(&prev_difficulty)
        {
            return Ok(false);"""))],
     main=r'''
fn main() {
    let prev: BlockArc = Arc::new(SummarizeBlock { default_info: info(0, [0; 32], 1000, BEGINNING_DIFFICULTY), merkle_tree_root: [1; 32] });
    let hash = prev.hash().unwrap();
    let transactions = vec![[4u8; 32], [5u8; 32]];
    for time in [1000 + 10, 1000 + TIME_PER_BLOCK, 1000 + 5 * TIME_PER_BLOCK] {
        let mut difficulty = BEGINNING_DIFFICULTY;
        tools::recalculate_difficulty(1000, time, &mut difficulty);
        for bit in 0..3usize {
            let mut d = difficulty;
            if bit > 0 {
                d[10 * bit] ^= 4;
            }
            let mut default_info = info(1, hash, time, d);
            default_info.pow = mine(&hash, &BEGINNING_DIFFICULTY, &transactions);
            let root = *MerkleTree::build_tree(&transactions).get_root();
            let block = TransactionBlock::new(U256::zero(), default_info, root, transactions.clone());
            let valid = Block::validate(&block, Some(prev.clone())).unwrap();
            check(valid == (bit == 0), &format!("time {time}, byte {}: valid = {valid}", 10 * bit));
        }
    }
}
''')

seed(id="sorted-transactions", property="C17",
     needs="a block produced from transactions that are not given in ascending order",
     breaks="the block lists its transactions in another order than the one its Merkle root and nonce were computed from",
     edits=[(BT, "                    Vec::from_iter(transactions.iter().cloned()),\n",
             "                    std::collections::BTreeSet::from_iter(transactions.iter().cloned())\n                        .into_iter()\n                        .collect(),\n")],
     main=r'''
#[tokio::main]
async fn main() {
    let mut tree = BlockChainTree::new(&scratch()).unwrap();
    for (n, transactions) in [vec![[1u8; 32]], vec![[1; 32], [2; 32]], vec![[9; 32], [3; 32], [5; 32]]].into_iter().enumerate() {
        let tip = tree.get_main_chain().get_last_block().unwrap().unwrap();
        let pow = mine(&tip.hash().unwrap(), &tip.get_info().difficulty, &transactions);
        let block = tree
            .emmit_new_main_block(&pow, &[6; 33], &transactions, INCEPTION_TIMESTAMP + 600 * (n as u64 + 1))
            .await
            .unwrap();
        check(block.validate(Some(tip)).unwrap(), "a produced block does not validate");
        check(block.transactions().unwrap() == &transactions[..], "a produced block lists other transactions");
    }
}
''')

seed(id="transactions-first", property="C20",
     needs="a received block that passes validation against the last block but carries the wrong height, so that appending refuses it",
     breaks="the transactions are stored before the block is appended and stay when it is refused",
     edits=[(BT, "        self.main_chain.add_block(block)?;\n\n        self.main_chain.add_transactions(transactions)\n",
             "        self.main_chain.add_transactions(transactions)?;\n\n        self.main_chain.add_block(block)\n")],
     main=r'''
fn main() {
    let tree = BlockChainTree::new(&scratch()).unwrap();
    let chain = tree.get_main_chain();
    let tip = chain.get_last_block().unwrap().unwrap();
    let hash = tip.hash().unwrap();
    let (secret, sender) = keys(4);
    for height in [5u64, 1] {
        let t = Transaction::new(sender, [8; 33], height, U256::from(1), secret, None).unwrap();
        let transactions = vec![t.hash()];
        let time = INCEPTION_TIMESTAMP + TIME_PER_BLOCK;
        let mut default_info = info(height, hash, time, BEGINNING_DIFFICULTY);
        default_info.pow = mine(&hash, &BEGINNING_DIFFICULTY, &transactions);
        let root = *MerkleTree::build_tree(&transactions).get_root();
        let block = Arc::new(TransactionBlock::new(U256::zero(), default_info, root, transactions));
        let added = tree.add_new_block(block, &[t.clone()]).is_ok();
        check(added == (height == 1), &format!("height {height}: added = {added}"));
        check(chain.transaction_exists(&t.hash()).unwrap() == added, &format!("height {height}: the transaction of a refused block is stored"));
    }
}
''')

seed(id="short-tie-break", property="C27",
     needs="two transactions with the same timestamp whose hashes agree in their first 16 bytes",
     breaks="ties are broken by the first half of the hash only, so different transactions compare equal",
     edits=[(TX, "                for (left, right) in tr_hash.iter().zip(other_hash.iter()) {\n",
             "                for (left, right) in tr_hash[..2].iter().zip(other_hash.iter()) {\n")],
     main=r'''
struct T([u8; 32]);

impl Transactionable for T {
    fn hash_without_signature(&self) -> [u8; 32] { self.0 }
    fn verify(&self) -> Result<bool, error_stack::Report<blockchaintree::errors::TransactionError>> { Ok(true) }
    fn dump(&self) -> Result<Vec<u8>, error_stack::Report<blockchaintree::errors::TransactionError>> { Ok(self.0.to_vec()) }
    fn hash(&self) -> [u8; 32] { self.0 }
    fn get_dump_size(&self) -> usize { 32 }
    fn parse(_: &[u8]) -> Result<Self, error_stack::Report<blockchaintree::errors::TransactionError>> { unimplemented!() }
    fn get_sender(&self) -> &[u8; 33] { unimplemented!() }
    fn get_receiver(&self) -> &[u8; 33] { unimplemented!() }
    fn get_timestamp(&self) -> u64 { 5 }
    fn get_signature(&self) -> &[u8; 64] { unimplemented!() }
    fn get_amount(&self) -> Option<U256> { None }
    fn get_data(&self) -> Option<&[u8]> { None }
}

fn main() {
    for i in 0..32 {
        let mut h = [1u8; 32];
        h[i] = 2;
        let a: TransactionableItem = Box::new(T([1; 32]));
        let b: TransactionableItem = Box::new(T(h));
        check(!a.eq(&b), &format!("hashes that differ in byte {i} compare equal"));
        check(a.cmp(&b) == b.cmp(&a).reverse(), "not antisymmetric");
        check(a.cmp(&b) != std::cmp::Ordering::Equal, &format!("transactions that differ in byte {i} are tied"));
    }
}
''')

seed(id="short-nonce", property="C18",
     needs="two nonces that differ only after their first 24 bytes",
     breaks="only the first 24 bytes of the nonce enter the proof of work",
     edits=[(TO, "    hasher.update(pow);\n", "    hasher.update(&pow[..pow.len().min(24)]);\n")],
     main=r'''
fn main() {
    // whether a nonce is accepted must depend on every byte of it
    let mut hard = [0xffu8; 32];
    hard[0] = 0x3f;
    for i in 0..32usize {
        let mut seen = [false; 2];
        for v in 0..=255u8 {
            let mut nonce = [7u8; 32];
            nonce[i] = v;
            seen[tools::check_pow(&[3; 32], &hard, &[[4; 32]], &nonce) as usize] = true;
        }
        check(seen[0] && seen[1], &format!("byte {i} of the nonce makes no difference"));
    }
}
''')
