import os
_b = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py")).read(), _b)
SEEDS = []
def seed(**k): SEEDS.append(k)

BT, CH, TO, BL, TX, ME, SU, PO = ["src/%s.rs" % x for x in
    "blockchaintree chain tools block transaction merkletree summary_db txpool".split()]
EPOCH = _b["EPOCH"]

seed(id="refill-on-top", property="C37",
     needs="an epoch rollover while the root account still has coins",
     breaks="the coins of the new cycle are added to what is left instead of replacing it",
     edits=[(BT, "                self.set_amount(&ROOT_PUBLIC_ADDRESS as &[u8], *COINS_PER_CYCLE)?;\n",
             "                self.add_amount(&ROOT_PUBLIC_ADDRESS as &[u8], *COINS_PER_CYCLE)?;\n")],
     main=EPOCH + r'''
#[tokio::main]
async fn main() {
    for left in [0u64, 12345] {
        let root = scratch() + &format!("{left}/");
        std::fs::create_dir_all(&root).unwrap();
        let (mut tree, nonce) = end_of_epoch(&root);
        tree.set_amount(&ROOT_PUBLIC_ADDRESS, U256::from(left)).unwrap();
        tree.emmit_new_main_block(&nonce, &[3; 33], &[], 1600).await.unwrap();
        check(tree.get_amount(&ROOT_PUBLIC_ADDRESS).unwrap() == *COINS_PER_CYCLE, "the root account is not refilled exactly");
    }
}
''')

seed(id="half-predecessor", property="C38",
     needs="a derivative block and a hash that differs from its previous hash in the second half only",
     breaks="the block says it follows a block it does not follow",
     edits=[(BL, """    fn verify_block(&self, prev_hash: &Hash) -> bool {
        self.default_info.previous_hash.eq(prev_hash)
    }
    fn get_founder(&self) -> &Address {
        &self.default_info.founder
    }
    fn get_fee(&self) -> U256 {
        U256::zero()
""", """    fn verify_block(&self, prev_hash: &Hash) -> bool {
        self.default_info.previous_hash[..16].eq(&prev_hash[..16])
    }
    fn get_founder(&self) -> &Address {
        &self.default_info.founder
    }
    fn get_fee(&self) -> U256 {
        U256::zero()
""")],
     main=r'''
fn main() {
    let previous = [5u8; 32];
    let block = DerivativeBlock { default_info: info(3, previous, 1000, [0xff; 32]) };
    check(Block::verify_block(&block, &previous), "a block does not follow its predecessor");
    for i in 0..32 {
        let mut other = previous;
        other[i] ^= 1;
        check(!Block::verify_block(&block, &other), "a block follows another hash than its previous hash");
    }
}
''')

seed(id="listless-block", property="C38",
     needs="a transaction block without transactions, such as one received from outside",
     breaks="an empty list of transactions is reported like a block kind that has none",
     edits=[(BL, "        Some(&self.transactions)\n", "        (!self.transactions.is_empty()).then_some(&self.transactions[..])\n")],
     main=r'''
fn main() {
    for n in [3usize, 1, 0] {
        let list = vec![[4u8; 32]; n];
        let block = TransactionBlock::new(U256::from(1), info(1, [1; 32], 1000, [0xff; 32]), [0; 32], list.clone());
        check(Block::transactions(&block) == Some(&list[..]), "a transaction block does not report its transactions");
        let back = block::deserialize_main_chain_block(&Block::dump(&block).unwrap()).unwrap();
        check(back.transactions() == Some(&list[..]), "a decoded transaction block does not report its transactions");
    }
}
''')

seed(id="last-coin", property="C39",
     needs="a transfer of exactly the whole balance",
     breaks="a transfer that the balance covers exactly is refused",
     edits=[(BT, """        self.summary_db
            .transaction(
                |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                    let mut from_amount = match db.get(from)? {
                        Some(v) => tools::load_u256(&v).unwrap().0,
                        None => U256::zero(),
                    };
                    let mut to_amount = match db.get(to)? {
                        Some(v) => tools::load_u256(&v).unwrap().0,
                        None => U256::zero(),
                    };
                    if from_amount < amount {
""", """        self.summary_db
            .transaction(
                |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                    let mut from_amount = match db.get(from)? {
                        Some(v) => tools::load_u256(&v).unwrap().0,
                        None => U256::zero(),
                    };
                    let mut to_amount = match db.get(to)? {
                        Some(v) => tools::load_u256(&v).unwrap().0,
                        None => U256::zero(),
                    };
                    if from_amount <= amount {
""")],
     main=r'''
fn main() {
    let tree = BlockChainTree::new(&scratch()).unwrap();
    let (a, b) = ([1u8; 33], [2u8; 33]);
    tree.add_amount(&a, U256::from(1000)).unwrap();
    tree.add_gas(&a, U256::from(1000)).unwrap();
    for part in [300u64, 0, 699, 1] {
        check(tree.send_amount(&a, &b, U256::from(part)).is_ok(), "a transfer the balance covers is refused");
        check(tree.send_gas(&a, &b, U256::from(part)).is_ok(), "a transfer the gas balance covers is refused");
    }
    check(tree.get_amount(&b).unwrap() == U256::from(1000), "coins are missing");
}
''')

seed(id="exact-funds", property="C39",
     needs="a transaction whose sender has exactly the gas its size costs",
     breaks="a new, signed and exactly funded transaction is refused",
     edits=[(BT, "        if sender_gas_amount < gas_required {\n", "        if sender_gas_amount.saturating_sub(gas_required).is_zero() {\n")],
     main=r'''
fn main() {
    let tree = BlockChainTree::new(&scratch()).unwrap();
    let (secret, sender) = keys(4);
    for (n, spare) in [5u64, 1, 0].into_iter().enumerate() {
        let t = Transaction::new(sender, [8; 33], n as u64, U256::from(10), secret, None).unwrap();
        tree.set_amount(&sender, *COINS_PER_CYCLE).unwrap();
        let held = tree.get_gas(&sender).unwrap();
        if !held.is_zero() {
            tree.sub_gas(&sender, held).unwrap();
        }
        tree.add_gas(&sender, *BYTE_GAS_PRICE * t.get_dump_size() + spare).unwrap();
        check(tree.send_transaction(&t).is_ok(), "a funded transaction is refused");
        check(tree.get_gas(&sender).unwrap() == U256::from(spare), "another amount of gas was charged");
    }
}
''')

seed(id="folded-snapshot", property="C39",
     needs="copying a directory tree over an existing copy of it",
     breaks="copying stops with an error when a directory is already there",
     edits=[(TO, "    fs::create_dir_all(&dst)?;\n", "    if dst.as_ref().parent().is_some_and(Path::exists) {\n        fs::create_dir(&dst)?;\n    } else {\n        fs::create_dir_all(&dst)?;\n    }\n")],
     main=r'''
fn main() {
    let root = scratch();
    std::fs::create_dir_all(format!("{root}a/inner")).unwrap();
    std::fs::write(format!("{root}a/inner/file"), b"content").unwrap();
    for n in 0..2 {
        check(tools::copy_dir_all(format!("{root}a"), format!("{root}b")).is_ok(), "a directory is not copied");
        check(std::fs::read(format!("{root}b/inner/file")).unwrap() == b"content", "a copied file differs");
        if n == 0 {
            std::fs::write(format!("{root}b/inner/file"), b"old").unwrap();
        }
    }
}
''')

seed(id="earlier-fee", property="C34",
     needs="a block that changes the difficulty",
     breaks="a produced block carries the fee of its predecessor's difficulty",
     edits=[(BT, """        tools::recalculate_difficulty(last_block.get_info().timestamp, timestamp, &mut difficulty);
        let fee = tools::recalculate_fee(&difficulty);
""", """        let fee = tools::recalculate_fee(&difficulty);
        tools::recalculate_difficulty(last_block.get_info().timestamp, timestamp, &mut difficulty);
""")],
     main=r'''
#[tokio::main]
async fn main() {
    let mut tree = BlockChainTree::new(&scratch()).unwrap();
    let mut time = INCEPTION_TIMESTAMP;
    for after in [600u64, 300, 900, 10] {
        time += after;
        let tip = tree.get_main_chain().get_last_block().unwrap().unwrap();
        let pow = mine(&tip.hash().unwrap(), &tip.get_info().difficulty, &[[1; 32]]);
        let block = tree.emmit_new_main_block(&pow, &[6; 33], &[[1; 32]], time).await.unwrap();
        check(block.get_fee() == tools::recalculate_fee(&block.get_info().difficulty), "the fee is not that of the block's difficulty");
    }
}
''')

seed(id="strict-target", property="C18",
     needs="a digest with exactly as many leading zero bits as the difficulty",
     breaks="work that just meets the difficulty is refused",
     edits=[(TO, "    if count_leading_zeros(difficulty) <= count_leading_zeros(&result) {\n", "    if count_leading_zeros(difficulty) < count_leading_zeros(&result) {\n")],
     main=r'''
fn main() {
    // every digest of a number of nonces against every difficulty it meets and the next one it does not
    for n in 0..400u64 {
        let (block, mut nonce) = ([9u8; 32], [0u8; 32]);
        nonce[24..].copy_from_slice(&n.to_be_bytes());
        let mut best = None;
        for z in 0..=32u32 {
            let mut difficulty = [0u8; 32];
            difficulty[(z / 8) as usize] = 0x80 >> (z % 8);
            let accepted = tools::check_pow(&block, &difficulty, &[[1; 32]], &nonce);
            match (accepted, best) {
                (true, None) => {}
                (false, None) => best = Some(z),
                (a, Some(_)) => check(!a, "harder work is accepted"),
            }
        }
        use sha2::Digest;
        let mut h = sha2::Sha256::new();
        h.update(block);
        h.update(MerkleTree::build_tree(&[[1; 32]]).get_root());
        h.update(nonce);
        let digest: [u8; 32] = h.finalize().into();
        let zeros = digest.iter().take_while(|b| **b == 0).count() as u32 * 8
            + digest.iter().find(|b| **b != 0).map_or(0, |b| b.leading_zeros());
        check(best == Some(zeros + 1), "work is accepted up to another difficulty than it meets");
    }
}
''')

seed(id="wide-integer", property="C04",
     needs="an arbitrary-precision integer of 128 or more bytes",
     breaks="the length byte of long integers is read as a signed number",
     edits=[(TO, "    let amount_of_bytes: usize = amount_of_bunches as usize; //*4;\n",
             "    let amount_of_bytes: usize = (amount_of_bunches & 0x7f) as usize; //*4;\n")],
     main=r'''
fn main() {
    for bytes in [0usize, 1, 2, 31, 32, 33, 127, 128, 200, 255] {
        let mut encoded = vec![bytes as u8];
        encoded.extend((0..bytes).map(|i| (i + 1) as u8));
        let (n, used) = tools::load_biguint(&encoded).unwrap();
        check(used == bytes + 1, "an integer consumes another number of bytes");
        let mut again = Vec::new();
        tools::dump_biguint(&n, &mut again).unwrap();
        check(bytes == 0 || again == encoded, "an integer is not written as it was read");
    }
}
''')

