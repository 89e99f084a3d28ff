SEEDS = []
def seed(**k): SEEDS.append(k)

BT, CH, TO, BL, TX, ME, SU, PO = ["src/%s.rs" % x for x in
    "blockchaintree chain tools block transaction merkletree summary_db txpool".split()]

seed(id="identity-before-payload", property="C07",
     needs="a transaction that carries a payload and is built from an existing signature (received or parsed)",
     breaks="such a transaction reports the hash of the transaction without its payload",
     edits=[(TX, """        signature: [u8; 64],
    ) -> Transaction {
        let mut tr = Transaction {
            sender,
            receiver,
            timestamp,
            signature,
            amount,
            data,
            hash: [0; 32],
        };
        tr.hash = tools::hash(&tr.dump().unwrap());
""", """        signature: [u8; 64],
    ) -> Transaction {
        let mut tr = Transaction {
            sender,
            receiver,
            timestamp,
            signature,
            amount,
            data: None,
            hash: [0; 32],
        };
        tr.hash = tools::hash(&tr.dump().unwrap());
        tr.data = data;
""")],
     main=r'''
fn main() {
    let (secret, sender) = keys(4);
    for data in [None, Some(vec![1u8]), Some(vec![7u8; 300])] {
        let t = Transaction::new(sender, [8; 33], 5, U256::from(1), secret, data).unwrap();
        check(t.hash() == tools::hash(&t.dump().unwrap()), "a new transaction is not known by the hash of its bytes");
        let back = Transaction::parse(&t.dump().unwrap()[1..]).unwrap();
        check(back.hash() == tools::hash(&back.dump().unwrap()), "a parsed transaction is not known by the hash of its bytes");
        check(back.hash() == t.hash(), "a parsed transaction has another hash");
    }
}
''')

seed(id="width-compared", property="C11",
     needs="a transfer of more coins than the sender has, of the same bit width as the balance",
     breaks="the guard of a transfer compares the widths of balance and amount, so the subtraction can underflow",
     edits=[(BT, """        self.summary_db
            .transaction(
                |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                    let mut from_amount = match db.get(from)? {
                        Some(v) => tools::load_u256(&v).unwrap().0,
                        None => U256::zero(),
                    };
                    let mut to_amount = match db.get(to)? {
                        Some(v) => tools::load_u256(&v).unwrap().0,
                        None => U256::zero(),
                    };
                    if from_amount < amount {
                        return Err(sled::transaction::ConflictableTransactionError::Abort(()));
                    }

""", """        self.summary_db
            .transaction(
                |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                    let mut from_amount = match db.get(from)? {
                        Some(v) => tools::load_u256(&v).unwrap().0,
                        None => U256::zero(),
                    };
                    let mut to_amount = match db.get(to)? {
                        Some(v) => tools::load_u256(&v).unwrap().0,
                        None => U256::zero(),
                    };
                    if from_amount.bits() < amount.bits() {
                        return Err(sled::transaction::ConflictableTransactionError::Abort(()));
                    }

""")],
     main=r'''
#[tokio::main]
async fn main() {
    let tree = BlockChainTree::new(&scratch()).unwrap();
    let (a, b) = ([4u8; 33], [5u8; 33]);
    tree.add_amount(&a, U256::from(1000)).unwrap();
    for amount in [1u64 << 20, 1001, 1023, 1024, 2000] {
        let refused = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tree.send_amount(&a, &b, U256::from(amount)).is_err()));
        check(refused.unwrap_or(false), "an overdraft was not refused with an error");
        check(tree.get_amount(&a).unwrap() == U256::from(1000), "a refused transfer changed the balance");
        check(tree.get_amount(&b).unwrap() == U256::zero(), "a refused transfer credited the receiver");
    }
    tree.send_amount(&a, &b, U256::from(1000)).unwrap();
    check(tree.get_amount(&b).unwrap() == U256::from(1000), "a covered transfer did not arrive");
}
''')

seed(id="cut-archive", property="C25",
     needs="a compressed file that was cut short or damaged after its first part",
     breaks="decompression stops quietly at the first read error and returns what it has",
     edits=[(TO, """    decoder
        .read_to_end(&mut decoded_data)
        .attach_printable("Error reading file")
        .change_context(ToolsError::Zstd(ZstdErrorKind::DecompressingFile))?;
""", """    let mut chunk = [0u8; 8192];
    while let Ok(amount @ 1..) = decoder.read(&mut chunk) {
        decoded_data.extend_from_slice(&chunk[..amount]);
    }
""")],
     main=r'''
fn main() {
    let dir = scratch();
    let mut x = 88172645463325252u64;
    let data: Vec<u8> = (0..600_000)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x as u8
        })
        .collect();
    let file = format!("{dir}whole");
    tools::compress_to_file(file.clone(), &data).unwrap();
    check(tools::decompress_from_file(file.clone()).unwrap() == data, "a file does not come back");
    let bytes = std::fs::read(&file).unwrap();
    for keep in [1usize, 2, 3] {
        let cut = format!("{dir}cut{keep}");
        std::fs::write(&cut, &bytes[..bytes.len() * keep / 4]).unwrap();
        check(tools::decompress_from_file(cut).is_err(), "a cut file was accepted");
    }
}
''')

seed(id="deep-tree-cut", property="C28",
     needs="a list of more than 65535 items",
     breaks="the depth of Merkle trees is capped, so the unchecked accesses of a larger tree are out of range",
     edits=[(ME, """    while x <= number {
        power += 1;
        x <<= 1;
    }
""", """    while x <= number && power < 16 {
        power += 1;
        x <<= 1;
    }
""")],
     main=r'''
fn main() {
    for amount in [1usize, 2, 1000, 65_535, 65_536, 70_000] {
        let items: Vec<[u8; 32]> = (0..amount as u64).map(|n| tools::hash(&n.to_be_bytes())).collect();
        let last = std::panic::catch_unwind(|| {
            let tree = MerkleTree::build_tree(&items);
            let mut others = items.clone();
            *others.last_mut().unwrap() = [0x55; 32];
            MerkleTree::build_tree(&others).get_root() != tree.get_root()
        });
        check(last.unwrap_or(false), "the tree of a long list does not cover its last item");
    }
}
''')

seed(id="fee-in-a-byte", property="C34",
     needs="a difficulty of 256 leading zero bits, the hardest one",
     breaks="the leading zero bits of the fee are counted in one byte, so the hardest difficulty costs nothing",
     edits=[(TO, "    *FEE_STEP * leading_zeros\n", "    *FEE_STEP * (leading_zeros as u8)\n")],
     main=r'''
fn main() {
    let mut difficulty = [0xffu8; 32];
    let mut last = tools::recalculate_fee(&difficulty);
    check(last == U256::zero(), "no leading zero bits, no fee");
    for bit in 0..256usize {
        difficulty[bit / 8] &= !(0x80 >> (bit % 8));
        let fee = tools::recalculate_fee(&difficulty);
        check(fee == *FEE_STEP * (bit + 1), "the fee is not the step times the leading zero bits");
        check(fee > last, "a harder difficulty has no higher fee");
        last = fee;
    }
}
''')

seed(id="private-height", property="C35",
     needs="two handles to one derivative chain, a block appended through one, and the other used afterwards",
     breaks="every handle to a derivative chain counts its own blocks",
     edits=[(CH, """#[derive(Clone)]
pub struct DerivativeChain {
    blocks: Db,
""", """impl Clone for DerivativeChain {
    fn clone(&self) -> Self {
        Self {
            blocks: self.blocks.clone(),
            height_reference: self.height_reference.clone(),
            height: Arc::new(RwLock::new(*self.height.read())),
            genesis_hash: self.genesis_hash.clone(),
            difficulty: self.difficulty.clone(),
            chain_owner: self.chain_owner.clone(),
            root: self.root.clone(),
        }
    }
}

pub struct DerivativeChain {
    blocks: Db,
""")],
     main=r'''
fn main() {
    let mut tree = BlockChainTree::new(&scratch()).unwrap();
    let owner = [4u8; 33];
    let one = tree.get_derivative_chain(&owner).unwrap();
    let two = tree.get_derivative_chain(&owner).unwrap();
    for n in 0..3u64 {
        let block = DerivativeBlock {
            default_info: BasicInfo::new(n, [n as u8; 32], [2; 32], U256::from(n), [3; 32], owner),
        };
        one.add_block(&block).unwrap();
        check(two.get_height() == one.get_height(), "two handles to a chain see different heights");
        let seen = two.find_by_height(&U256::from(n)).unwrap();
        check(seen.is_some(), "a block is not visible through another handle");
    }
}
''')

seed(id="low-half-compared", property="C36",
     needs="a withdrawal of 2^128 or more from a smaller balance of the legacy funds store",
     breaks="the guard of a withdrawal compares the low halves, so the subtraction can underflow and crash",
     edits=[(SU, "if previous < *funds {", "if previous.low_u128() < funds.low_u128() {")],
     main=r'''
use blockchaintree::summary_db::SummaryDB;

#[tokio::main]
async fn main() {
    let db = SummaryDB::new(sled::open(scratch()).unwrap());
    let addr = [4u8; 33];
    db.add_funds(&addr, &U256::from(1000)).await.unwrap();
    for amount in [U256::from(1001), U256::one() << 127, U256::one() << 128, U256::MAX] {
        let db = &db;
        let refused = std::panic::AssertUnwindSafe(db.decrease_funds(&addr, &amount));
        let refused = futures(refused).await;
        check(refused == Some(true), "an overdraft crashed or was accepted");
        check(db.get_funds(&addr).unwrap().to_string() == "1000", "a refused withdrawal changed the balance");
    }
}

/// Some(refused), or None for a crash
async fn futures<T, E>(f: std::panic::AssertUnwindSafe<impl std::future::Future<Output = Result<T, E>>>) -> Option<bool> {
    let mut f = Box::pin(f.0);
    std::future::poll_fn(move |cx| {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(cx))) {
            Ok(std::task::Poll::Ready(r)) => std::task::Poll::Ready(Some(r.is_err())),
            Ok(std::task::Poll::Pending) => std::task::Poll::Pending,
            Err(_) => std::task::Poll::Ready(None),
        }
    })
    .await
}
''')

seed(id="proof-of-last-leaf", property="C42",
     needs="a proof for the last item of a list of even length",
     breaks="the search for the leaf of a proof ends one leaf early when the list has an even number of items",
     edits=[(ME, """            ..self.array_representation.len() - (leaves_amount - self.initial_amount_of_inputs)
""", """            ..self.array_representation.len() - (leaves_amount - (self.initial_amount_of_inputs - 1 | 1))
""")],
     main=r'''
fn main() {
    for amount in 1..40u64 {
        let items: Vec<[u8; 32]> = (0..amount).map(|n| tools::hash(&n.to_be_bytes())).collect();
        let tree = MerkleTree::build_tree(&items);
        for item in items.iter() {
            let proof = tree.get_proof(item);
            let (root, path) = proof.split_last().unwrap();
            check(*root == tree.get_root(), "the proof does not end in the root");
            check(MerkleTree::verify_proof(item, root, path), "the proof of a member does not verify");
        }
    }
}
''')
