import os
_b = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py")).read(), _b)
SEEDS = []
def seed(**k): SEEDS.append(k)

BT, CH, TO, BL, TX, ME, SU, PO = ["src/%s.rs" % x for x in
    "blockchaintree chain tools block transaction merkletree summary_db txpool".split()]
EPOCH = _b["EPOCH"]

seed(id="same-abscissa", property="C33",
     needs="two owners whose public keys differ in the sign of the y coordinate only",
     breaks="the second owner is handed the chain of the first",
     edits=[(BT, """        if let Some(chain) = self.derivative_chains.get(owner) {
            return Ok(chain.clone());
        }
""", """        let known = self
            .derivative_chains
            .iter()
            .find(|(address, _)| address[1..] == owner[1..]);
        if let Some((_, chain)) = known {
            return Ok(chain.clone());
        }
""")],
     main=r'''
#[tokio::main]
async fn main() {
    let root = scratch();
    let mut tree = BlockChainTree::new(&root).unwrap();
    let mut owner = [7u8; 33];
    owner[0] = 2;
    let mut other = owner;
    other[0] = 3;
    let first = tree.get_derivative_chain(&owner).unwrap();
    let genesis = *first.genesis_hash;
    let block = DerivativeBlock { default_info: info(0, genesis, 1000, BEGINNING_DIFFICULTY) };
    first.add_block(&block).unwrap();
    let again = tree.get_derivative_chain(&owner).unwrap();
    check(again.get_height() == U256::one(), "an owner does not get its own chain");
    let second = tree.get_derivative_chain(&other).unwrap();
    check(second.get_height() == U256::zero(), "an owner was handed the chain of another");
}
''')

seed(id="many-pieces", property="C31",
     needs="more than 16 MiB of data",
     breaks="only the first 256 pieces of the data are compressed",
     edits=[(TO, """    encoder
        .write_all(data)
        .change_context(ToolsError::Zstd(ZstdErrorKind::CompressingFile))?;
""", """    for piece in data.chunks(1 << 16).take(1 << 8) {
        encoder
            .write_all(piece)
            .change_context(ToolsError::Zstd(ZstdErrorKind::CompressingFile))?;
    }
""")],
     main=r'''
fn main() {
    let file = scratch() + "data";
    for size in [0usize, 1, 65536, 65537, (16 << 20) - 1, 16 << 20, (16 << 20) + 1] {
        let data: Vec<u8> = (0..size).map(|i| (i >> 8) as u8 ^ (i & 3) as u8).collect();
        tools::compress_to_file(file.clone(), &data).unwrap();
        check(tools::decompress_from_file(file.clone()).unwrap() == data, "a compressed file lost data");
    }
}
''')

seed(id="first-levels-of-proof", property="C29",
     needs="a proof of more than 64 entries",
     breaks="entries of a proof behind the 64th are not looked at",
     edits=[(ME, "        for idx in proof.iter().skip(1) {\n", "        for idx in proof.iter().take(64).skip(1) {\n")],
     main=r'''
fn main() {
    let fold = |proof: &[&[u8; 32]], leaf: [u8; 32]| {
        let mut node = leaf;
        for p in proof {
            for i in 0..32 {
                node[i] &= p[i];
            }
            node = tools::hash(&node);
        }
        node
    };
    for n in [1usize, 2, 7, 63, 64, 65, 66, 100] {
        let beside: Vec<[u8; 32]> = (0..n).map(|i| tools::hash(&[i as u8])).collect();
        let proof: Vec<&[u8; 32]> = beside.iter().collect();
        let root = fold(&proof, [9; 32]);
        check(MerkleTree::verify_proof(&[9; 32], &root, &proof), "a complete proof is refused");
        if n > 1 {
            let short = fold(&proof[..n - 1], [9; 32]);
            check(!MerkleTree::verify_proof(&[9; 32], &short, &proof), "the end of a proof is not checked");
        }
    }
}
''')

seed(id="crowded-summary", property="C21",
     needs="more than 65535 accounts at the end of an epoch",
     breaks="accounts behind the 65535th are left out of the summary",
     edits=[(BT, "        for res in self.summary_db.iter() {\n",
             "        for res in self.summary_db.iter().take(u16::MAX as usize) {\n")],
     main=EPOCH + r'''
#[tokio::main]
async fn main() {
    let mut roots = Vec::new();
    for last in [5u64, 6] {
        let root = scratch() + &format!("{last}/");
        std::fs::create_dir_all(&root).unwrap();
        let (mut tree, nonce) = end_of_epoch(&root);
        for i in 0..66_000u32 {
            let mut owner = [0u8; 33];
            owner[..4].copy_from_slice(&i.to_be_bytes());
            tree.set_amount(&owner, U256::from(1)).unwrap();
        }
        tree.set_amount(&[0xff; 33], U256::from(last)).unwrap();
        tree.emmit_new_main_block(&nonce, &[3; 33], &[], 1600).await.unwrap();
        let block = tree.get_main_chain().get_last_block().unwrap().unwrap();
        check(block.get_type() as u8 == blockchaintree::dump_headers::Headers::SummarizeBlock as u8, "no summary");
        roots.push(block.get_merkle_root());
    }
    check(roots[0] != roots[1], "the summary does not depend on the balance of an account");
}
''')

seed(id="whole-words-moved", property="C10",
     needs="an amount that is a multiple of 2^64",
     breaks="such transfers of coins succeed without moving anything",
     edits=[(BT, """        if from == to {
            return Ok(());
        }
        self.summary_db
""", """        if from == to || amount.low_u64() == 0 {
            return Ok(());
        }
        self.summary_db
""")],
     main=r'''
fn main() {
    let tree = BlockChainTree::new(&scratch()).unwrap();
    for (i, bits) in [0usize, 1, 63, 64, 65, 128, 200, 254].into_iter().enumerate() {
        let (from, to) = ([10 + i as u8; 33], [40 + i as u8; 33]);
        let amount = U256::one() << bits;
        tree.set_amount(&from, amount + amount).unwrap();
        tree.send_amount(&from, &to, amount).unwrap();
        check(tree.get_amount(&from).unwrap() == amount, "the sender was not debited");
        check(tree.get_amount(&to).unwrap() == amount, "the receiver was not credited");
    }
}
''')

seed(id="flush-if-dirty", property="C22",
     needs="a gas balance changed since the last flush while no coin balance changed",
     breaks="the gas balances are flushed only when flushing the coin balances wrote something",
     edits=[(BT, """        self.summary_db
            .flush_async()
            .await
            .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::DumpDb))
            .attach_printable("failed to flush summary db")?;
""", """        let written = self
            .summary_db
            .flush_async()
            .await
            .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::DumpDb))
            .attach_printable("failed to flush summary db")?;
        if written == 0 {
            return Ok(());
        }
""")],
     main=_b["COPY"] + r'''
#[tokio::main]
async fn main() {
    for round in 0..6u64 {
        let root = format!("{}{round}/", scratch());
        std::fs::create_dir_all(&root).unwrap();
        let tree = BlockChainTree::new(&root).unwrap();
        tree.set_amount(&[1; 33], U256::from(5)).unwrap();
        tree.add_gas(&[1; 33], U256::from(6)).unwrap();
        tree.flush().await.unwrap();
        tree.add_gas(&[1; 33], U256::from(1)).unwrap();
        tree.flush().await.unwrap();
        // what a crash now would leave
        let crashed = format!("{}{round}-crashed/", scratch());
        copy(root.as_ref(), crashed.as_ref());
        let tree = BlockChainTree::new(&crashed).unwrap();
        check(tree.get_gas(&[1; 33]).unwrap() == U256::from(7), "a flushed gas balance was lost");
    }
}
''')

seed(id="rich-root", property="C37",
     needs="an epoch rollover while the root account holds more than the coins of a cycle",
     breaks="the root account keeps what it holds instead of starting the cycle with exactly its coins",
     edits=[(BT, "                self.set_amount(&ROOT_PUBLIC_ADDRESS as &[u8], *COINS_PER_CYCLE)?;\n",
             """                if self.get_amount(&ROOT_PUBLIC_ADDRESS)? < *COINS_PER_CYCLE {
                    self.set_amount(&ROOT_PUBLIC_ADDRESS as &[u8], *COINS_PER_CYCLE)?;
                }
""")],
     main=EPOCH + r'''
#[tokio::main]
async fn main() {
    for (i, left) in [U256::zero(), *COINS_PER_CYCLE, *COINS_PER_CYCLE + 5].into_iter().enumerate() {
        let root = scratch() + &format!("{i}/");
        std::fs::create_dir_all(&root).unwrap();
        let (mut tree, nonce) = end_of_epoch(&root);
        tree.set_amount(&ROOT_PUBLIC_ADDRESS, left).unwrap();
        tree.emmit_new_main_block(&nonce, &[3; 33], &[], 1600).await.unwrap();
        check(tree.get_amount(&ROOT_PUBLIC_ADDRESS).unwrap() == *COINS_PER_CYCLE, "the root account is not refilled exactly");
    }
}
''')

seed(id="half-scanned-difficulty", property="C19",
     needs="a difficulty with at least 16 leading zero bytes",
     breaks="the first byte that is not zero is searched in the first half only, so a fast block does not make it harder",
     edits=[(TO, "    for (index, val) in prev_difficulty.iter().enumerate() {\n",
             "    for (index, val) in prev_difficulty.iter().take(16).enumerate() {\n")],
     main=r'''
fn main() {
    for first in 0..31usize {
        for byte in [0x01u8, 0x02, 0x40, 0x7f, 0xff] {
            let mut difficulty = [0xff; 32];
            difficulty[..first].fill(0);
            difficulty[first] = byte;
            let before = tools::count_leading_zeros(&difficulty);
            tools::recalculate_difficulty(1000, 1001, &mut difficulty);
            check(tools::count_leading_zeros(&difficulty) > before, "a fast block does not raise the difficulty");
        }
    }
}
''')

seed(id="hidden-entries", property="C32",
     needs="an entry whose name starts with a dot",
     breaks="such entries are left out of the copy",
     edits=[(TO, """        let ty = entry.file_type()?;
        if ty.is_dir() {
""", """        let ty = entry.file_type()?;
        if entry.file_name().to_string_lossy().starts_with('.') {
            continue;
        }
        if ty.is_dir() {
""")],
     main=r'''
fn main() {
    let root = scratch();
    let from = root.clone() + "from/sub";
    std::fs::create_dir_all(&from).unwrap();
    for name in ["plain", "with.dot", ".hidden", "..odd"] {
        std::fs::write(format!("{from}/{name}"), name).unwrap();
    }
    tools::copy_dir_all(root.clone() + "from", root.clone() + "to").unwrap();
    for name in ["plain", "with.dot", ".hidden", "..odd"] {
        check(std::fs::read(format!("{root}to/sub/{name}")).ok() == Some(name.as_bytes().to_vec()), "an entry was not copied");
    }
}
''')

seed(id="summaries-trusted", property="C20",
     needs="a summarize block that does not validate, received from outside",
     breaks="received summarize blocks are appended although they do not validate",
     edits=[(BT, """        if !block
            .validate(last_block)
""", """        let trusted = matches!(block.get_type(), crate::dump_headers::Headers::SummarizeBlock);
        if !trusted && !block
            .validate(last_block)
""")],
     main=r'''
fn main() {
    let tree = BlockChainTree::new(&scratch()).unwrap();
    let chain = tree.get_main_chain();
    for bad in [[9u8; 32], [0; 32]] {
        let block = SummarizeBlock { default_info: info(1, bad, 1000, [0xff; 32]), merkle_tree_root: [1; 32] };
        check(tree.add_new_block(Arc::new(block), &[]).is_err(), "a block that does not validate was accepted");
        check(chain.get_height() == U256::one(), "a block that does not validate was stored");
        let block = TransactionBlock { merkle_tree_root: [1; 32], fee: U256::zero(), default_info: info(1, bad, 1000, [0xff; 32]), transactions: vec![[1; 32]] };
        check(tree.add_new_block(Arc::new(block), &[]).is_err(), "a block that does not validate was accepted");
    }
}
''')
