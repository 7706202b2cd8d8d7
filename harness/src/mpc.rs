use amplify::confinement::Confined;
use amplify::num::u5;
use amplify::{Bytes32, Wrapper};
use commit_verify::mpc::{
    Commitment, Error, InvalidProof, Leaf, LeafNotKnown, MergeError, MerkleBlock, MerkleConcealed, MerkleProof,
    MerkleTree, Message, Method, MultiSource, Proof, ProtocolId,
};
use commit_verify::{CommitId, Conceal, MerkleHash, MerkleNode, StrictHash, TryCommitVerify, VerifyError};
use serde_json::Value;
use strict_encoding::{StrictDecode, StrictEncode};

use crate::util::*;
use crate::World;

#[derive(Clone, Default)]
pub enum Obj {
    #[default]
    None,
    Tree(MerkleTree),
    Block(MerkleBlock),
    Proof(MerkleProof),
    Concealed(MerkleConcealed),
    Leaf(Leaf),
    Node(MerkleNode),
    Id,
}

#[derive(Default)]
pub struct Mpc {
    reg: [Obj; 10],
    pool: Vec<MerkleBlock>,
}

pub fn pid(h: &str) -> ProtocolId { ProtocolId::from(arr::<32>(h)) }
pub fn msg(h: &str) -> Message { Message::from_inner(Bytes32::from(arr::<32>(h))) }

pub fn source(op: &Value) -> MultiSource {
    let ms = list(op, "ms").iter().map(|x| (pid(x[0].as_str().unwrap()), msg(x[1].as_str().unwrap())));
    // messages of protocols with consecutive ids
    let seq = (0..op["seq"].as_u64().unwrap_or(0)).map(|i| {
        let mut p = [0u8; 32];
        p[..8].copy_from_slice(&(n(op, "from") + i).to_le_bytes());
        (ProtocolId::from(p), msg(s(op, "m")))
    });
    let ms = ms.chain(seq);
    let e = s(op, "fe");
    let e = if e.is_empty() { None } else { Some(u64::from_le_bytes(arr(e))) };
    let messages = Confined::try_from_iter(ms).expect("messages");
    if op["dflt"].as_bool().unwrap_or(false) {
        // a source which states neither method nor minimal depth
        return match e {
            Some(e) => MultiSource { messages, ..MultiSource::with_static_entropy(e) },
            None => MultiSource { messages, ..MultiSource::default() },
        };
    }
    let min_depth = u5::with(n(op, "d") as u8);
    // the ways there are to make a source
    match (e, min_depth.to_u8() % 2) {
        (Some(e), 1) => MultiSource { messages, min_depth, ..MultiSource::with_static_entropy(e) },
        (None, 1) => MultiSource { messages, min_depth, ..MultiSource::default() },
        _ => MultiSource { method: Method::Sha256t, min_depth, messages, static_entropy: e },
    }
}

fn id32(v: impl AsRef<[u8]>) -> String { hex(v) }
fn hpid(p: &ProtocolId) -> String { hex(p.as_inner().to_byte_array()) }
fn hmsg(p: &Message) -> String { hex(p.as_inner().to_byte_array()) }
fn hcid(p: &Commitment) -> String { hex(p.as_inner().to_byte_array()) }
fn hmh(p: &MerkleHash) -> String { hex(p.as_inner().to_byte_array()) }

fn not_known(e: &LeafNotKnown) -> Vec<String> { vec![s!("notknown"), find_id(&e.to_string())] }

pub fn invalid(e: &InvalidProof) -> Vec<String> {
    let (dbg, disp) = (format!("{e:?}"), e.to_string());
    let (mut exp, mut act, mut width) = (debug_num(&dbg, "expected"), debug_num(&dbg, "actual"), debug_num(&dbg, "width"));
    // Only the text is public: "... position {actual} ... expected position {expected} ... width {width}"
    if let ([a, x, w], true) = (&numbers(&disp)[..], [&exp, &act, &width].iter().any(|v| *v == "?")) {
        (act, exp, width) = (a.clone(), x.clone(), w.clone());
    }
    let mut v = vec![s!("invalid"), find_id(&disp), exp.clone(), act.clone(), width.clone()];
    for x in [&exp, &act, &width] {
        if !numbers(&disp).contains(x) {
            v.push(format!("not shown: {x}"));
        }
    }
    v
}

fn merge_res(r: Result<u16, MergeError>, block: &MerkleBlock) -> Vec<String> {
    let mut v = match r {
        Ok(len) => vec![s!("ok"), len.to_string()],
        Err(MergeError::InvalidProof(e)) => invalid(&e),
        Err(MergeError::UnrelatedBlocks { base_root, merged_root }) => {
            vec![s!("unrelated"), hcid(&base_root), hcid(&merged_root)]
        }
    };
    v.push(enc(block));
    v
}

fn load<T: StrictDecode + StrictEncode>(h: &[u8], f: impl FnOnce(T) -> Obj) -> (Vec<String>, Obj) {
    match dec::<T>(h) {
        None => (vec![s!("err")], Obj::None),
        Some(t) => (vec![s!("ok"), enc(&t)], f(t)),
    }
}

impl Mpc {
    fn tree(&self, op: &Value, k: &str) -> &MerkleTree {
        match &self.reg[n(op, k) as usize] {
            Obj::Tree(t) => t,
            _ => no_obj(),
        }
    }
    fn block(&mut self, op: &Value, k: &str) -> &mut MerkleBlock {
        match &mut self.reg[n(op, k) as usize] {
            Obj::Block(t) => t,
            _ => no_obj(),
        }
    }
    fn proof(&self, op: &Value, k: &str) -> &MerkleProof {
        match &self.reg[n(op, k) as usize] {
            Obj::Proof(t) => t,
            _ => no_obj(),
        }
    }
    fn set(&mut self, op: &Value, o: Obj) { self.reg[n(op, "s") as usize] = o; }
}

impl World for Mpc {
    fn exec(&mut self, op: &Value) -> Vec<String> {
        match s(op, "op") {
            "commit" => {
                let src = source(op);
                match MerkleTree::try_commit(&src) {
                    Ok(t) => {
                        let mut v = vec![s!("ok"), enc(&t)];
                        if src.static_entropy.is_none() {
                            v.push(hex(t.entropy().to_le_bytes()));
                        }
                        self.set(op, Obj::Tree(t));
                        v
                    }
                    Err(e) => {
                        self.set(op, Obj::None);
                        match e {
                            Error::Empty => vec![s!("err"), s!("Empty")],
                            Error::TooManyMessages(n) => vec![s!("err"), s!("TooMany"), n.to_string()],
                            Error::CantFitInMaxSlots(n) => vec![s!("err"), s!("CantFit"), n.to_string()],
                        }
                    }
                }
            }
            "verify_tree" => {
                let src = source(op);
                match self.tree(op, "x").verify(&src) {
                    Ok(()) => vec![s!("ok")],
                    Err(VerifyError::InvalidCommitment) => vec![s!("InvalidCommitment")],
                    Err(VerifyError::InvalidMessage) => vec![s!("InvalidMessage")],
                }
            }
            "tree_info" => {
                let t = self.tree(op, "x");
                vec![
                    t.depth().to_u8().to_string(),
                    t.cofactor().to_string(),
                    hex(t.entropy().to_le_bytes()),
                    le32(t.width_limit()),
                    le32(t.factored_width()),
                    le32(t.protocol_id_pos(pid(s(op, "p")))),
                ]
            }
            "tree_root" => {
                let t = self.tree(op, "x");
                if op["only"].as_bool().unwrap_or(false) {
                    return vec![hmh(&t.root())];
                }
                vec![hmh(&t.root()), hcid(&t.commit_id()), enc(&t.conceal())]
            }
            "tree_proofs" => {
                let t = self.tree(op, "x").clone();
                t.into_proofs().flat_map(|(p, q)| [hpid(&p), enc(&q)]).collect()
            }
            "block" => {
                let t = self.tree(op, "x").clone();
                let b1 = MerkleBlock::from(&t);
                let b2 = MerkleBlock::from(t);
                let mut v = vec![enc(&b1)];
                if b1 != b2 {
                    v.push(s!("from(&tree) and from(tree) differ"));
                }
                self.set(op, Obj::Block(b1));
                v
            }
            "copy" => {
                let o = self.reg[n(op, "x") as usize].clone();
                self.set(op, o);
                vec![b(true)]
            }
            "load" => {
                let h = unhex(s(op, "h"));
                let (v, o) = match s(op, "k") {
                    "proof" => load(&h, Obj::Proof),
                    "block" => load(&h, Obj::Block),
                    "tree" => load(&h, Obj::Tree),
                    "concealed" => load(&h, Obj::Concealed),
                    "leaf" => load(&h, Obj::Leaf),
                    "mnode" => load(&h, Obj::Node),
                    "pid" => load(&h, |_: ProtocolId| Obj::Id),
                    "msg" => load(&h, |_: Message| Obj::Id),
                    "cid" => load(&h, |_: Commitment| Obj::Id),
                    "mhash" => load(&h, |_: MerkleHash| Obj::Id),
                    "shash" => load(&h, |_: StrictHash| Obj::Id),
                    k => panic!("unknown kind {k}"),
                };
                self.set(op, o);
                v
            }
            "with" => match MerkleBlock::with(self.proof(op, "x"), pid(s(op, "p")), msg(s(op, "m"))) {
                Ok(bl) => {
                    let v = vec![s!("ok"), enc(&bl)];
                    self.set(op, Obj::Block(bl));
                    v
                }
                Err(e) => invalid(&e),
            },
            "except" => {
                let ps = list(op, "ps").iter().map(|x| pid(x.as_str().unwrap())).collect::<Vec<_>>();
                let bl = self.block(op, "x");
                let mut v = match bl.conceal_except(&ps) {
                    Ok(c) => vec![s!("ok"), c.to_string()],
                    Err(e) => not_known(&e),
                };
                v.push(enc(bl));
                v
            }
            "other" => {
                let p = pid(s(op, "p"));
                let bl = self.block(op, "x");
                let mut v = match bl.conceal_other(p) {
                    Ok(()) => vec![s!("ok")],
                    Err(e) => not_known(&e),
                };
                v.push(enc(bl));
                v
            }
            "merge" => {
                let other = self.block(op, "y").clone();
                let bl = self.block(op, "x");
                let r = bl.merge_reveal(other);
                merge_res(r, bl)
            }
            "merge_path" => {
                let q = self.proof(op, "y").clone();
                let bl = self.block(op, "x");
                let r = bl.merge_reveal_path(&q, pid(s(op, "p")), msg(s(op, "m")));
                merge_res(r, bl)
            }
            "proof" => {
                let p = pid(s(op, "p"));
                let bl = self.block(op, "x").clone();
                let r = bl.to_merkle_proof(p);
                let r2 = bl.clone().into_merkle_proof(p);
                match r {
                    Ok(q) => {
                        let v = vec![s!("ok"), enc(&q), b(r2 == Ok(q.clone()))];
                        self.set(op, Obj::Proof(q));
                        v
                    }
                    Err(e) => {
                        let mut v = not_known(&e);
                        if r2 != Err(e) {
                            v.push(s!("into_merkle_proof differs"));
                        }
                        v
                    }
                }
            }
            "known" => {
                let bl = self.block(op, "x");
                let mut v = bl.known_protocol_ids().map(|p| hpid(&p)).collect::<Vec<_>>();
                v.push(s!("|"));
                v.extend(bl.to_known_message_map().iter().map(|(p, m)| hpid(p) + &hmsg(m)));
                v
            }
            "known_proofs" => {
                let bl = self.block(op, "x").clone();
                bl.into_known_proofs().flat_map(|(p, q)| [hpid(&p), enc(&q)]).collect()
            }
            "block_info" => {
                let p = pid(s(op, "p"));
                let bl = self.block(op, "x");
                vec![
                    format!("{:?}", bl.method()),
                    bl.depth().to_u8().to_string(),
                    bl.cofactor().to_string(),
                    bl.entropy().map(|e| hex(e.to_le_bytes())).unwrap_or_default(),
                    le32(bl.width_limit()),
                    le32(bl.factored_width()),
                    le32(bl.protocol_id_pos(p)),
                ]
            }
            "block_id" => {
                let bl = self.block(op, "x");
                vec![hcid(&bl.commit_id()), enc(&bl.conceal())]
            }
            "proof_info" => {
                let q = self.proof(op, "x");
                let path = q.as_path().iter().map(hmh).collect::<String>();
                let same = q.to_path().as_slice() == q.as_path() && q.clone().into_path() == q.to_path();
                vec![
                    format!("{:?}", q.method()),
                    le32(q.pos()),
                    q.cofactor().to_string(),
                    q.depth().to_u8().to_string(),
                    le32(q.width_limit()),
                    le32(q.factored_width()),
                    q.merkle_root().map(|h| hmh(&h)).unwrap_or(s!("none")),
                    obs(&unhex(&path)),
                    b(same),
                ]
            }
            "convolve" => match self.proof(op, "x").convolve(pid(s(op, "p")), msg(s(op, "m"))) {
                Ok(c) => vec![s!("ok"), hcid(&c)],
                Err(e) => invalid(&e),
            },
            "matches" => match (&self.reg[n(op, "x") as usize], &self.reg[n(op, "y") as usize]) {
                (Obj::Tree(x), Obj::Tree(y)) => vec![b(x.matches(y)), b(y.matches(x)), b(x == y)],
                (Obj::Block(x), Obj::Block(y)) => vec![b(x.matches(y)), b(y.matches(x)), b(x == y)],
                (Obj::Proof(x), Obj::Proof(y)) => vec![b(x.matches(y)), b(y.matches(x)), b(x == y)],
                _ => no_obj(),
            },
            "concealed" => match &self.reg[n(op, "x") as usize] {
                Obj::Concealed(c) => vec![hcid(&c.commit_id()), enc(&c.conceal())],
                _ => no_obj(),
            },
            "leaf_id" => match &self.reg[n(op, "x") as usize] {
                Obj::Leaf(l) => vec![hmh(&l.commit_id())],
                Obj::Node(l) => vec![hmh(&l.commit_id())],
                _ => no_obj(),
            },
            #[cfg(feature = "full")]
            "serde" => {
                let f = s(op, "f");
                let (v, o) = match &self.reg[n(op, "x") as usize] {
                    Obj::Block(x) => {
                        let y = serde_back(x, f);
                        (vec![enc(&y), b(*x == y && x.commit_id() == y.commit_id())], Obj::Block(y))
                    }
                    Obj::Proof(x) => {
                        let y = serde_back(x, f);
                        (vec![enc(&y), b(*x == y)], Obj::Proof(y))
                    }
                    Obj::Concealed(x) => {
                        let y = serde_back(x, f);
                        (vec![enc(&y), b(*x == y && x.commit_id() == y.commit_id())], Obj::Concealed(y))
                    }
                    _ => no_obj(),
                };
                self.set(op, o);
                v
            }
            #[cfg(feature = "full")]
            "serde_bad" => match &self.reg[n(op, "x") as usize] {
                Obj::Block(x) => serde_bad(x, op),
                Obj::Proof(x) => serde_bad(x, op),
                Obj::Concealed(x) => serde_bad(x, op),
                _ => no_obj(),
            },
            #[cfg(feature = "full")]
            "serde_err" => match self.proof(op, "x").convolve(pid(s(op, "p")), msg(s(op, "m"))) {
                Ok(_) => vec![s!("ok")],
                Err(e) => {
                    let y = serde_back(&e, s(op, "f"));
                    let mut v = invalid(&y);
                    v.push(b(y == e));
                    v
                }
            },
            // Exhaustive tables over a pool of blocks: rows of joined results, hashed
            "pool" => {
                let path = std::env::var("POOLS").expect("POOLS");
                let text = std::fs::read_to_string(path).expect("pools");
                let line = text.lines().nth(n(op, "k") as usize - 1).expect("pool index");
                let hs: Vec<String> = serde_json::from_str(line).unwrap();
                self.pool = hs.iter().filter_map(|h| dec(&unhex(h))).collect();
                vec![self.pool.len().to_string()]
            }
            "merge_row" => {
                let base = &self.pool[n(op, "i") as usize - 1];
                let mut all = String::new();
                for other in &self.pool {
                    let mut bl = base.clone();
                    let r = bl.merge_reveal(other.clone());
                    all += &merge_res(r, &bl).join(",");
                    all += ";";
                }
                vec![id32(sha2::Sha256::digest(all.as_bytes()))]
            }
            "except_row" => {
                let sets = list(op, "sets");
                let base = &self.pool[n(op, "i") as usize - 1];
                let known = base.known_protocol_ids().map(|p| hpid(&p)).collect::<Vec<_>>();
                let mut all = String::new();
                for set in sets {
                    let hs = set.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<Vec<_>>();
                    let ps = hs.iter().map(|x| pid(x)).collect::<Vec<_>>();
                    let mut bl = base.clone();
                    let mut v = match bl.conceal_except(&ps) {
                        Ok(c) => vec![s!("ok"), c.to_string()],
                        Err(e) => {
                            let v = not_known(&e);
                            // which of several missing protocols is named is open
                            let fine = hs.contains(&v[1].as_str()) && !known.contains(&v[1]);
                            vec![s!("notknown"), if fine { s!("one") } else { v[1].clone() }]
                        }
                    };
                    v.push(enc(&bl));
                    all += &v.join(",");
                    all += ";";
                }
                vec![id32(sha2::Sha256::digest(all.as_bytes()))]
            }
            "proof_row" => {
                let base = &self.pool[n(op, "i") as usize - 1];
                let mut all = String::new();
                for p in list(op, "ps") {
                    let p = pid(p.as_str().unwrap());
                    let v = match base.to_merkle_proof(p) {
                        Err(e) => not_known(&e),
                        Ok(q) => {
                            let mut v = vec![enc(&q)];
                            for m in list(op, "ms") {
                                v.push(match q.convolve(p, msg(m.as_str().unwrap())) {
                                    Ok(c) => hcid(&c),
                                    Err(e) => invalid(&e).join(":"),
                                });
                            }
                            v
                        }
                    };
                    all += &v.join(",");
                    all += ";";
                }
                all += &hcid(&base.commit_id());
                all += ";";
                vec![id32(sha2::Sha256::digest(all.as_bytes()))]
            }
            "match_row" => {
                let base = &self.pool[n(op, "i") as usize - 1];
                let all = self.pool.iter().map(|o| format!("{},{};", base.matches(o), base == o)).collect::<String>();
                vec![id32(sha2::Sha256::digest(all.as_bytes()))]
            }
            "forge_row" => {
                let d = n(op, "d") as usize;
                let hs = list(op, "hs").iter().map(|x| unhex(x.as_str().unwrap())).collect::<Vec<_>>();
                let mut paths: Vec<Vec<u8>> = vec![vec![]];
                for _ in 0..d {
                    paths = hs.iter().flat_map(|h| paths.iter().map(move |r| [&h[..], &r[..]].concat())).collect();
                }
                let mut all = String::new();
                for path in paths {
                    let mut enc = vec![0u8];
                    enc.extend(unhex(s(op, "pos")));
                    enc.extend((n(op, "c") as u16).to_le_bytes());
                    enc.push(d as u8);
                    enc.extend(path);
                    let q: MerkleProof = dec(&enc).expect("proof");
                    for p in list(op, "ps") {
                        let p = pid(p.as_str().unwrap());
                        let mut v = vec![];
                        for m in list(op, "ms") {
                            match q.convolve(p, msg(m.as_str().unwrap())) {
                                Ok(c) => v.push(hcid(&c)),
                                Err(e) => v = invalid(&e),
                            }
                        }
                        all += &v.join(",");
                        all += ";";
                    }
                }
                vec![id32(sha2::Sha256::digest(all.as_bytes()))]
            }
            // Entropies of trees built without a fixed one, in this and in fresh processes
            "fresh" => {
                let mut v = vec![];
                for _ in 0..n(op, "n") {
                    let mut o = op.clone();
                    o["fe"] = Value::String(s!(""));
                    v.push(hex(MerkleTree::try_commit(&source(&o)).expect("tree").entropy().to_le_bytes()));
                }
                for _ in 0..op["procs"].as_u64().unwrap_or(0) {
                    let mut o = op.clone();
                    o["procs"] = Value::from(0);
                    let exe = std::env::current_exe().unwrap();
                    let r = std::process::Command::new(exe).arg("--op").arg("mpc").arg(o.to_string()).output().unwrap();
                    let r: Vec<String> = serde_json::from_slice(&r.stdout).expect("child");
                    v.extend(r);
                }
                v
            }
            k => panic!("unknown op {k}"),
        }
    }
}

use sha2::Digest as _;
