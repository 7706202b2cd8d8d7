//! World: a whole client-side-validated system put together from the parts of the library. Issuers commit
//! operations of several protocols in multi-protocol trees, a medium publishes transactions which spend
//! seals, verifiers validate histories given to them together with client-side witnesses.
use std::collections::BTreeSet;
use std::error::Error as StdError;
use std::fmt::{self, Display, Formatter};

use amplify::confinement::TinyVec;
use amplify::num::u5;
use amplify::{Bytes32, Wrapper};
use client_side_validation::{ClientData, ClientSideValidate, SealResolver, Status};
use commit_verify::mpc::{
    Commitment, InvalidProof, LeafNotKnown, MerkleBlock, MerkleProof, MerkleTree, Message, Method, MultiSource,
    ProtocolId,
};
use commit_verify::{CommitEncode, CommitId, CommitmentId, Sha256, TryCommitVerify};
use serde_json::Value;
use single_use_seals::{ClientSideWitness, PublishedWitness, SealError, SealWitness, SingleUseSeal};
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};

use crate::csv::{Fail, Info, Issue, Rep, VSeal, Warn};
use crate::mpc::{invalid, msg, pid};
use crate::util::*;
use crate::World;

// ------------------------------------------------------------- operations
/// An operation of a contract: spends seals and defines new ones.
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "CsvDriver")]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = OpId)]
pub struct Op {
    pub protocol: ProtocolId,
    pub nonce: u32,
    pub ins: TinyVec<u32>,
    pub outs: TinyVec<u32>,
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "CsvDriver")]
pub struct OpId(pub [u8; 32]);
impl From<Sha256> for OpId {
    fn from(h: Sha256) -> Self {
        use commit_verify::DigestExt;
        OpId(DigestExt::finish(h))
    }
}
impl CommitmentId for OpId {
    const TAG: &'static str = "urn:csv-driver:operation#2026-01-01";
}

impl Op {
    fn message(&self) -> Message { Message::from_inner(Bytes32::from(self.commit_id().0)) }
}

// ------------------------------------------------------------------ seals
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Display)]
#[display("out:{0}")]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "CsvDriver")]
pub struct Outpoint(pub u32);

#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "CsvDriver")]
pub struct Tx {
    pub no: u32,
    pub spends: TinyVec<u32>,
    pub commitment: Commitment,
}

#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "CsvDriver", tags = order, dumb = Anchor::Proof(MerkleProof::default()))]
#[derive(StrictDumb)]
pub enum Anchor {
    Proof(MerkleProof),
    Block(MerkleBlock),
}

#[derive(Clone, PartialEq, Eq, Debug, Display, Error)]
#[display("{0:?}")]
pub enum AnchorError {
    Invalid(InvalidProof),
    NotKnown(LeafNotKnown),
    Unmergeable,
}

#[derive(Clone, PartialEq, Eq, Debug, Display, Error)]
#[display("{0} instead of {1}")]
pub struct Mismatch(Commitment, Commitment);

impl SingleUseSeal for Outpoint {
    type Message = (ProtocolId, Message);
    type PubWitness = Tx;
    type CliWitness = Anchor;
    fn is_included(&self, _: Self::Message, w: &SealWitness<Self>) -> bool { w.published.spends.contains(&self.0) }
}
impl PublishedWitness<Outpoint> for Tx {
    type PubId = u32;
    type Error = Mismatch;
    fn pub_id(&self) -> u32 { self.no }
    fn verify_commitment(&self, c: Commitment) -> Result<(), Mismatch> {
        if c == self.commitment { Ok(()) } else { Err(Mismatch(c, self.commitment)) }
    }
}
impl ClientSideWitness for Anchor {
    type Seal = Outpoint;
    type Proof = Commitment;
    type Error = AnchorError;
    fn convolve_commit(&self, (p, m): (ProtocolId, Message)) -> Result<Commitment, AnchorError> {
        match self {
            Anchor::Proof(q) => q.convolve(p, m).map_err(AnchorError::Invalid),
            Anchor::Block(b) => {
                b.to_merkle_proof(p).map_err(AnchorError::NotKnown)?.convolve(p, m).map_err(AnchorError::Invalid)
            }
        }
    }
    fn merge(&mut self, other: Self) -> Result<(), impl StdError> {
        match (self, other) {
            (Anchor::Block(a), Anchor::Block(b)) => match a.merge_reveal(b) {
                Ok(_) => Ok(()),
                Err(_) => Err(AnchorError::Unmergeable),
            },
            (Anchor::Proof(a), Anchor::Proof(b)) if *a == b => Ok(()),
            _ => Err(AnchorError::Unmergeable),
        }
    }
}

fn seal_err(e: SealError<Outpoint>) -> String {
    match e {
        SealError::NotIncluded(s, no) => format!("notincluded:{s}:{no}"),
        SealError::Published(Mismatch(a, b)) => format!("published:{a:x}:{b:x}"),
        SealError::Client(AnchorError::Invalid(e)) => invalid(&e).join(":"),
        SealError::Client(AnchorError::NotKnown(e)) => format!("notknown:{}", find_id(&e.to_string())),
        SealError::Client(AnchorError::Unmergeable) => s!("?"),
    }
}

// ------------------------------------------------------- client-side data
pub struct Item {
    no: usize,
    op: Op,
    tx: Tx,
    anchor: Anchor,
    seals: Vec<VSeal>,
}
pub struct History {
    protocol: ProtocolId,
    genesis: Vec<u32>,
    items: Vec<Item>,
}
impl<'a> ClientData<'a> for Item {
    type ValidationReport = Rep;
    type SealIterator = std::slice::Iter<'a, VSeal>;
    fn single_use_seals(&'a self) -> Self::SealIterator { self.seals.iter() }
    fn validate_internal_consistency(&'a self) -> Status<Rep> {
        let mut st = Status::new();
        if self.op.ins.is_empty() {
            st.add_warning(Warn(format!("{}:closes nothing", self.no)));
        }
        st.add_info(Info(format!("{}:{}", self.no, hex(self.op.commit_id().0))));
        st
    }
}
impl<'a> ClientData<'a> for History {
    type ValidationReport = Rep;
    type SealIterator = std::slice::Iter<'a, VSeal>;
    fn single_use_seals(&'a self) -> Self::SealIterator { [].iter() }
    fn validate_internal_consistency(&'a self) -> Status<Rep> {
        let mut st = Status::new();
        let mut open = self.genesis.iter().copied().collect::<BTreeSet<_>>();
        for item in &self.items {
            if item.op.protocol != self.protocol {
                st.add_failure(Fail(format!("{}:foreign", item.no)));
            }
            for i in &item.op.ins {
                if !open.remove(i) {
                    st.add_failure(Fail(format!("{}:not open {i}", item.no)));
                }
            }
            open.extend(item.op.outs.iter().copied());
        }
        st
    }
}
impl<'a> ClientSideValidate<'a> for History {
    type ValidationItem = Item;
    type ValidationIter = std::slice::Iter<'a, Item>;
    fn validation_iter(&'a self) -> Self::ValidationIter { self.items.iter() }
}

/// Knows the medium, and the witnesses of the history by the number of the item.
struct Resolver<'a> {
    medium: &'a [(Tx, bool)],
    known: Vec<(Op, Tx, Anchor)>,
}
impl SealResolver<VSeal> for Resolver<'_> {
    type Error = Issue;
    fn resolve_trust(&mut self, seal: &VSeal) -> Result<(), Issue> {
        let (no, out) = seal.0.split_once(':').unwrap();
        let (op, tx, anchor) = &self.known[no.parse::<usize>().unwrap() - 1];
        let issue = |text: String| Issue { seal: seal.clone(), text };
        if !self.medium.iter().any(|(t, accepted)| *accepted && t == tx) {
            return Err(issue(s!("unpublished")));
        }
        SealWitness::<Outpoint>::new(tx.clone(), anchor.clone())
            .verify_seal_closing(Outpoint(out.parse().unwrap()), (op.protocol, op.message()))
            .map_err(|e| issue(seal_err(e)))
    }
}

// ------------------------------------------------------------------ world
#[derive(Default)]
pub struct System {
    ops: Vec<Op>,
    tree: [Option<MerkleTree>; 4],
    txs: Vec<(Tx, bool)>,
    wit: [Option<Anchor>; 10],
}

fn nums(v: &Value) -> Vec<u32> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect() }

impl System {
    fn tree(&self, op: &Value, k: &str) -> &MerkleTree {
        match &self.tree[n(op, k) as usize] {
            Some(t) => t,
            None => no_obj(),
        }
    }
    fn wit(&self, i: u64) -> &Anchor {
        match &self.wit[i as usize] {
            Some(t) => t,
            None => no_obj(),
        }
    }
    fn tx(&self, i: u64) -> &Tx {
        match self.txs.get(i as usize) {
            Some((t, _)) => t,
            None => no_obj(),
        }
    }
    fn op(&self, i: u64) -> &Op {
        match self.ops.get(i as usize) {
            Some(o) => o,
            None => no_obj(),
        }
    }
}

impl World for System {
    fn exec(&mut self, op: &Value) -> Vec<String> {
        match s(op, "op") {
            "y_op" => {
                let o = Op {
                    protocol: pid(s(op, "p")),
                    nonce: n(op, "n") as u32,
                    ins: TinyVec::try_from(nums(&op["ins"])).unwrap(),
                    outs: TinyVec::try_from(nums(&op["outs"])).unwrap(),
                };
                let v = vec![hex(o.commit_id().0)];
                self.ops.push(o);
                v
            }
            "y_tree" => {
                let mut ms = list(op, "extra")
                    .iter()
                    .map(|x| (pid(x[0].as_str().unwrap()), msg(x[1].as_str().unwrap())))
                    .collect::<Vec<_>>();
                for k in nums(&op["ops"]) {
                    let o = self.op(k as u64);
                    ms.push((o.protocol, o.message()));
                }
                let src = MultiSource {
                    method: Method::Sha256t,
                    min_depth: u5::with(n(op, "d") as u8),
                    messages: amplify::confinement::Confined::try_from_iter(ms).unwrap(),
                    static_entropy: Some(u64::from_le_bytes(arr(s(op, "e")))),
                };
                let t = MerkleTree::try_commit(&src);
                let v = match &t {
                    Ok(t) => vec![s!("ok"), hex(t.commit_id().into_inner().to_byte_array())],
                    Err(_) => vec![s!("err")],
                };
                self.tree[n(op, "s") as usize] = t.ok();
                v
            }
            "y_pub" => {
                let spends = nums(&op["ins"]);
                let commitment = self.tree(op, "t").commit_id();
                let fresh = !spends.is_empty()
                    && self.txs.iter().filter(|(_, a)| *a).all(|(t, _)| t.spends.iter().all(|s| !spends.contains(s)));
                let no = self.txs.len() as u32;
                self.txs.push((Tx { no, spends: TinyVec::try_from(spends).unwrap(), commitment }, fresh));
                vec![no.to_string(), b(fresh)]
            }
            "y_anchor" => {
                let bl = MerkleBlock::from(self.tree(op, "t"));
                let a = match s(op, "k") {
                    "proof" => bl.to_merkle_proof(pid(s(op, "p"))).ok().map(Anchor::Proof),
                    _ => {
                        let mut bl = bl;
                        let ps = list(op, "ps").iter().map(|x| pid(x.as_str().unwrap())).collect::<Vec<_>>();
                        bl.conceal_except(&ps).ok().map(|_| Anchor::Block(bl))
                    }
                };
                let v = match &a {
                    Some(a) => vec![s!("ok"), enc(a)],
                    None => vec![s!("err")],
                };
                self.wit[n(op, "s") as usize] = a;
                v
            }
            "y_conceal" => {
                let ps = list(op, "ps").iter().map(|x| pid(x.as_str().unwrap())).collect::<Vec<_>>();
                match &mut self.wit[n(op, "x") as usize] {
                    Some(a @ Anchor::Block(_)) => {
                        let Anchor::Block(bl) = a else { unreachable!() };
                        let r = bl.conceal_except(&ps).is_ok();
                        vec![b(r), enc(a)]
                    }
                    _ => no_obj(),
                }
            }
            "y_merge" => {
                let y = self.wit(n(op, "y")).clone();
                let mut x = self.wit(n(op, "x")).clone();
                let r = x.merge(y).is_ok();
                let v = vec![b(r), enc(&x)];
                self.wit[n(op, "x") as usize] = Some(x);
                v
            }
            "y_load" => {
                let a = dec::<Anchor>(&unhex(s(op, "h")));
                let v = match &a {
                    Some(a) => vec![s!("ok"), enc(a)],
                    None => vec![s!("err")],
                };
                self.wit[n(op, "s") as usize] = a;
                v
            }
            "y_verify" => {
                let w = SealWitness::<Outpoint>::new(self.tx(n(op, "tx")).clone(), self.wit(n(op, "x")).clone());
                // what goes over the wire
                let w = dec::<SealWitness<Outpoint>>(&enc_bytes(&w)).expect("witness");
                let seals = nums(&op["seals"]).into_iter().map(Outpoint).collect::<Vec<_>>();
                let o = self.op(n(op, "k"));
                let p = if s(op, "p").is_empty() { o.protocol } else { pid(s(op, "p")) };
                match w.verify_seals_closing(&seals, (p, o.message())) {
                    Ok(()) => vec![s!("ok")],
                    Err(e) => vec![seal_err(e)],
                }
            }
            "y_validate" => {
                let known = list(op, "items")
                    .iter()
                    .map(|x| {
                        let i = |k: usize| x[k].as_u64().unwrap();
                        (self.op(i(0)).clone(), self.tx(i(1)).clone(), self.wit(i(2)).clone())
                    })
                    .collect::<Vec<_>>();
                let history = History {
                    protocol: pid(s(op, "p")),
                    genesis: nums(&op["genesis"]),
                    items: known
                        .iter()
                        .enumerate()
                        .map(|(i, (o, tx, a))| Item {
                            no: i + 1,
                            seals: o.ins.iter().map(|x| VSeal(format!("{}:{x}", i + 1))).collect(),
                            op: o.clone(),
                            tx: tx.clone(),
                            anchor: a.clone(),
                        })
                        .collect(),
                };
                let mut r = Resolver { medium: &self.txs, known };
                crate::csv::show(&history.client_side_validate(&mut r))
            }
            o => panic!("unknown op {o}"),
        }
    }
}

impl Display for Anchor {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
}
#[allow(dead_code)]
fn _fields(i: &Item) -> (&Tx, &Anchor) { (&i.tx, &i.anchor) }
