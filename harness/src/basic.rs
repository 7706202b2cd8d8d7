//! Worlds: depth buoy, digests, merklization, reserved bytes.
use std::collections::BTreeSet;

use amplify::confinement::Confined;
use amplify::num::{u256, u5};
use amplify::{Bytes32, Wrapper};
use commit_verify::mpc::Leaf;
use commit_verify::{
    CommitEncode, CommitId, Digest, DigestExt, MerkleBuoy, MerkleHash, MerkleLeaves, MerkleNode, NodeBranching,
    ReservedBytes, Ripemd160, Sha256,
};
use serde_json::Value;
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};

use crate::util::*;
use crate::World;

// ------------------------------------------------------------------- buoy
pub enum Buoy {
    None,
    B5(MerkleBuoy<u5>),
    B8(MerkleBuoy<u8>),
}

impl Buoy {
    fn new(ty: &str, top: Option<u8>) -> Self {
        match (ty, top) {
            ("u5", Some(t)) => Buoy::B5(MerkleBuoy::new(u5::with(t))),
            ("u8", Some(t)) => Buoy::B8(MerkleBuoy::new(t)),
            ("u5", None) => Buoy::B5(MerkleBuoy::default()),
            ("u8", None) => Buoy::B8(MerkleBuoy::default()),
            _ => no_obj(),
        }
    }
    fn level(&self) -> String {
        match self {
            Buoy::B5(b) => b.level().to_u8().to_string(),
            Buoy::B8(b) => b.level().to_string(),
            Buoy::None => no_obj(),
        }
    }
    fn push(&mut self, d: u8) -> bool {
        match self {
            Buoy::B5(x) => x.push(u5::with(d)),
            Buoy::B8(x) => x.push(d),
            Buoy::None => no_obj(),
        }
    }
}

impl World for Buoy {
    fn exec(&mut self, op: &Value) -> Vec<String> {
        match s(op, "op") {
            "b_new" => {
                *self = Buoy::new(s(op, "ty"), op["top"].as_u64().map(|x| x as u8));
                vec![self.level()]
            }
            "b_push" => {
                let r = self.push(n(op, "d") as u8);
                vec![b(r), self.level()]
            }
            // all sequences of `len` depths 0..=max that follow `pre`
            "b_row" => {
                let pre = list(op, "pre").iter().map(|x| x.as_u64().unwrap() as u8).collect::<Vec<_>>();
                let (base, len) = (n(op, "max") + 1, n(op, "len") as u32);
                (0..base.pow(len))
                    .map(|i| {
                        let mut buoy = Buoy::new(s(op, "ty"), op["top"].as_u64().map(|x| x as u8));
                        let mut r = String::new();
                        let seq = pre.iter().copied().chain((0..len).map(|k| (i / base.pow(len - 1 - k) % base) as u8));
                        for d in seq {
                            let sf = buoy.push(d);
                            r += if sf { "!" } else { "." };
                            r += &buoy.level();
                        }
                        r
                    })
                    .collect()
            }
            o => panic!("unknown op {o}"),
        }
    }
}

// ----------------------------------------------------------------- digest
#[derive(Default)]
pub struct Dig {
    sha: Option<Sha256>,
    rmd: Option<Ripemd160>,
}

fn data(op: &Value) -> Vec<u8> {
    let d = unhex(s(op, "d"));
    match op["rep"].as_u64() {
        Some(n) => d.repeat(n as usize),
        None => d,
    }
}

fn with_len<const L: usize, D: DigestExt<L>>(e: &mut D, max: &str, d: &[u8]) {
    macro_rules! go {
        ($($m:literal)*) => { match max { $( stringify!($m) => e.input_with_len::<$m>(d), )*
            "0xFFFFFFFFFFFFFFFF" => e.input_with_len::<{ usize::MAX }>(d), _ => panic!("unknown maximum {max}") } };
    }
    go!(0x0 0x1 0x7F 0xFE 0xFF 0x100 0x101 0x7FFF 0xFFFE 0xFFFF 0x10000 0x10001 0xFFFFFE 0xFFFFFF 0x1000000 0x1000001
        0xFFFFFFFE 0xFFFFFFFF 0x100000000)
}

impl World for Dig {
    fn exec(&mut self, op: &Value) -> Vec<String> {
        match s(op, "op") {
            "d_tag" => {
                // as string and as bytes
                let t = data(op);
                (self.sha, self.rmd) = (None, None);
                match (s(op, "h"), std::str::from_utf8(&t)) {
                    ("sha256", Ok(x)) => self.sha = Some(Sha256::from_tag(x)),
                    ("sha256", _) => self.sha = Some(Sha256::from_tag(&t)),
                    (_, Ok(x)) => self.rmd = Some(Ripemd160::from_tag(x)),
                    (_, _) => self.rmd = Some(Ripemd160::from_tag(t)),
                }
            }
            "d_new" => {
                (self.sha, self.rmd) = (None, None);
                match s(op, "h") {
                    "sha256" => self.sha = Some(Sha256::new()),
                    _ => self.rmd = Some(Ripemd160::new()),
                }
            }
            "d_raw" => {
                let d = data(op);
                self.sha.as_mut().map(|e| e.input_raw(&d));
                self.rmd.as_mut().map(|e| e.input_raw(&d));
            }
            "d_len" => {
                let d = data(op);
                let m = s(op, "max");
                self.sha.as_mut().map(|e| with_len(e, m, &d));
                self.rmd.as_mut().map(|e| with_len(e, m, &d));
            }
            o => panic!("unknown op {o}"),
        }
        match (&self.sha, &self.rmd) {
            (Some(e), _) => vec![hex(DigestExt::finish(e.clone()))],
            (_, Some(e)) => vec![hex(DigestExt::finish(e.clone()))],
            _ => no_obj(),
        }
    }
}

// ----------------------------------------------------------------- merkle
/// A leaf type of our own.
#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "CsvDriver")]
pub struct BLeaf(pub [u8; 8]);

impl CommitEncode for BLeaf {
    type CommitmentId = MerkleHash;
    fn commit_encode(&self, e: &mut commit_verify::CommitEngine) { e.commit_to_serialized(self) }
}

pub fn bleaf(v: &Value) -> BLeaf { BLeaf(arr(v.as_str().unwrap())) }
fn mleaf(v: &Value) -> Leaf { dec::<Leaf>(&unhex(v.as_str().unwrap())).expect("leaf") }

fn hmh(p: &MerkleHash) -> String { hex(p.as_inner().to_byte_array()) }

fn root(l: &impl MerkleLeaves) -> Vec<String> { vec![hmh(&MerkleHash::merklize(l))] }

fn vec_root<T: CommitId<CommitmentId = MerkleHash>>(col: &str, v: Vec<T>) -> Vec<String> {
    macro_rules! go {
        ($($name:literal $min:expr, $max:expr;)*) => { match col {
            $( $name => match Confined::<Vec<T>, $min, { $max as usize }>::try_from(v) {
                Ok(c) => root(&c), Err(_) => vec![s!("confined")] }, )*
            _ => panic!("unknown collection {col}") } };
    }
    go!("vec8" 0, u8::MAX; "vec16" 0, u16::MAX; "vec32" 0, u32::MAX;
        "nvec8" 1, u8::MAX; "nvec16" 1, u16::MAX; "nvec32" 1, u32::MAX; "vec8min2" 2, u8::MAX;)
}

fn set_root<T: CommitId<CommitmentId = MerkleHash> + Ord>(col: &str, v: Vec<T>) -> Vec<String> {
    macro_rules! go {
        ($($name:literal $min:expr, $max:expr;)*) => { match col {
            $( $name => match Confined::<BTreeSet<T>, $min, { $max as usize }>::try_from(BTreeSet::from_iter(v)) {
                Ok(c) => root(&c), Err(_) => vec![s!("confined")] }, )*
            _ => panic!("unknown collection {col}") } };
    }
    go!("set8" 0, u8::MAX; "set16" 0, u16::MAX; "set32" 0, u32::MAX;
        "nset8" 1, u8::MAX; "nset16" 1, u16::MAX; "nset32" 1, u32::MAX; "set16min2" 2, u16::MAX;)
}

#[derive(Default)]
pub struct Mrk;

impl World for Mrk {
    fn exec(&mut self, op: &Value) -> Vec<String> {
        match s(op, "op") {
            "m_root" => {
                let col = s(op, "col");
                let vs = list(op, "vs");
                match (s(op, "leaf"), col.contains("set")) {
                    ("b", true) => set_root(col, vs.iter().map(bleaf).collect()),
                    ("b", false) => vec_root(col, vs.iter().map(bleaf).collect()),
                    (_, _) => vec_root(col, vs.iter().map(mleaf).collect()),
                }
            }
            // many leaves: number i (little-endian) for i in 0..n
            "m_many" => {
                let col = s(op, "col");
                let vs = (0..n(op, "n")).map(|i| BLeaf((i + n(op, "from")).to_be_bytes())).collect::<Vec<_>>();
                if col.contains("set") {
                    set_root(col, vs)
                } else {
                    vec_root(col, vs)
                }
            }
            "m_node" => {
                let d = n(op, "depth") as u8;
                let w = u256::from_le_bytes(arr(s(op, "width")));
                let (x, y) = (MerkleHash::from(arr::<32>(s(op, "a"))), MerkleHash::from(arr::<32>(s(op, "b"))));
                let (node, h, br) = match s(op, "k") {
                    "void" => (MerkleNode::void(d, w), MerkleHash::void(d, w), NodeBranching::Void),
                    "single" => (MerkleNode::single(d, w, x), MerkleHash::single(d, w, x), NodeBranching::Single),
                    _ => (MerkleNode::branches(d, w, x, y), MerkleHash::branches(d, w, x, y), NodeBranching::Branch),
                };
                vec![enc(&node), hmh(&node.commit_id()), hmh(&h), u8::from(br).to_string(), b(br == node.branching)]
            }
            "m_leaf" => {
                let l = match op["pos"].as_u64() {
                    Some(p) => Leaf::entropy(u64::from_le_bytes(arr(s(op, "e"))), p as u32),
                    None => Leaf::inhabited(crate::mpc::pid(s(op, "p")), crate::mpc::msg(s(op, "m"))),
                };
                vec![enc(&l), hmh(&l.commit_id())]
            }
            o => panic!("unknown op {o}"),
        }
    }
}

// --------------------------------------------------------------- reserved
#[derive(Default)]
pub struct Rsv;

fn rsv<const LEN: usize, const VAL: u8>(op: &Value) -> Vec<String> {
    type R<const L: usize, const V: u8> = ReservedBytes<L, V>;
    fn show<const L: usize, const V: u8>(r: &R<L, V>) -> Vec<String> {
        vec![s!("ok"), enc(r), hex(r.commit_id().as_inner().to_byte_array()), b(*r == R::<L, V>::default())]
    }
    match s(op, "op") {
        "r_default" => show(&R::<LEN, VAL>::default()),
        "r_from" => {
            let a = arr::<LEN>(s(op, "d"));
            match std::panic::catch_unwind(|| R::<LEN, VAL>::from(a)) {
                Ok(r) => show(&r),
                Err(_) => vec![s!("refused")],
            }
        }
        "r_dec" => match dec::<R<LEN, VAL>>(&unhex(s(op, "d"))) {
            Some(r) => show(&r),
            None => vec![s!("err")],
        },
        "r_serde" => {
            #[cfg(feature = "full")]
            {
                let t = match s(op, "t") {
                    "" => serde_json::to_string(&R::<LEN, VAL>::default()).unwrap(),
                    t => t.to_owned(),
                };
                match serde_json::from_str::<R<LEN, VAL>>(&t) {
                    Ok(r) => show(&r),
                    Err(_) => vec![s!("err")],
                }
            }
            #[cfg(not(feature = "full"))]
            no_obj()
        }
        o => panic!("unknown op {o}"),
    }
}

impl World for Rsv {
    fn exec(&mut self, op: &Value) -> Vec<String> {
        macro_rules! go {
            ($($l:literal $v:literal)*) => { match (n(op, "len"), n(op, "val")) { $( ($l, $v) => rsv::<$l, $v>(op), )*
                x => panic!("unknown reserved {x:?}") } };
        }
        go!(1 0 2 0 3 0 4 0 8 0 16 0 32 0 1 1 1 255 2 255 3 90 4 127 8 1 32 255 33 0 64 0 255 9 256 1 300 0)
    }
}

#[allow(dead_code)]
fn _bounds<T: StrictEncode + StrictDecode + StrictDumb + StrictType>() {}
#[allow(dead_code)]
fn _unused(_: Bytes32) {}
