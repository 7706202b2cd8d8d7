//! World: the commitment engine, commitment ids and layouts. The type `Dyn`
//! commits to what the operation lists.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::Hash;

use amplify::confinement::Confined;
use amplify::{Bytes32, Wrapper};
use commit_verify::mpc::{Commitment, Leaf, MerkleBlock, MerkleConcealed, MerkleTree};
use commit_verify::{
    CommitColType, CommitEncode, CommitEngine, CommitId, CommitLayout, CommitStep, CommitmentId, CommitmentLayout,
    Conceal, DigestExt, MerkleHash, MerkleNode, ReservedBytes, Sha256, StrictHash,
};
use serde_json::Value;
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};

use crate::basic::{bleaf, BLeaf};
use crate::util::*;
use crate::World;

// ------------------------------------------------------------ committed types
macro_rules! ty {
    ($(#[$m:meta])* @ $item:item) => {
        #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
        #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = "CsvDriver")]
        $(#[$m])*
        $item
    };
}
ty! { @ pub struct ValA(pub u8); }
ty! { @ pub struct ValB { pub x: u16, pub y: u8 } }
ty! { @ pub struct ValC(pub [u8; 4]); }
ty! {
    #[strict_type(tags = custom, dumb = ValE::None)]
    @ pub enum ValE {
        #[strict_type(tag = 0x00)]
        None,
        #[strict_type(tag = 0x01)]
        One(u8),
        #[strict_type(tag = 0x07)]
        Two { a: u8, b: u16 },
    }
}
// types with a hash of their own
ty! { @ pub struct HashA(pub u16); }
impl CommitEncode for HashA {
    type CommitmentId = StrictHash;
    fn commit_encode(&self, e: &mut CommitEngine) { e.commit_to_serialized(self) }
}
ty! { @ pub struct HashB { pub a: u8, pub b: u8 } }
impl CommitEncode for HashB {
    type CommitmentId = StrictHash;
    fn commit_encode(&self, e: &mut CommitEngine) {
        e.commit_to_serialized(&self.b);
        e.commit_to_serialized(&self.a);
    }
}
// concealable types: the concealed form is another type, or the same one
ty! { @ pub struct Sec { pub secret: u32, pub open: u16 } }
ty! { @ pub struct SecHid(pub u16); }
impl Conceal for Sec {
    type Concealed = SecHid;
    fn conceal(&self) -> SecHid { SecHid(self.open) }
}
ty! { @ pub struct Slf { pub secret: u8, pub open: u8 } }
impl Conceal for Slf {
    type Concealed = Slf;
    fn conceal(&self) -> Slf { Slf { secret: 0, open: self.open } }
}

// a type with large values, which has a hash of its own and hides nothing
#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "CsvDriver")]
pub struct Blob(pub Confined<Vec<u8>, 0, 0xFFFFFF>);
impl CommitEncode for Blob {
    type CommitmentId = StrictHash;
    fn commit_encode(&self, e: &mut CommitEngine) { e.commit_to_serialized(self) }
}
impl Conceal for Blob {
    type Concealed = Blob;
    fn conceal(&self) -> Blob { self.clone() }
}

// ------------------------------------------------------------- commitment ids
macro_rules! id {
    ($n:ident, $tag:literal) => {
        #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
        #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = "CsvDriver")]
        pub struct $n(pub [u8; 32]);
        impl CommitmentId for $n {
            const TAG: &'static str = $tag;
        }
        impl From<Sha256> for $n {
            fn from(h: Sha256) -> Self { $n(h.finish()) }
        }
    };
}
id!(IdA, "urn:csv-driver:id#a");
id!(IdB, "urn:csv-driver:id#ab");
id!(IdE, "");

thread_local! { static STEPS: RefCell<Value> = RefCell::new(Value::Null); }

macro_rules! dynamic {
    ($($n:ident $id:ident $tag:literal)*) => { $(
        pub struct $n;
        impl StrictDumb for $n { fn strict_dumb() -> Self { $n } }
        impl CommitEncode for $n {
            type CommitmentId = $id;
            fn commit_encode(&self, e: &mut CommitEngine) { STEPS.with(|s| run(e, s.borrow().as_array().unwrap())) }
        }
    )*
        fn dyn_id(id: &str) -> Vec<u8> { match id { $( $tag => enc_bytes(&$n.commit_id()), )* x => panic!("unknown id {x}") } }
        fn dyn_commit(id: &str) -> CommitEngine { match id { $( $tag => $n.commit(), )* x => panic!("unknown id {x}") } }
        fn dyn_layout(id: &str) -> CommitLayout { match id { $( $tag => $n::commitment_layout(), )* x => panic!("unknown id {x}") } }
        fn tag_of(id: &str) -> &'static str { match id { $( $tag => $id::TAG, )* x => panic!("unknown id {x}") } }
    };
}
dynamic!(DynA IdA "IdA" DynB IdB "IdB" DynE IdE "IdE" DynS StrictHash "StrictHash" DynM MerkleHash "MerkleHash" DynC Commitment "Commitment");

// ---------------------------------------------------------------------- steps
fn val<T: StrictDecode>(v: &Value) -> T { dec::<T>(&unhex(v.as_str().unwrap())).unwrap_or_else(|| panic!("value {v}")) }

macro_rules! by_type {
    ($name:expr, $f:ident, $e:expr, $v:expr; $($t:ident)*) => { match $name { $( stringify!($t) => $f::<$t>($e, $v), )* x => panic!("unknown type {x}") } };
}

fn ser<T: StrictEncode + StrictDecode>(e: &mut CommitEngine, v: &Value) { e.commit_to_serialized(&val::<T>(&v["v"])) }
fn opt<T: StrictEncode + StrictDecode + StrictDumb>(e: &mut CommitEngine, v: &Value) {
    let o = list(v, "o");
    e.commit_to_option(&o.first().map(|x| val::<T>(x)))
}
fn hash<T: StrictDecode + StrictType + CommitEncode<CommitmentId = StrictHash>>(e: &mut CommitEngine, v: &Value) {
    e.commit_to_hash(&val::<T>(&v["v"]))
}
fn conc<T: StrictDecode + StrictType + Conceal>(e: &mut CommitEngine, v: &Value)
where T::Concealed: StrictEncode {
    e.commit_to_concealed(&val::<T>(&v["v"]))
}

macro_rules! by_bounds {
    ($e:expr, $v:expr, $f:ident<$t:ident>; $($name:literal $min:literal $max:expr;)*) => {
        match s($v, "b") { $( $name => $f::<$t, $min, { $max as usize }>($e, $v), )* x => panic!("unknown bounds {x}") }
    };
    ($e:expr, $v:expr, $f:ident<$t:ident, $u:ident>; $($name:literal $min:literal $max:expr;)*) => {
        match s($v, "b") { $( $name => $f::<$t, $u, $min, { $max as usize }>($e, $v), )* x => panic!("unknown bounds {x}") }
    };
}

fn lst_b<T: StrictEncode + StrictDecode + StrictDumb, const MIN: usize, const MAX: usize>(e: &mut CommitEngine, v: &Value) {
    let rep = v["rep"].as_u64().unwrap_or(1) as usize;
    let c = list(v, "vs").iter().flat_map(|x| (0..rep).map(move |_| val::<T>(x))).collect::<Vec<_>>();
    e.commit_to_linear_list(&Confined::<Vec<T>, MIN, MAX>::try_from(c).expect("bounds"))
}
fn lst<T: StrictEncode + StrictDecode + StrictDumb>(e: &mut CommitEngine, v: &Value) {
    by_bounds!(e, v, lst_b<T>; "0..FF" 0 0xFF; "1..FF" 1 0xFF; "0..FFFF" 0 0xFFFF; "0..FFFFFF" 0 0xFFFFFF;
        "0..FFFFFFFF" 0 0xFFFFFFFFu32; "0..FFFFFFFFFFFFFFFF" 0 u64::MAX; "2..5" 2 5; "0..100" 0 0x100; "1..FFFF" 1 0xFFFF;
        "1..10000" 1 0x10000; "0..1000000" 0 0x1000000; "3..100000000" 3 0x100000000u64; "2..2" 2 2; "1..1" 1 1;
        "12c..FFFF" 300 0xFFFF; "11170..FFFFFFFF" 70000 0xFFFFFFFFu32;)
}
fn set_b<T: Ord + StrictEncode + StrictDecode + StrictDumb, const MIN: usize, const MAX: usize>(e: &mut CommitEngine, v: &Value) {
    let c = list(v, "vs").iter().map(|x| val::<T>(x)).collect::<BTreeSet<_>>();
    e.commit_to_linear_set(&Confined::<BTreeSet<T>, MIN, MAX>::try_from(c).expect("bounds"))
}
fn set<T: Ord + StrictEncode + StrictDecode + StrictDumb>(e: &mut CommitEngine, v: &Value) {
    by_bounds!(e, v, set_b<T>; "0..FF" 0 0xFF; "1..FF" 1 0xFF; "0..FFFF" 0 0xFFFF; "0..FFFFFF" 0 0xFFFFFF;
        "0..FFFFFFFF" 0 0xFFFFFFFFu32; "0..FFFFFFFFFFFFFFFF" 0 u64::MAX; "2..5" 2 5; "0..100" 0 0x100; "1..FFFF" 1 0xFFFF;
        "1..10000" 1 0x10000; "0..1000000" 0 0x1000000; "3..100000000" 3 0x100000000u64; "2..2" 2 2; "1..1" 1 1;
        "12c..FFFF" 300 0xFFFF; "11170..FFFFFFFF" 70000 0xFFFFFFFFu32;)
}
fn map_b<K: Ord + Hash + StrictEncode + StrictDecode + StrictDumb, V: StrictEncode + StrictDecode + StrictDumb, const MIN: usize, const MAX: usize>(
    e: &mut CommitEngine,
    v: &Value,
) {
    let c = list(v, "vs").iter().map(|x| (val::<K>(&x[0]), val::<V>(&x[1]))).collect::<BTreeMap<_, _>>();
    e.commit_to_linear_map(&Confined::<BTreeMap<K, V>, MIN, MAX>::try_from(c).expect("bounds"))
}
fn map_k<K: Ord + Hash + StrictEncode + StrictDecode + StrictDumb, V: StrictEncode + StrictDecode + StrictDumb>(e: &mut CommitEngine, v: &Value) {
    by_bounds!(e, v, map_b<K, V>; "0..FF" 0 0xFF; "1..FF" 1 0xFF; "0..FFFF" 0 0xFFFF; "0..FFFFFF" 0 0xFFFFFF;
        "0..FFFFFFFF" 0 0xFFFFFFFFu32; "0..FFFFFFFFFFFFFFFF" 0 u64::MAX; "2..5" 2 5; "0..100" 0 0x100; "1..FFFF" 1 0xFFFF;
        "1..10000" 1 0x10000; "0..1000000" 0 0x1000000; "3..100000000" 3 0x100000000u64; "2..2" 2 2; "1..1" 1 1;
        "12c..FFFF" 300 0xFFFF; "11170..FFFFFFFF" 70000 0xFFFFFFFFu32;)
}
fn map<V: StrictEncode + StrictDecode + StrictDumb>(e: &mut CommitEngine, v: &Value) {
    match s(v, "kt") {
        "ValA" => map_k::<ValA, V>(e, v),
        "ValC" => map_k::<ValC, V>(e, v),
        "BLeaf" => map_k::<BLeaf, V>(e, v),
        x => panic!("unknown key type {x}"),
    }
}

fn merkle(e: &mut CommitEngine, v: &Value) {
    let vs = list(v, "vs");
    macro_rules! go { ($($name:literal $leaf:expr, $t:ty, $min:literal, $max:expr;)*) => { match s(v, "b") {
        $( $name => e.commit_to_merkle(&Confined::<$t, $min, { $max as usize }>::try_from_iter(vs.iter().map($leaf)).expect("bounds")), )*
        x => panic!("unknown bounds {x}") } } }
    match s(v, "t") {
        "BLeaf" => go!("list0..FF" bleaf, Vec<BLeaf>, 0, u8::MAX; "list1..FF" bleaf, Vec<BLeaf>, 1, u8::MAX;
            "list0..FFFF" bleaf, Vec<BLeaf>, 0, u16::MAX; "list0..FFFFFFFF" bleaf, Vec<BLeaf>, 0, u32::MAX;
            "set0..FF" bleaf, BTreeSet<BLeaf>, 0, u8::MAX; "set0..FFFF" bleaf, BTreeSet<BLeaf>, 0, u16::MAX;
            "set1..FFFFFFFF" bleaf, BTreeSet<BLeaf>, 1, u32::MAX;),
        _ => go!("list0..FF" val::<Leaf>, Vec<Leaf>, 0, u8::MAX; "list0..FFFF" val::<Leaf>, Vec<Leaf>, 0, u16::MAX;
            "list1..FFFFFFFF" val::<Leaf>, Vec<Leaf>, 1, u32::MAX;),
    }
}

type U8 = u8;
type U16 = u16;
type U32 = u32;
type U64 = u64;

fn run(e: &mut CommitEngine, steps: &[Value]) {
    for v in steps {
        let t = v["t"].as_str().unwrap_or("");
        match s(v, "k") {
            "ser" if t == "Reserved" => e.commit_to_serialized(&val::<ReservedBytes<4, 7>>(&v["v"])),
            "ser" => by_type!(t, ser, e, v; ValA ValB ValC ValE HashA HashB Sec SecHid Slf BLeaf IdA U8 U16 U32 U64 MerkleHash StrictHash Blob),
            "opt" => by_type!(t, opt, e, v; ValA ValB ValC ValE HashA U8 U32 Blob),
            "hash" if t == "Reserved" => e.commit_to_hash(&val::<ReservedBytes<4, 7>>(&v["v"])),
            "hash" => by_type!(t, hash, e, v; HashA HashB Blob),
            "conc" => by_type!(t, conc, e, v; Sec Slf Blob),
            "merkle" => merkle(e, v),
            "list" => by_type!(t, lst, e, v; ValA ValB ValC ValE U8 U16 Blob),
            "set" => by_type!(t, set, e, v; ValA ValC BLeaf Blob),
            "map" => by_type!(t, map, e, v; ValA ValB ValE U8 Blob),
            x => panic!("unknown step {x}"),
        }
    }
}

fn step(x: &CommitStep) -> String {
    match x {
        CommitStep::Serialized(t) => format!("serialized {t}"),
        CommitStep::Hashed(t) => format!("hashed {t}"),
        CommitStep::Merklized(t) => format!("merklized {t}"),
        CommitStep::Concealed(t) => format!("concealed {t}"),
        CommitStep::Collection(c, z, t) => {
            // the upper bound as unsigned little-endian bytes: it may not fit a number of the specification
            let z = format!("{} {}", z.min, hex(z.max.to_le_bytes()));
            match c {
                CommitColType::List => format!("list {t} {z}"),
                CommitColType::Set => format!("set {t} {z}"),
                CommitColType::Map { key } => format!("map {key} {t} {z}"),
            }
        }
    }
}

pub fn layout_obs(l: &CommitLayout) -> Vec<String> {
    let mut v = vec![l.idty().to_string(), l.tag().to_owned()];
    v.extend(l.fields().iter().map(step));
    v
}

#[derive(Default)]
pub struct Engine;
impl World for Engine {
    fn exec(&mut self, op: &Value) -> Vec<String> {
        let id = op["id"].as_str().unwrap_or("");
        STEPS.with(|x| *x.borrow_mut() = op["steps"].clone());
        match s(op, "op") {
            // the id, and what the engine says when used directly in every way
            "e_commit" => {
                let mut v = vec![hex(dyn_id(id))];
                let steps = list(op, "steps");
                let mut e = CommitEngine::new(tag_of(id));
                run(&mut e, steps);
                v.push(hex(DigestExt::finish(e.clone().finish())));
                let (h, l) = e.clone().finish_layout();
                v.push(hex(DigestExt::finish(h)));
                v.push(hex(DigestExt::finish(dyn_commit(id).finish())));
                let lay = l.iter().map(step).collect::<Vec<_>>();
                v.push(b(e.clone().into_layout().iter().map(step).collect::<Vec<_>>() == lay));
                v.push(b(dyn_commit(id).into_layout().iter().map(step).collect::<Vec<_>>() == lay));
                v.push(b(e.as_layout().iter().map(step).collect::<Vec<_>>() == lay));
                v.extend(lay);
                v
            }
            // parts, looking at or closing the engine, further parts
            "e_late" => {
                let mut e = CommitEngine::new(tag_of(id));
                run(&mut e, list(op, "steps"));
                for x in list(op, "fin") {
                    match x.as_str().unwrap() {
                        "layout" => assert_eq!(e.as_layout().len(), list(op, "steps").len()),
                        "set" => e.set_finished(),
                        "clone" => e = e.clone(),
                        x => panic!("unknown way {x}"),
                    }
                }
                run(&mut e, list(op, "late"));
                let (h, l) = e.finish_layout();
                let mut v = vec![hex(DigestExt::finish(h))];
                v.extend(l.iter().map(step));
                v
            }
            // the declared layout of a type of the library, as data, as text, and for the value given
            "e_lib" => {
                fn go<T: CommitEncode + StrictDumb + StrictDecode>(op: &Value) -> Vec<String> {
                    let l = T::commitment_layout();
                    let x = val::<T>(&op["v"]);
                    let mut v = layout_obs(&l);
                    v.push(b(x.commit().into_layout().iter().map(step).collect::<Vec<_>>() == l.fields().iter().map(step).collect::<Vec<_>>()));
                    v.extend(l.to_string().lines().map(|x| x.to_owned()));
                    v
                }
                match s(op, "ty") {
                    "MerkleTree" => go::<MerkleTree>(op),
                    "MerkleBlock" => go::<MerkleBlock>(op),
                    "MerkleConcealed" => go::<MerkleConcealed>(op),
                    "Leaf" => go::<Leaf>(op),
                    "MerkleNode" => go::<MerkleNode>(op),
                    "ReservedBytes47" => go::<ReservedBytes<4, 7>>(op),
                    x => panic!("unknown type {x}"),
                }
            }
            "e_layout" => layout_obs(&dyn_layout(id)),
            "e_text" => {
                let l = dyn_layout(id);
                let t = l.to_string();
                let same = t == l.to_vesper().display().to_string();
                let mut v = t.lines().map(|x| x.to_owned()).collect::<Vec<_>>();
                v.push(b(same));
                v
            }
            o => panic!("unknown op {o}"),
        }
    }
}
#[allow(dead_code)]
fn _unused(x: StrictHash) -> Bytes32 { x.into_inner() }
