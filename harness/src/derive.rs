//! Driver for derived commitment encodings. It is a program of its own: if it
//! does not build while the other does, the derivation is broken.
#![allow(clippy::all)]

#[macro_use]
extern crate amplify;
#[macro_use]
extern crate strict_encoding;

#[allow(dead_code)]
mod util;
mod run;
pub use run::World;

use amplify::confinement::{SmallBlob, TinyOrdMap, TinyVec};
use commit_verify::{
    CommitEncode, CommitEngine, CommitId, CommitStep, CommitmentId, CommitmentLayout, Conceal, DigestExt, MerkleHash,
    MerkleLeaves, Sha256, StrictHash,
};
use serde_json::Value;
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};
use util::*;

const LIB: &str = "CsvDriver";

pub mod ids {
    use super::*;
    macro_rules! id {
        ($n:ident, $tag:literal) => {
            #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
            #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
            #[strict_type(lib = LIB)]
            pub struct $n(pub [u8; 32]);
            impl CommitmentId for $n {
                const TAG: &'static str = $tag;
            }
            impl From<Sha256> for $n {
                fn from(h: Sha256) -> Self { $n(h.finish()) }
            }
        };
    }
    id!(IdX, "urn:csv-driver:derive#x");
    id!(IdY, "urn:csv-driver:derive#xy");
    id!(IdZ, "");
}
use ids::{IdX, IdY, IdZ};

// ------------------------------------------------------------------- strict
macro_rules! st {
    ($(#[$m:meta])* @ $item:item) => {
        #[derive(Clone, PartialEq, Eq, Debug)]
        #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
        #[derive(CommitEncode)]
        $(#[$m])*
        $item
    };
}
st! {
    #[strict_type(lib = LIB)] #[commit_encode(strategy = strict, id = IdX)]
    @ pub struct Named { pub a: u16, pub b: u64, pub c: u8 }
}
st! {
    #[strict_type(lib = LIB)] #[commit_encode(strategy = strict, id = IdY)]
    @ pub struct Tuple(pub u16, pub u64, pub u8);
}
st! {
    #[strict_type(lib = LIB)] #[commit_encode(crate = commit_verify, strategy = strict, id = ids::IdZ)]
    @ pub struct Pathed { pub a: u8, pub b: [u8; 3] }
}
st! {
    #[strict_type(lib = LIB)] #[commit_encode(id = StrictHash, strategy = strict)]
    @ pub struct Hashed(pub u32);
}
st! {
    #[strict_type(lib = LIB)] #[commit_encode(strategy = strict, id = IdX)]
    @ pub struct Collections { pub list: TinyVec<u16>, pub blob: SmallBlob, pub map: TinyOrdMap<u8, u16>, pub opt: Option<u8> }
}
st! {
    #[strict_type(lib = LIB)] #[commit_encode(strategy = strict, id = IdX)]
    @ pub struct Nested { pub head: Named, pub tail: Assoc, pub prim: Prim }
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[derive(CommitEncode)]
#[strict_type(lib = LIB, tags = repr, into_u8, try_from_u8)]
#[commit_encode(strategy = strict, id = IdX)]
#[repr(u8)]
pub enum Prim {
    #[strict_type(dumb)]
    A = 3,
    B = 7,
    C = 0x80,
}
st! {
    #[strict_type(lib = LIB, tags = order)] #[commit_encode(strategy = strict, id = IdY)]
    @ pub enum Assoc {
        One { hash: [u8; 4], ord: u8 },
        Two(u8, u16, u32),
        #[strict_type(dumb)]
        Three,
    }
}
st! {
    #[strict_type(lib = LIB, tags = custom)] #[commit_encode(strategy = strict, id = IdX)]
    @ pub enum Custom {
        #[strict_type(tag = 9)]
        One { x: u16 },
        #[strict_type(tag = 2)]
        Two(u8),
        #[strict_type(dumb, tag = 0xfe)]
        Three,
    }
}
st! {
    #[strict_type(lib = LIB)] #[commit_encode(strategy = strict, id = IdX)]
    @ pub struct Single { pub only: u32 }
}
st! {
    #[strict_type(lib = LIB)] #[commit_encode(strategy = strict, id = IdZ)]
    @ pub struct Bounded<T: StrictDumb + StrictEncode + StrictDecode, U: StrictDumb + StrictEncode + StrictDecode + Copy>(pub T, pub U, pub T);
}
st! {
    #[strict_type(lib = LIB)] #[commit_encode(strategy = strict, id = IdX)]
    @ pub struct Generic<T: StrictDumb + StrictEncode + StrictDecode> { pub x: T, pub y: u8 }
}
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[derive(CommitEncode)]
#[strict_type(lib = LIB)]
#[commit_encode(strategy = strict, id = IdY)]
pub struct Wheres<T, U>(pub T, pub U)
where
    T: StrictDumb + StrictEncode + StrictDecode,
    U: StrictDumb + StrictEncode + StrictDecode;

// -------------------------------------------------------------- transparent
macro_rules! tr {
    ($(#[$m:meta])* @ $item:item) => {
        #[derive(Wrapper, Clone, PartialEq, Eq, Debug, From)]
        #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
        #[derive(CommitEncode)]
        #[strict_type(lib = LIB)]
        $(#[$m])*
        $item
    };
}
tr! { #[commit_encode(strategy = transparent, id = IdX)] @ pub struct TransU16(u16); }
tr! { #[commit_encode(strategy = transparent, id = IdY)] @ pub struct TransNamed(Named); }
tr! { #[commit_encode(strategy = transparent, id = IdX)] @ pub struct TransAssoc(Assoc); }
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[derive(CommitEncode)]
#[strict_type(lib = LIB)]
#[commit_encode(strategy = transparent, id = IdZ)]
pub struct TransMarked {
    pub inner: u16,
    pub mark: u8,
}
impl amplify::Wrapper for TransMarked {
    type Inner = u16;
    fn from_inner(inner: u16) -> Self { TransMarked { inner, mark: 0 } }
    fn as_inner(&self) -> &u16 { &self.inner }
    fn into_inner(self) -> u16 { self.inner }
}
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[derive(CommitEncode)]
#[strict_type(lib = LIB)]
#[commit_encode(strategy = transparent, id = IdX)]
pub struct TransGen<T: StrictDumb + StrictEncode + StrictDecode>(T);
impl<T: StrictDumb + StrictEncode + StrictDecode> amplify::Wrapper for TransGen<T> {
    type Inner = T;
    fn from_inner(x: T) -> Self { TransGen(x) }
    fn as_inner(&self) -> &T { &self.0 }
    fn into_inner(self) -> T { self.0 }
}

// ------------------------------------------------------------------ conceal
macro_rules! cn {
    ($(#[$m:meta])* @ $item:item) => {
        #[derive(Clone, PartialEq, Eq, Debug)]
        #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
        #[derive(CommitEncode)]
        $(#[$m])*
        $item
    };
}
cn! {
    #[strict_type(lib = LIB, tags = order, dumb = { Self::Concealed(0) })] #[commit_encode(strategy = conceal, id = IdX)]
    @ pub enum SecretEnum { Revealed(u32), Concealed(u8) }
}
impl Conceal for SecretEnum {
    type Concealed = Self;
    fn conceal(&self) -> Self {
        match self {
            Self::Revealed(x) => Self::Concealed(*x as u8),
            Self::Concealed(x) => Self::Concealed(*x),
        }
    }
}
cn! {
    #[strict_type(lib = LIB)] #[commit_encode(strategy = conceal, id = IdY)]
    @ pub struct SecretStruct { pub secret: u16, pub open: u8 }
}
impl Conceal for SecretStruct {
    type Concealed = Self;
    fn conceal(&self) -> Self { SecretStruct { secret: 0, open: self.open } }
}
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Hidden(pub u16);
impl Conceal for Hidden {
    type Concealed = Hidden;
    fn conceal(&self) -> Hidden { self.clone() }
}
cn! {
    #[strict_type(lib = LIB)] #[commit_encode(strategy = conceal, id = IdX)]
    @ pub struct SecretOther { pub secret: u32, pub open: u16 }
}
impl Conceal for SecretOther {
    type Concealed = Hidden;
    fn conceal(&self) -> Hidden { Hidden(self.open) }
}
cn! {
    #[strict_type(lib = LIB)] #[commit_encode(strategy = conceal, id = IdZ)]
    @ pub struct SecretTuple(pub u8, pub u16);
}
impl Conceal for SecretTuple {
    type Concealed = Hidden;
    fn conceal(&self) -> Hidden { Hidden(self.1) }
}
cn! {
    #[strict_type(lib = LIB)] #[commit_encode(strategy = conceal, id = IdX)]
    @ pub struct SecretGen<T: StrictDumb + StrictEncode + StrictDecode> { pub secret: T, pub open: u16 }
}
impl<T: StrictDumb + StrictEncode + StrictDecode> Conceal for SecretGen<T> {
    type Concealed = Hidden;
    fn conceal(&self) -> Hidden { Hidden(self.open) }
}

// ----------------------------------------------------------------- merklize
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[derive(CommitEncode)]
#[strict_type(lib = LIB)]
#[commit_encode(strategy = strict, id = MerkleHash)]
pub struct XLeaf(pub u16);
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[derive(CommitEncode)]
#[strict_type(lib = LIB)]
#[commit_encode(strategy = merklize, id = IdX)]
pub struct XTree {
    pub leaves: TinyVec<XLeaf>,
    pub other: u8,
}
impl MerkleLeaves for XTree {
    type Leaf = XLeaf;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &XLeaf> { self.leaves.iter() }
}
#[derive(Wrapper, Clone, PartialEq, Eq, Debug, From)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[derive(CommitEncode)]
#[strict_type(lib = LIB)]
#[commit_encode(strategy = merklize, id = IdY)]
pub struct XTuple(pub TinyVec<XLeaf>);
impl MerkleLeaves for XTuple {
    type Leaf = XLeaf;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &XLeaf> { self.0.iter() }
}
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[derive(CommitEncode)]
#[strict_type(lib = LIB, tags = order, dumb = { Self::Few(XLeaf(0), XLeaf(0)) })]
#[commit_encode(strategy = merklize, id = IdZ)]
pub enum XEnum<T: StrictDumb + StrictEncode + StrictDecode> {
    Few(XLeaf, XLeaf),
    Many(TinyVec<XLeaf>, T),
}
impl<T: StrictDumb + StrictEncode + StrictDecode> MerkleLeaves for XEnum<T> {
    type Leaf = XLeaf;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &XLeaf> {
        match self {
            Self::Few(x, y) => vec![x, y],
            Self::Many(v, _) => v.iter().collect(),
        }
        .into_iter()
    }
}

// -------------------------------------------------------------------- world
fn step(x: &CommitStep) -> String {
    match x {
        CommitStep::Serialized(t) => format!("serialized {t}"),
        CommitStep::Hashed(t) => format!("hashed {t}"),
        CommitStep::Merklized(t) => format!("merklized {t}"),
        CommitStep::Concealed(t) => format!("concealed {t}"),
        CommitStep::Collection(..) => s!("collection"),
    }
}

fn ids_of<T: StrictDecode + StrictEncode + Clone + CommitId>(v: &[u8]) -> Vec<String>
where T::CommitmentId: StrictEncode {
    match dec::<T>(v) {
        None => vec![s!("err")],
        Some(x) => {
            let mut e = CommitEngine::new(T::CommitmentId::TAG);
            x.commit_encode(&mut e);
            let h = hex(e.finish().finish());
            vec![enc(&x.commit_id()), enc(&x.clone().commit_id()), h]
        }
    }
}
fn layout_of<T: StrictDumb + CommitmentLayout>() -> Vec<String> {
    let l = T::commitment_layout();
    let mut v = vec![l.idty().to_string(), l.tag().to_owned()];
    v.extend(l.fields().iter().map(step));
    v
}

struct Derive;
impl World for Derive {
    fn exec(&mut self, op: &Value) -> Vec<String> {
        let ty = s(op, "ty");
        macro_rules! go {
            ($($name:literal $t:ty;)*) => { match s(op, "op") {
                "x_id" => { let v = unhex(s(op, "v")); match ty { $( $name => ids_of::<$t>(&v), )* x => panic!("unknown type {x}") } }
                "x_layout" => match ty { $( $name => layout_of::<$t>(), )* x => panic!("unknown type {x}") },
                o => panic!("unknown op {o}"),
            } };
        }
        go!("Named" Named; "Tuple" Tuple; "Pathed" Pathed; "Hashed" Hashed; "Collections" Collections; "Nested" Nested;
            "Prim" Prim; "Assoc" Assoc; "Custom" Custom; "GenericU16" Generic<u16>; "GenericNamed" Generic<Named>;
            "Wheres" Wheres<u8, Assoc>; "TransU16" TransU16; "TransNamed" TransNamed; "TransAssoc" TransAssoc;
            "SecretEnum" SecretEnum; "SecretStruct" SecretStruct; "SecretOther" SecretOther; "XLeaf" XLeaf; "XTree" XTree;
            "Single" Single; "BoundedU8U16" Bounded<u8, u16>; "TransMarked" TransMarked; "TransGen" TransGen<Assoc>; "SecretTuple" SecretTuple;
            "SecretGen" SecretGen<u64>; "XTuple" XTuple; "XEnum" XEnum<u16>;)
    }
}

fn world(_: &str) -> Box<dyn World> { Box::new(Derive) }
fn main() { run::main(world) }
