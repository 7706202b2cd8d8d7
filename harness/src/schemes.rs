//! Worlds: commit-verify, embed and convolve schemes, single-use seals, with
//! implementations that are tables given by the operation.
use std::borrow::Borrow;
use std::cell::RefCell;
use std::error::Error as StdError;
use std::fmt::{self, Display, Formatter};

use commit_verify::{
    CommitVerify, CommitmentProtocol, ConvolveCommit, ConvolveCommitProof, ConvolveVerifyError, EmbedCommitProof,
    EmbedCommitVerify, EmbedVerifyError, TryCommitVerify, VerifyEq, VerifyError,
};
use serde_json::Value;
use single_use_seals::{ClientSideWitness, NoWitness, PublishedWitness, SealError, SealWitness, SingleUseSeal};

use crate::util::*;
use crate::World;

thread_local! {
    static TAB: RefCell<Value> = RefCell::new(Value::Null);
    static CALLS: RefCell<u64> = RefCell::new(0);
}

/// Looks `path` up in the tables of the operation.
fn tab(path: &[u64], name: &str) -> Value {
    TAB.with(|t| {
        let t = t.borrow();
        let mut v = &t[name];
        for i in path {
            v = &v[*i as usize];
        }
        v.clone()
    })
}
fn tabn(path: &[u64], name: &str) -> i64 { tab(path, name).as_i64().unwrap_or_else(|| panic!("table {name} {path:?}")) }

pub struct Proto;
impl CommitmentProtocol for Proto {}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Display, Error)]
#[display("table error {0}")]
pub struct TabErr(pub i64);

/// Plain equality, through the blanket implementation of `VerifyEq`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Plain(pub u64);
/// Equality by class (halves): different but equal values.
#[derive(Clone, Copy, Debug)]
pub struct Class(pub u64);
impl PartialEq for Class {
    fn eq(&self, o: &Self) -> bool { self.0 / 2 == o.0 / 2 }
}
impl Eq for Class {}
/// No `Eq` at all: equivalence through the table `veq` (it needs not be symmetric).
#[derive(Clone, Copy, Debug)]
pub struct Tabled(pub u64);
impl VerifyEq for Tabled {
    fn verify_eq(&self, o: &Self) -> bool { tabn(&[self.0, o.0], "veq") == 1 }
}

trait Num: Copy {
    fn mk(n: u64) -> Self;
    fn get(self) -> u64;
}
macro_rules! num { ($($t:ident)*) => { $( impl Num for $t { fn mk(n: u64) -> Self { $t(n) } fn get(self) -> u64 { self.0 } } )* } }
num!(Plain Class Tabled);

// ---------------------------------------------------------- commit-verify
fn commit_now(m: u64) -> i64 {
    // commitments may depend on what happened before: "fs" is a list of tables
    let k = CALLS.with(|c| {
        *c.borrow_mut() += 1;
        *c.borrow() - 1
    });
    let len = tab(&[], "fs").as_array().unwrap().len() as u64;
    tabn(&[k.min(len - 1), m], "fs")
}
macro_rules! cv { ($($t:ident)*) => { $(
    impl CommitVerify<u64, Proto> for $t {
        fn commit(m: &u64) -> Self { $t(commit_now(*m) as u64) }
    }
    impl TryCommitVerify<i64, Proto> for $t {
        type Error = TabErr;
        fn try_commit(m: &i64) -> Result<Self, TabErr> {
            let x = commit_now(*m as u64);
            if x < 0 { Err(TabErr(x)) } else { Ok($t(x as u64)) }
        }
    }
)* } }
cv!(Plain Class);

fn verr(r: Result<(), VerifyError>) -> String {
    match r {
        Ok(()) => s!("ok"),
        Err(VerifyError::InvalidCommitment) => s!("InvalidCommitment"),
        Err(VerifyError::InvalidMessage) => s!("InvalidMessage"),
    }
}

// ------------------------------------------------------------------ embed
fn embed_err(x: i64) -> EmbedVerifyError<TabErr> {
    match x {
        -1 => EmbedVerifyError::CommitmentMismatch,
        -2 => EmbedVerifyError::InvalidProof,
        -3 => EmbedVerifyError::ProofMismatch,
        _ => EmbedVerifyError::InvalidMessage(TabErr(x)),
    }
}
fn eerr(r: Result<(), EmbedVerifyError<TabErr>>) -> String {
    match r {
        Ok(()) => s!("ok"),
        Err(EmbedVerifyError::CommitmentMismatch) => s!("CommitmentMismatch"),
        Err(EmbedVerifyError::InvalidProof) => s!("InvalidProof"),
        Err(EmbedVerifyError::ProofMismatch) => s!("ProofMismatch"),
        Err(EmbedVerifyError::InvalidMessage(e)) => format!("InvalidMessage {}", e.0),
    }
}

/// Container and proof of the embedding scheme: the number and its equality.
#[derive(Clone, Copy, Debug)]
pub struct Cont<E>(E);
#[derive(Clone, Copy, Debug)]
pub struct Prf<E>(E);
impl<E: VerifyEq> VerifyEq for Prf<E> {
    fn verify_eq(&self, o: &Self) -> bool { self.0.verify_eq(&o.0) }
}
impl<E: VerifyEq> VerifyEq for Cont<E> {
    fn verify_eq(&self, o: &Self) -> bool { self.0.verify_eq(&o.0) }
}

impl<E: Num + VerifyEq> EmbedCommitProof<u64, Cont<E>, Proto> for Prf<E> {
    fn restore_original_container(&self, c: &Cont<E>) -> Result<Cont<E>, EmbedVerifyError<TabErr>> {
        match tabn(&[self.0.get(), c.0.get()], "restore") {
            x if x < 0 => Err(embed_err(x)),
            x => Ok(Cont(E::mk(x as u64))),
        }
    }
}
impl<E: Num + VerifyEq> EmbedCommitVerify<u64, Proto> for Cont<E> {
    type Proof = Prf<E>;
    type CommitError = TabErr;
    fn embed_commit(&mut self, msg: &u64) -> Result<Prf<E>, TabErr> {
        let x = tab(&[self.0.get(), *msg], "embed");
        let c = x[0].as_i64().unwrap();
        if c < 0 {
            return Err(TabErr(c));
        }
        *self = Cont(E::mk(c as u64));
        Ok(Prf(E::mk(x[1].as_u64().unwrap())))
    }
}

fn embed<E: Num + VerifyEq>(op: &Value) -> Vec<String> {
    list(op, "cases")
        .iter()
        .map(|c| {
            let x = |i: usize| c[i].as_u64().unwrap();
            let (cont, msg, proof) = (Cont(E::mk(x(0))), x(1), Prf(E::mk(x(2))));
            let r = eerr(cont.verify(&msg, &proof));
            assert!(cont.0.get() == x(0) && msg == x(1) && proof.0.get() == x(2));
            r
        })
        .collect()
}

// --------------------------------------------------------------- convolve
pub struct Src(u64);
#[derive(Clone, Copy, Debug)]
pub struct CPrf<E>(E);
pub struct Com<E>(E);
impl<E: VerifyEq> VerifyEq for CPrf<E> {
    fn verify_eq(&self, o: &Self) -> bool { self.0.verify_eq(&o.0) }
}
impl<E: VerifyEq> VerifyEq for Com<E> {
    fn verify_eq(&self, o: &Self) -> bool { self.0.verify_eq(&o.0) }
}
thread_local! { static SUPPL: Vec<&'static u64> = (0..8).map(|i| &*Box::leak(Box::new(i))).collect(); }

impl<E: Num + VerifyEq> ConvolveCommitProof<u64, Src, ProtoE<E>> for CPrf<E>
{
    type Suppl = u64;
    fn restore_original(&self, c: &Com<E>) -> Src { Src(tabn(&[self.0.get(), c.0.get()], "restore") as u64) }
    fn extract_supplement(&self) -> &u64 { SUPPL.with(|v| v[tabn(&[self.0.get()], "suppl") as usize]) }
}
pub struct ProtoE<E>(std::marker::PhantomData<E>);
impl<E> CommitmentProtocol for ProtoE<E> {}
impl<E: Num + VerifyEq> ConvolveCommit<u64, CPrf<E>, ProtoE<E>> for Src {
    type Commitment = Com<E>;
    type CommitError = TabErr;
    fn convolve_commit(&self, suppl: &u64, msg: &u64) -> Result<(Com<E>, CPrf<E>), TabErr> {
        let x = tab(&[self.0, *suppl, *msg], "conv");
        let c = x[0].as_i64().unwrap();
        if c < 0 {
            return Err(TabErr(c));
        }
        Ok((Com(E::mk(c as u64)), CPrf(E::mk(x[1].as_u64().unwrap()))))
    }
}
fn convolve<E: Num + VerifyEq>(op: &Value) -> Vec<String> {
    list(op, "cases")
        .iter()
        .map(|c| {
            let x = |i: usize| c[i].as_u64().unwrap();
            match CPrf(E::mk(x(2))).verify(&x(1), &Com(E::mk(x(0)))) {
                Ok(()) => s!("ok"),
                Err(ConvolveVerifyError::CommitmentMismatch) => s!("CommitmentMismatch"),
                Err(ConvolveVerifyError::ImpossibleMessage) => s!("ImpossibleMessage"),
                Err(ConvolveVerifyError::InvalidProof) => s!("InvalidProof"),
            }
        })
        .collect()
}

#[derive(Default)]
pub struct Schemes;
impl World for Schemes {
    fn exec(&mut self, op: &Value) -> Vec<String> {
        TAB.with(|t| *t.borrow_mut() = op["t"].clone());
        let eq = s(op, "eq");
        match (s(op, "op"), eq) {
            ("s_commit", _) => list(op, "cases")
                .iter()
                .map(|c| {
                    CALLS.with(|x| *x.borrow_mut() = c[2].as_u64().unwrap());
                    let (cm, m) = (c[0].as_u64().unwrap(), c[1].as_u64().unwrap());
                    verr(match eq {
                        "plain" => CommitVerify::verify(&Plain(cm), &m),
                        _ => CommitVerify::verify(&Class(cm), &m),
                    })
                })
                .collect(),
            ("s_try", _) => list(op, "cases")
                .iter()
                .map(|c| {
                    CALLS.with(|x| *x.borrow_mut() = c[2].as_u64().unwrap());
                    let (cm, m) = (c[0].as_u64().unwrap(), c[1].as_i64().unwrap());
                    verr(match eq {
                        "plain" => TryCommitVerify::verify(&Plain(cm), &m),
                        _ => TryCommitVerify::verify(&Class(cm), &m),
                    })
                })
                .collect(),
            ("s_embed", "plain") => embed::<Plain>(op),
            ("s_embed", "class") => embed::<Class>(op),
            ("s_embed", _) => embed::<Tabled>(op),
            ("s_convolve", "plain") => convolve::<Plain>(op),
            ("s_convolve", "class") => convolve::<Class>(op),
            ("s_convolve", _) => convolve::<Tabled>(op),
            (o, _) => panic!("unknown op {o}"),
        }
    }
}

// ------------------------------------------------------------------ seals
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Display, Default)]
#[display("seal<{0}>")]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "CsvDriver")]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub struct TSeal(pub u32);
/// The published and client parts; `A` has a client witness, `B` has none.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "CsvDriver")]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub struct Pub(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "CsvDriver")]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub struct Cli(pub u16);
#[derive(Clone, Copy, PartialEq, Eq, Debug, Display, Error)]
#[display("pub error {0}")]
pub struct PubErr(i64);
#[derive(Clone, Copy, PartialEq, Eq, Debug, Display, Error)]
#[display("cli error {0}")]
pub struct CliErr(i64);

impl SingleUseSeal for TSeal {
    type Message = u8;
    type PubWitness = Pub;
    type CliWitness = Cli;
    fn is_included(&self, message: u8, w: &SealWitness<Self>) -> bool {
        // included: table[seal][message], only for the given witness
        let x = tab(&[self.0 as u64, message as u64], "incl");
        x.as_i64() == Some(1) && tab(&[], "pub").as_u64() == Some(w.published.0 as u64)
            && tab(&[], "cli").as_u64() == Some(w.client.0 as u64)
    }
}
impl ClientSideWitness for Cli {
    type Seal = TSeal;
    type Proof = (u8, u16);
    type Error = CliErr;
    fn convolve_commit(&self, msg: u8) -> Result<(u8, u16), CliErr> {
        match tabn(&[self.0 as u64, msg as u64], "conv") {
            x if x < 0 => Err(CliErr(x)),
            x => Ok((x as u8, self.0)),
        }
    }
    fn merge(&mut self, _: Self) -> Result<(), impl StdError> { Ok::<_, CliErr>(()) }
}
impl PublishedWitness<TSeal> for Pub {
    type PubId = u32;
    type Error = PubErr;
    fn pub_id(&self) -> u32 { self.0 + 1000 }
    fn verify_commitment(&self, proof: (u8, u16)) -> Result<(), PubErr> {
        match tabn(&[self.0 as u64, proof.0 as u64], "acc") {
            x if x < 0 => Err(PubErr(x)),
            _ => Ok(()),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "CsvDriver")]
pub struct NSeal(pub u32);
impl Display for NSeal {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "seal<{}>", self.0) }
}
impl SingleUseSeal for NSeal {
    type Message = u8;
    type PubWitness = Pub;
    type CliWitness = NoCli;
    fn is_included(&self, message: u8, _: &SealWitness<Self>) -> bool {
        tabn(&[self.0 as u64, message as u64], "incl") == 1
    }
}
/// `NoWitness` has no strict encoding, hence can not be used directly.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "CsvDriver")]
pub struct NoCli(u8);
impl ClientSideWitness for NoCli {
    type Seal = NSeal;
    type Proof = <NoWitness<NSeal> as ClientSideWitness>::Proof;
    type Error = <NoWitness<NSeal> as ClientSideWitness>::Error;
    fn convolve_commit(&self, msg: u8) -> Result<u8, Self::Error> { NoWitness::<NSeal>::default().convolve_commit(msg) }
    fn merge(&mut self, _: Self) -> Result<(), impl StdError> {
        let mut w = NoWitness::<NSeal>::default();
        let r = w.merge(NoWitness::default()).is_ok();
        if r { Ok(()) } else { Err(CliErr(0)) }
    }
}
impl PublishedWitness<NSeal> for Pub {
    type PubId = u32;
    type Error = PubErr;
    fn pub_id(&self) -> u32 { self.0 + 1000 }
    fn verify_commitment(&self, proof: u8) -> Result<(), PubErr> {
        match tabn(&[self.0 as u64, proof as u64], "acc") {
            x if x < 0 => Err(PubErr(x)),
            _ => Ok(()),
        }
    }
}

fn seal_res<S: SingleUseSeal>(r: Result<(), SealError<S>>, pid: impl Fn(&<S::PubWitness as PublishedWitness<S>>::PubId) -> String) -> String
where
    <S::PubWitness as PublishedWitness<S>>::Error: 'static,
    <S::CliWitness as ClientSideWitness>::Error: 'static,
{
    match r {
        Ok(()) => s!("ok"),
        Err(e) => {
            let disp = e.to_string();
            let src = e.source().map(|x| x.to_string()).unwrap_or_default();
            let (what, shown) = match &e {
                SealError::NotIncluded(seal, p) => {
                    let (a, b) = (seal.to_string(), pid(p));
                    let shown = disp.contains(&a) && disp.contains(&b) && src.is_empty();
                    (format!("NotIncluded {a} {b}"), shown)
                }
                SealError::Published(x) => (format!("Published {x}"), disp == x.to_string() && src == x.to_string()),
                SealError::Client(x) => (format!("Client {x}"), disp == x.to_string() && src == x.to_string()),
            };
            format!("{what}{}", if shown { "" } else { " wrong-display" })
        }
    }
}

struct Once<I>(I);
impl<I: Iterator> Iterator for Once<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
}

fn seals<S: SingleUseSeal<Message = u8>>(op: &Value, w: SealWitness<S>, mk: impl Fn(u32) -> S) -> Vec<String>
where
    <S::PubWitness as PublishedWitness<S>>::Error: 'static,
    <S::CliWitness as ClientSideWitness>::Error: 'static,
{
    list(op, "cases")
        .iter()
        .map(|c| {
            let runs = c[0].as_array().unwrap().iter().map(|x| match x.as_array() {
                Some(run) => (run[0].as_u64().unwrap(), run[1].as_u64().unwrap()),
                None => (1, x.as_u64().unwrap()),
            });
            let ss = runs.flat_map(|(n, x)| std::iter::repeat_with(move || x as u32).take(n as usize)).map(&mk).collect::<Vec<_>>();
            let m = c[1].as_u64().unwrap() as u8;
            let pid = |p: &<S::PubWitness as PublishedWitness<S>>::PubId| p.to_string();
            let mut r = vec![
                seal_res(w.verify_seals_closing(ss.clone(), m), pid),
                seal_res(w.verify_seals_closing(&ss, m), pid),
                seal_res(w.verify_seals_closing(Once(ss.iter()), m), pid),
            ];
            if ss.len() == 1 {
                r.push(seal_res(w.verify_seal_closing(ss[0].clone(), m), pid));
                r.push(seal_res(w.verify_seal_closing(Borrow::<S>::borrow(&ss[0]), m), pid));
            }
            let first = r[0].clone();
            r.dedup();
            if r.len() == 1 {
                first
            } else {
                r.join(" / ")
            }
        })
        .collect()
}

#[derive(Default)]
pub struct Seals;
impl World for Seals {
    fn exec(&mut self, op: &Value) -> Vec<String> {
        TAB.with(|t| *t.borrow_mut() = op["t"].clone());
        match s(op, "op") {
            "c_seals" | "c_runs" => seals(op, SealWitness::new(Pub(n(op, "p") as u32), Cli(n(op, "c") as u16)), TSeal),
            "c_nowit" => seals(op, SealWitness::new(Pub(n(op, "p") as u32), NoCli::default()), NSeal),
            "c_now" => {
                // NoWitness: all equal, merging does nothing, the message itself is the proof
                let mut w = NoWitness::<NSeal>::default();
                let m = w.merge(NoWitness::default()).is_ok();
                vec![b(w == NoWitness::default()), b(m), w.convolve_commit(n(op, "m") as u8).unwrap().to_string()]
            }
            #[cfg(feature = "full")]
            "c_serde" => {
                let w = dec::<SealWitness<TSeal>>(&unhex(s(op, "d"))).expect("witness");
                let w = serde_back(&w, s(op, "f"));
                vec![s!("ok"), enc(&w), w.published.0.to_string(), w.client.0.to_string()]
            }
            "c_enc" => {
                let h = unhex(s(op, "d"));
                match dec::<SealWitness<TSeal>>(&h) {
                    None => vec![s!("err")],
                    Some(w) => {
                        let w2 = SealWitness::<TSeal>::new(w.published, w.client);
                        vec![s!("ok"), enc(&w), enc(&w2), w.published.0.to_string(), w.client.0.to_string()]
                    }
                }
            }
            o => panic!("unknown op {o}"),
        }
    }
}
