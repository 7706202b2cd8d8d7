//! World: client-side validation and its status.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

use client_side_validation::{
    ClientData, ClientSideValidate, SealIssue, SealResolver, Status, ValidationFailure, ValidationLog,
    ValidationReport, Validity,
};
use serde_json::Value;

use crate::util::*;
use crate::World;

macro_rules! entry {
    ($t:ident, $fmt:literal $(, $err:ident)?) => {
        #[derive(Clone, PartialEq, Eq, Hash, Debug, Default, Display $(, $err)?)]
        #[display($fmt)]
        #[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
        pub struct $t(pub String);
        impl ValidationLog for $t {}
    };
}
entry!(Fail, "failure {0}", Error);
entry!(Warn, "warning {0}");
entry!(Info, "info {0}");

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default, Display)]
#[display("seal {0}")]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub struct VSeal(pub String);
impl ValidationLog for VSeal {}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default, Display, Error)]
#[display("issue {text} with {seal}")]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub struct Issue {
    pub seal: VSeal,
    pub text: String,
}
impl ValidationLog for Issue {}
impl SealIssue for Issue {
    type Seal = VSeal;
    fn seal(&self) -> &VSeal { &self.seal }
}
impl ValidationFailure for Fail {}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Rep;
impl ValidationReport for Rep {
    type SealIssue = Issue;
    type Failure = Fail;
    type Warning = Warn;
    type Info = Info;
}
type St = Status<Rep>;

fn strs(v: &Value) -> Vec<String> { v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_owned()).collect() }
fn issue(x: &str) -> Issue {
    let (seal, text) = x.split_once('/').unwrap_or(("", x));
    Issue { seal: VSeal(seal.to_owned()), text: text.to_owned() }
}
/// A status from [issues, failures, warnings, info].
fn status(v: &Value) -> St {
    let mut s = St::new();
    s.seal_issues = strs(&v[0]).iter().map(|x| issue(x)).collect();
    s.failures = strs(&v[1]).into_iter().map(Fail).collect();
    s.warnings = strs(&v[2]).into_iter().map(Warn).collect();
    s.info = strs(&v[3]).into_iter().map(Info).collect();
    s
}
fn validity(s: &St) -> String {
    let v = s.validity();
    let name = match v {
        Validity::Valid => "valid",
        Validity::SealIssues => "unresolved seal issues",
        Validity::Invalid => "invalid",
    };
    if v.to_string() == name { name.to_owned() } else { format!("{name} shown as {v}") }
}
pub fn show(s: &St) -> Vec<String> {
    vec![
        s.seal_issues.iter().map(|x| format!("{}/{};", x.seal.0, x.text)).collect(),
        s.failures.iter().map(|x| format!("{};", x.0)).collect(),
        s.warnings.iter().map(|x| format!("{};", x.0)).collect(),
        s.info.iter().map(|x| format!("{};", x.0)).collect(),
        validity(s),
    ]
}

// The data: an own consistency status and items, each with seals and a status.
thread_local! { static LOG: RefCell<Vec<String>> = RefCell::new(vec![]); }
fn log(x: String) { LOG.with(|l| l.borrow_mut().push(x)) }

pub struct Item {
    name: String,
    seals: Vec<Rc<VSeal>>,
    status: St,
}
pub struct Data {
    own: St,
    seals: Vec<Rc<VSeal>>,
    items: Vec<Rc<Item>>,
}
/// What stands at several places may be one object: `share`.
struct Shared<T>(Option<BTreeMap<String, Rc<T>>>);
impl<T> Shared<T> {
    fn new(op: &Value) -> Self { Self((op["share"] == true).then(BTreeMap::new)) }
    fn get(&mut self, key: String, v: impl FnOnce() -> T) -> Rc<T> {
        match &mut self.0 {
            Some(m) => m.entry(key).or_insert_with(|| Rc::new(v())).clone(),
            None => Rc::new(v()),
        }
    }
}
thread_local! { static HINT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// An iterator which knows its length exactly, not at all, or only within bounds.
pub struct Hinted<I>(I, u64);
fn hinted<I: Iterator>(i: I) -> Hinted<I> { Hinted(i, HINT.with(|h| h.get())) }
impl<I: ExactSizeIterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        match self.1 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n + 3)),
            _ => (n / 2, None),
        }
    }
}
type Refs<'a, T> = Hinted<std::iter::Map<std::slice::Iter<'a, Rc<T>>, fn(&'a Rc<T>) -> &'a T>>;
fn refs<T>(v: &[Rc<T>]) -> Refs<'_, T> { hinted(v.iter().map((|x| &**x) as fn(&Rc<T>) -> &T)) }
impl<'a> ClientData<'a> for Item {
    type ValidationReport = Rep;
    type SealIterator = Refs<'a, VSeal>;
    fn single_use_seals(&'a self) -> Self::SealIterator { refs(&self.seals) }
    fn validate_internal_consistency(&'a self) -> St {
        log(format!("check {}", self.name));
        self.status.clone()
    }
}
impl<'a> ClientData<'a> for Data {
    type ValidationReport = Rep;
    type SealIterator = Refs<'a, VSeal>;
    fn single_use_seals(&'a self) -> Self::SealIterator { refs(&self.seals) }
    fn validate_internal_consistency(&'a self) -> St {
        log(s!("check own"));
        self.own.clone()
    }
}
impl<'a> ClientSideValidate<'a> for Data {
    type ValidationItem = Item;
    type ValidationIter = Refs<'a, Item>;
    fn validation_iter(&'a self) -> Self::ValidationIter { refs(&self.items) }
}
/// Answers its k-th question with the k-th answer ("" = closed), whatever the seal.
struct Resolver {
    answers: Vec<String>,
    k: usize,
}
impl SealResolver<VSeal> for Resolver {
    type Error = Issue;
    fn resolve_trust(&mut self, seal: &VSeal) -> Result<(), Issue> {
        log(format!("resolve {}", seal.0));
        let a = self.answers.get(self.k).cloned().unwrap_or_default();
        self.k += 1;
        if a.is_empty() { Ok(()) } else { Err(Issue { seal: seal.clone(), text: a }) }
    }
}

#[derive(Default)]
pub struct Csv {
    reg: [Option<St>; 4],
}

impl Csv {
    fn st(&mut self, op: &Value, k: &str) -> &mut St {
        match &mut self.reg[n(op, k) as usize] {
            Some(s) => s,
            None => no_obj(),
        }
    }
}

impl World for Csv {
    fn exec(&mut self, op: &Value) -> Vec<String> {
        HINT.with(|h| h.set(op["hint"].as_u64().unwrap_or(0)));
        match s(op, "op") {
            "v_validate" => {
                LOG.with(|l| l.borrow_mut().clear());
                let mut pool = Shared::new(op);
                let mut seals = |v: &Value| strs(v).into_iter().map(|x| pool.get(x.clone(), || VSeal(x))).collect::<Vec<_>>();
                let mut shared = Shared::new(op);
                let data = Data {
                    own: status(&op["own"]),
                    seals: seals(&op["seals"]),
                    items: list(op, "items")
                        .iter()
                        .map(|x| {
                            let v = seals(&x["seals"]);
                            shared.get(x.to_string(), || Item { name: x["name"].as_str().unwrap().to_owned(), seals: v, status: status(&x["st"]) })
                        })
                        .collect(),
                };
                let mut r = Resolver { answers: strs(&op["answers"]), k: 0 };
                let st = data.client_side_validate(&mut r);
                let mut o = show(&st);
                o.push(LOG.with(|l| l.borrow().iter().map(|x| format!("{x};")).collect()));
                return o;
            }
            "v_new" => {
                let st = match s(op, "how") {
                    "new" => St::new(),
                    "default" => St::default(),
                    "failure" => St::from_failure(Fail(s(op, "x").to_owned())),
                    "iter" => hinted(strs(&op["xs"]).into_iter().map(Fail)).collect::<St>(),
                    _ => status(&op["st"]),
                };
                self.reg[n(op, "s") as usize] = Some(st);
            }
            "v_add" => {
                let (k, x) = (s(op, "k").to_owned(), s(op, "x").to_owned());
                let st = self.st(op, "s");
                let before = st as *const St;
                let after = match k.as_str() {
                    "issue" => st.add_seal_issue(issue(&x)),
                    "failure" => st.add_failure(Fail(x)),
                    "warning" => st.add_warning(Warn(x)),
                    _ => st.add_info(Info(x)),
                } as *const St;
                assert!(before == after);
            }
            "v_merge" => {
                let y = self.st(op, "y").clone();
                *self.st(op, "s") += y;
            }
            "v_serde" => {
                #[cfg(feature = "full")]
                {
                    let st = self.st(op, "s");
                    let back: St = serde_back(&*st, s(op, "f"));
                    assert!(back == *st, "different after serialization");
                    *st = back;
                }
                #[cfg(not(feature = "full"))]
                no_obj()
            }
            "v_eq" => {
                let y = self.st(op, "y").clone();
                return vec![b(*self.st(op, "s") == y)];
            }
            o => panic!("unknown op {o}"),
        }
        show(self.st(op, "s"))
    }
}
