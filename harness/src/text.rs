//! World: text forms of ids and other values.
#[cfg(feature = "full")]
mod full {
    use amplify::hex::{FromHex, ToHex};
    use amplify::{Bytes32, Wrapper};
    use commit_verify::mpc::{Commitment, Message, Method, ProtocolId};
    use commit_verify::{ConvolveVerifyError, MerkleHash, ReservedBytes, StrictHash};
    use serde_json::Value;
    use std::borrow::Borrow;
    use std::ops::{Index, Range, RangeTo};
    use std::str::FromStr;

    use crate::util::*;

    fn show<T>(op: &Value) -> Vec<String>
    where
        T: Copy + Eq + ToString + std::fmt::LowerHex + std::fmt::UpperHex + FromStr + FromHex + From<[u8; 32]>,
        T: serde::Serialize + serde::de::DeserializeOwned,
    {
        let v = T::from(arr::<32>(s(op, "v")));
        let (lo, up) = (format!("{v:x}"), format!("{v:X}"));
        let same = |x: Option<T>| x == Some(v);
        vec![
            v.to_string(),
            lo.clone(),
            up.clone(),
            b([v.to_string(), lo.clone(), up.clone(), v.to_hex()].iter().all(|t| same(T::from_str(t).ok()))),
            b([v.to_string(), lo, up, v.to_hex()].iter().all(|t| same(T::from_hex(t).ok()))),
            b(["json", "pretty", "value", "bin"].iter().all(|f| serde_back(&v, f) == v)),
        ]
    }

    fn res<T: strict_encoding::StrictEncode>(r: Option<T>) -> Vec<String> {
        match r {
            Some(v) => vec![s!("ok"), enc(&v)],
            None => vec![s!("err")],
        }
    }

    fn parse<T>(op: &Value) -> Vec<String>
    where T: FromStr + FromHex + serde::Serialize + serde::de::DeserializeOwned + strict_encoding::StrictEncode {
        let t = s(op, "t");
        res(match s(op, "via") {
            "str" => T::from_str(t).ok(),
            "hex" => T::from_hex(t).ok(),
            "json" => serde_json::from_str::<T>(&Value::from(t).to_string()).ok(),
            "value" => serde_json::from_value::<T>(Value::from(t)).ok(),
            // exactly these bytes
            "bin" => {
                use bincode::Options;
                bincode::options().with_fixint_encoding().deserialize::<T>(&unhex(t)).ok()
            }
            x => panic!("unknown reading {x}"),
        })
    }

    fn array<T>(op: &Value) -> Vec<String>
    where
        T: Copy + From<[u8; 32]> + From<Bytes32> + Wrapper<Inner = Bytes32> + Borrow<[u8]> + Index<usize, Output = u8>,
        T: Index<Range<usize>, Output = [u8]> + Index<RangeTo<usize>, Output = [u8]>,
    {
        let a = arr::<32>(s(op, "v"));
        let (v, w) = (T::from(a), T::from(Bytes32::from(a)));
        vec![
            hex(v.as_inner().to_byte_array()),
            hex(w.into_inner().to_byte_array()),
            hex(Borrow::<[u8]>::borrow(&v)),
            hex(&v[..1]),
            hex([v[31]]),
            hex(&v[4..9]),
        ]
    }

    pub fn exec(op: &Value) -> Vec<String> {
        macro_rules! ids {
            ($f:ident: $($t:ident)*) => { match s(op, "ty") { $( stringify!($t) => $f::<$t>(op), )* x => panic!("unknown id {x}") } };
        }
        match s(op, "op") {
            "t_show" => ids!(show: ProtocolId Message Commitment StrictHash MerkleHash),
            "t_parse" => ids!(parse: ProtocolId Message Commitment StrictHash MerkleHash),
            "t_array" => ids!(array: ProtocolId Message Commitment StrictHash MerkleHash),
            "t_slice" => {
                let d = unhex(s(op, "t"));
                match s(op, "ty") {
                    "ProtocolId" => res(ProtocolId::copy_from_slice(&d).ok()),
                    "Message" => res(Message::copy_from_slice(&d).ok()),
                    _ => res(Commitment::copy_from_slice(&d).ok()),
                }
            }
            "t_method" => {
                let m = Method::Sha256t;
                vec![
                    b(["json", "value", "bin"].iter().all(|f| serde_back(&m, f) == m)),
                    b(enc(&serde_back(&m, "json")) == enc(&m)),
                    b((1..=255u8).all(|x| Method::try_from(x).is_err()) && Method::try_from(u8::from(m)) == Ok(m)),
                ]
            }
            "t_verr" => {
                let all = [
                    ConvolveVerifyError::CommitmentMismatch,
                    ConvolveVerifyError::ImpossibleMessage,
                    ConvolveVerifyError::InvalidProof,
                ];
                let back = |f: &str| all.iter().all(|e| serde_back(e, f) == *e);
                vec![b(back("json")), b(back("bin") && back("value"))]
            }
            "r_rt" => {
                fn rt<const L: usize, const V: u8>() -> bool {
                    let r = ReservedBytes::<L, V>::default();
                    ["json", "value", "bin"].iter().all(|f| serde_back(&r, f) == r && enc(&serde_back(&r, f)) == enc(&r))
                        // among other fields
                        && ["json", "value", "bin"].iter().all(|f| serde_back(&(7u8, r, 9u8), f) == (7, r, 9))
                }
                vec![b(rt::<1, 0>() && rt::<4, 0>() && rt::<3, 90>() && rt::<32, 255>() && rt::<8, 1>())]
            }
            o => panic!("unknown op {o}"),
        }
    }
}

#[derive(Default)]
pub struct Text;

impl crate::World for Text {
    fn exec(&mut self, op: &serde_json::Value) -> Vec<String> {
        #[cfg(feature = "full")]
        return full::exec(op);
        #[cfg(not(feature = "full"))]
        {
            let _ = op;
            crate::util::no_obj()
        }
    }
}
