use amplify::confinement::Confined;
use commit_verify::Digest;
use serde_json::Value;
use strict_encoding::{StreamReader, StreamWriter, StrictDecode, StrictEncode, StrictReader, StrictWriter};

pub fn hex(b: impl AsRef<[u8]>) -> String { b.as_ref().iter().map(|x| format!("{x:02x}")).collect() }

pub fn unhex(s: &str) -> Vec<u8> {
    assert!(s.len() % 2 == 0, "odd hex");
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

pub fn arr<const N: usize>(s: &str) -> [u8; N] { unhex(s).try_into().expect("length") }

pub fn enc_bytes<T: StrictEncode>(v: &T) -> Vec<u8> {
    let w = StrictWriter::with(StreamWriter::in_memory::<{ usize::MAX }>());
    v.strict_encode(w).expect("strict encoding").unbox().unconfine()
}

/// Observation of bytes: themselves, or the digest of long ones.
pub fn obs(b: &[u8]) -> String {
    if b.len() <= 4096 {
        hex(b)
    } else {
        // independent of the library: plain sha2
        format!("sha:{}", hex(sha2::Sha256::digest(b)))
    }
}

pub fn enc<T: StrictEncode>(v: &T) -> String { obs(&enc_bytes(v)) }

/// Decodes exactly all of the bytes.
pub fn dec<T: StrictDecode>(b: &[u8]) -> Option<T> {
    let mut rest: &[u8] = b;
    let r = {
        let mut reader = StrictReader::with(StreamReader::new::<{ usize::MAX }>(&mut rest));
        T::strict_decode(&mut reader).ok()
    };
    if rest.is_empty() {
        r
    } else {
        None
    }
}

pub fn s<'a>(op: &'a Value, k: &str) -> &'a str { op[k].as_str().unwrap_or_else(|| panic!("field {k} in {op}")) }
pub fn n(op: &Value, k: &str) -> u64 { op[k].as_u64().unwrap_or_else(|| panic!("field {k} in {op}")) }
pub fn list<'a>(op: &'a Value, k: &str) -> &'a Vec<Value> {
    op[k].as_array().unwrap_or_else(|| panic!("field {k} in {op}"))
}
pub fn b(v: bool) -> String { v.to_string() }
pub fn le32(v: u32) -> String { hex(v.to_le_bytes()) }

/// Number following `name: ` in a debug rendering.
pub fn debug_num(d: &str, name: &str) -> String {
    let key = format!("{name}: ");
    match d.find(&key) {
        None => s!("?"),
        Some(i) => d[i + key.len()..].chars().take_while(|c| c.is_ascii_digit()).collect(),
    }
}

/// First run of 64 hex digits.
pub fn find_id(d: &str) -> String {
    let b = d.as_bytes();
    let mut run = 0;
    for i in 0..b.len() {
        if b[i].is_ascii_hexdigit() {
            run += 1;
            if run == 64 && (i + 1 == b.len() || !b[i + 1].is_ascii_hexdigit()) {
                return d[i - 63..=i].to_lowercase();
            }
        } else {
            run = 0;
        }
    }
    s!("?")
}

/// All maximal digit runs which are separate words, outside of hex ids.
pub fn numbers(d: &str) -> Vec<String> {
    d.split(|c: char| !c.is_ascii_alphanumeric())
        .filter(|w| !w.is_empty() && w.len() < 20 && w.chars().all(|c| c.is_ascii_digit()))
        .map(|w| w.to_owned())
        .collect()
}

#[allow(dead_code)]
pub fn confined<T, const MIN: usize, const MAX: usize>(v: Vec<T>) -> Confined<Vec<T>, MIN, MAX> {
    Confined::try_from(v).expect("confinement")
}

/// The operation does not apply to what the register holds.
pub struct NoObj;
pub fn no_obj() -> ! { std::panic::panic_any(NoObj) }

/// Reads back what serde writes: as JSON text, as a JSON value, and as bytes.
#[cfg(feature = "full")]
pub fn serde_back<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T, f: &str) -> T {
    match f {
        "json" => serde_json::from_str(&serde_json::to_string(v).expect("serialization")).expect("deserialization"),
        "pretty" => {
            serde_json::from_slice(&serde_json::to_vec_pretty(v).expect("serialization")).expect("deserialization")
        }
        "value" => serde_json::from_value(serde_json::to_value(v).expect("serialization")).expect("deserialization"),
        "bin" => bincode::deserialize(&bincode::serialize(v).expect("serialization")).expect("deserialization"),
        f => panic!("unknown form {f}"),
    }
}

/// All texts of 64 hexadecimal digits within a value.
#[cfg(feature = "full")]
pub fn hash_texts(v: &mut Value) -> Vec<&mut String> {
    match v {
        Value::String(s) if s.len() == 64 && s.chars().all(|c| c.is_ascii_hexdigit()) => vec![s],
        Value::Array(a) => a.iter_mut().flat_map(hash_texts).collect(),
        Value::Object(a) => a.iter_mut().flat_map(|(_, x)| hash_texts(x)).collect(),
        _ => vec![],
    }
}

/// Whether the form with a broken hash (or a cut off end) is read at all.
#[cfg(feature = "full")]
pub fn serde_bad<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T, op: &Value) -> Vec<String> {
    let k = n(op, "k") as usize;
    let read = if s(op, "f") == "bin" {
        let b = bincode::serialize(v).expect("serialization");
        bincode::deserialize::<T>(&b[..b.len() - 1 - k % b.len()]).is_ok()
    } else {
        let mut j = serde_json::to_value(v).expect("serialization");
        {
            let mut hs = hash_texts(&mut j);
            if hs.is_empty() {
                return vec![s!("none")];
            }
            let i = k % hs.len();
            let t = &mut hs[i];
            match s(op, "how") {
                "short1" => { t.pop(); }
                "short2" => t.truncate(62),
                "long1" => t.push('0'),
                "long2" => t.push_str("00"),
                "zeros" => t.insert_str(0, "00"),
                "empty" => t.clear(),
                "double" => { let x = t.clone(); t.push_str(&x); }
                "letter" => t.replace_range(k % 64..k % 64 + 1, "g"),
                "space" => t.replace_range(0..1, " "),
                "prefix" => t.replace_range(0..2, "0x"),
                x => panic!("unknown alteration {x}"),
            };
        }
        serde_json::from_value::<T>(j).is_ok()
    };
    vec![if read { s!("ok") } else { s!("err") }]
}
