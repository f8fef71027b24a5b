//! Recording serializers and the equality of their records.

use std::borrow::Cow;
use std::fmt::Display;

use oauth::serializer::recorder::{Record, Recorder};
use oauth::serializer::{Serializer, SerializerExt};
use oauth::Request;
use serde_json::{json, Value};

use crate::common::*;
use crate::with_value;

fn shown<K: AsRef<str>, V: Display>(r: &Record<K, V>) -> Value {
    match r {
        Record::Parameter(k, v) => json!(["parameter", k.as_ref(), v.to_string()]),
        Record::ParameterEncoded(k, v) => json!(["parameter_encoded", k.as_ref(), v.to_string()]),
        Record::Callback => json!(["callback"]),
        Record::ConsumerKey => json!(["consumer_key"]),
        Record::Nonce => json!(["nonce"]),
        Record::SignatureMethod => json!(["signature_method"]),
        Record::Timestamp => json!(["timestamp"]),
        Record::Token => json!(["token"]),
        Record::Verifier => json!(["verifier"]),
        Record::Version => json!(["version"]),
    }
}

fn all<K: AsRef<str>, V: Display>(rs: &[Record<K, V>]) -> Value {
    rs.iter().map(shown).collect()
}

fn call<S: Serializer>(s: &mut S, e: &Value) {
    let c = &e["call"];
    match text(&c[0]) {
        "parameter" => with_value!(e, v => s.serialize_parameter(text(&c[1]), v)),
        "parameter_encoded" => with_value!(e, v => s.serialize_parameter_encoded(text(&c[1]), v)),
        "callback" => s.serialize_oauth_callback(),
        "consumer_key" => s.serialize_oauth_consumer_key(),
        "nonce" => s.serialize_oauth_nonce(),
        "signature_method" => s.serialize_oauth_signature_method(),
        "timestamp" => s.serialize_oauth_timestamp(),
        "token" => s.serialize_oauth_token(),
        "verifier" => s.serialize_oauth_verifier(),
        "version" => s.serialize_oauth_version(),
        x => panic!("unknown call {}", x),
    }
}

fn history(evs: &[Value]) -> Value {
    let mut regs: Vec<Option<Recorder>> = vec![None; 4];
    let mut out = vec![];
    for e in evs {
        let r = e["r"].as_u64().unwrap() as usize;
        let to = e["to"].as_u64().unwrap_or(0) as usize;
        let hist = |x: &Option<Recorder>| all(x.as_ref().unwrap().history());
        let seen = match text(&e["op"]) {
            "new" => {
                regs[r] = Some(if e["how"].as_str() == Some("default") { Default::default() } else { Recorder::new() });
                json!({"hist": hist(&regs[r])})
            }
            "call" => {
                call(regs[r].as_mut().unwrap(), e);
                json!({"hist": hist(&regs[r])})
            }
            "all" => {
                regs[r].as_mut().unwrap().serialize_oauth_parameters();
                json!({"hist": hist(&regs[r])})
            }
            "clone" => {
                regs[to] = regs[r].clone();
                json!({"hist": hist(&regs[r]), "other": hist(&regs[to])})
            }
            "end" => json!({"out": all(&regs[r].take().unwrap().end())}),
            "same" => json!({"same": regs[r] == regs[to]}),
            x => panic!("unknown operation {}", x),
        };
        out.push(seen);
    }
    json!({ "seen": out })
}

/// A record of any representation, to be compared with any other.
enum Any<'a> {
    StrStr(Record<&'a str, &'a str>),
    OwnOwn(Record),
    BoxVal(Record<Box<str>, Val>),
    CowDyn(Record<Cow<'a, str>, Box<dyn Display>>),
    OwnVal(Record<String, Val>),
    StrU64(Record<&'a str, u64>),
    StrChar(Record<&'a str, char>),
    RefRef(Record<&'a String, &'a Val>),
}

macro_rules! each {
    ($a:expr, $r:ident => $body:expr) => {
        match $a {
            Any::StrStr($r) => $body,
            Any::OwnOwn($r) => $body,
            Any::BoxVal($r) => $body,
            Any::CowDyn($r) => $body,
            Any::OwnVal($r) => $body,
            Any::StrU64($r) => $body,
            Any::StrChar($r) => $body,
            Any::RefRef($r) => $body,
        }
    };
}

fn record<K, V>(c: &Value, k: impl FnOnce() -> K, v: impl FnOnce() -> V) -> Record<K, V> {
    match text(&c[0]) {
        "parameter" => Record::Parameter(k(), v()),
        "parameter_encoded" => Record::ParameterEncoded(k(), v()),
        "callback" => Record::Callback,
        "consumer_key" => Record::ConsumerKey,
        "nonce" => Record::Nonce,
        "signature_method" => Record::SignatureMethod,
        "timestamp" => Record::Timestamp,
        "token" => Record::Token,
        "verifier" => Record::Verifier,
        "version" => Record::Version,
        x => panic!("unknown call {}", x),
    }
}

fn any(e: &Value) -> Any<'_> {
    let c = &e["call"];
    let (k, t) = (text(&c[1]), text(&c[2]));
    let val = || Val { pieces: pieces(&e["pieces"]), how: text(&e["how"]).to_owned() };
    match text(&e["as"]) {
        "strstr" => Any::StrStr(record(c, || k, || t)),
        "boxval" => Any::BoxVal(record(c, || k.into(), val)),
        "cowdyn" => Any::CowDyn(record(c, || k.into(), || Box::new(val()) as Box<dyn Display>)),
        "ownval" => Any::OwnVal(record(c, || k.to_owned(), val)),
        "stru64" => Any::StrU64(record(c, || k, || t.parse().unwrap())),
        "strchar" => Any::StrChar(record(c, || k, || t.chars().next().unwrap())),
        "refref" => Any::RefRef(record(c, || &*Box::leak(Box::new(k.to_owned())), || &*Box::leak(Box::new(val())))),
        _ => Any::OwnOwn(record(c, || k.to_owned(), || t.to_owned())),
    }
}

pub fn run(case: &Value) -> Value {
    let go = || {
        if let Some(evs) = case["ev"].as_array() {
            history(evs)
        } else if let Some(rs) = case["records"].as_array() {
            let rs: Vec<Any> = rs.iter().map(any).collect();
            let mut equal = vec![];
            for a in &rs {
                equal.push(rs.iter().map(|b| {
                    each!(a, a => each!(b, b => {
                        let e = *a == *b;
                        assert!(e != (*a != *b), "== and != agree");
                        e
                    }))
                }).collect::<Vec<bool>>());
            }
            let records: Vec<Value> = rs.iter().map(|r| each!(r, r => shown(r))).collect();
            json!({"records": records, "equal": equal})
        } else {
            let c = vec![
                all(&<Record>::OAUTH_PARAMETERS),
                all(&Record::<&str, u64>::OAUTH_PARAMETERS),
                all(&Record::<Box<str>, Val>::OAUTH_PARAMETERS),
                all(&().serialize(Recorder::new())),
                all(&None::<()>.serialize(Recorder::new())),
            ];
            json!({"constants": c, "same": ().serialize(Recorder::new()) == <Record>::OAUTH_PARAMETERS})
        }
    };
    catch(go).unwrap_or_else(|m| json!({"panic": 1, "msg": m}))
}
