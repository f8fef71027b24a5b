//! Several serializations in progress at the same time: clones, interleaved
//! steps, one within the display of another's value, and threads.

use std::cell::RefCell;
use std::fmt::{self, Display};
use std::sync::{Arc, Barrier, Mutex};

use either::Either;
use oauth::serializer::auth::Options;
use oauth::serializer::{Authorizer, Serializer, Urlencoder};
use oauth::signature_method::{rsa_sha1_06, rsa_sha1_09, HmacSha1, Plaintext, Sign, SignatureMethod};
use serde_json::{json, Value};

use crate::common::*;
use crate::sms::KEYS;

/// A recording method whose clones record for themselves.
#[derive(Clone, Debug)]
struct Own {
    name: &'static str,
    sig: String,
    use_nonce: bool,
    use_ts: bool,
    log: Vec<Value>,
    done: Arc<Mutex<Vec<Value>>>,
}

impl SignatureMethod for Own {
    type Sign = Own;
    fn sign_with(mut self, cs: &str, ts: Option<&str>) -> Own {
        let ts: Vec<&str> = ts.into_iter().collect();
        self.log.push(json!(["sign_with", cs, ts]));
        self
    }
}

impl Sign for Own {
    type Signature = String;
    fn get_signature_method_name(&self) -> &'static str {
        self.name
    }
    fn request_method(&mut self, m: &str) {
        self.log.push(json!(["request_method", m]));
    }
    fn uri<T: Display>(&mut self, u: T) {
        self.log.push(json!(["uri", u.to_string()]));
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        self.log.push(json!(["parameter", k, v.to_string()]));
    }
    fn delimiter(&mut self) {
        self.log.push(json!(["delimiter"]));
    }
    fn end(mut self) -> String {
        self.log.push(json!(["end"]));
        *self.done.lock().unwrap() = self.log;
        self.sig
    }
    fn use_nonce(&self) -> bool {
        self.use_nonce
    }
    fn use_timestamp(&self) -> bool {
        self.use_ts
    }
}

fn own(sm: &Value, done: &Arc<Mutex<Vec<Value>>>) -> Own {
    Own {
        name: Box::leak(text(&sm["name"]).to_owned().into_boxed_str()),
        sig: text(&sm["sig"]).to_owned(),
        use_nonce: sm["use_nonce"].as_bool().unwrap_or(true),
        use_ts: sm["use_ts"].as_bool().unwrap_or(true),
        log: vec![],
        done: done.clone(),
    }
}

enum Any<'a, SM: SignatureMethod, W> {
    Auth(Authorizer<'a, SM, W>),
    Plain(Urlencoder<W>),
}

impl<'a, SM: SignatureMethod + Clone, W: Clone> Clone for Any<'a, SM, W>
where
    SM::Sign: Clone,
{
    fn clone(&self) -> Self {
        match self {
            Any::Auth(s) => Any::Auth(s.clone()),
            Any::Plain(s) => Any::Plain(s.clone()),
        }
    }
}

/// A serialization in a register.
struct Running<'a, SM: SignatureMethod, W> {
    ser: Any<'a, SM, W>,
    done: Arc<Mutex<Vec<Value>>>,
}

/// A value whose display carries out another authorization.
struct Nest<'a> {
    e: &'a Value,
    seen: &'a RefCell<Vec<Value>>,
}

impl<'a> Display for Nest<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let t = text(&self.e["v"]);
        let mid = t.char_indices().nth(t.chars().count() / 2).map_or(0, |(i, _)| i);
        f.write_str(&t[..mid])?;
        self.seen.borrow_mut().push(crate::run_session(&self.e["nested"]));
        f.write_str(&t[mid..])
    }
}

fn feed<S: Serializer>(ser: &mut S, e: &Value) -> Option<Value> {
    if e["nested"].is_object() {
        let seen = RefCell::new(vec![]);
        let v = Nest { e, seen: &seen };
        if e["enc"].as_bool() == Some(true) {
            ser.serialize_parameter_encoded(text(&e["k"]), v);
        } else {
            ser.serialize_parameter(text(&e["k"]), v);
        }
        return Some(Value::Array(seen.into_inner()));
    }
    step(ser, e);
    None
}

fn open<'a, SM: SignatureMethod, W: Sink>(cfg: &'a Value, options: &'a Options<'a>, sm: SM) -> Any<'a, SM, W> {
    let method = text(&cfg["method"]);
    let buf = pieces(&cfg["buf"]);
    let u = uri(cfg);
    match text(&cfg["mode"]) {
        "header" => Any::Auth(Authorizer::authorization_with_buf(W::make(&buf), method, &u, client(cfg), token(cfg), options, sm)),
        "form" => Any::Auth(Authorizer::form_with_buf(W::make(&buf), method, &u, client(cfg), token(cfg), options, sm)),
        "query" => Any::Auth(Authorizer::query(method, W::make(&u.pieces), client(cfg), token(cfg), options, sm)),
        "pform" => Any::Plain(Urlencoder::form_with_buf(W::make(&buf))),
        _ => Any::Plain(Urlencoder::query(W::make(&u.pieces))),
    }
}

/// Carries out the given events (with their places); what is seen at each.
fn history<'a, SM, W>(
    case: &'a Value,
    options: &'a [Options<'a>],
    evs: &[(usize, &Value)],
    mk: &dyn Fn(&Value, &Arc<Mutex<Vec<Value>>>) -> SM,
) -> Vec<(usize, Value)>
where
    SM: SignatureMethod + Clone,
    SM::Sign: Clone,
    W: Sink,
{
    let mut regs: Vec<Option<Running<'a, SM, W>>> = (0..5).map(|_| None).collect();
    let mut out = vec![];
    for &(at, e) in evs {
        let r = e["r"].as_u64().unwrap() as usize;
        let seen = catch(|| match text(&e["op"]) {
            "open" => {
                let i = e["cfg"].as_u64().unwrap() as usize - 1;
                let done = Arc::new(Mutex::new(vec![]));
                let cfg = &case["cfgs"][i];
                let ser = open(cfg, &options[i], mk(&cfg["sm"], &done));
                regs[r] = Some(Running { ser, done });
                json!({})
            }
            "fork" => {
                let f = regs[r].as_ref().unwrap();
                regs[e["to"].as_u64().unwrap() as usize] = Some(Running { ser: f.ser.clone(), done: f.done.clone() });
                json!({})
            }
            "drop" => {
                regs[r] = None;
                json!({})
            }
            "end" => {
                let Running { ser, done } = regs[r].take().unwrap();
                let t = match ser {
                    Any::Auth(s) => s.end(),
                    Any::Plain(s) => s.end(),
                };
                let calls = std::mem::take(&mut *done.lock().unwrap());
                json!({"out": t.text(), "calls": calls})
            }
            _ => {
                let nested = match regs[r].as_mut().unwrap().ser {
                    Any::Auth(ref mut s) => feed(s, e),
                    Any::Plain(ref mut s) => feed(s, e),
                };
                json!({ "nested": nested })
            }
        });
        match seen {
            Ok(v) => out.push((at, v)),
            Err(m) => {
                out.push((at, json!({ "panic": m })));
                std::mem::forget(regs);
                return out;
            }
        }
    }
    out
}

fn whole<SM, W>(case: &Value, mk: &(dyn Fn(&Value, &Arc<Mutex<Vec<Value>>>) -> SM + Sync)) -> Value
where
    SM: SignatureMethod + Clone,
    SM::Sign: Clone,
    W: Sink,
{
    let options: Vec<Options<'_>> = case["cfgs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|cfg| {
            let mut o = Options::new();
            set_options(&mut o, cfg);
            o
        })
        .collect();
    let evs: Vec<(usize, &Value)> = case["ev"].as_array().unwrap().iter().enumerate().collect();
    let mut seen = if text(&case["how"]) == "threads" {
        // One thread for each register.
        let mine = |r: u64| -> Vec<(usize, &Value)> { evs.iter().copied().filter(|(_, e)| e["r"] == json!(r)).collect() };
        let rs: Vec<Vec<(usize, &Value)>> = (1..=4).map(mine).filter(|v| !v.is_empty()).collect();
        let start = Barrier::new(rs.len());
        std::thread::scope(|s| {
            let hs: Vec<_> = rs
                .iter()
                .map(|evs| {
                    s.spawn(|| {
                        start.wait();
                        history::<SM, W>(case, &options, evs, mk)
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        })
    } else {
        history::<SM, W>(case, &options, &evs, mk)
    };
    seen.sort_by_key(|s| s.0);
    if let Some((at, m)) = seen.iter().find(|(_, s)| !s["panic"].is_null()) {
        return json!({"panic": at, "msg": m["panic"]});
    }
    json!({"seen": seen.into_iter().map(|s| s.1).collect::<Vec<_>>()})
}

pub fn run(case: &Value) -> Value {
    let chunks = text(&case["sink"]) == "chunks";
    macro_rules! go {
        ($mk:expr) => {
            if chunks {
                whole::<_, Chunks>(case, &$mk)
            } else {
                whole::<_, String>(case, &$mk)
            }
        };
    }
    let keys = KEYS.with(|k| *k);
    match text(&case["method"]) {
        "record" => go!(|sm: &Value, done: &_| own(sm, done)),
        "either" => go!(|sm: &Value, done: &_| match text(&sm["kind"]) {
            "record" => Either::Left(own(sm, done)),
            _ => Either::Right(HmacSha1::new()),
        }),
        "hmac" => go!(|_: &Value, _: &_| oauth::HMAC_SHA1),
        "plaintext" => go!(|_: &Value, _: &_| Plaintext::<Chunks>::with_buf()),
        "rsa06" => go!(|sm: &Value, _: &_| {
            let m: &'static rsa_sha1_06::RsaSha1 = keys.k06[sm["key"].as_u64().unwrap() as usize].as_ref();
            m
        }),
        "rsa09" => go!(|sm: &Value, _: &_| rsa_sha1_09::RsaSha1::new(keys.k09[sm["key"].as_u64().unwrap() as usize].clone())),
        m => panic!("unknown method {}", m),
    }
}
