//! Executes cases against the real library and reports what was observed.
mod builders;
mod chars;
mod creds;
mod clock;
mod common;
mod debugs;
mod entries;
mod flow;
mod forks;
mod nonces;
mod plists;
mod probe;
mod recorders;
mod requests;
mod sms;

use common::*;
use oauth::signature_method::SignatureMethod;
use oauth::Request;
use requests::*;
use serde_json::{json, Value};

struct Session<'a>(&'a Value);

impl<'a> SmVisit for Session<'a> {
    type Out = Value;
    fn visit<SM: SignatureMethod + Clone>(self, sm: SM) -> Value {
        match text(&self.0["sink"]) {
            "chunks" => session::<Chunks, SM>(self.0, sm),
            "bounded" => session::<Bounded<false>, SM>(self.0, sm),
            _ => session::<String, SM>(self.0, sm),
        }
    }
}

pub(crate) fn run_session(case: &Value) -> Value {
    let log = Log::default();
    let before = clock::set(&case["fake"]);
    let bounded = case["limits"].is_object();
    if bounded {
        Limits::set(&case["limits"]);
    }
    let mut obs = sms::with_sm(&case["cfg"]["sm"], &log, Session(case));
    obs["clock"] = json!([before, clock::now()]);
    clock::real();
    if bounded {
        obs["refused"] = json!(LIMITS.with(|l| l.replace(Limits::default())).refused);
    }
    obs["calls"] = Value::Array(log.borrow().clone());
    obs
}

/// Serializes a request twice to a probe.
struct Feed;
impl ReqVisit for Feed {
    type Out = Value;
    fn visit<R: Request + ?Sized>(self, r: &R) -> Value {
        let a = catch(|| r.serialize(Probe::default()));
        let b = catch(|| r.serialize(Probe::default()));
        match (a, b) {
            (Ok(a), Ok(b)) => json!({"calls": a, "again": b}),
            (Err(m), _) | (_, Err(m)) => json!({"panic": 1, "msg": m}),
        }
    }
}

/// Many cases on eight threads at the same time.
fn crowd(case: &Value) -> Value {
    let cases = case["cases"].as_array().unwrap();
    let start = std::sync::Barrier::new(8);
    let start = &start;
    let one = |c: &Value| -> Value {
        let mut obs = if c["entry"].is_string() { entries::run(c) } else { run_session(c) };
        obs["id"] = c["id"].clone();
        obs
    };
    let seen: Vec<Value> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
            .map(|k| {
                s.spawn(move || -> Vec<Value> {
                    sms::KEYS.with(|_| ());
                    start.wait();
                    cases.iter().skip(k).step_by(8).map(one).collect()
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    json!({ "seen": seen })
}

fn main() {
    let what = std::env::args().nth(1).unwrap_or_default();
    match &*what {
        "session" => serve(run_session),
        "entry" => serve(entries::run),
        "flow" => serve(flow::run),
        "forks" => serve(forks::run),
        "crowd" => serve(crowd),
        "builder" => serve(builders::run),
        "nonce" => serve(nonces::run),
        "debug" => serve(debugs::run),
        "creds" => serve(creds::run),
        "chars" => serve(chars::run),
        "plist" => serve(plists::run),
        "recorder" => serve(recorders::run),
        "feed" => serve(|c| with_request(&c["req"], Feed)),
        x => panic!("unknown family {}", x),
    }
}
