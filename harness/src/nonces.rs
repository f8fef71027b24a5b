//! Many requests at once: in one thread, in several, in a forked process.

use std::io::Read;
use std::os::raw::c_int;
use std::os::unix::io::FromRawFd;

use oauth::request::ParameterList;
use oauth::serializer::auth::{Authorizer, Options};
use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials, Request, Token};
use serde_json::{json, Value};

use crate::common::*;

extern "C" {
    fn fork() -> c_int;
    fn pipe(fds: *mut c_int) -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    fn _exit(code: c_int) -> !;
}

fn builder<SM: SignatureMethod>(case: &Value, sm: SM) -> Builder<'static, SM> {
    let s = |k: &str| text(&case[k]).to_owned();
    let t = Token::from_parts(s("cid"), s("csec"), s("tid"), s("tsec"));
    let mut b = Builder::with_token(t, sm);
    if let Some(t) = case["timestamp"].as_u64() {
        b.timestamp(std::num::NonZeroU64::new(t));
    }
    b
}

fn param(out: &str, name: &str) -> String {
    let p = format!("{}=", name);
    let i = match out.find(&p) {
        Some(i) => i + p.len(),
        None => return "<none>".to_owned(),
    };
    out[i..].trim_start_matches('"').split(|c| c == '"' || c == '&' || c == ',').next().unwrap().to_owned()
}

/// One request through the given entry point.
fn one<SM>(b: &Builder<'static, SM>, case: &Value, entry: &str, sm: SM) -> Vec<Value>
where
    SM: SignatureMethod + Clone,
    SM::Sign: Clone,
{
    let req = ParameterList::new(vec![("a", text(&case["param"]).to_owned())]);
    let u = "http://h/p";
    let out = match entry {
        "to_form" => b.to_form("POST", u, &req),
        "to_query" => b.to_query("GET", u.to_owned(), &req),
        "into" => b.clone().into_authorization("GET", u, &req),
        "clone" => b.clone().get(u, &req),
        "new" => builder(case, sm).get(u, &req),
        "buf" => b.authorize_with_buf(String::new(), "GET", u, &req),
        "free" => {
            let s = |k: &str| text(&case[k]).to_owned();
            let t = Token::from_parts(s("cid"), s("csec"), s("tid"), s("tsec"));
            oauth::get(u, &req, &t, sm)
        }
        "serializer" | "authorizers" => {
            let mut o = Options::new();
            if let Some(t) = case["timestamp"].as_u64() {
                o.timestamp(std::num::NonZeroU64::new(t));
            }
            let c = Credentials::new(text(&case["cid"]), text(&case["csec"]));
            let a = Authorizer::authorization("GET", u, c, None, &o, sm);
            if entry == "authorizers" {
                // Clones of one that has not produced a nonce yet.
                let b = a.clone();
                let (x, y) = (req.serialize(a), req.serialize(b));
                return vec![both(&x), both(&y)];
            }
            req.serialize(a)
        }
        _ => b.get(u, &req),
    };
    vec![both(&out)]
}

fn both(out: &str) -> Value {
    json!([param(out, "oauth_nonce"), param(out, "oauth_timestamp")])
}

fn some<SM>(case: &Value, n: u64, entry: &str, sm: SM) -> Vec<Value>
where
    SM: SignatureMethod + Clone,
    SM::Sign: Clone,
{
    let b = builder(case, sm.clone());
    (0..n).flat_map(|_| one(&b, case, entry, sm.clone())).collect()
}

fn in_fork(f: impl FnOnce() -> Vec<Value>) -> Vec<Value> {
    unsafe {
        let mut fds = [0; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0);
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            use std::io::Write;
            drop(std::fs::File::from_raw_fd(fds[0]));
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let ok = catch(|| f()).map(|v| w.write_all(Value::Array(v).to_string().as_bytes()).is_ok()) == Ok(true);
            drop(w);
            _exit(if ok { 0 } else { 1 });
        }
        drop(std::fs::File::from_raw_fd(fds[1]));
        let mut s = String::new();
        std::fs::File::from_raw_fd(fds[0]).read_to_string(&mut s).unwrap();
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        serde_json::from_str(&s).unwrap_or_default()
    }
}

fn go<SM>(case: &Value, sm: SM) -> Value
where
    SM: SignatureMethod + Clone + Send + 'static,
    SM::Sign: Clone,
{
    let n = case["n"].as_u64().unwrap();
    let entry = text(&case["entry"]);
    let groups: Vec<Vec<Value>> = match text(&case["plan"]) {
        "threads" => {
            let k = case["threads"].as_u64().unwrap();
            // One builder shared by reference would need a scope; each thread
            // has a clone of the same one.
            let hs: Vec<_> = (0..k)
                .map(|_| {
                    let (case, entry, sm) = (case.clone(), entry.to_owned(), sm.clone());
                    std::thread::spawn(move || some(&case, n, &entry, sm))
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        }
        "fork" => {
            let first = some(case, n, entry, sm.clone());
            let child = in_fork(|| some(case, n, entry, sm.clone()));
            let other = in_fork(|| some(case, n, entry, sm.clone()));
            let parent = some(case, n, entry, sm);
            vec![first, child, other, parent]
        }
        _ => vec![some(case, n, entry, sm)],
    };
    json!({ "groups": groups })
}

pub fn run(case: &Value) -> Value {
    if let Some(c) = case["clock"].as_array() {
        crate::clock::still(c[0].as_i64().unwrap(), c[1].as_i64().unwrap());
    }
    let r = catch(|| match text(&case["sm"]) {
        "plaintext" => go(case, oauth::PLAINTEXT),
        _ => go(case, oauth::HMAC_SHA1),
    });
    crate::clock::real();
    match r {
        Ok(v) => v,
        Err(m) => json!({"panic": 1, "msg": m}),
    }
}
