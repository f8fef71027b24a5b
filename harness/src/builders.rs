//! Histories of builders: registers holding builders, operations on them.

use std::fmt::{Debug, Display, Write};
use std::num::NonZeroU64;

use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials, Token};
use serde_json::{json, Value};

use crate::clock;
use crate::common::*;

pub fn cred<C: From<String> + AsRef<str>>(id: &Value, secret: &Value) -> Credentials<C> {
    Credentials::new(C::from(text(id).to_owned()), C::from(text(secret).to_owned()))
}

struct Histories<'a>(&'a Value, &'a Log);

pub fn sign<SM, C, T>(b: &mut Option<Builder<'_, SM, C, T>>, e: &Value) -> String
where
    SM: SignatureMethod + Clone,
    C: AsRef<str>,
    T: AsRef<str>,
{
    let req = crate::requests::any_req(&e["req"]);
    let r = &req;
    let m = text(&e["method"]);
    let u = text(&e["uri"]);
    let buf = || text(&e["buf"]).to_owned();
    let x = b.as_ref().unwrap();
    match text(&e["entry"]) {
        "get" => x.get(u, r),
        "put" => x.put(u, r),
        "post" => x.post(u, r),
        "delete" => x.delete(u, r),
        "authorize" => x.authorize(m, u, r),
        "to_form" => x.to_form(m, u, r),
        "post_form" => x.post_form(u, r),
        "get_query" => x.get_query(u.to_owned(), r),
        "to_query" => x.to_query(m, u.to_owned(), r),
        "authorize_with_buf" => x.authorize_with_buf(buf(), m, u, r),
        "to_form_with_buf" => x.to_form_with_buf(buf(), m, u, r),
        "into_authorization" => b.take().unwrap().into_authorization(m, u, r),
        "into_form" => b.take().unwrap().into_form(m, u, r),
        "into_query" => b.take().unwrap().into_query(m, u.to_owned(), r),
        "into_authorization_with_buf" => b.take().unwrap().into_authorization_with_buf(buf(), m, u, r),
        "into_form_with_buf" => b.take().unwrap().into_form_with_buf(buf(), m, u, r),
        e => panic!("unknown entry {}", e),
    }
}

pub fn set<'a, SM, C, T>(b: &mut Builder<'a, SM, C, T>, e: &'a Value)
where
    SM: SignatureMethod,
    C: AsRef<str>,
    T: AsRef<str> + From<String>,
{
    let v = &e["v"];
    // By the plain value or wrapped in an Option.
    let wrap = e["how"].as_str() == Some("opt");
    macro_rules! go {
        ($f:ident, $x:expr) => {
            match ($x, wrap) {
                (Some(x), false) => b.$f(x),
                (x, _) => b.$f(x),
            }
        };
    }
    match text(&e["field"]) {
        "token" => go!(token, v.as_array().map(|t| cred::<T>(&t[0], &t[1]))),
        "callback" => go!(callback, opt(v)),
        "verifier" => go!(verifier, opt(v)),
        "nonce" => go!(nonce, opt(v)),
        "timestamp" => go!(timestamp, opt(v).map(|t| t.parse::<NonZeroU64>().unwrap())),
        "version" => b.version(v.as_bool().unwrap()),
        f => panic!("unknown field {}", f),
    };
}

impl<'a> Histories<'a> {
    fn go<SM, C, T>(&self, sm: SM) -> Value
    where
        SM: SignatureMethod + Clone,
        C: AsRef<str> + From<String> + Clone + Debug,
        T: AsRef<str> + From<String> + Clone + Debug,
    {
        let mut regs: Vec<Option<Builder<'a, SM, C, T>>> = (0..5).map(|_| None).collect();
        let mut out = vec![];
        for e in self.0["ev"].as_array().unwrap() {
            let r = e["r"].as_u64().unwrap() as usize;
            let res = catch(|| match text(&e["op"]) {
                "new" => {
                    regs[r] = Some(Builder::new(cred(&e["cid"], &e["csec"]), sm.clone()));
                    Value::Null
                }
                "with_token" => {
                    let t = Token::new(cred(&e["cid"], &e["csec"]), cred(&e["v"][0], &e["v"][1]));
                    regs[r] = Some(Builder::with_token(t, sm.clone()));
                    Value::Null
                }
                "set" => {
                    set(regs[r].as_mut().unwrap(), e);
                    Value::Null
                }
                "clone" => {
                    regs[e["to"].as_u64().unwrap() as usize] = regs[r].clone();
                    Value::Null
                }
                "drop" => {
                    regs[r] = None;
                    Value::Null
                }
                "sign" => {
                    self.1.borrow_mut().clear();
                    if let Some(ms) = e["sleep"].as_u64() {
                        std::thread::sleep(std::time::Duration::from_millis(ms));
                    }
                    let before = clock::set(&e["fake"]);
                    let o = sign(&mut regs[r], e);
                    let after = clock::now();
                    json!({"out": o, "clock": [before, after], "calls": self.1.borrow().clone()})
                }
                x => panic!("unknown operation {}", x),
            });
            clock::real();
            match res {
                Ok(v) => out.push(v),
                Err(m) => {
                    out.push(json!({"panic": m}));
                    break;
                }
            }
        }
        json!({ "res": out })
    }
}

impl<'a> SmVisit for Histories<'a> {
    type Out = Value;
    fn visit<SM: SignatureMethod + Clone>(self, sm: SM) -> Value {
        match text(&self.0["own"]) {
            "box" => self.go::<SM, Box<str>, Box<str>>(sm),
            "mixed" => self.go::<SM, String, std::rc::Rc<str>>(sm),
            _ => self.go::<SM, String, String>(sm),
        }
    }
}

pub fn run(case: &Value) -> Value {
    let log = Log::default();
    let sm = &case["sm"];
    let h = Histories(case, &log);
    match text(&sm["kind"]) {
        "record" => h.visit(rec_none(sm, &log)),
        "plaintext" => h.visit(oauth::PLAINTEXT),
        _ => h.visit(oauth::HMAC_SHA1),
    }
}

#[allow(dead_code)]
fn _uses<W: Write + Display>(_: W) {}
