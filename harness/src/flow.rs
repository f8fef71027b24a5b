//! The client's side of authorization flows: builders, requests on the wire,
//! and credentials read out of responses.

use std::fmt::Debug;

use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials, Token};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

use crate::builders::{cred, set, sign};
use crate::clock;
use crate::common::*;

struct Client<'a>(&'a Value);

/// Reads credentials out of a response; now and then they are stored and read again.
fn read<T>(e: &Value) -> Result<Credentials<T>, String>
where
    T: DeserializeOwned + Serialize + AsRef<str> + Clone,
{
    let t = text(&e["text"]);
    let c: Credentials<T> = match text(&e["fmt"]) {
        "form" => serde_urlencoded::from_str(t).map_err(|e| e.to_string())?,
        "bytes" => serde_urlencoded::from_bytes(t.as_bytes()).map_err(|e| e.to_string())?,
        _ => serde_json::from_str(t).map_err(|e| e.to_string())?,
    };
    match text(&e["keep"]) {
        "json" => serde_json::from_str(&serde_json::to_string(&c).unwrap()).map_err(|e| e.to_string()),
        "form" => serde_urlencoded::from_str(&serde_urlencoded::to_string(&c).unwrap()).map_err(|e| e.to_string()),
        _ => Ok(c),
    }
}

fn free<SM: SignatureMethod, C: AsRef<str>, T: AsRef<str>>(e: &Value, t: &Token<C, T>, sm: SM) -> String {
    let req = crate::requests::any_req(&e["req"]);
    let (r, u, m) = (&req, text(&e["uri"]), text(&e["method"]));
    match text(&e["entry"]) {
        "free.get" => oauth::get(u, r, t, sm),
        "free.put" => oauth::put(u, r, t, sm),
        "free.post" => oauth::post(u, r, t, sm),
        "free.delete" => oauth::delete(u, r, t, sm),
        "free.authorize" => oauth::authorize(m, u, r, t, sm),
        x => panic!("unknown entry {}", x),
    }
}

/// What goes over the wire for a request whose authorization is `out`.
fn message(e: &Value, out: String) -> Value {
    let req = crate::requests::any_req(&e["req"]);
    let u = text(&e["uri"]);
    match text(&e["how"]) {
        "hform" => json!({"uri": u, "auth": [out], "body": oauth::to_form(&req)}),
        "hquery" => json!({"uri": oauth::to_query(u.to_owned(), &req), "auth": [out], "body": ""}),
        "form" => json!({"uri": u, "auth": [], "body": out}),
        "query" => json!({"uri": out, "auth": [], "body": ""}),
        x => panic!("unknown way {}", x),
    }
}

impl<'a> Client<'a> {
    fn go<SM, C, T>(&self, sm: SM) -> Value
    where
        SM: SignatureMethod + Clone,
        C: AsRef<str> + From<String> + Clone + Debug,
        T: AsRef<str> + From<String> + Clone + Debug + DeserializeOwned + Serialize,
    {
        let mut regs: Vec<Option<Builder<'a, SM, C, T>>> = (0..5).map(|_| None).collect();
        let mut creds: Vec<Option<Credentials<T>>> = (0..9).map(|_| None).collect();
        let mut out = vec![];
        for e in self.0["ev"].as_array().unwrap() {
            let r = e["r"].as_u64().unwrap_or(0) as usize;
            let k = e["k"].as_u64().unwrap_or(0) as usize;
            let res = catch(|| match text(&e["op"]) {
                "new" => {
                    regs[r] = Some(Builder::new(cred(&e["cid"], &e["csec"]), sm.clone()));
                    Value::Null
                }
                "with_token" => {
                    let t = Token::new(cred(&e["cid"], &e["csec"]), creds[k].clone().unwrap());
                    regs[r] = Some(Builder::with_token(t, sm.clone()));
                    Value::Null
                }
                "token" => {
                    match creds[k].clone() {
                        Some(t) => regs[r].as_mut().unwrap().token(t),
                        None => regs[r].as_mut().unwrap().token(None),
                    };
                    Value::Null
                }
                "set" => {
                    set(regs[r].as_mut().unwrap(), e);
                    Value::Null
                }
                "clone" => {
                    regs[e["to"].as_u64().unwrap() as usize] = regs[r].clone();
                    Value::Null
                }
                "drop" => {
                    regs[r] = None;
                    Value::Null
                }
                "grant" => match read::<T>(e) {
                    Ok(c) => {
                        let seen = json!({"got": [c.identifier(), c.secret()]});
                        creds[k] = Some(c);
                        seen
                    }
                    Err(m) => json!({ "err": m }),
                },
                "ask" | "free" => {
                    let before = clock::now();
                    let o = if text(&e["op"]) == "ask" {
                        sign(&mut regs[r], e)
                    } else {
                        let client: Credentials<C> = cred(&e["cid"], &e["csec"]);
                        let token = creds[k].as_ref().unwrap();
                        match text(&e["by"]) {
                            "ref" => free(e, &Token::from_ref(&client, token), sm.clone()),
                            "parts" => {
                                let t = Token::from_parts(client.identifier(), client.secret(), token.identifier(), token.secret());
                                free(e, &t, sm.clone())
                            }
                            _ => free(e, &Token::new(client, token.clone()), sm.clone()),
                        }
                    };
                    let after = clock::now();
                    json!({"m": message(e, o), "clock": [before, after]})
                }
                _ => Value::Null,
            });
            match res {
                Ok(v) if v["err"].is_null() => out.push(v),
                Ok(v) => {
                    out.push(v);
                    break;
                }
                Err(m) => {
                    out.push(json!({ "err": m }));
                    break;
                }
            }
        }
        json!({ "res": out })
    }
}

impl<'a> SmVisit for Client<'a> {
    type Out = Value;
    fn visit<SM: SignatureMethod + Clone>(self, sm: SM) -> Value {
        match text(&self.0["own"]) {
            "box" => self.go::<SM, Box<str>, Box<str>>(sm),
            "mixed" => self.go::<SM, std::rc::Rc<str>, String>(sm),
            _ => self.go::<SM, String, String>(sm),
        }
    }
}

pub fn run(case: &Value) -> Value {
    clock::real();
    let log = Log::default();
    crate::sms::with_sm(&case["sm"], &log, Client(case))
}
