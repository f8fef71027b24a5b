//! One text at a time through each place where the library encodes texts.

use std::cell::RefCell;
use std::fmt::{Display, Write};
use std::num::NonZeroU64;
use std::rc::Rc;

use oauth::serializer::auth::Options;
use oauth::serializer::{Authorizer, Serializer, SerializerExt, Urlencoder};
use oauth::signature_method::{Plaintext, Sign, SignatureMethod};
use oauth::Credentials;
use serde_json::{json, Value};

use crate::common::{catch, pieces, text, Val};

/// Puts the text to be signed together.
#[derive(Clone)]
struct Tape(Rc<RefCell<String>>);

impl SignatureMethod for Tape {
    type Sign = Self;
    fn sign_with(self, _: &str, _: Option<&str>) -> Self {
        self
    }
}

impl Sign for Tape {
    type Signature = &'static str;
    fn get_signature_method_name(&self) -> &'static str {
        "TAPE"
    }
    fn request_method(&mut self, m: &str) {
        write!(self.0.borrow_mut(), "{}&", m).unwrap();
    }
    fn uri<T: Display>(&mut self, u: T) {
        write!(self.0.borrow_mut(), "{}&", u).unwrap();
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        write!(self.0.borrow_mut(), "{}={}", k, v).unwrap();
    }
    fn delimiter(&mut self) {
        self.0.borrow_mut().push('&');
    }
    fn end(self) -> &'static str {
        "sig"
    }
}

/// Everything that is produced with the text in the given place.
fn produce(place: &str, v: &Val) -> String {
    let t = v.to_string();
    let mut options = Options::new();
    options.nonce("n").timestamp(NonZeroU64::new(1));
    let (mut cid, mut csec, mut tid, mut tsec) = ("c", "cs", "t", "ts");
    let what = place.rsplit('.').next().unwrap();
    match what {
        "cid" => cid = &t,
        "csec" => csec = &t,
        "token" => tid = &t,
        "tsec" => tsec = &t,
        "callback" => {
            options.callback(&*t);
        }
        "verifier" => {
            options.verifier(&*t);
        }
        "nonce" => {
            options.nonce(&*t);
        }
        _ => {}
    }
    let client = Credentials::new(cid, csec);
    let token = Some(Credentials::new(tid, tsec));
    fn feed<S: Serializer>(mut s: S, what: &str, v: &Val) -> S::Output {
        match what {
            "value" => s.serialize_parameter("k", v),
            "encoded" => s.serialize_parameter_encoded("k", v),
            _ => {}
        }
        s.serialize_oauth_parameters();
        s.end()
    }
    match place.split('.').next().unwrap() {
        "plainform" => feed(Urlencoder::form(), what, v),
        "plainquery" => feed(Urlencoder::query("u".to_owned()), what, v),
        "form" => feed(Authorizer::form("GET", "u", client, token, &options, Plaintext::new()), what, v),
        "query" => feed(Authorizer::query("GET", "u".to_owned(), client, token, &options, Plaintext::new()), what, v),
        "header" => feed(Authorizer::authorization("GET", "u", client, token, &options, Plaintext::new()), what, v),
        "sign" => {
            let tape = Tape(Default::default());
            if what == "uri" {
                feed(Authorizer::authorization("GET", v, client, token, &options, tape.clone()), what, v);
            } else if what == "uriquery" {
                feed(Authorizer::query("GET", t.clone(), client, token, &options, tape.clone()), what, v);
            } else {
                feed(Authorizer::authorization("GET", "u", client, token, &options, tape.clone()), what, v);
            }
            let s = tape.0.borrow().clone();
            s
        }
        p => panic!("unknown place {}", p),
    }
}

/// The part of what is produced that the text is responsible for.
struct Place<'a> {
    place: &'a str,
    before: String,
    after: String,
}

impl<'a> Place<'a> {
    fn new(place: &'a str) -> Self {
        let val = |s: &str| Val { pieces: vec![s.to_owned()], how: String::new() };
        // Where "0" and "1" make the difference.
        let (a, b) = (produce(place, &val("00000")), produce(place, &val("11111")));
        let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap();
        Place { place, before: a[..at].to_owned(), after: a[at + 5..].to_owned() }
    }
    fn encode(&self, v: &Val) -> String {
        let out = produce(self.place, v);
        match out.strip_prefix(&*self.before).and_then(|s| s.strip_suffix(&*self.after)) {
            Some(s) => s.to_owned(),
            None => out,
        }
    }
}

pub fn run(case: &Value) -> Value {
    let go = || {
        let place = Place::new(text(&case["where"]));
        if !case["pieces"].is_null() {
            let v = Val { pieces: pieces(&case["pieces"]), how: text(&case["how"]).to_owned() };
            return json!({ "got": place.encode(&v) });
        }
        let n = |k: &str| case[k].as_u64().unwrap() as u32;
        let chars: Vec<char> = (n("from")..=n("to")).filter_map(char::from_u32).filter(|c| *c != '?' || !place.place.starts_with("sign.uri")).collect();
        let one = |s: String| place.encode(&Val { pieces: vec![s], how: String::new() });
        let each: Vec<String> = chars.iter().map(|c| one(c.to_string())).collect();
        json!({"each": each, "whole": one(chars.iter().collect())})
    };
    catch(go).unwrap_or_else(|m| json!({"panic": 1, "msg": m}))
}
