//! The library in whatever configuration it was built, without assuming that it has an allocator.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::{self, Display, Write};

#[path = "../../harness/src/common.rs"]
mod common;

use common::*;
use oauth::serializer::auth::Options;
use oauth::serializer::{Authorizer, Serializer, SerializerExt, Urlencoder};
#[cfg(feature = "hmac")]
use oauth::signature_method::HmacSha1;
use oauth::signature_method::{Plaintext, Sign, SignatureMethod};
use oauth::{Builder, ParameterList, Request, Token};
use serde_json::{json, Value};

// ------------------------------------------------- counting allocations ----
struct Counting;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        COUNT.with(|c| c.set(c.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[global_allocator]
static A: Counting = Counting;

// --------------------------------------------------- signature methods ----
/// What is done with a method, and whether also with the method behind `Either`.
trait Use {
    fn go<SM: SignatureMethod + Clone>(&self, sm: SM) -> Value;
    fn either<SM: SignatureMethod + Clone>(&self, _how: &str, sm: SM) -> Value {
        self.go(sm)
    }
}

struct Visit<'a, U>(&'a str, U);

impl<'a, U: Use> SmVisit for Visit<'a, U> {
    type Out = Value;
    fn visit<SM: SignatureMethod + Clone>(self, sm: SM) -> Value {
        self.1.either(self.0, sm)
    }
}

/// None: this build does not have that method.
fn with_sm<U: Use>(sm: &Value, log: &Log, v: U) -> Option<Value> {
    let how = text(&sm["either"]);
    Some(match (text(&sm["kind"]), text(&sm["own"])) {
        ("record", _) => with_rec(sm, log, Visit(how, v)),
        #[cfg(feature = "alloc")]
        ("plaintext", "new") => v.either(how, Plaintext::new()),
        #[cfg(feature = "alloc")]
        ("plaintext", "const") => v.either(how, oauth::PLAINTEXT),
        ("plaintext", "chunks") => v.either(how, Plaintext::<Chunks>::with_buf()),
        ("plaintext", "arr") => v.go(Plaintext::<Arr>::default()),
        ("plaintext", _) => v.either(how, Plaintext::<String>::with_buf()),
        #[cfg(feature = "hmac")]
        ("hmac", "new") => v.either(how, HmacSha1::new()),
        #[cfg(feature = "hmac")]
        ("hmac", "default") => v.either(how, HmacSha1::default()),
        #[cfg(feature = "hmac")]
        ("hmac", _) => v.either(how, oauth::HMAC_SHA1),
        _ => return None,
    })
}

struct Session<'a>(&'a Value);

impl<'a> Use for Session<'a> {
    #[cfg(feature = "either")]
    fn either<SM: SignatureMethod + Clone>(&self, how: &str, sm: SM) -> Value {
        use either::Either;
        match how {
            "left" => self.go(Either::<SM, Plaintext<Chunks>>::Left(sm)),
            "right" => self.go(Either::<RecNone, SM>::Right(sm)),
            "nested" => self.go(Either::<Either<RecAll, SM>, RecNone>::Left(Either::Right(sm))),
            _ => self.go(sm),
        }
    }
    fn go<SM: SignatureMethod + Clone>(&self, sm: SM) -> Value {
        match text(&self.0["sink"]) {
            "chunks" => session::<Chunks, SM>(self.0, sm),
            "arr" => session::<Arr, SM>(self.0, sm),
            _ => session::<String, SM>(self.0, sm),
        }
    }
}

fn run_session(case: &Value) -> Value {
    let log = Log::default();
    match with_sm(&case["cfg"]["sm"], &log, Session(case)) {
        Some(mut obs) => {
            obs["calls"] = Value::Array(log.borrow().clone());
            obs
        }
        None => json!({"none": 1}),
    }
}

// -------------------------------------------------------- entry points ----
struct Entry<'a>(&'a Value);

fn configure<'a, SM: SignatureMethod, C: AsRef<str>, T: AsRef<str>>(b: &mut Builder<'a, SM, C, T>, cfg: &'a Value) {
    b.callback(opt(&cfg["callback"])).verifier(opt(&cfg["verifier"])).nonce(opt(&cfg["nonce"]));
    b.timestamp(opt(&cfg["timestamp"]).and_then(|t| std::num::NonZeroU64::new(t.parse().unwrap())));
    b.version(cfg["version"].as_bool() == Some(true));
}

impl<'a> Entry<'a> {
    /// None: this build does not have that entry point.
    fn enter<SM: SignatureMethod + Clone, W: Sink, R: Request>(&self, sm: SM, r: &R) -> Option<String> {
        let cfg = &self.0["cfg"];
        let m = text(&cfg["method"]);
        let u = uri(cfg);
        let mut b = match (token(cfg), text(&self.0["how"])) {
            (Some(t), "with_token") => Builder::with_token(Token::new(client(cfg), t), sm.clone()),
            (t, _) => {
                let mut b: Builder<'_, SM, &str> = Builder::new(client(cfg), sm.clone());
                b.token(t);
                b
            }
        };
        configure(&mut b, cfg);
        let q = || W::make(&u.pieces);
        let buf = || W::make(&pieces(&cfg["buf"]));
        let mut o = Options::new();
        set_options(&mut o, cfg);
        let (c, t) = (client(cfg), token(cfg));
        Some(match text(&self.0["entry"]) {
            "get_query" => b.get_query(q(), r).text(),
            "put_query" => b.put_query(q(), r).text(),
            "post_query" => b.post_query(q(), r).text(),
            "delete_query" => b.delete_query(q(), r).text(),
            "options_query" => b.options_query(q(), r).text(),
            "head_query" => b.head_query(q(), r).text(),
            "connect_query" => b.connect_query(q(), r).text(),
            "patch_query" => b.patch_query(q(), r).text(),
            "trace_query" => b.trace_query(q(), r).text(),
            "to_query" => b.to_query(m, q(), r).text(),
            "authorize_with_buf" => b.authorize_with_buf(buf(), m, &u, r).text(),
            "into_query" => b.into_query(m, q(), r).text(),
            "into_authorization_with_buf" => b.into_authorization_with_buf(buf(), m, &u, r).text(),
            "into_form_with_buf" => b.into_form_with_buf(buf(), m, &u, r).text(),
            "ser.authorization_with_buf" => r.serialize(Authorizer::<SM, W>::authorization_with_buf(buf(), m, &u, c, t, &o, sm)).text(),
            "ser.form_with_buf" => r.serialize(Authorizer::<SM, W>::form_with_buf(buf(), m, &u, c, t, &o, sm)).text(),
            "ser.query" => r.serialize(Authorizer::<SM, W>::query(m, q(), c, t, &o, sm)).text(),
            "urlencoder.form_with_buf" => r.serialize(Urlencoder::form_with_buf(buf())).text(),
            "urlencoder.query" => r.serialize(Urlencoder::query(q())).text(),
            _ => {
                let _ = o;
                return self.heap(b, sm, r);
            }
        })
    }

    #[cfg(not(feature = "alloc"))]
    fn heap<SM: SignatureMethod + Clone, R: Request>(&self, _: Builder<'_, SM, &str>, _: SM, _: &R) -> Option<String> {
        None
    }

    #[cfg(feature = "alloc")]
    fn heap<SM: SignatureMethod + Clone, R: Request>(&self, b: Builder<'_, SM, &str>, sm: SM, r: &R) -> Option<String> {
        let cfg = &self.0["cfg"];
        let m = text(&cfg["method"]);
        let u = uri(cfg);
        let mut o = Options::new();
        set_options(&mut o, cfg);
        let (c, t) = (client(cfg), token(cfg));
        let tok = || Token::new(client(cfg), token(cfg).unwrap());
        Some(match text(&self.0["entry"]) {
            "get" => b.get(&u, r),
            "put" => b.put(&u, r),
            "post" => b.post(&u, r),
            "delete" => b.delete(&u, r),
            "options" => b.options(&u, r),
            "head" => b.head(&u, r),
            "connect" => b.connect(&u, r),
            "patch" => b.patch(&u, r),
            "trace" => b.trace(&u, r),
            "put_form" => b.put_form(&u, r),
            "post_form" => b.post_form(&u, r),
            "options_form" => b.options_form(&u, r),
            "patch_form" => b.patch_form(&u, r),
            "authorize" => b.authorize(m, &u, r),
            "to_form" => b.to_form(m, &u, r),
            "to_form_with_buf" => b.to_form_with_buf(String::make(&pieces(&cfg["buf"])), m, &u, r),
            "into_authorization" => b.into_authorization(m, &u, r),
            "into_form" => b.into_form(m, &u, r),
            "free.get" => oauth::get(&u, r, &tok(), sm),
            "free.put" => oauth::put(&u, r, &tok(), sm),
            "free.post" => oauth::post(&u, r, &tok(), sm),
            "free.delete" => oauth::delete(&u, r, &tok(), sm),
            "free.options" => oauth::options(&u, r, &tok(), sm),
            "free.head" => oauth::head(&u, r, &tok(), sm),
            "free.connect" => oauth::connect(&u, r, &tok(), sm),
            "free.patch" => oauth::patch(&u, r, &tok(), sm),
            "free.trace" => oauth::trace(&u, r, &tok(), sm),
            "free.authorize" => oauth::authorize(m, &u, r, &tok(), sm),
            "free.to_form" => oauth::to_form(r),
            "free.to_query" => oauth::to_query(text(&cfg["uri"]).to_owned(), r),
            "ser.authorization" => r.serialize(Authorizer::authorization(m, &u, c, t, &o, sm)),
            "ser.form" => r.serialize(Authorizer::form(m, &u, c, t, &o, sm)),
            "urlencoder.form" => r.serialize(Urlencoder::form()),
            e => panic!("unknown entry {}", e),
        })
    }
}

impl<'a> Use for Entry<'a> {
    fn go<SM: SignatureMethod + Clone>(&self, sm: SM) -> Value {
        let req = &self.0["req"];
        let ps: Vec<(&str, Val)> = req["params"]
            .as_array()
            .unwrap()
            .iter()
            .map(|p| (text(&p["k"]), Val { pieces: pieces(&p["pieces"]), how: text(&p["ty"]).to_owned() }))
            .collect();
        let owned = text(&self.0["sink"]) == "string";
        let r = catch(|| match (text(&req["kind"]), owned) {
            ("unit", _) => self.enter::<SM, Chunks, _>(sm, &()),
            ("optnone", _) => self.enter::<SM, Chunks, _>(sm, &None::<()>),
            (_, true) => self.enter::<SM, String, _>(sm, &ParameterList::new(ps.clone())),
            (_, false) => self.enter::<SM, Arr, _>(sm, &&ParameterList::new(&mut ps.clone()[..])),
        });
        match r {
            Ok(Some(out)) => json!({ "out": out }),
            Ok(None) => json!({"none": 1}),
            Err(m) => json!({"panic": 1, "msg": m}),
        }
    }
}

/// As `with_sm`, for fewer types, since there are many entry points.
fn with_few_sm<U: Use>(sm: &Value, log: &Log, v: U) -> Option<Value> {
    Some(match text(&sm["kind"]) {
        "record" => v.go(rec_none(sm, log)),
        "plaintext" => v.go(Plaintext::<Chunks>::with_buf()),
        #[cfg(feature = "hmac")]
        "hmac" => v.go(HmacSha1::new()),
        _ => return None,
    })
}

fn run_entry(case: &Value) -> Value {
    let log = Log::default();
    match with_few_sm(&case["cfg"]["sm"], &log, Entry(case)) {
        Some(mut obs) => {
            obs["calls"] = Value::Array(log.borrow().clone());
            obs
        }
        None => json!({"none": 1}),
    }
}

// ------------------------------------------------- without allocating ----
/// A signature method that only counts the octets it sees, not to allocate itself.
#[derive(Clone)]
struct Quiet(&'static str, u64);

struct Count(u64);
impl Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

impl SignatureMethod for Quiet {
    type Sign = Quiet;
    fn sign_with(self, _: &str, _: Option<&str>) -> Quiet {
        self
    }
}
impl Sign for Quiet {
    type Signature = &'static str;
    fn get_signature_method_name(&self) -> &'static str {
        "RECORD"
    }
    fn request_method(&mut self, m: &str) {
        self.1 += m.len() as u64;
    }
    fn uri<T: Display>(&mut self, u: T) {
        self.parameter("", u)
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        let mut c = Count(self.1 + k.len() as u64);
        write!(c, "{}", v).unwrap();
        self.1 = c.0;
    }
    fn delimiter(&mut self) {
        self.1 += 3;
    }
    fn end(self) -> &'static str {
        self.0
    }
}

enum Ev<'a> {
    Param(&'a str, &'a str, bool, u64),
    Proto(u64),
    All,
}

fn feed<S: Serializer>(mut s: S, evs: &[Ev<'_>]) -> S::Output {
    for e in evs {
        match *e {
            Ev::Param(k, v, true, _) => s.serialize_parameter_encoded(k, v),
            Ev::Param(k, v, false, 0) => s.serialize_parameter(k, v),
            Ev::Param(k, v, false, 1) => s.serialize_parameter(k, format_args!("{}", v)),
            Ev::Param(k, v, false, _) => s.serialize_parameter(k, &&v),
            Ev::Proto(1) => s.serialize_oauth_callback(),
            Ev::Proto(2) => s.serialize_oauth_consumer_key(),
            Ev::Proto(3) => s.serialize_oauth_nonce(),
            Ev::Proto(4) => s.serialize_oauth_signature_method(),
            Ev::Proto(5) => s.serialize_oauth_timestamp(),
            Ev::Proto(6) => s.serialize_oauth_token(),
            Ev::Proto(7) => s.serialize_oauth_verifier(),
            Ev::Proto(_) => s.serialize_oauth_version(),
            Ev::All => s.serialize_oauth_parameters(),
        }
    }
    s.end()
}

fn arr(s: &str) -> Arr {
    let mut a = Arr::default();
    a.write_str(s).unwrap();
    a
}

fn quiet<SM: SignatureMethod>(cfg: &Value, sm: SM, evs: &[Ev<'_>]) -> Value {
    let mut o = Options::new();
    set_options(&mut o, cfg);
    let (m, u, c, t) = (text(&cfg["method"]), text(&cfg["uri"]), client(cfg), token(cfg));
    let (buf, start) = (arr(text(&cfg["buf"])), arr(u));
    let mode = text(&cfg["mode"]);
    let n = COUNT.with(|c| c.get());
    let out = match mode {
        "header" => feed(Authorizer::<SM, Arr>::authorization_with_buf(buf, m, u, c, t, &o, sm), evs),
        "form" => feed(Authorizer::<SM, Arr>::form_with_buf(buf, m, u, c, t, &o, sm), evs),
        "query" => feed(Authorizer::<SM, Arr>::query(m, start, c, t, &o, sm), evs),
        "pform" => feed(Urlencoder::form_with_buf(buf), evs),
        _ => feed(Urlencoder::query(start), evs),
    };
    let n = COUNT.with(|c| c.get()) - n;
    json!({"out": out.text(), "heap": n})
}

/// The same through a builder and a parameter list, in one go.
fn quiet_builder<SM: SignatureMethod + Clone>(cfg: &Value, sm: SM, list: &mut [(&str, &str)]) -> Value {
    let (m, u) = (text(&cfg["method"]), text(&cfg["uri"]));
    let (buf, start) = (arr(text(&cfg["buf"])), arr(u));
    let mode = text(&cfg["mode"]);
    let opts = (opt(&cfg["callback"]), opt(&cfg["verifier"]), opt(&cfg["nonce"]), opt(&cfg["timestamp"]), cfg["version"].as_bool() == Some(true));
    let n = COUNT.with(|c| c.get());
    let mut b: Builder<'_, SM, &str> = Builder::new(client(cfg), sm);
    b.token(token(cfg)).callback(opts.0).verifier(opts.1).nonce(opts.2).version(opts.4);
    b.timestamp(opts.3.and_then(|t| std::num::NonZeroU64::new(t.parse().unwrap())));
    let list = ParameterList::new(list);
    let out = match mode {
        "header" => b.authorize_with_buf(buf, m, u, &list),
        "form" => b.into_form_with_buf(buf, m, u, &list),
        _ => b.to_query(m, start, &list),
    };
    let n = COUNT.with(|c| c.get()) - n;
    json!({"out": out.text(), "heap": n})
}

fn run_quiet(case: &Value) -> Value {
    let cfg = &case["cfg"];
    let sm = &cfg["sm"];
    let evs: Vec<Ev<'_>> = case["ev"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(i, e)| match text(&e["op"]) {
            "param" => Ev::Param(text(&e["k"]), text(&e["v"]), e["enc"].as_bool() == Some(true), i as u64 % 3),
            "proto" => Ev::Proto(e["slot"].as_u64().unwrap()),
            _ => Ev::All,
        })
        .collect();
    let sig: &'static str = Box::leak(text(&sm["sig"]).to_owned().into_boxed_str());
    let mut list: Vec<(&str, &str)> = case["list"].as_array().into_iter().flatten().map(|p| (text(&p[0]), text(&p[1]))).collect();
    macro_rules! go {
        ($sm:expr) => {
            if case["list"].is_null() {
                quiet(cfg, $sm, &evs)
            } else {
                quiet_builder(cfg, $sm, &mut list)
            }
        };
    }
    let r = catch(|| match text(&sm["kind"]) {
        "record" => go!(Quiet(sig, 0)),
        "plaintext" => go!(Plaintext::<Arr>::with_buf()),
        #[cfg(feature = "hmac")]
        "hmac" => go!(HmacSha1::new()),
        _ => json!({"none": 1}),
    });
    let mut obs = r.unwrap_or_else(|m| json!({"panic": 1, "msg": m}));
    obs["calls"] = json!([]);
    obs
}

/// Nonces of requests that differ in nothing.
fn run_nonces(case: &Value) -> Value {
    let cfg = &case["cfg"];
    let mut ns = vec![];
    for i in 0..case["n"].as_u64().unwrap() {
        let log = Log::default();
        let mut o = Options::new();
        set_options(&mut o, cfg);
        let (c, t) = (client(cfg), token(cfg));
        let out = match i % 3 {
            0 => feed(Authorizer::<_, String>::authorization_with_buf(String::new(), "GET", "u", c, t, &o, rec_none(&cfg["sm"], &log)), &[Ev::All]),
            1 => feed(Authorizer::<_, String>::form_with_buf(String::new(), "GET", "u", c, t, &o, rec_none(&cfg["sm"], &log)), &[Ev::Proto(3)]),
            _ => {
                let mut b: Builder<'_, _, &str> = Builder::new(c, rec_none(&cfg["sm"], &log));
                b.timestamp(std::num::NonZeroU64::new(5));
                b.authorize_with_buf(String::new(), "GET", "u", &())
            }
        };
        let at = out.find("oauth_nonce=").map(|i| &out[i + 12..]).unwrap_or("");
        let at = at.trim_start_matches('"');
        ns.push(at.split(|c| c == '"' || c == '&').next().unwrap().to_owned());
    }
    json!({ "nonces": ns })
}

fn main() {
    match &*std::env::args().nth(1).unwrap_or_default() {
        "session" => serve(run_session),
        "entry" => serve(run_entry),
        "quiet" => serve(run_quiet),
        "nonces" => serve(|c| catch(|| run_nonces(c)).unwrap_or_else(|m| json!({"panic": 1, "msg": m}))),
        x => panic!("unknown family {}", x),
    }
}
