//! Every entry point that authorizes or serializes a request.

use oauth::serializer::auth::Options;
use oauth::serializer::{Authorizer, Urlencoder};
use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials, Request, Token};
use serde_json::{json, Value};

use crate::common::*;
use crate::requests::AnyReq;

pub struct Entry<'a> {
    pub case: &'a Value,
    pub req: &'a AnyReq,
}

pub fn configure<'a, SM, C, T>(b: &mut Builder<'a, SM, C, T>, cfg: &'a Value)
where
    SM: SignatureMethod,
    C: AsRef<str>,
    T: AsRef<str>,
{
    if let Some(c) = opt(&cfg["callback"]) {
        b.callback(c);
    }
    if let Some(v) = opt(&cfg["verifier"]) {
        b.verifier(v);
    }
    if let Some(n) = opt(&cfg["nonce"]) {
        b.nonce(Some(n));
    }
    if let Some(t) = opt(&cfg["timestamp"]) {
        b.timestamp(std::num::NonZeroU64::new(t.parse().unwrap()));
    }
    if cfg["version"].as_bool() == Some(true) {
        b.version(true);
    }
}

fn builder<'a, SM: SignatureMethod>(cfg: &'a Value, sm: SM, how: &str) -> Builder<'a, SM, String, String> {
    let c = client(cfg).map(String::from);
    let mut b = match (token(cfg), how) {
        (Some(t), "with_token") => Builder::with_token(Token::new(c, t.map(String::from)), sm),
        (Some(t), _) => {
            let mut b = Builder::new(c, sm);
            b.token(t.map(String::from));
            b
        }
        (None, _) => Builder::new(c, sm),
    };
    configure(&mut b, cfg);
    b
}

macro_rules! names {
    ($e:expr; $($lit:literal => $body:expr,)*) => {
        match $e { $($lit => $body,)* x => panic!("unknown entry {}", x) }
    };
}

impl<'a> Entry<'a> {
    fn go<SM, U, W>(&self, sm: SM, mkuri: impl Fn() -> U, mkq: impl Fn() -> W, mkbuf: impl Fn() -> W) -> String
    where
        SM: SignatureMethod + Clone,
        U: std::fmt::Display,
        W: Sink,
    {
        let cfg = &self.case["cfg"];
        let r = self.req;
        let m = text(&cfg["method"]);
        let how = text(&self.case["how"]);
        let b = || builder(cfg, sm.clone(), how);
        let tok = || -> Token<String, String> {
            Token::new(client(cfg).map(String::from), token(cfg).unwrap().map(String::from))
        };
        let mut o = Options::new();
        set_options(&mut o, cfg);
        let cl = || client(cfg);
        let tk = || token(cfg);
        let q = || mkq();
        names! { text(&self.case["entry"]);
            "get" => b().get(mkuri(), r),
            "put" => b().put(mkuri(), r),
            "post" => b().post(mkuri(), r),
            "delete" => b().delete(mkuri(), r),
            "options" => b().options(mkuri(), r),
            "head" => b().head(mkuri(), r),
            "connect" => b().connect(mkuri(), r),
            "patch" => b().patch(mkuri(), r),
            "trace" => b().trace(mkuri(), r),
            "put_form" => b().put_form(mkuri(), r),
            "post_form" => b().post_form(mkuri(), r),
            "options_form" => b().options_form(mkuri(), r),
            "patch_form" => b().patch_form(mkuri(), r),
            "get_query" => b().get_query(q(), r).text(),
            "put_query" => b().put_query(q(), r).text(),
            "post_query" => b().post_query(q(), r).text(),
            "delete_query" => b().delete_query(q(), r).text(),
            "options_query" => b().options_query(q(), r).text(),
            "head_query" => b().head_query(q(), r).text(),
            "connect_query" => b().connect_query(q(), r).text(),
            "patch_query" => b().patch_query(q(), r).text(),
            "trace_query" => b().trace_query(q(), r).text(),
            "authorize" => b().authorize(m, mkuri(), r),
            "to_form" => b().to_form(m, mkuri(), r),
            "to_query" => b().to_query(m, q(), r).text(),
            "authorize_with_buf" => b().authorize_with_buf(mkbuf(), m, mkuri(), r).text(),
            "to_form_with_buf" => b().to_form_with_buf(mkbuf(), m, mkuri(), r).text(),
            "into_authorization" => b().into_authorization(m, mkuri(), r),
            "into_form" => b().into_form(m, mkuri(), r),
            "into_query" => b().into_query(m, q(), r).text(),
            "into_authorization_with_buf" => b().into_authorization_with_buf(mkbuf(), m, mkuri(), r).text(),
            "into_form_with_buf" => b().into_form_with_buf(mkbuf(), m, mkuri(), r).text(),
            "free.get" => oauth::get(mkuri(), r, &tok(), sm),
            "free.put" => oauth::put(mkuri(), r, &tok(), sm),
            "free.post" => oauth::post(mkuri(), r, &tok(), sm),
            "free.delete" => oauth::delete(mkuri(), r, &tok(), sm),
            "free.options" => oauth::options(mkuri(), r, &tok(), sm),
            "free.head" => oauth::head(mkuri(), r, &tok(), sm),
            "free.connect" => oauth::connect(mkuri(), r, &tok(), sm),
            "free.patch" => oauth::patch(mkuri(), r, &tok(), sm),
            "free.trace" => oauth::trace(mkuri(), r, &tok(), sm),
            "free.authorize" => oauth::authorize(m, mkuri(), r, &tok(), sm),
            "free.to_form" => oauth::to_form(r),
            "free.to_query" => oauth::to_query(text(&cfg["uri"]).to_owned(), r),
            "ser.authorization" => r.serialize(Authorizer::authorization(m, mkuri(), cl(), tk(), &o, sm)),
            "ser.authorization_with_buf" => r.serialize(
                Authorizer::<SM, W>::authorization_with_buf(mkbuf(), m, mkuri(), cl(), tk(), &o, sm)).text(),
            "ser.form" => r.serialize(Authorizer::form(m, mkuri(), cl(), tk(), &o, sm)),
            "ser.form_with_buf" => r.serialize(
                Authorizer::<SM, W>::form_with_buf(mkbuf(), m, mkuri(), cl(), tk(), &o, sm)).text(),
            "ser.query" => r.serialize(Authorizer::<SM, W>::query(m, q(), cl(), tk(), &o, sm)).text(),
            "urlencoder.form" => r.serialize(Urlencoder::form()),
            "urlencoder.form_with_buf" => r.serialize(Urlencoder::form_with_buf(mkbuf())).text(),
            "urlencoder.query" => r.serialize(Urlencoder::query(q())).text(),
        }
    }
}

impl<'a> SmVisit for Entry<'a> {
    type Out = Value;
    fn visit<SM: SignatureMethod + Clone>(self, sm: SM) -> Value {
        let cfg = &self.case["cfg"];
        let u = text(&cfg["uri"]);
        let buf = text(&cfg["buf"]);
        let us = u.to_owned();
        let up = uri(cfg);
        let r = catch(|| match text(&self.case["uritype"]) {
            "string" => self.go(sm, || us.clone(), || us.clone(), || {
                // A buffer with and without spare capacity.
                let mut b = String::with_capacity(buf.len() + cfg["spare"].as_u64().unwrap_or(0) as usize);
                b.push_str(buf);
                b
            }),
            "val" => self.go(sm, || up.clone(), || Chunks::make(&up.pieces), || Chunks::make(&[buf.to_owned()])),
            "refval" => self.go(sm, || &up, || Chunks::make(&up.pieces), || Chunks::make(&[buf.to_owned()])),
            _ => self.go(sm, || u, || us.clone(), || buf.to_owned()),
        });
        match r {
            Ok(out) => json!({"out": out}),
            Err(m) => json!({"panic": 1, "msg": m}),
        }
    }
}

pub fn run(case: &Value) -> Value {
    let req = crate::requests::any_req(&case["req"]);
    let sm = &case["cfg"]["sm"];
    let log = Log::default();
    let e = Entry { case, req: &req };
    let before = crate::clock::set(&case["fake"]);
    let mut obs = match text(&sm["kind"]) {
        "record" => {
            let r = rec_none(sm, &log);
            e.visit(r)
        }
        "plaintext" => e.visit(oauth::PLAINTEXT),
        _ => e.visit(oauth::HMAC_SHA1),
    };
    obs["clock"] = json!([before, crate::clock::now()]);
    crate::clock::real();
    obs["calls"] = Value::Array(log.borrow().clone());
    obs
}

#[allow(dead_code)]
fn _types(c: Credentials) -> Credentials<String> {
    c
}
