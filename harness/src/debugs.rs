//! Debug output along the way of using the library.

use std::borrow::Cow;
use std::fmt::Debug;
use std::rc::Rc;

use either::Either;
use oauth::serializer::auth::Options;
use oauth::serializer::Authorizer;
use oauth::signature_method::{HmacSha1, Plaintext, Sign, SignatureMethod, HMAC_SHA1, PLAINTEXT};
use oauth::{Builder, Token};
use serde_json::{json, Value};

use crate::common::*;

/// What was printed: [stage, text].
struct Out(Vec<Value>);

impl Out {
    fn show(&mut self, what: &str, v: &dyn Debug) {
        for (f, t) in [
            ("", format!("{:?}", v)),
            ("#", format!("{:#?}", v)),
            ("wide", format!("{:40?}", v)),
            ("hex", format!("{:#x?}", v)),
            ("short", format!("{:.3?}", v)),
        ] {
            self.0.push(json!([what, f, t]));
        }
    }
}

/// A string of another type, with its own Debug.
#[derive(Clone)]
struct Name(String);
impl AsRef<str> for Name {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl Debug for Name {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Name({})", self.0)
    }
}

fn creds(cfg: &Value, o: &mut Out) {
    let c = client(cfg);
    let t = token(cfg).unwrap_or(c);
    o.show("credentials/str", &c);
    o.show("credentials/string", &c.map(|s| s.to_owned()));
    o.show("credentials/box", &c.map(|s| -> Box<str> { s.into() }));
    o.show("credentials/rc", &c.map(|s| -> Rc<str> { s.into() }));
    o.show("credentials/cow", &c.map(Cow::Borrowed));
    o.show("credentials/name", &c.map(|s| Name(s.to_owned())));
    o.show("credentials/vec", &vec![c, t]);
    o.show("credentials/option", &Some((&c, [t])));
    let tok = Token::new(c, t);
    o.show("token/str", &tok);
    o.show("token/string", &tok.map(|s| s.to_owned()));
    o.show("token/mixed", &tok.map_client(|s| Name(s.to_owned())));
    o.show("token/mixed2", &tok.map_token(|s| -> Box<str> { s.into() }));
    o.show("token/nested", &Some(vec![(1, Ok::<_, ()>(Box::new(tok)))]));
    o.show("token/ref", &&&tok.as_ref());
}

fn builders<SM: SignatureMethod + Debug + Clone>(cfg: &Value, sm: SM, o: &mut Out) {
    let c = client(cfg).map(|s| s.to_owned());
    let t = token(cfg);
    let mut b: Builder<'_, SM, String, &str> = Builder::new(c.clone(), sm.clone());
    o.show("builder/new", &b);
    b.token(t);
    o.show("builder/token", &b);
    if let Some(x) = opt(&cfg["callback"]) {
        b.callback(x);
    }
    if let Some(x) = opt(&cfg["verifier"]) {
        b.verifier(x);
    }
    b.nonce(text(&cfg["nonce"])).timestamp(std::num::NonZeroU64::new(1)).version(cfg["version"].as_bool() == Some(true));
    o.show("builder/options", &b);
    o.show("builder/nested", &Some([b.clone(), b.clone()]));
    // Authorizing leaves nothing in it.
    b.get("http://h/", &());
    o.show("builder/used", &b);
    if let Some(t) = t {
        let w: Builder<'_, SM, String, &str> = Builder::with_token(Token::new(c, t), sm);
        o.show("builder/with_token", &w);
    }
}

fn signers<SM>(cfg: &Value, evs: &[Value], sm: SM, o: &mut Out)
where
    SM: SignatureMethod + Debug + Clone,
    SM::Sign: Debug + Clone,
{
    o.show("method", &sm);
    builders(cfg, sm.clone(), o);
    let mut s = sm.clone().sign_with(text(&cfg["csec"]), token(cfg).map(|t| t.secret));
    o.show("signer/new", &s);
    s.request_method(text(&cfg["method"]));
    o.show("signer/method", &s);
    s.uri(text(&cfg["uri"]));
    o.show("signer/uri", &s);
    s.parameter("a", "b");
    s.delimiter();
    s.consumer_key(text(&cfg["cid"]));
    o.show("signer/parameters", &s);
    o.show("signer/clone", &Some(s.clone()));
    let mut options = Options::new();
    set_options(&mut options, cfg);
    o.show("options", &options);
    macro_rules! authorizer {
        ($a:expr) => {{
            let mut a = $a;
            o.show("authorizer/open", &a);
            for e in evs {
                step(&mut a, e);
                o.show("authorizer/fed", &a);
            }
            o.show("authorizer/nested", &vec![Some(a.clone())]);
        }};
    }
    let (m, u, c, t) = (text(&cfg["method"]), text(&cfg["uri"]), client(cfg), token(cfg));
    let buf = pieces(&cfg["buf"]);
    match (text(&cfg["mode"]), text(&cfg["sink"])) {
        ("header", "chunks") => authorizer!(Authorizer::<SM, Chunks>::authorization_with_buf(Chunks::make(&buf), m, u, c, t, &options, sm)),
        ("header", _) => authorizer!(Authorizer::authorization(m, u, c, t, &options, sm)),
        ("form", "chunks") => authorizer!(Authorizer::<SM, Chunks>::form_with_buf(Chunks::make(&buf), m, u, c, t, &options, sm)),
        ("form", _) => authorizer!(Authorizer::form(m, u, c, t, &options, sm)),
        _ => authorizer!(Authorizer::query(m, u.to_owned(), c, t, &options, sm)),
    }
}

fn printed(cfg: &Value, evs: &[Value]) -> Vec<Value> {
    let mut o = Out(vec![]);
    creds(cfg, &mut o);
    match text(&cfg["method_type"]) {
        "hmac" => signers(cfg, evs, HMAC_SHA1, &mut o),
        "hmacnew" => signers(cfg, evs, HmacSha1::default(), &mut o),
        "plaintext" => signers(cfg, evs, PLAINTEXT, &mut o),
        "plaintextbuf" => signers(cfg, evs, Plaintext::<Chunks>::with_buf(), &mut o),
        "left" => signers(cfg, evs, Either::<HmacSha1, Plaintext>::Left(HMAC_SHA1), &mut o),
        "right" => signers(cfg, evs, Either::<HmacSha1, Plaintext>::Right(PLAINTEXT), &mut o),
        "nested" => signers(cfg, evs, Either::<Either<HmacSha1, Plaintext<Chunks>>, HmacSha1>::Left(Either::Right(Plaintext::with_buf())), &mut o),
        m => panic!("unknown method {}", m),
    }
    o.0
}

/// The same use with either pair of secrets.
pub fn run(case: &Value) -> Value {
    let go = || {
        let evs = case["ev"].as_array().unwrap();
        let mut runs = vec![];
        for s in case["secrets"].as_array().unwrap() {
            let mut cfg = case["cfg"].clone();
            cfg["csec"] = s[0].clone();
            if !cfg["token"].is_null() {
                cfg["token"] = json!([cfg["token"][0], s[1]]);
            }
            runs.push(printed(&cfg, evs));
        }
        json!({ "runs": runs })
    };
    catch(go).unwrap_or_else(|m| json!({"panic": 1, "msg": m}))
}
