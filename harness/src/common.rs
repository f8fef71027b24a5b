//! Shared by every harness build: displayable values, text sinks, recording
//! signature methods, and the driver that feeds a serializer step by step.
//! Uses only what the library offers without an allocator.
#![allow(dead_code)]

use std::cell::RefCell;
use std::fmt::{self, Display, Write};
use std::num::NonZeroU64;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use oauth::serializer::auth::Options;
use oauth::serializer::{Authorizer, Serializer, SerializerExt, Urlencoder};
use oauth::signature_method::{Sign, SignatureMethod};
use oauth::Credentials;
use serde_json::{json, Value};

// ------------------------------------------------------------- values ----

/// A value that writes its text in the given pieces, in a chosen manner.
#[derive(Clone, Debug)]
pub struct Val {
    pub pieces: Vec<String>,
    pub how: String,
}

impl Display for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for p in &self.pieces {
            match &*self.how {
                "char" => {
                    for c in p.chars() {
                        f.write_char(c)?;
                    }
                }
                "fmt" => write!(f, "{}", p)?,
                "args" => f.write_fmt(format_args!("{}", p))?,
                "pad" => f.pad(p)?,
                _ => f.write_str(p)?,
            }
        }
        match &*self.how {
            "fails" => Err(fmt::Error),
            _ => Ok(()),
        }
    }
}

pub fn text(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}

pub fn opt(v: &Value) -> Option<&str> {
    v.as_str()
}

pub fn pieces(v: &Value) -> Vec<String> {
    match v {
        Value::Array(a) => a.iter().map(|x| text(x).to_owned()).collect(),
        Value::String(s) => vec![s.clone()],
        _ => vec![],
    }
}

/// Calls `$f!(value)` with the value of a parameter as one of several types.
#[macro_export]
macro_rules! with_value {
    ($p:expr, $v:ident => $body:expr) => {{
        let p: &serde_json::Value = $p;
        let t: &str = $crate::common::text(&p["v"]);
        match $crate::common::text(&p["ty"]) {
            "str" => { let $v = t; $body }
            "string" => { let $v = t.to_owned(); $body }
            "refref" => { let $v = &&t; $body }
            "boxed" => { let $v: Box<dyn std::fmt::Display> = Box::new(t.to_owned()); $body }
            "u64" => { let $v = t.parse::<u64>().unwrap(); $body }
            "i64" => { let $v = t.parse::<i64>().unwrap(); $body }
            "f64" => { let $v = t.parse::<f64>().unwrap(); $body }
            "bool" => { let $v = t == "true"; $body }
            "chr" => { let $v = t.chars().next().unwrap(); $body }
            how => {
                let ps = match &p["pieces"] {
                    serde_json::Value::Null => vec![t.to_owned()],
                    x => $crate::common::pieces(x),
                };
                let $v = $crate::common::Val { pieces: ps, how: how.to_owned() };
                $body
            }
        }
    }};
}

// -------------------------------------------------------------- sinks ----

pub trait Sink: Write + Display + Default + Clone + fmt::Debug {
    fn make(pieces: &[String]) -> Self {
        let mut s = Self::default();
        for p in pieces {
            s.write_str(p).unwrap();
        }
        s
    }
    fn text(&self) -> String {
        self.to_string()
    }
}

impl Sink for String {}

/// Keeps every written piece apart and displays them one by one.
#[derive(Clone, Debug, Default)]
pub struct Chunks(pub Vec<String>);

impl Write for Chunks {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push(s.to_owned());
        Ok(())
    }
}

impl Display for Chunks {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.iter().try_for_each(|s| f.write_str(s))
    }
}

impl Sink for Chunks {}

/// A fixed array: no heap.
#[derive(Clone)]
pub struct Arr {
    buf: [u8; 1 << 16],
    len: usize,
}

impl Default for Arr {
    fn default() -> Self {
        Arr { buf: [0; 1 << 16], len: 0 }
    }
}

impl Write for Arr {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let end = self.len + s.len();
        self.buf.get_mut(self.len..end).ok_or(fmt::Error)?.copy_from_slice(s.as_bytes());
        self.len = end;
        Ok(())
    }
}

impl Display for Arr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(std::str::from_utf8(&self.buf[..self.len]).unwrap())
    }
}

impl fmt::Debug for Arr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(std::str::from_utf8(&self.buf[..self.len]).unwrap(), f)
    }
}

impl Sink for Arr {}

/// The limits of bounded sinks, and whether one has refused something.
#[derive(Clone, Debug, Default)]
pub struct Limits {
    pub cap: Option<usize>,
    pub keycap: Option<usize>,
    pub vcap: Option<usize>,
    /// The number of writes after which one is refused.
    pub nth: Option<usize>,
    /// Whether what still fits is taken when a write does not fit.
    pub partial: bool,
    pub refused: bool,
}

thread_local! {
    pub static LIMITS: RefCell<Limits> = RefCell::default();
}

impl Limits {
    pub fn set(v: &Value) {
        let n = |f: &str| v[f].as_u64().map(|n| n as usize);
        let l = Limits {
            cap: n("cap"),
            keycap: n("keycap"),
            vcap: n("vcap"),
            nth: n("nth"),
            partial: v["partial"].as_bool() == Some(true),
            refused: false,
        };
        LIMITS.with(|x| *x.borrow_mut() = l);
    }
}

/// A sink that refuses.
#[derive(Clone, Debug, Default)]
pub struct Bounded<const KEY: bool>(String);

impl<const KEY: bool> Write for Bounded<KEY> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        LIMITS.with(|l| {
            let mut l = l.borrow_mut();
            if !KEY {
                l.nth = match l.nth {
                    Some(0) => {
                        l.refused = true;
                        l.nth = None;
                        return Err(fmt::Error);
                    }
                    n => n.map(|n| n - 1),
                };
            }
            let cap = if KEY { l.keycap } else { l.cap };
            if cap.map_or(true, |cap| self.0.len() + s.len() <= cap) {
                self.0.push_str(s);
                return Ok(());
            }
            l.refused = true;
            if l.partial {
                let mut n = cap.unwrap().saturating_sub(self.0.len());
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                self.0.push_str(&s[..n]);
            }
            Err(fmt::Error)
        })
    }
}

impl<const KEY: bool> Display for Bounded<KEY> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

impl<const KEY: bool> Sink for Bounded<KEY> {
    fn make(pieces: &[String]) -> Self {
        Bounded(pieces.concat())
    }
}

/// The text of a value as far as the limits let it be seen.
fn shown<V: Display>(v: V) -> String {
    struct Within(String, Option<usize>);
    impl Write for Within {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            if self.1.map_or(false, |cap| self.0.len() + s.len() > cap) {
                return Err(fmt::Error);
            }
            self.0.push_str(s);
            Ok(())
        }
    }
    let mut w = Within(String::new(), LIMITS.with(|l| l.borrow().vcap));
    match write!(w, "{}", v) {
        Ok(()) => w.0,
        Err(_) => "refused!".to_owned(),
    }
}

// ------------------------------------------ recording signature methods ----

pub type Log = Rc<RefCell<Vec<Value>>>;

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_owned().into_boxed_str())
}

macro_rules! rec {
    ($($Rec:ident $RecSign:ident { $($hook:ident)* })*) => {$(
        #[derive(Clone, Debug)]
        pub struct $Rec {
            pub name: &'static str,
            pub sig: String,
            pub use_nonce: bool,
            pub use_ts: bool,
            pub log: Log,
        }
        #[derive(Clone, Debug)]
        pub struct $RecSign($Rec);

        impl SignatureMethod for $Rec {
            type Sign = $RecSign;
            fn sign_with(self, cs: &str, ts: Option<&str>) -> $RecSign {
                let ts: Vec<&str> = ts.into_iter().collect();
                self.log.borrow_mut().push(json!(["sign_with", cs, ts]));
                $RecSign(self)
            }
        }

        impl Sign for $RecSign {
            type Signature = String;
            fn get_signature_method_name(&self) -> &'static str {
                self.0.name
            }
            fn request_method(&mut self, m: &str) {
                self.0.log.borrow_mut().push(json!(["request_method", m]));
            }
            fn uri<T: Display>(&mut self, u: T) {
                self.0.log.borrow_mut().push(json!(["uri", shown(u)]));
            }
            fn parameter<V: Display>(&mut self, k: &str, v: V) {
                self.0.log.borrow_mut().push(json!(["parameter", k, shown(v)]));
            }
            fn delimiter(&mut self) {
                self.0.log.borrow_mut().push(json!(["delimiter"]));
            }
            fn end(self) -> String {
                self.0.log.borrow_mut().push(json!(["end"]));
                self.0.sig
            }
            fn use_nonce(&self) -> bool {
                self.0.use_nonce
            }
            fn use_timestamp(&self) -> bool {
                self.0.use_ts
            }
            $(rec! { @hook $hook })*
        }
    )*};
    (@hook signature_method) => {
        fn signature_method(&mut self) {
            self.0.log.borrow_mut().push(json!(["signature_method"]));
        }
    };
    (@hook version) => {
        fn version(&mut self) {
            self.0.log.borrow_mut().push(json!(["version"]));
        }
    };
    (@hook timestamp) => {
        fn timestamp(&mut self, v: u64) {
            self.0.log.borrow_mut().push(json!(["timestamp", v.to_string()]));
        }
    };
    (@hook $hook:ident) => {
        fn $hook<V: Display>(&mut self, v: V) {
            self.0.log.borrow_mut().push(json!([stringify!($hook), shown(v)]));
        }
    };
}

rec! {
    RecNone RecNoneSign {}
    RecAll RecAllSign { callback consumer_key nonce signature_method timestamp token verifier version }
    RecA RecASign { callback nonce timestamp verifier }
    RecB RecBSign { consumer_key signature_method token version }
}

macro_rules! make_rec {
    ($Rec:ident, $sm:expr, $log:expr) => {
        $crate::common::$Rec {
            name: leak(text(&$sm["name"])),
            sig: text(&$sm["sig"]).to_owned(),
            use_nonce: $sm["use_nonce"].as_bool().unwrap_or(true),
            use_ts: $sm["use_ts"].as_bool().unwrap_or(true),
            log: $log.clone(),
        }
    };
}

/// What to do with a signature method once its type is known.
pub trait SmVisit {
    type Out;
    fn visit<SM: SignatureMethod + Clone>(self, sm: SM) -> Self::Out;
}

/// Visits the recording method that `sm` describes.
pub fn with_rec<V: SmVisit>(sm: &Value, log: &Log, v: V) -> V::Out {
    match text(&sm["hookset"]) {
        "all" => v.visit(make_rec!(RecAll, sm, log)),
        "a" => v.visit(make_rec!(RecA, sm, log)),
        "b" => v.visit(make_rec!(RecB, sm, log)),
        _ => v.visit(make_rec!(RecNone, sm, log)),
    }
}

pub fn rec_none(sm: &Value, log: &Log) -> RecNone {
    make_rec!(RecNone, sm, log)
}

// -------------------------------------------------------------- driver ----

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned()))
            .unwrap_or_else(|| "?".to_owned())
    })
}

pub fn set_options<'a>(o: &mut Options<'a>, cfg: &'a Value) {
    // Exercise setting over an earlier value and unsetting.
    if cfg["churn"].as_bool() == Some(true) {
        o.callback("x").verifier("y").nonce("z").timestamp(NonZeroU64::new(7)).version(true);
        o.callback(None).verifier(None).nonce(None).timestamp(None).version(false);
    }
    if let Some(c) = opt(&cfg["callback"]) {
        o.callback(c);
    }
    if let Some(v) = opt(&cfg["verifier"]) {
        o.verifier(Some(v));
    }
    if let Some(n) = opt(&cfg["nonce"]) {
        o.nonce(n);
    }
    if let Some(t) = opt(&cfg["timestamp"]) {
        o.timestamp(t.parse::<NonZeroU64>().unwrap());
    }
    if cfg["version"].as_bool() == Some(true) {
        o.version(true);
    }
}

pub fn client(cfg: &Value) -> Credentials<&str> {
    Credentials::new(text(&cfg["cid"]), text(&cfg["csec"]))
}

pub fn token(cfg: &Value) -> Option<Credentials<&str>> {
    cfg["token"].as_array().map(|t| Credentials::new(text(&t[0]), text(&t[1])))
}

pub fn step<S: Serializer>(ser: &mut S, e: &Value) {
    match text(&e["op"]) {
        "param" => {
            if e["enc"].as_bool() == Some(true) {
                with_value!(e, v => ser.serialize_parameter_encoded(text(&e["k"]), v))
            } else {
                with_value!(e, v => ser.serialize_parameter(text(&e["k"]), v))
            }
        }
        "proto" => match e["slot"].as_u64().unwrap() {
            1 => ser.serialize_oauth_callback(),
            2 => ser.serialize_oauth_consumer_key(),
            3 => ser.serialize_oauth_nonce(),
            4 => ser.serialize_oauth_signature_method(),
            5 => ser.serialize_oauth_timestamp(),
            6 => ser.serialize_oauth_token(),
            7 => ser.serialize_oauth_verifier(),
            8 => ser.serialize_oauth_version(),
            _ => unreachable!(),
        },
        "all" => ser.serialize_oauth_parameters(),
        "end" => {}
        op => panic!("unknown step {}", op),
    }
}

/// Opens a serializer, feeds it, and ends it; reports the output or where it
/// panicked (0: at opening, i: at the i-th event).
pub fn drive<S: Serializer>(open: impl FnOnce() -> S, evs: &[Value]) -> Value
where
    S::Output: Sink,
{
    let mut ser = match catch(open) {
        Ok(s) => s,
        Err(m) => return json!({"panic": 0, "msg": m}),
    };
    for (i, e) in evs.iter().enumerate() {
        if text(&e["op"]) == "end" {
            continue;
        }
        if let Err(m) = catch(|| step(&mut ser, e)) {
            std::mem::forget(ser);
            return json!({"panic": i + 1, "msg": m});
        }
    }
    let mut out = None;
    match catch(|| out = Some(ser.end())) {
        Ok(()) => json!({"out": out.unwrap().text()}),
        Err(m) => json!({"panic": evs.len(), "msg": m}),
    }
}

pub fn uri(cfg: &Value) -> Val {
    Val {
        pieces: match &cfg["uri_pieces"] {
            Value::Null => vec![text(&cfg["uri"]).to_owned()],
            x => pieces(x),
        },
        how: text(&cfg["uri_how"]).to_owned(),
    }
}

/// Runs one case of the session family on the low-level serializers.
pub fn session<W: Sink, SM: SignatureMethod>(case: &Value, sm: SM) -> Value {
    let cfg = &case["cfg"];
    let evs = case["ev"].as_array().unwrap();
    let mut options = Options::new();
    set_options(&mut options, cfg);
    let method = text(&cfg["method"]);
    let buf = pieces(&cfg["buf"]);
    let u = uri(cfg);
    match text(&cfg["mode"]) {
        "header" => drive(
            || {
                Authorizer::<SM, W>::authorization_with_buf(
                    W::make(&buf), method, &u, client(cfg), token(cfg), &options, sm)
            },
            evs,
        ),
        "form" => drive(
            || {
                Authorizer::<SM, W>::form_with_buf(
                    W::make(&buf), method, &u, client(cfg), token(cfg), &options, sm)
            },
            evs,
        ),
        "query" => drive(
            || {
                Authorizer::<SM, W>::query(
                    method, W::make(&u.pieces), client(cfg), token(cfg), &options, sm)
            },
            evs,
        ),
        "pform" => drive(|| Urlencoder::form_with_buf(W::make(&buf)), evs),
        "pquery" => drive(|| Urlencoder::query(W::make(&u.pieces)), evs),
        m => panic!("unknown mode {}", m),
    }
}

/// Reads cases from stdin, one per line; writes one observation per line.
pub fn serve(mut run: impl FnMut(&Value) -> Value) {
    use std::io::{BufRead, Write as _};
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let mut obs = run(&case);
        obs["id"] = case["id"].clone();
        let mut out = out.lock();
        writeln!(out, "{}", obs).unwrap();
        out.flush().unwrap();
    }
}
