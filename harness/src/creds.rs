//! Credentials: serialization, deserialization, conversions.

use std::borrow::Cow;
use std::fmt;
use std::rc::Rc;

use oauth::{Credentials, Token};
use serde::de::value::{BorrowedBytesDeserializer, BorrowedStrDeserializer, BytesDeserializer, MapDeserializer};
use serde::de::{DeserializeOwned, IntoDeserializer};
use serde::ser::{self, Impossible, Serialize};
use serde::Deserialize;
use serde_json::{json, Value};

use crate::common::{catch, text};

type DeErr = serde::de::value::Error;

// ------------------------------------------------------ deserialization ----

fn got<T: AsRef<str>, E: fmt::Display>(r: Result<Credentials<T>, E>) -> Value {
    match r {
        Ok(c) => json!({"got": [c.identifier(), c.secret()]}),
        Err(e) => json!({"err": e.to_string()}),
    }
}

macro_rules! into_de {
    ($($Name:ident $De:ident;)*) => {$(
        struct $Name<'a>(&'a str);
        impl<'a> IntoDeserializer<'a, DeErr> for $Name<'a> {
            type Deserializer = $De<'a, DeErr>;
            fn into_deserializer(self) -> Self::Deserializer {
                $De::new(self.0.as_ref())
            }
        }
    )*};
}

into_de! {
    BorrowedS BorrowedStrDeserializer;
    Bytes BytesDeserializer;
    BorrowedB BorrowedBytesDeserializer;
}

#[derive(serde::Deserialize, serde::Serialize)]
struct Flat<T> {
    #[serde(flatten)]
    credentials: Credentials<T>,
    #[serde(default)]
    extra: Option<Value>,
}

fn json_text(fields: &[Value], how: &str) -> String {
    let esc = |s: &str| match how {
        // Everything escaped.
        "escaped" => format!("\"{}\"", s.encode_utf16().map(|u| format!("\\u{:04x}", u)).collect::<String>()),
        _ => serde_json::to_string(s).unwrap(),
    };
    let (sep, colon) = if how == "spaced" { (" ,\n ", " : ") } else { (",", ":") };
    let fs: Vec<String> = fields
        .iter()
        .map(|f| {
            let v = match &f["v"] {
                Value::String(s) => esc(s),
                _ => f["x"].to_string(),
            };
            format!("{}{}{}", esc(text(&f["k"])), colon, v)
        })
        .collect();
    format!("{{{}}}", fs.join(sep))
}

fn de<'a, T>(case: &'a Value, keep: &'a mut String) -> Value
where
    T: Deserialize<'a> + AsRef<str>,
{
    let fields = case["fields"].as_array().unwrap();
    let pairs = || fields.iter().map(|f| (text(&f["k"]), text(&f["v"])));
    match text(&case["format"]) {
        "json" => {
            *keep = json_text(fields, text(&case["how"]));
            got(serde_json::from_str::<Credentials<T>>(keep))
        }
        "slice" => {
            *keep = json_text(fields, text(&case["how"]));
            got(serde_json::from_slice::<Credentials<T>>(keep.as_bytes()))
        }
        "vec" => {
            *keep = format!("[{}]", json_text(fields, text(&case["how"])));
            got(serde_json::from_str::<(Credentials<T>,)>(keep).map(|c| c.0))
        }
        "form" => {
            *keep = serde_urlencoded::to_string(pairs().collect::<Vec<_>>()).unwrap();
            got(serde_urlencoded::from_str::<Credentials<T>>(keep))
        }
        "formbytes" => {
            *keep = serde_urlencoded::to_string(pairs().collect::<Vec<_>>()).unwrap();
            got(serde_urlencoded::from_bytes::<Credentials<T>>(keep.as_bytes()))
        }
        "map" => got(Credentials::<T>::deserialize(MapDeserializer::<_, DeErr>::new(pairs().map(|(k, v)| (k, BorrowedS(v)))))),
        "borrowed" => got(Credentials::<T>::deserialize(MapDeserializer::<_, DeErr>::new(
            pairs().map(|(k, v)| (BorrowedS(k), BorrowedS(v))),
        ))),
        "owned" => got(Credentials::<T>::deserialize(MapDeserializer::<_, DeErr>::new(
            pairs().map(|(k, v)| (k.to_owned(), BorrowedS(v))),
        ))),
        "bytes" => got(Credentials::<T>::deserialize(MapDeserializer::<_, DeErr>::new(
            pairs().map(|(k, v)| (Bytes(k), BorrowedS(v))),
        ))),
        "borrowedbytes" => got(Credentials::<T>::deserialize(MapDeserializer::<_, DeErr>::new(
            pairs().map(|(k, v)| (BorrowedB(k), BorrowedS(v))),
        ))),
        f => panic!("unknown format {}", f),
    }
}

fn de_owned<T: DeserializeOwned + AsRef<str>>(case: &Value) -> Value {
    let fields = case["fields"].as_array().unwrap();
    let j = json_text(fields, text(&case["how"]));
    match text(&case["format"]) {
        "reader" => got(serde_json::from_reader::<_, Credentials<T>>(j.as_bytes())),
        "value" => got(serde_json::from_value::<Credentials<T>>(serde_json::from_str(&j).unwrap())),
        "refvalue" => got(Credentials::<T>::deserialize(&serde_json::from_str::<Value>(&j).unwrap())),
        "flat" => got(serde_json::from_str::<Flat<T>>(&j).map(|f| f.credentials)),
        "flatform" => {
            let f = serde_urlencoded::to_string(fields.iter().map(|f| (text(&f["k"]), text(&f["v"]))).collect::<Vec<_>>()).unwrap();
            got(serde_urlencoded::from_str::<Flat<T>>(&f).map(|f| f.credentials))
        }
        _ => de::<T>(case, &mut String::new().clone()),
    }
}

fn deserialize(case: &Value) -> Value {
    match text(&case["repr"]) {
        "ref" => de::<&str>(case, &mut String::new()),
        "cow" => de::<Cow<str>>(case, &mut String::new()),
        "box" => de_owned::<Box<str>>(case),
        _ => de_owned::<String>(case),
    }
}

// -------------------------------------------------------- serialization ----

/// Takes down the fields of a struct, in order, and their announced number.
struct Fields;
struct Taking(usize, Vec<Value>);

#[derive(Debug)]
struct No;
impl fmt::Display for No {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("no")
    }
}
impl std::error::Error for No {}
impl ser::Error for No {
    fn custom<T: fmt::Display>(_: T) -> Self {
        No
    }
}

impl ser::SerializeStruct for Taking {
    type Ok = Value;
    type Error = No;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), No> {
        self.1.push(json!([k, serde_json::to_value(v).map_err(|_| No)?]));
        Ok(())
    }
    fn end(self) -> Result<Value, No> {
        Ok(json!({"len": self.0, "fields": self.1}))
    }
}

macro_rules! refuse {
    ($($f:ident($($t:ty),*) $(<$T:ident>)?;)*) => {$(
        fn $f $(<$T: Serialize + ?Sized>)? (self, $(_: $t),*) -> Result<Value, No> { Err(No) }
    )*};
}

impl ser::Serializer for Fields {
    type Ok = Value;
    type Error = No;
    type SerializeSeq = Impossible<Value, No>;
    type SerializeTuple = Impossible<Value, No>;
    type SerializeTupleStruct = Impossible<Value, No>;
    type SerializeTupleVariant = Impossible<Value, No>;
    type SerializeMap = Impossible<Value, No>;
    type SerializeStruct = Taking;
    type SerializeStructVariant = Impossible<Value, No>;
    refuse! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
        serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
        serialize_some(&T) <T>; serialize_newtype_struct(&'static str, &T) <T>;
        serialize_newtype_variant(&'static str, u32, &'static str, &T) <T>;
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Taking, No> {
        Ok(Taking(n, vec![]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, No> {
        Err(No)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, No> {
        Err(No)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, No> {
        Err(No)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, No> {
        Err(No)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, No> {
        Err(No)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, No> {
        Err(No)
    }
}

fn ser<T: Serialize + Clone + AsRef<str>>(id: T, secret: T) -> Value {
    let c = Credentials { identifier: id, secret };
    let j = serde_json::to_string(&c).unwrap();
    let f = serde_urlencoded::to_string(&c).unwrap();
    let v = serde_json::to_value(&c).unwrap();
    let flat = Flat { credentials: c.clone(), extra: None };
    let flatj = serde_json::to_string(&flat).unwrap();
    let pretty = serde_json::to_string_pretty(&[&c]).unwrap();
    let back = vec![
        got(serde_json::from_str::<Credentials>(&j)),
        got(serde_json::from_slice::<Credentials<Cow<str>>>(j.as_bytes())),
        got(serde_urlencoded::from_str::<Credentials<Box<str>>>(&f)),
        got(serde_json::from_value::<Credentials>(v.clone())),
        got(serde_json::from_str::<Flat<String>>(&flatj).map(|f| f.credentials)),
        got(serde_json::from_str::<[Credentials; 1]>(&pretty).map(|[c]| c)),
    ];
    json!({"json": j, "form": f, "flat": flatj, "struct": c.serialize(Fields).unwrap(), "back": back})
}

fn serialize(case: &Value) -> Value {
    let (id, secret) = (text(&case["cred"][0]), text(&case["cred"][1]));
    match text(&case["repr"]) {
        "ref" => ser(id, secret),
        "cow" => ser(Cow::Borrowed(id), Cow::Owned(secret.to_owned())),
        "box" => ser::<Box<str>>(id.into(), secret.into()),
        _ => ser(id.to_owned(), secret.to_owned()),
    }
}

// ---------------------------------------------------------- conversions ----

trait Str: AsRef<str> + From<String> + Clone {}
impl<T: AsRef<str> + From<String> + Clone> Str for T {}

fn cred<T: Str>(a: &str, b: &str) -> Credentials<T> {
    Credentials { identifier: T::from(a.to_owned()), secret: T::from(b.to_owned()) }
}

fn own<T: Str, U: AsRef<str>>(c: Credentials<U>) -> Credentials<T> {
    cred(c.identifier.as_ref(), c.secret.as_ref())
}

fn own_token<C: Str, T: Str, U: AsRef<str>, V: AsRef<str>>(t: Token<U, V>) -> Token<C, T> {
    Token { client: own(t.client), token: own(t.token) }
}

fn comps<T: AsRef<str>>(c: &Credentials<T>) -> Value {
    json!([c.identifier.as_ref(), c.secret.as_ref()])
}

fn tcomps<C: AsRef<str>, T: AsRef<str>>(t: &Token<C, T>) -> Value {
    json!([t.client.identifier.as_ref(), t.client.secret.as_ref(), t.token.identifier.as_ref(), t.token.secret.as_ref()])
}

fn views<T: Str>(c: &Credentials<T>) -> Value {
    let r: Credentials<&str> = c.into();
    json!([comps(c), [c.identifier(), c.secret()], comps(&c.as_ref()), comps(&r), comps(&c.clone()), comps(&c.as_ref().as_ref())])
}

fn tviews<C: Str, T: Str>(t: &Token<C, T>) -> Value {
    let r: Token<&str> = t.into();
    let m = (t.client(), t.token());
    json!([tcomps(t), [m.0.identifier, m.0.secret, m.1.identifier, m.1.secret], tcomps(&t.as_ref()), tcomps(&r), tcomps(&t.clone()),
           [t.client.identifier(), t.client.secret(), t.token.identifier(), t.token.secret()]])
}

fn conversions<C: Str, T: Str, S: Str>(evs: &[Value]) -> Value {
    let mut cs: [Option<Credentials<S>>; 2] = [None, None];
    let mut ts: [Option<Token<C, T>>; 2] = [None, None];
    let mut out = vec![];
    for e in evs {
        let at = |k: &str| (text(&e[k]).as_bytes()[1] - b'1') as usize;
        let is_cred = |k: &str| text(&e[k]).starts_with('c');
        let how = text(&e["how"]);
        let tag = text(&e["tag"]);
        let mut args: Vec<String> = vec![];
        let mut f = |x: &str| -> Box<str> {
            args.push(x.to_owned());
            format!("{}{}", x, tag).into()
        };
        match text(&e["op"]) {
            "new" => {
                let (a, b) = (text(&e["id"]), text(&e["sec"]));
                cs[at("to")] = Some(match how {
                    "lit" => cred(a, b),
                    "ref" => own(Credentials::new(a, b)),
                    _ => Credentials::new(a.to_owned().into(), b.to_owned().into()),
                });
            }
            "parts" => {
                let [a, b, c, d] = ["cid", "csec", "tid", "tsec"].map(|k| text(&e[k]).to_owned());
                ts[at("to")] = Some(match how {
                    "lit" => Token { client: cred(&a, &b), token: cred(&c, &d) },
                    "ref" => own_token(Token::from_parts(&*a, &*b, &*c, &*d)),
                    _ => Token::from_parts(a.into(), b.into(), c.into(), d.into()),
                });
            }
            "join" => {
                let (c, t) = (cs[at("c")].clone().unwrap(), cs[at("t")].clone().unwrap());
                ts[at("to")] = Some(match how {
                    "from_ref" => own_token(Token::from_ref(&c, &t)),
                    "lit" => Token { client: own(c), token: own(t) },
                    _ => Token::new(own(c), own(t)),
                });
            }
            "copy" if is_cred("from") => {
                let c = cs[at("from")].as_ref().unwrap();
                cs[at("to")] = Some(match how {
                    "as_ref" => own(c.as_ref()),
                    "from" => own(Credentials::<&str>::from(c)),
                    "copy" => {
                        let r = c.as_ref();
                        let q = r;
                        assert_eq!(comps(&r), comps(&q));
                        own(q)
                    }
                    "new" => Credentials::new(c.identifier.clone(), c.secret.clone()),
                    "methods" => cred(c.identifier(), c.secret()),
                    _ => c.clone(),
                });
            }
            "copy" => {
                let t = ts[at("from")].as_ref().unwrap();
                ts[at("to")] = Some(match how {
                    "as_ref" => own_token(t.as_ref()),
                    "from" => own_token(Token::<&str>::from(t)),
                    "copy" => {
                        let r = t.as_ref();
                        let q = r;
                        assert_eq!(tcomps(&r), tcomps(&q));
                        own_token(q)
                    }
                    "new" => Token::new(t.client.clone(), t.token.clone()),
                    "methods" => own_token(Token::new(t.client(), t.token())),
                    "from_ref" => own_token(Token::from_ref(&t.client, &t.token)),
                    _ => t.clone(),
                });
            }
            "client" => {
                let t = ts[at("from")].as_ref().unwrap();
                cs[at("to")] = Some(if how == "field" { own(t.client.clone()) } else { own(t.client()) });
            }
            "token" => {
                let t = ts[at("from")].as_ref().unwrap();
                cs[at("to")] = Some(if how == "field" { own(t.token.clone()) } else { own(t.token()) });
            }
            "map" if is_cred("from") => {
                let c = cs[at("from")].clone().unwrap();
                cs[at("to")] = Some(match how {
                    "ref" => own(c.as_ref().map(f)),
                    _ => own(c.map(|x| f(x.as_ref()))),
                });
            }
            "map" => {
                let t = ts[at("from")].clone().unwrap();
                ts[at("to")] = Some(match how {
                    "ref" => own_token(t.as_ref().map(f)),
                    _ => own_token(own_token::<String, String, _, _>(t).map(|x: String| f(&x))),
                });
            }
            "map_client" => {
                let t = ts[at("from")].clone().unwrap();
                ts[at("to")] = Some(match how {
                    "ref" => own_token(t.as_ref().map_client(f)),
                    _ => own_token(t.map_client(|x| f(x.as_ref()))),
                });
            }
            "map_token" => {
                let t = ts[at("from")].clone().unwrap();
                ts[at("to")] = Some(match how {
                    "ref" => own_token(t.as_ref().map_token(f)),
                    _ => own_token(t.map_token(|x| f(x.as_ref()))),
                });
            }
            x => panic!("unknown operation {}", x),
        }
        let v = if is_cred("to") { views(cs[at("to")].as_ref().unwrap()) } else { tviews(ts[at("to")].as_ref().unwrap()) };
        out.push(json!({"views": v, "args": args}));
    }
    json!({ "res": out })
}

pub fn run(case: &Value) -> Value {
    let go = || {
        if !case["fields"].is_null() {
            deserialize(case)
        } else if !case["cred"].is_null() {
            serialize(case)
        } else {
            let evs = case["ev"].as_array().unwrap();
            match text(&case["repr"]) {
                "box" => conversions::<Box<str>, Box<str>, Rc<str>>(evs),
                "mixed" => conversions::<String, Rc<str>, Box<str>>(evs),
                "cow" => conversions::<Cow<'static, str>, String, Cow<'static, str>>(evs),
                _ => conversions::<String, String, String>(evs),
            }
        }
    };
    catch(go).unwrap_or_else(|m| json!({"panic": 1, "msg": m}))
}
