//! Requests by their description, and a serializer that only observes.

use std::collections::BTreeMap;

use oauth::request::{AssertSorted, ParameterList};
use oauth::serializer::Serializer;
use oauth::Request;
use serde_json::Value;

use crate::common::*;
pub use crate::probe::Probe;

pub trait ReqVisit {
    type Out;
    fn visit<R: Request + ?Sized>(self, r: &R) -> Self::Out;
}

fn val(p: &Value) -> Val {
    Val {
        pieces: match &p["pieces"] {
            Value::Null => vec![text(&p["v"]).to_owned()],
            x => pieces(x),
        },
        how: text(&p["ty"]).to_owned(),
    }
}

pub fn pairs(r: &Value) -> Vec<(String, Val)> {
    r["params"].as_array().map_or(vec![], |a| {
        a.iter().map(|p| (text(&p["k"]).to_owned(), val(p))).collect()
    })
}

/// One type that is any of the basic requests.
pub enum AnyReq {
    Unit,
    Empty,
    Vec(Vec<(String, Val)>),
    Map(BTreeMap<String, Val>),
    List(ParameterList<String, Val>),
    Boxed(ParameterList<String, Val, Box<[(String, Val)]>>),
    Opt(Option<ParameterList<String, Val>>),
}

pub fn any_req(r: &Value) -> AnyReq {
    match text(&r["kind"]) {
        "unit" => AnyReq::Unit,
        "empty" => AnyReq::Empty,
        "vec" => AnyReq::Vec(pairs(r)),
        "map" => AnyReq::Map(pairs(r).into_iter().collect()),
        "plist" => AnyReq::List(ParameterList::new(pairs(r))),
        "plistbox" => AnyReq::Boxed(ParameterList::from(pairs(r).into_boxed_slice())),
        "optlist" => AnyReq::Opt(Some(ParameterList::new(pairs(r)))),
        "optnone" => AnyReq::Opt(None),
        k => panic!("unknown request {}", k),
    }
}

impl Request for AnyReq {
    fn serialize<S: Serializer>(&self, s: S) -> S::Output {
        match self {
            AnyReq::Unit => ().serialize(s),
            AnyReq::Empty => AssertSorted::new(std::iter::empty::<(&str, &str)>()).serialize(s),
            AnyReq::Vec(v) => AssertSorted::new(v.iter().map(|(k, v)| (k, v))).serialize(s),
            AnyReq::Map(m) => AssertSorted::new(m).serialize(s),
            AnyReq::List(l) => l.serialize(s),
            AnyReq::Boxed(l) => l.serialize(s),
            AnyReq::Opt(o) => o.serialize(s),
        }
    }
}

macro_rules! wrap {
    ($($f:ident $next:ident;)*) => {$(
        fn $f<R: Request, V: ReqVisit>(mut r: R, w: &[Value], v: V) -> V::Out {
            match w.split_first() {
                None => v.visit(&r),
                Some((x, rest)) => match text(x) {
                    "ref" => $next(&r, rest, v),
                    "mut" => $next(&mut r, rest, v),
                    "some" => $next(Some(r), rest, v),
                    "none" => $next(None::<R>, rest, v),
                    x => panic!("unknown wrapper {}", x),
                },
            }
        }
    )*};
}

fn w_end<R: Request, V: ReqVisit>(r: R, w: &[Value], v: V) -> V::Out {
    assert!(w.is_empty());
    v.visit(&r)
}

wrap! { w0 w1; w1 w2; w2 w_end; }

/// Visits the request in its own type, wrapped as described.
pub fn with_request<V: ReqVisit>(r: &Value, v: V) -> V::Out {
    let empty = vec![];
    let w = r["wrap"].as_array().unwrap_or(&empty);
    match text(&r["kind"]) {
        "unit" => w0((), w, v),
        "vecown" => w0(AssertSorted::new(pairs(r)), w, v),
        "slice" => {
            let ps = pairs(r);
            let l = ParameterList::from_sorted(&ps[..]).expect("sorted");
            w0(l, w, v)
        }
        _ => w0(any_req(r), w, v),
    }
}
