//! Histories of parameter lists.

use std::borrow::Borrow;
use std::fmt::Display;
use std::rc::Rc;

use oauth::request::ParameterList;
use oauth::Request;
use serde_json::{json, Value};

use crate::common::*;
use crate::probe::Probe;
use crate::requests::pairs;

type Own = (String, Val);

fn shown<'a, K: AsRef<str> + 'a, V: Display + 'a>(it: impl Iterator<Item = &'a (K, V)>) -> Value {
    it.map(|(k, v)| json!([k.as_ref(), v.to_string()])).collect()
}

/// The list through each of its views.
fn views<K, V, A, P>(l: &ParameterList<K, V, A, P>) -> Vec<Value>
where
    K: AsRef<str>,
    V: Display,
    A: AsRef<[P]>,
    P: Borrow<(K, V)>,
{
    let fed = |calls: Vec<Value>| -> Value {
        calls.iter().filter(|c| c[0] == "parameter").map(|c| json!([c[1], c[2]])).collect()
    };
    vec![
        shown(l.as_ref().iter().map(|p| p.borrow())),
        shown(l.iter()),
        fed(l.serialize(Probe::default())),
        fed(Some(&l).serialize(Probe::default())),
    ]
}

/// An iterator that tells of its length what it is given to tell.
struct Hinting<I>(I, fn((usize, Option<usize>)) -> (usize, Option<usize>));
impl<I: Iterator> Iterator for Hinting<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1)(self.0.size_hint())
    }
}

/// Hands the arguments over as an iterator of some kind.
fn hand<P>(how: &str, args: Vec<P>, mut to: impl FnMut(Box<dyn Iterator<Item = P> + '_>)) {
    let it = args.into_iter();
    match how {
        // (All of these are truthful: lower bounds too low, upper bounds unknown or too high.)
        "nothing" => to(Box::new(Hinting(it, |_| (0, None)))),
        "upper" => to(Box::new(Hinting(it, |(_, n)| (0, n)))),
        "lower" => to(Box::new(Hinting(it, |(n, _)| (n, None)))),
        "loose" => to(Box::new(Hinting(it, |(n, m)| (n / 2, m.map(|m| m + 3))))),
        "filter" => to(Box::new(it.filter(|_| true))),
        "chain" => to(Box::new(std::iter::empty().chain(it).chain(std::iter::empty()))),
        "each" => {
            let mut it = it;
            let mut some = false;
            if let Some(first) = it.next() {
                some = true;
                // The first together with the rest of them.
                to(Box::new(std::iter::once(first).chain(it)));
            }
            if !some {
                to(Box::new(std::iter::empty()));
            }
        }
        _ => to(Box::new(it)),
    }
}

fn history<P: Borrow<Own>>(evs: &[Value], mk: &dyn Fn(Own) -> P) -> Vec<Value> {
    let mut list: Option<ParameterList<String, Val, Vec<P>, P>> = None;
    let mut out = vec![];
    for e in evs {
        let args: Vec<P> = pairs(e).into_iter().map(mk).collect();
        let op = text(&e["op"]);
        let r = catch(|| {
            let old = list.take().unwrap_or_default();
            list = match op {
                "new" => Some(ParameterList::new(args)),
                "from" => Some(args.into()),
                "collect" => {
                    let mut new = None;
                    hand(text(&e["how"]), args, |it| new = Some(it.collect()));
                    new
                }
                "default" => Some(Default::default()),
                "from_sorted" => ParameterList::from_sorted(args),
                "extend" => {
                    let mut old = old;
                    hand(text(&e["how"]), args, |it| old.extend(it));
                    Some(old)
                }
                "renew" | "resorted" => {
                    let mut v = old.into_inner();
                    v.extend(args);
                    if op == "renew" {
                        Some(ParameterList::new(v))
                    } else {
                        ParameterList::from_sorted(v)
                    }
                }
                "look" => Some(old),
                _ => panic!("unknown operation"),
            };
            list.as_ref().map(views)
        });
        out.push(match r {
            Ok(Some(v)) => json!({"views": v}),
            Ok(None) => json!({"none": true}),
            Err(m) => return vec![json!({"panic": m})],
        });
    }
    if let (Some(l), Some(last)) = (list, out.last_mut()) {
        let v = shown(l.into_inner().iter().map(|p| p.borrow()));
        last["views"].as_array_mut().unwrap().push(v);
    }
    out
}

/// Each event by itself, in another kind of container.
fn single<K: AsRef<str>, V: Display, A: AsRef<[(K, V)]> + AsMut<[(K, V)]>>(op: &str, list: A) -> Value {
    let l: Option<ParameterList<K, V, A>> = match op {
        "new" => Some(ParameterList::new(list)),
        "from" => Some(list.into()),
        "from_sorted" => ParameterList::from_sorted(list),
        _ => panic!("unknown operation"),
    };
    match l {
        Some(l) => {
            let mut v = views(&l);
            v.push(shown(l.into_inner().as_ref().iter()));
            json!({"views": v})
        }
        None => json!({"none": true}),
    }
}

fn arrays(op: &str, args: Vec<Own>) -> Value {
    macro_rules! sizes {
        ($($n:literal)*) => {
            match args.len() {
                $($n => single::<_, _, [Own; $n]>(op, args.try_into().unwrap()),)*
                _ => single(op, args.into_boxed_slice()),
            }
        };
    }
    sizes!(0 1 2 3 4 5)
}

pub fn run(case: &Value) -> Value {
    let evs = case["ev"].as_array().unwrap();
    let mut keep: Vec<Vec<Own>> = vec![];
    let out = match text(&case["kind"]) {
        "own" => history(evs, &|p| p),
        "box" => history(evs, &Box::new),
        "rc" => history(evs, &Rc::new),
        "ref" => history(evs, &|p| -> &'static Own { Box::leak(Box::new(p)) }),
        kind => evs
            .iter()
            .map(|e| {
                let mut args = pairs(e);
                let op = text(&e["op"]);
                catch(|| match kind {
                    "array" => arrays(op, args),
                    "boxslice" => single(op, args.into_boxed_slice()),
                    "slicemut" => single(op, &mut args[..]),
                    "dyn" => {
                        keep.push(args);
                        let l: Vec<(&str, &dyn Display)> =
                            keep.last().unwrap().iter().map(|(k, v)| (&**k, v as &dyn Display)).collect();
                        single(op, l)
                    }
                    k => panic!("unknown kind {}", k),
                })
                .unwrap_or_else(|m| json!({ "panic": m }))
            })
            .collect(),
    };
    if let Some(p) = out.iter().find(|o| !o["panic"].is_null()) {
        return json!({"panic": 1, "msg": p["panic"]});
    }
    json!({ "res": out })
}
