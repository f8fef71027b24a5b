//! Every kind of signature method by its description.

use either::Either;
use oauth::signature_method::{rsa_sha1_06, rsa_sha1_09, HmacSha1, Plaintext, SignatureMethod};
use serde_json::Value;

use crate::common::*;

pub struct Keys {
    pub k06: Vec<rsa_sha1_06::RsaPrivateKey>,
    pub k09: Vec<rsa_sha1_09::RsaPrivateKey>,
}

thread_local! {
    pub static KEYS: &'static Keys = Box::leak(Box::new(load()));
}

fn load() -> Keys {
    let v: Value = serde_json::from_str(include_str!("../keys.json")).unwrap();
    let mut keys = Keys { k06: vec![], k09: vec![] };
    for k in v.as_array().unwrap() {
        let h = |f: &str| rsa06::BigUint::parse_bytes(text(&k[f]).as_bytes(), 16).unwrap();
        let e = rsa06::BigUint::from(k["e"].as_u64().unwrap());
        keys.k06.push(rsa06::RsaPrivateKey::from_components(h("n"), e, h("d"), vec![h("p"), h("q")]));
        let h = |f: &str| rsa09::BigUint::parse_bytes(text(&k[f]).as_bytes(), 16).unwrap();
        let e = rsa09::BigUint::from(k["e"].as_u64().unwrap());
        keys.k09.push(
            rsa09::RsaPrivateKey::from_components(h("n"), e, h("d"), vec![h("p"), h("q")]).unwrap(),
        );
    }
    keys
}

fn either<V: SmVisit, SM: SignatureMethod + Clone>(how: &str, sm: SM, log: &Log, v: V) -> V::Out {
    match how {
        "left" => v.visit(Either::<SM, HmacSha1>::Left(sm)),
        "right" => v.visit(Either::<RecNone, SM>::Right(sm)),
        "nested" => v.visit(Either::<Either<RecAll, SM>, RecNone>::Left(Either::Right(sm))),
        _ => {
            let _ = log;
            v.visit(sm)
        }
    }
}

/// Every method, each also behind `Either`.
pub fn with_sm<V: SmVisit>(sm: &Value, log: &Log, v: V) -> V::Out {
    struct E<'a, V>(&'a str, &'a Log, V);
    impl<'a, V: SmVisit> SmVisit for E<'a, V> {
        type Out = V::Out;
        fn visit<SM: SignatureMethod + Clone>(self, sm: SM) -> V::Out {
            either(self.0, sm, self.1, self.2)
        }
    }
    let how = text(&sm["either"]);
    let keys = KEYS.with(|k| *k);
    let i = sm["key"].as_u64().unwrap_or(0) as usize;
    match (text(&sm["kind"]), text(&sm["own"])) {
        ("record", _) => with_rec(sm, log, E(how, log, v)),
        ("plaintext", "chunks") => either(how, Plaintext::<Chunks>::with_buf(), log, v),
        ("plaintext", "bounded") => v.visit(Plaintext::<Bounded<true>>::with_buf()),
        ("plaintext", "arr") => v.visit(Plaintext::<Arr>::default()),
        ("plaintext", "new") => either(how, Plaintext::new(), log, v),
        ("plaintext", _) => either(how, oauth::PLAINTEXT, log, v),
        ("hmac", "new") => either(how, HmacSha1::new(), log, v),
        ("hmac", "default") => either(how, HmacSha1::default(), log, v),
        ("hmac", _) => either(how, oauth::HMAC_SHA1, log, v),
        ("rsa", "06val") => either(how, rsa_sha1_06::RsaSha1::new(keys.k06[i].clone()), log, v),
        ("rsa", "06from") => v.visit(rsa_sha1_06::RsaSha1::from(keys.k06[i].clone())),
        ("rsa", "06ref") => {
            let m: &rsa_sha1_06::RsaSha1 = keys.k06[i].as_ref();
            either(how, m, log, v)
        }
        ("rsa", "09val") => either(how, rsa_sha1_09::RsaSha1::new(keys.k09[i].clone()), log, v),
        ("rsa", "09from") => v.visit(rsa_sha1_09::RsaSha1::from(keys.k09[i].clone())),
        ("rsa", "09ref") => {
            let m: &rsa_sha1_09::RsaSha1 = keys.k09[i].as_ref();
            either(how, m, log, v)
        }
        k => panic!("unknown method {:?}", k),
    }
}
