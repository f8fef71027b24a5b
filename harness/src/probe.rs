//! A serializer that only records the calls made to it.

use std::fmt::Display;

use oauth::serializer::Serializer;
use serde_json::{json, Value};

/// Records the calls made to it.
#[derive(Default)]
pub struct Probe(pub Vec<Value>);

macro_rules! probe {
    ($($f:ident $name:literal;)*) => {$(
        fn $f(&mut self) {
            self.0.push(json!([$name]));
        }
    )*};
}

impl Serializer for Probe {
    type Output = Vec<Value>;
    fn serialize_parameter<V: Display>(&mut self, k: &str, v: V) {
        self.0.push(json!(["parameter", k, v.to_string()]));
    }
    fn serialize_parameter_encoded<V: Display>(&mut self, k: &str, v: V) {
        self.0.push(json!(["parameter_encoded", k, v.to_string()]));
    }
    probe! {
        serialize_oauth_callback "callback";
        serialize_oauth_consumer_key "consumer_key";
        serialize_oauth_nonce "nonce";
        serialize_oauth_signature_method "signature_method";
        serialize_oauth_timestamp "timestamp";
        serialize_oauth_token "token";
        serialize_oauth_verifier "verifier";
        serialize_oauth_version "version";
    }
    fn end(mut self) -> Vec<Value> {
        self.0.push(json!(["end"]));
        self.0
    }
}
