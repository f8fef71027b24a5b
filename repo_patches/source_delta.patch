From d1a5a312120e3765fb0bbca7f4432322cb06eda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 01/13] fix: write request parameters to authorized forms and
 queries

Authorizer's form and query modes are documented to produce the protocol
parameters along with the other request parameters, but the latter were only
fed to the signer and never written to the output.
---
 oauth1-request/src/serializer/auth.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index 8b3ffc3..e7b55af 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -297,12 +297,18 @@ impl<'a, SM: SignatureMethod, W: Write> Serializer for Authorizer<'a, SM, W> {
 
     fn serialize_parameter<V: Display>(&mut self, key: &str, value: V) {
         self.check_dictionary_order(key);
+        if let Data::Urlencode(ref mut encoder) = self.data {
+            encoder.serialize_parameter(key, &value);
+        }
         self.sign_delimiter();
         self.sign.parameter(key, DoublePercentEncode(value));
     }
 
     fn serialize_parameter_encoded<V: Display>(&mut self, key: &str, value: V) {
         self.check_dictionary_order(key);
+        if let Data::Urlencode(ref mut encoder) = self.data {
+            encoder.serialize_parameter_encoded(key, &value);
+        }
         self.sign_delimiter();
         self.sign.parameter(key, PercentEncode(value));
     }
-- 
2.43.0


From 36723da82c850c23e422c4a936b5954bf2de36d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 02/13] fix: percent-encode PLAINTEXT signatures

Sign::Signature is documented to be the URL-encoded representation of the
signature, but the PLAINTEXT signature was emitted as is, breaking the syntax
of form bodies and queries and making receivers decode the secrets once too
often.
---
 oauth1-request/src/signature_method/plaintext.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/oauth1-request/src/signature_method/plaintext.rs b/oauth1-request/src/signature_method/plaintext.rs
index 169ff51..7650421 100644
--- a/oauth1-request/src/signature_method/plaintext.rs
+++ b/oauth1-request/src/signature_method/plaintext.rs
@@ -6,6 +6,7 @@ use core::fmt::{self, Debug, Display, Formatter, Write};
 use core::marker::PhantomData;
 
 use super::{write_signing_key, Sign, SignatureMethod};
+use crate::util::percent_encode;
 
 /// The `PLAINTEXT` signature method.
 pub struct Plaintext<
@@ -91,8 +92,21 @@ where
     type Sign = PlaintextSign<W>;
 
     fn sign_with(self, client_secret: &str, token_secret: Option<&str>) -> Self::Sign {
+        // `Sign::Signature` is the URL-encoded representation of the signature.
+        struct PercentEncodeWrite<'a, W>(&'a mut W);
+        impl<'a, W: Write> Write for PercentEncodeWrite<'a, W> {
+            fn write_str(&mut self, s: &str) -> fmt::Result {
+                write!(self.0, "{}", percent_encode(s))
+            }
+        }
+
         let mut signing_key = W::default();
-        write_signing_key(&mut signing_key, client_secret, token_secret).unwrap();
+        write_signing_key(
+            &mut PercentEncodeWrite(&mut signing_key),
+            client_secret,
+            token_secret,
+        )
+        .unwrap();
         PlaintextSign { signing_key }
     }
 }
-- 
2.43.0


From f52ebbea4f9ae5218aca70bcffba21f2e7cb6943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 03/13] fix: sort parameters with equal names by
 percent-encoded value

RFC 5849 section 3.4.1.3.2 sorts parameters after encoding them, while
ParameterList compared the raw values, so that e.g. "a" and "{" under one name
were signed in the wrong order.
---
 oauth1-request/src/request.rs                | 4 ++--
 oauth1-request/src/request/parameter_list.rs | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/oauth1-request/src/request.rs b/oauth1-request/src/request.rs
index c78477f..5218e1a 100644
--- a/oauth1-request/src/request.rs
+++ b/oauth1-request/src/request.rs
@@ -32,8 +32,8 @@ pub trait Request {
 /// behavior of this wrapper is unspecified.
 ///
 /// Note that the required ordering is alphabetical ordering of `AsRef<str>` value of the key and
-/// `Display` representation of the value and does not necessarily match that of the one provided by
-/// the [`Ord`] trait, which may provide, for example, numerical ordering instead.
+/// percent-encoded `Display` representation of the value and does not necessarily match that of the
+/// one provided by the [`Ord`] trait, which may provide, for example, numerical ordering instead.
 ///
 /// If you have a slice instead of an iterator, consider using [`ParameterList`], which guarantees
 /// the correct ordering.
diff --git a/oauth1-request/src/request/parameter_list.rs b/oauth1-request/src/request/parameter_list.rs
index 425b347..5d71e41 100644
--- a/oauth1-request/src/request/parameter_list.rs
+++ b/oauth1-request/src/request/parameter_list.rs
@@ -8,6 +8,7 @@ use core::marker::PhantomData;
 
 use super::Request;
 use crate::serializer::Serializer;
+use crate::util::PercentEncode;
 
 /// A [`Request`] with dynamic list of key-value parameter pairs.
 ///
@@ -240,7 +241,9 @@ where
     let (ref kr, ref vr) = *rhs.borrow();
     return inner(kl.as_ref(), vl, kr.as_ref(), vr);
     fn inner<V: Display>(kl: &str, vl: &V, kr: &str, vr: &V) -> Ordering {
-        (kl, fmt_cmp::Cmp(vl)).cmp(&(kr, fmt_cmp::Cmp(vr)))
+        // Parameters are to be sorted _after_ being percent-encoded.
+        // cf. <https://tools.ietf.org/html/rfc5849#section-3.4.1.3.2>
+        (kl, fmt_cmp::Cmp(PercentEncode(vl))).cmp(&(kr, fmt_cmp::Cmp(PercentEncode(vr))))
     }
 }
 
-- 
2.43.0


From 969f689e9a2954fe39b8de887e61788e474f1797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 04/13] fix: delegate Sign::consumer_key in Either

Every other hook of the chosen signature method is called through Either, but
an overridden consumer_key was silently bypassed.
---
 oauth1-request/src/signature_method/either.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oauth1-request/src/signature_method/either.rs b/oauth1-request/src/signature_method/either.rs
index 67945b6..437794b 100644
--- a/oauth1-request/src/signature_method/either.rs
+++ b/oauth1-request/src/signature_method/either.rs
@@ -62,6 +62,7 @@ impl<L: Sign, R: Sign> Sign for Either<L, R> {
 
     delegate! {
         fn callback[V: Display](&mut self, value: V);
+        fn consumer_key[V: Display](&mut self, value: V);
         fn nonce[V: Display](&mut self, value: V);
         fn use_nonce(&self) -> bool;
         fn signature_method(&mut self);
-- 
2.43.0


From ed9b79494be32ee1a0811703862f9456ebf87a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 05/13] fix: percent-encode custom request methods in signature
 base strings

RFC 5849 section 3.4.1.1 requires custom methods to be encoded, which matters
for valid method tokens such as "M*".
---
 oauth1-request/src/signature_method/digest_common.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oauth1-request/src/signature_method/digest_common.rs b/oauth1-request/src/signature_method/digest_common.rs
index 07145fa..1c83def 100644
--- a/oauth1-request/src/signature_method/digest_common.rs
+++ b/oauth1-request/src/signature_method/digest_common.rs
@@ -3,7 +3,7 @@ use core::fmt::{self, Display, Formatter, Write};
 use base64::display::Base64Display;
 use digest::Update;
 
-use crate::util::PercentEncode;
+use crate::util::{percent_encode, PercentEncode};
 
 #[derive(Clone, Debug)]
 pub struct UpdateSign<U>(pub U);
@@ -14,8 +14,7 @@ struct UpdateWrite<'a, M>(&'a mut M);
 
 impl<U: Update> UpdateSign<U> {
     pub fn request_method(&mut self, method: &str) {
-        self.0.update(method.as_bytes());
-        self.0.update(b"&");
+        write!(UpdateWrite(&mut self.0), "{}&", percent_encode(method)).unwrap();
     }
 
     pub fn uri<T: Display>(&mut self, uri: T) {
-- 
2.43.0


From ab20d196b87d0083f7e740460d254182ddd1d7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 06/13] fix: accept fields named by raw identifiers of keywords
 in derive(Request)

The raw prefix was removed not only from the parameter name but also from the
field access, making the generated code unparsable for e.g. r#type.
---
 oauth1-request-derive/src/field.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oauth1-request-derive/src/field.rs b/oauth1-request-derive/src/field.rs
index 78f6a2c..d21b359 100644
--- a/oauth1-request-derive/src/field.rs
+++ b/oauth1-request-derive/src/field.rs
@@ -35,7 +35,7 @@ impl Field {
             attrs, ident, ty, ..
         } = field;
         let meta = FieldMeta::new(attrs, cx);
-        let ident = ident.unwrap().unraw();
+        let ident = ident.unwrap();
         Self { ident, ty, meta }
     }
 
@@ -62,7 +62,7 @@ impl<'a> Name<'a> {
     // `proc_macro` crate use `to_string` under the hood as of this writing.
     pub fn string_value(&self) -> String {
         match *self {
-            Name::Original(ident) => ident.to_string(),
+            Name::Original(ident) => ident.unraw().to_string(),
             Name::Renamed(lit) => lit.value(),
         }
     }
@@ -73,7 +73,7 @@ impl<'a> ToTokens for Name<'a> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         match *self {
             Name::Original(ident) => {
-                let mut lit = Literal::string(&ident.to_string());
+                let mut lit = Literal::string(&ident.unraw().to_string());
                 lit.set_span(ident.span());
                 tokens.append(lit);
             }
-- 
2.43.0


From 5d032099d8e6cbac3770363a3d2f316be297ff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:03 +0000
Subject: [PATCH 07/13] fix: reject non-ASCII field names without rename in
 derive(Request)

Parameter names are not percent-encoded and must be URI-safe, which was only
checked for the rename attribute; other field names produced invalid forms and
wrong signatures.
---
 oauth1-request-derive/src/field.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oauth1-request-derive/src/field.rs b/oauth1-request-derive/src/field.rs
index d21b359..5f8d4c3 100644
--- a/oauth1-request-derive/src/field.rs
+++ b/oauth1-request-derive/src/field.rs
@@ -36,6 +36,9 @@ impl Field {
         } = field;
         let meta = FieldMeta::new(attrs, cx);
         let ident = ident.unwrap();
+        if meta.rename.is_none() && !meta.skip && !ident.to_string().is_ascii() {
+            cx.add_error_message(ident.span(), "parameter name must be URI-safe");
+        }
         Self { ident, ty, meta }
     }
 
-- 
2.43.0


From 78a7fe5684cb114c370210aaec560dac82b97b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 08/13] fix: hide secrets in the Debug output of PlaintextSign

Credentials' Debug implementation hides the secrets, but the derived one of
PlaintextSign, and thereby that of Authorizer, printed the signing key.
---
 oauth1-request/src/signature_method/plaintext.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/oauth1-request/src/signature_method/plaintext.rs b/oauth1-request/src/signature_method/plaintext.rs
index 7650421..57cd797 100644
--- a/oauth1-request/src/signature_method/plaintext.rs
+++ b/oauth1-request/src/signature_method/plaintext.rs
@@ -18,7 +18,7 @@ pub struct Plaintext<
 
 cfg_type_param_hack! {
     /// A `Sign` implementation that just returns the signing key used to construct it.
-    #[derive(Clone, Debug)]
+    #[derive(Clone)]
     pub struct PlaintextSign<
         #[cfg(feature = "alloc")] W = alloc::string::String,
         #[cfg(not(feature = "alloc"))] W,
@@ -111,6 +111,15 @@ where
     }
 }
 
+// Do not reveal the shared-secrets, as is the case with `Credentials`.
+impl<W> Debug for PlaintextSign<W> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        f.debug_struct("PlaintextSign")
+            .field("signing_key", &format_args!("<hidden>"))
+            .finish()
+    }
+}
+
 impl<W> Sign for PlaintextSign<W>
 where
     W: Display + Write,
-- 
2.43.0


From 9755de467cdaed06a1f6ee0b3b4c69701acdecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 09/13] fix: sort empty values of equally named parameters
 first

fmt_cmp::cmp takes a left value that writes nothing, as the percent-encoded
form of an empty text does, to be equal to any other value, so lists with an
empty value came out in an inconsistent order.
---
 oauth1-request/src/request/parameter_list.rs |  5 +++--
 oauth1-request/src/util.rs                   | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/oauth1-request/src/request/parameter_list.rs b/oauth1-request/src/request/parameter_list.rs
index 5d71e41..23696f9 100644
--- a/oauth1-request/src/request/parameter_list.rs
+++ b/oauth1-request/src/request/parameter_list.rs
@@ -8,7 +8,7 @@ use core::marker::PhantomData;
 
 use super::Request;
 use crate::serializer::Serializer;
-use crate::util::PercentEncode;
+use crate::util::{cmp_display, PercentEncode};
 
 /// A [`Request`] with dynamic list of key-value parameter pairs.
 ///
@@ -243,7 +243,8 @@ where
     fn inner<V: Display>(kl: &str, vl: &V, kr: &str, vr: &V) -> Ordering {
         // Parameters are to be sorted _after_ being percent-encoded.
         // cf. <https://tools.ietf.org/html/rfc5849#section-3.4.1.3.2>
-        (kl, fmt_cmp::Cmp(PercentEncode(vl))).cmp(&(kr, fmt_cmp::Cmp(PercentEncode(vr))))
+        kl.cmp(kr)
+            .then_with(|| cmp_display(PercentEncode(vl), PercentEncode(vr)))
     }
 }
 
diff --git a/oauth1-request/src/util.rs b/oauth1-request/src/util.rs
index 3592217..6353263 100644
--- a/oauth1-request/src/util.rs
+++ b/oauth1-request/src/util.rs
@@ -1,9 +1,29 @@
+use core::cmp::Ordering;
+use core::fmt::{self, Display, Formatter};
+
 mod oauth_parameter;
 mod percent_encoding;
 
 pub use self::oauth_parameter::OAuthParameter;
 pub use self::percent_encoding::{percent_encode, DoublePercentEncode, PercentEncode};
 
+/// Compares two values in their `Display` representations.
+///
+/// `fmt_cmp::cmp` never looks at its second argument if the first one does not write anything (not
+/// even an empty string), so make sure that something is written.
+pub fn cmp_display<T: Display, U: Display>(lhs: T, rhs: U) -> Ordering {
+    struct NonSilent<D>(D);
+
+    impl<D: Display> Display for NonSilent<D> {
+        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+            f.write_str("")?;
+            self.0.fmt(f)
+        }
+    }
+
+    fmt_cmp::cmp(&NonSilent(lhs), &rhs)
+}
+
 /// Converts from `struct Foo<#[cfg(pred)] T>(T);` to
 /// `#[cfg(pred)] struct Foo<T>(T); #[cfg(not(pred))] struct Foo<>(T);` so that `#[derive]` work
 /// for the struct with older compilers.
-- 
2.43.0


From 88c6ab7cd1ea9f81db4adfaef9e432dc8fcf9fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 10/13] fix: tell records with values that write nothing from
 others

fmt_cmp::cmp takes a left value that writes nothing to be equal to any other
value, so such a record was equal to every record of the same name.
---
 oauth1-request/src/serializer/recorder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oauth1-request/src/serializer/recorder.rs b/oauth1-request/src/serializer/recorder.rs
index c4a958c..162f81d 100644
--- a/oauth1-request/src/serializer/recorder.rs
+++ b/oauth1-request/src/serializer/recorder.rs
@@ -9,6 +9,7 @@ use core::cmp::Ordering;
 use core::fmt::Display;
 
 use super::Serializer;
+use crate::util::cmp_display;
 
 /// A `Serializer` that records the history of operations done to itself.
 ///
@@ -184,7 +185,7 @@ where
             | (
                 &Record::ParameterEncoded(ref k1, ref v1),
                 &Record::ParameterEncoded(ref k2, ref v2),
-            ) => k1.as_ref() == k2.as_ref() && fmt_cmp::cmp(v1, v2) == Ordering::Equal,
+            ) => k1.as_ref() == k2.as_ref() && cmp_display(v1, v2) == Ordering::Equal,
             (&Record::Callback, &Record::Callback)
             | (&Record::ConsumerKey, &Record::ConsumerKey)
             | (&Record::Nonce, &Record::Nonce)
-- 
2.43.0


From bfde6e533e3d14eb4418e5767aa051dbed019534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:15 +0000
Subject: [PATCH 11/13] fix: do not repeat nonces in forked processes

---
 oauth1-request/src/serializer/auth.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index e7b55af..23f5134 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -410,13 +410,9 @@ fn get_current_timestamp() -> u64 {
 }
 
 fn get_rng() -> impl RngCore + CryptoRng {
-    cfg_if::cfg_if! {
-        if #[cfg(feature = "std")] {
-            thread_rng()
-        } else {
-            rand::rngs::OsRng
-        }
-    }
+    // `rand::thread_rng` buffers its output and a forked process would inherit the buffer and
+    // generate the same nonces as its parent.
+    rand::rngs::OsRng
 }
 
 // This is worth 72 bits of entropy. The nonce is required to be unique across all requests with
-- 
2.43.0


From 82030a9233d3500b6cf84b7108c96d20a141494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:56 +0000
Subject: [PATCH 12/13] fix: take skipped fields out of the duplicate parameter
 check

---
 oauth1-request-derive/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/oauth1-request-derive/src/lib.rs b/oauth1-request-derive/src/lib.rs
index 50e4d65..9dc2fb6 100644
--- a/oauth1-request-derive/src/lib.rs
+++ b/oauth1-request-derive/src/lib.rs
@@ -78,14 +78,14 @@ fn expand_derive_oauth1_authorize(input: DeriveInput) -> TokenStream {
         .collect();
 
     fields.sort_by_cached_key(|f| f.name().string_value());
-    fields.iter().fold(String::new(), |prev_name, f| {
-        let name = f.name();
-        let (name, span) = (name.string_value(), name.span());
-        if name == prev_name {
+    // Skipped fields are not parameters, whatever their names are.
+    let params: Vec<_> = fields.iter().filter(|f| !f.meta.skip).collect();
+    for pair in params.windows(2) {
+        let (name, span) = (pair[1].name().string_value(), pair[1].name().span());
+        if name == pair[0].name().string_value() {
             cx.add_error_message(span, format!("duplicate parameter \"{}\"", name));
         }
-        name
-    });
+    }
 
     let meta = ContainerMeta::new(input.attrs, &mut cx);
 
-- 
2.43.0


From 623afc705b43dd384d4cdbd568788ca852261b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:22 +0000
Subject: [PATCH 13/13] fix: accept derive attribute values interpolated by
 macro_rules

---
 oauth1-request-derive/src/meta.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oauth1-request-derive/src/meta.rs b/oauth1-request-derive/src/meta.rs
index 6bb3fb6..8f1c008 100644
--- a/oauth1-request-derive/src/meta.rs
+++ b/oauth1-request-derive/src/meta.rs
@@ -198,7 +198,12 @@ impl Parse for Meta {
             Ok(Meta { path, kind })
         } else if input.peek(syn::Token![=]) {
             let _ = input.parse::<syn::Token![=]>().unwrap();
-            let kind = MetaKind::NameValue(input.parse()?);
+            let mut value = input.parse()?;
+            // Values that are interpolated through `macro_rules!` may be enclosed in a `Group`.
+            while let Expr::Group(group) = value {
+                value = *group.expr;
+            }
+            let kind = MetaKind::NameValue(value);
             Ok(Meta { path, kind })
         } else {
             let kind = MetaKind::Path;
-- 
2.43.0

