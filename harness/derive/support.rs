// Shared by the generated structs: types, functions for attributes, reporting.
#[path = "/verif/harness/src/probe.rs"]
mod probe;

pub use std::borrow::Cow;
pub use std::fmt::{self, Display, Formatter};

/// The library under other paths.
pub mod reexported {
    pub use oauth::*;
    pub mod deep {
        pub use oauth as lib;
    }
}

pub type Maybe<T> = Option<T>;

/// Something else called `Option`.
pub mod shadow {
    pub struct Option<T>(pub T);
    impl<T: std::fmt::Display> std::fmt::Display for Option<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.fmt(f)
        }
    }
}

/// Displays itself character by character.
pub struct Pieces(pub &'static str);
impl Display for Pieces {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        use fmt::Write;
        f.write_str("")?;
        self.0.chars().try_for_each(|c| f.write_char(c))
    }
}

pub struct Sized2<const N: usize>(pub [&'static str; N]);
impl<const N: usize> Display for Sized2<N> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.0.iter().try_for_each(|s| f.write_str(s))
    }
}

/// Takes no space.
pub struct Flag;
impl Display for Flag {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str("on")
    }
}

/// Not displayable.
pub struct Opaque(pub &'static str);
impl Opaque {
    pub fn show(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
    pub fn bracket(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "[{}]", self.0)
    }
    pub fn twice(o: &Opaque, f: &mut Formatter<'_>) -> fmt::Result {
        o.show(f)?;
        o.show(f)
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn long(&self) -> bool {
        self.0.len() > 3
    }
}

pub mod fns {
    use super::*;
    type R = fmt::Result;
    type F<'a, 'b> = &'a mut Formatter<'b>;
    pub fn plain<T: Display + ?Sized>(t: &T, f: F<'_, '_>) -> R {
        t.fmt(f)
    }
    pub fn bracket<T: Display + ?Sized>(t: &T, f: F<'_, '_>) -> R {
        write!(f, "[{}]", t)
    }
    pub fn twice<T: Display + ?Sized>(t: &T, f: F<'_, '_>) -> R {
        write!(f, "{}{}", t, t)
    }
    pub fn silent<T: ?Sized>(_: &T, _: F<'_, '_>) -> R {
        Ok(())
    }
    pub fn constant<T: ?Sized>(_: &T, f: F<'_, '_>) -> R {
        f.write_str("const/")
    }
    pub fn pieces<T: Display + ?Sized>(t: &T, f: F<'_, '_>) -> R {
        t.to_string().chars().try_for_each(|c| write!(f, "{}", c))
    }
    pub fn amp<T: Display + ?Sized>(t: &T, f: F<'_, '_>) -> R {
        write!(f, "&{}=%26", t)
    }
    pub fn optional<T: Display>(t: &Option<T>, f: F<'_, '_>) -> R {
        match t {
            Some(t) => write!(f, "?{}", t),
            None => f.write_str("?"),
        }
    }
    pub fn always<T: ?Sized>(_: &T) -> bool {
        true
    }
    pub fn never<T: ?Sized>(_: &T) -> bool {
        false
    }
    pub fn empty<T: Display + ?Sized>(t: &T) -> bool {
        t.to_string().is_empty()
    }
    pub fn long<T: Display + ?Sized>(t: &T) -> bool {
        t.to_string().len() > 3
    }
    pub fn zero<T: Display + ?Sized>(t: &T) -> bool {
        t.to_string() == "0"
    }
    // For what derefs to a string.
    pub fn str_bracket(t: &str, f: F<'_, '_>) -> R {
        write!(f, "[{}]", t)
    }
    pub fn str_long(t: &str) -> bool {
        t.len() > 3
    }
}

pub fn emit<R: oauth::Request + ?Sized>(id: usize, r: &R) {
    let a = r.serialize(probe::Probe::default());
    let b = r.serialize(probe::Probe::default());
    println!("{}", serde_json::json!({"id": id, "calls": a, "again": b}));
}

/// The absent one of a kind of requests.
pub fn absent<R>(_: R) -> Option<R> {
    None
}
