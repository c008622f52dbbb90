//! Equivalent declarations mean the same: types that differ only in how they are declared are
//! written as the same documents and read the same documents alike.
use crate::gen::*;
use crate::refxml;
use crate::sx::*;
use instant_xml::*;

pub const U: &str = "u";
pub const V: &str = "v";
pub mod far {
    pub mod away {
        pub const U: &str = "u";
        pub const W: &str = "w";
    }
    pub const V: &str = "v";
}
type Text = String;
type Parts = (String, Option<u8>, Vec<String>, Option<String>);

trait Same: ToXml + FromXmlOwned {
    fn make(p: Parts) -> Self;
    fn parts(self) -> Parts;
}
macro_rules! same {
    ($t:ty, $a:ident $b:ident $c:ident $d:ident) => {
        impl super::Same for $t {
            fn make((a, b, c, d): super::Parts) -> Self {
                Self { $a: a.into(), $b: b, $c: c.into_iter().map(Into::into).collect(), $d: d.map(Into::into) }
            }
            fn parts(self) -> super::Parts {
                (self.$a.into(), self.$b, self.$c.into_iter().map(Into::into).collect(), self.$d.map(Into::into))
            }
        }
    };
}
mod plain {
    use super::V;
    use instant_xml::*;
    #[derive(ToXml, FromXml)]
    #[xml(rename = "el", ns("u", p = "v", q = "w"))]
    pub struct T {
        #[xml(attribute, rename = "x-a")]
        a: String,
        #[xml(attribute, ns(V))]
        b: Option<u8>,
        #[xml(rename = "c", ns("v"))]
        c: Vec<String>,
        d: Option<String>,
    }
    same!(T, a b c d);
}
/// arguments in another order, with other attributes between them
mod order {
    use super::V;
    use instant_xml::{FromXml, ToXml};
    /// documented
    #[allow(dead_code)]
    #[derive(FromXml)]
    #[xml(ns("u", q = "w", p = "v"), rename = "el",)]
    #[derive(ToXml)]
    #[doc(hidden)]
    pub struct T {
        /// documented
        #[xml(rename = "x-a", attribute)]
        pub a: String,
        #[allow(unused)]
        #[xml(ns(V), attribute,)]
        pub(crate) b: Option<u8>,
        #[cfg(all())]
        #[xml(ns("v"), rename = "c")]
        c: Vec<String>,
        #[cfg_attr(all(), xml(rename = "d"))]
        d: Option<String>,
        #[cfg(any())]
        e: u8,
    }
    same!(T, a b c d);
}
/// namespaces by their constants
mod paths {
    use super::{U, V};
    use instant_xml::*;
    const W: &str = "w";
    #[derive(ToXml, FromXml)]
    #[xml(rename = "el", ns(U, p = V, q = W))]
    pub struct T {
        #[xml(attribute, rename = "x-a")]
        a: String,
        #[xml(attribute, ns(V))]
        b: Option<u8>,
        #[xml(ns(V))]
        c: Vec<String>,
        #[xml(ns(U))]
        d: Option<String>,
    }
    same!(T, a b c d);
}
/// and by longer paths
mod long {
    use super::far::V;
    use instant_xml::*;
    #[derive(ToXml, FromXml)]
    #[xml(ns(super::far::away::U, p = super::far::V, q = crate::p28::far::away::W), rename = "el")]
    pub struct T {
        #[xml(attribute, rename = "x-a")]
        a: super::Text,
        #[xml(attribute, ns(V))]
        b: core::option::Option<core::primitive::u8>,
        #[xml(ns(crate::p28::far::V))]
        c: std::vec::Vec<std::string::String>,
        #[xml(ns(super::far::away::U), rename = "d")]
        d: Option<super::Text>,
    }
    same!(T, a b c d);
}
/// other prefixes
mod prefixes {
    use super::V;
    use instant_xml::*;
    #[derive(ToXml, FromXml)]
    #[xml(rename = "el", ns("u", a-b.c-d = "w", type = "v", x1 = "y", _z = super::far::away::U))]
    pub struct T {
        #[xml(attribute, rename = "x-a")]
        a: String,
        #[xml(attribute, ns(V))]
        b: Option<u8>,
        #[xml(rename = "c", ns("v"))]
        c: Vec<String>,
        d: Option<String>,
    }
    same!(T, a b c d);
}
/// names from the identifiers
mod names {
    use super::V;
    use instant_xml::*;
    #[allow(non_camel_case_types)]
    #[derive(ToXml, FromXml)]
    #[xml(rename_all = "kebab-case", ns("u", p = "v"))]
    pub struct el {
        #[xml(attribute)]
        x_a: String,
        #[xml(attribute, ns(V))]
        r#b: Option<u8>,
        #[xml(ns("v"))]
        c: Vec<String>,
        d: Option<String>,
    }
    same!(el, x_a b c d);
}
/// with parameters
mod params {
    use super::V;
    use instant_xml::*;
    #[derive(ToXml, FromXml)]
    #[xml(rename = "el", ns("u", p = "v"))]
    pub struct T<A, B = u8, C = String>
    where
        A: Clone,
        C: Clone,
    {
        #[xml(attribute, rename = "x-a")]
        a: A,
        #[xml(attribute, ns(V))]
        b: Option<B>,
        #[xml(ns("v"))]
        c: Vec<C>,
        d: Option<C>,
    }
    same!(T<String>, a b c d);
}
/// written by a macro
mod expanded {
    use super::V;
    use instant_xml::*;
    macro_rules! declare {
        ($n:ident, $e:literal, $u:tt, $v:ident, $a:ty, $b:ty, $($c:ident)+) => {
            #[derive(ToXml, FromXml)]
            #[xml(rename = "el", ns($u, p = $v))]
            pub struct $n {
                #[xml(attribute, rename = "x-a")]
                a: $a,
                #[xml(attribute, ns($v))]
                b: Option<$b>,
                $( #[xml(ns($v))] $c: Vec<$a>, )+
                d: Option<$a>,
            }
        };
    }
    declare!(T, "el", "u", V, String, u8, c);
    same!(T, a b c d);
}
/// with fields named as what the macros use
mod clash {
    use super::V;
    use instant_xml::*;
    #[derive(ToXml, FromXml)]
    #[xml(rename = "el", ns("u", p = "v"))]
    pub struct T {
        #[xml(attribute, rename = "x-a")]
        serializer: String,
        #[xml(attribute, ns(V), rename = "b")]
        deserializer: Option<u8>,
        #[xml(ns("v"), rename = "c")]
        into: Vec<String>,
        #[xml(rename = "d")]
        field: Option<String>,
    }
    same!(T, serializer deserializer into field);
}
/// other types for the same content
mod types {
    use super::V;
    use instant_xml::*;
    use std::borrow::Cow;
    #[derive(ToXml, FromXml)]
    #[xml(rename = "el", ns("u", p = "v"))]
    pub struct T {
        #[xml(attribute, rename = "x-a")]
        a: Cow<'static, str>,
        #[xml(attribute, ns(V))]
        b: Option<u8>,
        #[xml(ns("v"))]
        c: Vec<Cow<'static, str>>,
        d: Option<Box<String>>,
    }
    impl super::Same for T {
        fn make((a, b, c, d): super::Parts) -> Self {
            Self { a: a.into(), b, c: c.into_iter().map(Into::into).collect(), d: d.map(Box::new) }
        }
        fn parts(self) -> super::Parts {
            (self.a.into(), self.b, self.c.into_iter().map(Into::into).collect(), self.d.map(|d| *d))
        }
    }
}

macro_rules! all {
    ($f:ident($($x:expr),*)) => {
        match choose(9) {
            0 => $f::<order::T>($($x),*),
            1 => $f::<paths::T>($($x),*),
            2 => $f::<long::T>($($x),*),
            3 => $f::<prefixes::T>($($x),*),
            4 => $f::<names::el>($($x),*),
            5 => $f::<params::T<String>>($($x),*),
            6 => $f::<expanded::T>($($x),*),
            7 => $f::<clash::T>($($x),*),
            _ => $f::<types::T>($($x),*),
        }
    };
}
fn value() -> Parts {
    // an arbitrary text in one of the places
    let at = choose(3);
    let t = |n: usize| if n == at { xml_string(tier(1, 2), 0b0101) } else { "<z>".to_string() };
    (
        t(0),
        [None, Some(0), Some(255)][choose(3)],
        match choose(3) {
            0 => vec![],
            1 => vec!["x".to_string()],
            _ => vec![t(1), "".to_string()],
        },
        if flag() { Some(t(2)) } else { None },
    )
}
/// the same value as the same document
pub fn h28_write() {
    fn go<T: Same>(p: Parts) {
        let (Ok(a), Ok(b)) = (to_string(&plain::T::make(p.clone())), to_string(&T::make(p.clone()))) else { fail(1) };
        show(b.as_bytes());
        note_str(1, &b);
        match (refxml::parse(a.as_bytes()), refxml::parse(b.as_bytes())) {
            (Ok(a), Ok(b)) => check(a == b, 2),
            _ => fail(3),
        }
        // and each reads what the other wrote
        match (from_str::<T>(&a), from_str::<plain::T>(&b)) {
            (Ok(a), Ok(b)) => {
                let (a, b) = (a.parts(), b.parts());
                check(a == p, 4);
                check(b == p, 5);
            }
            _ => fail(6),
        }
        reach(1);
    }
    let p = value();
    all!(go(p))
}
/// the same document as the same value, or the same failure
pub fn h28_read() {
    fn go<T: Same>(d: &[u8]) {
        let (a, b) = (from_str::<plain::T>(s(d)), from_str::<T>(s(d)));
        match (a, b) {
            (Ok(a), Ok(b)) => {
                let (a, b) = (a.parts(), b.parts());
                check(a == b, 11);
                reach(1);
            }
            (Err(a), Err(b)) => {
                check(std::mem::discriminant(&a) == std::mem::discriminant(&b), 12);
                reach(2);
            }
            _ => fail(13),
        }
    }
    let mut d = [&b"<el xmlns='u' xmlns:r='v'"[..], b"<el", b"<r:el xmlns:r='u' xmlns='v'", b"<el xmlns='v' xmlns:r='u'"][choose(4)].to_vec();
    let (at, with) = (choose(6), choose(6));
    if at == 0 {
        assume(with < 5);
        d.extend_from_slice([&b" x-a=''"[..], b" a='1'", b" x_a='1'", b" x-a='1' x-a='2'", b""][with]);
    } else {
        d.extend_from_slice(b" x-a='");
        text(&mut d);
        d.push(b'\'');
    }
    if at == 1 {
        d.extend_from_slice([&b" b='1'"[..], b" r:b='1'", b" r:b='256'", b" r:b=''", b" xmlns:s='v' s:b='7'", b" r:x-a='n'"][with]);
    }
    d.push(b'>');
    if at == 2 || at == 3 {
        let name = ["c", "d", "el", "b", "r:c", "r:d"][with];
        for _ in 0..at - 1 {
            d.extend_from_slice(format!("<{name}>").as_bytes());
            text(&mut d);
            d.extend_from_slice(format!("</{name}>").as_bytes());
        }
    }
    if at == 4 {
        let own = ["<c xmlns='v'>1</c>", "<c xmlns='u'/>", "<d xmlns='u'/>", "<d xmlns='v'>2</d>", "<c xmlns='v'><d/></c>", "t<!-- c -->"][with];
        d.extend_from_slice(own.as_bytes());
        d.extend_from_slice(own.as_bytes());
    }
    d.extend_from_slice(if d.starts_with(b"<r:") { b"</r:el>" } else { b"</el>" });
    show(&d);
    all!(go(&d))
}
fn text(d: &mut Vec<u8>) {
    let b = byte();
    assume((b >= 0x20) & (b < 0x7f) & (b != b'<') & (b != b'&') & (b != b'\'') & (b != b'>'));
    d.push(b);
}

// ---- enums of texts
macro_rules! scalar {
    ($($n:ident [$($x:tt)*] { $($(#[$m:meta])* $v:ident $(= $l:tt)?,)* })*) => { $(
        #[derive(ToXml, FromXml, Clone, Copy, Debug, PartialEq)]
        #[xml(scalar $($x)*)]
        enum $n { $($(#[$m])* $v $(= $l)?,)* }
        impl $n {
            const ALL: [$n; 3] = [$($n::$v),*];
        }
        impl Text3 for $n {
            fn nth(n: usize) -> Self { $n::ALL[n] }
            fn index(&self) -> usize { $n::ALL.iter().position(|v| v == self).unwrap_or(9) }
        }
    )* };
}
trait Text3: ToXml + FromXmlOwned {
    fn nth(n: usize) -> Self;
    fn index(&self) -> usize;
}
scalar! {
    Renamed [] {
        #[xml(rename = "one-two")] A,
        #[xml(rename = "three")] B,
        #[xml(rename = "10")] C,
    }
    Cased [, rename_all = "kebab-case"] {
        OneTwo,
        Three,
        #[xml(rename = "10")] Ten,
    }
    Numbered [, rename_all = "lowercase"] {
        #[xml(rename = "one-two")] One,
        THREE,
        Ten = 10,
    }
    Based [, rename_all = "snake_case"] {
        #[doc = "documented"] #[xml(rename = "one-two",)] One,
        r#Three,
        Ten = 0xa,
    }
}
#[derive(ToXml, FromXml, Debug)]
#[xml(rename = "r")]
struct Holder<T> {
    #[xml(attribute)]
    a: Option<T>,
    e: Vec<T>,
}
/// variants named by rename, rename_all or number
pub fn h28_variants() {
    fn write<T: Text3>(n: usize) {
        let v = |a: bool| (if a { Some(n) } else { None }, vec![n, (n + 1) % 3]);
        let (a, e) = v(flag());
        let (Ok(x), Ok(y)) = (
            to_string(&Holder { a: a.map(Renamed::nth), e: e.iter().map(|n| Renamed::nth(*n)).collect() }),
            to_string(&Holder { a: a.map(T::nth), e: e.iter().map(|n| T::nth(*n)).collect() }),
        ) else {
            fail(21)
        };
        show(x.as_bytes());
        check(x == y, 22);
        reach(1);
    }
    fn read<T: Text3>(d: &[u8]) {
        match (from_str::<Holder<Renamed>>(s(d)), from_str::<Holder<T>>(s(d))) {
            (Ok(a), Ok(b)) => {
                check(a.a.map(|a| a.index()) == b.a.map(|b| b.index()), 23);
                check(a.e.len() == b.e.len() && a.e.iter().zip(&b.e).all(|(a, b)| a.index() == b.index()), 24);
                reach(1);
            }
            (Err(a), Err(b)) => {
                check(std::mem::discriminant(&a) == std::mem::discriminant(&b), 25);
                reach(2);
            }
            _ => fail(26),
        }
    }
    if flag() {
        let n = choose(3);
        match choose(3) {
            0 => write::<Cased>(n),
            1 => write::<Numbered>(n),
            _ => write::<Based>(n),
        }
        return;
    }
    // a text of one of the variants, one of its characters arbitrary
    let mut t = [&b"one-two"[..], b"three", b"10"][choose(3)].to_vec();
    let at = choose(t.len() + 1);
    if at < t.len() {
        t.remove(at);
        let mut c = vec![];
        text(&mut c);
        t.insert(at, c[0]);
    }
    let d = if flag() { [&b"<r a='"[..], &t, b"'/>"].concat() } else { [&b"<r><e>three</e><e>"[..], &t, b"</e></r>"].concat() };
    show(&d);
    match choose(3) {
        0 => read::<Cased>(&d),
        1 => read::<Numbered>(&d),
        _ => read::<Based>(&d),
    }
}
