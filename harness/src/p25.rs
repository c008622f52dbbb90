//! References, boxes, cows and options around a value do not show in the XML.
use crate::gen::*;
use crate::sx::*;
use instant_xml::*;
use std::borrow::Cow;

macro_rules! holders {
    ($($n:ident [$($a:tt)*];)*) => { $(
        #[derive(ToXml)]
        #[xml(rename = "r", ns(""))]
        struct $n<T> {
            $($a)*
            f: T,
        }
    )* };
}
holders! {
    El [];
    At [#[xml(attribute)]];
    Dir [#[xml(direct)]];
    Ns [#[xml(rename = "g", ns("u"))]];
}
#[derive(ToXml)]
#[xml(rename = "r")]
struct Tup<T>(T);

fn out<T: ToXml>(v: T, how: usize) -> String {
    let x = match how {
        0 => to_string(&El { f: v }),
        1 => to_string(&At { f: v }),
        2 => to_string(&Dir { f: v }),
        3 => to_string(&Ns { f: v }),
        4 => to_string(&Tup(v)),
        _ => to_string(&v),
    };
    match x {
        Ok(x) => x,
        Err(_) => fail(1),
    }
}
fn same(a: &str, b: &str, code: u32) {
    check(a.len() == b.len(), code);
    check(a == b, code + 1);
}
/// every wrapper of a value, in every position
fn wrapped<T: ToXml + Clone>(v: &T, n: usize) {
    let how = choose(n);
    let plain = out(v.clone(), how);
    show(plain.as_bytes());
    note_str(1, &plain);
    let w = match choose(9) {
        0 => out(v, how),
        1 => out(&v, how),
        2 => out(Box::new(v.clone()), how),
        3 => out(Some(v.clone()), how),
        4 => out(Some(Box::new(v)), how),
        5 => out(Box::new(Some(v.clone())), how),
        6 => out(&Some(v), how),
        7 => out(Some(Some(v)), how),
        _ => {
            // to_writer gives what to_string gives
            let mut o = String::from("kept");
            let r = match how {
                0 => to_writer(&El { f: v }, &mut o),
                1 => to_writer(&At { f: v }, &mut o),
                2 => to_writer(&Dir { f: v }, &mut o),
                3 => to_writer(&Ns { f: v }, &mut o),
                4 => to_writer(&Tup(v), &mut o),
                _ => to_writer(v, &mut o as &mut dyn std::fmt::Write),
            };
            check(r.is_ok() && o.starts_with("kept"), 2);
            o[4..].to_string()
        }
    };
    same(&plain, &w, 3);
    reach(1);
}

#[derive(ToXml, FromXml, Clone, Debug, PartialEq)]
#[xml(rename = "l", ns("w"))]
struct Leaf {
    #[xml(attribute)]
    k: Option<u8>,
    t: String,
}
#[derive(ToXml, FromXml, Clone, Debug, PartialEq)]
#[xml(scalar)]
enum Sc {
    One,
    #[xml(rename = "<2>")]
    Two,
}
#[derive(ToXml, FromXml, Clone, Debug, PartialEq)]
#[xml(forward)]
enum Fw {
    L(Leaf),
    U(Unit),
}
#[derive(ToXml, FromXml, Clone, Debug, PartialEq)]
struct Unit;
#[derive(ToXml, FromXml, Clone, Debug, PartialEq)]
struct Pair(u8, Leaf);

fn leaf() -> Leaf {
    Leaf { k: if flag() { Some(7) } else { None }, t: xml_string(1, 0b0101) }
}
/// values that are text
pub fn h25_scalar() {
    match choose(9) {
        0 => wrapped(&xml_string(2, 0b0111), 6),
        1 => wrapped(&byte(), 6),
        2 => wrapped(&(byte() as i8 as i64), 6),
        3 => wrapped(&flag(), 6),
        4 => {
            let mut v = vec![];
            xml_char(&mut v, 0b0111);
            let Some(c) = string(v).chars().next() else { fail(9) };
            wrapped(&c, 6)
        }
        5 => wrapped(&[Sc::One, Sc::Two][choose(2)], 6),
        6 => {
            let t = xml_string(2, 0b0101);
            let c: Cow<'_, str> = if flag() { Cow::Borrowed(&t) } else { Cow::Owned(t.clone()) };
            wrapped(&c, 6)
        }
        7 => wrapped(&std::net::IpAddr::from([10, 0, 0, byte()]), 6),
        _ => {
            // a Cow and a str are their String
            let t = xml_string(2, 0b0101);
            let how = choose(6);
            let p = out(t.clone(), how);
            same(&p, &out(Cow::Borrowed(&t[..]), how), 11);
            same(&p, &out(Cow::<str>::Owned(t.clone()), how), 13);
            same(&p, &out(&t[..], how), 15);
            let b: Box<str> = t.clone().into();
            same(&p, &out(b, how), 17);
            reach(1);
        }
    }
}
/// values that are elements
pub fn h25_element() {
    // not as attributes, direct text or in a renamed field
    match choose(4) {
        0 => element(&leaf()),
        1 => element(&if flag() { Fw::L(leaf()) } else { Fw::U(Unit) }),
        2 => element(&Unit),
        _ => element(&Pair(byte(), leaf())),
    }
}
fn element<T: ToXml + Clone>(v: &T) {
    match choose(2) {
        0 => wrapped(v, 1),
        _ => {
            let how = 4 + choose(2);
            let p = out(v.clone(), how);
            let w = match choose(4) {
                0 => out(v, how),
                1 => out(Box::new(v), how),
                2 => out(Some(v), how),
                _ => out(Box::new(Some(v)), how),
            };
            same(&p, &w, 21);
        }
    }
}
/// absent values leave nothing, however wrapped
pub fn h25_absent() {
    let how = choose(5);
    let none: Option<String> = None;
    let p = out(none.clone(), how);
    show(p.as_bytes());
    let w = match choose(6) {
        0 => out(&none, how),
        1 => out(&&none, how),
        2 => out(Box::new(none), how),
        3 => out(Some(none), how),
        4 => out(Some(Box::new(none)), how),
        _ => out(None::<Box<Option<u8>>>, how),
    };
    same(&p, &w, 31);
    check(p == ["<r></r>", "<r />", "<r></r>", "<r></r>", "<r></r>"][how] || p == "<r />", 33);
    reach(1);
}
/// lists: a slice, a Vec and a Cow of a slice
pub fn h25_list() {
    let mut v = vec![];
    for _ in 0..choose(tier(3, 4) as usize) {
        v.push(leaf());
    }
    let how = [0, 4, 5][choose(3)];
    let p = out(v.clone(), how);
    same(&p, &out(&v[..], how), 41);
    same(&p, &out(&v, how), 43);
    same(&p, &out(Box::new(v.clone()), how), 45);
    same(&p, &out(Some(v.clone()), how), 47);
    same(&p, &out(v.iter().collect::<Vec<_>>(), how), 49);
    same(&p, &out(v.iter().cloned().map(Some).collect::<Vec<_>>(), how), 51);
    let b: Box<[Leaf]> = v.into();
    same(&p, &out(b, how), 53);
    reach(1);
}

// ---- reading
macro_rules! readers {
    ($($n:ident [$($a:tt)*];)*) => { $(
        #[derive(FromXml)]
        #[xml(rename = "r")]
        struct $n<T> {
            $($a)*
            f: T,
        }
    )* };
}
readers! {
    REl [#[xml(rename = "f")]];
    RAt [#[xml(attribute)]];
    RDir [#[xml(direct)]];
}
fn read<T: FromXmlOwned>(d: &[u8], how: usize) -> Result<T, Error> {
    match how {
        0 => from_str::<REl<T>>(s(d)).map(|r| r.f),
        1 => from_str::<RAt<T>>(s(d)).map(|r| r.f),
        _ => from_str::<RDir<T>>(s(d)).map(|r| r.f),
    }
}
fn agree<T: PartialEq, W>(a: &Result<T, Error>, b: Result<W, Error>, f: impl Fn(&W) -> Option<&T>, code: u32) {
    match (a, &b) {
        (Ok(a), Ok(b)) => check(f(b) == Some(a), code),
        (Err(a), Err(b)) => check(std::mem::discriminant(a) == std::mem::discriminant(b), code + 1),
        _ => fail(code + 2),
    }
    reach(2);
}
fn reads<T: FromXmlOwned + PartialEq>(text: &[u8]) {
    let how = choose(3);
    let n = if how == 0 { choose(3) } else { choose(2) };
    let mut d = b"<r".to_vec();
    if how == 1 {
        for _ in 0..n {
            d.extend_from_slice(b" f='");
            d.extend_from_slice(text);
            d.push(b'\'');
        }
        d.extend_from_slice(b"/>");
    } else {
        d.push(b'>');
        for _ in 0..n {
            if how == 0 {
                d.extend_from_slice(b"<f>");
            }
            d.extend_from_slice(text);
            if how == 0 {
                d.extend_from_slice(b"</f>");
            }
        }
        d.extend_from_slice(b"</r>");
    }
    show(&d);
    let plain = read::<T>(&d, how);
    let boxed = read::<Box<T>>(&d, how);
    agree(&plain, boxed, |b| Some(b), 61);
    reach(1);
}
/// Box<T> reads what T reads
pub fn h25_read() {
    let mut t = vec![];
    for _ in 0..choose(3) {
        let b = byte();
        assume((b > 0x20) & (b < 0x7f) & (b != b'<') & (b != b'&') & (b != b'\'') & (b != b'>'));
        t.push(b);
    }
    match choose(4) {
        0 => reads::<String>(&t),
        1 => reads::<u8>(&t),
        2 => reads::<Option<String>>(&t),
        _ => reads::<Vec<String>>(&t),
    }
}

// ---- the box around the type of a field with a name and namespace of its own
#[derive(FromXml)]
#[xml(rename = "r")]
struct RNs<T> {
    #[xml(rename = "f", ns("v"))]
    f: T,
}
#[derive(FromXml, Clone, Debug, PartialEq)]
#[xml(scalar, ns("v"))]
enum ScNs {
    A,
}
#[derive(FromXml, Clone, Debug, PartialEq)]
#[xml(scalar)]
enum ScNo {
    A,
}
#[derive(FromXml, Clone, Debug, PartialEq)]
#[xml(scalar, ns("u"))]
enum ScOther {
    A,
}
macro_rules! named {
    ($($n:ident $t:tt $ns:tt;)*) => { $(
        #[derive(FromXml, Clone, Debug, PartialEq)]
        #[xml(rename = $t, ns($ns))]
        struct $n { #[xml(direct)] t: Option<String> }
    )* };
}
named! { Fv "f" "v"; Xu "X" "u"; Q "q" ""; }
#[derive(FromXml, Clone, Debug, PartialEq)]
#[xml(forward)]
enum FwR {
    Fv(Fv),
    Xu(Box<Xu>),
}
fn boxed<T: FromXmlOwned + PartialEq>(d: &[u8]) {
    let x = s(d);
    let plain = from_str::<RNs<T>>(x).map(|r| r.f);
    match choose(3) {
        0 => agree(&plain, from_str::<RNs<Box<T>>>(x).map(|r| r.f), |b| Some(b), 71),
        1 => agree(&plain, from_str::<RNs<Box<Box<T>>>>(x).map(|r| r.f), |b| Some(b), 74),
        _ => {
            // and its absence
            let plain = from_str::<RNs<Option<T>>>(x).map(|r| r.f);
            match (&plain, from_str::<RNs<Option<Box<T>>>>(x).map(|r| r.f)) {
                (Ok(a), Ok(b)) => check(a.as_ref() == b.as_deref(), 77),
                (Err(a), Err(b)) => check(*a == b, 78),
                _ => fail(79),
            }
        }
    }
    let v = from_str::<RNs<Vec<T>>>(x).map(|r| r.f);
    match (&v, from_str::<RNs<Vec<Box<T>>>>(x).map(|r| r.f)) {
        (Ok(a), Ok(b)) => check(a.len() == b.len() && a.iter().zip(&b).all(|(a, b)| *a == **b), 80),
        (Err(a), Err(b)) => check(*a == b, 81),
        _ => fail(82),
    }
    reach(1);
}
pub fn h25_read_named() {
    let mut d = b"<r>".to_vec();
    for _ in 0..choose(3) {
        let n = ["f", "X", "q"][choose(3)];
        let ns = ["", "u", "v"][choose(3)];
        d.extend_from_slice(format!("<{n} xmlns='{ns}'>").as_bytes());
        match choose(3) {
            0 => {}
            1 => d.push(b'A'),
            _ => d.push(b'1'),
        }
        d.extend_from_slice(format!("</{n}>").as_bytes());
    }
    d.extend_from_slice(b"</r>");
    show(&d);
    match choose(10) {
        0 => boxed::<ScNs>(&d),
        1 => boxed::<ScNo>(&d),
        2 => boxed::<ScOther>(&d),
        3 => boxed::<Fv>(&d),
        4 => boxed::<Xu>(&d),
        5 => boxed::<Q>(&d),
        6 => boxed::<FwR>(&d),
        7 => boxed::<u8>(&d),
        8 => boxed::<String>(&d),
        _ => boxed::<Option<String>>(&d),
    }
}
