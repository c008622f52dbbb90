//! Totality: reading any string into any type returns a value or an error; it never panics,
//! overflows, indexes out of bounds or fails to terminate.  (Panics, out-of-bounds accesses and
//! exhausted step budgets are violations by themselves; the harnesses only supply the inputs.)
use crate::gen::*;
use crate::sx::*;
use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
use instant_xml::*;
use std::borrow::Cow;
use std::net::IpAddr;

#[derive(FromXml, Debug)]
struct R<'a> {
    #[xml(attribute)]
    a: Option<u8>,
    #[xml(attribute, ns("v"))]
    b: Option<String>,
    s: Option<String>,
    n: Vec<i8>,
    #[xml(borrow)]
    c: Option<Cow<'a, str>>,
    e: Option<Box<E>>,
    t: Option<T>,
    #[xml(direct)]
    d: Option<String>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "e", ns("u"))]
struct E {
    #[xml(attribute)]
    x: Option<bool>,
    s: Option<String>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "t")]
struct T(L, L);
#[derive(FromXml, Debug)]
#[xml(rename = "s")]
struct L {
    #[xml(direct)]
    t: String,
}
#[derive(FromXml, Debug)]
#[xml(scalar)]
enum Sc {
    A,
    #[xml(rename = "é")]
    B,
}
#[derive(FromXml, Debug)]
#[xml(forward)]
enum F {
    E(E),
    T(T),
    S(L),
}
#[derive(FromXml, Debug)]
#[xml(rename = "R")]
struct W {
    f: Vec<F>,
    sc: Option<Sc>,
    i: In,
}
#[derive(FromXml, Debug)]
#[xml(transparent)]
struct In {
    t: Option<T>,
    e: Option<E>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "R")]
struct Any<'a> {
    #[xml(borrow)]
    e: Vec<AnyElement<'a>>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "R")]
struct U;

fn read(x: &str, k: usize) {
    let ok = match k {
        0 => from_str::<R>(x).is_ok(),
        1 => from_str::<AnyElement>(x).is_ok(),
        2 => from_str::<W>(x).is_ok(),
        3 => from_str::<Any>(x).is_ok(),
        4 => from_str::<F>(x).is_ok(),
        _ => from_str::<U>(x).is_ok(),
    };
    note(1, ok as u64);
    reach(if ok { 2 } else { 1 });
}

/// Every string of up to N ASCII characters, and of characters of any length up to a smaller N.
pub fn h04_short() {
    let n = choose(tier(6, 8) + 1);
    let mut v = vec![];
    let multi = if n > 0 { choose(n + 1) } else { 0 };
    for i in 0..n {
        any_char(&mut v, if i + 1 == multi { 2 + choose(3) } else { 1 });
    }
    let x = s(&v);
    read(x, choose(3));
}

/// `<R` + any N characters
pub fn h04_open() {
    let n = choose(tier(6, 8) + 1);
    let mut v = b"<R".to_vec();
    for _ in 0..n {
        any_char(&mut v, 1);
    }
    let x = s(&v);
    read(x, choose(2));
}

pub const DOCS: [&str; 10] = [
    "<R a=\"1\" p:b='x' xmlns:p=\"v\"><s>y</s><n>-1</n><n> 2 </n>z</R>",
    "<R><c>&lt;&#x41;</c><!-- q --><e xmlns='u' x=\"1\"><s/></e></R>",
    "<?xml version=\"1.0\"?>\n<R><t><s>a</s><s><![CDATA[b]]></s></t></R>",
    "<p:e xmlns:p=\"u\" p:x=\"0\"><p:s>k</p:s></p:e>",
    "<R xmlns:q=\"v\"><t><s/><s>&amp;&#65;</s></t>\u{e9}<u q:w=\"\u{20ac}\"/></R>",
    "<R><sc>\u{e9}</sc><e xmlns=\"u\"/></R> <!-- end -->",
    "<R><![CDATA[x]]>&gt;<!--c-->y</R>",
    "<R><a><b><c/></b></a><p:x xmlns:p=\"w\"/></R>",
    "<R>&amp&lt;&#x110000;</R>",
    "<!DOCTYPE R><R/>",
];

/// A document with any one character inserted or replaced anywhere
fn hole(types: &[usize], docs: &[usize], lens: u8, max: usize) {
    let d = DOCS[docs[choose(docs.len())]];
    let b = d.as_bytes();
    let at = boundary(d, choose(b.len() + 1));
    let mut v = b[..at].to_vec();
    for _ in 0..1 + choose(max) {
        any_char(&mut v, pick_len(lens));
    }
    let mut rest = at;
    if flag() && at < b.len() {
        rest += 1;
        while !d.is_char_boundary(rest) {
            rest += 1;
        }
    }
    v.extend_from_slice(&b[rest..]);
    let x = s(&v);
    read(x, types[choose(types.len())]);
}
pub fn h04_hole() {
    hole(&[0, 2], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], 0b0001, tier(2, 3))
}
pub fn h04_hole_any() {
    hole(&[1, 3, 4], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], 0b0001, tier(2, 3))
}
pub fn h04_hole_wide() {
    hole(&[0, 1, 2], &[0, 2, 4, 5, 6, 8], if DEEP { 0b1110 } else { 0b0110 }, 1)
}

/// A document cut at any point, with up to two arbitrary characters appended
pub fn h04_cut() {
    let d = DOCS[choose(DOCS.len())];
    let at = boundary(d, choose(d.len() + 1));
    let mut v = d.as_bytes()[..at].to_vec();
    for _ in 0..choose(tier(2, 3)) {
        any_char(&mut v, pick_len(if DEEP { 0b0011 } else { 0b0001 }));
    }
    let x = s(&v);
    read(x, choose(6));
}

pub const TOKENS: [&str; 20] = [
    "<R", "<e", "<s", "<p:e", " a=\"1\"", " xmlns=\"u\"", " xmlns:p='u'", " p:x='1'", ">", "/>", "</R>", "</e>", "</s>", "</p:e>", "t", "<!---->", "<![CDATA[]]>",
    "&lt;", "<?q?>", "\u{20ac}",
];
/// Every sequence of tokens, after `<R` or `<R>`
pub fn h04_tokens() {
    let mut v = vec![];
    v.extend_from_slice([&b""[..], b"<R", b"<R>"][choose(3)]);
    for _ in 0..choose(tier(4, 5)) {
        v.extend_from_slice(TOKENS[choose(TOKENS.len())].as_bytes());
    }
    let x = s(&v);
    read(x, choose(4));
}

#[derive(FromXml, Debug)]
struct A<X> {
    #[xml(attribute)]
    a: X,
}
#[derive(FromXml, Debug)]
struct C<X> {
    a: X,
}
fn both<X: FromXmlOwned>(v: &[u8], attr: bool) {
    let ok = if attr {
        let mut d = b"<A a=\"".to_vec();
        d.extend_from_slice(v);
        d.extend_from_slice(b"\"/>");
        from_str::<A<X>>(s(&d)).is_ok()
    } else {
        let mut d = b"<C><a>".to_vec();
        d.extend_from_slice(v);
        d.extend_from_slice(b"</a></C>");
        from_str::<C<X>>(s(&d)).is_ok()
    };
    note(1, ok as u64);
    reach(if ok { 2 } else { 1 });
}

/// Arbitrary content for every scalar type
pub fn h04_scalars() {
    let mut v = vec![];
    for _ in 0..choose(tier(4, 5)) {
        let b = byte();
        assume((b < 0x80) & (b != b'<') & (b != b'"'));
        v.push(b);
    }
    let attr = flag();
    match choose(8) {
        0 => both::<u8>(&v, attr),
        1 => both::<i64>(&v, attr),
        2 => both::<bool>(&v, attr),
        3 => both::<char>(&v, attr),
        4 => both::<usize>(&v, attr),
        5 => both::<Sc>(&v, attr),
        6 => both::<i8>(&v, attr),
        _ => both::<String>(&v, attr),
    }
}

/// Dates, times and addresses with any one character inserted, replaced or removed
pub fn h04_temporal() {
    const V: [(&str, usize); 9] = [
        ("2024-02-29T23:59:60.123456789Z", 0),
        ("1999-01-01T00:00:00+00:00", 0),
        ("2024-02-29T23:59:59.5", 1),
        ("-0001-12-31", 2),
        ("+12345-06-07", 2),
        ("192.168.0.255", 3),
        ("2001:db8::ff:1", 3),
        ("::ffff:1.2.3.4", 3),
        ("", 4),
    ];
    let (t, mut k) = V[choose(V.len())];
    if k == 4 {
        k = choose(4);
    }
    let at = choose(t.len() + 1);
    let mut v = t.as_bytes()[..at].to_vec();
    let how = choose(3);
    if how > 0 {
        let n = v.len();
        any_char(&mut v, pick_len(0b0011));
        let b = v[n];
        assume((b != b'<') & (b != b'"') & (b != b'&'));
    }
    v.extend_from_slice(&t.as_bytes()[if how != 1 && at < t.len() { at + 1 } else { at }..]);
    match k {
        0 => both::<DateTime<Utc>>(&v, flag()),
        1 => both::<NaiveDateTime>(&v, flag()),
        2 => both::<NaiveDate>(&v, flag()),
        _ => both::<IpAddr>(&v, flag()),
    }
}

/// The cursor itself, driven arbitrarily
pub fn h04_cursor() {
    let mut v = b"<R>".to_vec();
    for _ in 0..choose(tier(3, 4)) {
        v.extend_from_slice(["<e x=\"1\">", "</e>", "<s/>", "t", "<p:e xmlns:p=\"u\">", "</p:e>", "<", "<!---->"][choose(8)].as_bytes());
    }
    if flag() {
        v.extend_from_slice(b"</R>");
    }
    let mut d = match Deserializer::new(s(&v)) {
        Ok(d) => d,
        Err(_) => {
            reach(2);
            return;
        }
    };
    drive(&mut d, tier(3, 4));
    reach(1);
}
fn drive(d: &mut Deserializer<'_, '_>, n: usize) {
    for _ in 0..n {
        match choose(6) {
            0 => match d.next() {
                Some(Ok(de::Node::Open(e))) => {
                    let _ = d.element_id(&e);
                    let mut c = d.nested(e);
                    drive(&mut c, n - 1);
                }
                Some(Ok(node)) => {
                    let mut c = d.for_node(node);
                    let _ = c.take_str();
                }
                _ => {}
            },
            1 => {
                let _ = d.take_str();
            }
            2 => {
                let _ = d.ignore();
            }
            3 => {
                let _ = d.deserialize::<AnyElement>();
            }
            4 => {
                let _ = d.namespace("p");
                let _ = d.parent();
            }
            _ => {
                let _ = d.next();
                let mut c = d.for_node(de::Node::Text("".into()));
                let _ = c.next();
            }
        }
    }
}

/// Long values, names and references, with a multi-byte character across any byte offset
pub fn h04_long() {
    let n = tier(300, 1100);
    let unit = 2 + choose(3);
    let mut v = vec![];
    let b = byte();
    assume((b >= 0x20) & (b < 0x7f) & (b != b'<') & (b != b'"') & (b != b'&'));
    v.push(b);
    for _ in 0..choose(unit) {
        v.push(b'a');
    }
    filler(&mut v, n, unit);
    let attr = flag();
    match choose(11) {
        0 => both::<u8>(&v, attr),
        1 => both::<i64>(&v, attr),
        2 => both::<bool>(&v, attr),
        3 => both::<char>(&v, attr),
        4 => both::<Sc>(&v, attr),
        5 => both::<String>(&v, attr),
        6 => both::<DateTime<Utc>>(&v, attr),
        7 => both::<NaiveDateTime>(&v, attr),
        8 => both::<NaiveDate>(&v, attr),
        9 => both::<IpAddr>(&v, attr),
        _ => both::<Fs>(&v, attr),
    }
}
#[derive(Debug)]
struct Fs;
impl std::str::FromStr for Fs {
    type Err = ();
    fn from_str(x: &str) -> Result<Self, ()> {
        if x.len() > 3 {
            Err(())
        } else {
            Ok(Fs)
        }
    }
}
impl<'xml> FromXml<'xml> for Fs {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        field == Some(id)
    }
    fn deserialize<'cx>(into: &mut Option<Self>, field: &'static str, d: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        from_xml_str(into, field, d)
    }
    type Accumulator = Option<Self>;
    const KIND: Kind = Kind::Scalar;
}

/// Long names, prefixes and references wherever they are reported, skipped or kept
pub fn h04_long_names() {
    const AT: [(&str, &str); 14] = [
        ("<", "/>"),
        ("<R><", "/></R>"),
        ("<R ", "='1'/>"),
        ("<R p:", "='1' xmlns:p='v'/>"),
        ("<R ", ":b='1'/>"),
        ("<R><", ":e/></R>"),
        ("<R>&", ";</R>"),
        ("<R a='&", "'/>"),
        ("<R xmlns:", "='v'/>"),
        ("<R xmlns='", "'/>"),
        ("<R><t><", "/></t></R>"),
        ("<R><s><", "/></s></R>"),
        ("<R><!--", "--></R>"),
        ("<R><t></", "></R>"),
    ];
    let (a, b) = AT[choose(AT.len())];
    let unit = 2 + choose(3);
    let mut v = a.as_bytes().to_vec();
    for _ in 0..choose(unit) {
        v.push(b'a');
    }
    filler(&mut v, tier(300, 1100), unit);
    let n = byte();
    assume(n < 0x80);
    v.push(n);
    v.extend_from_slice(b.as_bytes());
    let x = s(&v);
    read(x, choose(4));
}
