//! Escaping: whatever string is written, an independent parser reads back exactly that string, in
//! exactly that place, and nothing else.
use crate::gen::*;
use crate::refxml::{self, El};
use crate::sx::*;
use instant_xml::*;
use std::borrow::Cow;
use std::fmt;

fn out<T: ToXml + ?Sized>(v: &T) -> Vec<u8> {
    match to_string(v) {
        Ok(x) => {
            note_str(1, &x);
            x.into_bytes()
        }
        Err(_) => fail(90),
    }
}

fn root(x: &[u8]) -> El {
    match refxml::parse(x) {
        Ok(e) => e,
        Err(_) => fail(91),
    }
}

fn only_text(e: &El, name: &str, want: &[u8]) {
    check(e.is("", name), 1);
    check(e.attrs.is_empty() && e.children.is_empty(), 2);
    check(e.text == want, 3);
}

#[derive(ToXml)]
struct S {
    a: String,
}

/// element content: `String`
pub fn h02_text() {
    let v = xml_string(3, 0b0111);
    let x = out(&S { a: v.clone() });
    let e = root(&x);
    check(e.is("", "S") && e.attrs.is_empty() && e.children.len() == 1 && e.text.is_empty(), 4);
    only_text(&e.children[0], "a", v.as_bytes());
    reach(1);
}

#[derive(ToXml)]
struct A {
    #[xml(attribute)]
    a: String,
    #[xml(attribute)]
    b: u8,
}

/// attribute value: `String`
pub fn h02_attr() {
    let v = xml_string(3, 0b0111);
    let x = out(&A { a: v.clone(), b: 7 });
    let e = root(&x);
    check(e.is("", "A") && e.children.is_empty() && e.text.is_empty(), 5);
    check(e.attrs.len() == 2, 6);
    check(e.attr("", "a") == Some(v.as_bytes()), 7);
    check(e.attr("", "b") == Some(b"7"), 8);
    reach(1);
}

#[derive(ToXml)]
struct D {
    #[xml(direct)]
    t: String,
}

/// direct text
pub fn h02_direct() {
    let v = xml_string(2, 0b1111);
    let x = out(&D { t: v.clone() });
    only_text(&root(&x), "D", v.as_bytes());
    reach(1);
}

#[derive(ToXml)]
struct Many<'a> {
    #[xml(attribute)]
    c1: char,
    #[xml(attribute)]
    c2: Cow<'a, str>,
    c3: char,
    c4: Cow<'a, str>,
    c5: &'a str,
    c6: Option<String>,
    c7: Box<String>,
    c8: Vec<String>,
}

/// every string-like type, in attribute or element position
pub fn h02_types() {
    let k = choose(8);
    let mut v = Vec::new();
    xml_char(&mut v, 0b1111);
    let c = s(&v).chars().next().unwrap();
    // the other types take a second character
    if k != 0 && k != 2 {
        let n = choose(2);
        for _ in 0..n {
            xml_char(&mut v, 0b0011);
        }
    }
    let t = s(&v);
    let z = |n: usize| if k == n { t } else { "z" };
    let m = Many {
        c1: if k == 0 { c } else { 'z' },
        c2: Cow::Borrowed(z(1)),
        c3: if k == 2 { c } else { 'z' },
        c4: Cow::Owned(z(3).to_string()),
        c5: z(4),
        c6: Some(z(5).to_string()),
        c7: Box::new(z(6).to_string()),
        c8: vec!["z".to_string(), z(7).to_string(), "z".to_string()],
    };
    let x = out(&m);
    let e = root(&x);
    let want = |n: usize| if k == n { &v[..] } else { &b"z"[..] };
    check(e.is("", "Many") && e.text.is_empty() && e.attrs.len() == 2 && e.children.len() == 8, 10);
    check(e.attr("", "c1") == Some(want(0)), 11);
    check(e.attr("", "c2") == Some(want(1)), 12);
    for (i, n) in ["c3", "c4", "c5", "c6", "c7"].iter().enumerate() {
        only_text(&e.children[i], n, want(i + 2));
    }
    only_text(&e.children[5 + 0], "c8", b"z");
    only_text(&e.children[5 + 1], "c8", want(7));
    only_text(&e.children[5 + 2], "c8", b"z");
    reach(1);
}

struct Shown(String);
impl fmt::Display for Shown {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl ToXml for Shown {
    fn serialize<W: fmt::Write + ?Sized>(&self, field: Option<Id<'_>>, ser: &mut Serializer<'_, W>) -> Result<(), Error> {
        display_to_xml(&self.0, field, ser)
    }
}
#[derive(ToXml)]
struct Wrap {
    #[xml(attribute)]
    a: Shown,
    b: Shown,
}

/// the public helper for `Display` types
pub fn h02_display() {
    let v = xml_string(2, 0b0011);
    let k = choose(2);
    let w = |n: usize| Shown(if k == n { v.clone() } else { "z".to_string() });
    let x = out(&Wrap { a: w(0), b: w(1) });
    let e = root(&x);
    check(e.is("", "Wrap") && e.attrs.len() == 1 && e.children.len() == 1 && e.text.is_empty(), 20);
    check(e.attr("", "a") == Some(if k == 0 { v.as_bytes() } else { b"z" }), 21);
    only_text(&e.children[0], "b", if k == 1 { v.as_bytes() } else { b"z" });
    reach(1);
}

#[derive(ToXml, FromXml, Clone, Copy, PartialEq, Debug)]
#[xml(scalar)]
enum Op {
    #[xml(rename = "<")]
    Lt,
    #[xml(rename = "a&b")]
    And,
    #[xml(rename = "\"")]
    Quote,
    #[xml(rename = "'>")]
    Apos,
    Plain,
}
#[derive(ToXml)]
struct Ops {
    #[xml(attribute)]
    a: Op,
    e: Op,
    #[xml(attribute)]
    s: String,
}

/// scalar enum names with markup characters, next to a symbolic string
pub fn h02_enum() {
    const ALL: [(Op, &[u8]); 5] =
        [(Op::Lt, b"<"), (Op::And, b"a&b"), (Op::Quote, b"\""), (Op::Apos, b"'>"), (Op::Plain, b"Plain")];
    let (a, e) = (choose(5), choose(5));
    let v = xml_string(1, 0b0001);
    let x = out(&Ops { a: ALL[a].0, e: ALL[e].0, s: v.clone() });
    let r = root(&x);
    check(r.is("", "Ops") && r.attrs.len() == 2 && r.children.len() == 1 && r.text.is_empty(), 30);
    check(r.attr("", "a") == Some(ALL[a].1), 31);
    check(r.attr("", "s") == Some(v.as_bytes()), 32);
    only_text(&r.children[0], "e", ALL[e].1);
    reach(1);
}

/// a string serialised on its own, and through the low-level serializer
pub fn h02_bare() {
    let v = xml_string(3, 0b0011);
    let k = choose(3);
    match k {
        0 => {
            let x = out(v.as_str());
            match refxml::unescape(&x) {
                Ok(y) => check(y == v.as_bytes(), 40),
                Err(_) => fail(41),
            }
        }
        _ => {
            let mut o = String::new();
            {
                let mut ser = Serializer::new(&mut o);
                let r = (|| {
                    let e = ser.write_start("r", "", None::<ser::Context<0>>)?;
                    if k == 1 {
                        ser.write_attr("q", "", v.as_str())?;
                        ser.end_empty()
                    } else {
                        ser.end_start()?;
                        v.as_str().serialize(None, &mut ser)?;
                        ser.write_close(e)
                    }
                })();
                check(r.is_ok(), 42);
            }
            let e = root(o.as_bytes());
            check(e.is("", "r") && e.children.is_empty(), 43);
            if k == 1 {
                check(e.text.is_empty() && e.attrs.len() == 1 && e.attr("", "q") == Some(v.as_bytes()), 44);
            } else {
                check(e.attrs.is_empty() && e.text == v.as_bytes(), 45);
            }
        }
    }
    reach(1);
}

#[derive(ToXml)]
struct Rich<'a> {
    #[xml(attribute)]
    a: &'a str,
    #[xml(attribute)]
    b: String,
    e: Cow<'a, str>,
    f: Option<String>,
}
/// longer strings made of fragments that look like markup and of symbolic characters
pub fn h02_rich() {
    let v = rich_string(tier(3, 4));
    rich(&v)
}
fn rich(v: &str) {
    let x = out(&Rich { a: v, b: v.to_string(), e: Cow::Borrowed(v), f: Some(v.to_string()) });
    let e = root(&x);
    check(e.is("", "Rich") && e.attrs.len() == 2 && e.children.len() == 2 && e.text.is_empty(), 60);
    check(e.attr("", "a") == Some(v.as_bytes()) && e.attr("", "b") == Some(v.as_bytes()), 61);
    only_text(&e.children[0], "e", v.as_bytes());
    only_text(&e.children[1], "f", v.as_bytes());
    reach(1);
}
/// every string of six (thorough: seven) ASCII characters
pub fn h02_ascii() {
    let mut v = Vec::new();
    for _ in 0..tier(6, 7) {
        push_char(&mut v, 1)
    }
    let v = string(v);
    let x = out(&D { t: v.clone() });
    only_text(&root(&x), "D", v.as_bytes());
    reach(1);
}
/// any character anywhere in a long string
pub fn h02_long() {
    let n = size(tier(300, 1030));
    let mut v = vec![];
    filler(&mut v, n, [1, 3][choose(2)]);
    push_char(&mut v, 1);
    match choose(3) {
        0 => {}
        1 => filler(&mut v, n, 1),
        _ => {
            v.push(b'<');
            filler(&mut v, 40, 2)
        }
    }
    rich(s(&v))
}
