//! What is written depends on the value alone: not on when, how often or after what it is written.
use crate::gen::*;
use crate::sx::*;
use instant_xml::*;

const W: &str = "w";
const V: &str = "v";
#[derive(ToXml, FromXml, Clone, Debug, PartialEq)]
#[xml(rename = "a", ns("u", p = "v", q = "w"))]
struct A {
    #[xml(attribute, ns(W))]
    k: Option<u8>,
    #[xml(ns("v"))]
    t: Option<String>,
    n: Vec<Fwd>,
}
#[derive(ToXml, FromXml, Clone, Debug, PartialEq)]
#[xml(rename = "b", ns("v", p = "w"))]
struct B {
    #[xml(ns("w"))]
    t: Option<String>,
    n: Vec<Fwd>,
}
#[derive(ToXml, FromXml, Clone, Debug, PartialEq)]
#[xml(rename = "c", ns("w", r = "u", s = "v", t = "x", o = "y", z = "z"))]
struct C {
    #[xml(attribute, ns(V))]
    k: Option<u8>,
    n: Vec<Fwd>,
}
#[derive(ToXml, FromXml, Clone, Debug, PartialEq)]
struct D {
    n: Vec<Fwd>,
}
#[derive(ToXml, FromXml, Clone, Debug, PartialEq)]
#[xml(forward)]
enum Fwd {
    A(A),
    B(B),
    C(C),
    D(D),
}
fn item(depth: usize, text: bool) -> Fwd {
    let k = if depth == 0 { 0 } else { choose(2) };
    let n = if k > 0 { vec![item(depth - 1, false)] } else { vec![] };
    let t = if text { Some(xml_string(1, 0b0101)) } else { None };
    match choose(5) {
        0 => Fwd::A(A { k: None, t, n }),
        1 => Fwd::B(B { t, n }),
        2 => Fwd::C(C { k: None, n }),
        3 => Fwd::C(C { k: Some(byte() % 10), n }),
        _ => Fwd::D(D { n }),
    }
}
fn out<T: ToXml + ?Sized>(v: &T) -> String {
    match to_string(v) {
        Ok(x) => x,
        Err(_) => fail(1),
    }
}
fn same(a: &str, b: &str, code: u32) {
    check(a.len() == b.len(), code);
    check(a == b, code + 1);
}
/// again, and after something else
pub fn h27_again() {
    let v = item(2, true);
    let a = out(&v);
    show(a.as_bytes());
    note_str(1, &a);
    match choose(4) {
        0 => same(&a, &out(&v), 11),
        1 => same(&a, &out(&v.clone()), 11),
        2 => {
            // something else in between, and a failure
            let _ = to_writer(&v, &mut Full);
            let _ = out(&A { k: None, t: None, n: vec![item(0, false)] });
            let _ = from_str::<Fwd>(&a[..a.len() - 1]);
            same(&a, &out(&v), 13)
        }
        _ => {
            // several documents into one output
            let mut o = String::from("<!-- -->");
            check(to_writer(&v, &mut o).is_ok() && to_writer(&v, &mut o).is_ok(), 15);
            same(&format!("<!-- -->{a}{a}"), &o, 16)
        }
    }
    reach(1);
}
struct Full;
impl std::fmt::Write for Full {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Err(std::fmt::Error)
    }
}
/// a list is its items, one after the other
pub fn h27_list() {
    let v = vec![item(1, false), item(1, false), item(tier(0, 1), false)];
    let parts: String = v.iter().map(out).collect();
    show(parts.as_bytes());
    note_str(1, &parts);
    same(&parts, &out(&v), 21);
    same(&format!("<D>{parts}</D>"), &out(&D { n: v }), 23);
    reach(1);
}
/// an element adds nothing to what it holds but its own declarations
pub fn h27_nested() {
    let inner = item(2, true);
    let a = out(&inner);
    show(a.as_bytes());
    // no declaration is in force in D, so that its content is written as on its own
    same(&format!("<D>{a}</D>"), &out(&D { n: vec![inner.clone()] }), 31);
    same(&format!("<D><D>{a}</D>{a}</D>"), &out(&D { n: vec![Fwd::D(D { n: vec![inner.clone()] }), inner.clone()] }), 33);
    // within another namespace: once more is the same again
    let w = |n: Vec<Fwd>| out(&A { k: None, t: None, n });
    let (one, two, three) = (w(vec![inner.clone()]), w(vec![inner.clone(), inner.clone()]), w(vec![inner.clone(), inner.clone(), inner]));
    check(two.len() - one.len() == three.len() - two.len(), 35);
    let part = two.len() - one.len();
    let end = two.len() - "</a>".len();
    same(&two[end - part..end], &two[end - 2 * part..end - part], 36);
    same(&format!("{}{}</a>", &two[..end], &two[end - part..end]), &three, 38);
    reach(1);
}
/// reading is a function of the document
pub fn h27_read() {
    let v = item(tier(1, 2), false);
    let mut a = out(&v).into_bytes();
    match choose(3) {
        0 => {}
        1 => {
            let i = choose(a.len());
            a.truncate(i);
        }
        _ => {
            let i = choose(a.len());
            assume(a[i] < 0x80);
            a[i] = [b' ', b'<', b'"', b'u'][choose(4)];
        }
    }
    show(&a);
    let r = from_str::<Fwd>(s(&a));
    let _ = from_str::<A>("<a xmlns='u' xmlns:q='v' q:t=''><q:t>&bad;");
    let _ = from_str::<AnyElement>(s(&a));
    check(r == from_str::<Fwd>(s(&a)), 41);
    let copy = a.clone();
    check(r == from_str::<Fwd>(s(&copy)), 42);
    reach(if r.is_ok() { 1 } else { 2 });
}
