//! An element reads the same wherever it stands, and leaves its surroundings alone.
use crate::sx::*;
use instant_xml::*;

#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "h", ns("z"))]
struct One<T> {
    f: T,
    z: u8,
}
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "h", ns("z"))]
struct Opt<T> {
    #[xml(attribute)]
    a: Option<String>,
    f: Option<T>,
    z: u8,
}
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "h", ns("z"))]
struct Many<T> {
    z: Vec<u8>,
    f: Vec<T>,
}
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "h", ns("z"))]
struct Tup<T>(T, u8);
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "g", ns("z"))]
struct Outer<T> {
    z: Option<u8>,
    h: One<Box<T>>,
}
/// a struct beside whose content an element may stand
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "h", ns("z"))]
struct Mixed<T> {
    f: T,
    #[xml(direct)]
    t: Option<String>,
}

#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "k", ns("u", p = "v"))]
struct Kid {
    #[xml(attribute)]
    n: Option<u8>,
    #[xml(attribute, ns("v"))]
    m: Option<String>,
    r: String,
    o: Option<bool>,
    l: Vec<Unit>,
}
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "k", ns("u"))]
struct Text {
    #[xml(attribute)]
    n: u8,
    #[xml(direct)]
    t: String,
}
#[derive(FromXml, Debug, PartialEq)]
#[xml(ns("u"))]
struct Unit;
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "k", ns("u"))]
struct Pair(Unit, Option<Unit>);
#[derive(FromXml, Debug, PartialEq)]
#[xml(forward)]
enum Fwd {
    K(Kid),
    U(Unit),
}
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "k", ns("u"))]
struct Own {
    k: Option<Box<Own>>,
    r: Vec<String>,
}

const JUNK: [&str; 7] = [
    "",
    "<j/>",
    "<k xmlns='v' xmlns:p='q' p:n='x'><r/></k>",
    "<!-- c -->",
    "<p:k xmlns:p='j'><p:z/>t</p:k>",
    "<p:j xmlns:p='j' p:n=''/>",
    "<z xmlns='j' xmlns:p='j'/>",
];

fn ok<T: PartialEq>(want: &Result<T, Error>, got: Result<&T, &Error>, code: u32) {
    match (want, got) {
        (Ok(a), Ok(b)) => {
            check(a == b, code);
            reach(1);
        }
        (Err(a), Err(b)) => {
            check(a == b, code + 1);
            reach(2);
        }
        _ => fail(code + 2),
    }
}

/// `e`: one element with its own declarations
fn everywhere<T: FromXmlOwned + PartialEq>(e: &[u8]) {
    let want = from_str::<T>(s(e));
    // what the root must be is not what a field has to be
    if let Err(Error::UnexpectedValue(m)) = &want {
        assume(!m.starts_with("unexpected root"));
    }
    let (a, b) = (JUNK[choose(7)], JUNK[[0, 2, 5][choose(tier(2, 3))]]);
    let cat = |parts: &[&[u8]]| parts.concat();
    match choose(8) {
        0 => {
            let d = cat(&[b"<h xmlns='z' xmlns:p='w'>", a.as_bytes(), e, b.as_bytes(), b"<z>7</z></h>"]);
            show(&d);
            let r = from_str::<One<T>>(s(&d));
            check(r.as_ref().map_or(true, |r| r.z == 7), 1);
            ok(&want, r.as_ref().map(|r| &r.f), 10)
        }
        1 => {
            let mut parts: Vec<&[u8]> = vec![b"<p:h xmlns:p='z' a='&lt;' xmlns='u'>", a.as_bytes(), e, b.as_bytes(), b"</p:h>"];
            parts.insert([1, 4][choose(2)], b"<p:z>7</p:z>");
            let d = cat(&parts);
            show(&d);
            let r = from_str::<Opt<T>>(s(&d));
            check(r.as_ref().map_or(true, |r| r.z == 7 && r.a.as_deref() == Some("<") && r.f.is_some()), 2);
            match &r {
                Ok(Opt { f: Some(f), .. }) => ok(&want, Ok(f), 20),
                Ok(_) => fail(3),
                Err(x) => ok(&want, Err(x), 20),
            }
        }
        2 => {
            // as the last of several; a failure is that of the first
            let d = cat(&[b"<h xmlns='z'>", e, a.as_bytes(), b"<z>1</z>", e, b.as_bytes(), b"<z>2</z>", e, b"</h>"]);
            show(&d);
            let r = from_str::<Many<T>>(s(&d));
            match &r {
                Ok(m) => {
                    check(m.f.len() == 3 && m.z == [1, 2], 4);
                    for f in &m.f {
                        ok(&want, Ok(f), 30)
                    }
                }
                Err(x) => ok(&want, Err(x), 30),
            }
        }
        3 => {
            let d = cat(&[b"<h xmlns='z'>", e, b"7</h>"]);
            show(&d);
            let r = from_str::<Tup<T>>(s(&d));
            check(r.as_ref().map_or(true, |r| r.1 == 7), 5);
            ok(&want, r.as_ref().map(|r| &r.0), 40)
        }
        4 => {
            let d = cat(&[b"<g xmlns='z'>", a.as_bytes(), b"<h xmlns:p='y'>", e, b"<z>7</z></h>", b.as_bytes(), b"<z>8</z></g>"]);
            show(&d);
            let r = from_str::<Outer<T>>(s(&d));
            check(r.as_ref().map_or(true, |r| r.h.z == 7 && r.z == Some(8)), 6);
            ok(&want, r.as_ref().map(|r| &*r.h.f), 50)
        }
        5 => {
            let d = cat(&[b"<h xmlns='z'>t", a.as_bytes(), e, b"</h>"]);
            show(&d);
            let r = from_str::<Mixed<T>>(s(&d));
            check(r.as_ref().map_or(true, |r| r.t.as_deref() == Some("t")), 7);
            ok(&want, r.as_ref().map(|r| &r.f), 60)
        }
        6 => {
            // through the cursor
            let d = cat(&[b"<x>", a.as_bytes(), e, b.as_bytes(), b"</x>"]);
            show(&d);
            let Ok(mut c) = Deserializer::new(s(&d)) else { fail(8) };
            if a.starts_with("<") && !a.starts_with("<!") {
                match c.next() {
                    Some(Ok(de::Node::Open(j))) => check(c.nested(j).ignore().is_ok(), 9),
                    _ => fail(71),
                }
            }
            match c.next() {
                Some(Ok(de::Node::Open(j))) => {
                    let r = c.nested(j).deserialize::<T>();
                    ok(&want, r.as_ref(), 72);
                    if r.is_ok() {
                        check(c.ignore().is_ok(), 75);
                        check(c.next().is_none(), 76);
                    }
                }
                // the opening tag itself is not well-formed
                Some(Err(x)) => ok(&want, Err(&x), 77),
                _ => fail(79),
            }
        }
        _ => {
            // at the end of a long road
            let n = choose(3);
            let (pre, post) = ("<g xmlns='z'><h><f/></h></g>".repeat(n), "</y>".repeat(n));
            let d = cat(&[b"<h xmlns='z'>", "<y>".repeat(n).as_bytes(), pre.as_bytes(), post.as_bytes(), a.as_bytes(), e, b"<z>7</z></h>"]);
            show(&d);
            let r = from_str::<One<Option<T>>>(s(&d));
            match &r {
                Ok(One { f: Some(f), z: 7 }) => ok(&want, Ok(f), 80),
                Ok(_) => fail(83),
                Err(x) => ok(&want, Err(x), 80),
            }
        }
    }
}
fn sym() -> u8 {
    let b = byte();
    assume((b > 0x20) & (b < 0x7f) & (b != b'<') & (b != b'>') & (b != b'\'') & (b != b'"') & (b != b'&'));
    b
}
/// an element k of namespace u: attributes and contents, right and wrong
fn element() -> Vec<u8> {
    let p = flag();
    let mut v = if p { b"<q:k xmlns:q='u' xmlns='z'".to_vec() } else { b"<k xmlns='u'".to_vec() };
    match choose(4) {
        0 => {}
        1 => v.extend_from_slice(&[b" n='", &[sym()][..], b"'"].concat()),
        2 => v.extend_from_slice(b" n='5' xmlns:p='v' p:m='x'"),
        _ => v.extend_from_slice(b" n='300' j='1'"),
    }
    let pre = if p { "q:" } else { "" };
    let mut open = true;
    for i in 0..tier(2, 3) {
        let c = choose(8);
        if c == 0 {
            break;
        }
        if i == 0 {
            v.push(b'>');
            open = false;
        }
        let t = match c {
            1 => format!("<{pre}r>{}</{pre}r>", sym() as char),
            2 => format!("<{pre}o>true</{pre}o>"),
            3 => format!("<{pre}Unit/>"),
            4 => "x&amp;".to_string(),
            5 => "<r xmlns='z'/>".to_string(),
            6 => format!("<{pre}k><{pre}r>a</{pre}r></{pre}k>"),
            _ => "&bad;".to_string(),
        };
        v.extend_from_slice(t.as_bytes());
    }
    v.extend_from_slice(if open { "/>".into() } else { format!("</{pre}k>") }.as_bytes());
    v
}
pub fn h23_struct() {
    everywhere::<Kid>(&element())
}
pub fn h23_text() {
    everywhere::<Text>(&element())
}
pub fn h23_tuple() {
    everywhere::<Pair>(&element())
}
pub fn h23_forward() {
    match flag() {
        true => everywhere::<Fwd>(&element()),
        false => {
            let d = ["<Unit xmlns='u'/>", "<p:Unit xmlns:p='u' xmlns='z'></p:Unit>", "<Unit xmlns='u'>t</Unit>", "<Unit xmlns='u'><k/></Unit>"][choose(4)];
            match flag() {
                true => everywhere::<Fwd>(d.as_bytes()),
                false => everywhere::<Unit>(d.as_bytes()),
            }
        }
    }
}
pub fn h23_own() {
    everywhere::<Own>(&element())
}
pub fn h23_any() {
    // any element: not within another type, which would take the first it meets
    let e = element();
    let want = from_str::<AnyElement>(s(&e));
    let a = JUNK[choose(7)];
    let d = [b"<x xmlns:p='w'>", a.as_bytes(), &e[..], b"</x>"].concat();
    show(&d);
    let r = from_str::<AnyElement>(s(&d));
    match &r {
        Ok(x) => match x.children.last() {
            Some(c) => ok(&want, Ok(c), 91),
            None => fail(94),
        },
        Err(x) => ok(&want, Err(x), 91),
    }
}
