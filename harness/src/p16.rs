//! Forward enums take the variant whose element stands there, and are written as their content;
//! transparent structs are their fields' elements in the surrounding element.
use crate::refxml;
use crate::sx::*;
use instant_xml::*;

#[derive(FromXml, ToXml, Debug, PartialEq, Clone)]
#[xml(rename = "a")]
struct Txt {
    #[xml(attribute)]
    k: Option<String>,
    #[xml(direct)]
    t: String,
}
#[derive(FromXml, ToXml, Debug, PartialEq, Clone)]
#[xml(rename = "b")]
struct Kids {
    x: Option<u8>,
    a: Option<Txt>,
}
#[derive(FromXml, ToXml, Debug, PartialEq, Clone)]
#[xml(rename = "a", ns("u"))]
struct Spaced {
    x: Option<String>,
}
#[derive(FromXml, ToXml, Debug, PartialEq, Clone)]
#[xml(rename = "ab")]
struct Unit;
#[derive(FromXml, ToXml, Debug, PartialEq, Clone)]
#[xml(rename = "c", ns("u"))]
struct Tup(Txt, Txt);
#[derive(FromXml, ToXml, Debug, PartialEq, Clone)]
#[xml(forward)]
enum Inner {
    Unit(Unit),
    Tup(Tup),
}
#[derive(FromXml, ToXml, Debug, PartialEq, Clone)]
#[xml(forward)]
enum Fw {
    Txt(Txt),
    Kids(Box<Kids>),
    Spaced(Spaced),
    Inner(Inner),
}
#[derive(FromXml, ToXml, Debug, PartialEq)]
#[xml(rename = "r")]
struct One {
    f: Fw,
}
#[derive(FromXml, ToXml, Debug, PartialEq)]
#[xml(rename = "r")]
struct Opt {
    f: Option<Fw>,
}
#[derive(FromXml, ToXml, Debug, PartialEq)]
#[xml(rename = "r")]
struct Many {
    f: Vec<Fw>,
}
#[derive(FromXml, ToXml, Debug, PartialEq)]
#[xml(rename = "r")]
struct Two(Fw, Fw);

fn letter(v: &mut Vec<u8>) {
    let b = byte();
    assume(((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')));
    v.push(b)
}
fn word() -> String {
    let mut v = vec![];
    letter(&mut v);
    crate::gen::string(v)
}

/// an element and the value it stands for, if any variant is named so
fn element(d: &mut Vec<u8>) -> Option<Fw> {
    let mut name = vec![];
    for _ in 0..1 + choose(2) {
        letter(&mut name);
    }
    let ns = choose(3);
    let pre = choose(2) == 1;
    d.push(b'<');
    if pre {
        d.extend_from_slice(b"p:");
    }
    d.extend_from_slice(&name);
    let uri = ["", "u", "v"][ns];
    if pre {
        // without a namespace there is no prefix to use
        assume(ns > 0);
        d.extend_from_slice(b" xmlns:p='");
    } else {
        d.extend_from_slice(b" xmlns='");
    }
    d.extend_from_slice(uri.as_bytes());
    d.push(b'\'');
    let w = word();
    let c = choose(4);
    match c {
        0 => d.extend_from_slice(b"/>"),
        1 => {
            d.extend_from_slice(b" k='");
            d.extend_from_slice(w.as_bytes());
            d.extend_from_slice(b"'>T<!--c-->x");
        }
        2 => {
            d.extend_from_slice(b"><a xmlns=''>");
            d.extend_from_slice(w.as_bytes());
            d.extend_from_slice(b"</a>");
        }
        _ => {
            d.extend_from_slice(b"><a xmlns='' k='1'>");
            d.extend_from_slice(w.as_bytes());
            d.extend_from_slice(b"</a><a xmlns=''/>");
        }
    }
    if c != 0 {
        d.extend_from_slice(b"</");
        if pre {
            d.extend_from_slice(b"p:");
        }
        d.extend_from_slice(&name);
        d.push(b'>');
    }
    let txt = |k: Option<&str>, t: &str| Txt { k: k.map(str::to_string), t: t.to_string() };
    match (uri, &name[..]) {
        ("", b"a") => {
            // text elements ignore children
            Some(Fw::Txt(match c {
                1 => txt(Some(&w), "Tx"),
                _ => txt(None, ""),
            }))
        }
        ("", b"b") => {
            // a second <a> is a duplicate
            assume(c != 3);
            Some(Fw::Kids(Box::new(Kids { x: None, a: if c == 2 { Some(txt(None, &w)) } else { None } })))
        }
        ("u", b"a") => Some(Fw::Spaced(Spaced { x: None })),
        ("", b"ab") => Some(Fw::Inner(Inner::Unit(Unit))),
        ("u", b"c") => {
            // a pair needs its two elements
            assume(c == 3);
            Some(Fw::Inner(Inner::Tup(Tup(txt(Some("1"), &w), txt(None, "")))))
        }
        _ => None,
    }
}

fn alone() {
    let mut d = vec![];
    let want = element(&mut d);
    show(&d);
    match (from_str::<Fw>(s(&d)), want) {
        (Ok(v), Some(w)) => {
            check(v == w, 1);
            reach(1)
        }
        (Err(Error::UnexpectedValue(_)), None) => reach(2),
        _ => fail(2),
    }
}
/// as root
pub fn h16_root() {
    alone()
}
/// as a field
pub fn h16_field() {
    let pos = choose(3);
    let mut d = b"<r>".to_vec();
    let mut want = vec![];
    let n = choose(tier(2, 3));
    for i in 0..n {
        if i > 0 && flag() {
            d.extend_from_slice(b"<zz><a/></zz> ");
        }
        match element(&mut d) {
            Some(v) => want.push(v),
            None => reach(2),
        }
    }
    d.extend_from_slice(b"</r>");
    show(&d);
    let x = s(&d);
    match pos {
        0 => match (from_str::<One>(x), want.len()) {
            (Ok(v), 1) => check(v.f == want[0], 11),
            (Err(Error::MissingValue(_)), 0) => {}
            (Err(Error::DuplicateValue(_)), k) => check(k > 1, 12),
            _ => fail(13),
        },
        1 => match (from_str::<Opt>(x), want.len()) {
            (Ok(v), 0 | 1) => check(v.f.as_ref() == want.first(), 14),
            (Err(Error::DuplicateValue(_)), k) => check(k > 1, 15),
            _ => fail(16),
        },
        _ => match from_str::<Many>(x) {
            Ok(v) => check(v.f == want, 17),
            Err(_) => fail(18),
        },
    }
    reach(1);
}
/// in a tuple struct
pub fn h16_tuple() {
    let mut d = b"<r>".to_vec();
    let first = choose(5);
    d.extend_from_slice([&b"<a>1</a>"[..], b"<b/>", b"<a xmlns='u'/>", b"<zz/>", b""][first]);
    let a = [
        Some(Fw::Txt(Txt { k: None, t: "1".into() })),
        Some(Fw::Kids(Box::new(Kids { x: None, a: None }))),
        Some(Fw::Spaced(Spaced { x: None })),
        None,
        None,
    ][first]
        .clone();
    let b = element(&mut d);
    d.extend_from_slice(b"</r>");
    show(&d);
    match (from_str::<Two>(s(&d)), a, b) {
        (Ok(v), Some(a), Some(b)) => {
            check(v == Two(a, b), 21);
            reach(1)
        }
        (Err(_), None, _) | (Err(_), _, None) => reach(2),
        _ => fail(22),
    }
}

fn value() -> Fw {
    let txt = |n: usize| Txt { k: if n & 1 == 1 { Some(word()) } else { None }, t: if n & 2 == 2 { word() } else { String::new() } };
    match choose(5) {
        0 => Fw::Txt(txt(choose(4))),
        1 => Fw::Kids(Box::new(Kids { x: if flag() { Some(byte()) } else { None }, a: if flag() { Some(txt(choose(4))) } else { None } })),
        2 => Fw::Spaced(Spaced { x: if flag() { Some(word()) } else { None } }),
        3 => Fw::Inner(Inner::Unit(Unit)),
        _ => Fw::Inner(Inner::Tup(Tup(txt(choose(4)), txt(choose(2))))),
    }
}
fn bare(v: &Fw) -> Result<String, Error> {
    match v {
        Fw::Txt(v) => to_string(v),
        Fw::Kids(v) => to_string(v),
        Fw::Spaced(v) => to_string(v),
        Fw::Inner(Inner::Unit(v)) => to_string(v),
        Fw::Inner(Inner::Tup(v)) => to_string(v),
    }
}
/// written as the content of the variant, and read back as the same variant
pub fn h16_write() {
    let v = value();
    let Ok(b) = bare(&v) else { fail(31) };
    let Ok(x) = to_string(&v) else { fail(32) };
    show(x.as_bytes());
    note_str(1, &x);
    check(x == b, 33);
    check(matches!(from_str::<Fw>(&x), Ok(w) if w == v), 34);
    let w = match choose(3) {
        0 => Fw::Txt(Txt { k: None, t: "w".into() }),
        1 => Fw::Spaced(Spaced { x: None }),
        _ => Fw::Inner(Inner::Unit(Unit)),
    };
    let Ok(c) = bare(&w) else { fail(35) };
    match choose(4) {
        0 => {
            let r = One { f: v };
            let Ok(y) = to_string(&r) else { fail(36) };
            check(y == format!("<r>{b}</r>"), 37);
            check(matches!(from_str::<One>(&y), Ok(q) if q == r), 38);
        }
        1 => {
            let r = Opt { f: Some(v) };
            let Ok(y) = to_string(&r) else { fail(39) };
            check(y == format!("<r>{b}</r>"), 40);
            check(matches!(from_str::<Opt>(&y), Ok(q) if q == r), 41);
        }
        2 => {
            let r = Many { f: vec![w, v] };
            let Ok(y) = to_string(&r) else { fail(42) };
            check(y == format!("<r>{c}{b}</r>"), 43);
            check(matches!(from_str::<Many>(&y), Ok(q) if q == r), 44);
        }
        _ => {
            let r = Two(v, w);
            let Ok(y) = to_string(&r) else { fail(45) };
            check(y == format!("<r>{b}{c}</r>"), 46);
            check(matches!(from_str::<Two>(&y), Ok(q) if q == r), 47);
        }
    }
    reach(1);
}

// ---- transparent structs
macro_rules! leaf {
    ($($n:ident $t:tt $ns:tt;)*) => { $(
        #[derive(FromXml, ToXml, Debug, PartialEq, Clone)]
        #[xml(rename = $t, ns($ns))]
        struct $n { #[xml(direct)] t: String }
    )* };
}
leaf! { A "a" ""; B "b" ""; C "c" ""; D "d" ""; Au "a" "u"; E "e" ""; }
#[derive(FromXml, ToXml, Debug, PartialEq, Clone)]
#[xml(transparent)]
struct Part {
    b: B,
    c: Option<C>,
    au: Vec<Au>,
}
#[derive(FromXml, ToXml, Debug, PartialEq, Clone)]
#[xml(transparent)]
struct Wrap {
    d: Box<D>,
    part: Part,
}
#[derive(FromXml, ToXml, Debug, PartialEq, Clone)]
#[xml(rename = "r")]
struct Whole {
    #[xml(attribute)]
    k: Option<String>,
    a: A,
    w: Wrap,
    e: Option<E>,
}
#[derive(FromXml, ToXml, Debug, PartialEq, Clone)]
#[xml(rename = "r")]
struct Maybe {
    a: Option<A>,
    w: Option<Part>,
}

const TAGS: [(&str, &str); 6] = [("a", ""), ("b", ""), ("c", ""), ("d", ""), ("a", "u"), ("e", "")];

fn put(d: &mut Vec<u8>, k: usize, t: &[u8]) {
    let (n, ns) = TAGS[k];
    d.push(b'<');
    d.extend_from_slice(n.as_bytes());
    if !ns.is_empty() {
        d.extend_from_slice(b" xmlns='u'");
    }
    d.push(b'>');
    d.extend_from_slice(t);
    d.extend_from_slice(b"</");
    d.extend_from_slice(n.as_bytes());
    d.push(b'>');
}

/// every order of the elements, some of them absent or twice
pub fn h16_transparent() {
    let mut d = b"<r>".to_vec();
    let mut have: [Vec<String>; 6] = Default::default();
    // rotate and reverse the order
    let (rot, rev) = (choose(6), choose(2) == 1);
    // deviations of one or two elements: absent, twice, or unknown content beside it
    let odd = choose(7);
    let how = if odd < 6 { choose(4) } else { 0 };
    let odd2 = choose(7);
    for i in 0..6 {
        let k = (if rev { 5 - i } else { i } + rot) % 6;
        let dev = if k == odd { how } else if k == odd2 { 0 } else { 9 };
        let mut one = |d: &mut Vec<u8>| {
            let t = if k == odd || k == odd2 { word() } else { ["F", "G", "H", "I", "J", "K"][k].to_string() };
            put(d, k, t.as_bytes());
            have[k].push(t);
        };
        match dev {
            0 => {}
            1 => {
                one(&mut d);
                one(&mut d)
            }
            2 => {
                one(&mut d);
                d.extend_from_slice(b"<zz k='1'><b>no</b></zz> <c xmlns='v'/>")
            }
            3 => {
                d.extend_from_slice(b"<!--c-->");
                one(&mut d)
            }
            _ => one(&mut d),
        }
    }
    d.extend_from_slice(b"</r>");
    show(&d);
    let missing = [0, 1, 3].iter().any(|k| have[*k].is_empty());
    let twice = [0, 1, 2, 3, 5].iter().any(|k| have[*k].len() > 1);
    let got = from_str::<Whole>(s(&d));
    match got {
        Ok(v) => {
            check(!missing && !twice, 51);
            check(v.k.is_none() && v.a.t == have[0][0] && v.w.d.t == have[3][0] && v.w.part.b.t == have[1][0], 52);
            check(v.w.part.c.as_ref().map(|c| &c.t) == have[2].first(), 53);
            check(v.e.as_ref().map(|c| &c.t) == have[5].first(), 54);
            check(v.w.part.au.len() == have[4].len(), 55);
            for (x, y) in v.w.part.au.iter().zip(&have[4]) {
                check(x.t == *y, 56);
            }
            reach(1)
        }
        Err(Error::MissingValue(_)) => {
            check(missing, 57);
            reach(2)
        }
        Err(Error::DuplicateValue(_)) => {
            check(twice, 58);
            reach(3)
        }
        Err(_) => fail(59),
    }
}
/// an optional transparent struct is present if its elements are
pub fn h16_optional() {
    let mut d = b"<r>".to_vec();
    let a = flag();
    let here = flag();
    let order = flag();
    let (ta, tb, tc, tu) = (word(), word(), word(), word());
    if a && order {
        put(&mut d, 0, ta.as_bytes());
    }
    let (c, u) = if here { (flag(), choose(3)) } else { (false, 0) };
    if c {
        put(&mut d, 2, tc.as_bytes());
    }
    for _ in 0..u {
        put(&mut d, 4, tu.as_bytes());
    }
    if here {
        put(&mut d, 1, tb.as_bytes());
    }
    if a && !order {
        put(&mut d, 0, ta.as_bytes());
    }
    d.extend_from_slice(b"</r>");
    show(&d);
    let want = Maybe {
        a: if a { Some(A { t: ta }) } else { None },
        w: if here {
            Some(Part { b: B { t: tb }, c: if c { Some(C { t: tc }) } else { None }, au: vec![Au { t: tu }; u] })
        } else {
            None
        },
    };
    match from_str::<Maybe>(s(&d)) {
        Ok(v) => check(v == want, 61),
        Err(_) => fail(62),
    }
    reach(1);
}
/// only some of the required elements of an optional transparent struct: an error, not silence
pub fn h16_partial() {
    let mut d = b"<r>".to_vec();
    let (c, u) = (flag(), choose(2));
    if c {
        put(&mut d, 2, word().as_bytes());
    }
    if u > 0 || !c {
        put(&mut d, 4, word().as_bytes());
    }
    d.extend_from_slice(b"</r>");
    show(&d);
    match from_str::<Maybe>(s(&d)) {
        Ok(_) => fail(71),
        Err(Error::MissingValue(_)) => {}
        Err(_) => fail(72),
    }
    reach(1);
}
/// written as its elements, in the order of the fields
pub fn h16_inline_write() {
    let (wa, wb, wc, wd, we) = (word(), word(), word(), word(), word());
    let n = choose(3);
    let (c, e, k) = (flag(), flag(), flag());
    let part = Part { b: B { t: wb.clone() }, c: if c { Some(C { t: wc.clone() }) } else { None }, au: vec![Au { t: wa.clone() }; n] };
    let v = Whole {
        k: if k { Some(we.clone()) } else { None },
        a: A { t: wa.clone() },
        w: Wrap { d: Box::new(D { t: wd.clone() }), part: part.clone() },
        e: if e { Some(E { t: we.clone() }) } else { None },
    };
    let Ok(x) = to_string(&v) else { fail(81) };
    show(x.as_bytes());
    note_str(1, &x);
    let Ok(r) = refxml::parse(x.as_bytes()) else { fail(82) };
    check(r.is("", "r") && r.text.is_empty() && r.attrs.len() == k as usize, 83);
    if k {
        check(r.attr("", "k") == Some(we.as_bytes()), 84);
    }
    let mut want: Vec<(usize, &str)> = vec![(0, &wa), (3, &wd), (1, &wb)];
    if c {
        want.push((2, &wc));
    }
    for _ in 0..n {
        want.push((4, &wa));
    }
    if e {
        want.push((5, &we));
    }
    check(r.children.len() == want.len(), 85);
    for (g, (k, t)) in r.children.iter().zip(want) {
        check(g.is(TAGS[k].1, TAGS[k].0) && g.text == t.as_bytes() && g.attrs.is_empty() && g.children.is_empty(), 86);
    }
    check(matches!(from_str::<Whole>(&x), Ok(q) if q == v), 87);
    let m = Maybe { a: None, w: if flag() { Some(part) } else { None } };
    let Ok(x) = to_string(&m) else { fail(88) };
    check(matches!(from_str::<Maybe>(&x), Ok(q) if q == m), 89);
    reach(1);
}

// ---- variants that are text
#[derive(ToXml, Clone)]
#[xml(scalar)]
enum Sc {
    One,
    #[xml(rename = "<2>")]
    Two,
}
#[derive(ToXml, Clone)]
#[xml(forward)]
enum Mixed {
    S(String),
    N(u8),
    E(Sc),
    T(Txt),
    I(Box<Mixed>),
}
#[derive(ToXml)]
#[xml(rename = "r", ns("u"))]
struct Hold<T> {
    f: T,
}
#[derive(ToXml)]
#[xml(rename = "r", ns("u"))]
struct HoldNs<T> {
    #[xml(rename = "g", ns("v"))]
    f: T,
}
#[derive(ToXml)]
#[xml(rename = "r", ns("u"))]
struct HoldTup<T>(T);

fn mixed(d: &mut String) -> Mixed {
    match choose(5) {
        0 => {
            let t = word();
            d.push_str(&t);
            Mixed::S(t)
        }
        1 => {
            let n = [0, 7, 255][choose(3)];
            d.push_str(&n.to_string());
            Mixed::N(n)
        }
        2 => {
            let two = flag();
            d.push_str(if two { "&lt;2&gt;" } else { "One" });
            Mixed::E(if two { Sc::Two } else { Sc::One })
        }
        3 => {
            let t = word();
            d.push_str(&format!("<a xmlns=\"\">{t}</a>"));
            Mixed::T(Txt { k: None, t })
        }
        _ => {
            let n = flag();
            d.push_str(if n { "x" } else { "3" });
            Mixed::I(Box::new(if n { Mixed::S("x".into()) } else { Mixed::N(3) }))
        }
    }
}
/// the enum itself has no element of its own, nor has what it holds one on its account
pub fn h16_write_text() {
    let mut want = String::new();
    let n = choose(4);
    let got = if n == 3 {
        let v = vec![mixed(&mut want), mixed(&mut want)];
        match choose(3) {
            0 => to_string(&Hold { f: v }),
            1 => to_string(&HoldNs { f: &v[..] }),
            _ => to_string(&HoldTup(v)),
        }
    } else {
        let v = mixed(&mut want);
        match n {
            0 => match choose(3) {
                0 => to_string(&Hold { f: v }),
                1 => to_string(&HoldNs { f: v }),
                _ => to_string(&HoldTup(v)),
            },
            1 => match choose(2) {
                0 => to_string(&Hold { f: Some(v) }),
                _ => to_string(&HoldNs { f: Box::new(Some(v)) }),
            },
            _ => {
                // and as the whole document, if it is an element
                assume(matches!(v, Mixed::T(_)));
                want = want.replace(" xmlns=\"\"", "");
                let Ok(x) = to_string(&v) else { fail(61) };
                show(x.as_bytes());
                match (refxml::parse(x.as_bytes()), refxml::parse(want.as_bytes())) {
                    (Ok(a), Ok(b)) => check(a == b, 62),
                    _ => fail(63),
                }
                reach(1);
                return;
            }
        }
    };
    let Ok(got) = got else { fail(64) };
    show(got.as_bytes());
    note_str(1, &got);
    let want = format!("<r xmlns='u'>{want}</r>");
    match (refxml::parse(got.as_bytes()), refxml::parse(want.as_bytes())) {
        (Ok(a), Ok(b)) => check(a == b, 65),
        _ => fail(66),
    }
    reach(1);
}

// ---- transparent structs with fields that are text
#[derive(ToXml, FromXml, Debug, PartialEq, Clone)]
#[xml(transparent, rename_all = "UPPERCASE")]
struct Texts {
    b: String,
    #[xml(rename = "x", ns("v"))]
    c: Option<u8>,
    d: Vec<bool>,
    e: Option<A>,
    #[xml(ns("u"))]
    f: Option<String>,
}
#[derive(ToXml, FromXml, Debug, PartialEq, Clone)]
#[xml(rename = "r", ns("u", p = "v"))]
struct HasTexts {
    a: u8,
    p: Texts,
    b: Option<String>,
}
#[derive(ToXml, FromXml, Debug, PartialEq, Clone)]
#[xml(rename = "r")]
struct MayHaveTexts {
    p: Option<Texts>,
    b: Option<String>,
}
/// their elements are named by the fields, like those of any struct, and read back
pub fn h16_transparent_text() {
    let p = Texts {
        b: if flag() { word() } else { String::new() },
        c: if flag() { Some(7) } else { None },
        d: [vec![], vec![true], vec![false, true]][choose(3)].clone(),
        e: if flag() { Some(A { t: word() }) } else { None },
        f: if flag() { Some("&".into()) } else { None },
    };
    let mut want = format!("<B xmlns=''>{}</B>", p.b);
    p.c.iter().for_each(|c| want.push_str(&format!("<x xmlns='v'>{c}</x>")));
    p.d.iter().for_each(|d| want.push_str(&format!("<D xmlns=''>{d}</D>")));
    p.e.iter().for_each(|e| want.push_str(&format!("<a xmlns=''>{}</a>", e.t)));
    p.f.iter().for_each(|_| want.push_str("<F xmlns='u'>&amp;</F>"));
    let b = if flag() { Some("own".to_string()) } else { None };
    let own = if b.is_some() { "<b>own</b>" } else { "" };
    let same = |x: &str, want: String| match (refxml::parse(x.as_bytes()), refxml::parse(want.as_bytes())) {
        (Ok(a), Ok(b)) => check(a == b, 81),
        _ => fail(82),
    };
    match choose(3) {
        0 => {
            let v = HasTexts { a: 1, p, b };
            let Ok(x) = to_string(&v) else { fail(83) };
            show(x.as_bytes());
            same(&x, format!("<r xmlns='u'><a>1</a>{want}{own}</r>"));
            check(matches!(from_str::<HasTexts>(&x), Ok(w) if w == v), 84);
        }
        1 => {
            let v = MayHaveTexts { p: Some(p), b };
            let Ok(x) = to_string(&v) else { fail(85) };
            show(x.as_bytes());
            same(&x, format!("<r>{want}{own}</r>"));
            check(matches!(from_str::<MayHaveTexts>(&x), Ok(w) if w == v), 86);
        }
        _ => {
            // in another order, with unknown elements of the fields' names in other namespaces
            let x = format!("<r xmlns='u'><b xmlns='v'/>{own}<B>no</B>{want}<x>no</x><D xmlns='w'/><F xmlns=''/><a>2</a></r>");
            show(x.as_bytes());
            match from_str::<HasTexts>(&x) {
                Ok(w) => check(w == HasTexts { a: 2, p, b }, 87),
                Err(_) => fail(88),
            }
        }
    }
    reach(1);
}
