//! Cardinality: a required field occurs exactly once, an optional one at most once, a repeated one
//! any number of times, in document order; anything else is an error of the right kind.
use crate::sx::*;
use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
use instant_xml::*;
use std::borrow::Cow;
use std::net::IpAddr;

#[derive(FromXml, Debug)]
struct Req<T> {
    f: T,
}
#[derive(FromXml, Debug)]
struct Opt<T> {
    f: Option<T>,
}
#[derive(FromXml, Debug)]
struct Many<T> {
    f: Vec<T>,
}
#[derive(FromXml, Debug)]
struct AReq<T> {
    #[xml(attribute)]
    f: T,
}
#[derive(FromXml, Debug)]
struct AOpt<T> {
    #[xml(attribute)]
    f: Option<T>,
}
#[derive(FromXml, Debug, PartialEq)]
#[xml(scalar)]
enum Sc {
    A,
    B,
}
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "f")]
struct S {
    #[xml(attribute)]
    k: Option<u8>,
    #[xml(direct)]
    t: String,
}
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "f")]
struct SUnit;
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "f")]
struct STup(u8);
#[derive(FromXml, Debug, PartialEq)]
#[xml(forward)]
enum Fw {
    S(S),
    G(G),
}
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "g")]
struct G;

/// one occurrence of the field: its text, and a check that a value came from that text
struct Occ {
    xml: Vec<u8>,
    text: Vec<u8>,
}

fn occ(text: &[u8]) -> Occ {
    let mut xml = b"<f>".to_vec();
    xml.extend_from_slice(text);
    xml.extend_from_slice(b"</f>");
    Occ { xml, text: text.to_vec() }
}
fn lit(a: &str, b: &str) -> Occ {
    occ([a, b][choose(2)].as_bytes())
}

trait Val: FromXmlOwned {
    fn occ() -> Occ;
    fn is(&self, o: &Occ) -> bool;
}
fn letters() -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..1 + choose(2) {
        let b = byte();
        assume((b >= b'0') & (b <= b'z') & (b != b'<') & (b != b'>'));
        v.push(b)
    }
    v
}
impl Val for String {
    fn occ() -> Occ {
        occ(&letters())
    }
    fn is(&self, o: &Occ) -> bool {
        self.as_bytes() == o.text
    }
}
impl Val for Cow<'static, str> {
    fn occ() -> Occ {
        occ(&letters())
    }
    fn is(&self, o: &Occ) -> bool {
        self.as_bytes() == o.text
    }
}
impl Val for u8 {
    fn occ() -> Occ {
        let b = byte();
        assume((b >= b'0') & (b <= b'9'));
        occ(&[b])
    }
    fn is(&self, o: &Occ) -> bool {
        *self == o.text[0] - b'0'
    }
}
impl Val for i64 {
    fn occ() -> Occ {
        lit("-5", "7")
    }
    fn is(&self, o: &Occ) -> bool {
        *self == if o.text[0] == b'-' { -5 } else { 7 }
    }
}
impl Val for bool {
    fn occ() -> Occ {
        lit("true", "0")
    }
    fn is(&self, o: &Occ) -> bool {
        *self == (o.text.len() == 4)
    }
}
impl Val for char {
    fn occ() -> Occ {
        let b = byte();
        assume((b >= b'0') & (b <= b'9'));
        occ(&[b])
    }
    fn is(&self, o: &Occ) -> bool {
        *self as u32 == o.text[0] as u32
    }
}
impl Val for Sc {
    fn occ() -> Occ {
        lit("A", "B")
    }
    fn is(&self, o: &Occ) -> bool {
        (*self == Sc::A) == (o.text == b"A")
    }
}
impl Val for IpAddr {
    fn occ() -> Occ {
        lit("1.2.3.4", "::1")
    }
    fn is(&self, o: &Occ) -> bool {
        self.is_ipv4() == (o.text.len() == 7)
    }
}
impl Val for f64 {
    fn occ() -> Occ {
        lit("1.5", "-2")
    }
    fn is(&self, o: &Occ) -> bool {
        *self == if o.text[0] == b'-' { -2.0 } else { 1.5 }
    }
}
impl Val for () {
    fn occ() -> Occ {
        lit("", "x")
    }
    fn is(&self, _: &Occ) -> bool {
        true
    }
}
impl Val for NaiveDate {
    fn occ() -> Occ {
        lit("2020-01-02", "2020-01-03")
    }
    fn is(&self, o: &Occ) -> bool {
        use chrono::Datelike;
        self.day() as u8 == o.text[9] - b'0'
    }
}
impl Val for NaiveDateTime {
    fn occ() -> Occ {
        lit("2020-01-02T00:00:01", "2020-01-02T00:00:05")
    }
    fn is(&self, o: &Occ) -> bool {
        use chrono::Timelike;
        self.second() as u8 == o.text[18] - b'0'
    }
}
impl Val for DateTime<Utc> {
    fn occ() -> Occ {
        lit("2020-01-02T00:00:01Z", "2020-01-02T00:00:05Z")
    }
    fn is(&self, o: &Occ) -> bool {
        use chrono::Timelike;
        self.second() as u8 == o.text[18] - b'0'
    }
}
impl Val for S {
    fn occ() -> Occ {
        if flag() {
            return occ(&letters());
        }
        let mut xml = b"<f k='1'>".to_vec();
        let l = letters();
        xml.extend_from_slice(&l);
        xml.extend_from_slice(b"</f>");
        Occ { xml, text: l }
    }
    fn is(&self, o: &Occ) -> bool {
        self.t.as_bytes() == o.text && self.k.is_some() == (o.xml[2] == b' ')
    }
}
impl Val for SUnit {
    fn occ() -> Occ {
        lit("", "<q/>")
    }
    fn is(&self, _: &Occ) -> bool {
        true
    }
}
impl Val for STup {
    fn occ() -> Occ {
        lit("1", "2")
    }
    fn is(&self, o: &Occ) -> bool {
        self.0 == o.text[0] - b'0'
    }
}
impl Val for Box<S> {
    fn occ() -> Occ {
        S::occ()
    }
    fn is(&self, o: &Occ) -> bool {
        (**self).is(o)
    }
}
impl Val for Box<u8> {
    fn occ() -> Occ {
        u8::occ()
    }
    fn is(&self, o: &Occ) -> bool {
        (**self).is(o)
    }
}
impl Val for Fw {
    fn occ() -> Occ {
        if flag() {
            return Occ { xml: b"<g/>".to_vec(), text: vec![] };
        }
        S::occ()
    }
    fn is(&self, o: &Occ) -> bool {
        match self {
            Fw::S(s) => o.xml[1] == b'f' && s.is(o),
            Fw::G(_) => o.xml[1] == b'g',
        }
    }
}
fn elements<T: Val>() {
    let n = choose(tier(4, 5));
    let gap = ["", "<zz/>", "<!--c-->", " "][choose(4)];
    let root = ["Req", "Opt", "Many"][choose(3)];
    let mut v = b"<".to_vec();
    v.extend_from_slice(root.as_bytes());
    v.push(b'>');
    let mut os = vec![];
    for _ in 0..n {
        let o = T::occ();
        v.extend_from_slice(gap.as_bytes());
        v.extend_from_slice(&o.xml);
        os.push(o);
    }
    v.extend_from_slice(gap.as_bytes());
    v.extend_from_slice(b"</");
    v.extend_from_slice(root.as_bytes());
    v.push(b'>');
    show(&v);
    let x = s(&v);
    match root.as_bytes()[0] {
        b'R' => match from_str::<Req<T>>(x) {
            Ok(r) => {
                check(n == 1 && r.f.is(&os[0]), 1);
                reach(1)
            }
            Err(Error::MissingValue(_)) => check(n == 0, 2),
            Err(Error::DuplicateValue(_)) => check(n > 1, 3),
            Err(_) => fail(4),
        },
        b'O' => match from_str::<Opt<T>>(x) {
            Ok(r) => {
                check(n < 2, 5);
                check(r.f.is_some() == (n == 1), 6);
                if let Some(f) = r.f {
                    check(f.is(&os[0]), 7);
                }
            }
            Err(Error::DuplicateValue(_)) => check(n > 1, 8),
            Err(_) => fail(9),
        },
        _ => match from_str::<Many<T>>(x) {
            Ok(r) => {
                check(r.f.len() == n, 10);
                for (f, o) in r.f.iter().zip(&os) {
                    check(f.is(o), 11);
                }
            }
            Err(_) => fail(12),
        },
    }
}

fn attributes<T: Val>() {
    let n = choose(2);
    let o = T::occ();
    let opt = flag();
    let mut v = if opt { b"<AOpt".to_vec() } else { b"<AReq".to_vec() };
    v.extend_from_slice([&b""[..], b" g='1'", b" xmlns:p='x' p:f='9'"][choose(3)]);
    if n == 1 {
        v.extend_from_slice(b" f='");
        v.extend_from_slice(&o.text);
        v.extend_from_slice(b"'");
    }
    v.extend_from_slice(b" h='2'");
    v.extend_from_slice([&b"/>"[..], if opt { b"><f/></AOpt>" } else { b"><f/></AReq>" }][choose(2)]);
    show(&v);
    let x = s(&v);
    if opt {
        match from_str::<AOpt<T>>(x) {
            Ok(r) => match r.f {
                Some(f) => check(n == 1 && f.is(&o), 21),
                None => check(n == 0, 22),
            },
            Err(_) => fail(23),
        }
    } else {
        match from_str::<AReq<T>>(x) {
            Ok(r) => {
                check(n == 1 && r.f.is(&o), 24);
                reach(1)
            }
            Err(Error::MissingValue(_)) => check(n == 0, 25),
            Err(_) => fail(26),
        }
    }
    reach(1);
}

pub fn h10_text() {
    match choose(3) {
        0 => elements::<String>(),
        1 => elements::<Cow<'static, str>>(),
        _ => elements::<char>(),
    }
}
pub fn h10_scalar() {
    match choose(9) {
        0 => elements::<u8>(),
        1 => elements::<i64>(),
        2 => elements::<bool>(),
        3 => elements::<Sc>(),
        4 => elements::<IpAddr>(),
        5 => elements::<()>(),
        6 => elements::<Box<u8>>(),
        7 => elements::<f64>(),
        _ => elements::<NaiveDate>(),
    }
}
pub fn h10_time() {
    if flag() {
        elements::<DateTime<Utc>>()
    } else {
        elements::<NaiveDateTime>()
    }
}
pub fn h10_struct() {
    match choose(5) {
        0 => elements::<S>(),
        1 => elements::<SUnit>(),
        2 => elements::<STup>(),
        3 => elements::<Box<S>>(),
        _ => elements::<Fw>(),
    }
}
pub fn h10_attr() {
    match choose(9) {
        0 => attributes::<String>(),
        1 => attributes::<u8>(),
        2 => attributes::<bool>(),
        3 => attributes::<char>(),
        4 => attributes::<Sc>(),
        5 => attributes::<IpAddr>(),
        6 => attributes::<i64>(),
        7 => attributes::<Cow<'static, str>>(),
        _ => attributes::<NaiveDate>(),
    }
}

#[derive(FromXml, Debug)]
struct Mix<'a> {
    #[xml(attribute)]
    a: u8,
    #[xml(attribute)]
    o: Option<String>,
    s: String,
    x: Option<u8>,
    v: Vec<u8>,
    f: S,
    g: Option<G>,
    #[xml(borrow)]
    c: Cow<'a, str>,
    #[xml(borrow)]
    r: Cow<'a, str>,
}
/// several fields at once: any one of them repeated or missing is reported, by name
pub fn h10_mixed() {
    let (a, o) = (choose(2), choose(2));
    let mut n = [1usize, 0, 0, 1, 0, 1, 1];
    // one or two fields deviate from the minimum
    for _ in 0..2 {
        let k = choose(7);
        n[k] = choose(3);
    }
    let [ns, nx, nv, nf, ng, nc, nr] = n;
    let rev = flag();
    let mut parts: Vec<&[u8]> = vec![];
    for (k, t) in [(ns, &b"<s>1</s>"[..]), (nx, b"<x>2</x>"), (nv, b"<v>3</v>"), (nf, b"<f>4</f>"), (ng, b"<g/>"), (nc, b"<c>5</c>"), (nr, b"<r>6</r>")] {
        for _ in 0..k {
            parts.push(t)
        }
    }
    if rev {
        parts.reverse();
    }
    let mut d = b"<Mix".to_vec();
    if o == 1 {
        d.extend_from_slice(b" o='q'");
    }
    if a == 1 {
        d.extend_from_slice(b" a='7'");
    }
    d.push(b'>');
    for p in parts {
        d.extend_from_slice(p)
    }
    d.extend_from_slice(b"</Mix>");
    show(&d);
    let dup = ns > 1 || nx > 1 || nf > 1 || ng > 1 || nc > 1 || nr > 1;
    let missing = a == 0 || ns == 0 || nf == 0 || nc == 0 || nr == 0;
    match from_str::<Mix>(s(&d)) {
        Ok(m) => {
            check(!dup && !missing, 31);
            check(m.a == 7 && m.o.is_some() == (o == 1) && m.s == "1" && m.f.t == "4" && m.c == "5" && m.r == "6", 32);
            check(m.x == if nx == 1 { Some(2) } else { None }, 33);
            check(m.v.len() == nv && m.v.iter().all(|x| *x == 3), 34);
            check(m.g.is_some() == (ng == 1), 35);
            reach(1);
        }
        Err(Error::DuplicateValue(f)) => {
            check(dup, 36);
            let k = match f {
                "Mix::s" => ns,
                "Mix::x" => nx,
                "Mix::f" => nf,
                "Mix::g" => ng,
                "Mix::c" => nc,
                "Mix::r" => nr,
                _ => fail(37),
            };
            check(k > 1, 38);
        }
        Err(Error::MissingValue(f)) => {
            check(!dup && missing, 39);
            let k = match f {
                "Mix::s" => ns,
                "Mix::a" => a,
                "Mix::f" => nf,
                "Mix::c" => nc,
                "Mix::r" => nr,
                _ => fail(40),
            };
            check(k == 0, 41);
        }
        Err(_) => fail(42),
    }
}

#[derive(FromXml, Debug)]
#[xml(rename = "t")]
struct Tup(S, G, S);
/// tuple structs: each element exactly once, in order
pub fn h10_tuple() {
    let mut d = b"<t>".to_vec();
    let mut seq = vec![];
    for _ in 0..choose(tier(5, 6)) {
        let k = choose(3);
        d.extend_from_slice([&b"<f>1</f>"[..], b"<g/>", b"<h/>"][k]);
        seq.push(k);
    }
    d.extend_from_slice(b"</t>");
    show(&d);
    let r = from_str::<Tup>(s(&d));
    // further elements are unknown to the type, and skipped
    let good = seq.len() >= 3 && seq[..3] == [0, 1, 0];
    check(r.is_ok() == good, 51);
    if let Ok(t) = r {
        check(t.0.t == "1" && t.2.t == "1", 52);
        reach(1);
    }
}
/// direct content: a second text is a duplicate, none is the empty text
pub fn h10_direct() {
    let mut d = b"<f>".to_vec();
    let n = choose(4);
    for i in 0..n {
        if i > 0 {
            d.extend_from_slice(b"<g/>");
        }
        d.push(b'0' + i as u8);
    }
    d.extend_from_slice(b"</f>");
    show(&d);
    match from_str::<S>(s(&d)) {
        Ok(r) => check(n < 2 && r.t == ["", "0"][n], 61),
        Err(Error::DuplicateValue(_)) => check(n > 1, 62),
        Err(_) => fail(63),
    }
    reach(1);
}

/// many items between the occurrences, and many repeated ones: none is lost, and the second of a
/// single field is still noticed
pub fn h10_many() {
    let n = [2, 8, 17, 33, 70][choose(5)];
    let c = byte();
    assume((c >= b'0') & (c <= b'9'));
    let at = [0, 1, n / 2, n - 1][choose(4)];
    let k = choose(5);
    let mut d = b"<Mix a='7'><s>1</s><c>5</c><r>6</r><f>4</f>".to_vec();
    if k == 1 {
        d.extend_from_slice(b"<x>2</x>");
    }
    for i in 0..n {
        d.extend_from_slice(b"<v>");
        d.push(if i == at { c } else { b'3' });
        d.extend_from_slice(b"</v>");
        if i % 2 == 0 {
            d.extend_from_slice(b"<u><x>9</x></u>");
        }
    }
    d.extend_from_slice([&b""[..], b"<x>2</x>", b"<f/>", b"<c/>", b"<g/>"][k]);
    d.extend_from_slice(b"</Mix>");
    match from_str::<Mix>(s(&d)) {
        Ok(m) => {
            check(k == 0 || k == 4, 71);
            check(m.g.is_some() == (k == 4) && m.x.is_none(), 72);
            check(m.v.len() == n && m.v.iter().enumerate().all(|(i, v)| *v == if i == at { c - b'0' } else { 3 }), 73);
            reach(1);
        }
        Err(Error::DuplicateValue(f)) => check(f == ["", "Mix::x", "Mix::f", "Mix::c", ""][k], 74),
        Err(_) => fail(75),
    }
}
