//! User-supplied conversions: written and read exactly where declared, with their errors.
use crate::gen::*;
use crate::refxml::{self, El};
use crate::sx::*;
use instant_xml::*;
use std::fmt;
use std::str::FromStr;

/// a scalar by hand, through Display and FromStr
#[derive(Clone, Debug, PartialEq)]
struct Temp(u8);
impl fmt::Display for Temp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // what it writes has to be escaped
        match self.0 {
            n if n < 10 => write!(f, "<{}>", n),
            n if n < 100 => write!(f, "{} & \"C\"", n),
            n => write!(f, "'{n}'"),
        }
    }
}
impl FromStr for Temp {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        let b = s.as_bytes();
        let (n, lo, hi) = match b {
            [b'<', n @ .., b'>'] => (n, 0, 9),
            [b'\'', n @ .., b'\''] => (n, 100, 255),
            [n @ .., b' ', b'&', b' ', b'"', b'C', b'"'] => (n, 10, 99),
            _ => return Err(()),
        };
        let mut v = 0u32;
        if n.is_empty() || n.len() > 3 || (n[0] == b'0' && n.len() > 1) {
            return Err(());
        }
        for d in n {
            if !d.is_ascii_digit() {
                return Err(());
            }
            v = v * 10 + (d - b'0') as u32;
        }
        if v < lo || v > hi {
            return Err(());
        }
        Ok(Temp(v as u8))
    }
}
impl ToXml for Temp {
    fn serialize<W: fmt::Write + ?Sized>(&self, field: Option<Id<'_>>, o: &mut Serializer<'_, W>) -> Result<(), Error> {
        display_to_xml(self, field, o)
    }
}
impl<'xml> FromXml<'xml> for Temp {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        match field {
            Some(field) => id == field,
            None => false,
        }
    }
    fn deserialize<'cx>(into: &mut Self::Accumulator, field: &'static str, d: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        from_xml_str(into, field, d)
    }
    type Accumulator = Option<Temp>;
    const KIND: Kind = Kind::Scalar;
}

#[derive(ToXml, FromXml, Debug, PartialEq, Clone)]
#[xml(rename = "all", ns("u"))]
struct All {
    #[xml(attribute)]
    a: Temp,
    #[xml(attribute)]
    b: Option<Temp>,
    c: Temp,
    d: Option<Temp>,
    e: Vec<Temp>,
    #[xml(direct)]
    f: Temp,
}
fn temp() -> Temp {
    Temp(pick(byte() as u64) as u8)
}
fn t(name: &str, v: &Temp) -> El {
    El { ns: b"u".to_vec(), local: name.into(), text: v.to_string().into_bytes(), has_text: true, ..El::default() }
}
/// every value, in every position: written as its text, read back as itself
pub fn h26_hand() {
    let mut v = All { a: Temp(1), b: None, c: Temp(2), d: None, e: vec![], f: Temp(3) };
    match choose(7) {
        0 => v.a = temp(),
        1 => v.b = Some(temp()),
        2 => v.c = temp(),
        3 => v.d = Some(temp()),
        4 => v.e = vec![temp()],
        5 => v.e = vec![Temp(9), temp(), Temp(100)],
        _ => v.f = temp(),
    }
    let out = match to_string(&v) {
        Ok(x) => x,
        Err(_) => fail(1),
    };
    show(out.as_bytes());
    note_str(1, &out);
    let mut want = El { ns: b"u".to_vec(), local: b"all".to_vec(), ..El::default() };
    want.attrs.push((vec![], b"a".to_vec(), v.a.to_string().into_bytes()));
    if let Some(b) = &v.b {
        want.attrs.push((vec![], b"b".to_vec(), b.to_string().into_bytes()));
    }
    want.children.push(t("c", &v.c));
    v.d.iter().for_each(|d| want.children.push(t("d", d)));
    v.e.iter().for_each(|e| want.children.push(t("e", e)));
    want.text = v.f.to_string().into_bytes();
    want.has_text = true;
    match refxml::parse(out.as_bytes()) {
        Ok(got) => check(got == want, 2),
        Err(_) => fail(3),
    }
    match from_str::<All>(&out) {
        Ok(w) => check(v == w, 4),
        Err(_) => fail(5),
    }
    reach(1);
}
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "r")]
struct At {
    #[xml(attribute)]
    f: Temp,
}
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "r")]
struct Di {
    #[xml(direct)]
    f: Temp,
}
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "r")]
struct El1 {
    f: Temp,
    g: Option<Temp>,
}
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "r")]
struct Li {
    f: Vec<Temp>,
}
/// every text: what FromStr makes of it, or an error
pub fn h26_text() {
    let mut raw = vec![];
    let mut val = vec![];
    // a form of text with some of its characters arbitrary
    let form: &[u8] = [&b"??"[..], b"<?>", b"<??", b"'1??'", b"'???'", b"?? & \"C\"", b"?5 & \"?\"", b"???"][choose(8)];
    for &c in form {
        let b = if c == b'?' {
            let b = byte();
            assume((b >= 0x20) & (b < 0x7f) & (b != b'&') & (b != b'<'));
            b
        } else {
            c
        };
        val.push(b);
        match b {
            b'<' if c == b'<' => raw.extend_from_slice(b"&lt;"),
            b'&' if c == b'&' => raw.extend_from_slice(b"&#38;"),
            _ => raw.push(b),
        }
    }
    assume(!raw.windows(3).any(|w| w == b"]]>"));
    let (mut d, how) = (b"<r".to_vec(), choose(5));
    if how == 0 {
        assume(!raw.contains(&b'"') || !raw.contains(&b'\''));
        let q = if raw.contains(&b'"') { b'\'' } else { b'"' };
        d.extend_from_slice(&[b" f=", &[q][..], &raw, &[q], b"/>"].concat());
    } else if how == 1 {
        d.extend_from_slice(&[b">", &raw[..], b"</r>"].concat());
    } else {
        let pre: &[u8] = if how == 4 { b"><f>&lt;7></f><f>" } else { b"><f>" };
        d.extend_from_slice(&[pre, &raw[..], b"</f></r>"].concat());
    }
    show(&d);
    let got = match how {
        0 => from_str::<At>(s(&d)).map(|r| r.f),
        1 => from_str::<Di>(s(&d)).map(|r| r.f),
        2 => from_str::<El1>(s(&d)).map(|r| r.f),
        _ => from_str::<Li>(s(&d)).and_then(|mut r| {
            check(r.f.len() == how - 2, 11);
            r.f.pop().ok_or(Error::UnexpectedEndOfStream)
        }),
    };
    match (Temp::from_str(s(&val)), got) {
        (Ok(a), Ok(b)) => {
            check(a == b, 12);
            reach(1);
        }
        (Err(()), Err(Error::UnexpectedValue(_))) => reach(2),
        _ => fail(13),
    }
}
/// absent, empty and repeated
pub fn h26_count() {
    let (a, b) = (choose(4), choose(3));
    let one = |n: usize, f: &str| (0..n).map(|i| format!("<{f}>&lt;{i}></{f}>")).collect::<String>();
    let d = if a == 3 { "<r><f/></r>".to_string() } else { format!("<r>{}{}</r>", one(b, "g"), one(a, "f")) };
    show(d.as_bytes());
    match (a, b, from_str::<El1>(&d)) {
        (1, 0, Ok(El1 { f: Temp(0), g: None })) => reach(1),
        (1, 1, Ok(El1 { f: Temp(0), g: Some(Temp(0)) })) => reach(1),
        (0, 0 | 1, Err(Error::MissingValue(f))) => check(f == "El1::f", 21),
        (3, _, Err(Error::MissingValue(f))) => check(f == "El1::f", 21),
        (_, 2, Err(Error::DuplicateValue(f))) => check(f == "El1::g", 22),
        (2, _, Err(Error::DuplicateValue(f))) => check(f == "El1::f", 23),
        _ => fail(24),
    }
}

// ---- functions named in attributes
fn put<W: fmt::Write + ?Sized>(v: &(u8, String), o: &mut Serializer<'_, W>) -> Result<(), Error> {
    if v.0 == 255 {
        return Err(Error::Other("no".into()));
    }
    let e = o.write_start("pair", "", None::<ser::Context<0>>)?;
    o.write_attr("n", "", &v.0)?;
    o.end_start()?;
    v.1.serialize(None, o)?;
    o.write_close(e)
}
struct Pair(u8, String);
impl<'xml> FromXml<'xml> for Pair {
    fn matches(id: Id<'_>, _: Option<Id<'_>>) -> bool {
        id == Id { ns: "", name: "pair" }
    }
    fn deserialize<'cx>(_: &mut Self::Accumulator, _: &'static str, _: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        // not what the field is read with
        Err(Error::Other("wrong function".into()))
    }
    type Accumulator = Option<Self>;
    const KIND: Kind = Kind::Element;
}
fn get(into: &mut Option<Pair>, field: &'static str, d: &mut Deserializer<'_, '_>) -> Result<(), Error> {
    if into.is_some() {
        return Err(Error::DuplicateValue(field));
    }
    check(d.parent() == Id { ns: "", name: "pair" }, 31);
    let (mut n, mut t) = (None, String::new());
    loop {
        match d.next() {
            Some(Ok(de::Node::Attribute(a))) => {
                check(d.attribute_id(&a)?.name == "n", 32);
                n = a.value.parse().ok();
            }
            Some(Ok(de::Node::Text(x))) => t = x.into_owned(),
            Some(Ok(_)) => fail(33),
            Some(Err(e)) => return Err(e),
            None => break,
        }
    }
    match n {
        Some(n) => *into = Some(Pair(n, t)),
        None => return Err(Error::Other("no".into())),
    }
    Ok(())
}
#[derive(ToXml)]
#[xml(rename = "w")]
struct Out {
    #[xml(attribute)]
    k: Option<u8>,
    a: String,
    #[xml(serialize_with = "put")]
    p: (u8, String),
    z: Option<u8>,
}
#[derive(FromXml)]
#[xml(rename = "w")]
struct In {
    #[xml(attribute)]
    k: Option<u8>,
    a: String,
    #[xml(deserialize_with = "get")]
    p: Pair,
    z: Option<u8>,
}
pub fn h26_with() {
    let opt = |v| if flag() { Some(v) } else { None };
    let v = Out { k: opt(1), a: xml_string(1, 0b0101), p: ([0, 7, 254, 255][choose(4)], xml_string(1, 0b0101)), z: opt(2) };
    let out = to_string(&v);
    match &out {
        Err(e) => {
            check(v.p.0 == 255 && *e == Error::Other("no".into()), 41);
            reach(2);
            return;
        }
        Ok(x) => {
            check(v.p.0 != 255, 42);
            show(x.as_bytes());
            note_str(1, x);
            match refxml::parse(x.as_bytes()) {
                Ok(e) => {
                    check(e.children.len() == 2 + v.z.is_some() as usize && e.attrs.len() == v.k.is_some() as usize, 43);
                    let p = &e.children[1];
                    check(p.is("", "pair") && p.children.is_empty() && p.text == v.p.1.as_bytes(), 44);
                    check(p.attr("", "n") == Some(v.p.0.to_string().as_bytes()), 45);
                    check(e.children[0].text == v.a.as_bytes() && e.text.is_empty(), 46);
                }
                Err(_) => fail(47),
            }
            match from_str::<In>(x) {
                Ok(r) => check(r.k == v.k && r.a == v.a && r.p.0 == v.p.0 && r.p.1 == v.p.1 && r.z == v.z, 48),
                Err(_) => fail(49),
            }
        }
    }
    reach(1);
}
/// the function's errors are the result; it is called once for each element of its name, and only there
pub fn h26_with_read() {
    let mut d = b"<w>".to_vec();
    let (mut n, mut bad) = (0, false);
    for _ in 0..choose(4) {
        let part: &str = ["<a>t</a>", "<pair n='5'>x</pair>", "<pair/>", "<j><pair/></j>", "<pair xmlns='u'/>"][choose(5)];
        if part.starts_with("<pair") && !part.contains("xmlns") {
            n += 1;
            bad |= n == 1 && part.len() == 7;
        }
        d.extend_from_slice(part.as_bytes());
    }
    d.extend_from_slice(b"</w>");
    let a = d.windows(3).filter(|w| w == b"<a>").count();
    assume(a == 1);
    show(&d);
    match from_str::<In>(s(&d)) {
        Ok(r) => {
            check(n == 1 && !bad && r.p.0 == 5 && r.p.1 == "x" && r.a == "t", 51);
            reach(1);
        }
        Err(Error::MissingValue(f)) => check(n == 0 && f == "In::p", 52),
        Err(Error::DuplicateValue(f)) => check(n > 1 && !bad && f == "In::p", 53),
        Err(Error::Other(m)) => {
            check(bad && m == "no", 54);
            reach(2);
        }
        Err(_) => fail(55),
    }
}

const V: &str = "v";
/// a hand-written type that takes every text as it is
#[derive(Clone, Debug, PartialEq)]
struct Raw(String);
impl fmt::Display for Raw {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // in pieces
        for c in self.0.chars() {
            write!(f, "{c}")?;
        }
        Ok(())
    }
}
impl FromStr for Raw {
    type Err = std::convert::Infallible;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Ok(Raw(s.to_string()))
    }
}
impl ToXml for Raw {
    fn serialize<W: fmt::Write + ?Sized>(&self, field: Option<Id<'_>>, o: &mut Serializer<'_, W>) -> Result<(), Error> {
        display_to_xml(self, field, o)
    }
}
impl<'xml> FromXml<'xml> for Raw {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        field == Some(id)
    }
    fn deserialize<'cx>(into: &mut Self::Accumulator, field: &'static str, d: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        from_xml_str(into, field, d)
    }
    type Accumulator = Option<Raw>;
    const KIND: Kind = Kind::Scalar;
}
#[derive(ToXml, FromXml, Debug, PartialEq, Clone)]
#[xml(rename = "r", ns("u", p = "v"))]
struct Raws {
    #[xml(attribute)]
    a: Raw,
    #[xml(attribute, ns(V))]
    b: Option<Raw>,
    c: Raw,
    #[xml(ns("v"))]
    d: Option<Raw>,
    e: Vec<Raw>,
    #[xml(direct)]
    f: Raw,
}
/// every character, white space included, arrives as it was
pub fn h26_raw() {
    let t = Raw(xml_string(tier(3, 4), 0b0011));
    // an element without any text has no value
    let least = |r: &Raw| if r.0.is_empty() { Raw("-".into()) } else { r.clone() };
    let z = || Raw("z".into());
    let mut v = Raws { a: z(), b: None, c: z(), d: None, e: vec![], f: z() };
    match choose(6) {
        0 => v.a = t,
        1 => v.b = Some(t),
        2 => v.c = least(&t),
        3 => v.d = Some(least(&t)),
        4 => v.e = vec![least(&t), z(), least(&t)],
        _ => v.f = least(&t),
    }
    let Ok(x) = to_string(&v) else { fail(61) };
    show(x.as_bytes());
    note_str(1, &x);
    match refxml::parse(x.as_bytes()) {
        Ok(e) => {
            check(e.attr("", "a") == Some(v.a.0.as_bytes()), 62);
            check(e.attr("v", "b") == v.b.as_ref().map(|b| b.0.as_bytes()), 63);
            check(e.text == v.f.0.as_bytes(), 64);
            let want: Vec<&Raw> = [&v.c].into_iter().chain(v.d.iter()).chain(v.e.iter()).collect();
            check(e.children.len() == want.len(), 65);
            for (c, w) in e.children.iter().zip(want) {
                check(c.text == w.0.as_bytes(), 66);
            }
        }
        Err(_) => fail(67),
    }
    match from_str::<Raws>(&x) {
        Ok(w) => check(v == w, 68),
        Err(_) => fail(69),
    }
    reach(1);
}

// ---- in a transparent struct
#[derive(ToXml)]
#[xml(transparent)]
struct PartOut {
    #[xml(serialize_with = "put")]
    p: (u8, String),
    t: Option<Temp>,
}
#[derive(FromXml)]
#[xml(transparent)]
struct PartIn {
    #[xml(deserialize_with = "get")]
    p: Pair,
    t: Option<Temp>,
}
#[derive(ToXml, FromXml)]
#[xml(rename = "w")]
struct Around<T> {
    #[xml(attribute)]
    k: Option<u8>,
    p: T,
    z: Option<u8>,
}
pub fn h26_with_part() {
    let opt = |v| if flag() { Some(v) } else { None };
    let p = ([0, 7, 255][choose(3)], xml_string(1, 0b0101));
    let t = [None, Some(Temp(3)), Some(Temp(50))][choose(3)].clone();
    let (k, z) = (opt(1), opt(2));
    let v = Around { k, p: PartOut { p: p.clone(), t: t.clone() }, z };
    let x = match to_string(&v) {
        Ok(x) => x,
        Err(e) => {
            check(p.0 == 255 && e == Error::Other("no".into()), 71);
            return reach(2);
        }
    };
    show(x.as_bytes());
    note_str(1, &x);
    check(p.0 != 255, 72);
    match refxml::parse(x.as_bytes()) {
        Ok(e) => {
            check(e.children.len() == 1 + t.is_some() as usize + z.is_some() as usize, 73);
            let c = &e.children[0];
            check(c.is("", "pair") && c.text == p.1.as_bytes() && c.attr("", "n") == Some(p.0.to_string().as_bytes()), 74);
            if let Some(t) = &t {
                check(e.children[1].is("", "t") && e.children[1].text == t.to_string().as_bytes(), 75);
            }
        }
        Err(_) => fail(76),
    }
    // in any order
    let x = if flag() { x } else { format!("<w{}>{}<j/>{}", if k.is_some() { " k=\"1\"" } else { "" }, if z.is_some() { "<z>2</z>" } else { "" }, inner(&x, z.is_some())) };
    match from_str::<Around<PartIn>>(&x) {
        Ok(r) => check(r.k == k && r.z == z && r.p.t == t && r.p.p.0 == p.0 && r.p.p.1 == p.1, 77),
        Err(_) => fail(78),
    }
    reach(1);
}
/// the elements of the part, and the end of the document
fn inner(x: &str, z: bool) -> String {
    let (Some(i), Some(j)) = (x.find("<pair"), if z { x.rfind("<z>") } else { x.rfind("</w>") }) else { fail(79) };
    format!("{}</w>", &x[i..j])
}
