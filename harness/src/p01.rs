//! Round trip: reading back what was written yields the same value, for values of derived types
//! that together use every derive feature.
use crate::gen::*;
use crate::sx::*;
use instant_xml::*;
use std::borrow::Cow;
use std::fmt;

fn rt<T: ToXml + FromXmlOwned + PartialEq>(v: &T) {
    let x = match to_string(v) {
        Ok(x) => x,
        Err(_) => fail(1),
    };
    note_str(1, &x);
    match from_str::<T>(&x) {
        Ok(q) => check(*v == q, 2),
        Err(_) => fail(3),
    }
    reach(1);
}

const L: u8 = 0b0011;
/// string of exactly one symbolic character, or a fixed one
fn st(on: bool) -> String {
    if on {
        let mut v = vec![];
        xml_char(&mut v, L);
        string(v)
    } else {
        "q".to_string()
    }
}
fn d() -> u8 {
    byte()
}

// ---- named fields: elements and attributes, required and optional
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct Named {
    #[xml(attribute)]
    id: u8,
    name: String,
    #[xml(attribute)]
    label: String,
    age: Option<u8>,
    #[xml(attribute)]
    opt: Option<String>,
    ok: bool,
}
pub fn h01_named() {
    let k = choose(4);
    let v = Named {
        id: if k == 0 { d() } else { 7 },
        name: if k == 1 { xml_string(tier(2, 3), 0b1111) } else { st(false) },
        label: if k == 2 { xml_string(tier(2, 3), 0b1111) } else { String::new() },
        age: if flag() { Some(if k == 0 { d() } else { 200 }) } else { None },
        opt: if flag() { Some(if k == 3 { xml_string(2, L) } else { st(false) }) } else { None },
        ok: flag(),
    };
    rt(&v);
}

// ---- nesting, repetition, boxes
#[derive(ToXml, FromXml, PartialEq, Debug, Clone)]
struct Leaf {
    #[xml(attribute)]
    k: u8,
    t: String,
}
#[derive(ToXml, FromXml, PartialEq, Debug, Clone)]
struct Unit;
#[derive(ToXml, FromXml, PartialEq, Debug, Clone)]
struct AttrsOnly {
    #[xml(attribute)]
    a: u8,
    #[xml(attribute)]
    b: Option<String>,
}
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct Nest {
    one: Leaf,
    many: Vec<AttrsOnly>,
    boxed: Box<Unit>,
    opt: Option<Inner>,
    texts: Vec<String>,
    nums: Vec<u8>,
}
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct Inner {
    deep: Option<Box<Inner>>,
    v: u8,
}
pub fn h01_nested() {
    let k = choose(4);
    let v = Nest {
        one: Leaf { k: 3, t: st(k == 0) },
        many: (0..choose(3)).map(|i| AttrsOnly { a: i as u8, b: if flag() { Some(st(k == 1 && i == 0)) } else { None } }).collect(),
        boxed: Box::new(Unit),
        opt: match choose(3) {
            0 => None,
            1 => Some(Inner { deep: None, v: 1 }),
            _ => Some(Inner { deep: Some(Box::new(Inner { deep: None, v: if k == 3 { d() } else { 2 } })), v: 3 }),
        },
        texts: (0..choose(3)).map(|i| st(k == 2 && i == 0)).collect(),
        nums: (0..choose(2)).map(|_| if k == 3 { d() } else { 9 }).collect(),
    };
    rt(&v);
}

// ---- direct content
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct Dir {
    #[xml(attribute)]
    a: Option<u8>,
    #[xml(direct)]
    t: String,
}
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct DirOpt {
    #[xml(attribute)]
    a: String,
    #[xml(direct)]
    t: Option<String>,
}
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct DirChild {
    c: u8,
    l: Option<AttrsOnly>,
    #[xml(direct)]
    t: Option<String>,
}
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct DirNum {
    #[xml(direct)]
    t: u8,
}
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct DirAll {
    a: Vec<Dir>,
    b: Option<DirOpt>,
    c: Vec<DirChild>,
    e: DirNum,
}
pub fn h01_direct() {
    let k = choose(5);
    let some = |on: bool| {
        if on {
            // the empty string and an absent value read back the same, so only non-empty ones here
            let mut v = vec![];
            xml_char(&mut v, 0b0111);
            if flag() {
                xml_char(&mut v, L);
            }
            Some(string(v))
        } else if flag() {
            Some("q".to_string())
        } else {
            None
        }
    };
    let v = DirAll {
        a: (0..choose(3)).map(|i| Dir { a: if flag() { Some(1) } else { None }, t: if k == 0 && i == 0 { xml_string(2, L) } else { String::new() } }).collect(),
        b: if k == 1 || k == 2 { Some(DirOpt { a: st(k == 2), t: some(k == 1) }) } else { None },
        c: (0..if k >= 3 { 2 } else { choose(2) })
            .map(|i| DirChild { c: i as u8, l: if flag() { Some(AttrsOnly { a: 1, b: None }) } else { None }, t: some(k == 3 && i == 0) })
            .collect(),
        e: DirNum { t: if k == 4 { d() } else { 0 } },
    };
    rt(&v);
}

// ---- tuple structs
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct T1(String);
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct T2(Leaf, AttrsOnly, Unit);
#[derive(ToXml, FromXml, PartialEq, Debug)]
#[xml(rename = "t-3", ns("urn:t"))]
struct T3(u8);
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct T4(String, Unit);
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct T5(Leaf, u8, Unit, String);
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct Tuples {
    a: T1,
    b: T2,
    c: Vec<T3>,
}
/// text between elements
pub fn h01_mixed() {
    if flag() {
        rt(&T4(xml_string(2, 0b0101), Unit));
    } else {
        rt(&T5(Leaf { k: 1, t: st(true) }, d(), Unit, xml_string(1, 0b0011)));
    }
}
pub fn h01_tuple() {
    let k = choose(3);
    rt(&Tuples {
        a: T1(if k == 0 { xml_string(2, 0b0111) } else { String::new() }),
        b: T2(Leaf { k: 1, t: st(k == 1) }, AttrsOnly { a: 2, b: Some(st(k == 1)) }, Unit),
        c: (0..choose(3)).map(|i| T3(if k == 2 { d() } else { i as u8 })).collect(),
    });
}

// ---- enums
#[derive(ToXml, FromXml, PartialEq, Debug, Clone, Copy)]
#[xml(scalar, rename_all = "kebab-case")]
enum Level {
    Low,
    VeryHigh,
    #[xml(rename = "<&>")]
    Odd,
}
const LEVELS: [Level; 3] = [Level::Low, Level::VeryHigh, Level::Odd];
#[derive(ToXml, FromXml, PartialEq, Debug, Clone)]
#[xml(forward)]
enum Shape {
    A(Leaf),
    B(AttrsOnly),
    C(Unit),
    D(T3c),
}
#[derive(ToXml, FromXml, PartialEq, Debug, Clone)]
struct T3c(String);
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct Enums {
    #[xml(attribute)]
    l1: Level,
    #[xml(attribute)]
    l2: Option<Level>,
    l3: Level,
    l4: Vec<Level>,
    one: Shape,
    many: Vec<Shape2>,
    #[xml(direct)]
    t: Level,
}
#[derive(ToXml, FromXml, PartialEq, Debug, Clone)]
#[xml(forward)]
enum Shape2 {
    X(Sx),
    Y(Sy),
}
#[derive(ToXml, FromXml, PartialEq, Debug, Clone)]
struct Sx {
    v: Option<u8>,
}
#[derive(ToXml, FromXml, PartialEq, Debug, Clone)]
#[xml(ns("urn:y"))]
struct Sy {
    #[xml(direct)]
    v: String,
}
pub fn h01_enums() {
    let lv = || LEVELS[choose(3)];
    let k = choose(3);
    let v = Enums {
        l1: if k == 0 { lv() } else { Level::Low },
        l2: if k == 0 && flag() { Some(lv()) } else { None },
        l3: if k == 0 { lv() } else { Level::VeryHigh },
        l4: (0..if k == 1 { choose(3) } else { 0 }).map(|_| lv()).collect(),
        one: match choose(4) {
            0 => Shape::A(Leaf { k: 1, t: st(k == 2) }),
            1 => Shape::B(AttrsOnly { a: 1, b: Some(st(k == 2)) }),
            2 => Shape::C(Unit),
            _ => Shape::D(T3c(st(k == 2))),
        },
        many: (0..if k == 2 { 0 } else { choose(3) })
            .map(|_| match choose(3) {
                0 => Shape2::X(Sx { v: None }),
                1 => Shape2::X(Sx { v: Some(5) }),
                _ => Shape2::Y(Sy { v: st(k == 1) }),
            })
            .collect(),
        t: if k == 1 { lv() } else { Level::Odd },
    };
    rt(&v);
}

// ---- transparent structs
#[derive(ToXml, FromXml, PartialEq, Debug)]
#[xml(transparent)]
struct Inline {
    x: Leaf,
    y: Option<Unit>,
    z: Vec<AttrsOnly>,
}
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct Outer {
    #[xml(attribute)]
    a: u8,
    first: Sx,
    inl: Inline,
    last: String,
}
pub fn h01_transparent() {
    let k = choose(2);
    rt(&Outer {
        a: if k == 1 { d() } else { 1 },
        first: Sx { v: if flag() { Some(2) } else { None } },
        inl: Inline {
            x: Leaf { k: 1, t: st(k == 0) },
            y: if flag() { Some(Unit) } else { None },
            z: (0..choose(3)).map(|i| AttrsOnly { a: i as u8, b: None }).collect(),
        },
        last: st(k == 0),
    });
}

// ---- namespaces
pub const NA: &str = "urn:a";
pub const NB: &str = "urn:b";
#[derive(ToXml, FromXml, PartialEq, Debug)]
#[xml(ns(NA, b = NB))]
struct Root {
    #[xml(attribute)]
    p: u8,
    #[xml(attribute, ns(NB))]
    q: Option<String>,
    plain: String,
    #[xml(ns(NB))]
    other: Option<u8>,
    #[xml(ns("urn:c"))]
    third: Vec<u8>,
    same: Vec<SameNs>,
    diff: Vec<DiffNs>,
    none: Option<NoNs>,
    forced: Vec<Forced>,
    tail: u8,
}
#[derive(ToXml, FromXml, PartialEq, Debug)]
#[xml(ns(NA))]
struct SameNs {
    #[xml(attribute)]
    a: Option<u8>,
    v: Option<u8>,
}
#[derive(ToXml, FromXml, PartialEq, Debug)]
#[xml(ns(NB, b = "urn:bb", a = NA))]
struct DiffNs {
    #[xml(attribute, ns(NA))]
    a: u8,
    v: Option<u8>,
    #[xml(ns(NA))]
    w: Option<u8>,
    e: Option<NoNs>,
}
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct NoNs {
    #[xml(attribute)]
    a: u8,
}
#[derive(ToXml, FromXml, PartialEq, Debug)]
#[xml(ns(NB, b = NB), force_prefix)]
struct Forced {
    #[xml(attribute, ns(NB))]
    a: Option<u8>,
    v: Option<String>,
    #[xml(ns(NA))]
    w: Option<u8>,
}
fn o8(n: u8) -> Option<u8> {
    if flag() {
        Some(n)
    } else {
        None
    }
}
pub fn h01_ns() {
    let k = choose(5);
    let v = Root {
        p: if k == 0 { d() } else { 1 },
        q: if k == 0 { Some(st(true)) } else if flag() { Some("q".into()) } else { None },
        plain: st(k == 1),
        other: o8(2),
        third: (0..if k == 1 { choose(3) } else { 1 }).map(|i| i as u8).collect(),
        same: (0..if k == 2 { 1 + choose(2) } else { 0 }).map(|_| SameNs { a: o8(1), v: o8(2) }).collect(),
        diff: (0..if k == 3 { 1 + choose(2) } else { 0 }).map(|_| DiffNs { a: 4, v: o8(1), w: o8(2), e: if flag() { Some(NoNs { a: 1 }) } else { None } }).collect(),
        none: if flag() { Some(NoNs { a: 6 }) } else { None },
        forced: (0..if k == 4 { 1 + choose(2) } else { 0 }).map(|_| Forced { a: o8(1), v: if flag() { Some("x".into()) } else { None }, w: o8(2) }).collect(),
        tail: 9,
    };
    rt(&v);
}

// ---- generics, lifetimes, borrowed and owned Cows
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct Gen<T> {
    inner: T,
    list: Vec<T>,
}
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct Bor<'a> {
    #[xml(borrow)]
    t: Cow<'a, str>,
    o: Cow<'a, str>,
    #[xml(attribute)]
    c: Cow<'a, str>,
    ns: Cow<'a, [u8]>,
    opt: Option<Cow<'a, str>>,
    #[xml(borrow)]
    any: Vec<Sub<'a>>,
}
#[derive(ToXml, FromXml, PartialEq, Debug, Clone)]
struct Sub<'a> {
    #[xml(borrow)]
    s: Cow<'a, str>,
}
pub fn h01_borrow() {
    let k = choose(5);
    let (a, b, c) = (st(k == 0), st(k == 1), st(k == 2));
    let e = if k == 4 { xml_string(2, L) } else { String::new() };
    let v = Bor {
        t: Cow::Borrowed(if flag() { &a } else { "" }),
        o: Cow::Borrowed(&b),
        c: Cow::Borrowed(&c),
        ns: Cow::Owned(if k == 3 { vec![d(), 7] } else { vec![1] }),
        opt: if flag() { Some(Cow::Borrowed(&a)) } else { None },
        any: (0..choose(3)).map(|_| Sub { s: Cow::Borrowed(&e) }).collect(),
    };
    let x = match to_string(&v) {
        Ok(x) => x,
        Err(_) => fail(1),
    };
    note_str(1, &x);
    match from_str::<Bor>(&x) {
        Ok(q) => check(v == q, 2),
        Err(_) => fail(3),
    }
    reach(1);
}
pub fn h01_generic() {
    match choose(3) {
        0 => rt(&Gen { inner: st(true), list: vec![st(false); choose(3)] }),
        1 => rt(&Gen { inner: d(), list: vec![7; choose(3)] }),
        // an element and a list of the same element type are distinguished by nothing but order,
        // so a type parameter standing for an element is used once
        _ => rt(&GenE { inner: Leaf { k: 1, t: st(true) }, o: if flag() { Some(Unit) } else { None } }),
    }
}
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct GenE<T, U> {
    inner: T,
    o: Option<U>,
}

// ---- renaming, custom functions
#[derive(ToXml, FromXml, PartialEq, Debug)]
#[xml(rename = "re-named", rename_all = "SCREAMING-KEBAB-CASE")]
struct Ren {
    field_one: String,
    #[xml(attribute)]
    attr_two: u8,
    #[xml(rename = "three.x")]
    field_three: Option<u8>,
    #[xml(serialize_with = "ser_hex", deserialize_with = "de_hex", rename = "hex")]
    hex: u8,
}
fn ser_hex<W: fmt::Write + ?Sized>(v: &u8, s: &mut Serializer<'_, W>) -> Result<(), Error> {
    let e = s.write_start("hex", "", None::<ser::Context<0>>)?;
    s.end_start()?;
    s.write_str(&format_args!("{v:02x}"))?;
    s.write_close(e)
}
fn de_hex<'xml>(acc: &mut <u8 as FromXml<'xml>>::Accumulator, field: &'static str, de: &mut Deserializer<'_, 'xml>) -> Result<(), Error> {
    if acc.is_some() {
        return Err(Error::DuplicateValue(field));
    }
    let Some(s) = de.take_str()? else { return Ok(()) };
    *acc = Some(u8::from_str_radix(&s, 16).map_err(|_| Error::Other("hex".into()))?);
    de.ignore()
}
pub fn h01_rename() {
    let k = choose(3);
    rt(&Ren { field_one: st(k == 0), attr_two: if k == 1 { d() } else { 1 }, field_three: if flag() { Some(3) } else { None }, hex: if k == 2 { d() } else { 0x0a } });
}

// ---- scalars
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct Scalars {
    a: i8,
    #[xml(attribute)]
    b: i16,
    c: u16,
    d: i32,
    #[xml(attribute)]
    e: u32,
    f: i64,
    g: u64,
    #[xml(attribute)]
    h: char,
    i: char,
    j: bool,
    #[xml(attribute)]
    k: bool,
    l: usize,
    m: isize,
}
pub fn h01_scalars() {
    let k = choose(13);
    // symbolic low byte on top of a choice of high bytes, including the extremes of each type
    let w = |n: usize| -> i64 {
        if k != n {
            return 1;
        }
        let hi = [0i64, -256, 0x7f00, 0x7fff_ff00, -0x8000_0000, i64::MIN, i64::MAX - 255, 0xff00, 0xffff_ff00][choose(9)];
        hi + d() as i64
    };
    let ch = |n: usize| -> char {
        if k != n {
            return 'q';
        }
        let mut v = vec![];
        xml_char(&mut v, 0b1111);
        s(&v).chars().next().unwrap()
    };
    let v = Scalars {
        a: w(0) as i8,
        b: w(1) as i16,
        c: w(2) as u16,
        d: w(3) as i32,
        e: w(4) as u32,
        f: w(5),
        g: w(6) as u64,
        h: ch(7),
        i: ch(8),
        j: if k == 9 { flag() } else { true },
        k: if k == 10 { flag() } else { false },
        l: w(11) as usize,
        m: w(12) as isize,
    };
    rt(&v);
}

// ---- longer strings that look like markup
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct Rich<'a> {
    #[xml(attribute)]
    a: String,
    #[xml(attribute, borrow)]
    b: Option<Cow<'a, str>>,
    e: Option<String>,
    v: Vec<String>,
    #[xml(borrow)]
    c: Cow<'a, str>,
    #[xml(direct)]
    t: String,
}
pub fn h01_rich() {
    let w = rich_string(tier(2, 3));
    let z = "z".to_string();
    let k = choose(2) == 0;
    let p = |on: bool| if on { w.clone() } else { z.clone() };
    let v = Rich { a: p(k), b: Some(Cow::Owned(p(!k))), e: Some(p(k)), v: vec![p(!k), z.clone(), p(k)], c: Cow::Owned(p(k)), t: p(!k) };
    let Ok(x) = to_string(&v) else { fail(1) };
    note_str(1, &x);
    match from_str::<Rich>(&x) {
        Ok(q) => check(v == q, 2),
        Err(_) => fail(3),
    }
    reach(1);
}

// ---- sizes: long strings, long lists, deep nesting
#[derive(ToXml, FromXml, PartialEq, Debug)]
#[xml(ns("u", p = "v"))]
struct Big {
    #[xml(attribute)]
    a: String,
    l: Vec<String>,
    n: Vec<u16>,
    o: Option<Box<Big>>,
    #[xml(ns("v"))]
    x: Vec<Item>,
    #[xml(rename = "Z")]
    z: Option<String>,
}
#[derive(ToXml, FromXml, PartialEq, Debug)]
#[xml(rename = "item", ns("v", q = "w"))]
struct Item {
    #[xml(attribute)]
    k: u8,
    #[xml(direct)]
    t: String,
}
pub fn h01_large() {
    let b = d();
    let mut c = vec![];
    push_char(&mut c, 1);
    let mut v = Big { a: "a".into(), l: vec![], n: vec![], o: None, x: vec![], z: None };
    match choose(5) {
        0 => {
            let n = size(tier(300, 1030));
            filler(&mut c, n, 2);
            c.push(b'<');
            filler(&mut c, n, 1);
            let t = string(c);
            match choose(3) {
                0 => v.a = t,
                1 => v.l = vec![t],
                _ => v.z = Some(t),
            }
        }
        1 => {
            let n = [2, 9, 17, 33, 65][choose(5)];
            v.l = vec!["q".into(); n];
            let at = [0, n / 2, n - 1][choose(3)];
            v.l[at] = string(c);
        }
        2 => {
            v.n = (0..[2, 9, 17, 65][choose(4)] as u16).map(|i| i * 997).collect();
            v.n.push(b as u16 + 256);
        }
        3 => {
            v.x = (0..[2, 9, 17, 33, 65][choose(5)]).map(|i| Item { k: i as u8, t: "&".into() }).collect();
            v.x.push(Item { k: b, t: string(c) });
        }
        _ => {
            v.a = string(c);
            for i in 0..[2, 5, 9, 17, 29][choose(5)] {
                v = Big { a: "<".into(), l: vec![], n: vec![i], o: Some(Box::new(v)), x: vec![Item { k: i as u8, t: "".into() }], z: Some("z".into()) };
            }
        }
    }
    rt(&v);
}

// ---- numbers with a fraction: a catalogue, their text being beyond symbolic execution
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct Floats {
    #[xml(attribute)]
    a: f32,
    #[xml(attribute)]
    b: Option<f64>,
    c: f32,
    d: f64,
    e: Vec<f64>,
    #[xml(direct)]
    f: f64,
}
pub fn h01_floats() {
    const D: [f64; 16] = [
        0.0, -0.0, 0.1, 1.0 / 3.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, 1e21, 123456789.12345678, -1e-7, 4503599627370497.5,
        9007199254740993.0, f64::INFINITY, f64::NEG_INFINITY,
    ];
    const S: [f32; 16] = [
        0.0, -0.0, 0.1, 1.0 / 3.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, f32::EPSILON, 16777217.0, 8388609.5, -1e-7, 1e10, 123456.79, f32::INFINITY,
        f32::NEG_INFINITY,
    ];
    let (n, at) = (choose(16), choose(6));
    let mut v = Floats { a: 1.5, b: None, c: 2.5, d: -1.0, e: vec![], f: 0.25 };
    match at {
        0 => v.a = S[n],
        1 => v.b = Some(D[n]),
        2 => v.c = S[n],
        3 => v.d = D[n],
        4 => v.e = vec![D[n], D[15 - n]],
        _ => v.f = D[n],
    }
    let Ok(x) = to_string(&v) else { fail(31) };
    note_str(1, &x);
    match from_str::<Floats>(&x) {
        Ok(q) => {
            check(v == q, 32);
            // the sign of a zero too
            check(v.a.to_bits() == q.a.to_bits() && v.c.to_bits() == q.c.to_bits() && v.d.to_bits() == q.d.to_bits() && v.f.to_bits() == q.f.to_bits(), 33);
        }
        Err(_) => fail(34),
    }
    reach(1);
}
