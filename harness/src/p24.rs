//! The document written is the declared tree: everything that is there, in the declared order, and
//! nothing else.
use crate::gen::*;
use crate::refxml::{self, El};
use crate::sx::*;
use instant_xml::*;
use std::borrow::Cow;

const V: &str = "v";

/// What a value stands for: the elements and text to be found in its place.
trait Tree {
    fn put(&self, to: &mut El);
}
fn el(ns: &str, local: &str) -> El {
    El { ns: ns.as_bytes().to_vec(), local: local.as_bytes().to_vec(), ..El::default() }
}
fn text(to: &mut El, t: &str) {
    to.text.extend_from_slice(t.as_bytes());
    to.has_text |= !t.is_empty();
}
fn scalar(to: &mut El, ns: &str, local: &str, t: &str) {
    let mut e = el(ns, local);
    text(&mut e, t);
    to.children.push(e);
}
fn attr(to: &mut El, ns: &str, local: &str, t: &str) {
    to.attrs.push((ns.into(), local.into(), t.into()));
}
impl<T: Tree> Tree for Option<T> {
    fn put(&self, to: &mut El) {
        if let Some(v) = self {
            v.put(to)
        }
    }
}
impl<T: Tree> Tree for Vec<T> {
    fn put(&self, to: &mut El) {
        for v in self {
            v.put(to)
        }
    }
}
impl<T: Tree> Tree for Box<T> {
    fn put(&self, to: &mut El) {
        (**self).put(to)
    }
}
fn run<T: ToXml + Tree>(v: &T) {
    let out = match to_string(v) {
        Ok(x) => x,
        Err(_) => fail(1),
    };
    show(out.as_bytes());
    note_str(1, &out);
    let mut want = el("", "r");
    v.put(&mut want);
    match refxml::parse_fragment(out.as_bytes()) {
        Ok(mut got) => {
            lax(&mut got);
            check(got == want, 2)
        }
        Err(_) => fail(3),
    }
    reach(1);
}
/// an empty text run is no content
fn lax(e: &mut El) {
    e.has_text &= !e.text.is_empty();
    e.children.iter_mut().for_each(lax);
}

#[derive(ToXml, Clone)]
#[xml(rename = "k", ns("v"))]
struct Kid {
    #[xml(attribute)]
    n: Option<u8>,
    #[xml(direct)]
    t: String,
}
impl Tree for Kid {
    fn put(&self, to: &mut El) {
        let mut e = el("v", "k");
        if let Some(n) = self.n {
            attr(&mut e, "", "n", &n.to_string());
        }
        text(&mut e, &self.t);
        to.children.push(e);
    }
}
#[derive(ToXml, Clone)]
#[xml(scalar, rename_all = "kebab-case")]
enum Sc {
    FirstOne,
    #[xml(rename = "2 & more")]
    Second,
}
impl Sc {
    fn s(&self) -> &'static str {
        match self {
            Sc::FirstOne => "first-one",
            Sc::Second => "2 & more",
        }
    }
}
#[derive(ToXml, Clone)]
#[xml(ns("w"))]
struct Unit;
impl Tree for Unit {
    fn put(&self, to: &mut El) {
        to.children.push(el("w", "Unit"));
    }
}
#[derive(ToXml, Clone)]
#[xml(rename = "tup", ns("u"))]
struct Tup(Kid, u8, Option<Unit>, Vec<Kid>);
impl Tree for Tup {
    fn put(&self, to: &mut El) {
        let mut e = el("u", "tup");
        self.0.put(&mut e);
        text(&mut e, &self.1.to_string());
        self.2.put(&mut e);
        self.3.put(&mut e);
        to.children.push(e);
    }
}
#[derive(ToXml, Clone)]
#[xml(forward)]
enum Fwd {
    K(Kid),
    U(Unit),
    T(Box<Tup>),
}
impl Tree for Fwd {
    fn put(&self, to: &mut El) {
        match self {
            Fwd::K(v) => v.put(to),
            Fwd::U(v) => v.put(to),
            Fwd::T(v) => v.put(to),
        }
    }
}
#[derive(ToXml, Clone)]
#[xml(transparent)]
struct Flat {
    a: Kid,
    b: Option<Unit>,
    c: Vec<Fwd>,
}
impl Tree for Flat {
    fn put(&self, to: &mut El) {
        self.a.put(to);
        self.b.put(to);
        self.c.put(to);
    }
}
#[derive(ToXml, Clone)]
#[xml(rename = "doc", ns("u", p = "v"), rename_all = "camelCase")]
struct Doc {
    last_text: String,
    #[xml(attribute)]
    first_attr: u8,
    maybe: Option<Kid>,
    #[xml(attribute)]
    opt_attr: Option<String>,
    #[xml(rename = "Tag")]
    tags: Vec<String>,
    kids: Vec<Kid>,
    #[xml(ns("v"))]
    other: Option<bool>,
    #[xml(attribute, ns(V), rename = "z")]
    ns_attr: Option<Sc>,
    flat: Flat,
    boxed: Option<Box<Fwd>>,
    list: Option<Vec<u8>>,
    // (a scalar enum's element is in the namespace of the enum)
    sc: Vec<Sc>,
    unit: Option<Unit>,
    tup: Option<Tup>,
    #[xml(attribute)]
    attr_end: Option<char>,
}
impl Tree for Doc {
    fn put(&self, to: &mut El) {
        let mut e = el("u", "doc");
        attr(&mut e, "", "firstAttr", &self.first_attr.to_string());
        if let Some(t) = &self.opt_attr {
            attr(&mut e, "", "optAttr", t);
        }
        if let Some(t) = &self.ns_attr {
            attr(&mut e, "v", "z", t.s());
        }
        if let Some(t) = &self.attr_end {
            attr(&mut e, "", "attrEnd", &t.to_string());
        }
        scalar(&mut e, "u", "lastText", &self.last_text);
        self.maybe.put(&mut e);
        for t in &self.tags {
            scalar(&mut e, "u", "Tag", t);
        }
        self.kids.put(&mut e);
        if let Some(t) = self.other {
            scalar(&mut e, "v", "other", if t { "true" } else { "false" });
        }
        self.flat.put(&mut e);
        self.boxed.put(&mut e);
        for n in self.list.iter().flatten() {
            scalar(&mut e, "u", "list", &n.to_string());
        }
        for t in &self.sc {
            scalar(&mut e, "", "sc", t.s());
        }
        self.unit.put(&mut e);
        self.tup.put(&mut e);
        to.children.push(e);
    }
}
fn kid(n: u8) -> Kid {
    Kid { n: Some(n), t: "t".into() }
}
fn some<T>(v: T) -> Option<T> {
    if flag() {
        Some(v)
    } else {
        None
    }
}
fn doc() -> Doc {
    Doc {
        last_text: "x".into(),
        first_attr: 1,
        maybe: None,
        opt_attr: None,
        tags: vec![],
        kids: vec![],
        other: None,
        ns_attr: None,
        flat: Flat { a: kid(9), b: None, c: vec![] },
        boxed: None,
        list: None,
        sc: vec![],
        unit: None,
        tup: None,
        attr_end: None,
    }
}
/// every combination of present and absent fields
pub fn h24_presence() {
    let mut d = doc();
    d.maybe = some(kid(1));
    d.opt_attr = some("o".into());
    d.tags = some("g".to_string()).into_iter().collect();
    d.kids = some(Kid { n: None, t: String::new() }).into_iter().collect();
    d.other = some(true);
    d.ns_attr = some(Sc::Second);
    d.flat.b = some(Unit);
    d.boxed = some(Box::new(Fwd::U(Unit)));
    d.list = [None, Some(vec![]), Some(vec![5])][choose(3)].clone();
    d.sc = some(Sc::FirstOne).into_iter().collect();
    d.unit = some(Unit);
    d.tup = some(Tup(kid(2), 3, None, vec![]));
    d.attr_end = some('<');
    run(&d)
}
/// lists of every length, of everything
pub fn h24_lists() {
    fn n(max: usize) -> std::ops::Range<u8> {
        0..choose(max + 1) as u8
    }
    let max = tier(2, 3);
    let mut d = doc();
    d.tags = n(max).map(|i| i.to_string()).collect();
    d.kids = n(max).map(kid).collect();
    d.flat.c = n(max).map(|i| [Fwd::K(kid(i)), Fwd::U(Unit), Fwd::T(Box::new(Tup(kid(i), 4, Some(Unit), vec![kid(5)])))][choose(3)].clone()).collect();
    d.list = Some(n(max).collect());
    d.sc = n(max).map(|i| [Sc::FirstOne, Sc::Second][i as usize % 2].clone()).collect();
    run(&d)
}
/// arbitrary text in every place there is for text
pub fn h24_text() {
    let t = xml_string(tier(2, 3), 0b0101);
    let mut d = doc();
    match choose(8) {
        0 => d.last_text = t,
        1 => d.opt_attr = Some(t),
        2 => d.tags = vec!["a".into(), t, "b".into()],
        3 => d.maybe = Some(Kid { n: None, t }),
        4 => d.flat.c = vec![Fwd::K(Kid { n: Some(1), t }), Fwd::U(Unit)],
        5 => d.tup = Some(Tup(Kid { n: None, t }, 7, Some(Unit), vec![kid(1)])),
        6 => {
            d.first_attr = byte();
            d.other = some(false);
        }
        _ => {
            let Some(c) = t.chars().next() else { return };
            d.attr_end = Some(c);
            d.list = Some(vec![byte()]);
        }
    }
    run(&d)
}
/// values on their own, and in sequences
pub fn h24_bare() {
    match choose(7) {
        0 => run(&kid(3)),
        1 => run(&Unit),
        2 => run(&Tup(kid(1), byte(), some(Unit), if flag() { vec![kid(4), kid(3)] } else { vec![] })),
        3 => run(&Flat { a: kid(1), b: some(Unit), c: vec![Fwd::U(Unit), Fwd::K(kid(2))] }),
        4 => run(&some(Fwd::T(Box::new(Tup(kid(1), 2, None, vec![]))))),
        5 => run(&vec![some(kid(1)), some(kid(2)), some(kid(3))]),
        _ => run(&Box::new(Kid { n: some(byte()), t: xml_string(2, 1) })),
    }
}

// ---- shapes the derive macro has to tell apart
#[derive(ToXml)]
#[xml(rename = "m")]
struct Mixed<'a, T> {
    a: Cow<'a, str>,
    b: T,
    #[xml(direct)]
    t: Option<Sc>,
}
impl<T: Tree> Tree for Mixed<'_, T> {
    fn put(&self, to: &mut El) {
        let mut e = el("", "m");
        scalar(&mut e, "", "a", &self.a);
        if let Some(t) = &self.t {
            text(&mut e, t.s());
        }
        self.b.put(&mut e);
        to.children.push(e);
    }
}
#[derive(ToXml)]
struct Attrs<'a> {
    #[xml(attribute)]
    r#type: &'a str,
    #[xml(attribute, rename = "x-y")]
    b: Option<bool>,
    #[xml(attribute)]
    c: Option<Box<i8>>,
}
impl Tree for Attrs<'_> {
    fn put(&self, to: &mut El) {
        let mut e = el("", "Attrs");
        attr(&mut e, "", "type", self.r#type);
        if let Some(b) = self.b {
            attr(&mut e, "", "x-y", &b.to_string());
        }
        if let Some(c) = &self.c {
            attr(&mut e, "", "c", &c.to_string());
        }
        to.children.push(e);
    }
}
#[derive(ToXml)]
struct Deep {
    k: Option<Kid>,
    #[xml(rename = "deep")]
    d: Vec<Deep>,
    t: u8,
}
impl Tree for Deep {
    fn put(&self, to: &mut El) {
        let mut e = el("", "Deep");
        self.k.put(&mut e);
        self.d.put(&mut e);
        scalar(&mut e, "", "t", &self.t.to_string());
        to.children.push(e);
    }
}
fn deep(levels: usize) -> Deep {
    let mut d = vec![];
    if levels > 0 {
        for _ in 0..choose(3) {
            d.push(deep(levels - 1));
        }
    }
    Deep { k: some(kid(1)), d, t: levels as u8 }
}
pub fn h24_shapes() {
    match choose(4) {
        0 => run(&Mixed { a: Cow::from(xml_string(1, 0b0101)), t: some(Sc::Second), b: some(Unit) }),
        1 => run(&Mixed { a: Cow::from("a"), t: some(Sc::FirstOne), b: vec![some(Box::new(kid(byte()))), Some(Box::new(kid(1)))] }),
        2 => run(&Attrs { r#type: &xml_string(1, 0b0101), b: some(true), c: some(Box::new(byte() as i8)) }),
        _ => run(&deep(2)),
    }
}

// ---- values without any state
#[derive(Clone)]
struct Mark;
impl std::fmt::Display for Mark {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("<m>")
    }
}
impl ToXml for Mark {
    fn serialize<W: std::fmt::Write + ?Sized>(&self, field: Option<Id<'_>>, o: &mut Serializer<'_, W>) -> Result<(), Error> {
        display_to_xml(self, field, o)
    }
}
#[derive(ToXml, Clone)]
#[xml(scalar)]
enum Only {
    This,
}
#[derive(ToXml)]
#[xml(rename = "s", ns("u", p = "v"))]
struct Stateless {
    #[xml(attribute)]
    a: Option<Mark>,
    #[xml(attribute, ns(V))]
    b: Option<Only>,
    #[xml(attribute)]
    c: Box<Option<Box<Mark>>>,
    d: Option<Mark>,
    e: Vec<Only>,
    f: Option<Option<Unit>>,
    g: Vec<Unit>,
    h: Option<Box<Only>>,
    #[xml(direct)]
    i: Option<Mark>,
}
impl Tree for Stateless {
    fn put(&self, to: &mut El) {
        let mut e = el("u", "s");
        self.a.iter().for_each(|_| attr(&mut e, "", "a", "<m>"));
        self.b.iter().for_each(|_| attr(&mut e, "v", "b", "This"));
        self.c.iter().for_each(|_| attr(&mut e, "", "c", "<m>"));
        self.d.iter().for_each(|_| scalar(&mut e, "u", "d", "<m>"));
        self.e.iter().for_each(|_| scalar(&mut e, "", "e", "This"));
        self.f.put(&mut e);
        self.g.put(&mut e);
        self.h.iter().for_each(|_| scalar(&mut e, "", "h", "This"));
        self.i.iter().for_each(|_| text(&mut e, "<m>"));
        to.children.push(e);
    }
}
/// what has no state is there all the same
pub fn h24_stateless() {
    fn opt<T>(v: T) -> Option<T> {
        if flag() { Some(v) } else { None }
    }
    fn list<T: Clone>(v: T) -> Vec<T> {
        vec![v; choose(3)]
    }
    let mut v = Stateless { a: None, b: None, c: Box::new(None), d: None, e: vec![], f: None, g: vec![], h: None, i: None };
    match choose(4) {
        0 => {
            v.a = opt(Mark);
            v.b = opt(Only::This);
            *v.c = opt(Box::new(Mark));
        }
        1 => {
            v.a = opt(Mark);
            v.d = opt(Mark);
            v.e = list(Only::This);
            v.i = opt(Mark);
        }
        2 => {
            v.f = opt(opt(Unit));
            v.g = list(Unit);
            v.h = opt(Box::new(Only::This));
        }
        _ => {
            v.b = opt(Only::This);
            v.h = opt(Box::new(Only::This));
            v.i = opt(Mark);
        }
    }
    run(&v)
}
