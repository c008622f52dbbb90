//! A writer that fails makes serialisation fail, at once and without a trace of what came after.
use crate::gen::*;
use crate::sx::*;
use instant_xml::ser::{Context, Element, Prefix};
use instant_xml::*;
use std::fmt::Write;

/// Fails the call that would take it past `left` bytes (or calls), once or for good.
struct Faulty {
    limit: usize,
    used: usize,
    calls: bool,
    partial: bool,
    once: bool,
    out: String,
    failed: bool,
    after: usize,
}
impl Write for Faulty {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.after += 1;
            if !self.once {
                return Err(std::fmt::Error);
            }
        } else {
            let cost = if self.calls { 1 } else { s.len() };
            if self.used + cost > self.limit {
                self.failed = true;
                if self.partial && !self.calls {
                    let n = boundary(s, pick(self.limit as u64) as usize - self.used);
                    self.out.push_str(&s[..n]);
                }
                return Err(std::fmt::Error);
            }
            self.used += cost;
        }
        self.out.push_str(s);
        Ok(())
    }
}
/// the place of the fault is a solver variable: paths fork where a write succeeds or fails
const MAX: usize = 250;
fn faulty(max: usize) -> Faulty {
    let (calls, partial, once) = [(true, false, false), (true, false, true), (false, false, true), (false, true, true)][choose(4)];
    Faulty { limit: choose_lazy(max), used: 0, calls, partial, once, out: String::new(), failed: false, after: 0 }
}
fn judge(w: Faulty, r: Result<(), Error>, full: &str) {
    if w.failed {
        check(matches!(r, Err(Error::Format(_))), 1);
        check(w.after == 0, 2);
        check(w.out.len() <= full.len() && full.as_bytes()[..w.out.len()] == *w.out.as_bytes(), 3);
        reach(2);
    } else {
        check(r.is_ok(), 4);
        check(w.out == full, 5);
        reach(1);
    }
}
fn run<T: ToXml + ?Sized>(v: &T) {
    let full = match to_string(v) {
        Ok(x) => x,
        Err(_) => fail(6),
    };
    show(full.as_bytes());
    check(full.len() < MAX, 9);
    let mut w = faulty(MAX);
    let r = match flag() {
        false => to_writer(v, &mut w),
        true => to_writer(v, &mut w as &mut dyn Write),
    };
    judge(w, r, &full)
}

fn upper<W: Write + ?Sized>(v: &str, o: &mut Serializer<'_, W>) -> Result<(), Error> {
    let e = o.write_start("w", "", None::<Context<0>>)?;
    o.write_attr("k", "", &1u8)?;
    o.end_start()?;
    o.write_str(&format_args!("<{}>", v.len()))?;
    o.write_close(e)
}
const V: &str = "v";
#[derive(ToXml)]
#[xml(rename = "r", ns("u", p = "v", q = "w"))]
struct Named<'a> {
    #[xml(attribute)]
    a: &'a str,
    #[xml(attribute, ns(V))]
    b: Option<i16>,
    c: String,
    #[xml(ns("v"))]
    d: bool,
    #[xml(ns("x"), rename = "e-e")]
    e: Vec<char>,
    #[xml(serialize_with = "upper")]
    f: &'a str,
    g: Inner,
    #[xml(rename = "h")]
    h: Option<Empty>,
}
#[derive(ToXml)]
#[xml(rename = "inner", ns("v"))]
struct Inner {
    #[xml(attribute)]
    k: Option<u8>,
    #[xml(direct)]
    t: String,
}
#[derive(ToXml)]
#[xml(ns("w"))]
struct Empty;
#[derive(ToXml)]
struct Attrs {
    #[xml(attribute)]
    a: Option<u8>,
}
#[derive(ToXml)]
#[xml(ns("u", p = "v"))]
struct Tup(u8, Inner, Option<Empty>);
#[derive(ToXml)]
#[xml(forward)]
enum Fwd {
    I(Inner),
    E(Empty),
}
#[derive(ToXml)]
#[xml(scalar, rename_all = "lowercase")]
enum Sc {
    Red,
    Green,
}
#[derive(ToXml)]
#[xml(transparent)]
struct Flat {
    a: Inner,
    b: Option<Empty>,
}
#[derive(ToXml)]
struct Holds {
    #[xml(attribute)]
    s: Sc,
    f: Vec<Fwd>,
    t: Flat,
    x: Sc,
}
fn inner() -> Inner {
    Inner { k: if flag() { Some(3) } else { None }, t: if flag() { xml_string(1, 0b0101) } else { String::new() } }
}
pub fn h21_named() {
    let t = xml_string(1, 0b0101);
    let few = flag();
    run(&Named {
        a: &t,
        b: if few { None } else { Some(-5) },
        c: "&".into(),
        d: few,
        e: if few { vec![] } else { vec!['x', '<'] },
        f: "ab",
        g: inner(),
        h: if few { None } else { Some(Empty) },
    })
}
pub fn h21_shapes() {
    match choose(6) {
        0 => run(&Empty),
        1 => run(&Attrs { a: if flag() { Some(1) } else { None } }),
        2 => run(&Tup(7, inner(), if flag() { Some(Empty) } else { None })),
        3 => run(&Holds { s: Sc::Red, f: vec![Fwd::I(inner()), Fwd::E(Empty)], t: Flat { a: inner(), b: Some(Empty) }, x: Sc::Green }),
        4 => run(&[inner(), inner()][..]),
        _ => run(&Some(Box::new(Flat { a: inner(), b: None }))),
    }
}
/// every value written as text, bare and in an element and attribute
pub fn h21_scalars() {
    fn both<T: ToXml>(v: &T) {
        #[derive(ToXml)]
        struct S<'a, T> {
            #[xml(attribute)]
            a: &'a T,
            e: &'a T,
        }
        match flag() {
            false => run(v),
            true => run(&S { a: v, e: v }),
        }
    }
    use chrono::*;
    let d = NaiveDate::from_ymd_opt(2024, 2, 29).unwrap();
    let dt = d.and_hms_nano_opt(1, 2, 3, 5_000_000).unwrap();
    match choose(12) {
        0 => both(&xml_string(2, 1)),
        1 => both(&pick(byte() as u64)),
        2 => both(&-12i8),
        3 => both(&1.5f64),
        4 => both(&true),
        5 => both(&'&'),
        6 => both(&std::borrow::Cow::from("a<b")),
        7 => both(&std::net::IpAddr::from([1, 2, 3, 4])),
        8 => both(&std::net::IpAddr::from([1u16, 0, 0, 0, 0, 0, 2, 3])),
        9 => both(&d),
        10 => both(&dt),
        _ => both(&Utc.from_utc_datetime(&dt)),
    }
}
/// the serializer's own calls
pub fn h21_calls() {
    let p = choose(3);
    let t = ["", "t", "a&b"][choose(3)];
    let e = flag();
    fn fixed<W: Write + ?Sized>(o: &mut Serializer<'_, W>, text: &str, p: usize, e: bool) -> Result<(), Error> {
        let cx = |d| {
            let mut cx = Context::<2>::default();
            cx.default_ns = d;
            cx.prefixes = [Prefix { prefix: "p", ns: "v" }, Prefix { prefix: "q", ns: "w" }];
            cx.force_prefix = p == 1;
            Some(cx)
        };
        let a = o.write_start("a", "u", cx("u"))?;
        o.write_attr("k", "v", text)?;
        o.end_start()?;
        let b: Element<'_, 2> = o.write_start("b", ["u", "v", "x"][p], cx(["u", "v", "x"][p]))?;
        o.write_attr("n", "", &5u8)?;
        if e {
            o.end_empty()?;
        } else {
            o.end_start()?;
            o.write_str(text)?;
            o.write_close(b)?;
        }
        text.serialize(Some(Id { ns: "w", name: "t" }), o)?;
        o.write_close(a)
    }
    let mut full = String::new();
    let r = fixed(&mut Serializer::new(&mut full), t, p, e);
    check(r.is_ok(), 6);
    check(full.len() < MAX, 9);
    let mut w = faulty(MAX);
    let r = fixed(&mut Serializer::new(&mut w), t, p, e);
    judge(w, r, &full)
}

/// a long document: the fault is noticed wherever it is
pub fn h21_long() {
    #[derive(ToXml)]
    struct List<'a> {
        #[xml(attribute)]
        a: &'a str,
        i: Vec<Inner>,
        t: &'a str,
    }
    let mut v = vec![];
    filler(&mut v, tier(150, 700), 3);
    v.push(b'&');
    filler(&mut v, tier(150, 700), 1);
    let v = string(v);
    let l = List { a: &v, i: (0..tier(12, 40)).map(|i| Inner { k: Some(i as u8), t: "<".into() }).collect(), t: &v };
    let full = match to_string(&l) {
        Ok(x) => x,
        Err(_) => fail(6),
    };
    let mut w = faulty(MAX);
    w.limit = w.limit + MAX * choose(full.len() / MAX + 1);
    let r = to_writer(&l, &mut w);
    judge(w, r, &full)
}
