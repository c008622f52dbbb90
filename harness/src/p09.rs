//! The serializer's call protocol: a call that is not allowed at this point is rejected without
//! writing anything or changing what is allowed next; allowed calls produce the tree they describe.
use crate::gen::*;
use crate::refxml::{self, El};
use crate::sx::*;
use instant_xml::ser::{Context, Element};
use instant_xml::*;

struct M {
    /// an opening tag is unfinished
    tag: bool,
    /// open elements, innermost last; the first is the fragment itself
    open: Vec<El>,
    attrs: usize,
}

struct W<'a>(&'a std::cell::RefCell<String>);
impl std::fmt::Write for W<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.borrow_mut().push_str(s);
        Ok(())
    }
}

fn n() -> usize {
    // deeper runs are split into shards on the first choices
    tier(7, 8)
}

fn run(ops: usize, sym: bool) {
    let shared = std::cell::RefCell::new(String::new());
    let mut w = W(&shared);
    let mut m = M { tag: false, open: vec![El { local: b"r".to_vec(), ..El::default() }], attrs: 0 };
    {
        let mut o = Serializer::new(&mut w);
        let len = || shared.borrow().len();
        let mut els: Vec<Element<'static, 0>> = vec![];
        for _ in 0..ops {
            let before = len();
            let (ok, allowed) = match choose(6) {
                0 => {
                    let r = o.write_start("e", "", None::<Context<0>>);
                    let ok = r.is_ok();
                    if let Ok(e) = r {
                        els.push(e);
                    }
                    let allowed = !m.tag;
                    if allowed {
                        m.open.push(El { local: b"e".to_vec(), ..El::default() });
                        m.tag = true;
                        m.attrs = 0;
                    }
                    (ok, allowed)
                }
                1 => {
                    let name = ["a", "b", "c", "d", "e", "f", "g", "h"][m.attrs];
                    let allowed = m.tag;
                    let ok = o.write_attr(name, "", "v").is_ok();
                    if allowed {
                        m.open.last_mut().unwrap().attrs.push((vec![], name.as_bytes().to_vec(), b"v".to_vec()));
                        m.attrs += 1;
                    }
                    (ok, allowed)
                }
                2 => {
                    let c = if sym {
                        let mut v = vec![];
                        xml_char(&mut v, 1);
                        string(v)
                    } else {
                        "t".to_string()
                    };
                    let ok = c.serialize(None, &mut o).is_ok();
                    let allowed = !m.tag;
                    if allowed {
                        let e = m.open.last_mut().unwrap();
                        e.text.extend_from_slice(c.as_bytes());
                        e.has_text = true;
                    }
                    (ok, allowed)
                }
                3 => {
                    let ok = o.end_start().is_ok();
                    let allowed = m.tag;
                    m.tag = false;
                    (ok, allowed)
                }
                4 => {
                    let ok = o.end_empty().is_ok();
                    let allowed = m.tag;
                    if allowed {
                        m.tag = false;
                        els.pop();
                        let e = m.open.pop().unwrap();
                        m.open.last_mut().unwrap().children.push(e);
                    }
                    (ok, allowed)
                }
                _ => {
                    // only an element that was started can be closed
                    assume(!els.is_empty());
                    let e = els.pop().unwrap();
                    let allowed = !m.tag;
                    let ok = o.write_close(e).is_ok();
                    if allowed {
                        let e = m.open.pop().unwrap();
                        m.open.last_mut().unwrap().children.push(e);
                    }
                    if !allowed {
                        // the element is consumed by the failed call: end here
                        check(!ok, 1);
                        check(len() == before, 2);
                        reach(2);
                        return;
                    }
                    (ok, allowed)
                }
            };
            check(ok == allowed, 3);
            check(allowed == (len() > before), 4);
            if !allowed {
                reach(2);
            }
        }
        // finish what is open
        if m.tag {
            m.tag = false;
            check(o.end_start().is_ok(), 5);
        }
        while let Some(e) = els.pop() {
            check(o.write_close(e).is_ok(), 6);
            let e = m.open.pop().unwrap();
            m.open.last_mut().unwrap().children.push(e);
        }
    }
    let out = shared.into_inner();
    show(out.as_bytes());
    note_str(1, &out);
    match refxml::parse_fragment(out.as_bytes()) {
        Ok(got) => check(got == m.open[0], 7),
        Err(_) => fail(8),
    }
    reach(1);
}

pub fn h09_calls() {
    run(n(), false)
}
/// the same, with symbolic text
pub fn h09_text() {
    run(tier(5, 6), true)
}

#[derive(ToXml)]
struct St;
#[derive(ToXml)]
#[xml(forward)]
enum Fw {
    S(St),
}
#[derive(ToXml)]
#[xml(transparent)]
struct Tr {
    s: St,
}
#[derive(ToXml)]
#[xml(transparent)]
struct Tr2 {
    s: u8,
}
#[derive(ToXml)]
struct Tup(u8);

/// elements are rejected as attribute values and inside unfinished tags
pub fn h09_attr_values() {
    fn go<T: ToXml>(v: &T) {
        let mut out = String::new();
        let mut o = Serializer::new(&mut out);
        if o.write_start("e", "", None::<Context<0>>).is_err() {
            fail(11)
        }
        let inside = flag();
        let r = if inside { v.serialize(None, &mut o) } else { o.write_attr("a", "", v) };
        check(matches!(r, Err(Error::UnexpectedState(_))), 12);
        // no element has been written
        check(!out[1..].contains('<'), 13);
        reach(1);
    }
    match choose(7) {
        0 => go(&St),
        1 => go(&Fw::S(St)),
        2 => go(&Tr { s: St }),
        3 => go(&Tr2 { s: 1 }),
        4 => go(&Tup(2)),
        5 => go(&vec![St]),
        _ => go(&Some(Box::new(St))),
    }
}

/// scalar values are accepted as attributes, and the tag goes on after them
pub fn h09_attr_scalars() {
    fn go<T: ToXml>(v: &T, want: &[u8]) {
        let mut out = String::new();
        let mut o = Serializer::new(&mut out);
        if o.write_start("e", "", None::<Context<0>>).is_err() {
            fail(21)
        }
        if o.write_attr("a", "", v).is_err() || o.write_attr("b", "", v).is_err() {
            fail(22)
        }
        check(o.write_start("x", "", None::<Context<0>>).is_err(), 23);
        check(o.write_str("x").is_err(), 24);
        if o.end_empty().is_err() {
            fail(25)
        }
        match refxml::parse(out.as_bytes()) {
            Ok(e) => {
                check(e.attrs.len() == 2, 26);
                check(e.attr("", "a") == Some(want), 27);
                check(e.attr("", "b") == Some(want), 28);
            }
            Err(_) => fail(29),
        }
        reach(1);
    }
    match choose(6) {
        0 => {
            let s = xml_string(tier(2, 3), 0b0011);
            let w = s.as_bytes().to_vec();
            go(&s, &w)
        }
        1 => go(&true, b"true"),
        2 => {
            let b = byte();
            assume(b < 10);
            go(&b, &[b'0' + b])
        }
        3 => {
            let mut v = vec![];
            xml_char(&mut v, 0b0111);
            let st = s(&v);
            let c = st.chars().next().unwrap();
            go(&c, &v)
        }
        4 => go(&std::borrow::Cow::Borrowed("<'>"), b"<'>"),
        _ => go(&Some("q".to_string()), b"q"),
    }
}

// ---- what a value does while it is written as an attribute
struct Acts<'a>(&'a [usize], &'a std::cell::Cell<usize>);
impl ToXml for Acts<'_> {
    fn serialize<W: std::fmt::Write + ?Sized>(&self, _: Option<Id<'_>>, o: &mut Serializer<'_, W>) -> Result<(), Error> {
        let mut accepted = 0;
        for (i, act) in self.0.iter().enumerate() {
            let r = match act {
                0 => o.write_str("t"),
                1 => "<".serialize(None, o),
                2 => 7u8.serialize(None, o),
                3 => o.write_start("e", "", None::<Context<0>>).map(|_| ()),
                4 => o.write_attr("x", "", "v"),
                5 => o.end_start(),
                6 => o.end_empty(),
                7 => "n".serialize(Some(Id { ns: "", name: "e" }), o),
                8 => St.serialize(None, o),
                _ => vec!["a", ">"].serialize(None, o),
            };
            if r.is_ok() {
                accepted |= 1 << i;
            }
        }
        self.1.set(accepted);
        Ok(())
    }
}
/// only text is accepted inside an attribute value, however much of it, and whatever was tried before
pub fn h09_value() {
    let acts: Vec<usize> = (0..1 + choose(tier(3, 4))).map(|_| choose(10)).collect();
    let got = std::cell::Cell::new(0);
    let mut want = vec![];
    let mut ok = 0;
    for (i, a) in acts.iter().enumerate() {
        let t: &[u8] = match a {
            0 => b"t",
            1 => b"<",
            2 => b"7",
            9 => b"a>",
            _ => continue,
        };
        ok |= 1 << i;
        want.extend_from_slice(t);
    }
    let mut out = String::new();
    let mut o = Serializer::new(&mut out);
    let Ok(el) = o.write_start("r", "", None::<Context<0>>) else { fail(41) };
    check(o.write_attr("a", "", &Acts(&acts, &got)).is_ok(), 42);
    check(got.get() == ok, 43);
    let more = flag();
    if more {
        check(o.write_attr("b", "", "w").is_ok(), 44);
    }
    if flag() {
        check(o.end_empty().is_ok(), 45);
    } else {
        check(o.end_start().is_ok() && "x".serialize(None, &mut o).is_ok() && o.write_close(el).is_ok(), 46);
    }
    show(out.as_bytes());
    match refxml::parse(out.as_bytes()) {
        Ok(e) => {
            check(e.attrs.len() == 1 + more as usize && e.children.is_empty(), 47);
            check(e.attr("", "a") == Some(&want[..]), 48);
        }
        Err(_) => fail(49),
    }
    reach(1);
}

/// attributes in namespaces with and without a prefix: those that cannot be written leave no trace
pub fn h09_attr_ns() {
    const N: [&str; 4] = ["", "u", "v", "w"];
    let shared = std::cell::RefCell::new(String::new());
    let mut w = W(&shared);
    let mut o = Serializer::new(&mut w);
    let len = || shared.borrow().len();
    let mut c = Context::<1>::default();
    c.default_ns = N[choose(2)];
    let declared = flag();
    if declared {
        c.prefixes[0] = ser::Prefix { prefix: "p", ns: "v" };
    }
    let Ok(el) = o.write_start("r", c.default_ns, Some(c)) else { fail(51) };
    let mut want = El { local: b"r".to_vec(), ..El::default() };
    for i in 0..tier(2, 3) {
        let k = choose(5);
        if k == 4 {
            continue;
        }
        let (name, before) = (["a", "b", "c"][i], len());
        // an unqualified attribute for the element's own namespace is a recorded finding (C08)
        assume(N[k] != "u");
        match o.write_attr(name, N[k], "1") {
            Ok(()) => {
                check(k == 0 || (k == 2 && declared), 52);
                want.attrs.push((N[k].into(), name.into(), b"1".to_vec()));
            }
            Err(e) => {
                check(matches!(e, Error::UnexpectedState(_)), 53);
                check(k == 3 || !declared, 54);
                check(len() == before, 55);
                reach(2);
            }
        }
    }
    check(o.end_start().is_ok() && o.write_close(el).is_ok(), 56);
    drop(o);
    let out = shared.into_inner();
    show(out.as_bytes());
    match refxml::parse(out.as_bytes()) {
        Ok(e) => check(e.attrs == want.attrs, 57),
        Err(_) => fail(58),
    }
    reach(1);
}
