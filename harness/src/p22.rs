//! The cursor: whatever way a document is walked, it yields what is there, in order, once.
use crate::gen::*;
use crate::sx::*;
use instant_xml::de::{Deserializer, Node};
use instant_xml::*;
use std::borrow::Cow;

enum It {
    T(Vec<u8>),
    E(N),
}
struct N {
    prefix: &'static str,
    name: &'static str,
    ns: &'static str,
    /// prefix p in scope within
    p: Option<&'static str>,
    attrs: Vec<(&'static str, &'static str, &'static str, Vec<u8>)>,
    items: Vec<It>,
}

/// Bounds of one document: nodes left, and whether text is symbolic
struct G {
    left: usize,
    doc: Vec<u8>,
}
impl G {
    fn text(&mut self) -> Vec<u8> {
        let mut v = vec![];
        if self.left > 100 {
            xml_char(&mut v, 1);
            let b = v[0];
            assume((b != b'<') & (b != b'&') & (b != b'>') & (b != b'"'));
        } else {
            v.push(b't');
        }
        v
    }
    fn node(&mut self, g: usize, depth: usize, def: &'static str, p: Option<&'static str>) -> N {
        self.doc.push(b'<');
        // names repeat on purpose: a nested element may be called what its parent is called
        let (prefix, mut p2, mut def2) = ("", p, def);
        let mut n = N { prefix, name: "", ns: "", p: None, attrs: vec![], items: vec![] };
        let decl = match if g == self.left { choose(3) } else { choose(if p.is_some() { 5 } else { 4 }) } {
            0 => {
                n.name = "e";
                ""
            }
            1 => {
                n.name = "s";
                p2 = Some("v");
                " xmlns:p='v'"
            }
            2 => {
                n.name = "e";
                def2 = "w";
                " xmlns='w'"
            }
            3 => {
                n.prefix = "p";
                n.name = "e";
                p2 = Some("u");
                " xmlns:p='u'"
            }
            _ => {
                n.prefix = "p";
                n.name = "e";
                ""
            }
        };
        n.p = p2;
        n.ns = if n.prefix.is_empty() { def2 } else { p2.unwrap() };
        let mut qn = n.name.as_bytes().to_vec();
        if !n.prefix.is_empty() {
            qn = [b"p:", &qn[..]].concat();
        }
        self.doc.extend_from_slice(&qn);
        if flag() {
            let v = self.text();
            self.doc.extend_from_slice(b" k=\"");
            self.doc.extend_from_slice(&v);
            self.doc.extend_from_slice(b"\"");
            n.attrs.push(("", "k", "", v));
            // a declaration between attributes
            self.doc.extend_from_slice(decl.as_bytes());
            if p2.is_some() {
                self.doc.extend_from_slice(b" p:j=\"&amp;\"");
                n.attrs.push(("p", "j", p2.unwrap(), b"&".to_vec()));
            }
        } else {
            self.doc.extend_from_slice(decl.as_bytes());
        }
        let mut text = false;
        let shape = choose(4);
        if shape == 0 {
            self.doc.extend_from_slice(b"/>");
            return n;
        }
        self.doc.push(b'>');
        for _ in 1..shape {
            if self.left % 100 == 0 {
                break;
            }
            self.left -= 1;
            if depth > 0 && (text || flag()) {
                let c = self.node(0, depth - 1, def2, p2);
                n.items.push(It::E(c));
                text = false;
            } else if !text {
                let v = self.text();
                self.doc.extend_from_slice(b"<!-- -->");
                self.doc.extend_from_slice(&v);
                n.items.push(It::T(v));
                text = true;
            }
        }
        self.doc.extend_from_slice(b"</");
        self.doc.extend_from_slice(&qn);
        self.doc.extend_from_slice(b" >");
        n
    }
}

fn eq(a: &str, b: &[u8], code: u32) {
    check(a.len() == b.len(), code);
    check(a.as_bytes() == b, code);
}
fn same(a: &AnyElement<'_>, n: &N) {
    eq(&a.ns, n.ns.as_bytes(), 41);
    eq(&a.name, n.name.as_bytes(), 42);
    check(a.attributes.len() == n.attrs.len(), 43);
    for (x, y) in a.attributes.iter().zip(&n.attrs) {
        eq(&x.name, y.1.as_bytes(), 44);
        eq(&x.ns, y.2.as_bytes(), 45);
        eq(&x.value, &y.3, 46);
    }
    let mut t = vec![];
    let mut kids = a.children.iter();
    for i in &n.items {
        match i {
            It::T(v) => t.extend_from_slice(v),
            It::E(c) => match kids.next() {
                Some(k) => same(k, c),
                None => fail(47),
            },
        }
    }
    check(kids.next().is_none(), 48);
    let _ = t;
}

/// Walk the element from event `at` on.  `ops`: how many steps are free.
fn walk(d: &mut Deserializer<'_, '_>, n: &N, mut at: usize, ops: &mut usize) {
    let len = n.attrs.len() + n.items.len();
    loop {
        let act = if *ops > 0 {
            *ops -= 1;
            choose(5)
        } else {
            0
        };
        // what is known about the place does not depend on the progress
        let id = d.parent();
        eq(id.ns, n.ns.as_bytes(), 1);
        eq(id.name, n.name.as_bytes(), 2);
        match act {
            1 => {
                check(d.ignore().is_ok(), 3);
                break;
            }
            2 => {
                // attributes are passed over
                at = at.max(n.attrs.len());
                let r = d.take_str();
                if at == len {
                    check(matches!(r, Ok(None)), 4);
                    break;
                }
                match (&n.items[at - n.attrs.len()], r) {
                    (It::T(v), Ok(Some(t))) => eq(&t, v, 5),
                    (It::E(_), Err(Error::ExpectedScalar(_))) => {
                        reach(2);
                        return;
                    }
                    _ => fail(6),
                }
                at += 1;
                continue;
            }
            3 => {
                // a node given back is read first, and nothing else changes
                let mut sub = d.for_node(Node::Text(Cow::Borrowed("x")));
                eq(sub.parent().name, n.name.as_bytes(), 7);
                match sub.next() {
                    Some(Ok(Node::Text(t))) => check(t == "x", 8),
                    _ => fail(9),
                }
                if flag() {
                    // read on from there; the outer cursor is not used again
                    walk(&mut sub, n, at, ops);
                    return;
                }
                continue;
            }
            _ => {}
        }
        let next = d.next();
        if at == len {
            check(next.is_none(), 10);
            break;
        }
        let node = match next {
            Some(Ok(node)) => node,
            _ => fail(11),
        };
        if at < n.attrs.len() {
            let a = &n.attrs[at];
            match node {
                Node::Attribute(x) => {
                    eq(x.local, a.1.as_bytes(), 12);
                    check(x.prefix.unwrap_or("") == a.0, 13);
                    eq(&x.value, &a.3, 14);
                    match d.attribute_id(&x) {
                        Ok(id) => {
                            eq(id.ns, a.2.as_bytes(), 15);
                            eq(id.name, a.1.as_bytes(), 16);
                        }
                        Err(_) => fail(17),
                    }
                    if act == 4 {
                        // give it back and take it again
                        let mut sub = d.for_node(Node::Attribute(x));
                        match sub.next() {
                            Some(Ok(Node::Attribute(x))) => eq(&x.value, &a.3, 18),
                            _ => fail(19),
                        }
                    }
                }
                _ => fail(20),
            }
            at += 1;
            continue;
        }
        match (&n.items[at - n.attrs.len()], node) {
            (It::T(v), Node::Text(t)) => {
                eq(&t, v, 21);
                if act == 4 {
                    match d.for_node(Node::Text(t)).take_str() {
                        Ok(Some(t)) => eq(&t, v, 22),
                        _ => fail(23),
                    }
                }
            }
            (It::E(c), Node::Open(e)) => {
                match d.element_id(&e) {
                    Ok(id) => {
                        eq(id.ns, c.ns.as_bytes(), 24);
                        eq(id.name, c.name.as_bytes(), 25);
                    }
                    Err(_) => fail(26),
                }
                check(d.namespace("p") == c.p, 27);
                let mut sub = d.nested(e);
                if act == 4 {
                    match sub.deserialize::<AnyElement>() {
                        Ok(a) => same(&a, c),
                        Err(_) => fail(28),
                    }
                } else {
                    walk(&mut sub, c, 0, ops);
                    // what the walk left, unless it ended in an element that is not text
                    if sub.ignore().is_err() {
                        return;
                    }
                }
                check(d.namespace("p") == n.p, 29);
                check(d.namespace("q").is_none(), 30);
            }
            _ => fail(31),
        }
        at += 1;
    }
    // the end stays the end
    check(d.next().is_none(), 32);
    check(matches!(d.take_str(), Ok(None)), 33);
    check(d.ignore().is_ok(), 34);
    check(d.next().is_none(), 35);
    reach(1);
}

fn run(left: usize, depth: usize, mut ops: usize) {
    let mut g = G { left, doc: vec![] };
    g.doc.extend_from_slice(b"<?xml version='1.0'?><!-- -->");
    let root = g.node(left, depth, "", None);
    let doc = g.doc;
    show(&doc);
    note_str(1, s(&doc));
    let mut d = match Deserializer::new(s(&doc)) {
        Ok(d) => d,
        Err(_) => fail(40),
    };
    walk(&mut d, &root, 0, &mut ops);
}
pub fn h22_walk() {
    run(tier(2, 3), 2, tier(2, 3))
}
/// the same with arbitrary characters as text
pub fn h22_text() {
    run(101, 1, 2)
}
/// elements of the same name inside each other, walked and left at any point
pub fn h22_nest() {
    fn nest(levels: usize, doc: &mut Vec<u8>) -> N {
        let name = ["e", "s"][choose(2)];
        let mut n = N { prefix: "", name, ns: "", p: None, attrs: vec![], items: vec![] };
        if levels == 0 {
            doc.extend_from_slice(format!("<{name}/>").as_bytes());
            return n;
        }
        doc.extend_from_slice(format!("<{name}>").as_bytes());
        n.items.push(It::E(nest(levels - 1, doc)));
        if flag() {
            doc.extend_from_slice(b"t");
            n.items.push(It::T(b"t".to_vec()));
        }
        doc.extend_from_slice(format!("</{name}>").as_bytes());
        n
    }
    let mut doc = vec![];
    let levels = 1 + choose(tier(4, 5));
    let n = nest(levels, &mut doc);
    show(&doc);
    let mut d = match Deserializer::new(s(&doc)) {
        Ok(d) => d,
        Err(_) => fail(40),
    };
    walk(&mut d, &n, 0, &mut tier(3, 4));
}
