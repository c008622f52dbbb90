//! Every name written resolves, by the declarations in the document, to the namespace it was written
//! for.  The independent reader judges; the expected tree is built alongside.
use crate::refxml::{self, El};
use crate::sx::*;
use instant_xml::ser::{Context, Prefix};
use instant_xml::*;

const NS: [&str; 4] = ["", "u", "v", "w"];

#[derive(Clone)]
struct Decl {
    depth: usize,
    prefix: &'static str,
    ns: &'static str,
}

struct B {
    /// declarations requested so far by the open elements
    decls: Vec<Decl>,
}

/// what an element declares: up to two prefixes
const SETS: [[(&str, &str); 2]; 9] = [
    [("", ""), ("", "")],
    [("p", "u"), ("", "")],
    [("p", "v"), ("", "")],
    [("p", "u"), ("q", "v")],
    [("q", "u"), ("p", "v")],
    [("q", "v"), ("", "")],
    [("q", "w"), ("p", "u")],
    [("p", "w"), ("q", "u")],
    [("q", "u"), ("", "")],
];

fn cx(ns: &'static str, set: usize, force: bool) -> Context<2> {
    let mut c = Context::<2>::default();
    c.default_ns = ns;
    c.force_prefix = force;
    for i in 0..2 {
        c.prefixes[i] = Prefix { prefix: SETS[set][i].0, ns: SETS[set][i].1 };
    }
    c
}

struct Shape {
    ns: &'static str,
    set: usize,
    /// more declarations
    wide: Vec<(&'static str, &'static str)>,
    force: bool,
    attr: usize,
    children: Vec<Shape>,
    /// a scalar element (written without a context of its own) after the children
    leaf: Option<&'static str>,
    empty: bool,
}

impl B {
    /// Writes the element, and returns what a reader should see; None if an attribute could not be
    /// qualified, which is only allowed when no prefix was declared for its namespace.
    fn write(&mut self, o: &mut Serializer<'_, String>, sh: &Shape, depth: usize) -> Option<El> {
        if sh.wide.is_empty() {
            self.write_n::<2>(o, sh, depth)
        } else {
            self.write_n::<12>(o, sh, depth)
        }
    }
    fn write_n<const N: usize>(&mut self, o: &mut Serializer<'_, String>, sh: &Shape, depth: usize) -> Option<El> {
        let name = ["a", "b", "c", "d"][depth % 4];
        let mut e = El { ns: sh.ns.as_bytes().to_vec(), local: name.as_bytes().to_vec(), ..El::default() };
        let mut c = Context::<N>::default();
        c.default_ns = sh.ns;
        c.force_prefix = sh.force;
        for (i, (prefix, ns)) in SETS[sh.set].iter().filter(|d| !d.0.is_empty()).chain(&sh.wide).copied().enumerate() {
            c.prefixes[i] = Prefix { prefix, ns };
        }
        let started = o.write_start(name, sh.ns, Some(c));
        let el = match started {
            Ok(el) => el,
            Err(_) => fail(1),
        };
        for (p, ns) in SETS[sh.set].iter().chain(&sh.wide).copied() {
            if !p.is_empty() {
                self.decls.push(Decl { depth, prefix: p, ns });
            }
        }
        if sh.attr > 0 {
            let ns = if sh.attr > 10 { WN[sh.attr - 11] } else { NS[sh.attr - 1] };
            let declared = self.decls.iter().any(|d| d.ns == ns);
            // an attribute in the element's own namespace without any prefix: a recorded finding
            if !ns.is_empty() && ns == sh.ns && !(declared && self.usable(ns, depth)) {
                assume(false);
            }
            match o.write_attr("m", ns, "1") {
                Ok(()) => e.attrs.push((ns.as_bytes().to_vec(), b"m".to_vec(), b"1".to_vec())),
                Err(err) => {
                    check(matches!(err, Error::UnexpectedState(_)), 2);
                    check(!ns.is_empty(), 3);
                    check(!self.usable(ns, depth), 4);
                    return None;
                }
            }
            // a second attribute of the same name in no namespace is a different attribute
            if !ns.is_empty() {
                if o.write_attr("m", "", "2").is_err() {
                    fail(5)
                }
                e.attrs.push((vec![], b"m".to_vec(), b"2".to_vec()));
            }
        }
        if sh.empty {
            if o.end_empty().is_err() {
                fail(6)
            }
        } else {
            if o.end_start().is_err() {
                fail(7)
            }
            for c in &sh.children {
                e.children.push(self.write(o, c, depth + 1)?);
            }
            if let Some(ns) = sh.leaf {
                leaf(o, ns);
                e.children.push(El { ns: ns.as_bytes().to_vec(), local: b"t".to_vec(), text: b"x".to_vec(), has_text: true, ..El::default() });
            }
            if o.write_close(el).is_err() {
                fail(8)
            }
        }
        self.decls.retain(|d| d.depth < depth);
        Some(e)
    }

    /// A prefix for `ns` has been requested, and is beyond doubt still in force.
    fn usable(&self, ns: &str, depth: usize) -> bool {
        if self.decls.iter().any(|d| d.ns == ns && d.depth == depth) {
            return true;
        }
        let mut mine = self.decls.iter().filter(|d| d.ns == ns);
        match (mine.next(), mine.next()) {
            (Some(d), None) => !self.decls.iter().any(|x| x.prefix == d.prefix && x.ns != ns && x.depth > d.depth),
            _ => false,
        }
    }
}

fn leaf(o: &mut Serializer<'_, String>, ns: &'static str) {
    if "x".serialize(Some(Id { ns, name: "t" }), o).is_err() {
        fail(9)
    }
}

fn judge(root: &Shape) {
    let mut out = String::new();
    let mut b = B { decls: vec![] };
    let want = b.write(&mut Serializer::new(&mut out), root, 0);
    show(out.as_bytes());
    note_str(1, &out);
    let Some(want) = want else { return reach(2) };
    match refxml::parse(out.as_bytes()) {
        Ok(got) => check(got == want, 10),
        Err(_) => fail(11),
    }
    reach(1);
}

fn leaf_ns() -> Option<&'static str> {
    match choose(4) {
        0 => None,
        k => Some(NS[k - 1]),
    }
}

/// two levels, everything: namespaces, declarations, forced prefixes, attributes, scalars
pub fn h08_pair() {
    let root = Shape {
        wide: vec![],
        ns: NS[choose(3)],
        set: choose(SETS.len()),
        force: flag(),
        attr: 0,
        leaf: if flag() { Some(NS[1]) } else { None },
        empty: false,
        children: vec![Shape {
            wide: vec![],
            ns: NS[choose(3)],
            set: choose(SETS.len()),
            force: flag(),
            attr: choose(4),
            leaf: None,
            empty: true,
            children: vec![],
        }],
    };
    judge(&root);
}

/// attributes of the root itself
pub fn h08_root() {
    let empty = flag();
    judge(&Shape {
        wide: vec![],
        ns: NS[choose(4)],
        set: choose(SETS.len()),
        force: flag(),
        attr: choose(5),
        leaf: if empty { None } else { leaf_ns() },
        empty,
        children: vec![],
    });
}

/// what an element declares is gone after it, whether it was written empty or with content
pub fn h08_sibling() {
    let a = choose(5);
    let first = Shape {
        wide: vec![],
        ns: NS[choose(3)],
        set: choose(SETS.len()),
        force: flag(),
        attr: if DEEP { choose(4) } else { 0 },
        leaf: if a == 0 { None } else { [None, Some("u"), Some("v"), Some("")][a - 1] },
        empty: a == 0,
        children: vec![],
    };
    let second = Shape { wide: vec![], ns: NS[choose(3)], set: [0, 1, 4][choose(3)], force: if DEEP { flag() } else { false }, attr: choose(4), leaf: None, empty: true, children: vec![] };
    judge(&Shape { wide: vec![], ns: NS[choose(2)], set: [0, 1, 3][choose(3)], force: false, attr: 0, leaf: Some(NS[choose(2)]), empty: false, children: vec![first, second] });
}

/// three levels
pub fn h08_deep() {
    let c = Shape { wide: vec![], ns: NS[choose(3)], set: [0, 1, 2, 3][choose(4)], force: flag(), attr: [0, 2, 3][choose(3)], leaf: None, empty: true, children: vec![] };
    let b = Shape {
        wide: vec![],
        ns: NS[choose(3)],
        set: choose(if DEEP { 9 } else { 5 }),
        force: if DEEP { flag() } else { false },
        attr: 0,
        leaf: Some(NS[choose(if DEEP { 3 } else { 2 })]),
        empty: false,
        children: vec![c],
    };
    judge(&Shape { wide: vec![], ns: NS[choose(2)], set: [0, 1, 3, 4][choose(4)], force: if DEEP { flag() } else { false }, attr: 0, leaf: Some("u"), empty: false, children: vec![b] });
}

// ---- derived types: what the macro asks the serializer for

const U: &str = "u";
const V: &str = "v";
#[derive(ToXml)]
#[xml(ns(U, p = V))]
struct Top {
    #[xml(attribute)]
    a: u8,
    #[xml(attribute, ns(V))]
    b: Option<u8>,
    x: u8,
    #[xml(ns(V))]
    y: Option<u8>,
    #[xml(ns("w"))]
    z: Option<u8>,
    #[xml(ns(""))]
    n: Option<u8>,
    mid: Vec<Mid>,
    e: Option<Sc>,
    f: Option<Fw>,
    tr: Option<Tr>,
    after: u8,
}
#[derive(ToXml, Clone)]
#[xml(ns(V, p = U, q = "w"))]
struct Mid {
    #[xml(attribute, ns(U))]
    a: Option<u8>,
    x: Option<u8>,
    #[xml(ns("w"))]
    y: Option<u8>,
    leaf: Option<Leaf>,
    plain: Option<Plain>,
}
#[derive(ToXml, Clone)]
#[xml(ns(U, r = U), force_prefix)]
struct Leaf {
    #[xml(attribute, ns(U))]
    k: u8,
    x: u8,
}
#[derive(ToXml, Clone)]
struct Plain;
#[derive(ToXml, Clone)]
#[xml(scalar, ns(V))]
enum Sc {
    A,
}
#[derive(ToXml, Clone)]
#[xml(forward)]
enum Fw {
    L(Leaf),
    P(Plain),
    M(Mid),
}
#[derive(ToXml, Clone)]
#[xml(transparent)]
struct Tr {
    l: Leaf,
    p: Plain,
}

fn el(ns: &str, local: &str) -> El {
    El { ns: ns.as_bytes().to_vec(), local: local.as_bytes().to_vec(), ..El::default() }
}
fn txt(ns: &str, local: &str, t: &str) -> El {
    El { text: t.as_bytes().to_vec(), has_text: true, ..el(ns, local) }
}
fn at(mut e: El, ns: &str, l: &str, v: &str) -> El {
    e.attrs.push((ns.as_bytes().to_vec(), l.as_bytes().to_vec(), v.as_bytes().to_vec()));
    e
}
fn mid() -> (Mid, El) {
    let m = Mid {
        a: if flag() { Some(1) } else { None },
        x: if flag() { Some(2) } else { None },
        y: if flag() { Some(3) } else { None },
        leaf: if flag() { Some(Leaf { k: 4, x: 5 }) } else { None },
        plain: if flag() { Some(Plain) } else { None },
    };
    let mut e = el("v", "Mid");
    if m.a.is_some() {
        e = at(e, "u", "a", "1");
    }
    if m.x.is_some() {
        e.children.push(txt("v", "x", "2"));
    }
    if m.y.is_some() {
        e.children.push(txt("w", "y", "3"));
    }
    if m.leaf.is_some() {
        e.children.push(lf());
    }
    if m.plain.is_some() {
        e.children.push(el("", "Plain"));
    }
    (m, e)
}
fn lf() -> El {
    let mut e = at(el("u", "Leaf"), "u", "k", "4");
    e.children.push(txt("u", "x", "5"));
    e
}

pub fn h08_derived() {
    let mut want = at(el("u", "Top"), "", "a", "7");
    let o = |c: bool| if c { Some(8) } else { None };
    let (b, y, z, n) = (flag(), flag(), flag(), flag());
    let mut t = Top { a: 7, b: o(b), x: 9, y: o(y), z: o(z), n: o(n), mid: vec![], e: None, f: None, tr: None, after: 6 };
    if b {
        want = at(want, "v", "b", "8");
    }
    want.children.push(txt("u", "x", "9"));
    if y {
        want.children.push(txt("v", "y", "8"));
    }
    if z {
        want.children.push(txt("w", "z", "8"));
    }
    if n {
        want.children.push(txt("", "n", "8"));
    }
    let k = choose(5);
    if k < 2 {
        let (m, e) = mid();
        want.children.push(e.clone());
        t.mid.push(m.clone());
        if k == 1 {
            t.mid.push(m);
            want.children.push(e);
        }
    }
    if k == 2 {
        t.e = Some(Sc::A);
        want.children.push(txt("v", "e", "A"));
    }
    if k == 3 {
        let (f, e) = match choose(3) {
            0 => (Fw::L(Leaf { k: 4, x: 5 }), lf()),
            1 => (Fw::P(Plain), el("", "Plain")),
            _ => {
                let (m, e) = mid();
                (Fw::M(m), e)
            }
        };
        t.f = Some(f);
        want.children.push(e);
    }
    if k == 4 {
        t.tr = Some(Tr { l: Leaf { k: 4, x: 5 }, p: Plain });
        want.children.push(lf());
        want.children.push(el("", "Plain"));
    }
    want.children.push(txt("u", "after", "6"));
    let x = match to_string(&t) {
        Ok(x) => x,
        Err(_) => fail(21),
    };
    show(x.as_bytes());
    note_str(1, &x);
    match refxml::parse(x.as_bytes()) {
        Ok(got) => check(got == want, 22),
        Err(_) => fail(23),
    }
    reach(1);
}

// ---- recorded findings

/// an attribute in its element's own namespace, with no prefix declared for it, comes out unqualified
pub fn h08_attr_default() {
    let mut out = String::new();
    let mut o = Serializer::new(&mut out);
    if o.write_start("a", "u", Some(cx("u", 0, false))).is_err() || o.write_attr("m", "u", "1").is_err() || o.end_empty().is_err() {
        fail(31)
    }
    show(out.as_bytes());
    match refxml::parse(out.as_bytes()) {
        Ok(e) => check(e.attr("u", "m").is_some(), 32),
        Err(_) => fail(33),
    }
    reach(1);
}

/// `write_start` without a context does not track the default namespace it declares for children
pub fn h08_none_child() {
    let mut out = String::new();
    let mut o = Serializer::new(&mut out);
    let e = match o.write_start("a", "u", None::<Context<0>>) {
        Ok(e) => e,
        Err(_) => fail(34),
    };
    if o.end_start().is_err() || "x".serialize(Some(Id { ns: "", name: "t" }), &mut o).is_err() || o.write_close(e).is_err() {
        fail(35)
    }
    show(out.as_bytes());
    match refxml::parse(out.as_bytes()) {
        Ok(e) => check(e.is("u", "a") && e.children.len() == 1 && e.children[0].is("", "t"), 36),
        Err(_) => fail(37),
    }
    reach(1);
}

/// characters with a meaning in XML are not escaped in namespace declarations
pub fn h08_uri() {
    let mut out = String::new();
    let mut o = Serializer::new(&mut out);
    let mut c = Context::<1>::default();
    let u = ["x&y", "x<y", "x\"y"][choose(3)];
    c.default_ns = u;
    if flag() {
        c.prefixes[0] = Prefix { prefix: "p", ns: u };
    }
    if o.write_start("a", u, Some(c)).is_err() || o.end_empty().is_err() {
        fail(38)
    }
    show(out.as_bytes());
    match refxml::parse(out.as_bytes()) {
        Ok(e) => check(e.is(u, "a"), 39),
        Err(_) => fail(39),
    }
    reach(1);
}

const WP: [&str; 12] = ["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9", "pa", "pb"];
const WN: [&str; 12] = ["n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "na", "nb"];

/// many prefixes on one element, and some of them declared again further down
pub fn h08_wide() {
    let n = [2, 5, 12, 3, 4, 8, 9][choose(tier(3, 7))];
    let all: Vec<_> = (0..n).map(|i| (WP[i], WN[i])).collect();
    let some = |k: usize| [0, n / 2, n - 1][k];
    let part = match choose(4) {
        0 => vec![],
        // one prefix for another namespace
        1 => vec![(WP[some(choose(3))], WN[some(choose(3))])],
        // the same declarations in another order, or shifted by one
        2 => all.iter().rev().copied().collect(),
        _ => (0..n).map(|i| (WP[(i + 1) % n], WN[i])).collect(),
    };
    let a = some(choose(3));
    let leafy = some(choose(3));
    let child = Shape { wide: part, ns: [WN[a], "z"][choose(2)], set: 0, force: flag(), attr: 11 + some(choose(3)), leaf: None, empty: true, children: vec![] };
    let after = Shape { wide: vec![], ns: WN[leafy], set: 0, force: false, attr: 11 + a, leaf: Some(WN[leafy]), empty: false, children: vec![] };
    let children = if flag() { vec![child, after] } else { vec![after, child] };
    judge(&Shape { wide: all, ns: ["", WN[n - 1]][choose(2)], set: 0, force: flag(), attr: 0, leaf: Some(WN[leafy]), empty: false, children });
}

/// many levels, each with declarations of its own
pub fn h08_levels() {
    let n = [4, 8, 16][choose(3)];
    let step = choose(3);
    let force = flag();
    let mut sh = Shape { wide: vec![(WP[0], WN[choose(3)])], ns: WN[choose(3)], set: 0, force: flag(), attr: 11 + choose(3), leaf: None, empty: true, children: vec![] };
    for i in 0..n {
        let (p, ns) = match step {
            0 => (WP[i % 12], WN[i % 3]),
            1 => (WP[0], WN[i % 3]),
            _ => (WP[i % 2], WN[i % 5]),
        };
        let leaf = Shape { wide: vec![], ns: WN[i % 3], set: 0, force: false, attr: 11 + i % 3, leaf: None, empty: i % 2 == 0, children: vec![] };
        sh = Shape { wide: vec![(p, ns)], ns: WN[i % 4], set: 0, force, attr: 0, leaf: Some(WN[i % 3]), empty: false, children: if i == n / 2 { vec![sh, leaf] } else { vec![sh] } };
    }
    judge(&sh);
}
