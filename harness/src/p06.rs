//! Namespace resolution on reading: names mean what the declarations in scope say.
use crate::gen::*;
use crate::refxml::{self, El};
use crate::sx::*;
use instant_xml::*;

/// AnyElement sees exactly the resolved tree, or there is an error in both readers.
fn judge(v: &[u8]) -> Option<El> {
    show(v);
    let want = refxml::parse(v);
    let got = from_str::<AnyElement>(s(v));
    match (want, got) {
        (Ok(e), Ok(a)) => {
            check(refxml::same(&a, &e), 1);
            reach(1);
            Some(e)
        }
        (Err(_), Err(e)) => {
            check(matches!(e, Error::UnknownPrefix(_)), 2);
            reach(2);
            None
        }
        (Ok(_), Err(_)) => fail(3),
        (Err(_), Ok(_)) => fail(4),
    }
}

fn put(v: &mut Vec<u8>, x: &str) {
    v.extend_from_slice(x.as_bytes())
}

/// scoping, overriding, undeclaring and restoring over a small tree
pub fn h06_tree() {
    let mut v = vec![];
    put(&mut v, "<a");
    put(&mut v, ["", " xmlns=\"u\""][choose(2)]);
    put(&mut v, ["", " xmlns:p=\"u\"", " xmlns:p='v' xmlns:q=\"u\""][choose(3)]);
    put(&mut v, "><");
    let pc = ["", "p:", "q:"][choose(3)];
    put(&mut v, pc);
    put(&mut v, "b");
    // declarations may come before or after what uses them
    let d = choose(2);
    let decl = [["", " xmlns=\"\"", " xmlns='v'"][choose(3)], ["", " xmlns:p='w'", " xmlns:q=\"v\""][choose(3)]];
    let at = ["", " m='1'", " p:m='1'", " q:m=\"1\""][choose(4)];
    if d == 0 {
        put(&mut v, decl[0]);
        put(&mut v, decl[1]);
        put(&mut v, at);
    } else {
        put(&mut v, at);
        put(&mut v, decl[1]);
        put(&mut v, decl[0]);
    }
    put(&mut v, ">");
    let g = ["", "p:", "q:"][choose(3)];
    put(&mut v, "<");
    put(&mut v, g);
    put(&mut v, "c");
    put(&mut v, ["", " xmlns='u'"][choose(2)]);
    put(&mut v, ["/>", "></c>"][if g.is_empty() { choose(2) } else { 0 }]);
    put(&mut v, "</");
    put(&mut v, pc);
    put(&mut v, "b>");
    put(&mut v, ["<d/>", "<p:d/>", "<q:d p:n=''/>", "<d q:n=''/>"][choose(4)]);
    put(&mut v, "</a>");
    judge(&v);
}

#[derive(FromXml, Debug)]
#[xml(rename = "a", ns("u", p = "v"))]
struct A {
    #[xml(attribute)]
    m: Option<String>,
    #[xml(attribute, ns("v"))]
    n: Option<String>,
    x: Option<String>,
    #[xml(ns("v"))]
    y: Option<String>,
    #[xml(ns(""))]
    z: Option<String>,
    k: Option<K>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "k", ns("w"))]
struct K {
    #[xml(attribute)]
    m: Option<String>,
    e: Option<u8>,
}

/// derived types bind fields by resolved name and namespace, and only by that
pub fn h06_typed() {
    let mut v = vec![];
    let kind = choose(3);
    // bindings of the root
    put(&mut v, ["<a", "<r:a", "<a"][kind]);
    put(&mut v, ["", " xmlns='u'", " xmlns='v'"][choose(3)]);
    put(&mut v, ["", " xmlns:r='u'", " xmlns:r='v'", " xmlns:r='u' xmlns:s='v'"][choose(4)]);
    put(&mut v, ["", " m='1'", " r:n='2'", " s:n='2'", " n='3'", " r:m='1'"][choose(6)]);
    put(&mut v, ">");
    let child = choose(5);
    let name = ["x", "y", "z"][choose(3)];
    let (pre, decl) = [("", ""), ("r:", ""), ("s:", ""), ("", " xmlns=''"), ("", " xmlns='v'")][child];
    put(&mut v, "<");
    put(&mut v, pre);
    put(&mut v, name);
    put(&mut v, decl);
    put(&mut v, ">t</");
    put(&mut v, pre);
    put(&mut v, name);
    put(&mut v, ">");
    put(&mut v, ["", "<k xmlns='w' m='5'><e>1</e></k>", "<k/>", "<w:k xmlns:w='w'><e>1</e><w:e>2</w:e></w:k>"][choose(4)]);
    put(&mut v, if kind == 1 { "</r:a>" } else { "</a>" });
    show(&v);
    let want = refxml::parse(&v);
    let got = from_str::<A>(s(&v));
    let e = match (want, got) {
        (Ok(e), Ok(a)) => {
            check(e.is("u", "a"), 11);
            (e, a)
        }
        (Ok(e), Err(_)) => {
            check(!e.is("u", "a"), 12);
            return reach(2);
        }
        (Err(_), Err(_)) => return reach(2),
        (Err(_), Ok(_)) => fail(13),
    };
    let (e, a) = e;
    let text = |ns: &str, l: &str| e.children.iter().find(|c| c.is(ns, l)).map(|c| c.text.clone());
    let b = |o: &Option<String>| o.as_ref().map(|x| x.as_bytes().to_vec());
    check(b(&a.m).as_deref() == e.attr("", "m"), 14);
    check(b(&a.n).as_deref() == e.attr("v", "n"), 15);
    check(b(&a.x) == text("u", "x"), 16);
    check(b(&a.y) == text("v", "y"), 17);
    check(b(&a.z) == text("", "z"), 18);
    let k = e.children.iter().find(|c| c.is("w", "k"));
    match (&a.k, k) {
        (Some(x), Some(y)) => {
            check(b(&x.m).as_deref() == y.attr("", "m"), 19);
            let z = y.children.iter().find(|c| c.is("w", "e"));
            check(x.e.map(|x| x + b'0') == z.map(|z| z.text[0]), 20);
        }
        (None, None) => {}
        _ => fail(21),
    }
    reach(1);
}

fn name_char(first: bool) -> u8 {
    let b = byte();
    let start = ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | (b == b'_');
    assume(if first { start } else { start | ((b >= b'0') & (b <= b'9')) | (b == b'-') | (b == b'.') });
    b
}

/// two declarations with arbitrary prefixes, and arbitrary prefixes used
pub fn h06_prefix_bytes() {
    let name = |v: &mut Vec<u8>, n: usize| {
        for i in 0..n {
            let b = name_char(i == 0);
            v.push(b);
        }
    };
    let mut v = vec![];
    put(&mut v, "<a");
    let nested = choose(3);
    let (d1, d2) = (1 + choose(tier(2, 3)), 1 + choose(2));
    put(&mut v, " xmlns:");
    let st = v.len();
    name(&mut v, d1);
    let p1 = v[st..].to_vec();
    put(&mut v, "='u'");
    if nested > 0 {
        put(&mut v, "><b");
    }
    put(&mut v, " xmlns:");
    let st = v.len();
    name(&mut v, d2);
    let p2 = v[st..].to_vec();
    // the same prefix twice on one element is malformed; prefixes starting with xml are reserved
    assume(nested > 0 || p1 != p2);
    for p in [&p1, &p2] {
        assume(!p.starts_with(b"xml"));
    }
    put(&mut v, "='v'>");
    if nested == 2 {
        put(&mut v, "</b>");
    }
    put(&mut v, "<");
    let u = choose(3);
    let use_p = match u {
        0 => p1.clone(),
        1 => p2.clone(),
        _ => {
            let mut w = vec![];
            name(&mut w, 1 + choose(2));
            w
        }
    };
    v.extend_from_slice(&use_p);
    put(&mut v, ":c ");
    if flag() {
        v.extend_from_slice(&p1);
        put(&mut v, ":m='' ");
    }
    put(&mut v, "/>");
    put(&mut v, ["</a>", "</b></a>", "</a>"][nested]);
    judge(&v);
}

#[derive(FromXml, Debug)]
#[xml(rename = "a", ns("ux"))]
struct Uri {
    #[xml(attribute, ns("vy"))]
    n: Option<String>,
    x: Option<String>,
}
/// arbitrary namespace names: only the exact name matches
pub fn h06_uri_bytes() {
    let mut v = vec![];
    let q = choose(2);
    let uri = |v: &mut Vec<u8>| {
        let st = v.len();
        for _ in 0..choose(tier(4, 5)) {
            push_char(v, if q == 0 { 1 } else { 2 });
            let b = v[v.len() - 1];
            // references in namespace names are a recorded finding (see h06_uri_reference)
            assume((b != b'&') & (b != b'<') & (b != b'"'));
            // attribute value normalisation is outside the property
            assume(b >= 0x20);
        }
        v[st..].to_vec()
    };
    let form = choose(2);
    put(&mut v, ["<a xmlns=\"", "<r:a xmlns:r=\""][form]);
    let u1 = uri(&mut v);
    put(&mut v, "\" xmlns:s=\"");
    let u2 = uri(&mut v);
    assume(!u2.is_empty());
    assume(form == 0 || !u1.is_empty());
    put(&mut v, "\" s:n=\"1\">");
    put(&mut v, ["<x>2</x>", "<r:x>2</r:x>"][form]);
    put(&mut v, ["</a>", "</r:a>"][form]);
    show(&v);
    if let Some(e) = judge(&v) {
        check(e.ns == u1, 5);
    }
    match from_str::<Uri>(s(&v)) {
        Ok(a) => {
            check(u1 == b"ux", 6);
            check(a.n.is_some() == (u2 == b"vy"), 7);
            check(a.x.as_deref() == Some("2"), 8);
        }
        Err(_) => check(u1 != b"ux", 9),
    }
}

/// the xml prefix is always bound
pub fn h06_xml() {
    let mut v = vec![];
    put(&mut v, ["<a xml:lang='en'>", "<a xmlns:xml='http://www.w3.org/XML/1998/namespace' xml:lang='en'>", "<a xmlns='u'>", "<a xmlns:p='u' xml:lang='x'>"][choose(4)]);
    put(&mut v, ["<xml:b/>", "<b xml:c='1'/>", "<b xmlns='v'><xml:c/></b>", "<p:b/>"][choose(4)]);
    put(&mut v, "</a>");
    judge(&v);
}

#[derive(FromXml, Debug)]
#[xml(rename = "a", ns("u"))]
struct Ig {
    x: Option<String>,
}
/// unknown prefixes are errors wherever an element is visited
pub fn h06_unknown() {
    let mut v = vec![];
    put(&mut v, "<a xmlns='u' xmlns:p='v'>");
    put(&mut v, ["", "<b xmlns:q='w'/>", "<b xmlns:q='w'></b>", "<p:b xmlns:q='w'><q:c/></p:b>"][choose(4)]);
    put(&mut v, ["<p:x/>", "<q:x/>", "<x><q:y/></x>", "<y><q:x/></y>", "<x q:m=''/>", "<b><c/></b>"][choose(6)]);
    put(&mut v, "<x>1</x>");
    put(&mut v, "</a>");
    let known = judge(&v).is_some();
    let got = from_str::<Ig>(s(&v));
    if let Ok(a) = &got {
        check(a.x.is_some(), 22);
    }
    let elements = !has(&v, b"<q:x") && !has(&v, b"<q:y");
    if !elements {
        check(!known, 23);
        check(matches!(got, Err(Error::UnknownPrefix(_))), 24);
    }
}
fn has(v: &[u8], w: &[u8]) -> bool {
    v.windows(w.len()).any(|x| x == w)
}

/// recorded finding: references in namespace names are not decoded
pub fn h06_uri_reference() {
    let mut v = vec![];
    put(&mut v, ["<a xmlns='", "<p:a xmlns:p='"][choose(2)]);
    let c = v.len();
    put(&mut v, ["x&amp;y", "&#65;", "&lt;"][choose(3)]);
    let _ = c;
    put(&mut v, "'/>");
    show(&v);
    let want = refxml::parse(&v);
    let got = from_str::<AnyElement>(s(&v));
    match (want, got) {
        (Ok(e), Ok(a)) => check(refxml::same(&a, &e), 31),
        _ => fail(32),
    }
    reach(1);
}

/// many declarations and long names
pub fn h06_wide() {
    let n = [2, 5, 9, 17, 32][choose(5)];
    let len = [1, 8, 23, 64][choose(4)];
    let pre = |v: &mut Vec<u8>, k: usize| {
        filler(v, len, 1);
        put(v, &format!("{k}"));
    };
    let c = byte();
    assume(((c >= b'0') & (c <= b'9')) | (c == b'x'));
    let mut v = b"<a".to_vec();
    if flag() {
        put(&mut v, " xmlns='d'");
    }
    for k in 0..n {
        put(&mut v, " xmlns:");
        pre(&mut v, k);
        put(&mut v, "='");
        filler(&mut v, len, 2);
        put(&mut v, &format!("{}'", k % 7));
    }
    put(&mut v, "><b");
    // some of them are declared again
    let again = choose(4);
    for k in 0..n {
        if again == 1 && k == n / 2 || again == 2 && k % 2 == 0 || again == 3 && k > 0 {
            put(&mut v, " xmlns:");
            pre(&mut v, k);
            put(&mut v, &format!("='w{}'", k % 5));
        }
    }
    let last = n - 1;
    put(&mut v, if flag() { "/><" } else { "><" });
    let open = v[v.len() - 2] == b'>' && v[v.len() - 3] != b'/';
    let at = v.len();
    pre(&mut v, last);
    let to = v.len();
    v[to - 1] = c;
    put(&mut v, ":c ");
    let p = v[at..to].to_vec();
    v.extend_from_slice(&p);
    put(&mut v, ":m='1' ");
    pre(&mut v, 0);
    put(&mut v, ":o='2' m='3'/>");
    put(&mut v, if open { "</b><" } else { "<" });
    pre(&mut v, last / 2);
    put(&mut v, ":e/></a>");
    judge(&v);
}

/// many levels, each with declarations of its own
pub fn h06_levels() {
    let n = [3, 8, 17, 27][choose(4)];
    let c = byte();
    assume(((c >= b'p') & (c <= b't')) | (c == b'x'));
    let step = choose(4);
    let mut v = b"<a xmlns='u' xmlns:p='v' xmlns:q='w'>".to_vec();
    for k in 0..n {
        put(&mut v, "<b");
        match step {
            0 => put(&mut v, &format!(" xmlns:p='v{k}'")),
            1 => put(&mut v, [" xmlns=''", " xmlns='u'", " xmlns:q='u'"][k % 3]),
            2 => put(&mut v, &format!(" xmlns:{}='{k}'", ["p", "q", "r", "s"][k % 4])),
            _ => {
                if k == n / 2 {
                    put(&mut v, " xmlns:p='z' xmlns:r='y'")
                }
            }
        }
        put(&mut v, ">");
    }
    let tag = |v: &mut Vec<u8>| {
        v.push(b'<');
        v.push(c);
        put(v, ":c ");
        v.push(c);
        put(v, ":m='1' m='2'/><d m='3'/>");
    };
    tag(&mut v);
    let back = [1, n / 2 + 1, n][choose(3)];
    for _ in 0..back {
        put(&mut v, "</b>");
    }
    tag(&mut v);
    for _ in back..n {
        put(&mut v, "</b>");
    }
    put(&mut v, "</a>");
    judge(&v);
}

/// what an element declares does not reach its siblings, however it ends
pub fn h06_siblings() {
    const S: [&str; 14] = [
        "<p:c/>",
        "<q:c/>",
        "<c/>",
        "<p:c xmlns:p='w'/>",
        "<p:c xmlns:p='w'></p:c>",
        "<c xmlns:p='w' p:m='1'/>",
        "<c xmlns:p='w'><p:d/></c>",
        "<p:c xmlns:q='w'><q:d/></p:c>",
        "<q:c xmlns:q='w' q:m='1' p:m='2'/>",
        "<c xmlns='w'/>",
        "<c xmlns='w'><d/></c>",
        "<c xmlns=''><d xmlns='w'/><d/></c>",
        "<p:c xmlns='w' p:m=''><p:d/></p:c>",
        "<c p:m=''/>",
    ];
    let mut v = vec![];
    put(&mut v, "<p:a xmlns:p='u' xmlns='d'");
    put(&mut v, ["", " xmlns:q='v'"][choose(2)]);
    put(&mut v, ">");
    let deep = flag();
    if deep {
        put(&mut v, "<p:b xmlns:p='x'>");
    }
    for _ in 0..tier(3, 4) {
        put(&mut v, S[choose(14)]);
    }
    if deep {
        put(&mut v, "</p:b><p:e/>");
    }
    put(&mut v, "</p:a>");
    judge(&v);
    // and the same with a type that takes what it knows and skips the rest
    if let Ok(k) = from_str::<Sib>(s(&v)) {
        let Ok(e) = refxml::parse_lax(&v, 2) else { fail(41) };
        let n = |ns: &str| e.children.iter().filter(|c| c.is(ns, "c")).count();
        check(k.p.len() == n("u") && k.w.len() == n("w") && k.d.len() == n("d"), 42);
    }
}
macro_rules! sib {
    ($($n:ident $ns:tt;)*) => { $(
        #[derive(FromXml)]
        #[xml(rename = "c", ns($ns))]
        struct $n;
    )* };
}
sib! { Cu "u"; Cw "w"; Cd "d"; }
#[derive(FromXml)]
#[xml(rename = "a", ns("u"))]
struct Sib {
    p: Vec<Cu>,
    w: Vec<Cw>,
    d: Vec<Cd>,
}
