//! Fields marked `borrow` (and AnyElement) are slices of the input wherever nothing had to be
//! decoded or joined, and own a correct copy otherwise.
use crate::gen::*;
use crate::sx::*;
use instant_xml::*;
use std::borrow::Cow;

#[derive(FromXml, Debug)]
#[xml(rename = "l")]
struct Leaf<'a> {
    #[xml(attribute)]
    k: Cow<'a, str>,
    #[xml(borrow)]
    t: Cow<'a, str>,
    #[xml(direct)]
    d: Cow<'a, str>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "m")]
struct Mid<'a> {
    #[xml(borrow)]
    l: Leaf<'a>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "n")]
struct Other<'a> {
    #[xml(borrow)]
    l: Option<Box<Leaf<'a>>>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "r")]
struct Root<'a> {
    #[xml(borrow)]
    e: Cow<'a, str>,
    #[xml(borrow, rename = "E", ns("u"))]
    b: Cow<'a, str>,
    #[xml(borrow)]
    l: Vec<Leaf<'a>>,
    #[xml(borrow)]
    m: Vec<Mid<'a>>,
    #[xml(borrow)]
    n: Option<Other<'a>>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "r")]
struct Holder<'a> {
    #[xml(borrow)]
    any: Vec<AnyElement<'a>>,
}

/// What a value must be: its bytes, and where it stands in the input if it stands there as it is.
struct Want {
    bytes: Vec<u8>,
    chunks: usize,
    decoded: bool,
    at: usize,
    /// has an empty CDATA section, beside which text may be copied
    empty: bool,
}

/// Content of an element: text, references, comments and CDATA sections.
fn content(d: &mut Vec<u8>, max: usize, attr: bool) -> Want {
    let mut w = Want { bytes: vec![], chunks: 0, decoded: false, at: 0, empty: false };
    // whether a text run is open, and whether it has counted
    let mut open = false;
    for _ in 0..choose(max + 1) {
        let kind = choose(if attr { 3 } else { 6 });
        if kind < 3 {
            if !open {
                open = true;
                w.chunks += 1;
                if w.chunks == 1 {
                    w.at = d.len();
                }
            }
            if kind == 2 {
                d.extend_from_slice(b"&lt;");
                w.bytes.push(b'<');
                w.decoded = true;
            } else {
                let start = d.len();
                if kind == 0 {
                    push_char(d, 1);
                    let b = d[start];
                    assume((b != b'<') & (b != b'&') & (b != b'"') & (b != b'>'));
                } else {
                    ext(d, "\u{20ac}");
                }
                w.bytes.extend_from_slice(&d[start..]);
            }
        } else if kind == 3 {
            d.extend_from_slice(b"<!---->");
            open = false;
        } else {
            open = false;
            d.extend_from_slice(b"<![CDATA[");
            if kind == 4 {
                w.chunks += 1;
                if w.chunks == 1 {
                    w.at = d.len();
                }
                d.extend_from_slice(b"&<");
                let b = byte();
                assume((b >= 0x20) & (b < 0x7f) & (b != b'>') & (b != b']'));
                d.push(b);
                w.bytes.extend_from_slice(b"&<");
                w.bytes.push(b);
            } else {
                w.empty = true;
            }
            d.extend_from_slice(b"]]>");
        }
    }
    w
}

fn same(got: &Cow<'_, str>, want: &Want, input: &str) {
    same_bytes(got.as_bytes(), matches!(got, Cow::Borrowed(_)), want, input)
}
fn same_bytes(got: &[u8], borrowed: bool, want: &Want, input: &str) {
    check(got.len() == want.bytes.len(), 1);
    check(got == &want.bytes[..], 2);
    if want.chunks == 1 && !want.decoded {
        check(borrowed || want.empty, 3);
        check(!borrowed || got.as_ptr() as usize == input.as_ptr() as usize + want.at, 4);
        reach(1);
    } else if want.chunks > 0 {
        check(!borrowed, 5);
        reach(2);
    }
}
fn inside(got: &Cow<'_, str>, at: usize, text: &str, input: &str) {
    check(got == text && matches!(got, Cow::Borrowed(_)), 6);
    check(got.as_ptr() as usize == input.as_ptr() as usize + at, 7);
}
fn ext(d: &mut Vec<u8>, t: &str) -> usize {
    let n = d.len();
    d.extend_from_slice(t.as_bytes());
    n
}

/// two elements, of which one has arbitrary content
pub fn h18_fields() {
    let which = choose(2);
    let mut d = b"<r><!--c--><e>".to_vec();
    let none = |d: &mut Vec<u8>| Want { bytes: vec![b'x'], chunks: 1, decoded: false, at: ext(d, "x"), empty: false };
    let max = tier(4, 5);
    let e = if which == 0 { content(&mut d, max, false) } else { none(&mut d) };
    ext(&mut d, "</e> <E xmlns='u' y='no'>");
    let b = if which == 1 { content(&mut d, max, false) } else { none(&mut d) };
    ext(&mut d, "</E></r>");
    show(&d);
    let x = s(&d);
    let Ok(v) = from_str::<Root>(x) else { fail(11) };
    same(&v.e, &e, x);
    same(&v.b, &b, x);
    check(v.l.is_empty() && v.m.is_empty() && v.n.is_none(), 12);
}

/// inside nested, repeated, optional and transparent types
pub fn h18_nested() {
    let mut d = b"<r><e/><E xmlns='u'/>".to_vec();
    let how = choose(4);
    ext(&mut d, ["<l", "<n><l", "<m><l", "<l k='1'><t/></l><l"][how]);
    let which = choose(3);
    let (mut k, mut t, mut dir) = (None, None, None);
    ext(&mut d, " k=\"");
    if which == 0 {
        k = Some(content(&mut d, 2, true));
    }
    ext(&mut d, "\"><t>");
    if which == 1 {
        t = Some(content(&mut d, 2, false));
    }
    ext(&mut d, "</t>");
    if which == 2 {
        dir = Some(content(&mut d, 2, false));
    }
    ext(&mut d, ["</l>", "</l></n>", "</l></m>", "</l>"][how]);
    ext(&mut d, "</r>");
    show(&d);
    let x = s(&d);
    let Ok(v) = from_str::<Root>(x) else { fail(21) };
    check(v.e.is_empty() && v.b.is_empty(), 22);
    let l = match (how, &v.l[..], &v.m[..], &v.n) {
        (0, [l], [], None) => l,
        (3, [_, l], [], None) => l,
        (1, [], [], Some(Other { l: Some(l) })) => l,
        (2, [], [m], None) => &m.l,
        _ => fail(23),
    };
    match which {
        0 => check(l.k.as_bytes() == &k.unwrap().bytes[..], 26),
        1 => same(&l.t, &t.unwrap(), x),
        _ => check(l.d.as_bytes() == &dir.unwrap().bytes[..], 24),
    }
    check((which == 0 || l.k.is_empty()) && (which == 1 || l.t.is_empty()) && (which == 2 || l.d.is_empty()), 25);
}

/// AnyElement: names, namespaces, attribute values and text
pub fn h18_any() {
    let mut d = b"<r>".to_vec();
    let pre = choose(2) == 1;
    ext(&mut d, if pre { "<p:" } else { "<" });
    let name = ext(&mut d, "elt");
    ext(&mut d, if pre { " xmlns:p='" } else { " xmlns='" });
    let ns = ext(&mut d, "urn:x");
    ext(&mut d, "' xmlns:q='");
    let qn = ext(&mut d, "urn:q");
    ext(&mut d, "' ");
    let qual = choose(2) == 1;
    if qual {
        ext(&mut d, "q:");
    }
    let an = ext(&mut d, "att");
    ext(&mut d, "=\"");
    let av = content(&mut d, 2, true);
    ext(&mut d, "\">");
    let t = content(&mut d, tier(2, 3), false);
    ext(&mut d, if pre { "<p:" } else { "<" });
    let kid = ext(&mut d, "kid");
    ext(&mut d, ">");
    let kt = content(&mut d, 1, false);
    ext(&mut d, if pre { "</p:kid></p:elt></r>" } else { "</kid></elt></r>" });
    show(&d);
    let x = s(&d);
    let Ok(v) = from_str::<Holder>(x) else { fail(31) };
    check(v.any.len() == 1, 32);
    let e = &v.any[0];
    inside(&e.name, name, "elt", x);
    inside(&e.ns, ns, "urn:x", x);
    check(e.attributes.len() == 1, 33);
    let a = &e.attributes[0];
    inside(&a.name, an, "att", x);
    if qual {
        inside(&a.ns, qn, "urn:q", x);
    } else {
        check(a.ns.is_empty(), 34);
    }
    same(&a.value, &av, x);
    text(&e.text, &t, x);
    check(e.children.len() == 1, 35);
    let c = &e.children[0];
    inside(&c.name, kid, "kid", x);
    inside(&c.ns, ns, "urn:x", x);
    text(&c.text, &kt, x);
}
fn text(got: &Option<Cow<'_, str>>, want: &Want, x: &str) {
    match got {
        Some(t) => same(t, want, x),
        None => check(want.bytes.is_empty(), 36),
    }
}

/// long content: a slice of the input however long, and a complete copy otherwise
pub fn h18_long() {
    let n = size(tier(300, 1030));
    let mut d = b"<r><e>".to_vec();
    let at = d.len();
    filler(&mut d, n, [1, 3][choose(2)]);
    let b = byte();
    assume((b >= 0x20) & (b < 0x7f) & (b != b'<') & (b != b'&') & (b != b'>') & (b != b']'));
    d.push(b);
    filler(&mut d, if flag() { n } else { 0 }, 2);
    let mut want = Want { bytes: d[at..].to_vec(), chunks: 1, decoded: false, at, empty: false };
    match choose(3) {
        0 => {}
        1 => {
            ext(&mut d, "&amp;z");
            want.bytes.extend_from_slice(b"&z");
            want.decoded = true;
        }
        _ => {
            ext(&mut d, "<!--c--><![CDATA[z]]>");
            want.bytes.push(b'z');
            want.chunks = 2;
        }
    }
    ext(&mut d, "</e><E xmlns='u'/></r>");
    let x = s(&d);
    let Ok(v) = from_str::<Root>(x) else { fail(41) };
    same(&v.e, &want, x);
    let Ok(a) = from_str::<AnyElement>(x) else { fail(42) };
    check(a.children.len() == 2, 43);
    text(&a.children[0].text, &want, x);
}
