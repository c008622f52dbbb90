//! AnyElement captures everything: namespaces, names, attributes, text and children, as an
//! independent reader sees them; as root, as field, owned or borrowed.
use crate::gen::*;
use crate::refxml::{self, El};
use crate::sx::*;
use instant_xml::*;

fn put(v: &mut Vec<u8>, x: &str) {
    v.extend_from_slice(x.as_bytes())
}
fn tree(v: &[u8]) -> El {
    match refxml::parse(v) {
        Ok(e) => e,
        Err(_) => fail(90),
    }
}

fn root(v: &[u8]) {
    show(v);
    let want = tree(v);
    match from_str::<AnyElement>(s(v)) {
        Ok(a) => {
            check(refxml::same(&a, &want), 1);
            let o = a.clone().into_owned();
            check(refxml::same(&o, &want), 2);
            check(o == a, 3);
        }
        Err(_) => fail(4),
    }
    reach(1);
}

fn text(v: &mut Vec<u8>) {
    match choose(8) {
        0 => {}
        1 => {
            xml_char(v, 0b0011);
            let b = v[v.len() - 1];
            assume((b != b'<') & (b != b'&') & (b != b'>'));
        }
        2 => put(v, "&lt;b>"),
        3 => {
            put(v, "<![CDATA[");
            xml_char(v, 1);
            put(v, "]]>");
        }
        4 => put(v, "x<!-- <y> -->z"),
        5 => put(v, "<!--only-->"),
        6 => put(v, "<![CDATA[]]>"),
        _ => {
            put(v, "&#x");
            let b = byte();
            assume(((b >= b'2') & (b <= b'7')));
            v.push(b);
            put(v, "1;");
        }
    }
}
fn attr(v: &mut Vec<u8>) {
    put(v, ["", " a=''", " a=\"", " p:a='1' a='2'", " xml:lang='e'", " a='&amp;'", " b='1' a='2'"][choose(7)]);
    if v[v.len() - 1] == b'"' {
        let at = v.len();
        xml_char(v, 0b0011);
        assume((v[at] != b'"') & (v[at] != b'<') & (v[at] != b'&'));
        v.push(b'"');
    }
}

/// text in every gap of a small tree
pub fn h14_text() {
    let mut v = b"<r>".to_vec();
    text(&mut v);
    put(&mut v, ["<b>", "<b/>"][choose(2)]);
    if v[v.len() - 2] != b'/' {
        text(&mut v);
        put(&mut v, "</b>");
    }
    text(&mut v);
    if flag() {
        put(&mut v, "<c>1</c>");
        text(&mut v);
    }
    put(&mut v, "</r>");
    root(&v);
}

/// attributes and namespaces at every level
pub fn h14_attrs() {
    let mut v = b"<r xmlns:p='u'".to_vec();
    attr(&mut v);
    put(&mut v, ["", " xmlns='d'"][choose(2)]);
    put(&mut v, "><");
    let q = ["", "p:"][choose(2)];
    put(&mut v, q);
    put(&mut v, "c");
    put(&mut v, ["", " xmlns='e'", " xmlns:p='w'"][choose(3)]);
    attr(&mut v);
    put(&mut v, "><d");
    attr(&mut v);
    put(&mut v, "/></");
    put(&mut v, q);
    put(&mut v, "c></r>");
    root(&v);
}

/// shapes: every tree of up to a few elements
pub fn h14_shapes() {
    let mut v = b"<r>".to_vec();
    let mut open: Vec<usize> = vec![];
    const N: [&str; 3] = ["a", "b", "r"];
    for _ in 0..choose(tier(6, 8)) {
        match choose(4) {
            0 if !open.is_empty() => {
                let k = open.pop().unwrap();
                put(&mut v, "</");
                put(&mut v, N[k]);
                put(&mut v, ">");
            }
            1 => {
                let k = choose(2);
                put(&mut v, "<");
                put(&mut v, N[k]);
                put(&mut v, "/>");
            }
            2 => {
                let k = choose(3);
                put(&mut v, "<");
                put(&mut v, N[k]);
                put(&mut v, ">");
                open.push(k);
            }
            3 => put(&mut v, "t"),
            _ => assume(false),
        }
    }
    while let Some(k) = open.pop() {
        put(&mut v, "</");
        put(&mut v, N[k]);
        put(&mut v, ">");
    }
    put(&mut v, "</r>");
    root(&v);
}

#[derive(FromXml, Debug)]
#[xml(rename = "r", ns("u"))]
struct One<'a> {
    k: Option<String>,
    #[xml(borrow)]
    x: AnyElement<'a>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "r", ns("u"))]
struct Opt<'a> {
    k: Option<String>,
    #[xml(borrow)]
    x: Option<AnyElement<'a>>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "r", ns("u"))]
struct Many<'a> {
    #[xml(attribute)]
    a: Option<String>,
    k: Option<String>,
    #[xml(borrow)]
    x: Vec<AnyElement<'a>>,
    #[xml(direct)]
    t: String,
}
#[derive(FromXml, Debug)]
#[xml(rename = "r", ns("u"))]
struct Boxed<'a> {
    #[xml(borrow)]
    x: Vec<Box<AnyElement<'a>>>,
}

/// as a field: it takes whatever the fields before it do not
pub fn h14_field() {
    const C: [&str; 7] = [
        "",
        "<e/>",
        "<p:f xmlns:p='v' p:g='1'>t<h/></p:f>",
        "<e xmlns=''><k>2</k></e>",
        "<k xmlns='w'>3</k>",
        "<r a='b'><r/></r>",
        "<k>1</k>",
    ];
    let mut v = b"<r xmlns='u'".to_vec();
    put(&mut v, ["", " a='1'"][choose(2)]);
    put(&mut v, ">");
    let mut ks = 0;
    let form = choose(4);
    for i in 0..3 {
        let c = choose(if form < 2 && i == 2 { 1 } else { 7 });
        put(&mut v, C[c]);
        ks += (c == 6) as usize;
    }
    if form == 2 {
        let at = v.len();
        xml_char(&mut v, 1);
        let b = v[at];
        assume((b != b'<') & (b != b'&') & (b != b'>'));
    }
    put(&mut v, "</r>");
    show(&v);
    let want = tree(&v);
    let rest: Vec<&El> = want.children.iter().filter(|c| form == 3 || !c.is("u", "k")).collect();
    let all = |x: &[AnyElement]| x.len() == rest.len() && x.iter().zip(&rest).all(|(a, b)| refxml::same(a, b));
    let x = s(&v);
    match form {
        0 => match from_str::<One>(x) {
            Ok(o) => check(ks < 2 && all(&[o.x]), 11),
            Err(Error::MissingValue(_)) => check(rest.is_empty(), 12),
            Err(Error::DuplicateValue(_)) => check(rest.len() > 1 || ks > 1, 13),
            Err(_) => fail(14),
        },
        1 => match from_str::<Opt>(x) {
            Ok(o) => {
                let v: Vec<AnyElement> = o.x.into_iter().collect();
                check(ks < 2 && all(&v), 15)
            }
            Err(Error::DuplicateValue(_)) => check(rest.len() > 1 || ks > 1, 16),
            Err(_) => fail(17),
        },
        2 => match from_str::<Many>(x) {
            Ok(o) => {
                check(ks < 2 && all(&o.x), 18);
                check(o.t.as_bytes() == want.text, 19);
                check(o.a.is_some() == !want.attrs.is_empty(), 20);
                check(o.k.is_some() == (ks == 1), 21);
                reach(2)
            }
            Err(Error::DuplicateValue(_)) => check(ks > 1, 22),
            Err(_) => fail(23),
        },
        _ => match from_str::<Boxed>(x) {
            Ok(o) => {
                check(o.x.len() == rest.len() && o.x.iter().zip(&rest).all(|(a, b)| refxml::same(a, b)), 24);
            }
            Err(_) => fail(25),
        },
    }
    reach(1);
}

/// into_owned is equal and keeps nothing of the input
pub fn h14_owned() {
    let mut v = b"<p:r xmlns:p='u' p:a='".to_vec();
    let at = v.len();
    xml_char(&mut v, 0b0011);
    assume((v[at] != b'\'') & (v[at] != b'<') & (v[at] != b'&'));
    put(&mut v, "' b='&gt;'>t<c>");
    text(&mut v);
    put(&mut v, "</c></p:r>");
    show(&v);
    let want = tree(&v);
    let a: AnyElement<'static> = {
        let copy = v.clone();
        let r = match from_str::<AnyElement>(s(&copy)) {
            Ok(a) => a.into_owned(),
            Err(_) => fail(31),
        };
        // the input is gone
        drop(copy);
        r
    };
    let junk = vec![b'#'; v.len()];
    check(refxml::same(&a, &want), 32);
    fn owned(a: &AnyElement<'_>) -> bool {
        use std::borrow::Cow::Owned;
        matches!(a.ns, Owned(_))
            && matches!(a.name, Owned(_))
            && !matches!(a.text, Some(std::borrow::Cow::Borrowed(_)))
            && a.attributes.iter().all(|x| matches!((&x.ns, &x.name, &x.value), (Owned(_), Owned(_), Owned(_))))
            && a.children.iter().all(owned)
    }
    check(owned(&a), 33);
    drop(junk);
    reach(1);
}

/// large trees: many attributes, children, levels, pieces of text
pub fn h14_large() {
    let n = [8, 17, 30, 60][choose(4)];
    let k = choose(6);
    let mut v = b"<r xmlns:p='u'".to_vec();
    if k == 0 {
        for i in 0..n {
            put(&mut v, [" ", " p:"][i % 2]);
            v.extend_from_slice(&[b'z', b'a' + (i / 26) as u8, b'a' + (i % 26) as u8]);
            put(&mut v, ["='7'", "='&lt;'", "=''"][i % 3]);
        }
    }
    put(&mut v, ">");
    match k {
        1 => {
            for i in 0..n {
                put(&mut v, ["<z/>", "<p:z>1</p:z>", "x", "<s xmlns='v'>2</s>", "&lt;"][i % 5]);
            }
        }
        2 => {
            let m = n.min(30);
            for i in 0..m {
                put(&mut v, ["<z>", "<n xmlns='w' k='l'>a", "<p:s>"][i % 3]);
            }
            for i in (0..m).rev() {
                put(&mut v, ["</z>", "b</n>", "</p:s>"][i % 3]);
            }
        }
        3 => filler(&mut v, n * 5, 3),
        4 => {
            for i in 0..n {
                put(&mut v, ["a", "<!--c-->", "<![CDATA[<]]>", "<q/>"][i % 4]);
            }
        }
        _ => {
            put(&mut v, "<s xmlns='");
            filler(&mut v, n, 2);
            put(&mut v, "'><");
            filler(&mut v, n, 1);
            put(&mut v, " ");
            filler(&mut v, n, 2);
            put(&mut v, "='");
            filler(&mut v, n, 3);
            put(&mut v, "'/></s>");
        }
    }
    text(&mut v);
    put(&mut v, "</r>");
    root(&v);
}
