//! Only complete, properly nested documents with a single root element are accepted, and every such
//! document is.  The independent reader in `refxml` is the judge; AnyElement (keeps everything),
//! a struct that ignores everything and a unit struct are the readers under test.
use crate::gen::*;
use crate::refxml;
use crate::sx::*;
use instant_xml::*;

#[derive(FromXml, Debug)]
#[xml(rename = "a")]
struct Ign {
    zz: Option<String>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "a")]
struct Unit;
#[derive(FromXml, Debug)]
#[xml(rename = "a")]
struct Dir {
    b: Vec<Dir2>,
    a: Vec<AnyElementO>,
    #[xml(direct)]
    t: Option<String>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "b")]
struct Dir2 {
    #[xml(direct)]
    t: Option<String>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "a")]
struct AnyElementO {
    #[xml(attribute)]
    x: Option<String>,
    a: Vec<AnyElementO>,
    b: Vec<Dir2>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "a")]
struct Tup(Dir2);

/// Whether the reader accepts the document, and whether it has a root `a` in no namespace.
fn judge(v: &[u8]) {
    show(v);
    let x = s(v);
    let any = from_str::<AnyElement>(x).is_ok();
    let want = refxml::parse_lax(v, 1);
    check(any == want.is_ok(), 1);
    // attributes of skipped elements are not looked at, so their prefixes may be undeclared
    let root = matches!(&want, Ok(e) if e.is("", "a"));
    let lax = root || matches!(refxml::parse_lax(v, 2), Ok(e) if e.is("", "a"));
    let (ign, unit) = (from_str::<Ign>(x).is_ok(), from_str::<Unit>(x).is_ok());
    check(if ign { lax } else { !root }, 2);
    check(if unit { lax } else { !root }, 3);
    if from_str::<AnyElementO>(x).is_ok() {
        check(root, 4);
    }
    if from_str::<Dir>(x).is_ok() {
        check(root, 5);
    }
    if from_str::<Tup>(x).is_ok() {
        check(root, 6);
    }
    note(1, any as u64);
    reach(if any { 1 } else { 2 });
}

/// Every sequence of structural tokens
pub fn h05_tokens() {
    const T: [&str; 10] = ["<a>", "</a>", "<b>", "</b>", "<a/>", "<b/>", "t", "<!--c-->", "<![CDATA[d]]>", "<?xml version=\"1.0\"?>"];
    let mut v = vec![];
    let n = choose(tier(5, 6) + 1);
    for i in 0..n {
        // a declaration may only stand at the very start
        let k = choose(if i == 0 { 10 } else { 9 });
        v.extend_from_slice(T[k].as_bytes());
    }
    judge(&v);
}

/// Shorter sequences, with arbitrary text: only white space may stand outside the root element
pub fn h05_text() {
    const T: [&str; 7] = ["", "<a>", "</a>", "<a/>", "<b>", "</b>", "<!--c-->"];
    let mut v = vec![];
    let n = 1 + choose(tier(4, 5));
    let mut texts = 0;
    for _ in 0..n {
        let k = choose(7);
        if k == 0 {
            texts += 1;
            assume(texts <= 2);
            let at = v.len();
            xml_char(&mut v, 0b0011);
            assume(v[at] != b'<');
        }
        v.extend_from_slice(T[k].as_bytes());
    }
    judge(&v);
}

/// The same inside an element, one deeper
pub fn h05_nested() {
    const T: [&str; 8] = ["<a>", "</a>", "<b>", "</b>", "<b/>", "t", "<c>", "</c>"];
    let mut v = b"<a><b>".to_vec();
    let n = choose(tier(4, 6) + 1);
    for _ in 0..n {
        v.extend_from_slice(T[choose(8)].as_bytes());
    }
    if flag() {
        v.extend_from_slice(b"</a>");
    }
    judge(&v);
}

/// Prefixed and unprefixed tags must match literally
pub fn h05_prefixes() {
    const T: [&str; 9] = ["<p:a>", "</p:a>", "<a>", "</a>", "<q:a>", "</q:a>", "<p:a/>", "<p:b>", "</p:b>"];
    let mut v = b"<a xmlns:p=\"u\" xmlns:q=\"u\">".to_vec();
    let n = choose(tier(4, 5) + 1);
    for _ in 0..n {
        v.extend_from_slice(T[choose(9)].as_bytes());
    }
    v.extend_from_slice(b"</a>");
    judge(&v);
}

/// Symbolic tag names: the closing tag must repeat the opening tag exactly
pub fn h05_names() {
    let mut v = b"<a><".to_vec();
    let name = |n: usize, v: &mut Vec<u8>| {
        for i in 0..n {
            let b = byte();
            let start = ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | (b == b'_');
            assume(if i == 0 { start } else { start | ((b >= b'0') & (b <= b'9')) | (b == b'-') | (b == b'.') });
            v.push(b);
        }
    };
    let k = choose(3);
    let pre = [&b""[..], b"p:", b"q:"];
    let (n, m) = (1 + choose(tier(2, 3)), 1 + choose(tier(2, 3)));
    v.extend_from_slice(pre[k]);
    name(n, &mut v);
    v.extend_from_slice(b" xmlns:p='u' xmlns:q='u'></");
    v.extend_from_slice(pre[choose(3)]);
    name(m, &mut v);
    v.extend_from_slice([&b">"[..], b" >", b"\n>"][choose(3)]);
    if flag() {
        v.extend_from_slice(b"t");
    }
    v.extend_from_slice(b"</a>");
    judge(&v);
}

const DOCS: [&str; 7] = [
    "<a x=\"1\" p:y='2' xmlns:p=\"v\"><b>y</b><p:c/>z</a>",
    "<?xml version=\"1.0\"?>\n<a><!-- q --><b xmlns='u' w=\"1\"><c/></b><![CDATA[b]]></a>\n<!-- e -->",
    "<a>&lt;<b/>&#x41;&#65;</a>",
    "<a/>",
    "<a><b><c><d/></c></b></a>",
    "<a ><b\n/></a >",
    "<a>\u{e9}<b w=\"\u{20ac}\">t</b></a>",
];

/// Every document cut anywhere, optionally with one of a few endings
pub fn h05_truncated() {
    let d = DOCS[choose(DOCS.len())];
    let at = boundary(d, choose(d.len() + 1));
    let mut v = d.as_bytes()[..at].to_vec();
    v.extend_from_slice(["", "</a>", "</b>", "</b></a>", ">", "/>", "\"/>", "<", " "][choose(9)].as_bytes());
    judge(&v);
}

/// Every document with a piece removed or repeated
pub fn h05_edit() {
    let d = DOCS[choose(3)];
    let b = d.as_bytes();
    let at = boundary(d, choose(b.len() + 1));
    assume(at >= 21 || !d.starts_with("<?"));
    let to = boundary(d, at + choose(b.len() + 1 - at));
    assume(to - at <= tier(6, 40));
    let mut v = b[..at].to_vec();
    if flag() {
        v.extend_from_slice(&b[at..to]);
        v.extend_from_slice(&b[at..]);
    } else {
        v.extend_from_slice(&b[to..]);
    }
    judge_lenient(&v);
}

/// Every document with one arbitrary printable character inserted or replaced
pub fn h05_mutate() {
    let d = DOCS[choose(DOCS.len())];
    let b = d.as_bytes();
    let at = boundary(d, choose(b.len() + 1));
    // what stands inside the XML declaration is left alone
    assume(at >= 21 || !d.starts_with("<?"));
    let mut v = b[..at].to_vec();
    let c = byte();
    assume(((c >= 0x20) & (c < 0x7f)) | (c == 10));
    v.push(c);
    let mut rest = at;
    if flag() && at < b.len() {
        rest += 1;
        while !d.is_char_boundary(rest) {
            rest += 1;
        }
    }
    v.extend_from_slice(&b[rest..]);
    judge_lenient(&v);
}

fn judge_lenient(v: &[u8]) {
    show(v);
    let want = refxml::parse_lax(v, 1);
    let any = from_str::<AnyElement>(s(v)).is_ok();
    note(1, any as u64);
    check(any == want.is_ok(), 7);
    reach(if any { 1 } else { 2 });
}

/// Long names, many levels and many siblings: the closing tags must still match one by one
pub fn h05_large() {
    let n = [1, 5, 9, 17, 28][choose(5)];
    let len = [1, 8, 24, 64, 300][choose(5)];
    assume(n * len <= tier(450, 1100));
    let place = choose(3);
    let c = byte();
    assume(((c >= b'a') & (c <= b'z')) | (c == b'/') | (c == b' ') | (c == b'>') | (c == b'-'));
    let name = |k: usize, v: &mut Vec<u8>| {
        filler(v, len - 1, 1);
        v.push(b'a' + (k % 3) as u8);
    };
    let mut v = b"<a xmlns:p='u'>".to_vec();
    for k in 0..n {
        v.push(b'<');
        name(k, &mut v);
        v.extend_from_slice([&b">"[..], b"><e/>", b">t<!--c-->"][k % 3]);
    }
    let odd = [0, n / 2, n - 1][choose(3)];
    for k in (0..n).rev() {
        v.extend_from_slice(b"</");
        let at = v.len();
        name(k, &mut v);
        if k == odd {
            let i = at + [0, len / 2, len - 1][place];
            v[i] = c;
        }
        v.push(b'>');
    }
    v.extend_from_slice([&b"</a>"[..], b"", b"</a></a>", b"</a><!--d-->", b"</a>t"][choose(5)]);
    judge(&v);
}
