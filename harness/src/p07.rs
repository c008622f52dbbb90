//! What a type does not know is skipped as a whole, and the order of distinct fields does not matter.
use crate::gen::*;
use crate::sx::*;
use instant_xml::*;

#[derive(FromXml, Debug, PartialEq)]
#[xml(ns("u"))]
struct R {
    #[xml(attribute)]
    a: u8,
    #[xml(attribute)]
    b: Option<String>,
    s: String,
    n: Vec<u8>,
    e: Option<E>,
    o: Option<String>,
}
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "e", ns("u"))]
struct E {
    s: Option<String>,
    #[xml(attribute)]
    a: Option<u8>,
}

fn put(v: &mut Vec<u8>, x: &str) {
    v.extend_from_slice(x.as_bytes())
}

const JUNK: [&str; 17] = [
    "",
    "<zz/>",
    "<zz></zz>",
    "<zz><s>9</s><n>8</n><e a='1'/></zz>",
    "<zz s='1' a='2'>t<![CDATA[<s>]]>&lt;<s/></zz>",
    "<s xmlns='w'>9</s>",
    "<p:n xmlns:p='w'>7</p:n>",
    "<!-- <s>9</s> -->",
    "text",
    "<a>9</a><b>x</b>",
    "<zz xmlns='u' xmlns:p='q'><zz><zz><e><s>5</s></e></zz></zz><p:x/></zz>",
    "<S>1</S><s2/><ss/><N/>",
    "<![CDATA[</R>]]>",
    "<zz>&#65;<!--c--><zz/><!--d--></zz>",
    "<zz><R/></zz><R/>",
    "<e xmlns=''/>",
    "<zz a='1' a2='2' xmlns:a3='3'/>",
];

fn expect(n: &[u8], e: Option<E>, o: Option<String>) -> R {
    R { a: 4, b: Some("y".into()), s: "x".into(), n: n.to_vec(), e, o }
}

fn judge(v: &[u8], want: &R) {
    show(v);
    match from_str::<R>(s(v)) {
        Ok(got) => check(got == *want, 1),
        Err(_) => fail(2),
    }
    reach(1);
}

/// every order of the fields, with one or two pieces of junk in any gap
pub fn h07_junk() {
    const F: [&str; 5] = ["<s>x</s>", "<n>1</n>", "<e a='3'/>", "<n>2</n>", "<o>k</o>"];
    const ORD: [[usize; 5]; 6] = [[0, 1, 2, 3, 4], [1, 3, 0, 2, 4], [4, 2, 1, 0, 3], [1, 2, 3, 4, 0], [2, 4, 1, 3, 0], [0, 4, 1, 3, 2]];
    let ord = ORD[choose(6)];
    let g1 = choose(6);
    let j1 = choose(JUNK.len());
    let (g2, j2) = (choose(6), if DEEP { choose(JUNK.len()) } else { [3, 4, 6, 8, 14, 15][choose(6)] });
    // the known fields have arbitrary contents
    let d = byte();
    assume((d >= b'0') & (d <= b'9'));
    let mut t = vec![];
    push_char(&mut t, 1);
    assume((t[0] != b'<') & (t[0] != b'&') & (t[0] != b']') & (t[0] != b'>'));
    let mut v = b"<R xmlns='u' a='4' b='y'>".to_vec();
    for i in 0..6 {
        if i == g1 {
            put(&mut v, JUNK[j1]);
        }
        if i == g2 {
            put(&mut v, JUNK[j2]);
        }
        if i < 5 {
            match ord[i] {
                1 => v.extend_from_slice(&[b'<', b'n', b'>', d, b'<', b'/', b'n', b'>']),
                4 => v.extend_from_slice(&[b'<', b'o', b'>', t[0], b'<', b'/', b'o', b'>']),
                k => put(&mut v, F[k]),
            }
        }
    }
    put(&mut v, "</R>");
    judge(&v, &expect(&[d - b'0', 2], Some(E { s: None, a: Some(3) }), Some(string(t))));
}

/// two pieces of junk next to each other, in every combination
pub fn h07_pairs() {
    let mut v = b"<R xmlns='u' b='y' a='4'>".to_vec();
    put(&mut v, JUNK[choose(JUNK.len())]);
    put(&mut v, JUNK[choose(JUNK.len())]);
    put(&mut v, "<s>x</s>");
    put(&mut v, ["", "<zz/>", "<zz><s/></zz>"][choose(3)]);
    put(&mut v, "</R>");
    judge(&v, &expect(&[], None, None));
}

/// junk inside a nested known element, and after a scalar's text
pub fn h07_inside() {
    let mut v = b"<R xmlns='u' b='y' a='4'><s>x".to_vec();
    let k = choose(3);
    if k == 0 {
        // children of a scalar element are skipped with it
        put(&mut v, ["<zz/>", "<n>7</n>", "<s>q</s>", "<zz>y</zz>z", "<e><s/></e>"][choose(5)]);
    }
    put(&mut v, "</s><e");
    if k == 1 {
        put(&mut v, [" zz='1'", " xmlns:q='w' q:a='9'", " b='1'", " s='1'"][choose(4)]);
    }
    put(&mut v, " a='3'>");
    if k == 2 {
        put(&mut v, JUNK[choose(JUNK.len())]);
    }
    put(&mut v, "<s>z</s>");
    if k == 2 {
        put(&mut v, JUNK[choose(JUNK.len())]);
    }
    put(&mut v, "</e><n>5</n></R>");
    judge(&v, &expect(&[5], Some(E { s: Some("z".into()), a: Some(3) }), None));
}

/// unknown attributes around known ones, in any order, with any quoting
pub fn h07_attributes() {
    const J: [&str; 8] = ["", " zz='1'", " A='1'", " xmlns:q='w' q:a='7'", " s='<'", " aa=\"&amp;\"", " xml:lang='e'", " xmlns:q='u' q:a='6' q:b='7'"];
    let mut v = b"<R xmlns='u'".to_vec();
    let swap = flag();
    put(&mut v, J[[0, 1, 2, 3, 5, 6, 7][choose(7)]]);
    put(&mut v, if swap { " b='y'" } else { " a=\"4\"" });
    put(&mut v, J[[0, 1, 2, 5, 6][choose(5)]]);
    put(&mut v, if swap { " a='4'" } else { " b=\"y\"" });
    put(&mut v, J[[0, 1, 2, 5, 6][choose(5)]]);
    put(&mut v, "><s>x</s></R>");
    // repeating an attribute is malformed
    judge(&v, &expect(&[], None, None));
}

/// an unknown element with an arbitrary name, namespace and content
pub fn h07_symbolic() {
    let k = choose(4);
    let mut v = b"<R xmlns='u' a='4' b='y'>".to_vec();
    let mut name = vec![];
    for i in 0..1 + choose(tier(2, 3)) {
        let b = byte();
        let start = ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | (b == b'_');
        assume(if i == 0 { start } else { start | ((b >= b'0') & (b <= b'9')) | (b == b'-') | (b == b'.') });
        name.push(b);
    }
    // same namespace: any name but a known one.  Other namespaces: any name
    if k == 0 {
        for f in [&b"s"[..], b"n", b"e", b"o"] {
            assume(name != f);
        }
    }
    if k == 1 {
        put(&mut v, "<s>x</s>");
    }
    put(&mut v, ["<", "<", "<p:", "<p:"][k]);
    v.extend_from_slice(&name);
    put(&mut v, ["", " xmlns=''", " xmlns:p='uu'", " xmlns:p='U'"][k]);
    put(&mut v, ">");
    for _ in 0..choose(3) {
        let st = v.len();
        push_char(&mut v, 1);
        let b = v[st];
        assume((b != b'<') & (b != b'&') & (b != b'>'));
    }
    put(&mut v, ["", "<s>3</s>"][choose(2)]);
    put(&mut v, ["</", "</", "</p:", "</p:"][k]);
    v.extend_from_slice(&name);
    put(&mut v, ">");
    if k != 1 {
        put(&mut v, "<s>x</s>");
    }
    put(&mut v, "</R>");
    judge(&v, &expect(&[], None, None));
}

#[derive(FromXml, Debug, PartialEq)]
struct D {
    s: Option<String>,
    #[xml(direct)]
    t: String,
}
#[derive(FromXml, Debug, PartialEq)]
struct T(X, X);
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "x")]
struct X {
    v: Option<u8>,
}
#[derive(FromXml, Debug, PartialEq)]
struct U;

/// the other shapes: direct content, tuple structs, unit structs
pub fn h07_shapes() {
    let j = [0, 1, 2, 3, 7, 10, 13, 14, 16][choose(9)];
    let j2 = [0, 1, 3, 13][choose(4)];
    let mut v = vec![];
    match choose(3) {
        0 => {
            put(&mut v, "<D>");
            put(&mut v, JUNK[j]);
            put(&mut v, "text");
            put(&mut v, JUNK[j2]);
            put(&mut v, "<s>k</s></D>");
            show(&v);
            match from_str::<D>(s(&v)) {
                Ok(d) => check(d == D { s: Some("k".into()), t: "text".into() }, 3),
                // a comment does not end the text; anything else does, and there is only one text here
                Err(_) => fail(4),
            }
        }
        1 => {
            put(&mut v, "<T><x>");
            put(&mut v, JUNK[j]);
            put(&mut v, "<v>1</v>");
            put(&mut v, JUNK[j2]);
            put(&mut v, "</x><x/>");
            put(&mut v, JUNK[j]);
            put(&mut v, "</T>");
            show(&v);
            match from_str::<T>(s(&v)) {
                Ok(t) => check(t == T(X { v: Some(1) }, X { v: None }), 5),
                Err(_) => fail(6),
            }
        }
        _ => {
            put(&mut v, "<U a='1'>");
            put(&mut v, JUNK[j]);
            put(&mut v, JUNK[j2]);
            put(&mut v, "t</U>");
            show(&v);
            check(from_str::<U>(s(&v)).is_ok(), 7);
        }
    }
    reach(1);
}

/// much that is unknown: many attributes, elements, levels, long text
pub fn h07_much() {
    let n = [1, 8, 16, 17, 31, 33, 60][choose(7)];
    let what = choose(6);
    let d = byte();
    assume((d >= b'0') & (d <= b'9'));
    let mut v = b"<R xmlns='u' b='y'".to_vec();
    if what == 0 {
        for i in 0..n {
            v.extend_from_slice(&[b' ', b'z', b'a' + (i / 26) as u8, b'a' + (i % 26) as u8]);
            put(&mut v, "='7'");
        }
    }
    put(&mut v, " a='4'>");
    let pre = flag();
    if pre {
        v.extend_from_slice(&[b'<', b'n', b'>', d, b'<', b'/', b'n', b'>']);
    }
    match what {
        1 => {
            for i in 0..n {
                put(&mut v, ["<z/>", "<z>1</z>", "<s xmlns=''>2</s>", "<z><n>3</n></z>"][i % 4]);
            }
        }
        2 => {
            let m = n.min(29);
            for i in 0..m {
                put(&mut v, ["<z>", "<n xmlns='w'>", "<s xmlns='u'>"][if i == 0 { 0 } else { i % 3 }]);
            }
            put(&mut v, "5");
            for i in (0..m).rev() {
                put(&mut v, ["</z>", "</n>", "</s>"][if i == 0 { 0 } else { i % 3 }]);
            }
        }
        3 => filler(&mut v, n * 10, 2),
        4 => {
            put(&mut v, "<z>");
            for _ in 0..n {
                put(&mut v, "<n>6</n>x<z/>");
            }
            put(&mut v, "</z>");
        }
        _ => {
            for _ in 0..n {
                put(&mut v, "<!-- <s>8</s> -->t");
            }
        }
    }
    if !pre {
        v.extend_from_slice(&[b'<', b'n', b'>', d, b'<', b'/', b'n', b'>']);
    }
    put(&mut v, "<s>x</s></R>");
    judge(&v, &expect(&[d - b'0'], None, None));
}
