//! Documents that differ only in spelling mean the same: declaration, byte order mark, comments,
//! white space inside tags and between elements, quotes, attribute order, empty-element tags,
//! references and CDATA sections, prefixes and where they are declared.
use crate::gen::*;
use crate::sx::*;
use instant_xml::*;

#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "i", ns("u"))]
struct Item {
    #[xml(attribute)]
    k: Option<String>,
    #[xml(direct)]
    t: String,
}
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "z", ns("w"))]
struct Unit;
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "f", ns("u"))]
struct Pair(Item, Item);
#[derive(FromXml, Debug, PartialEq)]
#[xml(rename = "r", ns("u", w = "w"))]
struct Root {
    #[xml(attribute)]
    a: String,
    #[xml(attribute, ns("w"))]
    b: Option<u8>,
    e: String,
    n: i16,
    i: Vec<Item>,
    z: Option<Unit>,
    f: Option<Pair>,
}

/// How many spellings each place has; 0 is the plain one.
const PLACES: [usize; 22] = [
    5, // before the document
    4, // between prolog and root
    3, // after the root
    3, // prefix or default namespace for the root
    4, // order of attributes and declarations
    2, // quotes of the first attribute
    4, // around the equals sign
    4, // before the end of the start tag
    3, // in the end tag
    7, // between elements
    7, // the text of e
    5, // beside the text of e
    4, // the value of a
    4, // around the number
    3, // the empty item
    3, // the item's attribute
    3, // the item's text
    3, // the unit
    3, // where w is declared
    3, // order of the elements
    3, // unknown things
    3, // the pair
];

struct Sp([usize; 22]);
impl Sp {
    fn new(n: usize) -> Sp {
        let mut p = [0; 22];
        let mut from = 0;
        for _ in 0..n {
            let left = 22 - from;
            let k = choose(left + 1);
            if k == left {
                break;
            }
            let at = from + k;
            p[at] = 1 + choose(PLACES[at] - 1);
            from = at + 1;
        }
        Sp(p)
    }
}

fn ext(d: &mut Vec<u8>, t: &str) {
    d.extend_from_slice(t.as_bytes())
}
/// one printable character that needs no reference anywhere
fn plain(d: &mut Vec<u8>) -> u8 {
    let b = byte();
    assume((b > 0x20) & (b < 0x7f) & (b != b'<') & (b != b'>') & (b != b'&') & (b != b'"') & (b != b'\'') & (b != b']'));
    d.push(b);
    b
}

fn build(sp: &Sp) -> (Vec<u8>, Root) {
    let p = &sp.0;
    let mut d = vec![];
    ext(&mut d, ["", "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone='yes' ?>", "\u{feff}", "\u{feff}<?xml version=\"1.0\"?>"][p[0]]);
    ext(&mut d, ["", "\n", "<!-- <r/> -->", "\r\n<!---->\t<!--x-->"][p[1]]);
    // the root's start tag
    let root = ["r", "p:r", "rr:r"][p[3]];
    let pre = ["", "p:", "rr:"][p[3]];
    ext(&mut d, "<");
    ext(&mut d, root);
    let q = ["'", "\""][p[5]];
    let eq = ["=", " =", "= ", "\n=\t"][p[6]];
    let decl = [" xmlns='u'", " xmlns:p='u'", "\txmlns='other' xmlns:rr=\"u\""][p[3]];
    // the value of a
    let mut val = vec![];
    let av = match p[12] {
        0 => {
            let b = plain(&mut val);
            vec![b]
        }
        1 => {
            ext(&mut val, "&lt;");
            let b = plain(&mut val);
            vec![b'<', b]
        }
        2 => {
            let b = plain(&mut val);
            ext(&mut val, "&#x41;&#66;");
            vec![b, b'A', b'B']
        }
        _ => {
            ext(&mut val, "> ");
            let b = plain(&mut val);
            vec![b'>', b' ', b]
        }
    };
    let mut parts: Vec<Vec<u8>> = vec![decl.as_bytes().to_vec()];
    let mut a = b" a".to_vec();
    ext(&mut a, eq);
    ext(&mut a, q);
    a.extend_from_slice(&val);
    ext(&mut a, q);
    parts.push(a);
    let (wd, wp) = [(" xmlns:w='w'", "w"), (" xmlns:other='w'", "other"), (" xmlns:w='no' xmlns:x='w'", "x")][p[18]];
    parts.push(wd.as_bytes().to_vec());
    parts.push(format!("\n{wp}:b=\"7\"").into_bytes());
    match p[4] {
        0 => {}
        1 => parts.reverse(),
        2 => parts.swap(0, 1),
        _ => parts.rotate_left(2),
    }
    for x in &parts {
        d.extend_from_slice(x);
    }
    if p[20] == 1 {
        ext(&mut d, " unknown='&amp;' p2='' xmlns:p2='u'");
    }
    ext(&mut d, ["", " ", "\n\t", "\r\n"][p[7]]);
    ext(&mut d, ">");
    let sep = ["", " ", "\r\n  ", "<!--c-->", "\n<!-- > --> ", "<![CDATA[]]>", "text"][p[9]];
    // the elements
    let end = ["", " ", "\n"][p[8]];
    let mut els: Vec<Vec<u8>> = vec![];
    let mut x = format!("<{pre}e>").into_bytes();
    let (before, after) = [("", ""), ("<!--c-->", ""), ("", "<!--c-->"), ("<![CDATA[]]>", ""), ("", "<![CDATA[]]>")][p[11]];
    ext(&mut x, before);
    let ev = match p[10] {
        0 => {
            let b = plain(&mut x);
            vec![b, plain(&mut x)]
        }
        1 => {
            ext(&mut x, "<![CDATA[");
            let v = vec![plain(&mut x), b'<'];
            ext(&mut x, "<]]>");
            v
        }
        2 => {
            let b = plain(&mut x);
            ext(&mut x, "<!--c-->");
            vec![b, plain(&mut x)]
        }
        3 => {
            ext(&mut x, "&amp;");
            vec![b'&', plain(&mut x)]
        }
        4 => {
            let b = plain(&mut x);
            ext(&mut x, "<![CDATA[&]]>");
            vec![b, b'&', plain(&mut x)]
        }
        5 => {
            // any printable character, as a reference
            let (h, l) = (byte(), byte());
            assume((h >= b'2') & (h <= b'6'));
            assume(((l >= b'0') & (l <= b'9')) | ((l >= b'a') & (l <= b'f')));
            ext(&mut x, "&#x");
            x.push(h);
            x.push(l);
            ext(&mut x, ";");
            vec![(h - b'0') * 16 + if l <= b'9' { l - b'0' } else { l - b'a' + 10 }]
        }
        _ => {
            ext(&mut x, " ");
            let b = plain(&mut x);
            ext(&mut x, "\n");
            vec![b' ', b, b'\n']
        }
    };
    ext(&mut x, after);
    ext(&mut x, &format!("</{pre}e{end}>"));
    els.push(x);
    let num = ["-12", "<!--c-->-12", "-12<!--c-->", "-<!--c-->12"][p[13]];
    els.push(format!("<{pre}n>{num}</{pre}n{end}>").into_bytes());
    els.push([format!("<{pre}i/>"), format!("<{pre}i></{pre}i>"), format!("<{pre}i ><!--c--></{pre}i\n>")][p[14]].clone().into_bytes());
    let mut x = [format!("<{pre}i k='"), format!("<{pre}i\n\tk = '"), format!("<{pre}i xmlns:q='q' q:k='no' k='")][p[15]].clone().into_bytes();
    let k = plain(&mut x);
    ext(&mut x, "'>");
    ext(&mut x, ["", "<![CDATA[", "<!--c-->"][p[16]]);
    let t = plain(&mut x);
    ext(&mut x, ["", "]]>", "<!--c-->"][p[16]]);
    ext(&mut x, &format!("</{pre}i{end}>"));
    els.push(x);
    els.push(match p[17] {
        0 => format!("<{wp}:z/>").into_bytes(),
        1 => b"<z xmlns='w'></z>".to_vec(),
        _ => b"<y:z xmlns:y=\"w\"\n/>".to_vec(),
    });
    els.push(match p[21] {
        0 => format!("<{pre}f><{pre}i>1</{pre}i><{pre}i>2</{pre}i></{pre}f{end}>"),
        1 => format!("<{pre}f >\n<{pre}i><![CDATA[1]]></{pre}i> <!--c--><{pre}i>&#50;</{pre}i>\t</{pre}f{end}>"),
        _ => format!("<v:f xmlns:v='u'><v:i>1</v:i><i xmlns='u'>2</i></v:f{end}>"),
    }
    .into_bytes());
    match p[19] {
        0 => {}
        1 => els.rotate_left(4),
        _ => els.swap(0, 4),
    }
    for (i, x) in els.iter().enumerate() {
        ext(&mut d, sep);
        d.extend_from_slice(x);
        if p[20] == 2 && i == 2 {
            ext(&mut d, "<unknown xmlns:p='q' xmlns='q'><r a='1'><e>&lt;</e></r> text</unknown>");
        }
    }
    ext(&mut d, sep);
    ext(&mut d, &format!("</{root}{end}>"));
    ext(&mut d, ["", "\n", "<!--c-->\r\n"][p[2]]);
    // swapping the first and fifth element, or rotating, keeps the items in order or swaps them
    let items = vec![Item { k: None, t: String::new() }, Item { k: Some(string(vec![k])), t: string(vec![t]) }];
    let want = Root {
        a: string(av),
        b: Some(7),
        e: string(ev),
        n: -12,
        i: items,
        z: Some(Unit),
        f: Some(Pair(Item { k: None, t: "1".into() }, Item { k: None, t: "2".into() })),
    };
    (d, want)
}

fn same(n: usize) {
    let sp = Sp::new(n);
    let (d, want) = build(&sp);
    show(&d);
    match from_str::<Root>(s(&d)) {
        Ok(v) => {
            check(v.a == want.a, 1);
            check(v.e == want.e, 2);
            check(v == want, 3);
        }
        Err(_) => fail(4),
    }
    reach(1);
}
/// up to three places spelled otherwise
pub fn h19_spelling() {
    same(tier(3, 4))
}

/// comments, white space and prefixes as long and as many as they like
pub fn h19_long() {
    let n = size(tier(300, 1030));
    let unit = 1 + choose(3);
    let mut f = vec![];
    filler(&mut f, n, unit);
    let space: Vec<u8> = (0..n).map(|i| b" \n\t\r"[i % 4]).collect();
    let k = choose(9);
    let mut d = vec![];
    let mut many = |d: &mut Vec<u8>, at: usize| {
        let k = if k == at { choose(3) } else { return };
        match k {
            0 => {
                ext(d, "<!--");
                d.extend_from_slice(&f);
                ext(d, "<r>&-->");
            }
            1 => {
                for _ in 0..n.min(70) {
                    ext(d, "<!----> ")
                }
            }
            _ => d.extend_from_slice(&space),
        }
    };
    many(&mut d, 0);
    let mut pre = vec![];
    if k == 1 {
        filler(&mut pre, n, unit);
        pre.push(b':');
    }
    let p = String::from_utf8_lossy(&pre).into_owned();
    ext(&mut d, &format!("<{p}r xmlns{}{}='u'", if k == 1 { ":" } else { "" }, p.trim_end_matches(':')));
    if k == 2 {
        d.extend_from_slice(&space);
    }
    ext(&mut d, " a=");
    if k == 3 {
        d.extend_from_slice(&space);
    }
    ext(&mut d, "'");
    let c = plain(&mut d);
    ext(&mut d, "'>");
    many(&mut d, 4);
    ext(&mut d, &format!("<{p}e>"));
    let e = plain(&mut d);
    ext(&mut d, &format!("</{p}e"));
    if k == 5 {
        d.extend_from_slice(&space);
    }
    ext(&mut d, ">");
    many(&mut d, 6);
    ext(&mut d, &format!("<{p}n>"));
    if k == 7 {
        for _ in 0..n.min(70) {
            ext(&mut d, "<!--c--><![CDATA[]]>");
        }
    }
    ext(&mut d, &format!("-7</{p}n></{p}r>"));
    many(&mut d, 8);
    match from_str::<Root>(s(&d)) {
        Ok(v) => check(v == Root { a: string(vec![c]), b: None, e: string(vec![e]), n: -7, i: vec![], z: None, f: None }, 5),
        Err(_) => fail(6),
    }
    reach(1);
}
