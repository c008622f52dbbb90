//! References: `&` introduces exactly the five predefined entities and character references to XML
//! characters; everything else starting with `&` is an error; all other text is left alone.
use crate::gen::*;
use crate::refxml;
use crate::sx::*;
use instant_xml::*;

#[derive(FromXml, Debug)]
struct El {
    t: String,
}
#[derive(FromXml, Debug)]
struct At {
    #[xml(attribute)]
    a: String,
}
#[derive(FromXml, Debug)]
struct Dir {
    #[xml(direct)]
    t: String,
}

/// Read `raw` (which contains no `<` or `"`) as the content of an element, attribute or direct field.
fn read(raw: &[u8], pos: usize) -> Option<String> {
    let (a, b) = [("<El><t>", "</t></El>"), ("<At a=\"", "\"/>"), ("<Dir>", "</Dir>"), ("<At a='", "'></At>")][pos];
    let mut v = a.as_bytes().to_vec();
    v.extend_from_slice(raw);
    v.extend_from_slice(b.as_bytes());
    match pos {
        0 => from_str::<El>(s(&v)).ok().map(|x| x.t),
        2 => from_str::<Dir>(s(&v)).ok().map(|x| x.t),
        _ => from_str::<At>(s(&v)).ok().map(|x| x.a),
    }
}

fn judge(raw: &[u8], pos: usize) {
    let got = read(raw, pos);
    match (refxml::unescape(raw), got) {
        (Ok(want), Some(got)) => {
            note_str(1, &got);
            check(got.as_bytes() == &want[..], 1);
            reach(1)
        }
        (Ok(_), None) => fail(2),
        (Err(_), Some(_)) => fail(3),
        (Err(_), None) => reach(2),
    }
}

/// A character of a reference body: printable ASCII except the delimiters of the surrounding markup.
fn body() -> u8 {
    let b = byte();
    assume((b >= 0x20) & (b < 0x7f) & (b != b'<') & (b != b'"') & (b != b'\'') & (b != b'>'));
    b
}

fn around(v: &mut Vec<u8>, k: usize) {
    v.extend_from_slice([&b""[..], b"x", "\u{e9}".as_bytes(), b" "][k]);
}

/// `&` followed by any characters up to the bound, with or without a terminator
pub fn h03_any() {
    let mut v = vec![];
    let pos = choose(3);
    v.push(b'&');
    let n = choose(tier(5, 6) + 1);
    for _ in 0..n {
        v.push(body());
    }
    if flag() {
        v.push(b';');
    }
    // an upper-case X is a tolerated spelling of hexadecimal references
    if v.len() > 2 {
        assume((v[1] != b'#') | (v[2] != b'X'));
    }
    judge(&v, pos);
}

/// every decimal reference up to 8 digits
pub fn h03_decimal() {
    let mut v = vec![];
    let pos = choose(2);
    around(&mut v, choose(3));
    v.extend_from_slice(b"&#");
    let n = 1 + choose(8);
    for _ in 0..n {
        let b = byte();
        assume((b >= b'0') & (b <= b'9'));
        v.push(b);
    }
    v.push(b';');
    around(&mut v, choose(3));
    judge_num(&v, pos, n >= 8);
}

/// References with more than 8 characters between `&` and `;` are outside the property: the
/// implementation documents a buffer that just fits the longest canonical reference.
fn judge_num(raw: &[u8], pos: usize, long: bool) {
    if long {
        // still: never a wrong value
        if let Some(got) = read(raw, pos) {
            match refxml::unescape(raw) {
                Ok(want) => check(got.as_bytes() == &want[..], 4),
                Err(_) => fail(5),
            }
        }
        reach(1);
        reach(2);
    } else {
        judge(raw, pos)
    }
}

/// every hexadecimal reference up to 7 digits (either case)
pub fn h03_hex() {
    let mut v = vec![];
    let pos = choose(2);
    around(&mut v, choose(2));
    v.extend_from_slice(b"&#x");
    let n = 1 + choose(7);
    for _ in 0..n {
        let b = byte();
        assume(((b >= b'0') & (b <= b'9')) | ((b >= b'a') & (b <= b'f')) | ((b >= b'A') & (b <= b'F')));
        v.push(b);
    }
    v.push(b';');
    around(&mut v, choose(2));
    judge_num(&v, pos, n >= 7);
}

/// numeric references with one arbitrary character among the digits (signs, spaces, letters...)
pub fn h03_junk() {
    let mut v = vec![];
    let pos = choose(2);
    let hex = flag();
    v.extend_from_slice(if hex { b"&#x" } else { b"&#" });
    let n = 1 + choose(4);
    let at = choose(n);
    for i in 0..n {
        v.push(if i == at { body() } else { b'6' });
    }
    v.push(b';');
    // an upper-case X is a different (tolerated) spelling
    if !hex {
        assume(v[2] != b'X');
    }
    judge(&v, pos);
}

/// several references and plain characters in a row, split over the whole value
pub fn h03_sequence() {
    let mut v = vec![];
    let pos = choose(4);
    let n = 1 + choose(tier(4, 5));
    for _ in 0..n {
        match choose(10) {
            0 => v.extend_from_slice(b"&amp;"),
            1 => v.extend_from_slice(b"&lt;"),
            2 => v.extend_from_slice(b"&gt;"),
            3 => v.extend_from_slice(b"&quot;"),
            4 => v.extend_from_slice(b"&apos;"),
            5 => v.extend_from_slice(b"&#x20AC;"),
            6 => v.extend_from_slice(b"&#10;"),
            7 => v.extend_from_slice("\u{20ac}".as_bytes()),
            8 => v.extend_from_slice(b";"),
            _ => {
                let b = body();
                assume(b != b'&');
                v.push(b)
            }
        }
    }
    judge(&v, pos);
}

/// values without any `&`: unchanged, whatever the characters
pub fn h03_plain() {
    let pos = choose(3);
    let mut v = vec![];
    let n = 1 + choose(tier(3, 4));
    for i in 0..n {
        let st = v.len();
        xml_char(&mut v, if i == 0 { 0b1111 } else { 0b0011 });
        let b = v[st];
        assume((b != b'<') & (b != b'"') & (b != b'&') & (b != b'\'') & (b != b'>'));
    }
    let got = read(&v, pos);
    match got {
        Some(g) => check(g.as_bytes() == &v[..], 7),
        None => fail(8),
    }
    reach(1);
}

/// CDATA sections are not decoded
pub fn h03_cdata() {
    let n = choose(tier(4, 5));
    let mut raw = vec![];
    if flag() {
        raw.extend_from_slice(b"&amp;");
    }
    for _ in 0..n {
        let b = byte();
        assume(((b >= 0x20) & (b < 0x7f)) | (b == 10));
        assume(b != b']');
        raw.push(b);
    }
    if flag() {
        raw.extend_from_slice(b"&#65;<");
    }
    let k = choose(2);
    let mut v = if k == 0 { b"<El><t><![CDATA[".to_vec() } else { b"<Dir><![CDATA[".to_vec() };
    v.extend_from_slice(&raw);
    v.extend_from_slice(if k == 0 { b"]]></t></El>" } else { b"]]></Dir>" });
    let got = if k == 0 { from_str::<El>(s(&v)).ok().map(|x| x.t) } else { from_str::<Dir>(s(&v)).ok().map(|x| x.t) };
    match got {
        Some(g) => check(g.as_bytes() == &raw[..], 9),
        None => fail(10),
    }
    reach(1);
}

/// references at any place of a long text, and any number of them
pub fn h03_long() {
    let n = size(tier(300, 1030));
    let pos = choose(3);
    let mut v = vec![];
    match choose(3) {
        0 => filler(&mut v, n, 3),
        1 => {
            for _ in 0..n.min(130) {
                put(&mut v, "&lt;")
            }
        }
        _ => {
            for _ in 0..n.min(70) {
                put(&mut v, "&#x20AC;a")
            }
        }
    }
    v.extend_from_slice(b"&#6");
    let b = body();
    assume(b != b'&');
    v.push(b);
    v.push(b';');
    filler(&mut v, if flag() { n } else { 0 }, 2);
    judge(&v, pos);
}
fn put(v: &mut Vec<u8>, x: &str) {
    v.extend_from_slice(x.as_bytes())
}

/// references in the parts of a document that the type does not use
pub fn h03_ignored() {
    const W: [(&str, &str); 7] = [
        ("<Dir><u>", "</u></Dir>"),
        ("<Dir><u v=\"", "\"/></Dir>"),
        ("<Dir v='", "'/>"),
        ("<El><t>x<u>", "</u></t></El>"),
        ("<El>", "<t>x</t></El>"),
        ("<El><t v=\"", "\">x</t></El>"),
        ("<El><u><w/><w>", "</w></u><t>x</t></El>"),
    ];
    let k = choose(W.len());
    let mut raw = vec![b'&'];
    for _ in 0..choose(tier(4, 5)) {
        raw.push(body());
    }
    if flag() {
        raw.push(b';');
    }
    if raw.len() > 2 {
        assume((raw[1] != b'#') | (raw[2] != b'X'));
    }
    let mut v = W[k].0.as_bytes().to_vec();
    v.extend_from_slice(&raw);
    put(&mut v, W[k].1);
    let ok = if k < 3 { from_str::<Dir>(s(&v)).is_ok() } else { from_str::<El>(s(&v)).is_ok() };
    check(ok == refxml::unescape(&raw).is_ok(), 11);
    reach(if ok { 1 } else { 2 });
}
