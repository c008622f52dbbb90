//! Booleans, characters, IP addresses and text: exactly the lexical forms they have, with exactly
//! the value those denote.
use crate::gen::*;
use crate::refxml;
use crate::sx::*;
use instant_xml::*;
use std::borrow::Cow;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

#[derive(FromXml, Debug)]
#[xml(rename = "r")]
struct El<T> {
    f: T,
}
#[derive(FromXml, Debug)]
#[xml(rename = "r")]
struct At<T> {
    #[xml(attribute)]
    f: T,
}
#[derive(FromXml, Debug)]
#[xml(rename = "r")]
struct Di<T> {
    #[xml(direct)]
    f: T,
}
#[derive(FromXml, Debug)]
#[xml(rename = "r")]
struct OEl<T> {
    f: Option<T>,
}

enum Want<T> {
    Absent,
    Bad,
    Is(T),
}

fn read<T: FromXmlOwned + PartialEq>(text: &[u8], want: Want<T>) {
    let pos = choose(4);
    let mut d = vec![];
    let (a, b): (&[u8], &[u8]) = match pos {
        0 | 3 => (b"<r><f>", b"</f></r>"),
        1 => (b"<r f='", b"'/>"),
        _ => (b"<r>", b"</r>"),
    };
    d.extend_from_slice(a);
    d.extend_from_slice(text);
    d.extend_from_slice(b);
    show(&d);
    let x = s(&d);
    let got = match pos {
        0 => from_str::<El<T>>(x).map(|v| Some(v.f)),
        1 => from_str::<At<T>>(x).map(|v| Some(v.f)),
        3 => from_str::<OEl<T>>(x).map(|v| v.f),
        _ => from_str::<Di<T>>(x).map(|v| Some(v.f)),
    };
    match (got, want) {
        (Ok(Some(g)), Want::Is(w)) => {
            check(g == w, 1);
            reach(1)
        }
        (Err(Error::UnexpectedValue(_)), Want::Bad) => reach(2),
        (Ok(None), Want::Absent) => check(pos == 3, 2),
        (Err(Error::MissingValue(_)), Want::Absent) => check(pos != 3, 3),
        // an empty attribute is a value, of which nothing but text can be made
        (Err(Error::UnexpectedValue(_)), Want::Absent) => check(pos == 1, 4),
        _ => fail(5),
    }
}

fn plain(out: &mut Vec<u8>, lens: u8) {
    let at = out.len();
    xml_char(out, lens);
    let b = out[at];
    assume((b != b'<') & (b != b'&') & (b != b'\'') & (b != b'>'));
}

pub fn h12_bool() {
    let mut t = vec![];
    // anything short, or a near miss of a word
    match choose(4) {
        0 => {
            for _ in 0..choose(4) {
                plain(&mut t, 0b0011);
            }
        }
        k => {
            let w: &[u8] = [&b"true"[..], b"false", b"1"][k - 1];
            let at = choose(w.len() + 1);
            t.extend_from_slice(&w[..at]);
            let rest = &w[at..];
            match choose(3) {
                0 => {
                    plain(&mut t, 1);
                    t.extend_from_slice(rest);
                }
                1 => {
                    plain(&mut t, 1);
                    if !rest.is_empty() {
                        t.extend_from_slice(&rest[1..]);
                    }
                }
                _ => t.extend_from_slice(rest),
            }
        }
    }
    let want = if t.is_empty() {
        Want::Absent
    } else if t == b"true" || t == b"1" {
        Want::Is(true)
    } else if t == b"false" || t == b"0" {
        Want::Is(false)
    } else {
        Want::Bad
    };
    read(&t, want)
}

/// the code point of a single well-formed UTF-8 character
fn code(b: &[u8]) -> u32 {
    let c = |i: usize| (b[i] & 0x3f) as u32;
    match b.len() {
        1 => b[0] as u32,
        2 => ((b[0] & 0x1f) as u32) << 6 | c(1),
        3 => ((b[0] & 0xf) as u32) << 12 | c(1) << 6 | c(2),
        _ => ((b[0] & 7) as u32) << 18 | c(1) << 12 | c(2) << 6 | c(3),
    }
}
#[derive(PartialEq)]
struct Code(u32);
pub fn h12_char() {
    let mut t = vec![];
    let n = choose(3);
    for _ in 0..n {
        plain(&mut t, 0b1111);
    }
    let want = match n {
        0 => Want::Absent,
        1 => Want::Is(char::from_u32(code(&t)).unwrap_or('?')),
        _ => Want::Bad,
    };
    read(&t, want)
}

/// dotted decimal: four numbers without leading zeros, each up to 255
fn v4(t: &[u8]) -> Option<[u8; 4]> {
    let mut o = [0u8; 4];
    let mut k = 0;
    let mut i = 0;
    loop {
        let st = i;
        let mut v = 0u32;
        while i < t.len() && (t[i] >= b'0') & (t[i] <= b'9') {
            v = v * 10 + (t[i] - b'0') as u32;
            i += 1;
            if i - st > 3 {
                return None;
            }
        }
        if i == st || v > 255 || (i - st > 1 && t[st] == b'0') {
            return None;
        }
        o[k] = v as u8;
        k += 1;
        if k == 4 {
            return if i == t.len() { Some(o) } else { None };
        }
        if i >= t.len() || t[i] != b'.' {
            return None;
        }
        i += 1;
    }
}
pub fn h12_ipv4() {
    const T: [&str; 8] = ["10.0.0.1", "255.255.255.255", "1.2.3.4", "192.168.010.1", "0.0.0.0", "256.1.1.1", "127.0.0.1 ", "1.2.3"];
    let w = T[choose(8)].as_bytes();
    let at = choose(w.len());
    let mut t = w[..at].to_vec();
    // one or two characters replaced, one inserted
    match choose(3) {
        0 => {
            plain(&mut t, 1);
            t.extend_from_slice(&w[at + 1..]);
        }
        1 => {
            plain(&mut t, 1);
            t.extend_from_slice(&w[at..]);
        }
        _ => {
            plain(&mut t, 1);
            plain(&mut t, 1);
            let rest = &w[(at + 2).min(w.len())..];
            t.extend_from_slice(rest);
        }
    }
    for &b in &t {
        // not the other family
        assume(b != b':');
    }
    let want = match v4(&t) {
        Some([a, b, c, d]) => Want::Is(IpAddr::V4(Ipv4Addr::new(a, b, c, d))),
        None => Want::Bad,
    };
    read(&t, want)
}
fn hex(t: &mut Vec<u8>, n: usize) -> u16 {
    let mut v = 0u16;
    for _ in 0..n {
        let b = byte();
        let (dg, lo, up) = ((b >= b'0') & (b <= b'9'), (b >= b'a') & (b <= b'f'), (b >= b'A') & (b <= b'F'));
        assume(dg | lo | up);
        let d = if dg {
            b - b'0'
        } else if lo {
            b - b'a' + 10
        } else {
            b - b'A' + 10
        };
        t.push(b);
        v = v << 4 | d as u16;
    }
    v
}
pub fn h12_ipv6() {
    let mut t = vec![];
    if choose(4) == 0 {
        let o = [byte(), 255, 0, byte()];
        t.extend_from_slice(b"::ffff:");
        for i in 0..4 {
            if i > 0 {
                t.push(b'.');
            }
            dec(&mut t, o[i]);
        }
        let want = IpAddr::V6(Ipv4Addr::new(o[0], o[1], o[2], o[3]).to_ipv6_mapped());
        return read(&t, Want::Is(want));
    }
    // groups in front of and after the gap
    let n = 1 + choose(tier(2, 4));
    let before = choose(n + 1);
    let mut g = [0u16; 8];
    for i in 0..n {
        if i == before {
            t.extend_from_slice(b"::");
        } else if i > 0 {
            t.push(b':');
        }
        let v = hex(&mut t, if i == 0 { 1 + choose(tier(3, 4)) } else { 1 });
        g[if i < before { i } else { 8 - n + i }] = v;
    }
    if before == n {
        t.extend_from_slice(b"::");
    }
    let want = match choose(3) {
        0 => Want::Is(IpAddr::V6(Ipv6Addr::new(g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7]))),
        1 => {
            t.push(b'g');
            Want::Bad
        }
        _ => {
            t.extend_from_slice(b":");
            Want::Bad
        }
    };
    read(&t, want)
}

#[derive(ToXml)]
#[xml(rename = "r")]
struct Wr<T> {
    #[xml(attribute)]
    a: T,
    e: T,
    #[xml(direct)]
    d: T,
}
fn write<T: ToXml + Copy>(v: T, want: &[u8]) {
    let Ok(x) = to_string(&Wr { a: v, e: v, d: v }) else { fail(11) };
    show(x.as_bytes());
    match refxml::parse(x.as_bytes()) {
        Ok(r) => {
            check(r.is("", "r") && r.attrs.len() == 1 && r.children.len() == 1 && r.children[0].is("", "e"), 12);
            check(r.attr("", "a") == Some(want), 13);
            check(r.children[0].text == want, 14);
            check(r.text == want, 15);
        }
        Err(_) => fail(16),
    }
    reach(1);
}
fn dec(out: &mut Vec<u8>, v: u8) {
    if v >= 100 {
        out.push(b'0' + v / 100);
    }
    if v >= 10 {
        out.push(b'0' + v / 10 % 10);
    }
    out.push(b'0' + v % 10);
}
pub fn h12_write() {
    match choose(5) {
        0 => {
            let b = flag();
            write(b, if b { b"true" } else { b"false" })
        }
        1 => {
            let mut t = vec![];
            xml_char(&mut t, 0b1111);
            let c = char::from_u32(code(&t)).unwrap_or('?');
            write(c, &t)
        }
        2 => {
            let at = choose(4);
            let mut o = [[1u8, 20, 255, 0], [0, 0, 0, 0]][choose(2)];
            o[at] = byte();
            let mut t = vec![];
            for i in 0..4 {
                if i > 0 {
                    t.push(b'.');
                }
                dec(&mut t, o[i]);
            }
            write(IpAddr::V4(Ipv4Addr::new(o[0], o[1], o[2], o[3])), &t)
        }
        3 => {
            // an address of one family within the other stays one of the other
            let (at, b) = (choose(4), byte());
            let mut o = [1u8, 20, 255, 0];
            o[at] = b;
            let mut t = b"::ffff:".to_vec();
            for i in 0..4 {
                if i > 0 {
                    t.push(b'.');
                }
                dec(&mut t, o[i]);
            }
            write(IpAddr::V6(Ipv4Addr::new(o[0], o[1], o[2], o[3]).to_ipv6_mapped()), &t)
        }
        _ => {
            // a few addresses of the other family, in their canonical form
            let (g, t): ([u16; 8], &[u8]) = [
                ([0, 0, 0, 0, 0, 0, 0, 1], &b"::1"[..]),
                ([0x2001, 0xdb8, 0, 0, 1, 0, 0, 1], b"2001:db8::1:0:0:1"),
                ([1, 2, 3, 4, 5, 6, 7, 0xabcd], b"1:2:3:4:5:6:7:abcd"),
                ([0; 8], b"::"),
            ][choose(4)];
            write(IpAddr::V6(Ipv6Addr::new(g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7])), t)
        }
    }
}

/// text fields keep every character, white space included
pub fn h12_text() {
    fn go<T: FromXmlOwned>(f: fn(&T) -> &str) {
        let mut t = vec![];
        for _ in 0..choose(tier(3, 4)) {
            plain(&mut t, 0b0111);
        }
        let pos = choose(3);
        let mut d = [&b"<r><f>"[..], b"<r f='", b"<r>"][pos].to_vec();
        d.extend_from_slice(&t);
        d.extend_from_slice([&b"</f></r>"[..], b"'/>", b"</r>"][pos]);
        show(&d);
        let x = s(&d);
        let r = match pos {
            0 => from_str::<El<T>>(x).map(|v| v.f),
            1 => from_str::<At<T>>(x).map(|v| v.f),
            _ => from_str::<Di<T>>(x).map(|v| v.f),
        };
        match r {
            Ok(v) => check(f(&v).as_bytes() == t, 21),
            Err(_) => fail(22),
        }
        reach(1);
    }
    if flag() {
        go::<String>(|v| v)
    } else {
        go::<Cow<'static, str>>(|v| v)
    }
}

/// unit: any content means "present"
pub fn h12_unit() {
    let mut d = b"<r>".to_vec();
    let here = flag();
    if here {
        d.extend_from_slice(b"<f>");
        for _ in 0..choose(3) {
            plain(&mut d, 0b0011);
        }
        d.extend_from_slice([&b""[..], b"<g/>", b"<f>1</f>"][choose(3)]);
        d.extend_from_slice(b"</f>");
    }
    d.extend_from_slice(b"</r>");
    show(&d);
    let x = s(&d);
    match from_str::<OEl<()>>(x) {
        Ok(v) => check(v.f.is_some() == here, 31),
        Err(_) => fail(32),
    }
    match from_str::<El<()>>(x) {
        Ok(_) => check(here, 33),
        Err(Error::MissingValue(_)) => check(!here, 34),
        Err(_) => fail(35),
    }
    reach(1);
}
