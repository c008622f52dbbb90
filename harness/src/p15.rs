//! Scalar enums: each variant has one text, written for it and only read as it.
use crate::refxml;
use crate::sx::*;
use instant_xml::*;

macro_rules! holders {
    ($e:ident, $el:ident, $at:ident, $di:ident, $ve:ident, $ns:tt) => {
        #[derive(FromXml, ToXml, Debug, PartialEq)]
        #[xml(rename = "r", ns($ns))]
        struct $el {
            f: $e,
            g: Option<$e>,
        }
        #[derive(FromXml, ToXml, Debug, PartialEq)]
        #[xml(rename = "r")]
        struct $at {
            #[xml(attribute)]
            f: $e,
            #[xml(attribute)]
            g: Option<$e>,
        }
        #[derive(FromXml, ToXml, Debug, PartialEq)]
        #[xml(rename = "r")]
        struct $di {
            #[xml(direct)]
            f: $e,
        }
        #[derive(FromXml, ToXml, Debug, PartialEq)]
        #[xml(rename = "r", ns($ns))]
        struct $ve {
            f: Vec<$e>,
        }
        impl Sc for $e {
            type El = $el;
            type At = $at;
            type Di = $di;
            type Ve = $ve;
            const NS: &'static str = $ns;
            fn el(f: $e, g: Option<$e>) -> $el {
                $el { f, g }
            }
            fn at(f: $e, g: Option<$e>) -> $at {
                $at { f, g }
            }
            fn di(f: $e) -> $di {
                $di { f }
            }
            fn ve(f: Vec<$e>) -> $ve {
                $ve { f }
            }
            fn table() -> Vec<($e, &'static str)> {
                $e::T.to_vec()
            }
        }
    };
}
trait Sc: FromXmlOwned + ToXml + Copy + PartialEq {
    type El: FromXmlOwned + ToXml + PartialEq;
    type At: FromXmlOwned + ToXml + PartialEq;
    type Di: FromXmlOwned + ToXml + PartialEq;
    type Ve: FromXmlOwned + ToXml + PartialEq;
    const NS: &'static str;
    fn el(f: Self, g: Option<Self>) -> Self::El;
    fn at(f: Self, g: Option<Self>) -> Self::At;
    fn di(f: Self) -> Self::Di;
    fn ve(f: Vec<Self>) -> Self::Ve;
    fn table() -> Vec<(Self, &'static str)>;
}

#[derive(FromXml, ToXml, Debug, PartialEq, Clone, Copy)]
#[xml(scalar)]
enum Plain {
    A,
    B,
    Ab,
    #[xml(rename = "c-d")]
    C,
    #[xml(rename = "a")]
    D,
    #[xml(rename = "x y")]
    E,
}
holders!(Plain, PEl, PAt, PDi, PVe, "");
impl Plain {
    const T: [(Plain, &'static str); 6] = [(Plain::A, "A"), (Plain::B, "B"), (Plain::Ab, "Ab"), (Plain::C, "c-d"), (Plain::D, "a"), (Plain::E, "x y")];
}
#[derive(FromXml, ToXml, Debug, PartialEq, Clone, Copy)]
#[xml(scalar)]
enum Num {
    Zero = 0,
    One = 1,
    Ten = 10,
    Hex = 0x1f,
}
impl Num {
    const T: [(Num, &'static str); 4] = [(Num::Zero, "0"), (Num::One, "1"), (Num::Ten, "10"), (Num::Hex, "31")];
}
holders!(Num, NEl, NAt, NDi, NVe, "");
#[derive(FromXml, ToXml, Debug, PartialEq, Clone, Copy)]
#[xml(scalar, rename_all = "kebab-case")]
enum Kebab {
    A,
    TwoWords,
    #[xml(rename = "Own")]
    Renamed,
    Abc,
}
impl Kebab {
    const T: [(Kebab, &'static str); 4] = [(Kebab::A, "a"), (Kebab::TwoWords, "two-words"), (Kebab::Renamed, "Own"), (Kebab::Abc, "abc")];
}
holders!(Kebab, KEl, KAt, KDi, KVe, "");
#[derive(FromXml, ToXml, Debug, PartialEq, Clone, Copy)]
#[xml(scalar, ns("u"), rename_all = "UPPERCASE")]
enum Spaced {
    One,
    Two,
}
impl Spaced {
    const T: [(Spaced, &'static str); 2] = [(Spaced::One, "ONE"), (Spaced::Two, "TWO")];
}
holders!(Spaced, SEl, SAt, SDi, SVe, "u");

fn plain_char(out: &mut Vec<u8>) {
    let b = byte();
    assume(((b >= 0x20) & (b < 0x7f)) | (b == 10));
    assume((b != b'<') & (b != b'&') & (b != b'\'') & (b != b'>'));
    out.push(b)
}

/// any short text, or a near miss of a name
fn some_text(names: &[&str]) -> Vec<u8> {
    let mut t = vec![];
    if flag() {
        for _ in 0..choose(tier(4, 5)) {
            plain_char(&mut t);
        }
        return t;
    }
    let w = names[choose(names.len())].as_bytes();
    let at = choose(w.len() + 1);
    t.extend_from_slice(&w[..at]);
    let rest = &w[at..];
    match choose(3) {
        0 => {
            plain_char(&mut t);
            t.extend_from_slice(rest)
        }
        1 => {
            plain_char(&mut t);
            if !rest.is_empty() {
                t.extend_from_slice(&rest[1..]);
            }
        }
        _ => t.extend_from_slice(rest),
    }
    t
}

fn read<E: Sc>() {
    let table = E::table();
    let names: Vec<&str> = table.iter().map(|t| t.1).collect();
    let t = some_text(&names);
    let mut want = None;
    for (v, n) in &table {
        if n.as_bytes() == t {
            want = Some(*v);
        }
    }
    let ns = E::NS;
    let pos = choose(4);
    let mut d = vec![];
    if pos == 0 || pos == 3 {
        d.extend_from_slice(b"<r xmlns='");
        d.extend_from_slice(ns.as_bytes());
        d.extend_from_slice(b"'><f>");
    } else {
        d.extend_from_slice([&b"<r f='"[..], b"<r>"][pos - 1]);
    }
    d.extend_from_slice(&t);
    d.extend_from_slice([&b"</f></r>"[..], b"'/>", b"</r>", b"</f></r>"][pos]);
    show(&d);
    let x = s(&d);
    let (eq, err) = match (pos, want) {
        (0, Some(w)) => (matches!(from_str::<E::El>(x), Ok(v) if v == E::el(w, None)), None),
        (1, Some(w)) => (matches!(from_str::<E::At>(x), Ok(v) if v == E::at(w, None)), None),
        (2, Some(w)) => (matches!(from_str::<E::Di>(x), Ok(v) if v == E::di(w)), None),
        (_, Some(w)) => (matches!(from_str::<E::Ve>(x), Ok(v) if v == E::ve(vec![w])), None),
        (0, None) => (false, from_str::<E::El>(x).err()),
        (1, None) => (false, from_str::<E::At>(x).err()),
        (2, None) => (false, from_str::<E::Di>(x).err()),
        (_, None) => (false, from_str::<E::Ve>(x).err()),
    };
    match want {
        Some(_) => {
            check(eq, 1);
            reach(1)
        }
        None => {
            match err {
                Some(Error::UnexpectedValue(_)) => check(!t.is_empty() || pos == 1, 2),
                Some(Error::MissingValue(_)) => check(t.is_empty(), 3),
                _ => fail(4),
            }
            reach(2)
        }
    }
}

fn write<E: Sc>() {
    let table = E::table();
    let (v, n) = table[choose(table.len())];
    let (w, m) = table[choose(table.len())];
    let x = match choose(4) {
        0 => {
            let g = if flag() { Some(w) } else { None };
            let Ok(x) = to_string(&E::el(v, g)) else { fail(11) };
            let Ok(r) = refxml::parse(x.as_bytes()) else { fail(12) };
            check(r.is(E::NS, "r") && r.attrs.is_empty() && r.children.len() == 1 + g.is_some() as usize, 13);
            check(r.children[0].is(E::NS, "f") && r.children[0].text == n.as_bytes(), 14);
            if g.is_some() {
                check(r.children[1].is(E::NS, "g") && r.children[1].text == m.as_bytes(), 15);
            }
            check(matches!(from_str::<E::El>(&x), Ok(b) if b == E::el(v, g)), 16);
            x
        }
        1 => {
            let g = if flag() { Some(w) } else { None };
            let Ok(x) = to_string(&E::at(v, g)) else { fail(21) };
            let Ok(r) = refxml::parse(x.as_bytes()) else { fail(22) };
            check(r.attrs.len() == 1 + g.is_some() as usize && r.attr("", "f") == Some(n.as_bytes()), 23);
            if g.is_some() {
                check(r.attr("", "g") == Some(m.as_bytes()), 24);
            }
            check(matches!(from_str::<E::At>(&x), Ok(b) if b == E::at(v, g)), 25);
            x
        }
        2 => {
            let Ok(x) = to_string(&E::di(v)) else { fail(31) };
            let Ok(r) = refxml::parse(x.as_bytes()) else { fail(32) };
            check(r.text == n.as_bytes() && r.children.is_empty(), 33);
            check(matches!(from_str::<E::Di>(&x), Ok(b) if b == E::di(v)), 34);
            x
        }
        _ => {
            let Ok(x) = to_string(&E::ve(vec![v, w, v])) else { fail(41) };
            let Ok(r) = refxml::parse(x.as_bytes()) else { fail(42) };
            check(r.children.len() == 3, 43);
            for (c, t) in r.children.iter().zip([n, m, n]) {
                check(c.is(E::NS, "f") && c.text == t.as_bytes(), 44);
            }
            check(matches!(from_str::<E::Ve>(&x), Ok(b) if b == E::ve(vec![v, w, v])), 45);
            x
        }
    };
    show(x.as_bytes());
    note_str(1, &x);
    reach(1);
}

pub fn h15_read() {
    match choose(4) {
        0 => read::<Plain>(),
        1 => read::<Num>(),
        2 => read::<Kebab>(),
        _ => read::<Spaced>(),
    }
}
pub fn h15_write() {
    match choose(4) {
        0 => write::<Plain>(),
        1 => write::<Num>(),
        2 => write::<Kebab>(),
        _ => write::<Spaced>(),
    }
}
