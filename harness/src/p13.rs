//! Limits: a document within the limits is read, one beyond any of them is an error, for the default
//! and for chosen limits, wherever in the document and whatever the reader does with that part.
use crate::gen::*;
use crate::sx::*;
use instant_xml::de::Limits;
use instant_xml::*;

#[derive(FromXml, Debug)]
#[xml(rename = "r")]
struct Ign {
    zz: Option<String>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "r")]
struct Unit;
#[derive(FromXml, Debug)]
#[xml(rename = "r")]
struct Rec {
    #[xml(attribute)]
    a0: Option<String>,
    r: Vec<Rec>,
    c: Vec<C>,
}
#[derive(FromXml, Debug)]
#[xml(rename = "c")]
struct C {
    #[xml(attribute)]
    a1: Option<String>,
    r: Vec<Rec>,
    s: Option<String>,
}

fn lim(a: usize, l: usize, n: usize) -> Limits {
    let mut x = Limits::default();
    x.max_attributes = a;
    x.max_levels = l;
    x.max_ns_declarations = n;
    x
}

#[derive(PartialEq)]
enum Got {
    Read,
    Limit,
    Other,
}
fn run<T: FromXmlOwned>(x: &str, l: Option<Limits>) -> Got {
    let r = match Deserializer::new(x) {
        Ok(mut d) => match l {
            Some(l) => d.with_limits(l).deserialize::<T>(),
            None => d.deserialize::<T>(),
        },
        Err(e) => Err(e),
    };
    match r {
        Ok(_) => Got::Read,
        Err(Error::Other(_)) => Got::Limit,
        Err(_) => Got::Other,
    }
}
fn any(x: &str, l: Option<Limits>) -> Got {
    let r = match Deserializer::new(x) {
        Ok(mut d) => match l {
            Some(l) => d.with_limits(l).deserialize::<AnyElement>().map(|_| ()),
            None => d.deserialize::<AnyElement>().map(|_| ()),
        },
        Err(e) => Err(e),
    };
    match r {
        Ok(_) => Got::Read,
        Err(Error::Other(_)) => Got::Limit,
        Err(_) => Got::Other,
    }
}
fn judge(d: &[u8], l: Option<Limits>, within: bool) {
    show(d);
    let x = s(d);
    let got = match choose(4) {
        0 => any(x, l),
        1 => run::<Ign>(x, l),
        2 => run::<Unit>(x, l),
        _ => run::<Rec>(x, l),
    };
    check(got == if within { Got::Read } else { Got::Limit }, 1);
    reach(if within { 1 } else { 2 });
}

fn two(out: &mut Vec<u8>, i: usize) {
    out.push(b'0' + (i / 10) as u8);
    out.push(b'0' + (i % 10) as u8);
}
fn attrs(out: &mut Vec<u8>, n: usize, value: u8) {
    for i in 0..n {
        out.extend_from_slice(b" a");
        two(out, i);
        out.extend_from_slice(b"='");
        out.push(if i == 0 { value } else { b'v' });
        out.push(b'\'');
    }
}
fn decls(out: &mut Vec<u8>, n: usize) {
    for i in 0..n {
        out.extend_from_slice(b" xmlns:p");
        two(out, i);
        out.extend_from_slice(b"='u'");
    }
}
fn value() -> u8 {
    let mut v = vec![];
    push_char(&mut v, 1);
    let b = v[0];
    assume((b != b'<') & (b != b'&') & (b != b'\''));
    b
}

/// small limits: one element somewhere with some attributes and declarations
pub fn h13_custom() {
    let (la, ll, ln) = (choose(3), 1 + choose(tier(3, 4)), choose(3));
    let (na, nn) = (choose(4), choose(4));
    let depth = 1 + choose(tier(4, 5));
    let mut d = b"<r>".to_vec();
    // earlier siblings leave nothing behind
    if flag() {
        assume(ll > 1);
        if la > 0 {
            d.extend_from_slice(b"<r a='1'/><c b='1'></c>");
        } else {
            d.extend_from_slice(b"<r/><c>t</c>");
        }
    }
    let name: &[u8] = [&b"r"[..], b"c", b"q"][choose(3)];
    for k in 1..depth {
        d.push(b'<');
        d.extend_from_slice(name);
        if k == depth - 1 {
            decls(&mut d, nn);
            attrs(&mut d, na, value());
        }
        d.push(b'>');
    }
    if flag() {
        d.extend_from_slice(b"<!--c-->t");
    }
    for _ in 1..depth {
        d.extend_from_slice(b"</");
        d.extend_from_slice(name);
        d.push(b'>');
    }
    d.extend_from_slice(b"</r>");
    let within = depth <= ll && (depth == 1 || (na <= la && nn <= ln));
    judge(&d, Some(lim(la, ll, ln)), within);
}

/// the documented defaults: 64 attributes, 32 declarations
pub fn h13_default() {
    let attr = flag();
    let n = [0, 1, 31, 32, 33, 62, 63, 64, 65, 66][choose(10)];
    let at = choose(3);
    let mut d = b"<r".to_vec();
    let put = |d: &mut Vec<u8>| if attr { attrs(d, n, value()) } else { decls(d, n) };
    if at == 0 {
        put(&mut d);
    }
    d.push(b'>');
    if at == 1 {
        d.extend_from_slice(b"<c");
        put(&mut d);
        d.extend_from_slice(b"/>");
    }
    if at == 2 {
        d.extend_from_slice(b"<q><q");
        put(&mut d);
        d.extend_from_slice(b"></q></q>");
    }
    d.extend_from_slice(b"</r>");
    judge(&d, None, n <= if attr { 64 } else { 32 });
}

/// 32 levels
pub fn h13_levels() {
    let n = [1, 2, 16, 30, 31, 32, 33, 34, 40][choose(9)];
    let name: &[u8] = [&b"r"[..], b"q"][choose(2)];
    let empty = flag();
    let mut d = vec![];
    for k in 0..n {
        let name = if k == 0 { b"r" } else { name };
        d.push(b'<');
        d.extend_from_slice(name);
        if k == 1 {
            attrs(&mut d, 2, value());
        }
        if k == n - 1 && empty {
            d.push(b'/');
        }
        d.push(b'>');
    }
    for k in (0..n).rev() {
        if k == n - 1 && empty {
            continue;
        }
        d.extend_from_slice(b"</");
        d.extend_from_slice(if k == 0 { b"r" } else { name });
        d.push(b'>');
    }
    judge(&d, None, n <= 32);
}

/// limits concern nesting and single elements, not totals: any number of siblings is fine
pub fn h13_totals() {
    let n = [3, 33, 65][choose(3)];
    let mut d = b"<r>".to_vec();
    let form = choose(5);
    for i in 0..n {
        match form {
            0 => d.extend_from_slice(b"<q/>"),
            1 => d.extend_from_slice(b"<c a='1'/>"),
            2 => {
                d.extend_from_slice(b"<q xmlns:p");
                two(&mut d, i);
                d.extend_from_slice(b"='u'>t</q>");
            }
            3 => d.extend_from_slice(b"<r><q></q></r>"),
            _ => d.extend_from_slice(b"<c><s>t</s><q a='1' b='2'/></c>"),
        }
    }
    d.extend_from_slice(b"</r>");
    // with limits that a single one of them just meets
    let l = if flag() { Some(lim(2, 3, 1)) } else { None };
    // a repeated scalar is another matter
    judge(&d, l, true);
}
