//! Integers: exactly the decimal numerals in the type's range are read, with their value; what is
//! written is the canonical numeral.
use crate::sx::*;
use instant_xml::*;

#[derive(FromXml, Debug)]
#[xml(rename = "r")]
struct El<T> {
    f: T,
}
#[derive(FromXml, Debug)]
#[xml(rename = "r")]
struct At<T> {
    #[xml(attribute)]
    f: T,
}
#[derive(FromXml, Debug)]
#[xml(rename = "r")]
struct Di<T> {
    #[xml(direct)]
    f: T,
}

trait Int: FromXmlOwned + ToXml + Copy {
    const BITS: u32;
    const SIGNED: bool;
    fn wide(self) -> i128;
    /// the value modulo 2^64
    fn low(self) -> u64;
    fn from_bytes(b: [u8; 8]) -> Self;
}
macro_rules! int {
    ($($t:ty, $s:expr;)*) => { $( impl Int for $t {
        const BITS: u32 = <$t>::BITS;
        const SIGNED: bool = $s;
        fn wide(self) -> i128 { self as i128 }
        fn low(self) -> u64 { self as i64 as u64 }
        fn from_bytes(b: [u8; 8]) -> Self { u64::from_le_bytes(b) as $t }
    } )* };
}
int! { u8, false; u16, false; u32, false; u64, false; usize, false; i8, true; i16, true; i32, true; i64, true; isize, true; }

#[derive(PartialEq, Clone, Copy)]
enum Want {
    Absent,
    Bad,
    Is(i128),
}

/// The specification: optional white space around an optional sign (minus only for signed types) and
/// one or more digits, whose value is in range.
fn want<T: Int>(text: &[u8]) -> Want {
    if text.is_empty() {
        return Want::Absent;
    }
    let ws = |b: u8| (b == 32) | (b == 9) | (b == 10) | (b == 13);
    let (mut i, mut j) = (0, text.len());
    while i < j && ws(text[i]) {
        i += 1;
    }
    while i < j && ws(text[j - 1]) {
        j -= 1;
    }
    let mut t = &text[i..j];
    let mut neg = false;
    if !t.is_empty() && (t[0] == b'+' || (T::SIGNED && t[0] == b'-')) {
        neg = t[0] == b'-';
        t = &t[1..];
    }
    if t.is_empty() {
        return Want::Bad;
    }
    let mut v: i128 = 0;
    for &b in t {
        if !((b >= b'0') & (b <= b'9')) {
            return Want::Bad;
        }
        v = v * 10 + (b - b'0') as i128;
    }
    if neg {
        v = -v;
    }
    let (lo, hi) = if T::SIGNED { (-(1i128 << (T::BITS - 1)), (1i128 << (T::BITS - 1)) - 1) } else { (0, (1i128 << T::BITS) - 1) };
    if (v >= lo) & (v <= hi) {
        Want::Is(v)
    } else {
        Want::Bad
    }
}

fn read<T: Int>(text: &[u8]) {
    let pos = choose(3);
    let mut d = vec![];
    let (a, b): (&[u8], &[u8]) = match pos {
        0 => (b"<r><f>", b"</f></r>"),
        1 => (b"<r f='", b"'/>"),
        _ => (b"<r>", b"</r>"),
    };
    d.extend_from_slice(a);
    d.extend_from_slice(text);
    d.extend_from_slice(b);
    show(&d);
    let x = s(&d);
    let got = match pos {
        0 => from_str::<El<T>>(x).map(|v| v.f.wide()),
        1 => from_str::<At<T>>(x).map(|v| v.f.wide()),
        _ => from_str::<Di<T>>(x).map(|v| v.f.wide()),
    };
    match (got, want::<T>(text)) {
        (Ok(g), Want::Is(w)) => {
            check(g == w, 1);
            reach(1)
        }
        (Err(Error::UnexpectedValue(_)), Want::Bad) => reach(2),
        (Err(Error::MissingValue(_)), Want::Absent) => reach(3),
        // an empty attribute holds no number
        (Err(Error::UnexpectedValue(_)), Want::Absent) => check(pos == 1, 2),
        _ => fail(3),
    }
}

/// a text byte that needs no markup in any of the three positions
fn plain() -> u8 {
    let b = byte();
    assume(((b >= 0x20) & (b < 0x7f)) | (b == 9) | (b == 10) | (b == 13));
    assume((b != b'<') & (b != b'&') & (b != b'\'') & (b != b'>'));
    b
}
fn any<T: Int>(max: usize) {
    let n = choose(max + 1);
    let mut t = vec![];
    for _ in 0..n {
        t.push(plain());
    }
    read::<T>(&t)
}
/// every text of up to 4 (8-bit types: 5) characters
pub fn h11_small() {
    match choose(2) {
        0 => any::<u8>(tier(4, 5)),
        _ => any::<i8>(tier(4, 5)),
    }
}
pub fn h11_short() {
    match choose(8) {
        0 => any::<u16>(3),
        1 => any::<i16>(3),
        2 => any::<u32>(tier(2, 3)),
        3 => any::<i32>(tier(2, 3)),
        4 => any::<u64>(3),
        5 => any::<i64>(3),
        6 => any::<usize>(2),
        _ => any::<isize>(2),
    }
}

fn digits(t: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        let b = byte();
        assume((b >= b'0') & (b <= b'9'));
        t.push(b);
    }
}
/// numerals at the ends of the range: the last digits are arbitrary
fn edge<T: Int>() {
    let (lo, hi): (&str, &str) = match (T::BITS, T::SIGNED) {
        (8, false) => ("-0", "255"),
        (8, true) => ("-128", "127"),
        (16, false) => ("-0", "65535"),
        (16, true) => ("-32768", "32767"),
        (32, false) => ("-0", "4294967295"),
        (32, true) => ("-2147483648", "2147483647"),
        (_, false) => ("-0", "18446744073709551615"),
        _ => ("-9223372036854775808", "9223372036854775807"),
    };
    let base = if flag() { lo } else { hi }.as_bytes();
    let mut t = vec![];
    // signs, zeros and white space in front
    let pre = [&b""[..], b"+", b"0", b"-", b" ", b"\n+00"][choose(6)];
    t.extend_from_slice(pre);
    let keep = base.len() - choose(tier(3, 4)).min(base.len());
    t.extend_from_slice(&base[..keep]);
    digits(&mut t, base.len() - keep);
    // one digit more than fits
    digits(&mut t, choose(2));
    t.extend_from_slice([&b""[..], b" ", b"\t\r\n"][choose(3)]);
    read::<T>(&t)
}
pub fn h11_edge() {
    match choose(10) {
        0 => edge::<u8>(),
        1 => edge::<i8>(),
        2 => edge::<u16>(),
        3 => edge::<i16>(),
        4 => edge::<u32>(),
        5 => edge::<i32>(),
        6 => edge::<u64>(),
        7 => edge::<i64>(),
        8 => edge::<usize>(),
        _ => edge::<isize>(),
    }
}

// ---- writing

/// sign and magnitude of a canonical numeral
fn numeral(t: &[u8]) -> (bool, u64) {
    let neg = !t.is_empty() && t[0] == b'-';
    let d = if neg { &t[1..] } else { t };
    check(!d.is_empty() && d.len() <= 20, 11);
    let mut v = 0u64;
    for &b in d {
        check((b >= b'0') & (b <= b'9'), 12);
        // 19 digits fit; a 20th is checked for wrapping
        let w = v.wrapping_mul(10).wrapping_add((b - b'0') as u64);
        check(d.len() < 20 || v <= 1844674407370955161, 22);
        v = w;
    }
    // canonical: no leading zeros, no minus zero
    check(d.len() == 1 || d[0] != b'0', 13);
    check(!neg || v > 0, 14);
    (neg, v)
}
#[derive(ToXml)]
#[xml(rename = "r")]
struct Wr<T> {
    #[xml(attribute)]
    a: T,
    e: T,
    #[xml(direct)]
    d: T,
}
fn write<T: Int>(v: T) {
    let Ok(x) = to_string(&Wr { a: v, e: v, d: v }) else { fail(15) };
    show(x.as_bytes());
    match crate::refxml::parse(x.as_bytes()) {
        Ok(r) => {
            check(r.is("", "r") && r.attrs.len() == 1 && r.children.len() == 1, 16);
            let Some(a) = r.attr("", "a") else { fail(17) };
            check(r.children[0].is("", "e"), 18);
            let (neg, mag) = numeral(a);
            let w = v.low();
            check(neg == (T::SIGNED && (w >> 63) == 1), 19);
            check(mag == if neg { w.wrapping_neg() } else { w }, 23);
            check(r.children[0].text == a && r.text == a, 20);
        }
        Err(_) => fail(21),
    }
    reach(1);
}
fn val<T: Int>(sym: usize) -> T {
    // arbitrary low bytes, the others from a few patterns
    let mut b = [[0u8, 0xff, 0x7f, 0x80][choose(4)]; 8];
    let n = T::BITS as usize / 8 - sym + 1;
    // wide values are written through long divisions: one path for each value is cheaper there
    let at = if T::BITS < 64 { choose(2) * (n - 1) } else { choose(n) };
    for k in 0..sym {
        let v = byte();
        b[at + k] = if T::BITS < 64 { v } else { pick(v as u64) as u8 };
    }
    T::from_bytes(b)
}
pub fn h11_write8() {
    match choose(2) {
        0 => write(val::<u8>(1)),
        _ => write(val::<i8>(1)),
    }
}
pub fn h11_write_u16() {
    write(val::<u16>(2))
}
pub fn h11_write_i16() {
    write(val::<i16>(2))
}
pub fn h11_write32() {
    match choose(2) {
        0 => write(val::<u32>(1)),
        _ => write(val::<i32>(1)),
    }
}
pub fn h11_write_u64() {
    write(val::<u64>(1))
}
pub fn h11_write_i64() {
    write(val::<i64>(1))
}
pub fn h11_write_usize() {
    write(val::<usize>(1))
}
pub fn h11_write_isize() {
    write(val::<isize>(1))
}
