//! Dates and times: what is written denotes the value and reads back as it; what is read is the
//! instant that the text denotes.
use crate::gen::*;
use crate::refxml;
use crate::sx::*;
use chrono::{DateTime, Datelike, NaiveDate, NaiveDateTime, Timelike, Utc};
use instant_xml::*;

#[derive(FromXml, ToXml, Debug, PartialEq)]
#[xml(rename = "r")]
struct El<T> {
    f: T,
}
#[derive(FromXml, ToXml, Debug, PartialEq)]
#[xml(rename = "r")]
struct At<T> {
    #[xml(attribute)]
    f: T,
}
#[derive(FromXml, ToXml, Debug, PartialEq)]
#[xml(rename = "r")]
struct Dir<T> {
    #[xml(direct)]
    f: T,
}

/// year, month, day, hour, minute, second (60 in a leap second), nanosecond
#[derive(Debug, Clone, Copy, PartialEq)]
struct Parts {
    y: i32,
    mo: u32,
    d: u32,
    h: u32,
    mi: u32,
    s: u32,
    ns: u32,
}
const DATE: Parts = Parts { y: 2024, mo: 2, d: 29, h: 0, mi: 0, s: 0, ns: 0 };

fn leap(y: i32) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn days(y: i32, m: u32) -> u32 {
    match m {
        2 => 28 + leap(y) as u32,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
fn valid(p: &Parts) -> bool {
    (p.mo >= 1) & (p.mo <= 12) && (p.d >= 1) & (p.d <= days(p.y, p.mo)) & (p.h < 24) & (p.mi < 60) & (p.s <= 60)
}

trait Temporal: ToXml + FromXmlOwned + PartialEq + Copy {
    const TIME: bool;
    const ZONE: bool;
    fn make(p: &Parts) -> Option<Self>;
    fn parts(&self) -> Parts;
}
fn naive(p: &Parts) -> Option<NaiveDateTime> {
    let (s, ns) = if p.s == 60 { (59, p.ns + 1_000_000_000) } else { (p.s, p.ns) };
    NaiveDate::from_ymd_opt(p.y, p.mo, p.d)?.and_hms_nano_opt(p.h, p.mi, s, ns)
}
fn parts(t: &NaiveDateTime) -> Parts {
    let n = t.nanosecond();
    let (s, ns) = if n >= 1_000_000_000 { (t.second() + 1, n - 1_000_000_000) } else { (t.second(), n) };
    Parts { y: t.year(), mo: t.month(), d: t.day(), h: t.hour(), mi: t.minute(), s, ns }
}
impl Temporal for NaiveDate {
    const TIME: bool = false;
    const ZONE: bool = false;
    fn make(p: &Parts) -> Option<Self> {
        NaiveDate::from_ymd_opt(p.y, p.mo, p.d)
    }
    fn parts(&self) -> Parts {
        Parts { y: self.year(), mo: self.month(), d: self.day(), h: 0, mi: 0, s: 0, ns: 0 }
    }
}
impl Temporal for NaiveDateTime {
    const TIME: bool = true;
    const ZONE: bool = false;
    fn make(p: &Parts) -> Option<Self> {
        naive(p)
    }
    fn parts(&self) -> Parts {
        parts(self)
    }
}
impl Temporal for DateTime<Utc> {
    const TIME: bool = true;
    const ZONE: bool = true;
    fn make(p: &Parts) -> Option<Self> {
        Some(naive(p)?.and_utc())
    }
    fn parts(&self) -> Parts {
        parts(&self.naive_utc())
    }
}

struct Scan<'a> {
    t: &'a [u8],
    i: usize,
    /// everything so far is in the form of RFC 3339
    strict: bool,
}
impl Scan<'_> {
    fn peek(&self) -> u8 {
        if self.i < self.t.len() {
            self.t[self.i]
        } else {
            0
        }
    }
    fn digit(&self) -> bool {
        (self.peek() >= b'0') & (self.peek() <= b'9')
    }
    /// a number of `n` digits; fewer, or white space before them, is read but not strict
    fn num(&mut self, n: usize, max: usize) -> Option<i64> {
        loop {
            let c = self.peek();
            if c == b' ' || (c >= 9 && c <= 13) {
                self.i += 1;
                self.strict = false;
            } else if c >= 0x80 {
                // other white space
                self.strict = false;
                return None;
            } else {
                break;
            }
        }
        let (mut v, mut k) = (0i64, 0);
        while k < max && self.digit() {
            v = v * 10 + (self.peek() - b'0') as i64;
            self.i += 1;
            k += 1;
        }
        if k == 0 {
            return None;
        }
        self.strict &= k == n;
        Some(v)
    }
    fn lit(&mut self, c: u8, also: u8) -> Option<()> {
        let g = self.peek();
        if g == c {
            self.i += 1;
            Some(())
        } else if g == also {
            self.i += 1;
            self.strict = false;
            Some(())
        } else {
            None
        }
    }
}
/// What the text denotes, whether that is in strict form, and its offset from UTC in minutes.
fn read<T: Temporal>(t: &[u8]) -> Option<(Parts, bool, i64)> {
    let mut c = Scan { t, i: 0, strict: true };
    let neg = c.peek() == b'-';
    let signed = neg || c.peek() == b'+';
    if signed {
        c.i += 1;
        c.strict = false;
    }
    let y = c.num(4, if signed { 6 } else { 4 })?;
    c.lit(b'-', b'-')?;
    let mo = c.num(2, 2)?;
    c.lit(b'-', b'-')?;
    let d = c.num(2, 2)?;
    let mut p = Parts { y: if neg { -(y as i32) } else { y as i32 }, mo: mo as u32, d: d as u32, h: 0, mi: 0, s: 0, ns: 0 };
    let mut off = 0;
    if T::TIME {
        match c.peek() {
            b'T' => c.i += 1,
            b't' | b' ' if T::ZONE => {
                c.i += 1;
                c.strict = false
            }
            _ => return None,
        }
        p.h = c.num(2, 2)? as u32;
        c.lit(b':', b':')?;
        p.mi = c.num(2, 2)? as u32;
        c.lit(b':', b':')?;
        p.s = c.num(2, 2)? as u32;
        c.strict &= p.s < 60;
        if c.peek() == b'.' {
            c.i += 1;
            let (mut k, mut v) = (0, 0);
            while c.digit() {
                if k < 9 {
                    v = v * 10 + (c.peek() - b'0') as u32;
                    k += 1;
                } else {
                    c.strict = false;
                }
                c.i += 1;
            }
            if k == 0 {
                return None;
            }
            for _ in k..9 {
                v *= 10;
            }
            p.ns = v;
        }
        if T::ZONE {
            match c.peek() {
                b'Z' => c.i += 1,
                b'z' => {
                    c.i += 1;
                    c.strict = false
                }
                b'+' | b'-' => {
                    let neg = c.peek() == b'-';
                    c.i += 1;
                    let h = c.num(2, 2)?;
                    c.lit(b':', b':')?;
                    let m = c.num(2, 2)?;
                    if m > 59 {
                        return None;
                    }
                    off = h * 60 + m;
                    if neg {
                        off = -off
                    }
                }
                _ => return None,
            }
        }
    }
    // white space after the end
    if c.i != t.len() {
        return None;
    }
    if !valid(&p) {
        return None;
    }
    Some((p, c.strict, off))
}

fn parse<T: Temporal>(v: &[u8], how: usize) -> Option<T> {
    let mut d = if how == 1 { b"<r f='".to_vec() } else { b"<r><f>".to_vec() };
    if how == 2 {
        d.truncate(3);
    }
    d.extend_from_slice(v);
    d.extend_from_slice(match how {
        0 => &b"</f></r>"[..],
        1 => b"'/>",
        _ => b"</r>",
    });
    show(&d);
    match how {
        0 => from_str::<El<T>>(s(&d)).ok().map(|r| r.f),
        1 => from_str::<At<T>>(s(&d)).ok().map(|r| r.f),
        _ => from_str::<Dir<T>>(s(&d)).ok().map(|r| r.f),
    }
}
fn reads<T: Temporal>(v: &[u8], how: usize) {
    let want = read::<T>(v);
    match (parse::<T>(v, how), want) {
        (Some(g), Some((p, _, off))) => {
            if off == 0 {
                check(g.parts() == p, 1);
            } else {
                // any other offset would have to be taken into account
                let g = g.parts();
                let mins = |p: &Parts| p.h as i64 * 60 + p.mi as i64;
                check((mins(&p) - off - mins(&g)) % 1440 == 0, 2);
                check(g.s == p.s && g.ns == p.ns, 3);
            }
            reach(1)
        }
        (Some(_), None) => fail(4),
        (None, Some((_, strict, off))) => {
            check(!strict || off != 0, 5);
            reach(2)
        }
        (None, None) => reach(2),
    }
}

const INSTANTS: [&str; 6] = [
    "2024-02-29T23:59:59.5Z",
    "1999-12-31T00:00:60+00:00",
    "2000-01-01T12:30:00.123456789-00:00",
    "0001-04-30T10:10:10.000001Z",
    "2023-02-28T09:08:07+05:30",
    "9999-11-09T20:00:00.12345678901Z",
];
const LOCAL: [&str; 4] = ["2024-02-29T23:59:59.25", "2023-06-30T01:02:03", "+12024-01-31T12:00:00.000000001", "1900-02-28T23:59:60.999"];
const DATES: [&str; 5] = ["2024-02-29", "1900-02-28", "+12024-01-31", "-0001-06-30", "2023-12-09"];

fn digit(d: &mut [u8], i: usize) {
    if (d[i] >= b'0') & (d[i] <= b'9') {
        let b = byte();
        assume((b >= b'0') & (b <= b'9'));
        // the calendar divides years; one path for each digit is cheaper
        d[i] = if i == 0 || !d[1..i].contains(&b'-') { pick(b as u64) as u8 } else { b };
    }
}
fn digits<T: Temporal>(all: &[&str]) {
    let t = all[choose(all.len())];
    let mut v = t.as_bytes().to_vec();
    let at = choose(v.len());
    assume(v[at] >= b'0' && v[at] <= b'9');
    digit(&mut v, at);
    // and the next one
    let how = choose(3);
    if at + 1 < v.len() && how == 0 {
        digit(&mut v, at + 1);
    }
    reads::<T>(&v, how);
}
/// two arbitrary neighbouring digits
pub fn h20_digits_instant() {
    digits::<DateTime<Utc>>(&INSTANTS)
}
pub fn h20_digits_local() {
    digits::<NaiveDateTime>(&LOCAL)
}
pub fn h20_digits_date() {
    digits::<NaiveDate>(&DATES)
}

fn edit<T: Temporal>(all: &[&str]) {
    let t = all[choose(all.len())];
    let at = choose(t.len() + 1);
    let mut v = t.as_bytes()[..at].to_vec();
    let how = choose(3);
    if how > 0 {
        let b = byte();
        assume((b > 0x20) & (b < 0x7f) & (b != b'<') & (b != b'&') & (b != b'\'') & (b != b'>'));
        v.push(b);
    }
    v.extend_from_slice(&t.as_bytes()[if how != 1 && at < t.len() { at + 1 } else { at }..]);
    reads::<T>(&v, 0);
}
/// one character replaced, inserted or removed
pub fn h20_edit_instant() {
    edit::<DateTime<Utc>>(&INSTANTS)
}
pub fn h20_edit_local() {
    edit::<NaiveDateTime>(&LOCAL)
}
pub fn h20_edit_date() {
    edit::<NaiveDate>(&DATES)
}

fn writes<T: Temporal>(p: &Parts) {
    let Some(v) = T::make(p) else {
        assume(false);
        return;
    };
    check(v.parts() == *p, 11);
    let how = choose(3);
    let x = match how {
        0 => to_string(&El { f: v }),
        1 => to_string(&At { f: v }),
        _ => to_string(&Dir { f: v }),
    };
    let Ok(x) = x else { fail(12) };
    show(x.as_bytes());
    note_str(1, &x);
    let Ok(r) = refxml::parse(x.as_bytes()) else { fail(13) };
    check(r.is("", "r"), 14);
    let text = match how {
        0 => {
            check(r.children.len() == 1 && r.children[0].is("", "f") && r.text.is_empty() && r.attrs.is_empty(), 15);
            &r.children[0].text[..]
        }
        1 => {
            check(r.children.is_empty() && r.attrs.len() == 1, 16);
            match r.attr("", "f") {
                Some(a) => a,
                None => fail(17),
            }
        }
        _ => &r.text[..],
    };
    let Some((q, strict, off)) = read::<T>(text) else { fail(18) };
    check(off == 0 && q == *p, 19);
    if (p.y >= 0) & (p.y <= 9999) & (p.s < 60) {
        check(strict, 20);
    }
    check(parse::<T>(text, how) == Some(v), 21);
    reach(1);
}
/// any number in the range, one path for each
fn within(lo: u32, hi: u32) -> u32 {
    let b = byte() as u32;
    assume((b >= lo) & (b <= hi));
    pick(b as u64) as u32
}
/// Everything fixed but one or two components.
fn value(date: bool) -> Parts {
    let mut p = DATE;
    let ys = [2024, 1900, 2023, 2000, 1, 9999, 0];
    match choose(if date { 2 } else { 6 }) {
        0 => {
            p.y = ys[choose(tier(4, ys.len()))];
            p.mo = 1 + choose(12) as u32;
            p.d = within(1, days(p.y, p.mo));
        }
        1 => {
            p.y = [0, 100, 1900, 2000, 9900][choose(5)] + choose(tier(25, 100)) as i32;
            p.d = 28;
        }
        2 => p.h = within(0, 23),
        3 => p.mi = within(0, 59),
        4 => p.s = within(0, 60),
        _ => {
            // significant digits anywhere in the fraction
            let scale = [1, 10_000_000, 10_000, 100, 100_000, 1_000_000][choose(tier(4, 6))];
            p.s = [59, 60, 0][choose(tier(2, 3))];
            p.ns = within(0, 99) * scale;
        }
    }
    p
}
/// also years of more than four digits, and before the common era
fn far(date: bool) -> Parts {
    match choose(2) {
        0 => value(date),
        _ => Parts { y: [10000, -1, 99999, 262142, -262143][choose(5)], mo: 1, d: within(1, 31), ..DATE },
    }
}
pub fn h20_write_instant() {
    writes::<DateTime<Utc>>(&value(false))
}
pub fn h20_write_local() {
    writes::<NaiveDateTime>(&far(false))
}
pub fn h20_write_date() {
    writes::<NaiveDate>(&far(true))
}
