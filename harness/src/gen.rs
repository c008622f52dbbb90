//! Generators of symbolic characters and strings.
use crate::sx::*;

/// Append one symbolic XML character (any `Char` of XML 1.0) whose UTF-8 length is one of the
/// lengths in `lens` (bit n-1 set: length n allowed).
pub fn xml_char(out: &mut Vec<u8>, lens: u8) {
    let n = pick_len(lens);
    push_char(out, n)
}

pub fn pick_len(lens: u8) -> usize {
    let k = lens.count_ones() as usize;
    let mut c = choose(k);
    for n in 1..=4 {
        if lens & (1 << (n - 1)) != 0 {
            if c == 0 {
                return n;
            }
            c -= 1;
        }
    }
    1
}

pub fn push_char(out: &mut Vec<u8>, n: usize) {
    match n {
        1 => {
            let b = byte();
            assume((b >= 0x20 && b < 0x80) | (b == 9) | (b == 10) | (b == 13));
            out.push(b);
        }
        2 => {
            let (a, b) = (byte(), byte());
            assume((a >= 0xc2) & (a <= 0xdf) & (b >= 0x80) & (b <= 0xbf));
            out.push(a);
            out.push(b);
        }
        3 => {
            let (a, b, c) = (byte(), byte(), byte());
            assume((a >= 0xe0) & (a <= 0xef) & (b >= 0x80) & (b <= 0xbf) & (c >= 0x80) & (c <= 0xbf));
            // no overlong forms, no surrogates, not U+FFFE / U+FFFF
            assume((a != 0xe0) | (b >= 0xa0));
            assume((a != 0xed) | (b < 0xa0));
            assume((a != 0xef) | (b != 0xbf) | (c < 0xbe));
            out.push(a);
            out.push(b);
            out.push(c);
        }
        _ => {
            let (a, b, c, d) = (byte(), byte(), byte(), byte());
            assume((a >= 0xf0) & (a <= 0xf4) & (b >= 0x80) & (b <= 0xbf) & (c >= 0x80) & (c <= 0xbf) & (d >= 0x80) & (d <= 0xbf));
            assume((a != 0xf0) | (b >= 0x90));
            assume((a != 0xf4) | (b < 0x90));
            out.push(a);
            out.push(b);
            out.push(c);
            out.push(d);
        }
    }
}

/// A symbolic string of 0..=max XML characters.
pub fn xml_string(max: usize, lens: u8) -> String {
    let n = choose(max + 1);
    let mut v = Vec::new();
    for _ in 0..n {
        xml_char(&mut v, lens);
    }
    string(v)
}

pub fn string(v: Vec<u8>) -> String {
    // SAFETY: the generators above only build valid UTF-8
    unsafe { String::from_utf8_unchecked(v) }
}

/// Append any Unicode scalar value whose UTF-8 length is `n` (control characters included).
pub fn any_char(out: &mut Vec<u8>, n: usize) {
    match n {
        1 => {
            let b = byte();
            assume(b < 0x80);
            out.push(b)
        }
        3 => {
            let (a, b, c) = (byte(), byte(), byte());
            assume((a >= 0xe0) & (a <= 0xef) & (b >= 0x80) & (b <= 0xbf) & (c >= 0x80) & (c <= 0xbf));
            assume((a != 0xe0) | (b >= 0xa0));
            assume((a != 0xed) | (b < 0xa0));
            out.push(a);
            out.push(b);
            out.push(c)
        }
        n => push_char(out, n),
    }
}

/// Remove trailing zero-or-more bytes of an incomplete UTF-8 sequence from a prefix of a string.
pub fn boundary(s: &str, mut n: usize) -> usize {
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    n
}

/// Text that means something to XML when it is not escaped, or that is easily mistaken.
pub const FRAGMENTS: [&str; 16] = [
    "&amp;", "&lt;", "&#38;", "&#x26;", "]]>", "<![CDATA[", "<!--", "-->", "<?x?>", "\r\n", "\t ", "&", ";", "'\"", "</f>", "0123456789abcdefghijklmnopqrstuvwxyz",
];

/// Up to `max` pieces, each a symbolic character or one of the fragments.
pub fn rich_string(max: usize) -> String {
    let mut v = Vec::new();
    for _ in 0..choose(max + 1) {
        match choose(FRAGMENTS.len() + 2) {
            0 => push_char(&mut v, 1),
            1 => push_char(&mut v, 3),
            n => v.extend_from_slice(FRAGMENTS[n - 2].as_bytes()),
        }
    }
    string(v)
}

/// Sizes around which implementations tend to change strategy.
pub const SIZES: [usize; 20] = [1, 7, 8, 9, 15, 16, 22, 23, 31, 32, 63, 64, 65, 127, 128, 255, 256, 300, 1023, 1030];

/// A size, none above `max`.
pub fn size(max: usize) -> usize {
    SIZES[choose(SIZES.iter().filter(|n| **n <= max).count())]
}

/// At least `n` bytes of filler: characters of `unit` bytes, then ASCII up to exactly `n` bytes.
pub fn filler(v: &mut Vec<u8>, n: usize, unit: usize) {
    let c = ["x", "\u{e9}", "\u{20ac}", "\u{1f600}"][unit - 1].as_bytes();
    let end = v.len() + n;
    while v.len() + unit <= end {
        v.extend_from_slice(c);
    }
    while v.len() < end {
        v.push(b'y');
    }
}
