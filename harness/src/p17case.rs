//! The case conversion of the derive macros itself, on arbitrary identifiers.
use crate::sx::*;

#[path = "/repo/instant-xml-macros/src/case.rs"]
mod case;
use case::RenameRule as R;

const RULES: [&str; 8] =
    ["\"lowercase\"", "\"UPPERCASE\"", "\"PascalCase\"", "\"camelCase\"", "\"snake_case\"", "\"SCREAMING_SNAKE_CASE\"", "\"kebab-case\"", "\"SCREAMING-KEBAB-CASE\""];

fn rule(k: usize) -> R {
    match k {
        8 => R::default(),
        k => match R::from_str(RULES[k]) {
            Ok(r) => r,
            Err(_) => fail(1),
        },
    }
}
fn up(b: u8) -> u8 {
    if (b >= b'a') & (b <= b'z') {
        b - 32
    } else {
        b
    }
}
fn low(b: u8) -> u8 {
    if (b >= b'A') & (b <= b'Z') {
        b + 32
    } else {
        b
    }
}

/// identifiers of fields: lower-case words joined by underscores
pub fn h17_field() {
    let n = 1 + choose(tier(7, 10));
    let mut id = vec![];
    let mut some = false;
    for i in 0..n {
        let b = byte();
        let (l, d) = ((b >= b'a') & (b <= b'z'), (b >= b'0') & (b <= b'9'));
        assume(l | (b == b'_') | (d & (i > 0)));
        some |= l | d;
        id.push(b);
    }
    assume(some);
    let k = choose(9);
    let raw = flag();
    let ident = crate::Ident(if raw { format!("r#{}", s(&id)) } else { s(&id).to_string() });
    let got = rule(k).apply_to_field(&ident);
    // the specification
    let mut words: Vec<Vec<u8>> = vec![vec![]];
    for &b in &id {
        if b == b'_' {
            words.push(vec![]);
        } else {
            words.last_mut().unwrap().push(b);
        }
    }
    let want: Vec<u8> = match k {
        1 | 5 => id.iter().map(|b| up(*b)).collect(),
        2 | 3 => {
            let mut v = vec![];
            for w in words.iter().filter(|w| !w.is_empty()) {
                v.push(if k == 3 && v.is_empty() { w[0] } else { up(w[0]) });
                v.extend_from_slice(&w[1..]);
            }
            v
        }
        6 | 7 => {
            let mut v = vec![];
            for (i, w) in words.iter().enumerate() {
                if i > 0 {
                    v.push(b'-');
                }
                v.extend(w.iter().map(|b| if k == 7 { up(*b) } else { *b }));
            }
            v
        }
        _ => id.clone(),
    };
    check(got.as_bytes() == want, 2);
    reach(1);
}

/// identifiers of variants: capitalised words run together
pub fn h17_variant() {
    let n = 1 + choose(tier(7, 10));
    let mut id = vec![];
    for i in 0..n {
        let b = byte();
        let (l, u, d) = ((b >= b'a') & (b <= b'z'), (b >= b'A') & (b <= b'Z'), (b >= b'0') & (b <= b'9'));
        assume(u | ((l | d) & (i > 0)));
        id.push(b);
    }
    let k = choose(9);
    let raw = flag();
    let ident = crate::Ident(if raw { format!("r#{}", s(&id)) } else { s(&id).to_string() });
    let got = rule(k).apply_to_variant(&ident);
    let words = |sep: u8, f: fn(u8) -> u8| {
        let mut v = vec![];
        for (i, &b) in id.iter().enumerate() {
            if i > 0 && (b >= b'A') & (b <= b'Z') {
                v.push(sep);
            }
            v.push(f(b));
        }
        v
    };
    let want: Vec<u8> = match k {
        0 => id.iter().map(|b| low(*b)).collect(),
        1 => id.iter().map(|b| up(*b)).collect(),
        3 => {
            let mut v = id.clone();
            v[0] = low(v[0]);
            v
        }
        4 => words(b'_', low),
        5 => words(b'_', up),
        6 => words(b'-', low),
        7 => words(b'-', up),
        _ => id.clone(),
    };
    check(got.as_bytes() == want, 3);
    reach(1);
}

/// the rules have exactly these spellings
pub fn h17_rules() {
    let k = choose(8);
    let mut t = RULES[k].as_bytes().to_vec();
    let at = choose(t.len());
    let old = t[at];
    let b = byte();
    assume(b < 0x80);
    t[at] = b;
    let is = R::from_str(s(&t));
    if b == old {
        check(is.is_ok(), 4);
        reach(1)
    } else {
        check(is.is_err(), 5);
        reach(2)
    }
}
