//! Names derived from identifiers: rename_all, rename, raw identifiers.
use crate::refxml;
use crate::sx::*;
use instant_xml::*;

// ---- end to end
trait Named: ToXml + FromXmlOwned + PartialEq {
    fn new(v: [Option<String>; 12]) -> Self;
    /// attributes, then elements
    const WANT: [&'static str; 12];
}
macro_rules! ty {
    ($($t:ident $e:ident [$($rule:tt)*] $want:expr, $vars:expr;)*) => { $(
        #[derive(ToXml, FromXml, PartialEq, Debug)]
        #[xml(rename = "r" $($rule)*)]
        struct $t {
            #[xml(attribute)]
            one: Option<String>,
            #[xml(attribute)]
            two_words: Option<String>,
            #[xml(attribute)]
            r#type: Option<String>,
            #[xml(attribute)]
            a1_b: Option<String>,
            #[xml(attribute)]
            three_word_name: Option<String>,
            #[xml(attribute, rename = "own_Name.x")]
            renamed_at: Option<String>,
            un: Option<String>,
            deux_mots: Option<String>,
            r#struct: Option<String>,
            b2_c: Option<String>,
            trois_mots_ici: Option<String>,
            #[xml(rename = "Own-name_x")]
            renamed_el: Option<String>,
        }
        impl Named for $t {
            fn new(v: [Option<String>; 12]) -> Self {
                let [one, two_words, r#type, a1_b, three_word_name, renamed_at, un, deux_mots, r#struct, b2_c, trois_mots_ici, renamed_el] = v;
                $t { one, two_words, r#type, a1_b, three_word_name, renamed_at, un, deux_mots, r#struct, b2_c, trois_mots_ici, renamed_el }
            }
            const WANT: [&'static str; 12] = $want;
        }
        #[derive(ToXml, FromXml, PartialEq, Debug, Clone, Copy)]
        #[xml(scalar $($rule)*)]
        #[allow(non_camel_case_types)]
        enum $e { One, TwoWords, A1B, r#In, #[xml(rename = "Own Name")] Renamed, Num = 7 }
        impl Var for $e {
            const ALL: [(Self, &'static str); 6] = {
                let v: [&'static str; 4] = $vars;
                [($e::One, v[0]), ($e::TwoWords, v[1]), ($e::A1B, v[2]), ($e::r#In, v[3]), ($e::Renamed, "Own Name"), ($e::Num, "7")]
            };
        }
    )* };
}
trait Var: ToXml + FromXmlOwned + PartialEq + Copy + 'static {
    const ALL: [(Self, &'static str); 6];
}
const OA: &str = "own_Name.x";
const OE: &str = "Own-name_x";
ty! {
    T0 E0 [] ["one", "two_words", "type", "a1_b", "three_word_name", OA, "un", "deux_mots", "struct", "b2_c", "trois_mots_ici", OE], ["One", "TwoWords", "A1B", "In"];
    T1 E1 [, rename_all = "lowercase"] ["one", "two_words", "type", "a1_b", "three_word_name", OA, "un", "deux_mots", "struct", "b2_c", "trois_mots_ici", OE], ["one", "twowords", "a1b", "in"];
    T2 E2 [, rename_all = "UPPERCASE"] ["ONE", "TWO_WORDS", "TYPE", "A1_B", "THREE_WORD_NAME", OA, "UN", "DEUX_MOTS", "STRUCT", "B2_C", "TROIS_MOTS_ICI", OE], ["ONE", "TWOWORDS", "A1B", "IN"];
    T3 E3 [, rename_all = "PascalCase"] ["One", "TwoWords", "Type", "A1B", "ThreeWordName", OA, "Un", "DeuxMots", "Struct", "B2C", "TroisMotsIci", OE], ["One", "TwoWords", "A1B", "In"];
    T4 E4 [, rename_all = "camelCase"] ["one", "twoWords", "type", "a1B", "threeWordName", OA, "un", "deuxMots", "struct", "b2C", "troisMotsIci", OE], ["one", "twoWords", "a1B", "in"];
    T5 E5 [, rename_all = "snake_case"] ["one", "two_words", "type", "a1_b", "three_word_name", OA, "un", "deux_mots", "struct", "b2_c", "trois_mots_ici", OE], ["one", "two_words", "a1_b", "in"];
    T6 E6 [, rename_all = "SCREAMING_SNAKE_CASE"] ["ONE", "TWO_WORDS", "TYPE", "A1_B", "THREE_WORD_NAME", OA, "UN", "DEUX_MOTS", "STRUCT", "B2_C", "TROIS_MOTS_ICI", OE], ["ONE", "TWO_WORDS", "A1_B", "IN"];
    T7 E7 [, rename_all = "kebab-case"] ["one", "two-words", "type", "a1-b", "three-word-name", OA, "un", "deux-mots", "struct", "b2-c", "trois-mots-ici", OE], ["one", "two-words", "a1-b", "in"];
    T8 E8 [, rename_all = "SCREAMING-KEBAB-CASE"] ["ONE", "TWO-WORDS", "TYPE", "A1-B", "THREE-WORD-NAME", OA, "UN", "DEUX-MOTS", "STRUCT", "B2-C", "TROIS-MOTS-ICI", OE], ["ONE", "TWO-WORDS", "A1-B", "IN"];
}

fn letter() -> String {
    let b = byte();
    assume((b >= b'a') & (b <= b'z'));
    s(&[b]).to_string()
}

fn fields<T: Named>() {
    // two of the fields are present
    let (i, j) = (choose(12), choose(12));
    let (a, b) = (letter(), letter());
    let mut v: [Option<String>; 12] = Default::default();
    v[i] = Some(a.clone());
    v[j] = Some(b.clone());
    let mut want = vec![];
    for (k, t) in v.iter().enumerate() {
        if let Some(t) = t {
            want.push((k, t.clone()));
        }
    }
    let v = T::new(v);
    let Ok(x) = to_string(&v) else { fail(11) };
    show(x.as_bytes());
    note_str(1, &x);
    let Ok(r) = refxml::parse(x.as_bytes()) else { fail(12) };
    check(r.is("", "r") && r.text.is_empty(), 13);
    check(r.attrs.len() + r.children.len() == want.len(), 14);
    let (mut at, mut ch) = (r.attrs.iter(), r.children.iter());
    for (k, t) in &want {
        if *k < 6 {
            let Some(a) = at.next() else { fail(15) };
            check(a.0.is_empty() && a.1 == T::WANT[*k].as_bytes() && a.2 == t.as_bytes(), 16);
        } else {
            let Some(c) = ch.next() else { fail(17) };
            check(c.is("", T::WANT[*k]) && c.text == t.as_bytes(), 18);
        }
    }
    // and they are read under those names
    let mut d = b"<r".to_vec();
    let mut open = false;
    for (k, t) in &want {
        if *k >= 6 && !open {
            d.push(b'>');
            open = true;
        }
        let n = T::WANT[*k];
        let part = if *k < 6 { format!(" {n}='{t}'") } else { format!("<{n}>{t}</{n}>") };
        d.extend_from_slice(part.as_bytes());
    }
    d.extend_from_slice(if open { b"</r>" } else { b"/>" });
    check(matches!(from_str::<T>(s(&d)), Ok(w) if w == v), 19);
    reach(1);
}
pub fn h17_fields() {
    match choose(9) {
        0 => fields::<T0>(),
        1 => fields::<T1>(),
        2 => fields::<T2>(),
        3 => fields::<T3>(),
        4 => fields::<T4>(),
        5 => fields::<T5>(),
        6 => fields::<T6>(),
        7 => fields::<T7>(),
        _ => fields::<T8>(),
    }
}

#[derive(ToXml, FromXml, PartialEq, Debug)]
#[xml(rename = "r")]
struct Ev<E> {
    #[xml(attribute)]
    a: E,
    e: E,
}
#[allow(non_camel_case_types)]
#[derive(ToXml, FromXml, PartialEq, Debug)]
struct r#match {
    r#fn: r#yield,
}
#[allow(non_camel_case_types)]
#[derive(ToXml, FromXml, PartialEq, Debug)]
#[xml(scalar)]
enum r#yield {
    r#loop,
}
fn variants<E: Var>() {
    let ((v, n), (w, m)) = (E::ALL[choose(6)], E::ALL[choose(6)]);
    let val = Ev { a: v, e: w };
    let Ok(x) = to_string(&val) else { fail(21) };
    note_str(1, &x);
    check(x == format!("<r a=\"{n}\"><e>{m}</e></r>"), 22);
    check(matches!(from_str::<Ev<E>>(&x), Ok(q) if q == val), 23);
    reach(1);
}
pub fn h17_variants() {
    match choose(10) {
        0 => variants::<E0>(),
        1 => variants::<E1>(),
        2 => variants::<E2>(),
        3 => variants::<E3>(),
        4 => variants::<E4>(),
        5 => variants::<E5>(),
        6 => variants::<E6>(),
        7 => variants::<E7>(),
        8 => variants::<E8>(),
        _ => {
            let v = r#match { r#fn: r#yield::r#loop };
            let Ok(x) = to_string(&v) else { fail(31) };
            check(x == "<match><fn>loop</fn></match>", 32);
            check(matches!(from_str::<r#match>(&x), Ok(q) if q == v), 33);
            reach(1)
        }
    }
}
