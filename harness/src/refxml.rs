//! A small, strict, independent namespace-aware XML reader used as the oracle.  It shares no code
//! with the implementation or with xmlparser, works on bytes, and does no whitespace normalisation.

#[derive(Clone, Debug, Default, PartialEq)]
pub struct El {
    pub ns: Vec<u8>,
    pub local: Vec<u8>,
    /// (namespace, local name, value), in document order, without namespace declarations
    pub attrs: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>,
    /// all text directly inside the element, concatenated
    pub text: Vec<u8>,
    /// whether there is any text run (possibly an empty CDATA section)
    pub has_text: bool,
    pub children: Vec<El>,
}

impl El {
    pub fn is(&self, ns: &str, local: &str) -> bool {
        self.ns == ns.as_bytes() && self.local == local.as_bytes()
    }
    pub fn attr(&self, ns: &str, local: &str) -> Option<&[u8]> {
        self.attrs.iter().find(|a| a.0 == ns.as_bytes() && a.1 == local.as_bytes()).map(|a| &a.2[..])
    }
}

#[derive(Debug)]
pub struct Bad;
type R<T> = Result<T, Bad>;

pub const XML_NS: &[u8] = b"http://www.w3.org/XML/1998/namespace";

struct P<'a> {
    b: &'a [u8],
    i: usize,
    scope: Vec<(Vec<u8>, Vec<u8>)>,
    /// 0: strict.  1: tolerate what concerns only attributes and spelling, not the element
    /// structure: repeated attributes, `xmlns:p=""`, a name starting with `:`, `&#X..;`, references
    /// in namespace declarations taken literally.  2: also undeclared attribute prefixes.
    lax: u8,
}

/// The root element of a complete document.
pub fn parse(s: &[u8]) -> R<El> {
    parse_lax(s, 0)
}
pub fn parse_lax(s: &[u8], lax: u8) -> R<El> {
    let mut p = P { b: s, i: 0, scope: vec![], lax };
    if p.at(b"<?xml ") {
        p.until(b"?>")?;
    }
    p.misc()?;
    let e = p.element()?;
    p.misc()?;
    match p.i == p.b.len() {
        true => Ok(e),
        false => Err(Bad),
    }
}

/// A sequence of elements and text, as produced by serialising a value without a root element.
pub fn parse_fragment(s: &[u8]) -> R<El> {
    let mut v = b"<r>".to_vec();
    v.extend_from_slice(s);
    v.extend_from_slice(b"</r>");
    parse(&v)
}

/// The value of an escaped string.
pub fn unescape(s: &[u8]) -> R<Vec<u8>> {
    unescape_lax(s, 0)
}
fn unescape_lax(s: &[u8], lax: u8) -> R<Vec<u8>> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'&' {
            i += 1 + reference_lax(&s[i + 1..], &mut out, lax)?;
        } else {
            if s[i] == b'<' {
                return Err(Bad);
            }
            out.push(s[i]);
            i += 1;
        }
    }
    Ok(out)
}

/// Decodes the reference whose body starts at `s`; returns the length including `;`.
pub fn reference(s: &[u8], out: &mut Vec<u8>) -> R<usize> {
    reference_lax(s, out, 0)
}
fn reference_lax(s: &[u8], out: &mut Vec<u8>, lax: u8) -> R<usize> {
    for (name, c) in [(&b"amp;"[..], b'&'), (b"lt;", b'<'), (b"gt;", b'>'), (b"quot;", b'"'), (b"apos;", b'\'')] {
        if s.starts_with(name) {
            out.push(c);
            return Ok(name.len());
        }
    }
    if s.is_empty() || s[0] != b'#' {
        return Err(Bad);
    }
    let mut i = 1;
    let mut radix = 10;
    if i < s.len() && (s[i] == b'x' || (lax > 0 && s[i] == b'X')) {
        radix = 16;
        i += 1;
    }
    let start = i;
    let mut v: u32 = 0;
    loop {
        if i >= s.len() {
            return Err(Bad);
        }
        let b = s[i];
        let d = if b >= b'0' && b <= b'9' {
            b - b'0'
        } else if radix == 16 && b >= b'a' && b <= b'f' {
            b - b'a' + 10
        } else if radix == 16 && b >= b'A' && b <= b'F' {
            b - b'A' + 10
        } else if b == b';' && i > start {
            break;
        } else {
            return Err(Bad);
        };
        v = v * radix + d as u32;
        if v > 0x10ffff {
            return Err(Bad);
        }
        i += 1;
    }
    push_utf8(v, out)?;
    Ok(i + 1)
}

/// UTF-8 of an XML character, written out independently of `char`.
pub fn push_utf8(v: u32, out: &mut Vec<u8>) -> R<()> {
    if v < 0x20 {
        if v != 9 && v != 10 && v != 13 {
            return Err(Bad);
        }
        out.push(v as u8);
    } else if v < 0x80 {
        out.push(v as u8);
    } else if v < 0x800 {
        out.push(0xc0 | (v >> 6) as u8);
        out.push(0x80 | (v & 0x3f) as u8);
    } else if v < 0x10000 {
        if (v >= 0xd800 && v < 0xe000) || v >= 0xfffe {
            return Err(Bad);
        }
        out.push(0xe0 | (v >> 12) as u8);
        out.push(0x80 | ((v >> 6) & 0x3f) as u8);
        out.push(0x80 | (v & 0x3f) as u8);
    } else if v < 0x110000 {
        out.push(0xf0 | (v >> 18) as u8);
        out.push(0x80 | ((v >> 12) & 0x3f) as u8);
        out.push(0x80 | ((v >> 6) & 0x3f) as u8);
        out.push(0x80 | (v & 0x3f) as u8);
    } else {
        return Err(Bad);
    }
    Ok(())
}

fn space(b: u8) -> bool {
    b == b' ' || b == b'\n' || b == b'\t' || b == b'\r'
}

fn name_start(b: u8) -> bool {
    (b >= b'a' && b <= b'z') || (b >= b'A' && b <= b'Z') || b == b'_' || b >= 0x80
}

fn name_char(b: u8) -> bool {
    name_start(b) || (b >= b'0' && b <= b'9') || b == b'-' || b == b'.'
}

impl P<'_> {
    fn at(&self, s: &[u8]) -> bool {
        self.b.len() - self.i >= s.len() && self.b[self.i..self.i + s.len()] == *s
    }
    fn eat(&mut self, s: &[u8]) -> R<()> {
        if !self.at(s) {
            return Err(Bad);
        }
        self.i += s.len();
        Ok(())
    }
    fn until(&mut self, s: &[u8]) -> R<usize> {
        while self.i < self.b.len() {
            if self.at(s) {
                let e = self.i;
                self.i += s.len();
                return Ok(e);
            }
            self.i += 1;
        }
        Err(Bad)
    }
    fn peek(&self) -> R<u8> {
        if self.i < self.b.len() {
            Ok(self.b[self.i])
        } else {
            Err(Bad)
        }
    }
    fn spaces(&mut self) -> bool {
        let s = self.i;
        while self.i < self.b.len() && space(self.b[self.i]) {
            self.i += 1;
        }
        self.i > s
    }
    fn comment(&mut self) -> R<()> {
        self.eat(b"<!--")?;
        let s = self.i;
        let e = self.until(b"--")?;
        let _ = (s, e);
        self.eat(b">")
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.spaces();
            if !self.at(b"<!--") {
                return Ok(());
            }
            self.comment()?;
        }
    }
    fn ncname(&mut self) -> R<Vec<u8>> {
        let s = self.i;
        if !name_start(self.peek()?) {
            return Err(Bad);
        }
        while self.i < self.b.len() && name_char(self.b[self.i]) {
            self.i += 1;
        }
        Ok(self.b[s..self.i].to_vec())
    }
    fn qname(&mut self) -> R<(Option<Vec<u8>>, Vec<u8>)> {
        if self.lax > 0 && self.at(b":") {
            self.i += 1;
            return Ok((None, self.ncname()?));
        }
        let a = self.ncname()?;
        if self.i < self.b.len() && self.b[self.i] == b':' {
            self.i += 1;
            let l = self.ncname()?;
            return Ok((Some(a), l));
        }
        Ok((None, a))
    }
    fn lookup(&self, prefix: &[u8]) -> R<Vec<u8>> {
        if prefix == b"xml" {
            return Ok(XML_NS.to_vec());
        }
        let mut k = self.scope.len();
        while k > 0 {
            k -= 1;
            if self.scope[k].0 == prefix {
                return Ok(self.scope[k].1.clone());
            }
        }
        if prefix.is_empty() {
            Ok(vec![])
        } else {
            Err(Bad)
        }
    }
    fn element(&mut self) -> R<El> {
        self.eat(b"<")?;
        let q = self.qname()?;
        let depth = self.scope.len();
        let mut attrs: Vec<(Option<Vec<u8>>, Vec<u8>, Vec<u8>)> = vec![];
        let mut decls: Vec<Vec<u8>> = vec![];
        let empty = loop {
            let sp = self.spaces();
            let b = self.peek()?;
            if b == b'>' {
                self.i += 1;
                break false;
            }
            if b == b'/' {
                self.i += 1;
                self.eat(b">")?;
                break true;
            }
            if !sp {
                return Err(Bad);
            }
            let (p, l) = self.qname()?;
            self.spaces();
            self.eat(b"=")?;
            self.spaces();
            let quote = self.peek()?;
            if quote != b'"' && quote != b'\'' {
                return Err(Bad);
            }
            self.i += 1;
            let s = self.i;
            while self.peek()? != quote {
                self.i += 1;
            }
            let raw = &self.b[s..self.i];
            self.i += 1;
            let decl = match &p {
                None if l == b"xmlns" => Some(vec![]),
                Some(p) if p == b"xmlns" => Some(l.clone()),
                _ => None,
            };
            let value = match decl.is_some() && self.lax > 0 {
                true if raw.contains(&b'<') => return Err(Bad),
                true => raw.to_vec(),
                false => unescape_lax(raw, self.lax)?,
            };
            match decl {
                Some(pre) => {
                    if self.lax == 0 && (decls.contains(&pre) || (!pre.is_empty() && value.is_empty()) || pre == b"xmlns") {
                        return Err(Bad);
                    }
                    decls.push(pre.clone());
                    self.scope.push((pre, value));
                }
                None => attrs.push((p, l, value)),
            }
        };
        let mut e = El { ns: self.lookup(q.0.as_deref().unwrap_or(b""))?, local: q.1.clone(), ..El::default() };
        for (p, l, v) in attrs {
            let ns = match p {
                Some(p) => match self.lookup(&p) {
                    Err(_) if self.lax == 2 => p,
                    r => r?,
                },
                None => vec![],
            };
            if self.lax == 0 && e.attrs.iter().any(|a| a.0 == ns && a.1 == l) {
                return Err(Bad);
            }
            e.attrs.push((ns, l, v));
        }
        if !empty {
            loop {
                if self.at(b"</") {
                    self.i += 2;
                    if self.qname()? != q {
                        return Err(Bad);
                    }
                    self.spaces();
                    self.eat(b">")?;
                    break;
                } else if self.at(b"<!--") {
                    self.comment()?;
                } else if self.at(b"<![CDATA[") {
                    self.i += 9;
                    let s = self.i;
                    let t = self.until(b"]]>")?;
                    e.text.extend_from_slice(&self.b[s..t]);
                    e.has_text = true;
                } else if self.peek()? == b'<' {
                    let c = self.element()?;
                    e.children.push(c);
                } else {
                    let s = self.i;
                    while self.peek()? != b'<' {
                        self.i += 1;
                    }
                    let run = &self.b[s..self.i];
                    let mut k = 0;
                    while k + 3 <= run.len() {
                        if run[k] == b']' && run[k + 1] == b']' && run[k + 2] == b'>' {
                            return Err(Bad);
                        }
                        k += 1;
                    }
                    let t = unescape_lax(run, self.lax)?;
                    e.text.extend_from_slice(&t);
                    e.has_text = true;
                }
            }
        }
        self.scope.truncate(depth);
        Ok(e)
    }
}

/// Whether a captured element is exactly the one the reference reader found.
pub fn same(a: &instant_xml::AnyElement<'_>, e: &El) -> bool {
    if a.ns.as_bytes() != e.ns || a.name.as_bytes() != e.local || a.attributes.len() != e.attrs.len() || a.children.len() != e.children.len() {
        return false;
    }
    for (x, y) in a.attributes.iter().zip(&e.attrs) {
        if x.ns.as_bytes() != y.0 || x.name.as_bytes() != y.1 || x.value.as_bytes() != y.2 {
            return false;
        }
    }
    match &a.text {
        Some(t) => {
            if !e.has_text || t.as_bytes() != e.text {
                return false;
            }
        }
        None => {
            if e.has_text {
                return false;
            }
        }
    }
    a.children.iter().zip(&e.children).all(|(x, y)| same(x, y))
}
