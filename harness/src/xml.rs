//! A strict, namespace-aware XML 1.0 parser, written for the oracles only (independent of the
//! library under test and of quick-xml). Rejects everything that is not well-formed.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct El {
    pub ns: String,
    pub local: String,
    /// name as written (prefix:local)
    pub qname: String,
    /// (namespace, local) -> value, without namespace declarations
    pub attrs: BTreeMap<(String, String), String>,
    pub kids: Vec<Node>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    El(El),
    Text(String),
}

impl El {
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| if let Node::El(e) = k { Some(e) } else { None })
    }
    pub fn all<'a>(&'a self, local: &'a str) -> impl Iterator<Item = &'a El> + 'a {
        self.els().filter(move |e| e.local == local)
    }
    pub fn first(&self, local: &str) -> Option<&El> {
        self.els().find(|e| e.local == local)
    }
    pub fn at(&self, local: &str) -> Option<&str> {
        self.attrs.get(&(String::new(), local.to_string())).map(|s| s.as_str())
    }
    pub fn at_ns(&self, ns: &str, local: &str) -> Option<&str> {
        self.attrs.get(&(ns.to_string(), local.to_string())).map(|s| s.as_str())
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            if let Node::Text(t) = k {
                s.push_str(t)
            }
        }
        s
    }
    /// Text of this element and all below, in order
    pub fn deep_text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Node::Text(t) => s.push_str(t),
                Node::El(e) => s.push_str(&e.deep_text()),
            }
        }
        s
    }
    /// Canonical form: white-space-only text between elements dropped, text merged.
    pub fn canon(&self) -> El {
        let has_el = self.els().next().is_some();
        let mut kids: Vec<Node> = vec![];
        for k in &self.kids {
            match k {
                Node::El(e) => kids.push(Node::El(e.canon())),
                Node::Text(t) => {
                    if has_el && t.chars().all(is_ws) || t.is_empty() {
                        continue;
                    }
                    if let Some(Node::Text(p)) = kids.last_mut() {
                        p.push_str(t)
                    } else {
                        kids.push(Node::Text(t.clone()))
                    }
                }
            }
        }
        El { ns: self.ns.clone(), local: self.local.clone(), qname: String::new(), attrs: self.attrs.clone(), kids }
    }
    /// One-line rendering for messages
    pub fn show(&self) -> String {
        let mut s = format!("<{}", self.local);
        for ((n, l), v) in &self.attrs {
            if n.is_empty() {
                s.push_str(&format!(" {}={:?}", l, v))
            } else {
                s.push_str(&format!(" {{{}}}{}={:?}", n, l, v))
            }
        }
        s.push('>');
        for k in &self.kids {
            match k {
                Node::El(e) => s.push_str(&e.show()),
                Node::Text(t) => s.push_str(&format!("{:?}", t)),
            }
        }
        s.push_str("</>");
        if s.len() > 600 {
            let mut cut = 600;
            while !s.is_char_boundary(cut) {
                cut -= 1
            }
            s.truncate(cut);
            s.push_str("...");
        }
        s
    }
}

/// First difference between two canonical trees, as a readable path
pub fn diff(a: &El, b: &El) -> Option<String> {
    fn go(a: &El, b: &El, path: &str) -> Option<String> {
        let here = format!("{}/{}", path, a.local);
        if a.ns != b.ns || a.local != b.local {
            return Some(format!("{}: element {{{}}}{} became {{{}}}{}", path, a.ns, a.local, b.ns, b.local));
        }
        if a.attrs != b.attrs {
            for (k, v) in &a.attrs {
                match b.attrs.get(k) {
                    None => return Some(format!("{}: attribute {:?}={:?} lost", here, k, v)),
                    Some(w) if w != v => return Some(format!("{}: attribute {:?} {:?} became {:?}", here, k, v, w)),
                    _ => {}
                }
            }
            for (k, v) in &b.attrs {
                if !a.attrs.contains_key(k) {
                    return Some(format!("{}: attribute {:?}={:?} appeared", here, k, v));
                }
            }
        }
        let n = a.kids.len().max(b.kids.len());
        for i in 0..n {
            match (a.kids.get(i), b.kids.get(i)) {
                (Some(Node::El(x)), Some(Node::El(y))) => {
                    if let Some(d) = go(x, y, &format!("{}[{}]", here, i)) {
                        return Some(d);
                    }
                }
                (Some(Node::Text(x)), Some(Node::Text(y))) => {
                    if x != y {
                        return Some(format!("{}: text {:?} became {:?}", here, x, y));
                    }
                }
                (x, y) => {
                    let f = |n: Option<&Node>| match n {
                        None => "nothing".to_string(),
                        Some(Node::Text(t)) => format!("text {:?}", t),
                        Some(Node::El(e)) => format!("element {}", e.show()),
                    };
                    return Some(format!("{}: child {} was {} and became {}", here, i, f(x), f(y)));
                }
            }
        }
        None
    }
    go(&a.canon(), &b.canon(), "")
}

pub fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n')
}
pub fn is_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
fn is_name_start(c: char) -> bool {
    matches!(c, ':' | 'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}
fn is_name(c: char) -> bool {
    is_name_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}

pub const MC_NS: &str = "http://schemas.openxmlformats.org/markup-compatibility/2006";
pub const XSI_NS: &str = "http://www.w3.org/2001/XMLSchema-instance";
pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";

struct P<'a> {
    s: &'a str,
    i: usize,
}
type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn eat(&mut self, p: &str) -> bool {
        if self.rest().starts_with(p) {
            self.i += p.len();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) -> bool {
        let st = self.i;
        while let Some(c) = self.peek() {
            if is_ws(c) {
                self.i += 1
            } else {
                break;
            }
        }
        self.i > st
    }
    fn until(&mut self, end: &str) -> R<&'a str> {
        match self.rest().find(end) {
            Some(n) => {
                let t = &self.rest()[..n];
                self.i += n + end.len();
                Ok(t)
            }
            None => Err(format!("missing {:?}", end)),
        }
    }
    fn name(&mut self) -> R<&'a str> {
        let st = self.i;
        match self.peek() {
            Some(c) if is_name_start(c) => self.i += c.len_utf8(),
            c => return Err(format!("name expected at byte {} but found {:?}", self.i, c)),
        }
        while let Some(c) = self.peek() {
            if is_name(c) {
                self.i += c.len_utf8()
            } else {
                break;
            }
        }
        Ok(&self.s[st..self.i])
    }
    fn comment_or_pi(&mut self) -> R<bool> {
        if self.eat("<!--") {
            let t = self.until("-->")?;
            if t.contains("--") || t.ends_with('-') {
                return Err("-- inside comment".into());
            }
            if !t.chars().all(is_char) {
                return Err("illegal character in comment".into());
            }
            Ok(true)
        } else if self.rest().starts_with("<?") {
            self.i += 2;
            let n = self.name()?;
            if n.eq_ignore_ascii_case("xml") {
                return Err("xml declaration not at start".into());
            }
            self.until("?>")?;
            Ok(true)
        } else {
            Ok(false)
        }
    }
}

fn resolve_ref(r: &str) -> R<char> {
    match r {
        "amp" => Ok('&'),
        "lt" => Ok('<'),
        "gt" => Ok('>'),
        "quot" => Ok('"'),
        "apos" => Ok('\''),
        _ => {
            let n = if let Some(h) = r.strip_prefix("#x") {
                u32::from_str_radix(h, 16).map_err(|_| format!("bad reference &{};", r))?
            } else if let Some(d) = r.strip_prefix('#') {
                d.parse::<u32>().map_err(|_| format!("bad reference &{};", r))?
            } else {
                return Err(format!("undefined entity &{};", r));
            };
            let c = char::from_u32(n).ok_or(format!("bad reference &{};", r))?;
            if !is_char(c) {
                return Err(format!("reference to illegal character &{};", r));
            }
            Ok(c)
        }
    }
}

fn text_of(raw: &str, attr: bool) -> R<String> {
    let mut out = String::with_capacity(raw.len());
    let norm = raw.replace("\r\n", "\n").replace('\r', "\n");
    let mut it = norm.as_str();
    while !it.is_empty() {
        let c = it.chars().next().unwrap();
        if c == '&' {
            let e = it.find(';').ok_or("unterminated reference")?;
            out.push(resolve_ref(&it[1..e])?);
            it = &it[e + 1..];
            continue;
        }
        if !is_char(c) {
            return Err(format!("illegal character U+{:04X}", c as u32));
        }
        if attr && c == '<' {
            return Err("< in attribute value".into());
        }
        out.push(if attr && is_ws(c) { ' ' } else { c });
        it = &it[c.len_utf8()..];
    }
    Ok(out)
}

/// The text of a document in UTF-8 or, with a byte order mark, in UTF-16
fn utf16(bytes: &[u8]) -> R<Option<String>> {
    let be = match bytes {
        [0xFE, 0xFF, ..] => true,
        [0xFF, 0xFE, ..] => false,
        _ => return Ok(None),
    };
    if bytes.len() % 2 != 0 {
        return Err("odd number of bytes in UTF-16".into());
    }
    let u: Vec<u16> = bytes[2..].chunks(2).map(|c| if be { u16::from_be_bytes([c[0], c[1]]) } else { u16::from_le_bytes([c[0], c[1]]) }).collect();
    String::from_utf16(&u).map(Some).map_err(|e| format!("not UTF-16: {}", e))
}

pub fn parse(bytes: &[u8]) -> R<El> {
    if let Some(s) = utf16(bytes)? {
        return parse_text(&s, "utf-16");
    }
    let bytes = bytes.strip_prefix(b"\xEF\xBB\xBF").unwrap_or(bytes);
    parse_text(std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {}", e))?, "utf-8")
}
fn parse_text(s: &str, encoding: &str) -> R<El> {
    let mut p = P { s, i: 0 };
    if p.rest().starts_with("<?xml") && p.rest()[5..].chars().next().map_or(false, is_ws) {
        p.i += 5;
        let mut seen = vec![];
        loop {
            let sp = p.ws();
            if p.eat("?>") {
                break;
            }
            let n = p.name()?.to_string();
            p.ws();
            if !sp || !p.eat("=") {
                return Err("xml declaration: name=\"value\" expected".into());
            }
            p.ws();
            let v = if p.eat("\"") {
                p.until("\"")?
            } else if p.eat("'") {
                p.until("'")?
            } else {
                return Err("xml declaration: quote expected".into());
            };
            if n == "encoding" && !v.eq_ignore_ascii_case(encoding) && !(v.eq_ignore_ascii_case("us-ascii") && encoding == "utf-8") {
                return Err(format!("declares the encoding {} but is {}", v, encoding));
            }
            seen.push(n);
        }
        if seen.first().map(|s| s.as_str()) != Some("version") || !["version", "version encoding", "version standalone", "version encoding standalone"].contains(&seen.join(" ").as_str()) {
            return Err("xml declaration: version, encoding and standalone expected".into());
        }
    }
    loop {
        p.ws();
        if !p.comment_or_pi()? {
            break;
        }
    }
    // stack of (element, namespace scope)
    let mut base = BTreeMap::new();
    base.insert("xml".to_string(), XML_NS.to_string());
    let mut stack: Vec<(El, BTreeMap<String, String>)> = vec![];
    let root: El;
    'outer: loop {
        if stack.is_empty() || p.rest().starts_with('<') {
            if !stack.is_empty() && p.rest().starts_with("</") {
                p.i += 2;
                let n = p.name()?;
                p.ws();
                if !p.eat(">") {
                    return Err(format!("bad end tag {}", n));
                }
                let (e, _) = stack.pop().unwrap();
                if e.qname != n {
                    return Err(format!("end tag {} closes {}", n, e.qname));
                }
                if let Some((par, _)) = stack.last_mut() {
                    par.kids.push(Node::El(e));
                } else {
                    root = e;
                    break 'outer;
                }
                continue;
            }
            if !stack.is_empty() && p.eat("<![CDATA[") {
                let t = p.until("]]>")?;
                if !t.chars().all(is_char) {
                    return Err("illegal character in CDATA".into());
                }
                let t = t.replace("\r\n", "\n").replace('\r', "\n");
                let k = &mut stack.last_mut().unwrap().0.kids;
                if let Some(Node::Text(x)) = k.last_mut() {
                    x.push_str(&t)
                } else {
                    k.push(Node::Text(t))
                }
                continue;
            }
            if !stack.is_empty() && p.comment_or_pi()? {
                continue;
            }
            if !p.eat("<") {
                return Err(format!("element expected at byte {}", p.i));
            }
            let qn = p.name()?.to_string();
            let mut raw: Vec<(String, String)> = vec![];
            let empty;
            loop {
                let sp = p.ws();
                if p.eat("/>") {
                    empty = true;
                    break;
                }
                if p.eat(">") {
                    empty = false;
                    break;
                }
                if !sp {
                    return Err(format!("white space expected in tag {}", qn));
                }
                let an = p.name()?.to_string();
                p.ws();
                if !p.eat("=") {
                    return Err(format!("= expected after {}", an));
                }
                p.ws();
                let v = if p.eat("\"") {
                    p.until("\"")?
                } else if p.eat("'") {
                    p.until("'")?
                } else {
                    return Err(format!("quote expected after {}=", an));
                };
                let v = text_of(v, true)?;
                if raw.iter().any(|(k, _)| *k == an) {
                    return Err(format!("duplicate attribute {}", an));
                }
                raw.push((an, v));
            }
            let mut scope = stack.last().map(|x| x.1.clone()).unwrap_or_else(|| base.clone());
            for (k, v) in &raw {
                if k == "xmlns" {
                    scope.insert(String::new(), v.clone());
                } else if let Some(pf) = k.strip_prefix("xmlns:") {
                    if v.is_empty() || pf == "xmlns" {
                        return Err(format!("bad namespace declaration {}", k));
                    }
                    scope.insert(pf.to_string(), v.clone());
                }
            }
            let split = |n: &str, is_attr: bool| -> R<(String, String)> {
                let mut it = n.splitn(2, ':');
                let a = it.next().unwrap();
                match it.next() {
                    None => Ok((
                        if is_attr { String::new() } else { scope.get("").cloned().unwrap_or_default() },
                        a.to_string(),
                    )),
                    Some(l) => {
                        if l.is_empty() || a.is_empty() || l.contains(':') {
                            return Err(format!("bad qualified name {}", n));
                        }
                        Ok((scope.get(a).cloned().ok_or(format!("unbound prefix in {}", n))?, l.to_string()))
                    }
                }
            };
            let (ns, local) = split(&qn, false)?;
            let mut attrs = BTreeMap::new();
            for (k, v) in &raw {
                if k == "xmlns" || k.starts_with("xmlns:") {
                    continue;
                }
                let key = split(k, true)?;
                // values that name prefixes
                let named: Vec<&str> = match (key.0.as_str(), key.1.as_str()) {
                    (MC_NS, "Ignorable") | (MC_NS, "MustUnderstand") => v.split_whitespace().collect(),
                    (XSI_NS, "type") if v.contains(':') => v.split(':').take(1).collect(),
                    ("", "Requires") if ns == MC_NS => v.split_whitespace().collect(),
                    _ => vec![],
                };
                if let Some(n) = named.iter().find(|n| !scope.contains_key(**n)) {
                    return Err(format!("attribute {}={:?} names the unbound prefix {}", k, v, n));
                }
                if attrs.insert(key, v.clone()).is_some() {
                    return Err(format!("duplicate attribute {}", k));
                }
            }
            let e = El { ns, local, qname: qn, attrs, kids: vec![] };
            if empty {
                if let Some((par, _)) = stack.last_mut() {
                    par.kids.push(Node::El(e));
                } else {
                    root = e;
                    break 'outer;
                }
            } else {
                stack.push((e, scope));
            }
            continue;
        }
        // character data
        let n = p.rest().find('<').ok_or("unclosed element")?;
        let raw = &p.rest()[..n];
        if raw.contains("]]>") {
            return Err("]]> in text".into());
        }
        p.i += n;
        let t = text_of(raw, false)?;
        let k = &mut stack.last_mut().unwrap().0.kids;
        if let Some(Node::Text(x)) = k.last_mut() {
            x.push_str(&t)
        } else {
            k.push(Node::Text(t))
        }
    }
    loop {
        p.ws();
        if !p.comment_or_pi()? {
            break;
        }
    }
    if p.i != s.len() {
        return Err("content after the root element".into());
    }
    Ok(root)
}

/// Escape for text content
pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
    o
}
/// Escape for attribute values
pub fn esc_at(s: &str) -> String {
    esc(s).replace('\n', "&#10;").replace('\t', "&#9;")
}
