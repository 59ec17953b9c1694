//! Other spellings of the same XML document: prefixes, quotes, white space, references, comments,
//! encodings. What an XML parser reports stays the same.
use crate::pkg::{NS_CT, NS_MAIN, NS_R, NS_REL};
use crate::xml;

/// the main namespace of the part is bound to a prefix
pub const PREFIX: u32 = 1;
/// relationship ids use another prefix than r
pub const RELP: u32 = 2;
/// the relationship namespace is declared where it is used
pub const LOCALR: u32 = 4;
pub const QUOTE: u32 = 8;
pub const SPACE: u32 = 16;
pub const REVERSE: u32 = 32;
pub const CHARREF: u32 = 64;
pub const CDATA: u32 = 128;
pub const COMMENT: u32 = 256;
pub const PI: u32 = 512;
pub const U16LE: u32 = 1024;
pub const U16BE: u32 = 2048;
/// names of zip entries differ in letter case from the names other parts use
pub const CASE: u32 = 4096;
/// `<a></a>` for `<a/>`
pub const EXPAND: u32 = 8192;
pub const ALL: u32 = 16383;

struct Rng(u64);
impl Rng {
    fn next(&mut self, n: u32) -> u32 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) as u32) % n
    }
}

#[derive(Debug)]
enum Tok {
    /// name, attributes (name, raw value), empty
    Start(String, Vec<(String, String)>, bool),
    End(String),
    Text(String),
    /// comments, CDATA, processing instructions
    Raw(String),
}
fn tokens(s: &str) -> Option<Vec<Tok>> {
    let mut v = vec![];
    let mut r = s;
    while !r.is_empty() {
        let cut = |end: &str| r.find(end).map(|n| n + end.len());
        if r.starts_with("<!--") {
            let n = cut("-->")?;
            v.push(Tok::Raw(r[..n].into()));
            r = &r[n..];
        } else if r.starts_with("<![CDATA[") {
            let n = cut("]]>")?;
            v.push(Tok::Raw(r[..n].into()));
            r = &r[n..];
        } else if r.starts_with("<?") {
            let n = cut("?>")?;
            v.push(Tok::Raw(r[..n].into()));
            r = &r[n..];
        } else if r.starts_with("<!") {
            return None;
        } else if r.starts_with("</") {
            let n = cut(">")?;
            v.push(Tok::End(r[2..n - 1].trim().into()));
            r = &r[n..];
        } else if r.starts_with('<') {
            let b = r.as_bytes();
            let mut i = 1;
            while i < b.len() && !(b[i] as char).is_ascii_whitespace() && b[i] != b'>' && b[i] != b'/' {
                i += 1
            }
            let name = r[1..i].to_string();
            let mut at = vec![];
            let empty;
            loop {
                while i < b.len() && (b[i] as char).is_ascii_whitespace() {
                    i += 1
                }
                if i >= b.len() {
                    return None;
                }
                if b[i] == b'>' {
                    empty = false;
                    i += 1;
                    break;
                }
                if b[i] == b'/' {
                    empty = true;
                    i += 2;
                    break;
                }
                let k = i;
                while i < b.len() && b[i] != b'=' && !(b[i] as char).is_ascii_whitespace() {
                    i += 1
                }
                let key = r[k..i].to_string();
                while i < b.len() && b[i] != b'"' && b[i] != b'\'' {
                    i += 1
                }
                let q = *b.get(i)?;
                let n = r[i + 1..].find(q as char)?;
                at.push((key, r[i + 1..i + 1 + n].to_string()));
                i += n + 2;
            }
            v.push(Tok::Start(name, at, empty));
            r = &r[i..];
        } else {
            let n = r.find('<').unwrap_or(r.len());
            v.push(Tok::Text(r[..n].into()));
            r = &r[n..];
        }
    }
    Some(v)
}

fn char_refs(s: &str, g: &mut Rng) -> String {
    let mut o = String::new();
    let mut r = s;
    while let Some(c) = r.chars().next() {
        if c == '&' {
            let n = r.find(';').unwrap_or(0) + 1;
            o.push_str(&r[..n]);
            r = &r[n..];
            continue;
        }
        // line ends are normalised before references are read
        if c != '\r' && c != '\n' && c != '\t' && g.next(4) == 0 {
            match g.next(3) {
                0 => o.push_str(&format!("&#{};", c as u32)),
                1 => o.push_str(&format!("&#x{:x};", c as u32)),
                _ => o.push_str(&format!("&#x{:04X};", c as u32)),
            }
        } else {
            o.push(c)
        }
        r = &r[c.len_utf8()..];
    }
    o
}

/// The document in another spelling; None when it is not a document this can spell
pub fn respell(bytes: &[u8], flags: u32, seed: u64) -> Option<Vec<u8>> {
    let mut g = Rng(seed ^ 0x9E3779B97F4A7C15);
    g.next(7);
    let s = std::str::from_utf8(bytes.strip_prefix(b"\xEF\xBB\xBF").unwrap_or(bytes)).ok()?;
    let before = xml::parse(bytes).ok()?;
    let mut f = flags & ALL;
    // parts differ from each other
    for i in 0..14 {
        if g.next(4) == 0 {
            f &= !(1 << i)
        }
    }
    let (decl, body) = match s.strip_prefix("<?xml") {
        Some(r) => {
            let n = r.find("?>")? + 2;
            (true, &r[n..])
        }
        None => (false, s),
    };
    let mut t = tokens(body)?;
    let defaults: Vec<String> = t.iter().filter_map(|x| if let Tok::Start(_, a, _) = x { a.iter().find(|a| a.0 == "xmlns").map(|a| a.1.clone()) } else { None }).collect();
    let mut pre = String::new();
    if f & PREFIX != 0 && defaults.len() == 1 && [NS_MAIN, NS_REL, NS_CT].contains(&defaults[0].as_str()) && before.ns == defaults[0] {
        for p in ["x", "main", "ns0", "s-1"] {
            if !body.contains(&format!("{}:", p)) && !body.contains(&format!("xmlns:{}", p)) {
                pre = p.into();
                break;
            }
        }
    }
    let rel = if f & RELP != 0 && !body.contains("rel:") { "rel" } else { "r" };
    let local_r = f & LOCALR != 0;
    let name = |n: &str| if !pre.is_empty() && !n.contains(':') { format!("{}:{}", pre, n) } else { n.to_string() };
    for x in t.iter_mut() {
        match x {
            Tok::Start(n, at, _) => {
                *n = name(n);
                let had_r = at.iter().position(|a| a.0 == "xmlns:r" && a.1 == NS_R);
                if local_r {
                    if let Some(i) = had_r {
                        at.remove(i);
                    }
                }
                let mut uses = false;
                for a in at.iter_mut() {
                    if a.0 == "xmlns" && !pre.is_empty() {
                        a.0 = format!("xmlns:{}", pre)
                    } else if a.0 == "xmlns:r" && a.1 == NS_R {
                        a.0 = format!("xmlns:{}", rel)
                    } else if let Some(l) = a.0.strip_prefix("r:") {
                        a.0 = format!("{}:{}", rel, l);
                        uses = true;
                    }
                }
                if uses && local_r {
                    let i = g.next(at.len() as u32 + 1) as usize;
                    at.insert(i, (format!("xmlns:{}", rel), NS_R.into()));
                }
            }
            Tok::End(n) => *n = name(n),
            _ => {}
        }
    }
    let mut o = String::new();
    if decl || f & (U16LE | U16BE) != 0 {
        let q = if f & QUOTE != 0 { '\'' } else { '"' };
        let enc = if f & (U16LE | U16BE) != 0 { "UTF-16" } else { ["UTF-8", "utf-8"][g.next(2) as usize] };
        o.push_str(&format!("<?xml version={q}1.0{q} encoding={q}{enc}{q}{}?>", if f & SPACE != 0 { " " } else { "" }));
    }
    let n = t.len();
    let mut depth = 0i32;
    for i in 0..n {
        // between two tags, at any depth
        let tag = |x: Option<&Tok>| matches!(x, Some(Tok::Start(..)) | Some(Tok::End(_)));
        let between = (i == 0 || tag(t.get(i - 1))) && tag(t.get(i)) && !matches!((t.get(i.wrapping_sub(1)), &t[i]), (Some(Tok::Start(_, _, false)), Tok::End(_)));
        if between && f & COMMENT != 0 && g.next(6) == 0 {
            o.push_str(["<!-- c -->", "<!--<a>&b;</a>-->", "<!---->"][g.next(3) as usize]);
        }
        if between && f & PI != 0 && g.next(10) == 0 {
            o.push_str(["<?app data?>", "<?a <b/> ?>"][g.next(2) as usize]);
        }
        match &t[i] {
            Tok::Start(nm, at, empty) => {
                let sp = |g: &mut Rng| if f & SPACE != 0 && g.next(3) == 0 { ["  ", "\n", "\t ", " \r\n"][g.next(4) as usize] } else { "" };
                o.push('<');
                o.push_str(nm);
                let mut list: Vec<&(String, String)> = at.iter().collect();
                if f & REVERSE != 0 {
                    list.reverse()
                }
                for (k, v) in list {
                    let w = sp(&mut g);
                    o.push_str(if w.is_empty() { " " } else { w });
                    o.push_str(k);
                    if f & SPACE != 0 && g.next(4) == 0 {
                        o.push_str([" =", "= ", " = "][g.next(3) as usize]);
                    } else {
                        o.push('=');
                    }
                    let mut v = v.clone();
                    if f & CHARREF != 0 && !k.starts_with("xmlns") && g.next(4) == 0 {
                        v = char_refs(&v, &mut g);
                    }
                    if f & QUOTE != 0 && g.next(3) > 0 {
                        let raw = v.replace('\'', "&apos;").replace("&quot;", "\"");
                        o.push_str(&format!("'{}'", raw));
                    } else {
                        o.push_str(&format!("\"{}\"", v.replace('"', "&quot;")));
                    }
                }
                let w = sp(&mut g);
                o.push_str(w);
                if *empty && f & EXPAND != 0 && g.next(2) == 0 {
                    o.push_str(&format!("></{}>", nm));
                } else if *empty {
                    o.push_str("/>");
                    } else {
                    o.push('>');
                    depth += 1;
                }
            }
            Tok::End(nm) => {
                depth -= 1;
                o.push_str(&format!("</{}{}>", nm, if f & SPACE != 0 && g.next(5) == 0 { " " } else { "" }));
            }
            Tok::Text(x) => {
                let ws = x.chars().all(xml::is_ws);
                if ws || depth == 0 {
                    o.push_str(x);
                } else if f & CDATA != 0 && !x.contains('&') && !x.contains('\r') && g.next(3) == 0 {
                    // a part of the text or all of it
                    let mut c = if g.next(2) == 0 { 0 } else { g.next(x.len() as u32) as usize };
                    while !x.is_char_boundary(c) {
                        c -= 1
                    }
                    o.push_str(&x[..c]);
                    o.push_str(&format!("<![CDATA[{}]]>", &x[c..]));
                } else if f & CHARREF != 0 && g.next(2) == 0 {
                    o.push_str(&char_refs(x, &mut g));
                } else if f & COMMENT != 0 && !x.contains('&') && g.next(6) == 0 {
                    let mut c = g.next(x.len() as u32 + 1) as usize;
                    while !x.is_char_boundary(c) {
                        c -= 1
                    }
                    o.push_str(&format!("{}<!-- in text -->{}", &x[..c], &x[c..]));
                } else {
                    o.push_str(x);
                }
            }
            Tok::Raw(x) => o.push_str(x),
        }
    }
    if f & COMMENT != 0 {
        o.push_str("<!-- end -->");
    }
    if f & (U16LE | U16BE) == 0 {
        return Some(o.into_bytes());
    }
    let be = f & U16LE == 0;
    let mut b = vec![];
    for u in std::iter::once(0xFEFFu16).chain(o.encode_utf16()) {
        b.extend_from_slice(&if be { u.to_be_bytes() } else { u.to_le_bytes() });
    }
    Some(b)
}

pub fn other_case(name: &str, seed: u64) -> String {
    let mut g = Rng(seed);
    g.next(3);
    match g.next(3) {
        0 => name.to_ascii_uppercase(),
        1 => name.to_ascii_lowercase(),
        _ => name.chars().map(|c| if g.next(2) == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}
