//! C15 (damaged input), C16 (addresses outside the sheet), C19 (typing of values).
use super::infoset::no_drift;
use super::parts::cycle_doc;
use crate::book::*;
use crate::docs::{self, DocSpec};
use crate::gen;
use crate::hist::*;
use crate::pkg::*;
use crate::runner::*;
use crate::synth;
use draviavemal_openxml_office::spreadsheet_2007::{models::*, parts::WorkSheet};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

// ------------------------------------------------------------------ C15

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Origin {
    Book(Box<synth::BookSpec>),
    Doc(DocSpec),
    File(u8),
    Bytes(Vec<u8>),
}
/// Damage. Selectors are taken modulo what there is
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Hit {
    // the package
    Truncate(u16),
    Flip(u16, u8),
    Splice(u16, Vec<u8>),
    Cut(u16, u8),
    // parts
    Drop(u16),
    Empty(u16),
    Garbage(u16, Vec<u8>),
    Swap(u16, u16),
    Rename(u16, String),
    Twice(u16),
    Half(u16, u16),
    // inside XML parts (focus: a part that the library reads)
    AttrDrop(u16, u16),
    AttrSet(u16, u16, u8),
    AttrDup(u16, u16),
    Text(u16, u16, u8),
    TagDrop(u16, u16),
    ElDup(u16, u16, u8),
    ElDrop(u16, u16),
    TagName(u16, u16, u8),
    /// one tag alone, or an attribute, gets almost the same name
    NameOf(u16, u16, u8),
    Insert(u16, u16, u8),
    Deep(u16, u16, u16),
    Byte(u16, u16, u8),
    NoNs(u16),
    /// a snippet anywhere in the text of the part
    Raw(u16, u16, u8),
    /// something before or behind the document, in single bytes
    Ends(u16, bool, u8),
}
const VALUES: [&str; 44] = [
    "", " ", "0", "-1", "1", "2", "65536", "1048577", "4294967295", "4294967296", "99999999999999999999", "18446744073709551615", "-9223372036854775808", "1.5", "NaN", "1e999", "abc", "true", "A0", "A1", "a1:b2", "XFE1", "XFD1048577", "AAAAAAAAAAAAAAA1",
    "1A", "é1", "Ａ1", "A1048576", "A1:", ":", "rId999", "rId1", "../../../../etc/passwd", "/", "..", "//", "xl/../../x", "http://x/", "%2e%2e/%00", "sheet1", "&#x10FFFF;", "preserve", "veryHidden", "/xl/workbook.xml",
];
const TAGS: [&str; 12] = ["x", "row", "c", "sheet", "col", "v", "Relationship", "workbook", "w:p", "-bad", "a:b:c", "si"];
const SNIPPETS: [&str; 22] = [
    "<", ">", "&", "&nope;", "&#0;", "&#xFFFF;", "]]>", "<![CDATA[", "<!--", "--", "<?xml version=\"1.0\"?>", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "</", "<a", "<a b='c' b='d'/>", "<x:y/>", "text", "<row/>", "<c/>", "<row r=\"0\"><c r=\"A0\"/></row>", "<sheet name=\"\" sheetId=\"0\"/>",
    "<col min=\"5\" max=\"1\"/>",
];

const RAW: [&str; 24] = ["'", "\"", "=", " =", "/", "/>", " /", "?>", "&amp", ";", "&#;", "&#x;", "&#x110000;", "&#xD800;", "&lt", "\u{0}", "\u{b}", "\u{fffe}", "<!---->", "<!-- -- -->", "<??>", "<?xml?>", "<?a", "<1/>"];

fn hit() -> BoxedStrategy<Hit> {
    let s = || any::<u16>();
    prop_oneof![
        1 => s().prop_map(Hit::Truncate),
        1 => (s(), any::<u8>()).prop_map(|(a, b)| Hit::Flip(a, b)),
        1 => (s(), vec(any::<u8>(), 1..20)).prop_map(|(a, b)| Hit::Splice(a, b)),
        1 => (s(), any::<u8>()).prop_map(|(a, b)| Hit::Cut(a, b)),
        4 => s().prop_map(Hit::Drop),
        2 => s().prop_map(Hit::Empty),
        2 => (s(), vec(any::<u8>(), 0..30)).prop_map(|(a, b)| Hit::Garbage(a, b)),
        2 => (s(), s()).prop_map(|(a, b)| Hit::Swap(a, b)),
        1 => (s(), select(vec!["", "/", "a", "xl/a.xml", "../x", "[Content_Types].xml", "_rels/.rels", "XL/WORKBOOK.XML", "a//b", "é.xml", "xl/", "\\x"])).prop_map(|(a, b)| Hit::Rename(a, b.into())),
        1 => s().prop_map(Hit::Twice),
        2 => (s(), s()).prop_map(|(a, b)| Hit::Half(a, b)),
        8 => (s(), s()).prop_map(|(a, b)| Hit::AttrDrop(a, b)),
        16 => (s(), s(), any::<u8>()).prop_map(|(a, b, c)| Hit::AttrSet(a, b, c)),
        1 => (s(), s()).prop_map(|(a, b)| Hit::AttrDup(a, b)),
        4 => (s(), s(), any::<u8>()).prop_map(|(a, b, c)| Hit::Text(a, b, c)),
        2 => (s(), s()).prop_map(|(a, b)| Hit::TagDrop(a, b)),
        5 => (s(), s(), 1u8..4).prop_map(|(a, b, c)| Hit::ElDup(a, b, c)),
        6 => (s(), s()).prop_map(|(a, b)| Hit::ElDrop(a, b)),
        4 => (s(), s(), any::<u8>()).prop_map(|(a, b, c)| Hit::TagName(a, b, c)),
        2 => (s(), s(), any::<u8>()).prop_map(|(a, b, c)| Hit::NameOf(a, b, c)),
        4 => (s(), s(), any::<u8>()).prop_map(|(a, b, c)| Hit::Insert(a, b, c)),
        1 => (s(), s(), select(vec![2u16, 100, 3000, 20000])).prop_map(|(a, b, c)| Hit::Deep(a, b, c)),
        2 => (s(), s(), any::<u8>()).prop_map(|(a, b, c)| Hit::Byte(a, b, c)),
        1 => (s(), any::<bool>(), any::<u8>()).prop_map(|(a, b, c)| Hit::Ends(a, b, c)),
        1 => s().prop_map(Hit::NoNs),
    ]
    .boxed()
}

/// name="value" spans: (start of name, start of value, end of value)
fn attrs_in(t: &str) -> Vec<(usize, usize, usize)> {
    let b = t.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i] == b'=' && (b[i + 1] == b'"' || b[i + 1] == b'\'') {
            let q = b[i + 1];
            let mut a = i;
            while a > 0 && !matches!(b[a - 1], b' ' | b'\n' | b'\t' | b'\r' | b'<') {
                a -= 1
            }
            let mut z = i + 2;
            while z < b.len() && b[z] != q {
                z += 1
            }
            if z < b.len() {
                v.push((a, i + 2, z));
            }
            i = z;
        }
        i += 1;
    }
    v
}
/// Tags: (start, end, kind) with kind 0 start, 1 end, 2 self-closing
fn tags_in(t: &str) -> Vec<(usize, usize, u8)> {
    let b = t.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'<' && i + 1 < b.len() && !matches!(b[i + 1], b'?' | b'!') {
            let mut z = i;
            while z < b.len() && b[z] != b'>' {
                z += 1
            }
            if z == b.len() {
                break;
            }
            let k = if b[i + 1] == b'/' {
                1
            } else if b[z - 1] == b'/' {
                2
            } else {
                0
            };
            v.push((i, z + 1, k));
            i = z;
        }
        i += 1;
    }
    v
}
/// Element that starts at tag n: span
fn element_at(tags: &[(usize, usize, u8)], n: usize) -> Option<(usize, usize)> {
    match tags.get(n)? {
        (a, z, 2) => Some((*a, *z)),
        (a, _, 0) => {
            let mut d = 0i32;
            for t in &tags[n..] {
                match t.2 {
                    0 => d += 1,
                    1 => d -= 1,
                    _ => {}
                }
                if d == 0 {
                    return Some((*a, t.1));
                }
            }
            None
        }
        _ => None,
    }
}
fn edit_xml(t: &str, h: &Hit) -> Option<String> {
    let at = |v: &[(usize, usize, usize)], n: u16| if v.is_empty() { None } else { Some(v[n as usize % v.len()]) };
    let tags = tags_in(t);
    let tag = |n: u16| if tags.is_empty() { None } else { Some(n as usize % tags.len()) };
    let put = |a: usize, z: usize, s: &str| Some(format!("{}{}{}", &t[..a], s, &t[z..]));
    match h {
        Hit::AttrDrop(_, n) => {
            let (a, _, z) = at(&attrs_in(t), *n)?;
            put(a, z + 1, "")
        }
        Hit::AttrSet(_, n, v) => {
            let (_, a, z) = at(&attrs_in(t), *n)?;
            put(a, z, VALUES[*v as usize % VALUES.len()])
        }
        Hit::AttrDup(_, n) => {
            let (a, _, z) = at(&attrs_in(t), *n)?;
            let s = format!("{} {}", &t[a..=z], &t[a..=z]);
            put(a, z + 1, &s)
        }
        Hit::Text(_, n, v) => {
            // text behind a start tag, up to the next tag
            let starts: Vec<usize> = tags.iter().filter(|x| x.2 == 0).map(|x| x.1).collect();
            if starts.is_empty() {
                return None;
            }
            let a = starts[*n as usize % starts.len()];
            let z = a + t[a..].find('<')?;
            put(a, z, VALUES[*v as usize % VALUES.len()])
        }
        Hit::TagDrop(_, n) => {
            let x = tags[tag(*n)?];
            put(x.0, x.1, "")
        }
        Hit::ElDup(_, n, k) => {
            let (a, z) = element_at(&tags, tag(*n)?)?;
            if z - a > 20000 {
                return None;
            }
            put(z, z, &t[a..z].repeat(*k as usize))
        }
        Hit::ElDrop(_, n) => {
            let (a, z) = element_at(&tags, tag(*n)?)?;
            put(a, z, "")
        }
        Hit::TagName(_, n, v) => {
            let i = tag(*n)?;
            let (a, z) = element_at(&tags, i)?;
            let name: String = t[a + 1..].chars().take_while(|c| !c.is_whitespace() && *c != '>' && *c != '/').collect();
            let new = TAGS[*v as usize % TAGS.len()];
            let body = &t[a..z];
            let mut s = format!("<{}{}", new, &body[1 + name.len()..]);
            if tags[i].2 == 0 {
                let e = s.rfind("</")?;
                s.truncate(e);
                s.push_str(&format!("</{}>", new));
            }
            put(a, z, &s)
        }
        Hit::NameOf(_, n, v) => {
            let (a, z) = if v % 8 == 7 {
                let (a, v, _) = at(&attrs_in(t), *n)?;
                (a, t[..v].rfind('=')?)
            } else {
                let x = tags[tag(*n)?];
                let a = x.0 + 1 + usize::from(t[x.0 + 1..].starts_with('/'));
                (a, a + t[a..].find(|c: char| c.is_whitespace() || c == '>' || c == '/')?)
            };
            let name = &t[a..z];
            let new = match v / 8 % 8 {
                0 => name.to_uppercase(),
                1 => name.to_lowercase(),
                2 => name.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                3 => format!("{}x", name),
                4 => format!("x:{}", name),
                5 => name.split(':').next_back()?.to_string(),
                6 => name.chars().take(name.chars().count() - 1).collect(),
                _ => format!(" {}", name),
            };
            put(a, z, &new)
        }
        Hit::Insert(_, n, v) => {
            let x = tags[tag(*n)?];
            put(x.1, x.1, SNIPPETS[*v as usize % SNIPPETS.len()])
        }
        Hit::Deep(_, n, k) => {
            let x = tags[tag(*n)?];
            let s = format!("{}{}", "<d>".repeat(*k as usize), "</d>".repeat(*k as usize));
            put(x.1, x.1, &s)
        }
        Hit::Raw(_, n, v) => {
            let mut i = *n as usize * 31 % t.len().max(1);
            while !t.is_char_boundary(i) {
                i -= 1
            }
            let all: Vec<&str> = SNIPPETS.iter().chain(RAW.iter()).copied().collect();
            put(i, i, all[*v as usize % all.len()])
        }
        Hit::NoNs(_) => Some(t.replacen("xmlns", "xmlnz", 1)),
        _ => None,
    }
}
/// Parts that the library parses come first in the selection
fn focus(names: &[String], n: u16) -> usize {
    let xml: Vec<usize> = (0..names.len()).filter(|i| super::infoset::is_xml(&names[*i])).collect();
    if xml.is_empty() {
        return n as usize % names.len();
    }
    xml[n as usize % xml.len()]
}
fn damage(origin: &Origin, hits: &[Hit]) -> Vec<u8> {
    let bytes = match origin {
        Origin::Book(b) => synth::bytes(&synth::build(b), &b.lay),
        Origin::Doc(d) => d.bytes(),
        Origin::File(i) => fixture(*i).to_vec(),
        Origin::Bytes(b) => b.clone(),
    };
    // entries in order, duplicates possible
    let mut parts: Vec<(String, Vec<u8>)> = vec![];
    if let Ok(mut z) = zip::ZipArchive::new(std::io::Cursor::new(&bytes)) {
        for i in 0..z.len() {
            if let Ok(mut f) = z.by_index(i) {
                let mut v = vec![];
                if std::io::Read::read_to_end(&mut f, &mut v).is_ok() && !f.name().ends_with('/') {
                    parts.push((f.name().to_string(), v));
                }
            }
        }
    }
    let mut out = bytes;
    let structural = hits.iter().any(|h| !matches!(h, Hit::Truncate(_) | Hit::Flip(..) | Hit::Splice(..) | Hit::Cut(..)));
    if structural && !parts.is_empty() {
        for h in hits {
            if parts.is_empty() {
                break;
            }
            let names: Vec<String> = parts.iter().map(|p| p.0.clone()).collect();
            let n = parts.len();
            match h {
                Hit::Truncate(_) | Hit::Flip(..) | Hit::Splice(..) | Hit::Cut(..) => {}
                Hit::Drop(i) => {
                    parts.remove(*i as usize % n);
                }
                Hit::Empty(i) => parts[*i as usize % n].1.clear(),
                Hit::Garbage(i, b) => parts[*i as usize % n].1 = b.clone(),
                Hit::Swap(i, j) => {
                    let (i, j) = (*i as usize % n, *j as usize % n);
                    let t = parts[i].1.clone();
                    parts[i].1 = std::mem::replace(&mut parts[j].1, t);
                }
                Hit::Rename(i, s) => parts[*i as usize % n].0 = s.clone(),
                Hit::Twice(i) => {
                    let p = parts[*i as usize % n].clone();
                    parts.push(p);
                }
                Hit::Half(i, at) => {
                    let p = &mut parts[focus(&names, *i)].1;
                    let k = p.len() * *at as usize / 65536;
                    p.truncate(k);
                }
                Hit::Ends(i, front, k) => {
                    let p = &mut parts[focus(&names, *i)].1;
                    const E: [&[u8]; 16] = [b"x y", b" a ", b"\n", b" ", b"<!-- c -->", b"<?pi x?>", b"\0", b"&#65;", b"<a/>", b"]]>", b"\xEF\xBB\xBF", b"\xFF", b"<!DOCTYPE a>", b"<?xml version=\"1.0\"?>", b"&#32;", b"</a>"];
                    let e = E[*k as usize % 16];
                    if *front {
                        let mut b = e.to_vec();
                        b.extend_from_slice(p);
                        *p = b;
                    } else {
                        p.extend_from_slice(e);
                    }
                }
                Hit::Byte(i, at, v) => {
                    let p = &mut parts[focus(&names, *i)].1;
                    if !p.is_empty() {
                        let k = *at as usize % p.len();
                        p[k] = *v;
                    }
                }
                Hit::AttrDrop(i, _) | Hit::AttrSet(i, ..) | Hit::AttrDup(i, _) | Hit::Text(i, ..) | Hit::TagDrop(i, _) | Hit::ElDup(i, ..) | Hit::ElDrop(i, _) | Hit::TagName(i, ..) | Hit::NameOf(i, ..) | Hit::Insert(i, ..) | Hit::Deep(i, ..) | Hit::Raw(i, ..) | Hit::NoNs(i) => {
                    let p = &mut parts[focus(&names, *i)].1;
                    if let Ok(t) = std::str::from_utf8(p) {
                        if let Some(s) = edit_xml(t, h) {
                            *p = s.into_bytes();
                        }
                    }
                }
            }
        }
        out = raw_zip(&parts);
    }
    for h in hits {
        let n = out.len().max(1);
        match h {
            Hit::Truncate(a) => out.truncate(out.len() * *a as usize / 65536),
            Hit::Flip(a, v) if !out.is_empty() => {
                let k = *a as usize * 7919 % n;
                out[k] ^= v | 1;
            }
            Hit::Splice(a, b) => {
                let k = out.len() * *a as usize / 65536;
                out.splice(k..k, b.iter().cloned());
            }
            Hit::Cut(a, l) => {
                let k = out.len() * *a as usize / 65536;
                let z = (k + *l as usize).min(out.len());
                out.drain(k..z);
            }
            _ => {}
        }
    }
    out
}
/// A stored zip with any entry names, repeated ones too
fn raw_zip(parts: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut out = vec![];
    let mut dir = vec![];
    for (n, b) in parts {
        let off = out.len() as u32;
        let mut crc = !0u32;
        for x in b {
            crc ^= *x as u32;
            for _ in 0..8 {
                crc = if crc & 1 != 0 { crc >> 1 ^ 0xEDB8_8320 } else { crc >> 1 };
            }
        }
        let mut common = vec![];
        common.extend_from_slice(&[20, 0, 0, 8, 0, 0, 0, 0, 0x21, 0x58]);
        common.extend_from_slice(&(!crc).to_le_bytes());
        common.extend_from_slice(&(b.len() as u32).to_le_bytes());
        common.extend_from_slice(&(b.len() as u32).to_le_bytes());
        common.extend_from_slice(&(n.len() as u16).to_le_bytes());
        common.extend_from_slice(&[0, 0]);
        out.extend_from_slice(b"PK\x03\x04");
        out.extend_from_slice(&common);
        out.extend_from_slice(n.as_bytes());
        out.extend_from_slice(b);
        dir.extend_from_slice(b"PK\x01\x02\x14\x00");
        dir.extend_from_slice(&common);
        dir.extend_from_slice(&[0; 10]);
        dir.extend_from_slice(&off.to_le_bytes());
        dir.extend_from_slice(n.as_bytes());
    }
    let at = out.len() as u32;
    out.extend_from_slice(&dir);
    out.extend_from_slice(b"PK\x05\x06\0\0\0\0");
    out.extend_from_slice(&(parts.len() as u16).to_le_bytes());
    out.extend_from_slice(&(parts.len() as u16).to_le_bytes());
    out.extend_from_slice(&(dir.len() as u32).to_le_bytes());
    out.extend_from_slice(&at.to_le_bytes());
    out.extend_from_slice(&[0, 0]);
    out
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct BadCase {
    origin: Origin,
    hits: Vec<Hit>,
    /// what is done with the document when it opens
    plan: u8,
    edits: Vec<Edit>,
}
pub struct C15;
impl C15 {
    /// Ok(how far it went)
    fn drive(c: &BadCase, src: &str, out: &str) -> &'static str {
        let doc = match &c.origin {
            Origin::Doc(d) => Some(d.pptx),
            _ => None,
        };
        if let Some(p) = doc {
            return match cycle_doc(p, src, out) {
                Ok(()) => "saved",
                Err(e) if e.starts_with("open") => "open refused",
                Err(_) => "save refused",
            };
        }
        let mut s = match Session::open(Some(src)) {
            Ok(s) => s,
            Err(_) => return "open refused",
        };
        let names = s.list().unwrap_or_default();
        if c.plan & 1 != 0 {
            if let Ok(id) = s.ex.get_style_id_mut(StyleReq::plain().setting()) {
                s.ids.push(id);
            }
        }
        if c.plan & 2 != 0 {
            let _ = s.ex.add_sheet_mut(None);
        }
        for (i, n) in names.iter().take(4).enumerate() {
            if let Ok(mut ws) = s.ex.get_worksheet_mut(n.clone()) {
                for e in &c.edits {
                    let _ = edit_lib(&mut ws, e, &s.ids);
                }
                if c.plan & 4 != 0 && i == 1 {
                    let _ = ws.delete_sheet_mut();
                }
            }
            if c.plan & 8 != 0 {
                let _ = s.ex.hide_sheet_mut(n.clone());
                let _ = s.ex.set_active_sheet_mut(n.clone());
            }
            if c.plan & 16 != 0 && i == 0 {
                let _ = s.ex.rename_sheet_name_mut(n.clone(), "renamed sheet".into());
            }
        }
        if c.plan & 32 != 0 {
            let _ = s.ex.set_visibility_mut(false);
            let _ = s.ex.minimize_workbook_mut(true);
        }
        match s.save(out) {
            Ok(()) => "saved",
            Err(_) => "save refused",
        }
    }
}
impl Prop for C15 {
    type Case = BadCase;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn quick(&self) -> u32 {
        1760
    }
    fn rule(&self) -> &'static str {
        "synthetic and real workbooks, documents and presentations with 0 to 4 damages (package: truncated, flipped, spliced, cut; parts: dropped, emptied, replaced, swapped, renamed, doubled, truncated; XML: attributes dropped, doubled or set to 44 hostile values, text, tags and elements dropped, doubled or renamed, hostile snippets, deep nesting, single bytes, lost namespaces) and random bytes; the document is opened, its sheets opened, edited, deleted, renamed, and saved; no panic or abort, the input unchanged, no output after a refusal and a readable package after success, nothing else in the directory; non-trivial: at least one damage and the document was refused, or opened in spite of it"
    }
    fn strategy(&self) -> BoxedStrategy<BadCase> {
        let mix = synth::Mix { sheets: (1, 2), extras: 1, parts: (0, 1), ..synth::PLAIN };
        (
            prop_oneof![
                16 => synth::book(mix).prop_map(|b| Origin::Book(Box::new(b))),
                3 => docs::doc().prop_map(Origin::Doc),
                1 => any::<u8>().prop_map(Origin::File),
                1 => vec(any::<u8>(), 0..200).prop_map(Origin::Bytes),
            ],
            prop_oneof![6 => vec(hit(), 1..2), 3 => vec(hit(), 2..5), 1 => vec(hit(), 0..1)],
            any::<u8>(),
            edits(Weights { edits: 4, write: 4, row: 1, col: 2, ..BASE }),
        )
            .prop_map(|(origin, hits, plan, edits)| BadCase { origin, hits, plan, edits })
            .boxed()
    }
    fn check(&self, c: &BadCase, ctx: &Ctx) -> Verdict {
        let src = ctx.file("in.bin");
        let out = ctx.file("out.bin");
        let bytes = damage(&c.origin, &c.hits);
        std::fs::write(&src, &bytes).map_err(|e| format!("HARNESS: {}", e))?;
        let how = Self::drive(c, &src, &out);
        if std::fs::read(&src).ok().as_deref() != Some(&bytes[..]) {
            return Err(format!("{}, and the input file changed", how));
        }
        let there: Vec<String> = std::fs::read_dir(&ctx.dir).map_err(|e| format!("HARNESS: {}", e))?.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect();
        for n in &there {
            if n != "in.bin" && !(n == "out.bin" && how == "saved") {
                return Err(format!("{}, and the file {} appeared", how, n));
            }
        }
        if how == "saved" {
            let b = std::fs::read(&out).map_err(|_| "saved, and there is no file".to_string())?;
            let mut z = zip::ZipArchive::new(std::io::Cursor::new(b)).map_err(|e| format!("saved, and the file is no package: {}", e))?;
            for i in 0..z.len() {
                let mut f = z.by_index(i).map_err(|e| format!("saved, and an entry is not readable: {}", e))?;
                std::io::copy(&mut f, &mut std::io::sink()).map_err(|e| format!("saved, and an entry is not readable: {}", e))?;
            }
        }
        let mut s = Seen { nontrivial: !c.hits.is_empty(), labels: vec![] };
        s.label(how);
        for h in &c.hits {
            let n = format!("{:?}", h);
            s.label(&format!("damage: {}", n.split('(').next().unwrap()));
        }
        Ok(s)
    }
}

// ------------------------------------------------------------------ C32

/// Not well-formed; errors that only concern namespaces are told apart
fn ill_formed(b: &[u8]) -> Option<(bool, String)> {
    let e = crate::xml::parse(b).err()?;
    let ns = ["unbound prefix", "bad qualified name", "bad namespace declaration", "duplicate attribute"].iter().any(|x| e.contains(x)) && !e.starts_with("duplicate attribute");
    Some((ns, e))
}
fn entries(b: &[u8]) -> Result<BTreeMap<String, Vec<u8>>, String> {
    let mut z = zip::ZipArchive::new(std::io::Cursor::new(b)).map_err(|e| e.to_string())?;
    let mut m = BTreeMap::new();
    for i in 0..z.len() {
        let mut f = z.by_index(i).map_err(|e| e.to_string())?;
        let mut v = vec![];
        std::io::Read::read_to_end(&mut f, &mut v).map_err(|e| e.to_string())?;
        if !f.name().ends_with('/') && m.insert(f.name().to_ascii_lowercase(), v).is_some() {
            return Err("two entries of the same name".into());
        }
    }
    Ok(m)
}
/// Ill-formed XML is not rewritten, and nothing ill-formed is written
pub struct C32;
impl Prop for C32 {
    type Case = BadCase;
    fn id(&self) -> &'static str {
        "C32"
    }
    fn quick(&self) -> u32 {
        2000
    }
    fn rule(&self) -> &'static str {
        "synthetic and real workbooks, documents and presentations with 1 or 2 damages inside their XML parts (tags, names, attributes, text, references, hostile snippets, single bytes, halves); opened, sheets opened, edited, and saved; every part in the saved package that differs from the part of the input must be well-formed, and its original must have been well-formed; non-trivial: a part of the input is ill-formed, or a damaged part was rewritten"
    }
    fn strategy(&self) -> BoxedStrategy<BadCase> {
        let mix = synth::Mix { sheets: (1, 2), extras: 1, parts: (0, 1), spell: 30 };
        let s = || any::<u16>();
        let h = prop_oneof![
            2 => (s(), s()).prop_map(|(a, b)| Hit::AttrDup(a, b)),
            2 => (s(), s(), any::<u8>()).prop_map(|(a, b, c)| Hit::AttrSet(a, b, c)),
            2 => (s(), s(), any::<u8>()).prop_map(|(a, b, c)| Hit::Text(a, b, c)),
            3 => (s(), s()).prop_map(|(a, b)| Hit::TagDrop(a, b)),
            2 => (s(), s()).prop_map(|(a, b)| Hit::ElDrop(a, b)),
            4 => (s(), s(), any::<u8>()).prop_map(|(a, b, c)| Hit::TagName(a, b, c)),
            5 => (s(), s(), any::<u8>()).prop_map(|(a, b, c)| Hit::NameOf(a, b, c)),
            12 => (s(), s(), any::<u8>()).prop_map(|(a, b, c)| Hit::Insert(a, b, c)),
            8 => (s(), s(), any::<u8>()).prop_map(|(a, b, c)| Hit::Raw(a, b, c)),
            8 => (s(), s(), select(b"<>&\"'/=! -?;#x\x00\x01\x7f\xff\n:.".to_vec())).prop_map(|(a, b, c)| Hit::Byte(a, b, c)),
            2 => (s(), s()).prop_map(|(a, b)| Hit::Half(a, b)),
            4 => (s(), any::<bool>(), any::<u8>()).prop_map(|(a, b, c)| Hit::Ends(a, b, c)),
        ];
        (
            prop_oneof![
                12 => synth::book(mix).prop_map(|b| Origin::Book(Box::new(b))),
                3 => docs::doc().prop_map(Origin::Doc),
                1 => any::<u8>().prop_map(Origin::File),
            ],
            vec(h, 1..3),
            any::<u8>(),
            edits(Weights { edits: 2, write: 4, row: 1, col: 2, ..BASE }),
        )
            .prop_map(|(origin, hits, plan, edits)| BadCase { origin, hits, plan, edits })
            .boxed()
    }
    fn check(&self, c: &BadCase, ctx: &Ctx) -> Verdict {
        let src = ctx.file("in.bin");
        let out = ctx.file("out.bin");
        let bytes = damage(&c.origin, &c.hits);
        std::fs::write(&src, &bytes).map_err(|e| format!("HARNESS: {}", e))?;
        let how = C15::drive(c, &src, &out);
        let mut seen = Seen { nontrivial: false, labels: vec![how.to_string()] };
        let before = match entries(&bytes) {
            Ok(b) => b,
            Err(_) => return Ok(seen),
        };
        let is_xml = super::infoset::is_xml;
        let bad: BTreeMap<&String, (bool, String)> = before.iter().filter(|x| is_xml(x.0.as_str())).filter_map(|(n, b)| ill_formed(b).map(|e| (n, e))).collect();
        seen.nontrivial = !bad.is_empty();
        seen.label(if bad.is_empty() { "all parts well-formed" } else { "a part is ill-formed" });
        if how != "saved" {
            return Ok(seen);
        }
        let after = entries(&std::fs::read(&out).map_err(|_| "saved, and there is no file".to_string())?)?;
        for (n, b) in &after {
            if !is_xml(n) || before.get(n) == Some(b) {
                continue;
            }
            seen.nontrivial = true;
            if let Some((ns, e)) = bad.get(n) {
                if !ns {
                    return Err(format!("part {} is not well-formed ({}) and was read and written as {:?}", n, e, String::from_utf8_lossy(&b[..b.len().min(400)])));
                }
            }
            if let Some((ns, e)) = ill_formed(b) {
                if !ns || !bad.contains_key(n) {
                    return Err(format!("part {} was written and is not well-formed: {}", n, e));
                }
            }
        }
        for e in bad.values() {
            seen.label(&format!("error: {}", e.1.split(|c: char| c == ':' || c.is_ascii_digit() || c == '&').next().map(|e| e.split(" after").next().unwrap()).unwrap().chars().take(24).collect::<String>()));
        }
        Ok(seen)
    }
}

// ------------------------------------------------------------------ C16

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum BadEdit {
    At { row: u32, col: u16, cells: Vec<CellW> },
    /// a row of values that runs past the last column, starting this many columns before it
    Past { row: u32, before: u8, by: u8, more: u8 },
    Ref { r: String, cells: Vec<CellW> },
    Row(u32),
    Col { col: u16, p: Option<ColW> },
    ColRef { r: String, p: Option<ColW> },
    /// a row of values of which one has a character that XML cannot hold, in its value or its formula
    Text { row: u32, col: u32, by: u8, cells: Vec<CellW>, at: u8, f: bool, ch: u8, pos: u8 },
}
/// Characters outside the ones that XML 1.0 allows
pub const NOT_XML: [char; 10] = ['\u{0}', '\u{1}', '\u{8}', '\u{B}', '\u{C}', '\u{E}', '\u{1B}', '\u{1F}', '\u{FFFE}', '\u{FFFF}'];
pub fn spoil(s: &str, ch: u8, pos: u8) -> String {
    let mut v: Vec<char> = s.chars().collect();
    v.insert(pos as usize % (v.len() + 1), NOT_XML[ch as usize % NOT_XML.len()]);
    v.into_iter().collect()
}
fn bad_row() -> BoxedStrategy<u32> {
    prop_oneof![2 => Just(0u32), 3 => select(vec![1048577u32, 1048578, 2000000, u32::MAX, u32::MAX - 1, 1 << 31, 1 << 20 | 1, 0x1_0000_0]), 1 => 1048577u32..].prop_filter("outside", |r| *r == 0 || *r > MAX_ROW).boxed()
}
fn bad_col() -> BoxedStrategy<u16> {
    prop_oneof![2 => Just(0u16), 3 => select(vec![16385u16, 16386, 32767, 32768, 65535, 65534, 20000]), 1 => 16385u16..].boxed()
}
/// Text that is not an address of the sheet under any reading
fn bad_ref() -> BoxedStrategy<String> {
    prop_oneof![
        3 => (select(vec!["A", "Z", "XFD", "b", ""]), bad_row()).prop_map(|(c, r)| format!("{}{}", c, r)),
        3 => (select(vec!["XFE", "XFZ", "XGA", "ZZZ", "AAAA", "xfe", "ZZZZZZZZZZZZZZZZZZZZ", "AAAAAAA", "FXSHRXX"]), gen::row()).prop_map(|(c, r)| format!("{}{}", c, r)),
        4 => select(vec![
            "", " ", "A", "XFD", "1", "10", "1A", "12AB", "A1B", "A1B2", "A-1", "A+1", "A1.5", "A:1", "A1:B2", "A,1", "A 1", "é1", "É1", "Ａ1", "A１", "A١", "ß1", "\u{212A}1", "ſ1", "Aé1", "éA1", "AÀ7", "zß9", "AéA", "ÉB2", "A1é", "A\u{301}1", "😀", "A99999999999", "A18446744073709551617", "A4294967297", "@1", "[1", "`1", "{1", "A_1", "R1C1", "#REF!", "A1048577", "XFE1048576", "A1\0", "\u{0}",
        ]).prop_map(|s| s.to_string()),
        2 => vec(gen::ch(), 0..6).prop_map(|v| v.into_iter().collect::<String>()),
        2 => "[A-Za-z0-9]{0,9}",
        1 => "[0-9]{1,7}[A-Za-z]{1,3}",
        1 => "[A-Za-z]{4,14}[0-9]{1,4}",
    ]
    .prop_filter("outside", |s| {
        // readings that might be tolerated: $ markers, surrounding space, leading zeros or signs
        let t: String = s.chars().filter(|c| !matches!(c, '$') && !c.is_whitespace()).collect();
        let cut = t.find(|c: char| c.is_ascii_digit()).unwrap_or(t.len());
        let t = format!("{}{}", &t[..cut], t[cut..].trim_start_matches('0'));
        parse_ref(&t.to_ascii_uppercase()).is_none() && (s.trim() == s || s.trim().is_empty())
    })
    .boxed()
}
fn bad_col_ref() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec!["", "1", "0", "A1", "1A", "XFE", "XGA", "ZZZ", "AAAA", "ZZZZZZZZZZZZZZZ", "é", "Ａ", "ß", "A:B", "A-B", "Aé", "éA", "Bß", "@", "[", "`", "{", "A_", "\u{212A}", "ſ", "xfe", "A\u{301}", "AAAAAAA", "CRPXNLSKVLJFHG"]).prop_map(|s| s.to_string()),
        1 => "[A-Z]{4,9}",
        1 => vec(gen::ch(), 1..4).prop_map(|v| v.into_iter().collect::<String>()),
    ]
    .prop_filter("outside", |s| {
        let t: String = s.chars().filter(|c| *c != '$' && !c.is_whitespace()).collect();
        let tail = t.trim_end_matches(|c: char| c.is_ascii_digit());
        // "A1" as a column is refused or read as A: not decided here unless there are no letters
        let letters = tail.to_ascii_uppercase();
        let _ = letters;
        let cut = t.find(|c: char| c.is_ascii_digit()).unwrap_or(t.len());
        let t = format!("{}{}1", &t[..cut], t[cut..].trim_start_matches('0'));
        parse_ref(&t.to_ascii_uppercase()).is_none() && (s.trim() == s)
    })
    .boxed()
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C16Case {
    start: Start,
    sheet: u8,
    /// valid edits, each followed by refused ones
    steps: Vec<(Edit, Vec<BadEdit>)>,
    first: Vec<BadEdit>,
}
fn bad_edit() -> BoxedStrategy<BadEdit> {
    let cells = || vec(cell_w(), 0..3);
    prop_oneof![
        2 => (bad_row(), gen::col(), cells()).prop_map(|(row, col, cells)| BadEdit::At { row, col: col as u16, cells }),
        2 => (gen::row(), bad_col(), cells()).prop_map(|(row, col, cells)| BadEdit::At { row, col, cells }),
        2 => (gen::row(), 0u8..4, 0u8..4, 1u8..4).prop_map(|(row, before, by, more)| BadEdit::Past { row, before, by, more }),
        5 => (bad_ref(), cells()).prop_map(|(r, cells)| BadEdit::Ref { r, cells }),
        1 => bad_row().prop_map(BadEdit::Row),
        2 => (bad_col(), prop::option::of(col_w())).prop_map(|(col, p)| BadEdit::Col { col, p }),
        2 => (bad_col_ref(), prop::option::of(col_w())).prop_map(|(r, p)| BadEdit::ColRef { r, p }),
        3 => (gen::row(), 1u32..=MAX_COL - 5, 0u8..4, vec(cell_w(), 1..4), any::<(u8, bool, u8, u8)>()).prop_map(|(row, col, by, cells, (at, f, ch, pos))| BadEdit::Text { row, col, by, cells, at, f, ch, pos }),
    ]
    .boxed()
}
fn refused(ws: &mut WorkSheet, e: &BadEdit) -> Result<(), String> {
    let col = |p: &Option<ColW>| {
        p.as_ref().map(|p| {
            let mut c = ColumnProperties::default();
            c.width = p.w;
            c.hidden = p.hidden;
            c.best_fit = p.best;
            c
        })
    };
    let cells = |v: &Vec<CellW>| v.iter().map(|c| cell_props(c, &[])).collect::<Vec<_>>();
    let done = guarded(|| match e {
        BadEdit::At { row, col, cells: v } => ws.set_row_value_index_mut(*row, *col, cells(v)).is_ok(),
        BadEdit::Past { row, before, by, more } => {
            let c = MAX_COL - *before as u32;
            let v: Vec<_> = (0..*before as u32 + 1 + *more as u32).map(|i| cell_props(&CellW { v: Some(format!("p{}", i)), t: Ty::Auto, f: None, style: None }, &[])).collect();
            if *by == 0 {
                ws.set_row_value_index_mut(*row, c as u16, v).is_ok()
            } else {
                ws.set_row_value_ref_mut(&ref_text(&cell_name(*row, c), *by), v).is_ok()
            }
        }
        BadEdit::Ref { r, cells: v } => ws.set_row_value_ref_mut(r, cells(v)).is_ok(),
        BadEdit::Row(r) => {
            let mut p = RowProperties::default();
            p.height = Some(20.0);
            ws.set_row_index_properties_mut(r, p).is_ok()
        }
        BadEdit::Col { col: c, p } => ws.set_column_index_properties_mut(c, col(p)).is_ok(),
        BadEdit::ColRef { r, p } => ws.set_column_ref_properties_mut(r, col(p)).is_ok(),
        BadEdit::Text { row, col, by, cells: v, at, f, ch, pos } => {
            let mut v = v.clone();
            let k = *at as usize % v.len();
            let c = &mut v[k];
            let t = spoil(if *f { c.f.as_deref() } else { c.v.as_deref() }.unwrap_or("a"), *ch, *pos);
            if *f {
                c.f = Some(t);
            } else {
                c.v = Some(t);
            }
            if *by == 0 {
                ws.set_row_value_index_mut(*row, *col as u16, cells(&v)).is_ok()
            } else {
                ws.set_row_value_ref_mut(&ref_text(&cell_name(*row, *col), *by), cells(&v)).is_ok()
            }
        }
    });
    match done {
        Ok(false) => Ok(()),
        Ok(true) => Err(format!("{:?} was accepted", e)),
        Err(p) => Err(format!("{:?}: {}", e, p)),
    }
}
pub struct C16;
impl Prop for C16 {
    type Case = C16Case;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn quick(&self) -> u32 {
        1000
    }
    fn rule(&self) -> &'static str {
        "valid edits (corners weighted) on new and synthetic workbooks, run once alone and once with invalid calls between them (rows and columns outside, references out of range, out of order, empty, overflowing, non-ASCII, rows of values past XFD, by index and by reference, cells, rows and columns, values and formulas with characters that XML cannot hold in one cell of a row); each invalid call must return an error, both files must be the same part by part, and the cells must be those of the model; non-trivial: at least 3 invalid calls of at least 2 kinds"
    }
    fn strategy(&self) -> BoxedStrategy<C16Case> {
        let w = Weights { foreign: 30, mix: synth::Mix { sheets: (1, 2), extras: 0, parts: (0, 0), ..synth::PLAIN }, ..BASE };
        let edit = prop_oneof![
            6 => edit_write(),
            1 => edit_row(),
            2 => edit_col(),
            2 => (select(vec![(1u32, 1u32), (1, MAX_COL), (MAX_ROW, 1), (MAX_ROW, MAX_COL)]), 0u8..4, cell_w()).prop_map(|((row, col), by, c)| Edit::Write { row, col, by, cells: vec![c] }),
        ];
        (start(w), any::<u8>(), vec((edit, vec(bad_edit(), 0..4)), 0..5), vec(bad_edit(), 0..3)).prop_map(|(start, sheet, steps, first)| C16Case { start, sheet, steps, first }).boxed()
    }
    fn check(&self, c: &C16Case, ctx: &Ctx) -> Verdict {
        let src = match &c.start {
            Start::New => None,
            Start::Foreign(spec) => {
                synth::write(spec, &ctx.file("src.xlsx"));
                Some(ctx.file("src.xlsx"))
            }
            Start::File(i) => {
                std::fs::write(ctx.file("src.xlsx"), fixture(*i)).map_err(|e| format!("HARNESS: {}", e))?;
                Some(ctx.file("src.xlsx"))
            }
        };
        let mut kinds = BTreeMap::new();
        let mut model: BTreeMap<(u32, u32), CellV> = BTreeMap::new();
        let mut books = vec![];
        let mut name = String::new();
        for bad in [false, true] {
            let out = ctx.file(if bad { "b.xlsx" } else { "a.xlsx" });
            let mut s = Session::open(src.as_deref())?;
            let names = s.list()?;
            name = names[c.sheet as usize % names.len()].clone();
            let mut ws = s.ex.get_worksheet_mut(name.clone()).map_err(|e| format!("sheet refused: {:?}", e))?;
            let mut hit = |ws: &mut WorkSheet, v: &Vec<BadEdit>| -> Result<(), String> {
                for e in v {
                    refused(ws, e)?;
                    let k = format!("{:?}", e);
                    *kinds.entry(k.split([' ', '(']).next().unwrap().to_string()).or_insert(0) += 1;
                }
                Ok(())
            };
            if bad {
                hit(&mut ws, &c.first)?;
            }
            for (e, v) in &c.steps {
                edit_lib(&mut ws, e, &[])?;
                if !bad {
                    if let Edit::Write { row, col, cells, .. } = e {
                        for (i, w) in cells.iter().enumerate() {
                            model.insert((*row, col + i as u32), expected(w, &[]));
                        }
                    }
                }
                if bad {
                    hit(&mut ws, v)?;
                }
            }
            drop(ws);
            s.save(&out)?;
            books.push(Book::read(&out).map_err(|e| format!("saved file: {}", e))?);
        }
        no_drift(&books[0].pkg, &books[1].pkg, false, false).map_err(|e| format!("with refused calls: {}", e))?;
        let sh = books[1].sheet(&name)?;
        for (k, v) in &model {
            match sh.cells.get(k) {
                Some(g) if v.same(g) => {}
                g => return Err(format!("cell {}: {} expected, found {:?}", cell_name(k.0, k.1), v.show(), g.map(|g| g.show()))),
            }
        }
        let mut s = Seen { nontrivial: kinds.values().sum::<u32>() >= 3 && kinds.len() >= 2, labels: vec![] };
        for k in kinds.keys() {
            s.label(&format!("refused: {}", k));
        }
        if c.steps.iter().any(|e| matches!(&e.0, Edit::Write { row, col, cells, .. } if (*row == 1 || *row == MAX_ROW) && (*col == 1 || *col == MAX_COL) && !cells.is_empty())) {
            s.label("corner written");
        }
        Ok(s)
    }
}

// ------------------------------------------------------------------ C19

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C19Case {
    cells: Vec<CellW>,
    by_row: bool,
}
/// Text near the border between numbers, booleans and strings
fn near_number() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[+-]{0,2}[0-9]{0,4}\\.?[0-9]{0,4}([eE][+-]?[0-9]{0,3})?",
        2 => "[-+]?(inf|Inf|INF|infinity|Infinity|INFINITY|nan|NaN|NAN|iNf)",
        2 => "[ \t\n]?[0-9]{1,3}[ \t\n]?",
        2 => "[0-9]{1,3}[,_' ][0-9]{1,3}",
        1 => "0[xob][0-9a-f]{1,4}",
        2 => "[tTfF][rRaA][uUlL][eEsS][eE ]?",
        1 => select(vec!["true", "false", "TRUE", "FALSE", "True", "False", "true ", " false", "tru", "yes", "no", "wahr", "", ".", "-", "+", "e5", "1e", "1e+", ".e1", "1.e1", "-.5e-3", "+0", "-0", "00", "1f", "1d", "1L", "1%", "$1", "(1)", "１", "٣", "½", "Ⅷ", "²", "−1", "1e308", "1.8e308", "1e309", "-1e309", "5e-324", "1e-400", "1e999999999999", "0e999999999999"]).prop_map(|s| s.to_string()),
        1 => "[0-9]{15,40}(\\.[0-9]{1,25})?",
        1 => any::<f64>().prop_map(|f| format!("{}", f)),
        1 => any::<f64>().prop_map(|f| format!("{:?}", f)),
        1 => any::<f64>().prop_map(|f| format!("{:E}", f)),
        1 => any::<f32>().prop_map(|f| format!("{}", f)),
        1 => gen::text(),
    ]
    .boxed()
}
pub struct C19;
impl Prop for C19 {
    type Case = C19Case;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn quick(&self) -> u32 {
        2040
    }
    fn rule(&self) -> &'static str {
        "lists of up to 24 values near the border between numbers, booleans and text (signs, exponents, separators, infinities, hexadecimal, letter case, white space, other scripts, magnitudes beyond f64, shortest and exact forms of random floats), mostly with automatic typing, otherwise with every explicit type and without a value; type and value in the file are compared with an own grammar; non-trivial: automatic values of at least 2 resulting types"
    }
    fn strategy(&self) -> BoxedStrategy<C19Case> {
        let c = prop_oneof![
            8 => near_number().prop_map(|v| CellW { v: Some(v), t: Ty::Auto, f: None, style: None }),
            2 => (near_number(), select(vec![Ty::Str, Ty::Share, Ty::Inline, Ty::Error])).prop_map(|(v, t)| CellW { v: Some(v), t, f: None, style: None }),
            1 => near_number().prop_filter("number", |v| finite_number(v)).prop_map(|v| CellW { v: Some(v), t: Ty::Number, f: None, style: None }),
            2 => near_number().prop_map(|v| CellW { v: Some(v), t: Ty::Boolean, f: None, style: None }),
            2 => cell_w().prop_map(|mut c| { c.style = None; c }),
        ];
        (vec(c, 1..24), any::<bool>()).prop_map(|(cells, by_row)| C19Case { cells, by_row }).boxed()
    }
    fn check(&self, c: &C19Case, ctx: &Ctx) -> Verdict {
        let out = ctx.file("o.xlsx");
        let mut s = Session::open(None)?;
        let name = s.list()?[0].clone();
        let mut ws = s.ex.get_worksheet_mut(name.clone()).map_err(|e| format!("sheet refused: {:?}", e))?;
        let mut want = BTreeMap::new();
        if c.by_row {
            edit_lib(&mut ws, &Edit::Write { row: 1, col: 1, by: 0, cells: c.cells.clone() }, &[])?;
        }
        for (i, w) in c.cells.iter().enumerate() {
            let at = if c.by_row { (1, i as u32 + 1) } else { (i as u32 + 1, 1) };
            if !c.by_row {
                edit_lib(&mut ws, &Edit::Write { row: at.0, col: 1, by: 0, cells: vec![w.clone()] }, &[])?;
            }
            want.insert(at, expected(w, &[]));
        }
        drop(ws);
        s.save(&out)?;
        let b = Book::read(&out).map_err(|e| format!("saved file: {}", e))?;
        let sh = b.sheet(&name)?;
        cmp_cells(&want, &sh.cells)?;
        let mut seen = Seen::default();
        let mut kinds = std::collections::BTreeSet::new();
        for (w, v) in c.cells.iter().zip(if c.by_row { want.values().collect::<Vec<_>>() } else { want.values().collect() }) {
            seen.label(&format!("{:?} -> {}{}", w.t, v.t, if v.val.is_none() { " empty" } else { "" }));
            if w.t == Ty::Auto {
                kinds.insert(v.t.clone());
            }
        }
        seen.nontrivial = kinds.len() >= 2;
        Ok(seen)
    }
}
