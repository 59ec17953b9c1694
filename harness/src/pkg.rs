//! Reading and validating Open Packaging packages, independent of the library.
use crate::xml::{self, El};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Cursor, Read, Write};

pub const NS_CT: &str = "http://schemas.openxmlformats.org/package/2006/content-types";
pub const NS_REL: &str = "http://schemas.openxmlformats.org/package/2006/relationships";
pub const NS_R: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
pub const NS_MAIN: &str = "http://schemas.openxmlformats.org/spreadsheetml/2006/main";
pub const OD: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/";

#[derive(Clone, Debug)]
pub struct Pkg {
    /// part name without leading slash -> bytes (without [Content_Types].xml)
    pub parts: BTreeMap<String, Vec<u8>>,
    pub ct_raw: Vec<u8>,
    pub defaults: Vec<(String, String)>,
    pub overrides: Vec<(String, String)>,
    pub dup_entries: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Rel {
    pub id: String,
    pub typ: String,
    pub target: String,
    pub external: bool,
}

/// Names of all entries from the central directory, parsed by hand (the zip crate hides duplicates)
pub fn central_names(b: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut at = None;
    if b.len() >= 22 {
        let lo = b.len().saturating_sub(22 + 65535);
        let mut i = b.len() - 22;
        loop {
            if b[i..i + 4] == [0x50, 0x4b, 5, 6] {
                at = Some(i);
                break;
            }
            if i == lo {
                break;
            }
            i -= 1;
        }
    }
    let e = at.ok_or("no end of central directory")?;
    let u16at = |o: usize| -> usize { b[o] as usize | (b[o + 1] as usize) << 8 };
    let u32at = |o: usize| -> usize { u16at(o) | u16at(o + 2) << 16 };
    let n = u16at(e + 10);
    let mut o = u32at(e + 16);
    let mut v = vec![];
    for _ in 0..n {
        if o + 46 > b.len() || b[o..o + 4] != [0x50, 0x4b, 1, 2] {
            return Err("damaged central directory".into());
        }
        let (nl, xl, cl) = (u16at(o + 28), u16at(o + 30), u16at(o + 32));
        if o + 46 + nl > b.len() {
            return Err("damaged central directory".into());
        }
        v.push(b[o + 46..o + 46 + nl].to_vec());
        o += 46 + nl + xl + cl;
    }
    if e + 22 + u16at(e + 20) != b.len() {
        return Err("bytes after the end of the archive".into());
    }
    Ok(v)
}

impl Pkg {
    pub fn read(path: &str) -> Result<Pkg, String> {
        let b = std::fs::read(path).map_err(|e| format!("cannot read {}: {}", path, e))?;
        Pkg::from_bytes(&b)
    }
    pub fn from_bytes(b: &[u8]) -> Result<Pkg, String> {
        let names = central_names(b)?;
        let mut seen = BTreeSet::new();
        let mut dup_entries = vec![];
        for n in &names {
            let n = String::from_utf8_lossy(n).to_string();
            if !seen.insert(n.to_ascii_lowercase()) {
                dup_entries.push(n);
            }
        }
        let mut z = zip::ZipArchive::new(Cursor::new(b)).map_err(|e| format!("not a zip: {}", e))?;
        let mut parts = BTreeMap::new();
        let mut ct_raw = None;
        for i in 0..z.len() {
            let mut f = z.by_index(i).map_err(|e| format!("zip entry {}: {}", i, e))?;
            let n = f.name().to_string();
            if n.ends_with('/') {
                continue;
            }
            let mut v = vec![];
            f.read_to_end(&mut v).map_err(|e| format!("zip entry {}: {}", n, e))?;
            if n == "[Content_Types].xml" {
                ct_raw = Some(v);
            } else {
                parts.insert(n, v);
            }
        }
        let ct_raw = ct_raw.ok_or("no [Content_Types].xml")?;
        let ct = xml::parse(&ct_raw).map_err(|e| format!("[Content_Types].xml: {}", e))?;
        if ct.ns != NS_CT || ct.local != "Types" {
            return Err("[Content_Types].xml: wrong root".into());
        }
        let mut defaults = vec![];
        let mut overrides = vec![];
        for e in ct.els() {
            let t = e.at("ContentType").ok_or("content type entry without ContentType")?.to_string();
            match e.local.as_str() {
                "Default" => defaults.push((e.at("Extension").ok_or("Default without Extension")?.to_string(), t)),
                "Override" => overrides.push((e.at("PartName").ok_or("Override without PartName")?.to_string(), t)),
                x => return Err(format!("[Content_Types].xml: unknown element {}", x)),
            }
        }
        Ok(Pkg { parts, ct_raw, defaults, overrides, dup_entries })
    }
    pub fn ctype(&self, part: &str) -> Option<&str> {
        let slash = format!("/{}", part);
        if let Some((_, t)) = self.overrides.iter().find(|(p, _)| p.eq_ignore_ascii_case(&slash)) {
            return Some(t);
        }
        let last = part.rsplit('/').next().unwrap();
        let ext = last.rsplit_once('.').map(|x| x.1)?;
        self.defaults.iter().find(|(e, _)| e.eq_ignore_ascii_case(ext)).map(|x| x.1.as_str())
    }
    /// The name of the zip entry of a part; part names ignore the case of ASCII letters
    pub fn real(&self, part: &str) -> String {
        if self.parts.contains_key(part) {
            return part.to_string();
        }
        self.parts.keys().find(|k| k.eq_ignore_ascii_case(part)).cloned().unwrap_or_else(|| part.to_string())
    }
    /// The part a relationship of `source` leads to
    pub fn to(&self, source: &str, target: &str) -> String {
        self.real(&resolve(source, target))
    }
    pub fn xml(&self, part: &str) -> Result<El, String> {
        let b = self.parts.get(&self.real(part)).ok_or(format!("part {} missing", part))?;
        xml::parse(b).map_err(|e| format!("part {} is not well-formed: {}", part, e))
    }
    pub fn rels_of(&self, part: &str) -> Result<Vec<Rel>, String> {
        let rp = self.real(&rels_path(part));
        if !self.parts.contains_key(&rp) {
            return Ok(vec![]);
        }
        self.rels_in(&rp)
    }
    pub fn rels_in(&self, rp: &str) -> Result<Vec<Rel>, String> {
        let e = self.xml(rp)?;
        if e.ns != NS_REL || e.local != "Relationships" {
            return Err(format!("{}: wrong root {{{}}}{}", rp, e.ns, e.local));
        }
        let mut v = vec![];
        for r in e.els() {
            v.push(Rel {
                id: r.at("Id").ok_or(format!("{}: relationship without Id", rp))?.to_string(),
                typ: r.at("Type").ok_or(format!("{}: relationship without Type", rp))?.to_string(),
                target: r.at("Target").ok_or(format!("{}: relationship without Target", rp))?.to_string(),
                external: r.at("TargetMode").map_or(false, |m| m == "External"),
            });
        }
        Ok(v)
    }
    /// Parts reachable from the root relationships
    pub fn reachable(&self) -> BTreeSet<String> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![String::new()];
        while let Some(p) = todo.pop() {
            for r in self.rels_of(&p).unwrap_or_default() {
                if r.external {
                    continue;
                }
                let t = self.to(&p, &r.target);
                if self.parts.contains_key(&t) && seen.insert(t.clone()) {
                    todo.push(t);
                }
            }
        }
        seen
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        write_zip(&self.parts, Some(&self.ct_raw), false)
    }
}

pub fn write_zip(parts: &BTreeMap<String, Vec<u8>>, ct: Option<&[u8]>, stored: bool) -> Vec<u8> {
    let mut z = zip::ZipWriter::new(Cursor::new(Vec::new()));
    let m = if stored { zip::CompressionMethod::Stored } else { zip::CompressionMethod::Deflated };
    let o = zip::write::SimpleFileOptions::default().compression_method(m).compression_level(if stored { None } else { Some(1) });
    if let Some(ct) = ct {
        z.start_file("[Content_Types].xml", o).unwrap();
        z.write_all(ct).unwrap();
    }
    for (n, b) in parts {
        z.start_file(n.as_str(), o).unwrap();
        z.write_all(b).unwrap();
    }
    z.finish().unwrap().into_inner()
}

pub fn rels_path(part: &str) -> String {
    if part.is_empty() {
        return "_rels/.rels".into();
    }
    match part.rsplit_once('/') {
        Some((d, f)) => format!("{}/_rels/{}.rels", d, f),
        None => format!("_rels/{}.rels", part),
    }
}
/// Source part of a relationship part
pub fn rels_source(rp: &str) -> Option<String> {
    if rp.eq_ignore_ascii_case("_rels/.rels") {
        return Some(String::new());
    }
    let cut = |s: &'_ str, end: &str| -> Option<String> {
        let n = s.len().checked_sub(end.len())?;
        if s.is_char_boundary(n) && s[n..].eq_ignore_ascii_case(end) {
            Some(s[..n].to_string())
        } else {
            None
        }
    };
    let (d, f) = rp.rsplit_once('/')?;
    let f = cut(f, ".rels")?;
    if d.eq_ignore_ascii_case("_rels") {
        return Some(f);
    }
    Some(format!("{}/{}", cut(d, "/_rels")?, f))
}
pub fn resolve(source: &str, target: &str) -> String {
    let mut segs: Vec<&str> = vec![];
    if !target.starts_with('/') {
        if let Some((d, _)) = source.rsplit_once('/') {
            segs = d.split('/').collect();
        }
    }
    for s in target.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                segs.pop();
            }
            s => segs.push(s),
        }
    }
    segs.join("/")
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Xlsx,
    Docx,
    Pptx,
}

/// Structural validity of a saved package
pub fn validate(p: &Pkg, kind: Kind) -> Result<(), String> {
    if !p.dup_entries.is_empty() {
        return Err(format!("zip entries not unique: {:?}", p.dup_entries));
    }
    for (what, list) in [("Default", &p.defaults), ("Override", &p.overrides)] {
        let mut s = BTreeSet::new();
        for (k, _) in list {
            if !s.insert(k.to_ascii_lowercase()) {
                return Err(format!("two {} content types for {:?}", what, k));
            }
        }
    }
    for (n, t) in &p.overrides {
        match n.strip_prefix('/') {
            Some(x) if p.parts.contains_key(x) || p.parts.keys().any(|k| k.eq_ignore_ascii_case(x)) => {}
            _ => return Err(format!("content type override {:?} ({}) has no part", n, t)),
        }
    }
    for (n, b) in &p.parts {
        let ct = p.ctype(n).ok_or(format!("part {} has no content type", n))?;
        if ct.ends_with("+xml") || ct.ends_with("/xml") {
            xml::parse(b).map_err(|e| format!("part {} is not well-formed: {}", n, e))?;
        }
        if n.to_ascii_lowercase().ends_with(".rels") {
            let src = rels_source(n).ok_or(format!("relationship part {} in a wrong place", n))?;
            if !src.is_empty() && !p.parts.contains_key(&p.real(&src)) {
                return Err(format!("relationship part {} has no source part", n));
            }
            let rels = p.rels_in(n)?;
            let mut ids = BTreeSet::new();
            for r in &rels {
                if !ids.insert(r.id.clone()) {
                    return Err(format!("{}: relationship id {} twice", n, r.id));
                }
                if !r.external {
                    let t = p.to(&src, &r.target);
                    if !p.parts.contains_key(&t) {
                        return Err(format!("{}: relationship {} targets missing part {}", n, r.id, t));
                    }
                }
            }
        }
    }
    let (want, ok): (&str, fn(&str) -> bool) = match kind {
        Kind::Xlsx => ("spreadsheet", |t| t.contains("spreadsheetml") && t.ends_with("main+xml") || t.contains("ms-excel") && t.ends_with("main+xml")),
        Kind::Docx => ("document", |t| t.contains("wordprocessingml") && t.ends_with("main+xml") || t.contains("ms-word") && t.ends_with("main+xml")),
        Kind::Pptx => ("presentation", |t| t.contains("presentationml") && t.ends_with("main+xml") || t.contains("ms-powerpoint") && t.ends_with("main+xml")),
    };
    let main: Vec<Rel> = p.rels_of("")?.into_iter().filter(|r| r.typ == format!("{}officeDocument", OD)).collect();
    if main.len() != 1 {
        return Err(format!("{} main part relationships in _rels/.rels", main.len()));
    }
    let m = p.to("", &main[0].target);
    let t = p.ctype(&m).unwrap_or("");
    if !ok(t) {
        return Err(format!("main part {} has content type {:?}, not a {} main part", m, t, want));
    }
    Ok(())
}
