//! Independent reading of a spreadsheet package.
use crate::pkg::*;
use crate::xml::{El, Node};
use std::collections::BTreeMap;

pub const MAX_ROW: u32 = 1048576;
pub const MAX_COL: u32 = 16384;

pub fn col_name(mut c: u32) -> String {
    let mut s = vec![];
    while c > 0 {
        s.push(b'A' + ((c - 1) % 26) as u8);
        c = (c - 1) / 26;
    }
    s.reverse();
    String::from_utf8(s).unwrap()
}
pub fn cell_name(r: u32, c: u32) -> String {
    format!("{}{}", col_name(c), r)
}
/// Strict canonical A1 reference
pub fn parse_ref(s: &str) -> Option<(u32, u32)> {
    let b = s.as_bytes();
    let n = b.iter().take_while(|c| c.is_ascii_uppercase()).count();
    if n == 0 || n > 3 || n == b.len() || b[n] == b'0' || !b[n..].iter().all(|c| c.is_ascii_digit()) || b.len() - n > 7 {
        return None;
    }
    let mut c = 0u32;
    for x in &b[..n] {
        c = c * 26 + (x - b'A' + 1) as u32;
    }
    let r: u32 = s[n..].parse().ok()?;
    if c <= MAX_COL && r <= MAX_ROW {
        Some((r, c))
    } else {
        None
    }
}

/// Content of a cell as a reader sees it
#[derive(Clone, Debug, PartialEq)]
pub struct CellV {
    /// n b e str inlineStr s
    pub t: String,
    /// raw value, or the text for t = s / inlineStr
    pub val: Option<String>,
    pub f: Option<El>,
    /// entry of the string table / inline element when it is more than plain text
    pub rich: Option<El>,
    pub s: u32,
    /// other attributes and children
    pub other: Vec<String>,
}

pub fn same_num(a: &str, b: &str) -> bool {
    a == b
        || match (a.trim().parse::<f64>(), b.trim().parse::<f64>()) {
            (Ok(x), Ok(y)) => x == y,
            _ => false,
        }
}
impl CellV {
    pub fn same(&self, o: &CellV) -> bool {
        let v = match (&self.val, &o.val) {
            (None, None) => true,
            (Some(a), Some(b)) => a == b || (self.t == "n" && same_num(a, b)),
            _ => false,
        };
        self.t == o.t && v && self.f == o.f && self.rich == o.rich && self.s == o.s && self.other == o.other
    }
    pub fn show(&self) -> String {
        let mut s = format!("[t={} v={:?}", self.t, self.val);
        if let Some(f) = &self.f {
            s.push_str(&format!(" f={}", f.show()))
        }
        if let Some(f) = &self.rich {
            s.push_str(&format!(" rich={}", f.show()))
        }
        if self.s != 0 {
            s.push_str(&format!(" s={}", self.s))
        }
        if !self.other.is_empty() {
            s.push_str(&format!(" other={:?}", self.other))
        }
        s.push(']');
        if s.len() > 900 {
            let mut c = 900;
            while !s.is_char_boundary(c) {
                c -= 1
            }
            s.truncate(c);
        }
        s
    }
}

#[derive(Clone, Debug)]
pub struct SheetRef {
    pub name: String,
    pub sheet_id: String,
    pub rid: String,
    pub state: Option<String>,
    pub part: String,
    pub el: El,
}

#[derive(Clone, Debug)]
pub struct Book {
    pub pkg: Pkg,
    pub wb_part: String,
    pub wb: El,
    pub sheets: Vec<SheetRef>,
    pub sst_part: Option<String>,
    pub sst_el: Option<El>,
    pub sst: Vec<El>,
    pub styles_part: Option<String>,
    pub styles: Option<El>,
}

#[derive(Clone, Debug, Default)]
pub struct Sheet {
    pub root: Option<El>,
    /// row -> attributes except r (normalised)
    pub rows: BTreeMap<u32, BTreeMap<String, String>>,
    pub cells: BTreeMap<(u32, u32), CellV>,
    /// raw col definitions in file order (min, max, normalised attributes)
    pub cols: Vec<(u32, u32, BTreeMap<String, String>)>,
    pub dim: Option<String>,
}

fn norm_bool(v: &str) -> String {
    match v {
        "1" | "true" | "on" => "1".into(),
        "0" | "false" | "off" => "0".into(),
        x => x.into(),
    }
}
pub fn norm_attrs(e: &El, skip: &[&str], bools: &[&str], zero: &[&str]) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for ((ns, l), v) in &e.attrs {
        if ns.is_empty() && skip.contains(&l.as_str()) {
            continue;
        }
        let key = if ns.is_empty() { l.clone() } else { format!("{{{}}}{}", ns, l) };
        let mut v = v.clone();
        if ns.is_empty() && bools.contains(&l.as_str()) {
            v = norm_bool(&v);
            if v == "0" {
                continue;
            }
        }
        if ns.is_empty() && zero.contains(&l.as_str()) && v == "0" {
            continue;
        }
        if ns.is_empty() && (l == "ht" || l == "width") {
            if let Ok(x) = v.parse::<f64>() {
                v = format!("{}", x as f32);
            }
        }
        m.insert(key, v);
    }
    m
}
pub const ROW_BOOLS: [&str; 7] = ["collapsed", "customFormat", "customHeight", "hidden", "thickTop", "thickBot", "ph"];
pub const COL_BOOLS: [&str; 5] = ["hidden", "bestFit", "customWidth", "phonetic", "collapsed"];

/// ST_Xstring: _xHHHH_ stands for a character
pub fn xstring(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = String::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if b[i] == b'_' && i + 6 < b.len() && b[i + 1] == b'x' && b[i + 6] == b'_' && b[i + 2..i + 6].iter().all(|c| c.is_ascii_hexdigit()) {
            if let Some(c) = u32::from_str_radix(&s[i + 2..i + 6], 16).ok().and_then(char::from_u32) {
                o.push(c);
                i += 7;
                continue;
            }
        }
        let c = s[i..].chars().next().unwrap();
        o.push(c);
        i += c.len_utf8();
    }
    o
}
/// The shortest text of a cell that xstring turns into this one
pub fn xstring_of(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.char_indices() {
        o.push(c);
        let t = &s.as_bytes()[i..];
        if t.len() >= 7 && t[0] == b'_' && t[1] == b'x' && t[6] == b'_' && t[2..6].iter().all(|c| c.is_ascii_hexdigit()) {
            o.push_str("x005F_");
        }
    }
    o
}
/// Text of a string item: t, or all runs; phonetic text is not content
pub fn si_text(e: &El) -> String {
    let mut s = String::new();
    for k in e.els() {
        match k.local.as_str() {
            "t" => s.push_str(&xstring(&k.text())),
            "r" => {
                for t in k.all("t") {
                    s.push_str(&xstring(&t.text()))
                }
            }
            _ => {}
        }
    }
    s
}
pub fn si_rich(e: &El) -> Option<El> {
    if e.els().all(|k| k.local == "t") {
        None
    } else {
        let mut c = e.canon();
        c.local = "si".into();
        strip_space(&mut c);
        Some(c)
    }
}
fn strip_space(e: &mut El) {
    e.attrs.retain(|k, _| k.0 != crate::xml::XML_NS);
    for k in e.kids.iter_mut() {
        if let Node::El(x) = k {
            strip_space(x)
        }
    }
}

impl Book {
    pub fn read(path: &str) -> Result<Book, String> {
        Book::from_pkg(Pkg::read(path)?)
    }
    pub fn from_pkg(pkg: Pkg) -> Result<Book, String> {
        let main = pkg
            .rels_of("")?
            .into_iter()
            .find(|r| r.typ == format!("{}officeDocument", OD))
            .ok_or("no main part relationship")?;
        let wb_part = pkg.to("", &main.target);
        let wb = pkg.xml(&wb_part)?;
        if wb.ns != NS_MAIN || wb.local != "workbook" {
            return Err(format!("main part {} is not a workbook but {{{}}}{}", wb_part, wb.ns, wb.local));
        }
        let rels = pkg.rels_of(&wb_part)?;
        let find = |t: &str| rels.iter().find(|r| r.typ == format!("{}{}", OD, t)).map(|r| pkg.to(&wb_part, &r.target));
        let mut sheets = vec![];
        let lists: Vec<&El> = wb.all("sheets").collect();
        if lists.len() > 1 {
            return Err("more than one sheets element".into());
        }
        if let Some(l) = lists.first() {
            for e in l.all("sheet") {
                let rid = e.at_ns(NS_R, "id").ok_or("sheet without r:id")?.to_string();
                let name = e.at("name").ok_or("sheet without name")?.to_string();
                let rel = rels.iter().find(|r| r.id == rid).ok_or(format!("sheet {:?}: no relationship {}", name, rid))?;
                sheets.push(SheetRef {
                    name,
                    sheet_id: e.at("sheetId").ok_or("sheet without sheetId")?.to_string(),
                    rid,
                    state: e.at("state").map(|s| s.to_string()),
                    part: pkg.to(&wb_part, &rel.target),
                    el: e.canon(),
                });
            }
        }
        let sst_part = find("sharedStrings");
        let mut sst_el = None;
        let mut sst = vec![];
        if let Some(p) = &sst_part {
            let e = pkg.xml(p)?;
            if e.ns != NS_MAIN || e.local != "sst" {
                return Err("string table has a wrong root".into());
            }
            sst = e.all("si").cloned().collect();
            sst_el = Some(e);
        }
        let styles_part = find("styles");
        let styles = match &styles_part {
            Some(p) => Some(pkg.xml(p)?),
            None => None,
        };
        Ok(Book { pkg, wb_part, wb, sheets, sst_part, sst_el, sst, styles_part, styles })
    }
    pub fn names(&self) -> Vec<String> {
        self.sheets.iter().map(|s| s.name.clone()).collect()
    }
    pub fn sheet_ref(&self, name: &str) -> Result<&SheetRef, String> {
        self.sheets.iter().find(|s| s.name == name).ok_or(format!("no sheet {:?} in {:?}", name, self.names()))
    }
    pub fn sheet(&self, name: &str) -> Result<Sheet, String> {
        let p = self.sheet_ref(name)?.part.clone();
        self.sheet_part(&p).map_err(|e| format!("sheet {:?}: {}", name, e))
    }
    pub fn sheet_part(&self, part: &str) -> Result<Sheet, String> {
        let root = self.pkg.xml(part)?;
        if root.ns != NS_MAIN || root.local != "worksheet" {
            return Err(format!("{} is not a worksheet", part));
        }
        let mut sh = Sheet::default();
        let dims: Vec<&El> = root.all("dimension").collect();
        if dims.len() > 1 {
            return Err("several dimension elements".into());
        }
        sh.dim = dims.first().and_then(|d| d.at("ref")).map(|s| s.to_string());
        for tag in ["sheetData", "sheetViews"] {
            if root.all(tag).count() > 1 {
                return Err(format!("several {} elements", tag));
            }
        }
        let data = root.first("sheetData").ok_or("no sheetData")?;
        let mut last_row = 0;
        for row in data.els() {
            if row.local != "row" {
                return Err(format!("{} in sheetData", row.local));
            }
            let r: u32 = match row.at("r") {
                Some(x) => x.parse().map_err(|_| format!("row number {:?}", x))?,
                None => last_row + 1,
            };
            if r <= last_row || r > MAX_ROW {
                return Err(format!("row {} after row {}", r, last_row));
            }
            last_row = r;
            sh.rows.insert(r, norm_attrs(row, &["r"], &ROW_BOOLS, &["outlineLevel", "s"]));
            let mut last_col = 0;
            for c in row.els() {
                if c.local != "c" {
                    return Err(format!("{} in row", c.local));
                }
                let col = match c.at("r") {
                    Some(x) => {
                        let (rr, cc) = parse_ref(x).ok_or(format!("cell reference {:?}", x))?;
                        if rr != r {
                            return Err(format!("cell {} in row {}", x, r));
                        }
                        cc
                    }
                    None => last_col + 1,
                };
                if col <= last_col || col > MAX_COL {
                    return Err(format!("cell {} after column {}", cell_name(r, col), last_col));
                }
                last_col = col;
                let v = self.cell(c).map_err(|e| format!("cell {}: {}", cell_name(r, col), e))?;
                sh.cells.insert((r, col), v);
            }
        }
        let mut n = 0;
        for cols in root.all("cols") {
            n += 1;
            if n > 1 {
                return Err("several cols elements".into());
            }
            for c in cols.els() {
                if c.local != "col" {
                    return Err(format!("{} in cols", c.local));
                }
                let g = |k: &str| -> Result<u32, String> {
                    c.at(k).and_then(|x| x.parse().ok()).ok_or(format!("col without {}: {}", k, c.show()))
                };
                sh.cols.push((g("min")?, g("max")?, norm_attrs(c, &["min", "max"], &COL_BOOLS, &["outlineLevel", "style"])));
            }
        }
        sh.root = Some(root);
        Ok(sh)
    }
    pub fn cell(&self, c: &El) -> Result<CellV, String> {
        let t = c.at("t").unwrap_or("n").to_string();
        if !["n", "b", "e", "str", "inlineStr", "s", "d"].contains(&t.as_str()) {
            return Err(format!("type {:?}", t));
        }
        let s = match c.at("s") {
            None => 0,
            Some(x) => x.parse().map_err(|_| format!("style {:?}", x))?,
        };
        let v = c.first("v").map(|e| e.text());
        if c.all("v").count() > 1 || c.all("f").count() > 1 || c.all("is").count() > 1 {
            return Err(format!("repeated child: {}", c.show()));
        }
        let mut rich = None;
        let val = match t.as_str() {
            "s" => match v {
                None => None,
                Some(v) => {
                    let i: usize = v.trim().parse().map_err(|_| format!("string index {:?}", v))?;
                    let si = self.sst.get(i).ok_or(format!("string index {} of {}", i, self.sst.len()))?;
                    rich = si_rich(si);
                    Some(si_text(si))
                }
            },
            "inlineStr" => match c.first("is") {
                None => None,
                Some(is) => {
                    rich = si_rich(is);
                    Some(si_text(is))
                }
            },
            "str" => v.map(|v| xstring(&v)),
            _ => v,
        };
        let mut other = vec![];
        for ((ns, l), v) in &c.attrs {
            if ns.is_empty() && ["r", "s", "t"].contains(&l.as_str()) {
                continue;
            }
            other.push(format!("{}{}={}", ns, l, if l == "ph" { norm_bool(v) } else { v.clone() }));
        }
        for k in c.els() {
            if !["v", "f", "is"].contains(&k.local.as_str()) || (k.local == "is" && t != "inlineStr") {
                other.push(k.canon().show());
            }
        }
        let mut f = c.first("f").map(|f| f.canon());
        if let Some(f) = f.as_mut() {
            f.attrs.retain(|k, _| k.0 != crate::xml::XML_NS);
        }
        Ok(CellV { t, val, f, rich, s, other })
    }
}

pub fn formula_el(text: &str) -> El {
    El {
        ns: NS_MAIN.into(),
        local: "f".into(),
        qname: String::new(),
        attrs: BTreeMap::new(),
        kids: if text.is_empty() { vec![] } else { vec![Node::Text(text.into())] },
    }
}
