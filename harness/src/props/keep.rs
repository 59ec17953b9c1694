//! C08, C20, C21, C22, C28: what existed stays.
use super::hp::Hp;
use super::parts::{canon_rels, core_part, core_same, cycle_doc, PkgCase};
use crate::book::*;
use crate::docs;
use crate::hist::*;
use crate::pkg::*;
use crate::runner::*;
use crate::synth;
use crate::xml::{self, El, Node};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::collections::BTreeSet;

pub const SHEET_ORDER: [&str; 39] = [
    "sheetPr", "dimension", "sheetViews", "sheetFormatPr", "cols", "sheetData", "sheetCalcPr", "sheetProtection", "protectedRanges", "scenarios", "autoFilter", "sortState", "dataConsolidate", "customSheetViews", "mergeCells", "phoneticPr",
    "conditionalFormatting", "dataValidations", "hyperlinks", "printOptions", "pageMargins", "pageSetup", "headerFooter", "rowBreaks", "colBreaks", "customProperties", "cellWatches", "ignoredErrors", "smartTags", "drawing", "legacyDrawing",
    "legacyDrawingHF", "drawingHF", "picture", "oleObjects", "controls", "webPublishItems", "tableParts", "extLst",
];
const MODELLED: [&str; 4] = ["dimension", "sheetViews", "cols", "sheetData"];

pub fn sheet_order(root: &El) -> Result<(), String> {
    let mut at = 0;
    for e in root.els() {
        if e.ns == xml::MC_NS {
            continue;
        }
        let i = SHEET_ORDER.iter().position(|x| *x == e.local).ok_or(format!("unknown element {} in worksheet", e.local))?;
        if i < at {
            return Err(format!("{} stands behind {}", e.local, SHEET_ORDER[at]));
        }
        at = i;
    }
    Ok(())
}
fn others(root: &El) -> Vec<El> {
    root.els().filter(|e| !MODELLED.contains(&e.local.as_str())).map(|e| e.canon()).collect()
}
fn c20_after(m: &Model, b: &Book) -> Result<(), String> {
    let st = m.start.as_ref().unwrap();
    for s in &m.sheets {
        let now = b.pkg.xml(&b.sheet_ref(&s.name)?.part)?;
        let e = |x: String| format!("sheet {:?}: {}", s.name, x);
        sheet_order(&now).map_err(e)?;
        let o = match &s.orig {
            Some(o) => o,
            None => continue,
        };
        let (x, y) = (others(&o.root), others(&now));
        for i in 0..x.len().max(y.len()) {
            match (x.get(i), y.get(i)) {
                (Some(p), Some(q)) => {
                    if let Some(d) = xml::diff(p, q) {
                        return Err(e(d));
                    }
                }
                (Some(p), None) => return Err(e(format!("{} is gone", p.show()))),
                (None, Some(q)) => return Err(e(format!("{} appeared", q.show()))),
                _ => {}
            }
        }
        if o.root.attrs != now.attrs {
            return Err(e(format!("attributes {:?} became {:?}", o.root.attrs, now.attrs)));
        }
        let (p, q) = (canon_rels(&st.pkg, &o.part)?, canon_rels(&b.pkg, &b.sheet_ref(&s.name)?.part)?);
        if p != q {
            return Err(e(format!("relationships {:?} became {:?}", p, q)));
        }
    }
    Ok(())
}
fn opened_orig(m: &Model) -> impl Iterator<Item = &MSheet> {
    m.sheets.iter().filter(|s| s.opened && s.orig.is_some())
}

/// Entries of the calculation chain: sheet id, reference, other attributes
pub type Entry = (String, String, Vec<(String, String)>);
pub fn chain(b: &Book) -> Result<Option<Vec<Entry>>, String> {
    let r = match b.pkg.rels_of(&b.wb_part)?.into_iter().find(|r| r.typ == format!("{}calcChain", OD)) {
        None => return Ok(None),
        Some(r) => r,
    };
    let root = b.pkg.xml(&b.pkg.to(&b.wb_part, &r.target))?;
    let mut v = vec![];
    let mut at = "0".to_string();
    for c in root.els() {
        if c.local != "c" {
            return Err(format!("{} in the calculation chain", c.show()));
        }
        if let Some(i) = c.at("i") {
            at = i.into();
        }
        let rest = c.attrs.iter().filter(|(k, _)| k.1 != "r" && k.1 != "i").map(|(k, v)| (k.1.clone(), v.clone())).collect();
        v.push((at.clone(), c.at("r").ok_or("calculation chain entry without reference")?.to_string(), rest));
    }
    Ok(Some(v))
}
/// Entries stay, in order, as long as their cells have formulas
pub fn chain_after(m: &Model, b: &Book) -> Result<(), String> {
    let old = match m.start.as_ref().map(chain).transpose()?.flatten() {
        None => {
            return match chain(b)? {
                Some(v) if !v.is_empty() => Err("a calculation chain appeared".into()),
                _ => Ok(()),
            }
        }
        Some(v) => v,
    };
    let now = chain(b)?.unwrap_or_default();
    let mut i = 0;
    for e in &old {
        let sheet = m.sheets.iter().find(|s| s.orig.is_some() && s.sheet_id.as_ref() == Some(&e.0));
        let k = parse_ref(&e.1).ok_or(format!("HARNESS: calculation chain entry {:?}", e))?;
        let (may, must) = match sheet {
            None => (false, false),
            Some(s) if s.lost.contains(&k) => (s.cells.get(&k).map_or(false, |c| c.f.is_some()), false),
            Some(_) => (true, true),
        };
        if now.get(i) == Some(e) {
            if !may {
                return Err(format!("calculation chain entry {:?} is there, the cell has no formula any more", e));
            }
            i += 1;
        } else if must {
            return Err(format!("calculation chain entry {:?} is gone or moved; in its place {:?}", e, now.get(i)));
        }
    }
    match now.get(i) {
        None => Ok(()),
        Some(e) => Err(format!("calculation chain entry {:?} was not there or moved", e)),
    }
}
fn c21_after(m: &Model, b: &Book) -> Result<(), String> {
    chain_after(m, b)
}

pub const WORKBOOK_ORDER: [&str; 19] = [
    "fileVersion", "fileSharing", "workbookPr", "workbookProtection", "bookViews", "sheets", "functionGroups", "externalReferences", "definedNames", "calcPr", "oleSize", "customWorkbookViews", "pivotCaches", "smartTagPr", "smartTagTypes",
    "webPublishing", "fileRecoveryPr", "webPublishObjects", "extLst",
];
/// What the workbook part says beside the list of sheets and the first window
fn c30_after(m: &Model, b: &Book) -> Result<(), String> {
    let mut at = 0;
    for e in b.wb.els().filter(|e| e.ns == NS_MAIN) {
        let i = WORKBOOK_ORDER.iter().position(|x| *x == e.local).ok_or(format!("unknown element {} in the workbook", e.show()))?;
        if i < at || i == at && b.wb.all(&e.local).count() > 1 {
            return Err(format!("{} stands behind {} in the workbook", e.local, WORKBOOK_ORDER[at]));
        }
        at = i;
    }
    let st = match &m.start {
        None => return Ok(()),
        Some(s) => s,
    };
    if st.wb.attrs != b.wb.attrs {
        return Err(format!("workbook attributes {:?} became {:?}", st.wb.attrs, b.wb.attrs));
    }
    let rest = |w: &El| -> Vec<El> { w.els().filter(|e| !["sheets", "bookViews", "definedNames"].contains(&e.local.as_str())).map(|e| e.canon()).collect() };
    let (x, y) = (rest(&st.wb), rest(&b.wb));
    for i in 0..x.len().max(y.len()) {
        match (x.get(i), y.get(i)) {
            (Some(p), Some(q)) => {
                if let Some(d) = xml::diff(p, q) {
                    return Err(format!("workbook: {}", d));
                }
            }
            (Some(p), None) => return Err(format!("workbook: {} is gone", p.show())),
            (None, Some(q)) => return Err(format!("workbook: {} appeared", q.show())),
            _ => {}
        }
    }
    // where the sheets of the start are now
    let pos: Vec<Option<usize>> = st.sheets.iter().map(|s| m.sheets.iter().position(|x| x.orig.as_ref().map_or(false, |o| o.part == s.part))).collect();
    // names
    let list = |w: &El| -> Vec<El> { w.all("definedNames").flat_map(|e| e.els()).map(|e| e.canon()).collect() };
    let mut want = vec![];
    for mut e in list(&st.wb) {
        let key = (String::new(), "localSheetId".to_string());
        if let Some(v) = e.attrs.get(&key) {
            let i: usize = v.parse().map_err(|_| format!("HARNESS: localSheetId {:?}", v))?;
            match pos.get(i) {
                // no such sheet: leave it
                None => {}
                Some(None) => continue,
                Some(Some(n)) => {
                    e.attrs.insert(key, n.to_string());
                }
            }
        }
        want.push(e);
    }
    let got = list(&b.wb);
    for i in 0..want.len().max(got.len()) {
        match (want.get(i), got.get(i)) {
            (Some(p), Some(q)) => {
                if let Some(d) = xml::diff(p, q) {
                    return Err(format!("defined name {}: {}", i, d));
                }
            }
            (p, q) => return Err(format!("defined name {}: expected {:?}, found {:?}", i, p.map(|e| e.show()), q.map(|e| e.show()))),
        }
    }
    // windows: children of the first, everything of the others
    let views = |w: &El| -> Vec<El> { w.all("bookViews").flat_map(|e| e.els()).map(|e| e.canon()).collect() };
    let (x, y) = (views(&st.wb), views(&b.wb));
    if y.len() != x.len().max(y.len().min(1)) {
        return Err(format!("{} workbook views became {}", x.len(), y.len()));
    }
    for (i, (p, q)) in x.iter().zip(&y).enumerate() {
        let (mut p, mut q) = (p.clone(), q.clone());
        if i == 0 {
            p.attrs.clear();
            q.attrs.clear();
        } else {
            for k in ["activeTab", "firstSheet"] {
                let key = (String::new(), k.to_string());
                let was: usize = p.attrs.remove(&key).and_then(|v| v.parse().ok()).unwrap_or(0);
                let is: usize = q.attrs.remove(&key).unwrap_or("0".into()).parse().map_err(|_| format!("workbook view {}: {}", i, k))?;
                let want = pos.get(was).copied().flatten();
                if is >= b.sheets.len() || want.map_or(false, |w| w != is && k == "activeTab") {
                    return Err(format!("workbook view {}: {} is {}, it was {} and that sheet is now {:?}", i, k, is, was, want));
                }
            }
        }
        if let Some(d) = xml::diff(&p, &q) {
            return Err(format!("workbook view {}: {}", i, d));
        }
    }
    // records of the sheets
    for s in &m.sheets {
        if let Some(o) = &s.orig {
            let cut = |e: &El| {
                let mut e = e.canon();
                e.attrs.retain(|k, _| !(k.0.is_empty() && (k.1 == "name" || k.1 == "state")));
                e
            };
            if let Some(d) = xml::diff(&cut(&o.el), &cut(&b.sheet_ref(&s.name)?.el)) {
                return Err(format!("record of sheet {:?}: {}", s.name, d));
            }
        }
    }
    // relationships
    let now = canon_rels(&b.pkg, &b.wb_part)?;
    for r in canon_rels(&st.pkg, &st.wb_part)? {
        let gone = m.deleted.iter().any(|d| d.orig.as_ref().map_or(false, |o| o.part == r.2)) || r.1.ends_with("/sharedStrings") || r.1.ends_with("/calcChain");
        if !gone && !now.contains(&r) {
            return Err(format!("workbook relationship {:?} became {:?}", r, now.iter().find(|x| x.0 == r.0)));
        }
    }
    chain_after(m, b)
}

/// Views with boolean attributes normalised
pub fn views(root: &El) -> Option<El> {
    fn norm(e: &mut El) {
        for (k, v) in e.attrs.iter_mut() {
            if k.0.is_empty() && (k.1.starts_with("show") || ["windowProtection", "rightToLeft", "tabSelected", "defaultGridColor", "dataOnly"].contains(&k.1.as_str())) {
                *v = match v.as_str() {
                    "true" => "1".into(),
                    "false" => "0".into(),
                    x => x.into(),
                };
            }
        }
        for k in e.kids.iter_mut() {
            if let Node::El(x) = k {
                norm(x)
            }
        }
    }
    let mut v = root.first("sheetViews")?.canon();
    norm(&mut v);
    Some(v)
}
fn c28_after(m: &Model, b: &Book) -> Result<(), String> {
    for s in &m.sheets {
        let now = b.pkg.xml(&b.sheet_ref(&s.name)?.part)?;
        let n = views(&now);
        let e = |x: String| format!("sheet {:?}: {}", s.name, x);
        match (s.orig.as_ref().and_then(|o| views(&o.root)), n) {
            (Some(x), Some(y)) => {
                if let Some(d) = xml::diff(&x, &y) {
                    return Err(e(d));
                }
            }
            (Some(_), None) => return Err(e("the views are gone".into())),
            (None, Some(y)) => {
                let v: Vec<&El> = y.els().collect();
                if v.len() > 1 || v.iter().any(|v| v.els().count() > 0 || v.attrs.keys().any(|k| k.1 != "workbookViewId" && k.1 != "tabSelected")) {
                    return Err(e(format!("views {} were never there", y.show())));
                }
            }
            (None, None) => {}
        }
    }
    Ok(())
}

fn c31_after(m: &Model, b: &Book) -> Result<(), String> {
    c20_after(m, b)?;
    c28_after(m, b)?;
    c30_after(m, b)
}

pub fn get(id: &str) -> Option<Hp> {
    Some(match id {
        "C20" => Hp {
            id: "C20",
            quick: 530,
            w: Weights { foreign: 100, sessions: 3, ops: 4, write: 4, row: 2, col: 2, edits: 4, sheet: 10, add: 1, delete: 1, rename: 1, style: 1, handle: 1, mix: synth::Mix { sheets: (1, 3), extras: 2, parts: (0, 1), ..synth::PLAIN }, ..BASE },
            asp: 0,
            rule: "sheets with random subsets of 34 kinds of elements that the library does not edit (with relationships where they need them), opened and edited in 1 to 3 sessions; the unmodelled children are compared as a sequence of trees, the children must stand in schema order, the relationships of the sheet must be the same; non-trivial: an opened sheet has at least 3 such elements",
            nontrivial: |_, m| opened_orig(m).any(|s| others(&s.orig.as_ref().unwrap().root).len() >= 3),
            after: c20_after,
        },
        "C21" => Hp {
            id: "C21",
            quick: 840,
            w: Weights { foreign: 100, sessions: 2, ops: 4, write: 6, row: 1, col: 1, edits: 3, sheet: 10, add: 1, delete: 0, rename: 0, style: 1, handle: 1, mix: synth::Mix { sheets: (1, 3), extras: 0, parts: (0, 0), ..synth::PLAIN }, ..BASE },
            asp: CELLS | ROWS,
            rule: "sheets of other producers with all kinds of cells (shared, inline and rich strings, errors, booleans, shared, array and data table formulas, metadata attributes, implicit positions) are opened and other cells are written; every cell, its formula element, style and attributes, every row and the calculation chain are compared; non-trivial: an opened sheet has at least 3 untouched cells, one of them with a formula or rich text",
            nontrivial: |_, m| {
                opened_orig(m).any(|s| {
                    let v: Vec<_> = s.cells.iter().filter(|(k, _)| !s.written.contains(k)).collect();
                    v.len() >= 3 && v.iter().any(|c| c.1.f.is_some() || c.1.rich.is_some())
                })
            },
            after: c21_after,
        },
        "C30" => Hp {
            id: "C30",
            quick: 1000,
            w: Weights { foreign: 100, sessions: 3, ops: 7, write: 4, row: 0, col: 0, edits: 2, sheet: 3, add: 3, delete: 4, rename: 2, style: 1, handle: 1, window: 2, mix: synth::Mix { sheets: (1, 6), extras: 0, parts: (0, 0), ..synth::PLAIN }, ..BASE },
            asp: 0,
            rule: "workbooks with random subsets of 15 kinds of records (properties, protection, sharing, names of the workbook and of single sheets, calculation settings and chain, external references, pivot caches, several windows, custom views, extensions), histories that add, rename and delete sheets, set the window and overwrite formulas; the records are compared as trees with the places of the sheets translated; non-trivial: a sheet was added or deleted and the workbook has names of single sheets, a second window or a calculation chain",
            nontrivial: |_, m| {
                let st = m.start.as_ref().unwrap();
                count(m, "add") + count(m, "delete") > 0
                    && (st.wb.all("definedNames").flat_map(|e| e.els()).any(|e| e.at("localSheetId").is_some()) || st.wb.all("bookViews").any(|v| v.els().count() > 1) || chain(st).ok().flatten().is_some())
            },
            after: c30_after,
        },
        "C31" => Hp {
            id: "C31",
            quick: 700,
            w: Weights { foreign: 100, sessions: 2, ops: 5, write: 6, row: 2, col: 2, edits: 3, sheet: 8, add: 2, delete: 1, rename: 1, style: 1, handle: 1, window: 1, mix: synth::Mix { sheets: (1, 4), extras: 2, parts: (0, 1), spell: 100 }, ..BASE },
            asp: CELLS | ROWS | COLS | NAMES | WINDOW | DIM | OPC,
            rule: "workbooks whose parts are written in another spelling of the same XML (prefix on the main namespace, other or locally declared prefix for relationships, quotes, white space in tags, attribute order, character references, CDATA sections, comments and instructions between elements and inside text, empty elements as tag pairs, UTF-16 in both byte orders, zip entries in other letter case); histories with all kinds of operations; the result must be what the model says, as for the plain spelling; non-trivial: the spelling differs and at least 2 operations took effect",
            nontrivial: |h, m| matches!(&h.start, Start::Foreign(b) if b.lay.spell.0 != 0) && m.ops.values().sum::<u32>() >= 2,
            after: c31_after,
        },
        "C28" => Hp {
            id: "C28",
            quick: 970,
            w: Weights { foreign: 90, sessions: 3, ops: 4, write: 3, row: 1, col: 1, edits: 2, sheet: 10, add: 1, delete: 0, rename: 1, style: 0, handle: 1, window: 1, mix: synth::Mix { sheets: (1, 3), extras: 1, parts: (0, 0), ..synth::PLAIN }, ..BASE },
            asp: 0,
            rule: "sheets with 0 to 2 views with random attributes in all boolean spellings, panes, selections, pivot selections and extensions, opened and edited in 1 to 3 sessions; the views are compared as trees with normalised booleans; non-trivial: an opened sheet has views with at least 2 attributes or a child",
            nontrivial: |_, m| opened_orig(m).any(|s| views(&s.orig.as_ref().unwrap().root).map_or(false, |v| v.els().any(|e| e.attrs.len() >= 3 || e.els().count() > 0))),
            after: c28_after,
        },
        _ => return None,
    })
}

// ------------------------------------------------------------------ C08

pub struct C08;
impl Prop for C08 {
    type Case = History;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn quick(&self) -> u32 {
        720
    }
    fn rule(&self) -> &'static str {
        "workbooks with string tables of plain, rich, phonetic, empty and duplicate entries (and new ones); sessions that write texts, existing and new, repeatedly, on several sheets; the entries that were there must be the same trees at the same indexes, new entries are texts that were written, each once, the declared counts fit, cells are compared with the model; non-trivial: at least one existing entry and one appended"
    }
    fn strategy(&self) -> BoxedStrategy<History> {
        history(Weights { foreign: 80, sessions: 3, ops: 5, write: 10, row: 0, col: 0, edits: 4, sheet: 8, add: 1, delete: 1, rename: 0, style: 0, handle: 1, mix: synth::Mix { sheets: (1, 3), extras: 0, parts: (0, 0), ..synth::PLAIN }, ..BASE })
    }
    fn check(&self, h: &History, ctx: &Ctx) -> Verdict {
        let mut prev: Option<(Vec<El>, El)> = None;
        let mut appended = 0;
        let m = run(h, ctx, CELLS, |m, b, i, _| {
            if i == 0 {
                if let Some(st) = &m.start {
                    if let Some(e) = &st.sst_el {
                        prev = Some((st.sst.clone(), e.clone()));
                    }
                }
            }
            let old: &[El] = prev.as_ref().map_or(&[], |p| &p.0);
            let plain = |e: &El| -> Option<String> {
                let k: Vec<&El> = e.els().collect();
                if k.len() == 1 && k[0].local == "t" {
                    Some(k[0].text())
                } else {
                    None
                }
            };
            for (i, e) in old.iter().enumerate() {
                match b.sst.get(i) {
                    None => return Err(format!("string {} ({}) is gone", i, e.show())),
                    Some(n) => {
                        if let Some(d) = xml::diff(e, n) {
                            return Err(format!("string {}: {}", i, d));
                        }
                    }
                }
            }
            let mut have: BTreeSet<String> = old.iter().filter_map(|e| plain(e)).collect();
            for (i, e) in b.sst.iter().enumerate().skip(old.len()) {
                let t = plain(e).ok_or(format!("appended string {} is not plain: {}", i, e.show()))?;
                if !m.shared.contains(&crate::book::xstring(&t)) {
                    return Err(format!("string {} {:?} was never written", i, t));
                }
                if !have.insert(t.clone()) {
                    return Err(format!("string {} {:?} is in the table already", i, t));
                }
                appended += 1;
            }
            if let Some(e) = &b.sst_el {
                let get = |e: &El, k: &str| -> Result<Option<u64>, String> {
                    e.at(k).map(|x| x.parse().map_err(|_| format!("string table {}={:?}", k, x))).transpose()
                };
                if let Some(u) = get(e, "uniqueCount")? {
                    if u != b.sst.len() as u64 {
                        return Err(format!("uniqueCount {} with {} strings", u, b.sst.len()));
                    }
                }
                let base = match &prev {
                    Some((_, p)) => get(p, "count")?.unwrap_or(0),
                    None => 0,
                };
                let want = base + (b.sst.len() - old.len()) as u64;
                if let Some(c) = get(e, "count")? {
                    if c < want {
                        return Err(format!("count {}, at least {} expected", c, want));
                    }
                }
                if let Some((_, p)) = &prev {
                    for (k, v) in &p.attrs {
                        if k.1 != "count" && k.1 != "uniqueCount" && e.attrs.get(k) != Some(v) {
                            return Err(format!("string table attribute {:?} was {:?}", k, v));
                        }
                    }
                    for x in p.els().filter(|x| x.local != "si") {
                        match e.first(&x.local) {
                            Some(y) if xml::diff(x, y).is_none() => {}
                            y => return Err(format!("string table: {} became {:?}", x.show(), y.map(|y| y.show()))),
                        }
                    }
                }
                prev = Some((b.sst.clone(), e.clone()));
            } else {
                // an empty table is dropped
                prev = None;
            }
            Ok(())
        })?;
        let mut s = Seen::default();
        super::hp::labels(h, &m, &mut s);
        s.nontrivial = appended > 0 && (m.start.as_ref().map_or(false, |b| !b.sst.is_empty()) || h.sessions.len() > 1);
        Ok(s)
    }
}

// ------------------------------------------------------------------ C22

pub struct C22;

/// Seconds since 1970 of a UTC timestamp in the W3CDTF form
pub fn utc(s: &str) -> Result<f64, String> {
    let bad = || format!("{:?} is not a UTC timestamp", s);
    let b = s.as_bytes();
    if b.len() < 20 || b[b.len() - 1] != b'Z' || b[4] != b'-' || b[7] != b'-' || b[10] != b'T' || b[13] != b':' || b[16] != b':' {
        return Err(bad());
    }
    let n = |a: usize, z: usize| -> Result<i64, String> {
        if b[a..z].iter().all(|c| c.is_ascii_digit()) {
            s[a..z].parse().map_err(|_| bad())
        } else {
            Err(bad())
        }
    };
    let (y, mo, d, h, mi, se) = (n(0, 4)?, n(5, 7)?, n(8, 10)?, n(11, 13)?, n(14, 16)?, n(17, 19)?);
    let mut f = 0.0;
    if b.len() > 20 {
        if b[19] != b'.' || b.len() == 21 || !b[20..b.len() - 1].iter().all(|c| c.is_ascii_digit()) {
            return Err(bad());
        }
        f = format!("0.{}", &s[20..s.len() - 1]).parse().map_err(|_| bad())?;
    }
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let len = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if !(1..=12).contains(&mo) || d < 1 || d > len[mo as usize - 1] || h > 23 || mi > 59 || se > 60 {
        return Err(bad());
    }
    // days from civil
    let yy = if mo <= 2 { y - 1 } else { y };
    let era = yy.div_euclid(400);
    let yoe = yy - era * 400;
    let doy = (153 * (mo + if mo > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    let days = era * 146097 + doe - 719468;
    Ok((days * 86400 + h * 3600 + mi * 60 + se) as f64 + f)
}
fn now() -> f64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64()
}
const DCT: &str = "http://purl.org/dc/terms/";
/// Compare the core properties of a source (if any) with the saved ones
fn core_times(before: Option<&Pkg>, after: &Pkg, t0: f64, t1: f64) -> Result<(), String> {
    let part = core_part(after)?.ok_or("no core properties in the saved file")?;
    let e = after.xml(&part)?;
    let old = match before {
        Some(p) => match core_part(p)? {
            Some(c) => Some(p.xml(&c)?),
            None => None,
        },
        None => None,
    };
    if let Some(o) = &old {
        core_same(o, &e)?;
    }
    let one = |e: &El, k: &str| -> Result<Option<El>, String> {
        let v: Vec<El> = e.els().filter(|x| x.local == k && x.ns == DCT).cloned().collect();
        if v.len() > 1 {
            return Err(format!("{} elements {}", v.len(), k));
        }
        Ok(v.into_iter().next())
    };
    let within = |t: &str, what: &str| -> Result<(), String> {
        let x = utc(t).map_err(|m| format!("{} time: {}", what, m))?;
        if x < t0 - 2.0 || x > t1 + 2.0 {
            return Err(format!("{} time {} is {} s off", what, t, x - t0));
        }
        Ok(())
    };
    let md = one(&e, "modified")?.ok_or("no modification time")?;
    within(&md.text(), "modification")?;
    let cr = one(&e, "created")?.ok_or("no creation time")?;
    let was = match &old {
        Some(o) => one(o, "created")?.map(|x| x.text()).filter(|t| !t.trim().is_empty()),
        None => None,
    };
    match was {
        Some(t) => {
            if cr.text() != t {
                return Err(format!("creation time {} became {}", t, cr.text()));
            }
        }
        None => within(&cr.text(), "creation")?,
    }
    for x in [&md, &cr] {
        if x.at_ns(xml::XSI_NS, "type") != Some("dcterms:W3CDTF") {
            return Err(format!("{} has type {:?}", x.local, x.at_ns(xml::XSI_NS, "type")));
        }
    }
    Ok(())
}

impl Prop for C22 {
    type Case = PkgCase;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn quick(&self) -> u32 {
        1240
    }
    fn rule(&self) -> &'static str {
        "new workbooks, synthetic workbooks, documents and presentations with random core properties (13 fields, missing, empty and present times in several forms, part in several places, or none), saved in 1 to 3 sessions; times are parsed and compared with the clock, other fields as trees; non-trivial: the source has core properties with at least 2 fields"
    }
    fn strategy(&self) -> BoxedStrategy<PkgCase> {
        let w = Weights { foreign: 80, sessions: 3, ops: 2, sheet: 2, add: 1, edits: 1, delete: 0, handle: 0, mix: synth::Mix { sheets: (1, 1), extras: 0, parts: (0, 0), ..synth::PLAIN }, ..BASE };
        prop_oneof![2 => history(w).prop_map(PkgCase::Book), 1 => (docs::doc(), 1u8..4).prop_map(|(d, n)| PkgCase::Doc(d, n))].boxed()
    }
    fn check(&self, case: &PkgCase, ctx: &Ctx) -> Verdict {
        let mut s = Seen::default();
        let fields = |p: &Pkg| -> usize { core_part(p).ok().flatten().and_then(|c| p.xml(&c).ok()).map_or(0, |e| e.els().count()) };
        match case {
            PkgCase::Doc(d, n) => {
                let mut from = ctx.file("src.bin");
                std::fs::write(&from, d.bytes()).map_err(|e| format!("HARNESS: {}", e))?;
                let mut prev = Pkg::read(&from).map_err(|e| format!("HARNESS: {}", e))?;
                s.nontrivial = fields(&prev) >= 2;
                for i in 0..*n {
                    let out = ctx.file(&format!("d{}", i));
                    let t0 = now();
                    cycle_doc(d.pptx, &from, &out)?;
                    let t1 = now();
                    let b = Pkg::read(&out)?;
                    core_times(Some(&prev), &b, t0, t1).map_err(|e| format!("round {}: {}", i, e))?;
                    prev = b;
                    from = out;
                }
                s.label("document or presentation");
            }
            PkgCase::Book(h) => {
                let mut prev: Option<Pkg> = None;
                let mut t0 = now();
                let mut first = true;
                let m = run(h, ctx, 0, |m, b, _, _| {
                    if first {
                        prev = m.start.as_ref().map(|b| b.pkg.clone());
                        first = false;
                    }
                    let t1 = now();
                    core_times(prev.as_ref(), &b.pkg, t0, t1)?;
                    prev = Some(b.pkg.clone());
                    t0 = t1;
                    Ok(())
                })?;
                super::hp::labels(h, &m, &mut s);
                s.nontrivial = m.start.as_ref().map_or(h.sessions.len() > 1, |b| fields(&b.pkg) >= 2);
            }
        }
        Ok(s)
    }
}
