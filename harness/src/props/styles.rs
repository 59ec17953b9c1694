//! Resolution of cell formats, C09 and C10.
use crate::book::*;
use crate::hist::*;
use crate::runner::*;
use crate::synth;
use crate::xml::{self, El};
use proptest::strategy::BoxedStrategy;
use std::collections::BTreeMap;

fn list<'a>(root: &'a El, tag: &str, child: &str) -> Vec<&'a El> {
    root.first(tag).map(|e| e.els().filter(|x| x.local == child).collect()).unwrap_or_default()
}
fn num(e: &El, k: &str) -> Result<usize, String> {
    match e.at(k) {
        None => Ok(0),
        Some(x) => x.parse().map_err(|_| format!("{}={:?} in {}", k, x, e.show())),
    }
}
pub fn flag(e: &El, k: &str) -> bool {
    norm_flag(e.at(k), false)
}
/// What a cell format means
#[derive(Clone, Debug, PartialEq)]
pub struct Resolved {
    pub attrs: BTreeMap<(String, String), String>,
    pub kids: Vec<El>,
    pub font: Option<El>,
    pub fill: Option<El>,
    pub border: Option<El>,
    /// code of a custom format, or the builtin id
    pub fmt: Result<String, usize>,
}
const ID_ATTRS: [&str; 4] = ["numFmtId", "fontId", "fillId", "borderId"];

pub fn resolve(root: &El, xf: &El) -> Result<Resolved, String> {
    let get = |tag: &str, child: &str, id: usize| -> Result<Option<El>, String> {
        let l = list(root, tag, child);
        if l.is_empty() && id == 0 {
            return Ok(None);
        }
        l.get(id).map(|e| Some(e.canon())).ok_or(format!("{} {} of {} in {}", tag, id, l.len(), xf.show()))
    };
    let id = num(xf, "numFmtId")?;
    let codes: Vec<&El> = list(root, "numFmts", "numFmt").into_iter().filter(|n| n.at("numFmtId").and_then(|x| x.parse().ok()) == Some(id)).collect();
    if codes.len() > 1 {
        return Err(format!("number format {} defined {} times", id, codes.len()));
    }
    let fmt = match codes.first() {
        Some(n) => Ok(n.at("formatCode").ok_or("number format without code")?.to_string()),
        None => Err(id),
    };
    if fmt.is_err() && id >= 164 {
        return Err(format!("number format {} is not defined: {}", id, xf.show()));
    }
    Ok(Resolved {
        attrs: xf.attrs.iter().filter(|(k, _)| !(k.0.is_empty() && ID_ATTRS.contains(&k.1.as_str()))).map(|(k, v)| (k.clone(), v.clone())).collect(),
        kids: xf.els().map(|e| e.canon()).collect(),
        font: get("fonts", "font", num(xf, "fontId")?)?,
        fill: get("fills", "fill", num(xf, "fillId")?)?,
        border: get("borders", "border", num(xf, "borderId")?)?,
        fmt,
    })
}
const STYLE_ORDER: [&str; 11] = ["numFmts", "fonts", "fills", "borders", "cellStyleXfs", "cellXfs", "cellStyles", "dxfs", "tableStyles", "colors", "extLst"];

/// The whole table is consistent: order, counts, every reference in range
pub fn consistent(root: &El) -> Result<(), String> {
    if root.ns != crate::pkg::NS_MAIN || root.local != "styleSheet" {
        return Err(format!("style part has root {}", root.local));
    }
    let mut at = 0;
    for e in root.els() {
        let i = STYLE_ORDER.iter().position(|x| *x == e.local).ok_or(format!("{} in styleSheet", e.local))?;
        if i + 1 <= at {
            return Err(format!("{} out of order or repeated in styleSheet", e.local));
        }
        at = i + 1;
        if i < 7 {
            if let Some(c) = e.at("count") {
                if c.parse::<usize>().ok() != Some(e.els().count()) {
                    return Err(format!("{} declares count {} and has {}", e.local, c, e.els().count()));
                }
            }
        }
    }
    let base = list(root, "cellStyleXfs", "xf").len();
    for (i, xf) in list(root, "cellXfs", "xf").into_iter().enumerate() {
        resolve(root, xf).map_err(|e| format!("cell format {}: {}", i, e))?;
        if num(xf, "xfId")? >= base && base > 0 {
            return Err(format!("cell format {}: xfId out of {}", i, base));
        }
    }
    for (i, xf) in list(root, "cellStyleXfs", "xf").into_iter().enumerate() {
        resolve(root, xf).map_err(|e| format!("base format {}: {}", i, e))?;
    }
    for s in list(root, "cellStyles", "cellStyle") {
        if num(s, "xfId")? >= base {
            return Err(format!("named style {}: xfId out of {}", s.show(), base));
        }
    }
    Ok(())
}
/// Every style id used in the sheets is in the table
pub fn used_ids(b: &Book) -> Result<(), String> {
    let n = b.styles.as_ref().map_or(0, |r| list(r, "cellXfs", "xf").len()) as u32;
    let ok = |s: u32, what: String| if s < n || s == 0 { Ok(()) } else { Err(format!("{} has style {} of {}", what, s, n)) };
    for r in &b.sheets {
        let sh = b.sheet(&r.name)?;
        for (k, c) in &sh.cells {
            ok(c.s, format!("cell {} of {:?}", cell_name(k.0, k.1), r.name))?;
        }
        for (k, a) in &sh.rows {
            ok(a.get("s").and_then(|x| x.parse().ok()).unwrap_or(0), format!("row {} of {:?}", k, r.name))?;
        }
        for (lo, _, a) in &sh.cols {
            ok(a.get("style").and_then(|x| x.parse().ok()).unwrap_or(0), format!("column {} of {:?}", lo, r.name))?;
        }
    }
    Ok(())
}

fn color_of(e: Option<&El>) -> Option<(String, String)> {
    let e = e?;
    let mut v: Vec<(String, String)> = e.attrs.iter().filter(|(k, v)| k.1 != "tint" || v.parse() != Ok(0.0f64)).map(|(k, v)| (k.1.clone(), v.clone())).collect();
    // the requested color alone: nothing lightens it
    v.sort_by_key(|x| x.0 != "tint");
    v.into_iter().next()
}
fn want_color(c: &Color) -> Option<(String, String)> {
    Some((c.name().to_string(), c.v.clone()))
}
fn on(e: &El, tag: &str) -> bool {
    e.first(tag).map_or(false, |x| norm_flag(x.at("val"), true))
}

/// The format with this id is the one requested
pub fn matches(root: &El, id: u32, r: &StyleReq) -> Result<(), String> {
    let xfs = list(root, "cellXfs", "xf");
    let xf = xfs.get(id as usize).ok_or(format!("id {} of {} formats", id, xfs.len()))?;
    let x = resolve(root, xf)?;
    let bad = |what: &str, got: String| -> Result<(), String> { Err(format!("style id {}, requested {:?}: {} is {}", id, r, what, got)) };
    // number format
    match (&x.fmt, r.custom()) {
        (Ok(code), true) if Some(code) == r.code.as_ref() => {}
        (Err(i), false) if *i == BUILTIN_IDS[r.fmt as usize] as usize => {}
        (f, _) => return bad("number format", format!("{:?}", f)),
    }
    // font
    let f = x.font.clone().ok_or("no font")?;
    let name = f.first("name").and_then(|e| e.at("val")).unwrap_or("");
    if name != r.font {
        return bad("font", format!("{:?}", name));
    }
    let sz = f.first("sz").and_then(|e| e.at("val")).and_then(|v| v.parse::<f64>().ok());
    if sz != Some(r.size as f64) {
        return bad("font size", format!("{:?}", sz));
    }
    for (tag, want) in [("b", r.bold), ("i", r.italic), ("strike", false), ("outline", false), ("shadow", false)] {
        if on(&f, tag) != want {
            return bad(tag, format!("{}", !want));
        }
    }
    let u = f.first("u").map(|e| e.at("val").unwrap_or("single").to_string()).unwrap_or("none".into());
    let want = if r.under { "single" } else if r.dunder { "double" } else { "none" };
    if u != want {
        return bad("underline", u);
    }
    if color_of(f.first("color")) != want_color(&r.color) {
        return bad("text color", format!("{:?}", color_of(f.first("color"))));
    }
    // fill
    let fill = x.fill.clone().ok_or("no fill")?;
    let p = fill.first("patternFill").ok_or("fill without pattern")?;
    let pt = p.at("patternType").unwrap_or("none");
    let rgb = |c: &Option<String>| c.as_ref().map(|c| ("rgb".to_string(), c.clone()));
    if color_of(p.first("fgColor")) != rgb(&r.fg) {
        return bad("fill foreground", format!("{:?}", p.show()));
    }
    if color_of(p.first("bgColor")) != rgb(&r.bg) {
        return bad("fill background", format!("{:?}", p.show()));
    }
    if r.fg.is_some() && pt != "solid" || r.fg.is_none() && r.bg.is_none() && pt != "none" {
        return bad("fill pattern", pt.to_string());
    }
    // border
    let bd = x.border.clone().ok_or("no border")?;
    for (i, side) in ["left", "right", "top", "bottom", "diagonal"].iter().enumerate() {
        let e = bd.first(side);
        let style = e.and_then(|e| e.at("style")).unwrap_or("none");
        let (ws, wc) = match r.borders.get(i) {
            None => ("none", None),
            Some(b) => (BORDER_NAMES[b.style as usize % 14], b.color.as_ref().and_then(want_color)),
        };
        if style != ws {
            return bad(&format!("{} border", side), style.to_string());
        }
        let gc = color_of(e.and_then(|e| e.first("color")));
        if ws != "none" && gc != wc {
            return bad(&format!("{} border color", side), format!("{:?}", gc));
        }
    }
    let drawn = r.borders.get(4).map_or(false, |b| b.style % 14 != 0);
    if !norm_flag(bd.at("outline"), true) || !drawn && (flag(&bd, "diagonalUp") || flag(&bd, "diagonalDown")) {
        return bad("border", bd.show());
    }
    for k in ["quotePrefix", "pivotButton"] {
        if flag(xf, k) {
            return bad(k, "set".into());
        }
    }
    // alignment
    let al = x.kids.iter().find(|k| k.local == "alignment");
    let at = |k: &str| al.and_then(|a| a.at(k)).unwrap_or("");
    let h = if at("horizontal") == "general" { "" } else { at("horizontal") };
    if h != H_NAMES[r.h as usize % 5] {
        return bad("horizontal alignment", at("horizontal").to_string());
    }
    if at("vertical") != V_NAMES[r.v as usize % 4] {
        return bad("vertical alignment", at("vertical").to_string());
    }
    if al.map_or(false, |a| flag(a, "wrapText")) != r.wrap {
        return bad("wrap", format!("{}", !r.wrap));
    }
    if let Some(a) = al {
        for k in a.attrs.keys() {
            if !["horizontal", "vertical", "wrapText"].contains(&k.1.as_str()) {
                return bad("alignment", a.show());
            }
        }
    }
    if let Some(k) = x.kids.iter().find(|k| k.local != "alignment") {
        return bad("format", k.show());
    }
    // what the format sets must be declared as applied
    for (k, need) in [("applyFont", num(xf, "fontId")? != 0), ("applyFill", num(xf, "fillId")? != 0), ("applyBorder", num(xf, "borderId")? != 0), ("applyNumberFormat", num(xf, "numFmtId")? != 0), ("applyAlignment", al.is_some())] {
        if need && !flag(xf, k) {
            return bad(k, "not set".into());
        }
    }
    Ok(())
}
fn norm(r: &StyleReq) -> StyleReq {
    let mut r = r.clone();
    if r.borders.iter().all(|b| b.style % 14 == 0) {
        r.borders = vec![];
    }
    r
}

pub struct C09;
impl Prop for C09 {
    type Case = History;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn quick(&self) -> u32 {
        700
    }
    fn rule(&self) -> &'static str {
        "random style requests (all number formats, fonts, colors, fills, borders, alignments, repeated) and requests with texts that XML cannot hold, which must be refused, in 1 to 3 sessions on new workbooks and workbooks with styles of other producers, with cells, rows and columns that use the ids; every id handed out so far is resolved in each saved file and compared with its request, ids within a session must agree exactly when the requests do, cells, rows and columns are compared with the model; non-trivial: at least 2 different requests, one of them used"
    }
    fn strategy(&self) -> BoxedStrategy<History> {
        near_history(Weights { foreign: 60, sessions: 3, ops: 9, write: 3, row: 1, col: 1, edits: 3, style: 12, full_style: true, sheet: 4, add: 1, delete: 0, rename: 0, handle: 0, bad: 2, ..BASE })
    }
    fn check(&self, h: &History, ctx: &Ctx) -> Verdict {
        let mut done = 0;
        let m = run(h, ctx, CELLS | ROWS | COLS, |m, b, _, _| {
            let root = match &b.styles {
                Some(r) => r,
                None if m.requests.is_empty() => return Ok(()),
                None => return Err("no style part".into()),
            };
            consistent(root)?;
            used_ids(b)?;
            for (r, id) in &m.requests {
                matches(root, *id, r)?;
            }
            // within the session
            let now = &m.requests[done..];
            for (i, (r, id)) in now.iter().enumerate() {
                for (q, jd) in &now[..i] {
                    if (norm(r) == norm(q)) != (id == jd) {
                        return Err(format!("requests {:?} and {:?} got ids {} and {}", q, r, jd, id));
                    }
                }
            }
            done = m.requests.len();
            Ok(())
        })?;
        let mut s = Seen::default();
        super::hp::labels(h, &m, &mut s);
        let distinct = m.requests.iter().enumerate().filter(|(i, r)| m.requests[..*i].iter().all(|q| norm(&q.0) != norm(&r.0))).count();
        s.nontrivial = distinct >= 2 && m.sheets.iter().any(|x| x.cells.values().any(|c| c.s != 0) || !x.rows.is_empty());
        Ok(s)
    }
}

/// The formats of the start are still what they were
pub fn kept(m: &Model, b: &Book) -> Result<(), String> {
    let st = match m.start.as_ref().and_then(|s| s.styles.as_ref()) {
        Some(s) => s,
        None => return Ok(()),
    };
    let now = b.styles.as_ref().ok_or("the style part is gone")?;
    consistent(now)?;
    used_ids(b)?;
    for tag in ["cellXfs", "cellStyleXfs"] {
        let (x, y) = (list(st, tag, "xf"), list(now, tag, "xf"));
        for (i, xf) in x.iter().enumerate() {
            let a = resolve(st, xf)?;
            let c = resolve(now, y.get(i).ok_or(format!("{} {} is gone", tag, i))?).map_err(|e| format!("{} {}: {}", tag, i, e))?;
            if a != c {
                return Err(format!("{} {} was {:?} and resolves to {:?}", tag, i, a, c));
            }
        }
    }
    for e in st.els() {
        if STYLE_ORDER[..6].contains(&e.local.as_str()) {
            continue;
        }
        match now.first(&e.local) {
            None => return Err(format!("{} is gone from the style part", e.local)),
            Some(n) => {
                if let Some(d) = xml::diff(e, n) {
                    return Err(format!("style part: {}", d));
                }
            }
        }
    }
    // number formats that no cell format uses (conditional formats and pivot tables may)
    for n in list(st, "numFmts", "numFmt") {
        if !list(now, "numFmts", "numFmt").iter().any(|x| x.at("numFmtId") == n.at("numFmtId") && x.at("formatCode") == n.at("formatCode")) {
            return Err(format!("number format {} is gone", n.show()));
        }
    }
    Ok(())
}

pub fn c10() -> super::hp::Hp {
    super::hp::Hp {
        id: "C10",
        quick: 590,
        w: Weights { foreign: 100, sessions: 3, ops: 7, write: 3, row: 1, col: 1, edits: 2, style: 10, full_style: true, sheet: 3, add: 1, delete: 0, rename: 0, handle: 0, mix: synth::Mix { sheets: (1, 3), extras: 0, parts: (0, 0), ..synth::PLAIN }, ..BASE },
        asp: CELLS,
        rule: "workbooks with fonts, fills, borders, number formats, cell formats with all flags, alignment and protection, base formats, differential formats, table styles, colors and extensions of other producers; histories with style requests over 1 to 3 sessions; every existing cell format and base format is resolved before and after and compared, other tables are compared as trees; non-trivial: at least 3 existing cell formats and at least one style request",
        nontrivial: |_, m| !m.requests.is_empty() && m.start.as_ref().and_then(|s| s.styles.as_ref()).map_or(false, |s| list(s, "cellXfs", "xf").len() >= 3),
        after: kept,
    }
}
