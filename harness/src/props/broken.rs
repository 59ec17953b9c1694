//! C29: a sheet that cannot be opened is left exactly as it was
use crate::book::Book;
use crate::hist::*;
use crate::pkg::{self, Pkg, OD};
use crate::runner::*;
use crate::synth::{self, BookSpec};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    spec: BookSpec,
    which: u8,
    how: u8,
    pos: u16,
    sessions: Vec<Vec<Op>>,
}
pub struct C29;

const OTHERS: [(&str, &str, &str); 3] = [
    ("chartsheet", "application/vnd.openxmlformats-officedocument.spreadsheetml.chartsheet+xml", "<chartsheet xmlns=\"http://schemas.openxmlformats.org/spreadsheetml/2006/main\" xmlns:r=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships\"><sheetPr/><sheetViews><sheetView zoomScale=\"85\" workbookViewId=\"0\" zoomToFit=\"1\"/></sheetViews><pageMargins left=\"0.7\" right=\"0.7\" top=\"0.75\" bottom=\"0.75\" header=\"0.3\" footer=\"0.3\"/></chartsheet>"),
    ("dialogsheet", "application/vnd.openxmlformats-officedocument.spreadsheetml.dialogsheet+xml", "<dialogsheet xmlns=\"http://schemas.openxmlformats.org/spreadsheetml/2006/main\"><sheetViews><sheetView showRowColHeaders=\"0\" showZeros=\"0\" workbookViewId=\"0\"/></sheetViews><sheetFormatPr baseColWidth=\"10\" defaultRowHeight=\"15\"/></dialogsheet>"),
    ("xlMacrosheet", "application/vnd.ms-excel.macrosheet+xml", "<xm:macrosheet xmlns=\"http://schemas.openxmlformats.org/spreadsheetml/2006/main\" xmlns:xm=\"http://schemas.microsoft.com/office/excel/2006/main\"><sheetData><row r=\"1\"><c r=\"A1\"><f>HALT()</f></c></row></sheetData></xm:macrosheet>"),
];

/// Replace the n-th occurrence (by share) of a text
fn nth(s: &str, from: &str, to: &str, pos: u16) -> Option<String> {
    let at: Vec<usize> = s.match_indices(from).map(|x| x.0).collect();
    if at.is_empty() {
        return None;
    }
    let i = at[pos as usize % at.len()];
    Some(format!("{}{}{}", &s[..i], to, &s[i + from.len()..]))
}
fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;")
}
/// What stands in the place of the sheet: new content (None: no part), its kind, and whether nobody may take it for a worksheet
fn damage(old: &[u8], how: u8, pos: u16) -> Option<(Option<Vec<u8>>, Option<usize>, bool, &'static str)> {
    let s = String::from_utf8(old.to_vec()).ok()?;
    let text = |x: Option<String>, sure: bool, l: &'static str| x.map(|x| (Some(x.into_bytes()), None, sure, l));
    let root = s.find("<worksheet")?;
    let end = s.rfind("</worksheet>")?;
    match how % 20 {
        k @ 0..=2 => {
            let o = k as usize;
            Some((Some(OTHERS[o].2.as_bytes().to_vec()), Some(o), true, "another kind of sheet"))
        }
        3 => Some((None, None, false, "no part")),
        4 => Some((Some(vec![]), None, true, "empty part")),
        5 => {
            let at = root + 1 + pos as usize % (end - root);
            Some((Some(old[..at].to_vec()), None, true, "cut off"))
        }
        6 => Some((Some((0..pos % 700).map(|i| (i as u32 * 197 + pos as u32 * 31) as u8 | 0x80).collect()), None, true, "not text")),
        7 => {
            let mut b = old.to_vec();
            let at = root + 10 + pos as usize % (end - root - 9);
            b.insert(at, 0xFF);
            Some((Some(b), None, true, "a byte that is no UTF-8"))
        }
        8 => text(nth(&s, "</sheetData>", "</sheetDate>", pos), true, "wrong end tag"),
        9 => text(nth(&s, "</worksheet>", "", pos), true, "not closed"),
        10 => text(nth(&s, "</worksheet>", "</worksheet><worksheet/>", pos), true, "two roots"),
        11 => text(nth(&s, "http://schemas.openxmlformats.org/spreadsheetml/2006/main", "http://example.com/other", pos), false, "other namespace"),
        12 => Some((Some(s.replace("<worksheet", "<notes").replace("</worksheet>", "</notes>").into_bytes()), None, true, "other root")),
        13 => Some((Some(b"<html><body>404</body></html>".to_vec()), None, true, "other document")),
        14 => text(nth(&s, " r=\"", " r=\"?", pos), false, "reference that is none"),
        15 => text(nth(&s, "<row", "<row r=\"0\" ", pos), false, "row 0 or r twice"),
        16 => text(nth(&s, "<row r=\"", "<row r=\"9999999", pos), false, "row beyond the sheet"),
        17 => text(nth(&s, "<col min=\"", "<col min=\"x", pos).or_else(|| nth(&s, " min=\"", " min=\"-", pos)), false, "column that is none"),
        18 => text(nth(&s, "<sheetData", "<sheetData a=\"1\" a=\"2\"", pos), false, "attribute twice"),
        _ => text(nth(&s, "<v>", "<v>&nosuch;", pos), false, "unknown entity"),
    }
}
fn same_but(e: &crate::xml::El, drop: &[&str]) -> crate::xml::El {
    let mut c = e.clone();
    c.attrs.retain(|k, _| !(k.0.is_empty() && drop.contains(&k.1.as_str())));
    c
}

impl Prop for C29 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C29"
    }
    fn quick(&self) -> u32 {
        1400
    }
    fn rule(&self) -> &'static str {
        "a synthetic workbook of 2 to 4 sheets in which one sheet is not a worksheet or is damaged (other sheet kinds, missing, empty, cut off, not text, not well-formed, wrong root, refused values); histories of edits over 1 to 3 sessions that try to open that sheet between edits of the others; non-trivial: an attempt to open it was refused and another sheet was edited in the same history"
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let w = Weights { ops: 6, edits: 3, add: 2, sheet: 10, handle: 2, rename: 1, delete: 1, window: 1, style: 1, ..BASE };
        let mix = synth::Mix { sheets: (2, 4), spell: 0, ..synth::PLAIN };
        (synth::book(mix), any::<u8>(), any::<u8>(), any::<u16>(), vec(vec(op(w), 1..=6), 1..=3))
            .prop_map(|(spec, which, how, pos, sessions)| Case { spec, which, how, pos, sessions })
            .boxed()
    }
    fn check(&self, c: &Case, ctx: &Ctx) -> Verdict {
        let mut seen = Seen { nontrivial: false, labels: vec![] };
        let mut made = synth::build(&c.spec);
        let clean = Book::from_pkg(Pkg::from_bytes(&synth::bytes(&made, &c.spec.lay)).map_err(|e| format!("HARNESS: {}", e))?).map_err(|e| format!("HARNESS: {}", e))?;
        let mut m = Model::load(clean.clone()).map_err(|e| format!("HARNESS: synthetic workbook is not valid: {}", e))?;
        let k = c.which as usize % m.sheets.len();
        let bad = m.sheets[k].uid;
        let part = clean.sheets[k].part.clone();
        let (content, kind, sure, label) = match damage(&made.parts[&part], c.how, c.pos) {
            Some(x) => x,
            None => {
                seen.label("damage: does not fit");
                return Ok(seen);
            }
        };
        seen.label(&format!("damage: {}", label));
        match content {
            Some(b) => made.parts.insert(part.clone(), b),
            None => made.parts.remove(&part),
        };
        if let Some(o) = kind {
            // another kind of sheet has its own relationship and content type
            let rp = clean.pkg.real(&pkg::rels_path(&clean.wb_part));
            let mut x = format!("<Relationships xmlns=\"{}\">", pkg::NS_REL);
            for r in clean.pkg.rels_in(&rp).map_err(|e| format!("HARNESS: {}", e))? {
                let t = if r.id == clean.sheets[k].rid {
                    format!("{}{}", if o == 2 { "http://schemas.microsoft.com/office/2006/relationships/" } else { OD }, OTHERS[o].0)
                } else {
                    r.typ.clone()
                };
                x += &format!("<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{}/>", esc(&r.id), esc(&t), esc(&r.target), if r.external { " TargetMode=\"External\"" } else { "" });
            }
            made.parts.insert(rp, (x + "</Relationships>").into_bytes());
            let mut x = format!("<Types xmlns=\"{}\">", pkg::NS_CT);
            for (e, t) in &clean.pkg.defaults {
                x += &format!("<Default Extension=\"{}\" ContentType=\"{}\"/>", esc(e), esc(t));
            }
            let slash = format!("/{}", part);
            for (p, t) in clean.pkg.overrides.iter().filter(|(p, _)| !p.eq_ignore_ascii_case(&slash)) {
                x += &format!("<Override PartName=\"{}\" ContentType=\"{}\"/>", esc(p), esc(t));
            }
            x += &format!("<Override PartName=\"{}\" ContentType=\"{}\"/></Types>", esc(&slash), OTHERS[o].1);
            made.ct = x.into_bytes();
        }
        let path = ctx.file("src.xlsx");
        std::fs::write(&path, synth::bytes(&made, &c.spec.lay)).map_err(|e| format!("HARNESS: {}", e))?;
        let start = Book::read(&path).map_err(|e| format!("HARNESS: damaged workbook: {}", e))?;
        let rels0 = start.pkg.rels_of(&part).map_err(|e| format!("HARNESS: {}", e))?;
        let rel0 = start.pkg.rels_of(&start.wb_part).unwrap().into_iter().find(|r| r.id == start.sheets[k].rid).unwrap();
        let mut src = path;
        let mut refused = 0u32;
        for (i, ops) in c.sessions.iter().enumerate() {
            let mut s = Session::open(Some(&src)).map_err(|e| format!("session {}: {}", i, e))?;
            for (j, op) in ops.iter().enumerate() {
                let n = m.sheets.len();
                let hit = |sel: u16| m.sheets[sel as usize % n].uid == bad;
                let own = m.sheets.iter().find(|s| s.uid == bad).unwrap().name.clone();
                let attempt = match op {
                    Op::Add { name: Some(x), get, .. } if same_name(x, &own) => Some((x.clone(), *get)),
                    Op::Sheet { sel, get, .. } | Op::Open { sel, get } if hit(*sel) => Some((own.clone(), *get)),
                    Op::Delete(sel) if hit(*sel) => Some((own.clone(), *sel % 2 == 0)),
                    _ => None,
                };
                match attempt {
                    Some((name, get)) => {
                        for g in [get, !get, get] {
                            let ok = if g { s.ex.get_worksheet_mut(name.clone()).is_ok() } else { s.ex.add_sheet_mut(Some(name.clone())).is_ok() };
                            if ok && sure && refused == 0 {
                                return Err(format!("session {}, operation {}: sheet {:?} ({}) was opened", i, j, name, label));
                            }
                            if ok && refused > 0 {
                                return Err(format!("session {}, operation {}: sheet {:?} ({}) was refused before and is opened now", i, j, name, label));
                            }
                            if ok {
                                // the library reads it: nothing to check here
                                seen.label("damage is accepted");
                                return Ok(seen);
                            }
                            refused += 1;
                        }
                    }
                    None => s.step(&mut m, op).map_err(|e| format!("session {}, operation {} (sheet {:?}: {}): {}", i, j, own, label, e))?,
                }
                let l = s.list()?;
                if l != m.names() {
                    return Err(format!("session {}, after operation {} ({:?}): sheets {:?}, expected {:?}", i, j, op, l, m.names()));
                }
            }
            let out = ctx.file(&format!("s{}.xlsx", i));
            let e = |x: String| format!("file saved by session {} (sheet {:?}: {}): {}", i, part, label, x);
            s.save(&out).map_err(e)?;
            let b = Book::read(&out).map_err(e)?;
            if b.names() != m.names() {
                return Err(e(format!("sheets {:?}, expected {:?}", b.names(), m.names())));
            }
            for ms in &m.sheets {
                let r = b.sheet_ref(&ms.name).map_err(e)?;
                if ms.uid != bad {
                    let sh = b.sheet(&ms.name).map_err(e)?;
                    cmp_cells(&ms.cells, &sh.cells).map_err(e)?;
                    cmp_rows(ms, &sh).map_err(e)?;
                    cmp_cols(ms, &sh).map_err(e)?;
                    continue;
                }
                if r.part != part {
                    return Err(e(format!("it is the part {} now", r.part)));
                }
                if b.pkg.parts.get(&part) != start.pkg.parts.get(&part) {
                    return Err(e(format!("its content changed: {:?}", b.pkg.parts.get(&part).map(|x| String::from_utf8_lossy(&x[..x.len().min(300)]).to_string()))));
                }
                if b.pkg.parts.contains_key(&part) && b.pkg.ctype(&part) != start.pkg.ctype(&part) {
                    return Err(e(format!("its content type {:?} became {:?}", start.pkg.ctype(&part), b.pkg.ctype(&part))));
                }
                let rels1 = b.pkg.rels_of(&part).map_err(e)?;
                if rels1 != rels0 {
                    return Err(e(format!("its relationships {:?} became {:?}", rels0, rels1)));
                }
                let rel = b.pkg.rels_of(&b.wb_part).map_err(e)?.into_iter().find(|x| x.id == r.rid).ok_or_else(|| e("no relationship".into()))?;
                if rel.typ != rel0.typ || rel.id != rel0.id {
                    return Err(e(format!("its relationship {:?} became {:?}", rel0, rel)));
                }
                if let Some(d) = crate::xml::diff(&same_but(&start.sheets[k].el, &["name", "state"]), &same_but(&r.el, &["name", "state"])) {
                    return Err(e(format!("its record: {}", d)));
                }
            }
            cmp_window(&m, &b).map_err(e)?;
            // a refused attempt leaves nothing behind
            let mut sheets: BTreeMap<&str, u32> = BTreeMap::new();
            for s in &b.sheets {
                *sheets.entry(&s.part).or_insert(0) += 1;
            }
            if let Some((p, _)) = sheets.iter().find(|x| *x.1 > 1) {
                return Err(e(format!("two sheets in the part {}", p)));
            }
            for p in b.pkg.parts.keys() {
                if b.pkg.ctype(p).map_or(false, |t| t.ends_with(".worksheet+xml")) && !sheets.contains_key(p.as_str()) {
                    return Err(e(format!("worksheet part {} belongs to no sheet", p)));
                }
            }
            src = out;
        }
        let edited = m.sheets.iter().any(|s| s.uid != bad && (!s.written.is_empty() || !s.touched_rows.is_empty()));
        seen.nontrivial = refused > 0 && edited;
        for x in m.ops.keys() {
            seen.label(&format!("op: {}", x));
        }
        seen.label(if refused > 0 { "refused" } else { "not tried" });
        Ok(seen)
    }
}
