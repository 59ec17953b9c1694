//! C18: references and indexes.
use crate::book::*;
use crate::hist::*;
use crate::runner::*;
use draviavemal_openxml_office::spreadsheet_2007::models::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub struct C18;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C18Case {
    /// every column of the row span lo..hi, through references and through indexes
    Sweep { lo: u32, hi: u32, by: u8, rows: Vec<u32> },
    /// writes at given addresses, alternating reference (with letter case) and index
    Points(Vec<(u32, u32, u8)>),
    /// column settings
    Cols(Vec<(u32, u8, u32)>),
}

impl Prop for C18 {
    type Case = C18Case;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn quick(&self) -> u32 {
        2200
    }
    fn rule(&self) -> &'static str {
        "sweeps over spans of columns (each case up to 400 columns, boundaries weighted) and random points written through references (upper, lower, mixed case) and through indexes, and column settings by letter and by number; the file must hold each value at the canonical reference; non-trivial: at least 2 addresses through each way"
    }
    fn strategy(&self) -> BoxedStrategy<C18Case> {
        let lo = prop_oneof![
            2 => 1u32..=16384,
            1 => proptest::sample::select(vec![1u32, 20, 600, 650, 690, 700, 1300, 16000, 16200]),
        ];
        prop_oneof![
            2 => (lo, 1u32..400, 0u8..4, vec(crate::gen::row(), 1..3)).prop_map(|(lo, n, by, rows)| C18Case::Sweep { lo, hi: (lo + n).min(MAX_COL), by, rows }),
            3 => vec((1u32..=MAX_ROW, 1u32..=MAX_COL, 0u8..4), 2..30).prop_map(C18Case::Points),
            3 => vec((crate::gen::row(), crate::gen::col(), 0u8..4), 2..30).prop_map(C18Case::Points),
            2 => vec((crate::gen::col(), 0u8..4, 1u32..200), 2..20).prop_map(C18Case::Cols),
            1 => vec((1u32..=MAX_COL, 0u8..4, 1u32..200), 2..60).prop_map(C18Case::Cols),
        ]
        .boxed()
    }
    fn check(&self, case: &C18Case, ctx: &Ctx) -> Verdict {
        let mut s = Session::open(None)?;
        let mut ws = s.ex.get_worksheet_mut("sheet1".into()).map_err(|e| format!("{:?}", e))?;
        let out = ctx.file("o.xlsx");
        let mut want: BTreeMap<(u32, u32), String> = BTreeMap::new();
        let mut seen = Seen::default();
        let num = |n: String| CellW { v: Some(n), t: Ty::Number, f: None, style: None };
        let mut n = 0u32;
        let mut put = |ws: &mut _, r: u32, c: u32, by: u8, want: &mut BTreeMap<_, _>| -> Result<(), String> {
            n += 1;
            edit_lib(ws, &Edit::Write { row: r, col: c, by, cells: vec![num(n.to_string())] }, &[])?;
            want.insert((r, c), n.to_string());
            Ok(())
        };
        match case {
            C18Case::Sweep { lo, hi, by, rows } => {
                seen.label("sweep");
                for r in rows {
                    for c in *lo..=*hi {
                        // the same address both ways: the second must reach the first
                        put(&mut ws, *r, c, 0, &mut want)?;
                        if c % 3 != 0 {
                            put(&mut ws, *r, c, (*by).max(1), &mut want)?;
                        }
                    }
                }
                seen.nontrivial = hi > lo;
            }
            C18Case::Points(v) => {
                seen.label("points");
                for (r, c, by) in v {
                    put(&mut ws, *r, *c, *by, &mut want)?;
                }
                for (r, c, by) in v.iter().take(v.len() / 2) {
                    put(&mut ws, *r, *c, if *by == 0 { 2 } else { 0 }, &mut want)?;
                }
                seen.nontrivial = v.len() >= 4;
            }
            C18Case::Cols(v) => {
                seen.label("columns");
                let mut m = MSheet::default();
                for (c, by, w) in v {
                    let p = Some(ColW { w: Some(*w as f32), hidden: None, best: None, style: None });
                    let e = Edit::Col { col: *c, by: *by, p };
                    edit_lib(&mut ws, &e, &[])?;
                    edit_model(&mut m, &e, &[], &mut vec![]);
                }
                drop(ws);
                s.save(&out)?;
                let b = Book::read(&out)?;
                cmp_cols(&m, &b.sheet("sheet1")?)?;
                seen.nontrivial = v.iter().any(|x| x.1 == 0) && v.iter().any(|x| x.1 != 0);
                return Ok(seen);
            }
        }
        let _ = CellDataType::Auto;
        drop(ws);
        s.save(&out)?;
        let b = Book::read(&out)?;
        let sh = b.sheet("sheet1")?;
        for (k, v) in &want {
            match sh.cells.get(k) {
                Some(c) if c.val.as_ref() == Some(v) => {}
                x => return Err(format!("cell {} holds {:?}, expected {}", cell_name(k.0, k.1), x.map(|c| c.show()), v)),
            }
        }
        if sh.cells.len() != want.len() {
            return Err(format!("{} cells in the file, {} addresses written", sh.cells.len(), want.len()));
        }
        // the reference in the file is written out, canonical and unique (parse_ref accepts nothing else)
        for row in sh.root.as_ref().unwrap().first("sheetData").unwrap().els() {
            for c in row.els() {
                if c.at("r").is_none() {
                    return Err("cell without reference".into());
                }
            }
        }
        Ok(seen)
    }
}
