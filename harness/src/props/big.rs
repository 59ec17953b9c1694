//! Size: workbooks with many sheets, texts, styles, rows, columns, parts or very long texts behave as small ones.
use super::styles;
use crate::book::*;
use crate::hist::*;
use crate::runner::*;
use crate::synth::{self, BookSpec, CellKind, CellSpec, RowSpec, Sst};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub start: BigStart,
    pub sessions: Vec<Vec<Bulk>>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum BigStart {
    New,
    Foreign(Box<BookSpec>, Blow),
}
/// Sizes a workbook of another producer is blown up to
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Blow {
    pub texts: u32,
    pub sheets: u32,
    pub rows: u32,
    pub cells: u32,
    pub formats: u32,
    pub parts: u32,
    /// fonts, fills and borders, or few other formats
    #[serde(default)]
    pub records: (u32, u32, u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Bulk {
    /// n sheets; every k-th gets a cell
    Sheets { n: u32, every: u32 },
    /// n texts, `distinct` of them different
    Texts { sheet: u16, n: u32, distinct: u32, wide: u32, ty: Ty },
    /// n requests for formats, all different in the given respect
    Styles { n: u32, kind: u8, used: bool },
    /// a cell in each of n rows
    Rows { sheet: u16, from: u32, step: u32, n: u32, down: bool },
    /// one write of n cells
    Wide { sheet: u16, row: u32, from: u32, n: u32 },
    /// n writes of one cell each to one row, in scattered order
    Scatter { sheet: u16, row: u32, n: u32 },
    /// settings of n columns
    Cols { sheet: u16, step: u32, n: u32, down: bool },
    /// settings of n rows
    RowProps { sheet: u16, step: u32, n: u32, down: bool },
    /// a text of n units
    Long { sheet: u16, unit: String, n: u32, ty: Ty },
    /// n sheets open at the same time, each gets a cell
    Handles { n: u32 },
    /// delete n sheets, every k-th
    Delete { n: u32, every: u16 },
    /// rename a sheet n times
    Renames { sheet: u16, n: u32 },
    /// the same cell overwritten n times
    Again { sheet: u16, n: u32 },
    Ops(Vec<Op>),
}

fn num(v: u32) -> CellW {
    CellW { v: Some(v.to_string()), t: Ty::Number, f: None, style: if v % 7 == 3 { Some((v % 65521) as u16) } else { None } }
}
fn text(i: u32, ty: Ty) -> CellW {
    CellW { v: Some(format!("text {} of <many> & {}", i, i % 13)), t: ty, f: None, style: None }
}
fn write(row: u32, col: u32, cells: Vec<CellW>) -> Edit {
    Edit::Write { row, col, by: (row % 2) as u8, cells }
}
fn style(i: u32, kind: u8) -> StyleReq {
    let mut s = StyleReq::plain();
    match kind % 6 {
        0 => {
            s.fmt = 40;
            s.code = Some(format!("0.0\"n{}\"", i));
        }
        1 => {
            s.size = (i % 250 + 1) as u8;
            s.bold = i / 250 % 2 == 1;
            s.italic = i / 500 % 2 == 1;
        }
        2 => s.fg = Some(format!("FF{:06X}", i * 31 + 1)),
        3 => {
            let c = Color { k: 1, v: format!("FF{:06X}", i * 17) };
            s.borders = (0..5).map(|k| Bd { style: if k == 0 || i >> k & 1 == 1 { 1 + (i % 13) as u8 } else { 0 }, color: if k == 0 { Some(c.clone()) } else { None } }).collect();
        }
        4 => {
            // combinations of few fonts, fills and alignments
            s.h = (i % 5) as u8;
            s.v = (i / 5 % 4) as u8;
            s.wrap = i / 20 % 2 == 1;
            s.fmt = (i / 40 % 36) as u8;
            s.bold = i / 1440 % 2 == 1;
        }
        _ => {
            s.font = format!("Font {}", i);
            s.color = Color { k: 1, v: format!("FF{:06X}", i) };
        }
    }
    s
}
fn count_to(n: u32, down: bool) -> Box<dyn Iterator<Item = u32>> {
    if down {
        Box::new((0..n).rev())
    } else {
        Box::new(0..n)
    }
}

impl Bulk {
    pub fn ops(&self, uniq: &mut u32) -> Vec<Op> {
        *uniq += 1;
        let u = *uniq;
        match self {
            Bulk::Ops(v) => v.clone(),
            Bulk::Sheets { n, every } => (0..*n)
                .map(|i| Op::Add {
                    name: if i % 3 == 2 { None } else { Some(format!("Many {} {}", u, i)) },
                    get: i % 2 == 0,
                    keep: i % 7 == 1,
                    edits: if *every > 0 && i % every == 0 { vec![write(1 + i, 1 + i % 40, vec![num(i), text(i, Ty::Share)])] } else { vec![] },
                })
                .collect(),
            Bulk::Texts { sheet, n, distinct, wide, ty } => {
                let wide = (*wide).clamp(1, 200);
                let edits = (0..n.div_ceil(wide))
                    .map(|r| write(1 + r, 1, (r * wide..((r + 1) * wide).min(*n)).map(|i| text(i % (*distinct).max(1), *ty)).collect()))
                    .collect();
                vec![Op::Sheet { sel: *sheet, get: true, edits }]
            }
            Bulk::Styles { n, kind, used } => {
                let mut v: Vec<Op> = (0..*n).map(|i| Op::Style(style(i, *kind))).collect();
                if *used {
                    let edits = (0..*n).map(|i| write(1 + i, 3, vec![CellW { v: Some("1".into()), t: Ty::Number, f: None, style: Some(i as u16) }])).collect();
                    v.push(Op::Sheet { sel: 0, get: true, edits });
                }
                // the same requests again
                v.extend((0..n / 2).map(|i| Op::Style(style(i * 2, *kind))));
                v
            }
            Bulk::Rows { sheet, from, step, n, down } => {
                let step = (*step).max(1);
                let edits = count_to(*n, *down).map(|i| from.saturating_add(i * step)).filter(|r| (1..=MAX_ROW).contains(r)).map(|r| write(r, 1 + r % 5, vec![num(r)])).collect();
                vec![Op::Sheet { sel: *sheet, get: true, edits }]
            }
            Bulk::Wide { sheet, row, from, n } => {
                let n = (*n).min(MAX_COL - from + 1);
                let cells = (0..n).map(|i| if i % 5 == 4 { text(i % 50, Ty::Auto) } else { num(i) }).collect();
                vec![Op::Sheet { sel: *sheet, get: true, edits: vec![write(*row, *from, cells)] }]
            }
            Bulk::Scatter { sheet, row, n } => {
                let n = (*n).clamp(1, MAX_COL);
                // 7919 is prime and larger than no range used here divides
                let edits = (0..n).map(|i| write(*row, 1 + (i as u64 * 7919 % n as u64) as u32, vec![num(i)])).collect();
                vec![Op::Sheet { sel: *sheet, get: true, edits }]
            }
            Bulk::Cols { sheet, step, n, down } => {
                let step = (*step).max(1);
                let edits = count_to(*n, *down)
                    .map(|i| 1 + i * step)
                    .filter(|c| *c <= MAX_COL)
                    .map(|c| Edit::Col { col: c, by: (c % 3) as u8, p: if c % 11 == 10 { None } else { Some(ColW { w: Some((c % 250) as f32 + 0.5), hidden: if c % 4 == 0 { Some(true) } else { None }, best: None, style: Some((c % 9) as u16) }) } })
                    .collect();
                vec![Op::Sheet { sel: *sheet, get: true, edits }]
            }
            Bulk::RowProps { sheet, step, n, down } => {
                let step = (*step).max(1);
                let edits = count_to(*n, *down)
                    .map(|i| 1 + i * step)
                    .filter(|r| *r <= MAX_ROW)
                    .map(|r| Edit::Row { row: r, p: RowW { h: Some((r % 400) as f32 + 0.25), hidden: if r % 4 == 0 { Some(true) } else { None }, top: None, bottom: Some(r % 3 == 0), style: Some((r % 9) as u16) } })
                    .collect();
                vec![Op::Sheet { sel: *sheet, get: true, edits }]
            }
            Bulk::Long { sheet, unit, n, ty } => {
                let v: String = unit.chars().cycle().take(if unit.is_empty() { 0 } else { *n as usize }).collect();
                vec![Op::Sheet { sel: *sheet, get: true, edits: vec![write(2, 2, vec![CellW { v: Some(v), t: *ty, f: None, style: None }])] }]
            }
            Bulk::Handles { n } => {
                let mut v: Vec<Op> = vec![];
                v.extend((0..*n).map(|i| Op::Open { sel: i as u16, get: true }));
                v.extend((0..*n).rev().map(|i| Op::On { slot: i as u16, edits: vec![write(4, 1 + i % 100, vec![num(i), text(i, Ty::Auto)])] }));
                v.extend((0..*n / 2).map(|i| Op::Close(i as u16 * 3)));
                v
            }
            Bulk::Delete { n, every } => {
                let mut v = Bulk::Sheets { n: *n / 2, every: 3 }.ops(uniq);
                v.extend((0..*n).map(|i| Op::Delete(i as u16 * *every)));
                v
            }
            Bulk::Renames { sheet, n } => (0..*n).map(|i| Op::Rename { sel: *sheet, to: format!("Name {} {}", u, i) }).collect(),
            Bulk::Again { sheet, n } => {
                let edits = (0..*n).map(|i| write(3, 3, vec![if i % 2 == 0 { text(i, Ty::Share) } else { num(i) }])).collect();
                vec![Op::Sheet { sel: *sheet, get: true, edits }]
            }
        }
    }
}

/// The same workbook, larger
pub fn blow(spec: &BookSpec, b: &Blow) -> BookSpec {
    let mut s = spec.clone();
    if b.texts > 0 {
        s.has_sst = true;
        let base = if s.sst.is_empty() { vec![Sst::Plain("a".into())] } else { s.sst.clone() };
        s.sst = (0..b.texts)
            .map(|i| match &base[i as usize % base.len()] {
                Sst::Plain(t) => Sst::Plain(format!("{}{}", t, i)),
                x => x.clone(),
            })
            .collect();
        for (k, r) in s.sheets.iter_mut().flat_map(|x| x.rows.iter_mut()).enumerate() {
            for c in r.cells.iter_mut() {
                if let CellKind::Sst(i) = &mut c.kind {
                    // low and high positions
                    *i = if k % 2 == 0 { b.texts - 1 - *i % b.texts } else { *i % b.texts };
                }
            }
        }
    }
    if b.rows > 0 || b.cells > 0 {
        let sh = &mut s.sheets[0];
        let last = sh.rows.iter().map(|r| r.r).max().unwrap_or(0);
        let n = b.rows.min(MAX_ROW.saturating_sub(last + 1));
        for i in 0..n {
            let kind = match i % 4 {
                0 => CellKind::Num(i.to_string(), false),
                1 => CellKind::Sst(i * 3),
                2 => CellKind::Inline(format!("in {}", i)),
                _ => CellKind::F(format!("A{}+1", i), Some(i.to_string()), 0),
            };
            let cell = CellSpec { c: 1 + i % 20, no_r: false, kind, style: if i % 5 == 0 { Some((i % 200) as u8) } else { None }, meta: 0 };
            sh.rows.push(RowSpec { r: last + 1 + i, no_r: false, ht: None, custom_ht: false, hidden: i % 9 == 0, style: None, level: 0, collapsed: false, thick: 0, spans: i % 2 == 0, dy: i % 3 == 0, cells: vec![cell] });
        }
        if b.cells > 0 {
            let at = last + n + 1;
            if at <= MAX_ROW {
                let cells = (0..b.cells.min(MAX_COL)).map(|i| CellSpec { c: 1 + i, no_r: i % 3 == 0, kind: CellKind::Num(i.to_string(), false), style: None, meta: 0 }).collect();
                sh.rows.push(RowSpec { r: at, no_r: false, ht: None, custom_ht: false, hidden: false, style: None, level: 0, collapsed: false, thick: 0, spans: true, dy: false, cells });
            }
        }
    }
    if b.sheets > 0 {
        let base = s.sheets.clone();
        for i in 0..b.sheets as usize {
            let mut x = base[i % base.len()].clone();
            x.name = format!("Blatt_{}", i);
            x.rows.truncate(3);
            x.extras = 0;
            x.state = if i % 10 == 9 { 1 } else { 0 };
            s.sheets.push(x);
        }
    }
    if b.formats > 0 {
        if let Some(st) = &mut s.styles {
            if !st.xfs.is_empty() {
                let base = st.xfs.clone();
                st.xfs = (0..b.formats as usize)
                    .map(|i| {
                        let mut x = base[i % base.len()];
                        x[1] = x[1].wrapping_add(i as u8);
                        x[0] = x[0].wrapping_add((i / 256) as u8);
                        x
                    })
                    .collect();
                st.fonts = (0..(b.formats / 4).max(st.fonts.len() as u32)).map(|i| (i * 5) as u8).collect();
                st.fills = (0..(b.formats / 3).max(st.fills.len() as u32)).map(|i| (i * 3) as u8).collect();
                st.borders = (0..(b.formats / 5).max(st.borders.len() as u32)).map(|i| i as u8).collect();
                for r in s.sheets.iter_mut().flat_map(|x| x.rows.iter_mut()) {
                    for (k, c) in r.cells.iter_mut().enumerate() {
                        c.style = Some((r.r as usize * 7 + k * 5) as u8);
                    }
                }
            }
        }
    }
    if let Some(st) = &mut s.styles {
        for (v, n, by) in [(&mut st.fonts, b.records.0, 5), (&mut st.fills, b.records.1, 3), (&mut st.borders, b.records.2, 1)] {
            if n > 0 {
                *v = (0..n.max(v.len() as u32)).map(|i| (i * by) as u8).collect();
            }
        }
    }
    if b.parts > 0 {
        if let Some(x) = s.extra.first().cloned() {
            for i in 0..b.parts {
                let mut y = x.clone();
                y.name = format!("{}_{}", x.name, i);
                y.repeat = y.repeat.min(3);
                s.extra.push(y);
            }
        }
    }
    s
}

pub fn expand(c: &Case) -> History {
    let mut uniq = 0;
    let start = match &c.start {
        BigStart::New => Start::New,
        BigStart::Foreign(s, b) => Start::Foreign(Box::new(blow(s, b))),
    };
    let sessions = c.sessions.iter().map(|v| v.iter().flat_map(|b| b.ops(&mut uniq)).collect()).collect();
    History { start, sessions }
}

fn size(max: u32) -> BoxedStrategy<u32> {
    let near: Vec<u32> = [127u32, 128, 255, 256, 257, 999, 1000, 4095, 4096, 8191, 8192, 16383, 16384, 32766, 32767, 65535, 65536, 65537].iter().copied().filter(|x| *x <= max).collect();
    let lo = max / 6 + 1;
    if near.is_empty() {
        return (lo..=max).boxed();
    }
    prop_oneof![3 => lo..=max, 1 => proptest::sample::select(near)].boxed()
}
fn ty() -> BoxedStrategy<Ty> {
    prop_oneof![4 => Just(Ty::Share), 2 => Just(Ty::Auto), 1 => Just(Ty::Inline), 1 => Just(Ty::Str)].boxed()
}
fn sheet() -> BoxedStrategy<u16> {
    prop_oneof![2 => Just(0u16), 1 => any::<u16>()].boxed()
}
pub fn bulk() -> BoxedStrategy<Bulk> {
    let down = || any::<bool>();
    prop_oneof![
        3 => (size(300), 0u32..6).prop_map(|(n, every)| Bulk::Sheets { n, every }),
        3 => (sheet(), size(3000), prop_oneof![2 => size(3000), 1 => 1u32..40], 1u32..120, ty()).prop_map(|(sheet, n, distinct, wide, ty)| Bulk::Texts { sheet, n, distinct: distinct.min(n), wide, ty }),
        4 => (size(300), 0u8..6, down()).prop_map(|(n, kind, used)| Bulk::Styles { n, kind, used }),
        3 => (sheet(), prop_oneof![Just(1u32), 1u32..1000, (MAX_ROW - 3000)..MAX_ROW], prop_oneof![3 => Just(1u32), 1 => 1u32..300], size(3000), down()).prop_map(|(sheet, from, step, n, down)| Bulk::Rows { sheet, from, step, n, down }),
        2 => (sheet(), crate::gen::row(), prop_oneof![Just(1u32), 1u32..=MAX_COL], size(16384)).prop_map(|(sheet, row, from, n)| Bulk::Wide { sheet, row, from, n }),
        1 => (sheet(), crate::gen::row(), size(1200)).prop_map(|(sheet, row, n)| Bulk::Scatter { sheet, row, n }),
        2 => (sheet(), 1u32..9, size(1500), down()).prop_map(|(sheet, step, n, down)| Bulk::Cols { sheet, step, n, down }),
        2 => (sheet(), 1u32..9, size(2000), down()).prop_map(|(sheet, step, n, down)| Bulk::RowProps { sheet, step, n, down }),
        3 => (sheet(), proptest::sample::select(vec!["a", "<&>\"'", "é", "😀 ", " ", "line\n", "x\t", "_x0041_", "]]>"]), prop_oneof![size(32767), Just(32767u32)], ty()).prop_map(|(sheet, unit, n, ty)| Bulk::Long { sheet, unit: unit.into(), n, ty }),
        2 => (1u32..80).prop_map(|n| Bulk::Handles { n }),
        2 => (1u32..150, 0u16..9).prop_map(|(n, every)| Bulk::Delete { n, every }),
        1 => (sheet(), size(300)).prop_map(|(sheet, n)| Bulk::Renames { sheet, n }),
        1 => (sheet(), size(1500)).prop_map(|(sheet, n)| Bulk::Again { sheet, n }),
    ]
    .boxed()
}
fn start() -> BoxedStrategy<BigStart> {
    let z = |max: u32, w: u32| prop_oneof![10 - w => Just(0u32), w => size(max)].boxed();
    let none = Blow { texts: 0, sheets: 0, rows: 0, cells: 0, formats: 0, parts: 0, records: (0, 0, 0) };
    let book = || synth::book(synth::Mix { sheets: (1, 2), extras: 0, parts: (0, 1), spell: 5 });
    // around the largest number of 16 bits
    let past = || prop_oneof![2 => Just(0u32), 1 => 65_530u32..65_540, 1 => 65_540u32..67_000];
    let (n1, n2) = (none.clone(), none.clone());
    prop_oneof![
        8 => Just(BigStart::New),
        12 => (
            book(),
            (z(70000, 3), z(250, 2), z(4000, 3), z(16384, 2), z(1500, 3), z(300, 3)),
        ).prop_map(|(s, (texts, sheets, rows, cells, formats, parts))| BigStart::Foreign(Box::new(s), Blow { texts, sheets, rows, cells, formats, parts, records: (0, 0, 0) })),
        1 => (book(), 60_000u32..140_000, prop_oneof![1 => Just(0u32), 1 => 100_000u32..300_000]).prop_map(move |(s, rows, texts)| BigStart::Foreign(Box::new(s), Blow { rows, texts, ..n1.clone() })),
        1 => (book(), past(), past(), past()).prop_map(move |(s, a, b, c)| BigStart::Foreign(Box::new(s), Blow { records: (a, b, c), ..n2.clone() })),
    ]
    .boxed()
}

pub struct C33;
impl Prop for C33 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C33"
    }
    fn quick(&self) -> u32 {
        12
    }
    fn patience(&self) -> u64 {
        250
    }
    fn memory(&self) -> u64 {
        8000
    }
    fn rule(&self) -> &'static str {
        "bulk operations (up to 300 sheets, 3000 distinct texts, 300 distinct formats, 3000 rows, 16384 cells in a row, 1500 column and 2000 row settings, 32767-character texts, 80 open handles, 150 deletions) mixed with ordinary operations over 1 to 3 sessions, on new workbooks and on workbooks of other producers blown up to 70000 texts, 250 sheets, 4000 rows, 16384 cells in a row, 1500 formats, 300 parts; the file of every session is compared with the model; non-trivial: at least 1000 operations and model entries, or more than 100 sheets, formats or parts"
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let small = vec(op(Weights { window: 1, ..BASE }), 1..4).prop_map(Bulk::Ops);
        let b = prop_oneof![3 => bulk(), 1 => small];
        (start(), vec(vec(b, 1..=3), 1..=3)).prop_map(|(start, sessions)| Case { start, sessions }).boxed()
    }
    fn check(&self, c: &Case, ctx: &Ctx) -> Verdict {
        let h = expand(c);
        let m = run_with(&h, ctx, CELLS | ROWS | COLS | NAMES | WINDOW | DIM | OPC, 100, |m, b, _, _| {
            if let Some(root) = &b.styles {
                styles::consistent(root)?;
            }
            styles::used_ids(b)?;
            styles::kept(m, b)?;
            let root = b.styles.as_ref();
            for (r, id) in &m.requests {
                styles::matches(root.ok_or("no style part")?, *id, r)?;
            }
            if let Some(s) = &m.start {
                super::parts::passthrough(&s.pkg, &b.pkg, &super::parts::book_pass(m, s)?)?;
                super::parts::book_new_parts(&s.pkg, &b.pkg)?;
            }
            Ok(())
        })?;
        let mut s = Seen::default();
        for b in c.sessions.iter().flatten() {
            let t = format!("{:?}", b);
            s.label(&format!("bulk: {}", t.split([' ', '(']).next().unwrap()));
        }
        let cells: usize = m.sheets.iter().map(|x| x.cells.len() + x.rows.len() + x.cols.len()).sum();
        if let BigStart::Foreign(_, b) = &c.start {
            for (k, n, l) in [("texts", b.texts, 256), ("sheets", b.sheets, 100), ("rows", b.rows, 500), ("cells of a row", b.cells, 500), ("formats", b.formats, 256), ("parts", b.parts, 100), ("rows, over 60000", b.rows, 60_000), ("fonts, fills or borders, over 65535", b.records.0.max(b.records.1).max(b.records.2), 65_535)] {
                if n > l {
                    s.label(&format!("start with many {}", k));
                    s.nontrivial = true;
                }
            }
        }
        for (k, n, l) in [("sheets", m.sheets.len(), 100), ("cells", cells, 1000), ("formats", m.requests.len(), 100), ("deleted sheets", m.deleted.len(), 50)] {
            if n > l {
                s.label(&format!("many {}", k));
                s.nontrivial = true;
            }
        }
        let texts: std::collections::BTreeSet<&String> = m.shared.iter().collect();
        if texts.len() > 1000 {
            s.label("over 1000 distinct texts written");
        }
        Ok(s)
    }
}
