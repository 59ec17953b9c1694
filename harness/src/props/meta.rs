//! Relations between histories: batching and order (C24), independence and determinism (C25),
//! one handle per sheet (C26).
use super::hp::labels;
use super::infoset::no_drift;
use crate::book::*;
use crate::docs::{doc, DocSpec};
use crate::gen;
use crate::hist::*;
use crate::pkg::*;
use crate::runner::*;
use crate::synth;
use draviavemal_openxml_office::{
    document_2007::{Word, WordPropertiesModel},
    presentation_2007::{PowerPoint, PowerPointPropertiesModel},
    spreadsheet_2007::ExcelPropertiesModel,
};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// The bytes a history starts with, None for a new workbook
fn source(s: &Start) -> Option<Vec<u8>> {
    match s {
        Start::New => None,
        Start::Foreign(b) => Some(synth::bytes(&synth::build(b), &b.lay)),
        Start::File(i) => Some(fixture(*i).to_vec()),
    }
}
fn put(path: &str, b: &[u8]) -> Result<(), String> {
    std::fs::write(path, b).map_err(|e| format!("HARNESS: {}", e))
}
fn model_of(path: Option<&str>) -> Result<Model, String> {
    match path {
        None => Ok(Model::new()),
        Some(p) => Book::read(p).and_then(Model::load).map_err(|e| format!("HARNESS: source is not valid: {}", e)),
    }
}

// ------------------------------------------------------------------ C24

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    /// where an item comes in the order
    pub keys: Vec<u16>,
    /// per item: 1 split the run before, 2 write something else first, 4 run on over the next cells,
    /// 8 drop the handle afterwards, 16 end the session afterwards, 32.. addressing
    pub flags: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct BatchCase {
    pub start: Start,
    /// sheet selectors of the two sheets that are edited
    pub sheets: (u8, u8),
    pub styles: Vec<StyleReq>,
    pub cells: Vec<(bool, u32, u32, CellW)>,
    pub rows: Vec<(bool, u32, RowW)>,
    pub cols: Vec<(bool, u32, Option<ColW>)>,
    pub plan: Plan,
}
pub struct C24;

fn near() -> BoxedStrategy<(u32, u32)> {
    prop_oneof![
        6 => (1u32..7, 1u32..8),
        2 => (gen::row(), gen::col()),
        1 => (1u32..4, 16380u32..=16384),
    ]
    .boxed()
}
struct Step {
    key: u32,
    sheet: bool,
    edit: Edit,
    drop: bool,
    end: bool,
}

impl C24 {
    /// The distinct final contents in sheet, row, column order
    fn content(c: &BatchCase) -> (BTreeMap<(bool, u32, u32), CellW>, BTreeMap<(bool, u32), RowW>, BTreeMap<(bool, u32), Option<ColW>>) {
        (
            c.cells.iter().map(|(s, r, k, w)| ((*s, *r, *k), w.clone())).collect(),
            c.rows.iter().map(|(s, r, w)| ((*s, *r), w.clone())).collect(),
            c.cols.iter().map(|(s, k, w)| ((*s, *k), w.clone())).collect(),
        )
    }
    fn steps(c: &BatchCase) -> Vec<Step> {
        let (cells, rows, cols) = Self::content(c);
        let key = |i: usize| c.plan.keys.get(i % c.plan.keys.len().max(1)).copied().unwrap_or(0) as u32 * 2 + 2;
        let flag = |i: usize| c.plan.flags.get(i % c.plan.flags.len().max(1)).copied().unwrap_or(0);
        let mut out: Vec<Step> = vec![];
        let mut add = |i: usize, sheet: bool, edit: Edit, before: Option<Edit>| {
            let f = flag(i);
            if let Some(b) = before {
                // anywhere before the write that counts
                let k = key(i);
                out.push(Step { key: (key(i + 7) % k) | 1, sheet, edit: b, drop: f & 8 != 0, end: false });
            }
            out.push(Step { key: key(i), sheet, edit, drop: f & 8 != 0, end: f & 16 != 0 && f & 128 != 0 });
        };
        // runs
        let list: Vec<(&(bool, u32, u32), &CellW)> = cells.iter().collect();
        let mut i = 0;
        while i < list.len() {
            let ((s, r, k), _) = list[i];
            let next = |j: usize| j < list.len() && list[j].0 .0 == *s && list[j].0 .1 == *r && list[j].0 .2 == k + (j - i) as u32;
            let mut j = i + 1;
            while next(j) && flag(j) & 1 == 0 {
                j += 1;
            }
            let mut e = j;
            if flag(i) & 4 != 0 {
                while next(e) && e < j + 3 {
                    e += 1;
                }
            }
            let by = (flag(i) >> 5) & 3;
            let own: Vec<CellW> = list[i..e].iter().map(|x| x.1.clone()).collect();
            let before = (flag(i) & 2 != 0).then(|| Edit::Write {
                row: *r,
                col: *k,
                by: 3 - by,
                // the neighbour's content, or something unlike any
                cells: (i..j).map(|x| if x % 2 == 0 { list[list.len() - 1 - x].1.clone() } else { CellW { v: Some(format!("before {}", x)), t: Ty::Auto, f: Some("1+1".into()), style: Some(1) } }).collect(),
            });
            add(i, *s, Edit::Write { row: *r, col: *k, by, cells: own }, before);
            i = j;
        }
        let mut n = list.len();
        for ((s, r), p) in &rows {
            let before = (flag(n) & 2 != 0).then(|| Edit::Row { row: *r, p: RowW { h: Some(77.0), hidden: Some(true), top: Some(true), bottom: None, style: Some(1) } });
            add(n, *s, Edit::Row { row: *r, p: p.clone() }, before);
            n += 1;
        }
        for ((s, k), p) in &cols {
            let by = (flag(n) >> 5) & 3;
            let before = (flag(n) & 2 != 0).then(|| Edit::Col { col: *k, by: 3 - by, p: if flag(n) & 64 != 0 { None } else { Some(ColW { w: Some(3.0), hidden: Some(true), best: None, style: Some(2) }) } });
            add(n, *s, Edit::Col { col: *k, by, p: p.clone() }, before);
            n += 1;
        }
        out.sort_by_key(|s| s.key);
        out
    }
    fn targets(m: &Model, c: &BatchCase) -> (String, String) {
        let n = m.sheets.len();
        (m.sheets[c.sheets.0 as usize % n].name.clone(), m.sheets[c.sheets.1 as usize % n].name.clone())
    }
    fn open(path: Option<&str>, c: &BatchCase) -> Result<Session, String> {
        let mut s = Session::open(path)?;
        for r in &c.styles {
            let id = s.ex.get_style_id_mut(r.setting()).map_err(|e| format!("get_style_id refused {:?}: {:?}", r, e))?;
            s.nums.push(id.get_id());
            s.ids.push(id);
        }
        Ok(s)
    }
}
impl Prop for C24 {
    type Case = BatchCase;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn quick(&self) -> u32 {
        400
    }
    fn rule(&self) -> &'static str {
        "a random set of final cell, row and column contents on two sheets of a new workbook or one of another producer, written (A) one cell per call in sorted order through one handle in one session and (B) as random runs in random order, addressed in other ways, with earlier writes of other contents, overlapping repeated writes, handles dropped and sessions ended in between; both files must have the same cells, rows, columns, used range and displayed text; non-trivial: at least 3 cells, at least one row call of several cells or one overwritten content, and B differs from A in its order"
    }
    fn strategy(&self) -> BoxedStrategy<BatchCase> {
        let w = Weights { foreign: 45, ..BASE };
        let plan = (vec(any::<u16>(), 1..30), vec(any::<u8>(), 1..30)).prop_map(|(keys, flags)| Plan { keys, flags });
        (
            start(w),
            any::<(u8, u8)>(),
            vec(small_style(), 0..4),
            vec((any::<bool>(), near(), cell_w()).prop_map(|(s, (r, c), w)| (s, r, c, w)), 1..16),
            vec((any::<bool>(), prop_oneof![4 => 1u32..7, 1 => gen::row()], row_w()), 0..4),
            vec((any::<bool>(), prop_oneof![4 => 1u32..8, 1 => gen::col()], prop::option::weighted(0.8, col_w())), 0..5),
            plan,
        )
            .prop_map(|(start, sheets, styles, cells, rows, cols, plan)| BatchCase { start, sheets, styles, cells, rows, cols, plan })
            .boxed()
    }
    fn check(&self, c: &BatchCase, ctx: &Ctx) -> Verdict {
        let mut src = None;
        if let Some(b) = source(&c.start) {
            let p = ctx.file("src.xlsx");
            put(&p, &b)?;
            src = Some(p);
        }
        let m = model_of(src.as_deref())?;
        let (x, mut y) = Self::targets(&m, c);
        let two = x == y;
        if two && src.is_none() {
            y = "other".into();
        }
        let name = |s: bool| if s { y.clone() } else { x.clone() };
        // when both selectors name one sheet, everything goes there
        let mut c = c.clone();
        if x == y {
            c.cells.iter_mut().for_each(|e| e.0 = false);
            c.rows.iter_mut().for_each(|e| e.0 = false);
            c.cols.iter_mut().for_each(|e| e.0 = false);
        }
        let (cells, rows, cols) = Self::content(&c);
        // A
        let pa = ctx.file("a.xlsx");
        let mut s = Self::open(src.as_deref(), &c).map_err(|e| format!("plan A: {}", e))?;
        for sheet in [false, true] {
            if sheet && x == y {
                break;
            }
            let mut h = s.ex.get_worksheet_mut(name(sheet)).map_err(|e| format!("plan A: opening {:?} refused: {:?}", name(sheet), e))?;
            let edits = cells
                .iter()
                .filter(|e| e.0 .0 == sheet)
                .map(|((_, r, k), w)| Edit::Write { row: *r, col: *k, by: 0, cells: vec![w.clone()] })
                .chain(rows.iter().filter(|e| e.0 .0 == sheet).map(|((_, r), p)| Edit::Row { row: *r, p: p.clone() }))
                .chain(cols.iter().filter(|e| e.0 .0 == sheet).map(|((_, k), p)| Edit::Col { col: *k, by: 0, p: p.clone() }));
            for e in edits {
                edit_lib(&mut h, &e, &s.ids).map_err(|e| format!("plan A: {}", e))?;
            }
        }
        s.save(&pa).map_err(|e| format!("plan A: {}", e))?;
        // B
        let steps = Self::steps(&c);
        let mut at = src.clone();
        let mut n = 0;
        let mut s = Self::open(at.as_deref(), &c).map_err(|e| format!("plan B: {}", e))?;
        if x != y {
            // the sheets come in the same order
            s.ex.get_worksheet_mut(name(false)).map_err(|e| format!("plan B: {:?}", e))?;
            s.ex.get_worksheet_mut(name(true)).map_err(|e| format!("plan B: {:?}", e))?;
        }
        for (i, st) in steps.iter().enumerate() {
            let uid = st.sheet as u32;
            let e = |x: String| format!("plan B, step {} ({:?}): {}", i, st.edit, x);
            let k = match s.handles.iter().position(|h| h.0 == uid) {
                Some(k) => k,
                None => {
                    let h = s.ex.get_worksheet_mut(name(st.sheet)).map_err(|x| e(format!("opening the sheet refused: {:?}", x)))?;
                    s.handles.push((uid, h));
                    s.handles.len() - 1
                }
            };
            edit_lib(&mut s.handles[k].1, &st.edit, &s.ids).map_err(e)?;
            if st.drop {
                s.handles.remove(k);
            }
            if st.end && n < 4 {
                let p = ctx.file(&format!("b{}.xlsx", n));
                s.save(&p).map_err(e)?;
                s = Self::open(Some(&p), &c).map_err(e)?;
                at = Some(p);
                n += 1;
            }
        }
        let _ = at;
        let pb = ctx.file("b.xlsx");
        s.save(&pb).map_err(|e| format!("plan B: {}", e))?;
        let a = Book::read(&pa).map_err(|e| format!("file of plan A: {}", e))?;
        let b = Book::read(&pb).map_err(|e| format!("file of plan B: {}", e))?;
        if a.names() != b.names() {
            return Err(format!("sheets {:?} with plan A, {:?} with plan B", a.names(), b.names()));
        }
        for nm in a.names() {
            let (p, q) = (a.sheet(&nm)?, b.sheet(&nm)?);
            let e = |x: String| format!("sheet {:?}, plan B against plan A: {}", nm, x);
            cmp_cells(&p.cells, &q.cells).map_err(e)?;
            let rows = |s: &Sheet| -> BTreeMap<u32, BTreeMap<String, String>> {
                let mut r = s.rows.clone();
                r.values_mut().for_each(|a| {
                    a.remove("spans");
                });
                r.retain(|_, a| !a.is_empty());
                r
            };
            if rows(&p) != rows(&q) {
                return Err(e(format!("rows {:?}, expected {:?}", rows(&q), rows(&p))));
            }
            if cols_canon(&p.cols) != cols_canon(&q.cols) {
                return Err(e(format!("columns {:?}, expected {:?}", cols_canon(&q.cols), cols_canon(&p.cols))));
            }
            if p.dim.as_deref().map(parse_range) != q.dim.as_deref().map(parse_range) {
                return Err(e(format!("used range {:?}, expected {:?}", q.dim, p.dim)));
            }
        }
        // and the written contents are there
        for ((sh, r, k), w) in &cells {
            let nums: Vec<u32> = {
                let s = Self::open(src.as_deref(), &c)?;
                s.nums
            };
            let got = b.sheet(&name(*sh))?;
            let want = expected(w, &nums);
            match got.cells.get(&(*r, *k)) {
                Some(g) if g.same(&want) => {}
                g => return Err(format!("cell {} is {:?}, expected {}", cell_name(*r, *k), g.map(|g| g.show()), want.show())),
            }
            break;
        }
        let multi = steps.iter().any(|s| matches!(&s.edit, Edit::Write { cells, .. } if cells.len() > 1));
        let extra = steps.len() > cells.len() + rows.len() + cols.len();
        let keys: Vec<(bool, u32)> = steps.iter().filter_map(|s| if let Edit::Write { row, .. } = &s.edit { Some((s.sheet, *row)) } else { None }).collect();
        let disorder = keys.windows(2).any(|w| w[0] > w[1]);
        let mut seen = Seen { nontrivial: cells.len() >= 3 && (multi || extra) && disorder, labels: vec![] };
        seen.label(if src.is_some() { "start: other producer" } else { "start: new" });
        seen.label(&format!("sessions in plan B: {}", n + 1));
        for (l, x) in [("several cells in one call", multi), ("rows out of order", disorder), ("row settings", !rows.is_empty()), ("column settings", !cols.is_empty()), ("two sheets", x != y)] {
            if x {
                seen.label(l);
            }
        }
        Ok(seen)
    }
}

// ------------------------------------------------------------------ C25

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Doc {
    Book { start: Start, ops: Vec<Op> },
    /// another document made from the same source as the first book
    Twin { ops: Vec<Op> },
    Doc(DocSpec),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ManyCase {
    pub docs: Vec<Doc>,
    /// which document takes the next step
    pub order: Vec<u8>,
    pub opts: Vec<(bool, bool)>,
    /// the documents together in a thread of their own, while the others are made one by one
    pub thread: bool,
}
pub struct C25;

enum Live {
    Book(Box<(Session, Model)>, Vec<Op>),
    Word(Word),
    Pres(PowerPoint),
}
fn open_doc(d: &Doc, src: &Option<String>, o: (bool, bool)) -> Result<Live, String> {
    Ok(match d {
        Doc::Book { ops, .. } | Doc::Twin { ops } => {
            let s = Session::open_with(src.as_deref(), ExcelPropertiesModel { is_in_memory: o.0, is_editable: o.1 })?;
            Live::Book(Box::new((s, model_of(src.as_deref())?)), ops.clone())
        }
        Doc::Doc(d) if d.pptx => Live::Pres(PowerPoint::new(src.clone(), PowerPointPropertiesModel { is_in_memory: o.0 }).map_err(|e| format!("open refused: {:?}", e))?),
        Doc::Doc(_) => Live::Word(Word::new(src.clone(), WordPropertiesModel { is_in_memory: o.0 }).map_err(|e| format!("open refused: {:?}", e))?),
    })
}
impl Live {
    fn step(&mut self, i: usize) -> Result<bool, String> {
        match self {
            Live::Book(b, ops) => match ops.get(i) {
                Some(op) => {
                    let (s, m) = &mut **b;
                    s.step(m, op).map_err(|e| format!("operation {}: {}", i, e))?;
                    let l = s.list()?;
                    if l != m.names() {
                        return Err(format!("after operation {}: sheets {:?}, expected {:?}", i, l, m.names()));
                    }
                    Ok(true)
                }
                None => Ok(false),
            },
            _ => Ok(false),
        }
    }
    fn save(self, p: &str) -> Result<(), String> {
        match self {
            Live::Book(b, _) => b.0.save(p),
            Live::Word(w) => w.save_as(p).map_err(|e| format!("save refused: {:?}", e)),
            Live::Pres(w) => w.save_as(p).map_err(|e| format!("save refused: {:?}", e)),
        }
    }
}
fn alone(c: &ManyCase, srcs: &[Option<String>], out: &dyn Fn(usize) -> String) -> Result<(), String> {
    for (i, d) in c.docs.iter().enumerate() {
        let e = |x: String| format!("document {} alone: {}", i, x);
        let mut l = open_doc(d, &srcs[i], (true, true)).map_err(e)?;
        let mut k = 0;
        while l.step(k).map_err(e)? {
            k += 1;
        }
        l.save(&out(i)).map_err(e)?;
    }
    Ok(())
}
fn together(c: &ManyCase, srcs: &[Option<String>], out: &dyn Fn(usize) -> String) -> Result<(), String> {
    let n = c.docs.len();
    let opt = |i: usize| c.opts.get(i % c.opts.len().max(1)).copied().unwrap_or((true, true));
    // None: not open yet; steps: 0 open, then operations, then save
    let mut live: Vec<Option<Live>> = (0..n).map(|_| None).collect();
    let mut done = vec![false; n];
    let mut pos = vec![0usize; n];
    let mut k = 0;
    while done.iter().any(|d| !d) {
        let pick = c.order.get(k).copied().unwrap_or(k as u8) as usize % n;
        k += 1;
        let i = (0..n).map(|x| (pick + x) % n).find(|x| !done[*x]).unwrap();
        let e = |x: String| format!("document {} among others: {}", i, x);
        match live[i].as_mut() {
            None => live[i] = Some(open_doc(&c.docs[i], &srcs[i], opt(i)).map_err(e)?),
            Some(l) => {
                if l.step(pos[i]).map_err(e)? {
                    pos[i] += 1;
                } else {
                    live[i].take().unwrap().save(&out(i)).map_err(e)?;
                    done[i] = true;
                }
            }
        }
    }
    Ok(())
}
impl Prop for C25 {
    type Case = ManyCase;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn quick(&self) -> u32 {
        230
    }
    fn rule(&self) -> &'static str {
        "2 to 4 documents (workbooks of any start with a history each, copies of one source, word-processing documents, presentations), made once one by one with default options and once with their steps (open, operations, save) interleaved at random, random in-memory and editable options, in half of the cases in a second thread at the same time; every pair of files must mean the same part by part, and the sources must keep their bytes; non-trivial: at least 2 documents of which one workbook has at least 3 operations"
    }
    fn strategy(&self) -> BoxedStrategy<ManyCase> {
        let w = Weights { foreign: 60, ops: 6, window: 1, full_style: true, style: 2, mix: synth::PLAIN, ..BASE };
        let book = (start(w), vec(op(w), 1..7)).prop_map(|(start, ops)| Doc::Book { start, ops });
        let twin = vec(op(w), 0..5).prop_map(|ops| Doc::Twin { ops });
        let any_doc = prop_oneof![3 => book.clone(), 3 => twin, 1 => doc().prop_map(Doc::Doc)];
        (book, vec(any_doc, 1..4), vec(any::<u8>(), 0..24), vec(any::<(bool, bool)>(), 1..4), any::<bool>())
            .prop_map(|(b, mut docs, order, opts, thread)| {
                docs.insert(0, b);
                ManyCase { docs, order, opts, thread }
            })
            .boxed()
    }
    fn check(&self, c: &ManyCase, ctx: &Ctx) -> Verdict {
        let mut srcs: Vec<Option<String>> = vec![];
        let mut bytes: Vec<Option<Vec<u8>>> = vec![];
        for (i, d) in c.docs.iter().enumerate() {
            let b = match d {
                Doc::Book { start, .. } => source(start),
                Doc::Twin { .. } => None,
                Doc::Doc(d) => Some(d.bytes()),
            };
            let (p, b) = match (d, b) {
                (Doc::Twin { .. }, _) => (srcs[0].clone(), bytes[0].clone()),
                (_, Some(b)) => {
                    let p = ctx.file(&format!("src{}", i));
                    put(&p, &b)?;
                    (Some(p), Some(b))
                }
                _ => (None, None),
            };
            srcs.push(p);
            bytes.push(b);
        }
        let dir = ctx.dir.clone();
        let f = |k: &'static str| {
            let dir = dir.clone();
            move |i: usize| dir.join(format!("{}{}.out", k, i)).to_str().unwrap().to_string()
        };
        if c.thread {
            std::thread::scope(|sc| -> Result<(), String> {
                let (c2, s2, o2) = (c.clone(), srcs.clone(), f("b"));
                let h = sc.spawn(move || guarded(|| together(&c2, &s2, &o2)));
                let r = guarded(|| alone(c, &srcs, &f("a")));
                let t = h.join().map_err(|_| "HARNESS: thread".to_string())?;
                r??;
                t??;
                Ok(())
            })?;
        } else {
            alone(c, &srcs, &f("a"))?;
            together(c, &srcs, &f("b"))?;
        }
        for (i, d) in c.docs.iter().enumerate() {
            let e = |x: String| format!("document {}: made among others it differs: {}", i, x);
            let kind = match d {
                Doc::Doc(d) => d.kind(),
                _ => Kind::Xlsx,
            };
            let read = |p: &str| Pkg::read(p).map_err(|x| e(format!("{}: {}", p, x)));
            let (a, b) = (read(&f("a")(i))?, read(&f("b")(i))?);
            if !matches!(d, Doc::Doc(_)) {
                validate(&b, kind).map_err(e)?;
            }
            no_drift(&a, &b, false, false).map_err(e)?;
            if let (Some(p), Some(b)) = (&srcs[i], &bytes[i]) {
                if std::fs::read(p).ok().as_ref() != Some(b) {
                    return Err(format!("the source of document {} changed", i));
                }
            }
        }
        let ops = |d: &Doc| match d {
            Doc::Book { ops, .. } | Doc::Twin { ops } => ops.len(),
            _ => 0,
        };
        let mut s = Seen { nontrivial: c.docs.len() >= 2 && c.docs.iter().any(|d| ops(d) >= 3), labels: vec![] };
        s.label(&format!("documents: {}", c.docs.len()));
        if c.thread {
            s.label("second thread");
        }
        for d in &c.docs {
            s.label(match d {
                Doc::Book { start: Start::New, .. } => "new workbook",
                Doc::Book { .. } => "workbook of another producer",
                Doc::Twin { .. } => "second copy of a source",
                Doc::Doc(d) if d.pptx => "presentation",
                Doc::Doc(_) => "word-processing document",
            });
        }
        for o in &c.opts {
            if !o.0 || !o.1 {
                s.label("options other than the default");
            }
        }
        Ok(s)
    }
}

// ------------------------------------------------------------------ C26

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct HandleCase {
    pub h: History,
    /// per session: 0 save at the end, 1 try to save while handles are open (target absent), 2 (target present)
    pub save: Vec<u8>,
}
pub struct C26;

impl Prop for C26 {
    type Case = HandleCase;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn quick(&self) -> u32 {
        890
    }
    fn rule(&self) -> &'static str {
        "random sequences of opening, editing through, renaming under, re-opening and dropping up to 3 handles, adding and deleting sheets, with attempts to take a second handle by both calls, over several sessions on new and foreign workbooks, some sessions ended by saving while a handle is open; non-trivial: at least one second handle was refused or one save was refused, and a sheet was edited through at least two handles one after the other"
    }
    fn strategy(&self) -> BoxedStrategy<HandleCase> {
        let w = Weights { foreign: 45, sessions: 3, ops: 20, write: 5, row: 1, col: 1, edits: 3, add: 2, sheet: 3, handle: 10, rename: 4, bad: 8, delete: 1, style: 0, ..BASE };
        (history(w), vec(prop_oneof![5 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], 3)).prop_map(|(h, save)| HandleCase { h, save }).boxed()
    }
    fn check(&self, c: &HandleCase, ctx: &Ctx) -> Verdict {
        let mut src = None;
        if let Some(b) = source(&c.h.start) {
            let p = ctx.file("src.xlsx");
            put(&p, &b)?;
            src = Some(p);
        }
        let mut m = model_of(src.as_deref())?;
        let mut refused = 0;
        for (i, ops) in c.h.sessions.iter().enumerate() {
            let e = |x: String| format!("session {}: {}", i, x);
            let before = m.clone();
            let mut s = Session::open(src.as_deref()).map_err(e)?;
            for (j, op) in ops.iter().enumerate() {
                s.step(&mut m, op).map_err(|x| format!("session {}, operation {}: {}", i, j, x))?;
                let l = s.list()?;
                if l != m.names() {
                    return Err(format!("session {}, after operation {} ({:?}): sheets {:?}, expected {:?}", i, j, op, l, m.names()));
                }
            }
            let mode = c.save.get(i).copied().unwrap_or(0);
            if mode > 0 && !s.handles.is_empty() {
                let out = ctx.file("refused.xlsx");
                if mode == 2 {
                    put(&out, b"what was there")?;
                }
                let list = |d: &std::path::Path| -> Vec<String> {
                    let mut v: Vec<String> = std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
                    v.sort();
                    v
                };
                let files = list(&ctx.dir);
                let Session { ex, handles, .. } = s;
                if ex.save_as(&out).is_ok() {
                    return Err(e("saving while a worksheet handle is open was accepted".into()));
                }
                drop(handles);
                let now = std::fs::read(&out).ok();
                if now.as_deref() != (mode == 2).then_some(b"what was there" as &[u8]) || files != list(&ctx.dir) {
                    return Err(e(format!("a refused save changed files: {:?} became {:?}", files, list(&ctx.dir))));
                }
                let _ = std::fs::remove_file(&out);
                let ops = m.ops.clone();
                m = before;
                m.ops = ops;
                refused += 1;
                continue;
            }
            let out = ctx.file(&format!("s{}.xlsx", i));
            s.save(&out).map_err(e)?;
            let b = Book::read(&out).map_err(|x| format!("file saved by session {}: {}", i, x))?;
            compare(&m, &b, CELLS | ROWS | COLS | NAMES | DIM | OPC).map_err(|x| format!("file saved by session {}: {}", i, x))?;
            src = Some(out);
        }
        let again = count(&m, "open") + count(&m, "sheet") >= 2 && count(&m, "on") + count(&m, "sheet") >= 2;
        let mut s = Seen { nontrivial: count(&m, "second") + refused > 0 && again, labels: vec![] };
        labels(&c.h, &m, &mut s);
        if refused > 0 {
            s.label("save refused while a handle is open");
        }
        Ok(s)
    }
}
