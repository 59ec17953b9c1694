//! Properties decided by plain histories: generate, interpret, compare with the model.
use crate::book::Book;
use crate::hist::*;
use crate::runner::*;
use proptest::strategy::BoxedStrategy;

pub struct Hp {
    pub id: &'static str,
    pub quick: u32,
    pub w: Weights,
    pub asp: Asp,
    pub rule: &'static str,
    pub nontrivial: fn(&History, &Model) -> bool,
    /// further comparison after each session
    pub after: fn(&Model, &Book) -> Result<(), String>,
}
pub fn no_more(_: &Model, _: &Book) -> Result<(), String> {
    Ok(())
}

pub fn labels(h: &History, m: &Model, s: &mut Seen) {
    s.label(match h.start {
        Start::New => "start: new",
        Start::Foreign(_) => "start: other producer",
        Start::File(_) => "start: saved by Excel",
    });
    s.label(&format!("sessions: {}", h.sessions.len()));
    for k in m.ops.keys() {
        s.label(&format!("op: {}", k));
    }
    for sh in &m.sheets {
        for k in &sh.written {
            if let Some(c) = sh.cells.get(k) {
                s.label(&format!("cell: {}{}", c.t, if c.f.is_some() { " with formula" } else { "" }));
            }
        }
    }
}

impl Prop for Hp {
    type Case = History;
    fn id(&self) -> &'static str {
        self.id
    }
    fn quick(&self) -> u32 {
        self.quick
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn strategy(&self) -> BoxedStrategy<History> {
        if self.w.full_style { near_history(self.w) } else { history(self.w) }
    }
    fn check(&self, h: &History, ctx: &Ctx) -> Verdict {
        let m = run(h, ctx, self.asp, |m, b, _, _| (self.after)(m, b))?;
        let mut s = Seen { nontrivial: (self.nontrivial)(h, &m), labels: vec![] };
        labels(h, &m, &mut s);
        Ok(s)
    }
}

fn written(m: &Model) -> usize {
    m.sheets.iter().map(|s| s.written.len()).sum()
}

pub fn get(id: &str) -> Option<Box<dyn DynProp>> {
    let p = match id {
        "C01" => Hp {
            id: "C01",
            quick: 1360,
            w: Weights { foreign: 0, sessions: 1, delete: 0, rename: 0, write: 20, edits: 8, style: 1, handle: 1, ..BASE },
            asp: CELLS,
            rule: "random histories of cell writes (all types, formulas, hostile text, boundary addresses) on the sheets of a new workbook, one session; non-trivial: at least 3 distinct cells were written and at least one has text with a markup, space or non-ASCII character or a formula",
            nontrivial: |_, m| {
                written(m) >= 3
                    && m.sheets.iter().flat_map(|s| s.cells.values()).any(|c| {
                        c.f.is_some() || c.val.as_ref().map_or(false, |v| v.chars().any(|x| "<>&\"' \t\r\n".contains(x) || !x.is_ascii()))
                    })
            },
            after: no_more,
        },
        "C02" => Hp {
            id: "C02",
            quick: 590,
            w: Weights { foreign: 60, sessions: 4, ops: 5, ..BASE },
            asp: CELLS,
            rule: "random histories of 1 to 4 open-edit-save sessions on new workbooks and on synthetic workbooks imitating other producers; the file after every session is compared with the model; non-trivial: at least 2 sessions and at least 2 written cells in the final model",
            nontrivial: |h, m| h.sessions.len() >= 2 && written(m) >= 2,
            after: no_more,
        },
        "C06" => Hp {
            id: "C06",
            quick: 1240,
            w: Weights { foreign: 40, sessions: 3, ops: 10, write: 1, row: 0, col: 0, edits: 1, add: 8, sheet: 1, rename: 6, bad: 3, delete: 4, handle: 2, window: 0, style: 0, ..BASE },
            asp: NAMES,
            rule: "random sequences of add (named and unnamed), open, rename (also to existing and from missing names) and delete over several sessions; list_sheet_names is compared with an ordered model after every operation and the saved list after every session; non-trivial: at least 3 list operations that succeed",
            nontrivial: |_, m| count(m, "add") + count(m, "rename") + count(m, "delete") >= 3,
            after: no_more,
        },
        "C07" => Hp {
            id: "C07",
            quick: 1000,
            w: Weights { foreign: 40, sessions: 3, ops: 12, write: 4, row: 1, col: 1, edits: 2, add: 5, sheet: 5, rename: 3, delete: 3, handle: 4, style: 0, ..BASE },
            asp: CELLS | ROWS | COLS,
            rule: "random interleavings of add, delete, rename, re-open and edits through up to 3 handles open at once, over several sessions; cells, rows and columns of every sheet are compared with the model after every session; non-trivial: at least 2 sheets hold content and at least one was added, renamed or deleted",
            nontrivial: |_, m| m.sheets.iter().filter(|s| !s.cells.is_empty() || !s.cols.is_empty()).count() >= 2 && count(m, "add") + count(m, "rename") + count(m, "delete") > 0,
            after: no_more,
        },
        "C11" => Hp {
            id: "C11",
            quick: 740,
            w: Weights { foreign: 50, sessions: 3, ops: 5, write: 1, row: 0, col: 10, edits: 6, add: 1, delete: 0, rename: 0, style: 2, handle: 1, ..BASE },
            asp: COLS,
            rule: "random sequences of setting and clearing column properties by index and by letter on new sheets and sheets with column ranges of other producers, over several sessions; expanded definitions are compared with a per-column model; non-trivial: at least 3 column operations took effect",
            nontrivial: |h, m| h.sessions.iter().flatten().map(col_edits).sum::<usize>() >= 3 && m.sheets.iter().any(|s| !s.cols.is_empty()),
            after: no_more,
        },
        "C12" => Hp {
            id: "C12",
            quick: 780,
            w: Weights { foreign: 50, sessions: 3, ops: 5, write: 6, row: 8, col: 0, edits: 6, add: 1, delete: 0, rename: 0, style: 2, handle: 1, ..BASE },
            asp: ROWS | CELLS,
            rule: "random interleavings of row settings and cell writes (boundary rows weighted) on new sheets and sheets of other producers, over several sessions; row attributes and cells are compared with the model, rows must ascend without repetition; non-trivial: some row has both settings and cells in the final model",
            nontrivial: |_, m| m.sheets.iter().any(|s| s.rows.iter().any(|(r, a)| !a.is_empty() && s.cells.keys().any(|k| k.0 == *r))),
            after: no_more,
        },
        "C13" => Hp {
            id: "C13",
            quick: 1090,
            w: Weights { foreign: 60, sessions: 3, ops: 8, write: 1, row: 0, col: 0, edits: 1, add: 2, sheet: 1, delete: 1, rename: 1, bad: 2, window: 10, style: 0, handle: 0, ..BASE },
            asp: WINDOW,
            rule: "random sequences of window and visibility settings mixed with adding, renaming and deleting sheets, on new workbooks and on workbooks whose window attributes and sheet states other producers wrote, over several sessions; non-trivial: at least 3 settings were made",
            nontrivial: |_, m| count(m, "active") + count(m, "hide") + count(m, "window") >= 3,
            after: no_more,
        },
        "C23" => Hp {
            id: "C23",
            quick: 910,
            w: Weights { foreign: 40, sessions: 3, ops: 5, write: 8, row: 3, col: 1, edits: 4, delete: 0, rename: 0, style: 0, ..BASE },
            asp: DIM,
            rule: "random writes at boundary-rich addresses, rows without cells, empty sheets, over several sessions, on new workbooks and on workbooks of other producers; the declared used range of each sheet opened so far is compared with the bounding box of the cells in the file; non-trivial: an opened sheet with at least 2 cells in different rows and columns",
            nontrivial: |_, m| m.sheets.iter().any(|s| s.opened && s.bbox().map_or(false, |b| b.0 < b.2 && b.1 < b.3)),
            after: no_more,
        },
        _ => return None,
    };
    Some(Box::new(p))
}
fn col_edits(op: &Op) -> usize {
    match op {
        Op::Add { edits, .. } | Op::Sheet { edits, .. } | Op::On { edits, .. } => edits.iter().filter(|e| matches!(e, Edit::Col { .. })).count(),
        _ => 0,
    }
}
