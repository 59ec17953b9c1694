//! C34: time grows in proportion to the amount of data.
use crate::book::*;
use crate::hist::*;
use crate::pkg::*;
use crate::runner::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub what: What,
    /// the smaller of the two amounts; the larger is eight times this
    pub n: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum What {
    /// a cell in each of n rows, written upwards, downwards or in scattered order
    Rows { order: u8, width: u8 },
    /// n texts in rows of the given width, all different or few different
    Texts { width: u16, distinct: bool },
    /// n cells, each written by itself, to rows of the given width
    Cells { width: u16, order: u8 },
    /// settings of n rows
    RowProps { order: u8 },
    /// n elements of a kind the library does not know, in a sheet of another producer
    Kept { kind: u8 },
    /// a text of n characters in a sheet of another producer
    Text { kind: u8 },
    /// n cells in rows of the given width, of another producer
    Foreign { width: u16, refs: bool },
    /// n shared texts of another producer, a few of them used
    Sst { rich: bool },
}

fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}
/// CPU seconds of this thread, per phase
struct Clock {
    at: f64,
    v: BTreeMap<&'static str, f64>,
}
impl Clock {
    fn new() -> Clock {
        Clock { at: cpu(), v: BTreeMap::new() }
    }
    fn start(&mut self) {
        self.at = cpu();
    }
    fn stop(&mut self, k: &'static str) {
        *self.v.entry(k).or_default() += cpu() - self.at;
        self.at = cpu();
    }
}
fn at(i: u32, n: u32, order: u8) -> u32 {
    match order % 3 {
        0 => i,
        1 => n - 1 - i,
        // a prime larger than any n used
        _ => (i as u64 * 1_000_003 % n as u64) as u32,
    }
}
fn num(i: u32) -> CellW {
    CellW { v: Some(i.to_string()), t: Ty::Number, f: None, style: None }
}
fn share(t: String) -> CellW {
    CellW { v: Some(t), t: Ty::Share, f: None, style: None }
}
fn foreign(sheet: &str, sst: &str) -> Vec<u8> {
    const M: &str = "http://schemas.openxmlformats.org/spreadsheetml/2006/main";
    const R: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
    const T: &str = "application/vnd.openxmlformats-officedocument.spreadsheetml";
    let ct = format!("<Types xmlns=\"http://schemas.openxmlformats.org/package/2006/content-types\"><Default Extension=\"rels\" ContentType=\"application/vnd.openxmlformats-package.relationships+xml\"/><Default Extension=\"xml\" ContentType=\"application/xml\"/><Override PartName=\"/xl/workbook.xml\" ContentType=\"{T}.sheet.main+xml\"/><Override PartName=\"/xl/worksheets/sheet1.xml\" ContentType=\"{T}.worksheet+xml\"/><Override PartName=\"/xl/sharedStrings.xml\" ContentType=\"{T}.sharedStrings+xml\"/></Types>");
    let rels = |x: String| format!("<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">{}</Relationships>", x);
    let mut p: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut put = |n: &str, s: String| {
        p.insert(n.to_string(), s.into_bytes());
    };
    put("_rels/.rels", rels(format!("<Relationship Id=\"rId1\" Type=\"{R}/officeDocument\" Target=\"xl/workbook.xml\"/>")));
    put("xl/_rels/workbook.xml.rels", rels(format!("<Relationship Id=\"rId1\" Type=\"{R}/worksheet\" Target=\"worksheets/sheet1.xml\"/><Relationship Id=\"rId2\" Type=\"{R}/sharedStrings\" Target=\"sharedStrings.xml\"/>")));
    put("xl/workbook.xml", format!("<workbook xmlns=\"{M}\" xmlns:r=\"{R}\"><sheets><sheet name=\"Data\" sheetId=\"1\" r:id=\"rId1\"/></sheets></workbook>"));
    put("xl/worksheets/sheet1.xml", format!("<worksheet xmlns=\"{M}\" xmlns:r=\"{R}\">{}</worksheet>", sheet));
    put("xl/sharedStrings.xml", format!("<sst xmlns=\"{M}\"><si><t>zero</t></si>{}</sst>", sst));
    write_zip(&p, Some(ct.as_bytes()), true)
}

/// Times of one workbook with n items
fn run(w: &What, n: u32, ctx: &Ctx) -> Result<BTreeMap<&'static str, f64>, String> {
    let (one, two) = (ctx.file("a.xlsx"), ctx.file("b.xlsx"));
    let mut k = Clock::new();
    let err = |e| format!("{:?}", e);
    let mut sheet = "sheet1";
    let input = match w {
        What::Kept { kind } => {
            sheet = "Data";
            let mut s = String::from("<sheetData/>");
            match kind % 3 {
                0 => {
                    s.push_str("<mergeCells>");
                    (0..n).for_each(|i| s.push_str(&format!("<mergeCell ref=\"A{}:B{}\"/>", i + 1, i + 1)));
                    s.push_str("</mergeCells>");
                }
                1 => (0..n).for_each(|i| s.push_str(&format!("<conditionalFormatting sqref=\"A{}\"><cfRule type=\"duplicateValues\" priority=\"{}\"/></conditionalFormatting>", i + 1, i + 1))),
                _ => {
                    s.push_str("<dataValidations>");
                    (0..n).for_each(|i| s.push_str(&format!("<dataValidation type=\"list\" sqref=\"C{}\"><formula1>\"a,b\"</formula1></dataValidation>", i + 1)));
                    s.push_str("</dataValidations>");
                }
            }
            Some(foreign(&s, ""))
        }
        What::Text { kind } => {
            sheet = "Data";
            let unit = ["abcdefghij", "&amp;&lt;&#233;", "\u{e9}\u{1F600} ", "]] > _x0041_", "\n\n \n"][*kind as usize % 5];
            let s = format!("<sheetData><row r=\"1\"><c r=\"A1\" t=\"inlineStr\"><is><t xml:space=\"preserve\">{}</t></is></c></row></sheetData>", unit.repeat(n as usize * 4));
            Some(foreign(&s, ""))
        }
        What::Foreign { width, refs } => {
            sheet = "Data";
            let mut s = String::from("<sheetData>");
            let width = (*width as u32).clamp(1, 16384);
            for r in 0..n.div_ceil(width) {
                s.push_str(&if *refs { format!("<row r=\"{}\">", r + 1) } else { "<row>".into() });
                for c in 0..width {
                    let rf = if *refs { format!(" r=\"{}\"", cell_name(r + 1, c + 1)) } else { String::new() };
                    s.push_str(&format!("<c{} t=\"s\"><v>0</v></c>", rf));
                }
                s.push_str("</row>");
            }
            s.push_str("</sheetData>");
            Some(foreign(&s, ""))
        }
        What::Sst { rich } => {
            sheet = "Data";
            let mut t = String::new();
            (0..n).for_each(|i| t.push_str(&if *rich { format!("<si><r><rPr><b/></rPr><t>bold</t></r><r><t>{}</t></r></si>", i) } else { format!("<si><t>text {}</t></si>", i) }));
            Some(foreign("<sheetData><row r=\"1\"><c r=\"A1\" t=\"s\"><v>1</v></c></row></sheetData>", &t))
        }
        _ => None,
    };
    if let Some(b) = &input {
        std::fs::write(&one, b).map_err(|e| format!("HARNESS: {}", e))?;
    }
    k.start();
    let mut ses = Session::open(input.as_ref().map(|_| one.as_str()))?;
    k.stop("open");
    let mut ws = ses.ex.get_worksheet_mut(sheet.into()).map_err(err)?;
    k.stop("open the sheet");
    let mut put = |row: u32, col: u32, cells: Vec<CellW>| edit_lib(&mut ws, &Edit::Write { row, col, by: 0, cells }, &[]);
    match w {
        What::Rows { order, width } => {
            for i in 0..n {
                put(1 + at(i, n, *order), 2, (0..(*width % 4) as u32 + 1).map(|c| num(i + c)).collect())?;
            }
        }
        What::Texts { width, distinct } => {
            let width = (*width as u32).clamp(1, 16000);
            for r in 0..n.div_ceil(width) {
                let v = (r * width..(r + 1) * width).map(|i| share(format!("text {}", if *distinct { i } else { i % 100 }))).collect();
                put(1 + r, 1, v)?;
            }
        }
        What::Cells { width, order } => {
            let width = (*width as u32).clamp(1, 16384);
            for i in 0..n {
                let j = at(i, n, *order);
                put(1 + j / width, 1 + j % width, vec![num(i)])?;
            }
        }
        What::RowProps { order } => {
            for i in 0..n {
                let p = RowW {
                    h: Some((i % 400) as f32 + 0.25),
                    hidden: None,
                    top: None,
                    bottom: None,
                    style: None,
                };
                edit_lib(&mut ws, &Edit::Row { row: 1 + at(i, n, *order), p }, &[])?;
            }
        }
        _ => put(MAX_ROW, 3, vec![num(1), share("more".into())])?,
    }
    k.stop("write");
    drop(ws);
    k.stop("close the sheet");
    ses.ex.save_as(&two).map_err(err)?;
    k.stop("save");
    let mut ses = Session::open(Some(&two))?;
    k.stop("open again");
    let ws = ses.ex.get_worksheet_mut(sheet.into()).map_err(err)?;
    k.stop("open the sheet again");
    drop(ws);
    k.stop("close the sheet again");
    ses.ex.save_as(&one).map_err(err)?;
    k.stop("save again");
    Ok(k.v)
}

pub struct C34;
/// eight times the data may take this many times the time
const MOST: f64 = 18.0;
/// seconds below which nothing is said about the larger amount
const FLOOR: f64 = 2.0;
impl Prop for C34 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C34"
    }
    fn quick(&self) -> u32 {
        5
    }
    fn thorough_factor(&self) -> u32 {
        4
    }
    fn patience(&self) -> u64 {
        400
    }
    fn shrinks(&self) -> u32 {
        0
    }
    fn memory(&self) -> u64 {
        12000
    }
    fn rule(&self) -> &'static str {
        "each case builds one kind of workbook (rows, single cells or texts written in several orders, row settings, and foreign sheets with many cells, kept elements, shared texts or one long text) at two sizes, n and 8n, and measures the processor time of each phase (opening, writing, closing the handle, saving, the same again); a phase fails that takes over 2 s at 8n and over 18 times its time at n (proportional: 8, quadratic: 64), in each of three measurements (fewer when they take minutes); non-trivial: both sizes ran to the end"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the processor time of a thread varies by less than a factor of two between repeated runs of the same work".into()]
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let w = || prop_oneof![Just(1u16), 2u16..60, 1000u16..16384];
        let what = prop_oneof![
            4 => (0u8..3, any::<u8>()).prop_map(|(order, width)| What::Rows { order, width }),
            3 => (w(), proptest::bool::weighted(0.8)).prop_map(|(width, distinct)| What::Texts { width, distinct }),
            3 => (w(), 0u8..3).prop_map(|(width, order)| What::Cells { width, order }),
            2 => (0u8..3).prop_map(|order| What::RowProps { order }),
            3 => (0u8..3).prop_map(|kind| What::Kept { kind }),
            2 => (0u8..5).prop_map(|kind| What::Text { kind }),
            3 => (w(), any::<bool>()).prop_map(|(width, refs)| What::Foreign { width, refs }),
            2 => any::<bool>().prop_map(|rich| What::Sst { rich }),
        ];
        // without optimisation of the library smaller amounts take as long
        let n = if cfg!(debug_assertions) { 6_000u32..9_000 } else { 15_000u32..22_000 };
        (what, n).prop_map(|(what, n)| Case { what, n }).boxed()
    }
    fn check(&self, c: &Case, ctx: &Ctx) -> Verdict {
        // the first use of anything costs more
        run(&c.what, 400, ctx)?;
        let mut worst: BTreeMap<&'static str, (f64, f64, f64)> = BTreeMap::new();
        let t0 = std::time::Instant::now();
        for round in 0..3 {
            if round > 0 && t0.elapsed().as_secs() > 90 * round as u64 {
                break;
            }
            let (small, large) = (run(&c.what, c.n, ctx)?, run(&c.what, 8 * c.n, ctx)?);
            if std::env::var("VH_TIMES").is_ok() {
                let t: Vec<String> = large.iter().map(|(k, b)| format!("{} {:.2}/{:.2}={:.1}", k, b, small[k], b / small[k])).collect();
                eprintln!("{:?}: {}", c, t.join(", "));
            }
            let mut bad = BTreeMap::new();
            for (k, b) in large {
                let a = small[k];
                if b > FLOOR && b > MOST * a && (round == 0 || worst.contains_key(k)) {
                    let r = b / a.max(1e-9);
                    let o = worst.get(k).copied().unwrap_or((r, a, b));
                    bad.insert(k, if r < o.0 { (r, a, b) } else { o });
                }
            }
            worst = bad;
            if worst.is_empty() {
                break;
            }
        }
        if let Some((k, (r, a, b))) = worst.iter().next() {
            return Err(format!("{}: {} items take {:.2} s, eight times as many {:.2} s, {:.1} times as long ({:?})", k, c.n, a, b, r, c.what));
        }
        let mut s = Seen::default();
        s.nontrivial = true;
        let t = format!("{:?}", c.what);
        s.label(t.split([' ', '{']).next().unwrap());
        Ok(s)
    }
}
