//! C05: XML that passes through keeps its meaning. C14: open and save is a fixed point.
use super::parts::{canon_rels, core_part, core_same, cycle_doc, PkgCase};
use crate::book::{xstring, xstring_of, Book};
use crate::docs;
use crate::gen;
use crate::hist::*;
use crate::pkg::*;
use crate::runner::*;
use crate::synth;
use crate::xml::{self, El};
use draviavemal_openxml_office::spreadsheet_2007::models::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ random documents

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct XEl {
    /// 0 default namespace, otherwise PREFIX[n]
    pfx: u8,
    name: String,
    /// declarations on this element: (prefix, namespace)
    decl: Vec<(u8, u8)>,
    attrs: Vec<(u8, String, Vec<Piece>)>,
    /// white space and comments between the children
    gap: u8,
    body: Body,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Body {
    SelfClosed,
    Empty,
    Text(Vec<Piece>),
    Kids(Vec<XEl>),
    /// a chain of nested elements
    Deep(u16, Box<XEl>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Piece {
    Plain(String),
    Dec(char),
    Hex(char),
    Cdata(String),
    Comment,
    Pi,
    /// white space as it stands
    Ws(u8),
}
const PREFIX: [&str; 8] = ["", "p", "q", "x14", "mc", "a", "r", "Ünï-1.x"];
const URI: [&str; 8] = ["urn:one", "urn:two", "http://example.com/a?b=1&c=2", "http://schemas.microsoft.com/office/spreadsheetml/2009/9/main", "urn:\"quoted\" <x>", "http://schemas.openxmlformats.org/drawingml/2006/main", "urn:one ", "urn:é"];
const WS: [&str; 6] = [" ", "\n", "\t", "\r\n", "  \n\t ", "\r"];

fn name() -> BoxedStrategy<String> {
    prop_oneof![
        6 => select(vec!["a", "b", "val", "ext", "c", "row", "v", "Name", "id", "uri", "w-x", "y.z", "_u", "n1", "xmlish", "lang", "space"]).prop_map(|s| s.to_string()),
        // names that are almost the same
        3 => select(vec!["val", "Val", "VAL", "va", "val_", "val-1", "val.1", "val1", "_val", "vál", "id", "Id", "ID"]).prop_map(|s| s.to_string()),
        1 => (1usize..4, select(vec![60usize, 255, 256, 1000])).prop_map(|(k, n)| format!("{}{}", "long_".repeat(n / 5), k)),
        1 => select(vec!["ééé", "名前", "Å_1", "ΔX-2.b", "ж"]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}
fn pieces(max: usize) -> BoxedStrategy<Vec<Piece>> {
    vec(
        prop_oneof![
            5 => gen::short_text().prop_map(Piece::Plain),
            1 => gen::ch().prop_map(Piece::Dec),
            1 => gen::ch().prop_map(Piece::Hex),
            1 => gen::short_text().prop_map(Piece::Cdata),
            1 => Just(Piece::Comment),
            1 => Just(Piece::Pi),
            2 => (0u8..6).prop_map(Piece::Ws),
        ],
        0..=max,
    )
    .boxed()
}
fn head() -> BoxedStrategy<(u8, String, Vec<(u8, u8)>, Vec<(u8, String, Vec<Piece>)>, u8)> {
    (
        prop_oneof![3 => Just(0u8), 2 => 1u8..8],
        name(),
        prop_oneof![3 => Just(vec![]), 2 => vec((0u8..8, 0u8..9), 1..3)],
        prop_oneof![
            12 => vec((prop_oneof![3 => Just(0u8), 1 => 1u8..8], name(), pieces(3)), 0..4),
            2 => vec((prop_oneof![3 => Just(0u8), 1 => 1u8..8], name(), pieces(1)), 4..20),
        ],
        any::<u8>(),
    )
        .boxed()
}
pub fn tree() -> BoxedStrategy<XEl> {
    let leaf = (head(), prop_oneof![1 => Just(Body::SelfClosed), 1 => Just(Body::Empty), 4 => pieces(4).prop_map(Body::Text)]);
    let mk = |((pfx, name, decl, attrs, gap), body): ((u8, String, Vec<(u8, u8)>, Vec<(u8, String, Vec<Piece>)>, u8), Body)| XEl { pfx, name, decl, attrs, gap, body };
    leaf.prop_map(mk)
        .prop_recursive(5, 24, 5, move |inner| {
            (
                head(),
                prop_oneof![
                    8 => vec(inner.clone(), 1..5).prop_map(Body::Kids),
                    1 => (select(vec![3u16, 20, 60, 250]), inner).prop_map(|(n, e)| Body::Deep(n, Box::new(e))),
                ],
            )
                .prop_map(mk)
        })
        .boxed()
}

/// Writer that keeps track of the scope, so that every document is namespace-well-formed
struct W {
    out: String,
    scope: Vec<BTreeMap<u8, String>>,
}
impl W {
    fn text(&mut self, p: &[Piece]) {
        for p in p {
            match p {
                Piece::Plain(s) => self.out.push_str(&xml::esc(s)),
                Piece::Dec(c) => self.out.push_str(&format!("&#{};", *c as u32)),
                Piece::Hex(c) => self.out.push_str(&format!("&#x{:X};", *c as u32)),
                Piece::Cdata(s) => self.out.push_str(&format!("<![CDATA[{}]]>", s.replace("]]>", "]] >").replace('\r', " ").trim_end_matches(']'))),
                Piece::Comment => self.out.push_str("<!-- note <b>&amp; -->"),
                Piece::Pi => self.out.push_str("<?pi some=\"thing\" <x>?>"),
                Piece::Ws(i) => self.out.push_str(WS[*i as usize % 6]),
            }
        }
    }
    fn value(&mut self, p: &[Piece], single: bool) {
        let q = if single { '\'' } else { '"' };
        self.out.push(q);
        for p in p {
            match p {
                Piece::Plain(s) | Piece::Cdata(s) => {
                    let t = xml::esc_at(s);
                    let t = if single { t.replace("&quot;", "\"").replace('\'', "&apos;") } else { t };
                    self.out.push_str(&t)
                }
                Piece::Dec(c) => self.out.push_str(&format!("&#{};", *c as u32)),
                Piece::Hex(c) => self.out.push_str(&format!("&#x{:x};", *c as u32)),
                Piece::Ws(i) => self.out.push_str(WS[*i as usize % 6]),
                Piece::Comment => self.out.push_str("&gt;"),
                Piece::Pi => self.out.push_str(">"),
            }
        }
        self.out.push(q);
    }
    fn gap(&mut self, g: u8) {
        match g % 8 {
            1 => self.out.push_str("\n  "),
            2 => self.out.push_str("<!-- between -->"),
            3 => self.out.push_str("\r\n\t<!---->\n"),
            4 => self.out.push_str("<?between?>"),
            _ => {}
        }
    }
    fn el(&mut self, e: &XEl) {
        let mut sc = self.scope.last().unwrap().clone();
        let mut decl: BTreeMap<u8, String> = BTreeMap::new();
        for (p, u) in &e.decl {
            let p = p % 8;
            if *u == 8 {
                if p == 0 {
                    decl.insert(0, String::new());
                }
                continue;
            }
            decl.insert(p, URI[*u as usize % 8].to_string());
        }
        sc.extend(decl.clone());
        // names without a declaration in scope get one here
        for p in std::iter::once(e.pfx).chain(e.attrs.iter().map(|a| a.0)) {
            let p = p % 8;
            if p != 0 && !sc.contains_key(&p) {
                decl.insert(p, URI[p as usize].to_string());
                sc.insert(p, URI[p as usize].to_string());
            }
        }
        let q = |p: u8, n: &str| if p % 8 == 0 { n.to_string() } else { format!("{}:{}", PREFIX[p as usize % 8], n) };
        let tag = q(e.pfx, &e.name);
        self.out.push('<');
        self.out.push_str(&tag);
        let mut have = BTreeSet::new();
        for (i, (p, n, v)) in e.attrs.iter().enumerate() {
            let key = if p % 8 == 0 { (String::new(), n.clone()) } else { (sc[&(p % 8)].clone(), n.clone()) };
            if !have.insert(key) {
                continue;
            }
            self.out.push_str([" ", "\n ", "  "][i % 3]);
            self.out.push_str(&q(*p, n));
            self.out.push_str(if e.gap % 5 == 0 { " = " } else { "=" });
            self.value(v, e.gap % 3 == 0);
        }
        for (p, u) in &decl {
            if *p == 0 {
                self.out.push_str(&format!(" xmlns=\"{}\"", xml::esc_at(u)));
            } else {
                self.out.push_str(&format!(" xmlns:{}=\"{}\"", PREFIX[*p as usize], xml::esc_at(u)));
            }
        }
        self.scope.push(sc);
        match &e.body {
            Body::SelfClosed => self.out.push_str("/>"),
            b => {
                self.out.push('>');
                match b {
                    Body::Text(p) => self.text(p),
                    Body::Kids(k) => {
                        self.gap(e.gap);
                        for x in k {
                            self.el(x);
                            self.gap(e.gap);
                        }
                    }
                    Body::Deep(n, x) => {
                        for i in 0..*n {
                            self.out.push_str(&format!("<d l=\"{}\">", i));
                        }
                        self.el(x);
                        for _ in 0..*n {
                            self.out.push_str("</d>");
                        }
                    }
                    _ => {}
                }
                self.out.push_str(&format!("</{}>", tag));
            }
        }
        self.scope.pop();
    }
}
pub fn render(k: &[XEl]) -> String {
    let mut w = W { out: String::new(), scope: vec![BTreeMap::new()] };
    for e in k {
        w.el(e)
    }
    w.out
}

// ------------------------------------------------------------------ C05

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct XmlCase {
    theme: Vec<XEl>,
    sheet: Vec<XEl>,
    book: Vec<XEl>,
    styles: Vec<XEl>,
    title: Vec<Piece>,
    target: Vec<Piece>,
    /// declaration, byte order mark, what stands before and behind the root
    form: u8,
    /// the sheet is opened and a cell written
    open: bool,
    /// more namespaces on the roots
    root_ns: Vec<(u8, u8)>,
}
const CORE_NS: &str = "xmlns:cp=\"http://schemas.openxmlformats.org/package/2006/metadata/core-properties\" xmlns:dc=\"http://purl.org/dc/elements/1.1/\" xmlns:dcterms=\"http://purl.org/dc/terms/\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\"";

impl XmlCase {
    fn around(&self, body: String) -> Vec<u8> {
        let f = self.form;
        let mut s = String::new();
        if f & 1 != 0 {
            s.push('\u{FEFF}');
        }
        s.push_str(["<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n", "<?xml version='1.0' encoding='utf-8'?>", "", "<?xml version=\"1.0\"?>\r\n"][(f >> 1) as usize & 3]);
        if f & 8 != 0 {
            s.push_str("<!-- made by a program -->\n");
        }
        s.push_str(&body);
        if f & 16 != 0 {
            s.push_str("\n<!-- end -->\n");
        }
        s.into_bytes()
    }
    fn ns(&self) -> String {
        let mut m = BTreeMap::new();
        for (p, u) in &self.root_ns {
            if p % 8 != 0 && p % 8 != 6 && p % 8 != 5 {
                m.insert(p % 8, u % 8);
            }
        }
        m.iter().map(|(p, u)| format!(" xmlns:{}=\"{}\"", PREFIX[*p as usize], xml::esc_at(URI[*u as usize]))).collect()
    }
    fn pkg(&self) -> BTreeMap<String, Vec<u8>> {
        let mut p = BTreeMap::new();
        let ns = self.ns();
        let rel = |v: &[(&str, &str, String, bool)]| -> String {
            let mut s = format!("<Relationships xmlns=\"{}\">", NS_REL);
            for (i, t, x, e) in v {
                s.push_str(&format!("<Relationship Id=\"{}\" Type=\"{}\" Target={}{}/>", i, t, x, if *e { " TargetMode=\"External\"" } else { "" }));
            }
            s + "</Relationships>"
        };
        let quoted = |s: &str| format!("\"{}\"", s);
        let mut w = W { out: String::new(), scope: vec![BTreeMap::new()] };
        w.out.push_str("");
        w.value(&self.target, false);
        let target = w.out.clone();
        let mut w = W { out: String::new(), scope: vec![BTreeMap::new()] };
        w.text(&self.title);
        let title = w.out;
        p.insert(
            "_rels/.rels".into(),
            self.around(rel(&[
                ("rId1", &format!("{}officeDocument", OD), quoted("xl/workbook.xml"), false),
                ("rId2", super::parts::CORE_REL, quoted("docProps/core.xml"), false),
                ("rId&quot;3", "urn:x-test", target.clone(), true),
            ])),
        );
        p.insert(
            "xl/_rels/workbook.xml.rels".into(),
            self.around(rel(&[
                ("rId1", &format!("{}worksheet", OD), quoted("worksheets/sheet1.xml"), false),
                ("rId2", &format!("{}styles", OD), quoted("styles.xml"), false),
                ("rId3", &format!("{}theme", OD), quoted("theme/theme1.xml"), false),
                ("rId4", "urn:x-test", target.clone(), true),
            ])),
        );
        p.insert("xl/worksheets/_rels/sheet1.xml.rels".into(), self.around(rel(&[("rId7", &format!("{}hyperlink", OD), target, true)])));
        p.insert(
            "xl/workbook.xml".into(),
            self.around(format!(
                "<workbook xmlns=\"{}\" xmlns:r=\"{}\"{}><sheets><sheet name=\"S\" sheetId=\"1\" r:id=\"rId1\"/></sheets><extLst>{}</extLst></workbook>",
                NS_MAIN,
                NS_R,
                ns,
                render(&self.book)
            )),
        );
        p.insert(
            "xl/worksheets/sheet1.xml".into(),
            self.around(format!(
                "<worksheet xmlns=\"{}\" xmlns:r=\"{}\"{}><sheetData/><hyperlinks><hyperlink ref=\"A1\" r:id=\"rId7\"/></hyperlinks><extLst>{}</extLst></worksheet>",
                NS_MAIN,
                NS_R,
                ns,
                render(&self.sheet)
            )),
        );
        p.insert(
            "xl/theme/theme1.xml".into(),
            self.around(format!("<a:theme xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\" name=\"T\"{}>{}</a:theme>", ns, render(&self.theme))),
        );
        p.insert(
            "xl/styles.xml".into(),
            self.around(format!(
                "<styleSheet xmlns=\"{}\"{}><fonts count=\"1\"><font/></fonts><fills count=\"2\"><fill/><fill/></fills><borders count=\"1\"><border/></borders><cellStyleXfs count=\"1\"><xf/></cellStyleXfs><cellXfs count=\"1\"><xf/></cellXfs><extLst>{}</extLst></styleSheet>",
                NS_MAIN,
                ns,
                render(&self.styles)
            )),
        );
        p.insert("docProps/core.xml".into(), self.around(format!("<cp:coreProperties {}{}><dc:title>{}</dc:title></cp:coreProperties>", CORE_NS, ns, title)));
        p
    }
}
const CT: &str = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><Types xmlns=\"http://schemas.openxmlformats.org/package/2006/content-types\"><Default Extension=\"rels\" ContentType=\"application/vnd.openxmlformats-package.relationships+xml\"/><Default Extension=\"xml\" ContentType=\"application/xml\"/><Override PartName=\"/xl/workbook.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml\"/><Override PartName=\"/xl/worksheets/sheet1.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml\"/><Override PartName=\"/xl/styles.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.spreadsheetml.styles+xml\"/><Override PartName=\"/xl/theme/theme1.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.theme+xml\"/><Override PartName=\"/docProps/core.xml\" ContentType=\"application/vnd.openxmlformats-package.core-properties+xml\"/></Types>";

/// Differences between the re-written parts of two packages
fn same_meaning(a: &Pkg, b: &Pkg, opened: bool) -> Result<(), String> {
    let d = |p: &str, x: &El, y: &El| xml::diff(x, y).map_or(Ok(()), |m| Err(format!("{}: {}", p, m)));
    d("theme", &a.xml("xl/theme/theme1.xml")?, &b.xml("xl/theme/theme1.xml")?)?;
    for p in ["xl/workbook.xml", "xl/styles.xml", "xl/worksheets/sheet1.xml"] {
        let (x, y) = (a.xml(p)?, b.xml(p)?);
        if !opened && p.contains("sheet1") && a.parts[p] != b.parts[p] {
            return Err(format!("{} was not opened and changed", p));
        }
        if x.attrs != y.attrs {
            return Err(format!("{}: root attributes {:?} became {:?}", p, x.attrs, y.attrs));
        }
        for k in ["extLst", "hyperlinks"] {
            match (x.first(k), y.first(k)) {
                (Some(x), Some(y)) => d(p, x, y)?,
                (None, None) => {}
                (x, _) => return Err(format!("{}: {} {}", p, k, if x.is_some() { "is gone" } else { "appeared" })),
            }
        }
    }
    let c = "docProps/core.xml";
    core_same(&a.xml(c)?, &b.xml(c)?)?;
    for s in ["", "xl/workbook.xml", "xl/worksheets/sheet1.xml"] {
        let (x, y) = (canon_rels(a, s)?, canon_rels(b, s)?);
        for r in x.difference(&y) {
            return Err(format!("relationship {:?} of {:?} is gone, there are {:?}", r, s, y));
        }
    }
    Ok(())
}

pub struct C05;
impl Prop for C05 {
    type Case = XmlCase;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn quick(&self) -> u32 {
        1730
    }
    fn rule(&self) -> &'static str {
        "random namespace-well-formed trees (nested, re-declared and undeclared namespaces, prefixes, non-ASCII names, attributes in both quotes with every escape and white space, text of references, CDATA sections, comments and processing instructions, depth up to 250) in the theme, in extension lists of workbook, sheet and styles, in core properties and in relationship targets; the saved parts are parsed by an independent parser and compared as trees after one and two rounds; non-trivial: the trees have at least 4 elements or attributes with at least one escape, reference, CDATA section or namespace declaration"
    }
    fn strategy(&self) -> BoxedStrategy<XmlCase> {
        let t = || vec(tree(), 0..3);
        (t(), t(), t(), vec(tree(), 0..2), pieces(4), pieces(4), any::<u8>(), prop::bool::weighted(0.7), vec((0u8..8, 0u8..8), 0..4))
            .prop_map(|(theme, sheet, book, styles, title, target, form, open, root_ns)| XmlCase { theme, sheet, book, styles, title, target, form, open, root_ns })
            .boxed()
    }
    fn check(&self, c: &XmlCase, ctx: &Ctx) -> Verdict {
        let src = ctx.file("src.xlsx");
        let parts = c.pkg();
        std::fs::write(&src, write_zip(&parts, Some(CT.as_bytes()), false)).map_err(|e| format!("HARNESS: {}", e))?;
        let a = Pkg::read(&src).map_err(|e| format!("HARNESS: {}", e))?;
        for n in parts.keys() {
            a.xml(n).map_err(|e| format!("HARNESS: generated XML is not well-formed: {}", e))?;
        }
        let round = |from: &str, to: &str| -> Result<Pkg, String> {
            let mut s = Session::open(Some(from))?;
            if c.open {
                let mut ws = s.ex.get_worksheet_mut("S".into()).map_err(|e| format!("sheet refused: {:?}", e))?;
                ws.set_row_value_index_mut(1, 1, vec![CellProperties::default()]).map_err(|e| format!("write refused: {:?}", e))?;
            }
            s.save(to)?;
            Pkg::read(to)
        };
        let one = ctx.file("one.xlsx");
        let b = round(&src, &one)?;
        same_meaning(&a, &b, c.open)?;
        let two = ctx.file("two.xlsx");
        let b2 = round(&one, &two)?;
        same_meaning(&b, &b2, c.open).map_err(|e| format!("second round: {}", e))?;
        let text: String = [&c.theme, &c.sheet, &c.book].iter().map(|k| render(k)).collect();
        let mut s = Seen::default();
        let n = text.matches('<').count();
        for (l, hit) in [
            ("CDATA", text.contains("<![CDATA[")),
            ("references", text.contains("&#")),
            ("namespace declarations", text.contains("xmlns")),
            ("default namespace undeclared", text.contains("xmlns=\"\"")),
            ("deep nesting", text.contains("<d l=\"59\">")),
            ("comments", text.contains("<!--")),
        ] {
            if hit {
                s.label(l);
            }
        }
        s.nontrivial = n >= 8 && s.labels.iter().any(|l| l != "comments");
        Ok(s)
    }
}

// ------------------------------------------------------------------ C14

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct DriftCase {
    base: PkgCase,
    /// 0 plain, 1 open every sheet, 2 re-write values, 3 open one sheet, 4 request the same styles again, 5 list only
    rounds: Vec<(u8, u8)>,
}
pub fn is_xml(n: &str) -> bool {
    let l = n.to_ascii_lowercase();
    l.contains("worksheets/sheet") || l.ends_with(".xml") || l.ends_with(".rels") || l.ends_with(".psmdcp")
}
/// Every part means the same. With `cells`, sheet data is compared as cells and rows by the caller;
/// without `times`, the creation time may differ (the packages were made one after the other)
pub fn no_drift(a: &Pkg, b: &Pkg, cells: bool, times: bool) -> Result<(), String> {
    for n in b.parts.keys() {
        if !a.parts.contains_key(n) {
            return Err(format!("part {} appeared", n));
        }
    }
    let core = core_part(a)?;
    for (n, x) in &a.parts {
        let y = b.parts.get(n).ok_or(format!("part {} is gone", n))?;
        if a.ctype(n) != b.ctype(n) {
            return Err(format!("content type of {}: {:?} became {:?}", n, a.ctype(n), b.ctype(n)));
        }
        if x == y {
            continue;
        }
        if !is_xml(n) {
            return Err(format!("part {} changed", n));
        }
        if let Some(src) = rels_source(n).filter(|_| n.ends_with(".rels")) {
            let (p, q) = (canon_rels(a, &src)?, canon_rels(b, &src)?);
            if p != q {
                return Err(format!("relationships {:?} became {:?}", p, q));
            }
            continue;
        }
        let (mut p, mut q) = (a.xml(n)?, b.xml(n)?);
        if Some(n) == core.as_ref() {
            core_same(&p, &q)?;
            let created = |e: &El| e.els().find(|x| x.local == "created").map(|x| x.text());
            if times && created(&p) != created(&q) {
                return Err(format!("creation time {:?} became {:?}", created(&p), created(&q)));
            }
            continue;
        }
        if cells && p.local == "worksheet" {
            for e in [&mut p, &mut q] {
                e.kids.retain(|k| !matches!(k, xml::Node::El(x) if x.local == "sheetData"));
            }
        }
        if let Some(d) = xml::diff(&p, &q) {
            return Err(format!("part {}: {}", n, d));
        }
    }
    Ok(())
}
fn cells_same(a: &Book, b: &Book) -> Result<(), String> {
    for r in &a.sheets {
        let (x, y) = (a.sheet(&r.name)?, b.sheet(&r.name)?);
        cmp_cells(&x.cells, &y.cells).map_err(|e| format!("sheet {:?}: {}", r.name, e))?;
        if x.rows != y.rows {
            return Err(format!("sheet {:?}: rows {:?} became {:?}", r.name, x.rows, y.rows));
        }
    }
    Ok(())
}
/// A write that says what the cell says already
fn same_write(c: &crate::book::CellV) -> Option<CellW> {
    if c.f.is_some() || c.rich.is_some() || c.s != 0 || !c.other.is_empty() {
        return None;
    }
    let t = match c.t.as_str() {
        "n" => Ty::Number,
        "b" => Ty::Boolean,
        "e" => Ty::Error,
        "str" => Ty::Str,
        "inlineStr" => Ty::Inline,
        "s" => Ty::Share,
        _ => return None,
    };
    let w = CellW { v: c.val.clone(), t, f: None, style: None };
    Some(w).filter(|w| expected(w, &[]).same(c) && w.v.as_ref().map_or(true, |v| v.chars().all(xml::is_char)))
}

pub struct C14;
impl Prop for C14 {
    type Case = DriftCase;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn quick(&self) -> u32 {
        270
    }
    fn rule(&self) -> &'static str {
        "synthetic and new workbooks, documents and presentations after a random history and one more session that opens every sheet; then 1 to 4 sessions that change nothing (plain, opening one or all sheets in several ways, writing the values that are there again, requesting the same styles again, listing); after each, every part is compared as a tree (sheets with re-written values as cells and rows), relationships as sets, everything else as bytes; non-trivial: at least 2 such sessions, one of them opening sheets, on a workbook with at least 3 cells"
    }
    fn strategy(&self) -> BoxedStrategy<DriftCase> {
        let w = Weights { foreign: 75, sessions: 2, ops: 5, edits: 3, write: 5, row: 2, col: 2, style: 2, delete: 1, rename: 1, window: 1, add: 2, sheet: 4, handle: 1, mix: synth::Mix { sheets: (1, 3), extras: 2, parts: (0, 3), ..synth::PLAIN }, ..BASE };
        (
            prop_oneof![8 => history(w).prop_map(PkgCase::Book), 1 => (docs::doc(), Just(1u8)).prop_map(|(d, n)| PkgCase::Doc(d, n))],
            vec((prop_oneof![2 => Just(0u8), 3 => Just(1u8), 3 => Just(2u8), 1 => Just(3u8), 2 => Just(4u8), 1 => Just(5u8)], any::<u8>()), 1..5),
        )
            .prop_map(|(base, rounds)| DriftCase { base, rounds })
            .boxed()
    }
    fn check(&self, c: &DriftCase, ctx: &Ctx) -> Verdict {
        let mut seen = Seen::default();
        let h = match &c.base {
            PkgCase::Doc(d, _) => {
                let mut from = ctx.file("src.bin");
                std::fs::write(&from, d.bytes()).map_err(|e| format!("HARNESS: {}", e))?;
                let mut prev: Option<Pkg> = None;
                for i in 0..=c.rounds.len() {
                    let out = ctx.file(&format!("d{}", i));
                    cycle_doc(d.pptx, &from, &out)?;
                    let b = Pkg::read(&out)?;
                    if let Some(a) = &prev {
                        no_drift(a, &b, false, true).map_err(|e| format!("round {}: {}", i, e))?;
                    }
                    prev = Some(b);
                    from = out;
                }
                seen.label("document or presentation");
                return Ok(seen);
            }
            PkgCase::Book(h) => h,
        };
        let m = run(h, ctx, 0, |_, _, _, _| Ok(()))?;
        let mut from = ctx.file(&format!("s{}.xlsx", h.sessions.len() - 1));
        let open = |s: &mut Session, name: &str, get: bool| {
            let r = if get { s.ex.get_worksheet_mut(name.into()) } else { s.ex.add_sheet_mut(Some(name.into())) };
            r.map_err(|e| format!("sheet {:?} refused: {:?}", name, e))
        };
        // normal form: every sheet opened once
        let base = ctx.file("base.xlsx");
        let mut s = Session::open(Some(&from))?;
        for n in m.names() {
            open(&mut s, &n, true)?;
        }
        s.save(&base)?;
        let a = Book::read(&base)?;
        from = base;
        let cells: usize = a.sheets.iter().map(|r| a.sheet(&r.name).map_or(0, |s| s.cells.len())).sum();
        let mut written = 0;
        for (i, (k, sel)) in c.rounds.iter().enumerate() {
            let e = |x: String| format!("session {} that changes nothing (kind {}): {}", i, k % 6, x);
            let mut s = Session::open(Some(&from)).map_err(e)?;
            match k % 6 {
                1 => {
                    let mut v = m.names();
                    if sel & 1 != 0 {
                        v.reverse();
                    }
                    let mut keep = vec![];
                    for n in v {
                        let ws = open(&mut s, &n, sel & 2 != 0).map_err(e)?;
                        if sel & 4 != 0 {
                            keep.push(ws);
                        }
                    }
                }
                2 => {
                    // texts that another program spelt with escapes the library does not need
                    let odd: std::collections::BTreeSet<String> = a.sst.iter().flat_map(|e| e.all("t")).map(|t| t.text()).filter(|t| xstring_of(&xstring(t)) != *t).map(|t| xstring(&t)).collect();
                    for n in m.names() {
                        let sh = a.sheet(&n)?;
                        let mut ws = open(&mut s, &n, sel & 2 != 0).map_err(e)?;
                        let mut todo: Vec<_> = sh.cells.iter().filter_map(|(p, v)| same_write(v).filter(|w| w.v.as_ref().map_or(true, |t| !odd.contains(t))).map(|w| (*p, w))).collect();
                        if sel & 1 != 0 {
                            todo.reverse();
                        }
                        for ((row, col), w) in todo.into_iter().take(40) {
                            edit_lib(&mut ws, &Edit::Write { row, col, by: sel >> 3 & 3, cells: vec![w] }, &[]).map_err(e)?;
                            written += 1;
                        }
                    }
                }
                3 => {
                    let v = m.names();
                    open(&mut s, &v[*sel as usize % v.len()], sel & 64 != 0).map_err(e)?;
                }
                4 => {
                    // those of the last session, by the ids that the file still has
                    let xf = |id: u32| a.styles.as_ref().and_then(|s| s.first("cellXfs")).and_then(|x| x.els().nth(id as usize)).map(|e| e.canon());
                    for (r, id) in &m.requests {
                        let got = s.ex.get_style_id_mut(r.setting()).map_err(|x| e(format!("get_style_id refused: {:?}", x)))?.get_id();
                        if got != *id && xf(got) != xf(*id) {
                            return Err(e(format!("style {:?} had id {} and now has {}", r, id, got)));
                        }
                    }
                }
                5 => {
                    if s.list().map_err(e)? != m.names() {
                        return Err(e(format!("sheets {:?}, expected {:?}", s.list()?, m.names())));
                    }
                }
                _ => {}
            }
            let out = ctx.file(&format!("r{}.xlsx", i));
            s.save(&out).map_err(e)?;
            let b = Book::read(&out).map_err(e)?;
            no_drift(&a.pkg, &b.pkg, k % 6 == 2 || written > 0, true).map_err(e)?;
            if k % 6 == 2 || written > 0 {
                cells_same(&a, &b).map_err(e)?;
            }
            from = out;
            seen.label(["plain", "open all", "re-write", "open one", "same styles", "list"][*k as usize % 6]);
        }
        super::hp::labels(h, &m, &mut seen);
        seen.nontrivial = c.rounds.len() >= 2 && cells >= 3 && c.rounds.iter().any(|r| (1..=3).contains(&(r.0 % 6)));
        Ok(seen)
    }
}
