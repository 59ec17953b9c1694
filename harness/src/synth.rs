//! Synthetic workbooks as other programs write them: a serialisable description, a generator for
//! descriptions, and a writer to a package.
use crate::book::{cell_name, col_name};
use crate::gen;
use crate::pkg::*;
use crate::xml::{esc, esc_at};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub type Attrs = Vec<(String, String)>;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct BookSpec {
    pub lay: Layout,
    pub sheets: Vec<SheetSpec>,
    pub sst: Vec<Sst>,
    pub has_sst: bool,
    pub styles: Option<StyleSpec>,
    pub view: Option<Attrs>,
    pub wb_extra: u32,
    pub core: Option<CoreSpec>,
    pub calc_chain: bool,
    pub extra: Vec<ExtraPart>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Layout {
    pub abs_root: bool,
    pub abs_wb: bool,
    pub wb_path: u8,
    pub sheet_path: u8,
    pub words: bool,
    pub stored: bool,
    pub theme: bool,
    pub app: bool,
    pub rid: u8,
    pub ct_override_all: bool,
    pub pretty: bool,
    pub bom: bool,
    pub decl: bool,
    pub dir_entries: bool,
    pub upper_ext: bool,
    /// type that the package declares for the extension xml: 0 application/xml, else that of sheets, workbook, styles or strings
    #[serde(default)]
    pub ct_xml: u8,
    /// other spellings of the XML parts: features (spell.rs) and a seed for their places
    #[serde(default)]
    pub spell: (u32, u16),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SheetSpec {
    pub name: String,
    pub state: u8,
    pub id_gap: u8,
    pub cols: Vec<ColSpec>,
    pub rows: Vec<RowSpec>,
    pub views: Option<Vec<ViewSpec>>,
    pub extras: u64,
    pub variant: u8,
    pub dim: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ColSpec {
    pub gap: u16,
    pub len: u16,
    pub width: Option<String>,
    pub custom: bool,
    pub hidden: bool,
    pub best: bool,
    pub style: Option<u8>,
    pub level: u8,
    pub collapsed: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RowSpec {
    pub r: u32,
    pub no_r: bool,
    pub ht: Option<String>,
    pub custom_ht: bool,
    pub hidden: bool,
    pub style: Option<u8>,
    pub level: u8,
    pub collapsed: bool,
    pub thick: u8,
    pub spans: bool,
    pub dy: bool,
    pub cells: Vec<CellSpec>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CellSpec {
    pub c: u32,
    pub no_r: bool,
    pub kind: CellKind,
    pub style: Option<u8>,
    pub meta: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum CellKind {
    Num(String, bool),
    Sst(u32),
    Inline(String),
    InlineRich(String, String),
    Bool(bool),
    Err(u8),
    Str(String),
    Blank,
    /// formula text, cached value, type of the cached value
    F(String, Option<String>, u8),
    SharedMaster(String, u8),
    SharedChild(u8),
    Array(String),
    DataTable,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Sst {
    Plain(String),
    Rich(Vec<(u8, String)>),
    Phonetic(String, String),
    Empty,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ViewSpec {
    pub attrs: Attrs,
    pub pane: u8,
    pub sels: u8,
    pub ext: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct StyleSpec {
    pub fonts: Vec<u8>,
    pub fills: Vec<u8>,
    pub borders: Vec<u8>,
    pub numfmts: Vec<(u32, String)>,
    pub xfs: Vec<[u8; 6]>,
    pub style_xfs: u8,
    pub extras: u8,
    /// cell formats that are, or almost are, what a session will ask for
    #[serde(default)]
    pub near: Vec<Near>,
}
/// One cell format with records of its own
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Near {
    pub font: String,
    pub fill: String,
    pub border: String,
    pub code: Option<String>,
    pub builtin: u16,
    pub attrs: String,
    pub inner: String,
    pub own_base: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CoreSpec {
    pub fields: u16,
    pub created: Option<String>,
    pub modified: Option<String>,
    pub text: String,
    pub path: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ExtraPart {
    pub dir: u8,
    pub name: String,
    pub ext: String,
    /// 0 default by extension, 1 override
    pub ct: u8,
    pub data: Vec<u8>,
    pub repeat: u16,
    pub rel: u8,
}

// ------------------------------------------------------------------ generators

pub fn layout() -> BoxedStrategy<Layout> {
    layout_spelt(15)
}
pub fn layout_spelt(percent: u32) -> BoxedStrategy<Layout> {
    let b = any::<bool>;
    let rare = || prop::bool::weighted(0.15);
    let sheet_path = prop_oneof![4 => 0u8..4, 1 => 4u8..6];
    let ct_xml = prop_oneof![5 => Just(0u8), 2 => Just(1), 1 => 2u8..5];
    ((b(), b(), 0u8..4, sheet_path, b(), rare(), b(), b()), (0u8..4, rare(), b(), rare(), prop::bool::weighted(0.9), rare(), rare(), ct_xml), spelling(percent))
        .prop_map(|((abs_root, abs_wb, wb_path, sheet_path, words, stored, theme, app), (rid, ct_override_all, pretty, bom, decl, dir_entries, upper_ext, ct_xml), spell)| Layout {
            abs_root,
            abs_wb,
            wb_path,
            sheet_path,
            words,
            stored,
            theme,
            app,
            rid,
            ct_override_all,
            pretty,
            bom,
            decl,
            dir_entries,
            upper_ext,
            ct_xml,
            spell,
        })
        .boxed()
}
/// Other spellings in `percent` of the cases
pub fn spelling(percent: u32) -> BoxedStrategy<(u32, u16)> {
    use crate::spell::*;
    let some = prop_oneof![
        3 => select((0..14).map(|i| 1u32 << i).collect::<Vec<_>>()),
        2 => any::<u32>().prop_map(|x| x & ALL),
        1 => Just(ALL & !(U16LE | U16BE)),
        1 => Just(PREFIX | RELP | LOCALR),
    ];
    prop_oneof![(100 - percent) => Just((0u32, 0u16)), percent => (some, any::<u16>())].boxed()
}

pub fn cell_kind() -> BoxedStrategy<CellKind> {
    prop_oneof![
        5 => (gen::number(), any::<bool>()).prop_map(|(n, b)| CellKind::Num(n, b)),
        6 => (0u32..65536).prop_map(CellKind::Sst),
        2 => gen::text().prop_map(CellKind::Inline),
        2 => (gen::short_text(), gen::short_text()).prop_map(|(a, b)| CellKind::InlineRich(a, b)),
        2 => any::<bool>().prop_map(CellKind::Bool),
        1 => (0u8..8).prop_map(CellKind::Err),
        2 => gen::short_text().prop_map(CellKind::Str),
        2 => Just(CellKind::Blank),
        4 => (gen::formula(), prop::option::of(gen::short_text()), 0u8..4).prop_map(|(f, v, t)| CellKind::F(f, v, t)),
        1 => (gen::formula(), 0u8..4).prop_map(|(f, i)| CellKind::SharedMaster(f, i)),
        1 => (0u8..4).prop_map(CellKind::SharedChild),
        1 => gen::formula().prop_map(CellKind::Array),
        1 => Just(CellKind::DataTable),
    ]
    .boxed()
}
pub fn cell_spec() -> BoxedStrategy<CellSpec> {
    (gen::col(), prop::bool::weighted(0.1), cell_kind(), prop::option::weighted(0.4, 0u8..12), prop_oneof![8 => Just(0u8), 1 => 1u8..8])
        .prop_map(|(c, no_r, kind, style, meta)| CellSpec { c, no_r, kind, style, meta })
        .boxed()
}
pub fn row_spec() -> BoxedStrategy<RowSpec> {
    let rare = || prop::bool::weighted(0.15);
    (
        (gen::row(), prop::bool::weighted(0.1), prop::option::weighted(0.3, select(vec!["15", "20.25", "12.75", "0", "409.5", "15.6"])), any::<bool>(), rare(), prop::option::weighted(0.2, 0u8..12)),
        (prop_oneof![5 => Just(0u8), 1 => 1u8..8], rare(), prop_oneof![6 => Just(0u8), 1 => 1u8..4], any::<bool>(), rare(), vec(cell_spec(), 0..6)),
    )
        .prop_map(|((r, no_r, ht, custom_ht, hidden, style), (level, collapsed, thick, spans, dy, mut cells))| {
            cells.sort_by_key(|c| c.c);
            cells.dedup_by_key(|c| c.c);
            RowSpec { r, no_r, ht: ht.map(|s| s.to_string()), custom_ht, hidden, style, level, collapsed, thick, spans, dy, cells }
        })
        .boxed()
}
pub fn col_spec() -> BoxedStrategy<ColSpec> {
    let rare = || prop::bool::weighted(0.3);
    (
        prop_oneof![3 => Just(0u16), 3 => 1u16..5, 1 => 1u16..9000],
        prop_oneof![4 => Just(1u16), 3 => 2u16..6, 1 => 6u16..9000],
        prop::option::weighted(0.7, select(vec!["8.43", "10", "0", "255", "9.140625", "12.7109375", "3.5"])),
        prop::bool::weighted(0.7),
        rare(),
        rare(),
        prop::option::weighted(0.3, 0u8..12),
        prop_oneof![5 => Just(0u8), 1 => 1u8..8],
        rare(),
    )
        .prop_map(|(gap, len, width, custom, hidden, best, style, level, collapsed)| ColSpec { gap, len, width: width.map(|s| s.to_string()), custom, hidden, best, style, level, collapsed })
        .boxed()
}
const VIEW_BOOLS: [&str; 12] = ["windowProtection", "showFormulas", "showGridLines", "showRowColHeaders", "showZeros", "rightToLeft", "tabSelected", "showRuler", "showOutlineSymbols", "defaultGridColor", "showWhiteSpace", "x"];
pub fn view_spec() -> BoxedStrategy<ViewSpec> {
    (
        vec((0usize..11, any::<bool>(), any::<bool>()), 0..8),
        prop::option::weighted(0.4, select(vec!["normal", "pageBreakPreview", "pageLayout"])),
        prop::option::weighted(0.4, select(vec!["A1", "B20", "XFD1048576", "AA100"])),
        vec((0usize..4, select(vec!["10", "100", "400", "85", "0", "55"])), 0..4),
        prop::option::weighted(0.2, 0u8..65),
        (0u8..6, 0u8..5, prop::bool::weighted(0.15)),
    )
        .prop_map(|(bools, view, tl, zooms, color, (pane, sels, ext))| {
            let mut m: BTreeMap<String, String> = BTreeMap::new();
            for (i, v, w) in bools {
                let t = match (v, w) {
                    (true, true) => "1",
                    (false, true) => "0",
                    (true, false) => "true",
                    (false, false) => "false",
                };
                m.insert(VIEW_BOOLS[i].into(), t.into());
            }
            if let Some(v) = view {
                m.insert("view".into(), v.into());
            }
            if let Some(v) = tl {
                m.insert("topLeftCell".into(), v.into());
            }
            for (i, z) in zooms {
                m.insert(["zoomScale", "zoomScaleNormal", "zoomScaleSheetLayoutView", "zoomScalePageLayoutView"][i].into(), z.into());
            }
            if let Some(c) = color {
                m.insert("colorId".into(), c.to_string());
            }
            ViewSpec { attrs: m.into_iter().collect(), pane, sels, ext }
        })
        .boxed()
}
/// extras: how many of the unmodelled elements a sheet has
pub fn sheet_spec(extras: u8) -> BoxedStrategy<SheetSpec> {
    let ex = match extras {
        0 => Just(0u64).boxed(),
        1 => prop_oneof![3 => Just(0u64), 2 => any::<u64>().prop_map(|a| a & (a >> 7) & (a >> 23))].boxed(),
        _ => prop_oneof![1 => any::<u64>(), 2 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| a & b), 1 => Just(u64::MAX)].boxed(),
    };
    (
        (gen::sheet_name(), prop_oneof![6 => Just(0u8), 1 => 1u8..4], prop_oneof![4 => Just(0u8), 1 => 1u8..20]),
        prop_oneof![2 => Just(vec![]), 3 => vec(col_spec(), 0..5)],
        vec(row_spec(), 0..6),
        prop_oneof![1 => Just(None), 2 => vec(view_spec(), 1..3).prop_map(Some)],
        ex,
        any::<u8>(),
        any::<bool>(),
    )
        .prop_map(|((name, state, id_gap), cols, mut rows, views, extras, variant, dim)| {
            rows.sort_by_key(|r| r.r);
            rows.dedup_by_key(|r| r.r);
            SheetSpec { name, state, id_gap, cols, rows, views, extras, variant, dim }
        })
        .boxed()
}
pub fn sst() -> BoxedStrategy<Sst> {
    prop_oneof![
        8 => gen::text().prop_map(Sst::Plain),
        3 => vec((any::<u8>(), gen::short_text()), 1..4).prop_map(Sst::Rich),
        1 => (gen::short_text(), gen::short_text()).prop_map(|(a, b)| Sst::Phonetic(a, b)),
        1 => Just(Sst::Empty),
    ]
    .boxed()
}
pub fn style_spec() -> BoxedStrategy<StyleSpec> {
    (
        vec(any::<u8>(), 1..6),
        vec(any::<u8>(), 0..5),
        vec(any::<u8>(), 0..5),
        vec((prop_oneof![16 => 164u32..180, 16 => 164u32..2000, 1 => 65530u32..66000, 1 => 100_000u32..1_000_000], select(vec!["0.000", "#,##0.00\\ \"€\"", "yyyy\\-mm\\-dd", "General\"x\"", "[Red]0;[Blue]-0", "0.0%", "\"<&>\"0", "@", "0;-0;;@"])), 0..4),
        vec(any::<[u8; 6]>(), 1..9),
        1u8..4,
        any::<u8>(),
    )
        .prop_map(|(fonts, fills, borders, n, xfs, style_xfs, extras)| {
            let mut seen = BTreeSet::new();
            let numfmts = n.into_iter().filter(|x| seen.insert(x.0)).map(|(a, b)| (a, b.to_string())).collect();
            StyleSpec { fonts, fills, borders, numfmts, xfs, style_xfs, extras, near: vec![] }
        })
        .boxed()
}
pub fn core_spec() -> BoxedStrategy<CoreSpec> {
    let when = || prop::option::weighted(0.7, select(vec!["2020-01-02T03:04:05Z", "1999-12-31T23:59:59.123Z", "2015-06-05T18:17:20+02:00", "2001", "2010-05"]));
    (any::<u16>(), when(), when(), gen::short_text(), 0u8..3)
        .prop_map(|(fields, c, m, text, path)| CoreSpec { fields, created: c.map(|s| s.to_string()), modified: m.map(|s| s.to_string()), text, path })
        .boxed()
}
pub fn extra_part() -> BoxedStrategy<ExtraPart> {
    (
        0u8..8,
        select(vec!["image1", "image2", "Bild ü", "chart1", "drawing1", "item1", "a b", "vbaProject", "UPPER", "x.y.z", "printerSettings1", "data"]),
        select(vec!["png", "PNG", "jpeg", "bin", "xml", "vml", "txt", "emf", "json", "", "foo", "rels2", "XML"]),
        0u8..2,
        vec(any::<u8>(), 0..40),
        prop_oneof![6 => Just(1u16), 2 => 2u16..100, 1 => 2000u16..6000],
        0u8..3,
    )
        .prop_map(|(dir, name, ext, ct, data, repeat, rel)| ExtraPart { dir, name: name.into(), ext: ext.into(), ct, data, repeat, rel })
        .boxed()
}

#[derive(Clone, Copy)]
pub struct Mix {
    pub sheets: (usize, usize),
    pub extras: u8,
    pub parts: (usize, usize),
    /// percentage of books in other spellings
    pub spell: u32,
}
pub const PLAIN: Mix = Mix { sheets: (1, 4), extras: 1, parts: (0, 2), spell: 15 };

pub fn book(m: Mix) -> BoxedStrategy<BookSpec> {
    (
        layout_spelt(m.spell),
        vec(sheet_spec(m.extras), m.sheets.0..=m.sheets.1),
        (vec(sst(), 0..8), prop::bool::weighted(0.85)),
        prop::option::weighted(0.85, style_spec()),
        prop::option::weighted(0.7, wb_view()),
        any::<u32>(),
        prop::option::weighted(0.8, core_spec()),
        prop::bool::weighted(0.4),
        vec(extra_part(), m.parts.0..=m.parts.1),
    )
        .prop_map(|(lay, mut sheets, (sst, has_sst), styles, view, wb_extra, core, calc_chain, extra)| {
            // sheet names ignore case
            let mut seen = BTreeSet::new();
            for (i, s) in sheets.iter_mut().enumerate() {
                while !seen.insert(s.name.to_lowercase()) {
                    s.name = format!("{}{}", s.name.chars().take(20).collect::<String>(), i);
                }
            }
            // at least one visible sheet
            if sheets.iter().all(|s| s.state == 1 || s.state == 2) {
                sheets[0].state = 0;
            }
            BookSpec { lay, sheets, sst, has_sst, styles, view, wb_extra, core, calc_chain, extra }
        })
        .boxed()
}
pub fn wb_view() -> BoxedStrategy<Attrs> {
    let b = || prop::option::weighted(0.4, select(vec!["0", "1", "true", "false"]));
    (
        prop::option::weighted(0.4, select(vec!["visible", "hidden", "veryHidden"])),
        (b(), b(), b(), b(), b()),
        prop::option::weighted(0.5, (-500i32..30000, -500i32..30000, 0u32..30000, 0u32..30000)),
        prop::option::weighted(0.4, select(vec!["0", "600", "1000", "723"])),
        prop::option::weighted(0.3, 0u8..3),
        prop::option::weighted(0.5, 0u8..4),
    )
        .prop_map(|(vis, (mi, tabs, h, v, af), win, ratio, first, active)| {
            let mut a: Attrs = vec![];
            let mut put = |k: &str, v: Option<String>| {
                if let Some(v) = v {
                    a.push((k.to_string(), v))
                }
            };
            put("visibility", vis.map(|s| s.to_string()));
            put("minimized", mi.map(|s| s.to_string()));
            put("showHorizontalScroll", h.map(|s| s.to_string()));
            put("showVerticalScroll", v.map(|s| s.to_string()));
            put("showSheetTabs", tabs.map(|s| s.to_string()));
            if let Some((x, y, w, hh)) = win {
                put("xWindow", Some(x.to_string()));
                put("yWindow", Some(y.to_string()));
                put("windowWidth", Some(w.to_string()));
                put("windowHeight", Some(hh.to_string()));
            }
            put("tabRatio", ratio.map(|s| s.to_string()));
            put("firstSheet", first.map(|s| s.to_string()));
            put("activeTab", active.map(|s| s.to_string()));
            put("autoFilterDateGrouping", af.map(|s| s.to_string()));
            a
        })
        .boxed()
}

// ------------------------------------------------------------------ writer

/// Where the parts of a synthetic workbook are
#[derive(Clone, Debug, Default)]
pub struct Made {
    pub parts: BTreeMap<String, Vec<u8>>,
    pub ct: Vec<u8>,
    pub sheet_parts: Vec<String>,
    pub extra_parts: Vec<String>,
    pub styles_n: usize,
}

pub fn t_el(tag: &str, s: &str) -> String {
    let pre = if s.trim_matches(|c| crate::xml::is_ws(c)) != s || s.contains('\n') { " xml:space=\"preserve\"" } else { "" };
    format!("<{}{}>{}</{}>", tag, pre, esc(s), tag)
}

fn rpr(k: u8, rich: bool) -> String {
    // run / font properties in schema order
    let mut s = String::new();
    if rich && k & 0x80 != 0 {
        s.push_str(&format!("<rFont val=\"{}\"/>", ["Calibri", "Arial"][(k & 1) as usize]));
    }
    if k & 1 != 0 {
        s.push_str("<b/>")
    }
    if k & 2 != 0 {
        s.push_str("<i/>")
    }
    if k & 4 != 0 {
        s.push_str("<strike/>")
    }
    if k & 16 != 0 {
        s.push_str("<color rgb=\"FFFF0000\"/>")
    }
    s.push_str(&format!("<sz val=\"{}\"/>", 8 + (k >> 5)));
    if k & 8 != 0 {
        s.push_str("<u val=\"double\"/>")
    }
    s
}

pub fn si_xml(e: &Sst) -> String {
    match e {
        Sst::Plain(t) => format!("<si>{}</si>", t_el("t", t)),
        Sst::Rich(runs) => {
            let mut s = String::from("<si>");
            for (i, (k, t)) in runs.iter().enumerate() {
                if i == 0 && k & 0x40 != 0 {
                    s.push_str(&format!("<r>{}</r>", t_el("t", t)));
                } else {
                    s.push_str(&format!("<r><rPr>{}</rPr>{}</r>", rpr(*k, true), t_el("t", t)));
                }
            }
            s.push_str("</si>");
            s
        }
        Sst::Phonetic(t, p) => format!("<si>{}<rPh sb=\"0\" eb=\"1\">{}</rPh><phoneticPr fontId=\"0\" type=\"Hiragana\"/></si>", t_el("t", t), t_el("t", p)),
        Sst::Empty => "<si><t/></si>".into(),
    }
}

fn flag(words: bool, b: bool) -> &'static str {
    match (words, b) {
        (true, true) => "true",
        (true, false) => "false",
        (false, true) => "1",
        (false, false) => "0",
    }
}

pub fn styles_xml(sp: &StyleSpec) -> (String, usize) {
    let mut s = String::from("<styleSheet xmlns=\"http://schemas.openxmlformats.org/spreadsheetml/2006/main\">");
    let codes: Vec<(usize, &String)> = sp.near.iter().enumerate().filter_map(|(i, n)| n.code.as_ref().map(|c| (3000 + i, c))).collect();
    if !sp.numfmts.is_empty() || !codes.is_empty() {
        s.push_str(&format!("<numFmts count=\"{}\">", sp.numfmts.len() + codes.len()));
        for (i, c) in &sp.numfmts {
            s.push_str(&format!("<numFmt numFmtId=\"{}\" formatCode=\"{}\"/>", i, esc_at(c)));
        }
        for (i, c) in &codes {
            s.push_str(&format!("<numFmt numFmtId=\"{}\" formatCode=\"{}\"/>", i, esc_at(c)));
        }
        s.push_str("</numFmts>");
    }
    s.push_str(&format!("<fonts count=\"{}\">", sp.fonts.len() + sp.near.len()));
    for (i, k) in sp.fonts.iter().enumerate() {
        s.push_str("<font>");
        s.push_str(&rpr_font(*k, i));
        s.push_str("</font>");
    }
    sp.near.iter().for_each(|n| s.push_str(&n.font));
    s.push_str("</fonts>");
    let nf = 2 + sp.fills.len();
    s.push_str(&format!("<fills count=\"{}\"><fill><patternFill patternType=\"none\"/></fill><fill><patternFill patternType=\"gray125\"/></fill>", nf + sp.near.iter().filter(|n| !n.fill.is_empty()).count()));
    for k in &sp.fills {
        s.push_str(&match k % 7 {
            0 => format!("<fill><patternFill patternType=\"solid\"><fgColor rgb=\"FF{:02X}0000\"/><bgColor indexed=\"64\"/></patternFill></fill>", k),
            1 => "<fill><patternFill patternType=\"solid\"><fgColor theme=\"4\" tint=\"0.5999\"/></patternFill></fill>".to_string(),
            2 => "<fill><patternFill patternType=\"lightGrid\"><fgColor indexed=\"10\"/><bgColor rgb=\"FF00FF00\"/></patternFill></fill>".to_string(),
            3 => "<fill><gradientFill degree=\"90\"><stop position=\"0\"><color theme=\"0\"/></stop><stop position=\"1\"><color rgb=\"FF112233\"/></stop></gradientFill></fill>".to_string(),
            4 => format!("<fill><patternFill patternType=\"solid\"><fgColor rgb=\"FF{:02X}00AA\"/></patternFill></fill>", k),
            5 => "<fill><patternFill patternType=\"darkHorizontal\"/></fill>".to_string(),
            _ => "<fill><patternFill/></fill>".to_string(),
        });
    }
    sp.near.iter().for_each(|n| s.push_str(&n.fill));
    s.push_str("</fills>");
    let nb = 1 + sp.borders.len();
    s.push_str(&format!("<borders count=\"{}\"><border><left/><right/><top/><bottom/><diagonal/></border>", nb + sp.near.iter().filter(|n| !n.border.is_empty()).count()));
    for k in &sp.borders {
        const ST: [&str; 14] = ["thin", "thick", "dotted", "double", "dashed", "dashDot", "dashDotDot", "medium", "mediumDashed", "mediumDashDot", "mediumDashDotDot", "slantDashDot", "hair", "none"];
        let a = ST[(*k % 14) as usize];
        let side = |n: &str, on: bool, c: u8| {
            if !on {
                format!("<{}/>", n)
            } else {
                match c % 4 {
                    0 => format!("<{} style=\"{}\"><color rgb=\"FF0000{:02X}\"/></{}>", n, a, k, n),
                    1 => format!("<{} style=\"{}\"><color theme=\"1\" tint=\"-0.25\"/></{}>", n, a, n),
                    2 => format!("<{} style=\"{}\"><color auto=\"1\"/></{}>", n, a, n),
                    _ => format!("<{} style=\"{}\"/>", n, a),
                }
            }
        };
        let at = if k & 64 != 0 { " diagonalUp=\"1\"" } else { "" };
        s.push_str(&format!("<border{}>{}{}{}{}{}</border>", at, side("left", true, *k), side("right", k & 16 != 0, k >> 1), side("top", k & 32 != 0, k >> 2), side("bottom", k & 64 != 0, k >> 3), side("diagonal", k & 128 != 0, k >> 1)));
    }
    sp.near.iter().for_each(|n| s.push_str(&n.border));
    s.push_str("</borders>");
    s.push_str(&format!("<cellStyleXfs count=\"{}\">", sp.style_xfs as usize + sp.near.len()));
    let own = |first: usize, j: usize, f: fn(&Near) -> &String| if f(&sp.near[j]).is_empty() { 0 } else { first + sp.near[..j].iter().filter(|n| !f(n).is_empty()).count() };
    let ids = |j: usize, n: &Near| format!("numFmtId=\"{}\" fontId=\"{}\" fillId=\"{}\" borderId=\"{}\"", if n.code.is_some() { 3000 + j } else { n.builtin as usize }, sp.fonts.len() + j, own(nf, j, |n| &n.fill), own(nb, j, |n| &n.border));
    let xf = |a: String, n: &Near| if n.inner.is_empty() { format!("<xf {} {}/>", a, n.attrs) } else { format!("<xf {} {}>{}</xf>", a, n.attrs, n.inner) };
    for i in 0..sp.style_xfs {
        s.push_str(&format!("<xf numFmtId=\"{}\" fontId=\"0\" fillId=\"0\" borderId=\"0\"/>", if i == 0 { 0 } else { 9 }));
    }
    for (j, n) in sp.near.iter().enumerate() {
        s.push_str(&xf(ids(j, n), n));
    }
    s.push_str("</cellStyleXfs>");
    let n = sp.xfs.len() + 1 + sp.near.len();
    s.push_str(&format!("<cellXfs count=\"{}\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\"/>", n));
    for x in &sp.xfs {
        let fmt: u32 = if x[0] % 2 == 0 && !sp.numfmts.is_empty() { sp.numfmts[(x[0] / 2) as usize % sp.numfmts.len()].0 } else { [0u32, 1, 2, 9, 14, 22, 49][(x[0] / 2) as usize % 7] };
        let mut a = format!("numFmtId=\"{}\" fontId=\"{}\" fillId=\"{}\" borderId=\"{}\" xfId=\"{}\"", fmt, pick(x[1], sp.fonts.len()), pick(x[2], nf), pick(x[3], nb), x[4] % sp.style_xfs);
        for (i, k) in ["applyNumberFormat", "applyFont", "applyFill", "applyBorder", "applyAlignment", "applyProtection", "quotePrefix", "pivotButton"].iter().enumerate() {
            if x[5] >> i & 1 == 1 {
                a.push_str(&format!(" {}=\"1\"", k));
            }
        }
        let mut inner = String::new();
        if x[4] & 16 != 0 {
            let mut al = String::new();
            if x[4] & 32 != 0 {
                al.push_str(&format!(" horizontal=\"{}\"", ["left", "center", "right", "justify", "fill", "distributed", "centerContinuous", "general"][(x[3] % 8) as usize]));
            }
            if x[4] & 64 != 0 {
                al.push_str(&format!(" vertical=\"{}\"", ["top", "center", "bottom", "justify", "distributed"][(x[2] % 5) as usize]));
            }
            if x[4] & 128 != 0 {
                al.push_str(" wrapText=\"1\"");
            }
            if x[3] & 128 != 0 {
                al.push_str(" textRotation=\"45\" indent=\"2\" shrinkToFit=\"1\" readingOrder=\"2\"");
            }
            inner.push_str(&format!("<alignment{}/>", al));
        }
        if x[1] & 64 != 0 {
            inner.push_str("<protection locked=\"0\" hidden=\"1\"/>");
        }
        if inner.is_empty() {
            s.push_str(&format!("<xf {}/>", a));
        } else {
            s.push_str(&format!("<xf {}>{}</xf>", a, inner));
        }
    }
    for (j, n) in sp.near.iter().enumerate() {
        let base = if n.own_base { sp.style_xfs as usize + j } else { 0 };
        s.push_str(&xf(format!("{} xfId=\"{}\"", ids(j, n), base), n));
    }
    s.push_str("</cellXfs>");
    s.push_str("<cellStyles count=\"1\"><cellStyle name=\"Normal\" xfId=\"0\" builtinId=\"0\"/></cellStyles>");
    if sp.extras & 1 != 0 {
        s.push_str("<dxfs count=\"2\"><dxf><font><b/><color rgb=\"FF9C0006\"/></font><fill><patternFill><bgColor rgb=\"FFFFC7CE\"/></patternFill></fill></dxf><dxf><numFmt numFmtId=\"170\" formatCode=\"0.0\"/></dxf></dxfs>");
    }
    if sp.extras & 2 != 0 {
        s.push_str("<tableStyles count=\"1\" defaultTableStyle=\"TableStyleMedium2\" defaultPivotStyle=\"PivotStyleLight16\"><tableStyle name=\"T&amp;1\" pivot=\"0\" count=\"1\"><tableStyleElement type=\"wholeTable\" dxfId=\"0\"/></tableStyle></tableStyles>");
    }
    if sp.extras & 4 != 0 {
        s.push_str("<colors><indexedColors><rgbColor rgb=\"FF000000\"/><rgbColor rgb=\"FFFFFFFF\"/></indexedColors><mruColors><color rgb=\"FF123456\"/></mruColors></colors>");
    }
    if sp.extras & 8 != 0 {
        s.push_str("<extLst><ext uri=\"{EB79DEF2-80B8-43e5-95BD-54CBDDF9020C}\" xmlns:x14=\"http://schemas.microsoft.com/office/spreadsheetml/2009/9/main\"><x14:slicerStyles defaultSlicerStyle=\"SlicerStyleLight1\"/></ext></extLst>");
    }
    s.push_str("</styleSheet>");
    (s, n)
}
/// Positions over the whole list, however long it is
fn pick(k: u8, n: usize) -> usize {
    k as usize * (1 + n / 256) % n
}
fn rpr_font(k: u8, i: usize) -> String {
    let mut s = String::new();
    if k & 1 != 0 {
        s.push_str("<b/>")
    }
    if k & 2 != 0 {
        s.push_str(if k & 4 != 0 { "<i val=\"1\"/>" } else { "<i/>" })
    }
    if k & 8 != 0 {
        s.push_str(["<u/>", "<u val=\"double\"/>", "<u val=\"singleAccounting\"/>"][(k >> 6) as usize % 3])
    }
    if k & 16 != 0 {
        s.push_str("<strike/>")
    }
    s.push_str(&format!("<sz val=\"{}\"/>", ["11", "10.5", "8", "72"][(k & 3) as usize]));
    match k >> 5 & 3 {
        0 => {}
        1 => s.push_str("<color theme=\"1\"/>"),
        2 => s.push_str(&format!("<color rgb=\"FF{:02X}{:02X}00\"/>", k, i)),
        _ => s.push_str("<color theme=\"3\" tint=\"0.39997558519241921\"/>"),
    }
    s.push_str(&format!("<name val=\"{}\"/>", ["Calibri", "Arial", "M&amp;S \"x\"", "游ゴシック"][(k >> 3 & 3) as usize].replace('"', "&quot;")));
    if k & 32 != 0 {
        s.push_str("<family val=\"2\"/>");
    }
    if k & 64 != 0 {
        s.push_str("<charset val=\"204\"/>");
    }
    if k & 128 != 0 {
        s.push_str("<scheme val=\"minor\"/>");
    }
    s
}

/// The children of worksheet that the library does not model, in schema order, with their bit
pub fn extras_xml(sh: &SheetSpec, idx: usize) -> Vec<(u8, &'static str, String)> {
    let v = sh.variant;
    let words = v & 1 == 1;
    let mut out = vec![];
    let has = |b: u8| sh.extras >> b & 1 == 1;
    let mut put = |b: u8, name: &'static str, s: String| {
        if has(b) {
            out.push((b, name, s))
        }
    };
    put(0, "sheetPr", format!("<sheetPr codeName=\"Sheet&amp;{}\" filterMode=\"{}\"><tabColor rgb=\"FFAA{:02X}00\"/><outlinePr summaryBelow=\"0\"/><pageSetUpPr fitToPage=\"1\"/></sheetPr>", idx, flag(words, false), v));
    put(1, "sheetFormatPr", "<sheetFormatPr baseColWidth=\"10\" defaultColWidth=\"9.5\" defaultRowHeight=\"15.75\" customHeight=\"1\"/>".into());
    put(2, "sheetCalcPr", "<sheetCalcPr fullCalcOnLoad=\"1\"/>".into());
    put(3, "sheetProtection", "<sheetProtection algorithmName=\"SHA-512\" hashValue=\"abc+/=\" saltValue=\"x==\" spinCount=\"100000\" sheet=\"1\" objects=\"1\"/>".into());
    put(4, "protectedRanges", "<protectedRanges><protectedRange password=\"CC1A\" sqref=\"A1:B2\" name=\"R&quot;1&quot;\"/></protectedRanges>".into());
    put(5, "scenarios", "<scenarios current=\"0\"><scenario name=\"s\" count=\"1\" user=\"u\"><inputCells r=\"A1\" val=\"1\"/></scenario></scenarios>".into());
    put(6, "autoFilter", format!("<autoFilter ref=\"A1:C{}\"><filterColumn colId=\"0\"><filters blank=\"1\"><filter val=\"a &lt; b\"/></filters></filterColumn></autoFilter>", 2 + v as u32));
    put(7, "sortState", "<sortState ref=\"A2:C9\"><sortCondition descending=\"1\" ref=\"A2:A9\"/></sortState>".into());
    put(8, "dataConsolidate", "<dataConsolidate function=\"sum\"/>".into());
    put(9, "customSheetViews", "<customSheetViews><customSheetView guid=\"{00000000-0000-0000-0000-000000000001}\" scale=\"75\"><pageMargins left=\"0.1\" right=\"0.2\" top=\"0.3\" bottom=\"0.4\" header=\"0.5\" footer=\"0.6\"/></customSheetView></customSheetViews>".into());
    put(10, "mergeCells", format!("<mergeCells count=\"{}\">{}</mergeCells>", 1 + v % 3, (0..1 + v % 3).map(|i| format!("<mergeCell ref=\"A{}:C{}\"/>", 20 + 2 * i as u32, 21 + 2 * i as u32)).collect::<String>()));
    put(11, "phoneticPr", "<phoneticPr fontId=\"1\" type=\"noConversion\"/>".into());
    put(12, "conditionalFormatting", (0..1 + v % 3).map(|i| format!("<conditionalFormatting sqref=\"A{}:A9 C1\"><cfRule type=\"expression\" dxfId=\"0\" priority=\"{}\"><formula>A1&gt;\"&lt;\"</formula></cfRule><cfRule type=\"colorScale\" priority=\"{}\"><colorScale><cfvo type=\"min\"/><cfvo type=\"max\"/><color rgb=\"FFF8696B\"/><color theme=\"1\"/></colorScale></cfRule></conditionalFormatting>", i + 1, 2 * i + 1, 2 * i + 2)).collect());
    put(13, "dataValidations", "<dataValidations count=\"1\"><dataValidation type=\"list\" allowBlank=\"1\" showErrorMessage=\"1\" errorTitle=\"T &amp; x\" error=\"line1&#10;line2\" sqref=\"B1:B5\"><formula1>\"yes,no\"</formula1></dataValidation></dataValidations>".into());
    put(14, "hyperlinks", "<hyperlinks><hyperlink ref=\"A1\" r:id=\"rIdH1\" tooltip=\"go &gt;\"/><hyperlink ref=\"B2\" location=\"'Other'!A1\" display=\"d\"/></hyperlinks>".into());
    put(15, "printOptions", "<printOptions horizontalCentered=\"1\" gridLines=\"1\"/>".into());
    put(16, "pageMargins", "<pageMargins left=\"0.7\" right=\"0.7\" top=\"0.75\" bottom=\"0.75\" header=\"0.3\" footer=\"0.3\"/>".into());
    put(17, "pageSetup", "<pageSetup paperSize=\"9\" scale=\"80\" orientation=\"landscape\" horizontalDpi=\"300\"/>".into());
    put(18, "headerFooter", "<headerFooter differentFirst=\"1\"><oddHeader>&amp;L&amp;\"Arial,Bold\"left &amp;&amp; x&amp;C&amp;P</oddHeader><oddFooter> &amp;R&amp;D </oddFooter></headerFooter>".into());
    put(19, "rowBreaks", "<rowBreaks count=\"1\" manualBreakCount=\"1\"><brk id=\"5\" max=\"16383\" man=\"1\"/></rowBreaks>".into());
    put(20, "colBreaks", "<colBreaks count=\"1\" manualBreakCount=\"1\"><brk id=\"3\" max=\"1048575\" man=\"1\"/></colBreaks>".into());
    put(21, "customProperties", "<customProperties><customPr name=\"p\" r:id=\"rIdD1\"/></customProperties>".into());
    put(22, "cellWatches", "<cellWatches><cellWatch r=\"A1\"/></cellWatches>".into());
    put(23, "ignoredErrors", "<ignoredErrors><ignoredError sqref=\"A1:A9\" numberStoredAsText=\"1\"/></ignoredErrors>".into());
    put(24, "drawing", "<drawing r:id=\"rIdD1\"/>".into());
    put(25, "legacyDrawing", "<legacyDrawing r:id=\"rIdV1\"/>".into());
    put(26, "legacyDrawingHF", "<legacyDrawingHF r:id=\"rIdV1\"/>".into());
    put(27, "picture", "<picture r:id=\"rIdP1\"/>".into());
    put(28, "oleObjects", "<oleObjects><oleObject progId=\"Word.Document\" shapeId=\"1025\" r:id=\"rIdP1\"/></oleObjects>".into());
    put(29, "controls", "<controls><control shapeId=\"1026\" r:id=\"rIdP1\" name=\"b&amp;c\"/></controls>".into());
    put(33, "AlternateContent", "<mc:AlternateContent><mc:Choice Requires=\"x14ac\"><controls xmlns:x=\"urn:x\"><control shapeId=\"7\" name=\"n\"/></controls></mc:Choice><mc:Fallback/></mc:AlternateContent>".into());
    put(30, "webPublishItems", "<webPublishItems count=\"1\"><webPublishItem id=\"1\" divId=\"d\" sourceType=\"sheet\" destinationFile=\"x.htm\"/></webPublishItems>".into());
    put(31, "tableParts", "<tableParts count=\"1\"><tablePart r:id=\"rIdT1\"/></tableParts>".into());
    put(32, "extLst", "<extLst><ext uri=\"{78C0D931-6437-407d-A8EE-F0AAD7539E65}\" xmlns:x14=\"http://schemas.microsoft.com/office/spreadsheetml/2009/9/main\"><x14:conditionalFormattings><x14:conditionalFormatting xmlns:xm=\"http://schemas.microsoft.com/office/excel/2006/main\"><x14:cfRule type=\"dataBar\" id=\"{1}\"/><xm:sqref>A1:A5</xm:sqref></x14:conditionalFormatting></x14:conditionalFormattings></ext></extLst>".into());
    out
}

pub fn cell_xml(c: &CellSpec, r: u32, spec: &BookSpec, styles_n: usize, words: bool) -> String {
    let mut a = String::new();
    if !c.no_r {
        a.push_str(&format!(" r=\"{}\"", cell_name(r, c.c)));
    }
    if let Some(s) = c.style {
        if styles_n > 0 {
            a.push_str(&format!(" s=\"{}\"", s as usize % styles_n));
        }
    }
    let mut t = "";
    let inner: String;
    match &c.kind {
        CellKind::Num(n, expl) => {
            if *expl {
                t = "n"
            }
            inner = format!("<v>{}</v>", n)
        }
        CellKind::Sst(i) => {
            if spec.sst.is_empty() || !spec.has_sst {
                inner = "<v>7</v>".into()
            } else {
                t = "s";
                inner = format!("<v>{}</v>", *i as usize % spec.sst.len())
            }
        }
        CellKind::Inline(s) => {
            t = "inlineStr";
            inner = format!("<is>{}</is>", t_el("t", s))
        }
        CellKind::InlineRich(x, y) => {
            t = "inlineStr";
            inner = format!("<is><r><rPr><b/><sz val=\"9\"/></rPr>{}</r><r>{}</r></is>", t_el("t", x), t_el("t", y))
        }
        CellKind::Bool(b) => {
            t = "b";
            inner = format!("<v>{}</v>", flag(words, *b))
        }
        CellKind::Err(k) => {
            t = "e";
            inner = format!("<v>{}</v>", ["#N/A", "#DIV/0!", "#REF!", "#NAME?", "#NULL!", "#NUM!", "#VALUE!", "#GETTING_DATA"][*k as usize % 8])
        }
        CellKind::Str(s) => {
            t = "str";
            inner = t_el("v", s)
        }
        CellKind::Blank => inner = String::new(),
        CellKind::F(f, v, ty) => {
            let v = match (ty % 4, v) {
                (_, None) => String::new(),
                (0, Some(_)) => "<v>42.5</v>".into(),
                (1, Some(s)) => {
                    t = "str";
                    t_el("v", s)
                }
                (2, Some(_)) => {
                    t = "b";
                    "<v>1</v>".into()
                }
                _ => {
                    t = "e";
                    "<v>#N/A</v>".into()
                }
            };
            let ca = if *ty & 2 != 0 { " ca=\"1\"" } else { "" };
            inner = format!("<f{}>{}</f>{}", ca, esc(f), v)
        }
        CellKind::SharedMaster(f, i) => inner = format!("<f t=\"shared\" ref=\"{}:{}\" si=\"{}\">{}</f><v>1</v>", cell_name(r, c.c), cell_name(r, c.c.max(2)), i, esc(f)),
        CellKind::SharedChild(i) => inner = format!("<f t=\"shared\" si=\"{}\"/><v>2</v>", i),
        CellKind::Array(f) => inner = format!("<f t=\"array\" aca=\"1\" ref=\"{}\">{}</f><v>3</v>", cell_name(r, c.c), esc(f)),
        CellKind::DataTable => inner = format!("<f t=\"dataTable\" ref=\"{}\" dt2D=\"1\" dtr=\"1\" r1=\"A1\" r2=\"A2\"/><v>4</v>", cell_name(r, c.c)),
    }
    if !t.is_empty() {
        a.push_str(&format!(" t=\"{}\"", t));
    }
    if c.meta & 1 != 0 {
        a.push_str(" cm=\"1\"");
    }
    if c.meta & 2 != 0 {
        a.push_str(" vm=\"2\"");
    }
    if c.meta & 4 != 0 {
        a.push_str(&format!(" ph=\"{}\"", flag(words, true)));
    }
    if inner.is_empty() {
        format!("<c{}/>", a)
    } else {
        format!("<c{}>{}</c>", a, inner)
    }
}

pub fn view_xml(v: &ViewSpec) -> String {
    let mut s = String::from("<sheetView");
    for (k, x) in &v.attrs {
        s.push_str(&format!(" {}=\"{}\"", k, x));
    }
    s.push_str(" workbookViewId=\"0\"");
    let mut inner = String::new();
    match v.pane {
        1 => inner.push_str("<pane ySplit=\"1\" topLeftCell=\"A2\" activePane=\"bottomLeft\" state=\"frozen\"/>"),
        2 => inner.push_str("<pane xSplit=\"2\" ySplit=\"3\" topLeftCell=\"C4\" activePane=\"bottomRight\" state=\"frozenSplit\"/>"),
        3 => inner.push_str("<pane xSplit=\"2400.5\" topLeftCell=\"F1\" activePane=\"topRight\" state=\"split\"/>"),
        _ => {}
    }
    for i in 0..v.sels {
        let p = ["", " pane=\"topRight\"", " pane=\"bottomLeft\"", " pane=\"bottomRight\""][i as usize % 4];
        inner.push_str(&format!("<selection{} activeCell=\"B{}\" activeCellId=\"0\" sqref=\"B{} D1:E5\"/>", p, i + 1, i + 1));
    }
    if v.pane == 5 {
        inner.push_str("<pivotSelection pane=\"topRight\" showHeader=\"1\" axis=\"axisRow\" activeRow=\"1\" r:id=\"rIdZ\"><pivotArea dataOnly=\"0\"/></pivotSelection>".replace(" r:id=\"rIdZ\"", "").as_str());
    }
    if v.ext {
        inner.push_str("<extLst><ext uri=\"{x}\"/></extLst>");
    }
    if inner.is_empty() {
        s.push_str("/>");
    } else {
        s.push_str(&format!(">{}</sheetView>", inner));
    }
    s
}

pub fn sheet_xml(spec: &BookSpec, i: usize, styles_n: usize) -> String {
    let sh = &spec.sheets[i];
    let words = spec.lay.words;
    let nl = if spec.lay.pretty { "\n  " } else { "" };
    let mut s = String::from("<worksheet xmlns=\"http://schemas.openxmlformats.org/spreadsheetml/2006/main\" xmlns:r=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships\" xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\" xmlns:x14ac=\"http://schemas.microsoft.com/office/spreadsheetml/2009/9/ac\" mc:Ignorable=\"x14ac\">");
    let ex = extras_xml(sh, i);
    let mut ex = ex.into_iter().peekable();
    if ex.peek().map_or(false, |e| e.0 == 0) {
        s.push_str(nl);
        s.push_str(&ex.next().unwrap().2);
    }
    if sh.dim {
        s.push_str(nl);
        s.push_str("<dimension ref=\"B2:C3\"/>");
    }
    if let Some(vs) = &sh.views {
        s.push_str(nl);
        s.push_str("<sheetViews>");
        for v in vs {
            s.push_str(&view_xml(v));
        }
        s.push_str("</sheetViews>");
    }
    if ex.peek().map_or(false, |e| e.0 == 1) {
        s.push_str(nl);
        s.push_str(&ex.next().unwrap().2);
    }
    // column ranges
    let mut at = 0u32;
    let mut cols = String::new();
    for c in &sh.cols {
        let min = at + 1 + c.gap as u32;
        let max = (min + c.len as u32 - 1).min(16384);
        if min > 16384 {
            break;
        }
        at = max;
        cols.push_str(&format!("<col min=\"{}\" max=\"{}\"", min, max));
        if let Some(w) = &c.width {
            cols.push_str(&format!(" width=\"{}\"", w));
            if c.custom {
                cols.push_str(&format!(" customWidth=\"{}\"", flag(words, true)));
            }
        }
        if let Some(st) = c.style {
            if styles_n > 0 {
                cols.push_str(&format!(" style=\"{}\"", st as usize % styles_n));
            }
        }
        if c.hidden || words {
            cols.push_str(&format!(" hidden=\"{}\"", flag(words, c.hidden)));
        }
        if c.best {
            cols.push_str(&format!(" bestFit=\"{}\"", flag(words, true)));
        }
        if c.level > 0 {
            cols.push_str(&format!(" outlineLevel=\"{}\"", c.level));
        }
        if c.collapsed {
            cols.push_str(&format!(" collapsed=\"{}\"", flag(words, true)));
        }
        cols.push_str("/>");
    }
    if !cols.is_empty() {
        s.push_str(&format!("{}<cols>{}</cols>", nl, cols));
    }
    s.push_str(nl);
    if sh.rows.is_empty() {
        s.push_str("<sheetData/>");
    } else {
        s.push_str("<sheetData>");
        let mut last = 0;
        for r in &sh.rows {
            s.push_str(nl);
            s.push_str("<row");
            if !(r.no_r && r.r == last + 1) {
                s.push_str(&format!(" r=\"{}\"", r.r));
            }
            last = r.r;
            if r.spans && !r.cells.is_empty() {
                s.push_str(&format!(" spans=\"{}:{}\"", r.cells[0].c, r.cells.last().unwrap().c));
            }
            if let Some(st) = r.style {
                if styles_n > 0 {
                    s.push_str(&format!(" s=\"{}\" customFormat=\"{}\"", st as usize % styles_n, flag(words, true)));
                }
            }
            if let Some(h) = &r.ht {
                s.push_str(&format!(" ht=\"{}\"", h));
                if r.custom_ht {
                    s.push_str(&format!(" customHeight=\"{}\"", flag(words, true)));
                }
            }
            if r.hidden || words {
                s.push_str(&format!(" hidden=\"{}\"", flag(words, r.hidden)));
            }
            if r.level > 0 {
                s.push_str(&format!(" outlineLevel=\"{}\"", r.level));
            }
            if r.collapsed {
                s.push_str(&format!(" collapsed=\"{}\"", flag(words, true)));
            }
            if r.thick & 1 != 0 {
                s.push_str(&format!(" thickTop=\"{}\"", flag(words, true)));
            }
            if r.thick & 2 != 0 {
                s.push_str(&format!(" thickBot=\"{}\"", flag(words, true)));
            }
            if r.dy {
                s.push_str(" x14ac:dyDescent=\"0.25\"");
            }
            if r.cells.is_empty() {
                s.push_str("/>");
                continue;
            }
            s.push('>');
            let mut lastc = 0;
            for c in &r.cells {
                let mut c = c.clone();
                c.no_r = c.no_r && c.c == lastc + 1;
                lastc = c.c;
                s.push_str(&cell_xml(&c, r.r, spec, styles_n, words));
            }
            s.push_str("</row>");
        }
        s.push_str("</sheetData>");
    }
    for (_, _, x) in ex {
        s.push_str(nl);
        s.push_str(&x);
    }
    s.push_str(if nl.is_empty() { "</worksheet>" } else { "\n</worksheet>" });
    s
}

pub fn core_xml(c: &CoreSpec) -> String {
    const TIMES: &str = " xmlns:dcterms=\"http://purl.org/dc/terms/\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\"";
    // namespaces of the times at the root or where they are used
    let (at_root, at_use) = if c.fields & 0x2000 != 0 { ("", TIMES) } else { (TIMES, "") };
    let mut s = format!("<cp:coreProperties xmlns:cp=\"http://schemas.openxmlformats.org/package/2006/metadata/core-properties\" xmlns:dc=\"http://purl.org/dc/elements/1.1/\" xmlns:dcmitype=\"http://purl.org/dc/dcmitype/\"{}>", at_root);
    let names = ["dc:title", "dc:subject", "dc:creator", "cp:keywords", "dc:description", "cp:lastModifiedBy", "cp:revision", "cp:category", "cp:contentStatus", "dc:language", "cp:version", "cp:lastPrinted", "dc:identifier"];
    for (i, n) in names.iter().enumerate() {
        if c.fields >> i & 1 == 1 {
            let v = if *n == "cp:lastPrinted" { "2011-01-01T00:00:00Z".to_string() } else { format!("{}{}", c.text, if i % 2 == 0 { "" } else { " & <b>" }) };
            s.push_str(&format!("<{}>{}</{}>", n, esc(&v), n));
        }
        if i == 5 {
            if let Some(t) = &c.created {
                s.push_str(&format!("<dcterms:created{} xsi:type=\"dcterms:W3CDTF\">{}</dcterms:created>", at_use, t));
            } else if c.fields & 0x4000 != 0 {
                s.push_str(&format!("<dcterms:created{} xsi:type=\"dcterms:W3CDTF\"/>", at_use));
            }
        }
        if i == 8 {
            if let Some(t) = &c.modified {
                s.push_str(&format!("<dcterms:modified{} xsi:type=\"dcterms:W3CDTF\">{}</dcterms:modified>", at_use, t));
            }
        }
    }
    s.push_str("</cp:coreProperties>");
    s
}
pub const APP_XML: &str = "<Properties xmlns=\"http://schemas.openxmlformats.org/officeDocument/2006/extended-properties\" xmlns:vt=\"http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes\"><Application>Other &amp; Co</Application><TitlesOfParts><vt:vector size=\"1\" baseType=\"lpstr\"><vt:lpstr>x</vt:lpstr></vt:vector></TitlesOfParts></Properties>";
pub const THEME_XML: &str = "<a:theme xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\" name=\"Office &quot;T&quot;\"><a:themeElements><a:clrScheme name=\"Office\"><a:dk1><a:sysClr val=\"windowText\" lastClr=\"000000\"/></a:dk1><a:lt1><a:srgbClr val=\"FFFFFF\"/></a:lt1></a:clrScheme><a:fontScheme name=\"x\"><a:majorFont><a:latin typeface=\"Cambria\"/><a:ea typeface=\"\"/><a:font script=\"Jpan\" typeface=\"ＭＳ Ｐゴシック\"/></a:majorFont></a:fontScheme></a:themeElements><a:objectDefaults/><a:extLst><a:ext uri=\"{05A4C25C}\"><thm15:themeFamily xmlns:thm15=\"http://schemas.microsoft.com/office/thememl/2012/main\" name=\"Office Theme\" id=\"{1}\"/></a:ext></a:extLst></a:theme>";

/// Adds a relationship; ids in the producer's manner
pub struct Rels {
    pub style: u8,
    pub v: Vec<(String, String, String, bool)>,
}
impl Rels {
    pub fn new(style: u8) -> Rels {
        Rels { style, v: vec![] }
    }
    pub fn add(&mut self, typ: &str, target: String, ext: bool) -> String {
        let n = self.v.len() + 1;
        let id = match self.style {
            0 => format!("rId{}", n),
            1 => format!("R{:08x}", n * 2654435761usize % 0xffffffff),
            2 => format!("rId{}", n * 3),
            _ => format!("rel-{}", n),
        };
        self.v.push((id.clone(), typ.to_string(), target, ext));
        id
    }
    pub fn xml(&self) -> String {
        let mut s = format!("<Relationships xmlns=\"{}\">", NS_REL);
        for (i, t, x, e) in &self.v {
            s.push_str(&format!("<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{}/>", i, t, esc_at(x), if *e { " TargetMode=\"External\"" } else { "" }));
        }
        s.push_str("</Relationships>");
        s
    }
}

pub fn build(spec: &BookSpec) -> Made {
    let l = &spec.lay;
    let mut m = Made::default();
    let head = |body: String| -> Vec<u8> { head(l, body) };
    let wb = ["xl/workbook.xml", "xl/workbook.xml", "xl/book.xml", "office/wb/main.xml"][l.wb_path as usize % 4].to_string();
    let wb_dir = wb.rsplit_once('/').unwrap().0.to_string();
    let mut ov: Vec<(String, String)> = vec![];
    let sml = "application/vnd.openxmlformats-officedocument.spreadsheetml.";
    // root relationships
    let mut root = Rels::new(l.rid);
    root.add(&format!("{}officeDocument", OD), rel("", l.abs_root, &wb), false);
    if let Some(c) = &spec.core {
        add_core(&mut m, &mut root, &mut ov, c, l);
    }
    if l.app {
        add_app(&mut m, &mut root, &mut ov, l);
    }
    // workbooks with macros and templates have other types
    let main = match (l.rid, l.wb_path) {
        (1, 2) => "application/vnd.ms-excel.sheet.macroEnabled.main+xml".to_string(),
        (2, 3) => format!("{}template.main+xml", sml),
        (3, 1) => "application/vnd.ms-excel.addin.macroEnabled.main+xml".to_string(),
        _ => format!("{}sheet.main+xml", sml),
    };
    ov.push((wb.clone(), main));
    let mut wr = Rels::new(l.rid);
    let (styles, styles_n) = match &spec.styles {
        Some(s) => {
            let (x, n) = styles_xml(s);
            (Some(x), n)
        }
        None => (None, 0),
    };
    m.styles_n = styles_n;
    let mut used_ext: BTreeMap<String, String> = BTreeMap::new();
    // sheets, in the order of the list; other relations between them in some layouts
    let mut sheets = String::from("<sheets>");
    let mut id = 0u32;
    if l.theme && l.rid == 1 {
        wr.add(&format!("{}theme", OD), rel(&wb_dir, l.abs_wb, &format!("{}/theme/theme1.xml", wb_dir)), false);
    }
    for (i, sh) in spec.sheets.iter().enumerate() {
        let part = match l.sheet_path {
            0 | 1 => format!("{}/worksheets/sheet{}.xml", wb_dir, i + 1),
            2 => format!("{}/worksheets/Sheet{}.xml", wb_dir, (i + 1) * 7 % 1009),
            4 => format!("{}/worksheets/sheet{}", wb_dir, i + 1),
            5 => format!("{}/worksheets/sheet{}.sheet", wb_dir, i + 1),
            _ => format!("{}/ws{}.xml", wb_dir, i + 1),
        };
        let rid = wr.add(&format!("{}worksheet", OD), rel(&wb_dir, l.abs_wb, &part), false);
        id += 1 + sh.id_gap as u32;
        let state = ["", " state=\"hidden\"", " state=\"veryHidden\"", " state=\"visible\""][sh.state as usize % 4];
        sheets.push_str(&format!("<sheet name=\"{}\" sheetId=\"{}\"{} r:id=\"{}\"/>", esc_at(&sh.name), id, state, rid));
        if l.sheet_path == 5 {
            used_ext.insert("sheet".into(), format!("{}worksheet+xml", sml));
        } else {
            ov.push((part.clone(), format!("{}worksheet+xml", sml)));
        }
        m.parts.insert(part.clone(), head(sheet_xml(spec, i, styles_n)));
        // relationships of the sheet
        let mut sr = Rels::new(0);
        let has = |b: u8| sh.extras >> b & 1 == 1;
        let mut named = |id: &str, typ: &str, t: String, ext: bool| sr.v.push((id.into(), format!("{}{}", OD, typ), t, ext));
        let sdir = part.rsplit_once('/').unwrap().0.to_string();
        if has(14) {
            named("rIdH1", "hyperlink", "http://example.com/?a=1&b=2".into(), true);
        }
        if has(24) || has(21) {
            let p = format!("{}/drawings/drawing{}.xml", wb_dir, i + 1);
            named("rIdD1", "drawing", rel(&sdir, l.abs_wb, &p), false);
            ov.push((p.clone(), "application/vnd.openxmlformats-officedocument.drawing+xml".into()));
            m.parts.insert(p, head(format!("<xdr:wsDr xmlns:xdr=\"http://schemas.openxmlformats.org/drawingml/2006/spreadsheetDrawing\"><!-- {} --></xdr:wsDr>", i)));
        }
        if has(25) || has(26) {
            let p = format!("{}/drawings/vmlDrawing{}.vml", wb_dir, i + 1);
            named("rIdV1", "vmlDrawing", rel(&sdir, l.abs_wb, &p), false);
            m.parts.insert(p, b"<xml xmlns:v=\"urn:schemas-microsoft-com:vml\"><br></xml>".to_vec());
            let p = format!("{}/comments{}.xml", wb_dir, i + 1);
            named("rIdC1", "comments", rel(&sdir, l.abs_wb, &p), false);
            ov.push((p.clone(), format!("{}comments+xml", sml)));
            m.parts.insert(p, head(format!("<comments xmlns=\"{}\"><authors><author>x</author></authors><commentList/></comments>", NS_MAIN)));
        }
        if has(27) || has(28) || has(29) {
            let p = format!("{}/media/image{}.png", wb_dir, i + 1);
            named("rIdP1", "image", rel(&sdir, l.abs_wb, &p), false);
            m.parts.insert(p, vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10, i as u8, 0, 255]);
        }
        if has(31) {
            let p = format!("{}/tables/table{}.xml", wb_dir, i + 1);
            named("rIdT1", "table", rel(&sdir, l.abs_wb, &p), false);
            ov.push((p.clone(), format!("{}table+xml", sml)));
            m.parts.insert(p, head(format!("<table xmlns=\"{}\" id=\"{}\" name=\"T\" displayName=\"T{}\" ref=\"A1:B2\"><tableColumns count=\"2\"><tableColumn id=\"1\" name=\"a\"/><tableColumn id=\"2\" name=\"b\"/></tableColumns></table>", NS_MAIN, i + 1, i + 1)));
        }
        if !sr.v.is_empty() {
            m.parts.insert(rels_path(&part), head(sr.xml()));
        }
        m.sheet_parts.push(part);
    }
    sheets.push_str("</sheets>");
    if l.theme && l.rid != 1 {
        wr.add(&format!("{}theme", OD), rel(&wb_dir, l.abs_wb, &format!("{}/theme/theme1.xml", wb_dir)), false);
    }
    if l.theme {
        let p = format!("{}/theme/theme1.xml", wb_dir);
        ov.push((p.clone(), "application/vnd.openxmlformats-officedocument.theme+xml".into()));
        m.parts.insert(p, head(THEME_XML.into()));
    }
    if let Some(x) = styles {
        let p = format!("{}/{}", wb_dir, if l.sheet_path == 3 { "st.xml" } else { "styles.xml" });
        wr.add(&format!("{}styles", OD), rel(&wb_dir, l.abs_wb, &p), false);
        ov.push((p.clone(), format!("{}styles+xml", sml)));
        m.parts.insert(p, head(x));
    }
    if spec.has_sst {
        let p = format!("{}/{}", wb_dir, if l.sheet_path == 2 { "SharedStrings.xml" } else { "sharedStrings.xml" });
        wr.add(&format!("{}sharedStrings", OD), rel(&wb_dir, l.abs_wb, &p), false);
        ov.push((p.clone(), format!("{}sharedStrings+xml", sml)));
        let uses: usize = spec.sheets.iter().flat_map(|s| &s.rows).flat_map(|r| &r.cells).filter(|c| matches!(c.kind, CellKind::Sst(_))).count();
        let mut x = format!("<sst xmlns=\"{}\"", NS_MAIN);
        if spec.wb_extra & 0x100 == 0 {
            x.push_str(&format!(" count=\"{}\" uniqueCount=\"{}\"", uses, spec.sst.len()));
        }
        x.push('>');
        for e in &spec.sst {
            x.push_str(&si_xml(e));
            if l.pretty {
                x.push('\n');
            }
        }
        x.push_str("</sst>");
        m.parts.insert(p, head(x));
    }
    if spec.calc_chain {
        let mut x = format!("<calcChain xmlns=\"{}\">", NS_MAIN);
        let mut n = 0;
        let mut idn = 0u32;
        let mut last = 0;
        for sh in &spec.sheets {
            idn += 1 + sh.id_gap as u32;
            for r in &sh.rows {
                for c in &r.cells {
                    if matches!(c.kind, CellKind::F(..) | CellKind::SharedMaster(..) | CellKind::SharedChild(..) | CellKind::Array(..)) {
                        let a = match n % 4 {
                            0 => " l=\"1\"",
                            1 => " s=\"1\"",
                            2 => " a=\"1\" t=\"1\"",
                            _ => "",
                        };
                        let i = if last == idn && spec.wb_extra >> 16 & 1 == 1 { String::new() } else { format!(" i=\"{}\"", idn) };
                        last = idn;
                        x.push_str(&format!("<c r=\"{}\"{}{}/>", cell_name(r.r, c.c), i, a));
                        n += 1;
                    }
                }
            }
        }
        x.push_str("</calcChain>");
        if n > 0 {
            let p = format!("{}/calcChain.xml", wb_dir);
            wr.add(&format!("{}calcChain", OD), rel(&wb_dir, l.abs_wb, &p), false);
            ov.push((p.clone(), format!("{}calcChain+xml", sml)));
            m.parts.insert(p, head(x));
        }
    }
    // workbook part
    let b = |i: u32| spec.wb_extra >> i & 1 == 1;
    let mut x = format!("<workbook xmlns=\"{}\" xmlns:r=\"{}\" xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\" xmlns:x15=\"http://schemas.microsoft.com/office/spreadsheetml/2010/11/main\" mc:Ignorable=\"x15\"{}>", NS_MAIN, NS_R, if b(9) { " conformance=\"transitional\"" } else { "" });
    if b(0) {
        x.push_str("<fileVersion appName=\"xl\" lastEdited=\"7\" lowestEdited=\"4\" rupBuild=\"22228\"/>");
    }
    if b(1) {
        x.push_str("<fileSharing readOnlyRecommended=\"1\" userName=\"a &amp; b\"/>");
    }
    if b(2) {
        x.push_str("<workbookPr date1904=\"1\" codeName=\"Wb\" defaultThemeVersion=\"124226\"/>");
    }
    if b(3) {
        x.push_str("<mc:AlternateContent><mc:Choice Requires=\"x15\"><x15ac:absPath url=\"C:\\a &amp; b\\\" xmlns:x15ac=\"http://schemas.microsoft.com/office/spreadsheetml/2010/11/ac\"/></mc:Choice></mc:AlternateContent>");
    }
    if b(4) {
        x.push_str("<workbookProtection lockStructure=\"1\"/>");
    }
    if let Some(v) = &spec.view {
        x.push_str("<bookViews><workbookView");
        for (k, val) in v {
            x.push_str(&format!(" {}=\"{}\"", k, val));
        }
        if b(10) {
            x.push_str("><extLst><ext uri=\"{v}\"/></extLst></workbookView>");
        } else {
            x.push_str("/>");
        }
        if b(11) && b(12) {
            let at = if b(13) { format!(" firstSheet=\"{}\" activeTab=\"{}\"", 0, spec.sheets.len() - 1) } else { String::new() };
            x.push_str(&format!("<workbookView xWindow=\"5\" tabRatio=\"300\"{}/>", at));
        }
        x.push_str("</bookViews>");
    }
    x.push_str(&sheets);
    if b(25) {
        x.push_str("<functionGroups builtInGroupCount=\"17\"/>");
    }
    if b(26) {
        let p = format!("{}/externalLinks/externalLink1.xml", wb_dir);
        let id = wr.add(&format!("{}externalLink", OD), rel(&wb_dir, l.abs_wb, &p), false);
        ov.push((p.clone(), format!("{}externalLink+xml", sml)));
        m.parts.insert(p, head(format!("<externalLink xmlns=\"{}\"/>", NS_MAIN)));
        x.push_str(&format!("<externalReferences><externalReference r:id=\"{}\"/></externalReferences>", id));
    }
    if b(5) && b(14) {
        // names of the workbook and of single sheets, in no order of scope
        let n = spec.sheets.len();
        x.push_str("<definedNames><definedName name=\"rng\">Data!$A$1:$B$2</definedName>");
        for i in (0..n).rev() {
            if b(15 + i as u32 % 8) {
                x.push_str(&format!("<definedName name=\"_xlnm.Print_Area\" localSheetId=\"{}\">'s &lt; {}'!$A$1:$C$9</definedName>", i, i));
            }
        }
        x.push_str("<definedName name=\"RATE\" comment=\"a &amp; b\" hidden=\"1\">0.19</definedName>");
        for i in 0..n {
            if b(18 + i as u32 % 5) {
                x.push_str(&format!("<definedName name=\"loc\" localSheetId=\"{}\">{}</definedName>", i, i));
            }
        }
        x.push_str("</definedNames>");
    } else if b(5) {
        x.push_str("<definedNames><definedName name=\"rng\">Data!$A$1:$B$2</definedName><definedName name=\"_xlnm.Print_Area\" localSheetId=\"0\">'a &lt; b'!$A$1</definedName></definedNames>");
    }
    if b(6) {
        x.push_str("<calcPr calcId=\"191029\" iterate=\"1\" fullCalcOnLoad=\"1\"/>");
    }
    if b(27) {
        x.push_str("<oleSize ref=\"A1:C9\"/>");
    }
    if b(28) {
        x.push_str("<customWorkbookViews><customWorkbookView name=\"v\" guid=\"{6B1A3A2E-6F7C-4A0E-9F0B-1E1B0C1D2E3F}\" windowWidth=\"10\" windowHeight=\"10\" activeSheetId=\"1\"/></customWorkbookViews>");
    }
    if b(29) {
        let p = format!("{}/pivotCache/pivotCacheDefinition1.xml", wb_dir);
        let id = wr.add(&format!("{}pivotCacheDefinition", OD), rel(&wb_dir, l.abs_wb, &p), false);
        ov.push((p.clone(), format!("{}pivotCacheDefinition+xml", sml)));
        m.parts.insert(p, head(format!("<pivotCacheDefinition xmlns=\"{}\"/>", NS_MAIN)));
        x.push_str(&format!("<pivotCaches><pivotCache cacheId=\"7\" r:id=\"{}\"/></pivotCaches>", id));
    }
    if b(30) {
        x.push_str("<webPublishing css=\"0\"/>");
    }
    if b(31) {
        x.push_str("<fileRecoveryPr repairLoad=\"1\"/>");
    }
    if b(7) {
        x.push_str("<extLst><ext uri=\"{140A7094-0E35-4892-8432-C4D2E57EDEB5}\"><x15:workbookPr chartTrackingRefBase=\"1\"/></ext></extLst>");
    }
    x.push_str("</workbook>");
    m.parts.insert(wb.clone(), head(x));
    add_extra(&mut m, &spec.extra, &mut root, &mut wr, &wb_dir, &mut ov, &mut used_ext, l);
    m.parts.insert(rels_path(&wb), head(wr.xml()));
    m.parts.insert("_rels/.rels".into(), head(root.xml()));
    content_types(&mut m, ov, used_ext, l);
    respell(&mut m, l);
    m
}
/// Write the parts that programs interpret in other spellings
pub fn respell(m: &mut Made, l: &Layout) {
    use crate::spell;
    let (f, seed) = l.spell;
    if f == 0 {
        return;
    }
    let keep: BTreeSet<String> = m.extra_parts.iter().cloned().collect();
    for (i, (n, b)) in m.parts.iter_mut().enumerate() {
        if keep.contains(n) || n.ends_with(".vml") {
            continue;
        }
        if let Some(x) = spell::respell(b, f, (seed as u64) << 8 | i as u64) {
            *b = x;
        }
    }
    if let Some(x) = spell::respell(&m.ct, f, seed as u64) {
        m.ct = x;
    }
    if f & spell::CASE != 0 {
        let names: Vec<String> = m.parts.keys().cloned().collect();
        for (i, n) in names.iter().enumerate() {
            if keep.contains(n) || (seed as usize + i) % 3 == 0 {
                continue;
            }
            let to = spell::other_case(n, (seed as u64) << 4 | i as u64);
            let b = m.parts.remove(n).unwrap();
            m.parts.insert(to.clone(), b);
            for s in m.sheet_parts.iter_mut() {
                if s == n {
                    *s = to.clone();
                }
            }
        }
    }
}

pub fn head(l: &Layout, body: String) -> Vec<u8> {
    let mut v = vec![];
    if l.bom {
        v.extend_from_slice(b"\xEF\xBB\xBF");
    }
    if l.decl {
        v.extend_from_slice(if l.pretty { b"<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\r\n" } else { b"<?xml version=\"1.0\" encoding=\"utf-8\"?>" });
    }
    v.extend_from_slice(body.as_bytes());
    v
}
pub fn rel(base_dir: &str, abs: bool, part: &str) -> String {
    if abs {
        format!("/{}", part)
    } else if base_dir.is_empty() {
        part.to_string()
    } else if let Some(x) = part.strip_prefix(&format!("{}/", base_dir)) {
        x.to_string()
    } else {
        // climb to the root
        let up = base_dir.split('/').filter(|s| !s.is_empty()).count();
        format!("{}{}", "../".repeat(up), part)
    }
}
pub fn add_core(m: &mut Made, root: &mut Rels, ov: &mut Vec<(String, String)>, c: &CoreSpec, l: &Layout) {
    let p = ["docProps/core.xml", "docProps/core.xml", "package/services/metadata/core-properties/1a2b.psmdcp"][c.path as usize % 3].to_string();
    root.add("http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties", rel("", l.abs_root, &p), false);
    ov.push((p.clone(), "application/vnd.openxmlformats-package.core-properties+xml".into()));
    m.parts.insert(p, head(l, core_xml(c)));
}
pub fn add_app(m: &mut Made, root: &mut Rels, ov: &mut Vec<(String, String)>, l: &Layout) {
    root.add(&format!("{}extended-properties", OD), rel("", l.abs_root, "docProps/app.xml"), false);
    ov.push(("docProps/app.xml".into(), "application/vnd.openxmlformats-officedocument.extended-properties+xml".into()));
    m.parts.insert("docProps/app.xml".into(), head(l, APP_XML.into()));
}
/// Further parts, of types unknown to the library
pub fn add_extra(m: &mut Made, extra: &[ExtraPart], root: &mut Rels, wr: &mut Rels, wb_dir: &str, ov: &mut Vec<(String, String)>, used_ext: &mut BTreeMap<String, String>, l: &Layout) {
    for (i, e) in extra.iter().enumerate() {
        let dir = ["", "xl/media/", "customXml/", "xl/charts/", "a/b/c/d/", "xl/embeddings/", "docProps/", "xl/"][e.dir as usize % 8];
        let ext = if e.ext.is_empty() { String::new() } else { format!(".{}", e.ext) };
        let mut p = format!("{}{}{}", dir, e.name, ext);
        if m.parts.keys().any(|k| k.eq_ignore_ascii_case(&p)) {
            p = format!("{}n{}-{}{}", dir, i, e.name, ext);
        }
        if m.parts.keys().any(|k| k.eq_ignore_ascii_case(&p)) {
            continue;
        }
        let mut data = vec![];
        for _ in 0..e.repeat {
            data.extend_from_slice(&e.data);
        }
        let lower = e.ext.to_ascii_lowercase();
        if lower.is_empty() || lower == "xml" || e.ct == 1 {
            ov.push((p.clone(), format!("application/x-test-{}", i)));
        } else {
            used_ext.entry(lower).or_insert_with(|| format!("application/x-ext-{}", i));
        }
        m.parts.insert(p.clone(), data);
        m.extra_parts.push(p.clone());
        match e.rel {
            1 => {
                root.add(&format!("http://example.com/rel/{}", i), rel("", l.abs_root, &p), false);
            }
            2 => {
                wr.add(&format!("http://example.com/rel/{}", i), rel(wb_dir, l.abs_wb, &p), false);
            }
            _ => {}
        }
    }
}
pub fn content_types(m: &mut Made, mut ov: Vec<(String, String)>, mut used_ext: BTreeMap<String, String>, l: &Layout) {
    used_ext.entry("rels".into()).or_insert("application/vnd.openxmlformats-package.relationships+xml".into());
    used_ext.entry("xml".into()).or_insert("application/xml".into());
    used_ext.entry("vml".into()).or_insert("application/vnd.openxmlformats-officedocument.vmlDrawing".into());
    used_ext.entry("png".into()).or_insert("image/png".into());
    // the type of some parts is that of their extension, the others of the extension are named
    if l.ct_xml > 0 && !l.ct_override_all {
        let end = ["/worksheet+xml", ".worksheet+xml", ".main+xml", ".styles+xml", ".sharedStrings+xml"][l.ct_xml as usize % 5];
        if let Some(t) = ov.iter().map(|o| o.1.clone()).find(|t| t.ends_with(end)) {
            for p in m.parts.keys().filter(|p| p.to_ascii_lowercase().ends_with(".xml")) {
                if !ov.iter().any(|(k, _)| k == p) {
                    ov.push((p.clone(), "application/xml".into()));
                }
            }
            ov.retain(|(p, x)| !(*x == t && p.to_ascii_lowercase().ends_with(".xml")));
            used_ext.insert("xml".into(), t);
        }
    }
    // every part by its name but the relationships
    if l.ct_override_all && l.upper_ext {
        for p in m.parts.keys().filter(|p| !p.ends_with(".rels")) {
            let ext = p.rsplit('.').next().unwrap().to_ascii_lowercase();
            if !ov.iter().any(|(k, _)| k == p) {
                if let Some(t) = used_ext.get(&ext) {
                    ov.push((p.clone(), t.clone()));
                }
            }
        }
        used_ext.retain(|e, _| e == "rels");
    }
    let mut ct = format!("<Types xmlns=\"{}\">", NS_CT);
    for (e, t) in &used_ext {
        ct.push_str(&format!("<Default Extension=\"{}\" ContentType=\"{}\"/>", if l.upper_ext && e != "rels" && e != "xml" { e.to_uppercase() } else { e.clone() }, t));
    }
    if l.ct_override_all {
        for p in m.parts.keys() {
            if !ov.iter().any(|(k, _)| k == p) {
                let ext = p.rsplit('.').next().unwrap().to_ascii_lowercase();
                if let Some(t) = used_ext.get(&ext) {
                    ov.push((p.clone(), t.clone()));
                }
            }
        }
    }
    for (p, t) in &ov {
        ct.push_str(&format!("<Override PartName=\"/{}\" ContentType=\"{}\"/>", esc_at(p), t));
    }
    ct.push_str("</Types>");
    m.ct = head(l, ct);
}

/// The package as bytes, with directory entries where the producer writes them
pub fn bytes(m: &Made, lay: &Layout) -> Vec<u8> {
    if !lay.dir_entries {
        return write_zip(&m.parts, Some(&m.ct), lay.stored);
    }
    use std::io::{Cursor, Write};
    let mut z = zip::ZipWriter::new(Cursor::new(Vec::new()));
    let o = zip::write::SimpleFileOptions::default();
    let mut dirs = BTreeSet::new();
    for (n, b) in &m.parts {
        let mut acc = String::new();
        let segs: Vec<&str> = n.split('/').collect();
        for s in &segs[..segs.len() - 1] {
            acc.push_str(s);
            acc.push('/');
            if dirs.insert(acc.to_ascii_lowercase()) {
                z.add_directory(acc.clone(), o).unwrap();
            }
        }
        z.start_file(n.as_str(), o).unwrap();
        z.write_all(b).unwrap();
    }
    z.start_file("[Content_Types].xml", o).unwrap();
    z.write_all(&m.ct).unwrap();
    z.finish().unwrap().into_inner()
}
pub fn write(spec: &BookSpec, path: &str) -> Made {
    let m = build(spec);
    std::fs::write(path, bytes(&m, &spec.lay)).unwrap();
    m
}
#[allow(dead_code)]
pub fn col_ref(c: u32) -> String {
    col_name(c)
}
