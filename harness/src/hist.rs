//! Operation histories on workbooks, their interpretation by the library and by a model, and the
//! comparison of saved files with the model.
use crate::book::*;
use crate::gen;
use crate::pkg::*;
use crate::runner::Ctx;
use crate::synth::{self, BookSpec};
use crate::xml::El;
use draviavemal_openxml_office::spreadsheet_2007::{models::*, parts::WorkSheet, Excel, ExcelPropertiesModel};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ cases

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Start {
    New,
    Foreign(Box<BookSpec>),
    /// a fixture saved by Excel
    File(u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct History {
    pub start: Start,
    pub sessions: Vec<Vec<Op>>,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Auto,
    Number,
    Boolean,
    Str,
    Share,
    Inline,
    Error,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CellW {
    pub v: Option<String>,
    pub t: Ty,
    pub f: Option<String>,
    pub style: Option<u16>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RowW {
    pub h: Option<f32>,
    pub hidden: Option<bool>,
    pub top: Option<bool>,
    pub bottom: Option<bool>,
    pub style: Option<u16>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ColW {
    pub w: Option<f32>,
    pub hidden: Option<bool>,
    pub best: Option<bool>,
    pub style: Option<u16>,
}
/// by: 0 index, 1 reference, 2 reference in lower case, 3 mixed case
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Edit {
    Write { row: u32, col: u32, by: u8, cells: Vec<CellW> },
    Row { row: u32, p: RowW },
    Col { col: u32, by: u8, p: Option<ColW> },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    /// `keep`: the handle stays open when the sheet is new
    Add { name: Option<String>, get: bool, keep: bool, edits: Vec<Edit> },
    Sheet { sel: u16, get: bool, edits: Vec<Edit> },
    Open { sel: u16, get: bool },
    On { slot: u16, edits: Vec<Edit> },
    Close(u16),
    Second { slot: u16, get: bool },
    Rename { sel: u16, to: String },
    RenameBad { sel: u16, other: Option<u16> },
    /// a name no sheet can have: 0 add, 1 get, otherwise rename
    NameBad { how: u8, sel: u16, name: String },
    Delete(u16),
    Active(u16),
    ActiveMissing,
    Hide(u16),
    HideMissing,
    Vis(bool),
    Min(bool),
    Tabs(bool),
    VScroll(bool),
    HScroll(bool),
    Style(StyleReq),
    /// a request with a text that XML cannot hold: which one, character, position
    StyleBad { r: StyleReq, which: u8, ch: u8, pos: u8 },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Color {
    /// 0 theme 1 rgb 2 indexed
    pub k: u8,
    pub v: String,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Bd {
    pub style: u8,
    pub color: Option<Color>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct StyleReq {
    /// 0..=35: builtin formats, otherwise custom with code
    pub fmt: u8,
    pub code: Option<String>,
    /// left right top bottom diagonal
    pub borders: Vec<Bd>,
    pub font: String,
    pub size: u8,
    pub color: Color,
    pub bold: bool,
    pub italic: bool,
    pub under: bool,
    pub dunder: bool,
    pub wrap: bool,
    pub bg: Option<String>,
    pub fg: Option<String>,
    pub h: u8,
    pub v: u8,
}

pub const BORDER_NAMES: [&str; 14] = ["none", "thin", "thick", "dotted", "double", "dashed", "dashDot", "dashDotDot", "medium", "mediumDashed", "mediumDashDot", "mediumDashDotDot", "slantDashDot", "hair"];
fn border_value(i: u8) -> BorderStyleValues {
    use BorderStyleValues::*;
    match i % 14 {
        0 => None,
        1 => Thin,
        2 => Thick,
        3 => Dotted,
        4 => Double,
        5 => Dashed,
        6 => DashDot,
        7 => DashDotDot,
        8 => Medium,
        9 => MediumDashed,
        10 => MediumDashDot,
        11 => MediumDashDotDot,
        12 => SlantDashDot,
        _ => Hair,
    }
}
pub const BUILTIN_IDS: [u16; 36] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49];
fn number_value(i: u8) -> NumberFormatValues {
    use NumberFormatValues::*;
    match i {
        0 => General,
        1 => Integer,
        2 => DecimalTwoPlaces,
        3 => ThousandsSeparator,
        4 => ThousandsSeparatorTwoDecimals,
        5 => CurrencyNoDecimals,
        6 => CurrencyNoDecimalsRed,
        7 => CurrencyTwoDecimals,
        8 => CurrencyTwoDecimalsRed,
        9 => Percentage,
        10 => PercentageTwoDecimals,
        11 => Scientific,
        12 => FractionOneDigit,
        13 => FractionTwoDigits,
        14 => DateMMDDYY,
        15 => DateDMmmYY,
        16 => DateDMmm,
        17 => DateMmmYY,
        18 => Time12Hour,
        19 => Time12HourWithSeconds,
        20 => Time24Hour,
        21 => Time24HourWithSeconds,
        22 => DateTimeMMDDYY,
        23 => AccountingNoDecimals,
        24 => AccountingNoDecimalsRed,
        25 => AccountingTwoDecimals,
        26 => AccountingTwoDecimalsRed,
        27 => AccountingNegativeInParentheses,
        28 => AccountingTwoDecimalsNegativeInParentheses,
        29 => AccountingAlignedSymbols,
        30 => AccountingAlignedSymbolsTwoDecimals,
        31 => TimeMinutesSeconds,
        32 => TimeHoursMinutesSeconds,
        33 => ElapsedTimeWithFractions,
        34 => ScientificOneDecimal,
        35 => TextFormat,
        _ => Custom,
    }
}
pub const H_NAMES: [&str; 5] = ["", "left", "center", "right", "justify"];
pub const V_NAMES: [&str; 4] = ["", "top", "center", "bottom"];

impl Color {
    pub fn name(&self) -> &'static str {
        ["theme", "rgb", "indexed"][self.k as usize % 3]
    }
    fn to(&self) -> ColorSetting {
        ColorSetting {
            color_setting_type: match self.k % 3 {
                0 => ColorSettingTypeValues::Theme,
                1 => ColorSettingTypeValues::Rgb,
                _ => ColorSettingTypeValues::Indexed,
            },
            value: self.v.clone(),
        }
    }
}
impl StyleReq {
    pub fn plain() -> StyleReq {
        StyleReq {
            fmt: 0,
            code: None,
            borders: vec![],
            font: "Calibri".into(),
            size: 11,
            color: Color { k: 0, v: "1".into() },
            bold: false,
            italic: false,
            under: false,
            dunder: false,
            wrap: false,
            bg: None,
            fg: None,
            h: 0,
            v: 0,
        }
    }
    pub fn custom(&self) -> bool {
        self.fmt as usize >= BUILTIN_IDS.len()
    }
    pub fn setting(&self) -> StyleSetting {
        let b = |i: usize| -> BorderSetting {
            match self.borders.get(i) {
                None => BorderSetting::default(),
                Some(b) => BorderSetting { border_color: b.color.as_ref().map(|c| c.to()), style: border_value(b.style) },
            }
        };
        let mut s = StyleSetting::default();
        s.number_format = number_value(self.fmt);
        s.custom_number_format = self.code.clone();
        s.border_left = b(0);
        s.border_right = b(1);
        s.border_top = b(2);
        s.border_bottom = b(3);
        s.border_diagonal = b(4);
        s.font_family = self.font.clone();
        s.font_size = self.size;
        s.text_color = self.color.to();
        s.is_bold = self.bold;
        s.is_italic = self.italic;
        s.is_underline = self.under;
        s.is_double_underline = self.dunder;
        s.is_wrap_text = self.wrap;
        s.background_color = self.bg.clone();
        s.foreground_color = self.fg.clone();
        s.horizontal_alignment = match self.h % 5 {
            0 => HorizontalAlignmentValues::None,
            1 => HorizontalAlignmentValues::LEFT,
            2 => HorizontalAlignmentValues::CENTER,
            3 => HorizontalAlignmentValues::RIGHT,
            _ => HorizontalAlignmentValues::JUSTIFY,
        };
        s.vertical_alignment = match self.v % 4 {
            0 => VerticalAlignmentValues::None,
            1 => VerticalAlignmentValues::Top,
            2 => VerticalAlignmentValues::Middle,
            _ => VerticalAlignmentValues::Bottom,
        };
        s
    }
}

// ------------------------------------------------------------------ generators

pub fn color() -> BoxedStrategy<Color> {
    prop_oneof![
        (0u8..12).prop_map(|i| Color { k: 0, v: i.to_string() }),
        select(vec!["FFFF0000", "FF00FF00", "FF123456", "00FFFFFF", "FFABCDEF"]).prop_map(|s| Color { k: 1, v: s.into() }),
        (0u8..66).prop_map(|i| Color { k: 2, v: i.to_string() }),
    ]
    .boxed()
}
pub fn style_req() -> BoxedStrategy<StyleReq> {
    let bd = || {
        prop_oneof![
            2 => Just(Bd { style: 0, color: None }),
            3 => (1u8..14, prop::option::of(color())).prop_map(|(style, color)| Bd { style, color }),
        ]
    };
    let f = || prop::bool::weighted(0.25);
    let rgb = || prop::option::weighted(0.35, select(vec!["FFFF0000", "FF00FF00", "FFFFFFFF", "FF0102FF", "FF808080"]).prop_map(|s| s.to_string()));
    (
        (
            prop_oneof![3 => Just(0u8), 3 => 1u8..36, 3 => Just(40u8)],
            select(vec!["0.000", "#,##0.00\\ \"€\"", "yyyy\\-mm\\-dd", "General\"x\"", "[Red]0;[Blue]-0", "0.0%", "\"<&>\"0", "@", "0;-0;;@", "0.00", "General", "0", " 0 ", "\"a\"\"b\""]),
        ),
        prop_oneof![3 => Just(vec![]), 2 => vec(bd(), 5)],
        (select(vec!["Calibri", "Calibri", "Arial", "A & B \"x\"", "游ゴシック", "<b>"]), prop_oneof![3 => Just(11u8), 2 => 1u8..=255]),
        prop_oneof![3 => Just(Color { k: 0, v: "1".into() }), 2 => color()],
        (f(), f(), f(), f(), f()),
        (rgb(), rgb()),
        (prop_oneof![2 => Just(0u8), 2 => 1u8..5], prop_oneof![2 => Just(0u8), 2 => 1u8..4]),
    )
        .prop_map(|((fmt, code), borders, (font, size), color, (bold, italic, under, dunder, wrap), (bg, fg), (h, v))| StyleReq {
            fmt,
            code: if fmt >= 36 { Some(code.to_string()) } else { None },
            borders,
            font: font.into(),
            size,
            color,
            bold,
            italic,
            under,
            dunder: dunder && !under,
            wrap,
            bg,
            fg,
            h,
            v,
        })
        .boxed()
}
/// The records of the request as another producer may have written them, changed in one detail for `p` > 0
pub fn near(r: &StyleReq, p: u8) -> synth::Near {
    use crate::xml::esc_at;
    let col = |tag: &str, c: &Color, extra: &str| format!("<{} {}=\"{}\"{}/>", tag, c.name(), esc_at(&c.v), extra);
    let is = |n: u8| p == n;
    let mut f = String::from("<font>");
    if r.bold != is(1) {
        f.push_str("<b/>");
    } else if is(2) {
        f.push_str("<b val=\"0\"/>");
    }
    if r.italic != is(3) {
        f.push_str(if is(4) { "<i val=\"true\"/>" } else { "<i/>" });
    }
    if is(5) {
        f.push_str("<strike/>");
    }
    let u = if r.under { 1 } else if r.dunder { 2 } else { 0 };
    match if is(6) { (u + 1) % 3 } else if is(7) { 3 } else { u } {
        1 => f.push_str("<u/>"),
        2 => f.push_str("<u val=\"double\"/>"),
        3 => f.push_str("<u val=\"singleAccounting\"/>"),
        _ => {}
    }
    if is(8) {
        f.push_str("<vertAlign val=\"superscript\"/>");
    }
    f.push_str(&format!("<sz val=\"{}{}\"/>", if is(9) { r.size.wrapping_add(1).max(1) } else { r.size }, if is(10) { ".5" } else { "" }));
    let other = Color { k: if is(11) { (r.color.k + 1) % 3 } else { r.color.k }, v: r.color.v.clone() };
    // the same digits are a theme index and a palette index, but not a color value
    let other = if other.k == 1 && r.color.k != 1 { Color { k: 1, v: "FF000001".into() } } else if r.color.k == 1 && other.k != 1 { Color { k: 2, v: "3".into() } } else { other };
    f.push_str(&col("color", &other, if is(12) { " tint=\"0.5\"" } else { "" }));
    f.push_str(&format!("<name val=\"{}{}\"/><family val=\"2\"/>", esc_at(&r.font), if is(13) { " 2" } else { "" }));
    if is(14) {
        f.push_str("<charset val=\"204\"/>");
    }
    f.push_str(if is(15) { "<scheme val=\"minor\"/></font>" } else { "<scheme val=\"none\"/></font>" });
    let pt = match (&r.fg, &r.bg) {
        (None, _) if !is(16) => "none",
        _ if is(17) => "lightGrid",
        _ => "solid",
    };
    let mut l = format!("<fill><patternFill patternType=\"{}\">", pt);
    let rgb = |tag: &str, v: &str| col(tag, &Color { k: 1, v: v.into() }, if is(18) { " tint=\"-0.5\"" } else { "" });
    let (fg, bg) = if is(19) { (&r.bg, &r.fg) } else { (&r.fg, &r.bg) };
    if let Some(v) = fg {
        l.push_str(&rgb("fgColor", v));
    }
    match bg {
        Some(v) => l.push_str(&rgb("bgColor", v)),
        None if is(20) => l.push_str("<bgColor indexed=\"64\"/>"),
        None => {}
    }
    l.push_str("</patternFill></fill>");
    if is(21) {
        l = "<fill><gradientFill degree=\"90\"><stop position=\"0\"><color theme=\"0\"/></stop><stop position=\"1\"><color theme=\"4\"/></stop></gradientFill></fill>".into();
    }
    let mut d = String::from(if is(22) { "<border diagonalUp=\"1\">" } else if is(23) { "<border outline=\"0\">" } else { "<border>" });
    for (i, n) in ["left", "right", "top", "bottom", "diagonal"].iter().enumerate() {
        // two sides changed with each other
        let j = match p {
            24 if i < 2 => 1 - i,
            25 if i == 2 || i == 3 => 5 - i,
            26 if i > 2 => 7 - i,
            _ => i,
        };
        let b = r.borders.get(j);
        let mut st = b.map_or(0, |b| b.style % 14);
        if i as u8 == p.wrapping_sub(27) {
            st = (st + 1) % 14;
        }
        let c = b.and_then(|b| b.color.as_ref());
        let tail = if is(32) { " tint=\"0.25\"" } else { "" };
        match (st, c) {
            (0, None) => d.push_str(&format!("<{}/>", n)),
            (st, Some(c)) if !is(33) => d.push_str(&format!("<{} style=\"{}\">{}</{}>", n, BORDER_NAMES[st as usize], col("color", c, tail), n)),
            (st, _) if is(34) => d.push_str(&format!("<{} style=\"{}\"><color auto=\"1\"/></{}>", n, BORDER_NAMES[st as usize], n)),
            (st, _) => d.push_str(&format!("<{} style=\"{}\"/>", n, BORDER_NAMES[st as usize])),
        }
    }
    if is(35) {
        d.push_str("<vertical/><horizontal/>");
    }
    d.push_str("</border>");
    // plain records are the first ones of the table
    let plain = |b: &Bd| b.style % 14 == 0 && b.color.is_none();
    if r.borders.iter().all(plain) && !(22..=35).contains(&p) {
        d.clear();
    }
    if r.fg.is_none() && r.bg.is_none() && !(16..=21).contains(&p) {
        l.clear();
    }
    let mut inner = String::new();
    let h = H_NAMES[if is(36) { (r.h + 1) % 5 } else { r.h % 5 } as usize];
    let v = V_NAMES[if is(37) { (r.v + 1) % 4 } else { r.v % 4 } as usize];
    let wrap = r.wrap != is(38);
    let mut al = String::new();
    for (k, x) in [("horizontal", if is(39) { "fill" } else { h }), ("vertical", if is(40) { "justify" } else { v }), ("wrapText", if wrap { "1" } else { "" }), ("indent", if is(41) { "1" } else { "" }), ("textRotation", if is(42) { "90" } else { "" })] {
        if !x.is_empty() {
            al.push_str(&format!(" {}=\"{}\"", k, x));
        }
    }
    if !al.is_empty() {
        inner.push_str(&format!("<alignment{}/>", al));
    }
    if is(43) {
        inner.push_str("<protection locked=\"0\"/>");
    }
    let t = |b: bool| if b { "1" } else { "0" };
    let mut attrs = format!("applyNumberFormat=\"{}\" applyFont=\"{}\" applyFill=\"{}\" applyBorder=\"{}\" applyAlignment=\"{}\"", t(r.fmt != 0), t(!is(44)), t(!l.is_empty() && !is(45)), t(!d.is_empty() && !is(46)), t(!al.is_empty() && !is(47)));
    attrs.push_str(match p {
        48 => " quotePrefix=\"1\"",
        49 => " pivotButton=\"1\"",
        50 => " applyProtection=\"1\"",
        _ => "",
    });
    let code = match (&r.code, p) {
        (Some(c), 51) => Some(format!("{};@", c)),
        (Some(c), 52) => Some(c.to_uppercase()),
        (Some(_), 53) => None,
        (c, _) => c.clone(),
    };
    let builtin = match (r.custom(), p) {
        (true, _) => 2,
        (_, 54) => 49,
        _ => BUILTIN_IDS[r.fmt as usize],
    };
    synth::Near { font: f, fill: l, border: d, code, builtin, attrs, inner, own_base: p != 55 }
}
pub const NEAR: u8 = 56;
/// Histories whose start has formats close to the ones that are asked for
pub fn near_history(w: Weights) -> BoxedStrategy<History> {
    let ask = vec((style_req(), prop_oneof![1 => Just(0u8), 6 => 0u8..NEAR], any::<u8>()), 0..4);
    (history(w), ask)
        .prop_map(|(mut h, ask)| {
            if let Start::Foreign(b) = &mut h.start {
                if let Some(st) = &mut b.styles {
                    for (r, p, at) in ask {
                        st.near.push(near(&r, p));
                        let n = h.sessions.len();
                        let ops = &mut h.sessions[at as usize % n];
                        let i = at as usize / 3 % (ops.len() + 1);
                        ops.insert(i, Op::Style(r));
                    }
                }
            }
            h
        })
        .boxed()
}
/// Few distinct requests, so that equal ones repeat
pub fn small_style() -> BoxedStrategy<StyleReq> {
    (0u8..4, any::<bool>(), 0u8..3, any::<bool>())
        .prop_map(|(f, bold, h, fill)| {
            let mut s = StyleReq::plain();
            s.fmt = [0, 2, 14, 40][f as usize];
            if f == 3 {
                s.code = Some("0.000".into());
            }
            s.bold = bold;
            s.h = h;
            if fill {
                s.fg = Some("FFFF0000".into());
            }
            s
        })
        .boxed()
}

const ERRORS: [&str; 7] = ["#N/A", "#DIV/0!", "#REF!", "#NAME?", "#NULL!", "#NUM!", "#VALUE!"];
pub fn cell_w() -> BoxedStrategy<CellW> {
    let val = prop_oneof![
        8 => gen::text().prop_map(|v| (Ty::Auto, Some(v))),
        4 => gen::number().prop_map(|v| (Ty::Auto, Some(v))),
        4 => gen::text().prop_map(|v| (Ty::Share, Some(v))),
        2 => gen::text().prop_map(|v| (Ty::Inline, Some(v))),
        2 => gen::text().prop_map(|v| (Ty::Str, Some(v))),
        3 => number_lit().prop_map(|v| (Ty::Number, Some(v))),
        2 => select(vec!["true", "false", "TRUE", "False", "0", "1", "", "yes", "FALSE", "2", " false", "falsE"]).prop_map(|v| (Ty::Boolean, Some(v.to_string()))),
        1 => select(ERRORS.to_vec()).prop_map(|v| (Ty::Error, Some(v.to_string()))),
        2 => select(vec![Ty::Auto, Ty::Number, Ty::Boolean, Ty::Str, Ty::Share, Ty::Inline, Ty::Error]).prop_map(|t| (t, None)),
    ];
    (val, prop::option::weighted(0.2, gen::formula()), prop::option::weighted(0.25, any::<u16>()))
        .prop_map(|((t, v), f, style)| CellW { v, t, f, style })
        .boxed()
}
/// Text of finite numbers
pub fn number_lit() -> BoxedStrategy<String> {
    gen::number().prop_filter("finite", |n| n.parse::<f64>().map_or(false, |x| x.is_finite())).boxed()
}
pub fn edit_write() -> BoxedStrategy<Edit> {
    (gen::row(), gen::col(), 0u8..4, prop_oneof![6 => vec(cell_w(), 1..3), 2 => vec(cell_w(), 3..9), 1 => Just(vec![])])
        .prop_map(|(row, col, by, mut cells)| {
            cells.truncate((MAX_COL - col + 1) as usize);
            Edit::Write { row, col, by, cells }
        })
        .boxed()
}
pub fn row_w() -> BoxedStrategy<RowW> {
    let b = || prop::option::weighted(0.4, any::<bool>());
    (prop::option::weighted(0.6, (0u32..=1636).prop_map(|x| x as f32 / 4.0)), b(), b(), b(), prop::option::weighted(0.3, any::<u16>()))
        .prop_map(|(h, hidden, top, bottom, style)| RowW { h, hidden, top, bottom, style })
        .boxed()
}
pub fn col_w() -> BoxedStrategy<ColW> {
    let b = || prop::option::weighted(0.4, any::<bool>());
    (prop::option::weighted(0.7, (0u32..=1020).prop_map(|x| x as f32 / 4.0)), b(), b(), prop::option::weighted(0.3, any::<u16>()))
        .prop_map(|(w, hidden, best, style)| ColW { w, hidden, best, style })
        .boxed()
}
pub fn edit_row() -> BoxedStrategy<Edit> {
    (gen::row(), row_w()).prop_map(|(row, p)| Edit::Row { row, p }).boxed()
}
pub fn edit_col() -> BoxedStrategy<Edit> {
    (gen::col(), 0u8..4, prop::option::weighted(0.75, col_w())).prop_map(|(col, by, p)| Edit::Col { col, by, p }).boxed()
}
/// Weights of the operations
#[derive(Clone, Copy)]
pub struct Weights {
    pub write: u32,
    pub row: u32,
    pub col: u32,
    pub edits: usize,
    pub add: u32,
    pub sheet: u32,
    pub handle: u32,
    pub rename: u32,
    pub bad: u32,
    pub delete: u32,
    pub window: u32,
    pub style: u32,
    pub full_style: bool,
    pub ops: usize,
    pub sessions: usize,
    /// percentage of histories that start with a workbook of another producer
    pub foreign: u32,
    pub mix: synth::Mix,
}
pub const BASE: Weights = Weights {
    write: 8,
    row: 1,
    col: 1,
    edits: 4,
    add: 2,
    sheet: 8,
    handle: 2,
    rename: 1,
    bad: 0,
    delete: 1,
    window: 0,
    style: 1,
    full_style: false,
    ops: 6,
    sessions: 2,
    foreign: 50,
    mix: synth::PLAIN,
};
pub fn edits(w: Weights) -> BoxedStrategy<Vec<Edit>> {
    let mut v: Vec<(u32, BoxedStrategy<Edit>)> = vec![];
    for (n, s) in [(w.write, edit_write()), (w.row, edit_row()), (w.col, edit_col())] {
        if n > 0 {
            v.push((n, s))
        }
    }
    vec(proptest::strategy::Union::new_weighted(v), 0..=w.edits).boxed()
}
pub fn op(w: Weights) -> BoxedStrategy<Op> {
    let sel = || any::<u16>();
    let b = || any::<bool>();
    let style = if w.full_style { style_req() } else { small_style() };
    let list: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (w.add, (prop::option::weighted(0.7, gen::sheet_name()), b(), prop::bool::weighted(0.4), edits(w)).prop_map(|(name, get, keep, edits)| Op::Add { name, get, keep, edits }).boxed()),
        (w.sheet, (sel(), b(), edits(w)).prop_map(|(sel, get, edits)| Op::Sheet { sel, get, edits }).boxed()),
        (w.handle, (sel(), b()).prop_map(|(sel, get)| Op::Open { sel, get }).boxed()),
        (w.handle * 2, (sel(), edits(w)).prop_map(|(slot, edits)| Op::On { slot, edits }).boxed()),
        (w.handle, sel().prop_map(Op::Close).boxed()),
        (w.handle.min(w.bad), (sel(), b()).prop_map(|(slot, get)| Op::Second { slot, get }).boxed()),
        (w.rename, (sel(), gen::sheet_name()).prop_map(|(sel, to)| Op::Rename { sel, to }).boxed()),
        (w.rename.min(w.bad), (sel(), prop::option::of(sel())).prop_map(|(sel, other)| Op::RenameBad { sel, other }).boxed()),
        (w.rename.min(w.bad), (0u8..4, sel(), gen::bad_sheet_name()).prop_map(|(how, sel, name)| Op::NameBad { how, sel, name }).boxed()),
        (w.delete, sel().prop_map(Op::Delete).boxed()),
        (w.window, sel().prop_map(Op::Active).boxed()),
        (w.window, sel().prop_map(Op::Hide).boxed()),
        (w.window.min(w.bad), b().prop_map(|x| if x { Op::ActiveMissing } else { Op::HideMissing }).boxed()),
        (w.window, (0u8..5, b()).prop_map(|(k, x)| match k {
            0 => Op::Vis(x),
            1 => Op::Min(x),
            2 => Op::Tabs(x),
            3 => Op::VScroll(x),
            _ => Op::HScroll(x),
        }).boxed()),
        (w.style, style.clone().prop_map(Op::Style).boxed()),
        (w.style.min(w.bad), (style, any::<(u8, u8, u8)>()).prop_map(|(r, (which, ch, pos))| Op::StyleBad { r, which, ch, pos }).boxed()),
    ];
    proptest::strategy::Union::new_weighted(list.into_iter().filter(|x| x.0 > 0).collect()).boxed()
}
pub fn start(w: Weights) -> BoxedStrategy<Start> {
    if w.foreign == 0 {
        return Just(Start::New).boxed();
    }
    let foreign = prop_oneof![
        24 => synth::book(w.mix).prop_map(|b| Start::Foreign(Box::new(b))),
        1 => any::<u8>().prop_map(Start::File),
    ];
    if w.foreign >= 100 {
        return foreign.boxed();
    }
    prop_oneof![100 - w.foreign => Just(Start::New), w.foreign => foreign].boxed()
}
pub fn fixture(i: u8) -> &'static [u8] {
    if i % 2 == 0 {
        include_bytes!("../fixtures/a.xlsx")
    } else {
        include_bytes!("../fixtures/b.xlsx")
    }
}
pub fn history(w: Weights) -> BoxedStrategy<History> {
    (start(w), vec(vec(op(w), 1..=w.ops), 1..=w.sessions)).prop_map(|(start, sessions)| History { start, sessions }).boxed()
}

// ------------------------------------------------------------------ model

#[derive(Clone, Debug, Default)]
pub struct MSheet {
    pub uid: u32,
    pub name: String,
    pub cells: BTreeMap<(u32, u32), CellV>,
    pub rows: BTreeMap<u32, BTreeMap<String, String>>,
    pub cols: Vec<(u32, u32, BTreeMap<String, String>)>,
    pub state: String,
    pub sheet_id: Option<String>,
    pub orig: Option<Orig>,
    /// opened at least once since it was loaded
    pub opened: bool,
    pub touched_rows: BTreeSet<u32>,
    pub written: BTreeSet<(u32, u32)>,
    /// cells that had a formula until a value without one was written
    pub lost: BTreeSet<(u32, u32)>,
}
#[derive(Clone, Debug)]
pub struct Orig {
    pub part: String,
    pub root: El,
    pub el: El,
}
#[derive(Clone, Debug)]
pub struct MView {
    pub exists: bool,
    pub visibility: String,
    pub minimized: bool,
    pub tabs: bool,
    pub v: bool,
    pub h: bool,
    /// attributes that have no setter
    pub rest: BTreeMap<String, String>,
    pub first: Option<usize>,
    pub active: Option<u32>,
}
#[derive(Clone, Debug)]
pub struct Model {
    pub sheets: Vec<MSheet>,
    pub view: MView,
    pub next: u32,
    pub deleted: Vec<MSheet>,
    /// the file that was there at the start
    pub start: Option<Book>,
    /// style requests with the id handed out, all sessions
    pub requests: Vec<(StyleReq, u32)>,
    /// texts written as shared strings
    pub shared: Vec<String>,
    pub ops: BTreeMap<&'static str, u32>,
}

pub fn norm_flag(s: Option<&str>, dflt: bool) -> bool {
    match s {
        Some("1") | Some("true") | Some("on") => true,
        Some(_) => false,
        None => dflt,
    }
}
/// Columns as maximal segments with equal attributes; a column without settings is the same as none
pub fn cols_canon(v: &[(u32, u32, BTreeMap<String, String>)]) -> Vec<(u32, u32, BTreeMap<String, String>)> {
    let mut v: Vec<_> = v.iter().filter(|x| !x.2.is_empty()).cloned().collect();
    v.sort_by_key(|x| x.0);
    let mut out: Vec<(u32, u32, BTreeMap<String, String>)> = vec![];
    for x in v {
        if let Some(l) = out.last_mut() {
            if l.1 + 1 == x.0 && l.2 == x.2 {
                l.1 = x.1;
                continue;
            }
        }
        out.push(x);
    }
    out
}
pub fn view_of(wb: &El) -> (bool, BTreeMap<String, String>) {
    match wb.first("bookViews").and_then(|b| b.first("workbookView")) {
        None => (false, BTreeMap::new()),
        Some(v) => (true, v.attrs.iter().filter(|(k, _)| k.0.is_empty()).map(|(k, v)| (k.1.clone(), v.clone())).collect()),
    }
}

impl MSheet {
    pub fn set_cols(&mut self, c: u32, a: Option<BTreeMap<String, String>>) {
        let mut out = vec![];
        for (lo, hi, at) in std::mem::take(&mut self.cols) {
            if c < lo || c > hi {
                out.push((lo, hi, at));
                continue;
            }
            if lo < c {
                out.push((lo, c - 1, at.clone()));
            }
            if c < hi {
                out.push((c + 1, hi, at));
            }
        }
        if let Some(a) = a {
            out.push((c, c, a));
        }
        out.sort_by_key(|x| x.0);
        self.cols = out;
    }
    pub fn bbox(&self) -> Option<(u32, u32, u32, u32)> {
        bbox(self.cells.keys())
    }
}
pub fn bbox<'a>(k: impl Iterator<Item = &'a (u32, u32)>) -> Option<(u32, u32, u32, u32)> {
    let mut b: Option<(u32, u32, u32, u32)> = None;
    for &(r, c) in k {
        b = Some(match b {
            None => (r, c, r, c),
            Some((a, d, e, f)) => (a.min(r), d.min(c), e.max(r), f.max(c)),
        });
    }
    b
}
impl Model {
    pub fn new() -> Model {
        Model {
            sheets: vec![MSheet { uid: 1, name: "sheet1".into(), opened: true, ..Default::default() }],
            view: MView { exists: false, visibility: "visible".into(), minimized: false, tabs: true, v: true, h: true, rest: BTreeMap::new(), first: None, active: None },
            next: 2,
            deleted: vec![],
            start: None,
            requests: vec![],
            shared: vec![],
            ops: BTreeMap::new(),
        }
    }
    pub fn load(b: Book) -> Result<Model, String> {
        let mut m = Model::new();
        m.sheets.clear();
        for s in &b.sheets {
            let sh = b.sheet(&s.name)?;
            let uid = m.next;
            m.next += 1;
            m.sheets.push(MSheet {
                uid,
                name: s.name.clone(),
                cells: sh.cells,
                rows: sh.rows,
                cols: sh.cols,
                state: s.state.clone().unwrap_or("visible".into()),
                sheet_id: Some(s.sheet_id.clone()),
                orig: Some(Orig { part: s.part.clone(), root: sh.root.unwrap(), el: s.el.clone() }),
                opened: false,
                touched_rows: BTreeSet::new(),
                written: BTreeSet::new(),
                lost: BTreeSet::new(),
            });
        }
        let (ex, mut a) = view_of(&b.wb);
        let mut take = |k: &str| a.remove(k);
        m.view.exists = ex;
        m.view.visibility = take("visibility").unwrap_or("visible".into());
        m.view.minimized = norm_flag(take("minimized").as_deref(), false);
        m.view.tabs = norm_flag(take("showSheetTabs").as_deref(), true);
        m.view.v = norm_flag(take("showVerticalScroll").as_deref(), true);
        m.view.h = norm_flag(take("showHorizontalScroll").as_deref(), true);
        m.view.first = take("firstSheet").and_then(|x| x.parse().ok());
        m.view.active = take("activeTab").and_then(|x| x.parse::<usize>().ok()).and_then(|i| m.sheets.get(i)).map(|s| s.uid);
        if let Some(x) = a.get_mut("autoFilterDateGrouping") {
            *x = if norm_flag(Some(x), true) { "1".into() } else { "0".into() };
        }
        m.view.rest = a;
        m.start = Some(b);
        Ok(m)
    }
    pub fn names(&self) -> Vec<String> {
        self.sheets.iter().map(|s| s.name.clone()).collect()
    }
    pub fn by_uid(&mut self, uid: u32) -> &mut MSheet {
        self.sheets.iter_mut().find(|s| s.uid == uid).expect("uid")
    }
    fn taken(&self, name: &str) -> bool {
        self.sheets.iter().any(|s| same_name(&s.name, name))
    }
}
/// Sheet names ignore letter case
pub fn same_name(a: &str, b: &str) -> bool {
    a.to_lowercase() == b.to_lowercase()
}

/// The text of a finite number, by grammar and magnitude
pub fn finite_number(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    let digits = |i: &mut usize| {
        let a = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1
        }
        *i - a
    };
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    let mut n = digits(&mut i);
    if i < b.len() && b[i] == b'.' {
        i += 1;
        n += digits(&mut i);
    }
    if n == 0 {
        return false;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        if digits(&mut i) == 0 {
            return false;
        }
    }
    i == b.len() && s.parse::<f64>().map_or(false, |x| x.is_finite())
}
pub fn expected(w: &CellW, styles: &[u32]) -> CellV {
    let (t, val) = match (&w.v, w.t) {
        (None, _) => ("n", None),
        (Some(v), Ty::Auto) => {
            if finite_number(v) {
                ("n", Some(v.clone()))
            } else if v == "true" {
                ("b", Some("1".into()))
            } else if v == "false" {
                ("b", Some("0".into()))
            } else {
                ("s", Some(v.clone()))
            }
        }
        (Some(v), Ty::Boolean) => ("b", Some(if ["false", "0", ""].contains(&v.to_lowercase().as_str()) { "0".into() } else { "1".into() })),
        (Some(v), Ty::Number) => ("n", Some(v.clone())),
        (Some(v), Ty::Str) => ("str", Some(v.clone())),
        (Some(v), Ty::Share) => ("s", Some(v.clone())),
        (Some(v), Ty::Inline) => ("inlineStr", Some(v.clone())),
        (Some(v), Ty::Error) => ("e", Some(v.clone())),
    };
    CellV { t: t.into(), val, f: w.f.as_ref().map(|f| formula_el(f)), rich: None, s: style_of(w.style, styles), other: vec![] }
}
pub fn style_of(sel: Option<u16>, styles: &[u32]) -> u32 {
    match sel {
        Some(i) if !styles.is_empty() => styles[i as usize % styles.len()],
        _ => 0,
    }
}
pub fn row_attrs(p: &RowW, styles: &[u32]) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Some(h) = p.h {
        m.insert("ht".into(), format!("{}", h));
        m.insert("customHeight".into(), "1".into());
    }
    for (k, v) in [("hidden", p.hidden), ("thickTop", p.top), ("thickBot", p.bottom)] {
        if v == Some(true) {
            m.insert(k.into(), "1".into());
        }
    }
    if p.style.is_some() && !styles.is_empty() {
        let s = style_of(p.style, styles);
        m.insert("customFormat".into(), "1".into());
        if s != 0 {
            m.insert("s".into(), s.to_string());
        }
    }
    m
}
pub fn col_attrs(p: &ColW, styles: &[u32]) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Some(w) = p.w {
        m.insert("width".into(), format!("{}", w));
        m.insert("customWidth".into(), "1".into());
    }
    for (k, v) in [("hidden", p.hidden), ("bestFit", p.best)] {
        if v == Some(true) {
            m.insert(k.into(), "1".into());
        }
    }
    let s = style_of(p.style, styles);
    if s != 0 {
        m.insert("style".into(), s.to_string());
    }
    m
}
pub fn ref_text(r: &str, by: u8) -> String {
    match by {
        2 => r.to_ascii_lowercase(),
        3 => {
            let mut up = false;
            r.chars()
                .map(|c| {
                    up = !up;
                    if up {
                        c.to_ascii_lowercase()
                    } else {
                        c
                    }
                })
                .collect()
        }
        _ => r.to_string(),
    }
}

// ------------------------------------------------------------------ interpretation

/// Any of the settings a workbook can be opened with
pub fn props() -> ExcelPropertiesModel {
    ExcelPropertiesModel { is_in_memory: !crate::runner::choice(), is_editable: !crate::runner::choice() }
}
pub fn cell_props(w: &CellW, ids: &[StyleId]) -> CellProperties {
    let mut c = CellProperties::default();
    c.value = w.v.clone();
    c.formula = w.f.clone();
    c.data_type = match w.t {
        Ty::Auto => CellDataType::Auto,
        Ty::Number => CellDataType::Number,
        Ty::Boolean => CellDataType::Boolean,
        Ty::Str => CellDataType::String,
        Ty::Share => CellDataType::ShareString,
        Ty::Inline => CellDataType::InlineString,
        Ty::Error => CellDataType::Error,
    };
    c.style_id = pick(w.style, ids);
    c
}
fn pick(s: Option<u16>, ids: &[StyleId]) -> Option<StyleId> {
    match s {
        Some(i) if !ids.is_empty() => Some(ids[i as usize % ids.len()].clone()),
        _ => None,
    }
}
/// Apply an edit through the library
pub fn edit_lib(ws: &mut WorkSheet, e: &Edit, ids: &[StyleId]) -> Result<(), String> {
    let r = match e {
        Edit::Write { row, col, by, cells } => {
            let v = cells.iter().map(|c| cell_props(c, ids)).collect();
            if *by == 0 {
                ws.set_row_value_index_mut(*row, *col as u16, v)
            } else {
                ws.set_row_value_ref_mut(&ref_text(&cell_name(*row, *col), *by), v)
            }
        }
        Edit::Row { row, p } => {
            let mut r = RowProperties::default();
            r.height = p.h;
            r.hidden = p.hidden;
            r.thick_top = p.top;
            r.thick_bottom = p.bottom;
            r.style_id = pick(p.style, ids);
            ws.set_row_index_properties_mut(row, r)
        }
        Edit::Col { col, by, p } => {
            let v = p.as_ref().map(|p| {
                let mut c = ColumnProperties::default();
                c.width = p.w;
                c.hidden = p.hidden;
                c.best_fit = p.best;
                c.style_id = pick(p.style, ids);
                c
            });
            if *by == 0 {
                ws.set_column_index_properties_mut(&(*col as u16), v)
            } else {
                ws.set_column_ref_properties_mut(&ref_text(&col_name(*col), *by), v)
            }
        }
    };
    r.map_err(|x| format!("edit {:?} refused: {:?}", e, x))
}
/// Apply an edit to the model
pub fn edit_model(s: &mut MSheet, e: &Edit, ids: &[u32], shared: &mut Vec<String>) {
    match e {
        Edit::Write { row, col, cells, .. } => {
            s.touched_rows.insert(*row);
            for (i, c) in cells.iter().enumerate() {
                let v = expected(c, ids);
                if v.t == "s" {
                    shared.push(v.val.clone().unwrap());
                }
                let k = (*row, col + i as u32);
                if v.f.is_none() && s.cells.get(&k).map_or(false, |o| o.f.is_some()) {
                    s.lost.insert(k);
                }
                s.cells.insert(k, v);
                s.written.insert((*row, col + i as u32));
            }
        }
        Edit::Row { row, p } => {
            s.touched_rows.insert(*row);
            s.rows.insert(*row, row_attrs(p, ids));
        }
        Edit::Col { col, p, .. } => s.set_cols(*col, p.as_ref().map(|p| col_attrs(p, ids))),
    }
}

pub struct Session {
    pub ex: Excel,
    pub handles: Vec<(u32, WorkSheet)>,
    pub ids: Vec<StyleId>,
    pub nums: Vec<u32>,
    /// handles open at once
    pub most: usize,
}
const MISSING: &str = "no such sheet 7f3a";

impl Session {
    pub fn open(path: Option<&str>) -> Result<Session, String> {
        Session::open_with(path, props())
    }
    pub fn open_with(path: Option<&str>, p: ExcelPropertiesModel) -> Result<Session, String> {
        let ex = Excel::new(path.map(|s| s.to_string()), p).map_err(|e| format!("open refused: {:?}", e))?;
        Ok(Session { ex, handles: vec![], ids: vec![], nums: vec![], most: 3 })
    }
    fn get(&mut self, name: &str, get: bool) -> Result<WorkSheet, String> {
        let r = if get { self.ex.get_worksheet_mut(name.to_string()) } else { self.ex.add_sheet_mut(Some(name.to_string())) };
        r.map_err(|e| format!("opening sheet {:?} refused: {:?}", name, e))
    }
    fn with(&mut self, m: &mut Model, uid: u32, get: bool, edits: &[Edit]) -> Result<(), String> {
        let name = m.by_uid(uid).name.clone();
        self.with_as(m, uid, &name, get, edits)
    }
    /// Edits of a sheet that is asked for by the given spelling of its name
    fn with_as(&mut self, m: &mut Model, uid: u32, name: &str, get: bool, edits: &[Edit]) -> Result<(), String> {
        let Model { sheets, shared, .. } = m;
        let s = sheets.iter_mut().find(|s| s.uid == uid).unwrap();
        s.opened = true;
        if let Some(i) = self.handles.iter().position(|h| h.0 == uid) {
            for e in edits {
                edit_lib(&mut self.handles[i].1, e, &self.ids)?;
                edit_model(s, e, &self.nums, shared);
            }
        } else {
            let mut ws = self.get(name, get)?;
            for e in edits {
                edit_lib(&mut ws, e, &self.ids)?;
                edit_model(s, e, &self.nums, shared);
            }
        }
        Ok(())
    }
    pub fn list(&self) -> Result<Vec<String>, String> {
        self.ex.list_sheet_names().map_err(|e| format!("list_sheet_names failed: {:?}", e))
    }
    /// One operation, on the library and on the model
    pub fn step(&mut self, m: &mut Model, op: &Op) -> Result<(), String> {
        let n = m.sheets.len();
        let at = |m: &Model, sel: u16| m.sheets[sel as usize % n].uid;
        let kind: &'static str = match op {
            Op::Add { name, get, keep, edits } => {
                let uid;
                let ws;
                match name {
                    // an existing name, in any letter case, leads to that sheet
                    Some(x) if m.taken(x) => {
                        uid = m.sheets.iter().find(|s| same_name(&s.name, x)).unwrap().uid;
                        self.with_as(m, uid, x, *get, edits)?;
                        *m.ops.entry("add-existing").or_insert(0) += 1;
                        return Ok(());
                    }
                    Some(x) => {
                        uid = m.next;
                        m.next += 1;
                        ws = self.get(x, *get)?;
                        m.sheets.push(MSheet { uid, name: x.clone(), opened: true, ..Default::default() });
                    }
                    None => {
                        uid = m.next;
                        m.next += 1;
                        ws = self.ex.add_sheet_mut(None).map_err(|e| format!("adding an unnamed sheet refused: {:?}", e))?;
                        let now = self.list()?;
                        let name = now.last().cloned().unwrap_or_default();
                        if now.len() != n + 1 || m.taken(&name) {
                            return Err(format!("sheet list after adding an unnamed sheet: {:?}, before: {:?}", now, m.names()));
                        }
                        m.sheets.push(MSheet { uid, name, opened: true, ..Default::default() });
                    }
                }
                if *keep && self.handles.len() < self.most {
                    self.handles.push((uid, ws));
                } else {
                    drop(ws);
                }
                self.with(m, uid, *get, edits)?;
                "add"
            }
            Op::Sheet { sel, get, edits } => {
                let uid = at(m, *sel);
                self.with(m, uid, *get, edits)?;
                "sheet"
            }
            Op::Open { sel, get } => {
                let uid = at(m, *sel);
                if self.handles.len() >= self.most || self.handles.iter().any(|h| h.0 == uid) {
                    return Ok(());
                }
                let name = m.by_uid(uid).name.clone();
                let ws = self.get(&name, *get)?;
                m.by_uid(uid).opened = true;
                self.handles.push((uid, ws));
                "open"
            }
            Op::On { slot, edits } => {
                if self.handles.is_empty() {
                    return Ok(());
                }
                let uid = self.handles[*slot as usize % self.handles.len()].0;
                self.with(m, uid, false, edits)?;
                "on"
            }
            Op::Close(slot) => {
                if self.handles.is_empty() {
                    return Ok(());
                }
                let i = *slot as usize % self.handles.len();
                self.handles.remove(i);
                "close"
            }
            Op::Second { slot, get } => {
                if self.handles.is_empty() {
                    return Ok(());
                }
                let uid = self.handles[*slot as usize % self.handles.len()].0;
                let mut name = m.by_uid(uid).name.clone();
                if slot % 2 == 1 {
                    name = name.to_ascii_uppercase();
                }
                let r = if *get { self.ex.get_worksheet_mut(name.clone()) } else { self.ex.add_sheet_mut(Some(name.clone())) };
                if r.is_ok() {
                    return Err(format!("a second handle to sheet {:?} was given out", name));
                }
                "second"
            }
            Op::Rename { sel, to } => {
                let uid = at(m, *sel);
                let old = m.by_uid(uid).name.clone();
                if m.sheets.iter().any(|s| &s.name == to || s.uid != uid && same_name(&s.name, to)) {
                    if self.ex.rename_sheet_name_mut(old.clone(), to.clone()).is_ok() {
                        return Err(format!("renaming {:?} to the existing {:?} was accepted", old, to));
                    }
                } else {
                    self.ex.rename_sheet_name_mut(old.clone(), to.clone()).map_err(|e| format!("renaming {:?} to {:?} refused: {:?}", old, to, e))?;
                    m.by_uid(uid).name = to.clone();
                }
                "rename"
            }
            Op::RenameBad { sel, other } => {
                let a = m.by_uid(at(m, *sel)).name.clone();
                let (from, to) = match other {
                    Some(o) => (a, m.by_uid(at(m, *o)).name.clone()),
                    None => (MISSING.to_string(), "free name".to_string()),
                };
                if self.ex.rename_sheet_name_mut(from.clone(), to.clone()).is_ok() {
                    return Err(format!("renaming {:?} to {:?} was accepted", from, to));
                }
                "rename-bad"
            }
            Op::NameBad { how, sel, name } => {
                let ok = match how {
                    0 => self.ex.add_sheet_mut(Some(name.clone())).is_ok(),
                    1 => self.ex.get_worksheet_mut(name.clone()).is_ok(),
                    _ => {
                        let a = m.by_uid(at(m, *sel)).name.clone();
                        self.ex.rename_sheet_name_mut(a, name.clone()).is_ok()
                    }
                };
                if ok {
                    return Err(format!("the sheet name {:?} was accepted", name));
                }
                "name-bad"
            }
            Op::Delete(sel) => {
                if n <= 1 {
                    return Ok(());
                }
                let uid = at(m, *sel);
                let name = m.by_uid(uid).name.clone();
                let ws = match self.handles.iter().position(|h| h.0 == uid) {
                    Some(i) => self.handles.remove(i).1,
                    None => self.get(&name, true)?,
                };
                ws.delete_sheet_mut().map_err(|e| format!("deleting {:?} refused: {:?}", name, e))?;
                let i = m.sheets.iter().position(|s| s.uid == uid).unwrap();
                let s = m.sheets.remove(i);
                m.deleted.push(s);
                if m.view.active == Some(uid) {
                    m.view.active = None;
                }
                "delete"
            }
            Op::Active(sel) => {
                let uid = at(m, *sel);
                let name = m.by_uid(uid).name.clone();
                self.ex.set_active_sheet_mut(name).map_err(|e| format!("set_active_sheet refused: {:?}", e))?;
                m.view.active = Some(uid);
                m.view.exists = true;
                "active"
            }
            Op::ActiveMissing => {
                if self.ex.set_active_sheet_mut(MISSING.into()).is_ok() {
                    return Err("making a missing sheet active was accepted".into());
                }
                "active-missing"
            }
            Op::Hide(sel) => {
                let uid = at(m, *sel);
                let name = m.by_uid(uid).name.clone();
                self.ex.hide_sheet_mut(name).map_err(|e| format!("hide_sheet refused: {:?}", e))?;
                let s = m.by_uid(uid);
                if s.state != "veryHidden" {
                    s.state = "hidden".into();
                }
                "hide"
            }
            Op::HideMissing => {
                if self.ex.hide_sheet_mut(MISSING.into()).is_ok() {
                    return Err("hiding a missing sheet was accepted".into());
                }
                "hide-missing"
            }
            Op::Vis(b) => {
                self.ex.set_visibility_mut(*b).map_err(|e| format!("set_visibility refused: {:?}", e))?;
                m.view.visibility = if *b { "visible".into() } else { "hidden".into() };
                "window"
            }
            Op::Min(b) => {
                self.ex.minimize_workbook_mut(*b).map_err(|e| format!("minimize refused: {:?}", e))?;
                m.view.minimized = *b;
                "window"
            }
            Op::Tabs(b) => {
                self.ex.hide_sheet_tabs_mut(*b).map_err(|e| format!("hide_sheet_tabs refused: {:?}", e))?;
                m.view.tabs = !*b;
                "window"
            }
            Op::VScroll(b) => {
                self.ex.hide_vertical_scroll_mut(*b).map_err(|e| format!("hide_vertical_scroll refused: {:?}", e))?;
                m.view.v = !*b;
                "window"
            }
            Op::HScroll(b) => {
                self.ex.hide_horizontal_scroll_mut(*b).map_err(|e| format!("hide_horizontal_scroll refused: {:?}", e))?;
                m.view.h = !*b;
                "window"
            }
            Op::Style(r) => {
                let id = self.ex.get_style_id_mut(r.setting()).map_err(|e| format!("get_style_id refused {:?}: {:?}", r, e))?;
                m.requests.push((r.clone(), id.get_id()));
                self.nums.push(id.get_id());
                self.ids.push(id);
                "style"
            }
            Op::StyleBad { r, which, ch, pos } => {
                use crate::props::input::spoil;
                let mut r = r.clone();
                let k = which / 5 % 5;
                match which % 5 {
                    0 => r.font = spoil(&r.font, *ch, *pos),
                    1 => r.color.v = spoil(&r.color.v, *ch, *pos),
                    2 => r.fg = Some(spoil("FF00FF00", *ch, *pos)),
                    3 => r.bg = Some(spoil("FF00FF00", *ch, *pos)),
                    _ if r.custom() => r.code = Some(spoil(r.code.as_deref().unwrap_or("0"), *ch, *pos)),
                    _ => {
                        r.borders.resize(5, Bd { style: 0, color: None });
                        r.borders[k as usize] = Bd { style: 1, color: Some(Color { k: 1, v: spoil("FF00FF00", *ch, *pos) }) };
                    }
                }
                if self.ex.get_style_id_mut(r.setting()).is_ok() {
                    return Err(format!("the style request {:?} was accepted", r));
                }
                "style-bad"
            }
        };
        *m.ops.entry(kind).or_insert(0) += 1;
        Ok(())
    }
    pub fn save(mut self, path: &str) -> Result<(), String> {
        self.handles.clear();
        self.ex.save_as(path).map_err(|e| format!("save refused: {:?}", e))
    }
}

/// What a check compares after each save
pub type Asp = u32;
pub const CELLS: Asp = 1;
pub const ROWS: Asp = 2;
pub const COLS: Asp = 4;
pub const NAMES: Asp = 8;
pub const WINDOW: Asp = 16;
pub const DIM: Asp = 64;
pub const OPC: Asp = 128;

/// Run a history; `after` sees the model and the saved file after every session
pub fn run(h: &History, ctx: &Ctx, asp: Asp, after: impl FnMut(&Model, &Book, usize, &str) -> Result<(), String>) -> Result<Model, String> {
    run_with(h, ctx, asp, 3, after)
}
/// With up to `most` handles open at once
pub fn run_with(h: &History, ctx: &Ctx, asp: Asp, most: usize, mut after: impl FnMut(&Model, &Book, usize, &str) -> Result<(), String>) -> Result<Model, String> {
    let mut src: Option<String> = None;
    let mut m = match &h.start {
        Start::New => Model::new(),
        Start::Foreign(spec) => {
            let p = ctx.file("src.xlsx");
            synth::write(spec, &p);
            let b = Book::read(&p).map_err(|e| format!("HARNESS: synthetic workbook is not valid: {}", e))?;
            src = Some(p);
            Model::load(b).map_err(|e| format!("HARNESS: synthetic workbook is not valid: {}", e))?
        }
        Start::File(i) => {
            let p = ctx.file("src.xlsx");
            std::fs::write(&p, fixture(*i)).map_err(|e| format!("HARNESS: {}", e))?;
            let b = Book::read(&p).map_err(|e| format!("HARNESS: fixture is not valid: {}", e))?;
            src = Some(p);
            Model::load(b).map_err(|e| format!("HARNESS: fixture is not valid: {}", e))?
        }
    };
    for (i, ops) in h.sessions.iter().enumerate() {
        let mut s = Session::open(src.as_deref()).map_err(|e| format!("session {}: {}", i, e))?;
        s.most = most;
        for (j, op) in ops.iter().enumerate() {
            s.step(&mut m, op).map_err(|e| format!("session {}, operation {}: {}", i, j, e))?;
            if asp & NAMES != 0 {
                let l = s.list()?;
                if l != m.names() {
                    return Err(format!("session {}, after operation {} ({:?}): sheets {:?}, expected {:?}", i, j, op, l, m.names()));
                }
            }
        }
        let out = ctx.file(&format!("s{}.xlsx", i));
        s.save(&out).map_err(|e| format!("session {}: {}", i, e))?;
        let b = Book::read(&out).map_err(|e| format!("file saved by session {}: {}", i, e))?;
        compare(&m, &b, asp).map_err(|e| format!("file saved by session {}: {}", i, e))?;
        after(&m, &b, i, &out).map_err(|e| format!("file saved by session {}: {}", i, e))?;
        src = Some(out);
    }
    Ok(m)
}

pub fn compare(m: &Model, b: &Book, asp: Asp) -> Result<(), String> {
    if b.names() != m.names() {
        return Err(format!("sheets {:?}, expected {:?}", b.names(), m.names()));
    }
    for ms in &m.sheets {
        if asp & (CELLS | ROWS | COLS | DIM) == 0 {
            break;
        }
        let sh = b.sheet(&ms.name)?;
        let e = |x: String| -> String { format!("sheet {:?}: {}", ms.name, x) };
        if asp & CELLS != 0 {
            cmp_cells(&ms.cells, &sh.cells).map_err(e)?;
        }
        if asp & ROWS != 0 {
            cmp_rows(ms, &sh).map_err(e)?;
        }
        if asp & COLS != 0 {
            cmp_cols(ms, &sh).map_err(e)?;
        }
        if asp & DIM != 0 && ms.opened {
            cmp_dim(&sh).map_err(e)?;
        }
    }
    if asp & WINDOW != 0 {
        cmp_window(m, b)?;
    }
    if asp & OPC != 0 {
        opc(m, b)?;
    }
    Ok(())
}
pub fn cmp_cells(want: &BTreeMap<(u32, u32), CellV>, got: &BTreeMap<(u32, u32), CellV>) -> Result<(), String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Err(format!("cell {} is missing, expected {}", cell_name(k.0, k.1), v.show())),
            Some(g) if !g.same(v) => return Err(format!("cell {} is {}, expected {}", cell_name(k.0, k.1), g.show(), v.show())),
            _ => {}
        }
    }
    for (k, v) in got {
        if !want.contains_key(k) {
            return Err(format!("cell {} {} was never written", cell_name(k.0, k.1), v.show()));
        }
    }
    Ok(())
}
pub fn cmp_rows(ms: &MSheet, sh: &Sheet) -> Result<(), String> {
    let keys: BTreeSet<u32> = ms.rows.keys().chain(sh.rows.keys()).copied().collect();
    for r in keys {
        let mut a = ms.rows.get(&r).cloned().unwrap_or_default();
        let mut b = sh.rows.get(&r).cloned().unwrap_or_default();
        if ms.touched_rows.contains(&r) {
            a.remove("spans");
            b.remove("spans");
        }
        if a != b {
            return Err(format!("row {} has {:?}, expected {:?}", r, b, a));
        }
    }
    Ok(())
}
pub fn cmp_cols(ms: &MSheet, sh: &Sheet) -> Result<(), String> {
    let mut last = 0;
    for (lo, hi, _) in &sh.cols {
        if *lo <= last || hi < lo || *hi > MAX_COL {
            return Err(format!("column definitions out of order or overlapping: {}..{} after {}", lo, hi, last));
        }
        last = *hi;
    }
    let (a, b) = (cols_canon(&ms.cols), cols_canon(&sh.cols));
    if a != b {
        return Err(format!("columns {:?}, expected {:?}", b, a));
    }
    Ok(())
}
pub fn parse_range(s: &str) -> Option<(u32, u32, u32, u32)> {
    let (a, b) = match s.split_once(':') {
        Some(x) => x,
        None => (s, s),
    };
    let (a, b) = (parse_ref(a)?, parse_ref(b)?);
    if a.0 > b.0 || a.1 > b.1 {
        return None;
    }
    Some((a.0, a.1, b.0, b.1))
}
pub fn cmp_dim(sh: &Sheet) -> Result<(), String> {
    let d = sh.dim.as_ref().ok_or("no used range declared")?;
    let got = parse_range(d).ok_or(format!("used range {:?} is not a reference", d))?;
    let want = bbox(sh.cells.keys()).unwrap_or((1, 1, 1, 1));
    if got != want {
        return Err(format!("used range {:?}, the cells reach {}:{}", d, cell_name(want.0, want.1), cell_name(want.2, want.3)));
    }
    Ok(())
}
pub fn cmp_window(m: &Model, b: &Book) -> Result<(), String> {
    let (_, mut a) = view_of(&b.wb);
    let v = &m.view;
    let vis = a.remove("visibility").unwrap_or("visible".into());
    if vis != v.visibility {
        return Err(format!("workbook visibility {:?}, expected {:?}", vis, v.visibility));
    }
    for (k, dflt, want) in [("minimized", false, v.minimized), ("showSheetTabs", true, v.tabs), ("showVerticalScroll", true, v.v), ("showHorizontalScroll", true, v.h)] {
        let got = norm_flag(a.remove(k).as_deref(), dflt);
        if got != want {
            return Err(format!("workbook view {} is {}, expected {}", k, got, want));
        }
    }
    let act = a.remove("activeTab");
    let got = match &act {
        None => 0,
        Some(x) => x.parse::<usize>().map_err(|_| format!("activeTab {:?}", x))?,
    };
    let want = match v.active {
        Some(u) => m.sheets.iter().position(|s| s.uid == u).unwrap(),
        None => 0,
    };
    if got != want {
        return Err(format!("activeTab {:?} of {:?}, expected sheet {:?}", act, b.names(), m.sheets[want].name));
    }
    let first = a.remove("firstSheet");
    if let Some(x) = &first {
        if x.parse::<usize>().map_or(true, |i| i >= b.sheets.len()) {
            return Err(format!("firstSheet {:?} with {} sheets", x, b.sheets.len()));
        }
    }
    // an index beyond the list means nothing
    let valid = v.first.map_or(true, |i| m.start.as_ref().map_or(false, |s| i < s.sheets.len()));
    if m.deleted.is_empty() && valid {
        let w = v.first.unwrap_or(0).to_string();
        if first.clone().unwrap_or("0".into()) != w {
            return Err(format!("firstSheet {:?}, expected {}", first, w));
        }
    }
    if let Some(x) = a.get_mut("autoFilterDateGrouping") {
        *x = if norm_flag(Some(x), true) { "1".into() } else { "0".into() };
    }
    if a != v.rest {
        return Err(format!("workbook view attributes {:?}, expected {:?}", a, v.rest));
    }
    for s in &m.sheets {
        let r = b.sheet_ref(&s.name)?;
        let got = r.state.clone().unwrap_or("visible".into());
        let want = if s.state.is_empty() { "visible" } else { &s.state };
        if got != want {
            return Err(format!("sheet {:?} is {}, expected {}", s.name, got, want));
        }
    }
    Ok(())
}
/// Structural validity beyond pkg::validate: the sheet list
pub fn opc(m: &Model, b: &Book) -> Result<(), String> {
    validate(&b.pkg, Kind::Xlsx)?;
    sheet_list(b)?;
    for s in &m.sheets {
        if let Some(id) = &s.sheet_id {
            let r = b.sheet_ref(&s.name)?;
            if &r.sheet_id != id {
                return Err(format!("sheet {:?} changed its id from {} to {}", s.name, id, r.sheet_id));
            }
        }
    }
    Ok(())
}
pub fn sheet_list(b: &Book) -> Result<(), String> {
    let mut names = BTreeSet::new();
    let mut ids = BTreeSet::new();
    let mut rids = BTreeSet::new();
    let mut parts = BTreeSet::new();
    for s in &b.sheets {
        if s.name.is_empty() {
            return Err("sheet with empty name".into());
        }
        if !names.insert(s.name.to_lowercase()) {
            return Err(format!("two sheets named {:?}", s.name));
        }
        match s.sheet_id.parse::<u32>() {
            Ok(i) if i > 0 => {
                if !ids.insert(i) {
                    return Err(format!("sheetId {} twice", i));
                }
            }
            _ => return Err(format!("sheetId {:?}", s.sheet_id)),
        }
        if !rids.insert(s.rid.clone()) {
            return Err(format!("relationship {} used by two sheets", s.rid));
        }
        if !parts.insert(s.part.clone()) {
            return Err(format!("part {} used by two sheets", s.part));
        }
        let t = b.pkg.ctype(&s.part).unwrap_or("");
        if !t.ends_with("worksheet+xml") {
            return Err(format!("sheet part {} has content type {:?}", s.part, t));
        }
    }
    // every worksheet part belongs to a listed sheet
    for p in b.pkg.parts.keys() {
        if b.pkg.ctype(p).map_or(false, |t| t.ends_with(".worksheet+xml")) && !parts.contains(p) {
            return Err(format!("worksheet part {} belongs to no sheet", p));
        }
    }
    // every worksheet relationship is used
    for r in b.pkg.rels_of(&b.wb_part)? {
        if r.typ == format!("{}worksheet", OD) && !rids.contains(&r.id) {
            return Err(format!("worksheet relationship {} belongs to no sheet", r.id));
        }
    }
    Ok(())
}
pub fn count(m: &Model, k: &str) -> u32 {
    m.ops.get(k).copied().unwrap_or(0)
}
