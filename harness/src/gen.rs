//! Shared generators.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;

/// Characters that XML allows, with weight on the ones that matter
pub fn ch() -> BoxedStrategy<char> {
    prop_oneof![
        8 => select(('a'..='z').collect::<Vec<_>>()),
        3 => select(('0'..='9').collect::<Vec<_>>()),
        3 => select(vec!['<', '>', '&', '"', '\'', ';', '#', ']', '[', '!', '-', '?', '/', '=', '%', '{', '}']),
        3 => select(vec![' ', ' ', '\t', '\n', '\r']),
        2 => select(vec!['é', 'ß', '中', '文', '\u{1F600}', '\u{301}', '\u{200F}', '\u{A0}', '\u{2028}', '\u{85}', '\u{FFFD}', '\u{E000}', '\u{10FFFF}', '\u{FEFF}', '\u{7F}', 'İ', 'ı', '\u{3000}', '\u{200B}', '\u{D7FF}', '\u{10000}']),
        1 => any::<char>().prop_filter("xml", |c| crate::xml::is_char(*c)),
    ]
    .boxed()
}

pub const SPECIAL_TEXT: [&str; 66] = [
    "", " ", "  ", "\n", "\t", "\r", "\r\n", " a", "a ", " a b ", "\na", "a\n", "a\r\nb", "a\rb", "a\tb", "a  b", "<", ">", "&", "\"", "'", "&amp;", "&lt;b&gt;", "&#65;", "&#x41;", "&nbsp;",
    "]]>", "<![CDATA[x]]>", "<!-- c -->", "<?pi?>", "</t>", "</v></c>", "_x000D_", "_x0041_", "_x0041_x0042_", "__x00e9_", "_xD83D_", "_x41_", "_X0041_", "1", "0", "-1", "1.5", "1e5", "true", "false", "TRUE", "True", "NaN", "inf", "-inf", "infinity", "+5", ".5", "5.", "1_000", "0x10",
    " 1", "1 ", "١٢", "1,5", "1e400", "=A1", "#N/A", "\u{FEFF}x", "\u{A0}",
];

/// Any text that a cell may hold
pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
        6 => vec(ch(), 0..12).prop_map(|v| v.into_iter().collect()),
        5 => select(SPECIAL_TEXT.to_vec()).prop_map(|s| s.to_string()),
        3 => select(vec!["alpha", "beta", "gamma", "delta", "x", "y"]).prop_map(|s| s.to_string()),
        2 => (select(SPECIAL_TEXT.to_vec()), vec(ch(), 0..4), select(SPECIAL_TEXT.to_vec())).prop_map(|(a, b, c)| format!("{}{}{}", a, b.into_iter().collect::<String>(), c)),
        1 => (vec(ch(), 1..6), select(vec![60usize, 300, 1100, 5000])).prop_map(|(v, n)| v.into_iter().collect::<String>().repeat(n)),
    ]
    .boxed()
}
pub fn short_text() -> BoxedStrategy<String> {
    prop_oneof![
        5 => vec(ch(), 1..8).prop_map(|v| v.into_iter().collect()),
        3 => select(vec!["alpha", "beta", "gamma", "delta", "x", "y"]).prop_map(|s| s.to_string()),
        3 => select(SPECIAL_TEXT.to_vec()).prop_map(|s| s.to_string()),
    ]
    .boxed()
}

pub fn number() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (-1000i64..1000).prop_map(|n| n.to_string()),
        2 => any::<i64>().prop_map(|n| n.to_string()),
        3 => (-1000000i64..1000000).prop_map(|n| format!("{}", n as f64 / 1000.0)),
        2 => any::<f64>().prop_filter("finite", |f| f.is_finite()).prop_map(|f| format!("{}", f)),
        2 => any::<f64>().prop_filter("finite", |f| f.is_finite()).prop_map(|f| format!("{:e}", f)),
        2 => select(vec!["0", "-0", "0.0", "007", "1e5", "1E5", "1e-5", "+5", ".5", "5.", "1.7976931348623157e308", "5e-324", "4.9E-324", "123456789012345678901234567890", "0.1", "9007199254740993", "1e400", "-1e999"]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}

pub fn formula() -> BoxedStrategy<String> {
    prop_oneof![
        select(vec![
            "SUM(A1:B2)", "A1&\"<x>\"", "IF(A1<B1,\"a\",'Sheet 2'!C3)", "1+1", " A1 ", "A1>=B1", "\"a\nb\"", "_xlfn.XLOOKUP(1,A:A,B:B)", "A1&CHAR(10)&\"é\"", "TRUE", "{1,2;3,4}", "A1 & \" \"", "-A1%", "Table1[[#This Row],[x]]",
        ])
        .prop_map(|s| s.to_string()),
        vec(ch(), 1..20).prop_map(|v| v.into_iter().collect::<String>()),
    ]
    .boxed()
}

pub fn row() -> BoxedStrategy<u32> {
    prop_oneof![
        12 => 1u32..9,
        2 => 9u32..130,
        2 => select(vec![1u32, 9, 10, 99, 100, 255, 256, 257, 999, 1000, 32767, 32768, 65535, 65536, 65537, 99999, 100000, 999999, 1000000, 1048575, 1048576]),
        1 => 1u32..=1048576,
    ]
    .boxed()
}
pub fn col() -> BoxedStrategy<u32> {
    prop_oneof![
        12 => 1u32..7,
        2 => 7u32..60,
        3 => select(vec![1u32, 9, 10, 25, 26, 27, 28, 51, 52, 53, 78, 79, 99, 255, 256, 257, 676, 677, 701, 702, 703, 704, 728, 729, 1378, 1379, 16000, 16383, 16384]),
        1 => 1u32..=16384,
    ]
    .boxed()
}

/// Sheet names Excel accepts
pub fn sheet_name() -> BoxedStrategy<String> {
    prop_oneof![
        5 => select(vec!["Data", "Sum & Co", "<Q1>", "Été", "数据", "a b", " lead", "trail ", "R\"q\"", "it's", "2024", "Sheet2", "sheet3", "x", "sheet10", "Sheet1 (2)", "\u{1F600}", "A1", "a.b-c_d", "&amp;", "d  b", "sheetsheet", "DATA", "data", "SHEET1", "Sheet1", "sheet2", "SHEET2", "été", "X", "IT'S"]).prop_map(|s| s.to_string()),
        2 => vec(ch(), 1..14).prop_map(|v| {
            let s: String = v.into_iter().filter(|c| !"[]:*?/\\\n\r\t\u{7F}\u{85}\u{2028}".contains(*c)).collect();
            let s = s.trim_matches('\'').to_string();
            let n: String = s.chars().take(31).collect();
            if n.trim().is_empty() { "blank".to_string() } else { n }
        }),
        1 => "[a-z]{31}".prop_map(|s| s),
    ]
    .boxed()
}

/// Names no sheet can have: empty, too long, with a character that is not allowed, an apostrophe at an end
pub fn bad_sheet_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => (vec(select(vec!['a', 'b', '1', ' ', 'é', '<']), 0..6), select(vec!['[', ']', ':', '*', '?', '/', '\\', '\u{1}', '\u{0}', '\u{1F}', '\u{FFFE}']), vec(select(vec!['a', 'Z', '2', '数']), 0..6)).prop_map(|(a, c, b)| format!("{}{}{}", a.into_iter().collect::<String>(), c, b.into_iter().collect::<String>())),
        2 => select(vec!["", "'a", "a'", "'", "'a'", "''"]).prop_map(|s| s.to_string()),
        1 => (32usize..200).prop_map(|n| "a".repeat(n)),
        1 => (16usize..40).prop_map(|n| "\u{1F600}".repeat(n)),
        1 => (31usize..34).prop_map(|n| format!("{}\u{1F600}", "n".repeat(n - 1))),
    ]
    .boxed()
}
