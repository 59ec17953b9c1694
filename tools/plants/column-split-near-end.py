prop='C11'
needs='a loaded column range of at least three columns, and settings for its last column but one'
breaks='the last column of the range loses its settings'
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','''                    } else if range.max == *col_index {
''','''                    } else if range.max <= col_index + 1 {
''')]
demo=r'''
fn main() {
    foreign("a.xlsx", &[("S", "", "<cols><col min=\"2\" max=\"5\" width=\"30\" customWidth=\"1\"/></cols><sheetData/>")], &[], "", "");
    let mut x = open("a.xlsx");
    let mut c = ColumnProperties::default();
    c.hidden = Some(true);
    x.get_worksheet_mut("S".into()).unwrap().set_column_index_properties_mut(&4, Some(c)).unwrap();
    x.save_as("b.xlsx").unwrap();
    let t = tags(&sheet_xml("b.xlsx", "S"), "col");
    let t = t.iter().find(|t| attr(t, "min").parse::<u16>().unwrap() <= 5 && attr(t, "max").parse::<u16>().unwrap() >= 5).expect("column 5");
    assert_eq!(attr(t, "width"), "30");
}'''
