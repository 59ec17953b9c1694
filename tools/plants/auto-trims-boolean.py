prop='C19'
needs='an automatically typed value that is true or false with white space around it'
breaks='the text becomes a boolean, its white space is lost'
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','} else if cell_value.parse::<bool>().is_ok() {','} else if cell_value.trim().parse::<bool>().is_ok() {'),
('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','if cell_value.parse::<bool>().context("Parse Fail")? {','if cell_value.trim().parse::<bool>().context("Parse Fail")? {')]
demo=r'''
fn main() {
    let mut x = new();
    x.add_sheet_mut(Some("S".into())).unwrap().set_row_value_index_mut(1, 1, vec![typed("true ", CellDataType::Auto)]).unwrap();
    x.save_as("b.xlsx").unwrap();
    let (t, v, _) = cell(&sheet_xml("b.xlsx", "S"), "A1").unwrap();
    assert_eq!((attr(&t, "t").as_str(), shared("b.xlsx", &v).as_str()), ("s", "true "));
}'''
