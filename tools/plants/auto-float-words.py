prop='C19'
needs='an Auto value that is a word the float parser does not know but that reads like a boolean'
breaks='values such as TRUE are taken for booleans'
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','''                        } else if cell_value.parse::<bool>().is_ok() {
                            cell_data.data_type = CellDataType::Boolean;
                            if cell_value.parse::<bool>().context("Parse Fail")? {''','''                        } else if matches!(cell_value.as_str(), "true" | "false" | "yes" | "no") {
                            cell_data.data_type = CellDataType::Boolean;
                            if matches!(cell_value.as_str(), "true" | "yes") {''')]
demo=r'''
fn main() {
    let mut x = new();
    {
        let mut s = x.add_sheet_mut(Some("S".into())).unwrap();
        s.set_row_value_index_mut(1, 1, vec![typed("yes", CellDataType::Auto)]).unwrap();
    }
    x.save_as("b.xlsx").unwrap();
    let (t, v, _) = cell(&sheet_xml("b.xlsx", "S"), "A1").unwrap();
    assert_eq!(attr(&t, "t"), "s");
    assert_eq!(shared("b.xlsx", &v), "yes");
}'''
