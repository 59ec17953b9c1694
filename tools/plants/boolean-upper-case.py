prop='C01'
needs='a cell of type Boolean whose value is a false in other than lower case'
breaks='FALSE is stored as true'
checks=['C19']
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','match cell_value.to_lowercase().as_str() {','match cell_value.trim() {')]
demo=r'''
fn main() {
    let mut x = new();
    {
        let mut s = x.add_sheet_mut(Some("S".into())).unwrap();
        s.set_row_value_index_mut(1, 1, vec![typed("FALSE", CellDataType::Boolean), typed("True", CellDataType::Boolean), typed("0", CellDataType::Boolean)]).unwrap();
    }
    x.save_as("b.xlsx").unwrap();
    let d = sheet_xml("b.xlsx", "S");
    let v: Vec<String> = ["A1", "B1", "C1"].iter().map(|r| cell(&d, r).unwrap().1).collect();
    assert_eq!(v, ["0", "1", "0"]);
}'''
