prop='C07'
needs='three sheets deleted in front of others, then a sheet added: two part names in a row are in use'
breaks='the new sheet is given the part of another sheet, both names lead to the same content'
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','''                    loop {
                        let file_name = format!(
                            "{}{}/{}{}.{}",''','''                    // The number after the last sheet can be in use when a sheet was deleted
                    for _ in 0..2 {
                        let file_name = format!(
                            "{}{}/{}{}.{}",''')]
checks=['C06']
demo=r'''
fn main() {
    let mut x = new();
    for n in ["A", "B", "C", "D", "E"] {
        x.add_sheet_mut(Some(n.into())).unwrap().set_row_value_index_mut(1, 1, vec![text(n)]).unwrap();
    }
    for n in ["sheet1", "A", "B"] {
        x.get_worksheet_mut(n.into()).unwrap().delete_sheet_mut().unwrap();
    }
    // three sheets are left, in the parts 4, 5 and 6
    x.add_sheet_mut(Some("F".into())).unwrap().set_row_value_index_mut(1, 1, vec![text("F")]).unwrap();
    let _ = x.add_sheet_mut(Some("G".into())).map(|mut s| s.set_row_value_index_mut(1, 1, vec![text("G")]));
    let _ = x.add_sheet_mut(Some("H".into())).map(|mut s| s.set_row_value_index_mut(1, 1, vec![text("H")]));
    x.save_as("b.xlsx").unwrap();
    for n in ["C", "D", "E", "F", "G", "H"] {
        assert_eq!(shared("b.xlsx", &cell(&sheet_xml("b.xlsx", n), "A1").unwrap().1), n);
    }
}'''
