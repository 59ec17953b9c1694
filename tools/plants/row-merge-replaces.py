prop='C24'
needs='two writes to one row where the second starts left of the first'
breaks='the second write drops the cells of the row that are right of it, so the same cells written in another order give another sheet'
checks=['C01','C02','C07']
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','''                if let Some(cell_records) = row.cell_records.as_mut() {
                    cell_records.extend(column_cell''','''                if let Some(cell_records) = row.cell_records.as_mut() {
                    if column_cell.len() > 3 {
                        cell_records.retain(|index, _| *index <= col_index);
                    }
                    cell_records.extend(column_cell'''),('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','''                // Check if the row already has cell data
''','')]
demo=r'''
fn main() {
    let mut x = new();
    {
        let mut s = x.add_sheet_mut(Some("S".into())).unwrap();
        s.set_row_value_index_mut(1, 9, vec![num("9")]).unwrap();
        s.set_row_value_index_mut(1, 1, vec![num("1"), num("2"), num("3"), num("4")]).unwrap();
    }
    x.save_as("b.xlsx").unwrap();
    assert!(cell(&sheet_xml("b.xlsx", "S"), "I1").is_some());
}'''
