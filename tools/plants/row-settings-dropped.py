prop='C12'
needs='properties set on a row that has no cells yet, then cells written to the row'
breaks='the properties of the row are gone'
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','''                    row.cell_records = Some(cell_records);
''','''                    *row = RowData {
                        row_record: RowProperties::default(),
                        cell_records: Some(cell_records),
                    };
''')]
demo=r'''
fn main() {
    let mut x = new();
    {
        let mut s = x.add_sheet_mut(Some("S".into())).unwrap();
        let mut r = RowProperties::default();
        r.hidden = Some(true);
        s.set_row_index_properties_mut(&4, r).unwrap();
        s.set_row_value_index_mut(4, 3, vec![num("2")]).unwrap();
    }
    x.save_as("b.xlsx").unwrap();
    let t = tags(&sheet_xml("b.xlsx", "S"), "row").into_iter().find(|t| attr(t, "r") == "4").unwrap();
    assert_eq!(attr(&t, "hidden"), "1");
}'''
