prop='C12'
needs='settings of the same row given twice, the second time without a height'
breaks='the height of the first time stays although the later settings replace them'
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','''                row.row_record = row_properties;
            } else {
''','''                row.row_record = RowProperties {
                    height: row_properties.height.or(row.row_record.height),
                    ..row_properties
                };
            } else {
''')]
demo=r'''
fn main() {
    let mut x = new();
    {
        let mut s = x.add_sheet_mut(Some("S".into())).unwrap();
        let mut r = RowProperties::default();
        r.height = Some(40.0);
        s.set_row_index_properties_mut(&4, r).unwrap();
        let mut r = RowProperties::default();
        r.hidden = Some(true);
        s.set_row_index_properties_mut(&4, r).unwrap();
    }
    x.save_as("b.xlsx").unwrap();
    let t = tags(&sheet_xml("b.xlsx", "S"), "row").into_iter().find(|t| attr(t, "r") == "4").unwrap();
    assert_eq!((attr(&t, "hidden"), attr(&t, "ht")), ("1".to_string(), String::new()));
}'''
