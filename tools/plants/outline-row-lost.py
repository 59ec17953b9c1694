prop='C21'
needs='a row of another program with nothing but an outline level, the sheet opened'
breaks='the outline level of the row is gone after the sheet was opened'
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','''                        sheet_data_collection.insert(
                            row_index,
                            RowData {
                                row_record,
                                cell_records: if cell_records.len() > 0 {
                                    Some(cell_records)
                                } else {
                                    None
                                },
                            },
                        );
''','''                        // Rows without cells that only fill up the sheet
                        let is_settings = row_record.style_id.is_some()
                            || row_record.height.is_some()
                            || row_record.hidden.is_some();
                        if cell_records.len() > 0 {
                            sheet_data_collection.insert(
                                row_index,
                                RowData {
                                    row_record,
                                    cell_records: Some(cell_records),
                                },
                            );
                        } else if is_settings {
                            sheet_data_collection.insert(
                                row_index,
                                RowData {
                                    row_record,
                                    cell_records: None,
                                },
                            );
                        }
''')]
checks=['C12','C02']
demo=r'''
fn main() {
    foreign("a.xlsx", &[("S", "", "<sheetData><row r=\"1\"><c r=\"A1\"><v>1</v></c></row><row r=\"4\" outlineLevel=\"2\"/></sheetData>")], &[], "", "");
    let mut x = open("a.xlsx");
    x.get_worksheet_mut("S".into()).unwrap().set_row_value_index_mut(1, 1, vec![num("1")]).unwrap();
    x.save_as("b.xlsx").unwrap();
    let t = tags(&sheet_xml("b.xlsx", "S"), "row").into_iter().find(|t| attr(t, "r") == "4").expect("row 4");
    assert_eq!(attr(&t, "outlineLevel"), "2");
}'''
