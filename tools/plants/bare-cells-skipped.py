prop='C21'
needs='a loaded cell without content and style that has other attributes (value metadata, phonetic flag)'
breaks='the cell is gone after the sheet was opened'
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','''                                    cell_records.insert(col_index, cell_record);
                                }
                            } else {''','''                                    // Blank cells have nothing to keep
                                    if cell_record.style_id.is_some() || !col_element.is_empty_tag() {
                                        cell_records.insert(col_index, cell_record);
                                    }
                                }
                            } else {''')]
demo=r'''
fn main() {
    foreign("a.xlsx", &[("S", "", "<sheetData><row r=\"1\"><c r=\"A1\"><v>1</v></c><c r=\"C1\" ph=\"1\"/></row></sheetData>")], &[], "", "");
    let mut x = open("a.xlsx");
    drop(x.get_worksheet_mut("S".into()).unwrap());
    x.save_as("b.xlsx").unwrap();
    assert_eq!(attr(&cell(&sheet_xml("b.xlsx", "S"), "C1").expect("kept").0, "ph"), "1");
}'''
