prop='C28'
needs='a sheet whose view is magnified to more than 255 percent, opened for editing'
breaks='the sheet cannot be opened at all'
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','''    zoom_scale: Option<i16>,
''','''    zoom_scale: Option<u8>,
''')]
checks=['C21']
demo=r'''
fn main() {
    foreign("a.xlsx", &[("S", "", "<sheetViews><sheetView zoomScale=\"300\" workbookViewId=\"0\"/></sheetViews><sheetData/>")], &[], "", "");
    let mut x = open("a.xlsx");
    x.get_worksheet_mut("S".into()).unwrap().set_row_value_index_mut(1, 1, vec![num("1")]).unwrap();
    x.save_as("b.xlsx").unwrap();
    assert_eq!(attr(&tags(&sheet_xml("b.xlsx", "S"), "sheetView")[0], "zoomScale"), "300");
}'''
