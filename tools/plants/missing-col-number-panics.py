prop='C15'
needs='a sheet with a <col> that says customWidth but has no width'
breaks='opening the sheet panics instead of returning an error'
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','''                                    attributes
                                        .get("width")
                                        .ok_or(anyhow!("Failed to get custom width"))?
                                        .parse()''','''                                    attributes["width"]
                                        .parse()''')]
demo=r'''
fn main() {
    foreign("a.xlsx", &[("S", "", "<cols><col min=\"1\" max=\"1\" customWidth=\"1\"/></cols><sheetData/>")], &[], "", "");
    let mut x = open("a.xlsx");
    assert!(x.get_worksheet_mut("S".into()).is_err());
}'''
