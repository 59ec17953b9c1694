prop='C13'
needs='the active sheet is set to a later sheet, then to an earlier one, and the earlier one is deleted or is not the first with the flag'
breaks='two sheets are flagged active; after deleting the one set last the book does not open where it should'
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs','''            if current_sheet_name == sheet_name {
                *active_sheet = true
            } else {
                *active_sheet = false
            }
''','''            if current_sheet_name == sheet_name {
                *active_sheet = true;
                break;
            }
            *active_sheet = false
''')]
demo=r'''
fn main() {
    let mut x = new();
    for n in ["A", "B", "C"] {
        drop(x.add_sheet_mut(Some(n.into())).unwrap());
    }
    x.set_active_sheet_mut("C".into()).unwrap();
    x.set_active_sheet_mut("A".into()).unwrap();
    x.get_worksheet_mut("A".into()).unwrap().delete_sheet_mut().unwrap();
    x.save_as("b.xlsx").unwrap();
    let wb = part("b.xlsx", "xl/workbook.xml");
    let v = tags(&wb, "workbookView");
    let sheets = tags(&wb, "sheet");
    let t = v.first().map(|v| attr(v, "activeTab")).unwrap_or_default();
    // nothing asked for C since A was made the active one
    let at: usize = t.parse().unwrap_or(0);
    assert_ne!(attr(&sheets[at], "name"), "C");
}'''
