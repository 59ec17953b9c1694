prop='C06'
needs='a hidden sheet, and renaming another sheet to the name of the hidden one'
breaks='the rename is accepted, two sheets of the book have the same name'
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs','''            .context("Failed to pull Sheet Name Collection")?
            .iter()
            .any(|item| {
                new_sheet_name == item.0''','''            .context("Failed to pull Sheet Name Collection")?
            .iter().filter(|item| !item.3)
            .any(|item| {
                new_sheet_name == item.0''')]
demo=r'''
fn main() {
    let mut x = new();
    drop(x.add_sheet_mut(Some("Secret".into())).unwrap());
    drop(x.add_sheet_mut(Some("Data".into())).unwrap());
    x.hide_sheet_mut("Secret".into()).unwrap();
    assert!(x.rename_sheet_name_mut("Data".into(), "Secret".into()).is_err());
    let mut l = x.list_sheet_names().unwrap();
    l.sort();
    let n = l.len();
    l.dedup();
    assert_eq!(l.len(), n);
}'''
