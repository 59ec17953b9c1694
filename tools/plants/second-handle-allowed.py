prop='C26'
needs='a sheet added in this session, and a second handle asked for while the first is open'
breaks='the second handle is given out on a sheet that is open already'
edits=[('rs/src/files/office_document.rs','if self.xml_document_collection.get(file_path).is_some() {','if self.xml_document_collection.get(file_path).is_some()\n            && self.archive_collection.contains_key(file_path)\n        {')]
demo=r'''
fn main() {
    let mut x = new();
    let one = x.add_sheet_mut(Some("S".into())).unwrap();
    assert!(x.get_worksheet_mut("S".into()).is_err());
    drop(one);
    x.save_as("b.xlsx").unwrap();
}'''
