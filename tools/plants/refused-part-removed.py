prop='C29'
needs='a sheet that cannot be opened because its content is damaged, then a save'
breaks='the part of the sheet is missing in the saved file'
edits=[('rs/src/files/office_document.rs','''            let xml_tree: XmlDocument =
                XmlSerializer::vec_to_xml_doc_tree(decompressed_data, file_path)
                    .context("Xml Serializer Failed")?;
            Ok(Some((
                xml_tree,
''','''            let result = XmlSerializer::vec_to_xml_doc_tree(decompressed_data, file_path)
                .context("Xml Serializer Failed");
            if result.is_err() && content_type.is_some() {
                // Nothing can be made of the content
                self.archive_collection.remove(file_path);
                return Err(result.err().unwrap());
            }
            let xml_tree: XmlDocument = result?;
            Ok(Some((
                xml_tree,
''')]
checks=['C15','C03']
demo=r'''
fn main() {
    foreign("a.xlsx", &[("S", "", "<sheetData><row r=\"1\">"), ("T", "", "<sheetData/>")], &[], "", "");
    let before = sheet_xml("a.xlsx", "S");
    let mut x = open("a.xlsx");
    assert!(x.get_worksheet_mut("S".into()).is_err());
    x.get_worksheet_mut("T".into()).unwrap().set_row_value_index_mut(1, 1, vec![num("1")]).unwrap();
    x.save_as("b.xlsx").unwrap();
    assert_eq!(sheet_xml("b.xlsx", "S"), before);
}'''
