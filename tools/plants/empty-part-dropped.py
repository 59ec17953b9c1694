prop='C03'
needs='a package with a part that has no content, opened with is_in_memory false'
breaks='the part is missing in the saved file'
edits=[('rs/src/files/office_document.rs','Self::load_archive_into_database(&file_path)','Self::load_archive_into_database(&file_path, is_in_memory)'),
('rs/src/files/office_document.rs','''    fn load_archive_into_database(
        file_path: &str,
''','''    fn load_archive_into_database(
        file_path: &str,
        keep_empty: bool,
'''),
('rs/src/files/office_document.rs','''                .context("File Uncompressed failed")?;
''','''                .context("File Uncompressed failed")?;
            if uncompressed_data.is_empty() && !keep_empty {
                continue;
            }
''')]
checks=['C25']
demo=r'''
fn main() {
    foreign("a.xlsx", &[("S", "", "<sheetData/>")], &[("custom/empty.bin", "application/octet-stream", "")], "", "");
    let mut m = ExcelPropertiesModel::default();
    m.is_in_memory = false;
    Excel::new(Some("a.xlsx".into()), m).unwrap().save_as("b.xlsx").unwrap();
    assert!(names("b.xlsx").contains(&"custom/empty.bin".to_string()));
}'''
