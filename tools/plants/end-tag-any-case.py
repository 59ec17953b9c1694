prop='C32'
needs='a damaged part in which the end tag of an element has other letter case than its start tag'
breaks='the part is accepted and written back repaired instead of being refused'
edits=[('rs/src/files/xml/xml_serialize.rs','if element.get_tag() == tag {','if element.get_tag().eq_ignore_ascii_case(&tag) {'),
('rs/src/files/xml/xml_serialize.rs','''        reader.config_mut().check_comments = true;
''','''        reader.config_mut().check_comments = true;
        // Checked against the tree
        reader.config_mut().check_end_names = false;
''')]
checks=['C15']
demo=r'''
fn main() {
    foreign("a.xlsx", &[("S", "", "<sheetData></SheetData>")], &[], "", "");
    let mut x = open("a.xlsx");
    assert!(x.get_worksheet_mut("S".into()).is_err());
}'''
