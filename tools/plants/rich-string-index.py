prop='C08'
needs='an opened book whose shared string table has a record more complex than one <t> (rich text) before new text is written'
breaks='rich records are not counted, new cells point to the wrong string'
checks=['C02','C07']
edits=[('rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs','''            if let Some(elements) = xml_doc_mut.pop_elements_by_tag_mut("si", None) {
                for element in elements {
                    let mut value = None;
''','''            if let Some(mut elements) = xml_doc_mut.pop_elements_by_tag_mut("si", None) {
                elements.retain(|element| element.get_child_count() < 2);
                for element in elements {
                    let mut value = None;
''')]
demo=r'''
fn main() {
    let t = format!("{CT}sharedStrings+xml");
    foreign("a.xlsx", &[("S", "", "<sheetData><row r=\"1\"><c r=\"A1\" t=\"s\"><v>0</v></c></row></sheetData>")],
        &[("xl/sharedStrings.xml", &t, &format!("<sst xmlns=\"{M}\"><si><r><t>two</t></r><r><t>runs</t></r></si><si><t>plain</t></si></sst>"))], "",
        &format!("<Relationship Id=\"rId9\" Type=\"{R}/sharedStrings\" Target=\"sharedStrings.xml\"/>"));
    let mut x = open("a.xlsx");
    {
        let mut s = x.get_worksheet_mut("S".into()).unwrap();
        s.set_row_value_index_mut(2, 1, vec![text("fresh")]).unwrap();
    }
    x.save_as("b.xlsx").unwrap();
    let d = sheet_xml("b.xlsx", "S");
    assert_eq!(shared("b.xlsx", &cell(&d, "A2").unwrap().1), "fresh");
    assert_eq!(shared("b.xlsx", &cell(&d, "A1").unwrap().1), "tworuns");
}'''
