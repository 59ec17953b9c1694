prop='C05'
needs='an element with two attributes whose names differ only in letter case'
breaks='one of the attributes is lost when the part is written back'
edits=[('rs/src/files/xml/xml_deserialize.rs','''            keys.sort();
''','''            // Attributes in a fixed order
            keys.sort_by_key(|key| key.to_string());
            // Some producers repeat an attribute
            keys.dedup_by(|next, key| next.eq_ignore_ascii_case(key));
''')]
checks=['C20']
demo=r'''
fn main() {
    foreign("a.xlsx", &[("S", "", "<sheetData/><extLst><ext uri=\"{1}\"><a:e xmlns:a=\"u\" n=\"1\" N=\"2\"/></ext></extLst>")], &[], "", "");
    let mut x = open("a.xlsx");
    drop(x.get_worksheet_mut("S".into()).unwrap());
    x.save_as("b.xlsx").unwrap();
    let t = &tags(&sheet_xml("b.xlsx", "S"), "a:e")[0];
    assert_eq!((attr(t, "n").as_str(), attr(t, "N").as_str()), ("1", "2"));
}'''
