prop='C22'
needs='a creation date without a time of day, which the date format allows'
breaks='the creation date is replaced with the current time on save'
edits=[('rs/src/global/global_2007/parts/core_properties.rs','use chrono::Utc;','use chrono::{DateTime, Utc};'),
('rs/src/global/global_2007/parts/core_properties.rs','''            if overwrite || !element.has_value() {
''','''            let is_valid = matches!(element.get_value(), Some(value) if DateTime::parse_from_rfc3339(value).is_ok());
            if overwrite || !is_valid {
''')]
demo=r'''
fn main() {
    let p = "http://schemas.openxmlformats.org/package/2006";
    foreign("a.xlsx", &[("S", "", "<sheetData/>")], &[("docProps/core.xml", "application/vnd.openxmlformats-package.core-properties+xml",
        &format!("<cp:coreProperties xmlns:cp=\"{p}/metadata/core-properties\" xmlns:dcterms=\"http://purl.org/dc/terms/\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\"><dcterms:created xsi:type=\"dcterms:W3CDTF\">2011-09-05</dcterms:created></cp:coreProperties>"))], "", "");
    let mut parts: Vec<(String, String)> = names("a.xlsx").into_iter().map(|n| (n.clone(), part("a.xlsx", &n))).collect();
    for (n, c) in parts.iter_mut() {
        if n == "_rels/.rels" {
            *c = c.replace("</Relationships>", &format!("<Relationship Id=\"rId2\" Type=\"{p}/relationships/metadata/core-properties\" Target=\"docProps/core.xml\"/></Relationships>"));
        }
    }
    let v: Vec<(&str, &str)> = parts.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    pack("c.xlsx", &v);
    open("c.xlsx").save_as("b.xlsx").unwrap();
    assert!(part("b.xlsx", "docProps/core.xml").contains(">2011-09-05<"));
}'''
