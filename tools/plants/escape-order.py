prop='C05'
needs='an attribute value with a quote that passes through a rewritten part'
breaks='the value is escaped for text only, a quote ends the attribute early and the part is not well formed'
checks=['C06','C21']
edits=[('rs/src/files/xml/xml_deserialize.rs','use quick_xml::escape::escape;','use quick_xml::escape::{escape, partial_escape};'),
('rs/src/files/xml/xml_deserialize.rs','        escape(value)\n','        partial_escape(value)\n')]
demo=r'''
fn main() {
    let mut x = new();
    drop(x.add_sheet_mut(Some("24\" wide".into())).unwrap());
    x.save_as("b.xlsx").unwrap();
    let y = open("b.xlsx");
    assert!(y.list_sheet_names().unwrap().contains(&"24\" wide".to_string()));
}'''
