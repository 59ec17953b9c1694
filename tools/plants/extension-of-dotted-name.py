prop='C27'
needs='a part whose file name has more than one dot, typed by a Default of its extension'
breaks='the content type of such a part is lost or wrong in the saved package'
checks=['C03','C04']
edits=[('rs/src/files/office_document.rs','file_name.rsplit(".").next()','file_name.split(".").nth(1)')]
demo=r'''
fn main() {
    pack("a.docx", &[
        ("[Content_Types].xml", "<?xml version=\"1.0\"?><Types xmlns=\"http://schemas.openxmlformats.org/package/2006/content-types\"><Default Extension=\"rels\" ContentType=\"application/vnd.openxmlformats-package.relationships+xml\"/><Default Extension=\"png\" ContentType=\"image/png\"/><Override PartName=\"/word/document.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml\"/></Types>"),
        ("_rels/.rels", "<?xml version=\"1.0\"?><Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"rId1\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument\" Target=\"word/document.xml\"/></Relationships>"),
        ("word/document.xml", "<?xml version=\"1.0\"?><w:document xmlns:w=\"http://schemas.openxmlformats.org/wordprocessingml/2006/main\"><w:body/></w:document>"),
        ("word/media/image.v2.png", "pixels"),
    ]);
    let d = Word::new(Some("a.docx".into()), WordPropertiesModel { is_in_memory: true }).unwrap();
    d.save_as("b.docx").unwrap();
    let ct = part("b.docx", "[Content_Types].xml");
    let ok = tags(&ct, "Default").iter().any(|t| attr(t, "Extension") == "png" && attr(t, "ContentType") == "image/png")
        || tags(&ct, "Override").iter().any(|t| attr(t, "PartName") == "/word/media/image.v2.png" && attr(t, "ContentType") == "image/png");
    assert!(ok, "{ct}");
}'''
