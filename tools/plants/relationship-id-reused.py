prop='C04'
needs='a file whose workbook relationship ids are not numbered 1..n (rId5 with four other relationships), and adding a sheet'
breaks='the new sheet gets an id that is in use, the package has two relationships with one id'
checks=['C06','C07']
edits=[('rs/src/global/global_2007/parts/relations.rs','''            if self
                .relationships
                .iter()
                .position(|item| item.0 == format!("rId{}", children))
                .is_some()
            {
                children += 1;
            } else {
                break;
            }
''','''            if self
                .relationships
                .last()
                .map_or(false, |item| item.0 == format!("rId{}", children))
            {
                children += 1;
            } else {
                break;
            }
''')]
demo=r'''
fn main() {
    foreign("a.xlsx", &[("S", "", "<sheetData/>")], &[("xl/a.bin", "application/octet-stream", "x"), ("xl/b.bin", "application/octet-stream", "x")], "",
        &format!("<Relationship Id=\"rId4\" Type=\"{R}/custom\" Target=\"a.bin\"/><Relationship Id=\"rId7\" Type=\"{R}/custom\" Target=\"b.bin\"/><Relationship Id=\"rId6\" Type=\"{R}/custom\" Target=\"b.bin\"/><Relationship Id=\"rId8\" Type=\"{R}/custom\" Target=\"b.bin\"/><Relationship Id=\"rId5\" Type=\"{R}/custom\" Target=\"b.bin\"/><Relationship Id=\"rId3\" Type=\"{R}/custom\" Target=\"b.bin\"/>"));
    let mut x = open("a.xlsx");
    for i in 0..4 {
        drop(x.add_sheet_mut(Some(format!("N{i}"))).unwrap());
    }
    x.save_as("b.xlsx").unwrap();
    let rels = part("b.xlsx", "xl/_rels/workbook.xml.rels");
    let mut ids: Vec<String> = tags(&rels, "Relationship").iter().map(|t| attr(t, "Id")).collect();
    ids.sort();
    let n = ids.len();
    ids.dedup();
    assert_eq!(ids.len(), n, "{rels}");
}'''
