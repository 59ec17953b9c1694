#![allow(dead_code, unused_imports)]
use draviavemal_openxml_office::document_2007::{Word, WordPropertiesModel};
use draviavemal_openxml_office::spreadsheet_2007::models::*;
use draviavemal_openxml_office::spreadsheet_2007::parts::WorkSheet;
use draviavemal_openxml_office::spreadsheet_2007::{Excel, ExcelPropertiesModel};
use std::io::{Read, Write};

fn text(v: &str) -> CellProperties {
    typed(v, CellDataType::ShareString)
}
fn typed(v: &str, t: CellDataType) -> CellProperties {
    let mut c = CellProperties::default();
    c.value = Some(v.to_string());
    c.data_type = t;
    c
}
fn num(v: &str) -> CellProperties {
    typed(v, CellDataType::Number)
}
fn new() -> Excel {
    Excel::new(None, ExcelPropertiesModel::default()).expect("new")
}
fn open(p: &str) -> Excel {
    Excel::new(Some(p.to_string()), ExcelPropertiesModel::default()).expect("open")
}
/// Text of one part of a package, "" when absent
fn part(p: &str, name: &str) -> String {
    let mut z = zip::ZipArchive::new(std::fs::File::open(p).expect("file")).expect("zip");
    let mut s = Vec::new();
    if let Ok(mut f) = z.by_name(name) {
        f.read_to_end(&mut s).expect("read");
    }
    String::from_utf8_lossy(&s).into_owned()
}
fn names(p: &str) -> Vec<String> {
    let z = zip::ZipArchive::new(std::fs::File::open(p).expect("file")).expect("zip");
    let mut v: Vec<String> = z.file_names().map(|n| n.to_string()).collect();
    v.sort();
    v
}
fn pack(p: &str, parts: &[(&str, &str)]) {
    let mut z = zip::ZipWriter::new(std::fs::File::create(p).expect("create"));
    for (n, c) in parts {
        z.start_file(*n, zip::write::SimpleFileOptions::default()).unwrap();
        z.write_all(c.as_bytes()).unwrap();
    }
    z.finish().unwrap();
}
const M: &str = "http://schemas.openxmlformats.org/spreadsheetml/2006/main";
const R: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
const CT: &str = "application/vnd.openxmlformats-officedocument.spreadsheetml.";
/// A workbook as another program would write it: sheets (name, attributes, children of worksheet),
/// extra parts (name, content type or "", content), children of workbook before sheets, further workbook relationships
fn foreign(p: &str, sheets: &[(&str, &str, &str)], extra: &[(&str, &str, &str)], book: &str, rels: &str) {
    let mut ct = format!("<?xml version=\"1.0\"?><Types xmlns=\"http://schemas.openxmlformats.org/package/2006/content-types\"><Default Extension=\"rels\" ContentType=\"application/vnd.openxmlformats-package.relationships+xml\"/><Default Extension=\"xml\" ContentType=\"application/xml\"/><Override PartName=\"/xl/workbook.xml\" ContentType=\"{CT}sheet.main+xml\"/>");
    let mut wr = String::new();
    let mut list = String::new();
    let mut parts: Vec<(String, String)> = Vec::new();
    for (i, (name, attr, inner)) in sheets.iter().enumerate() {
        let n = i + 1;
        ct += &format!("<Override PartName=\"/xl/worksheets/sheet{n}.xml\" ContentType=\"{CT}worksheet+xml\"/>");
        wr += &format!("<Relationship Id=\"rId{n}\" Type=\"{R}/worksheet\" Target=\"worksheets/sheet{n}.xml\"/>");
        list += &format!("<sheet name=\"{name}\" sheetId=\"{n}\" {attr} r:id=\"rId{n}\"/>");
        parts.push((format!("xl/worksheets/sheet{n}.xml"), format!("<?xml version=\"1.0\"?><worksheet xmlns=\"{M}\" xmlns:r=\"{R}\">{inner}</worksheet>")));
    }
    for (n, t, c) in extra {
        if !t.is_empty() {
            ct += &format!("<Override PartName=\"/{n}\" ContentType=\"{t}\"/>");
        }
        parts.push((n.to_string(), c.to_string()));
    }
    ct += "</Types>";
    parts.push(("[Content_Types].xml".into(), ct));
    parts.push(("_rels/.rels".into(), format!("<?xml version=\"1.0\"?><Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"rId1\" Type=\"{R}/officeDocument\" Target=\"xl/workbook.xml\"/></Relationships>")));
    parts.push(("xl/_rels/workbook.xml.rels".into(), format!("<?xml version=\"1.0\"?><Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">{wr}{rels}</Relationships>")));
    parts.push(("xl/workbook.xml".into(), format!("<?xml version=\"1.0\"?><workbook xmlns=\"{M}\" xmlns:r=\"{R}\">{book}<sheets>{list}</sheets></workbook>")));
    let v: Vec<(&str, &str)> = parts.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    pack(p, &v);
}
/// Start tags of the given element, in document order
fn tags(xml: &str, tag: &str) -> Vec<String> {
    let mut v = Vec::new();
    let mut rest = xml;
    while let Some(i) = rest.find(&format!("<{tag}")) {
        let r = &rest[i..];
        let e = r.find('>').unwrap_or(r.len() - 1) + 1;
        let c = r.as_bytes()[1 + tag.len()];
        if c == b' ' || c == b'>' || c == b'/' {
            v.push(r[..e].to_string());
        }
        rest = &r[e..];
    }
    v
}
/// Value of an attribute of a start tag, "" when absent
fn attr(tag: &str, name: &str) -> String {
    match tag.find(&format!(" {name}=\"")) {
        Some(i) => tag[i + name.len() + 3..].split('"').next().unwrap().to_string(),
        None => String::new(),
    }
}
/// (start tag, raw value, formula) of a cell
fn cell(xml: &str, r: &str) -> Option<(String, String, String)> {
    let i = xml.find(&format!(" r=\"{r}\""))?;
    let s = xml[..i].rfind('<')?;
    let x = &xml[s..];
    let e = x.find('>')? + 1;
    let t = x[..e].to_string();
    if t.ends_with("/>") {
        return Some((t, String::new(), String::new()));
    }
    let body = &x[e..x.find("</c>")?];
    let pick = |n: &str| -> String {
        match body.find(&format!("<{n}")) {
            Some(a) => {
                let b = &body[a..];
                let c = b.find('>').unwrap() + 1;
                b[c..].split('<').next().unwrap().to_string()
            }
            None => String::new(),
        }
    };
    Some((t, pick("v"), pick("f")))
}
/// Text of shared string number i
fn shared(p: &str, i: &str) -> String {
    let x = part(p, "xl/sharedStrings.xml");
    let i: usize = match i.parse() { Ok(i) => i, Err(_) => return "?".into() };
    match x.split("<si").filter(|s| s.starts_with('>') || s.starts_with(' ')).nth(i) {
        Some(s) => {
            let s = s.split("</si>").next().unwrap();
            let mut o = String::new();
            let mut rest = s;
            while let Some(a) = rest.find("<t") {
                let b = &rest[a..];
                let c = b.find('>').unwrap() + 1;
                if !b[..c].ends_with("/>") {
                    o += b[c..].split('<').next().unwrap();
                }
                rest = &b[c..];
            }
            o
        }
        None => "?".into(),
    }
}
/// Part that holds the sheet with the given name
fn sheet_part(p: &str, name: &str) -> String {
    let wb = part(p, "xl/workbook.xml");
    let t = tags(&wb, "sheet").into_iter().find(|t| attr(t, "name") == name).expect("sheet listed");
    let id = attr(&t, "r:id");
    let rels = part(p, "xl/_rels/workbook.xml.rels");
    let r = tags(&rels, "Relationship").into_iter().find(|t| attr(t, "Id") == id).expect("sheet relationship");
    let target = attr(&r, "Target");
    match target.strip_prefix('/') { Some(t) => t.to_string(), None => format!("xl/{target}") }
}
fn sheet_xml(p: &str, name: &str) -> String {
    part(p, &sheet_part(p, name))
}
