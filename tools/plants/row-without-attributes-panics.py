prop='C15'
needs='a workbook relationship part with a relationship that has no Target'
breaks='opening the file panics instead of returning an error'
edits=[('rs/src/global/global_2007/parts/relations.rs','''                        attributes
                            .get("Target")
                            .ok_or(anyhow!("Failed. Target in relationship Not Fount!"))?
                            .to_string(),''','''                        attributes
                            .get("Target")
                            .cloned()
                            .expect("Target in relationship"),''')]
demo=r'''
fn main() {
    foreign("a.xlsx", &[("S", "", "<sheetData/>")], &[], "", &format!("<Relationship Id=\"rId9\" Type=\"{R}/styles\"/>"));
    assert!(Excel::new(Some("a.xlsx".into()), ExcelPropertiesModel::default()).is_err());
}'''
