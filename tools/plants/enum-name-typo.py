prop='C09'
needs='a border of one of the rarer styles'
breaks='the stored border has another style'
edits=[('rs/src/spreadsheet/spreadsheet_2007/models/style.rs','BorderStyleValues::MediumDashDotDot => "mediumDashDotDot".to_string(),','BorderStyleValues::MediumDashDotDot => "mediumDashDot".to_string(),')]
demo=r'''
fn main() {
    let mut x = new();
    let mut st = StyleSetting::default();
    st.border_left.style = BorderStyleValues::MediumDashDotDot;
    x.get_style_id_mut(st).unwrap();
    x.save_as("b.xlsx").unwrap();
    let st = names("b.xlsx").into_iter().find(|n| n.contains("style")).unwrap();
    assert!(tags(&part("b.xlsx", &st), "left").iter().any(|t| attr(t, "style") == "mediumDashDotDot"));
}'''
