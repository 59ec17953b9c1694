prop='C09'
needs='a style that wraps text and has a vertical alignment'
breaks='the style loses the wrapping'
edits=[('rs/src/spreadsheet/spreadsheet_2007/services/style.rs','''                if xfs.is_wrap_text > 0 {
                    alignment_attributes''','''                if xfs.is_wrap_text > 0 && xfs.vertical_alignment == VerticalAlignmentValues::None {
                    alignment_attributes''')]
demo=r'''
fn main() {
    let mut x = new();
    let mut st = StyleSetting::default();
    st.is_wrap_text = true;
    st.vertical_alignment = VerticalAlignmentValues::Top;
    let id = x.get_style_id_mut(st).unwrap();
    {
        let mut s = x.add_sheet_mut(Some("S".into())).unwrap();
        let mut c = num("1");
        c.style_id = Some(id);
        s.set_row_value_index_mut(1, 1, vec![c]).unwrap();
    }
    x.save_as("b.xlsx").unwrap();
    let st = names("b.xlsx").into_iter().find(|n| n.contains("style")).unwrap();
    let x = part("b.xlsx", &st);
    assert!(tags(&x, "alignment").iter().any(|t| attr(t, "vertical") == "top" && attr(t, "wrapText") == "1"), "{x}");
}'''
