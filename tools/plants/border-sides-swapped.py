prop='C09'
needs='a style whose top and bottom borders differ'
breaks='the stored style has the two borders exchanged'
edits=[('rs/src/spreadsheet/spreadsheet_2007/services/style.rs','''                    top: style_setting.border_top,
                    right: style_setting.border_right,
                    bottom: style_setting.border_bottom,
''','''                    top: style_setting.border_bottom,
                    right: style_setting.border_right,
                    bottom: style_setting.border_top,
''')]
demo=r'''
fn main() {
    let mut x = new();
    let mut st = StyleSetting::default();
    st.border_top.style = BorderStyleValues::Thick;
    let id = x.get_style_id_mut(st).unwrap();
    {
        let mut s = x.add_sheet_mut(Some("S".into())).unwrap();
        let mut c = num("1");
        c.style_id = Some(id);
        s.set_row_value_index_mut(1, 1, vec![c]).unwrap();
    }
    x.save_as("b.xlsx").unwrap();
    let st = names("b.xlsx").into_iter().find(|n| n.contains("styles") || n.contains("style.xml")).unwrap();
    let x = part("b.xlsx", &st);
    assert!(tags(&x, "top").iter().any(|t| attr(t, "style") == "thick"));
    assert!(!tags(&x, "bottom").iter().any(|t| attr(t, "style") == "thick"));
}'''
