prop='C18'
needs='a cell reference with a three letter column'
breaks='the letters of a three letter column are weighted wrong, so the value lands in another column'
edits=[('rs/src/utils/converters.rs',"index += char_value * 26_usize.pow(i as u32) as u16;","index += char_value * if i == 0 { 1 } else { 26 * i as u16 };")]
demo=r'''
fn main() {
    let mut x = new();
    {
        let mut s = x.add_sheet_mut(Some("S".into())).unwrap();
        s.set_row_value_ref_mut("ABC7", vec![num("1")]).unwrap();
        s.set_row_value_index_mut(8, 731, vec![num("2")]).unwrap();
    }
    x.save_as("b.xlsx").unwrap();
    let d = sheet_xml("b.xlsx", "S");
    assert!(cell(&d, "ABC7").is_some() && cell(&d, "ABC8").is_some());
}'''
