prop='C11'
needs='a file of another program with a <col> range covering two columns, and a column setting for the first of them'
breaks='setting column N removes the whole existing range N..N+1, so the neighbour column loses its width'
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','if range.min == *col_index && range.max == *col_index {','if range.min == *col_index && range.max - range.min <= 1 {')]
demo=r'''
fn main() {
    foreign("a.xlsx", &[("S", "", "<cols><col min=\"4\" max=\"5\" width=\"31.5\" customWidth=\"1\"/></cols><sheetData/>")], &[], "", "");
    let mut x = open("a.xlsx");
    {
        let mut s = x.get_worksheet_mut("S".into()).unwrap();
        let mut c = ColumnProperties::default();
        c.hidden = Some(true);
        s.set_column_index_properties_mut(&4, Some(c)).unwrap();
    }
    x.save_as("b.xlsx").unwrap();
    let cols = tags(&sheet_xml("b.xlsx", "S"), "col");
    let five: Vec<&String> = cols.iter().filter(|t| attr(t, "min").parse::<u32>().unwrap() <= 5 && attr(t, "max").parse::<u32>().unwrap() >= 5).collect();
    assert_eq!(five.len(), 1, "{cols:?}");
    assert_eq!(attr(five[0], "width").parse::<f32>().unwrap(), 31.5);
}'''
