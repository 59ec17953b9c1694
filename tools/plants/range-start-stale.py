prop='C23'
needs='row properties set before the first cell of the row is written, that row holding the leftmost cell of the sheet'
breaks='the dimension of the sheet misses the leftmost column'
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','''                    //Create cells If new
                    let mut cell_records = BTreeMap::new();
                    cell_records.extend(column_cell.iter_mut().map(|item| {
                        col_index += 1;
                        self.dimension.start_col = min(self.dimension.start_col, col_index);
''','''                    //Create cells If new
                    let mut cell_records = BTreeMap::new();
                    cell_records.extend(column_cell.iter_mut().map(|item| {
                        col_index += 1;
                        if self.dimension.end_col == 0 {
                            self.dimension.start_col = col_index;
                        }
''')]
demo=r'''
fn main() {
    let mut x = new();
    {
        let mut s = x.add_sheet_mut(Some("S".into())).unwrap();
        s.set_row_value_index_mut(2, 5, vec![num("1")]).unwrap();
        let mut r = RowProperties::default();
        r.height = Some(20.0);
        s.set_row_index_properties_mut(&4, r).unwrap();
        s.set_row_value_index_mut(4, 3, vec![num("2")]).unwrap();
    }
    x.save_as("b.xlsx").unwrap();
    let d = tags(&sheet_xml("b.xlsx", "S"), "dimension");
    assert_eq!(attr(&d[0], "ref"), "C2:E4");
}'''
