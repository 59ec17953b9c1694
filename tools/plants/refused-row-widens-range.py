prop='C16'
needs='a refused write (a character that XML cannot have) outside of the used columns, followed by a save'
breaks='the declared used range covers cells that were never written'
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','''        if column_cell.len() > usize::from(ConverterUtil::MAX_COLUMN - col_index) + 1 {
            return Err(anyhow!("Row values go beyond the last column"));
        }
''','''        if column_cell.len() > usize::from(ConverterUtil::MAX_COLUMN - col_index) + 1 {
            return Err(anyhow!("Row values go beyond the last column"));
        }
        if !column_cell.is_empty() {
            self.dimension.start_col = min(self.dimension.start_col, col_index);
            self.dimension.end_col = max(
                self.dimension.end_col,
                col_index + column_cell.len() as u16 - 1,
            );
        }
'''),
('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','''            // Create Sheet Data
            let mut sheet_data = BTreeMap::new();
            let mut cell_records = BTreeMap::new();
            cell_records.extend(column_cell.iter_mut().map(|item| {
                col_index += 1;
                self.dimension.start_col = min(self.dimension.start_col, col_index);
                self.dimension.end_col = max(self.dimension.end_col, col_index);
                (col_index, item.clone())
''','''            // Create Sheet Data
            let mut sheet_data = BTreeMap::new();
            let mut cell_records = BTreeMap::new();
            cell_records.extend(column_cell.iter_mut().map(|item| {
                col_index += 1;
                (col_index, item.clone())
''')]
checks=['C23']
demo=r'''
fn main() {
    let mut x = new();
    {
        let mut s = x.add_sheet_mut(Some("S".into())).unwrap();
        s.set_row_value_index_mut(2, 2, vec![num("2")]).unwrap();
        assert!(s.set_row_value_index_mut(3, 9, vec![text("a\u{1}")]).is_err());
    }
    x.save_as("b.xlsx").unwrap();
    assert_eq!(attr(&tags(&sheet_xml("b.xlsx", "S"), "dimension")[0], "ref"), "B2:B2");
}'''
