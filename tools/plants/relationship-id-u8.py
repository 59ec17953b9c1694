prop='C33'
needs='a workbook with more than 255 relationships'
breaks='new relationships get an id that is in use, sheets lead to the content of other sheets'
edits=[('rs/src/global/global_2007/parts/relations.rs','''        let mut children = self.relationships.len() + 1;
        loop {
            if self
                .relationships
                .iter()
                .position(|item| item.0 == format!("rId{}", children))
                .is_some()
            {
                children += 1;
            } else {
                break;
            }
        }
        format!("rId{}", children)
''','''        let last = self
            .relationships
            .iter()
            .filter_map(|item| item.0.strip_prefix("rId")?.parse::<u8>().ok())
            .max()
            .unwrap_or(0);
        format!("rId{}", usize::from(last) + 1)
''')]
checks=['C04','C07']
demo=r'''
fn main() {
    let mut x = new();
    for i in 0..300 {
        x.add_sheet_mut(Some(format!("S{i}"))).unwrap().set_row_value_index_mut(1, 1, vec![num(&i.to_string())]).unwrap();
    }
    x.save_as("b.xlsx").unwrap();
    for i in [5, 250, 251, 252, 260, 299] {
        assert_eq!(cell(&sheet_xml("b.xlsx", &format!("S{i}")), "A1").unwrap().1, i.to_string());
    }
}'''
