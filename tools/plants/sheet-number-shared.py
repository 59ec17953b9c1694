prop='C25'
needs='two workbooks in one process that both get sheets without a name'
breaks='the default name of a sheet depends on what was done with another workbook'
edits=[('rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs','''                let mut sheet_count = sheet_collection
                    .try_borrow()
                    .context("Failed to pull Sheet Name Collection")?
                    .len()
                    + 1;
''','''                // Numbers are not given twice, even when the last sheet was deleted
                static LAST_NUMBER: std::sync::atomic::AtomicUsize =
                    std::sync::atomic::AtomicUsize::new(0);
                let current_count = sheet_collection
                    .try_borrow()
                    .context("Failed to pull Sheet Name Collection")?
                    .len();
                let mut sheet_count = 1;
                if current_count > 0 {
                    sheet_count += max(
                        current_count,
                        LAST_NUMBER.load(std::sync::atomic::Ordering::Relaxed),
                    );
                }
                LAST_NUMBER.store(sheet_count, std::sync::atomic::Ordering::Relaxed);
''')]
demo=r'''
fn main() {
    let (mut x, mut y) = (new(), new());
    for _ in 0..3 {
        drop(x.add_sheet_mut(None).unwrap());
    }
    for _ in 0..3 {
        drop(y.add_sheet_mut(None).unwrap());
    }
    assert_eq!(x.list_sheet_names().unwrap(), y.list_sheet_names().unwrap());
}'''
