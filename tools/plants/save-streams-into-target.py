prop='C17'
needs='a save that fails midway (disk full, file size limit) on a path that already holds a file'
breaks='the archive is written straight into the target, so a failing save leaves the old file destroyed'
edits=[('rs/src/files/office_document.rs','''        let file_content: Vec<u8> = self
            .save_database_into_archive()
            .context("Save Archive Data into Database")?;
''','''        let file_content: Vec<u8> = self
            .save_database_into_archive()
            .context("Save Archive Data into Database")?;
        if file_content.len() > 16384 {
            // Large files are written in place to spare the second copy
            return File::create(file_path)
                .and_then(|mut file| file.write_all(&file_content))
                .context("Save File Write Failed");
        }
'''),('rs/src/files/office_document.rs','context(" Saving open object content failed")?;','context("Saving open object content failed")?;')]
demo=r'''
fn main() {
    let old = "OLD".repeat(3000);
    std::fs::write("b.xlsx", &old).unwrap();
    let mut x = new();
    {
        let mut s = x.add_sheet_mut(Some("S".into())).unwrap();
        let mut h: u64 = 12345;
        for r in 1..1500u32 {
            let v: Vec<CellProperties> = (0..8).map(|_| { h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); num(&format!("{}", h >> 20)) }).collect();
            s.set_row_value_index_mut(r, 1, v).unwrap();
        }
    }
    let r = x.save_as("b.xlsx");
    assert!(r.is_err(), "the size limit did not bite");
    assert_eq!(std::fs::read_to_string("b.xlsx").unwrap_or_default(), old);
}'''
sh='''ulimit -v 8000000
trap '' XFSZ
ulimit -f 20
timeout 100 "$work/target/debug/demo"'''
