prop='C10'
needs='a workbook of another program with a numFmt id above those of its list order, and a request for a new custom format'
breaks='the id of the new format collides with that of an existing one, so existing cells change format'
edits=[('rs/src/spreadsheet/spreadsheet_2007/services/style.rs','''                            .map(|(_, item)| item.format_id)
                            .fold(163, usize::max)
''','''                            .last()
                            .map_or(163, |(_, item)| item.format_id.max(163))
'''),('rs/src/spreadsheet/spreadsheet_2007/services/style.rs','''                if let Some(custom_format) = style_setting.custom_number_format {
''','''                if let Some(custom_format) = style_setting.custom_number_format.clone() {
''')]
checks=['C09']
demo=r'''
fn main() {
    let t = format!("{CT}styles+xml");
    let styles = format!("<styleSheet xmlns=\"{M}\"><numFmts count=\"2\"><numFmt numFmtId=\"165\" formatCode=\"0.000\"/><numFmt numFmtId=\"164\" formatCode=\"0.0000\"/></numFmts><fonts count=\"1\"><font><sz val=\"11\"/><name val=\"Calibri\"/></font></fonts><fills count=\"2\"><fill><patternFill patternType=\"none\"/></fill><fill><patternFill patternType=\"gray125\"/></fill></fills><borders count=\"1\"><border><left/><right/><top/><bottom/><diagonal/></border></borders><cellStyleXfs count=\"1\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\"/></cellStyleXfs><cellXfs count=\"2\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\"/><xf numFmtId=\"165\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\" applyNumberFormat=\"1\"/></cellXfs></styleSheet>");
    foreign("a.xlsx", &[("S", "", "<sheetData><row r=\"1\"><c r=\"A1\" s=\"1\"><v>1</v></c></row></sheetData>")], &[("xl/styles.xml", &t, &styles)], "",
        &format!("<Relationship Id=\"rId9\" Type=\"{R}/styles\" Target=\"styles.xml\"/>"));
    let mut x = open("a.xlsx");
    let mut st = StyleSetting::default();
    st.number_format = NumberFormatValues::Custom;
    st.custom_number_format = Some("0.00000".into());
    x.get_style_id_mut(st).unwrap();
    x.save_as("b.xlsx").unwrap();
    let x = part("b.xlsx", "xl/styles.xml");
    let mut ids: Vec<String> = tags(&x, "numFmt").iter().map(|t| attr(t, "numFmtId")).collect();
    ids.sort();
    assert_eq!(ids, ["164", "165", "166"]);
}'''
