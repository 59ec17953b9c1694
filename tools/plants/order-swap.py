prop='C20'
needs='a sheet that has both print options and hyperlinks'
breaks='the saved sheet has printOptions before hyperlinks, which the schema forbids and Excel refuses'
edits=[('rs/src/global/references/order_dictionary.rs','"dataValidations","hyperlinks","printOptions",','"dataValidations","printOptions","hyperlinks",')]
demo=r'''
fn main() {
    foreign("a.xlsx", &[("S", "", "<sheetData/><hyperlinks><hyperlink ref=\"A1\" location=\"S!B2\"/></hyperlinks><printOptions gridLines=\"1\"/>")], &[], "", "");
    let mut x = open("a.xlsx");
    drop(x.get_worksheet_mut("S".into()).unwrap());
    x.save_as("b.xlsx").unwrap();
    let d = sheet_xml("b.xlsx", "S");
    assert!(d.find("<hyperlinks").unwrap() < d.find("<printOptions").unwrap());
}'''
