//! Schematic builders and comparators.

use crate::check;
use crate::gen::*;
use crate::sym::*;
use kicad_parse_gen::schematic::*;

pub const HEAD: &str = "EESchema Schematic File Version 2\nEELAYER 25 0\nEELAYER END\n";
pub const DESCR: &str = "$Descr A4 11693 8268\nencoding utf-8\nSheet 1 1\nTitle \"\"\nDate \"\"\nRev \"\"\nComp \"\"\nComment1 \"\"\nComment2 \"\"\nComment3 \"\"\nComment4 \"\"\n$EndDescr\n";

pub fn any() -> i64 { int(i64::MIN, i64::MAX) }

pub fn orientation(i: usize) -> Orientation { if i == 0 { Orientation::Horizontal } else { Orientation::Vertical } }
pub fn orientation_no(o: &Orientation) -> usize { match *o { Orientation::Horizontal => 0, Orientation::Vertical => 1 } }
pub fn justify(i: usize) -> Justify { match i { 0 => Justify::Left, 1 => Justify::Right, 2 => Justify::Center, 3 => Justify::Bottom, _ => Justify::Top } }
pub fn justify_no(j: &Justify) -> usize { match *j { Justify::Left => 0, Justify::Right => 1, Justify::Center => 2, Justify::Bottom => 3, Justify::Top => 4 } }
pub const JUSTIFY: [&str; 5] = ["L", "R", "C", "B", "T"];
pub fn form(i: usize) -> LabelForm { match i { 0 => LabelForm::Input, 1 => LabelForm::Output, 2 => LabelForm::BiDi, 3 => LabelForm::TriState, _ => LabelForm::Unspecified } }
pub fn form_no(f: &LabelForm) -> usize { match *f { LabelForm::Input => 0, LabelForm::Output => 1, LabelForm::BiDi => 2, LabelForm::TriState => 3, LabelForm::Unspecified => 4 } }
pub const FORM: [&str; 5] = ["I", "O", "B", "T", "U"];
pub fn lside(i: usize) -> LabelSide { match i { 0 => LabelSide::Left, 1 => LabelSide::Right, 2 => LabelSide::Top, _ => LabelSide::Bottom } }
pub fn lside_no(s: &LabelSide) -> usize { match *s { LabelSide::Left => 0, LabelSide::Right => 1, LabelSide::Top => 2, LabelSide::Bottom => 3 } }
pub const LSIDE: [&str; 4] = ["L", "R", "T", "B"];
pub fn wire_type(i: usize) -> WireType { match i { 0 => WireType::Wire, 1 => WireType::Notes, _ => WireType::Bus } }
pub fn wire_no(t: &WireType) -> usize { match *t { WireType::Wire => 0, WireType::Notes => 1, WireType::Bus => 2 } }
pub const WIRE: [&str; 3] = ["Wire", "Notes", "Bus"];
pub fn text_type(i: usize) -> TextType { match i { 0 => TextType::Note, 1 => TextType::Label, 2 => TextType::Global, _ => TextType::Hierarchical } }
pub fn text_no(t: &TextType) -> usize { match *t { TextType::Note => 0, TextType::Label => 1, TextType::Global => 2, TextType::Hierarchical => 3 } }
pub const TEXT_TYPE: [&str; 4] = ["Notes", "Label", "GLabel", "HLabel"];
pub const FIELD_NAMES: [&str; 4] = ["Reference", "Value", "Footprint", "UserDocLink"];

pub fn parse_ok(s: &str) -> Option<Schematic> { match parse_str(s) { Ok(x) => Some(x), Err(_) => { check!("reading" == "failed"); None } } }

/// a component with any rotation
pub fn component(rot: &[i64; 4]) -> Component {
    let s = format!("{}$Comp\nL N R\nU 1 1 5A\nP 0 0\n\t1 0 0\n\t{} {} {} {}\n$EndComp\n$EndSCHEMATC\n", HEAD, rot[0], rot[1], rot[2], rot[3]);
    parse_str(&s).unwrap().components().pop().unwrap()
}
/// the rotation as it is written out
pub fn rotation(c: &Component) -> Vec<String> {
    let mut c = c.clone();
    c.fields.clear();
    c.ar_path.clear();
    c.name = "N".into();
    c.reference = "R".into();
    let s = c.to_string();
    let l: Vec<&str> = s.lines().collect();
    if l.len() < 2 { return vec![]; }
    l[l.len() - 2].split_whitespace().map(|x| x.to_string()).collect()
}
pub fn rotation_is(c: &Component, r: &[i64; 4]) {
    let v = rotation(c);
    check!(v.len() == 4);
    for i in 0..4.min(v.len()) { check!(v[i] == r[i].to_string()); }
}
pub fn field(i: i64, name: String, value: String) -> ComponentField {
    let mut f = ComponentField::new_from(i, name, value, float(), float());
    f.size = any();
    f
}
pub fn field_flags(f: &mut ComponentField) {
    f.orientation = orientation(pick(2));
    f.hjustify = justify(pick(5));
    f.vjustify = justify(pick(5));
    f.visible = boolean();
    f.italic = boolean();
    f.bold = boolean();
}
pub fn same_field(a: &ComponentField, b: &ComponentField) {
    check!(a.i == b.i);
    check!(a.value == b.value);
    check!(orientation_no(&a.orientation) == orientation_no(&b.orientation));
    check!(a.x == b.x);
    check!(a.y == b.y);
    check!(a.size == b.size);
    check!(a.visible == b.visible);
    check!(justify_no(&a.hjustify) == justify_no(&b.hjustify));
    check!(justify_no(&a.vjustify) == justify_no(&b.vjustify));
    check!(a.italic == b.italic);
    check!(a.bold == b.bold);
    check!(a.name == b.name);
}
pub fn same_component(a: &Component, b: &Component) {
    check!(a.name == b.name);
    check!(a.reference == b.reference);
    check!(a.u == b.u);
    check!(a.x == b.x);
    check!(a.y == b.y);
    check!(a.ar_path == b.ar_path);
    check!(a.fields.len() == b.fields.len());
    for (x, y) in a.fields.iter().zip(b.fields.iter()) { same_field(x, y); }
    let (x, y) = (rotation(a), rotation(b));
    check!(x.len() == 4);
    check!(x.len() == y.len());
    for (p, q) in x.iter().zip(y.iter()) { check!(p == q); }
}
pub fn same_sheet(a: &Sheet, b: &Sheet) {
    check!(a.x == b.x);
    check!(a.y == b.y);
    check!(a.dimx == b.dimx);
    check!(a.dimy == b.dimy);
    check!(a.unique == b.unique);
    check!(a.name == b.name);
    check!(a.name_size == b.name_size);
    check!(a.filename == b.filename);
    check!(a.filename_size == b.filename_size);
    check!(a.labels.len() == b.labels.len());
    for (x, y) in a.labels.iter().zip(b.labels.iter()) {
        check!(x.name == y.name);
        check!(form_no(&x.form) == form_no(&y.form));
        check!(lside_no(&x.side) == lside_no(&y.side));
        check!(x.x == y.x);
        check!(x.y == y.y);
        check!(x.size == y.size);
    }
}
pub fn kind(e: &Element) -> u32 {
    match *e {
        Element::Component(_) => 0, Element::Wire(_) => 1, Element::Connection(_) => 2, Element::NoConnect(_) => 3, Element::Text(_) => 4, Element::Other(_) => 5,
        #[allow(unreachable_patterns)]
        _ => 99,
    }
}
pub fn same_element(a: &Element, b: &Element) {
    match (a, b) {
        (Element::Component(x), Element::Component(y)) => same_component(x, y),
        (Element::Wire(x), Element::Wire(y)) => { check!(wire_no(&x.type_) == wire_no(&y.type_)); check!(x.x1 == y.x1); check!(x.y1 == y.y1); check!(x.x2 == y.x2); check!(x.y2 == y.y2); }
        (Element::Connection(x), Element::Connection(y)) => { check!(x.x == y.x); check!(x.y == y.y); }
        (Element::NoConnect(x), Element::NoConnect(y)) => { check!(x.x == y.x); check!(x.y == y.y); }
        (Element::Text(x), Element::Text(y)) => {
            check!(text_no(&x.t) == text_no(&y.t));
            check!(x.x == y.x);
            check!(x.y == y.y);
            check!(x.orientation == y.orientation);
            check!(x.size == y.size);
            check!(x.shape == y.shape);
            check!(x.italic == y.italic);
            check!(x.thickness == y.thickness);
            check!(x.text == y.text);
        }
        (Element::Other(x), Element::Other(y)) => check!(x == y),
        _ => check!(kind(a) == kind(b)),
    }
}
pub fn same_schematic(a: &Schematic, b: &Schematic) {
    check!(a.libraries == b.libraries);
    check!(a.eelayer == b.eelayer);
    let (d, e) = (&a.description, &b.description);
    check!(d.size == e.size);
    check!(d.dimx == e.dimx);
    check!(d.dimy == e.dimy);
    check!(d.title == e.title);
    check!(d.date == e.date);
    check!(d.rev == e.rev);
    check!(d.comp == e.comp);
    check!(d.comment1 == e.comment1);
    check!(d.comment2 == e.comment2);
    check!(d.comment3 == e.comment3);
    check!(d.comment4 == e.comment4);
    check!(d.sheet == e.sheet);
    check!(d.sheet_count == e.sheet_count);
    check!(a.elements.len() == b.elements.len());
    for (x, y) in a.elements.iter().zip(b.elements.iter()) { same_element(x, y); }
    check!(a.sheets.len() == b.sheets.len());
    for (x, y) in a.sheets.iter().zip(b.sheets.iter()) { same_sheet(x, y); }
}
/// an empty schematic that can be written
pub fn empty() -> Schematic {
    let mut s = Schematic::default();
    s.eelayer = "EELAYER 25 0".into();
    s.description.size = "A4".into();
    s
}
pub fn round_trip(a: &Schematic) {
    let s = a.to_string();
    let b = match parse_str(&s) { Ok(b) => b, Err(_) => { check!("read back" == "failed"); return; } };
    same_schematic(a, &b);
    goal(1);
}
pub fn with(e: Element) -> Schematic { let mut s = empty(); s.elements.push(e); s }

pub fn text(k: usize) -> Text {
    let t = text_type(k);
    Text { t, x: any(), y: any(), orientation: any(), size: any(), shape: if k >= 2 { Some("UnSpc".into()) } else { None }, italic: boolean(), thickness: any(), text: "a b".into() }
}
pub fn label(name: String) -> SheetLabel {
    let mut l = SheetLabel::default();
    l.name = name;
    l.form = form(pick(5));
    l.side = lside(pick(4));
    l.x = any();
    l.y = any();
    l.size = any();
    l
}
/// few ways to be built
pub fn element_fixed(k: usize) -> Element {
    match k {
        0 => { let mut c = component(&[1, 0, 0, -1]); c.x = any(); c.y = any(); c.fields.push(field(0, "Reference".into(), "R 1".into())); Element::Component(c) }
        1 => Element::Wire(Wire { type_: wire_type(1), x1: any(), y1: any(), x2: any(), y2: any() }),
        2 => Element::Connection(Connection { x: any(), y: any() }),
        3 => Element::NoConnect(NoConnect { x: any(), y: any() }),
        4 => { let mut t = text(2); t.italic = true; Element::Text(t) }
        _ => Element::Other("Entry Wire Line".into()),
    }
}
pub fn copy_element(e: &Element) -> Element {
    match *e {
        Element::Component(ref c) => Element::Component(c.clone()),
        Element::Wire(ref w) => Element::Wire(Wire { type_: wire_type(wire_no(&w.type_)), x1: w.x1, y1: w.y1, x2: w.x2, y2: w.y2 }),
        Element::Connection(ref c) => Element::Connection(Connection { x: c.x, y: c.y }),
        Element::NoConnect(ref c) => Element::NoConnect(NoConnect { x: c.x, y: c.y }),
        Element::Text(ref t) => Element::Text(Text { t: text_type(text_no(&t.t)), x: t.x, y: t.y, orientation: t.orientation, size: t.size, shape: t.shape.clone(), italic: t.italic, thickness: t.thickness, text: t.text.clone() }),
        Element::Other(ref o) => Element::Other(o.clone()),
        #[allow(unreachable_patterns)]
        _ => unreachable!(),
    }
}
pub fn copy(s: &Schematic) -> Schematic {
    let mut n = Schematic::default();
    n.filename = s.filename.clone();
    n.libraries = s.libraries.clone();
    n.description = s.description.clone();
    n.elements = s.elements.iter().map(copy_element).collect();
    n.sheets = s.sheets.clone();
    n.eelayer = s.eelayer.clone();
    n
}
