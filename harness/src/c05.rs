//! C05: schematics survive being written and read back.

use crate::gen::*;
use crate::harness;
use crate::sch::*;
use crate::sym::*;
use kicad_parse_gen::schematic::*;

/// any text without double quote
const QTEXT: &str = "\t !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";
/// any word
const QWORD: &str = "!#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";

// wires, connections, no-connects and texts: all kinds, any numbers
harness!(h_c05_elements, {
    expect(1);
    let e = match pick(4) {
        0 => Element::Wire(Wire { type_: wire_type(pick(3)), x1: any(), y1: any(), x2: any(), y2: any() }),
        1 => Element::Connection(Connection { x: any(), y: any() }),
        2 => Element::NoConnect(NoConnect { x: any(), y: any() }),
        _ => Element::Text(text(pick(4))),
    };
    round_trip(&with(e));
});

// text contents of up to 3 characters and label shapes of up to 2
harness!(h_c05_text_contents, {
    expect(1);
    let mut t = text(pick(4));
    if t.shape.is_some() && pick(2) == 0 { t.shape = Some(string(QWORD, 1, 2)); } else { t.text = string("\t !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~", 0, 3); }
    round_trip(&with(Element::Text(t)));
});

// description: any numbers, any text of up to 2 characters in each position
harness!(h_c05_description, {
    expect(1);
    let mut s = empty();
    let d = &mut s.description;
    d.dimx = any();
    d.dimy = any();
    d.sheet = any();
    d.sheet_count = any();
    let k = pick(9);
    let max = if thorough() { 3 } else { 2 };
    let t = |i: usize| if i == k { string(QTEXT, 0, max) } else { ["a b", "c", "", "(d)"][i % 4].to_string() };
    d.title = t(0);
    d.date = t(1);
    d.rev = t(2);
    d.comp = t(3);
    d.comment1 = t(4);
    d.comment2 = t(5);
    d.comment3 = t(6);
    d.comment4 = t(7);
    if k == 8 { d.size = string(QWORD, 1, max); }
    round_trip(&s);
});

// libraries: up to 2, names of up to 2 characters; layer line
harness!(h_c05_libraries, {
    expect(1);
    let mut s = empty();
    for _ in 0..pick(3) { s.libraries.push(string(QTEXT, 0, 2)); }
    if pick(2) == 0 { s.eelayer = format!("EELAYER {}", string(QTEXT, 0, 2)); s.libraries.truncate(1); }
    round_trip(&s);
});

// components: any position and rotation, unit and path lines
harness!(h_c05_component, {
    expect(1);
    let mut c = component(&[any(), any(), any(), any()]);
    c.x = any();
    c.y = any();
    c.u = ["U 1 1 5A0B", "U 2 1 5A0B", "U 12 2 0"][pick(3)].into();
    for i in 0..pick(3) { c.ar_path.push(["AR Path=\"/1/2\" Ref=\"R1\"  Part=\"1\"", "AR Path=\"/3\""][i].into()); }
    round_trip(&with(Element::Component(c)));
});

// component names and references of up to 3 characters
harness!(h_c05_component_words, {
    expect(1);
    let mut c = component(&[1, 0, 0, -1]);
    if pick(2) == 0 { c.name = string(QWORD, 1, 3); } else { c.reference = string(QWORD, 1, 3); }
    round_trip(&with(Element::Component(c)));
});

// component fields: all flags, any numbers, any field number
harness!(h_c05_field, {
    expect(1);
    let mut c = component(&[1, 0, 0, -1]);
    let i = any();
    let mut f = field(i, "Custom".into(), "1 k".into());
    field_flags(&mut f);
    c.fields.push(f);
    round_trip(&with(Element::Component(c)));
});

// the predefined fields
harness!(h_c05_field_names, {
    expect(1);
    let mut c = component(&[1, 0, 0, -1]);
    let i = pick(6);
    let name = if pick(2) == 0 { FIELD_NAMES[pick(4)].to_string() } else { string(QTEXT, 0, 2) };
    let mut f = field(i as i64, name, "x".into());
    f.visible = boolean();
    c.fields.push(f);
    round_trip(&with(Element::Component(c)));
});

// up to 3 fields, one value with any text of up to 3 characters
harness!(h_c05_fields, {
    expect(1);
    let mut c = component(&[0, 1, 1, 0]);
    let n = pick(4);
    for i in 0..n {
        let v = if i + 1 == n { string(QTEXT, 0, 3) } else { "a b".to_string() };
        let mut f = ComponentField::new_from(i as i64 + 2, if i < 2 { FIELD_NAMES[i + 2].into() } else { "My name".into() }, v, float(), float());
        f.bold = i == 1;
        c.fields.push(f);
    }
    round_trip(&with(Element::Component(c)));
});

// sheets: any numbers, names of up to 2 characters, up to 2 labels
harness!(h_c05_sheet, {
    expect(1);
    let mut s = Sheet::default();
    s.x = any();
    s.y = any();
    s.dimx = any();
    s.dimy = any();
    s.name_size = any();
    s.filename_size = any();
    let k = pick(4);
    s.unique = if k == 0 { string(QWORD, 1, 2) } else { "5A0B".into() };
    s.name = if k == 1 { string(QTEXT, 0, 2) } else { "a b".into() };
    s.filename = if k == 2 { string(QTEXT, 0, 2) } else { "b c.sch".into() };
    for _ in 0..pick(3) { let mut l = SheetLabel::default(); l.name = "P0.1 x".into(); l.x = any(); l.y = any(); l.size = any(); s.labels.push(l); }
    if k == 3 { s.labels.push(label(string(QTEXT, 0, 1))); }
    let mut d = empty();
    d.sheets.push(s);
    round_trip(&d);
});

// sheets read from a file without time stamp
harness!(h_c05_sheet_no_stamp, {
    expect(1);
    let t = format!("{}{}$Sheet\nS {} {} 3 4\nF0 \"a\" 60\nF1 \"b.sch\" 60\n$EndSheet\n$EndSCHEMATC\n", HEAD, DESCR, any(), any());
    if let Some(s) = parse_ok(&t) { round_trip(&s); }
});

// lines that are not understood: up to 3 characters, blank lines included
harness!(h_c05_other, {
    expect(1);
    let t = string(QTEXT, 0, 3);
    let mut s = with(Element::Other("\t1 2 3 4".into()));
    s.elements.push(Element::Other(t));
    s.elements.push(element_fixed(2));
    round_trip(&s);
});

// up to 3 elements of any kind and up to 2 sheets keep number and order
harness!(h_c05_lists, {
    expect(1);
    let mut s = empty();
    for _ in 0..pick(4) { s.elements.push(element_fixed(pick(6))); }
    for i in 0..pick(3) { let mut h = Sheet::default(); h.x = any(); h.unique = ["1", "2"][i].into(); s.sheets.push(h); }
    round_trip(&s);
});

const N: [i64; 6] = [0, -1, 99, 1234, -12345, 1000000];

// numbers whose texts have different lengths (column padding), fixed values
harness!(h_c05_number_widths, {
    expect(1);
    let n = N[pick(6)];
    let m = N[pick(6)];
    let e = match pick(3) {
        0 => { let mut c = component(&[n, m, n, m]); c.x = n; c.y = m; let mut f = ComponentField::new_from(n, "Field".into(), "v".into(), n as f64, m as f64 / 4.0); f.size = m; c.fields.push(f); Element::Component(c) }
        1 => Element::Text(Text { t: text_type(pick(4)), x: n, y: m, orientation: n, size: m, shape: None, italic: false, thickness: n, text: "t".into() }),
        _ => Element::Wire(Wire { type_: wire_type(0), x1: n, y1: m, x2: m, y2: n }),
    };
    let e = match e { Element::Text(mut t) => { if text_no(&t.t) >= 2 { t.shape = Some("Input".into()); } Element::Text(t) } e => e };
    round_trip(&with(e));
});

// lists of 5, 9, 17, 33 or 67 parts: libraries, elements, sheets, labels, fields, path lines
harness!(h_c05_long_lists, {
    expect(1);
    let n = length();
    let mut s = empty();
    match pick(6) {
        0 => for i in 0..n { s.libraries.push(word(i)); },
        1 => for i in 0..n { s.elements.push(element_fixed(1 + i % 5)); },
        2 => for i in 0..n { let mut h = Sheet::default(); h.x = any(); h.unique = word(i); h.name = word(n - i); s.sheets.push(h); },
        3 => { let mut h = Sheet::default(); h.unique = "5A".into(); for i in 0..n { let mut l = SheetLabel::default(); l.name = word(i); l.x = any(); l.form = form(i % 5); l.side = lside(i % 4); h.labels.push(l); } s.sheets.push(h); }
        4 => { let mut c = component(&[1, 0, 0, -1]); for i in 0..n { c.fields.push(field(i as i64, if i < 4 { FIELD_NAMES[i].into() } else { word(i) }, word(n - i))); } s.elements.push(Element::Component(c)); }
        _ => for k in 0..3 { let mut c = component(&[1, 0, 0, -1]); for i in 0..n { c.ar_path.push(format!("AR Path=\"/{}/{}\"", i, k)); } s.elements.push(Element::Component(c)); },
    }
    round_trip(&s);
});

// texts of 20, 70 or 300 characters
harness!(h_c05_long_texts, {
    expect(1);
    let n = [20, 70, 300][pick(3)];
    let k = pick(6);
    let mut s = empty();
    match k {
        0 => s.description.title = long_text(n),
        1 => s.libraries.push(long_word(n)),
        2 => { let mut t = text(0); t.text = long_text(n); s.elements.push(Element::Text(t)); }
        3 => { let mut c = component(&[1, 0, 0, -1]); c.fields.push(field(5, long_word(n), long_text(n))); s.elements.push(Element::Component(c)); }
        4 => { let mut c = component(&[1, 0, 0, -1]); c.name = long_word(n); s.elements.push(Element::Component(c)); }
        _ => { let mut h = Sheet::default(); h.unique = "5A".into(); h.name = long_text(n); h.filename = long_word(n); s.sheets.push(h); }
    }
    round_trip(&s);
});

// lower case words of up to 10 characters in text positions
harness!(h_c05_words, {
    expect(1);
    let w = string(LOWER, 1, 10);
    let mut s = empty();
    match pick(6) {
        0 => s.description.title = w,
        1 => s.libraries.push(w),
        2 => { let mut t = text(1); t.text = w; s.elements.push(Element::Text(t)); }
        3 => { let mut c = component(&[1, 0, 0, -1]); c.name = w; s.elements.push(Element::Component(c)); }
        4 => { let mut c = component(&[1, 0, 0, -1]); c.reference = w; s.elements.push(Element::Component(c)); }
        _ => { let mut c = component(&[1, 0, 0, -1]); c.fields.push(field(5, "N".into(), w)); s.elements.push(Element::Component(c)); }
    }
    round_trip(&s);
});

// every text of a document at once, each different, fixed of 2 (words) or 20, 70 or 300 characters or every character any with up to 13 characters (words 1 to 14); all numbers any
harness!(h_c05_all_texts, {
    expect(1);
    let n = pick(LINE_ROUNDS);
    let mut s = empty();
    for i in 0..3 { s.libraries.push(line_word(n, i)); }
    s.eelayer = format!("EELAYER {}", line_text(n, 3));
    {
        let d = &mut s.description;
        d.size = line_word(n, 4);
        d.title = line_text(n, 5);
        d.date = line_text(n, 6);
        d.rev = line_text(n, 7);
        d.comp = line_text(n, 8);
        d.comment1 = line_text(n, 9);
        d.comment2 = line_text(n, 10);
        d.comment3 = line_text(n, 11);
        d.comment4 = line_text(n, 12);
        d.dimx = any();
        d.dimy = any();
        d.sheet = any();
        d.sheet_count = any();
    }
    let mut c = component(&[any(), any(), any(), any()]);
    c.name = line_word(n, 13);
    c.reference = line_word(n, 14);
    c.u = format!("U 1 1 {}", line_word(n, 15));
    c.x = any();
    c.y = any();
    for i in 0..2 { c.ar_path.push(format!("AR Path=\"{}\" Ref=\"{}\"  Part=\"1\"", line_word(n, 16 + i), line_word(n, 18 + i))); }
    for i in 0..6 { let mut f = field(i as i64, if i < 2 { FIELD_NAMES[i].into() } else { line_text(n, 20 + i) }, line_text(n, 26 + i)); f.bold = i % 2 == 0; f.visible = i % 3 == 0; f.hjustify = justify(i % 5); f.vjustify = justify((i + 2) % 5); c.fields.push(f); }
    s.elements.push(Element::Component(c));
    for k in 0..4 {
        let mut t = text(0);
        t.t = text_type(k);
        t.italic = k % 2 == 0;
        t.text = line_text(n, 32 + k);
        if k >= 2 { t.shape = Some(line_word(n, 36 + k)); }
        s.elements.push(Element::Text(t));
    }
    s.elements.push(Element::Other(format!("Kmarq B {}", line_text(n, 40))));
    for k in 0..2 {
        let mut h = Sheet::default();
        h.x = any();
        h.y = any();
        h.dimx = any();
        h.dimy = any();
        h.unique = line_word(n, 41 + k);
        h.name = line_text(n, 43 + k);
        h.name_size = any();
        h.filename = line_text(n, 45 + k);
        h.filename_size = any();
        for i in 0..5 { let mut l = SheetLabel::default(); l.name = line_text(n, 47 + 5 * k + i); l.form = form(i); l.side = lside((i + k) % 4); l.x = any(); l.y = any(); l.size = any(); h.labels.push(l); }
        s.sheets.push(h);
    }
    round_trip(&s);
});

/// the same things again: next to each other and apart
fn again<T: Clone>(a: T, b: T) -> Vec<T> { vec![a.clone(), a.clone(), b.clone(), a.clone(), b] }

// equal parts of every kind next to each other and apart: libraries, elements, path lines, fields, sheets, labels
harness!(h_c05_repeats, {
    expect(1);
    let mut s = empty();
    let k = pick(9);
    match k {
        0 => s.libraries = again("a".into(), "b".into()),
        1 => { let mut c = component(&[1, 0, 0, -1]); c.ar_path = again("AR Path=\"/1/2\" Ref=\"R1\"  Part=\"1\"".into(), "AR Path=\"/3\" Ref=\"R1\"  Part=\"1\"".into()); c.fields = again(field(4, "A".into(), "v".into()), field(4, "B".into(), "v".into())); s.elements.push(Element::Component(c)); }
        2 => { let mut h = Sheet::default(); h.unique = "5A".into(); let l = |i| { let mut l = SheetLabel::default(); l.name = "a".into(); l.form = form(i); l.x = any(); l }; h.labels = again(l(0), l(0)); h.labels.push(l(1)); s.sheets = again(h.clone(), Sheet { unique: "5B".into(), ..h }); }
        k => { let (a, b) = (element_fixed(k - 3), element_fixed(k - 3)); s.elements = vec![copy_element(&a), copy_element(&a), copy_element(&b), a, b]; }
    }
    round_trip(&s);
});

// the unit line and path lines of a component: up to 3 characters, any of them, behind the first word
harness!(h_c05_component_lines, {
    expect(1);
    let mut c = component(&[1, 0, 0, -1]);
    let t = string(QTEXT, 0, 3);
    if pick(2) == 0 { c.u = format!("U {}", t); } else { c.ar_path.push(format!("AR {}", t)); }
    round_trip(&with(Element::Component(c)));
});
