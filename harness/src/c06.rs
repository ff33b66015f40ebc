//! C06: reading a schematic puts every value where it belongs and keeps lines that are not understood.

use crate::check;
use crate::gen::*;
use crate::harness;
use crate::sch::*;
use crate::sym::*;
use kicad_parse_gen::schematic::*;

const QTEXT: &str = "\t !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";
const QWORD: &str = "!#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";

fn read(body: &str) -> Option<Schematic> {
    let s = parse_ok(&format!("{}{}{}$EndSCHEMATC\n", HEAD, DESCR, body))?;
    goal(1);
    Some(s)
}
fn only(body: &str) -> Option<Element> {
    let mut s = read(body)?;
    check!(s.elements.len() == 1);
    check!(s.sheets.is_empty());
    s.elements.pop()
}
fn only_component(body: &str) -> Option<Component> {
    match only(body)? { Element::Component(c) => Some(c), e => { check!(kind(&e) == 0); None } }
}
fn only_sheet(body: &str) -> Option<Sheet> {
    let mut s = read(body)?;
    check!(s.elements.is_empty());
    check!(s.sheets.len() == 1);
    s.sheets.pop()
}
fn ints(n: usize) -> Vec<i64> { (0..n).map(|_| any()).collect() }

// header, libraries, layer line and description with one text of up to 2 characters
harness!(h_c06_head, {
    expect(1);
    let v = ints(4);
    let k = pick(11);
    let t = |i: usize, d: &str| if i == k { string(QTEXT, 0, 2) } else { d.to_string() };
    let (lib, layer) = (t(8, "power"), t(9, "25 0"));
    let tx: Vec<String> = (0..8).map(|i| t(i, ["Title 1", "2015-1-1", "", "C (x)", "a", "b c", "", "d"][i])).collect();
    let size = if k == 10 { string(QWORD, 1, 2) } else { "A4".to_string() };
    let nl = if boolean() { "\r\n" } else { "\n" };
    let s = format!("EESchema Schematic File Version 2{n}LIBS:{}{n}LIBS:device{n}EELAYER {}{n}EELAYER END{n}$Descr {} {} {}{n}encoding utf-8{n}Sheet {} {}{n}Title \"{}\"{n}Date \"{}\"{n}Rev \"{}\"{n}Comp \"{}\"{n}Comment1 \"{}\"{n}Comment2 \"{}\"{n}Comment3 \"{}\"{n}Comment4 \"{}\"{n}$EndDescr{n}$EndSCHEMATC{n}",
        lib, layer, size, v[0], v[1], v[2], v[3], tx[0], tx[1], tx[2], tx[3], tx[4], tx[5], tx[6], tx[7], n = nl);
    if let Some(s) = parse_ok(&s) {
        goal(1);
        check!(s.libraries.len() == 2);
        check!(s.libraries[0] == lib);
        check!(s.libraries[1] == "device");
        check!(s.eelayer == format!("EELAYER {}", layer));
        let d = &s.description;
        check!(d.size == size);
        check!(d.dimx == v[0]);
        check!(d.dimy == v[1]);
        check!(d.sheet == v[2]);
        check!(d.sheet_count == v[3]);
        check!(d.title == tx[0]);
        check!(d.date == tx[1]);
        check!(d.rev == tx[2]);
        check!(d.comp == tx[3]);
        check!(d.comment1 == tx[4]);
        check!(d.comment2 == tx[5]);
        check!(d.comment3 == tx[6]);
        check!(d.comment4 == tx[7]);
        check!(s.elements.is_empty());
        check!(s.sheets.is_empty());
    }
});

// wires, connections and no-connects: any numbers, different spacing
harness!(h_c06_wires, {
    expect(1);
    let v = ints(4);
    let sp = ["", " ", "   "][pick(3)];
    match pick(3) {
        0 => {
            let k = pick(3);
            if let Some(Element::Wire(w)) = only(&format!("Wire {} Line\n\t{}{} {} {}{}{}\n", WIRE[k], v[0], sp, v[1], v[2], if sp == "" { " " } else { sp }, v[3])) {
                goal(2);
                check!(wire_no(&w.type_) == k);
                check!(w.x1 == v[0]);
                check!(w.y1 == v[1]);
                check!(w.x2 == v[2]);
                check!(w.y2 == v[3]);
            } else { check!("wire" == "missing"); }
        }
        1 => if let Some(Element::Connection(c)) = only(&format!("Connection ~ {}{} {}\n", v[0], sp, v[1])) { check!(c.x == v[0]); check!(c.y == v[1]); } else { check!("connection" == "missing"); },
        _ => if let Some(Element::NoConnect(c)) = only(&format!("NoConn ~ {}{} {}\n", v[0], sp, v[1])) { check!(c.x == v[0]); check!(c.y == v[1]); } else { check!("no-connect" == "missing"); },
    }
    expect(2);
});

// texts and labels: all kinds, any numbers, contents of up to 2 characters
harness!(h_c06_text, {
    expect(2);
    let v = ints(5);
    let k = pick(4);
    let it = boolean();
    let shape = if k >= 2 { if pick(2) == 0 { string(QWORD, 1, 1) } else { "UnSpc".to_string() } } else { String::new() };
    let t = if shape == "UnSpc" || k < 2 { string(QTEXT, 0, 2) } else { "x".to_string() };
    let body = format!("Text {} {} {} {}    {} {} {} {}\n{}\n", TEXT_TYPE[k], v[0], v[1], v[2], v[3], shape, if it { "Italic" } else { "~" }, v[4], t);
    if let Some(Element::Text(x)) = only(&body) {
        goal(2);
        check!(text_no(&x.t) == k);
        check!(x.x == v[0]);
        check!(x.y == v[1]);
        check!(x.orientation == v[2]);
        check!(x.size == v[3]);
        check!(x.italic == it);
        check!(x.thickness == v[4]);
        check!(x.text == t);
        match x.shape { Some(ref s) => { check!(k >= 2); check!(*s == shape); } None => check!(k < 2) }
    } else { check!("text" == "missing"); }
});

// components: any position and rotation, units 0, 1, 2, 3 and 12, lines in two orders, names of up to 2 characters
harness!(h_c06_component, {
    expect(1);
    let v = ints(2);
    let r = [any(), any(), any(), any()];
    let k = pick(3);
    let name = if k == 0 { string(QWORD, 1, 2) } else { "R".to_string() };
    let re = if k == 1 { string(QWORD, 1, 2) } else { "R1".to_string() };
    let unit = if k == 2 { [0, 2, 3, 12][pick(4)] } else { 1 };
    let ar = pick(3);
    let arl = ["AR Path=\"/5/6\" Ref=\"R2\"  Part=\"1\"", "AR Path=\"/7\" Ref=\"R3\"  Part=\"1\""];
    let l = format!("L {} {}\n", name, re);
    let u = format!("U {} 1 5A0B\n", unit);
    let p = format!("P {} {}\n", v[0], v[1]);
    let a = format!("{}{}", if ar > 0 { format!("{}\n", arl[0]) } else { String::new() }, if ar > 1 { format!("{}\n", arl[1]) } else { String::new() });
    let head = if boolean() { format!("{}{}{}{}", l, u, p, a) } else { format!("{}{}{}{}", u, a, p, l) };
    let body = format!("$Comp\n{}F 0 \"R1\" H 1 2 60 0000 C CNN\n\t{}    {} {}\n\t{}    {}    {}    {}\n$EndComp\n", head, unit, v[0], v[1], r[0], r[1], r[2], r[3]);
    if let Some(c) = only_component(&body) {
        check!(c.name == name);
        check!(c.reference == re);
        check!(c.x == v[0]);
        check!(c.y == v[1]);
        check!(c.u == format!("U {} 1 5A0B", unit));
        check!(c.ar_path.len() == ar);
        for i in 0..ar.min(c.ar_path.len()) { check!(c.ar_path[i] == arl[i]); }
        check!(c.fields.len() == 1);
        rotation_is(&c, &r);
    }
});

fn comp(f: &str) -> String { format!("$Comp\nL N R1\nU 1 1 5A0B\nP 7 8\n{}\t1    7 8\n\t1    0    0    -1\n$EndComp\n", f) }

// fields: any numbers and flags, with and without name
harness!(h_c06_field, {
    expect(1);
    let i = any();
    let (x, y, size) = (float(), float(), any());
    let (o, vis, hj, vj, it, b) = (pick(2), boolean(), pick(5), pick(5), boolean(), boolean());
    let name = if boolean() { Some("My field") } else { None };
    if name.is_none() { assume(i >= 0 && i <= 3); }
    let f = format!("F {} \"v w\" {} {} {} {}  {} {} {}{}{}{}\n", i, ["H", "V"][o], x, y, size, if vis { "0000" } else { "0001" }, JUSTIFY[hj], JUSTIFY[vj], if it { "I" } else { "N" }, if b { "B" } else { "N" },
        match name { Some(n) => format!(" \"{}\"", n), None => String::new() });
    if let Some(c) = only_component(&comp(&f)) {
        check!(c.fields.len() == 1);
        let f = &c.fields[0];
        check!(f.i == i);
        check!(f.value == "v w");
        check!(orientation_no(&f.orientation) == o);
        check!(f.x == x);
        check!(f.y == y);
        check!(f.size == size);
        check!(f.visible == vis);
        check!(justify_no(&f.hjustify) == hj);
        check!(justify_no(&f.vjustify) == vj);
        check!(f.italic == it);
        check!(f.bold == b);
        match name { Some(n) => check!(f.name == n), None => { for k in 0..4 { if i == k as i64 { check!(f.name == FIELD_NAMES[k]); } } } }
    }
});

// field values and names with any text of up to 3 characters, up to 3 fields in order
harness!(h_c06_field_texts, {
    expect(1);
    let n = 1 + pick(3);
    let k = pick(2 * n);
    let mut body = String::new();
    let mut want = vec![];
    for i in 0..n {
        let v = if k == 2 * i { string(QTEXT, 0, 3) } else { ["10 k", "", "~"][i].to_string() };
        let nm = if k == 2 * i + 1 { string(QTEXT, 0, 3) } else { ["Manufacturer", "MPN", "a b"][i].to_string() };
        body.push_str(&format!("F {} \"{}\" V 10 -20.5 30  0001 L BIB \"{}\"\n", i + 3, v, nm));
        want.push((v, nm));
    }
    if let Some(c) = only_component(&comp(&body)) {
        check!(c.fields.len() == n);
        for (f, w) in c.fields.iter().zip(want.iter()) {
            check!(f.value == w.0);
            check!(f.name == w.1);
            check!(f.x == 10.0);
            check!(f.y == -20.5);
            check!(f.size == 30);
        }
    }
});

// sheets: any numbers, one text of up to 2 characters, up to 2 labels
harness!(h_c06_sheet, {
    expect(1);
    let v = ints(6);
    let k = pick(4);
    let unique = if k == 0 { string(QWORD, 1, 2) } else { "5655A9F3".to_string() };
    let name = if k == 1 { string(QTEXT, 0, 2) } else { "a b".to_string() };
    let file = if k == 2 { string(QTEXT, 0, 2) } else { "b.sch".to_string() };
    let n = pick(3);
    let mut ls = String::new();
    let mut want = vec![];
    for i in 0..n {
        let nm = if k == 3 && i == 0 { string(QTEXT, 0, 2) } else { "P 1".to_string() };
        let (f, s) = if k == 2 && i == 0 { (pick(5), pick(4)) } else { (3, 1) };
        let w = ints(3);
        ls.push_str(&format!("F{} \"{}\" {} {} {} {} {} \n", i + 2, nm, FORM[f], LSIDE[s], w[0], w[1], w[2]));
        want.push((nm, f, s, w));
    }
    let body = format!("$Sheet\nS {} {}  {}   {} \nU {}\nF0 \"{}\" {}\nF1 \"{}\" {}\n{}$EndSheet\n", v[0], v[1], v[2], v[3], unique, name, v[4], file, v[5], ls);
    if let Some(s) = only_sheet(&body) {
        check!(s.x == v[0]);
        check!(s.y == v[1]);
        check!(s.dimx == v[2]);
        check!(s.dimy == v[3]);
        check!(s.unique == unique);
        check!(s.name == name);
        check!(s.name_size == v[4]);
        check!(s.filename == file);
        check!(s.filename_size == v[5]);
        check!(s.labels.len() == n);
        for (l, w) in s.labels.iter().zip(want.iter()) {
            check!(l.name == w.0);
            check!(form_no(&l.form) == w.1);
            check!(lside_no(&l.side) == w.2);
            check!(l.x == w.3[0]);
            check!(l.y == w.3[1]);
            check!(l.size == w.3[2]);
        }
    }
});

fn item(k: usize, n: i64) -> String {
    match k {
        0 => format!("$Comp\nL N R1\nU 1 1 5A0B\nP {} 8\n\t1    7 8\n\t1    0    0    -1\n$EndComp\n", n),
        1 => format!("Wire Wire Line\n\t{} 2 3 4\n", n),
        2 => format!("Connection ~ {} 1\n", n),
        3 => format!("NoConn ~ {} 1\n", n),
        4 => format!("Text Notes {} 2 0 60 ~ 0\nWire Wire Line\n", n),
        5 => "Entry Wire Line\n\t1 2 3 4\n".to_string(),
        _ => format!("$Sheet\nS {} 2 3 4\nU 5\nF0 \"a\" 60\nF1 \"b\" 60\n$EndSheet\n", n),
    }
}

// up to 3 items of any kind keep number, order and values
harness!(h_c06_order, {
    expect(1);
    let n = 1 + pick(3);
    let mut body = String::new();
    let mut want = vec![];
    let mut sheets = vec![];
    for _ in 0..n {
        let k = pick(7);
        let v = any();
        body.push_str(&item(k, v));
        match k { 6 => sheets.push(v), 5 => { want.push((5, 0)); want.push((5, 1)); } _ => want.push((k, v)) }
    }
    if let Some(s) = read(&body) {
        check!(s.elements.len() == want.len());
        check!(s.sheets.len() == sheets.len());
        for (a, b) in s.sheets.iter().zip(sheets.iter()) { check!(a.x == *b); }
        for (e, w) in s.elements.iter().zip(want.iter()) {
            check!(kind(e) as usize == w.0);
            match *e {
                Element::Component(ref c) => check!(c.x == w.1),
                Element::Wire(ref c) => check!(c.x1 == w.1),
                Element::Connection(ref c) => check!(c.x == w.1),
                Element::NoConnect(ref c) => check!(c.x == w.1),
                Element::Text(ref c) => { check!(c.x == w.1); check!(c.text == "Wire Wire Line"); }
                Element::Other(ref c) => check!(*c == ["Entry Wire Line", "\t1 2 3 4"][w.1 as usize]),
            }
        }
    }
});

// lines that are not understood are kept as they are: up to 4 characters
harness!(h_c06_unknown_lines, {
    expect(1);
    let t = string(QTEXT, 0, if thorough() { 5 } else { 4 });
    assume(t.trim() != "Text" && t.trim() != "Wire" && t != "$Comp");
    if let Some(s) = read(&format!("Connection ~ 1 2\n{}\nNoConn ~ 1 2\n", t)) {
        check!(s.elements.len() == 3);
        if s.elements.len() == 3 {
            check!(kind(&s.elements[0]) == 2);
            check!(kind(&s.elements[2]) == 3);
            match s.elements[1] { Element::Other(ref x) => check!(*x == t), _ => check!("line" == "kept") }
        }
    }
});

// reading lists of 5, 9, 17, 33 or 67 parts: libraries, wires, labels, fields, path lines, other lines
harness!(h_c06_long_lists, {
    expect(1);
    let n = length();
    let v = ints(n);
    let mut b = String::new();
    match pick(6) {
        0 => {
            for i in 0..n { b.push_str(&format!("LIBS:{}\n", word(i))); }
            if let Some(s) = parse_ok(&format!("EESchema Schematic File Version 2\n{}EELAYER 25 0\nEELAYER END\n{}$EndSCHEMATC\n", b, DESCR)) {
                goal(1);
                check!(s.libraries.len() == n);
                for (i, l) in s.libraries.iter().enumerate() { check!(*l == word(i)); }
            }
        }
        1 => {
            for i in 0..n { b.push_str(&format!("Wire Wire Line\n\t{} 1 2 3\n", v[i])); }
            if let Some(s) = read(&b) {
                check!(s.elements.len() == n);
                for (i, e) in s.elements.iter().enumerate() { match *e { Element::Wire(ref w) => check!(w.x1 == v[i]), _ => check!(kind(e) == 1) } }
            }
        }
        2 => {
            for i in 0..n { b.push_str(&format!("F{} \"{}\" I L {} 0 50\n", i + 2, word(i), v[i])); }
            if let Some(s) = only_sheet(&format!("$Sheet\nS 1 2 3 4\nU 5A\nF0 \"a\" 60\nF1 \"b.sch\" 60\n{}$EndSheet\n", b)) {
                check!(s.labels.len() == n);
                for (i, l) in s.labels.iter().enumerate() { check!(l.name == word(i)); check!(l.x == v[i]); }
            }
        }
        3 => {
            for i in 0..n { b.push_str(&format!("F {} \"{}\" H 0 0 {} 0000 C CNN{}\n", i, word(i), v[i], if i > 3 { format!(" \"{}\"", word(n - i)) } else { String::new() })); }
            if let Some(c) = only_component(&format!("$Comp\nL N R\nU 1 1 5A\nP 0 0\n{}\t1 0 0\n\t1 0 0 -1\n$EndComp\n", b)) {
                check!(c.fields.len() == n);
                for (i, f) in c.fields.iter().enumerate() { check!(f.i == i as i64); check!(f.value == word(i)); check!(f.size == v[i]); if i > 3 { check!(f.name == word(n - i)); } }
            }
        }
        4 => {
            for i in 0..n { b.push_str(&format!("AR Path=\"/{}\"\n", i)); }
            if let Some(c) = only_component(&format!("$Comp\nL N R\nU 1 1 5A\nP {} 0\n{}\t1 0 0\n\t1 0 0 -1\n$EndComp\n", v[0], b)) {
                check!(c.ar_path.len() == n);
                for (i, a) in c.ar_path.iter().enumerate() { check!(*a == format!("AR Path=\"/{}\"", i)); }
            }
        }
        _ => {
            for i in 0..n { b.push_str(&format!("Entry {}\n", i)); }
            if let Some(s) = read(&b) {
                check!(s.elements.len() == n);
                for (i, e) in s.elements.iter().enumerate() { match *e { Element::Other(ref o) => check!(*o == format!("Entry {}", i)), _ => check!(kind(e) == 5) } }
            }
        }
    }
});

// a whole document: every text each different, fixed of 2 (words) or 20, 70 or 300 characters or every character any with up to 13 characters (words 1 to 14), all numbers any
harness!(h_c06_all_texts, {
    expect(1);
    let n = pick(LINE_ROUNDS);
    let ts: Vec<String> = (0..43).map(|i| line_text(n, i)).collect();
    let t = |i: usize| ts[i].clone();
    let ws: Vec<String> = (0..43).map(|i| line_word(n, i)).collect();
    let w = |i: usize| ws[i].clone();
    let v = ints(20);
    let mut b = format!("EESchema Schematic File Version 2\nLIBS:{}\nLIBS:{}\nEELAYER {}\nEELAYER END\n", w(0), w(1), t(2));
    b.push_str(&format!("$Descr {} {} {}\nencoding utf-8\nSheet {} {}\nTitle \"{}\"\nDate \"{}\"\nRev \"{}\"\nComp \"{}\"\nComment1 \"{}\"\nComment2 \"{}\"\nComment3 \"{}\"\nComment4 \"{}\"\n$EndDescr\n",
        w(3), v[0], v[1], v[2], v[3], t(4), t(5), t(6), t(7), t(8), t(9), t(10), t(11)));
    b.push_str(&format!("$Comp\nL {} {}\nU 1 1 {}\nP {} {}\nAR Path=\"{}\" Ref=\"{}\"  Part=\"1\"\n", w(12), w(13), w(14), v[4], v[5], w(15), w(16)));
    for i in 0..5 { b.push_str(&format!("F {} \"{}\" H {} {} {}  0000 C CNN \"{}\"\n", i, t(17 + i), i, i, v[6], t(22 + i))); }
    b.push_str(&format!("\t1    {} {}\n\t1    0    0    -1\n$EndComp\n", v[4], v[5]));
    for k in 0..4 { b.push_str(&format!("Text {} {} {} 0    60   {} ~ 0\n{}\n", TEXT_TYPE[k], v[7], v[8], if k >= 2 { w(27 + k) } else { String::new() }, t(31 + k))); }
    b.push_str(&format!("$Sheet\nS {} {} {} {}\nU {}\nF0 \"{}\" {}\nF1 \"{}\" {}\n", v[9], v[10], v[11], v[12], w(35), t(36), v[13], t(37), v[14]));
    for i in 0..4 { b.push_str(&format!("F{} \"{}\" {} {} {} {} {} \n", i + 2, t(38 + i), FORM[i], LSIDE[i], v[15], v[16], v[17])); }
    b.push_str(&format!("$EndSheet\nKmarq B {}\n$EndSCHEMATC\n", t(42)));
    if let Some(s) = parse_ok(&b) {
        goal(1);
        check!(s.libraries == vec![w(0), w(1)]);
        check!(s.eelayer == format!("EELAYER {}", t(2)));
        let d = &s.description;
        check!(d.size == w(3));
        check!(d.dimx == v[0]);
        check!(d.dimy == v[1]);
        check!(d.sheet == v[2]);
        check!(d.sheet_count == v[3]);
        check!(d.title == t(4));
        check!(d.date == t(5));
        check!(d.rev == t(6));
        check!(d.comp == t(7));
        check!(d.comment1 == t(8));
        check!(d.comment2 == t(9));
        check!(d.comment3 == t(10));
        check!(d.comment4 == t(11));
        check!(s.elements.len() == 6);
        check!(s.sheets.len() == 1);
        if let Some(&Element::Component(ref c)) = s.elements.get(0) {
            check!(c.name == w(12));
            check!(c.reference == w(13));
            check!(c.u == format!("U 1 1 {}", w(14)));
            check!(c.x == v[4]);
            check!(c.y == v[5]);
            check!(c.ar_path == vec![format!("AR Path=\"{}\" Ref=\"{}\"  Part=\"1\"", w(15), w(16))]);
            check!(c.fields.len() == 5);
            for (i, f) in c.fields.iter().enumerate() { check!(f.i == i as i64); check!(f.value == t(17 + i)); check!(f.name == t(22 + i)); check!(f.x == i as f64); check!(f.size == v[6]); }
        } else { check!("component" == "read"); }
        for k in 0..4 {
            if let Some(&Element::Text(ref x)) = s.elements.get(1 + k) {
                check!(text_no(&x.t) == k);
                check!(x.x == v[7]);
                check!(x.y == v[8]);
                check!(x.text == t(31 + k));
                check!(x.shape == if k >= 2 { Some(w(27 + k)) } else { None });
            } else { check!("text" == "read"); }
        }
        if let Some(&Element::Other(ref o)) = s.elements.get(5) { check!(*o == format!("Kmarq B {}", t(42))); } else { check!("line" == "kept"); }
        if let Some(h) = s.sheets.get(0) {
            check!(h.x == v[9]);
            check!(h.y == v[10]);
            check!(h.dimx == v[11]);
            check!(h.dimy == v[12]);
            check!(h.unique == w(35));
            check!(h.name == t(36));
            check!(h.name_size == v[13]);
            check!(h.filename == t(37));
            check!(h.filename_size == v[14]);
            check!(h.labels.len() == 4);
            for (i, l) in h.labels.iter().enumerate() { check!(l.name == t(38 + i)); check!(form_no(&l.form) == i); check!(lside_no(&l.side) == i); check!(l.x == v[15]); check!(l.y == v[16]); check!(l.size == v[17]); }
        }
    }
});

// equal parts of every kind next to each other and apart: libraries, path lines, fields, labels, sheets, elements, lines that are not understood
harness!(h_c06_repeats, {
    expect(1);
    let v = any();
    let f = |i: usize| format!("F 4 \"{}\" H 0 0 {} 0000 C CNN \"N\"\n", ["v", "w"][i], v);
    let a = |i: usize| format!("AR Path=\"/{}\" Ref=\"R1\"  Part=\"1\"\n", i);
    let l = |i: usize| format!("F{} \"{}\" I L {} 0 50\n", 2, ["a", "b"][i], v);
    const ORDER: [usize; 5] = [0, 0, 1, 0, 1];
    let all = |f: &dyn Fn(usize) -> String| -> String { ORDER.iter().map(|i| f(*i)).collect() };
    let mut b = all(&|i| format!("$Comp\nL N{} R\nU  1 1   5A \nP 0 0\n{}{}\t1 0 0\n\t1 0 0 -1\n$EndComp\n", i, all(&a), all(&f)));
    b.push_str(&all(&|i| format!("$Sheet\nS 1 2 3 4\nU {}\nF0 \"a\" 60\nF1 \"b.sch\" 60\n{}$EndSheet\n", i, all(&l))));
    b.push_str(&all(&|i| format!("Wire Wire Line\n\t{} 1 {} 1\n", v, i)));
    b.push_str(&all(&|i| format!("Connection ~ {} {}\n", v, i)));
    b.push_str(&all(&|i| format!("NoConn ~ {} {}\n", v, i)));
    b.push_str(&all(&|i| format!("Text Notes {} {} 0 60 ~ 0\nt\n", v, i)));
    b.push_str(&all(&|i| format!("Entry {}\n", i)));
    let head = format!("EESchema Schematic File Version 2\n{}EELAYER 25 0\nEELAYER END\n", all(&|i| format!("LIBS:l{}\n", i)));
    if let Some(s) = parse_ok(&format!("{}{}{}$EndSCHEMATC\n", head, DESCR, b)) {
        goal(1);
        check!(s.libraries.len() == 5);
        for (i, x) in s.libraries.iter().enumerate() { check!(*x == format!("l{}", ORDER[i % 5])); }
        check!(s.sheets.len() == 5);
        for (i, x) in s.sheets.iter().enumerate() {
            check!(x.unique == ["0", "1"][ORDER[i % 5]]);
            check!(x.labels.len() == 5);
            for (i, x) in x.labels.iter().enumerate() { check!(x.name == ["a", "b"][ORDER[i % 5]]); check!(x.x == v); }
        }
        check!(s.elements.len() == 30);
        for (i, e) in s.elements.iter().enumerate() {
            check!(kind(e) as usize == i / 5);
            let n = ORDER[i % 5] as i64;
            match *e {
                Element::Component(ref c) => {
                    check!(c.name == ["N0", "N1"][n as usize]);
                    check!(c.u == "U  1 1   5A ");
                    check!(c.ar_path.len() == 5);
                    for (i, x) in c.ar_path.iter().enumerate() { check!(*x == a(ORDER[i % 5]).trim_end_matches('\n')); }
                    check!(c.fields.len() == 5);
                    for (i, x) in c.fields.iter().enumerate() { check!(x.i == 4); check!(x.value == ["v", "w"][ORDER[i % 5]]); check!(x.size == v); }
                }
                Element::Wire(ref w) => { check!(w.x1 == v); check!(w.x2 == n); }
                Element::Connection(ref w) => { check!(w.x == v); check!(w.y == n); }
                Element::NoConnect(ref w) => { check!(w.x == v); check!(w.y == n); }
                Element::Text(ref w) => { check!(w.x == v); check!(w.y == n); }
                Element::Other(ref o) => check!(*o == format!("Entry {}", n)),
                #[allow(unreachable_patterns)]
                _ => check!("element" == "known"),
            }
        }
    }
});
