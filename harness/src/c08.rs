//! C08: reading a symbol library puts every value where it belongs.

use crate::check;
use crate::harness;
use crate::gen::{line_text, line_word, LINE_ROUNDS, length, word};
use crate::lib_::*;
use crate::sch::{any, justify_no, orientation_no, FIELD_NAMES, JUSTIFY};
use crate::sym::*;
use kicad_parse_gen::symbol_lib::*;

const QTEXT: &str = "\t !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";
const QWORD: &str = "!#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";
const DEF: &str = "DEF R R 0 40 Y Y 1 F N\n";
const FIELDS: &str = "F0 \"R\" 0 100 50 H V C CNN\nF1 \"R\" 0 100 50 H V C CNN\n";

fn read(body: &str) -> Option<SymbolLib> {
    match parse_str(&format!("EESchema-LIBRARY Version 2.3\n#encoding utf-8\n#\n{}#End Library\n", body)) {
        Ok(l) => { goal(1); Some(l) }
        Err(_) => { check!("reading" == "failed"); None }
    }
}
fn only(head: &str, draw: &str) -> Option<Symbol> {
    let mut l = read(&format!("# R\n#\n{}DRAW\n{}ENDDRAW\nENDDEF\n#\n", head, draw))?;
    check!(l.symbols.len() == 1);
    l.symbols.pop()
}
fn yn(b: bool, y: &'static str, n: &'static str) -> &'static str { if b { y } else { n } }
fn ints(n: usize) -> Vec<i64> { (0..n).map(|_| any()).collect() }

// symbol line: any numbers and flags, words of up to 2 characters
harness!(h_c08_symbol, {
    expect(1);
    let k = pick(3);
    let name = if k == 0 { string(QWORD, 1, 2) } else { "~R".to_string() };
    let re = if k == 1 { string(QWORD, 1, 2) } else { "#R".to_string() };
    let (off, n) = (float(), any());
    let (a, b, c, d) = (boolean(), boolean(), boolean(), boolean());
    if let Some(s) = only(&format!("DEF {} {} 0 {} {} {} {} {} {}\n{}", name, re, off, yn(a, "Y", "N"), yn(b, "Y", "N"), n, yn(c, "L", "F"), yn(d, "P", "N"), FIELDS), "") {
        check!(s.name == name);
        check!(s.reference == re);
        check!(s.text_offset == off);
        check!(s.draw_pinnumber == a);
        check!(s.draw_pinname == b);
        check!(s.unit_count == n);
        check!(s.unit_locked == c);
        check!(s.is_power == d);
        check!(s.fields.len() == 2);
        check!(s.draw.is_empty());
        check!(s.aliases.is_empty());
    }
});

// fields: any numbers and flags, with and without name
harness!(h_c08_field, {
    expect(1);
    let i = pick(6);
    let (x, y, dim) = (float(), float(), any());
    let (o, vis, hj, vj, it, b) = (pick(2), boolean(), pick(5), pick(5), boolean(), boolean());
    let name = i > 3 || boolean();
    let f = format!("F{} \"v w\" {} {} {} {} {} {} {}{}{}{}\n", i, x, y, dim, ["H", "V"][o], yn(vis, "V", "I"), JUSTIFY[hj], JUSTIFY[vj], yn(it, "I", "N"), yn(b, "B", "N"), yn(name, " \"My name\"", ""));
    if let Some(s) = only(&format!("{}{}", DEF, f), "") {
        check!(s.fields.len() == 1);
        let f = &s.fields[0];
        check!(f.i == i as i64);
        check!(f.value == "v w");
        check!(f.x == x);
        check!(f.y == y);
        check!(f.dimension == dim);
        check!(orientation_no(&f.orientation) == o);
        check!(f.visible == vis);
        check!(justify_no(&f.hjustify) == hj);
        check!(justify_no(&f.vjustify) == vj);
        check!(f.italic == it);
        check!(f.bold == b);
        check!(f.name == if name { "My name" } else { FIELD_NAMES[i] });
    }
});

// field values and names of up to 3 characters, up to 3 fields in order
harness!(h_c08_field_texts, {
    expect(1);
    let n = 1 + pick(3);
    let k = pick(2 * n);
    let mut body = String::new();
    let mut want = vec![];
    for i in 0..n {
        let v = if k == 2 * i { string(QTEXT, 0, 3) } else { ["10 k", "", "~"][i].to_string() };
        let nm = if k == 2 * i + 1 { string(QTEXT, 0, 3) } else { ["Manufacturer", "MPN", "a b"][i].to_string() };
        body.push_str(&format!("F{} \"{}\" 10 -20.5 30 V I L BIB \"{}\"\n", i + 3, v, nm));
        want.push((v, nm));
    }
    if let Some(s) = only(&format!("{}{}", DEF, body), "") {
        check!(s.fields.len() == n);
        for (i, (f, w)) in s.fields.iter().zip(want.iter()).enumerate() {
            check!(f.i == i as i64 + 3);
            check!(f.value == w.0);
            check!(f.name == w.1);
            check!(f.y == -20.5);
        }
    }
});

// aliases and footprint filters in either order: up to 3 aliases of up to 2 characters
harness!(h_c08_aliases, {
    expect(1);
    let n = pick(4);
    let a: Vec<String> = (0..n).map(|i| if i == 1 { string(QWORD, 1, 2) } else { ["A", "", "C"][i].to_string() }).collect();
    let fp = ["", "$FPLIST\n$ENDFPLIST\n", "$FPLIST\n R_*\n DRAW\n$ENDFPLIST\n"][pick(3)];
    let al = if n > 0 { format!("ALIAS {}\n", a.join(" ")) } else { String::new() };
    let (fp, al) = if boolean() { (fp.to_string(), al) } else { (al, fp.to_string()) };
    if let Some(s) = only(&format!("{}{}{}{}", DEF, FIELDS, fp, al), "C 0 0 1 0 1 0 N\n") {
        check!(s.aliases == a);
        check!(s.fields.len() == 2);
        check!(s.draw.len() == 1);
    }
});

// pins: any numbers, all types, shapes and visibilities, words of up to 2 characters
harness!(h_c08_pin, {
    expect(1);
    let v = ints(7);
    let k = pick(3);
    let name = if k == 0 { string(QWORD, 1, 2) } else { "~RST".to_string() };
    let num = if k == 1 { string(QWORD, 1, 2) } else { "A1".to_string() };
    let (o, t, s, vis) = if k == 2 { (pick(4), pick(11), pick(9), boolean()) } else { (1, 4, 0, true) };
    let line = format!("X {} {} {} {} {} {} {} {} {} {} {} {}{}\n", name, num, v[0], v[1], v[2], ORIENT[o], v[3], v[4], v[5], v[6], PTYPE[t], yn(vis, "", "N"), SHAPE[s]);
    if let Some(y) = only(&format!("{}{}", DEF, FIELDS), &line) {
        check!(y.draw.len() == 1);
        match y.draw[0] {
            Draw::Pin(ref p) => {
                check!(p.name == name);
                check!(p.number == num);
                check!(p.x == v[0]);
                check!(p.y == v[1]);
                check!(p.len == v[2]);
                check!(p.orientation == orient(o));
                check!(p.num_size == v[3]);
                check!(p.name_size == v[4]);
                check!(p.unit == v[5]);
                check!(p.convert == v[6]);
                check!(p.pin_type == ptype(t));
                check!(p.pin_shape == shape(s));
                check!(p.pin_visible == vis);
            }
            _ => check!("pin" == "read"),
        }
    }
});

// rectangles: any numbers, all fills
harness!(h_c08_rectangle, {
    expect(1);
    let v = ints(7);
    let f = pick(3);
    if let Some(y) = only(&format!("{}{}", DEF, FIELDS), &format!("S {} {} {} {} {} {} {} {}\n", v[0], v[1], v[2], v[3], v[4], v[5], v[6], FILL[f])) {
        check!(y.draw.len() == 1);
        match y.draw[0] {
            Draw::Rectangle(ref r) => {
                check!(r.x1 == v[0]);
                check!(r.y1 == v[1]);
                check!(r.x2 == v[2]);
                check!(r.y2 == v[3]);
                check!(r.unit == v[4]);
                check!(r.convert == v[5]);
                check!(r.thickness == v[6]);
                check!(r.fill == fill(f));
            }
            _ => check!("rectangle" == "read"),
        }
    }
});

// other drawing lines of up to 4 characters are kept verbatim
harness!(h_c08_other, {
    expect(1);
    let t = string(QTEXT, 0, if thorough() { 5 } else { 4 });
    assume(!t.starts_with("X ") && !t.starts_with("S "));
    if let Some(y) = only(&format!("{}{}", DEF, FIELDS), &format!("P 2 0 1 0 1 2 3 4 N\n{}\nS 1 2 3 4 5 6 7 N\n", t)) {
        check!(y.draw.len() == 3);
        if y.draw.len() == 3 {
            match y.draw[0] { Draw::Other(ref s) => check!(s == "P 2 0 1 0 1 2 3 4 N"), _ => check!("line" == "kept") }
            match y.draw[1] { Draw::Other(ref s) => check!(*s == t), _ => check!("line" == "kept") }
            check!(kind(&y.draw[2]) == 1);
        }
    }
});

// up to 3 symbols with drawing parts in any order
harness!(h_c08_order, {
    expect(1);
    let n = pick(3);
    let mut body = String::new();
    let mut want: Vec<Vec<(u32, i64)>> = vec![];
    for i in 0..n {
        let mut draw = String::new();
        let mut w = vec![];
        for _ in 0..pick(3) {
            let v = any();
            let k = pick(3);
            draw.push_str(&match k { 0 => format!("X A 1 {} 0 100 U 50 50 1 1 P\n", v), 1 => format!("S {} 2 3 4 0 1 10 f\n", v), _ => "T 0 1 2 3\n".to_string() });
            w.push((k as u32, v));
        }
        let nl = if i == 0 { "\n" } else { "\r\n" };
        body.push_str(&format!("# x{n}#{n}DEF N{} R 0 40 Y Y 1 F N{n}{}DRAW{n}{}ENDDRAW{n}ENDDEF{n}#{n}", i, FIELDS, draw, n = nl));
        want.push(w);
    }
    if let Some(l) = read(&body) {
        check!(l.symbols.len() == n);
        for (i, s) in l.symbols.iter().enumerate() {
            check!(s.name == ["N0", "N1"][i]);
            check!(s.draw.len() == want[i].len());
            for (d, w) in s.draw.iter().zip(want[i].iter()) {
                check!(kind(d) == w.0);
                match *d { Draw::Pin(ref p) => check!(p.x == w.1), Draw::Rectangle(ref r) => check!(r.x1 == w.1), Draw::Other(ref o) => check!(o == "T 0 1 2 3") }
            }
        }
    }
});

// reading lists of 5, 9, 17, 33 or 67 parts: aliases, fields, pins, symbols
harness!(h_c08_long_lists, {
    expect(1);
    let n = length();
    let v = ints(n);
    let mut b = String::new();
    match pick(4) {
        0 => {
            for i in 0..n { b.push(' '); b.push_str(&word(i)); }
            if let Some(s) = only(&format!("{}{}ALIAS{}\n", DEF, FIELDS, b), "") {
                check!(s.aliases.len() == n);
                for (i, a) in s.aliases.iter().enumerate() { check!(*a == word(i)); }
            }
        }
        1 => {
            for i in 0..n { b.push_str(&format!("F{} \"{}\" 0 0 {} H V C CNN{}\n", i, word(i), v[i], if i > 3 { format!(" \"{}\"", word(n - i)) } else { String::new() })); }
            if let Some(s) = only(&format!("{}{}", DEF, b), "") {
                check!(s.fields.len() == n);
                for (i, f) in s.fields.iter().enumerate() { check!(f.i == i as i64); check!(f.value == word(i)); check!(f.dimension == v[i]); if i > 3 { check!(f.name == word(n - i)); } }
            }
        }
        2 => {
            for i in 0..n { b.push_str(&format!("X {} {} {} 0 300 R 50 50 1 1 I\n", word(i), i, v[i])); }
            if let Some(s) = only(&format!("{}{}", DEF, FIELDS), &b) {
                check!(s.draw.len() == n);
                for (i, d) in s.draw.iter().enumerate() { match *d { Draw::Pin(ref p) => { check!(p.name == word(i)); check!(p.x == v[i]); } _ => check!("pin" == "other") } }
            }
        }
        _ => {
            for i in 0..n { b.push_str(&format!("# {w}\n#\nDEF {w} R 0 40 Y Y {} F N\n{}DRAW\nENDDRAW\nENDDEF\n#\n", v[i], FIELDS, w = word(i))); }
            if let Some(l) = read(&b) {
                check!(l.symbols.len() == n);
                for (i, s) in l.symbols.iter().enumerate() { check!(s.name == word(i)); check!(s.unit_count == v[i]); }
            }
        }
    }
});

// a symbol with every text each different, fixed of 2 (words) or 20, 70 or 300 characters or every character any with up to 13 characters (words 1 to 14), all numbers any
harness!(h_c08_all_texts, {
    expect(1);
    let n = pick(LINE_ROUNDS);
    let ts: Vec<String> = (0..43).map(|i| line_text(n, i)).collect();
    let t = |i: usize| ts[i].clone();
    let ws: Vec<String> = (0..43).map(|i| line_word(n, i)).collect();
    let w = |i: usize| ws[i].clone();
    let v = ints(9);
    let mut b = format!("DEF {} {} 0 40 Y N {} F N\n", w(0), w(1), v[0]);
    for i in 0..6 { b.push_str(&format!("F{} \"{}\" {} -{} {} H V C CNN \"{}\"\n", i, t(2 + i), i, i, v[1], t(8 + i))); }
    b.push_str(&format!("ALIAS {} {} {}\n$FPLIST\n {}\n {}\n$ENDFPLIST\n", w(14), w(15), w(16), w(17), w(18)));
    let mut d = String::new();
    for i in 0..3 { d.push_str(&format!("X {} {} {} {} {} {} {} {} 1 1 {}\n", w(19 + i), w(22 + i), v[2], v[3], v[4], ORIENT[i], v[5], v[6], PTYPE[i])); }
    d.push_str(&format!("T {}\n", t(25)));
    if let Some(s) = only(&b, &d) {
        check!(s.name == w(0));
        check!(s.reference == w(1));
        check!(s.unit_count == v[0]);
        check!(s.draw_pinnumber);
        check!(!s.draw_pinname);
        check!(s.fields.len() == 6);
        for (i, f) in s.fields.iter().enumerate() { check!(f.i == i as i64); check!(f.value == t(2 + i)); check!(f.name == t(8 + i)); check!(f.x == i as f64); check!(f.y == -(i as f64)); check!(f.dimension == v[1]); }
        check!(s.aliases == vec![w(14), w(15), w(16)]);
        check!(s.draw.len() == 4);
        for (i, x) in s.draw.iter().enumerate() {
            match *x {
                Draw::Pin(ref p) => { check!(i < 3); check!(p.name == w(19 + i)); check!(p.number == w(22 + i)); check!(p.x == v[2]); check!(p.y == v[3]); check!(p.len == v[4]); check!(p.num_size == v[5]); check!(p.name_size == v[6]); check!(p.orientation == orient(i)); check!(p.pin_type == ptype(i)); }
                Draw::Other(ref o) => { check!(i == 3); check!(*o == format!("T {}", t(25))); }
                _ => check!("drawing" == "read"),
            }
        }
    }
});

// equal parts of every kind next to each other and apart: aliases, fields, pins, rectangles, drawing lines, symbols
harness!(h_c08_repeats, {
    expect(1);
    const ORDER: [usize; 5] = [0, 0, 1, 0, 1];
    let all = |f: &dyn Fn(usize) -> String| -> String { ORDER.iter().map(|i| f(*i)).collect() };
    let v = any();
    let fields = all(&|i| format!("F4 \"{}\" 0 0 {} H V C CNN \"N\"\n", ["v", "w"][i], v));
    let draw = format!("{}{}{}", all(&|i| format!("X A {} {} 0 300 R 50 50 1 1 I\n", i, v)), all(&|i| format!("S {} {} 3 4 0 1 10 f\n", v, i)), all(&|i| format!("T 0 {}\n", i)));
    let b = all(&|i| format!("# N{i}\n#\nDEF N{i} R 0 40 Y Y 1 F N\n{}ALIAS{}\nDRAW\n{}ENDDRAW\nENDDEF\n#\n", fields, all(&|i| format!(" a{}", i)), draw, i = i));
    if let Some(l) = read(&b) {
        check!(l.symbols.len() == 5);
        for (i, s) in l.symbols.iter().enumerate() {
            check!(s.name == ["N0", "N1"][ORDER[i % 5]]);
            check!(s.aliases.len() == 5);
            for (i, x) in s.aliases.iter().enumerate() { check!(x == ["a0", "a1"][ORDER[i % 5]]); }
            check!(s.fields.len() == 5);
            for (i, x) in s.fields.iter().enumerate() { check!(x.i == 4); check!(x.value == ["v", "w"][ORDER[i % 5]]); check!(x.dimension == v); }
            check!(s.draw.len() == 15);
            for (i, x) in s.draw.iter().enumerate() {
                let n = ORDER[i % 5];
                check!(kind(x) as usize == i / 5);
                match *x {
                    Draw::Pin(ref p) => { check!(p.number == ["0", "1"][n]); check!(p.x == v); }
                    Draw::Rectangle(ref r) => { check!(r.x1 == v); check!(r.y1 == n as i64); }
                    Draw::Other(ref o) => check!(*o == format!("T 0 {}", n)),
                    #[allow(unreachable_patterns)]
                    _ => check!("drawing" == "known"),
                }
            }
        }
    }
});
