//! C07: symbol libraries survive being written and read back.

use crate::harness;
use crate::gen::{line_text, line_word, LINE_ROUNDS, length, long_text, long_word, word};
use crate::lib_::*;
use crate::sch::any;
use crate::sym::*;
use kicad_parse_gen::symbol_lib::*;

const QTEXT: &str = "\t !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";
const QWORD: &str = "!#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";

// symbol line: any numbers and flags, with and without a pin, reference of a part or not
harness!(h_c07_symbol, {
    expect(1);
    let mut s = symbol();
    s.text_offset = float();
    s.draw_pinnumber = boolean();
    s.draw_pinname = boolean();
    s.unit_count = any();
    s.unit_locked = boolean();
    s.is_power = boolean();
    s.reference = ["U", "#PWR", "#"][pick(3)].into();
    if pick(2) == 0 { s.draw.push(Draw::Pin(pin())); }
    round_trip(&with(s));
});

// symbol name, reference, aliases and pin texts: words of up to 3 characters
harness!(h_c07_words, {
    expect(1);
    let mut s = symbol();
    let k = pick(5);
    let w = string(QWORD, 1, 3);
    let mut p = pin();
    match k { 0 => s.name = w, 1 => s.reference = w, 2 => s.aliases.push(w), 3 => p.name = w, _ => p.number = w }
    if k == 2 { s.aliases.push("B".into()); }
    s.draw.push(Draw::Pin(p));
    round_trip(&with(s));
});

// up to 3 aliases
harness!(h_c07_aliases, {
    expect(1);
    let mut s = symbol();
    for i in 0..pick(4) { s.aliases.push(["A1", "~B", "C_2"][i].into()); }
    round_trip(&with(s));
});

// fields: any numbers, all flags
harness!(h_c07_field, {
    expect(1);
    let mut s = symbol();
    let mut f = field(any(), "Custom".into(), "1 k".into());
    field_flags(&mut f);
    s.fields.push(f);
    round_trip(&with(s));
});

// field values of up to 3 characters, also of the value field
harness!(h_c07_field_values, {
    expect(1);
    let mut s = symbol();
    let t = string(QTEXT, 0, 3);
    match pick(3) {
        0 => s.fields[0].value = t,
        1 => s.fields[1].value = t,
        _ => s.fields.push(field(5, "My name".into(), t)),
    }
    round_trip(&with(s));
});

// field names of up to 2 characters, field numbers 0 to 5
harness!(h_c07_field_names, {
    expect(1);
    let mut s = symbol();
    let i = pick(6);
    let name = if pick(2) == 0 { ["Reference", "Value", "Footprint", "UserDocLink"][pick(4)].to_string() } else { string(QTEXT, 0, 2) };
    let f = field(i as i64, name, "x".into());
    if pick(2) == 0 { s.fields.push(f); } else { s.fields.insert(0, f); }
    round_trip(&with(s));
});

// symbols with fewer than two fields
harness!(h_c07_few_fields, {
    expect(1);
    let mut s = symbol();
    s.fields.truncate(pick(3));
    round_trip(&with(s));
});

// pins: any numbers, all orientations, types, shapes and visibilities
harness!(h_c07_pin, {
    expect(1);
    let mut s = symbol();
    let mut p = pin();
    p.orientation = orient(pick(4));
    p.pin_type = ptype(pick(11));
    p.pin_shape = shape(pick(9));
    p.pin_visible = boolean();
    s.draw.push(Draw::Pin(p));
    round_trip(&with(s));
});

// rectangles: any numbers, all fills
harness!(h_c07_rectangle, {
    expect(1);
    let mut s = symbol();
    s.draw.push(Draw::Rectangle(rect(pick(3))));
    round_trip(&with(s));
});

// other drawing lines: up to 3 characters
harness!(h_c07_other, {
    expect(1);
    let mut s = symbol();
    let t = string(QTEXT, 0, 3);
    // lines of pins and rectangles are not among them
    assume(!t.starts_with("X ") && !t.starts_with("S "));
    s.draw.push(Draw::Other(t));
    s.draw.push(Draw::Other("T 0 1 2 3 \"a b\"".into()));
    round_trip(&with(s));
});

// up to 3 drawing parts in any order, up to 2 symbols
harness!(h_c07_lists, {
    expect(1);
    let mut l = SymbolLib::default();
    for i in 0..pick(3) {
        let mut s = symbol();
        s.name = ["A", "~B"][i].into();
        if i == 0 {
            for _ in 0..pick(4) {
                s.draw.push(match pick(3) { 0 => Draw::Pin(pin()), 1 => Draw::Rectangle(rect(1)), _ => Draw::Other("C 0 0 10 0 1 0 N".into()) });
            }
        }
        l.symbols.push(s);
    }
    round_trip(&l);
});

// lists of 5, 9, 17, 33 or 67 parts: aliases, fields, pins, drawing lines, symbols
harness!(h_c07_long_lists, {
    expect(1);
    let n = length();
    let mut l = SymbolLib::default();
    let mut s = symbol();
    match pick(5) {
        0 => for i in 0..n { s.aliases.push(word(i)); },
        1 => for i in 2..n { s.fields.push(field(i as i64, word(i), word(n - i))); },
        2 => for i in 0..n { let mut p = pin(); p.name = word(i); p.number = word(n - i); s.draw.push(Draw::Pin(p)); },
        3 => for i in 0..n { s.draw.push(if i % 2 == 0 { Draw::Rectangle(rect(i % 3)) } else { Draw::Other(format!("C {} 0 10 0 1 0 N", i)) }); },
        _ => for i in 0..n { let mut x = symbol(); x.name = word(i); l.symbols.push(x); },
    }
    l.symbols.push(s);
    round_trip(&l);
});

// words and texts of 20, 70 or 300 characters
harness!(h_c07_long_texts, {
    expect(1);
    let n = [20, 70, 300][pick(3)];
    let mut s = symbol();
    match pick(6) {
        0 => s.name = long_word(n),
        1 => s.aliases.push(long_word(n)),
        2 => { let mut p = pin(); p.name = long_word(n); s.draw.push(Draw::Pin(p)); }
        3 => { let mut p = pin(); p.number = long_word(n); s.draw.push(Draw::Pin(p)); }
        4 => s.fields[1].value = long_text(n),
        _ => s.fields.push(field(4, long_text(n), long_text(n))),
    }
    round_trip(&with(s));
});

// every text of two symbols at once, each different, fixed of 2 (words) or 20, 70 or 300 characters or every character any with up to 13 characters (words 1 to 14); all numbers any
harness!(h_c07_all_texts, {
    expect(1);
    let n = pick(LINE_ROUNDS);
    let mut l = SymbolLib::default();
    for k in 0..2 {
        let mut s = symbol();
        let b = 40 * k;
        s.name = line_word(n, b);
        s.reference = line_word(n, b + 1);
        s.text_offset = float();
        s.unit_count = any();
        s.is_power = k == 1;
        s.draw_pinname = k == 0;
        for i in 0..2 { s.fields[i].value = line_text(n, b + 2 + i); }
        for i in 2..6 { let mut f = field(i as i64, if i < 4 { ["Footprint", "UserDocLink"][i - 2].into() } else { line_text(n, b + 4 + i) }, line_text(n, b + 10 + i)); f.visible = i % 2 == 0; f.italic = i == 3; s.fields.push(f); }
        for i in 0..3 { s.aliases.push(line_word(n, b + 18 + i)); }
        for i in 0..3 { let mut p = pin(); p.name = line_word(n, b + 22 + i); p.number = line_word(n, b + 26 + i); p.orientation = orient(i); p.pin_type = ptype(3 * i); p.pin_shape = shape(2 * i); p.pin_visible = i != 1; s.draw.push(Draw::Pin(p)); }
        s.draw.push(Draw::Rectangle(rect(k)));
        s.draw.push(Draw::Other(format!("T 0 1 2 {}", line_text(n, b + 30))));
        l.symbols.push(s);
    }
    round_trip(&l);
});

/// the same things again: next to each other and apart
fn again<T: Clone>(a: T, b: T) -> Vec<T> { vec![a.clone(), a.clone(), b.clone(), a.clone(), b] }

// equal parts of every kind next to each other and apart: aliases, fields, pins, rectangles, drawing lines, symbols
harness!(h_c07_repeats, {
    expect(1);
    let mut l = SymbolLib::default();
    let mut s = symbol();
    s.aliases = again("a".into(), "b".into());
    s.fields.extend(again(field(4, "A".into(), "v".into()), field(4, "A".into(), "v".into())));
    s.draw.extend(again(Draw::Pin(pin()), Draw::Pin(pin())));
    s.draw.extend(again(Draw::Rectangle(rect(0)), Draw::Rectangle(rect(0))));
    s.draw.extend(again(Draw::Other("C 0 0 10 0 1 0 N".into()), Draw::Other("C 1 0 10 0 1 0 N".into())));
    let mut t = s.clone();
    t.name = "S".into();
    l.symbols = again(s, t);
    round_trip(&l);
});
