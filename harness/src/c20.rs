//! C20: symbol convention checks report exactly the violated rules.

use crate::check;
use crate::gen::*;
use crate::harness;
use crate::klc::Found;
use crate::lib_::*;
use crate::sch::any;
use crate::sym::*;
use kicad_parse_gen::checkfix::{CheckFix, Config};
use kicad_parse_gen::symbol_lib::*;

struct Want { r41: usize, r42: usize, r47: usize, r48: usize, r49: usize, infos: usize, name: bool }

fn nc(name: &str) -> bool { name.as_bytes().windows(2).any(|w| (w[0] == b'n' || w[0] == b'N') && (w[1] == b'c' || w[1] == b'C')) }
fn want(s: &Symbol) -> Want {
    let mut w = Want { r41: 0, r42: 0, r47: 0, r48: 0, r49: 0, infos: 0, name: false };
    for (i, b) in s.name.bytes().enumerate() {
        if i == 0 && b == b'~' { continue; }
        let ok = (b >= b'A' && b <= b'Z') || (b >= b'a' && b <= b'z') || (b >= b'0' && b <= b'9') || b == b'_' || b == b'-' || b == b'.';
        if !ok { w.name = true; }
    }
    let pins = s.draw.iter().filter(|d| if let Draw::Pin(_) = **d { true } else { false }).count();
    let graphics = s.reference.as_bytes().first() == Some(&b'#') && pins == 0;
    let power = s.reference == "#PWR" && pins == 1;
    for f in &s.fields {
        if f.dimension != 50 { w.r48 += 1; }
        if f.i == 0 { if graphics { if f.visible { w.r49 += 1; } } else if !power && !f.visible { w.r49 += 1; } }
        if f.i == 1 { if f.visible == (graphics || power) { w.r49 += 1; } }
        if f.i == 2 || f.i == 3 { if f.visible { w.r49 += 1; } }
    }
    if graphics || power { return w; }
    for d in &s.draw {
        match *d {
            Draw::Pin(ref p) => {
                if p.x % 100 != 0 { w.r41 += 1; }
                if p.y % 100 != 0 { w.r41 += 1; }
                if p.len % 50 != 0 { w.r41 += 1; }
                if p.len < 100 || p.len > 300 { w.infos += 1; }
                if nc(&p.name) && p.pin_type != PinType::NotConnected { w.r47 += 1; }
                if p.pin_visible == (p.pin_type == PinType::NotConnected) { w.r47 += 1; }
                if p.num_size != 50 { w.r48 += 1; }
                if p.name_size != 50 { w.r48 += 1; }
            }
            Draw::Rectangle(ref r) => {
                if r.fill != Fill::FilledBackground { w.r42 += 1; }
                if r.thickness != 10 { w.r42 += 1; }
            }
            _ => (),
        }
    }
    w
}
fn compare(s: &Symbol) {
    let w = want(s);
    let f = Found::of(&s.check(&Config::klc()));
    goal(1);
    check!((f.count(1, 7) > 0) == w.name);
    check!(f.count(4, 1) == w.r41);
    check!(f.count(4, 2) == w.r42);
    check!(f.count(4, 7) == w.r47);
    check!(f.count(4, 8) == w.r48);
    check!(f.count(4, 9) == w.r49);
    check!(f.infos == w.infos);
    check!(f.all == f.count(1, 7) + w.r41 + w.r42 + w.r47 + w.r48 + w.r49 + w.infos);
}
fn good_pin() -> Pin {
    let mut p = Pin::default();
    p.name = "A".into();
    p.number = "1".into();
    p.x = 200;
    p.y = -300;
    p.len = 150;
    p.num_size = 50;
    p.name_size = 50;
    p.pin_visible = true;
    p
}
fn good_field(i: i64) -> Field {
    let mut f = Field::default();
    f.i = i;
    f.value = "v".into();
    f.name = "n".into();
    f.dimension = 50;
    f.visible = i < 2;
    f
}
fn good() -> Symbol {
    let mut s = Symbol::new("LM324".into(), "U".into());
    for i in 0..4 { s.fields.push(good_field(i)); }
    s
}

// a symbol that follows all rules has no finding
harness!(h_c20_good, {
    expect(1);
    let mut s = good();
    s.draw.push(Draw::Pin(good_pin()));
    s.draw.push(Draw::Other("C 0 0 10 0 1 0 N".into()));
    s.draw.push(Draw::Rectangle(Rectangle { x1: any(), y1: any(), x2: any(), y2: any(), unit: any(), convert: any(), thickness: 10, fill: Fill::FilledBackground }));
    goal(1);
    check!(Found::of(&s.check(&Config::klc())).all == 0);
});

// pins at any position, of any length: up to 2^40 (2^20 in the quick tier)
harness!(h_c20_pin_geometry, {
    expect(1);
    let mut s = good();
    let mut p = good_pin();
    let r = if thorough() { 1 << 40 } else { 1 << 20 };
    match pick(3) { 0 => p.x = int(-r, r), 1 => p.y = int(-r, r), _ => p.len = int(-r, r) }
    s.draw.push(Draw::Pin(p));
    compare(&s);
});

// pins at any position and of any length, up to 100000
harness!(h_c20_pin_all, {
    expect(1);
    let mut s = good();
    let mut p = good_pin();
    p.x = int(-100000, 100000);
    p.y = int(-100000, 100000);
    p.len = int(-100000, 100000);
    p.num_size = any();
    p.name_size = any();
    s.draw.push(Draw::Pin(p));
    compare(&s);
});

// pin types, visibility and names of up to 2 characters
harness!(h_c20_pin_types, {
    expect(1);
    let mut s = good();
    let mut p = good_pin();
    p.pin_type = ptype(pick(11));
    p.pin_visible = boolean();
    p.pin_shape = shape(pick(9));
    p.name = string(TEXT, 1, 2);
    s.draw.push(Draw::Pin(p));
    compare(&s);
});

// a pin of any type, place, length and sizes, visible or not, named or not connected
harness!(h_c20_pin_any, {
    expect(1);
    let mut s = good();
    let mut p = good_pin();
    p.pin_type = ptype(pick(11));
    p.pin_visible = boolean();
    p.x = int(-1000, 1000);
    p.y = int(-1000, 1000);
    p.len = int(-1000, 1000);
    p.num_size = int(0, 100);
    p.name_size = int(0, 100);
    p.name = ["A", "NC", "nC", "~", "NCA"][pick(if thorough() { 5 } else { 2 })].into();
    s.draw.push(Draw::Pin(p));
    compare(&s);
});

// names with NC in either case anywhere in them, next to any characters, and names that only have parts of it
harness!(h_c20_pin_nc, {
    expect(2);
    let mut s = good();
    let mut p = good_pin();
    p.pin_type = ptype([0, 10][pick(2)]);
    p.pin_visible = p.pin_type != PinType::NotConnected;
    let mut v = ["", "A", "SY", "N", "~"][pick(5)].as_bytes().to_vec();
    v.push(byte("nNmM"));
    v.push(byte("cCdD_"));
    v.extend_from_slice(["", "1", "C", "_x"][pick(4)].as_bytes());
    if boolean() { v.push(byte_range(33, 126)); }
    p.name = String::from_utf8(v).unwrap();
    if nc(&p.name) { goal(2); }
    s.draw.push(Draw::Pin(p));
    compare(&s);
});

// rectangles of any thickness and fill
harness!(h_c20_rectangle, {
    expect(1);
    let mut s = good();
    s.draw.push(Draw::Rectangle(rect(pick(3))));
    compare(&s);
});

// fields of any number, size and visibility, in normal, power and graphic symbols and those in between
harness!(h_c20_fields, {
    expect(1);
    let mut s = Symbol::new("A".into(), ["U", "#PWR", "#FLG", "#", "PWR"][pick(5)].into());
    for _ in 0..pick(3) { s.draw.push(Draw::Pin(good_pin())); }
    if boolean() { s.draw.push(Draw::Other("P".into())); }
    let mut f = good_field(int(-2, 6));
    f.dimension = any();
    f.visible = boolean();
    if boolean() { f.value = string("#~P v", 0, 2); f.name = string("#~P v", 0, 1); }
    s.fields.push(f);
    if boolean() { s.fields.push(good_field(2)); }
    compare(&s);
});

// references of up to 4 characters
harness!(h_c20_references, {
    expect(1);
    let mut s = good();
    s.reference = string("#PWR", 0, 4);
    for _ in 0..pick(3) { let mut p = good_pin(); p.x = 7; s.draw.push(Draw::Pin(p)); }
    compare(&s);
});

// symbol names of up to 4 characters, two of them any ASCII characters
harness!(h_c20_name, {
    expect(1);
    let mut s = good();
    let mut v = [vec![], vec![b'A'], vec![b'A', b'~'], vec![b'b', b'c']][pick(4)].clone();
    let k = pick(v.len() + 1);
    v.insert(k, byte_range(1, 127));
    if boolean() { v.push(byte_range(1, 127)); }
    s.name = String::from_utf8(v).unwrap();
    compare(&s);
});

// a symbol name with a character outside ASCII
harness!(h_c20_name_utf8, {
    expect(1);
    let mut s = good();
    let v = vec![b'A', byte_range(0xc2, 0xdf), byte_range(0x80, 0xbf)];
    s.name = String::from_utf8(v).unwrap();
    let f = Found::of(&s.check(&Config::klc()));
    goal(1);
    check!(f.count(1, 7) > 0);
    check!(f.all == f.count(1, 7));
});

// several pins and rectangles, each with its findings; power and graphic symbols without
harness!(h_c20_many, {
    expect(1);
    let mut s = good();
    s.reference = ["U", "#PWR", "#LOGO"][pick(3)].into();
    for i in 0..pick(4) {
        match pick(3) {
            0 => { let mut p = good_pin(); p.x = int(0, 300); p.name_size = int(48, 52); p.pin_visible = i == 1; s.draw.push(Draw::Pin(p)); }
            1 => { let mut r = rect(i % 3); r.thickness = int(8, 12); s.draw.push(Draw::Rectangle(r)); }
            _ => s.draw.push(Draw::Other("P 2 0 1 10 0 0".into())),
        }
    }
    compare(&s);
});

// 5, 9, 17, 33 or 67 pins, rectangles and fields, one of each anything at the first, middle or last place
harness!(h_c20_long, {
    expect(1);
    let n = length();
    let k = [0, n / 2, n - 1][pick(3)];
    let which = pick(3);
    let mut s = good();
    s.fields.clear();
    for i in 0..n {
        let mut f = good_field(i as i64);
        if which == 0 && i == k { f.dimension = int(0, 100); f.visible = boolean(); }
        s.fields.push(f);
    }
    for i in 0..n {
        let mut p = good_pin();
        p.number = word(i);
        p.x = 100 * i as i64;
        if which == 1 && i == k { p.x = int(-200, 200); p.len = int(0, 400); p.pin_type = ptype([0, 10][pick(2)]); p.num_size = int(49, 51); }
        s.draw.push(Draw::Pin(p));
        let bad = which == 2 && i == k;
        s.draw.push(Draw::Rectangle(Rectangle { x1: 1, y1: 2, x2: 3, y2: 4, unit: 1, convert: 1, thickness: if bad { int(0, 20) } else { 10 }, fill: if bad { fill(pick(3)) } else { Fill::FilledBackground } }));
    }
    compare(&s);
});
