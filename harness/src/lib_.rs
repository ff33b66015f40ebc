//! Symbol library builders and comparators.

use crate::check;
use crate::sch::{any, justify, justify_no, orientation, orientation_no};
use crate::sym::*;
use kicad_parse_gen::symbol_lib::*;

pub fn orient(i: usize) -> PinOrientation { [PinOrientation::Up, PinOrientation::Down, PinOrientation::Left, PinOrientation::Right][i].clone() }
pub const ORIENT: [&str; 4] = ["U", "D", "L", "R"];
pub fn ptype(i: usize) -> PinType {
    [PinType::Input, PinType::Output, PinType::Bidi, PinType::Tristate, PinType::Passive, PinType::Unspecified, PinType::PowerInput, PinType::PowerOutput, PinType::OpenCollector, PinType::OpenEmitter, PinType::NotConnected][i].clone()
}
pub const PTYPE: [&str; 11] = ["I", "O", "B", "T", "P", "U", "W", "w", "C", "E", "N"];
pub fn shape(i: usize) -> PinShape {
    [PinShape::Line, PinShape::Inverted, PinShape::Clock, PinShape::InvertedClock, PinShape::InputLow, PinShape::ClockLow, PinShape::OutputLow, PinShape::FallingEdgeClock, PinShape::NonLogic][i].clone()
}
pub const SHAPE: [&str; 9] = ["", "I", "C", "CI", "L", "CL", "V", "F", "X"];
pub fn fill(i: usize) -> Fill { [Fill::FilledForeground, Fill::FilledBackground, Fill::Transparent][i].clone() }
pub const FILL: [&str; 3] = ["F", "f", "N"];

pub fn field(i: i64, name: String, value: String) -> Field {
    let mut f = Field::default();
    f.i = i;
    f.name = name;
    f.value = value;
    f.x = float();
    f.y = float();
    f.dimension = any();
    f
}
pub fn field_flags(f: &mut Field) {
    f.orientation = orientation(pick(2));
    f.visible = boolean();
    f.hjustify = justify(pick(5));
    f.vjustify = justify(pick(5));
    f.italic = boolean();
    f.bold = boolean();
}
/// a symbol with its first two fields
pub fn symbol() -> Symbol {
    let mut s = Symbol::new("R".into(), "R".into());
    s.fields.push(field(0, "Reference".into(), "R".into()));
    s.fields.push(field(1, "Value".into(), "R 1".into()));
    s
}
pub fn pin() -> Pin {
    let mut p = Pin::default();
    p.name = "A".into();
    p.number = "1".into();
    p.x = any();
    p.y = any();
    p.len = any();
    p.num_size = any();
    p.name_size = any();
    p.unit = any();
    p.convert = any();
    p.pin_visible = true;
    p
}
pub fn rect(f: usize) -> Rectangle { Rectangle { x1: any(), y1: any(), x2: any(), y2: any(), unit: any(), convert: any(), thickness: any(), fill: fill(f) } }

pub fn same_field(a: &Field, b: &Field) {
    check!(a.i == b.i);
    check!(a.value == b.value);
    check!(a.x == b.x);
    check!(a.y == b.y);
    check!(a.dimension == b.dimension);
    check!(orientation_no(&a.orientation) == orientation_no(&b.orientation));
    check!(a.visible == b.visible);
    check!(justify_no(&a.hjustify) == justify_no(&b.hjustify));
    check!(justify_no(&a.vjustify) == justify_no(&b.vjustify));
    check!(a.italic == b.italic);
    check!(a.bold == b.bold);
    check!(a.name == b.name);
}
pub fn same_pin(a: &Pin, b: &Pin) {
    check!(a.name == b.name);
    check!(a.number == b.number);
    check!(a.x == b.x);
    check!(a.y == b.y);
    check!(a.len == b.len);
    check!(a.orientation == b.orientation);
    check!(a.num_size == b.num_size);
    check!(a.name_size == b.name_size);
    check!(a.unit == b.unit);
    check!(a.convert == b.convert);
    check!(a.pin_type == b.pin_type);
    check!(a.pin_visible == b.pin_visible);
    check!(a.pin_shape == b.pin_shape);
}
pub fn same_rect(a: &Rectangle, b: &Rectangle) {
    check!(a.x1 == b.x1);
    check!(a.y1 == b.y1);
    check!(a.x2 == b.x2);
    check!(a.y2 == b.y2);
    check!(a.unit == b.unit);
    check!(a.convert == b.convert);
    check!(a.thickness == b.thickness);
    check!(a.fill == b.fill);
}
pub fn kind(d: &Draw) -> u32 {
    match *d {
        Draw::Pin(_) => 0, Draw::Rectangle(_) => 1, Draw::Other(_) => 2,
        #[allow(unreachable_patterns)]
        _ => 99,
    }
}
pub fn same_symbol(a: &Symbol, b: &Symbol) {
    check!(a.name == b.name);
    check!(a.reference == b.reference);
    check!(a.text_offset == b.text_offset);
    check!(a.draw_pinnumber == b.draw_pinnumber);
    check!(a.draw_pinname == b.draw_pinname);
    check!(a.unit_count == b.unit_count);
    check!(a.unit_locked == b.unit_locked);
    check!(a.is_power == b.is_power);
    check!(a.fields.len() == b.fields.len());
    for (x, y) in a.fields.iter().zip(b.fields.iter()) { same_field(x, y); }
    check!(a.aliases == b.aliases);
    check!(a.draw.len() == b.draw.len());
    for (x, y) in a.draw.iter().zip(b.draw.iter()) {
        match (x, y) {
            (Draw::Pin(p), Draw::Pin(q)) => same_pin(p, q),
            (Draw::Rectangle(p), Draw::Rectangle(q)) => same_rect(p, q),
            (Draw::Other(p), Draw::Other(q)) => check!(p == q),
            _ => check!(kind(x) == kind(y)),
        }
    }
}
pub fn same_lib(a: &SymbolLib, b: &SymbolLib) {
    check!(a.symbols.len() == b.symbols.len());
    for (x, y) in a.symbols.iter().zip(b.symbols.iter()) { same_symbol(x, y); }
}
pub fn round_trip(a: &SymbolLib) {
    let s = a.to_string();
    let b = match parse_str(&s) { Ok(b) => b, Err(_) => { check!("read back" == "failed"); return; } };
    same_lib(a, &b);
    goal(1);
}
pub fn with(s: Symbol) -> SymbolLib { SymbolLib { symbols: vec![s] } }
