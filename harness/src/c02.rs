//! C02: reading a footprint puts every value where it belongs.

use crate::check;
use crate::fp::*;
use crate::gen::*;
use crate::harness;
use crate::sym::*;
use kicad_parse_gen::footprint::*;

/// the only element of a footprint text
fn only(body: &str) -> Option<Element> {
    let s = format!("(module M {})", body);
    let mut m = match parse(&s) { Ok(m) => m, Err(_) => { check!("reading" == "failed"); return None; } };
    check!(m.name == "M");
    check!(m.elements.len() == 1);
    goal(1);
    m.elements.pop()
}
/// text of a list of numbers
fn nums(name: &str, v: &[f64]) -> String {
    let mut s = format!("({}", name);
    for x in v { s.push(' '); s.push_str(&x.to_string()); }
    s.push(')');
    s
}
fn opt(c: bool, s: String) -> String { if c { s } else { String::new() } }
/// a separator: blank or line break
fn sep() -> &'static str { [" ", "\n  ", "\r\n"][pick(3)] }

fn is_layer(l: &Layer, s: usize, t: usize) { check!(l.side == side(s)); check!(l.t == ltype(t)); }
fn lname(s: usize, t: usize) -> String { format!("{}{}", SIDES[s], TYPES[t]) }

// elements holding one number or one stamp, any value
harness!(h_c02_values, {
    expect(1);
    match pick(5) {
        0 => { let f = float(); if let Some(e) = only(&nums("solder_mask_margin", &[f])) { match e { Element::SolderMaskMargin(x) => check!(x == f), _ => check!(kind(&e) == 0) } } }
        1 => { let f = float(); if let Some(e) = only(&nums("clearance", &[f])) { match e { Element::Clearance(x) => check!(x == f), _ => check!(kind(&e) == 16) } } }
        2 => { let f = int(0, i64::MAX); if let Some(e) = only(&format!("(tedit {:X})", f)) { match e { Element::TEdit(x) => check!(x == f), _ => check!(kind(&e) == 11) } } }
        3 => { let f = int(0, i64::MAX); if let Some(e) = only(&format!("(tstamp {:X})", f)) { match e { Element::TStamp(x) => check!(x == f), _ => check!(kind(&e) == 12) } } }
        _ => { if let Some(e) = only("locked") { check!(kind(&e) == 17); } }
    }
});

// one digit stamps, every digit in both cases
harness!(h_c02_stamp_digits, {
    expect(1);
    let b = byte("0123456789abcdefABCDEF");
    let want = match b { b'0'..=b'9' => b - b'0', b'a'..=b'f' => b - b'a' + 10, _ => b - b'A' + 10 } as i64;
    let c = byte("0123456789ABCDEF");
    let want2 = match c { b'0'..=b'9' => c - b'0', _ => c - b'A' + 10 } as i64;
    let mut s = String::from("(tedit ");
    s.push(b as char);
    s.push(c as char);
    s.push(')');
    if let Some(e) = only(&s) { match e { Element::TEdit(x) => check!(x == want * 16 + want2), _ => check!(kind(&e) == 11) } }
});

// texts of up to 3 characters, quoted, and words of up to 3 characters, bare
harness!(h_c02_texts, {
    expect(1);
    let k = pick(4);
    let quoted = boolean();
    let max = if thorough() { 4 } else { 3 };
    let t = if quoted { string(TEXT_TAB, 0, max) } else { string("!#$%&'*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~", 1, max) };
    let q = if quoted { "\"" } else { "" };
    let n = ["descr", "tags", "attr", "path"][k];
    let s = format!("({} {}{}{})", n, q, t, q);
    if let Some(e) = only(&s) {
        match e {
            Element::Descr(x) => { check!(k == 0); check!(x == t); }
            Element::Tags(x) => { check!(k == 1); check!(x == t); }
            Element::Attr(x) => { check!(k == 2); check!(x == t); }
            Element::Path(x) => { check!(k == 3); check!(x == t); }
            _ => check!(kind(&e) == 2),
        }
    }
});

// the footprint's own name, quoted or bare
harness!(h_c02_name, {
    expect(1);
    let quoted = boolean();
    let t = if quoted { string(TEXT, 0, 3) } else { string("!#$%&'*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~", 1, 3) };
    let q = if quoted { "\"" } else { "" };
    let s = format!("(module {}{}{}{}(descr x))", q, t, q, sep());
    match parse(&s) {
        Ok(m) => { check!(m.name == t); check!(m.elements.len() == 1); goal(1); }
        Err(_) => check!("reading" == "failed"),
    }
});

// positions and 3d models, any numbers
harness!(h_c02_at_model, {
    expect(1);
    let (x, y, r) = (float(), float(), float());
    match pick(3) {
        0 => if let Some(e) = only(&nums("at", &[x, y])) { match e { Element::At(a) => { check!(a.x == x); check!(a.y == y); check!(a.rot == 0.0); } _ => check!(kind(&e) == 14) } },
        1 => if let Some(e) = only(&nums("at", &[x, y, r])) { match e { Element::At(a) => { check!(a.x == x); check!(a.y == y); check!(a.rot == r); } _ => check!(kind(&e) == 14) } },
        _ => {
            let v: Vec<f64> = (0..9).map(|_| float()).collect();
            let z = sep();
            let s = format!("(model \"a b.wrl\"{}(at {}){}(scale {}){}(rotate {}){})", z, nums("xyz", &v[0..3]), z, nums("xyz", &v[3..6]), z, nums("xyz", &v[6..9]), z);
            if let Some(e) = only(&s) {
                match e {
                    Element::Model(m) => {
                        check!(m.name == "a b.wrl");
                        check!(m.at.x == v[0]); check!(m.at.y == v[1]); check!(m.at.z == v[2]);
                        check!(m.scale.x == v[3]); check!(m.scale.y == v[4]); check!(m.scale.z == v[5]);
                        check!(m.rotate.x == v[6]); check!(m.rotate.y == v[7]); check!(m.rotate.z == v[8]);
                    }
                    _ => check!(kind(&e) == 15),
                }
            }
        }
    }
});

// every layer name of the format, wherever a layer is given
harness!(h_c02_layers, {
    expect(1);
    let (s, t) = (pick(11), pick(11));
    let n = lname(s, t);
    match pick(3) {
        0 => if let Some(e) = only(&format!("(layer {})", n)) { match e { Element::Layer(l) => is_layer(&l, s, t), _ => check!(kind(&e) == 1) } },
        1 => if let Some(e) = only(&format!("(fp_line (start 0 0) (end 0 0) (layer {}) (width 1))", n)) { match e { Element::FpLine(l) => is_layer(&l.layer, s, t), _ => check!(kind(&e) == 8) } },
        _ => if let Some(e) = only(&format!("(pad 1 smd rect (at 0 0) (size 0 0) (layers B.Mask {} F.Cu))", n)) {
            match e {
                Element::Pad(p) => {
                    check!(p.layers.layers.len() == 3);
                    is_layer(&p.layers.layers[0], 1, 2);
                    is_layer(&p.layers.layers[1], s, t);
                    is_layer(&p.layers.layers[2], 0, 0);
                }
                _ => check!(kind(&e) == 6),
            }
        },
    }
});

// layer names that are none of the predefined ones are kept whole
harness!(h_c02_layer_names, {
    expect(1);
    let n = string("!#$&'*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz|~", 1, 3);
    // one dot separates a side, handled above
    assume(n.bytes().filter(|b| *b == b'.').count() != 1);
    assume(n != "Cu" && n != "Fab");
    if let Some(e) = only(&format!("(layer {})", n)) {
        match e { Element::Layer(l) => { check!(l.side == LayerSide::None); check!(l.t == LayerType::Other(n)); } _ => check!(kind(&e) == 1) }
    }
});

// lines, circles, arcs and polygons: any numbers, every optional part present or absent
harness!(h_c02_drawings, {
    expect(1);
    let v: Vec<f64> = (0..6).map(|_| float()).collect();
    let (has_layer, has_width) = (boolean(), boolean());
    let z = sep();
    let tail = format!("{}{}{}{}", opt(has_layer, "(layer B.Fab)".into()), z, opt(has_width, nums("width", &v[4..5])), z);
    let w = if has_width { v[4] } else { 0.0 };
    let (ls, lt) = if has_layer { (1, 8) } else { (0, 0) };
    match pick(4) {
        0 => if let Some(e) = only(&format!("(fp_line {}{}{} {})", nums("start", &v[0..2]), z, nums("end", &v[2..4]), tail)) {
            match e {
                Element::FpLine(l) => { check!(l.start.x == v[0]); check!(l.start.y == v[1]); check!(l.end.x == v[2]); check!(l.end.y == v[3]); is_layer(&l.layer, ls, lt); check!(l.width == w); check!(l.start.t == XyType::Start); check!(l.end.t == XyType::End); }
                _ => check!(kind(&e) == 8),
            }
        },
        1 => if let Some(e) = only(&format!("(fp_circle {}{}{} {})", nums("center", &v[0..2]), z, nums("end", &v[2..4]), tail)) {
            match e {
                Element::FpCircle(l) => { check!(l.center.x == v[0]); check!(l.center.y == v[1]); check!(l.end.x == v[2]); check!(l.end.y == v[3]); is_layer(&l.layer, ls, lt); check!(l.width == w); check!(l.center.t == XyType::Center); check!(l.end.t == XyType::End); }
                _ => check!(kind(&e) == 9),
            }
        },
        2 => {
            let has_angle = boolean();
            if let Some(e) = only(&format!("(fp_arc {}{}{} {} {})", nums("start", &v[0..2]), z, nums("end", &v[2..4]), opt(has_angle, nums("angle", &v[5..6])), tail)) {
                match e {
                    Element::FpArc(l) => { check!(l.start.x == v[0]); check!(l.start.y == v[1]); check!(l.end.x == v[2]); check!(l.end.y == v[3]); check!(l.angle == if has_angle { v[5] } else { 0.0 }); is_layer(&l.layer, ls, lt); check!(l.width == w); }
                    _ => check!(kind(&e) == 10),
                }
            }
        }
        _ => {
            let n = pick(4);
            let p: Vec<f64> = (0..2 * n).map(|_| float()).collect();
            let mut s = String::from("(fp_poly (pts");
            for i in 0..n { s.push_str(z); s.push_str(&nums("xy", &p[2 * i..2 * i + 2])); }
            s.push_str(") ");
            s.push_str(&tail);
            s.push(')');
            if let Some(e) = only(&s) {
                match e {
                    Element::FpPoly(l) => {
                        check!(l.pts.elements.len() == n);
                        for i in 0..l.pts.elements.len().min(n) { check!(l.pts.elements[i].x == p[2 * i]); check!(l.pts.elements[i].y == p[2 * i + 1]); check!(l.pts.elements[i].t == XyType::Xy); }
                        is_layer(&l.layer, ls, lt);
                        check!(l.width == w);
                    }
                    _ => check!(kind(&e) == 7),
                }
            }
        }
    }
});

// texts: any numbers, every optional part present or absent
harness!(h_c02_fp_text, {
    expect(1);
    let v: Vec<f64> = (0..6).map(|_| float()).collect();
    let (rot, hide, size, thick, italic) = (boolean(), boolean(), boolean(), boolean(), boolean());
    let j = pick(4);
    let z = sep();
    let at = nums("at", if rot { &v[0..3] } else { &v[0..2] });
    let font = format!("(font {}{}{} {})", opt(size, nums("size", &v[3..5])), z, opt(thick, nums("thickness", &v[5..6])), opt(italic, "italic".into()));
    let name = ["reference", "value", "user"][pick(3)];
    let s = format!("(fp_text {} \"a b\" {} (layer B.SilkS) {}{}(effects {} {}))", name, at, opt(hide, "hide".into()), z, font, ["", "(justify mirror)", "(justify left)", "(justify right)"][j]);
    if let Some(e) = only(&s) {
        match e {
            Element::FpText(t) => {
                check!(t.name == name);
                check!(t.value == "a b");
                check!(t.at.x == v[0]);
                check!(t.at.y == v[1]);
                check!(t.at.rot == if rot { v[2] } else { 0.0 });
                is_layer(&t.layer, 1, 3);
                check!(t.hide == hide);
                check!(t.effects.font.size.x == if size { v[3] } else { 0.0 });
                check!(t.effects.font.size.y == if size { v[4] } else { 0.0 });
                check!(t.effects.font.thickness == if thick { v[5] } else { 0.0 });
                check!(t.effects.font.italic == italic);
                check!(t.effects.justify == [None, Some(Justify::Mirror), Some(Justify::Left), Some(Justify::Right)][j]);
            }
            _ => check!(kind(&e) == 5),
        }
    }
});

// texts of a text item: up to 2 characters, quoted
harness!(h_c02_fp_text_texts, {
    expect(1);
    let a = string(TEXT, 0, 2);
    let b = string(TEXT, 0, 2);
    if let Some(e) = only(&format!("(fp_text \"{}\" \"{}\" (at 1 2) (layer F.Fab))", a, b)) {
        match e {
            Element::FpText(t) => { check!(t.name == a); check!(t.value == b); check!(!t.hide); is_layer(&t.layer, 0, 8); }
            _ => check!(kind(&e) == 5),
        }
    }
});

// pads: every type and shape, drills with every choice of parts, any numbers
harness!(h_c02_pads, {
    expect(1);
    let v: Vec<f64> = (0..7).map(|_| float()).collect();
    let (rot, delta) = (boolean(), boolean());
    let (ty, sh) = (pick(3), pick(4));
    let z = sep();
    let s = format!("(pad A{} {} {} {} {}{}{}{}(layers F.Cu *.Mask))", 7, ["smd", "thru_hole", "np_thru_hole"][ty], ["rect", "circle", "oval", "trapezoid"][sh],
        nums("at", if rot { &v[0..3] } else { &v[0..2] }), z, nums("size", &v[3..5]), opt(delta, nums("rect_delta", &v[5..7])), z);
    if let Some(e) = only(&s) {
        match e {
            Element::Pad(p) => {
                check!(p.name == "A7");
                check!(p.t == pad_type(ty));
                check!(p.shape == pad_shape(sh));
                check!(p.at.x == v[0]);
                check!(p.at.y == v[1]);
                check!(p.at.rot == if rot { v[2] } else { 0.0 });
                check!(p.size.x == v[3]);
                check!(p.size.y == v[4]);
                check!(p.size.t == XyType::Size);
                match p.rect_delta { Some(ref d) => { check!(delta); check!(d.x == v[5]); check!(d.y == v[6]); } None => check!(!delta) }
                check!(p.drill.is_none());
                check!(p.layers.layers.len() == 2);
                is_layer(&p.layers.layers[0], 0, 0);
                is_layer(&p.layers.layers[1], 7, 2);
                check!(p.net.is_none() && p.zone_connect.is_none() && p.clearance.is_none() && p.thermal_gap.is_none() && p.solder_mask_margin.is_none() && p.solder_paste_margin.is_none());
            }
            _ => check!(kind(&e) == 6),
        }
    }
});

// drills with every choice of parts, any numbers
harness!(h_c02_drill, {
    expect(1);
    let v: Vec<f64> = (0..4).map(|_| float()).collect();
    let (oval, width, offset) = (boolean(), boolean(), boolean());
    let height = width && boolean();
    let s = format!("(pad \"\" thru_hole oval (at 1 2) (size 3 4) (drill {} {} {} {}) (layers *.Cu))", opt(oval, "oval".into()), opt(width, v[0].to_string()), opt(height, v[1].to_string()), opt(offset, nums("offset", &v[2..4])));
    if let Some(e) = only(&s) {
        match e {
            Element::Pad(p) => {
                check!(p.name == "");
                check!(p.at.x == 1.0 && p.at.y == 2.0 && p.size.x == 3.0 && p.size.y == 4.0);
                match p.drill {
                    Some(d) => {
                        check!(d.shape == if oval { Some("oval".to_string()) } else { None });
                        check!(d.width == if width { v[0] } else { 0.0 });
                        check!(d.height == if height { v[1] } else if width { v[0] } else { 0.0 });
                        check!(d.offset_x == if offset { v[2] } else { 0.0 });
                        check!(d.offset_y == if offset { v[3] } else { 0.0 });
                    }
                    None => check!("drill" == "present"),
                }
            }
            _ => check!(kind(&e) == 6),
        }
    }
});

// optional pad attributes: every subset, in two orders, any values
harness!(h_c02_pad_attributes, {
    expect(1);
    let has: Vec<bool> = (0..6).map(|_| pick(2) == 0).collect();
    let (num, zone) = (int(i64::MIN, i64::MAX), int(i64::MIN, i64::MAX));
    let v: Vec<f64> = (0..4).map(|_| float()).collect();
    let mut parts = vec![format!("(net {} \"GND (a)\")", num), format!("(zone_connect {})", zone), nums("solder_paste_margin", &v[0..1]), nums("solder_mask_margin", &v[1..2]), nums("clearance", &v[2..3]), nums("thermal_gap", &v[3..4])];
    for i in 0..6 { if !has[i] { parts[i].clear(); } }
    // a cyclic shift, possibly mirrored
    let r = pick(6);
    parts.rotate_left(r);
    if pick(2) == 0 { parts.reverse(); }
    let mut s = String::from("(pad 1 smd rect (at 1 2) (size 3 4) (layers F.Cu)");
    for p in &parts { s.push(' '); s.push_str(p); }
    s.push(')');
    if let Some(e) = only(&s) {
        match e {
            Element::Pad(p) => {
                match p.net { Some(ref n) => { check!(has[0]); check!(n.num == num); check!(n.name.0 == "GND (a)"); } None => check!(!has[0]) }
                check!(p.zone_connect == if has[1] { Some(zone) } else { None });
                check!(p.solder_paste_margin == if has[2] { Some(v[0]) } else { None });
                check!(p.solder_mask_margin == if has[3] { Some(v[1]) } else { None });
                check!(p.clearance == if has[4] { Some(v[2]) } else { None });
                check!(p.thermal_gap == if has[5] { Some(v[3]) } else { None });
            }
            _ => check!(kind(&e) == 6),
        }
    }
});

// names of pads and nets: up to 2 characters, quoted
harness!(h_c02_pad_texts, {
    expect(1);
    let a = string(TEXT, 0, 2);
    let b = string(TEXT, 0, 2);
    if let Some(e) = only(&format!("(pad \"{}\" smd rect (at 1 2) (size 3 4) (layers F.Cu) (net 5 \"{}\"))", a, b)) {
        match e {
            Element::Pad(p) => { check!(p.name == a); match p.net { Some(ref n) => { check!(n.num == 5); check!(n.name.0 == b); } None => check!("net" == "present") } }
            _ => check!(kind(&e) == 6),
        }
    }
});

const ITEMS: [(&str, u32); 18] = [("(solder_mask_margin 1)", 0), ("(layer F.Cu)", 1), ("(descr d)", 2), ("(tags t)", 3), ("(attr smd)", 4), ("(fp_text user a (at 0 0) (layer F.Fab))", 5),
    ("(pad 1 smd rect (at 0 0) (size 1 1) (layers F.Cu))", 6), ("(fp_poly (pts (xy 0 0)) (layer F.Cu) (width 1))", 7), ("(fp_line (start 0 0) (end 1 1) (layer F.Cu) (width 1))", 8),
    ("(fp_circle (center 0 0) (end 1 1) (layer F.Cu) (width 1))", 9), ("(fp_arc (start 0 0) (end 1 1) (angle 90) (layer F.Cu) (width 1))", 10), ("(tedit 5A)", 11), ("(tstamp 5B)", 12), ("(path /1/2)", 13),
    ("(at 1 2)", 14), ("(model m (at (xyz 0 0 0)) (scale (xyz 1 1 1)) (rotate (xyz 0 0 0)))", 15), ("(clearance 2)", 16), ("locked", 17)];

// lists of up to 3 elements of any kinds keep length and order
harness!(h_c02_order, {
    expect(1);
    let n = if thorough() { 4 } else { 3 };
    let n = pick(n + 1);
    let mut s = String::from("(module M");
    let mut want = vec![];
    for _ in 0..n { let (t, k) = ITEMS[pick(18)]; s.push(' '); s.push_str(t); want.push(k); }
    s.push_str(")\n");
    match parse(&s) {
        Ok(m) => {
            check!(m.elements.len() == n);
            for (e, k) in m.elements.iter().zip(want.iter()) { check!(kind(e) == *k); }
            goal(1);
        }
        Err(_) => check!("reading" == "failed"),
    }
});

// reading lists of 5, 9, 17, 33 or 67 parts: points, layers of a pad, pads, texts
harness!(h_c02_long_lists, {
    expect(1);
    let n = length();
    let v: Vec<f64> = (0..n).map(|_| float()).collect();
    let mut b = String::new();
    match pick(4) {
        0 => {
            for i in 0..n { b.push_str(&nums("xy", &[v[i], v[n - 1 - i]])); b.push_str(if i % 4 == 3 { "\n" } else { " " }); }
            if let Some(e) = only(&format!("(fp_poly (pts {}) (layer F.SilkS) (width 0.15))", b)) {
                match e {
                    Element::FpPoly(p) => {
                        check!(p.pts.elements.len() == n);
                        for (i, q) in p.pts.elements.iter().enumerate() { check!(q.x == v[i]); check!(q.y == v[n - 1 - i]); }
                    }
                    e => check!(kind(&e) == 7),
                }
            }
        }
        1 => {
            for i in 0..n { b.push(' '); b.push_str(&lname(i % 11, i % 9)); }
            if let Some(e) = only(&format!("(pad 1 smd rect (at 0 0) (size 1 1) (layers{}))", b)) {
                match e {
                    Element::Pad(p) => {
                        check!(p.layers.layers.len() == n);
                        for (i, l) in p.layers.layers.iter().enumerate() { is_layer(l, i % 11, i % 9); }
                    }
                    e => check!(kind(&e) == 6),
                }
            }
        }
        k => {
            for i in 0..n {
                if k == 2 { b.push_str(&format!("(pad {} thru_hole circle {} (size 1 1) (layers *.Cu) (net {} N{}))\n", word(i), nums("at", &[v[i], 1.0]), i + 1, i)); }
                else { b.push_str(&format!("(fp_text user {} {} (layer F.SilkS))\n", word(i), nums("at", &[1.0, v[i]]))); }
            }
            match parse(&format!("(module M {})", b)) {
                Ok(m) => {
                    goal(1);
                    check!(m.elements.len() == n);
                    for (i, e) in m.elements.iter().enumerate() {
                        match *e {
                            Element::Pad(ref p) => { check!(k == 2); check!(p.name == word(i)); check!(p.at.x == v[i]); check!(p.net.as_ref().map_or(false, |x| x.num == i as i64 + 1)); }
                            Element::FpText(ref t) => { check!(k == 3); check!(t.value == word(i)); check!(t.at.y == v[i]); }
                            _ => check!(kind(e) == 6),
                        }
                    }
                }
                Err(_) => check!("reading" == "failed"),
            }
        }
    }
});

// names of pad kinds, pad shapes and layer sides with any one character replaced: only the names themselves are known
harness!(h_c02_kind_words, {
    expect(2);
    const T: [&str; 3] = ["smd", "thru_hole", "np_thru_hole"];
    const S: [&str; 4] = ["rect", "circle", "oval", "trapezoid"];
    let what = pick(3);
    let i = pick(if what == 0 { 3 } else if what == 1 { 4 } else { 10 });
    let name = if what == 0 { T[i] } else if what == 1 { S[i] } else { &SIDES[i][..SIDES[i].len() - 1] };
    let mut b = name.as_bytes().to_vec();
    let k = pick(b.len());
    b[k] = byte(ALNUM);
    let s = unsafe { String::from_utf8_unchecked(b) };
    let same = s.as_bytes() == name.as_bytes();
    let known = |l: &[&str]| { let mut r = None; for (n, x) in l.iter().enumerate() { if x.as_bytes() == s.as_bytes() { r = Some(n); } } r };
    goal(if same { 1 } else { 2 });
    match what {
        0 => match PadType::from_string(&s) { Ok(t) => check!(same && t == pad_type(i)), Err(_) => check!(!same) },
        1 => match PadShape::from_string(&s) { Ok(t) => check!(same && t == pad_shape(i)), Err(_) => check!(!same) },
        _ => {
            let sides: Vec<&str> = (0..10).map(|i| &SIDES[i][..SIDES[i].len() - 1]).collect();
            match (Layer::from_string(&format!("{}.Fab", s)), known(&sides)) {
                (Ok(l), Some(n)) => is_layer(&l, n, 8),
                (r, n) => check!(r.is_err() && n.is_none()),
            }
        }
    }
});

// every text of a footprint at once: in turn any word of 1 to 14 characters, quoted or bare, and any text with a
// parenthesis or blank behind up to 5 characters and up to 9 behind it
harness!(h_c02_all_texts, {
    expect(1);
    let (t, q) = sym_texts(pick(ROUNDS), 28, boolean());
    let mut s = format!("(module {} (layer F.Cu) (descr {}) (tags {}) (attr {}) (path {})\n", q[0], q[1], q[2], q[3], q[4]);
    for i in 0..3 { s.push_str(&format!("  (fp_text {} {} (at 1 2) (layer F.SilkS){}\n (effects (font (size 1 2) (thickness 3))))\n", q[5 + 2 * i], q[6 + 2 * i], ["", " hide", ""][i])); }
    for i in 0..7 { s.push_str(&format!("  (pad {} {} {} (at 1 2) (size 3 4) (layers F.Cu) (net 1 {}))\n", q[11 + 2 * i], ["smd", "thru_hole", "np_thru_hole"][i % 3], ["rect", "circle", "oval", "trapezoid"][i % 4], q[12 + 2 * i])); }
    for i in 0..2 { s.push_str(&format!("  (model {} (at (xyz 1 2 3)) (scale (xyz 1 1 1)) (rotate (xyz 0 0 0)))\n", q[25 + i])); }
    s.push_str(")\n");
    match parse(&s) {
        Ok(m) => {
            goal(1);
            check!(m.name == t[0]);
            check!(m.elements.len() == 17);
            for (i, e) in m.elements.iter().enumerate() {
                match *e {
                    Element::Layer(_) => check!(i == 0),
                    Element::Descr(ref x) => { check!(i == 1); check!(*x == t[1]); }
                    Element::Tags(ref x) => { check!(i == 2); check!(*x == t[2]); }
                    Element::Attr(ref x) => { check!(i == 3); check!(*x == t[3]); }
                    Element::Path(ref x) => { check!(i == 4); check!(*x == t[4]); }
                    Element::FpText(ref x) => { check!(i >= 5 && i < 8); check!(x.name == t[2 * i - 5]); check!(x.value == t[2 * i - 4]); check!(x.hide == (i == 6)); check!(x.effects.font.thickness == 3.0); }
                    Element::Pad(ref p) => { check!(i >= 8 && i < 15); check!(p.name == t[2 * i - 5]); check!(p.t == pad_type((i - 8) % 3)); check!(p.shape == pad_shape((i - 8) % 4)); match p.net { Some(ref n) => { check!(n.num == 1); check!(n.name.0 == t[2 * i - 4]); } None => check!("net" == "read") } }
                    Element::Model(ref x) => { check!(i >= 15); check!(x.name == t[i + 10]); check!(x.at.z == 3.0); }
                    _ => check!("element" == "understood"),
                }
            }
        }
        Err(_) => check!("reading" == "failed"),
    }
});

// equal parts of every kind next to each other and apart: elements, points, layers of a pad, unknown numbers in them
harness!(h_c02_repeats, {
    expect(1);
    const ORDER: [usize; 5] = [0, 0, 1, 0, 1];
    let all = |f: &dyn Fn(usize) -> String| -> String { ORDER.iter().map(|i| f(*i)).collect() };
    let v = float();
    let pts = all(&|i| nums("xy", &[v, i as f64]));
    let b = format!("{}{}{}", all(&|i| format!("(fp_text user a {} (layer F.SilkS))", nums("at", &[v, i as f64]))),
        all(&|i| format!("(pad 1 smd rect {} (size 1 1) (layers{}))\n", nums("at", &[v, i as f64]), all(&|i| format!(" {}", ["F.Cu", "B.Cu"][i])))),
        all(&|i| format!("(fp_poly (pts {}) (layer F.SilkS) (width {}))\n", pts, i)));
    match parse(&format!("(module M {})", b)) {
        Ok(m) => {
            goal(1);
            check!(m.elements.len() == 15);
            for (i, e) in m.elements.iter().enumerate() {
                let n = ORDER[i % 5];
                match *e {
                    Element::FpText(ref t) => { check!(i < 5); check!(t.at.x == v); check!(t.at.y == n as f64); }
                    Element::Pad(ref p) => {
                        check!(i / 5 == 1);
                        check!(p.at.x == v);
                        check!(p.at.y == n as f64);
                        check!(p.layers.layers.len() == 5);
                        for (i, l) in p.layers.layers.iter().enumerate() { check!(l.side == if ORDER[i % 5] == 0 { LayerSide::Front } else { LayerSide::Back }); }
                    }
                    Element::FpPoly(ref p) => {
                        check!(i / 5 == 2);
                        check!(p.width == n as f64);
                        check!(p.pts.elements.len() == 5);
                        for (i, q) in p.pts.elements.iter().enumerate() { check!(q.x == v); check!(q.y == ORDER[i % 5] as f64); }
                    }
                    _ => check!(kind(e) == 6),
                }
            }
        }
        Err(_) => check!("reading" == "failed"),
    }
});
