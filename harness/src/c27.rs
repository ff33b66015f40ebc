//! C27: comparing the parts of footprints.

use crate::gen::*;
use crate::sym::*;
use crate::{check, fp, harness};
use kicad_parse_gen::footprint::*;

fn at_eq(a: &At, b: &At) -> bool { a.x == b.x && a.y == b.y && a.rot == b.rot }
fn pt_eq(a: &Xy, b: &Xy) -> bool { a.x == b.x && a.y == b.y && xy_no(&a.t) == xy_no(&b.t) }
fn xy_no(t: &XyType) -> usize { match *t { XyType::Xy => 0, XyType::Start => 1, XyType::End => 2, XyType::Size => 3, XyType::Center => 4, XyType::RectDelta => 5 } }
fn type_no(t: &LayerType) -> usize {
    match *t {
        LayerType::Cu => 0, LayerType::Paste => 1, LayerType::Mask => 2, LayerType::SilkS => 3, LayerType::User => 4, LayerType::Adhes => 5,
        LayerType::Cuts => 6, LayerType::CrtYd => 7, LayerType::Fab => 8, LayerType::Margin => 9, _ => 10,
    }
}
fn kind_eq(a: &Layer, b: &Layer) -> bool {
    match (&a.t, &b.t) { (LayerType::Other(x), LayerType::Other(y)) => x.as_bytes() == y.as_bytes(), (x, y) => type_no(x) == type_no(y) }
}
fn effects_eq(a: &Effects, b: &Effects) -> bool {
    let j = |x: &Option<Justify>| match *x { None => 0, Some(Justify::Mirror) => 1, Some(Justify::Left) => 2, Some(Justify::Right) => 3 };
    a.font.size.x == b.font.size.x && a.font.size.y == b.font.size.y && a.font.thickness == b.font.thickness && a.font.italic == b.font.italic && j(&a.justify) == j(&b.justify)
}
fn text_eq(a: &FpText, b: &FpText) -> bool {
    for n in ["reference", "value"].iter() { if a.name.as_bytes() == n.as_bytes() && b.name.as_bytes() == n.as_bytes() { return true; } }
    a.name.as_bytes() == b.name.as_bytes() && a.value.as_bytes() == b.value.as_bytes() && at_eq(&a.at, &b.at) && kind_eq(&a.layer, &b.layer) && effects_eq(&a.effects, &b.effects) && a.hide == b.hide
}
fn opt(a: &Option<f64>, b: &Option<f64>) -> bool { match (*a, *b) { (None, None) => true, (Some(x), Some(y)) => x == y, _ => false } }
fn drill_eq(a: &Drill, b: &Drill) -> bool { a.shape == b.shape && a.width == b.width && a.height == b.height && a.offset_x == b.offset_x && a.offset_y == b.offset_y }
fn pad_no(p: &Pad) -> (usize, usize) {
    (match p.t { PadType::Smd => 0, PadType::Pth => 1, PadType::NpPth => 2 }, match p.shape { PadShape::Rect => 0, PadShape::Circle => 1, PadShape::Oval => 2, PadShape::Trapezoid => 3 })
}
fn pad_eq(a: &Pad, b: &Pad) -> bool {
    let mut same = a.layers.layers.len() == b.layers.layers.len();
    for (x, y) in a.layers.layers.iter().zip(b.layers.layers.iter()) { same = same && kind_eq(x, y); }
    same && a.name.as_bytes() == b.name.as_bytes() && pad_no(a) == pad_no(b) && pt_eq(&a.size, &b.size) && at_eq(&a.at, &b.at)
        && match (&a.rect_delta, &b.rect_delta) { (None, None) => true, (Some(x), Some(y)) => pt_eq(x, y), _ => false }
        && a.zone_connect == b.zone_connect
        && match (&a.drill, &b.drill) { (None, None) => true, (Some(x), Some(y)) => drill_eq(x, y), _ => false }
        && opt(&a.solder_paste_margin, &b.solder_paste_margin) && opt(&a.solder_mask_margin, &b.solder_mask_margin) && opt(&a.clearance, &b.clearance) && opt(&a.thermal_gap, &b.thermal_gap)
}

/// what a comparison has to say, in both directions
fn says<T: PartialEq>(a: &T, b: &T, want: bool) {
    check!((a == b) == want);
    check!((b == a) == want);
    check!((a != b) == !want);
    goal(1);
    if want { goal(2) } else { goal(3) }
}

/// equal and different ones both have to be there
fn all() { expect(3); }

// two texts of user, reference or value kind, each with any position, values and layer kind
harness!(h_c27_text, {
    all();
    let (mut ta, mut tb) = (Texts::none(), Texts::none());
    let (mut a, mut b) = (fp::fp_text(&mut ta), fp::fp_text(&mut tb));
    const N: [&str; 4] = ["user", "reference", "value", "Reference"];
    a.name = N[pick(4)].into();
    b.name = N[pick(4)].into();
    a.layer = fp::layer(pick(2), 3);
    if pick(2) == 1 { b.layer = fp::layer(pick(2), 8); }
    if pick(2) == 1 { b.value = "other".into(); }
    says(&a, &b, text_eq(&a, &b));
});

// two user texts whose value and name are any texts of up to two characters
harness!(h_c27_text_values, {
    all();
    let mut a = FpText::new("user".into(), "".into());
    let mut b = FpText::new("user".into(), "".into());
    match pick(2) {
        0 => { a.value = string(TEXT_TAB, 0, 2); b.value = string(TEXT_TAB, 0, 2); }
        _ => { a.name = string(TEXT_TAB, 0, 2); b.name = string(TEXT_TAB, 0, 2); }
    }
    says(&a, &b, text_eq(&a, &b));
});

// a text of any value of 1 to 14 characters, with the name of a reference, a value or any of 1 to 14 characters, against a copy in which exactly one attribute is chosen again
harness!(h_c27_text_one, {
    all();
    let mut t = Texts::none();
    let mut a = fp::fp_text(&mut t);
    let n = pick(17);
    a.name = match n { 0 => "user".into(), 1 => "reference".into(), 2 => "value".into(), n => string_n(TEXT, n - 2) };
    a.value = string_n(TEXT, 1 + (n + 5) % 14);
    let mut b = a.clone();
    match pick(12) {
        0 => b.at.x = float(),
        1 => b.at.y = float(),
        2 => b.at.rot = float(),
        3 => b.effects.font.size.x = float(),
        4 => b.effects.font.size.y = float(),
        5 => b.effects.font.thickness = float(),
        6 => b.effects.font.italic = boolean(),
        7 => b.effects.justify = fp::justify(),
        8 => b.hide = boolean(),
        9 => b.layer.t = fp::ltype(pick(11)),
        10 => b.layer.side = fp::side(pick(11)),
        _ => b.value = string(TEXT, 0, 2),
    }
    says(&a, &b, text_eq(&a, &b));
});

fn full_pad() -> Pad {
    let mut t = Texts::none();
    let mut a = fp::pad(&mut t, 1, 3);
    a.rect_delta = some(|| fp::xy(XyType::RectDelta));
    a.net = some(|| fp::net(&mut Texts::none()));
    a.zone_connect = some(|| int(0, 3));
    a.drill = some(|| { let mut d = fp::drill(); d.shape = None; d });
    a
}

// a pad of any type and shape with any name of 1 to 12 characters against a copy in which exactly one attribute is chosen again, including presence of optional ones
harness!(h_c27_pad_one, {
    all();
    let mut a = full_pad();
    let k = pick(17);
    let ts = pick(12);
    a.t = fp::pad_type(ts % 3);
    a.shape = fp::pad_shape(ts / 3);
    a.name = string_n(TEXT, 1 + ts);
    if ts % 2 == 0 { a.solder_paste_margin = Some(float()); a.solder_mask_margin = Some(float()); a.clearance = Some(float()); a.thermal_gap = Some(float()); }
    if k == 13 { a.solder_paste_margin = some(float); }
    if k == 14 { a.solder_mask_margin = some(float); }
    if k == 15 { a.clearance = some(float); }
    if k == 16 { a.thermal_gap = some(float); }
    let mut b = a.clone();
    match k {
        0 => b.at.x = float(),
        1 => b.at.y = float(),
        2 => b.at.rot = float(),
        3 => b.size.x = float(),
        4 => b.size.y = float(),
        5 => b.rect_delta = some(|| fp::xy(XyType::RectDelta)),
        6 => b.net = some(|| fp::net(&mut Texts::none())),
        7 => b.zone_connect = some(|| int(0, 3)),
        8 => b.drill = some(fp::drill),
        9 => b.t = fp::pad_type(pick(3)),
        10 => b.shape = fp::pad_shape(pick(4)),
        11 => b.name = string(TEXT, 0, 2),
        12 => match pick(4) {
            0 => b.layers.layers[0].side = fp::side(pick(11)),
            1 => b.layers.layers[1].t = fp::ltype(pick(11)),
            2 => b.layers.append(fp::layer(0, 0)),
            _ => { b.layers.layers.pop(); }
        },
        13 => b.solder_paste_margin = some(float),
        14 => b.solder_mask_margin = some(float),
        15 => b.clearance = some(float),
        _ => b.thermal_gap = some(float),
    }
    says(&a, &b, pad_eq(&a, &b));
});

// two pads with independent numbers
harness!(h_c27_pad_two, {
    all();
    let (mut t, mut u) = (Texts::none(), Texts::none());
    let (mut a, mut b) = (fp::pad(&mut t, 0, 0), fp::pad(&mut u, 0, 0));
    a.clearance = Some(float());
    b.clearance = Some(float());
    a.drill = Some(Drill::default());
    b.drill = Some(Drill::default());
    for d in [&mut a.drill, &mut b.drill].iter_mut() { if let Some(ref mut d) = **d { d.width = float(); d.offset_y = float(); } }
    says(&a, &b, pad_eq(&a, &b));
});

// layers: only the kind counts, whatever the side
harness!(h_c27_layer, {
    all();
    let (i, j) = (pick(11), pick(11));
    let (mut a, mut b) = (fp::layer(pick(2), i), fp::layer(pick(11), j));
    if i == 10 && j == 10 {
        a.t = LayerType::Other(string(ALNUM, 1, 2));
        b.t = LayerType::Other(string(ALNUM, 1, 2));
    }
    says(&a, &b, kind_eq(&a, &b));
});

fn line_eq(a: &FpLine, b: &FpLine) -> bool { pt_eq(&a.start, &b.start) && pt_eq(&a.end, &b.end) && a.width == b.width && kind_eq(&a.layer, &b.layer) }
fn circle_eq(a: &FpCircle, b: &FpCircle) -> bool { pt_eq(&a.center, &b.center) && pt_eq(&a.end, &b.end) && a.width == b.width && kind_eq(&a.layer, &b.layer) }
fn arc_eq(a: &FpArc, b: &FpArc) -> bool { pt_eq(&a.start, &b.start) && pt_eq(&a.end, &b.end) && a.angle == b.angle && a.width == b.width && kind_eq(&a.layer, &b.layer) }
fn poly_eq(a: &FpPoly, b: &FpPoly) -> bool {
    let mut same = a.pts.elements.len() == b.pts.elements.len();
    for (x, y) in a.pts.elements.iter().zip(b.pts.elements.iter()) { same = same && pt_eq(x, y); }
    same && a.width == b.width && kind_eq(&a.layer, &b.layer)
}
fn model_eq(a: &Model, b: &Model) -> bool {
    let z = |a: &Xyz, b: &Xyz| a.x == b.x && a.y == b.y && a.z == b.z;
    a.name.as_bytes() == b.name.as_bytes() && z(&a.at, &b.at) && z(&a.scale, &b.scale) && z(&a.rotate, &b.rotate)
}
/// sides differ, kinds may
fn layers() -> (Layer, Layer) { (fp::layer(0, 3), fp::layer(pick(2), 3 + pick(2))) }

// two lines, circles, arcs or polygons of up to two points with any numbers on layers of the same or another kind
harness!(h_c27_drawing, {
    all();
    let (l, m) = layers();
    match pick(4) {
        0 => { let (a, b) = (fp::line(l), fp::line(m)); says(&a, &b, line_eq(&a, &b)); }
        1 => { let (a, b) = (fp::circle(l), fp::circle(m)); says(&a, &b, circle_eq(&a, &b)); }
        2 => { let (a, b) = (fp::arc(l), fp::arc(m)); says(&a, &b, arc_eq(&a, &b)); }
        _ => { let (a, b) = (fp::poly(pick(3), l), fp::poly(pick(3), m)); says(&a, &b, poly_eq(&a, &b)); }
    }
});

// two elements of any two kinds: different kinds are never equal, the same kind compares by its content
harness!(h_c27_element, {
    all();
    let (i, j) = (pick(18), pick(18));
    let (mut t, mut u) = (Texts::none(), Texts::none());
    let (a, b) = (fp::element_light(i, &mut t), fp::element_light(j, &mut u));
    let want = match (&a, &b) {
        (Element::SolderMaskMargin(x), Element::SolderMaskMargin(y)) => x == y,
        (Element::Clearance(x), Element::Clearance(y)) => x == y,
        (Element::TEdit(x), Element::TEdit(y)) => x == y,
        (Element::TStamp(x), Element::TStamp(y)) => x == y,
        (Element::At(x), Element::At(y)) => at_eq(x, y),
        (Element::FpText(x), Element::FpText(y)) => text_eq(x, y),
        (Element::Pad(x), Element::Pad(y)) => pad_eq(x, y),
        (Element::FpPoly(x), Element::FpPoly(y)) => poly_eq(x, y),
        (Element::FpLine(x), Element::FpLine(y)) => line_eq(x, y),
        (Element::FpCircle(x), Element::FpCircle(y)) => circle_eq(x, y),
        (Element::FpArc(x), Element::FpArc(y)) => arc_eq(x, y),
        (Element::Model(x), Element::Model(y)) => model_eq(x, y),
        _ => i == j,
    };
    says(&a, &b, want);
});

// elements that hold one text
harness!(h_c27_element_text, {
    all();
    let (i, j) = (pick(4), pick(4));
    let (x, y) = (string(TEXT_TAB, 0, 2), string(TEXT_TAB, 0, 2));
    let e = |i: usize, s: &String| match i { 0 => Element::Descr(s.clone()), 1 => Element::Tags(s.clone()), 2 => Element::Attr(s.clone()), _ => Element::Path(s.clone()) };
    says(&e(i, &x), &e(j, &y), i == j && x.as_bytes() == y.as_bytes());
});

// pads of 5, 9, 17, 33 or 67 layers, polygons of as many points and texts of up to 70 characters that differ in the first, a middle or the last, or in the number of them
harness!(h_c27_long, {
    all();
    let n = length();
    let k = [0, n / 2, n - 1][pick(3)];
    match pick(4) {
        0 => {
            let mut a = Pad::new("1".into(), PadType::Smd, PadShape::Rect);
            for i in 0..n { a.layers.append(fp::layer(i % 2, i % 10)); }
            let mut b = a.clone();
            match pick(3) { 0 => b.layers.layers[k] = fp::layer(pick(2), pick(11)), 1 => b.layers.append(fp::layer(0, 0)), _ => { b.layers.layers.pop(); } }
            says(&a, &b, pad_eq(&a, &b));
        }
        1 => {
            let mut a = fp::poly(0, fp::layer(0, 3));
            for i in 0..n { a.pts.elements.push(Xy::new(i as f64, 1.0, XyType::Xy)); }
            let mut b = a.clone();
            match pick(4) { 0 => b.pts.elements[k].x = float(), 1 => b.pts.elements[k].y = float(), 2 => b.pts.elements.push(Xy::new(0.0, 0.0, XyType::Xy)), _ => { b.pts.elements.pop(); } }
            says(&a, &b, poly_eq(&a, &b));
        }
        2 => {
            let n = [8, 70][pick(2)];
            let k = [0, n / 2, n - 1][pick(3)];
            let mut t = filled(0, n).into_bytes();
            let x = String::from_utf8(t.clone()).unwrap();
            t[k] = byte(TEXT_TAB);
            if pick(3) == 0 { t.push(b'x'); }
            let y = String::from_utf8(t).unwrap();
            let e = x == y;
            match pick(6) {
                0 => says(&FpText::new("user".into(), x), &FpText::new("user".into(), y), e),
                1 => says(&FpText::new(x, "".into()), &FpText::new(y, "".into()), e),
                2 => says(&Pad::new(x, PadType::Smd, PadShape::Rect), &Pad::new(y, PadType::Smd, PadShape::Rect), e),
                3 => says(&Element::Descr(x), &Element::Descr(y), e),
                4 => says(&Element::Tags(x), &Element::Tags(y), e),
                _ => says(&Element::Path(x), &Element::Path(y), e),
            }
        }
        _ => {
            let (a, b) = (string(ALNUM, 1, 1), string(ALNUM, 1, 1));
            let e = a == b;
            let (mut x, mut y) = (filled_word(1, n), filled_word(1, n));
            x.push_str(&a);
            y.push_str(&b);
            says(&fp_other(x), &fp_other(y), e);
        }
    }
});
fn fp_other(s: String) -> Layer { let mut l = fp::layer(0, 0); l.t = LayerType::Other(s); l }

// names one character away from "reference" or "value": replaced by any printable character, left out, repeated, cut off or added
harness!(h_c27_near, {
    all();
    let w: &[u8] = [&b"reference"[..], b"value"][pick(2)];
    let mut v = w.to_vec();
    let k = pick(w.len());
    match pick(5) {
        0 => v[k] = byte_range(32, 126),
        1 => { v.remove(k); }
        2 => v.insert(k, w[k]),
        3 => v.truncate(k),
        _ => { let c = byte_range(32, 126); if boolean() { v.insert(0, c) } else { v.push(c) } }
    }
    let name = String::from_utf8(v).unwrap();
    let other = if boolean() { name.clone() } else { String::from_utf8(w.to_vec()).unwrap() };
    let a = FpText::new(name, "x".into());
    let b = FpText::new(other, "y".into());
    says(&a, &b, text_eq(&a, &b));
});

// texts of 1 to 14 characters, the second the same or any of that length or one longer
harness!(h_c27_words, {
    all();
    let n = 1 + pick(14);
    let x = string_n(TEXT, n);
    let y = if pick(3) == 0 { format!("{}{}", x, string_n(TEXT, 1)) } else { string_n(TEXT, n) };
    let e = x.as_bytes() == y.as_bytes();
    match pick(10) {
        0 => says(&FpText::new("user".into(), x), &FpText::new("user".into(), y), e),
        1 => says(&FpText::new(x, "v".into()), &FpText::new(y, "v".into()), e),
        2 => { let (a, b) = (FpText::new(x, "v".into()), FpText::new(y, "w".into())); if e && !text_eq(&a, &b) { goal(2) } says(&a, &b, text_eq(&a, &b)); }
        3 => says(&Pad::new(x, PadType::Smd, PadShape::Rect), &Pad::new(y, PadType::Smd, PadShape::Rect), e),
        4 => says(&Element::Descr(x), &Element::Descr(y), e),
        5 => says(&Element::Tags(x), &Element::Tags(y), e),
        6 => says(&Element::Path(x), &Element::Path(y), e),
        7 => says(&Element::Attr(x), &Element::Attr(y), e),
        8 => { let m = |s: String| Model { name: s, at: Xyz::new(0.0, 0.0, 0.0), scale: Xyz::new(1.0, 1.0, 1.0), rotate: Xyz::new(0.0, 0.0, 0.0) }; says(&m(x), &m(y), e); }
        _ => says(&fp_other(x), &fp_other(y), e),
    }
});
