//! C01: footprints survive being written and read back.

use crate::fp::*;
use crate::gen::*;
use crate::harness;
use crate::sym::*;
use kicad_parse_gen::footprint::*;

// every kind of element with any numbers, texts fixed
harness!(h_c01_elements, {
    expect(1);
    let mut t = Texts::none();
    let k = pick(18);
    round_trip(&module_with(element(k, &mut t)));
});

// any text of up to 3 characters in every text position
harness!(h_c01_texts, {
    expect(1);
    let max = if thorough() { 3 } else { 2 };
    let k = pick(9);
    let (n, k) = match k { 0 => (1, 2), 1 => (1, 3), 2 => (1, 4), 3 => (2, 5), 4 => (1, 6), 5 => (1, 13), 6 => (1, 15), 7 => (1, 97), _ => (1, 98) };
    let mut t = Texts::one_of(n, max);
    let mut m = Module::new("M".into());
    match k {
        97 => m.name = t.text(),
        98 => { let mut p = Pad::new("1".into(), PadType::Smd, PadShape::Rect); p.set_net(Net { num: int(i64::MIN, i64::MAX), name: t.text().into() }); m.append(Element::Pad(p)); }
        5 => { let mut x = FpText::new(t.text(), t.text()); x.hide = boolean(); m.append(Element::FpText(x)); }
        k => m.append(element(k, &mut t)),
    }
    round_trip(&m);
});

// a two byte character in a text position
harness!(h_c01_utf8, {
    expect(1);
    let v = vec![byte(TEXT), byte_range(0xc2, 0xdf), byte_range(0x80, 0xbf)];
    let s = String::from_utf8(v).unwrap();
    round_trip(&module_with(Element::Descr(s)));
});

// every combination of the optional parts of a pad
harness!(h_c01_pad_options, {
    expect(1);
    let mut t = Texts::none();
    let mut p = pad(&mut t, 1, 2);
    p.rect_delta = some(|| xy(XyType::RectDelta));
    p.drill = some(|| { let mut d = Drill::default(); d.width = float(); d.height = float(); d });
    p.net = some(|| net(&mut Texts::none()));
    p.zone_connect = some(|| int(i64::MIN, i64::MAX));
    p.solder_paste_margin = some(float);
    p.solder_mask_margin = some(float);
    p.clearance = some(float);
    p.thermal_gap = some(float);
    round_trip(&module_with(Element::Pad(p)));
});

// pad types, shapes and drills
harness!(h_c01_pad_kinds, {
    expect(1);
    let mut t = Texts::none();
    let mut p = pad(&mut t, pick(3), pick(4));
    p.drill = Some(drill());
    round_trip(&module_with(Element::Pad(p)));
});

// every kind and shape of pad with each optional part alone, and with all of them but one
harness!(h_c01_pad_pairs, {
    expect(1);
    let mut t = Texts::none();
    let mut p = pad(&mut t, pick(3), pick(4));
    let (k, alone) = (pick(8), boolean());
    p.net = None;
    if (k == 0) == alone { p.rect_delta = Some(xy(XyType::RectDelta)); }
    if (k == 1) == alone { p.drill = Some(Drill { shape: None, width: float(), height: 1.5, offset_x: 0.0, offset_y: 0.0 }); }
    if (k == 2) == alone { p.net = Some(Net { num: int(i64::MIN, i64::MAX), name: "N".into() }); }
    if (k == 3) == alone { p.zone_connect = Some(int(i64::MIN, i64::MAX)); }
    if (k == 4) == alone { p.solder_paste_margin = Some(float()); }
    if (k == 5) == alone { p.solder_mask_margin = Some(float()); }
    if (k == 6) == alone { p.clearance = Some(float()); }
    if (k == 7) == alone { p.thermal_gap = Some(float()); }
    round_trip(&module_with(Element::Pad(p)));
});

// every layer, as module layer, drawing layer and in a layer list
harness!(h_c01_layers, {
    expect(1);
    let l = layer(pick(11), pick(11));
    let mut m = Module::new("M".into());
    m.append(Element::Layer(l.clone()));
    m.append(Element::FpLine(line(l.clone())));
    let mut p = Pad::new("1".into(), PadType::Smd, PadShape::Rect);
    for _ in 0..pick(3) { p.layers.append(l.clone()); }
    m.append(Element::Pad(p));
    round_trip(&m);
});

// custom layer names
harness!(h_c01_layer_names, {
    expect(1);
    let mut l = Layer::default();
    l.side = side(pick(11));
    // names holding the separator of side and type cannot be told apart
    let s = string("!#$%&'()*+,-/0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~ ", 1, 2);
    assume(s != "Cu");
    l.t = LayerType::Other(s);
    round_trip(&module_with(Element::Layer(l)));
});

// text effects
harness!(h_c01_effects, {
    expect(1);
    let mut x = FpText::new(["reference", "value", "user"][pick(3)].into(), "R1".into());
    x.at = at();
    x.hide = boolean();
    x.layer = layer(pick(2), pick(2));
    x.effects = effects();
    round_trip(&module_with(Element::FpText(x)));
});

// polygons and element lists of several lengths, in any order
harness!(h_c01_lists, {
    expect(1);
    let mut m = Module::new("M".into());
    let n = if thorough() { 3 } else { 2 };
    for _ in 0..pick(n + 1) {
        let mut t = Texts::none();
        let k = pick(18);
        m.append(element_light(k, &mut t));
    }
    m.append(Element::FpPoly(poly(pick(3), layer(0, 3))));
    round_trip(&m);
});

// lists of 5, 9, 17, 33 or 67 parts: points, layers of a pad, pads, texts, drawings
harness!(h_c01_long_lists, {
    expect(1);
    let mut m = Module::new("M".into());
    let n = length();
    match pick(5) {
        0 => m.append(Element::FpPoly(poly(n, layer(0, 3)))),
        1 => { let mut p = Pad::new("1".into(), PadType::Smd, PadShape::Rect); for i in 0..n { p.layers.append(layer(i % 11, (i / 2) % 11)); } m.append(Element::Pad(p)); }
        2 => for i in 0..n { let mut p = Pad::new(word(i), PadType::Pth, PadShape::Rect); p.net = Some(Net { num: int(i64::MIN, i64::MAX), name: word(i / 2).into() }); m.append(Element::Pad(p)); },
        3 => for i in 0..n { let mut x = FpText::new(word(i), word(n - i)); x.at = At::new(float(), float(), 0.0); m.append(Element::FpText(x)); },
        _ => for i in 0..n { m.append(if i % 2 == 0 { Element::FpLine(line(layer(1, 8))) } else { Element::Model(Model { name: word(i), at: xyz(), scale: xyz(), rotate: xyz() }) }); },
    }
    round_trip(&m);
});

// every text of a footprint at once: in turn any word of 1 to 14 characters and any text with a
// parenthesis or blank behind up to 5 characters and up to 9 behind it
harness!(h_c01_words, {
    expect(1);
    let mut t = Texts::all(pick(ROUNDS));
    let mut m = Module::new(t.text());
    m.append(Element::Descr(t.text()));
    m.append(Element::Tags(t.text()));
    m.append(Element::Attr(t.text()));
    m.append(Element::Path(t.text()));
    for i in 0..3 { let mut x = FpText::new(t.text(), t.text()); x.hide = i == 1; x.at = At::new(float(), float(), [0.0, 90.0, 45.0][i]); m.append(Element::FpText(x)); }
    for i in 0..12 {
        let mut p = Pad::new(t.text(), pad_type(i % 3), pad_shape(i % 4));
        if i % 3 != 0 { p.net = Some(Net { num: int(i64::MIN, i64::MAX), name: t.text().into() }); }
        m.append(Element::Pad(p));
    }
    for _ in 0..2 { m.append(Element::Model(model(&mut t))); }
    m.append(Element::At(At::new(float(), float(), 90.0)));
    round_trip(&m);
});

// texts of 20, 70 or 300 characters
harness!(h_c01_long_texts, {
    expect(1);
    let w = long_text([20, 70, 300][pick(3)]);
    let mut m = Module::new("M".into());
    match pick(4) {
        0 => m.name = w,
        1 => m.append(Element::Descr(w)),
        2 => m.append(Element::FpText(FpText::new("reference".into(), w))),
        _ => { let mut p = Pad::new("1".into(), PadType::Smd, PadShape::Rect); p.net = Some(Net { num: 1, name: w.into() }); m.append(Element::Pad(p)); }
    }
    round_trip(&m);
});

/// the same things again: next to each other and apart
fn again<T: Clone>(a: T, b: T) -> Vec<T> { vec![a.clone(), a.clone(), b.clone(), a.clone(), b] }

// equal parts of every kind next to each other and apart: elements, points, layers of a pad
harness!(h_c01_repeats, {
    expect(1);
    let mut m = Module::new("M".into());
    let k = pick(20);
    if k < 18 {
        let mut t = Texts::none();
        let a = element_light(k, &mut t);
        let b = element_light(k, &mut t);
        for e in again(a, b) { m.append(e); }
    } else if k == 18 {
        let mut p = poly(0, layer(0, 3));
        p.pts.elements = again(xy(XyType::Xy), xy(XyType::Xy));
        m.append(Element::FpPoly(p));
    } else {
        let mut p = Pad::new("1".into(), PadType::Smd, PadShape::Rect);
        for l in again(layer(0, 3), layer(1, 3)) { p.layers.append(l); }
        m.append(Element::Pad(p));
    }
    round_trip(&m);
});
