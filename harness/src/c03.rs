//! C03: layouts survive being written and read back.

use crate::fp;
use crate::gen::*;
use crate::harness;
use crate::lay::*;
use crate::sym::*;
use kicad_parse_gen::footprint;
use kicad_parse_gen::layout::*;
use kicad_parse_gen::Sexp;

// every kind of element with any numbers and optional parts, texts fixed
harness!(h_c03_elements, {
    expect(1);
    round_trip(&layout_with(element(pick(11), &mut Texts::none())));
});

// the sections before the elements: any numbers, up to 2 layers and 2 setup entries
harness!(h_c03_head, {
    expect(1);
    let mut l = Layout::default();
    l.version = any_int();
    l.general.links = any_int();
    l.general.no_connects = any_int();
    l.general.area.x1 = float();
    l.general.area.y1 = float();
    l.general.area.x2 = float();
    l.general.area.y2 = float();
    l.general.thickness = float();
    l.general.drawings = any_int();
    l.general.tracks = any_int();
    l.general.zones = any_int();
    l.general.modules = any_int();
    l.general.nets = any_int();
    for i in 0..pick(3) { l.layers.push(Layer { num: any_int(), layer: fp::layer(i, 0), layer_type: layer_type(0), hide: boolean() }); }
    for i in 0..pick(3) { l.setup.elements.push(SetupElement { name: ["trace_min", "grid"][i].into(), value1: "0.2".into(), value2: some(|| "x y".to_string()) }); }
    for i in 0..pick(3) { l.setup.pcbplotparams.push(SetupElement { name: ["layerselection", "scale"][i].into(), value1: "".into(), value2: some(|| "7".to_string()) }); }
    round_trip(&l);
});

// the layer table: every layer and type
harness!(h_c03_layer_table, {
    expect(1);
    let mut l = Layout::default();
    l.layers.push(Layer { num: any_int(), layer: fp::layer(pick(11), pick(11)), layer_type: layer_type(pick(5)), hide: boolean() });
    round_trip(&l);
});

// any text of up to 2 characters in every text position of the head
harness!(h_c03_head_texts, {
    expect(1);
    let mut t = Texts::one_of(9, if thorough() { 3 } else { 2 });
    let mut l = Layout::default();
    l.host.tool = t.text();
    l.host.build = t.text();
    l.page = t.text();
    let e = SetupElement { name: "a".into(), value1: t.text(), value2: Some(t.text()) };
    l.setup.elements.push(e);
    let e = SetupElement { name: "b".into(), value1: t.text(), value2: Some(t.text()) };
    l.setup.pcbplotparams.push(e);
    let e = SetupElement { name: t.text(), value1: "1".into(), value2: None };
    if e.name != "pcbplotparams" { l.setup.elements.push(e); }
    let e = SetupElement { name: t.text(), value1: "1".into(), value2: None };
    l.setup.pcbplotparams.push(e);
    round_trip(&l);
});

// any text of up to 2 characters in every text position of the elements
harness!(h_c03_texts, {
    expect(1);
    let max = if thorough() { 3 } else { 2 };
    let mut l = Layout::default();
    match pick(9) {
        0 => { let mut t = Texts::one_of(2, max); l.elements.push(Element::Module(module(&mut t))); }
        1 => l.elements.push(Element::Net(net(&mut Texts::one_of(1, max)))),
        2 => { let mut t = Texts::one_of(3, max); l.elements.push(Element::NetClass(NetClass { name: t.text(), desc: t.text(), clearance: 1.0, trace_width: 1.0, via_dia: 1.0, via_drill: 1.0, uvia_dia: 1.0, uvia_drill: 1.0, diff_pair_gap: None, diff_pair_width: None, nets: vec![t.text().into(), "G".into()] })); }
        3 => { let mut t = Texts::one_of(2, max); let mut x = GrText::default(); x.value = t.text(); x.tstamp = Some(t.text()); l.elements.push(Element::GrText(x)); }
        4 => { let mut t = Texts::one_of(3, max); let mut x = Dimension::default(); x.name = t.text(); x.text.value = t.text(); x.tstamp = Some(t.text()); l.elements.push(Element::Dimension(x)); }
        5 => { let mut t = Texts::one_of(2, max); let mut s = Segment::default(); s.start.t = footprint::XyType::Start; s.end.t = footprint::XyType::End; s.tstamp = Some(t.text()); s.status = Some(t.text()); l.elements.push(Element::Segment(s)); }
        6 => { let mut t = Texts::one_of(5, max); let mut z = zone(&mut t); z.connect_pads.connection = Some(t.text()); z.fill.smoothing = Some(t.text()); l.elements.push(Element::Zone(z)); }
        7 => { let mut t = Texts::one_of(2, max); let mut x = GrLine::default(); x.start.t = footprint::XyType::Start; x.end.t = footprint::XyType::End; x.tstamp = Some(t.text()); l.elements.push(Element::GrLine(x.clone())); let mut a = GrArc::default(); a.start.t = footprint::XyType::Start; a.end.t = footprint::XyType::End; a.tstamp = Some(t.text()); l.elements.push(Element::GrArc(a)); }
        _ => { let mut t = Texts::one_of(2, max); let mut x = GrCircle::default(); x.center.t = footprint::XyType::Center; x.end.t = footprint::XyType::End; x.tstamp = Some(t.text()); l.elements.push(Element::GrCircle(x)); l.elements.push(Element::Other(Sexp::List(vec![Sexp::String("target".into()), Sexp::String(t.text())]))); }
    }
    round_trip(&l);
});

// zones: every combination of optional parts, any numbers
harness!(h_c03_zone, {
    expect(1);
    let mut z = zone(&mut Texts::none());
    z.priority = int(0, i64::MAX) as u64;
    z.connect_pads.connection = some(|| ["no", "thru_hole_only"][pick(2)].to_string());
    z.keepout = some(|| { let mut k = Keepout::default(); k.tracks = boolean(); k.vias = boolean(); k.copperpour = boolean(); k });
    round_trip(&layout_with(Element::Zone(z)));
});

// zone fill: every combination of optional parts, any numbers
harness!(h_c03_zone_fill, {
    expect(1);
    let mut z = zone(&mut Texts::none());
    z.fill = fill();
    z.fill.smoothing = some(|| "fillet".to_string());
    z.fill.corner_radius = float();
    round_trip(&layout_with(Element::Zone(z)));
});

// zone outlines: up to 2 polygons of up to 2 points, fills and unrecognised parts
harness!(h_c03_zone_polygons, {
    expect(1);
    let mut z = zone(&mut Texts::none());
    for _ in 0..pick(3) { z.polygons.push(pts(pick(3))); }
    for _ in 0..pick(2) { z.filled_polygons.push(pts(pick(3))); }
    z.fill_segments = some(|| pts(pick(3)));
    for i in 0..pick(4) {
        let mut v = vec![Sexp::String("hatch2".into()), Sexp::String("a b".into())];
        v.truncate([2, 1, 0][i]);
        z.other.push(Sexp::List(v));
    }
    round_trip(&layout_with(Element::Zone(z)));
});

// polygons long enough for every line breaking rule: up to 12 points
harness!(h_c03_long_polygon, {
    expect(1);
    let mut z = zone(&mut Texts::none());
    z.polygons.push(pts(pick(13)));
    z.filled_polygons.push(pts(1 + pick(2)));
    round_trip(&layout_with(Element::Zone(z)));
});

// modules inside a layout, every kind of footprint element
harness!(h_c03_modules, {
    expect(1);
    let mut m = footprint::Module::new("M".into());
    m.append(fp::element_light(pick(18), &mut Texts::none()));
    m.append(footprint::Element::Locked);
    let mut l = layout_with(Element::Module(m));
    if pick(2) == 0 { l.elements.push(element_fixed(0)); }
    round_trip(&l);
});

// up to 2 elements of any kinds in any order
harness!(h_c03_lists, {
    expect(1);
    let mut l = Layout::default();
    let n = if thorough() { 3 } else { 2 };
    for _ in 0..pick(n + 1) { l.elements.push(element_fixed(pick(12))); }
    round_trip(&l);
});

// unrecognised sections: trees of depth 3, one text with any up to 2 characters
harness!(h_c03_other, {
    expect(1);
    let mut t = Texts::one_of(3, 2);
    let mut v = vec![Sexp::String("target".into())];
    for _ in 0..pick(3) { v.push(tree(2, &mut t)); }
    assume(t.used());
    round_trip(&layout_with(Element::Other(Sexp::List(v))));
});

// lists of 5, 9, 17, 33 or 67 parts: elements, nets of a class, layers, setup entries, polygons, points, pads
harness!(h_c03_long_lists, {
    expect(1);
    let n = length();
    let mut l = Layout::default();
    let set = |i: usize| SetupElement { name: word(i), value1: word(i + 1), value2: if i % 3 == 0 { Some(word(i)) } else { None } };
    match pick(11) {
        0 => for i in 0..n { l.elements.push(Element::Net(Net { num: any_int(), name: word(i).into() })); },
        1 => { let mut c = net_class(&mut Texts::none(), 0); for i in 0..n { c.nets.push(word(i).into()); } l.elements.push(Element::NetClass(c)); }
        2 => for i in 0..n { l.layers.push(Layer { num: any_int(), layer: fp::layer(i % 11, (i / 3) % 11), layer_type: layer_type(i % 5), hide: i % 7 == 2 }); },
        3 => for i in 0..n { l.setup.elements.push(set(i)); },
        4 => for i in 0..n { l.setup.pcbplotparams.push(set(i)); },
        5 => { let mut z = zone(&mut Texts::none()); for i in 0..n { z.polygons.push(pts(i % 3)); } l.elements.push(Element::Zone(z)); }
        6 => { let mut z = zone(&mut Texts::none()); z.filled_polygons.push(pts(n)); z.polygons.push(pts(n + 1)); z.fill_segments = Some(pts(n)); l.elements.push(Element::Zone(z)); }
        7 => { let mut m = footprint::Module::new("M".into()); for i in 0..n { let mut p = footprint::Pad::new(word(i), footprint::PadType::Smd, footprint::PadShape::Rect); p.net = Some(footprint::Net { num: any_int(), name: word(n - i).into() }); m.append(footprint::Element::Pad(p)); } l.elements.push(Element::Module(m)); }
        8 => for i in 0..n { l.elements.push(if i % 2 == 0 { Element::Segment(segment_fixed()) } else { Element::Via(via_fixed()) }); },
        9 => { let mut v = vec![Sexp::String("target".into())]; for i in 0..n { v.push(if i % 3 == 0 { Sexp::List(vec![Sexp::String(word(i))]) } else { Sexp::String(word(i)) }); } l.elements.push(Element::Other(Sexp::List(v))); }
        _ => { let mut v = via_fixed(); v.layers.layers.clear(); for i in 0..n { v.layers.append(fp::layer(i % 11, (i / 2) % 11)); } l.elements.push(Element::Via(v)); for i in 0..n { l.elements.push(element_fixed(i % 12)); } }
    }
    round_trip(&l);
});

// every text of a layout with all kinds of elements at once: in turn any word of 1 to 14 characters and
// any text with a parenthesis or blank behind up to 5 characters and up to 9 behind it
harness!(h_c03_words, {
    expect(1);
    let mut t = Texts::all(pick(ROUNDS));
    let mut l = Layout::default();
    l.host.tool = t.text();
    l.host.build = t.text();
    l.page = t.text();
    for i in 0..3 { l.setup.elements.push(SetupElement { name: format!("s{}", t.text()), value1: t.text(), value2: if i == 1 { Some(t.text()) } else { None } }); }
    for i in 0..3 { l.setup.pcbplotparams.push(SetupElement { name: format!("o{}", t.text()), value1: t.text(), value2: if i == 1 { Some(t.text()) } else { None } }); }
    for _ in 0..2 { l.elements.push(Element::Net(net(&mut t))); }
    for i in 0..2 { l.elements.push(Element::NetClass(NetClass { name: t.text(), desc: t.text(), clearance: float(), trace_width: 0.2, via_dia: 0.5, via_drill: 0.3, uvia_dia: 0.4, uvia_drill: 0.1, diff_pair_gap: None, diff_pair_width: Some(0.3), nets: (0..2 * i + 1).map(|_| t.text().into()).collect() })); }
    { let mut x = GrText::default(); x.value = t.text(); x.tstamp = Some(t.text()); l.elements.push(Element::GrText(x)); }
    { let mut x = Dimension::default(); x.name = t.text(); x.text.value = t.text(); x.tstamp = Some(t.text()); l.elements.push(Element::Dimension(x)); }
    { let mut s = segment_fixed(); s.tstamp = Some(t.text()); s.status = Some(t.text()); l.elements.push(Element::Segment(s)); }
    { let mut s = segment_fixed(); s.status = Some(t.text()); l.elements.push(Element::Segment(s)); }
    for i in 0..2 { let mut z = zone(&mut t); z.connect_pads.connection = Some(t.text()); z.fill.smoothing = Some(t.text()); z.fill.filled = i == 0; z.fill.segment = i == 0; l.elements.push(Element::Zone(z)); }
    { let mut x = GrLine::default(); x.start.t = footprint::XyType::Start; x.end.t = footprint::XyType::End; x.tstamp = Some(t.text()); l.elements.push(Element::GrLine(x)); }
    { let mut x = GrArc::default(); x.start.t = footprint::XyType::Start; x.end.t = footprint::XyType::End; x.tstamp = Some(t.text()); l.elements.push(Element::GrArc(x)); }
    { let mut x = GrCircle::default(); x.center.t = footprint::XyType::Center; x.end.t = footprint::XyType::End; x.tstamp = Some(t.text()); l.elements.push(Element::GrCircle(x)); }
    l.elements.push(Element::Other(Sexp::List(vec![Sexp::String("target".into()), Sexp::String(t.text()), Sexp::List(vec![Sexp::String(format!("o{}", t.text())), Sexp::String(t.text())])])));
    {
        let mut m = footprint::Module::new(t.text());
        m.append(footprint::Element::At(footprint::At::new(float(), float(), 0.0)));
        m.append(footprint::Element::Descr(t.text()));
        m.append(footprint::Element::FpText(footprint::FpText::new(t.text(), t.text())));
        let mut p = footprint::Pad::new(t.text(), footprint::PadType::Smd, footprint::PadShape::Rect);
        p.net = Some(footprint::Net { num: any_int(), name: t.text().into() });
        m.append(footprint::Element::Pad(p));
        l.elements.push(Element::Module(m));
    }
    round_trip(&l);
});

// texts of 20, 70 or 300 characters
harness!(h_c03_long_texts, {
    expect(1);
    let w = long_text([20, 70, 300][pick(3)]);
    let mut l = Layout::default();
    match pick(5) {
        0 => l.host.build = w,
        1 => l.elements.push(Element::Net(Net { num: any_int(), name: w.into() })),
        2 => { let mut x = GrText::default(); x.value = w; l.elements.push(Element::GrText(x)); }
        3 => { let mut c = net_class(&mut Texts::none(), 1); c.desc = w.clone(); c.nets[0] = w.into(); l.elements.push(Element::NetClass(c)); }
        _ => l.setup.pcbplotparams.push(SetupElement { name: "n".into(), value1: w, value2: None }),
    }
    round_trip(&l);
});

// any word of up to 14 characters as the name of a setting
harness!(h_c03_setup_names, {
    expect(1);
    let w = any_word();
    let mut l = Layout::default();
    if pick(2) == 0 { assume(w != "pcbplotparams"); l.setup.elements.push(SetupElement { name: w, value1: "b".into(), value2: None }) }
    else { l.setup.pcbplotparams.push(SetupElement { name: w, value1: "b".into(), value2: None }) }
    round_trip(&l);
});

/// the same things again: next to each other and apart
fn again<T: Clone>(a: T, b: T) -> Vec<T> { vec![a.clone(), a.clone(), b.clone(), a.clone(), b] }

// equal parts of every kind next to each other and apart: elements, nets of a class, settings, layers, polygons, points, unrecognised parts
harness!(h_c03_repeats, {
    expect(1);
    let mut l = Layout::default();
    let k = pick(13);
    if k < 12 {
        l.elements = again(element_fixed(k), element_fixed(k));
    } else {
        let set = |a: &str| SetupElement { name: a.into(), value1: "1".into(), value2: Some("2".into()) };
        l.setup.elements = again(set("a"), set("b"));
        l.setup.pcbplotparams = again(set("a"), set("b"));
        let lay = |i| Layer { num: any_int(), layer: fp::layer(i, 0), layer_type: layer_type(i), hide: false };
        l.layers = again(lay(0), lay(1));
        let mut c = net_class(&mut Texts::none(), 0);
        c.nets = again("A".to_string(), "B".to_string()).into_iter().map(|x| x.into()).collect();
        l.elements.push(Element::NetClass(c));
        let mut z = zone(&mut Texts::none());
        let p = || { let mut p = pts(0); p.elements = again(fp::xy(footprint::XyType::Xy), fp::xy(footprint::XyType::Xy)); p };
        z.polygons = again(p(), p());
        z.filled_polygons = again(p(), p());
        z.fill_segments = Some(p());
        let o = |a: &str| Sexp::List(vec![Sexp::String("hatch2".into()), Sexp::String(a.into()), Sexp::String(a.into())]);
        z.other = again(o("a"), o("b"));
        l.elements.push(Element::Zone(z));
        let mut v = via_fixed();
        v.layers.layers.clear();
        for x in again(fp::layer(0, 0), fp::layer(1, 0)) { v.layers.append(x); }
        l.elements.push(Element::Via(v));
        let mut v = vec![Sexp::String("target".into())];
        v.extend(again(o("a"), o("b")));
        v.extend(again(Sexp::String("x".into()), Sexp::String("y".into())));
        l.elements.push(Element::Other(Sexp::List(v)));
    }
    round_trip(&l);
});
