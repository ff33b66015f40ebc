//! Layout builders and comparators.

use crate::check;
use crate::fp;
use crate::gen::*;
use crate::sym::*;
use kicad_parse_gen::footprint;
use kicad_parse_gen::layout::*;
use kicad_parse_gen::Sexp;

pub fn any_int() -> i64 { int(i64::MIN, i64::MAX) }
pub fn tstamp(t: &mut Texts) -> Option<String> { if pick(2) == 0 { Some(t.text()) } else { None } }

pub fn pts(n: usize) -> footprint::Pts {
    let mut p = footprint::Pts::default();
    for _ in 0..n { p.elements.push(fp::xy(footprint::XyType::Xy)); }
    p
}
pub fn layer(i: usize) -> footprint::Layer { fp::layer(i % 11, (i / 11) % 11) }
pub fn gr_text(t: &mut Texts) -> GrText {
    let mut x = GrText::default();
    x.value = t.text();
    x.at = fp::at();
    x.layer = fp::layer(0, 3);
    x.effects.font.size.x = float();
    x.effects.font.size.y = 1.5;
    x.effects.font.thickness = float();
    x.effects.justify = fp::justify();
    x.tstamp = tstamp(t);
    x
}
pub fn gr_line(t: &mut Texts) -> GrLine {
    let mut x = GrLine::default();
    x.start = fp::xy(footprint::XyType::Start);
    x.end = fp::xy(footprint::XyType::End);
    x.angle = float();
    x.layer = fp::layer(6, 6);
    x.width = float();
    x.tstamp = tstamp(t);
    x
}
pub fn gr_arc(t: &mut Texts) -> GrArc {
    let mut x = GrArc::default();
    x.start = fp::xy(footprint::XyType::Start);
    x.end = fp::xy(footprint::XyType::End);
    x.angle = float();
    x.layer = fp::layer(2, 4);
    x.width = float();
    x.tstamp = tstamp(t);
    x
}
pub fn gr_circle(t: &mut Texts) -> GrCircle {
    let mut x = GrCircle::default();
    x.center = fp::xy(footprint::XyType::Center);
    x.end = fp::xy(footprint::XyType::End);
    x.layer = fp::layer(3, 4);
    x.width = float();
    x.tstamp = tstamp(t);
    x
}
pub fn dimension(t: &mut Texts) -> Dimension {
    let mut d = Dimension::default();
    d.name = t.text();
    d.width = float();
    d.layer = fp::layer(4, 4);
    d.tstamp = tstamp(t);
    d.text.value = t.text();
    d.text.at = footprint::At::new(float(), float(), 0.0);
    d.text.effects.font.thickness = float();
    d.feature1 = pts(2);
    d.feature2 = pts(2);
    d.crossbar = pts(2);
    d.arrow1a = pts(2);
    d.arrow1b = pts(2);
    d.arrow2a = pts(2);
    d.arrow2b = pts(2);
    d
}
pub fn segment(t: &mut Texts) -> Segment {
    let mut s = Segment::default();
    s.start = fp::xy(footprint::XyType::Start);
    s.end = fp::xy(footprint::XyType::End);
    s.width = float();
    s.layer = fp::layer(1, 0);
    s.net = any_int();
    s.tstamp = tstamp(t);
    s.status = tstamp(t);
    s
}
pub fn via() -> Via {
    let mut v = Via::default();
    v.blind = boolean();
    v.micro = boolean();
    v.at = fp::at();
    v.size = float();
    v.drill = float();
    v.layers.append(fp::layer(0, 0));
    v.layers.append(fp::layer(8, 0));
    v.net = any_int();
    v
}
pub fn net(t: &mut Texts) -> Net { let mut n = Net::default(); n.num = any_int(); n.name = t.text().into(); n }
pub fn net_class(t: &mut Texts, nets: usize) -> NetClass {
    NetClass {
        name: t.text(), desc: t.text(), clearance: float(), trace_width: float(), via_dia: float(), via_drill: float(), uvia_dia: float(), uvia_drill: float(),
        diff_pair_gap: some(float), diff_pair_width: some(float), nets: (0..nets).map(|_| t.text().into()).collect(),
    }
}
pub fn fill() -> Fill {
    let mut f = Fill::default();
    f.filled = boolean();
    f.segment = boolean();
    f.arc_segments = any_int();
    f.thermal_gap = float();
    f.thermal_bridge_width = float();
    f
}
pub fn zone(t: &mut Texts) -> Zone {
    let mut h = Hatch::default();
    h.style = t.text();
    h.pitch = float();
    let mut c = ConnectPads::default();
    c.clearance = float();
    Zone {
        net: any_int(), net_name: t.text().into(), layer: fp::layer(0, 0), tstamp: t.text(), hatch: h, priority: 0, connect_pads: c, min_thickness: float(), keepout: None,
        fill: Fill::default(), polygons: vec![], filled_polygons: vec![], fill_segments: None, other: vec![],
    }
}
/// module with few parts
pub fn module(t: &mut Texts) -> footprint::Module {
    let mut m = footprint::Module::new(t.text());
    m.append(footprint::Element::At(footprint::At::new(float(), float(), 0.0)));
    let mut p = footprint::Pad::new("1".into(), footprint::PadType::Smd, footprint::PadShape::Rect);
    p.net = Some(footprint::Net { num: any_int(), name: t.text().into() });
    m.append(footprint::Element::Pad(p));
    m.append(footprint::Element::FpLine(fp::line(fp::layer(0, 3))));
    m
}
pub fn layer_type(i: usize) -> LayerType { match i { 0 => LayerType::Signal, 1 => LayerType::Power, 2 => LayerType::Mixed, 3 => LayerType::Jumper, _ => LayerType::User } }
pub const LAYER_TYPES: [&str; 5] = ["signal", "power", "mixed", "jumper", "user"];
pub fn layer_type_no(t: &LayerType) -> usize { match *t { LayerType::Signal => 0, LayerType::Power => 1, LayerType::Mixed => 2, LayerType::Jumper => 3, LayerType::User => 4, #[allow(unreachable_patterns)] _ => 99 } }

/// an atom or a small tree
pub fn tree(depth: usize, t: &mut Texts) -> Sexp {
    if depth == 0 { return Sexp::String(t.text()); }
    match pick(3) {
        0 => Sexp::String(t.text()),
        n => { let mut v = vec![Sexp::String(t.text())]; for _ in 1..n { v.push(tree(depth - 1, t)); } Sexp::List(v) }
    }
}
pub fn other(t: &mut Texts) -> Sexp {
    let n = ["target", "gr_curve", "segmentx", "at"][pick(4)];
    let mut v = vec![Sexp::String(n.into())];
    for _ in 0..pick(3) { v.push(tree(1, t)); }
    Sexp::List(v)
}

/// any element of the kind, texts from `t`
pub fn element(k: usize, t: &mut Texts) -> Element {
    match k {
        0 => Element::Module(module(t)),
        1 => Element::Net(net(t)),
        2 => Element::NetClass(net_class(t, pick(3))),
        3 => Element::GrText(gr_text(t)),
        4 => Element::GrLine(gr_line(t)),
        5 => Element::GrArc(gr_arc(t)),
        6 => Element::GrCircle(gr_circle(t)),
        7 => Element::Dimension(dimension(t)),
        8 => Element::Segment(segment(t)),
        9 => Element::Via(via()),
        10 => Element::Zone(zone(t)),
        _ => Element::Other(other(t)),
    }
}
pub fn kind(e: &Element) -> u32 {
    match *e {
        Element::Module(_) => 0, Element::Net(_) => 1, Element::NetClass(_) => 2, Element::GrText(_) => 3, Element::GrLine(_) => 4, Element::GrArc(_) => 5, Element::GrCircle(_) => 6,
        Element::Dimension(_) => 7, Element::Segment(_) => 8, Element::Via(_) => 9, Element::Zone(_) => 10, Element::Other(_) => 11,
        #[allow(unreachable_patterns)]
        _ => 99,
    }
}

/// few numbers, one way to be built
pub fn element_fixed(k: usize) -> Element {
    let mut t = Texts::none();
    let l = |s, t| fp::layer(s, t);
    match k {
        0 => { let mut m = footprint::Module::new("Q".into()); m.append(footprint::Element::At(footprint::At::new(float(), 1.0, 0.0))); Element::Module(m) }
        1 => Element::Net(net(&mut t)),
        2 => Element::NetClass(NetClass { name: "c".into(), desc: "d e".into(), clearance: float(), trace_width: 0.2, via_dia: 0.5, via_drill: 0.3, uvia_dia: 0.4, uvia_drill: 0.1, diff_pair_gap: None, diff_pair_width: Some(float()), nets: vec!["GND".into()] }),
        3 => { let mut x = GrText::default(); x.value = "a b".into(); x.at.x = float(); x.layer = l(2, 4); Element::GrText(x) }
        4 => { let mut x = GrLine::default(); x.start = fp::xy(footprint::XyType::Start); x.end = footprint::Xy::new(1.0, 2.0, footprint::XyType::End); x.layer = l(6, 6); Element::GrLine(x) }
        5 => { let mut x = GrArc::default(); x.start = footprint::Xy::new(1.0, 2.0, footprint::XyType::Start); x.end = fp::xy(footprint::XyType::End); x.angle = 90.0; Element::GrArc(x) }
        6 => { let mut x = GrCircle::default(); x.center = fp::xy(footprint::XyType::Center); x.end = footprint::Xy::new(1.0, 2.0, footprint::XyType::End); x.tstamp = Some("5A".into()); Element::GrCircle(x) }
        7 => { let mut d = Dimension::default(); d.name = "10 mm".into(); d.width = float(); d.feature1 = pts(1); Element::Dimension(d) }
        8 => { let mut s = Segment::default(); s.start = fp::xy(footprint::XyType::Start); s.end = footprint::Xy::new(1.0, 2.0, footprint::XyType::End); s.net = any_int(); Element::Segment(s) }
        9 => { let mut v = Via::default(); v.size = float(); v.at.x = float(); v.net = any_int(); Element::Via(v) }
        10 => { let mut z = zone(&mut t); z.polygons.push(pts(1)); Element::Zone(z) }
        _ => Element::Other(Sexp::List(vec![Sexp::String("target".into()), Sexp::String("x y".into()), Sexp::List(vec![Sexp::String("size".into()), Sexp::String("5".into())])])),
    }
}

pub fn same_gr_text(a: &GrText, b: &GrText) {
    check!(a.value == b.value);
    fp::same_at(&a.at, &b.at);
    fp::same_layer(&a.layer, &b.layer);
    fp::same_effects(&a.effects, &b.effects);
    check!(a.tstamp == b.tstamp);
}
pub fn same_net_class(a: &NetClass, b: &NetClass) {
    check!(a.name == b.name);
    check!(a.desc == b.desc);
    check!(a.clearance == b.clearance);
    check!(a.trace_width == b.trace_width);
    check!(a.via_dia == b.via_dia);
    check!(a.via_drill == b.via_drill);
    check!(a.uvia_dia == b.uvia_dia);
    check!(a.uvia_drill == b.uvia_drill);
    check!(a.diff_pair_gap == b.diff_pair_gap);
    check!(a.diff_pair_width == b.diff_pair_width);
    check!(a.nets.len() == b.nets.len());
    for (x, y) in a.nets.iter().zip(b.nets.iter()) { check!(x.0 == y.0); }
}
pub fn same_ptss(a: &[footprint::Pts], b: &[footprint::Pts]) {
    check!(a.len() == b.len());
    for (x, y) in a.iter().zip(b.iter()) { fp::same_pts(x, y); }
}
pub fn same_zone(a: &Zone, b: &Zone) {
    check!(a.net == b.net);
    check!(a.net_name.0 == b.net_name.0);
    fp::same_layer(&a.layer, &b.layer);
    check!(a.tstamp == b.tstamp);
    check!(a.hatch.style == b.hatch.style);
    check!(a.hatch.pitch == b.hatch.pitch);
    check!(a.priority == b.priority);
    check!(a.connect_pads.connection == b.connect_pads.connection);
    check!(a.connect_pads.clearance == b.connect_pads.clearance);
    check!(a.min_thickness == b.min_thickness);
    match (&a.keepout, &b.keepout) {
        (Some(x), Some(y)) => { check!(x.tracks == y.tracks); check!(x.vias == y.vias); check!(x.copperpour == y.copperpour); }
        (None, None) => {}
        _ => check!(a.keepout.is_some() == b.keepout.is_some()),
    }
    check!(a.fill.filled == b.fill.filled);
    check!(a.fill.segment == b.fill.segment);
    check!(a.fill.arc_segments == b.fill.arc_segments);
    check!(a.fill.thermal_gap == b.fill.thermal_gap);
    check!(a.fill.thermal_bridge_width == b.fill.thermal_bridge_width);
    check!(a.fill.smoothing == b.fill.smoothing);
    check!(a.fill.corner_radius == b.fill.corner_radius);
    same_ptss(&a.polygons, &b.polygons);
    same_ptss(&a.filled_polygons, &b.filled_polygons);
    match (&a.fill_segments, &b.fill_segments) { (Some(x), Some(y)) => fp::same_pts(x, y), (None, None) => {} _ => check!(a.fill_segments.is_some() == b.fill_segments.is_some()) }
    check!(a.other == b.other);
}
pub fn same_element(a: &Element, b: &Element) {
    match (a, b) {
        (Element::Module(x), Element::Module(y)) => fp::same_module(x, y),
        (Element::Net(x), Element::Net(y)) => { check!(x.num == y.num); check!(x.name.0 == y.name.0); }
        (Element::NetClass(x), Element::NetClass(y)) => same_net_class(x, y),
        (Element::GrText(x), Element::GrText(y)) => same_gr_text(x, y),
        (Element::GrLine(x), Element::GrLine(y)) => { fp::same_xy(&x.start, &y.start); fp::same_xy(&x.end, &y.end); check!(x.angle == y.angle); fp::same_layer(&x.layer, &y.layer); check!(x.width == y.width); check!(x.tstamp == y.tstamp); }
        (Element::GrArc(x), Element::GrArc(y)) => { fp::same_xy(&x.start, &y.start); fp::same_xy(&x.end, &y.end); check!(x.angle == y.angle); fp::same_layer(&x.layer, &y.layer); check!(x.width == y.width); check!(x.tstamp == y.tstamp); }
        (Element::GrCircle(x), Element::GrCircle(y)) => { fp::same_xy(&x.center, &y.center); fp::same_xy(&x.end, &y.end); fp::same_layer(&x.layer, &y.layer); check!(x.width == y.width); check!(x.tstamp == y.tstamp); }
        (Element::Dimension(x), Element::Dimension(y)) => {
            check!(x.name == y.name);
            check!(x.width == y.width);
            fp::same_layer(&x.layer, &y.layer);
            check!(x.tstamp == y.tstamp);
            same_gr_text(&x.text, &y.text);
            fp::same_pts(&x.feature1, &y.feature1);
            fp::same_pts(&x.feature2, &y.feature2);
            fp::same_pts(&x.crossbar, &y.crossbar);
            fp::same_pts(&x.arrow1a, &y.arrow1a);
            fp::same_pts(&x.arrow1b, &y.arrow1b);
            fp::same_pts(&x.arrow2a, &y.arrow2a);
            fp::same_pts(&x.arrow2b, &y.arrow2b);
        }
        (Element::Segment(x), Element::Segment(y)) => {
            fp::same_xy(&x.start, &y.start);
            fp::same_xy(&x.end, &y.end);
            check!(x.width == y.width);
            fp::same_layer(&x.layer, &y.layer);
            check!(x.net == y.net);
            check!(x.tstamp == y.tstamp);
            check!(x.status == y.status);
        }
        (Element::Via(x), Element::Via(y)) => {
            check!(x.blind == y.blind);
            check!(x.micro == y.micro);
            fp::same_at(&x.at, &y.at);
            check!(x.size == y.size);
            check!(x.drill == y.drill);
            fp::same_layers(&x.layers, &y.layers);
            check!(x.net == y.net);
        }
        (Element::Zone(x), Element::Zone(y)) => same_zone(x, y),
        (Element::Other(x), Element::Other(y)) => check!(x == y),
        _ => check!(kind(a) == kind(b)),
    }
}
pub fn same_elements(a: &Layout, b: &Layout) {
    check!(a.elements.len() == b.elements.len());
    for (x, y) in a.elements.iter().zip(b.elements.iter()) { same_element(x, y); }
}
pub fn same_setup_elements(a: &[SetupElement], b: &[SetupElement]) {
    check!(a.len() == b.len());
    for (x, y) in a.iter().zip(b.iter()) { check!(x.name == y.name); check!(x.value1 == y.value1); check!(x.value2 == y.value2); }
}
pub fn same_head(a: &Layout, b: &Layout) {
    check!(a.version == b.version);
    check!(a.host.tool == b.host.tool);
    check!(a.host.build == b.host.build);
    check!(a.general.links == b.general.links);
    check!(a.general.no_connects == b.general.no_connects);
    check!(a.general.area.x1 == b.general.area.x1);
    check!(a.general.area.y1 == b.general.area.y1);
    check!(a.general.area.x2 == b.general.area.x2);
    check!(a.general.area.y2 == b.general.area.y2);
    check!(a.general.thickness == b.general.thickness);
    check!(a.general.drawings == b.general.drawings);
    check!(a.general.tracks == b.general.tracks);
    check!(a.general.zones == b.general.zones);
    check!(a.general.modules == b.general.modules);
    check!(a.general.nets == b.general.nets);
    check!(a.page == b.page);
    check!(a.layers.len() == b.layers.len());
    for (x, y) in a.layers.iter().zip(b.layers.iter()) {
        check!(x.num == y.num);
        fp::same_layer(&x.layer, &y.layer);
        check!(layer_type_no(&x.layer_type) == layer_type_no(&y.layer_type));
        check!(x.hide == y.hide);
    }
    same_setup_elements(&a.setup.elements, &b.setup.elements);
    same_setup_elements(&a.setup.pcbplotparams, &b.setup.pcbplotparams);
}
pub fn same_layout(a: &Layout, b: &Layout) { same_head(a, b); same_elements(a, b); }

pub fn round_trip(l: &Layout) {
    let s = match layout_to_string(l, 0) { Ok(s) => s, Err(_) => { check!("write" == "failed"); return; } };
    let l2 = match parse(&s) { Ok(l) => l, Err(_) => { check!("read back" == "failed"); return; } };
    same_layout(l, &l2);
    goal(1);
}
pub fn layout_with(e: Element) -> Layout { let mut l = Layout::default(); l.elements.push(e); l }
/// copy of a layout with a default head
pub fn copy(l: &Layout) -> Layout { let mut c = Layout::default(); c.elements = l.elements.clone(); c }
/// a segment and a via with any numbers and nothing to choose
pub fn segment_fixed() -> Segment { let mut s = Segment::default(); s.start = fp::xy(footprint::XyType::Start); s.end = fp::xy(footprint::XyType::End); s.width = float(); s.layer = fp::layer(1, 0); s.net = any_int(); s }
pub fn via_fixed() -> Via { let mut v = Via::default(); v.at = footprint::At::new(float(), float(), 0.0); v.size = float(); v.drill = 0.5; v.layers.append(fp::layer(0, 0)); v.layers.append(fp::layer(8, 0)); v.net = any_int(); v }
