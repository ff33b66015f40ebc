//! Footprint builders and comparators.

use crate::check;
use crate::gen::*;
use crate::sym::*;
use kicad_parse_gen::footprint::*;

pub fn side(i: usize) -> LayerSide {
    match i {
        0 => LayerSide::Front, 1 => LayerSide::Back, 2 => LayerSide::Dwgs, 3 => LayerSide::Cmts, 4 => LayerSide::Eco1, 5 => LayerSide::Eco2,
        6 => LayerSide::Edge, 7 => LayerSide::Both, 8 => LayerSide::In1, 9 => LayerSide::In2, _ => LayerSide::None,
    }
}
pub fn ltype(i: usize) -> LayerType {
    match i {
        0 => LayerType::Cu, 1 => LayerType::Paste, 2 => LayerType::Mask, 3 => LayerType::SilkS, 4 => LayerType::User, 5 => LayerType::Adhes,
        6 => LayerType::Cuts, 7 => LayerType::CrtYd, 8 => LayerType::Fab, 9 => LayerType::Margin, _ => LayerType::Other("GND1".into()),
    }
}
pub const SIDES: [&str; 11] = ["F.", "B.", "Dwgs.", "Cmts.", "Eco1.", "Eco2.", "Edge.", "*.", "In1.", "In2.", ""];
pub const TYPES: [&str; 11] = ["Cu", "Paste", "Mask", "SilkS", "User", "Adhes", "Cuts", "CrtYd", "Fab", "Margin", "GND1"];

pub fn layer(s: usize, t: usize) -> Layer { let mut l = Layer::default(); l.side = side(s); l.t = ltype(t); l }
pub fn at() -> At { At::new(float(), float(), float()) }
pub fn xy(t: XyType) -> Xy { Xy::new(float(), float(), t) }
pub fn xyz() -> Xyz { Xyz::new(float(), float(), float()) }
pub fn justify() -> Option<Justify> { match pick(4) { 0 => None, 1 => Some(Justify::Mirror), 2 => Some(Justify::Left), _ => Some(Justify::Right) } }

pub fn effects() -> Effects {
    let mut f = Font::default();
    f.size.x = float();
    f.size.y = float();
    f.thickness = float();
    f.italic = boolean();
    Effects::from_font(f, justify())
}

pub fn fp_text(t: &mut Texts) -> FpText {
    let name = t.text();
    let value = t.text();
    let mut x = FpText::new(name, value);
    x.at = at();
    x.layer = layer(1, 3);
    x.hide = boolean();
    x.effects = effects();
    x
}

pub fn same_layer(a: &Layer, b: &Layer) { check!(a.side == b.side); check!(a.t == b.t); }
pub fn same_at(a: &At, b: &At) { check!(a.x == b.x); check!(a.y == b.y); check!(a.rot == b.rot); }
pub fn same_xy(a: &Xy, b: &Xy) { check!(a.x == b.x); check!(a.y == b.y); check!(a.t == b.t); }
pub fn same_xyz(a: &Xyz, b: &Xyz) { check!(a.x == b.x); check!(a.y == b.y); check!(a.z == b.z); }
pub fn same_effects(a: &Effects, b: &Effects) {
    check!(a.font.size.x == b.font.size.x);
    check!(a.font.size.y == b.font.size.y);
    check!(a.font.thickness == b.font.thickness);
    check!(a.font.italic == b.font.italic);
    check!(a.justify == b.justify);
}
pub fn same_text(a: &FpText, b: &FpText) {
    check!(a.name == b.name);
    check!(a.value == b.value);
    same_at(&a.at, &b.at);
    same_layer(&a.layer, &b.layer);
    check!(a.hide == b.hide);
    same_effects(&a.effects, &b.effects);
}
pub fn same_pts(a: &Pts, b: &Pts) {
    check!(a.elements.len() == b.elements.len());
    for (x, y) in a.elements.iter().zip(b.elements.iter()) { same_xy(x, y); }
}
pub fn same_layers(a: &Layers, b: &Layers) {
    check!(a.layers.len() == b.layers.len());
    for (x, y) in a.layers.iter().zip(b.layers.iter()) { same_layer(x, y); }
}
pub fn same_net(a: &Net, b: &Net) { check!(a.num == b.num); check!(a.name.0 == b.name.0); }
pub fn same_drill(a: &Drill, b: &Drill) {
    check!(a.shape == b.shape);
    check!(a.width == b.width);
    check!(a.height == b.height);
    check!(a.offset_x == b.offset_x);
    check!(a.offset_y == b.offset_y);
}
pub fn same_pad(a: &Pad, b: &Pad) {
    check!(a.name == b.name);
    check!(a.t == b.t);
    check!(a.shape == b.shape);
    same_xy(&a.size, &b.size);
    match (&a.rect_delta, &b.rect_delta) { (Some(x), Some(y)) => same_xy(x, y), (None, None) => {} _ => check!(a.rect_delta.is_some() == b.rect_delta.is_some()) }
    same_at(&a.at, &b.at);
    same_layers(&a.layers, &b.layers);
    match (&a.net, &b.net) { (Some(x), Some(y)) => same_net(x, y), (None, None) => {} _ => check!(a.net.is_some() == b.net.is_some()) }
    check!(a.zone_connect == b.zone_connect);
    match (&a.drill, &b.drill) { (Some(x), Some(y)) => same_drill(x, y), (None, None) => {} _ => check!(a.drill.is_some() == b.drill.is_some()) }
    check!(a.solder_paste_margin == b.solder_paste_margin);
    check!(a.solder_mask_margin == b.solder_mask_margin);
    check!(a.clearance == b.clearance);
    check!(a.thermal_gap == b.thermal_gap);
}
pub fn same_poly(a: &FpPoly, b: &FpPoly) { same_pts(&a.pts, &b.pts); check!(a.width == b.width); same_layer(&a.layer, &b.layer); }
pub fn same_line(a: &FpLine, b: &FpLine) { same_xy(&a.start, &b.start); same_xy(&a.end, &b.end); same_layer(&a.layer, &b.layer); check!(a.width == b.width); }
pub fn same_circle(a: &FpCircle, b: &FpCircle) { same_xy(&a.center, &b.center); same_xy(&a.end, &b.end); same_layer(&a.layer, &b.layer); check!(a.width == b.width); }
pub fn same_arc(a: &FpArc, b: &FpArc) { same_xy(&a.start, &b.start); same_xy(&a.end, &b.end); check!(a.angle == b.angle); same_layer(&a.layer, &b.layer); check!(a.width == b.width); }
pub fn same_model(a: &Model, b: &Model) { check!(a.name == b.name); same_xyz(&a.at, &b.at); same_xyz(&a.scale, &b.scale); same_xyz(&a.rotate, &b.rotate); }

pub fn kind(e: &Element) -> u32 {
    match *e {
        Element::SolderMaskMargin(_) => 0, Element::Layer(_) => 1, Element::Descr(_) => 2, Element::Tags(_) => 3, Element::Attr(_) => 4, Element::FpText(_) => 5,
        Element::Pad(_) => 6, Element::FpPoly(_) => 7, Element::FpLine(_) => 8, Element::FpCircle(_) => 9, Element::FpArc(_) => 10, Element::TEdit(_) => 11,
        Element::TStamp(_) => 12, Element::Path(_) => 13, Element::At(_) => 14, Element::Model(_) => 15, Element::Clearance(_) => 16, Element::Locked => 17,
        #[allow(unreachable_patterns)]
        _ => 99,
    }
}

pub fn same_element(a: &Element, b: &Element) {
    match (a, b) {
        (Element::SolderMaskMargin(x), Element::SolderMaskMargin(y)) => check!(x == y),
        (Element::Layer(x), Element::Layer(y)) => same_layer(x, y),
        (Element::Descr(x), Element::Descr(y)) => check!(x == y),
        (Element::Tags(x), Element::Tags(y)) => check!(x == y),
        (Element::Attr(x), Element::Attr(y)) => check!(x == y),
        (Element::FpText(x), Element::FpText(y)) => same_text(x, y),
        (Element::Pad(x), Element::Pad(y)) => same_pad(x, y),
        (Element::FpPoly(x), Element::FpPoly(y)) => same_poly(x, y),
        (Element::FpLine(x), Element::FpLine(y)) => same_line(x, y),
        (Element::FpCircle(x), Element::FpCircle(y)) => same_circle(x, y),
        (Element::FpArc(x), Element::FpArc(y)) => same_arc(x, y),
        (Element::TEdit(x), Element::TEdit(y)) => check!(x == y),
        (Element::TStamp(x), Element::TStamp(y)) => check!(x == y),
        (Element::Path(x), Element::Path(y)) => check!(x == y),
        (Element::At(x), Element::At(y)) => same_at(x, y),
        (Element::Model(x), Element::Model(y)) => same_model(x, y),
        (Element::Clearance(x), Element::Clearance(y)) => check!(x == y),
        (Element::Locked, Element::Locked) => {}
        _ => check!(kind(a) == kind(b)),
    }
}

pub fn same_module(a: &Module, b: &Module) {
    check!(a.name == b.name);
    check!(a.elements.len() == b.elements.len());
    for (x, y) in a.elements.iter().zip(b.elements.iter()) { same_element(x, y); }
}

/// write, read back, compare
pub fn round_trip(m: &Module) {
    let s = match module_to_string(m, 0) { Ok(s) => s, Err(_) => { check!("write" == "failed"); return; } };
    let m2 = match parse(&s) { Ok(m) => m, Err(_) => { check!("read back" == "failed"); return; } };
    same_module(m, &m2);
    goal(1);
}

pub fn module_with(e: Element) -> Module { let mut m = Module::new("M".into()); m.append(e); m }

pub fn drill() -> Drill {
    let mut d = Drill::default();
    if pick(2) == 0 { d.shape = Some("oval".into()); }
    d.width = float();
    d.height = float();
    d.offset_x = float();
    d.offset_y = float();
    d
}
pub fn pad_type(i: usize) -> PadType { match i { 0 => PadType::Smd, 1 => PadType::Pth, _ => PadType::NpPth } }
pub fn pad_shape(i: usize) -> PadShape { match i { 0 => PadShape::Rect, 1 => PadShape::Circle, 2 => PadShape::Oval, _ => PadShape::Trapezoid } }
pub fn pad(t: &mut Texts, ty: usize, sh: usize) -> Pad {
    let mut p = Pad::new(t.text(), pad_type(ty), pad_shape(sh));
    p.size = xy(XyType::Size);
    p.at = at();
    p.layers.append(layer(0, 0));
    p.layers.append(layer(7, 2));
    p
}
pub fn net(t: &mut Texts) -> Net { Net { num: int(i64::MIN, i64::MAX), name: t.text().into() } }
pub fn line(l: Layer) -> FpLine { let mut x = FpLine::default(); x.start = xy(XyType::Start); x.end = xy(XyType::End); x.layer = l; x.width = float(); x }
pub fn circle(l: Layer) -> FpCircle { let mut x = FpCircle::default(); x.center = xy(XyType::Center); x.end = xy(XyType::End); x.layer = l; x.width = float(); x }
pub fn arc(l: Layer) -> FpArc { let mut x = FpArc::default(); x.start = xy(XyType::Start); x.end = xy(XyType::End); x.angle = float(); x.layer = l; x.width = float(); x }
pub fn poly(n: usize, l: Layer) -> FpPoly {
    let mut x = FpPoly::default();
    for _ in 0..n { x.pts.elements.push(xy(XyType::Xy)); }
    x.layer = l;
    x.width = float();
    x
}
pub fn model(t: &mut Texts) -> Model { Model { name: t.text(), at: xyz(), scale: xyz(), rotate: xyz() } }

/// one element of the given kind with any values
pub fn element(k: usize, t: &mut Texts) -> Element {
    match k {
        0 => Element::SolderMaskMargin(float()),
        1 => Element::Layer(layer(0, 0)),
        2 => Element::Descr(t.text()),
        3 => Element::Tags(t.text()),
        4 => Element::Attr(t.text()),
        5 => Element::FpText(fp_text(t)),
        6 => Element::Pad(pad(t, 0, 0)),
        7 => Element::FpPoly(poly(2, layer(0, 3))),
        8 => Element::FpLine(line(layer(1, 8))),
        9 => Element::FpCircle(circle(layer(2, 4))),
        10 => Element::FpArc(arc(layer(6, 6))),
        11 => Element::TEdit(int(0, i64::MAX)),
        12 => Element::TStamp(int(0, i64::MAX)),
        13 => Element::Path(t.text()),
        14 => Element::At(at()),
        15 => Element::Model(model(t)),
        16 => Element::Clearance(float()),
        _ => Element::Locked,
    }
}

/// as `element`, with fewer cases inside the element
pub fn element_light(k: usize, t: &mut Texts) -> Element {
    match k {
        5 => {
            let mut x = FpText::new(t.text(), t.text());
            x.at = At::new(float(), float(), 90.0);
            x.layer = layer(0, 3);
            x.hide = true;
            x.effects.font.size.x = 1.5;
            x.effects.font.thickness = float();
            Element::FpText(x)
        }
        6 => {
            let mut p = Pad::new(t.text(), PadType::Pth, PadShape::Oval);
            p.size = xy(XyType::Size);
            p.at = At::new(float(), float(), 0.0);
            p.layers.append(layer(0, 0));
            Element::Pad(p)
        }
        14 => Element::At(At::new(float(), float(), 180.0)),
        k => element(k, t),
    }
}
