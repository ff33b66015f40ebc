//! C19: fixing a footprint repairs the findings and is idempotent.

use crate::check;
use crate::fp;
use crate::gen::*;
use crate::harness;
use crate::klc::Found;
use crate::sym::*;
use kicad_parse_gen::checkfix::{CheckFix, Config};
use kicad_parse_gen::footprint::*;

/// a size: multiples of 1/64 up to 16
fn size() -> f64 { grid(0, 1 << 10, 6) }
/// a coordinate: multiples of 1/16 up to 64
fn c() -> f64 { grid(-(1 << 10), 1 << 10, 4) }
fn xy(t: XyType) -> Xy { Xy::new(c(), c(), t) }

fn first(m: &Module, name: &str) -> usize {
    for (i, e) in m.elements.iter().enumerate() { if let Element::FpText(ref t) = *e { if t.name == name { return i; } } }
    usize::MAX
}
fn crtyd(m: &Module) -> usize { m.elements.iter().filter(|e| if let Element::FpLine(ref l) = **e { l.layer.t == LayerType::CrtYd } else { false }).count() }
fn smd_attr(m: &Module) -> bool { m.elements.iter().any(|e| if let Element::Attr(ref a) = *e { a == "smd" } else { false }) }
fn pads(m: &Module, t: PadType) -> usize { m.elements.iter().filter(|e| if let Element::Pad(ref p) = **e { p.t == t } else { false }).count() }

/// text as it has to be after fixing
fn fixed_text(t: &mut FpText, value: &str, l: LayerType, c: &Config) {
    t.value = value.to_string();
    t.layer.t = l;
    t.hide = false;
    t.effects.font.size.x = c.m.font_size;
    t.effects.font.size.y = c.m.font_size;
    t.effects.font.thickness = c.m.font_thickness;
}
/// fixes a copy and checks what has to hold for every footprint; returns the copy
fn fixed(m: &Module, c: &Config) -> Module {
    let mut n = m.clone();
    n.fix(c);
    // what was there before, with only the three texts changed
    let mut want = m.clone();
    let i = [first(m, "reference"), first(m, "value"), first(m, "user")];
    for k in 0..3 {
        if i[k] < want.elements.len() {
            let name = m.name.clone();
            if let Element::FpText(ref mut t) = want.elements[i[k]] {
                fixed_text(t, match k { 0 => "REF**", 1 => &name, _ => "%R" }, if k == 0 { LayerType::SilkS } else { LayerType::Fab }, c);
            }
        }
    }
    check!(n.name == m.name);
    check!(n.elements.len() >= want.elements.len());
    for (a, b) in want.elements.iter().zip(n.elements.iter()) { fp::same_element(a, b); }
    // what was added
    let (mut texts, mut attrs, mut lines, mut rest) = (0, 0, 0, 0);
    for e in n.elements.iter().skip(m.elements.len()) {
        match *e {
            Element::FpText(ref t) if t.name == "user" => texts += 1,
            Element::Attr(ref a) if a == "smd" => attrs += 1,
            Element::FpLine(ref l) if l.layer.t == LayerType::CrtYd => lines += 1,
            _ => rest += 1,
        }
    }
    check!(rest == 0);
    check!(texts == if i[2] == usize::MAX { 1 } else { 0 });
    check!(attrs == if pads(m, PadType::Smd) > 0 && pads(m, PadType::Pth) == 0 && !smd_attr(m) { 1 } else { 0 });
    check!(lines == if crtyd(m) < 4 { 4 } else { 0 });
    // a second time changes nothing
    let mut o = n.clone();
    o.fix(c);
    fp::same_module(&n, &o);
    n
}
/// nothing to complain about afterwards
fn quiet(n: &Module, c: &Config) {
    let f = Found::of(&n.check(c));
    check!(f.count(7, 3) == 0);
    check!(f.count(7, 4) == 0);
    check!(f.count(7, 5) == 0);
    check!(f.count(8, 1) == 0);
    check!(f.infos == 0);
    check!(f.all == f.count(9, 1));
}
fn base(name: &str) -> Module {
    let mut m = Module::new(name.into());
    m.append(Element::FpText(FpText::new("reference".into(), "U1".into())));
    m.append(Element::FpText(FpText::new("value".into(), "v".into())));
    m
}

// texts: any layers, values of up to 2 characters, sizes and positions multiples of 1/64, hidden or not, with and without second reference
harness!(h_c19_texts, {
    expect(1);
    let mut m = Module::new("M 1".into());
    let k = pick(3);
    for i in 0..3 {
        let mut x = FpText::new(["reference", "value", "user"][i].into(), "x".into());
        if i == k {
            x.value = string(TEXT, 0, 2);
            x.layer = fp::layer([0, 1, 7, 10][pick(4)], pick(11));
            x.hide = boolean();
            x.effects = fp::effects();
            x.effects.font.size.x = size();
            x.effects.font.size.y = size();
            x.effects.font.thickness = size();
            x.at = At::new(size(), size(), size());
        }
        if i == 2 && k != 2 && pick(2) == 0 { continue; }
        m.append(Element::FpText(x));
    }
    if pick(2) == 0 { m.append(Element::FpText(FpText::new(["reference", "value", "user", "other"][pick(4)].into(), "second".into()))); }
    let c = Config::klc();
    let n = fixed(&m, &c);
    goal(1);
    quiet(&n, &c);
});

// configured sizes: any multiples of 1/64
harness!(h_c19_config, {
    expect(1);
    let mut c = Config::klc();
    c.m.font_size = size();
    c.m.font_thickness = size();
    let mut m = base("M");
    if boolean() { m.append(Element::FpText(FpText::new("user".into(), "y".into()))); }
    let n = fixed(&m, &c);
    goal(1);
    quiet(&n, &c);
});

// missing reference or value text: the rest is repaired all the same
harness!(h_c19_missing, {
    expect(1);
    let mut m = base("M");
    let k = pick(3);
    if k == 2 { m.elements.clear(); } else { m.elements.remove(k); }
    m.append(Element::Pad(Pad::new("1".into(), PadType::Smd, PadShape::Rect)));
    let c = Config::klc();
    let n = fixed(&m, &c);
    goal(1);
    let f = Found::of(&n.check(&c));
    check!(f.count(7, 3) == if k == 0 || k == 2 { 1 } else { 0 });
    check!(f.count(7, 4) == if k == 1 || k == 2 { 1 } else { 0 });
    check!(f.all == f.count(7, 3) + f.count(7, 4));
});

// pads of any types, attributes, 0 to 5 courtyard lines, any other element
harness!(h_c19_attributes, {
    expect(1);
    let mut m = base("M");
    for _ in 0..pick(4) { m.append(Element::Pad(Pad::new("1".into(), fp::pad_type(pick(3)), PadShape::Rect))); }
    if pick(2) == 0 { m.append(Element::Attr(["smd", "virtual"][pick(2)].into())); }
    let k = pick(6);
    for i in 0..k { let mut l = FpLine::default(); l.layer = fp::layer(i % 2, if i == 4 && boolean() { 8 } else { 7 }); m.append(Element::FpLine(l)); }
    let c = Config::klc();
    let n = fixed(&m, &c);
    goal(1);
    quiet(&n, &c);
});

// every other kind of element is left alone
harness!(h_c19_others, {
    expect(1);
    let mut m = base("M");
    let k = pick(18);
    m.elements.insert(pick(3), fp::element_light(k, &mut Texts::none()));
    // without boxes of any numbers in the way
    for _ in 0..4 { let mut l = FpLine::default(); l.layer = fp::layer(0, 7); m.append(Element::FpLine(l)); }
    let c = Config::klc();
    let n = fixed(&m, &c);
    goal(1);
    quiet(&n, &c);
});

#[derive(Clone, Copy)]
struct Box4 { x1: f64, y1: f64, x2: f64, y2: f64 }
fn join(a: Box4, b: Box4) -> Box4 { Box4 { x1: a.x1.min(b.x1), y1: a.y1.min(b.y1), x2: a.x2.max(b.x2), y2: a.y2.max(b.y2) } }
fn points(a: &Xy, b: &Xy) -> Box4 { Box4 { x1: a.x.min(b.x), y1: a.y.min(b.y), x2: a.x.max(b.x), y2: a.y.max(b.y) } }
fn close(a: f64, b: f64) -> bool { a - b < 0.0001 && b - a < 0.0001 }
fn edge(l: &FpLine, x1: f64, y1: f64, x2: f64, y2: f64) -> bool {
    let s = |p: &Xy, x: f64, y: f64| p.x == x && p.y == y;
    (s(&l.start, x1, y1) && s(&l.end, x2, y2)) || (s(&l.start, x2, y2) && s(&l.end, x1, y1))
}
/// the generated courtyard goes around the box with the margin
fn courtyard(n: &Module, b: Box4, margin: f64) {
    let l: Vec<&FpLine> = n.elements.iter().filter_map(|e| if let Element::FpLine(ref l) = *e { if l.layer.t == LayerType::CrtYd { Some(l) } else { None } } else { None }).collect();
    check!(l.len() == 4);
    // corners of the first line that goes across and the first that goes down
    let mut r = points(&l[0].start, &l[0].end);
    for x in &l { r = join(r, points(&x.start, &x.end)); }
    let any = |x1: f64, y1: f64, x2: f64, y2: f64| l.iter().any(|x| edge(x, x1, y1, x2, y2));
    check!(any(r.x1, r.y1, r.x2, r.y1));
    check!(any(r.x2, r.y1, r.x2, r.y2));
    check!(any(r.x1, r.y2, r.x2, r.y2));
    check!(any(r.x1, r.y1, r.x1, r.y2));
    check!(close(r.x1, b.x1 - margin));
    check!(close(r.y1, b.y1 - margin));
    check!(close(r.x2, b.x2 + margin));
    check!(close(r.y2, b.y2 + margin));
    for x in &l { check!(x.width == 0.05); check!(x.layer.side == LayerSide::Front); }
}
fn margin(name: &str, b: Box4) -> f64 { if b.x2 - b.x1 < 2.0 && b.y2 - b.y1 < 2.0 { 0.15 } else if name.len() >= 3 && &name.as_bytes()[0..3] == b"BGA" { 0.1 } else { 0.25 } }

// courtyard around a fabrication line of which one end has any one coordinate: small parts, ball grid arrays and others; multiples of 1/16 up to 64
harness!(h_c19_courtyard_small, {
    expect(1);
    let name = if thorough() { ["SOT-23", "BGA-48", "XBGA", "bga", "BGA"][pick(5)] } else { ["SOT-23", "BGA-48", "XBGA"][pick(3)] };
    let mut m = base(name);
    if name.len() > 4 { m.append(Element::Layer(fp::layer(1, 0))); }
    let mut l = FpLine::default();
    let (a, o) = (c(), [0.0, 1.9375, 2.0, -3.0][pick(4)]);
    l.start = if pick(2) == 0 { Xy::new(a, o, XyType::Start) } else { Xy::new(o, a, XyType::Start) };
    l.end = Xy::new(0.0, 0.0, XyType::End);
    l.layer = fp::layer(0, 8);
    let b = points(&l.start, &l.end);
    m.append(Element::FpLine(l));
    let mut n = m.clone();
    n.fix(&Config::klc());
    goal(1);
    courtyard(&n, b, margin(name, b));
});

// courtyard of parts larger than 2 in one direction: around one pad, fabrication line, arc or polygon, anywhere on a module anywhere: coordinates multiples of 1/16 up to 64, pads at quarter turns
harness!(h_c19_courtyard, {
    expect(1);
    let name = ["SOT-23", "bga", "XBGA"][pick(3)];
    let mut m = base(name);
    if boolean() { m.append(Element::At(At::new(c(), c(), 0.0))); }
    let fab = fp::layer(pick(2), 8);
    let zero = Box4 { x1: 0.0, y1: 0.0, x2: 0.0, y2: 0.0 };
    let b = match pick(4) {
        0 => {
            let mut p = Pad::new("1".into(), PadType::Smd, PadShape::Rect);
            let r = pick(6);
            let q = r % 2 == 1;
            p.at = At::new(c(), c(), [0.0, 90.0, 180.0, 270.0, -180.0, -270.0][r]);
            p.size = Xy::new(size(), size(), XyType::Size);
            let (dx, dy) = if q { (p.size.y, p.size.x) } else { (p.size.x, p.size.y) };
            let b = Box4 { x1: p.at.x - dx / 2.0, y1: p.at.y - dy / 2.0, x2: p.at.x + dx / 2.0, y2: p.at.y + dy / 2.0 };
            m.append(Element::Pad(p));
            b
        }
        1 => { let mut l = FpLine::default(); l.start = xy(XyType::Start); l.end = xy(XyType::End); l.layer = fab; let b = points(&l.start, &l.end); m.append(Element::FpLine(l)); b }
        2 => { let mut l = FpArc::default(); l.start = xy(XyType::Start); l.end = xy(XyType::End); l.layer = fab; let b = points(&l.start, &l.end); m.append(Element::FpArc(l)); b }
        _ => { let mut l = FpPoly::default(); l.pts.elements.push(xy(XyType::Xy)); l.layer = fab; let b = points(&l.pts.elements[0], &l.pts.elements[0]); m.append(Element::FpPoly(l)); b }
    };
    let b = join(zero, b);
    assume(b.x2 - b.x1 >= 2.0 || b.y2 - b.y1 >= 2.0);
    let mut n = m.clone();
    n.fix(&Config::klc());
    goal(1);
    courtyard(&n, b, 0.25);
});

// courtyard of a footprint of any name: in turn words of 1 to 14 characters and texts with a parenthesis or blank, the first three characters of words any of those of a ball grid array or not
harness!(h_c19_courtyard_names, {
    expect(1);
    let mut t = Texts::all(pick(ROUNDS));
    let name = match pick(3) { 0 => t.text(), 1 => format!("BGA{}", t.text()), _ => format!("{}BGA", string_n(crate::gen::SIGN, 1)) };
    let mut m = base(&name);
    if boolean() { m.append(Element::Layer(fp::layer(1, 0))); }
    let mut l = FpLine::default();
    l.start = Xy::new(-5.0, -1.0, XyType::Start);
    l.end = Xy::new(3.0, 4.0, XyType::End);
    l.layer = fp::layer(0, 8);
    let b = points(&l.start, &l.end);
    let b = join(Box4 { x1: 0.0, y1: 0.0, x2: 0.0, y2: 0.0 }, b);
    m.append(Element::FpLine(l));
    let mut n = m.clone();
    n.fix(&Config::klc());
    goal(1);
    courtyard(&n, b, margin(&name, b));
});

// courtyard around a pad and a line that counts if it is on the fabrication layer, coordinates multiples of 1/16 up to 64
harness!(h_c19_courtyard_two, {
    expect(1);
    let mut m = base("QFN");
    let mut p = Pad::new("1".into(), PadType::Smd, PadShape::Rect);
    p.at = At::new(c(), c(), 0.0);
    p.size = Xy::new(3.0, 1.5, XyType::Size);
    let b1 = Box4 { x1: p.at.x - 1.5, y1: p.at.y - 0.75, x2: p.at.x + 1.5, y2: p.at.y + 0.75 };
    m.append(Element::Pad(p));
    let mut l = FpLine::default();
    l.start = xy(XyType::Start);
    l.end = Xy::new(1.0, 2.0, XyType::End);
    let counts = boolean();
    l.layer = fp::layer(0, if counts { 8 } else { 3 });
    let b2 = points(&l.start, &l.end);
    m.append(Element::FpLine(l));
    let zero = Box4 { x1: 0.0, y1: 0.0, x2: 0.0, y2: 0.0 };
    let b = if counts { join(zero, join(b1, b2)) } else { join(zero, b1) };
    let mut n = m.clone();
    n.fix(&Config::klc());
    goal(1);
    courtyard(&n, b, 0.25);
});

// 5, 9, 17, 33 or 67 pads, one of any type at the first, middle or last place, in front of or behind the texts, with other texts and drawings around
harness!(h_c19_long, {
    expect(1);
    let n = length();
    let k = [0, n / 2, n - 1][pick(3)];
    let (t, u) = (pick(3), pick(3));
    let mut v = vec![];
    for i in 0..n { v.push(Element::Pad(Pad::new(word(i), fp::pad_type(if i == k { t } else { u }), PadShape::Rect))); }
    for i in 0..n { v.push(Element::FpText(FpText::new("other".into(), word(i)))); let mut l = FpLine::default(); l.layer = fp::layer(0, 3); v.push(Element::FpLine(l)); }
    if boolean() { v.push(Element::Attr("smd".into())); }
    for _ in 0..3 + pick(2) { let mut l = FpLine::default(); l.layer = fp::layer(0, 7); v.push(Element::FpLine(l)); }
    let b = base("M");
    let mut m = Module::new("M".into());
    if boolean() { for e in b.elements { m.append(e); } for e in v { m.append(e); } } else { for e in v { m.append(e); } for e in b.elements { m.append(e); } }
    let c = Config::klc();
    let n = fixed(&m, &c);
    goal(1);
    quiet(&n, &c);
});

// every text of the footprint any: in turn words of 1 to 14 characters and texts with a parenthesis or blank
harness!(h_c19_words, {
    expect(1);
    let mut t = Texts::all(pick(ROUNDS));
    let mut m = base(&t.text());
    for e in &mut m.elements { if let Element::FpText(ref mut x) = *e { x.value = t.text(); } }
    m.append(Element::Descr(t.text()));
    m.append(Element::Tags(t.text()));
    m.append(Element::Path(t.text()));
    let second = boolean();
    if second { m.append(Element::FpText(FpText::new("user".into(), t.text()))); }
    m.append(Element::FpText(FpText::new(format!("u_{}", t.text()), t.text())));
    let mut p = Pad::new(t.text(), PadType::Smd, PadShape::Rect);
    p.net = Some(Net { num: 1, name: t.text().into() });
    m.append(Element::Pad(p));
    m.append(Element::Model(fp::model(&mut t)));
    let c = Config::klc();
    let n = fixed(&m, &c);
    goal(1);
    quiet(&n, &c);
});
