//! C17: flipping twice restores a module; rotation stays within a full turn.

use crate::check;
use crate::fp;
use crate::gen::{length, Texts, ROUNDS};
use crate::harness;
use crate::sym::*;
use kicad_parse_gen::footprint::*;

/// a coordinate: multiples of 1/1024 up to 4096
fn c() -> f64 { grid(-(1 << 22), 1 << 22, 10) }
/// an angle of a full turn: multiples of 1/1024
fn turn() -> f64 { grid(0, 360 * 1024 - 1, 10) }
/// what to turn by: up to a full turn in both directions
fn by() -> f64 { grid(-360 * 1024, 360 * 1024, 10) }
fn at() -> At { At::new(c(), c(), turn()) }
fn xy(t: XyType) -> Xy { Xy::new(c(), c(), t) }
fn justify() -> Option<Justify> { if boolean() { Some(Justify::Mirror) } else { None } }

/// an element of the kind, with layer `l` where it has one
fn element(k: usize, l: &Layer) -> Element {
    match k {
        1 => Element::Layer(l.clone()),
        5 => {
            let mut x = FpText::new("reference".into(), "R1".into());
            x.at = at();
            x.layer = l.clone();
            x.hide = boolean();
            x.effects.font.size = xy(XyType::Size);
            x.effects.font.thickness = c();
            x.effects.font.italic = boolean();
            x.effects.justify = justify();
            Element::FpText(x)
        }
        6 => {
            let mut p = Pad::new("1".into(), PadType::Pth, PadShape::Rect);
            p.at = at();
            p.size = xy(XyType::Size);
            p.rect_delta = Some(xy(XyType::RectDelta));
            p.layers.append(l.clone());
            p.layers.append(fp::layer(1, 2));
            p.layers.append(l.clone());
            p.net = Some(Net { num: 4, name: "n".into() });
            p.solder_mask_margin = Some(c());
            p.solder_paste_margin = Some(c());
            p.clearance = Some(c());
            p.thermal_gap = Some(c());
            p.zone_connect = Some(int(0, 3));
            let mut d = Drill::default();
            d.width = c();
            d.height = c();
            d.offset_x = c();
            d.offset_y = c();
            p.drill = Some(d);
            Element::Pad(p)
        }
        7 => { let mut x = FpPoly::default(); for _ in 0..3 { x.pts.elements.push(xy(XyType::Xy)); } x.width = c(); x.layer = l.clone(); Element::FpPoly(x) }
        8 => { let mut x = FpLine::default(); x.start = xy(XyType::Start); x.end = xy(XyType::End); x.width = c(); x.layer = l.clone(); Element::FpLine(x) }
        9 => { let mut x = FpCircle::default(); x.center = xy(XyType::Center); x.end = xy(XyType::End); x.width = c(); x.layer = l.clone(); Element::FpCircle(x) }
        10 => { let mut x = FpArc::default(); x.start = xy(XyType::Start); x.end = xy(XyType::End); x.width = c(); x.layer = l.clone(); x.angle = c(); Element::FpArc(x) }
        14 => Element::At(at()),
        k => fp::element_light(k, &mut Texts::none()),
    }
}
fn flip_layer(l: &mut Layer) {
    let n = fp_side_no(&l.side);
    if n == 0 { l.side = LayerSide::Back } else if n == 1 { l.side = LayerSide::Front }
}
fn fp_side_no(s: &LayerSide) -> usize { for i in 0..11 { if fp::side(i) == *s { return i; } } 99 }
fn mirror(p: &mut Xy) { p.y = -p.y; }
/// what flipping has to yield, angles left out
fn flipped(e: &Element) -> Element {
    let mut e = e.clone();
    match e {
        Element::Layer(ref mut l) => flip_layer(l),
        Element::At(ref mut a) => a.y = -a.y,
        Element::FpText(ref mut t) => { t.at.y = -t.at.y; flip_layer(&mut t.layer); t.effects.justify = if t.effects.justify.is_none() { Some(Justify::Mirror) } else { None }; }
        Element::Pad(ref mut p) => { p.at.y = -p.at.y; for l in &mut p.layers.layers { flip_layer(l); } }
        Element::FpPoly(ref mut p) => { for q in &mut p.pts.elements { mirror(q); } flip_layer(&mut p.layer); }
        Element::FpLine(ref mut l) => { mirror(&mut l.start); mirror(&mut l.end); flip_layer(&mut l.layer); }
        Element::FpCircle(ref mut l) => { mirror(&mut l.center); mirror(&mut l.end); flip_layer(&mut l.layer); }
        Element::FpArc(ref mut l) => { mirror(&mut l.start); mirror(&mut l.end); flip_layer(&mut l.layer); }
        _ => (),
    }
    e
}
fn angle(e: &mut Element) -> Option<&mut f64> {
    match *e {
        Element::At(ref mut a) => Some(&mut a.rot),
        Element::FpText(ref mut t) => Some(&mut t.at.rot),
        Element::Pad(ref mut p) => Some(&mut p.at.rot),
        _ => None,
    }
}
/// same direction
fn same_turn(a: f64, b: f64) -> bool { a == b || a == b + 360.0 || a + 360.0 == b }
/// all but the angle the same, angles given
fn same(want: &Element, got: &Element, rot: Option<f64>) {
    let (mut w, mut g) = (want.clone(), got.clone());
    check!(fp::kind(&w) == fp::kind(&g));
    if let (Some(a), Some(b)) = (angle(&mut w), angle(&mut g)) {
        check!(same_turn(rot.unwrap_or(*a), *b));
        *a = 0.0;
        *b = 0.0;
    }
    fp::same_element(&w, &g);
}

// flipping a module with one element of every kind on any layer: positions, layers and texts mirrored, angles turned the other way
harness!(h_c17_flip, {
    expect(1);
    let k = pick(18);
    let (s, t) = if [1, 5, 6, 7, 8, 9, 10].contains(&k) { (pick(11), pick(11)) } else { (0, 0) };
    let e = element(k, &fp::layer(s, t));
    let mut m = fp::module_with(e.clone());
    m.flip();
    goal(1);
    check!(m.name == "M");
    check!(m.elements.len() == 1);
    let rot = angle(&mut e.clone()).map(|a| 360.0 - *a);
    for x in &m.elements { same(&flipped(&e), x, rot); }
});

// flipping twice restores every element
harness!(h_c17_flip_twice, {
    expect(1);
    let k = pick(18);
    let (s, t) = if [1, 5, 6, 7, 8, 9, 10].contains(&k) { (pick(11), 3) } else { (0, 0) };
    let e = element(k, &fp::layer(s, t));
    let mut m = fp::module_with(e.clone());
    m.flip();
    m.flip();
    goal(1);
    check!(m.elements.len() == 1);
    for x in &m.elements { same(&e, x, None); }
});

// flipping reaches every element of a module of two elements of any kinds
harness!(h_c17_flip_two, {
    expect(1);
    let (i, j) = (pick(18), pick(18));
    let (a, b) = (element(i, &fp::layer(0, 0)), element(j, &fp::layer(1, 3)));
    let mut m = fp::module_with(a.clone());
    m.append(b.clone());
    m.flip();
    goal(1);
    check!(m.elements.len() == 2);
    let (ra, rb) = (angle(&mut a.clone()).map(|a| 360.0 - *a), angle(&mut b.clone()).map(|a| 360.0 - *a));
    same(&flipped(&a), &m.elements[0], ra);
    same(&flipped(&b), &m.elements[1], rb);
});

// layer sides, layers and layer lists flipped on their own
harness!(h_c17_layers, {
    expect(1);
    let s = pick(11);
    let mut side = fp::side(s);
    side.flip();
    check!(fp_side_no(&side) == match s { 0 => 1, 1 => 0, n => n });
    let mut l = fp::layer(s, pick(11));
    let mut want = l.clone();
    flip_layer(&mut want);
    l.flip();
    fp::same_layer(&want, &l);
    let mut v = Layers::default();
    for i in 0..pick(4) { v.append(fp::layer((s + i) % 11, 0)); }
    let n = v.layers.len();
    v.flip();
    check!(v.layers.len() == n);
    for (i, x) in v.layers.iter().enumerate() { let mut w = fp::layer((s + i) % 11, 0); flip_layer(&mut w); fp::same_layer(&w, x); }
    goal(1);
});

// turning a module with one element of every kind: angles of position, text and pad are turned and stay below a full turn, nothing else changes
harness!(h_c17_rotate, {
    expect(1);
    let k = pick(18);
    let e = element(k, &fp::layer(0, 3));
    let r = by();
    let mut m = fp::module_with(e.clone());
    m.rotate(r);
    goal(1);
    check!(m.elements.len() == 1);
    let mut e0 = e.clone();
    let old = angle(&mut e0).map(|a| *a);
    for x in &m.elements {
        let mut y = x.clone();
        if let (Some(a), Some(b)) = (old, angle(&mut y)) {
            check!(*b >= 0.0);
            check!(*b < 360.0);
            let s = a + r;
            let w = if s >= 360.0 { s - 360.0 } else if s < 0.0 { s + 360.0 } else { s };
            check!(*b == w);
            *b = a;
        }
        fp::same_element(&e, &y);
    }
});

// turning forth and back restores the angle; turning two elements turns both
harness!(h_c17_rotate_back, {
    expect(1);
    let (i, j) = ([5, 6, 14][pick(3)], [5, 6, 14, 8, 15][pick(5)]);
    let (a, b) = (element(i, &fp::layer(0, 3)), element(j, &fp::layer(1, 0)));
    let r = by();
    let mut m = fp::module_with(a.clone());
    m.append(b.clone());
    m.rotate(r);
    m.rotate(-r);
    goal(1);
    check!(m.elements.len() == 2);
    fp::same_element(&a, &m.elements[0]);
    fp::same_element(&b, &m.elements[1]);
});

// module side and angle after flipping and turning, as reported by the module
harness!(h_c17_module, {
    expect(1);
    let mut m = Module::new("M".into());
    let s = pick(3);
    if s < 2 { m.append(Element::Layer(fp::layer(s, 0))); }
    let a = at();
    m.append(Element::At(a.clone()));
    let r = by();
    m.rotate(r);
    check!(same_turn(m.get_rotation(), a.rot + r) || same_turn(m.get_rotation(), a.rot + r - 360.0) || same_turn(m.get_rotation(), a.rot + r + 360.0));
    m.flip();
    goal(1);
    check!(m.is_front() == (s != 0));
    let (x, y) = m.at();
    check!(x == a.x);
    check!(y == -a.y);
});

// modules of 5, 9, 17, 33 or 67 elements, polygons of as many points, pads of as many layers: all of them flipped or turned
harness!(h_c17_long, {
    expect(1);
    let n = length();
    let mut m = Module::new("M".into());
    match pick(3) {
        0 => for i in 0..n { let k = [5, 6, 7, 8, 9, 10, 1, 14][i % 8]; let mut e = element(if k == 5 { 8 } else { k }, &fp::layer(i % 3, i % 4)); if k == 5 { let mut t = FpText::new("user".into(), "x".into()); t.at = at(); t.layer = fp::layer(i % 2, 3); e = Element::FpText(t); } if i != 0 && i != n / 2 && i + 3 < n { if let Some(r) = angle(&mut e) { *r = (i % 4) as f64 * 90.0; } } m.append(e); },
        1 => { let mut x = FpPoly::default(); for _ in 0..n { x.pts.elements.push(xy(XyType::Xy)); } x.layer = fp::layer(0, 3); m.append(Element::FpPoly(x)); }
        _ => { let mut p = Pad::new("1".into(), PadType::Pth, PadShape::Rect); p.at = at(); for i in 0..n { p.layers.append(fp::layer(i % 2, i % 11)); } m.append(Element::Pad(p)); }
    }
    let old = m.clone();
    if boolean() {
        m.flip();
        goal(1);
        check!(m.elements.len() == old.elements.len());
        for (a, b) in old.elements.iter().zip(m.elements.iter()) { let r = angle(&mut a.clone()).map(|a| 360.0 - *a); same(&flipped(a), b, r); }
        m.flip();
        check!(m.elements.len() == old.elements.len());
        for (a, b) in old.elements.iter().zip(m.elements.iter()) { same(a, b, None); }
    } else {
        m.rotate(90.0);
        goal(1);
        check!(m.elements.len() == old.elements.len());
        for (a, b) in old.elements.iter().zip(m.elements.iter()) { let r = angle(&mut a.clone()).map(|a| *a + 90.0); same(a, b, r); }
    }
});

// every text of the elements any: in turn words of 1 to 14 characters and texts with a parenthesis or blank; the module is flipped or turned and keeps its texts
harness!(h_c17_words, {
    expect(1);
    let mut t = Texts::all(pick(ROUNDS));
    let mut m = Module::new(t.text());
    for k in 0..18 {
        let mut e = match k { 5 => { let mut x = FpText::new("".into(), "".into()); x.at = at(); x.layer = fp::layer(0, 3); Element::FpText(x) } k => element(k, &fp::layer(1, 3)) };
        match e {
            Element::FpText(ref mut x) => { x.name = t.text(); x.value = t.text(); }
            Element::Pad(ref mut p) => { p.name = t.text(); p.net = Some(Net { num: 1, name: t.text().into() }); }
            Element::Descr(ref mut x) | Element::Tags(ref mut x) | Element::Attr(ref mut x) | Element::Path(ref mut x) => *x = t.text(),
            Element::Model(ref mut x) => x.name = t.text(),
            _ => (),
        }
        m.append(e);
    }
    let old = m.clone();
    if boolean() {
        m.flip();
        check!(m.elements.len() == 18);
        for (a, b) in old.elements.iter().zip(m.elements.iter()) { let rot = angle(&mut a.clone()).map(|r| 360.0 - *r); same(&flipped(a), b, rot); }
    } else {
        m.rotate(90.0);
        check!(m.elements.len() == 18);
        for (a, b) in old.elements.iter().zip(m.elements.iter()) { let rot = angle(&mut a.clone()).map(|r| if *r + 90.0 >= 360.0 { *r - 270.0 } else { *r + 90.0 }); same(a, b, rot); }
    }
    goal(1);
    check!(m.name == old.name);
});
