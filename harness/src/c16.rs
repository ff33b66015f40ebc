//! C16: bounding boxes enclose what they bound.

use crate::check;
use crate::fp;
use crate::gen::{length, Texts};
use crate::harness;
use crate::lay;
use crate::sch;
use crate::sym::*;
use kicad_parse_gen::footprint::{self, At, FpArc, FpCircle, FpLine, FpPoly, FpText, Module, Pad, PadShape, PadType, Pts, Xy, XyType};
use kicad_parse_gen::layout::*;
use kicad_parse_gen::schematic;
use kicad_parse_gen::{Bound, BoundingBox};

/// a coordinate: multiples of 1/16 up to 1024
fn c() -> f64 { grid(-(1 << 14), 1 << 14, 4) }
fn size() -> f64 { grid(0, 1 << 14, 4) }
fn xy(t: XyType) -> Xy { Xy::new(c(), c(), t) }
fn pts(n: usize) -> Pts { let mut p = Pts::default(); for _ in 0..n { p.elements.push(xy(XyType::Xy)); } p }

/// corners of what has to be enclosed
#[derive(Clone, Copy)]
struct Box4 { x1: f64, y1: f64, x2: f64, y2: f64, any: bool }
const EMPTY: Box4 = Box4 { x1: 0.0, y1: 0.0, x2: 0.0, y2: 0.0, any: false };
fn point(x: f64, y: f64) -> Box4 { Box4 { x1: x, y1: y, x2: x, y2: y, any: true } }
fn join(a: Box4, b: Box4) -> Box4 {
    if !a.any { return b; }
    if !b.any { return a; }
    Box4 { x1: a.x1.min(b.x1), y1: a.y1.min(b.y1), x2: a.x2.max(b.x2), y2: a.y2.max(b.y2), any: true }
}
fn of(p: &Xy) -> Box4 { point(p.x, p.y) }
fn of_pts(p: &Pts) -> Box4 { let mut b = EMPTY; for e in &p.elements { b = join(b, of(e)); } b }
fn shifted(b: Box4, x: f64, y: f64) -> Box4 { Box4 { x1: b.x1 + x, y1: b.y1 + y, x2: b.x2 + x, y2: b.y2 + y, any: b.any } }
fn encloses(b: &Bound, w: Box4) {
    check!(b.is_bounded == w.any);
    if w.any {
        check!(b.x1 <= w.x1);
        check!(b.y1 <= w.y1);
        check!(b.x2 >= w.x2);
        check!(b.y2 >= w.y2);
        check!(b.x1 <= b.x2);
        check!(b.y1 <= b.y2);
    }
}
fn equals(b: &Bound, w: Box4) {
    check!(b.is_bounded == w.any);
    if w.any {
        check!(b.x1 == w.x1);
        check!(b.y1 == w.y1);
        check!(b.x2 == w.x2);
        check!(b.y2 == w.y2);
    }
}
fn to_box(b: &Bound) -> Box4 { Box4 { x1: b.x1, y1: b.y1, x2: b.x2, y2: b.y2, any: b.is_bounded } }

/// end point on one of the axes through the centre
fn circle_points() -> (Xy, Xy) {
    let a = xy(XyType::Center);
    let b = if boolean() { Xy::new(c(), a.y, XyType::End) } else { Xy::new(a.x, c(), XyType::End) };
    (a, b)
}
fn circle_box(a: &Xy, b: &Xy) -> Box4 {
    let r = (a.x - b.x).abs() + (a.y - b.y).abs();
    Box4 { x1: a.x - r, y1: a.y - r, x2: a.x + r, y2: a.y + r, any: true }
}

/// parts of a module with the box they have, relative to the module; uncounted parts have an empty box
fn part(k: usize) -> (footprint::Element, Box4) {
    let fab = fp::layer(pick(2), 8);
    match k {
        0 => {
            let r = pick(9);
            let rot = [0.0, 90.0, 180.0, 270.0, -90.0, -270.0, -180.0, 360.0, -360.0][r];
            let mut p = Pad::new("1".into(), fp::pad_type(r % 3), fp::pad_shape(r % 4));
            p.at = At::new(c(), c(), rot);
            p.size = Xy::new(size(), size(), XyType::Size);
            let (dx, dy) = if r == 1 || r == 3 || r == 4 || r == 5 { (p.size.y, p.size.x) } else { (p.size.x, p.size.y) };
            let b = Box4 { x1: p.at.x - dx / 2.0, y1: p.at.y - dy / 2.0, x2: p.at.x + dx / 2.0, y2: p.at.y + dy / 2.0, any: true };
            (footprint::Element::Pad(p), b)
        }
        1 => { let mut l = FpLine::default(); l.start = xy(XyType::Start); l.end = xy(XyType::End); l.layer = fab; let b = join(of(&l.start), of(&l.end)); (footprint::Element::FpLine(l), b) }
        2 => { let mut l = FpArc::default(); l.start = xy(XyType::Start); l.end = xy(XyType::End); l.layer = fab; let b = join(of(&l.start), of(&l.end)); (footprint::Element::FpArc(l), b) }
        3 => { let mut l = FpPoly::default(); l.pts = pts(pick(3)); l.layer = fab; let b = of_pts(&l.pts); (footprint::Element::FpPoly(l), b) }
        4 => { let (a, e) = circle_points(); let b = circle_box(&a, &e); let mut l = FpCircle::default(); l.center = a; l.end = e; l.layer = fab; (footprint::Element::FpCircle(l), b) }
        // not counted
        5 => { let mut l = FpLine::default(); l.start = xy(XyType::Start); l.end = xy(XyType::End); l.layer = fp::layer(0, [0, 3, 7][pick(3)]); (footprint::Element::FpLine(l), EMPTY) }
        6 => { let mut t = FpText::new("reference".into(), "R".into()); t.at = At::new(c(), c(), 0.0); t.layer = fp::layer(0, 8); (footprint::Element::FpText(t), EMPTY) }
        7 => (footprint::Element::Descr("d".into()), EMPTY),
        _ => { let mut l = FpPoly::default(); l.pts = pts(1); l.layer = fp::layer(0, 3); (footprint::Element::FpPoly(l), EMPTY) }
    }
}

// single parts of footprints in any direction, coordinates multiples of 1/16 mm up to 1024 mm; pads at quarter turns; circles with the end point on an axis
harness!(h_c16_footprint_parts, {
    expect(1);
    let (e, b) = part(pick(5));
    goal(1);
    encloses(&e.bounding_box(), b);
});

// module: its position, pads and fabrication drawings count, nothing else; one part of any kind, the module on either side and turned by any angle
harness!(h_c16_module, {
    expect(1);
    let k = pick(9);
    let (x, y) = (c(), c());
    let mut m = Module::new("M".into());
    let placed = boolean();
    let side = pick(3);
    if side < 2 { m.append(footprint::Element::Layer(fp::layer(side, 0))); }
    if placed { m.append(footprint::Element::At(At::new(x, y, grid(-360 * 16, 360 * 16, 4)))); }
    let (x, y) = if placed { (x, y) } else { (0.0, 0.0) };
    let (e, b) = part(k);
    m.append(e);
    goal(1);
    let w = join(point(x, y), shifted(b, x, y));
    let b = m.bounding_box();
    encloses(&b, w);
    equals(&b, w);
});

// module with two parts of any kinds
harness!(h_c16_module_two, {
    expect(1);
    let mut m = Module::new("M".into());
    let (x, y) = (c(), 2.5);
    m.append(footprint::Element::At(At::new(x, y, 0.0)));
    let (e, b1) = part(pick(9));
    m.append(e);
    let (f, b2) = part([0, 1, 4][pick(3)]);
    m.append(f);
    goal(1);
    let w = join(join(point(x, y), shifted(b1, x, y)), shifted(b2, x, y));
    equals(&m.bounding_box(), w);
});

fn layout_item(k: usize) -> (Element, Box4) {
    match k {
        0 => { let mut x = GrText::default(); x.at = At::new(c(), c(), 0.0); let b = point(x.at.x, x.at.y); (Element::GrText(x), b) }
        1 => { let mut x = GrLine::default(); x.start = xy(XyType::Start); x.end = xy(XyType::End); let b = join(of(&x.start), of(&x.end)); (Element::GrLine(x), b) }
        2 => { let mut x = GrArc::default(); x.start = xy(XyType::Start); x.end = xy(XyType::End); let b = join(of(&x.start), of(&x.end)); (Element::GrArc(x), b) }
        3 => { let (a, e) = circle_points(); let b = circle_box(&a, &e); let mut x = GrCircle::default(); x.center = a; x.end = e; (Element::GrCircle(x), b) }
        4 => {
            let mut d = Dimension::default();
            d.text.at = At::new(c(), c(), 0.0);
            let (i, j) = (pick(7), pick(7));
            let mut b = point(d.text.at.x, d.text.at.y);
            for (n, p) in vec![&mut d.feature1, &mut d.feature2, &mut d.crossbar, &mut d.arrow1a, &mut d.arrow1b, &mut d.arrow2a, &mut d.arrow2b].into_iter().enumerate() {
                if n == i || n == j { *p = pts(1); b = join(b, of_pts(p)); }
            }
            (Element::Dimension(d), b)
        }
        5 => { let mut x = Segment::default(); x.start = xy(XyType::Start); x.end = xy(XyType::End); let b = join(of(&x.start), of(&x.end)); (Element::Segment(x), b) }
        6 => {
            let mut v = Via::default();
            v.at = At::new(c(), c(), 0.0);
            v.size = size();
            let r = v.size / 2.0;
            let b = Box4 { x1: v.at.x - r, y1: v.at.y - r, x2: v.at.x + r, y2: v.at.y + r, any: true };
            (Element::Via(v), b)
        }
        7 => {
            let mut z = lay::zone(&mut Texts::none());
            let mut b = EMPTY;
            for _ in 0..pick(2) { let p = pts(2); b = join(b, of_pts(&p)); z.polygons.push(p); }
            for _ in 0..pick(3) { let p = pts(1); b = join(b, of_pts(&p)); z.filled_polygons.push(p); }
            if boolean() { let p = pts(pick(2)); b = join(b, of_pts(&p)); z.fill_segments = Some(p); }
            (Element::Zone(z), b)
        }
        8 => {
            let mut m = Module::new("M".into());
            let a = At::new(c(), c(), 0.0);
            let b = point(a.x, a.y);
            m.append(footprint::Element::At(a));
            (Element::Module(m), b)
        }
        9 => (lay::element_fixed(1), EMPTY),
        10 => (lay::element_fixed(2), EMPTY),
        _ => (lay::element_fixed(11), EMPTY),
    }
}

// items of layouts, in any direction
harness!(h_c16_layout_items, {
    expect(1);
    let (e, b) = layout_item(pick(12));
    goal(1);
    encloses(&e.bounding_box(), b);
});

// layout: union of the boxes of its items, two items of any kinds in any order
harness!(h_c16_layout, {
    expect(1);
    let (a, _) = layout_item(pick(12));
    let (b, _) = layout_item([0, 1, 6, 9][pick(4)]);
    let w = join(to_box(&a.bounding_box()), to_box(&b.bounding_box()));
    let mut l = Layout::default();
    if boolean() { l.elements.push(a); l.elements.push(b); } else { l.elements.push(b); l.elements.push(a); }
    goal(1);
    equals(&l.bounding_box(), w);
});

// empty documents are not bounded
harness!(h_c16_empty, {
    expect(1);
    let b = match pick(3) { 0 => Layout::default().bounding_box(), 1 => sch::empty().bounding_box(), _ => Bound::default() };
    goal(1);
    check!(!b.is_bounded);
});

// schematic: every component's position and every sheet's rectangle are enclosed; positions up to 10^6
harness!(h_c16_schematic, {
    expect(1);
    let n = || int(-1_000_000, 1_000_000);
    let mut s = sch::empty();
    let mut w = EMPTY;
    for _ in 0..pick(3) {
        let mut k = sch::component(&[1, 0, 0, -1]);
        k.x = n();
        k.y = n();
        w = join(w, point(k.x as f64, k.y as f64));
        let b = k.bounding_box();
        encloses(&b, point(k.x as f64, k.y as f64));
        s.elements.push(schematic::Element::Component(k));
    }
    let mut margin = 0.0;
    if boolean() {
        let mut t = schematic::Sheet::default();
        t.x = n();
        t.y = n();
        t.dimx = int(0, 100_000);
        t.dimy = int(0, 100_000);
        let b = Box4 { x1: t.x as f64, y1: t.y as f64, x2: (t.x + t.dimx) as f64, y2: (t.y + t.dimy) as f64, any: true };
        encloses(&t.bounding_box(), b);
        w = join(w, b);
        margin = 100.0;
        s.sheets.push(t);
    }
    goal(1);
    let b = s.bounding_box();
    encloses(&b, w);
    if w.any {
        // no larger than the parts with the room for a sheet's captions
        check!(b.x1 >= w.x1 - margin);
        check!(b.y1 >= w.y1 - margin);
        check!(b.x2 <= w.x2 + margin);
        check!(b.y2 <= w.y2 + margin);
    }
});

fn any_box() -> Box4 { let (a, b) = (c(), c()); Box4 { x1: a, y1: b, x2: a + size(), y2: b + size(), any: boolean() } }
fn bound(b: &Box4) -> Bound { if b.any { Bound::new(b.x1, b.y1, b.x2, b.y2) } else { Bound::default() } }

// merging boxes: two boxes, bounded or not, merged in either order
harness!(h_c16_merge, {
    expect(1);
    let (a, b) = (any_box(), any_box());
    let w = join(a, b);
    let mut p = bound(&a);
    p.update(&bound(&b));
    let mut q = bound(&b);
    q.update(&bound(&a));
    goal(1);
    equals(&p, w);
    equals(&q, w);
});

// a box made of integers up to 2^53
harness!(h_c16_integers, {
    expect(1);
    let n = || int(-(1 << 53), 1 << 53);
    let (x1, y1, x2, y2) = (n(), n(), n(), n());
    let b = Bound::new_from_i64(x1, y1, x2, y2);
    goal(1);
    equals(&b, Box4 { x1: x1 as f64, y1: y1 as f64, x2: x2 as f64, y2: y2 as f64, any: true });
});

// a box given by any two corners has its corners put in order and keeps its extent
harness!(h_c16_corners, {
    expect(1);
    let (x1, y1, x2, y2) = (c(), c(), c(), c());
    let mut b = Bound::new(x1, y1, x2, y2);
    check!(b.width() == (x2 - x1).abs());
    check!(b.height() == (y2 - y1).abs());
    b.swap_if_needed();
    goal(1);
    equals(&b, join(point(x1, y1), point(x2, y2)));
    check!(b.width() == (x2 - x1).abs());
    check!(b.height() == (y2 - y1).abs());
    check!(b.width() == b.x2 - b.x1);
});

// 5, 9, 17, 33 or 67 parts, items or points, the first, middle and last of which are anywhere
harness!(h_c16_long, {
    expect(1);
    let n = length();
    let k = [0, n / 2, n - 1][pick(3)];
    let far = (c(), c());
    // the others lie on a diagonal
    let at = |i: usize| if i == k { Xy::new(far.0, far.1, XyType::Xy) } else { Xy::new(i as f64 - 8.0, 4.0 - i as f64, XyType::Xy) };
    let mut w = EMPTY;
    for i in 0..n { w = join(w, of(&at(i))); }
    let all = || { let mut p = Pts::default(); for i in 0..n { p.elements.push(at(i)); } p };
    let b = match pick(6) {
        0 => { let mut l = FpPoly::default(); l.pts = all(); l.layer = fp::layer(0, 8); footprint::Element::FpPoly(l).bounding_box() }
        1 => {
            w = join(w, point(0.0, 0.0));
            let mut m = Module::new("M".into());
            for i in 0..n {
                if i % 2 == 0 { let mut l = FpLine::default(); l.start = at(i); l.end = at(i); l.layer = fp::layer(0, 8); m.append(footprint::Element::FpLine(l)); }
                else { let mut p = Pad::new("1".into(), PadType::Smd, PadShape::Rect); let q = at(i); p.at = At::new(q.x, q.y, 0.0); p.size = Xy::new(0.0, 0.0, XyType::Size); m.append(footprint::Element::Pad(p)); }
            }
            m.bounding_box()
        }
        2 => { let mut l = Layout::default(); for i in 0..n { let mut x = GrText::default(); let q = at(i); x.at = At::new(q.x, q.y, 0.0); l.elements.push(if i % 2 == 0 { Element::GrText(x) } else { let mut s = Segment::default(); s.start = at(i); s.end = at(i); Element::Segment(s) }); } l.bounding_box() }
        3 => { let mut z = lay::zone(&mut Texts::none()); match pick(3) { 0 => z.polygons.push(all()), 1 => z.filled_polygons.push(all()), _ => for i in 0..n { let mut p = Pts::default(); p.elements.push(at(i)); if i % 2 == 0 { z.polygons.push(p); } else { z.filled_polygons.push(p); } } } Element::Zone(z).bounding_box() }
        4 => { let mut d = Dimension::default(); let q = at(0); d.text.at = At::new(q.x, q.y, 0.0); *match pick(7) { 0 => &mut d.feature1, 1 => &mut d.feature2, 2 => &mut d.crossbar, 3 => &mut d.arrow1a, 4 => &mut d.arrow1b, 5 => &mut d.arrow2a, _ => &mut d.arrow2b } = all(); Element::Dimension(d).bounding_box() }
        _ => { let mut b = Bound::default(); for i in 0..n { let q = at(i); b.update(&Bound::new(q.x, q.y, q.x, q.y)); } b }
    };
    goal(1);
    encloses(&b, w);
});

// a schematic of 5, 9, 17, 33 or 67 components and as many sheets, one of each anywhere
harness!(h_c16_schematic_long, {
    expect(1);
    let n = length();
    let k = [0, n / 2, n - 1][pick(3)];
    let mut s = sch::empty();
    let mut w = EMPTY;
    let f = || int(-1_000_000, 1_000_000);
    for i in 0..n {
        let mut c = sch::component(&[1, 0, 0, -1]);
        c.x = if i == k { f() } else { 100 };
        c.y = if i == k { f() } else { 100 };
        w = join(w, point(c.x as f64, c.y as f64));
        s.elements.push(schematic::Element::Component(c));
        let mut t = schematic::Sheet::default();
        t.x = if i == n - 1 - k { f() } else { 50 };
        t.y = if i == n - 1 - k { f() } else { 50 };
        t.dimx = 100;
        t.dimy = 200;
        w = join(w, Box4 { x1: t.x as f64, y1: t.y as f64, x2: (t.x + t.dimx) as f64, y2: (t.y + t.dimy) as f64, any: true });
        s.sheets.push(t);
    }
    goal(1);
    encloses(&s.bounding_box(), w);
});
