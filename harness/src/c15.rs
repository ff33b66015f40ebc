//! C15: moving a layout moves every placed item by the same offset.

use crate::check;
use crate::fp;
use crate::gen::{length, Texts, ROUNDS};
use crate::harness;
use crate::lay;
use crate::sym::*;
use kicad_parse_gen::footprint::{self, Pts, Xy, XyType};
use kicad_parse_gen::layout::*;
use kicad_parse_gen::{Adjust, BoundingBox};

/// a coordinate on which addition is exact: multiples of 1/4096 up to 2^20
fn c() -> f64 { grid(-(1 << 32), 1 << 32, 12) }
fn xy(t: XyType) -> Xy { Xy::new(c(), c(), t) }
fn pts(n: usize) -> Pts { let mut p = Pts::default(); for _ in 0..n { p.elements.push(xy(XyType::Xy)); } p }

/// any placed item of the kind; `num` gives the coordinates
fn item(k: usize, n: &dyn Fn() -> f64) -> Element {
    let p = |t| Xy::new(n(), n(), t);
    let ps = |k: usize| { let mut q = Pts::default(); for _ in 0..k { q.elements.push(Xy::new(n(), n(), XyType::Xy)); } q };
    match k {
        0 => {
            let mut m = footprint::Module::new("M".into());
            for k in [0, 1, 2, 3, 4, 15, 16, 17].iter() { m.append(fp::element_light(*k, &mut Texts::none())); }
            m.append(footprint::Element::At(footprint::At::new(n(), n(), n())));
            let mut t = footprint::FpText::new("reference".into(), "R1".into());
            t.at = footprint::At::new(n(), n(), 90.0);
            m.append(footprint::Element::FpText(t));
            let mut q = footprint::Pad::new("1".into(), footprint::PadType::Smd, footprint::PadShape::Rect);
            q.at = footprint::At::new(n(), n(), 0.0);
            q.size = Xy::new(1.0, 2.0, XyType::Size);
            m.append(footprint::Element::Pad(q));
            let mut l = footprint::FpLine::default();
            l.start = Xy::new(n(), n(), XyType::Start);
            m.append(footprint::Element::FpLine(l));
            Element::Module(m)
        }
        1 => { let mut x = GrText::default(); x.value = "t".into(); x.at = footprint::At::new(n(), n(), n()); x.layer = fp::layer(0, 3); Element::GrText(x) }
        2 => { let mut x = GrLine::default(); x.start = p(XyType::Start); x.end = p(XyType::End); x.angle = n(); x.width = n(); Element::GrLine(x) }
        3 => { let mut x = GrArc::default(); x.start = p(XyType::Start); x.end = p(XyType::End); x.angle = n(); x.width = n(); Element::GrArc(x) }
        4 => { let mut x = GrCircle::default(); x.center = p(XyType::Center); x.end = p(XyType::End); x.width = n(); Element::GrCircle(x) }
        5 => {
            let mut d = Dimension::default();
            d.width = n();
            d.text.at = footprint::At::new(n(), n(), n());
            d.feature1 = ps(2); d.feature2 = ps(2); d.crossbar = ps(2); d.arrow1a = ps(2); d.arrow1b = ps(2); d.arrow2a = ps(1); d.arrow2b = ps(3);
            Element::Dimension(d)
        }
        6 => { let mut s = Segment::default(); s.start = p(XyType::Start); s.end = p(XyType::End); s.width = n(); s.net = 3; Element::Segment(s) }
        7 => { let mut v = Via::default(); v.at = footprint::At::new(n(), n(), n()); v.size = n(); v.drill = n(); Element::Via(v) }
        8 => {
            let mut z = lay::zone(&mut Texts::none());
            for _ in 0..pick(3) { z.polygons.push(ps(2)); }
            for _ in 0..pick(3) { z.filled_polygons.push(ps(1)); }
            if boolean() { z.fill_segments = Some(ps(2)); }
            Element::Zone(z)
        }
        9 => lay::element_fixed(1),
        10 => lay::element_fixed(2),
        _ => lay::element_fixed(11),
    }
}
fn shift(p: &mut Xy, x: f64, y: f64) { p.x = p.x + x; p.y = p.y + y; }
fn shift_pts(p: &mut Pts, x: f64, y: f64) { for e in &mut p.elements { shift(e, x, y); } }
/// the item moved by an offset, written down independently
fn moved(e: &Element, x: f64, y: f64) -> Element {
    let mut e = e.clone();
    match e {
        Element::Module(ref mut m) => for i in &mut m.elements { if let footprint::Element::At(ref mut a) = *i { a.x = a.x + x; a.y = a.y + y; } },
        Element::GrText(ref mut t) => { t.at.x = t.at.x + x; t.at.y = t.at.y + y; }
        Element::GrLine(ref mut l) => { shift(&mut l.start, x, y); shift(&mut l.end, x, y); }
        Element::GrArc(ref mut l) => { shift(&mut l.start, x, y); shift(&mut l.end, x, y); }
        Element::GrCircle(ref mut l) => { shift(&mut l.center, x, y); shift(&mut l.end, x, y); }
        Element::Dimension(ref mut d) => {
            d.text.at.x = d.text.at.x + x;
            d.text.at.y = d.text.at.y + y;
            for p in vec![&mut d.feature1, &mut d.feature2, &mut d.crossbar, &mut d.arrow1a, &mut d.arrow1b, &mut d.arrow2a, &mut d.arrow2b] { shift_pts(p, x, y); }
        }
        Element::Segment(ref mut l) => { shift(&mut l.start, x, y); shift(&mut l.end, x, y); }
        Element::Via(ref mut v) => { v.at.x = v.at.x + x; v.at.y = v.at.y + y; }
        Element::Zone(ref mut z) => {
            for p in &mut z.polygons { shift_pts(p, x, y); }
            for p in &mut z.filled_polygons { shift_pts(p, x, y); }
            if let Some(ref mut p) = z.fill_segments { shift_pts(p, x, y); }
        }
        _ => (),
    }
    e
}

// one item of every kind at any position, moved by any offset (multiples of 1/4096 mm, up to 2^20 mm)
harness!(h_c15_move, {
    expect(1);
    let k = pick(12);
    let e = item(k, &c);
    let (x, y) = (c(), c());
    let want = moved(&e, x, y);
    let mut l = lay::layout_with(e);
    l.adjust(x, y);
    goal(1);
    check!(l.elements.len() == 1);
    for i in &l.elements { lay::same_element(&want, i); }
    let mut h = Layout::default();
    h.elements = l.elements.clone();
    lay::same_head(&Layout::default(), &l);
});

// one item of every kind at any finite position, moved by any finite offset: every coordinate is the rounded sum
harness!(h_c15_move_any, {
    expect(1);
    let k = pick(9);
    let fixed = || 0.0;
    let mut e = item(k, &fixed);
    let (x, y) = (float(), float());
    let (px, py) = (float(), float());
    match e {
        Element::Module(ref mut m) => for i in &mut m.elements { if let footprint::Element::At(ref mut a) = *i { a.x = px; a.y = py; } },
        Element::GrText(ref mut t) => { t.at.x = px; t.at.y = py; }
        Element::GrLine(ref mut l) => { l.end.x = px; l.end.y = py; }
        Element::GrArc(ref mut l) => { l.start.x = px; l.start.y = py; }
        Element::GrCircle(ref mut l) => { l.center.x = px; l.end.y = py; }
        Element::Dimension(ref mut d) => { d.feature2.elements[1].x = px; d.arrow1b.elements[0].y = py; }
        Element::Segment(ref mut l) => { l.start.x = px; l.end.y = py; }
        Element::Via(ref mut v) => { v.at.x = px; v.at.y = py; }
        Element::Zone(ref mut z) => { z.fill_segments = Some(pts(0)); if let Some(ref mut p) = z.fill_segments { p.elements.push(Xy::new(px, py, XyType::Xy)); } }
        _ => (),
    }
    let want = moved(&e, x, y);
    let mut l = lay::layout_with(e);
    l.adjust(x, y);
    goal(1);
    for i in &l.elements { lay::same_element(&want, i); }
});

// two items of any kinds: both are moved, by the same offset
harness!(h_c15_two, {
    expect(1);
    let (i, j) = (pick(12), pick(12));
    let (a, b) = (item(i, &c), item(j, &c));
    let (x, y) = (c(), c());
    let (wa, wb) = (moved(&a, x, y), moved(&b, x, y));
    let mut l = lay::layout_with(a);
    l.elements.push(b);
    l.adjust(x, y);
    goal(1);
    check!(l.elements.len() == 2);
    lay::same_element(&wa, &l.elements[0]);
    lay::same_element(&wb, &l.elements[1]);
});

// one item of every kind moved by an offset and back is where it was
harness!(h_c15_back, {
    expect(1);
    let e = item(pick(12), &c);
    let (x, y) = (c(), c());
    let mut l = lay::layout_with(e.clone());
    l.adjust(x, y);
    l.adjust(-x, -y);
    goal(1);
    for i in &l.elements { lay::same_element(&e, i); }
});

// the bounding box of a moved item is its box moved, for positions and offsets that are multiples of 1/16 mm up to 1024 mm (circles: with the end point level with the centre)
harness!(h_c15_box, {
    expect(1);
    let k = pick(12);
    // multiples of 1/16 up to 1024
    let c = || grid(-(1 << 14), 1 << 14, 4);
    let mut e = item(k, &c);
    match e {
        Element::GrCircle(ref mut x) => x.end.y = x.center.y,
        Element::Dimension(ref mut d) => {
            // two of the lists at any position, the others empty
            let (i, j) = (pick(7), pick(7));
            for (n, p) in vec![&mut d.feature1, &mut d.feature2, &mut d.crossbar, &mut d.arrow1a, &mut d.arrow1b, &mut d.arrow2a, &mut d.arrow2b].into_iter().enumerate() {
                if n == i || n == j { p.elements.truncate(1); } else { p.elements.clear(); }
            }
        }
        Element::Zone(ref mut z) => for p in &mut z.polygons { p.elements.truncate(1); },
        _ => (),
    }
    let l0 = lay::layout_with(e);
    let b0 = l0.bounding_box();
    let mut l = lay::copy(&l0);
    let (x, y) = (c(), c());
    l.adjust(x, y);
    let b = l.bounding_box();
    goal(1);
    check!(b.is_bounded == b0.is_bounded);
    if b0.is_bounded {
        check!(b.x1 == b0.x1 + x);
        check!(b.x2 == b0.x2 + x);
        check!(b.y1 == b0.y1 + y);
        check!(b.y2 == b0.y2 + y);
    }
});

// single items moved through their own interface: points, locations, point lists, modules with several locations
harness!(h_c15_parts, {
    expect(1);
    let (x, y) = (c(), c());
    match pick(4) {
        0 => { let a = xy(XyType::Start); let mut b = a.clone(); b.adjust(x, y); check!(b.x == a.x + x); check!(b.y == a.y + y); check!(b.t == a.t); }
        1 => { let a = footprint::At::new(c(), c(), c()); let mut b = a.clone(); b.adjust(x, y); check!(b.x == a.x + x); check!(b.y == a.y + y); check!(b.rot == a.rot); }
        2 => {
            let a = pts(pick(4));
            let mut b = a.clone();
            b.adjust(x, y);
            check!(b.elements.len() == a.elements.len());
            for (p, q) in a.elements.iter().zip(b.elements.iter()) { check!(q.x == p.x + x); check!(q.y == p.y + y); check!(q.t == p.t); }
        }
        _ => {
            let m = match item(0, &c) { Element::Module(m) => m, _ => unreachable!() };
            let mut n = m.clone();
            n.adjust(x, y);
            let (px, py) = m.at();
            let (qx, qy) = n.at();
            check!(qx == px + x);
            check!(qy == py + y);
            check!(n.get_rotation() == m.get_rotation());
            let mut o = m.clone();
            o.adjust_at(x, y);
            fp::same_module(&n, &o);
        }
    }
    goal(1);
});

// 5, 9, 17, 33 or 67 items of all kinds, zones and dimensions with as many points
harness!(h_c15_long, {
    expect(1);
    let n = length();
    let (x, y) = (c(), c());
    let mut l = Layout::default();
    match pick(3) {
        0 => for i in 0..n { l.elements.push(item(i % 8, &c)); },
        1 => for i in 0..3 {
            let mut z = lay::zone(&mut Texts::none());
            if i == 0 { for j in 0..n { z.polygons.push(pts(j % 3)); } } else if i == 1 { for j in 0..n { z.filled_polygons.push(pts(j % 3)); } } else { z.polygons.push(pts(n)); z.filled_polygons.push(pts(n)); z.fill_segments = Some(pts(n)); }
            l.elements.push(Element::Zone(z));
        },
        _ => {
            let mut d = Dimension::default();
            d.feature1 = pts(n); d.feature2 = pts(n); d.crossbar = pts(n); d.arrow1a = pts(n); d.arrow1b = pts(n); d.arrow2a = pts(n); d.arrow2b = pts(n);
            l.elements.push(Element::Dimension(d));
        }
    }
    let want: Vec<Element> = l.elements.iter().map(|e| moved(e, x, y)).collect();
    l.adjust(x, y);
    goal(1);
    check!(l.elements.len() == want.len());
    for (w, e) in want.iter().zip(l.elements.iter()) { lay::same_element(w, e); }
});

// every text of the items any: in turn words of 1 to 14 characters and texts with a parenthesis or blank; the items move and keep their texts
harness!(h_c15_words, {
    expect(1);
    let mut t = Texts::all(pick(ROUNDS));
    let mut l = Layout::default();
    for k in 0..12 {
        let mut e = if k == 8 { Element::Zone(lay::zone(&mut t)) } else { item(k, &c) };
        match e {
            Element::Module(ref mut m) => {
                m.name = t.text();
                for e in &mut m.elements {
                    match *e {
                        footprint::Element::FpText(ref mut x) => { x.name = t.text(); x.value = t.text(); }
                        footprint::Element::Pad(ref mut p) => { p.name = t.text(); p.net = Some(footprint::Net { num: 1, name: t.text().into() }); }
                        _ => (),
                    }
                }
                m.append(footprint::Element::Attr(t.text()));
                m.append(footprint::Element::Path(t.text()));
            }
            Element::GrText(ref mut x) => { x.value = t.text(); x.tstamp = Some(t.text()); }
            Element::GrLine(ref mut x) => x.tstamp = Some(t.text()),
            Element::GrArc(ref mut x) => x.tstamp = Some(t.text()),
            Element::GrCircle(ref mut x) => x.tstamp = Some(t.text()),
            Element::Dimension(ref mut x) => { x.name = t.text(); x.text.value = t.text(); x.tstamp = Some(t.text()); }
            Element::Segment(ref mut x) => { x.status = Some(t.text()); x.tstamp = Some(t.text()); }
            Element::Zone(ref mut z) => { z.connect_pads.connection = Some(t.text()); z.fill.smoothing = Some(t.text()); z.polygons.push(pts(2)); z.filled_polygons.push(pts(1)); z.fill_segments = Some(pts(2)); }
            Element::Net(ref mut n) => n.name = t.text().into(),
            Element::NetClass(ref mut n) => { n.name = t.text(); n.nets = vec![t.text().into()]; }
            _ => (),
        }
        l.elements.push(e);
    }
    l.page = t.text();
    let (x, y) = (c(), c());
    let want: Vec<Element> = l.elements.iter().map(|e| moved(e, x, y)).collect();
    let page = l.page.clone();
    l.adjust(x, y);
    goal(1);
    check!(l.page == page);
    check!(l.elements.len() == want.len());
    for (a, b) in want.iter().zip(l.elements.iter()) { lay::same_element(a, b); }
});
