//! C04: reading a layout puts every value where it belongs and keeps unknown parts.

use crate::check;
use crate::fp;
use crate::gen::*;
use crate::harness;
use crate::lay::*;
use crate::sym::*;
use kicad_parse_gen::footprint::*;
use kicad_parse_gen::layout::{parse, Element, Layout};
use kicad_parse_gen::Sexp;

fn read(body: &str) -> Option<Layout> {
    let s = format!("(kicad_pcb {}\n)\n", body);
    match parse(&s) { Ok(l) => { goal(1); Some(l) } Err(_) => { check!("reading" == "failed"); None } }
}
fn only(body: &str) -> Option<Element> {
    let mut l = read(body)?;
    check!(l.elements.len() == 1);
    l.elements.pop()
}
fn nums(name: &str, v: &[f64]) -> String {
    let mut s = format!("({}", name);
    for x in v { s.push(' '); s.push_str(&x.to_string()); }
    s.push(')');
    s
}
fn opt(c: bool, s: String) -> String { if c { s } else { String::new() } }
fn floats(n: usize) -> Vec<f64> { (0..n).map(|_| float()).collect() }
fn is_layer(l: &Layer, s: usize, t: usize) { check!(l.side == fp::side(s)); check!(l.t == fp::ltype(t)); }
fn sym(s: &str) -> Sexp { Sexp::String(s.into()) }
/// a symbolic quoted text
fn quoted(max: usize) -> (String, String) { let t = string(TEXT_TAB, 0, max); (format!("\"{}\"", t), t) }

// general section, version, host and page: any numbers
harness!(h_c04_head, {
    expect(1);
    let i: Vec<i64> = (0..8).map(|_| any_int()).collect();
    let v = floats(5);
    let s = format!("(version {}) (host pcbnew \"(2015-1 a)\")\n\n  (general\n (links {}) (no_connects {}) {} {} (drawings {}) (tracks {}) (zones {}) (modules {}) (nets {}))\n (page \"A 3\")", i[0], i[1], i[2], nums("area", &v[0..4]), nums("thickness", &v[4..5]), i[3], i[4], i[5], i[6], i[7]);
    if let Some(l) = read(&s) {
        check!(l.version == i[0]);
        check!(l.host.tool == "pcbnew");
        check!(l.host.build == "(2015-1 a)");
        check!(l.general.links == i[1]);
        check!(l.general.no_connects == i[2]);
        check!(l.general.area.x1 == v[0]);
        check!(l.general.area.y1 == v[1]);
        check!(l.general.area.x2 == v[2]);
        check!(l.general.area.y2 == v[3]);
        check!(l.general.thickness == v[4]);
        check!(l.general.drawings == i[3]);
        check!(l.general.tracks == i[4]);
        check!(l.general.zones == i[5]);
        check!(l.general.modules == i[6]);
        check!(l.general.nets == i[7]);
        check!(l.page == "A 3");
        check!(l.elements.is_empty() && l.layers.is_empty() && l.setup.elements.is_empty() && l.setup.pcbplotparams.is_empty());
    }
});

// texts of the head: up to 2 characters, quoted
harness!(h_c04_head_texts, {
    expect(1);
    let (q, t) = quoted(2);
    match pick(6) {
        0 => if let Some(l) = read(&format!("(host {} b)", q)) { check!(l.host.tool == t); check!(l.host.build == "b"); },
        1 => if let Some(l) = read(&format!("(host a {})", q)) { check!(l.host.tool == "a"); check!(l.host.build == t); },
        2 => if let Some(l) = read(&format!("(page {})", q)) { check!(l.page == t); },
        3 => if let Some(l) = read(&format!("(setup ({} 1) (b 2))", q)) { if l.setup.elements.len() == 2 { check!(l.setup.elements[0].name == t); check!(l.setup.elements[0].value1 == "1"); check!(l.setup.elements[1].name == "b"); } else { check!(l.setup.elements.len() == 2); } },
        4 => if let Some(l) = read(&format!("(setup (a {}) (b 2))", q)) { if l.setup.elements.len() == 2 { check!(l.setup.elements[0].value1 == t); check!(l.setup.elements[0].value2.is_none()); } else { check!(l.setup.elements.len() == 2); } },
        _ => if let Some(l) = read(&format!("(setup (a 1 {}))", q)) { if l.setup.elements.len() == 1 { check!(l.setup.elements[0].value1 == "1"); check!(l.setup.elements[0].value2 == Some(t)); } else { check!(l.setup.elements.len() == 1); } },
    }
});

// setup: up to 2 settings and 2 plot parameters, with one or two values, plot parameters before, between or after
harness!(h_c04_setup, {
    expect(1);
    let (n, m) = (pick(3), pick(3));
    let two: Vec<bool> = (0..4).map(|_| boolean()).collect();
    let pos = pick(n + 1);
    let mut s = String::from("(setup");
    for i in 0..n + 1 {
        if i == pos {
            s.push_str(" (pcbplotparams");
            for j in 0..m { s.push_str(&format!(" (p{} v{}{})", j, j, if two[2 + j] { " w" } else { "" })); }
            s.push(')');
        }
        if i < n { s.push_str(&format!(" (n{} \"x {}\"{})", i, i, if two[i] { " y" } else { "" })); }
    }
    s.push(')');
    if let Some(l) = read(&s) {
        check!(l.setup.elements.len() == n);
        check!(l.setup.pcbplotparams.len() == m);
        for (i, e) in l.setup.elements.iter().enumerate().take(2) { check!(e.name == ["n0", "n1"][i]); check!(e.value1 == ["x 0", "x 1"][i]); check!(e.value2 == if two[i] { Some("y".to_string()) } else { None }); }
        for (i, e) in l.setup.pcbplotparams.iter().enumerate().take(2) { check!(e.name == ["p0", "p1"][i]); check!(e.value1 == ["v0", "v1"][i]); check!(e.value2 == if two[2 + i] { Some("w".to_string()) } else { None }); }
    }
});

// layer table: every layer name and type, any number, hidden or not, one or two layers
harness!(h_c04_layer_table, {
    expect(1);
    let (s, t, ty) = (pick(11), pick(11), pick(5));
    let hide = boolean();
    let n = any_int();
    let more = boolean();
    let b = format!("(layers\n ({} {}{} {}{}){})", n, fp::SIDES[s], fp::TYPES[t], LAYER_TYPES[ty], opt(hide, " hide".into()), opt(more, " (31 B.Cu power)".into()));
    if let Some(l) = read(&b) {
        check!(l.layers.len() == if more { 2 } else { 1 });
        check!(l.layers[0].num == n);
        is_layer(&l.layers[0].layer, s, t);
        check!(layer_type_no(&l.layers[0].layer_type) == ty);
        check!(l.layers[0].hide == hide);
        if more { check!(l.layers[1].num == 31); is_layer(&l.layers[1].layer, 1, 0); check!(layer_type_no(&l.layers[1].layer_type) == 1); check!(!l.layers[1].hide); }
    }
});

// nets and net classes: any numbers, every optional part, names of up to 2 characters
harness!(h_c04_nets, {
    expect(1);
    match pick(3) {
        0 => {
            let n = any_int();
            let (q, t) = quoted(2);
            if let Some(e) = only(&format!("(net {} {})", n, q)) { match e { Element::Net(x) => { check!(x.num == n); check!(x.name.0 == t); } _ => check!(kind(&e) == 1) } }
        }
        1 => {
            let v = floats(8);
            let has: Vec<bool> = (0..8).map(|_| pick(2) == 0).collect();
            let names = ["clearance", "trace_width", "via_dia", "via_drill", "uvia_dia", "uvia_drill", "diff_pair_gap", "diff_pair_width"];
            let mut s = String::from("(net_class Power \"a b\"");
            for i in 0..8 { if has[i] { s.push_str("\n "); s.push_str(&nums(names[i], &v[i..i + 1])); } }
            s.push_str(" (add_net GND) (add_net \"/a b/c\"))");
            if let Some(e) = only(&s) {
                match e {
                    Element::NetClass(c) => {
                        check!(c.name == "Power");
                        check!(c.desc == "a b");
                        let d = |i: usize, d: f64| if has[i] { v[i] } else { d };
                        check!(c.clearance == d(0, 0.1524));
                        check!(c.trace_width == d(1, 0.2032));
                        check!(c.via_dia == d(2, 0.675));
                        check!(c.via_drill == d(3, 0.25));
                        check!(c.uvia_dia == d(4, 0.508));
                        check!(c.uvia_drill == d(5, 0.127));
                        check!(c.diff_pair_gap == if has[6] { Some(v[6]) } else { None });
                        check!(c.diff_pair_width == if has[7] { Some(v[7]) } else { None });
                        check!(c.nets.len() == 2);
                        check!(c.nets[0].0 == "GND");
                        check!(c.nets[1].0 == "/a b/c");
                    }
                    _ => check!(kind(&e) == 2),
                }
            }
        }
        _ => {
            let (q, t) = quoted(2);
            let k = pick(3);
            let w = |i: usize, d: &str| if i == k { q.clone() } else { d.to_string() };
            let x = |i: usize, d: &str| if i == k { t.clone() } else { d.to_string() };
            if let Some(e) = only(&format!("(net_class {} {} (clearance 1) (add_net {}))", w(0, "n"), w(1, "d"), w(2, "g"))) {
                match e { Element::NetClass(c) => { check!(c.name == x(0, "n")); check!(c.desc == x(1, "d")); check!(c.nets.len() == 1); check!(c.nets[0].0 == x(2, "g")); } _ => check!(kind(&e) == 2) }
            }
        }
    }
});

fn stamp(i: usize) -> (&'static str, Option<String>) { if i == 0 { ("", None) } else { ("(tstamp 5A0B)", Some("5A0B".into())) } }

// drawings: any numbers, every optional part
harness!(h_c04_drawings, {
    expect(1);
    let v = floats(6);
    let (st, want) = stamp(pick(2));
    let (a, w) = (boolean(), boolean());
    let width = opt(w, nums("width", &v[5..6]));
    let ww = if w { v[5] } else { 0.0 };
    match pick(3) {
        0 => if let Some(e) = only(&format!("(gr_line {} {} {} (layer Edge.Cuts) {} {})", nums("start", &v[0..2]), nums("end", &v[2..4]), opt(a, nums("angle", &v[4..5])), width, st)) {
            match e { Element::GrLine(l) => { check!(l.start.x == v[0]); check!(l.start.y == v[1]); check!(l.end.x == v[2]); check!(l.end.y == v[3]); check!(l.angle == if a { v[4] } else { 0.0 }); is_layer(&l.layer, 6, 6); check!(l.width == ww); check!(l.tstamp == want); } _ => check!(kind(&e) == 4) }
        },
        1 => if let Some(e) = only(&format!("(gr_arc {} {} {} (layer Dwgs.User) {} {})", nums("start", &v[0..2]), nums("end", &v[2..4]), nums("angle", &v[4..5]), width, st)) {
            match e { Element::GrArc(l) => { check!(l.start.x == v[0]); check!(l.start.y == v[1]); check!(l.end.x == v[2]); check!(l.end.y == v[3]); check!(l.angle == v[4]); is_layer(&l.layer, 2, 4); check!(l.width == ww); check!(l.tstamp == want); } _ => check!(kind(&e) == 5) }
        },
        _ => if let Some(e) = only(&format!("(gr_circle {} {} (layer Eco2.User) {} {})", nums("center", &v[0..2]), nums("end", &v[2..4]), width, st)) {
            match e { Element::GrCircle(l) => { check!(l.center.x == v[0]); check!(l.center.y == v[1]); check!(l.end.x == v[2]); check!(l.end.y == v[3]); is_layer(&l.layer, 5, 4); check!(l.width == ww); check!(l.tstamp == want); } _ => check!(kind(&e) == 6) }
        },
    }
});

// texts and dimensions: any numbers, every optional part
harness!(h_c04_texts, {
    expect(1);
    let v = floats(6);
    let (st, want) = stamp(pick(2));
    if pick(2) == 0 {
        let (q, t) = quoted(2);
        let (rot, j, it) = (boolean(), pick(4), boolean());
        let s = format!("(gr_text {} {} (layer Cmts.User)\n (effects (font {} {}{}) {}) {})", q, nums("at", if rot { &v[0..3] } else { &v[0..2] }), nums("size", &v[3..5]), nums("thickness", &v[5..6]), opt(it, " italic".into()), ["", "(justify mirror)", "(justify left)", "(justify right)"][j], st);
        if let Some(e) = only(&s) {
            match e {
                Element::GrText(x) => {
                    check!(x.value == t);
                    check!(x.at.x == v[0]);
                    check!(x.at.y == v[1]);
                    check!(x.at.rot == if rot { v[2] } else { 0.0 });
                    is_layer(&x.layer, 3, 4);
                    check!(x.effects.font.size.x == v[3]);
                    check!(x.effects.font.size.y == v[4]);
                    check!(x.effects.font.thickness == v[5]);
                    check!(x.effects.font.italic == it);
                    check!(x.effects.justify == [None, Some(Justify::Mirror), Some(Justify::Left), Some(Justify::Right)][j]);
                    check!(x.tstamp == want);
                }
                _ => check!(kind(&e) == 3),
            }
        }
    } else {
        let p = floats(28);
        let mut s = format!("(dimension \"1 mm\" {} (layer F.Fab) {} (gr_text T (at 1 2) (layer F.SilkS) (effects (font (size 1 1) (thickness 2))))", nums("width", &v[0..1]), st);
        let names = ["feature1", "feature2", "crossbar", "arrow1a", "arrow1b", "arrow2a", "arrow2b"];
        for i in 0..7 { s.push_str(&format!("\n ({} (pts {} {}))", names[i], nums("xy", &p[4 * i..4 * i + 2]), nums("xy", &p[4 * i + 2..4 * i + 4]))); }
        s.push(')');
        if let Some(e) = only(&s) {
            match e {
                Element::Dimension(d) => {
                    check!(d.name == "1 mm");
                    check!(d.width == v[0]);
                    is_layer(&d.layer, 0, 8);
                    check!(d.tstamp == want);
                    check!(d.text.value == "T");
                    check!(d.text.at.x == 1.0 && d.text.at.y == 2.0);
                    for (i, q) in [&d.feature1, &d.feature2, &d.crossbar, &d.arrow1a, &d.arrow1b, &d.arrow2a, &d.arrow2b].iter().enumerate() {
                        check!(q.elements.len() == 2);
                        check!(q.elements[0].x == p[4 * i]);
                        check!(q.elements[0].y == p[4 * i + 1]);
                        check!(q.elements[1].x == p[4 * i + 2]);
                        check!(q.elements[1].y == p[4 * i + 3]);
                    }
                }
                _ => check!(kind(&e) == 7),
            }
        }
    }
});

// tracks and vias: any numbers, every optional part
harness!(h_c04_tracks, {
    expect(1);
    let v = floats(5);
    let net = any_int();
    if pick(2) == 0 {
        let (st, want) = stamp(pick(2));
        let status = boolean();
        let s = format!("(segment {} {} {} (layer B.Cu) (net {}) {} {})", nums("start", &v[0..2]), nums("end", &v[2..4]), nums("width", &v[4..5]), net, st, opt(status, "(status 30)".into()));
        if let Some(e) = only(&s) {
            match e {
                Element::Segment(g) => {
                    check!(g.start.x == v[0]); check!(g.start.y == v[1]); check!(g.end.x == v[2]); check!(g.end.y == v[3]); check!(g.width == v[4]);
                    is_layer(&g.layer, 1, 0);
                    check!(g.net == net);
                    check!(g.tstamp == want);
                    check!(g.status == if status { Some("30".to_string()) } else { None });
                }
                _ => check!(kind(&e) == 8),
            }
        }
    } else {
        let (blind, micro, drill, has_net) = (boolean(), boolean(), boolean(), boolean());
        let s = format!("(via {} {} {} {} {} (layers F.Cu In2.Cu) {})", opt(blind, "blind".into()), opt(micro, "micro".into()), nums("at", &v[0..2]), nums("size", &v[2..3]), opt(drill, nums("drill", &v[3..4])), opt(has_net, format!("(net {})", net)));
        if let Some(e) = only(&s) {
            match e {
                Element::Via(x) => {
                    check!(x.blind == blind);
                    check!(x.micro == micro);
                    check!(x.at.x == v[0]); check!(x.at.y == v[1]); check!(x.size == v[2]);
                    check!(x.drill == if drill { v[3] } else { 0.0 });
                    check!(x.layers.layers.len() == 2);
                    is_layer(&x.layers.layers[0], 0, 0);
                    is_layer(&x.layers.layers[1], 9, 0);
                    check!(x.net == if has_net { net } else { 0 });
                }
                _ => check!(kind(&e) == 9),
            }
        }
    }
});

// zones: any numbers, every optional part
harness!(h_c04_zone, {
    expect(1);
    let v = floats(8);
    let net = any_int();
    let (prio, conn, keep) = (boolean(), pick(3), pick(9));
    let pr = int(0, i64::MAX);
    let (arc, filled, smooth, radius) = (any_int(), boolean(), boolean(), boolean());
    let mode = pick(3);
    let c = ["", "no", "thru_hole_only"][conn];
    let k = |b: usize| if keep & b != 0 { "not_allowed" } else { "allowed" };
    let ko = opt(keep < 8, format!("(keepout (tracks {}) (vias {}) (copperpour {}))", k(1), k(2), k(4)));
    let s = format!("(zone (net {}) (net_name \"a b\") (layer In1.Cu) (tstamp 5E) (hatch edge {}) {} (connect_pads {} {}) {} {} (fill {} {} (arc_segments {}) {} {} {} {}))",
        net, v[0].to_string(), opt(prio, format!("(priority {})", pr)), c, nums("clearance", &v[1..2]), nums("min_thickness", &v[2..3]), ko,
        opt(filled, "yes".into()), ["", "(mode segment)", "(mode polygon)"][mode], arc, nums("thermal_gap", &v[3..4]), nums("thermal_bridge_width", &v[4..5]), opt(smooth, "(smoothing fillet)".into()), opt(radius, nums("radius", &v[5..6])));
    if let Some(e) = only(&s) {
        match e {
            Element::Zone(z) => {
                check!(z.net == net);
                check!(z.net_name.0 == "a b");
                is_layer(&z.layer, 8, 0);
                check!(z.tstamp == "5E");
                check!(z.hatch.style == "edge");
                check!(z.hatch.pitch == v[0]);
                check!(z.priority == if prio { pr as u64 } else { 0 });
                check!(z.connect_pads.connection == if conn == 0 { None } else { Some(c.to_string()) });
                check!(z.connect_pads.clearance == v[1]);
                check!(z.min_thickness == v[2]);
                match z.keepout { Some(ref q) => { check!(keep < 8); check!(q.tracks == (keep & 1 == 0)); check!(q.vias == (keep & 2 == 0)); check!(q.copperpour == (keep & 4 == 0)); } None => check!(keep == 8) }
                check!(z.fill.filled == filled);
                check!(z.fill.segment == (mode == 1));
                check!(z.fill.arc_segments == arc);
                check!(z.fill.thermal_gap == v[3]);
                check!(z.fill.thermal_bridge_width == v[4]);
                check!(z.fill.smoothing == if smooth { Some("fillet".to_string()) } else { None });
                check!(z.fill.corner_radius == if radius { v[5] } else { 0.0 });
                check!(z.polygons.is_empty() && z.filled_polygons.is_empty() && z.fill_segments.is_none() && z.other.is_empty());
            }
            _ => check!(kind(&e) == 10),
        }
    }
});

// zone outlines and unrecognised zone parts: up to 3 parts in any order
harness!(h_c04_zone_parts, {
    expect(1);
    let mut s = String::from("(zone (net 1) (net_name N) (layer F.Cu) (tstamp 5E) (hatch edge 0.5) (connect_pads (clearance 1)) (min_thickness 2) (fill (arc_segments 16) (thermal_gap 3) (thermal_bridge_width 4))");
    let (mut p, mut f, mut g, mut o) = (vec![], vec![], None, vec![]);
    for _ in 0..pick(4) {
        match pick(4) {
            0 => { let v = floats(4); s.push_str(&format!("\n (polygon (pts {} {}))", nums("xy", &v[0..2]), nums("xy", &v[2..4]))); p.push(v); }
            1 => { let v = floats(2); s.push_str(&format!("\n (filled_polygon (pts {}))", nums("xy", &v[0..2]))); f.push(v); }
            2 => { if g.is_none() { let v = floats(2); s.push_str(&format!("\n (fill_segments (pts {}))", nums("xy", &v[0..2]))); g = Some(v); } }
            _ => { s.push_str("\n (extra \"a b\" (c))"); o.push(Sexp::List(vec![sym("extra"), sym("a b"), Sexp::List(vec![sym("c")])])); }
        }
    }
    s.push(')');
    if let Some(e) = only(&s) {
        match e {
            Element::Zone(z) => {
                check!(z.polygons.len() == p.len());
                for (a, b) in z.polygons.iter().zip(p.iter()) { check!(a.elements.len() == 2); check!(a.elements[0].x == b[0]); check!(a.elements[0].y == b[1]); check!(a.elements[1].x == b[2]); check!(a.elements[1].y == b[3]); }
                check!(z.filled_polygons.len() == f.len());
                for (a, b) in z.filled_polygons.iter().zip(f.iter()) { check!(a.elements.len() == 1); check!(a.elements[0].x == b[0]); check!(a.elements[0].y == b[1]); }
                match (&z.fill_segments, &g) { (Some(a), Some(b)) => { check!(a.elements.len() == 1); check!(a.elements[0].x == b[0]); check!(a.elements[0].y == b[1]); } (None, None) => {} _ => check!(z.fill_segments.is_some() == g.is_some()) }
                check!(z.other == o);
            }
            _ => check!(kind(&e) == 10),
        }
    }
});

// texts of zones, tracks and drawings: up to 2 characters, quoted
harness!(h_c04_more_texts, {
    expect(1);
    let (q, t) = quoted(2);
    let k = pick(7);
    let w = |i: usize, d: &str| if i == k { q.clone() } else { d.to_string() };
    let x = |i: usize, d: &str| if i == k { t.clone() } else { d.to_string() };
    match k {
        0..=4 => {
            let s = format!("(zone (net 1) (net_name {}) (layer F.Cu) (tstamp {}) (hatch {} 0.5) (connect_pads {} (clearance 1)) (min_thickness 2) (fill (arc_segments 16) (thermal_gap 3) (thermal_bridge_width 4) (smoothing {})))", w(0, "a"), w(1, "b"), w(2, "c"), w(3, "d"), w(4, "e"));
            if let Some(e) = only(&s) {
                match e {
                    Element::Zone(z) => { check!(z.net_name.0 == x(0, "a")); check!(z.tstamp == x(1, "b")); check!(z.hatch.style == x(2, "c")); check!(z.connect_pads.connection == Some(x(3, "d"))); check!(z.fill.smoothing == Some(x(4, "e"))); }
                    _ => check!(kind(&e) == 10),
                }
            }
        }
        _ => {
            let s = format!("(segment (start 1 2) (end 3 4) (width 5) (layer B.Cu) (net 6) (tstamp {}) (status {}))", w(5, "a"), w(6, "b"));
            if let Some(e) = only(&s) { match e { Element::Segment(g) => { check!(g.tstamp == Some(x(5, "a"))); check!(g.status == Some(x(6, "b"))); } _ => check!(kind(&e) == 8) } }
        }
    }
});

// modules inside a layout
harness!(h_c04_module, {
    expect(1);
    let v = floats(4);
    let n = any_int();
    let s = format!("(module Lib:R0603 locked (layer B.Cu) (tedit 5A) (tstamp 5B)\n {} (path /5C)\n (pad 1 smd rect {} (size 1 1) (layers B.Cu)\n (net {} GND)))", nums("at", &v[0..2]), nums("at", &v[2..4]), n);
    if let Some(e) = only(&s) {
        match e {
            Element::Module(m) => {
                check!(m.name == "Lib:R0603");
                check!(m.elements.len() == 7);
                let k: Vec<u32> = m.elements.iter().map(fp::kind).collect();
                check!(k == vec![17, 1, 11, 12, 14, 13, 6]);
                for e in &m.elements {
                    match *e {
                        kicad_parse_gen::footprint::Element::At(ref a) => { check!(a.x == v[0]); check!(a.y == v[1]); }
                        kicad_parse_gen::footprint::Element::Pad(ref p) => { check!(p.at.x == v[2]); check!(p.at.y == v[3]); match p.net { Some(ref q) => { check!(q.num == n); check!(q.name.0 == "GND"); } None => check!("net" == "kept") } }
                        kicad_parse_gen::footprint::Element::Path(ref p) => check!(p == "/5C"),
                        kicad_parse_gen::footprint::Element::TStamp(t) => check!(t == 0x5b),
                        _ => {}
                    }
                }
            }
            _ => check!(kind(&e) == 0),
        }
    }
});

const ITEMS: [(&str, u32); 12] = [("(module M)", 0), ("(net 1 A)", 1), ("(net_class a b)", 2), ("(gr_text a (at 0 0) (layer F.Fab) (effects (font)))", 3), ("(gr_line (start 0 0) (end 0 0) (layer F.Fab))", 4),
    ("(gr_arc (start 0 0) (end 0 0) (angle 1) (layer F.Fab))", 5), ("(gr_circle (center 0 0) (end 0 0) (layer F.Fab))", 6),
    ("(dimension a (width 1) (layer F.Cu) (gr_text a (at 0 0) (layer F.Fab) (effects (font))) (feature1 (pts)) (feature2 (pts)) (crossbar (pts)) (arrow1a (pts)) (arrow1b (pts)) (arrow2a (pts)) (arrow2b (pts)))", 7),
    ("(segment (start 0 0) (end 0 0) (width 1) (layer F.Cu) (net 1))", 8), ("(via (at 0 0) (size 1) (layers F.Cu B.Cu))", 9),
    ("(zone (net 1) (net_name N) (layer F.Cu) (tstamp 5E) (hatch edge 0.5) (connect_pads (clearance 1)) (min_thickness 2) (fill (arc_segments 16) (thermal_gap 3) (thermal_bridge_width 4)))", 10),
    ("(target x)", 11)];

// up to 3 sections of any kinds keep length and order
harness!(h_c04_order, {
    expect(1);
    let n = pick(if thorough() { 5 } else { 4 });
    let mut s = String::from("(version 4) (page A4)");
    let mut want = vec![];
    for _ in 0..n { let (t, k) = ITEMS[pick(12)]; s.push_str("\n "); s.push_str(t); want.push(k); }
    if let Some(l) = read(&s) {
        check!(l.elements.len() == n);
        for (e, k) in l.elements.iter().zip(want.iter()) { check!(kind(e) == *k); }
    }
});

fn show(s: &Sexp, o: &mut String) {
    match *s {
        Sexp::String(ref t) => { o.push('"'); o.push_str(t); o.push('"'); }
        Sexp::List(ref v) => { o.push('('); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(' '); } show(x, o); } o.push(')'); }
        Sexp::Empty => {}
    }
}

// unrecognised sections: any name of up to 2 characters (longer names fixed), trees of depth 3 with one symbolic text
harness!(h_c04_other, {
    expect(1);
    let mut t = Texts::one_of(4, 2);
    let name = t.text();
    let mut v = vec![Sexp::String(name)];
    for _ in 0..pick(3) { v.push(tree(2, &mut t)); }
    assume(t.used());
    let want = Sexp::List(v);
    let mut s = String::from("(net 0 \"\") ");
    show(&want, &mut s);
    s.push_str(" (net 1 A)");
    if let Some(l) = read(&s) {
        check!(l.elements.len() == 3);
        check!(kind(&l.elements[0]) == 1 && kind(&l.elements[2]) == 1);
        match l.elements[1] { Element::Other(ref x) => check!(*x == want), ref e => check!(kind(e) == 11) }
    }
});

// reading lists of 5, 9, 17, 33 or 67 parts: nets, nets of a class, layers, setup entries, points, segments
harness!(h_c04_long_lists, {
    expect(1);
    let n = length();
    let v: Vec<i64> = (0..n).map(|_| any_int()).collect();
    let f = floats(n);
    let mut b = String::new();
    match pick(6) {
        0 => {
            for i in 0..n { b.push_str(&format!("(net {} {})\n", v[i], word(i))); }
            if let Some(l) = read(&b) {
                check!(l.elements.len() == n);
                for (i, e) in l.elements.iter().enumerate() { match *e { Element::Net(ref x) => { check!(x.num == v[i]); check!(x.name.0 == word(i)); } _ => check!("net" == "other") } }
            }
        }
        1 => {
            for i in 0..n { b.push_str(&format!("(add_net {})\n", word(i))); }
            if let Some(Element::NetClass(c)) = only(&format!("(net_class Default \"\" (clearance 1) (trace_width 1) (via_dia 1) (via_drill 1) (uvia_dia 1) (uvia_drill 1) {})", b)) {
                check!(c.nets.len() == n);
                for (i, x) in c.nets.iter().enumerate() { check!(x.0 == word(i)); }
            } else { check!("net class" == "other"); }
        }
        2 => {
            for i in 0..n { b.push_str(&format!("({} {}{} {}{})", v[i], fp::SIDES[i % 11], fp::TYPES[i % 9], LAYER_TYPES[i % 5], if i % 4 == 1 { " hide" } else { "" })); }
            if let Some(l) = read(&format!("(layers {})", b)) {
                check!(l.layers.len() == n);
                for (i, x) in l.layers.iter().enumerate() { check!(x.num == v[i]); is_layer(&x.layer, i % 11, i % 9); check!(layer_type_no(&x.layer_type) == i % 5); check!(x.hide == (i % 4 == 1)); }
            }
        }
        3 => {
            for i in 0..n { b.push_str(&format!("(n{} {}{})", i, word(i), if i % 3 == 0 { " second" } else { "" })); }
            let plot = boolean();
            if let Some(l) = read(&if plot { format!("(setup (pcbplotparams {}))", b) } else { format!("(setup {})", b) }) {
                let x = if plot { &l.setup.pcbplotparams } else { &l.setup.elements };
                check!(x.len() == n);
                for (i, e) in x.iter().enumerate() { check!(e.name == format!("n{}", i)); check!(e.value1 == word(i)); check!(e.value2.is_some() == (i % 3 == 0)); }
            }
        }
        4 => {
            for i in 0..n { b.push_str(&nums("xy", &[f[i], f[n - 1 - i]])); b.push(if i % 5 == 4 { '\n' } else { ' ' }); }
            let full = boolean();
            let q = if full { "filled_polygon" } else { "polygon" };
            if let Some(Element::Zone(z)) = only(&format!("(zone (net 1) (net_name A) (layer F.Cu) (tstamp 5A) (hatch edge 0.5) (connect_pads (clearance 0.5)) (min_thickness 0.2) (fill (arc_segments 16) (thermal_gap 0.5) (thermal_bridge_width 0.5)) ({} (pts {})))", q, b)) {
                let p = if full { &z.filled_polygons } else { &z.polygons };
                check!(p.len() == 1);
                for p in p { check!(p.elements.len() == n); for (i, x) in p.elements.iter().enumerate() { check!(x.x == f[i]); check!(x.y == f[n - 1 - i]); } }
            } else { check!("zone" == "other"); }
        }
        _ => {
            for i in 0..n { b.push_str(&format!("(segment (start 0 0) {} (width 0.2) (layer F.Cu) (net {}))\n", nums("end", &[f[i], 1.0]), v[i])); }
            if let Some(l) = read(&b) {
                check!(l.elements.len() == n);
                for (i, e) in l.elements.iter().enumerate() { match *e { Element::Segment(ref s) => { check!(s.end.x == f[i]); check!(s.net == v[i]); } _ => check!("segment" == "other") } }
            }
        }
    }
});

// every text of a layout at once: in turn any word of 1 to 14 characters, quoted or bare, and any text with a
// parenthesis or blank behind up to 5 characters and up to 9 behind it
harness!(h_c04_all_texts, {
    expect(1);
    let (t, q) = sym_texts(pick(ROUNDS), 40, boolean());
    let mut s = format!("(host {} {}) (page {})\n (setup (a {}) (b {} {}) (pcbplotparams (c {}) (d {})))\n", q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]);
    for i in 0..2 { s.push_str(&format!(" (net {} {})\n", i, q[8 + i])); }
    s.push_str(&format!(" (net_class {} {} (clearance 1) (trace_width 2) (via_dia 3) (via_drill 4) (uvia_dia 5) (uvia_drill 6)\n (add_net {}) (add_net {}))\n", q[10], q[11], q[12], q[13]));
    s.push_str(&format!(" (module {} (layer F.Cu) (at 1 2) (descr {}) (fp_text {} {} (at 1 2) (layer F.SilkS)) (pad {} smd rect (at 1 2) (size 3 4) (layers F.Cu) (net 1 {})))\n", q[14], q[15], q[16], q[17], q[18], q[19]));
    s.push_str(&format!(" (gr_text {} (at 1 2) (layer Cmts.User) (effects (font (size 1 2) (thickness 3))) (tstamp {}))\n", q[20], q[21]));
    s.push_str(&format!(" (gr_line (start 1 2) (end 3 4) (angle 5) (layer Edge.Cuts) (width 6) (tstamp {}))\n (gr_arc (start 1 2) (end 3 4) (angle 5) (layer Edge.Cuts) (width 6) (tstamp {}))\n", q[22], q[23]));
    for i in 0..2 { s.push_str(&format!(" (segment (start 1 2) (end 3 4) (width 5) (layer B.Cu) (net 6) (tstamp {}) (status {}))\n", q[24 + 2 * i], q[25 + 2 * i])); }
    for i in 0..2 { s.push_str(&format!(" (zone (net 1) (net_name {}) (layer F.Cu) (tstamp {}) (hatch {} 0.5) (connect_pads {} (clearance 1)) (min_thickness 2) (fill {}(arc_segments 16) (thermal_gap 3) (thermal_bridge_width 4) (smoothing {})))\n", q[28 + 5 * i], q[29 + 5 * i], q[30 + 5 * i], q[31 + 5 * i], ["", "yes "][i], q[32 + 5 * i])); }
    s.push_str(&format!(" (target {} (x {}))\n", q[38], q[39]));
    if let Some(l) = read(&s) {
        check!(l.host.tool == t[0]);
        check!(l.host.build == t[1]);
        check!(l.page == t[2]);
        check!(l.setup.elements.len() == 2);
        check!(l.setup.pcbplotparams.len() == 2);
        if l.setup.elements.len() == 2 && l.setup.pcbplotparams.len() == 2 {
            check!(l.setup.elements[0].value1 == t[3]);
            check!(l.setup.elements[0].value2.is_none());
            check!(l.setup.elements[1].value1 == t[4]);
            check!(l.setup.elements[1].value2.as_ref() == Some(&t[5]));
            check!(l.setup.pcbplotparams[0].value1 == t[6]);
            check!(l.setup.pcbplotparams[1].value1 == t[7]);
        }
        check!(l.elements.len() == 12);
        for (i, e) in l.elements.iter().enumerate() {
            match *e {
                Element::Net(ref n) => { check!(i < 2); check!(n.name.0 == t[8 + i]); }
                Element::NetClass(ref c) => { check!(i == 2); check!(c.name == t[10]); check!(c.desc == t[11]); check!(c.nets.len() == 2); for (j, n) in c.nets.iter().enumerate() { check!(n.0 == t[12 + j]); } }
                Element::Module(ref m) => {
                    check!(i == 3);
                    check!(m.name == t[14]);
                    check!(m.elements.len() == 5);
                    for e in &m.elements {
                        match *e {
                            kicad_parse_gen::footprint::Element::Descr(ref d) => check!(*d == t[15]),
                            kicad_parse_gen::footprint::Element::FpText(ref x) => { check!(x.name == t[16]); check!(x.value == t[17]); }
                            kicad_parse_gen::footprint::Element::Pad(ref p) => { check!(p.name == t[18]); match p.net { Some(ref n) => check!(n.name.0 == t[19]), None => check!("net" == "read") } }
                            _ => {}
                        }
                    }
                }
                Element::GrText(ref x) => { check!(i == 4); check!(x.value == t[20]); check!(x.tstamp.as_ref() == Some(&t[21])); }
                Element::GrLine(ref x) => { check!(i == 5); check!(x.tstamp.as_ref() == Some(&t[22])); }
                Element::GrArc(ref x) => { check!(i == 6); check!(x.tstamp.as_ref() == Some(&t[23])); }
                Element::Segment(ref x) => { check!(i == 7 || i == 8); check!(x.tstamp.as_ref() == Some(&t[2 * i + 10])); check!(x.status.as_ref() == Some(&t[2 * i + 11])); }
                Element::Zone(ref z) => {
                    check!(i == 9 || i == 10);
                    let k = 5 * i - 17;
                    check!(z.net_name.0 == t[k]);
                    check!(z.tstamp == t[k + 1]);
                    check!(z.hatch.style == t[k + 2]);
                    check!(z.connect_pads.connection.as_ref() == Some(&t[k + 3]));
                    check!(z.fill.smoothing.as_ref() == Some(&t[k + 4]));
                    check!(z.fill.filled == (i == 10));
                }
                Element::Other(ref x) => { check!(i == 11); check!(*x == Sexp::List(vec![sym("target"), sym(&t[38]), Sexp::List(vec![sym("x"), sym(&t[39])])])); }
                _ => check!("element" == "understood"),
            }
        }
    }
});

// equal parts of every kind next to each other and apart: sections, nets of a class, settings, layers, polygons, points, unrecognised parts
harness!(h_c04_repeats, {
    expect(1);
    const ORDER: [usize; 5] = [0, 0, 1, 0, 1];
    let all = |f: &dyn Fn(usize) -> String| -> String { ORDER.iter().map(|i| f(*i)).collect() };
    let v = any_int();
    let set = all(&|i| format!("(a {})", i));
    let pts = all(&|i| format!("(xy {} 1)", i));
    let poly = |q: &str| all(&|_| format!("({} (pts {}))", q, pts));
    let mut b = format!("(layers {}) (setup {} (pcbplotparams {}))\n", all(&|i| format!("({} F.Cu signal)", i)), set, set);
    b.push_str(&all(&|i| format!("(net {} A{})", v, i)));
    b.push_str(&all(&|i| format!("(net_class N{} \"\" (clearance 1) (trace_width 1) (via_dia 1) (via_drill 1) (uvia_dia 1) (uvia_drill 1) {})", i, all(&|i| format!("(add_net A{})", i)))));
    b.push_str(&all(&|i| format!("(segment (start 0 0) (end 0 0) (width 1) (layer F.Cu) (net {}))", i)));
    b.push_str(&all(&|i| format!("(via (at 0 0) (size {}) (layers{}))", i, all(&|i| format!(" {}", ["F.Cu", "B.Cu"][i])))));
    b.push_str(&all(&|i| format!("(zone (net {}) (net_name A) (layer F.Cu) (tstamp 5A) (hatch edge 0.5) (connect_pads (clearance 0.5)) (min_thickness 0.2) (fill (arc_segments 16) (thermal_gap 0.5) (thermal_bridge_width 0.5)) {}{}{})", i, poly("polygon"), poly("filled_polygon"), all(&|i| format!("(new {i} {i})", i = i)))));
    b.push_str(&all(&|i| format!("(target {} {} {})", i, set, set)));
    if let Some(l) = read(&b) {
        check!(l.layers.len() == 5);
        for (i, x) in l.layers.iter().enumerate() { check!(x.num == ORDER[i % 5] as i64); }
        for x in [&l.setup.elements, &l.setup.pcbplotparams].iter() {
            check!(x.len() == 5);
            for (i, x) in x.iter().enumerate() { check!(x.name == "a"); check!(x.value1 == ["0", "1"][ORDER[i % 5]]); }
        }
        check!(l.elements.len() == 30);
        for (i, e) in l.elements.iter().enumerate() {
            let n = ORDER[i % 5];
            match *e {
                Element::Net(ref x) => { check!(i / 5 == 0); check!(x.num == v); check!(x.name.0 == ["A0", "A1"][n]); }
                Element::NetClass(ref x) => { check!(i / 5 == 1); check!(x.name == ["N0", "N1"][n]); check!(x.nets.len() == 5); for (i, x) in x.nets.iter().enumerate() { check!(x.0 == ["A0", "A1"][ORDER[i % 5]]); } }
                Element::Segment(ref x) => { check!(i / 5 == 2); check!(x.net == n as i64); }
                Element::Via(ref x) => { check!(i / 5 == 3); check!(x.size == n as f64); check!(x.layers.layers.len() == 5); for (i, l) in x.layers.layers.iter().enumerate() { check!(l.side == if ORDER[i % 5] == 0 { LayerSide::Front } else { LayerSide::Back }); } }
                Element::Zone(ref x) => {
                    check!(i / 5 == 4);
                    check!(x.net == n as i64);
                    for p in [&x.polygons, &x.filled_polygons].iter() {
                        check!(p.len() == 5);
                        for p in p.iter() { check!(p.elements.len() == 5); for (i, q) in p.elements.iter().enumerate() { check!(q.x == ORDER[i % 5] as f64); } }
                    }
                    check!(x.other.len() == 5);
                    for (i, x) in x.other.iter().enumerate() { let k = ["0", "1"][ORDER[i % 5]]; check!(*x == Sexp::List(vec![sym("new"), sym(k), sym(k)])); }
                }
                Element::Other(ref x) => {
                    check!(i / 5 == 5);
                    match *x {
                        Sexp::List(ref v) => {
                            check!(v.len() == 12);
                            for (i, y) in v.iter().enumerate().skip(2) { check!(*y == Sexp::List(vec![sym("a"), sym(["0", "1"][ORDER[(i - 2) % 5]])])); }
                            if v.len() > 1 { check!(v[1] == sym(["0", "1"][n])); }
                        }
                        _ => check!("list" == "read"),
                    }
                }
                _ => check!("section" == "known"),
            }
        }
    }
});
