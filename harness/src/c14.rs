//! C14: renaming a net renames it everywhere and touches nothing else.

use crate::check;
use crate::fp;
use crate::gen::{sym_text, ROUNDS, TEXT};
use crate::harness;
use crate::lay;
use crate::sym::*;
use kicad_parse_gen::footprint;
use kicad_parse_gen::layout::*;

/// applies `f` to every net name of a layout, written down independently
fn names(l: &mut Layout, f: &dyn Fn(&mut String)) {
    for e in &mut l.elements {
        match *e {
            Element::Net(ref mut n) => f(&mut n.name.0),
            Element::NetClass(ref mut c) => for n in &mut c.nets { f(&mut n.0) },
            Element::Zone(ref mut z) => f(&mut z.net_name.0),
            Element::Module(ref mut m) => for e in &mut m.elements {
                if let footprint::Element::Pad(ref mut p) = *e { if let Some(ref mut n) = p.net { f(&mut n.name.0) } }
            },
            _ => (),
        }
    }
}
fn pad(net: Option<&str>) -> footprint::Element {
    let mut p = footprint::Pad::new("1".into(), footprint::PadType::Smd, footprint::PadShape::Rect);
    p.net = net.map(|n| footprint::Net { num: lay::any_int(), name: n.into() });
    footprint::Element::Pad(p)
}
/// one element that can hold net names, with the name at one place and other names around it
fn holder(k: usize, n: &str) -> Element {
    match k {
        0 => Element::Net(Net { num: lay::any_int(), name: n.into() }),
        1 | 2 | 3 => {
            let mut c = match lay::element_fixed(2) { Element::NetClass(c) => c, _ => unreachable!() };
            c.name = n.into();
            c.desc = n.into();
            c.nets = vec!["x".into(), "y".into(), "z".into()];
            c.nets[k - 1] = n.into();
            Element::NetClass(c)
        }
        4 => { let mut z = lay::zone(&mut crate::gen::Texts::none()); z.net_name = n.into(); z.hatch.style = n.into(); z.tstamp = n.into(); Element::Zone(z) }
        _ => {
            let mut m = footprint::Module::new(n.into());
            let mut t = footprint::FpText::new(n.into(), n.into());
            t.hide = true;
            m.append(footprint::Element::FpText(t));
            let v = match k { 5 => [Some(n), Some("x"), None], 6 => [None, Some("x"), Some(n)], _ => [Some(n), None, Some(n)] };
            for (i, x) in v.iter().enumerate() {
                if let footprint::Element::Pad(mut p) = pad(*x) {
                    p.t = fp::pad_type((k + i) % 3);
                    p.name = ["1", "", "A"][(k + i) % 3].into();
                    m.append(footprint::Element::Pad(p));
                }
            }
            m.append(footprint::Element::Path(n.into()));
            Element::Module(m)
        }
    }
}
/// an element without net names that holds the text elsewhere
fn bystander(k: usize, n: &str) -> Element {
    match lay::element_fixed(k) {
        Element::GrText(mut t) => { t.value = n.into(); Element::GrText(t) }
        Element::Segment(mut s) => { s.status = Some(n.into()); Element::Segment(s) }
        e => e,
    }
}
fn renamed(l: &mut Layout, from: &str, to: &str) {
    let mut want = lay::copy(&l);
    names(&mut want, &|n| if n == from { *n = to.to_string() });
    l.change_net_name(from, to);
    goal(1);
    lay::same_layout(&want, l);
}

// layout: net name of up to 3 characters at each place that holds one, old and new name of up to 2 characters
harness!(h_c14_layout, {
    expect(1);
    let k = pick(8);
    let n = string(TEXT, 0, 3);
    let from = string(TEXT, 0, 2);
    let to = string(TEXT, 0, 1);
    let mut l = lay::layout_with(holder(k, &n));
    renamed(&mut l, &from, &to);
});

// layout: several holders of names that do or do not equal the old name, any order of two holders and a bystander
harness!(h_c14_many, {
    expect(1);
    let (i, j, b) = (pick(8), pick(8), [3, 8, 9, 11][pick(4)]);
    let n = string_n(TEXT, 2);
    let from = string_n("ab/", 2);
    let mut l = lay::layout_with(holder(i, &n));
    l.elements.push(bystander(b, "ab"));
    l.elements.push(holder(j, "ab"));
    renamed(&mut l, &from, "new/ab");
});

// layout: a name update that fails stops with its error, one that succeeds reaches every name
harness!(h_c14_update, {
    expect(2);
    let (i, j) = (pick(8), pick(8));
    let n = string_n(TEXT, 1);
    let bad = string_n(TEXT, 1);
    let mut l = lay::layout_with(holder(i, &n));
    l.elements.push(holder(j, "q"));
    let mut want = lay::copy(&l);
    names(&mut want, &|x| x.push('+'));
    let bad2 = bad.clone();
    let r = l.update_net_names(move |x: &mut NetName| if x.0 == bad2 { Err("bad".to_string().into()) } else { x.0.push('+'); Ok(()) });
    let mut hit = false;
    {
        let mut all = lay::layout_with(holder(i, &n));
        all.elements.push(holder(j, "q"));
        let v = std::cell::RefCell::new(vec![]);
        names(&mut all, &|x| v.borrow_mut().push(x.clone()));
        for x in v.borrow().iter() { if *x == bad { hit = true; } }
    }
    check!(r.is_err() == hit);
    if r.is_ok() { goal(1); lay::same_elements(&want, &l); } else { goal(2); }
});

// module: rename in a module with up to 3 pads of any type
harness!(h_c14_module, {
    expect(1);
    let n = string(TEXT, 0, 3);
    let from = string(TEXT, 0, 2);
    let to = string(TEXT, 0, 1);
    let mut m = match holder(5 + pick(3), &n) { Element::Module(m) => m, _ => unreachable!() };
    m.append(fp::element_light(8, &mut crate::gen::Texts::none()));
    let t = pick(3);
    for e in &mut m.elements { if let footprint::Element::Pad(ref mut p) = *e { p.t = fp::pad_type(t); } }
    let mut want = m.clone();
    for e in &mut want.elements {
        if let footprint::Element::Pad(ref mut p) = *e { if let Some(ref mut x) = p.net { if x.name.0 == from { x.name.0 = to.clone(); } } }
    }
    m.rename_net(&from, &to);
    goal(1);
    fp::same_module(&want, &m);
});

// block inside a net name: names of up to 7 characters out of /, a and b, block names of up to 2 characters, the new one also empty
harness!(h_c14_block, {
    expect(1);
    let n = string("/ab", 0, if thorough() { 7 } else { 6 });
    let from = string("ab", 1, 2);
    let to = string("abc", 0, 2);
    let parts: Vec<&str> = n.split('/').collect();
    let mut want = String::new();
    for (i, p) in parts.iter().enumerate() {
        if i > 0 { want.push('/'); }
        if i > 0 && i + 1 < parts.len() && *p == from { want.push_str(&to) } else { want.push_str(p) }
    }
    let mut x: NetName = n.clone().into();
    x.replace_block(&from, &to);
    goal(1);
    check!(x.0 == want);
});

// a single name: renamed exactly if it equals the old name, up to 4 characters each
harness!(h_c14_name, {
    expect(2);
    let n = string(TEXT, 0, 4);
    let from = string(TEXT, 0, 4);
    let to = string(TEXT, 0, 2);
    let mut x: NetName = n.clone().into();
    x.rename(&from, &to);
    if n == from { goal(1); check!(x.0 == to); } else { goal(2); check!(x.0 == n); }
});

/// a zone with any numbers and optional parts
fn any_zone(n: &str) -> Zone {
    let mut z = lay::zone(&mut crate::gen::Texts::none());
    z.net_name = n.into();
    z.layer = fp::layer(pick(2), pick(2));
    z.priority = int(0, 1000000) as u64;
    z.keepout = some(|| { let mut k = Keepout::default(); k.tracks = boolean(); k.vias = boolean(); k.copperpour = boolean(); k });
    z.fill = lay::fill();
    if pick(2) == 0 { z.polygons.push(lay::pts(2)); } else { z.filled_polygons.push(lay::pts(1)); z.connect_pads.connection = Some("no".into()); }
    z
}
/// a pad with any numbers, type and shape
fn any_pad(n: &str) -> footprint::Pad {
    let mut p = fp::pad(&mut crate::gen::Texts::none(), pick(3), pick(4));
    if pick(2) == 0 { p.name = String::new(); }
    p.net = Some(footprint::Net { num: lay::any_int(), name: n.into() });
    p.drill = some(|| footprint::Drill::default());
    p.zone_connect = some(lay::any_int);
    p
}
/// a net class with any numbers and optional parts
fn any_class(n: &str) -> NetClass {
    let mut c = lay::net_class(&mut crate::gen::Texts::none(), 0);
    c.name = ["Default", "x", ""][pick(3)].into();
    c.nets = vec![n.into()];
    c
}

// zones, pads and net classes with any numbers, kinds and optional parts; name and old name of up to 2 characters
harness!(h_c14_parts, {
    expect(1);
    let n = string(TEXT, 0, 2);
    let from = string(TEXT, 0, 2);
    let e = match pick(3) {
        0 => Element::Zone(any_zone(&n)),
        1 => { let mut m = footprint::Module::new("M".into()); if pick(2) == 0 { m.append(footprint::Element::Locked); m.append(footprint::Element::Layer(fp::layer(1, 0))); } m.append(footprint::Element::Pad(any_pad(&n))); Element::Module(m) }
        _ => Element::NetClass(any_class(&n)),
    };
    let mut l = lay::layout_with(e);
    renamed(&mut l, &from, "to");
});

// 5, 9, 17, 33 or 67 holders of names, one of them any name of up to 2 characters
harness!(h_c14_long, {
    expect(1);
    let n = crate::gen::length();
    let last = string(TEXT, 0, 2);
    let name = |i: usize| if i + 1 == n { last.clone() } else { crate::gen::word(i % 3) };
    let mut l = Layout::default();
    match pick(5) {
        0 => for i in 0..n { l.elements.push(Element::Net(Net { num: lay::any_int(), name: name(i).into() })); },
        1 => { let mut c = any_class("q"); c.nets = (0..n).map(|i| name(i).into()).collect(); l.elements.push(Element::NetClass(c)); }
        2 => { let mut m = footprint::Module::new("M".into()); for i in 0..n { m.append(pad(Some(&name(i)))); } l.elements.push(Element::Module(m)); }
        3 => for i in 0..n { let mut z = lay::zone(&mut crate::gen::Texts::none()); z.net_name = name(i).into(); l.elements.push(Element::Zone(z)); },
        _ => for i in 0..n { l.elements.push(holder(i % 8, &name(i))); l.elements.push(bystander(i % 12, &name(i))); },
    }
    let from = if boolean() { "W1".to_string() } else { string(TEXT, 0, 2) };
    renamed(&mut l, &from, "to");
});

// names of 1 to 14 characters, bare words and texts with a parenthesis or blank, at each place that holds one:
// the old name the same or any of that length
harness!(h_c14_words, {
    expect(1);
    let k = pick(8);
    let n = sym_text(pick(ROUNDS), 0);
    let from = if boolean() { n.clone() } else { string_n(TEXT, n.len()) };
    let mut l = lay::layout_with(holder(k, &n));
    l.elements.push(bystander([3, 8][pick(2)], &n));
    renamed(&mut l, &from, "new (a)");
});

// six blocks of up to 6 characters, at one to three places of a name, as they are or with any one character replaced
harness!(h_c14_blocks, {
    expect(1);
    const BLOCK: &str = "#+-._ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
    let from = ["x", "io", "aab", "Net-", "Blk_7", "ab.abc"][pick(6)].to_string();
    let a = if boolean() { from.clone() } else { let k = pick(from.len()); let mut b = from.clone().into_bytes(); b[k] = byte(BLOCK); String::from_utf8(b).unwrap() };
    let to = if boolean() { String::new() } else { string_n(BLOCK, 3) };
    let v = match pick(4) { 0 => vec!["", &a, "Net-(R1-Pad1)"], 1 => vec!["", &a, &a, &a, "x"], 2 => vec!["", "q", &a, "q", &a, ""], _ => vec![a.as_str(), &a, &a] };
    let n = v.join("/");
    let mut w: Vec<&str> = v.clone();
    let last = w.len() - 1;
    for (i, x) in w.iter_mut().enumerate() { if i > 0 && i < last && *x == from { *x = &to; } }
    let want = w.join("/");
    let mut x: NetName = n.clone().into();
    x.replace_block(&from, &to);
    goal(1);
    check!(x.0 == want);
});
