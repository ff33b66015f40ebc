//! C22: lookups and in-place edits hit exactly the matching item.

use crate::check;
use crate::fp;
use crate::gen::*;
use crate::harness;
use crate::lay;
use crate::lib_;
use crate::sch;
use crate::sym::*;
use kicad_parse_gen::footprint::{self, FpText, LayerSide, Module, Pad, PadShape, PadType};
use kicad_parse_gen::layout::{Element, Layout, Net, NetClass, Setup, SetupElement};
use kicad_parse_gen::schematic::{self, Schematic};
use kicad_parse_gen::symbol_lib::{Draw, SymbolLib};

/// a text with unlimited life time
fn forever(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }
/// names that are equal to, prefixes of and different from one another
const NAMES: [&str; 5] = ["R1", "R10", "R", "r1", ""];
/// an item's name: symbolic for one item, fixed for the others
fn names(n: usize) -> Vec<String> {
    let k = if n == 0 { 0 } else { pick(n) };
    (0..n).map(|i| if i == k { string("R1r0#?", 0, 3) } else { NAMES[i % 5].to_string() }).collect()
}
fn wanted() -> String { string("R1r0#?", 0, 3) }
fn first(v: &[String], s: &str) -> Option<usize> {
    for i in 0..v.len() { if v[i] == s { return Some(i); } }
    None
}

/// module with a reference, other texts around it and something to tell it by
fn module(i: usize, r: &str) -> Module {
    let mut m = Module::new(format!("M{}", i));
    m.append(fp::element_light(8, &mut Texts::none()));
    m.append(footprint::Element::FpText(FpText::new("value".into(), "R1".into())));
    m.append(footprint::Element::FpText(FpText::new("reference".into(), r.into())));
    m.append(footprint::Element::FpText(FpText::new("user".into(), "R10".into())));
    m.append(footprint::Element::Descr("R1".into()));
    m
}
/// a layout of modules with other elements between them
fn board(v: &[String]) -> Layout {
    let mut l = Layout::default();
    for (i, r) in v.iter().enumerate() {
        l.elements.push(lay::element_fixed([1, 3, 8, 11][i % 4]));
        l.elements.push(Element::Module(module(i, r)));
    }
    l.elements.push(lay::element_fixed(10));
    l
}

// module by reference: up to 4 modules (8 in the thorough tier), references of up to 3 characters
harness!(h_c22_get_module, {
    expect(2);
    let v = names(pick(if thorough() { 9 } else { 5 }));
    let w = wanted();
    let l = board(&v);
    let r = l.get_module(&w);
    match first(&v, &w) {
        Some(i) => { goal(1); match r { Some(m) => fp::same_module(&module_of(&l, i), m), None => check!("module" == "not found") } }
        None => { goal(2); check!(r.is_none()); }
    }
});
fn module_of(l: &Layout, i: usize) -> Module { match l.elements[2 * i + 1] { Element::Module(ref m) => m.clone(), _ => unreachable!() } }

// modifying a module by reference: up to 4 modules, references of up to 3 characters
harness!(h_c22_modify_module, {
    expect(2);
    let v = names(pick(5));
    let w = wanted();
    let mut l = board(&v);
    let mut want = lay::copy(&l);
    let r = l.modify_module(&w, |m| { m.name.push('+'); m.elements.remove(0); });
    match first(&v, &w) {
        Some(i) => {
            goal(1);
            check!(r.is_ok());
            if let Element::Module(ref mut m) = want.elements[2 * i + 1] { m.name.push('+'); m.elements.remove(0); }
        }
        None => { goal(2); check!(r.is_err()); }
    }
    lay::same_layout(&want, &l);
});

// modules, nets and net classes of a layout: up to 4 elements of any kinds
harness!(h_c22_lists, {
    expect(1);
    let mut l = Layout::default();
    for _ in 0..pick(5) { l.elements.push(lay::element_fixed([0, 1, 2, 8, 10, 11][pick(6)])); }
    goal(1);
    let mut m = vec![];
    let mut n = vec![];
    let mut c = vec![];
    for e in &l.elements { match *e { Element::Module(ref x) => m.push(x), Element::Net(ref x) => n.push(x), Element::NetClass(ref x) => c.push(x), _ => () } }
    let (a, b, d) = (l.get_modules(), l.nets(), l.netclasses());
    check!(a.len() == m.len());
    for (x, y) in a.iter().zip(m.iter()) { fp::same_module(x, y); }
    check!(b.len() == n.len());
    for (x, y) in b.iter().zip(n.iter()) { check!(x.num == y.num); check!(x.name.0 == y.name.0); }
    check!(d.len() == c.len());
    for (x, y) in d.iter().zip(c.iter()) { check!(x.clearance == y.clearance); check!(x.name == y.name); check!(x.diff_pair_width == y.diff_pair_width); }
});

// adding a net or a net class with any numbers puts it behind what is there
harness!(h_c22_add, {
    expect(1);
    let k = pick(12);
    let mut l = lay::layout_with(lay::element_fixed(k));
    let mut want = lay::copy(&l);
    let name = string(TEXT, 0, 2);
    if boolean() {
        let n = lay::any_int();
        want.elements.push(Element::Net(Net { num: n, name: name.clone().into() }));
        l.add_net(n, forever(name));
    } else {
        let mut c = lay::net_class(&mut Texts::none(), 0);
        c.name = name.clone();
        c.nets = vec!["a".into(), "b c".into()];
        l.add_netclass(forever(name), forever(c.desc.clone()), c.clearance, c.trace_width, c.via_dia, c.via_drill, c.uvia_dia, c.uvia_drill, c.diff_pair_gap, c.diff_pair_width, vec!["a".into(), "b c".into()]);
        want.elements.push(Element::NetClass(c));
    }
    goal(1);
    lay::same_layout(&want, &l);
});

// nets of a net class: up to 4 names of up to 3 characters
harness!(h_c22_has_net, {
    expect(2);
    let v = names(pick(5));
    let w = wanted();
    let mut c = lay::net_class(&mut Texts::none(), 0);
    c.name = "R1".into();
    c.nets = v.iter().map(|x| x.clone().into()).collect();
    let h = c.has_net(forever(w.clone()));
    match first(&v, &w) { Some(_) => { goal(1); check!(h); } None => { goal(2); check!(!h); } }
});

fn class_pair() -> (NetClass, NetClass) {
    let c = lay::net_class(&mut Texts::none(), 2);
    (c.clone(), c)
}
// net classes compared without their nets: a difference in any one attribute counts, the nets do not
harness!(h_c22_equal_no_net, {
    expect(2);
    let (a, mut b) = class_pair();
    b.nets.truncate(pick(3));
    let k = pick(12);
    let f = grid(-1000, 1000, 4);
    let mut same = true;
    {
        let mut put = |x: &mut f64| { same = *x == f; *x = f; };
        match k {
            0 => put(&mut b.clearance), 1 => put(&mut b.trace_width), 2 => put(&mut b.via_dia), 3 => put(&mut b.via_drill), 4 => put(&mut b.uvia_dia), 5 => put(&mut b.uvia_drill),
            6 => b.name.push('x'), 7 => b.desc.push('x'),
            8 => { same = a.diff_pair_gap == Some(f); b.diff_pair_gap = Some(f); }
            9 => { same = a.diff_pair_width == Some(f); b.diff_pair_width = Some(f); }
            10 => { same = a.diff_pair_gap.is_none(); b.diff_pair_gap = None; }
            _ => (),
        }
    }
    if k == 6 || k == 7 { same = false; }
    goal(if same { 1 } else { 2 });
    check!(a.equal_no_net(&b) == same);
    check!(b.equal_no_net(&a) == same);
});

fn setup(v: &[String]) -> Setup {
    let mut s = Setup::default();
    s.elements.clear();
    for (i, n) in v.iter().enumerate() { s.elements.push(SetupElement { name: n.clone(), value1: word(i), value2: if i % 2 == 0 { Some("R1".into()) } else { None } }); }
    s.pcbplotparams.clear();
    s.pcbplotparams.push(SetupElement { name: "R1".into(), value1: "plot".into(), value2: None });
    s
}
// setup entries by name: up to 4 entries, names of up to 3 characters
harness!(h_c22_setup_get, {
    expect(2);
    let v = names(pick(5));
    let w = wanted();
    let s = setup(&v);
    let r = s.get(&w);
    match first(&v, &w) {
        Some(i) => { goal(1); check!(r.map_or(false, |x| *x == word(i))); }
        None => { goal(2); check!(r.is_none()); }
    }
});

// updating a setup entry: up to 4 entries, names of up to 3 characters, value of up to 2
harness!(h_c22_setup_update, {
    expect(2);
    let v = names(pick(5));
    let w = wanted();
    let x = string(TEXT, 0, 2);
    let mut s = setup(&v);
    s.update_element(forever(w.clone()), x.clone());
    let mut want = setup(&v);
    match first(&v, &w) {
        Some(i) => { goal(1); want.elements[i].value1 = x; }
        None => { goal(2); want.elements.push(SetupElement { name: w, value1: x, value2: None }); }
    }
    let same = |a: &Vec<SetupElement>, b: &Vec<SetupElement>| {
        check!(a.len() == b.len());
        for (p, q) in a.iter().zip(b.iter()) { check!(p.name == q.name); check!(p.value1 == q.value1); check!(p.value2 == q.value2); }
    };
    same(&want.elements, &s.elements);
    same(&want.pcbplotparams, &s.pcbplotparams);
});

// texts of a module by name: up to 4 texts, names of up to 3 characters
harness!(h_c22_get_text, {
    expect(2);
    let v = names(pick(5));
    let w = wanted();
    let mut m = Module::new("R1".into());
    for (i, n) in v.iter().enumerate() { m.append(footprint::Element::Descr("R1".into())); m.append(footprint::Element::FpText(FpText::new(n.clone(), word(i)))); }
    let mut want = m.clone();
    let found = first(&v, &w);
    match (m.get_text(forever(w.clone())), found) {
        (Some(t), Some(i)) => { check!(t.value == word(i)); check!(t.name == w); }
        (t, f) => check!(t.is_some() == f.is_some()),
    }
    match (m.get_text_mut(forever(w.clone())), found) {
        (Some(t), Some(_)) => t.value.push('+'),
        (t, f) => check!(t.is_some() == f.is_some()),
    }
    match found {
        Some(i) => { goal(1); if let footprint::Element::FpText(ref mut t) = want.elements[2 * i + 1] { t.value.push('+'); } }
        None => goal(2),
    }
    fp::same_module(&want, &m);
});

/// texts of a module, with the kind of each
fn module_texts() -> (Module, Vec<usize>) {
    let mut m = Module::new("M".into());
    let mut v = vec![];
    for i in 0..pick(4) {
        let k = pick(4);
        m.append(footprint::Element::FpText(FpText::new(["reference", "value", "user", "other"][k].into(), word(i))));
        v.push(k);
    }
    (m, v)
}
// reference, value and second reference text: up to 3 texts of any kinds
harness!(h_c22_module_texts, {
    expect(1);
    let (m, v) = module_texts();
    let at = |k: usize| v.iter().position(|x| *x == k).map(word);
    goal(1);
    check!(m.get_reference().cloned() == at(0));
    check!(m.get_reference_text().map(|t| t.value.clone()) == at(0));
    check!(m.get_value_text().map(|t| t.value.clone()) == at(1));
    check!(m.get_reference2_text().map(|t| t.value.clone()) == at(2));
    let k = pick(3);
    let mut n = m.clone();
    {
        let t = match k { 0 => n.get_reference_text_mut(), 1 => n.get_value_text_mut(), _ => n.get_reference2_text_mut() };
        check!(t.is_some() == at(k).is_some());
        if let Some(t) = t { t.value.push('+'); }
    }
    let mut want = m.clone();
    if let Some(i) = v.iter().position(|x| *x == k) { if let footprint::Element::FpText(ref mut t) = want.elements[i] { t.value.push('+'); } }
    fp::same_module(&want, &n);
});

/// a text anywhere, hidden or not, of any font
fn any_look(t: &mut FpText) { t.at = fp::at(); t.hide = boolean(); t.effects.font.thickness = float(); t.effects.font.italic = boolean(); t.layer = fp::layer(1, 3); }

// whether a module has a reference, and renaming it: reference of up to 3 characters; the texts anywhere, hidden or not
harness!(h_c22_set_reference, {
    expect(2);
    let v = names(1 + pick(2));
    let w = wanted();
    let new = string(TEXT, 0, 2);
    let mut m = module(0, &v[0]);
    if v.len() == 2 { m.append(footprint::Element::FpText(FpText::new("Reference".into(), v[1].clone()))); }
    for e in &mut m.elements { if let footprint::Element::FpText(ref mut t) = *e { any_look(t); } }
    let mut want = m.clone();
    check!(m.is_reference_with_name(&w) == (v[0] == w));
    m.set_reference(&w, &new);
    if v[0] == w { goal(1); if let footprint::Element::FpText(ref mut t) = want.elements[2] { t.value = new.clone(); } } else { goal(2); }
    fp::same_module(&want, &m);
    check!(m.get_reference() == Some(if v[0] == w { &new } else { &v[0] }));
});

// position, rotation, side, stamps, attribute, pads and lines of a module made of up to 3 elements of any kinds
harness!(h_c22_module_parts, {
    expect(1);
    let mut m = Module::new("M".into());
    let (mut at, mut front, mut ts, mut te, mut smd) = (None, None, None, None, false);
    let mut pads = vec![];
    let mut lines = vec![];
    for i in 0..pick(4) {
        m.append(match pick(9) {
            0 => { let a = fp::at(); if at.is_none() { at = Some((a.x, a.y, a.rot)); } footprint::Element::At(a) }
            1 => { let s = pick(4); let l = fp::layer([0, 1, 7, 10][s], 0); if front.is_none() { front = Some(l.side == LayerSide::Front); } footprint::Element::Layer(l) }
            2 => { let t = lay::any_int(); if ts.is_none() { ts = Some(t); } footprint::Element::TStamp(t) }
            3 => { let t = lay::any_int(); if te.is_none() { te = Some(t); } footprint::Element::TEdit(t) }
            4 => { let k = pick(3); if k == 0 { smd = true; } footprint::Element::Attr(["smd", "virtual", "smd2"][k].into()) }
            5 => { pads.push(word(i)); footprint::Element::Pad(Pad::new(word(i), PadType::Smd, PadShape::Rect)) }
            6 => { let l = fp::line(fp::layer(0, 3)); lines.push(l.width); footprint::Element::FpLine(l) }
            7 => footprint::Element::Descr("smd".into()),
            _ => footprint::Element::FpCircle(fp::circle(fp::layer(0, 3))),
        });
    }
    goal(1);
    let (x, y, r) = at.unwrap_or((0.0, 0.0, 0.0));
    check!(m.at().0 == x);
    check!(m.at().1 == y);
    check!(m.get_rotation() == r);
    check!(m.is_front() == front.unwrap_or(true));
    check!(m.get_tstamp() == ts);
    check!(m.get_tedit() == te);
    check!(m.has_smd_attr() == smd);
    let p = m.pads();
    check!(p.len() == pads.len());
    for (a, b) in p.iter().zip(pads.iter()) { check!(a.name == *b); }
    let l = m.lines();
    check!(l.len() == lines.len());
    for (a, b) in l.iter().zip(lines.iter()) { check!(a.width == *b); }
});

/// a schematic of components with other elements between them
fn sheet(v: &[String]) -> Schematic {
    let mut s = sch::empty();
    for (i, r) in v.iter().enumerate() {
        s.elements.push(sch::element_fixed(1 + i % 5));
        let mut c = sch::component(&[1, 0, 0, -1]);
        c.reference = r.clone();
        c.name = "R1".into();
        c.u = word(i);
        c.fields.push(sch::field(0, "Reference".into(), "R1".into()));
        s.elements.push(schematic::Element::Component(c));
    }
    s
}
fn component_of(s: &Schematic, i: usize) -> schematic::Component { match s.elements[2 * i + 1] { schematic::Element::Component(ref c) => c.clone(), _ => unreachable!() } }

// component by reference: up to 4 components, references of up to 3 characters
harness!(h_c22_component, {
    expect(2);
    let v = names(pick(5));
    let w = wanted();
    let s = sheet(&v);
    let r = s.component_by_reference(&w);
    match first(&v, &w) {
        Some(i) => { goal(1); match r { Ok(c) => sch::same_component(&component_of(&s, i), &c), Err(_) => check!("component" == "not found") } }
        None => { goal(2); check!(r.is_err()); }
    }
});

// modifying a component by reference, or all: up to 4 components, references of up to 3 characters
harness!(h_c22_modify_component, {
    expect(2);
    let v = names(pick(5));
    let mut s = sheet(&v);
    let mut want = sch::copy(&s);
    if boolean() {
        let w = wanted();
        s.modify_component(&w, |c| { c.name.push('+'); c.x = 7; });
        match first(&v, &w) {
            Some(i) => { goal(1); if let schematic::Element::Component(ref mut c) = want.elements[2 * i + 1] { c.name.push('+'); c.x = 7; } }
            None => goal(2),
        }
    } else {
        s.modify_components(|c| { c.name.push('+'); c.x = 7; });
        for e in &mut want.elements { if let schematic::Element::Component(ref mut c) = *e { c.name.push('+'); c.x = 7; } }
    }
    sch::same_schematic(&want, &s);
});

// components of a schematic: up to 4 elements of any kinds
harness!(h_c22_components, {
    expect(1);
    let mut s = sch::empty();
    for _ in 0..pick(5) { s.elements.push(sch::element_fixed([0, 1, 4, 5][pick(4)])); }
    s.description.sheet_count = int(-1000, 1000);
    let mut want = vec![];
    for e in &s.elements { if let schematic::Element::Component(ref c) = *e { want.push(c.clone()); } }
    goal(1);
    let a = s.components();
    let mut b = vec![sch::component(&[0, 1, 1, 0])];
    s.collect_components(&mut b);
    check!(a.len() == want.len());
    check!(b.len() == want.len() + 1);
    for (x, y) in a.iter().zip(want.iter()) { sch::same_component(y, x); }
    for (x, y) in b.iter().skip(1).zip(want.iter()) { sch::same_component(y, x); }
    let old = sch::copy(&s);
    s.increment_sheet_count();
    check!(s.description.sheet_count == old.description.sheet_count + 1);
    s.description.sheet_count = old.description.sheet_count;
    sch::same_schematic(&old, &s);
});

// symbol by a condition: up to 4 symbols, names of up to 3 characters
harness!(h_c22_symbol, {
    expect(2);
    let v = names(pick(5));
    let w = wanted();
    let mut l = SymbolLib::default();
    for (i, n) in v.iter().enumerate() { let mut s = lib_::symbol(); s.name = n.clone(); s.reference = word(i); l.symbols.push(s); }
    let r = l.find(|s| s.name == w);
    match first(&v, &w) {
        Some(i) => { goal(1); match r { Some(s) => { check!(s.name == w); check!(s.reference == word(i)); } None => check!("symbol" == "not found") } }
        None => { goal(2); check!(r.is_none()); }
    }
});

// pins and kind of a symbol: reference of up to 5 characters, name of up to 2, up to 3 drawing parts
harness!(h_c22_symbol_kind, {
    expect(1);
    let mut s = lib_::symbol();
    s.reference = if boolean() { string("#PWR1", 0, 5) } else { "#PWR".into() };
    s.name = string("LRCDX~", 0, 2);
    let mut pins = vec![];
    for i in 0..pick(4) {
        s.draw.push(match pick(3) { 0 => { let mut p = lib_::pin(); p.number = word(i); pins.push(word(i)); Draw::Pin(p) } 1 => Draw::Rectangle(lib_::rect(0)), _ => Draw::Other("X".into()) });
    }
    goal(1);
    let p = s.pins();
    check!(p.len() == pins.len());
    for (a, b) in p.iter().zip(pins.iter()) { check!(a.number == *b); }
    check!(s.is_power() == (s.reference == "#PWR" && pins.len() == 1));
    check!(s.is_graphics() == (s.reference.as_bytes().get(0) == Some(&b'#') && pins.is_empty()));
    check!(s.is_basic() == (s.name == "L" || s.name == "R" || s.name == "C" || s.name == "D"));
});

// the same with 9, 17, 33 or 67 modules, components, setup entries, symbols, texts, nets, pads and lines: the one with a name of up to 2 characters is found and edited at every place
harness!(h_c22_long, {
    expect(1);
    let n = [9, 17, 33, 67][pick(4)];
    let k = [0, n / 2, n - 1][pick(3)];
    let w = string("WXY", 1, 2);
    let v: Vec<String> = (0..n).map(|i| if i == k { w.clone() } else { word(i) }).collect();
    match pick(10) {
        0 => { let l = board(&v); match l.get_module(&w) { Some(m) => check!(m.name == format!("M{}", k)), None => check!("module" == "not found") } check!(l.get_modules().len() == n); }
        1 => { let s = sheet(&v); match s.component_by_reference(&w) { Ok(c) => check!(c.u == word(k)), Err(_) => check!("component" == "not found") } check!(s.components().len() == n); }
        2 => { let s = setup(&v); check!(s.get(&w).map_or(false, |x| *x == word(k))); }
        3 => {
            let mut l = board(&v);
            let mut want = lay::copy(&l);
            check!(l.modify_module(&w, |m| m.name.push('+')).is_ok());
            if let Element::Module(ref mut m) = want.elements[2 * k + 1] { m.name.push('+'); }
            lay::same_layout(&want, &l);
        }
        4 => {
            let mut s = sheet(&v);
            let mut want = sch::copy(&s);
            s.modify_component(&w, |c| c.x = 7);
            if let schematic::Element::Component(ref mut c) = want.elements[2 * k + 1] { c.x = 7; }
            sch::same_schematic(&want, &s);
            s.modify_components(|c| c.y = 8);
            for e in &mut want.elements { if let schematic::Element::Component(ref mut c) = *e { c.y = 8; } }
            sch::same_schematic(&want, &s);
        }
        5 => {
            let mut s = setup(&v);
            s.update_element(forever(w.clone()), "new".into());
            check!(s.elements.len() == n);
            for (i, e) in s.elements.iter().enumerate() { check!(e.name == v[i]); check!(e.value1 == if i == k { "new".to_string() } else { word(i) }); }
        }
        6 => {
            let mut l = SymbolLib::default();
            for (i, x) in v.iter().enumerate() { let mut s = lib_::symbol(); s.name = x.clone(); s.reference = word(i); l.symbols.push(s); }
            match l.find(|s| s.name == w) { Some(s) => check!(s.reference == word(k)), None => check!("symbol" == "not found") }
        }
        7 => {
            let mut c = lay::net_class(&mut Texts::none(), 0);
            c.nets = v.iter().map(|x| x.clone().into()).collect();
            check!(c.has_net(forever(w.clone())));
            check!(!c.has_net("V"));
            let mut l = Layout::default();
            for (i, x) in v.iter().enumerate() { l.add_net(i as i64, forever(x.clone())); }
            check!(l.nets().len() == n);
            for (i, x) in l.nets().iter().enumerate() { check!(x.num == i as i64); check!(x.name.0 == v[i]); }
        }
        8 => {
            let mut m = Module::new("M".into());
            for (i, x) in v.iter().enumerate() { m.append(footprint::Element::FpText(FpText::new(x.clone(), word(i)))); m.append(footprint::Element::Pad(Pad::new(word(i), PadType::Smd, PadShape::Rect))); let mut l = fp::line(fp::layer(0, 3)); l.width = i as f64; m.append(footprint::Element::FpLine(l)); }
            match m.get_text(forever(w.clone())) { Some(t) => check!(t.value == word(k)), None => check!("text" == "not found") }
            match m.get_text_mut(forever(w.clone())) { Some(t) => check!(t.value == word(k)), None => check!("text" == "not found") }
            check!(m.pads().len() == n);
            check!(m.lines().len() == n);
            for (i, p) in m.pads().iter().enumerate() { check!(p.name == word(i)); }
            for (i, l) in m.lines().iter().enumerate() { check!(l.width == i as f64); }
        }
        _ => {
            let mut s = lib_::symbol();
            for i in 0..n { let mut p = lib_::pin(); p.number = word(i); s.draw.push(Draw::Pin(p)); s.draw.push(Draw::Other("C".into())); }
            check!(s.pins().len() == n);
            for (i, p) in s.pins().iter().enumerate() { check!(p.number == word(i)); }
        }
    }
    goal(1);
});

// setting the effects or the layer of a text, the drill of a pad: that and nothing else changes
harness!(h_c22_set_parts, {
    expect(1);
    let (mut ta, mut tb) = (Texts::none(), Texts::none());
    match pick(3) {
        0 => {
            let (a, b) = (fp::fp_text(&mut ta), fp::fp_text(&mut tb));
            let mut c = a.clone();
            c.set_effects(&b.effects);
            goal(1);
            fp::same_effects(&c.effects, &b.effects);
            c.effects = a.effects.clone();
            fp::same_text(&a, &c);
        }
        1 => {
            let a = fp::fp_text(&mut ta);
            let l = fp::layer(pick(11), pick(11));
            let mut c = a.clone();
            c.set_layer(&l);
            goal(1);
            fp::same_layer(&c.layer, &l);
            c.layer = a.layer.clone();
            fp::same_text(&a, &c);
        }
        _ => {
            let mut a = fp::pad(&mut ta, pick(3), pick(4));
            a.drill = some(fp::drill);
            let d = fp::drill();
            let mut c = a.clone();
            c.set_drill(d.clone());
            goal(1);
            match c.drill { Some(ref x) => fp::same_drill(x, &d), None => check!("drill" == "missing") }
            c.drill = a.drill.clone();
            fp::same_pad(&a, &c);
        }
    }
});

// names and references of 1 to 14 characters, the wanted one the same or any of that length: looked up and edited in every way
harness!(h_c22_words, {
    expect(2);
    let len = 1 + pick(14);
    let (x, w) = (string_n(TEXT, len), string_n(TEXT, len));
    let other = filled_word(1, len + 1);
    let v = if boolean() { vec![other, x.clone()] } else { vec![x.clone(), other, x.clone()] };
    let found = first(&v, &w);
    match pick(9) {
        0 => { let l = board(&v); match (l.get_module(&w), found) { (Some(m), Some(i)) => fp::same_module(&module_of(&l, i), m), (r, f) => check!(r.is_some() == f.is_some()) } }
        1 => {
            let mut l = board(&v);
            let mut want = lay::copy(&l);
            let r = l.modify_module(&w, |m| m.name.push('+'));
            check!(r.is_ok() == found.is_some());
            if let Some(i) = found { if let Element::Module(ref mut m) = want.elements[2 * i + 1] { m.name.push('+'); } }
            lay::same_layout(&want, &l);
        }
        2 => { let s = sheet(&v); match (s.component_by_reference(&w), found) { (Ok(c), Some(i)) => check!(c.u == word(i)), (r, f) => check!(r.is_ok() == f.is_some()) } }
        3 => {
            let mut s = sheet(&v);
            let mut want = sch::copy(&s);
            s.modify_component(&w, |c| c.x = 7);
            if let Some(i) = found { if let schematic::Element::Component(ref mut c) = want.elements[2 * i + 1] { c.x = 7; } }
            if v.len() == 2 || found.is_none() { sch::same_schematic(&want, &s); }
        }
        4 => { let s = setup(&v); match (s.get(&w), found) { (Some(t), Some(i)) => check!(*t == word(i)), (r, f) => check!(r.is_some() == f.is_some()) } }
        5 => {
            let mut s = setup(&v);
            s.update_element(forever(w.clone()), "new".into());
            check!(s.elements.len() == v.len() + if found.is_some() { 0 } else { 1 });
            for (i, e) in s.elements.iter().enumerate() { check!(e.name == if i < v.len() { v[i].clone() } else { w.clone() }); check!(e.value1 == if i == v.len() || Some(i) == found { "new".to_string() } else { word(i) }); }
        }
        6 => { let mut c = lay::net_class(&mut Texts::none(), 0); c.nets = v.iter().map(|n| n.clone().into()).collect(); check!(c.has_net(forever(w.clone())) == found.is_some()); }
        7 => {
            let mut m = Module::new("M".into());
            for (i, n) in v.iter().enumerate() { m.append(footprint::Element::FpText(FpText::new(n.clone(), word(i)))); }
            match (m.get_text(forever(w.clone())), found) { (Some(t), Some(i)) => check!(t.value == word(i)), (t, f) => check!(t.is_some() == f.is_some()) }
        }
        _ => {
            let mut m = module(0, &x);
            for e in &mut m.elements { if let footprint::Element::FpText(ref mut t) = *e { any_look(t); } }
            let mut want = m.clone();
            check!(m.is_reference_with_name(&w) == (x == w));
            m.set_reference(&w, "new");
            if x == w { if let footprint::Element::FpText(ref mut t) = want.elements[2] { t.value = "new".into(); } }
            fp::same_module(&want, &m);
        }
    }
    goal(if found.is_some() { 1 } else { 2 });
});
