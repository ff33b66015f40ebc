//! C11: written text is stable, and pretty-printing only chooses white space.

use crate::check;
use crate::gen::*;
use crate::harness;
use crate::sym::*;
use crate::{fp, lay, lib_, sch};
use kicad_parse_gen::{footprint, fp_lib_table, layout, schematic, symbol_lib, Sexp};


/// names of sections that occur in KiCad files
const NAMES: [&str; 56] = [
    "at", "descr", "fp_line", "fp_poly", "pad", "path", "fp_circle", "attr", "model", "fp_text", "gr_text", "dimension", "effects", "pts", "xy", "polygon", "filled_polygon", "scale", "rotate", "net", "page",
    "gr_circle", "gr_line", "gr_arc", "segment", "via", "layers", "zone", "setup", "general", "net_class", "module", "pcbplotparams", "feature1", "feature2", "crossbar", "arrow1a", "arrow1b", "arrow2a",
    "arrow2b", "connect_pads", "min_thickness", "fill", "keepout", "priority", "kicad_pcb", "fp_lib_table", "lib", "font", "size", "add_net", "fp_arc", "drill", "tags", "xyz", "zzz",
];

fn atom(s: &str) -> Sexp { Sexp::String(s.to_string()) }
fn list(name: &str, rest: Vec<Sexp>) -> Sexp { let mut v = vec![atom(name)]; v.extend(rest); Sexp::List(v) }

fn white(b: u8) -> bool { b == b' ' || b == b'\n' || b == b'\t' || b == b'\r' }
fn skip(b: &[u8], p: &mut usize) { while *p < b.len() && white(b[*p]) { *p += 1; } }
/// Independent reader of trees of lists and atoms.
fn tree(b: &[u8], p: &mut usize) -> Option<Sexp> {
    skip(b, p);
    if *p >= b.len() { return None; }
    let c = b[*p];
    if c == b'(' {
        *p += 1;
        let mut v = vec![];
        loop {
            skip(b, p);
            if *p >= b.len() { return None; }
            if b[*p] == b')' { *p += 1; return Some(Sexp::List(v)); }
            v.push(tree(b, p)?);
        }
    }
    if c == b')' { return None; }
    let mut s = vec![];
    if c == b'"' {
        *p += 1;
        loop {
            if *p >= b.len() { return None; }
            if b[*p] == b'"' { *p += 1; break; }
            s.push(b[*p]);
            *p += 1;
        }
    } else {
        while *p < b.len() && !(b[*p] == b' ' || b[*p] == b'\n' || b[*p] == b'\r' || b[*p] == b'(' || b[*p] == b')' || b[*p] == b'"') { s.push(b[*p]); *p += 1; }
    }
    Some(Sexp::String(unsafe { String::from_utf8_unchecked(s) }))
}
fn same_tree(a: &Sexp, b: &Sexp) -> bool {
    match (a, b) {
        (&Sexp::String(ref x), &Sexp::String(ref y)) => x == y,
        (&Sexp::List(ref x), &Sexp::List(ref y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same_tree(p, q)),
        _ => false,
    }
}
/// The text of a layout ends with the given trees.
fn written(trees: Vec<Sexp>, indent: i64) {
    let mut l = layout::Layout::default();
    for t in &trees { l.elements.push(layout::Element::Other(t.clone())); }
    let s = match layout::layout_to_string(&l, indent) { Ok(s) => s, Err(_) => { check!("writing" == "failed"); return; } };
    let b = s.as_bytes();
    let mut p = 0;
    let t = tree(b, &mut p);
    skip(b, &mut p);
    check!(p == b.len());
    match t {
        Some(Sexp::List(v)) => {
            goal(1);
            check!(v.len() >= trees.len() + 1);
            check!(same_tree(&v[0], &atom("kicad_pcb")));
            let n = v.len() - trees.len();
            for (x, y) in trees.iter().zip(v[n..].iter()) { check!(same_tree(x, y)); }
            obs(n as u64);
        }
        _ => check!("text" == "no tree"),
    }
}

// tree with any section name of up to 14 characters below each of 56 known ones, with atoms and lists around it
harness!(h_c11_any_name, {
    expect(1);
    let p = NAMES[pick(56)];
    let n = string(LOWER, 1, 14);
    written(vec![list(p, vec![atom("a"), list(&n, vec![atom("1"), list("xy", vec![])]), atom("b c"), list(&n, vec![])])], 0);
});

// tree with any section name of up to 14 characters above each of 12 known ones
harness!(h_c11_any_parent, {
    expect(1);
    let n = string(LOWER, 1, 14);
    let c = ["at", "effects", "xy", "net", "pts", "gr_text", "polygon", "fill", "descr", "segment", "module", "zzz"][pick(12)];
    written(vec![list(&n, vec![list(c, vec![atom("1"), list("xy", vec![])]), atom("b"), list(c, vec![])])], 0);
});

// any section name of up to 14 characters directly on the board, around a module and a segment
harness!(h_c11_any_top, {
    expect(1);
    let n = string(LOWER, 1, 14);
    let x = list(&n, vec![atom("b"), list("at", vec![atom("1")])]);
    let v = match pick(4) {
        0 => vec![x],
        1 => vec![list("module", vec![atom("M"), list("at", vec![])]), x],
        2 => vec![x, list("segment", vec![list("net", vec![atom("1")])])],
        _ => vec![list("module", vec![]), x.clone(), list("segment", vec![]), list("module", vec![list("module", vec![])]), x],
    };
    written(v, pick(3) as i64);
});

// sequences of 0 to 3 sections out of 7 names, indented by 0 to 2 levels
harness!(h_c11_sequence, {
    expect(1);
    let names = ["module", "segment", "setup", "net_class", "zone", "zzz", "kicad_pcb"];
    let mut v = vec![];
    for _ in 0..pick(4) { v.push(list(names[pick(7)], vec![list("size", vec![atom("2")]), atom("x y")])); }
    let i = if v.len() < 3 { pick(3) } else { 0 };
    written(v, i as i64);
});

// lists of points: 0 to 13 points under the section names that wrap them
harness!(h_c11_points, {
    expect(1);
    let outer = ["fp_poly", "polygon", "filled_polygon", "feature1", "zzz"][pick(5)];
    let n = pick(14);
    let pts = (0..n).map(|i| list("xy", vec![atom(&string_n("0123456789-.", 1)), atom(if i % 2 == 0 { "1.5" } else { "-2" })])).collect();
    let t = list(outer, vec![list("pts", pts), list("pts", vec![list("xy", vec![])])]);
    written(vec![if boolean() { list("zone", vec![t]) } else { t }], 0);
});

// atoms: any text of up to 3 characters at the start, in the middle and at the end of a list, empty lists included
harness!(h_c11_atoms, {
    expect(1);
    let s = string(TEXT_TAB, 0, 3);
    let t = match pick(5) {
        0 => Sexp::List(vec![atom(&s)]),
        1 => Sexp::List(vec![atom(&s), list("at", vec![]), atom("x")]),
        2 => list("module", vec![atom("a"), atom(&s), atom("b"), Sexp::List(vec![])]),
        3 => list("zone", vec![Sexp::List(vec![Sexp::List(vec![atom(&s)]), atom("q")]), atom(&s)]),
        _ => list("general", vec![Sexp::List(vec![]), atom(&s), Sexp::List(vec![Sexp::List(vec![]), atom(&s)])]),
    };
    written(vec![t], 0);
});

fn stable_module(m: &footprint::Module) {
    if let Ok(s) = footprint::module_to_string(m, 0) {
        match footprint::parse(&s).and_then(|m| footprint::module_to_string(&m, 0)) {
            Ok(u) => { goal(1); check!(s == u); }
            Err(_) => check!("second writing" == "failed"),
        }
    } else { check!("writing" == "failed"); }
}
fn stable_layout(l: &layout::Layout) {
    if let Ok(s) = layout::layout_to_string(l, 0) {
        match layout::parse(&s).and_then(|m| layout::layout_to_string(&m, 0)) {
            Ok(u) => { goal(1); check!(s == u); }
            Err(_) => check!("second writing" == "failed"),
        }
    } else { check!("writing" == "failed"); }
}

// stability: footprint with one element of every kind, any numbers, one symbolic text of up to 2 characters
harness!(h_c11_footprint, {
    expect(1);
    let k = pick(18);
    let mut t = Texts::one_of(2, 2);
    let e = fp::element_light(k, &mut t);
    assume(t.used() || t.slot == 0);
    stable_module(&fp::module_with(e));
});

// stability: footprint with two elements of any kinds, any numbers
harness!(h_c11_footprint_pairs, {
    expect(1);
    let (i, j) = (pick(18), pick(18));
    let mut t = Texts::none();
    let mut m = fp::module_with(fp::element_light(i, &mut t));
    m.append(fp::element_light(j, &mut t));
    stable_module(&m);
});

// stability: layout with two elements of any kinds, any numbers
harness!(h_c11_layout, {
    expect(1);
    let (i, j) = (pick(12), pick(12));
    let mut l = lay::layout_with(lay::element_fixed(i));
    l.elements.push(lay::element_fixed(j));
    stable_layout(&l);
});

// stability: zone with up to 11 points and every optional part
harness!(h_c11_zone, {
    expect(1);
    let mut z = lay::zone(&mut Texts::none());
    z.priority = int(0, 1000) as u64;
    z.fill = lay::fill();
    z.polygons.push(lay::pts(pick(12)));
    for _ in 0..pick(3) { z.filled_polygons.push(lay::pts(2)); }
    stable_layout(&lay::layout_with(layout::Element::Zone(z)));
});

// stability: schematic with two elements of any kinds, any numbers
harness!(h_c11_schematic, {
    expect(1);
    let (i, j) = (pick(7), pick(7));
    let mut a = sch::with(sch::element_fixed(i));
    a.elements.push(sch::element_fixed(j));
    let s = format!("{}", a);
    match schematic::parse_str(&s) {
        Ok(b) => { goal(1); check!(s == format!("{}", b)); }
        Err(_) => check!("reading back" == "failed"),
    }
});

// stability: symbol with any field, pin and rectangle
harness!(h_c11_symbol, {
    expect(1);
    let mut a = lib_::symbol();
    match pick(3) {
        0 => { let mut f = lib_::field(2 + pick(4) as i64, "Name".into(), string(ALNUM, 0, 2)); f.visible = boolean(); f.bold = boolean(); f.hjustify = sch::justify(pick(5)); if f.i < 4 { f.name = lib_::field(f.i, String::new(), String::new()).name; } a.fields.push(f); }
        1 => a.draw.push(symbol_lib::Draw::Pin(lib_::pin())),
        _ => a.draw.push(symbol_lib::Draw::Rectangle(lib_::rect(pick(3)))),
    }
    let s = format!("{}", lib_::with(a));
    match symbol_lib::parse_str(&s) {
        Ok(b) => { goal(1); check!(s == format!("{}", b)); }
        Err(_) => check!("reading back" == "failed"),
    }
});

// stability: footprint library table, one text of up to 3 characters
harness!(h_c11_table, {
    expect(1);
    let mut t = Texts::one_of(5, 3);
    let l = fp_lib_table::Lib { name: t.text(), type_: t.text(), uri: t.text(), options: t.text(), descr: t.text() };
    let a = fp_lib_table::FpLibTable { libs: vec![l.clone(), l] };
    if let Ok(s) = fp_lib_table::to_string(&a, 0) {
        match fp_lib_table::parse(&s) {
            Ok(b) => { goal(1); match fp_lib_table::to_string(&b, 0) { Ok(u) => check!(s == u), Err(_) => check!("second writing" == "failed") } }
            Err(_) => check!("reading back" == "failed"),
        }
    } else { check!("writing" == "failed"); }
});

// atoms: lower case words of up to 14 characters where texts stand, with lists around them
harness!(h_c11_words, {
    expect(1);
    let s = string(LOWER, 1, 14);
    let t = match pick(4) {
        0 => list("module", vec![atom("a"), atom(&s), list("at", vec![]), atom(&s), atom("b")]),
        1 => list("zone", vec![list("at", vec![atom(&s)]), atom(&s), list("pts", vec![atom(&s), list("xy", vec![])]), atom("q")]),
        2 => list("zzz", vec![atom(&s), atom(&s)]),
        _ => Sexp::List(vec![Sexp::List(vec![]), atom(&s), Sexp::List(vec![atom(&s), atom("c")])]),
    };
    written(vec![t], pick(2) as i64);
});

// stability: footprint with a lower case word of up to 14 characters in every text position
harness!(h_c11_footprint_words, {
    expect(1);
    let w = string(LOWER, 1, 14);
    let mut m = footprint::Module::new("M".into());
    match pick(6) {
        0 => m.name = w,
        1 => m.append(footprint::Element::Descr(w)),
        2 => m.append(footprint::Element::Tags(w)),
        3 => m.append(footprint::Element::FpText(footprint::FpText::new(w.clone(), w))),
        4 => m.append(footprint::Element::Pad(footprint::Pad::new(w, footprint::PadType::Smd, footprint::PadShape::Rect))),
        _ => m.append(footprint::Element::Path(w)),
    }
    m.append(footprint::Element::At(fp::at()));
    stable_module(&m);
});

// trees of 5, 9, 17, 33 or 67 sections, atoms or points in one list, and lists as deep, below 4 names
harness!(h_c11_long, {
    expect(1);
    let n = length();
    let p = ["module", "zone", "pts", "zzz"][pick(4)];
    let c = ["at", "xy", "fp_line", "segment", "zzz"][pick(5)];
    let s = string(LOWER, 1, 1);
    let v = match pick(4) {
        0 => vec![list(p, (0..n).map(|i| list(c, vec![atom(&s), atom(&word(i))])).collect())],
        1 => vec![list(p, (0..n).map(|i| if i == n - 1 { list(c, vec![atom(&s)]) } else { atom(&word(i)) }).collect())],
        2 => (0..n).map(|i| list(if i % 2 == 0 { p } else { c }, vec![atom(&s), list("size", vec![atom(&word(i))])])).collect(),
        _ => { let mut t = list(c, vec![atom(&s)]); for i in 0..n { t = list(if i % 2 == 0 { c } else { p }, vec![atom("a"), t, atom(&word(i))]); } vec![t] }
    };
    written(v, pick(2) as i64);
});

// texts of 10 to 300 characters as atoms and section names
harness!(h_c11_long_texts, {
    expect(1);
    let n = [10, 80, 300][pick(3)];
    let s = long_text(n);
    let w = filled_word(0, n);
    written(vec![list("module", vec![atom(&s), list("descr", vec![atom(&s)]), list("zzz", vec![atom("a"), atom(&w), atom(&s)])]), list(&w, vec![atom(&s), list(&w, vec![])])], 0);
});

// stability: 5, 9, 17, 33 or 67 elements of all kinds in every document
harness!(h_c11_many, {
    expect(1);
    let n = length();
    let mut t = Texts::none();
    match pick(4) {
        0 => { let mut m = footprint::Module::new("M".into()); for i in 0..n { m.append(fp::element_light(i % 18, &mut t)); } stable_module(&m); }
        1 => { let mut l = layout::Layout::default(); for i in 0..n { l.elements.push(lay::element_fixed(i % 12)); } stable_layout(&l); }
        2 => {
            let mut a = sch::with(sch::element_fixed(0));
            for i in 0..n { a.elements.push(sch::element_fixed(i % 7)); }
            let s = format!("{}", a);
            match schematic::parse_str(&s) { Ok(b) => { goal(1); check!(s == format!("{}", b)); } Err(_) => check!("reading back" == "failed") }
        }
        _ => {
            let mut a = lib_::symbol();
            for i in 0..n { let mut p = lib_::pin(); p.number = word(i); a.draw.push(symbol_lib::Draw::Pin(p)); a.draw.push(symbol_lib::Draw::Rectangle(lib_::rect(i % 3))); a.fields.push(lib_::field(4 + i as i64, word(i), word(i))); }
            let s = format!("{}", lib_::with(a));
            match symbol_lib::parse_str(&s) { Ok(b) => { goal(1); check!(s == format!("{}", b)); } Err(_) => check!("reading back" == "failed") }
        }
    }
});
