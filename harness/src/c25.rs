//! C25: all components of a sheet hierarchy are collected.

use crate::check;
use crate::fs;
use crate::gen::*;
use crate::harness;
use crate::sch::*;
use crate::sym::*;
use kicad_parse_gen::schematic::*;
use std::path::{Path, PathBuf};

/// a component with a reference and any position
fn comp(r: &str) -> Component {
    let mut c = component(&[1, 0, 0, -1]);
    c.reference = r.into();
    c.x = any();
    c.y = any();
    c
}
fn sheet(name: &str, file: &str) -> Sheet {
    let mut s = Sheet::default();
    s.unique = "5A".into();
    s.name = name.into();
    s.filename = file.into();
    s
}
/// a schematic with elements of other kinds between its components
fn schematic(comps: &[Component], sheets: &[(&str, &str)]) -> Schematic {
    let mut s = empty();
    s.elements.push(element_fixed(1));
    for c in comps { s.elements.push(Element::Component(c.clone())); s.elements.push(element_fixed(2)); }
    for x in sheets { s.sheets.push(sheet(x.0, x.1)); }
    s
}
fn put(path: &str, s: &Schematic) { fs::add(path, format!("{}", s).as_bytes()); }
/// the collected components are the wanted ones, in whatever order
fn collected(got: &[Component], want: &[Component]) {
    check!(got.len() == want.len());
    for w in want {
        let v: Vec<&Component> = got.iter().filter(|g| g.reference == w.reference).collect();
        check!(v.len() == want.iter().filter(|x| x.reference == w.reference).count());
        if v.len() == 1 { same_component(w, v[0]); }
    }
}
fn names(prefix: &str, n: usize) -> Vec<Component> { (0..n).map(|i| comp(&format!("{}{}", prefix, i + 1))).collect() }
/// looks every component up by its reference
fn found(s: &Schematic, want: &[Component]) {
    for w in want {
        match s.component_by_reference(&w.reference) { Ok(c) => same_component(w, &c), Err(_) => check!("lookup" == "failed") }
    }
    check!(s.component_by_reference("NONE9").is_err());
}

// up to 2 components on the top sheet, up to 3 sub-sheets with up to 2 components each, any positions; the top sheet read from its file
harness!(h_c25_flat, {
    expect(1);
    fs::start();
    let top = names("R", pick(3));
    let n = pick(4);
    let mut want = top.clone();
    let mut sheets = vec![];
    for i in 0..n {
        let c = names(["A", "B", "C"][i], pick(3));
        let file = ["a.sch", "b c.sch", "sub/c.sch"][i];
        put(&format!("/d/{}", file), &schematic(&c, &[]));
        want.extend(c);
        sheets.push((["one", "two", ""][i], file));
    }
    put("/d/top.sch", &schematic(&top, &sheets));
    // files of the same name elsewhere
    put("/a.sch", &schematic(&names("X", 1), &[]));
    put("a.sch", &schematic(&names("Y", 1), &[]));
    let s = match parse_file(Path::new("/d/top.sch")) { Ok(s) => s, Err(_) => { check!("reading" == "failed"); return; } };
    match s.all_components() {
        Ok(v) => { goal(1); collected(&v, &want); }
        Err(_) => check!("collecting" == "failed"),
    }
});

/// a tree of sheets below `dir`; every sheet has one component
fn tree(dir: &str, name: &str, depth: usize, want: &mut Vec<Component>) {
    let n = if depth == 0 { 0 } else { pick(3) };
    let c = comp(&format!("{}1", name));
    want.push(c.clone());
    let mut files: Vec<String> = vec![];
    for i in 0..n {
        // sheets of sheets are found next to the sheet that holds them
        let sub = i == 1;
        let child = format!("{}{}", name, ["A", "B"][i]);
        files.push(if sub { format!("s/{}.sch", child) } else { format!("{}.sch", child) });
        tree(&if sub { format!("{}/s", dir) } else { dir.to_string() }, &child, depth - 1, want);
    }
    let l: Vec<(&str, &str)> = files.iter().map(|f| ("s", &f[..])).collect();
    put(&format!("{}/{}.sch", dir, name), &schematic(&[c], &l));
}

// sheet trees of depth up to 3 (4 in the thorough tier) with up to 2 sub-sheets each, in the same or a deeper directory
harness!(h_c25_tree, {
    expect(1);
    fs::start();
    let mut want = vec![];
    tree("/d", "T", if thorough() { 3 } else { 2 }, &mut want);
    let s = match parse_file(Path::new("/d/T.sch")) { Ok(s) => s, Err(_) => { check!("reading" == "failed"); return; } };
    match s.all_components() {
        Ok(v) => { goal(1); collected(&v, &want); }
        Err(_) => check!("collecting" == "failed"),
    }
    found(&s, &want);
});

// chains of 1 to 6 sheets, 12 in the thorough tier
harness!(h_c25_chain, {
    expect(1);
    fs::start();
    let n = 1 + pick(if thorough() { 12 } else { 6 });
    let mut want = vec![];
    for i in 0..n {
        let c = comp(&format!("R{}", i + 1));
        let next = format!("s{}.sch", i + 1);
        put(&format!("/d/s{}.sch", i), &schematic(&[c.clone()], &if i + 1 < n { vec![("s", &next[..])] } else { vec![] }));
        want.push(c);
    }
    let s = match parse_file(Path::new("/d/s0.sch")) { Ok(s) => s, Err(_) => { check!("reading" == "failed"); return; } };
    match s.all_components() {
        Ok(v) => { goal(1); collected(&v, &want); }
        Err(_) => check!("collecting" == "failed"),
    }
    found(&s, &want);
});

// 5, 9, 17, 33 or 67 sheets below one
harness!(h_c25_wide, {
    expect(1);
    fs::start();
    let n = length();
    let mut want = vec![];
    let mut top = schematic(&[], &[]);
    for i in 0..n {
        let c = comp(&format!("R{}", i + 1));
        let f = format!("s{}.sch", i);
        put(&format!("/d/{}", f), &schematic(&[c.clone()], &[]));
        top.sheets.push(sheet("s", &f));
        want.push(c);
    }
    top.filename = Some(PathBuf::from("/d/t.sch"));
    match top.all_components() {
        Ok(v) => { goal(1); collected(&v, &want); }
        Err(_) => check!("collecting" == "failed"),
    }
});

// 6, 10, 18, 34 or 68 components on each of a sheet and its two sub-sheets (up to 130 in the thorough tier)
harness!(h_c25_full, {
    expect(1);
    fs::start();
    let n = length();
    let fixed = |p: &str, n: usize| -> Vec<Component> { (0..n).map(|i| { let mut c = component(&[1, 0, 0, -1]); c.reference = format!("{}{}", p, i + 1); c.x = i as i64; c }).collect() };
    let (mut top, mut a, mut b) = (fixed("R", n), fixed("A", n), fixed("B", n));
    for (i, v) in vec![&mut top, &mut a, &mut b].into_iter().enumerate() { v.push(comp(["X1", "X2", "X3"][i])); }
    let mut want = top.clone();
    want.extend(a.clone());
    want.extend(b.clone());
    put("/d/a.sch", &schematic(&a, &[]));
    put("/d/b.sch", &schematic(&b, &[]));
    let mut top = schematic(&top, &[("one", "a.sch"), ("two", "b.sch")]);
    top.filename = Some(PathBuf::from("/d/top.sch"));
    match top.all_components() {
        Ok(v) => { goal(1); collected(&v, &want); }
        Err(_) => check!("collecting" == "failed"),
    }
});

// three sheets, one of them below another; each file there, missing, no schematic or failing to be read: the components or an error
harness!(h_c25_unreadable, {
    expect(2);
    fs::start();
    let mut good = true;
    let files = [("/d/a.sch", "A1"), ("/d/b.sch", "B1"), ("/d/e/c.sch", "C1")];
    let mut want = vec![comp("R1")];
    for (i, f) in files.iter().enumerate() {
        let c = comp(f.1);
        want.push(c.clone());
        let k = pick(4);
        if k != 0 { good = false; }
        let t = format!("{}", schematic(&[c], &if i == 1 { vec![("s", "e/c.sch")] } else { vec![] }));
        match k { 0 => fs::add(f.0, t.as_bytes()), 1 => (), 2 => fs::add(f.0, &[b'E', 255, b'\n']), _ => fs::add(f.0, format!("EESchema-LIBRARY{}", &t["EESchema Schematic".len()..]).as_bytes()) }
    }
    let mut top = schematic(&want[..1], &[("one", "a.sch"), ("two", "b.sch")]);
    top.filename = Some(PathBuf::from("/d/top.sch"));
    match top.all_components() {
        Ok(v) => { goal(1); check!(good); collected(&v, &want); }
        Err(_) => { goal(2); check!(!good); }
    }
});

// two sub-sheets and up to 2 failing, interrupted or partial reads: all components or an error
harness!(h_c25_faults, {
    expect(2);
    fs::start();
    let want = vec![comp("R1"), comp("A1"), comp("B1")];
    put("/d/a.sch", &schematic(&want[1..2], &[("s", "b.sch")]));
    put("/d/b.sch", &schematic(&want[2..], &[]));
    let mut top = schematic(&want[..1], &[("one", "a.sch")]);
    top.filename = Some(PathBuf::from("/d/top.sch"));
    fs::faults(2, false);
    match top.all_components() {
        Ok(v) => { goal(1); collected(&v, &want); }
        Err(_) => { goal(2); check!(fs::happened() > 0); }
    }
});

// a file name of up to 3 characters out of letters, points and slashes for the sheet, the schematic's own file anywhere
harness!(h_c25_file, {
    expect(2);
    fs::start();
    let f = string("abc./", 1, 3);
    let base = ["/d/top.sch", "top.sch", "d/e/top.sch", "/top.sch", "./x/../top.sch"][pick(5)];
    // next to the schematic that holds the sheet, or where an absolute name says
    let dir = match base.rfind('/') { Some(i) => &base[..i + 1], None => "" };
    let path = if f.starts_with('/') { f.clone() } else { format!("{}{}", dir, f) };
    let c = comp("A1");
    put(&path, &schematic(&[c.clone()], &[]));
    put("/other/abc", &schematic(&[comp("B1")], &[]));
    let mut top = schematic(&[], &[("one", &f)]);
    if pick(2) == 0 {
        // no file name, nowhere to look
        goal(2);
        check!(top.all_components().is_err());
        check!(filename_for_sheet(&top, &top.sheets[0]).is_err());
        check!(parse_file_for_sheet(&top, &top.sheets[0]).is_err());
        return;
    }
    top.filename = Some(PathBuf::from(base));
    match filename_for_sheet(&top, &top.sheets[0]) { Ok(p) => check!(p == Path::new(&path)), Err(_) => check!("naming" == "failed") }
    match parse_file_for_sheet(&top, &top.sheets[0]) {
        Ok(s) => { check!(s.components().len() == 1); same_component(&s.components()[0], &c); }
        Err(_) => check!("reading" == "failed"),
    }
    match top.all_components() {
        Ok(v) => { goal(1); collected(&v, &[c]); }
        Err(_) => check!("collecting" == "failed"),
    }
});

// one file used by two sheets, or by every second of 3 to 9 sheets, counts for each of them
harness!(h_c25_shared, {
    expect(1);
    if boolean() {
        fs::start();
        let n = 3 + pick(7);
        let c = comp("A1");
        put("/d/a.sch", &schematic(&[c.clone()], &[]));
        for i in 0..n { put(&format!("/d/b{}.sch", i), &schematic(&[comp("B1")], &[])); }
        let (step, files): (usize, Vec<String>) = if pick(2) == 0 { (1, (0..n).map(|_| "a.sch".to_string()).collect()) } else { (2, (0..n).map(|i| if i % 2 == 0 { "a.sch".to_string() } else { format!("b{}.sch", i) }).collect()) };
        let sheets: Vec<(&str, &str)> = files.iter().map(|f| ("s", f.as_str())).collect();
        let mut top = schematic(&[], &sheets);
        top.filename = Some(PathBuf::from("/d/top.sch"));
        match top.all_components() {
            Ok(v) => {
                goal(1);
                check!(v.len() == n);
                let k: Vec<&Component> = v.iter().filter(|x| x.reference == "A1").collect();
                check!(k.len() == (n + step - 1) / step);
                for x in k { same_component(&c, x); }
            }
            Err(_) => check!("collecting" == "failed"),
        }
        return;
    }
    fs::start();
    let c = comp("A1");
    put("/d/a.sch", &schematic(&[c.clone()], &[]));
    put("/d/b.sch", &schematic(&[comp("B1")], &[("x", "a.sch")]));
    let mut top = schematic(&[], &[("one", "a.sch"), ("two", ["a.sch", "b.sch"][pick(2)])]);
    top.filename = Some(PathBuf::from("/d/top.sch"));
    match top.all_components() {
        Ok(v) => {
            goal(1);
            let n: Vec<&Component> = v.iter().filter(|x| x.reference == "A1").collect();
            check!(n.len() == 2);
            for x in n { same_component(&c, x); }
        }
        Err(_) => check!("collecting" == "failed"),
    }
});

// components of any kind in a sub-sheet: names, units, path lines, fields with any numbers and flags, kept as they stand in their file
harness!(h_c25_as_it_stands, {
    expect(1);
    fs::start();
    let mut c = component(&[any(), any(), any(), any()]);
    c.reference = string("ABC0123456789?#", 1, 2);
    c.x = any();
    c.u = ["U 1 1 5A0B", "U 12 2 0"][pick(2)].into();
    for i in 0..pick(3) { c.ar_path.push(["AR Path=\"/1/2\" Ref=\"R1\"  Part=\"1\"", "AR Path=\"/3\""][i].into()); }
    for i in 0..pick(3) { let mut f = field(i as i64 + 3, ["UserDocLink", "Custom"][i].into(), string(" abc/1", 0, 1)); f.visible = boolean(); c.fields.push(f); }
    put("/d/a.sch", &schematic(&[c.clone()], &[]));
    let mut top = schematic(&[], &[("one", "a.sch")]);
    top.filename = Some(PathBuf::from("/d/top.sch"));
    match top.all_components() {
        Ok(v) => { goal(1); check!(v.len() == 1); same_component(&c, &v[0]); }
        Err(_) => check!("collecting" == "failed"),
    }
});
