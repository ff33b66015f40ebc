//! C21: editing component fields changes exactly what was asked.

use crate::check;
use crate::gen::*;
use crate::harness;
use crate::lib_;
use crate::sch::*;
use crate::sym::*;
use kicad_parse_gen::schematic::*;
use kicad_parse_gen::symbol_lib::{Draw, Symbol};

/// a component with `n` fields of any numbers and the given names
fn with_fields(names: &[&str]) -> Component {
    let mut c = component(&[1, 0, 0, -1]);
    c.x = any();
    c.y = any();
    c.u = "U 1 1 5A".into();
    c.ar_path.push("AR Path=\"/1\"".into());
    for (k, n) in names.iter().enumerate() {
        let mut f = field(int(0, 1000000), n.to_string(), "old".into());
        f.visible = if k < 2 { boolean() } else { k % 2 == 0 };
        f.bold = k == 1;
        c.fields.push(f);
    }
    c
}
const NAMES: [&str; 4] = ["Reference", "Value", "Footprint", "Mfr"];

/// fields the same up to visibility of the numbered ones
fn same_but_hidden(a: &ComponentField, b: &ComponentField) {
    check!(a.visible == b.visible || (!b.visible && a.i > 1));
    let mut c = b.clone();
    c.visible = a.visible;
    same_field(a, &c);
}

// new reference of up to 2 characters on a component with up to 4 fields of any numbers
harness!(h_c21_reference, {
    expect(1);
    let a = with_fields(&NAMES[0..pick(5)]);
    let r = string(TEXT, 0, 2);
    let mut b = a.clone();
    b.update_reference(r.clone());
    goal(1);
    let mut w = a.clone();
    w.reference = r.clone();
    for f in &mut w.fields { if f.i == 0 { f.value = r.clone(); } }
    same_component(&w, &b);
});

// new name of up to 2 characters on a component with up to 4 fields of any numbers
harness!(h_c21_name, {
    expect(1);
    let a = with_fields(&NAMES[0..pick(5)]);
    let r = string(TEXT, 0, 2);
    let mut b = a.clone();
    b.update_name(r.clone());
    goal(1);
    let mut w = a.clone();
    w.name = r.clone();
    for f in &mut w.fields { if f.i == 1 { f.value = r.clone(); } }
    same_component(&w, &b);
});

// updating a field by a name of up to 3 characters, new value of up to 2
harness!(h_c21_update, {
    expect(1);
    let a = with_fields(&["ab", "a", "abc", ""][0..pick(5)]);
    let n = string("abc", 0, 3);
    let v = string(TEXT, 0, 2);
    let mut b = a.clone();
    b.update_field(&n, &v);
    goal(1);
    check!(a.fields.len() == b.fields.len());
    let mut w = a.clone();
    for f in &mut w.fields { if f.name == n { f.value = v.clone(); } }
    for (x, y) in w.fields.iter().zip(b.fields.iter()) { same_but_hidden(x, y); }
    b.fields = w.fields.clone();
    same_component(&w, &b);
});

// a new field: numbers of up to 4 existing fields arbitrary up to a million
harness!(h_c21_add, {
    expect(1);
    let a = with_fields(&NAMES[0..pick(5)]);
    let t = field(any(), "template".into(), "t".into());
    let n = string(TEXT, 0, 2);
    let mut b = a.clone();
    b.add_new_field(&t, &n, "new value");
    goal(1);
    check!(b.fields.len() == a.fields.len() + 1);
    if let Some(f) = b.fields.pop() {
        for o in &a.fields { check!(o.i != f.i); }
        check!(f.i > 0);
        check!(f.name == n);
        check!(f.value == "new value");
        check!(f.x == t.x);
        check!(f.y == t.y);
        check!(!f.visible);
    }
    same_component(&a, &b);
});

// the free field number is not used by any of up to 5 fields
harness!(h_c21_free_number, {
    expect(1);
    let c = with_fields(&["a", "b", "c", "d", "e"][0..pick(6)]);
    let n = c.get_available_field_num();
    goal(1);
    for f in &c.fields { check!(f.i != n); }
    check!(n >= 0);
});

// add or update: name of up to 2 characters, value of up to 3, among 3 fields
harness!(h_c21_add_or_update, {
    expect(3);
    let mut a = with_fields(&["ab", "a", "b"][0..pick(4)]);
    for f in &mut a.fields { f.visible = false; }
    let t = field(any(), "template".into(), "t".into());
    let n = string("ab", 0, 2);
    let v = string("dlo", 0, 3);
    let mut b = a.clone();
    let r = b.add_or_update_field(&t, &n, &v);
    let k = a.fields.iter().position(|f| f.name == n);
    match k {
        None => {
            goal(1);
            check!(match r { FieldUpdate::New => true, _ => false });
            check!(b.fields.len() == a.fields.len() + 1);
            if let Some(f) = b.fields.pop() {
                for o in &a.fields { check!(o.i != f.i); }
                check!(f.name == n);
                check!(f.value == v);
                check!(!f.visible);
            }
        }
        Some(i) => {
            if v == "old" { goal(2); check!(match r { FieldUpdate::Same => true, _ => false }); } else {
                goal(3);
                check!(match r { FieldUpdate::Update(ref o) => o == "old", _ => false });
            }
            check!(b.fields.len() == a.fields.len());
            check!(b.fields[i].value == v);
            b.fields[i].value = "old".into();
        }
    }
    let changed: bool = r.into();
    check!(changed == (k.is_none() || v != "old"));
    same_component(&a, &b);
});

// fields found by name: name of up to 3 characters among up to 4 fields
harness!(h_c21_find, {
    expect(2);
    let mut a = with_fields(&["ab", "a", "abc", ""][0..pick(5)]);
    for (i, f) in a.fields.iter_mut().enumerate() { f.value = ["w", "x", "y z", ""][i].into(); }
    let n = string("abc", 0, 3);
    let mut k = None;
    for f in a.fields.iter().rev() { if f.name == n { k = Some(f.clone()); } }
    match k {
        Some(f) => {
            goal(1);
            check!(a.get_field_value(&n) == Some(f.value.clone()));
            match a.get_field(&n) { Some(g) => same_field(&f, &g), None => check!("field" == "not found") }
        }
        None => { goal(2); check!(a.get_field_value(&n).is_none()); check!(a.get_field(&n).is_none()); }
    }
});

// edits one after the other: reference, name, a field and a new field
harness!(h_c21_sequence, {
    expect(1);
    let a = with_fields(&["Reference", "Value", "Mfr"]);
    let mut b = a.clone();
    let t = field(2, "t".into(), "t".into());
    let (r, n) = (string_n(ALNUM, 2), string_n(ALNUM, 1));
    b.update_reference(r.clone());
    b.add_new_field(&t, "X1", "one");
    b.update_name(n.clone());
    b.add_new_field(&t, "X2", "two");
    b.update_field("X1", "three");
    goal(1);
    check!(b.reference == r);
    check!(b.name == n);
    check!(b.fields.len() == 5);
    if b.fields.len() == 5 {
        check!(b.fields[3].value == "three");
        check!(b.fields[4].value == "two");
        check!(b.fields[3].i != b.fields[4].i);
        for i in 0..3 {
            check!(a.fields[i].i == b.fields[i].i);
            let w = if a.fields[i].i == 0 { r.clone() } else if a.fields[i].i == 1 { n.clone() } else { "old".to_string() };
            check!(b.fields[i].value == w);
        }
    }
});

// new name of up to 2 characters on a library symbol: up to 3 fields of any numbers
harness!(h_c21_symbol_name, {
    expect(1);
    let mut a = Symbol::new(["R", "~R"][pick(2)].into(), "R".into());
    for _ in 0..pick(4) { let mut f = lib_::field(int(0, 1000), "n".into(), "old".into()); f.visible = boolean(); a.fields.push(f); }
    a.aliases.push("R1".into());
    a.draw.push(Draw::Other("C".into()));
    let n = string(TEXT, 1, 2);
    let mut b = a.clone();
    b.set_name(&n);
    goal(1);
    let mut w = a.clone();
    w.name = if a.name.len() == 2 { format!("~{}", n) } else { n.clone() };
    for f in &mut w.fields { if f.i == 1 { f.value = n.clone(); } }
    lib_::same_symbol(&w, &b);
});

// the table of a component's fields: up to 4 fields, each name with its value
harness!(h_c21_table, {
    expect(1);
    let mut c = with_fields(&NAMES[0..pick(5)]);
    for f in &mut c.fields { f.value = string(TEXT, 0, 1); }
    let h = c.fields_hash();
    goal(1);
    check!(h.len() == c.fields.len());
    for f in &c.fields { match h.get(&f.name) { Some(v) => check!(*v == f.value), None => check!("name" == "missing") } }
    check!(h.get("Other").is_none());
});

// components of 5, 9, 17, 33 or 67 fields and texts of up to 70 characters: every edit, at the first, middle or last field
harness!(h_c21_long, {
    expect(1);
    let n = length();
    let k = [0, n / 2, n - 1][pick(3)];
    let mut a = component(&[1, 0, 0, -1]);
    for i in 0..n { let mut f = field(((i + n - k) % n) as i64, word(i), word(n + i)); f.visible = i % 2 == 0; a.fields.push(f); }
    let t = field(any(), "template".into(), "t".into());
    let v = long_text([8, 70][pick(2)]);
    let mut b = a.clone();
    let mut w = a.clone();
    match pick(6) {
        // field k has the number 0
        0 => { b.update_reference(v.clone()); w.reference = v.clone(); w.fields[k].value = v; }
        1 => { b.update_name(v.clone()); w.name = v.clone(); w.fields[(k + 1) % n].value = v; }
        2 => { b.update_field(&word(k), &v); w.fields[k].value = v; check!(b.fields.len() == n); for (x, y) in w.fields.iter().zip(b.fields.iter()) { same_but_hidden(x, y); } b.fields = w.fields.clone(); }
        3 => {
            b.add_new_field(&t, &v, &v);
            check!(b.fields.len() == n + 1);
            if let Some(f) = b.fields.pop() { for o in &a.fields { check!(o.i != f.i); } check!(f.name == v); check!(f.value == v); check!(f.x == t.x); check!(f.y == t.y); }
        }
        4 => {
            match b.add_or_update_field(&t, &word(k), &v) { FieldUpdate::Update(ref o) => check!(*o == word(n + k)), _ => check!("update" == "done") }
            w.fields[k].value = v;
            check!(b.fields.len() == n);
            for (x, y) in w.fields.iter().zip(b.fields.iter()) { same_but_hidden(x, y); }
            b.fields = w.fields.clone();
        }
        _ => {
            check!(b.get_field_value(&word(k)) == Some(word(n + k)));
            check!(b.get_field(&word(k)).map(|f| f.i) == Some(0));
            check!(b.get_field(&v).is_none());
            let h = b.fields_hash();
            check!(h.len() == n);
            check!(h.get(&word(k)) == Some(&word(n + k)));
        }
    }
    goal(1);
    same_component(&w, &b);
});

// a new field made on its own: any number, position and texts of up to 2 characters
harness!(h_c21_new, {
    expect(1);
    let (i, x, y) = (any(), float(), float());
    let (n, v) = (string(TEXT, 0, 1), string(TEXT, 0, 2));
    let f = ComponentField::new_from(i, n.clone(), v.clone(), x, y);
    goal(1);
    check!(f.i == i);
    check!(f.name == n);
    check!(f.value == v);
    check!(f.x == x);
    check!(f.y == y);
    check!(!f.visible);
    check!(!f.bold);
    check!(!f.italic);
    check!(f.size > 0);
});

// texts of 1 to 14 characters: names and values any, a second one the same or any of that length
harness!(h_c21_words, {
    expect(1);
    let len = 1 + pick(14);
    let (x, y) = (string_n(TEXT, len), string_n(TEXT, len));
    let mut a = with_fields(&["Reference", "Value", "Mfr"]);
    for f in &mut a.fields { f.visible = false; }
    a.fields[2].i = 2;
    let t = field(any(), "template".into(), "t".into());
    let mut b = a.clone();
    match pick(6) {
        0 => { b.update_reference(x.clone()); a.reference = x.clone(); for f in &mut a.fields { if f.i == 0 { f.value = x.clone(); } } }
        1 => { b.update_name(x.clone()); a.name = x.clone(); for f in &mut a.fields { if f.i == 1 { f.value = x.clone(); } } }
        2 => { a.fields[2].name = x.clone(); b.fields[2].name = x.clone(); assume(y != "Reference" && y != "Value"); b.update_field(&y, "new"); if x == y { a.fields[2].value = "new".into(); } }
        3 => {
            a.fields[2].value = x.clone();
            b.fields[2].value = x.clone();
            match b.add_or_update_field(&t, "Mfr", &y) { FieldUpdate::Same => check!(x == y), FieldUpdate::Update(ref o) => { check!(x != y); check!(*o == x); } _ => check!("field" == "found") }
            a.fields[2].value = y;
        }
        4 => {
            a.fields[2].name = x.clone();
            b.fields[2].name = x.clone();
            assume(y != "Reference" && y != "Value");
            match b.add_or_update_field(&t, &y, "new") {
                FieldUpdate::New => { check!(x != y); check!(b.fields.len() == 4); if let Some(f) = b.fields.pop() { check!(f.name == y); check!(f.value == "new"); } }
                FieldUpdate::Update(ref o) => { check!(x == y); check!(o == "old"); a.fields[2].value = "new".into(); }
                FieldUpdate::Same => check!("field" == "changed"),
            }
        }
        _ => { a.fields[2].name = x.clone(); b.fields[2].name = x.clone(); assume(y != "Reference" && y != "Value"); check!(b.get_field_value(&y).is_some() == (x == y)); check!(b.get_field(&y).is_some() == (x == y)); }
    }
    goal(1);
    same_component(&a, &b);
});
