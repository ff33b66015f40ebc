//! C13: saving writes the complete text or reports an error, loading likewise.

use crate::check;
use crate::fp;
use crate::fs;
use crate::gen::*;
use crate::harness;
use crate::lay;
use crate::sym::*;
use kicad_parse_gen::*;
use std::path::Path;

const F: &str = "/d/f";

/// what stands in the place of the file before
fn before() -> usize {
    let k = pick(3);
    if k == 1 { fs::add(F, b"0123456789 0123456789 0123456789"); }
    if k == 2 { fs::add(F, b""); }
    k
}
/// a save that reports success left the complete text, one without faults reports success
fn saved(ok: bool, want: &str) {
    if fs::happened() == 0 { goal(1); check!(ok); }
    if ok { if fs::happened() > 0 { goal(2); } check!(fs::get(F) == Some(want.as_bytes().to_vec())); } else { goal(3); }
}

// any text of up to 4 characters, new and existing files, up to 3 faults anywhere: refused open, interrupted calls, failed writes, writes cut at every length
harness!(h_c13_write_file, {
    expect(3);
    fs::start();
    before();
    let t = string(TEXT, 0, if thorough() { 6 } else { 4 });
    fs::faults(if thorough() { 4 } else { 3 }, true);
    let r = write_file(Path::new(F), &t);
    saved(r.is_ok(), &t);
});

/// any two bytes that a text may hold between others: valid and invalid encodings
fn bytes(max: usize) -> Vec<u8> {
    let n = pick(max + 1);
    (0..n).map(|_| byte_range(0, 255)).collect()
}

// any bytes up to 3 in a file, up to 3 faults anywhere, reads cut at every length: the complete text or an error, always an error for a missing file or bytes that are no text
harness!(h_c13_read_file, {
    expect(3);
    fs::start();
    let d = bytes(if thorough() { 4 } else { 3 });
    let there = boolean();
    if there { fs::add(F, &d); }
    fs::add("/d/other", b"other");
    fs::faults(if thorough() { 4 } else { 3 }, true);
    let r = read_file(F);
    let text = std::str::from_utf8(&d).is_ok();
    match r {
        Ok(s) => { goal(1); if fs::happened() > 0 { goal(2); } check!(there && text); check!(s.as_bytes() == &d[..]); }
        Err(_) => { goal(3); check!(fs::happened() > 0 || !there || !text); }
    }
    check!(fs::count() == 1 + there as usize);
});

// files of 30, 100 and 9000 characters written and read back, up to 2 faults in each direction, transfers cut at the first byte, in the middle and before the last byte
harness!(h_c13_long, {
    expect(3);
    fs::start();
    before();
    let n = [30, 100, 9000][pick(3)];
    let mut t = string_n(TEXT, 2);
    for i in 0..n { t.push((b'a' + (i % 26) as u8) as char); }
    t.push_str(&string_n(TEXT, 1));
    fs::faults(2, false);
    let r = write_file(F, &t);
    saved(r.is_ok(), &t);
    if r.is_err() { return; }
    fs::faults(2, false);
    if let Ok(s) = read_file(F) { check!(s == t); } else { check!(fs::happened() > 0); }
});

/// a footprint with any numbers and a text
fn module(t: &str) -> footprint::Module {
    let mut m = footprint::Module::new("M".into());
    m.append(footprint::Element::Descr(t.into()));
    m.append(fp::element_light(pick(4), &mut Texts::none()));
    m
}

// footprints with any numbers and a text of up to 2 characters, up to 2 faults
harness!(h_c13_write_module, {
    expect(3);
    fs::start();
    before();
    let m = module(&string(TEXT, 0, 2));
    let want = footprint::module_to_string(&m, 0);
    fs::faults(2, false);
    let r = write_module(&m, Path::new(F));
    match want { Ok(w) => saved(r.is_ok(), &w), Err(_) => check!(r.is_err()) }
});

// layouts with any numbers and a text of up to 2 characters, up to 2 faults
harness!(h_c13_write_layout, {
    expect(3);
    fs::start();
    before();
    let mut l = lay::layout_with(lay::element_fixed(pick(12)));
    l.elements.push(layout::Element::Net(layout::Net { num: lay::any_int(), name: string(TEXT, 0, 2).into() }));
    let want = layout::layout_to_string(&l, 0);
    fs::faults(2, false);
    let r = write_layout(&l, Path::new(F));
    match want { Ok(w) => saved(r.is_ok(), &w), Err(_) => check!(r.is_err()) }
});

// projects: the complete content or an error with up to 2 faults, cut at the first byte, in the middle and before the last byte
harness!(h_c13_read_project, {
    expect(2);
    fs::start();
    let t = format!("update={}", string(TEXT, 0, 3));
    fs::add(F, t.as_bytes());
    fs::faults(2, false);
    match read_project(Path::new(F)) {
        Ok(p) => { goal(1); check!(p.data == t); }
        Err(_) => { goal(2); check!(fs::happened() > 0); }
    }
});

// footprints and layouts of 5, 9, 17, 33 or 67 elements, up to 2 faults
harness!(h_c13_write_long, {
    expect(3);
    fs::start();
    before();
    let n = length();
    if boolean() {
        let mut m = footprint::Module::new("M".into());
        for i in 0..n { m.append(footprint::Element::Pad(footprint::Pad::new(word(i), footprint::PadType::Smd, footprint::PadShape::Rect))); }
        let want = footprint::module_to_string(&m, 0);
        fs::faults(2, false);
        let r = write_module(&m, Path::new(F));
        match want { Ok(w) => saved(r.is_ok(), &w), Err(_) => check!(r.is_err()) }
    } else {
        let mut l = layout::Layout::default();
        for i in 0..n { l.elements.push(layout::Element::Net(layout::Net { num: i as i64, name: word(i).into() })); }
        let want = layout::layout_to_string(&l, 0);
        fs::faults(2, false);
        let r = write_layout(&l, Path::new(F));
        match want { Ok(w) => saved(r.is_ok(), &w), Err(_) => check!(r.is_err()) }
    }
});
