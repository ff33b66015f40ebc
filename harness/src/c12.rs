//! C12: files are recognised as what they are, or refused.

use crate::check;
use crate::fp;
use crate::fs;
use crate::gen::*;
use crate::harness;
use crate::lay;
use crate::lib_;
use crate::sch;
use crate::sym::*;
use kicad_parse_gen::*;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

const KINDS: usize = 6;

/// what each format's own reader makes of a content
struct Own {
    module: Option<footprint::Module>,
    schematic: Option<schematic::Schematic>,
    layout: Option<layout::Layout>,
    lib: Option<symbol_lib::SymbolLib>,
    project: Option<project::Project>,
    table: Option<fp_lib_table::FpLibTable>,
}
fn own(t: &str) -> Own {
    Own {
        module: footprint::parse(t).ok(),
        schematic: schematic::parse(None, t).ok(),
        layout: layout::parse(t).ok(),
        lib: symbol_lib::parse_str(t).ok(),
        project: project::parse_str(t).ok(),
        table: fp_lib_table::parse(t).ok(),
    }
}
impl Own {
    fn accepts(&self, k: usize) -> bool {
        match k { 0 => self.module.is_some(), 1 => self.schematic.is_some(), 2 => self.layout.is_some(), 3 => self.lib.is_some(), 4 => self.project.is_some(), _ => self.table.is_some() }
    }
    fn count(&self) -> usize { (0..KINDS).filter(|k| self.accepts(*k)).count() }
}
fn kind(f: &KicadFile) -> usize {
    match *f {
        KicadFile::Module(_) => 0,
        KicadFile::Schematic(_) => 1,
        KicadFile::Layout(_) => 2,
        KicadFile::SymbolLib(_) => 3,
        KicadFile::Project(_) => 4,
        KicadFile::FpLibTable(_) => 5,
        KicadFile::Unknown(_) => 6,
        #[allow(unreachable_patterns)]
        _ => 7,
    }
}
fn expected(k: usize) -> Expected {
    match k { 0 => Expected::Module, 1 => Expected::Schematic, 2 => Expected::Layout, 3 => Expected::SymbolLib, 4 => Expected::Project, 5 => Expected::FpLibTable, _ => Expected::Any }
}
fn same_table(a: &fp_lib_table::FpLibTable, b: &fp_lib_table::FpLibTable) {
    check!(a.libs.len() == b.libs.len());
    for (x, y) in a.libs.iter().zip(b.libs.iter()) {
        check!(x.name == y.name);
        check!(x.type_ == y.type_);
        check!(x.uri == y.uri);
        check!(x.options == y.options);
        check!(x.descr == y.descr);
    }
}
fn same_schematic(a: &schematic::Schematic, b: &schematic::Schematic, p: &Path) {
    sch::same_schematic(a, b);
    check!(b.filename == Some(PathBuf::from(p)));
}
/// the content of a recognised file equals what the format's own reader yields
fn same(o: &Own, f: &KicadFile, p: &Path) {
    match *f {
        KicadFile::Module(ref m) => match o.module { Some(ref w) => fp::same_module(w, m), None => check!("other kind" == "module") },
        KicadFile::Schematic(ref m) => match o.schematic { Some(ref w) => same_schematic(w, m, p), None => check!("other kind" == "schematic") },
        KicadFile::Layout(ref m) => match o.layout { Some(ref w) => lay::same_layout(w, m), None => check!("other kind" == "layout") },
        KicadFile::SymbolLib(ref m) => match o.lib { Some(ref w) => lib_::same_lib(w, m), None => check!("other kind" == "symbol library") },
        KicadFile::Project(ref m) => match o.project { Some(ref w) => check!(w.data == m.data), None => check!("other kind" == "project") },
        KicadFile::FpLibTable(ref m) => match o.table { Some(ref w) => same_table(w, m), None => check!("other kind" == "library table") },
        KicadFile::Unknown(ref q) => { check!(o.count() == 0); check!(q == p); }
    }
}
/// a text of the given kind
fn content(k: usize) -> String {
    match k {
        0 => {
            let mut m = footprint::Module::new(string(WORD, 1, 2));
            m.append(fp::element_light(pick(10), &mut Texts::none()));
            footprint::module_to_string(&m, 0).unwrap()
        }
        1 => {
            let mut s = sch::with(sch::element_fixed(pick(6)));
            s.libraries.push("a".into());
            let mut h = schematic::Sheet::default();
            h.unique = "5A".into();
            h.x = sch::any();
            s.sheets.push(h);
            format!("{}", s)
        }
        2 => layout::layout_to_string(&lay::layout_with(lay::element_fixed(pick(12))), 0).unwrap(),
        3 => {
            let mut s = lib_::symbol();
            s.name = string(ALNUM, 1, 2);
            s.draw.push(symbol_lib::Draw::Rectangle(lib_::rect(0)));
            format!("{}", lib_::with(s))
        }
        4 => format!("update={}", string(TEXT_TAB, 0, 3)),
        _ => {
            let l = |n: String| fp_lib_table::Lib { name: n, type_: "KiCad".into(), uri: "${KISYSMOD}/a".into(), options: "".into(), descr: "b c".into() };
            fp_lib_table::to_string(&fp_lib_table::FpLibTable { libs: (0..pick(3)).map(|_| l(string(ALNUM, 1, 2))).collect() }, 0).unwrap()
        }
    }
}
fn file(t: &str) -> &'static Path {
    fs::start();
    fs::add("/d/other", b"update=other");
    fs::add("/d/f", t.as_bytes());
    Path::new("/d/f")
}
/// reading with each typed function
fn typed(k: usize, o: &Own, p: &Path) -> bool {
    match k {
        0 => match (read_module(p), &o.module) { (Ok(m), Some(w)) => { fp::same_module(w, &m); true } (Ok(_), None) => { check!("other kind" == "module"); true } _ => false },
        1 => match (read_schematic(p), &o.schematic) { (Ok(m), Some(w)) => { same_schematic(w, &m, p); true } (Ok(_), None) => { check!("other kind" == "schematic"); true } _ => false },
        2 => match (read_layout(p), &o.layout) { (Ok(m), Some(w)) => { lay::same_layout(w, &m); true } (Ok(_), None) => { check!("other kind" == "layout"); true } _ => false },
        3 => match (read_symbol_lib(p), &o.lib) { (Ok(m), Some(w)) => { lib_::same_lib(w, &m); true } (Ok(_), None) => { check!("other kind" == "symbol library"); true } _ => false },
        4 => match (read_project(p), &o.project) { (Ok(m), Some(w)) => { check!(w.data == m.data); true } (Ok(_), None) => { check!("other kind" == "project"); true } _ => false },
        _ => match (read_fp_lib_table(p), &o.table) { (Ok(m), Some(w)) => { same_table(w, &m); true } (Ok(_), None) => { check!("other kind" == "library table"); true } _ => false },
    }
}

// contents of every kind with any numbers and words: reported as that kind with that content
harness!(h_c12_kinds, {
    expect(6);
    let k = pick(KINDS);
    let t = content(k);
    let p = file(&t);
    let o = own(&t);
    check!(o.accepts(k));
    match read_kicad_file(p, Expected::Any) {
        Ok(f) => { goal(1 + k as u64); check!(kind(&f) == k); same(&o, &f, p); }
        Err(_) => check!("reading" == "failed"),
    }
});

// contents of every kind, read with the function of every kind: that kind's value for its own content, an error for any other
harness!(h_c12_typed, {
    expect(2);
    let k = pick(KINDS);
    let t = content(k);
    let p = file(&t);
    let o = own(&t);
    let e = pick(KINDS);
    let r = typed(e, &o, p);
    if e == k { goal(1); check!(r); } else { goal(2); check!(!r); }
});

// contents of every kind, read with every expected kind: never unknown or an error for the kind it is
harness!(h_c12_expected, {
    expect(2);
    let k = pick(KINDS);
    let t = content(k);
    let p = file(&t);
    let o = own(&t);
    let e = pick(KINDS);
    match read_kicad_file(p, expected(e)) {
        Ok(f) => { goal(1); same(&o, &f, p); check!(kind(&f) < KINDS); if e == k { check!(kind(&f) == k); } }
        Err(_) => { goal(2); check!(e != k); }
    }
});

/// whatever the content is: the kind of a reader that accepts it, unknown if none does
fn identified(t: &str) {
    let p = file(t);
    let o = own(t);
    match read_kicad_file(p, Expected::Any) {
        Ok(f) => { if o.count() > 0 { goal(1) } else { goal(2) } same(&o, &f, p); }
        Err(_) => check!("reading" == "failed"),
    }
}

// one character of the first 12 (the 30 in the thorough tier) of a content of every kind replaced by any character
harness!(h_c12_damaged, {
    expect(2);
    let k = pick(KINDS);
    let t = match k {
        0 => "(module M (layer F.Cu) (tedit 5A))".to_string(),
        1 => format!("{}{}$EndSCHEMATC\n", sch::HEAD, sch::DESCR),
        2 => "(kicad_pcb (version 4) (net 0 \"\"))".to_string(),
        3 => "EESchema-LIBRARY Version 2.3\n#encoding utf-8\n#\n#End Library\n".to_string(),
        4 => "update=Mon\nversion=1\n".to_string(),
        _ => "(fp_lib_table (lib (name a)(type K)(uri u)(options \"\")(descr d)))".to_string(),
    };
    let mut b = t.into_bytes();
    let n = if thorough() { 30 } else { 12 };
    let at = pick(if n < b.len() { n } else { b.len() });
    b[at] = byte_range(0, 127);
    identified(std::str::from_utf8(&b).unwrap());
});

// contents of every kind cut off anywhere within the last 12 characters (24 in the thorough tier), with up to 1 any character added
harness!(h_c12_cut, {
    expect(2);
    let k = pick(KINDS);
    let t = match k {
        0 => "(module M (layer F.Cu) (tedit 5A))".to_string(),
        1 => format!("{}{}$EndSCHEMATC\n", sch::HEAD, sch::DESCR),
        2 => "(kicad_pcb (version 4) (net 0 \"\"))".to_string(),
        3 => "EESchema-LIBRARY Version 2.3\n#encoding utf-8\n#\n#End Library\n".to_string(),
        4 => "update=Mon\n".to_string(),
        _ => "(fp_lib_table (lib (name a)(type K)(uri u)(options \"\")(descr d)))".to_string(),
    };
    let n = if thorough() { 24 } else { 12 };
    let cut = pick(if n < t.len() { n } else { t.len() });
    let mut b = t[..t.len() - cut].as_bytes().to_vec();
    if pick(2) == 0 { b.push(byte_range(0, 127)); }
    identified(std::str::from_utf8(&b).unwrap());
});

// any content of up to 4 bytes: read without a preference and with every function
harness!(h_c12_short, {
    expect(3);
    let n = pick(if thorough() { 6 } else { 5 });
    let b: Vec<u8> = (0..n).map(|_| byte_range(0, 255)).collect();
    fs::start();
    fs::add("/d/f", &b);
    let p = Path::new("/d/f");
    let e = pick(KINDS + 1);
    match std::str::from_utf8(&b) {
        Ok(t) => {
            let o = own(t);
            check!(o.count() == 0);
            if e < KINDS { goal(1); check!(!typed(e, &o, p)); return; }
            match read_kicad_file(p, Expected::Any) { Ok(f) => { goal(2); same(&o, &f, p); } Err(_) => check!("reading" == "failed") }
        }
        Err(_) => { goal(3); check!(read_kicad_file(p, expected(e)).is_err()); }
    }
});

// project files: everything behind the first word is kept as it is, any characters, line breaks of either kind, up to 300 characters
harness!(h_c12_project_text, {
    expect(1);
    let mut t = String::from("update=");
    match pick(3) {
        0 => {
            t.push_str(&string("\t\r\n !\"#=ABCabc[\\]\u{7f}\0\u{1}", 0, if thorough() { 20 } else { 14 }));
            match project::parse_str(&t) { Ok(q) => check!(q.data == t), Err(_) => check!("reading" == "failed") }
            return;
        }
        1 => { for i in 0..4 { t.push_str(&string_n(TEXT_TAB, 3 + i)); t.push_str(["\n", "\r\n", "\n\n", "\r"][(i + pick(2)) % 4]); } }
        _ => t.push_str(&format!("{}\r\n{}\n", long_text([20, 70, 300][pick(3)]), long_text(20))),
    }
    let p = file(&t);
    match project::parse_str(&t) { Ok(q) => check!(q.data == t), Err(_) => check!("reading" == "failed") }
    match read_project(p) { Ok(q) => { goal(1); check!(q.data == t); } Err(_) => check!("reading" == "failed") }
    match read_kicad_file(p, Expected::Any) { Ok(KicadFile::Project(q)) => check!(q.data == t), _ => check!("reading" == "failed") }
});

// project files: any text of up to 8 characters around the first word
harness!(h_c12_project, {
    expect(2);
    let a = string("updatex= \n", 0, 2);
    let b = string("ue=x", 0, 2);
    identified(&format!("{}update={}", a, b));
});

// file names of any bytes up to 2, missing files: recognised or reported as unknown by any name, an error if there is no file
harness!(h_c12_names, {
    expect(3);
    fs::start();
    let n = 1 + pick(2);
    let mut name = b"/d/".to_vec();
    for _ in 0..n { name.push(byte_range(1, 255)); }
    let there = pick(3);
    match there { 1 => fs::add_bytes(&name, b"update=1"), 2 => fs::add_bytes(&name, b"none"), _ => () }
    let p = Path::new(OsStr::from_bytes(&name));
    match read_kicad_file(p, Expected::Any) {
        Ok(KicadFile::Project(q)) => { goal(1); check!(there == 1); check!(q.data == "update=1"); }
        Ok(KicadFile::Unknown(q)) => { goal(2); check!(there == 2); check!(q == p); let s = format!("{}", KicadFile::Unknown(q)); check!(s.len() > 0); }
        Ok(_) => check!("other" == "kind"),
        Err(_) => { goal(3); check!(there == 0); }
    }
});

// symbol libraries and schematics read from a file of any name of up to 2 bytes
harness!(h_c12_parse_file, {
    expect(2);
    fs::start();
    let n = 1 + pick(2);
    let mut name = b"/d/".to_vec();
    for _ in 0..n { name.push(byte_range(1, 255)); }
    let there = boolean();
    let p = PathBuf::from(OsStr::from_bytes(&name));
    if pick(2) == 0 {
        let t = "EESchema-LIBRARY Version 2.3\n#encoding utf-8\n#\n# R\n#\nDEF R R 0 40 Y Y 1 F N\nF0 \"R\" 0 100 50 H V C CNN\nDRAW\nENDDRAW\nENDDEF\n#\n#End Library\n";
        if there { fs::add_bytes(&name, t.as_bytes()); }
        match (symbol_lib::parse_file(&p), symbol_lib::parse_str(t)) {
            (Ok(l), Ok(w)) => { goal(1); check!(there); lib_::same_lib(&w, &l); }
            (r, _) => { check!(r.is_err() && !there); }
        }
    } else {
        let t = format!("{}{}$EndSCHEMATC\n", sch::HEAD, sch::DESCR);
        if there { fs::add_bytes(&name, t.as_bytes()); }
        match (schematic::parse_file(&p), schematic::parse_str(&t)) {
            (Ok(l), Ok(w)) => { goal(2); check!(there); same_schematic(&w, &l, &p); }
            (r, _) => { check!(r.is_err() && !there); }
        }
    }
});

/// a long text of the given kind
fn long_content(k: usize, n: usize) -> String {
    let mut t = Texts::none();
    match k {
        0 => { let mut m = footprint::Module::new("M".into()); for i in 0..n { m.append(fp::element_light(i % 10, &mut t)); } footprint::module_to_string(&m, 0).unwrap() }
        1 => { let mut s = sch::with(sch::element_fixed(0)); for i in 0..n { s.libraries.push(word(i)); s.elements.push(sch::element_fixed(i % 6)); } format!("{}", s) }
        2 => { let mut l = lay::layout_with(lay::element_fixed(0)); for i in 0..n { l.elements.push(lay::element_fixed(i % 12)); } layout::layout_to_string(&l, 0).unwrap() }
        3 => { let mut l = lib_::with(lib_::symbol()); for i in 0..n { let mut s = lib_::symbol(); s.name = word(i); s.draw.push(symbol_lib::Draw::Rectangle(lib_::rect(0))); l.symbols.push(s); } format!("{}", l) }
        4 => { let mut s = String::from("update=Mon\n"); for i in 0..n { s.push_str(&word(i)); s.push_str("=(module EESchema\n"); } s }
        _ => fp_lib_table::to_string(&fp_lib_table::FpLibTable { libs: (0..n).map(|i| fp_lib_table::Lib { name: word(i), type_: "KiCad".into(), uri: "${KISYSMOD}/a".into(), options: "".into(), descr: "b c".into() }).collect() }, 0).unwrap(),
    }
}

// contents of every kind with 5, 9, 17, 33 or 67 parts, read without a preference, with every expected kind and with every function
harness!(h_c12_long, {
    expect(4);
    let k = pick(KINDS);
    let t = long_content(k, length());
    let p = file(&t);
    let o = own(&t);
    check!(o.accepts(k));
    let e = pick(KINDS + 1);
    if e < KINDS && boolean() {
        let r = typed(e, &o, p);
        if e == k { goal(1); check!(r); } else { goal(2); check!(!r); }
        return;
    }
    match read_kicad_file(p, expected(e)) {
        Ok(f) => { goal(3); same(&o, &f, p); check!(kind(&f) < KINDS); if e == k || e == KINDS { check!(kind(&f) == k); } }
        Err(_) => { goal(4); check!(e != k && e != KINDS); }
    }
});
