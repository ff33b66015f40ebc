//! Not a property: the sample files of the repository go through the engine and through the
//! native program; every byte of every result has to agree (`run.py C40`).

use crate::check;
use crate::harness;
use crate::sym::*;
use kicad_parse_gen::checkfix::{CheckFix, Config};
use kicad_parse_gen::footprint::{Flip, Rotate};
use kicad_parse_gen::{footprint, fp_lib_table, layout, schematic, symbol_lib};
use kicad_parse_gen::{Adjust, Bound, BoundingBox};

/// every byte is compared, eight at a time
fn bytes(s: &str) {
    obs(s.len() as u64);
    for c in s.as_bytes().chunks(8) {
        let mut v = 0u64;
        for b in c { v = v << 8 | u64::from(*b); }
        obs(v);
    }
}
fn bound(b: &Bound) { obs(b.is_bounded as u64); obs_f(b.x1); obs_f(b.y1); obs_f(b.x2); obs_f(b.y2); }
fn module(s: &str) {
    let c = Config::klc();
    let mut m = footprint::parse(s).unwrap();
    bytes(&footprint::module_to_string(&m, 0).unwrap());
    bytes(&format!("{:?}", m));
    bound(&m.bounding_box());
    for f in m.check(&c) { bytes(&format!("{:?}", f)); }
    m.fix(&c);
    bytes(&footprint::module_to_string(&m, 1).unwrap());
    for f in m.check(&c) { bytes(&format!("{:?}", f)); }
    m.flip();
    m.rotate(33.25);
    m.adjust(0.1, -1234.567);
    bytes(&footprint::module_to_string(&m, 0).unwrap());
    bound(&m.bounding_box());
}

// footprint1.kicad_mod
harness!(h_c40_footprint1, { expect(1); module(include_str!("/repo/tests/data/footprint1.kicad_mod")); goal(1); });
// footprint2.kicad_mod
harness!(h_c40_footprint2, { expect(1); module(include_str!("/repo/tests/data/footprint2.kicad_mod")); goal(1); });
// cy.kicad_mod
harness!(h_c40_cy, { expect(1); module(include_str!("/repo/tests/data/cy.kicad_mod")); goal(1); });

fn board(s: &str) {
    let mut l = layout::parse(s).unwrap();
    bytes(&layout::layout_to_string(&l, 0).unwrap());
    bound(&l.bounding_box());
    l.adjust(0.1, -1234.567);
    for n in l.nets().iter().map(|n| n.name.0.to_string()).collect::<Vec<_>>() { l.change_net_name(&n, &format!("x{}", n)); }
    bytes(&layout::layout_to_string(&l, 0).unwrap());
    bound(&l.bounding_box());
}
// layout1.kicad_pcb
harness!(h_c40_layout1, { expect(1); board(include_str!("/repo/tests/data/layout1.kicad_pcb")); goal(1); });
// layout2.kicad_pcb
harness!(h_c40_layout2, { expect(1); board(include_str!("/repo/tests/data/layout2.kicad_pcb")); goal(1); });

// fp-lib-table
harness!(h_c40_table, {
    expect(1);
    let t = fp_lib_table::parse(include_str!("/repo/tests/data/fp-lib-table")).unwrap();
    bytes(&fp_lib_table::to_string(&t, 0).unwrap());
    bytes(&format!("{:?}", t));
    goal(1);
});

// schematic1.sch
harness!(h_c40_schematic, {
    expect(1);
    let s = schematic::parse_str(include_str!("/repo/tests/data/schematic1.sch")).unwrap();
    bytes(&s.to_string());
    bytes(&format!("{:?}", s));
    bound(&s.bounding_box());
    goal(1);
});

// symbol_lib1-cache.lib
harness!(h_c40_symbols, {
    expect(1);
    let l = symbol_lib::parse_str(include_str!("/repo/tests/data/symbol_lib1-cache.lib")).unwrap();
    bytes(&l.to_string());
    let c = Config::klc();
    for s in &l.symbols { for f in s.check(&c) { bytes(&format!("{:?}", f)); } }
    goal(1);
});
