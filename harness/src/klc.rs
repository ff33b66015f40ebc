//! Counting of convention findings.

use kicad_parse_gen::checkfix::CheckFixData;

/// number of findings that are more than informational, by section and rule, and number of informational ones
pub struct Found { pub rules: Vec<(i64, i64, usize)>, pub infos: usize, pub all: usize }

impl Found {
    pub fn of(v: &[CheckFixData]) -> Found { let mut f = Found { rules: vec![], infos: 0, all: 0 }; f.add(v); f }
    fn add(&mut self, v: &[CheckFixData]) {
        for d in v {
            match *d {
                CheckFixData::Item(ref i) => {
                    self.all += 1;
                    if i.info { self.infos += 1 } else { self.rule(i.section, i.rule) }
                }
                CheckFixData::More(ref m) => self.add(m),
            }
        }
    }
    fn rule(&mut self, s: i64, r: i64) {
        for x in &mut self.rules { if x.0 == s && x.1 == r { x.2 += 1; return; } }
        self.rules.push((s, r, 1));
    }
    pub fn count(&self, s: i64, r: i64) -> usize { for x in &self.rules { if x.0 == s && x.1 == r { return x.2; } } 0 }
}
