//! Not a property: constructs of the language and of its library that the repository may come to
//! use go through the engine and the native program and have to agree (`run.py C39`).

use crate::check;
use crate::gen::*;
use crate::harness;
use crate::sym::*;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::*;
use std::fmt::Write;
use std::rc::Rc;

fn bytes(s: &str) { obs(s.len() as u64); for b in s.as_bytes() { obs(u64::from(*b)); } }
/// any three characters
fn abc() -> String { string_n("abAB 0-", 3) }

// collections
harness!(h_c39_collections, {
    expect(1);
    let k = abc();
    let mut m = HashMap::new();
    m.insert("ab0".to_string(), 1u64);
    m.insert(k.clone(), 2);
    *m.entry("x".into()).or_insert(0) += 3;
    obs(m.len() as u64);
    obs(*m.get("ab0").unwrap_or(&9));
    let s: HashSet<String> = vec![k.clone(), "aB-".into(), k.clone()].into_iter().collect();
    obs(s.len() as u64);
    let mut b = BTreeMap::new();
    b.insert(k.clone(), 1u64);
    b.insert("a 0".into(), 2);
    b.insert("B".into(), 3);
    for (x, y) in &b { bytes(x); obs(*y); }
    let t: BTreeSet<&str> = b.keys().map(|x| x.as_str()).collect();
    obs(t.contains("B") as u64);
    let mut d: VecDeque<u64> = VecDeque::new();
    for i in 0..9 { if i % 2 == 0 { d.push_front(i) } else { d.push_back(i) } }
    d.rotate_left(3);
    for x in d.iter().rev() { obs(*x); }
    let mut h = BinaryHeap::new();
    for x in &[3u64, 9, 1, 7] { h.push(*x); }
    while let Some(x) = h.pop() { obs(x); }
    let mut l = LinkedList::new();
    l.push_back(k);
    bytes(l.front().unwrap());
    goal(1);
});

// vectors and slices
harness!(h_c39_slices, {
    expect(1);
    let mut v: Vec<i64> = (0..9).map(|i| (i * 7 + 3) % 11).collect();
    let x = int(0, 12);
    v.push(x);
    v.sort();
    for i in &v { obs(*i as u64); }
    v.dedup();
    v.retain(|i| i % 3 != 0);
    v.insert(1, 40);
    v.swap(0, 2);
    v.reverse();
    v.truncate(7);
    obs(v.iter().position(|i| *i == 40).map_or(99, |i| i as u64));
    obs(v.iter().max().map_or(0, |i| *i as u64));
    obs(v.iter().min_by_key(|i| (**i - 5).abs()).map_or(0, |i| *i as u64));
    obs(v.iter().sum::<i64>() as u64);
    obs(v.iter().fold(1i64, |a, b| a.wrapping_mul(*b + 1)) as u64);
    for w in v.windows(2) { obs((w[0] < w[1]) as u64); }
    for c in v.chunks(3) { obs(c.len() as u64); }
    let (a, b): (Vec<i64>, Vec<i64>) = v.iter().partition(|i| **i > 4);
    obs(a.len() as u64 * 100 + b.len() as u64);
    v.sort_by(|a, b| b.cmp(a));
    v.sort_unstable_by_key(|a| a % 4);
    for i in v.drain(1..3) { obs(i as u64); }
    v.extend_from_slice(&[1, 2, 3]);
    let c = v.split_off(2);
    obs(c.concat_len());
    obs(v.binary_search(&2).is_ok() as u64);
    obs(c.first().map_or(0, |x| *x as u64) + c.last().map_or(0, |x| *x as u64));
    obs(c.iter().rev().skip(1).step_by(2).take(2).count() as u64);
    obs(c.iter().zip(v.iter()).filter(|(a, b)| a == b).count() as u64);
    obs(c.iter().any(|x| *x == 2) as u64 + 2 * c.iter().all(|x| *x > 0) as u64);
    obs(vec![vec![1u64], vec![2, 3]].concat().into_iter().flat_map(|x| vec![x, x]).sum());
    goal(1);
});
trait ConcatLen { fn concat_len(&self) -> u64; }
impl ConcatLen for Vec<i64> { fn concat_len(&self) -> u64 { self.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",").len() as u64 } }

// texts
harness!(h_c39_texts, {
    expect(1);
    let s = abc();
    bytes(s.trim());
    bytes(&s.to_uppercase());
    bytes(&s.to_ascii_lowercase());
    obs(s.eq_ignore_ascii_case("aB ") as u64);
    obs(s.find('a').map_or(9, |x| x as u64));
    obs(s.rfind("b").map_or(9, |x| x as u64));
    bytes(&s.replace("a", "xy"));
    bytes(&s.replacen(' ', "", 1));
    for p in s.split(' ') { bytes(p); }
    for p in s.splitn(2, 'b') { bytes(p); }
    if let Some(r) = s.strip_prefix("a") { bytes(r); }
    if let Some((a, b)) = s.split_once('-') { bytes(a); bytes(b); }
    obs(s.chars().filter(|c| c.is_uppercase()).count() as u64);
    bytes(&s.chars().rev().collect::<String>());
    bytes(s.trim_start_matches('a'));
    bytes(s.trim_end_matches(|c: char| c.is_whitespace()));
    obs(s.cmp(&"aab".to_string()) as i8 as u64);
    obs(s.is_empty() as u64 + s.contains("aa") as u64 + s.ends_with('0') as u64);
    let c: Cow<str> = if s.starts_with('B') { Cow::Borrowed("b") } else { Cow::Owned(s.repeat(2)) };
    bytes(&c);
    let mut t = s.clone();
    t.insert_str(1, "++");
    t.push('é');
    t.remove(0);
    t.pop();
    bytes(&t);
    obs(s.bytes().map(u64::from).sum());
    obs(s.char_indices().map(|(i, c)| i as u64 * c as u64).sum());
    bytes(&String::from_utf8_lossy(s.as_bytes()));
    for l in "a\nb\r\nc".lines() { bytes(l); }
    bytes(&s.split_whitespace().collect::<Vec<_>>().join("_"));
    bytes(s.get(1..).unwrap_or(""));
    goal(1);
});

// numbers as text
harness!(h_c39_number_texts, {
    expect(1);
    let s = string_n("0159-", 2);
    obs(s.parse::<i64>().map_or(7777, |x| x as u64));
    obs(s.parse::<u8>().map_or(7777, u64::from));
    obs(s.parse::<i32>().map_or(7777, |x| x as u64));
    obs(i64::from_str_radix(&s, 16).map_or(7777, |x| x as u64));
    let mut t = String::new();
    write!(t, "{:5}|{:<5}|{:^7}|{:>4}|{:05}|{:+}|{:x}|{:X}|{:#x}|{:#b}|{:o}", 12, 34, 56, 78, 90, 11, 255, 254, 253, 5, 9).unwrap();
    write!(t, "|{:.3}|{:8.2}|{:e}|{:?}|{:?}|{}", 1.23456, -2.5, 1500.0, 0.1, 1e21, 1e-7).unwrap();
    write!(t, "|{:?}|{:?}|{:#?}|{:*^9}|{:?}", "a\"b\n", 'c', Some((1, "x")), "mid", vec![1, 2]).unwrap();
    bytes(&t);
    bytes(&format!("{:08X}", 0x5a2b_i64));
    bytes(&format!("{}", 1.5f32));
    for x in &["1.5", "-0.25e3", ".5", "abc", "inf", "1e400", "123456789012345678901234567890"] { obs(x.parse::<f64>().map_or(7, |x| x.to_bits())); obs(x.parse::<f32>().map_or(7, |x| u64::from(x.to_bits()))); }
    goal(1);
});

// integers
harness!(h_c39_integers, {
    expect(1);
    let x = int(-100_000, 100_000);
    let u = x as u64;
    obs(x.wrapping_mul(0x1234_5678_9abc) as u64);
    obs(x.checked_add(i64::MAX - 50_000).is_some() as u64);
    obs(x.saturating_sub(i64::MAX) as u64);
    obs(x.overflowing_mul(1 << 50).1 as u64);
    obs(u.rotate_left(7) ^ u.swap_bytes());
    obs(u64::from(u.leading_zeros() + u.trailing_zeros() + u.count_ones()));
    obs(x.rem_euclid(7) as u64);
    obs(x.div_euclid(7) as u64);
    obs((x / 3 + x % 5) as u64);
    obs(x.abs() as u64);
    obs(x.signum() as u64);
    obs(x.pow(2) as u64);
    obs((x as i8 as i64) as u64);
    obs((x as u16) as u64);
    obs((x >> 3) as u64 ^ (u >> 3));
    obs(x.min(5).max(-5) as u64);
    obs(x.clamp(-10, 10) as u64);
    let w = i128::from(x) * 1_000_000_007_000_000_007;
    obs((w >> 32) as u64);
    obs(u.reverse_bits());
    goal(1);
});

// numbers with a fraction, on the grid
harness!(h_c39_floats, {
    expect(1);
    let x = grid(-4096, 4096, 4);
    obs_f(x.abs());
    obs_f(x.min(1.5));
    obs_f(x.max(-1.5));
    obs_f(x.floor());
    obs_f(x.ceil());
    obs_f(x.trunc());
    obs_f(x * 0.5);
    obs_f(x + 1234.567);
    obs_f(-x);
    obs_f(x.clamp(-2.0, 2.0));
    obs(x as i64 as u64);
    obs(x as i32 as u64);
    obs((x > 3.0) as u64);
    obs(x.partial_cmp(&2.0).map_or(9, |x| x as i8 as u64));
    obs(x.is_nan() as u64 + x.is_finite() as u64);
    obs(x.is_sign_negative() as u64);
    goal(1);
});

// numbers with a fraction, any
harness!(h_c39_any_floats, {
    expect(1);
    let x = float();
    obs_f(x.abs());
    obs_f(x.signum());
    obs_f(x.copysign(-1.0));
    obs_f(x.round());
    obs_f(x.fract());
    obs((x as i64) as u64);
    obs(u64::from((x as f32).to_bits()));
    obs(x.total_cmp(&1.0) as i8 as u64);
    obs((x.to_bits() == 0.1f64.to_bits()) as u64);
    obs((x == 0.1) as u64);
    goal(1);
});

// functions of fixed numbers
harness!(h_c39_math, {
    expect(1);
    for x in &[0.3, 2.5, -1.25, 90.0, 33.25] {
        let x: f64 = *x;
        obs_f(x.sqrt());
        obs_f(x.hypot(3.0));
        obs_f(x.powi(3));
        obs_f(x.round());
        obs_f(x.rem_euclid(0.7));
        obs_f(x % 0.7);
        obs_f(x.mul_add(2.0, 1.0));
        obs_f(x.to_radians());
        obs_f(x.recip());
        obs_f(f64::from(x as f32 * 0.1f32));
        obs_f(x.sin());
        obs_f(x.cos());
        obs_f(x.atan2(2.0));
        obs_f(x.powf(1.5));
        obs_f(x.ln());
        obs_f(x.exp());
    }
    obs_f(f64::EPSILON);
    obs_f(std::f64::consts::PI);
    goal(1);
});

struct Dropped<'a>(&'a Cell<u64>, u64);
impl<'a> Drop for Dropped<'a> { fn drop(&mut self) { self.0.set(self.0.get() * 10 + self.1); } }
trait Shape { fn area(&self) -> u64; fn name(&self) -> String { "shape".into() } }
struct Square(u64);
struct Rect(u64, u64);
impl Shape for Square { fn area(&self) -> u64 { self.0 * self.0 } }
impl Shape for Rect { fn area(&self) -> u64 { self.0 * self.1 } fn name(&self) -> String { "rect".into() } }
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
struct Rec { a: u64, b: Option<String>, c: Vec<u8>, d: Kind }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Kind { A, B(u8), C { x: i32 } }
impl Default for Kind { fn default() -> Kind { Kind::A } }
thread_local!(static COUNT: Cell<u64> = Cell::new(3));
static ATOM: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(5);
static LOCK: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(Vec::new());
static ONCE: std::sync::OnceLock<String> = std::sync::OnceLock::new();

// traits, closures, shared values, statics
harness!(h_c39_language, {
    expect(1);
    COUNT.with(|x| x.set(3));
    ATOM.store(5, std::sync::atomic::Ordering::SeqCst);
    LOCK.lock().unwrap().clear();
    let n = pick(3) as u64;
    let c = Cell::new(0);
    { let _a = Dropped(&c, 1); let _b = Dropped(&c, 2); let v = vec![Dropped(&c, 3), Dropped(&c, 4)]; std::mem::drop(v); }
    obs(c.get());
    let s: Vec<Box<dyn Shape>> = vec![Box::new(Square(n)), Box::new(Rect(n, 4))];
    for x in &s { obs(x.area()); bytes(&x.name()); }
    let r = Rc::new(RefCell::new(vec![n]));
    let r2 = Rc::clone(&r);
    r2.borrow_mut().push(7);
    obs(r.borrow().len() as u64 + Rc::strong_count(&r) as u64);
    let add = |k: u64| move |x: u64| x + k;
    let f: Vec<Box<dyn Fn(u64) -> u64>> = vec![Box::new(add(n)), Box::new(|x| x * 2)];
    obs(f.iter().fold(1, |a, g| g(a)));
    let a = Rec { a: n, b: Some(abc()), c: vec![1, 2], d: [Kind::A, Kind::B(2), Kind::C { x: -1 }][n as usize] };
    let mut b = a.clone();
    obs((a == b) as u64);
    b.d = Kind::B(1);
    obs(a.cmp(&b) as i8 as u64);
    obs((Rec::default() < a) as u64);
    bytes(&format!("{:?}", a.d));
    COUNT.with(|x| { x.set(x.get() + 1); obs(x.get()); });
    obs(ATOM.fetch_add(2, std::sync::atomic::Ordering::SeqCst) as u64);
    LOCK.lock().unwrap().push(n);
    obs(LOCK.lock().unwrap().len() as u64);
    bytes(ONCE.get_or_init(|| "once".into()));
    let o: Option<u64> = if n > 1 { Some(n) } else { None };
    obs(o.map(|x| x + 1).or(Some(8)).and_then(|x| if x > 3 { Some(x) } else { None }).unwrap_or_default());
    let e: Result<u64, String> = "12x".parse::<u64>().map_err(|e| e.to_string());
    if let Err(ref e) = e { bytes(e); }
    let v: Result<Vec<u64>, _> = "1 2 3".split(' ').map(|x| x.parse::<u64>()).collect();
    obs(v.unwrap().iter().product());
    let any: Box<dyn std::any::Any> = Box::new(n);
    obs(any.downcast_ref::<u64>().map_or(9, |x| *x));
    obs(std::mem::replace(&mut b.a, 6) + std::mem::take(&mut b.a));
    let w: std::rc::Weak<RefCell<Vec<u64>>> = Rc::downgrade(&r);
    obs(w.upgrade().is_some() as u64);
    obs((1..=n + 2).rev().chain(5..7).scan(0, |s, x| { *s += x; Some(*s) }).last().unwrap_or(0));
    let mut it = [1u64, 2, 3].iter().peekable();
    while let Some(x) = it.next() { if it.peek().is_none() { obs(*x); } }
    'outer: for i in 0..4u64 { for j in 0..4 { if i * j == n + 2 { obs(i * 10 + j); break 'outer; } } }
    goal(1);
});

// paths
harness!(h_c39_paths, {
    expect(1);
    let s = string_n("a/.", 3);
    let p = std::path::Path::new(&s);
    obs(p.extension().is_some() as u64);
    bytes(p.file_name().map_or("none", |x| x.to_str().unwrap()));
    bytes(p.parent().map_or("none", |x| x.to_str().unwrap()));
    bytes(p.join("b.c").with_extension("x").to_str().unwrap());
    obs(p.is_absolute() as u64);
    obs(p.components().count() as u64);
    bytes(&p.display().to_string());
    goal(1);
});

// readers and writers of texts in memory
harness!(h_c39_io, {
    expect(1);
    use std::io::{BufRead, BufReader, BufWriter, Cursor, Read, Seek, SeekFrom, Write};
    let s = string_n("a\n\r ", 3);
    for l in Cursor::new(s.clone()).lines() { bytes(&l.unwrap()); }
    let mut r = BufReader::with_capacity(2, s.as_bytes());
    let mut t = String::new();
    obs(r.read_line(&mut t).unwrap() as u64);
    r.read_to_string(&mut t).unwrap();
    bytes(&t);
    let mut v = vec![];
    { let mut w = BufWriter::new(&mut v); write!(w, "{}|{}", s, 5).unwrap(); writeln!(w, "x").unwrap(); w.flush().unwrap(); }
    bytes(&String::from_utf8(v).unwrap());
    let mut c = Cursor::new(vec![0u8; 4]);
    c.seek(SeekFrom::Start(1)).unwrap();
    c.write_all(b"zz").unwrap();
    for b in c.into_inner() { obs(u64::from(b)); }
    for b in s.as_bytes().bytes() { obs(u64::from(b.unwrap())); }
    for p in s.as_bytes().split(|b| *b == b'\n') { obs(p.len() as u64); }
    goal(1);
});

#[derive(Debug)]
enum Fail { Num(std::num::ParseIntError), Text(String) }
impl std::fmt::Display for Fail { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { match *self { Fail::Num(ref e) => write!(f, "number: {}", e), Fail::Text(ref t) => f.pad(t) } } }
impl std::error::Error for Fail {}
impl From<std::num::ParseIntError> for Fail { fn from(e: std::num::ParseIntError) -> Fail { Fail::Num(e) } }
fn two(s: &str) -> Result<i64, Fail> {
    let v: Vec<&str> = s.split(' ').collect();
    match v.as_slice() { [] => Err(Fail::Text("none".into())), [a] => Ok(a.parse::<i64>()?), [a, .., b] => Ok(a.parse::<i64>()? - b.parse::<i64>()?) }
}
fn boxed(s: &str) -> Result<i64, Box<dyn std::error::Error>> { if s.is_empty() { return Err("empty".into()); } Ok(two(s)? + 1) }

// errors, characters, less common iterators
harness!(h_c39_more, {
    expect(1);
    let s = string_n("1 x-", 3);
    match two(&s) { Ok(x) => obs(x as u64), Err(e) => { bytes(&e.to_string()); bytes(&format!("{:>8}", e)); } }
    match boxed(&s) { Ok(x) => obs(x as u64), Err(e) => bytes(&e.to_string()) }
    for c in s.chars() {
        obs(c.is_alphanumeric() as u64 + 2 * c.is_ascii_digit() as u64 + 4 * c.is_whitespace() as u64 + 8 * c.is_alphabetic() as u64);
        obs(c.to_digit(10).map_or(99, u64::from));
        obs(u64::from(c.to_ascii_uppercase() as u32) + c.len_utf8() as u64);
    }
    obs(match &s[..] { "1 1" => 1, "x-x" => 2, "---" => 3, x if x.starts_with("x") => 4, _ => 5 });
    let mut v: Vec<String> = vec![s.clone(), "x 1".into(), "-".into(), s.clone()];
    v.sort();
    v.dedup();
    for x in &v { bytes(x); }
    v.sort_by_key(|x| x.len());
    bytes(&v.concat());
    v.sort_by_key(|a| a.bytes().map(u64::from).sum::<u64>());
    bytes(v.iter().max().unwrap());
    let a: std::sync::Arc<str> = std::sync::Arc::from(s.as_str());
    bytes(&a);
    let b: Box<str> = s.clone().into_boxed_str();
    bytes(&b);
    obs([1u64, 2, 3].map(|x| x * 2).iter().sum());
    obs(std::iter::successors(Some(1u64), |x| if *x < 100 { Some(x * 3) } else { None }).count() as u64);
    let mut k = 0;
    obs(std::iter::from_fn(|| { k += 1; if k < 5 { Some(k) } else { None } }).last().unwrap());
    bytes(&std::iter::repeat("ab").take(3).collect::<String>());
    let mut f = vec![2.5, -1.0, 7.25];
    f.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for x in &f { obs_f(*x); }
    obs_f(f.iter().cloned().fold(f64::INFINITY, f64::min));
    obs_f(f.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
    obs(s.char_indices().filter(|(_, c)| *c == '1').map(|(i, _)| i as u64).sum());
    obs(s.matches('-').count() as u64 + s.match_indices("x").count() as u64);
    let (l, r) = s.split_at(1);
    obs((l < r) as u64 + (l == "1") as u64);
    obs(s.rsplit(' ').next().map_or(0, |x| x.len() as u64) + s.split_terminator('-').count() as u64);
    bytes(&s.chars().map(|c| if c == ' ' { '_' } else { c }).collect::<String>());
    bytes(&s.chars().flat_map(|c| c.to_uppercase()).collect::<String>());
    obs(s.chars().nth(1).map_or(0, |c| c as u64));
    obs(s.bytes().rev().take_while(|b| *b != b'1').count() as u64 + s.bytes().skip_while(|b| *b == b'x').count() as u64);
    obs(v.iter().map(|x| x.len()).min().unwrap_or(0) as u64);
    let w: Vec<(usize, &String)> = v.iter().enumerate().filter(|(i, _)| i % 2 == 0).collect();
    obs(w.len() as u64);
    let (x, y): (Vec<usize>, Vec<&String>) = w.into_iter().unzip();
    obs((x.len() + y.len()) as u64);
    obs(v.chunks_exact(2).map(|c| c[0].len() as u64).sum::<u64>() + v.rchunks(2).count() as u64);
    if let Some(i) = v.iter().rposition(|x| x.len() == 3) { let e = v.swap_remove(i); bytes(&e); }
    v.splice(0..0, vec!["q".to_string()]);
    v.resize(5, "z".into());
    v.rotate_right(2);
    bytes(&v.join("/"));
    v.iter_mut().for_each(|x| x.make_ascii_uppercase());
    obs(v.contains(&"Z".to_string()) as u64);
    obs(v.iter().try_fold(0u64, |a, x| if x.len() < 9 { Some(a + 1) } else { None }).unwrap_or(77));
    bytes(&format!("{:>1$}|{2:?}|{name}", "a", 4, (1, 'b'), name = s));
    let o = Some(3u64);
    obs(o.filter(|x| *x > 2).xor(None).map_or_else(|| 0, |x| x) + o.zip(Some(1)).map_or(0, |(a, b)| a + b));
    obs(s.len().checked_sub(4).map_or(1, |x| x as u64) + usize::pow(2, 5) as u64);
    goal(1);
});

// texts of one to three characters read as numbers
harness!(h_c39_parse, {
    expect(1);
    let s = string("05.x", 1, 3);
    obs(s.parse::<f64>().map_or(7, |x| x.to_bits()));
    obs(s.parse::<u32>().map_or(7777, u64::from));
    obs(s.parse::<i16>().map_or(7777, |x| x as u64));
    obs(s.parse::<usize>().map_or(7777, |x| x as u64));
    let n = int(-300, 300);
    let t = n.to_string();
    obs(t.parse::<i64>().map_or(7777, |x| x as u64));
    obs(t.parse::<u8>().map_or(7777, u64::from));
    obs(t.parse::<i32>().map_or(7777, |x| x as u64));
    obs(t.parse::<i8>().map_or(7777, |x| x as u64));
    goal(1);
});
