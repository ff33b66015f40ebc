//! Parser for the textual LLVM IR emitted by rustc.
//!
//! The file is scanned once for top level entities; function bodies and global
//! initialisers are parsed on first use.

use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Half,
    Ptr,
    Array(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vector(u64, TyId),
    Label,
    Metadata,
    Token,
    Opaque,
}

/// A value known at parse time.
#[derive(Clone, Debug)]
pub enum Val {
    /// at most 64 bits, zero extended
    C(u64),
    /// constant wider than 64 bits
    W(Rc<u128>),
    /// symbolic
    E(u32),
    /// aggregate or vector
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FBinOp { Add, Sub, Mul, Div, Rem }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum IPred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CastOp { Trunc, ZExt, SExt, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt, PtrToInt, IntToPtr, BitCast }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum RmwOp { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub struct CallInst {
    pub dst: Option<u32>,
    pub ret: TyId,
    pub callee: Callee,
    pub args: Vec<(TyId, Op)>,
    /// normal destination for an invoke
    pub normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Indirect(Op), Asm }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: TyId, dst: u32, a: Op, b: Op },
    FBin { op: FBinOp, ty: TyId, dst: u32, a: Op, b: Op },
    FNeg { ty: TyId, dst: u32, a: Op },
    ICmp { p: IPred, ty: TyId, dst: u32, a: Op, b: Op },
    FCmp { p: FPred, ty: TyId, dst: u32, a: Op, b: Op },
    Cast { op: CastOp, from: TyId, to: TyId, dst: u32, a: Op },
    Select { cty: TyId, ty: TyId, dst: u32, c: Op, a: Op, b: Op },
    Alloca { dst: u32, off: u64 },
    DynAlloca { dst: u32, elem: u64, n: Op },
    Load { ty: TyId, dst: u32, p: Op },
    Store { ty: TyId, v: Op, p: Op },
    Gep { dst: u32, base: Op, off: u64, idx: Vec<(Op, u32, u64)> },
    ExtractValue { dst: u32, a: Op, idx: Vec<u32> },
    InsertValue { ty: TyId, dst: u32, a: Op, v: Op, idx: Vec<u32> },
    ExtractElement { dst: u32, a: Op, i: Op },
    InsertElement { dst: u32, a: Op, v: Op, i: Op },
    Shuffle { dst: u32, n: usize, a: Op, b: Op, mask: Vec<u32> },
    Rmw { op: RmwOp, ty: TyId, dst: u32, p: Op, v: Op },
    CmpXchg { ty: TyId, dst: u32, p: Op, c: Op, n: Op },
    Freeze { dst: u32, a: Op },
    Fence,
    Call(Box<CallInst>),
    Br(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch { ty: TyId, v: Op, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Op>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub ty: TyId,
    pub dst: u32,
    pub inc: Vec<(u32, Op)>,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub frame_size: u64,
}

#[derive(Clone, Debug)]
pub enum Init {
    Val(TyId, Box<Cst>),
    External,
}

/// constant initialiser tree
#[derive(Clone, Debug)]
pub enum Cst {
    V(Val),
    Zero,
    Str(Vec<u8>),
    Agg(Vec<(TyId, Cst)>),
}

pub struct FuncDecl {
    pub name: String,
    pub has_body: bool,
    /// byte range of the definition in the text, from "define" to the closing brace
    pub range: (usize, usize),
    pub parsed: Option<Rc<Func>>,
}

pub struct GlobalDecl {
    pub name: String,
    pub line: (usize, usize),
    pub external: bool,
    pub constant: bool,
    pub alias: bool,
}

pub struct Module {
    pub text: Rc<Vec<u8>>,
    pub tys: Vec<Ty>,
    pub ty_map: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>,
    named_src: HashMap<String, (usize, usize)>,
    pub funcs: Vec<FuncDecl>,
    pub func_by_name: HashMap<String, u32>,
    pub globals: Vec<GlobalDecl>,
    pub global_by_name: HashMap<String, u32>,
}

/// Address layout: high 32 bits are an object number, low 32 bits an offset.
pub const GLOBAL_BASE: u64 = 0x0010_0000;
pub const FUNC_BASE: u64 = 0x4000_0000;

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Local(&'a str),
    Global(&'a str),
    Word(&'a str),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Num(&'a str),
    Meta,
    Attr,
    P(u8),
    Dots,
    Nl,
    Eof,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn lex_quoted(t: &[u8], i: &mut usize) -> Vec<u8> {
    // *i points just after the opening quote
    let mut v = vec![];
    while t[*i] != b'"' {
        if t[*i] == b'\\' {
            if t[*i + 1] == b'\\' {
                v.push(b'\\');
                *i += 2;
            } else {
                let h = std::str::from_utf8(&t[*i + 1..*i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                *i += 3;
            }
        } else {
            v.push(t[*i]);
            *i += 1;
        }
    }
    *i += 1;
    v
}

fn quoted_end(t: &[u8], mut i: usize) -> usize {
    while t[i] != b'"' {
        i += 1;
    }
    i
}

fn lex<'a>(t: &'a [u8]) -> Vec<Tok<'a>> {
    let mut v = vec![];
    let mut i = 0;
    let n = t.len();
    let mut line_start = true;
    let s = |a: usize, b: usize| unsafe { std::str::from_utf8_unchecked(&t[a..b]) };
    while i < n {
        let c = t[i];
        match c {
            b' ' | b'\t' | b'\r' => { i += 1; continue; }
            b'\n' => {
                if v.last() != Some(&Tok::Nl) { v.push(Tok::Nl); }
                i += 1;
                line_start = true;
                continue;
            }
            b';' => {
                while i < n && t[i] != b'\n' { i += 1; }
                continue;
            }
            b'#' => {
                if line_start && t[i..].starts_with(b"#dbg") {
                    // debug record, one line
                    while i < n && t[i] != b'\n' { i += 1; }
                    continue;
                }
                i += 1;
                while i < n && is_word(t[i]) { i += 1; }
                v.push(Tok::Attr);
            }
            b'%' | b'@' => {
                let (a, b);
                if t[i + 1] == b'"' {
                    a = i + 2;
                    b = quoted_end(t, a);
                    i = b + 1;
                } else {
                    a = i + 1;
                    let mut j = a;
                    while j < n && is_word(t[j]) { j += 1; }
                    b = j;
                    i = j;
                }
                v.push(if c == b'%' { Tok::Local(s(a, b)) } else { Tok::Global(s(a, b)) });
            }
            b'"' => {
                // string or quoted label
                let a = i + 1;
                let e = quoted_end(t, a);
                if line_start && e + 1 < n && t[e + 1] == b':' {
                    v.push(Tok::Word(s(a, e)));
                    i = e + 1;
                } else {
                    i += 1;
                    let q = lex_quoted(t, &mut i);
                    v.push(Tok::Str(q));
                }
            }
            b'!' => {
                i += 1;
                if i < n && t[i] == b'"' {
                    i += 1;
                    lex_quoted(t, &mut i);
                } else {
                    while i < n && is_word(t[i]) { i += 1; }
                }
                v.push(Tok::Meta);
            }
            b'.' if t[i..].starts_with(b"...") => { v.push(Tok::Dots); i += 3; }
            b'c' if i + 1 < n && t[i + 1] == b'"' => {
                i += 2;
                let q = lex_quoted(t, &mut i);
                v.push(Tok::CStr(q));
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < n && t[i + 1].is_ascii_digit()) => {
                let a = i;
                i += 1;
                while i < n && (is_word(t[i]) || (t[i] == b'+' && (t[i - 1] == b'e' || t[i - 1] == b'E'))) { i += 1; }
                // label such as "12:"
                v.push(Tok::Num(s(a, i)));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' || c == b'-' => {
                let a = i;
                i += 1;
                while i < n && is_word(t[i]) { i += 1; }
                v.push(Tok::Word(s(a, i)));
            }
            _ => { v.push(Tok::P(c)); i += 1; }
        }
        line_start = false;
    }
    v.push(Tok::Nl);
    v.push(Tok::Eof);
    v
}

pub fn parse_f64(s: &str) -> u64 {
    if let Some(h) = s.strip_prefix("0x") {
        // hexadecimal bit pattern of a double
        if let Some(h2) = h.strip_prefix('H') {
            return u64::from_str_radix(h2, 16).unwrap();
        }
        return u64::from_str_radix(h, 16).unwrap();
    }
    if let Some(h) = s.strip_prefix("f0x") {
        return u64::from_str_radix(h, 16).unwrap();
    }
    s.parse::<f64>().expect("float").to_bits()
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).expect("read ir");
        let mut m = Module {
            text: Rc::new(vec![]),
            tys: vec![],
            ty_map: HashMap::new(),
            named: HashMap::new(),
            named_src: HashMap::new(),
            funcs: vec![],
            func_by_name: HashMap::new(),
            globals: vec![],
            global_by_name: HashMap::new(),
        };
        let t = &text[..];
        let mut i = 0;
        let n = t.len();
        while i < n {
            let e = t[i..].iter().position(|&c| c == b'\n').map(|p| i + p).unwrap_or(n);
            let line = &t[i..e];
            if line.starts_with(b"define ") {
                let name = fn_name(line);
                // body ends at a line that is exactly "}"
                let mut j = e + 1;
                loop {
                    let e2 = t[j..].iter().position(|&c| c == b'\n').map(|p| j + p).unwrap_or(n);
                    if &t[j..e2] == b"}" { j = e2; break; }
                    j = e2 + 1;
                }
                m.add_func(name, true, (i, j));
                i = j + 1;
                continue;
            } else if line.starts_with(b"declare ") {
                let name = fn_name(line);
                m.add_func(name, false, (i, e));
            } else if line.starts_with(b"@") {
                let (name, rest) = if line[1] == b'"' {
                    let q = quoted_end(line, 2);
                    (String::from_utf8_lossy(&line[2..q]).to_string(), q + 1)
                } else {
                    let mut q = 1;
                    while is_word(line[q]) { q += 1; }
                    (String::from_utf8_lossy(&line[1..q]).to_string(), q)
                };
                let head = String::from_utf8_lossy(&line[rest..(rest + 200).min(line.len())]).to_string();
                let id = m.globals.len() as u32;
                m.global_by_name.insert(name.clone(), id);
                m.globals.push(GlobalDecl {
                    name,
                    line: (i + rest, e),
                    external: head.contains("= external") || head.contains("= extern_weak"),
                    constant: false,
                    alias: head.contains(" alias "),
                });
            } else if line.starts_with(b"%") {
                // named type
                let (name, rest) = if line[1] == b'"' {
                    let q = quoted_end(line, 2);
                    (String::from_utf8_lossy(&line[2..q]).to_string(), q + 1)
                } else {
                    let mut q = 1;
                    while is_word(line[q]) { q += 1; }
                    (String::from_utf8_lossy(&line[1..q]).to_string(), q)
                };
                m.named_src.insert(name, (i + rest, e));
            }
            i = e + 1;
        }
        m.text = Rc::new(text);
        m
    }

    fn add_func(&mut self, name: String, has_body: bool, range: (usize, usize)) {
        let id = self.funcs.len() as u32;
        self.func_by_name.insert(name.clone(), id);
        self.funcs.push(FuncDecl { name, has_body, range, parsed: None });
    }

    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.ty_map.get(&t) { return i; }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.ty_map.insert(t, i);
        i
    }

    pub fn t(&self, i: TyId) -> &Ty { &self.tys[i as usize] }

    pub fn align_of(&self, i: TyId) -> u64 {
        match *self.t(i) {
            Ty::Int(w) => ((w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Half => 2,
            Ty::Array(_, e) => self.align_of(e),
            Ty::Struct(ref v, packed) => if packed { 1 } else { v.iter().map(|&x| self.align_of(x)).max().unwrap_or(1) },
            Ty::Vector(..) => self.size_of(i).next_power_of_two().max(1),
            _ => 1,
        }
    }

    pub fn size_of(&self, i: TyId) -> u64 {
        match *self.t(i) {
            Ty::Int(w) => { let s = (w as u64 + 7) / 8; if s > 8 { 16 } else { s.next_power_of_two() } }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Half => 2,
            Ty::Array(n, e) => n * self.size_of(e),
            Ty::Struct(ref v, packed) => {
                let mut off = 0u64;
                for &x in v {
                    if !packed { let a = self.align_of(x); off = (off + a - 1) / a * a; }
                    off += self.size_of(x);
                }
                if !packed { let a = self.align_of(i); off = (off + a - 1) / a * a; }
                off
            }
            Ty::Vector(n, e) => (n * self.bits_of(e) + 7) / 8,
            _ => 0,
        }
    }

    pub fn bits_of(&self, i: TyId) -> u64 {
        match *self.t(i) {
            Ty::Int(w) => w as u64,
            Ty::F32 => 32,
            Ty::Half => 16,
            Ty::F64 | Ty::Ptr => 64,
            Ty::Vector(n, e) => n * self.bits_of(e),
            _ => panic!("bits_of {:?}", self.t(i)),
        }
    }

    /// element type and byte offset of field k
    pub fn field(&self, i: TyId, k: u64) -> (TyId, u64) {
        match *self.t(i) {
            Ty::Array(_, e) => (e, k * self.size_of(e)),
            Ty::Vector(_, e) => (e, k * self.size_of(e)),
            Ty::Struct(ref v, packed) => {
                let mut off = 0u64;
                for (j, &x) in v.iter().enumerate() {
                    if !packed { let a = self.align_of(x); off = (off + a - 1) / a * a; }
                    if j as u64 == k { return (x, off); }
                    off += self.size_of(x);
                }
                panic!("field")
            }
            _ => panic!("field of {:?}", self.t(i)),
        }
    }

    pub fn func_addr(id: u32) -> u64 { (FUNC_BASE + id as u64) << 32 }
    pub fn global_addr(id: u32) -> u64 { (GLOBAL_BASE + id as u64) << 32 }

    /// Address of a symbol; unknown symbols become bodiless functions.
    pub fn sym_addr(&mut self, name: &str) -> u64 {
        if let Some(&g) = self.global_by_name.get(name) {
            if self.globals[g as usize].alias {
                // @x = alias ty, ptr @y
                let (a, b) = self.globals[g as usize].line;
                let text = self.text.clone();
                let toks = lex(&text[a..b]);
                for tk in toks {
                    if let Tok::Global(y) = tk { return self.sym_addr(y); }
                }
            }
            return Module::global_addr(g);
        }
        if let Some(&f) = self.func_by_name.get(name) { return Module::func_addr(f); }
        self.add_func(name.to_string(), false, (0, 0));
        Module::func_addr(self.func_by_name[name])
    }

    pub fn global_init(&mut self, id: u32) -> (TyId, Cst, bool) {
        let (a, b) = self.globals[id as usize].line;
        let text = self.text.clone();
        let toks = lex(&text[a..b]);
        let mut p = Parser { m: self, toks: &toks, i: 0, regs: HashMap::new(), nregs: 0 };
        // "= private unnamed_addr constant TY INIT, align ..."
        let mut constant = false;
        loop {
            match p.peek() {
                Tok::Word("constant") => { constant = true; p.i += 1; break; }
                Tok::Word("global") => { p.i += 1; break; }
                Tok::Eof => panic!("global without type"),
                _ => { p.i += 1; }
            }
        }
        let ty = p.ty();
        if p.at_end_of_init() { return (ty, Cst::Zero, constant); }
        let c = p.cst(ty);
        (ty, c, constant)
    }

    pub fn func(&mut self, id: u32) -> Option<Rc<Func>> {
        if let Some(ref f) = self.funcs[id as usize].parsed { return Some(f.clone()); }
        if !self.funcs[id as usize].has_body { return None; }
        let (a, b) = self.funcs[id as usize].range;
        let text = self.text.clone();
        let toks = lex(&text[a..b]);
        let f = {
            let mut p = Parser { m: self, toks: &toks, i: 0, regs: HashMap::new(), nregs: 0 };
            Rc::new(p.func(id))
        };
        self.funcs[id as usize].parsed = Some(f.clone());
        Some(f)
    }
}

fn fn_name(line: &[u8]) -> String {
    let p = line.iter().position(|&c| c == b'@').expect("fn name");
    if line[p + 1] == b'"' {
        let q = quoted_end(line, p + 2);
        String::from_utf8_lossy(&line[p + 2..q]).to_string()
    } else {
        let mut q = p + 1;
        while is_word(line[q]) { q += 1; }
        String::from_utf8_lossy(&line[p + 1..q]).to_string()
    }
}

struct Parser<'m, 't> {
    m: &'m mut Module,
    toks: &'t [Tok<'t>],
    i: usize,
    regs: HashMap<String, u32>,
    nregs: u32,
}

impl<'m, 't> Parser<'m, 't> {
    fn peek(&self) -> &'t Tok<'t> { &self.toks[self.i] }
    fn peek_at(&self, k: usize) -> &'t Tok<'t> { &self.toks[(self.i + k).min(self.toks.len() - 1)] }
    fn next(&mut self) -> &'t Tok<'t> { let t = &self.toks[self.i]; if self.i + 1 < self.toks.len() { self.i += 1; } t }
    fn is_p(&self, c: u8) -> bool { *self.peek() == Tok::P(c) }
    fn is_w(&self, w: &str) -> bool { if let Tok::Word(x) = self.peek() { *x == w } else { false } }
    fn eat_p(&mut self, c: u8) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) {
        if !self.eat_p(c) { panic!("expected {:?} got {:?} at {:?}", c as char, self.peek(), self.context()); }
    }
    fn context(&self) -> String {
        let a = self.i.saturating_sub(12);
        let b = (self.i + 12).min(self.toks.len());
        format!("{:?}", &self.toks[a..b])
    }
    fn skip_line(&mut self) {
        while *self.peek() != Tok::Nl && *self.peek() != Tok::Eof { self.i += 1; }
        while *self.peek() == Tok::Nl { self.i += 1; }
    }
    fn skip_nl(&mut self) { while *self.peek() == Tok::Nl { self.i += 1; } }
    fn at_end_of_init(&self) -> bool { matches!(self.peek(), Tok::P(b',') | Tok::Nl | Tok::Eof | Tok::Meta | Tok::Attr) }

    fn skip_group(&mut self) {
        // at an opening parenthesis
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => { d -= 1; if d == 0 { return; } }
                Tok::Eof => panic!("unbalanced"),
                _ => {}
            }
        }
    }

    fn starts_type(&self) -> bool {
        match self.peek() {
            Tok::Word(w) => match *w {
                "ptr" | "void" | "double" | "float" | "half" | "label" | "metadata" | "token" | "opaque" => true,
                _ => w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()),
            },
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }

    fn ty(&mut self) -> TyId {
        match self.next() {
            Tok::Word(w) => match *w {
                "ptr" => {
                    if self.is_w("addrspace") { self.i += 1; self.skip_group(); }
                    self.m.ty(Ty::Ptr)
                }
                "void" => self.m.ty(Ty::Void),
                "double" => self.m.ty(Ty::F64),
                "float" => self.m.ty(Ty::F32),
                "half" => self.m.ty(Ty::Half),
                "label" => self.m.ty(Ty::Label),
                "metadata" => self.m.ty(Ty::Metadata),
                "token" => self.m.ty(Ty::Token),
                "opaque" => self.m.ty(Ty::Opaque),
                _ if w.starts_with('i') => { let n = w[1..].parse().unwrap_or_else(|_| panic!("type {}", w)); self.m.ty(Ty::Int(n)) }
                _ => panic!("type {:?} {}", w, self.context()),
            },
            Tok::P(b'[') => {
                let n = self.num_u64();
                assert!(self.eat_w("x"));
                let e = self.ty();
                self.expect(b']');
                self.m.ty(Ty::Array(n, e))
            }
            Tok::P(b'{') => {
                let v = self.ty_list(b'}');
                self.m.ty(Ty::Struct(v, false))
            }
            Tok::P(b'<') => {
                if self.eat_p(b'{') {
                    let v = self.ty_list(b'}');
                    self.expect(b'>');
                    self.m.ty(Ty::Struct(v, true))
                } else {
                    let n = self.num_u64();
                    assert!(self.eat_w("x"));
                    let e = self.ty();
                    self.expect(b'>');
                    self.m.ty(Ty::Vector(n, e))
                }
            }
            Tok::Local(n) => {
                let n = n.to_string();
                if let Some(&t) = self.m.named.get(&n) { return t; }
                let (a, b) = *self.m.named_src.get(&n).unwrap_or_else(|| panic!("named type {}", n));
                let text = self.m.text.clone();
                let toks = lex(&text[a..b]);
                let t = {
                    let mut p = Parser { m: self.m, toks: &toks, i: 0, regs: HashMap::new(), nregs: 0 };
                    p.expect(b'=');
                    assert!(p.eat_w("type"));
                    p.ty()
                };
                self.m.named.insert(n, t);
                t
            }
            x => panic!("type {:?} {}", x, self.context()),
        }
    }

    fn ty_list(&mut self, end: u8) -> Vec<TyId> {
        let mut v = vec![];
        if self.eat_p(end) { return v; }
        loop {
            v.push(self.ty());
            if self.eat_p(b',') { continue; }
            self.expect(end);
            return v;
        }
    }

    fn num_u64(&mut self) -> u64 {
        match self.next() {
            Tok::Num(s) => s.parse().unwrap_or_else(|_| panic!("num {}", s)),
            x => panic!("num {:?} {}", x, self.context()),
        }
    }

    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) { return r; }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }

    fn zero(&mut self, ty: TyId) -> Val {
        match self.m.t(ty).clone() {
            Ty::Array(n, e) | Ty::Vector(n, e) => { let z = self.zero(e); Val::A(Rc::new(vec![z; n as usize])) }
            Ty::Struct(v, _) => { let mut r = vec![]; for x in v { r.push(self.zero(x)); } Val::A(Rc::new(r)) }
            Ty::Int(w) if w > 64 => Val::W(Rc::new(0)),
            _ => Val::C(0),
        }
    }

    fn int_val(&self, v: i128, vu: u128, w: u32) -> Val {
        let x = if v < 0 { v as u128 } else { vu };
        if w > 64 { Val::W(Rc::new(if w == 128 { x } else { x & ((1u128 << w) - 1) })) }
        else { Val::C((x & ((1u128 << w) - 1)) as u64) }
    }

    fn cst_to_val(&mut self, ty: TyId, c: Cst) -> Val {
        match c {
            Cst::V(v) => v,
            Cst::Zero => self.zero(ty),
            Cst::Str(s) => Val::A(Rc::new(s.into_iter().map(|b| Val::C(b as u64)).collect())),
            Cst::Agg(v) => { let mut r = vec![]; for (t, x) in v { r.push(self.cst_to_val(t, x)); } Val::A(Rc::new(r)) }
        }
    }

    /// constant of the given type
    fn cst(&mut self, ty: TyId) -> Cst {
        match self.next() {
            Tok::Num(s) => {
                match self.m.t(ty) {
                    Ty::F64 => Cst::V(Val::C(parse_f64(s))),
                    Ty::F32 => {
                        let d = f64::from_bits(parse_f64(s));
                        Cst::V(Val::C((d as f32).to_bits() as u64))
                    }
                    Ty::Half => Cst::V(Val::C(0)),
                    Ty::Int(w) => {
                        let w = *w;
                        let v = if let Ok(v) = s.parse::<i128>() { self.int_val(v, v as u128, w) }
                            else { let u = s.parse::<u128>().unwrap(); self.int_val(0, u, w) };
                        Cst::V(v)
                    }
                    t => panic!("number for {:?}", t),
                }
            }
            Tok::Word(w) => match *w {
                "true" => Cst::V(Val::C(1)),
                "false" => Cst::V(Val::C(0)),
                "null" | "none" => Cst::V(Val::C(0)),
                "undef" | "poison" | "zeroinitializer" => Cst::Zero,
                "getelementptr" => {
                    while let Tok::Word(_) = self.peek() { self.i += 1; if self.is_p(b'(') && !matches!(self.peek_at(1), Tok::Word(_) | Tok::P(_) | Tok::Local(_)) { self.skip_group(); } }
                    self.expect(b'(');
                    let ety = self.ty();
                    self.expect(b',');
                    let pty = self.ty();
                    let base = self.cst(pty);
                    let base = match base { Cst::V(Val::C(x)) => x, Cst::Zero => 0, _ => panic!("gep base") };
                    let mut off = 0u64;
                    let mut cur = ety;
                    let mut first = true;
                    while self.eat_p(b',') {
                        self.eat_w("inrange");
                        let ity = self.ty();
                        let c = self.cst(ity);
                        let w = self.m.bits_of(ity) as u32;
                        let k = match c { Cst::V(Val::C(x)) => sext64(x, w) as i64, Cst::Zero => 0, _ => panic!("gep idx") };
                        if first {
                            off = off.wrapping_add((k as u64).wrapping_mul(self.m.size_of(cur)));
                            first = false;
                        } else {
                            let (t, o) = if let Ty::Struct(..) = self.m.t(cur) { self.m.field(cur, k as u64) } else {
                                let (t, _) = self.m.field(cur, 0);
                                (t, (k as u64).wrapping_mul(self.m.size_of(t)))
                            };
                            off = off.wrapping_add(o);
                            cur = t;
                        }
                    }
                    self.expect(b')');
                    Cst::V(Val::C(base.wrapping_add(off)))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                    while let Tok::Word(_) = self.peek() { self.i += 1; }
                    self.expect(b'(');
                    let fty = self.ty();
                    let c = self.cst(fty);
                    assert!(self.eat_w("to"));
                    let tty = self.ty();
                    self.expect(b')');
                    let v = self.cst_to_val(fty, c);
                    let w = self.m.bits_of(tty);
                    match v { Val::C(x) => Cst::V(Val::C(if w >= 64 { x } else { x & ((1 << w) - 1) })), v => Cst::V(v) }
                }
                "add" | "sub" | "xor" | "mul" => {
                    let op = *w;
                    while let Tok::Word(_) = self.peek() { self.i += 1; }
                    self.expect(b'(');
                    let t1 = self.ty();
                    let a = self.cst(t1);
                    self.expect(b',');
                    let t2 = self.ty();
                    let b = self.cst(t2);
                    self.expect(b')');
                    let (a, b) = match (self.cst_to_val(t1, a), self.cst_to_val(t2, b)) { (Val::C(a), Val::C(b)) => (a, b), _ => panic!("constexpr") };
                    let w = self.m.bits_of(t1);
                    let r = match op { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), _ => a ^ b };
                    Cst::V(Val::C(if w >= 64 { r } else { r & ((1 << w) - 1) }))
                }
                "splat" => {
                    self.expect(b'(');
                    let t = self.ty();
                    let c = self.cst(t);
                    self.expect(b')');
                    if let Ty::Vector(n, _) = *self.m.t(ty) {
                        Cst::Agg(vec![(t, c); n as usize])
                    } else { panic!("splat") }
                }
                "dso_local_equivalent" | "no_cfi" => self.cst(ty),
                "-inf" | "-qnan" | "-nan" | "-snan" => Cst::V(Val::C(self.special_float(ty, w, true))),
                _ if *self.m.t(ty) == Ty::F64 => Cst::V(Val::C(parse_f64(w))),
                _ => panic!("constant {:?} {}", w, self.context()),
            },
            Tok::Global(n) => Cst::V(Val::C(self.m.sym_addr(n))),
            Tok::CStr(s) => Cst::Str(s.clone()),
            Tok::P(b'[') => { let v = self.cst_list(b']'); Cst::Agg(v) }
            Tok::P(b'{') => { let v = self.cst_list(b'}'); Cst::Agg(v) }
            Tok::P(b'<') => {
                if self.eat_p(b'{') {
                    let v = self.cst_list(b'}');
                    self.expect(b'>');
                    Cst::Agg(v)
                } else {
                    let v = self.cst_list(b'>');
                    Cst::Agg(v)
                }
            }
            Tok::P(b'+') => {
                let w = match self.next() { Tok::Word(w) => w, x => panic!("constant +{:?}", x) };
                Cst::V(Val::C(self.special_float(ty, w, false)))
            }
            x => panic!("constant {:?} {}", x, self.context()),
        }
    }

    fn special_float(&mut self, ty: TyId, w: &str, neg: bool) -> u64 {
        if self.eat_p(b'(') { while !self.eat_p(b')') { self.next(); } }
        let (inf, nan, sign) = match *self.m.t(ty) {
            Ty::F64 => (0x7ff0_0000_0000_0000u64, 0x7ff8_0000_0000_0000u64, 63),
            Ty::F32 => (0x7f80_0000, 0x7fc0_0000, 31),
            _ => (0x7c00, 0x7e00, 15),
        };
        (if w.ends_with("inf") { inf } else { nan }) | if neg { 1 << sign } else { 0 }
    }

    fn cst_list(&mut self, end: u8) -> Vec<(TyId, Cst)> {
        let mut v = vec![];
        if self.eat_p(end) { return v; }
        loop {
            let t = self.ty();
            let c = self.cst(t);
            v.push((t, c));
            if self.eat_p(b',') { continue; }
            self.expect(end);
            return v;
        }
    }

    fn value(&mut self, ty: TyId) -> Op {
        if let Tok::Local(n) = self.peek() {
            self.i += 1;
            return Op::R(self.reg(n));
        }
        let c = self.cst(ty);
        Op::K(self.cst_to_val(ty, c))
    }

    fn tyval(&mut self) -> (TyId, Op) {
        let t = self.ty();
        self.skip_attrs();
        let v = self.value(t);
        (t, v)
    }

    /// skip parameter attributes
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Word(w) => match *w {
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "add" | "sub" | "xor" | "mul" | "trunc" | "splat" | "none" | "asm" | "ptrtoaddr" | "dso_local_equivalent" | "no_cfi" | "c" => return,
                    // number constants
                    w if w.starts_with("f0x") || w.starts_with("0x") || w.starts_with('-') => return,
                    "align" => { self.i += 1; if self.is_p(b'(') { self.skip_group(); } else { self.i += 1; } }
                    _ => { self.i += 1; if self.is_p(b'(') { self.skip_group(); } }
                },
                Tok::Str(_) => { self.i += 1; if self.eat_p(b'=') { self.i += 1; } }
                _ => return,
            }
        }
    }

    fn label(&mut self, labels: &mut HashMap<String, u32>) -> u32 {
        assert!(self.eat_w("label"), "label {}", self.context());
        match self.next() {
            Tok::Local(n) => { let k = labels.len() as u32; *labels.entry(n.to_string()).or_insert(k) }
            x => panic!("label {:?}", x),
        }
    }

    fn func(&mut self, id: u32) -> Func {
        // header: find the global id then the parameter list
        loop {
            if let Tok::Global(_) = self.peek() { if *self.peek_at(1) == Tok::P(b'(') { break; } }
            self.i += 1;
        }
        self.i += 1;
        self.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        if !self.eat_p(b')') {
            loop {
                if *self.peek() == Tok::Dots { self.i += 1; self.expect(b')'); break; }
                let _t = self.ty();
                self.skip_attrs();
                if let Tok::Local(n) = self.peek() {
                    let n = n.to_string();
                    self.i += 1;
                    if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
                    let r = self.reg(&n);
                    params.push(r);
                } else {
                    let n = unnamed.to_string();
                    unnamed += 1;
                    let r = self.reg(&n);
                    params.push(r);
                }
                if self.eat_p(b',') { continue; }
                self.expect(b')');
                break;
            }
        }
        // up to the opening brace at the end of the line
        while *self.peek() != Tok::Nl { self.i += 1; }
        self.skip_nl();
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut blocks: HashMap<u32, Block> = HashMap::new();
        let mut cur_name = unnamed.to_string();
        // explicit label for the entry block?
        if let (Tok::Word(w) | Tok::Num(w), Tok::P(b':')) = (self.peek(), self.peek_at(1)) {
            cur_name = w.to_string();
            self.i += 2;
            self.skip_nl();
        }
        labels.insert(cur_name.clone(), 0);
        let mut cur = 0u32;
        let mut blk = Block::default();
        let mut frame = 0u64;
        loop {
            self.skip_nl();
            match (self.peek(), self.peek_at(1)) {
                (Tok::Eof, _) => break,
                (Tok::P(b'}'), _) => break,
                (Tok::Word(w), Tok::P(b':')) | (Tok::Num(w), Tok::P(b':')) => {
                    blocks.insert(cur, std::mem::take(&mut blk));
                    let k = labels.len() as u32;
                    cur = *labels.entry(w.to_string()).or_insert(k);
                    self.i += 2;
                    continue;
                }
                _ => {}
            }
            self.inst(&mut blk, &mut labels, &mut frame);
        }
        blocks.insert(cur, blk);
        let n = labels.len() as u32;
        let mut v = vec![];
        for i in 0..n { v.push(blocks.remove(&i).unwrap_or_default()); }
        let _ = cur_name;
        Func { id, params, nregs: self.nregs, blocks: v, frame_size: frame }
    }

    fn inst(&mut self, blk: &mut Block, labels: &mut HashMap<String, u32>, frame: &mut u64) {
        let mut dst = None;
        if let (Tok::Local(n), Tok::P(b'=')) = (self.peek(), self.peek_at(1)) {
            let n = n.to_string();
            dst = Some(self.reg(&n));
            self.i += 2;
        }
        let op = match self.next() {
            Tok::Word(w) => *w,
            x => panic!("instruction {:?} {}", x, self.context()),
        };
        let d = dst.unwrap_or(u32::MAX);
        use self::BinOp as B;
        let bin = |o: &str| Some(match o {
            "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv,
            "urem" => B::URem, "srem" => B::SRem, "and" => B::And, "or" => B::Or, "xor" => B::Xor,
            "shl" => B::Shl, "lshr" => B::LShr, "ashr" => B::AShr, _ => return None,
        });
        if let Some(o) = bin(op) {
            self.flags();
            let ty = self.ty();
            let a = self.value(ty);
            self.expect(b',');
            let b = self.value(ty);
            blk.insts.push(Inst::Bin { op: o, ty, dst: d, a, b });
            self.skip_line();
            return;
        }
        let fbin = |o: &str| Some(match o {
            "fadd" => FBinOp::Add, "fsub" => FBinOp::Sub, "fmul" => FBinOp::Mul, "fdiv" => FBinOp::Div, "frem" => FBinOp::Rem, _ => return None,
        });
        if let Some(o) = fbin(op) {
            self.flags();
            let ty = self.ty();
            let a = self.value(ty);
            self.expect(b',');
            let b = self.value(ty);
            blk.insts.push(Inst::FBin { op: o, ty, dst: d, a, b });
            self.skip_line();
            return;
        }
        let cast = |o: &str| Some(match o {
            "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "fptoui" => CastOp::FpToUi, "fptosi" => CastOp::FpToSi,
            "uitofp" => CastOp::UiToFp, "sitofp" => CastOp::SiToFp, "fptrunc" => CastOp::FpTrunc, "fpext" => CastOp::FpExt,
            "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt, "inttoptr" => CastOp::IntToPtr, "bitcast" | "addrspacecast" => CastOp::BitCast, _ => return None,
        });
        if let Some(o) = cast(op) {
            self.flags();
            let from = self.ty();
            let a = self.value(from);
            assert!(self.eat_w("to"), "cast {}", self.context());
            let to = self.ty();
            blk.insts.push(Inst::Cast { op: o, from, to, dst: d, a });
            self.skip_line();
            return;
        }
        match op {
            "fneg" => {
                self.flags();
                let ty = self.ty();
                let a = self.value(ty);
                blk.insts.push(Inst::FNeg { ty, dst: d, a });
            }
            "icmp" => {
                if self.is_w("samesign") { self.i += 1; }
                let p = match self.next() {
                    Tok::Word("eq") => IPred::Eq, Tok::Word("ne") => IPred::Ne,
                    Tok::Word("ugt") => IPred::Ugt, Tok::Word("uge") => IPred::Uge, Tok::Word("ult") => IPred::Ult, Tok::Word("ule") => IPred::Ule,
                    Tok::Word("sgt") => IPred::Sgt, Tok::Word("sge") => IPred::Sge, Tok::Word("slt") => IPred::Slt, Tok::Word("sle") => IPred::Sle,
                    x => panic!("icmp {:?}", x),
                };
                let ty = self.ty();
                let a = self.value(ty);
                self.expect(b',');
                let b = self.value(ty);
                blk.insts.push(Inst::ICmp { p, ty, dst: d, a, b });
            }
            "fcmp" => {
                let p = loop {
                    match self.next() {
                        Tok::Word(w) => break match *w {
                            "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole,
                            "one" => FPred::One, "ord" => FPred::Ord, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult,
                            "ule" => FPred::Ule, "une" => FPred::Une, "uno" => FPred::Uno, "true" => FPred::True, _ => continue,
                        },
                        x => panic!("fcmp {:?}", x),
                    }
                };
                let ty = self.ty();
                let a = self.value(ty);
                self.expect(b',');
                let b = self.value(ty);
                blk.insts.push(Inst::FCmp { p, ty, dst: d, a, b });
            }
            "select" => {
                self.flags();
                let cty = self.ty();
                let c = self.value(cty);
                self.expect(b',');
                let ty = self.ty();
                let a = self.value(ty);
                self.expect(b',');
                let _ = self.ty();
                let b = self.value(ty);
                blk.insts.push(Inst::Select { cty, ty, dst: d, c, a, b });
            }
            "alloca" => {
                self.eat_w("inalloca");
                let ty = self.ty();
                let mut count: Option<Op> = None;
                let mut align = self.m.align_of(ty);
                while self.eat_p(b',') {
                    if self.eat_w("align") { align = self.num_u64(); }
                    else if self.starts_type() { let t = self.ty(); count = Some(self.value(t)); }
                    else { break; }
                }
                let size = self.m.size_of(ty);
                match count {
                    Some(Op::R(r)) => blk.insts.push(Inst::DynAlloca { dst: d, elem: size, n: Op::R(r) }),
                    c => {
                        let n = match c { Some(Op::K(Val::C(n))) => n, _ => 1 };
                        let a = align.max(1);
                        *frame = (*frame + a - 1) / a * a;
                        blk.insts.push(Inst::Alloca { dst: d, off: *frame });
                        *frame += (size * n).max(1);
                    }
                }
            }
            "load" => {
                self.eat_w("atomic");
                self.eat_w("volatile");
                let ty = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let p = self.value(pt);
                blk.insts.push(Inst::Load { ty, dst: d, p });
            }
            "store" => {
                self.eat_w("atomic");
                self.eat_w("volatile");
                let ty = self.ty();
                let v = self.value(ty);
                self.expect(b',');
                let pt = self.ty();
                let p = self.value(pt);
                blk.insts.push(Inst::Store { ty, v, p });
            }
            "getelementptr" => {
                self.flags();
                let ety = self.ty();
                self.expect(b',');
                let pty = self.ty();
                let base = self.value(pty);
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = ety;
                let mut first = true;
                let mut vec_gep = matches!(self.m.t(pty), Ty::Vector(..));
                while self.eat_p(b',') {
                    if !self.starts_type() { break; }
                    let ity = self.ty();
                    if let Ty::Vector(..) = self.m.t(ity) { vec_gep = true; break; }
                    let w = self.m.bits_of(ity) as u32;
                    let v = self.value(ity);
                    let (next_ty, scale) = if first { (cur, self.m.size_of(cur)) } else {
                        match *self.m.t(cur) {
                            Ty::Struct(..) => {
                                let k = match v { Op::K(Val::C(k)) => k, _ => panic!("struct gep") };
                                let (t, o) = self.m.field(cur, k);
                                off = off.wrapping_add(o);
                                cur = t;
                                continue;
                            }
                            _ => { let (t, _) = self.m.field(cur, 0); (t, self.m.size_of(t)) }
                        }
                    };
                    first = false;
                    cur = next_ty;
                    match v {
                        Op::K(Val::C(k)) => { off = off.wrapping_add((sext64(k, w)).wrapping_mul(scale)); }
                        v => idx.push((v, w, scale)),
                    }
                }
                if vec_gep { blk.insts.push(Inst::Unsupported("vector gep".into())); }
                else { blk.insts.push(Inst::Gep { dst: d, base, off, idx }); }
            }
            "extractvalue" => {
                let ty = self.ty();
                let a = self.value(ty);
                let mut idx = vec![];
                while self.eat_p(b',') { if let Tok::Num(_) = self.peek() { idx.push(self.num_u64() as u32); } else { break; } }
                blk.insts.push(Inst::ExtractValue { dst: d, a, idx });
            }
            "insertvalue" => {
                let ty = self.ty();
                let a = self.value(ty);
                self.expect(b',');
                let vt = self.ty();
                let v = self.value(vt);
                let mut idx = vec![];
                while self.eat_p(b',') { if let Tok::Num(_) = self.peek() { idx.push(self.num_u64() as u32); } else { break; } }
                blk.insts.push(Inst::InsertValue { ty, dst: d, a, v, idx });
            }
            "extractelement" => {
                let ty = self.ty();
                let a = self.value(ty);
                self.expect(b',');
                let it = self.ty();
                let i = self.value(it);
                blk.insts.push(Inst::ExtractElement { dst: d, a, i });
            }
            "insertelement" => {
                let ty = self.ty();
                let a = self.value(ty);
                self.expect(b',');
                let vt = self.ty();
                let v = self.value(vt);
                self.expect(b',');
                let it = self.ty();
                let i = self.value(it);
                blk.insts.push(Inst::InsertElement { dst: d, a, v, i });
            }
            "shufflevector" => {
                let ty = self.ty();
                let n = match *self.m.t(ty) { Ty::Vector(n, _) => n as usize, _ => panic!("shuffle") };
                let a = self.value(ty);
                self.expect(b',');
                let _ = self.ty();
                let b = self.value(ty);
                self.expect(b',');
                let mt = self.ty();
                let mv = self.value(mt);
                let mask = match mv {
                    Op::K(Val::A(v)) => v.iter().map(|x| match x { Val::C(k) => *k as u32, _ => 0 }).collect(),
                    _ => panic!("shuffle mask"),
                };
                blk.insts.push(Inst::Shuffle { dst: d, n, a, b, mask });
            }
            "atomicrmw" => {
                self.eat_w("volatile");
                let o = match self.next() {
                    Tok::Word("xchg") => RmwOp::Xchg, Tok::Word("add") => RmwOp::Add, Tok::Word("sub") => RmwOp::Sub, Tok::Word("and") => RmwOp::And,
                    Tok::Word("nand") => RmwOp::Nand, Tok::Word("or") => RmwOp::Or, Tok::Word("xor") => RmwOp::Xor, Tok::Word("max") => RmwOp::Max,
                    Tok::Word("min") => RmwOp::Min, Tok::Word("umax") => RmwOp::UMax, Tok::Word("umin") => RmwOp::UMin, x => panic!("rmw {:?}", x),
                };
                let pt = self.ty();
                let p = self.value(pt);
                self.expect(b',');
                let ty = self.ty();
                let v = self.value(ty);
                blk.insts.push(Inst::Rmw { op: o, ty, dst: d, p, v });
            }
            "cmpxchg" => {
                self.eat_w("weak");
                self.eat_w("volatile");
                let pt = self.ty();
                let p = self.value(pt);
                self.expect(b',');
                let ty = self.ty();
                let c = self.value(ty);
                self.expect(b',');
                let _ = self.ty();
                let n = self.value(ty);
                blk.insts.push(Inst::CmpXchg { ty, dst: d, p, c, n });
            }
            "freeze" => {
                let ty = self.ty();
                let a = self.value(ty);
                blk.insts.push(Inst::Freeze { dst: d, a });
            }
            "fence" => blk.insts.push(Inst::Fence),
            "phi" => {
                self.flags();
                let ty = self.ty();
                let mut inc = vec![];
                loop {
                    self.expect(b'[');
                    let v = self.value(ty);
                    self.expect(b',');
                    let l = match self.next() {
                        Tok::Local(n) => { let k = labels.len() as u32; *labels.entry(n.to_string()).or_insert(k) }
                        x => panic!("phi {:?}", x),
                    };
                    self.expect(b']');
                    inc.push((l, v));
                    if self.is_p(b',') && *self.peek_at(1) == Tok::P(b'[') { self.i += 1; continue; }
                    break;
                }
                blk.phis.push(Phi { ty, dst: d, inc });
            }
            "ret" => {
                let ty = self.ty();
                if *self.m.t(ty) == Ty::Void { blk.insts.push(Inst::Ret(None)); }
                else { let v = self.value(ty); blk.insts.push(Inst::Ret(Some(v))); }
            }
            "br" => {
                if self.is_w("label") {
                    let l = self.label(labels);
                    blk.insts.push(Inst::Br(l));
                } else {
                    let t = self.ty();
                    let c = self.value(t);
                    self.expect(b',');
                    let a = self.label(labels);
                    self.expect(b',');
                    let b = self.label(labels);
                    blk.insts.push(Inst::CondBr { c, t: a, f: b });
                }
            }
            "switch" => {
                let ty = self.ty();
                let v = self.value(ty);
                self.expect(b',');
                let def = self.label(labels);
                self.expect(b'[');
                let mut cases = vec![];
                loop {
                    self.skip_nl();
                    if self.eat_p(b']') { break; }
                    let t = self.ty();
                    let k = match self.value(t) { Op::K(Val::C(k)) => k as u128, Op::K(Val::W(w)) => *w, _ => panic!("switch case") };
                    self.expect(b',');
                    let l = self.label(labels);
                    cases.push((k, l));
                }
                blk.insts.push(Inst::Switch { ty, v, def, cases });
            }
            "unreachable" => blk.insts.push(Inst::Unreachable),
            "tail" | "musttail" | "notail" | "call" => {
                if op != "call" { assert!(self.eat_w("call")); }
                self.call(blk, dst, false, labels);
            }
            "invoke" => { self.call(blk, dst, true, labels); }
            "landingpad" => {
                // only reached while unwinding, which is not modelled
                blk.insts.push(Inst::Unsupported("landingpad".into()));
                self.skip_line();
                loop {
                    self.skip_nl();
                    if self.is_w("cleanup") || self.is_w("catch") || self.is_w("filter") { self.skip_line(); } else { break; }
                }
                return;
            }
            "resume" => blk.insts.push(Inst::Unsupported("resume".into())),
            _ => blk.insts.push(Inst::Unsupported(op.to_string())),
        }
        self.skip_line();
    }

    /// skip instruction flags such as nuw, nsw, exact, inbounds, fast
    fn flags(&mut self) {
        loop {
            match self.peek() {
                Tok::Word(w) => match *w {
                    "nuw" | "nsw" | "exact" | "inbounds" | "nusw" | "nneg" | "disjoint" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => self.i += 1,
                    "inrange" => { self.i += 1; if self.is_p(b'(') { self.skip_group(); } }
                    _ => return,
                },
                _ => return,
            }
        }
    }

    fn call(&mut self, blk: &mut Block, dst: Option<u32>, invoke: bool, labels: &mut HashMap<String, u32>) {
        // flags, calling convention, return attributes
        while !self.starts_type() {
            match self.next() {
                Tok::Word("align") | Tok::Word("cc") => { if self.is_p(b'(') { self.skip_group(); } else { self.i += 1; } }
                Tok::Word(_) => { if self.is_p(b'(') { self.skip_group(); } }
                x => panic!("call {:?} {}", x, self.context()),
            }
        }
        let ret = self.ty();
        if self.is_p(b'(') { self.skip_group(); }
        let callee = match self.peek() {
            Tok::Global(n) => {
                self.i += 1;
                let a = self.m.sym_addr(n);
                let id = (a >> 32) - FUNC_BASE;
                Callee::Direct(id as u32)
            }
            Tok::Local(n) => { self.i += 1; Callee::Indirect(Op::R(self.reg(n))) }
            Tok::Word("asm") => {
                while !self.is_p(b'(') { self.i += 1; }
                Callee::Asm
            }
            _ => { let pt = self.m.ty(Ty::Ptr); Callee::Indirect(self.value(pt)) }
        };
        self.expect(b'(');
        let mut args = vec![];
        if !self.eat_p(b')') {
            loop {
                let t = self.ty();
                if *self.m.t(t) == Ty::Metadata {
                    // metadata operand, up to , or )
                    let mut d = 0;
                    loop {
                        match self.peek() {
                            Tok::P(b'(') | Tok::P(b'{') => { d += 1; self.i += 1; }
                            Tok::P(b')') if d == 0 => break,
                            Tok::P(b',') if d == 0 => break,
                            Tok::P(b')') | Tok::P(b'}') => { d -= 1; self.i += 1; }
                            _ => self.i += 1,
                        }
                    }
                } else {
                    self.skip_attrs();
                    let v = self.value(t);
                    args.push((t, v));
                }
                if self.eat_p(b',') { continue; }
                self.expect(b')');
                break;
            }
        }
        let mut normal = None;
        if invoke {
            // attributes and bundles, then "to label %x unwind label %y" possibly on the next line
            loop {
                if self.is_w("to") { self.i += 1; break; }
                self.i += 1;
            }
            normal = Some(self.label(labels));
            assert!(self.eat_w("unwind"));
            let _ = self.label(labels);
        }
        blk.insts.push(Inst::Call(Box::new(CallInst { dst, ret, callee, args, normal })));
    }
}

pub fn sext64(x: u64, w: u32) -> u64 {
    if w >= 64 { x } else { (((x << (64 - w)) as i64) >> (64 - w)) as u64 }
}
