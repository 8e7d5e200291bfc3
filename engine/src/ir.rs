//! Parser for LLVM textual IR (as printed by the toolchain's llvm-dis).
//! Function bodies are parsed lazily, on first call.
use crate::fx::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
  Int(u16),
  Ptr,
  F32,
  F64,
  FOther(u16),
  Void,
  Arr(u64, Rc<Ty>),
  Struct(Rc<Vec<Ty>>, bool),
  Vec(u64, Rc<Ty>),
  Other,
}

impl Ty {
  pub fn align(&self) -> u64 {
    match self {
      Ty::Int(w) => {
        let b = ((*w as u64) + 7) / 8;
        b.next_power_of_two().min(16)
      }
      Ty::Ptr | Ty::F64 => 8,
      Ty::F32 => 4,
      Ty::FOther(w) => (*w as u64) / 8,
      Ty::Arr(_, t) => t.align(),
      Ty::Struct(ts, p) => {
        if *p {
          1
        } else {
          ts.iter().map(|t| t.align()).max().unwrap_or(1)
        }
      }
      Ty::Vec(..) => self.store_size().next_power_of_two(),
      _ => 1,
    }
  }
  /// Bytes written by a store.
  pub fn store_size(&self) -> u64 {
    match self {
      Ty::Int(w) => ((*w as u64) + 7) / 8,
      Ty::Vec(n, t) => match **t {
        Ty::Int(w) => (n * w as u64 + 7) / 8,
        _ => n * t.store_size(),
      },
      _ => self.size(),
    }
  }
  /// Allocation size.
  pub fn size(&self) -> u64 {
    match self {
      Ty::Int(_) => {
        let s = self.store_size();
        let a = self.align();
        (s + a - 1) / a * a
      }
      Ty::Ptr | Ty::F64 => 8,
      Ty::F32 => 4,
      Ty::FOther(w) => (*w as u64) / 8,
      Ty::Arr(n, t) => n * t.size(),
      Ty::Struct(ts, p) => {
        let mut o = 0u64;
        for t in ts.iter() {
          if !*p {
            let a = t.align();
            o = (o + a - 1) / a * a;
          }
          o += t.size();
        }
        if !*p {
          let a = self.align();
          o = (o + a - 1) / a * a;
        }
        o
      }
      Ty::Vec(..) => self.store_size().next_power_of_two(),
      Ty::Void | Ty::Other => 0,
    }
  }
  pub fn field(&self, i: usize) -> (u64, Ty) {
    match self {
      Ty::Struct(ts, p) => {
        let mut o = 0u64;
        for (k, t) in ts.iter().enumerate() {
          if !*p {
            let a = t.align();
            o = (o + a - 1) / a * a;
          }
          if k == i {
            return (o, t.clone());
          }
          o += t.size();
        }
        panic!("field")
      }
      Ty::Arr(_, t) => (t.size() * i as u64, (**t).clone()),
      Ty::Vec(_, t) => (t.size() * i as u64, (**t).clone()),
      _ => panic!("field of {:?}", self),
    }
  }
  pub fn bits(&self) -> u16 {
    match self {
      Ty::Int(w) => *w,
      Ty::Ptr | Ty::F64 => 64,
      Ty::F32 => 32,
      Ty::FOther(w) => *w,
      _ => panic!("bits of {:?}", self),
    }
  }
}

/// Constant initialisers.
#[derive(Clone, Debug)]
pub enum K {
  Int(u128, u16),
  Zero(Ty),
  Undef(Ty),
  Bytes(Vec<u8>),
  Agg(Ty, Vec<K>),
  Global(String),
  /// address expression: symbol + offset (as 64 bit), then truncated to width
  Off(Box<K>, i64),
  Cast(Box<K>, u16),
  Sub(Box<K>, Box<K>),
}

#[derive(Clone, Debug)]
pub enum O {
  R(u32),
  K(Rc<K>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
  Add,
  Sub,
  Mul,
  Udiv,
  Sdiv,
  Urem,
  Srem,
  Shl,
  Lshr,
  Ashr,
  And,
  Or,
  Xor,
  Fadd,
  Fsub,
  Fmul,
  Fdiv,
  Frem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum C {
  Eq,
  Ne,
  Ugt,
  Uge,
  Ult,
  Ule,
  Sgt,
  Sge,
  Slt,
  Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
  Trunc,
  Zext,
  Sext,
  PtrToInt,
  IntToPtr,
  Bitcast,
  Sitofp,
  Uitofp,
  Fptosi,
  Fptoui,
  Fpext,
  Fptrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
  Fn(String),
  Ind(O),
  Asm,
}

#[derive(Clone, Debug)]
pub enum I {
  Bin(u32, B, Ty, O, O),
  Fneg(u32, Ty, O),
  Icmp(u32, C, Ty, O, O),
  Fcmp(u32, String, Ty, O, O),
  Cast(u32, Cast, Ty, O, Ty),
  Select(u32, Ty, O, Ty, O, O),
  Load(u32, Ty, O),
  Store(Ty, O, O),
  Gep(u32, O, i64, Vec<(O, Ty, i64)>),
  Alloca(u32, u64, Option<(Ty, O)>),
  Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, O)>, normal: Option<u32> },
  Br(u32),
  CondBr(O, u32, u32),
  Switch(Ty, O, u32, Vec<(u128, u32)>),
  Ret(Option<(Ty, O)>),
  Unreachable,
  ExtractValue(u32, Ty, O, Vec<u32>),
  InsertValue(u32, Ty, O, Ty, O, Vec<u32>),
  ExtractElement(u32, Ty, O, O),
  InsertElement(u32, Ty, O, O, O),
  Shuffle(u32, Ty, O, O, Vec<i32>),
  Freeze(u32, Ty, O),
  AtomicRmw(u32, String, O, Ty, O),
  CmpXchg(u32, O, Ty, O, O),
  Nop,
  Unsupported(String),
}

pub struct Phi {
  pub dst: u32,
  pub ty: Ty,
  pub inc: Vec<(O, u32)>,
}
pub struct Block {
  pub phis: Vec<Phi>,
  pub ins: Vec<I>,
  /// ends in a panic: only panic-like calls then unreachable
  pub panic: bool,
}
pub struct Func {
  pub name: String,
  pub params: Vec<(u32, Ty)>,
  pub ret: Ty,
  pub nregs: u32,
  pub rty: Vec<Ty>,
  pub blocks: Vec<Block>,
}
pub struct GlobalDef {
  pub ty: Ty,
  pub init: Option<K>,
  pub constant: bool,
}

pub struct Module {
  src: String,
  types: HashMap<String, Ty>,
  fsrc: HashMap<String, (usize, usize)>,
  pub gsrc: HashMap<String, (usize, usize)>,
  alias: HashMap<String, String>,
  fcache: HashMap<String, Rc<Func>>,
  gcache: HashMap<String, Rc<GlobalDef>>,
  attrs_noreturn: crate::fx::HashSet<String>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tok<'a> {
  W(&'a str),
  L(&'a str),
  G(&'a str),
  N(&'a str),
  S(&'a str),
  P(char),
  M,
  Nl,
  Eof,
}

struct Lx<'a> {
  s: &'a [u8],
  t: &'a str,
  p: usize,
  peeked: Option<Tok<'a>>,
}

impl<'a> Lx<'a> {
  fn new(t: &'a str) -> Self {
    Lx { s: t.as_bytes(), t, p: 0, peeked: None }
  }
  fn raw(&mut self) -> Tok<'a> {
    let s = self.s;
    loop {
      if self.p >= s.len() {
        return Tok::Eof;
      }
      let c = s[self.p];
      match c {
        b' ' | b'\t' | b'\r' => self.p += 1,
        b'\n' => {
          self.p += 1;
          return Tok::Nl;
        }
        b';' => {
          while self.p < s.len() && s[self.p] != b'\n' {
            self.p += 1;
          }
        }
        b'%' | b'@' => {
          self.p += 1;
          let st;
          let en;
          if s[self.p] == b'"' {
            self.p += 1;
            st = self.p;
            while s[self.p] != b'"' {
              self.p += 1;
            }
            en = self.p;
            self.p += 1;
          } else {
            st = self.p;
            while self.p < s.len() && is_id(s[self.p]) {
              self.p += 1;
            }
            en = self.p;
          }
          let n = &self.t[st..en];
          return if c == b'%' { Tok::L(n) } else { Tok::G(n) };
        }
        b'!' => {
          self.p += 1;
          while self.p < s.len() && is_id(s[self.p]) {
            self.p += 1;
          }
          return Tok::M;
        }
        b'"' => {
          self.p += 1;
          let st = self.p;
          while s[self.p] != b'"' {
            self.p += 1;
          }
          let r = &self.t[st..self.p];
          self.p += 1;
          return Tok::S(r);
        }
        b'#' => {
          self.p += 1;
          while self.p < s.len() && is_id(s[self.p]) {
            self.p += 1;
          }
          // attribute group reference: ignore
        }
        b'0'..=b'9' | b'-' => {
          let st = self.p;
          self.p += 1;
          while self.p < s.len() && (is_id(s[self.p]) || s[self.p] == b'+') {
            self.p += 1;
          }
          return Tok::N(&self.t[st..self.p]);
        }
        _ if is_id(c) => {
          let st = self.p;
          while self.p < s.len() && is_id(s[self.p]) {
            self.p += 1;
          }
          let w = &self.t[st..self.p];
          if w == "c" && self.p < s.len() && s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while s[self.p] != b'"' {
              self.p += 1;
            }
            let r = &self.t[st..self.p];
            self.p += 1;
            return Tok::S(r);
          }
          return Tok::W(w);
        }
        _ => {
          self.p += 1;
          return Tok::P(c as char);
        }
      }
    }
  }
  fn peek(&mut self) -> Tok<'a> {
    if self.peeked.is_none() {
      self.peeked = Some(self.raw());
    }
    self.peeked.unwrap()
  }
  fn next(&mut self) -> Tok<'a> {
    match self.peeked.take() {
      Some(t) => t,
      None => self.raw(),
    }
  }
  fn eat(&mut self, t: Tok) -> bool {
    if self.peek() == t {
      self.next();
      true
    } else {
      false
    }
  }
  fn expect(&mut self, t: Tok) {
    let n = self.next();
    if n != t {
      let a = self.p.saturating_sub(200);
      panic!("IR parse: expected {:?}, got {:?} near ...{}", t, n, &self.t[a..self.p]);
    }
  }
  fn skip_balanced(&mut self) {
    // at '('
    let mut d = 0;
    loop {
      match self.next() {
        Tok::P('(') => d += 1,
        Tok::P(')') => {
          d -= 1;
          if d == 0 {
            return;
          }
        }
        Tok::Eof => return,
        _ => {}
      }
    }
  }
  fn eol(&mut self) {
    loop {
      match self.peek() {
        Tok::Nl | Tok::Eof => return,
        _ => {
          self.next();
        }
      }
    }
  }
}

fn is_id(c: u8) -> bool {
  c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn is_int_ty(w: &str) -> Option<u16> {
  let b = w.as_bytes();
  if b.len() >= 2 && b[0] == b'i' && b[1..].iter().all(|c| c.is_ascii_digit()) {
    w[1..].parse().ok()
  } else {
    None
  }
}

fn unescape(s: &str) -> Vec<u8> {
  let b = s.as_bytes();
  let mut r = Vec::with_capacity(b.len());
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'\\' {
      if b[i + 1] == b'\\' {
        r.push(b'\\');
        i += 2;
      } else {
        r.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
        i += 3;
      }
    } else {
      r.push(b[i]);
      i += 1;
    }
  }
  r
}

fn parse_int(s: &str) -> u128 {
  if let Some(r) = s.strip_prefix('-') {
    (r.parse::<u128>().unwrap()).wrapping_neg()
  } else if let Some(r) = s.strip_prefix("u0x").or_else(|| s.strip_prefix("s0x")) {
    u128::from_str_radix(r, 16).unwrap()
  } else {
    s.parse::<u128>().unwrap_or_else(|_| panic!("int {s}"))
  }
}

struct FnCtx {
  regs: HashMap<String, u32>,
  labels: HashMap<String, u32>,
}
impl FnCtx {
  fn reg(&mut self, n: &str) -> u32 {
    if let Some(&r) = self.regs.get(n) {
      return r;
    }
    let r = self.regs.len() as u32;
    self.regs.insert(n.to_string(), r);
    r
  }
  fn label(&mut self, n: &str) -> u32 {
    if let Some(&r) = self.labels.get(n) {
      return r;
    }
    let r = self.labels.len() as u32;
    self.labels.insert(n.to_string(), r);
    r
  }
}

/// Lookup tables of 32-bit offsets relative to themselves become tables of
/// pointers; llvm.load.relative reads those (eight bytes an entry).
fn plain_tables(src: &mut String) {
  let mut out: Vec<(usize, usize, String)> = vec![];
  let mut pos = 0;
  while let Some(i) = src[pos..].find(".rel = ") {
    let i = pos + i;
    let st = src[..i].rfind('\n').map_or(0, |x| x + 1);
    let en = src[i..].find('\n').map_or(src.len(), |x| i + x);
    pos = en;
    let line = &src[st..en];
    if !line.starts_with('@') || !line.contains("i32 trunc (i64 sub (i64 ptrtoint (ptr @") {
      continue;
    }
    let name = &line[1..line.find(" = ").unwrap()];
    let tail = format!(" to i64), i64 ptrtoint (ptr @{name} to i64)) to i32)");
    let l = line.replace("i32 trunc (i64 sub (i64 ptrtoint (ptr @", "ptr @").replace(&tail, "").replace(" x i32]", " x ptr]");
    out.push((st, en, l));
  }
  for (st, en, l) in out.into_iter().rev() {
    src.replace_range(st..en, &l);
  }
}

impl Module {
  pub fn load(src: String) -> Module {
    let mut m = Module {
      src,
      types: HashMap::default(),
      fsrc: HashMap::default(),
      gsrc: HashMap::default(),
      alias: HashMap::default(),
      fcache: HashMap::default(),
      gcache: HashMap::default(),
      attrs_noreturn: Default::default(),
    };
    let mut src = std::mem::take(&mut m.src);
    plain_tables(&mut src);
    let mut pos = 0;
    let b = src.as_bytes();
    let mut tdefs = vec![];
    while pos < b.len() {
      let end = memchr(b, b'\n', pos);
      let line = &src[pos..end];
      if line.starts_with("define ") {
        // find "\n}\n"
        let mut e = end;
        loop {
          let e2 = memchr(b, b'\n', e + 1);
          if &src[e + 1..e2] == "}" || e2 >= b.len() {
            e = e2;
            break;
          }
          e = e2;
        }
        if let Some(n) = fname(line) {
          m.fsrc.insert(n.to_string(), (pos, e));
        }
        pos = e + 1;
        continue;
      }
      if line.starts_with('@') {
        let mut lx = Lx::new(line);
        if let Tok::G(n) = lx.next() {
          // alias?
          let rest = &line[lx.p..];
          if let Some(i) = rest.find(" alias ") {
            let r = &rest[i..];
            if let Some(k) = r.rfind('@') {
              let mut l2 = Lx::new(&r[k..]);
              if let Tok::G(t) = l2.next() {
                m.alias.insert(n.to_string(), t.to_string());
              }
            }
          } else {
            m.gsrc.insert(n.to_string(), (pos, end));
          }
        }
      } else if line.starts_with('%') {
        tdefs.push((pos, end));
      }
      pos = end + 1;
    }
    m.src = src;
    for (s, e) in tdefs {
      let line = m.src[s..e].to_string();
      let mut lx = Lx::new(&line);
      if let Tok::L(n) = lx.next() {
        let n = n.to_string();
        lx.expect(Tok::P('='));
        lx.expect(Tok::W("type"));
        let t = if lx.peek() == Tok::W("opaque") { Ty::Other } else { m.ty(&mut lx) };
        m.types.insert(n, t);
      }
    }
    m
  }
  pub fn has_fn(&self, n: &str) -> bool {
    self.fsrc.contains_key(self.resolve(n))
  }
  pub fn fn_names(&self) -> impl Iterator<Item = &String> {
    self.fsrc.keys()
  }
  pub fn resolve<'a>(&'a self, n: &'a str) -> &'a str {
    let mut n = n;
    while let Some(t) = self.alias.get(n) {
      n = t;
    }
    n
  }
  fn is_ty_start(&self, t: Tok) -> bool {
    match t {
      Tok::W(w) => {
        is_int_ty(w).is_some()
          || matches!(w, "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "bfloat" | "metadata" | "label" | "token")
      }
      Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
      Tok::L(n) => self.types.contains_key(n),
      _ => false,
    }
  }
  fn ty(&self, lx: &mut Lx) -> Ty {
    match lx.next() {
      Tok::W(w) => {
        if let Some(n) = is_int_ty(w) {
          return Ty::Int(n);
        }
        match w {
          "ptr" => {
            if lx.peek() == Tok::W("addrspace") {
              lx.next();
              lx.skip_balanced();
            }
            Ty::Ptr
          }
          "float" => Ty::F32,
          "double" => Ty::F64,
          "half" | "bfloat" => Ty::FOther(16),
          "fp128" => Ty::FOther(128),
          "x86_fp80" => Ty::FOther(80),
          "void" => Ty::Void,
          "metadata" | "label" | "token" => Ty::Other,
          _ => panic!("IR type word {w}"),
        }
      }
      Tok::P('[') => {
        let n = match lx.next() {
          Tok::N(n) => n.parse().unwrap(),
          t => panic!("arr {:?}", t),
        };
        lx.expect(Tok::W("x"));
        let t = self.ty(lx);
        lx.expect(Tok::P(']'));
        Ty::Arr(n, Rc::new(t))
      }
      Tok::P('{') => {
        let ts = self.ty_list(lx, '}');
        Ty::Struct(Rc::new(ts), false)
      }
      Tok::P('<') => {
        if lx.peek() == Tok::P('{') {
          lx.next();
          let ts = self.ty_list(lx, '}');
          lx.expect(Tok::P('>'));
          return Ty::Struct(Rc::new(ts), true);
        }
        let n = match lx.next() {
          Tok::N(n) => n.parse().unwrap(),
          t => panic!("vec {:?}", t),
        };
        lx.expect(Tok::W("x"));
        let t = self.ty(lx);
        lx.expect(Tok::P('>'));
        Ty::Vec(n, Rc::new(t))
      }
      Tok::L(n) => self.types.get(n).cloned().unwrap_or(Ty::Other),
      t => {
        let a = lx.p.saturating_sub(200);
        panic!("IR type token {:?} near {}", t, &lx.t[a..lx.p])
      }
    }
  }
  fn ty_list(&self, lx: &mut Lx, close: char) -> Vec<Ty> {
    let mut v = vec![];
    if lx.eat(Tok::P(close)) {
      return v;
    }
    loop {
      v.push(self.ty(lx));
      if lx.eat(Tok::P(',')) {
        continue;
      }
      lx.expect(Tok::P(close));
      return v;
    }
  }
  fn float_const(&self, s: &str, ty: &Ty) -> K {
    let v: f64 = if let Some(h) = s.strip_prefix("0x") {
      f64::from_bits(u64::from_str_radix(h, 16).unwrap())
    } else if let Some(h) = s.strip_prefix("f0x") {
      let bits = u128::from_str_radix(h, 16).unwrap();
      return K::Int(bits, ty.bits());
    } else {
      s.parse().unwrap()
    };
    match ty {
      Ty::F32 => K::Int((v as f32).to_bits() as u128, 32),
      _ => K::Int(v.to_bits() as u128, 64),
    }
  }
  /// Parse a constant of the given type.
  fn konst(&self, lx: &mut Lx, ty: &Ty) -> K {
    match lx.next() {
      Tok::N(s) => match ty {
        Ty::Int(w) => K::Int(parse_int(s) & crate::term::mask(*w), *w),
        _ => self.float_const(s, ty),
      },
      Tok::G(n) => K::Global(n.to_string()),
      Tok::S(s) => K::Bytes(unescape(s)),
      Tok::P('{') => {
        let v = self.konst_list(lx, '}');
        K::Agg(ty.clone(), v)
      }
      Tok::P('[') => {
        let v = self.konst_list(lx, ']');
        K::Agg(ty.clone(), v)
      }
      Tok::P('<') => {
        if lx.peek() == Tok::P('{') {
          lx.next();
          let v = self.konst_list(lx, '}');
          lx.expect(Tok::P('>'));
          return K::Agg(ty.clone(), v);
        }
        let v = self.konst_list(lx, '>');
        K::Agg(ty.clone(), v)
      }
      Tok::W(w) => match w {
        "true" => K::Int(1, 1),
        "false" => K::Int(0, 1),
        "null" => K::Int(0, 64),
        "zeroinitializer" | "none" => K::Zero(ty.clone()),
        "undef" | "poison" => K::Undef(ty.clone()),
        "splat" => {
          lx.expect(Tok::P('('));
          let t = self.ty(lx);
          let k = self.konst(lx, &t);
          lx.expect(Tok::P(')'));
          match ty {
            Ty::Vec(n, _) | Ty::Arr(n, _) => K::Agg(ty.clone(), vec![k; *n as usize]),
            _ => panic!("splat"),
          }
        }
        "getelementptr" => {
          while let Tok::W(_) = lx.peek() {
            lx.next();
            if lx.peek() == Tok::P('(') {
              // inrange(...) or the operand list itself
              let save = (lx.p, lx.peeked);
              lx.next();
              let t = lx.peek();
              lx.p = save.0;
              lx.peeked = save.1;
              if let Tok::N(_) = t {
                lx.skip_balanced();
              }
            }
          }
          lx.expect(Tok::P('('));
          let sty = self.ty(lx);
          lx.expect(Tok::P(','));
          let pt = self.ty(lx);
          let base = self.konst(lx, &pt);
          let mut off: i64 = 0;
          let mut cur = sty;
          let mut first = true;
          while lx.eat(Tok::P(',')) {
            let it = self.ty(lx);
            let k = match self.konst(lx, &it) {
              K::Int(v, w) => crate::term::sx(v, w) as i64,
              k => panic!("gep const index {:?}", k),
            };
            if first {
              off += k * cur.size() as i64;
              first = false;
            } else {
              let (o, t) = match &cur {
                Ty::Struct(..) => cur.field(k as usize),
                Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size().wrapping_mul(k as u64), (**t).clone()),
                _ => panic!("gep"),
              };
              off += o as i64;
              cur = t;
            }
          }
          lx.expect(Tok::P(')'));
          K::Off(Box::new(base), off)
        }
        "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
          lx.expect(Tok::P('('));
          let t = self.ty(lx);
          let k = self.konst(lx, &t);
          lx.expect(Tok::W("to"));
          let t2 = self.ty(lx);
          lx.expect(Tok::P(')'));
          let w2 = match &t2 {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => return k,
          };
          K::Cast(Box::new(k), w2)
        }
        "sub" | "add" => {
          while let Tok::W(_) = lx.peek() {
            lx.next();
          }
          lx.expect(Tok::P('('));
          let t = self.ty(lx);
          let a = self.konst(lx, &t);
          lx.expect(Tok::P(','));
          let t = self.ty(lx);
          let b = self.konst(lx, &t);
          lx.expect(Tok::P(')'));
          if w == "sub" {
            K::Sub(Box::new(a), Box::new(b))
          } else {
            match b {
              K::Int(v, w) => K::Off(Box::new(a), crate::term::sx(v, w) as i64),
              _ => panic!("const add"),
            }
          }
        }
        _ if w.starts_with("f0x") => self.float_const(w, ty),
        _ => {
          let a = lx.p.saturating_sub(200);
          panic!("IR constant word {w} near {}", &lx.t[a..lx.p])
        }
      },
      t => {
        let a = lx.p.saturating_sub(200);
        panic!("IR constant {:?} near {}", t, &lx.t[a..lx.p])
      }
    }
  }
  fn konst_list(&self, lx: &mut Lx, close: char) -> Vec<K> {
    let mut v = vec![];
    if lx.eat(Tok::P(close)) {
      return v;
    }
    loop {
      let t = self.ty(lx);
      v.push(self.konst(lx, &t));
      if lx.eat(Tok::P(',')) {
        continue;
      }
      lx.expect(Tok::P(close));
      return v;
    }
  }
  pub fn global(&mut self, name: &str) -> Option<Rc<GlobalDef>> {
    let name = self.resolve(name).to_string();
    if let Some(g) = self.gcache.get(&name) {
      return Some(g.clone());
    }
    let (s, e) = *self.gsrc.get(&name)?;
    let line = &self.src[s..e];
    let mut lx = Lx::new(line);
    lx.next();
    lx.expect(Tok::P('='));
    let mut ext = false;
    let constant;
    loop {
      match lx.next() {
        Tok::W("constant") => {
          constant = true;
          break;
        }
        Tok::W("global") => {
          constant = false;
          break;
        }
        Tok::W("external") | Tok::W("extern_weak") => ext = true,
        Tok::W(_) => {
          if lx.peek() == Tok::P('(') {
            lx.skip_balanced();
          }
        }
        t => panic!("global {name}: {:?}", t),
      }
    }
    let ty = self.ty(&mut lx);
    let init = if ext { None } else { Some(self.konst(&mut lx, &ty)) };
    let g = Rc::new(GlobalDef { ty, init, constant });
    self.gcache.insert(name, g.clone());
    Some(g)
  }
  pub fn func(&mut self, name: &str) -> Option<Rc<Func>> {
    let name = self.resolve(name).to_string();
    if let Some(f) = self.fcache.get(&name) {
      return Some(f.clone());
    }
    let (s, e) = *self.fsrc.get(&name)?;
    let src = std::mem::take(&mut self.src);
    let f = Rc::new(self.parse_fn(&name, &src[s..e]));
    self.src = src;
    self.fcache.insert(name, f.clone());
    Some(f)
  }
  fn op(&self, lx: &mut Lx, fx: &mut FnCtx, ty: &Ty) -> O {
    if let Tok::L(n) = lx.peek() {
      lx.next();
      return O::R(fx.reg(n));
    }
    O::K(Rc::new(self.konst(lx, ty)))
  }
  fn tyop(&self, lx: &mut Lx, fx: &mut FnCtx) -> (Ty, O) {
    let t = self.ty(lx);
    let o = self.op(lx, fx, &t);
    (t, o)
  }
  fn parse_fn(&self, name: &str, text: &str) -> Func {
    let mut lx = Lx::new(text);
    let mut fx = FnCtx { regs: HashMap::default(), labels: HashMap::default() };
    lx.expect(Tok::W("define"));
    // linkage, cc, attributes
    while !self.is_ty_start(lx.peek()) {
      lx.next();
      if lx.peek() == Tok::P('(') {
        lx.skip_balanced();
      }
      if let Tok::N(_) = lx.peek() {
        lx.next();
      }
    }
    let ret = self.ty(&mut lx);
    match lx.next() {
      Tok::G(_) => {}
      t => panic!("fn name {:?}", t),
    }
    lx.expect(Tok::P('('));
    let mut params = vec![];
    let mut unnamed = 0;
    loop {
      if lx.eat(Tok::P(')')) {
        break;
      }
      if lx.eat(Tok::P(',')) {
        continue;
      }
      if lx.eat(Tok::P('.')) || lx.eat(Tok::W("...")) {
        continue;
      }
      let t = self.ty(&mut lx);
      loop {
        match lx.peek() {
          Tok::L(n) => {
            lx.next();
            if n.bytes().all(|c| c.is_ascii_digit()) {
              unnamed += 1;
            }
            params.push((fx.reg(n), t.clone()));
            break;
          }
          Tok::P(',') | Tok::P(')') => {
            params.push((fx.reg(&unnamed.to_string()), t.clone()));
            unnamed += 1;
            break;
          }
          Tok::P('(') => lx.skip_balanced(),
          _ => {
            lx.next();
          }
        }
      }
    }
    // skip to end of the define line
    lx.eol();
    lx.next();
    let mut blocks: Vec<(u32, Block)> = vec![];
    let mut cur = Block { phis: vec![], ins: vec![], panic: false };
    let mut cur_label: Option<u32> = None;
    let mut started = false;
    loop {
      match lx.peek() {
        Tok::Eof => break,
        Tok::Nl => {
          lx.next();
          continue;
        }
        Tok::P('}') => break,
        _ => {}
      }
      // label?
      {
        let save = (lx.p, lx.peeked);
        let t = lx.next();
        let lab = match t {
          Tok::W(w) | Tok::N(w) | Tok::S(w) => Some(w),
          _ => None,
        };
        if let Some(w) = lab {
          if lx.peek() == Tok::P(':') {
            lx.next();
            lx.eol();
            if started {
              blocks.push((cur_label.unwrap(), std::mem::replace(&mut cur, Block { phis: vec![], ins: vec![], panic: false })));
            }
            cur_label = Some(fx.label(w));
            started = true;
            continue;
          }
        }
        lx.p = save.0;
        lx.peeked = save.1;
      }
      if !started {
        started = true;
        cur_label = Some(fx.label(&unnamed.to_string()));
      }
      self.instr(&mut lx, &mut fx, &mut cur);
    }
    if started {
      blocks.push((cur_label.unwrap(), cur));
    }
    let entry = blocks[0].0;
    let n = fx.labels.len();
    let mut out: Vec<Option<Block>> = (0..n).map(|_| None).collect();
    for (l, b) in blocks {
      out[l as usize] = Some(b);
    }
    // entry must be index 0: labels are numbered in order of first mention,
    // and the entry label is always created first.
    assert_eq!(entry, 0);
    let mut blocks: Vec<Block> =
      out.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], ins: vec![I::Unsupported("missing block".into())], panic: false })).collect();
    // panic blocks
    for b in &mut blocks {
      let mut p = false;
      if matches!(b.ins.last(), Some(I::Unreachable)) {
        p = true;
        let mut saw = false;
        for i in &b.ins {
          match i {
            I::Call { callee: Callee::Fn(n), .. } => {
              if is_panic_fn(n) {
                saw = true;
              } else if !n.starts_with("llvm.") {
                p = false;
              }
            }
            I::Call { .. } => p = false,
            _ => {}
          }
        }
        p = p && saw;
      }
      b.panic = p;
    }
    let mut rty = vec![Ty::Other; fx.regs.len()];
    {
      let mut set = |d: u32, t: Ty| {
        if d != u32::MAX {
          rty[d as usize] = t;
        }
      };
      for (r, t) in &params {
        set(*r, t.clone());
      }
      for b in &blocks {
        for p in &b.phis {
          set(p.dst, p.ty.clone());
        }
        for i in &b.ins {
          match i {
            I::Bin(d, _, t, ..) | I::Fneg(d, t, _) | I::Load(d, t, _) | I::Cast(d, _, _, _, t) | I::Select(d, _, _, t, ..) | I::Freeze(d, t, _) | I::InsertValue(d, t, ..) | I::InsertElement(d, t, ..) | I::AtomicRmw(d, _, _, t, _) | I::ExtractValue(d, t, ..) => set(*d, t.clone()),
            I::Icmp(d, _, t, ..) | I::Fcmp(d, _, t, ..) => set(
              *d,
              match t {
                Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::Int(1))),
                _ => Ty::Int(1),
              },
            ),
            I::Gep(d, ..) | I::Alloca(d, ..) => set(*d, Ty::Ptr),
            I::Call { dst: Some(d), ret, .. } => set(*d, ret.clone()),
            I::ExtractElement(d, t, ..) => {
              if let Ty::Vec(_, e) = t {
                set(*d, (**e).clone())
              }
            }
            I::Shuffle(d, t, _, _, m) => {
              if let Ty::Vec(_, e) = t {
                set(*d, Ty::Vec(m.len() as u64, e.clone()))
              }
            }
            I::CmpXchg(d, _, t, ..) => set(*d, Ty::Struct(Rc::new(vec![t.clone(), Ty::Int(1)]), false)),
            _ => {}
          }
        }
      }
    }
    Func { name: name.to_string(), params, ret, nregs: fx.regs.len() as u32, rty, blocks }
  }
  fn instr(&self, lx: &mut Lx, fx: &mut FnCtx, b: &mut Block) {
    let mut dst = None;
    if let Tok::L(n) = lx.peek() {
      lx.next();
      dst = Some(fx.reg(n));
      lx.expect(Tok::P('='));
    }
    let w = match lx.next() {
      Tok::W(w) => w,
      Tok::P('#') => {
        lx.eol();
        return;
      }
      t => {
        let a = lx.p.saturating_sub(200);
        panic!("IR instr {:?} near {}", t, &lx.t[a..lx.p])
      }
    };
    let d = dst.unwrap_or(u32::MAX);
    macro_rules! push {
      ($i:expr) => {{
        let i = $i;
        b.ins.push(i);
        lx.eol();
        return;
      }};
    }
    let binop = match w {
      "add" => Some(B::Add),
      "sub" => Some(B::Sub),
      "mul" => Some(B::Mul),
      "udiv" => Some(B::Udiv),
      "sdiv" => Some(B::Sdiv),
      "urem" => Some(B::Urem),
      "srem" => Some(B::Srem),
      "shl" => Some(B::Shl),
      "lshr" => Some(B::Lshr),
      "ashr" => Some(B::Ashr),
      "and" => Some(B::And),
      "or" => Some(B::Or),
      "xor" => Some(B::Xor),
      "fadd" => Some(B::Fadd),
      "fsub" => Some(B::Fsub),
      "fmul" => Some(B::Fmul),
      "fdiv" => Some(B::Fdiv),
      "frem" => Some(B::Frem),
      _ => None,
    };
    if let Some(op) = binop {
      while !self.is_ty_start(lx.peek()) {
        lx.next();
      }
      let (t, x) = self.tyop(lx, fx);
      lx.expect(Tok::P(','));
      let y = self.op(lx, fx, &t);
      push!(I::Bin(d, op, t, x, y));
    }
    let cast = match w {
      "trunc" => Some(Cast::Trunc),
      "zext" => Some(Cast::Zext),
      "sext" => Some(Cast::Sext),
      "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt),
      "inttoptr" => Some(Cast::IntToPtr),
      "bitcast" => Some(Cast::Bitcast),
      "sitofp" => Some(Cast::Sitofp),
      "uitofp" => Some(Cast::Uitofp),
      "fptosi" => Some(Cast::Fptosi),
      "fptoui" => Some(Cast::Fptoui),
      "fpext" => Some(Cast::Fpext),
      "fptrunc" => Some(Cast::Fptrunc),
      _ => None,
    };
    if let Some(c) = cast {
      while !self.is_ty_start(lx.peek()) {
        lx.next();
      }
      let (t, x) = self.tyop(lx, fx);
      lx.expect(Tok::W("to"));
      let t2 = self.ty(lx);
      push!(I::Cast(d, c, t, x, t2));
    }
    match w {
      "icmp" => {
        let mut p;
        loop {
          p = match lx.next() {
            Tok::W("eq") => C::Eq,
            Tok::W("ne") => C::Ne,
            Tok::W("ugt") => C::Ugt,
            Tok::W("uge") => C::Uge,
            Tok::W("ult") => C::Ult,
            Tok::W("ule") => C::Ule,
            Tok::W("sgt") => C::Sgt,
            Tok::W("sge") => C::Sge,
            Tok::W("slt") => C::Slt,
            Tok::W("sle") => C::Sle,
            _ => continue,
          };
          break;
        }
        let _ = &mut p;
        let (t, x) = self.tyop(lx, fx);
        lx.expect(Tok::P(','));
        let y = self.op(lx, fx, &t);
        push!(I::Icmp(d, p, t, x, y));
      }
      "fcmp" => {
        let mut pred = String::new();
        while !self.is_ty_start(lx.peek()) {
          if let Tok::W(x) = lx.next() {
            pred = x.to_string();
          }
        }
        let (t, x) = self.tyop(lx, fx);
        lx.expect(Tok::P(','));
        let y = self.op(lx, fx, &t);
        push!(I::Fcmp(d, pred, t, x, y));
      }
      "fneg" => {
        while !self.is_ty_start(lx.peek()) {
          lx.next();
        }
        let (t, x) = self.tyop(lx, fx);
        push!(I::Fneg(d, t, x));
      }
      "select" => {
        while !self.is_ty_start(lx.peek()) {
          lx.next();
        }
        let (ct, c) = self.tyop(lx, fx);
        lx.expect(Tok::P(','));
        let (t, x) = self.tyop(lx, fx);
        lx.expect(Tok::P(','));
        let (_, y) = self.tyop(lx, fx);
        push!(I::Select(d, ct, c, t, x, y));
      }
      "load" => {
        while !self.is_ty_start(lx.peek()) {
          lx.next();
        }
        let t = self.ty(lx);
        lx.expect(Tok::P(','));
        let (_, p) = self.tyop(lx, fx);
        push!(I::Load(d, t, p));
      }
      "store" => {
        while !self.is_ty_start(lx.peek()) {
          lx.next();
        }
        let (t, v) = self.tyop(lx, fx);
        lx.expect(Tok::P(','));
        let (_, p) = self.tyop(lx, fx);
        push!(I::Store(t, v, p));
      }
      "getelementptr" => {
        while !self.is_ty_start(lx.peek()) {
          lx.next();
          if lx.peek() == Tok::P('(') {
            lx.skip_balanced();
          }
        }
        let sty = self.ty(lx);
        lx.expect(Tok::P(','));
        let (bt, base) = self.tyop(lx, fx);
        if matches!(bt, Ty::Vec(..)) {
          push!(I::Unsupported("vector gep".into()));
        }
        let mut off = 0i64;
        let mut dynv = vec![];
        let mut cur = sty;
        let mut first = true;
        while lx.eat(Tok::P(',')) {
          if lx.peek() == Tok::M {
            break;
          }
          let (it, o) = self.tyop(lx, fx);
          let kc = match &o {
            O::K(k) => match &**k {
              K::Int(v, w) => Some(crate::term::sx(*v, *w) as i64),
              K::Zero(_) => Some(0),
              _ => None,
            },
            _ => None,
          };
          let (stride, next) = if first {
            first = false;
            (cur.size() as i64, cur.clone())
          } else {
            match &cur {
              Ty::Struct(..) => {
                let k = kc.expect("struct gep index");
                let (o, t) = cur.field(k as usize);
                off += o as i64;
                cur = t;
                continue;
              }
              Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() as i64, (**t).clone()),
              _ => panic!("gep into {:?}", cur),
            }
          };
          match kc {
            Some(k) => off = off.wrapping_add(k.wrapping_mul(stride)),
            None => dynv.push((o, it, stride)),
          }
          cur = next;
        }
        push!(I::Gep(d, base, off, dynv));
      }
      "alloca" => {
        while !self.is_ty_start(lx.peek()) {
          lx.next();
        }
        let t = self.ty(lx);
        let mut n = None;
        if lx.eat(Tok::P(',')) {
          if self.is_ty_start(lx.peek()) {
            n = Some(self.tyop(lx, fx));
          }
        }
        push!(I::Alloca(d, t.size(), n));
      }
      "phi" => {
        while !self.is_ty_start(lx.peek()) {
          lx.next();
        }
        let t = self.ty(lx);
        let mut inc = vec![];
        loop {
          lx.expect(Tok::P('['));
          let o = self.op(lx, fx, &t);
          lx.expect(Tok::P(','));
          let l = match lx.next() {
            Tok::L(n) => fx.label(n),
            t => panic!("phi {:?}", t),
          };
          lx.expect(Tok::P(']'));
          inc.push((o, l));
          if lx.peek() == Tok::P(',') {
            lx.next();
            if lx.peek() == Tok::P('[') {
              continue;
            }
          }
          break;
        }
        b.phis.push(Phi { dst: d, ty: t, inc });
        lx.eol();
      }
      "br" => {
        if lx.peek() == Tok::W("label") {
          lx.next();
          let l = match lx.next() {
            Tok::L(n) => fx.label(n),
            t => panic!("br {:?}", t),
          };
          push!(I::Br(l));
        }
        let (_, c) = self.tyop(lx, fx);
        let mut ls = vec![];
        for _ in 0..2 {
          lx.expect(Tok::P(','));
          lx.expect(Tok::W("label"));
          ls.push(match lx.next() {
            Tok::L(n) => fx.label(n),
            t => panic!("br {:?}", t),
          });
        }
        push!(I::CondBr(c, ls[0], ls[1]));
      }
      "switch" => {
        let (t, v) = self.tyop(lx, fx);
        lx.expect(Tok::P(','));
        lx.expect(Tok::W("label"));
        let d0 = match lx.next() {
          Tok::L(n) => fx.label(n),
          t => panic!("switch {:?}", t),
        };
        lx.expect(Tok::P('['));
        let mut cs = vec![];
        loop {
          match lx.peek() {
            Tok::Nl => {
              lx.next();
            }
            Tok::P(']') => {
              lx.next();
              break;
            }
            _ => {
              let t = self.ty(lx);
              let k = match self.konst(lx, &t) {
                K::Int(v, _) => v,
                k => panic!("switch case {:?}", k),
              };
              lx.expect(Tok::P(','));
              lx.expect(Tok::W("label"));
              let l = match lx.next() {
                Tok::L(n) => fx.label(n),
                t => panic!("switch {:?}", t),
              };
              cs.push((k, l));
            }
          }
        }
        push!(I::Switch(t, v, d0, cs));
      }
      "ret" => {
        let t = self.ty(lx);
        if t == Ty::Void {
          push!(I::Ret(None));
        }
        let o = self.op(lx, fx, &t);
        push!(I::Ret(Some((t, o))));
      }
      "unreachable" => push!(I::Unreachable),
      "resume" => push!(I::Unreachable),
      "fence" => push!(I::Nop),
      "landingpad" => {
        lx.eol();
        // clauses on following lines
        loop {
          let save = (lx.p, lx.peeked);
          lx.next();
          match lx.peek() {
            Tok::W("cleanup") | Tok::W("filter") | Tok::W("catch") => {
              lx.eol();
            }
            _ => {
              lx.p = save.0;
              lx.peeked = save.1;
              break;
            }
          }
        }
        b.ins.push(I::Unsupported("landingpad".into()));
      }
      "freeze" => {
        let (t, x) = self.tyop(lx, fx);
        push!(I::Freeze(d, t, x));
      }
      "extractvalue" => {
        let (t, x) = self.tyop(lx, fx);
        let mut ix: Vec<u32> = vec![];
        while lx.eat(Tok::P(',')) {
          match lx.peek() {
            Tok::N(n) => {
              lx.next();
              ix.push(n.parse().unwrap());
            }
            _ => break,
          }
        }
        let mut rt = t;
        for &i in &ix {
          rt = match &rt {
            Ty::Struct(ts, _) => ts[i as usize].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("extractvalue"),
          };
        }
        push!(I::ExtractValue(d, rt, x, ix));
      }
      "insertvalue" => {
        let (t, x) = self.tyop(lx, fx);
        lx.expect(Tok::P(','));
        let (t2, y) = self.tyop(lx, fx);
        let mut ix = vec![];
        while lx.eat(Tok::P(',')) {
          match lx.peek() {
            Tok::N(n) => {
              lx.next();
              ix.push(n.parse().unwrap());
            }
            _ => break,
          }
        }
        push!(I::InsertValue(d, t, x, t2, y, ix));
      }
      "extractelement" => {
        let (t, x) = self.tyop(lx, fx);
        lx.expect(Tok::P(','));
        let (_, i) = self.tyop(lx, fx);
        push!(I::ExtractElement(d, t, x, i));
      }
      "insertelement" => {
        let (t, x) = self.tyop(lx, fx);
        lx.expect(Tok::P(','));
        let (_, v) = self.tyop(lx, fx);
        lx.expect(Tok::P(','));
        let (_, i) = self.tyop(lx, fx);
        push!(I::InsertElement(d, t, x, v, i));
      }
      "shufflevector" => {
        let (t, x) = self.tyop(lx, fx);
        lx.expect(Tok::P(','));
        let (_, y) = self.tyop(lx, fx);
        lx.expect(Tok::P(','));
        let mt = self.ty(lx);
        let k = self.konst(lx, &mt);
        let n = match &mt {
          Ty::Vec(n, _) => *n as usize,
          _ => 0,
        };
        let mask: Vec<i32> = match k {
          K::Agg(_, v) => v
            .iter()
            .map(|k| match k {
              K::Int(v, _) => *v as i32,
              _ => -1,
            })
            .collect(),
          K::Zero(_) => vec![0; n],
          _ => vec![-1; n],
        };
        push!(I::Shuffle(d, t, x, y, mask));
      }
      "atomicrmw" => {
        let mut op = String::new();
        while !self.is_ty_start(lx.peek()) {
          if let Tok::W(x) = lx.next() {
            if x != "volatile" {
              op = x.to_string();
            }
          }
        }
        let (_, p) = self.tyop(lx, fx);
        lx.expect(Tok::P(','));
        let (t, v) = self.tyop(lx, fx);
        push!(I::AtomicRmw(d, op, p, t, v));
      }
      "cmpxchg" => {
        while !self.is_ty_start(lx.peek()) {
          lx.next();
        }
        let (_, p) = self.tyop(lx, fx);
        lx.expect(Tok::P(','));
        let (t, c) = self.tyop(lx, fx);
        lx.expect(Tok::P(','));
        let (_, n) = self.tyop(lx, fx);
        push!(I::CmpXchg(d, p, t, c, n));
      }
      "tail" | "musttail" | "notail" | "call" | "invoke" => {
        let invoke = w == "invoke";
        if !invoke && w != "call" {
          lx.expect(Tok::W("call"));
        }
        while !self.is_ty_start(lx.peek()) {
          lx.next();
          if lx.peek() == Tok::P('(') {
            lx.skip_balanced();
          }
          if let Tok::N(_) = lx.peek() {
            lx.next();
          }
        }
        let ret = self.ty(lx);
        if lx.peek() == Tok::P('(') {
          lx.skip_balanced();
        }
        let callee = match lx.peek() {
          Tok::G(n) => {
            lx.next();
            Callee::Fn(n.to_string())
          }
          Tok::L(n) => {
            lx.next();
            Callee::Ind(O::R(fx.reg(n)))
          }
          Tok::W("asm") => {
            while lx.peek() != Tok::P('(') {
              lx.next();
            }
            Callee::Asm
          }
          _ => Callee::Ind(O::K(Rc::new(self.konst(lx, &Ty::Ptr)))),
        };
        lx.expect(Tok::P('('));
        let mut args = vec![];
        loop {
          if lx.eat(Tok::P(')')) {
            break;
          }
          if lx.eat(Tok::P(',')) {
            continue;
          }
          let t = self.ty(lx);
          if t == Ty::Other {
            // metadata operand
            let mut depth = 0;
            loop {
              match lx.peek() {
                Tok::P('(') | Tok::P('{') => {
                  depth += 1;
                  lx.next();
                }
                Tok::P(')') | Tok::P('}') if depth > 0 => {
                  depth -= 1;
                  lx.next();
                }
                Tok::P(',') if depth > 0 => {
                  lx.next();
                }
                Tok::P(',') | Tok::P(')') => break,
                _ => {
                  lx.next();
                }
              }
            }
            args.push((t, O::K(Rc::new(K::Int(0, 1)))));
            continue;
          }
          // parameter attributes
          loop {
            match lx.peek() {
              Tok::W(
                "true" | "false" | "null" | "zeroinitializer" | "undef" | "poison" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat"
                | "bitcast" | "sub" | "add" | "trunc" | "none" | "zext" | "ptrtoaddr",
              ) => break,
              Tok::W(x) if x.starts_with("f0x") => break,
              Tok::W("align") => {
                lx.next();
                lx.next();
              }
              Tok::W(_) => {
                lx.next();
                if lx.peek() == Tok::P('(') {
                  lx.skip_balanced();
                }
              }
              Tok::S(_) if matches!(t, Ty::Ptr | Ty::Int(_)) => {
                lx.next();
                if lx.eat(Tok::P('=')) {
                  lx.next();
                }
              }
              _ => break,
            }
          }
          let o = self.op(lx, fx, &t);
          args.push((t, o));
        }
        let mut normal = None;
        if invoke {
          loop {
            match lx.next() {
              Tok::W("to") => {
                if lx.peek() == Tok::W("label") {
                  break;
                }
              }
              Tok::Eof => panic!("invoke"),
              _ => {}
            }
          }
          lx.next();
          match lx.next() {
            Tok::L(n) => normal = Some(fx.label(n)),
            t => panic!("invoke {:?}", t),
          }
        }
        push!(I::Call { dst, ret, callee, args, normal });
      }
      _ => push!(I::Unsupported(w.to_string())),
    }
  }
}

pub fn is_panic_fn(n: &str) -> bool {
  n.contains("9panicking") || n == "rvsym_fail" || n.contains("4core6option13expect_failed") || n.contains("4core6result13unwrap_failed") || n.contains("4core6option13unwrap_failed")
    || n.contains("slice_index_fail") || n.contains("slice5index") && n.contains("fail")
    || n.contains("17len_mismatch_fail") || n.contains("copy_from_slice") && n.contains("fail")
    || n.contains("4core4cell") && n.contains("panic_")
    || n.contains("assert_failed") || n.contains("3str16slice_error_fail")
    || n.contains("7raw_vec12handle_error") || n.contains("7raw_vec17capacity_overflow") || n.contains("handle_alloc_error")
    || n.contains("swap_remove13assert") || n.contains("6remove13assert") || n.contains("insert13assert") || n.contains("split_off13assert")
    || n == "abort" || n == "llvm.trap"
}

fn fname(line: &str) -> Option<&str> {
  let i = line.find('@')?;
  let r = &line[i + 1..];
  if let Some(q) = r.strip_prefix('"') {
    return Some(&q[..q.find('"')?]);
  }
  let e = r.find('(')?;
  Some(&r[..e])
}

fn memchr(b: &[u8], c: u8, from: usize) -> usize {
  let mut i = from;
  while i < b.len() && b[i] != c {
    i += 1;
  }
  i
}
