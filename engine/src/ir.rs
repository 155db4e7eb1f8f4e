//! Parser for the textual LLVM IR that rustc + llvm-link produce.
use crate::val::V;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Float(u32),
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Float(_) | Ty::Ptr)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) | Ty::Float(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) | Ty::Float(w) => ((*w as u64) + 7) / 8,
            Ty::Vec(n, t) => (n * t.width() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Ptr => 8,
            Ty::Int(_) | Ty::Float(_) => align_up(self.store_size(), self.align()),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => align_up(self.store_size(), self.align()),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts.iter() {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of scalar {self:?}"),
        }
    }
    pub fn nelems(&self) -> u64 {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            Ty::Struct(ts, _) => ts.len() as u64,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Local(String),
    Global(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Meta(String),
    Attr(String),
    P(char),
}

fn is_idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap_or("");
            if let Ok(v) = u8::from_str_radix(h, 16) {
                o.push(v);
                i += 3;
                continue;
            }
        }
        if s[i] == b'\\' && s.get(i + 1) == Some(&b'\\') {
            i += 1;
        }
        o.push(s[i]);
        i += 1;
    }
    o
}

pub fn tokenize(line: &str) -> Vec<Tok> {
    let b = line.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(16);
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => i += 1,
            b';' => break,
            b'"' => {
                let s = i + 1;
                let mut j = s;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(unescape(&b[s..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let s = i + 2;
                let mut j = s;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::CStr(unescape(&b[s..j])));
                i = j + 1;
            }
            b'%' | b'@' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let s = i + 2;
                    let mut j = s;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&b[s..j]).to_string();
                    i = j + 1;
                } else {
                    let s = i + 1;
                    let mut j = s;
                    while j < b.len() && is_idc(b[j]) {
                        j += 1;
                    }
                    name = line[s..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'!' => {
                let s = i + 1;
                let mut j = s;
                while j < b.len() && is_idc(b[j]) {
                    j += 1;
                }
                out.push(Tok::Meta(line[s..j].to_string()));
                i = j;
            }
            b'#' => {
                let s = i + 1;
                let mut j = s;
                while j < b.len() && is_idc(b[j]) {
                    j += 1;
                }
                out.push(Tok::Attr(line[s..j].to_string()));
                i = j;
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let s = i;
                let mut j = i + 1;
                while j < b.len() && (is_idc(b[j]) || (b[j] == b'+' && (b[j - 1] == b'e' || b[j-1] == b'E'))) {
                    j += 1;
                }
                out.push(Tok::Num(line[s..j].to_string()));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let s = i;
                let mut j = i + 1;
                while j < b.len() && is_idc(b[j]) {
                    j += 1;
                }
                out.push(Tok::Id(line[s..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    V(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, Bit }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp { Xchg, Add, Sub, And, Or, Xor, UMax, UMin, Max, Min }

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Op),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<(Ty, Op)>,
    pub ret: Ty,
    pub invoke: Option<(u32, u32)>,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, Ty, Op, Op),
    FBin(String, Ty, Op, Op),
    FCmp(String, Ty, Op, Op),
    FNeg(Ty, Op),
    ICmp(Pred, Ty, Op, Op),
    Select(Ty, Ty, Op, Op, Op), // cond ty, val ty
    Load(Ty, Op, u64),
    Store(Ty, Op, Op, u64),
    Gep(Op, i64, Vec<(Op, u32, i64)>),
    Cast(CastOp, Ty, Ty, Op),
    FCast(String, Ty, Ty, Op),
    Call(Box<CallI>),
    ExtractValue(Op, Vec<u32>),
    InsertValue(Op, Op, Vec<u32>, Ty),
    ExtractElem(Op, Op),
    InsertElem(Op, Op, Op, u64),
    Shuffle(Op, Op, u64, Vec<Option<u64>>),
    Alloca(u64, u64, Op, u32),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Resume(Op),
    LandingPad,
    Freeze(Ty, Op),
    Rmw(RmwOp, Ty, Op, Op),
    CmpXchg(Ty, Op, Op, Op),
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub i: I,
    pub dbg: u32,
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: Vec<(u32, Op)>,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    /// Immediate post-dominator of each block among blocks that can return
    /// (`u32::MAX`: the function's return).
    pub ipdom: std::cell::OnceCell<Vec<u32>>,
    /// Dominators of each block, as bit sets.
    pub doms: std::cell::OnceCell<Vec<Vec<u64>>>,
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct GlobalDef {
    pub name: String,
    pub ty: Ty,
    pub init: Option<V>,
    pub align: u64,
    pub constant: bool,
    pub addr: u64,
}

pub struct Module {
    pub globals: Vec<GlobalDef>,
    pub gaddr: HashMap<String, u64>,
    pub func_lines: HashMap<String, (usize, usize)>,
    pub func_addr_name: HashMap<u64, String>,
    pub types: HashMap<String, Ty>,
    pub lines: Vec<String>,
    pub meta: HashMap<u32, usize>,
}

pub const GLOBAL_BASE: u64 = 0x1000_0000;
pub const FUNC_BASE: u64 = 0x0040_0000;

pub struct P<'a> {
    t: &'a [Tok],
    i: usize,
    m: &'a Module,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("eof".to_string())?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {c} got {:?}", self.peek()))
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn num_u(&mut self) -> R<u64> {
        match self.next()? {
            Tok::Num(s) => s.parse().map_err(|e| format!("{e} {s}")),
            t => Err(format!("number expected {t:?}")),
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        if self.is_p('(') {
            let mut d = 0;
            loop {
                match self.next()? {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    }
    fn try_ty(&mut self) -> Option<Ty> {
        let save = self.i;
        match self.ty() {
            Ok(t) => Some(t),
            Err(_) => {
                self.i = save;
                None
            }
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            Tok::Id(s) => match s.as_str() {
                "void" => Ok(Ty::Void),
                "ptr" => {
                    if self.is_id("addrspace") {
                        self.i += 1;
                        self.skip_parens()?;
                    }
                    Ok(Ty::Ptr)
                }
                "half" | "bfloat" => Ok(Ty::Float(16)),
                "float" => Ok(Ty::Float(32)),
                "double" => Ok(Ty::Float(64)),
                "label" | "metadata" | "token" => Ok(Ty::Other),
                _ if (s.starts_with('i') || s.starts_with('b')) && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()) => {
                    Ok(Ty::Int(s[1..].parse().unwrap()))
                }
                _ => Err(format!("type? {s}")),
            },
            Tok::P('[') => {
                let n = self.num_u()?;
                if !self.eat_id("x") {
                    return Err("x".into());
                }
                let t = self.ty()?;
                self.exp_p(']')?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let mut v = vec![];
                    while !self.is_p('}') {
                        v.push(self.ty()?);
                        self.eat_p(',');
                    }
                    self.exp_p('}')?;
                    self.exp_p('>')?;
                    return Ok(Ty::Struct(Rc::new(v), true));
                }
                let n = self.num_u()?;
                if !self.eat_id("x") {
                    return Err("x".into());
                }
                let t = self.ty()?;
                self.exp_p('>')?;
                Ok(Ty::Vec(n, Rc::new(t)))
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.is_p('}') {
                    v.push(self.ty()?);
                    self.eat_p(',');
                }
                self.exp_p('}')?;
                Ok(Ty::Struct(Rc::new(v), false))
            }
            Tok::Local(n) => self.m.types.get(&n).cloned().ok_or(format!("named type {n}")),
            t => Err(format!("type? {t:?}")),
        }
    }

    fn zero(ty: &Ty) -> V {
        match ty {
            Ty::Arr(n, t) | Ty::Vec(n, t) => V::A(Rc::new(vec![Self::zero(t); *n as usize])),
            Ty::Struct(ts, _) => V::A(Rc::new(ts.iter().map(Self::zero).collect())),
            _ => V::C(0),
        }
    }
    fn undef(ty: &Ty) -> V {
        match ty {
            Ty::Arr(n, t) | Ty::Vec(n, t) => V::A(Rc::new(vec![Self::undef(t); *n as usize])),
            Ty::Struct(ts, _) => V::A(Rc::new(ts.iter().map(Self::undef).collect())),
            _ => V::U,
        }
    }

    pub fn constant(&mut self, ty: &Ty) -> R<V> {
        let t = self.next()?;
        match t {
            Tok::Num(s) => {
                if let Ty::Float(w) = ty {
                    let d: f64 = if let Some(h) = s.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| format!("{e} {s}"))?)
                    } else {
                        s.parse().map_err(|e| format!("{e} {s}"))?
                    };
                    return Ok(V::C(match w {
                        32 => (d as f32).to_bits() as u128,
                        64 => d.to_bits() as u128,
                        _ => return Err("half constant".into()),
                    }));
                }
                let w = ty.width();
                let v: i128 = match s.parse::<i128>() {
                    Ok(v) => v,
                    Err(_) => s.parse::<u128>().map_err(|e| format!("{e} {s}"))? as i128,
                };
                Ok(V::C(crate::val::mask(v as u128, w)))
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Ok(V::C(1)),
                "false" | "null" | "none" => Ok(V::C(0)),
                "undef" | "poison" => Ok(Self::undef(ty)),
                "zeroinitializer" => Ok(Self::zero(ty)),
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::Id(x)) if x=="inbounds"||x=="nuw"||x=="nusw"||x=="inrange") {
                        self.i += 1;
                        self.skip_parens()?;
                    }
                    self.exp_p('(')?;
                    let base_ty = self.ty()?;
                    self.exp_p(',')?;
                    let pt = self.ty()?;
                    let base = match self.constant(&pt)? {
                        V::C(c) => c as u64,
                        _ => return Err("gep const base".into()),
                    };
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        let it = self.ty()?;
                        match self.constant(&it)? {
                            V::C(c) => idx.push(crate::val::sext(c, it.width()) as i64),
                            _ => return Err("gep const idx".into()),
                        }
                    }
                    self.exp_p(')')?;
                    let mut off = idx[0].wrapping_mul(base_ty.size() as i64);
                    let mut cur = base_ty;
                    for k in &idx[1..] {
                        let (o, t) = match &cur {
                            Ty::Struct(..) => cur.field(*k as u64),
                            Ty::Arr(_, t) | Ty::Vec(_, t) => ((k.wrapping_mul(t.size() as i64)) as u64, (**t).clone()),
                            _ => return Err("gep".into()),
                        };
                        off = off.wrapping_add(o as i64);
                        cur = t;
                    }
                    Ok(V::C(base.wrapping_add(off as u64) as u128))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "addrspacecast" => {
                    self.exp_p('(')?;
                    let ft = self.ty()?;
                    let v = self.constant(&ft)?;
                    if !self.eat_id("to") {
                        return Err("to".into());
                    }
                    let tt = self.ty()?;
                    self.exp_p(')')?;
                    match v {
                        V::C(c) => Ok(V::C(crate::val::mask(c, tt.width()))),
                        _ => Err("const cast".into()),
                    }
                }
                "add" | "sub" | "xor" => {
                    while matches!(self.peek(), Some(Tok::Id(_))) {
                        self.i += 1;
                    }
                    self.exp_p('(')?;
                    let ft = self.ty()?;
                    let a = self.constant(&ft)?;
                    self.exp_p(',')?;
                    let ft2 = self.ty()?;
                    let b = self.constant(&ft2)?;
                    self.exp_p(')')?;
                    match (a, b) {
                        (V::C(a), V::C(b)) => Ok(V::C(crate::val::mask(
                            match s.as_str() {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                _ => a ^ b,
                            },
                            ft.width(),
                        ))),
                        _ => Err("const binop".into()),
                    }
                }
                "splat" => {
                    self.exp_p('(')?;
                    let ft = self.ty()?;
                    let v = self.constant(&ft)?;
                    self.exp_p(')')?;
                    Ok(V::A(Rc::new(vec![v; ty.nelems() as usize])))
                }
                _ => Err(format!("constant? {s}")),
            },
            Tok::Global(n) => self
                .m
                .gaddr
                .get(&n)
                .map(|a| V::C(*a as u128))
                .ok_or(format!("unknown global {n}")),
            Tok::CStr(b) => Ok(V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect()))),
            Tok::P('[') | Tok::P('{') => {
                let close = if t == Tok::P('[') { ']' } else { '}' };
                let mut v = vec![];
                while !self.is_p(close) {
                    let et = self.ty()?;
                    v.push(self.constant(&et)?);
                    self.eat_p(',');
                }
                self.exp_p(close)?;
                Ok(V::A(Rc::new(v)))
            }
            Tok::P('<') => {
                let st = self.eat_p('{');
                let mut v = vec![];
                let close = if st { '}' } else { '>' };
                while !self.is_p(close) {
                    let et = self.ty()?;
                    v.push(self.constant(&et)?);
                    self.eat_p(',');
                }
                self.exp_p(close)?;
                if st {
                    self.exp_p('>')?;
                }
                Ok(V::A(Rc::new(v)))
            }
            t => Err(format!("constant? {t:?}")),
        }
    }
}

impl Module {
    pub fn parse(text: String) -> R<Module> {
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module {
            globals: vec![],
            gaddr: HashMap::new(),
            func_lines: HashMap::new(),
            func_addr_name: HashMap::new(),
            types: HashMap::new(),
            lines: vec![],
            meta: HashMap::new(),
        };
        let mut faddr = FUNC_BASE;
        let mut gl: Vec<(usize, String)> = vec![];
        let mut i = 0;
        let mut aliases: Vec<(String, usize)> = vec![];
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with("define ") || l.starts_with("declare ") {
                let t = tokenize(l);
                let name = t
                    .iter()
                    .find_map(|t| if let Tok::Global(n) = t { Some(n.clone()) } else { None })
                    .unwrap();
                m.gaddr.insert(name.clone(), faddr);
                m.func_addr_name.insert(faddr, name.clone());
                faddr += 16;
                if l.starts_with("define ") {
                    let s = i;
                    while lines[i] != "}" {
                        i += 1;
                    }
                    m.func_lines.insert(name, (s, i));
                }
            } else if l.starts_with('@') {
                let t = tokenize(&l[..l.len().min(4000)]);
                if let Tok::Global(n) = &t[0] {
                    if t.iter().take(14).any(|x| *x == Tok::Id("alias".into())) {
                        aliases.push((n.clone(), i));
                    } else {
                        gl.push((i, n.clone()));
                    }
                }
            } else if l.starts_with('%') {
                let t = tokenize(l);
                if let Tok::Local(n) = &t[0] {
                    let mut p = P { t: &t[3..], i: 0, m: &m };
                    if let Ok(ty) = p.ty() {
                        m.types.insert(n.clone(), ty);
                    }
                }
            } else if l.starts_with('!') {
                let b = l.as_bytes();
                let mut j = 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                if j > 1 {
                    m.meta.insert(l[1..j].parse().unwrap(), i);
                }
            }
            i += 1;
        }
        // first pass over globals: type, to assign addresses
        let mut addr = GLOBAL_BASE;
        let mut pend = vec![];
        for (li, name) in gl {
            let t = tokenize(&lines[li]);
            let mut k = 2;
            let mut constant = false;
            let mut external = false;
            loop {
                match &t[k] {
                    Tok::Id(s) if s == "constant" => {
                        constant = true;
                        k += 1;
                        break;
                    }
                    Tok::Id(s) if s == "global" => {
                        k += 1;
                        break;
                    }
                    Tok::Id(s) if s == "external" || s == "extern_weak" => {
                        external = true;
                        k += 1;
                    }
                    _ => k += 1,
                }
            }
            let mut p = P { t: &t, i: k, m: &m };
            let ty = p.ty().map_err(|e| format!("global {name}: {e}"))?;
            let ipos = p.i;
            let mut align = ty.align();
            for q in ipos..t.len() {
                if t[q] == Tok::Id("align".into()) {
                    if let Some(Tok::Num(n)) = t.get(q + 1) {
                        align = n.parse().unwrap_or(align);
                    }
                }
            }
            addr = align_up(addr, align.max(1));
            if align < 16 && addr % (align * 2) == 0 {
                addr += align;
            }
            m.gaddr.insert(name.clone(), addr);
            let a = addr;
            addr += ty.size() + 64;
            pend.push((t, ipos, external, name, ty, align, constant, a));
        }
        for (n, li) in aliases {
            let t = tokenize(&lines[li]);
            if let Some(Tok::Global(tgt)) = t.iter().skip(1).find(|x| matches!(x, Tok::Global(_))) {
                if let Some(a) = m.gaddr.get(tgt).copied() {
                    m.gaddr.insert(n.clone(), a);
                    if let Some(fl) = m.func_lines.get(tgt).copied() {
                        m.func_lines.insert(n, fl);
                    }
                }
            }
        }
        for (t, ipos, external, name, ty, align, constant, a) in pend {
            let init = if external {
                None
            } else {
                let mut p = P { t: &t, i: ipos, m: &m };
                // unsupported initialisers are left as "no initialiser"
                p.constant(&ty).ok()
            };
            m.globals.push(GlobalDef { name, ty, init, align, constant, addr: a });
        }
        m.lines = lines;
        Ok(m)
    }

    pub fn parse_func(&self, name: &str) -> R<Func> {
        let (s, e) = *self.func_lines.get(name).ok_or(format!("undefined function {name}"))?;
        let head = tokenize(&self.lines[s]);
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut labels: HashMap<String, u32> = HashMap::new();
        // parameters
        let gp = head.iter().position(|t| matches!(t, Tok::Global(_))).unwrap();
        let mut p = P { t: &head, i: gp + 1, m: self };
        p.exp_p('(')?;
        let mut params = vec![];
        let mut unnamed = 0u32;
        while !p.is_p(')') {
            if p.eat_p('.') || p.is_id("...") {
                p.i += 1;
                continue;
            }
            let _ty = p.ty()?;
            // skip attributes until local name, comma or close
            let mut nm = None;
            loop {
                match p.peek() {
                    Some(Tok::P(',')) | Some(Tok::P(')')) | None => break,
                    Some(Tok::Local(n)) => {
                        nm = Some(n.clone());
                        p.i += 1;
                    }
                    Some(Tok::P('(')) => p.skip_parens()?,
                    _ => p.i += 1,
                }
            }
            let nm = nm.unwrap_or_else(|| unnamed.to_string());
            if nm.bytes().all(|c| c.is_ascii_digit()) {
                unnamed += 1;
            }
            let id = regs.len() as u32;
            regs.insert(nm, id);
            params.push(id);
            p.eat_p(',');
        }
        // join lines
        let mut logical: Vec<String> = vec![];
        let mut i = s + 1;
        while i < e {
            let l = &self.lines[i];
            let tr = l.trim_start();
            if tr.is_empty() || tr.starts_with(';') || tr.starts_with("#dbg") {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                logical.push(l.clone());
                i += 1;
                continue;
            }
            let mut cur = l.clone();
            if tr.starts_with("switch ") {
                while !self.lines[i].trim_start().starts_with(']') {
                    i += 1;
                    cur.push(' ');
                    cur.push_str(&self.lines[i]);
                }
            } else {
                while i + 1 < e && self.lines[i + 1].starts_with("          ") {
                    i += 1;
                    cur.push(' ');
                    cur.push_str(&self.lines[i]);
                }
            }
            logical.push(cur);
            i += 1;
        }
        // labels & regs
        let mut nblocks = 0;
        if logical.first().map_or(true, |l| l.starts_with(' ')) {
            // implicit entry label
            labels.insert(unnamed.to_string(), 0);
            nblocks = 1;
        }
        for l in &logical {
            if !l.starts_with(' ') {
                let nm = if l.starts_with('"') {
                    l[1..].split('"').next().unwrap().to_string()
                } else {
                    l.split(':').next().unwrap().to_string()
                };
                labels.insert(nm, nblocks);
                nblocks += 1;
            }
        }
        let mut f = Func { ipdom: Default::default(), doms: Default::default(), name: name.to_string(), nregs: 0, params, blocks: vec![] };
        if logical.first().map_or(true, |l| l.starts_with(' ')) {
            f.blocks.push(Block { phis: vec![], insts: vec![] });
        }
        for l in &logical {
            if !l.starts_with(' ') {
                f.blocks.push(Block { phis: vec![], insts: vec![] });
                continue;
            }
            let toks = tokenize(l);
            let mut ip = IP { p: P { t: &toks, i: 0, m: self }, regs: &mut regs, labels: &labels };
            let mut dbg = 0;
            for q in 0..toks.len() {
                if let Tok::Meta(x) = &toks[q] {
                    if x == "dbg" {
                        if let Some(Tok::Meta(n)) = toks.get(q + 1) {
                            dbg = n.parse().unwrap_or(0);
                        }
                    }
                }
            }
            let b = f.blocks.last_mut().unwrap();
            match ip.inst() {
                Ok(Parsed::Phi(ph)) => b.phis.push(ph),
                Ok(Parsed::Inst(dst, i)) => b.insts.push(Inst { dst, i, dbg }),
                Err(e) => b.insts.push(Inst { dst: None, i: I::Unsupported(format!("{e}: {}", l.trim())), dbg }),
            }
        }
        f.nregs = regs.len() as u32;
        Ok(f)
    }
}

enum Parsed {
    Phi(Phi),
    Inst(Option<u32>, I),
}

struct IP<'a> {
    p: P<'a>,
    regs: &'a mut HashMap<String, u32>,
    labels: &'a HashMap<String, u32>,
}

impl<'a> IP<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn label(&mut self) -> R<u32> {
        match self.p.next()? {
            Tok::Local(n) => self.labels.get(&n).copied().ok_or(format!("label {n}")),
            t => Err(format!("label? {t:?}")),
        }
    }
    fn op(&mut self, ty: &Ty) -> R<Op> {
        if let Some(Tok::Local(n)) = self.p.peek().cloned() {
            self.p.i += 1;
            return Ok(Op::R(self.reg(&n)));
        }
        Ok(Op::V(self.p.constant(ty)?))
    }
    fn tyop(&mut self) -> R<(Ty, Op)> {
        let t = self.p.ty()?;
        let o = self.op(&t)?;
        Ok((t, o))
    }
    fn flags(&mut self, fl: &[&str]) {
        loop {
            match self.p.peek() {
                Some(Tok::Id(s)) if fl.contains(&s.as_str()) => self.p.i += 1,
                _ => break,
            }
        }
    }
    fn align(&mut self) -> u64 {
        // ", align N"
        let mut k = self.p.i;
        while k + 1 < self.p.t.len() {
            if self.p.t[k] == Tok::Id("align".into()) {
                if let Tok::Num(n) = &self.p.t[k + 1] {
                    return n.parse().unwrap_or(1);
                }
            }
            k += 1;
        }
        1
    }
    fn inst(&mut self) -> R<Parsed> {
        let mut dst = None;
        if let Some(Tok::Local(n)) = self.p.peek().cloned() {
            if self.p.t.get(1) == Some(&Tok::P('=')) {
                self.p.i = 2;
                dst = Some(self.reg(&n));
            }
        }
        let mut opn = match self.p.next()? {
            Tok::Id(s) => s,
            t => return Err(format!("opcode? {t:?}")),
        };
        while matches!(opn.as_str(), "tail" | "musttail" | "notail") {
            opn = match self.p.next()? {
                Tok::Id(s) => s,
                t => return Err(format!("opcode? {t:?}")),
            };
        }
        const AF: &[&str] = &["nuw", "nsw", "exact", "disjoint", "samesign", "nneg", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
        let bin = |s: &str| -> Option<BinOp> {
            Some(match s {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                _ => return None,
            })
        };
        if let Some(b) = bin(&opn) {
            self.flags(AF);
            let t = self.p.ty()?;
            let a = self.op(&t)?;
            self.p.exp_p(',')?;
            let c = self.op(&t)?;
            return Ok(Parsed::Inst(dst, I::Bin(b, t, a, c)));
        }
        let r = match opn.as_str() {
            "phi" => {
                self.flags(AF);
                let t = self.p.ty()?;
                let mut inc = vec![];
                while self.p.eat_p('[') {
                    let o = self.op(&t)?;
                    self.p.exp_p(',')?;
                    let l = self.label()?;
                    self.p.exp_p(']')?;
                    inc.push((l, o));
                    self.p.eat_p(',');
                }
                return Ok(Parsed::Phi(Phi { dst: dst.unwrap(), ty: t, inc }));
            }
            "icmp" => {
                self.flags(AF);
                let pr = match self.p.next()? {
                    Tok::Id(s) => match s.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => return Err(s),
                    },
                    t => return Err(format!("{t:?}")),
                };
                let t = self.p.ty()?;
                let a = self.op(&t)?;
                self.p.exp_p(',')?;
                let b = self.op(&t)?;
                I::ICmp(pr, t, a, b)
            }
            "fcmp" => {
                self.flags(AF);
                let pr = match self.p.next()? {
                    Tok::Id(s) => s,
                    t => return Err(format!("{t:?}")),
                };
                let t = self.p.ty()?;
                let a = self.op(&t)?;
                self.p.exp_p(',')?;
                let b = self.op(&t)?;
                I::FCmp(pr, t, a, b)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags(AF);
                let t = self.p.ty()?;
                let a = self.op(&t)?;
                self.p.exp_p(',')?;
                let b = self.op(&t)?;
                I::FBin(opn, t, a, b)
            }
            "fneg" => {
                self.flags(AF);
                let (t, a) = self.tyop()?;
                I::FNeg(t, a)
            }
            "select" => {
                self.flags(AF);
                let (ct, c) = self.tyop()?;
                self.p.exp_p(',')?;
                let (t, a) = self.tyop()?;
                self.p.exp_p(',')?;
                let (_, b) = self.tyop()?;
                I::Select(ct, t, c, a, b)
            }
            "load" => {
                self.flags(&["atomic", "volatile"]);
                let t = self.p.ty()?;
                self.p.exp_p(',')?;
                let (_, a) = self.tyop()?;
                I::Load(t, a, self.align())
            }
            "store" => {
                self.flags(&["atomic", "volatile"]);
                let (t, v) = self.tyop()?;
                self.p.exp_p(',')?;
                let (_, a) = self.tyop()?;
                I::Store(t, v, a, self.align())
            }
            "getelementptr" => {
                loop {
                    match self.p.peek() {
                        Some(Tok::Id(s)) if ["inbounds", "nuw", "nusw", "inrange"].contains(&s.as_str()) => {
                            self.p.i += 1;
                            self.p.skip_parens()?;
                        }
                        _ => break,
                    }
                }
                let bt = self.p.ty()?;
                self.p.exp_p(',')?;
                let (pt, base) = self.tyop()?;
                if pt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut dynamic = vec![];
                let mut cur = bt.clone();
                let mut first = true;
                while self.p.is_p(',') && !matches!(self.p.t.get(self.p.i + 1), Some(Tok::Meta(_))) {
                    self.p.i += 1;
                    let (it, o) = self.tyop()?;
                    if first {
                        first = false;
                        let sc = bt.size() as i64;
                        match &o {
                            Op::V(V::C(c)) => off = off.wrapping_add((crate::val::sext(*c, it.width()) as i64).wrapping_mul(sc)),
                            _ => dynamic.push((o, it.width(), sc)),
                        }
                    } else {
                        match (&cur, &o) {
                            (Ty::Struct(..), Op::V(V::C(c))) => {
                                let (fo, ft) = cur.field(*c as u64);
                                off = off.wrapping_add(fo as i64);
                                cur = ft;
                            }
                            (Ty::Arr(_, t), o) | (Ty::Vec(_, t), o) => {
                                let sc = t.size() as i64;
                                match o {
                                    Op::V(V::C(c)) => off = off.wrapping_add((crate::val::sext(*c, it.width()) as i64).wrapping_mul(sc)),
                                    _ => dynamic.push((o.clone(), it.width(), sc)),
                                }
                                let t2 = (**t).clone();
                                cur = t2;
                            }
                            _ => return Err("gep struct index".into()),
                        }
                    }
                }
                I::Gep(base, off, dynamic)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                self.flags(AF);
                let (ft, o) = self.tyop()?;
                if !self.p.eat_id("to") {
                    return Err("to".into());
                }
                let tt = self.p.ty()?;
                let k = match opn.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "bitcast" => CastOp::Bit,
                    _ => {
                        if tt.width() < ft.width() {
                            CastOp::Trunc
                        } else {
                            CastOp::ZExt
                        }
                    }
                };
                I::Cast(k, ft, tt, o)
            }
            "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
                self.flags(AF);
                let (ft, o) = self.tyop()?;
                if !self.p.eat_id("to") {
                    return Err("to".into());
                }
                let tt = self.p.ty()?;
                I::FCast(opn, ft, tt, o)
            }
            "call" | "invoke" => {
                // skip cc / ret attrs until a type
                loop {
                    if let Some(Tok::Id(s)) = self.p.peek() {
                        let s = s.clone();
                        let isty = matches!(s.as_str(), "void" | "ptr" | "half" | "float" | "double")
                            || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()));
                        if isty {
                            break;
                        }
                        self.p.i += 1;
                        if s == "align" || s == "cc" {
                            if matches!(self.p.peek(), Some(Tok::Num(_))) {
                                self.p.i += 1;
                            }
                        }
                        self.p.skip_parens()?;
                    } else {
                        break;
                    }
                }
                let ret = self.p.ty()?;
                // optional function type "(...)": skip
                if self.p.is_p('(') {
                    self.p.skip_parens()?;
                }
                let callee = match self.p.next()? {
                    Tok::Global(n) => Callee::Direct(n),
                    Tok::Local(n) => Callee::Indirect(Op::R(self.reg(&n))),
                    Tok::Id(s) if s == "asm" => return Err("inline asm".into()),
                    t => return Err(format!("callee {t:?}")),
                };
                self.p.exp_p('(')?;
                let mut args = vec![];
                while !self.p.is_p(')') {
                    let t = self.p.ty()?;
                    if t == Ty::Other {
                        // metadata operand
                        while !self.p.is_p(',') && !self.p.is_p(')') {
                            self.p.i += 1;
                            self.p.skip_parens()?;
                        }
                        args.push((t, Op::V(V::U)));
                        self.p.eat_p(',');
                        continue;
                    }
                    // attributes
                    loop {
                        match self.p.peek() {
                            Some(Tok::Id(s)) => {
                                let s = s.clone();
                                if matches!(
                                    s.as_str(),
                                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "add" | "sub" | "xor" | "splat" | "none"
                                ) {
                                    break;
                                }
                                self.p.i += 1;
                                if s == "align" {
                                    if matches!(self.p.peek(), Some(Tok::Num(_))) {
                                        self.p.i += 1;
                                        continue;
                                    }
                                }
                                self.p.skip_parens()?;
                            }
                            Some(Tok::Str(_)) => {
                                self.p.i += 1;
                                if self.p.eat_p('=') {
                                    self.p.i += 1;
                                }
                            }
                            _ => break,
                        }
                    }
                    let o = self.op(&t)?;
                    args.push((t, o));
                    self.p.eat_p(',');
                }
                self.p.exp_p(')')?;
                let mut invoke = None;
                if opn == "invoke" {
                    while !self.p.is_id("to") {
                        self.p.next()?;
                    }
                    self.p.i += 1;
                    if !self.p.eat_id("label") {
                        return Err("invoke label".into());
                    }
                    let a = self.label()?;
                    if !self.p.eat_id("unwind") || !self.p.eat_id("label") {
                        return Err("unwind label".into());
                    }
                    let b = self.label()?;
                    invoke = Some((a, b));
                }
                I::Call(Box::new(CallI { callee, args, ret, invoke }))
            }
            "extractvalue" => {
                let (_, o) = self.tyop()?;
                let mut idx = vec![];
                while self.p.is_p(',') && matches!(self.p.t.get(self.p.i + 1), Some(Tok::Num(_))) {
                    self.p.i += 1;
                    idx.push(self.p.num_u()? as u32);
                }
                I::ExtractValue(o, idx)
            }
            "insertvalue" => {
                let (t, o) = self.tyop()?;
                self.p.exp_p(',')?;
                let (_, v) = self.tyop()?;
                let mut idx = vec![];
                while self.p.is_p(',') && matches!(self.p.t.get(self.p.i + 1), Some(Tok::Num(_))) {
                    self.p.i += 1;
                    idx.push(self.p.num_u()? as u32);
                }
                I::InsertValue(o, v, idx, t)
            }
            "extractelement" => {
                let (_, o) = self.tyop()?;
                self.p.exp_p(',')?;
                let (_, i) = self.tyop()?;
                I::ExtractElem(o, i)
            }
            "insertelement" => {
                let (t, o) = self.tyop()?;
                self.p.exp_p(',')?;
                let (_, v) = self.tyop()?;
                self.p.exp_p(',')?;
                let (_, i) = self.tyop()?;
                I::InsertElem(o, v, i, t.nelems())
            }
            "shufflevector" => {
                let (t, a) = self.tyop()?;
                self.p.exp_p(',')?;
                let (_, b) = self.tyop()?;
                self.p.exp_p(',')?;
                let mt = self.p.ty()?;
                let mk = self.p.constant(&mt)?;
                let mv = match mk {
                    V::A(v) => v.iter().map(|x| if let V::C(c) = x { Some(*c as u64) } else { None }).collect(),
                    _ => return Err("mask".into()),
                };
                I::Shuffle(a, b, t.nelems(), mv)
            }
            "alloca" => {
                self.flags(&["inalloca", "swifterror"]);
                let t = self.p.ty()?;
                let mut cnt = Op::V(V::C(1));
                let mut cw = 64;
                if self.p.is_p(',') && !matches!(self.p.t.get(self.p.i + 1), Some(Tok::Id(s)) if s == "align" || s == "addrspace") && !matches!(self.p.t.get(self.p.i + 1), Some(Tok::Meta(_))) {
                    self.p.i += 1;
                    let (ct, c) = self.tyop()?;
                    cnt = c;
                    cw = ct.width();
                }
                let al = self.align().max(t.align());
                I::Alloca(t.size(), al, cnt, cw)
            }
            "br" => {
                if self.p.eat_id("label") {
                    I::Br(self.label()?)
                } else {
                    let (_, c) = self.tyop()?;
                    self.p.exp_p(',')?;
                    self.p.eat_id("label");
                    let a = self.label()?;
                    self.p.exp_p(',')?;
                    self.p.eat_id("label");
                    let b = self.label()?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyop()?;
                self.p.exp_p(',')?;
                self.p.eat_id("label");
                let d = self.label()?;
                self.p.exp_p('[')?;
                let mut cs = vec![];
                while !self.p.is_p(']') {
                    let ct = self.p.ty()?;
                    let c = match self.p.constant(&ct)? {
                        V::C(c) => c,
                        _ => return Err("switch const".into()),
                    };
                    self.p.exp_p(',')?;
                    self.p.eat_id("label");
                    cs.push((c, self.label()?));
                }
                I::Switch(t, v, d, cs)
            }
            "ret" => {
                let t = self.p.ty()?;
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.op(&t)?))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => {
                let (_, o) = self.tyop()?;
                I::Resume(o)
            }
            "landingpad" => I::LandingPad,
            "freeze" => {
                let (t, o) = self.tyop()?;
                I::Freeze(t, o)
            }
            "fence" => I::Nop,
            "atomicrmw" => {
                self.flags(&["volatile"]);
                let o = match self.p.next()? {
                    Tok::Id(s) => match s.as_str() {
                        "xchg" => RmwOp::Xchg,
                        "add" => RmwOp::Add,
                        "sub" => RmwOp::Sub,
                        "and" => RmwOp::And,
                        "or" => RmwOp::Or,
                        "xor" => RmwOp::Xor,
                        "umax" => RmwOp::UMax,
                        "umin" => RmwOp::UMin,
                        "max" => RmwOp::Max,
                        "min" => RmwOp::Min,
                        _ => return Err(s),
                    },
                    t => return Err(format!("{t:?}")),
                };
                let (_, a) = self.tyop()?;
                self.p.exp_p(',')?;
                let (t, v) = self.tyop()?;
                I::Rmw(o, t, a, v)
            }
            "cmpxchg" => {
                self.flags(&["weak", "volatile"]);
                let (_, a) = self.tyop()?;
                self.p.exp_p(',')?;
                let (t, c) = self.tyop()?;
                self.p.exp_p(',')?;
                let (_, n) = self.tyop()?;
                I::CmpXchg(t, a, c, n)
            }
            _ => return Err(format!("unsupported opcode {opn}")),
        };
        let _ = self.p.try_ty();
        Ok(Parsed::Inst(dst, r))
    }
}

impl Func {
    fn succs(&self, b: usize) -> Vec<u32> {
        match self.blocks[b].insts.last().map(|i| &i.i) {
            Some(I::Br(t)) => vec![*t],
            Some(I::CondBr(_, x, y)) => vec![*x, *y],
            Some(I::Switch(_, _, d, cs)) => {
                let mut v: Vec<u32> = cs.iter().map(|c| c.1).collect();
                v.push(*d);
                v.sort();
                v.dedup();
                v
            }
            // unwinding edges are not followed
            Some(I::Call(c)) => c.invoke.map(|(n, _)| vec![n]).unwrap_or_default(),
            _ => vec![],
        }
    }

    /// Post-dominators, considering only blocks from which a return is reachable.
    pub fn ipdom(&self) -> &[u32] {
        self.ipdom.get_or_init(|| {
            let n = self.blocks.len();
            let succ: Vec<Vec<u32>> = (0..n).map(|b| self.succs(b)).collect();
            let mut live = vec![false; n];
            for b in 0..n {
                if matches!(self.blocks[b].insts.last().map(|i| &i.i), Some(I::Ret(_))) {
                    live[b] = true;
                }
            }
            let mut pred = vec![vec![]; n];
            for b in 0..n {
                for s in &succ[b] {
                    pred[*s as usize].push(b);
                }
            }
            let mut w: Vec<usize> = (0..n).filter(|b| live[*b]).collect();
            while let Some(b) = w.pop() {
                for p in &pred[b] {
                    if !live[*p] {
                        live[*p] = true;
                        w.push(*p);
                    }
                }
            }
            // bit sets of post-dominators; element n is the virtual exit
            let words = (n + 1 + 63) / 64;
            let full = vec![u64::MAX; words];
            let mut pd: Vec<Vec<u64>> = vec![full.clone(); n];
            let mut changed = true;
            while changed {
                changed = false;
                for b in (0..n).rev() {
                    if !live[b] {
                        continue;
                    }
                    let mut x = full.clone();
                    if matches!(self.blocks[b].insts.last().map(|i| &i.i), Some(I::Ret(_))) {
                        x = vec![0; words];
                        x[n / 64] |= 1 << (n % 64);
                    } else {
                        for s in succ[b].iter().filter(|s| live[**s as usize]) {
                            for k in 0..words {
                                x[k] &= pd[*s as usize][k];
                            }
                        }
                    }
                    x[b / 64] |= 1 << (b % 64);
                    if x != pd[b] {
                        pd[b] = x;
                        changed = true;
                    }
                }
            }
            let cnt = |b: usize| pd[b].iter().map(|w| w.count_ones()).sum::<u32>();
            (0..n)
                .map(|b| {
                    if !live[b] {
                        return u32::MAX;
                    }
                    // the strict post-dominator with the most post-dominators is the immediate one
                    let mut best = u32::MAX;
                    let mut bc = 0;
                    for c in 0..n {
                        if c != b && live[c] && pd[b][c / 64] >> (c % 64) & 1 == 1 && cnt(c) > bc {
                            bc = cnt(c);
                            best = c as u32;
                        }
                    }
                    best
                })
                .collect()
        })
    }
}

impl Func {
    /// Does block `a` dominate block `b`?
    pub fn dominates(&self, a: u32, b: u32) -> bool {
        let d = self.doms.get_or_init(|| {
            let n = self.blocks.len();
            let mut pred = vec![vec![]; n];
            for b in 0..n {
                let mut s = self.succs(b);
                if let Some(I::Call(c)) = self.blocks[b].insts.last().map(|i| &i.i) {
                    if let Some((_, u)) = c.invoke {
                        s.push(u);
                    }
                }
                for t in s {
                    pred[t as usize].push(b);
                }
            }
            let words = (n + 63) / 64;
            let mut dom = vec![vec![u64::MAX; words]; n];
            if n > 0 {
                dom[0] = vec![0; words];
                dom[0][0] = 1;
            }
            let mut changed = true;
            while changed {
                changed = false;
                for b in 1..n {
                    let mut x = vec![u64::MAX; words];
                    for p in &pred[b] {
                        for k in 0..words {
                            x[k] &= dom[*p][k];
                        }
                    }
                    x[b / 64] |= 1 << (b % 64);
                    if x != dom[b] {
                        dom[b] = x;
                        changed = true;
                    }
                }
            }
            dom
        });
        d[b as usize][a as usize / 64] >> (a % 64) & 1 == 1
    }
}
