//! What all scenarios share: outcome, world, specifications, the compiler as a function.
use crate::resolver::{Func, U24, Xform};
use protospec_build::ffi::{ForeignFunctionObj, ForeignTransformObj, ForeignTypeObj};
use protospec_build::{asg, compiler, parse, CompileOptions, ImportResolver, PreludeImportResolver, Result as PResult};
use psmodel::genspec::*;
use psmodel::modular::{self, Modular};
use psmodel::tape::mix;
use psmodel::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub enum Out { Ok(&'static str), Skip(&'static str), Viol(String) }
pub type Res = Result<&'static str, Out>;
pub fn skip(s: &'static str) -> Res { Err(Out::Skip(s)) }
pub fn viol(s: String) -> Res { Err(Out::Viol(s)) }
/// one run: the tape, what was injected, what happened
pub struct W { pub t: RefCell<Tape>, pub faults: RefCell<BTreeMap<&'static str, u64>>, pub trace: Cell<u64>, pub log: RefCell<Option<Vec<String>>>, pub steps: Cell<u64>, pub files: RefCell<String> }
impl W {
    pub fn new(t: Tape) -> W { W { t: RefCell::new(t), faults: Default::default(), trace: Cell::new(7), log: RefCell::new(None), steps: Cell::new(0), files: Default::default() } }
    pub fn fault(&self, k: &'static str) { *self.faults.borrow_mut().entry(k).or_insert(0) += 1 }
    pub fn ev(&self, v: u64) { self.trace.set(mix(self.trace.get(), v)) }
    pub fn log(&self, f: impl FnOnce() -> String) { if self.log.borrow().is_some() { let s = f(); self.log.borrow_mut().as_mut().unwrap().push(s) } }
    pub fn us(&self, n: usize) -> usize { self.t.borrow_mut().us(n) }
    pub fn range(&self, a: usize, b: usize) -> usize { self.t.borrow_mut().range(a, b) }
    pub fn chance(&self, a: u64, b: u64) -> bool { self.t.borrow_mut().chance(a, b) }
    pub fn u64(&self) -> u64 { self.t.borrow_mut().u64() }
}
pub fn digest(b: &[u8]) -> u64 { b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) }
/// a specification, possibly in several files; the last is the program
#[derive(Clone)]
pub struct Src { pub name: String, pub files: Vec<(String, String)>, pub foreign: bool, pub modular: Option<Modular> }
impl Src { pub fn main(&self) -> &str { &self.files.last().unwrap().1 } pub fn text(&self) -> String { let mut o = String::new(); for (n, t) in &self.files { o += modular::MARK; o += n; o.push('\n'); o += t; if !o.ends_with('\n') { o.push('\n') } } o } }
/// specifications of a run: `prelude` ones need no foreign items of the harness
fn other(w: &W, text: &str) -> String { if w.chance(1, 4) { psmodel::layout::layout(text, &mut psmodel::tape::Tape::seeded(w.u64() | 1)) + "\n" } else { text.to_string() } }
pub fn source(w: &W, prelude: bool, want_modular: bool) -> Src { let mut s = plain_source(w, prelude, want_modular); for f in &mut s.files { f.1 = other(w, &f.1) } s }
pub fn plain_source(w: &W, prelude: bool, want_modular: bool) -> Src {
    let ps: &[usize] = &[0, 1, 2, 3, 4];
    let p = ps[w.us(ps.len())];
    let seed = mix(0xc0de, w.us(400) as u64);
    for k in 0.. {
        let mut pr = PROFILES[p].1;
        if prelude { pr.xf = 0; }
        let c = random(mix(seed, k), &format!("c{}", p), pr);
        let foreign = c.spec.decls.iter().any(|d| matches!(d, Decl::Ffi(n, _) if ["xorx", "rotx", "nibx", "revx", "framex", "u24", "mixf", "opt3", "odd"].contains(&&**n)));
        if prelude && foreign { continue }
        if want_modular {
            let m = modular::split(&c.spec, &mut w.t.borrow_mut());
            if let Some(m) = m { return Src { name: format!("{}/{}", c.name, k), files: m.files.clone(), foreign, modular: Some(m) } }
        }
        return Src { name: format!("{}/{}", c.name, k), files: vec![("main".into(), c.text.clone())], foreign, modular: None };
    }
    unreachable!()
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad { Error, Missing, Damaged }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Req { Norm, File, FfiTransform, FfiType, FfiFunction, Prelude }
/// simulated import resolver: serves files, fails the requests it is told to
#[derive(Default)]
pub struct Res_ { pub files: HashMap<String, String>, pub plan: BTreeMap<usize, Bad>, pub state: Rc<RResState> }
#[derive(Default)]
pub struct RResState { pub n: Cell<usize>, pub seen: RefCell<Vec<(Req, String)>>, pub fired: RefCell<Vec<(usize, Req, Bad, String)>> }
impl Res_ {
    fn req(&self, r: Req, what: &str) -> Option<Bad> {
        let k = self.state.n.get();
        self.state.n.set(k + 1);
        self.state.seen.borrow_mut().push((r, what.to_string()));
        let b = self.plan.get(&k).copied();
        if let Some(b) = b { self.state.fired.borrow_mut().push((k, r, b, what.to_string())) }
        b
    }
}
fn bad<T>() -> PResult<Option<T>> { Err(injected()) }
impl ImportResolver for Res_ {
    fn normalize_import(&self, i: &str) -> PResult<String> { match self.req(Req::Norm, i) { Some(_) => Err(injected()), None => Ok(modular::normalize(i)) } }
    fn resolve_import(&self, n: &str) -> PResult<Option<String>> {
        match self.req(Req::File, n) { Some(Bad::Error) => bad(), Some(Bad::Missing) => Ok(None), _ => Ok(self.files.get(n).cloned()) }
    }
    fn resolve_ffi_transform(&self, n: &str) -> PResult<Option<ForeignTransformObj>> {
        match self.req(Req::FfiTransform, n) { Some(Bad::Error) => return bad(), Some(_) => return Ok(None), None => () }
        Ok(match n { "xorx" => Some(Box::new(Xform("xorx"))), "rotx" => Some(Box::new(Xform("rotx"))), "nibx" => Some(Box::new(Xform("nibx"))), "revx" => Some(Box::new(Xform("revx"))), "framex" => Some(Box::new(Xform("framex"))), _ => None })
    }
    fn resolve_ffi_type(&self, n: &str) -> PResult<Option<ForeignTypeObj>> { match self.req(Req::FfiType, n) { Some(Bad::Error) => return bad(), Some(_) => return Ok(None), None => () } Ok(match n { "u24" => Some(Box::new(U24)), _ => None }) }
    fn resolve_ffi_function(&self, n: &str) -> PResult<Option<ForeignFunctionObj>> { match self.req(Req::FfiFunction, n) { Some(Bad::Error) => return bad(), Some(_) => return Ok(None), None => () } Ok(match n { "mixf" => Some(Box::new(Func("mixf"))), "opt3" => Some(Box::new(Func("opt3"))), "odd" => Some(Box::new(Func("odd"))), _ => None }) }
    fn prelude_ffi_functions(&self) -> PResult<HashMap<String, ForeignFunctionObj>> { match self.req(Req::Prelude, "") { Some(_) => Err(injected()), None => Ok(HashMap::new()) } }
}
/// the prelude behind the simulated resolver: its answers can fail as well
pub struct Front { pub inner: PreludeImportResolver<Res_>, pub faulty_prelude: bool }
impl Front { pub fn new(r: Res_, faulty_prelude: bool) -> Front { Front { inner: PreludeImportResolver(r), faulty_prelude } }
    fn pre(&self, r: Req, n: &str) -> Option<Bad> { if self.faulty_prelude { self.inner.0.req(r, n) } else { None } } }
impl ImportResolver for Front {
    fn normalize_import(&self, i: &str) -> PResult<String> { self.inner.normalize_import(i) }
    fn resolve_import(&self, n: &str) -> PResult<Option<String>> { self.inner.resolve_import(n) }
    fn resolve_ffi_transform(&self, n: &str) -> PResult<Option<ForeignTransformObj>> { match self.pre(Req::FfiTransform, n) { Some(Bad::Error) => bad(), Some(_) => Ok(None), None => self.inner.resolve_ffi_transform(n) } }
    fn resolve_ffi_type(&self, n: &str) -> PResult<Option<ForeignTypeObj>> { match self.pre(Req::FfiType, n) { Some(Bad::Error) => bad(), Some(_) => Ok(None), None => self.inner.resolve_ffi_type(n) } }
    fn resolve_ffi_function(&self, n: &str) -> PResult<Option<ForeignFunctionObj>> { match self.pre(Req::FfiFunction, n) { Some(Bad::Error) => bad(), Some(_) => Ok(None), None => self.inner.resolve_ffi_function(n) } }
    fn prelude_ffi_functions(&self) -> PResult<HashMap<String, ForeignFunctionObj>> { match self.pre(Req::Prelude, "") { Some(_) => Err(injected()), None => self.inner.prelude_ffi_functions() } }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Opt { pub is_async: bool, pub anyhow: bool, pub debug: bool, pub derives: bool }
impl Opt { pub fn pick(w: &W) -> Opt { let b = w.us(16); Opt { is_async: b & 1 == 1, anyhow: b & 2 != 0, debug: b & 4 != 0, derives: b & 8 != 0 } }
    pub fn co(&self) -> CompileOptions { let mut d = CompileOptions::default(); if self.derives { d.struct_derives.push("PartialOrd".into()); d.struct_derives.push("Debug".into()); d.enum_derives.push("Hash".into()); } CompileOptions { include_async: self.is_async, use_anyhow: self.anyhow, debug_mode: self.debug, ..d } } }
pub enum Comp { Code(String), Error(String), Panic(String) }
pub fn quiet() { std::panic::set_hook(Box::new(|i| { let m = i.to_string(); LAST.with(|l| *l.borrow_mut() = m) })) }
thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone())) }
/// the compiler, from text to code
pub fn compile(main: &str, res: &dyn Fn() -> Front, o: &Opt) -> Comp {
    let r = guard(|| -> Result<String, String> {
        let ast = parse(main).map_err(|e| format!("{}", e))?;
        let prog = asg::Program::from_ast(&ast, &res()).map_err(|e| format!("{}", e))?;
        Ok(compiler::compile_program(&prog, &o.co()).to_string())
    });
    match r { Ok(Ok(s)) => Comp::Code(s), Ok(Err(e)) => Comp::Error(e), Err(p) => Comp::Panic(p) }
}
pub fn front(files: &[(String, String)]) -> Front { Front::new(Res_ { files: files.iter().cloned().collect(), ..Default::default() }, false) }
fn injected() -> protospec_build::Error { use protospec_build::*; protospec_err!("injected failure") }
