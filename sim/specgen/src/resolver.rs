//! The harness's foreign items as the real compiler sees them.
use proc_macro2::TokenStream;
use protospec_build::asg::{self, FFIArgument, FFIArgumentValue, Type, TypeArgument};
use protospec_build::ffi::{ForeignFunction, ForeignFunctionObj, ForeignTransform, ForeignTransformObj, ForeignType, ForeignTypeObj};
use protospec_build::{compiler, parse, CompileOptions, ImportResolver, PreludeImportResolver, Result, ScalarType};
use quote::quote;
use std::collections::HashMap;

fn aw(a: bool) -> TokenStream { if a { quote!(.await) } else { quote!() } }
pub struct Xform(pub &'static str);
impl ForeignTransform for Xform {
    fn decoding_gen(&self, input: TokenStream, args: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let n = self.0;
        let key = key(n, &args);
        match (psmodel::xf::kind(n).unwrap(), is_async) {
            (psmodel::xf::Kind::Stream, false) => quote!(simrt::x::MapDec::new(#input, #n, #key)),
            (psmodel::xf::Kind::Stream, true) => quote!(simrt::x::AMapDec::new(#input, #n, #key)),
            (_, false) => quote!(simrt::x::BufDec::new(#input, #n)),
            (_, true) => quote!(simrt::x::ABufDec::new(#input, #n)),
        }
    }
    fn encoding_gen(&self, input: TokenStream, args: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let n = self.0;
        let key = key(n, &args);
        match (psmodel::xf::kind(n).unwrap(), is_async) {
            (psmodel::xf::Kind::Stream, false) => quote!(simrt::x::MapEnc::new(#input, #n, #key)),
            (psmodel::xf::Kind::Stream, true) => quote!(simrt::x::AMapEnc::new(#input, #n, #key)),
            (_, false) => quote!(simrt::x::BufEnc::new(#input, #n)),
            (_, true) => quote!(simrt::x::ABufEnc::new(#input, #n)),
        }
    }
    fn decoding_end_gen(&self, stream: TokenStream, is_async: bool) -> TokenStream {
        match (psmodel::xf::kind(self.0).unwrap().ends(), is_async) { (false, _) => quote!(), (true, false) => quote!(std::io::copy(&mut #stream, &mut std::io::sink())?;), (true, true) => quote!(tokio::io::copy_buf(&mut #stream, &mut tokio::io::sink()).await?;) }
    }
    fn encoding_end_gen(&self, stream: TokenStream, is_async: bool) -> TokenStream { let a = aw(is_async); quote!(#stream.finish()#a?;) }
    fn arguments(&self) -> Vec<FFIArgument> {
        match self.0 {
            "xorx" => vec![FFIArgument { name: "key".into(), type_: Some(Type::Scalar(ScalarType::U8.into())), optional: false }],
            "rotx" => vec![FFIArgument { name: "key".into(), type_: Some(Type::Scalar(ScalarType::U8.into())), optional: true }],
            _ => vec![],
        }
    }
}
fn key(n: &str, args: &[TokenStream]) -> TokenStream { match args.first() { Some(a) => quote!(#a), None => { let d = psmodel::xf::default_key(n); quote!(#d) } } }
pub struct U24;
impl ForeignType for U24 {
    fn assignable_from(&self, t: &Type) -> bool { Type::Scalar(ScalarType::U32.into()).assignable_from(t) }
    fn assignable_to(&self, t: &Type) -> bool { t.assignable_from(&Type::Scalar(ScalarType::U32.into())) }
    fn type_ref(&self) -> TokenStream { quote!(u32) }
    fn decoding_gen(&self, source: TokenStream, out: TokenStream, _: Vec<TokenStream>, is_async: bool) -> TokenStream { let a = aw(is_async); quote! { let #out = { let mut b = [0u8; 3]; #source.read_exact(&mut b[..])#a?; u32::from_be_bytes([0, b[0], b[1], b[2]]) }; } }
    fn encoding_gen(&self, target: TokenStream, f: TokenStream, _: Vec<TokenStream>, is_async: bool) -> TokenStream { let a = aw(is_async); quote! { { let b = simrt::x::u24_check(#f.clone())?; #target.write_all(&b[..])#a?; } } }
    fn arguments(&self) -> Vec<TypeArgument> { vec![] }
    fn copyable(&self) -> bool { true }
}
pub struct Func(pub &'static str);
impl ForeignFunction for Func {
    fn arguments(&self) -> Vec<FFIArgument> {
        let a = |n: &str, o: bool| FFIArgument { name: n.into(), type_: Some(Type::Scalar(ScalarType::U64.into())), optional: o };
        match self.0 { "odd" => vec![a("x", false)], "opt3" => vec![a("a", false), a("b", true)], _ => vec![a("a", false), a("b", false)] }
    }
    fn return_type(&self) -> Type { if self.0 == "odd" { Type::Bool } else { Type::Scalar(ScalarType::U64.into()) } }
    fn call(&self, args: &[FFIArgumentValue]) -> TokenStream {
        let a = &args[0].value;
        match self.0 {
            "odd" => quote!(((#a) & 1 == 1)),
            "opt3" => { let b = if args.len() > 1 && args[1].present { let b = &args[1].value; quote!(Some(#b)) } else { quote!(None) }; quote!(simrt::x::opt3(#a, #b)) }
            _ => { let b = &args[1].value; quote!(simrt::x::mixf(#a, #b)) }
        }
    }
}
#[derive(Default)]
pub struct Res { pub files: HashMap<String, String> }
impl ImportResolver for Res {
    fn normalize_import(&self, i: &str) -> Result<String> { Ok(psmodel::modular::normalize(i)) }
    fn resolve_import(&self, n: &str) -> Result<Option<String>> { Ok(self.files.get(n).cloned()) }
    fn resolve_ffi_transform(&self, n: &str) -> Result<Option<ForeignTransformObj>> {
        Ok(match n { "xorx" => Some(Box::new(Xform("xorx"))), "rotx" => Some(Box::new(Xform("rotx"))), "nibx" => Some(Box::new(Xform("nibx"))), "revx" => Some(Box::new(Xform("revx"))), "framex" => Some(Box::new(Xform("framex"))), _ => None })
    }
    fn resolve_ffi_type(&self, n: &str) -> Result<Option<ForeignTypeObj>> { Ok(match n { "u24" => Some(Box::new(U24)), _ => None }) }
    fn resolve_ffi_function(&self, n: &str) -> Result<Option<ForeignFunctionObj>> { Ok(match n { "mixf" => Some(Box::new(Func("mixf"))), "opt3" => Some(Box::new(Func("opt3"))), "odd" => Some(Box::new(Func("odd"))), _ => None }) }
    fn prelude_ffi_functions(&self) -> Result<HashMap<String, ForeignFunctionObj>> { Ok(HashMap::new()) }
}
/// real compiler, panics reported as errors
/// options that change nothing about the bytes
pub fn variant(name: &str) -> (bool, bool, bool) { let h = name.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) >> 17; (h % 4 == 0, h / 4 % 3 == 0, h / 12 % 10 == 0) }
pub fn compile(text: &str, is_async: bool, (anyhow, derives, debug): (bool, bool, bool)) -> std::result::Result<String, String> {
    let t = text.to_string();
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        std::panic::catch_unwind(move || {
            let files = psmodel::modular::files(&t);
            let t = files.as_ref().map(|f| f.last().unwrap().1.clone()).unwrap_or(t);
            let ast = parse(&t).map_err(|e| format!("parse: {:?}", e))?;
            let res = PreludeImportResolver(Res { files: files.unwrap_or_default().into_iter().collect() });
            let prog = asg::Program::from_ast(&ast, &res).map_err(|e| format!("analysis: {:?}", e))?;
            let few = CompileOptions { struct_derives: vec!["PartialEq".into()], enum_derives: vec!["PartialEq".into()], ..Default::default() };
            let o = CompileOptions { include_async: is_async, use_anyhow: anyhow, debug_mode: debug, ..if derives { Default::default() } else { few } };
            Ok(compiler::compile_program(&prog, &o).to_string())
        })
    }).unwrap();
    match h.join() {
        Ok(Ok(r)) => r,
        Ok(Err(p)) => Err(format!("compiler panicked: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
        Err(_) => Err("compiler thread died".into()),
    }
}
