use protospec_build::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let is_async = text.contains("// async");
    let program = asg::Program::from_ast(&parse(&text).unwrap(), &PreludeImportResolver(NullImportResolver)).unwrap();
    let o = CompileOptions { include_async: is_async, use_anyhow: false, debug_mode: false, struct_derives: vec!["PartialEq".into(), "Debug".into(), "Clone".into()], enum_derives: vec!["PartialEq".into(), "Debug".into(), "Clone".into()] };
    std::fs::write(&a[2], compiler::compile_program(&program, &o).to_string()).unwrap();
}
