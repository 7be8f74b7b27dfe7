//! Stand-in for the async-recursion crate (not installed): boxes the recursive future, `Send` as the original does.
extern crate proc_macro;
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};
fn lifetime(ts: TokenStream) -> TokenStream {
    // every reference in the argument list lives for 'sim
    let mut o = TokenStream::new();
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for t in v {
        let amp = matches!(&t, TokenTree::Punct(p) if p.as_char() == '&');
        o.extend([t]);
        if amp { o.extend("'sim".parse::<TokenStream>().unwrap()); }
    }
    o
}
#[proc_macro_attribute]
pub fn async_recursion(_: TokenStream, item: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = item.into_iter().collect();
    let mut o = TokenStream::new();
    let mut i = 0;
    // up to the name, without `async`
    while i < v.len() { let t = &v[i]; if t.to_string() == "async" { i += 1; continue; } o.extend([t.clone()]); i += 1; if t.to_string() == "fn" { break; } }
    o.extend([v[i].clone()]); i += 1; // name
    // generics
    let mut depth = 0;
    let mut first = true;
    loop {
        let s = v[i].to_string();
        if s == "<" { depth += 1; o.extend([v[i].clone()]); if first { o.extend("'sim,".parse::<TokenStream>().unwrap()); first = false; } i += 1; continue; }
        if s == ">" { depth -= 1; if depth == 0 { o.extend("+ 'sim".parse::<TokenStream>().unwrap()); } o.extend([v[i].clone()]); i += 1; if depth == 0 { break; } continue; }
        o.extend([v[i].clone()]); i += 1;
    }
    // arguments
    if let TokenTree::Group(g) = &v[i] { o.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, lifetime(g.stream())))]); }
    i += 1;
    // -> Ret
    let mut ret = TokenStream::new();
    while i < v.len() { if let TokenTree::Group(g) = &v[i] { if g.delimiter() == Delimiter::Brace { break; } } ret.extend([v[i].clone()]); i += 1; }
    let r: String = ret.to_string();
    let r = r.trim().trim_start_matches("->").trim().to_string();
    o.extend(format!("-> std::pin::Pin<Box<dyn std::future::Future<Output = {}> + Send + 'sim>>", r).parse::<TokenStream>().unwrap());
    let body = v[i].clone();
    let mut fut: TokenStream = "async move".parse().unwrap();
    fut.extend([body]);
    let mut inner: TokenStream = "Box::pin".parse().unwrap();
    inner.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, fut))]);
    o.extend([TokenTree::Group(Group::new(Delimiter::Brace, inner))]);
    o
}
