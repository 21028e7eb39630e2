//! `#[wasm_bindgen(...)]` on the native side of the simulation: an item is left as it is; a block of
//! imported host functions becomes functions that report the call to the simulated host.
use proc_macro::{Delimiter, TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut is_extern = false;
    for t in item.clone() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "extern" => is_extern = true,
            TokenTree::Ident(i) if i.to_string() == "fn" => is_extern = false,
            TokenTree::Ident(_) if !is_extern => break,
            TokenTree::Group(g) if is_extern && g.delimiter() == Delimiter::Brace => return imports(g.stream()),
            _ => {}
        }
    }
    item
}
fn imports(body: TokenStream) -> TokenStream {
    let mut out = String::new();
    let mut cur: Vec<TokenTree> = Vec::new();
    for t in body {
        if matches!(&t, TokenTree::Punct(p) if p.as_char() == ';') {
            // drop the attributes in front, keep `pub fn name(args) -> Ret`
            let mut i = 0;
            while i < cur.len() && matches!(&cur[i], TokenTree::Punct(p) if p.as_char() == '#') {
                i += 2;
            }
            let sig: TokenStream = cur[i..].iter().cloned().collect();
            let is_fn = cur[i..].iter().any(|t| matches!(t, TokenTree::Ident(x) if x.to_string() == "fn"));
            if is_fn {
                out.push_str(&format!("#[allow(unused_variables, dead_code, non_snake_case)] {} {{ ::wasm_bindgen::host::import() }}\n", sig));
            }
            cur.clear();
        } else {
            cur.push(t);
        }
    }
    out.parse().unwrap_or_default()
}
