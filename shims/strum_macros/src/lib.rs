//! Stand-in for the derives of `strum_macros` the circuit crate uses: enums of fieldless variants (and variants whose
//! fields have defaults), in declaration order.
use proc_macro::{Delimiter, TokenStream, TokenTree};
fn parse(ts: TokenStream) -> (String, Vec<(String, Option<Delimiter>, usize)>) {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let k = t.iter().position(|x| matches!(x, TokenTree::Ident(i) if i.to_string() == "enum")).expect("enum");
    let name = t[k + 1].to_string();
    let TokenTree::Group(g) = &t[k + 2] else { panic!("enum body") };
    let b: Vec<TokenTree> = g.stream().into_iter().collect();
    let (mut out, mut i) = (vec![], 0);
    while i < b.len() {
        match &b[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => i += 2,
            TokenTree::Ident(v) => {
                let mut f = (None, 0);
                if let Some(TokenTree::Group(g)) = b.get(i + 1) { f = (Some(g.delimiter()), 1); i += 1 }
                out.push((v.to_string(), f.0, f.1));
                i += 1;
                while i < b.len() && !matches!(&b[i], TokenTree::Punct(p) if p.as_char() == ',') { i += 1 }
                i += 1;
            }
            _ => i += 1,
        }
    }
    (name, out)
}
#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(ts: TokenStream) -> TokenStream {
    let (n, v) = parse(ts);
    let l: Vec<String> = v.iter().map(|(x, d, _)| match d { None => format!("{n}::{x}"), Some(Delimiter::Parenthesis) => format!("{n}::{x}(Default::default())"), _ => panic!("fields") }).collect();
    format!("impl strum::IntoEnumIterator for {n} {{ type Iterator = std::vec::IntoIter<{n}>; fn iter() -> Self::Iterator {{ vec![{}].into_iter() }} }}", l.join(",")).parse().unwrap()
}
#[proc_macro_derive(AsRefStr, attributes(strum))]
pub fn as_ref_str(ts: TokenStream) -> TokenStream {
    let (n, v) = parse(ts);
    let l: Vec<String> = v.iter().map(|(x, d, _)| format!("{n}::{x}{} => {x:?},", match d { None => "", Some(Delimiter::Parenthesis) => "(..)", _ => "{..}" })).collect();
    format!("impl AsRef<str> for {n} {{ fn as_ref(&self) -> &str {{ match self {{ {} }} }} }}", l.join("")).parse().unwrap()
}
