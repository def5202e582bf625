//! derive(Clap) of the stand-in: a variant is chosen by its name, a String field is set by its `long` or `short` name or
//! takes its `default_value`.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};
fn attribute(attrs: &[TokenTree], key: &str) -> Option<String> {
    let key = format!("{}=\"", key);
    for a in attrs {
        let s = a.to_string().replace(' ', "").replace('\n', "");
        if let Some(i) = s.find(&key) {
            let r = &s[i + key.len()..];
            return Some(r[..r.find('"').unwrap()].to_string());
        }
    }
    None
}
#[proc_macro_derive(Clap, attributes(clap))]
pub fn derive(i: TokenStream) -> TokenStream {
    let t: Vec<TokenTree> = i.into_iter().collect();
    let k = t.iter().position(|x| x.to_string() == "struct" || x.to_string() == "enum").unwrap();
    let kind = t[k].to_string();
    let name = t[k + 1].to_string();
    let body = match &t[k + 2] {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => g.stream(),
        _ => panic!("shape not known to the stand-in"),
    };
    let mut fields: Vec<(String, String, String)> = vec![]; // name, type, the call which gives the value
    let mut cur: Vec<TokenTree> = vec![];
    let mut parts: Vec<Vec<TokenTree>> = vec![];
    for x in body {
        if x.to_string() == "," {
            parts.push(std::mem::replace(&mut cur, vec![]));
        } else {
            cur.push(x)
        }
    }
    parts.push(cur);
    for c in parts {
        let mut j = 0;
        while j + 1 < c.len() && c[j].to_string() == "#" {
            j += 2;
        }
        let attrs = &c[..j];
        if j < c.len() && c[j].to_string() == "pub" {
            j += 1;
        }
        if j < c.len() {
            let n = c[j].to_string();
            let ty = match c.get(j + 1) {
                Some(TokenTree::Group(g)) => g.stream().to_string(),
                _ => c[j + 2..].iter().map(|x| x.to_string()).collect::<String>(),
            };
            let l = format!(
                "clap::arg({:?}, {:?}, {:?})",
                attribute(attrs, "long").unwrap_or_else(|| n.replace('_', "-")),
                attribute(attrs, "short").unwrap_or_default(),
                attribute(attrs, "default_value").unwrap_or_default()
            );
            fields.push((n, ty, l));
        }
    }
    let e = if kind == "enum" {
        let arms: String = fields.iter().map(|(n, t, _)| format!("if clap::command() == \"{}\" {{ return {}::{}(<{} as clap::Clap>::parse()); }}", n, name, n, t)).collect();
        format!("{} panic!(\"stand-in: no such command\")", arms)
    } else {
        let f: String = fields
            .iter()
            .map(|(n, t, l)| if t == "String" { format!("{}: {},", n, l) } else { format!("{}: <{} as clap::Clap>::parse(),", n, t) })
            .collect();
        format!("{} {{ {} }}", name, f)
    };
    format!("impl clap::Clap for {} {{ fn parse() -> Self {{ {} }} }}", name, e).parse().unwrap()
}
