//! Makes attributes observable.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

/// An `impl` with `#[tag(x)]` gets a constant TAG_x.
#[proc_macro_attribute]
pub fn tag(args: TokenStream, item: TokenStream) -> TokenStream {
    let mut tokens: Vec<TokenTree> = item.into_iter().collect();
    if let Some(TokenTree::Group(g)) = tokens.pop() {
        let mut body = g.stream();
        body.extend(format!("pub const TAG_{args}: bool = true;").parse::<TokenStream>().unwrap());
        tokens.push(TokenTree::Group(Group::new(Delimiter::Brace, body)));
    }
    tokens.into_iter().collect()
}

/// The tag of `#[t(x)]` or `#[u(x)]`
fn tag_of(attr: &TokenTree) -> Option<String> {
    let TokenTree::Group(g) = attr else { return None };
    let mut it = g.stream().into_iter();
    match (it.next(), it.next()) {
        (Some(TokenTree::Ident(n)), Some(TokenTree::Group(a))) if ["t", "u"].contains(&&*n.to_string()) => {
            Some(format!("{n}{}", a.stream()))
        }
        _ => None,
    }
}

/// All tags of a struct and its fields in one string: `name: tags; field: tags;`
#[proc_macro_derive(Tagged, attributes(t, u))]
pub fn tagged(item: TokenStream) -> TokenStream {
    let mut own = vec![];
    let mut name = String::new();
    let mut list = String::new();
    let mut it = item.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => own.extend(tag_of(&it.next().unwrap())),
            TokenTree::Ident(i) if i.to_string() == "struct" => name = it.next().unwrap().to_string(),
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                let mut f = g.stream().into_iter().peekable();
                let mut tags = vec![];
                let mut last = String::new();
                let mut depth = 0;
                let mut in_type = false;
                while let Some(t) = f.next() {
                    match t {
                        TokenTree::Punct(p) => match p.as_char() {
                            '#' if !in_type => tags.extend(tag_of(&f.next().unwrap())),
                            ':' if !in_type => {
                                in_type = true;
                                tags.sort();
                                if !tags.is_empty() {
                                    list += &format!(" {last}: {};", tags.join(","));
                                }
                                tags.clear();
                            }
                            '<' => depth += 1,
                            '>' => depth -= 1,
                            ',' if depth == 0 => in_type = false,
                            _ => (),
                        },
                        TokenTree::Ident(i) if !in_type => last = i.to_string(),
                        _ => (),
                    }
                }
            }
            _ => (),
        }
    }
    own.sort();
    format!("impl crate::Tags for {name} {{ const TAGS: &'static str = \"{}{list}\"; }}", own.join(",")).parse().unwrap()
}

/// The struct as it is seen by derive macros: `attributes|visibility|name|attributes visibility field: type|...`
#[proc_macro_derive(Shape, attributes(t, u))]
pub fn shape(item: TokenStream) -> TokenStream {
    let (mut head, mut fields, mut name) = (String::new(), vec![], String::new());
    let mut it = item.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "struct" => {
                name = it.next().unwrap().to_string();
                head += "struct";
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                let (mut one, mut depth) = (String::new(), 0);
                for t in g.stream() {
                    match &t {
                        TokenTree::Punct(p) if p.as_char() == '<' => depth += 1,
                        TokenTree::Punct(p) if p.as_char() == '>' => depth -= 1,
                        _ => (),
                    }
                    if matches!(&t, TokenTree::Punct(p) if p.as_char() == ',') && depth == 0 {
                        fields.push(std::mem::take(&mut one));
                    } else {
                        one += &text(&t);
                    }
                }
                if !one.is_empty() {
                    fields.push(one);
                }
            }
            t => head += &text(&t),
        }
    }
    let all: Vec<String> = std::iter::once(head).chain(fields).map(|s| format!("{s:?}")).collect();
    format!("impl crate::Shaped for {name} {{ const SHAPE: &'static [&'static str] = &[{}]; }}", all.join(",")).parse().unwrap()
}

/// Tokens without spaces
fn text(t: &TokenTree) -> String {
    t.to_string().chars().filter(|c| !c.is_whitespace()).collect()
}
