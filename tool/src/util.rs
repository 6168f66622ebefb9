use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;

/// Render tokens with a line break after `{`, `}` and `;` so that verifier spans are readable.
pub fn render(ts: TokenStream) -> String {
    let mut out = String::new();
    go(ts, &mut out, 1);
    out
}

fn nl(out: &mut String, ind: usize) {
    while out.ends_with(' ') {
        out.pop();
    }
    out.push('\n');
    for _ in 0..ind {
        out.push_str("  ");
    }
}

fn go(ts: TokenStream, out: &mut String, ind: usize) {
    for t in ts {
        match t {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    out.push('{');
                    if g.stream().is_empty() {
                        out.push_str("} ");
                        continue;
                    }
                    nl(out, ind + 1);
                    go(g.stream(), out, ind + 1);
                    nl(out, ind);
                    out.push('}');
                    nl(out, ind);
                }
                Delimiter::Parenthesis => {
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push('(');
                    go(g.stream(), out, ind + 1);
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str(") ");
                }
                Delimiter::Bracket => {
                    out.push('[');
                    go(g.stream(), out, ind + 1);
                    out.push_str("] ");
                }
                Delimiter::None => go(g.stream(), out, ind),
            },
            TokenTree::Punct(p) => {
                if p.as_char() == ';' {
                    out.push(';');
                    nl(out, ind);
                } else {
                    out.push(p.as_char());
                    if p.spacing() == Spacing::Alone && p.as_char() != '\'' {
                        out.push(' ');
                    }
                }
            }
            TokenTree::Ident(i) => {
                let s = i.to_string();
                if s.starts_with("__CLAUSES__") || s.starts_with("__INV__") || s.starts_with("__HOOK__") || s.starts_with("__SNAP__") || s.starts_with("__SELFSNAP__") {
                    nl(out, 0);
                    out.push_str("@@");
                    out.push_str(&s);
                    out.push_str("@@");
                    nl(out, ind);
                } else {
                    out.push_str(&s);
                    out.push(' ');
                }
            }
            TokenTree::Literal(l) => {
                out.push_str(&l.to_string());
                out.push(' ');
            }
        }
    }
}

pub fn ts<T: ToTokens>(t: &T) -> TokenStream {
    t.to_token_stream()
}

pub fn tstr<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

pub fn is_type_like(s: &str) -> bool {
    s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false)
}
