use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

// Prints a token stream with a newline after every `{`, `;` and `}`.
pub fn print(ts: TokenStream, indent: usize) -> String {
    let mut s = String::new();
    go(ts, indent, &mut s);
    s
}

fn nl(s: &mut String, indent: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    s.push('\n');
    for _ in 0..indent {
        s.push_str("    ");
    }
}

fn go(ts: TokenStream, indent: usize, s: &mut String) {
    let mut prev_joint = false;
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in toks.iter().enumerate() {
        match t {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    s.push('{');
                    if g.stream().is_empty() {
                        s.push('}');
                    } else {
                        nl(s, indent + 1);
                        go(g.stream(), indent + 1, s);
                        nl(s, indent);
                        s.push('}');
                    }
                    // newline unless followed by `else`, `.`, `,`, `;`, `)` or `?`
                    let follow = match toks.get(i + 1) {
                        None => true,
                        Some(TokenTree::Ident(id)) => *id == "else" || *id == "as",
                        Some(TokenTree::Punct(_)) => true,
                        _ => false,
                    };
                    if follow {
                        s.push(' ');
                    } else {
                        nl(s, indent);
                    }
                }
                Delimiter::Parenthesis => {
                    s.push('(');
                    go(g.stream(), indent, s);
                    while s.ends_with(' ') {
                        s.pop();
                    }
                    s.push_str(") ");
                }
                Delimiter::Bracket => {
                    s.push('[');
                    go(g.stream(), indent, s);
                    while s.ends_with(' ') {
                        s.pop();
                    }
                    s.push_str("] ");
                }
                Delimiter::None => {
                    go(g.stream(), indent, s);
                }
            },
            TokenTree::Ident(id) => {
                s.push_str(&id.to_string());
                s.push(' ');
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if (c == '.' || c == ',' || c == ';' || c == '?') && !prev_joint {
                    while s.ends_with(' ') {
                        s.pop();
                    }
                }
                s.push(c);
                prev_joint = p.spacing() == Spacing::Joint;
                if c == ';' {
                    nl(s, indent);
                } else if c == ',' && indent > 0 && false {
                    nl(s, indent);
                } else if p.spacing() == Spacing::Alone && c != '.' && c != '&' && c != '!' && c != '*' {
                    s.push(' ');
                } else if c == '!' && p.spacing() == Spacing::Alone {
                    // `!x` or macro bang
                }
                continue;
            }
        }
        prev_joint = false;
    }
}
