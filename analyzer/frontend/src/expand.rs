//! Expansion of the repository's own `macro_rules!` macros (those defined in the file being parsed).

use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::cell::RefCell;
use std::collections::BTreeMap;
use syn::parse::{ParseStream, Parser};
use syn::*;

type Rule = (Vec<TokenTree>, Vec<TokenTree>);

thread_local! {
    static RULES: RefCell<BTreeMap<String, Vec<Rule>>> = const { RefCell::new(BTreeMap::new()) };
    static DEPTH: RefCell<usize> = const { RefCell::new(0) };
}

pub fn collect(f: &File) {
    RULES.with(|r| r.borrow_mut().clear());
    items(&f.items);
}

fn items(v: &[Item]) {
    for i in v {
        match i {
            Item::Mod(m) => {
                if let Some((_, v)) = &m.content {
                    items(v)
                }
            }
            Item::Macro(m) if m.mac.path.is_ident("macro_rules") => {
                if let Some(id) = &m.ident {
                    if let Some(r) = rules(m.mac.tokens.clone()) {
                        RULES.with(|x| x.borrow_mut().insert(id.to_string(), r));
                    }
                }
            }
            _ => {}
        }
    }
}

fn rules(t: TokenStream) -> Option<Vec<Rule>> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let TokenTree::Group(a) = &v[i] else { return None };
        let TokenTree::Group(b) = v.get(i + 3)? else { return None };
        out.push((
            a.stream().into_iter().collect(),
            b.stream().into_iter().collect(),
        ));
        i += 4;
        if let Some(TokenTree::Punct(p)) = v.get(i) {
            if p.as_char() == ';' {
                i += 1;
            }
        }
    }
    Some(out)
}

#[derive(Clone, Debug)]
enum B {
    Leaf(TokenStream),
    Rep(Vec<BTreeMap<String, B>>),
}

pub fn try_expand(name: &str, t: TokenStream) -> Option<TokenStream> {
    let known = RULES.with(|r| r.borrow().contains_key(name));
    if !known {
        return None;
    }
    let d = DEPTH.with(|d| {
        *d.borrow_mut() += 1;
        *d.borrow()
    });
    let r = if d > 40 { None } else { expand(name, t) };
    DEPTH.with(|d| *d.borrow_mut() -= 1);
    r
}

fn expand(name: &str, t: TokenStream) -> Option<TokenStream> {
    let rs = RULES.with(|r| r.borrow().get(name).cloned())?;
    for (pat, body) in rs {
        let mut b = BTreeMap::new();
        let input: Vec<TokenTree> = t.clone().into_iter().collect();
        if let Some(n) = m(&pat, &input, 0, &mut b) {
            if n == input.len() {
                return Some(subst(&body, &b));
            }
        }
    }
    None
}

fn frag(kind: &str, input: &[TokenTree], at: usize) -> Option<(TokenStream, usize)> {
    let rest: TokenStream = input[at..].iter().cloned().collect();
    let total = input.len() - at;
    fn go<T: ToTokens>(rest: TokenStream, total: usize, f: impl Fn(ParseStream) -> Result<T>) -> Option<(TokenStream, usize)> {
        let p = |i: ParseStream| -> Result<(TokenStream, usize)> {
            let x = f(i)?;
            let tail: TokenStream = i.parse()?;
            Ok((x.to_token_stream(), tail.into_iter().count()))
        };
        let (x, left) = p.parse2(rest).ok()?;
        if total == left {
            return None;
        }
        Some((x, total - left))
    }
    match kind {
        "tt" => input.get(at).map(|t| (TokenStream::from(t.clone()), 1)),
        "ident" => match input.get(at) {
            Some(TokenTree::Ident(i)) => Some((TokenTree::Ident(i.clone()).into(), 1)),
            _ => None,
        },
        "expr" => go(rest, total, |i| i.parse::<Expr>()),
        "ty" => go(rest, total, |i| i.parse::<Type>()),
        "path" => go(rest, total, |i| i.parse::<Path>()),
        "literal" => go(rest, total, |i| i.parse::<Lit>()),
        "block" => go(rest, total, |i| i.parse::<Block>()),
        "pat" => go(rest, total, Pat::parse_multi),
        "vis" => go(rest, total, |i| i.parse::<Visibility>()).or(Some((TokenStream::new(), 0))),
        "item" => go(rest, total, |i| i.parse::<Item>()),
        "lifetime" => go(rest, total, |i| i.parse::<Lifetime>()),
        _ => None,
    }
}

fn is_punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

fn m(pat: &[TokenTree], input: &[TokenTree], mut at: usize, b: &mut BTreeMap<String, B>) -> Option<usize> {
    let mut i = 0;
    while i < pat.len() {
        if is_punct(pat.get(i), '$') {
            match pat.get(i + 1) {
                Some(TokenTree::Ident(name)) if is_punct(pat.get(i + 2), ':') => {
                    let kind = pat.get(i + 3)?.to_string();
                    let (t, n) = frag(&kind, input, at)?;
                    b.insert(name.to_string(), B::Leaf(t));
                    at += n;
                    i += 4;
                    continue;
                }
                Some(TokenTree::Group(g)) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut j = i + 2;
                    let mut sep = None;
                    let mut op = pat.get(j)?.to_string();
                    if op != "*" && op != "+" && op != "?" {
                        sep = Some(op);
                        j += 1;
                        op = pat.get(j)?.to_string();
                    }
                    let mut reps = vec![];
                    loop {
                        let mut nb = BTreeMap::new();
                        let mut start = at;
                        if !reps.is_empty() {
                            if let Some(sp) = &sep {
                                match input.get(at) {
                                    Some(t) if &t.to_string() == sp => start = at + 1,
                                    _ => break,
                                }
                            }
                        }
                        if start >= input.len() {
                            break;
                        }
                        match m(&inner, input, start, &mut nb) {
                            Some(n) if n > start => {
                                at = n;
                                reps.push(nb);
                            }
                            _ => break,
                        }
                        if op == "?" {
                            break;
                        }
                    }
                    if op == "+" && reps.is_empty() {
                        return None;
                    }
                    let mut names = vec![];
                    vars(&inner, &mut names);
                    for n in names {
                        b.insert(
                            n.clone(),
                            B::Rep(
                                reps.iter()
                                    .map(|r| {
                                        r.iter()
                                            .filter(|(k, _)| **k == n)
                                            .map(|(k, v)| (k.clone(), v.clone()))
                                            .collect()
                                    })
                                    .collect(),
                            ),
                        );
                    }
                    i = j + 1;
                    continue;
                }
                _ => {}
            }
        }
        match (&pat[i], input.get(at)?) {
            (TokenTree::Group(p), TokenTree::Group(x)) => {
                if p.delimiter() != x.delimiter() {
                    return None;
                }
                let pv: Vec<TokenTree> = p.stream().into_iter().collect();
                let xv: Vec<TokenTree> = x.stream().into_iter().collect();
                let n = m(&pv, &xv, 0, b)?;
                if n != xv.len() {
                    return None;
                }
            }
            (p, x) => {
                if p.to_string() != x.to_string() {
                    return None;
                }
            }
        }
        i += 1;
        at += 1;
    }
    Some(at)
}

fn vars(p: &[TokenTree], out: &mut Vec<String>) {
    for (i, t) in p.iter().enumerate() {
        if is_punct(Some(t), '$') {
            if let Some(TokenTree::Ident(n)) = p.get(i + 1) {
                out.push(n.to_string());
            }
        }
        if let TokenTree::Group(g) = t {
            let v: Vec<TokenTree> = g.stream().into_iter().collect();
            vars(&v, out);
        }
    }
}

fn subst(body: &[TokenTree], b: &BTreeMap<String, B>) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < body.len() {
        if is_punct(body.get(i), '$') {
            match body.get(i + 1) {
                Some(TokenTree::Ident(n)) => {
                    if let Some(B::Leaf(t)) = b.get(&n.to_string()) {
                        out.extend(t.clone());
                        i += 2;
                        continue;
                    }
                    if n == "crate" {
                        out.push(body[i + 1].clone());
                        i += 2;
                        continue;
                    }
                }
                Some(TokenTree::Group(g)) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut j = i + 2;
                    let mut sep = None;
                    let mut op = body.get(j).map(|t| t.to_string()).unwrap_or_default();
                    if op != "*" && op != "+" && op != "?" {
                        sep = body.get(j).cloned();
                        j += 1;
                        op = body.get(j).map(|t| t.to_string()).unwrap_or_default();
                    }
                    let _ = op;
                    let mut names = vec![];
                    vars(&inner, &mut names);
                    let reps = names.iter().find_map(|n| match b.get(n) {
                        Some(B::Rep(r)) => Some(r.len()),
                        _ => None,
                    });
                    for k in 0..reps.unwrap_or(0) {
                        let mut nb = b.clone();
                        for n in &names {
                            if let Some(B::Rep(r)) = b.get(n) {
                                if let Some(x) = r.get(k) {
                                    nb.extend(x.clone());
                                }
                            }
                        }
                        if k > 0 {
                            out.extend(sep.clone());
                        }
                        out.extend(subst(&inner, &nb));
                    }
                    i = j + 1;
                    continue;
                }
                _ => {}
            }
        }
        match &body[i] {
            TokenTree::Group(g) => {
                let v: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut ng = Group::new(g.delimiter(), subst(&v, b));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    let _ = Delimiter::None;
    out.into_iter().collect()
}
