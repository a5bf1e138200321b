//! Parses Rust source files and writes their syntax trees, with line numbers, as JSON.
//!
//! usage: frontend ROOT FILE...   (FILE relative to ROOT; JSON object on stdout)

mod expand;
mod json;

use json::{arr, null, num, obj, s, J};
use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
use quote::ToTokens;
use syn::parse::{Parse, ParseStream, Parser};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

fn line(sp: Span) -> J {
    num(sp.start().line as i64)
}

fn toks<T: ToTokens>(t: &T) -> J {
    s(t.to_token_stream().to_string())
}

fn node(k: &str, sp: Span, mut f: Vec<(&'static str, J)>) -> J {
    let mut v = vec![("k", s(k)), ("l", line(sp))];
    v.append(&mut f);
    obj(v)
}

fn opt<T>(o: &Option<T>, f: impl Fn(&T) -> J) -> J {
    o.as_ref().map(f).unwrap_or(null())
}

// ------------------------------------------------------------------ tokens
fn tt_json(ts: TokenStream) -> J {
    arr(ts
        .into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                let d = match g.delimiter() {
                    Delimiter::Parenthesis => "(",
                    Delimiter::Brace => "{",
                    Delimiter::Bracket => "[",
                    Delimiter::None => "",
                };
                obj(vec![("g", s(d)), ("t", tt_json(g.stream())), ("l", line(g.span_open()))])
            }
            t => s(t.to_string()),
        })
        .collect())
}

// ------------------------------------------------------------------ attributes
fn attrs(a: &[Attribute]) -> J {
    arr(a
        .iter()
        .filter(|a| !a.path().is_ident("doc"))
        .map(|a| {
            let t = match &a.meta {
                Meta::Path(_) => TokenStream::new(),
                Meta::List(l) => l.tokens.clone(),
                Meta::NameValue(n) => n.value.to_token_stream(),
            };
            let args: J = if matches!(a.meta, Meta::NameValue(_)) {
                syn::parse2::<Expr>(t.clone()).map(|e| arr(vec![expr(&e)])).unwrap_or(null())
            } else {
                Punctuated::<Expr, Token![,]>::parse_terminated
                    .parse2(t.clone())
                    .map(|p| arr(p.iter().map(expr).collect()))
                    .unwrap_or(null())
            };
            obj(vec![
                ("path", toks_path(a.path())),
                ("tokens", s(t.to_string())),
                ("tt", tt_json(t)),
                ("args", args),
            ])
        })
        .collect())
}

fn toks_path(p: &syn::Path) -> J {
    s(p.segments.iter().map(|x| x.ident.to_string()).collect::<Vec<_>>().join("::"))
}

// ------------------------------------------------------------------ paths, types
fn gargs(a: &PathArguments) -> J {
    match a {
        PathArguments::None => null(),
        PathArguments::AngleBracketed(a) => arr(a.args.iter().map(garg).collect()),
        PathArguments::Parenthesized(p) => arr(vec![node(
            "FnArgs",
            p.span(),
            vec![
                ("ins", arr(p.inputs.iter().map(ty).collect())),
                (
                    "out",
                    match &p.output {
                        ReturnType::Default => null(),
                        ReturnType::Type(_, t) => ty(t),
                    },
                ),
            ],
        )]),
    }
}

fn garg(g: &GenericArgument) -> J {
    match g {
        GenericArgument::Type(t) => ty(t),
        GenericArgument::Lifetime(l) => node("Lifetime", l.span(), vec![("id", s(l.ident.to_string()))]),
        GenericArgument::Const(e) => node("ConstArg", e.span(), vec![("e", expr(e))]),
        GenericArgument::AssocType(a) => node(
            "AssocArg",
            a.span(),
            vec![("id", s(a.ident.to_string())), ("ty", ty(&a.ty))],
        ),
        GenericArgument::AssocConst(a) => node(
            "AssocConstArg",
            a.span(),
            vec![("id", s(a.ident.to_string())), ("e", expr(&a.value))],
        ),
        GenericArgument::Constraint(c) => node("ConstraintArg", c.span(), vec![("id", s(c.ident.to_string()))]),
        g => node("OtherArg", g.span(), vec![("t", toks(g))]),
    }
}

fn segs(p: &syn::Path) -> J {
    arr(p
        .segments
        .iter()
        .map(|x| obj(vec![("id", s(x.ident.to_string())), ("args", gargs(&x.arguments))]))
        .collect())
}

fn path(k: &str, q: &Option<QSelf>, p: &syn::Path) -> J {
    let mut f = vec![("segs", segs(p))];
    if p.leading_colon.is_some() {
        f.push(("lead", J::Bool(true)));
    }
    if let Some(q) = q {
        f.push(("qself", ty(&q.ty)));
        f.push(("qpos", num(q.position as i64)));
    }
    node(k, p.span(), f)
}

fn bounds(b: &Punctuated<TypeParamBound, Token![+]>) -> J {
    arr(b
        .iter()
        .map(|b| match b {
            TypeParamBound::Trait(t) => path("Bound", &None, &t.path),
            b => node("OtherBound", b.span(), vec![("t", toks(b))]),
        })
        .collect())
}

fn ty(t: &Type) -> J {
    let sp = t.span();
    match t {
        Type::Array(a) => node("TyArray", sp, vec![("ty", ty(&a.elem)), ("len", expr(&a.len))]),
        Type::BareFn(f) => node(
            "TyFn",
            sp,
            vec![
                ("ins", arr(f.inputs.iter().map(|a| ty(&a.ty)).collect())),
                ("out", ret(&f.output)),
            ],
        ),
        Type::Group(g) => ty(&g.elem),
        Type::Paren(g) => ty(&g.elem),
        Type::ImplTrait(i) => node("TyImpl", sp, vec![("bounds", bounds(&i.bounds))]),
        Type::Infer(_) => node("TyInfer", sp, vec![]),
        Type::Macro(m) => node("TyMacro", sp, vec![("m", mac(&m.mac))]),
        Type::Never(_) => node("TyNever", sp, vec![]),
        Type::Path(p) => path("TyPath", &p.qself, &p.path),
        Type::Ptr(p) => node(
            "TyPtr",
            sp,
            vec![("ty", ty(&p.elem)), ("mut", J::Bool(p.mutability.is_some()))],
        ),
        Type::Reference(r) => node(
            "TyRef",
            sp,
            vec![("ty", ty(&r.elem)), ("mut", J::Bool(r.mutability.is_some()))],
        ),
        Type::Slice(x) => node("TySlice", sp, vec![("ty", ty(&x.elem))]),
        Type::TraitObject(x) => node("TyDyn", sp, vec![("bounds", bounds(&x.bounds))]),
        Type::Tuple(x) => node("TyTuple", sp, vec![("tys", arr(x.elems.iter().map(ty).collect()))]),
        t => node("TyOther", sp, vec![("t", toks(t))]),
    }
}

fn ret(r: &ReturnType) -> J {
    match r {
        ReturnType::Default => null(),
        ReturnType::Type(_, t) => ty(t),
    }
}

// ------------------------------------------------------------------ literals
fn lit(l: &Lit) -> J {
    let sp = l.span();
    match l {
        Lit::Int(i) => node(
            "Lit",
            sp,
            vec![
                ("t", s("int")),
                ("v", s(i.base10_digits().to_string())),
                ("suffix", s(i.suffix().to_string())),
            ],
        ),
        Lit::Bool(b) => node("Lit", sp, vec![("t", s("bool")), ("v", J::Bool(b.value))]),
        Lit::Str(x) => node("Lit", sp, vec![("t", s("str")), ("v", s(x.value()))]),
        Lit::Char(x) => node("Lit", sp, vec![("t", s("char")), ("v", s(x.value().to_string()))]),
        Lit::Byte(x) => node(
            "Lit",
            sp,
            vec![("t", s("int")), ("v", s(x.value().to_string())), ("suffix", s("u8"))],
        ),
        Lit::ByteStr(x) => node(
            "Lit",
            sp,
            vec![
                ("t", s("bytestr")),
                ("v", arr(x.value().iter().map(|b| num(*b as i64)).collect())),
            ],
        ),
        Lit::Float(f) => node(
            "Lit",
            sp,
            vec![("t", s("float")), ("v", s(f.base10_digits().to_string()))],
        ),
        l => node("Lit", sp, vec![("t", s("other")), ("v", toks(l))]),
    }
}

// ------------------------------------------------------------------ macros
struct MatchesArgs {
    e: Expr,
    p: Pat,
    g: Option<Expr>,
}
impl Parse for MatchesArgs {
    fn parse(i: ParseStream) -> Result<Self> {
        let e = i.parse()?;
        i.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(Token![if]) {
            i.parse::<Token![if]>()?;
            Some(i.parse()?)
        } else {
            None
        };
        let _ = i.parse::<Option<Token![,]>>()?;
        Ok(MatchesArgs { e, p, g })
    }
}

struct Param {
    a: Vec<Attribute>,
    kind: String,
    id: Ident,
    t: Type,
    e: Expr,
}
struct Params(Vec<Param>);
impl Parse for Params {
    fn parse(i: ParseStream) -> Result<Self> {
        let mut v = vec![];
        while !i.is_empty() {
            let a = i.call(Attribute::parse_outer)?;
            let _: Visibility = i.parse()?;
            let kind = if i.peek(Token![const]) {
                i.parse::<Token![const]>()?;
                "const".to_string()
            } else if i.peek(Token![static]) {
                i.parse::<Token![static]>()?;
                "static".to_string()
            } else if i.peek(Ident) && i.peek2(Ident) {
                i.parse::<Ident>()?.to_string()
            } else {
                "value".to_string()
            };
            let id: Ident = i.parse()?;
            i.parse::<Token![:]>()?;
            let t: Type = i.parse()?;
            i.parse::<Token![=]>()?;
            let e: Expr = i.parse()?;
            i.parse::<Token![;]>()?;
            v.push(Param { a, kind, id, t, e });
        }
        Ok(Params(v))
    }
}

struct Morph {
    id: Ident,
    g: Generics,
    tr: syn::Path,
    f: Expr,
}
struct Morphs(Vec<Morph>);
impl Parse for Morphs {
    fn parse(i: ParseStream) -> Result<Self> {
        let mut v = vec![];
        while !i.is_empty() {
            let _ = i.call(Attribute::parse_outer)?;
            let _: Visibility = i.parse()?;
            i.parse::<Token![type]>()?;
            let id: Ident = i.parse()?;
            let g: Generics = if i.peek(Token![<]) { i.parse()? } else { Generics::default() };
            i.parse::<Token![:]>()?;
            let tr: syn::Path = i.parse()?;
            i.parse::<Token![=]>()?;
            let f: Expr = i.parse()?;
            if i.peek(Token![where]) {
                let _: WhereClause = i.parse()?;
            }
            i.parse::<Token![;]>()?;
            v.push(Morph { id, g, tr, f });
        }
        Ok(Morphs(v))
    }
}

enum Json {
    Object(Vec<(String, Json)>),
    Array(Vec<Json>),
    Value(Expr),
}
impl Json {
    fn object(i: ParseStream) -> Result<Json> {
        let mut v = vec![];
        while !i.is_empty() {
            let k: LitStr = i.parse()?;
            i.parse::<Token![:]>()?;
            v.push((k.value(), i.parse()?));
            if !i.is_empty() {
                i.parse::<Token![,]>()?;
            }
        }
        Ok(Json::Object(v))
    }
    fn dump(&self) -> J {
        match self {
            Json::Object(v) => obj(vec![("o", arr(v.iter().map(|(k, x)| arr(vec![s(k.clone()), x.dump()])).collect()))]),
            Json::Array(v) => obj(vec![("a", arr(v.iter().map(|x| x.dump()).collect()))]),
            Json::Value(e) => obj(vec![("e", expr(e))]),
        }
    }
}
impl Parse for Json {
    fn parse(i: ParseStream) -> Result<Self> {
        if i.peek(syn::token::Brace) {
            let c;
            syn::braced!(c in i);
            return Json::object(&c);
        }
        if i.peek(syn::token::Bracket) {
            let c;
            syn::bracketed!(c in i);
            let v = Punctuated::<Json, Token![,]>::parse_terminated(&c)?;
            return Ok(Json::Array(v.into_iter().collect()));
        }
        Ok(Json::Value(i.parse()?))
    }
}

struct Stmts(Vec<Stmt>);
impl Parse for Stmts {
    fn parse(i: ParseStream) -> Result<Self> {
        Ok(Stmts(Block::parse_within(i)?))
    }
}

fn mac(m: &Macro) -> J {
    let name = m.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
    let mut f = vec![("path", toks_path(&m.path)), ("name", s(name.clone()))];
    let t = m.tokens.clone();
    let mut done = false;
    if name == "matches" || name == "assert_matches" {
        if let Ok(a) = syn::parse2::<MatchesArgs>(t.clone()) {
            f.push((
                "matches",
                obj(vec![("e", expr(&a.e)), ("pat", pat(&a.p)), ("guard", opt(&a.g, expr))]),
            ));
            done = true;
        }
    }
    if name == "parameter_types" {
        if let Ok(p) = syn::parse2::<Params>(t.clone()) {
            f.push((
                "params",
                arr(p
                    .0
                    .iter()
                    .map(|p| {
                        node(
                            "Param",
                            p.id.span(),
                            vec![
                                ("attrs", attrs(&p.a)),
                                ("kind", s(p.kind.clone())),
                                ("id", s(p.id.to_string())),
                                ("ty", ty(&p.t)),
                                ("e", expr(&p.e)),
                            ],
                        )
                    })
                    .collect()),
            ));
            done = true;
        }
    }
    if name == "morph_types" {
        if let Ok(p) = syn::parse2::<Morphs>(t.clone()) {
            f.push((
                "morphs",
                arr(p
                    .0
                    .iter()
                    .map(|p| {
                        node(
                            "Morph",
                            p.id.span(),
                            vec![
                                ("id", s(p.id.to_string())),
                                ("generics", generics(&p.g)),
                                ("trait", path("Path", &None, &p.tr)),
                                ("f", expr(&p.f)),
                            ],
                        )
                    })
                    .collect()),
            ));
            done = true;
        }
    }
    if name == "json" {
        if let Ok(j) = syn::parse2::<Json>(t.clone()) {
            f.push(("json", j.dump()));
        }
    }
    if let Some(e) = expand::try_expand(&name, t.clone()) {
        if let Ok(file) = syn::parse2::<File>(e.clone()) {
            f.push(("expanded", arr(file.items.iter().map(item).collect())));
        }
        if let Ok(st) = syn::parse2::<Stmts>(e) {
            f.push(("expanded_stmts", arr(st.0.iter().map(stmt).collect())));
        }
        done = true;
    }
    if !done {
        if let Ok(p) = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(t.clone()) {
            f.push(("args", arr(p.iter().map(expr).collect())));
        } else if let Ok((e, n)) = parse_repeat(t.clone()) {
            f.push(("repeat", arr(vec![expr(&e), expr(&n)])));
        } else if let Ok(file) = syn::parse2::<File>(t.clone()) {
            f.push(("items", arr(file.items.iter().map(item).collect())));
        } else if let Ok(st) = syn::parse2::<Stmts>(t.clone()) {
            f.push(("stmts", arr(st.0.iter().map(stmt).collect())));
        }
        f.push(("tt", tt_json(t)));
    }
    node("Mac", m.path.span(), f)
}

fn parse_repeat(t: TokenStream) -> Result<(Expr, Expr)> {
    let p = |i: ParseStream| -> Result<(Expr, Expr)> {
        let e = i.parse()?;
        i.parse::<Token![;]>()?;
        let n = i.parse()?;
        Ok((e, n))
    };
    p.parse2(t)
}

// ------------------------------------------------------------------ patterns
fn member(m: &Member) -> J {
    match m {
        Member::Named(i) => s(i.to_string()),
        Member::Unnamed(i) => s(i.index.to_string()),
    }
}

fn pat(p: &Pat) -> J {
    let sp = p.span();
    match p {
        Pat::Const(c) => node("PatConst", sp, vec![("t", toks(c))]),
        Pat::Ident(i) => node(
            "PatIdent",
            sp,
            vec![
                ("id", s(i.ident.to_string())),
                ("ref", J::Bool(i.by_ref.is_some())),
                ("mut", J::Bool(i.mutability.is_some())),
                ("sub", i.subpat.as_ref().map(|x| pat(&x.1)).unwrap_or(null())),
            ],
        ),
        Pat::Lit(l) => node("PatLit", sp, vec![("e", lit(&l.lit))]),
        Pat::Macro(m) => node("PatMacro", sp, vec![("m", mac(&m.mac))]),
        Pat::Or(o) => node("PatOr", sp, vec![("cases", arr(o.cases.iter().map(pat).collect()))]),
        Pat::Paren(x) => pat(&x.pat),
        Pat::Path(x) => path("PatPath", &x.qself, &x.path),
        Pat::Range(r) => node(
            "PatRange",
            sp,
            vec![
                ("start", r.start.as_ref().map(|e| expr(e)).unwrap_or(null())),
                ("end", r.end.as_ref().map(|e| expr(e)).unwrap_or(null())),
                ("closed", J::Bool(matches!(r.limits, RangeLimits::Closed(_)))),
            ],
        ),
        Pat::Reference(r) => node("PatRef", sp, vec![("pat", pat(&r.pat))]),
        Pat::Rest(_) => node("PatRest", sp, vec![]),
        Pat::Slice(x) => node("PatSlice", sp, vec![("elems", arr(x.elems.iter().map(pat).collect()))]),
        Pat::Struct(x) => node(
            "PatStruct",
            sp,
            vec![
                ("path", path("Path", &x.qself, &x.path)),
                (
                    "fields",
                    arr(x
                        .fields
                        .iter()
                        .map(|f| obj(vec![("id", member(&f.member)), ("pat", pat(&f.pat))]))
                        .collect()),
                ),
                ("rest", J::Bool(x.rest.is_some())),
            ],
        ),
        Pat::Tuple(x) => node("PatTuple", sp, vec![("elems", arr(x.elems.iter().map(pat).collect()))]),
        Pat::TupleStruct(x) => node(
            "PatTupleStruct",
            sp,
            vec![
                ("path", path("Path", &x.qself, &x.path)),
                ("elems", arr(x.elems.iter().map(pat).collect())),
            ],
        ),
        Pat::Type(x) => node("PatType", sp, vec![("pat", pat(&x.pat)), ("ty", ty(&x.ty))]),
        Pat::Wild(_) => node("PatWild", sp, vec![]),
        p => node("PatOther", sp, vec![("t", toks(p))]),
    }
}

// ------------------------------------------------------------------ expressions
fn exprs<'a>(v: impl Iterator<Item = &'a Expr>) -> J {
    arr(v.map(expr).collect())
}

fn block(b: &Block) -> J {
    arr(b.stmts.iter().map(stmt).collect())
}

fn label(l: &Option<Label>) -> J {
    opt(l, |l| s(l.name.ident.to_string()))
}

fn expr(e: &Expr) -> J {
    let sp = e.span();
    let mut j = expr_(e, sp);
    let a: &[Attribute] = match e {
        Expr::Block(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        Expr::Struct(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        Expr::Return(x) => &x.attrs,
        Expr::ForLoop(x) => &x.attrs,
        Expr::Lit(x) => &x.attrs,
        Expr::Path(x) => &x.attrs,
        Expr::Tuple(x) => &x.attrs,
        Expr::Binary(x) => &x.attrs,
        Expr::Unsafe(x) => &x.attrs,
        _ => &[],
    };
    if !a.is_empty() {
        if let J::Obj(v) = &mut j {
            v.push(("attrs", attrs(a)));
        }
    }
    j
}

fn expr_(e: &Expr, sp: Span) -> J {
    match e {
        Expr::Array(x) => node("Array", sp, vec![("elems", exprs(x.elems.iter()))]),
        Expr::Assign(x) => node("Assign", sp, vec![("lhs", expr(&x.left)), ("rhs", expr(&x.right))]),
        Expr::Async(x) => node("Async", sp, vec![("body", block(&x.block))]),
        Expr::Await(x) => node("Await", sp, vec![("e", expr(&x.base))]),
        Expr::Binary(x) => node(
            "Binary",
            x.op.span(),
            vec![("op", toks(&x.op)), ("lhs", expr(&x.left)), ("rhs", expr(&x.right))],
        ),
        Expr::Block(x) => node("Block", sp, vec![("label", label(&x.label)), ("body", block(&x.block))]),
        Expr::Break(x) => node(
            "Break",
            sp,
            vec![
                ("label", opt(&x.label, |l| s(l.ident.to_string()))),
                ("e", opt(&x.expr, |e| expr(e))),
            ],
        ),
        Expr::Call(x) => node("Call", sp, vec![("f", expr(&x.func)), ("args", exprs(x.args.iter()))]),
        Expr::Cast(x) => node("Cast", sp, vec![("e", expr(&x.expr)), ("ty", ty(&x.ty))]),
        Expr::Closure(x) => node(
            "Closure",
            sp,
            vec![
                ("params", arr(x.inputs.iter().map(pat).collect())),
                ("ret", ret(&x.output)),
                ("body", expr(&x.body)),
                ("move", J::Bool(x.capture.is_some())),
            ],
        ),
        Expr::Const(x) => node("Block", sp, vec![("label", null()), ("body", block(&x.block))]),
        Expr::Continue(x) => node("Continue", sp, vec![("label", opt(&x.label, |l| s(l.ident.to_string())))]),
        Expr::Field(x) => node(
            "Field",
            x.member.span(),
            vec![("e", expr(&x.base)), ("id", member(&x.member))],
        ),
        Expr::ForLoop(x) => node(
            "For",
            sp,
            vec![
                ("label", label(&x.label)),
                ("pat", pat(&x.pat)),
                ("e", expr(&x.expr)),
                ("body", block(&x.body)),
            ],
        ),
        Expr::Group(x) => expr(&x.expr),
        Expr::If(x) => node(
            "If",
            sp,
            vec![
                ("cond", expr(&x.cond)),
                ("then", block(&x.then_branch)),
                (
                    "else",
                    x.else_branch.as_ref().map(|b| expr(&b.1)).unwrap_or(null()),
                ),
            ],
        ),
        Expr::Index(x) => node("Index", sp, vec![("e", expr(&x.expr)), ("i", expr(&x.index))]),
        Expr::Infer(_) => node("Infer", sp, vec![]),
        Expr::Let(x) => node("Let", sp, vec![("pat", pat(&x.pat)), ("e", expr(&x.expr))]),
        Expr::Lit(x) => lit(&x.lit),
        Expr::Loop(x) => node("Loop", sp, vec![("label", label(&x.label)), ("body", block(&x.body))]),
        Expr::Macro(x) => node("Macro", sp, vec![("m", mac(&x.mac))]),
        Expr::Match(x) => node(
            "Match",
            sp,
            vec![
                ("e", expr(&x.expr)),
                (
                    "arms",
                    arr(x
                        .arms
                        .iter()
                        .map(|a| {
                            node(
                                "Arm",
                                a.span(),
                                vec![
                                    ("attrs", attrs(&a.attrs)),
                                    ("pat", pat(&a.pat)),
                                    ("guard", a.guard.as_ref().map(|g| expr(&g.1)).unwrap_or(null())),
                                    ("body", expr(&a.body)),
                                ],
                            )
                        })
                        .collect()),
                ),
            ],
        ),
        Expr::MethodCall(x) => node(
            "MethodCall",
            x.method.span(),
            vec![
                ("recv", expr(&x.receiver)),
                ("m", s(x.method.to_string())),
                (
                    "targs",
                    opt(&x.turbofish, |t| arr(t.args.iter().map(garg).collect())),
                ),
                ("args", exprs(x.args.iter())),
            ],
        ),
        Expr::Paren(x) => expr(&x.expr),
        Expr::Path(x) => path("Path", &x.qself, &x.path),
        Expr::Range(x) => node(
            "Range",
            sp,
            vec![
                ("start", opt(&x.start, |e| expr(e))),
                ("end", opt(&x.end, |e| expr(e))),
                ("closed", J::Bool(matches!(x.limits, RangeLimits::Closed(_)))),
            ],
        ),
        Expr::RawAddr(x) => node("RawAddr", sp, vec![("e", expr(&x.expr))]),
        Expr::Reference(x) => node(
            "Ref",
            sp,
            vec![("mut", J::Bool(x.mutability.is_some())), ("e", expr(&x.expr))],
        ),
        Expr::Repeat(x) => node("Repeat", sp, vec![("e", expr(&x.expr)), ("len", expr(&x.len))]),
        Expr::Return(x) => node("Return", sp, vec![("e", opt(&x.expr, |e| expr(e)))]),
        Expr::Struct(x) => node(
            "Struct",
            sp,
            vec![
                ("path", path("Path", &x.qself, &x.path)),
                (
                    "fields",
                    arr(x
                        .fields
                        .iter()
                        .map(|f| {
                            obj(vec![
                                ("id", member(&f.member)),
                                ("e", expr(&f.expr)),
                                ("attrs", attrs(&f.attrs)),
                            ])
                        })
                        .collect()),
                ),
                ("rest", opt(&x.rest, |e| expr(e))),
            ],
        ),
        Expr::Try(x) => node("Try", x.question_token.span(), vec![("e", expr(&x.expr))]),
        Expr::TryBlock(x) => node("TryBlock", sp, vec![("body", block(&x.block))]),
        Expr::Tuple(x) => node("Tuple", sp, vec![("elems", exprs(x.elems.iter()))]),
        Expr::Unary(x) => node("Unary", sp, vec![("op", toks(&x.op)), ("e", expr(&x.expr))]),
        Expr::Unsafe(x) => node("Unsafe", sp, vec![("body", block(&x.block))]),
        Expr::While(x) => node(
            "While",
            sp,
            vec![
                ("label", label(&x.label)),
                ("cond", expr(&x.cond)),
                ("body", block(&x.body)),
            ],
        ),
        e => node("Other", sp, vec![("t", toks(e))]),
    }
}

fn stmt(st: &Stmt) -> J {
    let sp = st.span();
    match st {
        Stmt::Local(x) => node(
            "Local",
            sp,
            vec![
                ("attrs", attrs(&x.attrs)),
                ("pat", pat(&x.pat)),
                ("init", x.init.as_ref().map(|i| expr(&i.expr)).unwrap_or(null())),
                (
                    "else",
                    x.init
                        .as_ref()
                        .and_then(|i| i.diverge.as_ref())
                        .map(|d| expr(&d.1))
                        .unwrap_or(null()),
                ),
            ],
        ),
        Stmt::Item(i) => node("ItemStmt", sp, vec![("item", item(i))]),
        Stmt::Expr(e, semi) => node("ExprStmt", sp, vec![("e", expr(e)), ("semi", J::Bool(semi.is_some()))]),
        Stmt::Macro(m) => node(
            "ExprStmt",
            sp,
            vec![
                ("attrs", attrs(&m.attrs)),
                ("e", node("Macro", sp, vec![("m", mac(&m.mac))])),
                (
                    "semi",
                    J::Bool(m.semi_token.is_some() || matches!(m.mac.delimiter, MacroDelimiter::Brace(_))),
                ),
            ],
        ),
    }
}

// ------------------------------------------------------------------ items
fn generics(g: &Generics) -> J {
    let ps = g
        .params
        .iter()
        .map(|p| match p {
            GenericParam::Type(t) => node(
                "TypeParam",
                t.span(),
                vec![
                    ("id", s(t.ident.to_string())),
                    ("bounds", bounds(&t.bounds)),
                    ("default", opt(&t.default, ty)),
                ],
            ),
            GenericParam::Lifetime(l) => node("LifetimeParam", l.span(), vec![("id", s(l.lifetime.ident.to_string()))]),
            GenericParam::Const(c) => node(
                "ConstParam",
                c.span(),
                vec![("id", s(c.ident.to_string())), ("ty", ty(&c.ty)), ("default", opt(&c.default, expr))],
            ),
        })
        .collect();
    let wh = g
        .where_clause
        .as_ref()
        .map(|w| {
            arr(w
                .predicates
                .iter()
                .map(|p| match p {
                    WherePredicate::Type(t) => obj(vec![("ty", ty(&t.bounded_ty)), ("bounds", bounds(&t.bounds))]),
                    p => obj(vec![("t", toks(p))]),
                })
                .collect())
        })
        .unwrap_or(arr(vec![]));
    obj(vec![("params", arr(ps)), ("where", wh)])
}

fn sig(x: &Signature) -> Vec<(&'static str, J)> {
    vec![
        ("id", s(x.ident.to_string())),
        ("const", J::Bool(x.constness.is_some())),
        ("unsafe", J::Bool(x.unsafety.is_some())),
        ("async", J::Bool(x.asyncness.is_some())),
        ("generics", generics(&x.generics)),
        (
            "params",
            arr(x
                .inputs
                .iter()
                .map(|a| match a {
                    FnArg::Receiver(r) => obj(vec![
                        ("self", J::Bool(true)),
                        ("ref", J::Bool(r.reference.is_some())),
                        ("mut", J::Bool(r.mutability.is_some())),
                        ("ty", ty(&r.ty)),
                    ]),
                    FnArg::Typed(t) => {
                        obj(vec![("pat", pat(&t.pat)), ("ty", ty(&t.ty)), ("attrs", attrs(&t.attrs))])
                    }
                })
                .collect()),
        ),
        ("ret", ret(&x.output)),
    ]
}

fn vis(v: &Visibility) -> J {
    s(match v {
        Visibility::Public(_) => "pub",
        Visibility::Restricted(_) => "restricted",
        Visibility::Inherited => "",
    })
}

fn fields(f: &Fields) -> J {
    let fs = |it: &mut dyn Iterator<Item = &Field>| {
        arr(it
            .enumerate()
            .map(|(n, f)| {
                obj(vec![
                    (
                        "id",
                        f.ident.as_ref().map(|i| s(i.to_string())).unwrap_or(s(n.to_string())),
                    ),
                    ("ty", ty(&f.ty)),
                    ("attrs", attrs(&f.attrs)),
                    ("vis", vis(&f.vis)),
                ])
            })
            .collect())
    };
    match f {
        Fields::Named(x) => obj(vec![("style", s("named")), ("fields", fs(&mut x.named.iter()))]),
        Fields::Unnamed(x) => obj(vec![("style", s("tuple")), ("fields", fs(&mut x.unnamed.iter()))]),
        Fields::Unit => obj(vec![("style", s("unit")), ("fields", arr(vec![]))]),
    }
}

fn use_tree(t: &UseTree, prefix: &mut Vec<String>, out: &mut Vec<J>) {
    match t {
        UseTree::Path(p) => {
            prefix.push(p.ident.to_string());
            use_tree(&p.tree, prefix, out);
            prefix.pop();
        }
        UseTree::Name(n) => {
            let mut v = prefix.clone();
            let mut alias = n.ident.to_string();
            if alias == "self" {
                alias = prefix.last().cloned().unwrap_or_default();
            } else {
                v.push(alias.clone());
            }
            out.push(obj(vec![("path", arr(v.into_iter().map(s).collect())), ("as", s(alias))]));
        }
        UseTree::Rename(n) => {
            let mut v = prefix.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push(obj(vec![
                ("path", arr(v.into_iter().map(s).collect())),
                ("as", s(n.rename.to_string())),
            ]));
        }
        UseTree::Glob(_) => out.push(obj(vec![
            ("path", arr(prefix.iter().cloned().map(s).collect())),
            ("glob", J::Bool(true)),
        ])),
        UseTree::Group(g) => {
            for t in &g.items {
                use_tree(t, prefix, out);
            }
        }
    }
}

fn item(i: &Item) -> J {
    let sp = i.span();
    match i {
        Item::Const(x) => node(
            "Const",
            sp,
            vec![
                ("attrs", attrs(&x.attrs)),
                ("vis", vis(&x.vis)),
                ("id", s(x.ident.to_string())),
                ("ty", ty(&x.ty)),
                ("e", expr(&x.expr)),
            ],
        ),
        Item::Enum(x) => node(
            "Enum",
            sp,
            vec![
                ("attrs", attrs(&x.attrs)),
                ("vis", vis(&x.vis)),
                ("id", s(x.ident.to_string())),
                ("generics", generics(&x.generics)),
                (
                    "variants",
                    arr(x
                        .variants
                        .iter()
                        .map(|v| {
                            obj(vec![
                                ("id", s(v.ident.to_string())),
                                ("l", line(v.ident.span())),
                                ("attrs", attrs(&v.attrs)),
                                ("fields", fields(&v.fields)),
                                (
                                    "disc",
                                    v.discriminant.as_ref().map(|d| expr(&d.1)).unwrap_or(null()),
                                ),
                            ])
                        })
                        .collect()),
                ),
            ],
        ),
        Item::ExternCrate(x) => node("ExternCrate", sp, vec![("id", s(x.ident.to_string()))]),
        Item::Fn(x) => {
            let mut f = sig(&x.sig);
            f.push(("attrs", attrs(&x.attrs)));
            f.push(("vis", vis(&x.vis)));
            f.push(("body", block(&x.block)));
            node("Fn", x.sig.ident.span(), f)
        }
        Item::Impl(x) => node(
            "Impl",
            sp,
            vec![
                ("attrs", attrs(&x.attrs)),
                ("generics", generics(&x.generics)),
                (
                    "trait",
                    x.trait_
                        .as_ref()
                        .map(|t| path("Path", &None, &t.1))
                        .unwrap_or(null()),
                ),
                ("neg", J::Bool(x.trait_.as_ref().map(|t| t.0.is_some()).unwrap_or(false))),
                ("self_ty", ty(&x.self_ty)),
                (
                    "items",
                    arr(x
                        .items
                        .iter()
                        .map(|i| match i {
                            ImplItem::Const(c) => node(
                                "Const",
                                c.span(),
                                vec![
                                    ("attrs", attrs(&c.attrs)),
                                    ("vis", vis(&c.vis)),
                                    ("id", s(c.ident.to_string())),
                                    ("ty", ty(&c.ty)),
                                    ("e", expr(&c.expr)),
                                ],
                            ),
                            ImplItem::Fn(m) => {
                                let mut f = sig(&m.sig);
                                f.push(("attrs", attrs(&m.attrs)));
                                f.push(("vis", vis(&m.vis)));
                                f.push(("body", block(&m.block)));
                                node("Fn", m.sig.ident.span(), f)
                            }
                            ImplItem::Type(t) => node(
                                "Type",
                                t.span(),
                                vec![
                                    ("attrs", attrs(&t.attrs)),
                                    ("id", s(t.ident.to_string())),
                                    ("generics", generics(&t.generics)),
                                    ("ty", ty(&t.ty)),
                                ],
                            ),
                            ImplItem::Macro(m) => node("MacroItem", m.span(), vec![("m", mac(&m.mac))]),
                            i => node("OtherItem", i.span(), vec![("t", toks(i))]),
                        })
                        .collect()),
                ),
            ],
        ),
        Item::Macro(x) => node(
            "MacroItem",
            sp,
            vec![
                ("attrs", attrs(&x.attrs)),
                ("id", opt(&x.ident, |i| s(i.to_string()))),
                ("m", mac(&x.mac)),
            ],
        ),
        Item::Mod(x) => node(
            "Mod",
            sp,
            vec![
                ("attrs", attrs(&x.attrs)),
                ("vis", vis(&x.vis)),
                ("id", s(x.ident.to_string())),
                (
                    "items",
                    opt(&x.content, |c| arr(c.1.iter().map(item).collect())),
                ),
            ],
        ),
        Item::Static(x) => node(
            "Const",
            sp,
            vec![
                ("attrs", attrs(&x.attrs)),
                ("vis", vis(&x.vis)),
                ("id", s(x.ident.to_string())),
                ("static", J::Bool(true)),
                ("ty", ty(&x.ty)),
                ("e", expr(&x.expr)),
            ],
        ),
        Item::Struct(x) => node(
            "Struct",
            sp,
            vec![
                ("attrs", attrs(&x.attrs)),
                ("vis", vis(&x.vis)),
                ("id", s(x.ident.to_string())),
                ("generics", generics(&x.generics)),
                ("fields", fields(&x.fields)),
            ],
        ),
        Item::Trait(x) => node(
            "Trait",
            sp,
            vec![
                ("attrs", attrs(&x.attrs)),
                ("vis", vis(&x.vis)),
                ("id", s(x.ident.to_string())),
                ("generics", generics(&x.generics)),
                ("supers", bounds(&x.supertraits)),
                (
                    "items",
                    arr(x
                        .items
                        .iter()
                        .map(|i| match i {
                            TraitItem::Fn(m) => {
                                let mut f = sig(&m.sig);
                                f.push(("attrs", attrs(&m.attrs)));
                                f.push(("vis", s("")));
                                f.push(("body", opt(&m.default, block)));
                                node("Fn", m.sig.ident.span(), f)
                            }
                            TraitItem::Type(t) => node(
                                "AssocType",
                                t.span(),
                                vec![
                                    ("attrs", attrs(&t.attrs)),
                                    ("id", s(t.ident.to_string())),
                                    ("bounds", bounds(&t.bounds)),
                                ],
                            ),
                            TraitItem::Const(c) => node(
                                "AssocConst",
                                c.span(),
                                vec![
                                    ("attrs", attrs(&c.attrs)),
                                    ("id", s(c.ident.to_string())),
                                    ("ty", ty(&c.ty)),
                                    (
                                        "e",
                                        c.default.as_ref().map(|d| expr(&d.1)).unwrap_or(null()),
                                    ),
                                ],
                            ),
                            i => node("OtherItem", i.span(), vec![("t", toks(i))]),
                        })
                        .collect()),
                ),
            ],
        ),
        Item::Type(x) => node(
            "Type",
            sp,
            vec![
                ("attrs", attrs(&x.attrs)),
                ("vis", vis(&x.vis)),
                ("id", s(x.ident.to_string())),
                ("generics", generics(&x.generics)),
                ("ty", ty(&x.ty)),
            ],
        ),
        Item::Use(x) => {
            let mut v = vec![];
            use_tree(&x.tree, &mut vec![], &mut v);
            node(
                "Use",
                sp,
                vec![
                    ("attrs", attrs(&x.attrs)),
                    ("vis", vis(&x.vis)),
                    ("lead", J::Bool(x.leading_colon.is_some())),
                    ("uses", arr(v)),
                ],
            )
        }
        i => node("OtherItem", sp, vec![("t", toks(i))]),
    }
}

fn main() {
    let mut a = std::env::args().skip(1);
    let root = a.next().expect("root");
    let mut out = vec![];
    for f in a {
        let p = std::path::Path::new(&root).join(&f);
        let src = match std::fs::read_to_string(&p) {
            Ok(x) => x,
            Err(e) => {
                out.push((f, obj(vec![("error", s(e.to_string()))])));
                continue;
            }
        };
        match syn::parse_file(&src) {
            Ok(file) => {
                expand::collect(&file);
                let j = obj(vec![
                    ("attrs", attrs(&file.attrs)),
                    ("items", arr(file.items.iter().map(item).collect())),
                ]);
                out.push((f, j));
            }
            Err(e) => out.push((
                f,
                obj(vec![
                    ("error", s(e.to_string())),
                    ("l", num(e.span().start().line as i64)),
                ]),
            )),
        }
    }
    let mut o = String::new();
    o.push('{');
    for (n, (f, j)) in out.iter().enumerate() {
        if n > 0 {
            o.push_str(",\n");
        }
        json::write_str(f, &mut o);
        o.push(':');
        j.write(&mut o);
    }
    o.push('}');
    print!("{o}");
}
