//! vextract REPO TEMPLATE OUT SHAPES: weave contracts into functions taken verbatim from REPO.
//!
//! The template is a Verus file. Lines starting with `//@` are directives:
//!   //@ item FILE (struct|enum|const|static|type) NAME [derive(A, B)]
//!   //@ fn FILE PATH            PATH = name | Type::name | Type::name#k (k-th impl having it)
//!   //@ iter K                  loop K iterates a value with its own `next` (not a slice)
//!   //@ collect K TYPE          element type of the list collected by loop K
//!   //@ spec                    requires / ensures / decreases of the function
//!   //@ loop K                  invariants and decreases of loop K (source order, 0-based)
//!   //@ loop K begin|end|before|after|bound|else     ghost code at that place (bound: after the pattern of a while-let; else: before it ends)
//!   //@ entry | exit            ghost code at the start / before the result is returned
//!   //@ after TEXT | before TEXT   ghost code next to the statement whose text contains TEXT
//!   //@ lambda K                header of the K-th closure that stays a closure ($1.. = its parameter names)
//!   //@ closure FIELD           a field holding a closure; `(x.FIELD)(a)` becomes `vx_FIELD(&mut x.FIELD, a)`
//!   //@ attr TEXT               Verus attribute of the function
//!   //@ slice K                 loop K iterates over a reference to a slice returned by a call
//!   //@ lift NAME ARGS          closure `let NAME = |..| ..;` becomes a function vx_NAME (header follows; ARGS are the captured places)
//!   //@ ghost NAME: TYPE        extra ghost parameter
//!   //@ pass FN EXPR            calls of FN (path or method name) get the extra ghost argument EXPR
//!   //@ at FIELD               `x.FIELD[i]` (indexed by a newtype) becomes `*x.FIELD.vx_at(i)`
//!   //@ drop FN                calls (as statements) of the local function FN, and FN itself, go away: FN only prints
//!   //@ mut METHOD             METHOD changes its receiver: an element named by `at` is taken with vx_at_mut
//!   //@ keep METHOD            closures passed to METHOD stay closures
//!   //@ call METHOD FN          `x.METHOD()` becomes `FN(x)` (where it is not taken apart as a loop)
//!   //@ end
//! Everything else is copied. See DESIGN.md for the list of rewritings.
use proc_macro2::{TokenStream, TokenTree, Delimiter, Spacing};
use quote::{quote, ToTokens, format_ident};
use std::collections::{BTreeMap, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::visit::{self, Visit};
use syn::*;

fn die(msg: String) -> ! { println!("LOST {}", msg); std::process::exit(3) }

#[derive(Default)]
struct Spec {
    file: String, path: String,
    spec: String, entry: String, exit: String,
    loops: BTreeMap<(usize, String), String>,
    anchors: Vec<(String, String, String)>, // (after|before, text, code)
    iters: Vec<usize>,
    slices: Vec<usize>,
    ghosts: Vec<String>,
    lifts: Vec<(String, String, String)>,
    passes: Vec<(String, String)>,
    colls: BTreeMap<usize, String>,
    closures: Vec<String>,
    attrs: Vec<String>,
    calls: Vec<(String, String)>,
    lambdas: BTreeMap<usize, String>,
    ats: Vec<String>,
    keeps: Vec<String>,
    muts: Vec<String>,
    captures: Option<String>,
    drops: Vec<String>,
    bodyonly: bool,
    rename: Option<String>,
    generics: Option<String>,
    external: bool,
    types: Vec<(String, String)>,
}

// ------------------------------------------------------------------ token printing
fn print_tokens(ts: TokenStream) -> String {
    let mut s = String::new();
    fn go(ts: TokenStream, s: &mut String, depth: usize) {
        let mut joint = true;
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("(", ")") };
                    if g.delimiter() == Delimiter::None {
                        go(g.stream(), s, depth); joint = false; continue;
                    }
                    if !joint { s.push(' '); }
                    s.push_str(a);
                    if g.delimiter() == Delimiter::Brace {
                        s.push('\n');
                        go(g.stream(), s, depth + 1);
                        if !s.ends_with('\n') { s.push('\n'); }
                    } else { go(g.stream(), s, depth + 1); }
                    s.push_str(b);
                    joint = false;
                }
                TokenTree::Punct(p) => {
                    if !joint { s.push(' '); }
                    s.push(p.as_char());
                    if p.as_char() == ';' { s.push('\n'); joint = true; } else { joint = p.spacing() == Spacing::Joint; if p.as_char() == '\'' { joint = true; } }
                }
                other => { if !joint { s.push(' '); } s.push_str(&other.to_string()); joint = false; }
            }
        }
    }
    go(ts, &mut s, 0);
    s
}
fn norm(t: &str) -> String { t.chars().filter(|c| !c.is_whitespace()).collect() }

// ------------------------------------------------------------------ finding items
fn items_of(file: &File) -> Vec<Item> {
    fn go(items: &[Item], out: &mut Vec<Item>) {
        for i in items {
            if let Item::Mod(m) = i {
                if m.attrs.iter().any(|a| norm(&a.to_token_stream().to_string()).contains("cfg(")) { continue; }
                if let Some((_, its)) = &m.content { go(its, out); }
            }
            out.push(i.clone());
        }
    }
    let mut v = vec![]; go(&file.items, &mut v); v
}
struct Src { repo: String, cache: HashMap<String, Vec<Item>> }
impl Src {
    fn get(&mut self, f: &str) -> &Vec<Item> {
        if !self.cache.contains_key(f) {
            // FILE!MACRO!NAME: the arm `($x:ident) => {..}` of macro_rules MACRO, expanded for NAME
            if let Some((file, rest)) = f.split_once('!') {
                let (mac, name) = rest.split_once('!').unwrap();
                let names: Vec<&str> = name.split(',').collect();
                let txt = std::fs::read_to_string(format!("{}/{}", self.repo, file)).unwrap_or_else(|e| die(format!("{file}: {e}")));
                let parsed = parse_file(&txt).unwrap_or_else(|e| die(format!("{file}: {e}")));
                let m = parsed.items.iter().find_map(|i| match i { Item::Macro(m) if m.ident.as_ref().map_or(false, |x| x == mac) => Some(m.mac.tokens.clone()), _ => None }).unwrap_or_else(|| die(format!("{file}: macro {mac} not found")));
                let toks: Vec<TokenTree> = m.into_iter().collect();
                let mut found = None;
                for w in 0..toks.len() {
                    if let (TokenTree::Group(a), Some(TokenTree::Group(b))) = (&toks[w], toks.get(w + 3)) {
                        let pat = norm(&a.stream().to_string());
                        let vars: Vec<String> = pat.split(',').filter_map(|p| p.strip_prefix('$').and_then(|p| p.strip_suffix(":ident")).map(|p| p.to_string())).collect();
                        if vars.len() == names.len() && pat.matches('$').count() == vars.len() { found = Some((vars, b.stream())); break; }
                    }
                }
                let (vars, mut body) = found.unwrap_or_else(|| die(format!("{file}: macro {mac} has no arm of {} identifiers", names.len())));
                fn subst(ts: TokenStream, var: &str, name: &str) -> TokenStream {
                    let v: Vec<TokenTree> = ts.into_iter().collect(); let mut out = vec![]; let mut i = 0;
                    while i < v.len() {
                        if let (TokenTree::Punct(p), Some(TokenTree::Ident(x))) = (&v[i], v.get(i + 1)) { if p.as_char() == '$' && *x == var { out.push(TokenTree::Ident(format_ident!("{}", name))); i += 2; continue; } }
                        if let TokenTree::Group(g) = &v[i] { out.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), subst(g.stream(), var, name)))); i += 1; continue; }
                        out.push(v[i].clone()); i += 1;
                    }
                    out.into_iter().collect()
                }
                for (var, name) in vars.iter().zip(names.iter()) { body = subst(body, var, name); }
                body = subst(body, "crate", "crate");
                let file = parse2::<File>(body).unwrap_or_else(|e| die(format!("macro {mac}: {e}")));
                self.cache.insert(f.to_string(), items_of(&file));
                return &self.cache[f];
            }
            let p = format!("{}/{}", self.repo, f);
            let txt = std::fs::read_to_string(&p).unwrap_or_else(|e| die(format!("{p}: {e}")));
            let file = parse_file(&txt).unwrap_or_else(|e| die(format!("{p}: {e}")));
            self.cache.insert(f.to_string(), items_of(&file));
        }
        &self.cache[f]
    }
    fn func(&mut self, f: &str, path: &str) -> (Option<ItemImpl>, ItemFn) {
        // OUTER/NAME: a function declared inside the body of OUTER
        if let Some((outer, name)) = path.split_once('/') {
            struct N<'a>(&'a str, Option<ItemFn>);
            impl<'a, 'b> Visit<'b> for N<'a> { fn visit_item_fn(&mut self, i: &'b ItemFn) { if i.sig.ident == self.0 { self.1 = Some(i.clone()); } visit::visit_item_fn(self, i); } }
            let (_, o) = self.func(f, outer);
            let mut n = N(name, None); n.visit_block(&o.block);
            if let Some(x) = n.1 { return (None, x); }
            // or a closure bound to that name: its captures become parameters (`captures`)
            struct C<'a>(&'a str, Option<ExprClosure>);
            impl<'a, 'b> Visit<'b> for C<'a> { fn visit_local(&mut self, l: &'b Local) {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) { if i.ident == self.0 { if let Expr::Closure(c) = &*init.expr { self.1 = Some(c.clone()); } } }
                visit::visit_local(self, l);
            } }
            let mut c = C(name, None); c.visit_block(&o.block);
            let c = c.1.unwrap_or_else(|| die(format!("{f}: function {path} not found")));
            let (id, ins, b) = (format_ident!("{}", name), c.inputs.iter(), &c.body);
            let b: Block = match &**b { Expr::Block(b) => b.block.clone(), e => parse_quote! { { #e } } };
            let toks = quote! { fn #id(#(#ins),*) #b };
            return (None, parse2(toks.clone()).unwrap_or_else(|e| die(format!("{f}: closure {path}: {e} in {toks}"))));
        }
        let (path, k) = match path.split_once('#') { Some((p, k)) => (p, k.parse().unwrap()), None => (path, 0usize) };
        let items = self.get(f);
        if let Some((ty, name)) = path.split_once("::") {
            let mut n = 0;
            for i in items {
                if let Item::Impl(im) = i {
                    let tn = match &*im.self_ty { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => continue };
                    if tn != ty { continue; }
                    for it in &im.items {
                        if let ImplItem::Fn(m) = it {
                            if m.sig.ident == name {
                                if n == k {
                                    return (Some(im.clone()), ItemFn { attrs: vec![], vis: Visibility::Inherited, modifiers: Default::default(), sig: m.sig.clone(), block: Box::new(m.block.clone()) });
                                }
                                n += 1;
                            }
                        }
                    }
                }
                if let Item::Trait(tr) = i {
                    if tr.ident != ty { continue; }
                    for it in &tr.items { if let TraitItem::Fn(m) = it { if m.sig.ident == name { if let Some(b) = &m.default {
                        return (None, ItemFn { attrs: vec![], vis: Visibility::Inherited, modifiers: Default::default(), sig: m.sig.clone(), block: Box::new(b.clone()) });
                    } } } }
                }
            }
        } else {
            let mut n = 0;
            for i in items { if let Item::Fn(x) = i { if x.sig.ident == path { if n == k { return (None, x.clone()); } n += 1; } } }
        }
        die(format!("{f}: function {path} not found"))
    }
}

// ------------------------------------------------------------------ shape
struct Shape(String);
impl<'a> Visit<'a> for Shape {
    fn visit_expr(&mut self, e: &'a Expr) {
        let tag = match e {
            Expr::If(_) => Some("if"), Expr::While(_) => Some("while"), Expr::ForLoop(_) => Some("for"), Expr::Loop(_) => Some("loop"),
            Expr::Match(m) => { self.0.push_str(&format!("match{}", m.arms.len())); self.0.push('('); visit::visit_expr(self, e); self.0.push(')'); return; }
            Expr::Closure(_) => Some("fn"), Expr::Return(_) => Some("ret"), Expr::Break(_) => Some("brk"), Expr::Continue(_) => Some("cont"), Expr::Try(_) => Some("try"),
            _ => None };
        if let Some(t) = tag { self.0.push_str(t); self.0.push('('); visit::visit_expr(self, e); self.0.push(')'); } else { visit::visit_expr(self, e); }
    }
    fn visit_macro(&mut self, _m: &'a Macro) {}
    fn visit_local(&mut self, l: &'a Local) { self.0.push_str(if l.init.as_ref().map_or(false, |i| i.diverge.is_some()) { "letelse;" } else { "let;" }); visit::visit_local(self, l); }
}

// ------------------------------------------------------------------ rewriting
struct Rw { n: usize, iters: Vec<usize>, slices: Vec<usize>, colls: BTreeMap<usize, String>, closures: Vec<String>, calls: Vec<(String, String)>, ats: Vec<String>, keeps: Vec<String>, drops: Vec<String>, muts: Vec<String>, hoisted: Vec<Item>, mutself: bool }

fn strip_ref(p: &Pat) -> Option<Pat> {
    match p { Pat::Reference(r) => Some((*r.pat).clone()), Pat::Paren(p) => strip_ref(&p.pat), _ => None }
}
fn simple_pat(p: &Pat) -> bool { matches!(p, Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none()) }
fn pat_closure(c: &ExprClosure) -> (Pat, Expr) {
    if c.inputs.len() != 1 { die("closure with several parameters".into()); }
    let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
    (p, (*c.body).clone())
}
/// Replace `*name` by `name` in an expression where `name` now denotes the value.
struct Deref(Vec<String>);
impl VisitMut for Deref {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e { if matches!(u.op, UnOp::Deref(_)) { if let Expr::Path(p) = &*u.expr { if let Some(i) = p.path.get_ident() { if self.0.contains(&i.to_string()) { let x = (*u.expr).clone(); *e = x; return; } } } } }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn source(e: &Expr) -> Option<(String, Expr, Vec<String>)> {
    // returns (kind, base, adaptors): kind slice|range|rangeinc
    match e {
        Expr::Paren(p) => source(&p.expr),
        Expr::Range(r) => { if r.start.is_some() && r.end.is_some() { Some((if matches!(r.limits, RangeLimits::Closed(_)) { "rangeinc" } else { "range" }.into(), e.clone(), vec![])) } else { None } }
        Expr::Reference(r) => Some((if r.mutability.is_some() { "slicemut" } else { "slice" }.into(), (*r.expr).clone(), vec![])),
        Expr::MethodCall(m) if m.args.is_empty() => {
            let name = m.method.to_string();
            match name.as_str() {
                "iter" => Some(("slice".into(), (*m.receiver).clone(), vec![])),
                "iter_mut" => Some(("slicemut".into(), (*m.receiver).clone(), vec![])),
                "rev" | "enumerate" | "cloned" | "copied" => { let mut s = source(&m.receiver)?; s.2.push(name); Some(s) }
                _ => None,
            }
        }
        _ => None,
    }
}

impl Rw {
    fn mark(&self, k: usize, w: &str) -> Stmt { let k = Index::from(k); let w = format_ident!("{}", w); parse_quote! { __vx!(#w #k); } }
    /// Bind pattern P to element number `ix` of slice `base`.
    fn bind(&self, p: &Pat, base: &TokenStream, ix: &TokenStream, by_value: bool) -> Vec<Stmt> {
        if by_value { return vec![parse_quote! { let #p = #base[#ix]; }]; }
        if let Some(q) = strip_ref(p) { vec![parse_quote! { let #q = #base[#ix]; }] }
        else { vec![parse_quote! { let #p = &#base[#ix]; }] }
    }
    /// Header, condition, and per-iteration prefix of a source.
    fn lower(&mut self, k: usize, p: &Pat, e: &Expr) -> (Vec<Stmt>, Expr, Vec<Stmt>) {
        let s = format_ident!("__s{}", k); let i = format_ident!("__i{}", k); let n = format_ident!("__n{}", k);
        if !self.iters.contains(&k) {
            if let Some((kind, base, ads)) = if self.slices.contains(&k) { let e2: Expr = parse_quote! { (*#e) }; Some(("slice".to_string(), e2, vec![])) } else { source(e) } {
                let mut base = base;
                if matches!(&base, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_))) { self.visit_expr_mut(&mut base); }
                let rev = ads.iter().any(|a| a == "rev");
                let en = ads.iter().position(|a| a == "enumerate");
                let back = matches!((en, ads.iter().position(|a| a == "rev")), (Some(a), Some(b)) if b < a); // counts from the far end
                let copied = ads.iter().any(|a| a == "copied" || a == "cloned");
                if kind == "slice" || kind == "slicemut" {
                    let amp: TokenStream = if kind == "slice" { quote!(&) } else { quote!(&mut) };
                    let direct = matches!(&base, Expr::Path(_)) ;
                    let head: Vec<Stmt> = if direct && kind == "slice" { vec![] } else { vec![parse_quote! { let #s = #amp #base; }] };
                    let b: TokenStream = if direct && kind == "slice" { quote!(#base) } else { quote!(#s) };
                    let (inner_p, idx_bind): (Pat, Option<Pat>) = if en.is_some() {
                        match p { Pat::Tuple(t) if t.elems.len() == 2 => (t.elems[1].clone(), Some(t.elems[0].clone())), _ => die("enumerate without a pair pattern".into()) }
                    } else { (p.clone(), None) };
                    if kind == "slicemut" {
                        let mut pre: Vec<Stmt> = vec![parse_quote! { let #inner_p = &mut #s[#i]; }];
                        if let Some(ip) = idx_bind { pre.push(parse_quote! { let #ip = #i; }); }
                        pre.push(parse_quote! { #i = #i + 1; });
                        let mut h = head; h.push(parse_quote! { let mut #i: usize = 0; });
                        return (h, parse_quote! { #i < #s.len() }, pre);
                    }
                    if rev {
                        let mut h = head; h.push(parse_quote! { let mut #i: usize = #b.len(); });
                        let mut pre: Vec<Stmt> = vec![parse_quote! { #i = #i - 1; }];
                        pre.extend(self.bind(&inner_p, &b, &quote!(#i), copied));
                        if let Some(ip) = idx_bind { pre.push(if back { parse_quote! { let #ip = #b.len() - 1 - #i; } } else { parse_quote! { let #ip = #i; } }); }
                        return (h, parse_quote! { #i > 0 }, pre);
                    }
                    let mut h = head; h.push(parse_quote! { let mut #i: usize = 0; });
                    let mut pre = self.bind(&inner_p, &b, &quote!(#i), copied);
                    if let Some(ip) = idx_bind { pre.push(parse_quote! { let #ip = #i; }); }
                    pre.push(parse_quote! { #i = #i + 1; });
                    return (h, parse_quote! { #i < #b.len() }, pre);
                }
                if kind.starts_with("range") {
                    let r = match { let mut b = &base; loop { match b { Expr::Paren(p) => b = &p.expr, _ => break b } } } { Expr::Range(r) => r.clone(), _ => unreachable!() };
                    let (a, z) = (r.start.unwrap(), r.end.unwrap());
                    if kind == "rangeinc" { die("inclusive range".into()) }
                    let (ty, a2): (TokenStream, TokenStream) = (quote!(), quote!(#a));
                    let _ = ty;
                    if rev {
                        return (vec![parse_quote! { let #n = #a2; }, parse_quote! { let mut #i = #z; }], parse_quote! { #i > #n }, vec![parse_quote! { #i = #i - 1; }, parse_quote! { let #p = #i; }]);
                    }
                    return (vec![parse_quote! { let #n = #z; }, parse_quote! { let mut #i = #a2; }], parse_quote! { #i < #n }, vec![parse_quote! { let #p = #i; }, parse_quote! { #i = #i + 1; }]);
                }
            }
        }
        // A.iter().zip(B.iter()): both by position
        if let (Expr::MethodCall(m), Pat::Tuple(t)) = (e, p) { if m.method == "zip" && m.args.len() == 1 && t.elems.len() == 2 {
            if let (Some((ka, a, xa)), Some((kb, b, xb))) = (source(&m.receiver), source(&m.args[0])) { if ka == "slice" && kb == "slice" && xa.is_empty() && xb.is_empty() {
                let z = format_ident!("__z{}", k);
                let mut pre = self.bind(&t.elems[0], &quote!(#s), &quote!(#i), false);
                pre.extend(self.bind(&t.elems[1], &quote!(#z), &quote!(#i), false));
                pre.push(parse_quote! { #i = #i + 1; });
                return (vec![parse_quote! { let #s = &#a; }, parse_quote! { let #z = &#b; }, parse_quote! { let mut #i: usize = 0; }], parse_quote! { #i < #s.len() && #i < #z.len() }, pre);
            } }
        } }
        // X.drain(..): what X held, in order; X is left empty
        if let Expr::MethodCall(m) = e { if m.method == "drain" && m.args.len() == 1 && norm(&m.args[0].to_token_stream().to_string()) == ".." {
            let r = &m.receiver;
            return (vec![parse_quote! { let #s = vx_drain(#r); }, parse_quote! { let mut #i: usize = 0; }], parse_quote! { #i < #s.len() }, vec![parse_quote! { let #p = #s[#i]; }, parse_quote! { #i = #i + 1; }]);
        } }
        // a value with its own `next`
        let it = format_ident!("__it{}", k); let nx = format_ident!("__nx{}", k);
        if let Some(q) = strip_ref(p) {
            return (vec![parse_quote! { let mut #it = vx_into_iter(#e); }, parse_quote! { let mut #nx = #it.next(); }], parse_quote! { #nx.is_some() },
             vec![parse_quote! { let #q = *#nx.unwrap(); }, parse_quote! { #nx = #it.next(); }]);
        }
        (vec![parse_quote! { let mut #it = vx_into_iter(#e); }, parse_quote! { let mut #nx = #it.next(); }], parse_quote! { #nx.is_some() },
         vec![parse_quote! { let #p = #nx.unwrap(); }, parse_quote! { #nx = #it.next(); }])
    }
    fn block_loop(&mut self, k: usize, head: Vec<Stmt>, cond: Expr, pre: Vec<Stmt>, body: Vec<Stmt>, label: Option<Label>, tail: Option<Expr>) -> Expr {
        let (m0, m1, m2, m3, m4) = (self.mark(k, "loopspec"), self.mark(k, "begin"), self.mark(k, "end"), self.mark(k, "before"), self.mark(k, "after"));
        let m5 = self.mark(k, "bound");
        parse_quote! { { #(#head)* #m3 #label while #cond { #m0 #m1 #(#pre)* #m5 #(#body)* #m2 } #m4 #tail } }
    }
    fn closure_loop(&mut self, recv: &Expr, op: &str, c: &ExprClosure) -> Expr {
        let k = self.n; self.n += 1;
        let (p, mut body) = pat_closure(c);
        let o = format_ident!("__o{}", k); let i = format_ident!("__i{}", k);
        let (mut head, cond, pre) = self.lower(k, &p, recv);
        self.visit_expr_mut(&mut body);
        match op {
            "position" => {
                head.insert(0, parse_quote! { let mut #o: Option<usize> = None; });
                self.block_loop(k, head, cond, pre, vec![parse_quote! { if #body { #o = Some(#i - 1); break; } }], None, Some(parse_quote! { #o }))
            }
            "any" => {
                head.insert(0, parse_quote! { let mut #o: bool = false; });
                self.block_loop(k, head, cond, pre, vec![parse_quote! { if #body { #o = true; break; } }], None, Some(parse_quote! { #o }))
            }
            "all" => {
                head.insert(0, parse_quote! { let mut #o: bool = true; });
                self.block_loop(k, head, cond, pre, vec![parse_quote! { if !(#body) { #o = false; break; } }], None, Some(parse_quote! { #o }))
            }
            "map_collect" => {
                match self.colls.get(&k) { Some(t) => { let t: Type = parse_str(t).unwrap(); head.insert(0, parse_quote! { let mut #o: Vec<#t> = Vec::new(); }) } None => head.insert(0, parse_quote! { let mut #o = Vec::new(); }) }
                self.block_loop(k, head, cond, pre, vec![parse_quote! { #o.push(#body); }], None, Some(parse_quote! { #o }))
            }
            "filter_collect" => {
                head.insert(0, parse_quote! { let mut #o = Vec::new(); });
                die("filter".into())
            }
            _ => unreachable!(),
        }
    }
    fn keys_of(&mut self, recv: &Expr, c: &ExprClosure) -> (Expr, usize) {
        let mut recv = recv.clone(); self.visit_expr_mut(&mut recv); let recv = &recv;
        let it: Expr = parse_quote! { (#recv).iter() };
        let it2 = match recv { Expr::Path(_) | Expr::Field(_) => parse_quote! { #recv.iter() }, _ => it };
        let k = self.n;
        (self.closure_loop(&it2, "map_collect", c), k)
    }
}
/// `X` or `VIA.X` as named by `at`.
fn at_field(e: &Expr, ats: &[String]) -> bool {
    matches!(e, Expr::Field(f) if ats.iter().any(|a| match a.split_once('.') {
        Some((via, m)) => f.member.to_token_stream().to_string() == m && matches!(&*f.base, Expr::Field(g) if g.member.to_token_stream().to_string() == via),
        None => f.member.to_token_stream().to_string() == *a }))
}
/// The container element an lvalue starts from is accessed with vx_at_mut.
fn at_base(e: &mut Expr, ats: &[String]) -> bool {
    match e {
        Expr::Field(f) => at_base(&mut f.base, ats),
        Expr::Index(ix) if at_field(&ix.expr, ats) => {
            let (b, i) = (ix.expr.clone(), ix.index.clone());
            *e = parse_quote! { (*#b.vx_at_mut(#i)) }; true
        }
        _ => false,
    }
}
fn closure_of(e: &Expr) -> Option<&ExprClosure> { if let Expr::Closure(c) = e { Some(c) } else { None } }

impl VisitMut for Rw {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Fn(f)) if self.drops.contains(&f.sig.ident.to_string()) => {}
                Stmt::Expr(Expr::Call(ref c), Some(_)) if self.drops.contains(&norm(&c.func.to_token_stream().to_string())) => {}
                Stmt::Item(Item::Use(u)) if !u.to_token_stream().to_string().contains('*') => {}
                Stmt::Item(i) => self.hoisted.push(i),
                Stmt::Macro(m) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if name == "trace" || name == "debug" || name == "info" || name == "warn" { continue; }
                    if name == "__vx" { out.push(Stmt::Macro(m)); continue; }
                    if m.semi_token.is_some() && ["panic", "unreachable", "unimplemented", "todo"].contains(&name.as_str()) { out.push(parse_quote! { return vx_unreached(); }); continue; }
                    let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    self.visit_expr_mut(&mut e);
                    out.push(Stmt::Expr(e, if m.semi_token.is_some() || name.contains("assert") { Some(Default::default()) } else { None }));
                }
                Stmt::Local(mut l) => {
                    l.attrs.clear();
                    visit_mut::visit_local_mut(self, &mut l);
                    // let &P = e  ->  let P = *e
                    let inner = match &l.pat { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                    if let (Some(q), Some(init)) = (strip_ref(&inner), &mut l.init) {
                        let e = (*init.expr).clone();
                        l.pat = q; *init.expr = parse_quote! { *(#e) };
                    }
                    out.push(Stmt::Local(l));
                }
                mut s => { visit_mut::visit_stmt_mut(self, &mut s); out.push(s); }
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // P | Q if G => B is P if G => B, Q if G => B
        if let Expr::Match(m) = e {
            if m.arms.iter().any(|a| matches!(&a.pat, Pat::Guard(g) if matches!(&*g.pat, Pat::Or(_)))) {
                let mut arms = vec![];
                for a in std::mem::take(&mut m.arms) {
                    match &a.pat {
                        Pat::Guard(g) if matches!(&*g.pat, Pat::Or(_)) => {
                            let Pat::Or(o) = &*g.pat else { unreachable!() };
                            for p in &o.cases { let mut b = a.clone(); let mut h = g.clone(); h.pat = Box::new(p.clone()); b.pat = Pat::Guard(h); b.comma = Some(Default::default()); arms.push(b); }
                        }
                        _ => arms.push(a),
                    }
                }
                m.arms = arms;
            }
        }
        // match &V[..] { [] => A, [x] => B, _ => C } is if V.len() == 0 A, else if V.len() == 1 { let x = &V[0]; B } else C
        if let Expr::Match(m) = e {
            let last = m.arms.len().wrapping_sub(1);
            if m.arms.len() > 1 && m.arms.iter().enumerate().all(|(i, a)| match &a.pat { Pat::Slice(t) => i < last && t.elems.iter().all(|p| simple_pat(p) || matches!(p, Pat::Wild(_))), Pat::Wild(_) => i == last, _ => false }) {
                let mut base = (*m.expr).clone();
                loop {
                    base = match base {
                        Expr::Reference(r) if r.mutability.is_none() => *r.expr,
                        Expr::Paren(q) => *q.expr,
                        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => *u.expr,
                        Expr::Index(x) if matches!(&*x.index, Expr::Range(r) if r.start.is_none() && r.end.is_none()) => *x.expr,
                        b => { base = b; break; }
                    };
                }
                let mut arms: Vec<Arm> = std::mem::take(&mut m.arms);
                let c = arms.pop().unwrap().body;
                let mut out: Expr = parse_quote! { { #c } };
                for a in arms.into_iter().rev() {
                    let Pat::Slice(t) = &a.pat else { unreachable!() };
                    let n = t.elems.len();
                    let body = &a.body;
                    let lets: Vec<Stmt> = t.elems.iter().enumerate().filter(|(_, p)| !matches!(p, Pat::Wild(_))).map(|(k, p)| parse_quote! { let #p = &#base[#k]; }).collect();
                    out = parse_quote! { if #base.len() == #n { #(#lets)* #body } else #out };
                }
                *e = out;
            }
        }
        match e {
            // core::array::from_fn(|_| E) for an array of three
            Expr::Call(c) if norm(&c.func.to_token_stream().to_string()).ends_with("array::from_fn") && c.args.len() == 1 && closure_of(&c.args[0]).map_or(false, |k| k.inputs.len() == 1 && matches!(k.inputs[0], Pat::Wild(_))) => {
                let mut b = (*closure_of(&c.args[0]).unwrap().body).clone(); self.visit_expr_mut(&mut b);
                *e = parse_quote! { [#b, #b, #b] }; return;
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                let args: Vec<Expr> = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default();
                let new: Option<Expr> = match name.as_str() {
                    "debug_assert" | "assert" => { let a = &args[0]; Some(parse_quote! { if !(#a) { vx_panic(); } }) }
                    "debug_assert_eq" | "assert_eq" => { let (a, b) = (&args[0], &args[1]); Some(parse_quote! { if !(#a == #b) { vx_panic(); } }) }
                    "debug_assert_ne" | "assert_ne" => { let (a, b) = (&args[0], &args[1]); Some(parse_quote! { if #a == #b { vx_panic(); } }) }
                    "unreachable" | "panic" | "unimplemented" | "todo" => Some(parse_quote! { vx_unreached() }),
                    "cfg" => Some(parse_quote! { vx_cfg() }),
                    "format" => { *e = parse_quote! { vx_format() }; return; }
                    "smallvec" | "vec" => {
                        let toks = m.mac.tokens.to_string();
                        if toks.trim().is_empty() { Some(parse_quote! { Vec::new() }) }
                        else if let Ok(r) = parse_str::<ExprRepeat>(&format!("[{}]", toks)) { let (a, n) = (r.expr, r.len); Some(parse_quote! { vx_from_elem(#a, #n) }) }
                        else { None }
                    }
                    "matches" => None,
                    _ => None,
                };
                if let Some(n) = new { *e = n; visit_mut::visit_expr_mut(self, e); return; }
                if name == "trace" { *e = parse_quote! { {} }; return; }
                return;
            }
            Expr::ForLoop(f) => {
                let k = self.n; self.n += 1;
                let plain = !self.iters.contains(&k) && !self.slices.contains(&k) && source(&f.expr).is_some();
                let calls = if plain { std::mem::take(&mut self.calls) } else { vec![] };
                self.visit_expr_mut(&mut f.expr);
                if plain { self.calls = calls; }
                let (head, cond, pre) = self.lower(k, &f.pat, &f.expr);
                let mut body = f.body.clone();
                self.visit_block_mut(&mut body);
                let label = f.label.clone();
                *e = self.block_loop(k, head, cond, pre, body.stmts, label, None);
                return;
            }
            Expr::While(w) => {
                let k = self.n; self.n += 1;
                let label = w.label.clone();
                if let Expr::Let(l) = &mut *w.cond {
                    self.visit_expr_mut(&mut l.expr);
                    let sc = (*l.expr).clone();
                    let mut body = w.body.clone();
                    self.visit_block_mut(&mut body);
                    // while let P = E { B }  ->  loop { if let P = E { B } else { break } }
                    let (pat, pre) = unref_pat(&l.pat);
                    let (m0, m1, m2, m3, m4, m5, m6) = (self.mark(k, "loopspec"), self.mark(k, "begin"), self.mark(k, "end"), self.mark(k, "before"), self.mark(k, "after"), self.mark(k, "bound"), self.mark(k, "else"));
                    let stmts = body.stmts;
                    *e = parse_quote! { { #m3 #label loop { #m0 #m1 if let #pat = #sc { #(#pre)* #m5 #(#stmts)* } else { #m6 break; } #m2 } #m4 } };
                    return;
                }
                self.visit_expr_mut(&mut w.cond);
                let mut body = w.body.clone();
                self.visit_block_mut(&mut body);
                let c = (*w.cond).clone();
                *e = self.block_loop(k, vec![], c, vec![], body.stmts, label, None);
                return;
            }
            Expr::Loop(l) => {
                let k = self.n; self.n += 1;
                let label = l.label.clone();
                let mut body = l.body.clone();
                self.visit_block_mut(&mut body);
                let stmts = body.stmts;
                let (m0, m1, m2) = (self.mark(k, "loopspec"), self.mark(k, "begin"), self.mark(k, "end"));
                *e = parse_quote! { #label loop { #m0 #m1 #(#stmts)* #m2 } };
                return;
            }
            Expr::Reference(r) if r.mutability.is_some() => { at_base(&mut r.expr, &self.ats); }
            Expr::Reference(r) if r.mutability.is_none() => {
                // &x[..] -> &*x
                if let Expr::Index(ix) = &*r.expr { if let Expr::Range(g) = &*ix.index { if g.start.is_none() && g.end.is_none() {
                    let mut b = (*ix.expr).clone(); self.visit_expr_mut(&mut b);
                    *e = parse_quote! { &*#b }; return;
                } } }
            }
            Expr::Match(m) if m.arms.iter().any(|a| matches!(&a.pat, Pat::Reference(_))) && m.arms.iter().all(|a| matches!(&a.pat, Pat::Reference(_) | Pat::Wild(_))) => {
                // match X { &P => .. } is match *X { P => .. }
                for a in m.arms.iter_mut() { if let Pat::Reference(r) = &a.pat { a.pat = (*r.pat).clone(); } }
                let x = (*m.expr).clone(); m.expr = parse_quote! { *#x };
            }
            // X[i].f = v, X being a container read with vx_at
            Expr::Assign(x) => {
                at_base(&mut x.left, &self.ats);
            }
            // X[a..b] read as a slice
            Expr::Index(ix) if at_field(&ix.expr, &self.ats) => {
                let (b, i) = (&ix.expr, &ix.index);
                *e = parse_quote! { (*#b.vx_at(#i)) };
                visit_mut::visit_expr_mut(self, e); return;
            }
            Expr::Index(ix) if matches!(&*ix.index, Expr::Range(g) if g.start.is_some() || g.end.is_some()) => {
                if let Expr::Range(g) = &*ix.index {
                    let mut x = (*ix.expr).clone(); self.visit_expr_mut(&mut x);
                    let a: Expr = g.start.as_ref().map(|a| (**a).clone()).unwrap_or(parse_quote! { 0 });
                    let mut ne: Expr = match &g.end {
                        Some(b) => if matches!(g.limits, RangeLimits::Closed(_)) { parse_quote! { (*#x.vx_sub(#a, #b + 1)) } } else { parse_quote! { (*#x.vx_sub(#a, #b)) } },
                        None => parse_quote! { (*#x.vx_from(#a)) },
                    };
                    visit_mut::visit_expr_mut(self, &mut ne);
                    *e = ne; return;
                }
            }
            // checks of debug builds are obligations
            Expr::Block(b) if b.attrs.iter().any(|a| norm(&a.to_token_stream().to_string()).contains("debug_assertions")) => { b.attrs.clear(); }
            Expr::Let(l) => {
                self.visit_expr_mut(&mut l.expr);
                return;
            }
            Expr::If(i) => {
                // if let &P-containing patterns
                if let Expr::Let(l) = &mut *i.cond {
                    // `ref mut x` of a temporary is the temporary
                    if matches!(&*l.expr, Expr::MethodCall(_)) { struct M; impl VisitMut for M { fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if p.by_ref.is_some() && p.mutability.is_some() { p.by_ref = None; p.mutability = None; } } } M.visit_pat_mut(&mut l.pat); }
                    let (pat, pre) = unref_pat(&l.pat);
                    if !pre.is_empty() {
                        l.pat = Box::new(pat);
                        let mut st = pre; st.extend(std::mem::take(&mut i.then_branch.stmts)); i.then_branch.stmts = st;
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if self.muts.contains(&name) { at_base(&mut m.receiver, &self.ats); }
                if name == "expect" { m.method = format_ident!("unwrap"); m.args.clear(); }
                if let (Some(c), false) = (m.args.iter().last().and_then(closure_of).cloned(), self.keeps.contains(&name)) {
                    match name.as_str() {
                        // .map(|&p| p) is .copied()
                        "map" if c.inputs.len() == 1 && strip_ref(&c.inputs[0]).map_or(false, |q| norm(&q.to_token_stream().to_string()) == norm(&c.body.to_token_stream().to_string())) => {
                            let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r);
                            *e = parse_quote! { #r.copied() }; return;
                        }
                        // X.entry(K).or_insert_with(|| E) -> X.vx_or_insert(K, E), E being a constant
                        "or_insert_with" if c.inputs.is_empty() => {
                            if let Expr::MethodCall(mm) = &*m.receiver { if mm.method == "entry" && mm.args.len() == 1 {
                                let (mut r, mut k, mut b) = ((*mm.receiver).clone(), mm.args[0].clone(), (*c.body).clone());
                                self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut k); self.visit_expr_mut(&mut b);
                                *e = parse_quote! { #r.vx_or_insert(#k, #b) }; return;
                            } }
                        }
                        "unwrap_or_else" if c.inputs.is_empty() => {
                            let (r, b) = (&m.receiver, &c.body);
                            *e = parse_quote! { match #r { Some(__v) => __v, None => #b } };
                            visit_mut::visit_expr_mut(self, e); return;
                        }
                        "unwrap_or_else" if c.inputs.len() == 1 => {
                            let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                            *e = parse_quote! { match #r { Ok(__v) => __v, Err(#p) => #b } };
                            visit_mut::visit_expr_mut(self, e); return;
                        }
                        // X.map_err(|P| E) where E reads (but does not keep) what surrounds it
                        "map_err" if c.inputs.len() == 1 => {
                            let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                            *e = parse_quote! { match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) } };
                            visit_mut::visit_expr_mut(self, e); return;
                        }
                        "or_else" if c.inputs.is_empty() => {
                            let (r, b) = (&m.receiver, &c.body);
                            *e = parse_quote! { match #r { Some(__v) => Some(__v), None => #b } };
                            visit_mut::visit_expr_mut(self, e); return;
                        }
                        "map" if c.inputs.len() == 1 && matches!(&*m.receiver, Expr::MethodCall(n) if n.method == "next" && n.args.is_empty()) => {
                            let (p, body) = pat_closure(&c);
                            let (q, pre) = unref_pat(&p);
                            let r = &m.receiver;
                            *e = parse_quote! { match #r { Some(#q) => { #(#pre)* Some(#body) } None => None } };
                            visit_mut::visit_expr_mut(self, e); return;
                        }
                        "position" | "any" | "all" if source(&m.receiver).is_some() => { let r = (*m.receiver).clone(); *e = self.closure_loop(&r, &name, &c); return; }
                        "binary_search_by_key" => {
                            let r = (*m.receiver).clone(); let key = m.args[0].clone();
                            let (ks, _) = self.keys_of(&r, &c);
                            *e = parse_quote! { vx_binary_search(&#ks, #key) }; return;
                        }
                        "binary_search_by" => {
                            let r = (*m.receiver).clone();
                            let (ks, _) = self.keys_of(&r, &c);
                            *e = parse_quote! { vx_binary_search_by(&#ks) }; return;
                        }
                        "sort_by_key" | "sort_unstable_by_key" => {
                            let r = (*m.receiver).clone();
                            let (ks, _) = self.keys_of(&r, &c);
                            let f = format_ident!("vx_{}", name);
                            let mut r = r; at_base(&mut r, &self.ats); self.visit_expr_mut(&mut r);
                            *e = parse_quote! { #f(#ks, &mut #r) }; return;
                        }
                        "retain" => {
                            let r = (*m.receiver).clone();
                            // |&mut P| / |x|
                            let (p, body) = pat_closure(&c);
                            let p2: Pat = match strip_ref(&p) { Some(q) => parse_quote! { &#q }, None => p };
                            let c2: ExprClosure = parse_quote! { |#p2| #body };
                            let (ks, _) = self.keys_of(&r, &c2);
                            *e = parse_quote! { vx_retain(#ks, &mut #r) }; return;
                        }
                        _ => {}
                    }
                }
                // X.range(a..) -> X.vx_range_from(a)
                if name == "range" && m.args.len() == 1 {
                    if let Expr::Range(g) = &m.args[0] { if let (Some(a), None) = (&g.start, &g.end) {
                        let (mut r, mut a) = ((*m.receiver).clone(), (**a).clone());
                        self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut a);
                        *e = parse_quote! { #r.vx_range_from(#a) }; return;
                    } }
                }
                // X.entry(K).or_insert(E) -> X.vx_or_insert(K, E)
                if name == "or_insert" && m.args.len() == 1 {
                    if let Expr::MethodCall(mm) = &*m.receiver { if mm.method == "entry" && mm.args.len() == 1 {
                        let (mut r, mut k, mut b) = ((*mm.receiver).clone(), mm.args[0].clone(), m.args[0].clone());
                        self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut k); self.visit_expr_mut(&mut b);
                        *e = parse_quote! { #r.vx_or_insert(#k, #b) }; return;
                    } }
                }
                // A.iter().copied().zip(B.iter().copied()).collect() -> vx_zip_collect(&A, &B)
                if name == "collect" && m.args.is_empty() {
                    if let Expr::MethodCall(z) = &*m.receiver { if z.method == "zip" && z.args.len() == 1 {
                        if let (Some((ka, a, xa)), Some((kb, b, xb))) = (source(&z.receiver), source(&z.args[0])) {
                            let plain = |k: &str, x: &Vec<String>| k == "slice" && x.len() == 1 && (x[0] == "copied" || x[0] == "cloned");
                            if plain(&ka, &xa) && plain(&kb, &xb) { let (mut a, mut b) = (a, b); self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b); *e = parse_quote! { vx_zip_collect(&*#a, &*#b) }; return; }
                        }
                    } }
                }
                // X.extend(Y.drain(..).map(|P| B)) -> a loop over what Y held, pushing
                if name == "extend" && m.args.len() == 1 {
                    if let Expr::MethodCall(mm) = &m.args[0] { if mm.method == "map" && mm.args.len() == 1 {
                        if let (Expr::MethodCall(d), Some(c)) = (&*mm.receiver, closure_of(&mm.args[0]).cloned()) { if d.method == "drain" && d.args.len() == 1 && norm(&d.args[0].to_token_stream().to_string()) == ".." {
                            let k = self.n; self.n += 1;
                            let (p, mut body) = pat_closure(&c);
                            let (it, nx) = (format_ident!("__it{}", k), format_ident!("__nx{}", k));
                            let (mut x, mut y) = ((*m.receiver).clone(), (*d.receiver).clone());
                            self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut y); self.visit_expr_mut(&mut body);
                            let v = format_ident!("__v{}", k);
                            *e = self.block_loop(k, vec![parse_quote! { let mut #it = vx_drain_iter(&mut #y); }, parse_quote! { let mut #nx = #it.next(); }], parse_quote! { #nx.is_some() },
                                vec![parse_quote! { let #p = #nx.unwrap(); }, parse_quote! { #nx = #it.next(); }], vec![parse_quote! { let #v = #body; }, parse_quote! { #x.push(#v); }], None, None);
                            return;
                        } }
                    } }
                }
                // X.extend(S.iter().cloned()) -> vx_extend(&mut X, &S)
                if name == "extend" && m.args.len() == 1 {
                    if let Some((k, b, ads)) = source(&m.args[0]) { if k == "slice" && ads.len() == 1 && (ads[0] == "cloned" || ads[0] == "copied") {
                        let (mut r, mut b) = ((*m.receiver).clone(), b); self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut b);
                        *e = parse_quote! { vx_extend(&mut #r, &#b) }; return;
                    } }
                }
                if (name == "dedup" || name == "reverse") && m.args.is_empty() {
                    let f = format_ident!("vx_{}", name); let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r);
                    *e = parse_quote! { #f(&mut #r) }; return;
                }
                if m.args.is_empty() { if let Some((_, f)) = self.calls.iter().find(|c| c.0 == name) {
                    let f = format_ident!("{}", f); let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r);
                    *e = parse_quote! { #f(#r) }; return;
                } }
                if name == "collect" {
                    if let Expr::MethodCall(mm) = &*m.receiver { if mm.method == "into_iter" && mm.args.is_empty() {
                        let mut r = (*mm.receiver).clone(); self.visit_expr_mut(&mut r); *e = parse_quote! { vx_collect(#r) }; return;
                    } }
                    // S.iter().cloned().collect() -> vx_to_vec(&S)
                    if let Some((k, b, ads)) = source(&m.receiver) { if k == "slice" && ads.len() == 1 && (ads[0] == "cloned" || ads[0] == "copied") {
                        let mut b = b; self.visit_expr_mut(&mut b);
                        *e = parse_quote! { vx_to_vec(&*#b) }; return;
                    } }
                    if let Expr::MethodCall(mm) = &*m.receiver {
                        if mm.method == "map" && source(&mm.receiver).is_some() {
                            if let Some(c) = mm.args.iter().last().and_then(closure_of).cloned() {
                                let r = (*mm.receiver).clone(); *e = self.closure_loop(&r, "map_collect", &c); return;
                            }
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Paren(p) = &*c.func { if let Expr::Field(f) = &*p.expr { if let Member::Named(n) = &f.member { if self.closures.contains(&n.to_string()) {
                    let g = format_ident!("vx_{}", n); let base = (*p.expr).clone(); let mut args = c.args.clone();
                    for a in args.iter_mut() { self.visit_expr_mut(a); }
                    let mut base = base; self.visit_expr_mut(&mut base);
                    *e = parse_quote! { #g(&mut #base, #args) };
                    return;
                } } } }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
}
/// Some(&x) -> (Some(__r), let x = *__r)
fn unref_pat(p: &Pat) -> (Pat, Vec<Stmt>) {
    struct U { n: usize, pre: Vec<Stmt> }
    impl VisitMut for U {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if let Pat::Reference(r) = p {
                let t = format_ident!("__r{}", self.n); self.n += 1;
                let q = (*r.pat).clone();
                self.pre.push(parse_quote! { let #q = *#t; });
                *p = parse_quote! { #t };
                return;
            }
            visit_mut::visit_pat_mut(self, p);
        }
    }
    let mut u = U { n: 0, pre: vec![] };
    let mut q = p.clone(); u.visit_pat_mut(&mut q);
    (q, u.pre)
}

/// Closures that stay closures get their header from the template.
struct Lam<'a> { n: usize, want: &'a BTreeMap<usize, String>, heads: Vec<(String, String)> }
impl<'a> VisitMut for Lam<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Closure(c) = e {
            let k = self.n; self.n += 1;
            if let Some(h) = self.want.get(&k) {
                let mut h = h.trim_end().to_string();
                for (i, p) in c.inputs.iter().enumerate() {
                    let p = match p { Pat::Type(t) => &*t.pat, p => p };
                    h = h.replace(&format!("${}", i + 1), &p.to_token_stream().to_string());
                }
                let id = format_ident!("__vxlambda_{}_", k);
                self.heads.push((id.to_string(), h));
                let body = &c.body;
                *e = Expr::Verbatim(quote! { #id { #body } });
            }
        }
    }
}

struct Types(Vec<(String, String)>);
impl VisitMut for Types {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = norm(&t.to_token_stream().to_string());
        for (a, b) in &self.0 { if *a == s && (matches!(t, Type::ImplTrait(_)) || parse_str::<Path>(b).is_err()) { *t = parse_str(b).unwrap(); break; } }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        // crate::a::b::X -> X ; super::X -> X ; core::/std:: kept
        if let Some(f) = p.segments.first() {
            let f = f.ident.to_string();
            if (f == "crate" || f == "super") && p.segments.len() > 1 {
                // keep from the last segment starting with an uppercase letter, or the last one
                let n = p.segments.len();
                let mut i = n - 1;
                while i > 1 && p.segments[i - 1].ident.to_string().chars().next().unwrap().is_uppercase() { i -= 1; }
                let segs: Vec<PathSegment> = p.segments.iter().skip(i).cloned().collect();
                p.segments = segs.into_iter().collect(); p.leading_colon = None;
            }
        }
        visit_mut::visit_path_mut(self, p);
        let last = p.segments.last_mut().unwrap();
        if last.ident == "SmallVec" {
            last.ident = format_ident!("Vec");
            if let PathArguments::AngleBracketed(a) = &mut last.arguments {
                if let Some(GenericArgument::Type(Type::Array(ar))) = a.args.first() { let t = (*ar.elem).clone(); *a = parse_quote! { <#t> }; }
            }
        }
        let s = norm(&p.to_token_stream().to_string());
        for (a, b) in &self.0 { if *a == s { *p = parse_str(b).unwrap(); return; } }
        let args = std::mem::take(&mut p.segments.last_mut().unwrap().arguments);
        if !args.is_none() {
            let s = norm(&p.to_token_stream().to_string());
            for (a, b) in &self.0 { if *a == s { *p = parse_str(b).unwrap(); break; } }
            let l = &mut p.segments.last_mut().unwrap().arguments;
            if l.is_none() { *l = args; }
        }
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) { *v = Visibility::Inherited; }
}

// ------------------------------------------------------------------ anchors
struct Anchor { text: String, mark: TokenStream, after: bool, hits: usize }
impl Anchor {
    fn count(&self, b: &Block) -> bool { // does some nested block contain the text in a statement?
        struct C<'a>(&'a str, bool);
        impl<'a, 'b> Visit<'b> for C<'a> { fn visit_stmt(&mut self, s: &'b Stmt) { if norm(&s.to_token_stream().to_string()).contains(self.0) { self.1 = true; } } }
        let mut c = C(&self.text, false);
        for s in &b.stmts { c.visit_stmt(s); }
        c.1
    }
}
impl VisitMut for Anchor {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if !norm(&s.to_token_stream().to_string()).contains(&self.text) { out.push(s); continue; }
            let before = self.hits;
            // nested?
            struct N<'a>(&'a Anchor, bool);
            impl<'a, 'b> Visit<'b> for N<'a> { fn visit_block(&mut self, b: &'b Block) { if self.0.count(b) { self.1 = true; } } }
            let mut n = N(self, false); n.visit_stmt(&s);
            if n.1 { visit_mut::visit_stmt_mut(self, &mut s); out.push(s); }
            else {
                self.hits += 1;
                let m = &self.mark; let st: Stmt = parse_quote! { __vx!(#m); };
                if self.after { out.push(s); out.push(st); } else { out.push(st); out.push(s); }
            }
            let _ = before;
        }
        b.stmts = out;
    }
}

// ------------------------------------------------------------------ emission
fn emit_fn(src: &mut Src, sp: &Spec, shapes: &mut String, vac: bool) -> String {
    let (im, mut f) = src.func(&sp.file, &sp.path);
    let mut sh = Shape(String::new()); sh.visit_block(&f.block);
    shapes.push_str(&format!("{} {} {}\n", sp.file, sp.path, sh.0));
    f.vis = Visibility::Inherited; f.attrs.clear();
    // captures of a closure: `HEADER` as in fn HEADER; `&mut` ones are used through the reference, self is called this
    if let Some(h) = &sp.captures {
        let o: ItemFn = parse_str(&format!("fn f{} {{}}", h)).unwrap_or_else(|e| die(format!("captures {h}: {e}")));
        let mut muts: Vec<String> = vec![];
        let mut ins = o.sig.inputs.clone();
        for a in &o.sig.inputs { if let FnArg::Typed(t) = a { if matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) { muts.push(t.pat.to_token_stream().to_string()); } } }
        ins.extend(f.sig.inputs.clone());
        f.sig.inputs = ins; f.sig.output = o.sig.output.clone(); f.sig.generics = o.sig.generics.clone();
        struct R(Vec<String>);
        impl VisitMut for R { fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { if i == "self" { *e = parse_quote! { this }; return; } if self.0.contains(&i.to_string()) { *e = parse_quote! { (*#i) }; return; } } }
            visit_mut::visit_expr_mut(self, e);
        } }
        R(muts).visit_block_mut(&mut f.block);
    }
    // fields reached through Deref: E.FIELD is E.VIA.FIELD
    for (k, via) in &sp.types { if let Some(field) = k.strip_prefix("deref:") {
        // `self.FIELD`: of self only
        let (field, selfonly) = match field.strip_prefix("self.") { Some(f) => (f, true), None => (field, false) };
        struct D<'a>(&'a str, Ident, bool);
        impl<'a> VisitMut for D<'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Field(x) = e { let id = &self.1; if x.member.to_token_stream().to_string() == self.0 && (!self.2 || ["self", "this"].contains(&x.base.to_token_stream().to_string().as_str())) && !matches!(&*x.base, Expr::Field(b) if b.member.to_token_stream().to_string() == id.to_string()) { let b = &x.base; let b: Expr = parse_quote! { #b.#id }; x.base = Box::new(b); } }
            }
        }
        D(field, format_ident!("{}", via), selfonly).visit_block_mut(&mut f.block);
    } }
    let mut rw = Rw { n: 0, iters: sp.iters.clone(), slices: sp.slices.clone(), colls: sp.colls.clone(), closures: sp.closures.clone(), calls: sp.calls.clone(), ats: sp.ats.clone(), keeps: sp.keeps.clone(), drops: sp.drops.clone(), muts: sp.muts.clone(), hoisted: vec![], mutself: false };
    let mut pre: Vec<Stmt> = vec![];
    for a in f.sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => { r.attrs.clear(); if matches!(r.kind, ReceiverKind::Value) && r.mutability.is_some() { r.mutability = None; rw.mutself = true; pre.push(parse_quote! { let mut __this = self; }); } }
            FnArg::Typed(t) => { t.attrs.clear();
                if let Pat::Ident(i) = &mut *t.pat { if i.mutability.is_some() { i.mutability = None; let id = &i.ident; pre.push(parse_quote! { let mut #id = #id; }); } } }
        }
    }
    // lambda lifting
    let mut lifted: Vec<(String, ExprClosure)> = vec![];
    for (name, args, header) in &sp.lifts {
        struct L<'a> { name: &'a str, found: Option<ExprClosure>, args: punctuated::Punctuated<Expr, Token![,]> }
        impl<'a> VisitMut for L<'a> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                b.stmts.retain(|s| {
                    if let Stmt::Local(l) = s { if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) { if i.ident == self.name { if let Expr::Closure(c) = &*init.expr { self.found = Some(c.clone()); return false; } } } }
                    true
                });
                visit_mut::visit_block_mut(self, b);
            }
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Call(c) = e { if let Expr::Path(p) = &*c.func { if p.path.is_ident(self.name) {
                    let f = format_ident!("vx_{}", self.name); let mut a = self.args.clone(); a.extend(c.args.clone());
                    *e = parse_quote! { #f(#a) };
                } } }
            }
        }
        use syn::parse::Parser;
        let args = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse_str(args).unwrap();
        let mut l = L { name, found: None, args }; l.visit_block_mut(&mut f.block);
        let c = l.found.unwrap_or_else(|| die(format!("{} {}: closure {} not found", sp.file, sp.path, name)));
        let mut h = header.clone();
        for (i, p) in c.inputs.iter().enumerate() { let p = match p { Pat::Type(t) => &*t.pat, p => p }; h = h.replace(&format!("${}", i + 1), &p.to_token_stream().to_string()); }
        lifted.push((h, c));
    }
    rw.visit_block_mut(&mut f.block);
    if rw.mutself {
        struct R; impl VisitMut for R { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Path(p) = e { if p.path.is_ident("self") { *e = parse_quote! { __this }; return; } } visit_mut::visit_expr_mut(self, e); } }
        R.visit_block_mut(&mut f.block);
    }
    // Self::Assoc -> the type the impl gives it
    let mut tys = sp.types.clone();
    if let Some(im) = &im { for it in &im.items { if let ImplItem::Type(t) = it { tys.push((format!("Self::{}", t.ident), t.ty.to_token_stream().to_string())); } } }
    let mut ty = Types(tys);
    ty.visit_item_fn_mut(&mut f);
    let mut lam = Lam { n: 0, want: &sp.lambdas, heads: vec![] };
    lam.visit_block_mut(&mut f.block);
    for (k, (n, _)) in sp.passes.iter().enumerate() {
        struct P<'a>(&'a str, Ident, usize);
        impl<'a> VisitMut for P<'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                let id = &self.1;
                match e {
                    Expr::Call(c) if norm(&c.func.to_token_stream().to_string()) == self.0 => { c.args.push(parse_quote! { #id }); self.2 += 1; }
                    Expr::MethodCall(c) if c.method == self.0 => { c.args.push(parse_quote! { #id }); self.2 += 1; }
                    _ => {}
                }
            }
        }
        let mut v = P(n, format_ident!("__vxpass_{}_", k), 0); v.visit_block_mut(&mut f.block);
        if v.2 == 0 { die(format!("{} {}: no call of {}", sp.file, sp.path, n)); }
    }
    for k in 0..sp.ghosts.len() { let id = format_ident!("__vxghost_{}_", k); f.sig.inputs.push(parse_quote! { #id: u8 }); }
    for k in sp.lambdas.keys() { if *k >= lam.n { die(format!("{} {}: closure {} not found", sp.file, sp.path, k)); } }
    // anchors
    for (i, (w, text, _)) in sp.anchors.iter().enumerate() {
        let k = Index::from(i);
        let (text, want) = match text.rsplit_once(" #") { Some((t, n)) if n.parse::<usize>().is_ok() => (t.to_string(), n.parse::<usize>().unwrap()), _ => (text.clone(), 1) };
        let mut a = Anchor { text: norm(&text), mark: quote! { anchor #k }, after: w == "after", hits: 0 };
        a.visit_block_mut(&mut f.block);
        if a.hits != want { die(format!("{} {}: anchor `{}` matches {} statements", sp.file, sp.path, text, a.hits)); }
    }
    // exit
    let mut stmts = pre; stmts.push(parse_quote! { __vx!(entry); });
    let mut body = std::mem::take(&mut f.block.stmts);
    let has_ret = !matches!(f.sig.output, ReturnType::Default);
    if has_ret && matches!(body.last(), Some(Stmt::Expr(_, None))) && !sp.exit.is_empty() {
        if let Some(Stmt::Expr(t, None)) = body.pop() { body.push(parse_quote! { let __res = #t; }); body.push(parse_quote! { __vx!(exit); }); body.push(Stmt::Expr(parse_quote! { __res }, None)); }
    } else if !has_ret {
        if let Some(Stmt::Expr(_, semi @ None)) = body.last_mut() { *semi = Some(Default::default()); }
        body.push(parse_quote! { __vx!(exit); });
    }
    stmts.extend(body);
    f.block.stmts = stmts;
    // signature
    let sig = &f.sig;
    let name = match &sp.rename { Some(r) => format_ident!("{}", r), None => sig.ident.clone() };
    let (generics, wh) = (&sig.generics, &sig.generics.where_clause);
    let inputs = &sig.inputs;
    let ret = match &sig.output { ReturnType::Default => quote!(), ReturnType::Type(_, t) => quote!(-> (res: #t)) };
    let mut head = print_tokens(quote! { fn #name #generics (#inputs) #ret #wh });
    for (k, g) in sp.ghosts.iter().enumerate() { let (n, t) = g.split_once(':').unwrap(); head = head.replace(&format!("__vxghost_{}_ : u8", k), &format!("Ghost({}): Ghost<{}>", n.trim(), t.trim())); }
    let mut text = print_tokens(f.block.to_token_stream());
    // weave
    for (k, v) in &sp.loops { if k.1 == "spec" && !text.contains(&format!("__vx ! (loopspec {})", k.0)) { die(format!("{} {}: loop {} not found", sp.file, sp.path, k.0)); } let _ = v; }
    let mut out = String::new();
    let mut rest = text.as_str();
    while let Some(p) = rest.find("__vx !") {
        out.push_str(&rest[..p]);
        let after = &rest[p..];
        let a = after.find('(').unwrap(); let z = after.find(')').unwrap(); let semi = after.find(';').unwrap();
        let words: Vec<&str> = after[a + 1..z].split_whitespace().collect();
        rest = &after[semi + 1..];
        match words[0] {
            "entry" => { out.push_str("//VXENTRY\n"); out.push_str(&sp.entry) }
            "exit" => out.push_str(&sp.exit),
            "anchor" => out.push_str(&sp.anchors[words[1].parse::<usize>().unwrap()].2),
            "loopspec" => {
                let k: usize = words[1].parse().unwrap();
                let cl = sp.loops.get(&(k, "spec".into())).cloned().unwrap_or_default();
                // move in front of the brace just emitted
                let b = out.rfind('{').unwrap();
                out.truncate(b);
                out.push_str(&format!("\n{}{{\n", cl));
            }
            w => { let k: usize = words[1].parse().unwrap(); if let Some(t) = sp.loops.get(&(k, w.to_string())) { out.push_str(t); } }
        }
    }
    out.push_str(rest);
    text = out;
    for (k, (_, x)) in sp.passes.iter().enumerate() { text = text.replace(&format!("__vxpass_{}_", k), &format!("Ghost({})", x)); }
    for (id, h) in &lam.heads { text = text.replace(id, &format!("{} ", h)); }
    let _ = vac;
    let mut hoist = String::new();
    for (h, c) in lifted {
        let b = &c.body;
        let mut blk: Block = parse_quote! { { #b } };
        struct This; impl VisitMut for This { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Path(p) = e { if p.path.is_ident("self") { *e = parse_quote! { this }; return; } } visit_mut::visit_expr_mut(self, e); } }
        This.visit_block_mut(&mut blk);
        let mut r2 = Rw { n: 1000, iters: vec![], slices: vec![], colls: BTreeMap::new(), closures: vec![], calls: sp.calls.clone(), ats: sp.ats.clone(), keeps: sp.keeps.clone(), drops: sp.drops.clone(), muts: sp.muts.clone(), hoisted: vec![], mutself: false };
        r2.visit_block_mut(&mut blk);
        Types(sp.types.clone()).visit_block_mut(&mut blk);
        hoist.push_str(&format!("//VXFN {}::closure\n{}{}\n//VXEND\n", sp.path, h, print_tokens(blk.to_token_stream()).replacen("{", "{\n//VXENTRY\n", 1)));
    }
    for mut i in rw.hoisted {
        let mut ty = Types(sp.types.clone());
        let d = match &i { Item::Enum(e) => derives(&e.attrs), Item::Struct(e) => derives(&e.attrs), _ => vec![] };
        ty.visit_item_mut(&mut i);
        hoist.push_str(&format!("{}{}\n", derive_line(&d, None), print_tokens(i.to_token_stream())));
    }
    let fun = if sp.external { format!("#[verifier::external_body]\n{head}\n{}{{ unimplemented!() }}", sp.spec) } else { format!("//VXFN {}\n{}{head}\n{}{}\n//VXEND", sp.path, sp.attrs.concat(), sp.spec, text) };
    let wrapped = if let (Some(im), false) = (&im, sp.bodyonly) {
        let mut im2 = im.clone();
        im2.items.clear(); im2.trait_ = None; im2.attrs.clear();
        Types(sp.types.clone()).visit_item_impl_mut(&mut im2);
        if let Some(g) = &sp.generics { format!("{} {{\n{}\n}}\n", g, fun) } else {
            let h = print_tokens(im2.to_token_stream());
            let cut = h.rfind('{').unwrap();
            format!("{} {{\n{}\n}}\n", &h[..cut], fun)
        }
    } else { format!("{}\n", fun) };
    format!("{}{}", hoist, wrapped)
}
fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs { if a.path().is_ident("derive") { let _ = a.parse_nested_meta(|m| { v.push(m.path.segments.last().unwrap().ident.to_string()); Ok(()) }); } }
    v
}
fn derive_line(d: &[String], over: Option<&str>) -> String {
    if let Some(o) = over { return if o.is_empty() { String::new() } else { format!("#[derive({})]\n", o) }; }
    let mut k: Vec<String> = d.iter().filter(|x| ["Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"].contains(&x.as_str())).cloned().collect();
    if k.iter().any(|x| x == "PartialEq") && k.iter().any(|x| x == "Eq") { k.push("Structural".into()); }
    if k.is_empty() { String::new() } else { format!("#[derive({})]\n", k.join(", ")) }
}
fn emit_item(src: &mut Src, file: &str, kind: &str, name: &str, over: Option<&str>, types: &[(String, String)]) -> String {
    let items = src.get(file);
    for i in items {
        let (k, n, d) = match i {
            Item::Struct(s) => ("struct", s.ident.to_string(), derives(&s.attrs)),
            Item::Enum(s) => ("enum", s.ident.to_string(), derives(&s.attrs)),
            Item::Const(s) => ("const", s.ident.to_string(), vec![]),
            Item::Type(s) => ("type", s.ident.to_string(), vec![]),
            _ => continue };
        if k == kind && n == name {
            let mut j = i.clone();
            Types(types.to_vec()).visit_item_mut(&mut j);
            if let (Item::Const(k), Some((ens, pf))) = (&j, over.and_then(|o| o.split_once('|'))) { return format!("exec const {}: {} ensures {} {{ proof {{ {} }} {} }}\n", k.ident, print_tokens(k.ty.to_token_stream()), ens, pf, print_tokens(k.expr.to_token_stream())); }
            return format!("{}{}\n", derive_line(&d, over), print_tokens(j.to_token_stream()));
        }
    }
    // associated const
    if kind == "aconst" {
        let (t, c) = name.split_once("::").unwrap();
        for i in items { if let Item::Impl(im) = i { if let Type::Path(p) = &*im.self_ty { if p.path.segments.last().unwrap().ident == t {
            for it in &im.items { if let ImplItem::Const(k) = it { if k.ident == c { let mut k = k.clone(); Types(types.to_vec()).visit_impl_item_const_mut(&mut k);
                if let Some((ens, pf)) = over.and_then(|o| o.split_once('|')) { return format!("impl {} {{ exec const {}: {} ensures {} {{ proof {{ {} }} {} }} }}\n", t, c, print_tokens(k.ty.to_token_stream()), ens, pf, print_tokens(k.expr.to_token_stream())); }
                return format!("impl {} {{ {} }}\n", t, print_tokens(k.to_token_stream())); } } }
        } } } }
    }
    die(format!("{file}: {kind} {name} not found"))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, tpl, outp, shp) = (&a[1], &a[2], &a[3], &a[4]);
    fn load(p: &std::path::Path) -> String {
        let mut o = String::new();
        for l in std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{p:?} {e}")).lines() {
            if let Some(f) = l.trim_start().strip_prefix("//@ include ") { o.push_str(&load(&p.parent().unwrap().join(f.trim()))); } else { o.push_str(l); o.push('\n'); }
        }
        o
    }
    let t = load(std::path::Path::new(tpl));
    let mut src = Src { repo: repo.clone(), cache: HashMap::new() };
    let mut out = String::new(); let mut shapes = String::new();
    let mut cur: Option<Spec> = None;
    let mut sect: Option<(String, usize)> = None; // current section
    let mut types: Vec<(String, String)> = vec![];
    for line in t.lines() {
        if let Some(d) = line.trim_start().strip_prefix("//@") {
            let d = d.trim(); let w: Vec<&str> = d.split_whitespace().collect();
            match w[0] {
                "deref" => types.push((format!("deref:{}", w[1]), w[2].into())),
                "type" => types.push((norm(w[1]), w[2..].join(" "))),
                "item" => { let over = if let Some(p) = d.find(" exec ") { Some(&d[p + 6..]) } else { d.find("derive(").map(|p| &d[p + 7..d.rfind(')').unwrap()]) }; out.push_str(&emit_item(&mut src, w[1], w[2], w[3], over, &types)); }
                "fn" => { let mut s = Spec { file: w[1].into(), path: w[2].into(), types: types.clone(), ..Default::default() };
                    for o in &w[3..] { if *o == "free" { s.bodyonly = true; } else if *o == "external" { s.external = true; } else if let Some(r) = o.strip_prefix("as=") { s.rename = Some(r.into()); } }
                    cur = Some(s); sect = None; }
                "impl" => { cur.as_mut().unwrap().generics = Some(d.to_string()); }
                "iter" => cur.as_mut().unwrap().iters.push(w[1].parse().unwrap()),
                "slice" => cur.as_mut().unwrap().slices.push(w[1].parse().unwrap()),
                "lift" => { let c = cur.as_mut().unwrap(); c.lifts.push((w[1].into(), w[2..].join(" "), String::new())); sect = Some(("lift".into(), c.lifts.len() - 1)); }
                "ghost" => cur.as_mut().unwrap().ghosts.push(d[5..].trim().to_string()),
                "pass" => cur.as_mut().unwrap().passes.push((w[1].into(), w[2..].join(" "))),
                "collect" => { cur.as_mut().unwrap().colls.insert(w[1].parse().unwrap(), w[2..].join(" ")); }
                "attr" => cur.as_mut().unwrap().attrs.push(format!("#[{}]\n", w[1..].join(" "))),
                "call" => cur.as_mut().unwrap().calls.push((w[1].into(), w[2].into())),
                "drop" => cur.as_mut().unwrap().drops.push(w[1].into()),
                "captures" => cur.as_mut().unwrap().captures = Some(d[8..].trim().to_string()),
                "keep" => cur.as_mut().unwrap().keeps.push(w[1].into()),
                "mut" => cur.as_mut().unwrap().muts.push(w[1].into()),
                "at" => cur.as_mut().unwrap().ats.push(w[1].into()),
                "closure" => cur.as_mut().unwrap().closures.push(w[1].into()),
                "lambda" => { let k: usize = w[1].parse().unwrap(); cur.as_mut().unwrap().lambdas.entry(k).or_default(); sect = Some(("lambda".into(), k)); }
                "spec" | "entry" | "exit" => sect = Some((w[0].into(), 0)),
                "loop" => { let k: usize = w[1].parse().unwrap(); let what = w.get(2).map(|s| s.to_string()).unwrap_or("spec".into()); sect = Some((format!("loop {}", what), k)); cur.as_mut().unwrap().loops.entry((k, what)).or_default(); }
                "after" | "before" => { let c = cur.as_mut().unwrap(); c.anchors.push((w[0].into(), d[w[0].len()..].trim().into(), String::new())); sect = Some(("anchor".into(), c.anchors.len() - 1)); }
                "end" => { let s = cur.take().unwrap(); out.push_str(&emit_fn(&mut src, &s, &mut shapes, false)); }
                x => panic!("directive {x}"),
            }
            continue;
        }
        if let Some(c) = cur.as_mut() {
            let l = format!("{}\n", line);
            match &sect {
                None => {}
                Some((s, k)) => match s.as_str() {
                    "spec" => c.spec.push_str(&l), "entry" => c.entry.push_str(&l), "exit" => c.exit.push_str(&l),
                    "lambda" => c.lambdas.get_mut(k).unwrap().push_str(&l),
                    "lift" => c.lifts[*k].2.push_str(&l),
                    "anchor" => c.anchors[*k].2.push_str(&l),
                    x => { let what = x.strip_prefix("loop ").unwrap().to_string(); c.loops.get_mut(&(*k, what)).unwrap().push_str(&l); }
                },
            }
        } else { out.push_str(line); out.push('\n'); }
    }
    std::fs::write(outp, out).unwrap();
    std::fs::write(shp, shapes).unwrap();
}
