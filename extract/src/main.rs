//! Mechanical extraction of functions from the expanded source of the crate.
//!
//! extract <expanded.rs> <item>...
//!
//! An item is `module::path::function`, `module::path::Struct` or `<Type>::function` for inherent methods.
//! Prints one JSON object per item. What is changed in a body is listed in `notes`; besides that
//! attributes, visibility and `const` are dropped, and anchors are put at structural positions.
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Does the function body contain something that Verus cannot express as it stands?
struct Rewrite {
    notes: Vec<String>,
    tmp: usize,
    bools: Vec<String>,
    strs: Vec<String>,
}

/// Names declared as truth values, and fields `x.1` of tuples declared with a truth value there.
struct Bools(Vec<String>);

impl Bools {
    fn typed(&mut self, name: &str, t: &Type) {
        match t {
            Type::Path(p) if p.path.is_ident("bool") => self.0.push(name.into()),
            Type::Tuple(t) => t.elems.iter().enumerate().for_each(|(i, t)| self.typed(&format!("{name}.{i}"), t)),
            _ => {}
        }
    }
}

impl<'a> Visit<'a> for Bools {
    fn visit_pat_type(&mut self, p: &'a PatType) {
        if let Pat::Ident(i) = &*p.pat {
            self.typed(&i.ident.to_string(), &p.ty);
        }
    }
    fn visit_local(&mut self, l: &'a Local) {
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if is_bool(&init.expr, &self.0) {
                self.0.push(i.ident.to_string());
            }
        }
        visit::visit_local(self, l);
    }
}

impl Rewrite {
    fn note(&mut self, s: &str) {
        if !self.notes.iter().any(|x| x == s) {
            self.notes.push(s.into());
        }
    }
}

const PRIMITIVES: [&str; 8] = ["u32", "u64", "u128", "usize", "i32", "i64", "i128", "isize"];

fn is_panic(path: &Path) -> bool {
    let s: Vec<String> = path.segments.iter().map(|x| x.ident.to_string()).collect();
    s.iter().any(|x| x == "panicking" || x == "panic_fmt" || x == "panic_const" || x == "unreachable_display")
}

/// Is this, by its form, a truth value?
fn is_bool(e: &Expr, names: &[String]) -> bool {
    match e {
        Expr::Paren(p) => is_bool(&p.expr, names),
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && is_bool(&u.expr, names),
        Expr::Path(_) | Expr::Field(_) => {
            let text = e.to_token_stream().to_string().replace(' ', "");
            names.contains(&text)
        }
        Expr::Lit(l) => matches!(l.lit, Lit::Bool(_)),
        Expr::Binary(b) => matches!(
            b.op,
            BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)
        ),
        _ => false,
    }
}

impl VisitMut for Rewrite {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let first = p.segments[0].ident.to_string();
        if (first == "crate" || first == "super" || first == "self") && p.segments.len() > 1 {
            // One flat name space: Type::item and item survive.
            let n = p.segments.len();
            let keep = if n >= 2 && p.segments[n - 2].ident.to_string().starts_with(char::is_uppercase) { 2 } else { 1 };
            p.leading_colon = None;
            p.segments = p.segments.iter().skip(n - keep).cloned().collect();
            self.note("paths into the crate flattened");
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        if b.stmts.len() != n {
            self.note("imports in bodies dropped: one flat name space");
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let mut l = Literals { names: vec![] };
        // Alternatives would need one guard each.
        if !matches!(a.pat, Pat::Or(_)) {
            l.visit_pat_mut(&mut a.pat);
        }
        for (id, lit) in l.names.iter().rev() {
            let test: Expr = parse_quote!(*#id == #lit);
            a.guard = Some(match a.guard.take() {
                Some((i, g)) => (i, parse_quote!((#test) && (#g))),
                None => (Default::default(), Box::new(test)),
            });
            self.note("references to literals in patterns compared in guards");
        }
        visit_mut::visit_arm_mut(self, a);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // <T>::X is T::X.
        if let Expr::Path(p) = e {
            if let Some(q) = &p.qself {
                if q.as_token.is_none() && q.position == 0 {
                    if let Type::Path(t) = &*q.ty {
                        let mut path = t.path.clone();
                        path.segments.extend(p.path.segments.iter().cloned());
                        p.path = path;
                        p.qself = None;
                    }
                }
            }
        }
        if let Expr::Try(t) = e {
            let x = &t.expr;
            *e = parse_quote!(match #x { Ok(v__) => v__, Err(e__) => return Err(From::from(e__)) });
            self.note("the operator ? written as a match");
        }
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    // The parsers of the standard library are functions with a contract.
                    let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
                    if s.len() == 2 && s[1] == "from_str" && PRIMITIVES.contains(&&s[0][..]) {
                        let id = Ident::new(&format!("{}_from_str", s[0]), Span::call_site());
                        p.path = parse_quote!(#id);
                        self.note("from_str of primitive types called by a plain name");
                    }
                    if is_panic(&p.path) {
                        *e = parse_quote!(vpanic());
                        self.note("panics are calls of a function that must not be reached");
                        return;
                    }
                }
            }
            Expr::MethodCall(c) => {
                // str::len is the number of bytes.
                if c.method == "len" && self.strs.contains(&c.receiver.to_token_stream().to_string()) {
                    let r = &c.receiver;
                    *e = parse_quote!(#r.as_bytes().len());
                    self.note("len of a str written as len of its bytes");
                }
            }
            Expr::Assign(a) => {
                if let Expr::Tuple(t) = &*a.left {
                    let n = self.tmp;
                    self.tmp += 1;
                    let names: Vec<Ident> = (0..t.elems.len()).map(|i| Ident::new(&format!("t{n}_{i}"), Span::call_site())).collect();
                    let left: Vec<&Expr> = t.elems.iter().collect();
                    let right = &a.right;
                    let mut stmts: Vec<Stmt> = vec![parse_quote!(let (#(#names),*) = #right;)];
                    for (l, n) in left.iter().zip(&names) {
                        if !matches!(l, Expr::Infer(_)) {
                            stmts.push(parse_quote!(#l = #n;));
                        }
                    }
                    *e = parse_quote!({ #(#stmts)* });
                    self.note("destructuring assignment written with temporaries");
                }
            }
            Expr::Binary(b) => {
                if let (Expr::Tuple(l), Expr::Tuple(r)) = (&*b.left, &*b.right) {
                    if l.elems.len() == 2 && r.elems.len() == 2 {
                        let strict: Option<BinOp> = match b.op {
                            BinOp::Gt(_) | BinOp::Ge(_) => Some(parse_quote!(>)),
                            BinOp::Lt(_) | BinOp::Le(_) => Some(parse_quote!(<)),
                            _ => None,
                        };
                        if let Some(s) = strict {
                            let (a, c, x, y, op) = (&l.elems[0], &l.elems[1], &r.elems[0], &r.elems[1], &b.op);
                            *e = parse_quote!((#a #s #x || (#a == #x && #c #op #y)));
                            self.note("comparison of pairs written out");
                        }
                    }
                } else {
                    let plain: Option<BinOp> = match b.op {
                        BinOp::BitAndAssign(_) => Some(parse_quote!(&)),
                        BinOp::BitOrAssign(_) => Some(parse_quote!(|)),
                        BinOp::BitXorAssign(_) => Some(parse_quote!(^)),
                        _ => None,
                    };
                    if let Some(op) = plain {
                        let (l, r) = (&b.left, &b.right);
                        *e = if is_bool(l, &self.bools) {
                            match b.op {
                                BinOp::BitAndAssign(_) => parse_quote!({ let b1__ = #r; #l = #l && b1__ }),
                                BinOp::BitOrAssign(_) => parse_quote!({ let b1__ = #r; #l = #l || b1__ }),
                                _ => parse_quote!({ let b1__ = #r; #l = #l != b1__ }),
                            }
                        } else {
                            parse_quote!(#l = #l #op (#r))
                        };
                        self.note("bitwise assignment operators written out");
                    } else if is_bool(&b.left, &self.bools) || is_bool(&b.right, &self.bools) {
                        let (l, r) = (&b.left, &b.right);
                        let new: Option<Expr> = match b.op {
                            BinOp::BitAnd(_) => Some(parse_quote!({ let b0__ = #l; let b1__ = #r; b0__ && b1__ })),
                            BinOp::BitOr(_) => Some(parse_quote!({ let b0__ = #l; let b1__ = #r; b0__ || b1__ })),
                            _ => None,
                        };
                        if let Some(new) = new {
                            *e = new;
                            self.note("& and | of truth values written with && and || on evaluated operands");
                        }
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// Replaces references to literals in a pattern by names that a guard compares.
struct Literals {
    names: Vec<(Ident, Expr)>,
}

impl VisitMut for Literals {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if let Pat::Lit(l) = &*r.pat {
                let id = Ident::new(&format!("r{}__", self.names.len()), Span::call_site());
                self.names.push((id.clone(), Expr::Lit(l.clone())));
                *p = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: id, subpat: None });
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
}

/// Puts anchors, calls of macros named `__a_*`, at structural positions.
struct Anchors {
    loops: usize,
    returns: usize,
    breaks: usize,
    names: HashMap<String, usize>,
    list: Vec<String>,
}

impl Anchors {
    fn mark(&mut self, name: &str) -> Stmt {
        self.list.push(name.into());
        let id = Ident::new(&format!("__a_{name}"), Span::call_site());
        parse_quote!(#id!();)
    }
}

fn pat_names(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Ident(i) => out.push(i.ident.to_string()),
        Pat::Type(t) => pat_names(&t.pat, out),
        Pat::Tuple(t) => t.elems.iter().for_each(|x| pat_names(x, out)),
        _ => {}
    }
}

fn base_name(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|x| x.to_string()),
        Expr::Index(i) => base_name(&i.expr),
        Expr::Field(f) => base_name(&f.base),
        Expr::Unary(u) => base_name(&u.expr),
        Expr::Paren(p) => base_name(&p.expr),
        _ => None,
    }
}

fn assigned(s: &Stmt) -> Vec<String> {
    let mut out = vec![];
    match s {
        Stmt::Local(l) => pat_names(&l.pat, &mut out),
        Stmt::Expr(Expr::Assign(a), _) => out.extend(base_name(&a.left)),
        Stmt::Expr(Expr::Binary(b), _) => {
            if b.op.to_token_stream().to_string().ends_with('=') && !matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)) {
                out.extend(base_name(&b.left));
            }
        }
        _ => {}
    }
    out
}

impl VisitMut for Anchors {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let is_loop = matches!(&s, Stmt::Expr(Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_), _));
            if is_loop {
                let k = self.loops;
                let m = self.mark(&format!("lb_{k}"));
                out.push(m);
                visit_mut::visit_stmt_mut(self, &mut s);
                out.push(s);
                let m = self.mark(&format!("la_{k}"));
                out.push(m);
            } else {
                visit_mut::visit_stmt_mut(self, &mut s);
                let names = assigned(&s);
                out.push(s);
                for n in names {
                    let k = self.names.entry(n.clone()).or_insert(0);
                    let label = format!("as_{n}_{k}");
                    *k += 1;
                    let m = self.mark(&label);
                    out.push(m);
                }
            }
        }
        // A block whose value is a loop or unit keeps its type: anchors have type ().
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let k = self.loops;
        if matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)) {
            self.loops += 1;
        }
        visit_mut::visit_expr_mut(self, e);
        let body = match e {
            Expr::While(w) => Some(&mut w.body),
            Expr::Loop(w) => Some(&mut w.body),
            Expr::ForLoop(w) => Some(&mut w.body),
            _ => None,
        };
        if let Some(b) = body {
            let mut out = vec![self.mark(&format!("inv_{k}")), self.mark(&format!("ls_{k}"))];
            for s in std::mem::take(&mut b.stmts) {
                match s {
                    Stmt::Expr(x, None) => out.push(Stmt::Expr(x, Some(Default::default()))),
                    s => out.push(s),
                }
            }
            let m = self.mark(&format!("le_{k}"));
            out.push(m);
            b.stmts = out;
        }
        match e {
            Expr::Return(_) => {
                let m = self.mark(&format!("rb_{}", self.returns));
                self.returns += 1;
                *e = parse_quote!({ #m #e });
            }
            Expr::Break(_) => {
                let m = self.mark(&format!("bb_{}", self.breaks));
                self.breaks += 1;
                *e = parse_quote!({ #m #e });
            }
            _ => {}
        }
    }
}

struct Calls(Vec<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.push(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        self.0.push(format!(".{}", c.method));
        visit::visit_expr_method_call(self, c);
    }
}

fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32),
            c => r.push(c),
        }
    }
    r + "\""
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| json(x)).collect::<Vec<_>>().join(","))
}

fn emit_fn(path: &str, sig: &Signature, block: &Block) {
    let mut sig = sig.clone();
    let mut block = block.clone();
    let mut bools = Bools(vec![]);
    bools.visit_signature(&sig);
    bools.visit_block(&block);
    let strs = sig.inputs.iter().filter_map(|a| match a {
        FnArg::Typed(PatType { pat, ty, .. }) if ty.to_token_stream().to_string() == "& str" => Some(pat.to_token_stream().to_string()),
        _ => None,
    });
    let mut rw = Rewrite { notes: vec![], tmp: 0, bools: bools.0, strs: strs.collect() };
    rw.visit_signature_mut(&mut sig);
    rw.visit_block_mut(&mut block);
    let mut calls = Calls(vec![]);
    calls.visit_block(&block);
    calls.0.sort();
    calls.0.dedup();
    let mut an = Anchors { loops: 0, returns: 0, breaks: 0, names: HashMap::new(), list: vec![] };
    visit_mut::visit_block_mut(&mut an, &mut Block { brace_token: block.brace_token, stmts: vec![] });
    an.visit_block_mut(&mut block);
    let start = an.mark("fs");
    let mut stmts = vec![start];
    let mut tail = None;
    for s in std::mem::take(&mut block.stmts) {
        if let Some(t) = tail.take() {
            stmts.push(t);
        }
        match s {
            Stmt::Expr(_, None) => tail = Some(s),
            // Anchors of the tail expression itself.
            s => stmts.push(s),
        }
    }
    let unit = matches!(sig.output, ReturnType::Default);
    if let (Some(Stmt::Expr(x, None)), false) = (&tail, unit) {
        let b = an.mark("fb");
        let f = an.mark("fe");
        stmts.push(b);
        stmts.push(parse_quote!(let ret__ = #x;));
        stmts.push(f);
        block.stmts = stmts;
        block.stmts.push(Stmt::Expr(parse_quote!(ret__), None));
    } else {
        if let Some(Stmt::Expr(x, None)) = tail {
            stmts.push(Stmt::Expr(x, Some(Default::default())));
        }
        let f = an.mark("fe");
        stmts.push(f);
        block.stmts = stmts;
    }
    let generics = &sig.generics;
    let inputs = &sig.inputs;
    let output = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => t.to_token_stream().to_string(),
    };
    println!(
        "{{\"kind\":\"fn\",\"path\":{},\"name\":{},\"generics\":{},\"inputs\":{},\"output\":{},\"body\":{},\"loops\":{},\"notes\":{},\"anchors\":{},\"calls\":{}}}",
        json(path),
        json(&sig.ident.to_string()),
        json(&quote!(#generics).to_string()),
        json(&inputs.to_token_stream().to_string()),
        json(&output),
        json(&block.to_token_stream().to_string()),
        an.loops,
        list(&rw.notes),
        list(&an.list),
        list(&calls.0),
    );
}

fn emit_item(path: &str, tokens: TokenStream, kind: &str) {
    println!("{{\"kind\":{},\"path\":{},\"body\":{}}}", json(kind), json(path), json(&tokens.to_string()));
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => String::new(),
    }
}

fn walk(items: &[Item], module: &str, want: &[String]) {
    for item in items {
        let full = |n: &str| if module.is_empty() { n.to_string() } else { format!("{module}::{n}") };
        match item {
            Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    walk(items, &full(&m.ident.to_string()), want);
                }
            }
            Item::Fn(f) => {
                let p = full(&f.sig.ident.to_string());
                if want.contains(&p) {
                    emit_fn(&p, &f.sig, &f.block);
                }
            }
            Item::Struct(s) => {
                let p = full(&s.ident.to_string());
                if want.contains(&p) {
                    let mut s = s.clone();
                    s.attrs.clear();
                    emit_item(&p, s.to_token_stream(), "item");
                }
            }
            Item::Enum(s) => {
                let p = full(&s.ident.to_string());
                if want.contains(&p) {
                    let mut s = s.clone();
                    s.attrs.clear();
                    s.variants.iter_mut().for_each(|v| v.attrs.clear());
                    emit_item(&p, s.to_token_stream(), "item");
                }
            }
            Item::Type(s) => {
                let p = full(&s.ident.to_string());
                if want.contains(&p) {
                    let mut s = s.clone();
                    s.attrs.clear();
                    emit_item(&p, s.to_token_stream(), "item");
                }
            }
            Item::Const(s) => {
                let p = full(&s.ident.to_string());
                if want.contains(&p) {
                    let mut s = s.clone();
                    s.attrs.clear();
                    emit_item(&p, s.to_token_stream(), "item");
                }
            }
            Item::Impl(i) => {
                let t = type_name(&i.self_ty);
                let tr = i.trait_.as_ref().map(|x| x.1.segments.last().unwrap().ident.to_string());
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        let p = match &tr {
                            None => format!("<{t}>::{}", f.sig.ident),
                            Some(tr) => format!("<{t} as {tr}>::{}", f.sig.ident),
                        };
                        if want.contains(&p) {
                            emit_fn(&p, &f.sig, &f.block);
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).expect("cannot read the expanded source");
    let file = parse_file(&text).expect("cannot parse the expanded source");
    walk(&file.items, "", &a[2..]);
}
