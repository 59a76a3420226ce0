// vxextract: reads the macro-expanded source of the crate (produced by rustc itself) and prints,
// as JSON, every struct, trait, impl and function of it, with the function bodies rewritten by the
// fixed list of rules below and carrying named placeholders (`__vx_*!();`) where specifications can
// be spliced in.  It never consults the specifications, except for the list of functions that want
// an exit hook (argument 2).
//
// Rules (each preserves what the code does; DESIGN.md lists them):
//  R1 panicking calls (begin_panic, core::panicking::*)      -> vx_panic()
//  R2 e[i] (read) -> explicit bounds test that panics, then e[i];  e[i] = v likewise
//  R3 for p in a..b { body }  -> counting while loop
//  R4 vec![x; n] / vec![a, b] expansions -> vx_from_elem / vx_from_array
//  R5 io::Error::new(..) -> vx_io_error()
//  R6 let f = |..| {..} capturing mutable state and only called as a statement -> inlined at calls
//  R3b for x in <reference to a Vec> { body } -> index loop over it
//  R15 let &(ref a, ref b) = e -> let (a, b) = e
//  R16 x & y, x | y on operands that are visibly bool -> vx_and(x, y), vx_or(x, y)
//  R20 a trait default inherited by an impl whose block type is concrete: | & << >> as calls of generic functions
//  R18 `if true` (cfg!(debug_assertions) expanded)  -> `if vx_debug_build()`, an unconstrained constant
//  R7 attributes, docs, macro_rules definitions, visibility dropped
use proc_macro2::TokenStream;
use quote::{quote, ToTokens, format_ident};
use std::collections::{HashMap, HashSet, BTreeSet};
use std::fmt::Write;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"'); o
}
fn arr(v: &[String]) -> String { format!("[{}]", v.join(",")) }
fn strs<'a, I: IntoIterator<Item = &'a String>>(v: I) -> String { arr(&v.into_iter().map(|s| esc(s)).collect::<Vec<_>>()) }

// ---- token printing with line breaks, so that verifier messages have useful lines
fn print_tokens(ts: TokenStream) -> String { let mut o = String::new(); pt(ts, &mut o, 0, false); o }
fn pt(ts: TokenStream, o: &mut String, depth: usize, inparen: bool) {
    use proc_macro2::{Delimiter::*, Spacing, TokenTree::*};
    for t in ts {
        match t {
            Group(g) => {
                let (a, b) = match g.delimiter() { Parenthesis => ("(", ")"), Brace => ("{", "}"), Bracket => ("[", "]"), None => ("", "") };
                let brace = g.delimiter() == Brace;
                o.push_str(a);
                if brace { nl(o, depth + 1); }
                pt(g.stream(), o, depth + 1, !brace);
                if brace { nl(o, depth); }
                o.push_str(b);
                if brace { nl(o, depth); } else { o.push(' '); }
            }
            Punct(p) => {
                o.push(p.as_char());
                if p.spacing() == Spacing::Alone { o.push(' '); }
                if p.as_char() == ';' && !inparen { nl(o, depth); }
            }
            Ident(i) => { o.push_str(&i.to_string()); o.push(' '); }
            Literal(l) => { o.push_str(&l.to_string()); o.push(' '); }
        }
    }
}
fn nl(o: &mut String, depth: usize) { while o.ends_with(' ') { o.pop(); } o.push('\n'); for _ in 0..depth { o.push_str("  "); } }
fn toks<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }

fn last_seg(p: &Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }
fn path_has(p: &Path, name: &str) -> bool { p.segments.iter().any(|s| s.ident == name) }

fn is_panic_call(e: &Expr) -> bool {
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            let l = last_seg(&p.path);
            return l == "begin_panic" || path_has(&p.path, "panicking") || l == "begin_panic_fmt" || l == "panic_fmt"
                || l == "unreachable_unchecked";
        }
    }
    false
}
fn is_simple_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_simple_place(&f.base),
        Expr::Paren(p) => is_simple_place(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_simple_place(&u.expr),
        _ => false,
    }
}

#[derive(Default)]
struct Rw { ops: bool, loops: usize, loop_kinds: Vec<String>, closures: usize, uniq: usize, calls: BTreeSet<String>, counts: HashMap<String, usize>, notes: BTreeSet<String> }

fn hook(name: &str) -> Stmt { let id = format_ident!("{}", name); parse_quote!(#id!();) }

struct Calls(Vec<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        syn::visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func { self.0.push(last_seg(&p.path)); }
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) { syn::visit::visit_expr_method_call(self, c); self.0.push(c.method.to_string()); }
    // only the calls of the innermost statement: do not go into nested blocks
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

impl Rw {
    fn rw_block_with(&mut self, b: &mut Block) {
        // visit statements, then add before/after call hooks
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        let mut out = vec![];
        for (k, mut s) in stmts.into_iter().enumerate() {
            let mut c = Calls(vec![]);
            c.visit_stmt(&s);
            let mut names = vec![];
            for nm in c.0 {
                let e = self.counts.entry(nm.clone()).or_insert(0);
                names.push(format!("{}_{}", nm, *e)); *e += 1;
                self.calls.insert(nm);
            }
            let looped = match &s { Stmt::Expr(Expr::ForLoop(_), _) | Stmt::Expr(Expr::While(_), _) | Stmt::Expr(Expr::Loop(_), _) => Some(self.loops), _ => None };
            self.visit_stmt_mut(&mut s);
            if let Some(id) = looped { out.push(hook(&format!("__vx_pre_{}", id))); }
            for nm in &names { out.push(hook(&format!("__vx_before_{}", nm))); }
            let tail = k + 1 == n && matches!(&s, Stmt::Expr(_, None));
            let is_flow = matches!(&s, Stmt::Expr(Expr::Return(_), _));
            if let Stmt::Expr(e, None) = &s { if !tail { let e = e.clone(); s = Stmt::Expr(e, None); } }
            out.push(s);
            if !tail && !is_flow { for nm in &names { out.push(hook(&format!("__vx_after_{}", nm))); } }
        }
        b.stmts = out;
    }
}

impl VisitMut for Rw {
    fn visit_block_mut(&mut self, b: &mut Block) { self.rw_block_with(b); }
    fn visit_local_mut(&mut self, l: &mut Local) {
        // --- R15
        let mut rep = None;
        if let Pat::Reference(r) = &l.pat {
            if let Pat::Tuple(t) = &*r.pat {
                if r.mutability.is_none() && t.elems.iter().all(|p| matches!(p, Pat::Ident(i) if i.by_ref.is_some() && i.mutability.is_none() && i.subpat.is_none())) {
                    let mut t = t.clone();
                    for p in t.elems.iter_mut() { if let Pat::Ident(i) = p { i.by_ref = None; } }
                    rep = Some(Pat::Tuple(t));
                }
            }
        }
        if let Some(p) = rep { l.pat = p; self.notes.insert("R15".into()); }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // --- R1
        if is_panic_call(e) { *e = parse_quote!(vx_panic()); self.notes.insert("R1".into()); return; }
        // --- R18: what cfg!(debug_assertions) expands to; verified for both values
        if let Expr::If(i) = e { if let Expr::Lit(l) = &*i.cond { if let Lit::Bool(b) = &l.lit { if b.value { i.cond = Box::new(parse_quote!(vx_debug_build())); self.notes.insert("R18".into()); } } } }
        match e {
            Expr::ForLoop(f) => {
                let id = self.loops; self.loops += 1;
                let range = match &*f.expr { Expr::Range(r) => Some(r.clone()), Expr::Paren(p) => match &*p.expr { Expr::Range(r) => Some(r.clone()), _ => None }, _ => None };
                if let Some(r) = range {
                    if let (Some(mut a), Some(mut z), RangeLimits::HalfOpen(_)) = (r.start, r.end, r.limits) {
                        self.loop_kinds.push("for".into());
                        self.notes.insert("R3".into());
                        self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut z);
                        let mut body = f.body.clone();
                        self.visit_block_mut(&mut body);
                        let (vi, ve) = (format_ident!("vx_i{}", id), format_ident!("vx_e{}", id));
                        let (hb, he) = (format_ident!("__vx_loop_{}", id), format_ident!("__vx_loopend_{}", id));
                        let pat = &f.pat; let lab = &f.label;
                        let bind: TokenStream = match &*f.pat { Pat::Wild(_) => quote!(), p => { let _ = p; quote!(let #pat = #vi;) } };
                        let stmts = &body.stmts;
                        // make a trailing expression a statement
                        let stm: TokenStream = { let mut t = TokenStream::new(); for (k, s) in stmts.iter().enumerate() { s.to_tokens(&mut t); if k + 1 == stmts.len() { if let Stmt::Expr(_, None) = s { t.extend(quote!(;)); } } } t };
                        *e = Expr::Verbatim(quote!({ let mut #vi = #a; let #ve = #z; #lab while #vi < #ve { #hb!(); #bind #vi = #vi + 1; #stm #he!(); } }));
                        return;
                    }
                }
                let refd = match &*f.expr { Expr::Reference(r) => is_simple_place(&r.expr), x => is_simple_place(x) };
                if refd {
                    self.loop_kinds.push("for".into());
                    self.notes.insert("R3b".into());
                    let mut body = f.body.clone();
                    self.visit_block_mut(&mut body);
                    let (vi, vs) = (format_ident!("vx_i{}", id), format_ident!("vx_s{}", id));
                    let (hb, he) = (format_ident!("__vx_loop_{}", id), format_ident!("__vx_loopend_{}", id));
                    let pat = &f.pat; let lab = &f.label; let ex = &f.expr; let stmts = &body.stmts;
                    let stm: TokenStream = { let mut t = TokenStream::new(); for (k, s) in stmts.iter().enumerate() { s.to_tokens(&mut t); if k + 1 == stmts.len() { if let Stmt::Expr(_, None) = s { t.extend(quote!(;)); } } } t };
                    *e = Expr::Verbatim(quote!({ let #vs = #ex; let mut #vi : usize = 0; #lab while #vi < #vs.len() { #hb!(); let #pat = &#vs[#vi]; #vi = #vi + 1; #stm #he!(); } }));
                    return;
                }
                self.loop_kinds.push("foriter".into());
                let (hb, he) = (hook(&format!("__vx_loop_{}", id)), hook(&format!("__vx_loopend_{}", id)));
                self.visit_expr_mut(&mut f.expr);
                self.visit_block_mut(&mut f.body);
                end_stmt(&mut f.body);
                f.body.stmts.insert(0, hb); f.body.stmts.push(he);
                return;
            }
            Expr::While(w) => {
                let id = self.loops; self.loops += 1; self.loop_kinds.push("while".into());
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                end_stmt(&mut w.body);
                w.body.stmts.insert(0, hook(&format!("__vx_loop_{}", id)));
                w.body.stmts.push(hook(&format!("__vx_loopend_{}", id)));
                return;
            }
            Expr::Loop(w) => {
                let id = self.loops; self.loops += 1; self.loop_kinds.push("loop".into());
                self.visit_block_mut(&mut w.body);
                end_stmt(&mut w.body);
                w.body.stmts.insert(0, hook(&format!("__vx_loop_{}", id)));
                w.body.stmts.push(hook(&format!("__vx_loopend_{}", id)));
                return;
            }
            Expr::Closure(c) => {
                let id = self.closures; self.closures += 1;
                self.visit_expr_mut(&mut c.body);
                let h = format_ident!("__VXCLO_{}__", id);
                let ins = &c.inputs; let body = &c.body; let mv = &c.capture;
                *e = Expr::Verbatim(quote!(#h (#mv | #ins |) { #body }));
                return;
            }
            Expr::Binary(b) if self.ops && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && matches!(&*b.left, Expr::Binary(l) if matches!(l.op, BinOp::BitAnd(_) | BinOp::BitOr(_))) => {
                self.visit_expr_mut(&mut b.left); self.visit_expr_mut(&mut b.right);
                let (l, r) = (&b.left, &b.right);
                let f = if matches!(b.op, BinOp::Eq(_)) { format_ident!("vx_eq") } else { format_ident!("vx_ne") };
                *e = Expr::Verbatim(quote!(#f(#l, #r)));
                return;
            }
            Expr::Binary(b) if self.ops && matches!(b.op, BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::Shl(_) | BinOp::Shr(_)) && !(is_bool(&b.left) && is_bool(&b.right)) => {
                self.visit_expr_mut(&mut b.left); self.visit_expr_mut(&mut b.right);
                let (l, r) = (&b.left, &b.right);
                let f = match b.op { BinOp::BitAnd(_) => format_ident!("vx_bitand"), BinOp::BitOr(_) => format_ident!("vx_bitor"), BinOp::Shl(_) => format_ident!("vx_shl"), _ => format_ident!("vx_shr") };
                *e = Expr::Verbatim(quote!(#f(#l, #r)));
                return;
            }
            Expr::Binary(b) if matches!(b.op, BinOp::BitAnd(_) | BinOp::BitOr(_)) && is_bool(&b.left) && is_bool(&b.right) => {
                let and = matches!(b.op, BinOp::BitAnd(_));
                self.visit_expr_mut(&mut b.left); self.visit_expr_mut(&mut b.right);
                let (l, r) = (&b.left, &b.right);
                self.notes.insert("R16".into());
                *e = if and { Expr::Verbatim(quote!(vx_and(#l, #r))) } else { Expr::Verbatim(quote!(vx_or(#l, #r))) };
                return;
            }
            Expr::Assign(a) => {
                if let Expr::Index(ix) = &*a.left {
                    if is_simple_place(&ix.expr) {
                        self.notes.insert("R2".into());
                        let (base, mut idx, mut v) = ((*ix.expr).clone(), (*ix.index).clone(), (*a.right).clone());
                        self.visit_expr_mut(&mut v); self.visit_expr_mut(&mut idx);
                        let k = self.uniq; self.uniq += 1;
                        let (iv, vv) = (format_ident!("vx_ix{}", k), format_ident!("vx_v{}", k));
                        *e = Expr::Verbatim(quote!({ let #vv = #v; let #iv : usize = #idx; if !(#iv < #base.len()) { vx_panic() } #base[#iv] = #vv; }));
                        return;
                    }
                }
            }
            Expr::MethodCall(m) => {
                // --- R11: Option combinators as matches (Result's, after a reading or writing call)
                let nm = m.method.to_string();
                if (nm == "map" || nm == "and_then") && m.args.len() == 1 {
                    let mut rep = None;
                    let io = matches!(&*m.receiver, Expr::MethodCall(r) if { let n = r.method.to_string(); ["read_", "write_", "decode", "encode"].iter().any(|p| n.starts_with(p)) });
                    let some = if io { quote!(Ok) } else { quote!(Some) };
                    let none = if io { quote!(Err(vx_e) => Err(vx_e)) } else { quote!(None => None) };
                    match &m.args[0] {
                        Expr::Closure(c) if c.inputs.len() == 1 && !has_flow(&c.body) => {
                            let mut pat = c.inputs[0].clone();
                            if let Pat::Type(t) = &pat { pat = (*t.pat).clone(); }
                            let mut body = (*c.body).clone();
                            visit_place(self, &mut m.receiver);
                            self.visit_expr_mut(&mut body);
                            let r = &m.receiver;
                            rep = Some(if nm == "map" { quote!(match #r { #some(#pat) => #some(#body), #none }) } else { quote!(match #r { #some(#pat) => #body, #none }) });
                        }
                        Expr::Path(p) => {
                            visit_place(self, &mut m.receiver);
                            let k = self.uniq; self.uniq += 1; let v = format_ident!("vx_o{}", k);
                            let r = &m.receiver;
                            rep = Some(if nm == "map" { quote!(match #r { #some(#v) => #some(#p(#v)), #none }) } else { quote!(match #r { #some(#v) => #p(#v), #none }) });
                        }
                        _ => {}
                    }
                    if let Some(t) = rep { self.notes.insert("R11".into()); *e = Expr::Verbatim(quote!((#t))); return; }
                }
                if (nm == "expect" && m.args.len() == 1) || (nm == "unwrap" && m.args.is_empty()) {
                    visit_place(self, &mut m.receiver);
                    let k = self.uniq; self.uniq += 1; let v = format_ident!("vx_o{}", k);
                    let r = &m.receiver;
                    self.notes.insert("R11".into());
                    *e = Expr::Verbatim(quote!((match #r { Some(#v) => #v, None => vx_panic() }))); return;
                }
                // receivers and their field prefixes are places: do not copy them out of an indexing
                visit_place(self, &mut m.receiver);
                for a in m.args.iter_mut() { self.visit_expr_mut(a); }
                return;
            }
            Expr::Field(f) => { visit_place(self, &mut f.base); return; }
            Expr::Reference(r) => { visit_place(self, &mut r.expr); return; }
            Expr::Index(ix) => {
                if is_simple_place(&ix.expr) && !matches!(&*ix.index, Expr::Range(_)) {
                    self.notes.insert("R2".into());
                    let (base, mut idx) = ((*ix.expr).clone(), (*ix.index).clone());
                    self.visit_expr_mut(&mut idx);
                    let k = self.uniq; self.uniq += 1;
                    let iv = format_ident!("vx_ix{}", k);
                    *e = Expr::Verbatim(quote!({ let #iv : usize = #idx; if !(#iv < #base.len()) { vx_panic() } #base[#iv] }));
                    return;
                }
            }
            Expr::Call(c) => {
                let nargs = c.args.len();
                if let Expr::Path(p) = &mut *c.func {
                    let l = last_seg(&p.path);
                    let n = p.path.segments.len();
                    if (l == "min" || l == "max") && nargs == 2 && (n == 1 || p.path.segments[n - 2].ident == "cmp") {
                        self.notes.insert("R24".into());
                        p.path = if l == "min" { parse_quote!(core::cmp::Ord::min) } else { parse_quote!(core::cmp::Ord::max) };
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    let l = last_seg(&p.path);
                    if l == "from_elem" { self.notes.insert("R4".into()); let args = rw_args(self, c); *e = Expr::Verbatim(quote!(vx_from_elem(#args))); return; }
                    if l == "box_assume_init_into_vec_unsafe" {
                        // innermost array literal
                        struct A(Option<ExprArray>);
                        impl<'a> Visit<'a> for A { fn visit_expr_array(&mut self, a: &'a ExprArray) { self.0 = Some(a.clone()); } }
                        let mut a = A(None); a.visit_expr_call(c);
                        if let Some(mut a) = a.0 { for x in a.elems.iter_mut() { self.visit_expr_mut(x); } self.notes.insert("R4".into()); *e = Expr::Verbatim(quote!(vx_from_array(#a))); return; }
                    }
                    if l == "new" && p.path.segments.len() >= 2 && p.path.segments[p.path.segments.len() - 2].ident == "Error" {
                        self.notes.insert("R5".into());
                        *e = parse_quote!(vx_io_error()); return;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
thread_local! { static BOOLS: std::cell::RefCell<(HashSet<String>, HashSet<String>)> = Default::default(); }
/// every function name of the crate, sorted by whether it returns bool
struct Sigs;
impl<'a> Visit<'a> for Sigs {
    fn visit_signature(&mut self, s: &'a Signature) {
        let b = match &s.output { ReturnType::Type(_, t) => toks(t) == "bool", _ => false };
        BOOLS.with(|x| { let mut x = x.borrow_mut(); if b { x.0.insert(s.ident.to_string()); } else { x.1.insert(s.ident.to_string()); } });
    }
}
fn is_bool(e: &Expr) -> bool {
    let named = |n: &str| BOOLS.with(|x| { let x = x.borrow(); x.0.contains(n) && !x.1.contains(n) });
    match e {
        Expr::Paren(p) => is_bool(&p.expr),
        Expr::Group(p) => is_bool(&p.expr),
        Expr::Lit(l) => matches!(l.lit, Lit::Bool(_)),
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && is_bool(&u.expr),
        Expr::MethodCall(m) => named(&m.method.to_string()),
        Expr::Call(c) => match &*c.func { Expr::Path(p) => named(&last_seg(&p.path)), _ => false },
        Expr::Binary(b) => match b.op {
            BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => true,
            BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) => is_bool(&b.left) && is_bool(&b.right),
            _ => false,
        },
        _ => false,
    }
}
fn has_flow(e: &Expr) -> bool {
    struct F(bool);
    impl<'a> Visit<'a> for F {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
    }
    let mut f = F(false); f.visit_expr(e); f.0
}
fn rw_args(r: &mut Rw, c: &ExprCall) -> TokenStream {
    let mut c = c.clone();
    for a in c.args.iter_mut() { r.visit_expr_mut(a); }
    let a = &c.args; quote!(#a)
}
fn visit_place(r: &mut Rw, e: &mut Expr) {
    match e {
        Expr::Field(f) => visit_place(r, &mut f.base),
        Expr::Index(ix) => { r.visit_expr_mut(&mut ix.index); visit_place(r, &mut ix.expr); }
        Expr::Path(_) => {}
        Expr::Paren(p) => visit_place(r, &mut p.expr),
        _ => r.visit_expr_mut(e),
    }
}
fn end_stmt(b: &mut Block) {
    if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
}

// ---- cleanup: drop attributes, `{ { x } ; } ;` stays as is
struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
}

// ---- R6: inline local closures that are called only in statement position
fn inline_closures(b: &mut Block, notes: &mut BTreeSet<String>) {
    let mut k = 0;
    while k < b.stmts.len() {
        let mut found = None;
        if let Stmt::Local(l) = &b.stmts[k] {
            if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                if pi.mutability.is_some() {
                    if let Expr::Closure(c) = &*init.expr { found = Some((pi.ident.clone(), c.clone())); }
                }
            }
        }
        if let Some((name, c)) = found {
            notes.insert("R6".into());
            b.stmts.remove(k);
            let mut inl = Inline { name, c };
            for s in b.stmts[k..].iter_mut() { inl.visit_stmt_mut(s); }
            continue;
        }
        k += 1;
    }
    struct Deep<'a>(&'a mut BTreeSet<String>);
    impl<'a> VisitMut for Deep<'a> { fn visit_block_mut(&mut self, b: &mut Block) { inline_closures(b, self.0); } }
    for s in b.stmts.iter_mut() { Deep(notes).visit_stmt_mut(s); }
}
struct Inline { name: Ident, c: ExprClosure }
impl VisitMut for Inline {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(call) = e {
            if let Expr::Path(p) = &*call.func {
                if p.path.is_ident(&self.name) && call.args.len() == self.c.inputs.len() {
                    let mut body = (*self.c.body).clone();
                    let mut lets = TokenStream::new();
                    for (pat, a) in self.c.inputs.iter().zip(call.args.iter()) {
                        let (pid, ty) = match pat { Pat::Type(t) => (match &*t.pat { Pat::Ident(i) => Some(i.ident.clone()), _ => None }, Some(t.ty.clone())), Pat::Ident(i) => (Some(i.ident.clone()), None), _ => (None, None) };
                        match (pid, a) {
                            (Some(id), Expr::Reference(r)) if is_simple_place(&r.expr) => { Subst { id, to: (*r.expr).clone() }.visit_expr_mut(&mut body); }
                            (Some(id), a) => { match ty { Some(ty) => lets.extend(quote!(let #id : #ty = #a;)), None => lets.extend(quote!(let #id = #a;)) } }
                            (None, a) => lets.extend(quote!(let #pat = #a;)),
                        }
                    }
                    *e = parse_quote!({ #lets #body });
                }
            }
        }
    }
}
struct Subst { id: Ident, to: Expr }
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e { if let (UnOp::Deref(_), Expr::Path(p)) = (&u.op, &*u.expr) { if p.path.is_ident(&self.id) { *e = self.to.clone(); return; } } }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Locals(Vec<String>);
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); syn::visit::visit_pat_ident(self, p); }
}

fn fn_json(key: &str, sig: &Signature, body: Option<&Block>, exits: &HashSet<String>, indefault: bool) -> String {
    let mut sig = sig.clone();
    Strip.visit_signature_mut(&mut sig);
    let mut params = vec![];
    let mut ploc = Locals(vec![]);
    for i in &sig.inputs { ploc.visit_fn_arg(i); params.push(esc(&toks(i))); }
    let ret = match &sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => toks(t) };
    let mut o = format!("{{\"key\":{},\"name\":{},\"generics\":{},\"where\":{},\"inputs\":{},\"ret\":{},\"params\":{}",
        esc(key), esc(&sig.ident.to_string()), esc(&toks(&sig.generics)), esc(&sig.generics.where_clause.as_ref().map(|w| toks(w)).unwrap_or_default()), arr(&params), esc(&ret), strs(&ploc.0));
    if let Some(b) = body {
        let mut b = b.clone();
        Strip.visit_block_mut(&mut b);
        let mut loc = Locals(vec![]); loc.visit_block(&b);
        let orig = toks(&b);
        let b0 = b.clone();
        let rewrite = |ops: bool| {
        let mut b = b0.clone();
        let mut r = Rw { ops, ..Rw::default() };
        inline_closures(&mut b, &mut r.notes);
        r.visit_block_mut(&mut b);
        b.stmts.insert(0, hook("__vx_entry"));
        if exits.contains(key) {
            let n = b.stmts.len();
            let tail = match b.stmts.last() { Some(Stmt::Expr(e, None)) => Some(e.clone()), _ => None };
            let unit = ret.is_empty() || ret == "()";
            match (tail, unit) {
                (Some(e), false) => { b.stmts[n - 1] = parse_quote!(let vx_ret = #e;); b.stmts.push(hook("__vx_exit")); b.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None)); }
                (Some(e), true) => { b.stmts[n - 1] = Stmt::Expr(e, Some(Default::default())); b.stmts.push(hook("__vx_exit")); }
                _ => b.stmts.push(hook("__vx_exit")),
            }
        }
        (b, r)
        };
        // R20: the body with block operators as calls of generic functions (for a default inherited at a concrete block type)
        if sig.receiver().is_some() && indefault { let _ = write!(o, ",\"gbody\":{}", esc(&print_tokens(rewrite(true).0.to_token_stream()))); }
        let (b, r) = rewrite(false);
        let _ = write!(o, ",\"body\":{},\"orig\":{},\"loops\":{},\"closures\":{},\"locals\":{},\"calls\":{},\"rules\":{}",
            esc(&print_tokens(b.to_token_stream())), esc(&orig), strs(&r.loop_kinds), r.closures, strs(&loc.0), strs(&r.calls), strs(&r.notes));
    }
    o.push('}'); o
}

fn has_attr(a: &[Attribute], n: &str) -> bool { a.iter().any(|x| last_seg(x.path()) == n) }

struct Out { mods: Vec<String> }

fn do_mod(path: &str, items: &[Item], out: &mut Out, exits: &HashSet<String>) {
    let (mut uses, mut structs, mut traits, mut impls, mut fns, mut consts, mut types, mut derived) = (vec![], vec![], vec![], vec![], vec![], vec![], vec![], vec![]);
    let pre = if path.is_empty() { String::new() } else { format!("{}::", path) };
    for it in items {
        match it {
            Item::Use(u) => { let mut u = u.clone(); if has_attr(&u.attrs, "prelude_import") || has_attr(&u.attrs, "macro_use") { continue; } u.attrs.clear(); uses.push(format!("{{\"pub\":{},\"text\":{}}}", !matches!(u.vis, Visibility::Inherited), esc(&{ let t = &u.tree; let lc = &u.leading_colon; quote!(#lc #t).to_string() }))); }
            Item::Struct(s) => {
                let mut s = s.clone(); Strip.visit_item_struct_mut(&mut s);
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); }
                structs.push(format!("{{\"name\":{},\"text\":{}}}", esc(&s.ident.to_string()), esc(&toks(&s))));
            }
            Item::Enum(s) => { let mut s = s.clone(); Strip.visit_item_enum_mut(&mut s); s.vis = parse_quote!(pub); structs.push(format!("{{\"name\":{},\"text\":{}}}", esc(&s.ident.to_string()), esc(&toks(&s)))); }
            Item::Const(c) => { let mut c = c.clone(); c.attrs.clear(); c.vis = parse_quote!(pub); consts.push(format!("{{\"name\":{},\"text\":{}}}", esc(&c.ident.to_string()), esc(&toks(&c)))); }
            Item::Static(c) => { let mut c = c.clone(); c.attrs.clear(); c.vis = parse_quote!(pub); consts.push(format!("{{\"name\":{},\"text\":{}}}", esc(&c.ident.to_string()), esc(&toks(&c)))); }
            Item::Type(t) => { let mut t = t.clone(); t.attrs.clear(); t.vis = parse_quote!(pub); types.push(format!("{{\"name\":{},\"text\":{}}}", esc(&t.ident.to_string()), esc(&toks(&t)))); }
            Item::Fn(f) => { if has_attr(&f.attrs, "test") { continue; } fns.push(fn_json(&format!("{}{}", pre, f.sig.ident), &f.sig, Some(&f.block), exits, false)); }
            Item::Trait(t) => {
                let mut ms = vec![]; let mut tys = vec![];
                for ti in &t.items {
                    match ti {
                        TraitItem::Fn(f) => { let mut d = f.default.clone(); if let Some(d) = d.as_mut() { Strip.visit_block_mut(d); } ms.push(fn_json(&format!("{}{}::{}", pre, t.ident, f.sig.ident), &f.sig, d.as_ref(), exits, true)); }
                        TraitItem::Type(ty) => { let mut ty = ty.clone(); ty.attrs.clear(); tys.push(esc(&toks(&ty))); }
                        _ => {}
                    }
                }
                let sup: Vec<String> = t.supertraits.iter().map(|s| esc(&toks(s))).collect();
                traits.push(format!("{{\"name\":{},\"generics\":{},\"supertraits\":{},\"types\":{},\"methods\":{}}}", esc(&t.ident.to_string()), esc(&toks(&t.generics)), arr(&sup), arr(&tys), arr(&ms)));
            }
            Item::Impl(i) => {
                let selfty = toks(&i.self_ty);
                let tr = i.trait_.as_ref().map(|(_, p, _)| toks(p)).unwrap_or_default();
                let auto = has_attr(&i.attrs, "automatically_derived");
                if auto { derived.push(format!("{{\"self\":{},\"trait\":{},\"text\":{}}}", esc(&selfty), esc(&tr), esc(&toks(i)))); if !(tr.ends_with(":: PartialEq") || tr.ends_with(":: Hash") || tr.ends_with(":: Clone")) { continue; } }
                let mut ms = vec![]; let mut tys = vec![];
                let trn = i.trait_.as_ref().map(|(_, p, _)| last_seg(p)).unwrap_or_default();
                for ii in &i.items {
                    match ii {
                        ImplItem::Fn(f) => {
                            let key = if tr.is_empty() { format!("{}{}::{}", pre, selfty.split(" <").next().unwrap_or(""), f.sig.ident) } else { format!("{}<{} as {}>::{}", pre, selfty, trn, f.sig.ident) };
                            ms.push(fn_json(&key.replace(" ", ""), &f.sig, Some(&f.block), exits, false));
                        }
                        ImplItem::Type(ty) => { let mut ty = ty.clone(); ty.attrs.clear(); tys.push(esc(&toks(&ty))); }
                        _ => {}
                    }
                }
                let mut g = i.generics.clone(); Strip.visit_generics_mut(&mut g);
                impls.push(format!("{{\"self\":{},\"trait\":{},\"traitname\":{},\"generics\":{},\"where\":{},\"types\":{},\"methods\":{},\"derived\":{}}}", esc(&selfty), esc(&tr), esc(&trn), esc(&toks(&g)), esc(&g.where_clause.as_ref().map(|w| toks(w)).unwrap_or_default()), arr(&tys), arr(&ms), auto));
            }
            Item::Mod(m) => { if let Some((_, its)) = &m.content { do_mod(&format!("{}{}", pre, m.ident), its, out, exits); } }
            _ => {}
        }
    }
    out.mods.push(format!("{{\"path\":{},\"uses\":{},\"structs\":{},\"traits\":{},\"impls\":{},\"fns\":{},\"consts\":{},\"types\":{},\"derived\":{}}}", esc(path), arr(&uses), arr(&structs), arr(&traits), arr(&impls), arr(&fns), arr(&consts), arr(&types), arr(&derived)));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).expect("read");
    let exits: HashSet<String> = a.get(2).map(|p| std::fs::read_to_string(p).unwrap_or_default().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()).unwrap_or_default();
    let f = parse_file(&src).expect("parse");
    Sigs.visit_file(&f);
    let mut out = Out { mods: vec![] };
    do_mod("", &f.items, &mut out, &exits);
    println!("{}", arr(&out.mods));
}
