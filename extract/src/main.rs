//! extract TEMPLATE OUT INDEX CRATE=EXPANDED...
//!
//! Copies functions, structs and enums out of macro-expanded crates (`rustc -Zunpretty=expanded`)
//! into a Verus file, and puts contracts on them. TEMPLATE is a Verus file with directives:
//!
//!   //@struct CRATE::path::Type          the type's definition; fields become `pub`
//!   //@enum CRATE::path::Type
//!   //@fn CRATE::path::Type::name        a function of `impl Type`, of a trait, or of a module
//!   //@fn CRATE::path::Trait@Type::name  a function of `impl Trait for Type`
//!   followed, for //@fn, by sections, closed by //@end:
//!     //@spec                  requires/ensures, put after the signature (the result is `ret`)
//!     //@loop K                invariants of the K-th loop
//!     //@before K, //@after K, //@top K, //@bottom K    ghost code around/in the K-th loop
//!     //@return K               ghost code before the K-th `return`
//!     //@entry                 ghost code at the start of the body
//!     //@tail                  ghost code before the tail expression
//!     //@closure K             header (parameters and contract) of the K-th closure
//!     //@hoist K NAME         the K-th closure, which captures nothing, becomes a variable bound at the
//!                              start of the function
//!     //@lift K NAME(PARAMS) ARGS   see below
//!     //@bind $X REGEXPISH     $X in all sections stands for the name of the variable whose
//!                              initialiser contains REGEXPISH (tokens, spaces ignored)
//!     //@loops N               the number of loops expected (default: as many as sections name)
//!     //@eqcalls               `a == b` becomes `crate::stub::v_eq(&(a), &(b))`, the PartialEq of the operands
//!     //@index                 `a[i]` becomes a call of `v_index` (`v_index_mut`), and `x.with_rust_mut(|p| b)`, which runs the closure on
//!                              the list inside and puts that back, `{ let p = x.v_rust_mut(); b }`, if b cannot leave early;
//!                              `iter`, `iter_mut`, `map`, `collect` become `v_iter` and so on, of the template's sequences
//!     //@ops                   `a += b`, `a -= b`, `a *= b` become calls of crate::stub::AddAssign and so on, as they are
//!                             for types that are not primitive; likewise `a[i]` becomes Index::index
//!     //@lazy                 the value of a lazy_static! is that of its initialiser
//!     //@panics COND           the function may panic where COND, over its state at entry, holds; without
//!                              this every panic, failed assertion and `todo!()` must be unreachable
//!     //@inner NAME            a function nested in the body, extracted by its own //@innerfn, is left out here
//!     //@into                  `x.into()`, `T::from(x)` and the bounds `Into`/`From` become those of the template's
//!                              own traits VInto/VFrom
//!   //@innerfn PATH::NAME      the function NAME nested in the body of the function PATH
//!   //@assumed PATH            (sections as for //@fn) the signature and the contract only: proved in another unit
//!   //@include FILE [assumed]  the lines of FILE, beside the template; `assumed`: its functions are //@assumed
//!   //@const CRATE::path::Trait@Type::NAME TYPE ENSURES
//!                              the initialiser of a constant, as the body of a function with that contract
//!
//! What is changed on the way, and nothing else, is listed in DESIGN.md ("Extraction").
//! Anything the tool cannot do this way is reported on stderr as `LOST: ...` (exit 3).

use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

type Res<T> = std::result::Result<T, String>;

fn main() {
    // deeply nested expanded code
    let t = std::thread::Builder::new().stack_size(1 << 28).spawn(passes).unwrap();
    if let Err(e) = t.join().unwrap() {
        eprintln!("LOST: {}", e);
        std::process::exit(3);
    }
}

fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

// ---- finding items ----

fn items_of<'a>(file: &'a File, path: &[&str]) -> Option<&'a Vec<Item>> {
    let mut items = &file.items;
    for p in path {
        items = items.iter().find_map(|i| match i {
            Item::Mod(m) if m.ident == p => m.content.as_ref().map(|c| &c.1),
            _ => None,
        })?;
    }
    Some(items)
}
/// Without lifetimes and parentheses.
fn plain<T: ToTokens>(t: &T) -> String {
    let s = toks(t);
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while it.peek().map_or(false, |c| c.is_alphanumeric() || *c == '_') {
                it.next();
            }
            while it.peek() == Some(&' ') {
                it.next();
            }
            if it.peek() == Some(&',') {
                it.next();
            }
        } else if c != '(' && c != ')' {
            out.push(c);
        }
    }
    let out = out.replace("& mut ", "&mut@").replace("dyn ", "dyn@");
    short(&squash(&out)).replace("<>", "").replace("&mut@", "&mut ").replace("dyn@", "dyn ")
}
fn last_ident(t: &Type) -> String {
    match t {
        Type::Paren(p) => last_ident(&p.elem),
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", last_ident(&r.elem)),
        _ => squash(&toks(t)),
    }
}
fn is_impl(im: &ItemImpl, tr: Option<&str>, ty: &str) -> bool {
    if plain(&*im.self_ty) != ty.trim() && (ty.contains(['<', '&', '[']) || last_ident(&im.self_ty) != ty.trim()) {
        return false;
    }
    match (im.trait_.as_ref().map(|t| t.1.segments.last().unwrap()), tr) {
        (None, None) => true,
        (Some(s), Some(t)) => s.ident == t || plain(s) == t.replace(['(', ')'], ""),
        _ => false,
    }
}
/// The initialiser of an associated constant.
fn find_const(files: &HashMap<String, File>, spec: &str) -> Res<Expr> {
    let parts = split_path(spec);
    let strs: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
    let n = strs.len();
    let items = files.get(strs[0]).and_then(|f| items_of(f, &strs[1..n - 2])).ok_or_else(|| format!("no module of {}", spec))?;
    let (tr, ty) = match strs[n - 2].split_once('@') {
        Some((a, b)) => (Some(a), b),
        None => (None, strs[n - 2]),
    };
    let mut hits = vec![];
    for i in items {
        if let Item::Impl(im) = i {
            if is_impl(im, tr, ty) {
                for x in &im.items {
                    if let ImplItem::Const(c) = x {
                        if c.ident == strs[n - 1] {
                            hits.push(c.expr.clone());
                        }
                    }
                }
            }
        }
    }
    if hits.len() == 1 { Ok(hits.pop().unwrap()) } else { Err(format!("{} constants are called {}", hits.len(), spec)) }
}
enum Found {
    Fn(Signature, Block),
}
/// a function nested in the body of another
fn find_inner(files: &HashMap<String, File>, spec: &str) -> Res<Found> {
    let parts = split_path(spec);
    let name = parts.last().unwrap();
    let Found::Fn(_, b) = find_fn(files, &parts[..parts.len() - 1].join("::"))?;
    b.stmts.iter().find_map(|s| match s {
        Stmt::Item(Item::Fn(f)) if f.sig.ident == name => Some(Found::Fn(f.sig.clone(), (*f.block).clone())),
        _ => None,
    }).ok_or_else(|| format!("no nested function {}", spec))
}
fn find_fn(files: &HashMap<String, File>, spec: &str) -> Res<Found> {
    let lost = || format!("no function {}", spec);
    // split on `::` outside of `<...>`
    let parts = split_path(spec);
    let file = files.get(parts[0].as_str()).ok_or_else(lost)?;
    let name = parts.last().unwrap().clone();
    let mut hits = vec![];
    let strs: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
    // free function
    if let Some(items) = items_of(file, &strs[1..strs.len() - 1]) {
        for i in items {
            if let Item::Fn(f) = i {
                if f.sig.ident == name {
                    hits.push(Found::Fn(f.sig.clone(), (*f.block).clone()));
                }
            }
        }
    }
    if let Some(items) = items_of(file, &strs[1..strs.len() - 2]) {
        let ty = &parts[parts.len() - 2];
        let (tr, ty) = match ty.split_once('@') {
            Some((a, b)) => (Some(a), b),
            None => (None, ty.as_str()),
        };
        for i in items {
            match i {
                Item::Impl(im) => {
                    if !is_impl(im, tr, ty) {
                        continue;
                    }
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            if f.sig.ident == name {
                                hits.push(Found::Fn(f.sig.clone(), f.block.clone()));
                            }
                        }
                    }
                }
                Item::Trait(t) if tr.is_none() && t.ident == ty => {
                    for ti in &t.items {
                        if let TraitItem::Fn(f) = ti {
                            if f.sig.ident == name {
                                if let Some(b) = &f.default {
                                    hits.push(Found::Fn(f.sig.clone(), b.clone()));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    match hits.len() {
        1 => Ok(hits.pop().unwrap()),
        0 => Err(lost()),
        n => Err(format!("{} functions are called {}", n, spec)),
    }
}
/// drops the leading segments of every path in `s`
fn short(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("::") {
        let head = &rest[..i];
        let keep = head.trim_end_matches(|c: char| c.is_alphanumeric() || c == '_');
        out.push_str(keep);
        rest = &rest[i + 2..];
    }
    out.push_str(rest);
    out
}
fn split_path(s: &str) -> Vec<String> {
    let (mut out, mut cur, mut depth) = (vec![], String::new(), 0);
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            '<' => depth += 1,
            '>' => depth -= 1,
            ':' if depth == 0 && b.get(i + 1) == Some(&':') => {
                out.push(std::mem::take(&mut cur));
                i += 2;
                continue;
            }
            _ => {}
        }
        cur.push(b[i]);
        i += 1;
    }
    out.push(cur);
    out
}

// ---- transformation ----

fn path_starts(p: &Path, want: &[&str]) -> bool {
    p.segments.len() >= want.len() && p.segments.iter().zip(want).all(|(s, w)| s.ident == w)
}
#[derive(Default)]
struct Tx {
    loops: usize,
    returns: usize,
    closures: usize,
    /// closures for the value of which no contract speaks: they make an error's text
    texts: std::collections::HashSet<String>,
    /// token text of an immediately applied closure -> its number
    lifted: Vec<(String, ExprClosure)>,
    lifts: Vec<Lift>,
    aliases: Vec<HashMap<String, Path>>,
    headers: HashMap<usize, String>,
    hoist: HashMap<usize, String>,
    hoisted: Vec<Stmt>,
    ghosts: Vec<String>,
    depth: usize,
    eqcalls: bool,
    ops: bool,
    index: bool,
    sugar: bool,
    panics: bool,
    into: bool,
    inner: Vec<String>,
    lost: Vec<String>,
}
#[derive(Clone, Debug)]
struct Lift {
    name: String,
    args: Vec<String>,
}

impl Tx {
    fn ghost(&mut self, text: &str) -> Stmt {
        self.ghosts.push(text.to_string());
        let n = proc_macro2::Literal::usize_unsuffixed(self.ghosts.len() - 1);
        parse_quote!(__v_ghost!(#n);)
    }
}

fn is_log_block(b: &Block) -> bool {
    let s = squash(&toks(b));
    s.starts_with("{letlvl=::log::Level::") || s.starts_with("{use::tracing::__macro_support")
}
fn drops_stmt(s: &Stmt) -> bool {
    match s {
        // `let _: AssertParamIsClone<T>;` of an expanded derive: a type bound, nothing runs
        Stmt::Local(l) if l.init.is_none() && squash(&toks(&l.pat)).contains("_:::core::clone::AssertParamIs") => true,
        // `let kind = AssertKind::Eq;` of an expanded assert_eq!
        Stmt::Local(l) => l.init.as_ref().map_or(false, |i| squash(&toks(&*i.expr)).starts_with("::core::panicking::AssertKind")),
        Stmt::Item(Item::Macro(_)) | Stmt::Item(Item::Use(_)) => true,
        _ => false,
    }
}
fn flatten_use(t: &UseTree, pre: Vec<Ident>, lead: bool, out: &mut HashMap<String, Path>) {
    match t {
        UseTree::Path(p) => {
            let mut pre = pre;
            pre.push(p.ident.clone());
            flatten_use(&p.tree, pre, lead, out)
        }
        UseTree::Name(n) => {
            let mut pre = pre;
            pre.push(n.ident.clone());
            out.insert(n.ident.to_string(), mk_path(&pre, lead));
        }
        UseTree::Rename(n) => {
            let mut pre = pre;
            pre.push(n.ident.clone());
            out.insert(n.rename.to_string(), mk_path(&pre, lead));
        }
        UseTree::Group(g) => {
            for i in &g.items {
                flatten_use(i, pre.clone(), lead, out)
            }
        }
        UseTree::Glob(_) => {}
    }
}
fn mk_path(ids: &[Ident], lead: bool) -> Path {
    if lead && ids.len() > 1 {
        parse_quote!(crate::#(#ids)::*)
    } else {
        parse_quote!(#(#ids)::*)
    }
}

/// A panic must be proved unreachable (see `//@panics`).
fn panic_call(c: &ExprCall) -> Option<Expr> {
    if let Expr::Path(p) = &*c.func {
        let p = &p.path;
        if path_starts(p, &["core", "panicking"]) || path_starts(p, &["std", "rt"]) || path_starts(p, &["core", "panic"]) {
            return Some(parse_quote!(crate::stub::v_unreachable()));
        }
        if path_starts(p, &["core", "intrinsics", "unreachable"]) {
            return Some(parse_quote!(crate::stub::v_unreachable()));
        }
        if path_starts(p, &["eyre", "private"]) {
            return Some(parse_quote!(crate::stub::v_report()));
        }
    }
    None
}

impl Tx {
    /// see `//@index`
    fn index_expr(&mut self, e: &mut Expr) -> bool {
        if let Expr::Assign(a) = e {
            if let Expr::Index(ix) = &mut *a.left {
                self.visit_expr_mut(&mut ix.expr);
                self.visit_expr_mut(&mut ix.index);
                self.visit_expr_mut(&mut a.right);
                let (l, i, r) = (&ix.expr, &ix.index, &a.right);
                *e = parse_quote!({ let __v = #r; *#l.v_index_mut(#i) = __v; });
                return true;
            }
        }
        let (m, inner) = match e {
            Expr::Reference(r) => (Some(r.mutability.is_some()), Some(&mut *r.expr)),
            _ => (None, Some(&mut *e)),
        };
        if let Some(Expr::Index(ix)) = inner {
            self.visit_expr_mut(&mut ix.expr);
            self.visit_expr_mut(&mut ix.index);
            let (l, i) = (&ix.expr, &ix.index);
            *e = match m {
                Some(true) => parse_quote!(#l.v_index_mut(#i)),
                Some(false) => parse_quote!(#l.v_index(#i)),
                None => parse_quote!((*#l.v_index(#i))),
            };
            return true;
        }
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if matches!((n.as_str(), m.args.len()), ("iter" | "iter_mut" | "collect", 0) | ("map", 1)) {
                m.method = ident(&format!("v_{}", n));
                m.turbofish = None;
                visit_mut::visit_expr_mut(self, e);
                return true;
            }
            if m.method == "with_rust_mut" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let leaves = {
                        let t = squash(&toks(&c.body));
                        t.contains('?') || t.contains("return")
                    };
                    if !leaves && c.inputs.len() == 1 {
                        let (x, p, b) = (m.receiver.clone(), c.inputs[0].clone(), c.body.clone());
                        let mut n: Expr = parse_quote!({ let #p = #x.v_rust_mut(); #b });
                        self.visit_expr_mut(&mut n);
                        *e = n;
                        return true;
                    }
                }
            }
        }
        false
    }
}

impl VisitMut for Tx {
    fn visit_block_mut(&mut self, b: &mut Block) {
        if is_log_block(b) {
            *b = parse_quote!({});
            return;
        }
        let mut al = HashMap::new();
        for s in &b.stmts {
            if let Stmt::Item(Item::Use(u)) = s {
                flatten_use(&u.tree, vec![], u.leading_colon.is_some(), &mut al);
            }
        }
        self.aliases.push(al);
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if drops_stmt(&s) {
                continue;
            }
            if let Stmt::Item(Item::Fn(f)) = &s {
                if self.inner.iter().any(|n| f.sig.ident == n) {
                    continue;
                }
            }
            if let Stmt::Item(i) = &s {
                self.lost.push(format!("an item inside a function body: {}", toks(i).chars().take(60).collect::<String>()));
                continue;
            }
            let for_loop = matches!(s, Stmt::Expr(Expr::ForLoop(_), _));
            self.visit_stmt_mut(&mut s);
            match s {
                // the loop's own variable and ghost code stay in scope after it
                Stmt::Expr(Expr::Block(b), _) if for_loop => out.extend(b.block.stmts),
                s => out.push(s),
            }
        }
        b.stmts = out;
        self.aliases.pop();
    }
    // in `<T as a::Trait>::X` the trait's path is the first segments of the whole path
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        let after = e.qself.as_ref().map(|q| e.path.segments.len() - q.position);
        visit_mut::visit_expr_path_mut(self, e);
        if let (Some(q), Some(a)) = (&mut e.qself, after) {
            q.position = e.path.segments.len() - a;
        }
    }
    fn visit_type_path_mut(&mut self, e: &mut TypePath) {
        let after = e.qself.as_ref().map(|q| e.path.segments.len() - q.position);
        visit_mut::visit_type_path_mut(self, e);
        if let (Some(q), Some(a)) = (&mut e.qself, after) {
            q.position = e.path.segments.len() - a;
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if let Some(first) = p.segments.first() {
            if p.leading_colon.is_none() {
                let name = first.ident.to_string();
                if let Some(full) = self.aliases.iter().rev().find_map(|m| m.get(&name)).cloned() {
                    if p.segments.len() == 1 && full.segments.len() == 1 {
                        return;
                    }
                    let args = first.arguments.clone();
                    let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
                    let mut np = full;
                    np.segments.last_mut().unwrap().arguments = args;
                    for r in rest {
                        np.segments.push(r);
                    }
                    *p = np;
                }
            }
            let crates = ["arena", "eyre", "itertools", "typemap", "generational_arena", "better_borrow", "crossbeam_channel", "safer_ffi", "rsharp"];
            let f = p.segments.first().unwrap().ident.to_string();
            if p.segments.len() > 1 && crates.contains(&f.as_str()) {
                p.leading_colon = None;
                p.segments.insert(0, parse_quote!(crate));
            }
            if self.into {
                for (a, b) in [("Into", "VInto"), ("From", "VFrom")] {
                    if p.segments.len() == 1 && p.segments[0].ident == a {
                        p.segments[0].ident = ident(b);
                        p.segments.insert(0, parse_quote!(crate));
                    }
                }
            }
            // std functions Verus has no contract for
            if ["std", "core"].iter().any(|c| path_starts(p, &[c, "mem", "take"])) && p.segments.len() == 3 {
                *p = parse_quote!(crate::stub::mem_take);
            }
            if ["std", "core"].iter().any(|c| path_starts(p, &[c, "default", "Default"])) {
                p.leading_colon = None;
                let rest: Vec<PathSegment> = p.segments.iter().skip(3).cloned().collect();
                let mut np: Path = parse_quote!(crate::stub::Default);
                np.segments.extend(rest);
                *p = np;
            }
            if ["std", "core"].iter().any(|c| path_starts(p, &[c, "hash", "Hash", "hash"])) && p.segments.len() == 4 {
                *p = parse_quote!(crate::stub::Hash::hash);
            }
            if ["std", "core"].iter().any(|c| path_starts(p, &[c, "hash", "Hasher"])) && p.segments.len() == 3 {
                *p = parse_quote!(crate::stub::Hasher);
            }
            if ["std", "core"].iter().any(|c| path_starts(p, &[c, "any", "TypeId"])) {
                p.leading_colon = None;
                let rest: Vec<PathSegment> = p.segments.iter().skip(3).cloned().collect();
                let mut np: Path = parse_quote!(crate::stub::TypeId);
                np.segments.extend(rest);
                *p = np;
            }
            if p.leading_colon.is_some() && path_starts(p, &["tp_client"]) {
                p.leading_colon = None;
                p.segments.insert(0, parse_quote!(crate));
            }
            if p.leading_colon.is_some() && path_starts(p, &["alloc", "vec", "Vec"]) {
                p.leading_colon = None;
                p.segments = p.segments.iter().skip(2).cloned().collect();
            }
            if squash(&toks(p)) == "::core::intrinsics::discriminant_value" {
                *p = parse_quote!(crate::stub::discriminant_value);
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if ["ok_or_else", "map_err", "wrap_err_with", "with_context"].iter().any(|n| m.method == n) {
                for a in &m.args {
                    self.texts.insert(toks(a));
                }
            }
        }
        // `vec![..]`
        if let Expr::Call(c) = e {
            if squash(&toks(&*c.func)).ends_with("::box_assume_init_into_vec_unsafe") {
                if let Some(Expr::Call(w)) = c.args.first() {
                    if squash(&toks(&*w.func)).ends_with("::write_box_via_move") && w.args.len() == 2 {
                        let mut a = w.args[1].clone();
                        self.visit_expr_mut(&mut a);
                        *e = parse_quote!(crate::stub::vec_of(#a));
                        return;
                    }
                }
            }
        }
        // panics and error reports
        if let Expr::Call(c) = e {
            if let Some(mut n) = panic_call(c) {
                if self.panics && !squash(&toks(&n)).ends_with("v_report()") {
                    n = parse_quote!(crate::stub::v_panics(Ghost(__panics)));
                }
                *e = n;
                return;
            }
            // immediately applied closure
            let mut f = &*c.func;
            while let Expr::Paren(p) = f {
                f = &p.expr;
            }
            if let Expr::Closure(cl) = f {
                let cl = cl.clone();
                let key = toks(&cl);
                let k = match self.lifted.iter().position(|l| l.0 == key) {
                    Some(k) => k,
                    None => {
                        self.lifted.push((key, cl.clone()));
                        self.lifted.len() - 1
                    }
                };
                let Some(l) = self.lifts.get(k).cloned() else {
                    self.lost.push("an immediately applied closure without a //@lift".into());
                    return;
                };
                let name = ident(&l.name);
                let mut args: Vec<Expr> = vec![];
                for a in &l.args {
                    match parse_str::<Expr>(a) {
                        Ok(a) => args.push(a),
                        Err(_) => self.lost.push(format!("bad lift argument {}", a)),
                    }
                }
                for a in &mut c.args {
                    self.visit_expr_mut(a);
                    args.push(a.clone());
                }
                *e = parse_quote!(self.#name(#(#args),*));
                return;
            }
        }
        if let Expr::Unsafe(u) = e {
            // `unsafe { unreachable() }` of a derived PartialEq
            if let [Stmt::Expr(Expr::Call(c), None)] = &u.block.stmts[..] {
                if let Some(n) = panic_call(c) {
                    *e = n;
                    return;
                }
            }
        }
        if self.eqcalls {
            if let Expr::Binary(b) = e {
                let ne = matches!(b.op, BinOp::Ne(_));
                if ne || matches!(b.op, BinOp::Eq(_)) {
                    self.visit_expr_mut(&mut b.left);
                    self.visit_expr_mut(&mut b.right);
                    let (l, r) = (&b.left, &b.right);
                    *e = if ne { parse_quote!(!crate::stub::v_eq(&(#l), &(#r))) } else { parse_quote!(crate::stub::v_eq(&(#l), &(#r))) };
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "into_iter" && m.args.is_empty() {
                self.visit_expr_mut(&mut m.receiver);
                let r = &m.receiver;
                *e = parse_quote!(crate::stub::IntoIterator::into_iter(#r));
                return;
            }
        }
        // `match x { p if g => a, _ => b }` is `match x { p => if g { a } else { b }, _ => b }`
        if self.sugar {
            if let Expr::MethodCall(m) = e {
                if m.method == "extend" && m.args.len() == 1 {
                    self.visit_expr_mut(&mut m.receiver);
                    self.visit_expr_mut(&mut m.args[0]);
                    let (r, a) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!(crate::stub::Extend::extend(&mut #r, #a));
                    return;
                }
            }
            if let Expr::Match(m) = e {
                if m.arms.len() == 2 && m.arms[0].guard.is_some() && matches!(m.arms[1].pat, Pat::Wild(_)) && m.arms[1].guard.is_none() {
                    let (_, g) = m.arms[0].guard.take().unwrap();
                    let (a, b) = (&m.arms[0].body, &m.arms[1].body);
                    let i: Expr = parse_quote!({ if #g { #a } else { #b } });
                    *m.arms[0].body = i;
                }
            }
        }
        // `&P(x, ref y) => a` is `P(x, y) => { let x = *x; a }`
        if self.sugar {
            if let Expr::Match(m) = e {
                for a in m.arms.iter_mut().filter(|a| a.guard.is_none()) {
                    let mut by_value = vec![];
                    unref(&mut a.pat, false, &mut by_value);
                    if !by_value.is_empty() {
                        let b = &a.body;
                        let i: Expr = parse_quote!({ #(let #by_value = *#by_value;)* #b });
                        *a.body = i;
                    }
                }
            }
        }
        // a range used as an iterator
        if let Expr::MethodCall(m) = e {
            if let Expr::Paren(p) = &mut *m.receiver {
                if let Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) = &*p.expr {
                    let r: Expr = parse_quote!(crate::stub::range(#a, #b));
                    *m.receiver = r;
                }
            }
        }
        if self.index && self.index_expr(e) {
            return;
        }
        if self.ops {
            if let Expr::Binary(b) = e {
                let f = match b.op {
                    BinOp::AddAssign(_) => Some(("AddAssign", "add_assign")),
                    BinOp::SubAssign(_) => Some(("SubAssign", "sub_assign")),
                    BinOp::MulAssign(_) => Some(("MulAssign", "mul_assign")),
                    _ => None,
                };
                if let Some((t, f)) = f {
                    self.visit_expr_mut(&mut b.left);
                    self.visit_expr_mut(&mut b.right);
                    let (l, r, t, f) = (&b.left, &b.right, ident(t), ident(f));
                    *e = parse_quote!(crate::stub::#t::#f(&mut #l, #r));
                    return;
                }
            }
            let (m, inner) = match e {
                Expr::Reference(r) => (r.mutability.is_some(), Some(&mut *r.expr)),
                _ => (false, None),
            };
            if let Some(Expr::Index(ix)) = inner {
                self.visit_expr_mut(&mut ix.expr);
                self.visit_expr_mut(&mut ix.index);
                let (l, r) = (&ix.expr, &ix.index);
                *e = if m { parse_quote!(crate::stub::IndexMut::index_mut(&mut #l, #r)) } else { parse_quote!(crate::stub::Index::index(&#l, #r)) };
                return;
            }
        }
        if self.into {
            if let Expr::MethodCall(m) = e {
                if m.method == "into" && m.args.is_empty() {
                    self.visit_expr_mut(&mut m.receiver);
                    let r = &m.receiver;
                    *e = parse_quote!(crate::v_into(#r));
                    return;
                }
            }
            if let Expr::Call(c) = e {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.len();
                    if n > 1 && p.qself.is_none() && p.path.segments[n - 1].ident == "from" && c.args.len() == 1 {
                        let mut ty = p.path.clone();
                        ty.segments.pop();
                        ty.segments.pop_punct();
                        self.visit_path_mut(&mut ty);
                        self.visit_expr_mut(&mut c.args[0]);
                        let a = &c.args[0];
                        *e = parse_quote!(<#ty as crate::VFrom<_>>::v_from(#a));
                        return;
                    }
                }
            }
        }
        match e {
            Expr::ForLoop(f) => {
                if f.label.is_some() {
                    self.lost.push("a labelled loop".into());
                }
                let k = self.loops;
                self.loops += 1;
                self.visit_expr_mut(&mut f.expr);
                self.depth += 1;
                self.visit_block_mut(&mut f.body);
                self.depth -= 1;
                let (pat, it, stmts) = (&f.pat, &f.expr, &f.body.stmts);
                let name = ident(&format!("__it{}", k));
                let kk = proc_macro2::Literal::usize_unsuffixed(k);
                *e = parse_quote!({
                    __v_before!(#kk);
                    let mut #name = crate::stub::IntoIterator::into_iter(#it);
                    __v_ready!(#kk);
                    loop {
                        __v_loop!(#kk);
                        __v_top!(#kk);
                        match crate::stub::Iterator::next(&mut #name) {
                            None => { break; }
                            Some(__item) => {
                                let #pat = __item;
                                __v_item!(#kk);
                                #(#stmts)*
                            }
                        }
                        __v_bottom!(#kk);
                    }
                    __v_after!(#kk);
                });
                // `{ ..stmts }` where the last statement lacks a semicolon but has type ()
                if let Expr::Block(b) = e {
                    fix_tail_in_some(&mut b.block);
                }
            }
            Expr::Return(r) => {
                let k = proc_macro2::Literal::usize_unsuffixed(self.returns);
                self.returns += 1;
                if let Some(x) = &mut r.expr {
                    self.visit_expr_mut(x);
                }
                *e = parse_quote!({ __v_return!(#k); #r });
            }
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_while_mut(self, w);
                let kk = proc_macro2::Literal::usize_unsuffixed(k);
                w.body.stmts.insert(0, parse_quote!(__v_top!(#kk);));
                w.body.stmts.insert(0, parse_quote!(__v_loop!(#kk);));
            }
            Expr::Loop(w) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_loop_mut(self, w);
                let kk = proc_macro2::Literal::usize_unsuffixed(k);
                w.body.stmts.insert(0, parse_quote!(__v_top!(#kk);));
                w.body.stmts.insert(0, parse_quote!(__v_loop!(#kk);));
            }
            Expr::Closure(c) => {
                let k = self.closures;
                self.closures += 1;
                if !self.headers.contains_key(&k) && !self.texts.contains(&toks(&*c)) {
                    self.lost.push(format!("a closure without a contract: {}", toks(&*c).chars().take(60).collect::<String>()));
                }
                visit_mut::visit_expr_mut(self, &mut c.body);
                if self.headers.contains_key(&k) {
                    let mut lets: Vec<Stmt> = vec![];
                    let mark = ident(&format!("__v_closure_{}", k));
                    let mut params = vec![quote!(#mark)];
                    for (i, p) in c.inputs.iter().enumerate() {
                        let v = ident(&format!("__c{}", i));
                        let p = match p {
                            Pat::Type(t) => &*t.pat,
                            p => p,
                        };
                        lets.push(parse_quote!(let #p = #v;));
                        params.push(quote!(#v));
                    }
                    let body = match &*c.body {
                        Expr::Block(b) => b.block.stmts.clone(),
                        x => vec![Stmt::Expr(x.clone(), None)],
                    };
                    *e = parse_quote!(|#(#params),*| { __v_nop!(); #(#lets)* #(#body)* });
                    if let Some(n) = self.hoist.get(&k) {
                        let n = ident(n);
                        self.hoisted.push(parse_quote!(let #n = #e;));
                        *e = parse_quote!(#n);
                    }
                } else if c.inputs.iter().any(|p| !matches!(p, Pat::Ident(_) | Pat::Type(_))) {
                    // patterns other than a name become a `let`
                    let mut lets: Vec<Stmt> = vec![];
                    for (i, p) in c.inputs.iter_mut().enumerate() {
                        if !matches!(p, Pat::Ident(_) | Pat::Type(_)) {
                            let v = ident(&format!("__c{}", i));
                            lets.push(parse_quote!(let #p = #v;));
                            *p = parse_quote!(#v);
                        }
                    }
                    let body = &c.body;
                    let nb: Expr = parse_quote!({ #(#lets)* #body });
                    c.body = Box::new(nb);
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}

/// Immediately applied closures in tail position: `(|p: T| body)(a)` becomes `{ let p: T = a; body }`,
/// which is the same there, `?` and `return` included.
fn inline_tail(e: &mut Expr) {
    match e {
        Expr::Block(b) => inline_tail_block(&mut b.block),
        Expr::Paren(p) => inline_tail(&mut p.expr),
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| inline_tail(&mut a.body)),
        Expr::If(i) => {
            inline_tail_block(&mut i.then_branch);
            if let Some((_, e)) = &mut i.else_branch {
                inline_tail(e)
            }
        }
        Expr::Call(c) => {
            let mut f = &*c.func;
            while let Expr::Paren(p) = f {
                f = &p.expr;
            }
            let Expr::Closure(cl) = f else { return };
            if cl.inputs.len() != c.args.len() {
                return;
            }
            let mut out: Vec<Stmt> = vec![];
            for (i, (p, a)) in cl.inputs.iter().zip(&c.args).enumerate() {
                // all arguments first: the parameters may shadow what later arguments mention
                let v = ident(&format!("__a{}", i));
                let _ = p;
                out.push(parse_quote!(let #v = #a;));
            }
            for (i, p) in cl.inputs.iter().enumerate() {
                let v = ident(&format!("__a{}", i));
                out.push(parse_quote!(let #p = #v;));
            }
            match &*cl.body {
                Expr::Block(b) => out.extend(b.block.stmts.clone()),
                x => out.push(Stmt::Expr(x.clone(), None)),
            }
            *e = parse_quote!({ #(#out)* });
            inline_tail(e);
        }
        _ => {}
    }
}
/// shared references in a pattern become default bindings; `by_value` are the names that were bound by value below one
fn unref(p: &mut Pat, below: bool, by_value: &mut Vec<Ident>) {
    match p {
        Pat::Reference(r) if r.mutability.is_none() && !below => {
            let mut q = (*r.pat).clone();
            unref(&mut q, true, by_value);
            *p = q;
        }
        Pat::Ident(i) if below && i.subpat.is_none() => {
            if i.by_ref.take().is_none() && i.ident.to_string().starts_with(|c: char| c.is_lowercase()) {
                by_value.push(i.ident.clone());
            }
        }
        Pat::Tuple(t) => t.elems.iter_mut().for_each(|q| unref(q, below, by_value)),
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|q| unref(q, below, by_value)),
        Pat::Struct(t) => t.fields.iter_mut().for_each(|f| unref(&mut f.pat, below, by_value)),
        Pat::Paren(t) => unref(&mut t.pat, below, by_value),
        _ => (),
    }
}
fn inline_tail_block(b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        inline_tail(e)
    }
}

fn fix_tail_in_some(b: &mut Block) {
    struct F;
    impl VisitMut for F {
        fn visit_arm_mut(&mut self, a: &mut Arm) {
            if squash(&toks(&a.pat)) == "Some(__item)" {
                if let Expr::Block(b) = &mut *a.body {
                    if let Some(Stmt::Expr(e, semi @ None)) = b.block.stmts.last_mut() {
                        if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::Loop(_) | Expr::While(_)) {
                            *semi = Some(Default::default());
                        }
                    }
                }
            }
        }
    }
    for s in &mut b.stmts {
        if let Stmt::Expr(Expr::Loop(l), _) = s {
            for s in &mut l.body.stmts {
                if let Stmt::Expr(Expr::Match(m), _) = s {
                    for a in &mut m.arms {
                        F.visit_arm_mut(a);
                    }
                }
            }
        }
    }
}

/// names of variables bound by `let NAME = INIT` (or `let mut`), with the tokens of INIT
fn lets(b: &Block) -> Vec<(String, String)> {
    struct L(Vec<(String, String)>);
    impl<'a> visit::Visit<'a> for L {
        fn visit_local(&mut self, l: &'a Local) {
            let mut p = &l.pat;
            let mut ty = String::new();
            if let Pat::Type(t) = p {
                ty = squash(&toks(&*t.ty));
                p = &t.pat;
            }
            if let (Pat::Ident(i), Some(init)) = (p, &l.init) {
                self.0.push((i.ident.to_string(), format!("{}={}", ty, squash(&toks(&*init.expr)))));
            }
            visit::visit_local(self, l);
        }
    }
    let mut l = L(vec![]);
    visit::Visit::visit_block(&mut l, b);
    l.0
}
use syn::visit;

// ---- rendering ----

thread_local! {
    /// What to format, and what it became.
    static FORMAT: std::cell::RefCell<HashMap<String, Option<String>>> = Default::default();
}
/// A pass over the template only notes what is to be formatted; `format_all` then runs rustfmt
/// over all of it at once (a process for every function is slow), and the next pass uses it.
fn rustfmt(src: &str) -> String {
    FORMAT.with(|f| match f.borrow_mut().entry(src.to_string()).or_default() {
        Some(t) => t.clone(),
        None => src.to_string(),
    })
}
/// Whether there was something to format.
fn format_all(dir: &str) -> Res<bool> {
    let err = |e: std::io::Error| e.to_string();
    let dir = std::path::Path::new(dir);
    FORMAT.with(|f| {
        let mut f = f.borrow_mut();
        let todo: Vec<String> = f.iter().filter(|x| x.1.is_none()).map(|x| x.0.clone()).collect();
        if todo.is_empty() {
            return Ok(false);
        }
        std::fs::create_dir_all(dir).map_err(err)?;
        let mut files = vec![];
        for (n, src) in todo.into_iter().enumerate() {
            let p = dir.join(format!("f{}.rs", n));
            std::fs::write(&p, &src).map_err(err)?;
            files.push((p, src));
        }
        // a file that does not parse stays as it is
        let running: Vec<_> = files.chunks(files.len() / 8 + 1).filter_map(|c| {
            std::process::Command::new("rustfmt").args(["--edition", "2021", "--config", "max_width=110"])
                .args(c.iter().map(|x| &x.0)).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().ok()
        }).collect();
        for mut r in running {
            let _ = r.wait();
        }
        for (p, src) in files {
            f.insert(src, Some(std::fs::read_to_string(&p).map_err(err)?));
            std::fs::remove_file(&p).map_err(err)?;
        }
        std::fs::remove_dir(dir).map_err(err)?;
        Ok(true)
    })
}
fn passes() -> Res<()> {
    loop {
        let r = run();
        if !format_all(&(std::env::args().nth(2).unwrap() + ".fmt"))? {
            return r;
        }
    }
}

struct Sections {
    spec: String,
    loops: HashMap<usize, String>,
    at: HashMap<(String, usize), String>,
    entry: String,
    tail: String,
    closures: HashMap<usize, String>,
    lifts: Vec<(String, String, Vec<String>, String)>, // name, params, args, contract
    binds: Vec<(String, String)>,
    n_loops: Option<usize>,
    args: bool,
    eqcalls: bool,
    ops: bool,
    index: bool,
    sugar: bool,
    panics: bool,
    into: bool,
    inner: Vec<String>,
    hoist: HashMap<usize, String>,
    lazy: bool,
}

fn sig_text(sig: &Signature, tx: &mut Tx) -> String {
    let mut sig = sig.clone();
    tx.visit_signature_mut(&mut sig);
    let out = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => format!(" -> (ret: {})", toks(&**t)),
    };
    let (g, w) = (&sig.generics, &sig.generics.where_clause);
    let (name, inputs) = (&sig.ident, &sig.inputs);
    let where_: TokenStream = quote!(#w);
    format!("fn {}({}){} {}", quote!(#name #g), quote!(#inputs), out, where_)
}

fn replace_marker(text: &str, marker: &str, with: &str) -> String {
    // marker followed by `;`
    let mut out = String::new();
    let mut rest = text;
    while let Some(i) = rest.find(marker) {
        out.push_str(&rest[..i]);
        out.push_str(with);
        rest = rest[i + marker.len()..].trim_start_matches(';');
    }
    out.push_str(rest);
    out
}

fn render_body(b: &Block, s: &Sections, tx: &Tx) -> Res<String> {
    let f: ItemFn = parse_quote!(fn __body() #b);
    let text = rustfmt(&toks(&f));
    let i = text.find('{').unwrap();
    let mut text = text[i..].to_string();
    // markers: rustfmt leaves `__v_x!(k);` alone
    for k in 0..tx.loops {
        for m in ["before", "ready", "top", "item", "bottom", "after"] {
            let g = s.at.get(&(m.to_string(), k)).cloned().unwrap_or_default();
            text = replace_marker(&text, &format!("__v_{}!({})", m, k), &g);
        }
        // `{ <ws> __v_loop!(k);` -> `INV {`
        let mark = format!("__v_loop!({})", k);
        if let Some(i) = text.find(&mark) {
            let open = text[..i].rfind('{').unwrap();
            let after = text[i + mark.len()..].trim_start_matches(';').to_string();
            let inv = s.loops.get(&k).cloned().unwrap_or_default();
            text = format!("{}\n{}\n{{{}", &text[..open], inv, after);
        }
    }
    for k in 0..tx.returns {
        let g = s.at.get(&("return".to_string(), k)).cloned().unwrap_or_default();
        text = replace_marker(&text, &format!("__v_return!({})", k), &g);
    }
    for (k, h) in &s.closures {
        let mark = format!("|__v_closure_{}", k);
        let Some(i) = text.find(&mark) else { return Err(format!("closure {} is gone", k)) };
        let close = i + 1 + text[i + 1..].find('|').unwrap();
        text = format!("{}{} {}", &text[..i], h, &text[close + 1..]);
    }
    text = replace_marker(&text, "__v_nop!()", "");
    for (n, g) in tx.ghosts.iter().enumerate() {
        text = replace_marker(&text, &format!("__v_ghost!({})", n), g);
    }
    Ok(text)
}

/// `lazy_static! { static ref N: .. = INIT; } .. N.as_slice()` becomes `crate::stub::lazy_slice(INIT)`
fn inline_lazy(body: &mut Block) {
    struct Init(Option<Block>);
    impl<'a> syn::visit::Visit<'a> for Init {
        fn visit_item_fn(&mut self, f: &'a ItemFn) {
            if f.sig.ident == "__static_ref_initialize" {
                self.0 = Some((*f.block).clone());
            } else {
                syn::visit::visit_item_fn(self, f);
            }
        }
    }
    let mut inits: HashMap<String, Block> = HashMap::new();
    for s in &body.stmts {
        if let Stmt::Item(Item::Impl(im)) = s {
            let mut i = Init(None);
            syn::visit::Visit::visit_item_impl(&mut i, im);
            if let Some(b) = i.0 {
                inits.insert(last_ident(&im.self_ty), b);
            }
        }
    }
    body.stmts.retain(|s| match s {
        Stmt::Item(Item::Impl(im)) => !inits.contains_key(&last_ident(&im.self_ty)),
        Stmt::Item(Item::Static(x)) => !inits.contains_key(&x.ident.to_string()),
        Stmt::Item(Item::Struct(x)) => !inits.contains_key(&x.ident.to_string()),
        // what is left of the macro's own semicolon
        Stmt::Expr(Expr::Verbatim(t), _) => !t.is_empty(),
        _ => true,
    });
    struct Use<'a>(&'a HashMap<String, Block>);
    impl VisitMut for Use<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::MethodCall(m) = e {
                if let (Expr::Path(p), true) = (&*m.receiver, m.method == "as_slice" && m.args.is_empty()) {
                    if let Some(b) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) {
                        *e = parse_quote!(crate::stub::lazy_slice(#b));
                        return;
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    Use(&inits).visit_block_mut(body);
}
fn emit_fn(found: Found, s: &Sections, path: &str) -> Res<String> {
    let Found::Fn(mut sig, mut body) = found;
    // positional names
    let ls = lets(&body);
    let mut subst: Vec<(String, String)> = vec![];
    for (x, pat) in &s.binds {
        let (x, nth) = match x.split_once('#') {
            Some((a, n)) => (a.to_string(), n.parse::<usize>().unwrap()),
            None => (x.clone(), 0),
        };
        let want = squash(pat);
        let hit: Vec<_> = ls.iter().filter(|l| l.1.contains(&want)).collect();
        if hit.len() <= nth {
            return Err(format!("{}: no variable initialised with `{}`", path, pat));
        }
        subst.push((x, hit[nth].0.clone()));
    }
    for (i, a) in sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => Some(t), _ => None }).enumerate() {
        if let Pat::Ident(p) = &*a.pat {
            subst.push((format!("$A{}", i), p.ident.to_string()));
        }
    }
    // longest names first
    subst.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
    let sub = |t: &str| subst.iter().fold(t.to_string(), |t, (x, n)| t.replace(x.as_str(), n));
    let mut tx = Tx::default();
    tx.eqcalls = s.eqcalls;
    tx.ops = s.ops;
    tx.index = s.index;
    tx.sugar = s.sugar;
    tx.panics = s.panics;
    tx.headers = s.closures.clone();
    tx.hoist = s.hoist.clone();
    tx.lifts = s.lifts.iter().map(|l| Lift { name: l.0.clone(), args: l.2.iter().map(|a| sub(a)).collect() }).collect();
    sig.abi = None;
    tx.into = s.into;
    tx.inner = s.inner.clone();
    if s.lifts.is_empty() {
        inline_tail_block(&mut body);
    }
    if s.lazy {
        inline_lazy(&mut body);
    }
    let sigt = sig_text(&sig, &mut tx);
    tx.visit_block_mut(&mut body);
    // hoisted closures capture nothing (rustc sees to that: nothing is in scope yet)
    for h in std::mem::take(&mut tx.hoisted).into_iter().rev() {
        body.stmts.insert(0, h);
    }
    if !s.entry.is_empty() {
        let g = tx.ghost(&sub(&s.entry));
        body.stmts.insert(0, g);
    }
    if !s.tail.is_empty() {
        let g = tx.ghost(&sub(&s.tail));
        let at = match body.stmts.last() {
            Some(Stmt::Expr(_, None)) => body.stmts.len() - 1,
            _ => body.stmts.len(),
        };
        body.stmts.insert(at, g);
    }
    let want = s.n_loops.unwrap_or(s.loops.len());
    if tx.loops != want {
        return Err(format!("{}: {} loops where the contract expects {}", path, tx.loops, want));
    }
    if tx.lifted.len() != s.lifts.len() {
        return Err(format!("{}: {} immediately applied closures where the contract expects {}", path, tx.lifted.len(), s.lifts.len()));
    }
    if let Some(l) = tx.lost.first() {
        return Err(format!("{}: {}", path, l));
    }
    let s2 = Sections {
        spec: sub(&s.spec),
        loops: s.loops.iter().map(|(k, v)| (*k, sub(v))).collect(),
        at: s.at.iter().map(|(k, v)| (k.clone(), sub(v))).collect(),
        entry: String::new(), tail: String::new(),
        closures: s.closures.iter().map(|(k, v)| (*k, sub(v))).collect(),
        lifts: vec![], binds: vec![], n_loops: None, args: false, eqcalls: false, ops: false, index: false, sugar: false, panics: false, into: false, inner: vec![], hoist: HashMap::new(), lazy: false,
    };
    let text = render_body(&body, &s2, &tx)?;
    let mut out = String::new();
    // lifted closures become methods, in front of the function
    for (l, (_, cl)) in s.lifts.iter().zip(tx.lifted.clone()) {
        let mut t2 = Tx::default();
        let mut blk: Block = match &*cl.body {
            Expr::Block(b) => b.block.clone(),
            x => parse_quote!({ #x }),
        };
        t2.visit_block_mut(&mut blk);
        if let Some(l) = t2.lost.first() {
            return Err(format!("{}: {}", path, l));
        }
        let p = match cl.inputs.first() {
            Some(Pat::Ident(i)) if cl.inputs.len() == 1 => i.ident.to_string(),
            Some(Pat::Type(t)) if cl.inputs.len() == 1 => squash(&toks(&*t.pat)),
            _ => return Err(format!("{}: closure parameters", path)),
        };
        let fix = |t: &str| sub(&t.replace("$P", &p));
        let b = render_body(&blk, &Sections { loops: HashMap::new(), at: HashMap::new(), spec: String::new(), entry: String::new(), tail: String::new(), closures: HashMap::new(), lifts: vec![], binds: vec![], n_loops: None, args: false, eqcalls: false, ops: false, index: false, sugar: false, panics: false, into: false, inner: vec![], hoist: HashMap::new(), lazy: false }, &t2)?;
        // after `//@liftentry`: ghost code at the start of its body
        let (c, e) = l.3.split_once("//@liftentry").unwrap_or((&l.3, ""));
        let b = b.replacen('{', &format!("{{\n{}", fix(e)), 1);
        out.push_str(&format!("pub fn {}{}\n{}\n{}\n", l.0, fix(&l.1), fix(c), b));
    }
    let vis = if s.args { "" } else { "pub " };
    out.push_str(&format!("{}{}\n{}\n{}\n", vis, sigt, s2.spec, text));
    Ok(out)
}

/// The function with its contract and without its body: its contract is then assumed.
fn emit_external(found: Found, s: &Sections) -> String {
    let Found::Fn(sig, _) = found;
    let mut sig = sig.clone();
    let mut subst: Vec<(String, String)> = vec![];
    for (i, a) in sig.inputs.iter_mut().filter_map(|a| match a { FnArg::Typed(t) => Some(t), _ => None }).enumerate() {
        if !matches!(&*a.pat, Pat::Ident(_)) {
            let n = ident(&format!("__a{}", i));
            *a.pat = parse_quote!(#n);
        }
        if let Pat::Ident(p) = &mut *a.pat {
            p.mutability = None;
            subst.push((format!("$A{}", i), p.ident.to_string()));
        }
    }
    subst.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
    let spec = subst.iter().fold(s.spec.clone(), |t, (x, n)| t.replace(x.as_str(), n));
    sig.abi = None;
    let sigt = sig_text(&sig, &mut Tx::default());
    let vis = if s.args { "" } else { "pub " };
    format!("#[verifier::external_body]\n{}{}\n{}\n{{ unimplemented!() }}\n", vis, sigt, spec)
}

fn emit_type(files: &HashMap<String, File>, spec: &str) -> Res<String> {
    let parts = split_path(spec);
    let strs: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
    let file = files.get(strs[0]).ok_or("crate")?;
    let items = items_of(file, &strs[1..strs.len() - 1]).ok_or_else(|| format!("no module of {}", spec))?;
    let name = strs[strs.len() - 1];
    let mut tx = Tx::default();
    for i in items {
        match i {
            Item::Struct(s) if s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in &mut s.fields {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                }
                tx.visit_item_struct_mut(&mut s);
                return Ok(rustfmt(&toks(&s)));
            }
            Item::Enum(s) if s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for v in &mut s.variants {
                    v.attrs.clear();
                }
                tx.visit_item_enum_mut(&mut s);
                return Ok(rustfmt(&toks(&s)));
            }
            _ => {}
        }
    }
    Err(format!("no type {}", spec))
}

fn run() -> Res<()> {
    let a: Vec<String> = std::env::args().collect();
    let template = std::fs::read_to_string(&a[1]).map_err(|e| e.to_string())?;
    let mut files = HashMap::new();
    for f in &a[4..] {
        let (n, p) = f.split_once('=').unwrap();
        let src = std::fs::read_to_string(p).map_err(|e| e.to_string())?;
        files.insert(n.to_string(), parse_file(&src).map_err(|e| format!("{}: {}", p, e))?);
    }
    let mut out = String::new();
    let mut index: Vec<String> = vec![];
    let mut lost: Vec<String> = vec![];
    // functions emitted without their bodies; and the vacuity check: `false` must be refuted everywhere
    let external: Vec<String> = std::env::var("EXTERNAL").unwrap_or_default().split(';').map(|x| x.to_string()).collect();
    let smoke = std::env::var("SMOKE").is_ok();
    // //@foreach .. //@endfor: once per primitive type, $T the type and $V its variant
    let prims = [("u8", "U8"), ("u16", "U16"), ("u32", "U32"), ("u64", "U64"), ("i8", "I8"), ("i16", "I16"),
        ("i32", "I32"), ("i64", "I64"), ("bool", "Bool"), ("f32", "F32"), ("f64", "F64"), ("String", "String"),
        ("ObjectHandle", "ObjectHandle"), ("ContractDataHandle", "ContractDataHandle")];
    let mut template = template;
    while let Some(at) = template.find("//@include ") {
        let l = template[at..].lines().next().unwrap().to_string();
        let w: Vec<&str> = l.split_whitespace().collect();
        let f = std::path::Path::new(&a[1]).with_file_name(w[1]);
        let mut t = std::fs::read_to_string(&f).map_err(|e| format!("{}: {}", f.display(), e))?;
        if w.get(2) == Some(&"assumed") {
            t = t.replace("//@fn ", "//@assumed ").replace("//@traitfn ", "//@assumed ");
        }
        template = template.replacen(&l, &t, 1);
    }
    let mut expanded = String::new();
    let mut block: Option<String> = None;
    for l in template.lines() {
        match (l.trim(), &mut block) {
            ("//@foreach", b) => *b = Some(String::new()),
            ("//@endfor", b) => {
                let t = b.take().unwrap();
                for (ty, v) in prims {
                    expanded += &t.replace("$T", ty).replace("$V", v);
                }
            }
            (_, Some(b)) => { b.push_str(l); b.push('\n') }
            (_, None) => { expanded += l; expanded.push('\n') }
        }
    }
    let template = expanded;
    let lines: Vec<&str> = template.lines().collect();
    let mut i = 0;
    let line = |out: &String| out.matches('\n').count() + 1;
    while i < lines.len() {
        let l = lines[i].trim();
        if let Some(p) = l.strip_prefix("//@struct ").or_else(|| l.strip_prefix("//@enum ")) {
            let (p, attr) = p.split_once(' ').unwrap_or((p, ""));
            match emit_type(&files, p.trim()) {
                Ok(t) => out.push_str(&format!("{}\n{}", attr, t)),
                Err(e) => lost.push(e),
            }
        } else if let Some(p) = ["//@fn ", "//@traitfn ", "//@innerfn ", "//@assumed "].iter().find_map(|d| l.strip_prefix(d)) {
            let assumed = l.starts_with("//@assumed ");
            let find = if l.starts_with("//@innerfn ") { find_inner } else { find_fn };
            let p = p.trim().to_string();
            let mut s = Sections { spec: String::new(), loops: HashMap::new(), at: HashMap::new(), entry: String::new(), tail: String::new(), closures: HashMap::new(), lifts: vec![], binds: vec![], n_loops: None, args: l.starts_with("//@traitfn") || p.contains("@") && assumed, eqcalls: false, ops: false, index: false, sugar: false, panics: false, into: false, inner: vec![], hoist: HashMap::new(), lazy: false };
            let mut cur = String::new();
            i += 1;
            while i < lines.len() && lines[i].trim() != "//@end" {
                let l = lines[i].trim();
                if let Some(d) = l.strip_prefix("//@") {
                    let w: Vec<&str> = d.split_whitespace().collect();
                    match w[0] {
                        "bind" => { s.binds.push((w[1].into(), w[2..].join(" "))); i += 1; continue }
                        "hoist" => { s.hoist.insert(w[1].parse().unwrap(), w[2].into()); i += 1; continue }
                        "into" => { s.into = true; i += 1; continue }
                        "inner" => { s.inner.push(w[1].into()); i += 1; continue }
                        "eqcalls" => { s.eqcalls = true; i += 1; continue }
                        "ops" => { s.ops = true; i += 1; continue }
                        "index" => { s.index = true; i += 1; continue }
                        "sugar" => { s.sugar = true; i += 1; continue }
                        "lazy" => { s.lazy = true; i += 1; continue }
                        "panics" => {
                            s.panics = true;
                            s.entry += &format!("let ghost __panics: bool = {};\n", w[1..].join(" "));
                            i += 1;
                            continue;
                        }
                        "loops" => { s.n_loops = Some(w[1].parse().unwrap()); i += 1; continue }
                        "lift" => {
                            // //@lift NAME ; (GENERICS)(PARAMS) -> R ; ARGS
                            let rest = d.strip_prefix("lift").unwrap();
                            let f: Vec<&str> = rest.split(';').collect();
                            let args = f[2].split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
                            s.lifts.push((f[0].trim().into(), f[1].trim().into(), args, String::new()));
                            cur = "lift".into();
                        }
                        "liftentry" => s.lifts.last_mut().unwrap().3 += "//@liftentry\n",
                        _ => cur = d.to_string(),
                    }
                } else {
                    let w: Vec<&str> = cur.split_whitespace().collect();
                    let t = format!("{}\n", lines[i]);
                    match w.first().copied() {
                        Some("spec") => s.spec += &t,
                        Some("entry") => s.entry += &t,
                        Some("tail") => s.tail += &t,
                        Some("lift") => s.lifts.last_mut().unwrap().3 += &t,
                        Some("loop") => *s.loops.entry(w[1].parse().unwrap()).or_default() += &t,
                        Some("closure") => *s.closures.entry(w[1].parse().unwrap()).or_default() += &t,
                        Some(m) => *s.at.entry((m.into(), w[1].parse().unwrap())).or_default() += &t,
                        None => {}
                    }
                }
                i += 1;
            }
            let start = line(&out);
            if assumed {
                match find(&files, &p) {
                    Ok(f) => out.push_str(&emit_external(f, &s)),
                    Err(e) => lost.push(e),
                }
                i += 1;
                continue;
            }
            if smoke {
                s.entry += "proof { assert(false); }\n";
            }
            let r = if external.iter().any(|x| *x == p) {
                Err("the verifier does not accept its body".to_string())
            } else {
                find(&files, &p).and_then(|f| emit_fn(f, &s, &p))
            };
            let why = match r {
                Ok(t) => { out.push_str(&t); String::new() }
                Err(e) => match find(&files, &p) {
                    Ok(f) => { out.push_str(&emit_external(f, &s)); e }
                    Err(_) => { lost.push(e.clone()); e }
                },
            };
            index.push(format!("{{\"fn\":\"{}\",\"from\":{},\"to\":{},\"external\":\"{}\"}}", p, start, line(&out),
                why.replace(['"', '\\', '\n'], " ")));
        } else if let Some(p) = l.strip_prefix("//@const ") {
            let w: Vec<&str> = p.splitn(3, "  ").map(|x| x.trim()).collect();
            let start = line(&out);
            let mut why = String::new();
            match find_const(&files, w[0]) {
                Ok(mut e) => {
                    Tx::default().visit_expr_mut(&mut e);
                    let s = if smoke { "proof { assert(false); }" } else { "" };
                    out.push_str(&format!("fn v_const() -> (ret: {})\n ensures {}\n{{ {} {} }}\n", w[1], w[2], s, toks(&e)));
                }
                Err(e) => { lost.push(e.clone()); why = e; }
            }
            index.push(format!("{{\"fn\":\"{}\",\"from\":{},\"to\":{},\"external\":\"{}\"}}", w[0], start, line(&out), why));
        } else {
            out.push_str(lines[i]);
            out.push('\n');
        }
        i += 1;
    }
    std::fs::write(&a[2], &out).map_err(|e| e.to_string())?;
    std::fs::write(&a[3], format!("[{}]\n", index.join(",\n"))).map_err(|e| e.to_string())?;
    if lost.is_empty() { Ok(()) } else { Err(lost.join("\nLOST: ")) }
}
