//! Structured elimination of early exits (`return`, `?`, `break 'label v`)
//! so that a block can be used as an expression.
use super::*;
use syn::visit::{self, Visit};

#[derive(Clone)]
pub enum Exit {
    Return { option: bool },
    Label(String),
}

struct HasExit<'a>(&'a Exit, bool);
impl<'a, 'b> Visit<'b> for HasExit<'a> {
    fn visit_expr(&mut self, e: &'b Expr) {
        match (e, self.0) {
            (Expr::Return(_), Exit::Return { .. }) | (Expr::Try(_), Exit::Return { .. }) => self.1 = true,
            (Expr::Break(b), Exit::Label(l)) if b.label.as_ref().map(|x| x.ident.to_string()).as_deref() == Some(l) => {
                self.1 = true
            }
            (Expr::Closure(_) | Expr::Async(_), Exit::Return { .. }) => {}
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_item(&mut self, _: &'b Item) {}
}
pub fn has_exit_e(e: &Expr, k: &Exit) -> bool {
    let mut h = HasExit(k, false);
    h.visit_expr(e);
    h.1
}
fn has_exit_s(s: &Stmt, k: &Exit) -> bool {
    let mut h = HasExit(k, false);
    h.visit_stmt(s);
    h.1
}
pub fn has_exit_b(b: &Block, k: &Exit) -> bool {
    b.stmts.iter().any(|s| has_exit_s(s, k))
}

fn is_exit(e: &Expr, k: &Exit) -> Option<Expr> {
    match (e, k) {
        (Expr::Return(r), Exit::Return { .. }) => {
            Some(r.expr.as_deref().cloned().unwrap_or_else(|| parse_quote!(())))
        }
        (Expr::Break(b), Exit::Label(l)) if b.label.as_ref().map(|x| x.ident.to_string()).as_deref() == Some(l) => {
            Some(b.expr.as_deref().cloned().unwrap_or_else(|| parse_quote!(())))
        }
        _ => None,
    }
}

/// does the statement list always leave by an exit or another divergence?
pub fn diverges(stmts: &[Stmt], k: &Exit) -> bool {
    stmts.iter().any(|s| match s {
        Stmt::Expr(e, _) => div_e(e, k),
        Stmt::Local(l) => l.init.as_ref().map(|i| div_e(&i.expr, k)).unwrap_or(false),
        _ => false,
    })
}
fn div_e(e: &Expr, k: &Exit) -> bool {
    match e {
        Expr::Return(_) | Expr::Continue(_) | Expr::Break(_) => true,
        Expr::Block(b) => b.label.is_none() && diverges(&b.block.stmts, k),
        Expr::If(i) => {
            diverges(&i.then_branch.stmts, k) && i.else_branch.as_ref().map(|x| div_e(&x.1, k)).unwrap_or(false)
        }
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| div_e(&a.body, k)),
        _ => false,
    }
}

fn stmts_of(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}

/// `a` used as a statement, then `rest`
fn seq(mut a: Vec<Stmt>, rest: &[Stmt], k: &Exit) -> Vec<Stmt> {
    if diverges(&a, k) {
        return a;
    }
    if let Some(Stmt::Expr(e, semi @ None)) = a.last_mut() {
        let _ = e;
        if !rest.is_empty() {
            *semi = Some(Default::default());
        }
    }
    a.extend(rest.iter().cloned());
    a
}

fn bl(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}

pub fn value_block(b: &Block, k: &Exit) -> Option<Block> {
    Some(bl(go(&b.stmts, k)?))
}

fn go(stmts: &[Stmt], k: &Exit) -> Option<Vec<Stmt>> {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in stmts.iter().enumerate() {
        if !has_exit_s(s, k) {
            out.push(s.clone());
            continue;
        }
        let rest = &stmts[i + 1..];
        if let (Exit::Return { .. }, Some((x, s2))) = (k, hoist_stmt(s, k)) {
            let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let id = Ident::new(&format!("vx_h{n}"), proc_macro2::Span::call_site());
            let mut s2 = s2;
            Fill(&id).visit_stmt_mut(&mut s2);
            let mut all: Vec<Stmt> = vec![parse_quote!(let #id = #x;), s2];
            all.extend(rest.iter().cloned());
            out.extend(go(&all, k)?);
            return Some(out);
        }
        let push_tail = |mut out: Vec<Stmt>, e: Expr| {
            out.push(Stmt::Expr(e, None));
            Some(out)
        };
        match s {
            Stmt::Expr(e, _) => {
                let e = strip(e);
                if let Some(v) = is_exit(&e, k) {
                    if has_exit_e(&v, k) {
                        // `return match .. { .. => x?, .. }`
                        let t = go(&[Stmt::Expr(v, None)], k)?;
                        out.extend(t);
                        return Some(out);
                    }
                    return push_tail(out, v);
                }
                match &e {
                    Expr::If(f) => {
                        if has_exit_e(&f.cond, k) {
                            return None;
                        }
                        let mut f = f.clone();
                        f.then_branch = bl(go(&seq(f.then_branch.stmts.clone(), rest, k), k)?);
                        let els = f.else_branch.as_ref().map(|x| stmts_of(&x.1)).unwrap_or_default();
                        let els = bl(go(&seq(els, rest, k), k)?);
                        f.else_branch = Some((Default::default(), Box::new(parse_quote!(#els))));
                        return push_tail(out, Expr::If(f));
                    }
                    Expr::Match(m) => {
                        if has_exit_e(&m.expr, k) {
                            return None;
                        }
                        let mut m = m.clone();
                        for a in &mut m.arms {
                            let b = bl(go(&seq(stmts_of(&a.body), rest, k), k)?);
                            a.body = Box::new(parse_quote!(#b));
                            a.comma = Some(Default::default());
                        }
                        return push_tail(out, Expr::Match(m));
                    }
                    Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                        let (ret, l) = leave_loop(&e, k);
                        out.push(parse_quote!(let mut #ret = None;));
                        out.push(Stmt::Expr(l, Some(Default::default())));
                        let ends = matches!(&e, Expr::Loop(l) if !has_break(&l.body));
                        let none: Block = if ends { parse_quote!({ vx_panic() }) } else { bl(go(rest, k)?) };
                        return push_tail(out, parse_quote!(match #ret { Some(vx_v) => vx_v, None => #none }));
                    }
                    Expr::Block(b) if b.label.is_none() => {
                        let t = go(&seq(b.block.stmts.clone(), rest, k), k)?;
                        out.extend(t);
                        return Some(out);
                    }
                    Expr::Try(t) => {
                        let inner = &t.expr;
                        if has_exit_e(inner, k) {
                            return None;
                        }
                        let Exit::Return { option } = k else { return None };
                        // value of the block (tail) or a statement
                        let body = if rest.is_empty() {
                            bl(vec![Stmt::Expr(parse_quote!(vx_v), None)])
                        } else {
                            bl(go(rest, k)?)
                        };
                        return push_tail(out, try_match(inner, parse_quote!(vx_v), body, *option));
                    }
                    _ => return None,
                }
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let pat = &l.pat;
                if let Some((_, els)) = &init.diverge {
                    if has_exit_e(&init.expr, k) {
                        return None;
                    }
                    let e = &init.expr;
                    let r = bl(go(rest, k)?);
                    let d = bl(go(&stmts_of(els), k)?);
                    return push_tail(out, parse_quote!(match #e { #pat => #r, _ => #d }));
                }
                let e = strip(&init.expr);
                match &e {
                    Expr::Try(t) => {
                        if has_exit_e(&t.expr, k) {
                            return None;
                        }
                        let Exit::Return { option } = k else { return None };
                        let r: Vec<Stmt> = go(rest, k)?;
                        let body = bl([vec![parse_quote!(let #pat = vx_v;)], r].concat());
                        return push_tail(out, try_match(&t.expr, parse_quote!(vx_v), body, *option));
                    }
                    Expr::Match(m) => {
                        if has_exit_e(&m.expr, k) {
                            return None;
                        }
                        let mut m = m.clone();
                        for a in &mut m.arms {
                            let b = bind(pat, &a.body, rest, k)?;
                            a.body = Box::new(parse_quote!(#b));
                            a.comma = Some(Default::default());
                        }
                        return push_tail(out, Expr::Match(m));
                    }
                    Expr::If(f) => {
                        if has_exit_e(&f.cond, k) || f.else_branch.is_none() {
                            return None;
                        }
                        let mut f = f.clone();
                        let tb = f.then_branch.clone();
                        f.then_branch = bind(pat, &parse_quote!(#tb), rest, k)?;
                        let eb = bind(pat, &f.else_branch.as_ref().unwrap().1, rest, k)?;
                        f.else_branch = Some((Default::default(), Box::new(parse_quote!(#eb))));
                        return push_tail(out, Expr::If(f));
                    }
                    _ => return None,
                }
            }
            _ => return None,
        }
    }
    Some(out)
}

fn bind(pat: &Pat, e: &Expr, rest: &[Stmt], k: &Exit) -> Option<Block> {
    let st = stmts_of(e);
    if diverges(&st, k) {
        return Some(bl(go(&st, k)?));
    }
    if has_exit_e(e, k) {
        // the value comes last: bind it there, and go on with the rest in its scope
        let mut st = st;
        let Some(Stmt::Expr(tail, None)) = st.pop() else { return None };
        let mut bound: Vec<String> = vec![];
        for s in &st {
            if let Stmt::Local(l) = s {
                let mut b = Names(vec![]);
                b.visit_pat(&l.pat);
                bound.extend(b.0);
            }
        }
        let mut used = Names(vec![]);
        for s in rest {
            used.visit_stmt(s);
        }
        if bound.iter().any(|b| used.0.contains(b)) {
            return None;
        }
        st.push(parse_quote!(let #pat = #tail;));
        st.extend(rest.iter().cloned());
        return Some(bl(go(&st, k)?));
    }
    let r = go(rest, k)?;
    Some(bl([vec![parse_quote!(let #pat = #e;)], r].concat()))
}

/// how many loops were left by an exit in the function at hand
pub static LOOPS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// the exits inside a loop set a variable and break; the variable is looked at behind the loop
fn leave_loop(e: &Expr, k: &Exit) -> (Ident, Expr) {
    let n = LOOPS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let ret = Ident::new(&format!("vx_ret{n}"), proc_macro2::Span::call_site());
    let mut e = e.clone();
    let slot = match &mut e {
        Expr::Loop(x) => &mut x.label,
        Expr::While(x) => &mut x.label,
        Expr::ForLoop(x) => &mut x.label,
        _ => unreachable!(),
    };
    let own = syn::Lifetime::new(&format!("'vx_l{n}"), proc_macro2::Span::call_site());
    let label = slot.as_ref().map(|l| l.name.clone()).unwrap_or_else(|| own.clone());
    let mut l = Leave { k, ret: &ret, label, depth: 0, used: false };
    // in the condition of a loop a break needs the label
    match &mut e {
        Expr::Loop(x) => l.visit_block_mut(&mut x.body),
        Expr::While(x) => {
            // a condition turned into a loop and a match has it in its body
            if !matches!(&*x.cond, Expr::Let(_)) {
                l.depth = 1;
            }
            l.visit_expr_mut(&mut x.cond);
            l.depth = 0;
            l.visit_block_mut(&mut x.body)
        }
        Expr::ForLoop(x) => l.visit_block_mut(&mut x.body),
        _ => {}
    }
    if l.used {
        let l = l.label;
        let slot = match &mut e {
            Expr::Loop(x) => &mut x.label,
            Expr::While(x) => &mut x.label,
            Expr::ForLoop(x) => &mut x.label,
            _ => unreachable!(),
        };
        *slot = Some(parse_quote!(#l:));
    }
    (ret, e)
}
struct Leave<'a> {
    k: &'a Exit,
    ret: &'a Ident,
    label: syn::Lifetime,
    depth: usize,
    used: bool,
}
use syn::visit_mut::VisitMut;
impl VisitMut for Leave<'_> {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_async_mut(&mut self, _: &mut ExprAsync) {}
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let inner = matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_));
        self.depth += inner as usize;
        syn::visit_mut::visit_expr_mut(self, e);
        self.depth -= inner as usize;
        let ret = self.ret;
        let brk: Expr = if self.depth > 0 {
            let l = &self.label;
            parse_quote!(break #l)
        } else {
            parse_quote!(break)
        };
        let used = self.depth > 0;
        if let Some(v) = is_exit(e, self.k) {
            *e = parse_quote!({ #ret = Some(#v); #brk });
            self.used |= used;
        } else if let (Expr::Try(t), Exit::Return { option }) = (&*e, self.k) {
            let x = &t.expr;
            *e = if *option {
                parse_quote!(match #x { Some(vx_v) => vx_v, None => { #ret = Some(None); #brk } })
            } else if EXIT_INTO.load(std::sync::atomic::Ordering::Relaxed) {
                parse_quote!(match #x { Ok(vx_v) => vx_v, Err(vx_e) => { #ret = Some(Err(vx_into(vx_e))); #brk } })
            } else {
                parse_quote!(match #x { Ok(vx_v) => vx_v, Err(vx_e) => { #ret = Some(Err(vx_e)); #brk } })
            };
            self.used |= used;
        }
    }
}
/// is the loop left by a break of its own?
fn has_break(b: &Block) -> bool {
    struct B(bool);
    impl<'b> Visit<'b> for B {
        fn visit_expr(&mut self, e: &'b Expr) {
            match e {
                Expr::Break(_) => self.0 = true,
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) | Expr::Async(_) => {}
                _ => visit::visit_expr(self, e),
            }
        }
        fn visit_item(&mut self, _: &'b Item) {}
    }
    let mut v = B(false);
    v.visit_block(b);
    v.0
}

/// every identifier
struct Names(Vec<String>);
impl<'b> Visit<'b> for Names {
    fn visit_ident(&mut self, i: &'b Ident) {
        self.0.push(i.to_string());
    }
    fn visit_macro(&mut self, m: &'b Macro) {
        self.0.extend(m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').map(str::to_owned));
    }
}

fn try_match(e: &Expr, v: Ident, body: Block, option: bool) -> Expr {
    if option {
        parse_quote!(match #e { Some(#v) => #body, None => None })
    } else {
        if EXIT_INTO.load(std::sync::atomic::Ordering::Relaxed) {
            parse_quote!(match #e { Ok(#v) => #body, Err(vx_e) => Err(vx_into(vx_e)) })
        } else {
            parse_quote!(match #e { Ok(#v) => #body, Err(vx_e) => Err(vx_e) })
        }
    }
}

fn strip(e: &Expr) -> Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e.clone(),
    }
}

/// `?` converts the error (template option `exit_into`, with a `vx_into` of its own)
pub static EXIT_INTO: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
struct Fill<'a>(&'a Ident);
impl syn::visit_mut::VisitMut for Fill<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Path(p) if p.path.is_ident("vx_hole")) {
            let id = self.0;
            *e = parse_quote!(#id);
        } else {
            syn::visit_mut::visit_expr_mut(self, e);
        }
    }
}
/// the first `x?` inside the statement that is evaluated before anything with an effect, and the statement with a hole there
fn hoist_stmt(s: &Stmt, k: &Exit) -> Option<(Expr, Stmt)> {
    let mut s = s.clone();
    let e = match &mut s {
        Stmt::Expr(e, _) => e,
        Stmt::Local(l) => &mut *l.init.as_mut()?.expr,
        _ => return None,
    };
    let x = match strip(e) {
        // its own exit is handled where it stands
        Expr::Try(t) if !has_exit_e(&t.expr, k) => return None,
        _ => hoist(e, k)?,
    };
    Some((x, s))
}
fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Reference(r) => simple(&r.expr),
        Expr::Paren(r) => simple(&r.expr),
        Expr::Unary(r) => simple(&r.expr),
        Expr::Closure(_) => true,
        _ => false,
    }
}
fn hoist(e: &mut Expr, k: &Exit) -> Option<Expr> {
    if !has_exit_e(e, k) {
        return None;
    }
    match e {
        Expr::Try(t) => {
            if has_exit_e(&t.expr, k) {
                return hoist(&mut t.expr, k);
            }
            Some(std::mem::replace(e, parse_quote!(vx_hole)))
        }
        Expr::Paren(x) => hoist(&mut x.expr, k),
        Expr::Group(x) => hoist(&mut x.expr, k),
        Expr::Unary(x) => hoist(&mut x.expr, k),
        Expr::Reference(x) => hoist(&mut x.expr, k),
        Expr::Field(x) => hoist(&mut x.base, k),
        Expr::Cast(x) => hoist(&mut x.expr, k),
        Expr::Let(x) => hoist(&mut x.expr, k),
        Expr::Return(x) => hoist(x.expr.as_mut()?, k),
        Expr::If(x) => hoist(&mut x.cond, k),
        Expr::Match(x) => hoist(&mut x.expr, k),
        Expr::Assign(x) if simple(&x.left) => hoist(&mut x.right, k),
        Expr::Binary(x) => {
            let lazy = matches!(x.op, BinOp::And(_) | BinOp::Or(_));
            if has_exit_e(&x.left, k) {
                hoist(&mut x.left, k)
            } else if !lazy && simple(&x.left) {
                hoist(&mut x.right, k)
            } else {
                None
            }
        }
        Expr::MethodCall(x) => {
            if has_exit_e(&x.receiver, k) {
                return hoist(&mut x.receiver, k);
            }
            if !simple(&x.receiver) {
                return None;
            }
            first(x.args.iter_mut(), k)
        }
        Expr::Call(x) if simple(&x.func) => first(x.args.iter_mut(), k),
        Expr::Tuple(x) => first(x.elems.iter_mut(), k),
        Expr::Array(x) => first(x.elems.iter_mut(), k),
        Expr::Struct(x) if x.rest.is_none() => first(x.fields.iter_mut().map(|f| &mut f.expr), k),
        _ => None,
    }
}
fn first<'a>(it: impl Iterator<Item = &'a mut Expr>, k: &Exit) -> Option<Expr> {
    for a in it {
        if has_exit_e(a, k) {
            return hoist(a, k);
        }
        if !simple(a) {
            return None;
        }
    }
    None
}
