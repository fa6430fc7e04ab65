// mut REPO SKIPFILE OUTLIST FILE...: rewrites the named files of REPO so that every mutant is in the code, chosen at run time.
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

struct M<'a> {
    src: &'a [u8],
    off: Vec<usize>,               // byte offset of each line
    edits: Vec<(usize, usize, String, String)>, // start, end, before, after  (wrapping)
    ids: &'a mut u32,
    skip: &'a HashSet<u32>,
    file: String,
    out: &'a mut Vec<String>,
    cnst: u32,
    path: &'a str,
}
impl M<'_> {
    fn pos(&self, p: proc_macro2::LineColumn) -> usize {
        // columns are in chars
        let l = self.off[p.line - 1];
        let s = std::str::from_utf8(&self.src[l..]).unwrap();
        l + s.char_indices().nth(p.column).map(|x| x.0).unwrap_or(s.len())
    }
    fn rng(&self, s: proc_macro2::Span) -> (usize, usize) { (self.pos(s.start()), self.pos(s.end())) }
    fn text(&self, s: proc_macro2::Span) -> String { let (a, b) = self.rng(s); String::from_utf8(self.src[a..b].to_vec()).unwrap() }
    fn new(&mut self, s: proc_macro2::Span, what: &str) -> Option<u32> {
        if self.cnst > 0 { return None; }
        *self.ids += 1;
        let id = *self.ids;
        if self.skip.contains(&id) { return None; }
        self.out.push(format!("{}\t{}:{}\t{}", id, self.file, s.start().line, what.replace('\n', " ")));
        Some(id)
    }
    // (if gm(id) { alt } else { orig })
    fn wrap(&mut self, s: proc_macro2::Span, alt: &str) {
        let o = self.text(s);
        if let Some(id) = self.new(s, &format!("{o}  =>  {alt}")) {
            let (a, b) = self.rng(s);
            self.edits.push((a, b, format!("(if {}(GSIMID{id}) {{ {alt} }} else {{ ", self.path), " })".into()));
        }
    }
}
fn has_let(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V { fn visit_expr_let(&mut self, _: &'a ExprLet) { self.0 = true; } }
    let mut v = V(false); v.visit_expr(e); v.0
}
fn is_test(a: &[Attribute]) -> bool {
    a.iter().any(|a| { let s = quote::quote!(#a).to_string(); s.contains("cfg (test") || s.contains("# [test]") || s.contains("aarch64") })
}
impl<'a> Visit<'a> for M<'_> {
    fn visit_item_mod(&mut self, i: &'a ItemMod) { if !is_test(&i.attrs) { visit::visit_item_mod(self, i) } }
    fn visit_item_impl(&mut self, i: &'a ItemImpl) {
        if is_test(&i.attrs) { return; }
        if let Some((_, p, _)) = &i.trait_ { if p.segments.last().unwrap().ident == "Debug" { return; } }
        visit::visit_item_impl(self, i)
    }
    fn visit_item_fn(&mut self, i: &'a ItemFn) { if !is_test(&i.attrs) && i.sig.constness.is_none() { visit::visit_item_fn(self, i) } }
    fn visit_impl_item_fn(&mut self, i: &'a ImplItemFn) { if !is_test(&i.attrs) && i.sig.constness.is_none() { visit::visit_impl_item_fn(self, i) } }
    fn visit_item_const(&mut self, _: &'a ItemConst) {}
    fn visit_item_static(&mut self, _: &'a ItemStatic) {}
    fn visit_impl_item_const(&mut self, _: &'a ImplItemConst) {}
    fn visit_trait_item_const(&mut self, _: &'a TraitItemConst) {}
    fn visit_type(&mut self, _: &'a Type) {}
    fn visit_pat(&mut self, _: &'a Pat) {}
    fn visit_generic_argument(&mut self, _: &'a GenericArgument) {}
    fn visit_expr_const(&mut self, _: &'a ExprConst) {}
    fn visit_item_enum(&mut self, _: &'a ItemEnum) {}
    fn visit_attribute(&mut self, _: &'a Attribute) {}
    fn visit_expr_repeat(&mut self, i: &'a ExprRepeat) { self.visit_expr(&i.expr) }
    fn visit_expr_macro(&mut self, _: &'a ExprMacro) {}
    fn visit_stmt(&mut self, s: &'a Stmt) {
        if let Stmt::Expr(e, Some(_)) = s {
            let del = match e { Expr::Call(_) | Expr::MethodCall(_) | Expr::Assign(_) | Expr::Try(_) | Expr::Unsafe(_) => true,
                Expr::Binary(b) => matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_) | BinOp::MulAssign(_)), _ => false };
            if del {
                if let Expr::Try(t) = e {
                    let inner = self.text(t.expr.span());
                    if let Some(id) = self.new(s.span(), &format!("IGNORE {inner}?")) {
                        let (a, b) = self.rng(s.span());
                        self.edits.push((a, b, format!("if {}(GSIMID{id}) {{ let _ = {inner}; }} else {{ ", self.path), " }".into()));
                    }
                }
                let t = self.text(s.span());
                if let Some(id) = self.new(s.span(), &format!("DELETE {t}")) {
                    let (a, b) = self.rng(s.span());
                    self.edits.push((a, b, format!("if !{}(GSIMID{id}) {{ ", self.path), " }".into()));
                }
            }
        }
        visit::visit_stmt(self, s)
    }
    fn visit_expr_if(&mut self, i: &'a ExprIf) {
        if !has_let(&i.cond) {
            self.wrap(i.cond.span(), "false");
            self.wrap(i.cond.span(), "true");
        }
        visit::visit_expr_if(self, i)
    }
    fn visit_expr_binary(&mut self, i: &'a ExprBinary) {
        if !has_let(&i.left) && !has_let(&i.right) {
            use BinOp::*;
            let alts: &[&str] = match i.op {
                Lt(_) => &["<=", ">="], Le(_) => &["<", ">"], Gt(_) => &[">=", "<="], Ge(_) => &[">", "<"], Eq(_) => &["!="], Ne(_) => &["=="],
                And(_) => &["||"], Or(_) => &["&&"], Add(_) => &["-"], Sub(_) => &["+"], Mul(_) => &["+"], Div(_) => &["*"], Shl(_) => &[">>"], Shr(_) => &["<<"],
                BitAnd(_) => &["|"], BitOr(_) => &["&"], BitXor(_) => &["|"], Rem(_) => &["/"], _ => &[] };
            let (l, r) = (self.text(i.left.span()), self.text(i.right.span()));
            for a in alts { self.wrap(i.span(), &format!("{l} {a} {r}")); }
            if matches!(i.op, And(_) | Or(_)) { self.wrap(i.span(), &l); self.wrap(i.span(), &r); }
        }
        visit::visit_expr_binary(self, i)
    }
    fn visit_expr_unary(&mut self, i: &'a ExprUnary) {
        if let UnOp::Not(_) = i.op { let t = self.text(i.expr.span()); self.wrap(i.span(), &t); }
        visit::visit_expr_unary(self, i)
    }
    fn visit_expr_lit(&mut self, i: &'a ExprLit) {
        match &i.lit {
            Lit::Int(n) => { if let Ok(v) = n.base10_parse::<u64>() { if v < (1 << 40) {
                let s = n.suffix();
                self.wrap(i.span(), &format!("{}{s}", v + 1));
                if v > 0 { self.wrap(i.span(), &format!("{}{s}", v - 1)); }
            } } }
            Lit::Bool(b) => self.wrap(i.span(), if b.value { "false" } else { "true" }),
            _ => {}
        }
    }
    fn visit_expr_method_call(&mut self, i: &'a ExprMethodCall) {
        let m = i.method.to_string();
        let alt = match m.as_str() { "is_some" => "is_none", "is_none" => "is_some", "is_ok" => "is_err", "is_err" => "is_ok", "any" => "all", "all" => "any", "min" => "max", "max" => "min",
            "wrapping_add" => "wrapping_sub", "wrapping_sub" => "wrapping_add", "split_at" => "", "to_be_bytes" => "to_le_bytes", "to_le_bytes" => "to_be_bytes", "rotate_left" => "rotate_right", _ => "" };
        if !alt.is_empty() {
            let t = self.text(i.span()); let r = self.text(i.receiver.span());
            let rest = &t[r.len()..];
            let alt = format!("{r}{}", rest.replacen(&m, alt, 1));
            self.wrap(i.span(), &alt);
        }
        visit::visit_expr_method_call(self, i)
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, skipf, outf) = (&a[1], &a[2], &a[3]);
    let skip: HashSet<u32> = std::fs::read_to_string(skipf).unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect();
    let mut ids = 0; let mut out = vec![];
    for f in &a[4..] {
        let p = format!("{repo}/{f}");
        let src = std::fs::read_to_string(&p).unwrap();
        let ast = parse_file(&src).unwrap();
        let mut off = vec![0]; for (i, c) in src.bytes().enumerate() { if c == b'\n' { off.push(i + 1); } }
        let path = if f.starts_with("graviola/") { "crate::gm" } else { "graviola::gm" };
        let mut m = M { src: src.as_bytes(), off, edits: vec![], ids: &mut ids, skip: &skip, file: f.clone(), out: &mut out, cnst: 0, path };
        m.visit_file(&ast);
        // emit: nested wrappers; at one start, the widest first; at one end, the narrowest first
        let mut ev: Vec<(usize, u8, i64, usize, String)> = vec![];
        for (n, (s, e, b, c)) in m.edits.iter().enumerate() {
            let len = (e - s) as i64;
            ev.push((*s, 1, -len, n, b.clone()));
            ev.push((*e, 0, len, usize::MAX - n, c.clone()));
        }
        ev.sort();
        let mut o = String::new(); let mut at = 0;
        for (p, _, _, _, t) in ev { o += &src[at..p]; at = p; o += &t; }
        o += &src[at..];
        // ids as numbers
        let o = o.replace("GSIMID", "");
        std::fs::write(&p, o).unwrap();
    }
    std::fs::write(outf, out.join("\n") + "\n").unwrap();
    eprintln!("{} mutants", out.len());
}
