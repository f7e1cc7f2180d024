B_='laby_macros/src/build.rs'; N_='laby_macros/src/node.rs'; C_='laby_macros/src/component.rs'; M_='laby_macros/src/matching.rs'; L_='laby_macros/src/lib.rs'; H_='laby/src/helpers.rs'
def D(body): return '#![allow(warnings)]\nuse laby::*;\n' + body
# a program that has to be rejected by the compiler, next to one that has to be accepted
REJ = r'''#!/bin/bash
repo="$PWD"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT; mkdir -p "$t/src/bin"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
laby = { path = "$repo/laby" }
EOF
cat > "$t/src/bin/good.rs" <<'EOF'
%GOOD%
EOF
cat > "$t/src/bin/bad.rs" <<'EOF'
%BAD%
EOF
export CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0; cd "$t"
timeout 200 cargo build --offline -q --bin good || exit 3
if timeout 200 cargo build --offline -q --bin bad; then echo accepted; exit 1; fi
exit 0
'''
def R(good, bad): return REJ.replace('%GOOD%', 'use laby::*;\n' + good).replace('%BAD%', 'use laby::*;\n' + bad)
BUGS = [
 dict(id='C13-fourth-attr', property='C13', edits=[(B_, "            attrs.push(expr);", "            attrs.insert(attrs.len().min(2), expr);")],
      needs='an element with at least four attributes', breaks='the attributes after the third come out before it', demo=D('''
fn main() { let v = "4"; assert_eq!(render!(div!(a = "1", b = "2", c = "3", d = v)), r#"<div a="1" b="2" c="3" d="4"></div>"#); }''')),
 dict(id='C13-void-dyn-attr', property='C13', edits=[(B_, '        node.render.push_str(">");\n    }\n\n    if !element.void {', '        node.render.push_str(if element.void && node.ctor.len() > 2 { " />" } else { ">" });\n    }\n\n    if !element.void {'), (N_, "impl ToTokens for NodeCtor {", "impl NodeCtor {\n    pub fn len(&self) -> usize {\n        self.fields.len()\n    }\n}\n\nimpl ToTokens for NodeCtor {")],
      needs='a void element in a node holding at least three run-time values', breaks='the tag of the void element ends differently', demo=D('''
fn main() { let v = "4"; assert_eq!(render!(input!(a = v, b = v, c = v)), r#"<input a="4" b="4" c="4">"#); }''')),
 dict(id='C14-space-outside', property='C14', edits=[(B_, "                if #enabled {\n                    buffer.push(' ');\n", "                buffer.push(' ');\n                if #enabled {\n")],
      needs='a boolean attribute whose name and condition are both run-time values, with the condition false', breaks='a stray space is rendered', demo=D('''
fn main() { for c in [true, false] { let n = "x y"; assert_eq!(render!(div!((n) = bool!(c), id = "i")), if c { r#"<div x y id="i"></div>"# } else { r#"<div id="i"></div>"# }); } }''')),
 dict(id='C14-literal-true-name', property='C14', edits=[(B_, '''        if enabled {
            node.render.push_str(" ");

            if let Some(value) = try_unwrap_literal(&left)
                .and_then(try_render_literal)
                .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
            {
                node.render.push_str(value);''', '''        if enabled {
            if let Some(value) = try_unwrap_literal(&left)
                .and_then(try_render_literal)
                .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
            {
                node.render.push_str(" ");
                node.render.push_str(value);''')],
      needs='bool!(true) with a run-time attribute name', breaks='the space before the name is missing', demo=D('''
fn main() { let n = String::from("checked"); assert_eq!(render!(input!(id = "i", (n) = bool!(true))), r#"<input id="i" checked>"#); }''')),
 dict(id='C14-neighbour', property='C14', edits=[(B_, '''            let value = Literal::string(&format!(" {}", value));
            node.render.push_expr(quote!(
                if #enabled {
                    buffer.push_str(#value);
                }
            ));''', '''            let value = Literal::string(&format!(" {}", value));
            node.render.push_cond(quote!(#enabled), quote!(buffer.push_str(#value)));'''), (N_, "    pub fn flush(&mut self) {", '''    /// Pushes a statement which only runs when a condition holds.
    pub fn push_cond(&mut self, cond: TokenStream, value: TokenStream) {
        self.flush();

        // a run of statements under one test
        if self.stmts.len() > 13 {
            if let Some((prev, stmt)) = self.cond.take() {
                self.stmts.push(quote!(if #prev && !#cond { #stmt }));
                self.stmts.push(quote!(if #prev { #stmt; #value }));
                return;
            }
        }

        self.stmts.push(quote!(if #cond { #value }));
        self.cond = Some((cond, value));
    }

    pub fn flush(&mut self) {'''), (N_, "    stmts: Punctuated<TokenStream, Semi>,\n    buffer: String,\n}\n\nimpl NodeRender", "    stmts: Punctuated<TokenStream, Semi>,\n    buffer: String,\n    cond: Option<(TokenStream, TokenStream)>,\n}\n\nimpl NodeRender"), (N_, "            stmts: Punctuated::new(),\n            buffer: String::new(),\n", "            stmts: Punctuated::new(),\n            buffer: String::new(),\n            cond: None,\n"), (N_, "            stmts,\n            buffer,\n        } = self;", "            stmts,\n            buffer,\n            ..\n        } = self;")],
      needs='many boolean attributes on one element', breaks='a boolean attribute is rendered under the condition of its neighbour', demo=D('''
fn main() { let (t, f) = (true, false); assert_eq!(render!(div!(a = bool!(f), b = bool!(t), c = bool!(f), d = bool!(t), e = bool!(f), f = bool!(t), g = bool!(f), h = bool!(t))), "<div b d f h></div>"); }''')),
 dict(id='C15-byte', property='C15', edits=[(B_, "            Lit::Byte(ref v) => render!(v.value()),", "            Lit::Byte(ref v) => render!(v.value() as i8),")],
      needs='a byte literal of 0x80 or more', breaks='another number is rendered', demo=D('''
fn main() { let v = b'\\xff'; assert_eq!(render!(div!(b'\\xff')), render!(div!(v))); }''')),
 dict(id='C15-char', property='C15', edits=[(B_, "            Lit::Char(ref v) => render!(v.value()),", "            Lit::Char(ref v) => render!(v.value() as u8 as char),")],
      needs='a character literal of 0x100 or more', breaks='another character is rendered', demo=D('''
fn main() { let v = '\\u{4e16}'; assert_eq!(render!(div!('\\u{4e16}')), render!(div!(v))); }''')),
 dict(id='C15-attr-trim', property='C15', edits=[(B_, '''    node.render.push_str("=\\"");

    if let Some(value) = try_unwrap_literal(&right).and_then(try_render_literal) {
        node.render.push_str(value);''', '''    node.render.push_str("=\\"");

    if let Some(value) = try_unwrap_literal(&right).and_then(try_render_literal) {
        node.render.push_str(value.trim_end());''')],
      needs='an attribute value literal ending in white space', breaks='the white space is lost', demo=D('''
fn main() { let v = "a "; assert_eq!(render!(div!(id = "a ")), render!(div!(id = v))); }''')),
 dict(id='C16-outer-delimiter', property='C16', edits=[(B_, "                node.render.push_str(&element.delimiter);", "                let delimiter = node.element.delimiter.clone();\n                node.render.push_str(&delimiter);")],
      needs='a class list written directly inside another element, or a fragment directly inside a class list', breaks='the separator of the outer macro is used', demo=D('''
fn main() { let a = render!(div!(classes!("a", "b"))); let v = classes!("a", "b"); assert_eq!(a, render!(div!(v))); let w = frag!("a", "b"); assert_eq!(render!(classes!(frag!("a", "b"), "c")), render!(classes!(w, "c"))); }''')),
 dict(id='C16-empty-frag', property='C16', edits=[(B_, "                            // flatten nested markup\n", "                            // flatten nested markup\n                            if element.frag && expr.mac.tokens.is_empty() {\n                                separate = false;\n                                continue;\n                            }\n\n")],
      needs='an empty fragment written directly inside a class list', breaks='the separator after it disappears', demo=D('''
fn main() { let v = frag!(); assert_eq!(render!(classes!("a", frag!(), "b")), render!(classes!("a", v, "b"))); }''')),
 dict(id='C16-path-macro', property='C16', edits=[(B_, '''                    if let Some(ident) = expr.mac.path.get_ident() {
                        if let Some(element) = get_element(ident.to_string()) {''', '''                    if let Some(ident) = expr.mac.path.segments.last().map(|s| &s.ident) {
                        if let Some(element) = get_element(ident.to_string()) {''')],
      needs='a macro of another module with the name of an element, called by its path directly inside an element', breaks='the macro is not called', demo=D('''
mod mine { macro_rules! span_ { ($x:expr) => { laby::b!($x) } } pub(crate) use span_ as span; }
fn main() { let v = mine::span!("x"); assert_eq!(render!(div!(mine::span!("x"))), render!(div!(v))); }''')),
 dict(id='C17-bool-first', property='C17', edits=[(N_, '''        self.render.stmts.push(quote!(let #name = self.#name));
        self.ctor.fields.push(quote!(#name: #value));
        name
    }
}''', '''        self.render.stmts.push(quote!(let #name = self.#name));
        self.ctor.fields.insert(0, quote!(#name: #value));
        name
    }
}''')],
      needs='a run-time boolean attribute after another run-time attribute, both with effects', breaks='the condition is evaluated before the attributes written earlier', demo=D('''
fn main() { let l = std::cell::RefCell::new(vec![]); let n = div!(a = { l.borrow_mut().push(1); "x" }, b = bool!({ l.borrow_mut().push(2); true })); let _ = render!(n); assert_eq!(*l.borrow(), [1, 2]); }''')),
 dict(id='C17-name-twice', property='C17', edits=[(B_, '''            let value = node.store_generic(quote!(#left), quote!(::laby::Render));
            node.render.push_expr(quote!(
                if #enabled {''', '''            let value = node.store_generic(quote!(#left), quote!(::laby::Render));
            let value = match *left {
                // a call may borrow: keep its value apart
                Expr::Call(_) => node.store_generic(quote!(#left), quote!(::laby::Render)),
                _ => value,
            };
            node.render.push_expr(quote!(
                if #enabled {''')],
      needs='a boolean attribute with a run-time condition and a function call as its name', breaks='the call is made twice', demo=D('''
fn main() { let c = std::cell::Cell::new(0); let f = || { c.set(c.get() + 1); "x" }; let t = true; let n = div!(f() = bool!(t)); let _ = render!(n); assert_eq!(c.get(), 1); }''')),
 dict(id='C17-lazy-block', property='C17', edits=[(B_, '''        let value = node.store_generic(quote!(#expr), quote!(::laby::Render));
        node.render
            .push_expr(quote!(::laby::Render::render(#value, buffer)));
    }

    Ok(())
}''', '''        let value = match expr {
            // evaluate late so that nothing is computed for markup that is never rendered
            Expr::Block(ref block) if block.block.stmts.len() > 1 => {
                let value = node.store_generic(quote!(move || #expr), quote!(::laby::LazyRender));
                node.render
                    .push_expr(quote!(::laby::LazyRender::render_lazy(#value, buffer)));
                return Ok(());
            }

            _ => node.store_generic(quote!(#expr), quote!(::laby::Render)),
        };
        node.render
            .push_expr(quote!(::laby::Render::render(#value, buffer)));
    }

    Ok(())
}''', -1), (H_, "/// Wraps an [`AsRef<str>`], rendering it without escaping.\n///\n/// When rendered,", '''#[doc(hidden)]
pub trait LazyRender {
    fn render_lazy(self, buffer: &mut Buffer);
}

impl<F: FnOnce() -> R, R: Render> LazyRender for F {
    #[inline]
    fn render_lazy(self, buffer: &mut Buffer) {
        self().render(buffer)
    }
}

/// Wraps an [`AsRef<str>`], rendering it without escaping.
///
/// When rendered,''')],
      needs='a child that is a block of several statements with an effect', breaks='the child is evaluated when the element is rendered', demo=D('''
fn main() { let c = std::cell::Cell::new(0); let r = &c; let n = div!({ let k = r.get() + 1; r.set(k); k }); assert_eq!(c.get(), 1); let _ = render!(n); }''')),
 dict(id='C18-empty-literal', property='C18', edits=[(B_, "            if separate {\n", "            if separate && !matches!(try_unwrap_literal(&child).and_then(try_render_literal), Some(ref s) if s.is_empty()) {\n")],
      needs='an empty literal in a class list', breaks='the space before it is missing', demo=D('''
fn main() { let v = ""; assert_eq!(render!(classes!("a", "", "b")), "a  b"); assert_eq!(render!(classes!("a", v, "b")), "a  b"); }''')),
 dict(id='C18-nested-classes', property='C18', edits=[(L_, '''    if tag == "classes" {
        return Some(Element::frag_with_delimiter(' '));
    }''', '''    if tag == "classes" {
        return Some(Element::frag());
    }''')],
      needs='a class list written directly inside another macro', breaks='its children are not separated', demo=D('''
fn main() { assert_eq!(render!(classes!(classes!("a", "b"), "c")), "a b c"); assert_eq!(render!(div!(classes!("a", "b"))), "<div>a b</div>"); }''')),
 dict(id='C18-frag-gap', property='C18', edits=[(B_, '''            match child {
                Expr::Macro(ref expr) => {''', '''            if element.frag && element.delimiter.is_empty() && node.decl.len() == 8 {
                node.render.push_str(" ");
            }

            match child {
                Expr::Macro(ref expr) => {'''), (N_, "impl ToTokens for NodeDecl {", "impl NodeDecl {\n    pub fn len(&self) -> usize {\n        self.fields.len()\n    }\n}\n\nimpl ToTokens for NodeDecl {")],
      needs='a fragment with more than eight run-time children', breaks='a space appears in between', demo=D('''
fn main() { let v = "a"; assert_eq!(render!(frag!(v, v, v, v, v, v, v, v, v, v)), "aaaaaaaaaa"); }''')),
 dict(id='C19-underscore', property='C19', edits=[(C_, "                let key = ident.to_string();", "                let key = ident.to_string().trim_start_matches('_').to_string();"),
      (C_, "                    Some(name) => match params.get_mut(&name.to_string()) {", "                    Some(name) => match params.get_mut(name.to_string().trim_start_matches('_')) {"),
      (C_, "params.remove(&name.to_string()).unwrap();", "params.remove(name.to_string().trim_start_matches('_')).unwrap();")],
      needs='two parameters whose names differ by a leading underscore', breaks='the component cannot be called', demo=D('''
#[laby] fn c(a: u8, _a: u8) -> impl Render { div!(id = a, _a) }
fn main() { assert_eq!(render!(c!(_a = 2, a = 1)), r#"<div id="1">2</div>"#); }''')),
 dict(id='C19-variables-first', property='C19', edits=[(C_, '''    Ok(quote!(#func(#(#func_args),*)))''', '''    // arguments that are plain variables are moved first
    if func_args.len() > 4 {
        let (mut vars, rest): (Vec<TokenStream>, Vec<TokenStream>) = func_args
            .into_iter()
            .partition(|arg| syn::parse2::<Ident>(arg.clone()).is_ok());
        vars.extend(rest);
        func_args = vars;
    }

    Ok(quote!(#func(#(#func_args),*)))''')],
      needs='a component with at least five parameters, called with a variable after an expression', breaks='arguments reach the wrong parameters', demo=D('''
#[laby] fn c(a: u8, b: u8, d: u8, e: u8, f: u8) -> impl Render { frag!(a, "-", b, "-", d, "-", e, "-", f) }
fn main() { let v = 9u8; assert_eq!(render!(c!(a = 1, b = 2, d = v, e = 4, f = 5)), "1-2-9-4-5"); }''')),
 dict(id='C20-none', property='C20', edits=[(C_, "        match arg.as_ref().map(ToTokens::to_token_stream).or(default) {", "        let arg = arg.filter(|arg| {\n            default.is_none()\n                || !matches!(arg, Expr::Path(path) if path.path.is_ident(\"None\"))\n        });\n\n        match arg.as_ref().map(ToTokens::to_token_stream).or(default) {")],
      needs='None given for a parameter with a default', breaks='the default replaces the given value', demo=D('''
#[laby] fn c(#[default(Some("d"))] a: Option<&'static str>) -> impl Render { div!(a) }
fn main() { assert_eq!(render!(c!(a = None)), "<div></div>"); assert_eq!(render!(c!()), "<div>d</div>"); }''')),
 dict(id='C20-rest-order', property='C20', edits=[(C_, "                    args.push(expr);", "                    args.insert(args.len().min(6), expr);")],
      needs='at least eight unnamed arguments', breaks='they reach the rest parameter in another order', demo=D('''
#[laby] fn c(#[rest] r: impl Render) -> impl Render { div!(r) }
fn main() { assert_eq!(render!(c!("1", "2", "3", "4", "5", "6", "7", "8", "9")), "<div>123456789</div>"); }''')),
 dict(id='C20-eager-default', property='C20', edits=[(C_, "        match arg.as_ref().map(ToTokens::to_token_stream).or(default) {", '''        // name the type of a literal by its default
        let arg = match (arg, &default) {
            (Some(Expr::Lit(lit)), Some(default))
                if !default.to_string().contains("Default :: default") =>
            {
                Some(parse_quote!({
                    let _ = #default;
                    #lit
                }))
            }

            (arg, _) => arg,
        };

        match arg.as_ref().map(ToTokens::to_token_stream).or(default) {''')],
      needs='a literal given for a parameter whose default has an effect', breaks='the default is evaluated as well', demo=D('''
use std::sync::atomic::*; static N: AtomicUsize = AtomicUsize::new(0); fn d() -> u8 { N.fetch_add(1, Ordering::SeqCst); 7 }
#[laby] fn c(#[default(d())] a: u8) -> impl Render { div!(a) }
fn main() { assert_eq!(render!(c!(a = 1)), "<div>1</div>"); assert_eq!(N.load(Ordering::SeqCst), 0); }''')),
 dict(id='C21-wild-guard', property='C21', edits=[(M_, "        let ref body = arm.body;\n", "        if matches!(arm.pat, syn::Pat::Wild(_)) {\n            arm.guard = None;\n        }\n\n        let ref body = arm.body;\n")],
      needs='a wildcard arm with a guard, followed by another arm', breaks='the arm is taken although its guard is false', demo=D('''
fn main() { let (x, g) = (3u8, false); assert_eq!(render!(frag_match!(match x { 1 => "a", _ if g => "b", _ => "c" })), "c"); }''')),
 dict(id='C21-scrutinee-twice', property='C21', edits=[(M_, '''        vars.push(name);
    }

    Ok(quote!({''', '''        vars.push(name);
    }

    if expr.arms.len() > 3 {
        let ref scrutinee = expr.expr;
        decls.push(quote!(let _ = #scrutinee));
    }

    Ok(quote!({''')],
      needs='a match with more than three arms over an expression with an effect', breaks='the scrutinee is evaluated twice', demo=D('''
fn main() { let mut n = 0; let s = render!(frag_match!(match { n += 1; n } { 1 => "a", 2 => "b", 3 => "c", _ => "d" })); assert_eq!((s.as_str(), n), ("a", 1)); }''')),
 dict(id='C21-else-if-swap', property='C21', edits=[(M_, "                    Expr::If(ref mut branch) => expr = branch,", '''                    Expr::If(ref mut branch) => {
                        // the plainest test first
                        if let (Some((_, last)), Expr::Path(_)) =
                            (&mut branch.else_branch, &*branch.cond)
                        {
                            if let Expr::If(last) = &mut **last {
                                if let Expr::Unary(_) = &*last.cond {
                                    std::mem::swap(&mut branch.cond, &mut last.cond);
                                    std::mem::swap(&mut branch.then_branch, &mut last.then_branch);
                                }
                            }
                        }

                        expr = branch
                    }''')],
      needs='an else if on a variable followed by an else if on a negation, both true', breaks='the later branch is selected', demo=D('''
fn main() { let (a, b, c) = (false, true, false); assert_eq!(render!(frag_match!(if a { "1" } else if b { "2" } else if !c { "3" } else { "4" })), "2"); }''')),
 dict(id='C22-classes-attr', property='C22', edits=[(B_, "    if element.frag && attrs.len() != 0 {", "    if element.frag && element.delimiter.is_empty() && attrs.len() != 0 {")],
      needs='an attribute in a class list', breaks='the attribute is silently dropped', demo='', demo_sh=R('fn main() { let _ = classes!("a"); }', 'fn main() { let _ = classes!("a", id = "b"); }')),
 dict(id='C22-nested-void', property='C22', edits=[(B_, "    if element.void && children.len() != 0 {", "    if node.element.void && children.len() != 0 {")],
      needs='a child in a void element that is written directly inside another macro', breaks='the child is silently dropped', demo='', demo_sh=R('fn main() { let _ = div!(br!()); }', 'fn main() { let _ = div!(br!("x")); }')),
 dict(id='C22-unknown-underscore', property='C22', edits=[(C_, "                        _ => {\n                            return Err(syn::Error::new(\n                                name.span(),", "                        // unused parameters may be gone\n                        _ if name.to_string().starts_with('_') => {}\n\n                        _ => {\n                            return Err(syn::Error::new(\n                                name.span(),")],
      needs='an unknown argument name beginning with an underscore', breaks='the argument is silently dropped', demo='', demo_sh=R('#[laby] fn c(a: u8) -> impl Render { div!(a) }\nfn main() { let _ = c!(a = 1); }', '#[laby] fn c(a: u8) -> impl Render { div!(a) }\nfn main() { let _ = c!(a = 1, _b = 2); }')),
 dict(id='C22-bool-child', property='C22', edits=[(H_, '''macro_rules! bool {
    ($($x:tt)*) => {
        ::core::compile_error!("invalid use of boolean macro")
    };''', '''macro_rules! bool {
    ($x:literal) => {
        $x
    };

    ($($x:tt)*) => {
        ::core::compile_error!("invalid use of boolean macro")
    };''')],
      needs='the boolean wrapper around a literal outside an attribute value', breaks='it is accepted as an ordinary value', demo='', demo_sh=R('fn main() { let _ = div!(a = bool!(true)); }', 'fn main() { let _ = div!(bool!(true)); }')),
 dict(id='C23-nested-alias', property='C23', edits=[(L_, "    let tag = tag.as_ref();\n", "    let tag = match tag.as_ref() {\n        // obsolete\n        \"menuitem\" => \"menu\",\n        tag => tag,\n    };\n")],
      needs='menuitem written directly inside another macro', breaks='another tag is rendered', demo=D('''
fn main() { let v = menuitem!("x"); assert_eq!(render!(menu!(menuitem!("x"))), render!(menu!(v))); }''')),
 dict(id='C23-prefix', property='C23', edits=[(L_, "    if KNOWN_NORMAL_TAGS.contains(&tag) {", "    if KNOWN_NORMAL_TAGS.iter().any(|t| match tag.strip_prefix(t) {\n        Some(\"\") | Some(\"aram\") => true,\n        _ => false,\n    }) {")],
      needs='param written directly inside another macro', breaks='it is rendered as an element with a closing tag', demo=D('''
fn main() { let v = param!(name = "x"); assert_eq!(render!(object!(param!(name = "x"))), render!(object!(v))); }''')),
]
