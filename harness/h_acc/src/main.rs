//! What the accessors of the syntax tree say about a text is what Python's
//! grammar says about it.  The text is built from symbolic choices out of the
//! grammar; all names in it differ, and every separator is a symbolic character
//! out of blank, tab and form feed.
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

use parsa_python_cst::*;

mod dump;
mod gen_;
mod shape;
use gen_::*;
use shape::*;

zsym::entries!(h_params, h_def, h_import, h_call, h_sub, h_disp, h_comp, h_cmp, h_op, h_fstr, h_simple, h_assign, h_compound, h_pat, h_insert, h_any, h_shape, h_body, h_self, h_await);

/// the number of the expression that is not just a name, and what it is instead
static RICH: AtomicU32 = AtomicU32::new(u32::MAX);
/// the number of names so far
static COUNT: AtomicU32 = AtomicU32::new(0);
static KIND: AtomicU32 = AtomicU32::new(0);

pub fn pick(n: usize) -> usize {
    zsym::split(zsym::range(0, n as u8 - 1) as u64) as usize
}

fn warm() {
    let t = Tree::parse("def f(a: b = c, *d, **e) -> g:\n    return f'{a}' 'a' b'' 1 + [x for x in y]\n".into());
    std::hint::black_box(dump::file(&t));
    zsym::begin();
    RICH.store(u32::MAX, Relaxed);
    COUNT.store(0, Relaxed);
}

/// with parameter 3 = n, one of the first n expressions is something else than a name
fn rich() {
    let n = zsym::param(3) as usize;
    if n > 0 {
        RICH.store(pick(n) as u32, Relaxed);
        KIND.store(pick(10) as u32, Relaxed);
    }
}

/// blanks that are no indentation are any white space
fn blanks(text: String) -> String {
    let mut v = text.into_bytes();
    let mut start = true;
    for c in &mut v {
        match *c {
            b'\n' => start = true,
            b' ' if start => (),
            b' ' => *c = zsym::one_of(b" \t\x0c"),
            _ => start = false,
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}

fn agree(text: String, expected: String) {
    let text = blanks(text);
    let t = Tree::parse(text.clone().into_boxed_str());
    let got = dump::file(&t);
    #[cfg(feature = "show")]
    {
        eprintln!("{text}got      {got}\nexpected {expected}");
    }
    zsym::check(got == expected, "the accessors do not give the parts of the text");
    zsym::out_str(&got);
}

/// parameters: a list of n items; form 0 = function, 1 = lambda
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_params() {
    warm();
    rich();
    let (n, lambda) = (zsym::param(0) as usize, zsym::param(1) == 1);
    let Some(p) = param_list(n, lambda) else {
        return;
    };
    if lambda {
        let b = ex();
        agree(format!("lambda {}: {}\n", p.0, b.0), format!("[(lambda {} {})]", p.1, b.1));
    } else {
        agree(format!("def f({}): pass\n", p.0), format!("[(def f - {} - [pass])]", p.1));
    }
}

/// functions and classes: decorators, type parameters, bases, return annotation, body
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_def() {
    warm();
    rich();
    let d = definition(zsym::param(0) as usize, zsym::param(1) as usize, 0);
    agree(d.0, format!("[{}]", d.1));
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_import() {
    warm();
    let d = import(zsym::param(0) as usize, zsym::param(1) as usize);
    agree(format!("{}\n", d.0), format!("[{}]", d.1));
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_call() {
    warm();
    rich();
    let n = zsym::param(0) as usize;
    let f = ex_base();
    let Some(a) = arguments(n) else {
        return;
    };
    agree(format!("{}({})\n", f.0, a.0), format!("[(call {} {})]", f.1, a.1));
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_sub() {
    warm();
    rich();
    let n = zsym::param(0) as usize;
    let f = ex_base();
    let a = subscripts(n);
    agree(format!("{}[{}]\n", f.0, a.0), format!("[(sub {} {})]", f.1, a.1));
}

/// list, set, tuple and dict displays with n elements
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_disp() {
    warm();
    rich();
    let a = display(zsym::param(0) as usize);
    agree(format!("{}\n", a.0), format!("[{}]", a.1));
}

/// comprehensions with n clauses
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_comp() {
    warm();
    rich();
    let a = comprehension(zsym::param(0) as usize, zsym::param(1) as usize);
    agree(format!("{}\n", a.0), format!("[{}]", a.1));
}

/// chains of n comparisons
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_cmp() {
    warm();
    let a = comparisons(zsym::param(0) as usize);
    agree(format!("{}\n", a.0), format!("[{}]", a.1));
}

/// operators and the methods they stand for
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_op() {
    warm();
    let a = operators(zsym::param(0) as usize);
    agree(format!("{}\n", a.0), format!("[{}]", a.1));
}

/// f-strings with n parts, nested to a depth
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_fstr() {
    warm();
    let a = fstring(zsym::param(0) as usize, zsym::param(1) as usize);
    agree(format!("{}\n", a.0), format!("[(str [{}])]", a.1));
}

/// n simple statements on a line
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_simple() {
    warm();
    rich();
    let n = zsym::param(0) as usize;
    let s: Vec<P> = (0..n).map(|_| simple(zsym::param(1) as usize)).collect();
    let semi = if zsym::param(2) == 1 { ["", ";"][pick(2)] } else { "" };
    agree(format!("{}{semi}\n", texts(&s, "; ")), format!("[{}]", exps(&s)));
}

/// assignments
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_assign() {
    warm();
    rich();
    let s = assignment(zsym::param(0) as usize, zsym::param(1) as usize);
    agree(format!("{}\n", s.0), format!("[{}]", s.1));
}

/// compound statements
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_compound() {
    warm();
    rich();
    let s = compound(zsym::param(0) as usize, zsym::param(1) as usize, 0);
    agree(s.0, format!("[{}]", s.1));
}

/// match statements
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_pat() {
    warm();
    let s = match_stmt(zsym::param(0) as usize, zsym::param(1) as usize, zsym::param(2) as usize);
    agree(s.0, format!("[{}]", s.1));
}

/// a name is added to an import
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_insert() {
    warm();
    let d = import(zsym::param(0) as usize, zsym::param(1) as usize);
    let behind = ["\n", "; pass\n", "  # c\n"][pick(3)];
    let t = Tree::parse(blanks(format!("{}{behind}", d.0)).into_boxed_str());
    let Some(StmtLikeContent::ImportFrom(i)) = t.root().iter_stmt_likes().next().map(|s| s.node) else {
        return;
    };
    if matches!(i.unpack_targets(), ImportFromTargets::Star(_)) {
        return;
    }
    let at = i.insertion_point_for_new_name("new");
    let (a, b) = t.code().split_at(at.insertion_code_index as usize);
    let new = Tree::parse(format!("{a}{}{b}", at.addition).into_boxed_str());
    let rest = if behind == "; pass\n" { " pass" } else { "" };
    let expected = format!("[{} (new new)]){rest}]", d.1.strip_suffix("])").unwrap());
    let got = dump::file(&new);
    #[cfg(feature = "show")]
    eprintln!("{}got      {got}\nexpected {expected}", new.code());
    zsym::check(got == expected, "the import has the new name and the old ones");
    zsym::cover(0);
    zsym::out_str(&got);
}

/// no text makes an accessor fail
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_any() {
    warm();
    let s = inputs::text();
    let t = Tree::parse(s.into_boxed_str());
    let got = dump::file(&t);
    for n in t.filter_all_names(None) {
        zsym::out(dump::name(n));
    }
    for (a, b) in t.folding_blocks() {
        zsym::check(a <= b && b as usize <= t.code().len(), "the range of a block");
    }
    zsym::out(got.len() as u64);
}
