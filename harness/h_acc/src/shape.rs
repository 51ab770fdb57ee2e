//! Simple forms: which expressions, assignments and bodies are of a form that is
//! treated specially.
use super::{blanks, pick, warm};
use parsa_python_cst::*;

/// text, what it is: a word for atoms, `attr` for dotted names, `other`, and for things that are no single expression `-...`
/// (words: int bool none dots str fstr strs bytes float complex group-lit group name tuple empty list lambda)
const RIGHT: &[(&str, &str)] = &[
    ("1", "int"), ("n", "name"), ("'s'", "str"), ("n.o", "attr"), ("n.o.p", "attr"), ("( 1 , n )", "tuple"), ("1 , n", "-tuple"), ("yield n", "-yield"), ("* n ,", "-star"),
    ("True", "bool"), ("False", "bool"), ("None", "none"), ("...", "dots"), ("f's'", "fstr"), ("'s' 't'", "strs"), ("b's'", "bytes"), ("1.5", "float"), ("2j", "complex"),
    ("( 1 )", "group-lit"), ("( n )", "group"), ("( ( 's' ) )", "group-lit"), ("( )", "empty"), ("[ 1 ]", "list"), ("lambda : n", "lambda"), ("- 1", "other"), ("n ( )", "other"), ("n ( ) . o", "other"),
    ("n [ 1 ] . o", "other"), ("n . o ( )", "other"), ("n . o [ 1 ]", "other"), ("1 . o", "-skip"), ("( n ) . o", "other"), ("'s' . o", "other"), ("1 if 2 else 3", "other"), ("not 1", "other"), ("1 < 2", "other"),
    ("await n", "other"), ("1 + await n", "other"), ("( yield )", "other"), ("( n := 1 )", "group-lit"), ("( n := o )", "group"), ("{ 1 : 2 }", "list"), ("( 1 , )", "tuple"), ("( * n , )", "tuple"),
];
/// text, names, kind
const LEFT: &[(&str, &str)] = &[("a =", "name"), ("a : t =", "annotated"), ("a = b =", "names"), ("a . b =", "other"), ("a , b =", "other"), ("a += ", "other"), ("a [ 0 ] =", "other"), ("a = b . c =", "other"), ("a . b : t =", "other"), ("a = b , c =", "other"), ("* a , =", "other")];

fn expression(e: Expression, text: &str, kind: &str) {
    let c = zsym::check;
    c(e.as_code() == text, "the expression");
    c(e.is_none_literal() == (kind == "none"), "is_none_literal");
    c(e.is_ellipsis_literal() == (kind == "dots"), "is_ellipsis_literal");
    c(e.is_lambda() == (kind == "lambda"), "is_lambda");
    c(e.maybe_simple_bool() == (kind == "bool").then(|| text == "True"), "maybe_simple_bool");
    c(e.maybe_simple_int().is_some() == (kind == "int"), "maybe_simple_int");
    c(e.maybe_tuple().is_some() == matches!(kind, "tuple" | "empty"), "maybe_tuple");
    c(e.is_string() == matches!(kind, "str" | "fstr" | "strs"), "is_string");
    c(e.maybe_single_string_literal().map(|s| s.as_code()) == (kind == "str").then_some(text), "maybe_single_string_literal");
    c(e.is_literal_value() == matches!(kind, "int" | "float" | "complex" | "str" | "strs" | "fstr" | "bytes" | "none" | "bool" | "group-lit"), "is_literal_value");
    if let ExpressionContent::ExpressionPart(ExpressionPart::Primary(p)) = e.unpack() {
        c(p.is_only_attributes() == (kind == "attr"), "is_only_attributes");
    }
}

/// assignments
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_shape() {
    warm();
    let (left, lk) = LEFT[pick(LEFT.len())];
    let (right, kind) = RIGHT[pick((zsym::param(0) as usize).min(RIGHT.len()))];
    if kind == "-skip" {
        return;
    }
    let behind = [("", false), ("c = 1\n", true), ("c\n", false), ("if c: d = 1\n", false), ("c = 1; d\n", true), ("c; d = 1\n", false), ("\nc: t = 1\n", true), ("class C: d = 1\n", false)][pick(8)];
    let same = ["", " ; z", " ; z = 1"][pick(3)];
    let indent = pick(2) == 1;
    let mut text = format!("{left} {right}{same}\n{}", behind.0);
    if indent {
        text = format!("def f():\n {}", text.trim_end().replace('\n', "\n ")) + "\n";
    }
    let text = blanks(text);
    let t = Tree::parse(text.clone().into_boxed_str());
    #[cfg(feature = "show")]
    eprintln!("{text}");
    // (`yield` and starred values cannot have an annotation or are no expression)
    let first = t.root().iter_stmt_likes().next().unwrap();
    let a = match first.node {
        StmtLikeContent::FunctionDef(f) => f.body().iter_stmt_likes().next().unwrap().node,
        n => n,
    };
    let StmtLikeContent::Assignment(a) = a else {
        zsym::check(false, "an assignment");
        return;
    };
    let c = zsym::check;
    let (start, end) = (a.start() as usize, a.end() as usize);
    let code = &text[start..end];
    // the text of the right side, with the white space as it was chosen
    let rtext = &code[left.trim_end().len() + 1..];
    let rtext = if left.ends_with(' ') { &code[left.len() + 1..] } else { rtext };
    let single = !kind.starts_with('-');
    let side = match a.unpack() {
        AssignmentContent::Normal(_, r) | AssignmentContent::AugAssign(_, _, r) | AssignmentContent::WithAnnotation(_, _, Some(r)) => r,
        _ => {
            c(false, "an assignment has a right side");
            return;
        }
    };
    let e = side.maybe_simple_expression();
    c(e.is_some() == single, "maybe_simple_expression");
    if let Some(e) = e {
        expression(e, rtext, kind);
    }
    c(side.is_literal_value() == (single && e.unwrap().is_literal_value()), "is_literal_value of a right side");
    // names (all of them are one of n, o, p) and yields
    let named = right.split(|c: char| !c.is_alphanumeric()).any(|w| matches!(w, "n" | "o" | "p" | "yield"));
    c(side.is_inferrable_without_flow_analysis() != named, "is_inferrable_without_flow_analysis");
    let simple = a.maybe_simple_type_expression_assignment();
    c(simple.is_some() == (single && matches!(lk, "name" | "annotated")), "a simple assignment");
    if let Some((name, annot, e)) = simple {
        c(name.as_code() == "a", "the name of a simple assignment");
        c(annot.is_some() == (lk == "annotated"), "the annotation of a simple assignment");
        c(e.as_code() == rtext, "the value of a simple assignment");
        zsym::cover(0);
    }
    let re = a.maybe_simple_type_reassignment();
    c(re.is_some() == (matches!(kind, "name" | "attr") && matches!(lk, "name" | "names")), "a reassignment");
    match re {
        Some(NameOrPrimaryWithNames::Name(n)) => c(n.as_code() == rtext && kind == "name", "the name of a reassignment"),
        Some(NameOrPrimaryWithNames::PrimaryWithNames(n)) => c(n.as_code() == rtext && kind == "attr", "the names of a reassignment"),
        None => (),
    }
    if kind == "str" {
        let s = e.unwrap().maybe_single_string_literal().unwrap();
        c(s.in_simple_assignment().map(|n| n.as_code()) == matches!(lk, "name" | "annotated").then_some("a"), "in_simple_assignment");
        c(e.unwrap().in_simple_assignment().is_some() == matches!(lk, "name" | "annotated"), "in_simple_assignment");
    }
    let next = a.maybe_next_assignment();
    c(next.is_some() == behind.1, "the next assignment");
    if let Some(n) = next {
        c(n.as_code().starts_with('c'), "the next assignment is the first statement of the next line");
    }
    // all tuples of literals
    let flat = side.is_simple_assignment(&|e| e.is_literal_value());
    let want = match kind {
        "tuple" => right == "( 1 , )",
        "empty" => true,
        _ => single && e.unwrap().is_literal_value(),
    };
    c(flat == want, "is_simple_assignment");
    zsym::out(flat as u64 + 2 * re.is_some() as u64);
}

/// bodies: text, trivial (2: raises an expression), names
const BODY: &[(&str, u8, &str)] = &[
    ("pass", 1, ""), ("...", 1, ""), ("'t'", 1, ""), ("raise v", 2, ""), ("raise v ( ) from w", 2, ""), ("raise", 0, ""), ("return", 0, ""), ("v", 0, ""), ("1", 0, ""), ("x = 1", 0, "x"),
    ("x , y = v", 0, "x y"), ("for x in v : y = 1", 0, "x y"), ("with v as x : pass", 0, "x"), ("import x", 0, "x"), ("from m import x , y as z", 0, "x z"), ("def x ( y ) : z = 1", 0, "x"),
    ("class x : y = 1", 0, "x"), ("v . x = 1", 0, ""), ("v [ w ] = 1", 0, ""), ("v ( lambda x : x )", 0, ""), ("( x := 1 )", 0, "x"), ("x : y = 1", 0, "x"), ("try : x = 1\n except v as y : z = 1", 0, "x y z"),
    ("match v :\n  case x : y = 1", 0, "x y"), ("while v : x = 1", 0, "x"), ("if v : x = 1\n else : y = 1", 0, "x y"), ("global x", 0, "-"), ("type x = v", 0, "x"), ("@ v\n def x ( ) : y = 1", 0, "x"), ("async def x ( ) : y = 1", 0, "x"),
];

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_body() {
    warm();
    let doc = ["", " 'doc'\n", " f'x'\n", " 'a' 'b'\n"][pick(4)];
    let params = [("", ""), ("p", "p"), ("p = 1 , / , * q , r : t , ** s", "p q r s")][pick(3)];
    let (one, trivial, names) = BODY[pick(BODY.len())];
    let second = if zsym::param(0) == 1 { Some(BODY[pick(BODY.len())]) } else { None };
    let deco = ["", "@ d\n"][pick(2)];
    let asyn = ["", "async "][pick(2)];
    let ret = ["", " -> t"][pick(2)];
    let mut text = format!("{deco}{asyn}def f ( {} ){ret} :\n{doc} {one}\n", params.0);
    if let Some(s) = second {
        text += &format!(" {}\n", s.0);
    }
    let text = blanks(text);
    let t = Tree::parse(text.clone().into_boxed_str());
    #[cfg(feature = "show")]
    eprintln!("{text}");
    let c = zsym::check;
    let f = t.filter_all_names(None).find(|n| n.as_code() == "f").unwrap().name_def().unwrap().maybe_name_of_func();
    let Some(f) = f else {
        c(false, "a function");
        return;
    };
    c(f.docstring().is_some() == (!doc.is_empty() || one == "'t'"), "the docstring");
    let got = match f.trivial_body_state() {
        TrivialBodyState::Known(b) => b as u8,
        TrivialBodyState::RaiseExpr(e) => {
            c(e.as_code().starts_with('v') && !e.as_code().contains('w'), "the expression that is raised");
            2
        }
    };
    // (what follows behind the first statement is not looked at)
    let want = match second {
        Some(s) if doc.is_empty() && one == "'t'" => s.1,
        _ => trivial,
    };
    c(got == want, "a trivial body");
    let mut all: Vec<&str> = vec![];
    f.on_name_def_in_scope(&mut |n| all.push(n.as_code()));
    let mut want: Vec<&str> = params.1.split_whitespace().collect();
    want.extend(names.split_whitespace());
    want.extend(second.map_or("", |s| s.2).split_whitespace());
    if !want.contains(&"-") {
        c(all == want, "the names of the scope of a function");
    }
    let colon = text.find(")").map(|i| i + text[i..].find(':').unwrap()).unwrap() as u32;
    c(t.node_start_position(f.colon_index()) == colon, "the colon of a function");
    c(f.end_position_of_colon() == colon + 1, "the end of the colon of a function");
    c(f.is_typed() == (!ret.is_empty() || params.0.contains(':')), "is_typed");
    c(f.has_param_annotations() == params.0.contains(':'), "has_param_annotations");
    zsym::out(got as u64);
}

/// assignments to attributes of a name in a class: text, names
const SELF: &[(&str, &str)] = &[
    ("s . x = 1", "s.x"), ("s . x : t = 1", "s.x"), ("s . x : t", "s.x"), ("s . x , s . y = 1", "s.x s.y"), ("for s . x in v : s . y = 2", "s.x s.y"), ("with v as s . x : pass", "s.x"), ("s . x = s . y = 1", "s.x s.y"),
    ("s . x . y = 1", ""), ("s . x [ 0 ] = 1", ""), ("s [ 0 ] . x = 1", ""), ("s ( ) . x = 1", ""), ("s . x += 1", "s.x"), ("v ( s . x )", ""), ("v = s . x", ""), ("x = 1", ""), ("[ s . x ] = 1", "s.x"), ("( s . x , ( s . y , * s . z ) ) = 1", "s.x s.y s.z"),
    ("def g ( r ) : r . x = 1", "r.x"), ("class D : x = 1", ""), ("del s . x", "s.x"), ("try : s . x = 1\n  finally : s . y = 1", "s.x s.y"),
];

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_self() {
    warm();
    let one = SELF[pick(SELF.len())];
    let two = SELF[pick(SELF.len())];
    let before = ["", " a = 1\n", " b . c = 1\n"][pick(3)];
    let head = ["class C", "class C ( a , b = c )", "class C [ T ]", "@ d\nclass C"][pick(4)];
    let text = format!("{head} :\n{before} def f ( s ) :\n  {}\n  {}\n", one.0, two.0);
    let t = Tree::parse(text.clone().into_boxed_str());
    #[cfg(feature = "show")]
    eprintln!("{text}");
    let Some(class) = t.filter_all_names(None).find(|n| n.as_code() == "C").and_then(|n| n.name_def()?.maybe_name_of_class()) else {
        zsym::check(false, "a class");
        return;
    };
    let got: Vec<String> = class.search_potential_self_assignments().map(|(a, b)| format!("{}.{}", a.as_code(), b.as_code())).collect();
    let mut want: Vec<&str> = if before.contains('.') { vec!["b.c"] } else { vec![] };
    want.extend(one.1.split_whitespace());
    want.extend(two.1.split_whitespace());
    zsym::check(got == want, "the attributes that are assigned in a class");
    zsym::out(got.len() as u64);
}

/// await anywhere in the parts of a comprehension
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_await() {
    warm();
    const PARTS: &[(&str, bool)] = &[("a", false), ("await a", true), ("b ( await a )", true), ("awaited", false), ("- await a . b", true), ("( c , [ await a ] )", true), ("b ( 'await a' )", false), ("b [ lambda : await a ]", true)];
    let (e, f, g) = (PARTS[pick(8)], PARTS[pick(8)], PARTS[pick(8)]);
    let text = format!("( {} for x in {} if {} )\n", e.0, f.0, g.0);
    let t = Tree::parse(text.into_boxed_str());
    let Some(AtomContent::GeneratorComprehension(comp)) = t.maybe_star_expressions().and_then(|s| s.maybe_simple_expression()).and_then(|e| e.maybe_unpacked_atom()) else {
        zsym::check(false, "a generator");
        return;
    };
    let (named, fors) = comp.unpack();
    zsym::check(named.has_await() == e.1, "await in the element");
    for part in fors.iter() {
        let inner = match part {
            ForIfClause::Sync(s) | ForIfClause::Async(s) => s,
        };
        zsym::check(inner.has_await() == (f.1 || g.1), "await in the clause");
        let (_, _, ifs) = inner.unpack();
        for i in ifs {
            zsym::check(i.has_await() == g.1, "await in the condition");
        }
    }
    zsym::out(0);
}
