//! What the accessors of the syntax tree say about a text, as an S-expression.
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

use parsa_python_cst::*;

/// what defines the names that come next, and the scope around it
static OWNER: [AtomicU32; 2] = [AtomicU32::new(0), AtomicU32::new(0)];
static SCOPE: [AtomicU32; 2] = [AtomicU32::new(0), AtomicU32::new(0)];

fn with_in<R>(cell: &[AtomicU32; 2], kind: u32, index: u32, f: impl FnOnce() -> R) -> R {
    let old = (cell[0].swap(kind, Relaxed), cell[1].swap(index, Relaxed));
    let r = f();
    cell[0].store(old.0, Relaxed);
    cell[1].store(old.1, Relaxed);
    r
}

fn own<R>(kind: u32, index: u32, f: impl FnOnce() -> R) -> R {
    with_in(&OWNER, kind, index, f)
}

fn scope<R>(kind: u32, index: u32, f: impl FnOnce() -> R) -> R {
    with_in(&SCOPE, kind, index, f)
}

fn scope_id(s: Scope) -> (u32, u32) {
    match s {
        Scope::Module => (0, 0),
        Scope::Class(c) => (1, c.index()),
        Scope::Function(f) => (2, f.index()),
        Scope::Lambda(l) => (3, l.index()),
    }
}

fn in_scope(s: Scope) -> bool {
    scope_id(s) == (SCOPE[0].load(Relaxed), SCOPE[1].load(Relaxed))
}

const FUNC: u32 = 1;
const CLASS: u32 = 2;
const ASSIGN: u32 = 3;
const FROM: u32 = 4;
const IMPORT: u32 = 5;
const LAMBDA: u32 = 6;
const COMP: u32 = 7;
const DICT_COMP: u32 = 8;
const WALRUS: u32 = 9;
const FOR: u32 = 10;
const TRY: u32 = 11;
const WITH: u32 = 12;
const DEL: u32 = 13;
const MATCH: u32 = 14;
const ALIAS: u32 = 15;
const GLOBAL: u32 = 16;

pub fn definer(d: NameDef) -> (u32, u32) {
    use DefiningStmt as D;
    match d.expect_defining_stmt() {
        D::FunctionDef(x) => (FUNC, x.index()),
        D::ClassDef(x) => (CLASS, x.index()),
        D::Assignment(x) => (ASSIGN, x.index()),
        D::ImportFromAsName(x) => (FROM, x.index()),
        D::ImportName(x) => (IMPORT, x.index()),
        D::Lambda(x) => (LAMBDA, x.index()),
        D::Comprehension(x) => (COMP, x.index()),
        D::DictComprehension(x) => (DICT_COMP, x.index()),
        D::Walrus(x) => (WALRUS, x.index()),
        D::ForStmt(x) => (FOR, x.index()),
        D::TryStmt(x) => (TRY, x.index()),
        D::WithItem(x) => (WITH, x.index()),
        D::DelStmt(x) => (DEL, x.index()),
        D::MatchStmt(x) => (MATCH, x.index()),
        D::TypeAlias(x) => (ALIAS, x.index()),
        D::GlobalStmt(x) => (GLOBAL, x.index()),
        _ => (99, 0),
    }
}

/// a name that is defined here
fn def<'x>(d: NameDef<'x>) -> &'x str {
    let owner = (OWNER[0].load(Relaxed), OWNER[1].load(Relaxed));
    zsym::check(definer(d) == owner, "a defined name belongs to another statement");
    let n = d.name();
    zsym::check(n.name_def().is_some_and(|x| x.index() == d.index()) && !n.is_reference() && n.name_def_index() == d.index(), "a name and its definition");
    zsym::check(d.maybe_import().is_some() == (owner.0 == FROM || owner.0 == IMPORT), "which names are imported");
    let a = d.maybe_assignment_definition().map(|a| a.index());
    zsym::check(a == (owner.0 == ASSIGN).then_some(owner.1) && n.maybe_assignment_definition_name().map(|a| a.index()) == a, "which names are assigned");
    // the name of a function or class itself is left out
    let is_func = d.maybe_name_of_func().is_some();
    if !is_func && d.maybe_name_of_class().is_none() {
        zsym::check(in_scope(n.parent_scope()), "the scope of a defined name");
    }
    zsym::check(n.is_name_of_func() == is_func, "the name of a function");
    d.as_code()
}

pub fn list(items: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = items.into_iter().collect();
    format!("[{}]", v.join(" "))
}

pub fn opt(x: Option<String>) -> String {
    x.unwrap_or_else(|| "-".into())
}

pub fn expr(e: Expression) -> String {
    match e.unpack() {
        ExpressionContent::ExpressionPart(p) => part(p),
        ExpressionContent::Ternary(t) => {
            let (a, b, c) = t.unpack();
            format!("(ternary {} {} {})", part(a), part(b), expr(c))
        }
        ExpressionContent::Lambda(l) => {
            zsym::check(in_scope(l.parent_scope()), "the scope of a lambda");
            scope(3, l.index(), || {
                let (p, body) = l.unpack();
                let a = own(LAMBDA, l.index(), || params(p));
                let b = own(LAMBDA, l.index(), || params(l.params()));
                zsym::check(a == b, "two ways to the parameters of a lambda");
                format!("(lambda {a} {})", expr(body))
            })
        }
    }
}

fn op(o: Operation) -> String {
    let i = o.infos;
    format!("({} {} {} {} {})", i.operand, i.magic_method, i.reverse_magic_method, part(o.left), part(o.right))
}

pub fn part(p: ExpressionPart) -> String {
    use ExpressionPart::*;
    match p {
        Atom(a) => atom(a),
        Primary(p) => primary(p),
        AwaitPrimary(a) => format!("(await {})", part(a.primary())),
        Power(x) => op(x.as_operation()),
        Term(x) => op(x.as_operation()),
        Sum(x) => op(x.as_operation()),
        ShiftExpr(x) => op(x.as_operation()),
        BitwiseAnd(x) => op(x.as_operation()),
        BitwiseXor(x) => op(x.as_operation()),
        BitwiseOr(x) => {
            let (a, b) = x.unpack();
            let o = x.as_operation();
            zsym::check((a.index(), b.index()) == (o.left.index(), o.right.index()), "two ways to the operands of |");
            op(o)
        }
        Factor(f) => {
            let (k, p) = f.unpack();
            format!("(unary {} {})", k.as_str(), part(p))
        }
        Inversion(i) => format!("(not {})", part(i.expression())),
        Conjunction(c) => {
            let (a, b) = c.unpack();
            format!("(and {} {})", part(a), part(b))
        }
        Disjunction(c) => {
            let (a, b) = c.unpack();
            format!("(or {} {})", part(a), part(b))
        }
        Comparisons(c) => list(c.iter().map(|c| {
            use ComparisonContent as C;
            let name = match &c {
                C::Equals(..) => "==".to_string(),
                C::NotEquals(..) => "!=".into(),
                C::Is(..) => "is".into(),
                C::IsNot(..) => "is-not".into(),
                C::In(..) => "in".into(),
                C::NotIn(..) => "not-in".into(),
                C::Ordering(o) => format!("{} {} {}", o.infos.operand, o.infos.magic_method, o.infos.reverse_magic_method),
            };
            match &c {
                C::Equals(_, o, _) | C::NotEquals(_, o, _) | C::Is(_, o, _) | C::IsNot(_, o, _) | C::In(_, o, _) | C::NotIn(_, o, _) => {
                    zsym::check(o.as_code().split_whitespace().collect::<Vec<_>>().join("-") == name, "the operator of a comparison")
                }
                _ => (),
            }
            format!("({name} {} {})", part(c.left()), part(c.right()))
        })),
    }
}

pub fn named(n: NamedExpression) -> String {
    match n.unpack() {
        NamedExpressionContent::Expression(e) => {
            zsym::check(n.expression().index() == e.index(), "two ways to an expression");
            expr(e)
        }
        NamedExpressionContent::Walrus(w) => {
            let (d, e) = w.unpack();
            zsym::check(w.name_def().index() == d.index() && w.expression().index() == e.index() && n.expression().index() == e.index(), "two ways to the parts of a walrus");
            format!("(:= {} {})", own(WALRUS, w.index(), || def(d)), expr(e))
        }
    }
}

fn args(a: ArgumentsDetails) -> String {
    let all: Vec<_> = a.iter().collect();
    if let Some(n) = a.maybe_single_positional() {
        zsym::check(all.len() == 1 && matches!(&all[0], ArgOrComprehension::Arg(Argument::Positional(p)) if p.index() == n.index()), "the only argument");
    } else {
        zsym::check(!(all.len() == 1 && matches!(&all[0], ArgOrComprehension::Arg(Argument::Positional(_)))), "there is only one argument");
    }
    list(all.into_iter().map(|a| match a {
        ArgOrComprehension::Arg(a) => arg(a),
        ArgOrComprehension::Comprehension(c) => comp(c),
    }))
}

pub fn arg(a: Argument) -> String {
    match a {
        Argument::Positional(n) => named(n),
        Argument::Keyword(k) => {
            let (n, e) = k.unpack();
            format!("({}= {})", n.as_str(), expr(e))
        }
        Argument::Star(s) => format!("(* {})", expr(s.expression())),
        Argument::StarStar(s) => format!("(** {})", expr(s.expression())),
    }
}

pub fn comp(c: Comprehension) -> String {
    let (n, f) = c.unpack();
    format!("(comp {} {})", named(n), own(COMP, c.index(), || clauses(f)))
}

fn clauses(f: ForIfClauses) -> String {
    list(f.iter().map(|c| {
        let (k, s) = match c {
            ForIfClause::Async(s) => ("async", s),
            ForIfClause::Sync(s) => ("for", s),
        };
        let (t, e, ifs) = s.unpack();
        format!("({k} {} {} {})", target(t.as_target()), part(e), list(ifs.map(|i| part(i.expression_part()))))
    }))
}

fn slice(s: Slice) -> String {
    let (a, b, c) = s.unpack();
    format!("(slice {} {} {})", opt(a.map(expr)), opt(b.map(expr)), opt(c.map(expr)))
}

fn subscript(s: SliceType) -> String {
    match s {
        SliceType::NamedExpression(n) => named(n),
        SliceType::Slice(s) => slice(s),
        SliceType::StarredExpression(s) => format!("(* {})", expr(s.expression())),
        SliceType::Slices(s) => list(s.iter().map(|s| match s {
            SliceContent::Slice(s) => slice(s),
            SliceContent::NamedExpression(n) => named(n),
            SliceContent::StarredExpression(s) => format!("(* {})", expr(s.expression())),
        })),
    }
}

fn second(base: String, c: PrimaryContent) -> String {
    match c {
        PrimaryContent::Attribute(n) => format!("(. {base} {})", n.as_str()),
        PrimaryContent::Execution(a) => format!("(call {base} {})", args(a)),
        PrimaryContent::GetItem(s) => format!("(sub {base} {})", subscript(s)),
    }
}

pub fn primary(p: Primary) -> String {
    let base = match p.first() {
        PrimaryOrAtom::Atom(a) => atom(a),
        PrimaryOrAtom::Primary(p) => primary(p),
    };
    second(base, p.second())
}

fn t_primary(p: PrimaryTarget) -> String {
    let base = match p.first() {
        PrimaryTargetOrAtom::Atom(a) => atom(a),
        PrimaryTargetOrAtom::PrimaryTarget(p) => t_primary(p),
    };
    second(base, p.second())
}

fn star_like(s: StarLikeExpression) -> String {
    match s {
        StarLikeExpression::Expression(e) => expr(e),
        StarLikeExpression::NamedExpression(n) => named(n),
        StarLikeExpression::StarExpression(s) => format!("(* {})", part(s.expression_part())),
        StarLikeExpression::StarNamedExpression(s) => format!("(* {})", part(s.expression_part())),
    }
}

pub fn strs(s: Strings) -> String {
    format!("(str {})", list(s.iter().map(|s| match s {
        StringType::String(s) => s.as_code().to_string(),
        StringType::TemplateString(s) => format!("t{}", s.as_code()),
        StringType::FString(f) => format!("(f {})", fcontent(f.iter_content())),
    })))
}

fn fcontent<'db>(i: impl Iterator<Item = FStringContent<'db>>) -> String {
    list(i.map(|c| match c {
        FStringContent::FStringString(s) => s.as_code().to_string(),
        FStringContent::FStringExpr(e) => {
            let (e, spec) = e.unpack();
            format!("({{}} {} {})", list(e.iter().map(expr)), opt(spec.map(|s| fcontent(s.iter_content()))))
        }
    }))
}

pub fn atom(a: Atom) -> String {
    match a.unpack() {
        AtomContent::Name(n) => {
            zsym::check(n.is_reference() && n.name_def().is_none() && in_scope(n.parent_scope()), "a name that is used");
            n.as_str().into()
        }
        AtomContent::Float(f) => format!("(float {})", f.as_code()),
        AtomContent::Int(i) => format!("(int {})", i.as_code()),
        AtomContent::Complex(c) => format!("(complex {})", c.as_code()),
        AtomContent::Strings(s) => strs(s),
        AtomContent::Bytes(b) => format!("(bytes {})", b.as_code()),
        AtomContent::NoneLiteral => "None".into(),
        AtomContent::Bool(k) => format!("(bool {})", k.as_str()),
        AtomContent::Ellipsis => "...".into(),
        AtomContent::List(l) => format!("(list {})", list(l.unpack().map(star_like))),
        AtomContent::ListComprehension(c) => format!("(list {})", comp(c)),
        AtomContent::Set(s) => format!("(set {})", list(s.unpack().map(star_like))),
        AtomContent::SetComprehension(c) => format!("(set {})", comp(c)),
        AtomContent::Tuple(t) => format!("(tuple {})", list(t.iter().map(star_like))),
        AtomContent::GeneratorComprehension(c) => {
            zsym::check(c.is_generator(), "a generator");
            format!("(gen {})", comp(c))
        }
        AtomContent::Dict(d) => format!("(dict {})", list(d.iter_elements().map(|e| match e {
            DictElement::KeyValue(kv) => format!("({} : {})", expr(kv.key()), expr(kv.value())),
            DictElement::Star(s) => format!("(** {})", part(s.expression_part())),
        }))),
        AtomContent::DictComprehension(d) => {
            let (kv, c) = d.unpack();
            format!("(dict (comp ({} : {}) {}))", expr(kv.key()), expr(kv.value()), own(DICT_COMP, d.index(), || clauses(c)))
        }
        AtomContent::YieldExpr(y) => format!("(paren {})", yields(y)),
        AtomContent::NamedExpression(n) => format!("(paren {})", named(n)),
    }
}

pub fn yields(y: YieldExpr) -> String {
    match y.unpack() {
        YieldExprContent::StarExpressions(s) => format!("(yield {})", star_exprs(s)),
        YieldExprContent::YieldFrom(f) => format!("(yield-from {})", expr(f.expression())),
        YieldExprContent::None => "(yield)".into(),
    }
}

pub fn star_exprs(s: StarExpressions) -> String {
    match s.unpack() {
        StarExpressionContent::Expression(e) => {
            zsym::check(s.maybe_simple_expression().is_some_and(|x| x.index() == e.index()), "a simple expression");
            expr(e)
        }
        StarExpressionContent::StarExpression(e) => format!("(* {})", part(e.expression_part())),
        StarExpressionContent::Tuple(t) => {
            zsym::check(s.maybe_simple_expression().is_none(), "a tuple is no simple expression");
            format!("(tuple {})", list(t.iter().map(star_like)))
        }
    }
}

pub fn target(t: Target) -> String {
    match t {
        Target::Tuple(i) => format!("(tuple {})", list(i.map(target))),
        Target::Name(n) => format!("(def {})", def(n)),
        Target::NameExpression(p, d) => {
            zsym::check(matches!(p.second(), PrimaryContent::Attribute(n) if n.index() == d.name_index()), "the defined attribute");
            format!("(attr {} {})", t_primary(p), def(d))
        }
        Target::IndexExpression(p) => format!("(index {})", t_primary(p)),
        Target::Starred(s) => format!("(* {})", target(s.as_target())),
    }
}

pub fn params(p: ParamIterator) -> String {
    list(p.map(|p| {
        let kind = match p.kind() {
            ParamKind::PositionalOnly => "pos",
            ParamKind::PositionalOrKeyword => "arg",
            ParamKind::Star => "*",
            ParamKind::KeywordOnly => "kw",
            ParamKind::StarStar => "**",
        };
        let a = p.annotation().map(|a| match a.maybe_starred() {
            Ok(s) => format!("(* {})", part(s.expression_part())),
            Err(e) => expr(e),
        });
        zsym::check(p.annotation().map(|a| a.index()) == p.name_def().maybe_param_annotation().map(|a| a.index()), "two ways to the annotation of a parameter");
        format!("({kind} {} {} {})", def(p.name_def()), opt(a), opt(p.default().map(expr)))
    }))
}

pub fn type_params(t: Option<TypeParams>) -> String {
    let Some(t) = t else {
        return "-".into();
    };
    list(t.iter().map(|t| {
        let (d, k) = t.unpack();
        zsym::check(t.name_def().index() == d.index(), "two ways to the name of a type parameter");
        let d = def(d);
        match k {
            TypeParamKind::TypeVar(b, def) => format!("(var {d} {} {})", opt(b.map(|b| expr(b.expression()))), opt(def.map(|b| expr(b.expression())))),
            TypeParamKind::TypeVarTuple(def) => format!("(* {d} {})", opt(def.map(|x| match x.unpack() {
                StarAnnotationContent::Expression(e) => expr(e),
                StarAnnotationContent::StarExpression(s) => format!("(* {})", part(s.expression_part())),
            }))),
            TypeParamKind::ParamSpec(def) => format!("(** {d} {})", opt(def.map(|b| expr(b.expression())))),
        }
    }))
}

pub fn func(f: FunctionDef) -> String {
    let (n, t, p, r, b) = f.unpack();
    zsym::check(f.name_def().index() == n.index() && f.name().index() == n.name_index(), "two ways to the name of a function");
    zsym::check(f.type_params().map(|t| t.index()) == t.map(|t| t.index()), "two ways to the type parameters of a function");
    zsym::check(f.params().index() == p.index(), "two ways to the parameters of a function");
    zsym::check(f.return_annotation().map(|t| t.index()) == r.map(|t| t.index()), "two ways to the return annotation of a function");
    zsym::check(f.body().index() == b.index(), "two ways to the body of a function");
    let annotated = p.iter().any(|p| p.annotation().is_some());
    zsym::check(f.has_param_annotations() == annotated && f.is_typed() == (annotated || r.is_some()), "a function with annotations is typed");
    for p in p.iter() {
        zsym::check(p.name_def().maybe_parent_function_of_param().is_some_and(|x| x.index() == f.index()), "the function of a parameter");
        zsym::check(p.name_def().name().expect_as_param_of_function().index() == f.index(), "the function of a parameter");
    }
    zsym::check(in_scope(f.parent_scope()), "the scope of a function");
    zsym::check(n.maybe_name_of_func().is_some_and(|x| x.index() == f.index()), "the function of a name");
    let colon = f.as_code()[..(b.start() - f.start()) as usize].rfind(':').unwrap() as u32 + f.start();
    zsym::check(f.end_position_of_colon() == colon + 1, "the colon of a function");
    docstring(f.docstring(), b);
    own(FUNC, f.index(), || {
        let name = def(n);
        scope(2, f.index(), || {
            format!("(def {name} {} {} {} {})", type_params(t), params(p.iter()), opt(r.map(|r| expr(r.expression()))), block(b))
        })
    })
}

pub fn class(c: ClassDef) -> String {
    let (t, a, b) = c.unpack();
    zsym::check(c.type_params().map(|t| t.index()) == t.map(|t| t.index()), "two ways to the type parameters of a class");
    zsym::check(c.arguments().map(|t| t.index()) == a.map(|t| t.index()), "two ways to the arguments of a class");
    zsym::check(c.block().index() == b.index(), "two ways to the body of a class");
    zsym::check(c.name().index() == c.name_def().name_index(), "two ways to the name of a class");
    zsym::check(in_scope(c.parent_scope()), "the scope of a class");
    zsym::check(c.name_def().maybe_name_of_class().is_some_and(|x| x.index() == c.index()), "the class of a name");
    docstring(c.docstring(), b);
    let parens = match c.closing_and_opening_parentheses() {
        None => "-".to_string(),
        Some(r) => {
            let code = &c.as_code()[(r.start - c.start()) as usize..(r.end - c.start()) as usize];
            zsym::check(code.starts_with('(') && code.ends_with(')'), "the parentheses of a class");
            let behind = c.as_code()[(r.end - c.start()) as usize..].trim_start();
            zsym::check(behind.starts_with(':'), "a colon is behind the parentheses of a class");
            let before = c.as_code()[..(r.start - c.start()) as usize].trim_end();
            zsym::check(before.ends_with(if t.is_some() { "]" } else { c.name().as_str() }), "what is before the parentheses of a class");
            "()".to_string()
        }
    };
    own(CLASS, c.index(), || {
        let name = def(c.name_def());
        scope(1, c.index(), || {
            format!("(class {name} {} {parens} {} {})", type_params(t), opt(a.map(|a| list(a.iter().map(arg)))), block(b))
        })
    })
}

/// a docstring is a string that is the first statement
fn docstring(d: Option<Strings>, b: Block) {
    let first = b.iter_stmt_likes().next().and_then(|s| match s.node {
        StmtLikeContent::StarExpressions(e) => Some(own(0, 0, || star_exprs_plain(e))).flatten(),
        _ => None,
    });
    zsym::check(d.map(strs) == first, "the docstring is a string that is the first statement");
}

fn star_exprs_plain(e: StarExpressions) -> Option<String> {
    let StarExpressionContent::Expression(e) = e.unpack() else {
        return None;
    };
    let ExpressionContent::ExpressionPart(ExpressionPart::Atom(a)) = e.unpack() else {
        return None;
    };
    match a.unpack() {
        AtomContent::Strings(s) => Some(strs(s)),
        _ => None,
    }
}

pub fn block(b: Block) -> String {
    list(b.iter_stmt_likes().map(|s| stmt(s.node)))
}

fn dotted(d: DottedImportName) -> String {
    match d.unpack() {
        DottedImportNameContent::Name(n) => n.as_str().into(),
        DottedImportNameContent::DottedName(d, n) => format!("{}.{}", dotted(d), n.as_str()),
    }
}

fn decorated(d: Decorated) -> String {
    let decs: Vec<u32> = d.decorators().iter().map(|d| d.index()).collect();
    let mut rev: Vec<u32> = d.decorators().iter_reverse().map(|d| d.index()).collect();
    rev.reverse();
    zsym::check(decs == rev, "decorators in reverse order");
    let x = match d.decoratee() {
        Decoratee::ClassDef(c) => {
            zsym::check(c.maybe_decorated().is_some_and(|x| x.index() == d.index()), "the decorators of a class");
            class(c)
        }
        Decoratee::FunctionDef(f) => {
            zsym::check(matches!(f.parent(), FunctionParent::Decorated(x) if x.index() == d.index()), "the decorators of a function");
            zsym::check(!f.parent().is_async() && f.maybe_decorated().is_some(), "a decorated function");
            func(f)
        }
        Decoratee::AsyncFunctionDef(f) => {
            zsym::check(matches!(f.parent(), FunctionParent::DecoratedAsync(x) if x.index() == d.index()), "the decorators of a function");
            zsym::check(f.parent().is_async() && f.maybe_decorated().is_some(), "a decorated async function");
            format!("(async {})", func(f))
        }
    };
    format!("(@ {} {x})", list(d.decorators().iter().map(|d| named(d.named_expression()))))
}

fn with(w: WithStmt, is_async: bool) -> String {
    let (items, b) = w.unpack();
    format!("(with {} {})", list(items.iter().map(|i| {
        zsym::check(i.in_async_with_stmt() == is_async, "whether a context manager is asynchronous");
        let (e, t) = i.unpack();
        format!("({} {})", expr(e), opt(t.map(|t| own(WITH, i.index(), || target(t)))))
    })), block(b))
}

fn for_(f: ForStmt) -> String {
    let (t, e, b, el) = f.unpack();
    format!("(for {} {} {} {})", own(FOR, f.index(), || target(t.as_target())), star_exprs(e), block(b), opt(el.map(|e| block(e.block()))))
}

fn except(e: ExceptExpression) -> String {
    match e.unpack() {
        ExceptExpressionContent::WithNameDef(e, n) => format!("(as {} {})", expr(e), def(n)),
        ExceptExpressionContent::Expressions(e) => list(e.iter().map(expr)),
    }
}

fn del(d: DelTargets) -> String {
    list(d.iter().map(|d| match d {
        DelTarget::Target(t) => target(t),
        DelTarget::DelTargets(d) => del(d),
    }))
}

fn right(r: AssignmentRightSide) -> String {
    match r {
        AssignmentRightSide::YieldExpr(y) => yields(y),
        AssignmentRightSide::StarExpressions(s) => star_exprs(s),
    }
}

pub fn stmt(s: StmtLikeContent) -> String {
    use StmtLikeContent::*;
    match s {
        Assignment(a) => own(ASSIGN, a.index(), || {
            let r = a.right_side();
            let (x, rr, annot) = match a.unpack() {
                AssignmentContent::Normal(t, r) => (format!("(= {} {})", list(t.map(target)), right(r)), Some(r.index()), None),
                AssignmentContent::WithAnnotation(t, an, r) => {
                    let n = an.maybe_assignment_name().map(|n| n.index());
                    if let Target::Name(d) = &t {
                        zsym::check(n.is_none() || n == Some(d.index()), "the name of an annotation");
                    } else {
                        zsym::check(n.is_none(), "the name of an annotation");
                    }
                    (format!("(: {} {} {})", target(t), expr(an.expression()), opt(r.map(right))), r.map(|r| r.index()), Some(an.index()))
                }
                AssignmentContent::AugAssign(t, o, r) => {
                    let (inplace, i) = o.magic_methods();
                    zsym::check(i.operand == o.operand(), "two ways to the operator");
                    (format!("({}= {inplace} {} {} {} {})", i.operand, i.magic_method, i.reverse_magic_method, target(t), right(r)), Some(r.index()), None)
                }
            };
            zsym::check(r.map(|r| r.index()) == rr, "two ways to the right side of an assignment");
            zsym::check(a.maybe_annotation().map(|a| a.index()) == annot, "two ways to the annotation of an assignment");
            x
        }),
        StarExpressions(s) => star_exprs(s),
        ReturnStmt(r) => format!("(return {})", opt(r.star_expressions().map(star_exprs))),
        YieldExpr(y) => yields(y),
        RaiseStmt(r) => match r.unpack() {
            None => "(raise)".into(),
            Some((e, f)) => format!("(raise {} {})", expr(e), opt(f.map(expr))),
        },
        ImportFrom(i) => {
            let (l, d) = i.level_with_dotted_name();
            let t = match i.unpack_targets() {
                ImportFromTargets::Star(k) => k.as_str().to_string(),
                ImportFromTargets::Iterator(x) => list(x.map(|n| {
                    let (name, d) = n.unpack();
                    zsym::check(n.name_def().index() == d.index(), "two ways to the name of an import");
                    zsym::check(n.import_from().is_some_and(|x| x.index() == i.index()), "the import of a name");
                    zsym::check(matches!(d.maybe_import(), Some(NameImportParent::ImportFromAsName(x)) if x.index() == n.index()), "the import of a name");
                    let re = d.maybe_import().is_some_and(|i| i.is_stub_reexport());
                    own(FROM, n.index(), || format!("({} {}{})", name.as_str(), def(d), if re { "!" } else { "" }))
                })),
            };
            format!("(from {l} {} {t})", opt(d.map(dotted)))
        }
        ImportName(i) => format!("(import {})", list(i.iter_dotted_as_names().map(|d| {
            zsym::check(d.import().index() == i.index(), "the import of a module");
            own(IMPORT, i.index(), || def(d.name_def()));
            zsym::check(matches!(d.name_def().maybe_import(), Some(NameImportParent::DottedAsName(x)) if x.index() == d.index()), "the import of a name");
            let re = if d.name_def().maybe_import().is_some_and(|i| i.is_stub_reexport()) { "!" } else { "" };
            match d.unpack() {
                DottedAsNameContent::Simple(n, rest) => {
                    zsym::check(d.name_def().index() == n.index(), "two ways to the name of an import");
                    if let Some(r) = &rest {
                        let mut first = *r;
                        while let DottedImportNameContent::DottedName(d, _) = first.unpack() {
                            first = d;
                        }
                        zsym::check(first.maybe_part_of_import_name().is_some_and(|x| x.index() == n.index()), "the first name of an imported module");
                    }
                    match rest {
                        None => n.as_code().to_string(),
                        Some(r) => format!("{}.{}", n.as_code(), dotted(r)),
                    }
                }
                DottedAsNameContent::WithAs(m, n) => {
                    zsym::check(d.name_def().index() == n.index(), "two ways to the name of an import");
                    format!("(as {} {}{re})", dotted(m), n.as_code())
                }
            }
        }))),
        PassStmt(_) => "pass".into(),
        GlobalStmt(g) => format!("(global {})", list(g.iter_name_defs().map(|n| own(GLOBAL, g.index(), || def(n).to_string())))),
        NonlocalStmt(_) => "nonlocal".into(),
        AssertStmt(a) => {
            let (e, m) = a.unpack();
            format!("(assert {} {})", expr(e), opt(m.map(expr)))
        }
        BreakStmt(_) => "break".into(),
        ContinueStmt(_) => "continue".into(),
        DelStmt(d) => format!("(del {})", own(DEL, d.index(), || del(d.targets()))),
        TypeAlias(t) => {
            let (n, p, e) = t.unpack();
            zsym::check(t.name_def().index() == n.index(), "two ways to the name of a type alias");
            own(ALIAS, t.index(), || format!("(type {} {} {})", def(n), type_params(p), expr(e)))
        }
        FunctionDef(f) => {
            zsym::check(matches!(f.parent(), FunctionParent::Normal) && f.maybe_decorated().is_none(), "a plain function");
            func(f)
        }
        ClassDef(c) => {
            zsym::check(c.maybe_decorated().is_none(), "a plain class");
            class(c)
        }
        Decorated(d) => decorated(d),
        AsyncStmt(a) => format!("(async {})", match a.unpack() {
            AsyncStmtContent::FunctionDef(f) => {
                zsym::check(matches!(f.parent(), FunctionParent::Async) && f.maybe_decorated().is_none(), "an async function");
                func(f)
            }
            AsyncStmtContent::ForStmt(f) => for_(f),
            AsyncStmtContent::WithStmt(w) => with(w, true),
        }),
        IfStmt(i) => format!("(if {})", list(i.iter_blocks().map(|b| match b {
            IfBlockType::If(c, b) => format!("({} {})", named(c), block(b)),
            IfBlockType::Else(e) => format!("(else {})", block(e.block())),
        }))),
        WhileStmt(w) => {
            let (c, b, e) = w.unpack();
            format!("(while {} {} {})", named(c), block(b), opt(e.map(|e| block(e.block()))))
        }
        ForStmt(f) => for_(f),
        TryStmt(t) => format!("(try {})", list(t.iter_blocks().map(|b| match b {
            TryBlockType::Try(b) => format!("(try {})", block(b)),
            TryBlockType::Except(e) => {
                let (e, b) = e.unpack();
                format!("(except {} {})", opt(e.map(|e| own(TRY, t.index(), || except(e)))), block(b))
            }
            TryBlockType::ExceptStar(e) => {
                let (e, b) = e.unpack();
                format!("(except* {} {})", own(TRY, t.index(), || except(e)), block(b))
            }
            TryBlockType::Else(e) => format!("(else {})", block(e.block())),
            TryBlockType::Finally(f) => format!("(finally {})", block(f.block())),
        }))),
        WithStmt(w) => with(w, false),
        MatchStmt(m) => {
            let (s, cases) = m.unpack();
            let s = match s.unpack() {
                SubjectExprContent::NamedExpression(n) => named(n),
                SubjectExprContent::Tuple(t) => format!("(tuple {})", list(t.map(star_like))),
            };
            format!("(match {s} {})", list(cases.map(|c| {
                let (p, g, b) = c.unpack();
                let p = own(MATCH, m.index(), || match p {
                    CasePattern::Pattern(p) => pattern(p),
                    CasePattern::OpenSequencePattern(s) => format!("(seq {})", seq(s.iter())),
                });
                format!("(case {p} {} {})", opt(g.map(|g| named(g.named_expr()))), block(b))
            })))
        }
        Error(e) => own(99, 0, || format!("(ERROR {})", list(e.iter_parts().map(error_part)))),
        BrokenScope(b) => format!("(BROKEN {})", list(b.iter_stmt_likes().map(|s| stmt(s.node)))),
        Newline => "newline".into(),
    }
}

fn error_part(p: UnpackedError) -> String {
    match p {
        UnpackedError::Block(b) => block(b),
        UnpackedError::ElseBlock(e) => block(e.block()),
        UnpackedError::ExceptBlock(e) => {
            let (e, b) = e.unpack();
            format!("(except {} {})", opt(e.map(except)), block(b))
        }
        UnpackedError::ExceptStarBlock(e) => {
            let (e, b) = e.unpack();
            format!("(except {} {})", except(e), block(b))
        }
        UnpackedError::CaseBlock(c) => {
            let (p, _, b) = c.unpack();
            let p = match p {
                CasePattern::Pattern(p) => pattern(p),
                CasePattern::OpenSequencePattern(s) => seq(s.iter()),
            };
            format!("(case {p} {})", block(b))
        }
        UnpackedError::SimpleStmt(s) => list(s.contained_name_defs().map(|d| {
            definer(d);
            d.as_code().to_string()
        })),
        UnpackedError::NonBlockErrorPart(s) => list(s.contained_name_defs().map(|d| {
            definer(d);
            d.as_code().to_string()
        })),
    }
}

/// what can be asked about any name
pub fn name(n: Name) -> u64 {
    let d = n.name_def();
    zsym::check(n.is_reference() == d.is_none(), "a name is defined or used");
    let _ = (n.parent(), n.parent_scope(), n.is_part_of_primary_ancestors(), n.maybe_atom_of_primary(), n.maybe_left_of_primary());
    zsym::check(matches!(n.simple_parent(), SimpleNameParent::NameDef(_)) == d.is_some(), "the parent of a name");
    let Some(d) = d else {
        return 0;
    };
    zsym::check(d.name().index() == n.index(), "the name of a definition");
    let (a, b) = d.definition_range();
    zsym::check(a <= n.start() && n.end() <= b, "a name is in the range of its definition");
    let (kind, _) = definer(d);
    let func = d.maybe_parent_function_of_param();
    zsym::check(func.is_none() || kind == FUNC, "the parameter of a function belongs to it");
    let _ = (d.parent(), d.expect_type(), d.maybe_import(), d.maybe_assignment_definition(), d.name_can_be_overwritten(), d.function_or_lambda_ancestor(), d.maybe_param_annotation(), n.maybe_annotated(), n.clean_docstring().len());
    zsym::check(d.maybe_name_of_func().is_some() == n.is_name_of_func(), "the name of a function");
    kind as u64
}

pub fn pattern(p: Pattern) -> String {
    let (k, d) = p.unpack();
    match d {
        None => kind(k),
        Some(d) => format!("(as {} {})", kind(k), def(d)),
    }
}

fn seq<'db>(i: impl Iterator<Item = SequencePatternItem<'db>>) -> String {
    list(i.map(|i| match i {
        SequencePatternItem::Entry(p) => pattern(p),
        SequencePatternItem::Rest(s) => match s.unpack() {
            StarPatternContent::NameDef(n) => format!("(*def {})", def(n)),
            StarPatternContent::WildcardPattern(_) => "(*_)".into(),
        },
    }))
}

fn dotted_pattern(d: DottedPatternName) -> String {
    let s = match d.unpack() {
        DottedPatternNameContent::Name(n) => n.as_str().into(),
        DottedPatternNameContent::DottedName(d, n) => format!("{}.{}", dotted_pattern(d), n.as_str()),
    };
    zsym::check(s.split('.').next() == Some(d.first_name().as_str()), "the first name of a dotted name");
    s
}

fn literal(l: LiteralPattern) -> String {
    match l.unpack() {
        LiteralPatternContent::Strings(s) => strs(s),
        LiteralPatternContent::Bytes(b) => format!("(bytes {})", b.as_code()),
        LiteralPatternContent::SignedNumber(s) => {
            let (n, neg) = s.number_and_is_negated();
            let n = match n {
                UnpackedNumber::Int(i) => format!("int {}", i.as_code()),
                UnpackedNumber::Float(i) => format!("float {}", i.as_code()),
                UnpackedNumber::Complex(i) => format!("complex {}", i.as_code()),
            };
            format!("({n}{})", if neg { " neg" } else { "" })
        }
        LiteralPatternContent::ComplexNumber(c) => format!("(complex-number {})", c.as_code()),
        LiteralPatternContent::None => "None".into(),
        LiteralPatternContent::Bool(b) => format!("(bool {b})"),
    }
}

fn kind(k: PatternKind) -> String {
    match k {
        PatternKind::NameDef(n) => format!("(def {})", def(n)),
        PatternKind::WildcardPattern(_) => "_".into(),
        PatternKind::DottedName(d) => format!("(dotted {})", dotted_pattern(d)),
        PatternKind::ClassPattern(c) => {
            let (d, p) = c.unpack();
            format!("(class {} {})", dotted_pattern(d), list(p.map(|p| match p {
                ParamPattern::Positional(p) => pattern(p),
                ParamPattern::Keyword(k) => {
                    let (n, p) = k.unpack();
                    format!("({}= {})", n.as_str(), pattern(p))
                }
            })))
        }
        PatternKind::LiteralPattern(l) => literal(l),
        PatternKind::GroupPattern(g) => format!("(paren {})", pattern(g.inner())),
        PatternKind::OrPattern(o) => format!("(| {})", list(o.iter().map(kind))),
        PatternKind::SequencePattern(s) => format!("(seq {})", seq(s.iter())),
        PatternKind::MappingPattern(m) => format!("(map {})", list(m.iter().map(|i| match i {
            MappingPatternItem::Entry(e) => {
                let (k, p) = e.unpack();
                let k = match k {
                    KeyEntryInPattern::LiteralPattern(l) => literal(l),
                    KeyEntryInPattern::DottedName(d) => format!("(dotted {})", dotted_pattern(d)),
                };
                format!("({k} : {})", pattern(p))
            }
            MappingPatternItem::Rest(d) => format!("(** {})", def(d.name_def())),
        }))),
    }
}

pub fn file(t: &Tree) -> String {
    list(t.root().iter_stmt_likes().map(|s| stmt(s.node)))
}
