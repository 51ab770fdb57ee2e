//! Token templates. `?` is a hole; NL, IND and DED are line structure.
pub const ALPHA: &[&str] = &[
    // (the first 16 are the alphabet of the second hole in the quick tier)
    "", "a", ",", ":", "=", "*", "(", ")", ".", "if", "for", "in", "**", ":=", "1", "not",
    "'s'", "b''", "_", "[", "]", "{", "}", ";", "/", "->", "@", "+", "~", "==", "+=", "...", "is", "and", "else", "lambda", "await", "yield", "async", "as", "from", "import", "def", "class", "return", "pass", "None", "match", "type", "with", "|",
];

pub const TEMPLATES: &[&str] = &[
    "? ? NL",
    "a ? b ? c NL",
    "a = ? b ? NL",
    "x = a ? b if ? c else d NL",
    "f ( a ? ? ) NL",
    "f ( ? a = 1 ? ) NL",
    "f ( a = 1 , ? b ? ) NL",
    "f ( * a ? b ? ) NL",
    "f ( ** a ? b ? ) NL",
    "def f ( a ? b ? ) : pass NL",
    "def f ( ? a ? ) : pass NL",
    "def f ( a = 1 , ? b ? ) : pass NL",
    "def f ( a , / ? b ? ) : pass NL",
    "def f ( * ? a ? ) : pass NL",
    "def f ( * , a ? ? b ) : pass NL",
    "def f ( * a : ? b ? ) : pass NL",
    "def f ( a , * b , c ? ? d ) : pass NL",
    "def f ( a ) ? b ? pass NL",
    "lambda ? a ? : b NL",
    "lambda a , ? b ? : c NL",
    "lambda * a ? ? : c NL",
    "[ a ? b ? ] NL",
    "{ a ? b ? } NL",
    "{ a : b ? c ? d } NL",
    "{ ** a ? b ? } NL",
    "( a ? b ? ) NL",
    "( ? ? ) NL",
    "a [ ? ? ] NL",
    "a [ b ? c ? ] NL",
    "a [ b : ? c ? ] = d NL",
    "[ a for b ? c ? ] NL",
    "[ a for b in c ? ? d ] NL",
    "( a for b , ? in c if ? d ) NL",
    "{ a : b for c ? d ? } NL",
    "f ( a for b in c ? ? ) NL",
    "import a ? b ? NL",
    "import a . b ? c ? NL",
    "from ? import ? NL",
    "from . ? a import b ? NL",
    "from a . ? b import ( c ? ) NL",
    "from . a import ( b ? c ? ) NL",
    "from a import b ? c ? NL",
    "if a ? : b ? NL",
    "if a : NL IND b NL DED ? ? : c NL",
    "if a : NL IND b NL DED elif ? : c NL ? : d NL",
    "if a : NL IND ? b NL ? c NL DED",
    "try : a NL ? ? : b NL",
    "try : a NL except ? ? : b NL finally : c NL",
    "try : a NL except a ? b ? : c NL",
    "try : a NL except * ? ? : b NL else : c NL",
    "try : a NL except : b NL ? : c NL ? : d NL",
    "for a ? in b ? : c NL",
    "for ? a in ? b : pass NL",
    "async ? a ? : pass NL",
    "with a ? b ? : c NL",
    "with ( a ? b ? ) : c NL",
    "with ( a as ? b ? ) : c NL",
    "with a as ? b ? : c NL",
    "while a ? : b NL else ? c NL",
    "class A ? a ? : pass NL",
    "class A ( ? a ? ) : pass NL",
    "class A [ ? a ? ] : pass NL",
    "def f [ a ? b ? ] ( ) : pass NL",
    "type a ? b ? NL",
    "type ? ? b NL",
    "match a ? : NL IND case ? : pass NL DED",
    "match ? ? : NL IND case a : pass NL DED",
    "match ? ? NL",
    "match a : NL IND case a ? b ? : pass NL DED",
    "match a : NL IND case [ a ? b ? ] : pass NL DED",
    "match a : NL IND case { 's' ? a ? } : pass NL DED",
    "match a : NL IND case { 's' : a , ? b ? } : pass NL DED",
    "match a : NL IND case a ( b ? c ? ) : pass NL DED",
    "match a : NL IND case a . b ( ? c ? ) : pass NL DED",
    "match a : NL IND case ( a ? b ? ) : pass NL DED",
    "match a : NL IND case ? 1 ? : pass NL DED",
    "match a : NL IND ? a : b NL case ? : pass NL DED",
    "return ? a ? NL",
    "raise a ? b ? NL",
    "del a ? b ? NL",
    "del ( a ? b ? ) NL",
    "assert a ? b ? NL",
    "global a ? b ? NL",
    "nonlocal ? a ? NL",
    "@ a ? NL ? f ( ) : pass NL",
    "@ a NL ? f ? : pass NL",
    "a : ? b ? NL",
    "a . b ? c ? NL",
    "( a ) ? b ? c NL",
    "* a ? b ? c NL",
    "a , b ? c = ? d NL",
    "a . b ( c ) ? d = ? e NL",
    "[ a , * b ? ] = ? c NL",
    "yield ? a ? NL",
    "x = yield ? a ? NL",
    "await ? a ? NL",
    "f ( a ) ? b ? NL",
    "a ; ? ; ? NL",
    "if a : ? ; ? NL b NL",
    "not ? a ? b NL",
    "a ? not ? b NL",
    "match a : NL IND case a ( b ? c = ? ) : pass NL DED",
    "match a : NL IND case a ( b = c ? d ? ) : pass NL DED",
    "match a : NL IND case * a ? b ? : pass NL DED",
    "match a : NL IND case ** a ? b ? : pass NL DED",
    "match a : NL IND case { ** a ? b ? } : pass NL DED",
    "match a : NL IND case { a . b ? c ? } : pass NL DED",
    "match a : NL IND case a as ? b ? : pass NL DED",
    "match a : NL IND case a if ? b ? : pass NL DED",
    "match * a ? b ? : NL IND case a : pass NL DED",
    "match a , ? b ? : NL IND case a : pass NL DED",
    "[ * a ? b ? ] NL",
    "( * a ? b ? ) NL",
    "{ * a ? b ? } NL",
    "x = * a ? b ? NL",
    "return * a ? b ? NL",
    "a [ * b ? c ? ] NL",
    "a [ b : c : ? ? ] NL",
    "a [ b , ? : c ? ] NL",
    "for a in * b ? c ? : pass NL",
    "f ( a := ? b ? ) NL",
    "f ( a = b ? c ? d ) NL",
    "f ( ** a , * ? b ? ) NL",
    "def f ( a : b ? c ? ) : pass NL",
    "def f ( ** a ? ? ) : pass NL",
    "def f ( a , ? / ? b ) : pass NL",
    "def f ( a = 1 ? b = 2 ? ) : pass NL",
    "def f [ * a ? b ? ] ( ) : pass NL",
    "def f [ ** a ? b ? ] ( ) : pass NL",
    "def f [ a : b ? c ? ] ( ) : pass NL",
    "class A [ a ? b ] ( c ? ) : pass NL",
    "type a [ b ? c ] = ? d NL",
    "lambda a = 1 ? b ? : c NL",
    "lambda * ? a ? b : c NL",
    "lambda ** a ? b ? : c NL",
    "lambda a , / ? b ? : c NL",
    "async def f ( ) : NL IND async ? a ? b : pass NL DED",
    "async def f ( ) : NL IND ? a ? NL DED",
    "[ a async ? b in c ? ] NL",
    "[ a if ? for b in c ? d ] NL",
    "a = b = ? c ? NL",
    "a += ? b ? NL",
    "a : b = ? c ? NL",
    "( a . b ) ? c ? NL",
    "a [ b ] ? c ? d NL",
    "del a [ b ] ? c . d ? NL",
    "del [ a ? b ? ] NL",
    "with a as b . c ? d ? : pass NL",
    "with a , ? b ? : pass NL",
    "with ( a , b ) ? c ? : pass NL",
    "for a . b ? c in d ? : pass NL",
    "for ( a ? b ) ? c in d : pass NL",
    "try : a NL except ( a ? b ) as ? : c NL",
    "try : NL IND a NL DED ? NL IND b NL DED ? : c NL",
    "raise a from ? b ? NL",
    "import a as ? b ? NL",
    "from a import * ? ? NL",
    "from ... ? import a ? NL",
    "@ a ( b ) ? c ? NL def f ( ) : pass NL",
    "@ a NL @ ? b NL ? f : pass NL",
    "if a : b NL else : ? c ? NL",
    "while a : NL IND ? NL DED ? : NL IND c NL DED",
    "class A : NL IND def f ( ) : NL IND a NL DED ? b ? NL DED c NL",
    "if a : NL IND if b : NL IND c NL DED ? : d NL DED ? : e NL",
    "a if b else ? c ? d NL",
    "a + b ? c ? d NL",
    "- a ? - b ? c NL",
    "a < ? b ? c NL",
    "{ a : ? b ? } NL",
    "{ a : b , ** ? c ? } NL",
    "'s' ? 's' ? a NL",
];

/// what is filled into the holes of PLACES
pub const PHRASES: &[&str] = &[
    // (the first 10 are those of the second hole in the quick tier)
    "a", "a , b", "* a", "a := b", "a if b else c", "lambda : a", "a or b", "yield a", "a . b", "( a , b )",
    "1", "'s' 's'", "** a", "a = b", "a : b", "lambda a , b : c", "not a", "a < b", "a not in b", "a | b", "- a", "a ** b", "await a", "yield", "yield from a", "a for b in c", "( yield )", "[ a ]", "{ a }",
    "a ( b )", "a [ b ]", "a as b", "* a , b", "a , * b ,", "* a | b", "* a or b", "* not a", "( a )", "( a . b )", "( * a , )", "[ a , b ]", "a ( b ) . c", "a ,", "...", "None", "a [ b : c , * d ]", "( a := b )", "( a for b in c )", "- 1", "1 + 2",
];

/// templates with two holes for phrases
pub const PLACES: &[&str] = &[
    "? = ? NL",
    "? : ? NL",
    "? += ? NL",
    "? : a = ? NL",
    "a = ? = ? NL",
    "( ? ) = ? NL",
    "* ? , ? = a NL",
    "x = * ? , ? NL",
    "return ? ; ? NL",
    "del ? ; ? NL",
    "del ( ? ) , [ ? ] NL",
    "assert ? , ? NL",
    "raise ? from ? NL",
    "raise ? ; f ( ? ) NL",
    "for ? in ? : pass NL",
    "async for ? in ? : pass NL",
    "[ ? for ? in c ] NL",
    "[ a for b in ? if ? ] NL",
    "( ? async for a in ? ) NL",
    "{ ? : ? for b in c } NL",
    "{ ? for b in c for d in ? } NL",
    "f ( ? for b in c if ? ) NL",
    "{ ? : ? } NL",
    "{ ** ? , ** ? } NL",
    "{ ? , ? } NL",
    "( ? , ? ) NL",
    "( ? ) ; [ ? ] NL",
    "[ ? , ? ] NL",
    "f ( ? , ? ) NL",
    "f ( a = ? , * ? ) NL",
    "f ( ** ? , a = ? ) NL",
    "f ( * ? ) ( ? ) NL",
    "a [ ? ] [ ? ] NL",
    "a [ ? : ? ] NL",
    "a [ ? , ? ] NL",
    "a [ b : c : ? ] = ? NL",
    "if ? : pass NL elif ? : pass NL",
    "if a := ? : ? NL",
    "while ? : x = ? NL",
    "with ? : ? NL",
    "with ? as ? : pass NL",
    "with ( ? as ? ) : pass NL",
    "with ( ? , ? ) : pass NL",
    "with ? , ? : pass NL",
    "async with ? as b , ? : pass NL",
    "try : pass NL except ? : ? NL",
    "try : ? NL except ? as e : pass NL",
    "try : pass NL except * ? : ? NL",
    "match ? : NL IND case a if ? : pass NL DED",
    "match a : NL IND case ? | ? : pass NL DED",
    "match a : NL IND case [ ? , ? ] : pass NL DED",
    "match a : NL IND case a ( ? , b = ? ) : pass NL DED",
    "match a : NL IND case { ? : ? } : pass NL DED",
    "match a : NL IND case ( ? ) as ? : pass NL DED",
    "match a : NL IND case ? , ? : pass NL DED",
    "match a : NL IND case a . b ( c = ? ) if ? : pass NL DED",
    "def f ( a : ? = ? ) : pass NL",
    "def f ( * a : ? ) -> ? : pass NL",
    "def f ( ** a : ? ) : ? NL",
    "def f ( ? , ? ) : pass NL",
    "lambda a = ? : ? NL",
    "lambda ? : ? NL",
    "class A ( ? , b = ? ) : pass NL",
    "@ ? NL def f ( ) : ? NL",
    "type A = ? ; ? NL",
    "type A [ B : ? ] = ? NL",
    "def f [ A : ? = ? ] ( ) : pass NL",
    "def f [ * A = ? ] ( a = ? ) : pass NL",
    "class A [ ** B = ? ] ( ? ) : pass NL",
    "? if ? else a NL",
    "a if b else ? ; ? NL",
    "not ? ; ? NL",
    "a or ? and ? NL",
    "a < ? < ? NL",
    "a + ? | ? NL",
    "- ? ** ? NL",
    "await ? ; ? NL",
    "yield ? ; x = yield ? NL",
    "yield from ? ; ? NL",
    "global ? ; nonlocal ? NL",
    "import ? ; import ? NL",
    "from ? import ? NL",
    "from a import ? ; from . import ( ? ) NL",
    "( a := ? ) [ ? ] NL",
    "? . a ; ? . b = 1 NL",
    "? ( a ) ; ? [ b ] += 1 NL",
];

/// (text, the tokens as the reference sees them; None: not even tokens)
pub fn render(t: &str, mut hole: impl FnMut() -> &'static str) -> (String, Option<Vec<&'static str>>) {
    let mut text = String::new();
    let mut toks: Vec<&'static str> = vec![];
    let mut depth: Vec<u8> = vec![];
    let mut ok = true;
    let mut indent = 0usize;
    let mut stack = vec![0usize];
    let mut line_start = true;
    // the last line with a token has no NEWLINE yet
    let mut open_line = false;
    for w in t.split(' ') {
        let w: &str = match w {
            "NL" => {
                text.push('\n');
                line_start = true;
                if depth.is_empty() && open_line {
                    toks.push("NEWLINE");
                    open_line = false;
                }
                continue;
            }
            "IND" => {
                indent += 1;
                continue;
            }
            "DED" => {
                indent -= 1;
                continue;
            }
            "?" => hole(),
            _ => intern(w),
        };
        if w.is_empty() {
            continue;
        }
        if line_start {
            for _ in 0..indent {
                text.push(' ');
            }
            if depth.is_empty() && !open_line {
                if indent > *stack.last().unwrap() {
                    stack.push(indent);
                    toks.push("INDENT");
                }
                while indent < *stack.last().unwrap() {
                    stack.pop();
                    toks.push("DEDENT");
                }
                ok &= indent == *stack.last().unwrap();
            }
            line_start = false;
        } else {
            text.push(' ');
        }
        open_line = true;
        text.push_str(w);
        match w {
            "(" | "[" | "{" => depth.push(w.as_bytes()[0]),
            ")" | "]" | "}" => {
                let o = match w {
                    ")" => b'(',
                    "]" => b'[',
                    _ => b'{',
                };
                ok &= depth.pop() == Some(o);
            }
            _ => (),
        }
        toks.push(intern(w));
    }
    ok &= depth.is_empty() && !open_line;
    for _ in 1..stack.len() {
        toks.push("DEDENT");
    }
    toks.push("ENDMARKER");
    (text, ok.then_some(toks))
}

fn intern(w: &str) -> &'static str {
    // templates and alphabet are static
    unsafe { std::mem::transmute::<&str, &'static str>(w) }
}
