//! Line structure: which lines belong to which block.
pub const KINDS: &[&str] = &[
    "a", "if a:", "else:", "# c", // 4
    "", "if a: b", "(a,\n  b)", "a + \\\n  b", "'''x\n   y'''", "def f():", "try:", "except:", "finally: a", "@a", "class C: a", "(", ")", "a; b",
];

/// text; tokens of the reference; for each line with code: (byte offset, depth)
pub fn build(lines: &[(usize, &'static str)], unit: &str, nl: &str) -> (String, Option<Vec<&'static str>>, Vec<(usize, usize)>) {
    let mut text = String::new();
    let mut toks = vec![];
    let mut stack = vec![0usize];
    let mut depth = 0i32;
    let mut ok = true;
    let mut at = vec![];
    for &(ind, kind) in lines {
        for _ in 0..ind {
            text.push_str(unit);
        }
        if !kind.is_empty() && !kind.starts_with('#') {
            if depth == 0 {
                if ind > *stack.last().unwrap() {
                    stack.push(ind);
                    toks.push("INDENT");
                }
                while ind < *stack.last().unwrap() {
                    stack.pop();
                    toks.push("DEDENT");
                }
                ok &= ind == *stack.last().unwrap();
                at.push((text.len(), stack.len() - 1));
            }
            let words: &[&str] = match kind {
                "a" => &["a"],
                "if a:" => &["if", "a", ":"],
                "else:" => &["else", ":"],
                "if a: b" => &["if", "a", ":", "b"],
                "(a,\n  b)" => &["(", "a", ",", "b", ")"],
                "a + \\\n  b" => &["a", "+", "b"],
                "'''x\n   y'''" => &["'s'"],
                "def f():" => &["def", "f", "(", ")", ":"],
                "try:" => &["try", ":"],
                "except:" => &["except", ":"],
                "finally: a" => &["finally", ":", "a"],
                "@a" => &["@", "a"],
                "class C: a" => &["class", "C", ":", "a"],
                "(" => &["("],
                ")" => &[")"],
                "a; b" => &["a", ";", "b"],
                _ => unreachable!(),
            };
            for w in words {
                toks.push(*w);
                match *w {
                    "(" => depth += 1,
                    ")" => {
                        depth -= 1;
                        ok &= depth >= 0;
                        depth = depth.max(0);
                    }
                    _ => (),
                }
            }
            if depth == 0 {
                toks.push("NEWLINE");
            }
        }
        for (i, l) in kind.split('\n').enumerate() {
            if i > 0 {
                text.push_str(nl);
            }
            text.push_str(l);
        }
        text.push_str(nl);
    }
    ok &= depth == 0;
    for _ in 1..stack.len() {
        toks.push("DEDENT");
    }
    toks.push("ENDMARKER");
    (text, ok.then_some(toks), at)
}
