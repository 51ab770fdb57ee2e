//! The verdicts of the reference grammar (python.gram) for every template and
//! every pair of tokens, and the templates as text with a slot for each token.
#[allow(dead_code)]
#[path = "src/peg.rs"]
mod peg;
#[allow(dead_code)]
#[path = "src/tmpl.rs"]
mod tmpl;
use std::fmt::Write;

const SLOT: &str = "@@@@@@";

fn main() {
    println!("cargo:rerun-if-changed=src/peg.rs");
    println!("cargo:rerun-if-changed=src/tmpl.rs");
    println!("cargo:rerun-if-changed=src/python.gram");
    let out = std::env::var("OUT_DIR").unwrap();
    let g = peg::Peg::new(include_str!("src/python.gram"));
    let n = tmpl::ALPHA.len();
    let mut want = vec![];
    let mut rs = String::from("pub const SLOTS: &[(&str, usize, usize)] = &[\n");
    for t in tmpl::TEMPLATES {
        assert_eq!(t.split(' ').filter(|w| *w == "?").count(), 2, "{t}");
        let (text, _) = tmpl::render(t, || SLOT);
        let at: Vec<usize> = text.match_indices(SLOT).map(|x| x.0).collect();
        writeln!(rs, "({:?}, {}, {}),", text, at[0], at[1]).unwrap();
        for i in 0..n {
            for j in 0..n {
                let mut k = 0;
                let (_, toks) = tmpl::render(t, || {
                    k += 1;
                    tmpl::ALPHA[if k == 1 { i } else { j }]
                });
                let ok = toks.is_some_and(|t| g.accepts(&t.iter().map(|s| g.tok(s)).collect::<Vec<_>>()));
                want.push(ok as u8);
            }
        }
    }
    rs.push_str("];\n");
    writeln!(rs, "pub static PAD: [[u8; {n}]; 6] = [").unwrap();
    for k in 0..6 {
        let row: Vec<u8> = tmpl::ALPHA.iter().map(|t| t.bytes().nth(k).unwrap_or(b' ')).collect();
        writeln!(rs, "{row:?},").unwrap();
    }
    rs.push_str("];\n");
    assert!(tmpl::ALPHA.iter().all(|t| t.len() <= 6));
    // the same for phrases
    let width = tmpl::PHRASES.iter().map(|p| p.len()).max().unwrap();
    let slot = "@".repeat(width);
    let n = tmpl::PHRASES.len();
    let mut want2 = vec![];
    rs.push_str("pub const PLACES: &[(&str, usize, usize)] = &[\n");
    for t in tmpl::PLACES {
        assert_eq!(t.split(' ').filter(|w| *w == "?").count(), 2, "{t}");
        let s: &'static str = Box::leak(slot.clone().into_boxed_str());
        let (text, _) = tmpl::render(t, || s);
        let at: Vec<usize> = text.match_indices(s).map(|x| x.0).collect();
        writeln!(rs, "({:?}, {}, {}),", text, at[0], at[1]).unwrap();
        for a in tmpl::PHRASES {
            for b in tmpl::PHRASES {
                let filled = t.replacen('?', a, 1).replacen('?', b, 1);
                let (_, toks) = tmpl::render(&filled, || unreachable!());
                let ok = toks.is_some_and(|t| g.accepts(&t.iter().map(|s| g.tok(s)).collect::<Vec<_>>()));
                want2.push(ok as u8);
            }
        }
    }
    rs.push_str("];\n");
    writeln!(rs, "pub const WIDTH: usize = {width};\npub static PHRASE: [[u8; {n}]; {width}] = [").unwrap();
    for k in 0..width {
        let row: Vec<u8> = tmpl::PHRASES.iter().map(|t| t.bytes().nth(k).unwrap_or(b' ')).collect();
        writeln!(rs, "{row:?},").unwrap();
    }
    rs.push_str("];\n");
    std::fs::write(format!("{out}/want2.bin"), want2).unwrap();
    std::fs::write(format!("{out}/slots.rs"), rs).unwrap();
    std::fs::write(format!("{out}/want.bin"), want).unwrap();
}
