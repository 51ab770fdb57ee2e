//! The concrete syntax tree as a data structure: losslessness, tiling,
//! navigation and position lookup.
use parsa_python::{NonterminalType, PyNode, PyNodeType, PyTree, TerminalType};
zsym::entries!(h_total, h_tile, h_nav, h_pos, dump);

fn warm() {
    std::hint::black_box(parsa_python::parse("x = f'{a:1}' 'a' b'' 1\n".into()));
    zsym::begin();
}

fn input() -> (String, PyTree) {
    let s = inputs::text();
    let t = parsa_python::parse(s.clone().into_boxed_str());
    (s, t)
}

/// what `parse` is documented to add so that the last line is terminated
fn expected(s: &str) -> String {
    let mut e = s.to_string();
    if !e.ends_with('\n') {
        e.push('\n');
    }
    if e.ends_with("\\\n") || e.ends_with("\\\r\n") {
        e.push('\n');
    }
    e
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_total() {
    warm();
    let (s, t) = input();
    zsym::check(t.as_code() == expected(&s), "the source text is not preserved");
    zsym::check(t.length() >= 2, "a tree has at least the file node and the end marker");
    let root = t.root_node();
    zsym::check(root.is_type(PyNodeType::Nonterminal(NonterminalType::file)), "the root is a file");
    zsym::check(root.iter_children().last().unwrap().is_type(PyNodeType::Terminal(TerminalType::Endmarker)), "the file ends with the end marker");
    zsym::out(t.length() as u64);
}

/// whitespace, comments and line continuations: the only text outside of leaves
fn only_trivia(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b' ' | b'\t' | b'\x0c' | b'\n' | b'\r' => i += 1,
            b'#' => {
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
            }
            b'\\' if i + 1 < b.len() && (b[i + 1] == b'\n' || b[i + 1] == b'\r') => i += 2,
            _ => return false,
        }
    }
    true
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_tile() {
    warm();
    let (_, t) = input();
    let code = t.as_code();
    let mut pos = 0usize;
    let mut n = 0u64;
    for leaf in t.nodes().filter(|n| n.is_leaf()) {
        let (s, e) = (leaf.start() as usize, leaf.end() as usize);
        zsym::check(s >= pos, "leaves overlap or are out of order");
        zsym::check(e <= code.len(), "a leaf ends behind the end of the source");
        zsym::check(code.is_char_boundary(s) && code.is_char_boundary(e), "a leaf does not start and end at character boundaries");
        zsym::check(only_trivia(&code.as_bytes()[pos..s]), "source text that is neither white space nor comment is in no leaf");
        zsym::check(leaf.as_code() == &code[s..e], "as_code is not the text of the range");
        pos = e;
        n += 1;
    }
    zsym::check(only_trivia(&code.as_bytes()[pos..]), "source text behind the last leaf");
    // every node spans exactly its leaves; children come in order, cover all nodes, and are nested
    let mut visited = 0;
    zsym::check(t.root_node().start() == 0 && t.root_node().end() as usize == code.len(), "the file does not span the whole source");
    visit(t.root_node(), &mut visited);
    zsym::check(visited as usize == t.length(), "walking the children does not reach every node once");
    zsym::out(n);
    zsym::out(visited as u64);
}

/// pre-order walk, returns (first leaf start, last leaf end)
fn visit(n: PyNode, next: &mut u32) -> (u32, u32) {
    zsym::check(n.index == *next, "children are not in pre-order");
    *next += 1;
    if n.is_leaf() {
        return (n.start(), n.end());
    }
    let mut first = None;
    let mut last = 0;
    for c in n.iter_children() {
        let (a, b) = visit(c, next);
        first = first.or(Some(a));
        last = b;
        zsym::check(n.start() <= c.start() && c.end() <= n.end(), "a child is not nested in its parent");
    }
    zsym::check(first.is_some(), "an inner node has no children");
    if n.index == 0 {
        return (first.unwrap(), last);
    }
    zsym::check(n.start() == first.unwrap() && n.end() == last, "an inner node does not span exactly its leaves");
    (first.unwrap(), last)
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_nav() {
    warm();
    let (_, t) = input();
    let code = t.as_code();
    let len = t.length();
    // reference structure from a plain walk over the children
    let mut parent = vec![u32::MAX; len];
    let mut last_leaf = vec![0u32; len];
    walk(t.root_node(), &mut parent, &mut last_leaf);
    let leaves: Vec<PyNode> = t.nodes().filter(|n| n.is_leaf()).collect();
    for (k, l) in leaves.iter().enumerate() {
        zsym::check(l.previous_leaf().map(|x| x.index) == (k > 0).then(|| leaves[k - 1].index), "previous_leaf is not the leaf before");
        zsym::check(l.next_leaf().map(|x| x.index) == leaves.get(k + 1).map(|x| x.index), "next_leaf is not the leaf after");
        let pe = if k > 0 { leaves[k - 1].end() } else { 0 };
        zsym::check(l.prefix_to_previous_leaf() == &code[pe as usize..l.start() as usize], "the prefix is not the text since the leaf before");
    }
    for n in t.nodes() {
        let i = n.index as usize;
        zsym::check(n.parent().map(|p| p.index) == (parent[i] != u32::MAX).then_some(parent[i]), "parent is not the node whose child this is");
        zsym::check(n.last_leaf_in_subtree().index == last_leaf[i], "last_leaf_in_subtree");
        zsym::check(t.node_by_index(n.index).start() == n.start(), "node_by_index");
        let mut prev: Option<PyNode> = None;
        for c in n.iter_children() {
            zsym::check(c.previous_sibling().map(|x| x.index) == prev.map(|x| x.index), "previous_sibling is not the sibling before");
            if let Some(p) = prev {
                zsym::check(p.next_sibling().map(|x| x.index) == Some(c.index), "next_sibling is not the sibling after");
            }
            prev = Some(c);
        }
        if let Some(p) = prev {
            zsym::check(p.next_sibling().is_none(), "the last child has a next sibling");
        }
    }
    // searching a subtree = filtering a plain walk over it
    for n in t.nodes().filter(|n| !n.is_leaf() && n.length() > 0) {
        for (types, avoid) in [(NAMES, true), (NAMES, false), (EXPRS, true), (EXPRS, false)] {
            let mut want = vec![];
            let mut skip_to = 0;
            for i in n.index..=last_leaf[n.index as usize] {
                let x = t.node_by_index(i);
                if i >= skip_to && types.iter().any(|&ty| x.is_type(ty)) {
                    want.push(i);
                    if avoid {
                        skip_to = last_leaf[i as usize] + 1;
                    }
                }
            }
            let got: Vec<u32> = n.search(types, avoid).map(|x| x.index).collect();
            zsym::check(got == want, "search does not find exactly the nodes of the given types");
            zsym::out(got.len() as u64);
        }
        let want = match leaves.iter().find(|l| l.index > last_leaf[n.index as usize]) {
            Some(l) => &code[n.end() as usize..l.start() as usize],
            None => "",
        };
        zsym::check(n.suffix() == want, "the suffix is not the text up to the next leaf");
    }
    zsym::out(len as u64);
}

static NAMES: &[PyNodeType] = &[PyNodeType::Terminal(TerminalType::Name)];
static EXPRS: &[PyNodeType] = &[
    PyNodeType::Nonterminal(NonterminalType::expression),
    PyNodeType::Nonterminal(NonterminalType::atom),
    PyNodeType::Nonterminal(NonterminalType::block),
];

fn walk(n: PyNode, parent: &mut [u32], last: &mut [u32]) -> u32 {
    let mut l = n.index;
    for c in n.iter_children() {
        parent[c.index as usize] = n.index;
        l = walk(c, parent, last);
    }
    last[n.index as usize] = l;
    l
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_pos() {
    warm();
    let (_, t) = input();
    let code = t.as_code();
    let leaves: Vec<PyNode> = t.nodes().filter(|n| n.is_leaf()).collect();
    for pos in 0..=code.len() as u32 + 1 {
        let got = t.leaf_by_position(pos);
        // the last leaf that starts at or before the position if it reaches the position, else the
        // leaf whose prefix the position is in (the last one behind the end)
        let k = leaves.iter().rposition(|l| l.start() <= pos);
        let want = match k {
            None => leaves[0],
            Some(k) if leaves[k].end() >= pos => leaves[k],
            Some(k) => *leaves.get(k + 1).unwrap_or(&leaves[k]),
        };
        zsym::check(got.index == want.index, "leaf_by_position returns another leaf than the one at the position");
        zsym::out(got.index as u64);
    }
}

/// prints the tree of the text on stdin (for people, not used by checks)
fn dump() {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let t = parsa_python::parse(s.into_boxed_str());
    fn p(n: PyNode, d: usize) {
        println!("{}{} {}..{} {:?} err={}", "  ".repeat(d), n.type_str(), n.start(), n.end(), n.as_code(), n.is_error_recovery_node());
        for c in n.iter_children() {
            p(c, d + 1);
        }
    }
    p(t.root_node(), 0);
}
