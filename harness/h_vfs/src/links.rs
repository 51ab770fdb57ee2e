//! Directories and symbolic links on disk.
use crate::memfs::{self, Node};
use crate::ws::{F, fs, path};
use crate::*;

const TARGETS: [&str; 12] = [".", "..", "/w/a", "b", "../a/b", "/w", "/w/f.py", "../f.py", "/w/k", "k", "/w/a/l", "nope"];
const NAMES: [&str; 6] = ["x.py", ".x", "__pycache__", "node_modules", "site-packages", "x"];

/// what the entries of a directory have to be: its children that are not ignored,
/// links replaced by what they lead to, without broken links and cycles
fn expected(dir: &str) -> Vec<(String, bool)> {
    let mut v = vec![];
    let real = memfs::resolve(dir, true).unwrap();
    let inside = format!("{real}/");
    for (p, n) in memfs::nodes().iter() {
        let Some(name) = p.strip_prefix(&inside) else {
            continue;
        };
        if name.contains('/') || name.starts_with('.') || ["__pycache__", "node_modules", "site-packages"].contains(&name) {
            continue;
        }
        let full = format!("{dir}/{name}");
        match n {
            Node::Dir => v.push((name.to_string(), true)),
            Node::File(_) => v.push((name.to_string(), false)),
            Node::Link(_) => {
                let Ok(to) = memfs::resolve(&full, true) else {
                    continue;
                };
                if to.is_empty() || matches!(memfs::get(&to), Some(Node::Dir)) {
                    // a directory that is already around it is not entered again
                    let mut cycle = false;
                    let mut up = dir;
                    while let Some(i) = up.rfind('/') {
                        cycle |= memfs::resolve(up, true).is_ok_and(|u| u == to);
                        up = &up[..i];
                    }
                    if !cycle && !to.is_empty() {
                        v.push((name.to_string(), true));
                    }
                } else {
                    v.push((name.to_string(), false));
                }
            }
        }
    }
    v.sort();
    v
}

fn walk(vfs: &Vfs<F>, entries: &Entries, dir: &str, depth: usize) {
    zsym::check(depth < 8, "walking through directories ends");
    let mut v: Vec<(String, bool)> = vec![];
    for (n, e) in entries.borrow().iter() {
        zsym::check(e.name() == &**n, "the name of an entry");
        match e {
            DirectoryEntry::File(_) => v.push((n.to_string(), false)),
            DirectoryEntry::Directory(_) => v.push((n.to_string(), true)),
            _ => zsym::check(false, "an entry on disk is a file or a directory"),
        }
    }
    v.sort();
    zsym::check(v == expected(dir), "the entries of a directory are what is on disk");
    for (n, e) in entries.borrow().iter() {
        let full = format!("{dir}/{n}");
        match e {
            DirectoryEntry::Directory(d) => {
                zsym::check(d.absolute_path(&*vfs.handler).path().to_string() == full, "the path of a directory");
                walk(vfs, Directory::entries(vfs, d), &full, depth + 1)
            }
            DirectoryEntry::File(f) => {
                zsym::check(f.absolute_path(&*vfs.handler).path().to_string() == full, "the path of a file");
            }
            _ => (),
        }
    }
}

/// two links anywhere that lead anywhere, and a file or directory of any name
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_links() {
    memfs::reset();
    for d in ["/w", "/w/a", "/w/a/b"] {
        memfs::put(d, Node::Dir);
    }
    memfs::put("/w/f.py", Node::File("1".into()));
    let h = fs();
    {
        let mut b = WorkspacesBuilder::new(&h);
        b.add(h.normalize_unchecked_abs_path("/w"), WorkspaceKind::TypeChecking);
        let v = Vfs::<F>::new(Box::new(fs()), b.into());
        v.search_path(true, &path(&h, "/w/a/b/c"));
    }
    zsym::begin();
    let pick = |n: usize| zsym::split(zsym::range(0, n as u8 - 1) as u64) as usize;
    let two = zsym::param(0) > 1;
    let l = ["/w/l", "/w/a/l", "/w/a/b/l", "/w/b"][pick(4)];
    memfs::put(l, Node::Link(TARGETS[pick(TARGETS.len())].into()));
    if two {
        let k = ["/w/k", "/w/a/k", "/w/a/b/k"][pick(3)];
        memfs::put(k, Node::Link(TARGETS[pick(TARGETS.len())].into()));
    } else {
        let n = format!("{}/{}", ["/w", "/w/a"][pick(2)], NAMES[pick(NAMES.len())]);
        let node = if pick(2) == 0 { Node::Dir } else { Node::File("1".into()) };
        memfs::put(&n, node);
    }
    let mut b = WorkspacesBuilder::new(&h);
    b.add(h.normalize_unchecked_abs_path("/w"), WorkspaceKind::TypeChecking);
    let vfs = Vfs::<F>::new(Box::new(fs()), b.into());
    let loaded = vfs.workspaces.load();
    walk(&vfs, &loaded.iter().next().unwrap().entries, "/w", 0);
    // the same entry when it is reported by an event
    let mut v = expected("/w");
    v.retain(|x| x.0 == "l" || x.0 == "k");
    for name in ["l", "k"] {
        if memfs::get(&format!("/w/{name}")).is_none() {
            continue;
        }
        let w = vfs.workspaces.expect_last();
        let e = vfs.handler.read_and_watch_entry(&[], &format!("/w/{name}"), Parent::Workspace(Arc::downgrade(&w)), name);
        let got = match e {
            Some(DirectoryEntry::File(_)) => Some(false),
            Some(DirectoryEntry::Directory(_)) => Some(true),
            _ => None,
        };
        let expect = v.iter().find(|x| x.0 == name).map(|x| x.1);
        zsym::check(got == expect, "an entry that is reported by an event");
    }
    zsym::out(v.len() as u64);
}
