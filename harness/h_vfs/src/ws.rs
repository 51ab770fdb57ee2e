//! Workspaces: which one a path belongs to, and which files it shows.
use crate::lfs::LocalFS;
use crate::memfs::{self, Node};
use crate::*;
use std::cell::UnsafeCell;

/// what happened to files and which in-memory files the server was told about
pub struct Log(UnsafeCell<(Vec<(u32, Option<u32>)>, Vec<String>)>);
unsafe impl Sync for Log {}
pub static LOG: Log = Log(UnsafeCell::new((Vec::new(), Vec::new())));
#[allow(clippy::mut_from_ref)]
pub fn log() -> &'static mut (Vec<(u32, Option<u32>)>, Vec<String>) {
    unsafe { &mut *LOG.0.get() }
}

pub type Fs = LocalFS<fn(PathWithScheme)>;
pub fn told(p: PathWithScheme) {
    log().1.push(p.path().to_string())
}
pub fn fs() -> Fs {
    let mut fs = Fs::without_callback();
    fs.set_callback(told);
    fs
}

pub struct F {
    pub code: Box<str>,
    pub index: u32,
}
impl VfsFile for F {
    type Artifacts = Box<str>;
    fn code(&self) -> &str {
        &self.code
    }
    fn into_recoverable_artifacts(self) -> Box<str> {
        self.code
    }
    fn invalidate_references_to(&mut self, cause: Option<FileIndex>) {
        log().0.push((self.index, cause.map(|c| c.0)))
    }
}

pub fn path(fs: &dyn VfsHandler, p: &str) -> PathWithScheme {
    PathWithScheme::with_file_scheme(fs.normalize_unchecked_abs_path(p))
}

/// the text of a file as everybody sees it
pub fn read(vfs: &Vfs<F>, p: &str) -> Option<(FileIndex, String)> {
    let found = vfs.search_path(true, &path(&*vfs.handler, p))?;
    let DirOrFile::File(e) = found else {
        return None;
    };
    let i = vfs.ensure_file_for_file_entry(e, false, |i, code| F { code, index: i.0 })?;
    let f = vfs.file(i)?;
    Some((i, f.code.to_string()))
}

const ROOTS: [&str; 6] = ["/w", "/w/s", "/ws", "/w/s/t", "/W/x", "/z/w"];
const FILES: [&str; 13] = [
    "/w/a.py", "/w/s/a.py", "/ws/a.py", "/w/s/t/a.py", "/w/s/tt/a.py", "/w/x/a.py", "/ws/s/a.py", "/w/st.py", "/w/s/t/u/b.py", "/W/x/a.py", "/W/a.py", "/z/a.py", "/z/w/s/a.py",
];

fn dirs_of(p: &str) {
    for (i, c) in p.char_indices().skip(1) {
        if c == '/' && memfs::get(&p[..i]).is_none() {
            memfs::put(&p[..i], Node::Dir);
        }
    }
}

/// the file at a path below a directory, name by name
fn descend(vfs: &Vfs<F>, entries: &Entries, p: &str) -> Option<Arc<FileEntry>> {
    let (name, rest) = match p.split_once('/') {
        Some((n, r)) => (n, Some(r)),
        None => (p, None),
    };
    let found = entries.borrow().get(name)?.clone();
    match (found, rest) {
        (DirectoryEntry::File(f), None) => Some(f),
        (DirectoryEntry::Directory(d), Some(r)) => descend(vfs, Directory::entries(vfs, &d), r),
        _ => None,
    }
}

fn inside(root: &str, p: &str) -> bool {
    p.len() > root.len() && p.as_bytes()[root.len()] == b'/' && p[..root.len()] == *root
}

/// a path belongs to the innermost workspace around it, and there is one entry per path
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ws() {
    memfs::reset();
    let h = fs();
    for f in FILES {
        dirs_of(f);
        memfs::put(f, Node::File("1".into()));
    }
    {
        let mut b = WorkspacesBuilder::new(&h);
        b.add(h.normalize_unchecked_abs_path("/w"), WorkspaceKind::TypeChecking);
        let v = Vfs::<F>::new(Box::new(fs()), b.into());
        read(&v, "/w/a.py");
    }
    zsym::begin();
    let n = zsym::param(0) as usize;
    let late = zsym::param(1) as usize;
    let mut roots: Vec<&str> = vec![];
    let mut b = WorkspacesBuilder::new(&h);
    for _ in 0..n {
        let r = ROOTS[zsym::split(zsym::range(0, ROOTS.len() as u8 - 1) as u64) as usize];
        let added = b.add(h.normalize_unchecked_abs_path(r), WorkspaceKind::TypeChecking);
        zsym::check(added != roots.contains(&r), "a workspace is added once");
        if added {
            roots.push(r);
        }
    }
    let contained = |p: &str| roots.iter().any(|r| inside(r, p) || *r == p);
    for f in FILES {
        let q = h.normalize_unchecked_abs_path(f);
        zsym::check(b.path_is_contained_in_type_checking_folder(&q) == contained(f), "which paths are in a workspace");
    }
    b.add(h.normalize_unchecked_abs_path(""), WorkspaceKind::Fallback);
    let mut vfs = Vfs::<F>::new(Box::new(fs()), b.into());
    if zsym::param(2) == 1 {
        let p = FILES[zsym::split(zsym::range(0, FILES.len() as u8 - 1) as u64) as usize];
        zsym::out(read(&vfs, p).is_some() as u64);
    }
    for _ in 0..late {
        let r = ROOTS[zsym::split(zsym::range(0, ROOTS.len() as u8 - 1) as u64) as usize];
        if zsym::param(2) == 1 {
            // directories that were read already keep their entries
            zsym::assume(!roots.iter().any(|o| inside(o, r)));
        }
        let added = vfs.add_workspace_without_full_access(h.normalize_unchecked_abs_path(r), WorkspaceKind::SitePackages);
        zsym::check(added != roots.contains(&r), "a workspace is added once");
        if added {
            roots.push(r);
        }
    }
    let p = FILES[zsym::split(zsym::range(0, FILES.len() as u8 - 1) as u64) as usize];
    let mut best: Option<&str> = None;
    for r in &roots {
        if inside(r, p) && best.is_none_or(|b| b.len() < r.len()) {
            best = Some(r);
        }
    }
    let full = path(&h, p);
    let found = vfs.search_path(true, &full);
    zsym::check(found.is_some() == best.is_some(), "a file is found exactly if a workspace contains it");
    zsym::check(vfs.search_path(true, &path(&h, &format!("{p}x"))).is_none(), "a file that does not exist is not found");
    zsym::check(vfs.search_path(true, &PathWithScheme::new(Arc::new("x".into()), h.normalize_unchecked_abs_path(p))).is_none(), "a file of another scheme is not found");
    if let Some(DirOrFile::File(e)) = found {
        let root = best.unwrap();
        zsym::check(**e.absolute_path(&h).path() == **full.path(), "the path of an entry");
        zsym::check(e.parent.workspace().root_path().to_string() == root, "the innermost workspace is responsible for a path");
        zsym::check(e.relative_path(&h) == p[root.len() + 1..], "the path relative to the workspace");
        // the same entry is reached from every workspace around it
        for r in &roots {
            if inside(r, p) {
                let loaded = vfs.workspaces.load();
                let w = loaded.iter().find(|w| w.root_path().to_string() == *r).unwrap();
                zsym::check(descend(&vfs, &w.entries, &p[r.len() + 1..]).is_some_and(|o| Arc::ptr_eq(&o, &e)), "one entry per path");
            }
        }
        let i = vfs.ensure_file_index(&e);
        zsym::check(**vfs.file_path(i).path() == **full.path() && vfs.ensure_file_index(&e) == i, "the file of an entry");
        zsym::cover(0);
    } else {
        zsym::check(vfs.ensure_fallback(full.clone()).is_some(), "a file outside of all workspaces can be opened");
        let again = vfs.search_path(true, &full);
        zsym::check(matches!(again, Some(DirOrFile::File(e)) if &*e.name == p), "a file outside of all workspaces is found again");
        zsym::cover(1);
    }
    // with and without a file on disk, a file in memory is found where it belongs
    for q in [p.to_string(), format!("{p}i"), p.replace("a.py", "n/m/a.py")] {
        let full = path(&h, &q);
        let (i, _) = vfs.store_in_memory_file(true, full.clone(), "2".into(), |i, _, code| F { code, index: i.0 });
        let Some(i) = i else {
            zsym::check(false, "a file in memory has an index");
            return;
        };
        match read(&vfs, &q) {
            Some((j, code)) => zsym::check(i == j && code == "2", "a file in memory is found"),
            None => zsym::check(false, "a file in memory is found at its path"),
        }
        if let Some(root) = best {
            let e = vfs.file_entry(i);
            zsym::check(e.parent.workspace().root_path().to_string() == root, "a file in memory is in the innermost workspace");
            zsym::check(**e.absolute_path(&h).path() == **full.path(), "the path of a file in memory");
        }
        zsym::check(vfs.in_memory_file(&full) == Some(i), "a file in memory is known");
    }
    zsym::out(roots.len() as u64);
}

fn lower(s: &str) -> String {
    s.to_ascii_lowercase()
}

/// upper and lower case in the path of a workspace
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_case() {
    memfs::reset();
    let h = fs();
    for f in ["/w/S/a.py", "/w/a.py"] {
        dirs_of(f);
        memfs::put(f, Node::File("1".into()));
    }
    zsym::begin();
    let mut b = WorkspacesBuilder::new(&h);
    b.add(h.normalize_unchecked_abs_path("/w/S"), WorkspaceKind::TypeChecking);
    let vfs = Vfs::<F>::new(Box::new(fs()), b.into());
    let q = format!("/{}/{}/a.py", zsym::ascii(1, b"wW"), zsym::ascii(1, b"sSt"));
    let sensitive = zsym::split(zsym::range(0, 1) as u64) == 1;
    let expect = if sensitive { q == "/w/S/a.py" } else { lower(&q) == "/w/s/a.py" };
    zsym::check(vfs.search_path(sensitive, &path(&h, &q)).is_some() == expect, "case in the path of a workspace");
    zsym::out(expect as u64);
}
