//! Histories: files are opened, edited and closed in the editor, change on
//! disk, and depend on each other.
use crate::memfs::{self, Node};
use crate::ws::{F, Fs, fs, log, path, read};
use crate::*;

const PATHS: [&str; 5] = ["/w/a.py", "/w/b.py", "/w/d/c.py", "/w/d/e/f.py", "/w/s/g.py"];
const DIRS: [&str; 3] = ["/w/d", "/w/d/e", "/w/s"];

#[derive(Clone, Copy, PartialEq)]
struct Edge {
    /// the file that was analysed
    from: FileIndex,
    at: usize,
    /// the path it looked at
    to: usize,
    /// the part of this path that was looked up last
    via: &'static str,
}

/// which checks count: 1 for texts, 2 for dependencies
static MODE: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(3);
fn text_check(c: bool, m: &'static str) {
    if MODE.load(std::sync::atomic::Ordering::Relaxed) & 1 != 0 {
        zsym::check(c, m)
    }
}
fn dep_check(c: bool, m: &'static str) {
    if MODE.load(std::sync::atomic::Ordering::Relaxed) & 2 != 0 {
        zsym::check(c, m)
    }
}

struct World {
    vfs: Vfs<F>,
    n: usize,
    mem: [Option<String>; 5],
    edges: Vec<Edge>,
    /// all edges that ever were
    ever: Vec<Edge>,
    db: bool,
    nested: bool,
    /// everything depends on the first file
    all: bool,
}

fn disk(p: usize) -> Option<String> {
    match memfs::get(PATHS[p]) {
        Some(Node::File(s)) => Some(s.clone()),
        _ => None,
    }
}

fn text() -> String {
    if zsym::param(9) == 0 {
        zsym::ascii(1, b"12")
    } else {
        let n = zsym::split(zsym::range(0, 2) as u64) as usize;
        zsym::ascii(n, b"1 \n")
    }
}

fn split_dir(p: &str) -> (&str, &str) {
    let i = p.rfind('/').unwrap();
    (&p[..i], &p[i + 1..])
}

impl World {
    /// the first `k` files might be missing, for k > n also a directory
    fn new(n: usize, nested: bool, k: usize) -> World {
        memfs::reset();
        memfs::put("/w", Node::Dir);
        // the root of a workspace exists, see the entry h_wsroot
        let no_dir = k > n && !nested && zsym::split(zsym::range(0, 1) as u64) == 1;
        for d in DIRS {
            if !(no_dir && d.starts_with("/w/d")) {
                memfs::put(d, Node::Dir);
            }
        }
        for (i, p) in PATHS[..n].iter().enumerate() {
            if no_dir && p.starts_with("/w/d") || i < k && zsym::split(zsym::range(0, 1) as u64) == 1 {
                continue;
            }
            memfs::put(p, Node::File("1".into()));
        }
        let h = fs();
        let mut b = WorkspacesBuilder::new(&h);
        b.add(h.normalize_unchecked_abs_path("/w"), WorkspaceKind::TypeChecking);
        if nested {
            b.add(h.normalize_unchecked_abs_path("/w/d"), WorkspaceKind::SitePackages);
        }
        b.add(h.normalize_unchecked_abs_path(""), WorkspaceKind::Fallback);
        let vfs = Vfs::new(Box::new(fs()), b.into());
        World { vfs, n, mem: Default::default(), edges: vec![], ever: vec![], db: false, nested, all: false }
    }

    fn visible(&self, p: usize) -> Option<String> {
        self.mem[p].clone().or_else(|| disk(p))
    }

    fn open(&mut self, p: usize, text: &str) {
        let f = path(&*self.vfs.handler, PATHS[p]);
        let (i, r) = self.vfs.store_in_memory_file(true, f.clone(), text.into(), |i, _, code| F { code, index: i.0 });
        text_check(i.is_some(), "a file in memory has an index");
        text_check(self.vfs.in_memory_file(&f) == i, "an open file is known");
        self.db |= r == InvalidationResult::InvalidatedDb;
        self.mem[p] = Some(text.into());
    }

    fn close(&mut self, p: usize) {
        let f = path(&*self.vfs.handler, PATHS[p]);
        let r = self.vfs.close_in_memory_file(true, &f, |_, i, code| F { code, index: i.0 });
        text_check(r.is_ok() == self.mem[p].is_some(), "exactly the open files can be closed");
        text_check(self.vfs.in_memory_file(&f).is_none(), "a closed file is not open");
        if let Ok(r) = r {
            self.db |= r == InvalidationResult::InvalidatedDb;
        }
        self.mem[p] = None;
    }

    fn event(&mut self, p: &str) {
        let p = self.vfs.handler.unchecked_abs_path(p);
        let r = self.vfs.invalidate_path(true, &p);
        self.db |= r == InvalidationResult::InvalidatedDb;
    }

    /// a file is analysed and looks for another one
    fn import(&mut self, x: usize, y: usize) {
        let Some((from, _)) = read(&self.vfs, PATHS[x]) else {
            return;
        };
        let mut via = PATHS[y];
        if let Some(DirOrFile::File(e)) = self.vfs.search_path(true, &path(&*self.vfs.handler, via)) {
            self.vfs.ensure_file_index(&e);
            e.add_invalidation(from);
        } else {
            // the first part of the path that is missing
            loop {
                let (dir, name) = split_dir(via);
                if dir == "/w" {
                    let loaded = self.vfs.workspaces.load();
                    let mut missing = loaded.iter().next().unwrap().entries.add_missing_entry_callback(from);
                    missing(name);
                    break;
                }
                if let Some(DirOrFile::Dir(d)) = self.vfs.search_path(true, &path(&*self.vfs.handler, dir)) {
                    let mut missing = Directory::entries(&self.vfs, &d).add_missing_entry_callback(from);
                    missing(name);
                    break;
                }
                via = dir;
            }
        }
        let e = Edge { from, at: x, to: y, via };
        if !self.edges.contains(&e) {
            self.edges.push(e);
        }
        if !self.ever.contains(&e) {
            self.ever.push(e);
        }
    }

    /// the check after an operation that changed what is visible at some paths
    fn changed(&mut self, before: &[Option<String>], touched: &str) {
        let now: Vec<Option<String>> = (0..self.n).map(|p| self.visible(p)).collect();
        // paths whose analysis is out of date
        let mut stale: Vec<bool> = (0..self.n).map(|p| before[p] != now[p]).collect();
        let dir = format!("{touched}/");
        let mut maybe: Vec<bool> = (0..self.n).map(|p| PATHS[p] == touched || PATHS[p].starts_with(&dir)).collect();
        let any = stale.contains(&true);
        let maybe_first = maybe.clone();
        loop {
            let mut more = false;
            for e in &self.edges {
                if stale[e.to] && !stale[e.at] {
                    stale[e.at] = true;
                    more = true;
                }
            }
            if !more {
                break;
            }
        }
        loop {
            let mut more = false;
            for e in &self.ever {
                let touches = touched.strip_prefix(e.via).is_some_and(|r| r.is_empty() || r.starts_with('/'));
                if (maybe[e.to] || touches) && !maybe[e.at] {
                    maybe[e.at] = true;
                    more = true;
                }
            }
            if !more {
                break;
            }
        }
        let (inv, told) = log();
        for e in &self.edges {
            if stale[e.to] && before[e.at] == now[e.at] {
                let ok = inv.iter().any(|i| i.0 == e.from.0) || self.vfs.file(e.from).is_none();
                dep_check(ok || self.db, "a file that depends on a changed file is invalidated");
                if self.mem[e.at].is_some() {
                    let t = told.iter().any(|t| t == PATHS[e.at]);
                    dep_check(t || self.db, "the editor is told about an invalidated open file");
                }
            }
        }
        for p in 0..self.n {
            if !maybe[p] {
                for e in &self.ever {
                    if e.at == p {
                        dep_check(!inv.iter().any(|i| i.0 == e.from.0), "a file that depends on nothing changed stays valid");
                    }
                }
            }
        }
        if any {
            zsym::cover(0);
        }
        for (_, cause) in inv.iter() {
            if let Some(i) = cause {
                let cause = self.vfs.file_path(FileIndex(*i)).path().to_string();
                dep_check((0..self.n).any(|p| maybe_first[p] && PATHS[p] == cause), "files are told which file changed");
            }
        }
        // an invalidated file is analysed anew
        self.edges.retain(|e| !stale[e.at] && !inv.iter().any(|i| i.0 == e.from.0));
        if self.db {
            for p in 0..self.n {
                if self.mem[p].is_some() {
                    dep_check(told.iter().any(|t| t == PATHS[p]), "the editor is told about all open files when the database is invalidated");
                }
            }
        }
        inv.clear();
        told.clear();
        let needed = self.all && before[0] != now[0];
        dep_check(!needed || self.db, "a change of a file that everything depends on invalidates the database");
        // touching the file may have the same effect
        dep_check(!self.db || (self.all && maybe[0]), "the database is invalidated only for files that everything depends on");
    }

    fn step(&mut self, ops: u8) {
        let before: Vec<Option<String>> = (0..self.n).map(|p| self.visible(p)).collect();
        let op = zsym::split(zsym::range(0, ops - 1) as u64) as usize;
        let pick = |n: usize| zsym::split(zsym::range(0, n as u8 - 1) as u64) as usize;
        let mut touched = "";
        match op {
            0 => {
                let p = pick(self.n);
                // an editor opens a file in a directory that exists
                let t = text();
                touched = PATHS[p];
                self.open(p, &t);
            }
            1 => {
                let p = pick(self.n);
                touched = PATHS[p];
                self.close(p);
            }
            2 => {
                // written on disk
                let p = pick(self.n);
                let t = text();
                zsym::assume(matches!(memfs::get(split_dir(PATHS[p]).0), Some(Node::Dir)));
                memfs::put(PATHS[p], Node::File(t));
                touched = PATHS[p];
                self.event(PATHS[p]);
            }
            3 => {
                let p = pick(self.n);
                zsym::assume(memfs::get(PATHS[p]).is_some());
                memfs::remove(PATHS[p]);
                touched = PATHS[p];
                self.event(PATHS[p]);
            }
            4 => {
                let x = pick(self.n);
                let y = pick(self.n);
                zsym::assume(x != y);
                self.import(x, y);
            }
            5 => {
                // a directory is removed
                let d = DIRS[pick(if self.n > 3 { 2 } else { 1 })];
                zsym::assume(memfs::get(d).is_some());
                // see the entry h_wsroot
                zsym::assume(!(self.nested && d == "/w/d"));
                memfs::remove(d);
                touched = d;
                self.event(d);
            }
            6 => {
                // a directory comes back with files in it
                let d = DIRS[pick(if self.n > 3 { 2 } else { 1 })];
                zsym::assume(memfs::get(d).is_none() && matches!(memfs::get(split_dir(d).0), Some(Node::Dir)));
                memfs::put(d, Node::Dir);
                for p in &PATHS[..self.n] {
                    if split_dir(p).0 == d {
                        memfs::put(p, Node::File("2".into()));
                    }
                }
                touched = d;
                self.event(d);
            }
            _ => {
                let p = pick(self.n);
                self.look(p);
            }
        }
        self.changed(&before, touched);
    }

    fn look(&self, p: usize) {
        let got = read(&self.vfs, PATHS[p]).map(|x| x.1);
        text_check(got == self.visible(p), "the text of a file is the one of the editor, or else the one on disk");
        if got.is_none() {
            let found = self.vfs.search_path(true, &path(&*self.vfs.handler, PATHS[p]));
            text_check(found.is_none(), "a file that is neither open nor on disk is not found");
        }
    }

    fn finish(&self) {
        for p in 0..self.n {
            self.look(p);
        }
        let mut open: Vec<String> = self.vfs.in_memory_file_ids().map(|i| self.vfs.file_path(i).path().to_string()).collect();
        open.sort();
        let mut expect: Vec<String> = (0..self.n).filter(|p| self.mem[*p].is_some()).map(|p| PATHS[p].to_string()).collect();
        expect.sort();
        text_check(open == expect, "the open files");
        for i in self.vfs.in_memory_file_ids() {
            let p = PATHS.iter().position(|p| *p == self.vfs.file_path(i).path().to_string()).unwrap();
            text_check(self.vfs.file(i).map(|f| f.code.to_string()) == self.mem[p], "the text of an open file");
            text_check(self.vfs.file_entry(i).get_file_index() == Some(i), "the entry of an open file");
        }
    }
}

fn start(n: usize, nested: bool) -> World {
    let mut w = World::new(n, nested, 0);
    // warm up
    w.import(0, 1);
    w.open(0, "2");
    w.close(0);
    zsym::begin();
    let mut w = World::new(n, nested, zsym::param(7) as usize);
    let (inv, told) = log();
    inv.clear();
    told.clear();
    if zsym::param(6) == 1 {
        let Some(DirOrFile::File(e)) = w.vfs.search_path(true, &path(&*w.vfs.handler, PATHS[0])) else {
            return w;
        };
        w.vfs.ensure_file_for_file_entry(e, true, |i, code| F { code, index: i.0 });
        w.all = true;
    }
    // some files are open
    for p in 0..zsym::param(8) as usize {
        if zsym::split(zsym::range(0, 1) as u64) == 1 {
            let before: Vec<Option<String>> = (0..w.n).map(|p| w.visible(p)).collect();
            w.open(p, "1");
            w.changed(&before, PATHS[p]);
        }
    }
    // the first analysis: some files depend on each other
    let k = zsym::param(4) as usize;
    for i in 0..k {
        if zsym::split(zsym::range(0, 1) as u64) == 1 {
            w.import((i + 1) % n, i % n);
        }
    }
    w
}

/// n0 files, n1 steps, n2 kinds of steps, n3: the directory is a workspace of its own, n4: initial imports
fn history(mode: u8) {
    MODE.store(mode, std::sync::atomic::Ordering::Relaxed);
    let mut w = start(zsym::param(0) as usize, zsym::param(3) == 1);
    for _ in 0..zsym::param(1) {
        w.step(zsym::param(2) as u8);
        if w.db {
            // everything is read anew
            zsym::cover(1);
            return;
        }
    }
    w.finish();
    for p in 0..w.n {
        zsym::out(w.visible(p).is_some() as u64);
    }
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_hist() {
    history(1)
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_dep() {
    history(2)
}

/// the same, and then the server recovers from a panic
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_panic() {
    let mut w = start(zsym::param(0) as usize, zsym::param(3) == 1);
    for _ in 0..zsym::param(1) {
        w.step(zsym::param(2) as u8);
        if w.db {
            return;
        }
    }
    let World { vfs, n, mem, all, .. } = w;
    let rec = vfs.into_panic_recovery();
    let (inv, told) = log();
    for p in 0..n {
        zsym::check(told.iter().any(|t| t == PATHS[p]) == mem[p].is_some(), "the editor is told about all open files after a panic");
    }
    inv.clear();
    told.clear();
    let h = fs();
    let mut b = WorkspacesBuilder::new(&h);
    b.add(h.normalize_unchecked_abs_path("/w"), WorkspaceKind::TypeChecking);
    if zsym::param(3) == 1 {
        b.add(h.normalize_unchecked_abs_path("/w/d"), WorkspaceKind::SitePackages);
    }
    b.add(h.normalize_unchecked_abs_path(""), WorkspaceKind::Fallback);
    let mut vfs = Vfs::new(Box::new(fs()), b.into());
    vfs.load_panic_recovery(true, rec, |i, _, code| F { code, index: i.0 });
    let mut w = World { vfs, n, mem, edges: vec![], ever: vec![], db: false, nested: zsym::param(3) == 1, all };
    w.finish();
    // and goes on
    for _ in 0..zsym::param(5) {
        w.step(zsym::param(2) as u8);
        if w.db {
            return;
        }
    }
    w.finish();
    zsym::out(w.vfs.in_memory_file_ids().count() as u64);
}

/// a file is opened and closed in a directory that does not exist, then the directory appears
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ghost() {
    let mut w = start(3, false);
    memfs::remove("/w/d");
    w.event("/w/d");
    let t = text();
    w.open(2, &t);
    w.close(2);
    memfs::put("/w/d", Node::Dir);
    memfs::put(PATHS[2], Node::File("2".into()));
    w.event("/w/d");
    let got = read(&w.vfs, PATHS[2]).map(|x| x.1);
    zsym::check(got == w.visible(2), "the text of a file in a directory that appears after a file in it was closed");
}

/// changes on disk that are reported late: when all events have arrived, everything is right
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_late() {
    let mut w = start(zsym::param(0) as usize, zsym::param(3) == 1);
    let mut events: Vec<&str> = vec![];
    // the texts a file has had
    let mut texts: Vec<Vec<String>> = (0..w.n).map(|p| w.visible(p).into_iter().collect()).collect();
    let pick = |n: usize| zsym::split(zsym::range(0, n as u8 - 1) as u64) as usize;
    for _ in 0..zsym::param(1) {
        match pick(zsym::param(2) as usize) {
            0 => {
                let p = pick(w.n);
                let t = text();
                texts[p].push(t.clone());
                w.open(p, &t);
            }
            1 => {
                let p = pick(w.n);
                w.close(p);
            }
            2 => {
                let p = pick(w.n);
                let t = text();
                zsym::assume(matches!(memfs::get(split_dir(PATHS[p]).0), Some(Node::Dir)));
                texts[p].push(t.clone());
                memfs::put(PATHS[p], Node::File(t));
                events.push(PATHS[p]);
            }
            3 => {
                let p = pick(w.n);
                zsym::assume(memfs::get(PATHS[p]).is_some());
                memfs::remove(PATHS[p]);
                events.push(PATHS[p]);
            }
            4 => {
                let p = pick(w.n);
                let got = read(&w.vfs, PATHS[p]);
                if let Some((_, got)) = &got {
                    zsym::check(texts[p].contains(got), "the text of a file is one that the file has had");
                    if let Some(open) = &w.mem[p] {
                        zsym::check(got == open, "the text of an open file is the one of the editor");
                    }
                }
                zsym::out(got.is_some() as u64);
            }
            _ => {
                // the oldest event arrives
                zsym::assume(!events.is_empty());
                let e = events.remove(0);
                w.event(e);
            }
        }
    }
    for e in events {
        w.event(e);
    }
    w.finish();
}

/// the root of a workspace is removed and comes back
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_wsroot() {
    let mut w = start(3, true);
    zsym::out(read(&w.vfs, PATHS[2]).is_some() as u64);
    memfs::remove(PATHS[2]);
    w.event(PATHS[2]);
    memfs::remove("/w/d");
    w.event("/w/d");
    memfs::put("/w/d", Node::Dir);
    memfs::put(PATHS[2], Node::File(zsym::ascii(1, b"12")));
    w.event("/w/d");
    let got = read(&w.vfs, PATHS[2]).map(|x| x.1);
    zsym::check(got == w.visible(2), "the text of a file in the root of a workspace that was removed and came back");
}

/// a package is looked for where there is a file or nothing of this name, and then it comes
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_namesake() {
    let mut w = start(3, false);
    let pick = |n: usize| zsym::split(zsym::range(0, n as u8 - 1) as u64) as usize;
    memfs::remove("/w/d");
    let file = pick(2) == 1;
    if file {
        memfs::put("/w/d", Node::File("x".into()));
    }
    w.event("/w/d");
    let (inv, _) = log();
    inv.clear();
    // who looks for it, and who else is there
    let x = pick(2);
    let Some((from, _)) = read(&w.vfs, PATHS[x]) else {
        return;
    };
    let Some((other, _)) = read(&w.vfs, PATHS[1 - x]) else {
        return;
    };
    {
        let loaded = w.vfs.workspaces.load();
        let mut missing = loaded.iter().next().unwrap().entries.add_missing_entry_callback(from);
        missing("d");
    }
    if pick(2) == 1 {
        // another event in between
        w.event("/w/s");
    }
    if file {
        memfs::remove("/w/d");
        w.event("/w/d");
    }
    memfs::put("/w/d", Node::Dir);
    memfs::put(PATHS[2], Node::File(zsym::ascii(1, b"12")));
    w.event("/w/d");
    zsym::check(inv.iter().any(|i| i.0 == from.0), "a file that looked for a package is invalidated when it comes");
    zsym::check(!inv.iter().any(|i| i.0 == other.0), "a file that looked for nothing stays valid");
    let got = read(&w.vfs, PATHS[2]).map(|x| x.1);
    zsym::check(got == w.visible(2), "the text of a file in a package that comes");
}
