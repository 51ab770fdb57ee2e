//! The file system that the code of local_fs.rs sees: files, directories and
//! symbolic links in memory instead of the calls to the operating system.
use std::cell::UnsafeCell;
use std::ffi::OsString;
use std::io::{Error, ErrorKind, Result};
use std::path::{Path, PathBuf};

#[derive(Clone)]
pub enum Node {
    Dir,
    File(String),
    Link(String),
}

struct Nodes(UnsafeCell<Vec<(String, Node)>>);
unsafe impl Sync for Nodes {}
static NODES: Nodes = Nodes(UnsafeCell::new(Vec::new()));

#[allow(clippy::mut_from_ref)]
pub fn nodes() -> &'static mut Vec<(String, Node)> {
    unsafe { &mut *NODES.0.get() }
}
pub fn reset() {
    nodes().clear();
}
pub fn get(path: &str) -> Option<&'static Node> {
    nodes().iter().find(|n| n.0 == path).map(|n| &n.1)
}
pub fn put(path: &str, n: Node) {
    remove(path);
    nodes().push((path.to_string(), n));
}
/// removes a file or a directory with everything in it
pub fn remove(path: &str) {
    let inside = format!("{path}/");
    nodes().retain(|n| n.0 != path && !n.0.starts_with(&inside));
}

fn not_found() -> Error {
    Error::from(ErrorKind::NotFound)
}

/// the path without symbolic links (of its last component only if `last`)
pub fn resolve(path: &str, last: bool) -> Result<String> {
    let mut todo: Vec<String> = path.split('/').rev().map(|s| s.to_string()).collect();
    let mut done = String::new();
    let mut links = 0;
    while let Some(c) = todo.pop() {
        if c.is_empty() || c == "." {
            continue;
        }
        if c == ".." {
            let n = done.rfind('/').unwrap_or(0);
            done.truncate(n);
            continue;
        }
        let next = format!("{done}/{c}");
        match get(&next) {
            None => return Err(not_found()),
            Some(Node::Link(to)) if last || todo.iter().any(|t| !t.is_empty()) => {
                links += 1;
                if links > 8 {
                    return Err(Error::from(ErrorKind::Other));
                }
                if to.starts_with('/') {
                    done = String::new();
                }
                todo.extend(to.split('/').rev().map(|s| s.to_string()));
            }
            Some(n) => {
                if !matches!(n, Node::Dir) && todo.iter().any(|t| !t.is_empty()) {
                    return Err(not_found());
                }
                done = next;
            }
        }
    }
    Ok(done)
}

fn node(path: &Path, last: bool) -> Result<(String, Node)> {
    let p = resolve(path.to_str().unwrap(), last)?;
    if p.is_empty() {
        return Ok((p, Node::Dir));
    }
    let n = get(&p).ok_or_else(not_found)?.clone();
    Ok((p, n))
}

pub struct FileType(u8);
impl FileType {
    pub fn is_dir(&self) -> bool {
        self.0 == 0
    }
    pub fn is_file(&self) -> bool {
        self.0 == 1
    }
    pub fn is_symlink(&self) -> bool {
        self.0 == 2
    }
}
fn kind(n: &Node) -> u8 {
    match n {
        Node::Dir => 0,
        Node::File(_) => 1,
        Node::Link(_) => 2,
    }
}
pub struct Metadata(u8);
impl Metadata {
    pub fn file_type(&self) -> FileType {
        FileType(self.0)
    }
    pub fn is_dir(&self) -> bool {
        self.0 == 0
    }
    pub fn is_file(&self) -> bool {
        self.0 == 1
    }
    pub fn is_symlink(&self) -> bool {
        self.0 == 2
    }
}
pub struct DirEntry {
    path: String,
    kind: u8,
}
impl DirEntry {
    pub fn path(&self) -> PathBuf {
        PathBuf::from(&self.path)
    }
    pub fn file_name(&self) -> OsString {
        OsString::from(&self.path[self.path.rfind('/').unwrap() + 1..])
    }
    pub fn file_type(&self) -> Result<FileType> {
        Ok(FileType(self.kind))
    }
    pub fn metadata(&self) -> Result<Metadata> {
        Ok(Metadata(self.kind))
    }
}
pub fn metadata<P: AsRef<Path>>(p: P) -> Result<Metadata> {
    Ok(Metadata(kind(&node(p.as_ref(), true)?.1)))
}
pub fn symlink_metadata<P: AsRef<Path>>(p: P) -> Result<Metadata> {
    Ok(Metadata(kind(&node(p.as_ref(), false)?.1)))
}
pub fn exists<P: AsRef<Path>>(p: P) -> Result<bool> {
    Ok(node(p.as_ref(), true).is_ok())
}
pub fn read_link<P: AsRef<Path>>(p: P) -> Result<PathBuf> {
    match node(p.as_ref(), false)?.1 {
        Node::Link(to) => Ok(PathBuf::from(to)),
        _ => Err(Error::from(ErrorKind::InvalidInput)),
    }
}
pub fn canonicalize<P: AsRef<Path>>(p: P) -> Result<PathBuf> {
    node(p.as_ref(), true).map(|n| PathBuf::from(n.0))
}
pub fn read_to_string<P: AsRef<Path>>(p: P) -> Result<String> {
    match node(p.as_ref(), true)?.1 {
        Node::File(s) => Ok(s),
        _ => Err(Error::from(ErrorKind::Other)),
    }
}
pub fn read<P: AsRef<Path>>(p: P) -> Result<Vec<u8>> {
    read_to_string(p).map(|s| s.into_bytes())
}
pub fn read_dir<P: AsRef<Path>>(p: P) -> Result<std::vec::IntoIter<Result<DirEntry>>> {
    let (real, n) = node(p.as_ref(), true)?;
    if !matches!(n, Node::Dir) {
        return Err(Error::from(ErrorKind::Other));
    }
    let given = p.as_ref().to_str().unwrap();
    let inside = format!("{real}/");
    let mut v = vec![];
    for (path, n) in nodes().iter() {
        if let Some(rest) = path.strip_prefix(&inside)
            && !rest.contains('/')
        {
            v.push(Ok(DirEntry { path: format!("{given}/{rest}"), kind: kind(n) }));
        }
    }
    Ok(v.into_iter())
}

/// stands for the crate same-file
pub mod same_file {
    #[derive(PartialEq, Eq, Debug)]
    pub struct Handle(String);
    impl Handle {
        pub fn from_path<P: AsRef<std::path::Path>>(p: P) -> std::io::Result<Handle> {
            super::node(p.as_ref(), true).map(|n| Handle(n.0))
        }
    }
    pub fn is_same_file<P: AsRef<std::path::Path>, Q: AsRef<std::path::Path>>(p: P, q: Q) -> std::io::Result<bool> {
        Ok(Handle::from_path(p)? == Handle::from_path(q)?)
    }
}
