//! Paths: normalization, containment, relative paths, globs.
use crate::lfs::SimpleLocalFS;
use crate::*;

fn begin() -> SimpleLocalFS {
    let fs = SimpleLocalFS::without_watcher();
    for p in ["/a/./b/../c", "/a/b"] {
        let p = fs.normalize_rc_path(fs.unchecked_abs_path(p));
        std::hint::black_box(p);
    }
    zsym::begin();
    fs
}

/// the path as it is, also with a separator at its end
fn abs(fs: &SimpleLocalFS, p: &str) -> Arc<AbsPath> {
    fs.unchecked_abs_path_from_uri(p.into())
}

/// the components of a path, `.`, `..` and empty ones resolved
fn lexical(path: &str) -> Vec<&str> {
    let mut v: Vec<&str> = vec![];
    for c in path.split('/') {
        match c {
            "" | "." => (),
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v
}
fn text(parts: &[&str]) -> String {
    let mut s = String::new();
    for p in parts {
        s.push('/');
        s.push_str(p);
    }
    s
}
fn same(a: &str, b: &str) -> bool {
    // the root is "/" or ""
    a == b || (b.is_empty() && a == "/")
}

/// every absolute path has one normal form
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_norm() {
    let fs = begin();
    let n = zsym::split(zsym::range(0, zsym::param(0) as u8) as u64) as usize;
    let p = format!("/{}", zsym::ascii(n, b"/.ab"));
    let expect = text(&lexical(&p));
    let got = fs.normalize_unchecked_abs_path(&p);
    zsym::check(same(&got, &expect), "the normal form of a path");
    let q = abs(&fs, &p);
    let cow = fs.normalize_path(&q);
    zsym::check(same(&cow, &expect), "the normal form of a path that is not owned");
    let again = fs.normalize_path(&got);
    zsym::check(**again == **got, "a normal form is its own normal form");
    let s: Arc<str> = NormalizedPath::arc_to_str(got.clone());
    zsym::check(*s == ***got, "the text of a normal form");
    let a: Arc<AbsPath> = NormalizedPath::arc_to_abs_path(got.clone());
    zsym::check(**a == ***got, "the path of a normal form");
    zsym::out_str(&got);
}

/// paths that are relative to a directory
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_resolve() {
    let fs = begin();
    let dirs = ["/a", "/a/b", "/ab", "/a/.b"];
    let dir = dirs[zsym::split(zsym::range(0, 3) as u64) as usize];
    let n = zsym::split(zsym::range(1, zsym::param(0) as u8) as u64) as usize;
    let p = zsym::ascii(n, b"/.ab");
    let cur = fs.unchecked_abs_path(dir);
    let full = if p.as_bytes()[0] == b'/' { p.clone() } else { format!("{dir}/{p}") };
    let expect = text(&lexical(&full));
    let got = fs.normalize_rc_path(fs.absolute_path(&cur, &p));
    zsym::check(same(&got, &expect), "a path relative to a directory");
    // joining a name and taking it away again
    if !p.contains('/') && p != "." && p != ".." {
        let j = fs.join(&cur, &p);
        zsym::check(**j == *full, "a name in a directory");
        zsym::check(fs.parent_of_absolute_path(&j).is_some_and(|x| **x == *dir), "the parent of a path");
        zsym::check(fs.split_off_last_item(&j) == (Some(dir), &p), "the last item of a path");
    }
    zsym::out_str(&got);
}

fn parts(s: &str) -> Vec<&str> {
    s.split('/').filter(|c| !c.is_empty()).collect()
}

/// containment and relative paths
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_rel() {
    let fs = begin();
    let n = zsym::param(0) as usize;
    let m = zsym::param(1) as usize;
    let path = |n: usize| {
        let k = zsym::split(zsym::range(0, n as u8) as u64) as usize;
        let s = zsym::ascii(k, b"/ab.");
        // normal forms only
        let b = s.as_bytes();
        for part in s.split('/') {
            zsym::assume(part != "." && part != "..");
        }
        for i in 0..k {
            if b[i] == b'/' {
                zsym::assume(i > 0 && i + 1 < k && b[i - 1] != b'/');
            }
        }
        format!("/{s}")
    };
    let (a, b) = (path(n), path(m));
    let (x, y) = (abs(&fs, &a), abs(&fs, &b));
    let (pa, pb) = (parts(&a), parts(&b));
    let inside = pb.len() >= pa.len() && pb[..pa.len()] == pa[..];
    zsym::check(x.contains_sub_file(&y) == inside, "a directory contains exactly the paths below it");
    let rel = fs.path_relative_to(&y, Path::new(&*a));
    match rel {
        None => zsym::check(false, "a relative path"),
        Some(r) => {
            let back = text(&lexical(&format!("{a}/{r}")));
            zsym::check(back == text(&pb), "a relative path leads to its target");
            if inside {
                zsym::check(!r.split('/').any(|c| c == "..") && parts(&r).len() == pb.len() - pa.len(), "the relative path of a contained file");
            }
            zsym::out_str(&r);
        }
    }
    // splitting
    let (first, rest) = fs.split_off_first_item(&b[1..]);
    let joined = match rest {
        Some(r) => format!("{first}/{r}"),
        None => first.to_string(),
    };
    zsym::check(!first.contains('/') && joined == b[1..], "the first item of a path");
    let (start, last) = fs.split_off_last_item(&b);
    let joined = match start {
        Some(r) => format!("{r}/{last}"),
        None => last.to_string(),
    };
    zsym::check(!last.contains('/') && joined == b, "the last item of a path");
}

/// a pattern matches a name
fn glob_ref(p: &[u8], s: &[u8]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(b'*') if p.get(1) == Some(&b'*') => {
            // `**/` or a `**` at the end: any number of directories
            if p.len() == 2 {
                return true;
            }
            let rest = &p[3..];
            if glob_ref(rest, s) {
                return true;
            }
            (0..s.len()).any(|i| s[i] == b'/' && glob_ref(rest, &s[i + 1..]))
        }
        Some(b'*') => (0..=s.len()).any(|i| !s[..i].contains(&b'/') && glob_ref(&p[1..], &s[i..])),
        Some(b'?') => !s.is_empty() && s[0] != b'/' && glob_ref(&p[1..], &s[1..]),
        Some(b'[') => {
            let end = p.iter().position(|c| *c == b']').unwrap();
            let not = p[1] == b'!';
            let set = &p[1 + not as usize..end];
            !s.is_empty() && s[0] != b'/' && set.contains(&s[0]) != not && glob_ref(&p[end + 1..], &s[1..])
        }
        Some(c) => s.first() == Some(c) && glob_ref(&p[1..], &s[1..]),
    }
}

const PIECES: &[&str] = &["a", "B", "/", "*", "?", "**/", ".", "[aB]", "[!a]"];

/// files to check are given by patterns
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_glob() {
    let fs = begin();
    let n = zsym::split(zsym::range(1, zsym::param(0) as u8) as u64) as usize;
    let m = zsym::param(1) as usize;
    let mut pat = String::new();
    for i in 0..n {
        let k = zsym::push_choice(&mut pat, PIECES);
        if k == 5 {
            // only as a whole component
            zsym::assume(i == 0 || pat.as_bytes()[pat.len() - 4] == b'/');
        }
    }
    zsym::assume(!pat.contains("***") && !pat.starts_with('/'));
    // the pattern is read relative to a directory and normalized
    let full = text(&lexical(&format!("/w/{pat}")));
    zsym::assume(!full.is_empty());
    zsym::assume(!full.contains("***"));
    let cur = fs.unchecked_abs_path("/w");
    let Ok(g) = GlobAbsPath::new(&fs, &cur, &pat) else {
        zsym::check(full.contains("**"), "a pattern without ** is valid");
        return;
    };
    let k = zsym::split(zsym::range(1, m as u8) as u64) as usize;
    let s = zsym::ascii(k, b"aAB/.");
    let b = s.as_bytes();
    for i in 0..k {
        if b[i] == b'/' {
            zsym::assume(i > 0 && i + 1 < k && b[i - 1] != b'/');
        }
    }
    let path = format!("/w/{s}");
    zsym::assume(text(&lexical(&path)) == path);
    let got = g.matches(&fs, &abs(&fs, &path));
    zsym::check(got == glob_ref(full.as_bytes(), path.as_bytes()), "a pattern matches exactly the paths it describes");
    let simple = !full.contains(['*', '?', '[']);
    zsym::check(g.maybe_simple_path() == simple.then_some(&*full), "a pattern without wildcards is a path");
    zsym::out(got as u64);
    zsym::cover(got as u32);
}
