//! Paths, workspaces and files in memory. The crate root is the source of
//! crates/vfs, so that its private items can be reached.
#![allow(dead_code, unused_imports, unsafe_code)]
include!("/repo/crates/vfs/src/lib.rs");

pub mod memfs;
mod paths;
mod ws;
mod hist;
mod links;

/// local_fs.rs on the file system in memory
#[allow(clippy::all)]
pub mod lfs {
    pub mod std {
        pub use ::std::*;
        pub mod fs {
            pub use crate::memfs::*;
        }
    }
    use crate::memfs::same_file;
    include!("/repo/crates/vfs/src/local_fs.rs");

    impl<T: Fn(PathWithScheme) + Sync + Send> LocalFS<T> {
        /// as `without_watcher`, for any type of callback
        pub fn without_callback() -> Self {
            let fs = SimpleLocalFS::without_watcher();
            Self {
                watcher: fs.watcher,
                already_watched_dirs: fs.already_watched_dirs,
                on_invalidated_in_memory_file: None,
            }
        }
        pub fn set_callback(&mut self, f: T) {
            self.on_invalidated_in_memory_file = Some(f);
        }
    }
}

use paths::*;
use ws::*;
use hist::*;
use links::*;
zsym::entries!(h_norm, h_resolve, h_rel, h_glob, h_ws, h_case, h_hist, h_panic, h_dep, h_ghost, h_links, h_late, h_wsroot, h_namesake);
