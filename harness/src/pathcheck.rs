//! The check of paths, see PathCheck.tla.
use rustful::file::check_path;
use serde_json::{json, Value};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::panic::catch_unwind;
use std::path::{Component, Path};

use crate::util::*;

fn verdict(r: Result<(), Component>) -> &'static str {
    match r {
        Ok(()) => "",
        Err(Component::RootDir) => "root",
        Err(Component::ParentDir) => "parent",
        Err(Component::CurDir) => "current",
        Err(Component::Prefix(_)) => "prefix",
        Err(Component::Normal(_)) => "normal",
    }
}

/// The verdict on a path given in any way.
fn check(d: &[u8]) -> String {
    let d = d.to_vec();
    catch_unwind(move || {
        let os = OsStr::from_bytes(&d);
        let path = Path::new(os);
        let mut all = vec![verdict(check_path(os)), verdict(check_path(path)), verdict(check_path(&path.to_path_buf())), verdict(check_path(&os.to_os_string()))];
        if let Ok(s) = std::str::from_utf8(&d) {
            all.push(verdict(check_path(s)));
            all.push(verdict(check_path(&s.to_string())));
        }
        if all.iter().all(|a| *a == all[0]) {
            all[0].to_string()
        } else {
            format!("{:?}", all)
        }
    })
    .unwrap_or_else(|_| "panic".into())
}

pub fn replay(vectors: &str, report: &str) {
    replay_all(vectors, report, |rep, v| {
        rep.check("verdict", v, &v["verdict"], &json!(check(&bytes(&v["path"]))));
    })
}

pub fn record(seed: u64, count: usize, path: &str) {
    let mut r = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..count {
        let mut d = vec![];
        if r.chance(1, 5) {
            d.push(b'/');
        }
        // a few are long, and then most of their steps are harmless
        let long = r.chance(1, 25);
        for i in 0..if long { r.range(10, 400) } else { r.below(10) } {
            if i > 0 {
                d.push(b'/');
            }
            match if long && !r.chance(1, 150) { *r.pick(&[1, 4, 5]) } else { r.below(14) } {
                0 => {}
                1 => d.push(b'.'),
                2 => d.extend_from_slice(if r.chance(1, 3) { b".." } else { b"..." }),
                3 => d.extend_from_slice(*r.pick(&[&b".. "[..], b" ..", b"..a", b"a..", b". .", b"..\\..", b"..\0", b".\xff.", b"%2e%2e", b"~", b"C:", b"\\", b"\\\\a"])),
                _ => {
                    for _ in 0..r.range(1, 6) {
                        d.push(*r.pick(&[b'a', b'b', b'.', b'-', b' ', 0xc3, 0xa5, b':', b'\\', b'*', 1]))
                    }
                }
            }
        }
        if r.chance(1, 5) {
            d.push(b'/');
        }
        let v: Value = json!({"path": jb(&d), "verdict": check(&d)});
        out.line(&v);
    }
}
