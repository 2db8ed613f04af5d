//! Environment switches. They exist only in the model dependencies; with the real ones (native
//! replay) the symbolic values are drawn and dropped, so that inputs stay aligned.
#[cfg(not(feature = "real_deps"))]
pub fn symbolic_order(max: usize) {
    let rot = crate::sym::choose(max);
    let back = crate::sym::flag();
    std::verif::set_order(rot, back);
}
#[cfg(feature = "real_deps")]
pub fn symbolic_order(max: usize) {
    let _ = crate::sym::choose(max);
    let _ = crate::sym::flag();
}
#[cfg(not(feature = "real_deps"))]
pub fn collide(on: bool) {
    ahash::verif::set_collide(on);
}
#[cfg(feature = "real_deps")]
pub fn collide(_on: bool) {}
/// Items of parallel iterators run in threads of their own, interleaved by the scheduler.
#[cfg(not(feature = "real_deps"))]
pub fn threads(on: bool) { rayon::verif::set_threads(if on { Some((crate::sym::spawn, crate::sym::join)) } else { None }); }
#[cfg(feature = "real_deps")]
pub fn threads(_on: bool) {}
/// Calls `f` with the name of a file that has this content, or with a name that has no file.
#[cfg(not(feature = "real_deps"))]
pub fn with_file<R>(content: Option<&[u8]>, f: impl FnOnce(&str) -> R) -> R {
    std::verif::set_file(content.map(|c| c.to_vec()));
    let r = f("/nowhere/verif");
    std::verif::set_file(None);
    r
}
#[cfg(feature = "real_deps")]
pub fn with_file<R>(content: Option<&[u8]>, f: impl FnOnce(&str) -> R) -> R {
    let p = std::env::temp_dir().join(std::format!("verif-replay-{}", std::process::id()));
    match content { Some(c) => std::fs::write(&p, c).unwrap(), None => { let _ = std::fs::remove_file(&p); } }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(p.to_str().unwrap())));
    let _ = std::fs::remove_file(&p);
    match r { Ok(r) => r, Err(e) => std::panic::resume_unwind(e) }
}
/// Calls `f` with a name that opens but cannot be read: a directory.
#[cfg(not(feature = "real_deps"))]
pub fn with_broken_file<R>(f: impl FnOnce(&str) -> R) -> R {
    std::verif::set_broken(true);
    let r = f("/nowhere/verif");
    std::verif::set_broken(false);
    r
}
#[cfg(feature = "real_deps")]
pub fn with_broken_file<R>(f: impl FnOnce(&str) -> R) -> R {
    let p = std::env::temp_dir().join(std::format!("verif-replay-dir-{}", std::process::id()));
    std::fs::create_dir_all(&p).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(p.to_str().unwrap())));
    let _ = std::fs::remove_dir(&p);
    match r { Ok(r) => r, Err(e) => std::panic::resume_unwind(e) }
}
