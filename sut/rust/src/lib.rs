// The Rust interface, as a Rust program uses it: a stream which is polled when woken.
use std::ffi::{c_char, c_int, c_longlong, CStr};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use futures::Stream;

#[path = "watcher.rs"]
mod watcher;
use watcher::{EffectType, Event, PathType, Watch};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) }
}
pub struct User {
    watch: Pin<Box<Watch>>,
    flag: Arc<Flag>,
}
fn effect(e: &EffectType) -> c_int {
    match e {
        EffectType::Rename => 0, EffectType::Modify => 1, EffectType::Create => 2,
        EffectType::Destroy => 3, EffectType::Owner => 4, EffectType::Other => 5,
    }
}
fn kind(k: &PathType) -> c_int {
    match k {
        PathType::Dir => 0, PathType::File => 1, PathType::HardLink => 2,
        PathType::SymLink => 3, PathType::Watcher => 4, PathType::Other => 5,
    }
}
type Take = extern "C" fn(w: c_int, path: *const u8, n: usize, effect: c_int, kind: c_int, time: c_longlong, has: c_int, apath: *const u8, an: usize, json: *const u8, jn: usize);

#[no_mangle]
pub unsafe extern "C" fn rs_open(path: *const c_char) -> *mut User {
    match Watch::try_new(CStr::from_ptr(path).to_str().unwrap()) {
        Err(_) => std::ptr::null_mut(),
        Ok(w) => Box::into_raw(Box::new(User { watch: Box::pin(w), flag: Arc::new(Flag(AtomicBool::new(true))) })),
    }
}
/// An attempt: 0: an error, 1: a watch, which is closed and dropped, 2: a panic
#[no_mangle]
pub unsafe extern "C" fn rs_try(path: *const u8, n: usize, close: c_int) -> c_int {
    let p = std::str::from_utf8(std::slice::from_raw_parts(path, n)).unwrap();
    let r = std::panic::catch_unwind(|| match Watch::try_new(p) {
        Err(_) => 0,
        Ok(w) => { if close != 0 { let _ = w.close(); } drop(w); 1 }
    });
    r.unwrap_or(2)
}
#[no_mangle]
pub unsafe extern "C" fn rs_close(u: *mut User) -> c_int { (&*u).watch.close().is_ok() as c_int }
#[no_mangle]
pub unsafe extern "C" fn rs_drop(u: *mut User) { drop(Box::from_raw(u)) }
#[no_mangle]
pub unsafe extern "C" fn rs_ready(u: *mut User) -> c_int { (&*u).flag.0.load(Ordering::SeqCst) as c_int }
/// 0: nothing now, 1: an event, 2: the end of the stream
#[no_mangle]
pub unsafe extern "C" fn rs_poll(u: *mut User, w: c_int, take: Take) -> c_int {
    let u = &mut *u;
    if !u.flag.0.swap(false, Ordering::SeqCst) { return 0; }
    let waker = Waker::from(u.flag.clone());
    let mut cx = Context::from_waker(&waker);
    match u.watch.as_mut().poll_next(&mut cx) {
        Poll::Pending => 0,
        Poll::Ready(None) => 2,
        Poll::Ready(Some(ev)) => {
            u.flag.0.store(true, Ordering::SeqCst); // ask again
            let ev: Event = ev;
            let (a, an) = match &ev.associated_path_name { None => (std::ptr::null(), 0), Some(s) => (s.as_ptr(), s.len()) };
            let j = serde_json::to_string(&ev).unwrap(); // as the command-line program of the crate shows it
            take(w, ev.path_name.as_ptr(), ev.path_name.len(), effect(&ev.effect_type), kind(&ev.path_type), ev.effect_time, ev.associated_path_name.is_some() as c_int, a, an, j.as_ptr(), j.len());
            1
        }
    }
}
