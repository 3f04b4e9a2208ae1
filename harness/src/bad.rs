//! C27: malformed text is rejected.
use crate::ev::*;
use crate::input::*;
use crate::sym::*;
pub fn run() {
    let (v, _) = template(0);
    let (evs, ok) = collect_nc(as_str(&v));
    out(evs.len() as u64);
    out(ok as u64);
    check(!ok, "a malformed text is accepted");
}
