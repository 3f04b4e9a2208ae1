#![cfg_attr(not(feature = "native"), no_std)]
extern crate alloc;
pub mod sym;
pub mod input;
pub mod ev;
pub mod events;
pub mod front;
pub mod neutral;
pub mod nest;
pub mod spec;
pub mod account;
pub mod json;
pub mod scalars;
pub mod blocks;
pub mod trees;
pub mod docs;
pub mod resolve;
pub mod load;
pub mod bad;
pub mod access;
pub mod de;
pub mod ser;

/// entry points: every `h_*` function is a root for the symbolic executor.
#[macro_export]
macro_rules! entries { ($($n:ident => $f:path),* $(,)?) => {
    $(#[cfg(feature = "native")] #[unsafe(no_mangle)] pub extern "C-unwind" fn $n() { $f() }
      #[cfg(not(feature = "native"))] #[unsafe(no_mangle)] pub extern "C" fn $n() { $f() })*
    #[cfg(feature = "native")]
    pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($n), $n)),*];
} }
entries! {
    h_events => events::run,
    h_front => front::run,
    h_letters => nest::letters,
    h_json => json::json,
    h_nested => nest::nested,
    h_tabs => nest::tabs,
    h_columns => nest::columns,
    h_spec => spec::run,
    h_account => account::run,
    h_names => account::names,
    h_requote => account::requote,
    h_concat => nest::concat,
    h_comments => neutral::comments,
    h_reported => neutral::reported,
    h_reported_any => neutral::reported_any,
    h_breaks => neutral::breaks,
    h_scalar => scalars::run,
    h_block => blocks::run,
    h_flow => trees::flow,
    h_tree => trees::block,
    h_docs => docs::docs,
    h_marker => docs::marker,
    h_anchor => docs::anchor,
    h_tag => docs::tag,
    h_resolve => resolve::run,
    h_load => load::run,
    h_bad => bad::run,
    h_de => de::run,
    h_ser => ser::run,
    h_kinds => access::kinds,
    h_equal => access::equality,
    h_index => access::index,
    h_from => access::from,
    h_loadtree => load::tree,
}
