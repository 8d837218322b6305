//! Contracts decided by Kani: each harness assumes a precondition, calls one function of the real crates
//! and asserts its postcondition, for every value of its inputs.
#![allow(dead_code, unused_macros, unused_imports)]
mod guarded;
mod headers;
mod src;

macro_rules! table {
    ($n:expr, $($m:ident :: $f:ident),* $(,)?) => {
        match $n { $(concat!(stringify!($m), "::", stringify!($f)) => Some($m::$f as fn()),)* _ => None }
    };
}

/// Runs a harness natively on the given values of its quantified variables.
/// None: no such harness; Some(None): holds; Some(Some(_)): panicked.
#[cfg(not(kani))]
pub fn native(name: &str, values: Vec<u8>) -> Option<Option<()>> {
    let f: fn() = table!(
        name,
        headers::data_header_keeps_fields,
        headers::revocation_header_keeps_id,
        headers::header_kind_of_any_bytes,
    )?;
    src::VALUES.with(|v| *v.borrow_mut() = (values, 0));
    match std::panic::catch_unwind(f) {
        Ok(()) => Some(None),
        Err(e) if e.is::<src::Discard>() => Some(None),
        Err(_) => Some(Some(())),
    }
}
