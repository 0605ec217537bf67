//! Verification harnesses over the real mollusc crates.
#![allow(clippy::all)]
#[macro_use]
pub mod vs;

pub mod bits;
pub mod cursor;
pub mod refstream;
pub mod stream;
pub mod support;
pub mod text;

// These need the guarded accessors, and the mapper.  If either does not build,
// bin/build_ir.sh leaves them out, so that the others still give an answer.
#[cfg(feature = "mapper")]
pub mod body;
#[cfg(feature = "mapper")]
pub mod layout;
#[cfg(feature = "mapper")]
pub mod mapper;
#[cfg(feature = "mapper")]
pub mod module;
#[cfg(feature = "mapper")]
pub mod records;
#[cfg(feature = "hooks")]
pub mod tables;
#[cfg(feature = "mapper")]
pub mod types;
#[cfg(feature = "mapper")]
pub mod unroll;

pub fn tables() -> Vec<&'static [(&'static str, extern "C" fn())]> {
    vec![
        cursor::TABLE,
        stream::TABLE,
        support::TABLE,
        text::TABLE,
        #[cfg(feature = "hooks")]
        tables::TABLE,
        #[cfg(feature = "mapper")]
        mapper::TABLE,
        #[cfg(feature = "mapper")]
        layout::TABLE,
        #[cfg(feature = "mapper")]
        types::TABLE,
        #[cfg(feature = "mapper")]
        records::TABLE,
        #[cfg(feature = "mapper")]
        module::TABLE,
        #[cfg(feature = "mapper")]
        body::TABLE,
        #[cfg(feature = "mapper")]
        unroll::TABLE,
    ]
}
