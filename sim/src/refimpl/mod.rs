//! Independent reference implementation of the Internet Computer response verification
//! specification, written from the specification without using any code under test.
pub mod canister;
pub mod cbor;
pub mod cel;
pub mod hashes;
pub mod rtree;
pub mod url;
pub mod verify;
