//! The JavaScript binding as gateways (service workers, boundary nodes) load it.
pub use ic_response_verification_wasm::*;
