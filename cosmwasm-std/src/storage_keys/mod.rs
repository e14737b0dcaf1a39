mod length_prefixed;

// Please note that the entire storage_keys module is public. So be careful
// when adding elements here.
pub use length_prefixed::{namespace_with_key, to_length_prefixed, to_length_prefixed_nested};
