//! Exists to build the serde library for the front end.
