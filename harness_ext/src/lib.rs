//! Nothing here: see the binaries.
