//! Nothing of `typst-shim` is used by the code under test.
