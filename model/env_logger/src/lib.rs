//! Not used by the code under test; empty so that it need not be compiled.
