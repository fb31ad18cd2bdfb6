//! Compile witnesses: every file in src/bin is one witness (g_: must compile, b_: must be rejected).
//! Generated by tools/compile_gen.py.
