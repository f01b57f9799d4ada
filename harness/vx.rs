//! Intrinsics of the analysis, and symbolic input sources.
use std::io;

#[inline(never)] pub fn vx_any_u64(_n: &'static str, _lo: u64, _hi: u64) -> u64 { loop {} }
#[inline(never)] pub fn vx_any_i64(_n: &'static str, _lo: i64, _hi: i64) -> i64 { loop {} }
#[inline(never)] pub fn vx_any<T>(_n: &'static str) -> T { loop {} }
#[inline(never)] pub fn vx_assume(_c: bool) { loop {} }
#[inline(never)] pub fn vx_check(_c: bool, _m: &'static str) { loop {} }
#[inline(never)] pub fn vx_fail(_m: &'static str) { loop {} }
#[inline(never)] pub fn vx_unknown(_m: &'static str) { loop {} }
#[inline(never)] pub fn vx_note(_m: &'static str) { loop {} }
#[inline(never)] pub fn vx_byte(_src: u32, _pos: u64) -> u8 { loop {} }
#[inline(never)] pub fn vx_bits(_src: u32, _pos: u64, _n: u32) -> u64 { loop {} }
#[inline(never)] pub fn vx_unary(_src: u32, _pos: u64) -> u32 { loop {} }
#[inline(never)] pub fn vx_fill(_src: u32, _pos: u64, _d: &mut [u8]) { loop {} }
#[inline(never)] pub fn vx_havoc_i32(_d: &mut [i32], _lo: i64, _hi: i64) { loop {} }
#[inline(never)] pub fn vx_vec_i32(_len: usize, _cap: usize) -> Vec<i32> { loop {} }
#[inline(never)] pub fn vx_io_err(_kind: u64, _tag: u64) -> io::Error { loop {} }
#[inline(never)] pub fn vx_err_tag(_e: &io::Error) -> u64 { loop {} }
#[inline(never)] pub fn vx_err_kind(_e: &io::Error) -> u64 { loop {} }
#[inline(never)] pub fn vx_config(_g: &'static str, _on: bool) { loop {} }
#[inline(never)] pub fn vx_split(_x: u64, _lo: u64, _hi: u64) -> u64 { loop {} }
#[inline(never)] pub fn vx_part(_c: bool) -> bool { loop {} }
#[inline(never)] pub fn vx_alloc_limit(_n: u64) { loop {} }
#[inline(never)] pub fn vx_allocs() -> u64 { loop {} }
#[inline(never)] pub fn vx_panic_ok(_on: bool) { loop {} }
#[inline(never)] pub fn vx_show<T>(_x: T) { loop {} }
#[inline(never)] pub fn vx_field_mut<S, F>(_s: &mut S, _k: u32) -> &mut F { loop {} }
#[inline(never)] pub fn vx_get(_r: u32) -> u64 { loop {} }
#[inline(never)] pub fn vx_set(_r: u32, _v: u64) { loop {} }
