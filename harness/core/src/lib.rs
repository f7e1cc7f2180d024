//! Roots for the MIR verifier: one thin function per operation of laby under contract.
#![allow(deprecated, clippy::all, improper_ctypes)]
use laby_common::internal::{escape, escape_str, Buffer};
use laby_common::Render;
use std::borrow::Cow;

pub fn vp_escape(feed: &str, buf: &mut Buffer) { escape(feed, buf) }
pub fn vp_escape_str(feed: &str) -> String { escape_str(feed) }

pub fn vp_buf_new() -> Buffer { Buffer::new() }
pub fn vp_buf_default() -> Buffer { Buffer::default() }
pub fn vp_buf_with_capacity(n: usize) -> Buffer { Buffer::with_capacity(n) }
pub fn vp_buf_as_str(b: &Buffer) -> &str { b.as_str() }
pub fn vp_buf_as_mut_ptr(b: &Buffer) -> *mut u8 { b.as_mut_ptr() }
pub fn vp_buf_len(b: &Buffer) -> usize { b.len() }
pub fn vp_buf_capacity(b: &Buffer) -> usize { b.capacity() }
pub fn vp_buf_is_empty(b: &Buffer) -> bool { b.is_empty() }
pub unsafe fn vp_buf_set_len(b: &mut Buffer, n: usize) { b._set_len(n) }
pub unsafe fn vp_buf_advance(b: &mut Buffer, n: usize) { b.advance(n) }
pub fn vp_buf_reserve(b: &mut Buffer, n: usize) { b.reserve(n) }
pub unsafe fn vp_buf_reserve_small(b: &mut Buffer, n: usize) { b.reserve_small(n) }
pub fn vp_buf_clear(b: &mut Buffer) { b.clear() }
pub fn vp_buf_into_string(b: Buffer) -> String { b.into_string() }
pub fn vp_buf_push_str(b: &mut Buffer, s: &str) { b.push_str(s) }
pub fn vp_buf_push(b: &mut Buffer, c: char) { b.push(c) }
pub fn vp_buf_clone(b: &Buffer) -> Buffer { b.clone() }
pub fn vp_buf_drop(b: Buffer) { drop(b) }
pub fn vp_buf_write_str(b: &mut Buffer, s: &str) -> std::fmt::Result { std::fmt::Write::write_str(b, s) }
pub fn vp_buf_write_char(b: &mut Buffer, c: char) -> std::fmt::Result { std::fmt::Write::write_char(b, c) }
pub fn vp_buf_from_string(s: String) -> Buffer { Buffer::from(s) }
pub fn vp_buf_from_str(s: &str) -> Buffer { Buffer::from(s) }
pub fn vp_buf_add(b: Buffer, s: &str) -> Buffer { b + s }
pub fn vp_buf_add_assign(b: &mut Buffer, s: &str) { *b += s }

pub fn vp_r_unit(x: (), buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_char(x: char, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_bool(x: bool, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_str(x: &str, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_string(x: String, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_u8(x: u8, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_u16(x: u16, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_u32(x: u32, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_u64(x: u64, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_u128(x: u128, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_usize(x: usize, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_i8(x: i8, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_i16(x: i16, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_i32(x: i32, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_i64(x: i64, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_i128(x: i128, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_isize(x: isize, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_nzu8(x: std::num::NonZeroU8, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_nzu16(x: std::num::NonZeroU16, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_nzu32(x: std::num::NonZeroU32, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_nzu64(x: std::num::NonZeroU64, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_nzu128(x: std::num::NonZeroU128, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_nzusize(x: std::num::NonZeroUsize, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_nzi8(x: std::num::NonZeroI8, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_nzi16(x: std::num::NonZeroI16, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_nzi32(x: std::num::NonZeroI32, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_nzi64(x: std::num::NonZeroI64, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_nzi128(x: std::num::NonZeroI128, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_nzisize(x: std::num::NonZeroIsize, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_f32(x: f32, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_f64(x: f64, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_cow_str(x: Cow<'_, str>, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_arguments(x: std::fmt::Arguments<'_>, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_doctype(x: laby::DocType, buf: &mut Buffer) { x.render(buf) }

// ---- opaque values: the verifier models these foreign functions --------------------------------
/// An arbitrary renderable value: rendering appends unknown, value-dependent text.
pub struct Abs(#[allow(dead_code)] u64);
pub struct AbsB(#[allow(dead_code)] u64);
/// the same for values of other sizes: none at all, several words
pub struct AbsZ;
pub struct AbsL(#[allow(dead_code)] u64, #[allow(dead_code)] u64, #[allow(dead_code)] u64, #[allow(dead_code)] u64, #[allow(dead_code)] u64);
pub struct AbsIter(#[allow(dead_code)] u64);
pub struct AbsIterZ(#[allow(dead_code)] u64);
pub struct AbsIterL(#[allow(dead_code)] u64);
pub struct AbsText(#[allow(dead_code)] u64);
pub struct AbsDisplay(#[allow(dead_code)] u64);
extern "Rust" {
    fn vpx_render(x: Abs, buf: &mut Buffer);
    fn vpx_render_b(x: AbsB, buf: &mut Buffer);
    fn vpx_render_bref(x: &AbsB, buf: &mut Buffer);
    fn vpx_render_z(x: AbsZ, buf: &mut Buffer);
    fn vpx_render_zref(x: &AbsZ, buf: &mut Buffer);
    fn vpx_render_l(x: AbsL, buf: &mut Buffer);
    fn vpx_render_lref(x: &AbsL, buf: &mut Buffer);
    fn vpx_next(it: &mut AbsIter) -> Option<Abs>;
    fn vpx_next_z(it: &mut AbsIterZ) -> Option<AbsZ>;
    fn vpx_next_l(it: &mut AbsIterL) -> Option<AbsL>;
    fn vpx_size_hint(it: u64) -> (usize, Option<usize>);
    fn vpx_text(t: &AbsText) -> &str;
    fn vpx_fmt(t: &AbsDisplay, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result;
}
impl Render for Abs { fn render(self, buf: &mut Buffer) { unsafe { vpx_render(self, buf) } } }
impl Render for AbsB { fn render(self, buf: &mut Buffer) { unsafe { vpx_render_b(self, buf) } } }
impl Render for &AbsB { fn render(self, buf: &mut Buffer) { unsafe { vpx_render_bref(self, buf) } } }
impl Render for AbsZ { fn render(self, buf: &mut Buffer) { unsafe { vpx_render_z(self, buf) } } }
impl Render for &AbsZ { fn render(self, buf: &mut Buffer) { unsafe { vpx_render_zref(self, buf) } } }
impl Clone for AbsZ { fn clone(&self) -> Self { unreachable!() } }
impl Render for AbsL { fn render(self, buf: &mut Buffer) { unsafe { vpx_render_l(self, buf) } } }
impl Render for &AbsL { fn render(self, buf: &mut Buffer) { unsafe { vpx_render_lref(self, buf) } } }
impl Clone for AbsL { fn clone(&self) -> Self { unreachable!() } }
impl Clone for AbsB { fn clone(&self) -> Self { unreachable!() } }
impl Iterator for AbsIter { type Item = Abs; fn size_hint(&self) -> (usize, Option<usize>) { unsafe { vpx_size_hint(self.0) } } fn next(&mut self) -> Option<Abs> { unsafe { vpx_next(self) } } }
impl Iterator for AbsIterZ { type Item = AbsZ; fn size_hint(&self) -> (usize, Option<usize>) { unsafe { vpx_size_hint(self.0) } } fn next(&mut self) -> Option<AbsZ> { unsafe { vpx_next_z(self) } } }
impl Iterator for AbsIterL { type Item = AbsL; fn size_hint(&self) -> (usize, Option<usize>) { unsafe { vpx_size_hint(self.0) } } fn next(&mut self) -> Option<AbsL> { unsafe { vpx_next_l(self) } } }
impl AsRef<str> for AbsText { fn as_ref(&self) -> &str { unsafe { vpx_text(self) } } }
impl std::fmt::Display for AbsDisplay { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unsafe { vpx_fmt(self, f) } } }

pub fn vp_r_option(x: Option<Abs>, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_option2(x: Option<Option<Abs>>, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_cow_abs(x: Cow<'_, AbsB>, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_option_z(x: Option<AbsZ>, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_option_l(x: Option<AbsL>, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_option_ref(x: Option<&AbsB>, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_option_zref(x: Option<&AbsZ>, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_option_str(x: Option<&str>, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_option_string(x: Option<String>, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_option_bool(x: Option<bool>, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_option_char(x: Option<char>, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_option3(x: Option<Option<Option<AbsL>>>, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_cow_z(x: Cow<'_, AbsZ>, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_cow_l(x: Cow<'_, AbsL>, buf: &mut Buffer) { x.render(buf) }
pub fn vp_r_option_cow(x: Option<Cow<'_, AbsL>>, buf: &mut Buffer) { x.render(buf) }

pub fn vp_iter(it: AbsIter, buf: &mut Buffer) { laby::iter!(it).render(buf) }
pub fn vp_iter_del(it: AbsIter, del: AbsText, buf: &mut Buffer) { laby::iter!(del, it).render(buf) }
pub fn vp_iter_del_str(it: AbsIter, del: &str, buf: &mut Buffer) { laby::iter!(del, it).render(buf) }
pub fn vp_iter_lines(it: AbsIter, buf: &mut Buffer) { laby::iter_lines!(it).render(buf) }
pub fn vp_iter_from(it: AbsIter, buf: &mut Buffer) { laby::RenderIterator::from(it).render(buf) }
pub fn vp_iter_z(it: AbsIterZ, buf: &mut Buffer) { laby::iter!(it).render(buf) }
pub fn vp_iter_l(it: AbsIterL, buf: &mut Buffer) { laby::iter!(it).render(buf) }
pub fn vp_iter_del_z(it: AbsIterZ, del: AbsText, buf: &mut Buffer) { laby::iter!(del, it).render(buf) }
pub fn vp_iter_del_l(it: AbsIterL, del: AbsText, buf: &mut Buffer) { laby::iter!(del, it).render(buf) }
pub fn vp_iter_del_string(it: AbsIter, del: String, buf: &mut Buffer) { laby::iter!(del, it).render(buf) }
pub fn vp_iter_lines_z(it: AbsIterZ, buf: &mut Buffer) { laby::iter_lines!(it).render(buf) }
pub fn vp_raw(t: AbsText, buf: &mut Buffer) { laby::raw!(t).render(buf) }
pub fn vp_raw_str(t: &str, buf: &mut Buffer) { laby::raw!(t).render(buf) }
pub fn vp_raw_string(t: String, buf: &mut Buffer) { laby::raw!(t).render(buf) }
pub fn vp_raw_from(t: AbsText, buf: &mut Buffer) { laby::RenderRaw::from(t).render(buf) }
pub fn vp_disp(t: AbsDisplay, buf: &mut Buffer) { laby::disp!(t).render(buf) }
pub fn vp_render1(x: Abs) -> String { laby::render!(x) }
pub fn vp_render2(x: Abs, y: Abs) -> String { laby::render!(x, y) }
pub fn vp_render3(x: AbsZ, y: AbsL, z: AbsZ) -> String { laby::render!(x, y, z) }
pub fn vp_string_ptr(s: &String) -> *const u8 { s.as_ptr() }
pub fn vp_string_len(s: &String) -> usize { s.len() }
pub fn vp_string_cap(s: &String) -> usize { s.capacity() }
pub fn vp_fmt_ref(x: &AbsDisplay, buf: &mut Buffer) { format_args!("{}", *x).render(buf) }
