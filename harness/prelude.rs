extern "C" {
    fn vp_any_f32() -> f32;
    fn vp_f32_in(lo: f32, hi: f32) -> f32;
    fn vp_any_u32() -> u32;
    fn vp_any_u64() -> u64;
    fn vp_any_u8() -> u8;
    fn vp_int(lo: i32, hi: i32) -> i32;
    fn vp_choose(n: u32) -> u32;
    fn vp_assume(b: bool);
    fn vp_assert(b: bool, id: u32);
    fn vp_cover(id: u32);
    fn vp_obs(v: u32);
    fn vp_panic_ok(mode: u32);
    fn vp_concretize(v: u32) -> u32;
    fn vp_tier() -> u32;
}
/// any f32 bit pattern (NaNs, infinities, subnormals included)
pub fn any_f32() -> f32 { unsafe { vp_any_f32() } }
pub fn any_u32() -> u32 { unsafe { vp_any_u32() } }
pub fn any_usize() -> usize { unsafe { vp_any_u64() as usize } }
pub fn any_u8() -> u8 { unsafe { vp_any_u8() } }
pub fn any_bool() -> bool { unsafe { vp_int(0, 1) == 1 } }
/// any finite f32
pub fn finite() -> f32 { let x = any_f32(); assume(x.is_finite()); x }
/// any f32 in [lo, hi]
pub fn f_in(lo: f32, hi: f32) -> f32 { unsafe { vp_f32_in(lo, hi) } }
pub fn unit() -> f32 { f_in(0.0, 1.0) }
/// symbolic integer in [lo, hi]
pub fn int(lo: i32, hi: i32) -> i32 { unsafe { vp_int(lo, hi) } }
pub fn us(lo: usize, hi: usize) -> usize { int(lo as i32, hi as i32) as usize }
/// k / 2^shift for every integer k in [lo, hi]: exact dyadic grid
pub fn dy(lo: i32, hi: i32, shift: u32) -> f32 { (int(lo, hi) as f32) * (1.0 / (1u32 << shift) as f32) }
/// concrete choice (the executor forks)
pub fn choose(n: usize) -> usize { unsafe { vp_choose(n as u32) as usize } }
pub fn choose_in(lo: usize, hi: usize) -> usize { lo + choose(hi - lo + 1) }
pub fn assume(b: bool) { unsafe { vp_assume(b) } }
pub fn check(b: bool, id: u32) { unsafe { vp_assert(b, id) } }
pub fn cover(id: u32) { unsafe { vp_cover(id) } }
pub fn obs(v: u32) { unsafe { vp_obs(v) } }
pub fn obs_f(v: f32) { unsafe { vp_obs(v.to_bits()) } }
/// panics from here on end the path silently (documented panics)
pub fn panic_ok(on: bool) { unsafe { vp_panic_ok(on as u32) } }
/// fork so that the value is concrete
pub fn conc(v: usize) -> usize { unsafe { vp_concretize(v as u32) as usize } }
pub fn thorough() -> bool { unsafe { vp_tier() == 1 } }
/// bound by tier
pub fn tier(q: usize, t: usize) -> usize { if thorough() { t } else { q } }
pub fn same(a: f32, b: f32) -> bool { (a == b) | (a.is_nan() & b.is_nan()) }
/// any f32 except NaN
pub fn not_nan() -> f32 { let x = any_f32(); assume(!x.is_nan()); x }
pub fn close(a: f32, b: f32, tol: f32) -> bool { (a == b) | ((a - b).abs() <= tol) }
