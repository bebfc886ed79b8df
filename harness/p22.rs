use super::*;
use stratum_dsp::analysis::result::Key;
use stratum_dsp::features::key::compute_key_clarity;
/*@{"assumptions": ["scores not NaN, on dyadic grids where the exact value is compared"]}@*/

fn keyed(s: &[f32]) -> Vec<(Key, f32)> { s.iter().enumerate().map(|(i, &x)| (if i < 12 { Key::Major(i as u32) } else { Key::Minor(i as u32 - 12) }, x)).collect() }
/// (first - mean) / (max - min), limited to [0,1]
fn verify(s: &[f32]) {
    let c = compute_key_clarity(&keyed(s));
    let (mut lo, mut hi, mut t) = (s[0], s[0], 0.0f32);
    for &x in s { lo = if x < lo { x } else { lo }; hi = if x > hi { x } else { hi }; t += x; }
    let w = (s[0] - t / s.len() as f32) / (hi - lo);
    let w = if w < 0.0 { 0.0 } else if w > 1.0 { 1.0 } else { w };
    if conc((hi == lo) as usize) == 1 { check(c == 0.0, 1); } else { check(close(c, w, 1e-5), 2); }
    check((c >= 0.0) & (c <= 1.0), 3);
}

harnesses! {
    //@ "ids": [1, 2, 3], "split": [2], "w": 3, "bounds": "2 or 3 scores in any order, each every k/4 in [-3,3] (thorough k/8; fixed by the executor)"
    fn h_p22_small() {
        let n = choose_in(2, 3);
        let m = if n == 2 { 24 } else { tier(6, 12) };
        let s: Vec<f32> = (0..n).map(|_| (conc(us(0, m)) as f32 - m as f32 / 2.0) * 6.0 / m as f32).collect();
        verify(&s);
    }
    //@ "ids": [2, 3], "split": [3, 3], "w": 3, "bounds": "24 scores: lowest and highest fixed to ranges 1, 2.5 or 0.1875 apart, the first and one more (second, middle, last) every k/8 of the range between them (thorough k/16; fixed by the executor), the others spread evenly"
    fn h_p22_full() {
        let r = [1.0f32, 2.5, 0.1875][choose(3)];
        let p = [1usize, 12, 23][choose(3)];
        let lo = if choose(2) == 0 { 0.0 } else { -1.0f32 };
        let mut s: Vec<f32> = (0..24).map(|i| lo + r * (24 - i) as f32 / 32.0).collect();
        s[5] = lo;
        s[7] = lo + r;
        let m = tier(8, 16);
        s[0] = lo + r * conc(us(0, m)) as f32 / m as f32;
        s[p] = lo + r * conc(us(0, m)) as f32 / m as f32;
        verify(&s);
    }
    //@ "ids": [2, 3], "split": [2], "w": 3, "bounds": "24 scores between 0 and 1 or -1 and 1, the first free strictly between them on the grid k/256"
    fn h_p22_first() {
        let lo = if choose(2) == 0 { 0.0 } else { -1.0f32 };
        let mut s: Vec<f32> = (0..24).map(|i| (24 - i) as f32 / 32.0).collect();
        s[5] = lo;
        s[7] = 1.0;
        s[0] = dy(1, 255, 8);
        verify(&s);
    }
    //@ "ids": [3], "w": 2, "quick_ms": 20000, "bounds": "range: 2 scores, every f32 in [-1e30,1e30]"
    fn h_p22_range() {
        let s = [f_in(-1e30, 1e30), f_in(-1e30, 1e30)];
        let c = compute_key_clarity(&keyed(&s));
        check((c >= 0.0) & (c <= 1.0), 3);
    }
    //@ "ids": [11, 12], "bounds": "none or one score, any value: 0; 2..24 equal scores, any value up to 1e30: 0"
    fn h_p22_flat() {
        check(compute_key_clarity(&[]) == 0.0, 11);
        check(compute_key_clarity(&[(Key::Minor(3), any_f32())]) == 0.0, 11);
        let x = f_in(-1e30, 1e30);
        check(compute_key_clarity(&keyed(&vec![x; choose_in(2, 24)])) == 0.0, 12);
    }
}
