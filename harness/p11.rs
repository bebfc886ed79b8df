use super::*;
use stratum_dsp::features::period::peak_picking::find_peaks;
/*@{"assumptions": ["signal lengths and free values as stated per harness"]}@*/

/// candidate peaks: above both neighbours (the one neighbour at an end) and not below the threshold
fn cands(x: &[f32], t: f32) -> Vec<bool> {
    let n = x.len();
    if n < 3 { return vec![false; n]; }
    let mut mx = 0.0f32;
    for &v in x { mx = if v > mx { v } else { mx }; }
    let th = if (t > 0.0) & (t < 1.0) & (mx > 0.0) { mx * t } else { t };
    (0..n).map(|i| {
        let l = i == 0 || x[i] > x[i - 1];
        let r = i + 1 == n || x[i] > x[i + 1];
        l & r & (x[i] >= th) & (mx >= 1e-10)
    }).collect()
}
fn verify(x: &[f32], t: f32, d: usize, lo: usize, hi: usize) {
    let r = find_peaks(x, t, d);
    let c = cands(x, t);
    let n = x.len();
    let mut inr = vec![false; n];
    for i in 0..r.len() {
        check(r[i].0 < n, 1);
        if r[i].0 >= n { return; }
        check((r[i].1 == x[r[i].0]) & c[r[i].0], 2);
        check(i == 0 || r[i - 1].1 >= r[i].1, 3);
        for j in 0..i {
            check((r[i].0 != r[j].0) & (r[i].0.abs_diff(r[j].0) >= d), 4);
        }
        inr[r[i].0] = true;
    }
    // every candidate is kept or lies too close to a kept one that is at least as high
    for k in lo..hi {
        let mut ok = !c[k] | inr[k];
        for &(i, v) in &r { ok |= (v >= x[k]) & (i.abs_diff(k) < d); }
        check(ok, 5);
    }
    obs(r.len() as u32);
}

harnesses! {
    //@ "ids": [1, 2, 3, 4, 5], "split": [3, 2], "tsplit": [3, 4], "w": 3, "tbudget": 2500, "bounds": "3..4 (thorough 6) values, every finite f32 (|x|<=1e30), thresholds 0, 0.5 or 2, minimum distance 0..6"
    fn h_p11_free() {
        let t = [0.0f32, 0.5, 2.0][choose(3)];
        let n = choose_in(3, tier(4, 6));
        let x: Vec<f32> = (0..n).map(|_| f_in(-1e30, 1e30)).collect();
        verify(&x, t, choose(6), 0, n);
    }
    //@ "ids": [1, 2, 3, 4, 5], "split": [3, 4], "w": 3, "bounds": "12 (thorough 24) values of fixed zigzags, two at every adjacent position free on the grid k/8 in [-1,3], minimum distance 0, 2, 3 or 5, threshold 0.3 or 0.75"
    fn h_p11_long() {
        let n = tier(12, 24);
        let pat = choose(3);
        let d = [0usize, 2, 3, 5][choose(4)];
        let p = choose(n - 1);
        let x: Vec<f32> = (0..n).map(|i| if i == p || i == p + 1 { dy(-8, 24, 3) } else { match pat { 0 => ((i * 7) % 5) as f32 * 0.5, 1 => ((i % 2) * (i + 1)) as f32 * 0.125, _ => ((i + 1) % 2) as f32 * 1.5 } }).collect();
        verify(&x, [0.3, 0.75][choose(2)], d, 0, n);
    }
    //@ "ids": [1, 2, 3, 4, 5], "split": [4], "bounds": "fixed signals of 9 values with 4 peaks, every minimum distance (all 64-bit values)"
    fn h_p11_dist() {
        let x = [[1.0f32, 0.0, 3.0, 0.0, 2.0, 0.0, 2.0, 0.0, 4.0], [4.0, 0.0, 3.0, 0.0, 2.0, 0.0, 1.0, 0.0, 0.5], [0.0, 1.0, 0.0, 1.0, 0.0, 1.0, 0.0, 1.0, 0.0], [0.0, 2.0, 1.0, 1.0, 0.0, 3.0, 0.0, 2.5, 0.0]][choose(4)];
        verify(&x, 0.0, any_usize(), 0, 9);
    }
    //@ "ids": [11, 12], "split": [5], "bounds": "0..4 values of any bit pattern (NaN, infinities), every threshold bit pattern, minimum distance 0..3: no panic, indices valid, values those of the signal; fewer than 3 values give none"
    fn h_p11_total() {
        let n = choose(5);
        let x: Vec<f32> = (0..n).map(|_| any_f32()).collect();
        let r = find_peaks(&x, any_f32(), choose(4));
        check((n >= 3) | r.is_empty(), 11);
        for &(i, v) in &r { check((i < n) && v == x[i], 12); }
    }
    //@ "ids": [21], "bounds": "threshold as a fraction: every f32 threshold in (0,1), a fixed 5-value signal with peaks 1, 2, 4"
    fn h_p11_frac() {
        let t = f_in(0.0, 1.5);
        let x = [0.0f32, 1.0, 0.0, 2.0, 0.0, 4.0, 0.0];
        let r = find_peaks(&x, t, 1);
        let th = if (t > 0.0) & (t < 1.0) { 4.0 * t } else { t };
        let want = (1.0 >= th) as usize + (2.0 >= th) as usize + (4.0 >= th) as usize;
        check(r.len() == want, 21);
    }
}
