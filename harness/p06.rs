use super::*;
use stratum_dsp::features::onset::threshold::*;
/*@{"assumptions": ["no NaN among the values", "exact-value harnesses use values on the grid k/4 so that medians and deviations are exact"]}@*/

/// branch-free sorting (odd-even transposition)
fn sorted(v: &[f32]) -> Vec<f32> {
    let mut a = v.to_vec();
    let n = a.len();
    for r in 0..n {
        let mut i = r % 2;
        while i + 1 < n {
            let (x, y) = (a[i], a[i + 1]);
            let s = y < x;
            a[i] = if s { y } else { x };
            a[i + 1] = if s { x } else { y };
            i += 2;
        }
    }
    a
}
fn median(v: &[f32]) -> f32 {
    let a = sorted(v);
    let n = a.len();
    if n % 2 == 1 { a[n / 2] } else { (a[n / 2 - 1] + a[n / 2]) * 0.5 }
}
fn below(v: &[f32], t: f32) -> (usize, usize) {
    let (mut lt, mut le) = (0, 0);
    for &x in v { lt += (x < t) as usize; le += (x <= t) as usize; }
    (lt, le)
}

harnesses! {
    //@ "ids": [1], "split": [4, 4], "w": 3, "bounds": "1..4 (thorough 1..5) values on the grid k/4 in [-8,8], multiplier 0, 1, 2.5 or 4: result equals median + k * MAD computed independently"
    fn h_p06_mad() {
        let n = 1 + choose(tier(4, 5));
        let k = [0.0f32, 1.0, 2.5, 4.0][choose(4)];
        let v: Vec<f32> = (0..n).map(|_| dy(-32, 32, 2)).collect();
        let m = median(&v);
        let d: Vec<f32> = v.iter().map(|x| (x - m).abs()).collect();
        match adaptive_threshold_median_mad(&v, k) { Ok(t) => check(t == m + k * median(&d), 1), Err(_) => check(false, 2) }
    }
    //@ "ids": [11, 12], "split": [5], "bounds": "1..5 values on the grid k/16 in [-64,64]: with k=0 the threshold separates the values in halves and lies between min and max"
    fn h_p06_median() {
        let n = 1 + choose(tier(4, 6));
        let v: Vec<f32> = (0..n).map(|_| dy(-1024, 1024, 4)).collect();
        match adaptive_threshold_median_mad(&v, 0.0) {
            Ok(t) => {
                let (lt, le) = below(&v, t);
                check((2 * lt <= n) & (2 * le >= n), 11);
                let s = sorted(&v);
                check((t >= s[0]) & (t <= s[n - 1]), 12);
            }
            Err(_) => check(false, 13),
        }
    }
    //@ "ids": [15], "split": [5], "w": 2, "bounds": "5, 6, 9, 12 (thorough 24) values, all fixed except one at a symbolic grid value: median + 2.5 MAD exact"
    fn h_p06_mad_long() {
        let n = [5usize, 6, 9, 12, 24][choose(tier(4, 5))];
        let mut v: Vec<f32> = (0..n).map(|i| ((i * 29 + 7) % 23) as f32 * 0.5 - 4.0).collect();
        v[if choose(2) == 0 { 0 } else { n - 1 }] = dy(-20, 40, 2);
        let m = median(&v);
        let d: Vec<f32> = v.iter().map(|x| (x - m).abs()).collect();
        match adaptive_threshold_median_mad(&v, 2.5) { Ok(t) => check(t == m + 2.5 * median(&d), 15), Err(_) => check(false, 16) }
    }
    //@ "ids": [21, 22], "split": [5], "w": 2, "bounds": "1..5 (thorough 6) values, every finite value, every f32 percentile in [0,1]: the result is the order statistic of rank floor(n*p)"
    fn h_p06_pct() {
        let n = 1 + choose(tier(5, 6));
        let v: Vec<f32> = (0..n).map(|_| f_in(-1e30, 1e30)).collect();
        let p = unit();
        match percentile_threshold(&v, p) {
            Ok(t) => {
                let idx = ((n as f32 * p) as usize).min(n - 1);
                let (lt, le) = below(&v, t);
                check((lt <= idx) & (idx < le), 21);
                let mut m = false;
                for &x in &v { m |= x == t; }
                check(m, 22);
            }
            Err(_) => check(false, 23),
        }
    }
    //@ "ids": [24], "split": [3], "bounds": "10, 24 (thorough 40) values, all fixed except one; every percentile in [0,1]"
    fn h_p06_pct_long() {
        let n = [10usize, 24, 40][choose(tier(2, 3))];
        let mut v: Vec<f32> = (0..n).map(|i| ((i * 29 + 7) % 41) as f32 * 0.5 - 4.0).collect();
        v[choose(2) * (n / 2)] = dy(-20, 60, 1);
        let p = unit();
        match percentile_threshold(&v, p) {
            Ok(t) => {
                let idx = ((n as f32 * p) as usize).min(n - 1);
                let (lt, le) = below(&v, t);
                check((lt <= idx) & (idx < le), 24);
            }
            Err(_) => check(false, 25),
        }
    }
    //@ "ids": [31, 32, 33], "bounds": "argument validation: empty values, negative multiplier, percentile outside [0,1] (every f32)"
    fn h_p06_args() {
        check(adaptive_threshold_median_mad(&[], any_f32()).is_err() & percentile_threshold(&[], any_f32()).is_err(), 31);
        let v = [1.0f32, 2.0];
        let k = not_nan();
        check(adaptive_threshold_median_mad(&v, k).is_err() == (k < 0.0), 32);
        let p = any_f32();
        check(percentile_threshold(&v, p).is_ok() == ((p >= 0.0) & (p <= 1.0)), 33);
    }
}
