use super::*;
use stratum_dsp::features::chroma::smoothing::{smooth_chroma, smooth_chroma_average};
/*@{"assumptions": ["chroma values are not NaN (median), on a dyadic grid (mean)", "at most 16 frames, 12 pitch classes, windows up to 21"]}@*/

/// first and last frame of the window around frame i of n
fn span(i: usize, n: usize, w: usize, odd: bool) -> (usize, usize) {
    let w = if odd && w % 2 == 0 { w + 1 } else { w };
    let h = w / 2;
    let a = if i > h { i - h } else { 0 };
    let b = i + (w - 1 - h);
    (a, if b < n { b } else { n - 1 })
}
fn shape(r: &[Vec<f32>], n: usize, k: usize) -> bool {
    if r.len() != n { return false; }
    r.iter().all(|f| f.len() == k)
}
fn median_ok(c: &[Vec<f32>], w: usize) {
    let (n, k) = (c.len(), c[0].len());
    let r = smooth_chroma(c, w);
    let ok = shape(&r, n, k);
    check(ok, 1);
    if !ok { return; }
    for i in 0..n {
        let (a, b) = if w < 2 { (i, i) } else { span(i, n, w, true) };
        for s in 0..k {
            let v = r[i][s];
            let (mut lt, mut le) = (0usize, 0usize);
            for f in a..=b { lt += (c[f][s] < v) as usize; le += (c[f][s] <= v) as usize; }
            let m = (b - a + 1) / 2;
            check((lt <= m) & (m < le), 2);
        }
    }
}
fn mean_ok(c: &[Vec<f32>], w: usize) {
    let (n, k) = (c.len(), c[0].len());
    let r = smooth_chroma_average(c, w);
    let ok = shape(&r, n, k);
    check(ok, 11);
    if !ok { return; }
    for i in 0..n {
        let (a, b) = if w < 2 { (i, i) } else { span(i, n, w, false) };
        for s in 0..k {
            let mut t = 0.0f32;
            for f in a..=b { t += c[f][s]; }
            check(close(r[i][s], t / (b - a + 1) as f32, 1e-5), 12);
        }
    }
}
/// frames of fixed values (all different inside a pitch class), for filling around the free ones
fn fill(i: usize, s: usize) -> f32 { ((i * 7 + s * 5) % 23) as f32 / 32.0 }

harnesses! {
    //@ "ids": [1, 2], "split": [7, 4], "tsplit": [7, 5], "w": 3, "bounds": "median: 1..4 (thorough 5) frames of one pitch class, all values free (every f32 but NaN), windows 0..5 and 7: each output is the middle of its window's values, the upper one where the window is cut to an even number"
    fn h_p20_median_free() {
        let w = [2usize, 3, 4, 5, 7, 0, 1][choose(7)];
        let n = choose_in(1, tier(4, 5));
        let c: Vec<Vec<f32>> = (0..n).map(|_| vec![not_nan()]).collect();
        median_ok(&c, w);
    }
    //@ "ids": [1, 2], "split": [4, 3], "w": 3, "bounds": "median: 8 (thorough 16) frames of 12 pitch classes (4 of them with the two longest windows), two values of one pitch class free, windows 3, 4, 9 and 21: other pitch classes are unaffected"
    fn h_p20_median_wide() {
        let w = [3usize, 4, 9, 21][choose(4)];
        let n = tier(8, 16);
        let (p, q) = [(0, 1), (3, 6), (n - 2, n - 1)][choose(3)];
        let k = if w > 4 && !thorough() { 4 } else { 12 };
        let s = [0usize, k / 2, k - 1][choose(3)];
        let mut c: Vec<Vec<f32>> = (0..n).map(|i| (0..k).map(|j| fill(i, j)).collect()).collect();
        c[p][s] = not_nan();
        c[q][s] = not_nan();
        median_ok(&c, w);
    }
    //@ "ids": [11, 12], "split": [7], "w": 2, "bounds": "mean: 1..6 (thorough 9) frames of 2 pitch classes on the grid k/256 in [0,4], windows 0..5 and 8: each output is the mean of its window, cut at the ends; even windows reach one frame further back"
    fn h_p20_mean() {
        let w = [2usize, 3, 4, 5, 8, 0, 1][choose(7)];
        let n = choose_in(1, tier(6, 9));
        let c: Vec<Vec<f32>> = (0..n).map(|_| (0..2).map(|_| dy(0, 1024, 8)).collect()).collect();
        mean_ok(&c, w);
    }
    //@ "ids": [11, 12], "split": [3], "bounds": "mean: 16 frames of 12 pitch classes, two columns free on the grid k/256, windows 3, 9 and 21"
    fn h_p20_mean_wide() {
        let w = [3usize, 9, 21][choose(3)];
        let (p, q) = [(0usize, 11usize), (5, 6), (1, 4)][choose(3)];
        let c: Vec<Vec<f32>> = (0..16).map(|i| (0..12).map(|j| if j == p || j == q { dy(0, 256, 8) } else { fill(i, j) }).collect()).collect();
        mean_ok(&c, w);
    }
    //@ "ids": [21], "bounds": "no frames smooth to no frames, any window up to 8; frames without pitch classes stay empty"
    fn h_p20_empty() {
        let w = choose(9);
        check(smooth_chroma(&[], w).is_empty() && smooth_chroma_average(&[], w).is_empty(), 21);
        check(shape(&smooth_chroma(&[vec![], vec![]], w), 2, 0) && shape(&smooth_chroma_average(&[vec![], vec![]], w), 2, 0), 22);
    }
}
