use super::*;
use stratum_dsp::features::onset::energy_flux::*;
/*@{"assumptions": ["sample values on the grid k/8 in [-1,1] with at most one non-zero sample per frame, frame length 1, 4 or 16, so that frame RMS values are exact", "threshold -80, -20, -6 or 0 dB"]}@*/

const DB: [f32; 4] = [-80.0, -20.0, -6.0, 0.0];

/// reference: positions whose rise in frame RMS is a local maximum above the relative threshold
fn want(e: &[f32], t: f32) -> Vec<bool> {
    let m = e.len();
    let mut fl = vec![];
    for i in 1..m { let d = e[i] - e[i - 1]; fl.push(if d > 0.0 { d } else { 0.0 }); }
    let mut mx = 0.0f32;
    for &x in &fl { mx = if x > mx { x } else { mx }; }
    let thr = mx * t;
    let l = fl.len();
    let mut r = vec![];
    for i in 0..l {
        let left = i == 0 || fl[i] > fl[i - 1];
        let right = i + 1 == l || fl[i] >= fl[i + 1];
        r.push((l > 1) & (mx > 1e-10) & (fl[i] > thr) & left & right);
    }
    r
}
fn run(x: &[f32], e: &[f32], frame: usize, hop: usize, di: usize) {
    let r = match detect_energy_flux_onsets(x, frame, hop, DB[di]) { Ok(v) => v, Err(_) => { check(false, 1); return; } };
    for i in 0..r.len() {
        check((r[i] < x.len()) & (r[i] % hop == 0) & (r[i] >= hop), 2);
        check((i == 0) || (r[i] > r[i - 1]), 3);
    }
    let w = want(e, 10.0f32.powf(DB[di] / 20.0));
    for i in 0..w.len() {
        let mut got = false;
        for &o in &r { got |= o == (i + 1) * hop; }
        check(got == w[i], 4);
    }
    obs(r.len() as u32);
}
harnesses! {
    //@ "ids": [2, 3, 4], "split": [4, 4], "w": 4, "tbudget": 2500, "bounds": "2..5 (thorough 6) frames, frame = hop in {1, 4, 16}, symbolic level per frame, thresholds -80/-20/-6/0 dB: onsets are exactly the local maxima of the RMS rise above the threshold, in time order, inside the signal"
    fn h_p07_levels() {
        let di = choose(4);
        let m = choose_in(2, tier(5, 6));
        let hop = [1usize, 4, 16][choose(tier(2, 3))];
        let mut x = vec![];
        let mut e = vec![];
        for i in 0..m {
            let v = dy(-8, 8, 3);
            for k in 0..hop { x.push(if k == i % hop { v } else { 0.0 }); }
            e.push(v.abs() * [1.0, 0.5, 0.25][match hop { 1 => 0, 4 => 1, _ => 2 }]);
        }
        run(&x, &e, hop, hop, di);
    }
    //@ "ids": [2, 3, 4], "split": [3], "w": 3, "bounds": "overlapping frames: frame 4, hop 1..3, 7..12 samples, one impulse of symbolic level at every position plus a fixed one"
    fn h_p07_overlap() {
        let hop = 1 + choose(3);
        let n = choose_in(7, tier(10, 12));
        let p = choose(n);
        let mut x = vec![0.0f32; n];
        x[p] = dy(-8, 8, 3);
        let q = p + 4;
        if q < n { x[q] = dy(0, 8, 3); }
        let m = (n - 4) / hop + 1;
        let mut e = vec![];
        for i in 0..m {
            let mut s = 0.0f32;
            for k in 0..4 { s += x[i * hop + k].abs(); }   // at most one non-zero sample per frame
            e.push(s * 0.5);
        }
        run(&x, &e, 4, hop, choose(4));
    }
    //@ "ids": [11, 12], "split": [6], "bounds": "0..4 (thorough 6) samples, one on the grid k/4 and one replaced by NaN, infinity, the largest or a subnormal value, frame and hop 0..3, thresholds in -80..0 dB, NaN or 1e9: no panic, positions in range and increasing; zero frame or hop is rejected; empty signal gives none"
    fn h_p07_total() {
        let n = choose(tier(5, 7));
        let mut x: Vec<f32> = (0..n).map(|i| [0.5, -0.25, 1.0, 0.0, 0.75, -1.0][i]).collect();
        if n > 0 { x[choose(n)] = dy(-4, 4, 2); }
        let sp = choose(6);
        if n > 0 && sp > 0 { x[choose(n)] = [0.0, f32::NAN, f32::INFINITY, f32::MAX, -1e-41, f32::NEG_INFINITY][sp]; }
        let (f, h) = (choose(4), choose(3));
        match detect_energy_flux_onsets(&x, f, h, [DB[0], DB[3], f32::NAN, 1e9][choose(4)]) {
            Ok(r) => {
                check((n == 0) | ((f > 0) & (h > 0)), 11);
                for i in 0..r.len() { check((r[i] < n) & ((i == 0) || (r[i] > r[i - 1])), 12); }
            }
            Err(_) => check((n > 0) & ((f == 0) | (h == 0)), 13),
        }
    }
    //@ "ids": [2, 3, 4], "split": [4], "w": 2, "bounds": "24 frames of fixed staircase levels, hop 4, two adjacent frames at every position symbolic"
    fn h_p07_long() {
        let di = choose(4);
        let m = tier(16, 32);
        let p = choose(m - 1);
        let mut x = vec![];
        let mut e = vec![];
        for i in 0..m {
            let v = if i == p || i == p + 1 { dy(0, 8, 3) } else { ((i * i * 7 + 3 * i) % 9) as f32 * 0.125 };
            for k in 0..4 { x.push(if k == 1 { v } else { 0.0 }); }
            e.push(v.abs() * 0.5);
        }
        run(&x, &e, 4, 4, di);
    }
}
