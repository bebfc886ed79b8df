use super::*;
use stratum_dsp::features::beat_tracking::bayesian::BayesianBeatTracker;
/*@{"assumptions": ["onset positions on dyadic grids, tempi from tables", "likelihoods within 1e-4 of each other are not ranked"]}@*/

/// how well the onsets sit on a beat grid of `bpm` started at the first one: exp(mean of -(d/50ms)^2 / 2)
fn fit(on: &[f32], bpm: f32) -> f32 {
    let t = 60.0 / bpm;
    let mut s = 0.0f32;
    for &o in on { let x = o - on[0]; let d = x - (x / t).round() * t; s -= d * d * 200.0; }
    (s / on.len() as f32).exp()
}
fn pen(change: f32) -> f32 { if change < 1.0 { 1.0 } else if change < 3.0 { 0.8 } else { 0.5 } }
/// number of tempi tried around `cur`: half-BPM steps from max(60, cur-5) to min(180, cur+5)
fn tried(cur: f32) -> (f32, usize) {
    let lo = if cur - 5.0 > 60.0 { cur - 5.0 } else { 60.0 };
    let hi = if cur + 5.0 < 180.0 { cur + 5.0 } else { 180.0 };
    (lo, if hi < lo { 0 } else { ((hi - lo) * 2.0) as usize + 1 })
}
const CUR: [f32; 9] = [120.0, 100.25, 60.0, 63.5, 178.0, 57.0, 184.5, 180.0, 150.0];

/// one update from `cur`, compared with the best fit of all tempi tried
fn verify(t: &mut BayesianBeatTracker, on: &[f32]) {
    let cur = t.current_bpm;
    let h0 = t.history.len();
    let (b, c) = match t.update_with_onsets(on, 44100) { Ok(r) => r, Err(_) => { check(false, 9); return } };
    check((t.current_bpm == b) & (t.get_bpm() == b) & (t.current_confidence == c) & (t.get_confidence() == c), 1);
    check(t.history.len() == h0 + 1 && t.get_history()[h0] == b, 2);
    check((c >= 0.0) & (c <= 1.0), 3);
    let (lo, n) = tried(cur);
    let mut best = 0.0f32;
    for i in 0..n { let f = fit(on, lo + 0.5 * i as f32); best = if f > best { f } else { best }; }
    if n == 0 { check((b == cur) & (c == 0.0), 4); return; }
    let k = (b - lo) * 2.0;
    if best > 1e-3 {
        check((k >= 0.0) & (k <= (n - 1) as f32) & (k == k.round()), 5);
        let f = fit(on, b);
        check(f >= best - 1e-4, 6);
        check(close(c, f * pen((b - cur).abs()), 1e-4), 7);
    }
    obs(b as u32);
}

harnesses! {
    //@ "ids": [1, 2, 3, 5, 6, 7], "split": [3, 3], "tsplit": [9, 3], "w": 3, "bounds": "one update: 3 (thorough 9) current tempi including the ends of 60..180, four onsets on a beat grid whose tempo differs by every k/4 BPM in [-8,8] (fixed by the executor), regular, with a skipped beat, or with one displaced by 1/32 s"
    fn h_p19_grid() {
        let cur = CUR[choose(tier(3, 9))];
        let shape = choose(3);
        let k = conc(us(0, 64));
        let t = 60.0 / (cur + k as f32 / 4.0 - 8.0);
        let on = match shape { 0 => [2.0, 2.0 + t, 2.0 + 2.0 * t, 2.0 + 3.0 * t], 1 => [0.0, t, 3.0 * t, 7.0 * t], _ => [1.0, 1.03125 + t, 1.0 + 2.0 * t, 1.0 + 4.0 * t] };
        let mut tr = BayesianBeatTracker::new(cur, 0.5);
        verify(&mut tr, &on);
    }
    //@ "ids": [1, 2, 3, 4], "split": [9], "w": 2, "bounds": "tempi at and beyond the ends of the tried range (45 to 195 BPM), two onsets k/32 s apart up to 2 s (fixed by the executor)"
    fn h_p19_edge() {
        let cur = [57.0f32, 184.5, 60.0, 180.0, 54.5, 185.5, 45.0, 195.0, 55.0][choose(9)];
        let d = conc(us(0, tier(32, 64))) as f32 / 32.0;
        let mut tr = BayesianBeatTracker::new(cur, 0.5);
        verify(&mut tr, &[0.5, 0.5 + d]);
    }
    //@ "ids": [1, 2, 3, 6], "split": [3], "w": 2, "bounds": "three successive updates from 120 BPM: each tracks the evidence given last, onsets at a tempo drifting by every k/2 BPM per step in [-5,5] (fixed by the executor)"
    fn h_p19_drift() {
        let cur = [120.0f32, 62.0, 176.0][choose(3)];
        let step = conc(us(0, 20)) as f32 / 2.0 - 5.0;
        let mut tr = BayesianBeatTracker::new(cur, 0.75);
        for i in 1..4 {
            let t = 60.0 / (cur + step * i as f32);
            verify(&mut tr, &[0.0, t, 2.0 * t, 3.0 * t, 4.0 * t]);
        }
        check(tr.history.len() == 4 && tr.history[0] == cur, 8);
    }
    //@ "ids": [11, 12, 13], "split": [3], "bounds": "every starting confidence and tempo (all f32 but NaN): confidence clamped, no onsets or an impossible tempo is an error which changes nothing"
    fn h_p19_args() {
        let bpm = any_f32();
        assume(!bpm.is_nan());
        let c = any_f32();
        assume(!c.is_nan());
        let mut tr = BayesianBeatTracker::new(bpm, c);
        let cc = if c < 0.0 { 0.0 } else if c > 1.0 { 1.0 } else { c };
        check((tr.current_confidence == cc) & (tr.current_bpm == bpm), 11);
        let k = choose(3);
        if k == 0 { check(tr.update_with_onsets(&[], 44100).is_err(), 12); }
        if k == 1 { assume((bpm <= 1e-10) | (bpm > 300.0)); check(tr.update_with_onsets(&[1.0], 44100).is_err(), 13); }
        check((tr.current_bpm == bpm) & (tr.current_confidence == cc) & (tr.history.len() == 1) && tr.history[0] == bpm, 14);
    }
    //@ "ids": [1, 2, 3], "split": [5], "w": 2, "bounds": "totality: one or two onsets anywhere in [-10000,10000] s (every f32), 5 current tempi: tempo stays within 5 BPM and 60..180 on the half-BPM steps, history grows by it, for one onset confidence in [0,1]"
    fn h_p19_any() {
        let cur = CUR[choose(5)];
        let on: Vec<f32> = (0..choose_in(1, 2)).map(|_| f_in(-1e4, 1e4)).collect();
        let mut t = BayesianBeatTracker::new(cur, 0.5);
        let (b, c) = match t.update_with_onsets(&on, 44100) { Ok(r) => r, Err(_) => { check(false, 9); return } };
        check((t.current_bpm == b) & (t.current_confidence == c), 1);
        check(t.history.len() == 2 && t.history[1] == b, 2);
        if on.len() == 1 { check((c >= 0.0) & (c <= 1.0), 3); }
        let (lo, n) = tried(cur);
        let mut on_grid = b == cur;
        for i in 0..n { on_grid |= b == lo + 0.5 * i as f32; }
        check(on_grid, 5);
    }
}
