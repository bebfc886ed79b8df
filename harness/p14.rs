use super::*;
use stratum_dsp::features::period::{merge_bpm_candidates, BpmCandidate, BpmEstimate};
/*@{"assumptions": ["tempi from concrete tables or dyadic grids, confidences free in [0,1]", "octave tolerance 50 cents unless stated", "at most 12 candidates per method"]}@*/

fn cand(bpm: f32, confidence: f32) -> BpmCandidate { BpmCandidate { bpm, confidence } }
fn inr(b: f32) -> bool { (b >= 60.0) & (b <= 180.0) }
/// confidence of a pool of equal-tempo candidates before boosting
fn pooled(c: &[f32]) -> f32 {
    let mut s = 0.0f32;
    let mut m = 0.0f32;
    for &x in c { s += x; m = if x > m { x } else { m }; }
    if c.len() == 1 { s } else { let v = (s / c.len() as f32 + m) / 2.0 * 1.2; if v > 1.0 { 1.0 } else { v } }
}
/// rank weight: confidence, halved outside 60..180, in-range ones winning within 0.5
fn key(e: &BpmEstimate) -> f32 { if inr(e.bpm) { e.confidence + 0.5 } else { e.confidence * 0.5 } }

harnesses! {
    //@ "ids": [1, 2, 3], "split": [6], "w": 2, "bounds": "one candidate per method, confidences free in [0,1]: autocorrelation tempo equal, at double, at half, 1 BPM off, 20 BPM off, far off the comb tempo (in and out of 60..180): tempo, pooling, agreement count and confidence"
    fn h_p14_pair() {
        let k = choose(6);
        let c = [100.0f32, 128.0, 70.0, 190.0, 50.0][choose(5)];
        let a = [c, c * 2.0, c * 0.5, c + 1.0, c + 20.0, c + 75.0][k];
        let (ca, cc) = (unit(), unit());
        let r = match merge_bpm_candidates(vec![cand(a, ca)], vec![cand(c, cc)], 50.0) { Ok(r) => r, Err(_) => { check(false, 9); return } };
        // a candidate an octave away is corrected when the comb tempo is in range (for double tempo also when it is itself extreme)
        let fixed = (k == 1 && (inr(c) || a > 200.0 || a < 30.0)) || (k == 2 && inr(c));
        let one = k == 0 || k == 3 || fixed;
        check(r.len() == if one { 1 } else { 2 }, 1);
        if one && r.len() == 1 {
            let w = if k == 3 { (a + c) / 2.0 } else { c };
            check(close(r[0].bpm, w, 1e-4), 2);
            check(r[0].method_agreement == 2, 3);
            let boost = if inr(w) { 1.5 * 1.4 } else { 1.5 };
            let safety = if inr(w) { 1.0 } else { 1.0 };
            check(close(r[0].confidence, pooled(&[ca, cc]) * boost * safety, 1e-5), 4);
        }
        if !one && r.len() == 2 {
            let mut seen = 0;
            for e in &r {
                check((e.method_agreement == 1) & ((e.bpm == a) | (e.bpm == c)), 5);
                if e.bpm == a { seen |= 1 } else { seen |= 2 }
            }
            check(seen == 3, 6);
            let (x, y) = (key(&r[0]), key(&r[1]));
            check(x >= y - 1e-5, 7);
        }
        obs(r.len() as u32);
    }
    //@ "ids": [11, 12, 13], "split": [5, 2], "tsplit": [5, 3, 3], "w": 3, "bounds": "three candidates per method from 5 tempo tables (agreeing, octave-related, mixed), one confidence per method free: every candidate is pooled exactly once, pools within 2 BPM, list ordered, tempi inside the span of the inputs"
    fn h_p14_lists() {
        let (ta, tc): ([f32; 3], [f32; 3]) = [([120.0, 60.0, 240.0], [120.0, 80.0, 160.0]), ([200.0, 119.0, 90.0], [100.0, 121.0, 47.0]), ([40.0, 44.0, 50.0], [200.0, 210.0, 220.0]), ([75.0, 76.5, 78.0], [77.0, 150.0, 300.0]), ([128.0, 64.0, 85.0], [128.5, 171.0, 96.0])][choose(5)];
        let (p, q) = (choose(tier(2, 3)), choose(tier(2, 3)));
        let a: Vec<BpmCandidate> = ta.iter().enumerate().map(|(i, &t)| cand(t, if i == p { unit() } else { 0.75 - i as f32 * 0.25 })).collect();
        let c: Vec<BpmCandidate> = tc.iter().enumerate().map(|(i, &t)| cand(t, if i == q { unit() } else { 0.875 - i as f32 * 0.25 })).collect();
        let r = match merge_bpm_candidates(a, c, 50.0) { Ok(r) => r, Err(_) => { check(false, 9); return } };
        let mut n = 0;
        for i in 0..r.len() {
            n += r[i].method_agreement;
            check((r[i].bpm >= 40.0) & (r[i].bpm <= 300.0), 11);
            check((r[i].confidence >= 0.0) & (r[i].confidence <= 4.2), 12);
            if i > 0 { check(key(&r[i - 1]) >= key(&r[i]) - 1e-5, 13); }
            for j in 0..i { check(r[i].bpm != r[j].bpm, 14); }
        }
        check(n == 6, 15);
        // every comb candidate is within 2 BPM (running mean: 3) of some estimate
        for &t in &tc { let mut h = false; for e in &r { h |= (e.bpm - t).abs() <= 3.0; } check(h, 16); }
    }
    //@ "ids": [21, 22], "split": [3], "w": 2, "bounds": "a single method: 1..12 candidates with distinct tempi 5 BPM apart starting at 30, 58 or 150, the confidence of the first, middle or last free: nothing is invented or lost among the first ten, only in-range extras are kept beyond them (autocorrelation)"
    fn h_p14_single() {
        let base = [30.0f32, 58.0, 150.0][choose(3)];
        let n = [1usize, 5, 10, 12][choose(4)];
        let f = [0, n / 2, n - 1][choose(3)];
        let comb = choose(2) == 1;
        let v: Vec<BpmCandidate> = (0..n).map(|i| cand(base + 5.0 * i as f32, if i == f { unit() } else { 1.0 / (i as f32 + 1.0) })).collect();
        let keep: Vec<f32> = (0..n).filter(|&i| i < 10 || (!comb && inr(base + 5.0 * i as f32))).map(|i| base + 5.0 * i as f32).collect();
        let r = match if comb { merge_bpm_candidates(vec![], v, 50.0) } else { merge_bpm_candidates(v, vec![], 50.0) } { Ok(r) => r, Err(_) => { check(false, 9); return } };
        check(r.len() == keep.len(), 21);
        for &t in &keep { let mut h = 0; for e in &r { h += (e.bpm == t) as u32; } check(h == 1, 22); }
        for i in 0..r.len() {
            check(r[i].method_agreement == 1, 23);
            if i > 0 { check(key(&r[i - 1]) >= key(&r[i]) - 1e-5, 24); }
        }
    }
    //@ "ids": [31, 32], "split": [3], "w": 3, "bounds": "octave tolerance: comb tempo 100, autocorrelation tempo every k/4 in [30,230], tolerance 0, 25, 50 or 100 cents: corrected to the comb tempo exactly when its ratio to 2 or 1/2 is within the tolerance"
    fn h_p14_octave() {
        let cents = [25.0f32, 50.0, 100.0][choose(3)];
        let lim = [0.014545f32, 0.029302, 0.059463][match cents as u32 { 25 => 0, 50 => 1, _ => 2 }];
        let a = dy(30 * 4, 230 * 4, 2);
        let d2 = (a / 200.0 - 1.0).abs();
        let h2 = (100.0 / a / 2.0 - 1.0).abs();
        // stay clear of the rounding of the limit itself
        assume(((d2 - lim).abs() > 1e-4) & ((h2 - lim).abs() > 1e-4));
        let r = match merge_bpm_candidates(vec![cand(a, 0.5)], vec![cand(100.0, 0.75)], cents) { Ok(r) => r, Err(_) => { check(false, 9); return } };
        let same_tempo = (a - 100.0).abs() <= 2.0;
        let oct = (d2 < lim) | (h2 < lim);
        check((r.len() == 1) == (oct | same_tempo), 31);
        if r.len() == 1 { check(((r[0].bpm == 100.0) | same_tempo) & (r[0].method_agreement == 2), 32); }
    }
    //@ "ids": [41], "bounds": "no candidates give no estimates; arguments with zero confidence are accepted"
    fn h_p14_empty() {
        match merge_bpm_candidates(vec![], vec![], 50.0) { Ok(r) => check(r.is_empty(), 41), Err(_) => check(false, 42) }
    }
}
