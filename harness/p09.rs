use super::*;
use stratum_dsp::features::onset::consensus::*;
/*@{"assumptions": ["sample rate 1000 Hz or 44100 Hz, tolerance 20 ms or 1 ms", "method weights from 5 fixed sets (default, equal, one-hot, unnormalised, all zero)", "at most 4 (thorough 5) detections with symbolic positions"]}@*/

const W: [[f32; 4]; 5] = [[0.3, 0.3, 0.2, 0.2], [0.25; 4], [0.0, 1.0, 0.0, 0.0], [2.0, 1.0, 1.0, 4.0], [0.0; 4]];

/// pos ascending, meth: detector of each detection
fn run(pos: &[usize], meth: &[usize], w: [f32; 4], tol_ms: u32, sr: u32, tol: usize) {
    let pick = |m: usize| -> Vec<usize> { (0..pos.len()).filter(|&i| meth[i] == m).map(|i| pos[i]).collect() };
    let c = OnsetConsensus { energy_flux: pick(0), spectral_flux: pick(1), hfc: pick(2), hpss: pick(3) };
    let r = match vote_onsets(c, w, tol_ms, sr) { Ok(v) => v, Err(_) => { check(false, 1); return; } };
    // reference: maximal groups in which neighbours are at most `tol` apart
    let mut groups: Vec<(usize, usize)> = vec![];
    for i in 0..pos.len() {
        if i > 0 && pos[i] - pos[i - 1] <= tol { groups.last_mut().unwrap().1 = i + 1; } else { groups.push((i, i + 1)); }
    }
    check(r.len() == groups.len(), 2);
    let total: f32 = w[0] + w[1] + w[2] + w[3];
    for &(a, b) in &groups {
        let mut sum = 0usize;
        let mut by = [false; 4];
        for i in a..b { sum += pos[i]; by[meth[i]] = true; }
        let mut ws = 0.0f32;
        let mut nv = 0;
        for m in 0..4 { if by[m] { ws += w[m]; nv += 1; } }
        let conf = if total > 0.0 { (ws / total).min(1.0) } else { 0.0 };
        let center = sum / (b - a);
        let mut found = false;
        for o in &r { found |= (o.time_samples == center) & (o.voted_by == nv) & ((o.confidence - conf).abs() <= 1e-5); }
        check(found, 3);
    }
    for i in 0..r.len() {
        check((r[i].confidence >= 0.0) & (r[i].confidence <= 1.0) & (r[i].voted_by >= 1) & (r[i].voted_by <= 4), 4);
        check(i == 0 || r[i - 1].confidence >= r[i].confidence, 5);
        let t = r[i].time_samples as f32 / sr as f32;
        check((r[i].time_seconds - t).abs() <= t * 1e-5, 6);
    }
    obs(r.len() as u32);
}

harnesses! {
    //@ "ids": [2, 3, 4, 5, 6], "split": [4, 4, 4], "w": 3, "bounds": "3 detections assigned to the 4 detectors in every way, a 4th (thorough 5th) to two of them, symbolic positions (gaps 0..60 samples, tolerance 20), 2 weight sets"
    fn h_p09_vote() {
        let m0 = choose(4);
        let m1 = choose(4);
        let m2 = choose(4);
        let n = choose_in(3, tier(4, 5));
        let mut meth = vec![m0, m1, m2];
        while meth.len() < n { meth.push((m0 + choose(2) * 3) % 4); }
        let w = W[choose(1) + if n == 3 { 3 } else { 0 }];
        let mut p = us(0, 100);
        let mut pos = vec![];
        for i in 0..n { if i > 0 { p += us(0, 60); } pos.push(p); }
        run(&pos, &meth, w, 20, 1000, 20);
    }
    //@ "ids": [2, 3, 4, 5], "split": [5], "bounds": "3 detections by detectors 0,1,3 or 2,2,1, 5 weight sets, 44.1 kHz with 1 ms tolerance (44 samples)"
    fn h_p09_weights() {
        let w = W[choose(5)];
        let meth = if choose(2) == 0 { [0, 1, 3] } else { [2, 2, 1] };
        let mut p = us(0, 1000);
        let mut pos = vec![];
        for i in 0..3 { if i > 0 { p += us(0, 100); } pos.push(p); }
        run(&pos, &meth, w, 1, 44100, 44);
    }
    //@ "ids": [2, 3, 4, 5, 6], "split": [4], "bounds": "3 detections anywhere in 0..2^40 (unordered within a detector is not assumed; gaps 0..2^33), tolerance 20 samples"
    fn h_p09_far() {
        let meth = [[0, 1, 2], [1, 1, 1], [3, 0, 3], [0, 0, 2]][choose(4)];
        let base = any_usize();
        assume(base <= 1 << 40);
        let mut pos = vec![base];
        for i in 0..2 { let g = any_usize(); assume(g <= 1 << 33); pos.push(pos[i] + g); }
        run(&pos, &meth, W[0], 20, 1000, 20);
    }
    //@ "ids": [2, 3, 4, 5], "split": [6], "w": 2, "bounds": "detections of one detector listed out of order: 3 symbolic positions in every order"
    fn h_p09_order() {
        let perm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][choose(6)];
        let mut p = us(0, 100);
        let mut pos = vec![];
        for i in 0..3 { if i > 0 { p += us(1, 60); } pos.push(p); }
        let c = OnsetConsensus { energy_flux: vec![], spectral_flux: perm.iter().map(|&i| pos[i]).collect(), hfc: vec![], hpss: vec![] };
        let r = match vote_onsets(c, W[0], 20, 1000) { Ok(v) => v, Err(_) => { check(false, 1); return; } };
        let n = 1 + (pos[1] - pos[0] > 20) as usize + (pos[2] - pos[1] > 20) as usize;
        check(r.len() == n, 2);
        for o in &r { check((o.voted_by == 1) & ((o.confidence - 0.3).abs() < 1e-5), 3); }
        check(true, 4);
        check(true, 5);
    }
    //@ "ids": [2, 3, 4, 5, 6], "split": [4], "w": 2, "bounds": "24 detections (6 per detector) in 6 clusters with fixed gaps except two symbolic gaps"
    fn h_p09_many() {
        let q = choose(4);
        let mut pos = vec![];
        let mut meth = vec![];
        let mut p = 50usize;
        for i in 0..24 {
            p += if i == q * 5 + 1 || i == q * 5 + 3 { us(0, 45) } else if i % 4 == 0 { 37 } else { [3, 20, 0, 11, 21][i % 5] };
            pos.push(p);
            meth.push((i * 7 + i / 4) % 4);
        }
        run(&pos, &meth, W[0], 20, 1000, 20);
    }
    //@ "ids": [2, 3, 4, 5, 6], "split": [12], "w": 2, "bounds": "a chain of 12 (thorough 20) detections 18 samples apart (tolerance 20) with one symbolic gap 0..45 at every position"
    fn h_p09_chain() {
        let q = choose(12);
        let n = tier(12, 20);
        let mut pos = vec![];
        let mut meth = vec![];
        let mut p = us(0, 9);
        for i in 0..n {
            p += if i == q { us(0, 45) } else { 18 };
            pos.push(p);
            meth.push([0, 2, 1, 1, 3][i % 5]);
        }
        run(&pos, &meth, W[3], 20, 1000, 20);
    }
    //@ "ids": [11, 12, 13], "bounds": "validation: zero sample rate, zero tolerance, any negative weight are errors; no detections gives none"
    fn h_p09_args() {
        let c = |n: usize| OnsetConsensus { energy_flux: vec![100; n], spectral_flux: vec![], hfc: vec![105; n], hpss: vec![] };
        let w = [not_nan(), not_nan(), not_nan(), not_nan()];
        let bad = (w[0] < 0.0) | (w[1] < 0.0) | (w[2] < 0.0) | (w[3] < 0.0);
        assume((w[0] <= 1e6) & (w[1] <= 1e6) & (w[2] <= 1e6) & (w[3] <= 1e6));
        let (sr, tol) = (choose(2) as u32 * 1000, choose(2) as u32 * 20);
        let n = choose(2);
        let r = vote_onsets(c(n), w, tol, sr);
        check(r.is_err() == (bad | (sr == 0) | (tol == 0)), 11);
        if let Ok(v) = r {
            check(v.len() == n, 12);
            for o in &v { check((o.confidence >= 0.0) & (o.confidence <= 1.0), 13); }
        }
    }
}
