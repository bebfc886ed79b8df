use super::*;
use stratum_dsp::analysis::result::Key;
use stratum_dsp::features::key::{detect_key, detect_key_weighted, templates::TemplateSet, KeyDetectionResult, KeyTemplates};
/*@{"assumptions": ["chroma values on dyadic grids, not NaN", "where two keys of one mode tie for the lead within 1e-5, scores are not compared"]}@*/

const KK: ([f32; 12], [f32; 12]) = ([6.35, 2.23, 3.48, 2.33, 4.38, 4.09, 2.52, 5.19, 2.39, 3.66, 2.29, 2.88], [6.33, 2.68, 3.52, 5.38, 2.60, 3.53, 2.54, 4.75, 3.98, 2.69, 3.34, 3.17]);
const TP: ([f32; 12], [f32; 12]) = ([5.0, 2.0, 3.5, 2.0, 4.5, 4.0, 2.0, 4.5, 2.0, 3.5, 1.5, 4.0], [5.0, 2.0, 3.5, 5.0, 2.0, 3.5, 2.0, 4.5, 3.5, 2.0, 4.0, 3.5]);
fn idx(k: Key) -> usize { match k { Key::Major(i) => i as usize, Key::Minor(i) => 12 + i as usize } }
fn len(v: &[f32; 12]) -> f32 { let mut s = 0.0f32; for x in v { s += x * x; } s.sqrt() }

/// the 24 scores: cosine-like match per key, scaled to the best of its mode, plus the circle-of-fifths bonus; false when a lead is ambiguous
fn scores(c: &[f32; 12], set: usize) -> ([f32; 24], bool) {
    let p = if set == 0 { KK } else { TP };
    let mut s = [0.0f32; 24];
    let mut clear = true;
    for m in 0..2 {
        let prof = if m == 0 { &p.0 } else { &p.1 };
        let l = len(prof);
        let mut top = 0;
        for k in 0..12 {
            let mut t = 0.0f32;
            for i in 0..12 { t += c[i] * prof[(i + 12 - k) % 12] / l; }
            s[m * 12 + k] = t;
            if t > s[m * 12 + top] { top = k; }
        }
        let best = s[m * 12 + top];
        for k in 0..12 { s[m * 12 + k] /= best; }
        for k in 0..12 { if k != top && s[m * 12 + k] > 1.0 - 1e-5 { clear = false; } }
        // distance on the circle of fifths: 7 * d = difference (mod 12)
        for k in 0..12 {
            let f = ((k + 12 - top) * 7) % 12;
            let d = if f > 6 { 12 - f } else { f };
            if d < 2 { s[m * 12 + k] += 0.2 * (1.0 - d as f32 * 0.5); }
        }
    }
    (s, clear)
}
/// internal consistency of a result
fn ranked(r: &KeyDetectionResult) -> bool {
    check(r.all_scores.len() == 24, 1);
    if r.all_scores.len() != 24 { return false; }
    let mut seen = [false; 24];
    for i in 0..24 {
        let k = r.all_scores[i].0;
        let ok = (match k { Key::Major(x) => x, Key::Minor(x) => x }) < 12 && !seen[idx(k) % 24];
        check(ok, 2);
        if !ok { return false; }
        seen[idx(k)] = true;
        if i > 0 { check(r.all_scores[i - 1].1 >= r.all_scores[i].1, 3); }
    }
    check(r.key == r.all_scores[0].0, 4);
    check(r.top_keys.len() == 3, 5);
    for i in 0..r.top_keys.len() { check(r.top_keys[i].0 == r.all_scores[i].0 && r.top_keys[i].1 == r.all_scores[i].1, 6); }
    let (a, b) = (r.all_scores[0].1, r.all_scores[1].1);
    check(close(r.confidence, if a > 0.0 { (a - b) / a } else { 0.0 }, 1e-6), 7);
    check((r.confidence >= 0.0) & (r.confidence <= 1.0), 8);
    true
}
fn verify(r: &KeyDetectionResult, c: &[f32; 12], set: usize) {
    if !ranked(r) { return; }
    let (s, clear) = scores(c, set);
    if clear { for (k, v) in &r.all_scores { check(close(*v, s[idx(*k)], 1e-4), 11); } }
    obs(idx(r.key) as u32);
}
fn templates(set: usize) -> KeyTemplates { if set == 0 { KeyTemplates::new() } else { KeyTemplates::new_with_template_set(TemplateSet::Temperley) } }
/// triads and scales on C
const CH: [[f32; 12]; 6] = [
    [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0], [1.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0],
    [1.0, 0.0, 0.5, 0.0, 0.75, 0.5, 0.0, 1.0, 0.0, 0.5, 0.0, 0.25], [1.0, 0.0, 0.5, 0.75, 0.0, 0.5, 0.0, 1.0, 0.5, 0.0, 0.5, 0.125],
    [1.0, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25], [0.5, 0.125, 1.0, 0.0, 0.0, 0.75, 0.25, 0.5, 0.0, 1.0, 0.0, 0.0]];
fn rot(c: &[f32; 12], t: usize) -> [f32; 12] { let mut o = [0.0f32; 12]; for i in 0..12 { o[(i + t) % 12] = c[i]; } o }

harnesses! {
    //@ "ids": [1, 2, 3, 4, 5, 6, 7, 8, 11], "split": [2, 6], "w": 3, "replays": 24, "bounds": "both template sets; 6 chord or scale profiles, transposed by every number of semitones, the strength of one pitch class every k/4 in [0,2] (fixed by the executor)"
    fn h_p23_profile() {
        let set = choose(2);
        let mut c = CH[choose(6)];
        let p = [4usize, 10][choose(2)];
        c[p] = conc(us(0, tier(4, 8))) as f32 / tier(2, 4) as f32;
        let c = rot(&c, conc(us(0, 11)));
        let r = match detect_key(&[c.to_vec()], &templates(set)) { Ok(r) => r, Err(_) => { check(false, 9); return } };
        verify(&r, &c, set);
    }
    //@ "ids": [1, 2, 3, 4, 5, 6, 7, 8, 11], "split": [6], "w": 2, "replays": 24, "bounds": "three frames of chords with weights from {1, 0.5, 0, -1, NaN} each (thorough: also 2, 0.25), and any weight at or below zero or NaN on the last: scores are those of the weighted sum of the frames, non-positive weights ignore the frame"
    fn h_p23_weights() {
        let set = choose(2);
        let a = choose(3);
        let f = [CH[a], CH[a + 3], rot(&CH[2], 5)];
        let tab = [1.0f32, 0.5, 0.0, -1.0, f32::NAN, 2.0, 0.25];
        let w = [tab[choose(tier(5, 7))], tab[choose(tier(5, 7))], any_f32()];
        assume(!(w[2] > 0.0));
        let mut c = [0.0f32; 12];
        let mut any = false;
        for i in 0..2 { if w[i] > 0.0 { any = true; for j in 0..12 { c[j] += w[i] * f[i][j]; } } }
        let v: Vec<Vec<f32>> = f.iter().map(|x| x.to_vec()).collect();
        let r = match detect_key_weighted(&v, &templates(set), Some(&w)) { Ok(r) => r, Err(_) => { check(false, 9); return } };
        if any { verify(&r, &c, set); } else { ranked(&r); check(r.confidence == 0.0, 12); }
    }
    //@ "ids": [4, 11], "split": [6], "w": 2, "replays": 24, "bounds": "1..4 (thorough 8) frames without weights, profiles from the table transposed: the frames add up"
    fn h_p23_frames() {
        let a = choose(6);
        let n = choose_in(1, tier(4, 8));
        let t = conc(us(0, 11));
        let mut c = [0.0f32; 12];
        let v: Vec<Vec<f32>> = (0..n).map(|i| { let x = rot(&CH[(a + i) % 6], if i == 1 { t } else { 0 }); for j in 0..12 { c[j] += x[j]; } x.to_vec() }).collect();
        let r = match detect_key(&v, &templates(0)) { Ok(r) => r, Err(_) => { check(false, 9); return } };
        verify(&r, &c, 0);
    }
    //@ "ids": [21, 22, 23], "split": [4], "bounds": "no frames, frames of 0..13 pitch classes other than 12 in any of 3 positions, weights of a different count: errors; silence: 24 keys, confidence 0"
    fn h_p23_args() {
        let t = templates(choose(2));
        match choose(4) {
            0 => check(detect_key(&[], &t).is_err() && detect_key_weighted(&[], &t, Some(&[])).is_err(), 21),
            1 => { let k = choose(14); let p = choose(3); if k == 12 { return; } let mut v = vec![vec![0.5f32; 12]; 3]; v[p] = vec![0.5; k]; check(detect_key(&v, &t).is_err(), 22); }
            2 => { let k = choose(5); if k == 2 { return; } check(detect_key_weighted(&[vec![0.5; 12], vec![0.25; 12]], &t, Some(&vec![1.0; k])).is_err(), 23); }
            _ => { match detect_key(&vec![vec![0.0; 12]; choose_in(1, 2)], &t) { Ok(r) => { ranked(&r); check(r.confidence == 0.0, 24); } Err(_) => check(false, 9) } }
        }
    }
    //@ "ids": [31, 32, 33], "split": [2], "bounds": "all 24 templates of both sets: unit length, the published profile transposed to the tonic, looked up by key index (indices above 11 by pitch class)"
    fn h_p23_templates() {
        let set = choose(2);
        let t = templates(set);
        let p = if set == 0 { KK } else { TP };
        let k = us(0, 23);
        let k = conc(k);
        let prof = if k < 12 { &p.0 } else { &p.1 };
        let v = t.get_template(k as u32);
        check(v.len() == 12, 31);
        if v.len() != 12 { return; }
        let l = len(prof);
        for i in 0..12 { check(close(v[i], prof[(i + 24 - k) % 12] / l, 1e-6), 32); }
        let z = if k < 12 { t.get_major_template(k as u32 + 12) } else { t.get_minor_template(k as u32) };
        for i in 0..12 { check(z[i] == v[i], 33); }
    }
}
