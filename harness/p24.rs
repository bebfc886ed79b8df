use super::*;
use stratum_dsp::analysis::result::Key;
use stratum_dsp::features::key::detector::detect_key_median;
use stratum_dsp::features::key::{compute_key_clarity, detect_key_ensemble, detect_key_multi_scale, detect_key_weighted, detect_key_weighted_mode_heuristic, templates::TemplateSet, KeyDetectionResult, KeyTemplates};
/*@{"assumptions": ["chroma values on dyadic grids, not NaN", "base ranking and clarity as decided by P22 and P23", "mode decisions within 1e-5 of their limit are not compared"]}@*/

fn idx(k: Key) -> usize { match k { Key::Major(i) => i as usize, Key::Minor(i) => 12 + i as usize } }
fn key(i: usize) -> Key { if i < 12 { Key::Major(i as u32) } else { Key::Minor(i as u32 - 12) } }
const CH: [[f32; 12]; 6] = [
    [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0], [1.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0],
    [1.0, 0.0, 0.5, 0.0, 0.75, 0.5, 0.0, 1.0, 0.0, 0.5, 0.0, 0.25], [1.0, 0.0, 0.5, 0.75, 0.0, 0.5, 0.0, 1.0, 0.5, 0.0, 0.5, 0.125],
    [1.0, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25], [0.5, 0.125, 1.0, 0.0, 0.0, 0.75, 0.25, 0.5, 0.0, 1.0, 0.0, 0.0]];
fn rot(c: &[f32; 12], t: usize) -> [f32; 12] { let mut o = [0.0f32; 12]; for i in 0..12 { o[(i + t) % 12] = c[i]; } o }
fn table(r: &KeyDetectionResult) -> [f32; 24] { let mut s = [0.0f32; 24]; for (k, v) in &r.all_scores { s[idx(*k)] = *v; } s }
/// 24 distinct keys, best first
fn ranked(r: &KeyDetectionResult) -> bool {
    let mut seen = [false; 24];
    let mut ok = r.all_scores.len() == 24;
    for i in 0..r.all_scores.len() {
        let k = idx(r.all_scores[i].0);
        if k >= 24 || seen[k] { ok = false; break; }
        seen[k] = true;
        if i > 0 && !(r.all_scores[i - 1].1 >= r.all_scores[i].1) { ok = false; }
    }
    check(ok, 1);
    check((r.confidence >= 0.0) & (r.confidence <= 1.0), 2);
    check(r.top_keys.len() == 3, 3);
    ok && r.top_keys.len() == 3
}
fn lead(s: &[f32; 24], k: usize) -> f32 {
    let mut o = 0.0f32;
    for i in 0..24 { if i != k && s[i] > o { o = s[i]; } }
    let c = if s[k] > 0.0 { (s[k] - o) / s[k] } else { 0.0 };
    if c < 0.0 { 0.0 } else { c }
}
/// the result is the plain ranking of the expected scores
fn plain(r: &KeyDetectionResult, want: &[f32; 24]) {
    if !ranked(r) { return; }
    let s = table(r);
    for i in 0..24 { check(close(s[i], want[i], 1e-4), 4); }
    check(r.key == r.all_scores[0].0, 5);
    for i in 0..3 { check(r.top_keys[i].0 == r.all_scores[i].0, 6); }
    check(close(r.confidence, lead(&s, idx(r.key)), 1e-5), 7);
    obs(idx(r.key) as u32);
}
/// which mode the distinguishing degrees (third counted twice, sixth, seventh) speak for: 1 minor, 2 major, 0 neither, 9 too close to call
fn mode(a: &[f32; 12], t: usize, m: f32) -> u32 {
    let (mut mi, mut ma, mut close_call) = (0.0f32, 0.0f32, false);
    for &(lo, w) in &[(3usize, 2.0f32), (8, 1.0), (10, 1.0)] {
        let (x, y) = (a[(t + lo) % 12], a[(t + lo + 1) % 12]);
        let d = (x - y).abs() * w;
        if (x - y * (1.0 + m)).abs() < 1e-6 && x != y { close_call = true; }
        if (y - x * (1.0 + m)).abs() < 1e-6 && x != y { close_call = true; }
        if x > y * (1.0 + m) { mi += d; } else if y > x * (1.0 + m) { ma += d; }
    }
    let g = 1.0 + m * 0.5;
    if close_call || (mi - ma * g).abs() < 1e-5 && mi + ma > 0.0 || (ma - mi * g).abs() < 1e-5 && mi + ma > 0.0 { return 9; }
    if mi > ma * g { 1 } else if ma > mi * g { 2 } else { 0 }
}
/// mode heuristic: base scores plus the leading-tone bonus for minor keys, then the mode of the best tonic may flip
fn heuristic(fr: &[Vec<f32>], w: Option<&[f32]>, margin: f32, flip: f32, bonus: Option<f32>) {
    let t = KeyTemplates::new();
    let (base, r) = match (detect_key_weighted(fr, &t, w), detect_key_weighted_mode_heuristic(fr, &t, w, margin, flip, bonus.is_some(), bonus.unwrap_or(0.5))) { (Ok(a), Ok(b)) => (a, b), _ => { check(false, 9); return } };
    let mut want = table(&base);
    let mut a = [0.0f32; 12];
    let (mut sum, mut ws) = (0.0f32, 0.0f32);
    for i in 0..fr.len() { let x = match w { Some(w) => w[i], None => 1.0 }; if x > 0.0 { ws += x; for j in 0..12 { a[j] += x * fr[i][j]; } } }
    for x in &a { sum += *x; }
    if sum > 0.0 { for x in a.iter_mut() { *x /= sum; } }
    let on = bonus.is_some() || flip > 0.0;
    if let Some(b) = bonus { if b > 0.0 && ws > 0.0 { for k in 0..12 { want[12 + k] += ws * b * (a[(k + 11) % 12] - a[(k + 10) % 12]); } } }
    if !ranked(&r) { return; }
    let s = table(&r);
    for i in 0..24 { check(close(s[i], want[i], 1e-4), 4); }
    let best = idx(r.all_scores[0].0);
    let tonic = best % 12;
    let other = (best + 12) % 24;
    let m = mode(&a, tonic, margin);
    let near = (s[other] - s[best] * flip).abs() < 1e-5;
    if on && ws > 0.0 && m != 9 && !near {
        let go = flip > 0.0 && s[best] > 0.0 && s[other] >= s[best] * flip && m == if best < 12 { 1 } else { 2 };
        check(idx(r.key) == if go { other } else { best }, 11);
        cover(go as u32);
    }
    check(idx(r.key) == best || idx(r.key) == other, 12);
    check(close(r.confidence, lead(&s, idx(r.key)), 1e-5), 13);
    let mut listed = false;
    for i in 0..3 { listed |= r.top_keys[i].0 == r.key; if i < 2 { check(r.top_keys[i].0 == r.all_scores[i].0, 14); } }
    check(listed, 15);
    obs(idx(r.key) as u32);
}

harnesses! {
    //@ "ids": [1, 2, 3, 4, 11, 12, 13, 15], "split": [6, 3], "w": 3, "replays": 8, "bounds": "mode heuristic: 6 profiles with third and seventh degree varied (k/2 in [0,1], fixed by the executor), 3 transpositions (thorough all), margins 0, 0.2 and flip ratios 0, 0.5, 0.95, leading-tone bonus off, 0.3 or 2"
    fn h_p24_mode() {
        let mut c = CH[choose(6)];
        let flip = [0.5f32, 0.95, 0.0][choose(3)];
        let margin = [0.0f32, 0.2][choose(2)];
        let bonus = [None, Some(0.3f32), Some(2.0)][choose(3)];
        c[3] = conc(us(0, 2)) as f32 / 2.0;
        c[10] = conc(us(0, 2)) as f32 / 4.0;
        let c = rot(&c, if thorough() { choose(12) } else { [0, 5, 10][choose(3)] });
        heuristic(&[c.to_vec()], None, margin, flip, bonus);
    }
    //@ "ids": [1, 2, 4, 11, 13], "split": [3], "w": 2, "replays": 8, "bounds": "mode heuristic with three weighted frames, weights from {1, 0.5, 0, -1}, bonus weight negative, 0.5 or 1"
    fn h_p24_weighted() {
        let a = choose(3);
        let fr = [CH[a].to_vec(), CH[a + 3].to_vec(), rot(&CH[3], 9).to_vec()];
        let tab = [1.0f32, 0.5, 0.0, -1.0];
        let w = [tab[choose(4)], tab[choose(4)], tab[choose(4)]];
        heuristic(&fr, Some(&w), 0.1, 0.6, [None, Some(-1.0), Some(0.5)][choose(3)]);
    }
    //@ "ids": [1, 4, 5, 6, 7], "split": [6], "w": 2, "replays": 8, "bounds": "ensemble: 6 profiles in 12 transpositions, weights from {0, 0.25, 0.5, 1, 3} for each template set: weighted mean of both score tables, equal shares when both are zero"
    fn h_p24_ensemble() {
        let c = rot(&CH[choose(6)], conc(us(0, 11)));
        let tab = [0.5f32, 0.0, 3.0, 0.25, 1.0];
        let (a, b) = (tab[choose(tier(3, 5))], tab[choose(tier(3, 5))]);
        let fr = [c.to_vec()];
        let r = match detect_key_ensemble(&fr, None, a, b) { Ok(r) => r, Err(_) => { check(false, 9); return } };
        let (x, y) = match (detect_key_weighted(&fr, &KeyTemplates::new(), None), detect_key_weighted(&fr, &KeyTemplates::new_with_template_set(TemplateSet::Temperley), None)) { (Ok(x), Ok(y)) => (table(&x), table(&y)), _ => { check(false, 9); return } };
        let (p, q) = if a + b > 0.0 { (a / (a + b), b / (a + b)) } else { (0.5, 0.5) };
        let mut want = [0.0f32; 24];
        for i in 0..24 { want[i] = p * x[i] + q * y[i]; }
        plain(&r, &want);
    }
    //@ "ids": [1, 4, 5, 6, 7], "split": [3, 3], "w": 3, "replays": 8, "bounds": "several time scales: 4 or 5 frames of changing chords, segment lengths {2}, {1,3} or {0,2,9}, hops 0..2, clarity limits 0, 0.5 and 2 (none qualifies), scale weights none, (1,0.5) or (0,2), frame weights none or halved: scores are the mean over the qualifying segments weighted by clarity and scale, otherwise those of the whole"
    fn h_p24_scales() {
        let lens: &[usize] = [&[2usize][..], &[1, 3], &[0, 2, 9]][choose(3)];
        let hop = choose(3);
        let n = choose_in(4, 5);
        let minc = [0.0f32, 0.5, 2.0][choose(3)];
        let sw: Option<&[f32]> = [None, Some(&[1.0f32, 0.5][..]), Some(&[0.0, 2.0])][choose(3)];
        let fw: Vec<f32> = (0..n).map(|i| if i % 2 == 0 { 1.0 } else { 0.5 }).collect();
        let fw: Option<&[f32]> = if choose(2) == 0 { None } else { Some(&fw) };
        let fr: Vec<Vec<f32>> = (0..n).map(|i| rot(&CH[[0, 3, 2, 1, 5][i]], [0, 2, 0, 7, 4][i]).to_vec()).collect();
        let t = KeyTemplates::new();
        let r = match detect_key_multi_scale(&fr, &t, fw, lens, hop, minc, sw, false, 0.2, 0.5, false, 0.5) { Ok(r) => r, Err(_) => { check(false, 9); return } };
        let (mut want, mut tot, mut used) = ([0.0f32; 24], 0.0f32, 0);
        for (j, &l) in lens.iter().enumerate() {
            let w = match sw { Some(s) if j < s.len() => s[j], _ => 1.0 };
            if l == 0 || l > n || w <= 0.0 { continue; }
            let mut a = 0;
            while a + l <= n {
                let x = match detect_key_weighted(&fr[a..a + l], &t, fw.map(|f| &f[a..a + l])) { Ok(x) => x, Err(_) => { check(false, 9); return } };
                let c = compute_key_clarity(&x.all_scores);
                if c >= minc { used += 1; tot += c * w; let s = table(&x); for i in 0..24 { want[i] += s[i] * c * w; } }
                a += if hop == 0 { 1 } else { hop };
            }
        }
        cover((used > 0) as u32);
        if used == 0 || tot <= 1e-12 { want = match detect_key_weighted(&fr, &t, fw) { Ok(x) => table(&x), Err(_) => { check(false, 9); return } }; } else { for x in want.iter_mut() { *x /= tot; } }
        plain(&r, &want);
    }
    //@ "ids": [21, 22], "replays": 12, "w": 2, "steps": 60000000, "bounds": "most common key: 124 frames in one to three passages (A, B, A or B chords of C major and A major or F# minor), segments of 120 frames with hop 1 or 2; the change at frame 2, 60 or 122; fewer segments than asked for or fewer than 120 frames: the key of the whole"
    fn h_p24_median() {
        let cut = [2usize, 60, 122][choose(3)];
        let hop = 1 + choose(2);
        let want_min = [2usize, 9][choose(2)];
        let b = [rot(&CH[0], 9), rot(&CH[1], 6)][choose(2)];
        let fr: Vec<Vec<f32>> = (0..124).map(|i| if i < cut { CH[0].to_vec() } else { b.to_vec() }).collect();
        let t = KeyTemplates::new();
        let r = match detect_key_median(&fr, &t, None, 60, hop, want_min) { Ok(r) => r, Err(_) => { check(false, 9); return } };
        ranked(&r);
        let mut keys: Vec<Key> = vec![];
        let mut a = 0;
        while a + 120 <= 124 { if let Ok(x) = detect_key_weighted(&fr[a..a + 120], &t, None) { keys.push(x.key); } a += hop; }
        if keys.len() < want_min { match detect_key_weighted(&fr, &t, None) { Ok(x) => check(r.key == x.key, 21), Err(_) => check(false, 9) } return; }
        let count = |k: Key| keys.iter().filter(|&&x| x == k).count();
        let mut best = keys[0];
        for &k in &keys { if count(k) > count(best) { best = k; } }
        check(r.key == best, 22);
    }
    //@ "ids": [31, 32], "split": [5], "bounds": "errors: no frames, frames of 11 values, no segment lengths, for every variant; few frames for the most common key"
    fn h_p24_args() {
        let t = KeyTemplates::new();
        let bad = [vec![0.5f32; 11]];
        let ok = [CH[0].to_vec(), CH[2].to_vec()];
        match choose(5) {
            0 => check(detect_key_ensemble(&[], None, 0.5, 0.5).is_err() && detect_key_ensemble(&bad, None, 0.5, 0.5).is_err(), 31),
            1 => check(detect_key_multi_scale(&[], &t, None, &[1], 1, 0.0, None, false, 0.2, 0.5, false, 0.5).is_err() && detect_key_multi_scale(&ok, &t, None, &[], 1, 0.0, None, false, 0.2, 0.5, false, 0.5).is_err() && detect_key_multi_scale(&bad, &t, None, &[1], 1, 0.0, None, false, 0.2, 0.5, false, 0.5).is_err(), 31),
            2 => check(detect_key_median(&[], &t, None, 1, 1, 1).is_err() && detect_key_median(&bad, &t, None, 1, 1, 1).is_err(), 31),
            3 => check(detect_key_weighted_mode_heuristic(&[], &t, None, 0.2, 0.5, true, 0.5).is_err() && detect_key_weighted_mode_heuristic(&bad, &t, None, 0.2, 0.5, true, 0.5).is_err(), 31),
            _ => match (detect_key_median(&ok, &t, None, 1, 1, 1), detect_key_weighted(&ok, &t, None)) { (Ok(a), Ok(b)) => check(a.key == b.key, 32), _ => check(false, 9) },
        }
    }
}
