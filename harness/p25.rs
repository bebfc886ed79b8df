use super::*;
use stratum_dsp::analysis::result::Key;
use stratum_dsp::features::key::{detect_key, detect_key_changes, KeyTemplates};
/*@{"assumptions": ["segment keys as decided by P23", "frame rates 2, 4 and 43.07 per second", "changes with a mean confidence within 1e-5 of 0.2 are not compared"]}@*/

const CH: [[f32; 12]; 4] = [
    [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0], [1.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0],
    [1.0, 0.0, 0.5, 0.0, 0.75, 0.5, 0.0, 1.0, 0.0, 0.5, 0.0, 0.25], [0.5, 0.125, 1.0, 0.0, 0.0, 0.75, 0.25, 0.5, 0.0, 1.0, 0.0, 0.0]];
fn rot(c: &[f32; 12], t: usize) -> Vec<f32> { (0..12).map(|i| c[(i + 12 - t) % 12]).collect() }
/// templates of the listed pitches only (no minor ones): the segments' confidences differ from zero
fn narrow() -> KeyTemplates {
    let mut t = KeyTemplates::new();
    for k in 0..12 { for i in 0..12 { let d = (i + 12 - k) % 12; t.major[k][i] = if d == 0 || d == 4 || d == 7 { 0.5 } else { 0.0 }; t.minor[k][i] = 0.0; } }
    t
}
fn verify(fr: &[Vec<f32>], sr: u32, hop: usize, t: &KeyTemplates, dur: f32, ov: f32) {
    let fps = sr as f32 / hop as f32;
    let (seg, o) = ((dur * fps) as usize, (ov * fps) as usize);
    let r = match detect_key_changes(fr, sr, hop, t, dur, ov) { Ok(r) => r, Err(_) => { check(fr.is_empty() || seg == 0 || o >= seg || seg > fr.len(), 1); return } };
    check(!fr.is_empty() && seg > 0 && o < seg && seg <= fr.len(), 2);
    if seg == 0 || o >= seg || seg > fr.len() { return; }
    let n = (fr.len() - seg) / (seg - o) + 1;
    check(r.segment_keys.len() == n, 3);
    if r.segment_keys.len() != n { return; }
    for i in 0..n {
        let a = i * (seg - o);
        let w = match detect_key(&fr[a..a + seg], t) { Ok(w) => w, Err(_) => { check(false, 9); return } };
        let (ts, k, c) = r.segment_keys[i];
        check(close(ts, a as f32 / fps, 1e-4) && k == w.key && c == w.confidence, 4);
    }
    // the most common key, the one heard first among equals, with the mean of its confidences
    let count = |k: Key| r.segment_keys.iter().filter(|x| x.1 == k).count();
    let mut best = r.segment_keys[0].1;
    for x in &r.segment_keys { if count(x.1) > count(best) { best = x.1; } }
    check(r.primary_key == best, 5);
    let mut s = 0.0f32;
    for x in &r.segment_keys { if x.1 == best { s += x.2; } }
    check(close(r.primary_confidence, s / count(best) as f32, 1e-5), 6);
    // a change wherever neighbours differ with a mean confidence above 0.2
    let mut j = 0;
    for i in 1..n {
        let (p, q) = (r.segment_keys[i - 1], r.segment_keys[i]);
        let c = (p.2 + q.2) / 2.0;
        if (c - 0.2).abs() < 1e-5 { return; }
        if p.1 != q.1 && c > 0.2 {
            check(j < r.key_changes.len(), 7);
            if j >= r.key_changes.len() { return; }
            let x = &r.key_changes[j];
            check(x.timestamp == q.0 && x.from_key == p.1 && x.to_key == q.1 && close(x.confidence, c, 1e-6), 8);
            j += 1;
        }
    }
    check(j == r.key_changes.len(), 10);
    obs(j as u32);
}

harnesses! {
    //@ "ids": [2, 3, 4, 5, 6, 8, 10], "split": [3, 3], "tsplit": [3, 4], "w": 3, "replays": 12, "bounds": "12 frames in three passages of every length (fixed by the executor), chords transposed by 0, 5 or 7 and 2 or 6, at 4 or 2 frames per second, segments of 1 s or 1.5 s with overlaps 0, 0.5 and 0.75 s; built-in and narrow templates"
    fn h_p25_passages() {
        let k = choose(3);
        let ov = [0.0f32, 0.5, 0.75, 0.25][choose(tier(3, 4))];
        let t = if choose(2) == 0 { narrow() } else { KeyTemplates::new() };
        let (sr, dur) = [(4u32, 1.0f32), (2, 1.5)][choose(2)];
        let a = conc(us(0, tier(8, 12)));
        let b = a + conc(us(0, tier(4, 12)));
        let fr: Vec<Vec<f32>> = (0..12).map(|i| if i < a { rot(&CH[0], 0) } else if i < b { rot(&CH[k], [5, 7, 0][k]) } else { rot(&CH[0], [2, 6, 0][k]) }).collect();
        verify(&fr, sr, 1, &t, dur, ov);
    }
    //@ "ids": [2, 3, 4, 5, 6, 10], "split": [3], "w": 2, "replays": 12, "bounds": "0..9 frames, segment lengths 0..2 s and overlaps 0..2.5 s in quarter steps (fixed by the executor) at 4 frames per second: a segment of no frames, longer than the track or an overlap not shorter than the segment is an error"
    fn h_p25_args() {
        let t = narrow();
        let n = [9usize, 4, 0][choose(3)];
        let dur = conc(us(0, 8)) as f32 / 4.0;
        let ov = conc(us(0, 10)) as f32 / 4.0;
        let fr: Vec<Vec<f32>> = (0..n).map(|i| rot(&CH[i % 3], (i / 3) * 7 % 12)).collect();
        verify(&fr, 4, 1, &t, dur, ov);
    }
    //@ "ids": [1], "bounds": "any sample rate, any hop (0 included) and every segment and overlap length (all f32) with 2 frames: no panic"
    fn h_p25_total() {
        let fr = [rot(&CH[0], 0), rot(&CH[1], 3)];
        let sr = [0u32, 1, 2, 44100][choose(4)];
        let hop = [0usize, 1, 512][choose(3)];
        let d = any_f32();
        let o = [0.0f32, -1.0, 0.75, f32::INFINITY, f32::NAN][choose(5)];
        if let Ok(r) = detect_key_changes(&fr, sr, hop, &narrow(), d, o) { check(!r.segment_keys.is_empty() && r.segment_keys.len() <= 2, 1); } else { check(true, 1); }
    }
}
