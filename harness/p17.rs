use super::*;
use stratum_dsp::features::beat_tracking::tempo_variation::{detect_tempo_variations, has_tempo_variation, TempoSegment};
/*@{"assumptions": ["beat times in increasing order on dyadic grids", "verdicts with a coefficient of variation within 1e-4 of the limit 0.15 are not compared"]}@*/

/// (mean interval, coefficient of variation) of the beats inside [a, b]; None below three beats
fn stats(beats: &[f32], a: f32, b: f32) -> Option<(f32, f32)> {
    let s: Vec<f32> = beats.iter().copied().filter(|&x| x >= a && x <= b).collect();
    if s.len() < 3 { return None; }
    let n = (s.len() - 1) as f32;
    let m = (s[s.len() - 1] - s[0]) / n;
    let mut v = 0.0f32;
    for i in 1..s.len() { let d = s[i] - s[i - 1] - m; v += d * d; }
    Some((m, (v / n).sqrt() / m))
}
fn verify(beats: &[f32], nominal: f32) {
    let r: Vec<TempoSegment> = match detect_tempo_variations(beats, nominal) { Ok(r) => r, Err(_) => { check(false, 9); return } };
    let (first, last) = (beats[0], beats[beats.len() - 1]);
    let dur = last - first;
    check(!r.is_empty(), 1);
    if beats.len() < 4 || dur < 2.0 {
        check(r.len() == 1 && (r[0].start_time == first) & (r[0].end_time == last) & (r[0].bpm == nominal) & !r[0].is_variable, 2);
        check(!has_tempo_variation(&r), 3);
        return;
    }
    let q = dur / 4.0;
    let len = if q < 4.0 { 4.0 } else if q > 8.0 { 8.0 } else { q };
    let mut k = 0;
    let mut a = first;
    let mut any = false;
    while a < last {
        let b = if a + len < last { a + len } else { last };
        if let Some((m, cv)) = stats(beats, a, b) {
            check(k < r.len(), 4);
            if k >= r.len() { return; }
            check((r[k].start_time == a) & (r[k].end_time == b), 5);
            check((r[k].bpm * m - 60.0).abs() <= 0.001 * 60.0, 6);
            check((r[k].confidence >= 0.0) & (r[k].confidence <= 1.0), 7);
            let amb = (cv - 0.15).abs() < 1e-4;
            check((r[k].is_variable == (cv > 0.15)) | amb, 8);
            any |= r[k].is_variable;
            k += 1;
        }
        a += len / 2.0;
    }
    check(has_tempo_variation(&r) == any, 10);
    if k == 0 { check(r.len() == 1 && (r[0].start_time == first) & (r[0].end_time == last) & !r[0].is_variable, 11); } else { check(k == r.len(), 12); }
    obs(r.len() as u32);
}

harnesses! {
    //@ "ids": [1, 4, 5, 6, 7, 8, 10, 12], "split": [4, 2], "w": 3, "bounds": "9 (thorough 17) beats 0.5 or 1 s apart, one of four beats displaced by every k/64 s within half an interval"
    fn h_p17_shift() {
        let p = 1 + choose(4);
        let t = [0.5f32, 1.0][choose(2)];
        let n = tier(9, 17);
        let p = if p == 4 { n - 2 } else { p };
        let h = if t == 0.5 { 15 } else { 31 };
        let d = dy(-h, h, 6);
        let b: Vec<f32> = (0..n).map(|i| 1.0 + i as f32 * t + if i == p { d } else { 0.0 }).collect();
        verify(&b, 60.0 / t);
    }
    //@ "ids": [1, 4, 5, 7, 8, 10, 12], "split": [5, 3], "w": 2, "bounds": "tempo changes and gaps: two tempi joined at any beat, a pause of every k/4 s up to 8 s after a beat, 14 (thorough 40) beats; long signals reach the 8 s segment limit"
    fn h_p17_change() {
        let at = [1usize, 3, 5, 8, 12][choose(5)];
        let (t1, t2) = [(0.5f32, 0.5f32), (0.5, 0.75), (1.0, 3.0)][choose(3)];
        let gap = conc(us(0, 32)) as f32 * 0.25;
        let n = tier(14, 40);
        let mut b = vec![0.25f32];
        for i in 1..n { let l = b[i - 1]; b.push(l + if i < at { t1 } else { t2 } + if i == at { gap } else { 0.0 }); }
        verify(&b, 60.0 / t1);
    }
    //@ "ids": [2, 3], "split": [5], "w": 1, "bounds": "1..5 beats ending anywhere before 2 s after the first, or fewer than 4 beats over any span up to 64 s: one steady segment at the nominal tempo, any nominal tempo"
    fn h_p17_short() {
        let n = 1 + choose(5);
        let nom = f_in(1.0, 400.0);
        let b: Vec<f32> = (0..n).map(|i| 0.5 + i as f32 * 0.25 + if i + 1 == n { if n < 4 { dy(0, 4096, 6) } else { dy(0, 47, 6) } } else { 0.0 }).collect();
        verify(&b, nom);
    }
    //@ "ids": [31, 32], "split": [2], "bounds": "arguments: no beat at all gives one steady segment; a nominal tempo at or below zero (every f32) with 4 beats is an error"
    fn h_p17_args() {
        if choose(2) == 0 {
            match detect_tempo_variations(&[], any_f32()) { Ok(r) => check(r.len() == 1 && !r[0].is_variable, 31), Err(_) => check(false, 33) }
        } else {
            let b = any_f32();
            assume(b <= 0.0);
            check(detect_tempo_variations(&[0.0, 1.0, 2.0, 3.0], b).is_err(), 32);
        }
    }
}
