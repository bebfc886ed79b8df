use super::*;
use stratum_dsp::analysis::confidence::{compute_confidence, AnalysisConfidence};
use stratum_dsp::analysis::result::*;
/*@{"assumptions": ["the numeric fields of the analysis result are not NaN", "at most 2 warning texts, drawn from a table of 8 representative texts, and at most 2 pre-existing flags"]}@*/

const WARN: [&str; 8] = ["BPM detection failed", "Low BPM confidence: 0.2", "low key confidence", "Key detection ambiguous",
    "weak tonality detected", "tempo looks odd", "bpm key BPM", ""];
fn is_bpm(w: usize) -> bool { w < 2 || w == 6 }
fn is_key(w: usize) -> bool { w == 2 || w == 3 || w == 4 || w == 6 }

fn result(bpm: f32, bc: f32, kc: f32, kcl: f32, gs: f32, warnings: Vec<String>, flags: Vec<AnalysisFlag>) -> AnalysisResult {
    AnalysisResult {
        bpm, bpm_confidence: bc, key: Key::Major(0), key_confidence: kc, key_clarity: kcl,
        beat_grid: BeatGrid { downbeats: vec![], beats: vec![], bars: vec![] }, grid_stability: gs,
        metadata: AnalysisMetadata {
            duration_seconds: 30.0, sample_rate: 44100, processing_time_ms: 1.0, algorithm_version: String::new(),
            onset_method_consensus: 1.0, methods_used: vec![], flags, confidence_warnings: warnings,
            tempogram_candidates: None, tempogram_multi_res_triggered: None, tempogram_multi_res_used: None,
            tempogram_percussive_triggered: None, tempogram_percussive_used: None,
        },
    }
}
fn unit01(x: f32) -> bool { (x >= 0.0) & (x <= 1.0) }
fn fl(f: &AnalysisFlag) -> u32 {
    match f { AnalysisFlag::MultimodalBpm => 0, AnalysisFlag::WeakTonality => 1, AnalysisFlag::TempoVariation => 2, AnalysisFlag::OnsetDetectionAmbiguous => 3 }
}
fn mkflag(i: usize) -> AnalysisFlag {
    match i { 0 => AnalysisFlag::MultimodalBpm, 1 => AnalysisFlag::WeakTonality, 2 => AnalysisFlag::TempoVariation, _ => AnalysisFlag::OnsetDetectionAmbiguous }
}
fn clamp01(x: f32) -> f32 { if x < 0.0 { 0.0 } else if x > 1.0 { 1.0 } else { x } }

harnesses! {
    //@ "ids": [1, 2, 3, 4, 5, 6], "bounds": "every non-NaN value of the five numeric fields; no warnings; no prior flags"
    fn h_p02_scores() {
        let (bpm, bc, kc, kcl, gs) = (not_nan(), not_nan(), not_nan(), not_nan(), not_nan());
        let c = compute_confidence(&result(bpm, bc, kc, kcl, gs, vec![], vec![]));
        check(unit01(c.bpm_confidence) & unit01(c.key_confidence) & unit01(c.grid_stability) & unit01(c.overall_confidence), 1);
        let b = if bpm <= 0.0 { 0.0 } else { clamp01(bc) };
        check(close(c.bpm_confidence, b, 1e-6), 2);
        let f = if kcl < 0.2 { 0.6f32 } else if kcl < 0.5 { 0.85 } else { 1.0 };
        let k = if kc <= 0.0 { 0.0 } else { clamp01(kc) * f };
        check(close(c.key_confidence, k, 1e-6), 3);
        check(close(c.grid_stability, clamp01(gs), 1e-6), 4);
        let (cb, ck, cg) = (c.bpm_confidence, c.key_confidence, c.grid_stability);
        if (cb > 0.0) & (ck > 0.0) {
            check(close(c.overall_confidence, cb * 0.4 + ck * 0.3 + cg * 0.3, 1e-5), 5);
        } else {
            check(close(c.overall_confidence, if cb > 0.0 { cb * 0.6 } else if ck > 0.0 { ck * 0.6 } else { 0.0 }, 1e-5), 6);
        }
    }
    //@ "ids": [11, 12, 13, 14, 15], "split": [8], "bounds": "every dyadic k/256 score in [-1,2], all pairs of 8 representative warning texts"
    fn h_p02_warnings() {
        let w1 = choose(8);
        let w2 = choose(8);
        let (bc, kc, gs) = (dy(-256, 512, 8), dy(-256, 512, 8), dy(-256, 512, 8));
        let kcl = dy(0, 256, 8);
        let bpm = dy(-512, 1024, 2);
        let c = compute_confidence(&result(bpm, bc, kc, kcl, gs, vec![WARN[w1].to_string(), WARN[w2].to_string()], vec![]));
        let p = compute_confidence(&result(bpm, bc, kc, kcl, gs, vec![], vec![]));
        let rb = if is_bpm(w1) || is_bpm(w2) { 0.7f32 } else { 1.0 };
        let rk = if is_key(w1) || is_key(w2) { 0.7f32 } else { 1.0 };
        check(close(c.bpm_confidence, p.bpm_confidence * rb, 1e-6), 11);
        check(close(c.key_confidence, p.key_confidence * rk, 1e-6), 12);
        check(c.grid_stability == p.grid_stability, 13);
        check((c.bpm_confidence <= p.bpm_confidence) & (c.key_confidence <= p.key_confidence), 14);
        check(c.overall_confidence <= p.overall_confidence, 15);
        check(unit01(c.overall_confidence) & unit01(c.bpm_confidence) & unit01(c.key_confidence), 16);
    }
    //@ "ids": [21, 22, 23], "bounds": "every non-NaN value of the numeric fields, 0..2 prior flags of any kind"
    fn h_p02_flags() {
        let n = choose(3);
        let pre: Vec<usize> = (0..n).map(|_| choose(4)).collect();
        let c = compute_confidence(&result(not_nan(), not_nan(), not_nan(), not_nan(), not_nan(), vec![], pre.iter().map(|&i| mkflag(i)).collect()));
        let mut want = [0u32; 4];
        for &i in &pre { want[i] += 1; }
        want[0] += (c.bpm_confidence < 0.3) as u32;
        want[1] += (c.key_confidence < 0.2) as u32;
        want[2] += (c.grid_stability < 0.3) as u32;
        let mut have = [0u32; 4];
        for f in &c.flags { have[fl(f) as usize] += 1; }
        for i in 0..4 { check((have[i] > 0) == (want[i] > 0), 21); }
        check(c.flags.len() >= n, 22);
        for i in 0..n.min(c.flags.len()) { check(fl(&c.flags[i]) == pre[i] as u32, 23); }
    }
    //@ "ids": [31, 32], "bounds": "every non-NaN overall score"
    fn h_p02_levels() {
        let v = not_nan();
        let c = AnalysisConfidence { bpm_confidence: 0.0, key_confidence: 0.0, grid_stability: 0.0, overall_confidence: v, flags: vec![] };
        let (h, m, l) = (c.is_high_confidence(), c.is_medium_confidence(), c.is_low_confidence());
        check((h == (v >= 0.7)) & (l == (v < 0.5)) & ((h as u32 + m as u32 + l as u32) == 1), 31);
        let s = c.confidence_level();
        let want = if v >= 0.7 { "High" } else if v < 0.5 { "Low" } else { "Medium" };
        check(s == want, 32);
    }
}
