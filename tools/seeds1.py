H = 'use stratum_dsp::*;\n'
BUGS = [
dict(id='wheel-leading-zero', prop='P01', file='src/analysis/result.rs',
 old='        let num: u32 = num_str.parse().ok()?;\n', new='        let num: u32 = num_str.trim_start_matches(\'0\').trim_end().parse().ok()?;\n',
 needs='a code with a blank between number and letter', breaks='text that is not a wheel code ("8 A") is accepted as a key',
 main='''use stratum_dsp::analysis::result::Key;
fn main() { if Key::from_numerical("8 A").is_some() || Key::from_numerical("08A").is_none() { println!("accepted a malformed code"); std::process::exit(1) } }'''),
dict(id='conf-grid-negative', prop='P02', file='src/analysis/confidence.rs',
 old='    let grid_stability = result.grid_stability.clamp(0.0, 1.0);', new='    let grid_stability = result.grid_stability.abs().min(1.0);',
 needs='a negative grid stability', breaks='a negative stability is reported as a positive one instead of 0',
 main='''use stratum_dsp::analysis::{confidence::compute_confidence, result::*};
fn main() {
    let r = AnalysisResult { bpm: 120.0, bpm_confidence: 0.5, key: Key::Major(0), key_confidence: 0.5, key_clarity: 0.9,
        beat_grid: BeatGrid { downbeats: vec![], beats: vec![], bars: vec![] }, grid_stability: -0.75,
        metadata: AnalysisMetadata { duration_seconds: 1.0, sample_rate: 44100, processing_time_ms: 1.0, algorithm_version: String::new(), onset_method_consensus: 1.0,
            methods_used: vec![], flags: vec![], confidence_warnings: vec![], tempogram_candidates: None, tempogram_multi_res_triggered: None, tempogram_multi_res_used: None,
            tempogram_percussive_triggered: None, tempogram_percussive_used: None } };
    let c = compute_confidence(&r);
    if c.grid_stability != 0.0 { println!("{}", c.grid_stability); std::process::exit(1) }
}'''),
dict(id='mix-dominant-negative', prop='P03', file='src/preprocessing/channel_mixer.rs',
 old='                    let abs_r = r.abs();\n                    if abs_l >= abs_r {', new='                    let abs_r = r.abs();\n                    if abs_l >= abs_r || (l < 0.0 && l > -1e-3) {',
 needs='dominant mode, left slightly negative, right louder', breaks='the quieter channel is kept',
 main='''use stratum_dsp::preprocessing::channel_mixer::*;
fn main() { let y = stereo_to_mono(&[-0.0005f32], &[0.5], ChannelMixMode::Dominant).unwrap(); if y[0] != 0.5 { println!("{y:?}"); std::process::exit(1) } }'''),
dict(id='trim-min-duration-start', prop='P04', file='src/preprocessing/silence.rs',
 old='        let silence_duration_frames = num_frames - silence_start_frame;\n        if silence_duration_frames >= min_duration_frames || silence_start_frame == 0 {',
 new='        let silence_duration_frames = num_frames - silence_start_frame;\n        if silence_duration_frames > min_duration_frames || silence_start_frame == 0 {',
 needs='trailing silence lasting exactly the minimum duration', breaks='trailing silence of exactly the minimum duration is kept',
 main='''use stratum_dsp::preprocessing::silence::*;
fn main() {
    let mut x = vec![0.5f32; 64]; x.extend(vec![0.0f32; 64]);
    // frame 16, hop 8: silent frames start at 64, 72, .., 112 = 7 frames = 56 samples = 56 ms
    let (y, _) = detect_and_trim(&x, 1000, SilenceDetector { threshold_db: -40.0, min_duration_ms: 56, frame_size: 16 }).unwrap();
    if y.len() != 64 { println!("kept {}", y.len()); std::process::exit(1) }
}'''),
dict(id='rms-limit-headroom', prop='P05', file='src/preprocessing/normalization.rs',
 old='    let new_peak = peak * gain_linear;\n    if new_peak > 1.0 {', new='    let new_peak = rms.max(peak * peak) * gain_linear;\n    if new_peak > 1.0 {',
 needs='RMS method, peak below 1 but above full scale after the gain', breaks='the result exceeds full scale',
 main='''use stratum_dsp::preprocessing::normalization::*;
fn main() {
    let mut x = vec![0.5f32, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0];
    normalize(&mut x, NormalizationConfig { target_loudness_lufs: -8.0, max_headroom_db: 0.0, method: NormalizationMethod::RMS }, 44100.0).unwrap();
    if x[0] > 1.0001 { println!("{}", x[0]); std::process::exit(1) }
}'''),
dict(id='mad-even-upper', prop='P06', file='src/features/onset/threshold.rs',
 old='(deviations[deviations.len() / 2 - 1] + deviations[deviations.len() / 2]) * 0.5', new='deviations[deviations.len() / 2 - 1].max(0.5 * deviations[deviations.len() / 2])',
 needs='an even number of values whose two middle deviations differ', breaks='the deviation term is not the median of the deviations',
 main='''use stratum_dsp::features::onset::threshold::*;
fn main() { let t = adaptive_threshold_median_mad(&[0.0, 1.0, 4.0, 8.0], 1.0).unwrap(); // median 2.5, deviations 1.5 1.5 2.5 5.5 -> 2.0
    if (t - 4.5).abs() > 1e-6 { println!("{t}"); std::process::exit(1) } }'''),
dict(id='energy-plateau', prop='P07', file='src/features/onset/energy_flux.rs',
 old='        if flux > threshold_linear && flux > prev_flux && flux >= next_flux {', new='        if flux > threshold_linear && flux > prev_flux && flux > next_flux {',
 needs='two equal consecutive rises', breaks='an onset spread evenly over two frames is lost',
 main='''use stratum_dsp::features::onset::energy_flux::*;
fn main() { let x = [0.0f32, 0.0, 0.25, 0.5, 0.5, 0.5]; let r = detect_energy_flux_onsets(&x, 1, 1, -20.0).unwrap();
    if r != vec![2] { println!("{r:?}"); std::process::exit(1) } }'''),
dict(id='hfc-last-frame', prop='P08', file='src/features/onset/hfc.rs',
 old='        && hfc_flux[last_idx] > hfc_flux[last_idx - 1]\n    {\n        onsets.push(hfc_flux.len());', new='        && hfc_flux[last_idx] > hfc_flux[last_idx - 1]\n        && hfc_values[last_idx] > 0.0\n    {\n        onsets.push(hfc_flux.len());',
 needs='an attack in the last frame preceded by a frame with no energy', breaks='an onset in the last frame is missed when the frame before is silent',
 main='''use stratum_dsp::features::onset::hfc::*;
fn main() { let s: Vec<Vec<f32>> = [0.0f32, 0.0, 0.0, 1.0].iter().map(|&v| vec![0.0, v]).collect(); let r = detect_hfc_onsets(&s, 44100, 0.5).unwrap();
    if r != vec![3] { println!("{r:?}"); std::process::exit(1) } }'''),
dict(id='consensus-first-member', prop='P09', file='src/features/onset/consensus.rs',
 old='            for existing_onset in cluster.iter() {', new='            for existing_onset in cluster.iter().take(3) {',
 needs='a chain of more than three detections drifting past the tolerance from the first three', breaks='a chain of close detections is split in two onsets',
 main='''use stratum_dsp::features::onset::consensus::*;
fn main() { let c = OnsetConsensus { energy_flux: vec![100, 118], spectral_flux: vec![136], hfc: vec![154], hpss: vec![172] };
    let r = vote_onsets(c, [0.25; 4], 20, 1000).unwrap(); if r.len() != 1 { println!("{r:?}"); std::process::exit(1) } }'''),
]
