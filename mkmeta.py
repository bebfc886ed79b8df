#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (no check depends on this)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, note, level='model_checking', technique=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), note, level, technique))
def na(id, reason): NA.append(dict(property=id, reason=reason))

prop('P01', 'Key labels and wheel codes are exact and round-trip',
 'Every key has its musical name (twelve sharp-spelled pitch names, minor marked by a trailing m) and a wheel code of a number 1 to 12 followed by A (major) or B (minor), where each step up the wheel is a perfect fifth, 1A is C major and 1B its relative minor. '
 'Reading a wheel code back gives the same key, and any text that is not such a code (an optional plus sign and leading zeros are tolerated) is rejected without a crash, whatever bytes it holds. '
 'Pitch indices above 11 name and encode as the same pitch class.',
 ['inputs'], 'every pitch index, both modes, every short UTF-8 text',
 'Tests name a handful of keys and codes; the guarantee covers every index and every text a tag reader may hand in, including multi-byte characters.',
 ['src/analysis/result.rs'], [('key naming', 'src/analysis/result.rs:Key::name'), ('wheel code writing', 'src/analysis/result.rs:Key::numerical'), ('wheel code reading', 'src/analysis/result.rs:Key::from_numerical')],
 'all 2^32 indices in both modes; texts of at most 4 bytes (thorough 6)')

prop('P02', 'Overall confidence scores, flags and levels follow the documented rules',
 'For every analysis result with non-NaN numbers, each reported confidence and the grid stability lies in [0,1]: tempo and key confidence are the clamped inputs, zero when no tempo or key was found, key confidence scaled by 0.6 or 0.85 for low or medium tonal clarity, and each scaled once by 0.7 when a warning speaks of it. '
 'The overall score is 0.4 tempo + 0.3 key + 0.3 grid when both exist and 0.6 of the remaining one otherwise, so a warning never raises any score. '
 'Flags already present are kept, one is added exactly when tempo confidence is below 0.3, key confidence below 0.2 or stability below 0.3, and exactly one of high (at least 0.7), medium and low (below 0.5) applies.',
 ['inputs'], 'every non-NaN value of the five numeric fields, every prior flag set and warning pair within the bounds',
 'The rules are piecewise with thresholds at which a test sample rarely lands; the guarantee is about every number and their combinations.',
 ['src/analysis/confidence.rs'], [('scoring', 'src/analysis/confidence.rs:compute_confidence'), ('levels', 'src/analysis/confidence.rs:AnalysisConfidence::is_high_confidence')],
 'all non-NaN floats for the numeric fields; warning texts from a table of 8; at most 2 warnings and 2 prior flags')

prop('P03', 'Stereo is mixed to mono frame by frame, without loss or clipping',
 'Mixing two channels of equal length gives one output sample per frame: the mean of the two in the averaging, mid/side and centre modes, and the sample with the larger magnitude, sign kept, in the dominant mode. '
 'The output never exceeds the louder of the two inputs, each frame depends on that frame alone, and channels of different lengths are rejected.',
 ['inputs'], 'every pair of finite sample values, every mode, every short length',
 'Tests use a few hand-picked frames; overflow, sign and tie cases need every value pair.',
 ['src/preprocessing/channel_mixer.rs'], [('mixing', 'src/preprocessing/channel_mixer.rs:stereo_to_mono')],
 'up to 3 (thorough 6) fully symbolic frames, 24 (64) frames with one symbolic frame; samples up to 1e30')

prop('P04', 'Silence trimming removes leading and trailing silence and nothing else',
 'The trimmed signal is the contiguous part of the input left after dropping silence at its beginning and at its end, bit for bit, and a frame whose RMS level exceeds the threshold is never cut, the part after the last full analysis frame included. '
 'The reported silence map lists, in order, disjoint and in range, the maximal runs of half-overlapping frames at or below the threshold which start the signal or last at least the minimum duration. '
 'A completely silent signal trims to nothing; zero frame size or sample rate is rejected; no other input makes it fail.',
 ['inputs', 'configurations'], 'every signal on the amplitude grid within the bounds, every frame size, threshold and minimum duration listed',
 'The position of the transitions relative to the frames decides what is cut; tests try long signals with one placement.',
 ['src/preprocessing/silence.rs'], [('trimming', 'src/preprocessing/silence.rs:detect_and_trim')],
 'signals of up to 7 (thorough 10) free samples, 4 (6) segments of up to 32 samples; frame sizes 1..4, 8, 16, 64')

prop('P05', 'Normalization applies one exact gain and never passes full scale',
 'Normalizing multiplies every sample by one common positive gain: the one that brings the peak, the RMS level or the measured loudness to its target, limited so that the result stays inside full scale (for loudness: inside the headroom). '
 'The report gives the gain actually applied and the peak and RMS level before normalization in dB, and a measured loudness for the loudness method only. '
 'Silent input is returned unchanged with gain 0 dB, and empty input or, for loudness, a non-positive sample rate is an error which leaves the samples alone.',
 ['inputs', 'configurations'], 'every short signal within the bounds, each method, headroom and loudness target',
 'Gain, limit and report interact at the clipping boundary and at silence, for every combination of target, headroom and signal.',
 ['src/preprocessing/normalization.rs'], [('gain', 'src/preprocessing/normalization.rs:normalize'), ('loudness', 'src/preprocessing/normalization.rs:normalize_lufs')],
 'peak: 1..2 (thorough 4) samples; RMS: grid of quarters (eighths); loudness: 3 fixed waveforms with every target in [-40,0]')

prop('P06', 'Adaptive thresholds are the exact median/MAD and percentile of the data',
 'The median-based threshold equals the median of the values plus the multiplier times their median absolute deviation, with the mean of the two middle values for even counts. '
 'The percentile threshold is a member of the data: its order statistic of rank floor(n times p), the maximum for p = 1. '
 'Neither depends on the order of the values, and empty data, a negative multiplier or a percentile outside [0,1] is rejected.',
 ['inputs'], 'every value vector within the bounds, every multiplier listed, every percentile in [0,1]',
 'Order statistics go wrong only for particular orderings, ties and counts, which a few examples do not reach.',
 ['src/features/onset/threshold.rs'], [('median/MAD', 'src/features/onset/threshold.rs:adaptive_threshold_median_mad'), ('percentile', 'src/features/onset/threshold.rs:percentile_threshold')],
 'up to 4..5 (thorough 6) free values; up to 24 (40) values with one free')

prop('P07', 'Energy onsets are exactly the local peaks of rising frame energy',
 'The energy detector reports the sample position of a frame exactly when the rise of its RMS level over the previous frame is a local maximum of the rises and exceeds the given level (in dB relative to the largest rise); a rise equal to the following one counts as its peak. '
 'Positions are strictly increasing multiples of the hop inside the signal. '
 'A constant, silent or too short signal has no onsets, a zero frame or hop is rejected, and no sample value, NaN and infinities included, makes it fail.',
 ['inputs', 'configurations'], 'every level sequence within the bounds, each frame size, hop and threshold listed',
 'Peak picking depends on the relation of three neighbouring rises and a global threshold; tests use single clean clicks.',
 ['src/features/onset/energy_flux.rs'], [('detection', 'src/features/onset/energy_flux.rs:detect_energy_flux_onsets')],
 'up to 5 (thorough 6) free frames, 16 (32) frames with two free; levels on a grid of eighths')

prop('P08', 'Spectral onset detectors report exactly the peaks above the percentile',
 'The spectral-flux, high-frequency-content and percussive-energy detectors each report, in increasing order, exactly those frames after the first whose increase (distance between level-normalised spectra counting rising bins only; bin-weighted power; plain power) is a local maximum, the first of equal neighbours, strictly above the requested percentile of all increases. '
 'Spectral flux does not depend on the playback level of any single frame. '
 'A percentile outside [0,1] and, for the first two, empty or unequal frames are errors; fewer than two frames give no onsets; no magnitude makes them fail.',
 ['inputs', 'configurations'], 'every magnitude sequence within the bounds, four percentiles exactly and every percentile for range and totality',
 'Which frames are onsets depends on the ranking of all increases; tests check counts on one or two synthetic spectra.',
 ['src/features/onset/spectral_flux.rs', 'src/features/onset/hfc.rs', 'src/features/onset/hpss.rs'],
 [('spectral flux', 'src/features/onset/spectral_flux.rs:detect_spectral_flux_onsets'), ('high-frequency content', 'src/features/onset/hfc.rs:detect_hfc_onsets'), ('percussive energy', 'src/features/onset/hpss.rs:detect_hpss_onsets')],
 'up to 5 (thorough 6) free frames of one free bin, 3 frames of 2 (3) free bins, 10 (24) frames with one free')

prop('P09', 'Onset consensus merges nearby detections and weighs each detector once',
 'Detections of the four detectors that form a chain of gaps no longer than the tolerance merge into one onset at their mean position (rounded down), reported with the number of distinct detectors and a confidence equal to the sum of their weights, each counted once, over the total weight. '
 'Confidences lie in [0,1] (zero when all weights are zero), the onsets come in order of decreasing confidence, and the time in seconds is position over sample rate, however long the recording. '
 'Every detection is accounted for in exactly one onset, whatever order a detector lists them in; zero sample rate or tolerance or a negative weight is an error.',
 ['inputs', 'configurations'], 'every placement of the detections within the bounds, every assignment to detectors, five weight sets',
 'Chaining, duplicates from one detector and positions beyond 32 bits need particular placements.',
 ['src/features/onset/consensus.rs'], [('voting', 'src/features/onset/consensus.rs:vote_onsets')],
 '3..4 (thorough 5) free detections, 24 with two free gaps; positions up to 2^40')

exec(open(os.path.join(HERE, 'mkmeta_more.py')).read()) if os.path.exists(os.path.join(HERE, 'mkmeta_more.py')) else None

TECH = 'symbolic execution of the LLVM IR of the real code + SMT solving (z3), counterexamples replayed natively'
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d, *_ in P: f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='true',
         hooks=dict(guard='none (no hooks: the checks use the public interface only)', enable='nothing to enable', source_commits=[]),
         checks=[dict(property=d['id'], quick_cmd='./check.py %s' % d['id'], thorough_cmd='VERIF_TIER=thorough ./check.py %s --tier thorough' % d['id'],
                      technique=t or TECH, level=l, level_note='bounded: ' + n + '; see DESIGN.md and the bounds in the evidence file') for d, n, l, t in P
                 if not any(x['property'] == d['id'] for x in NA)],
         not_applicable=NA,
         notes='known_findings.json lists repaired defects (fixed) and open ones (known). An INCOMPLETE line names what a run left undecided.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d, *_ in P:
    jsonschema.validate(d, s); assert len(d['title']) <= 80
print(len(P), 'properties')
