prop('P10', 'Harmonic/percussive separation shares out every cell without loss',
 'Separating a non-negative magnitude spectrogram gives two spectrograms of the same shape whose cells are non-negative and add up to the input. '
 'They are the outcome of at most ten rounds of median filtering along time (harmonic) and along frequency (percussive) over windows of the margin to each side, cut at the edges, with each cell shared in proportion: a steady tone comes out wholly harmonic, a click wholly percussive, a uniform spectrum in halves. '
 'Empty or unequal frames are errors; no cell value and no margin makes it fail.',
 ['inputs', 'configurations'], 'every level of tones, clicks and uniform spectra; every small spectrum on the grid; margins 0 to 3 and huge',
 'Median windows at the edges and the sharing of cells depend on the place of each cell; tests look at averages of one spectrogram.',
 ['src/features/onset/hpss.rs'], [('separation', 'src/features/onset/hpss.rs:hpss_decompose')],
 'spectra up to 9x9 cells; small ones (2x3, 5x4) with grid values')

prop('P11', 'Peak picking returns exactly the strongest separated local maxima',
 'A reported peak, given by index and value, is a value strictly above its neighbours (the one neighbour at an end) and at least the threshold, where a threshold strictly between 0 and 1 is taken relative to the largest value; a signal without positive values has none. '
 'Peaks come in order of decreasing value, and when a minimum distance is set a peak is left out exactly when a stronger reported one lies closer than it. '
 'Fewer than three values give no peaks, and no value (NaN and infinities included), threshold or distance makes it fail.',
 ['inputs', 'configurations'], 'every short signal, threshold and distance within the bounds, every 64-bit distance on fixed signals',
 'Which peaks survive depends on the order of their heights and mutual distances; tests use two or three clear peaks.',
 ['src/features/period/peak_picking.rs'], [('picking', 'src/features/period/peak_picking.rs:find_peaks')],
 '3..4 (thorough 6) free values, 12 (24) with two free')

prop('P12', 'Novelty curves are normalised rises, one per frame step, in [0,1]',
 'Every novelty curve (energy, spectral flux, high-frequency content and the maximum-filtered flux, over the full spectrum or a band, linear or mel) holds one value fewer than there are frames: the positive rise from the preceding frame scaled so that the largest is 1, or all zero when nothing rises. '
 'The combined curve is the weighted mean of the curves cut to the shortest, negative weights counting as zero, optionally reduced by a centred moving mean clipped at zero and then smoothed by a centred moving mean, and again scaled to at most 1. '
 'Fewer than two frames or an unusable band give no curve, empty or unequal frames are errors, and no frequency limits or mel counts make it fail.',
 ['inputs', 'configurations'], 'every magnitude placement within the bounds, all bands, windows and filter radii listed',
 'Rises, maxima and window edges are placed by the data; tests use one or two synthetic spectrograms per curve.',
 ['src/features/period/novelty.rs'], [('curves', 'src/features/period/novelty.rs:superflux_novelty'), ('combination', 'src/features/period/novelty.rs:combined_novelty_with_params')],
 '3..9 frames of up to 5 bins with two to four free cells')

prop('P13', 'Comb-filter tempo scores measure alignment of onsets with the beat grid',
 'Each candidate tempo of the requested range and resolution is scored by the share of its beats, counted from time zero to the first at or after the last onset, with an onset within 10% of a beat at 120 BPM (inversely with tempo, between 5% and 15%); candidates come scaled so that the best has confidence 1, in order of decreasing confidence, those below a tenth of the best left out. '
 'The result does not depend on the order of the onsets. '
 'The two-stage search stays inside the tempo range and inside the refinement range around its best coarse tempo; bad ranges, resolutions or sample rates are errors, and fewer than two onsets give no candidate.',
 ['inputs', 'configurations'], 'every position of the free onsets within the bounds for each tempo grid listed',
 'Alignment at the edge of the tolerance and the number of beats change with single samples.',
 ['src/features/period/comb_filter.rs'], [('scoring', 'src/features/period/comb_filter.rs:estimate_bpm_from_comb_filter'), ('two-stage search', 'src/features/period/comb_filter.rs:coarse_to_fine_search')],
 'up to 5 onsets, one or two free over every sample up to 2 s (thorough 6 s); grids of 2..5 tempi')

prop('P14', 'Merging tempo candidates pools agreement and fixes octave errors',
 'When two methods propose tempo candidates, an autocorrelation candidate at double or half a comb candidate (within the tolerance) is corrected to it when the comb tempo is a usual one (60 to 180 BPM), candidates within 2 BPM pool into one estimate, and every candidate counts in exactly one estimate, whose agreement is the number pooled. '
 'The pooled confidence is boosted for agreement and for usual tempi, and the estimates come ordered by it with unusual tempi ranked down. '
 'Nothing is invented: every estimate lies within the tempi given, and no candidates give no estimates.',
 ['inputs', 'configurations'], 'every confidence in [0,1], tempo relations and tables as listed, every tempo k/4 around the octave limits',
 'Agreement, octave and range rules interact; tests cover one pair each.',
 ['src/features/period/candidate_filter.rs'], [('merging', 'src/features/period/candidate_filter.rs:merge_bpm_candidates')],
 'up to 12 candidates per method, one or two free confidences')

prop('P15', 'The beat tracker marks exactly the grid beats that onsets support',
 'Starting from the first onset, the tracker reports, in order, exactly the beats of the regular grid at the given tempo, up to the one reaching the last onset, that have an onset near enough (within about 54 ms). '
 'Each has a confidence in (0,1], 0.7 of a Gaussian of 25 ms in the distance to the nearest onset plus 0.3 of its linear closeness within 50 ms. '
 'No onset, or a tempo that is zero, negative or above 300, is an error.',
 ['inputs'], 'every onset placement on the grid within the bounds, three tempi, all tempo values for errors',
 'Beats at the reach of an onset and the last interval depend on exact placement; tests use perfect grids.',
 ['src/features/beat_tracking/hmm.rs'], [('tracking', 'src/features/beat_tracking/hmm.rs:HmmBeatTracker::track_beats')],
 '3..4 onsets free on a grid of 1/1024 s over up to 3 (thorough 6) beats')

prop('P16', 'Beat grids list each beat once, in order, with downbeats and bars in step',
 'The beat grid lists beats in strictly increasing order, no two closer than half a beat, its downbeats are the first beat of each bar of the detected time signature, bars start at downbeats, and its stability lies in [0,1]. '
 'Onsets on a steady tempo give exactly the regular grid from the first onset, whatever order they are given in. '
 'No onset or an impossible tempo is an error, and one onset gives one beat.',
 ['inputs'], 'every displacement of two onsets within 48 ms, missing and extra onsets in the patterns listed',
 'The refinement of irregular passages merges overlapping segments; tests only use steady clicks.',
 ['src/features/beat_tracking/mod.rs'], [('grid', 'src/features/beat_tracking/mod.rs:generate_beat_grid')],
 '2..17 onsets, two free or one extra onset anywhere')

prop('P17', 'Tempo segments cover the beats and flag real tempo variation',
 'Tempo analysis walks the span of the beats in half-overlapping segments of a quarter of it, at least 4 and at most 8 s long, and reports in time order each one holding at least three beats, with the tempo of its mean beat interval, a confidence in [0,1] and a flag set exactly when the spread of its beat intervals (standard deviation over mean) exceeds 0.15. '
 'Too few beats or too short a span give a single steady segment at the nominal tempo, an impossible nominal tempo is an error. '
 'A track varies exactly when some segment is flagged.',
 ['inputs'], 'every displacement, tempo change and pause within the bounds',
 'Whether a segment is flagged depends on where its limits fall; tests use one steady and one drifting list.',
 ['src/features/beat_tracking/tempo_variation.rs'], [('segments', 'src/features/beat_tracking/tempo_variation.rs:detect_tempo_variations')],
 '9..14 (thorough 40) beats, one displaced or two tempi joined')

prop('P18', 'Time signature is the best repeating bar length, 4/4 when nothing differs',
 'The time signature chosen among 4/4, 3/4 and 6/8 is the one whose beat intervals repeat best at its bar length (0.7 mean similarity of intervals one bar apart plus 0.3 overall regularity), and its confidence is that score, in [0,1]. '
 'Perfectly regular beats are 4/4 with full confidence. '
 'Fewer than eight beats, or beats without any spacing, give 4/4 at confidence 0.5, and a tempo at or below zero is an error.',
 ['inputs'], 'every displacement of one beat and every accent length within the bounds, 8 to 24 beats',
 'The scores of the three signatures tie or cross for particular patterns, which tests do not sample.',
 ['src/features/beat_tracking/time_signature.rs'], [('choice', 'src/features/beat_tracking/time_signature.rs:detect_time_signature')],
 '8..24 beats, one displaced by k/16 s, or patterns of 3, 4 or 6')

prop('P19', 'Tempo updates follow the evidence within 5 BPM and keep their history',
 'An update with onsets moves the tempo to the half-BPM step, at most 5 BPM away and between 60 and 180, whose beat grid from the first onset fits the onsets best, or keeps it when no such step exists (confidence 0). '
 'Confidence is the fit, the exponential of the mean negative squared distance to the grid in units of 50 ms, halved, times 1, 0.8 or 0.5 for a change below 1, below 3 or larger; it stays in [0,1]. '
 'Every update appends its tempo to the history; no onsets or an impossible tempo is an error that changes nothing.',
 ['inputs', 'histories'], 'onset grids at every quarter BPM around nine tempi, onsets anywhere for the range, sequences of three updates',
 'The best step depends on the exact evidence; tests only check that the tempo stays near.',
 ['src/features/beat_tracking/bayesian.rs'], [('update', 'src/features/beat_tracking/bayesian.rs:BayesianBeatTracker::update_with_onsets')],
 '2..5 onsets, tempi from tables, up to 3 updates')

prop('P20', 'Chroma smoothing takes the median or mean of each window, per pitch class',
 'Median smoothing replaces each value by the middle of the values of the same pitch class in the centred window (even sizes are widened by one), cut at the ends, the upper of the two middle ones when the cut window is even. '
 'Mean smoothing takes the mean over the window, cut at the ends, even sizes reaching one frame further back. '
 'Shape is kept, windows of 0 or 1 change nothing, and no frames smooth to no frames.',
 ['inputs', 'configurations'], 'every value of short sequences, two free values in longer ones, windows 0 to 21',
 'Window cuts and order statistics need every ordering near the ends.',
 ['src/features/chroma/smoothing.rs'], [('median', 'src/features/chroma/smoothing.rs:smooth_chroma'), ('mean', 'src/features/chroma/smoothing.rs:smooth_chroma_average')],
 '1..5 free frames, 8..16 frames with two free values')

prop('P21', 'Chroma normalisation and sharpening give unit vectors with ratios kept',
 'Normalising a chroma vector divides each value by the Euclidean length, whatever its scale, so the result has unit length and the same proportions. '
 'Sharpening raises each value to the power first. '
 'A vector of (practically) no energy becomes uniform with unit length, an empty one stays empty.',
 ['inputs'], 'every grid value at magnitudes from 2^-30 to 2^10, five powers',
 'Quiet passages and zero vectors are scale corner cases no test samples.',
 ['src/features/chroma/normalization.rs'], [('normalising', 'src/features/chroma/normalization.rs:l2_normalize_chroma'), ('sharpening', 'src/features/chroma/normalization.rs:sharpen_chroma')],
 '1..4 free values, 12 values with two free')

prop('P22', 'Key clarity measures the lead of the best score over the average',
 'Key clarity is the first score minus the mean of all, divided by the spread between the highest and lowest, limited to [0,1]. '
 'It is 0 when all scores are equal or fewer than two are given.',
 ['inputs'], 'every grid value of 2 or 3 scores, 24 scores with two varied, every pair of numbers for the range',
 'The range limits and the flat case need particular combinations.',
 ['src/features/key/key_clarity.rs'], [('clarity', 'src/features/key/key_clarity.rs:compute_key_clarity')],
 '2..3 and 24 scores')

prop('P23', 'Key detection ranks all 24 keys by template match, reproducibly',
 'Key detection ranks each of the 24 keys once, highest score first, and the key reported is the first, so the same input always gives the same key; the three best are listed and confidence is the lead of the first over the second relative to the first. '
 'A score is the match of the weighted sum of the frames with the published profile of the key (Krumhansl-Kessler or Temperley, unit length, transposed to the tonic), relative to the best of its mode, plus a bonus of 0.2 for the best key of the mode and 0.1 for its neighbours on the circle of fifths. '
 'Frames with a weight at or below zero are ignored; no frames, frames of other than 12 values or a different number of weights are errors, and silence gives confidence 0.',
 ['inputs'], 'every transposition of six profiles with one strength varied, weights and frames as listed, both template sets',
 'Ties between keys are broken by chance in a hash map unless every path avoids it; tests accept either outcome.',
 ['src/features/key/detector.rs', 'src/features/key/templates.rs'], [('detection', 'src/features/key/detector.rs:detect_key_weighted'), ('templates', 'src/features/key/templates.rs:KeyTemplates')],
 'up to 4 (thorough 8) frames, grid values')

prop('P24', 'Key detection variants combine scores as documented and stay reproducible',
 'The mode heuristic keeps the ranking of the 24 keys and may only exchange the winner for the opposite mode of the same tonic, when the energy of the thirds and sevenths favours it by the ratio and its score is near enough; the ensemble is the weighted mean of the normalised scores of both profile sets; the multi-scale key weights each scale and segment by its weight and clarity, segments below the minimum clarity left out and plain detection taking over when none is left; the segment vote takes the most common key, the earliest among equals. '
 'Each gives all 24 keys in order of score and the same result for the same input. '
 'No frames, frames of other than 12 values and mismatching weights are errors.',
 ['inputs', 'configurations'], 'chord tables in every transposition with one or two strengths varied; the listed windows, weights and ratios',
 'Each variant decides by comparisons of sums that only coincide for particular inputs; tests check one major triad.',
 ['src/features/key/detector.rs'], [('mode heuristic', 'src/features/key/detector.rs:detect_key_weighted_mode_heuristic'), ('ensemble', 'src/features/key/detector.rs:detect_key_ensemble'), ('multi-scale', 'src/features/key/detector.rs:detect_key_multi_scale'), ('vote', 'src/features/key/detector.rs:detect_key_median')],
 'up to 8 frames, grid values')

prop('P25', 'Key changes are reported where neighbouring segments differ',
 'A track is cut into segments of the given length and overlap, each with its start time and the key and confidence detected from its frames; a rest too short for a segment is left out. '
 'The primary key is the most common one, the one heard first among equals, with the mean of its confidences, and a key change is reported at the start of a segment exactly when its key differs from the one before and their mean confidence exceeds 0.2. '
 'A segment of no frames, one longer than the track or an overlap not shorter than the segment is an error; no rates or lengths make it fail.',
 ['inputs', 'configurations'], 'passages of every length within the bounds; every segment length and overlap in quarter seconds; every f32 segment length on two frames',
 'Segment borders, ties and the confidence limit fall differently for each track; tests use one constant track.',
 ['src/features/key/key_changes.rs'], [('changes', 'src/features/key/key_changes.rs:detect_key_changes')],
 '12 frames, three passages')

prop('P26', 'Chroma vectors put each tone on its pitch class and have unit length',
 'Each spectrogram frame becomes a vector of 12 pitch classes (C first, A4 = 440 Hz shifted by the tuning) of unit length, or zero for silence, with its energy; a bin from 100 to 5000 Hz and below Nyquist counts with the power 0.6 of its level in the nearest class, or with soft mapping in that and both neighbours by a Gaussian of the circular distance, and other bins and levels not above zero do not count. '
 'Beat-synchronous chroma is the unit-length mean over the frames starting in each interval between successive beats, with their total energy, and zero for an interval without frames; a log-frequency spectrum shares each level in range linearly between the two semitones around its frequency, and folds into chroma by octaves. '
 'Unequal or empty frames, no beats and inverted frequency ranges are errors.',
 ['inputs', 'configurations'], 'tones at every bin of four spectrum sizes, all beat times on the grid, every level pair at every bin for the log spectrum',
 'Pitch-class borders, wrap-around between B and C and beats on frame times depend on exact positions; tests use one A4 tone.',
 ['src/features/chroma/extractor.rs'], [('chroma', 'src/features/chroma/extractor.rs:frame_to_chroma_tuned'), ('beat-synchronous', 'src/features/chroma/extractor.rs:extract_beat_synchronous_chroma'), ('log-frequency', 'src/features/chroma/extractor.rs:convert_linear_to_log_frequency_spectrogram')],
 'spectra of 9 to 257 bins, 6 (thorough 8) frames, 3 beats')

prop('P27', 'Spectrogram smoothing, harmonic masks and tuning follow their definitions',
 'Time smoothing replaces each level by the mean over the frames within the margin, cut at the ends. '
 'The harmonic masks keep the shape and scale each level by its share h^p/(h^p+r^p), with the time mean and the excess over it, or, within the band and zero outside it, with the medians along time (on every n-th frame, held in between) and along frequency; powers below 1 count as 1. '
 'The tuning offset is the circular mean, weighted with the root of the level, of the deviations from the nearest semitone of the bins in the band that reach the given share of their frame peak, lies in [-0.5, 0.5] and is 0 without a clear direction; empty or unequal frames are errors and no limits make any of them fail.',
 ['inputs', 'configurations'], 'free levels in short spectrograms, margins, steps, powers and bands as listed',
 'Window cuts, held masks and band edges need particular places; these steps have almost no tests.',
 ['src/features/chroma/extractor.rs'], [('smoothing', 'src/features/chroma/extractor.rs:smooth_spectrogram_time'), ('time mask', 'src/features/chroma/extractor.rs:harmonic_spectrogram_time_mask'), ('median mask', 'src/features/chroma/extractor.rs:harmonic_spectrogram_hpss_median_mask'), ('tuning', 'src/features/chroma/extractor.rs:estimate_tuning_offset_semitones_from_spectrogram')],
 'up to 6 frames of 2 to 33 bins')

prop('P28', 'Harmonic pitch-class profiles come from the strongest spectral peaks',
 'The profile of a frame takes the strongest local maxima between 100 and 5000 Hz (above the lower neighbour, at least the upper one; ranked after division by the local mean when whitening), at most the number asked for, and adds the power of the original level of each, for it and its harmonics up to the band limit weighted by the decay to the power h-1 divided by h, to the nearest pitch class and its neighbours by a Gaussian of the distance. '
 'Profiles have unit length or are zero without peaks; the bass blend is the unit-length weighted mean of the profile and that of the bass band. '
 'Empty or unequal frames are errors, and no band, count or weight makes it fail.',
 ['inputs', 'configurations'], 'a peak at every bin over three beds, settings as listed',
 'Peak choice at band edges, ties with neighbours and limits on the number depend on exact levels; tests only check lengths.',
 ['src/features/chroma/extractor.rs'], [('profile', 'src/features/chroma/extractor.rs:frame_to_hpcp_tuned_band'), ('blend', 'src/features/chroma/extractor.rs:extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned')],
 'frames of 9 to 65 bins')

prop('P29', 'Spectrograms hold the windowed spectrum of every full frame',
 'The spectrogram of a sound has one frame for each full frame of samples at multiples of the hop, none when there are fewer samples than a frame, and each holds the magnitudes of the Hann-windowed Fourier transform of its samples from zero frequency to Nyquist. '
 'The chroma of samples is the chroma of that spectrogram. '
 'For it, no samples or a frame size, hop or rate of zero is an error.',
 ['inputs', 'configurations'], 'frame sizes from 2 to 16 (thorough 32) including odd ones, every position of one varied sample, any hop and rate for the arguments',
 'Frame counts at the end of the track and the window and phase of each bin are only right for every position or not at all.',
 ['src/features/chroma/extractor.rs'], [('spectrogram', 'src/features/chroma/extractor.rs:compute_stft'), ('chroma of samples', 'src/features/chroma/extractor.rs:extract_chroma_with_options')],
 'frames of 2..32 samples (chroma: 64), two frames')

prop('P30', 'Autocorrelation tempo candidates are the periods at which onsets coincide',
 'Onsets count once per frame; the candidates are the tempi 60 rate/(lag hop) of the lags strictly inside the tempo range whose number of coinciding onsets exceeds both neighbours by at least a tenth of the largest in the range, with that number relative to the number of occupied frames as confidence, in decreasing order. '
 'The order of the onsets and their place within their frame do not matter; nothing is reported where no onsets coincide or when the track is shorter than the slowest beat. '
 'No onsets, a rate or hop of zero or a bad tempo range is an error, a single onset gives none.',
 ['inputs', 'configurations'], 'pulses of every period with one onset moved and one added anywhere; gaps, ranges and rates as listed',
 'Peaks at range ends and ties between lags depend on single frames; numerical noise must never pass for a beat.',
 ['src/features/period/autocorrelation.rs'], [('candidates', 'src/features/period/autocorrelation.rs:estimate_bpm_from_autocorrelation')],
 'up to 41 frames')

prop('P31', 'Tempograms list every tempo with its strength, strongest first',
 'The autocorrelation tempogram has one entry for each tempo of the grid from the lowest to the highest, its strength the mean product of curve values one beat (in whole frames) apart, zero when the curve is shorter than a beat. '
 'The spectral tempogram has one entry for each frequency of the zero-padded spectrum within the range, its strength the power of the Hann-windowed curve around its mean. '
 'Both come strongest first, their best entry is the first with its relative lead over the second as confidence, and an empty curve, a rate or hop of zero, a bad range or a resolution that leads nowhere is an error.',
 ['inputs', 'configurations'], 'free and varied values in curves of up to 16 values, four tempo grids, all strengths for the best entry',
 'Lags at whole frames, range ends and ties depend on exact values; tests only look at the best tempo of one pulse.',
 ['src/features/period/tempogram_autocorr.rs', 'src/features/period/tempogram_fft.rs'], [('autocorrelation', 'src/features/period/tempogram_autocorr.rs:autocorrelation_tempogram'), ('spectrum', 'src/features/period/tempogram_fft.rs:fft_tempogram')],
 'up to 16 values, 7 tempi')
