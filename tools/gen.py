#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level_note, oracle):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=level_note, oracle=oracle))
I, C, H, S, F = "inputs", "configurations", "histories", "schedules", "fault_sequences"

prop("C01", "Every recording and configuration yields a result or an error, never a crash",
 "For every mono recording, sample rate and configuration the analysis terminates with a result or an error value; it never panics, hangs or aborts. Empty input, a zero sample rate and samples that are NaN or infinite are refused as invalid input. An ordinary recording (finite samples, at least 8 kHz, documented settings) that contains sound after silence trimming is analysed, not refused.",
 [I, C], "all sample buffers (including one-sample, clipped, silent, denormal, corrupted ones), all sample rates, all switch combinations and extreme numeric settings",
 "Tests run a handful of clean synthetic signals with default settings; the failing inputs are combinations of unusual lengths, rates, levels and switches.",
 ["src/lib.rs", "src/config.rs", "src/error.rs"],
 [("validation and error propagation at the top of the analysis", "src/lib.rs: analyze_audio"), ("degenerate-size guards in each stage", "src/features, src/preprocessing")],
 "random search; wild configurations are bounded where a window length alone would make the cost explode",
 "panic/hang detector plus the refusal rule (independent preprocessing decides whether there is sound)")
prop("C02", "Reported tempo, confidences and durations stay within their documented ranges",
 "Whenever an analysis succeeds, the tempo is 0 (none found, with zero tempo confidence) or lies within the configured minimum and maximum; tempo confidence, key confidence, key clarity, grid stability and onset agreement lie in [0,1]; the key is one of the 24 keys. The reported duration is positive and at most the length of the recording, and emitted tempo candidates are finite with supports in [0,1].",
 [I, C], "all recordings up to a few seconds and all documented switch combinations, including narrow and unusual tempo ranges",
 "Tests assert ranges on a few fixed signals with the default 40-240 BPM range.",
 ["src/lib.rs", "src/features/period/mod.rs", "src/features/period/multi_resolution.rs"],
 [("clamping and range filters of the tempo estimators", "src/features/period"), ("result assembly", "src/lib.rs")],
 "random search over recordings x configurations", "range invariant over the returned result")
prop("C03", "The beat grid follows from the detected onsets and the reported tempo",
 "The beats, downbeats, grid stability and onset agreement of an analysis are those obtained by applying the library's own public stages one after the other: preprocessing, the onset detectors, the consensus vote (or the energy onsets alone when consensus is off, impossible or inconclusive), and beat tracking at the reported tempo. With no tempo or fewer than two onsets the grid is empty and the stability is 0.",
 [I, C], "all recordings and all onset, consensus and separation switches",
 "Which onset source feeds the tracker depends on data and switches together; tests only look at one configuration.",
 ["src/lib.rs", "src/features/onset/consensus.rs", "src/features/beat_tracking/mod.rs"],
 [("onset source selection and beat tracking", "src/lib.rs: analyze_audio")],
 "differential against an independent re-composition of the public stages", "re-composed pipeline")
prop("C04", "The analysis is a pure function of its inputs",
 "Analysing the same recording with the same settings always gives the same result, bit for bit except for the processing time: repeated calls, calls interleaved with other recordings, and concurrent calls on several threads all agree.",
 [I, H, S], "all histories of analyses over several recordings and all interleavings of concurrent analyses",
 "Tests analyse each signal once, so dependence on hash order, shared state or earlier calls is invisible.",
 ["src/lib.rs", "src/features/key/detector.rs", "src/features/key/key_changes.rs"],
 [("no global state; order-independent tie-breaking", "src/lib.rs, src/features/key/detector.rs")],
 "histories of up to 8 calls over up to 3 recordings plus a concurrent phase", "self-consistency over the history")
prop("C05", "Asking for diagnostics never changes the analysis",
 "Turning on the emission of tempo candidates, changing how many are emitted, or turning on the debug output for a track changes nothing in the result except the diagnostics themselves. Candidates are emitted only when asked for, at most as many as configured, best first, and the ones within 0.75 BPM of the reported tempo are the ones marked as selected.",
 [I, C], "all recordings and settings, with and without diagnostics",
 "Tests never compare a run with diagnostics to the same run without.",
 ["src/lib.rs", "src/features/period/tempogram.rs", "src/features/period/multi_resolution.rs"],
 [("candidate emission next to the estimate", "src/features/period/tempogram.rs")],
 "metamorphic pairs", "run with diagnostics equals run without")
prop("C06", "Loudness and polarity of the recording do not change the analysis",
 "Scaling a recording by a constant factor (within floating-point range and above the silence threshold), or inverting its polarity, leaves tempo, key, beat times and all confidences unchanged when peak or RMS normalisation is on; polarity never matters, in any setting.",
 [I, C], "all recordings, gains of either sign and settings",
 "Tests use signals at one level.",
 ["src/lib.rs", "src/preprocessing/normalization.rs", "src/features/onset"],
 [("level normalisation and relative thresholds", "src/preprocessing/normalization.rs")],
 "metamorphic pairs; outcomes that change under a 0.1 % gain already are discarded as numerically undecided", "result of the scaled recording equals the original")
prop("C07", "Silence around a recording does not change the analysis",
 "With silence trimming on, and peak or no normalisation, adding any amount of digital silence (at least half a second) before or after the sound, in whole analysis frames, leaves tempo, key, beat times and confidences unchanged, and the reported duration does not grow with it.",
 [I, C], "all recordings and amounts of leading and trailing silence, several configurations",
 "Tests trim isolated buffers but never compare whole analyses.",
 ["src/preprocessing/silence.rs", "src/lib.rs"],
 [("silence trimming before every other stage", "src/lib.rs, src/preprocessing/silence.rs")],
 "metamorphic pairs; numerically undecided outcomes discarded as for C06", "result is independent of the amount of padding")
prop("C08", "The tempo of steady pulses is found",
 "A recording of at least ten seconds of identical, evenly spaced pulses at a tempo between 72 and 155 BPM is reported within 4 % of that tempo, whatever the sample rate from 16 to 48 kHz, pulse timbre, start offset and light background noise, with the default or the fusion tempo method.",
 [I, C], "all tempos in the range, rates, offsets, timbres, noise levels and common switch choices",
 "Tests check four fixed tempos with wide tolerances.",
 ["src/lib.rs", "src/features/period/tempogram.rs", "src/features/period/multi_resolution.rs", "src/features/period/novelty.rs"],
 [("tempogram estimation and multi-resolution escalation", "src/features/period")],
 "ground truth by construction", "known tempo")
prop("C09", "The key of a plain cadence is found",
 "A recording that repeats a full cadence (tonic, subdominant, dominant, tonic triads over a bass, near concert pitch) in any of the 24 major and minor keys is reported in that key, with the default settings and with common variations of them (ensemble, other template set, no frame weighting, no harmonic mask, mode heuristic, tuning compensation, no segment voting).",
 [I, C], "all tonics, both modes, several registers, harmonic contents, chord lengths, rates, lengths of recording and switch choices",
 "Tests check two fixed tonal fixtures loosely and never a minor key end to end.",
 ["src/features/key/detector.rs", "src/features/key/templates.rs", "src/features/chroma/extractor.rs", "src/lib.rs"],
 [("chroma extraction, template matching and segment voting", "src/features/chroma, src/features/key, src/lib.rs")],
 "ground truth by construction", "known key")
prop("C10", "Level normalisation applies one gain, reports it, and respects its ceiling",
 "Normalisation multiplies all samples by one positive gain, reports that gain and the peak and RMS level of the input, and leaves silence untouched. Peak mode reaches the headroom ceiling; RMS mode reaches its target level unless that would exceed full scale; loudness mode applies target minus measured gated loudness (K-weighted, 400 ms blocks) unless the peak would exceed the headroom ceiling. Normalising twice changes nothing the second time, and empty or otherwise invalid input is refused unmodified.",
 [I, C], "all sample buffers, methods, targets, headrooms and sample rates",
 "Tests check single tones at one level; gating, limiting and reporting interact.",
 ["src/preprocessing/normalization.rs"],
 [("gain computation, limiting and metadata", "src/preprocessing/normalization.rs: normalize")],
 "reference model in double precision, 0.1 dB", "independent gain and gated-loudness model")
prop("C11", "Silence detection and trimming follow the documented rule exactly",
 "Runs of silent windows at least as long as the minimum duration are reported as silent regions, sorted, disjoint and within the buffer. The trimmed output is the contiguous part of the input between the first and the last sound, sample for sample; all-silent input gives empty output, input without silence is returned unchanged, and invalid parameters are refused.",
 [I, C], "all buffers, thresholds, durations and window sizes",
 "Tests use one window size and silence placed on convenient boundaries.",
 ["src/preprocessing/silence.rs"], [("windowed RMS scan and trimming", "src/preprocessing/silence.rs: detect_and_trim")],
 "reference model, windows within 0.2 % of the threshold not judged", "independent window-by-window model")
prop("C12", "Stereo to mono mixing is exact per frame",
 "The mono mix has one sample per stereo frame: the average for the mono, mid and centre modes as documented, and the louder of the two channels in dominant mode. Identical channels come back unchanged and channels of unequal length are refused.",
 [I, C], "all channel pairs and modes", "Tests mix a few values.",
 ["src/preprocessing/channel_mixer.rs"], [("per-frame mixing", "src/preprocessing/channel_mixer.rs: stereo_to_mono")],
 "reference model", "per-frame definition")
prop("C13", "The spectrogram equals the windowed Fourier transform",
 "The spectrogram has one frame per complete window position (none beyond the end of the signal) and frame/2+1 bins, each the magnitude of the Hann-windowed discrete Fourier transform of its samples. Degenerate frame or hop sizes are refused and shorter signals give no frames.",
 [I, C], "all signals, frame sizes (also non powers of two) and hops", "Tests check shapes and one tone.",
 ["src/features/chroma/extractor.rs"], [("STFT", "src/features/chroma/extractor.rs: compute_stft")],
 "every frame and bin compared with a direct transform for small sizes", "direct O(n^2) windowed DFT")
prop("C14", "Harmonic/percussive separation is lossless and sends tones and clicks apart",
 "The harmonic and percussive parts have the shape of the spectrogram, are non-negative and add up to it; each follows from running medians across time and frequency of the configured width, iterated to convergence. A steady tone ends up harmonic, an isolated broadband frame percussive, and malformed spectrograms are refused.",
 [I, C], "all spectrograms and margins", "Tests check shapes and one example.",
 ["src/features/onset/hpss.rs"], [("iterated median filtering with soft masks", "src/features/onset/hpss.rs: hpss_decompose")],
 "reference model; cases at a convergence switch only check sum and sign", "independent median-filter model")
prop("C15", "Onset detectors mark exactly the prominent rises of their measure",
 "Each detector reports, in strictly increasing order and on frame positions within the signal, the frames whose rise (frame RMS; spectral difference of normalised magnitudes; high-frequency weighted energy; percussive energy) is a local maximum above the threshold (the given level in dB relative to the largest rise, or the given percentile of all rises). Silence and steady sound give none, fewer than two frames give none, and malformed input is refused; the adaptive thresholds are the stated median/deviation and percentile formulas.",
 [I, C], "all signals, spectrograms, thresholds, percentiles and frame settings", "Tests count onsets of one click train.",
 ["src/features/onset/energy_flux.rs", "src/features/onset/spectral_flux.rs", "src/features/onset/hfc.rs", "src/features/onset/hpss.rs", "src/features/onset/threshold.rs"],
 [("rise computation and peak picking of each detector", "src/features/onset")],
 "three-valued reference: comparisons within single-precision error accept either", "independent detectors in double precision")
prop("C16", "Onset voting clusters, weighs and ranks the methods' onsets as documented",
 "Onsets of all methods within the tolerance of a neighbour in time order form one cluster, reported once, at its representative position and time, with the number of methods that took part (each at most once) and, as confidence, their share of the total weight. Every onset belongs to exactly one cluster, results are ordered by confidence, and invalid weights, tolerance or rate are refused.",
 [I, C], "all onset lists (also unsorted, duplicated and beyond 32 bits), weights, tolerances and rates", "Tests vote on two or three hand-made lists.",
 ["src/features/onset/consensus.rs"], [("clustering and voting", "src/features/onset/consensus.rs: vote_onsets")],
 "reference model", "independent clustering model")
prop("C17", "Pitch-class profiles put the energy of each frequency on the right pitch class",
 "For every spectrogram, each extraction (hard and soft mapping, harmonic-peak profiles, bass blend, beat-synchronous, semitone-scale) gives one 12-element vector per frame (or beat interval), of unit length or zero, that adds up the in-band components on the pitch class of their frequency with the documented weighting, shifted by the tuning offset. A pure tone's class dominates in every octave, the tuning estimate recovers a common detuning and stays within half a semitone, and malformed input is refused.",
 [I, C], "all spectrograms, rates, window lengths, mappings, tunings, harmonic settings and beat positions", "Tests check vector lengths and one A4 tone.",
 ["src/features/chroma/extractor.rs"], [("frequency-to-class mapping, harmonic summation, tuning estimation", "src/features/chroma/extractor.rs")],
 "reference model; components within 3e-4 semitone of a boundary carry no energy", "independent per-bin model in double precision")
prop("C18", "Spectrogram and chroma conditioning filters compute what they document",
 "Time smoothing, harmonic masks and median-based harmonic extraction keep the shape of the spectrogram, never amplify a bin, and equal the documented running averages, soft masks and medians; outside the configured band nothing is kept. Chroma smoothing (median and mean), sharpening and normalisation equal their formulas for every frame and class.",
 [I, C], "all spectrograms, chroma sequences, window widths, powers and bands", "Tests check shapes and a few values.",
 ["src/features/chroma/extractor.rs", "src/features/chroma/smoothing.rs", "src/features/chroma/normalization.rs"],
 [("conditioning filters", "src/features/chroma")], "reference model", "independent filters in double precision")
prop("C19", "Key detection ranks all 24 keys by template match and picks the best",
 "The score table lists each of the 24 keys once, best first, with the documented profile correlation (normalised per mode, with the circle-of-fifths bonus); the reported key is the best of the ranking, the better template match deciding between a major and a minor key that score alike, unless the optional third/sixth/seventh-degree test flips its mode. Transposing all frames transposes the answer; frame order, a common weight factor and repeating all frames do not matter; confidence and clarity follow from the ranking, and malformed input is refused.",
 [I, C], "all chroma sequences, frame weights, template sets and heuristic settings", "Tests detect one synthetic C major.",
 ["src/features/key/detector.rs", "src/features/key/templates.rs", "src/features/key/key_clarity.rs"],
 [("template scoring, ranking and mode heuristic", "src/features/key/detector.rs")],
 "reference model plus metamorphic transposition; near-ties within a mode judged for well-formedness only", "independent scoring model and transposition")
prop("C20", "Segment-wise key detection aggregates exactly the segments it should",
 "Multi-scale, median and template-ensemble detection combine the per-segment (per-set) detections of every complete segment at the configured positions with the documented clarity and scale weights, fall back to the whole recording when no segment qualifies, and report the best of the combined ranking; a major and a minor key that tie are told apart by the whole recording. Key-change detection reports every segment's start time, key and confidence, a change exactly where neighbouring segments differ with sufficient mean confidence, and the most common key overall; impossible segmentations are refused.",
 [I, C], "all chroma sequences, segment lengths, hops, weights and thresholds", "Tests use one constant chroma sequence.",
 ["src/features/key/detector.rs", "src/features/key/key_changes.rs"],
 [("segment aggregation", "src/features/key/detector.rs"), ("key changes", "src/features/key/key_changes.rs")],
 "reference aggregation over the single-segment detector (itself C19)", "independent aggregation")
prop("C21", "Key names and the numerical key notation round-trip",
 "All 24 keys have distinct names and distinct numerical codes (number by circle of fifths from C major and A minor, relative keys sharing it; letter by mode); parsing a key's code gives the key back. Every string that is not a number from 1 to 12 followed by the mode letter is rejected without failing.",
 [I], "all keys and arbitrary (also non-ASCII) strings", "Tests parse a handful of codes.",
 ["src/analysis/result.rs"], [("notation tables and parser", "src/analysis/result.rs")], "reference table, arbitrary strings", "circle-of-fifths definition and round trip")
prop("C22", "Novelty curves measure exactly the rises of the spectrogram",
 "Every novelty curve (superflux, energy, spectral and high-frequency weighted, band-limited, mel) has one value per frame transition, in [0,1] relative to its largest rise, equal to the documented half-wave rectified difference; nothing rising gives zeros. The combined curve is the documented weighted, locally thresholded and smoothed sum over the common length, and malformed spectrograms are refused.",
 [I, C], "all spectrograms, bands, weights and window settings", "Tests check length and non-negativity.",
 ["src/features/period/novelty.rs"], [("novelty functions", "src/features/period/novelty.rs")], "reference model", "independent curves in double precision")
prop("C23", "Tempograms give every tempo's periodicity strength; the best candidate is picked",
 "The autocorrelation tempogram lists each tempo of the grid, and the Fourier tempogram each frequency bin, within the tempo range, exactly once, strongest first, with the autocorrelation at the tempo's whole-frame lag (rounded down) respectively the power of the mean-free, windowed transform. The estimator scores the strongest tempos and their half, double, third, triple, two-thirds and three-halves relatives by the documented rules, treats tempos less than 0.75 BPM apart as one and keeps the better scored, reports the best within range with its confidence and method agreement, and refuses invalid parameters.",
 [I, C], "all novelty curves, spectrograms, rates, hops, tempo ranges, resolutions and band-fusion settings", "Tests run one 120 BPM pulse.",
 ["src/features/period/tempogram.rs", "src/features/period/tempogram_autocorr.rs", "src/features/period/tempogram_fft.rs"],
 [("tempograms", "src/features/period/tempogram_autocorr.rs, tempogram_fft.rs"), ("candidate scoring", "src/features/period/tempogram.rs")],
 "reference model; decisions within single-precision error accept either outcome", "direct autocorrelation/DFT and an independent candidate scorer")
prop("C24", "The onset-based tempo estimator weighs evidence as documented",
 "Autocorrelation candidates are the prominent peaks of the onset signal's autocorrelation; comb candidates carry the share of predicted beats that have an onset; coarse-to-fine search refines only around the best coarse tempo. Merging joins candidates of one tempo within the tolerance and octave-related ones by the documented rules and ranking, the guard-railed pick follows them and stays within the tempo range, and peak picking returns exactly the sufficiently high, sufficiently distant local maxima.",
 [I, C], "all onset lists, rates, hops, tempo ranges, resolutions and tolerances", "Tests use perfectly periodic onsets at a few tempos.",
 ["src/features/period/autocorrelation.rs", "src/features/period/comb_filter.rs", "src/features/period/candidate_filter.rs", "src/features/period/peak_picking.rs", "src/features/period/mod.rs"],
 [("autocorrelation, comb filter, merge and preference", "src/features/period")], "reference model", "direct autocorrelation, beat counting and an independent merge")
prop("C25", "The beat grid is a regular grid supported by onsets",
 "Beats are strictly increasing, lie on the tempo grid started at the first onset, have an onset within about 50 ms, stay within the onset range up to that tolerance, and a predicted beat with such an onset is never left out; confidence falls with the distance to the onset. Downbeats start at the first beat and follow bar by bar, bars equal downbeats, and stability is 1/(1+v), v being the relative variation (deviation over mean) of the beat intervals; an invalid tempo and missing or non-finite onsets are refused.",
 [I, C], "all onset lists, tempos and confidences, including tempo drift and unsorted or duplicate onsets", "Tests use perfect 120 BPM onsets.",
 ["src/features/beat_tracking/hmm.rs", "src/features/beat_tracking/mod.rs"],
 [("beat tracker", "src/features/beat_tracking/hmm.rs"), ("grid assembly", "src/features/beat_tracking/mod.rs")], "reference model and invariants", "independent grid model")
prop("C26", "Tempo tracking over time moves only to the best-supported nearby tempo",
 "Over any sequence of updates, the tracked tempo moves to the candidate (half-BPM steps, within 5 BPM of the current tempo and within 60-180 BPM) that best explains the new onsets; its confidence lies in [0,1] and is that match, reduced for moves of 1 BPM or more and again of 3 BPM or more, and the history holds every accepted update in order. An update with invalid data is refused and leaves tempo, confidence and history untouched.",
 [H, I], "all histories of updates, valid and invalid, and all starting tempos", "Tests make one or two updates.",
 ["src/features/beat_tracking/bayesian.rs"], [("Bayesian update", "src/features/beat_tracking/bayesian.rs")], "stateful model-based histories", "model of the tracker state")
prop("C27", "Tempo segments and metre follow from the beat intervals",
 "Tempo segments cover the documented overlapping windows that hold enough beats, each with the tempo and the interval variation of its own beats, flagged as variable exactly when that variation exceeds 15 %. The metre is the one whose bar grouping is most regular, with that regularity as confidence, and too few beats give 4/4 at 0.5.",
 [I], "all beat lists and nominal tempos", "Tests use constant-tempo beats.",
 ["src/features/beat_tracking/tempo_variation.rs", "src/features/beat_tracking/time_signature.rs"],
 [("tempo variation", "src/features/beat_tracking/tempo_variation.rs"), ("time signature", "src/features/beat_tracking/time_signature.rs")], "reference model", "independent segment and metre model")
prop("C28", "Overall confidence is the documented, monotone combination of its parts",
 "Tempo, key, grid and overall confidence lie in [0,1]; tempo and key confidence carry the documented penalties for warnings and low clarity, and the overall value is 40/30/30 per cent of the parts, or 60 per cent of the one available when tempo or key is missing. Improving any single input never lowers the overall confidence of a complete result, and flags and the High/Medium/Low level follow the thresholds.",
 [I], "all analysis results, including out-of-range and flagged ones", "Tests check three fixed results.",
 ["src/analysis/confidence.rs"], [("confidence scoring", "src/analysis/confidence.rs")], "reference model and monotonicity", "formula and metamorphic monotonicity")
prop("C29", "Multi-resolution tempo fusion follows its agreement and octave rules",
 "Estimates of one spectrogram at several hops fuse to their mean with a fifth more confidence (at most 1) when they agree within 2 BPM, else to the most confident one with a tenth less. From samples, each base-resolution candidate competes with its double and half by the weighted support of three resolutions and the octave and family rules; the result stays within the tempo range, and the returned candidates are the base resolution's with the chosen tempo marked. Failing stages give an error, never a made-up tempo.",
 [I, C], "all recordings, tempo ranges, fusion weights and switches", "Tests run one pulse train.",
 ["src/features/period/multi_resolution.rs"], [("fusion", "src/features/period/multi_resolution.rs")], "reference model; fusions that change under a 1e-5 perturbation only range-checked", "independent fusion model")
prop("C30", "Warnings, flags and metadata of a report match its numbers",
 "A report warns about a missing tempo, an unstable grid (below 0.5), a low key confidence (below 0.3) and a low key clarity (below 0.2) exactly when that is the case, quoting the reported value, and is flagged as weakly tonal exactly when key clarity is below 0.2. Duration and sample rate are those of the analysed (trimmed) recording.",
 [I, C], "all recordings and settings", "Tests look at one report.",
 ["src/lib.rs"], [("report assembly", "src/lib.rs: analyze_audio")], "invariant over the report", "consistency rule")
prop("C31", "The reported tempo is the one its stages and the documented precedence select",
 "The tempo, its confidence, the emitted candidates and the escalation bookkeeping of an analysis are those obtained by applying the public tempo stages in the documented order: single-resolution estimate, multi-resolution when it is ambiguous and better supported, percussive fallback when low and ambiguous, the onset-based estimator when forced or when no estimate exists, and validation by it (without overriding) when fusion is on.",
 [I, C], "all recordings and tempo switches", "Tests use the default switches only.",
 ["src/lib.rs"], [("tempo selection", "src/lib.rs: analyze_audio")], "differential against an independent re-composition of the public stages", "re-composed pipeline")
prop("C32", "The reported key is the one its configured route produces",
 "Key, key confidence and key clarity of an analysis are those obtained by applying the public chroma and key stages in the configured order: spectrogram choice, harmonic extraction or smoothing, chroma variant, sharpening, smoothing, edge trimming, frame weighting, then ensemble, multi-scale, segment voting, mode heuristic or plain detection. Recordings too short for a frame report no key confidence.",
 [I, C], "all recordings and key switches", "Tests use the default switches only.",
 ["src/lib.rs"], [("key route", "src/lib.rs: analyze_audio")], "differential against an independent re-composition of the public stages", "re-composed pipeline")
prop("C33", "Results survive serialisation unchanged",
 "Every analysis result and confidence report, with and without the optional diagnostics, serialises to JSON and reads back equal in every field.",
 [I], "all results with finite numbers, arbitrary strings and optional parts", "Tests never serialise a result.",
 ["src/analysis/result.rs", "src/analysis/confidence.rs"], [("derived serialisation", "src/analysis/result.rs")], "round trip", "round trip")

P.sort(key=lambda p: p["id"])
with open(f"{HERE}/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [
    {"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
     "technique": f"property-based testing: generated {'histories' if H in p['over'] else 'inputs'} with shrinking; oracle: {p['oracle']}",
     "level": "exploration", "level_note": p["note"], "evidence_file": f"evidence/{p['id']}.json"} for p in P], "not_applicable": []}
json.dump(man, open(f"{HERE}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)

# ---- DESIGN.md: per-property sections between the markers
D = {
"C01": "Five searches: `valid` (recordings x documented settings: must end, and must not fail for other than documented reasons), `accept` (an independent trimmer decides whether there is sound; then the analysis must succeed), `wild` (numeric settings far outside their domains, 0/1/huge window sizes), `corrupt` (NaN, infinities, denormals, clipped runs, one-sample buffers, all sample rates from 1 Hz), `full-length` (recordings of up to several minutes). A case over its time limit is a violation. Harness is built with overflow checks and debug assertions.",
"C02": "Recordings x documented settings; ambiguous and rhythmic recordings with the edges of the tempo range put next to the tempo found in a wide range or one of its relatives; invariant on the returned result.",
"C03": "Recordings x onset/consensus/separation switches. The oracle calls the public stages itself and compares beats, downbeats, stability and agreement exactly.",
"C04": "`history`: 2-3 recordings, up to 5 calls in drawn order, then up to 4 threads; `fresh-process`: the result in a process that analysed thousands of other recordings must equal that of a new child process (finds state kept from the first call).",
"C05": "Pairs of runs with and without candidate emission, with different numbers of candidates to emit, and with debug output, same settings otherwise; rhythmically ambiguous recordings so that the tempo decision is close.",
"C06": "Pairs of runs under a gain (either sign); with no normalisation only the sign is changed. Cases that already change under a gain of at most 0.1 % are undecided (floating-point ties) and discarded; the discard rate is in the evidence.",
"C07": "Pairs of runs with different amounts of whole-frame digital silence before and after.",
"C08": "Pulse trains (10-18 s, and `full-length` ones up to 6 minutes) over 72-155 BPM, 16-48 kHz, several timbres, offsets and noise levels; accuracy 4 %. Restricted to the range where the estimator is unambiguous (see behaviour notes).",
"C09": "Cadences (up to 20 s, and `full-length` ones up to 4 minutes) in all 24 keys, octaves, timbres, detunings within 20 cents, sample rates, and the listed variants; exact key required.",
"C10": "Buffers of all sizes and levels x methods x targets; independent computation of peak, RMS and gated loudness in f64, gain recovered from the samples.",
"C11": "Buffers assembled from silent/loud stretches around window boundaries; independent model of windows, regions and trimming in f64 (windows within rounding of the threshold are undecided).",
"C12": "Arbitrary channel pairs; per-sample formula.",
"C13": "Naive f64 DFT of every frame; frame and hop sizes including non-powers of two, 1 and 0.",
"C14": "Small spectrograms; independent median filtering with the documented masks and iteration; planted tones and clicks.",
"C15": "Each detector against a reference built from its own documented measure, including signals shorter than one frame; values within rounding of the threshold are undecided.",
"C16": "Arbitrary onset lists with clusters at tolerance boundaries; independent clustering; positions up to 2^40.",
"C17": "Spectrograms (structured, sparse, dense, few-level), tones rendered and transformed, all extraction variants against f64 references; malformed and empty input; tuning offsets.",
"C18": "References for running means, soft masks, medians (including even windows at the edges), sharpening and smoothing.",
"C19": "Chroma sequences x weights x template sets; f64 reference for the score table; transposition, weight scaling and repetition as metamorphic relations; heuristic against an independent mode test.",
"C20": "Segment geometry (lengths, hops, exact ends, no qualifying segment; faint chroma for the change detector) with an independent aggregator that calls the whole-recording detector per segment.",
"C21": "All keys, plus arbitrary strings, near-miss codes and Unicode digits.",
"C22": "Every curve against an f64 reference; mel filter bank rebuilt independently; combined curve with all windows incl. 0 and 1.",
"C23": "Autocorrelation and Fourier tempograms against naive f64 transforms; estimator against an independent scorer with tie tolerance (scored set, mutual distance, nothing better left out).",
"C24": "Autocorrelation, comb filter, coarse-to-fine, peak picking, merging and guarded selection each against a reference; octave families drawn on purpose.",
"C25": "Onset lists with jitter, gaps, tempo changes; model of alignment, segments, downbeats and stability.",
"C26": "Stateful histories of valid and invalid updates against a model of the tracker.",
"C27": "Beat lists with drawn interval patterns; model of windows and metre.",
"C28": "Arbitrary results (also out-of-range); formula plus monotonicity pairs.",
"C29": "Recordings and settings (incl. accented pulses whose relatives lie at an edge of the tempo range) through the multi-resolution fusion against an independent re-implementation fed by the public single-resolution stages.",
"C30": "Recordings x settings; the report's own numbers decide which warnings and flags must be there.",
"C31": "Recordings x tempo switches (a quarter with plain tempogram settings); a part with tempo-ambiguous recordings that drive escalation and the percussive fallback; re-composition of selection, escalation, fallback and fusion.",
"C32": "Recordings x key switches; re-composition of the whole key route.",
"C33": "Arbitrary results (strings, options, floats) and analysed ones through JSON and back.",
}
assert set(D) == {p["id"] for p in P}
s = open(f"{HERE}/DESIGN.md").read()
a, b = "<!-- properties:begin -->", "<!-- properties:end -->"
body = "\n".join(f"### {p['id']} {p['title']}\n\n{D[p['id']]} Oracle: {p['oracle']}. Why tests cannot settle it: {p['why']}\n" for p in P)
s = s[:s.index(a) + len(a)] + "\n" + body + s[s.index(b):]
open(f"{HERE}/DESIGN.md", "w").write(s)
