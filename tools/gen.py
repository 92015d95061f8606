"""Writes properties.jsonl and MANIFEST.json from the tables below.
python3 tools/gen.py"""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
C = "dsptoolbox/classes/"
H = "dsptoolbox/helpers/"
S = "dsptoolbox/standard/"

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (pid, len(title))
    P.append(
        dict(
            id=pid, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                mechanism=[dict(name=a, where=b) for a, b in mech],
                observe_at=list(observe), hook_needed=None,
            ),
        )
    )


prop(
    "C01", "Cached spectral data never outlives the data it was computed from",
    "With caching activated, the spectrum, cross-spectral matrix and spectrogram (and the time vector) a Signal or "
    "ImpulseResponse returns are those a freshly built object with the same time data, sampling rate, window and spectrum, CSM "
    "and spectrogram settings returns. This holds after any sequence of data replacements, channel edits, setting changes, "
    "getter calls, copies and plots. Reading or plotting never changes what a later read returns.",
    ["histories", "configurations"],
    "Every sequence of mutations, setting changes, reads, plots and copies.",
    "Tests call each getter once or twice after one change; staleness needs the right read before the right change, a product of operations no test enumerates.",
    [C + "signal.py", C + "impulse_response.py"],
    [("state-update flags and __update_state", C + "signal.py"), ("set_spectrum_parameters / set_csm_parameters / set_spectrogram_parameters", C + "signal.py")],
    ["get_spectrum", "get_csm", "get_spectrogram", "time_vector_s", "plot_*"],
    [("cached spectrum, csm, spectrogram and their flags", "valid only for the current data and settings", C + "signal.py")],
)
prop(
    "C02", "Real-time filters compute their difference equation for every call order",
    "Each real-time filter (FIR, IIR, overlap-save and uniformly partitioned convolvers, state space, state variable, lattice-ladder, "
    "warped FIR/IIR, Kautz, fixed-pole parallel, exponential average, chains) outputs, for every channel, exactly the samples its "
    "transfer function (or recursion) defines for that channel's own input since the last reset. This holds for any interleaving of "
    "samples or blocks over channels, for resets and re-initialisations at any point, for any FIR length, block size and coefficient "
    "normalisation, and agrees with the vectorised filter_signal of the same object.",
    ["schedules", "histories", "configurations"],
    "Every interleaving of per-channel samples/blocks, every reset point, every filter structure and (length, block size) pair.",
    "Tests run one channel from start to end; cross-channel state sharing and buffer-index errors only show under interleaving, odd transform lengths and resets.",
    [C + f for f in ("fir_filter_realtime.py", "iir_filter_realtime.py", "state_space_filter.py", "sv_filter.py", "lattice_ladder_filter.py",
                     "warped_filters.py", "kautz_filter.py", "parallel_filter.py", "exponential_average_filter.py", "filter_chain.py", "realtime_filter.py")],
    [("per-channel state arrays and circular indices", C + "fir_filter_realtime.py"), ("process_sample / process_block", C + "realtime_filter.py")],
    ["process_sample", "process_block", "filter_signal"],
    [("state / buffer / buffer_ind", "delay lines per channel", C + "fir_filter_realtime.py")],
)
prop(
    "C03", "Streaming in blocks with filter states equals filtering in one go",
    "Filtering consecutive blocks of a signal with activate_zi=True, with a Filter (FIR, b/a, second-order sections), a FilterBank in any "
    "mode, a Linkwitz-Riley, QMF or gammatone bank or a multiband signal, concatenates to the output of filtering the whole signal at once, per channel. "
    "Calls without activate_zi, impulse responses, copies and streaming of other channels in between do not disturb the states, and "
    "initializing the states again or changing the channel count starts from settled states.",
    ["histories", "schedules", "inputs"],
    "Every partition of a signal into blocks and every history mixing streamed blocks, stateless calls, copies, channel subsets and re-initialisation.",
    "Tests call filter_signal with activate_zi once and do not compare blocks with the whole.",
    [C + "filter.py", C + "filter_helpers.py", C + "filterbank.py", "dsptoolbox/filterbanks/_filterbank.py"],
    [("zi carried from block to block", C + "filter_helpers.py"), ("channels_zi of crossovers and allpasses", "dsptoolbox/filterbanks/_filterbank.py")],
    ["Filter.filter_signal", "FilterBank.filter_signal", "FilterBank.filter_multiband_signal", "LRFilterBank.filter_signal"],
    [("zi", "filter states per channel", C + "filter.py")],
)

exec((ROOT / "tools" / "props_more.py").read_text()) if (ROOT / "tools" / "props_more.py").exists() else None

P.sort(key=lambda p: p["id"])
(ROOT / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))

checks, na = [], []
NOTES = {}
exec((ROOT / "tools" / "notes.py").read_text()) if (ROOT / "tools" / "notes.py").exists() else None
for p in P:
    pid = p["id"]
    if (ROOT / "checks" / f"{pid.lower()}.py").exists():
        checks.append(
            dict(
                property=pid,
                quick_cmd=f"bash run.sh {pid} quick",
                thorough_cmd=f"bash run.sh {pid} thorough",
                technique=NOTES.get(pid, {}).get(
                    "technique",
                    "bounded exhaustive exploration of operation histories/configurations of the real code against an executable reference model",
                ),
                level="model_checking",
                level_note=NOTES.get(pid, {}).get(
                    "note",
                    "Complete within the bounds listed in the evidence file; data values come from a fixed generic alphabet (or a basis, where the operation is linear). Trusts NumPy/SciPy primitives and the reference model in checks/ and mc/dsp.py.",
                ),
            )
        )
    else:
        na.append(dict(property=pid, reason="no check built yet"))
man = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=checks,
    not_applicable=na,
    notes="No hooks: checks drive the public API of the working tree in /repo. Known findings and fixed defects: known_findings.txt.",
)
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(P), "properties", len(checks), "checks")
