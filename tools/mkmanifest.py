#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property in PROPS."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = ("Each generated document is loaded and rendered by the real code into a recording sink; every recorded call sequence is "
       "compared with the one an independent interpreter of the Lottie document (harness/src/refm.rs) computes")
N = {
 "P10": ("trace monitor against an independent keyframe interpreter", REF + ", for every animatable property; boundary keyframes are also checked exactly."),
 "P11": ("trace monitor against an independent path-morph interpreter", REF + ", outlines compared point by point."),
 "P13": ("trace monitor of layer brackets and order", REF + ", restricted to layer brackets and draws, with frames on and next to every in and out point."),
 "P14": ("trace monitor of transforms against an independent matrix product", REF + ", restricted to transforms."),
 "P15": ("trace monitor of transforms over parent graphs", REF + ", restricted to transforms over random parent graphs."),
 "P16": ("trace monitor of paint alphas", REF + ", restricted to the alpha of every paint."),
 "P17": ("trace monitor of clip calls", REF + ", restricted to clips, their outlines, placement and extent."),
 "P18": ("trace monitor of blend layers", REF + ", restricted to the structure of isolated and composited layers."),
 "P19": ("trace monitor over precomposition nesting", REF + ", over nested, stretched and shifted precompositions."),
 "P21": ("trace monitor of outlines, with the shapes' own equations", REF + "; rectangles and ellipses are also measured against their equations and lengths."),
 "P22": ("trace monitor of outlines, with vertex equations", REF + "; vertices are also checked against radius, angle and count."),
 "P23": ("trace monitor of paint coverage and order", REF + ", restricted to which outlines each paint covers, in what order."),
 "P24": ("trace monitor of brushes and stroke styles", REF + ", restricted to solid colours and stroke styles."),
 "P25": ("trace monitor of gradients", REF + ", restricted to gradient geometry, stops and stroke style."),
 "P26": ("trace monitor of trimmed outlines by arc length", REF + " with its own 256-step arc-length tables; lengths of the pieces are compared."),
 "P27": ("trace monitor of repeaters built through the public model", REF + "; repeaters are inserted through the public runtime model."),
 "P32": ("whole-trace monitor against an independent interpreter", REF + ", nothing masked out, plus the repository's own example files."),
 "P01": ("crash, hang and overflow monitor over loading", "Damaged, hostile, unsupported and random inputs are loaded through every entry point in worker processes with overflow checks, a memory limit and a watchdog; a panic, abort or hang is attributed to its input and confirmed alone."),
 "P02": ("crash, hang and call-budget monitor over rendering", "Hostile animations (tangled references, odd numbers, deep nesting, odd frames, transforms and alphas) are rendered in worker processes with overflow checks, an 8 MB stack, a call budget and a watchdog."),
 "P03": ("online bracket protocol monitor of the sink calls", "An automaton checks every recorded call sequence for balanced and nested brackets and for the outermost clip."),
 "P04": ("finiteness monitor of every number in the sink calls", "Every number of every recorded call is checked, at frames on, next to and far from the keyframes."),
 "P05": ("differential monitor of the loading entry points", "The same input goes through every entry point; acceptance, the loaded model and rendered call sequences are compared."),
 "P06": ("round-trip monitor of the document model", "Generated documents are parsed, serialised and re-parsed; an independent field table decides what has to survive, and the loaded results are rendered and compared."),
 "P07": ("rejection monitor over single faults", "Single faults are placed by an independent field table at every kind of position; loading has to fail, naming the asset if the fault lies in one."),
 "P08": ("metamorphic monitor of sink calls under harmless edits", "Editor data, unknown fields, reordering and undrawn modifiers are added; call sequences before and after are compared."),
 "P09": ("monitor of the loaded model against the document", "The public fields of every loaded composition are compared with what the generated document says."),
 "P12": ("metamorphic monitor of sink calls under re-encoding and time shift", "Constant/keyframed, split/joined and shifted variants of each document are rendered; call sequences are compared."),
 "P20": ("metamorphic monitor of sink calls under caller transform and alpha", "Each render is repeated with caller transforms and alphas; call sequences are compared after the expected change."),
 "P28": ("history monitor of a reused renderer", "Long random sequences of renders of several animations with one renderer are compared call by call with fresh renderers, and the animation is compared with its state before."),
 "P29": ("multi-thread stress with injected delays, Miri data-race detection, ThreadSanitizer", "Threads share animations under injected yields, sleeps and spins and every result is compared with the single-threaded one; a smaller workload runs under Miri with many scheduler seeds, and in the thorough tier the whole stress runs under ThreadSanitizer."),
 "P30": ("heap monitor with a counting global allocator", "Live heap bytes are sampled between renders over repeated and ever-changing frames and after dropping everything, and peak bytes are compared with what a render draws."),
 "P31": ("differential monitor of the encoded Vello scene", "Every stream of the encoding made by velato's backend is compared with a replay of the recorded calls."),
 "P33": ("metamorphic monitor of sink calls under fixing of model parts", "Random sets of animated parts of loaded animations are replaced by what they evaluate to at a frame; call sequences before and after are compared, and parts are evaluated directly at many frames."),
 "P34": ("monitor of the evaluated public model against an independent interpreter", "Every part of every loaded model is evaluated at many frames and compared with what an independent interpreter computes for the corresponding part of the generated document."),
 "P35": ("monitors over hand-altered models: crash monitor, bracket automaton, and twin comparison", "Loaded models are damaged through the public types and drawn next to twins in which the damaged parts are absent; calls must be equal, without panics, brackets balanced."),
}
NOTE = " Assurance is that of testing: it covers the executions it generated (counts in the evidence file). Trusted: the reference interpreter, the recording sink, kurbo's and peniko's types."
extra = os.path.join(root, "tools", "notes.json")
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items():
        N[k] = tuple(v)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in N:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    t, note = N[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": note + NOTE})
m = {"version": 1, "setup_cmd": "cargo build --release --offline --locked --manifest-path harness/Cargo.toml && cargo build --release --offline --locked --manifest-path harness/Cargo.toml --features vello --target-dir harness/target/vello", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the public RenderSink trait and the public model are the observation points."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
