#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("stateful model-based testing", "Random statement histories against a reference model, three routes (statements, query text, store calls), every entry compared after every step."),
 "C02": ("stateful model-based testing with a virtual clock", "Random lifetimes and clock moves around every expiry instant; the instant itself is not tested."),
 "C03": ("stateful model-based testing with a virtual clock and seeded sampling randomness", "Sweeps interleaved with histories; how many entries one sweep samples is not prescribed."),
 "C04": ("stateful model-based testing", "Vector statements against a reference vector; values up to thousands of elements."),
 "C05": ("stateful model-based testing", "Map statements against a reference map, both key types."),
 "C06": ("stateful model-based testing", "Random histories rich in failing and reading statements; the whole store is compared before and after each."),
 "C07": ("grammar-based generation with a round-trip oracle", "Statements printed in random spelling and read back; own reference grammar."),
 "C08": ("property-based testing of the tokenizer", "Tokens of generated and near-grammar texts are laid back over the text."),
 "C09": ("grammar-based generation with a round-trip oracle", "Statement lists printed in random layouts parse back to themselves, however they are joined."),
 "C10": ("generative fuzzing, crash and termination oracle", "Arbitrary and near-grammar texts, deep and long ones, in debug-checked builds."),
 "C11": ("model-based testing of statement batches", "Multi-statement requests against the model, through the interpreter and the single-threaded server."),
 "C12": ("model-based testing over privilege levels", "Every request refused or run as a whole, per level."),
 "C13": ("generative testing of HTTP decoding over random and exhaustive segmentations", "Both readers on real sockets; segmentation is imposed on the reads."),
 "C14": ("structured fuzzing with fault injection against a reference decoder", "Every cut-off point and failing read of small requests, broken requests of many kinds, byte mutations; both readers."),
 "C15": ("generative testing with injected short writes and slow readers", "Both senders; the whole byte stream is parsed by an HTTP parser."),
 "C16": ("model-based testing of running servers", ""),
 "C17": ("model-based testing of running servers", ""),
 "C18": ("fuzzing of running servers with disconnects and background sweeps", ""),
 "C19": ("concurrency testing with a linearizability oracle", ""),
 "C20": ("concurrency testing with a linearizability oracle", ""),
 "C21": ("differential testing of the three servers", ""),
 "C22": ("concurrency testing of the worker pools", ""),
 "C23": ("round-trip and injectivity testing of the response encoding", "Random responses and near variants, and responses of random histories."),
}
CLAIMED = os.environ.get("CLAIMED", "").split() or [l.strip() for l in open(os.path.join(root, "tools/claimed.txt")) if l.strip()]
NOTES = os.path.join(root, "tools/notes.json")
extra = json.load(open(NOTES)) if os.path.exists(NOTES) else {}
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CLAIMED:
        tech, note = T[p]
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
            "technique": "property-based testing: " + tech, "level": "fault_enumeration" if p == "C14" else "exploration",
            "level_note": (extra.get(p) or note) + " Search over generated inputs: no alarm means no counterexample among the generated cases, not a proof."})
    else:
        na.append({"property": p, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na,
     "notes": "All checks are legs of one harness crate (harness/). VH_VERBOSE=1 prints per-leg statistics; 'target/release/vh replay FILE' reruns a replay file."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
