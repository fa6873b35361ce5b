#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below. Every property of properties.jsonl is claimed or listed as not applicable."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("model-based runtime monitoring of snapshot reads over generated histories", "exploration", "independent map model per version; every read path, every version, hostile keys"),
 "C02": ("runtime monitoring of roots against an independent sparse-Merkle specification", "exploration", "three hash functions; the specification shares no code with jmt"),
 "C03": ("runtime monitoring of proof production and verification", "exploration", "every probed key at every version; negative claims enumerated per proof"),
 "C04": ("adversarial runtime monitoring of the point-proof verifier (structure-aware mutation, panic monitor)", "exploration", "soundness sampled over mutated, forged and random proofs; hash collisions are out of scope"),
 "C05": ("runtime monitoring of update proofs over generated batches", "exploration", "all proof-producing entry points compared with the plain ones"),
 "C06": ("adversarial runtime monitoring of the update verifier (targets from a believing verifier, panic monitor)", "exploration", "forged transitions are aimed at the root a too-trusting verifier would compute"),
 "C07": ("adversarial runtime monitoring of range proofs with an independent left-sibling builder", "exploration", "complete and tampered leaf sets, panic monitor"),
 "C08": ("runtime monitoring of exclusion queries against the model's neighbours", "exploration", "greatest smaller and least larger key of the model"),
 "C09": ("runtime monitoring of ICS23 proofs with the independent ics23 verifier", "exploration", "ics23 crate as verifier under the exported spec; tampered proofs"),
 "C10": ("runtime monitoring of iterators against the model's ranges", "exploration", "all starts and indexes of small trees, sampled starts of larger ones"),
 "C11": ("runtime monitoring of chunked restoration with injected interruptions", "exploration", "random chunk splits and interruption points, two storage backends"),
 "C12": ("adversarial runtime monitoring of restoration (tampered chunks, storage write monitor, write faults)", "exploration", "no write may follow a rejected chunk; success only with the expected root"),
 "C13": ("before/after runtime comparison of all answers across pruning, including interrupted pruning", "exploration", "byte-exact recorded answers; weak reads of pruned versions"),
 "C14": ("offline checking of stale reports against reachability recomputed from storage", "exploration", "exact set equality per version and after pruning at every version"),
 "C15": ("crash injection on the write batch with storage monitors", "exploration", "random subsets of uncommitted entries left behind, then recomputation compared"),
 "C16": ("online structural monitor walking every stored version", "exploration", "every node of every version of every generated history"),
 "C17": ("runtime monitoring of counts and statistics against the returned batch", "exploration", "exact equality per version"),
 "C18": ("differential runtime monitoring of all write paths and groupings", "exploration", "byte-exact storage comparison when the order is the same"),
 "C19": ("runtime monitoring of encodings against independent encoders and golden bytes, hostile decoding", "exploration", "round trips, golden bytes, mutated and random inputs to every decoder"),
 "C20": ("fault injection at every single storage read of every operation", "fault_enumeration", "each read of each monitored operation failed once and stickily; operations and histories are sampled"),
 "C21": ("model-based runtime monitoring of appends", "exploration", "reads, roots, structure, pruning after appends"),
 "C22": ("concurrent stress with injected delays and a snapshot oracle", "exploration", "reader threads against a committing and pruning thread; schedules are sampled"),
 "C23": ("differential runtime monitoring across builds and processes (trace digests)", "exploration", "std/no_std and debug/release builds, repeated processes"),
 "C24": ("differential runtime monitoring of the in-memory store against a reference store", "exploration", "random operation sequences including refused ones"),
 "C25": ("model-based runtime monitoring over restored pre-genesis states", "exploration", "restored pre-genesis state, first updates of every kind"),
 "C26": ("runtime monitoring of storage accesses against path-length budgets", "exploration", "every access counted by the instrumented store"),
 "C27": ("model-based runtime monitoring of batch operations and of a minimal storage reader", "exploration", "random operation sequences compared with two maps after every step"),
}
props = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]
import subprocess, re
src = "".join(open(f"{ROOT}/harness/src/props/{f}").read() for f in ["mod.rs"])
have = re.findall(r'id: "(C\d\d)"', src)
checks = [dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
               evidence_file=f"evidence/{p}.json", technique=T[p][0], level=T[p][1], level_note=T[p][2]) for p in props if p in have]
na = [dict(property=p, reason="check under construction") for p in props if p not in have]
m = dict(version=1, setup_cmd="./check.sh --build",
  hooks=dict(guard="jmt_verif", enable='RUSTFLAGS="--cfg jmt_verif"', source_commits=["677c740"]),
  checks=checks, not_applicable=na)
m["hooks"]["source_commits"] = [subprocess.run(["git","-C","/repo","rev-parse","677c740"],capture_output=True,text=True).stdout.strip()]
json.dump(m, open(f"{ROOT}/MANIFEST.json","w"), indent=1); open(f"{ROOT}/MANIFEST.json","a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks;", len(na), "not claimed")
