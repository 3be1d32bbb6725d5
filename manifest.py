#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = "deterministic simulation with fault injection: "
what = {
 "C01": "seeded histories, partly with operations interrupted by panics, under simulated hash functions, against a reference model after every step",
 "C02": "seeded histories, partly with operations interrupted by panics, under simulated hash functions, against a reference model after every step",
 "C03": "seeded histories, partly with operations interrupted by panics, under simulated hash functions, against a reference model after every step",
 "C04": "seeded histories of tagged objects, partly with interrupted operations; results compared with the model down to the identity of the object",
 "C05": "seeded histories aimed at refused operations under colliding hash functions, partly with interrupted operations; full comparison with the state before",
 "C06": "seeded schedules of several cursors, cloned, suspended and abandoned in turns, over seeded maps",
 "C07": "seeded histories with filters whose closures may panic; calls and effect compared with the model",
 "C08": "drains cancelled after any prefix, leaked, or abandoned by a panic, in seeded histories",
 "C09": "filtered drains cancelled, leaked, or aborted by panicking closures, in seeded histories",
 "C10": "panics injected into the n-th call into user code at every kind of call site; coherence and untouched items checked, history continued",
 "C11": "every object registered; panics, cancellations, leaks, I/O errors and bad data injected; conservation checked after every step",
 "C12": "failing allocations and overflowing requests injected into reservations; advertised room used up while allocations are counted",
 "C13": "simulated allocator counts what reservations, shrinking, clearing and filling up really do, in seeded histories",
 "C14": "pairs of maps built through different seeded histories, hash seeds and capacities, with one difference or none",
 "C15": "seeded histories over several maps cloned from each other and dropped, under simulated hash functions",
 "C16": "save, crash and restart on simulated storage (short, interrupted, failing and torn transfers), loaded under another hash seed",
 "C17": "hostile peers and damaged storage: lying lengths, errors at any point, corrupted bytes; memory counted by the simulated allocator",
 "C18": "one seeded history replayed under several simulated hash functions and seeds, traces compared",
 "C19": "simulated sources that lie about their size or panic part-way, against inserting one by one",
 "C20": "reader threads parked at every call into user code and released one at a time by a seeded scheduler; some are delayed, some panic",
 "C21": "seeded chains of conversions of registered objects, with panics injected into closures and clones; identity and conservation of the objects checked",
 "C22": "seeded histories over maps of several sizes under simulated hash seeds; the calls of Eq and Hash that each operation makes are counted by the simulated items",
 "C23": "long seeded histories, partly with operations interrupted by panics, over a simulated allocator that counts the bytes held after every operation",
 "C24": "seeded histories of items whose Eq and Hash lie, change their minds or panic and whose Drop panics; canaries and a registry of live items, each history in a process of its own",
 "C25": "seeded histories over maps of up to 40 000 items under simulated hash seeds, in a build that counts executed basic blocks and over a simulated allocator that counts bytes",
}
note = "Sampled, not exhaustive: a clean batch of seeded runs is evidence, not proof. Runs all of cycle_map unmodified with the real hashbrown, serde and serde_json; ahash, the stored items, the allocator, storage and the scheduler are the simulator's. Trusts that Eq and Hash of the items agree, and the reference model (sim/src/model.rs)."
extra = {
 "C23": " The bound is three times what the present code needs at most, so only growth shows.",
 "C24": " Undefined behaviour shows as a broken canary or registry, a failed precondition check of the standard library or hashbrown (debug assertions are on), or a crash.",
 "C25": " Steps are basic blocks of the library, hashbrown and generic std code; work inside precompiled std (copying memory) is not seen. The bound is five times what the present code needs on average.",
 "C03": " The call listed in KNOWN_FINDINGS.txt is left out of the histories and probed separately.",
 "C14": " The comparison listed in KNOWN_FINDINGS.txt is left out of the histories and probed separately.",
 "C10": " Hashing of stored items while a table grows is not interrupted (hashbrown's own limit).",
 "C12": " Sizes whose table layout lies between isize::MAX and usize::MAX are left out, as hashbrown 0.12.3 is unsound there.",
 "C20": " Readers switch only at calls into user code (hashing, comparing, cloning, formatting, serializing an item) and between operations; the library itself has no other shared mutable state to race on.",
}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
na = {}
m = {
 "version": 1,
 "setup_cmd": "./build.sh && PROP=C25 ./build.sh",
 "checks": [{
   "property": i,
   "quick_cmd": f"./check.sh {i}",
   "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
   "evidence_file": f"evidence/{i}.json",
   "technique": T + what[i],
   "level": "exploration",
   "level_note": note + extra.get(i, ""),
 } for i in ids if i not in na],
 "not_applicable": [{"property": i, "reason": na[i]} for i in ids if i in na],
 "notes": "No hooks in /repo: every seam is a type parameter, a trait, the global allocator or the ahash dependency, which the harness replaces by ahash-shim. Genuine defects repaired or recorded: KNOWN_FINDINGS.txt.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
