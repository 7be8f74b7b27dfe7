#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(R + "/properties.jsonl")}
T = {
 "P01": "deterministic simulation: seeded values, specifications and stream faults against an executable reference model",
 "P02": "deterministic simulation: seeded values and short-writing sinks, bytes compared to a reference codec",
 "P03": "deterministic simulation: seeded stream fragmentation, interruption and corruption, outcome compared to the undisturbed run and the model",
 "P04": "deterministic simulation: peer crash at seeded and at every byte of a message sequence",
 "P05": "deterministic simulation: read errors at seeded bytes, once or for good",
 "P06": "deterministic simulation: sink errors, full sinks, short writes and flush failures at every byte",
 "P07": "deterministic simulation: seeded corruption of transmitted bytes, re-encoding of what is accepted",
 "P08": "deterministic simulation: lying lengths and counts with an allocation meter and a virtual step limit",
 "P09": "deterministic simulation: seeded task and wake-up schedules of the asynchronous codecs against the synchronous ones",
 "P10": "deterministic simulation: seeded schedules, lost peers and task cancellation at any await point",
 "P11": "deterministic simulation: seeded values with overwritten computed fields, checked by reading back",
 "P12": "deterministic simulation: seeded values outside the specification against faulty sinks",
 "P13": "deterministic simulation: stream faults under chains of transforms, against reference transforms",
 "P14": "deterministic simulation: seeded hash seeds, histories and concurrent compilations, outputs compared",
 "P15": "deterministic simulation: fault injection at any n-th resolver request over seeded import graphs",
 "P16": "deterministic simulation: seeded formatter and file-system faults at any n-th call of the build step",
 "P17": "deterministic simulation: specification files torn, corrupted and deepened by seeded storage faults",
 "P21": "deterministic simulation: seeded faults in the tokens of specification files, compiled under a stack limit, an allocation meter and a watchdog",
 "P18": "deterministic simulation: seeded histories of failing, cancelled and panicking operations next to a witness",
}
NOTE = {
 "codec": "Seeded search, not exhaustive. Real: the compiler, the generated code as built by rustc, flate2, tokio's io traits. Simulated: streams, sinks, pipes, executor, clock. Trusted: rustc, std, the reference model in sim/model, the stand-ins for base64 0.13 and async-recursion. Asynchronous gzip/base64 cannot be built offline and is not covered.",
 "comp": "Seeded search, not exhaustive. Real: the compiler (all of protospec-build). Simulated: import resolver, rustfmt, file-system faults, hash seeds, thread schedule. Trusted: rustc, std, the oracles in sim/compsim.",
}
CLAIM = [p for p in props if p in T and (p in ("P14", "P15", "P16", "P17", "P21")) <= os.path.exists(R + "/sim/compsim")]
NA = {
 "P19": "The grammar is a pure function of one text: no concurrency, time, I/O, randomness or fault takes part, so there is no schedule or fault sequence to search. (Expressions of generated specifications are still evaluated by an independent parser and model in P02, P07 and P11.)",
 "P20": "Type checking is a pure function of the syntax tree; no schedule or fault can influence it, so simulation has nothing to decide.",
}
for p in props:
    if p not in CLAIM and p not in NA: NA[p] = "not built yet"
m = dict(version=1, setup_cmd="true",
    hooks=dict(guard="none", enable="no hooks were needed: generated code is generic over its streams, and the compiler takes its resolver as an argument", source_commits=[]),
    checks=[dict(property=p, quick_cmd=f"./check {p} --tier quick", thorough_cmd=f"./check {p} --tier thorough", technique=T[p], level="exploration",
        level_note=NOTE["comp" if p in ("P14", "P15", "P16", "P17", "P21") else "codec"]) for p in CLAIM],
    not_applicable=[dict(property=p, reason=NA[p]) for p in props if p in NA],
    notes="Replay: ./check <id> --replay <file>. See DESIGN.md.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(CLAIM), "checks")
