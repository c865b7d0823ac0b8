"""Writes MANIFEST.json from the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "differential runtime monitor: formatting-call logs of derived vs handwritten Display over generated definitions",
    "C02": "differential runtime monitor: formatting-call and evaluation logs over generated argument expressions",
    "C03": "runtime monitor over generated enums: per-variant display logs, fmt-function call log, impl presence",
    "C04": "runtime fault injection: failing writer at every byte, failing/panicking field at every call, log oracle",
    "C05": "runtime identity monitor of source() (address and type) over generated definitions and error chains",
    "C06": "runtime identity monitor of source() and forwarded backtraces over a table of pointer types",
    "C07": "differential runtime monitor of display logs and source identity of transparent vs inner errors",
    "C08": "runtime move/drop/clone log monitor of From conversions over generated definitions",
    "C09": "runtime request-log monitor of Error::provide on nightly over generated definitions",
    "C10": "runtime observation of which instantiations implement Display/Error, against a bound oracle",
    "C11": "monitor of the compiler's diagnostics over generated misuse with planted location oracle",
    "C12": "in-process fuzzing of the derive with panic, time and output-wellformedness monitors",
    "C13": "trace comparison of repeated expansions in-process, across processes, histories and parser builds",
    "C14": "generated hostile scopes under strict lints; diagnostics monitor plus behavioural twin",
    "C15": "runtime observation of trait impls, layout, drops, names against an underived twin",
    "C16": "trace comparison of the same workload over build configurations",
    "C17": "runtime byte-level display monitor over generated paths and pointer types",
    "C18": "recorded build-script traces with fault-injecting compilers, against a reference model",
    "C19": "differential runtime monitor of macro-produced vs written definitions",
    "C20": "ThreadSanitizer, AddressSanitizer, LeakSanitizer, Miri and event-log monitors under concurrent, re-entrant stress",
}
L = {
    "default": "Holds on every generated case that was run; the deciding step is a monitor over executions, so unexplored definitions remain. "
               "Trusts rustc, the generator's handwritten twin and vsupport's monitors.",
}
checks, na = [], []
for p in sorted(T):
    if os.path.exists(os.path.join(V, "tv/props/%s.py" % p.lower())):
        checks.append({"property": p, "quick_cmd": "python3 tv/check.py " + p, "thorough_cmd": "env VERIF_TIER=thorough python3 tv/check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": T[p], "level": "exploration", "level_note": L.get(p, L["default"])})
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q tv",
     "hooks": {"guard": "cfg(thiserror_verif)", "enable": "RUSTFLAGS='--cfg thiserror_verif' when building harness/inproc, which includes impl/src/lib.rs as a library",
               "source_commits": ["390f366"]},
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds thiserror from /repo's working tree into target/<hash of the sources>/; VERIF_SEED and VERIF_TIER select the workload."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
