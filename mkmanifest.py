#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, subprocess
HOOK = "0611be8"
full = subprocess.run(["git", "-C", "/repo", "rev-parse", HOOK], capture_output=True, text=True).stdout.strip()
SIM = "deterministic simulation with fault injection"
T = {
 "C01": ("seeded simulation of text sinks that refuse any one piece", "fault_enumeration"),
 "C02": ("seeded simulation of byte sinks: short, interrupted, zero and failing writes", "fault_enumeration"),
 "C03": ("seeded simulation of values, filters and serializers that fail at any operation", "fault_enumeration"),
 "C04": ("seeded simulation of panics at any operation, and of later renders", "exploration"),
 "C05": ("seeded simulation of all entry points with equal faults, and of failing allocations", "exploration"),
 "C06": ("seeded simulation of render histories with faults, compared to fresh processes", "exploration"),
 "C07": ("seeded scheduler interleaves renders at every operation, with stalls and nested renders", "exploration"),
 "C08": ("seeded simulation against a reference model of escaping, any split and any failing piece", "exploration"),
 "C09": ("seeded simulation against reference models of the filters, any split and any failing piece", "exploration"),
 "C10": ("seeded simulation against a reference JSON printer, any split and any failing visit", "exploration"),
 "C11": ("seeded simulation of iterators against a reference model of loops, with faults", "exploration"),
 "C12": ("seeded simulation, the trace of evaluations is compared to a reference model, with faults", "exploration"),
 "C13": ("seeded simulation of generated template families against a reference interpreter, with faults", "exploration"),
 "C14": ("seeded simulation of generated scopes against a reference interpreter, with faults", "exploration"),
 "C15": ("seeded simulation of requests whose templates fail or panic at any operation, per web integration", "exploration"),
 "C16": ("seeded simulation of derive runs: hash seeds, directories, histories, threads and file faults", "exploration"),
 "C17": ("seeded simulation of derive runs on a virtual file system with faults and mutations", "exploration"),
 "C18": ("seeded simulation of edit histories on a virtual file system and of an incremental compiler", "exploration"),
}
NOTE = {
 "render": "Seeded search, not exhaustive: generated templates use the constructs listed in DESIGN.md; "
           "trusts rustc, std, the simulated values and (C08-C14) the reference model in sim/src/model.rs.",
 "web": "Seeded search over requests; the frameworks are the real ones without sockets. Trusts the frameworks and the simulated bodies.",
 "derive": "Seeded search; the derive macro runs as a library whose system calls are interposed. Trusts that libc is the only way to the file system.",
}
NA = {
 "C19": "parsing is a pure function of one text: no concurrency, time, I/O, faults or second party for a simulation to control",
 "C20": "whitespace control is decided by a pure function of the template text at compile time; no schedule or fault can influence it",
 "C21": "the meaning of an expression is a pure compile-time translation of text; nothing nondeterministic is involved",
 "C22": "delimiters only parametrise the pure parser; no schedule, time, I/O or fault is involved",
 "C23": "format and MIME type are a pure lookup at compile time, with no schedule, time, I/O or fault involved",
 "C24": "keyword handling is a pure renaming of names at compile time, with no schedule, time, I/O or fault involved",
}
def main(props):
    checks = []
    for p in props:
        n = int(p[1:])
        fam = "render" if n <= 14 else "web" if n == 15 else "derive"
        checks.append({
            "property": p,
            "quick_cmd": f"./check {p}",
            "thorough_cmd": f"./check {p} --thorough",
            "technique": f"{SIM}: {T[p][0]}",
            "level": T[p][1],
            "level_note": NOTE[fam],
        })
    na = dict(NA)
    for p in T:
        if p not in props:
            na[p] = "not claimed yet: the harness is under construction"
    m = {
        "version": 1,
        "setup_cmd": "./setup",
        "hooks": {
            "guard": "cfg(askama_verif)",
            "enable": "the build script of /verif/derive-lib, which compiles /repo/askama_derive/src/lib.rs as an ordinary library, prints cargo:rustc-cfg=askama_verif",
            "source_commits": [full],
        },
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
        "notes": "See DESIGN.md. ./check --replay FILE repeats a violation.",
    }
    with open("/verif/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
import sys
main(sys.argv[1].split(","))
