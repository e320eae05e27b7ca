"""C16 to C18: simulated runs of the derive macro on a virtual file system."""

import json
import os
import time

import shards
from common import *

HARNESS = os.path.join(VERIF, "derive")
BINARY = os.path.join(TARGET, "debug", "vderive")

# File trees per shard, cases per tree
QUICK = {
    "C16": (40, 24),
    "C17": (120, 12),
    "C18": (40, 12),
}

RULE = (
    "A case is one simulated execution: generated packages (template files, askama.toml, links, directories, items), "
    "who derives what on which simulated threads, in which working directory and with which hash seeds, and seeded faults and "
    "mutations at numbered operations (each system call into the file system is an operation); for C18 a history of edits "
    "and incremental builds. A derive counts as distinct and non-trivial if the hash of its operation trace "
    "including the faults that were injected and its result is new in its shard."
)
REAL = (
    "real code: askama_derive and askama_parser as built from /repo (as a library, with hash seeds, syn, quote and std::fs). "
    "Simulated: the file system behind the system calls of libc, the working directory, the "
    "thread scheduler, the random seeds of hash maps, and for C18 the compiler's dependency tracking."
)


def build():
    messages, ok, err = cargo_build(HARNESS, env())
    if not ok:
        errors = [m["message"].get("rendered", "") for m in messages if m["message"]["level"] == "error"]
        raise CheckError("cannot build: " + "\n".join(errors)[:3000] + err[-2000:])


def test(prop):
    return lambda case, timeout=60: shards.check_case([BINARY, "--check", prop], case, timeout)


def copy(x):
    return json.loads(json.dumps(x))


def specs_of(case):
    for t in case.get("threads", []):
        yield from t
    for s in case.get("steps", []):
        yield from s["builds"]


def without(l, i):
    return l[:i] + l[i + 1 :]


def candidates(case):
    """Simpler cases"""
    threads = case.get("threads", [])
    steps = case.get("steps", [])

    def with_(**kw):
        return copy({**case, **kw})

    for t in range(len(threads)):
        yield with_(threads=without(threads, t))
    for t, specs in enumerate(threads):
        for i in range(len(specs)):
            if len(specs) > 1:
                yield with_(threads=threads[:t] + [without(specs, i)] + threads[t + 1 :])
    for i in range(len(steps)):
        yield with_(steps=without(steps, i))
    for i, s in enumerate(steps):
        for part in ("builds", "edits"):
            for k in range(len(s[part])):
                yield with_(steps=steps[:i] + [{**s, part: without(s[part], k)}] + steps[i + 1 :])
    if case.get("sched"):
        if len(threads) == 1:
            c = with_()
            del c["sched"]
            yield c
        script = case["sched"].get("script") or []
        for n in (0, len(script) // 4, len(script) // 2, len(script) * 3 // 4, len(script) - 1):
            if 0 <= n < len(script):
                yield with_(sched={**case["sched"], "script": script[:n]})
    # Faults, and where it runs
    c = copy(case)
    for n, spec in enumerate(specs_of(case)):
        changes = [{**spec, "faults": without(spec["faults"], k)} for k in range(len(spec.get("faults", [])))]
        if spec["cwd"] != "/simfs/pkg":
            changes.append({**spec, "cwd": "/simfs/pkg"})
        for new in changes:
            c = copy(case)
            old = list(specs_of(c))[n]
            old.clear()
            old.update(copy(new))
            yield c
    # Trees
    used = {s["tree"] for s in specs_of(case)} | {0}
    for n in range(1, len(case["trees"])):
        if n not in used:
            c = copy(case)
            del c["trees"][n]
            for s in specs_of(c):
                s["tree"] -= s["tree"] > n
            yield c
    for n, tree in enumerate(case["trees"]):
        items = {s["item"] for s in specs_of(case) if s["tree"] == n}
        if n == 0 and len(tree["items"]) > 1:
            for i in range(len(tree["items"])):
                if i not in items:
                    c = copy(case)
                    del c["trees"][n]["items"][i]
                    for s in specs_of(c):
                        if s["tree"] == n:
                            s["item"] -= s["item"] > i
                    yield c
        for path in sorted(tree["files"]):
            c = copy(case)
            del c["trees"][n]["files"][path]
            yield c
    for n, tree in enumerate(case["trees"]):
        for path, content in sorted(tree["files"].items()):
            text = content.get("Text")
            if not text:
                continue
            parts = pieces(text)
            size = len(parts)
            while size >= 1:
                for at in range(0, len(parts), size):
                    if len(parts) > 1 or size > 1:
                        c = copy(case)
                        c["trees"][n]["files"][path] = {"Text": "".join(parts[:at] + parts[at + size :])}
                        yield c
                size //= 2


def pieces(text):
    """Tags and what is between them"""
    out, rest = [], text
    while rest:
        ends = [rest.find(x) + 2 for x in ("%}", "}}", "#}") if x in rest]
        starts = [rest.find(x) for x in ("{%", "{{", "{#") if rest.find(x) > 0]
        n = min(ends + starts + [len(rest)])
        out.append(rest[:n])
        rest = rest[n:]
    return out


def report(prop, seed, case, message, prefix):
    """Minimises, and writes the replay file"""
    k, m, l = test(prop)(case)
    if k is None:
        # It depends on what the process did before
        path = write_replay(prop, seed, {"kind": "prefix", "message": message, "case": case, **prefix})
        raise shards.Unconfirmed(Violation(message, path))
    case, m = shards.minimise(test(prop), candidates, case, k, m, l)
    raise Violation(m, write_replay(prop, seed, {"kind": "case", "class": k, "message": m, "case": case}))


def explore(prop, seed, trees, effort, deadline):
    args = lambda n: [prop, mix(seed, n), trees, effort]
    running = [shards.Shard(n, [BINARY, "--run", *args(n)], memory_gb=8) for n in range(shards.SHARDS)]
    bad = shards.wait_for_all(running, deadline)
    if bad is None:
        return [s.result() for s in running]
    prefix = {"args": args(bad.n), "n": max(bad.at(), 0)}
    kind, message = bad.failure()
    if kind == "violation":
        v = bad.result()["violation"]
        prefix["n"] = v["n"]
        report(prop, seed, v["case"], message, prefix)
    code, out, err = run([BINARY, "--dump", *map(str, args(bad.n)), str(prefix["n"])], 300)
    try:
        case = json.loads(out.strip().splitlines()[-1])["violation"]["case"]
    except (IndexError, ValueError, KeyError, TypeError):
        path = write_replay(prop, seed, {"kind": "prefix", "message": message, **prefix})
        raise Violation(message, path)
    report(prop, seed, case, message, prefix)


def check(prop, tier, seed, started):
    trees, effort = QUICK[prop]
    if os.environ.get("VERIF_SCALE"):
        trees = int(trees * float(os.environ["VERIF_SCALE"]))
    budget = float(os.environ.get("VERIF_BUDGET", 1500)) if tier == "thorough" else 0
    build()
    totals, faults, samples = {}, {}, []
    epoch, wall = 0, 0
    while True:
        s = seed if epoch == 0 else mix(seed, f"epoch{epoch}")
        scale = 1 if epoch == 0 else 4
        begin = time.time()
        results = shards.confirmed(lambda: explore(prop, s, trees * scale, effort, begin + 780 * scale))
        wall += time.time() - begin
        for r in results:
            shards.add_results(totals, {"faults": faults}, r)
            if len(samples) < 3:
                samples.extend(r["samples"][:1])
            if r["nondeterministic"] is not None:
                raise CheckError(f"case {r['nondeterministic']} of a shard is not deterministic")
        epoch += 1
        if time.time() - started + (time.time() - begin) * (4 if epoch == 1 else 1) > budget:
            break
    hours = max(wall, 0.001) / 3600
    return {
        "evaluations": totals["derives"],
        "distinct_nontrivial": totals["distinct"],
        "rule": RULE,
        "samples": samples,
        "simulated_executions": totals["cases"],
        "executions_per_hour": round(totals["cases"] / hours),
        "tree_seeds": totals["trees"],
        "tree_seeds_per_hour": round(totals["trees"] / hours),
        "derives": totals["derives"],
        "derives_that_yielded_code": totals["codes"],
        "derives_that_yielded_an_error": totals["errors"],
        "simulated_time": f"{totals['ops']} system calls (the derive macro has no clock; system calls are its time)",
        "faults_injected": faults,
        "distinct_schedules": totals["interleavings"],
        "thread_switches": totals["switches"],
        "threads_set_aside_because_of_locks": totals["waits"],
        "clean_processes_for_comparison": totals["processes"],
        "incremental_builds": totals["builds"],
        "incremental_builds_without_rerun": totals["kept"],
        "edits": totals["edits"],
        "executions_run_twice_with_identical_trace": totals["double_runs"],
        "real_and_simulated_components": REAL,
    }, "exploration"


def replay(data, path):
    prop = data["property"]
    build()
    if data["kind"] == "case":
        k, m, l = test(prop)(data["case"], 120)
        return m if k else None
    if data["kind"] == "prefix":
        code, out, err = run([BINARY, "--prefix", *map(str, data["args"]), str(data["n"])], 900, memory_gb=8, env=env())
        if code is None:
            return "does not terminate"
        try:
            r = json.loads(out.strip().splitlines()[-1])
        except (IndexError, ValueError):
            return f"the process was ended (status {code}): {err[-500:]}"
        if code != 0:
            return r.get("message", f"status {code}")
        return r["violation"]["message"] if r.get("violation") else None
    raise CheckError(f"unknown kind of replay: {data['kind']}")
