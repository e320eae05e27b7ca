"""C01 to C14: simulated renders of generated templates."""

import json
import os
import re
import time

import shards
from common import *

PROGS = os.path.join(VERIF, "progs")

# Programs per shard, effort per program, direct calls of filters per shard
QUICK = {
    "C01": (100, 900, 0),
    "C02": (100, 900, 0),
    "C03": (100, 1200, 0),
    "C04": (100, 96, 0),
    "C05": (100, 600, 0),
    "C06": (100, 60, 0),
    "C07": (100, 48, 0),
    "C08": (100, 120, 150_000),
    "C09": (100, 120, 150_000),
    "C10": (100, 120, 150_000),
    "C11": (100, 200, 0),
    "C12": (110, 200, 0),
    "C13": (110, 200, 0),
    "C14": (110, 200, 0),
}
# For these, a template of the supported kind that cannot be compiled is a violation, too
MUST_COMPILE = {"C08", "C09", "C10", "C11", "C12", "C13", "C14"}

RULE = (
    "A case is one simulated execution: generated template programs (seeded), seeded values, a history of renders "
    "on one or more simulated threads, and seeded faults at numbered operations (each call from askama into a value, "
    "an iterator, a custom filter, a serializer or a sink is an operation). A render counts as distinct and "
    "non-trivial if the hash of its operation trace including the faults that were injected is new in its shard and it has at "
    "least one operation; for direct filter calls the hash covers call, value, pieces, faults and the result."
)
REAL = (
    "real code: askama, askama_escape, askama_derive and askama_parser as built from /repo, rustc, serde_json, std::fmt, std::io. "
    "Simulated: template values, iterators, custom filters, serializable values, text and byte sinks, the thread "
    "scheduler, the allocator's limit. askama has no clock, network or storage at run time."
)


def build(prop, seed, programs, only=(), skip=()):
    """Builds the shards. Returns what could not be compiled: {program seed: message}"""
    e = env(
        VERIF_PROPERTY=prop,
        VERIF_SEED=seed,
        VERIF_PROGRAMS=programs,
        VERIF_ONLY=",".join(map(str, only)),
        VERIF_SKIP=",".join(map(str, skip)),
    )
    messages, ok, err = cargo_build(PROGS, e, args=["--bins", "--keep-going"])
    if ok:
        return {}
    failed = {}
    sources = {}
    for m in messages:
        if m["message"]["level"] != "error":
            continue
        for span in m["message"]["spans"]:
            span = outermost(span)
            path = span["file_name"]
            if not re.search(r"shard\d\.rs$", path):
                continue
            if path not in sources:
                full = path if os.path.isabs(path) else os.path.join(PROGS, path)
                with open(full) as f:
                    sources[path] = f.read().split("\n")
            for line in reversed(sources[path][: span["line_start"]]):
                found = re.match(r"// program (\d+)$", line)
                if found:
                    failed.setdefault(int(found[1]), m["message"].get("rendered") or m["message"]["message"])
                    break
    if not failed:
        errors = [m["message"].get("rendered", "") for m in messages if m["message"]["level"] == "error"]
        raise CheckError("cannot build: " + "\n".join(errors)[:3000] + err[-2000:])
    return failed


def outermost(span):
    while span.get("expansion"):
        span = span["expansion"]["span"]
    return span


def binary(shard):
    return os.path.join(TARGET, "debug", f"shard{shard}")


def sources_of(shard, prop, prog):
    code, out, err = run([binary(shard), "--source", prop, str(prog)], 60)
    try:
        return json.loads(out)
    except ValueError:
        return None


def check_case(shard, prop, case, timeout=40):
    return shards.check_case([binary(shard), "--check", prop], case, timeout)


def candidates(case):
    """Simpler cases"""

    def with_(**kw):
        c = json.loads(json.dumps(case))
        c.update(kw)
        return c

    if case.get("direct"):
        d = case["direct"]
        for i in range(len(d.get("faults", []))):
            yield with_(direct={**d, "faults": d["faults"][:i] + d["faults"][i + 1 :]})
        if d.get("times", 1) > 1:
            yield with_(direct={**d, "times": 1})
        if not d.get("plain"):
            yield with_(direct={**d, "plain": True})
        return
    if case.get("repeat"):
        yield with_(repeat=0)
    threads = case["threads"]
    if len(threads) > 1:
        for t in range(len(threads)):
            yield with_(threads=threads[:t] + threads[t + 1 :])
    for t, specs in enumerate(threads):
        # Halves first
        n = len(specs)
        if n > 3:
            for part in (specs[: n // 2], specs[n // 2 :]):
                yield with_(threads=threads[:t] + [part] + threads[t + 1 :])
        for i in range(len(specs)):
            if n > 1:
                yield with_(threads=threads[:t] + [specs[:i] + specs[i + 1 :]] + threads[t + 1 :])
    for t, specs in enumerate(threads):
        for i, spec in enumerate(specs):

            def put(new):
                s = specs[:i] + [new] + specs[i + 1 :]
                return with_(threads=threads[:t] + [s] + threads[t + 1 :])

            faults = spec.get("faults", [])
            for k in range(len(faults)):
                yield put({**spec, "faults": faults[:k] + faults[k + 1 :]})
            for k, (at, fault) in enumerate(faults):
                if isinstance(fault, dict) and "Nested" in fault and fault["Nested"].get("faults"):
                    inner = {**fault["Nested"], "faults": []}
                    yield put({**spec, "faults": faults[:k] + [[at, {"Nested": inner}]] + faults[k + 1 :]})
            if spec.get("chunk"):
                yield put({**spec, "chunk": 0})
            if spec.get("careless"):
                yield put({**spec, "careless": False})
    if case.get("sched") and case["sched"].get("script"):
        sched = case["sched"]
        script = sched["script"]
        for n in (0, len(script) // 4, len(script) // 2, len(script) * 3 // 4, len(script) - 1):
            if 0 <= n < len(script):
                yield with_(sched={**sched, "script": script[:n]})
    if case.get("sched") and len(threads) == 1:
        c = with_()
        del c["sched"]
        yield c


def used_programs(case):
    """The programs the case refers to, in a new order; adapts the case"""
    order = []
    case = json.loads(json.dumps(case))
    for inst in case.get("insts", []):
        if inst[0] not in order:
            order.append(inst[0])
        inst[0] = order.index(inst[0])
    return case, order


def report(prop, seed, shard, case, message, prefix):
    """Minimises, and writes the replay file"""
    k, m, l = check_case(shard, prop, case)
    if k is None:
        # It depends on what the process did before
        path = write_replay(prop, seed, {"kind": "prefix", "message": message, "case": case, **prefix})
        raise shards.Unconfirmed(Violation(message, path))
    test = lambda c, timeout: check_case(shard, prop, c, timeout)
    case, message = shards.minimise(test, candidates, case, k, m, l)
    case, order = used_programs(case)
    seeds, texts = [], []
    if order:
        for prog in order:
            src = sources_of(shard, prop, prog) or {}
            seeds.append(src.pop("seed", None))
            texts.append(src)
    data = {"kind": "case", "class": k, "message": message, "case": case, "program_seeds": seeds, "templates": texts}
    path = write_replay(prop, seed, data)
    raise Violation(message, path)


def explore(prop, seed, programs, effort, direct, skip, deadline):
    """Runs all shards. Returns their results."""
    args = [prop, seed, effort, direct]
    running = [shards.Shard(n, [binary(n), "--run", *args]) for n in range(shards.SHARDS)]
    bad = shards.wait_for_all(running, deadline)
    if bad is None:
        return [s.result() for s in running]
    prefix = {
        "shard": bad.n,
        "programs": programs,
        "effort": effort,
        "direct": direct,
        "skip": list(skip),
        "n": max(bad.at(), 0),
    }
    kind, message = bad.failure()
    if kind == "violation":
        v = bad.result()["violation"]
        prefix["n"] = v["n"]
        report(prop, seed, bad.n, v["case"], message, prefix)
    code, out, err = run([binary(bad.n), "--dump", *map(str, args), str(prefix["n"])], 120)
    try:
        case = json.loads(out.strip().splitlines()[-1])["violation"]["case"]
    except (IndexError, ValueError, KeyError, TypeError):
        # Generating the case itself renders without faults
        path = write_replay(prop, seed, {"kind": "prefix", "message": message, **prefix})
        raise Violation(message, path)
    report(prop, seed, bad.n, case, message, prefix)


def check(prop, tier, seed, started):
    programs, effort, direct = QUICK[prop]
    if os.environ.get("VERIF_SCALE"):
        programs = int(programs * float(os.environ["VERIF_SCALE"]))
    budget = float(os.environ.get("VERIF_BUDGET", 1500)) if tier == "thorough" else 0
    totals, faults, entries = {}, {}, {}
    samples, skipped = [], 0
    epoch = 0
    sim_wall = 0
    while True:
        s = seed if epoch == 0 else mix(seed, epoch)
        if epoch > 0:
            effort_now, direct_now = effort * 3, direct * 3
        else:
            effort_now, direct_now = effort, direct
        failed = build(prop, s, programs)
        if failed:
            if prop in MUST_COMPILE:
                program, text = sorted(failed.items())[0]
                data = {"kind": "compile", "program_seeds": [program], "message": text}
                raise Violation("a template cannot be compiled: " + text[:600], write_replay(prop, s, data))
            skipped += len(failed)
            known = dict(failed)
            for _ in range(3):
                more = build(prop, s, programs, skip=sorted(known))
                if not more:
                    break
                known.update(more)
                skipped += len(more)
            else:
                raise CheckError("too many templates cannot be compiled: " + list(known.values())[0])
            failed = known
        begin = time.time()
        deadline = begin + 800 * (1 if epoch == 0 else 3)
        results = shards.confirmed(
            lambda: explore(prop, s, programs, effort_now, direct_now, sorted(failed), deadline)
        )
        sim_wall += time.time() - begin
        for r in results:
            shards.add_results(totals, {"faults": faults, "entries": entries}, r)
            if len(samples) < 3:
                samples.extend(r["samples"][:1])
            if r["nondeterministic"] is not None:
                raise CheckError(f"case {r['nondeterministic']} of a shard is not deterministic")
        epoch += 1
        if time.time() - started + (time.time() - begin) * 2 > budget:
            break
    evaluations = totals["renders"] + totals["nested"] + totals["direct"]
    if not evaluations:
        raise CheckError("nothing could be explored")
    hours = max(sim_wall, 0.001) / 3600
    return {
        "evaluations": evaluations,
        "distinct_nontrivial": totals["distinct"],
        "rule": RULE,
        "samples": samples,
        "simulated_executions": totals["cases"],
        "executions_per_hour": round(totals["cases"] / hours),
        "program_seeds": totals["programs"],
        "program_seeds_per_hour": round(totals["programs"] / hours),
        "templates_not_compiled": skipped,
        "renders": totals["renders"],
        "nested_renders": totals["nested"],
        "direct_filter_calls": totals["direct"],
        "simulated_time": f"{totals['ops']} operations (there is no clock in the system; operations are its time)",
        "faults_injected": faults,
        "renders_by_entry_point": entries,
        "distinct_schedules": totals["interleavings"],
        "thread_switches": totals["switches"],
        "renders_finished_while_another_was_stalled": totals["stalls_survived"],
        "processes_started_for_comparison": totals["fresh_processes"],
        "executions_run_twice_with_identical_trace": totals["double_runs"],
        "real_and_simulated_components": REAL,
    }, ("fault_enumeration" if prop in ("C01", "C02", "C03") else "exploration")


def replay(data, path):
    prop = data["property"]
    kind = data["kind"]
    if kind == "compile":
        failed = build(prop, 1, 1, only=data["program_seeds"])
        return next(iter(failed.values()))[:2000] if failed else None
    if kind == "case":
        failed = build(prop, 1, 1, only=[s for s in data["program_seeds"]] or [1])
        if failed:
            raise CheckError("the template cannot be compiled: " + next(iter(failed.values())))
        k, m, l = check_case(0, prop, data["case"], timeout=120)
        return m if k else None
    if kind == "prefix":
        failed = build(prop, data["verif_seed"], data["programs"], skip=data["skip"])
        if failed:
            raise CheckError("a template cannot be compiled")
        args = [prop, data["verif_seed"], data["effort"], data["direct"], data["n"]]
        code, out, err = run([binary(data["shard"]), "--prefix", *map(str, args)], 600, memory_gb=3.5, env=env())
        if code is None:
            return "does not terminate"
        try:
            r = json.loads(out.strip().splitlines()[-1])
        except (IndexError, ValueError):
            return f"the process was ended (status {code}): {err[-500:]}"
        if code != 0:
            return r.get("message", f"status {code}")
        return r["violation"]["message"] if r.get("violation") else None
    raise CheckError(f"unknown kind of replay: {kind}")
