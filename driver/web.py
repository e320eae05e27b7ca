"""C15: simulated requests to web applications."""

import json
import os
import time

import shards
from common import *

FRAMEWORKS = ["axum", "actix", "warp", "rocket"]
# Per shard; there are two shards per framework
QUICK = {"axum": 20000, "actix": 16000, "warp": 20000, "rocket": 7000}

RULE = (
    "A case is one simulated execution: the requests of one to three clients (each with an application of its own), "
    "templates, seeded values, how the template becomes a response, when and in which pieces the body is read, and seeded faults "
    "at numbered operations of the values. A request counts as distinct and non-trivial if the hash of its "
    "operation trace with faults, entry point, status and body is new in its shard."
)
REAL = (
    "real code: askama and the four integrations as built from /repo, askama_derive, rustc, and the frameworks axum, actix-web, warp and "
    "rocket with their routing and response bodies. Simulated: clients, template values, the thread scheduler, and who "
    "polls; there are no sockets and no timers."
)


def build(which=FRAMEWORKS):
    for f in which:
        messages, ok, err = cargo_build(os.path.join(VERIF, "web", f), env(), timeout=400)
        if not ok:
            errors = [m["message"].get("rendered", "") for m in messages if m["message"]["level"] == "error"]
            raise CheckError(f"cannot build for {f}: " + "\n".join(errors)[:3000] + err[-2000:])


def binary(framework):
    return os.path.join(TARGET, "debug", f"vweb_{framework}")


def test(framework):
    return lambda case, timeout=60: shards.check_case([binary(framework), "--check", "C15"], case, timeout)


def without(l, i):
    return l[:i] + l[i + 1 :]


def simpler(r):
    """Simpler requests"""
    for k, (at, fault) in enumerate(r.get("faults", [])):
        yield {**r, "faults": without(r["faults"], k)}
        if isinstance(fault, dict):
            for inner in simpler(fault["Nested"]):
                yield {**r, "faults": r["faults"][:k] + [[at, {"Nested": inner}]] + r["faults"][k + 1 :]}
    if r.get("leave") is not None:
        yield {k: v for k, v in r.items() if k != "leave"}
    if r.get("defer"):
        yield {**r, "defer": 0}
    if r.get("chunk", 0) < 1 << 20:
        yield {**r, "chunk": 1 << 20}


def candidates(case):
    threads = case["threads"]

    def with_(**kw):
        return json.loads(json.dumps({**case, **kw}))

    for t in range(len(threads)):
        if len(threads) > 1:
            yield with_(threads=without(threads, t))
    for t, requests in enumerate(threads):
        for i in range(len(requests)):
            yield with_(threads=threads[:t] + [without(requests, i)] + threads[t + 1 :])
    if case.get("sched"):
        if len(threads) == 1:
            c = with_()
            del c["sched"]
            yield c
        script = case["sched"].get("script") or []
        for n in (0, len(script) // 4, len(script) // 2, len(script) * 3 // 4, len(script) - 1):
            if 0 <= n < len(script):
                yield with_(sched={**case["sched"], "script": script[:n]})
    for t, requests in enumerate(threads):
        for i, r in enumerate(requests):
            for s in simpler(r):
                new = requests[:i] + [s] + requests[i + 1 :]
                yield with_(threads=threads[:t] + [new] + threads[t + 1 :])


def report(framework, seed, case, message, prefix):
    k, m, l = test(framework)(case)
    if k is None:
        # It depends on what the process did before
        data = {"kind": "prefix", "framework": framework, "message": message, "case": case, **prefix}
        raise shards.Unconfirmed(Violation(message, write_replay("C15", seed, data)))
    case, m = shards.minimise(test(framework), candidates, case, k, m, l)
    m = f"{framework}: {m}"
    data = {"kind": "case", "framework": framework, "class": k, "message": m, "case": case}
    raise Violation(m, write_replay("C15", seed, data))


def explore(seed, scale, deadline):
    names = [FRAMEWORKS[n % 4] for n in range(shards.SHARDS)]
    args = lambda n: ["C15", mix(seed, n), int(QUICK[names[n]] * scale)]
    running = [shards.Shard(n, [binary(names[n]), "--run", *args(n)]) for n in range(shards.SHARDS)]
    bad = shards.wait_for_all(running, deadline)
    if bad is None:
        return list(zip(names, [s.result() for s in running]))
    framework = names[bad.n]
    prefix = {"args": args(bad.n), "n": max(bad.at(), 0)}
    kind, message = bad.failure()
    if kind == "violation":
        v = bad.result()["violation"]
        prefix["n"] = v["n"]
        report(framework, seed, v["case"], message, prefix)
    cmd = [binary(framework), "--dump", *map(str, args(bad.n)), str(prefix["n"])]
    code, out, err = run(cmd, 300)
    try:
        case = json.loads(out.strip().splitlines()[-1])["violation"]["case"]
    except (IndexError, ValueError, KeyError, TypeError):
        data = {"kind": "prefix", "framework": framework, "message": message, **prefix}
        raise Violation(message, write_replay("C15", seed, data))
    report(framework, seed, case, message, prefix)


def check(prop, tier, seed, started):
    scale = float(os.environ.get("VERIF_SCALE", 1))
    budget = float(os.environ.get("VERIF_BUDGET", 1500)) if tier == "thorough" else 0
    build()
    totals, faults, entries, samples, frameworks = {}, {}, {}, [], {}
    epoch, wall = 0, 0
    while True:
        s = seed if epoch == 0 else mix(seed, f"epoch{epoch}")
        factor = 1 if epoch == 0 else 6
        begin = time.time()
        for name, r in shards.confirmed(lambda: explore(s, scale * factor, begin + 600 * factor)):
            shards.add_results(totals, {"faults": faults, "entries": entries}, r)
            frameworks[name] = frameworks.get(name, 0) + r["requests"]
            if len(samples) < 3:
                samples.extend(r["samples"][:1])
            if r["nondeterministic"] is not None:
                raise CheckError(f"case {r['nondeterministic']} of a shard is not deterministic")
        wall += time.time() - begin
        epoch += 1
        if time.time() - started + (time.time() - begin) * (6 if epoch == 1 else 1) > budget:
            break
    hours = max(wall, 0.001) / 3600
    return {
        "evaluations": totals["requests"],
        "distinct_nontrivial": totals["distinct"],
        "rule": RULE,
        "samples": samples,
        "simulated_executions": totals["cases"],
        "executions_per_hour": round(totals["cases"] / hours),
        "case_seeds": totals["cases"],
        "case_seeds_per_hour": round(totals["cases"] / hours),
        "requests_by_framework": frameworks,
        "requests_by_entry_point": entries,
        "complete_pages": totals["pages"],
        "error_responses": totals["errors"],
        "panics_passed_on": totals["panics"],
        "simulated_time": f"{totals['ops']} operations (there is no clock in the system; operations are its time)",
        "faults_injected": faults,
        "distinct_schedules": totals["interleavings"],
        "thread_switches": totals["switches"],
        "requests_finished_while_another_was_stalled": totals["stalls_survived"],
        "executions_run_twice_with_identical_trace": totals["double_runs"],
        "real_and_simulated_components": REAL,
    }, "exploration"


def replay(data, path):
    framework = data["framework"]
    build([framework])
    if data["kind"] == "case":
        k, m, l = test(framework)(data["case"], 120)
        return m if k else None
    if data["kind"] == "prefix":
        cmd = [binary(framework), "--prefix", *map(str, data["args"]), str(data["n"])]
        code, out, err = run(cmd, 900, memory_gb=8, env=env())
        if code is None:
            return "does not terminate"
        try:
            r = json.loads(out.strip().splitlines()[-1])
        except (IndexError, ValueError):
            return f"the process was ended (status {code}): {err[-500:]}"
        return r["violation"]["message"] if r.get("violation") else None
    raise CheckError(f"unknown kind of replay: {data['kind']}")
