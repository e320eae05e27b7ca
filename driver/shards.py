"""Running the shards of a harness, and finding out which case ended one."""

import json
import os
import subprocess
import time

from common import *

SHARDS = 8
SILENCE = 60


class Shard:
    def __init__(self, n, cmd, memory_gb=3.5):
        """`cmd` lacks the progress file"""
        os.makedirs(WORK, exist_ok=True)
        self.n = n
        self.progress = os.path.join(WORK, f"progress{n}")
        self.out = open(os.path.join(WORK, f"out{n}"), "w+b")
        self.err = open(os.path.join(WORK, f"err{n}"), "w+b")
        open(self.progress, "w").close()
        self.p = subprocess.Popen(
            [*map(str, cmd), self.progress],
            stdout=self.out,
            stderr=self.err,
            env=env(),
            preexec_fn=limits(memory_gb),
        )
        self.last = None
        self.since = time.time()
        self.polls = 0
        self.hung = False

    def poll(self):
        """Whether it still runs"""
        if self.p.poll() is not None:
            return False
        now = self.at()
        # If this process does not run, then nothing else does
        self.polls += 1
        if now != self.last:
            self.last, self.since, self.polls = now, time.time(), 0
        elif time.time() - self.since > SILENCE and self.polls > SILENCE * 10:
            self.hung = True
            self.stop()
            return False
        return True

    def stop(self):
        self.p.kill()
        self.p.wait()

    def at(self):
        with open(self.progress) as f:
            text = f.read().strip()
        return int(text) if text else -1

    def result(self):
        self.out.seek(0)
        text = self.out.read().decode("utf-8", "replace").strip()
        try:
            return json.loads(text.splitlines()[-1])
        except (IndexError, ValueError):
            return None

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode("utf-8", "replace")[-1500:]

    def failure(self):
        """What ended it: (kind, message)"""
        r = self.result()
        if r and r.get("violation"):
            return "violation", r["violation"]["message"]
        if self.hung:
            return "hang", "the case does not terminate"
        if self.p.returncode == 21:
            return "blocked", r["message"] if r and r.get("message") else "a thread waits forever"
        if self.p.returncode == 22:
            return "endless", "a render does not end"
        return "crash", f"the process was ended (status {self.p.returncode}): {self.stderr()}"


def wait_for_all(shards, deadline):
    """Returns the shard that failed, if any; then all others are stopped"""
    running = list(shards)
    try:
        while running:
            time.sleep(0.05)
            for s in list(running):
                if s.poll():
                    continue
                running.remove(s)
                r = s.result()
                if r is None or s.hung or s.p.returncode != 0 or r.get("violation"):
                    return s
            if time.time() > deadline:
                raise CheckError("the exploration took too long")
        return None
    finally:
        for s in shards:
            if s.p.poll() is None:
                s.stop()


def check_case(cmd, case, timeout=40):
    """Runs a single case. Returns (kind, message, log), kind is None if the property held."""
    os.makedirs(WORK, exist_ok=True)
    path = os.path.join(WORK, "case.json")
    with open(path, "w") as f:
        json.dump(case, f)
    code, out, err = run([*map(str, cmd), path], timeout, memory_gb=3.5, env=env(VRT_PATIENCE=4))
    if code is None:
        return "hang", "the case does not terminate", None
    try:
        data = json.loads(out.strip().splitlines()[-1])
    except (IndexError, ValueError):
        data = None
    if code == 21 and data:
        return "blocked", data["message"], data.get("log")
    if code == 22:
        return "endless", "the render does not end", None
    if code != 0 or data is None:
        return "crash", f"the process was ended (status {code}): {err[-400:]}", None
    if data["violation"]:
        return "violation", data["message"], data.get("log")
    return None, None, data.get("log")


def minimise(test, candidates, case, kind, message, log_, budget=60):
    """Tries simpler cases that fail in the same way; `test(case, timeout)`"""
    end = time.time() + budget
    if case.get("sched") and log_ and not case["sched"].get("script"):
        c = json.loads(json.dumps(case))
        c["sched"]["script"] = log_
        k, m, l = test(c, 40)
        if k == kind:
            case, message = c, m
    again = True
    while again and time.time() < end:
        again = False
        for c in candidates(case):
            if time.time() > end:
                break
            k, m, l = test(c, 20)
            if k == kind:
                case, message, again = c, m, True
                break
    return case, message


class Unconfirmed(Exception):
    """A failure that was not seen again when only its case was run. `violation` is what to report."""

    def __init__(self, violation):
        super().__init__(str(violation))
        self.violation = violation


def confirmed(explore):
    """If a failure is unconfirmed, then it either depends on what was run before and comes back, or its reason is
    outside the simulation, e.g. the machine had stopped."""
    try:
        return explore()
    except Unconfirmed as e:
        log(f"unconfirmed, exploring again: {e}")
    try:
        return explore()
    except Unconfirmed as e:
        raise e.violation


def add_results(totals, counted, r):
    """Sums up what shards report"""
    for k, v in r.items():
        if isinstance(v, int) and not isinstance(v, bool) and k != "nondeterministic":
            totals[k] = totals.get(k, 0) + v
    for name, counts in counted.items():
        add_counts(counts, r.get(name, {}))
