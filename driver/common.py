"""What all checks have in common: evidence, known findings, replay files, running things."""

import hashlib
import json
import os
import resource
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known-findings.json")
MASK = (1 << 64) - 1


class CheckError(Exception):
    """The check itself could not do its job"""


class Violation(Exception):
    """A property is violated; the file replays it"""

    def __init__(self, message, replay):
        super().__init__(message)
        self.message = message
        self.replay = replay


def log(*args):
    print(*args, file=sys.stderr, flush=True)


def mix(a, b):
    """Derives a seed"""
    h = hashlib.sha256(f"{a}/{b}".encode()).digest()
    return int.from_bytes(h[:8], "little") >> 1


def limits(memory_gb):
    def apply():
        n = int(memory_gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (n, n))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    return apply


def env(**extra):
    e = dict(os.environ)
    for name in list(e):
        if name.startswith(("CARGO", "RUSTC", "RUSTFLAGS")) and name not in ("CARGO_HOME", "RUSTUP_HOME"):
            del e[name]
    for name in ("VERIF_ONLY", "VERIF_SKIP", "RUSTUP_TOOLCHAIN", "RUST_BACKTRACE"):
        e.pop(name, None)
    e.update(CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", TERM="dumb", CARGO_TERM_COLOR="never")
    e.update({k: str(v) for k, v in extra.items()})
    return e


def run(cmd, timeout, memory_gb=6, **kw):
    """Runs a command. Returns (code, stdout, stderr); code is None if it took too long."""
    try:
        p = subprocess.run(
            cmd,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            timeout=timeout,
            preexec_fn=limits(memory_gb),
            **kw,
        )
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode("utf-8", "replace")
        err = (e.stderr or b"").decode("utf-8", "replace")
        return None, out, err


def cargo_build(directory, environment, timeout=780, args=(), memory_gb=12):
    """Builds. Returns the messages of the compiler, and whether it succeeded."""
    cmd = ["cargo", "build", "--offline", "--message-format=json", *args]
    code, out, err = run(cmd, timeout, memory_gb=memory_gb, cwd=directory, env=environment)
    if code is None:
        raise CheckError(f"the build in {directory} took too long")
    messages = []
    for line in out.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message":
            messages.append(m)
    return messages, code == 0, err


def write_replay(prop, seed, data):
    os.makedirs(REPLAYS, exist_ok=True)
    data = {"property": prop, "verif_seed": seed, **data}
    text = json.dumps(data, indent=1, ensure_ascii=True, sort_keys=True)
    name = hashlib.sha256(text.encode()).hexdigest()[:12]
    path = os.path.join(REPLAYS, f"{prop}-{name}.json")
    with open(path, "w") as f:
        f.write(text + "\n")
    return path


def known_findings(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data["findings"] if k["property"] == prop]


def write_evidence(prop, tier, seed, level, coverage, assumptions, started, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    wall = time.time() - started
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(
            {
                "property": prop,
                "tier": tier,
                "seed": seed,
                "level": level,
                "coverage": coverage,
                "assumptions": assumptions,
                "wall_s": round(wall, 2),
                "violations": violations,
            },
            f,
            indent=1,
        )
        f.write("\n")


def add_counts(into, counts):
    for k, v in counts.items():
        into[k] = into.get(k, 0) + v
