"""Running the harness and TLC: everything the checks share."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "out")
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The check itself went wrong: says nothing about the code under test"""


def log(*a):
    print(*a, flush=True)


def build(profile="debug", feature=None):
    """Builds the harness against /repo's working tree; returns the binary"""
    target = os.path.join(TARGET, "harness" + (f"-{feature}" if feature else ""))
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", f"{ROOT}/harness/Cargo.toml"]
    if feature:
        cmd += ["--features", feature]
    if profile == "release":
        cmd.append("--release")
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("the harness does not build:\n" + p.stdout[-4000:])
    return os.path.join(target, profile, "vh")


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _run_shard(binary, histories, d, k):
    """Executes some histories; a crash or a hang of the code under test becomes a result"""
    src, dst, jr = (os.path.join(d, f"{n}{k}") for n in ("in", "out", "journal"))
    with open(src, "w") as f:
        for h in histories:
            f.write(json.dumps(h, separators=(",", ":")) + "\n")
    done, incidents = 0, 0
    while done < len(histories):
        p = subprocess.run([binary, "exec", src, dst, "--start", str(done)],
                           preexec_fn=_limits, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        if p.returncode == 0:
            break
        if p.returncode > 0 and p.returncode != 3:
            raise ToolError("harness: " + p.stderr[-2000:])
        done = sum(1 for _ in open(dst)) if os.path.exists(dst) else 0
        incidents += 1
        if incidents > 4:   # enough has been seen: the remaining histories are dropped
            break
        # Run the culprit again, journalling each operation, to find out where it stops
        one = os.path.join(d, f"one{k}")
        with open(one, "w") as f:
            f.write(json.dumps(histories[done]) + "\n")
        scratch = os.path.join(d, f"scratch{k}")
        for x in (scratch, jr):
            if os.path.exists(x):
                os.remove(x)
        q = subprocess.run([binary, "exec", one, scratch, "--journal", jr],
                           preexec_fn=_limits, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        evs = [json.loads(x) for x in open(jr)] if os.path.exists(jr) else []
        if q.returncode != 0:
            nxt = dict(histories[done][len(evs)])
            nxt["r"] = {"t": "hang" if q.returncode == 3 else "abort"}
            evs.append(nxt)
        else:
            incidents += 1      # it didn't happen again; keep what was seen the second time
        with open(dst, "a") as f:
            f.write(json.dumps(evs, separators=(",", ":")) + "\n")
        done += 1
    return [json.loads(x) for x in open(dst)] if os.path.exists(dst) else []


def execute(binary, histories, workers=8):
    """The histories with a result in each operation, from the implementation"""
    if not histories:
        return []
    d = tempfile.mkdtemp(prefix="exec-", dir=_out())
    try:
        shards = [histories[i::workers] for i in range(workers)]
        with ThreadPoolExecutor(workers) as ex:
            parts = list(ex.map(lambda kv: _run_shard(binary, kv[1], d, kv[0]), enumerate(shards)))
        res = [None] * len(histories)
        for i, part in enumerate(parts):
            for j, h in enumerate(part):
                res[i + j * workers] = h
        return [h for h in res if h is not None]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _out():
    os.makedirs(OUT, exist_ok=True)
    return OUT


def tlc(module, cfg, env=None, timeout=600, workers=8, mem="6g", args=()):
    """Runs TLC in /verif/spec; returns (output, stats)"""
    d = tempfile.mkdtemp(prefix="tlc-", dir=_out())
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", f"-Xmx{mem}", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE", "-config", cfg, *args, module + ".tla"]
        e = dict(os.environ, **(env or {}))
        e.pop("JAVA_TOOL_OPTIONS", None)
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC ran out of time on {module}")
        out = p.stdout
        # (searching the printed histories too would take forever)
        st = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, (\d+) states left",
                       "\n".join(l for l in out.splitlines() if not l.startswith('"')))
        finished = "Model checking completed. No error has been found." in out
        stats = {"generated": int(st.group(1).replace(",", "")) if st else 0,
                 "distinct": int(st.group(2).replace(",", "")) if st else 0,
                 "ok": finished and p.returncode == 0, "rc": p.returncode}
        return out, stats
    finally:
        shutil.rmtree(d, ignore_errors=True)


CHUNK = 24_000_000  # bytes of traces which TLC is given at once


def validate(recorded, timeout=600):
    """Checks recorded histories against the specification.
    Returns (rejections [(history index, op index, expected)], stats)"""
    rej, stats, first, size = [], {"generated": 0, "distinct": 0}, 0, 0
    chunks = []
    for i, h in enumerate(recorded):
        n = len(json.dumps(h))
        if i > first and size + n > CHUNK:
            chunks.append((first, i))
            first, size = i, 0
        size += n
    if recorded:
        chunks.append((first, len(recorded)))
    for lo, hi in chunks:
        r, st = _validate_chunk(recorded[lo:hi], timeout)
        rej += [(h + lo, at, exp) for h, at, exp in r]
        for k in stats:
            stats[k] += st[k]
        if len(rej) >= 100:
            break
    return rej, stats


def _validate_chunk(recorded, timeout):
    left = list(range(len(recorded)))
    rej = []
    stats = {"generated": 0, "distinct": 0}
    while left:
        r, st, strange = _validate([recorded[i] for i in left], timeout)
        for k in st:
            if k in stats:
                stats[k] += st[k]
        rej += [(left[h], at, exp) for h, at, exp in r]
        if strange is None:
            break
        # A result of a kind which the specification can't even compare with the right ones
        h, at = strange
        rej.append((left[h], at, "(a result of another kind)"))
        del left[h]
        if len(rej) >= 3:
            break
    return sorted(rej), stats


def _validate(recorded, timeout):
    fd, path = tempfile.mkstemp(prefix="traces-", suffix=".ndjson", dir=_out())
    try:
        with os.fdopen(fd, "w") as f:
            for h in recorded:
                f.write(json.dumps(h, separators=(",", ":")) + "\n")
        out, stats = tlc("Trace", "Trace.cfg", {"TRACES": path}, timeout)
        if not stats["ok"]:
            lines = out.splitlines()
            tr = [re.fullmatch(r"/\\ ([hl]) = (\d+)", l) for l in lines]
            hs = [int(m.group(2)) for m in tr if m and m.group(1) == "h"]
            ls = [int(m.group(2)) for m in tr if m and m.group(1) == "l"]
            if "when TLC was evaluating the nested" in out and hs and "StackOverflow" not in out and "OutOfMemory" not in out:
                return [], stats, (hs[-1] - 1, ls[-1])
            raise ToolError("trace validation failed:\n" + out[-6000:])
        # every operation of every history was consumed
        want = sum(len(h) for h in recorded) + len(recorded)
        if stats["distinct"] != want:
            raise ToolError(f"trace validation visited {stats['distinct']} states instead of {want}")
        rej = []
        for line in out.splitlines():
            m = re.match(r'^"REJECT\|(\d+)\|(\d+)\|(\w+)\|(.*)$', line)
            if m:
                rej.append((int(m.group(1)) - 1, int(m.group(2)) - 1, m.group(4)[:3000]))
        if out.count('REJECT|') != len(rej):
            raise ToolError("unreadable rejection:\n" + out[-3000:])
        return sorted(rej), stats, None
    finally:
        os.remove(path)
