#!/usr/bin/env python3
"""Decides one property of bellframe: check.py <property id> | check.py --replay FILE

1. model:   TLC explores the property's model (spec/MC_*.tla) completely and checks the property's laws
            on the specification; every transition it takes is written down as a history.
2. record:  those histories, and generated ones, are executed by the real code (harness/).
3. trace:   TLC checks that every recorded history is a behaviour of spec/Bellframe.tla.

Exit 0: held on everything explored.  Exit 1: "VIOLATION property=<id> replay=<path>".  Exit 2: the check
itself failed.
"""
import json, os, sys, time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import gen, models, vlib
from vlib import ROOT, OUT, ToolError, log

BATCH = 60000          # operations per run of TLC
THOROUGH_S = 420       # how long a thorough run keeps generating
FEATURE = {"C30": "cc", "C34": "xml"}      # properties of optional parts, which need a harness of their own
KNOWN = os.path.join(ROOT, "known-findings.txt")


def known(prop):
    """The recorded findings of a property: operations (without results) which are known to fail"""
    out = []
    for line in open(KNOWN):
        if line.startswith(f"finding: property={prop} "):
            what, _, opjson = line.split(" ", 2)[2].partition(" :: ")
            out.append((what, json.loads(opjson)))
    return out


def replay_file(prop, history, at, expected, profile):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(f"{d}/{prop}-{n}.json"):
        n += 1
    path = f"{d}/{prop}-{n}.json"
    with open(path, "w") as f:
        json.dump({"property": prop, "build": profile, "history": history[:at + 1], "rejected": at, "allowed": expected}, f, indent=1)
    return path


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = self.transitions = self.traces = self.ops = 0
        self.violations = []
        self.known_hit = {}
        self.samples = []
        self.by_op = {}
        self.models = []
        self.known = known(prop)

    def judge(self, binary, profile, histories, label):
        recorded = vlib.execute(binary, histories)
        lost = len(histories) - len(recorded)
        batch, size = [], 0
        for h in recorded + [None]:
            if h is None or (size and size + len(h) > BATCH):
                self._judge(batch, profile, label)
                batch, size = [], 0
            if h is not None:
                batch.append(h)
                size += len(h)
        # They are dropped only where the code under test keeps crashing, which is a violation
        if lost and not self.violations and not self.known_hit:
            raise ToolError(f"{lost} histories were not executed")

    def _judge(self, recorded, profile, label):
        rej, st = vlib.validate(recorded)
        self.states += st["distinct"]
        self.transitions += st["generated"] - len(recorded)
        self.traces += len(recorded)
        for h in recorded:
            self.ops += len(h)
            for o in h:
                self.by_op[o["op"]] = self.by_op.get(o["op"], 0) + 1
        if recorded and len(self.samples) < 3:
            h = recorded[len(recorded) // 2]
            self.samples.append({"from": label, "history": json.loads(json.dumps(h[:3])[:4000] if len(json.dumps(h[:3])) < 4000 else '"long"')})
        for h, at, exp in rej:
            o = {k: v for k, v in recorded[h][at].items() if k != "r"}
            hit = next((w for w, j in self.known if j == o), None)
            if hit:
                self.known_hit[hit] = True
                continue
            path = replay_file(self.prop, recorded[h], at, exp, profile)
            if not self.violations:
                log(f"rejected ({label}, {profile} build): {json.dumps(recorded[h][at])[:1500]}")
                log(f"allowed: {exp[:800]}")
                log(f"VIOLATION property={self.prop} replay={path}")
            self.violations.append(path)

    def model(self, m):
        histories, st, secs = models.run(m, self.tier)
        self.states += st["distinct"]
        self.transitions += st["generated"]
        self.models.append({"module": m, "states": st["distinct"], "transitions": st["generated"], "histories": len(histories),
                            "seconds": round(secs, 1)})
        log(f"model {m}: {st['distinct']} states, {st['generated']} transitions, {len(histories)} histories, {secs:.1f} s")
        return histories


def main():
    if sys.argv[1] == "--replay":
        j = json.load(open(sys.argv[2]))
        binary = vlib.build(j.get("build", "debug"), FEATURE.get(j["property"]))
        h = [{k: v for k, v in o.items() if k != "r"} for o in j["history"]]
        rec = vlib.execute(binary, [h], 1)
        rej, _ = vlib.validate(rec)
        log(json.dumps(rec[0][j["rejected"]]) if len(rec[0]) > j["rejected"] else json.dumps(rec[0][-1]))
        if rej:
            log(f"rejected at operation {rej[0][1]}; allowed: {rej[0][2]}")
            log(f"VIOLATION property={j['property']} replay={sys.argv[2]}")
            return 1
        log("accepted")
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    run = Run(prop, tier, seed)
    decide(run)
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": run.states, "transitions": run.transitions, "traces_validated_against_impl": run.traces,
                       "operations_recorded": run.ops, "operations_by_name": run.by_op, "models": run.models, "samples": run.samples,
                       "exhaustive": False},
          "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": len(run.violations)}
    with open(f"{ROOT}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for w in run.known_hit:
        log(f"KNOWN-FINDING: property={prop} {w}")
    log(f"{prop} {tier}: {run.traces} histories, {run.ops} operations, {run.states} states, {len(run.violations)} violations, "
        f"{time.time() - t0:.1f} s")
    return 1 if run.violations else 0


ASSUMPTIONS = ["TLC and the CommunityModules are right", "the harness reports results faithfully (it has no opinion about them)",
               "outside the exhaustively explored bounds, behaviour is judged on the generated histories only"]


def decide(run):
    feature = FEATURE.get(run.prop)
    binary = vlib.build("debug", feature)
    mh = []
    for m in models.OF.get(run.prop, []):
        mh += run.model(m)
    quick = run.tier != "thorough"
    run.judge(binary, "debug", mh, "model")
    f = gen.GENERATORS[run.prop]
    run.judge(binary, "debug", f(gen.G(run.seed, run.prop), gen.EFFORT.get(run.prop, 2)), "generated")
    if quick or run.violations:
        return
    rel = vlib.build("release", feature)
    run.judge(rel, "release", mh, "model")
    t0, i = time.time(), 0
    while time.time() - t0 < THOROUGH_S and not run.violations:
        i += 1
        b, p = ((binary, "debug"), (rel, "release"))[i % 2]
        run.judge(b, p, f(gen.G(run.seed, f"{run.prop}/{i}"), 6), f"generated {i}")


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        log("ERROR", e)
        sys.exit(2)
