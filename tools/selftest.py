#!/usr/bin/env python3
"""Corrupts recorded results, and lists the corruptions which the specification would let pass.

selftest.py [property ...]: every result of (some) recorded histories is corrupted in one place; each of
those histories must be rejected.  What passes is printed by operation and place, to be looked at: a few
results are meant to be free (the wording of messages, the order of ties)."""
import copy, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, vlib
FEATURE = {"C30": "cc", "C34": "xml"}


def leaves(v, path=()):
    yield path, v
    if isinstance(v, dict):
        for k in v:
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))


def corrupt(rng, r):
    """A copy of r with one thing changed, and the name of the change"""
    for _ in range(20):
        path, v = rng.choice(list(leaves(r)))
        if path == ():
            continue
        r2 = copy.deepcopy(r)
        at = r2
        for k in path[:-1]:
            at = at[k]
        k = path[-1]
        if k == "t" and len(path) == 1:
            new = {"ok": "err", "some": "none", "none": "panic", "err": "panic", "panic": "hang"}.get(v, "panic")
            kind = f"{v}->{new}"
            at[k] = new
        elif isinstance(v, bool):
            at[k] = not v
            kind = "flip"
        elif isinstance(v, int):
            at[k] = v + rng.choice([1, 1, 2, -1]) if v else 1
            kind = "number"
        elif isinstance(v, str):
            at[k] = v + "!"
            kind = "string"
        elif isinstance(v, list):
            x = rng.randint(0, 2)
            if x == 0 and v:
                at[k] = v[:-1]
                kind = "drop"
            elif x == 1 and v:
                at[k] = v + v[-1:]
                kind = "repeat"
            else:
                i = [i for i in range(len(v) - 1) if v[i] != v[i + 1]]
                if not i:
                    continue
                i = rng.choice(i)
                at[k] = v[:i] + [v[i + 1], v[i]] + v[i + 2:]
                kind = "swap"
        else:
            continue
        return r2, kind, "/".join("#" if isinstance(x, int) else x for x in path)
    return None


def main():
    rng = random.Random(7)
    total = missed = 0
    for prop in sys.argv[1:] or sorted(gen.GENERATORS):
        b = vlib.build("debug", FEATURE.get(prop))
        hs = gen.GENERATORS[prop](gen.G(11, prop), 1)
        rng.shuffle(hs)
        rec = vlib.execute(b, hs[:150])
        bad, what = [], []
        for h in rec:
            for _ in range(8):
                i = rng.randrange(len(h))
                c = corrupt(rng, h[i]["r"])
                if c is None:
                    continue
                g = h[:i] + [dict(h[i], r=c[0])]
                bad.append(g)
                what.append((h[i]["op"], h[i].get("how", ""), c[1], c[2], g[i]))
        rej, _ = vlib.validate(bad)
        strange = [h for h, _, e in rej if e == "(a result of another kind)"]
        if strange:
            # (only the first few are looked for, and then nothing else is)
            for h in strange:
                print("   ", prop, "another kind:", *what[h][:4], json.dumps(what[h][4])[:400])
            continue
        seen = {h for h, _, _ in rej}
        free = {}
        for i, w in enumerate(what):
            if i not in seen:
                free.setdefault((w[0], w[1], w[2], w[3]), w[4])
        n = sum(1 for i in range(len(what)) if i not in seen)
        total += len(what)
        missed += n
        print(f"{prop}: {len(what)} corruptions, {n} passed", flush=True)
        for k, ev in sorted(free.items()):
            print("   ", *k, json.dumps(ev)[:240])
    print(f"{total} corruptions, {missed} passed")


if __name__ == "__main__":
    main()
