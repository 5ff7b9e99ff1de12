import contextlib, io
import numpy as np
from hypothesis import strategies as st
from vlib import skyref
from vlib.core import Component, check, close
from vlib.gen import flagcube

RULE = ("1-6 images scattered over the sky, single or in groups, flat apart from their background and unusable masked pixels, every method, direction and order; "
        "non-trivial when at least two images overlap and have different backgrounds")


@st.composite
def cases(draw):
    lay = draw(skyref.layout(nmax=6, size=(12, 20)))
    n = len(lay)
    groups = draw(st.sampled_from([[None] * n, [draw(st.sampled_from([None, "g", "h"])) for _ in lay]]))
    bg = [draw(st.sampled_from([5.5, -2.0, 100.0, 1.0, 7.25, 0.0, 1e4, -33.5])) for _ in lay]
    method = draw(st.sampled_from(["match", "global+match", "global", "match", "global+match", "local"]))
    if "match" in method:      # a group has one background
        first = {}
        bg = [b if g is None else first.setdefault(g, b) for b, g in zip(bg, groups)]
    return {"layout": lay, "bg": bg, "groups": groups, "method": method, "down": draw(st.booleans()), "sub": draw(st.booleans()),
            "stat": draw(st.sampled_from(["mean", "median"])), "nclip": draw(st.sampled_from([0, 3])), "order": draw(st.permutations(list(range(n)))),
            "masks": [flagcube(draw, tuple(p["shape"]), [1], draw(st.sampled_from([0, 20, 120, 0, 250, 255]))) == 0 for p in lay],
            "badval": [draw(st.sampled_from([float("nan"), 1e6, -300.0])) for _ in lay], "step": draw(st.sampled_from([None, None, None, None, 4])), "lone": draw(st.booleans())}


def run(case):
    from stcal.skymatch import SkyGroup, skymatch
    from stcal.skymatch.skystatistics import SkyStats
    import shapely
    lay, bg = case["layout"], case["bg"]
    n = len(lay)
    reg = {}
    for i in range(n):
        for j in range(n):
            if i != j:
                if skyref.degenerate(lay[i], lay[j]):
                    return False, ["degenerate layout"]
                reg[i, j] = skyref.region(lay[i], lay[j])
    # pixels at the edge of an overlap are in doubt: where an overlap consists of such pixels only, they are masked
    masks = [m.copy() for m in case["masks"]]
    name = [case["groups"][k] or f"one{k}" for k in range(n)]
    changed = True
    while changed:
        changed = False
        for g in sorted(set(name)):
            for h in sorted(set(name) - {g}):
                pairs = [(i, j) for i in range(n) for j in range(n) if name[i] == g and name[j] == h]
                if not any((reg[p][0] & masks[p[0]]).any() for p in pairs):
                    for i, j in pairs:
                        changed |= bool((masks[i] & reg[i, j][1]).any())
                        masks[i] &= ~reg[i, j][1]
    stat = SkyStats(case["stat"], nclip=case["nclip"])
    ims = []
    for k, p in enumerate(lay):
        a = np.full(p["shape"], bg[k], np.float32)
        a[~masks[k]] = case["badval"][k]
        ims.append(skyref.make(p, a, masks[k].copy(), stat, k, case["step"]))
    before = [i.image.copy() for i in ims]
    items, members, seen = [], [], set()
    for k in case["order"]:
        g = case["groups"][k]
        if g is None:
            items.append(SkyGroup([ims[k]], sky_id=f"one{k}") if case["lone"] else ims[k])
            members.append([k])
        elif g not in seen:
            seen.add(g)
            m = [j for j in case["order"] if case["groups"][j] == g]
            items.append(SkyGroup([ims[j] for j in m], sky_id=g))
            members.append(m)
    # which items overlap?
    N = len(items)
    link = np.zeros((N, N), bool)
    for a in range(N):
        for b in range(a):
            f = lambda u, v: any((reg[i, j][0] & masks[i]).any() for i in members[u] for j in members[v])
            link[a, b] = link[b, a] = f(a, b) and f(b, a)
    with contextlib.redirect_stdout(io.StringIO()):
        skymatch(items, case["method"], match_down=case["down"], subtract=case["sub"])
    sky = np.array([float(items[a].sky) for a in range(N)])
    for a in range(N):
        for j in members[a]:
            check(abs(ims[j].sky - sky[a]) < 1e-6 * (1 + abs(sky[a])), f"image {j} got sky {ims[j].sky}, its group {sky[a]}")
    own = [[bg[j] for j in m if masks[j].any()] for m in members]
    own = [min(o) if o else None for o in own]
    big = max(abs(b) for b in bg) + 1
    tol = 2e-5 * big
    valid = [all(ims[j].is_sky_valid for j in m) for m in members]
    comp = components(link)
    method = case["method"]
    labels = [method, f"subtract={case['sub']}", f"n={min(N, 4)}"]
    if method == "local":
        for a in range(N):
            check(abs(sky[a] - (own[a] or 0.0)) <= tol and valid[a] == (own[a] is not None), f"local sky {sky[a]} (valid={valid[a]}), background {own[a]}")
    elif method == "global":
        have = [o for o in own if o is not None]
        want = min(have) if have else 0.0
        check(np.all(np.abs(sky - want) <= tol), f"global sky {sky.tolist()}, smallest background {want}")
        check(all(v == bool(have) for v in valid), f"validity {valid}")
    else:
        for c in comp:
            if len(c) < 2:
                continue
            d = [sky[a] - own[a] for a in c]
            check(max(d) - min(d) <= tol, f"after matching overlapping images {c} their residual backgrounds differ: sky {[sky[a] for a in c]}, backgrounds {[own[a] for a in c]}")
        matched = [a for c in comp if len(c) > 1 for a in c]
        if method == "match":
            if matched:
                ref = min(sky[a] for a in matched) if case["down"] else max(sky[a] for a in matched)
                check(abs(ref) <= tol, f"the reference image has sky {ref}: {sky.tolist()}")
            for a in range(N):
                check(valid[a] == (a in matched), f"validity {valid}, matched {matched}")
                check(a in matched or sky[a] == 0, f"an image without overlap got sky {sky[a]}")
        else:
            have = [o for o in own if o is not None]
            if len(comp) == 1 and N > 1:
                for a in range(N):
                    check(abs(sky[a] - own[a]) <= tol, f"sky {sky.tolist()}, backgrounds {own}")
            elif have:      # the smallest remaining background was removed everywhere
                rest = [own[a] - sky[a] for a in range(N) if own[a] is not None]
                check(abs(min(rest)) <= tol, f"smallest background left over {min(rest)}, backgrounds {own}, sky {sky.tolist()}")
    for k, i in enumerate(ims):
        m = masks[k] | (case["badval"][k] == -300.0)
        want = before[k].astype(float) - (i.sky if case["sub"] else 0.0)
        bad = m & ~(np.abs(i.image - want) <= 3 * tol)
        check(not bad.any(), lambda: f"image {k}: {i.image[bad][0]} after the call, expected {want[bad][0]} (subtract={case['sub']}, sky {i.sky})")
    nt = any(len(c) > 1 and len({own[a] for a in c}) > 1 for c in comp)
    return nt, labels + (["groups"] if any(len(m) > 1 for m in members) else []) + (["disconnected"] if len(comp) > 1 else [])


def components(link):
    todo, out = set(range(len(link))), []
    while todo:
        c, front = set(), [min(todo)]
        while front:
            a = front.pop()
            if a not in c:
                c.add(a)
                front += list(np.flatnonzero(link[a]))
        todo -= c
        out.append(sorted(int(v) for v in c))
    return out


COMPONENTS = [Component("layouts", cases, run, quick=400, thorough=30000, shards=6)]
