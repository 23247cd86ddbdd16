"""
Explicit-state search over the real objects.

`explore` performs breadth-first search from `build()`: every operation of the alphabet is applied in
every reachable state (states identified by the complete content of the object, so two merged states
have the same futures), and the oracle judges each answer.  It runs until no new state appears or the
depth bound is hit (reported).  `sequences` replays every operation sequence up to a depth on FRESH
objects without any state merging: this binds the copying explorer to plain executions.
"""
import copy
import itertools
from .core import canon_bytes, h64


def explore(rec, case, build, ops, apply, oracle, max_depth=50, max_states=4000):
    """ops: list of names; apply(obj, op)->result; oracle(hist, op, result, obj)->list of (key,msg)"""
    root = build()
    seen = {h64(root)}
    frontier = [((), root)]
    depth = 0
    closed = True
    while frontier and depth < max_depth:
        nxt = []
        for hist, obj in frontier:
            for op in ops:
                o2 = copy.deepcopy(obj)
                res = apply(o2, op)
                rec.step()
                for key, msg in oracle(hist, op, res, o2):
                    rec.fail(key, f"after {list(hist)}: {op}: {msg}",
                             replay_case=dict(case, hist=list(hist) + [op]))
                k = h64(o2)
                if k not in seen:
                    seen.add(k)
                    if len(seen) > max_states:
                        closed = False
                        continue
                    nxt.append((hist + (op,), o2))
            if len(rec.problems) > 20:
                rec.states |= seen
                return
        frontier = nxt
        depth += 1
    if frontier:
        closed = False
    rec.states |= seen
    rec.note("fixpoint_reached" if closed else "bounded_not_closed")
    rec.notes["max_bfs_depth"] = max(rec.notes.get("max_bfs_depth", 0), depth)


def sequences(rec, case, build, ops, apply, oracle, depth):
    for d in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=d):
            replay(rec, case, build, seq, apply, oracle, last_only=True)
            if len(rec.problems) > 20:
                return


def replay(rec, case, build, seq, apply, oracle, last_only=False):
    obj = build()
    for i, op in enumerate(seq):
        res = apply(obj, op)
        rec.step()
        if last_only and i < len(seq) - 1:
            continue
        for key, msg in oracle(tuple(seq[:i]), op, res, obj):
            rec.fail(key, f"after {list(seq[:i])}: {op}: {msg}", replay_case=dict(case, hist=list(seq[: i + 1])))
    rec.state("seq", h64(obj))
    rec.trace()
