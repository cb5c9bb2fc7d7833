"""Breadth-first search over a *batch* of real simulation states.

Every transition executes the real (compiled, vmapped) code.  States are deduplicated on a canonical
form: the bytes of the selected arrays rounded to `digits` significant decimals, which can only merge
states that agree to far below every tolerance used.
"""
import numpy as np


def canon(d, keys, digits=9):
    B = d[keys[0]].shape[0]
    flat = np.concatenate([np.asarray(d[k], dtype=float).reshape(B, -1) for k in keys], axis=1)
    r = np.round(flat, digits) + 0.0
    return [row.tobytes() for row in r]


def bfs(rec, init, events, depth, keys, on_transition, digits=9, max_states=None):
    """init: dict of arrays with leading batch axis.  events: [(name, fn(dict)->dict)].
    on_transition(pre, name, post, case) checks one whole layer of transitions.
    Returns number of states.  `case(i)` gives the initial index and the event history of entry i."""
    seen = set()
    B = init[keys[0]].shape[0]
    front = {k: np.asarray(v) for k, v in init.items()}
    hist = [(i, ()) for i in range(B)]
    keep = []
    for i, c in enumerate(canon(front, keys, digits)):
        if c not in seen:
            seen.add(c); keep.append(i)
    front = {k: v[keep] for k, v in front.items()}
    hist = [hist[i] for i in keep]
    ntrans = 0
    for lev in range(depth):
        nxt, nh = [], []
        for name, fn in events:
            post = {k: np.asarray(v) for k, v in fn(front).items() if not isinstance(v, (tuple, list))} if True else None
            ntrans += len(hist)
            case = lambda i, name=name: dict(initial=int(hist[i][0]), events=list(hist[i][1]) + [name],
                                             state={k: front[k][i].tolist() for k in keys})
            on_transition(front, name, post, case)
            carry = {k: post[k] if k in post else front[k] for k in front}
            sel = []
            for i, c in enumerate(canon(carry, keys, digits)):
                if c not in seen:
                    if max_states and len(seen) >= max_states:
                        break
                    seen.add(c); sel.append(i)
            if sel:
                nxt.append({k: v[sel] for k, v in carry.items()})
                nh += [(hist[i][0], hist[i][1] + (name,)) for i in sel]
        if not nxt:
            break
        front = {k: np.concatenate([n[k] for n in nxt]) for k in nxt[0]}
        hist = nh
    rec.count(states=len(seen), transitions=ntrans, distinct=len(seen), evals=ntrans)
    return len(seen)
