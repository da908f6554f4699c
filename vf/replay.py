"""Turning TLC's output into walks, and replaying walks into the real code.

A walk is (init_obs, [(action, expected_obs), ...]).  An adapter is an object with
    reset(init)          build the real objects for the initial state
    step(action)         perform one action of the specification; returns an outcome (or None)
    check(action, outcome, expected_obs)   -> None, or a string describing the disagreement
"""
import collections
import json
import os
import pickle
import random
import signal
import tempfile
import time
import traceback


class Mismatch(Exception):
    pass


def chains(res, seed=1):
    """behaviours printed by -simulate (every candidate of a step has the same level) -> walks"""
    rnd = random.Random(seed)
    init_obs = dict(res.inits)
    groups = []
    for s, a, t, o, l in res.edges:
        if groups and groups[-1][0] == l and groups[-1][1] == s:
            groups[-1][2].append((a, t, o))
        else:
            groups.append((l, s, [(a, t, o)]))
    walks, walk = [], None
    for i, (l, s, cand) in enumerate(groups):
        if l == 1:
            walk = []
            walks.append((json.loads(s), init_obs[s], walk))
        nxt = groups[i + 1] if i + 1 < len(groups) and groups[i + 1][0] == l + 1 else None
        c = [x for x in cand if nxt is None or x[1] == nxt[1]]
        if walk is None or not c:
            walk = None
            continue
        a, t, o = rnd.choice(c)
        walk.append((a, o))
    return walks


def cover(res, maxlen=60, seed=1, extra=0):
    """walks from initial states that together take every transition TLC found"""
    rnd = random.Random(seed)
    out = collections.defaultdict(list)
    seen = set()
    for s, a, t, o, _ in res.edges:
        k = (s, json.dumps(a, sort_keys=True), t)
        if k in seen:
            continue
        seen.add(k)
        out[s].append((a, t, o))
    init_obs = dict(res.inits)
    # shortest-path tree from the initial states
    par, order = {}, collections.deque()
    for s in init_obs:
        par[s] = None
        order.append(s)
    while order:
        s = order.popleft()
        for i, (a, t, o) in enumerate(out[s]):
            if t not in par:
                par[t] = (s, i)
                order.append(t)
    todo = {s: set(range(len(v))) for s, v in out.items() if s in par}
    depth = {}

    def path(s):
        p = []
        while par[s] is not None:
            q, i = par[s]
            p.append((q, i))
            s = q
        p.reverse()
        return s, p
    for s in par:
        d = 0 if par[s] is None else depth[par[s][0]] + 1
        depth[s] = d
    walks = []
    nodes = sorted(todo, key=lambda s: -depth[s])
    for start in nodes:
        while todo[start]:
            root, p = path(start)
            w = []
            for q, i in p:
                todo[q].discard(i)
                a, t, o = out[q][i]
                w.append((a, o))
            cur = start
            while len(w) < max(maxlen, len(p) + 1):
                if todo.get(cur):
                    i = rnd.choice(sorted(todo[cur]))
                    todo[cur].discard(i)
                else:
                    # look a few steps ahead for an uncovered transition
                    best = None
                    q = collections.deque([(cur, [])])
                    vis = {cur}
                    while q and len(vis) < 60:
                        n, pp = q.popleft()
                        if todo.get(n):
                            best = pp
                            break
                        if len(pp) >= 4:
                            continue
                        for j, (a, t, o) in enumerate(out.get(n, ())):
                            if t not in vis:
                                vis.add(t)
                                q.append((t, pp + [(n, j)]))
                    if not best:
                        break
                    for n, j in best:
                        a, t, o = out[n][j]
                        w.append((a, o))
                        cur = t
                    continue
                a, t, o = out[cur][i]
                w.append((a, o))
                cur = t
            walks.append((json.loads(root), init_obs[root], w))
    return walks, len(seen)


class _Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise _Timeout("no answer from the code within the time limit")


def replay_one(adapter, walk, limit=60, salt=1):
    """-> None or (index, message)"""
    init, iobs, steps = walk
    adapter.rng = random.Random(salt)
    adapter.last = not steps
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    idx = -1
    try:
        adapter.reset(init)
        msg = adapter.check({"n": "init"}, None, iobs)
        if msg:
            return -1, msg
        for idx, (a, o) in enumerate(steps):
            adapter.last = idx == len(steps) - 1
            outcome = adapter.step(a)
            msg = adapter.check(a, outcome, o)
            if msg:
                return idx, msg
        return None
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # the real code raised where the specification does not
        tb = traceback.format_exc(limit=-6)
        return idx, "raised %s: %s\n%s" % (type(e).__name__, e, tb)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        done = getattr(adapter, "done", None)
        if done:
            try:
                done()
            except Exception:
                pass


def _child(make, walks, idxs, path, limit, salt):
    bad, steps = [], 0
    acts = collections.Counter()
    for i in idxs:
        w = walks[i]
        adapter = make()
        r = replay_one(adapter, w, limit, salt=salt * 1000003 + i)
        steps += len(w[2]) if r is None else r[0] + 1
        for a, _ in w[2]:
            acts[a["n"]] += 1
        if r is not None:
            bad.append((i, r[0], r[1]))
            if len(bad) >= 200:
                break
    with open(path, "wb") as fh:
        pickle.dump((bad, steps, acts), fh)


def replay(make, walks, procs=8, chunk=40, limit=60, stop_after=5000, deadline=None, salt=1):
    """Replay all walks, in forked children, a chunk per child.  Returns (mismatches, steps, action counts, n_done)."""
    tmp = tempfile.mkdtemp(prefix="vf-rp-")
    pend = collections.deque()
    idx = list(range(len(walks)))
    for c in range(0, len(idx), chunk):
        pend.append(idx[c:c + chunk])
    run, bad, steps, acts, done = {}, [], 0, collections.Counter(), 0
    try:
        n = 0
        while pend or run:
            while pend and len(run) < procs and len(bad) < stop_after and (deadline is None or time.time() < deadline):
                part = pend.popleft()
                p = os.path.join(tmp, "r%d" % n)
                n += 1
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        _child(make, walks, part, p, limit, salt)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        os._exit(code)
                run[pid] = (p, part)
            if not run:
                break
            pid, st = os.wait()
            if pid not in run:
                continue
            p, part = run.pop(pid)
            if st != 0 or not os.path.exists(p):
                bad.append((part[0], -1, "the process replaying this walk died (status %d)" % st))
                continue
            with open(p, "rb") as fh:
                b, s, a = pickle.load(fh)
            os.unlink(p)
            bad += b
            steps += s
            acts += a
            done += len(part)
        return bad, steps, acts, done
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
