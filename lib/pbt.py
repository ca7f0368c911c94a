"""Property-based testing in Python, with the conventions of harness/vt.h: a case is a sequence of
choices; failures are shrunk over that sequence and replayed from it."""
import hashlib, json, os, random, time, traceback
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

class Fail(Exception):
    pass

class Discard(Exception):
    pass

class Src:
    def __init__(self, rng=None, rep=None):
        self.rng, self.rep, self.rec = rng, rep, []
        self.labels, self.notes, self.nt = [], [], False
    def draw(self, n):
        """0..n, 0 is simplest"""
        if self.rep is not None:
            i = len(self.rec)
            v = self.rep[i] if i < len(self.rep) else 0
            v = min(v, n)
        else:
            v = self.rng.randint(0, n)
        self.rec.append(v)
        return v
    def irange(self, a, b):
        return a + self.draw(b - a)
    def chance(self, p):
        # true is the less simple answer
        return self.draw(999) >= 1000 * (1 - p)
    def pick(self, xs):
        return xs[self.draw(len(xs) - 1)]
    def weighted(self, ws):
        k = self.draw(sum(ws) - 1)
        for i, w in enumerate(ws):
            if k < w:
                return i
            k -= w
    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1):
            j = i + self.draw(len(xs) - 1 - i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs
    def note(self, t): self.notes.append(str(t))
    def label(self, t): self.labels.append(t)
    def nontrivial(self): self.nt = True
    def discard(self): raise Discard()

def req(ok, msg, *a):
    if not ok:
        raise Fail(msg % a if a else msg)

def attempt(fn, s):
    """None or the message of a failure"""
    try:
        fn(s)
    except Discard:
        return "discard"
    except Fail as e:
        return "fail: " + str(e)
    except Exception as e:
        return "fail: %s: %s %s" % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3:][0].strip())
    return None

def one(args):
    fn, name, seed, i = args
    s = Src(random.Random("%s/%d/%d" % (name, seed, i)))
    m = attempt(fn, s)
    return i, m, s.rec, s.labels, s.notes, s.nt

def shrink(fn, rec, budget_s, budget_n=3000):
    t0 = time.time()
    best, steps = list(rec), 0
    def bad(c):
        nonlocal steps
        steps += 1
        s = Src(rep=c)
        m = attempt(fn, s)
        return s.rec if m and m.startswith("fail") else None
    def go():
        return time.time() - t0 < budget_s and steps < budget_n
    again = True
    while again and go():
        again = False
        size = max(1, len(best) // 2)
        while size >= 1 and go():
            i = 0
            while i < len(best) and go():
                r = bad(best[:i] + best[i + size:])
                if r is not None and (len(r), r) < (len(best), best):
                    best, again = r, True
                else:
                    i += size
            size //= 2
        i = 0
        while i < len(best) and go():
            if best[i]:
                for v in (0, best[i] // 2, best[i] - 1):
                    if v < best[i]:
                        r = bad(best[:i] + [v] + best[i + 1:])
                        if r is not None and (len(r), r) < (len(best), best):
                            best, again = r, True
                            break
            i += 1
    return best, steps

def run(pid, name, fn, n, seed, threads=False, shrink_s=60, jobs=8):
    res = dict(name=name, cases=0, evals=0, discards=0, nontrivial=0, labels={}, samples=[])
    seen = set()
    first = None
    Pool = ThreadPoolExecutor if threads else ProcessPoolExecutor
    kw = {} if threads else {"chunksize": 64}
    with Pool(jobs) as ex:
        for i, m, rec, labels, notes, nt in ex.map(one, ((fn, name, seed, i) for i in range(n)), **kw):
            res["cases"] += 1
            if m == "discard":
                res["discards"] += 1
                continue
            res["evals"] += 1
            for l in labels:
                res["labels"][l] = res["labels"].get(l, 0) + 1
            h = hashlib.sha1(repr(rec).encode()).digest()
            if nt and h not in seen:
                seen.add(h)
                res["nontrivial"] += 1
                if len(res["samples"]) < 3 and i % 7 == 3:
                    res["samples"].append("; ".join(notes)[:600])
            if m and (first is None or len(rec) < len(first[2])):
                first = (i, m, rec)
    if first:
        best, steps = shrink(fn, first[2], shrink_s)
        again = 0
        for _ in range(3):
            s = Src(rep=best)
            m = attempt(fn, s)
            if m and m.startswith("fail"):
                again += 1
                msg, notes = m, s.notes
        if not again:
            msg, notes = first[1], []
        res["failure"] = dict(case=first[0], reproduced=again, shrink_steps=steps, msg=msg, notes="; ".join(notes), output="",
                              choices=best, json={"property": pid, "py": name, "choices": best, "failure": msg, "case": "; ".join(notes)})
    return res

def replay(fns, path):
    d = json.load(open(path))
    s = Src(rep=d["choices"])
    m = attempt(fns[d["py"]], s)
    print("\n".join(s.notes))
    print("%s: %s" % (d["py"], m or "held"))
    return 1 if m and m.startswith("fail") else 0
