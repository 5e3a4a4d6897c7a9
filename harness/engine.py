"""Generated-input search: sharded deterministic generation, lock-step evaluation of coroutine predicates on
every implementation, agreement of the transcripts, shrinking, replay files, evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter

import impls

VERIF = os.environ.get("VERIF_DIR", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SHARDS = 8
CHUNK = 400


class Viol(Exception):
    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind, self.msg = kind, msg


def key(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=False)


def digest(case):
    return hashlib.blake2b(key(case).encode("utf-8", "surrogatepass"), digest_size=8).digest()


TYPES = {"GISMU", "ZIhEVLA", "LUJVO", "EXTENDED_LUJVO", "CMEVLA"}


def _strs(x):
    return isinstance(x, list) and all(isinstance(i, str) for i in x)


def _pairs(x):
    return isinstance(x, list) and all(isinstance(p, list) and len(p) == 2 and all(isinstance(i, int) for i in p) for p in x)


def _num(x):
    return isinstance(x, int) and not isinstance(x, bool)


SHAPE = {
    "A": lambda p: len(p) == 2 and p[0] in TYPES and _strs(p[1]),
    "V": lambda p: len(p) == 1 and _strs(p[0]),
    "S": lambda p: len(p) == 1 and _num(p[0]),
    "B": lambda p: len(p) == 1 and isinstance(p[0], bool),
    "L": lambda p: len(p) == 3 and isinstance(p[0], str) and _num(p[1]) and _pairs(p[2]),
    "G": lambda p: len(p) == 1 and isinstance(p[0], str),
    "I": lambda p: len(p) == 1 and _pairs(p[0]),
}
SHAPE["M"], SHAPE["H"] = SHAPE["L"], SHAPE["G"]


def validate(req, resp):
    if resp[0] == "O" and req[0] in SHAPE and not SHAPE[req[0]](resp[1:]):
        raise Viol("malformed", "%r returned %r" % (req, resp))
    if resp[0] == "E" and resp[1] in ("CRASH", "TIMEOUT", "PANIC"):
        raise Viol("crash", "%r: %s" % (req, resp[1]))


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


LIMIT = [30]        # seconds for one call that takes milliseconds
HANGS = Counter()   # seen by this process, for each implementation
ENOUGH = 2


def run_batch(impl, reqs):
    """impl.batch with a generous hang guard; only a real hang gets near it. After a few hangs the other requests are given up (None)."""
    out = []
    old = signal.signal(signal.SIGALRM, _alarm)

    def rearm():
        signal.setitimer(signal.ITIMER_REAL, LIMIT[0])
    try:
        while len(out) < len(reqs):
            if HANGS[impl.name] >= ENOUGH:
                out += [None] * (len(reqs) - len(out))
                break
            rearm()
            try:
                if impl.name == "py":
                    for q in reqs[len(out):]:
                        rearm()
                        out.append(impl.one(*q))
                elif isinstance(impl, impls.ServerImpl):
                    impl.batch(reqs[len(out):], out, rearm)
                else:
                    signal.setitimer(signal.ITIMER_REAL, 90 if len(reqs) > 1 else LIMIT[0])
                    out += impl.batch(reqs[len(out):])
            except Timeout:
                signal.setitimer(signal.ITIMER_REAL, 0)
                if impl.name != "py":
                    impl.kill()
                HANGS[impl.name] += 1
                out.append(["E", "TIMEOUT", ""])
        return out
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def evaluate(prop, cases, impl):
    """Runs prop.check on every case against one implementation, in lock step.
    Returns for each case (label or None, Viol or None, transcript)."""
    res = [None] * len(cases)
    live = []
    for i, c in enumerate(cases):
        g = prop.check(c)
        try:
            live.append((i, g, next(g), []))
        except StopIteration as e:
            res[i] = (e.value, None, [])
        except Viol as e:
            res[i] = (None, e, [])
    while live:
        flat, spans = [], []
        for _, _, reqs, _ in live:
            spans.append((len(flat), len(flat) + len(reqs)))
            flat += reqs
        resp = run_batch(impl, flat)
        nxt = []
        for (i, g, reqs, tr), (a, b) in zip(live, spans):
            rs = resp[a:b]
            if None in rs:
                res[i] = (None, None, tr)
                continue
            tr = tr + [([list(q) for q in reqs], [x[:2] if x[0] == "E" else x for x in rs])]
            try:
                for q, x in zip(reqs, rs):
                    validate(q, x)
                nxt.append((i, g, g.send(rs), tr))
            except StopIteration as e:
                res[i] = (e.value, None, tr)
            except Viol as e:
                res[i] = (None, e, tr)
        live = nxt
    return res


def compare(prop, case, trs):
    """First round in which two implementations got the same requests and answered differently."""
    names = list(trs)
    base = names[0]
    for n in names[1:]:
        for (qa, ra), (qb, rb) in zip(trs[base], trs[n]):
            if qa != qb:
                break
            for q, x, y in zip(qa, ra, rb):
                if not prop.same(q, x, y):
                    raise Viol("disagree", "%s: %s answers %s, %s answers %s" % (json.dumps(q, ensure_ascii=False), base, json.dumps(x, ensure_ascii=False), n, json.dumps(y, ensure_ascii=False)))


REFUSALS = {"NoLujvoFoundError", "NonLojbanCharacterError", "NotZihevlaError", "InvalidClusterError", "NotBrivlaError", "DecompositionError"}


class Prop:
    """One property. Subclasses: id, rule, cases(r, tier), check(case) (a coroutine), quick/thorough case counts."""
    id = ""
    rule = ""
    agree = True
    names = impls.ALL
    quick = 4000      # cases per shard
    thorough = 60000
    assumptions = []
    cli = False
    build_js = build_rust = True

    def __init__(self, tier="quick"):
        self.tier = tier

    def cases(self, r, n, shard):
        for _ in range(n):
            yield self.case(r)

    def same(self, req, x, y):
        # which of the documented errors a refused tanru gets is nobody's guarantee; that it is refused is
        return x == y or (req[0] in "LMGH" and x[0] == y[0] == "E" and x[1] in REFUSALS and y[1] in REFUSALS)

    def simpler(self, case):
        return simpler(case)

    def extra(self, ctx):
        """Anything beyond the case loop; runs in the main process after it. Returns list of (case, Viol, impl)."""
        return []


def simpler(x):
    """Smaller variants of a JSON value, smallest first: the shrinker's candidates."""
    if isinstance(x, str):
        n = len(x)
        k = n // 2
        while k >= 1:
            for i in range(0, n - k + 1, max(1, k // 2)):
                yield x[:i] + x[i + k:]
            k //= 2
        for i, ch in enumerate(x):
            for t in ("a", "b", "l", "t"):
                if ch != t and ch.isalpha() and (ch in "aeiouy") == (t in "aeiou"):
                    yield x[:i] + t + x[i + 1:]
                    break
    elif isinstance(x, list):
        for i in range(len(x)):
            yield x[:i] + x[i + 1:]
        for i in range(len(x)):
            for y in simpler(x[i]):
                yield x[:i] + [y] + x[i + 1:]
    elif isinstance(x, dict):
        for k in x:
            if k == "k":
                continue
            for y in ([x[k][:i] + x[k][i + 1:] for i in range(len(x[k]))] if k == "f" else simpler(x[k])):
                yield dict(x, **{k: y})


def size(case):
    s = key(case)
    return (len(s), sum(c not in "ablt" for c in s), s)


def judge(prop, case, impl_list):
    """All violations of one case: list of (impl, Viol)."""
    trs, out = {}, []
    for im in impl_list:
        label, v, tr = evaluate(prop, [case], im)[0]
        trs[im.name] = tr
        if v:
            out.append((im.name, v))
    if prop.agree and len(impl_list) > 1:
        try:
            compare(prop, case, trs)
        except Viol as v:
            out.append(("all", v))
    return out


def shrink(prop, case, name, kind, impl_list, budget=1500, seconds=60):
    ims = impl_list if name == "all" else [i for i in impl_list if i.name == name]
    msg = None
    t0 = time.time()
    improved = True
    while improved and budget > 0 and time.time() - t0 < seconds:
        improved = False
        for cand in prop.simpler(case):
            if size(cand) >= size(case):
                continue
            budget -= 1
            if budget <= 0 or time.time() - t0 > seconds:
                break
            HANGS.clear()
            try:
                vs = [v for n, v in judge(prop, cand, ims) if n == name and v.kind == kind]
            except Exception:
                continue
            if vs:
                case, msg, improved = cand, vs[0].msg, True
                break
    return case, msg


# ---------------------------------------------------------------- workers

_ctx = {}


def _worker(args):
    shard, n = args
    prop, build, seed = _ctx["prop"], _ctx["build"], _ctx["seed"]
    try:
        ims = [impls.make(x, build) for x in prop.names]
        r = random.Random("%s/%s/%d" % (seed, prop.id, shard))
        st = dict(evals=0, gen=0, labels=Counter(), distinct=set(), viols=[], samples={}, nviol=0)
        buf = []

        def flush():
            trs = [dict() for _ in buf]
            labels = [None] * len(buf)
            for im in ims:
                for i, (label, v, tr) in enumerate(evaluate(prop, buf, im)):
                    trs[i][im.name] = tr
                    st["evals"] += 1
                    if v:
                        st["nviol"] += 1
                        if len(st["viols"]) < 40:
                            st["viols"].append((buf[i], im.name, v.kind, v.msg))
                    elif label:
                        labels[i] = label
                        st["labels"][im.name + ":" + label] += 1
            for i, c in enumerate(buf):
                if prop.agree:
                    try:
                        compare(prop, c, trs[i])
                    except Viol as v:
                        st["nviol"] += 1
                        if len(st["viols"]) < 40:
                            st["viols"].append((c, "all", v.kind, v.msg))
                if labels[i]:
                    d = digest(c)
                    if d not in st["distinct"]:
                        st["distinct"].add(d)
                        s = st["samples"].setdefault(labels[i], [])
                        if len(s) < 2:
                            t = trs[i][ims[0].name]
                            s.append({"case": c, "label": labels[i], "observed": t[0][1][:2] if t else None})
            buf.clear()

        for c in prop.cases(r, n, shard):
            buf.append(c)
            st["gen"] += 1
            if len(buf) >= CHUNK:
                flush()
                if st["nviol"] >= 200 or HANGS:
                    break
        if buf:
            flush()
        for im in ims:
            im.close()
        return st
    except Exception:
        return {"error": traceback.format_exc()}


def load_known(pid):
    """Known findings: specific inputs, recorded in the committed file; never written here."""
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def run(prop_cls, tier, seed, only_replay=None, n=None, shards=SHARDS):
    t0 = time.time()
    prop = prop_cls(tier)
    build = impls.Build()
    try:
        need_js = "js" in prop.names or "docs" in prop.names
        build.start(js=need_js, rust="rs" in prop.names or prop.cli, cli=prop.cli)
        build.wait()
        prop.names = list(prop.names)
        same_docs = "js" in prop.names and "docs" in prop.names and build.docs_identical()
        if same_docs:
            prop.names.remove("docs")     # byte for byte the program already being run
        if only_replay:
            return replay(prop, build, only_replay)
        _ctx.update(prop=prop, build=build, seed=seed)
        n = n or (prop.thorough if tier == "thorough" else prop.quick)
        with mp.get_context("fork").Pool(min(shards, 8)) as pool:
            sts = pool.map(_worker, [(s, n) for s in range(shards)], chunksize=1)
        for s in sts:
            if "error" in s:
                print(s["error"], file=sys.stderr)
                return 2
        labels, distinct, samples, viols = Counter(), set(), {}, []
        for s in sts:
            labels += s["labels"]
            distinct |= s["distinct"]
            viols += s["viols"]
            for k, v in s["samples"].items():
                samples.setdefault(k, [])
                samples[k] = (samples[k] + v)[:2]
        evals, gen = sum(s["evals"] for s in sts), sum(s["gen"] for s in sts)
        if any(v[3].endswith(": TIMEOUT") for v in viols):
            LIMIT[0] = 10
        ims = [impls.make(x, build) for x in prop.names]
        ctx = dict(build=build, impls=ims, seed=seed, tier=tier, stats={})
        for c, name, v in prop.extra(ctx) or []:
            viols.append((c, name, v.kind, v.msg))
        evals += ctx["stats"].pop("evaluations", 0)
        for d in ctx["stats"].pop("distinct", []):
            distinct.add(digest(d))
        # known findings are specific inputs
        known_keys, nknown = set(), 0
        for k in load_known(prop.id):
            p2 = prop_cls(tier)
            vs = judge(p2, k["case"], ims)
            known_keys.add(key(k["case"]))
            if vs:
                nknown += 1
                print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))
        groups = {}
        for v in sorted(viols, key=lambda v: size(v[0])):
            if key(v[0]) in known_keys:
                continue
            groups.setdefault((v[1], v[2]), v)
        lines = []
        for (name, kind), (c, _, _, msg) in list(groups.items())[:4]:
            if not isinstance(c, dict) or not c.get("_noshrink"):
                c2, m2 = shrink(prop, c, name, kind, ims)
                if m2:
                    c, msg = c2, m2
                if key(c) in known_keys:
                    continue
            rp = write_replay(prop, c, name, kind, msg, seed, tier)
            lines.append("VIOLATION property=%s replay=%s" % (prop.id, rp))
            print("  [%s/%s] %s\n    case %s" % (name, kind, msg, key(c)), file=sys.stderr)
        for im in ims:
            im.close()
        cov = {
            "evaluations": evals,
            "distinct_nontrivial": len(distinct),
            "rule": prop.rule,
            "samples": [x for k in sorted(samples) for x in samples[k]][:24],
            "cases_generated": gen,
            "classes": dict(sorted(labels.items())),
            "implementations": list(prop.names) + (["docs (byte-identical to the compiled js)"] if same_docs else []),
            "known_findings_seen": nknown,
        }
        cov.update(ctx["stats"])
        ev = {"property": prop.id, "tier": tier, "seed": seed_int(seed), "level": "exploration", "coverage": cov,
              "assumptions": list(prop.assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(lines)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.tmp" % prop.id)
        with open(tmp, "w", encoding="utf-8") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        os.replace(tmp, os.path.join(d, prop.id + ".json"))
        for x in lines:
            print(x)
        if os.environ.get("VERIF_VERBOSE"):
            print(json.dumps({k: v for k, v in cov.items() if k != "samples"}, ensure_ascii=False, indent=1), "%.1fs" % (time.time() - t0))
        else:
            print("%s %s: %d evaluations, %d distinct non-trivial, %d violations, %.1fs" % (prop.id, tier, evals, len(distinct), len(lines), time.time() - t0))
        if not lines and not distinct:
            print("nothing non-trivial was evaluated", file=sys.stderr)
            return 2
        return 1 if lines else 0
    finally:
        build.close()


def seed_int(s):
    try:
        return int(s)
    except ValueError:
        return 0


def write_replay(prop, case, name, kind, msg, seed, tier):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop.id, hashlib.blake2b((name + kind + key(case)).encode("utf-8", "surrogatepass"), digest_size=6).hexdigest()))
    with open(p, "w", encoding="utf-8") as f:
        json.dump({"property": prop.id, "impl": name, "kind": kind, "message": msg, "case": case, "seed": seed, "tier": tier,
                   "replay": "python3-vt harness/run.py %s --replay %s" % (prop.id, p)}, f, ensure_ascii=False, indent=1)
    return p


def replay(prop, build, path):
    d = json.load(open(path, encoding="utf-8"))
    ims = [impls.make(x, build) for x in prop.names]
    if d["case"].get("_noshrink") if isinstance(d["case"], dict) else False:
        vs = [(n, v) for c, n, v in prop.extra(dict(build=build, impls=ims, seed=d["seed"], tier=d["tier"], stats={})) if key(c) == key(d["case"])]
    else:
        vs = judge(prop, d["case"], ims)
    for im in ims:
        im.close()
    for n, v in vs:
        print("[%s/%s] %s" % (n, v.kind, v.msg))
    if vs:
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    print("not reproduced")
    return 0
