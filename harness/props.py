"""The listed properties as executable checks. Each check is a coroutine: it yields lists of requests, gets the answers
of one implementation, raises Viol on a violation and returns a label when the case was non-trivial (None otherwise)."""
import re

import gen
import model
from engine import Prop, Viol
from gen import C
from model import HYPHENS

LUJ = ("LUJVO", "EXTENDED_LUJVO", "CMEVLA")
LETTERS = re.compile("[aeiouy'%s]+" % C)


def noc(f):
    return f.replace("c", "")


def rep(f, drop, add=""):
    for c in drop:
        f = f.replace(c, "")
    return f + add


def e(x):
    """A response without its error message."""
    return x[:2] if x[0] == "E" else x


def pieces_ok(ps):
    return all(p for p in ps)


def spans(ps):
    out, i = [], 0
    for p in ps:
        if p not in HYPHENS:
            out.append([i, i + len(p)])
        i += len(p)
    return out


class Word(Prop):
    """Cases {f: flags, w: word}."""
    def case(self, r):
        return {"f": gen.flags(r), "w": gen.word(r)}

    def legal(self, c):
        return isinstance(c.get("w"), str) and c["w"] and c["w"].strip() == c["w"] and not any(ord(x) < 32 for x in c["w"])


class Tanru(Prop):
    """Cases {f: flags, t: components}."""
    cm = True

    def case(self, r):
        f = gen.flags(r, self.cm)
        return {"f": f, "t": gen.tanru(r, exp="r" in f)}

    def legal(self, c):
        return len(c["t"]) >= 2 and all(x.strip("-'") and " " not in x for x in c["t"])


# ----------------------------------------------------------------------------------------------------------- C01

class C01(Tanru):
    id = "C01"
    rule = ("random tanru (2-5 components: gismu, cmavo, zi'evla, rafsi, shortened words) x settings; non-trivial when a lujvo was "
            "produced, which must then be analysed as LUJVO or EXTENDED_LUJVO (CMEVLA when a cmevla was asked for)")
    quick, thorough = 7500, 37500

    def check(self, c):
        f, t = c["f"], c["t"]
        if not self.legal(c):
            return None
        (m,) = yield [("M", f, t)]
        if m[0] == "E":
            return None
        w, s, ix = m[1:]
        a, b, v = yield [("A", noc(f), w), ("B", noc(f), w), ("V", noc(f), w)]
        if a[0] == "E":
            raise Viol("rejected", "%s(%s) -> %s, which is no word: %s" % (" ".join(t), f, w, a[1:]))
        want = ("CMEVLA",) if "c" in f else ("LUJVO", "EXTENDED_LUJVO")
        if a[1] not in want:
            raise Viol("type", "%s(%s) -> %s is %s" % (" ".join(t), f, w, a[1]))
        if b[1:] != ["c" not in f] or b[0] != "O":
            raise Viol("is_brivla", "%s(%s) -> %s: is_brivla %s" % (" ".join(t), f, w, b))
        if v[0] != "O" or len(v[1]) != len(t):
            raise Viol("parts", "%s(%s) -> %s has veljvo %s" % (" ".join(t), f, w, v))
        return a[1]


# ----------------------------------------------------------------------------------------------------------- C02

def same_component(comp, got, span):
    """comp: what was asked for; got: how the decomposition names the part spelled span."""
    x = gen.norm(comp)
    if x == got or x.strip("-") == got.strip("-"):
        return True
    name = model.owner(span)
    if name is not None:
        if got != name:
            return False
        if x.startswith("-"):
            return x.strip("-") == span
        if x.endswith("-"):
            return x[:-1] == span
        # two gismu share their first four letters: the published order decides
        return span in gen.RAFSI.get(x, []) or (len(x) == 5 and x[:4] == span)
    return got.strip("-") == span and (x.strip("-") == span or x[:-1] == span)


class C02(Tanru):
    id = "C02"
    rule = ("random tanru x settings, made into a lujvo and decomposed again; non-trivial when a lujvo was produced: its veljvo "
            "must name the same components in the same order, and rebuilding from the veljvo must not score worse")
    quick, thorough = 7500, 37500

    def check(self, c):
        f, t = c["f"], c["t"]
        if not self.legal(c):
            return None
        (m,) = yield [("M", f, t)]
        if m[0] == "E":
            return None
        w, s, ix = m[1:]
        (v,) = yield [("V", noc(f), w)]
        if v[0] == "E":
            raise Viol("no-veljvo", "%s(%s) -> %s: %s" % (" ".join(t), f, w, v[1:]))
        v = v[1]
        if len(v) != len(t) or len(ix) != len(t):
            raise Viol("length", "%s(%s) -> %s -> %s" % (" ".join(t), f, w, v))
        for x, g, (a, b) in zip(t, v, ix):
            if not same_component(x, g, w[a:b]):
                raise Viol("component", "%s(%s) -> %s -> %s: %s came back as %s" % (" ".join(t), f, w, v, x, g))
        (m2,) = yield [("M", f, v)]
        if m2[0] == "E" or m2[2] > s:
            if m2[0] == "O" or not any(x.endswith("-") for x in v):
                raise Viol("rebuild", "%s(%s) -> %s -> %s -> %s" % (" ".join(t), f, w, v, m2))
        return "cmevla" if "c" in f else "brivla"


# ----------------------------------------------------------------------------------------------------------- C03

def cll_forms(comp, first, last, cm, mz):
    """The CLL-shaped rafsi a component may be represented by."""
    if comp.startswith("-"):
        fs = [comp.strip("-")]
    elif model.is_gismu(comp, mz):
        fs = [x for x in gen.RAFSI.get(comp, [])] + [comp[:4], comp]
    else:
        fs = [x for x in gen.RAFSI.get(comp, [])]
    return [x for x in dict.fromkeys(fs) if gen.shape(x) and gen.phon_ok(x, mz) and (last or len(x) < 5)
            and (not last or (x[-1] in C) == cm)]


def kind(w, f):
    k = model.classify(w, "".join(i for i in f if i in "AFz")) if "y" not in w else None
    return k and k[0]


def all_forms(comp, f):
    """Every (spelling, kind) a component may have inside a lujvo, by the documentation: "cll" rafsi, a brivla in full
    ("long"), a brivla without its last vowel ("short"), or an experimental rafsi ("exp")."""
    x = comp.strip("-")

    def raf(x):
        if gen.shape(x):
            return [(x, "cll" if len(x) < 5 else "long")] if gen.phon_ok(x, "z" in f) else []
        return [(x, "exp")] if "r" in f else []

    if comp.startswith("-"):
        return [(x, "long")] if kind(x, f) == "ZIhEVLA" else raf(x)
    if comp.endswith("-"):
        return [(x, "short")] if kind(x + "a", f) in ("GISMU", "ZIhEVLA") else []
    fs = [z for y in gen.RAFSI.get(x, []) for z in raf(y)]
    k = kind(x, f)
    if k in ("GISMU", "ZIhEVLA"):
        fs.append((x, "long"))
    if k == "GISMU":
        fs.append((x[:-1], "short"))
    return fs


AFTER = {"cll": ["", "y", "'y", "y'", "'y'", "r", "n"], "long": ["'y", "'y'"], "short": ["y", "y'"], "exp": ["", "'y", "'y'", "y", "y'"]}


def product(lists, cap=4000):
    out = [[]]
    for l in lists:
        out = [a + [b] for a in out for b in l]
        if len(out) > cap:
            return None
    return out


class C03(Prop):
    id = "C03"
    rule = ("(a) random tanru of gismu and CLL rafsi: the score must equal the minimum over every rafsi choice, hyphenated by the CLL rules "
            "(exhaustive per case); (b) random tanru with zi'evla etc.: no spelling with a lower score may be a word made of the same "
            "parts (every cheaper spelling is tried); (c) random lujvo: rebuilding from the veljvo may not score worse. "
            "Non-trivial when there was a lujvo to compare")
    quick, thorough = 8000, 40000

    def case(self, r):
        f = gen.flags(r, True)
        k = r.random()
        if k < .5:
            n = r.choice([2, 2, 3, 3, 4]) if r.random() < .95 else 5
            t = []
            for i in range(n):
                if r.random() < .75:
                    t.append(r.choice(gen.GISMU))
                elif r.random() < .3:
                    t.append(r.choice([gen.cvccv, gen.ccvcv])(r))
                else:
                    t.append("-" + gen.raf(r) + "-")
            return {"k": "a", "f": f, "t": t}
        if k < .8:
            n = r.choice([2, 2, 2, 3])
            g = gen.exp_comp if "r" in f and r.random() < .3 else lambda r: gen.good_comp(r, "r" in f)
            return {"k": "b", "f": f, "t": [g(r) for _ in range(n)]}
        return {"k": "c", "f": noc(f), "w": gen.word(r) if r.random() < .5 else "".join(gen.good_lujvo(r, "F" if "F" in f else "", r.random() < .2, mz="z" in f))}

    def check(self, c):
        f = c["f"]
        if c["k"] == "c":
            w = c["w"]
            (a,) = yield [("A", f, w)]
            if a[0] == "E" or a[1] != "LUJVO":
                return None
            v, s = yield [("V", f, w), ("S", f, w)]
            (m,) = yield [("M", f, v[1])]
            if m[0] == "E" or m[2] > s[1]:
                raise Viol("rebuild", "%s(%s) scores %s, but %s -> %s" % (w, f, s[1], " ".join(v[1]), m))
            return "c"
        t = c["t"]
        if len(t) < 2 or not all(x.strip("-'") and not (x[0] == "-" != x[-1]) for x in t):
            return None
        cm, mz, y = "c" in f, "z" in f, "F" if "F" in f else ""
        if c["k"] == "a":
            forms = [cll_forms(x, i == 0, i == len(t) - 1, cm, mz) for i, x in enumerate(t)]
            seqs = product(forms)
            if not seqs:
                return None
            best, bw = None, None
            for q in seqs:
                ps = gen.hyphenate(q, y, cm, mz)
                s = model.score(ps)
                if best is None or s < best:
                    if model.cll_lujvo("".join(ps), noc(f)) == ps:
                        best, bw = s, "".join(ps)
            (m,) = yield [("M", f, t)]
            if best is None:
                return None
            if m[0] == "E":
                raise Viol("none", "%s(%s) fails with %s, but %s is a lujvo for it" % (" ".join(t), f, m[1], bw))
            if m[2] > best:
                raise Viol("worse", "%s(%s) -> %s, but %s scores %d" % (" ".join(t), f, m[1:3], bw, best))
            (a,) = yield [("A", noc(f), m[1])]
            if a[0] == "O" and a[1] == "LUJVO" and m[2] < best and not set(f) & set("12"):
                raise Viol("better", "%s(%s) -> %s, but the best lujvo is %s with %d" % (" ".join(t), f, m[1:3], bw, best))
            return "a%d" % len(t)
        (m,) = yield [("M", f, t)]
        seqs = product([all_forms(x, f) for x in t], 1200)
        if not seqs:
            return None
        cands = []
        for q in seqs:
            if q[-1][1] == ("long" if cm else "short"):
                continue
            for hs in product([[h for h in AFTER[x[1]] if i == 0 or h not in ("r", "n")] for i, x in enumerate(q[:-1])]):
                ps = [q[0][0]]
                for h, x in zip(hs, q[1:]):
                    ps += [h, x[0]] if h else [x[0]]
                s = model.score(ps)
                if m[0] == "E" or s < m[2]:
                    cands.append((s, ps))
        cands.sort(key=lambda x: x[0])
        cands = cands[:300]
        rs = yield [("A", noc(f), "".join(ps)) for _, ps in cands]
        for (s, ps), a in zip(cands, rs):
            if a[0] == "O" and a[2] == ps and (a[1] == "CMEVLA") == cm and a[1] in LUJ:
                raise Viol("beaten", "%s(%s) -> %s, but %s is %s and scores %d" % (" ".join(t), f, m[1:3], "".join(ps), a[1], s))
        return "b%d" % len(t) if m[0] == "O" else None


# ----------------------------------------------------------------------------------------------------------- C04

class C04(Prop):
    id = "C04"
    rule = ("random words and tanru x settings; non-trivial when there was a score, which must equal the published formula evaluated on the "
            "word's own pieces (independent implementation), and be the same from get_lujvo and score_lujvo")
    quick, thorough = 12500, 62500

    def case(self, r):
        f = gen.flags(r, True)
        if r.random() < .45:
            return {"f": f, "t": gen.tanru(r, True, exp="r" in f)}
        w = gen.word(r)
        if r.random() < .3:
            w = "".join(gen.good_lujvo(r, "F" if "F" in f else "", r.random() < .2, mz="z" in f))
        if r.random() < .1:
            w = w.upper() if r.random() < .5 else "." + w.replace("'", "h")
        return {"f": noc(f), "w": w}

    def check(self, c):
        f = c["f"]
        if "t" in c:
            if len(c["t"]) < 2 or not all(x.strip("-'") for x in c["t"]):
                return None
            (m,) = yield [("M", f, c["t"])]
            if m[0] == "E":
                return None
            w = m[1]
        else:
            w, m = c["w"], None
        a, s = yield [("A", noc(f), w), ("S", noc(f), w)]
        if a[0] == "E" or a[1] not in LUJ:
            if s[0] == "O":
                raise Viol("scored", "%s(%s) has score %s but is no lujvo" % (w, f, s[1]))
            return None
        want = model.score(a[2])
        if s != ["O", want]:
            raise Viol("score", "%s(%s) = %s scores %s, the formula gives %d" % (w, f, a[2], s[1], want))
        if m and m[2] != want:
            raise Viol("build-score", "%s(%s) -> %s with score %d, the formula gives %d" % (c["t"], f, w, m[2], want))
        return ("tanru " if m else "word ") + a[1]


# ----------------------------------------------------------------------------------------------------------- C05

class C05(Prop):
    id = "C05"
    rule = ("random piece lists, words and tanru; non-trivial when there is at least one index pair: pairs must be exactly the positions of the "
            "non-hyphen pieces, and the pairs returned with a new lujvo must be those of its own decomposition")
    quick, thorough = 12500, 62500

    def case(self, r):
        f = gen.flags(r, True)
        k = r.random()
        if k < .3:
            return {"f": "", "p": [r.choice(["r", "n", "y", "'y", "y'", "'y'"]) if r.random() < .35 else r.choice(gen.ALLR + gen.GISMU + gen.ZIH + ["a", "i", "l", "m", "e'u"])
                                   for _ in range(r.randint(1, 7))]}
        if k < .6:
            return {"f": noc(f), "w": gen.word(r)}
        return {"f": f, "t": gen.tanru(r, True, exp="r" in f)}

    def check(self, c):
        f = c["f"]
        if "p" in c:
            if not all(c["p"]) or not c["p"]:
                return None
            (i,) = yield [("I", "", c["p"])]
            if i != ["O", spans(c["p"])]:
                raise Viol("indices", "%s -> %s" % (c["p"], i))
            return "pieces" if i[1] else None
        if "t" in c:
            if len(c["t"]) < 2 or not all(x.strip("-'") for x in c["t"]):
                return None
            (m,) = yield [("M", f, c["t"])]
            if m[0] == "E":
                return None
            w = m[1]
        else:
            w, m = c["w"], None
        (a,) = yield [("A", noc(f), w)]
        if a[0] == "E":
            return None
        (i,) = yield [("I", "", a[2])]
        if i != ["O", spans(a[2])]:
            raise Viol("indices", "%s = %s -> %s" % (w, a[2], i))
        if m:
            if m[3] != i[1]:
                raise Viol("build-indices", "%s(%s) -> %s %s, decomposed as %s" % (c["t"], f, w, m[3], a[2]))
            if len(m[3]) != len(c["t"]):
                raise Viol("count", "%s(%s) -> %s %s" % (c["t"], f, w, m[3]))
            return "tanru"
        return "word"


# ----------------------------------------------------------------------------------------------------------- C06

class C06(Word):
    id = "C06"
    rule = ("random words and near-words x settings, given to every analysing function; non-trivial when the word was accepted: pieces must spell "
            "the word, hyphens may only separate rafsi, and type, truth of is_brivla, veljvo and score must be consistent")
    quick, thorough = 17500, 87500

    def check(self, c):
        f, w = c["f"], c["w"]
        if not self.legal(c):
            return None
        a, b, v, s = yield [("A", f, w), ("B", f, w), ("V", f, w), ("S", f, w)]
        name = "%s(%s)" % (w, f)
        if a[0] == "E":
            if b != ["O", False] or v[0] != "E" or s[0] != "E":
                raise Viol("inconsistent", "%s is no word (%s) but is_brivla %s, veljvo %s, score %s" % (name, a[1], b[1], v[1], s[1]))
            return None
        ty, ps = a[1], a[2]
        n = gen.norm(w)
        if "".join(ps) != n:
            raise Viol("spelling", "%s -> %s" % (name, ps))
        if (ty == "CMEVLA") != (n[-1] in C):
            raise Viol("cmevla", "%s is %s" % (name, ty))
        if b != ["O", ty != "CMEVLA"]:
            raise Viol("is_brivla", "%s is %s but is_brivla %s" % (name, ty, b[1]))
        if ty in ("GISMU", "ZIhEVLA"):
            if ps != [n]:
                raise Viol("single", "%s is %s %s" % (name, ty, ps))
            if v[0] != "E" or s[0] != "E" or v[1] != "DecompositionError" or s[1] != "DecompositionError":
                raise Viol("no-lujvo", "%s is %s but veljvo %s, score %s" % (name, ty, v, s))
            return ty
        if not all(ps):
            raise Viol("empty-piece", "%s -> %s" % (name, ps))
        raf = [p for p in ps if p not in HYPHENS]
        if len(raf) < 2 or ps[0] in HYPHENS or ps[-1] in HYPHENS:
            raise Viol("pieces", "%s -> %s" % (name, ps))
        for i in range(len(ps) - 1):
            if ps[i] in HYPHENS and ps[i + 1] in HYPHENS:
                raise Viol("two-hyphens", "%s -> %s" % (name, ps))
            if ps[i] in "rn":
                nx = ps[i + 1]
                if gen.shape(ps[i - 1]) not in ("CVV", "CVhV") or nx[0] not in C or (ps[i] == "n") != (nx[0] == "r") or "F" in f:
                    raise Viol("rn-hyphen", "%s -> %s" % (name, ps))
        for p in raf:
            if "y" in p:
                raise Viol("y-in-rafsi", "%s -> %s" % (name, ps))
            if ty == "LUJVO" and not (gen.shape(p) and gen.phon_ok(p, "z" in f)):
                raise Viol("lujvo-shape", "%s is LUJVO %s" % (name, ps))
        if v[0] != "O" or len(v[1]) != len(raf) or s[0] != "O":
            raise Viol("veljvo", "%s = %s: veljvo %s, score %s" % (name, ps, v[1], s[1]))
        return ty


# ----------------------------------------------------------------------------------------------------------- C07

ODD = "aeiouy'bcdfgjklmnprstvxzhHqwAEIOUYBCDFGJKLMNPRSTVXZ,.- 019!?/\\\"&<>;:_\t\u00e9\u0130\u0131\u017f\u00df\u03a3\u4e2d\u200b\u2019\U0001f600\u0301\u212a"
ERR_A = {"NotBrivlaError"}
ERR_V = {"NotBrivlaError", "DecompositionError"}
ERR_L = {"NoLujvoFoundError", "NonLojbanCharacterError", "NotZihevlaError", "InvalidClusterError", "NotBrivlaError", "DecompositionError"}


class C07(Prop):
    id = "C07"
    rule = ("arbitrary strings (Lojban letters, punctuation, Unicode, control characters, very long words, near-words and random lists as tanru) "
            "x settings; non-trivial when the input is outside the plain Lojban alphabet, longer than 60 letters, or refused: the "
            "functions must return, and refuse only with their documented errors")
    quick, thorough = 30000, 150000

    def same(self, req, x, y):
        # the Rust version documents that it drops full stops at both ends, the others drop the first only
        return super().same(req, x, y) or any("." in t[1:] for t in ([req[2]] if isinstance(req[2], str) else req[2]))

    def odd(self, r, n):
        return "".join(r.choice(ODD) for _ in range(r.randint(0, n)))

    def pump(self, r):
        """A word with one of its parts many times: what takes twice as long with each more never ends."""
        s, u = gen.word(r), r.choice([gen.cmavo, gen.cmavo, gen.cvc, gen.ccv, gen.cvv, gen.cvhv, gen.word])(r)
        if r.random() < .3:
            i = r.randrange(len(s))
            u = s[i:i + r.randint(1, 6)]
        else:
            i = 0 if r.random() < .6 else r.randint(0, len(s))
        u += r.choice(["", "", "", "", "", "y", "'y"])
        return s[:i] + u * (r.randint(20, 60) if len(u) < 8 else 15) + s[i:]

    def case(self, r):
        f = gen.flags(r, True)
        k = r.random()
        if k < .25:
            s = self.odd(r, 12)
        elif k < .45:
            s = gen.word(r)
            for _ in range(r.choice([1, 1, 2])):
                i = r.randint(0, len(s))
                s = s[:i] + r.choice(ODD) + s[i + (r.random() < .5):]
        elif k < .6:
            s = gen.rand_str(r, 14, r.choice(["ymz'ia", "aeiou'y", "y'", "iuay'", "bcdfgjklmnprstvxz", "'yaeioubcdfgjklmnprstvxz", "yrn'ae", "trsni'y"]))
        elif k < .615:
            s = "".join(gen.word(r) for _ in range(r.randint(6, 30)))
        elif k < .62:
            s = r.choice(["a", "y", "'y", "ba", "iu", "b", "a'", "lat", "ia'y", "bra'y", "zmo", "tai", "latmo", "re'e", "r", "skr", "a'y'i"]) * r.randint(20, 60)
        elif k < .635:
            s = self.pump(r)
        else:
            s = gen.mutate(r, gen.word(r))
        if r.random() < .5:
            return {"f": noc(f), "w": s}
        k = r.random()
        if k < .4:
            t = [x for x in gen.tanru(r)]
            i = r.randrange(len(t))
            t[i] = gen.mutate(r, t[i]) if r.random() < .6 else "-" + gen.mutate(r, t[i].strip("-") or "a") + "-"
            if r.random() < .2:
                t[i] = self.odd(r, 6)
        elif k < .42:
            i = r.randrange(len(t := gen.tanru(r)))
            if r.random() < .4:
                t[i] = self.pump(r)
            else:
                t[i:i] = [gen.tanru(r)[0]] * r.randint(15, 40)
        elif k < .7:
            t = [r.choice(["-", "", ""]) + gen.word(r)[:r.randint(1, 12)] + r.choice(["-", "-", ""]) for _ in range(r.randint(2, 4))]
        else:
            t = [r.choice(["-", ""]) + gen.rand_str(r, 5, "aeiou'ybcdfgjklmnprstvxz") + r.choice(["-", ""]) for _ in range(r.randint(2, 5))]
        return {"f": f, "t": t}

    def check(self, c):
        f = c["f"]
        if "t" in c:
            t = c["t"]
            # components without a letter have no documented meaning; blanks separate words
            if len(t) < 2 or any(not x.strip("-'.,\u200b") or re.search(r"[\s\x00-\x20\x7f-\xa0\x1c-\x1f]", x) or x.strip(".,") in ("-", "--") or not re.search("[a-zA-Z]", x) for x in t):
                return None
            m, g = yield [("M", f, t), ("H", f, t)]
            for x in (m, g):
                if x[0] == "E" and x[1] not in ERR_L:
                    raise Viol("error-" + x[1], "%r(%s) -> %s" % (t, f, x))
            if m[0] != g[0] or m[1] != g[1]:
                raise Viol("differ", "%r(%s): %s / %s" % (t, f, m, g))
            return "refused tanru" if m[0] == "E" else "odd tanru" if not all(LETTERS.fullmatch(x.strip("-")) for x in t) else None
        w = c["w"]
        a, b, v, s = yield [("A", f, w), ("B", f, w), ("V", f, w), ("S", f, w)]
        if a[0] == "E" and a[1] not in ERR_A:
            raise Viol("error-" + a[1], "analyse %r(%s) -> %s" % (w[:80], f, a))
        if b[0] == "E":
            raise Viol("error-" + b[1], "is_brivla %r(%s) -> %s" % (w[:80], f, b))
        for x, nm in ((v, "veljvo"), (s, "score")):
            if x[0] == "E" and x[1] not in ERR_V:
                raise Viol("error-" + x[1], "%s %r(%s) -> %s" % (nm, w[:80], f, x))
        if a[0] == "O" and not LETTERS.fullmatch("".join(a[2])):
            raise Viol("letters", "%r(%s) accepted as %s" % (w, f, a))
        if a[0] == "E":
            return "refused word"
        return "long word" if len(w) > 60 else "odd word" if not LETTERS.fullmatch(w) else None


# ----------------------------------------------------------------------------------------------------------- C08

class C08(Prop):
    id = "C08"
    rule = ("random words and tanru x settings, respelled at random (capitals, h for the apostrophe, commas, a leading full stop); non-trivial when "
            "the respelling differs and the word or tanru is accepted: every function must answer as for the normal spelling")
    quick, thorough = 12500, 62500

    def respell(self, r, w):
        o = ""
        for i, ch in enumerate(w):
            if r.random() < .12:
                o += ","
            if ch == "'" and r.random() < .5:
                ch = r.choice("hhH")
            elif r.random() < .2:
                ch = ch.upper()
            o += ch
        if r.random() < .1:
            o += ","
        if r.random() < .25:
            o = "." + o
        return o

    def case(self, r):
        f = gen.flags(r, True)
        if r.random() < .5:
            w = gen.norm(gen.word(r))
            if r.random() < .3:
                w = "".join(gen.good_lujvo(r, "F" if "F" in f else "", r.random() < .2, mz="z" in f))
            return {"f": noc(f), "w": w, "u": self.respell(r, w)}
        t = [gen.norm(x) for x in gen.tanru(r, True, exp="r" in f)]
        u = []
        for x in t:
            a, b = x.startswith("-"), x.endswith("-")
            y = self.respell(r, x.strip("-"))
            u.append(("." if a and y[:1] == "." else "") + ("-" if a else "") + y.lstrip("." if a else "") + ("-" if b else ""))
        return {"f": f, "t": t, "u": u}

    def simpler(self, c):
        from engine import simpler
        k = "w" if "w" in c else "t"
        if k == "w":
            for x in simpler(c["u"]):
                yield dict(c, u=x, w=gen.norm(x))
        else:
            for x in simpler(c["u"]):
                yield dict(c, u=x, t=[gen.norm(y) for y in x])
        for x in [c["f"][:i] + c["f"][i + 1:] for i in range(len(c["f"]))]:
            yield dict(c, f=x)

    def check(self, c):
        f = c["f"]
        if "w" in c:
            w, u = c["w"], c["u"]
            if not w or gen.norm(u) != w or "." in w:
                return None
            x = yield [(o, f, w) for o in "AVSB"]
            y = yield [(o, f, u) for o in "AVSB"]
        else:
            w, u = c["t"], c["u"]
            if len(w) < 2 or not all(i.strip("-'") for i in w) or any("." in i for i in w):
                return None
            x = yield [(o, f, w) for o in "MH"]
            y = yield [(o, f, u) for o in "MH"]
        for a, b in zip(x, y):
            if e(a) != e(b):
                raise Viol("respelled", "%s(%s): %s, but %s: %s" % (w, f, a, u, b))
        if u != w and x[0][0] == "O":
            return "word" if "w" in c else "tanru"
        return None


# ----------------------------------------------------------------------------------------------------------- C09

class C09(Prop):
    id = "C09"
    rule = ("every string of the shapes CVCCV and CCVCV (245,650; with allow_mz as well: the whole space in the thorough tier, a different random "
            "third per seed in the quick tier) and five-letter strings of other shapes: GISMU exactly when the cluster is permitted. "
            "Non-trivial: the gismu")
    quick, thorough = 11000, 0

    def space(self):
        for a in C:
            for b in C:
                for c in C:
                    for v in "aeiou":
                        for u in "aeiou":
                            yield a + v + b + c + u
                            yield a + b + v + c + u

    def cases(self, r, n, shard):
        sp = list(self.space())
        if self.tier == "quick" and n:
            for _ in range(n):
                if r.random() < .9:
                    w = r.choice(sp)
                elif r.random() < .5:
                    w = r.choice(gen.GISMU)
                else:
                    w = gen.mutate(r, r.choice(gen.GISMU), 1)
                yield {"f": r.choice(gen.ALL_FLAGS), "w": w}
        else:
            for i, w in enumerate(sp):
                if i % 8 == shard:
                    for f in ("", "z", r.choice(gen.ALL_FLAGS)):
                        yield {"f": f, "w": w}

    def check(self, c):
        f, w = c["f"], c["w"]
        if not w:
            return None
        a, b = yield [("A", f, w), ("B", f, w)]
        g = model.is_gismu(w, "z" in f)
        if g != (a[0] == "O" and a[1] == "GISMU"):
            raise Viol("gismu", "%s(%s) -> %s, expected %sGISMU" % (w, f, a, "" if g else "no "))
        if g and (a[2] != [w] or b != ["O", True]):
            raise Viol("gismu-pieces", "%s(%s) -> %s" % (w, f, a))
        return "mz" if g and w[2:4] == "mz" else "gismu" if g else None


# ----------------------------------------------------------------------------------------------------------- C10

class C10(Prop):
    id = "C10"
    rule = ("random words and near-words, and accepted words damaged by one edit, x settings; non-trivial when accepted: an accepted word must break "
            "no phonotactic rule (independent rule list), and so must every lujvo that is built")
    quick, thorough = 20000, 100000

    def case(self, r):
        f = gen.flags(r, True)
        if r.random() < .3:
            return {"f": f, "t": gen.tanru(r, exp="r" in f)}
        k = r.random()
        w = gen.cluster_zih(r) if k < .1 else gen.good_zih(r) if k < .2 else "".join(gen.good_lujvo(r, "F" if "F" in f else "", r.random() < .2)) if k < .4 else gen.ext_lujvo(r) if k < .6 else gen.word(r)
        if r.random() < .5:
            w = gen.mutate(r, w, 1)
        return {"f": noc(f), "w": w or "a"}

    def check(self, c):
        f = noc(c["f"])
        if "t" in c:
            if len(c["t"]) < 2 or not all(x.strip("-'") for x in c["t"]):
                return None
            (m,) = yield [("M", c["f"], c["t"])]
            if m[0] == "E":
                return None
            w = m[1]
        else:
            w = c["w"]
            if not w:
                return None
            (a,) = yield [("A", f, w)]
            if a[0] == "E":
                return None
        n = gen.norm(w)
        p = model.phon_violation(n, f)
        if p:
            raise Viol("phonotactics", "%s(%s) is accepted: %s" % (w, f, p))
        return "tanru" if "t" in c else a[1]


# ----------------------------------------------------------------------------------------------------------- C11 C12

class C11(Prop):
    id = "C11"
    rule = ("rafsi sequences hyphenated by the CLL rules, damaged ones, and random words, x hyphen and mz settings; the word must be a "
            "LUJVO with the given pieces exactly when an independent formulation of the CLL rules says so. Non-trivial when it is")
    quick, thorough = 25000, 125000

    def case(self, r):
        f = r.choice(["", "", "A", "F"]) + r.choice(["", "", "z"]) + r.choice(["", "", "r", "g", "rg"])
        k = r.random()
        if k < .75:
            w = "".join(gen.good_lujvo(r, r.choice(["", "F" if "F" in f else ""]), r.random() < .2, 5, r.random() < .3))
            if r.random() < .5:
                w = gen.mutate(r, w, 1)
        else:
            w = gen.norm(gen.word(r))
        return {"f": f, "w": w or "a"}

    def check(self, c):
        f, w = c["f"], c["w"]
        if not w or not LETTERS.fullmatch(w):
            return None
        (a,) = yield [("A", f, w)]
        m = model.cll_lujvo(w, f)
        cm = w[-1] in C
        if m and (a[0] == "E" or a[1] != ("CMEVLA" if cm else "LUJVO") or a[2] != m):
            raise Viol("refused", "%s(%s) is the lujvo %s by the CLL, got %s" % (w, f, m, a))
        if not m and a[0] == "O" and a[1] == "LUJVO":
            raise Viol("accepted", "%s(%s) is no lujvo by the CLL, got %s" % (w, f, a))
        return ("cmevla" if cm else "lujvo") if m else None


class C12(Prop):
    id = "C12"
    rule = ("random words without y (zi'evla, their near misses, lujvo, gismu), x settings: type and pieces must be those of an independent "
            "formulation of the morphology (syllables, clusters, falling apart, slinku'i). Non-trivial when it is a word")
    quick, thorough = 20000, 100000

    def case(self, r):
        f = gen.flags(r)
        k = r.random()
        for _ in range(40):
            w = gen.good_zih(r) if k < .2 else gen.zihevla(r) if k < .4 else gen.cluster_zih(r) if k < .7 else gen.norm(gen.word(r))
            if "y" not in w:
                break
        if r.random() < .35:
            w = gen.mutate(r, w, 1)
        if r.random() < .15:
            w = gen.cmavo(r) + w
        return {"f": f, "w": w.replace("y", "") or "a"}

    def check(self, c):
        f, w = c["f"], c["w"]
        if not w or not LETTERS.fullmatch(w) or "y" in w:
            return None
        (a,) = yield [("A", f, w)]
        m = model.classify(w, "".join(i for i in f if i in "AFz"))
        if w[-1] not in "aeiou":
            if a[0] == "O" and a[1] != "CMEVLA":
                raise Viol("not-vowel-final", "%s(%s) -> %s" % (w, f, a))
            return None
        if m is None:
            if a[0] == "O":
                raise Viol("accepted", "%s(%s) is no word by the morphology, got %s" % (w, f, a))
            return None
        if a != ["O", m[0], m[1]]:
            raise Viol("refused", "%s(%s) is %s by the morphology, got %s" % (w, f, m, a))
        return m[0]


class C33(Prop):
    id = "C33"
    rule = ("random words with y or a consonant at the end: parts (rafsi, zi'evla, cmavo) with the hyphens between them that the rules ask for, the same damaged by one edit, "
            "lujvo-like and random strings, x settings; type and pieces must be those of an independent formulation of the rules for parts, hyphens, "
            "clusters, glides and falling off. Non-trivial when it is a word")
    quick, thorough = 25000, 150000

    def case(self, r):
        f = gen.flags(r)
        for _ in range(20):
            k = r.random()
            w = gen.good_ext(r, f) if k < .6 else r.choice([gen.ext_lujvo, gen.ext_lujvo, gen.lujvoish, gen.glide_word, gen.vowelish, gen.word])(r)
            if r.random() < .25:
                w = gen.mutate(r, w, 1)
            if r.random() < .1:
                w = gen.cmavo(r) + w
            w = gen.norm(w)
            if "y" in w or w[-1:] in C and w:
                break
        return {"f": f, "w": w or "a"}

    def check(self, c):
        f, w = c["f"], c["w"]
        if not w or not LETTERS.fullmatch(w) or "y" not in w and w[-1] not in C or len(w) > 60:
            return None
        (a,) = yield [("A", f, w)]
        m = model.word(w, f)
        if m is None:
            if a[0] == "O":
                raise Viol("accepted", "%s(%s) is no word by the morphology, got %s" % (w, f, a))
            return None
        if a != ["O", m[0], m[1]]:
            raise Viol("refused", "%s(%s) is %s by the morphology, got %s" % (w, f, list(m), a))
        return m[0]


# ----------------------------------------------------------------------------------------------------------- C13 - C17

class Settings(Word):
    """Words and tanru that make a setting matter."""
    quick, thorough = 15000, 75000

    def case(self, r):
        f = gen.flags(r, True, .1)
        if r.random() < .3:
            return {"f": f, "t": gen.tanru(r, True, exp="r" in f or r.random() < .5)}
        k = r.random()
        w = gen.word(r) if k < .4 else gen.vowelish(r) if k < .6 else gen.ext_lujvo(r) if k < .75 else "".join(gen.good_lujvo(r, r.choice(["", "F"]), r.random() < .2, mz=r.random() < .3))
        return {"f": noc(f), "w": gen.norm(w) or "a"}

    def legal(self, c):
        return len(c["t"]) >= 2 and all(x.strip("-'") for x in c["t"]) if "t" in c else bool(c["w"] and LETTERS.fullmatch(c["w"]))

    def accepted(self, w, f, a, g, b):
        if a[0] == "O" and a != b:
            raise Viol("lost", "%s is %s under (%s) but %s under (%s)" % (w, a[1:], f, b[1:], g))

    def no_worse(self, t, f, m, g, m2):
        if m[0] == "O" and (m2[0] == "E" or m2[2] > m[2]):
            raise Viol("worse", "%s -> %s under (%s) but %s under (%s)" % (" ".join(t), m[1:3], f, m2[1:3], g))


RN = re.compile("[aeiou](r[^raeiouy']|nr)")


class C13(Settings):
    id = "C13"
    rule = ("random words and tanru x the other settings, compared under the three y_hyphens settings; non-trivial when accepted under at least one")

    def check(self, c):
        if not self.legal(c):
            return None
        f0 = rep(c["f"], "AF")
        if "t" in c:
            t = c["t"]
            s, a, d = yield [("M", f0 + x, t) for x in ("", "A", "F")]
            self.no_worse(t, f0, s, f0 + "A", a)
            for m in (s, a):
                if m[0] == "O" and d[0] == "E" and not any(RN.search(x) for x in t) and "r" not in f0 and set(f0) & set("12"):
                    raise Viol("force-lost", "%s -> %s without, %s with FORCE_Y" % (t, m[1:3], d))
            if d[0] == "O":
                (an,) = yield [("A", noc(f0) + "F", d[1])]
                if an[0] == "O" and any(p in ("r", "n") for p in an[2]):
                    raise Viol("force-rn", "%s -> %s under FORCE_Y" % (t, an[2]))
            if s[0] == "O":
                (an,) = yield [("A", noc(f0), s[1])]
                if an[0] == "O" and "c" not in f0 and len(an[2]) > 1 and an[2][1] == "'y" and gen.shape(an[2][0]) in ("CVV", "CVhV"):
                    raise Viol("standard-y", "%s -> %s under STANDARD" % (t, an[2]))
            return "tanru" if "O" in (s[0], a[0], d[0]) else None
        w = c["w"]
        s, a, d = yield [("A", f0 + x, w) for x in ("", "A", "F")]
        s, a, d = e(s), e(a), e(d)
        self.accepted(w, f0, s, f0 + "A", a)
        if "'y" not in w:
            if s != a:
                raise Viol("same", "%s(%s): %s under STANDARD, %s under ALLOW_Y" % (w, f0, s[1:], a[1:]))
            if not RN.search(w) and s != d:
                raise Viol("same", "%s(%s): %s under STANDARD, %s under FORCE_Y" % (w, f0, s[1:], d[1:]))
        elif not RN.search(w) and a != d and not (a[0] == d[0] == "O" and a[2] == d[2] and (a[1], d[1]) == ("EXTENDED_LUJVO", "LUJVO")):
            raise Viol("allow-force", "%s(%s): %s under ALLOW_Y, %s under FORCE_Y" % (w, f0, a[1:], d[1:]))
        if d[0] == "O" and d[1] != "CMEVLA" and any(p in ("r", "n") for p in d[2]):
            raise Viol("force-rn", "%s(%s) is %s under FORCE_Y" % (w, f0, d))
        ok = [x for x in (s, a, d) if x[0] == "O"]
        return None if not ok else "same" if s == a == d else "differ"


class C14(Settings):
    id = "C14"
    rule = "random words and tanru x the other settings, with and without exp_rafsi_shapes; non-trivial when accepted with it"

    def check(self, c):
        if not self.legal(c):
            return None
        f = rep(c["f"], "r")
        if "t" in c:
            m, m2 = yield [("M", f, c["t"]), ("M", f + "r", c["t"])]
            self.no_worse(c["t"], f, m, f + "r", m2)
            return ("tanru" if m[0] == "O" else "tanru only with") if m2[0] == "O" else None
        w = c["w"]
        a, b = yield [("A", f, w), ("A", f + "r", w)]
        self.accepted(w, f, a, f + "r", b)
        if a[0] == "E" and b[0] == "O":
            # what is new must use a rafsi that is no CLL rafsi: a cmavo shape
            raf = [p for p in b[2] if p not in HYPHENS]
            if not any(re.fullmatch("[%s]?[aeiou']+" % C, p) for p in raf):
                raise Viol("new", "%s is refused under (%s) but %s under (%s)" % (w, f, b[1:], f + "r"))
            return "only with"
        return "both" if b[0] == "O" else None


class C15(Settings):
    id = "C15"
    rule = "random words and tanru x the other settings, under the three consonants settings; non-trivial when accepted with ONE_CONSONANT"

    def check(self, c):
        if not self.legal(c):
            return None
        f = rep(c["f"], "12")
        if "t" in c:
            x, y, z = yield [("M", f + k, c["t"]) for k in ("", "2", "1")]
            self.no_worse(c["t"], f, x, f + "2", y)
            self.no_worse(c["t"], f + "2", y, f + "1", z)
            return ("tanru" if x[0] == "O" else "tanru two" if y[0] == "O" else "tanru one") if z[0] == "O" else None
        w = c["w"]
        x, y, z = yield [("A", f + k, w) for k in ("", "2", "1")]
        self.accepted(w, f, x, f + "2", y)
        self.accepted(w, f + "2", y, f + "1", z)
        if not (set(f) & set("AFr")) and e(x) != e(z):
            raise Viol("no-effect", "%s: %s under CLUSTER, %s under ONE_CONSONANT (%s)" % (w, x, z, f))
        if w[-1] in "aeiou" and z[0] == "O":
            if x[0] == "E" and re.search("[%s]{2}" % C, w) and not RN.search(w):
                raise Viol("cluster", "%s has a cluster but is refused under CLUSTER and %s under ONE_CONSONANT (%s)" % (w, z[1:], f))
            # a consonant, or with glides a glide, at the start of a part
            cons = len(re.findall("[%s]" % C, w))
            gl = len(re.findall("(?:^|y)[iu](?=[aeiou])", w)) if "g" in f else 0
            if y[0] == "O" and cons + gl < 2 or cons + gl < 1:
                raise Viol("count", "%s(%s) has %d consonants: %s / %s" % (w, f, cons + gl, y, z))
        return ("cluster" if x[0] == "O" else "two" if y[0] == "O" else "one") if z[0] == "O" else None


class C16(Settings):
    id = "C16"
    rule = "random words and tanru (many with glide-initial parts) x the other settings, with and without glides; non-trivial when accepted with it"

    def case(self, r):
        c = super().case(r)
        if r.random() < .5:
            c["f"] = noc(rep(c["f"], "r", "r"))
            if "t" in c:
                c["t"] = [x if r.random() < .5 else "-" + gen.glidish(r) + "-" for x in c["t"]]
            else:
                c["w"] = gen.glide_word(r)
        return c

    def check(self, c):
        if not self.legal(c):
            return None
        f = rep(c["f"], "g")
        if "t" in c:
            m, m2 = yield [("M", f, c["t"]), ("M", f + "g", c["t"])]
            self.no_worse(c["t"], f, m, f + "g", m2)
            if "r" not in f and (e(m)[:3] != e(m2)[:3]):
                raise Viol("no-effect", "%s: %s under (%s), %s with glides" % (c["t"], m, f, m2))
            return ("tanru" if m[0] == "O" else "tanru only with") if m2[0] == "O" else None
        w = c["w"]
        a, b = yield [("A", f, w), ("A", f + "g", w)]
        self.accepted(w, f, a, f + "g", b)
        if "r" not in f and e(a) != e(b):
            raise Viol("no-effect", "%s: %s under (%s), %s with glides" % (w, a, f, b))
        if a[0] == "E" and b[0] == "O" and not re.search("(^|y)[iu][aeiou]", w):
            raise Viol("new", "%s: %s under (%s), %s with glides" % (w, a, f, b))
        return ("both" if a[0] == "O" else "only with") if b[0] == "O" else None


class C17(Settings):
    id = "C17"
    rule = "random words and tanru (many with m before z) x the other settings, with and without allow_mz; non-trivial when accepted with it"

    def case(self, r):
        c = super().case(r)
        if r.random() < .5:
            if "t" in c:
                c["t"] = (c["t"] + [r.choice(gen.GISMU)])[:5] if len(c["t"]) < 2 else c["t"]
                i = r.randrange(len(c["t"]) - 1)
                c["t"][i] = r.choice(["-%s%sm-" % (r.choice(C), r.choice("aeiou")), r.choice([g for g in gen.GISMU if any(x[-1] == "m" for x in gen.RAFSI[g])])])
                c["t"][i + 1] = r.choice(["-z%s%s-" % (r.choice("aeiou"), r.choice(C)), r.choice([g for g in gen.GISMU if g[0] == "z"])])
            else:
                w = c["w"]
                m = list(re.finditer("[%s]{2}" % C, w))
                if m:
                    i = r.choice(m).start()
                    c["w"] = w[:i] + r.choice(["mz", "mz", "myz"]) + w[i + 2:]
        return c

    def check(self, c):
        if not self.legal(c):
            return None
        f = rep(c["f"], "z")
        if "t" in c:
            m, m2 = yield [("M", f, c["t"]), ("M", f + "z", c["t"])]
            self.no_worse(c["t"], f, m, f + "z", m2)
            if m[0] == "O" and "mz" in m[1]:
                raise Viol("mz-built", "%s -> %s without allow_mz" % (c["t"], m[1]))
            return ("tanru mz" if "mz" in m2[1] else "tanru") if m2[0] == "O" else None
        w = c["w"]
        a, b = yield [("A", f, w), ("A", f + "z", w)]
        if a[0] == "O":
            if "mz" in w:
                raise Viol("mz", "%s(%s) is %s" % (w, f, a[1:]))
            if b[0] == "E" or b[2] != a[2] or b[1] != a[1] and ((a[1], b[1]) != ("LUJVO", "EXTENDED_LUJVO") or not re.search("m'?y'?z", w)):
                raise Viol("lost", "%s is %s under (%s), %s with allow_mz" % (w, a[1:], f, b[1:]))
        if not re.search("m'?y?'?z", w) and e(a) != e(b):
            raise Viol("no-effect", "%s: %s under (%s), %s with allow_mz" % (w, a, f, b))
        if b[0] == "E":
            return None
        return "mz" if "mz" in w else "both"
