"""The listed properties as executable checks, continued (see props.py)."""
import itertools
import json
import re

import gen
import model
from engine import REFUSALS, Prop, Viol, simpler
from gen import C
from model import HYPHENS
from props import LETTERS, LUJ, Settings, Tanru, Word, all_forms, e, kind, noc, rep, same_component


def has_vowel_only(t):
    """A component with a rafsi made of vowels only (see the recorded findings)."""
    return any(re.fullmatch("[aeiou']+", x.strip("-")) or any(re.fullmatch("[aeiou']+", y) for y in gen.RAFSI.get(x, [])) for x in t)


# ----------------------------------------------------------------------------------------------------------- C18

class C18(Prop):
    id = "C18"
    rule = ("random words, near-words, tanru and piece lists x settings given to every function of the Python, the TypeScript (freshly compiled), the "
            "shipped JavaScript and the Rust implementation: all answers must be the same. Non-trivial when the input was accepted")
    quick, thorough = 25000, 125000

    def case(self, r):
        f = gen.flags(r, True)
        k = r.random()
        if k < .5:
            w = gen.word(r) if r.random() < .7 else r.choice([gen.ext_lujvo, gen.vowelish, gen.glide_word, gen.good_zih])(r)
            return {"f": noc(f), "w": w}
        t = gen.tanru(r, exp="r" in f)
        if r.random() < .15:
            t = [gen.mutate(r, x, 1) if r.random() < .4 else x for x in t]
        return {"f": f, "t": t}

    def check(self, c):
        f = c["f"]
        if "w" in c:
            w = c["w"]
            if not w:
                return None
            a, b, v, s = yield [(o, f, w) for o in "ABVS"]
            if a[0] == "O":
                yield [("I", "", a[2])]
            return a[1] if a[0] == "O" else None
        t = c["t"]
        if len(t) < 2 or not all(x.strip("-'") and " " not in x for x in t):
            return None
        m, g, l = yield [("M", f, t), ("H", f, t), ("L", f, " ".join(t))]
        return "tanru %d" % len(t) if m[0] == "O" else None


# ----------------------------------------------------------------------------------------------------------- C19

class C19(Prop):
    id = "C19"
    rule = ("every word of the rafsi list: the list each implementation uses must be the published one (2,021 words, 1,650 rafsi), no rafsi may have two "
            "owners; then every (word, rafsi) pair, and every gismu's four-letter form, placed at random in random lujvo: decomposition must name that "
            "word, and every rafsi must be available when a tanru with the word is built. Non-trivial: each placement that is a lujvo")
    quick, thorough = 15000, 75000

    def cases(self, r, n, shard):
        pairs = sorted((w, x) for w, l in gen.RAFSI.items() for x in l)
        pairs += sorted((w, w[:4]) for w in gen.GISMU if model.owner(w[:4]) == w)
        pairs = pairs[shard::8]
        yield {"table": 1}
        for i in range(n):
            w, x = pairs[i % len(pairs)]
            yield {"w": w, "x": x, "o": r.choice(["latmo", "broda", "klama", "zmiku", "jinzi", "spati"]), "end": r.random() < .5}

    def simpler(self, c):
        return []

    def same(self, req, x, y):
        if req[0] == "T":
            return all(i[0] == "O" for i in (x, y)) and sorted([w, sorted(l)] for w, l in x[1]) == sorted([w, sorted(l)] for w, l in y[1])
        return super().same(req, x, y)

    def check(self, c):
        if "table" in c:
            (t,) = yield [("T", "", "")]
            got = {w: sorted(l) for w, l in t[1]}
            ref = {w: sorted(l) for w, l in gen.RAFSI.items()}
            if got != ref:
                d = sorted(w for w in set(got) | set(ref) if got.get(w) != ref.get(w))
                raise Viol("table", "rafsi list: %s" % [(w, got.get(w), ref.get(w)) for w in d[:5]])
            seen = {}
            for w, l in t[1]:
                for x in l:
                    if seen.setdefault(x, w) != w:
                        raise Viol("owners", "%s is a rafsi of %s and %s" % (x, seen[x], w))
            return "table"
        w, x, o = c["w"], c["x"], c["o"]
        end = c["end"] and len(x) == 3 or len(x) == 4 and "'" in x and c["end"]
        ps = gen.hyphenate([o[:3] if gen.shape(o[:3]) and gen.phon_ok(o[:3]) and len(o) == 5 else "lat", x], "", x[-1] in C) if end else \
            gen.hyphenate([x, o])
        lw = "".join(ps)
        a, v = yield [("A", "", lw), ("V", "", lw)]
        res = None
        if a[0] == "O" and a[2] == ps:
            got = v[1][-1 if end else 0]
            if got != w:
                raise Viol("owner", "%s = %s: %s is a rafsi of %s, but veljvo %s" % (lw, ps, x, w, v[1]))
            res = "decomposed"
        # the rafsi of w are the ones lujvo are built from: building with x forced is never better than building with w
        t = ["mlatu", w] if end else [w, o]
        u = ["mlatu", "-" + x + "-"] if end else ["-" + x + "-", o]
        cm = "c" if end and x[-1] in C else ""
        m, k = yield [("M", cm, t), ("M", cm, u)]
        if k[0] == "O" and (m[0] == "E" or m[2] > k[2]):
            raise Viol("unused", "%s -> %s, but with the rafsi %s of %s: %s" % (t, m, x, w, k))
        return res


# ----------------------------------------------------------------------------------------------------------- C20

class C20(Word):
    id = "C20"
    rule = ("random words and lujvo of all kinds x settings; non-trivial when it is a lujvo: each entry of the veljvo must be the listed word of the part, "
            "else the part itself if it is a brivla, with a final hyphen if it is a brivla without its last vowel, between hyphens otherwise")
    quick, thorough = 20000, 100000

    def case(self, r):
        f = gen.flags(r)
        k = r.random()
        w = gen.ext_lujvo(r) if k < .4 else "".join(gen.good_lujvo(r, "F" if "F" in f else "", r.random() < .2, mz="z" in f)) if k < .6 else gen.word(r)
        return {"f": f, "w": w}

    def name(self, p, nxt, f):
        o = model.owner(p)
        if o:
            return o, "listed"
        short = kind(p + "a", f) is not None and p[-1:] != ""
        if nxt and nxt[0] == "y" and short:
            return p + "-", "short"
        if kind(p, f):
            return p, "full"
        if nxt is None and short:
            return p + "-", "short final"
        return "-" + p + "-", "unlisted"

    def check(self, c):
        f, w = c["f"], c["w"]
        if not self.legal(c):
            return None
        a, v = yield [("A", f, w), ("V", f, w)]
        if a[0] == "E" or a[1] not in LUJ:
            return None
        ps = a[2]
        want = [self.name(p, ps[i + 1] if i + 1 < len(ps) else None, f) for i, p in enumerate(ps) if p not in HYPHENS]
        if v != ["O", [x for x, _ in want]]:
            raise Viol("naming", "%s(%s) = %s: veljvo %s, expected %s" % (w, f, ps, v[1], [x for x, _ in want]))
        return "+".join(sorted({k for _, k in want}))


# ----------------------------------------------------------------------------------------------------------- C21

class C21(Prop):
    id = "C21"
    rule = ("random histories of 2-10 calls (the same few words and tanru under changing settings and functions), each run in processes of their own: in order; "
            "shuffled with repetitions and with every returned list and passed-in list vandalised by the caller; each call alone; and (Python, Rust) all at once in "
            "threads: every call must get the same answer each time, and leave its arguments alone. Non-trivial when at least two calls were accepted")
    quick, thorough = 180, 1500
    names = ["py", "js", "docs", "rs"]

    def case(self, r):
        n = r.choice([2, 3, 4, 6, 8, 10])
        ws = [gen.ext_lujvo(r) if r.random() < .4 else "".join(gen.good_lujvo(r, mz=r.random() < .3)) if r.random() < .5 else r.choice(gen.SEED_WORDS) for _ in range(r.randint(1, 3))]
        ts = [gen.tanru(r, True) for _ in range(r.randint(1, 2))]
        if r.random() < .3:
            ts[0] = [r.choice([x.upper(), "." + x, x[:1] + "," + x[1:], x.replace("'", "h")]) for x in ts[0]]
        if r.random() < .2:
            ws[0] = r.choice([ws[0].upper(), "." + ws[0], ws[0].replace("'", "h")])
        seq = []
        for _ in range(n):
            f = gen.flags(r, True)
            k = r.random()
            if k < .5:
                seq.append([r.choice("AVSBAV"), noc(f), r.choice(ws)])
            elif k < .93:
                seq.append([r.choice("MH"), f, r.choice(ts)])
            else:
                seq.append(["I", "", ["lat", "y", "kerlo", "'y", "e"]])
        order = [r.randrange(n) for _ in range(n)]
        order += [i for i in range(n) if i not in order]
        r.shuffle(order)
        return {"seq": seq, "order": order}

    def simpler(self, c):
        s = c["seq"]
        for i in range(len(s)):
            if len(s) > 1:
                yield {"seq": s[:i] + s[i + 1:], "order": [x - (x > i) for x in c["order"] if x != i]}
        for i in range(len(c["order"])):
            yield {"seq": s, "order": c["order"][:i] + c["order"][i + 1:]}
        for i, (o, f, a) in enumerate(s):
            for j in range(len(f)):
                yield {"seq": s[:i] + [[o, f[:j] + f[j + 1:], a]] + s[i + 1:], "order": c["order"]}

    def check(self, c):
        seq, order = c["seq"], c["order"]
        if any(i >= len(seq) for i in order) or any(o in "MH" and not (len(t) >= 2 and all(x.strip("-',.hH") and " " not in x for x in t)) for o, _, t in seq):
            return None
        low = {"A": "a", "V": "v", "M": "m", "I": "i"}
        second = [[low.get(seq[i][0], seq[i][0])] + seq[i][1:] for i in order]
        k = len(seq) - 1
        x, y, z, t = yield [("@", "", json.dumps(seq)), ("@", "", json.dumps(second)), ("@", "", json.dumps([seq[k]])), ("@", "t", json.dumps(seq))]
        for v in (x, y, z, t):
            if v[0] == "E":
                raise Viol("crash", "%s: %s" % (seq, v))
            for q in v[1]:
                if q[0] == "E" and (q[1] == "ARGUMENT-CHANGED" or q[1] not in REFUSALS):
                    raise Viol("argument" if q[1] == "ARGUMENT-CHANGED" else "error", "%s: %s" % (seq, q))
        for i, j in enumerate(order):
            if e(y[1][i]) != e(x[1][j]):
                raise Viol("order", "%s answers %s; in the history %s it answers %s" % (seq[j], x[1][j], second[:i + 1], y[1][i]))
        if e(z[1][0]) != e(x[1][k]):
            raise Viol("history", "%s answers %s alone, %s after %s" % (seq[k], z[1][0], x[1][k], seq[:k]))
        for i in range(len(seq)):
            if e(t[1][i]) != e(x[1][i]):
                raise Viol("threads", "%s answers %s, among concurrent calls %s" % (seq[i], x[1][i], t[1][i]))
        n = sum(q[0] == "O" for q in x[1])
        return "%d calls" % len(seq) if n >= 2 else None

    def same(self, req, x, y):
        if x[0] == "O" and y[0] == "O" and len(x[1]) == len(y[1]):
            return all(super(C21, self).same(q, e(a), e(b)) for q, a, b in zip([("M",)] * len(x[1]), x[1], y[1]))
        return x == y


# ----------------------------------------------------------------------------------------------------------- C22

LET = "cSAFC21rgz"


def parse_model(s):
    """Settings from a string, by the documentation of the Rust crate; None: an error."""
    if any(x not in LET for x in s) or any(s.count(x) > 1 for x in "crgz"):
        return None
    if sum(x in "SAF" for x in s) > 1 or sum(x in "C21" for x in s) > 1:
        return None
    return ("c" in s, "A" if "A" in s else "F" if "F" in s else "", "2" if "2" in s else "1" if "1" in s else "", "r" in s, "g" in s, "z" in s)


def show(m):
    return ("c" if m[0] else "") + m[1] + m[2] + ("r" if m[3] else "") + ("g" if m[4] else "") + ("z" if m[5] else "")


def toggle_model(m, s):
    if any(x not in LET for x in s):
        return None
    m = list(m)
    for x in s:
        if x in "crgz":
            i = {"c": 0, "r": 3, "g": 4, "z": 5}[x]
            m[i] = not m[i]
        elif x in "SAF":
            m[1] = "" if x == "S" or m[1] == x else x
        else:
            m[2] = "" if x == "C" or m[2] == x else x
    return tuple(m)


class C22(Prop):
    id = "C22"
    rule = ("random flag strings parsed by the Rust crate, and random sequences of flag strings applied one after another as in interactive mode, against a model of "
            "the documented flags; the list of all settings must be the 144 combinations. Non-trivial: strings that parse to something other than the default, "
            "and sequences that change something")
    quick, thorough = 15000, 75000
    names = ["rs"]
    build_js = False

    def case(self, r):
        def fl(n, bad=.1):
            return "".join(r.choice(LET) if r.random() > bad * .3 else r.choice("aRZG3sf- ,0\u00e9") for _ in range(r.randint(0, n)))
        if r.random() < .01:
            return {"all": 1}
        if r.random() < .5:
            if r.random() < .5:
                l = list(r.choice(gen.ALL_FLAGS) + r.choice(["", "c"]) + r.choice(["", "", r.choice(LET)]))
                r.shuffle(l)
                return {"s": "".join(l)}
            return {"s": fl(8)}
        return {"a": r.choice(["", "c"]) + r.choice(gen.ALL_FLAGS), "u": [fl(4) for _ in range(r.randint(1, 6))]}

    def check(self, c):
        if "all" in c:
            (z,) = yield [("Z", "", "")]
            want = {x + y for x in ("", "c") for y in gen.ALL_FLAGS}
            if sorted(z[1]) != sorted(want):
                raise Viol("iterator", "%s" % z)
            return "all"
        if "s" in c:
            s = c["s"]
            (p,) = yield [("P", "", s)]
            m = parse_model(s)
            if (m is None) != (p[0] == "E"):
                raise Viol("parse", "%r parses to %s, expected %s" % (s, p, m))
            if m is None:
                return "refused"
            if p[1] != show(m):
                raise Viol("parse", "%r parses to %s, expected %s" % (s, p, show(m)))
            (q,) = yield [("P", "", p[1])]
            if q != p:
                raise Viol("round-trip", "%r -> %s -> %s" % (s, p, q))
            return "parsed" if p[1] else None
        m, f = parse_model(c["a"]), c["a"]
        if m is None:
            return None
        ch = False
        for u in c["u"]:
            (p,) = yield [("F", f, u)]
            n = toggle_model(m, u)
            if (n is None) != (p[0] == "E"):
                raise Viol("apply", "(%s) + /%s -> %s, expected %s" % (f, u, p, n))
            if n is None:
                continue
            if p[1] != show(n):
                raise Viol("apply", "(%s) + /%s -> %s, expected %s" % (f, u, p[1], show(n)))
            ch = ch or n != m
            m, f = n, p[1]
        return "applied" if ch else None


# ----------------------------------------------------------------------------------------------------------- C23

class C23(Tanru):
    id = "C23"
    rule = ("random tanru x settings, as brivla and as cmevla; non-trivial when there is a cmevla: it must end in a consonant and analyse as CMEVLA, the brivla in a vowel; "
            "asking for a cmevla may not change how a word is analysed; a cmevla whose last part is a listed rafsi names the same words")
    quick, thorough = 7500, 37500

    def check(self, c):
        f, t = noc(c["f"]), c["t"]
        if not self.legal(c):
            return None
        b, m = yield [("M", f, t), ("M", "c" + f, t)]
        if b[0] == "O" and b[1][-1] not in "aeiou":
            raise Viol("brivla-end", "%s(%s) -> %s" % (t, f, b[1]))
        if m[0] == "E":
            return None
        w = m[1]
        if w[-1] not in C:
            raise Viol("cmevla-end", "%s(c%s) -> %s" % (t, f, w))
        a, i, v = yield [("A", f, w), ("B", f, w), ("V", f, w)]
        if a[0] == "E" or a[1] != "CMEVLA" or i != ["O", False]:
            raise Viol("cmevla", "%s(c%s) -> %s is %s, is_brivla %s" % (t, f, w, a, i))
        if any(p in HYPHENS and len(p) == 1 and p in "rn" and not k for k, p in enumerate(a[2])):
            raise Viol("cmevla-hyphen", "%s -> %s" % (w, a[2]))
        last = a[2][-1]
        if not same_component(t[-1], v[1][-1], last):
            raise Viol("last", "%s(c%s) -> %s: %s names %s" % (t, f, w, last, v[1][-1]))
        return "both" if b[0] == "O" else "cmevla only"


# ----------------------------------------------------------------------------------------------------------- C24

class C24(Prop):
    id = "C24"
    rule = ("random tanru made only of gismu and zi'evla, words that have a full form: whatever their number and the settings, a lujvo must exist and keep the "
            "number of parts. And a zi'evla joined by 'y to any brivla beginning with a consonant must be an EXTENDED_LUJVO of the two. Non-trivial: all with a word")
    quick, thorough = 12500, 62500

    def case(self, r):
        f = rep(gen.flags(r), "")
        if r.random() < .6:
            n = r.choice([2, 2, 2, 3, 3, 4, 5, 6])
            return {"f": f, "t": [r.choice(gen.GISMU) if r.random() < .65 else r.choice([gen.cvccv, gen.ccvcv])(r) if r.random() < .3 else gen.good_zih(r) for _ in range(n)]}
        w = gen.norm(gen.word(r)) if r.random() < .5 else r.choice(gen.GISMU) if r.random() < .5 else gen.ext_lujvo(r)
        return {"f": f, "z": gen.good_zih(r), "w": w}

    def check(self, c):
        f = c["f"]
        if "t" in c:
            t = c["t"]
            if len(t) < 2:
                return None
            ks = [kind(x, f) if x and "y" not in x and LETTERS.fullmatch(x) else None for x in t]
            if not all(k in ("GISMU", "ZIhEVLA") for k in ks):
                return None
            (m,) = yield [("M", f, t)]
            if m[0] == "E":
                raise Viol("none", "%s(%s) -> %s" % (t, f, m))
            if len(m[3]) != len(t):
                raise Viol("parts", "%s(%s) -> %s" % (t, f, m))
            return "tanru with zi'evla" if "ZIhEVLA" in ks else "gismu"
        z, w = c["z"], c["w"]
        if not w or not LETTERS.fullmatch(w) or not LETTERS.fullmatch(z) or kind(z, f) != "ZIhEVLA" or w[0] not in C:
            return None
        a, j = yield [("A", f, w), ("A", f, z + "'y" + w)]
        if a[0] == "E" or a[1] == "CMEVLA":
            return None
        rest = a[2]
        if j[0] == "E" or j[1] != "EXTENDED_LUJVO" or j[2] != [z, "'y"] + rest:
            raise Viol("join", "%s is %s, but %s'y%s is %s (%s)" % (w, a[1:], z, w, j[1:], f))
        return "joined " + a[1]


# ----------------------------------------------------------------------------------------------------------- C25

class C25(Prop):
    id = "C25"
    rule = ("random accepted brivla beginning with a consonant, with one or several cmavo put in front without a pause: what is heard as cmavo + word may not be a word "
            "itself; under STANDARD the last cmavo may end in 'y (README: rai'y mlatu, two words). Non-trivial when the word was accepted")
    quick, thorough = 20000, 100000

    def pre(self, r, y):
        return "".join(r.choice([r.choice(C) + r.choice("aeiou"), r.choice(C) + r.choice("aeiou"), gen.cvhv(r), r.choice(C) + r.choice(gen.DI)]) for _ in range(r.choice([1, 1, 1, 2, 3]))) + ("'y" if y and r.random() < .3 else "")

    def case(self, r):
        f = gen.flags(r)
        k = r.random()
        w = gen.ext_lujvo(r) if k < .3 else gen.good_zih(r) if k < .45 else "".join(gen.good_lujvo(r, "F" if "F" in f else "", mz="z" in f)) if k < .75 else gen.norm(gen.word(r))
        return {"f": f, "c": self.pre(r, "A" not in f and "F" not in f), "w": w}

    def check(self, c):
        f, p, w = c["f"], c["c"], c["w"]
        if not w or not LETTERS.fullmatch(w) or w[0] not in C or not re.fullmatch("([%s][aeiou]('?[aeiou])?)+('y)?" % C, p) \
                or p[-1] == "y" and ("A" in f or "F" in f):
            return None
        a, b = yield [("A", f, w), ("A", f, p + w)]
        if a[0] == "E" or a[1] == "CMEVLA":
            return None
        if b[0] == "O" and b[1] != "CMEVLA":
            raise Viol("joined", "%s is %s, and %s%s is %s (%s)" % (w, a[1:], p, w, b[1:], f))
        return a[1]


# ----------------------------------------------------------------------------------------------------------- C26

class C26(Tanru):
    id = "C26"
    rule = ("random tanru and words x settings, passed in every documented way: list or string with any blanks between the words; options by name, by position (Python), only "
            "those that differ from the default; no options at all for the default: same answer each way. Non-trivial when accepted")
    quick, thorough = 9000, 45000

    def case(self, r):
        c = super().case(r)
        if r.random() < .4:
            c = {"f": noc(c["f"]), "w": gen.norm(gen.word(r))}
        else:
            c["s"] = "".join(r.choice(["", "", " ", "  "]) if i == 0 else r.choice([" ", " ", "  ", "   ", "\t", " \n"]) for i in range(len(c["t"]))) 
            c["b"] = [r.choice([" ", " ", "  ", "   ", "\t", "\n", " \t "]) for _ in range(len(c["t"]) - 1)] + [r.choice(["", "", " ", "  ", "\n"]), r.choice(["", "", " ", "  "])]
            del c["s"]
        return c

    def simpler(self, c):
        from engine import simpler
        for k in c:
            for y in ([c[k][:i] + c[k][i + 1:] for i in range(len(c[k]))] if k == "f" else simpler(c[k]) if k != "b" else []):
                d = dict(c, **{k: y})
                if k == "t":
                    d["b"] = ([" "] * (len(y) - 1) + c["b"][-2:]) if len(y) != len(c["t"]) else c["b"]
                yield d
        if "b" in c:
            yield dict(c, b=[" "] * (len(c["t"]) - 1) + ["", ""])

    def check(self, c):
        f = c["f"]
        if "w" in c:
            w = c["w"]
            if not w or not LETTERS.fullmatch(w):
                return None
            base = yield [(o, f, w) for o in "AVSB"]
            var = []
            for h in "pm":
                var.append(("%s" % h, (yield [(o + h, f, w) for o in "AVSB"])))
            if f == "":
                var.append(("d", (yield [(o, "d", w) for o in "AVSB"])))
        else:
            t, b = c["t"], c["b"]
            if not self.legal(c) or len(b) != len(t) + 1 or any(re.search(r"\s", x) for x in t):
                return None
            s = b[-2] + "".join(x + y for x, y in zip(t, b)) if False else b[-2] + "".join(x + y for x, y in zip(t, b[:len(t) - 1] + [""])) + b[-1]
            base = yield [("M", f, t), ("H", f, t)]
            var = [("string", (yield [("L", f, s), ("G", f, s)]))]
            for h in "pm":
                var.append((h, (yield [("M" + h, f, t), ("H" + h, f, t)])))
                var.append((h + " string", (yield [("L" + h, f, " ".join(t)), ("G" + h, f, " ".join(t))])))
            if f == "":
                var.append(("d", (yield [("M", "d", t), ("H", "d", t)])))
                var.append(("d string", (yield [("L", "d", s), ("G", "d", s)])))
            if base[0][:2] != base[1][:2]:
                raise Viol("analytics", "%s(%s): get_lujvo %s, with analytics %s" % (t, f, base[1], base[0]))
        for h, x in var:
            if [e(i) for i in x] != [e(i) for i in base]:
                raise Viol("form-" + h.split()[0], "%s: %s, passed as %s: %s" % (c, base, h, x))
        return ("word" if "w" in c else "tanru") if base[0][0] == "O" else None


# ----------------------------------------------------------------------------------------------------------- C27

class C27(Tanru):
    id = "C27"
    rule = ("random tanru x settings; non-trivial when a lujvo was produced: between the hyphens it must consist of one permitted spelling of each component, in order (a listed "
            "rafsi, the word in full where a full word may stand, the word without its last vowel, or the rafsi that was given)")
    quick, thorough = 12500, 62500

    def check(self, c):
        f, t = c["f"], c["t"]
        if not self.legal(c):
            return None
        (m,) = yield [("M", f, t)]
        if m[0] == "E":
            return None
        w, ix = m[1], m[3]
        if len(ix) != len(t):
            raise Viol("parts", "%s(%s) -> %s" % (t, f, m))
        at, lab = 0, set()
        for i, (x, (a, b)) in enumerate(zip(t, ix)):
            h = w[at:a]
            if h not in HYPHENS and h != "" or i == 0 and h:
                raise Viol("hyphen", "%s(%s) -> %s: %r between parts" % (t, f, m, h))
            p = w[a:b]
            ks = [k for q, k in all_forms(gen.norm(x), f) if q == p]
            if not ks:
                raise Viol("spelling", "%s(%s) -> %s: %s stands for %s" % (t, f, w, p, x))
            nx = ix[i + 1][0] if i + 1 < len(ix) else len(w)
            h = w[b:nx]
            last = i + 1 == len(ix)
            ok = False
            for k in ks:
                if k == "cll":
                    good = last or h != "" or gen.shape(p) not in ("CVCC", "CCVC")
                elif k == "long":
                    good = last or h in ("'y", "'y'")
                elif k == "short":
                    good = last and "c" in f or h in ("y", "y'")
                else:
                    good = True
                ok = ok or good
            if not ok:
                raise Viol("place", "%s(%s) -> %s: %s (%s) followed by %r" % (t, f, w, p, ks, h))
            lab.add(ks[0])
            at = b
        if at != len(w):
            raise Viol("end", "%s(%s) -> %s" % (t, f, m))
        return "+".join(sorted(lab))


# ----------------------------------------------------------------------------------------------------------- C28

class C28(Prop):
    id = "C28"
    rule = ("random tanru and words given to the jvotci program, on the command line with flags and as lines of an interactive session with flag changes in between: it must "
            "print what the library answers under those settings, suggest the best lujvo for a worse one, and exit 1 exactly for refused input. Non-trivial "
            "when accepted")
    quick, thorough = 2800, 14000
    names = ["rs"]
    cli = True
    build_js = False

    def line(self, r, f):
        if r.random() < .45:
            return " ".join(gen.tanru(r, exp="r" in f))
        k = r.random()
        w = gen.ext_lujvo(r) if k < .3 else "".join(gen.good_lujvo(r, "F" if "F" in f else "", r.random() < .2)) if k < .6 else gen.word(r)
        if r.random() < .2:
            w = "".join(gen.lujvoish(r, 2))
        if r.random() < .15:
            w = r.choice(gen.ALLR + gen.WORDS)
        return w

    def case(self, r):
        f = gen.flags(r, True)
        if r.random() < .6:
            return {"f": f, "l": self.line(r, f)}
        ls = []
        for _ in range(r.randint(1, 6)):
            ls.append("/" + "".join(r.choice(LET) for _ in range(r.randint(1, 3))) if r.random() < .35 else self.line(r, f))
        return {"f": f, "u": ls}

    def simpler(self, c):
        from engine import simpler
        for k in c:
            for y in ([c[k][:i] + c[k][i + 1:] for i in range(len(c[k]))] if k == "f" else simpler(c[k])):
                yield dict(c, **{k: y})

    def plain(self, l):
        return l and l == l.strip() and re.fullmatch("[a-zA-Z', .-]+", l) and l[0] not in "/" and l.split(" ")[0][0] != "-" \
            and all(x.strip("-'.,") for x in l.split(" "))

    def expect(self, f, l):
        """Coroutine: the lines the program must print for the input line, and whether it is refused."""
        ws = l.split()
        if len(ws) > 1:
            (m,) = yield [("L", f, l)]
            if m[0] == "E":
                return None, True, None
            return [m[1]], False, "tanru"
        w = l
        n = gen.norm(w)
        if n.endswith("."):
            return "skip", None, None
        a, v, s = yield [("A", f, n), ("V", f, n), ("S", f, n)]
        out = []
        o = model.owner(n)
        if o:
            out.append("{%s} is a rafsi of {%s}" % (n, o))
        if n in gen.RAFSI:
            out.append("{%s} has rafsi {" % n)
        if a[0] == "E":
            return out or None, True, None
        ty = {"GISMU": "gismu", "ZIhEVLA": "zihevla", "LUJVO": "lujvo", "EXTENDED_LUJVO": "extended lujvo", "CMEVLA": "cmevla"}[a[1]]
        out.append(ty)
        if " ".join(a[2]) != n:
            out.append(" ".join(a[2]))
        if a[1] in LUJ:
            (m,) = yield [("L", f, " ".join(v[1]))]
            out += [str(s[1]), " ".join(v[1])]
            if m[0] == "O" and m[1] != n:
                out.append(("best", m[1], m[2]))
                if m[2] > s[1]:
                    return "skip", None, None          # C03's business (an ending in the wrong kind of letter, or a recorded finding)
            return out, False, a[1]
        return out, True, a[1]

    def match(self, want, got, ctx):
        """Each expected line must be there, in order."""
        i = 0
        for x in want:
            if isinstance(x, tuple):
                k = next((j for j in range(i, len(got)) if got[j].startswith("best: ")), None)
                m = k is not None and re.fullmatch(r"best: (\S+) \((\d+)\)", got[k])
                if not m or m.group(1).replace("-", "") != x[1] or int(m.group(2)) != x[2]:
                    raise Viol("best", "%s printed %s, expected best: %s (%d)" % (ctx, got, x[1], x[2]))
            else:
                k = next((j for j in range(i, len(got)) if got[j] == x or x.endswith("{") and got[j].startswith(x)), None)
                if k is None:
                    raise Viol("output", "%s printed %s, expected %r" % (ctx, got, x))
            i = k + 1

    def check(self, c):
        f = c["f"]
        if "l" in c:
            l = c["l"]
            if not self.plain(l):
                return None
            want, bad, lab = yield from self.expect(f, l)
            if want == "skip":
                return None
            (p,) = yield [("CLI", "", (["-" + f] if f else []) + l.split(" "))]
            if p[1] not in (0, 1) or (p[1] == 1) != bad:
                raise Viol("exit", "jvotci %s exits with %s and prints %s" % (c, p[1], p[2]))
            self.match(want or [], p[2], c)
            if any(x.startswith("best: ") for x in p[2]) and not any(isinstance(x, tuple) for x in want or []):
                raise Viol("best", "jvotci %s prints %s though it is the best" % (c, p[2]))
            return lab
        want, labs, cur, inp = [], [], parse_model(f), []
        for l in c["u"]:
            if l[:1] == "/":
                if set(l[1:]) <= set(LET) and len(l) > 1:
                    cur = toggle_model(cur, l[1:])
                    inp.append(l)
                continue
            if not self.plain(l):
                continue
            x, bad, lab = yield from self.expect(show(cur), l)
            if x == "skip":
                return None
            want += x or []
            inp.append(l)
            if lab:
                labs.append(lab)
        (p,) = yield [("TUI", "-" + f if f else "", inp + ["/q"])]
        got = [re.sub("^%s> " % "[cAF21rgz]*", "", x) for x in p[2]]
        got = [x for x in got if x]
        if p[1] != 0:
            raise Viol("exit", "session %s ends with %s: %s" % (c, p[1], p[2]))
        self.match(want, got, c)
        return "session" if labs else None


# ----------------------------------------------------------------------------------------------------------- C29

DIMS = [[("STANDARD", ""), ("ALLOW_Y", "A"), ("FORCE_Y", "F")], [("STD_RAF", ""), ("EXP_RAF", "r")],
        [("CLUSTER", ""), ("2_CON", "2"), ("1_CON", "1")], [("NO_GLIDE", ""), ("GLIDE", "g")], [("NOMZ", ""), ("MZ", "z")]]
COMBOS = list(itertools.product(*DIMS))
NAMED = {n: i for i, d in enumerate(DIMS) for n, _ in d}
M_RAFSI = [x for x in gen.ALLR if len(x) == 3 and x[2] == "m"]
Z_RAFSI = [x for x in gen.ALLR if x[0] == "z"]


class C29(Prop):
    id = "C29"
    rule = ("histories of events on the two HTML pages of the repository in a small document object model with a clock of its own: typing random words, tanru and rubbish, "
            "switching between brivla, cmevla and easy mode, changing the settings of the debugging page. After things have settled the page must show what the shipped "
            "JavaScript answers for what is in the field. On the demo page each of the 72 combinations of settings has exactly one cell, and only settings that matter are "
            "shown. Non-trivial when something other than refusals is shown")
    technique = "stateful property-based testing of the pages in a simulated document, against the library's own answers"
    note = ("Generated histories of events, not a proof. The pages run in a small document object model of ours (harness/js/page.js), not in a browser; "
            "the library's own answers (C18) are the reference.")
    quick, thorough = 140, 1500
    names = ["docs"]

    def text(self, r):
        k = r.random()
        f = "".join(r.choice(d)[1] for d in DIMS)
        if k < .2:
            t = " ".join(gen.tanru(r, exp=r.random() < .4))
        elif k < .5:                                        # what one setting or another makes a difference to
            l = gen.tanru(r, exp=r.random() < .7)[:2]
            i = r.randint(0, len(l))
            l[i:i] = ["-%s-" % r.choice(M_RAFSI), "-%s-" % r.choice(Z_RAFSI)]
            t = " ".join(l)
        elif k < .55:
            t = "".join(gen.good_lujvo(r, "F" if r.random() < .5 else "", r.random() < .3, mz=r.random() < .5))
        elif k < .6:
            t = gen.ext_lujvo(r)
        elif k < .8:
            t = gen.glide_word(r)
            if r.random() < .3:
                t = r.choice(M_RAFSI) + r.choice(Z_RAFSI) + r.choice(["y'", "", "'y"]) + t
        elif k < .9:
            t = gen.word(r)
        elif k < .94:
            t = r.choice(gen.ALLR + gen.WORDS)
        else:
            t = r.choice(["", " ", "<b>mlatu</b>", "mlatu <i>kerlo", "&lt;", "latkerlo.", ".i mi", "la'e zo'e", "constructor", "mlatu  kerlo", "\u00e1 b", "mi do", "'"])
        if r.random() < .25:
            t = r.choice(["", " ", "  ", "\u00a0"]) + t.replace(" ", r.choice([" ", " ", "  ", "\u00a0"])) + r.choice(["", " "])
        return t

    def case(self, r):
        ev = []
        if r.random() < .72:
            for _ in range(r.randint(1, 5)):
                k = r.random()
                if k < .5 or not ev:
                    t = self.text(r)
                    if r.random() < .3 and len(t) > 1:      # letter by letter
                        ev += [["t", t[:i]] for i in sorted(r.sample(range(1, len(t)), min(3, len(t) - 1)))]
                    ev.append(["t", t])
                elif k < .9:
                    ev.append([r.choice("bce")])
                else:
                    ev.append(["w", r.choice([0, 5, 14, 15, 100])])
                if r.random() < .35:
                    ev.append(["l"])
            return {"p": "demo", "e": ev}
        for _ in range(r.randint(1, 3)):
            for _ in range(r.choice([0, 1, 1, 2, 4])):
                k = r.randrange(8)
                if k == 0:
                    ev.append(["y", r.choice(["standard", "allow_y", "force_y"])])
                elif k == 1:
                    ev.append(["k", r.choice(["cluster", "two_consonants", "one_consonant"])])
                elif k == 2:
                    ev.append(["d"])
                else:
                    ev.append(["x", r.choice(["cmevla", "exp_rafsi", "glides", "mz"]), r.random() < .7])
            m = r.choice("VAL")
            ev.append(["m", m])
            ev.append(["t", " ".join(gen.tanru(r)) if m == "L" else self.text(r).replace("\u00a0", " ")])
            ev.append(["l"])
        return {"p": "debug", "e": ev}

    def simpler(self, c):
        e = c["e"]
        for i in range(len(e)):
            yield dict(c, e=e[:i] + e[i + 1:])
        for i, x in enumerate(e):
            if x[0] == "t":
                for y in simpler(x[1]):
                    yield dict(c, e=e[:i] + [["t", y]] + e[i + 1:])

    def grid(self, rows):
        """Each cell that shows an answer, with the names of settings above it and left of it."""
        g, out, top = {}, [], []
        for y, row in enumerate(rows):
            x = 0
            for c in row["cells"]:
                while (y, x) in g:
                    x += 1
                for dy in range(c["rs"]):
                    if y + dy < len(rows) and rows[y + dy]["sec"] == row["sec"]:
                        for dx in range(c["cs"]):
                            g[y + dy, x + dx] = c
                x += c["cs"]
        seen = {}
        for (y, x), c in sorted(g.items(), key=lambda i: i[0]):
            if c["t"] in NAMED or id(c) in seen:
                continue
            seen[id(c)] = 1
            left = {g[y, k]["t"] for k in range(x) if (y, k) in g} & set(NAMED)
            above = {g[k, x]["t"] for k in range(y) if (k, x) in g and rows[k]["sec"] != rows[y]["sec"]} & set(NAMED)
            out.append((left | above, c))
        heads = {rows[y]["sec"] for y, row in enumerate(rows) if any(c["t"] in NAMED for c in row["cells"])}
        n = len({row["sec"] for row in rows})
        # rows that hold nothing but names of settings (and empty corners) are no answers
        hs = [y for y, row in enumerate(rows) if row["cells"] and all(c["t"] in NAMED or c["t"] == "" and not c["cls"] for c in row["cells"])
              and any(c["t"] in NAMED for c in row["cells"])]
        body = [y for y in range(len(rows)) if y not in hs]
        bad = {id(c) for y in hs for c in rows[y]["cells"]} if n > 1 and body and max(hs, default=-1) < min(body) else set()
        return [(l, c) for l, c in out if id(c) not in bad]

    def expect(self, t, cm, easy):
        """Coroutine: text and colour for each combination of settings."""
        t = t.strip(" \u00a0")
        combos = [tuple(d[0] for d in DIMS)] if easy else COMBOS
        n = len(t.split())
        out = {}
        fs = ["".join(x[1] for x in c) for c in combos]
        if n == 0:
            return {tuple(x[0] for x in c): ("", "") for c in combos}
        if n == 1:
            rs = yield [q for f in fs for q in (("A", f, t), ("V", f, t))]
            for c, a, v in zip(combos, rs[::2], rs[1::2]):
                if a[0] == "E":
                    r = ("NOT BRIVLA", "red")
                else:
                    r = ("%s\n[%s]" % (a[1], ", ".join(a[2])), "yellow" if a[1] == "CMEVLA" else "green")
                    if a[1] in LUJ:
                        r = ("NOT BRIVLA", "red") if v[0] == "E" else (r[0] + "\n" + " ".join(v[1]), r[1])
                out[tuple(x[0] for x in c)] = r
        else:
            rs = yield [("G", ("c" if cm else "") + f, t) for f in fs]
            for c, g in zip(combos, rs):
                out[tuple(x[0] for x in c)] = ("NO LUJVO FOUND", "red") if g[0] == "E" else (g[1], "yellow" if cm else "green")
        return out

    def demo(self, c):
        ev, want, text, cm, easy, started = [], [], "", False, False, False
        for e in c["e"] + [["l"]]:
            if e[0] == "t":
                text, started = e[1], True
                ev.append(["type", "source", text])
            elif e[0] in "bc":
                if cm != (e[0] == "c"):
                    started = True
                cm = e[0] == "c"
                ev.append(["click", "cmevla" if cm else "brivla", "cmevla" if cm else "brivla"])
            elif e[0] == "e":
                easy, started = not easy, True
                ev.append(["click", "ezmode", "easy mode"])
            elif e[0] == "w":
                ev.append(["wait", e[1]])
            elif e[0] == "l" and started:
                ev.append(["look"])
                want.append((text, cm, easy, (yield from self.expect(text, cm, easy))))
        if not want:
            return None
        (p,) = yield [("PAGE", "index.html", ev)]
        if p[0] == "E" or len(p[1]) != len(want):
            raise Viol("page", "the demo page fails on %s: %s" % (ev, p))
        lab = None
        for (t, cm, easy, exp), look in zip(want, p[1]):
            ctx = "after %s (field %r%s%s)" % (ev, t, ", cmevla" if cm else "", ", easy mode" if easy else "")
            if look["on"] != [not cm, cm, easy]:
                raise Viol("buttons", "%s the brivla/cmevla/easy buttons are %s %s" % (ctx, look["on"], p[2]))
            cells = self.grid(look["rows"] or [])
            shown = set()
            for l, _ in cells:
                shown |= {NAMED[x] for x in l}
            for k, (txt, cls) in exp.items():
                ms = [x for l, x in cells if all(k[NAMED[n]] == n for n in l) and len({NAMED[n] for n in l}) == len(l)]
                if len(ms) != 1:
                    raise Viol("cells", "%s there are %d cells for %s %s" % (ctx, len(ms), k, p[2]))
                if ms[0]["t"] != txt.strip() or ms[0]["cls"] != cls:
                    raise Viol("cell", "%s the cell for %s shows %r (%s) instead of %r (%s) %s" % (ctx, k, ms[0]["t"], ms[0]["cls"], txt, cls, p[2]))
            matter = {i for i in range(5) if any(exp[k][0] != exp[k[:i] + (n,) + k[i + 1:]][0] for k in exp for n, _ in DIMS[i] if k[:i] + (n,) + k[i + 1:] in exp)}
            if shown != matter:
                raise Viol("settings", "%s the settings shown are %s, those that matter %s" % (ctx, sorted(shown), sorted(matter)))
            if any(x[1] not in ("", "red") for x in exp.values()):
                lab = "demo:%d" % len(matter)
        return lab

    def debug(self, c):
        ev, want = [], []
        s = {"cmevla": False, "exp_rafsi": False, "glides": False, "mz": False, "y": "standard", "k": "cluster", "m": "L", "t": ""}
        for e in c["e"] + [["l"]]:
            if e[0] == "t":
                s["t"] = e[1]
                ev.append(["type", "the", e[1]])
            elif e[0] == "y":
                s["y"] = e[1]
                ev.append(["select", "y_hyphens", e[1]])
            elif e[0] == "k":
                s["k"] = e[1]
                ev.append(["select", "consonants", e[1]])
            elif e[0] == "m":
                s["m"] = e[1]
                ev.append(["select", "mode", {"L": "getLujvo", "V": "getVeljvo", "A": "analyseBrivla"}[e[1]]])
            elif e[0] == "x" and (e[1] != "cmevla" or s["m"] == "L"):
                s[e[1]] = e[2]
                ev.append(["check", e[1], e[2]])
            elif e[0] == "d":
                s.update({"cmevla": False, "exp_rafsi": False, "glides": False, "mz": False, "y": "standard", "k": "cluster"})
                ev.append(["click", "default", "default"])
            elif e[0] == "l":
                ev += [["click", "ko", "ko co'e"], ["look"]]
                f = {"standard": "", "allow_y": "A", "force_y": "F"}[s["y"]] + ("r" if s["exp_rafsi"] else "") \
                    + {"cluster": "", "two_consonants": "2", "one_consonant": "1"}[s["k"]] + ("g" if s["glides"] else "") + ("z" if s["mz"] else "")
                if s["m"] == "L" and s["cmevla"]:
                    f = "c" + f
                (a,) = yield [(s["m"], f, s["t"])]
                want.append((dict(s), a))
        (p,) = yield [("PAGE", "debug-ts.html", ev)]
        if p[0] == "E" or len(p[1]) != len(want):
            raise Viol("page", "the debugging page fails on %s: %s" % (ev, p))
        lab = None
        for (s, a), look in zip(want, p[1]):
            if a[0] == "E":
                ok, w = look["out"][1], "an error"
            else:
                lab = "debug"
                w = "%s\n%s\n%s" % (a[1], a[2], ", ".join("%s-%s" % tuple(x) for x in a[3])) if s["m"] == "L" else " ".join(a[1]) if s["m"] == "V" \
                    else "%s\n%s" % (a[1].lower().replace("_", " "), " ".join(a[2]))
                ok = look["out"] == [w.strip(), False]
            if not ok:
                raise Viol("debug", "after %s the debugging page (%s) shows %s instead of %r %s" % (ev, s, look["out"], w, p[2]))
        return lab

    def check(self, c):
        return (yield from (self.demo(c) if c["p"] == "demo" else self.debug(c)))


# ----------------------------------------------------------------------------------------------------------- C30

class C30(Word):
    id = "C30"
    rule = ("random words with zi'evla, gismu, experimental and CLL parts separated by y-hyphens x settings; non-trivial when accepted as a lujvo or cmevla: each stretch between "
            "y-hyphens must be CLL rafsi, one brivla in full before 'y, one brivla without its last vowel before y, or (with experimental rafsi) a cmavo shape")
    quick, thorough = 20000, 100000

    def case(self, r):
        f = gen.flags(r)
        k = r.random()
        w = gen.ext_lujvo(r) if k < .5 else gen.vowelish(r) if k < .6 else gen.glide_word(r) if k < .7 else gen.norm(gen.word(r))
        if r.random() < .3:
            w = gen.mutate(r, w, 1)
        return {"f": f, "w": w or "a"}

    def check(self, c):
        f, w = c["f"], c["w"]
        if not w or not LETTERS.fullmatch(w):
            return None
        (a,) = yield [("A", f, w)]
        if a[0] == "E" or a[1] not in LUJ:
            return None
        ps = a[2]
        labs = set()
        n = len(ps)
        for i, p in enumerate(ps):
            if p in HYPHENS:
                continue
            nxt = ps[i + 1] if i + 1 < n else None
            prv = ps[i - 1] if i else None
            yb = prv is None or "y" in prv
            ya = nxt is None or "y" in nxt
            if gen.shape(p) and len(p) < 5 and gen.phon_ok(p, "z" in f):
                labs.add("cll")
                continue
            if gen.shape(p) and len(p) == 5 and kind(p, f) == "GISMU" and (nxt is None or nxt in ("'y", "'y'") and not yb):
                labs.add("cll")
                continue
            k = kind(p, f)
            if k in ("GISMU", "ZIhEVLA") and yb and (nxt is None and w[-1] in "aeiou" or nxt in ("'y", "'y'")):
                labs.add("full")
                continue
            if yb and (nxt in ("y", "y'") or nxt is None and w[-1] in C) and any(kind(p + x, f) in ("GISMU", "ZIhEVLA") for x in "aeiou"):
                labs.add("short")
                continue
            if "r" in f and yb and ya and re.fullmatch("[%s]?[aeiou']+" % C, p):
                labs.add("exp")
                continue
            raise Viol("part", "%s(%s) is %s: %s" % (w, f, a[1:], p))
        if a[1] == "LUJVO" and labs != {"cll"}:
            raise Viol("lujvo", "%s(%s) is %s" % (w, f, a[1:]))

        return "+".join(sorted(labs))


# ----------------------------------------------------------------------------------------------------------- C31

class C31(Prop):
    id = "C31"
    rule = ("several iterators over random lists of settings (and over the full list), stepped in a random interleaving beyond their end: each gives every combination exactly "
            "once and then nothing. Non-trivial when an iterator over at least two combinations is exhausted")
    technique = "property-based testing of interleaved iterators against the cartesian product"
    quick, thorough = 4500, 30000
    names = ["py", "js", "docs"]
    FULL = [["STANDARD", "ALLOW_Y", "FORCE_Y"], [False, True], ["CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"], [False, True], [False, True]]

    def case(self, r):
        ls, steps = [], []
        for i in range(r.choice([1, 1, 2, 3])):
            l = None
            if r.random() > .1:
                l = [[r.choice("abc") + str(k) if r.random() < .8 else k for k in range(r.choice([0, 1, 2, 2, 2, 3, 3, 4]))] for _ in range(r.choice([0, 1, 2, 3, 3, 4, 5]))]
                while len(list(itertools.product(*l))) > 200:
                    l.pop()
            ls.append(l)
            n = len(list(itertools.product(*(self.FULL if l is None else l))))
            steps += [i] * (n + r.randint(0, 3) if r.random() < .85 else r.randint(0, n))
        if r.random() < .7:
            r.shuffle(steps)
        return {"l": ls, "s": steps}

    def check(self, c):
        c = {"l": c["l"], "s": [i for i in c["s"] if i < len(c["l"])]}
        (p,) = yield [("N", c["l"], c["s"])]
        if p[0] == "E":
            raise Viol("error", "iterators over %s, stepped %s: %s" % (c["l"], c["s"], p))
        lab = None
        for i, l in enumerate(c["l"]):
            got = [x for k, x in zip(c["s"], p[1]) if k == i]
            want = [list(x) for x in itertools.product(*(self.FULL if l is None else l))]
            key = lambda l: sorted(json.dumps(x) for x in l)
            head = got[:len(want)]
            if None in head or any(x is not None for x in got[len(want):]) or len(set(key(head))) < len(head) == len(set(key(want))) or not set(key(head)) <= set(key(want)) \
                    or len(head) == len(want) and key(head) != key(want):
                raise Viol("combinations", "the iterator over %s gives %s" % (l, got))
            if len(head) == len(want) > 1:
                lab = "exhausted"
        return lab


# ----------------------------------------------------------------------------------------------------------- C32

LISTS = ["py/latkerlo_jvotci/rafsi.py", "js/src/rafsi.ts", "js/docs/rafsi.js", "rs/src/rafsi.rs"]
TIE = {"xi": ["xix"], "ditcu": ["dit"], "jidge": ["jid"], "ronci": ["roc"], "supso": ["sus"], "zai'e": ["zam"], "gelse": ["ge'e", "ges"], "tsako": ["tso"], "kilma": ["kim"],
       "jicfo": ["cfo"], "fizbu": ["zbu"], "je'ebzi": ["jeb"], "mu'umgu": ["mug"], "va'arga": ["va'a"]}      # settled by hand, whatever the dictionary says
VTYPES = ["gismu"] * 4 + ["experimental gismu"] * 3 + ["cmavo"] * 3 + ["experimental cmavo"] * 2 + ["lujvo", "fu'ivla", "cmevla", "bu-letteral", "obsolete cmavo", "zei-lujvo"]
SEPS = [", ", " and ", "; ", " or ", " ... "]
LEADS = ["Proposed rafsi: ", "Rafsi ", "See also {broda}; short RAFSI ", "x1 is a rafsi: ", "Cf. ", "", "Proposal: "]


class C32(Prop):
    id = "C32"
    rule = ("random dictionary exports (words of all types, official rafsi, rafsi proposed in notes, near misses of those) given to make_rafsi_list.py and "
            "make_dictionary_test_list.py, and random test lists given to make_js_tests.py, each in a scratch copy: the four rafsi lists written must hold the same words and "
            "rafsi, those of a model of the rules, and the other files exactly the words and tests put in. Non-trivial when the output has something in it")
    technique = "property-based testing of the list generators on random dictionaries against a model, and of the four outputs against each other"
    quick, thorough = 250, 2500
    names = ["gen"]
    note = "Generated-input search; the dictionary export is served from memory. The TypeScript and JavaScript lists are evaluated by node, the Rust one is read as a sequence of string literals."

    def valsi(self, r):
        t = r.choice(VTYPES)
        if "gismu" in t:
            w = r.choice([gen.cvccv, gen.ccvcv])(r) if r.random() < .6 else r.choice(gen.GISMU) if r.random() < .7 else r.choice(sorted(TIE))
        elif "cmavo" in t:
            w = gen.cmavo(r) if r.random() < .8 else r.choice(["xi", "zai'e", "to'ai", "zei'o"])
        else:
            w = r.choice([gen.lujvoish, gen.zihevla])(r)
        sh = [gen.cvc, gen.cvv, gen.cvhv, gen.ccv, gen.cvc]
        few = ["bab", "zba", "bai", "ba'i", "cfo", "zbu", "kim", "zna", "bla", "bal", "ba'a", "xix", "nai"]

        def raf():
            return r.choice(few) if r.random() < .6 else r.choice(sh)(r)
        tags = list(dict.fromkeys(raf() for _ in range(r.choice([0, 0, 1, 1, 2, 3]))))
        notes = None
        if r.random() < .6:
            props = [raf() if r.random() < .8 else r.choice(["bain", "a'i", "znab", "BAB", "b", "nma", "a", "blabi", "rlo"]) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            notes = [r.randrange(len(LEADS)), props, r.randrange(len(SEPS))]
        return [w, t, tags, notes]

    def case(self, r):
        k = r.random()
        if k < .6:
            vs, seen = [], set()
            for _ in range(r.choice([1, 2, 4, 8, 15])):
                v = self.valsi(r)
                if vs and "gismu" in v[1] and r.random() < .4:
                    v[0] = r.choice(vs)[0][:4].ljust(4, "a") + r.choice("aeiou")
                if v[0] not in seen:
                    seen.add(v[0])
                    vs.insert(r.randrange(len(vs) + 1), v)
            return {"k": "r" if k < .5 else "d", "v": vs}

        def cell():
            return r.choice([gen.word(r), " ".join(gen.tanru(r)), r.choice(["", "", "#", "# a b", "#" + gen.word(r), "ALLOW_Y | MORE_RAF", "0", "a'i.i \u2019\u0161"])])
        rows = [[[cell() for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))] for _ in range(r.choice([0, 1, 3, 6]))] for _ in range(3)]
        words = [[t, [gen.word(r) for _ in range(r.choice([0, 1, 4]))]] for t in ("GISMU", "LUJVO", "ZIhEVLA", "OTHER")[:r.choice([0, 3, 4, 4])]]
        return {"k": "t", "r": rows, "w": words}

    def text(self, n):
        return LEADS[n[0]] + (SEPS[n[2]].join("-%s-" % p for p in n[1]) or "nothing") + "."

    def xml(self, vs):
        esc = lambda s: s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")
        out = ['<?xml version="1.0" encoding="UTF-8"?>\n<dictionary><direction from="lojban" to="English">']
        for w, t, tags, notes in vs:
            out.append('<valsi word="%s" type="%s"><definition>$x_1$ does it</definition>' % (esc(w), esc(t)))
            out += ["<rafsi>%s</rafsi>" % x for x in tags]
            if notes:
                out.append("<notes>%s</notes>" % esc(self.text(notes)))
            out.append("</valsi>")
        return "\n".join(out + ["</direction></dictionary>"])

    def model(self, vs):
        official = {w[:4] for w, t, _, _ in vs if t == "gismu"}
        out, prop, taken = {}, {}, {x for l in TIE.values() for x in l}
        for w, t, tags, notes in vs:
            if t == "experimental gismu" and w[:4] in official or t not in VTYPES[:12]:
                continue
            if "gismu" in t or tags:
                out.setdefault(w, set()).update(tags)
            taken |= set(tags)
            if notes and "rafsi" in self.text(notes).lower():
                for p in notes[1]:
                    if gen.shape(p) in ("CVC", "CVV", "CVhV") or gen.shape(p) == "CCV" and p[:2] in gen.INITIAL:
                        prop.setdefault(w, set()).add(p)
        for w, l in TIE.items():
            out.setdefault(w, set()).update(l)
        for w, l in prop.items():
            if l - taken:
                out.setdefault(w, set()).update(l - taken)
        return out

    def check(self, c):
        if c["k"] == "t":
            return (yield from self.tests(c))
        vs = c["v"]
        if len({v[0] for v in vs}) < len(vs) or not all(len(v) == 4 and re.fullmatch("[a-z']+", v[0]) and v[1] in VTYPES and len(set(v[2])) == len(v[2]) and all(
                gen.shape(x) for x in v[2]) and (v[3] is None or len(v[3]) == 3 and all(v[3][1])) for v in vs):
            return None
        if c["k"] == "d":
            (g,) = yield [("GEN", "make_dictionary_test_list", {"xml": self.xml(vs), "files": {}})]
            got = g[1]["tests/jvs_words.json"] if g[0] == "O" else g
            want = {k: [v[0] for v in vs if v[1] in t] for k, t in (("GISMU", ["gismu", "experimental gismu"]), ("LUJVO", ["lujvo"]), ("ZIhEVLA", ["fu'ivla"]))}
            want["OTHER"] = [v[0] for v in vs if v[1] not in ("gismu", "experimental gismu", "lujvo", "fu'ivla")]
            if got[0] == "E" or {k: sorted(l) for k, l in got[1].items()} != {k: sorted(l) for k, l in want.items()}:
                raise Viol("dictionary", "%s gives %s, expected %s" % (vs, got[1:], want))
            return "dictionary"
        (g,) = yield [("GEN", "make_rafsi_list", {"xml": self.xml(vs), "files": {}})]
        if g[0] == "E":
            raise Viol("failed", "%s: %s" % (vs, g))
        want = self.model(vs)
        for f in LISTS:
            if g[1][f][0] == "E":
                raise Viol("unreadable", "%s for %s: %s" % (f, vs, g[1][f]))
            got = g[1][f][1]
            if len({k for k, _ in got}) < len(got) or any(len(set(l)) < len(l) for _, l in got):
                raise Viol("twice", "%s for %s lists something twice" % (f, vs))
            d = {k: set(l) for k, l in got}
            for w in sorted(set(d) | set(want)):
                if d.get(w) != want.get(w):
                    raise Viol("list", "%s: %s has %s, expected %s (from %s)" % (f, w, d.get(w), want.get(w), [v for v in vs if v[0] == w] or "no entry"))
            for w, l in got:
                k = [model.WEIGHT.get(gen.shape(x), 0) for x in l]
                if k != sorted(k):
                    raise Viol("order", "%s: %s %s is not in the order of the shapes" % (f, w, l))
            if got != g[1][LISTS[0]][1] and f != LISTS[3] or dict(got) != dict(g[1][LISTS[0]][1]):
                raise Viol("languages", "%s and %s differ for %s" % (f, LISTS[0], vs))
        return "rafsi"

    def tests(self, c):
        if len(c["r"]) != 3 or any(re.search("[\t\n\r\"\\\\]", x) for l in c["r"] for row in l for x in row) or len(set(w[0] for w in c["w"])) < len(c["w"]) \
                or any(len(w) != 2 or re.search("[^A-Za-z]", w[0]) or re.search("[^a-z']", "".join(w[1])) for w in c["w"]):
            return None
        names = ["basic_test_list", "jvozba_test_list", "katna_test_list"]
        fs = {"tests/%s.tsv" % n: "".join("\t".join(row) + "\n" for row in l) for n, l in zip(names, c["r"])}
        fs["tests/jvs_words.json"] = json.dumps({k: l for k, l in c["w"]})
        (g,) = yield [("GEN", "make_js_tests", {"xml": "", "files": fs})]
        got = g[1]["tests/js_tests.js"] if g[0] == "O" else g
        want = [[row for row in l if row and row[0] and row[0][0] != "#"] for l in c["r"]] + [[[k, l] for k, l in c["w"]]]
        if got[0] == "E" or got[1] != want:
            raise Viol("tests", "%s gives %s, expected %s" % (fs, got[1:], want))
        return "tests" if any(want) else None
