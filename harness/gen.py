"""Generators. Every random choice comes from the random.Random passed in; nothing is imported from the code under test."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
C = "bcdfgjklmnprstvxz"
V = "aeiou"
DI = ["ai", "ei", "oi", "au"]
GL = ["ia", "ie", "ii", "io", "iu", "ua", "ue", "ui", "uo", "uu", "iau", "uai", "uei", "ioi", "iai", "iei", "uau", "uoi"]
INITIAL = ("bl br cf ck cl cm cn cp cr ct dj dr dz fl fr gl gr jb jd jg jm jv kl kr ml mr pl pr "
           "sf sk sl sm sn sp sr st tc tr ts vl vr xl xr zb zd zg zm zv").split()
VOICED, UNVOICED = "bdgjvz", "cfkpstx"


def _valid(a, b):
    if a == b:
        return False
    if a in VOICED and b in UNVOICED or a in UNVOICED and b in VOICED:
        return False
    if a in "cjsz" and b in "cjsz":
        return False
    return a + b not in ("cx", "kx", "xc", "xk", "mz")


VALID = [a + b for a in C for b in C if _valid(a, b)]
with open(os.path.join(HERE, "data", "rafsi_ref.json"), encoding="utf-8") as f:
    RAFSI = json.load(f)
with open(os.path.join(HERE, "data", "seeds.json"), encoding="utf-8") as f:
    _s = json.load(f)
SEED_WORDS, SEED_TANRU, DICT_WORDS = _s["words"], _s["tanru"], _s["dictionary"]
ALLR = sorted({r for l in RAFSI.values() for r in l})
WORDS = list(RAFSI)
GISMU = [w for w in WORDS if len(w) == 5 and "'" not in w and w[-1] in V and w[0] in C and w[3] in C]
ZIH = _s["zihevla"]
CMAVO_WORDS = [w for w in WORDS if len(w) <= 4]
HYPH = ["y", "'y", "r", "n", "y'", "'y'"]


def cvv(r): return r.choice(C) + (r.choice(DI) if r.random() < .85 else r.choice(V) + r.choice(V))
def cvhv(r): return r.choice(C) + r.choice(V) + "'" + r.choice(V)
def ini(r): return r.choice(INITIAL) if r.random() < .94 else r.choice(C) + r.choice(C)


def clu(r):
    k = r.random()
    return r.choice(VALID) if k < .91 else "mz" if k < .93 else r.choice(C) + r.choice(C)


def ccv(r): return ini(r) + r.choice(V)
def cvc(r): return r.choice(C) + r.choice(V) + r.choice(C)
def cvcc(r): return r.choice(C) + r.choice(V) + clu(r)
def ccvc(r): return ccv(r) + r.choice(C)
def cvccv(r): return cvcc(r) + r.choice(V)
def ccvcv(r): return ccvc(r) + r.choice(V)


SHAPES = {"CVV": cvv, "CVhV": cvhv, "CCV": ccv, "CVC": cvc, "CVCC": cvcc, "CCVC": ccvc, "CVCCV": cvccv, "CCVCV": ccvcv}


def syl(r, first):
    if first:
        on = r.choice(["", r.choice(C), r.choice(C), ini(r), ini(r), ini(r)[0] + r.choice(INITIAL)])
    else:
        on = r.choice([r.choice(C), clu(r), "'", r.choice(C), clu(r) + r.choice("lmnr"), clu(r) + r.choice(C), "",
                       r.choice(C) + r.choice("lmnr") + ini(r), clu(r)])
    v = r.choice(list(V) * 3 + DI + GL)
    return on + v


def zihevla(r):
    if r.random() < .12:
        return r.choice(ZIH) if ZIH and r.random() < .6 else r.choice(DICT_WORDS)
    n = r.choice([1, 2, 2, 2, 3, 3, 3, 4])
    return "".join(syl(r, i == 0) for i in range(n)) or "a"


def cmavo(r):
    base = r.choice(["", r.choice(C), r.choice(C)])
    n = r.choice([1, 1, 2, 2, 3])
    s = base + "'".join(r.choice(list(V) * 2 + DI + (GL if not base else [])) for _ in range(n))
    if r.random() < .06:                 # more than one syllable without an apostrophe
        i = r.choice([k for k, x in enumerate(s) if x in V])
        s = s[:i] + r.choice(["i", "u", "a", "ai", "ia", "uu"]) + s[i:]
    return s


def raf(r):
    return r.choice([cvv, cvhv, ccv, cvc, cvc, ccv, cvcc, ccvc])(r) if r.random() < .6 else r.choice(ALLR)


HY = ["", "", "", "", "", "y", "y", "'y", "r", "n", "y'", "'y'"]


def lujvoish(r, nmax=4):
    n = r.randint(2, nmax) if r.random() < .97 else r.randint(5, 12)
    s = ""
    for i in range(n):
        last = i == n - 1
        k = r.random()
        if k < .65:
            p = raf(r)
        elif k < .75:
            p = r.choice(WORDS)[:-1]
        elif k < .85:
            p = zihevla(r)
            if not last and r.random() < .5:
                p = p[:-1] or p
        elif k < .93:
            p = cmavo(r)
        else:
            p = r.choice([cvccv, ccvcv])(r)
        if last and r.random() < .4:
            p = r.choice([cvccv, ccvcv])(r) if r.random() < .5 else r.choice(WORDS)
        s += p
        if not last:
            h = r.choice(HY)
            if len(p) >= 4 and "'" not in p and r.random() < .6:
                h = r.choice(["y", "'y"])
            elif p[-1] in V and len(p) >= 4 and r.random() < .4:
                h = "'y"
            s += h
    return s


def join_ok(a, b, mz=False):
    """CLL: may the CVC rafsi a stand directly before b?"""
    x, y = a[-1], b[0]
    if x not in C or y not in C:
        return True
    if not (x + y in VALID or (mz and x + y == "mz")):
        return False
    return x + b[:2] not in ("ndj", "ndz", "ntc", "nts")


def good_lujvo(r, y="", cmevla=False, nmax=4, mz=False):
    """A rafsi sequence of CLL shapes with hyphens placed by the CLL rules (nearly always a lujvo)."""
    n = r.choice([2, 2, 3, 3, 4][:nmax + 1] if nmax < 4 else [2, 2, 3, 3, 4, 5])
    if nmax >= 4 and r.random() < .03:
        n = r.randint(6, 14) if r.random() < .9 else r.randint(15, 70)
    ps = []
    for i in range(n):
        if i == n - 1:
            k = ["CVC", "CVCC", "CCVC", "CVC"] if cmevla else ["CVV", "CVhV", "CCV", "CVCCV", "CCVCV"]
        else:
            k = ["CVV", "CVhV", "CCV", "CVC", "CVC", "CVCC", "CCVC"]
        kk = r.choice(k)
        if r.random() < .5 and len(kk) < 5:
            cand = [x for x in (r.choice(ALLR) for _ in range(8)) if shape(x) == kk]
            if cand:
                ps.append(cand[0])
                continue
        for _ in range(30):
            p = SHAPES[kk](r)
            if phon_ok(p, mz):
                break
        ps.append(p)
    return hyphenate(ps, y, cmevla, mz)


def phon_ok(p, mz=False):
    s = shape(p)
    V2 = VALID + (["mz"] if mz else [])
    if s in ("CCV", "CCVC", "CCVCV"):
        return p[:2] in INITIAL
    if s in ("CVCC", "CVCCV"):
        return p[2:4] in V2
    if s == "CVV":
        return p[1:] in DI
    return s is not None


def shape(p):
    m = "".join("C" if c in C else "V" if c in V else "h" if c == "'" else "?" for c in p)
    return m if m in SHAPES else None


def hyphenate(ps, y="", cmevla=False, mz=False):
    """Canonical hyphens for a list of CLL-shaped rafsi; returns the list of pieces."""
    out = []
    for i, p in enumerate(ps):
        out.append(p)
        if i == len(ps) - 1:
            break
        q, s = ps[i + 1], shape(p)
        if s in ("CVCC", "CCVC"):
            out.append("y")
        elif s == "CVC" and not join_ok(p, q, mz):
            out.append("y")
        elif s in ("CVV", "CVhV") and i == 0 and not cmevla and not (len(ps) == 2 and shape(q) == "CCV"):
            out.append("'y" if y == "F" else "n" if q[0] == "r" else "r")
    if shape(ps[0]) == "CVC" and not cmevla and out[1] != "y" and tosmabru(out):
        out.insert(1, "y")
    return out


def tosmabru(out):
    """CLL tosmabru test on pieces starting with an unhyphenated CVC."""
    for i in range(len(out) - 1):
        a, b = out[i], out[i + 1]
        if shape(a) != "CVC":
            return False
        if b == "y":
            return True
        if a[-1] + b[0] not in INITIAL:
            return False
        if shape(b) == "CVCCV":
            return b[2:4] in INITIAL
    return False


def mutate(r, s, k=None):
    for _ in range(k or r.choice([1, 1, 1, 2, 2, 3])):
        i = r.randint(0, len(s))
        x = r.random()
        ch = r.choice("aeiouy'" + C + "rnyy'mz")
        if x < .3:
            s = s[:i] + ch + s[i:]
        elif x < .55 and s:
            s = s[:i] + s[i + 1:]
        elif x < .85:
            s = s[:i] + ch + s[i + 1:]
        elif x < .9 and i + 1 < len(s):
            s = s[:i] + s[i + 1] + s[i] + s[i + 2:]
        elif x < .95:
            s = s[:i] + r.choice(HYPH) + s[i:]
        else:
            t = r.choice(SEED_WORDS)
            s = s[:i] + t[r.randint(0, len(t)):]
    return s


def rand_str(r, n=9, alpha="aeiou" * 3 + "yy''" + C):
    return "".join(r.choice(alpha) for _ in range(r.randint(1, n)))


def word(r):
    """Words and near-words over the Lojban letters: all kinds of brivla, cmevla and their near misses."""
    k = r.random()
    if k < .27:
        w = lujvoish(r)
    elif k < .47:
        w = "".join(good_lujvo(r, r.choice(["", "", "F"]), r.random() < .2, mz=r.random() < .2))
    elif k < .58:
        w = zihevla(r)
    elif k < .6:
        w = cluster_zih(r)
    elif k < .62:
        w = mz_zih(r)
        if r.random() < .4:
            w = r.choice(C) + r.choice(V) + w
    elif k < .72:
        w = r.choice(SEED_WORDS)
    elif k < .77:
        w = r.choice(DICT_WORDS)
    elif k < .87:
        w = ext_lujvo(r)
    elif k < .92:
        w = rand_str(r)
    elif k < .96:
        w = vowelish(r)
    else:
        w = r.choice([cvccv, ccvcv])(r)
    x = r.random()
    if x < .25:
        w = mutate(r, w)
    elif x < .32:
        w = w[:-1] if r.random() < .6 else w + r.choice(C)
    elif x < .37:
        w = r.choice([cmavo, lambda r: r.choice(C) + r.choice(V), cvhv])(r) + w
    return w or "a"


def onesyl(r):
    """A cluster and one syllable: never a rafsi of any kind, unless it is CCV."""
    return (ini(r) + r.choice(["", "", "r", "l"])) + r.choice(DI + list(V) + GL)


def vowelish(r):
    """Words made of cmavo-shaped parts, where the experimental settings matter."""
    n = r.choice([2, 2, 3])
    s = ""
    for i in range(n):
        s += r.choice([cmavo, cmavo, cmavo, cvv, cvhv, raf, onesyl])(r)
        if i < n - 1:
            s += r.choice(["'y", "'y", "y", "y'", "'y'", "", "r"])
    return s


def glidish(r):
    """A cmavo starting with a glide."""
    return r.choice(["ia", "ie", "ii", "io", "iu", "ua", "ue", "ui", "uo", "uu", "iau", "uai"]) + ("'" + r.choice(V) if r.random() < .3 else "")


def glide_word(r):
    """Words with glide-initial parts after y."""
    n = r.choice([2, 2, 3])
    s = ""
    for i in range(n):
        p = glidish(r) if r.random() < .5 else r.choice([cvc, cvv, cvhv, cvcc, cmavo, raf])(r)
        s += p
        if i < n - 1:
            s += ("y" if p[-1] in C else r.choice(["'y", "'y", "'y", "y", ""])) if r.random() < .95 else r.choice(HYPH)
    return s


def ext_lujvo(r):
    """zi'evla and gismu inside lujvo, separated by y-hyphens."""
    if r.random() < .35:
        return good_ext(r)
    n = r.choice([2, 2, 3]) if r.random() < .96 else r.randint(4, 7)
    s = ""
    for i in range(n):
        last = i == n - 1
        k = r.random()
        if k < .45:
            p = zihevla(r)
        elif k < .6:
            p = r.choice(GISMU)
        elif k < .75:
            p = "".join(good_lujvo(r, nmax=3))
        else:
            p = raf(r)
        if s.endswith("y") and p[0] in V and not (len(p) > 1 and p[0] in "iu" and p[1] in V) and r.random() < .85:
            s += "'"
        if not last:
            if p[-1] in V and shape(p) not in ("CVV", "CVhV"):
                p = r.choice([p + "'y", p[:-1] + "y", p + "'y", p[:-1] + "y", p])
            elif p[-1] in V:
                p += r.choice(["", "'y", "y", "'y"])
            else:
                p += r.choice(["y", "y", "y", ""])
        s += p
    return s


def good_ext(r, f=""):
    """Parts (rafsi, zi'evla, cmavo) with the hyphens that the rules ask for; mostly a word with y."""
    n = r.choice([2, 2, 2, 3, 3, 4])
    cm = r.random() < .2
    s = ""
    for i in range(n):
        last = i == n - 1
        k = r.random()
        if k < .38:                      # rafsi
            m = r.choice([1, 1, 1, 2, 2, 3])
            one = r.random() < .35 and [cvv, cvhv]
            ps = []
            for _ in range(m):
                p = r.choice(one or [cvv, cvhv, ccv, cvc, cvc])(r)
                ps.append(p)
            if not one and r.random() < .4:
                ps[-1] = r.choice([cvcc, ccvc, cvc, cvc])(r)
            if ps[-1][-1] in V and last and cm:
                ps[-1] = cvc(r)
            p = ""
            for j, x in enumerate(ps):
                if j and shape(ps[j - 1]) in ("CVV", "CVhV") and j == 1 and r.random() < (.25 if i else .6):
                    p += "n" if x[0] == "r" else "r"
                p += x
        elif k < .72:                    # zi'evla
            p = good_zih(r) if r.random() < .8 else r.choice(GISMU)
            if r.random() < .5 or last and cm:
                p = p[:-1] if len(p) > 1 and p[-2] != "'" else p
        else:
            p = glidish(r) if r.random() < .45 else cmavo(r)
        if i and p[0] in V and not re.match("[iu][aeiou]", p):
            s += "'"
        s += p
        if not last:
            s += "y" if p[-1] in C else "'y"
    return s


def comp(r):
    """One tanru component, in any of the documented forms (not always a usable one)."""
    k = r.random()
    if k < .42:
        return r.choice(GISMU)
    if k < .47:
        return r.choice(WORDS)
    if k < .50:
        return r.choice(CMAVO_WORDS)
    if k < .57:
        return zihevla(r)
    if k < .62:
        return (zihevla(r)[:-1] or "a") + "-"
    if k < .66:
        return r.choice(GISMU)[:-1] + "-"
    if k < .72:
        return "-" + zihevla(r) + "-"
    if k < .79:
        return "-" + cmavo(r) + "-"
    if k < .81:
        return cmavo(r)
    if k < .84:
        return r.choice([cvccv, ccvcv])(r)
    if k < .86:
        return "-" + r.choice(GISMU) + "-"
    return "-" + raf(r) + "-"


def mz_zih(r):
    """A zi'evla that needs allow_mz, more often than not."""
    return r.choice(["", r.choice(C), r.choice(C), ini(r)]) + r.choice(V) + "mz" + r.choice(["", "", "g", "b", "d", "l", "r", "v"]) + r.choice(list(V) + DI) \
        + r.choice(["'", "'", r.choice(C), r.choice(C) + r.choice(V) + r.choice(C)]) + r.choice(V)


FOLLOW = {a: [b for b in C if a + b in VALID] for a in C}


def run_of(r, c, n):
    """n consonants after c, each pair permitted, rich in sonorants."""
    s = ""
    for _ in range(n):
        l = FOLLOW[c]
        c = r.choice([x for x in l if x in "lmnr"] or l) if r.random() < .4 else r.choice(l)
        s += c
    return s


def cluster_zih(r):
    """zi'evla and near misses with all the clusters that three and more consonants can make, at the beginning and in the middle."""
    v = lambda: r.choice(V) if r.random() < .9 else r.choice(DI + GL)
    k = r.random()
    if k < .4:
        s = r.choice(INITIAL) if r.random() < .97 else r.choice(VALID)
        w = s + run_of(r, s[1], 1 if r.random() < .95 else 2) + v() + r.choice([r.choice(C), r.choice(C), "'", r.choice(VALID), run_of(r, r.choice(C), 3)]) + v()
    elif k < .85:
        c = r.choice(C)
        w = r.choice(["", r.choice(C), r.choice(C), r.choice(INITIAL)]) + v() + c + run_of(r, c, r.choice([1, 2, 2, 2, 3, 3, 3, 4, 4, 5])) + v()
    else:
        w = r.choice(["", r.choice(C), r.choice(VALID), "'"]) + "".join(r.choice("iuiuaeo") for _ in range(r.randint(2, 5))) + r.choice(VALID) + r.choice(["", "r", "l"]) + v()
    return w + r.choice(["", "", r.choice(C) + r.choice(V), "'" + r.choice(V)])


def falling(r):
    """Rafsi and an a: shortened, it falls apart into them, if it is a word at all."""
    a = r.choice([cvc, cvc, cvv, cvhv, ccv])(r)
    b = r.choice([cvc, cvc, cvc, ccvc, cvcc])(r)
    if a[-1] in C:
        b = r.choice([x for x in VALID if x[0] == a[-1]] + (["mz"] * 4 if a[-1] == "m" else []) or ["xx"])[1] + b[1:]
    return a + b + "a"


EDGE = """mlatu klama djica tcadu zgike rirni nanmu broda cidro bloti jbena karce cmalu mamta zdani prenu
-lat- -mla- -lai- -la'a- -latm- -mlat- -zga- -lam- -dja- -ran- -rai- -ni'i- -na'o- -tan- -tcu- -klu- -bra- -jmi- -zei- -mem- -zif- -kem- -pas- -mab- -smabr-
-ri'i- -ra'a- -noi- -rei- na ui zo'e ki'u cu'u re ba'o ui'i
spageti alpaka iglu tci'ile karmzga uiski praliia a'ibe iukre'ini lamzaba kutmzu'a tarmi'o arke io'imbe akne'i zbu'ake ka'amru a'orne
spaget- alpak- igl- karmzg- lamzab- latmab- uisk- tci'il- kutmz- ark- iukr- -spageti- -karmzga- -alpaka- -kutmzu'a-
-u'u- -ia- -a- -uu- -bo'oi- -fai- -ma'aku- -uai- -i- -ii'u- -ku'u'u- -mi- -ca'iu- -ui- -io'e- -'a- -ba'a'a- -xa- -e'ai-""".split()


def good_zih(r):
    """Something that is a zi'evla more often than not."""
    k = r.random()
    if k < .07:
        return mz_zih(r)
    if k < .12:
        return falling(r)
    if k < .2:
        return cluster_zih(r)
    if k < .55:
        return r.choice(ZIH)
    p = r.choice(["", r.choice(C), r.choice(C)])
    w = p + r.choice(V) + r.choice(VALID) + r.choice(["", "l", "r"]) + r.choice(list(V) + DI) + r.choice(["'", r.choice(C)]) + r.choice(V)
    return w


def good_comp(r, exp=False):
    k = r.random()
    if k < .5:
        return r.choice(GISMU)
    if k < .56:
        return r.choice(CMAVO_WORDS)
    if k < .68:
        return good_zih(r)
    if k < .73:
        return good_zih(r)[:-1] + "-"
    if k < .78:
        return r.choice(GISMU)[:-1] + "-"
    if k < .81:
        return "-" + good_zih(r) + "-"
    if k < .84:
        return "-" + r.choice(GISMU) + "-"
    if k < .9 and exp:
        return "-" + cmavo(r) + "-"
    for _ in range(20):
        p = raf(r)
        if phon_ok(p):
            return "-" + p + "-"
    return "mlatu"


def exp_comp(r):
    """A component with an experimental rafsi (often of vowels only), or a usable one."""
    k = r.random()
    if k < .3:
        return "-" + cmavo(r) + "-"
    if k < .5:
        return "-" + "'".join(r.choice(list(V) * 2 + DI + GL) for _ in range(r.choice([1, 1, 2]))) + "-"
    return good_comp(r, True)


def tanru(r, good=None, exp=False):
    """A list of components."""
    n = r.choice([2, 2, 2, 3, 3, 4, 5]) if r.random() < .97 else r.randint(6, 12) if r.random() < .92 else r.randint(13, 70)
    if good is None:
        good = r.random() < .6
    if exp and r.random() < .2:
        p = r.choice([0, 0, .5, .7])
        return ["-" + cvc(r) + "-" if r.random() < p else exp_comp(r) for _ in range(n)]
    if r.random() < .1:                  # many combinations of few components, each of a kind of its own
        return [r.choice(EDGE) for _ in range(n)]
    if r.random() < .08:
        return r.choice(SEED_TANRU).split() if r.random() < .7 else [r.choice(WORDS) for _ in range(n)]
    return [(good_comp(r, exp) if good else comp(r)) for _ in range(n)]


def flags(r, c=False, default=.25):
    f = r.choice(["", "A", "F"]) + r.choice(["", "2", "1"]) + r.choice(["", "r"]) + r.choice(["", "g"]) + r.choice(["", "z"])
    if r.random() < default:
        f = ""
    if c and r.random() < .25:
        f = "c" + f
    return f


ALL_FLAGS = [a + b + c + d + e for a in ["", "A", "F"] for b in ["", "2", "1"] for c in ["", "r"] for d in ["", "g"] for e in ["", "z"]]


def norm(w):
    """Reference normalisation, on the domain where the three languages agree."""
    if w[:1] == ".":
        w = w[1:]
    return w.lower().replace("h", "'").replace(",", "")
