"""Reference models written from the documentation (README, differences.md, the CLL morphology rules), not from the
code under test. Each is a different formulation from the one in the implementations."""
import re
from functools import lru_cache

import gen
from gen import C, INITIAL, RAFSI, VALID, hyphenate, shape

VSET = set(VALID)
ISET = set(INITIAL)
TRIPLES = ("ndj", "ndz", "ntc", "nts")
LETTERS = set(C + "aeiouy'")


def pair_ok(p, mz=False):
    return p in VSET or (mz and p == "mz")


# ------------------------------------------------------------------ gismu

def is_gismu(w, mz=False):
    if re.fullmatch("[%s][aeiou][%s][%s][aeiou]" % (C, C, C), w):
        return pair_ok(w[2:4], mz)
    if re.fullmatch("[%s][%s][aeiou][%s][aeiou]" % (C, C, C), w):
        return w[:2] in ISET
    return False


# ------------------------------------------------------------------ phonotactics

NUC = "(?:ai|ei|oi|au|[aeiou])"
GSYL = "(?:(?:(?<![aeo]i)i|(?<!au)u)%s)" % NUC      # an on-glide does not repeat the off-glide before it
RUN_C = re.compile("%s%s*" % (NUC, GSYL))            # after a consonant or an apostrophe
RUN_START = re.compile("(?:%s%s*|%s+)" % (NUC, GSYL, GSYL))
RUN_Y = re.compile("%s+" % GSYL)                       # after y


def phon_violation(w, f):
    """A phonotactic rule every brivla and decomposable cmevla must obey and that the normalised word w breaks, or None."""
    mz = "z" in f
    if not w:
        return "empty"
    for c in w:
        if c not in LETTERS:
            return "letter outside the alphabet"
    if w[0] in "y'":
        return "starts with " + w[0]
    if w[-1] in "y'":
        return "ends with " + w[-1]
    if "yy" in w or "''" in w or "y'y" in w:
        return "doubled hyphen"
    for i, c in enumerate(w):
        if c == "'" and not (w[i - 1] in "aeiouy" and w[i + 1] in "aeiouy"):
            return "apostrophe not between vowels"
    for m in re.finditer("[%s]+" % C, w):
        s = m.group()
        for i in range(len(s) - 1):
            if not pair_ok(s[i:i + 2], mz):
                return "consonant pair " + s[i:i + 2]
        for t in TRIPLES:
            if t in s:
                return "consonant triple " + t
        if m.start() == 0:
            for i in range(len(s) - 1):
                if s[i:i + 2] not in ISET:
                    return "initial pair " + s[i:i + 2]
    for m in re.finditer("[aeiou]+", w):
        s, i = m.group(), m.start()
        prev = w[i - 1] if i else ""
        rx = RUN_START if prev == "" else RUN_Y if prev == "y" else RUN_C
        if not rx.fullmatch(s):
            # a shortened zi'evla before y may end in an on-glide: the vowel it lost made the syllable
            if w[i + len(s):i + len(s) + 1] == "y" and s[-1] in "iu" and (rx.fullmatch(s + "a") or len(s) > 1 and rx.fullmatch(s[:-1])):
                continue
            return "vowel sequence %s after %s" % (s, prev or "start")
    if not any(x in f for x in "12") and w[-1] in "aeiou":
        g = "|[%s]y?%s" % (C, GSYL) if "g" in f else ""
        if not re.search("[%s]'?y?'?[%s]%s" % (C, C, g), w):
            return "no consonant cluster"
    if "1" in f and w[-1] in "aeiou":
        g = "g" in f and re.search(GSYL, w)
        if not re.search("[%s]" % C, w) and not g:
            return "no consonant"
    return None


# ------------------------------------------------------------------ score

WEIGHT = {"CVCCV": 1, "CVCC": 2, "CCVCV": 3, "CCVC": 4, "CVC": 5, "CVhV": 6, "CCV": 7, "CVV": 8}
HYPHENS = {"r", "n", "y", "'y", "y'", "'y'"}


def score(pieces):
    """1000 per letter, 100 more per y, less 10 x the weight of each rafsi's shape and 1 per vowel; one point off when
    an initial CVV rafsi is followed by nothing but one consonant-final or CCV short rafsi."""
    s = 0
    for p in pieces:
        s += 1000 * len(p) + 100 * p.count("y") - sum(p.count(v) for v in "aeiou")
        if p not in HYPHENS:
            s -= 10 * WEIGHT.get(shape(p), 0)
    w = "".join(pieces)
    if shape(w[:3]) == "CVV" and shape(w[3:]) in ("CCV", "CCVC", "CVC", "CVCC"):
        s -= 1
    return s


# ------------------------------------------------------------------ CLL lujvo

def segmentations(w, y_forms):
    """All ways to read w as CLL-shaped rafsi with hyphens where there can be one: lists of pieces."""
    out = []
    after = {"CVC": ["y"], "CVCC": ["y"], "CCVC": ["y"], "CVV": (["'y"] if y_forms else []) + ["r", "n"], "CVhV": (["'y"] if y_forms else []) + ["r", "n"]}

    def rec(i, acc):
        if i == len(w):
            if acc and acc[-1] not in HYPHENS:
                out.append(acc)
            return
        p = shape(acc[-1]) if acc and acc[-1] not in HYPHENS else None
        for h in after.get(p, []):
            if w.startswith(h, i):
                rec(i + len(h), acc + [h])
        if p in ("CVCC", "CCVC"):
            return
        for n in (3, 4, 5):
            p = w[i:i + n]
            s = shape(p)
            if len(p) == n and s and (n < 5 or i + n == len(w)):
                rec(i + n, acc + [p])

    rec(0, [])
    return out


def cll_lujvo(w, f, relaxed=False):
    """Pieces if w is a CLL lujvo (or a cmevla made the same way) under hyphen setting S, A or F, else None; relaxed: no
    cluster needed."""
    y = "F" if "F" in f else "A" if "A" in f else ""
    mz = "z" in f
    cm = w[-1] in C
    if w[-1] not in C + "aeiou":
        return None
    for seg in segmentations(w, y != ""):
        raf = [p for p in seg if p not in HYPHENS]
        if len(raf) < 2:
            continue
        if not all(gen.phon_ok(p, mz) for p in raf):
            continue
        can = hyphenate(raf, y, cm, mz)
        ok = seg == can
        if not ok and y != "F":
            # superfluous r- and n-hyphens
            red, j, good = [], 0, True
            for j, p in enumerate(seg):
                if p in ("r", "n") and not (len(red) < len(can) and can[len(red)] == p):
                    nx = seg[j + 1]
                    if shape(seg[j - 1]) in ("CVV", "CVhV") and nx not in HYPHENS and \
                            (p == "n") == (nx[0] == "r") and nx[0] in C and (j > 1 or shape(nx) in ("CCVCV", "CCVC", "CCV")):
                        continue
                    good = False
                    break
                red.append(p)
            ok = good and red == can
        if not ok:
            continue
        if cm is False and not relaxed and not re.search("[%s]y?[%s]" % (C, C), w):
            continue
        if any(w[i:i + 3] in TRIPLES for i in range(len(w))):
            continue
        return seg
    return None


# ------------------------------------------------------------------ words without y

ZINIT = {c + l for c in "bfgkmpv" for l in "lr"} | {"dr", "tr"}


def initial_cluster(c):
    return len(c) <= 1 or len(c) == 2 and c in ISET or len(c) == 3 and c[:2] in ISET and c[1:] in ZINIT


@lru_cache(None)
def middle_cluster(c):
    """[coda] (consonant + syllabic l, m, n, r)* onset."""
    if len(c) <= 2:
        return True
    if len(c) == 3:
        return c[1] in "lmnr" or pair_ok(c[:2], True) and c[1:] in ISET
    if c[-2:] in ("ml", "mr"):
        on = 3 if initial_cluster(c[-3:]) else 2          # here m starts the syllable
        return re.fullmatch("[%s]?([%s][lmnr])*" % (C, C), c[:-on]) is not None
    for a in (0, 1):
        rest = c[a:]
        while True:
            # what is left is the onset
            if len(rest) == 1 or 1 < len(rest) <= 3 and rest[0] not in "lmnr" and initial_cluster(rest):
                return True
            if len(rest) > 2 and rest[1] in "lmnr":
                rest = rest[2:]
            else:
                break
    return False


def syllables(run, first):
    """Number of syllables of a vowel run, 0 if it is no vowel run."""
    m = (RUN_START if first else RUN_C).fullmatch(run)
    if not m:
        return 0
    n, i = 0, len(run)
    while i:
        for k in (3, 2):
            if i >= k and re.fullmatch(GSYL, run[i - k:i]) and (i - k > 0 or first):
                i -= k
                break
        else:
            i = 0
        n += 1
    return n


@lru_cache(200000)
def classify(w, f):
    """(type, pieces) of a word without y, or None. f: the letters A/F and z matter."""
    if not w or w[-1] not in "aeiou" or "y" in w:
        return None
    if is_gismu(w, "z" in f):
        return "GISMU", [w]
    l = cll_lujvo(w, f)
    if l:
        return "LUJVO", l
    return ("ZIhEVLA", [w]) if is_zihevla(w, f) else None


def is_zihevla(w, f):
    if phon_violation(w, f.replace("1", "").replace("2", "").replace("g", "")):
        return False
    runs = [(m.start(), m.group()) for m in re.finditer("[%s]+|[aeiou]+|'" % C, w)]
    syl, single, cluster = 0, 0, None
    for i, s in runs:
        if s[0] in C:
            if len(s) >= 2 and cluster is None:
                cluster = i
            if cluster is None:
                single += 1
            if syl == 0 and len(s) >= 2 and s[:2] not in ISET:
                return False
            if not (initial_cluster(s) if i == 0 else middle_cluster(s)):
                return False
        elif s != "'":
            syl += syllables(s, i == 0)
    if cluster is None or single > 1 or syl < 2:
        return False
    # a cmavo (or several) in front of a shorter brivla
    for i in range(1, cluster + 1):
        if w[i] in C or re.match("[iu][aeiou]", w[i:]):
            if classify(w[i:], f):
                return False
    # slinku'i
    return w[0] in "aeiou" or not cll_lujvo("to" + w, f)


# ------------------------------------------------------------------ words with y

ONE_CMAVO = re.compile("[%s](?:[aeiou]'[aeiou]|ai|ei|oi|au|[aeiou])" % C)
CMAVO_LIKE = re.compile("[%s]?[aeiou]+(?:'[aeiou]+)*" % C)
SHORT = ("CVV", "CVhV")


def glide_start(p):
    m = re.match("[aeiou]+", p)
    return bool(m and RUN_Y.fullmatch(m.group()))


def rafsi_part(p, f):
    """CLL rafsi that follow each other without y-hyphens, or None."""
    forced, mz = "F" in f, "z" in f
    if any(t in p for t in TRIPLES):
        return None
    for seg in segmentations(p, False):
        if not all(gen.phon_ok(x, mz) for x in seg if x not in HYPHENS):
            continue
        for x, nx in zip(seg, seg[1:] + [""]):
            if x in HYPHENS:
                if forced or not nx or (x == "n") != (nx[0] == "r"):
                    break
            elif nx and (shape(x) in ("CVCC", "CCVC") or shape(x) == "CVC" and not gen.join_ok(x, nx, mz)):
                break
        else:
            return seg
    return None


def is_cmavo_part(p):
    """A cmavo, of a form that can stand for itself in a lujvo with experimental rafsi."""
    if not CMAVO_LIKE.fullmatch(p):
        return False
    for m in re.finditer("[aeiou]+", p):
        i = m.start()
        n = syllables(m.group(), i == 0)
        if n == 0 or n > 1 and m.end() == len(p) and (i == 0 or p[i - 1] != "'"):
            return False
    return True


def parts_of(w, f):
    """Parts between y-hyphens, each rafsi (R), a zi'evla or gismu (Z) or a cmavo (M): ([(kind, part, pieces)], hyphens)."""
    toks = re.split("('?y'?)", w)
    parts, hy = toks[::2], toks[1::2]
    out = []
    for i, p in enumerate(parts):
        left, right = hy[i - 1] if i else "", hy[i] if i < len(hy) else ""
        if not p:
            return None
        vowel = p[0] in "aeiou"
        # an apostrophe before every vowel but not before a glide, and only after vowels
        if left.endswith("'") != (i > 0 and vowel and not glide_start(p)) or right.startswith("'") and p[-1] in C:
            return None
        short = not right.startswith("'") and (i < len(hy) or w[-1] in C)       # without its last vowel
        if i == 0 and shape(p) == "CCV":
            return None
        if shape(p) == "CVC":
            out.append(("R", p, [p]))
            continue
        seg = rafsi_part(p, f) if not short or p[-1] in C else None
        if seg and (len(seg) > 1 or shape(p)):
            out.append(("R", p, seg))
        elif short:
            if (classify(p + "a", f) or [""])[0] != "ZIhEVLA":
                return None
            out.append(("Z", p, [p]))
        elif (classify(p, f) or [""])[0] == "ZIhEVLA":
            out.append(("Z", p, [p]))
        elif "r" in f and is_cmavo_part(p):
            out.append(("M", p, [p]))
        else:
            return None
    return out, hy


@lru_cache(100000)
def ext_lujvo(w, f):
    """(type, pieces) of a word with y that is no CLL lujvo, or None."""
    if not w or "y" not in w or w[0] in "y'" or w[-1] in "y'" or any(x not in LETTERS for x in w) or re.search("yy|y'y|''", w):
        return None
    cm, standard, glides = w[-1] in C, not ("A" in f or "F" in f), "g" in f
    if cm and is_gismu(w + "a", "z" in f):
        return None
    r = parts_of(w, f)
    if not r:
        return None
    parts, hy = r
    pieces, cluster, count, later = [], False, 0, False
    for k, (kind, p, seg) in enumerate(parts):
        pieces += hy[k - 1:k] if k else []
        pieces += seg
        cvc = shape(p) == "CVC"
        onset = p[0] in C or glides and glide_start(p)
        if kind == "R":
            count += sum(1 if shape(x) in SHORT else 2 for x in seg if x not in HYPHENS)
        elif onset:
            count += 1
        if k and not cvc:
            later = later or p[0] in C or glide_start(p)
            cluster = cluster or onset and parts[k - 1][1][-1] in C
        if kind == "Z" or kind == "R" and re.search("[%s]{2}" % C, p):
            cluster = True
        # what no cluster holds falls off with the y after it
        if (kind == "M" or kind == "R" and shape(p) in SHORT) and hy[k:k + 1] == ["'y"] and not cluster and standard and not (cm and kind == "R"):
            return None
    if cm:
        return "CMEVLA", pieces
    if not cluster and not (later and count >= (2 if "2" in f else 1 if "1" in f else 1000)):
        return None
    if parts[0][0] == "R" and len(parts[0][2]) > 1 and all(shape(x) in SHORT for x in parts[0][2]):
        return None
    if w[0] in C:
        # cmavo that fall off
        k = 0
        while True:
            m = ONE_CMAVO.match(w, k)
            if not m:
                break
            k = m.end()
            rest = w[k:]
            if rest and rest[0] in C and word(rest, f):
                return None
            if standard and rest[:2] == "'y" and rest[2:3] != "'" and not re.search("[%s]{2}" % C, parts[0][1]):
                return None
        # slinku'i
        p = parts[0][1]
        if cll_lujvo("to" + w, f) or p[-1] in C and hy[0][0] == "y" and not rafsi_part(p, f) and cll_lujvo("to" + p, f):
            return None
    return "EXTENDED_LUJVO", pieces


def word(w, f):
    """(type, pieces) of any word, or None."""
    if "y" not in w and w[-1] in "aeiou":
        return classify(w, f)
    l = cll_lujvo(w, f, "1" in f or "2" in f)
    if l:
        return "CMEVLA" if w[-1] in C else "LUJVO", l
    return ext_lujvo(w, f)


# ------------------------------------------------------------------ rafsi table

OWNER = {}
for _w, _l in RAFSI.items():
    for _r in _l:
        OWNER.setdefault(_r, _w)
OWNER4 = {}
for _w in RAFSI:
    if len(_w) == 5 and "'" not in _w:
        OWNER4.setdefault(_w[:4], []).append(_w)


def owner(text):
    """The word a rafsi stands for, by the published list, or None."""
    if len(text) == 4 and "'" not in text and text != "brod" and text in OWNER4:
        return min(OWNER4[text])
    return OWNER.get(text)
