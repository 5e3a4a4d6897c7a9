"""Adapters: one interface over the Python, JavaScript (freshly compiled and shipped) and Rust implementations.

A request is (op, flags, arg); a response is ["O", ...] or ["E", error class, message].
Flags use the letters the Rust crate documents: c A F 2 1 r g z ("d": library defaults, no setting passed).
"""
import filecmp
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SEP = "\x1f"


class HarnessError(Exception):
    pass


class Build:
    """Scratch directory with everything built from the working tree; removed at exit."""

    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else None
        self.dir = tempfile.mkdtemp(prefix="verif-", dir=base)
        self.threads = []
        self.errors = []

    def start(self, js=True, rust=True, cli=False):
        if js:
            self._bg(self._js)
        if rust:
            self._bg(lambda: self._rust(cli))

    def _bg(self, f):
        def g():
            try:
                f()
            except Exception as e:
                self.errors.append(e)
        t = threading.Thread(target=g)
        t.start()
        self.threads.append(t)

    def _js(self):
        out = os.path.join(self.dir, "js")
        os.mkdir(out)
        p = subprocess.run(["tsc", "-p", os.path.join(REPO, "js"), "--outDir", out], capture_output=True, text=True)
        if not any(f.endswith(".js") for f in os.listdir(out)):
            raise HarnessError("tsc: " + p.stdout + p.stderr)
        docs = os.path.join(self.dir, "docs")
        shutil.copytree(os.path.join(REPO, "js", "docs"), docs)

    def docs_identical(self):
        """The shipped JavaScript is byte for byte what the compiler makes of the source."""
        a, b = ({f for f in os.listdir(os.path.join(self.dir, d)) if f.endswith(".js")} for d in ("js", "docs"))
        return a == b and all(filecmp.cmp(os.path.join(self.dir, "js", f), os.path.join(self.dir, "docs", f), False) for f in a)

    def _rust(self, cli):
        d = os.path.join(self.dir, "rs")
        os.makedirs(os.path.join(d, "lib"))
        os.makedirs(os.path.join(d, "srv", "src"))
        shutil.copytree(os.path.join(REPO, "rs"), os.path.join(self.dir, "repo-rs"), ignore=shutil.ignore_patterns("target", "test_diagnostics"))
        src = os.path.join(self.dir, "repo-rs", "src")
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write('[workspace]\nmembers = ["lib", "srv"]\nresolver = "3"\n'
                    '[profile.dev]\nopt-level = 1\ndebug = 0\ndebug-assertions = true\noverflow-checks = true\nincremental = false\n'
                    '[profile.dev.package."*"]\nopt-level = 2\n')
        with open(os.path.join(d, "lib", "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "latkerlo-jvotci"\nversion = "0.0.0"\nedition = "2024"\nautobins = false\n[lib]\npath = "%s/lib.rs"\n' % src
                    + ('[[bin]]\nname = "jvotci"\npath = "%s/main.rs"\n' % src if cli else "")
                    + '[dependencies]\nindexmap = "2"\nitertools = "*"\nregex = "1"\n')
        with open(os.path.join(d, "srv", "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "srv"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\nlatkerlo-jvotci = { path = "../lib" }\n')
        shutil.copy(os.path.join(HERE, "rs", "src", "main.rs"), os.path.join(d, "srv", "src", "main.rs"))
        shutil.copy(os.path.join(HERE, "rs", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable")
        p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env, capture_output=True, text=True)
        if p.returncode:
            raise HarnessError("cargo: " + p.stderr[-3000:])
        self.srv = os.path.join(d, "target", "debug", "srv")
        self.cli = os.path.join(d, "target", "debug", "jvotci")

    def wait(self):
        for t in self.threads:
            t.join()
        self.threads = []
        if self.errors:
            raise self.errors[0]

    def close(self):
        for t in self.threads:
            t.join()
        shutil.rmtree(self.dir, ignore_errors=True)


def import_python():
    """The Python package, from the working tree and from nowhere else."""
    sys.dont_write_bytecode = True
    p = os.path.join(REPO, "py")
    if p not in sys.path:
        sys.path.insert(0, p)
    import latkerlo_jvotci as L
    if not os.path.abspath(L.__file__).startswith(os.path.abspath(p) + os.sep):
        raise HarnessError("latkerlo_jvotci imported from " + L.__file__)
    return L


def py_kwargs(f, cm=False):
    if f == "d":
        return {}
    d = dict(y_hyphens="ALLOW_Y" if "A" in f else "FORCE_Y" if "F" in f else "STANDARD",
             exp_rafsi_shapes="r" in f,
             consonants="TWO_CONSONANTS" if "2" in f else "ONE_CONSONANT" if "1" in f else "CLUSTER",
             glides="g" in f, allow_mz="z" in f)
    if cm:
        d["generate_cmevla"] = "c" in f
    return d


def py_positional(f, cm):
    d = py_kwargs(f, cm)
    return [d[k] for k in (["generate_cmevla"] if cm else []) + ["y_hyphens", "exp_rafsi_shapes", "consonants", "glides", "allow_mz"]]


def py_minimal(f, cm):
    """Only the options that are not at their default."""
    d = py_kwargs("", cm)
    return {k: v for k, v in py_kwargs(f, cm).items() if v != d[k]}


VANDAL = ["-zzz-", 7]


class PyImpl:
    name = "py"

    def __init__(self):
        self.L = import_python()
        from latkerlo_jvotci.rafsi import RAFSI_LIST
        self.rafsi = RAFSI_LIST

    def one(self, op, f, a):
        L = self.L
        if op == "@":
            return self.fresh(f, json.loads(a))
        try:
            if op[-1:] in "pm" and len(op) == 2:      # p: options by position; m: only those that differ from the default
                op, how = op[0], op[1]
                cm = op in "LMGH"
                x = list(a) if op in "MH" else a
                fn = {"A": L.analyse_brivla, "V": L.get_veljvo, "S": L.score_lujvo, "B": L.is_brivla,
                      "L": L.get_lujvo_with_analytics, "M": L.get_lujvo_with_analytics, "G": L.get_lujvo, "H": L.get_lujvo}[op]
                r = fn(x, *py_positional(f, cm)) if how == "p" else fn(x, **py_minimal(f, cm))
                return ["O"] + ([r[0], list(r[1])] if op == "A" else [list(r)] if op == "V" else [r] if op in "SBGH" else [r[0], r[1], [list(i) for i in r[2]]])
            if op == "a":
                t, l = L.analyse_brivla(a, **py_kwargs(f))
                r = ["O", t, list(l)]
                l[:] = VANDAL
                return r
            if op == "v":
                l = L.get_veljvo(a, **py_kwargs(f))
                r = ["O", list(l)]
                l[:] = VANDAL
                return r
            if op == "m":
                x = list(a)
                try:
                    w, s, i = L.get_lujvo_with_analytics(x, **py_kwargs(f, True))
                finally:
                    if x != list(a):
                        return ["E", "ARGUMENT-CHANGED", str(x)]
                r = ["O", w, s, [list(y) for y in i]]
                i[:] = VANDAL
                x[:] = VANDAL
                return r
            if op == "i":
                x = list(a)
                i = L.get_rafsi_indices(x)
                if x != list(a):
                    return ["E", "ARGUMENT-CHANGED", str(x)]
                r = ["O", [list(y) for y in i]]
                i[:] = VANDAL
                return r
            if op == "A":
                t, l = L.analyse_brivla(a, **py_kwargs(f))
                return ["O", t, list(l)]
            if op == "V":
                return ["O", list(L.get_veljvo(a, **py_kwargs(f)))]
            if op == "S":
                return ["O", L.score_lujvo(a, **py_kwargs(f))]
            if op == "B":
                return ["O", L.is_brivla(a, **py_kwargs(f))]
            if op in "LM":
                w, s, i = L.get_lujvo_with_analytics(a if op == "L" else list(a), **py_kwargs(f, True))
                return ["O", w, s, [list(x) for x in i]]
            if op in "GH":
                return ["O", L.get_lujvo(a if op == "G" else list(a), **py_kwargs(f, True))]
            if op == "I":
                return ["O", [list(x) for x in L.get_rafsi_indices(list(a))]]
            if op == "N":
                from latkerlo_jvotci.tarmi import SETTINGS, SettingsIterator
                its = [iter(SettingsIterator(SETTINGS if l is None else l)) for l in f]
                return ["O", [None if x is None else list(x) for x in (next(its[i], None) for i in a)]]
            if op == "T":
                return ["O", [[k, list(v)] for k, v in self.rafsi.items()]]
        except RecursionError:
            return ["E", "RecursionError", ""]
        except Exception as e:
            return ["E", type(e).__name__, str(e)]
        raise HarnessError("op " + op)

    def fresh(self, f, seq):
        """A whole history in a process of its own that has called nothing before."""
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                if f == "t":
                    sys.setswitchinterval(1e-5)
                    out = [None] * len(seq)

                    def go(k):
                        out[k] = self.one(*seq[k])
                    ts = [threading.Thread(target=go, args=(k,)) for k in range(len(seq))]
                    for t in ts:
                        t.start()
                    for t in ts:
                        t.join()
                else:
                    out = [self.one(*q) for q in seq]
                with os.fdopen(wr, "w") as h:
                    h.write(json.dumps(out))
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(rd) as h:
            d = h.read()
        os.waitpid(pid, 0)
        return ["O", json.loads(d)] if d else ["E", "CRASH", ""]

    def batch(self, reqs):
        return [self.one(*r) for r in reqs]

    def close(self):
        pass


def esc(s):
    return s.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r")


class ServerImpl:
    page = None

    def __init__(self, name, argv):
        self.name, self.argv = name, argv
        self.p = None

    def _start(self):
        self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def special(self, op, f, a):
        """Requests that need a process of their own."""
        if op == "PAGE":
            if self.page is None:
                self.page = ServerImpl("page", ["node", "--stack-size=4000", os.path.join(HERE, "js", "page.js"), REPO])
            return self.page.batch([("PAGE.", f, json.dumps(a))])[0]
        srv = type(self)(self.name, self.argv)
        seq = json.loads(a)
        try:
            if f == "t" and self.name == "rs":
                for q in seq:
                    q[0] = "&" + q[0]
                return ["O", srv.batch(seq + [["&", "", ""]])[0]]
            return ["O", srv.batch(seq)]
        finally:
            srv.kill()

    def batch(self, reqs, out=None, tick=lambda: None):
        """The answers, which are also added to out one by one; tick is called after each."""
        out = [] if out is None else out
        if any(q[0] == "@" or q[0] in ("CLI", "TUI", "PAGE") for q in reqs):
            for q in reqs:
                out.append(self.special(*q) if q[0] in ("@", "CLI", "TUI", "PAGE") else self.batch([q])[0])
                tick()
            return out
        if not reqs:
            return out
        if self.p is None:
            self._start()
        data = "".join("%s\t%s\t%s\n" % (op, f if isinstance(f, str) else json.dumps(f), esc(a if isinstance(a, str) else json.dumps(a) if op == "N" else SEP.join(a))) for op, f, a in reqs).encode("utf-8")

        def w():
            try:
                self.p.stdin.write(data)
                self.p.stdin.flush()
            except BrokenPipeError:
                pass
        t = threading.Thread(target=w, daemon=True)
        t.start()
        if reqs[-1][0] == "&":
            reqs = reqs[:1]
        for k in range(len(reqs)):
            line = self.p.stdout.readline()
            if not line:
                t.join()
                code = self.p.wait()
                self.p = None
                # the process died (e.g. stack overflow, abort) on this request: report it and go on with the rest
                out.append(["E", "CRASH", "server ended with %s" % code])
                tick()
                return self.batch(reqs[k + 1:], out, tick)
            out.append(json.loads(line.decode("utf-8")))
            tick()
        t.join()
        return out

    def one(self, op, f, a):
        return self.batch([(op, f, a)])[0]

    def kill(self):
        if self.page:
            self.page.kill()
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def close(self):
        if self.page:
            self.page.close()
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


ANSI = re.compile("\x1b\\[[0-9;]*m")


class RustImpl(ServerImpl):
    cli = None

    def special(self, op, f, a):
        if op == "@":
            return super().special(op, f, a)
        if op == "CLI":
            p = subprocess.run([self.cli] + list(a), stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
        else:
            p = subprocess.run([self.cli] + ([f] if f else []), input="".join(x + "\n" for x in a).encode(), capture_output=True, timeout=60)
        return ["O", p.returncode, [l for l in ANSI.sub("", p.stdout.decode()).split("\n") if l.strip()]]


class GenImpl:
    """The make_*.py scripts, run in a scratch copy of the repository with the dictionary export served from memory."""
    name = "gen"
    SCRIPTS = {"make_rafsi_list": ["py/latkerlo_jvotci/rafsi.py", "js/src/rafsi.ts", "js/docs/rafsi.js", "rs/src/rafsi.rs"],
               "make_js_tests": ["tests/js_tests.js"], "make_dictionary_test_list": ["tests/jvs_words.json"]}

    def __init__(self, build):
        self.dir = tempfile.mkdtemp(dir=build.dir)
        for d in ("py", "js", "rs", "tests"):
            shutil.copytree(os.path.join(REPO, d), os.path.join(self.dir, d), ignore=shutil.ignore_patterns("target", "__pycache__", "test_diagnostics", ".git"))
        for f in os.listdir(REPO):
            if f.endswith(".py"):
                shutil.copy(os.path.join(REPO, f), self.dir)
        self.node = None

    def path(self, f):
        return os.path.join(self.dir, *f.split("/"))

    def run(self, script, xml):
        """In a process of its own, in the scratch directory, with nothing to reach but the given export."""
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                import io
                import runpy
                import urllib.request

                def urlopen(*_, **__):
                    return io.BytesIO(xml.encode("utf-8"))
                urllib.request.urlopen = urlopen
                sys.dont_write_bytecode = True
                os.chdir(self.dir)
                n = os.open(os.devnull, os.O_WRONLY)
                os.dup2(n, 1)
                os.dup2(n, 2)
                sys.path[:] = [self.dir] + [p for p in sys.path if os.path.abspath(p) != os.path.join(os.path.abspath(REPO), "py")]
                for m in [m for m in sys.modules if m.split(".")[0] == "latkerlo_jvotci"]:
                    del sys.modules[m]
                sys.argv = [script + ".py"]
                runpy.run_path(self.path(script + ".py"), run_name="__main__")
                code = 0
            finally:
                os._exit(code)
        return os.waitpid(pid, 0)[1] == 0

    def evaluate(self, text, names, ts=False):
        if self.node is None:
            self.node = subprocess.Popen(["node", "--no-warnings", os.path.join(HERE, "js", "evalsrv.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.node.stdin.write((json.dumps({"text": text, "names": names, "ts": ts}) + "\n").encode())
        self.node.stdin.flush()
        return json.loads(self.node.stdout.readline() or '["E", "CRASH", ""]')

    def one(self, op, f, a):
        """GEN script {"xml": text, "files": {name: text}}: what the files written define."""
        outs = self.SCRIPTS[f]
        for o in outs:
            if f != "make_rafsi_list" and os.path.exists(self.path(o)):
                os.remove(self.path(o))
        for k, v in a["files"].items():
            with open(self.path(k), "w", encoding="utf-8", newline="") as h:
                h.write(v)
        if not self.run(f, a["xml"]):
            return ["E", "FAILED", f]
        res = {}
        for o in outs:
            with open(self.path(o), encoding="utf-8") as h:
                t = h.read()
            try:
                if o.endswith(".json"):
                    v = ["O", json.loads(t)]
                elif o.endswith(".py"):
                    d = {}
                    exec(compile(t, o, "exec"), d)
                    v = ["O", [[k, list(x)] for k, x in d["RAFSI_LIST"].items()]]
                elif o.endswith(".rs"):
                    v = ["O", rust_lists(t)]
                elif f == "make_js_tests":
                    v = self.evaluate(t, ["BASIC_TEST_LIST", "JVOZBA_TEST_LIST", "KATNA_TEST_LIST", "JVS_WORDS"])
                else:
                    v = self.evaluate(t, ["RAFSI_LIST"], o.endswith(".ts"))
                    v = ["O", v[1][0]] if v[0] == "O" else v
            except Exception as e:
                v = ["E", type(e).__name__, str(e)]
            res[o] = v
        return ["O", res]

    def batch(self, reqs):
        return [self.one(*r) for r in reqs]

    def kill(self):
        self.close()

    def close(self):
        if self.node:
            self.node.stdin.close()
            self.node.wait()
            self.node = None


def rust_lists(t):
    """Keys and bracketed lists of string literals in a Rust source: [[key, [values]]]."""
    out, depth = [], 0
    i = t.find("LazyLock::new")
    for m in re.finditer(r'//[^\n]*|"((?:[^"\\]|\\.)*)"|vec!\[|&\[|\]', t[max(i, 0):]):
        s = m.group()
        if s.startswith("//"):
            continue
        if s.startswith('"'):
            if depth:
                out[-1][1].append(m[1])
            else:
                out.append([m[1], []])
        elif s == "]":
            depth = 0
        elif out:
            depth = 1
    return out


def make(name, build):
    if name == "gen":
        return GenImpl(build)
    if name == "py":
        return PyImpl()
    if name == "js":
        return ServerImpl("js", ["node", "--stack-size=4000", os.path.join(HERE, "js", "server.js"), os.path.join(build.dir, "js")])
    if name == "docs":
        return ServerImpl("docs", ["node", "--stack-size=4000", os.path.join(HERE, "js", "server.js"), os.path.join(build.dir, "docs")])
    if name == "rs":
        r = RustImpl("rs", [build.srv])
        RustImpl.cli = build.cli
        return r
    raise HarnessError(name)


ALL = ["py", "js", "docs", "rs"]


class MultiImpl:
    """Answers with a dict {implementation: response}."""
    name = "all"

    def __init__(self, impls):
        self.impls = impls

    def batch(self, reqs):
        cols = [i.batch(reqs) for i in self.impls]
        return [dict(zip([i.name for i in self.impls], c)) for c in zip(*cols)]

    def close(self):
        for i in self.impls:
            i.close()
