"""Builds: LLVM IR of the harness crate with everything it reaches, and the native replay binary.

Both are made from /repo's current working tree on every run.  Cargo's own dependency tracking is
by file time; a content hash of the crates decides whether their build products may be reused.
"""
import hashlib
import json
import os
import re
import subprocess
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
CRATES = ["cv-core", "cv-geom", "cv-pinhole", "cv-optimize", "eight-point", "lambda-twist", "nister-stewenius"]
TC = "stable-x86_64-unknown-linux-gnu"
BIN = os.path.expanduser("~/.rustup/toolchains/%s/lib/rustlib/x86_64-unknown-linux-gnu/bin" % TC)
CXXFILT = "/usr/bin/llvm-cxxfilt-18"


class BuildError(Exception):
    pass


def repo_hash():
    h = hashlib.sha256()
    for c in CRATES:
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, c))):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def sh(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:300], r.stderr.decode(errors="replace")[-4000:]))
    return r.stdout


def cargo_env(sub, flags):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(TARGET, sub), RUSTFLAGS=flags,
             CARGO_INCREMENTAL="0")
    return e


def freshen(sub, env):
    """Forget the products of /repo's crates when their content changed since the last build here."""
    stamp = os.path.join(TARGET, sub, ".repo-hash")
    cur = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != cur:
        cmd = ["cargo", "clean", "--offline"]
        for c in CRATES + ["harness"]:
            cmd += ["-p", c]
        subprocess.run(cmd, env=env, cwd=os.path.join(VERIF, "harness"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(cmd + ["--release"], env=env, cwd=os.path.join(VERIF, "harness"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return stamp, cur


def build_ir():
    env = cargo_env("ir", "--emit=llvm-bc -C opt-level=2 -C no-prepopulate-passes -C panic=abort "
                          "-C symbol-mangling-version=v0 -C debug-assertions=off -C overflow-checks=off")
    stamp, cur = freshen("ir", env)
    out = sh(["cargo", "build", "--lib", "--offline", "--features", "ir", "--message-format=json"], env,
             os.path.join(VERIF, "harness"))
    bcs = []
    for ln in out.splitlines():
        try:
            j = json.loads(ln)
        except ValueError:
            continue
        if j.get("reason") == "compiler-artifact":
            for f in j["filenames"]:
                b = os.path.basename(f)
                if b.startswith("lib") and b.endswith(".rmeta"):
                    p = os.path.join(TARGET, "ir/debug/deps", b[3:-6] + ".bc")
                    if os.path.exists(p):
                        bcs.append(p)
    open(stamp, "w").write(cur)
    want = re.compile(r"^(cv_|eight|lambda|nister|nalgebra-|matrixmultiply|log-|num_traits|harness|simba|approx|float_ord|arrayvec|num_complex|derive|arrsac|sample)")
    bcs = sorted(b for b in bcs if want.match(os.path.basename(b)))
    allbc = os.path.join(TARGET, "ir", "all.bc")
    sh([os.path.join(BIN, "llvm-link")] + bcs + ["-o", allbc + ".%d" % os.getpid()])
    os.replace(allbc + ".%d" % os.getpid(), allbc)
    return allbc


def build_native():
    env = cargo_env("native", "-C debug-assertions=off")
    stamp, cur = freshen("native", env)
    sh(["cargo", "build", "--release", "--bin", "replay", "--offline"], env, os.path.join(VERIF, "harness"))
    open(stamp, "w").write(cur)
    return os.path.join(TARGET, "native/release/replay")


def demangle(names):
    r = subprocess.run([CXXFILT], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return r.stdout.decode(errors="replace").split("\n")


DEF = re.compile(r'^define (.*?)(@"(?:[^"\\]|\\.)*"|@[\w.$\-]+)\(')


def slice_ir(allbc, harnesses, redirects, tag):
    """Optimised textual IR of the given entry points.  `redirects` maps a regex over demangled
    names to a stub function (or None: only keep the function out of line)."""
    keep = list(harnesses) + [s for s in redirects.values() if isinstance(s, str)]
    base = os.path.join(TARGET, "ir", tag)
    sh([os.path.join(BIN, "opt"), "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(keep),
        allbc, "-S", "-o", base + ".0.ll"])
    lines = open(base + ".0.ll").read().split("\n")
    syms = {}
    for i, ln in enumerate(lines):
        if ln.startswith("define "):
            m = DEF.match(ln)
            syms[m.group(2)] = i
    names = list(syms)
    dem = dict(zip(names, demangle([n[1:].strip('"') for n in names])))
    found = {}
    pats = [(re.compile(k), v) for k, v in redirects.items()]
    for n in names:
        for rx, tgt in pats:
            if rx.search(dem[n]):
                found[n] = tgt
                i = syms[n]
                ln = lines[i]
                ln = re.sub(r"^define (internal|private|linkonce_odr|weak_odr|linkonce|weak) ", "define ", ln)
                ln = re.sub(r"\balwaysinline\b|\binlinehint\b", "", ln)
                m = re.search(r"\)\s*(unnamed_addr |local_unnamed_addr )?(#\d+)?", ln[ln.rindex(")"):])
                k = ln.rindex(")")
                rest = ln[k + 1:]
                rest = re.sub(r"^(\s*(?:local_)?unnamed_addr)?", lambda mm: mm.group(0) + " noinline ", rest, count=1)
                lines[i] = ln[:k + 1] + rest
    # stub intrinsics may be redirected for groups sharing attributes: drop inlinehint there
    txt = "\n".join(lines)
    if found:
        txt = re.sub(r"^(attributes #\d+ = \{.*)$", lambda m: m.group(1).replace(" inlinehint", ""), txt, flags=re.M)
    open(base + ".1.ll", "w").write(txt)
    sh([os.path.join(BIN, "opt"), "-passes=default<O2>", "-vectorize-slp=false", "-vectorize-loops=false", "-S",
        base + ".1.ll", "-o", base + ".ll"])
    text = open(base + ".ll").read()
    for s in (".0.ll", ".1.ll"):
        os.unlink(base + s)
    missing = [k for (rx, v), k in zip(pats, redirects) if not any(rx.search(dem[n]) for n in names)]
    return text, found, dem, missing


class Native:
    """The native build, made in the background while the symbolic part runs."""

    def __init__(self):
        self.err = None
        self.bin = None
        self.t = threading.Thread(target=self._go)
        self.t.start()

    def _go(self):
        try:
            self.bin = build_native()
        except Exception as e:
            self.err = e

    def path(self):
        self.t.join()
        if self.err:
            raise self.err
        return self.bin

    def call(self, name, inputs, nout=256):
        """Run one harness natively on the given doubles: ('ret', status, outputs) or ('panic', msg)."""
        data = name + "\n" + "\n".join(fhex(x) for x in inputs) + "\n"
        try:
            r = subprocess.run([self.path()], input=data.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
        except subprocess.TimeoutExpired:
            return "panic", "does not return (30 s)", []
        lines = r.stdout.decode().split("\n")
        if lines and lines[0].startswith("ret "):
            import struct
            outs = [struct.unpack("<d", struct.pack("<Q", int(x, 16)))[0] for x in lines[1:] if x]
            return "ret", int(lines[0].split()[1]), outs
        return "panic", (r.stderr.decode(errors="replace") or "exit %d" % r.returncode)[-600:], []


def fhex(x):
    import struct
    return "%016x" % struct.unpack("<Q", struct.pack("<d", float(x)))[0]
