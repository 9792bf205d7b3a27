"""Solver back ends, driven over SMT-LIB text with hard wall-clock limits."""
import os
import re
import select
import shutil
import subprocess
import time
from fractions import Fraction


class Stats:
    def __init__(self):
        self.queries = 0
        self.by = {}
        self.time = 0.0
        self.results = {"sat": 0, "unsat": 0, "unknown": 0}


STATS = Stats()


class Proc:
    def __init__(self, name, cmd):
        self.name, self.cmd, self.p = name, cmd, None

    def start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, bufsize=0)
        self.buf = b""

    def kill(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None

    def ask(self, text, timeout):
        """Send text, return output lines up to the done marker, or None on timeout."""
        if self.p is None or self.p.poll() is not None:
            self.start()
        data = (text + '\n(echo "@done")\n').encode()
        fd_in, fd_out = self.p.stdin.fileno(), self.p.stdout.fileno()
        end = time.time() + timeout
        os.set_blocking(fd_in, False)
        off = 0
        while True:
            left = end - time.time()
            if left <= 0:
                self.kill()
                return None
            r, w, _ = select.select([fd_out], [fd_in] if off < len(data) else [], [], left)
            if w:
                try:
                    off += os.write(fd_in, data[off:off + 65536])
                except BlockingIOError:
                    pass
                except BrokenPipeError:
                    self.kill()
                    return None
            if r:
                c = os.read(fd_out, 1 << 16)
                if not c:
                    self.kill()
                    return None
                self.buf += c
                if b"@done" in self.buf:
                    out, _, rest = self.buf.partition(b"@done")
                    self.buf = rest.lstrip(b'"\n')
                    return out.decode(errors="replace").rstrip('"').strip()


Z3BIN = shutil.which("z3-new") or shutil.which("z3")
PROCS = {}


def proc(name):
    p = PROCS.get(name)
    if p is None:
        if name.startswith("z3"):
            p = Proc(name, [Z3BIN, "-in", "-smt2"])
        elif name == "cvc5":
            p = Proc(name, ["cvc5", "--lang=smt2", "--incremental", "--produce-models"])
        PROCS[name] = p
    return p


def shutdown():
    for p in PROCS.values():
        p.kill()


def run(decls, asserts, timeout, solver="z3", want=None):
    """-> (verdict, {name: Fraction}) for the conjunction of `asserts` over Real/Bool decls."""
    t0 = time.time()
    txt = []
    ms = max(1, int(timeout * 1000))
    if solver.startswith("z3"):
        txt.append("(reset)")
        txt.append("(set-option :timeout %d)" % ms)
        txt.append("(set-option :pp.decimal true)(set-option :pp.decimal_precision 30)")
    else:
        txt.append("(reset)")
        txt.append("(set-option :tlimit-per %d)" % ms)
        txt.append("(set-option :produce-models true)")
        txt.append("(set-logic QF_NRA)")
    for n, s in decls:
        txt.append("(declare-fun %s () %s)" % (n, s))
    for a in asserts:
        txt.append("(assert %s)" % a)
    if solver == "z3":
        txt.append("(check-sat)")
    elif solver == "z3nl":
        txt.append("(check-sat-using (then simplify propagate-values solve-eqs purify-arith simplify elim-term-ite solve-eqs tseitin-cnf qfnra-nlsat))")
    else:
        txt.append("(check-sat)")
    p = proc("z3" if solver.startswith("z3") else solver)
    out = p.ask("\n".join(txt), timeout + 1.0)
    verdict = "unknown"
    model = {}
    if out is not None:
        if "(error" in out:
            verdict = "unknown"
            if "canceled" not in out and "timeout" not in out and "interrupted" not in out:
                STATS.last_error = out[:300]
        else:
            lines = [l.strip() for l in out.splitlines() if l.strip()]
            if lines and lines[-1] in ("sat", "unsat", "unknown"):
                verdict = lines[-1]
    if verdict == "sat" and want:
        out = p.ask("(get-value (%s))" % " ".join(want), 10.0)
        model = parse_values(out or "")
    STATS.queries += 1
    STATS.by[solver] = STATS.by.get(solver, 0) + 1
    STATS.results[verdict] += 1
    STATS.time += time.time() - t0
    return verdict, model


def parse_values(s):
    toks = re.findall(r'\(|\)|\|[^|]*\||[^\s()]+', s)
    pos = 0

    def sexp():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == "(":
            out = []
            while toks[pos] != ")":
                out.append(sexp())
            pos += 1
            return out
        return t
    try:
        top = sexp()
    except IndexError:
        return {}
    res = {}
    for pair in top:
        if isinstance(pair, list) and len(pair) == 2 and isinstance(pair[0], str):
            v = num(pair[1])
            if v is not None:
                res[pair[0]] = v
    return res


def num(e):
    if isinstance(e, str):
        if e == "true":
            return True
        if e == "false":
            return False
        try:
            return Fraction(e.rstrip("?"))
        except ValueError:
            return None
    try:
        if e[0] == "-" and len(e) == 2:
            return -num(e[1])
        if e[0] == "-":
            return num(e[1]) - num(e[2])
        if e[0] == "/":
            return num(e[1]) / num(e[2])
        if e[0] == "+":
            return num(e[1]) + num(e[2])
        if e[0] == "*":
            return num(e[1]) * num(e[2])
    except Exception:
        return None
    return None
