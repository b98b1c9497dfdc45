"""Discharges the axioms of spec/10_values.rs about +, -, *, / and negation: each
axiom's own text is translated to SMT-LIB's theory of IEEE 754 binary64 (one NaN,
round to nearest, ties to even), for all values, and its negation given to cvc5.

check(dir) -> (discharged: {name: seconds}, trusted: [name], failed: [name])
"""
import os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
PRE = """(set-logic QF_FP)
(define-sort V () (_ FloatingPoint 11 53))
(define-fun isz ((a V)) Bool (fp.isZero a))
(define-fun is_nan ((a V)) Bool (fp.isNaN a))
(define-fun neg_sign ((a V)) Bool (fp.isNegative a))
(define-fun finite ((a V)) Bool (not (or (fp.isNaN a) (fp.isInfinite a))))
(define-fun zeq ((a V) (b V)) Bool (or (= a b) (and (isz a) (isz b))))
(define-fun ltz ((a V)) Bool (fp.lt a (_ +zero 11 53)))
(define-fun vadd ((a V) (b V)) V (fp.add RNE a b))
(define-fun vsub ((a V) (b V)) V (fp.sub RNE a b))
(define-fun vmul ((a V) (b V)) V (fp.mul RNE a b))
(define-fun vdiv ((a V) (b V)) V (fp.div RNE a b))
(define-fun vneg ((a V)) V (fp.neg a))
; Rust's % is C's fmod: the remainder of the quotient rounded towards zero, with the sign of the dividend
(define-fun vrem ((x V) (y V)) V (let ((r (fp.rem (fp.abs x) (fp.abs y))))
  (let ((s (ite (fp.lt r (_ +zero 11 53)) (fp.add RNE r (fp.abs y)) r))) (ite (fp.isNegative x) (fp.neg s) s))))
(define-fun V0 () V (_ +zero 11 53))
(define-fun V1 () V ((_ to_fp 11 53) RNE 1.0))
(define-fun VNAN () V (_ NaN 11 53))
(define-fun VINF () V (_ +oo 11 53))
(define-fun VNINF () V (_ -oo 11 53))
"""
KNOWN = set(re.findall(r"define-fun (\w+)", PRE))


class Opaque(Exception):
    pass


def tokens(s):
    s = s.replace("#[trigger]", " ")
    return re.findall(r"==>|==|!=|&&|\|\||[!(),]|\w+", s)


class P:
    def __init__(self, s, vars):
        self.t, self.i, self.vars = tokens(s), 0, vars

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def eat(self, x=None):
        t = self.peek()
        if x is not None and t != x:
            raise Opaque("expected %s, found %s" % (x, t))
        self.i += 1
        return t

    def level(self, ops, sub):
        e = sub()
        while self.peek() in ops:
            o = ops[self.eat()]
            e = "(%s %s %s)" % (o, e, sub())
        return e

    def implies(self):
        e = self.level({"||": "or"}, lambda: self.level({"&&": "and"}, self.cmp))
        if self.peek() == "==>":
            self.eat()
            return "(=> %s %s)" % (e, self.implies())
        return e

    def cmp(self):
        return self.level({"==": "=", "!=": "distinct"}, self.unary)

    def unary(self):
        if self.peek() == "!":
            self.eat()
            return "(not %s)" % self.unary()
        if self.peek() == "(":
            self.eat()
            e = self.implies()
            self.eat(")")
            return e
        n = self.eat()
        if n is None or not re.match(r"\w+$", n):
            raise Opaque("found %s" % n)
        if self.peek() == "(":
            self.eat()
            args = []
            while self.peek() != ")":
                args.append(self.implies())
                if self.peek() == ",":
                    self.eat()
            self.eat(")")
            if n not in KNOWN:
                raise Opaque(n)
            return "(%s %s)" % (n, " ".join(args)) if args else n
        if n not in self.vars:
            raise Opaque(n)
        return n

    def all(self):
        """a comma-separated list of conditions"""
        out = []
        while self.peek() is not None:
            out.append(self.implies())
            if self.peek() == ",":
                self.eat()
        return "(and true %s)" % " ".join(out)


def axioms(text):
    for m in re.finditer(r"axiom fn (\w+)\(([^)]*)\)\s*(.*?);", text, re.S):
        name, ps, body = m.groups()
        b = re.match(r"(?:requires(.*?))?\bensures(.*)$", body, re.S)
        yield name, [p.split(":") for p in ps.split(",") if p.strip()], (b.group(1) or ""), b.group(2)


# x % x is 0 by the definition of fmod; deciding it takes every solver here more than its share of memory
HARD = {"rem_same": "not decided: bit-blasting takes too much memory"}


def one(work, ax):
    name, ps, req, ens = ax
    if name in HARD:
        return name, None, 0, HARD[name]
    if any(t.strip() != "V" for _, t in ps):
        return name, None, 0, "about the f64 type itself"
    vs = [v.strip() for v, _ in ps]
    try:
        q = PRE + "".join("(declare-const %s V)\n" % v for v in vs)
        q += "(assert %s)\n(assert (not %s))\n(check-sat)\n" % (P(req, vs).all(), P(ens, vs).all())
    except Opaque as e:
        return name, None, 0, str(e)
    f = os.path.join(work, name + ".smt2")
    open(f, "w").write(q)
    t = time.time()
    # bit-blasting a remainder takes cvc5 gigabytes; z3 simplifies these
    cmd = ["z3-new", "-T:60", "-memory:2000"] if "vrem" in ens else ["cvc5", "--tlimit=60000"]

    def ask(text):
        open(f, "w").write(text)
        try:
            return "".join(subprocess.run(cmd + [f], capture_output=True, text=True, timeout=90).stdout.split()[:1])
        except subprocess.TimeoutExpired:
            return "timeout"

    r = ask(q)
    if r == "unsat" and ask(q.rsplit("(assert (not", 1)[0] + "(check-sat)\n") != "sat":
        r = "vacuous"  # the premises cannot hold
    return name, r == "unsat", round(time.time() - t, 2), r


def check(work):
    os.makedirs(work, exist_ok=True)
    text = open(os.path.join(HERE, "spec", "10_values.rs")).read()
    with ThreadPoolExecutor(4) as pool:
        rs = list(pool.map(lambda a: one(work, a), list(axioms(text))))
    return ({n: t for n, ok, t, _ in rs if ok}, ["%s (%s)" % (n, w) for n, ok, _, w in rs if ok is None],
            ["%s: %s" % (n, w) for n, ok, _, w in rs if ok is False])


if __name__ == "__main__":
    import tempfile
    d = tempfile.mkdtemp()
    for x in check(d):
        print(x)
