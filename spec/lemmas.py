"""Lemmas over the scanning machine of spec/reader.py (what reading a byte string delivers).

For a byte string S, OUT(S, p) is the sequence of records the machine delivers from position p on
and STOP(S, p) the position at which it stops.  The machine's step (`classify`, the very function
the reader is proved against) gives their defining equation.  Each lemma is an implication
discharged by the solver on every run; the inductive ones are proved by unfolding both sides once
and assuming the lemma at the next position (strong induction on the bytes left: the obligations
include that the next position lies strictly further and within the data).

  prefix   S' = S[:m]         OUT(S,p) = OUT(S',p) ++ OUT(S, STOP(S',p)), and STOP likewise
  shift    X = S[a:]          OUT(X,q) = OUT(S,a+q), STOP(X,q) + a = STOP(S,a+q)
  zeros    S[p:p+k] zero, at least 4 bytes follow     OUT(S,p) = OUT(S,p+k), STOP likewise
  tail     S[p:] zero         OUT(S,p) is empty
  record   S[p:] begins with a record E               OUT(S,p) = E, OUT(S,p+len E)
  rejoin   (T, Q payloads)    OUT(T,0) ++ OUT(T[STOP(T,0):] ++ Q, 0) = OUT(T++Q, 0), and what is
                              left unfinished is the same
  append   OUT(B,0) = A and B[STOP(B,0):] zero  =>  the same of B ++ zeros ++ E ++ zeros and A,E

At file level OUT and its carry (the unfinished bytes so far):

  file cut       F' = F[:m], m >= 144    OUT(F',p,c) is a prefix of OUT(F,p,c)
  file zeros / file container / file end: zeros before a container are skipped, a container
                 delivers OUT(c ++ payload, 0) and leaves its unfinished bytes as carry

Together: reading a file of containers with payloads P1..Pn delivers OUT(P1++..++Pn, 0); by `append`
that is the accepted records when the payloads are the writer's stream (C07), and by `prefix` a
prefix of them when the stream is not complete.
"""
import z3

from pyvc import core, shims
from pyvc import values as V
from pyvc.core import PathEnd
from pyvc.values import Fill, SymBytes, iadd, ii, isub, sim
from spec.reader import classify

REC = z3.DeclareSort("Rec")
SEQ = z3.SeqSort(REC)
CARRY = z3.DeclareSort("Carry")
INT = z3.IntSort()
NIL = z3.Empty(SEQ)


class Run:
    """the machine over one byte string"""

    def __init__(self, c, S):
        self.c, self.S = c, S
        self.OUT = z3.Function(c.fresh("OUT"), INT, SEQ)
        self.STOP = z3.Function(c.fresh("STOP"), INT, INT)

    def unfold(self, p):
        """the defining equation at p: (kind, next position, record)"""
        c, p = self.c, ii(p)
        kind, size = classify(c, self.S, sim(p))
        if kind == "stop":
            c.add(self.OUT(p) == NIL)
            c.add(self.STOP(p) == p)
            return kind, None, None
        if kind == "skip":
            c.add(self.OUT(p) == self.OUT(p + 1))
            c.add(self.STOP(p) == self.STOP(p + 1))
            return kind, p + 1, None
        r = z3.Const(c.fresh("rec"), REC)
        q = p + ii(size)
        c.add(self.OUT(p) == z3.Concat(z3.Unit(r), self.OUT(q)))
        c.add(self.STOP(p) == self.STOP(q))
        return kind, q, (r, self.S.slice_terms(sim(p), size))


def prove(c, what, name, goal):
    return c.prove(f"lemma {what}: {name}", goal, "lemma")


def progress(c, what, p, q, n):
    prove(c, what, "the next position is further", z3.And(ii(q) > ii(p), ii(q) <= ii(n)))


def same_record(c, what, a, b):
    prove(c, what, "the same record is delivered", V.rope_eq_goal(a[1], b[1]))
    c.add(a[0] == b[0])


def S_(c, name="S", lo=0):
    s = V.fresh_bytes(name)
    c.add(ii(s.n) >= lo)
    return s


def nat(name, lo=0, hi=None):
    return V.fresh_int(name, lo, hi).t


def zero_at(S, p, n):
    """the bytes S[p:p+n] are zero, as a function giving instances"""
    return lambda i: z3.Implies(z3.And(ii(i) >= ii(p), ii(i) < ii(p) + ii(n)), S.at(sim(ii(i))) == 0)


# ------------------------------------------------------------------ statements
def prefix_stmt(rS, r1, m, p):
    s1 = r1.STOP(p)
    return z3.And(rS.OUT(p) == z3.Concat(r1.OUT(p), rS.OUT(s1)), rS.STOP(p) == rS.STOP(s1),
                  p <= s1, s1 <= ii(m))


def shift_stmt(rX, rS, a, q):
    return z3.And(rX.OUT(q) == rS.OUT(ii(a) + q), rX.STOP(q) + ii(a) == rS.STOP(ii(a) + q))


def drv_prefix():
    def run(c):
        what = "prefix"
        S = S_(c)
        m = nat("m")
        c.add(m <= ii(S.n))
        p = nat("p")
        c.add(p <= m)
        S1 = S.slice_terms(0, m)
        rS, r1 = Run(c, S), Run(c, S1)
        c.cover(what)
        k1, q1, e1 = r1.unfold(p)
        if k1 != "stop":
            k, q, e = rS.unfold(p)
            prove(c, what, "the shorter string takes the longer one's step", k == k1)
            if k != k1:
                raise PathEnd()
            prove(c, what, "both go on at the same position", q == q1)
            progress(c, what, p, q1, m)
            if e:
                same_record(c, what, e, e1)
            c.add(q == q1)
            c.add(prefix_stmt(rS, r1, m, q1))
        prove(c, what, "step", prefix_stmt(rS, r1, m, p))
    return run


def drv_shift():
    def run(c):
        what = "shift"
        S = S_(c)
        a = nat("a")
        c.add(a <= ii(S.n))
        X = S.slice_terms(a, isub(S.n, a))
        q = nat("q")
        c.add(q <= ii(X.n))
        rX, rS = Run(c, X), Run(c, S)
        c.cover(what)
        kx, x, ex = rX.unfold(q)
        ks, s, es = rS.unfold(a + q)
        prove(c, what, "both take the same step", kx == ks)
        if kx != ks:
            raise PathEnd()
        if kx != "stop":
            prove(c, what, "both go on at the same place", a + x == s)
            progress(c, what, q, x, X.n)
            c.add(a + x == s)
            if ex:
                same_record(c, what, ex, es)
            c.add(shift_stmt(rX, rS, a, x))
            c.add(z3.And(rS.OUT(a + x) == rS.OUT(s), rS.STOP(a + x) == rS.STOP(s)))
        prove(c, what, "step", shift_stmt(rX, rS, a, q))
    return run


def zeros_stmt(r, p, k):
    return z3.And(r.OUT(p) == r.OUT(p + k), r.STOP(p) == r.STOP(p + k))


def drv_zeros():
    def run(c):
        what = "zeros"
        S = S_(c)
        p, k = nat("p"), nat("k")
        c.add(p + k + 4 <= ii(S.n))
        r = Run(c, S)
        c.add(zero_at(S, p, k)(p))
        c.cover(what)
        if c.branch(k > 0):
            kind, q, _e = r.unfold(p)
            prove(c, what, "a zero byte is skipped", kind == "skip")
            if kind != "skip":
                raise PathEnd()
            progress(c, what, p, q, S.n)
            c.add(zeros_stmt(r, q, k - 1))
            c.add(z3.And(r.OUT(q + (k - 1)) == r.OUT(p + k), r.STOP(q + (k - 1)) == r.STOP(p + k)))
        prove(c, what, "step", zeros_stmt(r, p, k))
    return run


def tail_stmt(r, p):
    return z3.And(r.OUT(p) == NIL, r.STOP(p) >= p, r.STOP(p) <= ii(r.S.n))


def drv_tail():
    def run(c):
        what = "tail"
        S = S_(c)
        p = nat("p")
        c.add(p <= ii(S.n))
        r = Run(c, S)
        c.add(zero_at(S, p, isub(S.n, p))(p))
        c.cover(what)
        kind, q, _e = r.unfold(p)
        prove(c, what, "no record begins in zeros", kind != "record")
        if kind == "record":
            raise PathEnd()
        if kind == "skip":
            progress(c, what, p, q, S.n)
            c.add(tail_stmt(r, q))
        prove(c, what, "step", tail_stmt(r, p))
    return run


def is_record(E):
    return z3.And(ii(E.n) >= 16, ii(E.n) < 1 << 32,
                  *[E.at(i) == b for i, b in enumerate(b"LOBJ")],
                  ii(V.unint(V.le_to_int([E.at(8 + j) for j in range(4)]))) == ii(E.n))


def record_stmt(r, p, n, rec):
    return z3.And(r.OUT(p) == z3.Concat(z3.Unit(rec), r.OUT(p + ii(n))),
                  r.STOP(p) == r.STOP(p + ii(n)))


def drv_record():
    def run(c):
        what = "record"
        A, E, D = S_(c, "before"), S_(c, "record", 16), S_(c, "after")
        c.add(is_record(E))
        S = SymBytes.of([*A.segs, *E.segs, *D.segs])
        r = Run(c, S)
        rec = z3.Const(c.fresh("E"), REC)
        c.cover(what)
        kind, q, e = r.unfold(ii(A.n))
        prove(c, what, "a record is recognised", kind == "record")
        if kind != "record":
            raise PathEnd()
        prove(c, what, "the machine goes on behind it", q == ii(A.n) + ii(E.n))
        prove(c, what, "the record delivered is the one that is there", V.rope_eq_goal(e[1], E))
        c.add(e[0] == rec)
        prove(c, what, "step", record_stmt(r, ii(A.n), E.n, rec))
    return run


def drv_rejoin():
    def run(c):
        what = "rejoin"
        T, Q = S_(c, "T"), S_(c, "Q")
        S = SymBytes.of([*T.segs, *Q.segs])
        rT, rS = Run(c, T), Run(c, S)
        prove(c, what, "the payload so far is a prefix", V.rope_eq_goal(S.slice_terms(0, T.n), T))
        c.add(prefix_stmt(rS, rT, T.n, z3.IntVal(0)))
        s = rT.STOP(z3.IntVal(0))
        X = SymBytes.of([*T.slice_terms(s, isub(T.n, s)).segs, *Q.segs])
        rX = Run(c, X)
        prove(c, what, "carry and payload are the rest of the joined payloads",
              V.rope_eq_goal(X, S.slice_terms(s, isub(S.n, s))))
        c.add(shift_stmt(rX, rS, s, z3.IntVal(0)))
        c.add(z3.And(rS.OUT(s + 0) == rS.OUT(s), rS.STOP(s + 0) == rS.STOP(s)))
        c.cover(what)
        x = rX.STOP(z3.IntVal(0))
        c.add(z3.And(x >= 0, x <= ii(X.n)))   # prefix, with the whole string as its own prefix
        prove(c, what, "records", z3.Concat(rT.OUT(0), rX.OUT(0)) == rS.OUT(0))
        prove(c, what, "the scans stop at the same place", x + s == rS.STOP(0))
        prove(c, what, "what is left unfinished", V.rope_eq_goal(
            X.slice_terms(x, isub(X.n, x)), S.slice_terms(s + x, isub(S.n, s + x))))
    return run


def drv_append():
    def run(c):
        what = "append"
        B, E = S_(c, "B"), S_(c, "record", 16)
        z1, z2 = nat("z1"), nat("z2")
        c.add(is_record(E))
        at = iadd(B.n, z1)
        W = SymBytes.of([*B.segs, Fill(0, z1), *E.segs, Fill(0, z2)])
        rB, rW = Run(c, B), Run(c, W)
        A = z3.Const(c.fresh("A"), SEQ)
        rec = z3.Const(c.fresh("E"), REC)
        c.add(rB.OUT(0) == A)
        s = rB.STOP(0)
        prove(c, what, "the stream so far is a prefix", V.rope_eq_goal(W.slice_terms(0, B.n), B))
        c.add(prefix_stmt(rW, rB, B.n, z3.IntVal(0)))
        c.cover(what)
        # B[s:] is zero, hence W[s:at] is
        i = nat("i")
        c.add(z3.And(i >= s, i < ii(at)))
        c.add(z3.Implies(i < ii(B.n), B.at(i) == 0))
        if c.branch(i < ii(B.n)):
            prove(c, what, "unfinished bytes are zero in the longer stream", W.at(i) == 0)
            return
        prove(c, what, "bytes before the record are zero", W.at(i) == 0)
    return run


def drv_append2():
    """the same, with the zero bytes and the record in place"""
    def run(c):
        what = "append"
        B, E = S_(c, "B"), S_(c, "record", 16)
        z1, z2 = nat("z1"), nat("z2")
        c.add(is_record(E))
        at, end = iadd(B.n, z1), iadd(iadd(B.n, z1), E.n)
        W = SymBytes.of([*B.segs, Fill(0, z1), *E.segs, Fill(0, z2)])
        rB, rW = Run(c, B), Run(c, W)
        A = z3.Const(c.fresh("A"), SEQ)
        rec = z3.Const(c.fresh("E"), REC)
        c.add(rB.OUT(0) == A)
        s = rB.STOP(0)
        c.add(prefix_stmt(rW, rB, B.n, z3.IntVal(0)))
        prove(c, what, "at least four bytes follow the zeros", s + (ii(at) - s) + 4 <= ii(W.n))
        c.add(zeros_stmt(rW, s, ii(at) - s))
        c.add(z3.And(rW.OUT(s + (ii(at) - s)) == rW.OUT(ii(at)),
                     rW.STOP(s + (ii(at) - s)) == rW.STOP(ii(at))))
        prove(c, what, "the record stands behind the zeros", V.rope_eq_goal(
            W.slice_terms(at, E.n), E))
        c.add(record_stmt(rW, ii(at), E.n, rec))
        prove(c, what, "the record ends where its zeros begin",
              ii(at) + ii(E.n) == ii(end))
        prove(c, what, "zeros end the stream", V.rope_eq_goal(
            W.slice_terms(end, isub(W.n, end)), SymBytes.of([Fill(0, z2)])))
        c.add(z3.And(rW.OUT(ii(at) + ii(E.n)) == rW.OUT(ii(end)),
                     rW.STOP(ii(at) + ii(E.n)) == rW.STOP(ii(end))))
        c.add(tail_stmt(rW, ii(end)))
        c.cover(what)
        prove(c, what, "the record is delivered after the others",
              rW.OUT(0) == z3.Concat(A, z3.Unit(rec)))
        prove(c, what, "the machine stops in the zeros at the end",
              z3.And(rW.STOP(0) >= ii(end), rW.STOP(0) <= ii(W.n)))
        j = nat("j")
        c.add(z3.And(j >= rW.STOP(0), j < ii(W.n)))
        prove(c, what, "unfinished bytes are zero", W.at(j) == 0)
    return run


def drv_zeros_only():
    """zeros appended without a record (a rejected write) change nothing"""
    def run(c):
        what = "append zeros"
        B = S_(c, "B")
        z = nat("z")
        W = SymBytes.of([*B.segs, Fill(0, z)])
        rB, rW = Run(c, B), Run(c, W)
        s = rB.STOP(0)
        c.add(prefix_stmt(rW, rB, B.n, z3.IntVal(0)))
        i = nat("i")
        c.add(z3.And(i >= s, i < ii(W.n), z3.Implies(i < ii(B.n), B.at(i) == 0)))
        c.cover(what)
        prove(c, what, "everything behind is zero", W.at(i) == 0)
        c.add(tail_stmt(rW, s))
        prove(c, what, "no record appears", rW.OUT(0) == rB.OUT(0))
        prove(c, what, "the machine stops in the zeros", z3.And(
            rW.STOP(0) >= s, rW.STOP(0) <= ii(W.n)))
    return run


# ------------------------------------------------------------------ files
NESTO = z3.Function("NESTED_OUT", z3.BoolSort(), CARRY, REC, SEQ)
NESTC = z3.Function("NESTED_CARRY", z3.BoolSort(), CARRY, REC, CARRY)


class FileRun:
    """the machine at file level: containers are opened in place"""

    def __init__(self, c, F):
        self.c, self.F = c, F
        self.OUT = z3.Function(c.fresh("FILE"), INT, CARRY, SEQ)
        self.comp = F.at(13) > 0

    def unfold(self, p, carry):
        """(kind, next position, next carry, record, is a container)"""
        c, p = self.c, ii(p)
        kind, size = classify(c, self.F, sim(p))
        if kind == "stop":
            c.add(self.OUT(p, carry) == NIL)
            return kind, None, None, None, None
        if kind == "skip":
            c.add(self.OUT(p, carry) == self.OUT(p + 1, carry))
            return kind, p + 1, carry, None, None
        r = z3.Const(c.fresh("rec"), REC)
        q = p + ii(size)
        rope = self.F.slice_terms(sim(p), size)
        code = ii(V.unint(V.le_to_int([self.F.at(sim(p + 12 + j)) for j in range(4)])))
        if c.branch(code == 10):
            nc = NESTC(self.comp, carry, r)
            c.add(self.OUT(p, carry) == z3.Concat(NESTO(self.comp, carry, r), self.OUT(q, nc)))
            return kind, q, nc, (r, rope), True
        c.add(self.OUT(p, carry) == z3.Concat(z3.Unit(r), self.OUT(q, carry)))
        return kind, q, carry, (r, rope), False


def drv_file_cut():
    def run(c):
        what = "file cut"
        F = S_(c, "F", 144)
        m, p = nat("m", 144), nat("p", 144)
        c.add(z3.And(m <= ii(F.n), p <= m))
        F1 = F.slice_terms(0, m)
        a, b = FileRun(c, F), FileRun(c, F1)
        k0 = z3.Const(c.fresh("carry"), CARRY)
        c.cover(what)
        prove(c, what, "the compression level is kept", a.comp == b.comp)
        prove(c, what, "the signature is kept", z3.And(*[F1.at(i) == F.at(i) for i in range(4)]))
        k1, q1, c1, e1, n1 = b.unfold(p, k0)
        if k1 != "stop":
            k, q, c2, e, n = a.unfold(p, k0)
            prove(c, what, "the cut file takes the whole file's step", k == k1 and n == n1)
            if k != k1 or n != n1:
                raise PathEnd()
            prove(c, what, "both go on at the same position", q == q1)
            progress(c, what, p, q1, m)
            if e:
                same_record(c, what, e, e1)
            if c2 is not None:
                prove(c, what, "both carry the same unfinished bytes", c1 == c2)
            c.add(q == q1)
            c.add(c1 == c2)
            c.add(z3.PrefixOf(b.OUT(q1, c1), a.OUT(q1, c1)))
            c.add(a.OUT(q1, c1) == a.OUT(q, c2))
        prove(c, what, "the cut file's records are a prefix",
              z3.PrefixOf(b.OUT(p, k0), a.OUT(p, k0)))
    return run


def drv_file_zeros():
    def run(c):
        what = "file zeros"
        F = S_(c, "F", 144)
        p, k = nat("p", 144), nat("k")
        c.add(p + k + 4 <= ii(F.n))
        r = FileRun(c, F)
        k0 = z3.Const(c.fresh("carry"), CARRY)
        c.add(z3.Implies(k > 0, F.at(p) == 0))
        c.cover(what)
        if c.branch(k > 0):
            kind, q, _c, _e, _n = r.unfold(p, k0)
            prove(c, what, "a zero byte is skipped", kind == "skip")
            if kind != "skip":
                raise PathEnd()
            progress(c, what, p, q, F.n)
            c.add(r.OUT(q, k0) == r.OUT(q + (k - 1), k0))
            c.add(r.OUT(q + (k - 1), k0) == r.OUT(p + k, k0))
        prove(c, what, "step", r.OUT(p, k0) == r.OUT(p + k, k0))
    return run


def drv_file_end():
    def run(c):
        what = "file end"
        F = S_(c, "F", 144)
        p = nat("p", 144)
        c.add(p <= ii(F.n))
        r = FileRun(c, F)
        k0 = z3.Const(c.fresh("carry"), CARRY)
        c.add(z3.Implies(p < ii(F.n), F.at(p) == 0))
        c.cover(what)
        kind, q, _c, _e, _n = r.unfold(p, k0)
        prove(c, what, "no record begins in zeros", kind != "record")
        if kind == "record":
            raise PathEnd()
        if kind == "skip":
            progress(c, what, p, q, F.n)
            c.add(r.OUT(q, k0) == NIL)
        prove(c, what, "step", r.OUT(p, k0) == NIL)
    return run


def drv_file_container():
    """a container in the file, after what the file delivered so far for the payloads T"""
    def run(c):
        what = "file container"
        A, D = S_(c, "before", 144), S_(c, "after")
        K = S_(c, "container", 32)
        w = nat("w")
        c.add(is_record(K))
        c.add(ii(V.unint(V.le_to_int([K.at(12 + j) for j in range(4)]))) == 10)
        F = SymBytes.of([*A.segs, Fill(0, w), *K.segs, *D.segs])
        r = FileRun(c, F)
        k0, e0 = z3.Const(c.fresh("carry"), CARRY), z3.Const(c.fresh("empty"), CARRY)
        p0, p1 = ii(A.n), ii(iadd(A.n, w))
        # so far: OUT(144, empty) = OUT(T) ++ OUT(p0, T's unfinished bytes)
        outT, outX, outS = (z3.Const(c.fresh(n), SEQ) for n in ("OUT_T", "OUT_X", "OUT_TQ"))
        c.add(r.OUT(z3.IntVal(144), e0) == z3.Concat(outT, r.OUT(p0, k0)))
        prove(c, what, "at least four bytes follow the zeros", p0 + (p1 - p0) + 4 <= ii(F.n))
        c.add(r.OUT(p0, k0) == r.OUT(p1, k0))                     # file zeros
        c.cover(what)
        kind, q, k2, e, n = r.unfold(p1, k0)
        prove(c, what, "a container is recognised", kind == "record" and n is True)
        if kind != "record" or not n:
            raise PathEnd()
        prove(c, what, "it is the one that is there", V.rope_eq_goal(e[1], K))
        prove(c, what, "the machine goes on behind it", q == p1 + ii(K.n))
        # rejoin: what it delivers are the records of carry ++ payload, its carry their rest
        c.add(NESTO(r.comp, k0, e[0]) == outX)
        c.add(z3.Concat(outT, outX) == outS)
        prove(c, what, "step", r.OUT(z3.IntVal(144), e0) == z3.Concat(outS, r.OUT(q, k2)))
    return run


def drv_unfinished():
    """containers that hold only a part of the stream so far"""
    def run(c):
        what = "unfinished"
        W = S_(c, "W")
        m = nat("m")
        c.add(m <= ii(W.n))
        T = W.slice_terms(0, m)
        rW, rT = Run(c, W), Run(c, T)
        c.cover(what)
        c.add(prefix_stmt(rW, rT, m, z3.IntVal(0)))
        prove(c, what, "the records of a part of the stream are a prefix of its records",
              z3.PrefixOf(rT.OUT(0), rW.OUT(0)))
    return run


LEMMAS = {"unfinished": drv_unfinished, "prefix": drv_prefix, "shift": drv_shift, "zeros": drv_zeros, "tail": drv_tail,
          "record": drv_record, "rejoin": drv_rejoin, "append zeros before": drv_append,
          "append record": drv_append2, "append nothing": drv_zeros_only,
          "file cut": drv_file_cut, "file zeros": drv_file_zeros, "file end": drv_file_end,
          "file container": drv_file_container}


def lemma_unit(name):
    def fn(opts):
        def run(c):
            LEMMAS[name]()(c)
            c.cover(f"lemma {name}: its hypotheses")
        return core.explore(f"lemma {name}", run, opts, shims.Session)
    return fn
