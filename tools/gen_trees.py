#!/usr/bin/env python3
"""Writes mc/src/all_trees.rs: every shape of expression tree up to four operators.

A node is `scalar * e`, `e * scalar` or `e1 + e2`; every operand is moved or borrowed. Up to two operators
all combinations of sides and ownership are listed, beyond that the shapes are complete and the
combinations follow patterns that put every variant at every depth.
"""
import itertools, os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "src", "all_trees.rs")


def shapes(n):
    """Trees with n operators: None is a leaf, (c,) a scalar product, (c, d) a sum."""
    if n == 0:
        yield None
        return
    for c in shapes(n - 1):
        yield (c,)
    for k in range(n):
        for c in shapes(k):
            for d in shapes(n - 1 - k):
                yield (c, d)


class Emit:
    def __init__(self, choices):
        self.choices, self.leaves, self.scalars = iter(choices), 0, 0

    def child(self, t, borrowed):
        if t is None:
            i = self.leaves
            self.leaves += 1
            kind = "p" if i % 2 == 0 else "g"
            return "l.%s%s(%d)" % (kind, "r" if borrowed else "o", i), "x[%d]" % i, ("&" if borrowed else "") + "ABCDEF"[i]
        e, m, s = self.node(t)
        return ("&" if borrowed else "") + "(%s)" % e, "(%s)" % m, ("&" if borrowed else "") + "(%s)" % s

    def node(self, t):
        c = next(self.choices)
        if len(t) == 1:
            k = self.scalars
            self.scalars += 1
            e, m, s = self.child(t[0], c & 1)
            if c & 2:
                return "%s * s[%d]" % (e, k), "%s * s[%d]" % (m, k), "%s*%s" % (s, "stuvw"[k])
            return "s[%d] * %s" % (k, e), "s[%d] * %s" % (k, m), "%s*%s" % ("stuvw"[k], s)
        e1, m1, s1 = self.child(t[0], c & 1)
        e2, m2, s2 = self.child(t[1], c & 2)
        return "%s + %s" % (e1, e2), "%s + %s" % (m1, m2), "%s+%s" % (s1, s2)


def main():
    out, rows = [], []
    for n in range(1, 5):
        if n <= 2:
            patterns = list(itertools.product(range(4), repeat=n))
        elif n == 3:
            patterns = [tuple((a + b * i) % 4 for i in range(n)) for a, b in ((0, 0), (3, 0), (1, 1), (2, 3))]
        else:
            patterns = [tuple((1 + i) % 4 for i in range(n))]
        for t in shapes(n):
            for p in patterns:
                em = Emit(p)
                e, m, s = em.node(t)
                k = len(rows)
                out.append("fn tree%d(l: &Leaves, s: &[T], h: &mut Harness) { match %s { e => h.go(&e, &mut || evaluate(&e)) } }" % (k, e))
                rows.append('    Tree { name: "%s", operators: %d, leaves: %d, run: tree%d, model: |x, s| %s },' % (s, n, em.leaves, k, m))
    with open(OUT, "w") as f:
        f.write("// Generated by tools/gen_trees.py.\n" + "\n".join(out) + "\npub const TREES: &[Tree] = &[\n" + "\n".join(rows) + "\n];\n")
    print(len(rows))


main()
