"""gen_c10.py OUT SEED COUNT: random compositions of the library's connectives as
C++ source, each with its meaning in prefix form for the reference interpreter.
Sorted by size, so that a smaller index is a simpler expression."""
import random
import sys


def main():
    out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    r = random.Random(seed)

    # every generator returns (text, prefix, size)
    def tv(d):
        if d <= 0 or r.random() < 0.12:
            k = r.randrange(10)
            if k < 7:
                i = r.randrange(4)
                return "v.x[%d]" % i, "x%d" % i, 1
            return [("T_TRUE", "kT", 1), ("T_FALSE", "kF", 1), ("T_UNKNOWN", "kU", 1)][k - 7]
        k = r.randrange(22)
        if k < 5:
            a, b = tv(d - 1), tv(d - 1)
            return "b3_or(%s, %s)" % (a[0], b[0]), "| %s %s" % (a[1], b[1]), 1 + a[2] + b[2]
        if k < 10:
            a, b = tv(d - 1), tv(d - 1)
            return "b3_and(%s, %s)" % (a[0], b[0]), "& %s %s" % (a[1], b[1]), 1 + a[2] + b[2]
        if k < 13:
            a = tv(d - 1)
            return "b3_not(%s)" % a[0], "! %s" % a[1], 1 + a[2]
        if k < 15:
            a = fv(d - 1)
            return "b4_to_b3(%s)" % a[0], "= %s" % a[1], 1 + a[2]
        if k < 19:
            a, b = du(d - 1), du(d - 1)
            return "b3_lessthan(%s, %s)" % (a[0], b[0]), "< %s %s" % (a[1], b[1]), 1 + a[2] + b[2]
        if k < 20:  # an operand that is itself an expression of the language
            c = r.randrange(2)
            a, b = tv(d - 1), tv(d - 1)
            return "v.c[%d] ? %s : %s" % (c, a[0], b[0]), "? c%d %s %s" % (c, a[1], b[1]), 1 + a[2] + b[2]
        if k < 21:
            a = tv(d - 1)
            b, c = tv(d - 2), tv(d - 2)
            return ("%s == T_TRUE ? %s : %s" % (par(a[0]), b[0], c[0]),
                    "? t %s %s %s" % (a[1], b[1], c[1]), 1 + a[2] + b[2] + c[2])
        a = tv(d - 1)
        return "id(%s)" % a[0], a[1], 1 + a[2]

    def par(s):  # an operand of == has to be a macro call, a name or in parentheses
        return "(%s)" % s if "?" in s and not s.startswith(("b3_", "b4_")) or "==" in s else s

    def fv(d):
        if d <= 0 or r.random() < 0.15:
            i = r.randrange(3)
            return "v.y[%d]" % i, "y%d" % i, 1
        k = r.randrange(6)
        if k < 5:
            a = tv(d - 1)
            return "b3_to_b4(%s)" % a[0], "= %s" % a[1], 1 + a[2]
        a, b = fv(d - 1), fv(d - 1)
        c = r.randrange(2)
        return "v.c[%d] ? %s : %s" % (c, a[0], b[0]), "? c%d %s %s" % (c, a[1], b[1]), 1 + a[2] + b[2]

    def du(d):
        if d <= 0 or r.random() < 0.2:
            i = r.randrange(4)
            return "v.d[%d]" % i, "d%d" % i, 1
        k = r.randrange(10)
        if k < 3:
            a, b = du(d - 1), du(d - 1)
            return "sum_dur(%s, %s)" % (a[0], b[0]), "+ %s %s" % (a[1], b[1]), 1 + a[2] + b[2]
        if k < 6:
            a, b = du(d - 1), du(d - 1)
            return "mult_dur(%s, %s)" % (a[0], b[0]), "* %s %s" % (a[1], b[1]), 1 + a[2] + b[2]
        if k < 8:
            i, j, c = r.randrange(3), r.randrange(3), r.randrange(2)
            t = r.randrange(3)
            if t == 0:
                return "make_duration(v.n[%d], v.c[%d])" % (i, c), "m n%d c%d" % (i, c), 1
            if t == 1:
                return ("make_duration(v.n[%d] + v.n[%d], false)" % (i, j),
                        "m + n%d n%d cF" % (i, j), 2)
            return ("make_duration(v.c[%d] ? v.n[%d] : v.n[%d], v.c[0] || v.c[1])" % (c, i, j),
                    "m ? c%d n%d n%d c|" % (c, i, j), 2)
        a, b = du(d - 1), du(d - 1)
        c = r.randrange(2)
        return "v.c[%d] ? %s : %s" % (c, a[0], b[0]), "? c%d %s %s" % (c, a[1], b[1]), 1 + a[2] + b[2]

    es = {}
    while len(es) < count:
        kind = r.choice("tttfd")
        d = r.choice([1, 1, 2, 2, 3, 3, 4, 5])
        e = {"t": tv, "f": fv, "d": du}[kind](d)
        if e[2] > 1 and e[2] < 40 and len(e[0]) < 900:
            es[(kind, e[0])] = e
    items = sorted(es.items(), key=lambda x: (x[1][2], len(x[0][1]), x[0]))
    with open(out, "w") as f:
        f.write('#include "c10.h"\n')
        for i, ((kind, text), e) in enumerate(items):
            # the direct result: the value used as the generated monitors use it
            ty = {"t": "three_valued_type", "f": "four_valued_type", "d": "duration"}[kind]
            f.write("static void e%d(const Val &v, Out &o) { %s x = %s; o = x; }\n" % (i, ty, text))
        f.write("const Expr exprs[] = {\n")
        for i, ((kind, text), e) in enumerate(items):
            f.write('  {\'%s\', e%d, "%s", "%s"},\n' % (kind, i, e[1], text))
        f.write("};\nconst unsigned nexprs = %d;\n" % len(items))


main()
