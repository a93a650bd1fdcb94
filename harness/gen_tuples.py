"""gen_tuples.py SEED TIER PART OUT: a program instantiating the drivers of tuples.hpp with random type lists / index ranges"""
import random, sys
seed, tier, part, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
rnd = random.Random('%s/%d' % (seed, part))
big = tier == 'thorough'
TY = ['char', 'short', 'int', 'long', 'double', 'bool', 'float', 'unsigned char', 'char16_t', 'Words', 'EmptyA', 'EmptyB', 'Three', 'Wide16', 'Two', 'L1', 'L2', 'MO', 'long double']
lines = []
if part != 3:
    lines.append('empty_tuple(r);')
    todo = [[], ['EmptyA', 'EmptyA'], ['char', 'char', 'int']] if part == 0 else [[rnd.choice(['int', 'Words', 'L1', 'Three'])], [rnd.choice(TY)]]
    for _ in range(24 if big else 5):
        n = rnd.choice([1, 2, 2, 3, 3, 4, 5, 6])
        pool = rnd.sample(TY, rnd.randint(1, n)) if rnd.randrange(3) else TY
        todo.append([rnd.choice(pool) for _ in range(n)])
    for _ in range(1):
        todo.append([rnd.choice(TY)] * rnd.randint(2, 4))
    for l in todo:
        lines.append('Slt<%s>::run(r);' % ', '.join(l))
    for l in [['int', 'int'], ['Words'] * rnd.randint(1, 4), ['Two'] * rnd.randint(1, 4), [rnd.choice(['L1', 'L2']) for _ in range(rnd.randint(1, 4))], ['Wide16', 'int', 'long', 'L1'][:rnd.randint(1, 4)], ['int']]:
        lines.append('Uniform<%s>::run(r);' % ', '.join(l))
else:
    T = {'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-2**15, 2**15-1), 'unsigned short': (0, 2**16-1), 'int': (-2**31, 2**31-1), 'unsigned': (0, 2**32-1), 'long': (-2**63, 2**63-1), 'unsigned long': (0, 2**64-1)}
    def lit(t, v):
        s = '(-9223372036854775807LL - 1)' if v == -2**63 else '%dULL' % v if v > 2**63-1 else '%dLL' % v
        return 'static_cast<%s>(%s)' % (t, s)
    todo = [('int', -2, 3, 'Num'), ('int', 3, -2, 'Fixed'), ('long', 4, 4, 'Fixed')]
    for t in T:
        lo, hi = T[t]
        for _ in range(4 if big else 1):
            n = rnd.choice([1, 2, 3, 4, 6, 8])
            a = rnd.choice([lo, hi - n, max(lo, -(n // 2)), 0, rnd.randint(lo, hi - n)])
            p = (a, a + n) if rnd.randrange(2) else (a + n, a)
            todo.append((t,) + p + (rnd.choice(['Num', 'Own', 'Fixed', 'Fixed']),))
    todo.append(rnd.choice([('signed char', -128, 60, 'Fixed'), ('unsigned char', 255, 60, 'Fixed'), ('signed char', 127, -100, 'Fixed')]) if big else ('signed char', 20, -20, 'Fixed'))
    for t, a, b, k in todo:
        lines.append('Itt<%s, %s, %s, %s>::run(r);' % (t, lit(t, a), lit(t, b), k))
with open(out, 'w') as f:
    f.write('#include "tuples.hpp"\n')
    for i, l in enumerate(lines):
        f.write('static void c%d(vt::Rng &r) { %s }\n' % (i, l))
    f.write('static void vt_main() {\n    static void (*const cases[])(vt::Rng &) = {%s};\n' % ', '.join('c%d' % i for i in range(len(lines))))
    f.write('    vt::run("%s", %d, [&](vt::Rng &r, uint64_t i) { cases[i](r); }, false);\n}\nVT_MAIN\n' % ('itt' if part == 3 else 'slt', len(lines)))
