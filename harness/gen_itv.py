"""gen_itv.py SEED TIER PART OUT: a program instantiating the driver of itv.hpp with random index ranges"""
import random, sys
seed, tier, part, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
rnd = random.Random('%s/%d' % (seed, part))
T = {'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-2**15, 2**15-1), 'unsigned short': (0, 2**16-1), 'int': (-2**31, 2**31-1), 'unsigned': (0, 2**32-1), 'long': (-2**63, 2**63-1), 'unsigned long': (0, 2**64-1)}
def lit(t, v):
    s = '(-9223372036854775807LL - 1)' if v == -2**63 else '%dULL' % v if v > 2**63-1 else '%dLL' % v
    return 'static_cast<%s>(%s)' % (t, s)
todo = [('int', -2, 3, 'Mixed'), ('int', 3, -2, rnd.choice(['Mixed', 'Ctor']))] if part == 0 else [('long', 2, -2, 'MoveOnly')]
for _ in range((12 if tier == 'thorough' else 6)):
    t = rnd.choice(list(T))
    lo, hi = T[t]
    n = rnd.choice([1, 2, 3, 4, 6])
    a = rnd.choice([lo, hi - n, max(lo, -(n // 2)), 0, rnd.randint(lo, hi - n)])
    p = (a, a + n) if rnd.randrange(2) else (a + n, a)
    todo.append((t,) + p + (rnd.choice(['Mixed', 'Ctor', 'MoveOnly', 'Plain']),))
pin = [(t, a, b) for t, a, b, k in todo if rnd.randrange(3) == 0 or a < 0][:3]
lines = ['pinned_range<%s, %s, %s>(r);' % (t, lit(t, a), lit(t, b)) for t, a, b in pin] + ['Itv<%s, %s, %s, %s>::run(r);' % (t, lit(t, a), lit(t, b), k) for t, a, b, k in todo]
for _ in range(2):
    t = rnd.choice(list(T)); lines.append('empty_range<%s, %s>(r);' % (t, lit(t, rnd.randint(*T[t]))))
with open(out, 'w') as f:
    f.write('#include "itv.hpp"\n')
    for i, l in enumerate(lines):
        f.write('static void c%d(vt::Rng &r) { %s }\n' % (i, l))
    f.write('static void vt_main() {\n    static void (*const cases[])(vt::Rng &) = {%s};\n' % ', '.join('c%d' % i for i in range(len(lines))))
    f.write('    vt::run("itv", %d, [&](vt::Rng &r, uint64_t i) { cases[i](r); }, false);\n}\nVT_MAIN\n' % len(lines))
