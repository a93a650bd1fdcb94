"""gen_switch.py SEED TIER PART OUT: a program instantiating the drivers of switch_for.hpp with random ranges and lists"""
import random, sys
seed, tier, part, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
rnd = random.Random('%s/%d' % (seed, part))
big = tier == 'thorough'
T = {'int8_t': (-128, 127), 'uint8_t': (0, 255), 'int16_t': (-2**15, 2**15-1), 'uint16_t': (0, 2**16-1), 'int': (-2**31, 2**31-1), 'unsigned': (0, 2**32-1),
     'long': (-2**63, 2**63-1), 'size_t': (0, 2**64-1), 'long long': (-2**63, 2**63-1), 'char': (-128, 127)}


def lit(t, v):
    lo, hi = T[t]
    if v == -2**63:
        s = '(-9223372036854775807LL - 1)'
    elif v > 2**63-1:
        s = '%dULL' % v
    else:
        s = '%dLL' % v
    return 'static_cast<%s>(%s)' % (t, s)


def pick(t, span):
    lo, hi = T[t]
    mode = rnd.randrange(6)
    n = rnd.randrange(span + 1)
    if mode == 0: a = lo
    elif mode == 1: a = hi - n
    elif mode == 2: a = max(lo, -rnd.randrange(n + 1))
    elif mode == 3: a = 0
    else: a = rnd.randint(lo, hi)
    a = max(lo, min(hi - n, a))
    return (a, a + n) if rnd.randrange(2) else (a + n, a)


lines = []
types = list(T)
if part == 0:      # switches
    todo = [(t,) + pick(t, 12) for t in types for _ in range(4 if big else 1)]
    todo += [('int8_t', -100, 100)] if rnd.randrange(2) else [('uint8_t', 255, 20)]
    t = rnd.choice(types); todo.append((t, T[t][1], T[t][1] - 2)); t = rnd.choice(types); todo.append((t, T[t][0], T[t][0] + 2))
    t = rnd.choice(types); v = rnd.randint(*T[t]); todo.append((t, v, v))
    for t, a, b in todo:
        lines.append('Switch<%s, %s, %s, false>::run(r);' % (t, lit(t, a), lit(t, b)))
    for _ in range(8 if big else 4):
        t = rnd.choice(types)
        n = rnd.randint(max(-9, T[t][0]), 9)
        lines.append('Switch<%s, 0, %s, true>::run(r);' % (t, lit(t, n)))
    lines.append('Switch<bool, false, true, false>::run(r);')
    lines.append('switch_bools(r);')
else:
    todo = [(t,) + pick(t, 14) for t in types for _ in range(3 if big else 1)]
    todo.append(rnd.choice([('int8_t', -128, 127), ('int8_t', 127, -128), ('uint8_t', 0, 255), ('char', 100, -100), ('uint8_t', 255, 0), ('int8_t', -70, 80)]))
    todo += [('int', -3, 4), ('int', 4, -3)]
    for t in rnd.sample(types, 3):
        v = rnd.randint(*T[t]); todo.append((t, v, v))
    for t, a, b in todo:
        lines.append('ranges<%s, %s, %s>(r);' % (t, lit(t, a), lit(t, b)))
    mang = {'int8_t': 'a', 'uint8_t': 'h', 'int16_t': 's', 'uint16_t': 't', 'int': 'i', 'unsigned': 'j', 'long': 'l', 'size_t': 'm', 'long long': 'x', 'char': 'c'}
    for _ in range(20 if big else 8):
        xs, want = [], []
        for _ in range(rnd.choice([0, 1, 2, 5, 9])):
            k = rnd.randrange(8)
            if k == 0:
                xs.append(rnd.choice(['true', 'false'])); want.append('b:%d' % (xs[-1] == 'true'))
            elif k == 1:
                v = rnd.randrange(100); xs.append('Text{%d}' % v); want.append('obj:%d' % v)
            else:
                t = rnd.choice(types); v = rnd.randint(*T[t]) if rnd.randrange(2) else max(T[t][0], rnd.randint(-5, 5))
                xs.append(lit(t, v)); want.append('%s:%d' % (mang[t], v))
        lines.append('values<%s>(r, {%s});' % (', '.join(xs), ', '.join('std::string("%s")' % w for w in want)))
    tys = ['int', 'char const', 'int &', 'int &&', 'void', 'std::string', 'int[3]', 'void()', 'Text', 'double volatile *', 'std::vector<int> const &', 'long(int) const', 'std::unique_ptr<int>']
    for _ in range(12 if big else 6):
        lines.append('types<%s>(r);' % ', '.join(rnd.choice(tys) for _ in range(rnd.choice([0, 1, 2, 4, 8]))))
with open(out, 'w') as f:
    f.write('#include "switch_for.hpp"\n')
    for i, l in enumerate(lines):
        f.write('static void c%d(vt::Rng &r) { %s }\n' % (i, l))
    f.write('static void vt_main() {\n    static void (*const cases[])(vt::Rng &) = {%s};\n' % ', '.join('c%d' % i for i in range(len(lines))))
    f.write('    vt::run("%s", %d, [&](vt::Rng &r, uint64_t i) { cases[i](r); }, false);\n}\nVT_MAIN\n' % ('switch' if part == 0 else 'loops', len(lines)))
