"""gen_fwd.py SEED TIER PART OUT: a program instantiating the drivers of fwd.hpp (part 0, 2: bind_front, 1, 3: match)"""
import random, sys
seed, tier, part, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
rnd = random.Random('%s/%d' % (seed, part))
defs, lines = [], []
CATS = ['L', 'CL', 'R', 'CR']
def arg(k, cats=CATS): return 'Arg<%s, %s>' % (k, rnd.choice(cats))
def args(l): return 'Args<%s>' % ', '.join(l)
def bind():
    kind = rnd.randrange(10)
    movable = ['L', 'CL', 'R', 'CR']
    def anyarg(bound):
        k = rnd.choice(['KInt', 'KDouble', 'KObj', 'KObj', 'KMo', 'KUp', 'KStr', 'KArr', 'KFun', 'KRef'])
        if k in ('KMo', 'KUp') and bound: return arg(k, ['R'])
        if k == 'KFun': return arg(k, ['L'])
        if k == 'KArr' and not bound: k = 'KStr'
        return arg(k)
    if kind < 5:
        func = rnd.choice(['Any<0>{}', 'Any<0, true>{}', 'Any<1>{}', 'Any<2>{}', 'Any<3>{}', 'Any<3, true>{}', 'Any<4>{}', 'Keyed{%d}' % rnd.randrange(1000), '[](auto &&...a) noexcept((sizeof...(a) > 2)) { ++g_calls; (see(std::forward<decltype(a)>(a)), ...); return sizeof...(a) * 1L; }'])
        b = [anyarg(True) for _ in range(rnd.choice([0, 1, 1, 2, 2, 3, 4, 6]))]
        c = [anyarg(False) for _ in range(rnd.choice([0, 0, 1, 1, 2, 3]))]
        if func.startswith(('Any<2', 'Any<3')):
            # the first/last argument is handed back: only by reference to something that lives on
            if not b and not c: b = [arg('KObj')]
            b = [x for x in b if 'KFun' not in x] or [arg('KObj')]
            c = [x for x in c if 'KFun' not in x]
    else:
        fs = [('f_int', ['KInt', 'KInt'], [CATS, CATS]), ('f_obj', ['KObj', 'KObj', 'KObj'], [CATS, ['R'], CATS]), ('f_ref', ['KObj', 'KInt'], [['L', 'CL'], CATS]), ('f_mo', ['KMo', 'KMo'], [['R'], ['R']]),
              ('f_up', ['KUp', 'KInt'], [['R'], CATS]), ('f_str', ['KStr', 'KStr', 'KArr'], [CATS, CATS, ['L', 'CL']]), ('f_int', ['KInt', 'KDouble'], [CATS, CATS]),
              ('&Cls::m', ['KCls', 'KInt'], [['L', 'R'], CATS]), ('&Cls::m', ['KPtr', 'KInt'], [CATS, CATS]), ('&Cls::mc', [rnd.choice(['KCls', 'KSub', 'KPtr', 'KSubRef']), 'KInt', 'KInt'], [CATS, CATS, CATS]),
              ('&Cls::ml', ['KSubRef', 'KInt'], [CATS, CATS]), ('&Cls::mr', ['KSub'], [['R']]), ('&Cls::virt', [rnd.choice(['KSub', 'KPtr', 'KSubRef']), 'KObj'], [CATS, CATS]), ('&Cls::x', [rnd.choice(['KSub', 'KPtr', 'KSubRef', 'KCls'])], [CATS])]
        func, kinds, cats = rnd.choice(fs)
        n = rnd.randrange(len(kinds) + 1)
        b, c = [], []
        for i, k in enumerate(kinds):
            if i < n: b.append(arg(k, ['R'] if k in ('KMo', 'KUp') else CATS))  # bound values may come from anything
            else: c.append(arg(k, cats[i]))
    name = 'bind_front<%s>(%s)(%s)' % (func[:20], ', '.join(b), ', '.join(c))
    lines.append('BindCase<%s, %s, %s>::run(r, "%s");' % (func, args(b), args(c), name))
TYPES = ['int', 'long', 'double', 'std::string', 'Obj1', 'Obj2', 'Mo', 'En', 'Base', 'Der', 'std::unique_ptr<int>', 'Thr']
def match(i):
    n = rnd.choice([1, 2, 2, 2, 3, 4, 6])
    ts = rnd.sample(TYPES, n)
    if rnd.randrange(4) == 0 and 'Thr' not in ts: ts[-1] = 'Thr'
    cat = rnd.choice(CATS)
    forms = {'L': ['T &', 'T const &', 'T'], 'CL': ['T const &', 'T'], 'R': ['T &&', 'T const &', 'T'], 'CR': ['T const &&', 'T const &', 'T']}[cat]
    gforms = {'L': ['auto &', 'auto const &', 'auto &&'], 'CL': ['auto &', 'auto const &', 'auto &&'], 'R': ['auto &&', 'auto const &'], 'CR': ['auto &&', 'auto const &']}[cat]
    moveonly = ('Mo', 'std::unique_ptr<int>')
    ret = rnd.choice(['int', 'int &', 'long', 'int const &'])
    hs = []
    generic = rnd.randrange(3) > 0
    for t in ts:
        if generic and rnd.randrange(2): continue
        fs = [f for f in forms if not (f == 'T' and t in moveonly and cat != 'R')]
        hs.append(rnd.choice(fs).replace('T', t, 1))
    if rnd.randrange(3) == 0 and cat == 'L' and hs:  # both constnesses: the better one is chosen
        t = rnd.choice(ts)
        hs = [h for h in hs if not h.replace('const', '').strip(' &') == t] + [t + ' &', t + ' const &']
    if rnd.randrange(3) == 0 and cat == 'R':
        t = rnd.choice(ts)
        hs = [h for h in hs if not h.replace('const', '').strip(' &') == t] + [t + ' &&', t + ' const &']
    if generic: hs.append(rnd.choice(gforms))
    if generic and rnd.randrange(3) == 0: hs.append('std::integral auto ' + hs[-1].split(' ', 1)[1])
    rnd.shuffle(hs)
    body = {'int': 'return %d;', 'long': 'return %dL;', 'int &': 'g_cell = %d; return g_cell;', 'int const &': 'g_cell = %d; return g_cell;'}[ret]
    def fn(k, h):
        return '(%s a)%%s-> %s { hit(%d, static_cast<decltype(a) &&>(a)); %s }' % (h, ret, k, body % (k * 10))
    defs.append('struct Vis%d {\n%s};' % (i, ''.join('    auto operator()%s\n' % (fn(k, h) % ' ') for k, h in enumerate(hs))))
    v = rnd.choice(['std::variant', 'dtl::variant', 'DerivedVariant'] + (['dtl::variant2'] * 4 if n == 2 else []))
    fl, pre, allmut = [], [], rnd.randrange(5) == 0  # mixing const and mutable call operators is ambiguous for visit, too
    for k, h in enumerate(hs):
        style = 2 if allmut else rnd.choice([0, 1, 3, 4])
        if style == 0: fl.append('[]' + fn(k, h) % ' ')
        elif style == 1: fl.append('[p = std::make_unique<int>(%d)]' % k + fn(k, h) % ' ')  # a move-only handler
        elif style == 2: fl.append('[n = 0]' + fn(k, h) % ' mutable ')
        else:
            pre.append('auto %sl%d = []%s;' % ('const ' if style == 3 else '', k, fn(k, h) % ' '))
            fl.append('l%d' % k)
    pre = ' '.join(pre)
    lines.append('%s MatchCase<%s<%s>, %s, Vis%d, %s>::run(r, "match %s of %s<%s> with (%s)", [&](auto f) -> decltype(auto) { return f(%s); });' % (pre, v, ', '.join(ts), cat, i, ', '.join(ts), cat, v, ', '.join(ts), '; '.join(hs), ', '.join(fl)))
N = {0: 34, 1: 34}[part % 2] * (2 if tier == 'thorough' else 1)
for i in range(N):
    bind() if part % 2 == 0 else match(i)
with open(out, 'w') as f:
    f.write('#include "fwd.hpp"\n' + '\n'.join(defs) + '\n')
    for i, l in enumerate(lines):
        f.write('static void c%d(vt::Rng &r) { %s }\n' % (i, l))
    f.write('static void vt_main() {\n    static void (*const cases[])(vt::Rng &) = {%s};\n' % ', '.join('c%d' % i for i in range(len(lines))))
    f.write('    vt::run("fwd", %d, [&](vt::Rng &r, uint64_t i) { cases[i](r); }, false);\n}\nVT_MAIN\n' % len(lines))
