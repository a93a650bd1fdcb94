"""gen_meta.py SEED TIER PART OUT: a program that compares type_list operations, lazy conditionals, type traits and literals (meta.hpp) with the
results of a Python model (even parts: type lists, odd parts: the rest)"""
import random, sys
seed, tier, part, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
rnd = random.Random('%s/%d' % (seed, part))
BIG = tier == 'thorough'
defs, cases = [], []

# ---------------------------------------------------------------------------------------------- the pool of types: (name, const version, integral, pointer, reference)
POOL = {}
def add(n, const=None, integral=0, pointer=0, ref=0):
    POOL[n] = dict(const=const or n, integral=integral, pointer=pointer, ref=ref, w=0)
for n in ('int', 'long', 'char', 'unsigned char', 'bool', 'unsigned long long', 'char8_t'):
    add(n, n + ' const', 1)
    add(n + ' const', integral=1)
for n in ('double', 'float', 'void', 'S0', 'S1', 'S2', 'Inc', 'Abs', 'Mo', 'En', 'Ec', 'std::nullptr_t', 'TL<>', 'TL<int>', 'TL<int, long>', 'TL<TL<>>', 'std::tuple<int>', 'box<int>'):
    add(n, n + ' const')
    add(n + ' const')
add('int volatile', 'int const volatile', 1)
add('int const volatile', integral=1)
for n in ('int *', 'int const *', 'void *', 'Inc *', 'int **'):
    add(n, n + 'const', pointer=1)
    add(n + 'const', pointer=1)
for n in ('int S1::*', 'void (S0::*)()', 'long (*)(int)'):
    add(n, n.replace('*)', '*const)') if '*)' in n else n + 'const', pointer=0 if 'S' in n else 1)
for n in ('int &', 'int &&', 'int const &', 'S0 &', 'Inc const &&', 'char (&)[3]', 'void (&)()'): add(n, ref=1)
for n in ('void()', 'int(int, ...)', 'void() const', 'long(int) noexcept'): add(n)
add('char[3]', 'char const[3]')
add('char[]', 'char const[]')
add('S1[2][2]', 'S1 const[2][2]')
NAMES = sorted(POOL)
for i, n in enumerate(NAMES):
    POOL[n]['w'] = i * 7 % 64 + 1
    defs.append('template<> inline constexpr int w<%s> = %d;' % (n, POOL[n]['w']))
def attr(t, a): return POOL[t][a] if t in POOL else 0
def W(t): return attr(t, 'w')
def lit(l): return 'TL<%s>' % ', '.join(l)
def q(s): return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', ' ')

# ---------------------------------------------------------------------------------------------- callbacks: (C++ expression, Python function)
def pred():
    k = rnd.randrange(9)
    if k == 0: return '[]<class T>(std::type_identity<T>) { return std::is_integral_v<T>; }', lambda t: bool(attr(t, 'integral'))
    if k == 1: return '[]<class T>(std::type_identity<T>) { return std::is_pointer<T>{}; }', lambda t: bool(attr(t, 'pointer'))
    if k == 2:
        n = rnd.choice([0, 10, 30, 50, 62, 99])
        return 'heavier{%d}' % n, lambda t: W(t) > n
    if k == 3:
        m = rnd.randrange(2, 6); c = rnd.randrange(m)
        return 'residue<%d, %d>{}' % (m, c), lambda t: W(t) % m == c
    if k == 4:
        m = rnd.choice([0, 1, 2, 4, 6, 12, 63, 64])
        return rnd.choice(['truthy{%d}', 'counted_int{%d}']) % m, lambda t: W(t) & m != 0
    if k == 5:
        s = rnd.sample(NAMES, rnd.randrange(1, 20))
        return '[](auto t) { return tl::contains_v<%s, typename decltype(t)::type>; }' % lit(s), lambda t: t in s
    if k == 6:
        b = rnd.choice([True, False])
        return '[](auto &&...) { return %s; }' % str(b).lower(), lambda t: b
    if k == 7: return '[]<class T>(std::type_identity<T>) -> bool { return std::is_reference_v<T>; }', lambda t: bool(attr(t, 'ref'))
    return '[]<class T>(std::type_identity<T>) consteval { if constexpr (std::is_same_v<std::add_const_t<T>, T>) return std::true_type{}; else return std::false_type{}; }', isconst
def isconst(t):
    if t in POOL: return POOL[t]['const'] == t
    return False
def func():
    k = rnd.randrange(7)
    if k == 0: return '[]<class T>(std::type_identity<T>) { return std::type_identity<box<T>>{}; }', lambda t: 'box<%s>' % t
    if k == 1: return '[](auto t) { return t; }', lambda t: t
    if k == 2:
        c = rnd.choice(NAMES)
        return '[](auto) { return std::type_identity<%s>{}; }' % c, lambda t: c
    if k == 3: return '[]<class T>(std::type_identity<T>) { return std::add_const<T>{}; }', lambda t: POOL[t]['const'] if t in POOL else (t if t.endswith(' const') else t + ' const')
    if k == 4:
        m = rnd.randrange(2, 5)
        cs = [rnd.choice(NAMES) for _ in range(m)]
        return '[]<class T>(std::type_identity<T>) { return tl::nth<%s, w<T> %% %d>{}; }' % (lit(cs), m), lambda t: cs[W(t) % m]
    if k == 5: return '[]<class T>(std::type_identity<T>) { struct res { using type = TL<T, T>; }; return res{}; }', lambda t: 'TL<%s, %s>' % (t, t)
    c = rnd.choice(NAMES); n = rnd.choice(NAMES)
    return '[]<class T>(std::type_identity<T>) { return std::conditional<std::is_same_v<T, %s>, %s, T>{}; }' % (c, n), lambda t: n if t == c else t
def named(decl):  # a callback used more than once has to be the same object: name it
    n = 'cb%d' % len(defs)
    defs.append('inline constexpr auto %s = %s;' % (n, decl))
    return n

# ---------------------------------------------------------------------------------------------- list expressions
def types(n, narrow=False):
    pool = rnd.sample(NAMES, rnd.randrange(1, 5)) if narrow or rnd.randrange(2) else NAMES
    return [rnd.choice(pool) for _ in range(n)]
LEN = [0, 0, 1, 1, 2, 3, 4, 5, 7, 9, 14]
def alias(e):
    n = 'L%d' % len(defs)
    defs.append('using %s = %s;' % (n, e))
    return n
def both(fn, *a):  # either spelling of a metafunction
    return ('tl::%s_t<%s>' if rnd.randrange(2) else 'typename tl::%s<%s>::type') % (fn, ', '.join(a))
def expr(d):
    if d == 0 or rnd.randrange(6) == 0:
        l = types(rnd.choice(LEN))
        return alias(lit(l)), l
    k = rnd.randrange(13)
    if k in (0, 1):
        subs = [expr(d - 1) for _ in range(rnd.choice([0, 1, 2, 2, 3, 4]))]
        return alias(both('concat', *[s[0] for s in subs])), sum((s[1] for s in subs), [])
    if k == 2:
        subs = [expr(d - 1) for _ in range(rnd.choice([0, 1, 2, 3, 5]))]
        return alias(both('flatten', 'TL<%s>' % ', '.join(s[0] for s in subs))), sum((s[1] for s in subs), [])
    if k == 9:
        n = rnd.choice([0, 1, 2, 3, 6])
        cs = [rnd.choice(NAMES) for _ in range(3)]
        c = rnd.choice([('[](auto i) { return tl::nth<%s, (i * 2 + 1) %% 3>{}; }' % lit(cs), lambda i: cs[(i * 2 + 1) % 3]),
                        ('[]<class I>(I) { return std::type_identity<I>{}; }', lambda i: 'std::integral_constant<size_t, %d>' % i)])
        return alias(both('generate', str(n), named(c[0]))), [c[1](i) for i in range(n)]
    e, l = expr(d - 1)
    if k in (3, 4):
        n = rnd.choice([0, len(l), rnd.randrange(len(l) + 1), rnd.randrange(len(l) + 1)])
        return (alias(both('drop', e, str(n))), l[n:]) if k == 3 else (alias(both('take', e, str(n))), l[:n])
    if k == 5:
        p = pred()
        return alias(both('filter', e, named(p[0]))), [t for t in l if p[1](t)]
    if k in (6, 7):
        f = func()
        return alias(both('transform', e, named(f[0]))), [f[1](t) for t in l]
    if k == 8: return alias(both('unique', e)), list(dict.fromkeys(l))
    if k == 10: return alias(both('unpack', both('apply', e, rnd.choice(['std::tuple', 'many', 'std::variant', 'tl::type_list'])))), l
    if k == 11: return alias(both('tuple_to_type_list', both('apply', e, 'std::tuple'))), l
    return e, l
def list_case(long=False):
    if long:
        cs = ['box<std::integral_constant<int, %d>>' % i for i in range(rnd.choice([10, 30, 60]))] + rnd.sample(NAMES, 10)
        l = [rnd.choice(cs) for _ in range(rnd.choice([40, 90]))]
        e = alias(lit(l))
    else: e, l = expr(rnd.choice([1, 2, 2, 3, 4]))
    o = ['same<%s, %s>(%s);' % (lit(l), e, q('the list %s = %s' % (e, dict((d.split(' = ')[0][6:], d.split(' = ', 1)[1]) for d in defs if d.startswith('using L'))[e])))]
    def T(want, fn, *a):
        what = q('%s<%s> with %s = %s' % (fn, ', '.join(a), e, lit(l)))
        f = 'tl::%s<%s>' % (fn, ', '.join(a))
        if want is None: o.append('no_type<%s>(%s);' % (f, what))
        else: o.append('same<%s, %s>(%s); same<%s, tl::opt_t<%s>>(%s);' % (want, both(fn, *a), what, want, f, what))
    def V(want, ty, fn, *a):
        what = q('%s<%s> with %s = %s' % (fn, ', '.join(a), e, lit(l)))
        f = 'tl::%s<%s>' % (fn, ', '.join(a))
        if want is None: o.append('no_value<%s>(%s);' % (f, what))
        else:
            if ty == 'bool': want = str(want).lower()
            o.append('value<%s>(%s, %s, tl::%s_v<%s>); value<%s>(%s, %s, %s::value); value<%s>(%s, %s, tl::opt_v<%s>);' % (ty, what, want, fn, ', '.join(a), ty, what, want, f, ty, what, want, f))
    V(len(l), 'size_t', 'size', e)
    T(l[0] if l else None, 'first', e)
    T(l[-1] if l else None, 'last', e)
    for i in {0, len(l) - 1, len(l), len(l) + 7, rnd.randrange(len(l) + 1), rnd.randrange(len(l) + 1)}:
        if i >= 0: T(l[i] if i < len(l) else None, 'nth', e, str(i))
    for _ in range(2):
        p = pred(); n = named(p[0])
        hit = [i for i, t in enumerate(l) if p[1](t)]
        T(l[hit[0]] if hit else None, 'find_if', e, n)
        V(hit[0] if hit else None, 'size_t', 'position', e, n)
        V(len(hit) == len(l), 'bool', 'all_of', e, n)
        V(bool(hit), 'bool', 'any_of', e, n)
        V(not hit, 'bool', 'none_of', e, n)
    for t in ([rnd.choice(l)] if l else []) + [rnd.choice(NAMES)]:
        V(l.count(t), 'size_t', 'count', e, t)
        V(t in l, 'bool', 'contains', e, t)
    V(len(set(l)) <= 1, 'bool', 'all_same', e)
    V(len(set(l)) == len(l), 'bool', 'all_distinct', e)
    ap = rnd.choice(['many', 'std::tuple', 'std::variant', 'tl::type_list'])
    T('%s<%s>' % (ap, ', '.join(l)), 'apply', e, ap)
    if len(l) == 2: T('two<%s>' % ', '.join(l), 'apply', e, 'two'), T(lit(l), 'unpack', 'two<%s>' % ', '.join(l))
    if len(l) == 1: T('box<%s>' % l[0], 'apply', e, 'box')
    T(lit(list(dict.fromkeys(l))), 'unique', e)
    n = rnd.randrange(len(l) + 1)
    o.append('same<%s, %s>("drop and take");' % (lit(l), both('concat', both('take', e, str(n)), both('drop', e, str(n)))))
    o.append('for (int i = 0; i < 4; ++i) run_for_each<%s, %s>(r, "for_each"), run_fold<%s, %s>(r, "fold");' % (e, lit(l), e, lit(l)))
    cases.append('\n    '.join(o))
def conversions():
    o = []
    for _ in range(6):
        t, lo, hi = rnd.choice([('int', -2**31, 2**31 - 1), ('unsigned char', 0, 255), ('long', -2**63 + 1, 2**63 - 1), ('signed char', -128, 127), ('size_t', 0, 2**64 - 1)])
        v = [rnd.choice([lo, hi, 0, rnd.randint(lo, hi)]) for _ in range(rnd.choice([0, 1, 2, 3, 6]))]
        v = [(str(x) + ('ull' if x > 2**63 - 1 else 'll')) for x in v]
        v = ['(-2147483647ll - 1)' if x == '-2147483648ll' else x for x in v]
        v = ['static_cast<%s>(%s)' % (t, x) for x in v]
        o.append('same<%s, %s>("integer sequence");' % (lit(['std::integral_constant<%s, %s>' % (t, x) for x in v]), both('integer_sequence_to_type_list', 'std::integer_sequence<%s>' % ', '.join([t] + v))))
        n = rnd.choice([0, 1, 3, 40])
        o.append('same<%s, %s>("index sequence");' % (lit(['std::integral_constant<size_t, %d>' % x for x in range(n)]), both('integer_sequence_to_type_list', 'std::make_index_sequence<%d>' % n)))
        l = [x for x in types(rnd.choice([0, 1, 2, 4, 6]))]
        T = 'std::tuple<%s>' % ', '.join(l)
        o.append('same<%s, %s>("tuple");' % (lit(l), both('tuple_to_type_list', T)))
        o.append('same<%s, %s>("const tuple");' % (lit([POOL[x]['const'] for x in l]), both('tuple_to_type_list', T + ' const')))
        n = rnd.choice([0, 1, 2, 5])
        o.append('same<%s, %s>("array");' % (lit(['S1'] * n), both('tuple_to_type_list', 'std::array<S1, %d>' % n)))
        a, b = rnd.choice(NAMES), rnd.choice(NAMES)
        o.append('same<TL<%s, %s>, %s>("pair");' % (a, b, both('tuple_to_type_list', 'std::pair<%s, %s>' % (a, b))))
        o.append('same<TL<%s, %s>, %s>("pair");' % (a, b, both('unpack', 'std::pair<%s, %s>' % (a, b))))
        o.append('same<TL<%s>, %s>("box");' % (a, both('unpack', 'box<%s>' % a)))
    o.append('same<TL<%s>, %s>("own tuple");' % (', '.join('box<std::integral_constant<size_t, %d>>' % i for i in range(3)), both('tuple_to_type_list', 'Own')))
    o.append('same<TL<int, std::allocator<int>>, %s>("vector");' % both('unpack', 'std::vector<int>'))
    cases.append('\n    '.join(o))

# ---------------------------------------------------------------------------------------------- lazy conditionals: an expression and its result; what is not selected may be anything
BAD = ['poison<int>', 'poison_member<long>', 'never<int>', 'typeless<int>', 'int', 'void', 'tl::first<TL<>>', 'poison<TL<>> &']
def junk(d):
    if d and rnd.randrange(4) == 0: return lazy(d - 1)[0]
    if d and rnd.randrange(5) == 0: return 'dtl::lazy_conditional<%s, poison<int>, %s>' % (rnd.choice(['true', 'false']), junk(d - 1))
    return rnd.choice(BAD[:4] + ['tl::first<TL<>>', 'Inc', 'S0'])
def junk_case(d): return rnd.choice(['poison<int>', 'poison_member<long>', 'poison<TL<>>', 'never<int>', 'typeless<long>', 'Inc', 'tl::first<TL<>>']) if rnd.randrange(3) else junk(d)
def cond(b):
    k = rnd.randrange(4)
    if k == 0: return str(b).lower()
    if k == 1: return 'std::is_integral_v<%s>' % ('int' if b else 'S0')
    if k == 2: return '(sizeof(char) %s 1)' % ('==' if b else '!=')
    return 'tl::contains_v<TL<int, long>, %s>' % ('long' if b else 'char')
def lazy(d):
    if d <= 0 or rnd.randrange(5) == 0:
        t = rnd.choice(NAMES)
        k = rnd.randrange(4)
        if k == 0: return 'derived_id<%s>' % t, t
        if k == 1: return 'std::type_identity<%s>' % t, t
        if k == 2: return 'tl::nth<TL<int, %s>, 1>' % t, t
        return 'id<%s>' % t, t
    k = rnd.randrange(3)
    e, t = lazy(d - 1)
    if k == 0:
        b = rnd.random() < .5
        return 'dtl::lazy_conditional<%s, %s, %s>' % ((cond(b),) + ((e, junk(d - 1)) if b else (junk(d - 1), e))), t
    n = rnd.choice([0, 1, 2, 3, 5])
    before = ['dtl::case_<%s, %s>' % (cond(False), junk_case(d - 1)) for _ in range(n)]
    after = ['dtl::case_<%s, %s>' % (cond(rnd.random() < .5), junk_case(d - 1)) for _ in range(rnd.choice([0, 0, 1, 2]))]
    mine = 'dtl::case_<%s, %s>' % (cond(True), e)
    if k == 1: return 'dtl::lazy_switch<%s>' % ', '.join(before + [mine] + after), t
    if rnd.randrange(2): return 'dtl::lazy_switch_default<%s>' % ', '.join([e] + before), t
    return 'dtl::lazy_switch_default<%s>' % ', '.join([junk(d - 1)] + before + [mine] + after), t
def lazy_case():
    o = []
    for _ in range(8):
        e, t = lazy(rnd.choice([1, 2, 2, 3]))
        spell = 'typename %s::type' % e
        for fn in ('lazy_conditional', 'lazy_switch_default', 'lazy_switch'):
            if e.startswith('dtl::%s<' % fn) and rnd.randrange(2): spell = e.replace('dtl::%s<' % fn, 'dtl::%s_t<' % fn, 1)
        if 'dtl::' in e: o.append('vt::count("lazy_selections");')
        o.append('same<%s, %s>(%s);' % (t, spell, q(e)))
    cases.append('\n    '.join(o))

# ---------------------------------------------------------------------------------------------- qualifier copying: a type is (base, kind, const, volatile, reference)
BASES = [('int', 'o'), ('S0', 'o'), ('Inc', 'o'), ('Abs', 'o'), ('En', 'o'), ('int *', 'o'), ('int const *', 'o'), ('int S1::*', 'o'), ('char[3]', 'a'), ('S1[]', 'a'), ('void', 'v'), ('void()', 'f'), ('long(int) noexcept', 'f'), ('std::unique_ptr<int>', 'o')]
def spell(b, k, c, v, r):
    n = 'std::type_identity_t<%s>' % b
    s = n + (' const' if c else '') + (' volatile' if v else '')
    return s + [' ', ' &', ' &&'][r]
def qual():
    b, k = rnd.choice(BASES)
    c = v = 0
    if k != 'f': c, v = rnd.randrange(2), rnd.randrange(2)
    r = 0 if k == 'v' else rnd.randrange(3)
    return b, k, c, v, r
def traits_case():
    o = []
    for _ in range(12):
        F, T = qual(), qual()
        fb, fk, fc, fv, fr = F
        tb, tk, tc, tv, tr = T
        if fr: fc = fv = 0      # a reference is not const itself
        def cv(c, v, t=T): return t if t[4] or t[1] == 'f' else (t[0], t[1], t[2] or c, t[3] or v, 0)
        def ref(r, t): return t if r == 0 else (t[:4] + ((1 if 1 in (r, t[4]) else 2),))
        def emit(fn, want):
            a = spell(*F), spell(*T)
            o.append('same<%s, dtl::%s%s>(%s);' % (spell(*want), '%s_t<%s, %s>' % ((fn,) + a) if rnd.randrange(2) else '%s<%s, %s>::type' % ((fn,) + a), '', q('%s<%s, %s>' % ((fn,) + a))))
        emit('copy_const', cv(fc, 0))
        emit('copy_volatile', cv(0, fv))
        emit('copy_cv', cv(fc, fv))
        if not (tk == 'v' and fr): emit('copy_reference', ref(fr, T))
        if not (tk == 'v' and fr): emit('copy_cvref', ref(fr, cv(F[2] if fk != 'f' else 0, F[3] if fk != 'f' else 0)))
        o.append('vt::count("qualifiers_copied");')
    cases.append('\n    '.join(o))
zn = [0]
def zst_case():
    o = []
    made = []  # (name, empty, final)
    for _ in range(rnd.choice([4, 8])):
        zn[0] += 1
        n = 'Z%d_%d' % (part, zn[0])
        k = rnd.randrange(9)
        al = rnd.choice(['', '', '', 'alignas(2) ', 'alignas(8) ', 'alignas(16) ', 'alignas(64) '])
        body, empty, bases = '', True, []
        if rnd.randrange(3) == 0: body += 'int f() const; static int s; using T = int; enum { q1, q2 }; '
        if rnd.randrange(4) == 0: body += '%s(int); %s() = delete; ~%s(); ' % (n, n, n)
        for m in rnd.sample([x for x in made if not x[2]], min(len([x for x in made if not x[2]]), rnd.choice([0, 0, 1, 2]))):  # bases without bases: no type twice
            bases.append(m[0]); empty = empty and m[1]
        if k == 0: body += rnd.choice(['char c; ', 'int i; ', 'int &r; ', 'char a[1]; ', 'int b : 1; ', 'void *p; ']); empty = False
        if k == 1: body += 'virtual void v(); '; empty = False
        if k == 2: body += 'S0 member; '; empty = False  # a member without the attribute takes space
        if k == 3: body += 'int : 0; '
        if k == 4 and not bases: body += '[[no_unique_address]] S0 member; '
        if k == 5: bases = ['virtual ' + x for x in bases] or ['virtual S0']; empty = False
        final = rnd.randrange(4) == 0
        if bases: al = ''
        defs.append('struct %s%s%s%s { %s};' % (al, n, ' final' if final else '', ' : ' + ', '.join(bases) if bases else '', body))
        if not bases and 'S0' not in body: made.append((n, empty, final))
        o.append('zst<%s>(%s, %s);' % (n + rnd.choice(['', '', ' const', ' volatile']), q(defs[-1]), str(empty).lower()))
    for t in rnd.sample(['int', 'void', 'char', 'int *', 'int &', 'S0 &', 'std::string', 'S1', 'bool', 'char[1]', 'std::tuple<int>', 'double const', 'En', 'void (*)()', 'std::unique_ptr<int>'], 5): o.append('zst<%s>(%s, false);' % (t, q(t)))
    for t in rnd.sample(['S0', 'std::tuple<>', 'TL<int>', 'std::less<int>', 'std::allocator<long>', 'std::true_type', 'std::monostate', 'tl::nullopt', 'std::default_delete<int>', 'decltype([] {})'], 4): o.append('zst<%s>(%s, true);' % (t, q(t)))
    cases.append('\n    '.join(o))
def opt_case():
    o = []
    for _ in range(6):
        zn[0] += 1
        n = 'Opt%d_%d' % (part, zn[0])
        ty = rnd.choice(NAMES) if rnd.randrange(3) else None
        v = rnd.choice([('int', str(rnd.randrange(-50, 50))), ('bool', rnd.choice(['true', 'false'])), ('size_t', str(rnd.randrange(100)) + 'u'), ('char', "'%s'" % rnd.choice('abc'))]) if rnd.randrange(3) else None
        body = ('using type = %s; ' % ty if ty else '') + ('static constexpr %s value = %s; ' % v if v else '')
        defs.append('struct %s_b { %s};' % (n, body) if rnd.randrange(3) == 0 else '')
        inherit = bool(defs[-1])
        defs.append('struct %s%s { %s};' % (n, ' : ' + n + '_b' if inherit else '', '' if inherit else body))
        what = q('opt<%s> of a struct with %s' % (n, body or 'nothing'))
        want = ty or 'tl::nullopt'
        o.append('same<%s, tl::opt_t<%s>>(%s); same<%s, typename tl::opt<%s>::type>(%s); vt::count("opts");' % (want, n, what, want, n, what))
        if v: o.append('value<%s>(%s, %s, tl::opt_v<%s>); value<%s>(%s, %s, tl::opt<%s>::value);' % (v[0], what, v[1], n, v[0], what, v[1], n))
        else: o.append('same<tl::nullopt const, decltype(tl::opt_v<%s>)>(%s); same<tl::nullopt const, decltype(tl::opt<%s>::value)>(%s);' % (n, what, n, what))
    cases.append('\n    '.join(o))
def strict_case():
    o = []
    ARGS = ['int', 'int &', 'int const &', 'int &&', 'Mo', 'Mo &', 'Mo &&', 'double', 'S0', 'S2', 'S2 &', 'S0 const &', 'std::unique_ptr<int>', 'int *', 'char']
    RES = ['void', 'int', 'int &', 'int const &', 'int &&', 'S0', 'S2', 'S0 const &', 'Mo', 'long', 'char const *']
    for _ in range(14):
        n = rnd.choice([0, 1, 1, 2])
        ps = [rnd.choice(ARGS) for _ in range(n)]
        r = rnd.choice(RES)
        args = [rnd.choice(ARGS) if rnd.randrange(2) else p for p in ps]
        if rnd.randrange(10) == 0: args = args[:-1]
        R = r if rnd.randrange(2) else rnd.choice(RES)
        k = rnd.randrange(4)
        if k == 0: f = '%s (*)(%s)' % (r, ', '.join(ps)) + rnd.choice(['', ' noexcept'])
        elif k == 1:
            f = 'std::type_identity_t<%s(%s)> &' % (r, ', '.join(ps))
        elif k == 2:
            zn[0] += 1
            nme = 'Fn%d_%d' % (part, zn[0])
            fq = rnd.choice(['', ' const', ' &', ' &&', ' const &'])
            defs.append('struct %s { %s operator()(%s)%s; };' % (nme, r, ', '.join(ps), fq))
            f = nme + rnd.choice(['', ' &', ' const &', ' &&', ' const'])
        else:
            f = '%s (S0::*)(%s)%s' % (r, ', '.join(ps), rnd.choice(['', ' const', ' &', ' &&']))
            args = [rnd.choice(['S0 &', 'S0', 'S2 &', 'S0 *', 'S0 const &', 'std::reference_wrapper<S0>', 'std::unique_ptr<S2>', 'int'])] + args
        o.append('strict<%s>(%s);' % (', '.join([R, f] + args), q(', '.join([R, f] + args))))
    cases.append('\n    '.join(o))
def literal_case():
    o = ['using namespace dtl::literals;']
    for _ in range(14):
        s, t, hi = rnd.choice([('u8', 'uint8_t', 8), ('i8', 'int8_t', 7), ('u16', 'uint16_t', 16), ('i16', 'int16_t', 15), ('u32', 'uint32_t', 32), ('i32', 'int32_t', 31), ('u64', 'uint64_t', 64), ('i64', 'int64_t', 63), ('usize', 'size_t', 64),
                               ('isize', 'ptrdiff_t', 63), ('uptr', 'uintptr_t', 64), ('iptr', 'intptr_t', 63)])
        v = rnd.choice([0, 1, 2**hi - 1, 2**hi - 2, 2**(hi - 1), rnd.randrange(2**hi), rnd.randrange(2**rnd.randrange(1, hi + 1))])
        txt = rnd.choice(['%d' % v, '%d' % v, '0x%x' % v, '0X%X' % v, '0%o' % v, '0b' + bin(v)[2:]])
        if rnd.randrange(3) == 0 and len(txt) > 4:
            i = rnd.randrange(3, len(txt)); txt = txt[:i] + "'" + txt[i:]
        lit_ = '%s_%s' % (txt, s)
        o.append('value<%s>(%s, static_cast<%s>(%dull), %s); vt::count("literals");' % (t, q(lit_), t, v, lit_))
        o.append('{ static constexpr auto c = %s; value<%s>(%s, static_cast<%s>(%dull), c); if (!noexcept(%s)) vt::fail("meta:literal", "not noexcept"); }' % (lit_, t, q(lit_), t, v, lit_))
    cases.append('\n    '.join(o))
if part % 2 == 0:
    for _ in range(60 if BIG else 34): list_case()
    for _ in range(4): conversions()
    for _ in range(2): opt_case()
    for _ in range(3): list_case(True)
else:
    for _ in range(2 if BIG else 1):
        for _ in range(22): lazy_case()
        for _ in range(22): traits_case()
        for _ in range(12): zst_case()
        for _ in range(12): strict_case()
        for _ in range(20): literal_case()
with open(out, 'w') as f:
    f.write('#include "meta.hpp"\n' + '\n'.join(defs) + '\n')
    for i, c in enumerate(cases): f.write('static void c%d([[maybe_unused]] vt::Rng &r) {\n    %s\n}\n' % (i, c))
    f.write('static void vt_main() {\n    static void (*const cases[])(vt::Rng &) = {%s};\n' % ', '.join('c%d' % i for i in range(len(cases))))
    f.write('    vt::run("meta", %d, [&](vt::Rng &r, uint64_t i) { cases[i](r); }, false);\n}\nVT_MAIN\n' % len(cases))
