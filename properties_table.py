"""Which harness units decide which property.  See DESIGN.md for the oracles."""
PROPS = {}


def prop(pid, rule, units, level='exploration', assumptions=(), **kw):
    for u in units:
        if isinstance(u['src'], str):
            u['src'] = [u['src']]
    PROPS[pid] = dict(rule=rule, units=units, level=level, assumptions=list(assumptions), **kw)


def unit(name, src, flavor, quick=100, thorough=1000, **kw):
    return dict(name=name, src=src, flavor=flavor, scale=dict(quick=quick, thorough=thorough), **kw)


CHAN_RULE = ('a case is a random concurrent program (2-5 threads, up to 18 operations, capacity 0-8, elements with scheduling points in their '
             'constructors) executed once under the controlled scheduler with its own schedule; distinct = distinct (program, complete trace of scheduling '
             'decisions and blocking events)')
prop('C01', CHAN_RULE, [
    unit('sched', 'chan_sched.cpp', 'sched', 600, 8000),
    unit('stress', 'chan_stress.cpp', 'tsan', 20, 300, env={'CHAN_WHICH': 'c'}, shards=2, weight=4),
], must_observe=["histories_linearized", "context_switches"], assumptions=["sequentially consistent interleavings; weak-memory effects are left to ThreadSanitizer in C03"])
prop('C02', CHAN_RULE, [
    unit('sched', 'chan_sched.cpp', 'sched', 500, 8000),
    unit('except', 'chan_except.cpp', 'sched', 800, 6000, env={'CHAN_WHICH': 'c'}),
    unit('stress', 'chan_stress.cpp', 'tsan', 20, 300, env={'CHAN_WHICH': 'c'}, shards=2, weight=4),
], must_observe=['legal_stalls_resolved_by_close', 'blocked_waits'])
prop('C03', 'a case is a multi-threaded run of the real code (2-8 threads, tens to hundreds of operations each) watched by ThreadSanitizer or AddressSanitizer and '
     'exactly-once/ordering monitors, an iterator life-cycle program, or a controlled-scheduler execution with throwing elements; distinct = distinct programs/schedules', [
    unit('tsan', 'chan_stress.cpp', 'tsan', 40, 600, weight=2),
    unit('asan', 'chan_stress.cpp', 'asan', 40, 600, weight=2),
    unit('except', 'chan_except.cpp', 'sched', 500, 6000),
], must_observe=['exceptions_thrown_by_elements'])
prop('C04', CHAN_RULE, [
    unit('sched', 'chan_sched.cpp', 'sched', 600, 8000, env={'CHAN_EXCHANGE': '1'}),
    unit('except', 'chan_except.cpp', 'sched', 800, 6000, env={'CHAN_WHICH': 'x'}),
    unit('stress', 'chan_stress.cpp', 'tsan', 20, 300, env={'CHAN_WHICH': 'x'}, shards=2, weight=4),
], must_observe=['histories_linearized', 'blocked_waits'])
LOCK_RULE = ('a case is a random program (2-5 threads, 1-3 mutexes, guards acquired, tried, moved, assigned over, swapped, dropped and left by exceptions) run '
             'under one schedule of the controlled scheduler, or a free-running multi-threaded run under ThreadSanitizer; distinct = distinct (program, schedule)')
prop('C05', LOCK_RULE, [
    unit('sched', 'mutex_sched.cpp', 'sched', 500, 8000),
    unit('tsan', 'mutex_stress.cpp', 'tsan', 200, 3000, shards=4, weight=2),
    unit('asan', 'mutex_stress.cpp', 'asan', 100, 1000, shards=2, weight=2),
], must_observe=['histories_linearized', 'failed_try_locks', 'guard_moves'])
prop('C06', LOCK_RULE, [
    unit('sched', 'mutex_sched.cpp', 'sched', 500, 8000, env={'MUTEX_SHARED': '1'}),
    unit('tsan', 'mutex_stress.cpp', 'tsan', 200, 3000, shards=4, weight=2, env={'MUTEX_SHARED': '1'}),
    unit('asan', 'mutex_stress.cpp', 'asan', 100, 1000, shards=2, weight=2, env={'MUTEX_SHARED': '1'}),
], must_observe=['histories_linearized', 'failed_try_locks', 'guard_moves'])
prop('C07', 'a case is a random program of 4-27 operations over four variants of one pair of alternative types (17 pairs, 40% of the operations with an injected '
     'exception), judged after every operation against an (alternative, value) model; distinct = distinct (program prefix, model state)', [
    *[unit('%s%d' % (f, k), 'variant2.cpp', f, 10, 150, shards=2, flags=['-DPART=%d' % k]) for f in ('asan', 'rel') for k in (0, 1)],
    *[unit('mem%d' % k, 'variant2.cpp', 'mem', 1, 10, shards=2, flags=['-DPART=%d' % k]) for k in (0, 1)],
], must_observe=['exceptions_from_elements', 'became_valueless', 'kept_on_throw', 'throwing_comparisons', 'assigned_from_inside', 'forwarded_argument_lists', 'converted_values'])
prop('C08', 'a case is a random program of 4-31 operations over four inplace_polymorphic objects of one family of derived types (35% with an injected exception), '
     'judged after every operation against a (dynamic type, value) model and an object ledger; distinct = distinct (program prefix, model state)', [
    unit('asan', 'inplace_poly.cpp', 'asan', 300, 6000, shards=4),
    unit('rel', 'inplace_poly.cpp', 'rel', 300, 6000, shards=4),
    unit('mem', 'inplace_poly.cpp', 'mem', 15, 300, shards=2),
], must_observe=['forwarded_argument_lists', 'exceptions_from_elements', 'became_valueless'])
prop('C09', 'a case is a random history of 3-22 operations over four strings (12 combinations of character type, traits and allocator propagation traits; 25% of the '
     'allocating operations with a failing allocation), judged after every operation against std::basic_string and the allocator registry; distinct = distinct (history prefix, sizes, allocators)', [
    unit('asan', 'static_string.cpp', 'asan', 200, 4000, shards=4),
    unit('rel', 'static_string.cpp', 'rel', 200, 4000, shards=4),
    unit('mem', 'static_string.cpp', 'mem', 15, 300, shards=2),
], must_observe=['failed_allocations', 'comparisons'])
prop('C10', 'a case is a random history of 3-22 operations over three flex_arrays of one mode and element type (17 combinations), judged after every operation against '
     'std::vector, or one conversion / throwing-element program; distinct = distinct (history prefix, sizes)', [
    *[unit('%s%d' % (f, k), 'flex_array.cpp', f, 200, 4000, shards=2, flags=['-DPART=%d' % k, '-I', 'HARNESS/stub']) for f in ('asan', 'rel') for k in (0, 1)],
    *[unit('mem%d' % k, 'flex_array.cpp', 'mem', 10, 200, shards=1, flags=['-DPART=%d' % k, '-I', 'HARNESS/stub']) for k in (0, 1)],
], must_observe=['rejected', 'comparisons', 'conversions', 'exceptions_from_elements'],
    assumptions=['ankerl/svector is not installed: the sbo mode is driven with a stand-in container of the same interface (harness/stub)'])
prop('C11', 'a case is a random history over five limit_allocators (copies, moves, swaps, rebinds, exact-fit and overflowing requests, upstream failures), a container program, '
     'one schedule of a 2-4 thread allocate/deallocate program under the controlled scheduler, or a free-running stress run; distinct = distinct histories/schedules', [
    unit('asan', 'limit_alloc.cpp', 'asan', 60, 1500, shards=4),
    unit('rel', 'limit_alloc.cpp', 'rel', 60, 1500, shards=3),
    unit('mem', 'limit_alloc.cpp', 'mem', 15, 300, shards=1),
    unit('sched', 'limit_sched.cpp', 'sched', 500, 10000),
    unit('tsan', 'limit_sched.cpp', 'tsan', 100, 1500, flags=['-DLIMIT_STRESS'], shards=2, weight=4),
], must_observe=['limit_rejections', 'upstream_failures', 'histories_linearized', 'upstream_failures_concurrent', 'stress_bad_allocs', 'container_bad_allocs'],
    assumptions=['sequentially consistent interleavings in the scheduler; ThreadSanitizer watches the free-running runs'])

prop('C12', 'a case is a random history of allocations/deallocations over pools (10 bucket configurations, sizes around every bucket bound) or over copied, moved, rebound '
     'and swapped pool_allocators of 11 element types, a container program, a churn run or a run with failing system allocations; distinct = distinct histories', [
    unit('asan', 'pool.cpp', 'asan', 150, 3000, shards=3),
    unit('rel', 'pool.cpp', 'rel', 100, 2000, shards=2),
    unit('sys', 'pool.cpp', 'fast', 400, 6000, flags=['-DPOOL_OWN_NEW'], shards=2),
    unit('mem', 'pool.cpp', 'mem', 10, 200, shards=2),
], must_observe=['blocks_checked', 'strictly_aligned_blocks', 'unrepresentable_sizes_rejected', 'pools_dropped_with_live_blocks', 'container_operations', 'reuse_cycles', 'system_failures_reported'],
    assumptions=['"freed blocks can be allocated again" is judged as: memory taken from the system during >= 6000 allocations of churn below the warmed-up high-water mark stays within 3x (+4 KiB) of the warmed-up footprint'])

prop('C13', 'a case is a random history of construction (all constructor forms), copies, moves, assignments, swaps, rebinds and select-on-copy over five polymorphic_allocators '
     'with exact-call ledgers, or a vector/list/map program over them; distinct = distinct histories', [
    *[unit('asan%d' % k, 'poly_alloc.cpp', 'asan', 200, 5000, flags=['-DPART=%d' % k]) for k in range(3)],
    *[unit('rel%d' % k, 'poly_alloc.cpp', 'rel', 150, 3000, flags=['-DPART=%d' % k]) for k in range(3)],
    unit('mem', 'poly_alloc.cpp', 'mem', 10, 200, shards=2),
], must_observe=['forwarded_allocations', 'equal_pairs', 'unequal_pairs', 'rebinds', 'upstream_failures_forwarded', 'container_operations'],
    assumptions=['underlying allocators of one set agree on their propagation traits (the library documents composition like scoped_allocator_adaptor but implements all-of; mixed sets are not judged)'])

prop('C14', 'a case is one random program (scopes, guards, try/catch, throw, return, break, destructors and actions that are programs) run for real and by an interpreter, traces compared; '
     'distinct = distinct programs', [
    unit('asan', 'defer.cpp', 'asan', 100, 2000, shards=4),
    unit('rel', 'defer.cpp', 'rel', 50, 1000, shards=2),
    unit('fast', 'defer.cpp', 'fast', 200, 4000, shards=2),
    unit('mem', 'defer.cpp', 'mem', 5, 100, shards=1),
], must_observe=['actions_run', 'actions_during_unwinding', 'programs_left_by_exception', 'programs_left_normally'])

prop('C15', 'a case is one (type, start, stop, step) with its whole sequence walked from both ends plus random interleavings of next/nth/next_back/nth_back/copies and view accesses; '
     'the fast unit enumerates every start x stop x step of three 8-bit type pairs; distinct = distinct access programs', [
    unit('asan', 'range_seq.cpp', 'asan', 100, 2000, shards=2),
    unit('rel', 'range_seq.cpp', 'rel', 60, 1000, shards=2),
    unit('mem', 'range_seq.cpp', 'mem', 5, 100, shards=1),
    unit('all8', 'range_seq.cpp', 'fast', 200, 4000, shards=4, flags=['-DALL8']),
], must_observe=['triples_8bit', 'elements_walked', 'mixed_accesses', 'view_programs', 'empty_ranges', 'zero_steps_rejected', 'other_type_ranges'])

prop('C16', 'a case is a random operation sequence on one adapter, range or view over an instrumented generator (14 combinations of optional operations, copyability, '
     'move-only values, generators that produce again after their end); distinct = distinct programs', [
    unit('asan', 'next_range.cpp', 'asan', 100, 2000, shards=3),
    unit('rel', 'next_range.cpp', 'rel', 60, 1000, shards=2),
    unit('mem', 'next_range.cpp', 'mem', 5, 100, shards=1),
], must_observe=['observations', 'peeks', 'peeks_at_end', 'jumps', 'copies', 'back_accesses', 'ranges', 'views', 'generators_made_from_stored_arguments'])

prop('C17', 'a case is one input sequence on which every algorithm is run in every calling form over every range shape (containers, spans, guarded forward ranges, single-pass and '
     'move-only iterators, by-value ranges, view pipelines, temporaries, istream) and compared with its quadratic definition; all sequences over {0,1,2} up to length 6 are enumerated; '
     'distinct = distinct sequences', [
    *[unit('asan%d' % k, 'range_algos.cpp', 'asan', 100, 3000, flags=['-O0', '-DPART=%d' % k]) for k in range(5)],
    unit('rel4', 'range_algos.cpp', 'rel', 300, 3000, flags=['-O0', '-DPART=4']),
    unit('mem4', 'range_algos.cpp', 'mem', 10, 200, shards=2, flags=['-O0', '-DPART=4']),
    unit('rel2', 'range_algos.cpp', 'rel', 300, 3000, flags=['-O0', '-DPART=2']),
], must_observe=['answers_compared', 'answers_true', 'answers_false', 'duplicates_removed', 'guarded_reads', 'sorted_true', 'sorted_false', 'lex_equal', 'lex_less', 'lex_greater', 'lex_unordered'],
    assumptions=['all_equal predicates are equivalences, all_distinct predicates are consistent with std::hash and is_sorted_unique comparators are strict weak orders on the elements (as the algorithms require)'])

prop('C18', 'a case is one sequence of present/absent values, on which opt_min/opt_max/opt_minmax and the element variants are run with several comparators in every calling form over every '
     'range shape; all sequences of {absent,0,1,2} up to length 4 are enumerated; distinct = distinct (sequence, comparator)', [
    *[unit('asan%d' % k, 'opt_minmax.cpp', 'asan', 100, 3000, flags=['-O0', '-DPART=%d' % k]) for k in range(2)],
    unit('rel0', 'opt_minmax.cpp', 'rel', 100, 3000, flags=['-O0', '-DPART=0']),
    unit('mem1', 'opt_minmax.cpp', 'mem', 5, 100, shards=2, flags=['-O0', '-DPART=1']),
], must_observe=['answers_compared', 'present_results', 'absent_results', 'inputs_with_ties', 'inputs_with_absent_values', 'two_argument_calls', 'initializer_list_calls', 'guarded_reads'])

prop('C19', 'a case is one base (8/16-bit types: every base; 32/64-bit: k-th roots of the limits +-2, extremes, random) raised to every 8-bit exponent and the relevant and extreme exponents of '
     'the other seven exponent types, compared with a 128-bit sign/magnitude oracle; distinct = distinct bases', [
    unit('asan', 'ipow.cpp', 'asan', 100, 1500, shards=4),
    unit('all16', 'ipow.cpp', 'fast', 100, 3000, shards=2, flags=['-DALL16']),
], must_observe=['calls', 'values', 'overflows', 'underflows', 'negative_exponents'])

prop('C20', 'a case is one random history of 24 operations over four pairs for each of ~30 (pointee, tag type, bit count) instances plus all tags of one object, or the derived-to-base '
     'conversions of one object; distinct = distinct (instance, history)', [
    *[unit('asan%d' % k, 'ptr_tag.cpp', 'asan', 100, 3000, flags=['-O0', '-DPART=%d' % k]) for k in range(3)],
    *[unit('rel%d' % k, 'ptr_tag.cpp', 'rel', 100, 2000, flags=['-O0', '-DPART=%d' % k]) for k in (0, 2)],
    unit('mem1', 'ptr_tag.cpp', 'mem', 5, 100, shards=1, flags=['-O0', '-DPART=1']),
], must_observe=['checks', 'maximal_tags', 'null_pointers', 'conversions', 'comparisons'])

prop('C21', 'a case is one process with random signal dispositions, masks, interval timers, pending output in five kinds of streams and other children, that runs 1-16 sandboxes with commanded '
     'endings (every exit code, every fatal signal by raise and kill, aborts, exceptions, traps, faults, stop/continue, nested sandboxes, failing fork); distinct = distinct programs', [
    unit('asan', 'sandbox.cpp', 'asan', 150, 3000, shards=3),
    unit('fast', 'sandbox.cpp', 'fast', 300, 8000, shards=3),
], must_observe=['sandboxes', 'ended_by_exit', 'ended_by_signal', 'ended_by_exception', 'nested_sandboxes', 'signals_in_parent', 'stopped_and_continued', 'other_children_kept'],
    assumptions=['the parent is single-threaded and does not ignore SIGCHLD or reap children behind the sandbox (the kernel would discard the status)'])

prop('C22', 'a case is one instance drawn from the seed by a program generator: a switch over a range (all ten integer types, ascending, descending, negative, empty, at type limits, up to 255 '
     'long) run for every value in and around it with seven handler kinds, or a for_range/for_values/for_types/integer-sequence instance whose call trace is compared with 128-bit arithmetic, '
     'also with an exception at a random call; distinct = distinct (instance, value)', [
    unit('sw', [], 'asan', 100, 100, gen='gen_switch.py', gen_args=[0], flags=['-O0']),
    unit('loops', [], 'asan', 100, 100, gen='gen_switch.py', gen_args=[1], flags=['-O0']),
    unit('sw2', [], 'asan', 100, 100, gen='gen_switch.py', gen_args=[2], flags=['-O0'], tier='thorough'),
    unit('sw3', [], 'rel', 100, 100, gen='gen_switch.py', gen_args=[0], flags=['-O0']),
], must_observe=['case_calls', 'default_calls', 'switches', 'switch_bool_calls', 'loop_calls', 'loops_left_by_exception', 'empty_loops', 'ascending_ranges', 'descending_ranges', 'index_sequences'])

prop('C23', 'a case is one type list (lengths 0-6 over 19 element types) or index range (8 index types, ascending, descending, empty, at type limits) drawn from the seed by a program generator, with 24/12 random '
     'histories of constructions, writes by index/type/binding/view, moves and copies mirrored on a std::tuple, all subtuple views, comparisons and algorithms; distinct = distinct (types, history)', [
    *[unit('slt%d' % k, [], 'asan', 100, 100, gen='gen_tuples.py', gen_args=[k], flags=['-O0']) for k in (0, 1, 2)],
    unit('itt', [], 'asan', 100, 100, gen='gen_tuples.py', gen_args=[3], flags=['-O0']),
    unit('rel', [], 'rel', 100, 100, gen='gen_tuples.py', gen_args=[4], flags=['-O0']),
    unit('mem', [], 'mem', 100, 100, gen='gen_tuples.py', gen_args=[5], flags=['-O0'], shards=2),
], must_observe=['tuples_compared', 'constructions', 'copies', 'layouts_checked', 'subtuples', 'comparisons', 'algorithm_runs', 'visits_left_by_exception', 'uniform_constructions', 'visits',
                 'ascending_index_ranges', 'descending_index_ranges', 'empty_index_ranges'])

prop('C24', 'a case is one index range (8 index types, ascending, descending, empty, around zero, at type limits) of one of four element kinds drawn from the seed by a program generator, with 150 random '
     'histories of 24 operations over four variants with exceptions injected into constructors, copies and moves; distinct = distinct (instance, history)', [
    unit('asan0', [], 'asan', 100, 100, gen='gen_itv.py', gen_args=[0], flags=['-O0']),
    unit('asan1', [], 'asan', 100, 100, gen='gen_itv.py', gen_args=[1], flags=['-O0']),
    unit('rel', [], 'rel', 100, 100, gen='gen_itv.py', gen_args=[2], flags=['-O0']),
    unit('mem', [], 'mem', 4, 40, gen='gen_itv.py', gen_args=[3], flags=['-O0'], shards=2),
], must_observe=['observations', 'wrong_gets_rejected', 'valueless_states', 'valueless_visits_rejected', 'exceptions_reached_the_caller', 'comparisons', 'ascending_index_ranges',
                 'descending_index_ranges', 'ranges_with_negative_indices', 'empty_index_ranges', 'constructions_in_place'])

prop('C25', 'a case is one element sequence (six element types, also with own formatters) joined over every range shape (containers, guarded forward and single-pass ranges, filter/drop_while/join '
     'views, generators, temporaries) with a random separator kind, format specification and output context; or one set of values streamed into randomly configured, limited and failed narrow and wide '
     'streams; or one run of the debug macro over 30 expressions; distinct = distinct (output, specification, shape)', [
    *[unit('asan%d' % k, 'fmt.cpp', 'asan', 100, 3000, flags=['-O0', '-DPART=%d' % k]) for k in range(5)],
    unit('rel1', 'fmt.cpp', 'rel', 100, 3000, flags=['-O0', '-DPART=1']),
    unit('rel4', 'fmt.cpp', 'rel', 100, 3000, flags=['-O0', '-DPART=4']),
], must_observe=['outputs_compared', 'empty_ranges', 'one_element_ranges', 'longer_ranges', 'bad_specs_rejected', 'exceptions_passed', 'wide_outputs', 'values_streamed', 'failed_writes_reported',
                 'writes_that_fit', 'debug_lines', 'guarded_reads'],
    assumptions=['the streamed type is not ostreamable already; two-argument expressions are parenthesised (DICE_DBG takes one macro argument)'])

prop('C26', 'a case is one instance drawn from the seed by a program generator: a bind_front over a functor, function, member function or member pointer with 0-6 bound and 0-3 call arguments of every kind and '
     'value category, copied, moved and called as every value category beside std::bind_front; or a match of an overload set on a std, derived or dtl variant holding each alternative (or none) '
     'beside std::visit with a hand-written visitor class; or a round of DICE_MEMFN, forward_like, DICE_MOVE_IF_VALUE, overload-set and leak-sanitizer calls; distinct = distinct (instance, call history)', [
    *[unit('bind%d' % k, [], 'asan', 100, 100, gen='gen_fwd.py', gen_args=[k], flags=['-O0']) for k in (0, 2)],
    *[unit('match%d' % k, [], 'asan', 100, 100, gen='gen_fwd.py', gen_args=[k], flags=['-O0']) for k in (1, 3)],
    unit('rel', [], 'rel', 100, 100, gen='gen_fwd.py', gen_args=[5], flags=['-O0']),
    unit('fwd', 'forward.cpp', 'asan', 100, 2000, flags=['-O0']),
    unit('fwdrel', 'forward.cpp', 'rel', 100, 2000, flags=['-O0']),
], must_observe=['bound_calls', 'matches', 'valueless_matches', 'forward_like_calls', 'conditional_moves', 'member_calls', 'overload_sets', 'ignored_leaks'],
    assumptions=['call operators of one overload set agree in constness (mixing them is ambiguous for std::visit, too)'])

prop('C27', 'a case is one program fragment drawn from the seed: a composition of type_list operations (depth up to 4 over a pool of 90 types, lists up to 90 long) whose result and every query on it are compared '
     'with a Python list model, also for_each and fold runs with throwing callbacks; or nests of lazy conditionals whose unselected branches may be anything; or qualifier-copying, zero-size, '
     'strict-invocability and literal checks; distinct = distinct queries', [
    *[unit('list%d' % k, [], 'asan', 100, 100, gen='gen_meta.py', gen_args=[k], flags=['-O0']) for k in (0, 2)],
    unit('nobuiltin', [], 'asan', 100, 100, gen='gen_meta.py', gen_args=[10], flags=['-O0', '-DMETA_NO_BUILTINS']),
    *[unit('rest%d' % k, [], 'asan', 100, 100, gen='gen_meta.py', gen_args=[k], flags=['-O0']) for k in (1, 3, 5)],
    *[unit('more%d' % k, [], 'asan', 100, 100, gen='gen_meta.py', gen_args=[k], flags=['-O0'], tier='thorough') for k in (4, 6, 8, 7, 9, 11)],
], must_observe=['type_results', 'absent_results', 'opts', 'values', 'callback_calls', 'folds', 'loops_left_by_exception', 'lazy_selections', 'qualifiers_copied', 'zero_sized_types', 'strictly_invocable',
                 'not_strictly_invocable', 'literals'],
    assumptions=['drop and take counts do not exceed the list (undocumented otherwise)', 'literals fit their type'])
