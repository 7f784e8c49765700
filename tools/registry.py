"""Which harness instances decide which property, within which bounds."""
MODES = {
    # the repository's own test configurations use NDEBUG; c14 and c17 keep the assertions on
    'c11': ['-std=c++11', '-DNDEBUG'],                                     # wrap() path
    'c14': ['-std=c++14'],                                                 # lambda init-capture path, BOOST_ASSERT on
    'c17': ['-std=c++17'],                                                 # lambda path, std::invoke, BOOST_ASSERT on
    'w17': ['-std=c++17', '-DBOOST_NO_CXX14_GENERIC_LAMBDAS'],             # wrap() path with std::invoke, BOOST_ASSERT on
    'a11': ['-std=c++11'],                                                 # wrap() path, BOOST_ASSERT on
    'c20': ['-std=c++20', '-DNDEBUG'],
    'n14': ['-std=c++14', '-DNDEBUG', '-DBOOST_NO_CXX11_STD_ALIGN'],       # stack layout without std::align
}
U64, TR, MO, BIG, PAIR, REF, CREF, VOID, HUGE, TRIV, PTR, U8 = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11
DBL, BOOL, UPTR, VEC, ODD, ODDREF, ABSREF, SMALL = 12, 13, 14, 15, 16, 17, 18, 19
STR, EMPTY, POLY, INT, GEN = 20, 21, 22, 23, 24
BYTES, IREF, SHP, RE = 25, 26, 27, 28
KINDS = ('uint64_t, class with own copy/move, move-only class, 64-byte-aligned 256-byte class, std::pair with class, trivial struct, 3-byte struct, pointer, uint8_t, '
         'double (all bit patterns), bool, std::unique_ptr, std::vector, class overloading operator&/new/comma with a list constructor, '
         'std::string (in place and on the heap), empty class, polymorphic class, int, a pull coroutine as value, std::shared_ptr, class whose special members use coroutines of the same type, trivially copyable classes of 2 to 300 bytes (alignment 1 to 8), and (up to 2 transfers) const scalars and classes, enums, float, function and member pointers, bit-fields, unions, arrays, tuples, std::function, '
         'std::exception_ptr, classes that cannot be assigned, have only explicit, only copy, greedy or throwing constructors, virtual bases, converting operators')

ASSUMPTIONS = [
    'clang 18 -O1 front-end output with only SROA applied stands for the program; the optimiser, code generator and g++ are outside, except that sampled paths are re-run natively from g++ -O3 builds and must give the same observations',
    'boost::context jump_fcontext/make_fcontext/ontop_fcontext (assembly) are modelled by their contract: symmetric transfer of control with one pointer, entry function called with it on the new stack, ontop function run on the target before it continues',
    'Itanium C++ EH and libsupc++ (throw, catch, rethrow, current_exception, uncaught_exceptions per thread, terminate) are modelled by contract; exception types match by RTTI of the IR module',
    'malloc, operator new, mmap succeed and return fresh blocks at distinct concrete addresses (malloc 16-byte aligned); memory contents are undefined until written and reading them is a violation if it influences control flow or an assertion',
    'only the public interface of boost.coroutine2 is used by the harnesses; one OS thread runs at a time',
    'x86-64 Linux, little endian, libstdc++ 13, Boost.Context 1.83 headers as installed; boost::context code is encoded from its headers, except for the assembly primitives',
]


def grid(h, kinds, modes, dirs=(0, 1), extra=()):
    out = []
    for k in kinds:
        for d in dirs:
            for m in modes:
                defs = [('VK', k)] + ([('DIR', d)] if d is not None else []) + list(extra)
                out.append((h, m, defs))
    return out


SIZES = (2, 5, 12, 16, 17, 24, 33, 64, 100, 300)


def sizes(h, modes, dirs=(0, 1), szs=SIZES, n=2):
    """trivially copyable classes of many sizes; the modes take turns"""
    return [(h, modes[(i + j) % len(modes)], [('VK', BYTES)] + ([('DIR', d)] if d is not None else []) + [('SZ', z), ('N', n)])
            for i, z in enumerate(szs) for j, d in enumerate(dirs)]


def lng(prop, kinds, modes, dirs=(0, 1), far=()):
    """long histories: 270 transfers; far: (kind, mode, dir) run for 66000"""
    return grid('long_hist', kinds, modes, dirs, [('PROP', prop), ('LEN', 270)]) \
        + [('long_hist', m, [('VK', k), ('DIR', d), ('PROP', prop), ('LEN', 66000), ('HOW', 0)]) for k, m, d in far]


def chain(prop, kinds, modes, dirs=(0, 1), extra=()):
    """pipelines of coroutines owned by coroutine-functions"""
    return grid('chain', kinds, modes, dirs, [('PROP', prop)] + list(extra))


def sched(prop, kinds, modes, ops=4, extra=()):
    """every schedule of operations on three coroutines"""
    return grid('c14_nesting', kinds, modes, (None,), [('OPS', ops), ('PROP', prop)] + list(extra))


def types(prop, dirs, modes, n=2, refs=0):
    """a pick among 27 more value types, or 8 more kinds of references"""
    return [('types', m, [('VK', U64), ('DIR', d), ('REFS', refs), ('N', n)]) for d in dirs for m in modes]


def crowd(prop, kinds, modes, dirs=(0, 1), extra=()):
    """many coroutines at a time, in a nest, one after the other"""
    return grid('crowd', kinds, modes, dirs, [('PROP', prop)] + list(extra))


CROWDB = '; 40 coroutines at a time, in a nest, and 300 in sequence, one of them returning, throwing or destroyed'
SCHEDB = '; every schedule of 4 operations on three coroutines'
CHAINB = '; pipelines of up to 3 nested coroutines owned by coroutine-functions, up to 3 items, every abandonment point'
LONGB = '; one history of 270 transfers per kind (ended by return, exception or destruction) and of 66000 for some'
ALLM = ('c11', 'c14', 'c17', 'w17', 'a11', 'c20')
Q3 = ('c11', 'c14', 'c17')
Q2 = ('c11', 'c17')


def _c01(h, p):
    def f(t):
        if t == 'quick':
            return grid(h, (U64, TR, MO, BIG, PAIR, TRIV, PTR, U8, ODD, UPTR), Q3, (None,), [('N', 3)]) \
                + grid(h, (STR, EMPTY, POLY, INT, GEN, SHP, RE), ('c11', 'c14'), (None,), [('N', 2)]) + sizes(h, ('c11', 'c14'), (None, None)) + crowd(p, (U64, TR), ('c11', 'c14'), (p - 1,)) + grid(h, (TR, MO), ('w17',), (None,), [('N', 3)]) \
                + grid(h, (DBL, BOOL, VEC, SMALL), ('c11', 'c17'), (None,), [('N', 3)]) \
                + grid(h, (TR,), ('c11', 'c14'), (None,), [('N', 2), ('ALLOC', 1)]) + lng(p, (U64, TR, MO, PAIR), ('c11', 'c14'), (p - 1,), [(U64, 'c17', p - 1), (U64, 'c11', p - 1)])
        return grid(h, (U64, TR, MO, BIG, PAIR, TRIV, PTR, U8, HUGE, DBL, BOOL, VEC, SMALL, ODD, UPTR, EMPTY, POLY, INT, GEN, SHP), ALLM, (None,), [('N', 5)]) + grid(h, (RE,), ALLM, (None,), [('N', 3)]) + sizes(h, Q3, (None, None, None), SIZES, 3) \
            + grid(h, (STR,), ALLM, (None,), [('N', 3)]) + crowd(p, (U64, TR, MO, STR), Q3, (p - 1,)) + crowd(p, (U64,), ('c11', 'c14'), (p - 1,), [('K', 300)]) \
            + grid(h, (U64, TR, MO), ('c11', 'c14', 'c17'), (None,), [('N', 4), ('ALLOC', 1)]) \
            + lng(p, (U64, TR, MO, PAIR, BIG, TRIV, VEC, UPTR, DBL), ALLM, (p - 1,), [(k, m, p - 1) for k in (U64, TR, U8) for m in Q3])
    def g(t):
        out = f(t)
        q = t == 'quick'
        out += chain(p, (U64, TR, MO) if q else (U64, TR, MO, PAIR, BIG), Q2 if q else Q3, (p - 1,))
        out += types(p, (p - 1,), Q3 if q else ALLM, 2 if q else 3)
        out += sched(p, (U64, TR), ('c11', 'c14')) if q else sched(p, (U64, TR, MO, PAIR), Q3, 5)
        return out
    return g


REG = {}
REG['C01'] = dict(jobs=_c01('c01_pull_data', 1), bounds={
    'quick': 'up to 3 transfers, all 64-bit payloads, every lvalue/const lvalue/one object again/named rvalue/temporary mix; three-coroutine schedules, pipelines, long histories; kinds: ' + KINDS + ' (value kinds)',
    'thorough': 'up to 5 transfers, otherwise as quick, plus 256-byte-aligned class and all five language modes'},
    outside='longer histories, other value types')
REG['C02'] = dict(jobs=_c01('c02_push_data', 2), bounds=REG['C01']['bounds'], outside='longer histories, other value types')
REG['C03'] = dict(
    jobs=lambda t: (grid('c03_refs', (REF, CREF), Q3 if t == 'quick' else ALLM, (0, 1), [('N', 3 if t == 'quick' else 5)]) + grid('c03_refs', (ODDREF, ABSREF, IREF), ('c11', 'c17'), (0, 1), [('N', 3)]))
    + (lng(3, (REF, CREF,), Q2, (0, 1), [(REF, 'c14', 0), (REF, 'c14', 1)]) if t == 'quick' else lng(3, (REF, CREF, ODDREF, ABSREF,), ALLM, (0, 1), [(REF, m, d) for m in Q3 for d in (0, 1)]))
    + (types(3, (0, 1), Q3, 2, 1) if t == 'quick' else types(3, (0, 1), ALLM, 3, 1))
    + (chain(3, (REF, CREF), ('c11', 'c14')) + sched(3, (REF,), ('c11', 'c14')) if t == 'quick' else chain(3, (REF, CREF, ODDREF), Q3) + sched(3, (REF, CREF), Q3, 5))
    + (crowd(3, (REF,), ('c11', 'c14')) if t == 'quick' else crowd(3, (REF, CREF), Q3) + crowd(3, (REF,), ('c14',), (0, 1), [('K', 300)])),
    bounds={'quick': CROWDB[2:] + '; ' + 'up to 3 transfers, each of an arbitrary one of 3 objects, all 64-bit contents written by either side, T& and T const&, get() and iterators; references to arrays, functions, pointers, volatile and incomplete types' + LONGB + CHAINB + SCHEDB,
            'thorough': 'up to 5 transfers, all language modes'})
REG['C04'] = dict(
    jobs=lambda t: (grid('c04_control', (U64, TR, REF, VOID), Q2, (0, 1), [('DEPTH', 2), ('SUSP', 3)])
    + grid('c04_control', (MO,), ('c14',), (0, 1), [('DEPTH', 2), ('SUSP', 3)]) if t == 'quick' else
    grid('c04_control', (U64, TR, MO, REF, VOID), ALLM, (0, 1), [('DEPTH', 3), ('SUSP', 4)]))
    + (lng(4, (U64, REF, VOID,), Q2, (0, 1), [(VOID, 'c14', 0), (VOID, 'c14', 1), (VOID, 'c11', 0), (U64, 'c11', 1)]) if t == 'quick' else lng(4, (U64, REF, VOID, TR, MO,), ALLM, (0, 1), [(k, m, d) for k in (U64, VOID) for m in Q3 for d in (0, 1)]))
    + (sched(4, (U64, VOID, REF), ('c11', 'c14')) if t == 'quick' else sched(4, (U64, VOID, REF, TR), Q3, 5))
    + (crowd(4, (U64, VOID), ('c11',)) + crowd(4, (REF,), ('c14',)) if t == 'quick' else crowd(4, (U64, TR, REF, VOID), Q3) + crowd(4, (U64, VOID), ('c11', 'c14'), (0, 1), [('K', 300)])),
    bounds={'quick': CROWDB[2:] + '; ' + 'at most 3 suspensions, call depth at most 3, every placement of suspensions and (up to two) nested calls per frame, abandonment at every point, arbitrary 64-bit locals' + LONGB + SCHEDB,
            'thorough': 'at most 4 suspensions, call depth at most 4'})
REG['C05'] = dict(
    jobs=lambda t: (grid('c05_valid', (U64, TR, REF, VOID), Q3, (0, 1), [('N', 3), ('OPS', 4)]) if t == 'quick' else
    grid('c05_valid', (U64, TR, MO, BIG, REF, CREF, VOID), ALLM, (0, 1), [('N', 4), ('OPS', 6)]))
    + (lng(5, (U64, REF, VOID,), Q2, (0, 1), [(VOID, 'c14', 0), (VOID, 'c14', 1), (U64, 'c11', 0)]) if t == 'quick' else lng(5, (U64, REF, VOID, TR, MO,), ALLM, (0, 1), [(k, m, d) for k in (U64, VOID) for m in Q3 for d in (0, 1)]))
    + (sched(5, (U64, VOID, REF), ('c11', 'c14')) if t == 'quick' else sched(5, (U64, VOID, REF, TR), Q3, 5))
    + (crowd(5, (U64, VOID), ('c11',)) + crowd(5, (REF,), ('c14',)) if t == 'quick' else crowd(5, (U64, TR, REF, VOID), Q3) + crowd(5, (U64, VOID), ('c11', 'c14'), (0, 1), [('K', 300)])),
    bounds={'quick': CROWDB[2:] + '; ' + 'at most 3 suspensions and every sequence of 4 operations out of resume / move-assign / move-construct-and-back / inspect' + LONGB + SCHEDB,
            'thorough': 'at most 4 suspensions, every sequence of 6 operations'})
REG['C06'] = dict(
    jobs=lambda t: (grid('c06_except', (U64, TR, REF, VOID), Q3, (0, 1), [('N', 3)]) + grid('c06_except', (MO, BIG), ('c11', 'c14'), (0, 1), [('N', 2)]) if t == 'quick' else
    grid('c06_except', (U64, TR, MO, BIG, PAIR, REF, CREF, VOID), ALLM, (0, 1), [('N', 6)]))
    + (lng(6, (U64, REF, VOID,), Q2, (0, 1), ()) if t == 'quick' else lng(6, (U64, REF, VOID, TR, MO,), ALLM, (0, 1), [(k, m, d) for k in (U64, VOID) for m in Q3 for d in (0, 1)]))
    + (chain(6, (U64, TR), ('c11',)) + chain(6, (REF, VOID), ('c14',)) if t == 'quick' else chain(6, (U64, TR, REF, VOID), Q3) + chain(6, (U64, TR), ('c14',), (0, 1), [('DEPTH', 4), ('N', 3)]))
    + (sched(6, (U64, VOID, REF), ('c11', 'c14')) if t == 'quick' else sched(6, (U64, VOID, REF, TR), Q3, 5))
    + (grid('c06_types', (U64, VOID), Q3, (0, 1), [('N', 1)]) + grid('c06_types', (TR, REF), ('c14', 'w17'), (0, 1), [('N', 1)]) if t == 'quick' else grid('c06_types', (U64, TR, REF, VOID), ALLM, (0, 1), [('N', 3)]))
    + (crowd(6, (U64, VOID), ('c11',)) + crowd(6, (REF,), ('c14',)) if t == 'quick' else crowd(6, (U64, TR, REF, VOID), Q3) + crowd(6, (U64, VOID), ('c11', 'c14'), (0, 1), [('K', 300)])),
    bounds={'quick': CROWDB[2:] + '; ' + 'throw before or after up to 3 suspensions, 16 exception scenarios (scalar, enum, pointer, class, move-only, derived from standard exceptions, multiple bases, rethrown, replaced, caught inside, through std::exception&), call depth 0 or 2, arbitrary 64-bit contents, resumption by operator() or iterator; 31 more exception types (scalars, pointers, every standard class, large, virtual bases, over-aligned, move-only) after up to 1 suspension, also rethrown, replaced, and resumed inside a handler' + LONGB + SCHEDB + CHAINB,
            'thorough': 'up to 6 suspensions, all kinds and language modes'})
REG['C07'] = dict(
    jobs=lambda t: (grid('c07_unwind', (U64, TR, REF, VOID), Q3, (0, 1), [('DEPTH', 1)]) + grid('c07_unwind', (TR, VOID), Q2, (0, 1), [('DEPTH', 2)])
    + grid('c07_unwind', (MO, PAIR), ('c11', 'c14'), (0, 1), [('DEPTH', 1), ('ALLOC', 1)]) if t == 'quick' else
    grid('c07_unwind', (U64, TR, MO, REF, VOID), ALLM, (0, 1), [('DEPTH', 3)]))
    + (lng(7, (U64, REF, VOID,), Q2, (0, 1), ()) if t == 'quick' else lng(7, (U64, REF, VOID, TR, MO,), ALLM, (0, 1), [(k, m, d) for k in (U64, VOID,) for m in ('c11', 'c14') for d in (0, 1)]))
    + (chain(7, (U64, TR), ('c11',)) + chain(7, (REF, VOID), ('c14',)) if t == 'quick' else chain(7, (U64, TR, REF, VOID), Q3) + chain(7, (U64, TR), ('c14',), (0, 1), [('DEPTH', 4), ('N', 3)]))
    + (sched(7, (U64, VOID, REF), ('c14',)) if t == 'quick' else sched(7, (U64, VOID, REF, TR), Q3, 5))
    + (crowd(7, (U64, VOID), ('c11',)) + crowd(7, (REF,), ('c14',)) if t == 'quick' else crowd(7, (U64, TR, REF, VOID), Q3) + crowd(7, (U64, VOID), ('c11', 'c14'), (0, 1), [('K', 300)])),
    bounds={'quick': CROWDB[2:] + '; ' + 'nesting depth at most 3 frames, each plain / in try-catch(...)-rethrow / catch(forced_unwind) / unrelated catches; destroyed at every suspension by destructor, move assignment, exception of the owner, or after a move' + LONGB + SCHEDB + CHAINB,
            'thorough': 'nesting depth at most 4 frames'},
    outside='handlers that swallow forced_unwind (documented as not permitted)')
REG['C08'] = dict(
    jobs=lambda t: (grid('c08_stack', (U64, TR, REF, VOID), Q3, (0, 1), [('N', 3)]) if t == 'quick' else
    grid('c08_stack', (U64, TR, MO, BIG, REF, CREF, VOID), ALLM, (0, 1), [('N', 6)]))
    + (lng(8, (U64, REF, VOID,), Q2, (0, 1), ()) if t == 'quick' else lng(8, (U64, REF, VOID, TR, MO,), ALLM, (0, 1), [(k, m, d) for k in (U64, VOID,) for m in ('c11', 'c14') for d in (0, 1)]))
    + (chain(8, (U64, TR), ('c11', 'c14'), (0, 1), [('ALLOC', 1)]) if t == 'quick' else chain(8, (U64, TR, REF, VOID), Q3, (0, 1), [('ALLOC', 1)]))
    + (sched(8, (U64, VOID, REF), ('c14',), 4, [('ALLOC', 1)]) if t == 'quick' else sched(8, (U64, VOID, REF, TR), Q3, 5, [('ALLOC', 1)]))
    + (crowd(8, (U64, VOID), ('c11',), (0, 1), [('ALLOC', 1)]) + crowd(8, (REF,), ('c14',), (0, 1), [('ALLOC', 1)]) if t == 'quick' else crowd(8, (U64, TR, REF, VOID), Q3, (0, 1), [('ALLOC', 1)]) + crowd(8, (U64, VOID), ('c11', 'c14'), (0, 1), [('K', 140), ('ALLOC', 1)])),
    bounds={'quick': CROWDB[2:] + '; ' + 'up to 3 suspensions and 4 resumptions; normal end, throwing end, destruction at every point, moves, assigned over, throwing allocate(), throwing copy of the callable; allocator passed as rvalue, lvalue or defaulted' + LONGB + SCHEDB + CHAINB,
            'thorough': 'up to 6 suspensions and 7 resumptions'},
    outside='callables whose move constructor throws (terminates inside Boost.Context), allocators whose copy throws')
REG['C09'] = dict(
    jobs=lambda t: (grid('c09_lifetime', (TR, MO, PAIR), Q3, (0, 1), [('OPS', 3)]) + grid('c09_lifetime', (BIG, RE), Q2, (0, 1), [('OPS', 2)]) if t == 'quick' else
    grid('c09_lifetime', (TR, MO, PAIR, BIG, HUGE), ALLM, (0, 1), [('OPS', 4)]))
    + (lng(9, (TR, MO, PAIR,), Q2, (0, 1), ()) if t == 'quick' else lng(9, (TR, MO, PAIR, BIG,), ALLM, (0, 1), [(k, m, d) for k in (TR,) for m in ('c11', 'c14') for d in (0, 1)]))
    + (sched(9, (TR, PAIR), ('c11', 'c14')) + chain(9, (TR, PAIR), ('c14',)) if t == 'quick' else sched(9, (TR, PAIR, MO), Q3, 5) + chain(9, (TR, PAIR, MO, BIG), Q3))
    + (crowd(9, (TR, STR), ('c11', 'c14')) if t == 'quick' else crowd(9, (TR, PAIR, MO, STR), Q3) + crowd(9, (TR,), ('c14',), (0, 1), [('K', 300)])),
    bounds={'quick': CROWDB[2:] + '; ' + 'up to 3 transfers, each by rvalue / cast rvalue / lvalue / const lvalue with or without a throwing copy or move constructor, each value read or not, receiver stops anywhere' + LONGB + CHAINB + SCHEDB,
            'thorough': 'up to 4 transfers, five value kinds'})
REG['C10'] = dict(
    jobs=lambda t: (grid('c10_move', (U64, TR, VOID), Q2, (0, 1), [('OPS', 3)]) + grid('c10_move', (REF, MO), ('c14',), (0, 1), [('OPS', 3)]) if t == 'quick' else
    grid('c10_move', (U64, TR, MO, REF, VOID), ('c11', 'c14', 'c17'), (0, 1), [('OPS', 4)]))
    + (lng(10, (U64, REF, VOID,), Q2, (0, 1), ()) if t == 'quick' else lng(10, (U64, REF, VOID, TR, MO,), ALLM, (0, 1), [(k, m, d) for k in (U64, VOID,) for m in ('c11', 'c14') for d in (0, 1)]))
    + (grid('c10_running', (U64, VOID), ('c11', 'c14'), (0, 1), [('LEN', 2)]) if t == 'quick' else grid('c10_running', (U64, TR, REF, VOID), Q3, (0, 1), [('LEN', 2)])),
    bounds={'quick': 'three objects holding two coroutines and nothing; every sequence of 3 operations out of resume, move-assign (self included), move-construct into a temporary' + LONGB + '; handles moved by running coroutines (their own or another one), 2 suspensions each',
            'thorough': 'every sequence of 4 operations'})
REG['C11'] = dict(
    jobs=lambda t: (grid('c11_input_iter', (U64, TR, MO, PAIR, REF, CREF), Q3, (0, 1), [('N', 3)]) + grid('c11_input_iter', (ODD, UPTR, VEC, ODDREF, STR, POLY, GEN), Q2, (0, 1), [('N', 2)]) + sizes('c11_input_iter', ('c14', 'c11'), (0,), (2, 12, 16, 33)) if t == 'quick' else
    grid('c11_input_iter', (U64, TR, MO, PAIR, BIG, REF, CREF, PTR, ODD, UPTR, VEC, DBL, BOOL, SMALL, ODDREF, ABSREF, EMPTY, POLY, INT, GEN, SHP), ALLM, (0, 1), [('N', 6)]) + sizes('c11_input_iter', Q3))
    + (lng(11, (U64, TR, REF,), Q2, (0, 1), ()) if t == 'quick' else lng(11, (U64, TR, REF, PAIR, MO,), ALLM, (0, 1), [(U64, m, d) for m in Q3 for d in (0, 1)]))
    + (chain(11, (U64, TR, REF), ('c11', 'c14'), (0,)) if t == 'quick' else chain(11, (U64, TR, REF, PAIR), Q3, (0,))),
    bounds={'quick': 'up to 3 elements, every mix of pre/post increment, range-for, begin()/end() and member forms, early stop, arbitrary 64-bit payloads' + LONGB + CHAINB,
            'thorough': 'up to 6 elements'})
REG['C12'] = dict(
    jobs=lambda t: (grid('c12_output_iter', (U64, TR, PAIR, REF, TRIV), Q3, (None,), [('N', 3)]) if t == 'quick' else
    grid('c12_output_iter', (U64, TR, PAIR, BIG, REF, TRIV, PTR, U8), ALLM, (None,), [('N', 8)]))
    + (lng(12, (U64, TR, REF,), Q2, (0, 1), ()) if t == 'quick' else lng(12, (U64, TR, REF, PAIR,), ALLM, (0, 1), [(U64, m, d) for m in Q3 for d in (0, 1)]))
    + (grid('c12_output_iter', (U64, TR, PAIR, REF, TRIV), Q2, (0,), [('N', 3)]) + grid('c12_output_iter', (ODD, ODDREF), Q2, (None,), [('N', 2)]) + sizes('c12_output_iter', ('c14', 'c11'), (None,), (2, 12, 16, 33))
       if t == 'quick' else grid('c12_output_iter', (U64, TR, PAIR, BIG, REF, TRIV, PTR, U8, ODD, ODDREF, DBL), ALLM, (0,), [('N', 6)])),
    bounds={'quick': 'up to 3+1 assignments, function ending after any of them, fresh or kept iterator, arbitrary payloads' + LONGB + '; both of a push_type owned by main and of the one a coroutine-function is given', 'thorough': 'up to 8+1 assignments'})
REG['C13'] = dict(
    jobs=lambda t: grid('c13_layout', (U64, BIG, VOID), Q2, (0, 1), [('SKEW_BITS', 10)]) + grid('c13_layout', (HUGE, REF), ('c11', 'c14'), (0, 1), [('SKEW_BITS', 10)])
    + grid('c13_layout', (U64,), ('n14',), (0, 1), [('ALIGNED_ONLY', 1)]) + grid('c13_layout', (TR,), ('c11', 'c14'), (0, 1), [('CALIGN', 64)])
    + grid('c13_layout', (TR,), ('c11', 'c14'), (0, 1), [('CALIGN', 256)]) + grid('c13_layout', (U64,), ('c11', 'c14'), (0, 1), [('SIZES', 1)]) + grid('c13_layout', (HUGE,), ('c11', 'c14'), (0, 1), [('VALIGN', 1024)]) if t == 'quick' else
    grid('c13_layout', (U64, TR, BIG, HUGE, REF, VOID), ALLM, (0, 1), [('SKEW_BITS', 12)]) + grid('c13_layout', (TR, BIG), Q3, (0, 1), [('CALIGN', 64), ('SKEW_BITS', 12)]) + grid('c13_layout', (TR, BIG), ('c11', 'c14'), (0, 1), [('CALIGN', 256), ('SKEW_BITS', 12)])
    + grid('c13_layout', (U64, TR, BIG, VOID), Q2, (0, 1), [('SIZES', 1), ('SKEW_BITS', 12)]) + grid('c13_layout', (HUGE,), ('c11', 'c14'), (0, 1), [('VALIGN', 1024), ('SKEW_BITS', 12)]) + grid('c13_layout', (HUGE,), ('c11', 'c14'), (0, 1), [('VALIGN', 2048), ('SKEW_BITS', 12)])
    + grid('c13_layout', (U64, TR, VOID), ('n14',), (0, 1), [('ALIGNED_ONLY', 1), ('SKEW_BITS', 12)]),
    bounds={'quick': 'every stack base misalignment below 1024 bytes and every stack size from 65536 to 66559 bytes (both fully symbolic), the same offsets around stacks of 16 and 28 KiB and 128 KiB, 1 and 8 MiB, callables aligned to 16, 64 and 256, value types aligned up to 1024, 3 transfers',
            'thorough': 'misalignment and size offset below 4096, value types aligned up to 2048'},
    outside='stacks too small for the control block; callables aligned above 256 bytes (Boost.Context places the callable, and aligns it to 256)')
REG['C14'] = dict(
    jobs=lambda t: (grid('c14_nesting', (U64, VOID), ('c11', 'c17'), (None,), [('OPS', 4)]) + grid('c14_nesting', (TR, REF), ('c14',), (None,), [('OPS', 4)]) + grid('c14_nesting', (RE,), ('c11', 'c14'), (None,), [('OPS', 3)]) + grid('c11_input_iter', (RE,), ('c11', 'c14'), (0,), [('N', 2)]) + grid('c01_pull_data', (RE,), ('c11', 'c14'), (None,), [('N', 2)]) + grid('c02_push_data', (RE,), ('c11', 'c14'), (None,), [('N', 2)])
    + grid('c14_nesting', (U64, VOID), ('c14',), (None,), [('OPS', 4), ('NPUSH', 2)]) if t == 'quick' else
    grid('c14_nesting', (U64, TR, REF, VOID, MO), Q3, (None,), [('OPS', 5)]) + grid('c14_nesting', (U64, VOID), Q3, (None,), [('OPS', 5), ('NPUSH', 2)])
    + grid('c14_nesting', (U64,), ('c11', 'c14'), (None,), [('OPS', 6), ('NC', 2)]))
    + (lng(14, (U64, REF, VOID,), Q2, (0, 1), ()) if t == 'quick' else lng(14, (U64, REF, VOID, TR, MO,), ALLM, (0, 1), [(k, m, d) for k in (U64, VOID,) for m in ('c11', 'c14') for d in (0, 1)]))
    + (chain(14, (U64, TR), ('c11',)) + chain(14, (REF, VOID), ('c14',)) if t == 'quick' else chain(14, (U64, TR, REF, VOID), Q3) + chain(14, (U64, TR), ('c14',), (0, 1), [('DEPTH', 4), ('N', 3)]))
    + (crowd(14, (U64, TR), ('c11',)) + crowd(14, (REF, VOID), ('c14',)) + crowd(14, (VOID,), ('c11', 'c14'), (0, 1), [('K', 300)]) if t == 'quick' else crowd(14, (U64, TR, REF, VOID), Q3) + crowd(14, (U64, TR, REF, VOID), Q3, (0, 1), [('K', 300)])),
    bounds={'quick': CROWDB[2:] + '; ' + 'values whose special members use coroutines; three coroutines (two pull and one push, or one and two), every schedule of 4 actions out of create / resume from the main context or from inside another coroutine / suspend / return / throw, every destruction order rotation' + LONGB + CHAINB,
            'thorough': '5 actions (6 with two coroutines)'})
REG['C15'] = dict(
    jobs=lambda t: (grid('c15_excstate', (U64, TR, VOID), Q3, (0, 1)) if t == 'quick' else grid('c15_excstate', (U64, TR, MO, REF, VOID), ALLM, (0, 1), [('N', 5)]))
    + (lng(15, (U64, VOID,), Q2, (0, 1), ()) if t == 'quick' else lng(15, (U64, VOID, TR, MO,), ALLM, (0, 1), [(k, m, d) for k in (U64, VOID,) for m in ('c11', 'c14') for d in (0, 1)]))
    + (chain(15, (U64, TR), ('c11',)) + chain(15, (REF, VOID), ('c14',)) if t == 'quick' else chain(15, (U64, TR, REF, VOID), Q3) + chain(15, (U64, TR), ('c14',), (0, 1), [('DEPTH', 4), ('N', 3)])),
    bounds={'quick': 'owner outside any handler, inside a handler, before a rethrow, or unwinding; every throw, keep and destruction point over up to 3 suspensions' + LONGB + CHAINB,
            'thorough': 'up to 5 suspensions'},
    outside='a coroutine-function that suspends inside its own handler (documented as not supported)')
REG['C16'] = dict(
    jobs=lambda t: (grid('c16_callable', (U64, VOID, REF), Q3 + ('w17',), (0, 1)) + grid('c16_callable', (TR,), ('c11', 'c14'), (0, 1), [('ALLOC', 1)]) if t == 'quick' else
    grid('c16_callable', (U64, TR, MO, REF, VOID), ALLM, (0, 1), [('N', 5)]) + grid('c16_callable', (U64, TR), ALLM, (0, 1), [('EXPL', 1), ('N', 5)]))
    + (lng(16, (U64, REF, VOID,), Q2, (0, 1), ()) if t == 'quick' else lng(16, (U64, REF, VOID, TR, MO,), ALLM, (0, 1), [(k, m, d) for k in (U64, VOID,) for m in ('c11', 'c14') for d in (0, 1)])),
    bounds={'quick': 'callable given as lvalue, const lvalue, rvalue, move-only, copy-only, function; arbitrary 64-bit captures; up to 3 suspensions, every end and destruction point' + LONGB, 'thorough': 'up to 5 suspensions'})
REG['C17'] = dict(
    jobs=lambda t: [(h, m, d + [('WHICH', w)]) for w, ms in ((0, Q2), (1, Q2), (2, Q2), (3, Q2)) for (h, m, d) in grid('c17_allocators', (U64, VOID), ms, (0, 1), [('N', 2)])]
    if t == 'quick' else
    [(h, m, d + [('WHICH', w)]) for w in range(4) for (h, m, d) in grid('c17_allocators', (U64, TR, REF, VOID), Q3, (0, 1), [('N', 4)])],
    bounds={'quick': 'fixedsize, pooled, protected and default stacks; 4 size classes with 16 symbolic offsets each; up to 2 suspensions, destroyed anywhere', 'thorough': 'up to 4 suspensions'},
    outside='segmented stacks')
REG['C18'] = dict(
    jobs=lambda t: (grid('c18_reread', (U64, U8, TRIV, PTR, TR, PAIR, BIG), Q3, (None,), [('N', 3)]) + grid('c18_reread', (DBL, BOOL, SMALL), Q2, (None,), [('N', 3)]) + sizes('c18_reread', ('c11', 'c14'), (None, None), (5, 12, 16, 64)) if t == 'quick' else
    grid('c18_reread', (U64, U8, TRIV, PTR, TR, PAIR, BIG), ALLM, (None,), [('N', 5)]))
    + (lng(18, (U64, U8,), ('c11', 'c14'), (0, 1), ()) if t == 'quick' else lng(18, (U64, TRIV, PTR,), ALLM, (0, 1), ())),
    bounds={'quick': 'up to 3 transfers, 0..3 reads of each value, iterator in between, both directions, arbitrary payloads' + LONGB, 'thorough': 'up to 5 transfers'})
REG['C19'] = dict(
    jobs=lambda t: (grid('c19_threads', (U64, VOID), Q2, (0, 1)) + grid('c19_threads', (TR, REF), ('c14',), (0, 1)) if t == 'quick' else
    grid('c19_threads', (U64, TR, REF, VOID), Q3, (0, 1), [('N', 4)]))
    + (lng(19, (U64, REF, VOID,), Q2, (0, 1), ()) if t == 'quick' else lng(19, (U64, REF, VOID, TR, MO,), ALLM, (0, 1), [(k, m, d) for k in (U64, VOID,) for m in ('c11', 'c14') for d in (0, 1)])),
    bounds={'quick': 'three threads, every assignment of create / resume / read / destroy to them over up to 3 suspensions, every throw point; threads that live on or end (with their thread-local storage) after each operation' + LONGB, 'thorough': 'up to 4 suspensions'},
    outside='simultaneous operations (not permitted; see C22), thread-local variables of user code')


REG['C22'] = dict(
    jobs=lambda t: (grid('c22_concurrent', (U64, VOID, IREF), ('c11', 'c14'), (0, 1), [('OPS', 5)]) + grid('c22_concurrent', (STR, VEC), ('c17', 'w17'), (0, 1), [('OPS', 4)])
    + sizes('c22_concurrent', ('c20', 'a11'), (0, 1), (33, 64)) + grid('c22_concurrent', (U64, VOID, IREF), ('c11', 'c14'), (0, 1), [('OPS', 7), ('OVERLAP', 1)]) + grid('c22_concurrent', (STR,), ('c17', 'w17'), (0, 1), [('OPS', 5), ('OVERLAP', 1)]) if t == 'quick' else
    grid('c22_concurrent', (U64, VOID, IREF, STR, VEC, INT, DBL), ALLM, (0, 1), [('OPS', 6)]) + sizes('c22_concurrent', Q3, (0, 1), (5, 33, 64, 300)) + grid('c22_concurrent', (U64, VOID), Q3, (0, 1), [('OPS', 7)]) + grid('c22_concurrent', (U64, VOID, IREF), ALLM, (0, 1), [('OPS', 8), ('OVERLAP', 1)]) + grid('c22_concurrent', (STR, VEC), ALLM, (0, 1), [('OPS', 6), ('OVERLAP', 1)])),
    bounds={'quick': 'two unsynchronised threads, three coroutines; every sequence of 5 operations (4 for strings, vectors and byte classes) out of create / resume / destroy / move / hand over through an atomic exchange, '
                     'functions returning or throwing after 0..2 suspensions, inner coroutines, arbitrary 64-bit payloads; conflicting accesses are found by happens-before, whatever their order in time; and every interleaving of 7 pieces of operations of two threads (5 for strings), where a piece ends when the coroutine-function or an inner one runs or unwinds',
            'thorough': '6 operations, 7 for some, 8 interleaved pieces, all language modes'},
    outside='preemption inside an operation beyond what happens-before decides, accesses inside precompiled libraries (libstdc++, libc, Boost.Context assembly), weak memory effects of data that is atomic, more than two threads')


REG['C23'] = dict(
    jobs=lambda t: grid('c23_cost', (TR, MO), ('c11', 'c14'), (0, 1), [('N', 3)]) + grid('c23_cost', (U64, REF, VOID), Q3, (0, 1), [('N', 3)]) + grid('c23_cost', (PAIR, BIG, POLY, ODD), Q2, (0, 1), [('N', 2)])
    + grid('c23_cost', (CREF, TRIV), ('c14',), (0, 1), [('N', 3)]) if t == 'quick' else
    grid('c23_cost', (TR, MO, U64, REF, VOID, PAIR, BIG, POLY, ODD, CREF, TRIV), ALLM, (0, 1), [('N', 4)]),
    bounds={'quick': 'up to 3 transfers (2 for some kinds), each as rvalue, lvalue or const lvalue, looked at up to 2 times through iterators, coroutine moved in between, ended by return, exception or destruction', 'thorough': 'up to 4 transfers'},
    outside='construction (see C08, C16), value kinds that allocate when copied, get() (see C18), exceptions (their objects are allocated by the C++ runtime)')


# ---- the same harnesses with the owner of the coroutines in other contexts (see h.hpp, P_CTX)
CTXB = ('; owner also: inside a handler, in a destructor during unwinding, inside the function of a pull or of a push coroutine, '
        'on another thread, inside a coroutine-function being unwound')


def _with_contexts(c, jobs):
    def f(t):
        base = jobs(t)
        seen, out = set(), []
        slow = {'crowd': 1, 'c10_running': 1, 'c04_control': 1, 'c14_nesting': 1}
        for h, m, d in base:
            dd = dict(d)
            if h == 'types' or dd.get('LEN', 0) > 1000 or m not in ('c11', 'c14', 'c17'):
                continue
            if t == 'quick' and dd.get('VK') not in (U64, TR, REF, VOID):
                continue
            key = (h, tuple(d))
            if key in seen:
                continue
            seen.add(key)
            n = len(seen)
            if t == 'quick':
                pick = (1 + n % 6,) if h in slow else (2 + (n & 1), (1, 4, 5, 6)[n % 4])
            else:
                pick = (1, 2, 3, 4, 5, 6)
            mode = ('c11', 'c14', 'c17', 'c11', 'c20')[n % 5] if ('ALIGNED_ONLY', 1) not in d else m
            out += [(h, mode, list(d) + [('CTX', x)]) for x in pick]
        return base + out
    return f


for _c in REG:
    if _c not in ('C13', 'C15', 'C17', 'C18', 'C19', 'C22', 'C23'):
        REG[_c]['jobs'] = _with_contexts(_c, REG[_c]['jobs'])
        REG[_c]['bounds'] = dict((k, v + CTXB) for k, v in REG[_c]['bounds'].items())
