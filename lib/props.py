"""What each check covers: crate of harnesses, bounds, assumptions."""
import os, re

CB = dict(crate='direct', trusted=['Vec, Box, slice and iterator code of std is encoded as it is'])

IV = dict(crate='direct')

MODEL = ['a model of std HashMap and HashSet (harness/vstd/src/map.rs): at most 6 entries, any order of iteration, keys compared with Eq and never hashed; random runs of every harness on the real std confirm it']
CT = dict(crate='model', tries=30, trusted=MODEL)
DS = dict(crate='model', tries=30, quick=['small'], trusted=MODEL + ['a model of Vec (harness/vstd/src/vecs.rs): at most 6 elements (quick: 4)'])


def p(base, bounds, **kw):
    return dict(base, bounds=bounds, **kw)


PROPS = {
    'C01': p(CB, 'from every reachable arrangement (position of the first element in the storage, length, content; u8 elements) of capacities 0..5 one operation, of capacities 1..3 two operations; all histories of 4 operations from a new buffer of capacity 1..3; thorough: capacities up to 12, 3 operations on 4, histories of 6 or 7'),
    'C02': p(CB, 'capacities 0..4, all arrangements, all content; one or two operations; histories of 3; resize from 0..3 to 0..3; thorough: capacities up to 8, histories of 4 or 5'),
    'C03': p(CB, 'elements that count their drops; capacities 0..3, all arrangements, one operation then drop; histories of 3; resize from 1..2; thorough: capacities up to 5'),
    'C04': p(CB, 'capacities 0..3, all arrangements, all content; each view read completely; one element written through each mutable view; thorough: capacities up to 7'),
    'C05': p(CB, 'from capacities 0..3 (lengths 0..3, all positions, all content) to 0..5, then two pushes and a pop; thorough: from capacities up to 6'),
    'C06': p(CB, 'linearize on capacities 0..3, swap on 1..4, reverse on 0..5, all arrangements, all content, then two pushes and a pop; thorough: up to 6, 8, 8'),
    'C07': p(CB, 'receivers of capacity 0..3, sources of 0..4 elements, size hints exact, absent and useless, all arrangements, all content; thorough: receivers up to 5'),
    'C08': p(CB, 'pairs of buffers of capacities up to 3 with each other and up to 4 elements of slice, all arrangements, all content, elements totally and partially ordered; thorough: up to 4'),
    'C09': p(CB, 'capacities 0..3, all arrangements, all content, followed by one operation on one of the two; clone counting on capacities 1..2; thorough: up to 5'),
    'C10': p(CB, 'capacities 0..4, all arrangements, every 64 bit index; thorough: up to 8'),
    'C11': p(CB, 'element types char, bool, reference, Box, NonZeroU8, unit, enum, function pointer (thorough: Vec, tuple, empty array); fixed sequences of operations that together call every method, symbolic values (fixed values for resize of types with a niche)'),
    'C12': p(CB, 'capacities 1..5, all arrangements, two pushes or pops; thorough: up to 8, up to four'),
    'I01': p(IV, 'every constructor on all i32 bounds and closednesses (valid ones and, expecting a panic, all invalid ones); all accessors and destructors; after every operation on all pairs of i32 intervals and on results of operations, and after arithmetic with wrapping and saturating types; multiplication and division on 8 bit values (thorough: 32 bit)'),
    'I02': p(IV, 'all i32 (and u8; thorough: i64) intervals, also results of operations, and all values'),
    'I03': p(IV, 'all pairs of i32 intervals, also results of operations, all points of the dense order; thorough: all triples'),
    'I04': p(IV, 'all pairs of i32 intervals, also results of operations, all points of the dense order; thorough: triples and quadruples'),
    'I05': p(IV, 'all pairs of i32 intervals, also results of operations, all points of the dense order; thorough: triples'),
    'I06': p(IV, 'all pairs of i32 intervals, also results of operations, all points of the dense order; thorough: triples'),
    'I07': p(IV, 'all pairs of i32 intervals, also results of operations, all pairs of points; thorough: triples'),
    'I08': p(IV, 'all i32 intervals, also results of operations, and all values'),
    'I09': p(IV, 'all i32 and u8 intervals and all shifts that do not overflow, also on results of operations', assume=['arithmetic of the element type does not overflow']),
    'I10': p(IV, 'multiplication and division: all intervals and factors of 8 bits computed in 16 bits, and wrapping 32 bit; negation: all 32 bit intervals, also with saturating arithmetic; thorough: 32 bit multiplication, division of 10 bit by 7 bit values', assume=['arithmetic of the element type does not overflow, or saturates or wraps by its own definition']),
    'I11': p(IV, 'all pairs of i32 bounds, in particular pairs of equal value; thorough: triples'),
    'I12': p(IV, 'all pairs of an i32 lower and an i32 upper bound, in particular of equal value'),
    'I13': p(IV, 'all i32 bounds and values; addition and subtraction on 32 bits, multiplication and division on 8 bits (thorough: 32 and 13 bits)', assume=['arithmetic of the element type does not overflow']),
    'I14': p(IV, 'all pairs of i32 intervals, in particular pairs that differ in closedness only, and results of every operation against a freshly built interval; thorough: triples, pairs of results'),
    'I15': p(IV, 'all intervals over 8 letters (a type that displays as one letter) and over the digits 0 to 7 as u8; thorough: results of an operation, numbers of two digits or negative'),
    'K01': p(CT, 'counters of up to 3 entries with all counts (64 bit) extended by one push or up to 2 elements; 3 elements pushed, collected; size hints exact, absent and useless; elements of 5 different values; thorough: 5 entries, 4 or 5 elements'),
    'K02': p(CT, 'all pairs of counters of up to 2 entries each with counts up to a quarter of the 64 bit range, all four forms of addition, equal and different hashers; thorough: up to 3 entries', assume=['counts do not overflow']),
    'K03': p(CT, 'all pairs of counters of up to 2 entries each, all four forms of subtraction, equal and different hashers, counts of zero on the right; thorough: up to 3 entries'),
    'K04': p(CT, 'counters of 0 to 3 entries with all 64 bit counts, equal ones too, in every order; 20 entries of which one has an arbitrary count; thorough: up to 5, and 24 entries', more=['K04b'], more_t=['K04c']),
    'K05': p(CT, 'maps and counters of up to 3 entries, all counts, one change through the map view; thorough: up to 4'),
    'K06': p(CT, 'pairs of counters of up to 2 entries, one operation on one of original and clone; thorough: up to 3'),
    'D01': p(DS, 'all sequences of up to 3 unions, with or without queries in between, on 4 elements; the deepest trees of 8 elements (pairs, fours, eight), each union through arbitrary members; all histories of 3 insertions or unions from an empty set of 3 elements; two queries; thorough: 5 elements, 4 unions', more=['D01b']),
    'D02': p(DS, 'up to 4 elements: 3 insertions, 2 unions, construction from 3 and extension by 2 elements, with duplicates; size hints exact, absent and useless; thorough: up to 5'),
    'D03': p(DS, 'all unions (up to 2) of 3 elements, pairs of 4 elements joined through arbitrary members; thorough: 3 unions of 4', assume=['the order of the groups is arbitrary']),
    'D04': p(DS, 'clear after up to 2 unions of up to 4 elements, then a union and an insertion; one union on the clone or the original; thorough: 3 unions of 4 elements'),
    'D05': p(DS, 'the worst search after all sequences of 3 unions (with or without queries in between) of 4 elements visits at most 3 stored entries, and at most 4 in the deepest trees of 8 elements; thorough: 5 unions of 6 elements, and the two searches of a union', more=['D05b'], native=('model', 'D05,D05t,D05b'), tries=1),
    'X01': p(dict(crate='unwind', native=('unwind', ''), miri=True), 'one panic, in any one of the calls of user code (drop, clone, comparison, iterator, closure) made by one operation on a circular buffer of capacity 3 (2 for extend, append and comparisons), all arrangements; afterwards the buffer is read completely, pushed to and dropped', assume=['at most one panic: a second one while unwinding aborts the process']),
}

_unw = {}


def _load(here):
    if not _unw:
        d = os.path.join(here, 'harness', 'src')
        for f in os.listdir(d):
            for m in re.finditer(r'^\s+(\w+), (\d+), \|', open(os.path.join(d, f)).read(), re.M):
                _unw[m[1]] = int(m[2])
    return _unw


def unwind_of(here, h):
    return _load(here).get(h, 10)


def unwinds(here, hs):
    r = {}
    for h in hs:
        r.setdefault(str(unwind_of(here, h)), 0)
        r[str(unwind_of(here, h))] += 1
    return r

NA = {
    'X02': 'Asymptotic running time is a statement about growth without bound; a solver verdict within a bound on sizes cannot decide it. What is bounded of it is claimed elsewhere: D05 (depth of the forest), C12 (no element moves).',
}
