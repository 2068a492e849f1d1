from hypothesis import strategies as st
from lib.pbt import Sub, require, equal, close, fail
import numpy as np
from coax.utils import SegmentTree, SumTree, MinTree, MaxTree

RULE = ('Cases: (kind, capacity 1..40 and around 64, 100 and 128, history of value updates and range queries). Non-trivial: at least one '
        'update precedes a query and some queried range is neither a single leaf nor the whole array.')
ASSUMPTIONS = ['updates index existing leaves; queried ranges are non-empty sub-ranges of [0, capacity)',
               'reducers are associative and commutative (sum, min, max, product)']

KINDS = {
    'sum': (lambda c: SumTree(c), np.add, 0.0),
    'min': (lambda c: MinTree(c), np.minimum, float('inf')),
    'max': (lambda c: MaxTree(c), np.maximum, -float('inf')),
    'generic_add': (lambda c: SegmentTree(c, np.add, 0), np.add, 0.0),
    'generic_mul': (lambda c: SegmentTree(c, np.multiply, 1), np.multiply, 1.0),
    'generic_max': (lambda c: SegmentTree(c, np.maximum, -np.inf), np.maximum, -float('inf')),
}
# dyadic values => sums/products are exact, independent of association order
dyadic = st.integers(-64, 64).map(lambda k: k / 8)
pow2 = st.sampled_from([0.5, 1.0, 2.0, -1.0, -2.0])


@st.composite
def case(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    cap = draw(st.one_of(st.integers(1, 40), st.sampled_from([1, 2, 4, 8, 16, 32, 3, 5, 7, 9]), st.sampled_from([1, 2, 8, 16, 31, 33, 63, 64, 65, 100, 128])))
    val = pow2 if kind == 'generic_mul' else dyadic
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        op = draw(st.sampled_from(['set', 'set', 'set', 'setall', 'setint', 'reduce', 'reduce_batch', 'reduce_default']))
        if op == 'set':
            n = draw(st.integers(1, min(2 * cap, 12)))
            idx = draw(st.lists(st.integers(-cap, cap - 1), min_size=n, max_size=n))
            if draw(st.booleans()):
                ops.append(['set', idx, draw(st.lists(val, min_size=n, max_size=n)), draw(st.sampled_from(['list', 'int32', 'int64']))])
            else:
                ops.append(['set', idx, draw(val), draw(st.sampled_from(['list', 'int32', 'int64']))])
        elif op == 'setall':
            ops.append(['setall', draw(st.one_of(st.lists(val, min_size=cap, max_size=cap), val)), draw(st.sampled_from(['array', 'list']))])
        elif op == 'setint':
            ops.append(['setint', draw(st.integers(-cap, cap - 1)), draw(val)])
        elif op == 'reduce':
            a = draw(st.integers(0, cap - 1))
            ops.append(['reduce', a, draw(st.integers(a + 1, cap))])
        elif op == 'reduce_default':
            ops.append(['reduce_default', draw(st.integers(0, cap - 1))])
        else:
            n = draw(st.integers(1, 8))
            starts = draw(st.lists(st.integers(0, cap - 1), min_size=n, max_size=n))
            stops = [draw(st.integers(a + 1, cap)) for a in starts]
            ops.append(['reduce_batch', starts, stops, draw(st.sampled_from(['both', 'both', 'stop_int', 'start_int', 'stop_none']))])
    return dict(kind=kind, capacity=cap, ops=ops)


def check(c):
    make, red, unit = KINDS[c['kind']]
    cap = c['capacity']
    tree = make(cap)
    model = np.full(cap, unit)
    updated, interesting = False, False

    def ref(a, b):
        out = unit
        for x in model[a:b]:
            out = red(out, x)
        return float(out)

    def whole(what):
        equal(tree.values, model, f'{what}: stored values')
        equal(np.ravel(tree.root_value), [ref(0, cap)], f'{what}: overall aggregate')
        # every inner node aggregates exactly the leaves below it
        for level in range(tree.height):
            nodes = np.asarray(tree[level])
            span = 2 ** (tree.height - 1 - level)
            for i, x in enumerate(nodes):
                e = ref(i * span, min((i + 1) * span, cap)) if i * span < cap else unit
                require(x == e, f'{what}: node at level {level} index {i} is {x}, its leaves aggregate to {e}')

    whole('initially')
    for op in c['ops']:
        if op[0] == 'set':
            idx, vals, form = op[1:]
            ix = idx if form == 'list' else np.asarray(idx, dtype=form)
            tree.set_values(ix, vals if not isinstance(vals, list) or len(vals) % 3 == 0 else np.asarray(vals))
            for k, i in enumerate(idx):
                model[i] = vals[k] if isinstance(vals, list) else vals
            updated = True
        elif op[0] == 'setall':
            tree.set_values(..., np.asarray(op[1]) if isinstance(op[1], list) and op[2:] != ['list'] else op[1])
            model[:] = op[1]
            updated = True
        elif op[0] == 'setint':
            tree.set_values(op[1], op[2])
            model[op[1]] = op[2]
            updated = True
        elif op[0] == 'reduce':
            a, b = op[1:]
            equal(np.ravel(tree.partial_reduce(a, b)), [ref(a, b)], f'reduction over [{a}, {b})')
            interesting |= updated and 1 < b - a < cap
        elif op[0] == 'reduce_default':
            equal(np.ravel(tree.partial_reduce(op[1])), [ref(op[1], cap)], f'reduction over [{op[1]}, end)')
            if op[1] == 0:
                equal(np.ravel(tree.partial_reduce()), [ref(0, cap)], 'reduction over everything')
            interesting |= updated and 1 < cap - op[1] < cap
        else:
            starts, stops, form = op[1:]
            if form == 'stop_int':
                m = max(stops)
                stops = [m] * len(starts)
                got = tree.partial_reduce(np.asarray(starts), m)
            elif form == 'start_int':
                m = min(starts)
                starts = [m] * len(stops)
                got = tree.partial_reduce(m, np.asarray(stops))
            elif form == 'stop_none':
                stops = [cap] * len(starts)
                got = tree.partial_reduce(np.asarray(starts))
            else:
                got = tree.partial_reduce(np.asarray(starts), np.asarray(stops))
            exp = [ref(a, b) for a, b in zip(starts, stops)]
            equal(got, exp, f'batched reduction over {list(zip(starts, stops))}')
            interesting |= updated and any(1 < b - a < cap for a, b in zip(starts, stops))
        whole(f'after {op[0]}')
    return interesting


@st.composite
def case_float(draw):
    cap = draw(st.one_of(st.integers(1, 300), st.sampled_from([511, 512, 513, 1000, 1023, 1024, 1025, 2048, 3000, 4097, 33000, 70001])))
    return dict(capacity=cap, seed=draw(st.integers(0, 2**31 - 1)), rounds=draw(st.integers(1, 6)),
                kind=draw(st.sampled_from(['sum', 'min', 'max'])))


def check_float(c):
    """larger trees, arbitrary real values, many ranges at once"""
    make, red, unit = KINDS[c['kind']]
    cap, rnd = c['capacity'], np.random.RandomState(c['seed'])
    tree, model = make(cap), np.full(cap, unit)
    for _ in range(c['rounds']):
        idx = rnd.randint(0, cap, size=rnd.randint(1, cap + 1))
        vals = rnd.randn(idx.size) * 10 ** rnd.uniform(-2, 2)
        tree.set_values(idx, vals)
        for i, v in zip(idx, vals):
            model[i] = v
        a = rnd.randint(0, cap, size=50)
        b = a + 1 + (rnd.rand(50) * (cap - a)).astype(int)
        exp = [red.reduce(model[x:y]) for x, y in zip(a, b)]
        close(tree.partial_reduce(a, b), exp, 'batched reduction (reals)', rtol=1e-9, atol=1e-7)
        close(np.ravel(tree.root_value), [red.reduce(model)], 'overall aggregate (reals)', rtol=1e-9, atol=1e-7)
    return cap > 2


def exhaustive():
    return st.tuples(st.one_of(st.integers(1, 17), st.sampled_from([31, 32, 33, 50, 63, 64, 65])), st.sampled_from(['sum', 'min', 'max'])).map(lambda t: dict(capacity=t[0], kind=t[1]))


def check_exhaustive(c):
    """all O(capacity^2) ranges in one batched call, for one random assignment"""
    make, red, unit = KINDS[c['kind']]
    cap = c['capacity']
    tree = make(cap)
    vals = np.random.RandomState(cap).permutation(cap) - cap // 2
    tree.set_values(..., vals)
    rng = [(a, b) for a in range(cap) for b in range(a + 1, cap + 1)]
    a, b = np.array(rng).T
    equal(tree.partial_reduce(a, b), [float(red.reduce(vals[x:y])) for x, y in rng], 'all ranges')
    for x, y in rng:
        equal(np.ravel(tree.partial_reduce(int(x), int(y))), [float(red.reduce(vals[x:y]))], f'range [{x},{y})')
    return cap > 2


SUBS = [Sub('history', case, check, quick=1500, thorough=60000, budget=40),
        Sub('reals', case_float, check_float, quick=400, thorough=10000, budget=25),
        Sub('all_ranges', exhaustive, check_exhaustive, quick=80, thorough=400, budget=30)]
