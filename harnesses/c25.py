"""C25 get_numpy_array and restore_dimensions."""
import itertools
from .common import *
from . import shapes
from . import histories
from . import numtypes

L = {'x': 2, 'y': 3, 'z': 2, 'w': 2, 'v': 1, 'u': 0, 'q': 3}


def perms(names, n):
    return [p for k in n for p in itertools.permutations(names, k)]


def build(ctx, dims, tag='v', coords=False):
    shape = tuple(L[d] for d in dims)
    v = ctx.array(tag, shape) if shape else np.array(ctx.real(tag))
    c = {d: [10. * i for i in range(L[d])] for d in dims} if coords else None
    return DataArray(v, dims=dims, attrs={'units': 'm', 'n': 1}, coords=c), np.array(v)


def meaning(dims, out):
    """(kind, folded dims): how the quantity may be extracted, or None when it cannot"""
    if len(set(out)) != len(out):
        return None
    for d in out:
        if d not in dims and d not in ('x', 'y', 'z', '*'):
            return None
    rest = [d for d in dims if d not in out]
    if rest and '*' not in out:
        return None
    return rest


def expected(v, dims, out, rest):
    """element by element: nothing of numpy's reshape is used"""
    lens = dict(zip(dims, v.shape))
    shape = []
    for d in out:
        if d == '*':
            n = 1
            for r in rest:
                n *= lens[r]
            shape.append(n)
        else:
            shape.append(lens.get(d, 1))
    res = np.empty(tuple(shape), dtype=object)
    for idx in np.ndindex(*shape):
        pos = {}
        for d, i in zip(out, idx):
            if d == '*':
                for r in reversed(rest):
                    pos[r] = i % lens[r]
                    i //= lens[r]
            elif d in lens:
                pos[d] = i
        res[idx] = v[tuple(pos[d] for d in dims)]
    return res


def extract(ctx, B):
    dims = ctx.choose('dims', B['dims'])
    out = list(ctx.choose('out_dims', B['out']))
    coords = bool(ctx.choice('coords', B['coords']))
    a, v = build(ctx, dims, coords=coords)
    snap = snapshot({'a': a})
    rest = meaning(dims, out)
    if rest is None:
        ctx.expect_exc(lambda: sympl.get_numpy_array(a, out), Exception, 'cannot be extracted')
        check_unmodified(ctx, snap, {'a': a}, 'rejected')
        ctx.reach('rejected')
        return
    given = list(out)
    got, matches = sympl.get_numpy_array(a, given, return_wildcard_matches=True)
    ctx.check(given == out, 'out_dims unmodified')
    ctx.close(got, expected(v, dims, out, rest), 'array', tol=0)
    ctx.check(matches == ({'*': rest} if '*' in out else {}), 'wildcard matches %s' % matches)
    ctx.close(sympl.get_numpy_array(a, out), got, 'with and without matches', tol=0)
    check_unmodified(ctx, snap, {'a': a}, 'extracted')
    if rest and '*' in out:
        want = list(ctx.choose('required matches', list(itertools.permutations(rest))))
        r2 = sympl.get_numpy_array(a, out, require_wildcard_matches={'*': want})
        ctx.close(r2, expected(v, dims, out, want), 'required order of wildcard dims', tol=0)
    attrs = {'units': 'K'} if ctx.flag('attributes given') else None
    back = sympl.restore_dimensions(got, out, a, attrs) if attrs else sympl.restore_dimensions(got, out, a)
    ctx.check(isinstance(back, DataArray) and tuple(back.dims) == tuple(dims), 'dims of the restored quantity')
    ctx.close(back.values, v, 'restored values', tol=0)
    ctx.check(dict(back.attrs) == (attrs or {}), 'attributes')
    if coords:
        for d in dims:
            ctx.check(list(np.asarray(back.coords[d].values)) == [10. * i for i in range(L[d])], 'coordinates')
    # another quantity computed from the extracted array goes to the same positions
    other = ctx.array('o', got.shape) if got.shape else np.array(ctx.real('o'))
    back = sympl.restore_dimensions(other, out, a)
    if set(out) - {'*'} <= set(dims) or got.size == back.size:
        o, _ = sympl.get_numpy_array(back, out, return_wildcard_matches=True)
        ctx.close(o, other, 'extraction of the restored quantity', tol=0)
    check_unmodified(ctx, snap, {'a': a}, 'restored')
    ctx.reach('done')


def misfit(ctx, B):
    """arrays which do not fit are rejected"""
    dims = ctx.choose('dims', B['dims'])
    out = list(ctx.choose('from_dims', B['out']))
    a, v = build(ctx, dims)
    rest = meaning(dims, out)
    if rest is None:
        ctx.assume(False)
    shape = expected(v, dims, out, rest).shape
    given = ctx.choose('shape', B['shapes'])
    if given == shape:
        ctx.assume(False)
    r = ctx.array('r', given) if given else np.array(ctx.real('r'))
    ctx.expect_exc(lambda: sympl.restore_dimensions(r, out, a), Exception, '%s does not fit %s' % (given, shape))
    ctx.reach('done')


OUT = [(), ('*',), ('x',), ('x', 'y'), ('y', 'x'), ('*', 'x'), ('y', '*'), ('z', 'y', 'x'), ('*', 'z', 'y'),
       ('x', '*', 'z'), ('w', '*'), ('w', 'y', 'x'), ('z', '*', 'w', 'y')]
D3 = perms(('x', 'y', 'w'), (0, 1, 2, 3))
HARNESSES = [
    Harness('extract', extract, dict(dims=D3, out=OUT, coords=1),
            dict(dims=D3 + perms(('x', 'y', 'z', 'w'), (4,)), coords=2,
                 out=OUT + perms(('*', 'x', 'z', 'w'), (4,))), reach=['done', 'rejected']),
    Harness('coordinates', extract, dict(dims=[('x', 'y'), ('w', 'y', 'x')], out=OUT, coords=2), reach=['done']),
    Harness('misfit', misfit, dict(dims=D3[4:10], out=[('*',), ('x', '*'), ('y', '*'), ('y', 'x'), ('*', 'z', 'y')],
                                   shapes=[(), (6,), (2, 3), (3, 2), (6, 1), (1, 6), (2, 1, 3), (3, 1, 2), (4,)]),
            reach=['done']),
    Harness('empty', extract, dict(dims=[('x', 'u'), ('u', 'y'), ('w', 'u', 'y'), ('u',)], coords=2,
                                   out=[('*',), ('u', 'x'), ('x', 'u'), ('*', 'u'), ('u', '*'), ('u', 'y', 'z'),
                                        ('y', '*'), ('u',), ('w', '*', 'y')]), reach=['done', 'rejected'],
            note='a dimension of length zero'),
    Harness('empty_misfit', misfit, dict(dims=[('x', 'u'), ('u', 'y'), ('u',)],
                                         out=[('*',), ('x', '*'), ('u', 'x'), ('u', '*'), ('u', 'y')],
                                         shapes=[(), (0,), (1,), (2,), (2, 0), (0, 2), (1, 0), (0, 1), (3, 0), (0, 3), (2, 1), (1, 1)]),
            reach=['done']),
    numtypes.LEGACY,
    Harness('large', extract, dict(dims=[('w', 'y', 'x', 'q', 'z'), ('z', 'x', 'q', 'y')], coords=1,
                                   out=[('*', 'x'), ('x', '*', 'z'), ('z', 'y', '*', 'x')]), reach=['done'], note='4 and 5 dimensions'),
]
HARNESSES.append(histories.LEGACY)
ASSUMPTIONS = ['values are moved, never combined, so equality is exact']
HARNESSES.append(shapes.LEGACY)
