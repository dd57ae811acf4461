"""C32: operands of different dimensions are rejected (or padded where documented), never broadcast or truncated."""
from itertools import product

from mc.catalog import CAT, MISMATCHED
from mc.engine import Exploration
from mc.interp import xform

RULE = 'a case is one call (with the construction of its operands), judged by the reference model; it is non-trivial when the operands could be constructed'

PAD = {'values': [2, -1, 3, 0.5, -2, 1, 4], 'zeros': [0] * 7}


def kind(x):
    return next((r for r in ('P', 'V', 'S') if isinstance(x, dict) and r in x), None)


def dim(x):
    v = x[kind(x)]
    return len(v[0] if kind(x) == 'S' else v)


def to_dim(x, d, pad):
    """The leaf with d coordinates: the first ones, followed by the padding."""
    def go(v):
        return v[:d] if len(v) >= d else v + PAD[pad][:d - len(v)]
    r = kind(x)
    return {**x, r: [go(p) for p in x[r]] if r == 'S' else go(x[r])}


def groups(prog):
    """The operands of a program: the arrays of every constructed object, and every array argument of the last step."""
    out = []
    for k, step in enumerate(prog):
        at = 3 if step[0] in ('op', 'cm') else 2
        here = []
        for a, x in enumerate(step[at]):
            if kind(x):
                here.append((at, a))
            elif isinstance(x, list) and x and all(kind(y) for y in x):  # a list of vectors
                here.append((at, a))
        if step[0] == 'new' and k < len(prog) - 1:
            out.append([(k, *h) for h in here])
        else:
            out += [[(k, *h)] for h in here]
            for key, x in (step[at + 1].items() if step[0] in ('op', 'cm', 'fn') else ()):
                if kind(x):
                    out.append([(k, at + 1, key)])
    return [g for g in out if g]


def with_dims(prog, gs, dims, pad):
    p = [list(s) for s in prog]
    for g, d in zip(gs, dims):
        for k, at, a in g:
            p[k][at] = dict(p[k][at]) if isinstance(p[k][at], dict) else list(p[k][at])
            x = p[k][at][a]
            p[k][at][a] = [to_dim(y, d, pad) for y in x] if isinstance(x, list) else to_dim(x, d, pad)
    return p


FIXED = {'Circle', 'Cylinder'}


def gen_products(tier):
    """All combinations of dimensions of the operands of every operation."""
    top = 5 if tier == 'quick' else 7

    def g():
        seen = set()
        count = {}
        for name, prog in CAT:
            gs = groups(prog)
            if not gs:
                continue
            # a few calls of every operation, with different numbers of operands
            key = (name, len(gs))
            count[key] = count.get(key, 0) + 1
            if count[key] > (6 if tier == 'quick' else 40):
                continue
            ds = range(1, top + 1) if len(gs) <= 3 else range(1, 4) if len(gs) == 4 else (1, 2, 3)
            for dims in product(ds, repeat=len(gs)):
                for pad in PAD:
                    p = with_dims(prog, gs, dims, pad)
                    r = repr(p)
                    if r not in seen:
                        seen.add(r)
                        yield p
    return g


def gen_catalogue(tier):
    def g():
        for rep in (None, 'float64', 'spatial', 'tuple') if tier == 'quick' else (None, 'float64', 'spatial', 'tuple', 'spatialfloat', 'ndarray', 'strided', 'readonly', 'cross', 'float32'):
            for _, p in MISMATCHED:
                yield p if rep is None else xform(p, rep=rep)
    return g


def gen_far(tier):
    """Dimensions far apart, and a single coordinate, which NumPy would broadcast."""
    def g():
        seen = set()
        for name, prog in CAT:
            gs = groups(prog)
            if len(gs) < 2:
                continue
            for j in range(len(gs)):
                for d in (1, 6, 7):
                    for pad in PAD:
                        if d == 1 and pad == 'zeros':
                            continue
                        p = [list(s) for s in prog]
                        p = with_dims(p, [gs[j]], [d], pad)
                        r = repr(p)
                        if r not in seen:
                            seen.add(r)
                            yield p
    return g


def EXPLORE(tier):
    return [
        Exploration('products', gen_products(tier), bounds='every operation, all combinations of the dimensions 1 to 5 (thorough: 7) of its operands, padded with zeros or other numbers'),
        Exploration('catalogue', gen_catalogue(tier), bounds=f'{len(MISMATCHED)} calls of the catalogue with one array, or all arrays of an operand, of another dimension, in four representations (thorough: ten)'),
        Exploration('far', gen_far(tier), bounds='every catalogue call, one operand of dimension 1, 6 or 7'),
    ]
