"""C31: the library works in whatever order its parts are imported, under every interpreter flag, without Matplotlib and across processes."""
import json
import os
import pickle
import subprocess
import sys
import tempfile
from itertools import product

from mc import lib, state, zygote
from mc.catalog import CAT, MISMATCHED
from mc.engine import Exploration, load
from mc.interp import run_program

RULE = ('a case is one way of bringing up the library (import order, interpreter flags, presence of Matplotlib, unpickling) in a pristine process, followed by '
        'all catalogue calls; or one program judged by the reference model under python -OO')
ASSUMPTIONS = ['Every case runs in its own process forked from an interpreter that has imported NumPy and SciPy (and Matplotlib, where it is available), but not the library.']

PY = sys.executable


def modules():
    """All public modules of the package."""
    out = []
    for d, _, files in sorted(os.walk(lib.PKG_DIR)):
        for f in sorted(files):
            if f.endswith('.py') and (f == '__init__.py' or f[0] != '_'):
                rel = os.path.relpath(os.path.join(d, f), os.path.dirname(lib.PKG_DIR))[:-3].replace(os.sep, '.')
                out.append(rel[:-9] if rel.endswith('.__init__') else rel)
    return out


def _baseline():
    calls = []
    for _, p in CAT:
        calls.append(state.fp(state.prepare(p)[0]()))
    pickles = {}
    for c in zygote.PUBLIC:
        o = zygote.make(c)
        pickles[c] = {p: (pickle.dumps(o, p), zygote.results(o)) for p in range(0, 6)}
    return {'calls': calls, 'pickles': pickles, 'errors': [zygote.outcome(p) for _, p in MISMATCHED], 'drawings': zygote.drawings()}


_TMP = None
_BASE = None
_Z = {}


def base_file():
    global _TMP, _BASE
    if _BASE is None:
        out = state.in_child(_baseline, timeout=100)
        if out[0] != 'ok':
            raise RuntimeError(out[1])
        _TMP = tempfile.NamedTemporaryFile(prefix='mc31_')
        _TMP.write(pickle.dumps(out[1]))
        _TMP.flush()
        _BASE = _TMP.name
    return _BASE


def zyg(flags, env, blocked):
    """The interpreter with these flags and environment (one per worker process)."""
    key = json.dumps([flags, env, blocked])
    p = _Z.get(key)
    if p is None or p.poll() is not None:
        e = dict(os.environ, MC_LAZY='1', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', SKSPATIAL_SRC=lib.SRC, **env)
        p = subprocess.Popen([PY, *flags, '-m', 'mc.zygote', base_file()] + (['blocked'] if blocked else []), stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                             env=e, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
        _Z[key] = p
    return p


def ask(flags, env, blocked, req):
    p = zyg(flags, env, blocked)
    p.stdin.write(json.dumps(req) + '\n')
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError(f'the interpreter {flags} {env} ended with {p.wait()}')
    return json.loads(line)


def title(flags, env, blocked):
    t = ' '.join(['python', *flags] + [f'{k}={v}' for k, v in env.items()])
    return t + (' without Matplotlib' if blocked else '')


def run_case(case, S):
    flags, env, blocked, req = case
    S.traces += 1
    out = ask(flags, env, blocked, req)
    if out[0] != 'ok':
        return f'{title(flags, env, blocked)}, {req}: {out[1]}'
    n, m = out[1]
    S.transitions += n
    S.state(json.dumps(case))
    S.outcome(req[0], 'compared')
    return f'{title(flags, env, blocked)}, {" ".join(map(str, req))[:200]}: {m}' if m else None


def gen_orders(tier):
    def g():
        M = modules()
        for blocked in (False, True):
            yield [[], {}, blocked, ['order', [], False, False]]
            for a in M:
                yield [[], {}, blocked, ['order', [a], False, False]]
            for a, b in product(M, M):
                if a != b:
                    yield [[], {}, blocked, ['order', [a, b], False, False]]
            if tier == 'thorough':
                top = [m for m in M if m.count('.') == 1] + ['skspatial.objects.' + n for n in ('cylinder', 'line', 'plane', 'points', 'triangle', 'vector')]
                for t in product([m for m in top if m in M], repeat=3):
                    if len(set(t)) == 3:
                        yield [[], {}, blocked, ['order', list(t), False, False]]
    return g


FLAGS = [['-O'], ['-OO'], ['-X', 'dev'], ['-bb'], ['-X', 'utf8'], ['-X', 'int_max_str_digits=640'], ['-W', 'ignore'], ['-u']]
ENVS = [{'PYTHONHASHSEED': '1'}, {'PYTHONHASHSEED': '2'}, {'PYTHONHASHSEED': '3'}, {'PYTHONHASHSEED': '12345'}, {'LC_ALL': 'C'}, {'TZ': 'Asia/Tokyo'}, {'PYTHONMALLOC': 'debug'}]


def gen_flags(tier):
    def g():
        M = [m for m in modules() if tier == 'thorough' or m.count('.') == 1]
        for blocked in (False, True):
            for strict, thread in product((False, True), (False, True)):
                for a in [[]] + [[m] for m in M]:
                    yield [[], {}, blocked, ['order', a, strict, thread]]
            for f in FLAGS:
                for a in [[]] + [[m] for m in M]:
                    yield [f, {}, blocked, ['order', a, False, False]]
            for e in ENVS:
                for a in [[]] + [[m] for m in M]:
                    yield [[], e, blocked, ['order', a, False, False]]
            if tier == 'thorough':
                for f, e in product(FLAGS, ENVS):
                    yield [f, e, blocked, ['order', [], True, False]]
    return g


def gen_errors(tier):
    def g():
        for blocked in (False, True):
            for strict in (False, True):
                for f in [[]] + FLAGS:
                    yield [f, {}, blocked, ['errors', strict]]
            for e in ENVS:
                yield [[], e, blocked, ['errors', False]]
    return g


def gen_drawings(tier):
    def g():
        M = [m for m in modules() if tier == 'thorough' or m.count('.') == 1]
        for f in [[]] + FLAGS:
            for a in [[]] + [[m] for m in M]:
                yield [f, {}, False, ['drawings', a, False]]
        for e in ENVS + [{'PYTHONHASHSEED': str(k)} for k in (0, 4, 5, 6, 7, 8)]:
            yield [[], e, False, ['drawings', [], False]]
    return g


# Values of the environment variables that the library reads (it should read none).
VALUES = ['', '0', '1', '100', '-1', '0.5', '1e-6', '1e6', 'on', 'off', 'true', 'false', 'debug', 'float32', 'x']


def run_environ(case, S):
    if case[3] != ['reads']:
        return run_case(case, S)
    out = ask(*case)
    if out[0] != 'ok':
        raise RuntimeError(out[1])
    S.traces += 1
    S.state(json.dumps(out[1]))
    S.outcome('environment variables read', len(out[1][1]))
    return None


def gen_environ(tier):
    """The variables that the library reads during all calls, with every value; a variable may unlock further ones."""
    def g():
        seen = {}
        todo = [{}]
        while todo and len(seen) < 12:
            env = todo.pop(0)
            yield [[], env, False, ['reads']]
            out = ask([], env, False, ['reads'])
            for name in out[1][1] if out[0] == 'ok' else ():
                if name not in seen:
                    seen[name] = True
                    for v in VALUES:
                        for req in (['order', [], False, False], ['errors', False], ['drawings', [], False]):
                            yield [[], {name: v}, False, req]
                    todo += [{name: v} for v in ('1', 'x')]
    return g


def gen_unpickle(tier):
    def g():
        for flags in ([], ['-OO']):
            for blocked in (False, True):
                for c in zygote.PUBLIC:
                    for proto in range(0, 6):
                        yield [flags, {}, blocked, ['unpickle', c, proto]]
    return g


# Programs of the reference-model checks (constructors and operations, valid and invalid) under python -OO.
SOURCES = {'quick': [1, 2, 18, 25, 26, 27], 'thorough': [1, 2] + list(range(9, 28)) + [32]}


def run_optimised(case, S):
    name, prog = case
    S.traces += 1
    out = ask(['-OO'], {}, False, ['judge', prog])
    if out[0] != 'ok':
        raise RuntimeError(out[1])
    n, m = out[1]
    S.transitions += n
    S.state(json.dumps(prog))
    S.outcome('python -OO', name)
    return f'python -OO: {m}' if m else None


def gen_optimised(tier):
    def g():
        for _, prog in MISMATCHED:
            yield ['dimensions', prog]
        for c in SOURCES[tier]:
            name = 'C%02d' % c
            for e in load(name).EXPLORE('quick'):
                if e.run is run_program:
                    for prog in e.gen():
                        yield [name, prog]
    return g


def EXPLORE(tier):
    return [
        Exploration('orders', gen_orders(tier), run=run_case, bounds='every module first and every ordered pair of modules (thorough: triples), with and without Matplotlib, then the whole catalogue'),
        Exploration('flags', gen_flags(tier), run=run_case, bounds=f'{len(FLAGS)} interpreter flags, {len(ENVS)} environments, warnings as errors, import in another thread, each with every first module'),
        Exploration('errors', gen_errors(tier), run=run_case, bounds=f'{len(MISMATCHED)} calls with operands of other dimensions (most of them rejected) under every flag and environment: the same exceptions with the same messages'),
        Exploration('drawings', gen_drawings(tier), run=run_case, bounds=f'{len(zygote.DRAWN)} drawings under every flag, environment and ten hash seeds, artist by artist'),
        Exploration('environment', gen_environ(tier), run=run_environ, bounds=f'every environment variable that the library reads while it is imported, draws or makes the calls of the catalogue, with {len(VALUES)} values'),
        Exploration('unpickle', gen_unpickle(tier), run=run_case, bounds='ten classes x six protocols, unpickled in processes that have not imported the library'),
        Exploration('optimised', gen_optimised(tier), run=run_optimised, bounds='all calls of the catalogue with operands of another dimension and all programs of the alphabets of C01, C02, C18, C25-C27 (thorough: all) judged under python -OO'),
    ]
