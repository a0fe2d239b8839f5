"""Shared plumbing of the execution side (replay / bounded stand-in).

Runs under /opt/venv/bin/python against /repo's working tree.  A check module
calls ctx.eval(...) once per executed case and ctx.fail(key, detail, replay)
when the observed behaviour differs from the executable specification.
"""
import contextlib, hashlib, importlib, io, json, os, random, sys, tempfile, time, traceback, warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
import numpy as np  # noqa: E402

np.seterr(all='ignore')


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Ctx:
    def __init__(self, prop, seed, tier, budget):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.rng = np.random.default_rng(seed * 7919 + 13)
        self.pyrng = random.Random(seed)
        self.deadline = time.time() + budget
        self.evaluations = 0
        self.seen = set()
        self.samples = []
        self.failures = {}
        self.groups = {}
        self.group = None
        self.invalid = 0
        self.notes = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough=None):
        """number of random cases for this tier"""
        return quick * 3 if not self.thorough else (thorough if thorough is not None else quick * 12)

    def timeup(self):
        return time.time() > self.deadline

    def eval(self, sig, sample=None):
        """count one executed case; sig identifies it (distinct cases counted once)"""
        self.evaluations += 1
        h = hashlib.blake2b(repr(sig).encode(), digest_size=10).digest()
        new = h not in self.seen
        self.seen.add(h)
        g = self.groups.setdefault(self.group or 'default', [0, 0])
        g[0] += 1
        g[1] += new
        if new and len(self.samples) < 12 and (g[1] in (1, 7)):
            self.samples.append('%s: %s' % (self.group, short(sample if sample is not None else sig, 300)))

    def fail(self, key, detail, replay=None):
        f = self.failures.setdefault(key, {'key': key, 'detail': detail, 'replay': replay, 'count': 0,
                                           'group': self.group})
        f['count'] += 1

    @contextlib.contextmanager
    def section(self, name):
        self.group = name
        try:
            yield
        except Exception:
            # an unexpected exception from the code under test outside a guarded call
            self.fail('%s/exception' % name, 'unexpected exception in section %s:\n%s' %
                      (name, traceback.format_exc()[-3000:]))
        finally:
            self.group = None

    def result(self):
        return {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.seen), 'samples': self.samples,
                'failures': list(self.failures.values()), 'groups': self.groups, 'notes': self.notes}


@contextlib.contextmanager
def quiet():
    """swallow prints of the code under test"""
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


@contextlib.contextmanager
def recorded():
    with contextlib.redirect_stdout(io.StringIO()) as out, warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        yield out, w


def main():
    prop, out = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    budget = float(os.environ.get('VERIF_B_BUDGET', '120' if tier == 'quick' else '600'))
    ctx = Ctx(prop, seed, tier, budget)
    t0 = time.time()
    import bounded  # noqa
    mod = importlib.import_module('bounded.' + prop.lower())
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='vb_') as tmp:
        os.chdir(tmp)
        ctx.tmp = tmp
        try:
            mod.run(ctx)
        finally:
            os.chdir(cwd)
    r = ctx.result()
    r['wall_s'] = time.time() - t0
    import onnx_tool
    r['tool_path'] = os.path.realpath(onnx_tool.__file__)
    with open(out, 'w') as f:
        json.dump(r, f, default=str)


if __name__ == '__main__':
    sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import bounded.core as _c
    _c.main()
