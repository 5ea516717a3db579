"""What a harness sees: named inputs, assumptions, obligations.

The same harness runs twice: symbolically over the instrumented code (ctx.py)
and concretely over the untouched code (concrete.py).
"""
import datetime

NOW = 1600000000 * 1000000      # default clock, in microseconds

JOBS = {}       # property -> [Job]


class Job:
    def __init__(self, prop, name, fn, reach, bounds, params, tiers,
                 weight, escapes):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.reach = tuple(reach)
        self.bounds = bounds
        self.params = params
        self.tiers = tiers
        self.weight = weight
        self.escapes = escapes

    @property
    def id(self):
        return '%s.%s' % (self.prop, self.name)


def job(prop, name=None, reach=(), bounds='', params=None, tiers=None,
        weight=1, escapes=()):
    """Registers a harness; params: name -> keyword arguments of variants."""
    def deco(fn):
        base = name or fn.__name__
        jobs = JOBS.setdefault(prop, [])
        if params is None:
            jobs.append(Job(prop, base, fn, reach, bounds, {}, tiers,
                            weight, escapes))
        else:
            for k, kw in params.items():
                jobs.append(Job(prop, '%s[%s]' % (base, k), fn, reach,
                                bounds, kw, tiers, weight, escapes))
        return fn
    return deco


def jobs_for(prop, tier):
    return [j for j in JOBS.get(prop, ())
            if j.tiers is None or tier in j.tiers]


class Api:
    """Inputs common to both modes, made from the primitive ones."""

    tier = 'quick'

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def unique(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    def pick(self, name, options):
        """One of several options; all are explored."""
        options = list(options)
        return options[self.choice(name, len(options))]

    def flag(self, name):
        return self.choice(name, 2) == 1

    def opt(self, name, make):
        """make() or None."""
        return make() if self.flag(name + '?') else None

    def outcome(self, f, *a, **k):
        """(value, None) or (None, exception)."""
        try:
            return f(*a, **k), None
        except Exception as e:      # pylint: disable=broad-except
            return None, e

    def kind_of(self, e):
        return 'ok' if e is None else type(e).__name__

    def any(self, name, kinds=None, depth=1):
        """A value as the codec may produce from hostile bytes."""
        import cbor
        kinds = kinds or ANY
        k = self.pick(name + '.kind', kinds)
        self.last_kind = k
        if k == 'none':
            return None
        if k == 'bool':
            return self.bool(name)
        if k == 'int':
            return self.int(name, -(1 << 70), 1 << 70)
        if k == 'float':
            return self.pick(name + '.float', [1.5, 0.0, -2.0, float('inf')])
        if k == 'nan':
            return float('nan')
        if k == 'str':
            return self.text(name, 1, 3)
        if k == 'str0':
            return ''
        if k == 'bytes':
            return self.blob(name, 1, 3)
        if k == 'bytes0':
            return b''
        if k == 'list0':
            return []
        if k == 'list':
            return [self.any(name + '.0', SIMPLE if depth else FLAT,
                             depth - 1)]
        if k == 'list2':
            return [self.any(name + '.0', FLAT), self.any(name + '.1', FLAT)]
        if k == 'dict0':
            return {}
        if k == 'dict':
            key = self.pick(name + '.key', ['zz', b'zz', 7, None])
            return {key: self.any(name + '.v', FLAT)}
        if k == 'tag':
            return cbor.Tag(99, self.pick(name + '.tagged', [0, 'x', []]))
        if k == 'tag1':
            return cbor.Tag(1, self.pick(name + '.tagged', [
                1577934245, 1 << 62, None, 'x']))
        if k == 'tag35':
            return cbor.Tag(35, self.pick(name + '.tagged', ['a+', '(', 1]))
        if k == 'datetime':
            return datetime.datetime(2020, 1, 2, 3, 4, 5)
        raise AssertionError(k)


FLAT = ('none', 'int', 'str', 'bytes')
SIMPLE = ('none', 'bool', 'int', 'float', 'str', 'str0', 'bytes', 'list0',
          'dict0')
ANY = ('none', 'bool', 'int', 'float', 'nan', 'str', 'str0', 'bytes',
       'bytes0', 'list0', 'list', 'list2', 'dict0', 'dict', 'tag',
       'datetime')
SENT = ANY[:-1] + ('tag1', 'tag35')      # as encoded by the sender


# -- values in JSON ---------------------------------------------------------

def to_json(v):
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, (bytes, bytearray)):
        return {'b': bytes(v).hex()}
    if isinstance(v, int):
        return int(v) if abs(v) < 1 << 53 else {'i': str(int(v))}
    if isinstance(v, str):
        return v
    if isinstance(v, (list, tuple)):
        return [to_json(x) for x in v]
    raise TypeError(type(v))


def from_json(v):
    if isinstance(v, dict):
        if 'b' in v:
            return bytes.fromhex(v['b'])
        return int(v['i'])
    if isinstance(v, list):
        return [from_json(x) for x in v]
    return v
