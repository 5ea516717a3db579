"""C22: restricted dictionaries only hold declared, validated entries."""
import ipaddress

from golem_messages import datastructures, exceptions
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import stats as dt_stats
from golem_messages.message import concents, tasks

from sx.api import job

from .build import Builder, same_value

FileInfo = concents.FileTransferToken.FileInfo


class Small(datastructures.ValidatingDict, datastructures.FrozenDict):
    """A dictionary as users may define it."""
    ITEMS = {'a': [], 'b': {'x': [1]}, 'n': 3}

    def validate_n(self, value):
        if isinstance(value, bool) or not isinstance(value, int) or \
                value < 3:
            raise exceptions.FieldError('n', field='n', value=value)


DICTS = {
    'BlockIoEntry': dt_stats.BlockIoEntry,
    'CpuUsage': dt_stats.CpuUsage,
    'ThrottlingData': dt_stats.ThrottlingData,
    'MemoryData': dt_stats.MemoryData,
    'ComputeTaskDef': tasks.ComputeTaskDef,
    'FileInfo': FileInfo,
    'Peer': dt_p2p.Peer,
    'Small': Small,
}
DEFAULTS = {
    'BlockIoEntry': {'major': 0, 'minor': 0, 'op': None, 'value': 0},
    'CpuUsage': {'percpu_usage': [], 'total_usage': 0,
                 'usage_in_kernelmode': 0, 'usage_in_usermode': 0},
    'ThrottlingData': {'periods': 0, 'throttled_periods': 0,
                       'throttled_time': 0},
    'MemoryData': {'failcnt': 0, 'limit': 0, 'max_usage': 0, 'usage': 0},
    'ComputeTaskDef': {'task_id': '', 'subtask_id': '', 'deadline': 0,
                       'extra_data': {}, 'performance': 0,
                       'docker_images': None, 'resources': []},
    'FileInfo': {'path': '', 'checksum': '', 'size': 0,
                 'category': FileInfo.Category.results},
    'Peer': {'address': None, 'port': None, 'node': None},
    'Small': {'a': [], 'b': {'x': [1]}, 'n': 3},
}
KINDS = ('none', 'bool', 'int', 'float', 'str', 'str0', 'bytes', 'list0',
         'list', 'dict0', 'dict', 'tag')
PARAMS = {n: {'name': n} for n in DICTS}
ROUTES = ('dict', 'pairs', 'iterator', 'keywords', 'own')


def value(ctx, name, key, label):
    """An arbitrary value for a key."""
    special = []
    if (name, key) == ('FileInfo', 'category'):
        special = list(FileInfo.Category) + ['results', 'upload']
    if name == 'Peer' and key == 'address':
        special = ['ip', '1.2.3', '::1', '']
        k = ctx.pick(label + '.what', special + ['text', 'kind'])
        if k == 'ip':
            return ctx.ip(label)
        if k == 'text':
            return ctx.text(label, 1, 9)
        if k != 'kind':
            return k
        return ctx.any(label, ('none', 'float', 'list0', 'dict0'))
    if name == 'Peer' and key == 'node':
        k = ctx.pick(label + '.what', ['node', 'dict', 'empty', 'bad',
                                       'kind'])
        if k == 'node':
            return Builder(ctx).node(label)
        if k == 'dict':
            return {'node_name': ctx.text(label, 0, 9),
                    'prv_port': ctx.int(label + '.port')}
        if k == 'empty':
            return {}
        if k == 'bad':
            return {'no_such': 1}
        return ctx.any(label, [x for x in KINDS if 'dict' not in x])
    if name == 'ComputeTaskDef' and key in ('task_id', 'subtask_id') and \
            ctx.flag(label + '.text'):
        return ctx.text(label, 0, 300)
    if special and ctx.flag(label + '.special'):
        return ctx.pick(label + '.what', special)
    return ctx.any(label, KINDS)


def valid(ctx, name, key, v):
    """Whether the value obeys the rule of the key."""
    if name == 'ComputeTaskDef' and key in ('task_id', 'subtask_id'):
        return isinstance(v, str) and len(v) <= 128
    if name == 'FileInfo' and key == 'category':
        return isinstance(v, str) and v in ('results', 'resources')
    if name == 'Peer' and key == 'address':
        return isinstance(v, str) and looks(v)
    if name == 'Peer' and key == 'port':
        return isinstance(v, int) and not isinstance(v, bool) and \
            ctx.all(v >= 1, v <= 65534)
    if name == 'Peer' and key == 'node':
        if isinstance(v, dt_p2p.Node):
            return True
        if not isinstance(v, dict) or 'no_such' in v:
            return False
        if 'prv_port' in v:
            return ctx.all(v['prv_port'] >= 1, v['prv_port'] <= 65534)
        return not v or v == {}
    if name == 'Small' and key == 'n':
        return isinstance(v, int) and not isinstance(v, bool) and v >= 3
    return True


def looks(v):
    """An address: no opaque text is one."""
    try:
        ipaddress.ip_address(v)
    except ValueError:
        return False
    return True


def stored(ctx, name, key, v, held):
    """The entry holds the value given."""
    if name == 'Peer' and key == 'node' and isinstance(v, dict):
        if not isinstance(held, dt_p2p.Node):
            return False
        return ctx.all(*[
            ctx.same(getattr(held, k), v.get(
                k, [] if k in ('prv_addresses', 'nat_type') else
                {} if k == 'port_statuses' else None))
            for k in dt_p2p.Node.__slots__])
    return same_value(ctx, held, v)


def base_of(ctx, name):
    """Entries needed to build the dictionary at all."""
    if name == 'Peer':
        return {'address': '10.0.0.1', 'port': 40102, 'node': {}}
    return {}


def keys_of(name):
    return list(DEFAULTS[name]) + ['zz', '']


def check(ctx, name, d, given):
    """Exactly the declared keys, with the given values or defaults."""
    ctx.require(set(d) == set(DEFAULTS[name]), 'exactly the declared keys')
    for k, v in DEFAULTS[name].items():
        if k in given:
            ctx.require(stored(ctx, name, k, given[k], d[k]),
                        'holds what was given')
            ctx.require(valid(ctx, name, k, given[k]), 'passed the rule')
        else:
            ctx.require(ctx.same(d[k], v), 'holds the default')


def build(cls, route, d):
    if route == 'dict':
        return cls(d)
    if route == 'pairs':
        return cls([(k, v) for k, v in d.items()])
    if route == 'iterator':
        return cls((k, v) for k, v in d.items())
    if route == 'own':
        return cls(datastructures.SetItemDict(d))
    return cls(**d)


def refusal(ctx, name, e, given):
    """The exception has its reason in the entries given."""
    strange = [k for k in given if k not in DEFAULTS[name]]
    if strange:
        ctx.require(isinstance(e, (KeyError, exceptions.FieldError)),
                    'refused as unknown')
        ctx.reach('unknown')
        if len(given) == 1:
            ctx.require(isinstance(e, KeyError), 'refused as unknown')
        return
    bad = [ctx.no(valid(ctx, name, k, v)) for k, v in given.items()]
    ctx.require(ctx.either(*bad) if bad else False,
                'refused only when a value breaks a rule')
    ctx.require(isinstance(e, exceptions.MessageError), 'a field error')


@job('C22', reach=('built', 'unknown'), params=PARAMS,
     bounds='one entry of every declared key or an unknown one, with values '
            'of every kind, by mapping, pairs, iterator, keywords and mapping '
            'with keywords')
def construction(ctx, name):
    cls = DICTS[name]
    given = base_of(ctx, name)
    key = ctx.pick('key', keys_of(name))
    if not given or key in given:
        given[key] = value(ctx, name, key, 'v')
    else:
        given[key] = ctx.int('v')
    route = ctx.pick('route', ROUTES + ('both',))
    if route == 'both':
        first = {k: v for k, v in given.items() if k != key}
        d, e = ctx.outcome(cls, first, **{key: given[key]})
    else:
        d, e = ctx.outcome(build, cls, route, given)
    if e is not None:
        refusal(ctx, name, e, given)
        return
    check(ctx, name, d, given)
    ctx.reach('built')


@job('C22', reach=('built',), params=PARAMS,
     bounds='every subset of up to three of the declared keys given')
def subsets(ctx, name):
    if name == 'Peer':
        ctx.reach('built')
        given = {k: v for k, v in base_of(ctx, name).items()
                 if ctx.flag(k)}
        if len(given) < 3:
            _, e = ctx.outcome(build, DICTS[name],
                               ctx.pick('route', ROUTES), given)
            ctx.require(isinstance(e, exceptions.FieldError),
                        'a default that breaks the rule is refused')
        return
    given = {}
    for k in list(DEFAULTS[name])[:4]:
        if ctx.flag('with_' + k):
            given[k] = 'results' if k == 'category' else \
                ctx.text('v_' + k, 0, 9) if name != 'Small' else 3
    d = build(DICTS[name], ctx.pick('route', ROUTES), given)
    check(ctx, name, d, given)
    ctx.reach('built')


@job('C22', reach=('done',), params=PARAMS,
     bounds='two dictionaries made one after the other, every default that '
            'can be changed in place')
def fresh(ctx, name):
    given = base_of(ctx, name)
    cls = DICTS[name]
    a = cls(given)
    for k, v in DEFAULTS[name].items():
        if k in given:
            continue
        if isinstance(v, list):
            a[k].append(ctx.int('x'))
        elif isinstance(v, dict):
            a[k]['new'] = ctx.int('y')
            for w in v:
                a[k][w].append(7)
    check(ctx, name, cls(given), given)
    ctx.reach('done')


@job('C22', reach=('assigned', 'unknown', 'refused'), params=PARAMS,
     bounds='one assignment to every declared or an unknown key, values of '
            'every kind; two in the thorough tier')
def assignment(ctx, name):
    d = DICTS[name](base_of(ctx, name))
    for i in range(2 if ctx.thorough else 1):
        before = dict(d)
        key = ctx.pick('key%d' % i, keys_of(name) + [7, None, b'task_id'])
        if key in DEFAULTS[name]:
            v = value(ctx, name, key, 'v%d' % i)
        else:
            v = ctx.int('v%d' % i)

        def put():
            d[key] = v
        _, e = ctx.outcome(put)
        if e is None:
            ctx.require(key in DEFAULTS[name], 'only declared keys')
            ctx.require(valid(ctx, name, key, v), 'passed the rule')
            ctx.require(stored(ctx, name, key, v, d[key]), 'holds the value')
            before[key] = d[key]
            ctx.reach('assigned')
        elif key not in DEFAULTS[name]:
            ctx.require(isinstance(e, KeyError), 'refused as unknown')
            ctx.reach('unknown')
        else:
            ctx.require(ctx.no(valid(ctx, name, key, v)),
                        'refused only when the value breaks the rule')
            ctx.require(isinstance(e, exceptions.MessageError),
                        'a field error')
            ctx.reach('refused')
        ctx.require(set(d) == set(before), 'no other key')
        for k in before:
            ctx.require(d[k] is before[k], 'other entries are untouched')
    if name in ('BlockIoEntry', 'CpuUsage', 'ThrottlingData', 'MemoryData'):
        ctx.reach('refused')    # no rules


@job('C22', reach=('done',), params=PARAMS,
     bounds='unknown keys that are any text')
def unknown_text(ctx, name):
    d = DICTS[name](base_of(ctx, name))
    before = dict(d)
    key = ctx.text('key', 1, 100)
    ctx.assume(key != 'n')
    for k in DEFAULTS[name]:
        ctx.assume(key != k)

    def put():
        d[key] = 1
    _, e = ctx.outcome(put)
    ctx.require(isinstance(e, KeyError), 'refused as unknown')
    ctx.require(set(d) == set(before), 'no other key')
    pairs = list(base_of(ctx, name).items()) + [(key, 1)]
    _, e = ctx.outcome(DICTS[name], iter(pairs) if ctx.flag('it') else pairs)
    ctx.require(isinstance(e, KeyError), 'refused as unknown')
    ctx.reach('done')


@job('C22', reach=('done',), params=PARAMS,
     bounds='declared keys, ITEMS and other names')
def attributes(ctx, name):
    d = DICTS[name](base_of(ctx, name))
    before = dict(d)
    attr = ctx.pick('attr', list(DEFAULTS[name]) + ['ITEMS', 'zz', '_x'])
    _, e = ctx.outcome(setattr, d, attr, ctx.int('v'))
    ctx.require(isinstance(e, AttributeError), 'refused')
    ctx.require(dict(d) == before, 'unchanged')
    check(ctx, name, d, base_of(ctx, name))
    ctx.reach('done')


@job('C22', reach=('kept', 'refused'),
     bounds='a validating dictionary without declared keys')
def open_dict(ctx):
    class Open(datastructures.ValidatingDict):
        rule = 'not a method'
        validate_s = 5

        def validate_k(self, value):
            if value != 0:
                raise exceptions.FieldError('k', field='k', value=value)

    key = ctx.pick('key', ['k', 's', 'zz'])
    v = ctx.int('v')
    how = ctx.pick('how', ROUTES + ('assign',))
    if how == 'assign':
        d = Open()

        def put():
            d[key] = v
        _, e = ctx.outcome(put)
    else:
        d, e = ctx.outcome(build, Open, how, {key: v})
    if e is None:
        ctx.require(ctx.either(key != 'k', v == 0), 'passed the rule')
        ctx.require(len(d) == 1 and d[key] is v, 'holds the value')
        ctx.reach('kept')
    else:
        ctx.require(ctx.all(key == 'k', v != 0), 'refused for the rule')
        ctx.require(isinstance(e, exceptions.FieldError), 'field error')
        if how == 'assign':
            ctx.require(len(d) == 0, 'unchanged')
        ctx.reach('refused')
