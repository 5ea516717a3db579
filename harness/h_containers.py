"""C23: containers enforce required, known and valid fields."""
from golem_messages import exceptions
from golem_messages.datastructures import masking
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import stats as dt_stats
from golem_messages.datastructures import tasks as dt_tasks

from sx.api import job

from .build import Builder, same_value

MARKET = dt_tasks.TaskHeader.MARKET_TYPE
BLKIO = ['io_merged_recursive', 'io_queue_recursive',
         'io_service_bytes_recursive', 'io_service_time_recursive',
         'io_serviced_recursive', 'io_time_recursive',
         'io_wait_time_recursive', 'sectors_recursive']
MEMORY = ['kernel_tcp_usage', 'kernel_usage', 'swap_usage', 'usage']

# the rule of every field
FIELDS = {
    'Node': {
        'node_name': 'text', 'key': 'varchar', 'prv_port': 'port',
        'pub_port': 'port', 'p2p_prv_port': 'port', 'p2p_pub_port': 'port',
        'prv_addr': 'ip', 'pub_addr': 'ip', 'prv_addresses': 'free',
        'hyperdrive_prv_port': 'int', 'hyperdrive_pub_port': 'int',
        'port_statuses': 'free', 'nat_type': 'free'},
    'TaskHeader': {
        'mask': 'mask', 'timestamp': 'int', 'signature': 'bytes',
        'task_id': 'varchar', 'task_owner': 'owner', 'deadline': 'int',
        'subtask_timeout': 'natural', 'market_type': 'market',
        'environment': 'varchar', 'environment_prerequisites': 'dict',
        'min_version': 'version', 'estimated_memory': 'int',
        'max_price': 'int', 'subtask_budget': 'int',
        'subtasks_count': 'positive', 'concent_enabled': 'bool'},
    'BlockIoStats': {k: 'dict' for k in BLKIO},
    'CpuStats': {'cpu_usage': 'section', 'throttling_data': 'section'},
    'MemoryStats': dict({k: 'dict' for k in MEMORY}, cache='int',
                        stats='dict', use_hierarchy='bool'),
    'PidStats': {'current': 'int', 'limit': 'int'},
    'ProviderStats': {'blkio_stats': 'section', 'cpu_stats': 'section',
                      'memory_stats': 'section', 'pids_stats': 'section'},
}
CLASSES = {
    'Node': dt_p2p.Node,
    'TaskHeader': dt_tasks.TaskHeader,
    'BlockIoStats': dt_stats.BlockIoStats,
    'CpuStats': dt_stats.CpuStats,
    'MemoryStats': dt_stats.MemoryStats,
    'PidStats': dt_stats.PidStats,
    'ProviderStats': dt_stats.ProviderStats,
}
REQUIRED = {'TaskHeader': ['task_id', 'task_owner', 'subtasks_count',
                           'min_version', 'timestamp']}
DEFAULTS = {'Node': {'prv_addresses': [], 'port_statuses': {},
                     'nat_type': []}}
KINDS = ('none', 'bool', 'int', 'float', 'nan', 'str', 'str0', 'bytes',
         'list0', 'list', 'dict0', 'dict', 'tag', 'datetime')
PARAMS = {n: {'name': n} for n in CLASSES}
VERSIONS = {'1.5.0': True, '0.0.1-rc1': True, '1.5': False, '': False,
            '1.5.0.0': False, '01.5.0': False}


def base_of(ctx, name):
    """Valid values of the required fields."""
    if name != 'TaskHeader':
        return {}
    return {'task_id': ctx.text('r.task_id', 0, 128),
            'task_owner': {'node_name': ctx.text('r.owner', 0, 9)},
            'subtasks_count': ctx.int('r.subtasks_count', 1),
            'min_version': '1.5.0',
            'timestamp': ctx.int('r.timestamp')}


def value(ctx, rule, name):
    """(value, condition for it to be admissible); the condition for None
    is that of a required field."""
    if ctx.flag(name + '.typical'):
        if rule in ('text', 'varchar'):
            v = ctx.text(name, 0, 300)
            return v, rule == 'text' or len(v) <= 128
        if rule == 'port':
            v = ctx.int(name)
            return v, ctx.all(v >= 1, v <= 65534)
        if rule == 'ip':
            return ctx.ip(name), True
        if rule == 'int':
            return ctx.int(name), True
        if rule == 'natural':
            v = ctx.int(name)
            return v, v >= 0
        if rule == 'positive':
            v = ctx.int(name)
            return v, v >= 1
        if rule in ('mask', 'bytes'):
            return ctx.bytes(name, 32), True
        if rule == 'version':
            v = ctx.pick(name, list(VERSIONS))
            return v, VERSIONS[v]
        if rule == 'market':
            v = ctx.pick(name, ['Brass', 'Usage', MARKET.Brass,
                                MARKET.Usage, 'brass', 'MARKET_TYPE.Brass'])
            return v, v in ('Brass', 'Usage')
        if rule == 'owner':
            k = ctx.pick(name, ['node', 'dict', 'unknown', 'bad'])
            if k == 'node':
                return Builder(ctx).node(name), True
            if k == 'dict':
                return {'key': ctx.text(name + '.key', 0, 128)}, True
            if k == 'unknown':
                return {'no_such': 1}, False
            return {'prv_port': 0}, False
        return {'k': ctx.int(name)}, rule in ('dict', 'free')
    kinds = KINDS
    if rule == 'ip':        # numbers are addresses too for the codec library
        kinds = [k for k in KINDS if k not in ('bool', 'int', 'bytes')]
    if rule == 'market':    # hashed by the enumeration
        kinds = [k for k in KINDS if k not in ('list', 'dict')]
    v = ctx.any(name, kinds)
    k = ctx.last_kind if ctx.last_kind in KINDS else None
    i = isinstance(v, int) and not isinstance(v, bool)
    if rule == 'free':
        return v, True
    if rule == 'text':
        return v, isinstance(v, str)
    if rule == 'varchar':
        return v, isinstance(v, str)
    if rule == 'int':
        return v, i
    if rule == 'port':
        return v, i and ctx.all(v >= 1, v <= 65534)
    if rule == 'natural':
        return v, i and v >= 0
    if rule == 'positive':
        return v, i and v >= 1
    if rule == 'bool':
        return v, isinstance(v, bool)
    if rule in ('mask', 'bytes'):
        return v, isinstance(v, bytes)
    if rule == 'dict':
        return v, isinstance(v, dict)
    if rule == 'owner':
        return v, isinstance(v, dict) and len(v) == 0
    if rule == 'section':
        return v, isinstance(v, dict) and len(v) == 0
    if rule == 'version' or rule == 'ip' or rule == 'market':
        return v, False
    raise AssertionError(rule, k)


def held(ctx, rule, v, got):
    """The field holds what was given, in its proper form."""
    if v is None:
        return got is None
    if rule == 'mask':
        return isinstance(got, masking.Mask) and ctx.same(got.to_bytes(), v)
    if rule == 'market':
        return isinstance(got, MARKET) and got.value == v
    if rule == 'owner':
        if not isinstance(got, dt_p2p.Node):
            return False
        if isinstance(v, dt_p2p.Node):
            return same_value(ctx, got, v)
        return ctx.all(*[
            ctx.same(getattr(got, k), v.get(
                k, DEFAULTS['Node'].get(k))) for k in FIELDS['Node']])
    if rule == 'section':
        return got is None      # empty
    return same_value(ctx, got, v)


def check(ctx, name, c, given):
    for k, rule in FIELDS[name].items():
        if k in given:
            ctx.require(held(ctx, rule, given[k], getattr(c, k)),
                        'holds what was given')
        else:
            ctx.require(ctx.same(getattr(c, k),
                                 DEFAULTS.get(name, {}).get(k)),
                        'default or None')


@job('C23', reach=('done',), params=PARAMS,
     bounds='the declared fields of the seven containers')
def fields(ctx, name):
    ctx.require(list(CLASSES[name].__slots__) == list(FIELDS[name]),
                'the declared fields, in order')
    ctx.reach('done')


@job('C23', reach=('built', 'refused'), params=PARAMS,
     bounds='every field with a value of every kind, the other ones unset')
def one_field(ctx, name):
    given = base_of(ctx, name)
    key = ctx.pick('key', list(FIELDS[name]))
    rule = FIELDS[name][key]
    v, good = value(ctx, rule, 'v')
    required = key in REQUIRED.get(name, ())
    if v is None and not required:
        good = True
    given[key] = v
    c, e = ctx.outcome(CLASSES[name], **given)
    if e is None:
        ctx.require(good, 'built only when the rules pass')
        check(ctx, name, c, given)
        ctx.reach('built')
        return
    ctx.require(ctx.no(good), 'refused only when a rule fails')
    ctx.require(isinstance(e, exceptions.MessageError), 'a message error')
    if rule not in ('section', 'owner'):
        ctx.require(isinstance(e, exceptions.FieldError) and e.field == key,
                    'names the field')
    ctx.reach('refused')


@job('C23', reach=('built', 'refused'), params=PARAMS,
     bounds='pairs of neighbouring fields, with a value of every kind each')
def two_fields(ctx, name):
    names = list(FIELDS[name])
    i = ctx.choice('first', len(names) - 1)
    given = base_of(ctx, name)
    good = True
    for k in names[i:i + 2]:
        v, ok = value(ctx, FIELDS[name][k], k)
        if v is None and k not in REQUIRED.get(name, ()):
            ok = True
        given[k] = v
        good = ctx.all(good, ok)
    c, e = ctx.outcome(CLASSES[name], **given)
    if e is None:
        ctx.require(good, 'built only when the rules pass')
        check(ctx, name, c, given)
        ctx.reach('built')
        return
    ctx.require(ctx.no(good), 'refused only when a rule fails')
    ctx.require(isinstance(e, exceptions.MessageError), 'a message error')
    if isinstance(e, exceptions.FieldError) and e.field in given and \
            FIELDS[name][e.field] not in ('section', 'owner'):
        ctx.require(e.value is given[e.field], 'carries the value')
    ctx.reach('refused')


@job('C23', reach=('built', 'refused'), params={'TaskHeader': {
    'name': 'TaskHeader'}}, bounds='every subset of the required fields')
def required(ctx, name):
    given = base_of(ctx, name)
    missing = [k for k in REQUIRED[name] if ctx.flag('no_' + k)]
    for k in missing:
        del given[k]
    if ctx.flag('more'):
        given['deadline'] = ctx.int('deadline')
    c, e = ctx.outcome(CLASSES[name], **given)
    if missing:
        ctx.require(isinstance(e, exceptions.FieldError), 'refused')
        ctx.require(e.field in missing, 'names a missing field')
        ctx.reach('refused')
    else:
        ctx.require(e is None, 'built')
        check(ctx, name, c, given)
        ctx.reach('built')


@job('C23', reach=('done',), params=PARAMS,
     bounds='unknown fields from samples, with a value of any kind')
def unknown(ctx, name):
    given = base_of(ctx, name)
    key = ctx.pick('key', ['zz', 'Mask', 'header', 'sig', 'type_',
                           '__slots__', 'REQUIRED', 'to_dict', ''])
    given[key] = ctx.any('v', KINDS)
    c, e = ctx.outcome(CLASSES[name], **given)
    ctx.require(isinstance(e, exceptions.FieldError), 'refused')
    ctx.require(e.field == key, 'names the field')
    ctx.reach('done')


@job('C23', reach=('done',), params=PARAMS,
     bounds='two containers made one after the other')
def fresh(ctx, name):
    given = base_of(ctx, name)
    a = CLASSES[name](**given)
    check(ctx, name, a, given)
    for k in DEFAULTS.get(name, ()):
        v = getattr(a, k)
        if isinstance(v, list):
            v.append(ctx.int('x'))
        else:
            v['new'] = ctx.int('y')
    check(ctx, name, CLASSES[name](**given), given)
    ctx.reach('done')


def full(ctx, name, twice=False):
    """A container with all fields set."""
    b = Builder(ctx, lean=False)
    if name == 'Node':
        return b.node('n')
    if name == 'TaskHeader':
        return b.header('h')
    if name == 'ProviderStats':
        return dt_stats.ProviderStats(
            blkio_stats=full(ctx, 'BlockIoStats').to_dict(),
            cpu_stats=full(ctx, 'CpuStats').to_dict(),
            memory_stats=full(ctx, 'MemoryStats').to_dict(),
            pids_stats=full(ctx, 'PidStats').to_dict())
    d = {}
    for k, rule in FIELDS[name].items():
        if k == 'cpu_usage':
            d[k] = {'total_usage': ctx.int('total')}
        elif k == 'throttling_data':
            d[k] = {'periods': ctx.int('periods')}
        elif rule == 'int':
            d[k] = ctx.int(k)
        elif rule == 'bool':
            d[k] = ctx.bool(k)
        else:
            d[k] = {'x': ctx.int(k)}
    return CLASSES[name](**d)


@job('C23', reach=('done',), params=PARAMS,
     bounds='all fields set, or all optional ones but one unset')
def rebuilt(ctx, name):
    c = full(ctx, name)
    names = list(FIELDS[name])
    keep = ctx.pick('keep', ['all'] + names)
    if keep != 'all':
        d = {k: getattr(c, k) for k in REQUIRED.get(name, ()) or [keep]}
        v = getattr(c, keep)
        if isinstance(v, masking.Mask):
            v = v.to_bytes()
        if FIELDS[name][keep] == 'section':
            v = c.to_dict()[keep]
        d[keep] = v
        c = CLASSES[name](**d)
    d = c.to_dict()
    ctx.require(isinstance(d, dict), 'a dictionary')
    ctx.require(list(d) == names, 'one entry per field, in order')
    for k, v in d.items():
        ctx.require(v is None or isinstance(v, (
            bool, int, str, bytes, list, dict)), 'plain values')
    ctx.require(same_value(ctx, CLASSES[name](**d), c),
                'rebuilds an equal container')
    ctx.reach('done')
