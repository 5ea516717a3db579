"""C31: resource usage statistics."""
from golem_messages import exceptions
from golem_messages.datastructures import stats as dt

from sx.api import SENT, job

from .build import Builder, CLASSES, same_value
from .h_containers import BLKIO, MEMORY
from .h_hostile import frame, receive

SECTIONS = {'blkio_stats': dt.BlockIoStats, 'cpu_stats': dt.CpuStats,
            'memory_stats': dt.MemoryStats, 'pids_stats': dt.PidStats}
FIELDS = {'blkio_stats': {k: 'dict' for k in BLKIO},
          'cpu_stats': {'cpu_usage': 'usage', 'throttling_data': 'data'},
          'memory_stats': dict({k: 'dict' for k in MEMORY}, cache='int',
                               stats='dict', use_hierarchy='bool'),
          'pids_stats': {'current': 'int', 'limit': 'int'}}
DETAIL = {'usage': {'percpu_usage': [], 'total_usage': 0,
                    'usage_in_kernelmode': 0, 'usage_in_usermode': 0},
          'data': {'periods': 0, 'throttled_periods': 0,
                   'throttled_time': 0}}
TYPES = {'usage': dt.CpuUsage, 'data': dt.ThrottlingData}
PARAMS = {k: {'section': k} for k in SECTIONS}
PLAIN = [k for k in SENT if k not in ('tag1', 'tag35', 'nan')]


def entry(ctx, rule, name):
    """An admissible value of a field; None is unset."""
    if rule == 'int':
        return ctx.int(name)
    if rule == 'bool':
        return ctx.bool(name)
    if rule == 'dict':
        how = ctx.pick(name + '.how', ['empty', 'one', 'two'])
        return {} if how == 'empty' else {'major': ctx.int(name + '.0')} \
            if how == 'one' else {
                'op': ctx.text(name + '.1', 0, 5), 'x': ctx.any(
                    name + '.2', ('none', 'list', 'dict0', 'bytes'))}
    d = {}
    keys = list(DETAIL[rule])
    which = ctx.pick(name + '.which', ['none', 'all'] + keys)
    for k in keys:
        if which in ('all', k):
            d[k] = [ctx.int(name + '.' + k)] if k == 'percpu_usage' else \
                ctx.int(name + '.' + k)
    return d


def section_of(ctx, section, name, which=None):
    """A dictionary for a section."""
    rules = FIELDS[section]
    keys = list(rules)
    which = which or ctx.pick(name + '.which', [
        'none', 'all', 'unset'] + keys)
    d = {}
    for k in keys:
        if which == 'all':
            d[k] = entry(ctx, rules[k], name + '.' + k) if k == keys[-1] \
                else {'int': 1, 'bool': True, 'dict': {'k': 2}, 'usage': {
                    'total_usage': 4}, 'data': {'periods': 5}}[rules[k]]
        elif which == 'unset':
            d[k] = None
        elif which == k:
            d[k] = entry(ctx, rules[k], name + '.' + k)
    return d


def form(section, d):
    """The dictionary form of a section."""
    if not d:
        return None
    out = {}
    for k, rule in FIELDS[section].items():
        v = d.get(k)
        if rule in DETAIL:
            v = dict(DETAIL[rule], **v) if v else None
        out[k] = v
    return out


def full_form(given):
    return {k: form(k, given.get(k)) for k in SECTIONS}


def plain_same(ctx, a, b):
    """Equal values, dictionaries of any class."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return ctx.all(*[plain_same(ctx, a[k], b[k]) for k in a])
    return ctx.same(a, b)


def check(ctx, s, given):
    ctx.require(isinstance(s, dt.ProviderStats), 'typed statistics')
    want = full_form(given)
    for k, cls in SECTIONS.items():
        v = getattr(s, k)
        if want[k] is None:
            ctx.require(v is None, 'no section')
            continue
        ctx.require(isinstance(v, cls), 'a typed section')
        for f, rule in FIELDS[k].items():
            if rule in TYPES and want[k][f] is not None:
                ctx.require(isinstance(getattr(v, f), TYPES[rule]),
                            'typed details')
    got = s.to_dict()
    ctx.require(list(got) == list(SECTIONS), 'all sections in order')
    ctx.require(plain_same(ctx, got, want), 'what was given, with defaults')
    return got


def others(ctx, section):
    if not ctx.flag('others'):
        return {}
    d = {'cpu_stats': {'cpu_usage': {'total_usage': ctx.int('o.total')}},
         'memory_stats': {'cache': ctx.int('o.cache'), 'usage': {
             'limit': ctx.int('o.limit')}},
         'pids_stats': {'current': ctx.int('o.current')}}
    return {k: v for k, v in d.items() if k != section}


@job('C31', reach=('done',), params=PARAMS,
     bounds='each section empty, unset, full or with any one entry, with any '
            'numbers; other sections unset or with one entry')
def built(ctx, section):
    given = others(ctx, section)
    given[section] = section_of(ctx, section, 's')
    s = dt.ProviderStats(**given)
    got = check(ctx, s, given)
    again = dt.ProviderStats(**got)
    ctx.require(same_value(ctx, again, s), 'rebuilt from its own form')
    alone = SECTIONS[section](**given[section])
    ctx.require(plain_same(ctx, alone.to_dict(), form(
        section, given[section]) or {k: None for k in FIELDS[section]}),
        'the section alone')
    ctx.reach('done')


@job('C31', reach=('done',), params=PARAMS,
     bounds='the same statistics carried by a report, as dictionaries or '
            'typed')
def carried(ctx, section):
    given = others(ctx, section)
    given[section] = section_of(ctx, section, 's')
    b = Builder(ctx)
    typed = ctx.flag('typed')
    m = b.valid('m', 'ReportComputedTask',
                stats=dt.ProviderStats(**given) if typed else given)
    r = receive(m.serialize())
    check(ctx, r.stats, given)
    if typed:
        ctx.require(r == m, 'an equal report')
        ctx.require(same_value(ctx, r.stats, m.stats), 'equal statistics')
    r.sig = None
    again = receive(r.serialize())
    ctx.require(same_value(ctx, again.stats, r.stats), 'the same again')
    ctx.reach('done')


@job('C31', reach=('done',), bounds='defaults of two statistics in a row')
def fresh(ctx):
    a = dt.ProviderStats(cpu_stats={'cpu_usage': {
        'total_usage': ctx.int('n')}})
    a.cpu_stats.cpu_usage['percpu_usage'].append(ctx.int('x'))
    given = {'cpu_stats': {'cpu_usage': {'total_usage': ctx.int('m')}}}
    check(ctx, dt.ProviderStats(**given), given)
    check(ctx, dt.ProviderStats(), {})
    ctx.reach('done')


def refused(ctx, given, whole=False):
    if ctx.flag('direct') and not whole:
        _, e = ctx.outcome(dt.ProviderStats, **given)
    else:
        b = Builder(ctx)
        tree = [[k, given] if k == 'stats' else [k, v] for k, v in
                b.valid('m', 'ReportComputedTask').slots()]
        _, e = ctx.outcome(
            receive, frame(CLASSES['ReportComputedTask'], tree))
    ctx.require(isinstance(e, exceptions.MessageError), 'a message error')
    ctx.reach('done')


@job('C31', reach=('done',), bounds='any other kind of value as statistics')
def wrong_whole(ctx):
    ctx.hash_ok = True
    refused(ctx, ctx.any('v', [k for k in PLAIN if k not in (
        'none', 'dict0')]), True)


@job('C31', reach=('done',), params=PARAMS,
     bounds='any other kind of value as a section; unknown keys')
def wrong_section(ctx, section):
    ctx.hash_ok = True
    given = others(ctx, section)
    if ctx.flag('unknown'):
        key = ctx.pick('key', ['zz', 'Cpu_stats', '', 'to_dict', 'cpu_usage'])
        given[key] = ctx.any('v', PLAIN)
    else:
        given[section] = ctx.any('v', [k for k in PLAIN if k not in (
            'none', 'dict0', 'dict')])
    refused(ctx, given)


@job('C31', reach=('done',), params=PARAMS,
     bounds='any other kind of value as any one field; unknown keys')
def wrong_field(ctx, section):
    ctx.hash_ok = True
    rules = FIELDS[section]
    if ctx.flag('unknown'):
        d = {} if ctx.flag('only') else {
            list(rules)[0]: {} if rules[list(rules)[0]] != 'int' else 5}
        d[ctx.pick('key', ['zz', 'Current', '', 'to_dict', 'periods'])] = \
            ctx.any('v', PLAIN)
    else:
        key = ctx.pick('field', list(rules))
        out = {'int': ('int',), 'bool': ('bool',)}.get(
            rules[key], ('dict0', 'dict'))
        d = {key: ctx.any('v', [
            k for k in PLAIN if k not in out + ('none',)])}
    refused(ctx, {section: d})


@job('C31', reach=('done',), bounds='unknown keys in the details')
def wrong_detail(ctx):
    ctx.hash_ok = True
    field = ctx.pick('field', list(FIELDS['cpu_stats']))
    keys = list(DETAIL[FIELDS['cpu_stats'][field]])
    d = {ctx.pick('key', ['zz', keys[0].upper(), '', 'items', 7, None]):
         ctx.any('v', PLAIN)}
    if ctx.flag('more'):
        d[keys[0]] = ctx.int('n')
    refused(ctx, {'cpu_stats': {field: d}})
