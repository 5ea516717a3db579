"""C32: node descriptions and peer entries."""
from golem_messages import exceptions
from golem_messages.datastructures import p2p as dt

from sx.api import job

from .build import Builder, same_value
from .h_hostile import frame, receive
from .h_containers import FIELDS

NODE = FIELDS['Node']
PAIRS = {'pub_addr': 'prv_addr', 'pub_port': 'prv_port',
         'p2p_pub_port': 'p2p_prv_port',
         'hyperdrive_pub_port': 'hyperdrive_prv_port'}
KINDS = ('none', 'bool', 'int', 'float', 'str', 'str0', 'bytes', 'list0',
         'list', 'dict0', 'dict', 'tag')


def field(ctx, name, k):
    rule = NODE[k]
    if rule in ('text', 'varchar'):
        return ctx.text(name, 0, 40)
    if rule == 'port':
        return ctx.int(name, 1, 65534)
    if rule == 'ip':
        return ctx.ip(name)
    if rule == 'int':
        return ctx.int(name)
    if k == 'port_statuses':
        return {'k': ctx.text(name, 0, 9)}
    return [ctx.text(name, 0, 9)]


def snapshot(n):
    return {k: getattr(n, k) for k in NODE}


@job('C32', reach=('done',),
     bounds='every presence pattern of the eight addresses and ports, any '
            'values, the other fields set or unset')
def public_info(ctx):
    d = {}
    for k in list(PAIRS) + list(PAIRS.values()):
        if ctx.flag(k):
            d[k] = field(ctx, k, k)
    if ctx.flag('more'):
        for k in NODE:
            if k not in PAIRS and k not in PAIRS.values():
                d[k] = field(ctx, k, k)
    n = dt.Node(**d)
    before = snapshot(n)
    ctx.require(n.update_public_info() is None, 'nothing returned')
    for k in NODE:
        want = before[k]
        if k in PAIRS and want is None:
            want = before[PAIRS[k]]
        ctx.require(ctx.same(getattr(n, k), want),
                    'filled in exactly where unset')
    again = snapshot(n)
    n.update_public_info()
    ctx.require(ctx.all(*[ctx.same(getattr(n, k), again[k]) for k in NODE]),
                'nothing more the second time')
    ctx.reach('done')


@job('C32', reach=('super', 'plain'),
     bounds='every pair of addresses, set or unset, IPv4 or some IPv6')
def super_node(ctx):
    d = {}
    for k in ('prv_addr', 'pub_addr'):
        how = ctx.pick(k + '.how', ['unset', 'none', 'any', 'v6'])
        if how == 'none':
            d[k] = None
        elif how == 'any':
            d[k] = ctx.ip(k)
        elif how == 'v6':
            d[k] = ctx.pick(k, ['::1', 'fe80::1'])
    if ctx.flag('more'):
        for k in ('prv_port', 'pub_port', 'key', 'node_name'):
            d[k] = field(ctx, k, k)
    n = dt.Node(**d)
    a, b = d.get('prv_addr'), d.get('pub_addr')
    want = False if a is None or b is None else a == b
    got = n.is_super_node()
    ctx.require(isinstance(got, bool), 'a boolean')
    ctx.require(ctx.iff(got, want), 'both set and equal')
    ctx.reach('super' if ctx.is_true(want) else 'plain')


@job('C32', reach=('equal', 'different'),
     bounds='nodes with any values of all fields; any one field different, '
            'unset or both')
def equality(ctx):
    d = {k: field(ctx, k, k) for k in NODE}
    key = ctx.pick('key', list(NODE))
    other = dict(d)
    how = ctx.pick('how', ['other', 'unset', 'none', 'both'])
    if how == 'other':
        other[key] = field(ctx, 'other', key)
    elif how == 'unset':
        del other[key]
    elif how == 'none':
        other[key] = None
    else:
        del other[key]
        del d[key]
    a, b = dt.Node(**d), dt.Node(**other)
    want = ctx.all(*[ctx.same(getattr(a, k), getattr(b, k)) for k in NODE])
    for x, y in ((a, b), (b, a)):
        ctx.require(ctx.iff(x == y, want), 'equal with equal fields')
        ctx.require(ctx.iff(x != y, ctx.no(want)), 'different otherwise')
    ctx.reach('equal' if ctx.is_true(want) else 'different')


@job('C32', reach=('equal', 'different'),
     bounds='two nodes, each field set or unset one by one after building, '
            'any two fields different')
def two_fields(ctx):
    names = list(NODE)
    i = ctx.choice('i', len(names) - 1)
    j = ctx.pick('j', [len(names) - 1, (i + 1) % len(names)])
    a, b = dt.Node(), dt.Node()
    for k in {names[i], names[j]}:
        setattr(a, k, field(ctx, 'a.' + k, k))
        setattr(b, k, field(ctx, 'b.' + k, k))
    want = ctx.all(*[ctx.same(getattr(a, k), getattr(b, k)) for k in NODE])
    ctx.require(ctx.iff(a == b, want), 'equal with equal fields')
    ctx.reach('equal' if ctx.is_true(want) else 'different')


@job('C32', reach=('done',), bounds='comparison with other things')
def mismatched(ctx):
    n = dt.Node(key=ctx.text('key', 0, 9))
    other = ctx.pick('other', [None, 0, 'x', {}, [], object(),
                               n.to_dict()])
    _, e = ctx.outcome(lambda: n == other)
    ctx.require(isinstance(e, TypeError), 'a type error')
    ctx.reach('done')


def address(ctx, name):
    """(value, whether it is an address)."""
    k = ctx.pick(name + '.how', ['ip', 'sample', 'any'])
    if k == 'ip':
        return ctx.ip(name), True
    if k == 'sample':
        v = ctx.pick(name, ['::1', 'fe80::1', '', '1.2.3', '1.2.3.256',
                            '1.2.3.4 ', 'localhost', '1.2.3.4/24'])
        return v, v in ('::1', 'fe80::1')
    return ctx.any(name, [k for k in KINDS if k not in (
        'bool', 'int', 'bytes', 'str')]), False


def port(ctx, name):
    v = ctx.int(name) if ctx.flag(name + '.int') else ctx.any(name, KINDS)
    ok = isinstance(v, int) and not isinstance(v, bool) and \
        ctx.all(v >= 1, v <= 65534)
    return v, ok


def node(ctx, name):
    k = ctx.pick(name + '.how', ['node', 'dict', 'empty', 'unknown',
                                 'invalid', 'any'])
    if k == 'node':
        return Builder(ctx).node(name), True
    if k == 'dict':
        return {'key': ctx.text(name + '.key', 0, 9), 'prv_port': ctx.int(
            name + '.port', 1, 65534)}, True
    if k == 'empty':
        return {}, True
    if k == 'unknown':
        return {'zz': 1}, False
    if k == 'invalid':
        return {'pub_addr': 'x'}, False
    return ctx.any(name, [k for k in KINDS if k not in (
        'dict0', 'dict')]), False


PARTS = {'address': address, 'port': port, 'node': node}


def holds(ctx, p, given):
    ctx.require(sorted(p) == sorted(PARTS), 'the declared keys')
    for k in ('address', 'port'):
        ctx.require(ctx.same(p[k], given[k]), 'as given')
    ctx.require(isinstance(p['node'], dt.Node), 'a node')
    want = given['node']
    if not isinstance(want, dt.Node):
        want = dt.Node(**want)
    ctx.require(same_value(ctx, p['node'], want), 'the node given')


@job('C32', reach=('held', 'refused'),
     params={k: {'part': k} for k in PARTS},
     bounds='any value of any kind for each part; made from a dictionary, '
            'from keywords, by assignment, or received')
def peer(ctx, part):
    good_node = {'key': ctx.text('key', 0, 9)}
    given = {'address': ctx.ip('address'), 'port': ctx.int('port', 1, 65534),
             'node': good_node}
    route = ctx.pick('route', ['dict', 'keywords', 'assign', 'received'])
    ctx.hash_ok = True
    v, ok = PARTS[part](ctx, 'v')
    old = dict(given)
    given[part] = v
    p = None
    if route == 'received':
        if isinstance(v, dt.Node):
            given[part] = v.to_dict()
        m, e = ctx.outcome(receive, frame(Builder(ctx).message(
            'm', 'Peers', peers=[]).__class__, [['peers', [dict(given)]]]))
        p = None if e is not None else m.peers[0]
    elif route == 'dict':
        p, e = ctx.outcome(dt.Peer, given)
    elif route == 'keywords':
        p, e = ctx.outcome(dt.Peer, **given)
    else:
        p = dt.Peer(old)
        _, e = ctx.outcome(p.__setitem__, part, v)
    if e is not None:
        ctx.require(ctx.no(ok), 'refused when wrong')
        ctx.require(isinstance(e, exceptions.MessageError), 'message error')
        if route != 'received' and not isinstance(v, dict):
            ctx.require(e.field == part, 'names the part')
        if route == 'assign':
            holds(ctx, p, old)
        return ctx.reach('refused')
    ctx.require(ok, 'held when right')
    holds(ctx, p, given)
    s = p.serialize()
    ctx.require(type(s) is dict, 'a plain dictionary')
    ctx.require(type(s['node']) is dict, 'with a plain node')
    ctx.require(isinstance(p['node'], dt.Node), 'still a node')
    q = dt.Peer(s)
    ctx.require(same_value(ctx, p, q), 'rebuilds an equal peer')
    return ctx.reach('held')


@job('C32', reach=('refused',),
     bounds='peers with one or more parts left out, or unknown keys')
def incomplete(ctx):
    given = {'address': ctx.ip('address'), 'port': ctx.int('port', 1, 65534),
             'node': {'key': ctx.text('key', 0, 9)}}
    if ctx.flag('unknown'):
        given[ctx.pick('key', ['zz', 'nodes', 'Port'])] = ctx.any('v', KINDS)
        ctx.hash_ok = True
        _, e = ctx.outcome(dt.Peer, given)
        ctx.require(isinstance(e, (KeyError, exceptions.MessageError)),
                    'refused')
        m, e = ctx.outcome(receive, frame(Builder(ctx).message(
            'm', 'Peers', peers=[]).__class__, [['peers', [given]]]))
        ctx.require(isinstance(e, exceptions.MessageError), 'message error')
        return ctx.reach('refused')
    out = [k for k in PARTS if ctx.flag('no_' + k)]
    for k in out:
        del given[k]
    p, e = ctx.outcome(dt.Peer, given)
    if not out:
        ctx.require(e is None, 'held')
        holds(ctx, p, given)
        return None
    ctx.require(isinstance(e, exceptions.FieldError), 'a field error')
    ctx.require(e.field in out, 'names a missing part')
    return ctx.reach('refused')
