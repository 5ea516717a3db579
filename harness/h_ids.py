"""C19: generated identifiers carry their owner."""
import uuid

from golem_messages import idgenerator, utils

from sx.api import job


def seed_of(ctx, name, n):
    """A key: n bytes, of which the first six are symbolic integers."""
    if n == 'rest':
        return ctx.bytes(name, 6) + ctx.blob(name + '.rest', 0, 100)
    head = ctx.bytes(name, min(n, 6))
    return head + ctx.blob(name + '.rest', n - 6, n - 6) if n > 6 else head


def owner(ctx, seed):
    return int.from_bytes(seed[:6], 'big')


def version1(ctx, id_, node):
    """The text of a version-1 identifier with that node part."""
    ctx.require(isinstance(id_, str), 'a text')
    ctx.require(len(id_) == 36, 'of canonical length')
    u = uuid.UUID(id_)
    ctx.require(u.version == 1, 'version 1')
    ctx.require(ctx.same(str(u), id_), 'canonical form')
    ctx.require(u.node == node, 'node part is the start of the key')


LENGTHS = {'n%s' % n: {'n': n} for n in (1, 5, 6, 7, 64, 'rest')}


@job('C19', reach=('done',), params=LENGTHS,
     bounds='every key of 1, 5, 6, 7, 64 and 6..106 bytes')
def fresh(ctx, n):
    seed = seed_of(ctx, 'seed', n)
    node = owner(ctx, seed)
    ctx.require(idgenerator.seed_to_node(seed) == node, 'node of the key')
    h = utils.encode_hex(seed)
    ctx.require(idgenerator.hex_seed_to_node(h) == node,
                'node of the key in hexadecimal')
    a = idgenerator.generate_id(seed)
    version1(ctx, a, node)
    b = idgenerator.generate_id_from_hex(h)
    version1(ctx, b, node)
    c = idgenerator.generate_new_id_from_id(a)
    version1(ctx, c, node)
    ctx.require(a != b and b != c and a != c, 'a new one each time')
    for x in (a, b, c):
        ctx.require(idgenerator.check_id_seed(x, seed) is True,
                    'passes the owner check')
        ctx.require(idgenerator.check_id_hex_seed(x, h) is True,
                    'passes the owner check in hexadecimal')
    ctx.reach('done')


@job('C19', reach=('mine', 'other'), params=LENGTHS,
     bounds='every pair of keys of 1, 5, 6, 7, 64 and 6..106 bytes, every '
            'identifier')
def owners(ctx, n):
    mine = seed_of(ctx, 'mine', n)
    other = seed_of(ctx, 'other', n)
    how = ctx.pick('how', ['generated', 'derived', 'given'])
    if how == 'generated':
        id_ = idgenerator.generate_id(mine)
        node = owner(ctx, mine)
    else:
        id_ = ctx.uuid_text('id')
        node = uuid.UUID(id_).node
        if how == 'derived':
            id_ = idgenerator.generate_new_id_from_id(id_)
    good = owner(ctx, other) == node
    r = idgenerator.check_id_seed(id_, other)
    ctx.require(isinstance(r, bool), 'answers true or false')
    ctx.require(ctx.iff(r, good), 'exactly the keys with that start')
    r = idgenerator.check_id_hex_seed(id_, utils.encode_hex(other))
    ctx.require(isinstance(r, bool), 'answers true or false')
    ctx.require(ctx.iff(r, good), 'exactly the keys with that start, in hex')
    ctx.reach('mine' if ctx.is_true(good) else 'other')


@job('C19', reach=('done',),
     bounds='every identifier and key in the variant spellings: upper case, '
            'no hyphens, braces, URN')
def spellings(ctx):
    seed = ctx.bytes('seed', 6) + ctx.blob('rest', 58, 58)
    hi = ctx.bytes('hi', 10)
    node = ctx.bytes('node', 6)
    plain = utils.encode_hex(hi + node)
    how = ctx.pick('how', ['bare', 'hyphens', 'braces', 'urn'])
    if how == 'bare':
        id_ = plain
    else:
        id_ = '-'.join([plain[:8], plain[8:12], plain[12:16], plain[16:20],
                        plain[20:]])
        if how == 'braces':
            id_ = '{' + id_ + '}'
        elif how == 'urn':
            id_ = 'urn:uuid:' + id_
    ctx.require(ctx.iff(idgenerator.check_id_seed(id_, seed),
                        ctx.same(seed[:6], node)),
                'exactly the keys with that start')
    ctx.reach('done')


BAD = ['', 'g', '-', '{}', '0' * 31, '0' * 33, '0' * 31 + 'g',
       '00000000-0000-0000-0000-00000000000',
       '00000000-0000-0000-0000-0000000000000',
       ' ' * 32, '\u0107' * 32]


@job('C19', reach=('done',),
     bounds='opaque text of 0..100 letters; malformed samples')
def no_identifier(ctx):
    seed = ctx.bytes('seed', 6) + ctx.blob('rest', 58, 58)
    if ctx.flag('opaque'):
        id_ = ctx.text('id', 0, 100)
    else:
        id_ = ctx.pick('id', BAD)
    ctx.require(idgenerator.check_id_seed(id_, seed) is False,
                'answers false')
    ctx.require(idgenerator.check_id_hex_seed(
        id_, utils.encode_hex(seed)) is False, 'answers false')
    ctx.reach('done')
