"""C33: hexadecimal and UUID conversions are inverse."""
import uuid

from golem_messages import utils

from sx.api import job


@job('C33', reach=('done',), bounds='every byte string of 0..40 bytes',
     params={'n%d' % n: {'n': n} for n in (0, 1, 2, 3, 32, 40)})
def hex_bytes(ctx, n):
    b = ctx.bytes('b', n)
    h = utils.encode_hex(b)
    ctx.require(isinstance(h, str), 'text')
    ctx.require(len(h) == 2 * len(b), 'two digits per byte')
    ctx.require(ctx.same(utils.decode_hex(h), b), 'decoding gives it back')
    ctx.require(ctx.same(h, b.hex()), 'standard digits')
    ctx.reach('done')


@job('C33', reach=('done',),
     bounds='opaque byte strings of 0..1000 bytes, and a literal prefix 0x')
def hex_blob(ctx):
    b = ctx.blob('b', 0, 1000)
    if ctx.flag('prefix'):
        b = b'0x' + b
    h = utils.encode_hex(b)
    ctx.require(ctx.same(utils.decode_hex(h), b), 'decoding gives it back')
    ctx.reach('done')


@job('C33', reach=('done',), bounds='bytearrays of some contents')
def hex_bytearray(ctx):
    b = ctx.pick('b', [b'', b'\0', b'0x', b'0x12', bytes(range(256))])
    h = utils.encode_hex(bytearray(b))
    ctx.require(ctx.same(utils.decode_hex(h), b), 'decoding gives it back')
    ctx.reach('done')


@job('C33', reach=('done',), bounds='opaque text of 0..1000 letters, some '
     'texts')
def hex_text(ctx):
    if ctx.flag('opaque'):
        s = ctx.text('s', 0, 1000)
    else:
        s = ctx.pick('s', ['', '0x', '0x12', '\u0107', 'a\0b', '00'])
    h = utils.encode_hex(s)
    ctx.require(ctx.same(utils.decode_hex(h), s.encode('utf-8')),
                'decoding gives the encoded text back')
    ctx.reach('done')


@job('C33', reach=('done',), bounds='values of every other kind')
def hex_kinds(ctx):
    v = ctx.any('v', ('none', 'bool', 'int', 'float', 'list0', 'list',
                      'dict0', 'dict', 'tag', 'datetime'))
    _, e = ctx.outcome(utils.encode_hex, v)
    ctx.require(type(e) is TypeError, 'refused with a type error')
    ctx.reach('done')


@job('C33', reach=('done',), bounds='every UUID')
def uuid_bytes(ctx):
    b = ctx.bytes('b', 16)
    u = uuid.UUID(bytes=b)
    w = utils.uuid_to_bytes32(u)
    ctx.require(ctx.same(w, b + bytes(16)), 'padded with zeros')
    ctx.require(utils.bytes32_to_uuid(w) == u, 'comes back')
    ctx.reach('done')


@job('C33', reach=('done',), bounds='every UUID, arbitrary last 16 bytes')
def uuid_from_bytes(ctx):
    b = ctx.bytes('b', 32)
    u = utils.bytes32_to_uuid(b)
    ctx.require(ctx.same(u.bytes, b[:16]), 'the first 16 bytes')
    ctx.reach('done')
