"""C25: validators accept exactly their domain."""
from golem_messages import exceptions, validators

from sx.api import job

STRANGE = ('none', 'bool', 'int', 'float', 'nan', 'str', 'str0', 'bytes',
           'bytes0', 'list0', 'list', 'dict0', 'dict', 'tag', 'datetime')


def verdict(ctx, f, v, good, **k):
    """f accepts v iff good; a refusal is a FieldError naming the field."""
    r, e = ctx.outcome(f, field_name='the_field', value=v, **k)
    if e is None:
        ctx.require(good, 'accepted only inside the domain')
        ctx.require(r is None, 'nothing returned')
        ctx.reach('accepted')
    else:
        ctx.require(ctx.no(good), 'refused only outside the domain')
        ctx.require(isinstance(e, exceptions.FieldError),
                    'refused with a field error')
        ctx.require(e.field == 'the_field', 'names the field')
        ctx.require(e.value is v, 'carries the value')
        ctx.reach('refused')


def other(ctx, *excluded):
    """A value of none of the excluded kinds."""
    return ctx.any('v', [k for k in STRANGE if k not in excluded])


@job('C25', reach=('accepted', 'refused'),
     bounds='text of 0..200 characters, limit 0..200; limit 128 exactly')
def varchar(ctx):
    limit = ctx.int('limit', 0, 200)
    s = ctx.text('s', 0, 200)
    verdict(ctx, validators.validate_varchar, s, len(s) <= limit,
            max_length=limit)


PADS = [' ', '\t\n', '\0', '\u017c', '\U0001f600', 'a' * 40]


@job('C25', reach=('accepted', 'refused'),
     bounds='text of 0..200 characters with blanks, control or non-ASCII '
            'characters before or after, limit 0..200')
def varchar_padded(ctx):
    limit = ctx.int('limit', 0, 200)
    s = ctx.text('s', 0, 200)
    pad = ctx.pick('pad', PADS)
    s = pad + s if ctx.flag('before') else s + pad
    verdict(ctx, validators.validate_varchar, s, len(s) <= limit,
            max_length=limit)


@job('C25', reach=('accepted', 'refused'), bounds='text of 0..300 characters')
def varchar128(ctx):
    s = ctx.text('s', 0, 300)
    verdict(ctx, validators.validate_varchar128, s, len(s) <= 128)


@job('C25', reach=('refused',), bounds='values of every other kind')
def varchar_kinds(ctx):
    v = other(ctx, 'str', 'str0')
    verdict(ctx, validators.validate_varchar128, v, False)


@job('C25', reach=('accepted',), bounds='all integers')
def integer(ctx):
    verdict(ctx, validators.validate_integer, ctx.int('v'), True)


@job('C25', reach=('refused',), bounds='values of every other kind')
def integer_kinds(ctx):
    v = other(ctx, 'int')
    verdict(ctx, validators.validate_integer, v, False)


@job('C25', reach=('accepted', 'refused'), bounds='all integers')
def positive(ctx):
    v = ctx.int('v')
    verdict(ctx, validators.validate_positive_integer, v, v >= 1)


@job('C25', reach=('refused',), bounds='values of every other kind')
def positive_kinds(ctx):
    v = other(ctx, 'int')
    verdict(ctx, validators.validate_positive_integer, v, False)


@job('C25', reach=('accepted', 'refused'), bounds='all integers')
def port(ctx):
    v = ctx.int('v')
    verdict(ctx, validators.validate_port, v, ctx.all(v >= 1, v <= 65534))


@job('C25', reach=('refused',), bounds='values of every other kind')
def port_kinds(ctx):
    v = other(ctx, 'int')
    verdict(ctx, validators.validate_port, v, False)


@job('C25', reach=('accepted',), bounds='both booleans')
def boolean(ctx):
    verdict(ctx, validators.validate_boolean, ctx.bool('v'), True)


@job('C25', reach=('refused',), bounds='values of every other kind')
def boolean_kinds(ctx):
    v = other(ctx, 'bool')
    verdict(ctx, validators.validate_boolean, v, False)


@job('C25', reach=('accepted',),
     bounds='every IPv4 address; some IPv6 addresses')
def address(ctx):
    v = ctx.ip('v') if ctx.flag('v4') else ctx.pick(
        'v6', ['::1', '2001:db8::ff00:42:8329', '::ffff:1.2.3.4', '::'])
    verdict(ctx, validators.validate_ipaddress, v, True)


@job('C25', reach=('refused',),
     bounds='opaque text of 0..40 letters, address-like samples, values of '
            'other kinds than numbers and bytes')
def address_kinds(ctx):
    k = ctx.pick('which', ['text', 'like', 'kind'])
    if k == 'text':
        v = ctx.text('v', 0, 40)
    elif k == 'like':
        v = ctx.pick('v', ['1.2.3', '1.2.3.256', '1.2.3.4.5', ' 1.2.3.4',
                           '1.2.3.4/24', ':::', '12345::', 'localhost'])
    else:
        v = other(ctx, 'int', 'bool', 'bytes', 'bytes0', 'str')
    verdict(ctx, validators.validate_ipaddress, v, False)


@job('C25', reach=('accepted',), bounds='numeric parts 0..10**6, '
     'pre-release and build labels from samples')
def version(ctx):
    v = ctx.decimal('x', 0, 10 ** 6) + '.' + ctx.decimal('y', 0, 10 ** 6) + \
        '.' + ctx.decimal('z', 0, 10 ** 6) + \
        ctx.pick('tail', ['', '-rc1', '-alpha.0', '+build', '-a.1+b.2'])
    verdict(ctx, validators.validate_version, v, True)


@job('C25', reach=('refused',), bounds='opaque text of 0..40 letters, '
     'version-like samples, two-part versions, values of every other kind')
def version_kinds(ctx):
    k = ctx.pick('which', ['text', 'like', 'two', 'kind'])
    if k == 'text':
        v = ctx.text('v', 0, 40)
    elif k == 'like':
        v = ctx.pick('v', ['1', '1.2', '1.2.3.4', '01.2.3', '1.02.3',
                           '1.2.03', 'v1.2.3', '1.2.3-', '1.2.3-01',
                           '1.2.3+', '-1.2.3', ' 1.2.3', '1.2.x'])
    elif k == 'two':
        v = ctx.decimal('x', 0, 999) + '.' + ctx.decimal('y', 0, 999)
    else:
        v = other(ctx, 'str')
    verdict(ctx, validators.validate_version, v, False)


@job('C25', reach=('accepted',), bounds='empty and one-entry dictionaries')
def dictionary(ctx):
    v = ctx.any('v', ('dict0', 'dict'))
    verdict(ctx, validators.validate_dict, v, True)


@job('C25', reach=('refused',), bounds='values of every other kind')
def dictionary_kinds(ctx):
    v = other(ctx, 'dict0', 'dict')
    verdict(ctx, validators.validate_dict, v, False)


@job('C25', reach=('accepted', 'refused'), bounds='all integers')
def fail_unless(ctx):
    v = ctx.int('v')
    lo = ctx.int('lo')
    r, e = ctx.outcome(
        validators.fail_unless, field_name='the_field', value=v,
        check=lambda x: x >= lo, fail_msg='too small')
    if e is None:
        ctx.require(v >= lo, 'accepted only when the check holds')
        ctx.reach('accepted')
    else:
        ctx.require(v < lo, 'refused only when the check fails')
        ctx.require(isinstance(e, exceptions.FieldError),
                    'refused with a field error')
        ctx.require(e.field == 'the_field', 'names the field')
        ctx.reach('refused')
