"""C20, C21: masks."""
from golem_messages.datastructures.masking import Mask

from sx.api import job

# symbolic bits, most significant first, and the rest of the mask
WINDOWS = {
    'edges': ((0, 7, 8, 255), 0),
    'full': ((0, 100, 248, 255), -1),
    'byte': ((120, 121, 126, 127), 0xff << 64),
}
DEEP = {
    'wide': ((0, 1, 63, 64, 127, 128, 254, 255), 0),
    'widefull': ((0, 1, 63, 64, 127, 128, 254, 255), -1),
    'some': ((3, 77, 130, 200, 201, 250), 0x55 << 100),
}
PARAMS = {k: {'window': w} for k, w in WINDOWS.items()}
LATER = {k: {'window': w} for k, w in DEEP.items()}


def masks(ctx, window, name='mask'):
    """Every mask which differs from a given one in the window only."""
    places, rest = window
    data = ctx.bits(name, 256, places)
    fixed = rest % (1 << 256)
    for p in places:
        fixed &= ~(1 << (255 - p))
    n = int.from_bytes(data, 'big') | fixed
    return n.to_bytes(32, 'big')


def number(data):
    return int.from_bytes(data, 'big')


def views(ctx, m, data):
    """All views of the mask show the given bytes."""
    n = number(data)
    ctx.require(ctx.same(m.to_bytes(), data), 'bytes')
    ctx.require(m.to_int() == n, 'integer')
    text = m.to_bin()
    ctx.require(isinstance(text, str) and len(text) == 256, 'binary text')
    ctx.require(int(text, 2) == n, 'binary text')
    bits = m.to_bits()
    ctx.require(isinstance(bits, set) and sum(1 << b for b in bits) == n,
                'set of bits')
    ctx.require(m.num_bits == ctx.count_bits(data), 'number of bits')


def all_views(ctx, window):
    data = masks(ctx, window)
    m = Mask(data)
    views(ctx, m, data)
    views(ctx, Mask.from_dict({'byte_repr': data}), data)
    views(ctx, Mask.from_bits(m.to_bits()), data)
    ctx.reach('done')


def changed(ctx, window, up):
    """increase and decrease."""
    old = masks(ctx, window)
    m = Mask(old)
    have = ctx.count_bits(old)
    room = 256 - have if up else have
    ctx.sample_limit = 80
    ctx.assume(room >= 0)
    if ctx.flag('literal'):
        n = ctx.pick('n', [None, 0, 1, 2, 3, 255, 256, 257, 1000])
    else:
        # as far as the limit is near, every count; otherwise negative ones
        n = ctx.int('n')
        ctx.assume(ctx.either(n < 0, n > 256, room <= 8))
    f = m.increase if up else m.decrease
    r, e = ctx.outcome(f) if n is None else ctx.outcome(f, n)
    if n is None:
        n = 1
    if e is not None:
        ctx.require(n < 0, 'only negative counts are refused')
        ctx.require(isinstance(e, ValueError), 'with a value error')
        views(ctx, m, old)
        ctx.reach('refused')
        return
    new = m.to_bytes()
    ctx.require(n >= 0, 'negative counts are refused')
    ctx.require(isinstance(new, bytes) and len(new) == 32, '32 bytes')
    views(ctx, m, new)
    a, b = number(old), number(new)
    if up:
        ctx.require(a & b == a, 'no bit lost')
    else:
        ctx.require(a & b == b, 'no bit gained')
    step = ctx.count_bits(new) - have if up else have - ctx.count_bits(new)
    ctx.require(ctx.either(ctx.all(n <= room, step == n),
                           ctx.all(n > room, step == room)),
                'changes by the count or to the limit')
    ctx.reach('limit' if ctx.is_true(n > room) else 'step')


def increase(ctx, window):
    changed(ctx, window, True)


def decrease(ctx, window):
    changed(ctx, window, False)


for _f, _r in ((all_views, ('done',)),
               (increase, ('refused', 'limit', 'step')),
               (decrease, ('refused', 'limit', 'step'))):
    _b = 'masks with 4 symbolic bits (0, 7, 8, 255 of an empty mask; 0, ' \
        '100, 248, 255 of a full one; four in the middle), counts 0..3, ' \
        '255..257, 1000, every negative one and those above 256, every ' \
        'count where at most 8 bits remain; random choices from the first, ' \
        'middle and last candidates, all when few'
    job('C20', reach=_r, params=PARAMS, bounds=_b)(_f)
    job('C20', name=_f.__name__ + '_wide', reach=_r, params=LATER, weight=3,
        tiers=('thorough',),
        bounds='as in quick with 6 to 8 symbolic bits')(_f)


@job('C20', reach=('refused', 'limit', 'step'),
     bounds='counts 0..3, 253..257, 1000, every negative one and those above '
            '256; random choices as above')
def generated(ctx):
    if ctx.flag('literal'):
        n = ctx.pick('n', [None, 0, 1, 2, 3, 253, 254, 255, 256, 257, 1000])
    else:
        n = ctx.int('n')
        ctx.assume(ctx.either(n < 0, n > 256))
    m, e = ctx.outcome(Mask.generate) if n is None else \
        ctx.outcome(Mask.generate, n)
    if n is None:
        n = 0
    if e is not None:
        ctx.require(n < 0, 'only negative counts are refused')
        ctx.require(isinstance(e, ValueError), 'with a value error')
        ctx.reach('refused')
        return
    ctx.require(n >= 0, 'negative counts are refused')
    data = m.to_bytes()
    ctx.require(isinstance(data, bytes) and len(data) == 32, '32 bytes')
    views(ctx, m, data)
    ctx.require(ctx.either(ctx.all(n <= 256, ctx.count_bits(data) == n),
                           ctx.all(n > 256, ctx.count_bits(data) == 256)),
                'as many bits as asked for, or all')
    ctx.reach('limit' if ctx.is_true(n > 256) else 'step')


@job('C20', reach=('done',), bounds='an empty or a full mask emptied or '
     'filled by 1, 200 or 256, and what other masks do afterwards')
def others(ctx):
    full = b'\xff' * 32
    start = ctx.pick('start', [bytes(32), full])
    a, b = Mask(start), Mask(full)
    n = ctx.pick('n', [1, 200, 256])
    if ctx.flag('up'):
        a.increase(n)
    else:
        a.decrease(n)
    views(ctx, b, full)
    views(ctx, Mask(), bytes(32))
    b.decrease(1)
    ctx.require(b.num_bits == 255, 'one less')
    b.increase(1)
    views(ctx, b, full)
    ctx.require(Mask.generate(256).num_bits == 256, 'all of them')
    ctx.reach('done')


@job('C20', reach=('done',), bounds='empty mask by default, two masks')
def fresh(ctx):
    a = Mask()
    b = Mask()
    views(ctx, a, bytes(32))
    a.increase(ctx.pick('n', [1, 256]))
    views(ctx, b, bytes(32))
    views(ctx, Mask(), bytes(32))
    ctx.reach('done')


@job('C20', reach=('done',), bounds='a shared nearly empty or full mask '
     'value, two steps of increase and decrease by 1 or 2')
def histories(ctx):
    data = masks(ctx, ((0, 255), ctx.pick('rest', [0, -1])))
    m = Mask(data)
    other = Mask(data)
    have = ctx.count_bits(data)
    for i in range(3 if ctx.thorough else 2):
        n = ctx.pick('n%d' % i, [1, 2])
        if ctx.flag('up%d' % i):
            m.increase(n)
            have = have + n if ctx.is_true(have + n <= 256) else 256
        else:
            m.decrease(n)
            have = have - n if ctx.is_true(have >= n) else 0
        ctx.require(m.num_bits == have, 'number of bits')
    views(ctx, m, m.to_bytes())
    views(ctx, other, data)
    ctx.reach('done')


# -- C21 ------------------------------------------------------------------------

@job('C21', reach=('matches', 'refused'), params=PARAMS,
     bounds='every address of 8 bytes, ideal digest; masks with 4 symbolic '
            'bits')
def matching(ctx, window):
    addr = ctx.bytes('addr', 8)
    data = masks(ctx, window)
    m = Mask(data)
    import hashlib
    digest = number(hashlib.sha256(addr).digest())
    good = digest & number(data) == 0
    r = m.matches(addr)
    ctx.require(isinstance(r, bool), 'answers true or false')
    ctx.require(ctx.iff(r, good), 'exactly when no mask bit is set')
    ctx.require(Mask().matches(addr), 'an empty mask matches everyone')
    views(ctx, m, data)
    ctx.reach('matches' if ctx.is_true(good) else 'refused')


@job('C21', reach=('done', 'fewer'),
     bounds='every address of 8 bytes; masks with 3 symbolic bits, decreased '
            'or increased by 1..2')
def monotonic(ctx):
    addr = ctx.bytes('addr', 8)
    m = Mask(masks(ctx, ((0, 8, 255), 0)))
    before = ctx.is_true(m.matches(addr))
    n = ctx.pick('n', [1, 2])
    if ctx.flag('up'):
        m.increase(n)
        ctx.require(ctx.implies(m.matches(addr), before),
                    'more bits match no more nodes')
    else:
        m.decrease(n)
        ctx.require(ctx.implies(before, m.matches(addr)),
                    'fewer bits match no fewer nodes')
        ctx.reach('fewer')
    ctx.reach('done')


@job('C21', reach=('none', 'some', 'all'),
     bounds='every pair of worker counts with ratio up to 64, desired '
            '1..2**32; potential also 0 and negative')
def for_task(ctx):
    desired = ctx.int('desired', 1, 1 << 32)
    potential = ctx.int('potential', -(1 << 32), 1 << 38)
    ctx.assume(potential <= desired * (1 << (9 if ctx.thorough else 6)))
    ctx.sample_limit = 0
    m = Mask.get_mask_for_task(desired, potential)
    n = ctx.count_bits(m.to_bytes())
    ctx.require(ctx.all(n >= 0, n <= 256), 'a mask')
    ctx.require(m.num_bits == n, 'number of bits')
    if ctx.is_true(potential <= desired):
        ctx.require(n == 0, 'no bits when there are too few workers')
        ctx.reach('none')
    else:
        # 2 ** (n - 1) < potential / desired <= 2 ** n
        k = n.__index__()
        ctx.require(potential <= desired * (1 << k), 'enough bits')
        ctx.require(potential * 2 > desired * (1 << k), 'not too many bits')
        ctx.reach('some')
        if ctx.is_true(potential == desired * (1 << k)):
            ctx.reach('all')


@job('C21', reach=('done',), bounds='literal pairs with extreme ratios')
def for_task_extreme(ctx):
    ctx.sample_limit = 0
    desired, potential, n = ctx.pick('pair', [
        (1, 1 << 255, 255), (1, 1 << 256, 256), (1, 1 << 300, 256),
        (1 << 40, 1, 0), (3, 0, 0), (5, -7, 0), (1, 3, 2), (3, 5, 1),
        (1, 1 << 62, 62), (7, 7 << 100, 100)])
    m = Mask.get_mask_for_task(desired, potential)
    ctx.require(m.num_bits == n, 'number of bits')
    ctx.reach('done')
