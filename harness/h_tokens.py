"""C28: file transfer tokens."""
from golem_messages import exceptions
from golem_messages.message import concents

from sx.api import SENT, job

from .build import CLASSES
from .h_hostile import frame, receive

TOKEN = concents.FileTransferToken
INFO = TOKEN.FileInfo
CATEGORY = INFO.Category
KEYS = ['path', 'checksum', 'size', 'category']
DEFAULTS = {'path': '', 'checksum': '', 'size': 0,
            'category': CATEGORY.results}
KINDS = ('none', 'bool', 'int', 'float', 'str', 'str0', 'bytes', 'list0',
         'list', 'dict0', 'dict')
REST = [['subtask_id', 'x'], ['token_expiration_deadline', 1],
        ['storage_cluster_address', 'y'],
        ['authorized_client_public_key', b'z']]


def send(ctx, operation, files, *missing):
    tree = [x for x in REST + [['operation', operation], ['files', files]]
            if x[0] not in missing]
    return ctx.outcome(receive, frame(TOKEN, tree))


def refused(ctx, e):
    ctx.require(isinstance(e, exceptions.MessageError), 'a message error')
    ctx.reach('refused')


@job('C28', reach=('declared',), bounds='the declared values')
def declared(ctx):
    ctx.require([(o.name, o.value) for o in TOKEN.Operation] == [
        ('upload', 'upload'), ('download', 'download')], 'operations')
    ctx.require([(c.name, c.value) for c in CATEGORY] == [
        ('results', 'results'), ('resources', 'resources')], 'categories')
    ctx.require(CLASSES['FileTransferToken'] is TOKEN, 'registered')
    ctx.reach('declared')


@job('C28', reach=('accepted', 'refused'),
     bounds='every text of up to 12 characters and values of every kind')
def operation(ctx):
    ctx.hash_ok = True
    kind = ctx.pick('kind', ['member', 'text', 'value', 'missing'])
    want = None
    if kind == 'member':
        v = ctx.pick('v', ['upload', 'download'])
        want = TOKEN.Operation.upload if v == 'upload' else \
            TOKEN.Operation.download
    elif kind == 'text':
        v = ctx.text('v', 0, 12)
        ctx.assume(ctx.all(v != 'upload', v != 'download'))
    else:
        v = None if kind == 'missing' else ctx.any('v', SENT)
    m, e = send(ctx, v, [], *(['operation'] if kind == 'missing' else []))
    if want is None and v is not None:
        refused(ctx, e)
        return
    ctx.require(e is None, 'accepted')
    ctx.require(m.operation is want, 'the operation')
    ctx.require(bool(m.is_upload) is (want is TOKEN.Operation.upload),
                'upload predicate')
    ctx.require(bool(m.is_download) is (want is TOKEN.Operation.download),
                'download predicate')
    ctx.reach('accepted')


@job('C28', reach=('done',), bounds='tokens made directly, all operations')
def predicates(ctx):
    op = ctx.pick('op', [None] + list(TOKEN.Operation))
    m = TOKEN()
    if ctx.flag('before'):
        m.operation = ctx.pick('other', list(TOKEN.Operation))
        m.is_upload, m.is_download      # pylint: disable=pointless-statement
    m.operation = op
    ctx.require(bool(m.is_upload) is (op is TOKEN.Operation.upload), 'upload')
    ctx.require(bool(m.is_download) is (op is TOKEN.Operation.download),
                'download')
    ctx.reach('done')


def entry(ctx, name, wide=True):
    """(entry, whether it is well-formed)."""
    d = {}
    good = True
    if wide:
        for k in KEYS[:3]:
            if ctx.flag('%s.%s?' % (name, k)):
                d[k] = ctx.int('%s.%s' % (name, k)) if k == 'size' else \
                    ctx.text('%s.%s' % (name, k), 0, 9)
    else:
        d['path'] = ctx.text(name + '.path', 0, 9)
    c = ctx.pick(name + '.category', [
        'none', 'results', 'resources', 'text', 'Results', ''] if wide else [
            'none', 'results', 'resources', 'text'])
    if c == 'text':
        d['category'] = ctx.text(name + '.text', 0, 12)
        good = d['category'] == 'results' or d['category'] == 'resources'
    elif c != 'none':
        d['category'] = c
        good = c in ('results', 'resources')
    return d, good


def well_formed(ctx, fi, d):
    ctx.require(isinstance(fi, INFO), 'a file entry')
    ctx.require(sorted(fi) == sorted(KEYS), 'the declared keys')
    for k in KEYS[:3]:
        ctx.require(ctx.same(fi[k], d.get(k, DEFAULTS[k])),
                    'as sent or default')
    ctx.require(any(fi['category'] is c for c in CATEGORY),
                'a known category')
    ctx.require(fi['category'].value == d.get('category', 'results'),
                'category as sent, results by default')


@job('C28', reach=('accepted', 'refused'),
     params={'one': {'n': 1}, 'two': {'n': 2}, 'three': {'n': 3}},
     bounds='lists of 1 to 3 entries with any declared keys, any category '
            'text of up to 12 characters')
def files(ctx, n):
    ctx.hash_ok = True
    made = [entry(ctx, 'f%d' % i, n == 1) for i in range(n)]
    good = all(ctx.is_true(g) for _, g in made)
    m, e = send(ctx, 'upload', [dict(d) for d, _ in made])
    if not good:
        refused(ctx, e)
        return
    ctx.require(e is None, 'accepted')
    ctx.require(isinstance(m.files, list), 'a list')
    ctx.require(len(m.files) == n, 'all entries')
    for (d, _), fi in zip(made, m.files):
        well_formed(ctx, fi, d)
    for c in CATEGORY:
        want = None
        for fi in reversed(m.files):
            if fi['category'] is c:
                want = fi
        ctx.require(m.get_file_info(c) is want, 'first of the category')
    ctx.reach('accepted')


@job('C28', reach=('accepted', 'refused'),
     bounds='one entry with a declared or undeclared key with any kind of '
            'value, first or second in the list')
def strange_entry(ctx):
    ctx.hash_ok = True
    key = ctx.pick('key', KEYS + ['zz', 'Path', '', 'category ', 7, b'path',
                                  None])
    v = ctx.any('v', KINDS)
    d = {key: v}
    if ctx.flag('more'):
        d = {'path': ctx.text('path', 0, 9), key: v}
    fs = [d]
    if ctx.flag('second'):
        fs = [{'category': 'resources'}, d]
    m, e = send(ctx, None, [dict(f) for f in fs])
    if key not in KEYS or key == 'category':
        refused(ctx, e)
        return
    ctx.require(e is None, 'accepted')
    for f, fi in zip(fs, m.files):
        well_formed(ctx, fi, f)
    ctx.reach('accepted')


@job('C28', reach=('refused', 'accepted'),
     bounds='any kind of value as the list or as an entry of it')
def strange_list(ctx):
    ctx.hash_ok = True
    how = ctx.pick('how', ['list', 'entry', 'second', 'missing'])
    if how == 'missing':
        m, e = send(ctx, None, None, 'files')
        ctx.require(e is None, 'accepted')
        ctx.require(m.files is None, 'no list')
        ctx.reach('accepted')
        return
    v = ctx.any('v', SENT)
    empty = how == 'list' and isinstance(v, (str, bytes, list, dict)) and \
        len(v) == 0
    items = v if how == 'list' else [v]
    default = isinstance(items, list) and all(
        isinstance(x, dict) and len(x) == 0 for x in items)
    m, e = send(ctx, 'download', v if how == 'list' else [v]
                if how == 'entry' else [{'size': 3}, v])
    if e is not None:
        ctx.require(not default and not (empty and isinstance(v, list)),
                    'refused when wrong')
        refused(ctx, e)
        return
    ctx.require(empty or default, 'accepted when right')
    ctx.require(isinstance(m.files, list), 'a list')
    for fi in m.files:
        ctx.require(isinstance(fi, INFO), 'of entries')
    ctx.reach('accepted')


@job('C28', reach=('found', 'none'),
     bounds='tokens made directly with 0 to 4 files')
def lookup(ctx):
    n = ctx.pick('n', [0, 1, 2, 3, 4])
    fs = []
    for i in range(n):
        fs.append(INFO({'path': ctx.text('p%d' % i, 0, 9),
                        'category': ctx.pick('c%d' % i, list(CATEGORY))}))
    m = TOKEN(files=fs)
    c = ctx.pick('c', list(CATEGORY))
    want = [f for f in fs if f['category'] is c]
    got = m.get_file_info(c)
    if want:
        ctx.require(got is want[0], 'the first')
        ctx.reach('found')
    else:
        ctx.require(got is None, 'none')
        ctx.reach('none')


@job('C28', reach=('held', 'refused'),
     bounds='any kind of value assigned to a category, any text of up to 12 '
            'characters')
def category(ctx):
    ctx.hash_ok = True
    v = ctx.text('v', 0, 12) if ctx.flag('text') else ctx.pick(
        'member', list(CATEGORY)) if ctx.flag('member?') else \
        ctx.any('v', KINDS)
    f = INFO({'category': CATEGORY.resources})
    good = isinstance(v, str) and (v == 'results' or v == 'resources')
    if ctx.flag('built'):
        f, e = ctx.outcome(INFO, {'category': v})
    else:
        _, e = ctx.outcome(f.__setitem__, 'category', v)
    if good:
        ctx.require(e is None and f['category'] == v, 'held')
        ctx.reach('held')
        return
    ctx.require(isinstance(e, exceptions.FieldError), 'a field error')
    ctx.require(e.field == 'category', 'names the field')
    ctx.require(f is None or f['category'] is CATEGORY.resources, 'unchanged')
    ctx.reach('refused')
