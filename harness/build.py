"""Symbolic messages of every registered type, for the harnesses."""
import collections
import enum

from coincurve import PrivateKey

from golem_messages import datastructures
from golem_messages import utils
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import stats as dt_stats
from golem_messages.datastructures import tasks as dt_tasks
from golem_messages.message import base, concents, p2p, resources, tasks
from golem_messages.register import library

from .fields import FIELDS, NESTED

MODULES = (base, concents, p2p, resources, tasks)


def every_class():
    """Registered classes by name, found through the modules."""
    out = {}
    for m in MODULES:
        for name in dir(m):
            c = getattr(m, name)
            if isinstance(c, type) and issubclass(c, base.Message) and \
                    c.__module__ == m.__name__:
                try:
                    library.get_type(c)
                except KeyError:
                    continue
                out[c.__name__] = c
    return out


CLASSES = every_class()
TASK_CLASSES = {k: c for k, c in CLASSES.items()
                if issubclass(c, tasks.TaskMessage)}

Nested = collections.namedtuple('Nested', 'cls is_list allow_none')


def nested(cls):
    """The published slots with messages in them, and whatever others."""
    out = {s: Nested(d.get_class(), d.is_list, d.allow_none)
           for s, d in getattr(cls, 'MSG_SLOTS', {}).items()}
    out.update({s: Nested(CLASSES[n], *rest) for s, (n, *rest) in
                NESTED.get(cls.__name__, {}).items()})
    return out


# wire-stable kinds of values for slots of no particular type
WIRE = ('none', 'bool', 'int', 'float', 'str', 'str0', 'bytes', 'bytes0',
        'list0', 'list', 'list2', 'dict0', 'dict')

MIN_TS = 1262304000     # 2010-01-01
MAX_TS = 32819212800    # 3010-01-01


def public_key(secret):
    return PrivateKey(secret).public_key.format(compressed=False)[1:]


class Party:
    """A key pair with its usual encodings."""

    def __init__(self, ctx, name):
        self.secret = ctx.key(name)
        self.public = public_key(self.secret)
        self.hex = utils.encode_hex(self.public)

    @property
    def node(self):
        return int.from_bytes(self.public[:6], 'big')


class Builder:
    """Makes messages; over maps (class name, slot) to a maker."""

    def __init__(self, ctx, over=None, parties=None, lean=True, many=False):
        self.ctx = ctx
        self.many = many
        self.over = over or {}
        self.lean = lean
        self.parties = parties or {}

    def party(self, role):
        if role not in self.parties:
            self.parties[role] = Party(self.ctx, 'key_' + role)
        return self.parties[role]

    def items(self, name, make):
        """A list of what make makes."""
        return [make('%s.%d' % (name, i)) for i in range(1 + self.many)]

    # -- data structures ---------------------------------------------------

    def node(self, name, **over):
        ctx = self.ctx
        d = dict(
            node_name=ctx.text(name + '.node_name', 0, 200),
            key=ctx.text(name + '.key', 0, 128),
            prv_port=ctx.int(name + '.prv_port', 1, 65534),
            prv_addr=ctx.ip(name + '.prv_addr'),
        )
        if not self.lean:
            d.update(
                pub_port=ctx.int(name + '.pub_port', 1, 65534),
                p2p_prv_port=ctx.int(name + '.p2p_prv_port', 1, 65534),
                p2p_pub_port=ctx.int(name + '.p2p_pub_port', 1, 65534),
                pub_addr=ctx.ip(name + '.pub_addr'),
                prv_addresses=[ctx.ip(name + '.prv_addresses.0')],
                hyperdrive_prv_port=ctx.int(name + '.hyp_prv'),
                hyperdrive_pub_port=ctx.int(name + '.hyp_pub'),
                port_statuses={'k': ctx.text(name + '.port_status', 0, 9)},
                nat_type=[ctx.text(name + '.nat', 0, 9)],
            )
        d.update(over)
        return dt_p2p.Node(**d)

    def header_fields(self, name):
        ctx = self.ctx
        d = dict(
            task_id=ctx.text(name + '.task_id', 0, 128),
            task_owner=self.node(name + '.task_owner'),
            subtasks_count=ctx.int(name + '.subtasks_count', 1),
            min_version='1.5.0',
            timestamp=ctx.int(name + '.timestamp'),
            max_price=ctx.int(name + '.max_price'),
            deadline=ctx.int(name + '.deadline'),
        )
        if not self.lean:
            d.update(
                mask=ctx.bytes(name + '.mask', 32),
                subtask_timeout=ctx.int(name + '.subtask_timeout', 0),
                market_type=ctx.pick(name + '.market',
                                     ['Brass', 'Usage', None]),
                environment=ctx.text(name + '.environment', 0, 128),
                environment_prerequisites={
                    'k': ctx.int(name + '.env_prereq')},
                estimated_memory=ctx.int(name + '.estimated_memory'),
                subtask_budget=ctx.int(name + '.subtask_budget'),
                concent_enabled=ctx.bool(name + '.concent'),
            )
        return d

    def header(self, name, sign_as=None, **over):
        d = self.header_fields(name)
        d.update(over)
        h = dt_tasks.TaskHeader(**d)
        if sign_as is not None:
            h.sign(sign_as)
        elif 'signature' not in over:
            h.signature = self.ctx.blob(name + '.signature', 0, 65)
        return h

    def task_def(self, name):
        ctx = self.ctx
        req = self.party('requestor')
        d = dict(
            task_id=ctx.uuid_text(name + '.task_id', req.node),
            subtask_id=ctx.uuid_text(name + '.subtask_id', req.node),
            deadline=ctx.int(name + '.deadline'),
        )
        if not self.lean:
            d.update(
                extra_data={'k': ctx.text(name + '.extra', 0, 9)},
                performance=ctx.int(name + '.performance'),
                docker_images=ctx.any(name + '.docker', ('none', 'list')),
                resources=[ctx.text(name + '.resource', 0, 9)],
            )
        return tasks.ComputeTaskDef(d)

    def stats(self, name):
        ctx = self.ctx
        return dt_stats.ProviderStats(
            cpu_stats={'cpu_usage': {
                'total_usage': ctx.int(name + '.total_usage')}},
            memory_stats={'cache': ctx.int(name + '.cache')},
            pids_stats={'current': ctx.int(name + '.current')},
        )

    def file_info(self, name):
        ctx = self.ctx
        return concents.FileTransferToken.FileInfo({
            'path': ctx.text(name + '.path', 0, 9),
            'checksum': ctx.text(name + '.checksum', 0, 9),
            'size': ctx.int(name + '.size'),
            'category': ctx.pick(name + '.category', list(
                concents.FileTransferToken.FileInfo.Category)),
        })

    def peer(self, name):
        ctx = self.ctx
        return dt_p2p.Peer({
            'address': ctx.ip(name + '.address'),
            'port': ctx.int(name + '.port', 1, 65534),
            'node': self.node(name + '.node'),
        })

    # -- fields -----------------------------------------------------------

    def slots_of(self, cls):
        """The published fields, and whatever else there is."""
        own = [s for s in cls.__slots__
               if not s.startswith('_') and s not in ('header', 'sig')]
        return own + [s for s in FIELDS.get(cls.__name__, ())
                      if s not in own]

    def enum_of(self, cls, slot):
        if slot == 'reason' and hasattr(cls, 'REASON'):
            return cls.REASON
        if slot == 'operation':
            return cls.Operation
        if slot == 'origin':
            return cls.Origin
        if slot == 'recipient_type':
            return cls.Actor
        return None

    def child(self, name, cls, slot):
        d = nested(cls)[slot]
        inner = d.cls
        if d.is_list:
            return self.items(
                name, lambda n: self.message(n, inner, nested=True))
        return self.message(name, inner, nested=True)

    def field(self, name, cls, slot):
        ctx = self.ctx
        maker = self.over.get((cls.__name__, slot))
        if maker is not None:
            return maker(name)
        # the classes with nodes test every slot value for truth
        low = (1,) if hasattr(cls, 'NODE_SLOTS') else ()
        e = self.enum_of(cls, slot)
        if e is not None:
            return list(e)[0] if self.lean else ctx.pick(name, list(e))
        if slot in nested(cls):
            return self.child(name, cls, slot)
        if slot == 'node_info' and cls.__name__ == 'ReportComputedTask':
            return {'k': ctx.text(name, 0, 9)}
        if slot in ('node_info', 'super_node_info'):
            return self.node(name)
        if slot == 'task_header':
            return self.header(name)
        if slot == 'stats':
            return self.stats(name)
        if slot == 'compute_task_def':
            return self.task_def(name)
        if slot == 'peers':
            return self.items(name, self.peer)
        if slot == 'tasks':
            return self.items(name, self.header)
        if slot in ('resource_peers', 'gossip'):
            return self.items(name, lambda n: ctx.text(n, 0, 9))
        if slot == 'files':
            return self.items(name, self.file_info)
        if slot == 'requestor_id' or slot == 'requestor_public_key':
            return self.party('requestor').hex
        if slot == 'provider_id' or slot == 'provider_public_key':
            return self.party('provider').hex
        if slot == 'requestor_ethereum_public_key':
            return self.party('requestor_eth').hex
        if slot == 'concent_enabled':
            return ctx.bool(name)
        if slot in ('price', 'size', 'port', 'copies', 'degree', 'reward',
                    'block_number', 'amount_paid', 'amount_pending',
                    'perf_index', 'max_resource_size', 'max_memory_size',
                    'difficulty', 'proto_id', 'token_expiration_deadline'):
            return ctx.int(name, *low)
        if slot == 'cpu_usage':
            return ctx.int(name, 0)
        if slot == 'num_subtasks':
            return ctx.int(name, 1)
        if slot in ('ethsig', 'promissory_note_sig',
                    'concent_promissory_note_sig'):
            return None
        if slot in ('has_resource', 'accepted', 'solve_challenge'):
            return ctx.bool(name) if not low else True
        if slot == 'payment_ts':
            return ctx.int(name)
        return ctx.text(name, *(low or (0,)), 40)

    # -- messages ------------------------------------------------------------

    def message(self, name, cls, nested=False, ts=None, sig=None, **over):
        ctx = self.ctx
        if isinstance(cls, str):
            cls = CLASSES[cls]
        d = {}
        for slot in self.slots_of(cls):
            d[slot] = over[slot] if slot in over else \
                self.field(name + '.' + slot, cls, slot)
        if ts is None:
            ts = ctx.int(name + '.ts', 0, (1 << 64) - 1) if nested else \
                ctx.int(name + '.ts', MIN_TS + 1, MAX_TS - 1)
        m = cls(header=datastructures.MessageHeader(
            library.get_type(cls), ts, False), **d)
        if cls.__name__ == 'TaskToCompute' and m.ethsig is None:
            m.generate_ethsig(self.party('requestor_eth').secret)
        if cls.__name__ == 'SubtaskResultsAccepted' and \
                'payment_ts' not in over:
            m.payment_ts = m.timestamp
        if nested and sig is None:
            sig = ctx.blob(name + '.sig', 65, 65)
        m.sig = sig
        return m

    def valid(self, name, cls, **over):
        """A message which passes the checks done on reception."""
        if isinstance(cls, str):
            cls = CLASSES[cls]
        n = cls.__name__
        if n == 'VerdictReportComputedTask':
            ttc = self.message(name + '.ttc', 'TaskToCompute', nested=True)
            rct1 = self.message(name + '.rct1', 'ReportComputedTask',
                                nested=True, task_to_compute=ttc)
            rct2 = self.message(name + '.rct2', 'ReportComputedTask',
                                nested=True, task_to_compute=ttc)
            over.setdefault('force_report_computed_task', self.message(
                name + '.force', 'ForceReportComputedTask', nested=True,
                report_computed_task=rct1))
            over.setdefault('ack_report_computed_task', self.message(
                name + '.ack', 'AckReportComputedTask', nested=True,
                report_computed_task=rct2))
        if n == 'SubtaskResultsRejected' and \
                'force_get_task_result_failed' not in over:
            over['force_get_task_result_failed'] = None
        return self.message(name, cls, **over)


def same_value(ctx, a, b):
    """Equal in value and type, for every kind of field."""
    if isinstance(a, base.Message) or isinstance(b, base.Message):
        return same_message(ctx, a, b)
    if isinstance(a, datastructures.Container) or \
            isinstance(b, datastructures.Container):
        if type(a) is not type(b):
            return False
        return ctx.all(*[
            same_value(ctx, getattr(a, k), getattr(b, k))
            for k in type(a).__slots__])
    if isinstance(a, datastructures.SetItemDict) or \
            isinstance(b, datastructures.SetItemDict):
        if type(a) is not type(b) or set(a) != set(b):
            return False
        return ctx.all(*[same_value(ctx, a[k], b[k]) for k in a])
    if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
        return a is b
    if type(a).__name__ == 'Mask' or type(b).__name__ == 'Mask':
        return ctx.all(type(a) is type(b),
                       ctx.same(a.to_bytes(), b.to_bytes()))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return ctx.all(*[same_value(ctx, x, y) for x, y in zip(a, b)])
    return ctx.same(a, b)


def same_message(ctx, a, b):
    if type(a) is not type(b):
        return False
    return ctx.all(
        ctx.same(a.header.type_, b.header.type_),
        ctx.same(a.timestamp, b.timestamp),
        ctx.same(a.sig, b.sig),
        *[same_value(ctx, getattr(a, s, None), getattr(b, s, None))
          for s in dict.fromkeys(list(type(a).__slots__) + FIELDS.get(
              type(a).__name__, []))
          if s not in ('header', 'sig')])


# slots whose values the library checks or converts
TYPED = {
    'ReportComputedTask': {'stats'},
    'WantToComputeTask': {'cpu_usage', 'num_subtasks', 'concent_enabled',
                          'task_header'},
    'TaskToCompute': {'compute_task_def', 'price', 'size', 'concent_enabled',
                      'requestor_id', 'requestor_ethereum_public_key',
                      'ethsig'},
    'Hello': {'node_info'},
    'WantToStartTaskSession': {'node_info', 'super_node_info'},
    'SetTaskSession': {'node_info', 'super_node_info'},
    'Peers': {'peers'},
    'Tasks': {'tasks'},
    'ResourcePeers': {'resource_peers'},
    'Gossip': {'gossip'},
    'FileTransferToken': {'files'},
    'SubtaskResultsAccepted': {'payment_ts'},
}

# typed slots that may be unset on a valid message
UNSETTABLE = {
    'ReportComputedTask': {'stats'},
    'WantToComputeTask': {'cpu_usage', 'task_header'},
    'Hello': {'node_info'},
    'WantToStartTaskSession': {'node_info', 'super_node_info'},
    'SetTaskSession': {'node_info', 'super_node_info'},
}


def free_slots(cls):
    """Slots that carry any value the codec knows."""
    n = cls.__name__
    return [s for s in Builder.slots_of(None, cls)
            if s not in nested(cls) and s not in TYPED.get(n, ()) and
            Builder.enum_of(None, cls, s) is None]
