"""C39: Ethereum addresses and keys of the parties of an assignment."""
from golem_messages import utils

from sx.api import job

from .build import Builder, Party
from .h_hostile import receive

FORMS = {
    'bytes': lambda h, raw: raw,
    'hex': lambda h, raw: h,
    '0x': lambda h, raw: '0x' + h,
}


@job('C39', reach=('same', 'different'),
     bounds='any two keys, each as bytes or as hexadecimal, prefixed or not')
def forms(ctx):
    k, other = Party(ctx, 'k'), Party(ctx, 'other')
    a = utils.pubkey_to_address(
        FORMS[ctx.pick('form', ['bytes', 'hex', '0x'])](k.hex, k.public))
    b = utils.pubkey_to_address(
        FORMS[ctx.pick('form2', ['bytes', 'hex', '0x'])](
            other.hex, other.public))
    ctx.require(ctx.same(a, public_address(k.public)), 'of the key')
    same = ctx.same(k.public, other.public)
    ctx.require(ctx.iff(same, ctx.same(a, b)), 'one address per key')
    ctx.reach('same' if ctx.is_true(same) else 'different')


def public_address(raw):
    import eth_utils
    return eth_utils.to_checksum_address(eth_utils.keccak(raw)[12:])


@job('C39', reach=('done',),
     bounds='an assignment with any keys and addresses, made and received, '
            'also in a report and with the keys changed later')
def parties(ctx):
    b = Builder(ctx)
    addr = ctx.text('address', 0, 42)
    want = b.message('w', 'WantToComputeTask', nested=True,
                     provider_ethereum_address=addr)
    m = b.valid('m', 'TaskToCompute', want_to_compute_task=want)
    eth = b.party('requestor_eth')
    where = ctx.pick('where', ['made', 'received', 'reported', 'changed'])
    if where == 'received':
        m = receive(m.serialize())
    elif where == 'reported':
        m.sig = ctx.blob('sig', 65, 65)
        r = b.valid('r', 'ReportComputedTask', task_to_compute=m)
        m = receive(r.serialize()).task_to_compute
    provider = want.provider_public_key
    if where == 'changed':
        ctx.require(ctx.same(m.requestor_ethereum_address,
                             public_address(eth.public)), 'before')
        eth = Party(ctx, 'new')
        m.requestor_ethereum_public_key = eth.hex
        provider = ctx.text('new provider', 0, 128)
        m.want_to_compute_task.provider_public_key = provider
        addr = ctx.text('new address', 0, 42)
        m.want_to_compute_task.provider_ethereum_address = addr
    ctx.require(ctx.same(m.requestor_ethereum_address,
                         public_address(eth.public)),
                'of the Ethereum key announced')
    ctx.require(ctx.same(m.provider_public_key, provider),
                'the key of the provider')
    ctx.require(ctx.same(m.provider_ethereum_address, addr),
                'the address of the provider')
    ctx.reach('done')
