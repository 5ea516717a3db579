"""What the code under test needs in order to run for real in this sandbox.

Two dependencies cannot be imported here (cytoolz, used by eth_utils, and
pyelliptic, which wants an old OpenSSL); equivalents over installed libraries
take their place.  Everything else is the real library.
"""
import functools
import hashlib
import hmac
import io
import os
import pathlib
import sys
import types

VERSION = '3.14.0'


def release_version():
    """The generated file with the library version may not exist."""
    plain = pathlib.Path.open

    def opener(self, *a, **k):
        if self.name == 'RELEASE-VERSION' and not self.exists():
            return io.StringIO(VERSION)
        return plain(self, *a, **k)
    pathlib.Path.open = opener


def toolz_for_eth_utils():
    if '_functools' not in sys.modules:
        m = types.ModuleType('_functools')
        m.reduce = functools.reduce
        m.partial = functools.partial
        sys.modules['_functools'] = m
    import toolz
    import toolz.curried  # noqa
    import toolz.functoolz  # noqa
    import eth_utils  # noqa
    sys.modules.setdefault('eth_utils.toolz', toolz)


def pyelliptic():
    from Crypto.Cipher import AES
    from Crypto.Util import Counter
    from coincurve import PrivateKey

    p = types.ModuleType('pyelliptic')

    class Cipher:
        def __init__(self, key, iv, do, ciphername='aes-256-cbc'):
            assert ciphername == 'aes-128-ctr'
            self.cipher = AES.new(key, AES.MODE_CTR, counter=Counter.new(
                128, initial_value=int.from_bytes(iv, 'big')))
            self.do = do

        def ciphering(self, data):
            if self.do:
                return self.cipher.encrypt(data)
            return self.cipher.decrypt(data)

        @staticmethod
        def gen_IV(_name):
            return os.urandom(16)

        @staticmethod
        def get_all_cipher():
            return ['aes-128-ctr']

    class CipherType:
        def get_blocksize(self):
            return 16

    class OpenSSL:
        def get_cipher(self, _name):
            return CipherType()

        def rand(self, n):
            return os.urandom(n)

    class ECC:
        def __init__(self, pubkey_x=None, pubkey_y=None, raw_privkey=None,
                     curve=None, pubkey=None, privkey=None):
            if raw_privkey is None:
                raw_privkey = PrivateKey().secret
                pub = PrivateKey(raw_privkey).public_key.format(
                    compressed=False)[1:]
                pubkey_x, pubkey_y = pub[:32], pub[32:]
            self.privkey = raw_privkey
            self.pubkey_x = pubkey_x
            self.pubkey_y = pubkey_y

        def raw_check_key(self, priv, x, y):
            pub = PrivateKey(priv).public_key.format(compressed=False)[1:]
            return 0 if pub == x + y else -1

    p.Cipher = Cipher
    p.OpenSSL = OpenSSL()
    p.ECC = ECC
    p.hmac_sha256 = lambda k, m: hmac.new(k, m, hashlib.sha256).digest()
    p.equals = hmac.compare_digest
    sys.modules['pyelliptic'] = p


def install():
    toolz_for_eth_utils()
    try:
        import pyelliptic as real  # noqa
        real.ECC
    except Exception:       # pylint: disable=broad-except
        pyelliptic()
    release_version()
