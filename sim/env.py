"""Seams.  Import (and call ``install``) before anything of fedservice.

Everything a run of the system depends on that is not in its input goes through here:

* time        - ``time.time``, ``time.gmtime``, ``datetime.now`` ... (what cryptojwt, idpyoidc and fedservice
                read) are a simulated clock with a per-node offset;
* randomness  - ``os.urandom``, ``random.SystemRandom``, ``uuid`` and RSA/EC key generation draw from one
                seeded generator; RSA keys come from a committed pool (data/rsa_pool.json);
* network     - ``requests.adapters.HTTPAdapter.send``: the real ``requests`` code runs down to the
                transport, which is the simulated network (sim/net.py);
* disk        - ``open`` for paths below the run's scratch directory (sim/disk.py).
"""
import builtins
import json
import logging
import os
import random
import sys
import threading
import time
import uuid

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

REAL_TIME = time.time
REAL_MONOTONIC = time.monotonic
REAL_OPEN = builtins.open
REAL_URANDOM = os.urandom

EPOCH = 1_700_000_000


class Clock:
    """Simulated time.  ``now`` is true time; a node sees ``now + offset[node]``."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.now = float(EPOCH)
        self.offset = {}
        self._local = threading.local()

    # who is running (per thread)
    def push(self, node):
        st = getattr(self._local, "stack", None)
        if st is None:
            st = self._local.stack = []
        st.append(node)

    def pop(self):
        self._local.stack.pop()

    def current(self):
        st = getattr(self._local, "stack", None)
        return st[-1] if st else None

    def advance(self, dt):
        self.now += dt

    def read(self):
        return self.now + self.offset.get(self.current(), 0)

    def node_time(self, node):
        return int(self.now + self.offset.get(node, 0))


CLOCK = Clock()


class At:
    """Context manager: code inside runs *at* node ``node`` (clock offset, log attribution)."""

    def __init__(self, node):
        self.node = node

    def __enter__(self):
        CLOCK.push(self.node)

    def __exit__(self, *a):
        CLOCK.pop()


class Entropy:
    def __init__(self):
        self.local = threading.local()
        self.reset(0)

    def reset(self, seed):
        self.own = random.Random(f"entropy:{seed}")
        self.key_cursor = 0

    def here(self, seed):
        """This thread has randomness of its own (None: no longer)."""
        self.local.rng = None if seed is None else random.Random(f"entropy:{seed}")
        self.local.cursor = 0

    @property
    def rng(self):
        return getattr(self.local, "rng", None) or self.own

    def urandom(self, n):
        return self.rng.randbytes(n)

    def next_key(self):
        if getattr(self.local, "rng", None):
            self.local.cursor += 1
            return self.local.cursor - 1
        self.key_cursor += 1
        return self.key_cursor - 1


ENTROPY = Entropy()

_pool = None
_pool_keys = {}


def pool():
    global _pool
    if _pool is None:
        with REAL_OPEN(os.path.join(VERIF, "data", "rsa_pool.json")) as fp:
            _pool = json.load(fp)
    return _pool


def pool_key(i):
    """cryptography private key number ``i`` of the committed pool."""
    i %= len(pool())
    k = _pool_keys.get(i)
    if k is None:
        from cryptography.hazmat.primitives.asymmetric import rsa
        d = {a: int(b, 16) for a, b in pool()[i].items()}
        pub = rsa.RSAPublicNumbers(d["e"], d["n"])
        k = rsa.RSAPrivateNumbers(d["p"], d["q"], d["d"], d["dmp1"], d["dmq1"], d["iqmp"],
                                  pub).private_key(unsafe_skip_rsa_key_validation=True)
        _pool_keys[i] = k
    return k


def _datetime():
    """datetime.datetime.now() and friends read the simulated clock."""
    import datetime as dtm
    real = dtm.datetime

    class Meta(type(real)):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, real)

    class datetime(real, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            return real.fromtimestamp(CLOCK.read(), tz)

        @classmethod
        def utcnow(cls):
            return real.fromtimestamp(CLOCK.read(), dtm.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return real.fromtimestamp(CLOCK.read())

    dtm.datetime = datetime


_installed = False
NET_SEND = None  # set by sim.net
OPEN_HOOK = None  # set by sim.disk


def install():
    global _installed
    if _installed:
        return
    _installed = True
    logging.disable(logging.CRITICAL)
    for v in list(os.environ):
        if v.lower().endswith("_proxy"):
            del os.environ[v]
    sys.path.insert(0, os.environ.get("FEDSIM_REPO_SRC", "/repo/src"))

    # ---- time
    def _time():
        return CLOCK.read()

    time.time = _time
    time.time_ns = lambda: int(_time() * 1e9)
    _gm, _loc = time.gmtime, time.localtime
    time.gmtime = lambda secs=None: _gm(_time() if secs is None else secs)
    time.localtime = lambda secs=None: _loc(_time() if secs is None else secs)
    time.sleep = lambda secs: CLOCK.advance(secs)
    _datetime()

    # ---- randomness
    os.urandom = lambda n: ENTROPY.urandom(n)
    random._urandom = lambda n: ENTROPY.urandom(n)
    uuid.uuid1 = lambda node=None, clock_seq=None: uuid.UUID(bytes=ENTROPY.urandom(16), version=1)
    uuid.uuid4 = lambda: uuid.UUID(bytes=ENTROPY.urandom(16), version=4)

    from cryptography.hazmat.primitives.asymmetric import rsa, ec
    import cryptojwt.jwk.rsa as cj_rsa
    import cryptojwt.jwk.ec as cj_ec

    class _Rsa:
        """cryptography's rsa module with key generation drawn from the pool."""

        def __getattr__(self, item):
            return getattr(rsa, item)

        @staticmethod
        def generate_private_key(public_exponent=65537, key_size=2048, backend=None):
            # keys generated by the system (not assigned by the harness): upper part of the pool
            n = len(pool())
            i = n // 2 + ENTROPY.next_key() % (n - n // 2)
            return pool_key(i)

    cj_rsa.rsa = _Rsa()
    _construct = cj_rsa.rsa_construct_private
    _memo = {}

    def rsa_construct_private(numbers):
        key = (numbers.get("n"), numbers.get("d"))
        if key not in _memo:
            _memo[key] = _construct(numbers)
        return _memo[key]

    cj_rsa.rsa_construct_private = rsa_construct_private

    class _Ec:
        def __getattr__(self, item):
            return getattr(ec, item)

        @staticmethod
        def generate_private_key(curve, backend=None):
            return ec.derive_private_key(ENTROPY.rng.getrandbits(250) + 2, curve)

    cj_ec.ec = _Ec()

    # ---- network
    import requests.adapters

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        if NET_SEND is None:
            raise RuntimeError("network used outside a simulated run")
        return NET_SEND(self, request, timeout)

    requests.adapters.HTTPAdapter.send = send

    # ---- disk
    def _open(file, *a, **kw):
        if OPEN_HOOK is not None:
            return OPEN_HOOK(file, *a, **kw)
        return REAL_OPEN(file, *a, **kw)

    builtins.open = _open

    from . import shim
    shim.install()


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the system under test."""
