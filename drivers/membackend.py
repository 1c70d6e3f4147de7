"""In-memory raw storage backend for the drivers."""
from __future__ import annotations
import io, random
import trio


def make_class():
    from s3ql.backends.common import AsyncBackend, NoSuchObject, _FACTORY_SENTINEL

    class MemBackend(AsyncBackend):
        needs_login = False
        known_options = set()

        def __init__(self, rng=None, conns=1):
            super().__init__(_factory_sentinel=_FACTORY_SENTINEL)
            self.d = {}
            self.rng = rng or random.Random(0)
            self.conns = conns
            self.log = []
            self.seen = []              # everything ever handed to this backend
            self.fail = {}              # (operation, key) -> exception

        @classmethod
        async def create(cls, **k):
            return cls()

        @property
        def max_connections(self):
            return self.conns

        def __str__(self):
            return 'memory'

        def is_temp_failure(self, exc):
            return False

        async def pause(self):
            for _ in range(self.rng.randrange(3)):
                await trio.lowlevel.checkpoint()

        def check(self, op, key):
            self.log.append((op, key))
            e = self.fail.get((op, key))
            if e is not None:
                raise e

        async def lookup(self, key):
            await self.pause()
            self.check('lookup', key)
            if key not in self.d:
                raise NoSuchObject(key)
            return dict(self.d[key][1])

        async def get_size(self, key):
            if key not in self.d:
                raise NoSuchObject(key)
            return len(self.d[key][0])

        async def readinto_fh(self, key, fh):
            await self.pause()
            self.check('read', key)
            if key not in self.d:
                raise NoSuchObject(key)
            data, meta = self.d[key]
            fh.write(data)
            return dict(meta)

        async def write_fh(self, key, fh, metadata=None):
            self.check('write', key)
            fh.seek(0)
            data = b''
            while b := fh.read(1 << 20):
                data += b
            await self.pause()
            self.d[key] = (bytes(data), dict(metadata or {}))
            self.seen.append((key, bytes(data), dict(metadata or {})))
            return len(data)

        async def contains(self, key):
            return key in self.d

        async def delete(self, key):
            await self.pause()
            self.check('delete', key)
            self.d.pop(key, None)

        async def list(self, prefix=''):
            keys = [k for k in self.d if k.startswith(prefix)]
            self.rng.shuffle(keys)
            for k in keys:
                await trio.lowlevel.checkpoint()
                yield k
    return MemBackend


async def make(rng=None, conns=1, passphrase=None, compress='none', level=0):
    from s3ql.backends.comprenc import AsyncComprencBackend, CompressAlgorithm, CompressSpec
    raw = make_class()(rng, conns)
    be = await AsyncComprencBackend.create(passphrase, CompressSpec(algorithm=CompressAlgorithm(compress), level=level), raw)
    return raw, be
