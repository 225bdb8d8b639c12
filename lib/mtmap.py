"""Tiny Minetest mapblock (v25/27/28) encoder/decoder and world builder for demonstrations.
Only the demonstrations of planted bugs and defects use it; no check does."""
import sqlite3, struct, zlib, os, subprocess, shutil, tempfile

def key(x, y, z):
    return x + y * 4096 + z * 4096 * 4096

def s16(b): return struct.pack('>H', len(b)) + b
def s32(b): return struct.pack('>I', len(b)) + b

def idx(x, y, z): return x + 16 * y + 256 * z

class Block:
    def __init__(self, names=(b'air',), fill=0, version=28, flags=0):
        self.version = version; self.flags = flags; self.light = 0xFFFF
        self.nodes = [fill] * 4096
        self.p1 = bytearray(4096); self.p2 = bytearray(4096)
        self.meta = {}      # idx -> (dict name->(val, private), inv bytes)
        self.objects = []   # (type, x, y, z, data)
        self.ts = 0
        self.names = {i: n for i, n in enumerate(names)}
        self.timers = []    # (pos, timeout, elapsed)

    def name_at(self, i): return self.names.get(self.nodes[i])

    def encode(self):
        v = self.version
        out = struct.pack('>BB', v, self.flags)
        if v >= 27: out += struct.pack('>H', self.light)
        out += b'\x02\x02'
        nd = struct.pack('>4096H', *self.nodes) + bytes(self.p1) + bytes(self.p2)
        out += zlib.compress(nd)
        if not self.meta:
            m = b'\0'
        else:
            mv = 2 if v >= 28 else 1
            m = struct.pack('>BH', mv, len(self.meta))
            for p, (vs, inv) in self.meta.items():
                m += struct.pack('>HI', p, len(vs))
                for n, (val, priv) in vs.items():
                    m += s16(n) + s32(val)
                    if mv >= 2: m += bytes([priv])
                m += inv
        out += zlib.compress(m)
        out += struct.pack('>BH', 0, len(self.objects))
        for t, x, y, z, d in self.objects:
            out += struct.pack('>Biii', t, x, y, z) + s16(d)
        out += struct.pack('>I', self.ts)
        out += struct.pack('>BH', 0, len(self.names))
        for i, n in self.names.items():
            out += struct.pack('>H', i) + s16(n)
        out += struct.pack('>BH', 10, len(self.timers))
        for t in self.timers: out += struct.pack('>HII', *t)
        return out

    @staticmethod
    def decode(data):
        b = Block(); p = 0
        def take(fmt):
            nonlocal p
            r = struct.unpack_from(fmt, data, p); p += struct.calcsize(fmt)
            return r if len(r) > 1 else r[0]
        b.version = take('>B'); assert b.version in (25, 27, 28), b.version
        b.flags = take('>B')
        if b.version >= 27: b.light = take('>H')
        assert take('>BB') == (2, 2)
        d = zlib.decompressobj(); nd = d.decompress(data[p:]); p = len(data) - len(d.unused_data)
        assert len(nd) == 16384
        b.nodes = list(struct.unpack('>4096H', nd[:8192])); b.p1 = bytearray(nd[8192:12288]); b.p2 = bytearray(nd[12288:])
        d = zlib.decompressobj(); m = d.decompress(data[p:]); p = len(data) - len(d.unused_data)
        b.meta = {}
        if m[0]:
            mv, n = struct.unpack_from('>BH', m); q = 3
            for _ in range(n):
                pos, vc = struct.unpack_from('>HI', m, q); q += 6
                vs = {}
                for _ in range(vc):
                    l, = struct.unpack_from('>H', m, q); q += 2; nm = m[q:q+l]; q += l
                    l, = struct.unpack_from('>I', m, q); q += 4; val = m[q:q+l]; q += l
                    assert len(val) == l
                    pr = 0
                    if mv >= 2: pr = m[q]; q += 1
                    vs[nm] = (val, pr)
                e = m.index(b'EndInventory\n', q) + 13
                b.meta[pos] = (vs, m[q:e]); q = e
            assert q == len(m)
        assert take('>B') == 0
        b.objects = []
        for _ in range(take('>H')):
            t, x, y, z = take('>Biii'); l = take('>H')
            b.objects.append((t, x, y, z, data[p:p+l])); p += l
        b.ts = take('>I')
        assert take('>B') == 0
        b.names = {}
        for _ in range(take('>H')):
            i, l = take('>HH'); b.names[i] = data[p:p+l]; p += l
        assert take('>B') == 10
        b.timers = [take('>HII') for _ in range(take('>H'))]
        assert p == len(data)
        return b

INV_EMPTY = b'EndInventory\n'

def lua_entity(name, data=b''):
    return b'\x01' + s16(name) + s32(data)

class World:
    def __init__(self, blocks):
        self.dir = tempfile.mkdtemp(prefix='mtw')
        self.path = os.path.join(self.dir, 'map.sqlite')
        c = sqlite3.connect(self.path)
        c.execute('CREATE TABLE `blocks` (`pos` INT PRIMARY KEY, `data` BLOB)')
        for k, b in blocks.items():
            if isinstance(k, tuple): k = key(*k)
            c.execute('INSERT INTO blocks VALUES (?,?)', (k, b if isinstance(b, bytes) else b.encode()))
        c.commit(); c.close()
    def rows(self):
        c = sqlite3.connect(self.path)
        r = dict(c.execute('SELECT pos, data FROM blocks')); c.close()
        return {k: bytes(v) for k, v in r.items()}
    def get(self, x, y, z):
        d = self.rows().get(key(x, y, z))
        return None if d is None else Block.decode(d)
    def __enter__(self): return self
    def __exit__(self, *a): shutil.rmtree(self.dir, ignore_errors=True)

BIN = os.environ.get('MAPEDITR', os.path.join(os.getcwd(), 'target/debug/mapeditr'))

def run(world, *args, yes=True, stdin='', timeout=60):
    cmd = [BIN] + (['-y'] if yes else []) + [world.path] + [str(a) for a in args]
    r = subprocess.run(cmd, input=stdin, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr
