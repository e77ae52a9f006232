"""A simulated disk with one file on it, and the crash / fault behaviour of real ones.

State: what the page cache says (`cache`) and what has reached the medium (`disk`), in blocks. Everything is a pure function
of the list of steps. Steps:
  ["write", [line changes...] -> bytes]   see `save` styles below
  ["append", text] ["pwrite", offset, bytes] ["truncate", size]
  ["fsync"]                     the whole cache reaches the medium
  ["flush", [block numbers]]    some dirty blocks reach the medium, in that order (the size only with the last block)
  ["crash", {"torn": [block, bytes] | absent, "size": "old" | "new"}]   the cache is gone; possibly one block half-written
  ["rot", offset, xor]          a bit rots on the medium
  ["dup", from block, to block] a block is written to the wrong place (misdirected or stale)
  ["zero", block]               a block reads as zeroes
  ["lose", block]               a block is dropped and what follows moves up (lost extent)
  ["read", {"limit": n | absent, "decode": how}]   a reader takes what is there: the cache, or up to a short read
"""


class Disk:
    def __init__(self, size):
        self.block = size
        self.cache = b''
        self.disk = b''
        self.dirty = []
        self.fired = {}

    def fault(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1

    def blocks(self, data):
        return max(1, -(-len(data) // self.block))

    def _put(self, data, new):
        """note which blocks of the cache changed"""
        for b in range(max(self.blocks(self.cache), self.blocks(new))):
            at = b * self.block
            if self.cache[at:at + self.block] != new[at:at + self.block] and b not in self.dirty:
                self.dirty.append(b)
        self.cache = new

    def write(self, data):
        self._put(self.cache, data)

    def append(self, data):
        self._put(self.cache, self.cache + data)

    def pwrite(self, at, data):
        base = self.cache
        if at > len(base):
            base += b'\0' * (at - len(base))
        self._put(self.cache, base[:at] + data + base[at + len(data):])

    def fsync(self):
        self.disk, self.dirty = self.cache, []

    def _reach(self, b, upto=None):
        """block b of the cache reaches the medium"""
        at = b * self.block
        new = self.cache[at:at + self.block] if upto is None else self.cache[at:at + min(upto, self.block)]
        d = self.disk
        if at > len(d):
            self.fault('hole')
            d += b'\0' * (at - len(d))
        tail = d[at + len(new):]
        self.disk = d[:at] + new + tail

    def flush(self, order):
        for b in order:
            if b in self.dirty:
                self._reach(b)
                self.dirty.remove(b)
                self.fault('partial_flush')
        if not self.dirty:
            self.disk = self.disk[:len(self.cache)]

    def crash(self, how):
        if self.dirty:
            self.fault('lost_write')
        torn = how.get('torn')
        if torn is not None and torn[0] in self.dirty:
            self._reach(torn[0], torn[1])
            self.fault('torn_write')
        if how.get('size') == 'new':
            if len(self.disk) > len(self.cache):
                self.fault('truncated')
                self.disk = self.disk[:len(self.cache)]
            elif len(self.disk) < len(self.cache):
                self.fault('zero_tail')
                self.disk += b'\0' * (len(self.cache) - len(self.disk))
        self.cache, self.dirty = self.disk, []
        self.fault('crash')

    def rot(self, at, x):
        if self.cache and x:
            at %= len(self.cache)
            flip = lambda d: d[:at] + bytes([d[at] ^ x]) + d[at + 1:] if at < len(d) else d
            self.cache, self.disk = flip(self.cache), flip(self.disk)
            self.fault('bit_rot')

    def _both(self, fn, name):
        new = fn(self.cache)
        if new != self.cache:
            self.fault(name)
        self.cache = self.disk = new
        self.dirty = []

    def dup(self, a, b):
        s = self.block
        src = self.cache[a * s:(a + 1) * s]
        self._both(lambda d: d[:b * s] + src + d[b * s + len(src):] if b * s <= len(d) else d, 'misdirected_block')

    def insert(self, a, b):
        s = self.block
        self._both(lambda d: d[:b * s] + d[a * s:(a + 1) * s] + d[b * s:], 'duplicated_block')

    def swap(self, a, b):
        s = self.block

        def go(d):
            n = -(-len(d) // s)
            parts = [d[i * s:(i + 1) * s] for i in range(n)]
            if a < n and b < n:
                parts[a], parts[b] = parts[b], parts[a]
            return b''.join(parts)
        self._both(go, 'reordered_block')

    def zero(self, b):
        s = self.block
        self._both(lambda d: d[:b * s] + b'\0' * len(d[b * s:(b + 1) * s]) + d[(b + 1) * s:], 'zeroed_block')

    def lose(self, b):
        s = self.block
        self._both(lambda d: d[:b * s] + d[(b + 1) * s:], 'lost_block')

    def read(self, how):
        data = self.cache
        if how.get('limit') is not None and how['limit'] < len(data):
            data = data[:how['limit']]
            self.fault('short_read')
        return decode(data, how.get('decode', 'replace'))


def decode(data, how):
    if how == 'latin-1':
        return data.decode('latin-1')
    if how == 'newlines':       # text mode
        return data.decode('utf-8', 'replace').replace('\r\n', '\n').replace('\r', '\n')
    return data.decode('utf-8', how)


DECODE = ['replace', 'replace', 'replace', 'ignore', 'surrogateescape', 'latin-1', 'newlines', 'backslashreplace']


def execute(block, steps):
    """returns ([text of every read], the disk)"""
    d = Disk(block)
    texts = []
    for s in steps:
        op, a = s[0], s[1:]
        if op == 'write':
            d.write(a[0].encode('utf-8', 'surrogatepass'))
        elif op == 'append':
            d.append(a[0].encode('utf-8', 'surrogatepass'))
        elif op == 'pwrite':
            d.pwrite(a[0], a[1].encode('utf-8', 'surrogatepass'))
        elif op == 'fsync':
            d.fsync()
        elif op == 'read':
            texts.append(d.read(a[0]))
        elif op == 'text':      # what minimisation leaves: the text itself
            texts.append(a[0])
        else:
            getattr(d, op)(*a)
    return texts, d


def edit(rng, text):
    """an author changes the document: lines changed, inserted, moved, removed"""
    lines = text.split('\n')
    for _ in range(rng.choice([1, 1, 2, 4])):
        i = rng.randrange(len(lines))
        roll = rng.random()
        if roll < .3:
            lines.insert(i, rng.choice(lines))
        elif roll < .5 and len(lines) > 1:
            del lines[i]
        elif roll < .7:
            j = rng.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
        else:
            k = rng.randrange(len(lines[i]) + 1)
            lines[i] = lines[i][:k] + rng.choice(['x', ' ', ':', '=', '<', '-', '#', '`', '|', '> ', '\t', 'ö', '--', '\\', '\r', '<<', 'ab: ', '\x0b', '\u2028']) + lines[i][k + rng.choice([0, 0, 1, 2]):]
    return '\n'.join(lines)


def plan(rng, make, reads, heavy=True):
    """steps of a simulated life of one file: authors writing versions, faults, readers at arbitrary instants"""
    block = rng.choice([4, 8, 8, 16, 16, 32, 64])
    steps, text = [], make()
    kinds = ['flush', 'crash', 'rot', 'dup', 'insert', 'swap', 'zero', 'lose', 'short', 'unsynced']
    enabled = rng.sample(kinds, rng.choice([1, 2, 3, 5]))
    mode = rng.choice(['append', 'overwrite', 'overwrite', 'replace', 'line'])
    size = len(text.encode('utf-8', 'surrogatepass'))

    def b():
        return rng.randrange(max(1, size // block + 1))

    def fault():
        f = rng.choice(enabled)
        if f == 'flush':
            steps.append(['flush', [b() for _ in range(rng.choice([1, 2, 4, 8]))]])
        elif f == 'crash':
            how = {}
            if rng.random() < .6:
                how['torn'] = [b(), rng.randrange(block)]
            if rng.random() < .5:
                how['size'] = 'new'
            if rng.random() < .6:
                steps.append(['flush', [b() for _ in range(rng.choice([1, 2, 4, 8]))]])
            steps.append(['crash', how])
        elif f == 'rot':
            steps.append(['rot', rng.randrange(max(1, size)), 1 << rng.randrange(8) if rng.random() < .7 else rng.randrange(1, 256)])
        elif f in ('dup', 'insert', 'swap'):
            steps.append([f, b(), b()])
        elif f in ('zero', 'lose'):
            steps.append([f, b()])
        elif f == 'short':
            steps.append(['read', {'limit': rng.randrange(size + 1), 'decode': rng.choice(DECODE)}])

    def read():
        steps.append(['read', {'decode': rng.choice(DECODE)}])

    def save(t):
        nonlocal size
        size = max(size, len(t.encode('utf-8', 'surrogatepass')))
        if mode == 'append':
            pieces = t.split('\n')
            steps.append(['write', ''])
            for i, p in enumerate(pieces):
                steps.append(['append', p + ('\n' if i < len(pieces) - 1 else '')])
                if rng.random() < .15:
                    fault()
                if rng.random() < .1 and nreads() < reads:
                    read()
        elif mode == 'line':
            at = 0
            for p in t.split('\n'):
                raw = p + '\n'
                if rng.random() < .7:
                    steps.append(['pwrite', at, raw])
                at += len(raw.encode('utf-8', 'surrogatepass'))
        elif mode == 'replace':
            steps.append(['write', ''])
            if rng.random() < .3:
                fault()
            steps.append(['write', t])
        else:
            steps.append(['write', t])

    def nreads():
        return sum(1 for s in steps if s[0] == 'read')

    save(text)
    if rng.random() < .8:
        steps.append(['fsync'])
    guard = 0
    while nreads() < reads and guard < 60:
        guard += 1
        roll = rng.random()
        if roll < .25:
            text = edit(rng, text) if rng.random() < .6 else make()
            save(text)
        elif roll < .6:
            fault()
        elif roll < .65:
            steps.append(['fsync'])
        else:
            read()
    return {'block': block, 'steps': steps}


def shrink(plan_, *path):
    """replace the whole life of the file by one of the texts it led to, then shrink that text"""
    from .core import shrink_text, with_
    cur = plan_
    for p in path:
        cur = cur[p]
    steps = cur['steps']
    if len(steps) == 1 and steps[0][0] == 'text':
        yield from shrink_text(plan_, *path, 'steps', 0, 1)
        return
    texts, _d = execute(cur['block'], steps)
    for t in texts:
        yield with_(plan_, path, {'block': cur['block'], 'steps': [['text', t]]})
    from .core import drop_chunks
    for smaller in drop_chunks(steps):
        yield with_(plan_, path, {'block': cur['block'], 'steps': smaller})
