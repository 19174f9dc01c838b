"""Histories of container operations: generation and the model on plain sequences."""
import struct
import zlib

TYPES = [1, 3, 4, 8, 24, 40]

(V_PUSH, V_PUSH0, V_POP, V_SET_SIZE, V_ENSURE, V_INFLATE, V_INSERT1, V_INSERT_ARR, V_INSERT_SELF, V_INSERT,
 V_APPEND, V_APPEND_ARR, V_COPY1, V_COPY, V_COPY_ARR, V_REMOVE, V_EXTRACT, V_REVERSE, V_CLEAR, V_FINI,
 V_QSORT, V_BSEARCH, V_GET, V_INIT_WITH, V_INIT0, V_SHRINK, V_HEAP, V_BIT) = range(28)
P_CLEAR, P_NOISE = 40, 41
(C_APPEND_ARR, C_PUSH, C_APPEND, C_APPEND_STR, C_PRINTF, C_POP, C_CLEAR, C_CSTR, C_SWAP, C_FINI,
 C_SPRINTF, C_SWRITE, C_APPEND_SELF) = range(50, 63)
F_OPEN, F_PRINTF, F_WRITE, F_CLOSE = range(70, 74)

M32 = 0xffffffff


def elem_byte(v, k):
    return ((v + (v >> 8) * 31) * (2 * k + 1) + k) & 0xff


def elem(v, esz):
    v &= M32
    return bytes(elem_byte(v, k) for k in range(esz))


def text(v, n):
    return bytes(33 + ((v + i * 7 + (v >> 5) * i) & 0xffffffffffffffff) % 90 for i in range(n))


def s32(v):
    return v - (1 << 32) if v & 0x80000000 else v


def encode(slots, bs, ops):
    o = [bytes([len(slots)])]
    for t, m in slots:
        o.append(bytes([t, m]))
    o.append(struct.pack('<I', bs))
    for op in ops:
        o.append(struct.pack('<BBBBIII', *op))
    return b''.join(o)


class Model:
    def __init__(self, slots):
        self.slots = slots
        self.v = [[] for _ in slots]
        self.s = [bytearray() for _ in range(4)]
        self.open = False
        self.file = b''
        self.heap_h = 0

    def fmt(self, x, a, b, c):
        t, u = text(b, a % 60), text(c, b % 60)
        k = x >> 1
        T, U = t.decode(), u.decode()
        if k == 0:
            r = '%d' % s32(a)
        elif k == 1:
            r = '<%d>' % a
        elif k == 2:
            r = T
        elif k == 3:
            r = '%5d|%-7d|%s' % (s32(a), s32(b), U)
        elif k == 4:
            r = '%g' % (float(s32(a)) / (1.0 + b % 1000))
        elif k == 5:
            r = '%.3f %s' % (float(s32(a)) / 64.0, T)
        elif k == 6:
            r = chr(33 + a % 90) + chr(33 + b % 90)
        elif k == 7:
            r = '100%'
        elif k == 8:
            r = T[:c % 70]
        elif k == 9:
            r = '%0*d' % (c % 300, s32(a))
        elif k == 10:
            r = '%x:%d' % (a, b * 1000003)
        elif k == 11:
            r = T + U + T
        elif k == 12:
            r = ''
        elif k == 13:
            r = '%d %s %d' % (a, U, c)
        else:
            r = '%*d' % (c % 3000, s32(b))
        return r.encode()

    def vec(self, op, s, t, x, a, b, c):
        n = len(self.slots)
        s, t = s % n, t % n
        if self.slots[s][0] != self.slots[t][0]:
            t = s
        esz = TYPES[self.slots[s][0]]
        v, w = self.v[s], self.v[t]
        size = len(v)
        if size > 1500:
            op = V_CLEAR
        zero = b'\0' * esz
        pos = a % (size + 1)
        crc = zlib.crc32
        if op == V_PUSH:
            v.append(elem(c, esz))
            return crc(v[-1])
        if op == V_PUSH0:
            v.append(zero)
            return crc(zero)
        if op == V_POP:
            return crc(v.pop()) if v else 0
        if op in (V_SET_SIZE, V_ENSURE):
            k = a % 41
            if op == V_SET_SIZE:
                k += a % 300 if b % 8 == 0 else 0
                del v[k:]
            v += [zero] * (k - len(v))
        elif op == V_INFLATE:
            v[pos:pos] = [zero] * (b % 9)
        elif op == V_INSERT1:
            v.insert(pos, elem(c, esz))
        elif op == V_INSERT_ARR:
            v[pos:pos] = [elem(c + i, esz) for i in range(b % 30)]
        elif op == V_APPEND_ARR:
            v += [elem(c + i, esz) for i in range(b % 30)]
        elif op == V_INSERT_SELF:
            src = b % (size + 1)
            k = c % (size - src + 1)
            v[pos:pos] = v[src:src + k]
        elif op == V_INSERT:
            v[pos:pos] = list(w)
        elif op == V_APPEND:
            v += list(w)
        elif op == V_COPY1:
            v[pos:pos + 1] = [elem(c, esz)]
        elif op == V_COPY:
            src = b % (len(w) + 1)
            k = len(w) if c % 5 == 0 else c % 40
            d = w[src:src + k]
            v[pos:pos + len(d)] = d
        elif op == V_COPY_ARR:
            src = b % (len(w) + 1)
            k = min(len(w) - src, size - pos)
            k = c % (k + 1)
            v[pos:pos + k] = w[src:src + k]
        elif op == V_REMOVE:
            if size:
                k = size if b % 7 == 0 else b % 9
                del v[pos:pos + k]
        elif op == V_EXTRACT:
            return crc(v.pop(a % size)) if size else 0
        elif op == V_REVERSE:
            if size:
                k = size if b % 5 == 0 else b % 20
                v[pos:pos + k] = v[pos:pos + k][::-1]
        elif op == V_CLEAR:
            del v[:]
        elif op == V_FINI:
            del v[:]
            return 1
        elif op == V_QSORT:
            if size:
                k = size if b % 3 else b % 20
                v[pos:pos + k] = sorted(v[pos:pos + k])
        elif op == V_BSEARCH:
            if size == 0:
                return 0
            v.sort()
            e = v[a % size] if b & 1 else elem(c, esz)
            return 1 if e in v else 0
        elif op == V_GET:
            return crc(v[a % size]) if size else 0
        elif op == V_INIT_WITH:
            v[:] = [elem(c + i, esz) for i in range(b % 30 + 1)]
        elif op == V_INIT0:
            v[:] = [zero] * (b % 30 + 1)
        elif op == V_HEAP:
            h, r = 0, c
            v.sort()
            for _ in range(b % 40):
                r = (r * 1664525 + 1013904223) & M32
                k = (r >> 16) % 5
                if k <= 2:
                    v.append(elem(r >> 8, esz))
                    v.sort()
                elif v and k == 3:
                    h = crc(v.pop(0), h)
                elif v:
                    v[(r >> 4) % len(v) if len(v) <= 200 else 0] = elem(r >> 8, esz)
                    v.sort()
            return h
        elif op == V_BIT and esz in (4, 8):
            if size == 0:
                return 0
            i = a % (size * 8 * esz)
            e, k = i // (8 * esz), i % (8 * esz)
            val = int.from_bytes(v[e], 'little')
            was = val >> k & 1
            val = (val | 1 << k) if b & 1 else (val & ~(1 << k))
            v[e] = val.to_bytes(esz, 'little')
            return was
        return 0

    def strop(self, op, s, t, x, a, b, c):
        s, t = s % 4, t % 4
        v, w = self.s[s], self.s[t]
        if len(v) > 20000:
            op = C_CLEAR
        arr = bytes(elem_byte((c + k) & M32, 0) for k in range(a % 70)) if op in (C_APPEND_ARR, C_SWRITE) else b''
        if op in (C_APPEND_ARR, C_SWRITE):
            v += arr
        elif op == C_PUSH:
            v.append(elem_byte(c, 1))
        elif op == C_APPEND:
            v += bytes(w)
        elif op == C_APPEND_STR:
            v += text(b, a % 200)
        elif op in (C_PRINTF, C_SPRINTF):
            v += self.fmt(x, a, b, c)
        elif op == C_POP:
            return v.pop() if v else 0
        elif op == C_CLEAR:
            del v[:]
        elif op == C_CSTR:
            return zlib.crc32(bytes(v).split(b'\0')[0])
        elif op == C_SWAP:
            self.s[s], self.s[t] = self.s[t], self.s[s]
        elif op == C_FINI:
            del v[:]
            return 1
        elif op == C_APPEND_SELF:
            p = a % (len(v) + 1)
            k = b % (len(v) - p + 1)
            v += bytes(v[p:p + k])
        return 0

    def fop(self, op, s, t, x, a, b, c):
        if not self.open:
            if op == F_CLOSE:
                return 0
            if op == F_OPEN and x & 1:
                self.file = b''
            self.open = True
        if op == F_PRINTF:
            self.file += self.fmt(x, a, b, c)
        elif op == F_WRITE:
            self.file += bytes(elem_byte((c + k) & M32, 0) for k in range(a % 4000))
        elif op == F_CLOSE:
            self.open = False
        return 0

    def run(self, ops):
        """the expected log"""
        log = []
        for i, o in enumerate(ops):
            op = o[0]
            r = 0
            if op < P_CLEAR:
                if not self.slots:
                    continue
                r = self.vec(*o)
            elif op == P_CLEAR:
                for j, sl in enumerate(self.slots):
                    if sl[1] == (o[1] & 1) + 1:
                        del self.v[j][:]
            elif op == P_NOISE:
                pass
            elif op < F_OPEN:
                r = self.strop(*o)
            else:
                r = self.fop(*o)
            h, n = 0, 0
            for v in self.v:
                h = zlib.crc32(struct.pack('<Q', len(v)), h)
                if v:
                    h = zlib.crc32(b''.join(v), h)
                n += len(v)
            for v in self.s:
                h = zlib.crc32(struct.pack('<Q', len(v)), h)
                if v:
                    h = zlib.crc32(v, h)
                n += len(v)
            log.append('H %d %d r=%x n=%d c=%x' % (i, op, r, n, h))
        return log


GROW = [V_PUSH] * 4 + [V_PUSH0, V_INFLATE, V_INSERT1, V_INSERT1, V_INSERT_ARR, V_APPEND_ARR, V_COPY1]
SELF = [V_INSERT_SELF] * 4 + [V_INSERT, V_APPEND, V_COPY, V_COPY, V_COPY_ARR]
SHRINK = [V_POP, V_POP, V_REMOVE, V_EXTRACT, V_SET_SIZE, V_CLEAR]
REST = [V_ENSURE, V_REVERSE, V_QSORT, V_BSEARCH, V_GET, V_INIT_WITH, V_INIT0, V_SHRINK, V_HEAP, V_BIT, V_FINI]
STR = [C_APPEND_ARR] * 2 + [C_PUSH] * 2 + [C_APPEND, C_APPEND_STR, C_PRINTF, C_PRINTF, C_PRINTF, C_POP, C_CLEAR, C_CSTR, C_SWAP, C_FINI,
                                           C_SPRINTF, C_SWRITE, C_APPEND_SELF]
FILE = [F_OPEN, F_PRINTF, F_PRINTF, F_PRINTF, F_WRITE, F_WRITE, F_CLOSE]


def gen_seq(r, size):
    ns = r.choice([1, 2, 2, 3, 4, 6])
    types = [r.randrange(6)] * ns if r.random() < .6 else [r.randrange(6) for _ in range(ns)]
    mem = r.choice([[0], [1], [0, 1], [0, 1, 2], [1, 2]])
    slots = [[t, r.choice(mem)] for t in types]
    prof = r.choice(['vec', 'vec', 'vec', 'self', 'str', 'file', 'mixed'])
    bag = {'vec': GROW * 2 + SELF + SHRINK + REST, 'self': GROW + SELF * 3 + SHRINK[:3], 'str': STR, 'file': FILE * 3 + STR,
           'mixed': GROW + SELF + SHRINK + REST + STR + FILE}[prof]
    if any(m for _, m in slots):
        bag = bag + [P_NOISE] * r.choice([0, 1, 3]) + [P_CLEAR] * r.choice([0, 0, 1])
    n = r.choice([5, 15, 40, 120, 250]) * size
    small = r.random() < .5
    ops = []
    for _ in range(n):
        op = r.choice(bag)
        x = r.randrange(30)
        c = r.randrange(40) if small else r.randrange(1 << 32)
        if op in (C_APPEND_ARR, C_PUSH, C_SWRITE) and r.random() < .7:
            c = 1 + r.randrange(200)
        ops.append([op, r.randrange(ns if op < 50 else 4), r.randrange(ns if op < 50 else 4), x,
                    r.choice([0, 0, r.randrange(1 << 32), r.randrange(1 << 32), r.randrange(300)]), r.randrange(1 << 32), c])
    bs = r.choice([0, 0, 1, 100, 4096, 5000, 65536])
    return slots, bs, ops


def gen_pool(r, size):
    n = r.choice([5, 20, 60, 200, 400]) * size
    bag = [0] * r.choice([1, 6]) + [1] * r.choice([0, 2]) + [2, 3, 4, 5, 5, 6, 6, 7, 8] + [9] * r.choice([0, 1, 2]) + [10] * r.choice([0, 1])
    sizes = r.choice([None, None, 5, 27])
    ops = []
    for _ in range(n):
        a = r.randrange(1 << 14)
        if sizes:
            a = r.randrange(sizes)
        ops.append([r.choice(bag), r.randrange(2), r.randrange(256), 0, a, r.randrange(1 << 30), r.randrange(1 << 30)])
    bs = [r.choice([0, 0, 0, 1, 100, 4096, 5000, 65536, 1 << 20]) for _ in range(2)]
    return bs, ops


def gen_glob(r, size):
    n = r.choice([5, 20, 60, 200]) * size
    return [[r.randrange(11), 0, 0, 0, r.randrange(1 << 14), r.randrange(1 << 30), r.randrange(1 << 30)] for _ in range(n)]


def encode_pool(bs, ops):
    return struct.pack('<II', *bs) + b''.join(struct.pack('<BBBBIII', *op) for op in ops)


# ordered containers: sim/history_ord.c does each operation on a plain sequence, too

(D_INSERT, D_REF, D_AT, D_FIND, D_REMOVE, D_EXTRACT, D_SWAP, D_JOIN3, D_JOIN2, D_SPLIT, D_EACHRM, D_STEP, D_FILL, D_DRAIN, D_RELABEL, D_GROW) = range(16)
(H_INSERT, H_EXTRACT, H_REMOVE, H_REPLACE, H_UPDATE, H_MAKE, H_FILL, H_DRAIN, H_FINI) = range(9)
(L_CHAIN, L_REMOVE, L_EACH, L_EACHRM, L_EACHREV) = range(5)


def gen_ord(r):
    kind = r.choice(['dict', 'dict', 'dict', 'dict', 'dict', 'dict', 'heap', 'heap', 'list', 'list', 'points'])
    n = r.choice([5, 15, 40, 120, 250])
    ops = []
    rng = r.choice([1, 2, 5, 20, 100, 1000, 65536]) - 1
    if kind == 'dict':
        prof = r.choice(['plain', 'bulk', 'mixed', 'mixed'])
        bag = {'plain': [D_INSERT] * 5 + [D_REF, D_AT, D_FIND, D_FIND, D_REMOVE, D_REMOVE, D_REMOVE, D_EXTRACT, D_STEP, D_FILL, D_DRAIN],
               'bulk': [D_FILL, D_FILL, D_GROW, D_JOIN3, D_JOIN3, D_JOIN2, D_SPLIT, D_SPLIT, D_SPLIT, D_DRAIN, D_RELABEL, D_EACHRM, D_REMOVE, D_INSERT],
               'mixed': list(range(16)) + [D_INSERT] * 3 + [D_REMOVE] * 2 + [D_FILL, D_SPLIT, D_SWAP]}[prof]
        nt = r.choice([1, 2, 4]) if prof == 'plain' else r.choice([2, 3, 4])
        head = bytes([r.randrange(2), rng & 255, rng >> 8, 0, 0, 0, 0, 0])
    elif kind == 'heap':
        bag = r.choice([[H_INSERT] * 3 + [H_EXTRACT, H_EXTRACT, H_REMOVE, H_REPLACE, H_UPDATE, H_UPDATE],
                        [H_FILL, H_FILL, H_DRAIN, H_REMOVE, H_REPLACE, H_UPDATE, H_MAKE, H_INSERT, H_EXTRACT, H_FINI],
                        [H_INSERT, H_EXTRACT, H_REMOVE, H_REPLACE, H_REPLACE, H_UPDATE, H_UPDATE, H_FILL, H_MAKE]])
        nt = 1
        head = bytes([r.choice([0, 0, 1, 19]), rng & 255, rng >> 8, 0, 0, 0, 0, 0])
    elif kind == 'points':
        bag = [0] * r.choice([1, 4]) + [1] * r.choice([0, 1]) + [2, 3]
        nt = r.choice([1, 2])
        head = bytes([0, r.choice([0, 1, 3, 8, 255]), 0, r.choice([0, 3, 64]), r.randrange(4), 0, 0, 0])
    else:
        bag = [L_CHAIN] * r.choice([2, 5]) + [L_REMOVE] * r.choice([1, 2]) + [L_EACH, L_EACHRM, L_EACHREV]
        nt = 1
        head = bytes([r.choice([1, 3, 8, 20, 59]), 0, 0, 0, 0, 0, 0, 0])
    for _ in range(n):
        ops.append([r.choice(bag), r.randrange(nt), r.randrange(nt), r.randrange(256), r.randrange(1 << 20), r.randrange(1 << 20), r.randrange(1 << 20)])
    return kind, head, ops


def encode_ord(head, ops):
    return head + b''.join(struct.pack('<BBBBIII', *op) for op in ops)
