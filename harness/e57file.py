"""Independent reading and writing of E57 files (no code of the library is used).

Measures files for the specification: pages, header, sections, packets, bytestreams, XML attributes.
"""
import struct
import xml.parsers.expat

PAGE, PAYLOAD = 1024, 1020

_T = []
for _n in range(256):
    _c = _n
    for _ in range(8):
        _c = (_c >> 1) ^ (0x82F63B78 if _c & 1 else 0)
    _T.append(_c)


def crc32c(data):
    c = 0xFFFFFFFF
    t = _T
    for b in data:
        c = (c >> 8) ^ t[(c ^ b) & 255]
    return c ^ 0xFFFFFFFF


def seal(logical):
    """logical bytes -> physical bytes with checksums"""
    n = (len(logical) + PAYLOAD - 1) // PAYLOAD
    logical = bytes(logical) + b"\0" * (n * PAYLOAD - len(logical))
    out = bytearray()
    for i in range(n):
        p = logical[i * PAYLOAD:(i + 1) * PAYLOAD]
        out += p + struct.pack(">I", crc32c(p))
    return bytes(out)


def unseal(phys):
    """physical bytes -> (logical bytes, list of pages with a wrong checksum)"""
    out = bytearray()
    bad = []
    for i in range(0, len(phys), PAGE):
        p = phys[i:i + PAGE]
        out += p[:PAYLOAD]
        if len(p) < PAGE or struct.unpack(">I", p[PAYLOAD:PAGE])[0] != crc32c(p[:PAYLOAD]):
            bad.append(i // PAGE)
    return bytes(out), bad


def reseal(phys):
    """make the checksums of a modified file valid again"""
    out = bytearray()
    for i in range(0, len(phys), PAGE):
        p = phys[i:i + PAGE]
        if len(p) == PAGE:
            out += p[:PAYLOAD] + struct.pack(">I", crc32c(p[:PAYLOAD]))
        else:
            out += p
    return bytes(out)


def log2phys(o):
    return o // PAYLOAD * PAGE + o % PAYLOAD


def phys2log(o):
    return o // PAGE * PAYLOAD + min(o % PAGE, PAYLOAD)


class Elem:
    def __init__(self, name, attrs, parent):
        self.name, self.attrs, self.parent, self.kids, self.text = name, attrs, parent, [], ""

    @property
    def type(self):
        return self.attrs.get("type")

    def path(self):
        if self.parent is None:
            return ""
        n = str(self.parent.kids.index(self)) if self.parent.type == "Vector" else self.name
        return self.parent.path() + "/" + n

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


def parse_xml(data):
    root = [None]
    cur = [None]

    def start(n, at):
        e = Elem(n, dict(at), cur[0])
        if cur[0] is None:
            root[0] = e
        else:
            cur[0].kids.append(e)
        cur[0] = e

    def end(n):
        cur[0] = cur[0].parent

    def text(t):
        if cur[0] is not None:
            cur[0].text += t
    p = xml.parsers.expat.ParserCreate()
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, text
    p.buffer_text = True
    p.Parse(data, True)
    return root[0]


def header(logical):
    sig, major, minor, length, xoff, xlen, psize = struct.unpack_from("<8sIIQQQQ", logical, 0)
    return dict(sig=sig.decode("latin-1"), major=major, minor=minor, length=length, xoff=xoff, xlen=xlen, psize=psize)


def pack_header(sig=b"ASTM-E57", major=1, minor=0, length=0, xoff=0, xlen=0, psize=PAGE):
    return struct.pack("<8sIIQQQQ", sig, major, minor, length, xoff, xlen, psize)


class Leaf:
    """terminal element of a prototype"""

    def __init__(self, e, path):
        self.path = path
        self.kind = {"Integer": "int", "ScaledInteger": "int", "String": "str"}.get(e.type)
        self.min = int(e.attrs.get("minimum", -(1 << 63))) if self.kind == "int" else 0
        self.max = int(e.attrs.get("maximum", (1 << 63) - 1)) if self.kind == "int" else 0
        if e.type == "Float":
            self.kind = "f32" if e.attrs.get("precision") == "single" else "f64"
        self.scale = float(e.attrs.get("scale", 1)) if e.type == "ScaledInteger" else 1.0
        self.offset = float(e.attrs.get("offset", 0)) if e.type == "ScaledInteger" else 0.0


def leaves(e, path=""):
    out = []
    for i, k in enumerate(e.kids):
        p = path + ("/" if path else "") + (str(i) if e.type == "Vector" else k.name)
        if k.type in ("Structure", "Vector"):
            out += leaves(k, p)
        else:
            out.append(Leaf(k, p))
    return out


class File:
    """A measured file. Everything is reported as found; nothing is judged here."""

    def __init__(self, phys):
        self.phys = phys
        self.log, self.bad = unseal(phys)
        self.hdr = header(self.log) if len(self.log) >= 48 else None
        self.xml = self.root = None
        h = self.hdr
        if h and h["xoff"] < len(phys) and h["xoff"] % PAGE < PAYLOAD:
            a = phys2log(h["xoff"])
            self.xml = self.log[a:a + min(h["xlen"], len(self.log))]
            try:
                self.root = parse_xml(self.xml)
            except xml.parsers.expat.ExpatError:
                self.root = None

    def vectors(self):
        return [e for e in self.root.walk() if e.type == "CompressedVector"]

    def blobs(self):
        return [e for e in self.root.walk() if e.type == "Blob"]

    def section(self, off):
        """section header at a physical offset"""
        a = phys2log(off)
        if off % PAGE >= PAYLOAD or a + 16 > len(self.log):
            return None
        b = self.log[a:a + 32].ljust(32, b"\0")  # the header of a blob has 16 bytes
        s = dict(at=a, id=b[0], reserved=list(b[1:8]), len=struct.unpack_from("<Q", b, 8)[0])
        s["doff"], s["ioff"] = struct.unpack_from("<QQ", b, 16)
        return s

    def packets(self, sec):
        """packets from the section header up to the end of the section"""
        out = []
        a, end = sec["at"] + 32, sec["at"] + sec["len"]
        while a + 4 <= min(end, len(self.log)):
            t, flags, lm1 = struct.unpack_from("<BBH", self.log, a)
            n = lm1 + 1
            p = dict(at=a, type=t, flags=flags, len=n, lens=[], bytes=[], pad=[])
            if t == 1 and a + 6 <= len(self.log):
                cnt = struct.unpack_from("<H", self.log, a + 4)[0]
                q = a + 6 + 2 * cnt
                if q <= len(self.log):
                    p["lens"] = list(struct.unpack_from("<%dH" % cnt, self.log, a + 6))
                    for k in p["lens"]:
                        p["bytes"].append(list(self.log[q:q + k]))
                        q += k
                    p["pad"] = list(self.log[q:a + n]) if q < a + n else []
            elif t == 0:
                p["entries"] = struct.unpack_from("<H", self.log, a + 4)[0] if a + 6 <= len(self.log) else 0
                p["level"] = self.log[a + 6] if a + 6 < len(self.log) else 0
                p["recs"] = []
                for k in range(min(p["entries"], 2048)):
                    if a + 16 + 16 * (k + 1) <= len(self.log):
                        p["recs"].append(struct.unpack_from("<QQ", self.log, a + 16 + 16 * k))
            out.append(p)
            a += n
        return out


# ---------------------------------------------------------------------------------------- writing

def bits_of(values, lo, hi):
    """(value - lo) in the minimum number of bits, least significant first"""
    w = (hi - lo).bit_length()
    acc = n = 0
    out = bytearray()
    for v in values:
        acc |= (v - lo) << n
        n += w
        while n >= 8:
            out.append(acc & 255)
            acc >>= 8
            n -= 8
    if n:
        out.append(acc & 255)
    return bytes(out)


def string_bytes(s):
    return (bytes([len(s) << 1]) if len(s) <= 127 else struct.pack("<Q", (len(s) << 1) | 1)) + s


def encode(kind, values, lo=0, hi=0):
    if kind == "int":
        return bits_of(values, lo, hi)
    if kind == "f32":
        return b"".join(struct.pack("<I", v) for v in values)
    if kind == "f64":
        return b"".join(struct.pack("<Q", v) for v in values)
    return b"".join(string_bytes(v) for v in values)


def data_packet(streams, flags=0, pad_to=None):
    body = struct.pack("<H", len(streams)) + b"".join(struct.pack("<H", len(s)) for s in streams) + b"".join(streams)
    n = 4 + len(body)
    m = (n + 3) // 4 * 4
    return struct.pack("<BBH", 1, flags, m - 1) + body + b"\0" * (m - n)


def index_packet(entries, level=0):
    body = struct.pack("<HB9x", len(entries), level) + b"".join(struct.pack("<QQ", a, b) for a, b in entries)
    return struct.pack("<BBH", 0, 0, 4 + len(body) - 1) + body


def empty_packet(n=4):
    return struct.pack("<BBH", 2, 0, n - 1) + b"\0" * (n - 4)


class Builder:
    """Lays out a file: sections are added at increasing logical positions.
    far: number of pages to be left out after the first one (None: sections may also lie in the first page)"""

    def __init__(self, far=None):
        self.log = bytearray(48 if far is None else PAYLOAD)
        self.base = (far or 0) * PAYLOAD
        self.pos = {}

    def phys(self, at):
        return log2phys(at + self.base)

    def align(self, k=4):
        while len(self.log) % k:
            self.log += b"\0"

    def skip(self, n):
        self.log += b"\0" * n
        self.align()

    def add(self, name, data):
        """position of the section is reported for the XML"""
        self.align()
        at = len(self.log)
        self.log += data
        self.pos[name] = self.phys(at)
        return at

    def vector(self, name, packets, index_at=None):
        """packets: list of bytes, or functions of (list of positions of all packets) -> bytes of known length"""
        self.align()
        at = len(self.log)
        self.pos[name] = self.phys(at)
        sizes = [p[0] if isinstance(p, tuple) else len(p) for p in packets]
        starts, q = [], at + self.base + 32
        for n in sizes:
            starts.append(q)
            q += n
        body = b"".join(p[1](starts) if isinstance(p, tuple) else p for p in packets)
        ioff = log2phys(starts[index_at]) if index_at is not None else 0
        first = 0
        while packets and (isinstance(packets[first], tuple) or packets[first][0] != 1):
            first += 1
        doff = log2phys(starts[first]) if packets else 0
        self.log += struct.pack("<B7xQQQ", 1, 32 + len(body), doff, ioff) + body

    def reserve_xml(self, n):
        """room for the XML section before other sections"""
        self.align()
        self.pos["@xml"] = self.phys(len(self.log))
        self.room = (len(self.log), n)
        self.log += b" " * n

    def blob(self, name, data):
        n = 16 + len(data)
        m = (n + 3) // 4 * 4
        self.add(name, struct.pack("<B7xQ", 0, m) + data + b"\0" * (m - n))

    def finish(self, xml_text, **hdr):
        """xml_text: function of positions -> str"""
        self.align()
        at = self.pos.get("@xml")
        x = xml_text(self.pos).encode("utf-8")
        if at is None:
            at = self.phys(len(self.log))
            self.log += x
        else:
            a, k = self.room
            assert len(x) <= k
            self.log[a:a + len(x)] = x
        n = (self.base + len(self.log) + PAYLOAD - 1) // PAYLOAD * PAGE
        h = dict(length=n, xoff=at, xlen=len(x))
        h.update(hdr)
        self.log[0:48] = pack_header(**h)
        return seal(self.log)


NS = "http://www.astm.org/COMMIT/E57/2010-e57-v1.0"


def doc(body):
    return '<?xml version="1.0" encoding="UTF-8"?>\n<e57Root type="Structure" xmlns="%s">\n%s</e57Root>\n' % (NS, body)
