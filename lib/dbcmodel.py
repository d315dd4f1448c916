"""The boring reference model of a DBC file: frames, signals, bit layouts, scaling, and the text form."""
from dataclasses import dataclass, field
from decimal import Decimal
from fractions import Fraction
import re
import zlib

INTEL, MOTO = 1, 0


@dataclass
class Sig:
    name: str
    start: int
    length: int
    order: int = INTEL
    signed: bool = False
    factor: str = "1"
    offset: str = "0"
    mn: str = "0"
    mx: str = "0"
    unit: str = ""
    rec: tuple = ("N2",)
    mux: str = ""

    # ---- layout
    def bits(self):
        """Bit positions (byte*8+bit), least significant first."""
        if self.order == INTEL:
            return list(range(self.start, self.start + self.length))
        out, p = [], self.start
        for _ in range(self.length):
            out.append(p)
            p = p - 1 if p % 8 else p + 15
        return out[::-1]

    def fits(self, dlc):
        return 1 <= self.length <= 64 and self.start >= 0 and all(0 <= b < 8 * dlc for b in self.bits())

    def min_dlc(self):
        return max(self.bits()) // 8 + 1

    # ---- scaling
    @property
    def is_decimal(self):
        return bool(re.search(r"[.eE]", self.factor + self.offset))

    @property
    def plain(self):
        f, o = abs(Decimal(self.factor)), abs(Decimal(self.offset))
        tiny = Decimal("1e-9")
        if (f != 0 and f < tiny) or (o != 0 and o < tiny):
            return True
        return not self.is_decimal and f == 1 and Decimal(self.factor) == 1 and o == 0

    @property
    def field(self):
        return self.name if self.plain else self.name + "_ro"

    @property
    def phys(self):
        return None if self.plain else self.name + "_phys"

    def raw_range(self):
        if self.signed:
            return -(1 << (self.length - 1)), (1 << (self.length - 1)) - 1
        return 0, (1 << self.length) - 1

    def to_phys(self, raw):
        return Fraction(Decimal(self.factor)) * raw + Fraction(Decimal(self.offset))

    # what must not matter: the range and the unit vary with the signal unless a check sets them
    RANGES = (("0", "0"), ("0", "1"), ("0", "255"), ("-1", "1"), ("-128", "127"), ("0", "1.5"), ("100", "5"), ("-1E+3", "2e10"))
    UNITS = ("", "V", "%", "km/h", "", "1", "deg C", "")

    def decor(self):
        h = zlib.crc32(("%s %d %d %d %d %s %s" % (self.name, self.start, self.length, self.order, self.signed, self.factor, self.offset)).encode())
        mn, mx = self.RANGES[h % 8] if (self.mn, self.mx) == ("0", "0") else (self.mn, self.mx)
        return mn, mx, self.unit or self.UNITS[h // 8 % 8]

    def text(self):
        mn, mx, unit = self.decor()
        return ' SG_ %s%s : %d|%d@%d%s (%s,%s) [%s|%s] "%s" %s' % (
            self.name, " " + self.mux if self.mux else "", self.start, self.length, self.order,
            "-" if self.signed else "+", self.factor, self.offset, mn, mx, unit,
            ",".join(self.rec) or "Vector__XXX")


@dataclass
class Msg:
    name: str
    id: int                   # 29 bits
    dlc: int
    sigs: list = field(default_factory=list)
    ext: bool = False
    tx: str = "N1"

    @property
    def dbcid(self):
        return self.id | (0x80000000 if self.ext else 0)

    def head(self):
        return "BO_ %d %s: %d %s" % (self.dbcid, self.name, self.dlc, self.tx)

    def text(self):
        return "\n".join([self.head()] + [s.text() for s in self.sigs]) + "\n"

    def overlap(self):
        seen = set()
        for s in self.sigs:
            b = set(s.bits())
            if b & seen:
                return True
            seen |= b
        return False


def dbc_text(msgs, tail="", version=None, nodes="N1 N2 N3"):
    out = []
    if version is not None:
        out.append('VERSION "%s"\n\n' % version)
    out.append("BU_: %s\n\n" % nodes)
    for m in msgs:
        out.append(m.text() + "\n")
    if tail:
        out.append(tail if tail.endswith("\n") else tail + "\n")
    return "".join(out)


def all_layouts(nbytes, lens=range(1, 65), starts=None):
    """Every (start, length, order) whose bits lie inside nbytes bytes."""
    for order in (INTEL, MOTO):
        for length in lens:
            for start in (starts if starts is not None else range(8 * nbytes)):
                if start < 8 * nbytes and Sig("x", start, length, order).fits(nbytes):
                    yield start, length, order
