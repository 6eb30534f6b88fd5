"""Wishbone B4 signature/interface, member-for-member as in amaranth-soc."""
import enum

from amaranth.lib import wiring
from amaranth.lib.wiring import In, Out

__all__ = ["Feature", "Signature", "Interface"]


class Feature(enum.Enum):
    ERR = "err"
    RTY = "rty"
    STALL = "stall"
    LOCK = "lock"
    CTI = "cti"
    BTE = "bte"


class Signature(wiring.Signature):
    def __init__(self, *, addr_width, data_width, granularity=None,
                 features=frozenset()):
        if granularity is None:
            granularity = data_width
        if not isinstance(addr_width, int) or addr_width < 0:
            raise TypeError("addr_width must be a non-negative integer")
        if data_width not in (8, 16, 32, 64):
            raise ValueError("data_width must be 8, 16, 32 or 64")
        if granularity not in (8, 16, 32, 64):
            raise ValueError("granularity must be 8, 16, 32 or 64")
        if granularity > data_width:
            raise ValueError("granularity may not exceed data_width")
        self._addr_width = addr_width
        self._data_width = data_width
        self._granularity = granularity
        self._features = frozenset(Feature(f) for f in features)
        members = {
            "adr": Out(addr_width),
            "dat_w": Out(data_width),
            "dat_r": In(data_width),
            "sel": Out(data_width // granularity),
            "cyc": Out(1),
            "stb": Out(1),
            "we": Out(1),
            "ack": In(1),
        }
        for f, m in (("err", In(1)), ("rty", In(1)), ("stall", In(1)),
                     ("lock", Out(1)), ("cti", Out(3)), ("bte", Out(2))):
            if Feature(f) in self._features:
                members[f] = m
        super().__init__(members)

    addr_width = property(lambda self: self._addr_width)
    data_width = property(lambda self: self._data_width)
    granularity = property(lambda self: self._granularity)
    features = property(lambda self: self._features)

    def create(self, *, path=None, src_loc_at=0):
        return Interface(addr_width=self.addr_width,
                         data_width=self.data_width,
                         granularity=self.granularity,
                         features=self.features, path=path,
                         src_loc_at=1 + src_loc_at)

    def __eq__(self, other):
        return (isinstance(other, Signature) and
                self.addr_width == other.addr_width and
                self.data_width == other.data_width and
                self.granularity == other.granularity and
                self.features == other.features)

    def __repr__(self):
        return f"wishbone.Signature({self.members!r})"


class Interface(wiring.PureInterface):
    def __init__(self, *, addr_width, data_width, granularity=None,
                 features=frozenset(), path=None, src_loc_at=0):
        super().__init__(Signature(addr_width=addr_width,
                                   data_width=data_width,
                                   granularity=granularity,
                                   features=features),
                         path=path, src_loc_at=1 + src_loc_at)
        self._memory_map = None

    addr_width = property(lambda self: self.signature.addr_width)
    data_width = property(lambda self: self.signature.data_width)
    granularity = property(lambda self: self.signature.granularity)
    features = property(lambda self: self.signature.features)

    @property
    def memory_map(self):
        if self._memory_map is None:
            raise AttributeError("no memory map")
        return self._memory_map

    @memory_map.setter
    def memory_map(self, mm):
        self._memory_map = mm
