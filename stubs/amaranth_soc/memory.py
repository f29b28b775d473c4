from collections import namedtuple

__all__ = ["MemoryMap", "ResourceInfo"]
ResourceInfo = namedtuple("ResourceInfo", "resource name start end width")


def _align(v, bits):
    step = 1 << bits
    return (v + step - 1) // step * step


class MemoryMap:
    def __init__(self, *, addr_width, data_width, alignment=0, name=None):
        self.addr_width = addr_width
        self.data_width = data_width
        self.alignment = alignment
        self.name = name
        self._items = []          # (start, end, kind, object, name, ratio)
        self._next = 0
        self._frozen = False

    def freeze(self):
        self._frozen = True

    def align_to(self, alignment):
        self._next = _align(self._next, max(alignment, self.alignment))
        return self._next

    def _place(self, obj, addr, size, alignment, extend):
        if self._frozen:
            raise ValueError("Memory map has been frozen")
        if addr is None:
            addr = _align(self._next, alignment)
        elif addr % (1 << alignment):
            raise ValueError(f"Explicitly specified address {addr:#x} must be a multiple of {1 << alignment:#x}")
        end = addr + size
        if end > 1 << self.addr_width:
            if not extend:
                raise ValueError(f"Address range {addr:#x}..{end:#x} out of bounds for memory map of width {self.addr_width}")
            self.addr_width = (end - 1).bit_length()
        for s, e, _, o, _, _ in self._items:
            if addr < e and s < end:
                raise ValueError(f"Address range {addr:#x}..{end:#x} overlaps {s:#x}..{e:#x}")
        self._next = end
        return addr, end

    def add_resource(self, resource, *, name, size, addr=None, alignment=None, extend=False):
        alignment = self.alignment if alignment is None else max(alignment, self.alignment)
        addr, end = self._place(resource, addr, _align(max(size, 1), alignment), alignment, extend)
        names = (name,) if isinstance(name, str) else tuple(name)
        self._items.append((addr, addr + max(size, 1), "r", resource, names, 1))
        return addr, addr + max(size, 1)

    def add_window(self, window, *, addr=None, sparse=None, extend=False):
        if window.data_width > self.data_width:
            raise ValueError("window data width exceeds the memory map's")
        ratio = 1 if (sparse or window.data_width == self.data_width) else self.data_width // window.data_width
        size = (1 << window.addr_width) // ratio
        alignment = max(self.alignment, (size - 1).bit_length())
        addr, end = self._place(window, addr, max(size, 1), alignment, extend)
        window.freeze()
        self._items.append((addr, end, "w", window, None, ratio))
        return addr, end, ratio

    def resources(self):
        for s, e, k, o, n, _ in sorted(self._items, key=lambda i: i[0]):
            if k == "r":
                yield o, n, (s, e)

    def windows(self):
        for s, e, k, o, n, r in sorted(self._items, key=lambda i: i[0]):
            if k == "w":
                yield o, (s, e, r)

    def all_resources(self):
        for s, e, k, o, n, r in sorted(self._items, key=lambda i: i[0]):
            if k == "r":
                yield ResourceInfo(o, n, s, e, self.data_width)
            else:
                for i in o.all_resources():
                    name = i.name if o.name is None else (o.name, *i.name)
                    yield ResourceInfo(i.resource, name, s + i.start // r, s + (i.end + r - 1) // r, i.width * r)
