from amaranth import Signal


class IRQLine(Signal):
    def __init__(self, shape=1, *, name=None, src_loc_at=0, **kwargs):
        super().__init__(shape if shape is not None else 1, name=name or "irq", src_loc_at=src_loc_at)
