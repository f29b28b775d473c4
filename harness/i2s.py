"""I2S bus models: a clock/word-select generator and reference encoders/decoders."""


class I2SClock:
    """bit clock and word select, changed asynchronously to the system clock; calls back at every bit clock edge"""
    def __init__(self, rng, slot, half, fmt, jitter):
        self.rng, self.slot, self.half, self.fmt, self.jitter = rng, slot, half, fmt, jitter
        self.sck, self.k, self.n = 0, 0, 0          # level, bit number in the slot, slot number
        self.left = False
        self.t = 0
        self.ws_delay = None
        self.ws = self._ws()
        self.edge = None

    def _ws(self):
        return int(not self.left) if self.fmt == "STD" else int(self.left)

    def step(self):
        """advance one system clock cycle; sets .edge to None/'rise'/'fall'"""
        self.edge = None
        if self.ws_delay is not None:
            if self.ws_delay == 0:
                self.ws = self._ws()
                self.ws_delay = None
            else:
                self.ws_delay -= 1
        self.t -= 1
        if self.t <= 0:
            self.t = self.half + (self.rng.randint(0, 2) if self.jitter else 0)
            self.sck ^= 1
            if self.sck:
                self.edge = "rise"
            else:
                self.edge = "fall"
                self.k += 1
                if self.k == self.slot:
                    self.k = 0
                    self.n += 1
                    self.left = not self.left
                    d = self.rng.randint(0, 1) if self.jitter else 0
                    if d == 0:
                        self.ws = self._ws()
                    else:
                        self.ws_delay = d - 1
        return self.edge
