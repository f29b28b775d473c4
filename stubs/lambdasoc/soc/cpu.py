class CPUSoC:
    """No BIOS can be built here: what is asked for is recorded."""
    def build(self, *args, **kwargs):
        self.__dict__.setdefault("built", []).append((args, kwargs))
