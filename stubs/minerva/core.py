from amaranth import Elaboratable, Module


class Minerva(Elaboratable):
    def __init__(self, *args, **kwargs):
        pass

    def elaborate(self, platform):
        return Module()
