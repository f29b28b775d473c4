from ._base import RegisterPeripheral


class AsyncSerial:
    def __init__(self, *, divisor, pins=None, **kwargs):
        self.divisor = divisor
        self.pins = pins


class AsyncSerialPeripheral(RegisterPeripheral):
    REGISTERS = (("divisor", 16, "r"), ("rx_data", 8, "r"), ("rx_rdy", 1, "r"), ("tx_data", 8, "w"), ("tx_rdy", 1, "r"))

    def __init__(self, *, core, name=None):
        self.core = core
        super().__init__(name=name)
