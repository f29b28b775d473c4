from ._base import RegisterPeripheral


class TimerPeripheral(RegisterPeripheral):
    def __init__(self, width, *, name=None):
        self.width = width
        self.REGISTERS = (("reload", width, "rw"), ("en", 1, "rw"), ("ctr", width, "rw"))
        super().__init__(name=name)
