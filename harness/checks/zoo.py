"""One instance of (nearly) every module of amlib, with its inputs and outputs, for properties that concern all of them."""
import contextlib
import io

# name: (inputs, outputs as (path, path of the signal that says when it is meaningful))
STREAM_OUT = [("valid", None), ("payload", "valid"), ("first", "valid"), ("last", "valid")]


def sout(p):
    return [(f"{p}.{x}", v and f"{p}.{v}") for x, v in STREAM_OUT]


class Mod:
    """dut, inputs {name: (signal, idle value, choices or None)}, outputs {name: (signal, validity signal or None)}."""
    def __init__(self, dut, ins, outs, args=(), script=None):
        self.dut, self.args, self.script = dut, args, script      # script(rng): endless protocol traffic, as {input: value} per cycle
        self.ins = {}
        for i in ins:
            path, idle, choices = i if isinstance(i, tuple) else (i, 0, None)
            self.ins[path if isinstance(path, str) else path.name] = (self.find(path), idle, choices)
        self.outs = {}          # name: (signal, signal that tells when it is meaningful or None, whether that is active low)
        for o in outs:
            path, v = o if isinstance(o, tuple) else (o, None)
            self.outs[path if isinstance(path, str) else path.name] = (self.find(path), None if v is None else self.find(v.lstrip("~") if isinstance(v, str) else v), isinstance(v, str) and v.startswith("~"))

    def find(self, path):
        from amaranth import Signal
        if isinstance(path, Signal):
            return path
        o = self.dut
        for p in path.replace("[", ".[").split("."):
            if p.startswith("["):
                o = o[int(p[1:-1])]
            elif isinstance(o, dict):
                o = o[p]
            else:
                o = getattr(o, p)
        if not isinstance(o, Signal):
            o = o.as_value()
        return o


def _pads():
    from amaranth import Record

    class Pads:
        pass
    p = Pads()
    for n in ("scl", "sda"):
        setattr(p, n, Record([("i", 1), ("o", 1), ("oe", 1)], name=f"{n}_"))
    return p


def _on_bus(make):
    """A module on an open drain bus, which the other side may pull low."""
    from amaranth import Elaboratable, Module, Signal
    p = _pads()

    class OnBus(Elaboratable):
        def __init__(self):
            self.core = make(p)
            self.scl, self.sda = Signal(name="scl_i", reset=1), Signal(name="sda_i", reset=1)

        def elaborate(self, platform):
            m = Module()
            m.submodules.core = self.core
            m.d.comb += [p.scl.i.eq(self.scl & ~(p.scl.oe & ~p.scl.o)), p.sda.i.eq(self.sda & ~(p.sda.oe & ~p.sda.o))]
            return m
    d = OnBus()
    return d, [(d.scl, 1, None), (d.sda, 1, None)], [(p.scl.oe, None), (p.scl.o, p.scl.oe), (p.sda.oe, None), (p.sda.o, p.sda.oe)]


def build(name, rng):
    with contextlib.redirect_stdout(io.StringIO()):
        return globals()["m_" + name](rng)


def m_uart_rx(r):
    from amlib.io.serial import AsyncSerialRX
    d = AsyncSerialRX(divisor=r.choice([5, 6, 8]), data_bits=r.choice([5, 8, 9]), parity=r.choice(["none", "even", "odd", "mark", "space"]))
    return Mod(d, [("i", 1, None), "ack", ("divisor", d.divisor.reset, [d.divisor.reset])], [("rdy", None), ("data", "rdy"), ("err.overflow", "rdy"), ("err.frame", "rdy"), ("err.parity", "rdy")],
               script=uart_script("i", d.divisor.reset, len(d.data) + r.choice([0, 1])))


def m_uart_tx(r):
    from amlib.io.serial import AsyncSerialTX
    d = AsyncSerialTX(divisor=r.choice([5, 6, 8]), data_bits=r.choice([5, 8, 9]), parity=r.choice(["none", "even", "odd", "mark", "space"]))
    return Mod(d, ["data", "ack", ("divisor", d.divisor.reset, [d.divisor.reset])], ["o", "rdy"])


def m_uart(r):
    from amlib.io.serial import AsyncSerial
    d = AsyncSerial(divisor=r.choice([5, 7]))
    return Mod(d, [("rx.i", 1, None), "rx.ack", "tx.data", "tx.ack", ("divisor", d.divisor.reset, [d.divisor.reset])], ["tx.o", "tx.rdy", "rx.rdy", ("rx.data", "rx.rdy")], script=uart_script("rx.i", d.divisor.reset, 8))


def m_i2c_initiator(r):
    from amlib.io.i2c import I2CInitiator
    period, stretch = r.choice([8, 16]), r.random() < .5
    d, i, o = _on_bus(lambda p: I2CInitiator(p, period, clk_stretch=stretch))

    def commands(r):
        while True:
            for c in ["start"] + [r.choice(["read", "write"]) for _ in range(r.choice([1, 3]))] + ["stop"]:
                for _ in range(r.choice([1, 1, 3])):
                    yield {**dict.fromkeys(("core.start", "core.stop", "core.read", "core.write"), 0), "core." + c: 1, "core.data_i": r.getrandbits(8), "scl_i": 1}
                for _ in range(r.choice([2, 4, 12, 12]) * period):
                    yield {**dict.fromkeys(("core.start", "core.stop", "core.read", "core.write"), 0), "sda_i": int(r.random() < .9), "scl_i": 1}
    return Mod(d, i + ["core." + x for x in ("start", "stop", "read", "write", "data_i", "ack_i")], o + ["core.busy", "core.data_o", "core.ack_o"], script=commands)


def m_i2c_target(r):
    from amlib.io.i2c import I2CTarget
    d, i, o = _on_bus(I2CTarget)
    return Mod(d, i + [("core.address", 0, [0, 127]), "core.ack_o", "core.data_o"], o + ["core." + x for x in ("start", "stop", "restart", "write", "read", "data_i", "ack_i")], script=i2c_script)


def m_i2c_stream(r):
    from amlib.stream.i2c import I2CStreamTransmitter
    d, i, o = _on_bus(lambda p: I2CStreamTransmitter(p, 8, fifo_depth=4))

    def quiet(r):
        while True:
            yield {"scl_i": 1, "sda_i": int(r.random() < .97)}
    return Mod(d, i + ["core.stream_in." + x for x in ("valid", "payload", "first", "last")], o + ["core.stream_in.ready"], script=quiet)


def m_i2s_tx(r):
    from amlib.io.i2s import I2STransmitter
    width = r.choice([8, 16])
    return Mod(I2STransmitter(sample_width=width, fifo_depth=8), ["enable_in", "stream_in.valid", "stream_in.first", "stream_in.last", "stream_in.payload", "word_select_in", "serial_clock_in"],
               ["stream_in.ready", "serial_data_out", "underflow_out", "mismatch_out", "fifo_level_out"], script=i2s_script(width, width + 2))


def m_i2s_rx(r):
    from amlib.io.i2s import I2SReceiver
    width = r.choice([8, 16])
    return Mod(I2SReceiver(sample_width=width, fifo_depth=8), ["enable_in", "stream_out.ready", "word_select_in", "serial_clock_in", "serial_data_in"], sout("stream_out") + ["fifo_level_out"], script=i2s_script(width, width + 2, True))


def m_led_array(r):
    from amlib.io.max7219 import SerialLEDArray
    d = SerialLEDArray(divisor=10, init_delay=6, no_modules=r.choice([1, 2]))
    return Mod(d, ["valid_in", "spi_bus_out.sdi"] + [f"digits_in[{i}]" for i in range(len(list(d.digits_in)))], ["spi_bus_out.sck", "spi_bus_out.sdo", "spi_bus_out.cs"])


def m_spi_controller(r):
    from amlib.io.spi import SPIControllerInterface
    d = SPIControllerInterface(divisor=12, word_size=r.choice([8, 12]), clock_polarity=r.choice([0, 1]), clock_phase=r.choice([0, 1]), msb_first=r.random() < .5, cs_idles_high=r.random() < .5)
    return Mod(d, ["spi.sdi", "word_out", "start_transfer"], ["spi.sck", "spi.sdo", "spi.cs", "word_accepted", "word_complete", ("word_in", "word_complete")])


def _spi_in(d):
    return [("spi.sck", getattr(d, "clock_polarity", 0), None), ("spi.sdi", 0, None), ("spi.cs", int(getattr(d, "cs_idles_high", False)), None)]


def m_spi_device(r):
    from amlib.io.spi import SPIDeviceInterface
    d = SPIDeviceInterface(word_size=r.choice([8, 5]), clock_polarity=r.choice([0, 1]), clock_phase=r.choice([0, 1]), msb_first=r.random() < .5, cs_idles_high=r.random() < .5)
    return Mod(d, _spi_in(d) + ["word_out"], ["spi.sdo", "word_accepted", "word_complete", ("word_in", "word_complete")], script=spi_script(d, [d.word_size, 2 * d.word_size]))


def m_spi_command(r):
    from amlib.io.spi import SPICommandInterface
    d = SPICommandInterface(command_size=r.choice([4, 8]), word_size=r.choice([8, 16]))
    return Mod(d, _spi_in(d) + ["word_to_send"], ["spi.sdo", "command_ready", ("command", "command_ready"), "word_complete", ("word_received", "word_complete"), "idle", "stalled"], script=spi_script(None, [d.command_size, d.command_size + d.word_size]))


def m_spi_registers(r):
    from amaranth import Signal
    from amlib.io.spi import SPIRegisterInterface
    d = SPIRegisterInterface(address_size=3, register_size=8, default_read_value=r.getrandbits(8))
    a = d.add_register(1, reset=r.getrandbits(8))
    ro = Signal(8, name="readonly")
    d.add_read_only_register(2, read=ro)
    ws, rs = Signal(name="wstrobe"), Signal(name="rstrobe")
    bb = d.add_register(5, write_strobe=ws, read_strobe=rs)
    return Mod(d, _spi_in(d) + [ro], ["spi.sdo", a, bb, ws, rs, "idle", "stalled"], script=spi_script(None, [12, 12, 12, 4]))


def m_debouncer(r):
    from amlib.io.debouncer import Debouncer
    return Mod(Debouncer(), ["btn_in"], ["btn_state_out", "btn_down_out", "btn_up_out"])


def m_nibble(r):
    from amlib.io.led import NibbleToSevenSegmentHex
    return Mod(NibbleToSevenSegmentHex(), ["nibble_in"], ["seven_segment_out"])


def m_number(r):
    from amlib.io.led import NumberToSevenSegmentHex
    return Mod(NumberToSevenSegmentHex(r.choice([16, 32]), True), ["number_in", "dots_in"], ["seven_segment_out"])


def m_bar(r):
    from amlib.io.led import NumberToBitBar
    return Mod(NumberToBitBar(3, r.choice([40, 90]), 8), ["value_in"], ["bitbar_out"])


def m_ws2812(r):
    from amlib.io.ws2812 import WS2812
    return Mod(WS2812(sys_clock_freq=4e6, no_leds=r.choice([1, 3])), ["red_in", "green_in", "blue_in", "led_address_in", "write_enable_in", "start_in"], ["data_out", "done_out"])


def _streams(n, **kw):
    from amlib.stream import StreamInterface
    return [StreamInterface(name=f"s{i}", **kw) for i in range(n)]


def _sin(s):
    return [s.valid, s.payload, s.first, s.last]


def m_stream_mux(r):
    from amlib.stream.arbiter import StreamMultiplexer
    d = StreamMultiplexer()
    s = _streams(r.choice([2, 3]))
    for x in s:
        d.add_input(x)
    return Mod(d, [p for x in s for p in _sin(x)] + ["output.ready"], sout("output") + [x.ready for x in s])


def m_stream_arbiter(r):
    from amlib.stream.arbiter import StreamArbiter
    d = StreamArbiter()
    s = _streams(r.choice([2, 3, 4]))
    for x in s:
        d.add_stream(x)
    return Mod(d, [p for x in s for p in _sin(x)] + ["source.ready"], sout("source") + ["idle"] + [x.ready for x in s])


def m_bus_mux(r):
    from amaranth import Record
    from amlib.utils import OneHotMultiplexer

    class Bus(Record):
        def __init__(self, name=None):
            super().__init__([("valid", 1), ("payload", 8), ("flag", 1), ("ready", 1)], name=name)
    d = OneHotMultiplexer(interface_type=Bus, mux_signals=["payload"], or_signals=("valid", "flag"), pass_signals=("ready",))
    s = [Bus(name=f"b{i}") for i in range(3)]
    d.add_interfaces(s)
    return Mod(d, [p for x in s for p in (x.valid, x.payload, x.flag)] + ["output.ready"], ["output.valid", "output.payload", "output.flag"] + [x.ready for x in s])


def m_uart_stream(r):
    from amlib.stream.uart import UARTTransmitter
    return Mod(UARTTransmitter(divisor=r.choice([2, 5])), ["stream.valid", "stream.payload"], ["tx", "driving", "stream.ready", "idle"])


def m_uart_words(r):
    from amlib.stream.uart import UARTMultibyteTransmitter
    return Mod(UARTMultibyteTransmitter(byte_width=r.choice([1, 2, 4]), divisor=r.choice([2, 5])), ["stream.valid", "stream.payload"], ["tx", "stream.ready", "idle"])


def m_uart_bus(r):
    from amlib.stream.uart import UARTTransmitterPeripheral
    return Mod(UARTTransmitterPeripheral(r.choice([2, 5])), ["bus.dat_w", "bus.cyc", "bus.stb", "bus.we"], ["tx", "bus.ack"])


def m_generator(r):
    from amlib.stream.generator import ConstantStreamGenerator
    data = bytes(r.getrandbits(8) for _ in range(r.choice([5, 16])))
    return Mod(ConstantStreamGenerator(data, max_length_width=8), ["start", "stream.ready", "start_position", "max_length"], sout("stream") + ["done", "output_length"], [data])


def m_generator_words(r):
    from amlib.stream import StreamInterface
    from amlib.stream.generator import ConstantStreamGenerator

    class Words(StreamInterface):
        def __init__(self, **kw):
            super().__init__(payload_width=32, valid_width=4, **kw)
    data = bytearray(r.getrandbits(8) for _ in range(r.choice([5, 16])))
    return Mod(ConstantStreamGenerator(data, stream_type=Words, data_endianness="big"), ["start", "stream.ready", "start_position"], sout("stream") + ["done"], [data])


def m_serializer(r):
    from amlib.stream.generator import StreamSerializer
    d = StreamSerializer(r.choice([3, 6]), max_length_width=4)
    return Mod(d, ["start", "stream.ready", "max_length"] + [f"data[{i}]" for i in range(d.data_length)], sout("stream") + ["done"])


def m_packets(r):
    from amlib.stream.generator import PacketListStreamer
    data = [bytes(r.getrandbits(8) for _ in range(r.choice([1, 2, 5]))) for _ in range(r.choice([1, 2, 4]))]
    return Mod(PacketListStreamer(data), ["start", "stream.ready"], sout("stream") + ["done"], [data])


def m_edge(r):
    from amlib.utils.edgetopulse import EdgeToPulse
    return Mod(EdgeToPulse(), ["edge_in"], ["pulse_out"])


def m_nrzi(r):
    from amlib.utils.nrziencoder import NRZIEncoder
    return Mod(NRZIEncoder(), ["data_in"], ["nrzi_out"])


def m_clock_divider(r):
    from amlib.utils.clockdivider import SimpleClockDivider
    return Mod(SimpleClockDivider(r.choice([2, 6, 10]), clock_polarity=r.choice([0, 1])), ["clock_enable_in"], ["clock_out"])


def m_shift_in(r):
    from amlib.utils.shiftregister import InputShiftRegister
    return Mod(InputShiftRegister(r.choice([3, 8])), ["enable_in", "bit_in", "clear_in"], ["value_out"])


def m_shift_out(r):
    from amlib.utils.shiftregister import OutputShiftRegister
    return Mod(OutputShiftRegister(r.choice([3, 8]), rotate=r.random() < .5), ["enable_in", "we_in", "value_in"], ["bit_out"])


def m_timer(r):
    from amlib.utils.timer import Timer
    return Mod(Timer(width=8, load=r.choice([5, 20]), reload=r.choice([None, 9]), allow_restart=r.random() < .5), ["start"], ["done"])


def m_fifo(r):
    from amlib.utils.fifo import TransactionalizedFIFO
    from amaranth import Signal
    d = TransactionalizedFIFO(width=8, depth=r.choice([4, 8]))
    m = Mod(d, ["read_en", "read_commit", "read_discard", "write_data", "write_en", "write_commit", "write_discard"], ["empty", "full", "space_available", ("read_data", "~empty")])
    return m


def m_lfsr(r):
    from amlib.utils.lfsr import LinearFeedbackShiftRegister
    taps = [8, 6, 5, 4]
    return Mod(LinearFeedbackShiftRegister(8, taps, reset=r.choice([1, 77])), [], ["value"], [taps])


def m_counter(r):
    from amlib.utils.dividingcounter import DividingCounter
    return Mod(DividingCounter(r.choice([1, 3, 5]), 8), ["reset_in", "active_in"], ["counter_out", "divided_counter_out", "dividable_out"])


def m_cic(r):
    from amlib.dsp.fixedpointcicfilter import FixedPointCICFilter
    return Mod(FixedPointCICFilter(18, r.choice([2, 3]), r.choice([3, 6]), verbose=False), ["strobe_in", "signal_in"], ["strobe_out", ("signal_out", "strobe_out")])


def m_fir(r):
    from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
    return Mod(FixedPointFIRFilter(96000, bitwidth=16, fraction_width=16, filter_order=7, mac_loop=r.random() < .5, verbose=False), ["enable_in", "signal_in"], ["signal_out"])


def m_iir(r):
    from amlib.dsp.fixedpointiirfilter import FixedPointIIRFilter
    return Mod(FixedPointIIRFilter(96000, filter_order=2, verbose=False), ["enable_in", "signal_in"], ["signal_out"])


def m_halfband(r):
    from amlib.dsp.fixedpointhbfilter import FixedPointHBFilter
    return Mod(FixedPointHBFilter(filter_order=11, mac_loop=r.random() < .5, verbose=False), ["strobe_in", "signal_in"], ["strobe_out", ("signal_out", "strobe_out")])


def m_filterbank(r):
    from amlib.dsp.filterbank import Filterbank
    return Mod(Filterbank(2, 96000, filter_structure=r.choice(["fir", "iir"]), verbose=False), ["enable_in", "signal_in"], ["signal_out"])


def m_resampler(r):
    from amlib.dsp.resampler import FractionalResampler
    d = FractionalResampler(input_samplerate=48000, upsample_factor=r.choice([3, 9]), downsample_factor=r.choice([2, 5]), filter_order=5, verbose=False)
    return Mod(d, ["signal_in.valid", "signal_in.payload", "signal_out.ready"], ["signal_in.ready", "signal_out.valid", ("signal_out.payload", "signal_out.valid")])


def m_fft(r):
    from amlib.dsp.fixedpointfft import FixedPointFFT
    return Mod(FixedPointFFT(bitwidth=12, pts=8, verbose=False), ["start", "in_i", "in_q", "strobe_in", "wf_start", "wf_strobe", "wf_real", "wf_imag"], ["done", "strobe_out", ("out_real", "strobe_out"), ("out_imag", "strobe_out")])


def m_convolver(r):
    import numpy as np
    from amlib.dsp.convolution.mac import StereoConvolutionMAC
    taps = np.array([[r.randint(-99999, 99999) for _ in range(2)] for _ in range(4)], dtype=np.int32)
    return Mod(StereoConvolutionMAC(taps=taps, samplerate=48000, clockfrequency=48000 * 2), ["signal_in.valid", "signal_in.first", "signal_in.last", "signal_in.payload", "signal_out.ready"],
               ["signal_in.ready"] + sout("signal_out"), [taps])


def _ila_sigs(r):
    from amaranth import Signal
    return [Signal(r.choice([3, 8]), name="probe_a"), Signal(1, name="probe_b")]


def m_ila(r):
    from amlib.debug.ila import IntegratedLogicAnalyzer
    s = _ila_sigs(r)
    d = IntegratedLogicAnalyzer(signals=s, sample_depth=r.choice([4, 8]), with_enable=r.random() < .5, samples_pretrigger=r.choice([1, 2, 3, 5]))
    return Mod(d, s + (["enable"] if hasattr(d, "enable") else []) + ["trigger", "captured_sample_number"], ["sampling", "complete", "capturing"], [s])


def m_ila_stream(r):
    from amlib.debug.ila import StreamILA
    s = _ila_sigs(r)
    return Mod(StreamILA(signals=s, sample_depth=r.choice([4, 8])), s + ["trigger", "stream.ready"], sout("stream") + ["sampling", "complete"], [s])


def m_ila_spi(r):
    from amlib.debug.ila import SyncSerialILA
    s = _ila_sigs(r)
    return Mod(SyncSerialILA(signals=s, sample_depth=r.choice([4, 8])), s + _spi_in(None) + ["trigger"], ["sampling", "complete", "spi.sdo"], [s], script=spi_script(None, [16, 64]))


def m_ila_uart(r):
    from amlib.debug.ila import AsyncSerialILA
    s = _ila_sigs(r)
    return Mod(AsyncSerialILA(signals=s, sample_depth=r.choice([4, 8]), divisor=3), s + ["trigger"], ["tx", "sampling", "complete"], [s])


def m_ram(r):
    from amlib.soc.memory import WishboneRAM
    init = [r.getrandbits(32) for _ in range(8)]
    return Mod(WishboneRAM(addr_width=5, init=init), ["bus.adr", "bus.dat_w", "bus.sel", "bus.cyc", "bus.stb", "bus.we"], ["bus.ack"], [init])


def m_rom(r):
    from amlib.soc.memory import WishboneROM
    init = [r.getrandbits(32) for _ in range(8)]
    return Mod(WishboneROM(init, addr_width=5), ["bus.adr", "bus.dat_w", "bus.sel", "bus.cyc", "bus.stb", "bus.we"], ["bus.ack", ("bus.dat_r", "bus.ack")], [init])


def m_events(r):
    from amlib.soc.event import EventSource, InterruptSource
    ev = tuple(EventSource(mode=md, name=f"ev{i}") for i, md in enumerate(r.sample(["level", "rise", "fall"], r.choice([1, 2, 3]))))
    d = InterruptSource(ev, name="src")
    return Mod(d, [e.stb for e in ev] + [d.pending.w_data, d.pending.w_stb, d.enable.w_data, d.enable.w_stb], [d.irq, d.status.r_data, d.pending.r_data, d.enable.r_data], [ev])


def m_uart_peripheral(r):
    from amlib.soc.uart import UARTPeripheral
    uart = UARTPeripheral(divisor=5, rx_depth=4, tx_depth=4)
    return Mod(uart, [("rx", 1, None), "bus.adr", "bus.dat_w", "bus.sel", "bus.cyc", "bus.stb", "bus.we"], ["tx", "bus.ack", "bus.dat_r", "irq"], script=uart_script("rx", 5, 8))


def m_peripheral(r):
    from amaranth import Module, Elaboratable
    from amlib.soc.peripheral import Peripheral

    class Thing(Peripheral, Elaboratable):
        def __init__(self):
            super().__init__(name="thing")
            bank = self.csr_bank()
            self.a, self.b = bank.csr(8, "rw", name="a"), bank.csr(20, "r", name="b")
            self.e = self.event(mode="rise", name="e")
            self._bridge = self.bridge(data_width=32, granularity=8, alignment=2)
            self.bus, self.irq = self._bridge.bus, self._bridge.irq

        def elaborate(self, platform):
            m = Module()
            m.submodules.bridge = self._bridge
            return m
    d = Thing()
    return Mod(d, ["bus.adr", "bus.dat_w", "bus.sel", "bus.cyc", "bus.stb", "bus.we", d.e.stb, d.a.r_data, d.b.r_data], ["bus.ack", "bus.dat_r", "irq", d.a.w_data, d.a.w_stb, d.a.r_stb, d.b.r_stb])


def i2s_script(width, slot, data=False):
    """Bit clock and word select, with pauses and the odd short slot."""
    def gen(r):
        while True:
            half, ws = r.choice([2, 2, 3, 5]), r.randrange(2)
            for _ in range(r.choice([4, 20])):
                n = slot if r.random() < .9 else r.randrange(1, 2 * slot)
                ws ^= 1
                for i in range(n):
                    d = {"serial_data_in": r.randrange(2)} if data else {}
                    for clk in (0, 1):
                        for _ in range(half):
                            yield {"word_select_in": ws, "serial_clock_in": clk, **d}
    return gen


def spi_script(d, lengths):
    """Selected transfers of various lengths, sometimes cut short."""
    pol, pha, high = getattr(d, "clock_polarity", 0), getattr(d, "clock_phase", 1), bool(getattr(d, "cs_idles_high", False))

    def gen(r):
        while True:
            half = r.choice([3, 4, 6])

            def out(sel, clk, bit):
                for _ in range(half):
                    yield {"spi.cs": int(sel) ^ high, "spi.sck": clk ^ pol, "spi.sdi": bit}
            for _ in range(r.choice([1, 3])):
                yield from out(0, 0, 0)
            yield from out(1, 0, 0)
            for _ in range(r.choice(lengths) if r.random() < .8 else r.randrange(1, 40)):
                bit = r.randrange(2)
                if pha:
                    yield from out(1, 1, bit)
                    yield from out(1, 0, bit)
                else:
                    yield from out(1, 0, bit)
                    yield from out(1, 1, bit)
            yield from out(1, 0, 0)
    return gen


def uart_script(pin, divisor, bits):
    """Frames of random bits, back to back or with pauses."""
    def gen(r):
        while True:
            for b in [0] + [r.randrange(2) for _ in range(bits)] + [int(r.random() < .95)]:
                for _ in range(divisor):
                    yield {pin: b}
            for _ in range(r.choice([0, 0, 1, divisor, 5 * divisor])):
                yield {pin: 1}
    return gen


def i2c_script(r):
    """An initiator's side of the bus: transactions of random octets to address 0 or 127 or others."""
    def bus(scl, sda, n=4):
        for _ in range(n):
            yield {"scl_i": scl, "sda_i": sda}

    def bit(b):
        yield from bus(0, b)
        yield from bus(1, b)
        yield from bus(0, b)
    while True:
        yield from bus(1, 1, r.choice([4, 20]))
        for _ in range(r.choice([1, 1, 2])):
            yield from bus(0, 1)
            yield from bus(1, 1)
            yield from bus(1, 0)
            address = r.choice([0, 127, 0, 127, r.getrandbits(7)])
            for octet in [address << 1 | r.randrange(2)] + [r.choice([255, r.getrandbits(8)]) for _ in range(r.choice([0, 1, 3]))]:
                for i in range(8):
                    yield from bit(octet >> 7 - i & 1)
                yield from bit(r.randrange(2))
        if r.random() < .8:
            yield from bus(0, 0)
            yield from bus(1, 0)
            yield from bus(1, 1)


NAMES = sorted(k[2:] for k in list(globals()) if k.startswith("m_"))


class Stimulus:
    """Random inputs in segments: within a segment every input is held, pulsed, toggled or random."""
    def __init__(self, mod, rng, scale=1):
        self.mod, self.rng, self.left, self.scale = mod, rng, 0, scale
        self.now = {n: idle & (1 << len(s)) - 1 for n, (s, idle, _) in mod.ins.items()}
        self.script, self.scripted = mod.script and mod.script(rng), False

    def next(self):
        r = self.rng
        if not self.left:
            self.left = self.scale * r.choice([5, 20, 60, 150] if self.scale == 1 else [1, 50, 100])
            modes = ["hold", "hold", "rare", "pulse", "toggle", "slow", "random", "idle", "high"] if self.scale == 1 else ["hold", "idle", "high", "idle", "high", "random"]
            self.scripted = self.script is not None and r.random() < .75
            self.mode = {n: (r.choice(modes), r.choice([2, 3, 4, 8])) for n in self.now}
        self.left -= 1
        for n, (s, idle, choices) in self.mod.ins.items():
            mode, k = self.mode[n]
            w = len(s)
            v = self.now[n]
            full = (1 << w) - 1
            if choices is not None:
                if r.random() < .02:
                    v = r.choice(choices)
            elif mode == "rare":
                v = r.getrandbits(w) if r.random() < .1 else v
            elif mode == "pulse":
                v = r.getrandbits(w) if r.random() < 1 / k else 0
            elif mode == "toggle":
                v = v ^ full if r.random() < 1 / k else v
            elif mode == "slow":
                v = v ^ full if self.left % (4 * k) == 0 else v
            elif mode == "random":
                v = r.getrandbits(w)
            elif mode == "idle":
                v = idle
            elif mode == "high":
                v = full
            self.now[n] = v & full
        if self.scripted:
            self.now.update(next(self.script))
        return dict(self.now)

    def idle(self):
        return {n: i & (1 << len(s)) - 1 for n, (s, i, _) in self.mod.ins.items()}
