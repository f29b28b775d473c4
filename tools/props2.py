ILA = "amlib/debug/ila.py"
prop("C41", "Logic analyser records exactly the samples around its trigger",
     "After a trigger the integrated logic analyser captures exactly as many samples as its depth, in order and without gaps or repetitions, of all its signals at the same time: the first is that of the trigger cycle, or, with pretrigger samples, "
     "the one that many samples before it; with a sample enable only cycles in which it is given count. Triggers during a capture change nothing, the sampling and completion outputs are truthful, and after completion every sample "
     "can be read, in any order and repeatedly, the cycle after its number is selected.",
     [IN, CF, HI], "All signal sets and histories, depths 2 to 64, 1 to 8 pretrigger samples, sample enable patterns, trigger patterns, capture clock domains; the first trigger comes only after the pretrigger samples have been recorded.",
     "The tests capture one fixed sequence; trigger position against enable pattern, triggers while busy and later captures are histories.", [ILA],
     [("write side", ILA + ":IntegratedLogicAnalyzer.elaborate")], "every capture is compared with the recorded history of the signals")
prop("C42", "Logic analyser readouts deliver every captured sample once, in order",
     "For every capture the stream readout of the logic analyser sends exactly one packet holding all samples in order, marked first and last, in any output clock domain and under any flow control, offering each sample until it is taken; the UART readout sends the "
     "same samples as 8N1 bytes, least significant byte first. The SPI readout returns, at each selection, the samples from the first one on as words of a multiple of 32 bits, most significant bit first, "
     "in every clock mode and select polarity, however earlier selections ended.",
     [IN, CF, HI, SC], "All signal sets, depths, consumer stall patterns, output clock ratios and phases, SPI modes, aborted and repeated reads.",
     "The tests read one capture with an always ready consumer; stalls, crossings and aborted transfers are schedules and histories.", [ILA],
     [("stream state machine and output FIFO", ILA + ":StreamILA.elaborate"), ("UART readout", ILA + ":AsyncSerialILA.elaborate"), ("SPI readout", ILA + ":SyncSerialILA.elaborate")],
     "packets, frames and SPI words are compared with the recorded history")
prop("C43", "Logic analyser host side recovers every signal value from the sent bytes",
     "From the bytes an analyser sends over its serial port the host side reader recovers, for every capture, the value each signal had in each sample, in order and at times that are multiples of the sample period, ignoring bytes left over from before. "
     "Parameters saved to a file and loaded again describe the same analyser, and the waveform file it writes shows exactly these values at these times, with a clock if one is asked for, and is accompanied by a view listing the signals. The same holds for a waveform written to standard output, for what is shown interactively, leaving no files behind, and for printed samples with their times in microseconds.",
     [IN, CF, HI], "All signal sets, widths, depths, sample rates and sampled values, split and stale serial data, repeated fetches.",
     "Nothing on the host side is tested at all.", [ILA],
     [("parsing", ILA + ":ILAFrontend._parse_sample"), ("splitting serial bytes", ILA + ":AsyncSerialILAFrontend._split_samples"), ("waveform", ILA + ":ILAFrontend.emit_vcd"), ("parameters", ILA + ":ILACoreParameters")],
     "round trip against the samples taken; the waveform is read back by an independent parser", tech="offline checker over the files and values produced, against the recorded history of the simulated signals")
prop("C44", "CRC models compute the polynomial remainder for every algorithm and message",
     "For every width, polynomial (as mask or as list of exponents), initial value, bit orders and final mask, the CRC models return for every message the value defined by polynomial division, whether it is given in one go, in arbitrary parts, as "
     "bits, words, bytes or characters, or through a register. Reflected, bit reversed and inverse variants are what their names say, and the predefined algorithms give the published check values.",
     [IN, CF], "All widths from 1 to 64 (and the predefined up to 256), polynomials, seeds, orders, masks and messages; all ways of splitting a message.",
     "The tests use two of the algorithms on a few packets.", ["amlib/test/crc.py"],
     [("algorithm", "amlib/test/crc.py:CRCAlgorithm"), ("register", "amlib/test/crc.py:CRCRegister")], "independent long division, zlib and published check values", tech="differential runtime oracle on randomly generated algorithms and messages")
prop("C45", "Wishbone memories store exactly what was written and answer every access once",
     "Wishbone RAM and ROM acknowledge every access exactly once, in the cycle after it is requested, and never without a request; a read returns the last value stored at its address and a write changes exactly the selected parts of exactly its word. "
     "Read-only memories never change; the initial contents (words, bytes in either byte order, or a file) are complete and everything beyond them is zero, for every data width and granularity, and the memory map states the real size.",
     [IN, CF, HI], "All data widths, granularities, sizes, initial contents, byte orders and access histories, including incomplete requests and back to back accesses.",
     "The memories have no tests.", ["amlib/soc/memory.py"],
     [("initial contents", "amlib/soc/memory.py:WishboneRAM._initialization_value"), ("bus logic", "amlib/soc/memory.py:WishboneRAM.elaborate")],
     "shadow memory; the bus class is a functional stand-in (stubs/)")
prop("C46", "Interrupt sources neither lose nor invent events",
     "An interrupt source's status register shows the event lines, and each event (while its line is high, or on its rising or falling edge, as declared) sets its bit in the pending register, which only writing a one to it clears; an event in the very cycle of the clearing wins. "
     "The interrupt line is active exactly while an enabled event is pending, and the enable register holds exactly what was written last.",
     [IN, CF, HI], "All numbers and trigger kinds of events, all histories of event lines and register accesses.",
     "The event logic has no tests.", ["amlib/soc/event.py"], [("event logic", "amlib/soc/event.py:InterruptSource.elaborate")],
     "cycle exact reference model")
prop("C47", "Peripherals give every register its own address and every access its register",
     "Every register declared in a peripheral appears exactly once in its memory map, at the requested address or alignment and in order of declaration; reading or writing it over the bus gives exactly one read or write strobe of that register with the right data "
     "and touches no other register. Windows see exactly the accesses within their range, event registers follow the peripheral's own registers, and there is an interrupt line exactly if there are events, active while an enabled event is pending.",
     [IN, CF, HI], "All sets of banks, registers (widths, accesses, addresses, alignments), windows and events, bus widths, and all access histories including byte selects.",
     "Peripherals have no tests.", ["amlib/soc/peripheral.py", "amlib/soc/event.py"],
     [("declarations", "amlib/soc/peripheral.py:CSRBank.csr"), ("bus bridge", "amlib/soc/peripheral.py:PeripheralBridge")],
     "model that knows only the declarations and the memory map; register multiplexer, bridge and decoder are functional stand-ins (stubs/)")
prop("C48", "UART peripheral sends and receives every word once, with truthful registers",
     "Words written to the transmit register of an enabled UART peripheral while it reports ready are sent exactly once, in order, at the divisor set; others are not sent. Received words, up to the receive FIFO's depth, are read exactly once in order, and overflow, frame and parity "
     "errors of the last reception are flagged. The ready registers and the driving output are truthful, and received words, reception errors and an emptied transmit FIFO raise their events.",
     [IN, CF, HI, FA], "All divisors from 5, word widths, parities, FIFO depths, bus access histories, line histories including broken frames and overruns.",
     "The peripheral has no tests.", ["amlib/soc/uart.py"], [("registers, FIFOs and events", "amlib/soc/uart.py:UARTPeripheral.elaborate")],
     "line decoder and queue model, driven like a driver would")
prop("C49", "Systems on chip answer where their map, C header and linker script say",
     "Everything added to the simple system on chip answers on both processor busses exactly at the address it was given, or at the one reported, and nothing answers elsewhere; the listed and logged resources, the C header's addresses and sizes and the linker script's main ROM and RAM agree with it. "
     "The header compiles, its access functions read and write exactly their register, and its interrupt functions test and mask exactly the line that the peripheral drives, numbered in the order of adding. "
     "A BIOS has a 16 KiB ROM, 4 KiB of RAM, a timer and a serial port of the requested baud rate, at 0, 0x10000, 0x20000 and 0x30000 if fixed addresses are asked for; its two memories are hidden from the listing unless asked for, and it is built exactly if there is one; a debug port connects the user pins 0 to 2, two cycles late, to the JTAG clock, mode and data inputs and its data output to pin 3.",
     [IN, CF, HI], "All sets of memories and peripherals, addresses (given or automatic), access histories on both busses, register values and interrupt masks.",
     "The system on chip has no tests.", ["amlib/soc/simplesoc.py"],
     [("assembly", "amlib/soc/simplesoc.py:SimpleSoC.add_peripheral"), ("C header", "amlib/soc/simplesoc.py:SimpleSoC.generate_c_header"), ("linker script", "amlib/soc/simplesoc.py:SimpleSoC.generate_ld_script")],
     "the header is compiled and executed; processor, bus and register classes are functional stand-ins (stubs/)", tech="runtime monitor on the processor's busses, and execution of the generated header against simulated registers")
prop("C50", "Gateware tests run to their end and fail exactly when they should",
     "A test of the gateware test case runs with the arguments, initial signal values and clock frequency its class gives, to its end or first failure, and passes exactly if no assertion, exception or time-out occurred; no clock, no pass. "
     "A pulse is high for exactly one cycle, waiting takes exactly the cycles asked for or the time rounded up to whole cycles, waiting for a strobe ends in the first cycle it is seen high and raises exactly if that takes more cycles than the time-out, and the level checks accept exactly what they name. "
     "Waveform files with the traces of interest are written exactly if asked for, and the SPI test case exchanges its octets faithfully in all four modes and both bit orders.",
     [IN, CF, HI], "All sequences of helper calls, strobe times, time-outs, clock frequencies, signal values, SPI modes, bit orders and octets.",
     "Every other test of the library rests on it, and nothing tests it.", ["amlib/test/utils.py", "amlib/io/spi.py"],
     [("test case", "amlib/test/utils.py:GatewareTestCase"), ("process wrapper", "amlib/test/utils.py:sync_test_case"), ("SPI test case", "amlib/io/spi.py:SPIGatewareTestCase")],
     "generated test classes, run by unittest on a circuit that counts cycles and records its input")
prop("C51", "Modules can be built repeatedly, side by side and in any clock domain",
     "A module made from the same arguments behaves the same, and gives the same netlist, however often it was simulated or converted before and whatever other instances, of its own or other classes and of any configuration, were built before or after it. "
     "Instances side by side in one design do not influence each other, and a module moved to another clock domain behaves there as in the default one, whatever the default one's clock does. "
     "Neither making a module nor using it changes the arguments it was made from.",
     [IN, CF, HI], "All modules of the library, configurations, input histories, neighbours, orders of building and relative clock rates.",
     "Tests build each module once, alone, in the default domain.", ["amlib/"],
     [("mutable class and default state", "amlib/"), ("memories", "amlib/dsp/convolution/mac.py:StereoConvolutionMAC.elaborate")],
     "a new instance alone in the default domain, driven with the same inputs in lock step", tech="differential runtime monitor of ports in lock step, and comparison of generated netlists")
prop("C52", "After a reset nothing that happened before can be observed",
     "After its clock domain has been reset for at least four cycles with its inputs at rest, every module behaves from then on like a new one that was reset in the same way, at every output and in every cycle, whatever it was doing when the reset came. "
     "Only the contents of memories survive: colours of the WS2812 LEDs, earlier samples in the stereo convolver, windows of the FFT, words of RAM.",
     [IN, CF, HI, FA], "All modules of the library, configurations, input histories before and after, moments of the reset.",
     "No test resets anything after the start.", ["amlib/"],
     [("state without reset", "amlib/io/serial.py:AsyncSerialRX.elaborate"), ("state without reset", "amlib/debug/ila.py:IntegratedLogicAnalyzer.elaborate")],
     "a new instance driven with the same inputs in lock step", tech="differential runtime monitor of ports in lock step, with reset injected at random moments")
prop("C53", "Modules refuse the parameters they cannot implement and accept all others",
     "Parameters that a module cannot implement are refused with an error when it is made or built: serial divisors below 5 (transmitter alone: below 1) and unknown parities, odd dividers of the clock divider and LED matrix, hexadecimal displays not a multiple of four bits wide, LFSR seeds of zero, samples wider than the fraction, FFT sizes that are no power of two, half band orders other than 4m+3, FIR bands or filter bank structures of the wrong kind, and tap counts that the convolver's slices do not divide. "
     "So are second registers at one SPI address and addresses beyond the address width, byte data for words that are not whole bytes, negative, non-binary or ambiguous bit sequences, CRC polynomials of another degree than the width, unknown event triggers, and objects of the wrong kind as names, events, peripherals, busses or interrupt lines; asking a peripheral for a bus or interrupt line that it does not have is an error. "
     "Serial ports, dividers, displays, LFSRs, FFTs, convolvers, SPI registers, streams, bit sequences, CRCs, events and peripherals within these limits are accepted and can be built.",
     [IN, CF], "All parameter values on both sides of every limit.",
     "Tests make each module with one or two good parameter sets.", ["amlib/"],
     [("serial limits", "amlib/io/serial.py:_check_divisor"), ("register map", "amlib/io/spi.py:SPIRegisterInterface.add_sfr"), ("polynomials", "amlib/test/crc.py:CrcAlgorithm")],
     "the documented limits, evaluated on random parameters around them", tech="runtime monitor of construction and elaboration under hostile parameters")
prop("C54", "Streams keep an offered word until it is taken and timing never alters words",
     "At the stream output of the constant generator, serializer, packet list, I2S receiver, stream logic analyser, resampler, convolver and FIFO connections, and of the arbiter and multiplexer with one active source, a word once offered stays offered, with payload and marks unchanged, until the consumer is ready, however long that takes. "
     "It is offered whether or not the consumer is ready, so one that only becomes ready after seeing a word gets it too. "
     "The words put out, with their marks, and their order depend only on the work given and the words taken in, never on when the consumer is ready or the source has a word.",
     [IN, SC, HI], "All modules with stream outputs, configurations, and timings of consumers and of sources that keep an offered word until it is taken.",
     "Tests mostly keep the consumer ready.", ["amlib/stream/", "amlib/dsp/", "amlib/debug/ila.py", "amlib/io/i2s.py"],
     [("generators", "amlib/stream/generator.py"), ("resampler handshake", "amlib/dsp/resampler.py:FractionalResampler.elaborate"), ("analyser readout", "amlib/debug/ila.py:StreamILA.elaborate")],
     "cycle monitor of the handshake, and a second instance whose consumer is always ready", tech="runtime monitor of the handshake protocol and differential execution under hostile consumers and sources")
prop("C55", "Modules keep up: words, samples and frames flow at full rate",
     "With partners that are always ready, a started constant generator, serializer or packet list offers its first word within 2 cycles, the words of a run or packet in consecutive cycles, the next packet within 4 cycles and done within 2 cycles of the last word; FIFO connections (depth 2 or more) pass a word per cycle, the multiplexer serves the only source with words at once and the arbiter within a cycle. "
     "The resampler takes a sample every L cycles (L the upsampling factor), the convolver needs at most 10 cycles per sample pair beyond the taps each multiplier handles, the stream logic analyser reads out a sample at least every 2 cycles, and the serial transmitter accepts waiting words at most a frame plus 2 cycles apart. "
     "An SPI controller transfer completes within (bits + 3) clock periods plus 16 cycles, and the FFT puts out its first bin within 12 x points x stages + 40 cycles of the last sample, the others at most 4 cycles apart.",
     [IN, SC, HI], "All listed modules, configurations, contents, runs and histories with ready partners.",
     "Tests compare a few cycles of one configuration.", ["amlib/stream/", "amlib/dsp/", "amlib/debug/ila.py", "amlib/io/serial.py", "amlib/io/spi.py"],
     [("generators", "amlib/stream/generator.py"), ("convolver schedule", "amlib/dsp/convolution/mac.py"), ("SPI transfer", "amlib/io/spi.py:SPIControllerInterface.elaborate")],
     "cycle monitor of the intervals between words, samples, bins and frames", tech="runtime monitor of throughput and latency with recorded cycle numbers")
prop("C56", "Connected modules carry every message end to end",
     "Stream generators merged by the arbiter and sent through a FIFO and a UART transmitter to a UART receiver whose clock differs by up to 1 % (divisor 10 or more) arrive complete, in order, packet by packet and without error flags, as do the bytes of the multi-byte transmitter. "
     "An SPI controller (divisor 12 or more) whose chip select goes to one of several register interfaces behind the multiplexer reads back exactly what was last written to that register of that device, and packets of an I2C stream transmitter reach exactly the addressed one of several targets as start, octets and stop. "
     "Samples passing two I2S links in a row (standard format, slots at least two bits longer than a word) arrive unchanged, in order and with their channels.",
     [IN, SC, HI], "All messages, configurations, clock ratios and histories of the connected systems.",
     "Tests connect at most two modules and a handful of values.", ["amlib/stream/", "amlib/io/"],
     [("UART link", "amlib/io/serial.py:AsyncSerialRX.elaborate"), ("register interface", "amlib/io/spi.py:SPIRegisterInterface.elaborate"), ("I2C packets", "amlib/stream/i2c.py:I2CStreamTransmitter.elaborate"), ("I2S link", "amlib/io/i2s.py")],
     "comparison of what enters and what leaves whole systems built of the package's modules", tech="end-to-end runtime monitoring of connected modules against the messages put in")
