#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IN, HI, CF, FA, SC, PR = "inputs", "histories", "configurations", "fault_sequences", "schedules", "programs"
P = []


def prop(id, title, statement, over, text, tests, files, mech, note, tech="runtime monitor on the simulated gateware's ports against an independent reference model", observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, note=note, tech=tech, observe=observe))


UART = "amlib/io/serial.py"
prop("C01", "UART transmitter emits exactly the framed bits of every accepted word",
     "Every word accepted by the asynchronous serial transmitter (offered while ready) appears on the line exactly once and in order, as one start bit, the data bits "
     "least significant first, the parity bit of the configured kind and a stop bit, each lasting exactly the divisor in force. The line is high at all other times, starting right after reset, and "
     "the transmitter accepts a word within a bounded time whenever it has nothing to send.",
     [IN, CF, HI], "All words, widths 1 to 16, parities (none, mark, space, even, odd), divisors including run-time ones changed while idle, all offer patterns; with plain signals or pins.",
     "The tests send single fixed words at one or two divisors; bit cell lengths, back to back words and the other parities and widths are quantified over all inputs and histories.",
     [UART], [("transmit state machine and frame register", UART + ":AsyncSerialTX.elaborate"), ("parity", UART + ":_compute_parity_bit")],
     "a line decoder that knows nothing about the implementation checks every cycle of every frame")
prop("C02", "UART receiver delivers every frame once with the right data and error flags",
     "Every frame on the line (start bit, data bits least significant first, configured parity, stop bit, at the divisor in force) is delivered to a ready consumer exactly once, in order, with its data, a parity error flag "
     "exactly when the parity is wrong and a framing error flag exactly when a stop bit is missing. A frame that completes while the consumer is not taking it is reported as an overflow rather than "
     "silently lost, and nothing is delivered on an idle line; a start bit that is gone by mid cell is flagged as a framing error.",
     [IN, CF, HI, FA], "All words, widths, parities, divisors of at least 5, frame gaps, corrupted frames, and consumer stalls; also transmitter and receiver of the package back to back.",
     "The tests feed a handful of frames at one divisor; combinations of corruption, gap and stall are only covered by exploring histories.",
     [UART], [("receive state machine, synchroniser and bit timer", UART + ":AsyncSerialRX.elaborate")],
     "scoreboard per frame, faults injected on the line")
prop("C03", "Stream UARTs send every byte of every stream word once, in order, 8N1",
     "Every word taken from the input stream of the byte, multi-byte and bus-attached UART transmitters leaves on the line exactly once and in order as 8N1 frames with bit cells of exactly the configured divisor; a multi-byte word is sent "
     "least significant byte first. The line idles high, the output driver is enabled, bytes that are available are sent back to back without a gap, and the idle indication is given exactly while nothing is being sent.",
     [IN, CF, HI], "All words, 1 to 6 bytes per word, divisors 1 to 100, and all gaps between offered words.",
     "The tests check one text at one divisor.", ["amlib/stream/uart.py"],
     [("baud generator and shift register", "amlib/stream/uart.py:UARTTransmitter.elaborate"), ("byte sequencing", "amlib/stream/uart.py:UARTMultibyteTransmitter.elaborate")],
     "line decoder; the SoC bus library is replaced by a functional stand-in only for import")
SPI = "amlib/io/spi.py"
prop("C04", "SPI controller transfers are exact full-duplex word exchanges in all modes",
     "Each transfer started on the SPI controller selects the chip, produces exactly one clock pulse per bit, shows the chip the word it was given in the configured bit order and clock mode, and returns in the received word exactly the bits the chip sent; "
     "it then deselects and reports completion once, and starts requested meanwhile have no effect. Between transfers the chip is deselected and the clock rests at its idle level.",
     [IN, CF, HI], "All words and replies, the four clock modes, both bit orders, both select polarities, word sizes 1 to 32, even divisors of at least 12 (8 without input synchroniser).",
     "The tests run one or two fixed words in a few modes.", [SPI], [("controller state machine", SPI + ":SPIControllerInterface.elaborate"), ("pin connection", SPI + ":SPIBus")],
     "bit-level SPI slave model on the pins; the slave's reply is immediate")
prop("C05", "SPI device exchanges words exactly with any conforming controller",
     "For every word clocked by a controller while the device is selected, the SPI device reports exactly the transmitted word, once, and shifts out the word it was given before that word began, in the configured bit order and clock mode, for any number of words per selection. A selection that ends in "
     "the middle of a word reports nothing and leaves no trace in the next one, and clock activity while not selected has no effect.",
     [IN, CF, HI, FA], "All words, the four clock modes, both bit orders and select polarities, word sizes 1 to 40, clock timing from 5 system cycles per half period (3 without synchroniser), aborted selections, foreign clocks.",
     "The tests run fixed words in one mode with one clock timing.", [SPI], [("device state and edge detection", SPI + ":SPIDeviceInterface.elaborate")],
     "bit-level controller model with random timing")
prop("C06", "SPI command and register interfaces execute exactly the completed transactions",
     "A register read returns the register's value as of the start of its data phase and a register write that is clocked to its end takes effect exactly once, each with the read or write strobe of exactly that register; unknown addresses read as the default value. A "
     "transaction cut short never changes a register, surplus clocks are harmless, and a command interface reports each complete command with its word once and shifts out the word to send.",
     [IN, CF, HI, FA], "All addresses, values, register maps (memory, read-only, write-only, special function, several widths and reset values), cut positions and surplus clocks; half periods of at least 4 cycles.",
     "The tests perform a few complete transactions on one register map.", [SPI], [("command state machine", SPI + ":SPICommandInterface.elaborate"), ("register map", SPI + ":SPIRegisterInterface")],
     "dictionary model of the registers, transactions cut at every bit position")
prop("C07", "SPI multiplexer connects exactly the selected busses",
     "Through the SPI multiplexer every bus receives the shared clock and data unchanged and its own select, and the shared data output carries the data of the selected bus whenever at most one is selected.",
     [IN, CF], "All combinations of selects, clocks and data on one to six busses.", "There is no test of it.", [SPI], [("multiplexing", SPI + ":SPIMultiplexer.elaborate")],
     "exhaustive vectors up to four busses")
I2C = "amlib/io/i2c.py"
prop("C08", "I2C initiator puts exactly the commanded conditions and bits on the bus",
     "Every commanded start, repeated start, stop, write and read appears on the bus exactly once and in order, with the commanded octet most significant bit first, the reported acknowledge and read data being what the slave drove and the commanded acknowledge being sent after a read. "
     "Data only changes while the clock is low (except for start and stop), no clock period is shorter than configured, the initiator waits for a slave that stretches the clock exactly when that is enabled, and commands strobed while it is busy have no effect.",
     [IN, CF, HI, FA], "All legal command histories, octets, acknowledges, periods, slave answers and stretch durations.", "The tests run single commands with one period.", [I2C],
     [("command state machine", I2C + ":I2CInitiator.elaborate"), ("bus sampling", I2C + ":I2CBus")], "bus monitor decoding both lines each cycle, slave model with stretching")
prop("C09", "I2C target answers only its own address and exchanges octets exactly",
     "The I2C target acknowledges exactly the transactions carrying its own address and otherwise never drives the bus; while addressed it reports every written octet with its start, write, read, restart and stop events exactly once, acknowledges as its user asks, and sends exactly the octets its user supplies. "
     "It releases the bus during the controller's bits, after a stop and after a not-acknowledge, and any start or stop at any bit position ends the transaction in progress.",
     [IN, CF, HI, FA], "All addresses, octets, acknowledge choices, and controller histories with starts and stops at any bit, half periods of at least 6 cycles; also initiator and targets sharing one bus.",
     "The tests run a few complete transactions.", [I2C], [("target state machine", I2C + ":I2CTarget.elaborate")], "bit-slot reference model compared with every level driven")
prop("C10", "I2C stream transmitter turns every packet into one bus transaction",
     "Every packet of the input stream (delimited by first and last) appears on the bus as exactly one start condition, its octets in order and one stop condition, whatever the timing of the source, the acknowledges of the slave and clock stretching. "
     "Nothing else appears on the bus, and stream words are accepted exactly while the buffer has room.",
     [IN, HI, CF, SC], "All packets, lengths from one octet, buffer depths, source gaps inside and between packets, slave behaviour.", "The test sends one packet without gaps.",
     ["amlib/stream/i2c.py", I2C], [("packet state machine", "amlib/stream/i2c.py:I2CStreamTransmitter.elaborate")], "bus monitor; starved and full buffers provoked on purpose")
I2S = "amlib/io/i2s.py"
prop("C11", "I2S transmitter sends each sample once in its channel's slot, else silence",
     "Every sample taken from the stream is sent exactly once, in order, most significant bit first, in a word slot of its own channel and delayed by one bit clock after the word select change; a slot whose sample is missing or of the other channel carries zeros and is flagged by the underflow or mismatch strobe. "
     "The data line changes only after falling bit clock edges, padding bits after the sample are zero and the FIFO level is reported truthfully.",
     [IN, CF, HI, SC], "Sample widths 8 to 32, slots at least two bits longer than the sample, FIFO depths, clock ratios and jitter, any source behaviour, enable toggling (the first word after enabling is not judged).",
     "The tests print waveforms for one configuration.", [I2S], [("transmit shift and channel alignment", I2S + ":I2STransmitter")], "reference receiver on the pins")
prop("C12", "I2S receiver delivers every word once, tagged with its channel",
     "Every word slot on the I2S lines becomes exactly one stream sample carrying the sample's bits and marking the left channel as first and the right channel as last, in order, for standard and left justified format and any slot length. When the consumer stalls until the buffer is full, "
     "only whole samples are lost and what is delivered stays correctly tagged; the buffer's level is reported truthfully, and transmitter and receiver back to back reproduce the stream.",
     [IN, CF, HI, SC], "Sample widths 8 to 32, slots at least two bits longer than the sample, random padding, backpressure, clock ratios and enable toggling (the first word after enabling is not judged).",
     "The tests print waveforms for one configuration.", [I2S], [("receive shift and channel tagging", I2S + ":I2SReceiver")], "reference transmitter on the pins")
prop("C13", "WS2812 line carries exactly the stored colours between valid reset gaps",
     "Each started frame is one uninterrupted sequence of all LEDs' colours in order, green, red, blue, most significant bit first, with each bit's high and low time within the WS2812 limits, enclosed by low times of at least 50 microseconds, and completion is reported once; a start during a frame has no effect. "
     "Colour writes take effect for exactly the addressed LED, whether they happen between frames or during one before that LED's turn.",
     [IN, CF, HI], "All colours, LED counts 1 to 33, clocks 8 to 100 MHz, write and start histories.", "The tests only run the waveform for one configuration.", ["amlib/io/ws2812.py"],
     [("bit and frame state machine", "amlib/io/ws2812.py:WS2812.elaborate")], "pulse width decoder on the data line")
prop("C14", "MAX7219 chain ends up configured and showing the current digits",
     "After the start-up delay every chip in the chain receives the whole start-up sequence in order, and then again and again the digit registers one to eight with the digit data last declared valid, each module its own digits and the module nearest the data input in the last sixteen bits; every select phase carries exactly sixteen bits per module. "
     "Updated digits reach all modules within two refresh rounds and no round mixes in anything that was never declared valid; the default start-up sequence gives all eight digits undecoded at full brightness, test mode off and display on, and connecting to a pin resource asserts its select exactly during transfers.",
     [IN, CF, HI], "All digit values and update times, one to several modules, divisors of at least 10, delays and start-up sequences of any length.", "The test only runs the waveform.", ["amlib/io/max7219.py", SPI],
     [("sequencing", "amlib/io/max7219.py:SerialLEDArray.elaborate")], "model of the daisy chained chips latching the pins")
prop("C15", "Debouncer reports each real press and release once and no bounces",
     "The debounced state (high while the active-low button input is pressed) changes after the input has been stable at the new level for 2^15 clock cycles, and never otherwise; each press is strobed for one cycle on the press output and each release on the release output.",
     [IN, HI], "All button waveforms: bounces of any length below the interval, bursts just below and above it (tolerance 8 cycles).", "The tests use one short waveform.", ["amlib/io/debouncer.py"],
     [("stability counter", "amlib/io/debouncer.py:Debouncer.elaborate")], "waveforms include near misses of the interval")
prop("C16", "Seven segment digits and bar graphs show the number they are given",
     "Every hexadecimal digit is shown with its own distinct conventional segment pattern (segment a in bit 6 down to g in bit 0, the dot in bit 7) at its own position, registered or not. A bar graph lights no LED at or below the minimum, all LEDs at or above the maximum and, in between, one LED plus one more for each full step of floor((maximum - minimum) / (LEDs - 2)) above the minimum, but at most all but one.",
     [IN, CF], "All numbers, widths, dots; all values, minima, maxima and LED counts of at least two (of two, one is lit in between).", "There is no test of the digits; the bar graph test only runs.", ["amlib/io/led.py"],
     [("segment table", "amlib/io/led.py:NibbleToSevenSegmentHex"), ("thresholds", "amlib/io/led.py:NumberToBitBar")], "exhaustive over values per configuration")
prop("C17", "Transactionalized FIFO is an exact queue with undoable accesses",
     "Data comes out of the FIFO in the order written and exactly once; written data becomes readable only when committed and vanishes when discarded, and read data is forgotten only when committed and comes back, in order, when discarded. Empty, full, the head of the queue and the free space always tell the truth, "
     "and accesses to an empty or full FIFO have no effect.",
     [HI, CF, IN], "All histories of writes, reads, commits and discards (never both on the same side in one cycle; an access in the same cycle as a commit is not part of it and one in the same cycle as a discard is cancelled), any depth and width.",
     "The tests run a few fixed sequences on a depth of 16.", ["amlib/utils/fifo.py"], [("committed and current pointers", "amlib/utils/fifo.py:TransactionalizedFIFO.elaborate")], "list model compared every cycle")
ARB = "amlib/stream/arbiter.py"
prop("C18", "Merged streams never mix: one source at a time, bursts kept, fixed priority",
     "The stream arbiter passes exactly one source at a time to its output unmodified, giving ready only to that source, and switches only in a cycle in which that source is not valid, then to the valid source that was added first; idle is signalled exactly when no source is valid. "
     "The stream multiplexer passes the first valid source, and ready only to it.",
     [IN, SC, CF], "All timings of any number of sources and of the consumer, payload widths, valid bits (a word with any of them set is valid), extra fields, clock domains.", "The tests play one schedule with two sources.", [ARB],
     [("active source selection", ARB + ":StreamArbiter.elaborate"), ("priority multiplexer", ARB + ":StreamMultiplexer.elaborate")], "scheduling rule compared every cycle")
STR = "amlib/stream/__init__.py"
prop("C19", "Stream and FIFO connections carry every field and lose no word",
     "Connecting two streams copies valid, first, last, payload and all extra fields forward and ready backward, except for the omitted fields, and a tap copies the forward fields without influencing the tapped stream (ready only when asked). A stream connected through a FIFO delivers every "
     "word once and in order with the first and last flags carried in the given bits, at any bit position.",
     [IN, CF, SC], "All field values, widths, extra fields, omissions, flag bit positions (or none), FIFO depths and flow control.", "There is no test of these functions.", [STR],
     [("stream connection", STR + ":StreamInterface.attach"), ("FIFO connection", STR + ":connect_fifo_to_stream, connect_stream_to_fifo")], "field by field comparison and queue model")
GEN = "amlib/stream/generator.py"
prop("C20", "Constant stream generator emits exactly the requested part of its data",
     "Each start makes the generator emit its constant data from the start position (limited to the last word) to the end or to the length limit in bytes, once, in order, at the consumer's pace, with first on the first and last on the last word only, byte strobes covering exactly the bytes within data and limit, and one done pulse afterwards. "
     "A limit of zero emits nothing, the reported length is the lesser of data and limit, and bytes are packed into wide words in the chosen byte order. A start while it is sending has no effect.",
     [IN, CF, SC, HI], "All data, word widths, strobe widths, byte orders, start positions (changing during a transmission too), limits held during a transmission, flow control and restarts.", "The tests play a few fixed transmissions.", [GEN],
     [("streaming state machine", GEN + ":ConstantStreamGenerator.elaborate")], "word-by-word comparison with the data")
prop("C21", "Stream serializer emits the presented words once, in order",
     "Each start makes the serializer emit the presented data words in order, up to the length limit, once, at the consumer's pace, with first on the first and last on the last word only, and then one done pulse. A limit of zero emits nothing, and a start while it is sending has no effect.",
     [IN, CF, SC, HI], "All data, word counts, widths, limits, flow control and restarts, any clock domain.", "There is no test of it.", [GEN], [("serializing state machine", GEN + ":StreamSerializer.elaborate")], "word-by-word comparison")
prop("C22", "Packet list streamer sends all packets once, in order, delimited",
     "Each start while it is not sending, from the first cycle on, makes the streamer send all of its packets once and in order, every word in full width, with first and last marking exactly the first and last word of every packet, and then signal done once; it can be started again at once.",
     [IN, CF, SC, HI], "All packet lists (lengths from one word, any total), word widths and stream types, flow control and restarts.", "The test sends one list with a total of no particular size.", [GEN],
     [("packet sequencing", GEN + ":PacketListStreamer.elaborate")], "word-by-word comparison; totals that are powers of two are provoked on purpose")
prop("C23", "Bit sequences behave like immutable lists of bits in every operation",
     "Bit sequences constructed from numbers, strings, bytes, iterables or other sequences represent exactly those bits, least significant bit first, and every conversion, index, slice, concatenation, repetition, logic operation, comparison, hash and reversal agrees with the same operation on the list of bits. Invalid arguments are rejected with an error.",
     [IN, PR], "All sequences and all sequences of operations on them.", "The tests check fixed examples.", ["amlib/utils/bits.py"], [("representation as length and number", "amlib/utils/bits.py:bits")], "list-of-bits model, random operations",
     tech="runtime differential monitor against a list-of-bits model")
prop("C24", "Timer is done exactly after the programmed number of cycles",
     "A started timer signals done for one cycle exactly the load value (the reload value when load is zero) of cycles after the start strobe, and then, if the reload value is not zero, every reload value of cycles; starts while it runs have no effect. Without reload it can be started again if allowed, and the counter output shows the remaining cycles.",
     [IN, CF, HI], "All load and reload values including zero and one, constant or variable, changed at any time, any start pattern and width.", "The tests use one load value each.", ["amlib/utils/timer.py"],
     [("countdown state machine", "amlib/utils/timer.py:Timer.elaborate")], "countdown model compared every cycle")
prop("C25", "Dividing counter counts events and every divisor-th event",
     "The counter counts active cycles and the divided counter counts those at which the count becomes a multiple of the divisor, with the divisible flag saying whether the latest counted event was such; reset clears both counts, and at overflow the count restarts at zero.",
     [IN, CF, HI], "All activity and reset patterns, divisors and widths, over several overflows (the flag is not judged between reset and the next event).", "The tests run one configuration without overflow.", ["amlib/utils/dividingcounter.py"],
     [("cycle counter", "amlib/utils/dividingcounter.py:DividingCounter.elaborate")], "arithmetic model compared every cycle")
prop("C26", "Clock divider produces the exact divided clock and its idle level",
     "While enabled, the divided clock toggles exactly every half divisor of cycles, and while disabled it rests at its idle level from the next toggling instant on, without a pulse shorter than half a period. Odd ratios are rejected.",
     [IN, CF, HI], "All even ratios, both idle levels, all enable waveforms.", "There is no test of it.", ["amlib/utils/clockdivider.py"], [("toggle counter", "amlib/utils/clockdivider.py:SimpleClockDivider.elaborate")], "ideal clock compared every cycle")
prop("C27", "Edge detectors and past values reflect the previous sample exactly",
     "Rising, falling and any-edge detection and edge-to-pulse are high exactly in the cycles in which the one-bit signal differs from its previous sample in that way (the sample before the first being zero), and a past value is the full value, with its sign, one cycle of the chosen clock domain earlier.",
     [IN, CF, HI], "All waveforms, widths, signedness and clock domains.", "There are tests for one-bit edges only.", ["amlib/utils/cdc.py", "amlib/utils/edgetopulse.py", "amlib/utils/__init__.py"],
     [("delay register", "amlib/utils/__init__.py"), ("pulse state machine", "amlib/utils/edgetopulse.py:EdgeToPulse")], "two-sample reference")
prop("C28", "Strobe stretching and synchronisation delay and hold exactly",
     "A stretched strobe is high in exactly the cycles in which the strobe was high in that cycle or one of the preceding ones up to the given length (one cycle later when a delay is allowed), and a synchronised signal or record is each of its inputs exactly the given number of stages of the destination clock later, while its outward fields pass back unchanged.",
     [IN, CF, HI], "All waveforms, lengths, stages, widths, nested records with directions, and clock domains.", "The stretching tests use one length; synchronisation is not tested.", ["amlib/utils/cdc.py"],
     [("strobe delays", "amlib/utils/cdc.py:stretch_strobe_signal"), ("synchroniser", "amlib/utils/cdc.py:synchronize")], "history model compared every cycle")
prop("C29", "Shift registers shift, load, rotate and clear exactly",
     "The output shift register presents the lowest bit of the loaded value and moves to the next higher one in each enabled cycle (rotating, or filling with zeros, as configured), a load taking precedence. The input shift register shifts each enabled bit in at the low end until cleared, a clear taking precedence; other cycles change nothing.",
     [IN, CF, HI], "All enable, load, clear and data patterns, depths 1 to 64.", "The tests use one pattern.", ["amlib/utils/shiftregister.py"], [("shifting", "amlib/utils/shiftregister.py")], "integer model compared every cycle")
prop("C30", "LFSR follows its recurrence, in hardware and software alike",
     "From its reset value the register shifts left every cycle with the exclusive or of the tapped bits (numbered from 1) entering at the low end, the software generator yields exactly one period of the same sequence, and primitive taps visit every non-zero state.",
     [CF, HI], "All invertible tap sets, degrees and seeds.", "The test uses one polynomial.", ["amlib/utils/lfsr.py"], [("recurrence", "amlib/utils/lfsr.py")], "independent recurrence")
prop("C31", "NRZI encoding toggles for ones, holds for zeros",
     "The NRZI output changes level at the clock edge that takes a one bit, keeps its level at one that takes a zero bit, and never changes otherwise, so that decoding returns the data.",
     [IN, HI], "All bit streams.", "There is no test of it.", ["amlib/utils/nrziencoder.py"], [("encoder register", "amlib/utils/nrziencoder.py:NRZIEncoder.elaborate")], "decoder model")
prop("C32", "One-hot multiplexer passes exactly the valid interface's signals",
     "The shared output carries the multiplexed signals of the interface that is valid, the OR of all interfaces' OR-ed signals, and passes the listed signals back to every interface unchanged.",
     [IN, CF], "All data, one to six interfaces, signal lists by name or function, at most one interface valid.", "There is no test of it.", ["amlib/utils/bus.py"], [("multiplexing", "amlib/utils/bus.py:OneHotMultiplexer")], "vector comparison")
FIR = "amlib/dsp/fixedpointfirfilter.py"
prop("C33", "FIR filter output is the exact fixed-point convolution at its cutoff",
     "The filter output is the sum of the products of the latest samples accepted while enabled and the taps, each product rounded down to an integer, wrapped to the output width, in parallel and sequential arithmetic alike; the taps are the Hamming windowed design for the given cutoff frequency, or the equiripple design for given band edges. Samples presented while disabled have no effect.",
     [IN, CF, HI], "All samples and enable patterns, sample and fraction widths, orders, cutoffs, low and high pass; the sequential form is given order + 4 cycles per sample.", "The test runs one waveform without checking it.", [FIR],
     [("tap sum", FIR + ":FixedPointFIRFilter.elaborate"), ("design", FIR + ":FixedPointFIRFilter.__init__")], "bit-exact model of an independent design plus the ideal response")
prop("C34", "IIR filter follows the exact recursion of its Chebyshev design",
     "The filter output follows the fixed-point recursion of the Chebyshev type 1 filter (1 dB ripple) for the given order, cutoff frequency and type, each product rounded down to an integer and the result wrapped to the output width, advancing exactly with the samples accepted while enabled.",
     [IN, CF, HI], "All samples and enable patterns, sample and fraction widths, orders, cutoffs, low and high pass.", "The test runs one waveform without checking it.", ["amlib/dsp/fixedpointiirfilter.py"],
     [("recursion", "amlib/dsp/fixedpointiirfilter.py:FixedPointIIRFilter.elaborate")], "bit-exact model of an independent design")
prop("C35", "Half band decimator strobes one exact output for every two samples",
     "For every second input sample, and no other, the half band filter strobes its output once, with the fixed-point half band response (each product rounded down, wrapped to the output width) to the samples so far, in parallel arithmetic; in sequential arithmetic the strobed value lags by one sample. Values presented without a strobe have no effect.",
     [IN, CF, HI], "All samples and strobe spacings, sample and fraction widths, orders 4m + 3; the sequential form is given order / 4 + 6 cycles per sample.", "The test runs one waveform without checking it.", ["amlib/dsp/fixedpointhbfilter.py"],
     [("folded tap sum", "amlib/dsp/fixedpointhbfilter.py:FixedPointHBFilter.elaborate")], "bit-exact model of an independent design")
prop("C36", "CIC decimator output is the exact N-fold moving sum of its input",
     "For every R-th input strobe the CIC filter strobes its output exactly once, with the N-fold moving sum over R inputs (with a constant delay) scaled down by dropping the excess low bits only; internal overflow never shows. Inputs without a strobe have no effect.",
     [IN, CF, HI], "All sequences of +1 and -1, and of larger numbers whose sums fit the output width, at any strobe spacing, widths, stages N and decimations R of at least 2.", "The test runs one waveform without checking it.", ["amlib/dsp/fixedpointcicfilter.py"],
     [("integrators and combs", "amlib/dsp/fixedpointcicfilter.py:FixedPointCICFilter.elaborate")], "exact moving sum over the whole history")
prop("C37", "Filter bank is an exact chain of identical filters",
     "The filter bank output equals that of the given number of identical filters of the chosen structure in series, each processing its predecessor's output of the same enabled cycle; cycles without enable change nothing.",
     [IN, CF, HI], "All samples and enables, structures, instance counts and filter parameters.", "There is no test of it.", ["amlib/dsp/filterbank.py", FIR, "amlib/dsp/fixedpointiirfilter.py"],
     [("chaining", "amlib/dsp/filterbank.py:Filterbank.elaborate")], "bit-exact chained models")
prop("C38", "FFT outputs every bin of the windowed input once and in order",
     "Each started transform takes the next samples, multiplies sample n with window coefficient n (Blackman-Harris unless another, possibly complex, window was loaded) and strobes out all bins of their discrete Fourier transform divided by the number of points, from bin 0 up, once each, correct to rounding. Done is low from the start of a transform or window load to its end; starts meanwhile, and sample or coefficient strobes while none are being taken, have no effect.",
     [IN, CF, HI], "All samples within full scale, windows, point counts from 4, widths, sample spacings of at least four cycles, and any sequence of transforms and window loads.", "The test only runs one transform.", ["amlib/dsp/fixedpointfft.py"],
     [("butterfly and output state machine", "amlib/dsp/fixedpointfft.py:FixedPointFFT.elaborate")], "floating point DFT with a tolerance of 3 + 2.5 log2(points) units")
prop("C39", "Resampler yields each decimated filtered sample once under any flow control",
     "The output samples are exactly every N-th sample of the filtered signal that has each prescaled input sample followed by M - 1 zeros, in order, none lost, repeated or altered by the timing of source or consumer. A valid output stays valid and unchanged until it is taken, without waiting for ready.",
     [IN, SC, CF], "All samples, flow control (including long stalls), ratios, sample widths, filter structures and prescales.", "The tests run one waveform without checking it.", ["amlib/dsp/resampler.py", "amlib/dsp/filterbank.py"],
     [("upsampling, FIFO and decimation", "amlib/dsp/resampler.py:FractionalResampler.elaborate")], "bit-exact model, random and stalling flow control")
prop("C40", "Convolver outputs one exact stereo pair per input pair in every mode",
     "Every input pair (left marked first, right marked last, in either order) yields exactly one output pair, left then right, equal to the exact convolution of the samples so far with the impulse response as the mode defines it (mono, stereo or crossfeed), divided by two to the sample width and rounded down. Outputs stay valid and unchanged until taken.",
     [IN, SC, CF], "All samples, taps (any count divisible by the number of parallel slices, negative and extreme values), slices, widths, modes and flow control.", "The test checks one response in one mode with the consumer always ready.", ["amlib/dsp/convolution/mac.py"],
     [("sliced multiply accumulate and sample shifting", "amlib/dsp/convolution/mac.py:StereoConvolutionMAC.elaborate")], "exact integer convolution")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["tests"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"] or ["ports of the simulated circuit, every clock cycle"], hook_needed=None))) + "\n")
json.dump(dict(
    version=1, setup_cmd="true",
    checks=[dict(property=p["id"], quick_cmd=f"./run_check.sh {p['id']} --tier quick", thorough_cmd=f"./run_check.sh {p['id']} --tier thorough",
                 evidence_file=f"evidence/{p['id']}.json", technique=p["tech"], level="exploration",
                 level_note="Every execution generated from VERIF_SEED is judged; says nothing about executions not run. Trusted: Amaranth's elaboration and simulator, and the reference model. " + p["note"][0].upper() + p["note"][1:] + ".")
            for p in P],
    not_applicable=[], notes="No hooks: every monitor observes ports of the simulated circuit or values returned by the public API."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")

# ---- DESIGN.md
import ast, glob
T = os.path.join(V, "tools")
out = [open(os.path.join(T, "design_head.md")).read()]
out.append("\n## Per property\n")
for p in P:
    src = os.path.join(V, "harness", "checks", p["id"].lower() + ".py")
    d = {}
    for n in ast.parse(open(src).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "FLOORS", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    out.append(f"### {p['id']} {p['title']}\n\n*Specified:* {p['statement']}\n\n*Range:* {p['text']}\n\n*Monitored and generated:* {d['RULE']}\n\n"
               f"*Oracle:* {p['note']}.\n\n*Why the tests cannot settle it:* {p['tests']}\n")
    if d.get("ASSUMPTIONS"):
        out.append("*Assumptions:* " + "; ".join(d["ASSUMPTIONS"]) + ".\n")
    out.append("*Least the quick run must have seen:* " + ", ".join(f"{v} {k}" for k, v in d["FLOORS"].items()) + ".\n")
sr = os.path.join(T, "seed_results.json")
if os.path.exists(sr):
    res = json.load(open(sr))
    out.append("\n## Planted bugs and what catches them\n\nEach was written from the property's text and the code, confirmed to build and to pass the stable tests, and run against the quick check (seed 1) of its property.\n\n| bug | property | caught by | needs |\n|---|---|---|---|\n")
    for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        k = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
        out.append(f"| {k} | {j['property']} | {res.get(k, 'not run')} | {j['needs']} |\n")
tail = os.path.join(T, "design_tail.md")
if os.path.exists(tail):
    out.append("\n" + open(tail).read())
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
