From 8e183e210d667dbaf492174c3d029d2bec09b5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 01/60] fix: SPI controller selects the chip before the first
 clock edge in clock phase 0

---
 amlib/io/spi.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 3345ebb..4afe431 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -128,8 +128,11 @@ class SPIControllerInterface(Elaboratable):
             self.word_complete.eq(spi_device.word_complete),
         ]
 
-        clock_edge = Rose(sck_divider.clock_out, clocks=self.divisor//8, domain="sync") if not self.clock_polarity else \
-                     Fell(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
+        # With clock phase 1 a transfer starts on a leading clock edge, which outputs the first bit.
+        # With clock phase 0 the first bit is already sampled on the first leading edge, so that
+        # the chip must be selected before it, while the clock is still at its idle level.
+        start_edge = Rose if self.clock_phase != self.clock_polarity else Fell
+        clock_edge = start_edge(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
 
         with m.FSM() as fsm:
             m.d.comb += sck.eq(Mux(fsm.ongoing("TRANSFER"), sck_divider.clock_out, self.clock_polarity))
-- 
2.43.0


From d4a40a6e146bf075b7366e8eb296215e46c5dffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 02/60] fix: SPI interfaces connect to pin resources through
 their actual bus, in the right direction

---
 amlib/io/spi.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 4afe431..6ff038b 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -88,10 +88,10 @@ class SPIControllerInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs if not self.cs_idles_high else ~self.spi_bus_out.cs),
+            spi_resource.copi .eq(self.spi.sdo),
+            self.spi.sdi      .eq(spi_resource.cipo),
+            spi_resource.clk  .eq(self.spi.sck),
+            spi_resource.cs   .eq(self.spi.cs if not self.cs_idles_high else ~self.spi.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
@@ -220,10 +220,10 @@ class SPIDeviceInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs if not self.cs_idles_high else ~self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs if not self.cs_idles_high else ~spi_resource.cs),
         ]
 
     def spi_edge_detectors(self, m, sck):
@@ -543,10 +543,10 @@ class SPICommandInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
@@ -899,10 +899,10 @@ class SPIRegisterInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
-- 
2.43.0


From e3e16d3885fd3c20df9a165ec62d52d9304e9fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 03/60] fix: SPI device counts every word of a multi-word
 selection from zero for any word size

---
 amlib/io/spi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 6ff038b..50d13cc 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -336,6 +336,7 @@ class SPIDeviceInterface(Elaboratable):
                 # If we're just completing a word, handle I/O.
                 with m.If(bit_count + 1 == self.word_size):
                     m.d.sync += [
+                        bit_count          .eq(0),
                         self.word_accepted .eq(1),
                         current_tx         .eq(self.word_out)
                     ]
-- 
2.43.0


From 28a7ee2ecdba91a4ce87a88895b91e4f0efa9eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 04/60] fix: I2C stream transmitter waits for the next octet
 when its FIFO runs empty inside a packet

---
 amlib/stream/i2c.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/amlib/stream/i2c.py b/amlib/stream/i2c.py
index 5bf260b..fdc503f 100644
--- a/amlib/stream/i2c.py
+++ b/amlib/stream/i2c.py
@@ -53,15 +53,13 @@ class I2CStreamTransmitter(Elaboratable):
                     m.next = "STREAMING"
 
             with m.State("STREAMING"):
-                with m.If(~i2c.busy):
+                with m.If(~i2c.busy & in_fifo.r_rdy):
                     m.d.comb += [
                         i2c.data_i.eq(payload),
                         i2c.write.eq(1),
+                        in_fifo.r_en.eq(1),
                     ]
 
-                    with m.If(in_fifo.r_rdy):
-                        m.d.comb += in_fifo.r_en.eq(1)
-
                     with m.If(last):
                         m.next = "STOP"
 
-- 
2.43.0


From e9b4c976b5109f286958c56bc55ce887fcdbe3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:31 +0000
Subject: [PATCH 05/60] fix: I2S carries both channels for samples of up to 16
 bits

---
 amlib/io/i2s.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 4a2a230..db8d16f 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -106,13 +106,8 @@ class I2STransmitter(Elaboratable):
         frame_format = self._frame_format
 
         fifo_data_width = sample_width
-        concatenate_channels = True
-        if concatenate_channels:
-            if sample_width <= 16:
-                fifo_data_width = sample_width * 2
-            else:
-                concatenate_channels = False
-                print("I2S warning: sample width greater than 16 bits. your channels can't be glued")
+        # the stream transports one channel per beat, so the channels can't be glued
+        concatenate_channels = False
 
         tx_buf_width = fifo_data_width + 1 if frame_format == I2S_FORMAT.STANDARD else fifo_data_width
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
@@ -342,13 +337,8 @@ class I2SReceiver(Elaboratable):
         frame_format = self._frame_format
 
         fifo_data_width = sample_width
-        concatenate_channels = True
-        if concatenate_channels:
-            if sample_width <= 16:
-                fifo_data_width = sample_width * 2
-            else:
-                concatenate_channels = False
-                print("I2S warning: sample width greater than 16 bits. your channels can't be glued")
+        # the stream transports one channel per beat, so the channels can't be glued
+        concatenate_channels = False
 
         rx_cnt_width = math.ceil(math.log(fifo_data_width, 2))
         rx_cnt = Signal(rx_cnt_width)
-- 
2.43.0


From b078eca6cb9f6a248476727dddda756c1b2f259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 06/60] fix: I2S bit counters hold the number of bits of every
 sample width

---
 amlib/io/i2s.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index db8d16f..90bb4e9 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -6,7 +6,6 @@
 #   Copyright (c) 2021 Hans Baier <hansfbaier@gmail.com>
 # SPDX-License-Identifier: BSD-2-Clause
 
-import math
 from enum import Enum
 
 from amaranth import *
@@ -113,8 +112,7 @@ class I2STransmitter(Elaboratable):
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
         offset       = [0]                 if frame_format == I2S_FORMAT.STANDARD else []
 
-        tx_cnt_width = math.ceil(math.log(fifo_data_width,2))
-        tx_cnt = Signal(tx_cnt_width)
+        tx_cnt = Signal(range(sample_width + 1))
         tx_shifter = Signal(tx_buf_width - 1)
         sample_msb = fifo_data_width - 1
 
@@ -340,8 +338,7 @@ class I2SReceiver(Elaboratable):
         # the stream transports one channel per beat, so the channels can't be glued
         concatenate_channels = False
 
-        rx_cnt_width = math.ceil(math.log(fifo_data_width, 2))
-        rx_cnt = Signal(rx_cnt_width)
+        rx_cnt = Signal(range(sample_width + 1))
 
         bit_clock  = Signal()
         word_clock = Signal()
-- 
2.43.0


From 4fdf9687c38313483786aeea972d46f5cdbcccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:06 +0000
Subject: [PATCH 07/60] fix: WS2812 reset gaps last the 50us the LEDs need

---
 amlib/io/ws2812.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amlib/io/ws2812.py b/amlib/io/ws2812.py
index e46fe52..cba2282 100644
--- a/amlib/io/ws2812.py
+++ b/amlib/io/ws2812.py
@@ -23,6 +23,7 @@ class WS2812(Elaboratable):
         self.full_cycle_length = sys_clock_freq // 800e3
         self.low_cycle_length  = int(0.32 * self.full_cycle_length)
         self.high_cycle_length = int(0.64 * self.full_cycle_length)
+        self.reset_length      = int(50e-6 * sys_clock_freq)
         print(f"full cycle: {self.full_cycle_length}")
 
         self.mem = Memory(width=24, depth=no_leds, name="led_memory")
@@ -51,7 +52,7 @@ class WS2812(Elaboratable):
         bit_counter = Signal(5)
         current_bit = Signal()
 
-        cycle_counter_width  = bits_for(int(self.full_cycle_length)) + 1
+        cycle_counter_width  = bits_for(max(int(self.full_cycle_length), self.reset_length)) + 1
         cycle_counter        = Signal(cycle_counter_width)
         current_cycle_length = Signal.like(cycle_counter)
 
@@ -77,7 +78,7 @@ class WS2812(Elaboratable):
                 m.d.comb += self.data_out.eq(0)
                 m.d.sync += cycle_counter.eq(cycle_counter + 1)
 
-                with m.If(cycle_counter >= Const(self.full_cycle_length)):
+                with m.If(cycle_counter >= self.reset_length):
                     m.d.sync += cycle_counter.eq(0)
 
                     with m.If(led_counter == 0):
-- 
2.43.0


From 235fd49d12eb205d7beb65d23881eab2016b7ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 08/60] fix: SerialLEDArray step counter fits start-up
 sequences of any length

---
 amlib/io/max7219.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/max7219.py b/amlib/io/max7219.py
index e1d4051..ff2843a 100644
--- a/amlib/io/max7219.py
+++ b/amlib/io/max7219.py
@@ -76,7 +76,7 @@ class SerialLEDArray(Elaboratable):
         with m.If(next_digit):
             m.d.sync += digit_counter.eq(digit_counter + 1)
 
-        step_counter = Signal(range(10))
+        step_counter = Signal(range(2 * len(self.init_sequence) + 2))
         next_step    = Signal()
 
         with m.If(next_step):
-- 
2.43.0


From 13f573f820a7363799884d8d6760ea57da5d9298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 09/60] fix: Timer signals done for load and reload values of
 one

---
 amlib/utils/timer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amlib/utils/timer.py b/amlib/utils/timer.py
index 8ac9f39..bf4d7a2 100644
--- a/amlib/utils/timer.py
+++ b/amlib/utils/timer.py
@@ -32,6 +32,8 @@ class Timer(Elaboratable):
                     # load is one-based, but we stop at zero
                     m.d.sync += counter.eq(counter - 1)
                     m.next = "RUNNING"
+                    with m.If(counter == 1):
+                        m.next = "DONE"
 
             with m.State("RUNNING"):
                 m.d.sync += counter.eq(counter - 1)
@@ -44,6 +46,8 @@ class Timer(Elaboratable):
                     # exactly 'reload_in' cycles later
                     m.d.sync += counter.eq(self.reload_in - 1)
                     m.next = "RUNNING"
+                    with m.If(self.reload_in == 1):
+                        m.next = "DONE"
                 if self._allow_restart:
                     with m.Else():
                         m.next = "IDLE"
-- 
2.43.0


From bcb45404d82a44765058077c3f276e33124a61b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 10/60] fix: bits supports negative indices

---
 amlib/utils/bits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/utils/bits.py b/amlib/utils/bits.py
index feda7d8..0b01dc8 100644
--- a/amlib/utils/bits.py
+++ b/amlib/utils/bits.py
@@ -137,7 +137,7 @@ class bits:
     def __getitem__(self, key):
         if isinstance(key, int):
             if key < 0:
-                return (self._int_ >> (self._len_ - key)) & 1
+                return (self._int_ >> (self._len_ + key)) & 1
             else:
                 return (self._int_ >> key) & 1
         if isinstance(key, slice):
-- 
2.43.0


From df2eef500450934d0c47a1a6298e144bf8639c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 11/60] fix: TransactionalizedFIFO presents the rewound data
 right after a read discard

---
 amlib/utils/fifo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amlib/utils/fifo.py b/amlib/utils/fifo.py
index d82730f..d6c059c 100644
--- a/amlib/utils/fifo.py
+++ b/amlib/utils/fifo.py
@@ -180,7 +180,9 @@ class TransactionalizedFIFO(Elaboratable):
         # Our memory always takes a single cycle to provide its read output; so we'll update its address
         # "one cycle in advance". Accordingly, if we're about to advance the FIFO, we'll use the next read
         # address as our input. If we're not, we'll use the current one.
-        with m.If(self.read_en & ~self.empty):
+        with m.If(self.read_discard):
+            m.d.comb += read_port.addr.eq(committed_read_pointer)
+        with m.Elif(self.read_en & ~self.empty):
             m.d.comb += read_port.addr.eq(next_read_pointer)
         with m.Else():
             m.d.comb += read_port.addr.eq(current_read_pointer)
-- 
2.43.0


From 0c35104e8d05e626d7212d984c94175ab3a6f633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 12/60] fix: past_value_of keeps the full width of its signal

---
 amlib/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/utils/__init__.py b/amlib/utils/__init__.py
index 01d14d9..5cf9a8e 100644
--- a/amlib/utils/__init__.py
+++ b/amlib/utils/__init__.py
@@ -52,7 +52,7 @@ def past_value_of(m, signal, *, domain):
     """ Generates and returns a signal that represents the value of another signal a cycle ago. """
 
     # Create a one-cycle delayed version of our input signal.
-    delayed = Signal()
+    delayed = Signal.like(signal)
     m.d[domain] += delayed.eq(signal)
 
     return delayed
-- 
2.43.0


From d1202bebdbac7d16e3f8f36f5acb4e8791c46c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 13/60] fix: seven segment hex digit D is told apart from 0

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 3b133a7..30744ea 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -24,7 +24,7 @@ seven_segment_font = [
 seven_segment_hex_numbers = [
   ['0', 0b1111110], ['1', 0b0110000], ['2', 0b1101101], ['3', 0b1111001], ['4', 0b0110011],
   ['5', 0b1011011], ['6', 0b1011111], ['7', 0b1110000], ['8', 0b1111111], ['9', 0b1111011],
-  ['A', 0b1110111], ['b', 0b0011111], ['C', 0b1001110], ['D', 0b1111110], ['E', 0b1001111], ['F', 0b1000111],
+  ['A', 0b1110111], ['b', 0b0011111], ['C', 0b1001110], ['d', 0b0111101], ['E', 0b1001111], ['F', 0b1000111],
 ]
 
 class NibbleToSevenSegmentHex(Elaboratable):
-- 
2.43.0


From b1057cccd421bbacb3e6d9aeaf02a0ba16a4c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 14/60] fix: NumberToBitBar input can take on its maximum value

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 30744ea..4959835 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -88,7 +88,7 @@ class NumberToBitBar(Elaboratable):
         self.bitbar   = [Const(int(2**n - 1), bitwidth_out) for n in range(bitwidth_out + 1)]
 
         # I/O
-        self.value_in   = Signal(range(maxvalue_in))
+        self.value_in   = Signal(range(maxvalue_in + 1))
         self.bitbar_out = Signal(bitwidth_out)
 
     def elaborate(self, platform: Platform) -> Module:
-- 
2.43.0


From 53f7bf741543ec11c181a1594cb5055f51c79dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 15/60] fix: streams with extra fields can be connected to each
 other

---
 amlib/stream/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/__init__.py b/amlib/stream/__init__.py
index 2df6991..47b9764 100644
--- a/amlib/stream/__init__.py
+++ b/amlib/stream/__init__.py
@@ -70,7 +70,7 @@ class StreamInterface(Record):
     def attach(self, interface, omit=None):
         # Create lists of fields to be copied -to- the interface (RHS fields),
         # and lists of fields to be copied -from- the interface (LHS fields).
-        rhs_fields = ['valid', 'first', 'last', 'payload', *self._extra_fields]
+        rhs_fields = ['valid', 'first', 'last', 'payload', *(name for name, *_ in self._extra_fields)]
         lhs_fields = ['ready']
         assignments = []
 
-- 
2.43.0


From 4f3ef63330970efa80e6d80ad285bbd698e1c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 16/60] fix: FIFO bit 0 can carry the first or last flag of a
 stream

---
 amlib/stream/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amlib/stream/__init__.py b/amlib/stream/__init__.py
index 47b9764..f947c2b 100644
--- a/amlib/stream/__init__.py
+++ b/amlib/stream/__init__.py
@@ -134,9 +134,9 @@ def connect_fifo_to_stream(fifo: FIFOInterface, stream: StreamInterface, firstBi
         stream.payload.eq(fifo.r_data),
     ]
 
-    if firstBit:
+    if firstBit is not None:
         result.append(stream.first.eq(fifo.r_data[firstBit]))
-    if lastBit:
+    if lastBit is not None:
         result.append(stream.last.eq(fifo.r_data[lastBit]))
 
     return result
@@ -155,9 +155,9 @@ def connect_stream_to_fifo(stream: StreamInterface, fifo: FIFOInterface, firstBi
         fifo.w_data.eq(stream.payload),
     ]
 
-    if firstBit:
+    if firstBit is not None:
         result.append(fifo.w_data[firstBit].eq(stream.first))
-    if lastBit:
+    if lastBit is not None:
         result.append(fifo.w_data[lastBit].eq(stream.last))
 
     return result
-- 
2.43.0


From 38077247860d720d61b55a85d91dbd3ef4defe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 17/60] fix: ConstantStreamGenerator marks the first word and
 clamps the start position for any start position

---
 amlib/stream/generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 7fc19b6..c9825a0 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -162,7 +162,7 @@ class ConstantStreamGenerator(Elaboratable):
             bytes_per_word = 0
 
         # Track when we're on the first and last packet.
-        on_first_packet = position_in_stream == self.start_position
+        on_first_packet = Signal()
         on_last_packet  = \
             (position_in_stream          == (data_length - 1)) | \
             (bytes_sent + bytes_per_word >= self.max_length)
@@ -173,7 +173,7 @@ class ConstantStreamGenerator(Elaboratable):
         start_position = Signal.like(position_in_stream)
 
         # If our starting position is greater than our data length, use our data length.
-        with m.If(self.start_position >= self._data_length):
+        with m.If(self.start_position >= data_length):
             m.d.comb += start_position.eq(data_length - 1)
 
         # Otherwise, use our starting position.
@@ -198,6 +198,7 @@ class ConstantStreamGenerator(Elaboratable):
                 # Keep ourselves at the beginning of the stream, but don't yet count.
                 m.d.sync += [
                     position_in_stream  .eq(start_position),
+                    on_first_packet     .eq(1),
                     bytes_sent          .eq(0)
                 ]
                 m.d.comb += [
@@ -288,6 +289,7 @@ class ConstantStreamGenerator(Elaboratable):
 
                 # If the current data byte is accepted, move past it.
                 with m.If(self.stream.ready):
+                    m.d.sync += on_first_packet.eq(0)
 
                     # If there's still data left to transmit, move forward.
                     with m.If(~on_last_packet):
-- 
2.43.0


From 6927d879f2953b618cd30e405850d8daf0878139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 18/60] fix: PacketListStreamer finishes when its packets total
 a power of two

---
 amlib/stream/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index c9825a0..876d3d7 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -743,7 +743,7 @@ class PacketListStreamer(Elaboratable):
         total_no_bytes = len(packets_flattened)
 
         position           = Signal(range(total_no_bytes))
-        next_position      = Signal.like(position)
+        next_position      = Signal(range(total_no_bytes + 1))
         current_packet     = Signal(range(no_packets))
         current_packet_len = Signal(max_length_width)
 
-- 
2.43.0


From 2f11809f5ecfdda181077196bfca9653d27d1298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 19/60] fix: PacketListStreamer sends words of any width on any
 stream type

---
 amlib/stream/generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 876d3d7..204c7d0 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -726,6 +726,8 @@ class PacketListStreamer(Elaboratable):
             self.stream  = stream_type()
             self._data_width = len(self.stream.data)
 
+        self._stream_type = stream_type
+
     def elaborate(self, platform) -> Module:
         m = Module()
         packet_lengths = [len(p) for p in self.packets]
@@ -733,9 +735,11 @@ class PacketListStreamer(Elaboratable):
 
         max_length_width = bits_for(max(packet_lengths))
         packets_flattened = [words for packet in self.packets for words in packet]
+        bytes_per_word = (self._data_width + 7) // 8
 
         m.submodules.generator = generator = \
-            ConstantStreamGenerator(packets_flattened, max_length_width=max_length_width)
+            ConstantStreamGenerator(packets_flattened, stream_type=self._stream_type, data_width=self._data_width,
+                                    max_length_width=bits_for(max(packet_lengths) * bytes_per_word))
 
         rom = Memory(width=max_length_width, depth=no_packets, init=packet_lengths)
         m.submodules.packet_lengths_rom = packet_lengths_rom = rom.read_port(transparent=False)
@@ -753,7 +757,7 @@ class PacketListStreamer(Elaboratable):
             generator.start_position.eq(position),
             packet_lengths_rom.addr.eq(current_packet),
             current_packet_len.eq(packet_lengths_rom.data),
-            generator.max_length.eq(current_packet_len),
+            generator.max_length.eq(current_packet_len * bytes_per_word),
             next_position.eq(position + current_packet_len),
             self.done.eq(0)
         ]
-- 
2.43.0


From 70bb783dd75cfd82cbb302c085f0e881f550b134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:32 +0000
Subject: [PATCH 20/60] fix: FIR filter has the cutoff frequency it was given

---
 amlib/dsp/fixedpointfirfilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index 6cdc154..9d0c919 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -28,7 +28,7 @@ class FixedPointFIRFilter(Elaboratable):
 
         if type(cutoff_freq) == int:
             cutoff = cutoff_freq / samplerate
-            taps = signal.firwin(filter_order, cutoff, fs=samplerate, pass_zero=filter_type, window='hamming')
+            taps = signal.firwin(filter_order, cutoff_freq, fs=samplerate, pass_zero=filter_type, window='hamming')
         elif type(cutoff_freq) == list and len(cutoff_freq) == 2:
             Fs = samplerate
             Fpb = cutoff_freq[0]
-- 
2.43.0


From b901a28f90ba1ff9d78566ffdf23b5b647c05296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:32 +0000
Subject: [PATCH 21/60] fix: FIR filter MAC loop uses the newest sample and the
 full coefficients

---
 amlib/dsp/fixedpointfirfilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index 9d0c919..2c1e271 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -86,14 +86,14 @@ class FixedPointFIRFilter(Elaboratable):
             ix = Signal(range(n + 1))
             madd = Signal(signed(self.bitwidth))
             a = Signal(signed(self.bitwidth))
-            b = Signal(signed(self.bitwidth))
+            b = Signal(signed(width))
 
             with m.FSM(reset="IDLE"):
                 with m.State("IDLE"):
                     with m.If(self.enable_in):
                         m.d.sync += [
                             ix.eq(1),
-                            a.eq(x[0]),
+                            a.eq(self.signal_in),
                             b.eq(taps[0]),
                             madd.eq(0)
                         ]
-- 
2.43.0


From 4ee0d7186959b15d50584f414e43f376c3a5549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:32 +0000
Subject: [PATCH 22/60] fix: half band filter MAC loop uses the newest sample
 and the full coefficients

---
 amlib/dsp/fixedpointhbfilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/fixedpointhbfilter.py b/amlib/dsp/fixedpointhbfilter.py
index ce33b54..fc4442a 100644
--- a/amlib/dsp/fixedpointhbfilter.py
+++ b/amlib/dsp/fixedpointhbfilter.py
@@ -75,14 +75,14 @@ class FixedPointHBFilter(Elaboratable):
             ix = Signal(range(n + 2))
             madd = Signal(signed(self.bitwidth + 1))
             a = Signal(signed(self.bitwidth + 1))
-            b = Signal(signed(self.bitwidth))
+            b = Signal(signed(width))
 
             with m.FSM(reset="IDLE"):
                 with m.State("IDLE"):
                     with m.If(self.strobe_in):
                         m.d.sync += [
                             ix.eq(2),
-                            a.eq(x[0] + x[n - 1]),
+                            a.eq(self.signal_in + x[n - 2]),
                             b.eq(taps[0]),
                             madd.eq(0)
                         ]
-- 
2.43.0


From 3475a8c1bd195400687bdce0ed5e375eac091191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:16 +0000
Subject: [PATCH 23/60] fix: resampler waits for room in its FIFO instead of
 dropping upsampled samples

---
 amlib/dsp/resampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amlib/dsp/resampler.py b/amlib/dsp/resampler.py
index 07c4618..bd47d0b 100644
--- a/amlib/dsp/resampler.py
+++ b/amlib/dsp/resampler.py
@@ -84,8 +84,8 @@ class FractionalResampler(Elaboratable):
             input_ready.eq((upsample_counter == 0) & (downsamplefifo.w_rdy)),
             input_data.eq(self.signal_in.payload.as_signed()),
             antialiasingfilter.signal_in.eq(upsampled_signal),
-            antialiasingfilter.enable_in.eq(upsample_counter > 0),
-            downsamplefifo.w_en.eq(downsamplefifo.w_rdy & antialiasingfilter.enable_in),
+            antialiasingfilter.enable_in.eq((upsample_counter > 0) & downsamplefifo.w_rdy),
+            downsamplefifo.w_en.eq(antialiasingfilter.enable_in),
         ]
 
         with m.If(input_valid & input_ready):
@@ -94,7 +94,7 @@ class FractionalResampler(Elaboratable):
                 antialiasingfilter.enable_in.eq(1),
             ]
             m.d.sync += upsample_counter.eq(self.upsample_factor - 1)
-        with m.Elif(upsample_counter > 0):
+        with m.Elif((upsample_counter > 0) & downsamplefifo.w_rdy):
             m.d.comb += upsampled_signal.eq(0)
             m.d.sync += upsample_counter.eq(upsample_counter - 1)
 
-- 
2.43.0


From c0165c66801abce71f1a76d0d59921eb17bb0059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:16 +0000
Subject: [PATCH 24/60] fix: resampler output is valid independently of ready
 and keeps its sample until it is taken

---
 amlib/dsp/resampler.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/amlib/dsp/resampler.py b/amlib/dsp/resampler.py
index bd47d0b..b930e3e 100644
--- a/amlib/dsp/resampler.py
+++ b/amlib/dsp/resampler.py
@@ -103,27 +103,21 @@ class FractionalResampler(Elaboratable):
 
         m.d.comb += [
             downsamplefifo.w_data.eq(antialiasingfilter.signal_out),
-            self.signal_out.valid.eq(downsamplefifo.r_rdy),
         ]
 
-        with m.If(downsamplefifo.r_rdy & self.signal_out.ready):
-            m.d.comb += downsamplefifo.r_en.eq(1)
-
-            with m.If(downsample_counter == 0):
-                m.d.sync += downsample_counter.eq(self.downsample_factor - 1)
-                m.d.comb += [
-                    self.signal_out.payload.eq(downsamplefifo.r_data),
-                    self.signal_out.valid.eq(1),
-                ]
-            with m.Else():
-                m.d.sync += downsample_counter.eq(downsample_counter - 1)
-                m.d.comb += self.signal_out.valid.eq(0)
-
-        with m.Else():
+        # Only every N-th sample is presented at the output, the others are discarded.
+        with m.If(downsample_counter == 0):
             m.d.comb += [
-                downsamplefifo.r_en.eq(0),
-                self.signal_out.valid.eq(0),
+                self.signal_out.payload.eq(downsamplefifo.r_data),
+                self.signal_out.valid.eq(downsamplefifo.r_rdy),
+                downsamplefifo.r_en.eq(downsamplefifo.r_rdy & self.signal_out.ready),
             ]
+            with m.If(downsamplefifo.r_en):
+                m.d.sync += downsample_counter.eq(self.downsample_factor - 1)
+        with m.Else():
+            m.d.comb += downsamplefifo.r_en.eq(downsamplefifo.r_rdy)
+            with m.If(downsamplefifo.r_en):
+                m.d.sync += downsample_counter.eq(downsample_counter - 1)
 
         return m
 
-- 
2.43.0


From 7fad1a3da30ef6ad9b661fb4590e397e190cdba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:16 +0000
Subject: [PATCH 25/60] fix: resampler supports samples of more than 16 bits

---
 amlib/dsp/resampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amlib/dsp/resampler.py b/amlib/dsp/resampler.py
index b930e3e..cf97f6e 100644
--- a/amlib/dsp/resampler.py
+++ b/amlib/dsp/resampler.py
@@ -63,6 +63,7 @@ class FractionalResampler(Elaboratable):
             Filterbank(self.filter_instances,
                        self.input_samplerate * self.upsample_factor,
                        bitwidth=headroom_bitwidth,
+                       fraction_width=max(18, headroom_bitwidth),
                        filter_structure=self.filter_structure,
                        cutoff_freq=self.filter_cutoff,
                        filter_order=self.filter_order,
-- 
2.43.0


From 949fc3cb1676feee918cf1de99416553b5e8c09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 26/60] fix: convolution tap counter reaches its end for any
 number of taps per slice

---
 amlib/dsp/convolution/mac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index b20a128..379e0ff 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -118,7 +118,7 @@ class StereoConvolutionMAC(Elaboratable):
         set1 = Signal()
         set2 = Signal()
         output_channels = Signal(2)
-        ix = Signal(range(self._samples_per_slice + 1))
+        ix = Signal(range(self._samples_per_slice + 2))
 
         previous_sample1 = Signal(self._size_of_slizes)
         previous_sample2 = Signal.like(previous_sample1)
-- 
2.43.0


From 867cb4342f32c2b4e925e93d8b91ad0d1e1d0929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 27/60] fix: negative convolution taps do not change the taps
 of the neighbouring slices

---
 amlib/dsp/convolution/mac.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index 379e0ff..bbcaca7 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -89,14 +89,16 @@ class StereoConvolutionMAC(Elaboratable):
         self._samples1_memory = Memory(width=self._size_of_slizes, depth=self._samples_per_slice)
         self._samples2_memory = Memory(width=self._size_of_slizes, depth=self._samples_per_slice)
 
+        # negative taps must not borrow from the neighbouring slices
+        tap_mask = (1 << self._bitwidth) - 1
         taps_fp_mod = []
         taps2_fp_mod = []
         for i in range(0, self._tapcount, self._slices):
             val1 = 0
             val2 = 0
             for j in range(self._slices):
-                val1 += int(taps_fp[i+j]) << (self._slices - j - 1) * self._bitwidth
-                val2 += int(taps2_fp[i+j]) << (self._slices - j - 1) * self._bitwidth
+                val1 += (int(taps_fp[i+j]) & tap_mask) << (self._slices - j - 1) * self._bitwidth
+                val2 += (int(taps2_fp[i+j]) & tap_mask) << (self._slices - j - 1) * self._bitwidth
             taps_fp_mod.append(val1)
             taps2_fp_mod.append(val2)
 
-- 
2.43.0


From 70f038349b0fa268ee0ed7c73521b197a140394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 28/60] fix: convolution output samples stay valid until they
 are taken

---
 amlib/dsp/convolution/mac.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index bbcaca7..462ab50 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -150,7 +150,6 @@ class StereoConvolutionMAC(Elaboratable):
         ]
 
         m.d.sync += [
-            self.signal_out.valid.eq(0),
             samples1_write_port.en.eq(0),
             samples2_write_port.en.eq(0),
 
@@ -284,16 +283,17 @@ class StereoConvolutionMAC(Elaboratable):
                     ix.eq(0),
                 ]
 
-                with m.If(output_channels == 2):
-                    m.next = "IDLE"
-                with m.Elif(self.signal_out.ready):
-                    m.d.sync += [
-                        output_channels.eq(output_channels + 1),
-                        self.signal_out.payload.eq(Mux(output_channels == 0, sumSignalL >> self._bitwidth, sumSignalR >> self._bitwidth)),
-                        self.signal_out.valid.eq(1),
-                        self.signal_out.first.eq(~output_channels),
-                        self.signal_out.last.eq(output_channels),
-                    ]
+                m.d.comb += [
+                    self.signal_out.payload.eq(Mux(output_channels == 0, sumSignalL >> self._bitwidth, sumSignalR >> self._bitwidth)),
+                    self.signal_out.valid.eq(1),
+                    self.signal_out.first.eq(~output_channels),
+                    self.signal_out.last.eq(output_channels),
+                ]
+
+                with m.If(self.signal_out.ready):
+                    m.d.sync += output_channels.eq(output_channels + 1)
+                    with m.If(output_channels == 1):
+                        m.next = "IDLE"
 
         return m
 
-- 
2.43.0


From 1feb114ed66bc34e68f8e08b7f4cf58de2e3fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 29/60] fix: FFT outputs its bins from the first to the last
 one

---
 amlib/dsp/fixedpointfft.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 5c57ff9..2f5f2db 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -422,7 +422,10 @@ class FixedPointFFT(Elaboratable):
                             xr_rd.addr.eq(idx),
                             xi_rd.addr.eq(idx),
                         ]
-                    m.next = "READOUT"
+                    m.next = "READOUT_LATCHED"
+
+            with m.State("READOUT_LATCHED"):
+                m.next = "READOUT"
 
             with m.State("READOUT"):
                 with m.If(N & 1):
-- 
2.43.0


From 7d1094cb800b9eec82a3a54759759ce3228d7882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 30/60] fix: FFT window coefficients are loaded to their own
 positions

---
 amlib/dsp/fixedpointfft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 2f5f2db..9c8a77e 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -222,15 +222,16 @@ class FixedPointFFT(Elaboratable):
                     m.d.sync += wfidx.eq(0)
                     m.next = "DONE"
                 with m.Else():
-                    m.d.sync += wfidx.eq(wfidx+1)
                     m.next = "WINDOW_WR"
 
             with m.State("WINDOW_WR"):
                 with m.If(self.wf_strobe):
                     m.d.sync += [
                         wFr_wr.addr.eq(wfidx),
+                        wFi_wr.addr.eq(wfidx),
                         wFr_wr.en.eq(1),
                         wFi_wr.en.eq(1),
+                        wfidx.eq(wfidx+1),
                     ]
                     m.next = "WINDOW_WRLOOP"
 
-- 
2.43.0


From 96222711359c3f5f1639675ee1e6b5e768671c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 31/60] fix: FFT window coefficients are taken at their strobe

---
 amlib/dsp/fixedpointfft.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 9c8a77e..7840d72 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -143,11 +143,6 @@ class FixedPointFFT(Elaboratable):
 
         # Window write
         wfidx = Signal(range(self.pts+1))
-        m.d.comb += [
-            wFr_wr.data.eq(self.wf_real),
-            wFi_wr.data.eq(self.wf_imag),
-        ]
-
         # FFT
         widx = Signal(N)
         stage = Signal(range(N+1))
@@ -229,6 +224,8 @@ class FixedPointFFT(Elaboratable):
                     m.d.sync += [
                         wFr_wr.addr.eq(wfidx),
                         wFi_wr.addr.eq(wfidx),
+                        wFr_wr.data.eq(self.wf_real),
+                        wFi_wr.data.eq(self.wf_imag),
                         wFr_wr.en.eq(1),
                         wFi_wr.en.eq(1),
                         wfidx.eq(wfidx+1),
-- 
2.43.0


From a0cb0def1904e98a7e68a5820e1126dafeb9b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:14 +0000
Subject: [PATCH 32/60] fix: ILA captures two pretrigger samples when asked for
 two

---
 amlib/debug/ila.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 79f6bed..44d2f5c 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -139,7 +139,13 @@ class IntegratedLogicAnalyzer(Elaboratable):
                 if with_enable:
                     delayed_enable = Signal()
                     m.d.comb += delayed_enable.eq(synced_enable)
-            else: # samples_pretrigger >= 2
+            elif self.samples_pretrigger == 2:
+                # the latency of the pretrigger FIFO would already be one sample too many
+                m.d.sync += delayed_inputs.eq(synced_inputs)
+                if with_enable:
+                    delayed_enable = Signal()
+                    m.d.sync += delayed_enable.eq(synced_enable)
+            else: # samples_pretrigger >= 3
                 capture_fifo_width = self.sample_width
                 if with_enable:
                     capture_fifo_width += 1
-- 
2.43.0


From 933f038eb02a816b09c6687b13084e0f8d1fc308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:58 +0000
Subject: [PATCH 33/60] fix: StreamILA in another output domain ends its packet
 with the last sample

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 44d2f5c..38785be 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -812,7 +812,7 @@ class StreamILA(Elaboratable):
 
 
                         # If this was the last sample, we're done! Move back to idle.
-                        with m.If(self.stream.last):
+                        with m.If(in_domain_stream.last):
                             m.next = "IDLE"
 
                     with m.Else():
-- 
2.43.0


From ada88c73ace016ea73466db8fe7afd47e79882fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:58 +0000
Subject: [PATCH 34/60] fix: StreamILA samples become valid without waiting for
 ready

---
 amlib/debug/ila.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 38785be..c68cb4f 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -802,21 +802,21 @@ class StreamILA(Elaboratable):
                 ]
 
                 # Each time the UART accepts a valid word, move on to the next one.
-                with m.If(in_domain_stream.ready):
-                    with m.If(data_valid):
-                        m.d.sync += [
-                            current_sample_number   .eq(current_sample_number + 1),
-                            data_valid              .eq(0),
-                            in_domain_stream.first  .eq(0)
-                        ]
+                with m.If(in_domain_stream.ready & data_valid):
+                    m.d.sync += [
+                        current_sample_number   .eq(current_sample_number + 1),
+                        data_valid              .eq(0),
+                        in_domain_stream.first  .eq(0)
+                    ]
 
 
-                        # If this was the last sample, we're done! Move back to idle.
-                        with m.If(in_domain_stream.last):
-                            m.next = "IDLE"
+                    # If this was the last sample, we're done! Move back to idle.
+                    with m.If(in_domain_stream.last):
+                        m.next = "IDLE"
 
-                    with m.Else():
-                        m.d.sync += data_valid.eq(1)
+                # The next sample is valid once it is read from memory, whether or not it is taken yet.
+                with m.Else():
+                    m.d.sync += data_valid.eq(1)
 
 
         # If we're not streaming out of the same domain we're capturing from,
-- 
2.43.0


From 5ab26c93037d145c23186691939f873aaceeb830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:52 +0000
Subject: [PATCH 35/60] fix: StreamILA output domain may be the sync domain
 when capturing in another one

---
 amlib/debug/ila.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index c68cb4f..5367808 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -819,6 +819,13 @@ class StreamILA(Elaboratable):
                     m.d.sync += data_valid.eq(1)
 
 
+        # Convert our sync domain to the domain requested by the user, if necessary.
+        # The output domain must not be converted, as it may well be the sync domain.
+        if self.domain != "sync":
+            in_domain = DomainRenamer(self.domain)(m)
+            m = Module()
+            m.submodules.in_domain = in_domain
+
         # If we're not streaming out of the same domain we're capturing from,
         # we'll add some clock-domain crossing hardware.
         if self._o_domain != self.domain:
@@ -837,7 +844,7 @@ class StreamILA(Elaboratable):
             m.submodules.cdc = fifo = AsyncFIFOBuffered(
                 width=len(in_domain_signals),
                 depth=16,
-                w_domain="sync",
+                w_domain=self.domain,
                 r_domain=self._o_domain
             )
 
@@ -853,10 +860,6 @@ class StreamILA(Elaboratable):
                 fifo.r_en               .eq(self.stream.ready)
             ]
 
-        # Convert our sync domain to the domain requested by the user, if necessary.
-        if self.domain != "sync":
-            m = DomainRenamer(self.domain)(m)
-
         return m
 
 class StreamILATest(GatewareTestCase):
-- 
2.43.0


From da0ec994d9e0bdd7974ca78bcc0de2a3ee5258ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:56 +0000
Subject: [PATCH 36/60] fix: SyncSerialILA honours cs_idles_high

---
 amlib/debug/ila.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 5367808..3d2094d 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -506,6 +506,7 @@ class SyncSerialILA(Elaboratable):
 
         self.clock_phase = clock_phase
         self.clock_polarity = clock_polarity
+        self.cs_idles_high = cs_idles_high
 
         # Extract the domain from our keyword arguments, and then translate it to sync
         # before we pass it back below. We'll use a DomainRenamer at the boundary to
@@ -552,13 +553,16 @@ class SyncSerialILA(Elaboratable):
         m  = Module()
         m.submodules.ila = self.ila
 
-        transaction_start = Rose(self.spi.cs)
+        selected = Signal()
+        m.d.comb += selected.eq(~self.spi.cs if self.cs_idles_high else self.spi.cs)
+        transaction_start = Rose(selected)
 
         # Connect up our SPI transciever to our public interface.
         interface = SPIDeviceInterface(
             word_size=self.bits_per_sample,
             clock_polarity=self.clock_polarity,
-            clock_phase=self.clock_phase
+            clock_phase=self.clock_phase,
+            cs_idles_high=self.cs_idles_high
         )
         m.submodules.spi = interface
         m.d.comb += [
@@ -573,7 +577,7 @@ class SyncSerialILA(Elaboratable):
 
         # Our first piece of data is latched in when the transaction
         # starts, so we'll move on to sample #1.
-        with m.If(self.spi.cs):
+        with m.If(selected):
             with m.If(transaction_start):
                 m.d.sync += current_sample_number.eq(1)
 
@@ -582,7 +586,7 @@ class SyncSerialILA(Elaboratable):
             with m.Elif(interface.word_accepted):
                 m.d.sync += current_sample_number.eq(current_sample_number + 1)
 
-        # Whenever CS is low, we should be providing the very first sample,
+        # Whenever we're not selected, we should be providing the very first sample,
         # so reset our sample counter to 0.
         with m.Else():
             m.d.sync += current_sample_number.eq(0)
-- 
2.43.0


From cb4ec6b6d646598c2deecf2898a1f125ab8d3cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:06 +0000
Subject: [PATCH 37/60] fix: SPI edge detection follows a renaming of the sync
 domain

---
 amlib/debug/ila.py |  5 +++--
 amlib/io/spi.py    | 27 ++++++++++++++++++++-------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 3d2094d..8a30657 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -18,7 +18,6 @@ import subprocess
 from abc             import ABCMeta, abstractmethod
 
 from amaranth          import Signal, Module, Cat, Elaboratable, Memory, DomainRenamer, Mux
-from amaranth.hdl.ast  import Rose
 from amaranth.lib.cdc  import FFSynchronizer
 from amaranth.lib.fifo import SyncFIFOBuffered, AsyncFIFOBuffered
 from vcd             import VCDWriter
@@ -555,7 +554,9 @@ class SyncSerialILA(Elaboratable):
 
         selected = Signal()
         m.d.comb += selected.eq(~self.spi.cs if self.cs_idles_high else self.spi.cs)
-        transaction_start = Rose(selected)
+        was_selected = Signal()
+        m.d.sync += was_selected.eq(selected)
+        transaction_start = selected & ~was_selected
 
         # Connect up our SPI transciever to our public interface.
         interface = SPIDeviceInterface(
diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 50d13cc..2e9038e 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -10,13 +10,21 @@ import unittest
 
 from amaranth          import Signal, Module, Cat, Elaboratable, Record, Mux
 from amaranth.build    import Platform
-from amaranth.hdl.ast  import Rose, Fell
 from amaranth.hdl.rec  import DIR_FANIN, DIR_FANOUT
 from amaranth.lib.cdc  import FFSynchronizer
 
 from ..test   import GatewareTestCase, sync_test_case
 from ..utils  import SimpleClockDivider
 
+def _past(m, signal, clocks=1):
+    """ Returns the value of the given signal the given number of cycles ago.
+    In contrast to Past(), the registers follow a renaming of the sync domain. """
+    for _ in range(clocks):
+        past = Signal.like(signal, reset_less=True)
+        m.d.sync += past.eq(signal)
+        signal = past
+    return signal
+
 class SPIDeviceBus(Record):
     """ Record representing an SPI bus. """
 
@@ -131,8 +139,12 @@ class SPIControllerInterface(Elaboratable):
         # With clock phase 1 a transfer starts on a leading clock edge, which outputs the first bit.
         # With clock phase 0 the first bit is already sampled on the first leading edge, so that
         # the chip must be selected before it, while the clock is still at its idle level.
-        start_edge = Rose if self.clock_phase != self.clock_polarity else Fell
-        clock_edge = start_edge(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
+        delayed_clock = _past(m, sck_divider.clock_out, self.divisor//8)
+        last_clock    = _past(m, delayed_clock)
+        if self.clock_phase != self.clock_polarity:
+            clock_edge = ~last_clock & delayed_clock
+        else:
+            clock_edge = last_clock & ~delayed_clock
 
         with m.FSM() as fsm:
             m.d.comb += sck.eq(Mux(fsm.ongoing("TRANSFER"), sck_divider.clock_out, self.clock_polarity))
@@ -244,8 +256,9 @@ class SPIDeviceInterface(Elaboratable):
         # Generate the leading and trailing edge detectors.
         # Note that we use rising and falling edge detectors, but call these leading and
         # trailing edges, as our clock here may have been inverted.
-        leading_edge  = Rose(serial_clock, domain="sync")
-        trailing_edge = Fell(serial_clock, domain="sync")
+        last_clock    = _past(m, serial_clock)
+        leading_edge  = ~last_clock & serial_clock
+        trailing_edge = last_clock & ~serial_clock
 
         # Determine the sample and output edges based on the SPI clock phase.
         sample_edge = trailing_edge if self.clock_phase else leading_edge
@@ -316,7 +329,7 @@ class SPIDeviceInterface(Elaboratable):
         # with clock phase 0 we need to output the first bit when chip select
         # goes active, because it will be sampled on the leading edge
         if self.clock_phase == 0:
-            with m.If(Rose(chip_selected, domain="sync")):
+            with m.If(~_past(m, chip_selected) & chip_selected):
                 output_one_bit(m)
 
         with m.If(chip_selected):
@@ -555,7 +568,7 @@ class SPICommandInterface(Elaboratable):
         m = Module()
         spi = self.spi
 
-        sample_edge = Fell(spi.sck, domain="sync")
+        sample_edge = _past(m, spi.sck) & ~spi.sck
 
         # Bit counter: counts the number of bits received.
         max_bit_count = max(self.word_size, self.command_size)
-- 
2.43.0


From a290de16de6a2efe0423c57e6234f014761ccdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:19 +0000
Subject: [PATCH 38/60] fix: AsyncSerialILAFrontend reads samples least
 significant byte first, as they are sent

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 8a30657..b2beeb4 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1269,7 +1269,7 @@ class AsyncSerialILAFrontend(ILAFrontend):
             raw_sample    = all_samples[i:i + sample_width_bytes]
             sample_length = len(Cat(self.ila.signals))
 
-            yield bits.from_bytes(raw_sample, length=sample_length, byteorder='big')
+            yield bits.from_bytes(raw_sample, length=sample_length, byteorder='little')
 
 
     def _read_samples(self):
-- 
2.43.0


From ebbf0dd5ccadfc2315ba09b43561c3efeb546bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:19 +0000
Subject: [PATCH 39/60] fix: GTKWave save file shows the ILA clock only if
 there is one

---
 amlib/debug/ila.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index b2beeb4..8c1e14b 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1206,7 +1206,8 @@ class ILAFrontend(metaclass=ABCMeta):
             gtkw.dumpfile(dump_filename)
 
             # If we're adding a clock, add it to the top of the view.
-            gtkw.trace('ila.ila_clock')
+            if add_clock:
+                gtkw.trace('ila.ila_clock')
 
             # Gain more screen space by collapsing the signal tree
             gtkw.sst_expanded(False)
-- 
2.43.0


From 7ac3c90f2bf09319b0c8d9e45e94dbf3f57d75f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:14 +0000
Subject: [PATCH 40/60] fix: WishboneRAM initial bytes fill whole words for any
 granularity

---
 amlib/soc/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index 23b9d48..c31649b 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -33,7 +33,7 @@ class WishboneRAM(Elaboratable):
         if not isinstance(value, bytes):
             return value
 
-        bytes_per_chunk = data_width // granularity
+        bytes_per_chunk = data_width // 8
 
         words = (value[pos:pos + bytes_per_chunk] for pos in range(0, len(value), bytes_per_chunk))
         return [int.from_bytes(word, byteorder=byteorder) for word in words]
-- 
2.43.0


From db88414099d447f4e937b328d2220fd50dfb6efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:14 +0000
Subject: [PATCH 41/60] fix: WishboneROM has the granularity it was given

---
 amlib/soc/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index c31649b..f8d1db2 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -152,7 +152,7 @@ class WishboneROM(WishboneRAM):
         super().__init__(
             addr_width=addr_width,
             data_width=data_width,
-            granularity=8,
+            granularity=granularity,
             init=data,
             read_only=True,
             name=name
-- 
2.43.0


From 2f5e59865624ebd03c4b723a18ce281143cdffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 42/60] fix: C header can be generated with registers of any
 size

---
 amlib/soc/simplesoc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/soc/simplesoc.py b/amlib/soc/simplesoc.py
index 6d1f25b..75dec4e 100644
--- a/amlib/soc/simplesoc.py
+++ b/amlib/soc/simplesoc.py
@@ -438,8 +438,8 @@ class SimpleSoC(CPUSoC, Elaboratable):
             emit(f"#define {name.upper()}_SIZE ({size})")
 
             # If we have information on how to access this resource, generate convenience
-            # macros for reading and writing it.
-            if hasattr(resource.resource, 'access'):
+            # macros for reading and writing it. Registers of a size no C type has get none.
+            if hasattr(resource.resource, 'access') and size in types_for_size:
                 c_type = types_for_size[size]
 
                 # Generate a read stub, if useful...
-- 
2.43.0


From b84cc9a2bccda7573a53e173c865a6e7450ea82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 43/60] fix: resources of a SimpleSoC with a BIOS can be listed
 without the BIOS memories

---
 amlib/soc/simplesoc.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/amlib/soc/simplesoc.py b/amlib/soc/simplesoc.py
index 75dec4e..3b2780f 100644
--- a/amlib/soc/simplesoc.py
+++ b/amlib/soc/simplesoc.py
@@ -61,6 +61,9 @@ class SimpleSoC(CPUSoC, Elaboratable):
         self._irqs           = {}
         self._next_irq_index = 0
 
+        # Keep track of the memories that only the BIOS uses.
+        self._bios_memories  = []
+
         # By default, don't attach any debug hardware; or build a BIOS.
         self._auto_debug = False
         self._build_bios = build_bios
@@ -184,6 +187,8 @@ class SimpleSoC(CPUSoC, Elaboratable):
         self.scratchpad = SRAMPeripheral(size=0x1000)
         self.add_peripheral(self.scratchpad, addr=addr)
 
+        self._bios_memories  = [self.bootrom.bus.memory_map, self.scratchpad.bus.memory_map]
+
         self.sdram = None
         self.ethmac = None
 
@@ -254,14 +259,15 @@ class SimpleSoC(CPUSoC, Elaboratable):
 
         # ... find each addressable peripheral...
         for peripheral, (peripheral_start, _end, _granularity) in memory_map.windows():
+
+            # If we're omitting bios resources, skip the BIOS ram/rom.
+            if omit_bios_mem and any(peripheral is memory for memory in self._bios_memories):
+                continue
+
             resources = peripheral.all_resources()
 
             # ... find the peripheral's resources...
             for resource in resources:
-                if self._build_bios and omit_bios_mem:
-                    # If we're omitting bios resources, skip the BIOS ram/rom.
-                    if (self.ram._mem is resource) or (self.rom._mem is resource):
-                        continue
 
                 # ... and extract the peripheral's range/vitals...
                 size = resource.end - resource.start
-- 
2.43.0


From ce7cab4288bc7fc19d40c391deb6f1ac6d23cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 44/60] fix: resources of a SimpleSoC with a BIOS but no main
 RAM can be logged

---
 amlib/soc/simplesoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/soc/simplesoc.py b/amlib/soc/simplesoc.py
index 3b2780f..4303824 100644
--- a/amlib/soc/simplesoc.py
+++ b/amlib/soc/simplesoc.py
@@ -540,7 +540,7 @@ class SimpleSoC(CPUSoC, Elaboratable):
         logging.info("")
 
         # Main memory.
-        if self._build_bios:
+        if self._build_bios and self._main_ram is not None:
             memory_location = self.main_ram_address()
 
             logging.info(f"Main memory at 0x{memory_location:08x}; upload using:")
-- 
2.43.0


From c1d32b13947158f32502b77eeb4e0b81eca08144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 45/60] fix: PacketListStreamer can be started in the first
 cycle after reset

---
 amlib/stream/generator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 204c7d0..dc36ff4 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -750,6 +750,10 @@ class PacketListStreamer(Elaboratable):
         next_position      = Signal(range(total_no_bytes + 1))
         current_packet     = Signal(range(no_packets))
         current_packet_len = Signal(max_length_width)
+        length_read        = Signal()
+
+        # the length of the first packet is only available one cycle after reset
+        m.d.sync += length_read.eq(1)
 
         m.d.comb += [
             self.stream.stream_eq(generator.stream),
@@ -764,7 +768,9 @@ class PacketListStreamer(Elaboratable):
 
         with m.FSM():
             with m.State("INIT"):
-                with m.If(self.start):
+                with m.If(self.start & ~length_read):
+                    m.next = "SEND"
+                with m.Elif(self.start):
                     m.d.comb += generator.start.eq(1)
                     m.next = "WAIT"
 
-- 
2.43.0


From 8e88b5b86297b68b059ecb04e825e7927a04360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 46/60] fix: NumberToBitBar can drive two LEDs

---
 amlib/io/led.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 4959835..6ecdb59 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -111,6 +111,9 @@ class NumberToBitBar(Elaboratable):
             if debug: print("barbits: " + str([bin(b.value) for b in bar_bits]))
 
             range_max_values = [(self.maxvalue - self.minvalue) // (len(bar_bits) - 1) * i for i in range(1, len(bar_bits))]
+            if not range_max_values:
+                # two LEDs: every value in between lights the first one
+                range_max_values = [self.maxvalue - self.minvalue]
             rng_vals = [int(val) for val in range_max_values]
             if debug: print("ranges:  " + str(rng_vals))
 
-- 
2.43.0


From 96476fed64522de6d452075ae4b8bc613780d6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:08 +0000
Subject: [PATCH 47/60] fix: OneHotMultiplexer accepts any iterable of signals

---
 amlib/utils/bus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amlib/utils/bus.py b/amlib/utils/bus.py
index e04ff99..ef4f63f 100644
--- a/amlib/utils/bus.py
+++ b/amlib/utils/bus.py
@@ -44,9 +44,9 @@ class OneHotMultiplexer(Elaboratable):
         """
 
         self._valid_field  = valid_field
-        self._mux_signals  = mux_signals
-        self._or_signals   = or_signals
-        self._pass_signals = pass_signals
+        self._mux_signals  = tuple(mux_signals)
+        self._or_signals   = tuple(or_signals)
+        self._pass_signals = tuple(pass_signals)
 
         # Collection that stores each of the interfaces added to this bus.
         self._inputs = []
-- 
2.43.0


From cafbdf18eeeeb6a4ab71ae84611e7068023bd6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH 48/60] fix: an IntegratedLogicAnalyzer can be elaborated more
 than once

---
 amlib/debug/ila.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 8c1e14b..1c74166 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -88,12 +88,6 @@ class IntegratedLogicAnalyzer(Elaboratable):
         self.sample_rate        = sample_rate
         self.sample_period      = 1 / sample_rate
 
-        #
-        # Create a backing store for our samples.
-        #
-        self.mem = Memory(width=self.sample_width, depth=sample_depth, name="ila_buffer")
-
-
         #
         # I/O port
         #
@@ -114,9 +108,12 @@ class IntegratedLogicAnalyzer(Elaboratable):
         m  = Module()
         with_enable = self.with_enable
 
+        # Create a backing store for our samples.
+        mem = Memory(width=self.sample_width, depth=self.sample_depth, name="ila_buffer")
+
         # Memory ports.
-        write_port = self.mem.write_port()
-        read_port  = self.mem.read_port(domain='sync')
+        write_port = mem.write_port()
+        read_port  = mem.read_port(domain='sync')
         m.submodules += [write_port, read_port]
 
         # If necessary, create synchronized versions of the relevant signals.
-- 
2.43.0


From 0350ed0516eccd0c934fa0c5e90e222bc1e9c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH 49/60] fix: a WS2812 driver can be elaborated more than once

---
 amlib/io/ws2812.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/amlib/io/ws2812.py b/amlib/io/ws2812.py
index cba2282..02e5774 100644
--- a/amlib/io/ws2812.py
+++ b/amlib/io/ws2812.py
@@ -26,8 +26,6 @@ class WS2812(Elaboratable):
         self.reset_length      = int(50e-6 * sys_clock_freq)
         print(f"full cycle: {self.full_cycle_length}")
 
-        self.mem = Memory(width=24, depth=no_leds, name="led_memory")
-
         # I / O
         self.red_in          = Signal(8)
         self.green_in        = Signal(8)
@@ -43,8 +41,9 @@ class WS2812(Elaboratable):
     def elaborate(self, platform: Platform) -> Module:
         m = Module()
 
-        m.submodules.read_port  = mem_read_port  = self.mem.read_port()
-        m.submodules.write_port = mem_write_port = self.mem.write_port()
+        mem = Memory(width=24, depth=self.no_leds, name="led_memory")
+        m.submodules.read_port  = mem_read_port  = mem.read_port()
+        m.submodules.write_port = mem_write_port = mem.write_port()
 
         grb = Signal(3 * 8)
 
-- 
2.43.0


From b88c6ba438a68fe26a0e68edc2628cc98fba4429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH 50/60] fix: a StereoConvolutionMAC can be elaborated more than
 once

---
 amlib/dsp/convolution/mac.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index 462ab50..3f19959 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -84,11 +84,6 @@ class StereoConvolutionMAC(Elaboratable):
         taps_fp = taps[:self._tapcount, 0]
         taps2_fp = taps[:self._tapcount, 1]
 
-        self._taps1_memory = Memory(width=self._size_of_slizes, depth=self._samples_per_slice)
-        self._taps2_memory = Memory(width=self._size_of_slizes, depth=self._samples_per_slice)
-        self._samples1_memory = Memory(width=self._size_of_slizes, depth=self._samples_per_slice)
-        self._samples2_memory = Memory(width=self._size_of_slizes, depth=self._samples_per_slice)
-
         # negative taps must not borrow from the neighbouring slices
         tap_mask = (1 << self._bitwidth) - 1
         taps_fp_mod = []
@@ -102,18 +97,23 @@ class StereoConvolutionMAC(Elaboratable):
             taps_fp_mod.append(val1)
             taps2_fp_mod.append(val2)
 
-        self._taps1_memory.init = taps_fp_mod
-        self._taps2_memory.init = taps2_fp_mod
+        self._taps1_init = taps_fp_mod
+        self._taps2_init = taps2_fp_mod
 
     def elaborate(self, platform) -> Module:
         m = Module()
 
-        taps1_read_port = self._taps1_memory.read_port()
-        taps2_read_port = self._taps2_memory.read_port()
-        samples1_write_port = self._samples1_memory.write_port()
-        samples2_write_port = self._samples2_memory.write_port()
-        samples1_read_port = self._samples1_memory.read_port()
-        samples2_read_port = self._samples2_memory.read_port()
+        taps1_memory = Memory(width=self._size_of_slizes, depth=self._samples_per_slice, init=self._taps1_init)
+        taps2_memory = Memory(width=self._size_of_slizes, depth=self._samples_per_slice, init=self._taps2_init)
+        samples1_memory = Memory(width=self._size_of_slizes, depth=self._samples_per_slice)
+        samples2_memory = Memory(width=self._size_of_slizes, depth=self._samples_per_slice)
+
+        taps1_read_port = taps1_memory.read_port()
+        taps2_read_port = taps2_memory.read_port()
+        samples1_write_port = samples1_memory.write_port()
+        samples2_write_port = samples2_memory.write_port()
+        samples1_read_port = samples1_memory.read_port()
+        samples2_read_port = samples2_memory.read_port()
 
         m.submodules += [taps1_read_port, taps2_read_port, samples1_write_port, samples2_write_port, samples1_read_port, samples2_read_port]
 
-- 
2.43.0


From 072308d632bff0950099e83ba21651fa76817e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 51/60] fix: SPI test case exchanges data in the bit order
 asked for

---
 amlib/io/spi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 2e9038e..f825163 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -448,7 +448,7 @@ class SPIGatewareTestCase(GatewareTestCase):
         response = bytearray()
 
         for byte in data:
-            response_byte = yield from self.spi_exchange_byte(byte)
+            response_byte = yield from self.spi_exchange_byte(byte, msb_first=msb_first)
             response.append(response_byte)
             print(f"got byte: {response_byte:2x}")
 
-- 
2.43.0


From 9ccf2617783c5f7cc1d681f3dae428debb9e2590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 52/60] fix: refuse SPI registers beyond the address width in
 add_register as in add_sfr

---
 amlib/io/spi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index f825163..3293487 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -828,6 +828,7 @@ class SPIRegisterInterface(Elaboratable):
                 value_signal  -- a signal that stores the register's value; which may be the value_signal arg,
                                  or may be a signal created during execution
         """
+        assert address < (2 ** self.address_size)
         self._ensure_register_is_unused(address)
 
         # Generate a name for the register, if we don't already have one.
-- 
2.43.0


From c12e963a884b41c4883fa5d46987db6378e5e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 53/60] fix: the interactive display of an ILA shows a clock
 only if asked for one

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 1c74166..1b725c0 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1229,7 +1229,7 @@ class ILAFrontend(metaclass=ABCMeta):
             vcd_filename = os.path.join(tempfile.gettempdir(), os.urandom(24).hex() + '.vcd')
             gtkw_filename = os.path.join(tempfile.gettempdir(), os.urandom(24).hex() + '.gtkw')
 
-            self.emit_vcd(vcd_filename, gtkw_filename=gtkw_filename)
+            self.emit_vcd(vcd_filename, gtkw_filename=gtkw_filename, add_clock=add_clock)
             subprocess.run(["gtkwave", "-f", vcd_filename, "-a", gtkw_filename])
         finally:
             os.remove(vcd_filename)
-- 
2.43.0


From 315037b4268c75c754c4cafb7ce56828f2d093a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 54/60] fix: a waveform written to standard output is not mixed
 with messages

---
 amlib/debug/ila.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 1b725c0..61f6d68 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1157,7 +1157,6 @@ class ILAFrontend(metaclass=ABCMeta):
 
             # Create named values for each of our signals.
             for signal in self.ila.signals:
-                print(f"register signal {signal.name} with size {len(signal)}, signed: {signal.signed}")
                 signals[signal.name] = writer.register_var('ila', signal.name, 'integer', size=len(signal))
 
             # Dump the each of our samples into the VCD.
-- 
2.43.0


From 025ff103c71671248687f7a5cb45a12a7450c903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:16 +0000
Subject: [PATCH 55/60] fix: a deselected SPI device does not take its chip for
 selected at power-up

---
 amlib/io/spi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 3293487..eb23e7f 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -281,7 +281,8 @@ class SPIDeviceInterface(Elaboratable):
                 sdi.eq(self.spi.sdi),
             ]
         else:
-            m.submodules.cs_cdc  = FFSynchronizer(self.spi.cs,  cs)
+            # reset to the inactive level, so that the chip isn't taken for selected at power-up
+            m.submodules.cs_cdc  = FFSynchronizer(self.spi.cs,  cs, reset=1 if self.cs_idles_high else 0)
             m.submodules.sck_cdc = FFSynchronizer(self.spi.sck, sck)
             m.submodules.sdi_cdc = FFSynchronizer(self.spi.sdi, sdi)
 
-- 
2.43.0


From 8f3bef05aafc235eb1e8348cdf0ab04de002451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 56/60] fix: let the FFT be built with two points

The initial twiddle mask was computed as 2 << (N-2), which is a negative
shift for a transform of two points.
---
 amlib/dsp/fixedpointfft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 7840d72..a56eca4 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -239,7 +239,7 @@ class FixedPointFFT(Elaboratable):
                     m.d.sync += [
                         stage.eq(0),
                         idx.eq(0),
-                        mask.eq(~((2 << (N-2))-1)),
+                        mask.eq(~((1 << (N-1))-1)),
                     ]
                     m.next = "FFTLOOP"
                 with m.Else():
-- 
2.43.0


From 050a734b64c65548795d28752399ade8baecb171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:41 +0000
Subject: [PATCH 57/60] fix: keep the bytes of an incomplete last word in their
 places in big-endian memories

---
 amlib/soc/memory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index f8d1db2..63bbb5b 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -36,6 +36,9 @@ class WishboneRAM(Elaboratable):
         bytes_per_chunk = data_width // 8
 
         words = (value[pos:pos + bytes_per_chunk] for pos in range(0, len(value), bytes_per_chunk))
+
+        # The last word may be incomplete; its bytes keep their places in the word.
+        words = (word.ljust(bytes_per_chunk, b"\0") for word in words)
         return [int.from_bytes(word, byteorder=byteorder) for word in words]
 
     def __init__(self, *, addr_width, data_width=32, granularity=8, init=None,
-- 
2.43.0


From 898baa026ead99b876eea5885ad440567e0db572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:15 +0000
Subject: [PATCH 58/60] fix: a partially valid word does not let the stream
 arbiter switch sources

---
 amlib/stream/arbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/arbiter.py b/amlib/stream/arbiter.py
index c740349..2acf825 100644
--- a/amlib/stream/arbiter.py
+++ b/amlib/stream/arbiter.py
@@ -132,7 +132,7 @@ class StreamArbiter(Elaboratable):
         #
 
         # Only change which stream we're working with when the active stream stops transmitting.
-        with m.If(~active_stream.valid):
+        with m.If(~active_stream.valid.any()):
 
             # Assume we're idle until proven otherwise.
             m.d.comb += self.idle.eq(1)
-- 
2.43.0


From 719f48f1d361ce08be510f3b5b98d95fc6d5f889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:39 +0000
Subject: [PATCH 59/60] fix: the start-up delay of the MAX7219 driver may
 exceed 24 bits

---
 amlib/io/max7219.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/io/max7219.py b/amlib/io/max7219.py
index ff2843a..98227a1 100644
--- a/amlib/io/max7219.py
+++ b/amlib/io/max7219.py
@@ -6,6 +6,7 @@ from enum import IntEnum
 
 from amaranth import *
 from amaranth.build import Platform
+from amaranth.utils import bits_for
 from amaranth.compat.fhdl.structure import Repl
 
 from .spi     import SPIControllerBus, SPIControllerInterface
@@ -58,7 +59,7 @@ class SerialLEDArray(Elaboratable):
         current_digits = Array(Signal(8, name=f"current_digit{n}") for n in range(8 * self.no_modules))
 
         m.submodules.init_delay = init_delay = \
-            Timer(width=24, load=int(self.init_delay), reload=0, allow_restart=False)
+            Timer(width=max(24, bits_for(int(self.init_delay))), load=int(self.init_delay), reload=0, allow_restart=False)
 
         m.submodules.spi_controller = spi_controller = SPIControllerInterface(word_size=16 * self.no_modules, divisor=self.divisor, cs_idles_high=True)
 
-- 
2.43.0


From 3dea66520ea27ae95c1d1a5039836a8b94dacc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:28 +0000
Subject: [PATCH 60/60] fix: the MAX7219 driver starts without a start-up delay
 as well

---
 amlib/io/max7219.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/max7219.py b/amlib/io/max7219.py
index 98227a1..4a7ab01 100644
--- a/amlib/io/max7219.py
+++ b/amlib/io/max7219.py
@@ -59,7 +59,7 @@ class SerialLEDArray(Elaboratable):
         current_digits = Array(Signal(8, name=f"current_digit{n}") for n in range(8 * self.no_modules))
 
         m.submodules.init_delay = init_delay = \
-            Timer(width=max(24, bits_for(int(self.init_delay))), load=int(self.init_delay), reload=0, allow_restart=False)
+            Timer(width=max(24, bits_for(int(self.init_delay))), load=max(1, int(self.init_delay)), reload=0, allow_restart=False)
 
         m.submodules.spi_controller = spi_controller = SPIControllerInterface(word_size=16 * self.no_modules, divisor=self.divisor, cs_idles_high=True)
 
-- 
2.43.0

