From 59e00d25edba15afd15212401c96efba9a338ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 01/37] fix: markers: do not offer a ninth start-marker word
 and then withdraw it

With the sink stalled in the state after the eighth word, valid_out was 1 and
dropped again, without a transfer, as soon as the sink became ready.
---
 migen_src/markers.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index 132efb5..22e29dc 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -105,17 +105,17 @@ class Markers(Elaboratable):
                     self.data_out.eq(0xFFFF),
                     self.valid_out.eq(1),
                 ]
+                # handle transition to frame handling
+                with m.If(counter==0):
+                    m.d.sync += counter.eq(8)
+                    m.d.comb += [
+                        self.data_out.eq(0),
+                        self.valid_out.eq(0),
+                    ]
+                    m.next = "FRAME_HANDLING"
                 # handle counter
-                with m.If(self.i_busy==0):
+                with m.Elif(self.i_busy==0):
                     m.d.sync += counter.eq(counter - 1)
-                    # handle transition to frame handling
-                    with m.If(counter==0):
-                        m.d.sync += counter.eq(8)
-                        m.d.comb += [
-                            self.data_out.eq(0),
-                            self.valid_out.eq(0),
-                        ]
-                        m.next = "FRAME_HANDLING"
 
             with m.State("ENDING_MARKER"):
                 # handle output data
-- 
2.43.0


From 90a523baff47e693283c85f20f0d57e5b08ac78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 02/37] fix: markers: the end flag of the last marker word must
 not depend on the sink's ready

While the last word was stalled end_out was 0 and changed to 1 when it was accepted.
---
 migen_src/markers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index 22e29dc..de8feea 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -123,12 +123,13 @@ class Markers(Elaboratable):
                     self.data_out.eq(0xFFFF),
                     self.valid_out.eq(1),
                 ]
+                # handle end signals
+                with m.If(counter==1):
+                    m.d.comb += self.end_out.eq(1)
                 # handle counter
                 with m.If(self.i_busy==0):
                     m.d.sync += counter.eq(counter - 1)
-                    # handle end signals
                     with m.If(counter==1):
-                        m.d.comb += self.end_out.eq(1)
                         m.next = "DONE_NORMAL"
 
             with m.State("FORCE_ENDING_MARKER"):
@@ -137,12 +138,13 @@ class Markers(Elaboratable):
                     self.data_out.eq(0xFFFE),
                     self.valid_out.eq(1),
                 ]
+                # handle end signals
+                with m.If(counter==1):
+                    m.d.comb += self.end_out.eq(1)
                 # handle counter
                 with m.If(self.i_busy==0):
                     m.d.sync += counter.eq(counter - 1)
-                    # handle end signals
                     with m.If(counter==1):
-                        m.d.comb += self.end_out.eq(1)
                         m.next = "DONE_FORCE"
 
             with m.State("FRAME_HANDLING"):
-- 
2.43.0


From 34d96488815ecf12b08192156aeba3fa86691ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 03/37] fix: markers: no more words after the end marker

After the eighth end-marker word valid_out and end_out stayed at 1, so a sink that is
ready in the auto-reset cycle received one more one-word packet after every frame.
---
 migen_src/markers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index de8feea..fa41ab6 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -169,16 +169,14 @@ class Markers(Elaboratable):
             with m.State("DONE_NORMAL"):
                 m.d.comb += [
                     self.data_out.eq(0xFFFF),
-                    self.valid_out.eq(1),
                     self.end_out.eq(1),
                 ]
 
             with m.State("DONE_FORCE"):
                 m.d.comb += [
                     self.data_out.eq(0xFFFE),
-                    self.valid_out.eq(1),
                     self.end_out.eq(1),
-                ]                
+                ]
 
         return m
 
-- 
2.43.0


From ce939d2d17a268f9fd1be2c7ad6de8eb2b3a6fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 04/37] fix: markers: the end of the frame is seen when its
 last word is accepted

end_cond looked at the sink's busy only, so a frame of a single word was taken for
finished while the start marker was still being sent, and its word was lost.
---
 migen_src/markers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index fa41ab6..bb247be 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -73,7 +73,7 @@ class Markers(Elaboratable):
         # late_data_i = Signal(16)
 
         end_cond = Signal(1)
-        m.d.sync += end_cond.eq((self.i_busy==0)&(self.valid_in==1)&(self.end_in==1))
+        m.d.sync += end_cond.eq((self.o_busy==0)&(self.valid_in==1)&(self.end_in==1))
 
         # late2_busy_i = Signal(1)
         # late2_valid_i = Signal(1)
-- 
2.43.0


From 340793c36283cb19330150cd787be6dcf44a6a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 05/37] fix: markers: a forced end neither hangs nor withdraws
 an offered word

A frame forced to end before its first output word was never ended, and a stalled word
was replaced while it was offered.
---
 migen_src/markers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index bb247be..5234f4f 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -92,11 +92,15 @@ class Markers(Elaboratable):
         #     late2_end_i.eq(late2_end_i),
         # ]
 
+        # a word is offered and not accepted yet
+        pending = Signal(1)
+        m.d.sync += pending.eq((self.valid_out==1)&(self.i_busy==1))
+
         with m.FSM() as fsm:
 
             with m.State("IDLE"):
                 m.d.sync += counter.eq(8)
-                with m.If(self.valid_in):
+                with m.If((self.valid_in==1)|(self.force_end_in==1)):
                     m.next = "STARING_MARKER"
 
             with m.State("STARING_MARKER"):
@@ -152,7 +156,7 @@ class Markers(Elaboratable):
                 # with m.If((late2_busy_i==0)&(late2_valid_i==1)&(late2_end_i==1)):
                 with m.If(end_cond):
                     m.next = "ENDING_MARKER"
-                with m.Elif(self.force_end_in):
+                with m.Elif((self.force_end_in==1)&(pending==0)):
                     m.next = "FORCE_ENDING_MARKER"
                 with m.Else():
                     # m.d.comb += [
-- 
2.43.0


From a412bf4e92f168fc5fd193a250ed86593b00f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 06/37] fix: vbits_to_cbits: the last word of a frame is
 offered only once

---
 migen_src/vbits_to_cbits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/migen_src/vbits_to_cbits.py b/migen_src/vbits_to_cbits.py
index 57813b6..257d884 100644
--- a/migen_src/vbits_to_cbits.py
+++ b/migen_src/vbits_to_cbits.py
@@ -122,7 +122,9 @@ class OutputHandler(Elaboratable):
 					pass
 
 			with m.State("END"):
-				pass
+				#the last output is latched, nothing comes after it
+				with m.If(self.busy_in == 0):
+					m.d.sync += self.valid_out.eq(0)
 
 		return m
 
-- 
2.43.0


From d41b98ba3b2054633221a294bc791f6e6e411e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 07/37] fix: micro_integration: pass the end of the frame and
 the markers' busy through the fixers

---
 migen_src/micro_integration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index 315cffb..f5b07dd 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -101,6 +101,7 @@ class MicroIntegration(Elaboratable):
 		m.d.comb += [
 			fix_0xff.data_in.eq(integration_3.data_out),
 			fix_0xff.valid_in.eq(integration_3.valid_out),
+			fix_0xff.end_in.eq(integration_3.end_out),
 			fix_0xff.i_busy.eq(fix_0xff2.o_busy),
 		]
 
@@ -108,7 +109,8 @@ class MicroIntegration(Elaboratable):
 		m.d.comb += [
 			fix_0xff2.data_in.eq(fix_0xff.data_out),
 			fix_0xff2.valid_in.eq(fix_0xff.valid_out),
-			fix_0xff2.i_busy.eq(self.busy_in),
+			fix_0xff2.end_in.eq(fix_0xff.end_out),
+			fix_0xff2.i_busy.eq(markers.o_busy),
 			fix_0xff2.data_in_ctr.eq(fix_0xff.data_out_ctr),
 		]
 
-- 
2.43.0


From 5b85f4f021b60f07c07a31459dceb6c231c4f341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 08/37] fix: core_axi_lite: writing one half of a Huffman entry
 keeps the other half

---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 6ca9560..1b2cd73 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -206,7 +206,7 @@ class CoreAxiLite(Elaboratable):
 		rp_data64_in = Signal(64)
 		rp_data64 = Signal(64)
 		m.d.comb += rp_data64.eq(self.rp_data)
-		m.d.comb += rp_data64_in.eq(0)
+		m.d.comb += rp_data64_in.eq(rp_data64)
 
 		# function that handle read/write operations on height and width register
 		def read_hw():
-- 
2.43.0


From 6abdc46062221ae8c9a076d3c7eb4ab50144d765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 09/37] fix: b16_b40: keep all 8 bits of the byte saved for the
 next buffer

---
 migen_src/b16_b40.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 85f219f..0d837a9 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -70,7 +70,7 @@ class B16B40(Elaboratable):
         m.d.comb += is_valid.eq(1)
 
         # buffer for the 0.5*input size
-        temp_8 = Signal(1)
+        temp_8 = Signal(8)
 
         # handle data_out
         with m.If(buff_chs==0):
-- 
2.43.0


From 17ed5ae441ca738a01583178f03bbd64c418d400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 10/37] fix: width converters: busy until ready to latch after
 a reset

---
 migen_src/b16_b40.py | 2 +-
 migen_src/b16_b64.py | 2 +-
 migen_src/b64_b32.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 0d837a9..3a99ab4 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -41,7 +41,7 @@ class B16B40(Elaboratable):
         self.valid_in = Signal(1)
         self.valid_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
diff --git a/migen_src/b16_b64.py b/migen_src/b16_b64.py
index ecd8e3a..9626b69 100644
--- a/migen_src/b16_b64.py
+++ b/migen_src/b16_b64.py
@@ -43,7 +43,7 @@ class B16B64(Elaboratable):
         self.end_in = Signal(1)
         self.end_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
diff --git a/migen_src/b64_b32.py b/migen_src/b64_b32.py
index a91dd0d..2ab0d29 100644
--- a/migen_src/b64_b32.py
+++ b/migen_src/b64_b32.py
@@ -41,7 +41,7 @@ class B64B32(Elaboratable):
         self.valid_in = Signal(1)
         self.valid_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
-- 
2.43.0


From dcac18b2cc9637085f73c718c470b488e9705c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 11/37] fix: b16_b40: the filling state survives the core's
 auto reset like the buffers

---
 migen_src/b16_b40.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 3a99ab4..96dff83 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -91,7 +91,7 @@ class B16B40(Elaboratable):
                 m.d.full += buffer2_valid.eq(0)
 
         # fsm
-        with m.FSM() as fsm:
+        with m.FSM(domain="full") as fsm:
 
             # buffer 1 handling
             with m.State("BUFF1_IDLE"):
-- 
2.43.0


From 79989bc60aab7658cf30b72f6c9c4f53575cfb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 12/37] fix: core_axi_lite: the core's auto reset must not
 abort a bus transaction half way

---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 1b2cd73..dfc1f8d 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -288,7 +288,7 @@ class CoreAxiLite(Elaboratable):
 		def clean_write_debug():
 			pass
 
-		with m.FSM() as main:
+		with m.FSM(domain="full") as main:
 
 			with m.State("IDLE"):
 				#needed from other states
-- 
2.43.0


From 871692f57f1a07adabcb3671e58f8869314608c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 13/37] fix: axi_lite: a write must not change the ID of a
 pending read response and vice versa

---
 migen_src/axi_lite.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/migen_src/axi_lite.py b/migen_src/axi_lite.py
index f9219a6..61117ad 100644
--- a/migen_src/axi_lite.py
+++ b/migen_src/axi_lite.py
@@ -94,18 +94,11 @@ class AxiLite(Elaboratable):
 
 		m = Module()
 
-		rwid = Signal(12)
-
-		#main process
-		with m.If(self.s_axi_ri.arvalid):
-			m.d.sync += rwid.eq(self.s_axi_ri.arid)
-		with m.If(self.s_axi_wi.awvalid):
-			m.d.sync += rwid.eq(self.s_axi_wi.awid)
-
-		m.d.sync += [
-			self.s_axi_ro.rid.eq(rwid),
-			self.s_axi_wo.bid.eq(rwid),
-		]
+		#main process - the ID of the accepted read and of the accepted write
+		with m.If((self.s_axi_ri.arvalid==1) & (self.m_axi_ri.arready==1)):
+			m.d.sync += self.s_axi_ro.rid.eq(self.s_axi_ri.arid)
+		with m.If((self.s_axi_wi.awvalid==1) & (self.m_axi_wi.awready==1)):
+			m.d.sync += self.s_axi_wo.bid.eq(self.s_axi_wi.awid)
 
 		# clk and reset
 		m.d.comb += [
-- 
2.43.0


From efc5f2fa13943f7c4b91577c7b75e54f4e09b042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 14/37] fix: axihp_reader: rlast means nothing outside a data
 handshake

---
 migen_src/axihp_reader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/migen_src/axihp_reader.py b/migen_src/axihp_reader.py
index 3db010c..137f569 100644
--- a/migen_src/axihp_reader.py
+++ b/migen_src/axihp_reader.py
@@ -114,7 +114,7 @@ class AxiHPReader(Elaboratable):
 
 		# active phase
 		with m.Else():
-			with m.If(self.m_axi_ri.rlast):
+			with m.If((data_en==1) & (self.m_axi_ri.rlast==1)):
 				m.d.sync += rready.eq(0)
 
 		m.d.comb += [
@@ -130,11 +130,14 @@ class AxiHPReader(Elaboratable):
 		---------------------'''
 
 		# one more
-		with m.If((addr_en==1) & (self.m_axi_ri.rlast==0)):
+		burst_end = Signal(1)
+		m.d.comb += burst_end.eq((data_en==1) & (self.m_axi_ri.rlast==1))
+
+		with m.If((addr_en==1) & (burst_end==0)):
 			m.d.sync += active.eq(active + 1)
 
 		# one less
-		with m.Elif((addr_en==0) & (self.m_axi_ri.rlast==1)):
+		with m.Elif((addr_en==0) & (burst_end==1)):
 			m.d.sync += active.eq(active - 1)
 
 		m.d.comb += self.inactive.eq(active==0)
-- 
2.43.0


From 9a939144fe7744917ecd828db9dc94cbd925fe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 15/37] fix: axihp_writer: wlast goes with the last of the 16
 beats and waits for wready

---
 migen_src/axihp_writer.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/migen_src/axihp_writer.py b/migen_src/axihp_writer.py
index 9434fa4..26041fa 100644
--- a/migen_src/axihp_writer.py
+++ b/migen_src/axihp_writer.py
@@ -119,17 +119,12 @@ class AxiHPWriter(Elaboratable):
 
 		# wlast circuit
 		counter = Signal(4)
+		m.d.comb += wlast.eq(counter==(self.data_c-1))
 		with m.If(data_en):
-			with m.If(counter==(self.data_c-1)):
-				m.d.sync += [
-					counter.eq(0),
-					wlast.eq(1),
-				]
+			with m.If(wlast):
+				m.d.sync += counter.eq(0)
 			with m.Else():
-				m.d.sync += [
-					wlast.eq(0),
-					counter.eq(counter + 1),
-				]
+				m.d.sync += counter.eq(counter + 1)
 
 		m.d.comb += data_en.eq((wvalid==1) & (self.m_axi_wi.wready==1))
 
@@ -141,7 +136,7 @@ class AxiHPWriter(Elaboratable):
 
 		# active phase
 		with m.Else():
-			with m.If(wlast):
+			with m.If((data_en==1) & (wlast==1)):
 				m.d.sync += wvalid.eq(0)
 
 		m.d.comb += [
@@ -180,11 +175,14 @@ class AxiHPWriter(Elaboratable):
 		---------------------'''
 
 		# active_proc
-		with m.If((addr_en==1) & (wlast==0)):
+		burst_end = Signal(1)
+		m.d.comb += burst_end.eq((data_en==1) & (wlast==1))
+
+		with m.If((addr_en==1) & (burst_end==0)):
 			# one more
 			m.d.sync += active.eq(active + 1)
 
-		with m.Elif((addr_en==0) & (wlast==1)):
+		with m.Elif((addr_en==0) & (burst_end==1)):
 			# one less
 			m.d.sync += active.eq(active - 1)
 
-- 
2.43.0


From 0206876bab7dc234ecff5b2f23fddbb9b31a9167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 16/37] fix: axihp_writer: slow write responses must not
 overflow the unconfirmed counter

---
 migen_src/axihp_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/axihp_writer.py b/migen_src/axihp_writer.py
index 26041fa..ccf758a 100644
--- a/migen_src/axihp_writer.py
+++ b/migen_src/axihp_writer.py
@@ -98,7 +98,7 @@ class AxiHPWriter(Elaboratable):
 		# idle phase
 		with m.If(awvalid==0):
 			# writer enabled & address available & below max
-			with m.If((self.enable==1) & (self.addr_empty==0) & (active[3]==0)):
+			with m.If((self.enable==1) & (self.addr_empty==0) & (active[3]==0) & (unconf[3]==0)):
 				m.d.sync += awvalid.eq(1)
 
 		# active phase
-- 
2.43.0


From 0b8c05f4748a31243b85ed2ce586d0aca77bcb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 17/37] fix: AXI-lite slaves: offer responses without waiting
 for ready, hold them until accepted, take write data once

---
 migen_src/core_axi_lite.py | 16 +++++++++++-----
 migen_src/dma_axi_lite.py  | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index dfc1f8d..f413ce2 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -337,8 +337,13 @@ class CoreAxiLite(Elaboratable):
 				with m.Else():
 					m.d.full += rresp_v.eq(3)
 				# to finish
+				m.d.full += rvalid_v.eq(1)
+				m.next = "READ_RESPONSE"
+
+
+			with m.State("READ_RESPONSE"):
 				with m.If(self.s_axi_ri.rready):
-					m.d.full += rvalid_v.eq(1)
+					m.d.full += rvalid_v.eq(0)
 					m.next = "IDLE"
 
 
@@ -363,7 +368,8 @@ class CoreAxiLite(Elaboratable):
 
 			with m.State("WRITE_DATA"):
 				m.d.full += wready_v.eq(1)	# ready for data
-				with m.If(self.s_axi_wi.wvalid):
+				with m.If((self.s_axi_wi.wvalid==1) & (wready_v==1)):
+					m.d.full += wready_v.eq(0)
 					m.d.comb += [
 						wdata_v.eq(self.s_axi_wi.wdata),
 						wstrb_v.eq(self.s_axi_wi.wstrb),
@@ -389,9 +395,9 @@ class CoreAxiLite(Elaboratable):
 					clean_write_debug()
 				clean_write_hw()
 				clean_write_ssss()
-				m.d.full += wready_v.eq(0)
-				with m.If(self.s_axi_wi.bready):
-					m.d.full += bvalid_v.eq(1)
+				m.d.full += bvalid_v.eq(1)
+				with m.If((bvalid_v==1) & (self.s_axi_wi.bready==1)):
+					m.d.full += bvalid_v.eq(0)
 					m.next = "IDLE"
 
 		m.d.comb += [
diff --git a/migen_src/dma_axi_lite.py b/migen_src/dma_axi_lite.py
index e409c42..7b0c084 100644
--- a/migen_src/dma_axi_lite.py
+++ b/migen_src/dma_axi_lite.py
@@ -237,8 +237,13 @@ class DMAAxiLite(Elaboratable):
 				with m.Else():
 					m.d.sync += rresp_v.eq(3)
 				# to finish
+				m.d.sync += rvalid_v.eq(1)
+				m.next = "READ_RESPONSE"
+
+
+			with m.State("READ_RESPONSE"):
 				with m.If(self.s_axi_ri_.rready):
-					m.d.sync += rvalid_v.eq(1)
+					m.d.sync += rvalid_v.eq(0)
 					m.next = "IDLE"
 
 
@@ -254,7 +259,8 @@ class DMAAxiLite(Elaboratable):
 			with m.State("WRITE_DATA"):
 				m.d.sync += awready_v.eq(0)	# done
 				m.d.sync += wready_v.eq(1)	# ready for data
-				with m.If(self.s_axi_wi_.wvalid):
+				with m.If((self.s_axi_wi_.wvalid==1) & (wready_v==1)):
+					m.d.sync += wready_v.eq(0)
 					m.d.comb += [
 						wdata_v.eq(self.s_axi_wi_.wdata),
 						wstrb_v.eq(self.s_axi_wi_.wstrb),
@@ -270,9 +276,9 @@ class DMAAxiLite(Elaboratable):
 
 			with m.State("WRITE_RESPONSE"):
 				clean_write_basic()
-				m.d.sync += wready_v.eq(0)
-				with m.If(self.s_axi_wi_.bready):
-					m.d.sync += bvalid_v.eq(1)
+				m.d.sync += bvalid_v.eq(1)
+				with m.If((bvalid_v==1) & (self.s_axi_wi_.bready==1)):
+					m.d.sync += bvalid_v.eq(0)
 					m.next = "IDLE"
 
 		m.d.comb += [
-- 
2.43.0


From cf114bc072ad0bc8d4652700bc8af6d203f8c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 18/37] fix: liblj92: room for SSSS 16 in the decoder's
 histogram

---
 liblj92/lj92.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 665c504..66a61bb 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -49,7 +49,7 @@ typedef struct _ljp {
     int skiplen; // Skip this many values after each row
     u16* linearize; // Linearization table
     int linlen;
-    int sssshist[16];
+    int sssshist[17];
 
     // Huffman table - only one supported, and probably needed
 #ifdef SLOW_HUFF
-- 
2.43.0


From 7ab3ea631abbe29d7812909733b389d4f0cf319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 19/37] fix: liblj92: the two cached rows must not overlap with
 several components

---
 liblj92/lj92.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 66a61bb..4f75d95 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -665,7 +665,7 @@ int lj92_open(lj92* lj,
         else {
             self->rowcache = rowcache;
             self->outrow[0] = rowcache;
-            self->outrow[1] = &rowcache[self->x];
+            self->outrow[1] = &rowcache[self->x * self->components];
         }
     }
 
-- 
2.43.0


From f952c91e43d4d466c37f37c8bc052b423fb58d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 20/37] fix: liblj92: predictors 4 to 7 use the left pixel of
 the same component

---
 liblj92/lj92.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 4f75d95..c996c69 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -511,7 +511,7 @@ static int parseScan(ljp* self) {
     int compcount = self->data[self->ix+2];
     int pred = self->data[self->ix+3+2*compcount];
     if (pred<0 || pred>7) return ret;
-    if (pred==6) return parsePred6(self); // Fast path
+    if (pred==6 && self->components==1) return parsePred6(self); // Fast path
     self->ix += BEH(self->data[self->ix]);
     self->cnt = 0;
     self->b = 0;
@@ -551,16 +551,16 @@ static int parseScan(ljp* self) {
                           Px = lastrow[prev_colx + c];
                           break;
                         case 4:
-                          Px = left + lastrow[colx + c] - lastrow[prev_colx + c];
+                          Px = thisrow[prev_colx + c] + lastrow[colx + c] - lastrow[prev_colx + c];
                           break;
                         case 5:
-                          Px = left + ((lastrow[colx + c] - lastrow[prev_colx + c]) >> 1);
+                          Px = thisrow[prev_colx + c] + ((lastrow[colx + c] - lastrow[prev_colx + c]) >> 1);
                           break;
                         case 6:
-                          Px = lastrow[colx + c] + ((left - lastrow[prev_colx + c]) >> 1);
+                          Px = lastrow[colx + c] + ((thisrow[prev_colx + c] - lastrow[prev_colx + c]) >> 1);
                           break;
                         case 7:
-                          Px = (left + lastrow[colx + c]) >> 1;
+                          Px = (thisrow[prev_colx + c] + lastrow[colx + c]) >> 1;
                           break;
                     }
                 }
-- 
2.43.0


From d3f392e16685477eb0c6c428fee8fc932950e3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 21/37] fix: liblj92: a complete single row image is not
 corrupt

---
 liblj92/lj92.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index c996c69..47d7258 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -431,7 +431,7 @@ static int parsePred6(ljp* self) {
         linear = left;
     thisrow[col++] = left;
     out[c++] = linear;
-    if (self->ix >= self->datalen) return ret;
+    if (self->ix >= self->datalen && c < pixels) return ret;
     --write;
     int rowcount = self->x-1;
     while (rowcount--) {
@@ -446,7 +446,7 @@ static int parsePred6(ljp* self) {
         thisrow[col++] = left;
         out[c++] = linear;
         //printf("%d %d %d %d %x\n",col-1,diff,left,thisrow[col-1],&thisrow[col-1]);
-        if (self->ix >= self->datalen) return ret;
+        if (self->ix >= self->datalen && c < pixels) return ret;
         if (--write==0) {
             out += self->skiplen;
             write = self->writelen;
-- 
2.43.0


From 7599dc124a01d9d9a2042c900483232268fd43b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 22/37] fix: liblj92: the encoder survives failing allocations

---
 liblj92/lj92.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 47d7258..0f424fb 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -734,6 +734,7 @@ int frequencyScan(lje* self) {
     int pixcount = self->width*self->height;
     int scan = self->readLength;
     uint16_t* rowcache = (uint16_t*)calloc(1,self->width*4);
+    if (rowcache == NULL) return LJ92_ERROR_NO_MEMORY;
     uint16_t* rows[2];
     rows[0] = rowcache;
     rows[1] = &rowcache[self->width];
@@ -1030,6 +1031,7 @@ int writeBody(lje* self) {
     int pixcount = self->width*self->height;
     int scan = self->readLength;
     uint16_t* rowcache = (uint16_t*)calloc(1,self->width*4);
+    if (rowcache == NULL) return LJ92_ERROR_NO_MEMORY;
     uint16_t* rows[2];
     rows[0] = rowcache;
     rows[1] = &rowcache[self->width];
@@ -1195,7 +1197,8 @@ int lj92_encode(uint16_t* image, int width, int height, int bitdepth,
 #ifdef DEBUG
     printf("written:%d\n",self->encodedWritten);
 #endif
-    self->encoded = realloc(self->encoded,self->encodedWritten);
+    uint8_t* shrunk = realloc(self->encoded,self->encodedWritten);
+    if (shrunk != NULL) self->encoded = shrunk;
     self->encodedLength = self->encodedWritten;
     *encoded = self->encoded;
     *encodedLength = self->encodedLength;
-- 
2.43.0


From b8e4b82ac31d86ee57a7117b86831521376c4ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 23/37] fix: liblj92: count the frequencies of the delinearized
 pixels that are encoded

---
 liblj92/lj92.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 0f424fb..923d8b7 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -746,6 +746,7 @@ int frequencyScan(lje* self) {
     int maxval = (1 << self->bitdepth);
     while (pixcount--) {
         uint16_t p = *pixel;
+        if (self->delinearize) p = self->delinearize[p];
         /* if (self->delinearize) {
             if (p>=self->delinearizeLength) {
                 free(rowcache);
-- 
2.43.0


From f1f6ae227cbbe76cfda91316f14b185e86e4f4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 24/37] fix: CoreAXILite: read the Huffman entry of the last
 SSSS too

---
 software/src/core_axi_lite.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/software/src/core_axi_lite.cpp b/software/src/core_axi_lite.cpp
index 656daae..bab9647 100644
--- a/software/src/core_axi_lite.cpp
+++ b/software/src/core_axi_lite.cpp
@@ -35,7 +35,7 @@ vector<string> CoreAXILite::get_ssss()
     // get ssss codes from axi lite
     vector<uint64_t> ssss_codes;
     uint64_t code = 0;
-    for(int i=0; i<2*bit_depth; i++){
+    for(int i=0; i<2*(bit_depth+1); i++){
         if(i%2==0){
             code = __get(SSSS_OFFSET+i);
         } else {
@@ -45,7 +45,7 @@ vector<string> CoreAXILite::get_ssss()
     }
     // get ssss info form them
     vector<string> ssss;
-    for(int i=0; i<bit_depth; i++) {
+    for(int i=0; i<=bit_depth; i++) {
         uint32_t code_length = (ssss_codes[i] >> (16+bit_depth));
         uint32_t mask = pow(2, code_length) - 1;
         uint32_t ssss_code = 0;
-- 
2.43.0


From b75536b84b667fbbc376a183175285c50ce2f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 25/37] fix: XilinxDMA: wait for the end of the reset before
 programming the engine

---
 software/src/xilinx_dma.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/software/src/xilinx_dma.cpp b/software/src/xilinx_dma.cpp
index bff7978..9e5637c 100644
--- a/software/src/xilinx_dma.cpp
+++ b/software/src/xilinx_dma.cpp
@@ -36,6 +36,10 @@ void XilinxDMA::reset_dma()
 {
     __dma_set(S2MM_CONTROL_REGISTER, 4);
     __dma_set(MM2S_CONTROL_REGISTER, 4);
+    // the reset bits are cleared when the reset is complete
+    while((__dma_get(S2MM_CONTROL_REGISTER) & 4) || (__dma_get(MM2S_CONTROL_REGISTER) & 4)){
+        usleep(100);
+    }
 }
 
 void XilinxDMA::halt_dma()
-- 
2.43.0


From c895b07ade24e6ab9f5ee53a26dd754b5e3cd051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 26/37] fix: core_axi_lite: the upper half of a Huffman entry
 takes the written data

---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index f413ce2..dd7fe02 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -262,7 +262,7 @@ class CoreAxiLite(Elaboratable):
 					start = 32 + i*8
 					end = start+8
 					with m.If(wstrb_v[i]):
-						m.d.comb += rp_data64_in[start:end].eq(wdata_v[start:end])
+						m.d.comb += rp_data64_in[start:end].eq(wdata_v[start-32:end-32])
 					with m.Else():
 						m.d.comb += rp_data64_in[start:end].eq(rp_data64[start:end])
 			m.d.full += [
-- 
2.43.0


From bff3d99d95ea88fae79c942ea004b116ea0f905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 27/37] fix: axihp_writer: responses of the last bursts are
 taken after the writer is disabled too

---
 migen_src/axihp_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/migen_src/axihp_writer.py b/migen_src/axihp_writer.py
index ccf758a..2217829 100644
--- a/migen_src/axihp_writer.py
+++ b/migen_src/axihp_writer.py
@@ -155,8 +155,8 @@ class AxiHPWriter(Elaboratable):
 
 		# idle phase
 		with m.If(bready==0):
-			# writer enabled
-			with m.If(self.enable):
+			# writer enabled, or responses still to come
+			with m.If((self.enable==1) | (unconf!=0)):
 				m.d.sync += bready.eq(1)
 
 		# active phase
-- 
2.43.0


From c702ef938b41e5cd8dbafb67b270c5108880fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 28/37] fix: difference: 16-bit differences are modulo 2^16, a
 wrapped difference lost its value bits

---
 migen_src/difference.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/migen_src/difference.py b/migen_src/difference.py
index b219c55..0087522 100644
--- a/migen_src/difference.py
+++ b/migen_src/difference.py
@@ -84,10 +84,15 @@ class Difference(Elaboratable):
 
 		m = Module()
 
+		diffs = [pixel_in-predic_in for pixel_in, predic_in in zip(self.pixels_in, self.predics_in)]
+		if self.bd == 16:
+			# differences are modulo 2^16, SSSS 16 has no value bits
+			diffs = [Cat(diff[0:16], diff[15]) for diff in diffs]
+
 		#if valid data
 		with m.If(self.valid_in):
-			m.d.sync += [val_out.eq(pixel_in-predic_in) for val_out, pixel_in, predic_in in zip(self.vals_out, self.pixels_in, self.predics_in)]
-			m.d.sync += [val_out_mns.eq(pixel_in-predic_in-1) for val_out_mns, pixel_in, predic_in in zip(self.vals_out_mns, self.pixels_in, self.predics_in)]
+			m.d.sync += [val_out.eq(diff) for val_out, diff in zip(self.vals_out, diffs)]
+			m.d.sync += [val_out_mns.eq(diff-1) for val_out_mns, diff in zip(self.vals_out_mns, diffs)]
 
 		#if valid data
 		m.d.sync += self.valid_out.eq(self.valid_in)
-- 
2.43.0


From 81b638a7d7d9c5fdb9d8ae007aa408d12fb4fa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 29/37] fix: liblj92: never read past the end of the data, a
 truncated stream is corrupt, a complete one with short last codes is not

---
 liblj92/lj92.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 923d8b7..3c12a61 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -89,6 +89,7 @@ static int parseHuff(ljp* self) {
     int ret = LJ92_ERROR_CORRUPT;
     u8* huffhead = &self->data[self->ix]; // xstruct.unpack('>HB16B',self.data[self.ix:self.ix+19])
     u8* bits = &huffhead[2];
+    if (self->ix + 19 >= self->datalen) return ret;
     bits[0] = 0; // Because table starts from 1
     int hufflen = BEH(huffhead[0]);
     if ((self->ix + hufflen) >= self->datalen) return ret;
@@ -266,7 +267,7 @@ static int parseHuff(ljp* self) {
 }
 
 static int parseSof3(ljp* self) {
-    if (self->ix+6 >= self->datalen) return LJ92_ERROR_CORRUPT;
+    if (self->ix+7 >= self->datalen) return LJ92_ERROR_CORRUPT;
     self->y = BEH(self->data[self->ix+3]);
     self->x = BEH(self->data[self->ix+5]);
     self->bits = self->data[self->ix+2];
@@ -276,6 +277,7 @@ static int parseSof3(ljp* self) {
 }
 
 static int parseBlock(ljp* self) {
+    if (self->ix+1 >= self->datalen) return LJ92_ERROR_CORRUPT;
     self->ix += BEH(self->data[self->ix]);
     if (self->ix >= self->datalen) return LJ92_ERROR_CORRUPT;
     return LJ92_ERROR_NONE;
@@ -334,6 +336,18 @@ static int extend(ljp* self,int v,int t) {
 }
 #endif
 
+/* The next two bytes of the scan, zeros behind the end of the data */
+inline static int nextbytes(ljp* self, int ix) {
+    int one = ix < self->datalen ? self->data[ix] : 0;
+    int two = ix+1 < self->datalen ? self->data[ix+1] : 0;
+    return (two<<8)|one;
+}
+
+/* More bits were decoded than the data holds */
+inline static int truncated(ljp* self) {
+    return self->ix - self->cnt/8 > self->datalen;
+}
+
 inline static int nextdiff(ljp* self) {
 #ifdef SLOW_HUFF
     int t = decode(self);
@@ -346,7 +360,7 @@ inline static int nextdiff(ljp* self) {
     int ix = self->ix;
     int next;
     while (cnt < huffbits) {
-        next = *(u16*)&self->data[ix];
+        next = nextbytes(self,ix);
         int one = next&0xFF;
         int two = next>>8;
         b = (b<<16)|(one<<8)|two;
@@ -367,7 +381,7 @@ inline static int nextdiff(ljp* self) {
     int keepbitsmask = (1 << cnt)-1;
     b &= keepbitsmask;
     while (cnt < t) {
-        next = *(u16*)&self->data[ix];
+        next = nextbytes(self,ix);
         int one = next&0xFF;
         int two = next>>8;
         b = (b<<16)|(one<<8)|two;
@@ -431,7 +445,6 @@ static int parsePred6(ljp* self) {
         linear = left;
     thisrow[col++] = left;
     out[c++] = linear;
-    if (self->ix >= self->datalen && c < pixels) return ret;
     --write;
     int rowcount = self->x-1;
     while (rowcount--) {
@@ -446,7 +459,6 @@ static int parsePred6(ljp* self) {
         thisrow[col++] = left;
         out[c++] = linear;
         //printf("%d %d %d %d %x\n",col-1,diff,left,thisrow[col-1],&thisrow[col-1]);
-        if (self->ix >= self->datalen && c < pixels) return ret;
         if (--write==0) {
             out += self->skiplen;
             write = self->writelen;
@@ -471,7 +483,6 @@ static int parsePred6(ljp* self) {
         thisrow[col++] = left;
         //printf("%d %d %d %d\n",col,diff,left,lastrow[col]);
         out[c++] = linear;
-        if (self->ix >= self->datalen) break;
         rowcount = self->x-1;
         if (--write==0) {
             out += self->skiplen;
@@ -498,9 +509,9 @@ static int parsePred6(ljp* self) {
         temprow = lastrow;
         lastrow = thisrow;
         thisrow = temprow;
-        if (self->ix >= self->datalen) break;
+        if (truncated(self)) break;
     }
-    if (c >= pixels) ret = LJ92_ERROR_NONE;
+    if (c >= pixels && !truncated(self)) ret = LJ92_ERROR_NONE;
     return ret;
 }
 
@@ -508,7 +519,9 @@ static int parseScan(ljp* self) {
     int ret = LJ92_ERROR_CORRUPT;
     memset(self->sssshist,0,sizeof(self->sssshist));
     self->ix = self->scanstart;
+    if (self->ix+2 >= self->datalen) return ret;
     int compcount = self->data[self->ix+2];
+    if (self->ix+3+2*compcount >= self->datalen) return ret;
     int pred = self->data[self->ix+3+2*compcount];
     if (pred<0 || pred>7) return ret;
     if (pred==6 && self->components==1) return parsePred6(self); // Fast path
@@ -586,6 +599,7 @@ static int parseScan(ljp* self) {
         thisrow = temprow;
 
         out += self->x * self->components + self->skiplen;
+        if (truncated(self)) return ret;
     } // row
 
     ret = LJ92_ERROR_NONE;
-- 
2.43.0


From cfd1b7acbd53fc99a486d28d06d4110b00b023b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 30/37] fix: liblj92: writeLength and skipLength apply to every
 kind of scan

---
 liblj92/lj92.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 3c12a61..cf0cbd9 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -529,6 +529,7 @@ static int parseScan(ljp* self) {
     self->cnt = 0;
     self->b = 0;
     u16* out = self->image;
+    int write = self->writelen;
     u16* thisrow = self->outrow[0];
     u16* lastrow = self->outrow[1];
 
@@ -590,7 +591,11 @@ static int parseScan(ljp* self) {
                     linear = left;
 
                 thisrow[colx + c] = left;
-                out[colx + c] = linear; // HACK
+                *out++ = linear;
+                if (--write==0) {
+                    out += self->skiplen;
+                    write = self->writelen;
+                }
             } // c
         } // col
 
@@ -598,7 +603,6 @@ static int parseScan(ljp* self) {
         lastrow = thisrow;
         thisrow = temprow;
 
-        out += self->x * self->components + self->skiplen;
         if (truncated(self)) return ret;
     } // row
 
-- 
2.43.0


From 069c9b1fb93ed70b4e8987f1e902ceba0e8125d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 31/37] fix: liblj92: a value beyond the linearization table is
 corrupt in every row

---
 liblj92/lj92.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index cf0cbd9..fcce7ef 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -439,9 +439,10 @@ static int parsePred6(ljp* self) {
     Px = 1 << (self->bits-1);
     left = Px + diff;
     left = (u16) (left%65536);
-    if (self->linearize)
+    if (self->linearize) {
+        if (left>=self->linlen) return ret;
         linear = self->linearize[left];
-    else
+    } else
         linear = left;
     thisrow[col++] = left;
     out[c++] = linear;
@@ -452,9 +453,10 @@ static int parsePred6(ljp* self) {
         Px = left;
         left = Px + diff;
         left = (u16) (left%65536);
-        if (self->linearize)
+        if (self->linearize) {
+            if (left>=self->linlen) return ret;
             linear = self->linearize[left];
-        else
+        } else
             linear = left;
         thisrow[col++] = left;
         out[c++] = linear;
@@ -476,7 +478,7 @@ static int parsePred6(ljp* self) {
         left = Px + diff;
         left = (u16) (left%65536);
         if (self->linearize) {
-            if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+            if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
             linear = self->linearize[left];
         } else
             linear = left;
@@ -495,7 +497,7 @@ static int parsePred6(ljp* self) {
             left = (u16) (left%65536);
             //printf("%d %d %d %d %d %x\n",col,diff,left,lastrow[col],lastrow[col-1],&lastrow[col]);
             if (self->linearize) {
-                if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+                if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
                 linear = self->linearize[left];
             } else
                 linear = left;
@@ -585,7 +587,7 @@ static int parseScan(ljp* self) {
                 //printf("%d %d %d\n",c,diff,left);
                 int linear;
                 if (self->linearize) {
-                    if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+                    if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
                     linear = self->linearize[left];
                 } else
                     linear = left;
-- 
2.43.0


From 128ceff7b67c75d62daa6f7ab92a855aa971ed10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 32/37] fix: liblj92: the first pixel may end a written row of
 one value

---
 liblj92/lj92.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index fcce7ef..a10701e 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -446,7 +446,10 @@ static int parsePred6(ljp* self) {
         linear = left;
     thisrow[col++] = left;
     out[c++] = linear;
-    --write;
+    if (--write==0) {
+        out += self->skiplen;
+        write = self->writelen;
+    }
     int rowcount = self->x-1;
     while (rowcount--) {
         diff = nextdiff(self);
-- 
2.43.0


From 2a805fb2631236f7c8d74e5ead1131cf2ed6b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 33/37] fix: liblj92: class 16 carries no value bits

---
 liblj92/lj92.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index a10701e..8a318a7 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -351,6 +351,7 @@ inline static int truncated(ljp* self) {
 inline static int nextdiff(ljp* self) {
 #ifdef SLOW_HUFF
     int t = decode(self);
+    if (t==16) return 32768; // No value bits follow
     int diff = receive(self,t);
     diff = extend(self,diff,t);
 #else
@@ -380,6 +381,12 @@ inline static int nextdiff(ljp* self) {
     cnt -= usedbits;
     int keepbitsmask = (1 << cnt)-1;
     b &= keepbitsmask;
+    if (t==16) { // 32768, no value bits follow
+        self->b = b;
+        self->cnt = cnt;
+        self->ix = ix;
+        return 32768;
+    }
     while (cnt < t) {
         next = nextbytes(self,ix);
         int one = next&0xFF;
@@ -792,7 +799,7 @@ int frequencyScan(lje* self) {
         else
             Px = rows[0][col] + ((rows[1][col-1] - rows[0][col-1])>>1);
         diff = rows[1][col] - Px;
-        diff = diff%65536;
+        diff = (int16_t)diff;
         int ssss = 32 - __builtin_clz(abs(diff));
         if (diff==0) ssss=0;
         self->hist[ssss]++;
@@ -1083,7 +1090,7 @@ int writeBody(lje* self) {
         else
             Px = rows[0][col] + ((rows[1][col-1] - rows[0][col-1])>>1);
         diff = rows[1][col] - Px;
-        diff = diff%65536;
+        diff = (int16_t)diff;
         int ssss = 32 - __builtin_clz(abs(diff));
         if (diff==0) ssss=0;
         //printf("%d %d %d %d %d\n",col,row,Px,diff,ssss);
@@ -1092,6 +1099,7 @@ int writeBody(lje* self) {
         int huffcode = self->huffsym[ssss];
         int huffenc = self->huffenc[huffcode];
         int huffbits = self->huffbits[huffcode];
+        if (ssss==16) ssss=0; // No value bits follow
         bitcount += huffbits + ssss;
 
         int vt = ssss>0?(1<<(ssss-1)):0;
-- 
2.43.0


From aa8bff302b221bffff4a02f24750093a3dc9b22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 34/37] fix: liblj92: corrupt headers are corrupt, not read
 past the end or used without a table

---
 liblj92/lj92.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 8a318a7..9187f67 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -74,7 +74,7 @@ typedef struct _ljp {
 static int find(ljp* self) {
     int ix = self->ix;
     u8* data = self->data;
-    while (data[ix] != 0xFF && ix<(self->datalen-1)) {
+    while (ix<(self->datalen-1) && data[ix] != 0xFF) {
         ix += 1;
     }
     ix += 2;
@@ -223,10 +223,18 @@ static int parseHuff(ljp* self) {
         if (bits[maxbits]) break;
         maxbits--;
     }
+    // Every code needs a value in the segment, and the values are the classes 0 to 16
+    int codes = 0;
+    for (int n=1;n<=16;n++) codes += bits[n];
+    if (hufflen < 19+codes) return ret;
+    for (int n=0;n<codes;n++) {
+        if (huffvals[n]>16) return ret;
+    }
     self->huffbits = maxbits;
-    /* Now fill the lut */
-    u16* hufflut = malloc((1<<maxbits) * sizeof(u16));
+    /* Now fill the lut, codes that are not in the table stay 0 */
+    u16* hufflut = calloc(1<<maxbits,sizeof(u16));
     if (hufflut == NULL) return LJ92_ERROR_NO_MEMORY;
+    free(self->hufflut); // The last table counts
     self->hufflut = hufflut;
     int i = 0;
     int hv = 0;
@@ -272,6 +280,8 @@ static int parseSof3(ljp* self) {
     self->x = BEH(self->data[self->ix+5]);
     self->bits = self->data[self->ix+2];
     self->components = self->data[self->ix + 7];
+    if (self->x==0 || self->y==0 || self->components==0) return LJ92_ERROR_CORRUPT;
+    if (self->bits<2 || self->bits>16) return LJ92_ERROR_CORRUPT;
     self->ix += BEH(self->data[self->ix]);
     return LJ92_ERROR_NONE;
 }
@@ -689,6 +699,12 @@ int lj92_open(lj92* lj,
 
     int ret = findSoI(self);
 
+    // A scan needs a frame header and a table
+    if (ret == LJ92_ERROR_NONE && (self->scanstart == 0 || self->components == 0)) ret = LJ92_ERROR_CORRUPT;
+#ifndef SLOW_HUFF
+    if (ret == LJ92_ERROR_NONE && self->hufflut == NULL) ret = LJ92_ERROR_CORRUPT;
+#endif
+
     if (ret == LJ92_ERROR_NONE) {
         u16* rowcache = (u16*)calloc(self->x * self->components * 2, sizeof(u16));
         if (rowcache == NULL) ret = LJ92_ERROR_NO_MEMORY;
-- 
2.43.0


From ef7bcd43e455e0351cb22ddfd94d242d08f15797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 35/37] fix: XilinxDMA: a transfer that ends in an error is not
 waited for

---
 software/src/xilinx_dma.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/software/src/xilinx_dma.cpp b/software/src/xilinx_dma.cpp
index 9e5637c..42edaa7 100644
--- a/software/src/xilinx_dma.cpp
+++ b/software/src/xilinx_dma.cpp
@@ -70,6 +70,9 @@ void XilinxDMA::__dma_sync(uint32_t status_register)
 {
     uint32_t s2mm_status = __dma_get(status_register);
     while(!(s2mm_status & 1<<12) || !(s2mm_status & 1<<1)){
+        // an error halts its channel, then the transfers never complete
+        uint32_t errors = __dma_get(MM2S_STATUS_REGISTER) | __dma_get(S2MM_STATUS_REGISTER);
+        assert_term(!(errors & 0x770), "XilinxDMA-sync");
         usleep(100);
         s2mm_status = __dma_get(status_register);
     }
-- 
2.43.0


From 945af17aae9a314261799f833d35a19632ae1d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 36/37] fix: DMA subsystem: the reader stops behind the frame,
 the writer behind its buffer

---
 migen_src/beta_integration_fullaxi.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/migen_src/beta_integration_fullaxi.py b/migen_src/beta_integration_fullaxi.py
index 8075a6a..fdbf253 100644
--- a/migen_src/beta_integration_fullaxi.py
+++ b/migen_src/beta_integration_fullaxi.py
@@ -74,17 +74,15 @@ class BetaIntegrationFullAxi(Elaboratable):
 			write_end.eq(0),
 		]
 
-		with m.If((address_gen_read.address_valid==1)&(axihp_reader.addr_enable==1)):
-			with m.If(counter_read==196608):
-				m.d.comb += read_end.eq(1)
-			with m.Else():
-				m.d.sync += counter_read.eq(counter_read + 1)
-
-		with m.If((address_gen_write.address_valid==1)&(axihp_writer.addr_enable==1)):
-			with m.If(counter_write==131072):
-				m.d.comb += write_end.eq(1)
-			with m.Else():
-				m.d.sync += counter_write.eq(counter_write + 1)
+		with m.If(counter_read==196608):
+			m.d.comb += read_end.eq(1)
+		with m.Elif((address_gen_read.address_valid==1)&(axihp_reader.addr_enable==1)):
+			m.d.sync += counter_read.eq(counter_read + 1)
+
+		with m.If(counter_write==131072):
+			m.d.comb += write_end.eq(1)
+		with m.Elif((address_gen_write.address_valid==1)&(axihp_writer.addr_enable==1)):
+			m.d.sync += counter_write.eq(counter_write + 1)
 
 		# dma_axi_lite
 		m.d.comb += [
-- 
2.43.0


From 41d0b35c69d1674409e8f744add7459b0254a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:08 +0000
Subject: [PATCH 37/37] fix: liblj92: the encoder's buffer was too small for
 the longest streams

With code word and value bits of 17 bits and stuffing, samples can need more than
three bytes each; lj92_encode then returned LJ92_ERROR_ENCODER for a valid image.
---
 liblj92/lj92.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 9187f67..3fa0a1e 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -1219,7 +1219,9 @@ int lj92_encode(uint16_t* image, int width, int height, int bitdepth,
     self->skipLength = skipLength;
     self->delinearize = delinearize;
     self->delinearizeLength = delinearizeLength;
-    self->encodedLength = width*height*3+200;
+    // Up to 17 bits a sample on average, and almost every byte may need stuffing
+    long long limit = (long long)width*height*5+200;
+    self->encodedLength = limit > 0x7FFFFFFF ? 0x7FFFFFFF : limit;
     self->encoded = malloc(self->encodedLength);
     if (self->encoded==NULL) { free(self); return LJ92_ERROR_NO_MEMORY; }
     // Scan through data to gather frequencies of ssss prefixes
-- 
2.43.0

