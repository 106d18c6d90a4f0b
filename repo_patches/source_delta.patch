From 954c8f8f38bbba7eb03488d0e33b545b668892f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 01/42] fix: query_adjust_duration passed the delimiter as
 TRcal and failed without updn

---
 pysim/models/rfid/epcstd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 2738602..a00846f 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -884,8 +884,9 @@ def query_rep_duration(tari=None, rtcal=None, trcal=None, delim=None,
 def query_adjust_duration(
     delim=None, tari=None, rtcal=None, session=None, updn=None
 ):
+    updn = updn if updn is not None else 0
     return reader_frame_duration(QueryAdjust(session, updn), tari, rtcal,
-                                 delim)
+                                 delim=delim)
 
 
 # noinspection PyTypeChecker
-- 
2.43.0


From e50343bcf1b54c4e5138596e50f9626c1c84ce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 02/42] fix: command_duration did not know QueryAdjust

---
 pysim/models/rfid/epcstd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index a00846f..571960a 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -855,6 +855,8 @@ def command_duration(command_code,
                               session, target, q, crc5)
     elif command_code is CommandCode.QUERY_REP:
         return query_rep_duration(tari, rtcal, trcal, delim, session)
+    elif command_code is CommandCode.QUERY_ADJUST:
+        return query_adjust_duration(delim, tari, rtcal, session)
     elif command_code is CommandCode.ACK:
         return ack_duration(tari, rtcal, trcal, delim, rn)
     elif command_code is CommandCode.REQ_RN:
-- 
2.43.0


From cb5126b5ac2da87d2c89261802229acb30c3016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 03/42] fix: tag_preamble_duration failed when the encoding was
 left out

---
 pysim/models/rfid/epcstd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 571960a..ffeacb5 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -809,6 +809,7 @@ def tag_preamble_bitlen(encoding=None, trext=None):
 
 def tag_preamble_duration(blf=None, encoding=None, trext=None):
     blf = blf if blf is not None else get_blf()
+    encoding = encoding if encoding is not None else stdParams.tag_encoding
     bitlen = tag_preamble_bitlen(encoding, trext)
     return (bitlen * encoding.symbols_per_bit) / blf
 
-- 
2.43.0


From 0dee9e2fa10f8a0e88c3595e20789b5cc466bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 04/42] fix: replies with byte sequences failed on
 collections.Iterable

---
 pysim/models/rfid/epcstd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index ffeacb5..5b44e38 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -1,6 +1,6 @@
 from enum import Enum
 import random
-import collections
+import collections.abc
 import numpy as np
 
 
@@ -545,7 +545,7 @@ class QueryReply(Reply):
 def to_bytes(value):
     if isinstance(value, str):
         return list(bytearray.fromhex(value))
-    elif isinstance(value, collections.Iterable):
+    elif isinstance(value, collections.abc.Iterable):
         value = list(value)
         for b in value:
             if not isinstance(b, int) or not (0 <= b < 256):
-- 
2.43.0


From 7adcb0be59e5bd0ec7b5500b171780b2ba31dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:18 +0000
Subject: [PATCH 05/42] fix: Kernel.schedule did not refuse negative delays,
 bad handlers and bad arguments

---
 pysim/sim/simulator.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index a7da8a3..792510d 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -337,9 +337,17 @@ class Kernel:
             msg: str = ''
     ) -> EventId:
         '''Планирование нового события'''
-        if delay is not None:
-            return self._queue.push(self._sim_time + delay, (handler, args, msg))
-        return None
+        if delay is None:
+            return None
+        if delay < 0:
+            raise SchedulingInPastError(f"negative delay: {delay}")
+        if handler is None:
+            raise ValueError("event handler is not set")
+        if not callable(handler):
+            raise TypeError("event handler must be callable")
+        if not isinstance(args, Iterable):
+            raise TypeError("event handler arguments must be iterable")
+        return self._queue.push(self._sim_time + delay, (handler, args, msg))
 
     def cancel(self, event_id: EventId) -> int:
         '''Отменить событие с идентификатором `event_id`'''
-- 
2.43.0


From e31853c3bc85638eb26234ee545a6a4cd479849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:18 +0000
Subject: [PATCH 06/42] fix: exit reason was None when the event queue ran
 empty during the run

---
 pysim/sim/simulator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 792510d..0f3cea7 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -437,9 +437,6 @@ class Kernel:
         # 3) Инициализация модели
         self._initializer(sim, *self._initializer_args)
 
-        if self._queue.empty:
-            self.stop_reason = ExitReason.NO_MORE_EVENTS
-
         while not self._queue.empty and not self.stop_conditions():
             t, event_id, item = self._queue.pop()
             self._sim_time = t
@@ -447,6 +444,10 @@ class Kernel:
             handler(sim, *args)
             self._num_events_served += 1
             self.lhandler = handler
+
+        if self.stop_reason is None:
+            self.stop_reason = ExitReason.NO_MORE_EVENTS
+
         if self._finalize:
             fin_ret = self._finalize(sim)
         else:
-- 
2.43.0


From 516b78eaa9a5e8af2574093ed1a532e48353bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:18 +0000
Subject: [PATCH 07/42] fix: max_num_events was never enforced

---
 pysim/sim/simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 0f3cea7..c8a7c25 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -27,6 +27,7 @@ class ExitReason(Enum):
     REACHED_SIM_TIME_LIMIT = 2
     STOPPED = 3
     INTERRUPTED = 4  # выполнение не закончилось - прерывание при отладке
+    REACHED_NUM_EVENTS_LIMIT = 5
 
 
 @dataclass
@@ -370,6 +371,9 @@ class Kernel:
         elif self._max_real_time is not None and self.real_time_elapsed > self._max_real_time:
             self.stop_reason = ExitReason.REACHED_REAL_TIME_LIMIT
             return True
+        elif self._max_num_events is not None and self._num_events_served >= self._max_num_events:
+            self.stop_reason = ExitReason.REACHED_NUM_EVENTS_LIMIT
+            return True
         elif self._user_stop:
             return True
 
-- 
2.43.0


From 2cc91d15b6ab9052da2f7456c15509db681a6914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 08/42] fix: ModelLogger replaced run_id 0 with a random one

---
 pysim/sim/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index af5e50e..a2501b1 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -143,7 +143,8 @@ class ModelLogger:
         """
         self._logger = logging.getLogger(model_name)
         self.time_getter = time_getter or (lambda: 0)
-        self._run_id: int = run_id or uuid.uuid4().int % 1_000_000
+        self._run_id: int = (
+            run_id if run_id is not None else uuid.uuid4().int % 1_000_000)
         self._setup_was_called: bool = False
     
     def set_time_getter(self, fn: Callable[[], float]) -> None:
-- 
2.43.0


From b85c63bbaa1c315cd30d485fcf13dffde64bd8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 09/42] fix: ModelLogger.setup ignored file_name_sep

---
 pysim/sim/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index a2501b1..0ca5c10 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -201,7 +201,8 @@ class ModelLogger:
             else:
                 file_name = ModelLogger.build_file_name(
                     config.file_name, 
-                    self._run_id
+                    self._run_id,
+                    config.file_name_sep
                 )
             
             # Каждый запуск создает отдельный файл, поэтому режим = 'w'
-- 
2.43.0


From 7f4bdd6f03805bb388c22782dd6d144f2e553d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 10/42] fix: a console or file level below the common level had
 no effect

---
 pysim/sim/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index 0ca5c10..23842a3 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -212,7 +212,9 @@ class ModelLogger:
             self._logger.addHandler(f_handler)
 
         self._logger.propagate = False
-        self._logger.setLevel(config.level)
+        # Уровень самого логгера не должен отсекать записи, нужные обработчикам
+        self._logger.setLevel(
+            min([config.level] + [h.level for h in self._logger.handlers]))
         
         # Отменчаем, что настройка была выполнена.
         self._setup_was_called = True
-- 
2.43.0


From dc0a2800c59cbb2830a734949e43e33f85cf51d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 11/42] fix: QueryAdjust could move the Q of a tag outside
 0..15

---
 pysim/models/rfid/objects.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 59cdb1f..d8ad148 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1203,11 +1203,11 @@ class Tag:
             )
             self._set_state(Tag.State.ARBITRATE)
             updn = qadjust.updn
-            if self.q + updn >= 0 or self.q + updn <= 15:
-                self.q = self.q + updn
-                self._slot_counter = np.random.randint(0, pow(2, self.q))
-                stat = self.kernel.context.statistics
-                stat.get_tag_record(self).num_qadjust_attained += 1
+            # Q не выходит за пределы 0..15, слот выбирается заново в любом случае
+            self.q = min(max(self.q + updn, 0), 15)
+            self._slot_counter = np.random.randint(0, pow(2, self.q))
+            stat = self.kernel.context.statistics
+            stat.get_tag_record(self).num_qadjust_attained += 1
             if self._slot_counter == 0:
                 self._set_state(Tag.State.REPLY)
                 self._rn = np.random.randint(0, 0x10000)
-- 
2.43.0


From ce0c29921e01f9528aecf366a5a31072952e0459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 12/42] fix: a Read of a memory bank the tag does not have
 crashed

---
 pysim/models/rfid/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index d8ad148..1ae8d55 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1263,6 +1263,8 @@ class Tag:
             return None
         if read.rn == self.rn:
             content = self.bank_data(read.bank)
+            if content is None:  # такого банка памяти у метки нет
+                return None
             # Извлекаем из банка ровно столько данных, сколько запрошено.
             # В команде указывается число слов (по два байта), а в content
             # лежит hex-строка, в которой каждый байт кодируется двумя
-- 
2.43.0


From cf111b861ad8a6d3e55b7b0e7a511919061e794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 13/42] fix: commands other than Query were sent with the full
 preamble

---
 pysim/models/rfid/objects.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 1ae8d55..7791f75 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -291,7 +291,7 @@ class _ReaderQREP(_ReaderState):
     def enter(self, reader):
         reader.last_rn = None
         cmd = std.QueryRep(reader.session)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
@@ -336,7 +336,7 @@ class _ReaderAdjust(_ReaderState):
     def enter(self, reader):
         reader.last_rn = None
         cmd = std.QueryAdjust(reader.session, reader.updn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader):
         return None  # Reader is already ON
@@ -380,7 +380,7 @@ class _ReaderACK(_ReaderState):
 
     def enter(self, reader):
         cmd = std.Ack(reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader):
         return None
@@ -426,7 +426,7 @@ class _ReaderREQRN(_ReaderState):
 
     def enter(self, reader):
         cmd = std.ReqRN(reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
@@ -470,7 +470,7 @@ class _ReaderREAD(_ReaderState):
     def enter(self, reader):
         cmd = std.Read(std.MemoryBank.TID, 0x00, reader.read_tid_words_num,
                        reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
-- 
2.43.0


From b67a354514bbc60008b3fad78cfd2c4996a1cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 14/42] fix: after the first switch each target was held one
 round too long

---
 pysim/models/rfid/objects.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 7791f75..315251e 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -241,8 +241,7 @@ class _ReaderQUERY(_ReaderState):
                 reader.target = reader.target.invert()
                 reader.num_rounds_before_target_switch = \
                     reader.rounds_per_target
-            else:
-                reader.num_rounds_before_target_switch -= 1
+            reader.num_rounds_before_target_switch -= 1
 
         reader.last_rn = None
         cmd = std.Query(reader.dr, reader.tag_encoding, reader.trext,
-- 
2.43.0


From 47244621af02790efcb195087c7c1078f7bfb8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 15/42] fix: the waiting time after QueryAdjust was that of
 another command

---
 pysim/models/rfid/handlers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 9a71e4a..440a2c0 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -201,7 +201,6 @@ def _no_tag_response(kernel, ctx, reader):
                 # Отправить команду QueryAdjust
                 reader.updn = -1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
-                reader.updn = 0
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
     return cmd_frame
@@ -275,7 +274,6 @@ def _multiple_tag_response(kernel, ctx, reader, transaction):
                 # Отправить команду QueryAdjust
                 reader.updn = 1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
-                reader.updn = 0
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
     return cmd_frame
-- 
2.43.0


From 64c8adfd08e185c073a1cfea413715bb706c3772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 16/42] fix: the replies of a transaction started before the
 command had ended

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 315251e..2eee579 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1579,7 +1579,7 @@ class Transaction():
             t4 = std.link_t4(reader.rtcal)
             exchange_duration = (self._command_duration + t1 +
                                  self._reply_duration + t2)
-            self._reply_start_time = time + t1
+            self._reply_start_time = self._command_end_time + t1
             self._reply_end_time = (
                 self._reply_start_time + self._reply_duration
             )
-- 
2.43.0


From c216ed765a59cebf779b46af0752635b8038e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 17/42] fix: the next transaction was timed by the one that had
 just finished

---
 pysim/models/rfid/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 440a2c0..6630e04 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -304,9 +304,10 @@ def finish_transaction(kernel, transaction):
         cmd_frame = _no_tag_response(kernel, ctx, reader)
 
     # Processing new command (reader frame)
-    ctx.transaction = _build_transaction(kernel, ctx.reader, cmd_frame)
+    transaction = _build_transaction(kernel, ctx.reader, cmd_frame)
+    ctx.transaction = transaction
     ctx.transaction.timeout_event_id = kernel.schedule(
-        transaction.duration, finish_transaction, (ctx.transaction, )
+        transaction.duration, finish_transaction, (transaction, )
     )
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-- 
2.43.0


From 360ab6ccc8fcedb7c38e4af080d63757322fbbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 18/42] fix: the reply start event of a transaction survived
 the switch-off

---
 pysim/models/rfid/handlers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 6630e04..581b692 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -100,7 +100,8 @@ def turn_reader_on(kernel, reader):
         transaction.duration, finish_transaction, (transaction, ))
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-        kernel.schedule(dt, update_power_at_response_start, (transaction, ))
+        transaction.response_start_event_id = kernel.schedule(
+            dt, update_power_at_response_start, (transaction, ))
 
     # Scheduling turning off
     power_mode = reader.power_control_mode
@@ -311,7 +312,8 @@ def finish_transaction(kernel, transaction):
     )
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-        kernel.schedule(dt, update_power_at_response_start, (transaction, ))
+        transaction.response_start_event_id = kernel.schedule(
+            dt, update_power_at_response_start, (transaction, ))
 
 
 def switch_reader_antenna(kernel, reader):
-- 
2.43.0


From 8e31e41537cc8bee5fc4bba938e89a1a6a491017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 19/42] fix: all tags of a generator got the same EPC and TID

---
 pysim/models/rfid/objects.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 2eee579..97ae031 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1356,6 +1356,9 @@ class Generator:
 
     def __init__(self):
         self._next_interval = (lambda: 1.0,)
+        # Suffixes of the next tag
+        self._epc_suffix = None
+        self._tid_suffix = None
 
     def set_interval(self, fn, *args):
         self._next_interval = (fn,) + args
@@ -1381,8 +1384,10 @@ class Generator:
         tid_suffix_bitlen = (
             self.tid_bitlen - hex_string_bitlen(self.tid_prefix)
         )
-        self._epc_suffix = '0' * int(np.ceil(epc_suffix_bitlen / 4))
-        self._tid_suffix = '0' * int(np.ceil(tid_suffix_bitlen / 4))
+        if self._epc_suffix is None:
+            self._epc_suffix = '0' * int(np.ceil(epc_suffix_bitlen / 4))
+        if self._tid_suffix is None:
+            self._tid_suffix = '0' * int(np.ceil(tid_suffix_bitlen / 4))
 
         tag_id = next(model.next_tag_id)
         tag = Tag(tag_id)
-- 
2.43.0


From df9bcababe5ad47f9ea14c449defd2d68c8bcd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 20/42] fix: a tag leaving during a transaction or slot broke
 the run and lost what was read from it

---
 pysim/models/rfid/objects.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 97ae031..ce98db9 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1820,6 +1820,7 @@ class _TagRecord:
         self._tag_read_record = _TagReadRecord()
         self._tag_read_record.round_index = round_index
         self._tag_read_record.antenna_index = reader.antenna_index
+        self.inventory_history.append(self._tag_read_record)
         return self._tag_read_record
 
     @property
@@ -1827,9 +1828,7 @@ class _TagRecord:
         return self._tag_read_record
 
     def close_tag_read_record(self):
-        if self._tag_read_record:
-            self.inventory_history.append(self._tag_read_record)
-            self._tag_read_record = None
+        self._tag_read_record = None
 
     def to_long_string(self):
         return """TagRecord {{
@@ -1859,7 +1858,11 @@ class Statistics:
         return record
 
     def get_tag_record(self, tag):
-        return self._current_tag_records.get(tag, None)
+        record = self._current_tag_records.get(tag, None)
+        if record is None:
+            # The tag may have left while its reply was in the air
+            record = next((r for r in self.tags_history if r.tag is tag), None)
+        return record
 
     def close_tag_record(self, tag):
         record = self._current_tag_records.pop(tag)
-- 
2.43.0


From 52f2a72ea9bc3ed46ab71edf8ae1afed52a01fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 21/42] fix: statistics failed when no tag had departed

---
 pysim/models/rfid/objects.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index ce98db9..b125b21 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1869,14 +1869,20 @@ class Statistics:
         self.tags_history.append(record)
 
     def average_rounds_per_tag(self):
+        if not self.tags_history:
+            return 0.0
         nums = [tr.num_rounds_attained for tr in self.tags_history]
         return np.average(nums)
 
     def inventory_probability(self):
+        if not self.tags_history:
+            return 0.0
         recs = [tr for tr in self.tags_history if tr.inventory_history]
         return len(recs) / len(self.tags_history)
 
     def read_tid_probability(self):
+        if not self.tags_history:
+            return 0.0
         recs = [tr for tr in self.tags_history if
                 len([trd for trd in tr.inventory_history if trd.read_tid]) > 0]
         return len(recs) / len(self.tags_history)
-- 
2.43.0


From 84add852a172686adff0d1599c16f067788515c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:38 +0000
Subject: [PATCH 22/42] fix: tags could not move from a position given in whole
 metres

---
 pysim/models/rfid/handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 581b692..cb3e01b 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -31,7 +31,7 @@ def _update_power(time, reader, tags, transaction, medium, statistics):
     for tag in tags:
         power = medium.estimate_tag_rx_power(reader, tag, time)
         tag.set_power(time, power)
-        tag.pos += tag.velocity * tag.normalized_direction * (
+        tag.pos = tag.pos + tag.velocity * tag.normalized_direction * (
             time - tag.last_pos_update
         )
         tag.last_pos_update = time
-- 
2.43.0


From 7ecd0e34b98c740d2e45c4735d1bb66211868e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 23/42] fix: SNR ignored the extended preamble

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index b125b21..a891c64 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1523,7 +1523,7 @@ class Medium:
         # print('>>>>>>>>> blf, m, symbol', blf, m, symbol)
         snr = chan.snr_full(
             snr=raw_snr, miller=m.symbols_per_bit, symbol=symbol,
-            preamble=std.tag_preamble_duration(blf, m),
+            preamble=std.tag_preamble_duration(blf, m, tag.trext),
             bandwidth=self.bandwidth)
         # print('>>>>>>>>>> snr full', snr)
         return snr
-- 
2.43.0


From e71372c3ca7978703a3ba917edeec1e13ca6ad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 24/42] fix: BER ignored the configured distribution

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index a891c64..6a47c71 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1529,7 +1529,7 @@ class Medium:
         return snr
 
     def estimate_reader_rx_ber(self, reader, tag, tags, snr):
-        return chan.ber(snr)
+        return chan.ber(snr, distr=self.ber_distribution)
 
 
 #############################################################################
-- 
2.43.0


From 67a09e80b6fbd60cb2b490fe2557f01502a6cfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 25/42] fix: a signal too weak to be received had an SNR of 0.5

---
 pysim/models/rfid/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index aba87e3..bd29227 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -192,7 +192,7 @@ def snr(power, noise):
 def snr_full(*, snr, miller=1, symbol=1.25e-6, preamble=9.3e-6,
              bandwidth=1.2e6, tol=1e-8, **kwargs):
     if snr < tol:
-        return 0.5
+        return 0.0
 
     # print(">>> miller={}, symbol={}, preamble={}, bandwidth={}".format(
     #     miller, symbol, preamble, bandwidth
-- 
2.43.0


From b25636cd3180dc79d9e0e10c0d9d1b4da5ee7924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:58 +0000
Subject: [PATCH 26/42] fix: the floating Q started at 5 whatever Q was
 configured

---
 pysim/models/rfid/configurator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index 26e287f..d79b9f5 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -133,7 +133,8 @@ class Settings:
     # (если есть значение по умолчанию в click, то не используется)
     # коэффициент, на который изменяется значение q
     adjust_delta: float = 0.1
-    q_fp: float = q
+    # начальное значение дробного Q; если не задано, равно q
+    q_fp: float | None = None
 
     # Значение поля Target команды Query, то есть флаг сессии, по которому
     # идет опрос меток. Ответ будут передавать только те метки, которые хранят
@@ -279,7 +280,7 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
         'useadjust', settings.use_query_adjust
     )
     reader.adjust_delta = kwargs.get('delta', settings.adjust_delta)
-    reader.q_fp = settings.q_fp
+    reader.q_fp = settings.q if settings.q_fp is None else settings.q_fp
     print(reader.use_query_adjust)
 
     # 2) Attaching antennas to reader
-- 
2.43.0


From fd548f557948ce0e737700a75d460556243a6a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 27/42] fix: session persistence times of the settings never
 reached the tags

---
 pysim/models/rfid/configurator.py | 3 +++
 pysim/models/rfid/objects.py      | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index d79b9f5..1300fcb 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -325,6 +325,9 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
     generator.antenna_gain = settings.tag_antenna_gain
     generator.modulation_loss = settings.tag_modulation_loss
     generator.sensitivity = settings.tag_sensitivity
+    generator.s1_persistence = settings.s1_persistence
+    generator.s2_persistence = settings.s2_persistence
+    generator.s3_persistence = settings.s3_persistence
 
     generator.set_interval(
         settings.generation_interval[0],
diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 6a47c71..0dcef1a 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1354,6 +1354,11 @@ class Generator:
     modulation_loss = -12.0  # dBm
     sensitivity = -18.0  # dBm
 
+    # Session flags persistence of the created tags
+    s1_persistence = 2.0  # sec.
+    s2_persistence = 2.0  # sec.
+    s3_persistence = 2.0  # sec.
+
     def __init__(self):
         self._next_interval = (lambda: 1.0,)
         # Suffixes of the next tag
@@ -1405,6 +1410,9 @@ class Generator:
         tag.antenna.cable_loss = self.cable_loss
         tag.sensitivity = self.sensitivity
         tag.modulation_loss = self.modulation_loss
+        tag.s1_persistence = self.s1_persistence
+        tag.s2_persistence = self.s2_persistence
+        tag.s3_persistence = self.s3_persistence
         return tag
 
 
-- 
2.43.0


From b4afb60d3e015112898e375ada373f5a09f952f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:57 +0000
Subject: [PATCH 28/42] fix: stage times ignored the divide ratio

---
 pysim/models/tag_time/calculate_params.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysim/models/tag_time/calculate_params.py b/pysim/models/tag_time/calculate_params.py
index fa8f5b0..7a98123 100644
--- a/pysim/models/tag_time/calculate_params.py
+++ b/pysim/models/tag_time/calculate_params.py
@@ -218,8 +218,10 @@ def prepare_probs(params, chunks_number, ber, points_number):
 
 
 def prepare_times(params, probs, chunks_number):
-    T1 = p.link_t1_max(rtcal=params['rtcal'], trcal=params['trcal'], dr=None)
-    T2 = p.link_t2_max(trcal=params['trcal'], dr=None)
+    T1 = p.link_t1_max(
+        rtcal=params['rtcal'], trcal=params['trcal'], dr=params['DR']
+    )
+    T2 = p.link_t2_max(trcal=params['trcal'], dr=params['DR'])
     T1_2 = T1 + T2
     delta = 1e-5
 
-- 
2.43.0


From c50f65843efcc9d1ec3e54d04a854a530a2b223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:38 +0000
Subject: [PATCH 29/42] fix: the analytic model of scenario 3 took the second
 chunk for the chunk stage

---
 pysim/models/tag_time/analitical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/tag_time/analitical_model.py b/pysim/models/tag_time/analitical_model.py
index f8cd192..738d279 100644
--- a/pysim/models/tag_time/analitical_model.py
+++ b/pysim/models/tag_time/analitical_model.py
@@ -95,7 +95,7 @@ def run_analitica(script_number, all_phases, chunks_number):
         for i in range(len(all_phases)):
             analit_res.append(
                 calculate_third_case(
-                    all_phases[i][0:3], all_phases[i][4], chunks_number
+                    all_phases[i][0:3], all_phases[i][3], chunks_number
                 )*1_000
             )
     return analit_res
-- 
2.43.0


From bb268397ebdffda47ddb88119ae3def7ceb28698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:38 +0000
Subject: [PATCH 30/42] fix: the analytic model of scenario 2 counted no more
 than 1000 attempts per stage

---
 pysim/models/tag_time/analitical_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysim/models/tag_time/analitical_model.py b/pysim/models/tag_time/analitical_model.py
index 738d279..441fff4 100644
--- a/pysim/models/tag_time/analitical_model.py
+++ b/pysim/models/tag_time/analitical_model.py
@@ -50,9 +50,9 @@ def calculate_second_case(phases):
         t - время нахождения в состоянии;
     '''
     res = 0
-    for phase in phases:
-        for n in range(1000):
-            res += (n + 1) * phase[1] * phase[0] * ((1 - phase[0]) ** n)
+    for p, t in phases:
+        # Среднее число попыток распределено геометрически и равно 1/p
+        res += t / p if p > 0 else float('inf')
     return res
 
 
-- 
2.43.0


From 322d9d8e67499750df83edf1b478049a9bdbf597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:38 +0000
Subject: [PATCH 31/42] fix: the analytic model of scenario 1 gave wrong and
 negative times for small probabilities

---
 pysim/models/tag_time/analitical_model.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/pysim/models/tag_time/analitical_model.py b/pysim/models/tag_time/analitical_model.py
index 441fff4..b26e7de 100644
--- a/pysim/models/tag_time/analitical_model.py
+++ b/pysim/models/tag_time/analitical_model.py
@@ -1,6 +1,3 @@
-import numpy as np
-
-
 def convert_data_for_analitica(probs, t):
     '''
     Конвертация входных данных в формат,
@@ -27,17 +24,14 @@ def calculate_first_case(phases):
     где p - вероятность передачи,
     t - время нахождения в состоянии;
     '''
-    times = [phase[1] for phase in phases]
-    probs = [phase[0] for phase in phases]
-
-    matrix = np.array([
-        [probs[0],     -probs[0], 0,         0],
-        [probs[1] - 1, 1,         -probs[1], 0],
-        [probs[2] - 1, 0,         1,         -probs[2]],
-        [probs[3] - 1, 0,         0,         1]
-    ])
-
-    return np.dot(np.linalg.inv(matrix)[0], np.array(times))
+    # Решение системы линейных уравнений для среднего времени до поглощения:
+    # среднее время от начала до успеха в очередном состоянии равно
+    # (среднее время до этого состояния + время в нём) / p.
+    # Обращение матрицы системы численно неустойчиво при малых p.
+    res = 0
+    for p, t in phases:
+        res = (res + t) / p if p > 0 else float('inf')
+    return res
 
 
 def calculate_second_case(phases):
-- 
2.43.0


From d7066be8ef5895b29933c6af9eae7656517cd040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:14 +0000
Subject: [PATCH 32/42] fix: pingpong counted missed pongs only until the first
 pong was received

was_acknowledged was never reset, and the first timeout counted as missed
although no ping had been sent yet.
---
 pysim/models/pingpong/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/pingpong/model.py b/pysim/models/pingpong/model.py
index aac84bb..61b7da5 100755
--- a/pysim/models/pingpong/model.py
+++ b/pysim/models/pingpong/model.py
@@ -98,8 +98,9 @@ class Client(Node):
         assert self.channel is not None
         assert self.server is not None
 
-        if not self.was_acknowledged:
+        if self.num_pings_sent > 0 and not self.was_acknowledged:
             self.num_missed += 1
+        self.was_acknowledged = False
         self.number += 1
         if self.max_pings is None or self.num_pings_sent < self.max_pings:
             sim.logger.debug("client timeout, sending ping #%d", self.number)
-- 
2.43.0


From 964632425bb85cb7b8add972c087c3fcad35fe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:14 +0000
Subject: [PATCH 33/42] fix: pingpong reported the share of answered pings as
 the miss rate

---
 pysim/models/pingpong/handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/pingpong/handlers.py b/pysim/models/pingpong/handlers.py
index 1b1b3c9..ba93db4 100755
--- a/pysim/models/pingpong/handlers.py
+++ b/pysim/models/pingpong/handlers.py
@@ -21,6 +21,6 @@ def finalize(sim: Simulator) -> Result:
         avg_interval=statistics.mean(model.client.intervals_list),
         avg_delay=statistics.mean(model.channel.delays_list),
         miss_rate=(
-            model.client.num_acknowledged / model.client.num_pings_sent
+            1 - model.client.num_acknowledged / model.client.num_pings_sent
         ),
     )
-- 
2.43.0


From 21b7dab74378dc635c827186c0ca6749bc99d0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:14 +0000
Subject: [PATCH 34/42] fix: a pingpong run that lost every ping ended with an
 exception

Intervals that follow a lost ping were not recorded, so the mean interval
was that of an empty list.
---
 pysim/models/pingpong/model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pysim/models/pingpong/model.py b/pysim/models/pingpong/model.py
index 61b7da5..5f3f815 100755
--- a/pysim/models/pingpong/model.py
+++ b/pysim/models/pingpong/model.py
@@ -172,10 +172,9 @@ class Server(Node):
         else:
             # Если тут - пакет потерян
             sim.logger.debug("ping lost on channel")
-            sim.schedule(
-                sim.context.client.interval,
-                sim.context.client.handle_timeout
-            )
+            client = sim.context.client
+            sim.schedule(client.interval, client.handle_timeout)
+            client.intervals_list.append(client.interval)
 
     def handle_service_end(self, sim: Simulator, ping: Packet) -> None:
         """
-- 
2.43.0


From 0793a01cb8d4644b1ee4b111e6ca0e9ada3676de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:38 +0000
Subject: [PATCH 35/42] fix: RFID runs with several values of an option failed
 for want of useadjust and delta

---
 pysim/models/rfid/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/rfid/cli.py b/pysim/models/rfid/cli.py
index 5d45aab..c3553ca 100644
--- a/pysim/models/rfid/cli.py
+++ b/pysim/models/rfid/cli.py
@@ -144,6 +144,8 @@ def prepare_multiple_simulation(variadic, **kwargs):
         'power': kwargs['power'],
         'num_tags': kwargs['num_tags'],
         'verbose': False,
+        'useadjust': kwargs['useadjust'],
+        'delta': kwargs['delta'],
     } for _ in enumerate(variadic_values)]
 
     # Теперь заменим значения варьируемого аргумента, чтобы в каждом
-- 
2.43.0


From f9aa523a7f232f8f76bee7cc45b16c8212015682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:38 +0000
Subject: [PATCH 36/42] fix: an illegal encoding was not refused but left the
 encoding unset

---
 pysim/models/rfid/cli.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pysim/models/rfid/cli.py b/pysim/models/rfid/cli.py
index c3553ca..1b77f28 100644
--- a/pysim/models/rfid/cli.py
+++ b/pysim/models/rfid/cli.py
@@ -169,10 +169,7 @@ def prepare_simulation(kwargs):
           f'altitude = {kwargs["altitude"]} m, power = {kwargs["power"]} dBm, '
           f'num_tags = {kwargs["num_tags"]}')
     t_start_ns = time_ns()
-    try:
-        encoding = parse_tag_encoding(kwargs['encoding'])
-    except ValueError:
-        pass
+    encoding = parse_tag_encoding(kwargs['encoding'])
     model = configurator.create_model(
         speed=(kwargs['speed'] * configurator.KMPH_TO_MPS_MUL),
         encoding=encoding,
-- 
2.43.0


From d13a0ed7a364c923fe7dce67d25d2f86d087471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:38 +0000
Subject: [PATCH 37/42] fix: RFID runs with several values ended with an
 exception while plotting

There is no unit for tag_offset, and the folder of the plots need not exist.
---
 pysim/models/rfid/processing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/processing.py b/pysim/models/rfid/processing.py
index b05d60b..bd87c22 100644
--- a/pysim/models/rfid/processing.py
+++ b/pysim/models/rfid/processing.py
@@ -1,4 +1,5 @@
 import json
+import os
 import matplotlib.pyplot as plt
 from tabulate import tabulate
 import time
@@ -91,7 +92,7 @@ def plot_results(initial_data, results, variadic, save_fig = True):
     results_dict = results_to_dict(ret)
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/plots/' + current_time + '-' + variadic + '.png'
-    units = {'speed': 'km/h', 'reader_offset': 'm', 'altitude': 'm', 'power': 'dBm', 'tid_word_size': 'words'}
+    units = {'speed': 'km/h', 'reader_offset': 'm', 'tag_offset': 'm', 'altitude': 'm', 'power': 'dBm', 'tid_word_size': 'words'}
     
     fig, ax = plt.subplots(figsize=(14, 8), layout='constrained')
     ax.plot(
@@ -106,4 +107,5 @@ def plot_results(initial_data, results, variadic, save_fig = True):
     ax.tick_params(axis='both', which='major', labelsize=31)
     ax.grid()
     if save_fig:
+        os.makedirs(os.path.dirname(filename), exist_ok=True)
         fig.savefig(filename)
\ No newline at end of file
-- 
2.43.0


From d2546828d5b1027164d63e1b38e48f188c5e4a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 38/42] fix: coloured console lost records of non-standard
 levels

---
 pysim/sim/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index 23842a3..b7bfcc0 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -42,7 +42,9 @@ class ColoredFormatter(logging.Formatter):
         }
 
     def format(self, record):
-        log_fmt: logging.Formatter = self.FORMATS[record.levelno]
+        log_fmt = self.FORMATS.get(record.levelno)
+        if log_fmt is None:  # нестандартный уровень - выводим без цвета
+            return super().format(record)
         return log_fmt.format(record)
 
 
-- 
2.43.0


From 302ad42b3436a11917fb41345516b299bc9518bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 39/42] fix: pingpong showed varied values in another order
 than their results

---
 pysim/models/pingpong/processing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/pingpong/processing.py b/pysim/models/pingpong/processing.py
index 47ebaff..6b4a5a2 100644
--- a/pysim/models/pingpong/processing.py
+++ b/pysim/models/pingpong/processing.py
@@ -60,6 +60,8 @@ def result_processing(initial_data, results, variadic, save_results=False):
             res['avg_interval'].append(results[i].avg_interval),
             res['avg_delay'].append(results[i].avg_delay),
             res['miss_rate'].append(results[i].miss_rate)
+        # Результаты упорядочены по возрастанию значений аргумента
+        initial_data[variadic] = sorted(set(initial_data[variadic]))
     else:
         res = results.dict()
 
-- 
2.43.0


From 8e902c5508f5d7d4774e6c8e85e17c307b693ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 40/42] fix: results were not saved when the results folder was
 missing

---
 pysim/models/pingpong/processing.py | 2 ++
 pysim/models/rfid/processing.py     | 1 +
 pysim/models/tag_time/processing.py | 3 +++
 3 files changed, 6 insertions(+)

diff --git a/pysim/models/pingpong/processing.py b/pysim/models/pingpong/processing.py
index 6b4a5a2..1ecf97b 100644
--- a/pysim/models/pingpong/processing.py
+++ b/pysim/models/pingpong/processing.py
@@ -1,4 +1,5 @@
 import json
+import os
 from tabulate import tabulate
 import time
 
@@ -6,6 +7,7 @@ import time
 def save_results_to_file(initial_data, res):
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/' + 'model_res-' + current_time + '.txt'
+    os.makedirs(os.path.dirname(filename), exist_ok=True)
     with open(filename, 'w') as f:
         f.write('Входные параметры: ' + json.dumps(initial_data) + '\n')
         f.write('Результаты моделирования: ' + json.dumps(res))
diff --git a/pysim/models/rfid/processing.py b/pysim/models/rfid/processing.py
index bd87c22..18355a0 100644
--- a/pysim/models/rfid/processing.py
+++ b/pysim/models/rfid/processing.py
@@ -83,6 +83,7 @@ def save_mult_results_to_file(initial_data, results, variadic):
     filename = 'results/text/' + 'sim_res-' + current_time + '.txt'
     ret, time_list = separate_res(results)
     results_dict = results_to_dict(ret)
+    os.makedirs(os.path.dirname(filename), exist_ok=True)
     with open(filename, 'w') as f:
         f.write('Входные параметры: ' + json.dumps(initial_data) + '\n')
         f.write('Результаты моделирования: ' + json.dumps(results_dict))
diff --git a/pysim/models/tag_time/processing.py b/pysim/models/tag_time/processing.py
index 0d7cd29..f05f7d1 100644
--- a/pysim/models/tag_time/processing.py
+++ b/pysim/models/tag_time/processing.py
@@ -1,4 +1,5 @@
 import json
+import os
 import matplotlib.pyplot as plt
 import time
 
@@ -23,6 +24,7 @@ def result_processing(kwargs, result, save_res=True, plot_res=False):
 def save_results(kwargs, res):
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/text/' + 'sim_res-' + current_time + '.txt'
+    os.makedirs(os.path.dirname(filename), exist_ok=True)
     with open(filename, 'w') as f:
         f.write('Входные параметры: ' + json.dumps(kwargs) + '\n')
         f.write('Результаты моделирования: ' + json.dumps(res))
@@ -39,4 +41,5 @@ def plot_results(kwargs, res, save_fig=True):
         markersize=8,
     )
     if save_fig:
+        os.makedirs(os.path.dirname(filename), exist_ok=True)
         fig.savefig(filename)
-- 
2.43.0


From c4d8731c847242972799ceea052ae3ac0f030b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 41/42] fix: QueryAdjust carries the change of Q when the
 floating Q was set apart from Q

---
 pysim/models/rfid/handlers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index cb3e01b..b3f0bb3 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -198,9 +198,9 @@ def _no_tag_response(kernel, ctx, reader):
                 kernel.logger.error(
                     f'Считыватель уменьшил Q с {reader.q} до {new_q}'
                 )
+                reader.updn = new_q - reader.q
                 reader.q = new_q  # обновляем q в считывателе
                 # Отправить команду QueryAdjust
-                reader.updn = -1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
@@ -271,9 +271,9 @@ def _multiple_tag_response(kernel, ctx, reader, transaction):
                 kernel.logger.error(
                     f'Считыватель увеличил Q с {reader.q} до {new_q}'
                 )
+                reader.updn = new_q - reader.q
                 reader.q = new_q  # обновляем q в считывателе
                 # Отправить команду QueryAdjust
-                reader.updn = 1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
-- 
2.43.0


From 8e53600780eaec3af975cd5462ea7dcb0bfa360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:40 +0000
Subject: [PATCH 42/42] fix: the ray reflected by the wall x = 0 arrives along
 its mirror image also across the wall

---
 pysim/models/rfid/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index bd29227..29ac738 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -135,7 +135,7 @@ def two_ray_pathloss(*, time, ground_reflection, wavelen,
     d0_vector_tx_n = d0_vector / d0  # LoS ray vector normalized
     d0_vector_rx_n = -d0_vector_tx_n
     d1_vector_tx_n = d1_vector / d1  # NLoS ray vector normalized
-    d1_vector_rx_n = np.array([-d1_vector_tx_n[0], -d1_vector_tx_n[1], d1_vector_tx_n[2]])
+    d1_vector_rx_n = np.array([-d1_vector_tx_n[0], d1_vector_tx_n[1], d1_vector_tx_n[2]])
 
     # Предполагается, что стена, от которой происходит отражение - это плоскость YOZ
     x_rfp = 0
-- 
2.43.0

