From 7c94b5414acd96d489a23577fc67994d13159086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:16 +0000
Subject: [PATCH 01/47] fix: schedule an RFID exchange by its own duration, not
 the previous one's

finish_transaction() timed the next exchange with the duration and the reply
start of the exchange that had just ended, so exchanges lasted wrong times and
events were scheduled in the past (the model clock ran backwards).
---
 pysim/models/rfid/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 9a71e4a..33df0b2 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -306,9 +306,10 @@ def finish_transaction(kernel, transaction):
         cmd_frame = _no_tag_response(kernel, ctx, reader)
 
     # Processing new command (reader frame)
-    ctx.transaction = _build_transaction(kernel, ctx.reader, cmd_frame)
+    transaction = _build_transaction(kernel, ctx.reader, cmd_frame)
+    ctx.transaction = transaction
     ctx.transaction.timeout_event_id = kernel.schedule(
-        transaction.duration, finish_transaction, (ctx.transaction, )
+        transaction.duration, finish_transaction, (transaction, )
     )
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-- 
2.43.0


From b5b8ae19a934b1282724ded30a0ea02b71fb78aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:16 +0000
Subject: [PATCH 02/47] fix: a tag reply starts T1 after the end of the
 command, not after its start

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 59cdb1f..445dfa5 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1578,7 +1578,7 @@ class Transaction():
             t4 = std.link_t4(reader.rtcal)
             exchange_duration = (self._command_duration + t1 +
                                  self._reply_duration + t2)
-            self._reply_start_time = time + t1
+            self._reply_start_time = self._command_end_time + t1
             self._reply_end_time = (
                 self._reply_start_time + self._reply_duration
             )
-- 
2.43.0


From f895fa7d78253cfea87e3daa032046b2a159705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:16 +0000
Subject: [PATCH 03/47] fix: remember the response-start event so that
 switching off cancels it

---
 pysim/models/rfid/handlers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 33df0b2..20c440e 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -100,7 +100,9 @@ def turn_reader_on(kernel, reader):
         transaction.duration, finish_transaction, (transaction, ))
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-        kernel.schedule(dt, update_power_at_response_start, (transaction, ))
+        transaction.response_start_event_id = kernel.schedule(
+            dt, update_power_at_response_start, (transaction, )
+        )
 
     # Scheduling turning off
     power_mode = reader.power_control_mode
@@ -313,7 +315,9 @@ def finish_transaction(kernel, transaction):
     )
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-        kernel.schedule(dt, update_power_at_response_start, (transaction, ))
+        transaction.response_start_event_id = kernel.schedule(
+            dt, update_power_at_response_start, (transaction, )
+        )
 
 
 def switch_reader_antenna(kernel, reader):
-- 
2.43.0


From d192d479d38a2422761be2fc4cfbb937333a3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:08 +0000
Subject: [PATCH 04/47] fix: validate delay, handler and args when an event is
 scheduled

---
 pysim/sim/simulator.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index a7da8a3..2d26b5b 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -337,9 +337,19 @@ class Kernel:
             msg: str = ''
     ) -> EventId:
         '''Планирование нового события'''
-        if delay is not None:
-            return self._queue.push(self._sim_time + delay, (handler, args, msg))
-        return None
+        if delay is None:
+            return None
+        if not delay >= 0:  # отбрасывает и NaN
+            raise SchedulingInPastError(
+                f"событие нельзя запланировать через delay = {delay}"
+            )
+        if handler is None:
+            raise ValueError("обработчик события не задан")
+        if not callable(handler):
+            raise TypeError("обработчик события не является вызываемым")
+        if not isinstance(args, Iterable):
+            raise TypeError("аргументы обработчика - не Iterable")
+        return self._queue.push(self._sim_time + delay, (handler, args, msg))
 
     def cancel(self, event_id: EventId) -> int:
         '''Отменить событие с идентификатором `event_id`'''
-- 
2.43.0


From b7ea6f343fb4d740cc00c3daf30fe6a45fffc161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:08 +0000
Subject: [PATCH 05/47] fix: report NO_MORE_EVENTS when the event queue runs
 dry

---
 pysim/sim/simulator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 2d26b5b..4e6dc4a 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -439,9 +439,6 @@ class Kernel:
         # 3) Инициализация модели
         self._initializer(sim, *self._initializer_args)
 
-        if self._queue.empty:
-            self.stop_reason = ExitReason.NO_MORE_EVENTS
-
         while not self._queue.empty and not self.stop_conditions():
             t, event_id, item = self._queue.pop()
             self._sim_time = t
@@ -449,6 +446,10 @@ class Kernel:
             handler(sim, *args)
             self._num_events_served += 1
             self.lhandler = handler
+
+        if self._queue.empty and self.stop_reason is None:
+            self.stop_reason = ExitReason.NO_MORE_EVENTS
+
         if self._finalize:
             fin_ret = self._finalize(sim)
         else:
-- 
2.43.0


From 475bb3eab7613625da96522340392a71a61c795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:08 +0000
Subject: [PATCH 06/47] fix: stop the simulation after max_num_events events

---
 pysim/sim/simulator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 4e6dc4a..0e3da64 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -27,6 +27,7 @@ class ExitReason(Enum):
     REACHED_SIM_TIME_LIMIT = 2
     STOPPED = 3
     INTERRUPTED = 4  # выполнение не закончилось - прерывание при отладке
+    REACHED_EVENTS_LIMIT = 5
 
 
 @dataclass
@@ -372,6 +373,10 @@ class Kernel:
         elif self._max_real_time is not None and self.real_time_elapsed > self._max_real_time:
             self.stop_reason = ExitReason.REACHED_REAL_TIME_LIMIT
             return True
+        elif (self._max_num_events is not None
+              and self._num_events_served >= self._max_num_events):
+            self.stop_reason = ExitReason.REACHED_EVENTS_LIMIT
+            return True
         elif self._user_stop:
             return True
 
-- 
2.43.0


From a9e1aa935aad545df5b557c2a5ef39a7e9540c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:09 +0000
Subject: [PATCH 07/47] fix: event identifiers handed to models are greater
 than 0

---
 pysim/sim/simulator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 0e3da64..f1a89e7 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -188,9 +188,10 @@ class EventQueue:
     Очередь событий, реализованная с помощью
     струкртуры данных "приоритетная куча (heapq)"
     '''
-    def __init__(self):
+    def __init__(self, first_id=0):
         '''
         Args:
+            first_id - номер, который получит первое событие
             _event_list - лист событий, который будет упорядочен,
                 как приоритетная минимальная куча
             _event_dict -  словарь, сопоставляющий задачи с записями в листе
@@ -199,7 +200,7 @@ class EventQueue:
         '''
         self._event_list = []
         self._event_dict = {}
-        self._next_id = itertools.count()
+        self._next_id = itertools.count(first_id)
         # self.removed = '<removed-task>'
 
     def push(self, time, task):
@@ -287,8 +288,8 @@ class Kernel:
         self._initializer: Initializer | None = None
         self._initializer_args: Iterable[Any] = ()
 
-        # Очередь событий
-        self._queue = EventQueue()
+        # Очередь событий (идентификаторы событий больше 0)
+        self._queue = EventQueue(first_id=1)
 
         # Время и часы
         self._sim_time = 0.0
-- 
2.43.0


From cd16d5690489bafb683f3a6f3f4512b07d5aee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:09 +0000
Subject: [PATCH 08/47] fix: do not list cancelled events among the future ones

---
 pysim/sim/simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index f1a89e7..421bb7e 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -265,7 +265,8 @@ class EventQueue:
         return len(self._event_dict) == 0
 
     def to_list(self):
-        return list(self._event_list)
+        # Отмененные события остаются в куче, но в очереди их уже нет
+        return [ev for ev in self._event_list if ev[1] in self._event_dict]
 
 
 class Kernel:
-- 
2.43.0


From 153f5b79c377510a06dee4907bb5c5b9b4b30967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:23 +0000
Subject: [PATCH 09/47] fix: honour file_name_sep when the log file name is
 built

---
 pysim/sim/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index af5e50e..1068f3d 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -200,7 +200,8 @@ class ModelLogger:
             else:
                 file_name = ModelLogger.build_file_name(
                     config.file_name, 
-                    self._run_id
+                    self._run_id,
+                    config.file_name_sep
                 )
             
             # Каждый запуск создает отдельный файл, поэтому режим = 'w'
-- 
2.43.0


From 6e4d26e89efb9e7dc56be6f94f6e714f74abfdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:23 +0000
Subject: [PATCH 10/47] fix: keep an explicit run_id of 0

---
 pysim/sim/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index 1068f3d..9092c92 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -143,7 +143,9 @@ class ModelLogger:
         """
         self._logger = logging.getLogger(model_name)
         self.time_getter = time_getter or (lambda: 0)
-        self._run_id: int = run_id or uuid.uuid4().int % 1_000_000
+        if run_id is None:
+            run_id = uuid.uuid4().int % 1_000_000
+        self._run_id: int = run_id
         self._setup_was_called: bool = False
     
     def set_time_getter(self, fn: Callable[[], float]) -> None:
-- 
2.43.0


From 75bc177ddd26321fa19362f67943ce1eabb9a7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:23 +0000
Subject: [PATCH 11/47] fix: let console_level and file_level lower the level
 of their sink

---
 pysim/sim/logger.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index 9092c92..c5b1422 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -213,8 +213,13 @@ class ModelLogger:
             self._logger.addHandler(f_handler)
 
         self._logger.propagate = False
-        self._logger.setLevel(config.level)
-        
+        # Уровень самого логгера не должен отсекать записи, которые проходят
+        # по уровню хотя бы в один из обработчиков
+        self._logger.setLevel(min(
+            (handler.level for handler in self._logger.handlers),
+            default=config.level
+        ))
+
         # Отменчаем, что настройка была выполнена.
         self._setup_was_called = True
     
-- 
2.43.0


From 55496f41d4bd4a9b497e9b37580d12472dc75747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:23 +0000
Subject: [PATCH 12/47] fix: format records of non-standard levels without
 colour

---
 pysim/sim/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index c5b1422..dea8dc8 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -42,7 +42,9 @@ class ColoredFormatter(logging.Formatter):
         }
 
     def format(self, record):
-        log_fmt: logging.Formatter = self.FORMATS[record.levelno]
+        log_fmt = self.FORMATS.get(record.levelno)
+        if log_fmt is None:  # у нестандартного уровня нет своего цвета
+            return super().format(record)
         return log_fmt.format(record)
 
 
-- 
2.43.0


From 289cb2fe13bb3f3a697bb66aace551584d14262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:26 +0000
Subject: [PATCH 13/47] fix: count the ping interval that follows a lost ping,
 too

---
 pysim/models/pingpong/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysim/models/pingpong/model.py b/pysim/models/pingpong/model.py
index aac84bb..a9fed32 100755
--- a/pysim/models/pingpong/model.py
+++ b/pysim/models/pingpong/model.py
@@ -175,6 +175,9 @@ class Server(Node):
                 sim.context.client.interval,
                 sim.context.client.handle_timeout
             )
+            sim.context.client.intervals_list.append(
+                sim.context.client.interval
+            )
 
     def handle_service_end(self, sim: Simulator, ping: Packet) -> None:
         """
-- 
2.43.0


From 346e676e019d872c224dab6a0115191bde83833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:26 +0000
Subject: [PATCH 14/47] fix: count every unanswered ping as missed, and nothing
 else

---
 pysim/models/pingpong/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/pingpong/model.py b/pysim/models/pingpong/model.py
index a9fed32..1bdac1a 100755
--- a/pysim/models/pingpong/model.py
+++ b/pysim/models/pingpong/model.py
@@ -98,7 +98,7 @@ class Client(Node):
         assert self.channel is not None
         assert self.server is not None
 
-        if not self.was_acknowledged:
+        if self.num_pings_sent > 0 and not self.was_acknowledged:
             self.num_missed += 1
         self.number += 1
         if self.max_pings is None or self.num_pings_sent < self.max_pings:
@@ -110,6 +110,7 @@ class Client(Node):
             )
             sim.call(self.channel.send, (packet,))
             self.num_pings_sent += 1
+            self.was_acknowledged = False
         else:
             # Если достигли максимального числа пингов, останавливаемся.
             sim.logger.info("reached max pings (%d), stopping", self.max_pings)
-- 
2.43.0


From 74c131f2fe52caf24e801695b0eedc52f91b7491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:26 +0000
Subject: [PATCH 15/47] fix: report the probability of missing a pong, not of
 receiving it

---
 README.md                         | 2 +-
 pysim/models/pingpong/README.md   | 6 +++---
 pysim/models/pingpong/handlers.py | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/README.md b/README.md
index 0800fce..0cd29e1 100755
--- a/README.md
+++ b/README.md
@@ -109,7 +109,7 @@ Running PingPong model
 Параметры: {'loss_prob': 0.8, 'interval': 10.0, 'channel_delay': 2.0, 'service_delay': 1.0, 'max_pings': 1000000}
 - Средний интервал отправки Ping клиентом(условные единицы) = 10.0
 - Средняя длительность передачи сообщения(условные единицы) = 2.0
-- Вероятность потери сообщения = 0.19953
+- Вероятность потери сообщения = 0.80047
 
 ```
 
diff --git a/pysim/models/pingpong/README.md b/pysim/models/pingpong/README.md
index 0d03bce..6120ee5 100644
--- a/pysim/models/pingpong/README.md
+++ b/pysim/models/pingpong/README.md
@@ -61,7 +61,7 @@ python3 cli.py -l 0.7
 Параметры: {'loss_prob': 0.7, 'interval': 10.0, 'channel_delay': 2.0, 'service_delay': 1.0, 'max_pings': 1000000}
 - Средний интервал отправки Ping клиентом(условные единицы) = 10.0
 - Средняя длительность передачи сообщения(условные единицы) = 2.0
-- Вероятность потери сообщения = 0.299611 
+- Вероятность потери сообщения = 0.700389 
 ```
 а для команды 
 ```
@@ -86,7 +86,7 @@ python3 cli.py -i 15 -i 25 -i 35 -i 45 -i 55
 +--------------+---------------------------------------------------+
 | avg_interval |          [15.0, 25.0, 35.0, 45.0, 55.0]           |
 |  avg_delay   |             [2.0, 2.0, 2.0, 2.0, 2.0]             |
-|  miss_rate   | [0.900109, 0.89992, 0.899941, 0.900157, 0.900191] |
+|  miss_rate   | [0.099891, 0.10008, 0.100059, 0.099843, 0.099809] |
 +--------------+---------------------------------------------------+
 ```
 Также если передать функции `result_processing` в модуле `processing.py` параметр
@@ -97,7 +97,7 @@ save_results=True
 Пример файла для одной из команд выше:
 ```
 Входные параметры: {"interval": [15.0, 25.0, 35.0, 45.0], "channel_delay": 2.0, "service_delay": 1.0, "loss_prob": 0.1, "max_pings": 1000000}
-Результаты моделирования: {"avg_interval": [15.0, 25.0, 35.0, 45.0], "avg_delay": [2.0, 2.0, 2.0, 2.0], "miss_rate": [0.900471, 0.89983, 0.900341, 0.900455]}
+Результаты моделирования: {"avg_interval": [15.0, 25.0, 35.0, 45.0], "avg_delay": [2.0, 2.0, 2.0, 2.0], "miss_rate": [0.099529, 0.10017, 0.099659, 0.099545]}
 ```
 
 
diff --git a/pysim/models/pingpong/handlers.py b/pysim/models/pingpong/handlers.py
index 1b1b3c9..204fbed 100755
--- a/pysim/models/pingpong/handlers.py
+++ b/pysim/models/pingpong/handlers.py
@@ -21,6 +21,7 @@ def finalize(sim: Simulator) -> Result:
         avg_interval=statistics.mean(model.client.intervals_list),
         avg_delay=statistics.mean(model.channel.delays_list),
         miss_rate=(
-            model.client.num_acknowledged / model.client.num_pings_sent
+            (model.client.num_pings_sent - model.client.num_acknowledged) /
+            model.client.num_pings_sent
         ),
     )
-- 
2.43.0


From c71743b9eb0116ac41e016574938d31156754779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:26 +0000
Subject: [PATCH 16/47] fix: print the pingpong sweep values in the order of
 their results

---
 pysim/models/pingpong/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysim/models/pingpong/cli.py b/pysim/models/pingpong/cli.py
index 1a73835..a59e42b 100755
--- a/pysim/models/pingpong/cli.py
+++ b/pysim/models/pingpong/cli.py
@@ -38,6 +38,9 @@ def check_vars_for_multiprocessing(**kwargs):
             variadic = arg_name
         else:
             kwargs[arg_name] = kwargs[arg_name][0]
+    if variadic is not None:
+        # Порядок значений - тот же, в котором будут результаты
+        kwargs[variadic] = tuple(sorted(set(kwargs[variadic])))
     return kwargs, variadic
 
 
-- 
2.43.0


From c4f3b2e04296722e6fc44d63785c3562d7e72b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:26 +0000
Subject: [PATCH 17/47] fix: sum the whole series in the analytic model of
 scenario 2

---
 pysim/models/tag_time/analitical_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysim/models/tag_time/analitical_model.py b/pysim/models/tag_time/analitical_model.py
index f8cd192..c8bdd47 100644
--- a/pysim/models/tag_time/analitical_model.py
+++ b/pysim/models/tag_time/analitical_model.py
@@ -49,10 +49,10 @@ def calculate_second_case(phases):
         где p - вероятность передачи,
         t - время нахождения в состоянии;
     '''
+    # Сумма ряда (n + 1) * t * p * (1 - p)^n, n = 0, 1, ...
     res = 0
-    for phase in phases:
-        for n in range(1000):
-            res += (n + 1) * phase[1] * phase[0] * ((1 - phase[0]) ** n)
+    for p, t in phases:
+        res += t / p if p > 0 else float('inf')
     return res
 
 
-- 
2.43.0


From f470adcd22f3862ba3b09dc7b80fcac8629427dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:26 +0000
Subject: [PATCH 18/47] fix: take the chunk phase of analytic scenario 3 from
 its first chunk

---
 pysim/models/tag_time/analitical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/tag_time/analitical_model.py b/pysim/models/tag_time/analitical_model.py
index c8bdd47..934187b 100644
--- a/pysim/models/tag_time/analitical_model.py
+++ b/pysim/models/tag_time/analitical_model.py
@@ -95,7 +95,7 @@ def run_analitica(script_number, all_phases, chunks_number):
         for i in range(len(all_phases)):
             analit_res.append(
                 calculate_third_case(
-                    all_phases[i][0:3], all_phases[i][4], chunks_number
+                    all_phases[i][0:3], all_phases[i][3], chunks_number
                 )*1_000
             )
     return analit_res
-- 
2.43.0


From 4b3405f70256f7400bc445fdf7ecdcee651ed8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:26 +0000
Subject: [PATCH 19/47] fix: use the chosen DR in the link timings of tag_time

---
 pysim/models/tag_time/calculate_params.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysim/models/tag_time/calculate_params.py b/pysim/models/tag_time/calculate_params.py
index fa8f5b0..7a98123 100644
--- a/pysim/models/tag_time/calculate_params.py
+++ b/pysim/models/tag_time/calculate_params.py
@@ -218,8 +218,10 @@ def prepare_probs(params, chunks_number, ber, points_number):
 
 
 def prepare_times(params, probs, chunks_number):
-    T1 = p.link_t1_max(rtcal=params['rtcal'], trcal=params['trcal'], dr=None)
-    T2 = p.link_t2_max(trcal=params['trcal'], dr=None)
+    T1 = p.link_t1_max(
+        rtcal=params['rtcal'], trcal=params['trcal'], dr=params['DR']
+    )
+    T2 = p.link_t2_max(trcal=params['trcal'], dr=params['DR'])
     T1_2 = T1 + T2
     delta = 1e-5
 
-- 
2.43.0


From ff8801e6e2027cb2c2f4d0b2918ff8992a98106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:15 +0000
Subject: [PATCH 20/47] fix: collections.Iterable no longer exists, use
 collections.abc

---
 pysim/models/rfid/epcstd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 2738602..bd21c20 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -1,6 +1,6 @@
 from enum import Enum
 import random
-import collections
+from collections.abc import Iterable
 import numpy as np
 
 
@@ -545,7 +545,7 @@ class QueryReply(Reply):
 def to_bytes(value):
     if isinstance(value, str):
         return list(bytearray.fromhex(value))
-    elif isinstance(value, collections.Iterable):
+    elif isinstance(value, Iterable):
         value = list(value)
         for b in value:
             if not isinstance(b, int) or not (0 <= b < 256):
-- 
2.43.0


From e515b18362ae15b8b7e1ecd988b4b97a78aed502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:15 +0000
Subject: [PATCH 21/47] fix: query_adjust_duration passed delim as trcal and
 had no valid default updn

---
 pysim/models/rfid/epcstd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index bd21c20..11103b2 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -882,10 +882,10 @@ def query_rep_duration(tari=None, rtcal=None, trcal=None, delim=None,
 
 
 def query_adjust_duration(
-    delim=None, tari=None, rtcal=None, session=None, updn=None
+    delim=None, tari=None, rtcal=None, session=None, updn=0
 ):
     return reader_frame_duration(QueryAdjust(session, updn), tari, rtcal,
-                                 delim)
+                                 delim=delim)
 
 
 # noinspection PyTypeChecker
-- 
2.43.0


From d24a8ff61a541932460dc11476296b96a9c6eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:15 +0000
Subject: [PATCH 22/47] fix: tag_preamble_duration falls back to the default
 encoding

---
 pysim/models/rfid/epcstd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 11103b2..c9359dd 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -809,6 +809,7 @@ def tag_preamble_bitlen(encoding=None, trext=None):
 
 def tag_preamble_duration(blf=None, encoding=None, trext=None):
     blf = blf if blf is not None else get_blf()
+    encoding = encoding if encoding is not None else stdParams.tag_encoding
     bitlen = tag_preamble_bitlen(encoding, trext)
     return (bitlen * encoding.symbols_per_bit) / blf
 
-- 
2.43.0


From d39238d5a17192f49e0cae9573e1d1c3d1f417c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:15 +0000
Subject: [PATCH 23/47] fix: the effective SNR of a vanishing signal is 0

---
 pysim/models/rfid/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index aba87e3..7de0756 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -192,7 +192,7 @@ def snr(power, noise):
 def snr_full(*, snr, miller=1, symbol=1.25e-6, preamble=9.3e-6,
              bandwidth=1.2e6, tol=1e-8, **kwargs):
     if snr < tol:
-        return 0.5
+        return 0.
 
     # print(">>> miller={}, symbol={}, preamble={}, bandwidth={}".format(
     #     miller, symbol, preamble, bandwidth
-- 
2.43.0


From 9f4d8eba171f566fe845decf28b40bfe0a8ef1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:27 +0000
Subject: [PATCH 24/47] fix: no NaN gain for an antenna pointing straight along
 the ray

---
 pysim/models/rfid/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index 7de0756..a44106f 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -5,7 +5,8 @@ import scipy.special as special
 
 
 def to_sin(cos):
-    return (1 - cos ** 2) ** .5
+    # Из-за округления модуль косинуса может оказаться чуть больше единицы
+    return np.maximum(1 - cos ** 2, 0.) ** .5
 
 
 def to_log(value, dbm=False, tol=1e-15):
-- 
2.43.0


From f2aa6fe6dc601ce114b4e309cc4aea2a2134777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:48 +0000
Subject: [PATCH 25/47] fix: a generator gives every tag its own EPC and TID

---
 pysim/models/rfid/objects.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 445dfa5..61094f1 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1355,6 +1355,8 @@ class Generator:
 
     def __init__(self):
         self._next_interval = (lambda: 1.0,)
+        self._epc_suffix = None
+        self._tid_suffix = None
 
     def set_interval(self, fn, *args):
         self._next_interval = (fn,) + args
@@ -1380,8 +1382,10 @@ class Generator:
         tid_suffix_bitlen = (
             self.tid_bitlen - hex_string_bitlen(self.tid_prefix)
         )
-        self._epc_suffix = '0' * int(np.ceil(epc_suffix_bitlen / 4))
-        self._tid_suffix = '0' * int(np.ceil(tid_suffix_bitlen / 4))
+        if self._epc_suffix is None:
+            self._epc_suffix = '0' * int(np.ceil(epc_suffix_bitlen / 4))
+        if self._tid_suffix is None:
+            self._tid_suffix = '0' * int(np.ceil(tid_suffix_bitlen / 4))
 
         tag_id = next(model.next_tag_id)
         tag = Tag(tag_id)
-- 
2.43.0


From 8fec85d23583ac770cae8f2bc7cd59097fdd6736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:48 +0000
Subject: [PATCH 26/47] fix: a tag that leaves in the middle of an exchange
 neither crashes the run nor loses its read

---
 pysim/models/rfid/handlers.py | 16 ++++++++++------
 pysim/models/rfid/objects.py  |  1 +
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 20c440e..644c17f 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -215,9 +215,9 @@ def _one_tag_response(kernel, transaction, ctx, reader, tag, frame, snr, ber):
     завершения транзакции считывателя
     '''
     if isinstance(frame.reply, std.AckReply):
-        tag_read_record = (
-            ctx.statistics.get_tag_record(tag)
-            .new_tag_read_record(reader, reader.inventory_round.index))
+        tag_record = ctx.statistics.get_tag_record(tag)
+        tag_read_record = tag_record.new_tag_read_record(
+            reader, reader.inventory_round.index)
         tag_read_record.tag_pos = np.array(tag.pos, copy=True)
         tag_read_record.reader_antenna_pos = np.array(
             reader.antenna.pos, copy=True)
@@ -225,14 +225,15 @@ def _one_tag_response(kernel, transaction, ctx, reader, tag, frame, snr, ber):
         tag_read_record.snr = snr
 
         # noinspection PyShadowingNames
-        def on_slot_end(round_index, slot_index, reader, tag, statistics):
-            statistics.get_tag_record(tag).close_tag_read_record()
+        def on_slot_end(round_index, slot_index, reader, tag_record,
+                        statistics):
+            tag_record.close_tag_read_record()
             reader.slot_finish_listeners.remove(
                 statistics.slot_end_listener_id)
 
         ctx.statistics.slot_end_listener_id = \
             ctx.reader.slot_finish_listeners.add(
-                on_slot_end, reader=reader, tag=tag,
+                on_slot_end, reader=reader, tag_record=tag_record,
                 statistics=ctx.statistics)
 
         kernel.logger.info(
@@ -297,6 +298,9 @@ def finish_transaction(kernel, transaction):
 
     tag, frame, snr, ber = transaction.received_tag_frame(
         ctx.medium, kernel.time)
+    if tag is not None and ctx.statistics.get_tag_record(tag) is None:
+        # Метка покинула зону, не закончив отвечать
+        tag, frame = None, None
 
     if frame is not None:
         # Если есть один ответ от метки
diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 61094f1..9f81fed 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1861,6 +1861,7 @@ class Statistics:
 
     def close_tag_record(self, tag):
         record = self._current_tag_records.pop(tag)
+        record.close_tag_read_record()
         self.tags_history.append(record)
 
     def average_rounds_per_tag(self):
-- 
2.43.0


From cb6aca2789895becdf0508dc30f0caa1cd146a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:48 +0000
Subject: [PATCH 27/47] fix: switch the target every rounds_per_target rounds,
 not one round later

---
 pysim/models/rfid/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 9f81fed..82dae1c 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -239,8 +239,9 @@ class _ReaderQUERY(_ReaderState):
         if reader.target_strategy == 'switch':
             if reader.num_rounds_before_target_switch <= 0:
                 reader.target = reader.target.invert()
+                # Текущий раунд - уже первый с новым значением target
                 reader.num_rounds_before_target_switch = \
-                    reader.rounds_per_target
+                    reader.rounds_per_target - 1
             else:
                 reader.num_rounds_before_target_switch -= 1
 
-- 
2.43.0


From bb041a278a90c20e72bb52da61c481289d19fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:48 +0000
Subject: [PATCH 28/47] fix: QueryAdjust keeps the Q of a tag within 0..15

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 82dae1c..ae44a17 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1204,7 +1204,7 @@ class Tag:
             )
             self._set_state(Tag.State.ARBITRATE)
             updn = qadjust.updn
-            if self.q + updn >= 0 or self.q + updn <= 15:
+            if 0 <= self.q + updn <= 15:
                 self.q = self.q + updn
                 self._slot_counter = np.random.randint(0, pow(2, self.q))
                 stat = self.kernel.context.statistics
-- 
2.43.0


From 784ac16c2bd291d78b2982759a2ace611bc6b5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:48 +0000
Subject: [PATCH 29/47] fix: only Query starts with the full preamble, other
 commands with frame-sync

---
 pysim/models/rfid/objects.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index ae44a17..8b47851 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -292,7 +292,7 @@ class _ReaderQREP(_ReaderState):
     def enter(self, reader):
         reader.last_rn = None
         cmd = std.QueryRep(reader.session)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
@@ -337,7 +337,7 @@ class _ReaderAdjust(_ReaderState):
     def enter(self, reader):
         reader.last_rn = None
         cmd = std.QueryAdjust(reader.session, reader.updn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader):
         return None  # Reader is already ON
@@ -381,7 +381,7 @@ class _ReaderACK(_ReaderState):
 
     def enter(self, reader):
         cmd = std.Ack(reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader):
         return None
@@ -427,7 +427,7 @@ class _ReaderREQRN(_ReaderState):
 
     def enter(self, reader):
         cmd = std.ReqRN(reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
@@ -471,7 +471,7 @@ class _ReaderREAD(_ReaderState):
     def enter(self, reader):
         cmd = std.Read(std.MemoryBank.TID, 0x00, reader.read_tid_words_num,
                        reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
-- 
2.43.0


From 82e04174270450e70d7bed36a385a41747edc434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:48 +0000
Subject: [PATCH 30/47] fix: keep updn while the QueryAdjust it belongs to is
 on the air

---
 pysim/models/rfid/handlers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 644c17f..4a5cc1a 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -203,7 +203,6 @@ def _no_tag_response(kernel, ctx, reader):
                 # Отправить команду QueryAdjust
                 reader.updn = -1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
-                reader.updn = 0
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
     return cmd_frame
@@ -278,7 +277,6 @@ def _multiple_tag_response(kernel, ctx, reader, transaction):
                 # Отправить команду QueryAdjust
                 reader.updn = 1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
-                reader.updn = 0
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
     return cmd_frame
-- 
2.43.0


From 238fbbe407281d8759ae348de67250bfadcc53e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:48 +0000
Subject: [PATCH 31/47] fix: use the ber_distribution the medium is configured
 with

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 8b47851..1e185fb 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1528,7 +1528,7 @@ class Medium:
         return snr
 
     def estimate_reader_rx_ber(self, reader, tag, tags, snr):
-        return chan.ber(snr)
+        return chan.ber(snr, self.ber_distribution)
 
 
 #############################################################################
-- 
2.43.0


From ab3069836d1386275bf6ef5ec3dcb5f61eee857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:48 +0000
Subject: [PATCH 32/47] fix: account for TRext in the preamble the SNR is
 estimated with

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 1e185fb..1066a11 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1522,7 +1522,7 @@ class Medium:
         # print('>>>>>>>>> blf, m, symbol', blf, m, symbol)
         snr = chan.snr_full(
             snr=raw_snr, miller=m.symbols_per_bit, symbol=symbol,
-            preamble=std.tag_preamble_duration(blf, m),
+            preamble=std.tag_preamble_duration(blf, m, tag.trext),
             bandwidth=self.bandwidth)
         # print('>>>>>>>>>> snr full', snr)
         return snr
-- 
2.43.0


From e5ccf8ba151d17f90e3d1be64a8bde6cc9a0b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:48 +0000
Subject: [PATCH 33/47] fix: Read starts at word_ptr and a missing bank is not
 answered

---
 pysim/models/rfid/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 1066a11..434b1ac 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1264,6 +1264,9 @@ class Tag:
             return None
         if read.rn == self.rn:
             content = self.bank_data(read.bank)
+            if content is None:  # такого банка в метке нет
+                return None
+            content = content[read.word_ptr * 4:]
             # Извлекаем из банка ровно столько данных, сколько запрошено.
             # В команде указывается число слов (по два байта), а в content
             # лежит hex-строка, в которой каждый байт кодируется двумя
-- 
2.43.0


From 94b090003e8ef36ecc19d431f6521c498b96e749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:48 +0000
Subject: [PATCH 34/47] fix: the session persistence settings reach the tags

---
 pysim/models/rfid/configurator.py | 4 ++++
 pysim/models/rfid/objects.py      | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index 26e287f..895998e 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -320,6 +320,10 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
     generator.epc_bitlen = settings.epc_bitlen
     generator.tid_bitlen = settings.get_tid_bitlen(reader.read_tid_words_num)
 
+    generator.s1_persistence = settings.s1_persistence
+    generator.s2_persistence = settings.s2_persistence
+    generator.s3_persistence = settings.s3_persistence
+
     generator.max_tags_generated = model.max_tags_num
     generator.antenna_gain = settings.tag_antenna_gain
     generator.modulation_loss = settings.tag_modulation_loss
diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 434b1ac..e2ed796 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1348,6 +1348,9 @@ class Generator:
     tid_bitlen = 64
     epc_prefix = 'AAAA'
     tid_prefix = 'AAAA'
+    s1_persistence = 2.0  # sec.
+    s2_persistence = 2.0  # sec.
+    s3_persistence = 2.0  # sec.
     max_tags_generated = -1
     num_tags_generated = 0
 
@@ -1407,6 +1410,9 @@ class Generator:
         tag.antenna.cable_loss = self.cable_loss
         tag.sensitivity = self.sensitivity
         tag.modulation_loss = self.modulation_loss
+        tag.s1_persistence = self.s1_persistence
+        tag.s2_persistence = self.s2_persistence
+        tag.s3_persistence = self.s3_persistence
         return tag
 
 
-- 
2.43.0


From 2731973adebccb873a64439e769353a87fd5d3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:48 +0000
Subject: [PATCH 35/47] fix: q_fp follows q unless it is set

---
 pysim/models/rfid/configurator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index 895998e..2ee0de6 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -133,7 +133,7 @@ class Settings:
     # (если есть значение по умолчанию в click, то не используется)
     # коэффициент, на который изменяется значение q
     adjust_delta: float = 0.1
-    q_fp: float = q
+    q_fp: float | None = None  # если не задано, то равно q
 
     # Значение поля Target команды Query, то есть флаг сессии, по которому
     # идет опрос меток. Ответ будут передавать только те метки, которые хранят
@@ -279,7 +279,7 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
         'useadjust', settings.use_query_adjust
     )
     reader.adjust_delta = kwargs.get('delta', settings.adjust_delta)
-    reader.q_fp = settings.q_fp
+    reader.q_fp = settings.q if settings.q_fp is None else settings.q_fp
     print(reader.use_query_adjust)
 
     # 2) Attaching antennas to reader
-- 
2.43.0


From 6bb3e944555368515ab318f8cf2cf1817de99a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:48 +0000
Subject: [PATCH 36/47] fix: an RFID parameter sweep from the command line runs
 to its end

---
 pysim/models/rfid/cli.py        | 2 ++
 pysim/models/rfid/processing.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/cli.py b/pysim/models/rfid/cli.py
index 5d45aab..c3553ca 100644
--- a/pysim/models/rfid/cli.py
+++ b/pysim/models/rfid/cli.py
@@ -144,6 +144,8 @@ def prepare_multiple_simulation(variadic, **kwargs):
         'power': kwargs['power'],
         'num_tags': kwargs['num_tags'],
         'verbose': False,
+        'useadjust': kwargs['useadjust'],
+        'delta': kwargs['delta'],
     } for _ in enumerate(variadic_values)]
 
     # Теперь заменим значения варьируемого аргумента, чтобы в каждом
diff --git a/pysim/models/rfid/processing.py b/pysim/models/rfid/processing.py
index b05d60b..1089030 100644
--- a/pysim/models/rfid/processing.py
+++ b/pysim/models/rfid/processing.py
@@ -1,5 +1,6 @@
 import json
 import matplotlib.pyplot as plt
+import os
 from tabulate import tabulate
 import time
 
@@ -91,7 +92,7 @@ def plot_results(initial_data, results, variadic, save_fig = True):
     results_dict = results_to_dict(ret)
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/plots/' + current_time + '-' + variadic + '.png'
-    units = {'speed': 'km/h', 'reader_offset': 'm', 'altitude': 'm', 'power': 'dBm', 'tid_word_size': 'words'}
+    units = {'speed': 'km/h', 'reader_offset': 'm', 'tag_offset': 'm', 'altitude': 'm', 'power': 'dBm', 'tid_word_size': 'words'}
     
     fig, ax = plt.subplots(figsize=(14, 8), layout='constrained')
     ax.plot(
@@ -106,4 +107,5 @@ def plot_results(initial_data, results, variadic, save_fig = True):
     ax.tick_params(axis='both', which='major', labelsize=31)
     ax.grid()
     if save_fig:
+        os.makedirs(os.path.dirname(filename), exist_ok=True)
         fig.savefig(filename)
\ No newline at end of file
-- 
2.43.0


From 8a343d9b0e4deeafea2f2f663e533dc88a388970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:27 +0000
Subject: [PATCH 37/47] fix: a logger without sinks prints nothing to the
 console

---
 pysim/sim/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index dea8dc8..a2647c3 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -221,6 +221,9 @@ class ModelLogger:
             (handler.level for handler in self._logger.handlers),
             default=config.level
         ))
+        if not self._logger.handlers:
+            # Без обработчиков logging сам напечатал бы запись в stderr
+            self._logger.addHandler(logging.NullHandler())
 
         # Отменчаем, что настройка была выполнена.
         self._setup_was_called = True
-- 
2.43.0


From 77fe5887bdd6713c92a0be43f04ca734ae6c2bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 38/47] fix: QueryAdjust announces the direction in which Q
 really moves

---
 pysim/models/rfid/handlers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 4a5cc1a..ef60298 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -199,9 +199,9 @@ def _no_tag_response(kernel, ctx, reader):
                 kernel.logger.error(
                     f'Считыватель уменьшил Q с {reader.q} до {new_q}'
                 )
-                reader.q = new_q  # обновляем q в считывателе
                 # Отправить команду QueryAdjust
-                reader.updn = -1
+                reader.updn = new_q - reader.q
+                reader.q = new_q  # обновляем q в считывателе
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
@@ -273,9 +273,9 @@ def _multiple_tag_response(kernel, ctx, reader, transaction):
                 kernel.logger.error(
                     f'Считыватель увеличил Q с {reader.q} до {new_q}'
                 )
-                reader.q = new_q  # обновляем q в считывателе
                 # Отправить команду QueryAdjust
-                reader.updn = 1
+                reader.updn = new_q - reader.q
+                reader.q = new_q  # обновляем q в считывателе
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
-- 
2.43.0


From 05c476b5d5f7b8f0830b8c4f6bf1d8b1f0ea9860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:47 +0000
Subject: [PATCH 39/47] fix: create the results folders before saving into them

---
 pysim/models/pingpong/processing.py | 2 ++
 pysim/models/rfid/processing.py     | 1 +
 pysim/models/tag_time/processing.py | 3 +++
 3 files changed, 6 insertions(+)

diff --git a/pysim/models/pingpong/processing.py b/pysim/models/pingpong/processing.py
index 47ebaff..6a63b60 100644
--- a/pysim/models/pingpong/processing.py
+++ b/pysim/models/pingpong/processing.py
@@ -1,4 +1,5 @@
 import json
+import os
 from tabulate import tabulate
 import time
 
@@ -6,6 +7,7 @@ import time
 def save_results_to_file(initial_data, res):
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/' + 'model_res-' + current_time + '.txt'
+    os.makedirs(os.path.dirname(filename), exist_ok=True)
     with open(filename, 'w') as f:
         f.write('Входные параметры: ' + json.dumps(initial_data) + '\n')
         f.write('Результаты моделирования: ' + json.dumps(res))
diff --git a/pysim/models/rfid/processing.py b/pysim/models/rfid/processing.py
index 1089030..8ae4fc2 100644
--- a/pysim/models/rfid/processing.py
+++ b/pysim/models/rfid/processing.py
@@ -81,6 +81,7 @@ def print_the_mult_results_to_the_terminal(initial_data, results, variadic):
 def save_mult_results_to_file(initial_data, results, variadic):
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/text/' + 'sim_res-' + current_time + '.txt'
+    os.makedirs(os.path.dirname(filename), exist_ok=True)
     ret, time_list = separate_res(results)
     results_dict = results_to_dict(ret)
     with open(filename, 'w') as f:
diff --git a/pysim/models/tag_time/processing.py b/pysim/models/tag_time/processing.py
index 0d7cd29..4d43391 100644
--- a/pysim/models/tag_time/processing.py
+++ b/pysim/models/tag_time/processing.py
@@ -1,5 +1,6 @@
 import json
 import matplotlib.pyplot as plt
+import os
 import time
 
 
@@ -23,6 +24,7 @@ def result_processing(kwargs, result, save_res=True, plot_res=False):
 def save_results(kwargs, res):
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/text/' + 'sim_res-' + current_time + '.txt'
+    os.makedirs(os.path.dirname(filename), exist_ok=True)
     with open(filename, 'w') as f:
         f.write('Входные параметры: ' + json.dumps(kwargs) + '\n')
         f.write('Результаты моделирования: ' + json.dumps(res))
@@ -39,4 +41,5 @@ def plot_results(kwargs, res, save_fig=True):
         markersize=8,
     )
     if save_fig:
+        os.makedirs(os.path.dirname(filename), exist_ok=True)
         fig.savefig(filename)
-- 
2.43.0


From 0928f4726577db3d467285902981af9a83c4b4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:07 +0000
Subject: [PATCH 40/47] fix: keep tag positions in floating point when the
 start is given in whole numbers

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index e2ed796..ce5e155 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1400,7 +1400,7 @@ class Generator:
         tag.tid = self.tid_prefix + self._tid_suffix
         self._epc_suffix = inc_hex_string(self._epc_suffix)
         self._tid_suffix = inc_hex_string(self._tid_suffix)
-        tag.pos = np.array(self.pos0, copy=True)
+        tag.pos = np.array(self.pos0, dtype=float)
         tag.velocity = self.velocity
         tag.direction = np.array(self.direction, copy=True)
         tag.antenna.gain = self.antenna_gain
-- 
2.43.0


From 9b2fe730f05b8cfb0c0aca827d2173660f0c53ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:21 +0000
Subject: [PATCH 41/47] fix: colour records of the model's own levels as
 configured

---
 pysim/sim/logger.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index a2647c3..3979aab 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -34,11 +34,12 @@ class ColoredFormatter(logging.Formatter):
         colors = colors or {}  # Если colors = None, то присвоить {} 
         self.FORMATS = {
             level: logging.Formatter(
-                colors.get(level, ColoredFormatter.DEFAULT_COLORS[level]) +
-                fmt + colorama.Style.RESET_ALL,
+                color + fmt + colorama.Style.RESET_ALL,
                 style=style  # type: ignore
             )
-            for level in ColoredFormatter.DEFAULT_COLORS.keys()
+            for level, color in {
+                **ColoredFormatter.DEFAULT_COLORS, **colors
+            }.items()
         }
 
     def format(self, record):
-- 
2.43.0


From faba346e03585511baaa7200404cccdf59414a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:40 +0000
Subject: [PATCH 42/47] fix: let the switched-off state tell how long the
 reader stays off

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index ce5e155..060dc19 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -176,7 +176,7 @@ class _ReaderOFF(_ReaderState):
         super().__init__('OFF')
 
     def get_timeout(self, reader):
-        return reader.power_control_mode.power_off_interval(reader)
+        return reader.power_control_mode.powered_off_interval(reader)
 
     def enter(self, reader):
         # On turning off the reader must finish current round and power down.
-- 
2.43.0


From 27688d7167286c4ecead3b328fc5b6307ee0f5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 43/47] fix: print the model settings in verbose mode

print_model_settings() read attributes that the kernel and the logger do
not have, and the -v option of the RFID model had no effect.
---
 pysim/models/rfid/configurator.py | 16 +++++++++++-----
 pysim/sim/logger.py               |  4 ++++
 pysim/sim/simulator.py            |  8 ++++++++
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index 2ee0de6..8368c53 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -333,6 +333,9 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
         settings.generation_interval[0],
         *settings.generation_interval[1:])
 
+    if verbose:
+        print_model_settings(model)
+
     return model
 
 
@@ -356,7 +359,7 @@ def run_model(
     return result
 
 
-def print_model_settings(model: Model, kernel: sim.Kernel):
+def print_model_settings(model: Model, kernel: sim.Kernel | None = None):
     reader = model.reader
     medium = model.medium
     generator = model.generators[0]
@@ -419,9 +422,12 @@ def print_model_settings(model: Model, kernel: sim.Kernel):
         ('tag', 'modulation_loss', generator.modulation_loss),
         ('tag', 'sensitivity', generator.sensitivity),
         ('generator', 'num_tags', generator.max_tags_generated),
-        # --- Kernel ---
-        ('kernel', 'max_simulation_time', kernel.max_simulation_time),
-        ('kernel', 'max_real_time', kernel.max_real_time),
-        ('kernel', 'logger_level', kernel.logger.level),
     ]
+    if kernel is not None:
+        rows += [
+            # --- Kernel ---
+            ('kernel', 'max_simulation_time', kernel.max_sim_time),
+            ('kernel', 'max_real_time', kernel.max_real_time),
+            ('kernel', 'logger_level', kernel.logger.level),
+        ]
     print(tabulate(rows))
diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index 3979aab..b36d38c 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -155,6 +155,10 @@ class ModelLogger:
         """Настроить функцию получения модельного времени."""
         self.time_getter = fn
     
+    @property
+    def level(self) -> int:
+        return self._logger.level
+
     def set_run_id(self, run_id: int) -> None:
         self._run_id = run_id
     
diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 421bb7e..6301d28 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -403,6 +403,14 @@ class Kernel:
         """Получить последний вызванный обработчик или инициализатор."""
         return self.lhandler
 
+    @property
+    def max_sim_time(self) -> float | None:
+        return self._max_sim_time
+
+    @property
+    def max_real_time(self) -> float | None:
+        return self._max_real_time
+
     def set_max_sim_time(self, value: float) -> None:
         self._max_sim_time = value
 
-- 
2.43.0


From 0408917fcd2d3d1b5ad77194235d328afea4aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 44/47] fix: get_color does not depend on
 matplotlib.cm.get_cmap, removed in matplotlib 3.9

---
 pysim/experiments/utility/graphs_style.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/experiments/utility/graphs_style.py b/pysim/experiments/utility/graphs_style.py
index f5bad32..c21c51e 100755
--- a/pysim/experiments/utility/graphs_style.py
+++ b/pysim/experiments/utility/graphs_style.py
@@ -40,7 +40,7 @@ def get_color(x: float):
     Returns:
         color
     """
-    return matplotlib.cm.get_cmap(CMAP_NAME)(x)
+    return matplotlib.colormaps[CMAP_NAME](x)
 
 
 def savefig(name: str, exts: Sequence[str] = IMAGE_EXTENSIONS,
-- 
2.43.0


From 07286b423c735d9b2b733e0ed640f90e6be8a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 45/47] fix: a model folder without __init__.py is found, as
 README promises

---
 pysim/main.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pysim/main.py b/pysim/main.py
index 4782f75..a7d6879 100755
--- a/pysim/main.py
+++ b/pysim/main.py
@@ -1,5 +1,6 @@
 import click
 import importlib
+import os
 import pkgutil
 
 
@@ -25,6 +26,16 @@ def run():
     pass
 
 
+def find_models(paths):
+    '''Имена всех подмодулей и папок с файлом cli.py (без __init__.py).'''
+    names = {submodule.name for submodule in pkgutil.iter_modules(paths)}
+    for path in paths:
+        for name in os.listdir(path):
+            if os.path.isfile(os.path.join(path, name, 'cli.py')):
+                names.add(name)
+    return sorted(names)
+
+
 #############################################################################
 # ИНИЦИАЛИЗАЦИЯ
 #
@@ -57,8 +68,7 @@ def run():
 #############################################################################
 def __initialize__():
     from pysim import models  # type: ignore
-    for submodule in pkgutil.iter_modules(models.__path__):
-        name = submodule.name
+    for name in find_models(models.__path__):
         try:
             module = importlib.import_module('.cli', f'pysim.models.{name}')
             try:
-- 
2.43.0


From e644822b7e09fffc60cdc1805d831d633704c8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 46/47] fix: a log level of zero admits every record

---
 pysim/sim/logger.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index b36d38c..709d082 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -221,11 +221,12 @@ class ModelLogger:
 
         self._logger.propagate = False
         # Уровень самого логгера не должен отсекать записи, которые проходят
-        # по уровню хотя бы в один из обработчиков
+        # по уровню хотя бы в один из обработчиков. Нулевой уровень (NOTSET)
+        # передал бы решение корневому логгеру, поэтому он поднимается до 1
         self._logger.setLevel(min(
             (handler.level for handler in self._logger.handlers),
             default=config.level
-        ))
+        ) or 1)
         if not self._logger.handlers:
             # Без обработчиков logging сам напечатал бы запись в stderr
             self._logger.addHandler(logging.NullHandler())
-- 
2.43.0


From 9964224de0a7a8a9b9579cfbf303e6d64d83cdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 47/47] =?UTF-8?q?fix:=20=D0=BE=D0=B4=D0=BD=D0=BE=D0=B2?=
 =?UTF-8?q?=D1=80=D0=B5=D0=BC=D0=B5=D0=BD=D0=BD=D0=BE=20=D0=B6=D0=B8=D0=B2?=
 =?UTF-8?q?=D1=83=D1=89=D0=B8=D0=B5=20=D0=BC=D0=BE=D0=B4=D0=B5=D0=BB=D0=B8?=
 =?UTF-8?q?=20=D1=81=20=D0=BE=D0=B4=D0=BD=D0=B8=D0=BC=20=D0=B8=D0=BC=D0=B5?=
 =?UTF-8?q?=D0=BD=D0=B5=D0=BC=20=D0=B4=D0=B5=D0=BB=D0=B8=D0=BB=D0=B8=20?=
 =?UTF-8?q?=D0=BB=D0=BE=D0=B3=D0=B3=D0=B5=D1=80?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Записи одной симуляции попадали в файл и консоль другой (или терялись),
если вторая симуляция с тем же именем была построена до запуска первой,
запущена из ее обработчика или в другом потоке.
---
 pysim/sim/logger.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index 709d082..4bda35d 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -144,7 +144,8 @@ class ModelLogger:
             time_getter: функция получения модельного времени
             run_id: идентификатор запуска
         """
-        self._logger = logging.getLogger(model_name)
+        # Логгер из getLogger() был бы общим для всех моделей с этим именем
+        self._logger = logging.Logger(model_name)
         self.time_getter = time_getter or (lambda: 0)
         if run_id is None:
             run_id = uuid.uuid4().int % 1_000_000
@@ -185,7 +186,7 @@ class ModelLogger:
             return
         
         config = config or ModelLoggerConfig()
-        self._logger.handlers = []
+        self._logger = logging.Logger(self._logger.name)
         if config.use_console:
             if config.colored_console:
                 c_formatter = ColoredFormatter(
-- 
2.43.0

