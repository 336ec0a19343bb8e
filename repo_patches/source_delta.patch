From 33158837aae529e3c8158e926e4632cce5ffdff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 01/57] fix: continue after the last generated day instead of
 generating it again

When the pre-generated days were used up, the new batch started with today, whose events had
already been handled, so every daily task of that day ran a second time.
---
 jqtrade/scheduler/event_source.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index d35df7f..de7a95f 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -42,6 +42,9 @@ class EventSource(object):
 
         self._has_gen_his_days = False
 
+        # 已生成过事件的最后一天
+        self._last_day = None
+
     def setup(self):
         if self._start is None or not config.ENABLE_HISTORY_START:
             self._start = datetime.datetime.now()
@@ -56,6 +59,7 @@ class EventSource(object):
 
         self._events = []
         self._has_gen_his_days = False
+        self._last_day = None
         self._days = self._get_days()
         self._need_regenerate_events = False
 
@@ -69,6 +73,9 @@ class EventSource(object):
             start = self._start.date()
             end = self._end.date() if self._end else None
             count = (end - start).days + 1 if end else count
+        elif self._last_day:
+            # 接着上一批日期继续生成，避免重复或遗漏
+            start = self._last_day + datetime.timedelta(days=1)
         else:
             start = datetime.date.today()
 
@@ -126,6 +133,7 @@ class EventSource(object):
                 break
 
             day = self._days.pop(0)
+            self._last_day = day
             self.add_daily_events(day)
 
         self._events.sort(key=lambda e: e[0])
-- 
2.43.0


From 22faa20e1c0c34b8a965ede8d55a2ab118c39704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 02/57] fix: honour a configured EVENT_DAYS_COUNT

The default argument was bound at import time, before the custom configuration file is loaded.
---
 jqtrade/scheduler/event_source.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index de7a95f..aea14ef 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -63,8 +63,10 @@ class EventSource(object):
         self._days = self._get_days()
         self._need_regenerate_events = False
 
-    def _get_days(self, count=config.EVENT_DAYS_COUNT):
+    def _get_days(self, count=None):
         days = []
+        if count is None:
+            count = config.EVENT_DAYS_COUNT
 
         if config.ENABLE_HISTORY_START or self._end:
             # 历史模式下，日期只有效生成一次
-- 
2.43.0


From b244a6f773f45b55cb463d8826d31452efc3d777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 03/57] fix: run the function passed to run_daily, not the one
 of that name in the strategy module

Lambdas, closures, methods and functions imported under another name resolved to None or to an
unrelated function.
---
 jqtrade/scheduler/strategy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index 0f29ef1..ffe1e63 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -99,7 +99,7 @@ class Strategy(object):
         for _desc in self._schedules:
             logger.info(f"设置定时任务: {_desc}")
 
-            _callback = self._get_handle(_desc['name'])
+            _callback = _desc['func']
             _cls_name = f"Scheduler_{_desc['name']}_{self._schedule_count}"
 
             event_source = EventSource(start=self._ctx.start, end=self._ctx.end)
@@ -137,11 +137,12 @@ class Strategy(object):
 
         time = self.TIME_DICT.get(time) or time
 
-        module, func = self._check_handle(func)
+        module, name = self._check_handle(func)
 
         desc = {
             'module': module,
-            'name': func,
+            'name': name,
+            'func': func,
             'time': time,
         }
         self._schedules.append(desc)
-- 
2.43.0


From 1824e23f99018008d2291784bf45a692295f1709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 04/57] fix: synchronise the account all day long on every day

Without sync_period the timer only covered the time of day from the start of the process to midnight,
so from the second day on nothing was synchronised before that time; started within the last interval
before midnight there was no event at all and the start hung.
---
 jqtrade/account/account.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 4e83498..669b6f4 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -132,7 +132,8 @@ class Account(AbsAccount):
         sync_internal = float(self._options.get("sync_internal", config.SYNC_INTERNAL))
         sync_period = self._options.get("sync_period", config.SYNC_PERIOD)
         if not sync_period:
-            current = now + datetime.timedelta(seconds=sync_internal)
+            # 从零点开始生成全天的同步时间，避免第二天起只在启动时刻之后同步
+            current = now.replace(hour=0, minute=0, second=0)
             while current <= now.replace(hour=23, minute=59, second=59):
                 event_source.daily(event_cls, current.strftime("%H:%M:%S"))
                 current += datetime.timedelta(seconds=sync_internal)
-- 
2.43.0


From 290dfa489ae039dd636d8a8c88b0fb4d4885a46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 05/57] fix: reject trading and sync periods that end before
 they start

Such a period has no occurrence on any day, and looking for the next one never ended.
---
 jqtrade/scheduler/strategy.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index ffe1e63..42233d4 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -174,8 +174,10 @@ class Strategy(object):
             for _period in market_period:
                 if len(_period) != 2:
                     raise ValueError(f"market_period设置错误：{_period}")
-                _start, _end = _period
-                periods.append((parse_time(_start), parse_time(_end)))
+                _start, _end = parse_time(_period[0]), parse_time(_period[1])
+                if _start > _end:
+                    raise ValueError(f"market_period设置错误：{_period}")
+                periods.append((_start, _end))
             kwargs["market_period"] = periods
 
         # parse account options
@@ -194,8 +196,10 @@ class Strategy(object):
             for _period in sync_period:
                 if len(_period) != 2:
                     raise ValueError(f"sync_period设置错误：{_period}")
-                _start, _end = _period
-                periods.append((parse_time(_start), parse_time(_end)))
+                _start, _end = parse_time(_period[0]), parse_time(_period[1])
+                if _start > _end:
+                    raise ValueError(f"sync_period设置错误：{_period}")
+                periods.append((_start, _end))
             kwargs["sync_period"] = periods
 
         # set options
-- 
2.43.0


From 2121f1680ab303c8d1830647f37ddc3a4ed1f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 06/57] fix: reject time expressions with surplus parts

'09:30:00:15' and 'open+30m30m' were accepted with the surplus part silently ignored.
---
 jqtrade/scheduler/event_source.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index aea14ef..fade0c9 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -147,6 +147,8 @@ class EventSource(object):
     def add_event(self, day, time_expr, event_cls):
         if ':' in time_expr:
             time_info = time_expr.split(':')
+            if len(time_info) > 3:
+                raise InvalidParam(f'invalid time expr {time_expr}')
             hour, minute = time_info[:2]
             try:
                 second = time_info[2]
@@ -255,6 +257,8 @@ class TimeExprParser(object):
         if m is None:
             raise InvalidParam(f'invalid time offset: {offset}')
         ret = re.findall(r'([0-9]{1,2})([hms])', offset)
+        if len(set(v for _, v in ret)) != len(ret):
+            raise InvalidParam(f'invalid time offset: {offset}')
         ret = dict((v, int(k)) for k, v in ret)
         return datetime.timedelta(hours=ret.get('h', 0), minutes=ret.get('m', 0), seconds=ret.get('s', 0))
 
-- 
2.43.0


From 93bf24976414c87c328c5881490ef0af3a8edfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 07/57] fix: do not count the sub-second part of a time twice

datetime.timestamp() already includes the microseconds.
---
 jqtrade/common/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/common/utils.py b/jqtrade/common/utils.py
index c846a1b..1da8f41 100644
--- a/jqtrade/common/utils.py
+++ b/jqtrade/common/utils.py
@@ -55,7 +55,7 @@ def parse_time(t):
 
 
 def dt_to_milliseconds(dt):
-    return int(dt.timestamp() * 1000 + dt.microsecond / 1000)
+    return int(dt.timestamp() * 1000)
 
 
 def milliseconds_to_dt(milliseconds):
-- 
2.43.0


From 8b09adf43adea39c9e05782ec35af3f0c19d0d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 08/57] fix: handle a stop request before the next overdue task

Overdue messages were handled in one go inside a single event loop callback, so SIGTERM and SIGINT
were only noticed after the whole backlog had run.
---
 jqtrade/scheduler/loop.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/loop.py b/jqtrade/scheduler/loop.py
index 3e826ac..10d83a8 100644
--- a/jqtrade/scheduler/loop.py
+++ b/jqtrade/scheduler/loop.py
@@ -26,8 +26,9 @@ class EventLoop(object):
         self._queue = ThreadSafeQueue()
 
         self._uvloop = pyuv.Loop()
-        self._loop_notifier = pyuv.Async(self._uvloop, self.check_queue)
+        self._loop_notifier = pyuv.Async(self._uvloop, self._wakeup)
         self._timer = pyuv.Timer(self._uvloop)
+        self._idle = pyuv.Idle(self._uvloop)
 
         self._stop_requested = False
         self._exception = None
@@ -60,8 +61,13 @@ class EventLoop(object):
             self._stop_requested = True
             self._notify_loop()
 
+    def _wakeup(self, *args, **kwargs):
+        # 每轮事件循环只处理一个消息，保证处理下一个消息之前，已收到的停止信号先得到处理
+        self._idle.start(self.check_queue)
+
     def check_queue(self, *args, **kwargs):
         logger.debug("check_queue run")
+        self._idle.stop()
         while not self._stop_requested:
             try:
                 message = self._queue.pop()
@@ -81,7 +87,7 @@ class EventLoop(object):
                 self._timer.stop()
                 self._uvloop.update_time()
                 self._timer.start(
-                    self.check_queue,
+                    self._wakeup,
                     timeout=wait_time,
                     repeat=0)
 
@@ -89,6 +95,8 @@ class EventLoop(object):
                 break
             else:
                 self.handle_message(message)
+                self._wakeup()
+                break
 
         if self._stop_requested:
             self._uvloop.stop()
-- 
2.43.0


From abf96859961968074b3c6f794822f7e2c8344986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 09/57] fix: pass the requested side on to the order

---
 jqtrade/account/account.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 669b6f4..b82318b 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -164,7 +164,7 @@ class Account(AbsAccount):
         action = OrderAction.close if amount < 0 else OrderAction.open
         order_obj = Order(code=code, price=style.price, amount=abs(amount), action=action,
                           order_id=order_id, style=style, create_time=datetime.datetime.now(),
-                          status=OrderStatus.new)
+                          status=OrderStatus.new, side=side)
         self._orders[order_id] = order_obj
         try:
             logger.info(f"提交订单，订单id：{order_id}，code：{code}，price：{style.price}，amount：{amount}，"
-- 
2.43.0


From 17f831b1d4ed3aab51aee9d33ec7774aac443ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 10/57] fix: show cash that has dropped to zero

---
 jqtrade/account/account.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index b82318b..f59a07e 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -199,9 +199,9 @@ class Account(AbsAccount):
                 raise ValueError("trade_gate.sync_balance未返回持仓数据")
 
             cash_info = account_info["cash"]
-            self._total_assert = cash_info.get("total_asset") or self._total_assert
-            self._available_cash = cash_info.get("available_cash") or self._available_cash
-            self._locked_cash = cash_info.get("locked_cash") or self._locked_cash
+            self._total_assert = cash_info.get("total_asset", self._total_assert)
+            self._available_cash = cash_info.get("available_cash", self._available_cash)
+            self._locked_cash = cash_info.get("locked_cash", self._locked_cash)
 
             # 每次全量同步持仓前，清空缓存中的持仓，然后使用交易接口同步到的持仓更新内存。由于框架是单线程，所以这样处理没问题。
             # 这样的处理逻辑依赖交易接口返回正常的持仓，相较于原地更新，逻辑简单，不容易出问题。
-- 
2.43.0


From 6f548034cdaa9d7aa00e0697f8c225d204912ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 11/57] fix: accept the documented total_assert key of a trade
 gate

---
 jqtrade/account/account.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index f59a07e..3a02f2e 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -199,7 +199,7 @@ class Account(AbsAccount):
                 raise ValueError("trade_gate.sync_balance未返回持仓数据")
 
             cash_info = account_info["cash"]
-            self._total_assert = cash_info.get("total_asset", self._total_assert)
+            self._total_assert = cash_info.get("total_asset", cash_info.get("total_assert", self._total_assert))
             self._available_cash = cash_info.get("available_cash", self._available_cash)
             self._locked_cash = cash_info.get("locked_cash", self._locked_cash)
 
-- 
2.43.0


From 7ee3fc94844a0703a1eaa8fe4b43d0dafc687cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 12/57] fix: treat a position without side as long, as
 documented

---
 jqtrade/account/account.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 3a02f2e..e7b1af6 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -210,7 +210,7 @@ class Account(AbsAccount):
 
             positions = account_info["positions"]
             for _pos_info in positions:
-                _side = OrderSide.get_side(_pos_info.pop("side"))
+                _side = OrderSide.get_side(_pos_info.pop("side", OrderSide.long))
                 _pos = Position(
                     code=_pos_info.pop("code"),
                     amount=_pos_info.pop("amount"),
-- 
2.43.0


From 024c145560043a7951a082e4d34a7cb537f020b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 13/57] fix: take a balance report over as a whole or not at
 all

---
 jqtrade/account/account.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index e7b1af6..fbb2886 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -199,14 +199,13 @@ class Account(AbsAccount):
                 raise ValueError("trade_gate.sync_balance未返回持仓数据")
 
             cash_info = account_info["cash"]
-            self._total_assert = cash_info.get("total_asset", cash_info.get("total_assert", self._total_assert))
-            self._available_cash = cash_info.get("available_cash", self._available_cash)
-            self._locked_cash = cash_info.get("locked_cash", self._locked_cash)
+            total_assert = cash_info.get("total_asset", cash_info.get("total_assert", self._total_assert))
+            available_cash = cash_info.get("available_cash", self._available_cash)
+            locked_cash = cash_info.get("locked_cash", self._locked_cash)
 
-            # 每次全量同步持仓前，清空缓存中的持仓，然后使用交易接口同步到的持仓更新内存。由于框架是单线程，所以这样处理没问题。
-            # 这样的处理逻辑依赖交易接口返回正常的持仓，相较于原地更新，逻辑简单，不容易出问题。
-            self._long_positions.clear()
-            self._short_positions.clear()
+            # 每次全量同步持仓，全部解析成功之后再替换缓存中的资金和持仓，避免同步失败时丢失持仓
+            long_positions = {}
+            short_positions = {}
 
             positions = account_info["positions"]
             for _pos_info in positions:
@@ -221,9 +220,15 @@ class Account(AbsAccount):
                 )
 
                 if _pos.side == OrderSide.long:
-                    self._long_positions[_pos.code] = _pos
+                    long_positions[_pos.code] = _pos
                 else:
-                    self._short_positions[_pos.code] = _pos
+                    short_positions[_pos.code] = _pos
+
+            self._total_assert = total_assert
+            self._available_cash = available_cash
+            self._locked_cash = locked_cash
+            self._long_positions = long_positions
+            self._short_positions = short_positions
         except Exception as e:
             logger.exception(f"同步资金和持仓失败，error={e}")
 
-- 
2.43.0


From 6642d64d03060c0f1bd26ee5c0edebfe10bb0032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 14/57] fix: mark an order rejected that the trade gate refused

---
 jqtrade/account/account.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index fbb2886..194470b 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -174,6 +174,10 @@ class Account(AbsAccount):
             return order_id
         except Exception as e:
             logger.exception(f"内部下单异常，code={code}, amount={amount}, style={style}, side={side}, error={e}")
+            # 用新的对象替换，不修改已经返回给用户的订单快照
+            rejected_order = Order.load(**order_obj.json())
+            rejected_order.on_rejected(str(e))
+            self._orders[order_id] = rejected_order
 
     def cancel_order(self, order_id):
         try:
-- 
2.43.0


From 3fa531ef2caea52857c2524df83c249629629738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 15/57] fix: never give a new order the id of a known one

---
 jqtrade/account/account.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 194470b..81c2644 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -161,6 +161,8 @@ class Account(AbsAccount):
 
     def order(self, code, amount, style, side):
         order_id = str(generate_unique_number())
+        while order_id in self._orders:
+            order_id = str(generate_unique_number())
         action = OrderAction.close if amount < 0 else OrderAction.open
         order_obj = Order(code=code, price=style.price, amount=abs(amount), action=action,
                           order_id=order_id, style=style, create_time=datetime.datetime.now(),
-- 
2.43.0


From b830716248c170ed8a0521c11a97cc08a918a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 16/57] fix: sum the position values instead of the position
 codes

---
 jqtrade/account/portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/portfolio.py b/jqtrade/account/portfolio.py
index 7c84a57..44d3590 100644
--- a/jqtrade/account/portfolio.py
+++ b/jqtrade/account/portfolio.py
@@ -39,7 +39,7 @@ class Portfolio(object):
 
     @property
     def position_value(self):
-        return sum(_pos.position_value for _pos in self.long_positions)
+        return sum(_pos.position_value for _pos in self.long_positions.values())
 
     def __str__(self):
         return f"Portfolio(total_assert={self.total_value}, available_assert={self.available_cash}, " \
-- 
2.43.0


From b9ff9e122bc4697755c90569c2f0dff37999a65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 17/57] fix: take over a reported order whose amount, price,
 entrust time or message changed

---
 jqtrade/account/order.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jqtrade/account/order.py b/jqtrade/account/order.py
index ade33d2..9fa2395 100644
--- a/jqtrade/account/order.py
+++ b/jqtrade/account/order.py
@@ -308,4 +308,8 @@ class Order(object):
             and self._deal_balance == other.deal_balance
             and self._avg_cost == other.avg_cost
             and self._commission == other.commission
+            and self._amount == other.amount
+            and self._price == other.price
+            and self._entrust_time == other.entrust_time
+            and self._err_msg == other.err_msg
         )
-- 
2.43.0


From 7a91d99b0fc0099447fd85a9965dc96d8b9a7fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 18/57] fix: provide the documented position attributes and
 OrderStatus to strategies

---
 jqtrade/account/api.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jqtrade/account/api.py b/jqtrade/account/api.py
index 05e880a..d8156f7 100644
--- a/jqtrade/account/api.py
+++ b/jqtrade/account/api.py
@@ -283,10 +283,16 @@ class UserPosition(object):
     def security(self):
         return self.__position.code
 
+    code = security
+
     @property
     def total_amount(self):
         return self.__position.amount
 
+    @property
+    def locked_amount(self):
+        return self.__position.locked_amount
+
     @property
     def closeable_amount(self):
         return self.__position.available_amount
@@ -321,7 +327,7 @@ class UserPosition(object):
 
 
 __all__ = [
-    "LimitOrderStyle", "MarketOrderStyle",
+    "LimitOrderStyle", "MarketOrderStyle", "OrderStatus",
     "order", "cancel_order",
     "batch_submit_orders", "batch_cancel_orders",
     "get_orders",
-- 
2.43.0


From 8f6a87345fe41f5e62df973b46cc2addc51682e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 19/57] fix: require the dot in front of the exchange of a
 security code

---
 jqtrade/account/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/api.py b/jqtrade/account/api.py
index d8156f7..154b6d0 100644
--- a/jqtrade/account/api.py
+++ b/jqtrade/account/api.py
@@ -11,7 +11,7 @@ logger = sys_logger.getChild("account.api")
 
 
 def _check_code(code):
-    if not (code[-4:] in ("XSHE", "XSHG") and code[:-5].isdigit()):
+    if not (code[-5:] in (".XSHE", ".XSHG") and code[:-5].isdigit()):
         raise InvalidParam(f"标的代码错误: {code}")
 
 
-- 
2.43.0


From 31c6d747ebcc288a2756a1ae0aaeaf90809804c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 20/57] fix: cut only the prefix off the names of custom
 settings

---
 jqtrade/account/config.py   | 2 +-
 jqtrade/scheduler/config.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/config.py b/jqtrade/account/config.py
index df1dfd9..a05bb2d 100644
--- a/jqtrade/account/config.py
+++ b/jqtrade/account/config.py
@@ -38,7 +38,7 @@ def _load_config(path):
     account_configs = {}
     for _name in configs:
         if _name.startswith("ACCOUNT_"):
-            account_configs[_name.lstrip("ACCOUNT_")] = configs[_name]
+            account_configs[_name[len("ACCOUNT_"):]] = configs[_name]
     return account_configs
 
 
diff --git a/jqtrade/scheduler/config.py b/jqtrade/scheduler/config.py
index c5ff826..7fa99a8 100644
--- a/jqtrade/scheduler/config.py
+++ b/jqtrade/scheduler/config.py
@@ -44,7 +44,7 @@ def _load_config(path):
     scheduler_configs = {}
     for _name in configs:
         if _name.startswith("SCHEDULER_"):
-            scheduler_configs[_name.lstrip("SCHEDULER_")] = configs[_name]
+            scheduler_configs[_name[len("SCHEDULER_"):]] = configs[_name]
     return scheduler_configs
 
 
-- 
2.43.0


From 2ace110e8cbc1a14da47d758383e8fa7530f24e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 21/57] fix: accept '=' in environment values and a trailing
 separator

---
 jqtrade/scheduler/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 77ac4c2..32c9a3f 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -55,7 +55,9 @@ def parse_env(env, sep=";"):
     envs = env.split(sep)
     for _env in envs:
         _env = _env.strip()
-        _k, _v = _env.split("=")
+        if not _env:
+            continue
+        _k, _v = _env.split("=", 1)
         _k = _k.strip()
         _v = _v.strip()
         ret[_k] = _v
-- 
2.43.0


From 67913a6d95cff7554bfdff80eee1fbeb83a2ffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:16 +0000
Subject: [PATCH 22/57] fix: do not consume the trade gate's own position
 records

---
 jqtrade/account/account.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 81c2644..dfc298a 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -215,6 +215,7 @@ class Account(AbsAccount):
 
             positions = account_info["positions"]
             for _pos_info in positions:
+                _pos_info = dict(_pos_info)     # 交易接口返回的数据可能被它缓存，不能修改
                 _side = OrderSide.get_side(_pos_info.pop("side", OrderSide.long))
                 _pos = Position(
                     code=_pos_info.pop("code"),
-- 
2.43.0


From 79ac8b1f9fde62cc31664d8e5bbfa0f7083b918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:16 +0000
Subject: [PATCH 23/57] fix: take only jqtrade start_task processes for tasks,
 not any process that mentions the words

---
 jqtrade/scheduler/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 32c9a3f..3a50cb6 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -17,6 +17,11 @@ def parse_task_info(cmd_line):
     return info
 
 
+def _is_task(cmd_line):
+    """ 命令行中start_task子命令紧跟在jqtrade之后才是实盘任务，仅仅提到这两个词的进程（比如 tail -f jqtrade/start_task.log）不是 """
+    return any("jqtrade" in _prev and _item == "start_task" for _prev, _item in zip(cmd_line, cmd_line[1:]))
+
+
 def get_activate_task_process():
     active_tasks = []
 
@@ -26,8 +31,7 @@ def get_activate_task_process():
         parent_pid = []
         for _p in psutil.process_iter():
             try:
-                _cmd_line = " ".join(_p.cmdline())
-                if "jqtrade" in _cmd_line and "start_task" in _cmd_line:
+                if _is_task(_p.cmdline()):
                     task_process.append(_p)
                     parent_pid.append(_p.ppid())
             except psutil.AccessDenied:
-- 
2.43.0


From 59dfdcea5439c09fe1381b087ca04dd55e330b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:16 +0000
Subject: [PATCH 24/57] fix: understand every form of the start_task options
 argparse accepts

---
 jqtrade/scheduler/utils.py | 41 ++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 3a50cb6..25cd288 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -1,19 +1,38 @@
 # -*- coding: utf-8 -*-
 
 
+TASK_OPTIONS = ("--name", "--code", "--out", "--env", "--config", "--debug")
+
+
+def _split_option(item):
+    """ 与argparse一样支持 -n demo、-ndemo、--name demo、--name=demo 以及无歧义的缩写（--na=demo） """
+    if item.startswith("--"):
+        prefix, _, value = item.partition("=")
+        options = [_o for _o in TASK_OPTIONS if _o == prefix] or [_o for _o in TASK_OPTIONS if _o.startswith(prefix)]
+        if len(options) == 1:
+            return options[0], value if "=" in item else None
+    elif item[:2] in ("-n", "-c", "-o", "-e"):
+        option = [_o for _o in TASK_OPTIONS if _o[2] == item[1]][0]
+        value = item[3:] if item[2:3] == "=" else item[2:]
+        return option, value or None
+    return None, None
+
+
 def parse_task_info(cmd_line):
-    info = {"debug": False, "env": None, "out": None}
-    for _idx, _item in enumerate(cmd_line):
-        if _item in ("-c", "--code"):
-            info["code"] = cmd_line[_idx+1]
-        elif _item in ("-o", "--out"):
-            info["out"] = cmd_line[_idx + 1]
-        elif _item in ("-n", "--name"):
-            info["name"] = cmd_line[_idx + 1]
-        elif _item in ("-e", "--env"):
-            info["env"] = cmd_line[_idx + 1]
-        elif _item == "--debug":
+    info = {"debug": False, "env": None, "out": None, "code": None, "name": None}
+    if "start_task" in cmd_line:
+        cmd_line = cmd_line[cmd_line.index("start_task") + 1:]
+
+    items = iter(cmd_line)
+    for _item in items:
+        _option, _value = _split_option(_item)
+        if _option == "--debug":
             info["debug"] = True
+        elif _option:
+            if _value is None:
+                _value = next(items, None)
+            if _option[2:] in info:
+                info[_option[2:]] = _value
     return info
 
 
-- 
2.43.0


From 75b1458b6911890b4c5919b493cc9976afc3cd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:16 +0000
Subject: [PATCH 25/57] fix: a task that ends meanwhile must not keep others
 from being listed, stopped or started

---
 jqtrade/__main__.py         | 30 +++++++++++++++++++++---------
 jqtrade/scheduler/runner.py |  7 ++++++-
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/jqtrade/__main__.py b/jqtrade/__main__.py
index 0d7fba2..7f73a4e 100644
--- a/jqtrade/__main__.py
+++ b/jqtrade/__main__.py
@@ -56,6 +56,7 @@ def get_tasks(options):
     """
     python -m quant_engine get_tasks
     """
+    import psutil
     from .scheduler.utils import get_activate_task_process, parse_task_info
 
     active_tasks = get_activate_task_process()
@@ -65,7 +66,10 @@ def get_tasks(options):
 
     print("当前活跃的实盘任务进程".center(30, "-"))
     for _p in active_tasks:
-        _cmd = _p.cmdline()
+        try:
+            _cmd = _p.cmdline()
+        except psutil.NoSuchProcess:
+            continue
         _task_info = parse_task_info(_cmd)
         _task_info["pid"] = _p.pid
         _task_info["cmd"] = _cmd
@@ -84,6 +88,7 @@ def stop_task(options):
     python -m quant_engine stop_task -p 12345
     python -m quant_engine stop_task --all
     """
+    import psutil
     from .scheduler.utils import get_activate_task_process, parse_task_info
 
     active_tasks = get_activate_task_process()
@@ -94,13 +99,17 @@ def stop_task(options):
     killed_pid = []
 
     def _kill(_p, force=False):
-        if force:
-            _p.kill()
-            print(f"强制停止进程 {_p.pid}")
-        else:
-            import signal
-            _p.send_signal(signal.SIGTERM)
-            print(f"尝试停止进程 {_p.pid}，已向该进程发送SIGTERM停止信号")
+        try:
+            if force:
+                _p.kill()
+                print(f"强制停止进程 {_p.pid}")
+            else:
+                import signal
+                _p.send_signal(signal.SIGTERM)
+                print(f"尝试停止进程 {_p.pid}，已向该进程发送SIGTERM停止信号")
+        except psutil.NoSuchProcess:
+            print(f"进程 {_p.pid} 已经退出")
+            return
         killed_pid.append(_p.pid)
 
     if options.all:
@@ -113,7 +122,10 @@ def stop_task(options):
                 break
     else:
         for _p in active_tasks:
-            _task_info = parse_task_info(_p.cmdline())
+            try:
+                _task_info = parse_task_info(_p.cmdline())
+            except psutil.NoSuchProcess:
+                continue
             if options.name == _task_info["name"]:
                 _kill(_p, options.force)
 
diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index cd20006..93e4696 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -19,6 +19,8 @@ logger = sys_logger.getChild("runner")
 
 
 def _exist_repeated_task(task_name):
+    import psutil
+
     current_pid = os.getpid()
     parent_pid = os.getppid()
 
@@ -26,7 +28,10 @@ def _exist_repeated_task(task_name):
     for _task in active_tasks:
         if _task.pid in (current_pid, parent_pid):
             continue
-        _task_info = parse_task_info(_task.cmdline())
+        try:
+            _task_info = parse_task_info(_task.cmdline())
+        except psutil.NoSuchProcess:
+            continue
         if task_name == _task_info["name"]:
             return True
 
-- 
2.43.0


From c0fff79f744ee7d50d9a81a4d4742ab476bbe05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 26/57] fix: look for the header and write the line while
 holding the file lock

---
 jqtrade/account/trade_gate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 91bbf13..2555128 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -290,9 +290,11 @@ class AnXinDMATradeGate(AbsTradeGate):
             with open(file, mode, encoding=self._file_coding) as fp:
                 try:
                     portalocker.lock(fp, portalocker.LOCK_EX | portalocker.LOCK_NB)  # no block
+                    fp.seek(0, os.SEEK_END)     # 打开文件之后、加锁之前，其他进程可能已经写入
                     if fp.tell() == 0 and header:
                         line = header + os.linesep + line
                     fp.write(line)
+                    fp.flush()                  # 释放锁之前必须落到文件中
                     break
                 except (BlockingIOError, portalocker.exceptions.AlreadyLocked):
                     if time.time() - start >= self._wait_lock_time_out:
-- 
2.43.0


From 4313bc2967e4f116452d04d2f25b01632de5a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 27/57] fix: save an order before it is written to the order
 file

---
 jqtrade/account/trade_gate.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 2555128..2b439b3 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -270,12 +270,18 @@ class AnXinDMATradeGate(AbsTradeGate):
 
         order_info = [str(i) for i in order_info]
         order_line = ",".join(order_info) + os.linesep
-        self._write(self._order_csv, order_line, header=self.ORDER_CSV_HEADER)
-
-        logger.info(f"订单已提交到文件单，订单id：{sys_order.order_id}")
 
+        # 先保存再提交，避免提交后进程异常退出时丢失订单
         self._orders[sys_order.order_id] = sys_order.json()
-        self._save_orders()
+        try:
+            self._save_orders()
+            self._write(self._order_csv, order_line, header=self.ORDER_CSV_HEADER)
+        except Exception:
+            self._orders.pop(sys_order.order_id)
+            self._save_orders()
+            raise
+
+        logger.info(f"订单已提交到文件单，订单id：{sys_order.order_id}")
 
     def cancel_order(self, order_id):
         now = datetime.datetime.now()
-- 
2.43.0


From 53bc13c42979ebab73bf91e0b6952b16414e0031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 28/57] fix: apply an update line as a whole or not at all

---
 jqtrade/account/trade_gate.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 2b439b3..a2a91e9 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -488,15 +488,17 @@ class AnXinDMATradeGate(AbsTradeGate):
         return data
 
     def _update_order(self, order, order_line):
-        order["status"] = self._parse_status(order_line.status).value
-        order["entrust_time"] = datetime.datetime.strptime(order_line.orderDate + order_line.orderTime,
-                                                           "%Y%m%d%H%M%S").strftime("%Y-%m-%d %H:%M:%S.%f")
-        order["confirm_id"] = order_line.orderNo
-        order["filled_amount"] = int(order_line.filledQty)
-        order["deal_balance"] = round(float(order_line.filledAmt), 4)
-        order["canceled_amount"] = int(order_line.cancelQty)
-        order["avg_cost"] = round(float(order_line.avgPrice), 3)
-        order["err_msg"] = order_line.text
+        order.update({
+            "status": self._parse_status(order_line.status).value,
+            "entrust_time": datetime.datetime.strptime(order_line.orderDate + order_line.orderTime,
+                                                       "%Y%m%d%H%M%S").strftime("%Y-%m-%d %H:%M:%S.%f"),
+            "confirm_id": order_line.orderNo,
+            "filled_amount": int(order_line.filledQty),
+            "deal_balance": round(float(order_line.filledAmt), 4),
+            "canceled_amount": int(order_line.cancelQty),
+            "avg_cost": round(float(order_line.avgPrice), 3),
+            "err_msg": order_line.text,
+        })
 
     def _save_orders(self):
         tmp_file = self._data_file + ".tmp"
-- 
2.43.0


From b546be792add456d7546d3bee1166c94b2cb25ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:15 +0000
Subject: [PATCH 29/57] fix: read only complete lines of the update and result
 files and step over bad ones

---
 jqtrade/account/trade_gate.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index a2a91e9..6cbb8d0 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -404,22 +404,21 @@ class AnXinDMATradeGate(AbsTradeGate):
         self.check_file_exists(self._order_update_csv)
         self.check_file_exists(self._order_result_csv)
 
-        with open(self._order_result_csv, "r") as rf:
+        with open(self._order_result_csv, "rb") as rf:
             rf.seek(pre_order_result_offset)
             while True:
                 try:
-                    _line = rf.readline().strip()
-                    if not _line:
+                    _line = rf.readline()
+                    if not _line.endswith(b"\n"):
+                        # 末尾没有换行符的行尚未写完，留到下次同步时再读取
                         break
 
-                    if _line.startswith(self.ORDER_RESULT_COLS[0]):
+                    _line = _line.decode(self._file_coding).strip()
+                    if not _line or _line.startswith(self.ORDER_RESULT_COLS[0]):
                         self._order_result_offset = rf.tell()
                         continue
 
                     _items = [_s.strip() for _s in _line.split(",")]
-                    if len(_items) < len(self.ORDER_RESULT_COLS):
-                        break
-
                     _order_result_line = self.ORDER_RESULT_CLS(*_items)
                     if _order_result_line.resultType == self.RESULT_TYPE_CANCEL \
                             and _order_result_line.status == self.RESULT_REJECT_STATUS:
@@ -445,25 +444,25 @@ class AnXinDMATradeGate(AbsTradeGate):
                     else:
                         raise
 
-        with open(self._order_update_csv, "r", encoding=self._file_coding) as rf:
+        with open(self._order_update_csv, "rb") as rf:
             rf.seek(pre_order_update_offset)
             while True:
                 try:
-                    _line = rf.readline().strip()
-                    if not _line:
+                    _line = rf.readline()
+                    if not _line.endswith(b"\n"):
+                        # 末尾没有换行符的行尚未写完，留到下次同步时再读取
                         break
 
-                    if _line.startswith(self.ORDER_LINE_COLS[0]):
+                    _line = _line.decode(self._file_coding).strip()
+                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):
                         self._order_update_offset = rf.tell()
                         continue
 
                     _items = [_s.strip() for _s in _line.split(",")]
-                    if len(_items) < len(self.ORDER_LINE_COLS):
-                        break
-
                     order_line = self.ORDER_LINE_CLS(*_items)
 
                     if order_line.custBatchNo not in self._orders:
+                        self._order_update_offset = rf.tell()
                         continue
 
                     self._update_order(self._orders[order_line.custBatchNo], order_line)
-- 
2.43.0


From 29c528696ed5ac8d4472de5ef05be4f34cecc504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:15 +0000
Subject: [PATCH 30/57] fix: switch to the new day's files and order data at
 midnight

---
 jqtrade/account/trade_gate.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 6cbb8d0..e2230b4 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -214,6 +214,7 @@ class AnXinDMATradeGate(AbsTradeGate):
         # 持久化存储策略与订单映射关系，用于重启加载恢复订单
         self._data_dir = None
         self._data_file = None
+        self._data_date = None
 
         # 文件单目录
         self._order_dir = None
@@ -247,6 +248,8 @@ class AnXinDMATradeGate(AbsTradeGate):
         if sys_order.side != OrderSide.long:
             raise InvalidParam("当前版本仅支持做多")
 
+        self._switch_date()
+
         now = datetime.datetime.now()
         order_info = [now.strftime("%H%M%S.%f"), sys_order.order_id,
                       self._counter_type, acct_no,
@@ -398,6 +401,8 @@ class AnXinDMATradeGate(AbsTradeGate):
             raise ValueError(f"invalid code: {code}")
 
     def sync_orders(self):
+        self._switch_date()
+
         pre_order_update_offset = self._order_update_offset
         pre_order_result_offset = self._order_result_offset
 
@@ -542,7 +547,6 @@ class AnXinDMATradeGate(AbsTradeGate):
         if self._algo_type != self.DEFAULT_ALGO_TYPE:
             logger.warn(f"检测到当前使用的算法交易类型是{self._algo_type}, 请与您的客户经理确认是否开通了此算法交易类型，否则将影响交易")
 
-        ctx = Context.get_instance()
         runtime_dir = options.get("runtime_dir", scheduler_config.RUNTIME_DIR)
 
         self._data_dir = os.path.join(runtime_dir, "data")
@@ -550,8 +554,6 @@ class AnXinDMATradeGate(AbsTradeGate):
         if not os.path.exists(self._data_dir):
             os.makedirs(self._data_dir)
 
-        self._data_file = os.path.join(self._data_dir, f"{ctx.task_name}_{self._date.strftime('%Y%m%d')}.json")
-
         self._file_coding = self._options.get("file_encoding", sys.getfilesystemencoding())
         self._ignore_error_line = self._options.get("ignore_error_line", self.DEFAULT_IGNORE_ERROR_LINE)
 
@@ -561,6 +563,18 @@ class AnXinDMATradeGate(AbsTradeGate):
         self._wait_lock_internal = options.get("wait_lock_internal", self.WAIT_LOCK_INTERNAL)
         self._wait_lock_time_out = options.get("wait_lock_time_out", self.WAIT_LOCK_TIME_OUT)
 
+        self._switch_date()
+
+    def _switch_date(self):
+        """ 启动和跨日时，切换到当日的文件 """
+        if self._data_date == self._date:
+            return
+        self._data_date = self._date
+        task_name = Context.get_instance().task_name
+        self._data_file = os.path.join(self._data_dir, f"{task_name}_{self._data_date.strftime('%Y%m%d')}.json")
+        self._orders = {}
+        self._order_update_offset = 0
+        self._order_result_offset = 0
         self._load_orders()
 
     @property
-- 
2.43.0


From 982d4ceed3e2d460be41baa6a799bff7743eb9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:15 +0000
Subject: [PATCH 31/57] fix: expand ~ in runtime_dir for the saved orders as
 for everything else

---
 jqtrade/account/trade_gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index e2230b4..c19f1b7 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -547,7 +547,7 @@ class AnXinDMATradeGate(AbsTradeGate):
         if self._algo_type != self.DEFAULT_ALGO_TYPE:
             logger.warn(f"检测到当前使用的算法交易类型是{self._algo_type}, 请与您的客户经理确认是否开通了此算法交易类型，否则将影响交易")
 
-        runtime_dir = options.get("runtime_dir", scheduler_config.RUNTIME_DIR)
+        runtime_dir = os.path.abspath(os.path.expanduser(options.get("runtime_dir", scheduler_config.RUNTIME_DIR)))
 
         self._data_dir = os.path.join(runtime_dir, "data")
         logger.info(f"程序缓存数据路径: {self._data_dir}")
-- 
2.43.0


From 588dad0a6e1fb85bc7df389f2a9c3224e1caba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:15 +0000
Subject: [PATCH 32/57] fix: read the balance files in the configured encoding

---
 jqtrade/account/trade_gate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index c19f1b7..1b74cb0 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -322,7 +322,7 @@ class AnXinDMATradeGate(AbsTradeGate):
             raise InvalidParam("未设置account_no信息，请使用set_account设置资金账号")
 
         acct_no = str(acct_no)
-        asset_infos = self._read_csv(self._assert_info_csv, dtype={"acct": str, "exchange": str})
+        asset_infos = self._read_csv(self._assert_info_csv, dtype={"acct": str, "exchange": str}, encoding=self._file_coding)
         if len(asset_infos) == 0:
             raise AnXinDMAError("文件单中未查询到资产数据")
         for _asset_info in asset_infos.itertuples():
@@ -341,7 +341,7 @@ class AnXinDMATradeGate(AbsTradeGate):
         self.check_file_exists(self._position_info_csv)
 
         data["positions"] = []
-        position_info = self._read_csv(self._position_info_csv, dtype={"acct": str, "symbol": str})
+        position_info = self._read_csv(self._position_info_csv, dtype={"acct": str, "symbol": str}, encoding=self._file_coding)
         for _pos in position_info.itertuples():
             if _pos.acct != acct_no:
                 continue
-- 
2.43.0


From a4137600cbafb0bbd6c0c2afc8059de03d40e204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:18 +0000
Subject: [PATCH 33/57] fix: make the account API available when a strategy
 turns account support on against the configured default

---
 jqtrade/scheduler/strategy.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index 42233d4..08e09a8 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -84,11 +84,10 @@ class Strategy(object):
         self._user_module.set_options = self.set_options
         self._user_module.print = strategy_print
 
-        # account模块相关API
-        if config.SETUP_ACCOUNT:
-            from ..account import api as account_api
-            for _name in account_api.__all__:
-                setattr(self._user_module, _name, getattr(account_api, _name))
+        # account模块相关API，是否可用由use_account选项决定，优先于配置文件中的SETUP_ACCOUNT
+        from ..account import api as account_api
+        for _name in account_api.__all__:
+            setattr(self._user_module, _name, getattr(account_api, _name))
 
     def wrap_user_callback(self, callback):
         def _callback(event):
-- 
2.43.0


From 5253327c68bbdd2b0b00f09b07a0a48f66ac4e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:24 +0000
Subject: [PATCH 34/57] fix: deliver an event to every subscriber by priority,
 also across base classes and when callbacks unsubscribe

---
 jqtrade/scheduler/bus.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/jqtrade/scheduler/bus.py b/jqtrade/scheduler/bus.py
index 083b1fb..2a6dc95 100644
--- a/jqtrade/scheduler/bus.py
+++ b/jqtrade/scheduler/bus.py
@@ -16,6 +16,7 @@ class EventBus(object):
 
     def __init__(self):
         self._subscribes = OrderedDict()
+        self._count = 0
 
     def register(self, event_cls, callback, priority=0):
         """ 注册事件类的回调函数
@@ -27,7 +28,8 @@ class EventBus(object):
             priority: 回调函数优先级，值越大越先调用
         """
         logger.debug(f"register callback: {callback.__name__}, event_cls: {event_cls}, priority: {priority}")
-        self._subscribes.setdefault(event_cls, {}).setdefault(priority, []).append(callback)
+        self._count += 1
+        self._subscribes.setdefault(event_cls, {}).setdefault(priority, []).append((self._count, callback))
 
     def unregister(self, event_cls, callback):
         """ 取消注册事件类的某个回调函数
@@ -39,9 +41,11 @@ class EventBus(object):
         logger.debug(f"unregister callback: {callback.__name__}, event_cls: {event_cls}")
         event_subscribes = self._subscribes.get(event_cls, {})
         for _priority in event_subscribes:
-            try:
-                event_subscribes[_priority].remove(callback)
-            except ValueError:
+            for _item in event_subscribes[_priority]:
+                if _item[1] == callback:
+                    event_subscribes[_priority].remove(_item)
+                    break
+            else:
                 logger.error(f"already unregister callback: {callback.__name__} of event_cls: {event_cls}")
 
     def emit(self, event):
@@ -50,13 +54,21 @@ class EventBus(object):
         Args:
             event: event_class实例
         """
-        ret = []
+        # 先确定本次要触发的回调，避免回调函数中注册、取消注册时遗漏其他回调；订阅了基类的回调也按优先级统一排序
+        matched = []
         for _event_cls in self._subscribes:
             if not isinstance(event, _event_cls):
                 continue
-            _event_subscribes = self._subscribes.get(_event_cls, {})
-            for _priority in sorted(_event_subscribes, reverse=True):
-                for _callback in _event_subscribes[_priority]:
-                    logger.debug(f"emit event: {event}, callback: {_callback.__name__}")
-                    ret.append(_callback(event))
+            for _priority, _items in self._subscribes[_event_cls].items():
+                matched.extend((-_priority, _item, _items) for _item in _items)
+        matched.sort(key=lambda m: (m[0], m[1][0]))
+
+        ret = []
+        for _, _item, _items in matched:
+            if _item not in _items:
+                # 已被前面的回调取消注册
+                continue
+            _callback = _item[1]
+            logger.debug(f"emit event: {event}, callback: {_callback.__name__}")
+            ret.append(_callback(event))
         return ret
-- 
2.43.0


From f70bbaaf0fbf46b45ae8fb276b6bc93020d98f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:46 +0000
Subject: [PATCH 35/57] fix: give every message its own sequence number also
 when threads create messages at the same time

---
 jqtrade/scheduler/message.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jqtrade/scheduler/message.py b/jqtrade/scheduler/message.py
index 9b437b7..3368f03 100644
--- a/jqtrade/scheduler/message.py
+++ b/jqtrade/scheduler/message.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+import itertools
 
 
 class Message(object):
@@ -7,7 +8,7 @@ class Message(object):
         封装事件的消息类，事件队列中的实际对象
     """
 
-    _unique_num = 0
+    _unique_num = itertools.count(1)
 
     def __init__(self, time, callback, callback_data=None, priority=0):
         self.time = int(time)
@@ -15,8 +16,7 @@ class Message(object):
         self.callback_data = callback_data or {}
         self.priority = priority
 
-        Message._unique_num += 1
-        self.seq_number = Message._unique_num
+        self.seq_number = next(Message._unique_num)
 
     @property
     def sort_key(self):
-- 
2.43.0


From 57557bb5320a1a37bd5716deecbdf99df757f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:15 +0000
Subject: [PATCH 36/57] fix: serve a request with the files of one day also
 when midnight passes meanwhile

---
 jqtrade/account/trade_gate.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 1b74cb0..63be4a5 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -287,6 +287,8 @@ class AnXinDMATradeGate(AbsTradeGate):
         logger.info(f"订单已提交到文件单，订单id：{sys_order.order_id}")
 
     def cancel_order(self, order_id):
+        self._switch_date()
+
         now = datetime.datetime.now()
         order_info = [now.strftime("%H%M%S.%f"), str(order_id)]
         order_line = ",".join(order_info) + os.linesep
@@ -313,6 +315,8 @@ class AnXinDMATradeGate(AbsTradeGate):
                     portalocker.unlock(fp)
 
     def sync_balance(self):
+        self._switch_date()
+
         data = {}
 
         self.check_file_exists(self._assert_info_csv)
@@ -567,9 +571,10 @@ class AnXinDMATradeGate(AbsTradeGate):
 
     def _switch_date(self):
         """ 启动和跨日时，切换到当日的文件 """
-        if self._data_date == self._date:
+        date = self._date
+        if self._data_date == date:
             return
-        self._data_date = self._date
+        self._data_date = date
         task_name = Context.get_instance().task_name
         self._data_file = os.path.join(self._data_dir, f"{task_name}_{self._data_date.strftime('%Y%m%d')}.json")
         self._orders = {}
@@ -583,28 +588,28 @@ class AnXinDMATradeGate(AbsTradeGate):
 
     @property
     def _order_csv(self):
-        return os.path.join(self._order_dir, f"algoOrder_{self._date.strftime('%Y%m%d')}.csv")
+        return os.path.join(self._order_dir, f"algoOrder_{self._data_date.strftime('%Y%m%d')}.csv")
 
     @property
     def _cancel_csv(self):
-        return os.path.join(self._order_dir, f"algoOrderStop_{self._date.strftime('%Y%m%d')}.csv")
+        return os.path.join(self._order_dir, f"algoOrderStop_{self._data_date.strftime('%Y%m%d')}.csv")
 
     @property
     def _order_result_csv(self):
-        return os.path.join(self._order_dir, f"execResult_{self._date.strftime('%Y%m%d')}.csv")
+        return os.path.join(self._order_dir, f"execResult_{self._data_date.strftime('%Y%m%d')}.csv")
 
     @property
     def _order_update_csv(self):
-        return os.path.join(self._order_dir, f"orderUpdate_{self._date.strftime('%Y%m%d')}.csv")
+        return os.path.join(self._order_dir, f"orderUpdate_{self._data_date.strftime('%Y%m%d')}.csv")
 
     @property
     def _trade_update_csv(self):
-        return os.path.join(self._order_dir, f"tradeUpdate_{self._date.strftime('%Y%m%d')}.csv")
+        return os.path.join(self._order_dir, f"tradeUpdate_{self._data_date.strftime('%Y%m%d')}.csv")
 
     @property
     def _assert_info_csv(self):
-        return os.path.join(self._order_dir, f"assetInfo_{self._date.strftime('%Y%m%d')}.csv")
+        return os.path.join(self._order_dir, f"assetInfo_{self._data_date.strftime('%Y%m%d')}.csv")
 
     @property
     def _position_info_csv(self):
-        return os.path.join(self._order_dir, f"positionInfo_{self._date.strftime('%Y%m%d')}.csv")
+        return os.path.join(self._order_dir, f"positionInfo_{self._data_date.strftime('%Y%m%d')}.csv")
-- 
2.43.0


From 4ea6195a155539604aec0d6ac6f81b9d9c81a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 37/57] fix: raise a task's error at the end also when the
 error object is false

---
 jqtrade/scheduler/loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/loop.py b/jqtrade/scheduler/loop.py
index 10d83a8..bac291e 100644
--- a/jqtrade/scheduler/loop.py
+++ b/jqtrade/scheduler/loop.py
@@ -52,7 +52,7 @@ class EventLoop(object):
         self.setup()
         self._uvloop.run()
 
-        if self._exception:
+        if self._exception is not None:
             raise self._exception
 
     def stop(self):
-- 
2.43.0


From 16fc768c3a616650bd81a4ba4b0be788c0b18700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 38/57] fix: stop at a task's error also when the error cannot
 be printed or annotated

---
 jqtrade/scheduler/loop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/loop.py b/jqtrade/scheduler/loop.py
index bac291e..7960ded 100644
--- a/jqtrade/scheduler/loop.py
+++ b/jqtrade/scheduler/loop.py
@@ -107,10 +107,11 @@ class EventLoop(object):
             self._strategy_time = message.time
             message.callback(**message.callback_data)
         except Exception as e:
-            logger.exception(f"handle message failed. message={message}, error={e}")
-            e.tb = traceback.format_exc()
+            # 先记录异常并停止事件循环，否则异常对象不支持str或不允许设置属性时，进程不会退出也不再运行任务
             self._exception = e
             self.stop()
+            logger.exception(f"handle message failed. message={message}, error={e}")
+            e.tb = traceback.format_exc()
 
     def _notify_loop(self):
         self._loop_notifier.send()
-- 
2.43.0


From 33892ce99e9c480922c5607c8cab081554689eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 39/57] fix: stop at a task's error also when it is no
 Exception (a cancelled asyncio call)

---
 jqtrade/scheduler/loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/loop.py b/jqtrade/scheduler/loop.py
index 7960ded..5991935 100644
--- a/jqtrade/scheduler/loop.py
+++ b/jqtrade/scheduler/loop.py
@@ -106,7 +106,7 @@ class EventLoop(object):
             logger.debug(f"handle message: {message}")
             self._strategy_time = message.time
             message.callback(**message.callback_data)
-        except Exception as e:
+        except BaseException as e:
             # 先记录异常并停止事件循环，否则异常对象不支持str或不允许设置属性时，进程不会退出也不再运行任务
             self._exception = e
             self.stop()
-- 
2.43.0


From 1ff7632b528650109386152d472eb431d2cf0cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 40/57] fix: let strategies that share a runtime directory
 start at the same moment

The directories were created after a separate existence test: of two
strategies starting together, the second failed with FileExistsError.
---
 jqtrade/account/trade_gate.py | 2 +-
 jqtrade/scheduler/strategy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 63be4a5..5a9ca3a 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -556,7 +556,7 @@ class AnXinDMATradeGate(AbsTradeGate):
         self._data_dir = os.path.join(runtime_dir, "data")
         logger.info(f"程序缓存数据路径: {self._data_dir}")
         if not os.path.exists(self._data_dir):
-            os.makedirs(self._data_dir)
+            os.makedirs(self._data_dir, exist_ok=True)
 
         self._file_coding = self._options.get("file_encoding", sys.getfilesystemencoding())
         self._ignore_error_line = self._options.get("ignore_error_line", self.DEFAULT_IGNORE_ERROR_LINE)
diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index 08e09a8..22ed795 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -207,7 +207,7 @@ class Strategy(object):
         # set_options 后需要立即执行的初始化工作，避免用户查询到未同步的account信息
         runtime_dir = os.path.abspath(os.path.expanduser(kwargs.get("runtime_dir", config.RUNTIME_DIR)))
         if not os.path.isdir(runtime_dir):
-            os.makedirs(runtime_dir)
+            os.makedirs(runtime_dir, exist_ok=True)
         logger.info(f"程序运行时目录：{runtime_dir}")
 
         self._ctx.use_account = use_account = kwargs.get("use_account", config.SETUP_ACCOUNT)
-- 
2.43.0


From b499702deff70c0d973760de013a8f53bd5b5a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:50 +0000
Subject: [PATCH 41/57] fix: read a balance file at once, so that a rewrite in
 between cannot mix two versions

pandas reads files beyond its buffer in several pieces; when the terminal
rewrote the file between two of them, rows of both versions were taken.
---
 jqtrade/account/trade_gate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 5a9ca3a..607bbb7 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+import io
 import os
 import sys
 import time
@@ -381,7 +382,10 @@ class AnXinDMATradeGate(AbsTradeGate):
         path = args[1]
         if not os.path.exists(path):
             raise FileNotFoundError(path)
-        df = pd.read_csv(*args[1:], **kwargs)
+        with open(path, "rb", buffering=0) as fp:
+            # 一次性读取整个文件，分多次读取时，文件如果正好被重写，会混合两个版本的内容
+            content = fp.read(os.path.getsize(path))
+        df = pd.read_csv(io.BytesIO(content), *args[2:], **kwargs)
         if not df.loc[len(df)-1].isna().all():
             raise OSError(f"检测到文件不完整：{path}")
         return df
-- 
2.43.0


From d2e534b5f4d43b228143cbad0c1b74ce31418101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:35 +0000
Subject: [PATCH 42/57] fix: keep an explicitly empty option value (-e=) when
 reading a task's command line

---
 jqtrade/scheduler/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 25cd288..346e064 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -14,7 +14,7 @@ def _split_option(item):
     elif item[:2] in ("-n", "-c", "-o", "-e"):
         option = [_o for _o in TASK_OPTIONS if _o[2] == item[1]][0]
         value = item[3:] if item[2:3] == "=" else item[2:]
-        return option, value or None
+        return option, value if len(item) > 2 else None
     return None, None
 
 
-- 
2.43.0


From 52eda736f9d63b8133139d11cee5c9b054aa793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:35 +0000
Subject: [PATCH 43/57] fix: ignore a process that ends while its name is being
 read

---
 jqtrade/scheduler/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 346e064..d8e9c83 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -54,7 +54,11 @@ def get_activate_task_process():
                     task_process.append(_p)
                     parent_pid.append(_p.ppid())
             except psutil.AccessDenied:
-                if 'python' in _p.name():
+                try:
+                    _name = _p.name()
+                except psutil.NoSuchProcess:
+                    continue
+                if 'python' in _name:
                     raise
                 else:
                     # windows有一些系统进程，即使有管理员权限，p.cmdline仍会报错，这部分进程忽略
-- 
2.43.0


From a63129feafda85c15924cc3c676f20ac98ffb238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:35 +0000
Subject: [PATCH 44/57] fix: go on stopping the other tasks when one may not be
 signalled

---
 jqtrade/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jqtrade/__main__.py b/jqtrade/__main__.py
index 7f73a4e..a6eef22 100644
--- a/jqtrade/__main__.py
+++ b/jqtrade/__main__.py
@@ -110,6 +110,9 @@ def stop_task(options):
         except psutil.NoSuchProcess:
             print(f"进程 {_p.pid} 已经退出")
             return
+        except psutil.AccessDenied:
+            print(f"没有权限停止进程 {_p.pid}")
+            return
         killed_pid.append(_p.pid)
 
     if options.all:
-- 
2.43.0


From 2fe3260c19f4ac3f2dd3af1ff5962c9700797296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 45/57] fix: functions of a custom configuration file can use
 the names the file defines and imports

---
 jqtrade/account/config.py   | 2 +-
 jqtrade/scheduler/config.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/config.py b/jqtrade/account/config.py
index a05bb2d..e4e9138 100644
--- a/jqtrade/account/config.py
+++ b/jqtrade/account/config.py
@@ -33,7 +33,7 @@ class AccountConfig(object):
 
 def _load_config(path):
     configs = {}
-    exec(open(path).read(), {}, configs)
+    exec(open(path).read(), configs)
 
     account_configs = {}
     for _name in configs:
diff --git a/jqtrade/scheduler/config.py b/jqtrade/scheduler/config.py
index 7fa99a8..acebc30 100644
--- a/jqtrade/scheduler/config.py
+++ b/jqtrade/scheduler/config.py
@@ -39,7 +39,7 @@ class SchedulerConfig(object):
 
 def _load_config(path):
     configs = {}
-    exec(open(path).read(), {}, configs)
+    exec(open(path).read(), configs)
 
     scheduler_configs = {}
     for _name in configs:
-- 
2.43.0


From e5cc66de1d388879249871ce901a3aa1979f7672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 46/57] fix: printed text reaches the log file given by a
 relative path after the strategy changes directory

---
 jqtrade/scheduler/runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index 93e4696..288f00f 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -57,7 +57,8 @@ class TaskRunner(object):
 
         self._debug = debug
         log_level = "DEBUG" if debug else "INFO"
-        self._out_file = out_file
+        # 策略可能会切换工作目录，相对路径以启动时的工作目录为准
+        self._out_file = os.path.abspath(out_file) if out_file else out_file
         if out_file:
             setup_file_logger(out_file, log_level)
         else:
-- 
2.43.0


From daac8a0dcbd6ae3acea0e500807ac7dd1f578257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 47/57] fix: a configuration file given by a relative path is
 found after the strategy changes directory

---
 jqtrade/scheduler/runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index 288f00f..1fd2a2d 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -74,6 +74,7 @@ class TaskRunner(object):
             path = os.path.abspath(os.path.expanduser(config))
             if not os.path.exists(path):
                 raise FileNotFoundError(f"找不到自定义配置文件: {path}")
+            config = path
         self._config = config
 
     def run(self):
-- 
2.43.0


From 96ea88e5efd8f0df453fd500a4234cdf18f649e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 48/57] fix: print accepts file objects that only have a write
 method

---
 jqtrade/scheduler/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/api.py b/jqtrade/scheduler/api.py
index 7fa9c6b..d3efeab 100644
--- a/jqtrade/scheduler/api.py
+++ b/jqtrade/scheduler/api.py
@@ -30,7 +30,8 @@ class UserContext(object):
 def strategy_print(*args, **kwargs):
     ctx = Context.get_instance()
 
-    kwargs.setdefault("flush", True)
+    if kwargs.get("file") is None or hasattr(kwargs["file"], "flush"):
+        kwargs.setdefault("flush", True)
 
     if ctx.out and "file" not in kwargs:
         with open(ctx.out, "a") as wf:
-- 
2.43.0


From ca2e4247f528f331d4a08c204ae4ccaf12cbdf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:35 +0000
Subject: [PATCH 49/57] fix: relative directories of a given PYTHONPATH are
 still searched after the strategy changes directory

---
 jqtrade/scheduler/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index 1fd2a2d..78d1a09 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -68,7 +68,7 @@ class TaskRunner(object):
         os.environ.update(self._env)
         if "PYTHONPATH" in self._env:
             for _py_path in reversed(self._env["PYTHONPATH"].split(":")):
-                sys.path.insert(0, _py_path)
+                sys.path.insert(0, os.path.abspath(_py_path))
 
         if config:
             path = os.path.abspath(os.path.expanduser(config))
-- 
2.43.0


From 8b9863c8cb603686aa8684d5ec4c8556f530c744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 50/57] fix: the strategy file that was given is loaded, also
 when its name has several dots or is that of another module

---
 jqtrade/scheduler/loader.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/loader.py b/jqtrade/scheduler/loader.py
index 6a199ef..054dbff 100644
--- a/jqtrade/scheduler/loader.py
+++ b/jqtrade/scheduler/loader.py
@@ -2,6 +2,7 @@
 import os
 import sys
 import importlib
+import importlib.util
 
 from ..common.log import sys_logger
 
@@ -16,6 +17,7 @@ class Loader(object):
     """
 
     def __init__(self, path):
+        self.path = path
         self.code_dir, self.code_file = os.path.split(path)
 
         if self.code_dir == "":
@@ -23,8 +25,15 @@ class Loader(object):
 
     def load(self):
         logger.info(f"加载用户策略代码，code_dir={self.code_dir}，code_file={self.code_file}")
-        sys.path.insert(0, self.code_dir)
+        # 策略可能会切换工作目录
+        sys.path.insert(0, os.path.abspath(self.code_dir))
 
         module_name = self.code_file.split(".")[0]
-        module = importlib.import_module(module_name)
+        # 按文件路径加载，文件名带有多个点或与其他模块重名时，import_module会加载到别的模块
+        spec = importlib.util.spec_from_file_location(module_name, self.path)
+        if spec is None:
+            return importlib.import_module(module_name)
+        module = importlib.util.module_from_spec(spec)
+        sys.modules[module_name] = module
+        spec.loader.exec_module(module)
         return module
-- 
2.43.0


From 7868cdcaf19d497320780f22562616f4de7be61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 51/57] fix: calling set_options again does not multiply the
 retries of reading a balance file

---
 jqtrade/account/trade_gate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 607bbb7..a5345de 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -378,14 +378,13 @@ class AnXinDMATradeGate(AbsTradeGate):
             raise FileNotFoundError(f"找不到文件单：{path}，请检查one quant是否启动或文件单是否开启定时导出模式")
 
     @classmethod
-    def _read_csv(cls, *args, **kwargs):
-        path = args[1]
+    def _read_csv(cls, path, *args, **kwargs):
         if not os.path.exists(path):
             raise FileNotFoundError(path)
         with open(path, "rb", buffering=0) as fp:
             # 一次性读取整个文件，分多次读取时，文件如果正好被重写，会混合两个版本的内容
             content = fp.read(os.path.getsize(path))
-        df = pd.read_csv(io.BytesIO(content), *args[2:], **kwargs)
+        df = pd.read_csv(io.BytesIO(content), *args, **kwargs)
         if not df.loc[len(df)-1].isna().all():
             raise OSError(f"检测到文件不完整：{path}")
         return df
@@ -566,7 +565,8 @@ class AnXinDMATradeGate(AbsTradeGate):
         self._ignore_error_line = self._options.get("ignore_error_line", self.DEFAULT_IGNORE_ERROR_LINE)
 
         _sync_retry_kwargs = options.get("sync_retry_kwargs", self.DEFAULT_SYNC_RETRY_KWARGS)
-        AnXinDMATradeGate._read_csv = simple_retry(**_sync_retry_kwargs)(AnXinDMATradeGate._read_csv)
+        # 只包装当前实例，避免多次调用set_options时重试次数叠加
+        self._read_csv = simple_retry(**_sync_retry_kwargs)(AnXinDMATradeGate._read_csv)
 
         self._wait_lock_internal = options.get("wait_lock_internal", self.WAIT_LOCK_INTERNAL)
         self._wait_lock_time_out = options.get("wait_lock_time_out", self.WAIT_LOCK_TIME_OUT)
-- 
2.43.0


From 8685ca1712324268d7dc6b3306533f76fd99979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 52/57] fix: a gate that reports order ids as numbers updates
 the orders known by their text ids

---
 jqtrade/account/account.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index dfc298a..fc69a04 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -247,7 +247,7 @@ class Account(AbsAccount):
             for _order_info in orders:
                 _order_id = str(_order_info["order_id"])
                 _local_order = self._orders.get(_order_id)
-                _remote_order = Order.load(**_order_info)
+                _remote_order = Order.load(**dict(_order_info, order_id=_order_id))
                 if _local_order is None:
                     if self.has_synced:
                         logger.info(f"从trade_gate同步到本地不存在的订单: {_order_info}")
-- 
2.43.0


From 99545a8996213f44704982c85a3277475d873f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 53/57] fix: options set before and replaced in
 process_initialize stop syncing the old account

---
 jqtrade/account/account.py    | 17 ++++++++++++++++-
 jqtrade/scheduler/strategy.py |  9 ++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index fc69a04..5871fb0 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -92,6 +92,9 @@ class Account(AbsAccount):
 
         self._options = None
 
+        # 同步定时任务：(事件类, schedule_id)
+        self._sync_timer = None
+
     def setup(self, options):
         logger.info("setup account")
 
@@ -157,7 +160,19 @@ class Account(AbsAccount):
         if self.need_sync_order:
             self._ctx.event_bus.register(event_cls, self.sync_orders)
 
-        self._ctx.scheduler.schedule(event_source)
+        self._sync_timer = event_cls, self._ctx.scheduler.schedule(event_source)
+
+    def cancel_sync_timer(self):
+        """ 取消同步定时任务。重新set_options时，之前的选项不再生效 """
+        if not self._sync_timer:
+            return
+        event_cls, schedule_id = self._sync_timer
+        self._sync_timer = None
+        self._ctx.scheduler.unschedule(schedule_id)
+        if self.need_sync_balance:
+            self._ctx.event_bus.unregister(event_cls, self.sync_balance)
+        if self.need_sync_order:
+            self._ctx.event_bus.unregister(event_cls, self.sync_orders)
 
     def order(self, code, amount, style, side):
         order_id = str(generate_unique_number())
diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index 22ed795..3bad5ba 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -61,6 +61,8 @@ class Strategy(object):
 
         self._options = {}
 
+        self._account = None
+
     def setup(self):
         logger.info("setup strategy")
         self.make_apis()
@@ -201,6 +203,11 @@ class Strategy(object):
                 periods.append((_start, _end))
             kwargs["sync_period"] = periods
 
+        # 新的选项替换之前的选项，之前的account不再定时同步
+        if self._account:
+            self._account.cancel_sync_timer()
+            self._account = None
+
         # set options
         self._options = kwargs
 
@@ -243,7 +250,7 @@ class Strategy(object):
         self._ctx.trade_gate = trade_gate
         account = Account(self._ctx)
 
-        self._ctx.account = account
+        self._account = self._ctx.account = account
         portfolio = Portfolio(account)
         self._ctx.portfolio = portfolio
 
-- 
2.43.0


From 23beed6c74814f4128a05ae737b6c30d7c218090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 54/57] fix: a strategy file without .py suffix is loaded from
 that very file

---
 jqtrade/scheduler/loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/loader.py b/jqtrade/scheduler/loader.py
index 054dbff..5ad1849 100644
--- a/jqtrade/scheduler/loader.py
+++ b/jqtrade/scheduler/loader.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 import os
 import sys
-import importlib
+import importlib.machinery
 import importlib.util
 
 from ..common.log import sys_logger
@@ -32,7 +32,9 @@ class Loader(object):
         # 按文件路径加载，文件名带有多个点或与其他模块重名时，import_module会加载到别的模块
         spec = importlib.util.spec_from_file_location(module_name, self.path)
         if spec is None:
-            return importlib.import_module(module_name)
+            # 文件没有.py后缀时也按源代码文件加载，否则会去查找并运行同名的其他模块
+            spec = importlib.util.spec_from_file_location(
+                module_name, self.path, loader=importlib.machinery.SourceFileLoader(module_name, self.path))
         module = importlib.util.module_from_spec(spec)
         sys.modules[module_name] = module
         spec.loader.exec_module(module)
-- 
2.43.0


From 23541162c6b71e3ca9b0259f7e6057b9ed8f4c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 55/57] fix: a strategy file named like a loaded module, such
 as jqtrade.py, no longer replaces it

---
 jqtrade/scheduler/loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jqtrade/scheduler/loader.py b/jqtrade/scheduler/loader.py
index 5ad1849..ed89c13 100644
--- a/jqtrade/scheduler/loader.py
+++ b/jqtrade/scheduler/loader.py
@@ -29,6 +29,9 @@ class Loader(object):
         sys.path.insert(0, os.path.abspath(self.code_dir))
 
         module_name = self.code_file.split(".")[0]
+        while module_name in sys.modules:
+            # 不替换已加载的同名模块（比如策略文件名为jqtrade.py）
+            module_name = "_" + module_name
         # 按文件路径加载，文件名带有多个点或与其他模块重名时，import_module会加载到别的模块
         spec = importlib.util.spec_from_file_location(module_name, self.path)
         if spec is None:
-- 
2.43.0


From 01e31222fee25176cec0c4cb8762b537c4b70169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:42 +0000
Subject: [PATCH 56/57] fix: a minute shared by touching or overlapping trading
 periods runs every_minute tasks once

---
 jqtrade/scheduler/strategy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index 3bad5ba..fa282ac 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -110,6 +110,7 @@ class Strategy(object):
                 _today = datetime.date.today()
 
                 market_period = self._options.get("market_period", config.MARKET_PERIOD)
+                _times = set()      # 交易时间段首尾相接或重叠时，同一时间只触发一次
                 for _period in market_period:
                     if len(_period) != 2:
                         raise ValueError(f"market period设置错误：{_period}")
@@ -120,7 +121,10 @@ class Strategy(object):
                     _end_dt = datetime.datetime.combine(_today, _end)
                     _current_dt = _start_dt
                     while _current_dt <= _end_dt:
-                        event_source.daily(event_cls, _current_dt.strftime("%H:%M:%S"))
+                        _time = _current_dt.strftime("%H:%M:%S")
+                        if _time not in _times:
+                            _times.add(_time)
+                            event_source.daily(event_cls, _time)
                         _current_dt += datetime.timedelta(minutes=1)
             else:
                 event_cls = create_event_class(_cls_name)
-- 
2.43.0


From eb64cf39cff73a641608310a23e80e7ed226c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:56 +0000
Subject: [PATCH 57/57] fix: a half line left in the order or cancel file by a
 killed process no longer swallows the next request

---
 jqtrade/account/trade_gate.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index a5345de..7827f65 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -296,12 +296,24 @@ class AnXinDMATradeGate(AbsTradeGate):
         self._write(self._cancel_csv, order_line, header=self.CANCEL_CSV_HEADER)
         logger.info(f"撤单已提交到文件单，订单id：{order_id}")
 
-    def _write(self, file, line, mode="a", header=None):
+    @staticmethod
+    def _drop_broken_line(fp):
+        """ 之前的进程可能在写入中途异常退出，在文件末尾留下不完整的行，追加之前需要去掉，避免新的行接在它后面 """
+        fp = fp.buffer
+        if fp.seek(0, os.SEEK_END) == 0:
+            return
+        fp.seek(-1, os.SEEK_END)
+        if fp.read(1) != b"\n":
+            fp.seek(0)
+            fp.truncate(fp.read().rfind(b"\n") + 1)
+
+    def _write(self, file, line, mode="a+", header=None):
         start = time.time()
         while True:
             with open(file, mode, encoding=self._file_coding) as fp:
                 try:
                     portalocker.lock(fp, portalocker.LOCK_EX | portalocker.LOCK_NB)  # no block
+                    self._drop_broken_line(fp)
                     fp.seek(0, os.SEEK_END)     # 打开文件之后、加锁之前，其他进程可能已经写入
                     if fp.tell() == 0 and header:
                         line = header + os.linesep + line
-- 
2.43.0

