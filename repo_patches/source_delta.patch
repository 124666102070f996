From 0562eff3eb098cc80db751f46b8205c30351cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:45 +0000
Subject: [PATCH 01/36] fix: keep PriorityQueue usable when sort keys tie and
 items are not comparable

---
 jqtrade/scheduler/queue.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jqtrade/scheduler/queue.py b/jqtrade/scheduler/queue.py
index e4cd1a4..b75c5b8 100644
--- a/jqtrade/scheduler/queue.py
+++ b/jqtrade/scheduler/queue.py
@@ -2,6 +2,7 @@
 from ..common.log import sys_logger
 
 import heapq
+import itertools
 import threading
 
 
@@ -20,14 +21,16 @@ class PriorityQueue(object):
 
     def __init__(self):
         self._queue = []
+        self._counter = itertools.count()
 
     def push(self, item, sort_key):
         logger.debug(f"push queue. item={item}, sort_key={sort_key}")
-        heapq.heappush(self._queue, (sort_key, item))
+        # 序号保证sort_key相同时按入队先后出队，且不会去比较item本身
+        heapq.heappush(self._queue, (sort_key, next(self._counter), item))
 
     def pop(self):
         try:
-            sort_key, msg = heapq.heappop(self._queue)
+            sort_key, _, msg = heapq.heappop(self._queue)
             logger.debug(f"pop queue. msg={msg}, sort_key={sort_key}")
             return msg
         except IndexError:
@@ -35,7 +38,7 @@ class PriorityQueue(object):
 
     def top(self):
         try:
-            sort_key, msg = self._queue[0]
+            sort_key, _, msg = self._queue[0]
             logger.debug(f"pop queue. item={msg}, sort_key={sort_key}")
             return msg
         except IndexError:
-- 
2.43.0


From 77b7fa2cc8ce08cf9013426fa0f139ffe125cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 02/36] fix: reject malformed clock and offset expressions in
 run_daily

---
 jqtrade/scheduler/event_source.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index d35df7f..482e14f 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -136,16 +136,10 @@ class EventSource(object):
 
     def add_event(self, day, time_expr, event_cls):
         if ':' in time_expr:
-            time_info = time_expr.split(':')
-            hour, minute = time_info[:2]
-            try:
-                second = time_info[2]
-            except IndexError:
-                second = 0
-
-            hour = int(hour)
-            minute = int(minute)
-            second = int(second)
+            m = re.fullmatch(r'([0-9]{1,2}):([0-9]{1,2})(?::([0-9]{1,2}))?', time_expr)
+            if m is None:
+                raise InvalidParam(f'invalid time expr {time_expr}')
+            hour, minute, second = (int(v or 0) for v in m.groups())
             dt = datetime.datetime.combine(day, datetime.time(hour, minute, second))
         else:
             dt = self.expr_to_time(day, time_expr)
@@ -241,7 +235,7 @@ class TimeExprParser(object):
 
     @staticmethod
     def _parse_offset(offset):
-        m = re.match(r'^(([0-9]{1,2}[hms]){1,3})$', offset)
+        m = re.fullmatch(r'(([0-9]{1,2}[hms]){1,3})', offset)
         if m is None:
             raise InvalidParam(f'invalid time offset: {offset}')
         ret = re.findall(r'([0-9]{1,2})([hms])', offset)
-- 
2.43.0


From d1e7ec7cee19cce4d36e867c8d861f5fa4e2e4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:37 +0000
Subject: [PATCH 03/36] fix: custom config overrides exactly the named setting
 and EVENT_DAYS_COUNT takes effect

---
 jqtrade/account/config.py         | 2 +-
 jqtrade/scheduler/config.py       | 2 +-
 jqtrade/scheduler/event_source.py | 5 ++++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/jqtrade/account/config.py b/jqtrade/account/config.py
index df1dfd9..a05bb2d 100644
--- a/jqtrade/account/config.py
+++ b/jqtrade/account/config.py
@@ -38,7 +38,7 @@ def _load_config(path):
     account_configs = {}
     for _name in configs:
         if _name.startswith("ACCOUNT_"):
-            account_configs[_name.lstrip("ACCOUNT_")] = configs[_name]
+            account_configs[_name[len("ACCOUNT_"):]] = configs[_name]
     return account_configs
 
 
diff --git a/jqtrade/scheduler/config.py b/jqtrade/scheduler/config.py
index c5ff826..7fa99a8 100644
--- a/jqtrade/scheduler/config.py
+++ b/jqtrade/scheduler/config.py
@@ -44,7 +44,7 @@ def _load_config(path):
     scheduler_configs = {}
     for _name in configs:
         if _name.startswith("SCHEDULER_"):
-            scheduler_configs[_name.lstrip("SCHEDULER_")] = configs[_name]
+            scheduler_configs[_name[len("SCHEDULER_"):]] = configs[_name]
     return scheduler_configs
 
 
diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index 482e14f..318cd70 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -59,7 +59,10 @@ class EventSource(object):
         self._days = self._get_days()
         self._need_regenerate_events = False
 
-    def _get_days(self, count=config.EVENT_DAYS_COUNT):
+    def _get_days(self, count=None):
+        if count is None:
+            count = config.EVENT_DAYS_COUNT
+
         days = []
 
         if config.ENABLE_HISTORY_START or self._end:
-- 
2.43.0


From 1d2bf56ad4766e926a5ebdc9183dfb30974b820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:13 +0000
Subject: [PATCH 04/36] fix: keep generating consecutive days after the first
 EVENT_DAYS_COUNT days

---
 jqtrade/scheduler/event_source.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index 318cd70..d573305 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -42,6 +42,9 @@ class EventSource(object):
 
         self._has_gen_his_days = False
 
+        # 最近一个已经生成过事件的日期
+        self._last_day = None
+
     def setup(self):
         if self._start is None or not config.ENABLE_HISTORY_START:
             self._start = datetime.datetime.now()
@@ -56,6 +59,7 @@ class EventSource(object):
 
         self._events = []
         self._has_gen_his_days = False
+        self._last_day = None
         self._days = self._get_days()
         self._need_regenerate_events = False
 
@@ -72,6 +76,9 @@ class EventSource(object):
             start = self._start.date()
             end = self._end.date() if self._end else None
             count = (end - start).days + 1 if end else count
+        elif self._last_day:
+            # 接着上一批日期继续生成，避免日期重复或者遗漏
+            start = self._last_day + datetime.timedelta(days=1)
         else:
             start = datetime.date.today()
 
@@ -128,7 +135,7 @@ class EventSource(object):
             if not self._days:
                 break
 
-            day = self._days.pop(0)
+            day = self._last_day = self._days.pop(0)
             self.add_daily_events(day)
 
         self._events.sort(key=lambda e: e[0])
-- 
2.43.0


From d5ece0d068e3ba81e8a8d3a73b15365e6737a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:52 +0000
Subject: [PATCH 05/36] fix: deliver an event to all its callbacks when one of
 them changes the registrations

---
 jqtrade/scheduler/bus.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/bus.py b/jqtrade/scheduler/bus.py
index 083b1fb..8386fcb 100644
--- a/jqtrade/scheduler/bus.py
+++ b/jqtrade/scheduler/bus.py
@@ -51,12 +51,13 @@ class EventBus(object):
             event: event_class实例
         """
         ret = []
-        for _event_cls in self._subscribes:
+        # 回调函数中可能会注册、取消注册回调，遍历时使用副本，避免漏掉其它回调
+        for _event_cls in list(self._subscribes):
             if not isinstance(event, _event_cls):
                 continue
             _event_subscribes = self._subscribes.get(_event_cls, {})
             for _priority in sorted(_event_subscribes, reverse=True):
-                for _callback in _event_subscribes[_priority]:
+                for _callback in list(_event_subscribes[_priority]):
                     logger.debug(f"emit event: {event}, callback: {_callback.__name__}")
                     ret.append(_callback(event))
         return ret
-- 
2.43.0


From 7200ddcf9d46dda6b8f53b7aec2bc1e1efe82cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:41 +0000
Subject: [PATCH 06/36] fix: convert instants to epoch milliseconds without
 counting microseconds twice

---
 jqtrade/common/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jqtrade/common/utils.py b/jqtrade/common/utils.py
index c846a1b..8284d32 100644
--- a/jqtrade/common/utils.py
+++ b/jqtrade/common/utils.py
@@ -55,7 +55,8 @@ def parse_time(t):
 
 
 def dt_to_milliseconds(dt):
-    return int(dt.timestamp() * 1000 + dt.microsecond / 1000)
+    # 整数运算，避免重复计算微秒部分以及浮点误差
+    return int(dt.replace(microsecond=0).timestamp()) * 1000 + dt.microsecond // 1000
 
 
 def milliseconds_to_dt(milliseconds):
-- 
2.43.0


From 96020315d148dd25dbbb54f41383bbb07113b188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:36 +0000
Subject: [PATCH 07/36] fix: run the function object passed to run_daily
 instead of looking it up by name

Functions sharing a name, shadowed in the module, nested or without a
module-level name were replaced by whatever the module had under that name
(or by None).
---
 jqtrade/scheduler/strategy.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index 0f29ef1..4169fe4 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -99,7 +99,7 @@ class Strategy(object):
         for _desc in self._schedules:
             logger.info(f"设置定时任务: {_desc}")
 
-            _callback = self._get_handle(_desc['name'])
+            _callback = _desc['func']
             _cls_name = f"Scheduler_{_desc['name']}_{self._schedule_count}"
 
             event_source = EventSource(start=self._ctx.start, end=self._ctx.end)
@@ -131,17 +131,17 @@ class Strategy(object):
             self._schedule_count += 1
 
     def run_daily(self, func, time):
-        logger.info(f"run_daily. func={func.__name__}, time={time}")
+        logger.info(f"run_daily. func={func}, time={time}")
         if not self._is_scheduler_allowed:
             raise InvalidCall('run_daily函数只允许在process_initialize中调用')
 
         time = self.TIME_DICT.get(time) or time
 
-        module, func = self._check_handle(func)
+        self._check_handle(func)
 
         desc = {
-            'module': module,
-            'name': func,
+            'func': func,
+            'name': getattr(func, "__name__", type(func).__name__),
             'time': time,
         }
         self._schedules.append(desc)
@@ -150,10 +150,6 @@ class Strategy(object):
     def _check_handle(func):
         if not callable(func):
             raise InvalidParam(f"{func} is not callable")
-        return func.__module__, func.__name__
-
-    def _get_handle(self, func_name):
-        return getattr(self._user_module, func_name, None)
 
     @property
     def user_module(self):
-- 
2.43.0


From a3d50a431f2bb674a1a6b224805110acdd6aad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:56 +0000
Subject: [PATCH 08/36] fix: check the whole security code, including the dot
 before the exchange

Codes such as 000001-XSHE, 0000010XSHE or with non-ASCII digits were accepted.
---
 jqtrade/account/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jqtrade/account/api.py b/jqtrade/account/api.py
index 05e880a..611f7fd 100644
--- a/jqtrade/account/api.py
+++ b/jqtrade/account/api.py
@@ -1,4 +1,6 @@
 # -*- coding: utf-8 -*-
+import re
+
 from ..common.exceptions import InvalidParam
 from ..common.log import sys_logger
 from ..scheduler.context import Context
@@ -11,7 +13,7 @@ logger = sys_logger.getChild("account.api")
 
 
 def _check_code(code):
-    if not (code[-4:] in ("XSHE", "XSHG") and code[:-5].isdigit()):
+    if not (isinstance(code, str) and re.fullmatch(r"[0-9]+\.(XSHE|XSHG)", code)):
         raise InvalidParam(f"标的代码错误: {code}")
 
 
-- 
2.43.0


From 05222c27897b40e186b1116ce854045160a1b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:56 +0000
Subject: [PATCH 09/36] fix: keep the side the strategy ordered

Short orders were submitted to the trade gate, stored and reserved against
positions as long orders.
---
 jqtrade/account/account.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 4e83498..6ec1d75 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -163,7 +163,7 @@ class Account(AbsAccount):
         action = OrderAction.close if amount < 0 else OrderAction.open
         order_obj = Order(code=code, price=style.price, amount=abs(amount), action=action,
                           order_id=order_id, style=style, create_time=datetime.datetime.now(),
-                          status=OrderStatus.new)
+                          status=OrderStatus.new, side=side)
         self._orders[order_id] = order_obj
         try:
             logger.info(f"提交订单，订单id：{order_id}，code：{code}，price：{style.price}，amount：{amount}，"
-- 
2.43.0


From 8df98df7f312d2ba4a33c0cb3b736432e0de90da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 10/36] fix: never reuse the id of a known order

The 32 bit random id of a new order could equal the id of an existing one,
which was then replaced in the order book and in the trade gate's records.
---
 jqtrade/account/account.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 6ec1d75..b4a7848 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -160,6 +160,9 @@ class Account(AbsAccount):
 
     def order(self, code, amount, style, side):
         order_id = str(generate_unique_number())
+        while order_id in self._orders:
+            # 随机数可能与已有委托重复，不能覆盖已有委托
+            order_id = str(generate_unique_number())
         action = OrderAction.close if amount < 0 else OrderAction.open
         order_obj = Order(code=code, price=style.price, amount=abs(amount), action=action,
                           order_id=order_id, style=style, create_time=datetime.datetime.now(),
-- 
2.43.0


From 388b7bc48b5aa44c7dc6078fbcee2941ec8bde8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 11/36] fix: mark an order as rejected when the trade gate
 refuses it

It stayed in the order book as a new order although None had been returned
to the strategy and nothing had been submitted.
---
 jqtrade/account/account.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index b4a7848..ccf2f6f 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -176,6 +176,7 @@ class Account(AbsAccount):
             return order_id
         except Exception as e:
             logger.exception(f"内部下单异常，code={code}, amount={amount}, style={style}, side={side}, error={e}")
+            order_obj.on_rejected(str(e))
 
     def cancel_order(self, order_id):
         try:
-- 
2.43.0


From 97848a4aa4067ec4f385dd581afbb6a84ccf2124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:05 +0000
Subject: [PATCH 12/36] fix: a batch entry that is not a dict does not prevent
 the others

It raised out of batch_submit_orders, so later entries were not submitted and
the ids of earlier ones were lost.
---
 jqtrade/account/api.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jqtrade/account/api.py b/jqtrade/account/api.py
index 611f7fd..5cee309 100644
--- a/jqtrade/account/api.py
+++ b/jqtrade/account/api.py
@@ -138,12 +138,12 @@ def batch_submit_orders(orders):
     """
     order_ids = []
     for _order_info in orders:
-        _code = _order_info.get("code")
-        _amount = _order_info.get("amount")
-        _style = _order_info.get("style")
-        _side = _order_info.get("side")
-
         try:
+            _code = _order_info.get("code")
+            _amount = _order_info.get("amount")
+            _style = _order_info.get("style")
+            _side = _order_info.get("side")
+
             if _code is None:
                 raise InvalidParam(f"批量单缺少标的代码字段code，请检查订单信息: {_order_info}")
 
-- 
2.43.0


From 57e7dc235c34d215e7c7d4c315aeb68419a8bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:20 +0000
Subject: [PATCH 13/36] fix: take over zero cash and apply a balance report
 completely or not at all

A reported zero was treated as missing and the old figure kept; the documented
key total_assert and the documented default side were not honoured; a malformed
position left the account without positions; the report was consumed.
---
 jqtrade/account/account.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index ccf2f6f..2975620 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -202,18 +202,17 @@ class Account(AbsAccount):
                 raise ValueError("trade_gate.sync_balance未返回持仓数据")
 
             cash_info = account_info["cash"]
-            self._total_assert = cash_info.get("total_asset") or self._total_assert
-            self._available_cash = cash_info.get("available_cash") or self._available_cash
-            self._locked_cash = cash_info.get("locked_cash") or self._locked_cash
-
-            # 每次全量同步持仓前，清空缓存中的持仓，然后使用交易接口同步到的持仓更新内存。由于框架是单线程，所以这样处理没问题。
-            # 这样的处理逻辑依赖交易接口返回正常的持仓，相较于原地更新，逻辑简单，不容易出问题。
-            self._long_positions.clear()
-            self._short_positions.clear()
-
-            positions = account_info["positions"]
-            for _pos_info in positions:
-                _side = OrderSide.get_side(_pos_info.pop("side"))
+            # 总资产字段兼容total_asset、total_assert两种写法
+            total_assert = cash_info.get("total_asset", cash_info.get("total_assert"))
+            available_cash = cash_info.get("available_cash")
+            locked_cash = cash_info.get("locked_cash")
+
+            # 每次全量同步持仓，先解析交易接口返回的全部持仓，解析成功后再整体替换内存中的资金、持仓，避免异常时只更新一部分。
+            long_positions = {}
+            short_positions = {}
+            for _pos_info in account_info["positions"]:
+                _pos_info = dict(_pos_info)
+                _side = OrderSide.get_side(_pos_info.pop("side", OrderSide.long))
                 _pos = Position(
                     code=_pos_info.pop("code"),
                     amount=_pos_info.pop("amount"),
@@ -224,9 +223,18 @@ class Account(AbsAccount):
                 )
 
                 if _pos.side == OrderSide.long:
-                    self._long_positions[_pos.code] = _pos
+                    long_positions[_pos.code] = _pos
                 else:
-                    self._short_positions[_pos.code] = _pos
+                    short_positions[_pos.code] = _pos
+
+            if total_assert is not None:
+                self._total_assert = total_assert
+            if available_cash is not None:
+                self._available_cash = available_cash
+            if locked_cash is not None:
+                self._locked_cash = locked_cash
+            self._long_positions = long_positions
+            self._short_positions = short_positions
         except Exception as e:
             logger.exception(f"同步资金和持仓失败，error={e}")
 
-- 
2.43.0


From 5e6b986a853656f909d955d2d50fa8b6336acad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:20 +0000
Subject: [PATCH 14/36] fix: apply an order report completely or not at all,
 with every reported value

Changes of price, amount, message or entrust time alone were dropped, and a
malformed entry left the orders before it applied and those after it not.
---
 jqtrade/account/account.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 2975620..fe0d165 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -243,22 +243,19 @@ class Account(AbsAccount):
         try:
             orders = self._ctx.trade_gate.sync_orders()
 
-            for _order_info in orders:
-                _order_id = str(_order_info["order_id"])
+            remote_orders = [(str(_info["order_id"]), _info, Order.load(**_info)) for _info in orders]
+
+            for _order_id, _order_info, _remote_order in remote_orders:
                 _local_order = self._orders.get(_order_id)
-                _remote_order = Order.load(**_order_info)
+                self._orders[_order_id] = _remote_order
                 if _local_order is None:
                     if self.has_synced:
                         logger.info(f"从trade_gate同步到本地不存在的订单: {_order_info}")
                     else:
                         logger.info(f"从trade_gate同步订单: {_order_info}")
-                    self._orders[_order_id] = _remote_order
                     continue
 
-                if _remote_order == _local_order:
-                    continue
-                else:
-                    self._orders[_order_id] = _remote_order
+                if _remote_order != _local_order:
                     self.on_order_updated(_local_order, _remote_order)
 
             self.has_synced = True
-- 
2.43.0


From 8fe5d30722a6b5f0ef6ff02811c2d05533103663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:20 +0000
Subject: [PATCH 15/36] fix: portfolio.position_value and the documented
 position attributes

position_value iterated over the codes and raised as soon as a position was
held; UserPosition.code and UserPosition.locked_amount are documented but were
missing.
---
 jqtrade/account/api.py       | 6 ++++++
 jqtrade/account/portfolio.py | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/jqtrade/account/api.py b/jqtrade/account/api.py
index 5cee309..b814f9b 100644
--- a/jqtrade/account/api.py
+++ b/jqtrade/account/api.py
@@ -285,10 +285,16 @@ class UserPosition(object):
     def security(self):
         return self.__position.code
 
+    code = security
+
     @property
     def total_amount(self):
         return self.__position.amount
 
+    @property
+    def locked_amount(self):
+        return self.__position.locked_amount
+
     @property
     def closeable_amount(self):
         return self.__position.available_amount
diff --git a/jqtrade/account/portfolio.py b/jqtrade/account/portfolio.py
index 7c84a57..a085a02 100644
--- a/jqtrade/account/portfolio.py
+++ b/jqtrade/account/portfolio.py
@@ -39,7 +39,7 @@ class Portfolio(object):
 
     @property
     def position_value(self):
-        return sum(_pos.position_value for _pos in self.long_positions)
+        return sum(_pos.position_value or 0 for _pos in self.long_positions.values())
 
     def __str__(self):
         return f"Portfolio(total_assert={self.total_value}, available_assert={self.available_cash}, " \
-- 
2.43.0


From c99e30accb01d696cb7f09c6cbeb299dbd5988c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:04 +0000
Subject: [PATCH 16/36] fix: accept values containing '=' in -e

---
 jqtrade/scheduler/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 77ac4c2..3ecfca2 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -55,7 +55,7 @@ def parse_env(env, sep=";"):
     envs = env.split(sep)
     for _env in envs:
         _env = _env.strip()
-        _k, _v = _env.split("=")
+        _k, _v = _env.split("=", 1)
         _k = _k.strip()
         _v = _v.strip()
         ret[_k] = _v
-- 
2.43.0


From a6913f39144eb695f8891a8244a1f11219b70e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 17/36] fix: load exactly the strategy file that was named

---
 jqtrade/scheduler/loader.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/jqtrade/scheduler/loader.py b/jqtrade/scheduler/loader.py
index 6a199ef..fbe3a09 100644
--- a/jqtrade/scheduler/loader.py
+++ b/jqtrade/scheduler/loader.py
@@ -1,7 +1,8 @@
 # -*- coding: utf-8 -*-
 import os
 import sys
-import importlib
+from importlib.machinery import SourceFileLoader
+from importlib.util import module_from_spec, spec_from_loader
 
 from ..common.log import sys_logger
 
@@ -25,6 +26,11 @@ class Loader(object):
         logger.info(f"加载用户策略代码，code_dir={self.code_dir}，code_file={self.code_file}")
         sys.path.insert(0, self.code_dir)
 
-        module_name = self.code_file.split(".")[0]
-        module = importlib.import_module(module_name)
+        # 按文件路径加载，避免加载到文件名相似的文件或者同名的其他模块
+        module_name = os.path.splitext(self.code_file)[0]
+        path = os.path.abspath(os.path.join(self.code_dir, self.code_file))
+        spec = spec_from_loader(module_name, SourceFileLoader(module_name, path))
+        module = module_from_spec(spec)
+        sys.modules.setdefault(module_name, module)
+        spec.loader.exec_module(module)
         return module
-- 
2.43.0


From 32298b80fc277a56be6cb87e07758ce8fffea247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 18/36] fix: refuse codes and symbols whose exchange only ends
 like a known one

---
 jqtrade/account/trade_gate.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 91bbf13..52822d7 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -373,19 +373,19 @@ class AnXinDMATradeGate(AbsTradeGate):
 
     @staticmethod
     def _decode_security(code):
-        if code.endswith("SZ"):
-            return code.replace("SZ", "XSHE")
-        elif code.endswith("SH"):
-            return code.replace("SH", "XSHG")
+        if code.endswith(".SZ"):
+            return code[:-len("SZ")] + "XSHE"
+        elif code.endswith(".SH"):
+            return code[:-len("SH")] + "XSHG"
         else:
             raise ValueError(f"invalid code: {code}")
 
     @staticmethod
     def _encode_security(code):
-        if code.endswith("XSHE"):
-            return code.replace("XSHE", "SZ")
-        elif code.endswith("XSHG"):
-            return code.replace("XSHG", "SH")
+        if code.endswith(".XSHE"):
+            return code[:-len("XSHE")] + "SZ"
+        elif code.endswith(".XSHG"):
+            return code[:-len("XSHG")] + "SH"
         else:
             raise ValueError(f"invalid code: {code}")
 
-- 
2.43.0


From 439219a236f78b242d41bf0867e663cf60da65b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 19/36] fix: write order lines completely while holding the
 file lock

---
 jqtrade/account/trade_gate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 52822d7..3214a3c 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -290,9 +290,13 @@ class AnXinDMATradeGate(AbsTradeGate):
             with open(file, mode, encoding=self._file_coding) as fp:
                 try:
                     portalocker.lock(fp, portalocker.LOCK_EX | portalocker.LOCK_NB)  # no block
+                    # 获取锁之前其他进程可能已经写入，以当前文件末尾为准
+                    fp.seek(0, os.SEEK_END)
                     if fp.tell() == 0 and header:
                         line = header + os.linesep + line
                     fp.write(line)
+                    # 释放锁之前写入磁盘
+                    fp.flush()
                     break
                 except (BlockingIOError, portalocker.exceptions.AlreadyLocked):
                     if time.time() - start >= self._wait_lock_time_out:
-- 
2.43.0


From cc2a09d094d861403d7c4faba2fbb784ae254b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 20/36] fix: decode the order result file with the configured
 encoding

---
 jqtrade/account/trade_gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 3214a3c..56e2178 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -400,7 +400,7 @@ class AnXinDMATradeGate(AbsTradeGate):
         self.check_file_exists(self._order_update_csv)
         self.check_file_exists(self._order_result_csv)
 
-        with open(self._order_result_csv, "r") as rf:
+        with open(self._order_result_csv, "r", encoding=self._file_coding) as rf:
             rf.seek(pre_order_result_offset)
             while True:
                 try:
-- 
2.43.0


From c4c7e0c8ea30d1080095a519b7275fd2bd7accee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 21/36] fix: keep synchronising orders after partly visible or
 malformed broker lines

---
 jqtrade/account/trade_gate.py | 129 ++++++++++++++++++----------------
 1 file changed, 68 insertions(+), 61 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 56e2178..ae95182 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -400,81 +400,51 @@ class AnXinDMATradeGate(AbsTradeGate):
         self.check_file_exists(self._order_update_csv)
         self.check_file_exists(self._order_result_csv)
 
-        with open(self._order_result_csv, "r", encoding=self._file_coding) as rf:
+        with open(self._order_result_csv, "rb") as rf:
             rf.seek(pre_order_result_offset)
             while True:
-                try:
-                    _line = rf.readline().strip()
-                    if not _line:
-                        break
-
-                    if _line.startswith(self.ORDER_RESULT_COLS[0]):
-                        self._order_result_offset = rf.tell()
-                        continue
-
-                    _items = [_s.strip() for _s in _line.split(",")]
-                    if len(_items) < len(self.ORDER_RESULT_COLS):
-                        break
+                _raw_line = rf.readline()
+                if not _raw_line:
+                    break
 
-                    _order_result_line = self.ORDER_RESULT_CLS(*_items)
-                    if _order_result_line.resultType == self.RESULT_TYPE_CANCEL \
-                            and _order_result_line.status == self.RESULT_REJECT_STATUS:
-                        if self._has_synced:
-                            logger.info(f"撤单失败，被撤单id：{_order_result_line.custBatchNo}，"
-                                        f"失败原因：{_order_result_line.errorMsg}")
-                        self._order_result_offset = rf.tell()
-                        continue
-
-                    if _order_result_line.resultType == self.RESULT_TYPE_ORDER \
-                            and _order_result_line.status == self.RESULT_REJECT_STATUS:
-                        _order = self._orders.get(_order_result_line.custBatchNo)
-                        if _order:
-                            _order["status"] = OrderStatus.rejected.value
-                            _order["err_msg"] = _order_result_line.errorMsg
-                    self._order_result_offset = rf.tell()
-                except EOFError:
-                    pass
+                # 行尾没有换行符说明该行可能还没写完，下次同步时需要重新读取该行
+                _is_complete = _raw_line.endswith(b"\n")
+                try:
+                    self._handle_order_result(_raw_line.decode(self._file_coding).strip())
                 except Exception as e:
+                    if not _is_complete:
+                        break
                     logger.exception(f"{self._order_result_csv}中有一笔订单状态信息同步失败，error={e}")
-                    if self._ignore_error_line:
-                        self._order_result_offset = rf.tell()
-                    else:
+                    if not self._ignore_error_line:
                         raise
 
-        with open(self._order_update_csv, "r", encoding=self._file_coding) as rf:
+                if not _is_complete:
+                    break
+                # 记录下当前成功解析了的订单的位置
+                self._order_result_offset = rf.tell()
+
+        with open(self._order_update_csv, "rb") as rf:
             rf.seek(pre_order_update_offset)
             while True:
-                try:
-                    _line = rf.readline().strip()
-                    if not _line:
-                        break
-
-                    if _line.startswith(self.ORDER_LINE_COLS[0]):
-                        self._order_update_offset = rf.tell()
-                        continue
-
-                    _items = [_s.strip() for _s in _line.split(",")]
-                    if len(_items) < len(self.ORDER_LINE_COLS):
-                        break
-
-                    order_line = self.ORDER_LINE_CLS(*_items)
-
-                    if order_line.custBatchNo not in self._orders:
-                        continue
-
-                    self._update_order(self._orders[order_line.custBatchNo], order_line)
-
-                    # 记录下当前成功解析了的订单的位置
-                    self._order_update_offset = rf.tell()
-                except EOFError:
+                _raw_line = rf.readline()
+                if not _raw_line:
                     break
+
+                _is_complete = _raw_line.endswith(b"\n")
+                try:
+                    self._handle_order_line(_raw_line.decode(self._file_coding).strip())
                 except Exception as e:
+                    if not _is_complete:
+                        break
                     logger.exception(f"{self._order_update_csv}中有一笔订单状态信息同步失败, error={e}")
-                    if self._ignore_error_line:
-                        self._order_update_offset = rf.tell()
-                    else:
+                    if not self._ignore_error_line:
                         raise
 
+                if not _is_complete:
+                    break
+                # 记录下当前成功解析了的订单的位置
+                self._order_update_offset = rf.tell()
+
         self._has_synced = True
         self._save_orders()
 
@@ -483,6 +453,43 @@ class AnXinDMATradeGate(AbsTradeGate):
             data.append(_order.copy())
         return data
 
+    def _handle_order_result(self, line):
+        if not line or line.startswith(self.ORDER_RESULT_COLS[0]):
+            return
+
+        _items = [_s.strip() for _s in line.split(",")]
+        if len(_items) < len(self.ORDER_RESULT_COLS):
+            raise ParserError(f"订单信息不完整：{line}")
+
+        _order_result_line = self.ORDER_RESULT_CLS(*_items)
+        if _order_result_line.resultType == self.RESULT_TYPE_CANCEL \
+                and _order_result_line.status == self.RESULT_REJECT_STATUS:
+            if self._has_synced:
+                logger.info(f"撤单失败，被撤单id：{_order_result_line.custBatchNo}，"
+                            f"失败原因：{_order_result_line.errorMsg}")
+            return
+
+        if _order_result_line.resultType == self.RESULT_TYPE_ORDER \
+                and _order_result_line.status == self.RESULT_REJECT_STATUS:
+            _order = self._orders.get(_order_result_line.custBatchNo)
+            if _order:
+                _order["status"] = OrderStatus.rejected.value
+                _order["err_msg"] = _order_result_line.errorMsg
+
+    def _handle_order_line(self, line):
+        if not line or line.startswith(self.ORDER_LINE_COLS[0]):
+            return
+
+        _items = [_s.strip() for _s in line.split(",")]
+        if len(_items) < len(self.ORDER_LINE_COLS):
+            raise ParserError(f"订单信息不完整：{line}")
+
+        order_line = self.ORDER_LINE_CLS(*_items)
+        if order_line.custBatchNo not in self._orders:
+            return
+
+        self._update_order(self._orders[order_line.custBatchNo], order_line)
+
     def _update_order(self, order, order_line):
         order["status"] = self._parse_status(order_line.status).value
         order["entrust_time"] = datetime.datetime.strptime(order_line.orderDate + order_line.orderTime,
-- 
2.43.0


From c51e87b170b38e8579daf4b19946fa1a4e9a8df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 22/36] fix: a malformed order line does not change its order
 partly

---
 jqtrade/account/trade_gate.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index ae95182..9c77cf6 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -491,15 +491,18 @@ class AnXinDMATradeGate(AbsTradeGate):
         self._update_order(self._orders[order_line.custBatchNo], order_line)
 
     def _update_order(self, order, order_line):
-        order["status"] = self._parse_status(order_line.status).value
-        order["entrust_time"] = datetime.datetime.strptime(order_line.orderDate + order_line.orderTime,
-                                                           "%Y%m%d%H%M%S").strftime("%Y-%m-%d %H:%M:%S.%f")
-        order["confirm_id"] = order_line.orderNo
-        order["filled_amount"] = int(order_line.filledQty)
-        order["deal_balance"] = round(float(order_line.filledAmt), 4)
-        order["canceled_amount"] = int(order_line.cancelQty)
-        order["avg_cost"] = round(float(order_line.avgPrice), 3)
-        order["err_msg"] = order_line.text
+        # 全部字段解析成功后再更新，避免解析失败时只更新了部分字段
+        order.update({
+            "status": self._parse_status(order_line.status).value,
+            "entrust_time": datetime.datetime.strptime(order_line.orderDate + order_line.orderTime,
+                                                       "%Y%m%d%H%M%S").strftime("%Y-%m-%d %H:%M:%S.%f"),
+            "confirm_id": order_line.orderNo,
+            "filled_amount": int(order_line.filledQty),
+            "deal_balance": round(float(order_line.filledAmt), 4),
+            "canceled_amount": int(order_line.cancelQty),
+            "avg_cost": round(float(order_line.avgPrice), 3),
+            "err_msg": order_line.text,
+        })
 
     def _save_orders(self):
         tmp_file = self._data_file + ".tmp"
-- 
2.43.0


From d5a3951c831b3947eb046dbee5d39ee7add49864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 23/36] fix: switch to the new day's files and saved orders
 when the date changes

---
 jqtrade/account/trade_gate.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 9c77cf6..24474e0 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -215,6 +215,9 @@ class AnXinDMATradeGate(AbsTradeGate):
         self._data_dir = None
         self._data_file = None
 
+        # 当前文件单、缓存文件对应的日期
+        self._date = None
+
         # 文件单目录
         self._order_dir = None
 
@@ -247,6 +250,8 @@ class AnXinDMATradeGate(AbsTradeGate):
         if sys_order.side != OrderSide.long:
             raise InvalidParam("当前版本仅支持做多")
 
+        self._update_date()
+
         now = datetime.datetime.now()
         order_info = [now.strftime("%H%M%S.%f"), sys_order.order_id,
                       self._counter_type, acct_no,
@@ -278,6 +283,8 @@ class AnXinDMATradeGate(AbsTradeGate):
         self._save_orders()
 
     def cancel_order(self, order_id):
+        self._update_date()
+
         now = datetime.datetime.now()
         order_info = [now.strftime("%H%M%S.%f"), str(order_id)]
         order_line = ",".join(order_info) + os.linesep
@@ -308,6 +315,7 @@ class AnXinDMATradeGate(AbsTradeGate):
     def sync_balance(self):
         data = {}
 
+        self._update_date()
         self.check_file_exists(self._assert_info_csv)
 
         acct_no = self._options.get("account_no")
@@ -394,6 +402,8 @@ class AnXinDMATradeGate(AbsTradeGate):
             raise ValueError(f"invalid code: {code}")
 
     def sync_orders(self):
+        self._update_date()
+
         pre_order_update_offset = self._order_update_offset
         pre_order_result_offset = self._order_result_offset
 
@@ -547,7 +557,6 @@ class AnXinDMATradeGate(AbsTradeGate):
         if self._algo_type != self.DEFAULT_ALGO_TYPE:
             logger.warn(f"检测到当前使用的算法交易类型是{self._algo_type}, 请与您的客户经理确认是否开通了此算法交易类型，否则将影响交易")
 
-        ctx = Context.get_instance()
         runtime_dir = options.get("runtime_dir", scheduler_config.RUNTIME_DIR)
 
         self._data_dir = os.path.join(runtime_dir, "data")
@@ -555,8 +564,6 @@ class AnXinDMATradeGate(AbsTradeGate):
         if not os.path.exists(self._data_dir):
             os.makedirs(self._data_dir)
 
-        self._data_file = os.path.join(self._data_dir, f"{ctx.task_name}_{self._date.strftime('%Y%m%d')}.json")
-
         self._file_coding = self._options.get("file_encoding", sys.getfilesystemencoding())
         self._ignore_error_line = self._options.get("ignore_error_line", self.DEFAULT_IGNORE_ERROR_LINE)
 
@@ -566,11 +573,22 @@ class AnXinDMATradeGate(AbsTradeGate):
         self._wait_lock_internal = options.get("wait_lock_internal", self.WAIT_LOCK_INTERNAL)
         self._wait_lock_time_out = options.get("wait_lock_time_out", self.WAIT_LOCK_TIME_OUT)
 
-        self._load_orders()
+        self._date = None
+        self._update_date()
 
-    @property
-    def _date(self):
-        return Context.get_instance().current_dt.date()
+    def _update_date(self):
+        """ 日期变化后，切换到新一天的文件单和缓存文件，新一天的文件单需要从头开始读取 """
+        ctx = Context.get_instance()
+        date = ctx.current_dt.date()
+        if date == self._date:
+            return
+
+        self._date = date
+        self._data_file = os.path.join(self._data_dir, f"{ctx.task_name}_{date.strftime('%Y%m%d')}.json")
+        self._orders = {}
+        self._order_update_offset = 0
+        self._order_result_offset = 0
+        self._load_orders()
 
     @property
     def _order_csv(self):
-- 
2.43.0


From 282b4d0247f30cf8fb612f09d10cc6b5b44b2074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 24/36] fix: read asset and position files with the configured
 encoding

---
 jqtrade/account/trade_gate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 24474e0..1318aa7 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -323,7 +323,8 @@ class AnXinDMATradeGate(AbsTradeGate):
             raise InvalidParam("未设置account_no信息，请使用set_account设置资金账号")
 
         acct_no = str(acct_no)
-        asset_infos = self._read_csv(self._assert_info_csv, dtype={"acct": str, "exchange": str})
+        asset_infos = self._read_csv(self._assert_info_csv, dtype={"acct": str, "exchange": str},
+                                     encoding=self._file_coding)
         if len(asset_infos) == 0:
             raise AnXinDMAError("文件单中未查询到资产数据")
         for _asset_info in asset_infos.itertuples():
@@ -342,7 +343,8 @@ class AnXinDMATradeGate(AbsTradeGate):
         self.check_file_exists(self._position_info_csv)
 
         data["positions"] = []
-        position_info = self._read_csv(self._position_info_csv, dtype={"acct": str, "symbol": str})
+        position_info = self._read_csv(self._position_info_csv, dtype={"acct": str, "symbol": str},
+                                       encoding=self._file_coding)
         for _pos in position_info.itertuples():
             if _pos.acct != acct_no:
                 continue
-- 
2.43.0


From 3c4c9096b3b325ab2451c1cee62bc556da8b2490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 25/36] fix: synchronise the account all day on every day

---
 jqtrade/account/account.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index fe0d165..80f1ad2 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -132,8 +132,10 @@ class Account(AbsAccount):
         sync_internal = float(self._options.get("sync_internal", config.SYNC_INTERNAL))
         sync_period = self._options.get("sync_period", config.SYNC_PERIOD)
         if not sync_period:
-            current = now + datetime.timedelta(seconds=sync_internal)
-            while current <= now.replace(hour=23, minute=59, second=59):
+            # 同步时间每天重复，需要覆盖全天，不能只覆盖启动时间之后的时间段
+            current = now.replace(hour=0, minute=0, second=0)
+            next_day = current + datetime.timedelta(days=1)
+            while current < next_day:
                 event_source.daily(event_cls, current.strftime("%H:%M:%S"))
                 current += datetime.timedelta(seconds=sync_internal)
         else:
-- 
2.43.0


From ce568d3b960cc3989c1e95f916bfcb3e5b4dfe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 26/36] fix: read running tasks' command lines with
 start_task's own options

---
 jqtrade/__main__.py        | 11 +++--------
 jqtrade/scheduler/utils.py | 36 +++++++++++++++++++++++-------------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/jqtrade/__main__.py b/jqtrade/__main__.py
index 0d7fba2..10ed6c9 100644
--- a/jqtrade/__main__.py
+++ b/jqtrade/__main__.py
@@ -3,6 +3,8 @@ import argparse
 
 
 def main():
+    from .scheduler.utils import add_start_task_options
+
     parser = argparse.ArgumentParser()
 
     parser.add_argument("-V", "--version", action="store_true", help="获取版本信息")
@@ -11,14 +13,7 @@ def main():
 
     # 启动实盘任务
     start_task_parser = sub_parsers.add_parser("start_task", help="创建新的实盘任务")
-    start_task_parser.add_argument("-n", "--name", required=True, help="实盘任务名称，唯一标识该实盘任务，不能重复")
-    start_task_parser.add_argument("-c", "--code", required=True, help="策略代码路径")
-    start_task_parser.add_argument("-o", "--out", required=False, default=None, help="日志路径，不指定时打印到标准输出/错误")
-    start_task_parser.add_argument("-e", "--env", required=False, default=None,
-                                   help="指定实盘策略进程运行环境变量，多个环境变量使用分号分隔。"
-                                        "示例: -e PATH=./bin:/usr/bin;PYTHONPATH=./package;USER=test")
-    start_task_parser.add_argument("--config", required=False, default=None, help="指定自定义配置文件路径")
-    start_task_parser.add_argument("--debug", action="store_true", help="是否开启debug模式，debug模式日志更丰富些")
+    add_start_task_options(start_task_parser)
     start_task_parser.set_defaults(func=start_task)
 
     # 查询运行中的实盘任务
diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 3ecfca2..9ded8e7 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -1,20 +1,30 @@
 # -*- coding: utf-8 -*-
+import argparse
+
+
+def add_start_task_options(parser):
+    parser.add_argument("-n", "--name", required=True, help="实盘任务名称，唯一标识该实盘任务，不能重复")
+    parser.add_argument("-c", "--code", required=True, help="策略代码路径")
+    parser.add_argument("-o", "--out", required=False, default=None, help="日志路径，不指定时打印到标准输出/错误")
+    parser.add_argument("-e", "--env", required=False, default=None,
+                        help="指定实盘策略进程运行环境变量，多个环境变量使用分号分隔。"
+                             "示例: -e PATH=./bin:/usr/bin;PYTHONPATH=./package;USER=test")
+    parser.add_argument("--config", required=False, default=None, help="指定自定义配置文件路径")
+    parser.add_argument("--debug", action="store_true", help="是否开启debug模式，debug模式日志更丰富些")
+
+
+class _TaskArgumentParser(argparse.ArgumentParser):
+    def error(self, message):
+        raise ValueError(message)
 
 
 def parse_task_info(cmd_line):
-    info = {"debug": False, "env": None, "out": None}
-    for _idx, _item in enumerate(cmd_line):
-        if _item in ("-c", "--code"):
-            info["code"] = cmd_line[_idx+1]
-        elif _item in ("-o", "--out"):
-            info["out"] = cmd_line[_idx + 1]
-        elif _item in ("-n", "--name"):
-            info["name"] = cmd_line[_idx + 1]
-        elif _item in ("-e", "--env"):
-            info["env"] = cmd_line[_idx + 1]
-        elif _item == "--debug":
-            info["debug"] = True
-    return info
+    """解析start_task命令行，使用与start_task相同的选项定义，保证与任务启动时的解析结果一致"""
+    parser = _TaskArgumentParser(add_help=False)
+    add_start_task_options(parser)
+    options = parser.parse_args(cmd_line[cmd_line.index("start_task") + 1:])
+    return {"debug": options.debug, "env": options.env, "out": options.out,
+            "code": options.code, "name": options.name}
 
 
 def get_activate_task_process():
-- 
2.43.0


From 93006940881135287956aa7704f61b1fdbdba08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 27/36] fix: recognise only start_task processes as running
 tasks

---
 jqtrade/scheduler/utils.py | 43 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 9ded8e7..f7a4f60 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -1,5 +1,7 @@
 # -*- coding: utf-8 -*-
 import argparse
+import getopt
+import os
 
 
 def add_start_task_options(parser):
@@ -27,6 +29,44 @@ def parse_task_info(cmd_line):
             "code": options.code, "name": options.name}
 
 
+def _get_jqtrade_args(cmd_line):
+    """返回jqtrade进程的命令行参数，不是jqtrade进程则返回None
+
+    支持: python [解释器选项] -m jqtrade ...、python [解释器选项] /path/to/jqtrade ...、jqtrade ...
+    """
+    launchers = ("jqtrade", "jqtrade.exe", "jqtrade-script.py")
+
+    program = os.path.basename(cmd_line[0]).lower() if cmd_line else ""
+    if program in launchers:
+        return cmd_line[1:]
+    if "python" not in program and "pypy" not in program:
+        return None
+
+    try:
+        opts, args = getopt.getopt(cmd_line[1:], "bBdEhiIOPqRsSuvVxc:m:W:X:?", ["check-hash-based-pycs="])
+    except getopt.GetoptError:
+        return None
+    opts = dict(opts)
+    if "-c" in opts:
+        return None
+    if "-m" in opts:
+        return args if opts["-m"] in ("jqtrade", "jqtrade.__main__") else None
+    if args and os.path.basename(args[0]).lower() in launchers:
+        return args[1:]
+    return None
+
+
+def _is_task(cmd_line):
+    args = _get_jqtrade_args(cmd_line)
+    if not args or args[0] != "start_task":
+        return False
+    try:
+        parse_task_info(args)
+    except ValueError:
+        return False
+    return True
+
+
 def get_activate_task_process():
     active_tasks = []
 
@@ -36,8 +76,7 @@ def get_activate_task_process():
         parent_pid = []
         for _p in psutil.process_iter():
             try:
-                _cmd_line = " ".join(_p.cmdline())
-                if "jqtrade" in _cmd_line and "start_task" in _cmd_line:
+                if _is_task(_p.cmdline()):
                     task_process.append(_p)
                     parent_pid.append(_p.ppid())
             except psutil.AccessDenied:
-- 
2.43.0


From d786bcdb6b84c93df466e5eec4d4de68a715b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 28/36] fix: let stop_task take an empty name or pid 0 as a
 selector

---
 jqtrade/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jqtrade/__main__.py b/jqtrade/__main__.py
index 10ed6c9..0b27e1d 100644
--- a/jqtrade/__main__.py
+++ b/jqtrade/__main__.py
@@ -83,7 +83,7 @@ def stop_task(options):
 
     active_tasks = get_activate_task_process()
 
-    if not options.name and not options.pid and not options.all:
+    if options.name is None and options.pid is None and not options.all:
         raise ValueError("--name/--pid/--all至少指定一项")
 
     killed_pid = []
@@ -101,7 +101,7 @@ def stop_task(options):
     if options.all:
         for _p in active_tasks:
             _kill(_p, options.force)
-    elif options.pid:
+    elif options.pid is not None:
         for _p in active_tasks:
             if _p.pid == options.pid:
                 _kill(_p, options.force)
-- 
2.43.0


From 8f4ff82b4bad6670a323017b5089323df0b728a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 29/36] fix: ignore tasks that end while tasks are listed or
 stopped

---
 jqtrade/__main__.py         | 28 ++++++++++++++++++++++------
 jqtrade/scheduler/runner.py |  7 ++++++-
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/jqtrade/__main__.py b/jqtrade/__main__.py
index 0b27e1d..3984da9 100644
--- a/jqtrade/__main__.py
+++ b/jqtrade/__main__.py
@@ -51,6 +51,8 @@ def get_tasks(options):
     """
     python -m quant_engine get_tasks
     """
+    import psutil
+
     from .scheduler.utils import get_activate_task_process, parse_task_info
 
     active_tasks = get_activate_task_process()
@@ -60,7 +62,10 @@ def get_tasks(options):
 
     print("当前活跃的实盘任务进程".center(30, "-"))
     for _p in active_tasks:
-        _cmd = _p.cmdline()
+        try:
+            _cmd = _p.cmdline()
+        except psutil.NoSuchProcess:
+            continue
         _task_info = parse_task_info(_cmd)
         _task_info["pid"] = _p.pid
         _task_info["cmd"] = _cmd
@@ -79,6 +84,8 @@ def stop_task(options):
     python -m quant_engine stop_task -p 12345
     python -m quant_engine stop_task --all
     """
+    import psutil
+
     from .scheduler.utils import get_activate_task_process, parse_task_info
 
     active_tasks = get_activate_task_process()
@@ -100,17 +107,26 @@ def stop_task(options):
 
     if options.all:
         for _p in active_tasks:
-            _kill(_p, options.force)
+            try:
+                _kill(_p, options.force)
+            except psutil.NoSuchProcess:
+                pass
     elif options.pid is not None:
         for _p in active_tasks:
             if _p.pid == options.pid:
-                _kill(_p, options.force)
+                try:
+                    _kill(_p, options.force)
+                except psutil.NoSuchProcess:
+                    pass
                 break
     else:
         for _p in active_tasks:
-            _task_info = parse_task_info(_p.cmdline())
-            if options.name == _task_info["name"]:
-                _kill(_p, options.force)
+            try:
+                _task_info = parse_task_info(_p.cmdline())
+                if options.name == _task_info["name"]:
+                    _kill(_p, options.force)
+            except psutil.NoSuchProcess:
+                pass
 
     if not killed_pid:
         print("未找到需要停止的进程")
diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index cd20006..93e4696 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -19,6 +19,8 @@ logger = sys_logger.getChild("runner")
 
 
 def _exist_repeated_task(task_name):
+    import psutil
+
     current_pid = os.getpid()
     parent_pid = os.getppid()
 
@@ -26,7 +28,10 @@ def _exist_repeated_task(task_name):
     for _task in active_tasks:
         if _task.pid in (current_pid, parent_pid):
             continue
-        _task_info = parse_task_info(_task.cmdline())
+        try:
+            _task_info = parse_task_info(_task.cmdline())
+        except psutil.NoSuchProcess:
+            continue
         if task_name == _task_info["name"]:
             return True
 
-- 
2.43.0


From 796be9cba6f5db55aabac9ac09c37018062c5a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 30/36] fix: keep the last sync_retry_kwargs instead of nesting
 the retries of every set_options

---
 jqtrade/account/trade_gate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 1318aa7..1c8c035 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -376,11 +376,10 @@ class AnXinDMATradeGate(AbsTradeGate):
             raise FileNotFoundError(f"找不到文件单：{path}，请检查one quant是否启动或文件单是否开启定时导出模式")
 
     @classmethod
-    def _read_csv(cls, *args, **kwargs):
-        path = args[1]
+    def _read_csv(cls, path, *args, **kwargs):
         if not os.path.exists(path):
             raise FileNotFoundError(path)
-        df = pd.read_csv(*args[1:], **kwargs)
+        df = pd.read_csv(path, *args, **kwargs)
         if not df.loc[len(df)-1].isna().all():
             raise OSError(f"检测到文件不完整：{path}")
         return df
@@ -570,7 +569,8 @@ class AnXinDMATradeGate(AbsTradeGate):
         self._ignore_error_line = self._options.get("ignore_error_line", self.DEFAULT_IGNORE_ERROR_LINE)
 
         _sync_retry_kwargs = options.get("sync_retry_kwargs", self.DEFAULT_SYNC_RETRY_KWARGS)
-        AnXinDMATradeGate._read_csv = simple_retry(**_sync_retry_kwargs)(AnXinDMATradeGate._read_csv)
+        # 重复setup时以最后一次的重试设置为准，不能在已有的重试上再叠加
+        self._read_csv = simple_retry(**_sync_retry_kwargs)(type(self)._read_csv)
 
         self._wait_lock_internal = options.get("wait_lock_internal", self.WAIT_LOCK_INTERNAL)
         self._wait_lock_time_out = options.get("wait_lock_time_out", self.WAIT_LOCK_TIME_OUT)
-- 
2.43.0


From 500abdcf39ac6441122012bbeadce6a38ca475dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 31/36] fix: stop the previous account's sync timer when
 set_options is called again

---
 jqtrade/account/account.py    | 19 ++++++++++++++++++-
 jqtrade/scheduler/strategy.py |  4 ++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 80f1ad2..1907754 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -92,6 +92,10 @@ class Account(AbsAccount):
 
         self._options = None
 
+        # 同步定时任务
+        self._sync_event_cls = None
+        self._sync_schedule_id = None
+
     def setup(self, options):
         logger.info("setup account")
 
@@ -158,7 +162,20 @@ class Account(AbsAccount):
         if self.need_sync_order:
             self._ctx.event_bus.register(event_cls, self.sync_orders)
 
-        self._ctx.scheduler.schedule(event_source)
+        self._sync_event_cls = event_cls
+        self._sync_schedule_id = self._ctx.scheduler.schedule(event_source)
+
+    def close(self):
+        """ 停止同步定时任务 """
+        if self._sync_schedule_id is None:
+            return
+
+        self._ctx.scheduler.unschedule(self._sync_schedule_id)
+        if self.need_sync_balance:
+            self._ctx.event_bus.unregister(self._sync_event_cls, self.sync_balance)
+        if self.need_sync_order:
+            self._ctx.event_bus.unregister(self._sync_event_cls, self.sync_orders)
+        self._sync_schedule_id = None
 
     def order(self, code, amount, style, side):
         order_id = str(generate_unique_number())
diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index 4169fe4..4180ad4 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -202,6 +202,10 @@ class Strategy(object):
             os.makedirs(runtime_dir)
         logger.info(f"程序运行时目录：{runtime_dir}")
 
+        # 重复调用set_options时以最后一次为准，之前的账户不再继续同步
+        if self._ctx.use_account and self._ctx.account:
+            self._ctx.account.close()
+
         self._ctx.use_account = use_account = kwargs.get("use_account", config.SETUP_ACCOUNT)
         if use_account:
             self.setup_account(kwargs)
-- 
2.43.0


From 460b75f113250f970c5f5a5da8399a1e31f82c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:50 +0000
Subject: [PATCH 32/36] fix: let functions and comprehensions of a custom
 configuration file use the file's names

---
 jqtrade/account/config.py   | 2 +-
 jqtrade/scheduler/config.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/config.py b/jqtrade/account/config.py
index a05bb2d..e4e9138 100644
--- a/jqtrade/account/config.py
+++ b/jqtrade/account/config.py
@@ -33,7 +33,7 @@ class AccountConfig(object):
 
 def _load_config(path):
     configs = {}
-    exec(open(path).read(), {}, configs)
+    exec(open(path).read(), configs)
 
     account_configs = {}
     for _name in configs:
diff --git a/jqtrade/scheduler/config.py b/jqtrade/scheduler/config.py
index 7fa99a8..acebc30 100644
--- a/jqtrade/scheduler/config.py
+++ b/jqtrade/scheduler/config.py
@@ -39,7 +39,7 @@ class SchedulerConfig(object):
 
 def _load_config(path):
     configs = {}
-    exec(open(path).read(), {}, configs)
+    exec(open(path).read(), configs)
 
     scheduler_configs = {}
     for _name in configs:
-- 
2.43.0


From db36a4ca887f6da589c16628472d427724a237d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:08 +0000
Subject: [PATCH 33/36] fix: a failure to save the order cache is no failure to
 submit or synchronise orders

---
 jqtrade/account/trade_gate.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 1c8c035..41512fe 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -517,9 +517,13 @@ class AnXinDMATradeGate(AbsTradeGate):
 
     def _save_orders(self):
         tmp_file = self._data_file + ".tmp"
-        with open(tmp_file, "w") as wf:
-            json.dump(self._orders, wf)
-        shutil.move(tmp_file, self._data_file)
+        try:
+            with open(tmp_file, "w") as wf:
+                json.dump(self._orders, wf)
+            shutil.move(tmp_file, self._data_file)
+        except OSError as e:
+            # 此时订单已经提交或者同步完成，缓存失败不能当作下单或同步失败，下次保存时会重新写入全部订单
+            logger.exception(f"缓存策略当日订单信息失败，data_file：{self._data_file}，error={e}")
 
     def _load_orders(self):
         logger.info(f"从本地缓存文件恢复策略当日订单信息，data_file：{self._data_file}")
-- 
2.43.0


From 964310c9c384ddd5c519dede9ee9db92ff95f9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:08 +0000
Subject: [PATCH 34/36] fix: use the expanded absolute runtime_dir for the
 order cache as well

---
 jqtrade/scheduler/strategy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index 4180ad4..858369b 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -198,6 +198,8 @@ class Strategy(object):
 
         # set_options 后需要立即执行的初始化工作，避免用户查询到未同步的account信息
         runtime_dir = os.path.abspath(os.path.expanduser(kwargs.get("runtime_dir", config.RUNTIME_DIR)))
+        # 账户模块使用的也是展开后的绝对路径，避免"~"或相对路径被当作当前目录下的路径
+        kwargs["runtime_dir"] = runtime_dir
         if not os.path.isdir(runtime_dir):
             os.makedirs(runtime_dir)
         logger.info(f"程序运行时目录：{runtime_dir}")
-- 
2.43.0


From 6b0cc0518fa29f1473178e61a0f5fbaa01d01022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:08 +0000
Subject: [PATCH 35/36] fix: print goes to the task's log after the strategy
 changes directory

---
 jqtrade/scheduler/runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index 93e4696..088c406 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -57,7 +57,8 @@ class TaskRunner(object):
 
         self._debug = debug
         log_level = "DEBUG" if debug else "INFO"
-        self._out_file = out_file
+        # 策略代码可能会切换工作目录，日志路径以启动时的目录为准，与日志模块打开的文件保持一致
+        self._out_file = os.path.abspath(out_file) if out_file else out_file
         if out_file:
             setup_file_logger(out_file, log_level)
         else:
-- 
2.43.0


From d5c91d68bc9731e8aa0d07ac4f003bb9fed7040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:08 +0000
Subject: [PATCH 36/36] fix: find a configuration file given by a relative path
 after the strategy changes directory

---
 jqtrade/scheduler/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index 088c406..063f49b 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -74,6 +74,8 @@ class TaskRunner(object):
             path = os.path.abspath(os.path.expanduser(config))
             if not os.path.exists(path):
                 raise FileNotFoundError(f"找不到自定义配置文件: {path}")
+            # 策略代码可能会切换工作目录，配置路径以启动时的目录为准
+            config = path
         self._config = config
 
     def run(self):
-- 
2.43.0

