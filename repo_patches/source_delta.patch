From 7108c6ee2309bfc10fa418018226125451cb69d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 01/54] fix: Message.copy() keeps the message id

---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index c34423c..de98408 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -330,7 +330,7 @@ class Message(object):
             A copy of the message object.
 
         """
-        return Message(self.mtype, self.name, self.arguments)
+        return Message(self.mtype, self.name, self.arguments, self.mid)
 
     def __bytes__(self):
         """Return Message serialized for transmission.
-- 
2.43.0


From 05043bc32a2386d4b5c0a2065e25716cb72e1e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 02/54] fix: refuse message names that cannot be serialised
 when constructing the message

---
 katcp/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index de98408..de88fa8 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -254,6 +254,9 @@ class Message(object):
     ## @brief Regular expression matching all unescaped character.
     ESCAPE_RE = re.compile(br"[\\ \0\n\r\x1b\t]")
 
+    ## @brief Regular expression matching text that can be sent on the wire
+    ASCII_RE = re.compile(r"[\x00-\x7f]*\Z")
+
     ## @brief Attempt to optimize messages by specifying attributes up front
     __slots__ = ["mtype", "name", "mid", "arguments"]
 
@@ -288,7 +291,7 @@ class Message(object):
 
         if not name:
             raise KatcpSyntaxError("Command missing command name.")
-        if not name.replace("-", "").isalnum():
+        if not (name.replace("-", "").isalnum() and self.ASCII_RE.match(name)):
             raise KatcpSyntaxError("Command name should consist only of "
                                    "alphanumeric characters and dashes (got %r)."
                                    % (name,))
-- 
2.43.0


From ced2886290ed85251a438917d6f858bd99039611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 03/54] fix: parser raises KatcpSyntaxError for undecodable or
 newline-terminated names

---
 katcp/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/katcp/core.py b/katcp/core.py
index de88fa8..0a1caf1 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -549,7 +549,7 @@ class MessageParser(object):
 
     ## @brief Regular expression matching name and ID
     NAME_RE = re.compile(
-        br"^(?P<name>[a-zA-Z][a-zA-Z0-9\-]*)(\[(?P<id>[0-9]+)\])?$")
+        br"^(?P<name>[a-zA-Z][a-zA-Z0-9\-]*)(\[(?P<id>[0-9]+)\])?\Z")
 
     def _unescape_match(self, match):
         """Given an re.Match, unescape the escape code it represents."""
@@ -593,7 +593,8 @@ class MessageParser(object):
         type_char = line[:1]
         if type_char not in self.TYPE_SYMBOL_LOOKUP:
             raise KatcpSyntaxError(
-                "Bad type character %r." % (ensure_native_str(type_char),))
+                "Bad type character %r."
+                % (future.utils.bytes_to_native_str(type_char, 'latin-1'),))
 
         mtype = self.TYPE_SYMBOL_LOOKUP[type_char]
 
@@ -613,8 +614,9 @@ class MessageParser(object):
             name = match.group('name')
             mid = match.group('id')
         else:
-            raise KatcpSyntaxError("Bad message name (and possibly id) %r." %
-                                   (ensure_native_str(name),))
+            raise KatcpSyntaxError(
+                "Bad message name (and possibly id) %r."
+                % (future.utils.bytes_to_native_str(name, 'latin-1'),))
 
         name = ensure_native_str(name)
 
-- 
2.43.0


From c1aa773214cb67648519cb96b6158fc80d439e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 04/54] fix: logging messages with non-UTF-8 arguments no
 longer breaks handling (server)

---
 katcp/server.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index f9190e2..f3761ee 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -554,7 +554,7 @@ class KATCPServer(object):
                     if msg:  # Ignore empty messages (i.e empty lines)
                         yield self._device.on_message(client_conn, msg)
                 except Exception:
-                    self._logger.error('Error handling message {0!s}'
+                    self._logger.error('Error handling message {0!r}'
                                        .format(msg), exc_info=True)
                 # Allow the ioloop to run since we may be starving it if
                 # there is buffered data in the stream, resulting in yield
@@ -648,7 +648,7 @@ class KATCPServer(object):
         except Exception:
             addr = self.get_address(stream)
             self._logger.warn('Could not send message {0!r} to {1}'
-                              .format(str(msg), addr), exc_info=True)
+                              .format(msg, addr), exc_info=True)
             stream.close(exc_info=True)
 
     def flush_on_close(self, stream):
@@ -858,7 +858,7 @@ class MessageHandlerThread(object):
                             ready_future.set_result(res)
                     except Exception as e:
                         err_msg = ('Error calling message '
-                                   'handler for msg:\n {0!s}'.format(msg))
+                                   'handler for msg:\n {0!r}'.format(msg))
                         self._logger.error(err_msg, exc_info=True)
                         client_conn.inform(self.log_inform_formatter(
                             'error', 'See device logs:\n' + err_msg, 'root'))
@@ -1024,7 +1024,7 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
 
         """
         # log messages received so that no one else has to
-        self._logger.debug('received: {0!s}'.format(msg))
+        self._logger.debug('received: {0!r}'.format(msg))
 
         if msg.mtype == msg.REQUEST:
             return self.handle_request(client_conn, msg)
-- 
2.43.0


From 98d4f86f5c72a6bf53a4e5da6670d67f481ac95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:15 +0000
Subject: [PATCH 05/54] fix: logging messages with non-UTF-8 arguments no
 longer breaks handling (client)

---
 katcp/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index a34191e..896d2d6 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -438,7 +438,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
             return self._stream.write(data)
         except Exception:
             self._logger.warn('Could not send message {0!r} to {1!r}'
-                              .format(str(msg), self._bindaddr), exc_info=True)
+                              .format(msg, self._bindaddr), exc_info=True)
             self._disconnect(exc_info=True)
 
     @gen.coroutine
@@ -545,7 +545,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         if self._logger.isEnabledFor(logging.DEBUG):
             self._logger.debug(
                 "received from {}: {}"
-                .format(self.bind_address_string, repr(str(msg))))
+                .format(self.bind_address_string, repr(msg)))
 
         if msg.mtype == Message.INFORM:
             return self.handle_inform(msg)
@@ -760,7 +760,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                 except Exception:
                     self._logger.exception(
                         'Unhandled exception in handle_message() from {0} for '
-                        'message {1!r}'.format(self.bind_address_string, str(msg)))
+                        'message {1!r}'.format(self.bind_address_string, msg))
 
         self._disconnect()
 
-- 
2.43.0


From 98995ed72cb8de46b9024d263a4a084336d9b2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 06/54] fix: server does not process the previous line again
 after a failed read

---
 katcp/server.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index f3761ee..e53dfd4 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -534,9 +534,10 @@ class KATCPServer(object):
                     # Assume that _stream_closed_callback() will handle this
                     break
                 except Exception:
-                        self._logger.warn('Unhandled Exception '
-                                          'while reading from client {0}:'
-                                          .format(client_address), exc_info=True)
+                    line = b''  # Do not process the previous line again
+                    self._logger.warn('Unhandled Exception '
+                                      'while reading from client {0}:'
+                                      .format(client_address), exc_info=True)
                 try:
                     line = line.replace(b"\r", b"\n").split(b"\n")[0]
                     msg = self._parser.parse(line) if line else None
-- 
2.43.0


From 7def979a6cf12814e7255f00dfb04dc85278c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 07/54] fix: log level 'all' (and 'off' informs) map to a
 Python logging level

---
 katcp/server.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index e53dfd4..424f5d3 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2537,6 +2537,7 @@ class DeviceLogger(object):
 
     ## @brief Map of Python logging level to corresponding to KATCP levels
     PYTHON_LEVEL = {
+        ALL: 0,
         TRACE: 0,
         DEBUG: logging.DEBUG,
         INFO: logging.INFO,
@@ -2707,9 +2708,11 @@ class DeviceLogger(object):
         """
         (level, timestamp, name, message) = tuple(msg.arguments)
         log_string = "%s %s: %s" % (timestamp, name, message)
-        logger.log({b"trace": 0,
+        logger.log({b"all": 0,
+                    b"trace": 0,
                     b"debug": logging.DEBUG,
                     b"info": logging.INFO,
                     b"warn": logging.WARN,
                     b"error": logging.ERROR,
-                    b"fatal": logging.FATAL}[level], log_string)
+                    b"fatal": logging.FATAL,
+                    b"off": logging.FATAL + 10}[level], log_string)
-- 
2.43.0


From 6136c4ae158220aafb3b4a0de4749ce6be4525ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 08/54] fix: log text that is not a valid format string is
 still sent

---
 katcp/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 424f5d3..41691f5 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2657,8 +2657,9 @@ class DeviceLogger(object):
                 name = self._root_logger_name
             try:
                 inform_msg = msg % args
-            except TypeError:
-                # Catch the "not enough arguments for format string" exception.
+            except (TypeError, ValueError):
+                # Catch the "not enough arguments for format string" exception
+                # and text that is not a valid format string, e.g. "100%".
                 inform_msg = "{} {}".format(
                     msg,
                     args if args else '').strip()
-- 
2.43.0


From f8a689356ec7102832bbf0f69e1dc9ed3375e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 09/54] fix: report v4 sampling periods without losing a
 millisecond to float truncation

---
 katcp/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 41691f5..3703544 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2370,7 +2370,7 @@ class DeviceServer(DeviceServerBase):
         if katcp_version < SEC_TS_KATCP_MAJOR and strategy == b'period':
             # Another slightly nasty hack, but since period is the only
             # v4 strategy involving timestamps it's not _too_ nasty :)
-            params = [int(float(params[0]) * SEC_TO_MS_FAC)] + params[1:]
+            params = [int(round(float(params[0]) * SEC_TO_MS_FAC))] + params[1:]
 
         # Let the ioloop run so that the #sensor-status inform is sent before
         # the reply. Not strictly necessary, but a number of tests depend on
-- 
2.43.0


From f52dc7b91b85c47ce4d5881d3e691b83678f87a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:46 +0000
Subject: [PATCH 10/54] fix: a cancelled sampling strategy sends nothing and
 leaves no observer or timer behind

---
 katcp/sampling.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 14fed93..9f25508 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -57,9 +57,11 @@ def update_in_ioloop(update):
     @wraps(update)
     def wrapped_update(self, sensor, reading):
         if get_thread_ident() == self._ioloop_thread_id:
-            update(self, sensor, reading)
+            # May have been cancelled while this call was queued on the ioloop
+            if not self._cancelled:
+                update(self, sensor, reading)
         else:
-            self.ioloop.add_callback(update, self, sensor, reading)
+            self.ioloop.add_callback(wrapped_update, self, sensor, reading)
 
     return wrapped_update
 
@@ -104,6 +106,9 @@ class SampleStrategy(object):
     OBSERVE_UPDATES = False
     "True if a strategy must be attached to its sensor as an observer"
 
+    _cancelled = False
+    "True from cancel() on, so that callbacks still queued on the ioloop do nothing"
+
     def __init__(self, inform_callback, sensor, *params, **kwargs):
         self.ioloop = kwargs.get('ioloop') or tornado.ioloop.IOLoop.current()
         self._inform_callback = inform_callback
@@ -239,6 +244,7 @@ class SampleStrategy(object):
 
     def cancel(self):
         """Detach strategy from its sensor and cancel ioloop callbacks."""
+        self._cancelled = True
         if self.OBSERVE_UPDATES:
             self.detach()
         self.ioloop.add_callback(self.cancel_timeouts)
@@ -252,14 +258,18 @@ class SampleStrategy(object):
         :attr:`_ioloop_thread_id` using `thread.get_ident()`.
 
         """
+        self._cancelled = False
+
         def first_run():
             self._ioloop_thread_id = get_thread_ident()
-            if self.OBSERVE_UPDATES:
+            if self.OBSERVE_UPDATES and not self._cancelled:
                 self.attach()
         self.ioloop.add_callback(first_run)
 
     def inform(self, reading):
         """Inform strategy creator of the sensor status."""
+        if self._cancelled:
+            return
         try:
             self._inform_callback(self._sensor, reading)
         except Exception:
@@ -374,16 +384,21 @@ class SamplePeriod(SampleStrategy):
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
         self._period = period
+        self.next_timeout_handle = None
 
     def start(self):
         super(SamplePeriod, self).start()
         def start_periodic_sampling():
+            if self._cancelled:
+                return
             self.next_time = self.ioloop.time()
             self._run_once()
         self.ioloop.add_callback(start_periodic_sampling)
 
     def _run_once(self):
         assert get_thread_ident() == self._ioloop_thread_id
+        if self._cancelled:
+            return
         now = self.ioloop.time()
         self.inform(self._sensor.read())
         self.next_time += self._period
@@ -397,7 +412,8 @@ class SamplePeriod(SampleStrategy):
         return SampleStrategy.PERIOD
 
     def cancel_timeouts(self):
-        self.ioloop.remove_timeout(self.next_timeout_handle)
+        if self.next_timeout_handle:
+            self.ioloop.remove_timeout(self.next_timeout_handle)
 
 
 class SampleEventRate(SampleStrategy):
@@ -426,6 +442,7 @@ class SampleEventRate(SampleStrategy):
                              "satisfy 0 <= shortest_period <= longest_period")
         self._shortest_period = shortest_period
         self._short_timeout_handle = None
+        self._periodic_timeout_handle = None
         self._longest_period = longest_period
         # don't send updates until timestamp _not_before
         self._not_before = 0
@@ -443,6 +460,8 @@ class SampleEventRate(SampleStrategy):
         self.ioloop.add_callback(self._periodic_sampling)
 
     def _periodic_sampling(self):
+        if self._cancelled:
+            return
         if self._not_after >= AGE_OF_UNIVERSE:
             # Ignore stupidly long periods
             self._periodic_timeout_handle = None
-- 
2.43.0


From 3e184633be9e053dfa5c9f2b42a857b756c9da12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 11/54] fix: refuse sampling parameters that are not a number,
 and negative differences

---
 katcp/sampling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 9f25508..248f004 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -341,7 +341,7 @@ class SampleDifferential(SampleStrategy):
                 raise ValueError("The diff amount must be a positive integer.")
         elif sensor._sensor_type == Sensor.FLOAT:
             self._threshold = float(params[0])
-            if self._threshold <= 0:
+            if not self._threshold > 0:
                 raise ValueError("The diff amount must be a positive float.")
         else:
             # _sensor_type must be Sensor.TIMESTAMP
@@ -350,7 +350,7 @@ class SampleDifferential(SampleStrategy):
             # the timestamp sensor type should be in milliseconds. For now, just
             # ignore this eventuality, and fix if anyone actually needs this
             self._threshold = float(params[0])
-            if self._threshold <= 0:
+            if not self._threshold > 0:
                 raise ValueError("The diff amount must be a positive number "
                                  "of seconds.")
         self._lastStatus = None
@@ -379,7 +379,7 @@ class SamplePeriod(SampleStrategy):
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
         period = float(params[0])
-        if period <= 0:
+        if not period > 0:
             raise ValueError("The period must be a positive float in seconds. "
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
@@ -561,6 +561,8 @@ class SampleDifferentialRate(SampleEventRate):
         else:
             raise ValueError('The differential-rate strategy can only be '
                              'defined for integer or float sensors')
+        if not difference >= 0:
+            raise ValueError('The difference must not be negative.')
         self.difference = difference
         # Initial value that should not cause errors in _sensor_changed(),
         # but should let it return True
-- 
2.43.0


From 273317547b5b724becfd03a852c696812e3a237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 12/54] fix: a bulk sampling request naming a sensor twice
 starts its strategy once

---
 katcp/server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 3703544..2560e0c 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2430,13 +2430,17 @@ class DeviceServer(DeviceServerBase):
         for name in names:
             sensor = self._sensors[name]
 
+            new_strategy = requested_strategies[name]
+            if self._strategies[client].get(sensor) is new_strategy:
+                # This sensor was named more than once in the request
+                continue
+
             # Remove and cancel old strategy
             old_strategy = self._strategies[client].pop(sensor, None)
             if old_strategy:
                 old_strategy.cancel()
 
             # Replace with new strategy
-            new_strategy = requested_strategies[name]
             if not isinstance(new_strategy, SampleNone):
                 self._strategies[client][sensor] = new_strategy
                 new_strategy.start()
-- 
2.43.0


From 3af479ac1a4505262bb0edd4bb1fcf52588a971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 13/54] fix: an address followed by a newline is not an address

---
 katcp/kattypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index b05e82f..50112c8 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -374,8 +374,8 @@ class Address(KatcpType):
 
     NULL = ("0.0.0.0", None)  # null address for use as an initial value
 
-    IPV4_RE = re.compile(br"^(?P<host>[^:]*)(:(?P<port>\d+))?$")
-    IPV6_RE = re.compile(br"^\[(?P<host>[^[]*)\](:(?P<port>\d+))?$")
+    IPV4_RE = re.compile(br"^(?P<host>[^:]*)(:(?P<port>\d+))?\Z")
+    IPV6_RE = re.compile(br"^\[(?P<host>[^[]*)\](:(?P<port>\d+))?\Z")
 
     def encode(self, value, major):
         try:
-- 
2.43.0


From 03f04ba5fc2b66be99c3ed2238d870c13517e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 14/54] fix: very small and very large strict timestamps can be
 read back

---
 katcp/kattypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index 50112c8..23085bb 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -10,6 +10,7 @@ from __future__ import absolute_import, division, print_function
 from future import standard_library
 standard_library.install_aliases()  # noqa: E402
 
+import decimal
 import inspect
 import itertools
 import logging
@@ -463,7 +464,11 @@ class StrictTimestamp(KatcpType):
 
     def encode(self, value, major):
         if isinstance(value, numbers.Real):
-            return b"%r" % value
+            raw = repr(value)
+            if isinstance(value, float) and 'e' in raw:
+                # decode() does not accept an exponent
+                raw = '{:f}'.format(decimal.Decimal(raw))
+            return raw.encode('ascii')
         else:
             raise ValueError("Could not encode value '%r' as strict timestamp." %
                              value)
-- 
2.43.0


From 81e72ff1b83ed6900264815c9ae8187cf0a529b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 15/54] fix: packing a parameter checks it and uses its
 protocol version

---
 katcp/kattypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index 23085bb..058ae9f 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -632,7 +632,7 @@ class Parameter(object):
             The unescaped KATCP string representing the value.
 
         """
-        return self._kattype.pack(value, self.major)
+        return self._kattype.pack(value, major=self.major)
 
     def unpack(self, value):
         """Unpack the parameter using its kattype.
-- 
2.43.0


From 01a694b9bdc7e986b2f50beeb9e91ce7c2578166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 16/54] fix: an empty list of discrete values can be read back

---
 katcp/kattypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index 058ae9f..d6e96a7 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -583,6 +583,9 @@ class DiscreteMulti(Discrete):
         joined_values = super(DiscreteMulti, self).decode(value, major)
         if self.all_keyword and joined_values == self.all_keyword:
             return sorted(list(self._valid_values), key=str.lower)
+        if not joined_values and '' not in self._valid_values:
+            # What encode() makes of an empty list
+            return []
         return sorted([v.strip() for v in joined_values.split(self.separator)],
                       key=str.lower)
 
-- 
2.43.0


From 5145a7b022dc5ac6b2c5850d2fe5873f13b47d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 17/54] fix: a request failing with text that UTF-8 does not
 allow still gets its reply

---
 katcp/server.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 2560e0c..42ede2c 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -41,6 +41,7 @@ from tornado.util import ObjectDict
 # does not exist at this stage
 import katcp
 
+from .compat import is_text
 from .core import (DEFAULT_KATCP_MAJOR, MS_TO_SEC_FAC, SEC_TO_MS_FAC,
                    SEC_TS_KATCP_MAJOR, VERSION_CONNECT_KATCP_MAJOR, AsyncReply,
                    DeviceServerMetaclass, FailReply, Message, MessageParser,
@@ -112,6 +113,14 @@ def construct_name_filter(pattern):
     return True, lambda name: name == pattern
 
 
+def failure_reply(req_name, reason):
+    """Construct a fail reply, whatever text the reason contains."""
+    if is_text(reason):
+        # Text from exceptions may contain characters that UTF-8 does not allow
+        reason = reason.encode('utf-8', 'backslashreplace')
+    return Message.reply(req_name, "fail", reason)
+
+
 class ClientConnection(object):
     """Encapsulates the connection between a single client and the server."""
 
@@ -1081,7 +1090,7 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
                             reason = str(e)
                             self._logger.error("Request %s FUTURE%s FAIL: %s",
                                                msg.name, concurrent_str, reason)
-                            reply = Message.reply(msg.name, "fail", reason)
+                            reply = failure_reply(msg.name, reason)
                             connection.reply(reply, msg)
                         except AsyncReply:
                             self._logger.debug("%s FUTURE ASYNC OK"
@@ -1119,7 +1128,7 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
             except FailReply as e:
                 reason = str(e)
                 self._logger.error("Request %s FAIL: %s" % (msg.name, reason))
-                reply = Message.reply(msg.name, "fail", reason)
+                reply = failure_reply(msg.name, reason)
             except Exception:
                 reply = self.create_exception_reply_and_log(msg, sys.exc_info())
         else:
@@ -1134,7 +1143,7 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
         reason = "\n".join(traceback.format_exception(
             e_type, e_value, trace, self._tb_limit))
         self._logger.error("Request %s FAIL: %s" % (req_msg.name, reason))
-        return Message.reply(req_msg.name, "fail", reason)
+        return failure_reply(req_msg.name, reason)
 
     def handle_inform(self, connection, msg):
         """Dispatch an inform message to the appropriate method.
-- 
2.43.0


From 6becd0811836c139baa193942b3fcf16ccb30128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:14 +0000
Subject: [PATCH 18/54] fix: a request that finds the handler thread's queue
 full gets a fail reply

---
 katcp/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/katcp/server.py b/katcp/server.py
index 42ede2c..6aa918e 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -841,6 +841,10 @@ class MessageHandlerThread(object):
             # This should never happen if callers to handle_message wait
             # for its futures to resolve before sending another message.
             # NM 2014-10-06: Except when there are multiple clients. Oops.
+            if msg.mtype == Message.REQUEST:
+                # The request must still get a reply
+                client_conn.reply(Message.reply_to_request(
+                    msg, 'fail', 'Too many requests are waiting.'), msg)
             raise RuntimeError('MessageHandlerThread unhandled '
                                'message queue full, not handling message')
         ready_future = Future()
-- 
2.43.0


From 31d4951286264717fd42fc0837614cbc6816e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 19/54] fix: a request handle refuses replies and informs after
 the reply through saved methods too

---
 katcp/server.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 6aa918e..5a4a472 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -766,12 +766,17 @@ class ClientRequestConnection(object):
         assert(req_msg.mtype == Message.REQUEST)
         self.msg = req_msg
         self.mass_inform = client_connection.mass_inform
+        self._replied = False
 
     def inform(self, *args):
+        if self._replied:
+            return self.inform_after_reply(*args)
         inf_msg = Message.reply_inform(self.msg, *args)
         return self.client_connection.inform(inf_msg)
 
     def reply(self, *args):
+        if self._replied:
+            return self.reply_again(*args)
         rep_msg = Message.reply_to_request(self.msg, *args)
         self._post_reply()
         return self.client_connection.reply(rep_msg, self.msg)
@@ -782,11 +787,15 @@ class ClientRequestConnection(object):
         Will check that rep_msg.name matches the bound request.
 
         """
+        if self._replied:
+            return self.reply_again(rep_msg)
         self._post_reply()
         return self.client_connection.reply(rep_msg, self.msg)
 
     def _post_reply(self):
-        # Future calls to reply_*() and inform() should error out.
+        # Future calls to reply_*() and inform() should error out, also through
+        # bound methods that were obtained before the reply (e.g. in callbacks)
+        self._replied = True
         self.reply = self.reply_again
         self.reply_with_message = self.reply_again
         self.inform = self.inform_after_reply
-- 
2.43.0


From 41c5346d692721312f35b6cd01416d1d28bb250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 20/54] Revert 5145a7b: text that UTF-8 does not allow was
 already replaced, so every reply was sent

---
 katcp/server.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 5a4a472..0be8750 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -41,7 +41,6 @@ from tornado.util import ObjectDict
 # does not exist at this stage
 import katcp
 
-from .compat import is_text
 from .core import (DEFAULT_KATCP_MAJOR, MS_TO_SEC_FAC, SEC_TO_MS_FAC,
                    SEC_TS_KATCP_MAJOR, VERSION_CONNECT_KATCP_MAJOR, AsyncReply,
                    DeviceServerMetaclass, FailReply, Message, MessageParser,
@@ -113,14 +112,6 @@ def construct_name_filter(pattern):
     return True, lambda name: name == pattern
 
 
-def failure_reply(req_name, reason):
-    """Construct a fail reply, whatever text the reason contains."""
-    if is_text(reason):
-        # Text from exceptions may contain characters that UTF-8 does not allow
-        reason = reason.encode('utf-8', 'backslashreplace')
-    return Message.reply(req_name, "fail", reason)
-
-
 class ClientConnection(object):
     """Encapsulates the connection between a single client and the server."""
 
@@ -1103,7 +1094,7 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
                             reason = str(e)
                             self._logger.error("Request %s FUTURE%s FAIL: %s",
                                                msg.name, concurrent_str, reason)
-                            reply = failure_reply(msg.name, reason)
+                            reply = Message.reply(msg.name, "fail", reason)
                             connection.reply(reply, msg)
                         except AsyncReply:
                             self._logger.debug("%s FUTURE ASYNC OK"
@@ -1141,7 +1132,7 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
             except FailReply as e:
                 reason = str(e)
                 self._logger.error("Request %s FAIL: %s" % (msg.name, reason))
-                reply = failure_reply(msg.name, reason)
+                reply = Message.reply(msg.name, "fail", reason)
             except Exception:
                 reply = self.create_exception_reply_and_log(msg, sys.exc_info())
         else:
@@ -1156,7 +1147,7 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
         reason = "\n".join(traceback.format_exception(
             e_type, e_value, trace, self._tb_limit))
         self._logger.error("Request %s FAIL: %s" % (req_msg.name, reason))
-        return failure_reply(req_msg.name, reason)
+        return Message.reply(req_msg.name, "fail", reason)
 
     def handle_inform(self, connection, msg):
         """Dispatch an inform message to the appropriate method.
-- 
2.43.0


From 5c493794e28438eb6858769c3a75a9ad0f3e5a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:04 +0000
Subject: [PATCH 21/54] fix: do not cut off a client that is being disconnected
 when sending to it fails

---
 katcp/server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 0be8750..a05d7f6 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -650,7 +650,10 @@ class KATCPServer(object):
             addr = self.get_address(stream)
             self._logger.warn('Could not send message {0!r} to {1}'
                               .format(msg, addr), exc_info=True)
-            stream.close(exc_info=True)
+            # A closing stream will be closed once it is flushed, closing it now
+            # would lose what the client has yet to receive
+            if not getattr(stream, 'KATCPServer_closing', False):
+                stream.close(exc_info=True)
 
     def flush_on_close(self, stream):
         """Flush tornado iostream write buffer and prevent further writes.
-- 
2.43.0


From d89cd01ee597376b9024269993af9916d82b304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:02 +0000
Subject: [PATCH 22/54] fix: a second disconnection of a client does not cut
 the first one short

---
 katcp/server.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index a05d7f6..43b0182 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -119,6 +119,8 @@ class ClientConnection(object):
         self._server = server
         self._conn_key = conn_id
         self._disconnect_called = False
+        # Resolves when the disconnection of this client is done with
+        self.disconnected = tornado_Future()
         self._get_address = partial(server.get_address, conn_id)
         self._send_message = partial(server.send_message, conn_id)
         self._mass_send_message = server.mass_send_message
@@ -598,7 +600,11 @@ class KATCPServer(object):
                     self._logger.error('Error while calling '
                                        'on_client_disconnect for client {0}'
                                        .format(address), exc_info=True)
-
+                finally:
+                    conn.disconnected.set_result(None)
+            elif stream_open:
+                # Already being disconnected, do not cut that short
+                yield conn.disconnected
         finally:
             # Make sure stream is closed.
             stream.close()
-- 
2.43.0


From 6664872fc3efc4eda71b66756e887ad0d35fd2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 23/54] fix: an infinite period under version 4 is refused
 before it takes effect

---
 katcp/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/katcp/server.py b/katcp/server.py
index 43b0182..ada77e8 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -13,6 +13,7 @@ from future import standard_library
 standard_library.install_aliases()  # noqa E402
 
 import logging
+import math
 import re
 import socket
 import sys
@@ -2370,6 +2371,9 @@ class DeviceServer(DeviceServerBase):
                 # Slightly nasty hack, but since period is the only v4 strategy
                 # involving timestamps it's not _too_ nasty :)
                 params = [float(params[0]) * MS_TO_SEC_FAC] + params[1:]
+                if math.isinf(params[0] * SEC_TO_MS_FAC):
+                    # Could not be reported as a number of milliseconds below
+                    raise FailReply("The sampling period must be finite.")
             new_strategy = SampleStrategy.get_strategy(
                 strategy, inform_callback, sensor, *params, ioloop=self.ioloop)
 
-- 
2.43.0


From 16f8bf6dddd796e121748de06209a71a366e2125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 24/54] fix: an update set by another thread while a sampling
 strategy starts is not lost

---
 katcp/sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 248f004..a1c085f 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -235,8 +235,9 @@ class SampleStrategy(object):
     def attach(self):
         """Attach strategy to its sensor and send initial update."""
         s = self._sensor
+        # Attach first, or an update from another thread could get lost
+        s.attach(self)
         self.update(s, s.read())
-        self._sensor.attach(self)
 
     def detach(self):
         """Detach strategy from its sensor."""
-- 
2.43.0


From 466ac32993c3e9e5a426da169699a14322a69279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 25/54] fix: event-rate: a change right after a late update is
 not held back until the maximum period

---
 katcp/sampling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index a1c085f..b50a7c8 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -477,6 +477,10 @@ class SampleEventRate(SampleStrategy):
         self._short_timeout_handle = None
         if (self.ioloop.time() >= self._not_before):
             self.inform(self._sensor.read())
+        else:
+            # An update was sent after this callback was scheduled, so it is
+            # too early again for a change that came after that update
+            self.update(self._sensor, self._sensor.read())
 
     def _sensor_changed(self, reading):
         _, status, value = reading
-- 
2.43.0


From 3403cfc31c509a41bd54f33f26ef98e9885015b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 26/54] fix: a sensor removed from within the ioloop is not
 sampled any more at once

---
 katcp/server.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index ada77e8..da0f147 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -1699,7 +1699,12 @@ class DeviceServer(DeviceServerBase):
                 strategy = conn_strategies.pop(sensor, None)
                 if strategy:
                     strategy.cancel()
-        self.ioloop.add_callback(cancel_sensor_strategies)
+
+        if self._server.in_ioloop_thread():
+            # At once, since the sensor may be updated before the next callback
+            cancel_sensor_strategies()
+        else:
+            self.ioloop.add_callback(cancel_sensor_strategies)
 
     def get_sensor(self, sensor_name):
         """Fetch the sensor with the given name.
-- 
2.43.0


From 9d9b42330358d07e9e64cf492988d060f1ab676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 27/54] fix: listing the clients while one comes or goes failed
 part way

---
 katcp/server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index da0f147..5eb1a09 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2031,7 +2031,9 @@ class DeviceServer(DeviceServerBase):
         """
         # TODO Get list of ClientConnection* instances and implement a standard
         # 'address-print' method in the ClientConnection class
-        clients = self._client_conns
+        # A copy, since clients come and go on the ioloop while this may run in
+        # the handler thread
+        clients = list(self._client_conns)
         num_clients = len(clients)
         for conn in clients:
             addr = conn.address
-- 
2.43.0


From f899ad644d39d66652278b5459da3f33615d9e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 28/54] fix: a timeout hint query for the empty name was
 answered as one for all requests

---
 katcp/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 5eb1a09..63d900a 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -1913,7 +1913,7 @@ class DeviceServer(DeviceServerBase):
 
         """
         timeout_hints = {}
-        if request:
+        if request is not None:
             request = ensure_native_str(request)
             if request not in self._request_handlers:
                 raise FailReply('Unknown request method')
-- 
2.43.0


From c92f47925bf3b02256f5f30d6819792473ae6656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 29/54] fix: until_any made its futures skip the callback of
 the next waiter

---
 katcp/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index 0a1caf1..3a89959 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -1914,7 +1914,9 @@ def until_any(*futures, **kwargs):
             # used together with AsyncState.until_state(). Also addresses Jira issue
             # CM-593
             for f in futures:
-                if f._callbacks:
+                # done_future is still calling its callbacks, removing one of them
+                # now would make it skip the next one
+                if f is not done_future and f._callbacks:
                     try:
                         f._callbacks.remove(handle_done)
                     except ValueError:
-- 
2.43.0


From fff0b74db96ccef0fb463dfe5915357082e4c932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 30/54] fix: a wait with timeout 0 waited for ever

---
 katcp/client.py |  4 ++--
 katcp/core.py   | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 896d2d6..62d7cc2 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1014,7 +1014,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         t0 = self.ioloop.time()
         yield self.until_running(timeout=timeout)
         t1 = self.ioloop.time()
-        if timeout:
+        if timeout is not None:
             timedelta = timeout - (t1 - t0)
         else:
             timedelta = None
@@ -1072,7 +1072,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         t0 = self.ioloop.time()
         yield self.until_running(timeout=timeout)
         t1 = self.ioloop.time()
-        if timeout:
+        if timeout is not None:
             timedelta = timeout - (t1 - t0)
         else:
             timedelta = None
diff --git a/katcp/core.py b/katcp/core.py
index 3a89959..baa8947 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -1657,7 +1657,7 @@ class AsyncEvent(object):
 
     def until_set(self, timeout=None):
         if not self._flag:
-            if timeout:
+            if timeout is not None:
                 return with_timeout(self._ioloop.time() + timeout,
                                     self._waiting_future,
                                     self._ioloop)
@@ -1781,7 +1781,7 @@ class AsyncState(object):
             raise ValueError('State must be one of {0}, not {1}'
                              .format(self._valid_states, state))
         if state != self._state:
-            if timeout:
+            if timeout is not None:
                 return with_timeout(self._ioloop.time() + timeout,
                                     self._waiting_futures[state],
                                     self._ioloop)
@@ -1927,7 +1927,7 @@ def until_any(*futures, **kwargs):
         if any_future.done():
             break
 
-    if timeout:
+    if timeout is not None:
         return with_timeout(ioloop.time() + timeout, any_future, ioloop)
     else:
         return any_future
@@ -1974,11 +1974,11 @@ def future_timeout_manager(timeout=None, ioloop=None):
     t0 = ioloop.time()
 
     def _remaining():
-        return timeout - (ioloop.time() - t0) if timeout else None
+        return timeout - (ioloop.time() - t0) if timeout is not None else None
 
     def maybe_timeout(f):
         """Applies timeout if timeout is not None"""
-        if not timeout:
+        if timeout is None:
             return f
         else:
             remaining = _remaining()
-- 
2.43.0


From 3faa8bfd1dfd84ed6f0f295b7ce5713e8e708076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 31/54] fix: until_some(done_at_least=0) waited for one of the
 futures

---
 katcp/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/katcp/core.py b/katcp/core.py
index baa8947..cadb5e0 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -2028,11 +2028,9 @@ def until_some(*args, **kwargs):
     wait_iterator = tornado.gen.WaitIterator(*args, **kwargs)
     maybe_timeout = future_timeout_manager(timeout)
     results = []
-    while not wait_iterator.done():
+    while len(results) < done_at_least and not wait_iterator.done():
         result = yield maybe_timeout(wait_iterator.next())
         results.append((wait_iterator.current_index, result))
-        if len(results) >= done_at_least:
-            break
     raise tornado.gen.Return(results)
 
 
-- 
2.43.0


From 4daa7a006b5e45affce73bb8632695ddeca18cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:31 +0000
Subject: [PATCH 32/54] fix: AsyncCallbackEvent told its callback True when
 cleared

---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index cadb5e0..cf5753e 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -1723,7 +1723,7 @@ class AsyncCallbackEvent(AsyncEvent):
     def clear(self):
         super(AsyncCallbackEvent, self).clear()
         try:
-            self._callback(True)
+            self._callback(False)
         except Exception:
             logger.exception('Unhandled exception calling event change callback')
 
-- 
2.43.0


From c54d8f2188d2189c13e3f17c1ada582afb8e47ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:10 +0000
Subject: [PATCH 33/54] fix: a reply without message id stopped the timeout of
 a request sent with one, and did not find one sent without

---
 katcp/client.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 62d7cc2..b48e56f 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1234,13 +1234,14 @@ class AsyncClient(DeviceClient):
             return None, None, None, None, None
 
     def _msg_id_for_name(self, msg_name):
-        """Find the msg_id for a given request name.
+        """Find the msg_id of the oldest request of a given name sent without one.
 
-        Return None if no message id exists.
+        Return None if no such request exists.
 
         """
-        if msg_name in self._async_id_stack and self._async_id_stack[msg_name]:
-            return self._async_id_stack[msg_name][0]
+        for msg_id in self._async_id_stack.get(msg_name, []):
+            if self._async_queue[msg_id][0].mid is None:
+                return msg_id
 
     @make_threadsafe
     def callback_request(self, msg, reply_cb=None, inform_cb=None,
-- 
2.43.0


From 5aa95654adef9aea46ad70ae5e399b0eb6bd9fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:10 +0000
Subject: [PATCH 34/54] fix: a request that could not be sent was answered with
 a request message

---
 katcp/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/client.py b/katcp/client.py
index b48e56f..4ed1fd6 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1286,7 +1286,7 @@ class AsyncClient(DeviceClient):
         try:
             self.send_request(msg)
         except KatcpClientError as e:
-            error_reply = Message.request(msg.name, "fail", str(e))
+            error_reply = Message.reply(msg.name, "fail", str(e))
             error_reply.mid = mid
             self.handle_reply(error_reply)
 
-- 
2.43.0


From 807c47c8f84733821e8d593bc5d9b18749aa1f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:10 +0000
Subject: [PATCH 35/54] fix: a request with the message id of an outstanding
 one left that one pending for ever

---
 katcp/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/katcp/client.py b/katcp/client.py
index 4ed1fd6..fd1e93a 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1274,6 +1274,13 @@ class AsyncClient(DeviceClient):
 
         mid = self._get_mid_and_update_msg(msg, use_mid)
 
+        if mid in self._async_queue:
+            # Replies to the two could not be told apart
+            self._do_fail_callback(
+                'Message id %s is in use by an outstanding request' % ensure_native_str(mid),
+                msg, reply_cb, inform_cb, user_data, None)
+            return
+
         if timeout is None:  # deal with 'no timeout', i.e. None
             timeout_handle = None
         else:
-- 
2.43.0


From 2a9c568551307955db182eae31e5504a3b6a5be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:10 +0000
Subject: [PATCH 36/54] fix: request_check ignored the message id given

---
 katcp/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/client.py b/katcp/client.py
index fd1e93a..8cb56ff 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1596,7 +1596,7 @@ def request_check(client, exception, *msg_parms, **kwargs):
 
     """
     timeout = kwargs.get('timeout', None)
-    req_msg = Message.request(*msg_parms)
+    req_msg = Message.request(*msg_parms, mid=kwargs.get('mid'))
     if timeout is not None:
         reply, informs = client.blocking_request(req_msg, timeout=timeout)
     else:
-- 
2.43.0


From dbea98ad4e2a54307d370ed99641d0d618b8a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:38 +0000
Subject: [PATCH 37/54] fix: an automatic message id could be the one a caller
 chose for an outstanding request

---
 katcp/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/katcp/client.py b/katcp/client.py
index 8cb56ff..a7a8016 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1191,6 +1191,13 @@ class AsyncClient(DeviceClient):
         # msg_name -> [ list of msg_ids ]
         self._async_id_stack = {}
 
+    def _next_id(self):
+        """Return the next message id that no outstanding request uses."""
+        msg_id = super(AsyncClient, self)._next_id()
+        while msg_id in self._async_queue:
+            msg_id = super(AsyncClient, self)._next_id()
+        return msg_id
+
     def _push_async_request(self, msg_id, request, reply_cb, inform_cb,
                             user_data, timeout_handle):
         """Store reply / inform callbacks for request we've sent."""
-- 
2.43.0


From 35ab355504ce645438c72df6c21dbe784670fe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:22 +0000
Subject: [PATCH 38/54] fix: a request sent without message id took up a
 message id in the client's tables

---
 katcp/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/katcp/client.py b/katcp/client.py
index a7a8016..05af7bd 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1280,6 +1280,9 @@ class AsyncClient(DeviceClient):
             timeout = self._request_timeout
 
         mid = self._get_mid_and_update_msg(msg, use_mid)
+        if msg.mid is None:
+            # Only for our own tables, so it must not look like a message id
+            mid = b'-' + mid
 
         if mid in self._async_queue:
             # Replies to the two could not be told apart
-- 
2.43.0


From 144d4781f22d2dbe0a58c291717187cbc3b98cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:22 +0000
Subject: [PATCH 39/54] fix: a version announcement with text that is not UTF-8
 kept the protocol from being detected

---
 katcp/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 05af7bd..43f119a 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -290,13 +290,13 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         """Process a #version-connect message."""
         if len(msg.arguments) < 2:
             return
+        if msg.arguments[0] == b"katcp-protocol":
+            protocol_flags = ProtocolFlags.parse_version(msg.arguments[1])
+            self._set_protocol_from_inform(protocol_flags, msg)
         # Store version information.
         name = ensure_native_str(msg.arguments[0])
         self.versions[name] = tuple(
             ensure_native_str(arg) for arg in msg.arguments[1:])
-        if msg.arguments[0] == b"katcp-protocol":
-            protocol_flags = ProtocolFlags.parse_version(msg.arguments[1])
-            self._set_protocol_from_inform(protocol_flags, msg)
 
     def inform_version(self, msg):
         """Handle katcp v4 and below version inform."""
-- 
2.43.0


From 75acb84fbcf66271551fd6f172f6383ca788f975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:22 +0000
Subject: [PATCH 40/54] fix: request() returned a message id when none was used

---
 katcp/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 43f119a..68eed3b 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -396,9 +396,9 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         will be raised.
 
         """
-        mid = self._get_mid_and_update_msg(msg, use_mid)
+        self._get_mid_and_update_msg(msg, use_mid)
         self.send_request(msg)
-        return mid
+        return msg.mid
 
     def send_request(self, msg):
         """Send a request message.
-- 
2.43.0


From 57f99b2fd70ba40d376583a212b2daf88b2b9b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 41/54] fix: a contradicting version announcement with text
 that is not UTF-8 was ignored

---
 katcp/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 68eed3b..f1f9b40 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -318,6 +318,8 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
             # New value matches old, no need to do consistency checking
             return
         if self.protocol_flags:
+            old = self.protocol_flags
+            old_version = (old.major, old.minor, sorted(old.flags))
             # It seems that the protocol flags have been set before.
             # Now we need to do some consistency checking.
             if self._static_protocol_configuration:
@@ -327,7 +329,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                     'server indicating a katcp protocol revision inconsistent '
                     'with the static configuration. Static configuration: %r.'
                     'Inform received: %r' % (
-                        str(self.protocol_flags), str(inform)))
+                        old_version, bytes(inform)))
                 return
             else:
                 # Log an error and disconnect if we are in auto-detection mode
@@ -336,7 +338,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                     'server indicating a katcp protocol revision inconsistent '
                     'with the previously detected version. Disconnecting in '
                     'disgust. Previous version: %r. Inform received: %r' % (
-                        str(self.protocol_flags), str(inform)))
+                        old_version, bytes(inform)))
                 # Prevent an infinite loop
                 self._auto_reconnect = False
                 self._disconnect()
-- 
2.43.0


From e83b697b5a28697a7ffa17c20db1e0c688020ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:24 +0000
Subject: [PATCH 42/54] fix: deregistering a sensor left aggregates in both
 states or with the sensor gone

---
 katcp/sensortree.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/katcp/sensortree.py b/katcp/sensortree.py
index aa08f4f..0fba9c0 100644
--- a/katcp/sensortree.py
+++ b/katcp/sensortree.py
@@ -450,24 +450,22 @@ class AggregateSensorTree(GenericSensorTree):
                              " tree" % child_name)
         child = self._registered_sensors[child_name]
         del self._registered_sensors[child_name]
-        try:
-            parents = self.parents(child)
-            for parent in parents:
-                if parent in self._incomplete_aggregates:
-                    (rule, names, sensors) = self._incomplete_aggregates[parent]
-                    names.add(child_name)
-                else:
-                    (rule, sensors) = self._aggregates[parent]
-                    names = set()
-                    names.add(child_name)
+        # Aggregates still waiting for other sensors have to wait for this one too
+        for _rule, names, sensors in self._incomplete_aggregates.values():
+            if child in sensors:
                 sensors.discard(child)
-                self._incomplete_aggregates[parent] = (rule, names, sensors)
-                self.remove_links(parent, [child])
-                self.remove(parent)
-                if parent.stype == 'bool':
-                    parent.set_value(False)
-        except ValueError:
-            pass
+                names.add(child_name)
+        if child not in self:
+            return
+        for parent in self.parents(child):
+            rule, children = self._aggregates[parent]
+            sensors = set(children)
+            sensors.discard(child)
+            # The rule is applied to the sensors that are left
+            self._aggregates[parent] = (rule, sensors)
+            self.remove(parent)
+            self._incomplete_aggregates[parent] = (
+                rule, set([child_name]), sensors)
 
     def _child_from_reference(self, reference):
         """Returns the child sensor from its reference.
-- 
2.43.0


From 8f28ed74d390a97da0bad82e1573c013fbe13088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:24 +0000
Subject: [PATCH 43/54] fix: removing a link a boolean tree does not have
 raised KeyError or changed the parent

---
 katcp/sensortree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/katcp/sensortree.py b/katcp/sensortree.py
index 0fba9c0..0b0f861 100644
--- a/katcp/sensortree.py
+++ b/katcp/sensortree.py
@@ -282,6 +282,8 @@ class BooleanSensorTree(GenericSensorTree):
             The sensor parent used to depend on.
 
         """
+        if parent not in self or child not in self.children(parent):
+            return      # links that don't exist are ignored
         self.remove_links(parent, (child,))
         if parent not in self and parent in self._parent_to_not_ok:
             del self._parent_to_not_ok[parent]
-- 
2.43.0


From 6524fe12bc3776c302fcb99b641acd5b187b456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:24 +0000
Subject: [PATCH 44/54] fix: a link removed while an update was told made
 setting the sensor raise

---
 katcp/sensortree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/katcp/sensortree.py b/katcp/sensortree.py
index 0b0f861..a7f980a 100644
--- a/katcp/sensortree.py
+++ b/katcp/sensortree.py
@@ -56,9 +56,11 @@ class GenericSensorTree(object):
             Sensor reading as would be returned by sensor.read()
 
         """
-        parents = list(self._child_to_parents[sensor])
+        parents = list(self._child_to_parents.get(sensor, ()))
         for parent in parents:
-            self.recalculate(parent, (sensor,))
+            # The link may have been removed while the update was being told
+            if parent in self._child_to_parents.get(sensor, ()):
+                self.recalculate(parent, (sensor,))
 
     def recalculate(self, parent, updates):
         """Re-calculate the value of parent sensor.
-- 
2.43.0


From b3e5420488f623504234b23616cf8ddba8d84397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:56 +0000
Subject: [PATCH 45/54] fix: keep the previous descriptions when an inspection
 fails part way

inspect() restored shallow copies of its indexes, so items updated in place
kept the new data and the change was never reported by the retry.
---
 katcp/inspecting_client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 4de6faa..52d1fb9 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -8,7 +8,6 @@ from __future__ import absolute_import, division, print_function
 from future import standard_library
 standard_library.install_aliases()  # noqa: E402
 
-import copy
 import logging
 import random
 
@@ -597,8 +596,11 @@ class InspectingClientAsync(object):
 
         """
         timeout_manager = future_timeout_manager(self.sync_timeout)
-        sensor_index_before = copy.copy(self._sensors_index)
-        request_index_before = copy.copy(self._requests_index)
+        # The items are updated in place, so copy them too
+        sensor_index_before = {
+            name: dict(data) for name, data in self._sensors_index.items()}
+        request_index_before = {
+            name: dict(data) for name, data in self._requests_index.items()}
         try:
             request_changes = yield self.inspect_requests(
                 timeout=timeout_manager.remaining())
-- 
2.43.0


From f5e611d5d15b3a27ad0d44d104d095afb9aa90fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:56 +0000
Subject: [PATCH 46/54] fix: drop the sensor or request object when its
 description changes

The object cached in the index was handed out after the change.
---
 katcp/inspecting_client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 52d1fb9..18d564a 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -556,6 +556,8 @@ class InspectingClientAsync(object):
                 if orig_data.get(key) != value:
                     orig_data[key] = value
                     orig_data['_changed'] = True
+                    # The object made from the old description is out of date
+                    orig_data.pop('obj', None)
 
     def handle_sensor_value(self):
         """Handle #sensor-value informs just like #sensor-status informs"""
-- 
2.43.0


From 0bed75e2a34232523ea165aebc9ef1f63ee1a72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:56 +0000
Subject: [PATCH 47/54] fix: do not leave the change flag in a request's data

request_factory is called with that data, so getting a request that had
changed raised TypeError.
---
 katcp/inspecting_client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 18d564a..86d2e91 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -1087,8 +1087,9 @@ class InspectingClientAsync(object):
         # Check the keys that was not added now or not lined up for removal,
         # and see if they changed.
         for key in updated_keys.difference(added_keys.union(removed_keys)):
-            if item_index[key].get('_changed'):
-                item_index[key]['_changed'] = False
+            # The flag is dropped, since an item's data is also what
+            # request_factory is called with
+            if item_index[key].pop('_changed', False):
                 removed_keys.add(key)
                 added_keys.add(key)
 
-- 
2.43.0


From c0ef1f065cf2017480e81b042abe833e74aee636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:57 +0000
Subject: [PATCH 48/54] fix: looking up an unknown request on a server with
 timeout hints

The server refuses to give the hint of a request it does not have, so the
lookup raised SyncError instead of finding nothing.
---
 katcp/inspecting_client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 86d2e91..a676cc3 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -669,8 +669,9 @@ class InspectingClientAsync(object):
                     'Error reply during sync process for {}: {}'
                     .format(self.bind_address_string, reply))
         # Get recommended timeouts hints for slow requests if the server
-        # provides them
+        # provides them (it has none for a request it does not know)
         timeout_hints_available = (
+            reply.reply_ok() and
             self.katcp_client.protocol_flags.request_timeout_hints)
         if timeout_hints_available:
             timeout_hints = yield self._get_request_timeout_hints(
-- 
2.43.0


From 3df156fa7e5d7d344c63c049b9dcbbaeed40f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:57 +0000
Subject: [PATCH 49/54] fix: report items that a lookup found before the next
 inspection

They were in the index already, so inspect() did not report them as added.
---
 katcp/inspecting_client.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index a676cc3..68d2d60 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -220,6 +220,8 @@ class InspectingClientAsync(object):
         self._requests_index = {}
         self._sensors_index = {}
         self._sensor_object_cache = {}
+        # The items that inspect() reported last, by kind
+        self._reported = {'requests': {}, 'sensors': {}}
         self._connected = katcp.core.AsyncEvent()
         self._disconnected = katcp.core.AsyncEvent()
         self._interface_changed = katcp.core.AsyncEvent()
@@ -604,9 +606,9 @@ class InspectingClientAsync(object):
         request_index_before = {
             name: dict(data) for name, data in self._requests_index.items()}
         try:
-            request_changes = yield self.inspect_requests(
+            yield self.inspect_requests(
                 timeout=timeout_manager.remaining())
-            sensor_changes = yield self.inspect_sensors(
+            yield self.inspect_sensors(
                 timeout=timeout_manager.remaining())
         except Exception:
             # Ensure atomicity of sensor and request updates ; if the one
@@ -615,6 +617,10 @@ class InspectingClientAsync(object):
             self._requests_index = request_index_before
             raise
 
+        # Not what these two inspections found, as the lookup of a single item
+        # may have put it in the index before
+        request_changes = self._unreported('requests', self._requests_index)
+        sensor_changes = self._unreported('sensors', self._sensors_index)
         model_changes = AttrDict()
         if request_changes:
             model_changes.requests = request_changes
@@ -623,6 +629,19 @@ class InspectingClientAsync(object):
         if model_changes:
             raise Return(model_changes)
 
+    def _unreported(self, kind, index):
+        """Changes to an index since the previous call, or None."""
+        before = self._reported[kind]
+        now = {name: {key: value for key, value in data.items() if key != 'obj'}
+               for name, data in index.items()}
+        self._reported[kind] = now
+        changed = set(
+            name for name in now if name in before and now[name] != before[name])
+        added = changed.union(set(now).difference(before))
+        removed = changed.union(set(before).difference(now))
+        if added or removed:
+            return AttrDict(added=added, removed=removed)
+
     @tornado.gen.coroutine
     def inspect_requests(self, name=None, timeout=None):
         """Inspect all or one requests on the device. Update requests index.
-- 
2.43.0


From c0654a7447abb532742c0c1646d839a87bd6f9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:20 +0000
Subject: [PATCH 50/54] fix: do not reapply a strategy that was replaced
 meanwhile

---
 katcp/resource_client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 7c046ec..a4289e5 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -900,7 +900,7 @@ class KATCPClientResourceSensorsManager(object):
     def reapply_sampling_strategies(self):
         """Reapply all sensor strategies using cached values"""
         check_sensor = self._inspecting_client.future_check_sensor
-        for sensor_name, strategy in list(self._strategy_cache.items()):
+        for sensor_name in list(self._strategy_cache):
             try:
                 sensor_exists = yield check_sensor(sensor_name)
                 if not sensor_exists:
@@ -908,6 +908,10 @@ class KATCPClientResourceSensorsManager(object):
                                       .format(sensor_name))
                     continue
 
+                # Another strategy may have been set, or this one dropped, meanwhile
+                strategy = self._strategy_cache.get(sensor_name)
+                if not strategy:
+                    continue
                 result = yield self.set_sampling_strategy(sensor_name, strategy)
             except KATCPSensorError as e:
                 self._logger.error('Error reapplying strategy for sensor {0}: {1!s}'
-- 
2.43.0


From d997f88736f349d874b7160cdfa28ef99dde8375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:20 +0000
Subject: [PATCH 51/54] fix: keep a container's requests and sensors up to date
 independently

---
 katcp/resource_client.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index a4289e5..540c74e 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1275,17 +1275,17 @@ class KATCPClientResourceContainer(resource.KATCPResource):
     """
     @property
     def req(self):
-        if self._children_dirty:
+        if self._req_dirty:
             self._req = self._create_attrdict_from_children('req')
-            self._children_dirty = False
+            self._req_dirty = False
 
         return self._req
 
     @property
     def sensor(self):
-        if self._children_dirty:
+        if self._sensor_dirty:
             self._sensor = self._create_attrdict_from_children('sensor')
-            self._children_dirty = False
+            self._sensor_dirty = False
 
         return self._sensor
 
@@ -1344,7 +1344,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         self._logger = logger
         self._name = resources_spec['name']
         self._description = resources_spec.get('description', '')
-        self._children_dirty = True   # Are we out of sync with the children?
+        # Are we out of sync with the children?
+        self._req_dirty = self._sensor_dirty = True
         self._init_resources()
         self._init_groups()
         self.set_ioloop()
@@ -1523,7 +1524,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         res = self.client_resource_factory(
                 res_spec, parent=self, logger=self._logger)
         self.children[resource.escape_name(res_name)] = res;
-        self._children_dirty = True
+        self._req_dirty = self._sensor_dirty = True
         res.set_ioloop(self.ioloop)
         res.start()
         return res
@@ -1569,21 +1570,21 @@ class KATCPClientResourceContainer(resource.KATCPResource):
 
     def _child_add_requests(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._req_dirty = True
         self._dirty_groups(child)
 
     def _child_remove_requests(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._req_dirty = True
         self._dirty_groups(child)
 
     def _child_add_sensors(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._sensor_dirty = True
 
     def _child_remove_sensors(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._sensor_dirty = True
 
     def _dirty_groups(self, child):
         groups_spec = self._resources_spec.get('groups', {})
-- 
2.43.0


From 7e7e1354e3e72c706a132a31e599404ba57a9206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:20 +0000
Subject: [PATCH 52/54] fix: update groups whose name is not an identifier

---
 katcp/resource_client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 540c74e..4bd91b4 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1587,9 +1587,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         self._sensor_dirty = True
 
     def _dirty_groups(self, child):
-        groups_spec = self._resources_spec.get('groups', {})
-        for group_name, group in dict.items(self.groups):
-            if child.name in groups_spec[group_name]:
+        for group in dict.values(self.groups):
+            if child in group.clients:
                 group.client_updated(child)
 
     def __repr__(self):
-- 
2.43.0


From edd288415aca5eebb1a6db5c4b12700717bdfe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:20 +0000
Subject: [PATCH 53/54] fix: set strategies and listeners of children whose
 name is not an identifier

---
 katcp/resource_client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 4bd91b4..36e82a4 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1456,7 +1456,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sampling_strategy(sensor_name, strategy_and_parms)
                 sensor_dict[resource_name][sensor_name] = strategy_and_parms
                 self._logger.debug(
@@ -1480,7 +1480,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sampling_strategy(sensor_name, strategy_and_parms)
                 sensor_dict[resource_name][sensor_name] = strategy_and_parms
                 self._logger.debug(
@@ -1504,7 +1504,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sensor_listener(sensor_name, listener)
                 sensor_dict[resource_name][sensor_name] = listener
                 self._logger.debug(
-- 
2.43.0


From b2e9e00c02a435d896ea3ed6ce8115b080889456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:20 +0000
Subject: [PATCH 54/54] fix: take the sensor name given to a container
 literally

---
 katcp/resource_client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 36e82a4..fd4e3ca 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1472,7 +1472,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
     @tornado.gen.coroutine
     def set_sampling_strategy(self, sensor_name, strategy_and_parms):
         """Set sampling strategies for the specific sensor - this sensor has to exist"""
-        result_list = yield self.list_sensors(filter="^"+sensor_name+"$") #exact match
+        result_list = yield self.list_sensors(
+            filter="^"+re.escape(resource.escape_name(sensor_name))+"$") #exact match
         sensor_dict = {}
         for result in result_list:
             sensor_name = result.object.normalised_name
@@ -1496,7 +1497,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
     @tornado.gen.coroutine
     def set_sensor_listener(self, sensor_name, listener):
         """Set listener for the specific sensor - this sensor has to exists."""
-        result_list = yield self.list_sensors(filter="^"+sensor_name+"$") #exact match
+        result_list = yield self.list_sensors(
+            filter="^"+re.escape(resource.escape_name(sensor_name))+"$") #exact match
         sensor_dict = {}
         for result in result_list:
             sensor_name = result.object.normalised_name
-- 
2.43.0

