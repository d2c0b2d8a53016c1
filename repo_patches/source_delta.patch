From b063e9847b900db377d033763bb4c72623c873a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 001/106] fix: CausalFilter::switch_filter starts from the last
 sample

The new filter was initialized with the content of the slot of the input
buffer that the next sample will overwrite, that is the oldest sample of the
history and not the last one.
---
 src/filters/causal-filter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filters/causal-filter.cpp b/src/filters/causal-filter.cpp
index 0ace0ad..87a5c75 100644
--- a/src/filters/causal-filter.cpp
+++ b/src/filters/causal-filter.cpp
@@ -108,7 +108,10 @@ void CausalFilter::switch_filter(const Eigen::VectorXd &filter_numerator,
   Eigen::VectorXd::Index filter_order_m = filter_numerator.size();
   Eigen::VectorXd::Index filter_order_n = filter_denominator.size();
 
-  Eigen::VectorXd current_x(m_input_buffer.col(m_pt_numerator));
+  // m_pt_numerator is the slot that the next sample will overwrite: the last
+  // sample received is in the slot before it.
+  Eigen::VectorXd current_x(m_input_buffer.col(
+      m_pt_numerator == 0 ? m_filter_order_m - 1 : m_pt_numerator - 1));
 
   m_input_buffer.resize(Eigen::NoChange, filter_order_m);
   m_output_buffer.resize(Eigen::NoChange, filter_order_n - 1);
-- 
2.43.0


From e5a51f4a7e3d7bdb2bbb76f6163366fda2cc28f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 002/106] fix: CausalFilter handles denominators of one or two
 coefficients

With one coefficient (FIR filter) the filter accessed columns of an empty
buffer; with two, the second order finite difference read the same past output
twice.
---
 src/filters/causal-filter.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/filters/causal-filter.cpp b/src/filters/causal-filter.cpp
index 87a5c75..4e3b40d 100644
--- a/src/filters/causal-filter.cpp
+++ b/src/filters/causal-filter.cpp
@@ -33,6 +33,20 @@ N is the sample number
 
 */
 
+namespace {
+// Computing the first and second order finite differences takes the two last
+// outputs: complete short denominators with null coefficients, which do not
+// change the filter.
+Eigen::VectorXd completeDenominator(const Eigen::VectorXd &denominator) {
+  Eigen::VectorXd res(denominator);
+  if (res.size() < 3) {
+    res.conservativeResize(3);
+    res.tail(3 - denominator.size()).setZero();
+  }
+  return res;
+}
+}  // namespace
+
 CausalFilter::CausalFilter(const double &timestep, const int &xSize,
                            const Eigen::VectorXd &filter_numerator,
                            const Eigen::VectorXd &filter_denominator)
@@ -40,15 +54,15 @@ CausalFilter::CausalFilter(const double &timestep, const int &xSize,
     : m_dt(timestep),
       m_x_size(xSize),
       m_filter_order_m(filter_numerator.size()),
-      m_filter_order_n(filter_denominator.size()),
+      m_filter_order_n(completeDenominator(filter_denominator).size()),
       m_filter_numerator(filter_numerator),
-      m_filter_denominator(filter_denominator),
+      m_filter_denominator(completeDenominator(filter_denominator)),
       m_first_sample(true),
       m_pt_numerator(0),
       m_pt_denominator(0),
       m_input_buffer(Eigen::MatrixXd::Zero(xSize, filter_numerator.size())),
       m_output_buffer(
-          Eigen::MatrixXd::Zero(xSize, filter_denominator.size() - 1)) {
+          Eigen::MatrixXd::Zero(xSize, m_filter_denominator.size() - 1)) {
   assert(timestep > 0.0 && "Timestep should be > 0");
   assert(m_filter_numerator.size() == m_filter_order_m);
   assert(m_filter_denominator.size() == m_filter_order_n);
@@ -104,7 +118,8 @@ void CausalFilter::get_x_dx_ddx(const Eigen::VectorXd &base_x,
 }
 
 void CausalFilter::switch_filter(const Eigen::VectorXd &filter_numerator,
-                                 const Eigen::VectorXd &filter_denominator) {
+                                 const Eigen::VectorXd &denominator) {
+  const Eigen::VectorXd filter_denominator(completeDenominator(denominator));
   Eigen::VectorXd::Index filter_order_m = filter_numerator.size();
   Eigen::VectorXd::Index filter_order_n = filter_denominator.size();
 
-- 
2.43.0


From f4434794d09bd34e95c416ec3d0860e591d80139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 003/106] fix: Contiifstream delivers each complete line once

The end of the file was read into a position of -1 plus one when its last line
had no end-of-line character, so that the whole file was read again; an empty
line stopped the reading for ever; the 256th character of a line was lost; and
lines were delivered in pieces when the writer was in the middle of one.
---
 include/sot/core/contiifstream.hh |  2 --
 src/debug/contiifstream.cpp       | 27 ++++++++++-----------------
 2 files changed, 10 insertions(+), 19 deletions(-)

diff --git a/include/sot/core/contiifstream.hh b/include/sot/core/contiifstream.hh
index 8c239ee..2de7406 100644
--- a/include/sot/core/contiifstream.hh
+++ b/include/sot/core/contiifstream.hh
@@ -36,8 +36,6 @@ class SOT_CORE_EXPORT Contiifstream {
  protected:
   std::string filename;
   std::streamoff cursor;
-  static const unsigned int BUFFER_SIZE = 256;
-  char buffer[BUFFER_SIZE];
   std::list<std::string> reader;
   bool first;
 
diff --git a/src/debug/contiifstream.cpp b/src/debug/contiifstream.cpp
index 3774a84..75f3e05 100644
--- a/src/debug/contiifstream.cpp
+++ b/src/debug/contiifstream.cpp
@@ -21,24 +21,17 @@ bool Contiifstream::loop(void) {
   sotDEBUGIN(25);
   bool res = false;
 
-  std::fstream file(filename.c_str());
-
+  std::ifstream file(filename.c_str());
   file.seekg(cursor);
-  file.sync();
-
-  while (1) {
-    file.get(buffer, BUFFER_SIZE);
-    if (file.gcount()) {
-      res = true;
-      std::string line(buffer);
-      if (!first) reader.push_back(line);
-      cursor = file.tellg();
-      cursor++;
-      file.get(*buffer);  // get the last char ( = '\n')
-      sotDEBUG(15) << "line: " << line << std::endl;
-    } else {
-      break;
-    }
+
+  // A line is complete once its end-of-line character has been written. What
+  // follows the last one stays in the file until the next call.
+  std::string line;
+  while (std::getline(file, line) && !file.eof()) {
+    res = true;
+    if (!first) reader.push_back(line);
+    cursor = file.tellg();
+    sotDEBUG(15) << "line: " << line << std::endl;
   }
 
   first = false;
-- 
2.43.0


From 2d67437aef4ba99817598e1517446178246a2f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 004/106] fix: Stopwatch::pause measures time like
 Stopwatch::stop

It mixed the CPU clock with the real time clock in REAL_TIME mode, and did not
convert clock ticks to seconds in CPU_TIME mode.
---
 src/utils/stop-watch.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index 0157fce..b844466 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -154,7 +154,7 @@ void Stopwatch::stop(string perf_name) {
 void Stopwatch::pause(string perf_name) {
   if (!active) return;
 
-  long double clock_end = clock();
+  long double clock_end = take_time();
 
   // Try to recover performance data
   if (!performance_exists(perf_name))
@@ -167,6 +167,8 @@ void Stopwatch::pause(string perf_name) {
 
   long double lapse = clock_end - perf_info.clock_start;
 
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
   // Update total time
   perf_info.last_time += lapse;
   perf_info.total_time += lapse;
-- 
2.43.0


From 983ba4c2928c7778d0cd9f2d0ff215e847cc7352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 005/106] fix: Stopwatch keeps a null minimum

A null minimum was taken for an unset one and overwritten by the next measure.
---
 src/utils/stop-watch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index b844466..b2d5dbe 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -144,7 +144,7 @@ void Stopwatch::stop(string perf_name) {
 
   // Update min/max time
   if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
-  if (lapse <= perf_info.min_time || perf_info.min_time == 0)
+  if (lapse <= perf_info.min_time || perf_info.stops == 1)
     perf_info.min_time = lapse;
 
   // Update total time
-- 
2.43.0


From 1e736edb9f73fd3e89052f22e5c2a57f125c34fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 006/106] fix: task and feature exceptions keep their message

The formatted detail replaced the message instead of completing it.
---
 src/exception/exception-feature.cpp | 2 +-
 src/exception/exception-task.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exception/exception-feature.cpp b/src/exception/exception-feature.cpp
index 4c8c556..97f8a76 100644
--- a/src/exception/exception-feature.cpp
+++ b/src/exception/exception-feature.cpp
@@ -35,7 +35,7 @@ ExceptionFeature::ExceptionFeature(
   char buffer[SIZE];
   vsnprintf(buffer, SIZE, format, args);
 
-  message = buffer;
+  message += buffer;
 
   va_end(args);
 }
diff --git a/src/exception/exception-task.cpp b/src/exception/exception-task.cpp
index 0d916fd..3868d0a 100644
--- a/src/exception/exception-task.cpp
+++ b/src/exception/exception-task.cpp
@@ -34,7 +34,7 @@ ExceptionTask::ExceptionTask(const ExceptionTask::ErrorCodeEnum &errcode,
   char buffer[SIZE];
   vsnprintf(buffer, SIZE, format, args);
 
-  message = buffer;
+  message += buffer;
 
   va_end(args);
 }
-- 
2.43.0


From 578f68198ac8c42163b80856ed54e31d8414135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:31 +0000
Subject: [PATCH 007/106] fix: features give their name in size errors as a
 format argument

The format was concatenated to the message, the name being taken as the format.
---
 src/feature/feature-abstract.cpp | 2 +-
 src/feature/feature-generic.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/feature/feature-abstract.cpp b/src/feature/feature-abstract.cpp
index 42c0791..83136b3 100644
--- a/src/feature/feature-abstract.cpp
+++ b/src/feature/feature-abstract.cpp
@@ -109,7 +109,7 @@ dynamicgraph::Vector &FeatureAbstract::computeErrorDot(
     if (errdotDes.size() < dim) {
       SOT_THROW ExceptionFeature(
           ExceptionFeature::UNCOMPATIBLE_SIZE,
-          "Error: dimension uncompatible with des->errorIN size."
+          "Error: dimension uncompatible with des->errorIN size.",
           " (while considering feature <%s>).",
           getName().c_str());
     }
diff --git a/src/feature/feature-generic.cpp b/src/feature/feature-generic.cpp
index a330dc7..f7d87c2 100644
--- a/src/feature/feature-generic.cpp
+++ b/src/feature/feature-generic.cpp
@@ -85,7 +85,7 @@ Vector &FeatureGeneric::computeError(Vector &res, int time) {
   if (err.size() < dim) {
     SOT_THROW ExceptionFeature(
         ExceptionFeature::UNCOMPATIBLE_SIZE,
-        "Error: dimension uncompatible with des->errorIN size."
+        "Error: dimension uncompatible with des->errorIN size.",
         " (while considering feature <%s>).",
         getName().c_str());
   }
@@ -99,7 +99,7 @@ Vector &FeatureGeneric::computeError(Vector &res, int time) {
     if (errDes.size() < dim) {
       SOT_THROW ExceptionFeature(
           ExceptionFeature::UNCOMPATIBLE_SIZE,
-          "Error: dimension uncompatible with des->errorIN size."
+          "Error: dimension uncompatible with des->errorIN size.",
           " (while considering feature <%s>).",
           getName().c_str());
     }
-- 
2.43.0


From 05a4d858994c3de6a980ae87eb1b3f2545d1d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 008/106] fix: the calendar of attime can be printed

dict.iteritems does not exist in Python 3, ALWAYS cannot be compared with an
iteration number, nor a function concatenated to a string.
---
 src/dynamic_graph/sot/core/utils/attime.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/attime.py b/src/dynamic_graph/sot/core/utils/attime.py
index 3ac1548..89ed40d 100644
--- a/src/dynamic_graph/sot/core/utils/attime.py
+++ b/src/dynamic_graph/sot/core/utils/attime.py
@@ -33,11 +33,18 @@ class Calendar:
 
     def __repr__(self):
         res = ""
-        for iter, funpairs in sorted(self.events.iteritems()):
+        # Iteration numbers in order, then ALWAYS and STOP
+        for iter, funpairs in sorted(
+            self.events.items(),
+            key=lambda event: (
+                isinstance(event[0], (attimeAlways, attimeStop)),
+                event[0] if not isinstance(event[0], (attimeAlways, attimeStop)) else 0,
+            ),
+        ):
             res += str(iter) + ": \n"
             for funpair in funpairs:
                 if funpair[1] == "":
-                    res += funpair[0] + "\n"
+                    res += str(funpair[0]) + "\n"
                 else:
                     res += str(funpair[1]) + "\n"
         return res
-- 
2.43.0


From 63365d60ecd8106f04daa65b5d0e8812c0bca356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 009/106] fix: a function called at each iteration can stop
 itself

The next function of the list was skipped.
---
 src/dynamic_graph/sot/core/utils/attime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/attime.py b/src/dynamic_graph/sot/core/utils/attime.py
index 89ed40d..5af06d5 100644
--- a/src/dynamic_graph/sot/core/utils/attime.py
+++ b/src/dynamic_graph/sot/core/utils/attime.py
@@ -89,7 +89,8 @@ class Calendar:
 
     def run(self, iter, *args):
         if ALWAYS in self.events:
-            for fun, doc in self.events[ALWAYS]:
+            # A function may stop itself: do not iterate on the list it modifies
+            for fun, doc in list(self.events[ALWAYS]):
                 fun(*args)
         if iter in self.events:
             self.callPing()
-- 
2.43.0


From 73c5330c5c2ed121a205e0b7ed8b3f254cfadb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:35 +0000
Subject: [PATCH 010/106] fix: ThreadInterruptibleLoop obeys its commands
 whatever the timing

- play called twice before the thread runs started the thread twice,
- quit called before the thread runs was forgotten,
- play called while the iteration of once ends was overridden by the pause of
  once,
- restart started the same thread again, twice, which is an error, and called
  a method that does not exist.
---
 .../core/utils/thread_interruptible_loop.py   | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
index 7b937c0..075404f 100644
--- a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
+++ b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
@@ -29,6 +29,8 @@ class ThreadInterruptibleLoop(threading.Thread):
     def __init__(self):
         threading.Thread.__init__(self)
         self.daemon = True
+        # isPlay and isOnce are modified by both threads
+        self.lock = threading.RLock()
 
     def quit(self):
         self.isQuit = True
@@ -39,38 +41,43 @@ class ThreadInterruptibleLoop(threading.Thread):
     def play(self):
         if not self.isRunning:
             self.start()
-        self.isOnce = False
-        self.setPlay(True)
+        with self.lock:
+            self.isOnce = False
+            self.setPlay(True)
 
     def pause(self):
         self.setPlay(False)
 
     def once(self):
-        self.isOnce = True
-        self.setPlay(True)
+        with self.lock:
+            self.isOnce = True
+            self.setPlay(True)
 
     def run(self):
-        self.isQuit = False
-        self.isRunning = True
         while not self.isQuit:
             if self.isPlay:
                 self.loop()
                 self.iter += 1
-                if self.isOnce:
-                    self.pause()
+                with self.lock:
+                    if self.isOnce:
+                        self.pause()
             time.sleep(self.sleepTime)
         self.isRunning = False
         print("Thread loop will now end.")
 
     def start(self):
         self.setPlay(True)
+        # Not in run: play and quit may be called before run starts
+        self.isQuit = False
+        self.isRunning = True
         threading.Thread.start(self)
 
     def restart(self):
         self.join()
+        # A thread can only be started once
+        threading.Thread.__init__(self)
+        self.daemon = True
         self.play()
-        self.setSigHandler()
-        threading.Thread.start(self)
 
     def loop(self):
         None
-- 
2.43.0


From d43ef2a7b072a3523a667c433e1a1c6468d57d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 011/106] fix: MetaTaskPosture.gotoq knows the size of its
 robot

The size was unknown when the first call gave a posture, and was the one of the
first robot for the tasks of all the others.
---
 src/dynamic_graph/sot/core/meta_task_posture.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_posture.py b/src/dynamic_graph/sot/core/meta_task_posture.py
index 0109cb8..5a72a26 100644
--- a/src/dynamic_graph/sot/core/meta_task_posture.py
+++ b/src/dynamic_graph/sot/core/meta_task_posture.py
@@ -60,17 +60,18 @@ class MetaTaskPosture(object):
 
     def gotoq(self, gain=None, qdes=None, **kwargs):
         act = list()
+        nbDof = self.nbDof
+        if nbDof is None:
+            nbDof = len(self.feature.errorIN.value)
         if qdes is not None:
             if isinstance(qdes, tuple):
                 qdes = matrix(qdes).T
         else:
-            if MetaTaskPosture.nbDof is None:
-                MetaTaskPosture.nbDof = len(self.feature.errorIN.value)
-            qdes = zeros((MetaTaskPosture.nbDof, 1))
+            qdes = zeros((nbDof, 1))
 
         act = [
             False,
-        ] * MetaTaskPosture.nbDof
+        ] * nbDof
         for limbName, jointValues in kwargs.items():
             limbRange = self.postureRange[limbName]
             for i in limbRange:
-- 
2.43.0


From 461d38d0c61cb6cd1b5780c0f636516e37ddf7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 012/106] fix: MetaTaskPosture.gotoq uses joint values given as
 a matrix

Comparing a matrix with an empty list is never true: the values were ignored.
---
 src/dynamic_graph/sot/core/meta_task_posture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_posture.py b/src/dynamic_graph/sot/core/meta_task_posture.py
index 5a72a26..73af9b9 100644
--- a/src/dynamic_graph/sot/core/meta_task_posture.py
+++ b/src/dynamic_graph/sot/core/meta_task_posture.py
@@ -76,7 +76,7 @@ class MetaTaskPosture(object):
             limbRange = self.postureRange[limbName]
             for i in limbRange:
                 act[i] = True
-            if jointValues != []:
+            if len(jointValues) > 0:
                 if isinstance(jointValues, matrix):
                     qdes[limbRange, 0] = vectorToTuple(jointValues)
                 else:
-- 
2.43.0


From b5787933b25f060ac281caa0083834b23242eb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 013/106] fix: generic6dReference accepts a position given as a
 column

---
 src/dynamic_graph/sot/core/meta_tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/meta_tasks.py b/src/dynamic_graph/sot/core/meta_tasks.py
index bd38750..b5c1834 100644
--- a/src/dynamic_graph/sot/core/meta_tasks.py
+++ b/src/dynamic_graph/sot/core/meta_tasks.py
@@ -52,7 +52,7 @@ def setGain(gain, val):
 def generic6dReference(p):
     M = eye(4)
     if isinstance(p, (matrix, ndarray)) and p.size == 3:
-        M[0:3, 3] = p
+        M[0:3, 3] = array(p).flatten()
     elif isinstance(p, tuple) and len(p) == 3:
         M[0:3, 3] = p
     elif isinstance(p, (matrix, ndarray)) and p.shape == (4, 4):
-- 
2.43.0


From dd5ff43fe76b0fb0a757d3d8a13221716dd7239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 014/106] fix: MetaTaskVisualPoint can be created with Python 3

filter returns an iterator, which has no length.
---
 src/dynamic_graph/sot/core/meta_task_visual_point.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_visual_point.py b/src/dynamic_graph/sot/core/meta_task_visual_point.py
index a5629b3..096073d 100644
--- a/src/dynamic_graph/sot/core/meta_task_visual_point.py
+++ b/src/dynamic_graph/sot/core/meta_task_visual_point.py
@@ -17,12 +17,10 @@ class MetaTaskVisualPoint(object):
     proj = 0
 
     def opPointExist(self, opPoint):
-        sigsP = filter(
-            lambda x: x.getName().split(":")[-1] == opPoint, self.dyn.signals()
-        )
-        sigsJ = filter(
-            lambda x: x.getName().split(":")[-1] == "J" + opPoint, self.dyn.signals()
-        )
+        sigsP = [x for x in self.dyn.signals() if x.getName().split(":")[-1] == opPoint]
+        sigsJ = [
+            x for x in self.dyn.signals() if x.getName().split(":")[-1] == "J" + opPoint
+        ]
         return len(sigsP) == 1 & len(sigsJ) == 1
 
     def defineDynEntities(self, dyn):
-- 
2.43.0


From 5d5b971d03aef9a43759b8d8f29716099350a052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 015/106] fix: generateOrthonormalM returns a rotation

The determinant of the matrix was -1 for half of the random vectors.
---
 src/dynamic_graph/sot/core/matrix_util.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dynamic_graph/sot/core/matrix_util.py b/src/dynamic_graph/sot/core/matrix_util.py
index 2d90144..58326f5 100644
--- a/src/dynamic_graph/sot/core/matrix_util.py
+++ b/src/dynamic_graph/sot/core/matrix_util.py
@@ -5,7 +5,7 @@ Tiny matrix functions, taken from Oscar source code.
 from math import atan2
 from random import random
 
-from numpy import array, cos, inner, matrix, pi, sin, sqrt
+from numpy import array, cos, cross, inner, matrix, pi, sin, sqrt
 from numpy.linalg import norm
 
 
@@ -43,13 +43,12 @@ def distVector(M2, M1):
 
 # Obtain an orthonormal matrix SO3 using the given vector as its first column
 # (it computes Gram Schmidt to obtain an orthonormal basis using the
-#  first vector and 2 other 'random' vectors)
+#  first vector and a 'random' vector, completed by their cross product)
 
 
 def generateOrthonormalM(v1):
 
     v2 = matrix([random(), random(), random()])
-    v3 = matrix([random(), random(), random()])
 
     v1 = matrix(v1)
     e1 = v1 / norm(v1)
@@ -57,8 +56,7 @@ def generateOrthonormalM(v1):
     u2 = v2 - inner(v2, e1) * e1
     e2 = u2 / norm(u2)
 
-    u3 = v3 - inner(v3, e1) * e1 - inner(v3, e2) * e2
-    e3 = u3 / norm(u3)
+    e3 = matrix(cross(e1, e2))
 
     e1 = e1.tolist()
     e2 = e2.tolist()
-- 
2.43.0


From 307807e7f42d610926543e43c1a4b759b014cd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 016/106] fix: History records the zmp when it is a numpy
 vector

---
 src/dynamic_graph/sot/core/utils/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/history.py b/src/dynamic_graph/sot/core/utils/history.py
index 2e6dcd8..edc5ec8 100644
--- a/src/dynamic_graph/sot/core/utils/history.py
+++ b/src/dynamic_graph/sot/core/utils/history.py
@@ -24,7 +24,7 @@ class History:
             self.qdot.append(self.dynEnt.velocity.value)
             if self.withZmp:
                 waMwo = matrix(self.dynEnt.waist.value).I
-                wo_z = matrix(self.zmpSig.value + (1,)).T
+                wo_z = matrix(tuple(self.zmpSig.value) + (1,)).T
                 self.zmp.append(list(vectorToTuple(waMwo * wo_z)))
 
     def restore(self, t):
-- 
2.43.0


From ccebd84fb086028c6c029b5eff6267ff94203339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 017/106] fix: DebugTrace opens a file after a failed write

A stream in a failed state was not closed, so that the next file could not be
opened and its traces were lost.
---
 src/debug/debug.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debug/debug.cpp b/src/debug/debug.cpp
index c6e44bc..07d20a7 100644
--- a/src/debug/debug.cpp
+++ b/src/debug/debug.cpp
@@ -45,13 +45,13 @@ __sotDebug_init __sotDebug_initialisator;
 } /* namespace dynamicgraph */
 
 void DebugTrace::openFile(const char *filename) {
-  if (debugfile.good() && debugfile.is_open()) debugfile.close();
+  if (debugfile.is_open()) debugfile.close();
   debugfile.clear();
   debugfile.open(filename, std::ios::trunc & std::ios::out);
 }
 
 void DebugTrace::closeFile(const char *) {
-  if (debugfile.good() && debugfile.is_open()) debugfile.close();
+  if (debugfile.is_open()) debugfile.close();
   debugfile.setstate(std::ios::failbit);
 }
 
-- 
2.43.0


From 0b02936aadd9abe32de5f6c97a17dcef1305ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:03 +0000
Subject: [PATCH 018/106] fix: Mailbox gives an indeterminate date before the
 first post

---
 include/sot/core/mailbox.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sot/core/mailbox.hxx b/include/sot/core/mailbox.hxx
index 110a712..ea228ad 100644
--- a/include/sot/core/mailbox.hxx
+++ b/include/sot/core/mailbox.hxx
@@ -23,6 +23,7 @@ Mailbox<Object>::Mailbox(const std::string &name)
     : Entity(name),
       mainObjectMutex(),
       mainObject(),
+      mainTimeStamp(),
       update(false)
 
       ,
-- 
2.43.0


From 5b35aa17234f1aa4627fb17bda2f89ad12ae9437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:39 +0000
Subject: [PATCH 019/106] fix: Mailbox gives back an older object when a post
 is under way

---
 include/sot/core/mailbox.hh  | 2 ++
 include/sot/core/mailbox.hxx | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/sot/core/mailbox.hh b/include/sot/core/mailbox.hh
index 7794300..a5ee9af 100644
--- a/include/sot/core/mailbox.hh
+++ b/include/sot/core/mailbox.hh
@@ -65,6 +65,8 @@ class Mailbox : public dg::Entity {
   Object mainObject;
   struct timeval mainTimeStamp;
   bool update;
+  /// Last object delivered, given again when a post is under way.
+  sotTimestampedObject lastObject;
 
  public: /* --- SIGNALS --- */
   dynamicgraph::SignalTimeDependent<sotTimestampedObject, int> SOUT;
diff --git a/include/sot/core/mailbox.hxx b/include/sot/core/mailbox.hxx
index ea228ad..0e5b877 100644
--- a/include/sot/core/mailbox.hxx
+++ b/include/sot/core/mailbox.hxx
@@ -24,7 +24,8 @@ Mailbox<Object>::Mailbox(const std::string &name)
       mainObjectMutex(),
       mainObject(),
       mainTimeStamp(),
-      update(false)
+      update(false),
+      lastObject()
 
       ,
       SOUT(boost::bind(&Mailbox::get, this, _1, _2), sotNOSIGNAL,
@@ -69,6 +70,10 @@ typename Mailbox<Object>::sotTimestampedObject &Mailbox<Object>::get(
 
     update = false;
     res.obj = this->mainObject;
+    lastObject = res;
+  } else {
+    // res may hold an older object than the last one delivered.
+    res = lastObject;
   }
 
   return res;
-- 
2.43.0


From 05c015ce0fad0517ad6e745752ecf6bd35c076b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:02 +0000
Subject: [PATCH 020/106] fix: a first task discarded by the stack no longer
 hides the next ones

---
 src/sot/sot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 88ee365..13d3d46 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -633,7 +633,7 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
     sotPRINTCOUNTER(4);
     sotPRINTCOUNTER(5);
     sotPRINTCOUNTER(6);
-    if (last || kernel.cols() == 0) break;
+    if (last || (has_kernel && kernel.cols() == 0)) break;
   }
 
   sotCHRONO1;
-- 
2.43.0


From c44d5905a5d9bec0ae03d976691527ac8c23f026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:02 +0000
Subject: [PATCH 021/106] fix: Sot writes outside its memory when a task or the
 robot grows

---
 src/sot/sot.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 13d3d46..9910c05 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -399,7 +399,9 @@ bool isFullPostureTask(Task *task, const Matrix::Index &nDof,
 MemoryTaskSOT *getMemory(TaskAbstract &t, const Matrix::Index &tDim,
                          const Matrix::Index &nDof) {
   MemoryTaskSOT *mem = dynamic_cast<MemoryTaskSOT *>(t.memoryInternal);
-  if (NULL == mem) {
+  // The size of the task or of the robot may have changed since the last time.
+  if (NULL == mem || mem->tmpTask.size() != tDim ||
+      mem->tmpVar.size() != nDof) {
     if (NULL != t.memoryInternal) delete t.memoryInternal;
     mem = new MemoryTaskSOT(tDim, nDof);
     t.memoryInternal = mem;
-- 
2.43.0


From c8fb82fbf7ecb3a5eb337561782688907e79b859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:02 +0000
Subject: [PATCH 022/106] fix: Sot ignores an accelerated posture task that has
 nothing above it

---
 src/sot/sot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 9910c05..c27a533 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -531,6 +531,7 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
 
     bool last = (iterTask + 1 == stack.size());
     bool fullPostureTask = (last && enablePostureTaskAcceleration &&
+                            has_kernel &&
                             isFullPostureTask(task, nbJoints, iterTime));
 
     sotDEBUG(15) << "Task: e_" << taskA.getName() << std::endl;
-- 
2.43.0


From 27c0ff1ee07fe6a60e2e8927867dda698c900417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:02 +0000
Subject: [PATCH 023/106] fix: null pointer in Sot with the posture
 acceleration and another last task

---
 src/sot/sot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index c27a533..2755296 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -392,7 +392,7 @@ bool isFullPostureTask(Task *task, const Matrix::Index &nDof,
   FeaturePosture *posture =
       dynamic_cast<FeaturePosture *>(task->getFeatureList().front());
 
-  assert(posture->dimensionSOUT(iterTime) <= nDof - 6);
+  assert(posture == NULL || posture->dimensionSOUT(iterTime) <= nDof - 6);
   return posture != NULL && posture->dimensionSOUT(iterTime) == nDof - 6;
 }
 
-- 
2.43.0


From b1b3beb1505e779b1280675399285268a3daed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:01 +0000
Subject: [PATCH 024/106] fix: Task loses the errors of its first features when
 its error grows

---
 src/task/task.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index 7bf4f65..c044a84 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -191,8 +191,8 @@ dynamicgraph::Vector &Task::computeError(dynamicgraph::Vector &error,
       while (cursorError + dim > dimError)  // DEBUG It was >=
       {
         dimError *= 2;
-        error.resize(dimError);
-        error.setZero();
+        // Keep the errors of the previous features.
+        error.conservativeResize(dimError);
       }
 
       for (int k = 0; k < dim; ++k) {
-- 
2.43.0


From 15c87a15fa0030b5ecff0e0860fc9063ea5cb132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:31 +0000
Subject: [PATCH 025/106] fix: Task keeps its outputs after a change of its
 list of features

---
 include/sot/core/task.hh |  5 +++++
 src/task/task-pd.cpp     |  3 +++
 src/task/task.cpp        | 10 ++++++++++
 3 files changed, 18 insertions(+)

diff --git a/include/sot/core/task.hh b/include/sot/core/task.hh
index 8fd4772..76708ca 100644
--- a/include/sot/core/task.hh
+++ b/include/sot/core/task.hh
@@ -86,6 +86,11 @@ class SOTTASK_EXPORT Task : public TaskAbstract {
   void addFeature(FeatureAbstract &s);
   void addFeatureFromName(const std::string &name);
   void clearFeatureList(void);
+
+ protected:
+  void featureListModified(void);
+
+ public:
   FeatureList_t &getFeatureList(void) { return featureList; }
 
   void setControlSelection(const Flags &act);
diff --git a/src/task/task-pd.cpp b/src/task/task-pd.cpp
index 73d2aeb..d25e95b 100644
--- a/src/task/task-pd.cpp
+++ b/src/task/task-pd.cpp
@@ -72,6 +72,9 @@ VectorMultiBound &TaskPD::computeTaskModif(VectorMultiBound &task, int time) {
 
   const dynamicgraph::Vector &errorDot = errorDotSIN(time);
   Task::computeTaskExponentialDecrease(task, time);
+  if (errorDot.size() != (dynamicgraph::Vector::Index)task.size())
+    throw ExceptionTask(ExceptionTask::NON_ADEQUATE_FEATURES,
+                        "The error and its derivative differ in size.");
 
   sotDEBUG(25) << " Task = " << task;
   sotDEBUG(25) << " edot = " << errorDot;
diff --git a/src/task/task.cpp b/src/task/task.cpp
index c044a84..82cefd0 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -110,6 +110,7 @@ void Task::addFeature(FeatureAbstract &s) {
   jacobianSOUT.addDependency(s.jacobianSOUT);
   errorSOUT.addDependency(s.errorSOUT);
   errorTimeDerivativeSOUT.addDependency(s.getErrorDot());
+  featureListModified();
 }
 
 void Task::addFeatureFromName(const std::string &featureName) {
@@ -128,6 +129,15 @@ void Task::clearFeatureList(void) {
   }
 
   featureList.clear();
+  featureListModified();
+}
+
+void Task::featureListModified(void) {
+  // The dependencies alone do not tell that the outputs are out of date.
+  errorSOUT.setReady();
+  errorTimeDerivativeSOUT.setReady();
+  jacobianSOUT.setReady();
+  taskSOUT.setReady();
 }
 
 void Task::setControlSelection(const Flags &act) { controlSelectionSIN = act; }
-- 
2.43.0


From f01814b09833e57189ae5b10daadb2324b2e2e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:31 +0000
Subject: [PATCH 026/106] fix: Task refuses its features when the size of the
 robot changes

---
 src/task/task.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index 82cefd0..5df1062 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -268,11 +268,9 @@ dynamicgraph::Matrix &Task::computeJacobian(dynamicgraph::Matrix &J, int time) {
 
   try {
     dynamicgraph::Matrix::Index dimJ = J.rows();
-    dynamicgraph::Matrix::Index nbc = J.cols();
-    if (0 == dimJ) {
-      dimJ = 1;
-      J.resize(dimJ, nbc);
-    }
+    // The number of columns is the one of the first feature.
+    dynamicgraph::Matrix::Index nbc = 0;
+    if (0 == dimJ) dimJ = 1;
 
     dynamicgraph::Matrix::Index cursorJ = 0;
     // const Flags& selection = controlSelectionSIN(time);
@@ -290,7 +288,7 @@ dynamicgraph::Matrix &Task::computeJacobian(dynamicgraph::Matrix &J, int time) {
 
       if (0 == nbc) {
         nbc = partialJacobian.cols();
-        J.resize(nbc, dimJ);
+        J.resize(dimJ, nbc);
       } else if (partialJacobian.cols() != nbc)
         throw ExceptionTask(
             ExceptionTask::NON_ADEQUATE_FEATURES,
-- 
2.43.0


From ab42b97ae42d675fd063e2cc71ac3d1b0a59ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:31 +0000
Subject: [PATCH 027/106] fix: the errors of features lose their type when
 going through a task

---
 include/sot/core/exception-abstract.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sot/core/exception-abstract.hh b/include/sot/core/exception-abstract.hh
index dc9c907..46a70c4 100644
--- a/include/sot/core/exception-abstract.hh
+++ b/include/sot/core/exception-abstract.hh
@@ -120,7 +120,7 @@ class SOT_CORE_EXPORT ExceptionAbstract : public std::exception {
 };
 
 #define SOT_RETHROW \
-  (const ExceptionAbstract &err) { throw err; }
+  (const ExceptionAbstract &) { throw; }
 
 #ifdef SOT_EXCEPTION_PASSING_PARAM
 #define SOT_THROW \
-- 
2.43.0


From 36bd73f826dcd251c680bd1606b362c0299e4e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:31 +0000
Subject: [PATCH 028/106] fix: TaskConti terminates the program without an
 initial control

---
 src/task/task-conti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/task-conti.cpp b/src/task/task-conti.cpp
index 4129f95..538216c 100644
--- a/src/task/task-conti.cpp
+++ b/src/task/task-conti.cpp
@@ -51,7 +51,7 @@ VectorMultiBound &TaskConti::computeContiDesiredVelocity(
     dynamicgraph::Vector deref(J.rows());
     sotDEBUG(15) << "q0 = " << q0 << std::endl;
     sotDEBUG(25) << "J = " << J << std::endl;
-    if (q0.size() != (J.cols() - 6)) throw;  // TODO
+    if (q0.size() != (J.cols() - 6)) throw 1;  // TODO
     for (int i = 0; i < J.rows(); ++i) {
       deref(i) = 0;
       for (int j = 6; j < J.cols(); ++j) deref(i) += J(i, j) * q0(j - 6);
-- 
2.43.0


From 02df4b793061bb10d4560e77bb6f64e3168fb565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:10 +0000
Subject: [PATCH 029/106] fix: destroyed tasks and features stay registered
 under their names

---
 include/sot/core/feature-abstract.hh |  2 +-
 include/sot/core/pool.hh             |  8 +++++---
 include/sot/core/task-abstract.hh    |  1 +
 src/factory/pool.cpp                 | 12 ++++++++++++
 src/feature/feature-abstract.cpp     |  4 ++++
 src/task/task-abstract.cpp           |  4 ++++
 6 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/sot/core/feature-abstract.hh b/include/sot/core/feature-abstract.hh
index 18fea95..84bb067 100644
--- a/include/sot/core/feature-abstract.hh
+++ b/include/sot/core/feature-abstract.hh
@@ -90,7 +90,7 @@ class SOT_CORE_EXPORT FeatureAbstract : public Entity {
   /*! \brief Default constructor: the name of the class should be given. */
   FeatureAbstract(const std::string &name);
   /*! \brief Default destructor */
-  virtual ~FeatureAbstract(void){};
+  virtual ~FeatureAbstract(void);
 
   /*! \name Methods returning the dimension of the feature.
     @{ */
diff --git a/include/sot/core/pool.hh b/include/sot/core/pool.hh
index f68118d..80a85b4 100644
--- a/include/sot/core/pool.hh
+++ b/include/sot/core/pool.hh
@@ -52,9 +52,6 @@ class TaskAbstract;
   As tasks and features derived from Entities, they should be registered
   as such.
 
-  \note From the code it is not very clear why we should not unregister
-  from the tasks and the features...
-
   The role of this class is also to look for the object supporting
   a command, and to apply this command.
 
@@ -101,6 +98,9 @@ class SOT_CORE_EXPORT PoolStorage {
   /*! \brief Registering a feature. */
   void registerFeature(const std::string &entname, FeatureAbstract *ent);
 
+  /*! \brief Forget a feature that is being destroyed. */
+  void deregisterFeature(const std::string &entname, FeatureAbstract *ent);
+
   /*! \brief Get a reference to a feature. */
   FeatureAbstract &getFeature(const std::string &name);
   /*! @} */
@@ -110,6 +110,8 @@ class SOT_CORE_EXPORT PoolStorage {
    */
   /*! \brief Registering a task. */
   void registerTask(const std::string &entname, TaskAbstract *ent);
+  /*! \brief Forget a task that is being destroyed. */
+  void deregisterTask(const std::string &entname, TaskAbstract *ent);
   /*! \brief Get a reference to a task. */
   TaskAbstract &getTask(const std::string &name);
   /*! @} */
diff --git a/include/sot/core/task-abstract.hh b/include/sot/core/task-abstract.hh
index 99000b0..718709e 100644
--- a/include/sot/core/task-abstract.hh
+++ b/include/sot/core/task-abstract.hh
@@ -76,6 +76,7 @@ class SOT_CORE_EXPORT TaskAbstract : public dynamicgraph::Entity {
 
  public:
   TaskAbstract(const std::string &n);
+  virtual ~TaskAbstract(void);
 
  public: /* --- SIGNALS --- */
   dynamicgraph::SignalTimeDependent<VectorMultiBound, int> taskSOUT;
diff --git a/src/factory/pool.cpp b/src/factory/pool.cpp
index c77cd8c..61721de 100644
--- a/src/factory/pool.cpp
+++ b/src/factory/pool.cpp
@@ -52,6 +52,12 @@ void PoolStorage::registerTask(const std::string &entname, TaskAbstract *ent) {
   }
 }
 
+void PoolStorage::deregisterTask(const std::string &entname,
+                                 TaskAbstract *ent) {
+  Tasks::iterator entkey = task.find(entname);
+  if (entkey != task.end() && entkey->second == ent) task.erase(entkey);
+}
+
 TaskAbstract &PoolStorage::getTask(const std::string &name) {
   Tasks::iterator entPtr = task.find(name);
   if (entPtr == task.end()) {
@@ -79,6 +85,12 @@ void PoolStorage::registerFeature(const std::string &entname,
   }
 }
 
+void PoolStorage::deregisterFeature(const std::string &entname,
+                                    FeatureAbstract *ent) {
+  Features::iterator entkey = feature.find(entname);
+  if (entkey != feature.end() && entkey->second == ent) feature.erase(entkey);
+}
+
 FeatureAbstract &PoolStorage::getFeature(const std::string &name) {
   Features::iterator entPtr = feature.find(name);
   if (entPtr == feature.end()) {
diff --git a/src/feature/feature-abstract.cpp b/src/feature/feature-abstract.cpp
index 83136b3..dac3c6b 100644
--- a/src/feature/feature-abstract.cpp
+++ b/src/feature/feature-abstract.cpp
@@ -49,6 +49,10 @@ FeatureAbstract::FeatureAbstract(const std::string &name)
   initCommands();
 }
 
+FeatureAbstract::~FeatureAbstract(void) {
+  PoolStorage::getInstance()->deregisterFeature(name, this);
+}
+
 void FeatureAbstract::initCommands(void) {
   using namespace command;
   addCommand("setReference",
diff --git a/src/task/task-abstract.cpp b/src/task/task-abstract.cpp
index 7070b93..ea8a874 100644
--- a/src/task/task-abstract.cpp
+++ b/src/task/task-abstract.cpp
@@ -31,6 +31,10 @@ TaskAbstract::TaskAbstract(const std::string &n)
   signalRegistration(taskSOUT << jacobianSOUT);
 }
 
+TaskAbstract::~TaskAbstract(void) {
+  PoolStorage::getInstance()->deregisterTask(name, this);
+}
+
 void TaskAbstract::taskRegistration(void) {
   PoolStorage::getInstance()->registerTask(name, this);
 }
-- 
2.43.0


From 73ae903c815a998795c8ac73cfb78dc133a43e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:10 +0000
Subject: [PATCH 030/106] fix: the spaces of a text count as flags in the
 constructor of Flags

---
 src/sot/flags.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/sot/flags.cpp b/src/sot/flags.cpp
index 8744bb0..844b57a 100644
--- a/src/sot/flags.cpp
+++ b/src/sot/flags.cpp
@@ -29,15 +29,14 @@ using namespace dynamicgraph::sot;
 
 Flags::Flags(const bool &b) : flags(), outOfRangeFlag(b) {}
 
-Flags::Flags(const char *_flags)
-    : flags(strlen(_flags)), outOfRangeFlag(false) {
-  for (unsigned int i = 0; i < flags.size(); ++i) {
+Flags::Flags(const char *_flags) : flags(), outOfRangeFlag(false) {
+  for (unsigned int i = 0; _flags[i] != '\0'; ++i) {
     switch (_flags[i]) {
       case '0':
-        flags[i] = false;
+        flags.push_back(false);
         break;
       case '1':
-        flags[i] = true;
+        flags.push_back(true);
         break;
       case ' ':
         break;
-- 
2.43.0


From 252801592c79d221b44e57f89b525119d0606bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:10 +0000
Subject: [PATCH 031/106] fix: reading an empty vector of bounds leaves its
 last character

---
 src/task/multi-bound.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task/multi-bound.cpp b/src/task/multi-bound.cpp
index 650d132..fd1e89c 100644
--- a/src/task/multi-bound.cpp
+++ b/src/task/multi-bound.cpp
@@ -246,6 +246,7 @@ std::istream &operator>>(std::istream &is, VectorMultiBound &v) {
 
   /* Loop for the vals. */
   SOT_MULTI_BOUND_CHECK_C(is, '(', v);
+  if (vali == 0) SOT_MULTI_BOUND_CHECK_C(is, ')', v);
   for (unsigned int i = 0; i < vali; ++i) {
     is >> v[i];
     if (i != vali - 1) {
-- 
2.43.0


From 34d0724207ccf7758695bde2e45935fb5726f65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:10 +0000
Subject: [PATCH 032/106] fix: a gain forced to be constant may not be a number

---
 src/task/gain-adaptive.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/task/gain-adaptive.cpp b/src/task/gain-adaptive.cpp
index 1acfce7..666d10d 100644
--- a/src/task/gain-adaptive.cpp
+++ b/src/task/gain-adaptive.cpp
@@ -145,7 +145,11 @@ void GainAdaptive::initFromPassingPoint(const double &valueAt0,
   }
 }
 
-void GainAdaptive::forceConstant(void) { coeff_a = 0; }
+void GainAdaptive::forceConstant(void) {
+  coeff_a = 0;
+  // the exponential may be infinite otherwise.
+  coeff_b = 0;
+}
 
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
-- 
2.43.0


From 4fc14434ec2cf3a48d07156366d37a4daa17313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:14 +0000
Subject: [PATCH 033/106] fix: a truncated text of bounds is read with
 indeterminate values

---
 src/task/multi-bound.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/task/multi-bound.cpp b/src/task/multi-bound.cpp
index fd1e89c..8eef4ea 100644
--- a/src/task/multi-bound.cpp
+++ b/src/task/multi-bound.cpp
@@ -129,9 +129,9 @@ void MultiBound::setSingleBound(double boundValue) {
 
 inline static void SOT_MULTI_BOUND_CHECK_C(std::istream &is, char check,
                                            VectorMultiBound &v) {
-  char c;
+  char c = 0;
   is.get(c);
-  if (c != check) {
+  if (!is || c != check) {
     v.resize(0);
     sotERROR << "Error while parsing vector multi-bound. Waiting for a '"
              << check << "'. Get '" << c << "' instead. " << std::endl;
@@ -169,12 +169,12 @@ std::ostream &operator<<(std::ostream &os, const MultiBound &m) {
 
 std::istream &operator>>(std::istream &is, MultiBound &m) {
   sotDEBUGIN(15);
-  char c;
-  double val;
+  char c = 0;
+  double val = 0;
   is.get(c);
   if (c == '(') {
     sotDEBUG(15) << "Double" << std::endl;
-    char c2[3];
+    char c2[3] = {0, 0, 0};
     is.get(c2, 3);
     if (std::string(c2, 2) != "--") {
       is.putback(c2[1]);
@@ -236,7 +236,7 @@ std::ostream &operator<<(std::ostream &os, const VectorMultiBound &v) {
 }
 
 std::istream &operator>>(std::istream &is, VectorMultiBound &v) {
-  unsigned int vali;
+  unsigned int vali = 0;
 
   /* Read the vector size. */
   SOT_MULTI_BOUND_CHECK_C(is, '[', v);
-- 
2.43.0


From 3624f341caf6175194340f7dba1835a019e35696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 034/106] fix: features keep depending on the signals of their
 former reference

---
 include/sot/core/feature-abstract.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sot/core/feature-abstract.hh b/include/sot/core/feature-abstract.hh
index 84bb067..d4ac560 100644
--- a/include/sot/core/feature-abstract.hh
+++ b/include/sot/core/feature-abstract.hh
@@ -257,6 +257,7 @@ void FeatureReferenceHelper<FeatureSpecialized>::setReference(
       SP::unsetReference();                                         \
     } else {                                                        \
       /* SET */                                                     \
+      if (SP::isReferenceSet()) removeDependenciesFromReference();  \
       SP::setReference(sdes);                                       \
       if (SP::isReferenceSet()) addDependenciesFromReference();     \
     }                                                               \
-- 
2.43.0


From 71d8cd9334f9dea765c2940acdcbbcbbb4bddc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 035/106] fix: derivative of the error read and written outside
 of the vectors

---
 src/feature/feature-abstract.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/feature/feature-abstract.cpp b/src/feature/feature-abstract.cpp
index dac3c6b..e82b108 100644
--- a/src/feature/feature-abstract.cpp
+++ b/src/feature/feature-abstract.cpp
@@ -110,16 +110,16 @@ dynamicgraph::Vector &FeatureAbstract::computeErrorDot(
     const dynamicgraph::Vector &errdotDes =
         getReferenceAbstract()->errordotSIN(time);
     sotDEBUG(15) << "Err* = " << errdotDes;
-    if (errdotDes.size() < dim) {
-      SOT_THROW ExceptionFeature(
-          ExceptionFeature::UNCOMPATIBLE_SIZE,
-          "Error: dimension uncompatible with des->errorIN size.",
-          " (while considering feature <%s>).",
-          getName().c_str());
-    }
-
-    for (int i = 0; i < errdotDes.size(); ++i)
+    for (int i = 0; (int)curr < dim; ++i) {
+      if (i >= errdotDes.size()) {
+        SOT_THROW ExceptionFeature(
+            ExceptionFeature::UNCOMPATIBLE_SIZE,
+            "Error: dimension uncompatible with des->errorIN size.",
+            " (while considering feature <%s>).",
+            getName().c_str());
+      }
       if (fl(i)) res(curr++) = -errdotDes(i);
+    }
   } else
     res.setZero();
 
-- 
2.43.0


From c0b4d2b67e1ec9cdf4fb29fe70363c3e4c6e44c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 036/106] fix: FeatureGeneric ignores the changes of size of
 its error

---
 src/feature/feature-generic.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/feature/feature-generic.cpp b/src/feature/feature-generic.cpp
index f7d87c2..d9f88a8 100644
--- a/src/feature/feature-generic.cpp
+++ b/src/feature/feature-generic.cpp
@@ -36,6 +36,9 @@ FeatureGeneric::FeatureGeneric(const string &pointName)
 {
   jacobianSOUT.addDependency(jacobianSIN);
   errorSOUT.addDependency(errorSIN);
+  dimensionSOUT.addDependency(errorSIN);
+  jacobianSOUT.addDependency(dimensionSOUT);
+  errordotSOUT.addDependency(dimensionSOUT);
 
   signalRegistration(errorSIN << jacobianSIN << errordotSIN << errordotSOUT);
 }
@@ -65,7 +68,8 @@ unsigned int &FeatureGeneric::getDimension(unsigned int &dim, int time) {
 
   const Flags &fl = selectionSIN.access(time);
 
-  if (dimensionDefault == 0) dimensionDefault = errorSIN.access(time).size();
+  // The size of the error may change.
+  dimensionDefault = errorSIN.access(time).size();
 
   dim = 0;
   for (unsigned int i = 0; i < dimensionDefault; ++i)
-- 
2.43.0


From 068e15919f63c9c8cf3ab5dbaf8a45f56c0e88e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 037/106] fix: FeatureGeneric reads outside of its reference
 and of its Jacobian

---
 src/feature/feature-generic.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/feature/feature-generic.cpp b/src/feature/feature-generic.cpp
index d9f88a8..1e671ff 100644
--- a/src/feature/feature-generic.cpp
+++ b/src/feature/feature-generic.cpp
@@ -100,17 +100,17 @@ Vector &FeatureGeneric::computeError(Vector &res, int time) {
   if (isReferenceSet()) {
     const Vector &errDes = getReference()->errorSIN(time);
     sotDEBUG(15) << "Err* = " << errDes;
-    if (errDes.size() < dim) {
-      SOT_THROW ExceptionFeature(
-          ExceptionFeature::UNCOMPATIBLE_SIZE,
-          "Error: dimension uncompatible with des->errorIN size.",
-          " (while considering feature <%s>).",
-          getName().c_str());
-    }
-
     for (int i = 0; i < err.size(); ++i)
-      if (fl(i))
-        if (fl(i)) res(curr++) = err(i) - errDes(i);
+      if (fl(i)) {
+        if (i >= errDes.size()) {
+          SOT_THROW ExceptionFeature(
+              ExceptionFeature::UNCOMPATIBLE_SIZE,
+              "Error: dimension uncompatible with des->errorIN size.",
+              " (while considering feature <%s>).",
+              getName().c_str());
+        }
+        res(curr++) = err(i) - errDes(i);
+      }
   } else {
     for (int i = 0; i < err.size(); ++i)
       if (fl(i)) res(curr++) = err(i);
@@ -131,6 +131,12 @@ Matrix &FeatureGeneric::computeJacobian(Matrix &res, int time) {
 
   for (unsigned int i = 0; curr < dim; ++i)
     if (fl(i)) {
+      if (i >= Jac.rows()) {
+        SOT_THROW ExceptionFeature(
+            ExceptionFeature::UNCOMPATIBLE_SIZE,
+            "Error: dimension uncompatible with jacobianIN size.",
+            " (while considering feature <%s>).", getName().c_str());
+      }
       for (int j = 0; j < Jac.cols(); ++j) res(curr, j) = Jac(i, j);
       curr++;
     }
-- 
2.43.0


From 5efd3a4342863fa7396e50bb89967f2174392aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 038/106] fix: FeaturePosture ignores the changes of its
 posture

---
 src/feature/feature-posture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/feature/feature-posture.cpp b/src/feature/feature-posture.cpp
index ca60c5c..83b8296 100644
--- a/src/feature/feature-posture.cpp
+++ b/src/feature/feature-posture.cpp
@@ -44,6 +44,8 @@ FeaturePosture::FeaturePosture(const std::string &name)
   signalRegistration(state_ << posture_ << postureDot_);
 
   errorSOUT.addDependency(state_);
+  errorSOUT.addDependency(posture_);
+  errordotSOUT.addDependency(postureDot_);
   jacobianSOUT.setConstant(Matrix());
 
   std::string docstring;
-- 
2.43.0


From 8360e3fc7b38d7e4d020fd72005ffbd5008502b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 039/106] fix: FeaturePosture keeps its former dimension after
 a selection

---
 src/feature/feature-posture.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/feature/feature-posture.cpp b/src/feature/feature-posture.cpp
index 83b8296..77e0740 100644
--- a/src/feature/feature-posture.cpp
+++ b/src/feature/feature-posture.cpp
@@ -149,6 +149,9 @@ void FeaturePosture::selectDof(unsigned dofId, bool control) {
   }
 
   jacobianSOUT.setConstant(J);
+  errorSOUT.setReady();
+  errordotSOUT.setReady();
+  dimensionSOUT.setReady();
 }
 
 DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(FeaturePosture, "FeaturePosture");
-- 
2.43.0


From 1fb0c78e26f05faf71ff00c5c77b5395c52eda11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 040/106] fix: FeatureJointLimits keeps its first Jacobian

---
 src/feature/feature-joint-limits.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/feature/feature-joint-limits.cpp b/src/feature/feature-joint-limits.cpp
index c36ef57..cc6138d 100644
--- a/src/feature/feature-joint-limits.cpp
+++ b/src/feature/feature-joint-limits.cpp
@@ -49,6 +49,10 @@ FeatureJointLimits::FeatureJointLimits(const string &fName)
   errorSOUT.addDependency(jointSIN);
   errorSOUT.addDependency(upperJlSIN);
   errorSOUT.addDependency(lowerJlSIN);
+  dimensionSOUT.addDependency(upperJlSIN);
+  jacobianSOUT.addDependency(jointSIN);
+  jacobianSOUT.addDependency(upperJlSIN);
+  jacobianSOUT.addDependency(lowerJlSIN);
 
   signalRegistration(jointSIN << upperJlSIN << lowerJlSIN << widthJlSINTERN);
 
-- 
2.43.0


From c71aee2a4cb689faea5110046ca5b0e49704c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 041/106] fix: the Jacobian of FeatureJointLimits is half the
 derivative of its error

---
 src/feature/feature-joint-limits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feature/feature-joint-limits.cpp b/src/feature/feature-joint-limits.cpp
index cc6138d..0de5042 100644
--- a/src/feature/feature-joint-limits.cpp
+++ b/src/feature/feature-joint-limits.cpp
@@ -126,7 +126,7 @@ Matrix &FeatureJointLimits::computeJacobian(Matrix &J, int time) {
   for (unsigned int i = 0; i < SIZE_TOTAL; ++i) {
     if (fl(i)) {
       if (fabs(WJL(i)) > 1e-3)
-        J(idx, i) = 1 / WJL(i);
+        J(idx, i) = 2 / WJL(i);
       else
         J(idx, i) = 1.;
       idx++;
-- 
2.43.0


From be6ab7ade2d72536e762e46d529e2958437aea8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 042/106] fix: features ignore the changes of velocity of their
 reference

---
 src/feature/feature-point6d.cpp      | 4 ++++
 src/feature/feature-visual-point.cpp | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/feature/feature-point6d.cpp b/src/feature/feature-point6d.cpp
index 6e63116..0632581 100644
--- a/src/feature/feature-point6d.cpp
+++ b/src/feature/feature-point6d.cpp
@@ -116,12 +116,16 @@ void FeaturePoint6d::addDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.addDependency(getReference()->positionSIN);
   jacobianSOUT.addDependency(getReference()->positionSIN);
+  errordotSOUT.addDependency(getReference()->positionSIN);
+  errordotSOUT.addDependency(getReference()->velocitySIN);
 }
 
 void FeaturePoint6d::removeDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.removeDependency(getReference()->positionSIN);
   jacobianSOUT.removeDependency(getReference()->positionSIN);
+  errordotSOUT.removeDependency(getReference()->positionSIN);
+  errordotSOUT.removeDependency(getReference()->velocitySIN);
 }
 
 /* --------------------------------------------------------------------- */
diff --git a/src/feature/feature-visual-point.cpp b/src/feature/feature-visual-point.cpp
index b216727..b2847e8 100644
--- a/src/feature/feature-visual-point.cpp
+++ b/src/feature/feature-visual-point.cpp
@@ -48,11 +48,13 @@ FeatureVisualPoint::FeatureVisualPoint(const string &pointName)
 void FeatureVisualPoint::addDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.addDependency(getReference()->xySIN);
+  errordotSOUT.addDependency(getReference()->errordotSIN);
 }
 
 void FeatureVisualPoint::removeDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.removeDependency(getReference()->xySIN);
+  errordotSOUT.removeDependency(getReference()->errordotSIN);
 }
 
 /* --------------------------------------------------------------------- */
-- 
2.43.0


From 8dee1683e9b7c5e4ce252fbd1e0f69ccaee1bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 043/106] fix: FeaturePoint6d keeps its outputs after a change
 of frame

---
 src/feature/feature-point6d.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/feature/feature-point6d.cpp b/src/feature/feature-point6d.cpp
index 0632581..e133991 100644
--- a/src/feature/feature-point6d.cpp
+++ b/src/feature/feature-point6d.cpp
@@ -142,6 +142,9 @@ void FeaturePoint6d::computationFrame(const std::string &inFrame) {
                     "expecting 'current' or 'desired'");
     throw ExceptionFeature(ExceptionFeature::GENERIC, msg);
   }
+  errorSOUT.setReady();
+  errordotSOUT.setReady();
+  jacobianSOUT.setReady();
 }
 
 /// \brief Get computation frame
-- 
2.43.0


From dee04c48ff3a8721066f947ccf22bafb6d9914c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 044/106] fix: the Jacobians of Feature1D and FeatureVector3
 ignore one of their inputs

---
 src/feature/feature-1d.cpp      | 1 +
 src/feature/feature-vector3.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/feature/feature-1d.cpp b/src/feature/feature-1d.cpp
index 9635784..e1530d5 100644
--- a/src/feature/feature-1d.cpp
+++ b/src/feature/feature-1d.cpp
@@ -33,6 +33,7 @@ Feature1D::Feature1D(const string &pointName)
       jacobianSIN(NULL,
                   "sotFeature1D(" + name + ")::input(matrix)::jacobianIN") {
   jacobianSOUT.addDependency(jacobianSIN);
+  jacobianSOUT.addDependency(errorSIN);
   errorSOUT.addDependency(errorSIN);
 
   signalRegistration(errorSIN << jacobianSIN);
diff --git a/src/feature/feature-vector3.cpp b/src/feature/feature-vector3.cpp
index 9b7899d..bcd5564 100644
--- a/src/feature/feature-vector3.cpp
+++ b/src/feature/feature-vector3.cpp
@@ -42,6 +42,7 @@ FeatureVector3::FeatureVector3(const string &pointName)
           NULL, "sotFeatureVector3(" + name + ")::input(vector)::positionRef") {
   jacobianSOUT.addDependency(positionSIN);
   jacobianSOUT.addDependency(articularJacobianSIN);
+  jacobianSOUT.addDependency(vectorSIN);
 
   errorSOUT.addDependency(vectorSIN);
   errorSOUT.addDependency(positionSIN);
-- 
2.43.0


From 3caa9b58c0ef90747ff5ea2aa68d93c95874354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 045/106] fix: FeatureLineDistance ignores the changes of its
 vector and reference

---
 src/feature/feature-line-distance.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/feature/feature-line-distance.cpp b/src/feature/feature-line-distance.cpp
index 48d2b24..dc7255d 100644
--- a/src/feature/feature-line-distance.cpp
+++ b/src/feature/feature-line-distance.cpp
@@ -41,12 +41,16 @@ FeatureLineDistance::FeatureLineDistance(const string &pointName)
                 "sotFeatureVector3(" + name + ")::input(vector3)::vector"),
       lineSOUT(boost::bind(&FeatureLineDistance::computeLineCoordinates, this,
                            _1, _2),
-               positionSIN << positionRefSIN,
+               positionSIN << vectorSIN,
                "sotFeatureAbstract(" + name + ")::output(vector)::line") {
   jacobianSOUT.addDependency(positionSIN);
   jacobianSOUT.addDependency(articularJacobianSIN);
 
-  errorSOUT.addDependency(positionSIN);
+  jacobianSOUT.addDependency(lineSOUT);
+  jacobianSOUT.addDependency(positionRefSIN);
+
+  errorSOUT.addDependency(lineSOUT);
+  errorSOUT.addDependency(positionRefSIN);
 
   signalRegistration(positionSIN << articularJacobianSIN << positionRefSIN
                                  << lineSOUT << vectorSIN);
-- 
2.43.0


From 52612b37fae78ad5276f759659b83220017e8781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 046/106] fix: FeatureTask displays an indeterminate task

---
 src/feature/feature-task.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feature/feature-task.cpp b/src/feature/feature-task.cpp
index 2177dab..8a27b5e 100644
--- a/src/feature/feature-task.cpp
+++ b/src/feature/feature-task.cpp
@@ -29,7 +29,7 @@ DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(FeatureTask, "FeatureTask");
 /* --- CLASS ----------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
 
-FeatureTask::FeatureTask(const string &pointName) : FeatureGeneric(pointName) {}
+FeatureTask::FeatureTask(const string &pointName) : FeatureGeneric(pointName), taskPtr(NULL) {}
 
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
-- 
2.43.0


From 15984dff32b19026837bd76c2b7fb468cc51af20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 047/106] fix: actuate selects no joint at all in
 FeatureJointLimits

---
 src/feature/feature-joint-limits-command.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feature/feature-joint-limits-command.h b/src/feature/feature-joint-limits-command.h
index 08fface..9002102 100644
--- a/src/feature/feature-joint-limits-command.h
+++ b/src/feature/feature-joint-limits-command.h
@@ -33,7 +33,7 @@ class Actuate : public Command {
       : Command(entity, std::vector<Value::Type>(), docstring) {}
   virtual Value doExecute() {
     FeatureJointLimits &fjl = static_cast<FeatureJointLimits &>(owner());
-    Flags fl(63);  // 0x0000003f = 00000000000000000000000000111111
+    Flags fl("111111");  // the free flyer
     fjl.selectionSIN = (!fl);
     // return void
     return Value();
-- 
2.43.0


From 3f8739758406d6442815787b87bfaa5c663f0bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 048/106] fix: the Jacobian of FeatureLineDistance ignores the
 z of the direction

---
 src/feature/feature-line-distance.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/feature/feature-line-distance.cpp b/src/feature/feature-line-distance.cpp
index dc7255d..f050b40 100644
--- a/src/feature/feature-line-distance.cpp
+++ b/src/feature/feature-line-distance.cpp
@@ -222,6 +222,15 @@ Matrix &FeatureLineDistance::computeJacobian(Matrix &J, int time) {
       2 * a0 * b1 * z0 * b0 * c1 * c1 - 2 * a0 * b1 * b1 * z0 * c1 * c0 -
       2 * a0 * b1 * z1 * b0 * c1 * c1 + 2 * a0 * b1 * b1 * z1 * c1 * c0;
 
+  /* With e = N/K and N the numerator of the error: (dN K - N dK). */
+  const double N = (x1 - x0) * (b0 * c1 - c0 * b1) +
+                   (y1 - y0) * (c0 * a1 - a0 * c1) +
+                   (z1 - z0) * (a0 * b1 - b0 * a1);
+  const double diffc0 = (a1 * (y1 - y0) - b1 * (x1 - x0)) * K -
+                        N * 2 *
+                            (c0 * (a1 * a1 + b1 * b1 + c1 * c1) -
+                             c1 * (a0 * a1 + b0 * b1 + c0 * c1));
+
   Matrix diffh(1, 6);
   diffh(0, 0) = diffx0 / K;
   diffh(0, 1) = diffy0 / K;
@@ -229,7 +238,7 @@ Matrix &FeatureLineDistance::computeJacobian(Matrix &J, int time) {
   K *= K;
   diffh(0, 3) = diffa0 / K;
   diffh(0, 4) = diffb0 / K;
-  diffh(0, 5) = 0;
+  diffh(0, 5) = diffc0 / K;
 
   /* --- Multiply Jline=dline/dq with diffh=de/dline --- */
   J.resize(1, J.cols());
-- 
2.43.0


From 98164d624f165915bba81e4b3500b557746dd021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:52 +0000
Subject: [PATCH 049/106] fix: the FIR filter of numbers adds its former output

---
 src/matrix/fir-filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix/fir-filter.cpp b/src/matrix/fir-filter.cpp
index 358cf45..a6ed1ce 100644
--- a/src/matrix/fir-filter.cpp
+++ b/src/matrix/fir-filter.cpp
@@ -51,6 +51,11 @@ SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN(FIRFilter, Vector, double, vec_double,
 SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN(FIRFilter, Vector, Matrix, vec_mat,
                                    "FIRFilter")
 
+template <>
+void FIRFilter<double, double>::reset_signal(double &res, const double &) {
+  res = 0;
+}
+
 template <>
 void FIRFilter<Vector, double>::reset_signal(Vector &res,
                                              const Vector &sample) {
-- 
2.43.0


From adafa7e345c75e558c13ed07efb6ae611a09f29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:52 +0000
Subject: [PATCH 050/106] fix: the FIR filter reads and writes outside of its
 coefficients

---
 include/sot/core/fir-filter.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/fir-filter.hh b/include/sot/core/fir-filter.hh
index 26a48a2..482690a 100644
--- a/include/sot/core/fir-filter.hh
+++ b/include/sot/core/fir-filter.hh
@@ -33,6 +33,7 @@ class circular_buffer {
  public:
   circular_buffer() : buf(1), start(0), numel(0) {}
   void push_front(const T &data) {
+    if (buf.empty()) return;
     if (start) {
       --start;
     } else {
@@ -185,10 +186,10 @@ class FIRFilter : public Entity {
   }
 
   void setElement(const unsigned int &rank, const coefT &coef) {
-    coefs[rank] = coef;
+    coefs.at(rank) = coef;
   }
 
-  coefT getElement(const unsigned int &rank) const { return coefs[rank]; }
+  coefT getElement(const unsigned int &rank) const { return coefs.at(rank); }
 
   static void reset_signal(sigT & /*res*/, const sigT & /*sample*/) {}
 
-- 
2.43.0


From ccd25b08b09067e3971a28aefd10b1374b205b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:52 +0000
Subject: [PATCH 051/106] fix: after a failed first reading, the derivator
 starts from nothing

---
 include/sot/core/derivator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/derivator.hh b/include/sot/core/derivator.hh
index ea72dcd..17c560e 100644
--- a/include/sot/core/derivator.hh
+++ b/include/sot/core/derivator.hh
@@ -81,8 +81,8 @@ class Derivator : public dynamicgraph::Entity {
       res += memory;
       if (timestep != 1.) res *= (1. / timestep);
     } else {
-      initialized = true;
       memory = SIN(time);
+      initialized = true;
       res = memory;
       res *= 0;
     }
@@ -100,8 +100,8 @@ VectorQuaternion &Derivator<VectorQuaternion>::computeDerivation(
     res.coeffs() += memory.coeffs();
     if (timestep != 1.) res.coeffs() *= (1. / timestep);
   } else {
-    initialized = true;
     memory = SIN(time);
+    initialized = true;
     res = memory;
     res.coeffs() *= 0;
   }
-- 
2.43.0


From 7006446fd23be085d629ae28d7b4130adda18427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:52 +0000
Subject: [PATCH 052/106] fix: an integrator that is not initialized reads
 outside of its memory

---
 include/sot/core/integrator-abstract.hh | 8 ++++++--
 include/sot/core/integrator-euler.hh    | 6 ++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/integrator-abstract.hh b/include/sot/core/integrator-abstract.hh
index 840797b..226a190 100644
--- a/include/sot/core/integrator-abstract.hh
+++ b/include/sot/core/integrator-abstract.hh
@@ -88,8 +88,12 @@ class IntegratorAbstract : public dynamicgraph::Entity {
   void pushDenomCoef(const coefT &denomCoef) {
     denominator.push_back(denomCoef);
   }
-  void popNumCoef() { numerator.pop_back(); }
-  void popDenomCoef() { denominator.pop_back(); }
+  void popNumCoef() {
+    if (!numerator.empty()) numerator.pop_back();
+  }
+  void popDenomCoef() {
+    if (!denominator.empty()) denominator.pop_back();
+  }
 
   const std::vector<coefT> &numCoeffs() const { return numerator; }
   void numCoeffs(const std::vector<coefT> &coeffs) { numerator = coeffs; }
diff --git a/include/sot/core/integrator-euler.hh b/include/sot/core/integrator-euler.hh
index 92b761b..17677ba 100644
--- a/include/sot/core/integrator-euler.hh
+++ b/include/sot/core/integrator-euler.hh
@@ -111,6 +111,12 @@ class IntegratorEuler : public IntegratorAbstract<sigT, coefT> {
     const std::vector<coefT> &num = numerator;
     const std::vector<coefT> &denom = denominator;
 
+    if (num.empty() || denom.empty() || inputMemory.size() != num.size() ||
+        outputMemory.size() != denom.size())
+      throw dynamicgraph::ExceptionSignal(
+          dynamicgraph::ExceptionSignal::GENERIC,
+          "The integrator is not initialized with its coefficients.");
+
     // Step 1
     tmp1 = inputMemory[0];
     inputMemory[0] = SIN.access(time);
-- 
2.43.0


From be71b09e8d7d19ef0ca79a5842900e3b363c22cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:52 +0000
Subject: [PATCH 053/106] fix: a filter differentiator that is not initialized
 follows a wild pointer

---
 include/sot/core/filter-differentiator.hh |  1 +
 src/filters/filter-differentiator.cpp     | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/sot/core/filter-differentiator.hh b/include/sot/core/filter-differentiator.hh
index 5bbbb6b..02ce5e1 100644
--- a/include/sot/core/filter-differentiator.hh
+++ b/include/sot/core/filter-differentiator.hh
@@ -94,6 +94,7 @@ class SOTFILTERDIFFERENTIATOR_EXPORT FilterDifferentiator
 
   /** --- CONSTRUCTOR ---- */
   FilterDifferentiator(const std::string &name);
+  virtual ~FilterDifferentiator() { delete m_filter; }
 
   /** Initialize the FilterDifferentiator.
    * @param timestep Period (in seconds) after which
diff --git a/src/filters/filter-differentiator.cpp b/src/filters/filter-differentiator.cpp
index 4769606..53c8d7f 100644
--- a/src/filters/filter-differentiator.cpp
+++ b/src/filters/filter-differentiator.cpp
@@ -61,7 +61,10 @@ FilterDifferentiator::FilterDifferentiator(const std::string &name)
       CONSTRUCT_SIGNAL_OUT(x_filtered, dynamicgraph::Vector, m_x_dx_ddxSINNER),
       CONSTRUCT_SIGNAL_OUT(dx, dynamicgraph::Vector, m_x_dx_ddxSINNER),
       CONSTRUCT_SIGNAL_OUT(ddx, dynamicgraph::Vector, m_x_dx_ddxSINNER),
-      CONSTRUCT_SIGNAL_INNER(x_dx_ddx, dynamicgraph::Vector, m_xSIN) {
+      CONSTRUCT_SIGNAL_INNER(x_dx_ddx, dynamicgraph::Vector, m_xSIN),
+      m_dt(0.),
+      m_x_size(0),
+      m_filter(NULL) {
   Entity::signalRegistration(ALL_INPUT_SIGNALS << ALL_OUTPUT_SIGNALS);
 
   /* Commands. */
@@ -94,6 +97,7 @@ void FilterDifferentiator::init(const double &timestep, const int &xSize,
                                 const Eigen::VectorXd &filter_denominator) {
   m_x_size = xSize;
   m_dt = timestep;
+  delete m_filter;
   m_filter =
       new CausalFilter(timestep, xSize, filter_numerator, filter_denominator);
 
@@ -110,6 +114,9 @@ void FilterDifferentiator::switch_filter(
       << "Numerator " << filter_numerator << std::endl
       << "Denominator" << filter_denominator << std::endl
       << "at time" << m_xSIN.getTime());
+  if (m_filter == NULL)
+    throw ExceptionSignal(ExceptionSignal::GENERIC,
+                          "The filter is not initialized.");
   m_filter->switch_filter(filter_numerator, filter_denominator);
 }
 
@@ -119,6 +126,9 @@ void FilterDifferentiator::switch_filter(
 
 DEFINE_SIGNAL_INNER_FUNCTION(x_dx_ddx, dynamicgraph::Vector) {
   sotDEBUG(15) << "Compute x_dx inner signal " << iter << std::endl;
+  if (m_filter == NULL)
+    throw ExceptionSignal(ExceptionSignal::GENERIC,
+                          "The filter is not initialized.");
   if (s.size() != 3 * m_x_size) s.resize(3 * m_x_size);
   // read encoders
   const dynamicgraph::Vector &base_x = m_xSIN(iter);
-- 
2.43.0


From 8158bf12b9256cea4e4d2d616355ea46e83481d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 054/106] fix: setRoot writes outside of a vector and does not
 set the root

---
 src/tools/device.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index d07de74..dc53bee 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -297,9 +297,13 @@ void Device::setRoot(const Matrix &root) {
 
 void Device::setRoot(const MatrixHomogeneous &worldMwaist) {
   VectorRollPitchYaw r = (worldMwaist.linear().eulerAngles(2, 1, 0)).reverse();
-  Vector q = state_;
-  q = worldMwaist.translation();  // abusive ... but working.
-  for (unsigned int i = 0; i < 3; ++i) q(i + 3) = r(i);
+  if (state_.size() < 6)
+    throw std::invalid_argument(
+        "dynamicgraph::sot::Device::setRoot: the state has no root.");
+  state_.head<3>() = worldMwaist.translation();
+  state_.segment<3>(3) = r;
+  stateSOUT.setConstant(state_);
+  motorcontrolSOUT.setConstant(state_);
 }
 
 void Device::setSecondOrderIntegration() {
-- 
2.43.0


From 9b75beb440eac130491c159d3d49dd5aecba04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 055/106] fix: the time step and the root pose of a new device
 are indeterminate

---
 src/tools/device.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index dc53bee..abcbe14 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -75,6 +75,7 @@ Device::Device(const std::string &n)
       state_(6),
       sanityCheck_(true),
       controlInputType_(CONTROL_INPUT_ONE_INTEGRATION),
+      timestep_(5e-2),
       controlSIN(NULL, "Device(" + n + ")::input(double)::control"),
       attitudeSIN(NULL, "Device(" + n + ")::input(vector3)::attitudeIN"),
       zmpSIN(NULL, "Device(" + n + ")::input(vector3)::zmp"),
@@ -92,7 +93,7 @@ Device::Device(const std::string &n)
       pseudoTorqueSOUT("Device(" + n + ")::output(vector)::ptorque")
 
       ,
-      ffPose_(),
+      ffPose_(MatrixHomogeneous::Identity()),
       forceZero6(6) {
   forceZero6.fill(0);
   /* --- SIGNALS --- */
-- 
2.43.0


From df8e3d194bad4cc0aaaca8d956ba3450613ff2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 056/106] fix: the device reads and writes outside of its
 bounds and state

---
 src/tools/device.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index abcbe14..c39a41e 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -515,6 +515,30 @@ void Device::integrate(const double &dt) {
     return;
   }
 
+  const Vector::Index size = controlIN.size();
+  if (size > state_.size() ||
+      (controlInputType_ == CONTROL_INPUT_TWO_INTEGRATION &&
+       size > velocity_.size()))
+    throw std::invalid_argument(
+        "dynamicgraph::sot::Device::integrate: the control is larger than the "
+        "state.");
+  if (sanityCheck_) {
+    if (lowerPosition_.size() != state_.size() ||
+        upperPosition_.size() != state_.size())
+      throw std::invalid_argument(
+          "dynamicgraph::sot::Device::integrate: position bounds do not match "
+          "state size. Set them first with setPositionBounds.");
+    const Vector::Index velocitySize =
+        controlInputType_ == CONTROL_INPUT_TWO_INTEGRATION ? velocity_.size()
+                                                           : state_.size();
+    if (controlInputType_ != CONTROL_INPUT_NO_INTEGRATION &&
+        (lowerVelocity_.size() != velocitySize ||
+         upperVelocity_.size() != velocitySize))
+      throw std::invalid_argument(
+          "dynamicgraph::sot::Device::integrate: velocity bounds do not match "
+          "state size. Set them first with setVelocityBounds.");
+  }
+
   if (controlInputType_ == CONTROL_INPUT_NO_INTEGRATION) {
     state_.tail(controlIN.size()) = controlIN;
     return;
@@ -541,7 +565,7 @@ void Device::integrate(const double &dt) {
     CHECK_BOUNDS(velocity_, lowerVelocity_, upperVelocity_, "velocity");
   }
 
-  if (vel_control_.size() == state_.size()) {
+  if (vel_control_.size() == state_.size() && state_.size() >= 6) {
     // Freeflyer integration
     integrateRollPitchYaw(state_, vel_control_, dt);
     // Joints integration
-- 
2.43.0


From 66b5a98e7e053fb19933011d272bdbe791df20db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 057/106] fix: the bounds are ignored when the control is a
 position

---
 src/tools/device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index c39a41e..fbc7c2b 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -541,6 +541,9 @@ void Device::integrate(const double &dt) {
 
   if (controlInputType_ == CONTROL_INPUT_NO_INTEGRATION) {
     state_.tail(controlIN.size()) = controlIN;
+    if (sanityCheck_) {
+      CHECK_BOUNDS(state_, lowerPosition_, upperPosition_, "position");
+    }
     return;
   }
 
-- 
2.43.0


From c9f64f426868c5b0625b6b41107bcbf78693e358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 058/106] fix: the velocity bounds are ignored when the control
 is a velocity

---
 src/tools/device.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index fbc7c2b..0fd6cfb 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -451,7 +451,7 @@ void Device::increment(const double &dt) {
     velocitySOUT.setConstant(velocity_);
     velocitySOUT.setTime(time + 1);
   } else if (controlInputType_ == CONTROL_INPUT_ONE_INTEGRATION) {
-    velocitySOUT.setConstant(controlSIN.accessCopy());
+    velocitySOUT.setConstant(vel_control_);
     velocitySOUT.setTime(time + 1);
   }
   for (int i = 0; i < 4; ++i) {
@@ -512,6 +512,7 @@ void Device::integrate(const double &dt) {
   if (sanityCheck_ && controlIN.hasNaN()) {
     dgRTLOG() << "Device::integrate: Control has NaN values: " << '\n'
               << controlIN.transpose() << '\n';
+    vel_control_.setZero(controlIN.size());
     return;
   }
 
@@ -565,7 +566,12 @@ void Device::integrate(const double &dt) {
 
   // Velocity bounds check
   if (sanityCheck_) {
-    CHECK_BOUNDS(velocity_, lowerVelocity_, upperVelocity_, "velocity");
+    if (controlInputType_ == CONTROL_INPUT_TWO_INTEGRATION) {
+      CHECK_BOUNDS(velocity_, lowerVelocity_, upperVelocity_, "velocity");
+    } else {
+      CHECK_BOUNDS(vel_control_, lowerVelocity_.tail(size),
+                   upperVelocity_.tail(size), "velocity");
+    }
   }
 
   if (vel_control_.size() == state_.size() && state_.size() >= 6) {
-- 
2.43.0


From c424d0cdc0589ae6d38154c92b929c7376353f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:45 +0000
Subject: [PATCH 059/106] fix: SkewSymToVector returns the opposite of the
 vector

---
 src/matrix/operator.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index bd11c8b..43936a0 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -298,9 +298,9 @@ struct MatrixHomoToPoseUTheta
 struct SkewSymToVector : public UnaryOpHeader<Matrix, Vector> {
   inline void operator()(const Matrix &M, Vector &res) {
     res.resize(3);
-    res(0) = M(7);
-    res(1) = M(2);
-    res(2) = M(3);
+    res(0) = M(2, 1);
+    res(1) = M(0, 2);
+    res(2) = M(1, 0);
   }
 };
 
-- 
2.43.0


From aa8879b8fe6fb5a4de4a9195b06d125f7334a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:45 +0000
Subject: [PATCH 060/106] fix: the size given to MatrixDiagonal is ignored

---
 src/matrix/operator.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index 43936a0..0a225b0 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -224,7 +224,13 @@ struct MatrixTranspose : public UnaryOpHeader<dg::Matrix, dg::Matrix> {
 /* ---------------------------------------------------------------------- */
 struct Diagonalizer : public UnaryOpHeader<Vector, Matrix> {
   inline void operator()(const dg::Vector &r, dg::Matrix &res) {
-    res = r.asDiagonal();
+    if (nbr == 0 || nbc == 0) {
+      res = r.asDiagonal();
+      return;
+    }
+    res = dg::Matrix::Zero(nbr, nbc);
+    for (Vector::Index i = 0; i < std::min(r.size(), res.diagonalSize()); ++i)
+      res(i, i) = r(i);
   }
 
  public:
-- 
2.43.0


From 74308597cf4efa1f85e70327e7b176bb10a54154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:45 +0000
Subject: [PATCH 061/106] fix: the parameters of operators are indeterminate
 until they are set

---
 src/matrix/operator.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index 0a225b0..2265675 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -115,6 +115,7 @@ struct VectorComponent : public UnaryOpHeader<dg::Vector, double> {
     res = m(index);
   }
 
+  VectorComponent() : index(0) {}
   int index;
   inline void setIndex(const int &m) { index = m; }
 
@@ -148,6 +149,7 @@ struct MatrixSelector : public UnaryOpHeader<dg::Matrix, dg::Matrix> {
   }
 
  public:
+  MatrixSelector() : imin(0), imax(0), jmin(0), jmax(0) {}
   int imin, imax;
   int jmin, jmax;
 
@@ -190,6 +192,7 @@ struct MatrixColumnSelector : public UnaryOpHeader<dg::Matrix, dg::Vector> {
     for (int i = imin; i < imax; ++i) res(i - imin) = m(i, jcol);
   }
 
+  MatrixColumnSelector() : imin(0), imax(0), jcol(0) {}
   int imin, imax;
   int jcol;
   inline void selectCol(const int &m) { jcol = m; }
@@ -600,6 +603,7 @@ struct VectorStack
     : public BinaryOpHeader<dynamicgraph::Vector, dynamicgraph::Vector,
                             dynamicgraph::Vector> {
  public:
+  VectorStack() : v1min(0), v1max(0), v2min(0), v2max(0) {}
   int v1min, v1max;
   int v2min, v2max;
   inline void operator()(const dynamicgraph::Vector &v1,
@@ -788,6 +792,7 @@ namespace sot {
 template <typename T>
 struct WeightedAdder : public BinaryOpHeader<T, T, T> {
  public:
+  WeightedAdder() : gain1(1), gain2(1) {}
   double gain1, gain2;
   inline void operator()(const T &v1, const T &v2, T &res) const {
     res = v1;
-- 
2.43.0


From ef952bae997b44fb7e42172984de24410a2892aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:45 +0000
Subject: [PATCH 062/106] fix: And and Or of no input are indeterminate

---
 src/matrix/operator.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index 2265675..edd9260 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -1004,7 +1004,10 @@ struct BoolOp : public VariadicOpHeader<bool, bool> {
     // TODO computation could be optimized with lazy evaluation of the
     // signals. When the output result is know, the remaining signals are
     // not computed.
-    if (vs.size() == 0) return;
+    if (vs.size() == 0) {
+      res = (operation == 0);
+      return;
+    }
     res = *vs[0];
     for (std::size_t i = 1; i < vs.size(); ++i) switch (operation) {
         case 0:
-- 
2.43.0


From 4c80fab792d07c97df5e0bfb7cac05c26bb3db19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:45 +0000
Subject: [PATCH 063/106] fix: operators read and write outside of their inputs
 and outputs

---
 src/matrix/operator.hh | 45 +++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index edd9260..952f47d 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -35,6 +35,12 @@ namespace dg = ::dynamicgraph;
 
 namespace dynamicgraph {
 namespace sot {
+/// Refuse an input that does not have the size the operator works on.
+inline void checkOperatorInput(bool valid) {
+  if (!valid)
+    throw std::invalid_argument("Invalid size of the input of an operator.");
+}
+
 template <typename TypeIn, typename TypeOut>
 struct UnaryOpHeader {
   typedef TypeIn Tin;
@@ -63,12 +69,14 @@ struct UnaryOpHeader {
 /* ---------------------------------------------------------------------- */
 struct VectorSelecter : public UnaryOpHeader<dg::Vector, dg::Vector> {
   inline void operator()(const Tin &m, Vector &res) const {
+    checkOperatorInput(size >= 0);
     res.resize(size);
     Vector::Index r = 0;
     for (std::size_t i = 0; i < idxs.size(); ++i) {
       const Vector::Index &R = idxs[i].first;
       const Vector::Index &nr = idxs[i].second;
-      assert((nr >= 0) && (R + nr <= m.size()));
+      checkOperatorInput((R >= 0) && (nr >= 0) && (R + nr <= m.size()));
+      checkOperatorInput(r + nr <= size);
       res.segment(r, nr) = m.segment(R, nr);
       r += nr;
     }
@@ -111,7 +119,7 @@ struct VectorSelecter : public UnaryOpHeader<dg::Vector, dg::Vector> {
 /* ---------------------------------------------------------------------- */
 struct VectorComponent : public UnaryOpHeader<dg::Vector, double> {
   inline void operator()(const Tin &m, double &res) const {
-    assert(index < m.size());
+    checkOperatorInput((index >= 0) && (index < m.size()));
     res = m(index);
   }
 
@@ -141,8 +149,8 @@ struct VectorComponent : public UnaryOpHeader<dg::Vector, double> {
 /* ---------------------------------------------------------------------- */
 struct MatrixSelector : public UnaryOpHeader<dg::Matrix, dg::Matrix> {
   inline void operator()(const Matrix &m, Matrix &res) const {
-    assert((imin <= imax) && (imax <= m.rows()));
-    assert((jmin <= jmax) && (jmax <= m.cols()));
+    checkOperatorInput((0 <= imin) && (imin <= imax) && (imax <= m.rows()));
+    checkOperatorInput((0 <= jmin) && (jmin <= jmax) && (jmax <= m.cols()));
     res.resize(imax - imin, jmax - jmin);
     for (int i = imin; i < imax; ++i)
       for (int j = jmin; j < jmax; ++j) res(i - imin, j - jmin) = m(i, j);
@@ -185,8 +193,8 @@ struct MatrixSelector : public UnaryOpHeader<dg::Matrix, dg::Matrix> {
 struct MatrixColumnSelector : public UnaryOpHeader<dg::Matrix, dg::Vector> {
  public:
   inline void operator()(const Tin &m, Tout &res) const {
-    assert((imin <= imax) && (imax <= m.rows()));
-    assert(jcol < m.cols());
+    checkOperatorInput((0 <= imin) && (imin <= imax) && (imax <= m.rows()));
+    checkOperatorInput((0 <= jcol) && (jcol < m.cols()));
 
     res.resize(imax - imin);
     for (int i = imin; i < imax; ++i) res(i - imin) = m(i, jcol);
@@ -306,6 +314,7 @@ struct MatrixHomoToPoseUTheta
 
 struct SkewSymToVector : public UnaryOpHeader<Matrix, Vector> {
   inline void operator()(const Matrix &M, Vector &res) {
+    checkOperatorInput((M.rows() == 3) && (M.cols() == 3));
     res.resize(3);
     res(0) = M(2, 1);
     res(1) = M(0, 2);
@@ -316,7 +325,7 @@ struct SkewSymToVector : public UnaryOpHeader<Matrix, Vector> {
 struct PoseUThetaToMatrixHomo
     : public UnaryOpHeader<Vector, MatrixHomogeneous> {
   inline void operator()(const dg::Vector &v, MatrixHomogeneous &res) {
-    assert(v.size() >= 6);
+    checkOperatorInput(v.size() >= 6);
     res.translation() = v.head<3>();
     double theta = v.tail<3>().norm();
     if (theta > 0)
@@ -329,6 +338,7 @@ struct PoseUThetaToMatrixHomo
 struct SE3VectorToMatrixHomo
     : public UnaryOpHeader<dg::Vector, MatrixHomogeneous> {
   void operator()(const dg::Vector &vect, MatrixHomogeneous &Mres) {
+    checkOperatorInput(vect.size() >= 12);
     Mres.translation() = vect.head<3>();
     Mres.linear().row(0) = vect.segment(3, 3);
     Mres.linear().row(1) = vect.segment(6, 3);
@@ -350,6 +360,7 @@ struct MatrixHomoToSE3Vector
 struct PoseQuaternionToMatrixHomo
     : public UnaryOpHeader<Vector, MatrixHomogeneous> {
   void operator()(const dg::Vector &vect, MatrixHomogeneous &Mres) {
+    checkOperatorInput(vect.size() >= 7);
     Mres.translation() = vect.head<3>();
     Mres.linear() = VectorQuaternion(vect.tail<4>()).toRotationMatrix();
   }
@@ -380,6 +391,7 @@ struct MatrixHomoToPoseRollPitchYaw
 struct PoseRollPitchYawToMatrixHomo
     : public UnaryOpHeader<Vector, MatrixHomogeneous> {
   inline void operator()(const dg::Vector &vect, MatrixHomogeneous &Mres) {
+    checkOperatorInput(vect.size() >= 6);
     VectorRollPitchYaw r;
     for (unsigned int i = 0; i < 3; ++i) r(i) = vect(i + 3);
     MatrixRotation R = (Eigen::AngleAxisd(r(2), Eigen::Vector3d::UnitZ()) *
@@ -397,6 +409,7 @@ struct PoseRollPitchYawToMatrixHomo
 
 struct PoseRollPitchYawToPoseUTheta : public UnaryOpHeader<Vector, Vector> {
   inline void operator()(const dg::Vector &vect, dg::Vector &vectres) {
+    checkOperatorInput(vect.size() >= 6);
     VectorRollPitchYaw r;
     for (unsigned int i = 0; i < 3; ++i) r(i) = vect(i + 3);
     MatrixRotation R = (Eigen::AngleAxisd(r(2), Eigen::Vector3d::UnitZ()) *
@@ -421,9 +434,9 @@ struct HomoToMatrix : public UnaryOpHeader<MatrixHomogeneous, Matrix> {
 };
 
 struct MatrixToHomo : public UnaryOpHeader<Matrix, MatrixHomogeneous> {
-  inline void operator()(const Eigen::Matrix<double, 4, 4> &M,
-                         MatrixHomogeneous &res) {
-    res = M;
+  inline void operator()(const Matrix &M, MatrixHomogeneous &res) {
+    checkOperatorInput((M.rows() == 4) && (M.cols() == 4));
+    res = Eigen::Matrix4d(M);
   }
 };
 
@@ -569,6 +582,7 @@ inline void
 Multiplier_FxE__E<dynamicgraph::sot::MatrixHomogeneous, dynamicgraph::Vector>::
 operator()(const dynamicgraph::sot::MatrixHomogeneous &f,
            const dynamicgraph::Vector &e, dynamicgraph::Vector &res) const {
+  checkOperatorInput(e.size() == 4);
   res = f.matrix() * e;
 }
 
@@ -609,8 +623,10 @@ struct VectorStack
   inline void operator()(const dynamicgraph::Vector &v1,
                          const dynamicgraph::Vector &v2,
                          dynamicgraph::Vector &res) const {
-    assert((v1max >= v1min) && (v1.size() >= v1max));
-    assert((v2max >= v2min) && (v2.size() >= v2max));
+    checkOperatorInput((0 <= v1min) && (v1max >= v1min) &&
+                       (v1.size() >= v1max));
+    checkOperatorInput((0 <= v2min) && (v2max >= v2min) &&
+                       (v2.size() >= v2max));
 
     const int v1size = v1max - v1min, v2size = v2max - v2min;
     res.resize(v1size + v2size);
@@ -662,6 +678,7 @@ struct Composer
   inline void operator()(const dynamicgraph::Matrix &R,
                          const dynamicgraph::Vector &t,
                          MatrixHomogeneous &H) const {
+    checkOperatorInput((R.rows() == 3) && (R.cols() == 3) && (t.size() == 3));
     H.linear() = R;
     H.translation() = t;
   }
@@ -877,11 +894,15 @@ struct VectorMix : public VariadicOpHeader<Vector, Vector> {
   segments_t idxs;
   inline void operator()(const std::vector<const Vector *> &vs,
                          Vector &res) const {
+    checkOperatorInput(!vs.empty());
     res = *vs[0];
     for (std::size_t i = 0; i < idxs.size(); ++i) {
       const segment_t &s = idxs[i];
       if (s.sigIdx >= vs.size())
         throw std::invalid_argument("Index out of range in VectorMix");
+      checkOperatorInput((s.index >= 0) && (s.size >= 0) &&
+                         (s.index + s.size <= res.size()) &&
+                         (vs[s.sigIdx]->size() == s.size));
       res.segment(s.index, s.size) = *vs[s.sigIdx];
     }
   }
-- 
2.43.0


From fc34bdcc1b3d126997c0510f258e8e5e15d1f932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:22 +0000
Subject: [PATCH 064/106] fix: operators keep their output after a change of
 parameters or inputs

---
 include/sot/core/variadic-op.hh |  2 +
 src/matrix/operator.hh          | 65 ++++++++++++++++++++++++---------
 2 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/include/sot/core/variadic-op.hh b/include/sot/core/variadic-op.hh
index 034660e..7c63563 100644
--- a/include/sot/core/variadic-op.hh
+++ b/include/sot/core/variadic-op.hh
@@ -126,11 +126,13 @@ class VariadicAbstract : public Entity {
     // signalDeregistration(names[i]);
     signalDeregistration(signalsIN[i]->shortName());
     SOUT.removeDependency(*signalsIN[i]);
+    SOUT.setReady();
     delete signalsIN[i];
   }
   void _declareSignal(signal_t *s) {
     signalRegistration(*s);
     SOUT.addDependency(*s);
+    SOUT.setReady();
   }
   const std::string baseSigname;
 };
diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index 952f47d..5e8d0a3 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -41,6 +41,26 @@ inline void checkOperatorInput(bool valid) {
     throw std::invalid_argument("Invalid size of the input of an operator.");
 }
 
+/// Call a function that changes a parameter of an operator: its output has to
+/// be computed again even if no input changes.
+template <typename Op, typename... Args>
+boost::function<void(const Args &...)> parameterSetter(
+    Entity &ent, Op *op, void (Op::*setter)(const Args &...)) {
+  return [&ent, op, setter](const Args &... args) {
+    (op->*setter)(args...);
+    ent.getSignal("sout").setReady();
+  };
+}
+
+template <typename Op, typename T>
+boost::function<void(const T &)> parameterSetter(Entity &ent, Op *op,
+                                                 T Op::*parameter) {
+  return [&ent, op, parameter](const T &value) {
+    op->*parameter = value;
+    ent.getSignal("sout").setReady();
+  };
+}
+
 template <typename TypeIn, typename TypeOut>
 struct UnaryOpHeader {
   typedef TypeIn Tin;
@@ -103,12 +123,12 @@ struct VectorSelecter : public UnaryOpHeader<dg::Vector, dg::Vector> {
     std::string doc;
 
     boost::function<void(const int &, const int &)> setBound =
-        boost::bind(&VectorSelecter::setBounds, this, _1, _2);
+        parameterSetter(ent, this, &VectorSelecter::setBounds);
     doc = docCommandVoid2("Set the bound of the selection [m,M[.", "int (min)",
                           "int (max)");
     ADD_COMMAND("selec", makeCommandVoid2(ent, setBound, doc));
     boost::function<void(const int &, const int &)> addBound =
-        boost::bind(&VectorSelecter::addBounds, this, _1, _2);
+        parameterSetter(ent, this, &VectorSelecter::addBounds);
     doc = docCommandVoid2("Add a segment to be selected [m,M[.", "int (min)",
                           "int (max)");
     ADD_COMMAND("addSelec", makeCommandVoid2(ent, addBound, doc));
@@ -132,7 +152,7 @@ struct VectorComponent : public UnaryOpHeader<dg::Vector, double> {
     std::string doc;
 
     boost::function<void(const int &)> callback =
-        boost::bind(&VectorComponent::setIndex, this, _1);
+        parameterSetter(ent, this, &VectorComponent::setIndex);
     doc = command::docCommandVoid1("Set the index of the component.",
                                    "int (index)");
     ADD_COMMAND("setIndex", command::makeCommandVoid1(ent, callback, doc));
@@ -176,9 +196,9 @@ struct MatrixSelector : public UnaryOpHeader<dg::Matrix, dg::Matrix> {
     std::string doc;
 
     boost::function<void(const int &, const int &)> setBoundsRow =
-        boost::bind(&MatrixSelector::setBoundsRow, this, _1, _2);
+        parameterSetter(ent, this, &MatrixSelector::setBoundsRow);
     boost::function<void(const int &, const int &)> setBoundsCol =
-        boost::bind(&MatrixSelector::setBoundsCol, this, _1, _2);
+        parameterSetter(ent, this, &MatrixSelector::setBoundsCol);
 
     doc = docCommandVoid2("Set the bound on rows.", "int (min)", "int (max)");
     ADD_COMMAND("selecRows", makeCommandVoid2(ent, setBoundsRow, doc));
@@ -215,9 +235,9 @@ struct MatrixColumnSelector : public UnaryOpHeader<dg::Matrix, dg::Vector> {
     std::string doc;
 
     boost::function<void(const int &, const int &)> setBoundsRow =
-        boost::bind(&MatrixColumnSelector::setBoundsRow, this, _1, _2);
+        parameterSetter(ent, this, &MatrixColumnSelector::setBoundsRow);
     boost::function<void(const int &)> selectCol =
-        boost::bind(&MatrixColumnSelector::selectCol, this, _1);
+        parameterSetter(ent, this, &MatrixColumnSelector::selectCol);
 
     doc = docCommandVoid2("Set the bound on rows.", "int (min)", "int (max)");
     ADD_COMMAND("selecRows", makeCommandVoid2(ent, setBoundsRow, doc));
@@ -257,7 +277,7 @@ struct Diagonalizer : public UnaryOpHeader<Vector, Matrix> {
     std::string doc;
 
     boost::function<void(const int &, const int &)> resize =
-        boost::bind(&Diagonalizer::resize, this, _1, _2);
+        parameterSetter(ent, this, &Diagonalizer::resize);
 
     doc = docCommandVoid2("Set output size.", "int (row)", "int (col)");
     ADD_COMMAND("resize", makeCommandVoid2(ent, resize, doc));
@@ -638,11 +658,11 @@ struct VectorStack
     }
   }
 
-  inline void selec1(const int &m, const int M) {
+  inline void selec1(const int &m, const int &M) {
     v1min = m;
     v1max = M;
   }
-  inline void selec2(const int &m, const int M) {
+  inline void selec2(const int &m, const int &M) {
     v2min = m;
     v2max = M;
   }
@@ -653,9 +673,9 @@ struct VectorStack
     std::string doc;
 
     boost::function<void(const int &, const int &)> selec1 =
-        boost::bind(&VectorStack::selec1, this, _1, _2);
+        parameterSetter(ent, this, &VectorStack::selec1);
     boost::function<void(const int &, const int &)> selec2 =
-        boost::bind(&VectorStack::selec2, this, _1, _2);
+        parameterSetter(ent, this, &VectorStack::selec2);
 
     ADD_COMMAND(
         "selec1",
@@ -788,12 +808,17 @@ struct MatrixComparison : public BinaryOpHeader<T1, T2, bool> {
     using namespace dynamicgraph::command;
     ADD_COMMAND(
         "setTrueIfAny",
-        makeDirectSetter(ent, &any, docDirectSetter("trueIfAny", "bool")));
+        makeCommandVoid1(ent,
+                         parameterSetter(ent, this, &MatrixComparison::any),
+                         docDirectSetter("trueIfAny", "bool")));
     ADD_COMMAND(
         "getTrueIfAny",
         makeDirectGetter(ent, &any, docDirectGetter("trueIfAny", "bool")));
-    ADD_COMMAND("setEqual", makeDirectSetter(ent, &equal,
-                                             docDirectSetter("equal", "bool")));
+    ADD_COMMAND(
+        "setEqual",
+        makeCommandVoid1(ent,
+                         parameterSetter(ent, this, &MatrixComparison::equal),
+                         docDirectSetter("equal", "bool")));
     ADD_COMMAND("getEqual", makeDirectGetter(ent, &equal,
                                              docDirectGetter("equal", "bool")));
   }
@@ -824,10 +849,14 @@ struct WeightedAdder : public BinaryOpHeader<T, T, T> {
 
     ADD_COMMAND(
         "setGain1",
-        makeDirectSetter(ent, &gain1, docDirectSetter("gain1", "double")));
+        makeCommandVoid1(ent,
+                         parameterSetter(ent, this, &WeightedAdder::gain1),
+                         docDirectSetter("gain1", "double")));
     ADD_COMMAND(
         "setGain2",
-        makeDirectSetter(ent, &gain2, docDirectSetter("gain2", "double")));
+        makeCommandVoid1(ent,
+                         parameterSetter(ent, this, &WeightedAdder::gain2),
+                         docDirectSetter("gain2", "double")));
     ADD_COMMAND(
         "getGain1",
         makeDirectGetter(ent, &gain1, docDirectGetter("gain1", "double")));
@@ -909,6 +938,7 @@ struct VectorMix : public VariadicOpHeader<Vector, Vector> {
 
   inline void addSelec(const int &sigIdx, const int &i, const int &s) {
     idxs.push_back(segment_t(i, s, sigIdx));
+    entity->SOUT.setReady();
   }
 
   inline void initialize(Base *ent, Entity::CommandMap_t &commandMap) {
@@ -949,6 +979,7 @@ struct AdderVariadic : public VariadicOpHeader<T, T> {
     if (entity->getSignalNumber() != c.size())
       throw std::invalid_argument("Invalid coefficient size.");
     coeffs = c;
+    entity->SOUT.setReady();
   }
   inline void updateSignalNumber(const int &n) { coeffs = Vector::Ones(n); }
 
-- 
2.43.0


From a35874ad114a1efbb3212bd4f55a05a4fac4880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:22 +0000
Subject: [PATCH 065/106] fix: a sum reads outside of its coefficients after a
 signal is added

---
 include/sot/core/variadic-op.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sot/core/variadic-op.hh b/include/sot/core/variadic-op.hh
index 7c63563..2fb7f34 100644
--- a/include/sot/core/variadic-op.hh
+++ b/include/sot/core/variadic-op.hh
@@ -72,6 +72,7 @@ class VariadicAbstract : public Entity {
       _declareSignal(sig);
       signalsIN.push_back(sig);
       // names.push_back (name);
+      updateSignalNumber((int)signalsIN.size());
       return signalsIN.size() - 1;
     } catch (const ExceptionAbstract &) {
       delete sig;
@@ -84,6 +85,7 @@ class VariadicAbstract : public Entity {
     _removeSignal(signalsIN.size() - 1);
     // names.pop_back();
     signalsIN.pop_back();
+    updateSignalNumber((int)signalsIN.size());
   }
 
   void setSignalNumber(const int &n) {
-- 
2.43.0


From 75c2c8ddd9f15c4fceb9e26fd26d802b83821546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:44 +0000
Subject: [PATCH 066/106] fix: an event does not see its first condition when
 it is true

---
 include/sot/core/event.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sot/core/event.hh b/include/sot/core/event.hh
index c2196af..ccef1da 100644
--- a/include/sot/core/event.hh
+++ b/include/sot/core/event.hh
@@ -115,7 +115,7 @@ class SOT_CORE_DLLAPI Event : public dynamicgraph::Entity {
   Triggers_t triggers;
   SignalPtr<bool, int> conditionSIN;
 
-  bool lastVal_;
+  int lastVal_;
   int timeSinceUp_, repeatAfterNIterations_;
 };
 }  // namespace sot
-- 
2.43.0


From 5efb56d3f5b6dd3906b1004b8953fce525d5683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:44 +0000
Subject: [PATCH 067/106] fix: an event repeats while its condition is false

---
 src/tools/event.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/event.cpp b/src/tools/event.cpp
index ae388ca..683d4d7 100644
--- a/src/tools/event.cpp
+++ b/src/tools/event.cpp
@@ -18,7 +18,7 @@ bool &Event::check(bool &ret, const int &time) {
     ++timeSinceUp_;
   }
   // If repetition is activated, trigger again after given number of iterations
-  bool trigger = up || (repeatAfterNIterations_ > 0 &&
+  bool trigger = up || (val && repeatAfterNIterations_ > 0 &&
                         timeSinceUp_ >= repeatAfterNIterations_);
   if (ret) {
     lastVal_ = val;
-- 
2.43.0


From 363ea5466cd414bd5cbf861357e6244cd8a72271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:45 +0000
Subject: [PATCH 068/106] fix: a downsampling factor of zero divides by zero

---
 src/tools/periodic-call.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/periodic-call.cpp b/src/tools/periodic-call.cpp
index 9790808..7cf497f 100644
--- a/src/tools/periodic-call.cpp
+++ b/src/tools/periodic-call.cpp
@@ -17,6 +17,7 @@
 #include <dynamic-graph/pool.h>
 
 #include <algorithm>
+#include <stdexcept>
 #include <sot/core/debug.hh>
 #include <sot/core/exception-tools.hh>
 #include <sot/core/periodic-call.hh>
@@ -50,6 +51,8 @@ void PeriodicCall::addSignal(const std::string &sigpath) {
 void PeriodicCall::addDownsampledSignal(
     const std::string &name, SignalBase<int> &sig,
     const unsigned int &downsamplingFactor) {
+  if (downsamplingFactor == 0)
+    throw std::invalid_argument("The downsampling factor should be positive.");
   signalMap[name] = SignalToCall(&sig, downsamplingFactor);
   return;
 }
-- 
2.43.0


From cbd226fbea73146233b8f6200871b029f3b6cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:34 +0000
Subject: [PATCH 069/106] fix: the stamp of a trajectory is never parsed

---
 src/tools/trajectory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 3036a5d..45512ee 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -104,8 +104,10 @@ void RulesJointTrajectory::parse_header(std::string &trajectory,
   if (search_exp_sub_string(trajectory, what, header_re, sub_text1)) {
     is.str(what[1]);
     is >> TrajectoryToFill_.header_.seq_;
+    is.clear();
     is.str(what[2]);
     is >> TrajectoryToFill_.header_.stamp_.secs_;
+    is.clear();
     is.str(what[3]);
     is >> TrajectoryToFill_.header_.stamp_.nsecs_;
     TrajectoryToFill_.header_.frame_id_ = what[4];
-- 
2.43.0


From fda21c74354e0aa0424e938e64d6670735fdd921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:34 +0000
Subject: [PATCH 070/106] fix: the copy of a trajectory loses its joint names

---
 src/tools/trajectory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 45512ee..495a48b 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -283,9 +283,10 @@ void RulesJointTrajectory::parse_string(std::string &atext) {
   parse_points(sub_text1, sub_text2);
 }
 
-Trajectory::Trajectory(void) {}
+Trajectory::Trajectory(void) : time_from_start_(0) {}
 
 Trajectory::Trajectory(const Trajectory &copy) {
+  joint_names_ = copy.joint_names_;
   header_ = copy.header_;
   time_from_start_ = copy.time_from_start_;
   points_ = copy.points_;
-- 
2.43.0


From 7301cea77050cba983d0b12d53761ebf4786a50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:34 +0000
Subject: [PATCH 071/106] fix: a trajectory without the end of its joint names
 is parsed forever

---
 src/tools/trajectory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 495a48b..6d58d96 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -147,6 +147,8 @@ void RulesJointTrajectory::parse_joint_names(
                   << std::endl;
         std::cout << "sub_text1:" << sub_text1 << std::endl;
       }
+    } else {
+      return;
     }
     trajectory = sub_text1;
 
-- 
2.43.0


From 65ecb18b06df6d6feba4824e9802ca64933a1ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:34 +0000
Subject: [PATCH 072/106] fix: integers and exponents are lost when a
 trajectory is parsed

---
 src/tools/trajectory.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 6d58d96..4e7cdb1 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -32,7 +32,8 @@ namespace sot {
 RulesJointTrajectory::RulesJointTrajectory(Trajectory &aTrajectoryToFill)
     : TrajectoryToFill_(aTrajectoryToFill),
       dbg_level(0),
-      float_str_re("[-0-9]+\\.[0-9]*"),
+      float_str_re(
+          "[-+]?(?:[0-9]+\\.?[0-9]*|\\.[0-9]+)(?:[eE][-+]?[0-9]+)?"),
 
       // Header Regular Expression
       seq_str_re("([0-9]+)"),
@@ -46,7 +47,7 @@ RulesJointTrajectory::RulesJointTrajectory(Trajectory &aTrajectoryToFill)
       list_of_jn_str_re(joint_name_str_re + "(\\,|\\))"),
 
       // Point
-      point_value_str_re("(" + float_str_re + "+)|(?:)"),
+      point_value_str_re("(" + float_str_re + ")|(?:)"),
       list_of_pv_str_re(point_value_str_re + "(\\,|\\))"),
       bg_pt_str_re("\\("),
       end_pt_str_re("\\)"),
-- 
2.43.0


From a7194a07834bc76013c2dc05a6d6028386f86ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:34 +0000
Subject: [PATCH 073/106] fix: a trajectory parsed twice is appended to itself

---
 src/tools/trajectory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 4e7cdb1..95d36e1 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -299,6 +299,8 @@ Trajectory::~Trajectory(void) {}
 
 int Trajectory::deserialize(std::istringstream &is) {
   std::string aStr = is.str();
+  joint_names_.clear();
+  points_.clear();
   RulesJointTrajectory aRJT(*this);
   aRJT.parse_string(aStr);
 
-- 
2.43.0


From cea783218a847ac5af07a37514c192ce94cecca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:34 +0000
Subject: [PATCH 074/106] fix: the position of a trajectory ends with
 indeterminate values

---
 src/tools/joint-trajectory-entity.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index 18317b5..490b3c6 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -91,9 +91,10 @@ void SotJointTrajectoryEntity::UpdatePoint(const JointTrajectoryPoint &aJTP) {
   sotDEBUGIN(5);
   // Posture
   std::vector<JointTrajectoryPoint>::size_type possize = aJTP.positions_.size();
-  if (possize == 0) return;
+  // The last values are the center of mass and the center of pressure.
+  if (possize < 5) return;
 
-  pose_.resize(aJTP.positions_.size());
+  pose_.resize(possize - 5);
   for (std::vector<JointTrajectoryPoint>::size_type i = 0; i < possize - 5;
        i++) {
     pose_(i) = aJTP.positions_[i];
-- 
2.43.0


From 3abd40bc49cf58aa12bb4d70e0dc3665cdf1870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:34 +0000
Subject: [PATCH 075/106] fix: the heading of the waist turns its position

---
 src/tools/joint-trajectory-entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index 490b3c6..deef596 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -236,7 +236,7 @@ sot::MatrixHomogeneous SotJointTrajectoryEntity::XYZThetaToMatrixHomogeneous(
   trans = Eigen::Translation3d(t);
   Eigen::Affine3d _Rd(Eigen::AngleAxisd(xyztheta(3), Eigen::Vector3d::UnitZ()));
   sot::MatrixHomogeneous res;
-  res = _Rd * trans;
+  res = trans * _Rd;
   return res;
 }
 
-- 
2.43.0


From 05101a385cf4fe350216e4742d4f805379072216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:34 +0000
Subject: [PATCH 076/106] fix: a trajectory entity that is not initialized
 reads an empty queue

---
 src/tools/joint-trajectory-entity.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index deef596..bef4c70 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -71,6 +71,7 @@ SotJointTrajectoryEntity::SotJointTrajectoryEntity(const std::string &n)
                                   << seqIdSOUT << trajectorySIN);
   refresherSINTERN.setDependencyType(TimeDependency<int>::ALWAYS_READY);
   refresherSINTERN.setReady(true);
+  waist_.setIdentity();
 
   std::string docstring;
   docstring =
@@ -207,6 +208,10 @@ void SotJointTrajectoryEntity::UpdateTrajectory(const Trajectory &aTrajectory) {
 int &SotJointTrajectoryEntity::OneStepOfUpdate(int &dummy, const int &time) {
   sotDEBUGIN(4);
   const Trajectory &atraj = trajectorySIN(time);
+  if (deque_traj_.empty()) {
+    UpdateTrajectory(atraj);
+    return dummy;
+  }
   if ((atraj.header_.stamp_.secs_ !=
        deque_traj_.front().header_.stamp_.secs_) ||
       (atraj.header_.stamp_.nsecs_ !=
-- 
2.43.0


From 4675e84f2599df717df740d37697654de2139928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:40 +0000
Subject: [PATCH 077/106] fix: the number of joints and the force ids of a new
 robot are indeterminate

---
 include/sot/core/robot-utils.hh | 6 ++++++
 src/tools/robot-utils.cpp       | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/sot/core/robot-utils.hh b/include/sot/core/robot-utils.hh
index fa256e7..2573b04 100644
--- a/include/sot/core/robot-utils.hh
+++ b/include/sot/core/robot-utils.hh
@@ -76,6 +76,12 @@ struct SOT_CORE_EXPORT ForceUtil {
   Index m_Force_Id_Left_Hand, m_Force_Id_Right_Hand, m_Force_Id_Left_Foot,
       m_Force_Id_Right_Foot;
 
+  ForceUtil()
+      : m_Force_Id_Left_Hand(-1),
+        m_Force_Id_Right_Hand(-1),
+        m_Force_Id_Left_Foot(-1),
+        m_Force_Id_Right_Foot(-1) {}
+
   void set_name_to_force_id(const std::string &name, const Index &force_id);
 
   void set_force_id_to_limits(const Index &force_id,
diff --git a/src/tools/robot-utils.cpp b/src/tools/robot-utils.cpp
index f628855..09033e9 100644
--- a/src/tools/robot-utils.cpp
+++ b/src/tools/robot-utils.cpp
@@ -226,7 +226,7 @@ void ForceUtil::display(std::ostream &os) const {
 }
 
 /**************** FromURDFToSot *************************/
-RobotUtil::RobotUtil() {}
+RobotUtil::RobotUtil() : m_nbJoints(0) {}
 
 void RobotUtil::set_joint_limits_for_id(const Index &idx, const double &lq,
                                         const double &uq) {
-- 
2.43.0


From a521ee6a2845807e9de37c467902f22e9a85c932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:40 +0000
Subject: [PATCH 078/106] fix: a name given another id is still the name of the
 former one

---
 src/tools/robot-utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/robot-utils.cpp b/src/tools/robot-utils.cpp
index 09033e9..51e3d91 100644
--- a/src/tools/robot-utils.cpp
+++ b/src/tools/robot-utils.cpp
@@ -174,6 +174,7 @@ std::string ForceUtil::cp_get_name_from_id(Index idx) {
 }
 void ForceUtil::create_force_id_to_name_map() {
   std::map<std::string, Index>::const_iterator it;
+  m_force_id_to_name.clear();
   for (it = m_name_to_force_id.begin(); it != m_name_to_force_id.end(); it++)
     m_force_id_to_name[it->second] = it->first;
 }
@@ -251,6 +252,7 @@ void RobotUtil::set_name_to_id(const std::string &jointName,
 
 void RobotUtil::create_id_to_name_map() {
   std::map<std::string, Index>::const_iterator it;
+  m_id_to_name.clear();
   for (it = m_name_to_id.begin(); it != m_name_to_id.end(); it++)
     m_id_to_name[it->second] = it->first;
 }
-- 
2.43.0


From cf1dddf0cfa1f6dd68d12eb14379fc262e859189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:40 +0000
Subject: [PATCH 079/106] fix: a parameter server that is not initialized
 follows a null pointer

---
 src/tools/parameter-server.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tools/parameter-server.cpp b/src/tools/parameter-server.cpp
index face65a..5007136 100644
--- a/src/tools/parameter-server.cpp
+++ b/src/tools/parameter-server.cpp
@@ -210,7 +210,6 @@ void ParameterServer::init_simple(const double &dt) {
   m_dt = dt;
 
   m_emergency_stop_triggered = false;
-  m_initSucceeded = true;
 
   std::string localName("robot");
   std::shared_ptr<std::vector<std::string> > listOfRobots =
@@ -231,6 +230,7 @@ void ParameterServer::init_simple(const double &dt) {
   } else {
     m_robot_util = getRobotUtil(localName);
   }
+  m_initSucceeded = true;
 
   addCommand(
       "getJointsUrdfToSot",
@@ -375,7 +375,13 @@ void ParameterServer::setImuJointName(const std::string &JointName) {
   m_robot_util->m_imu_joint_name = JointName;
 }
 
-void ParameterServer::displayRobotUtil() { m_robot_util->display(std::cout); }
+void ParameterServer::displayRobotUtil() {
+  if (!m_initSucceeded) {
+    SEND_WARNING_STREAM_MSG("Cannot display robot util before initialization!");
+    return;
+  }
+  m_robot_util->display(std::cout);
+}
 
 /* --- PROTECTED MEMBER METHODS
  * ---------------------------------------------------------- */
-- 
2.43.0


From d3bff42eefabd01d02ba029f9c97c0d87516e504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:40 +0000
Subject: [PATCH 080/106] fix: joints mapped outside of the robot are read and
 written outside of vectors

---
 src/tools/robot-utils.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tools/robot-utils.cpp b/src/tools/robot-utils.cpp
index 51e3d91..535368e 100644
--- a/src/tools/robot-utils.cpp
+++ b/src/tools/robot-utils.cpp
@@ -29,6 +29,7 @@
 #include <sot/core/debug.hh>
 #include <sot/core/robot-utils.hh>
 #include <sstream>
+#include <stdexcept>
 
 namespace dynamicgraph {
 namespace sot {
@@ -270,6 +271,9 @@ const std::string &RobotUtil::get_name_from_id(Index id) {
 }
 
 void RobotUtil::set_urdf_to_sot(const std::vector<Index> &urdf_to_sot) {
+  for (std::size_t idx = 0; idx < urdf_to_sot.size(); idx++)
+    if (urdf_to_sot[idx] < 0 || urdf_to_sot[idx] >= (Index)urdf_to_sot.size())
+      throw std::invalid_argument("A joint is mapped outside of the robot.");
   m_nbJoints = urdf_to_sot.size();
   m_urdf_to_sot.resize(urdf_to_sot.size());
   m_dgv_urdf_to_sot.resize(urdf_to_sot.size());
@@ -281,6 +285,10 @@ void RobotUtil::set_urdf_to_sot(const std::vector<Index> &urdf_to_sot) {
 }
 
 void RobotUtil::set_urdf_to_sot(const dg::Vector &urdf_to_sot) {
+  for (Index idx = 0; idx < urdf_to_sot.size(); idx++)
+    if (!(urdf_to_sot[idx] >= 0 &&
+          urdf_to_sot[idx] < static_cast<double>(urdf_to_sot.size())))
+      throw std::invalid_argument("A joint is mapped outside of the robot.");
   m_nbJoints = urdf_to_sot.size();
   m_urdf_to_sot.resize(urdf_to_sot.size());
   for (unsigned int idx = 0; idx < urdf_to_sot.size(); idx++) {
-- 
2.43.0


From 4d26222cbd191fa38938b0344f5f552c3d0d554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:12 +0000
Subject: [PATCH 081/106] fix: the force of an admittance ignores the motions
 of its sensor

---
 src/control/admittance-control-op-point.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/control/admittance-control-op-point.cpp b/src/control/admittance-control-op-point.cpp
index 5b0b01d..7a7b70b 100644
--- a/src/control/admittance-control-op-point.cpp
+++ b/src/control/admittance-control-op-point.cpp
@@ -61,7 +61,8 @@ AdmittanceControlOpPoint::AdmittanceControlOpPoint(const std::string &name)
       CONSTRUCT_SIGNAL_IN(w_forceDes, dynamicgraph::Vector),
       CONSTRUCT_SIGNAL_IN(opPose, dynamicgraph::sot::MatrixHomogeneous),
       CONSTRUCT_SIGNAL_IN(sensorPose, dynamicgraph::sot::MatrixHomogeneous),
-      CONSTRUCT_SIGNAL_INNER(w_force, dynamicgraph::Vector, m_forceSIN),
+      CONSTRUCT_SIGNAL_INNER(w_force, dynamicgraph::Vector,
+                             m_forceSIN << m_sensorPoseSIN),
       CONSTRUCT_SIGNAL_INNER(w_dq, dynamicgraph::Vector,
                              INPUT_SIGNALS << m_w_forceSINNER),
       CONSTRUCT_SIGNAL_OUT(dq, dynamicgraph::Vector, m_w_dqSINNER),
-- 
2.43.0


From b9b6ac90367c13137dd6665590761a9cd4ca8ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:12 +0000
Subject: [PATCH 082/106] fix: an admittance reset before it is initialized has
 an indeterminate size

---
 src/control/admittance-control-op-point.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/control/admittance-control-op-point.cpp b/src/control/admittance-control-op-point.cpp
index 7a7b70b..b80dfba 100644
--- a/src/control/admittance-control-op-point.cpp
+++ b/src/control/admittance-control-op-point.cpp
@@ -66,7 +66,9 @@ AdmittanceControlOpPoint::AdmittanceControlOpPoint(const std::string &name)
       CONSTRUCT_SIGNAL_INNER(w_dq, dynamicgraph::Vector,
                              INPUT_SIGNALS << m_w_forceSINNER),
       CONSTRUCT_SIGNAL_OUT(dq, dynamicgraph::Vector, m_w_dqSINNER),
-      m_initSucceeded(false) {
+      m_n(6),
+      m_initSucceeded(false),
+      m_w_dq(dynamicgraph::Vector::Zero(6)) {
   Entity::signalRegistration(INPUT_SIGNALS << INNER_SIGNALS << OUTPUT_SIGNALS);
 
   /* Commands. */
-- 
2.43.0


From 1ab1117f9e0e7dccf30f9cebecef8049db31b864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:12 +0000
Subject: [PATCH 083/106] fix: the transformation of a new op-point modifier is
 indeterminate

---
 src/math/op-point-modifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/op-point-modifier.cpp b/src/math/op-point-modifier.cpp
index f77af94..22ad40c 100644
--- a/src/math/op-point-modifier.cpp
+++ b/src/math/op-point-modifier.cpp
@@ -38,7 +38,7 @@ OpPointModifier::OpPointModifier(const std::string &name)
           boost::bind(&OpPointModifier::positionSOUT_function, this, _1, _2),
           positionSIN,
           "OpPointModifior(" + name + ")::output(matrixhomo)::position"),
-      transformation(),
+      transformation(MatrixHomogeneous::Identity()),
       isEndEffector(true) {
   sotDEBUGIN(15);
 
-- 
2.43.0


From 1813088e7e26131720b3a57eec7318dc6cdc967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:12 +0000
Subject: [PATCH 084/106] fix: the Jacobian of an op-point modifier ignores the
 motions of the point

---
 src/math/op-point-modifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/op-point-modifier.cpp b/src/math/op-point-modifier.cpp
index 22ad40c..8d7698a 100644
--- a/src/math/op-point-modifier.cpp
+++ b/src/math/op-point-modifier.cpp
@@ -32,7 +32,7 @@ OpPointModifier::OpPointModifier(const std::string &name)
           NULL, "OpPointModifior(" + name + ")::input(matrixhomo)::positionIN"),
       jacobianSOUT(
           boost::bind(&OpPointModifier::jacobianSOUT_function, this, _1, _2),
-          jacobianSIN,
+          jacobianSIN << positionSIN,
           "OpPointModifior(" + name + ")::output(matrix)::jacobian"),
       positionSOUT(
           boost::bind(&OpPointModifier::positionSOUT_function, this, _1, _2),
-- 
2.43.0


From 3cc7c7f482b8b7a3b0cc6ef1c28fe7c044e88766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:12 +0000
Subject: [PATCH 085/106] fix: an op-point modifier keeps its outputs when its
 transformation is set

---
 include/sot/core/op-point-modifier.hh |  1 +
 src/math/op-point-modifier.cpp        | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/op-point-modifier.hh b/include/sot/core/op-point-modifier.hh
index 5ac5fdc..991013a 100644
--- a/include/sot/core/op-point-modifier.hh
+++ b/include/sot/core/op-point-modifier.hh
@@ -67,6 +67,7 @@ class SOTOPPOINTMODIFIER_EXPORT OpPointModifier : public dynamicgraph::Entity {
   MatrixHomogeneous &positionSOUT_function(MatrixHomogeneous &res,
                                            const int &time);
   void setTransformation(const Eigen::Matrix4d &tr);
+  void setEndEffector(const bool &b);
   void setTransformationBySignalName(std::istringstream &cmdArgs);
   const Eigen::Matrix4d &getTransformation(void);
 
diff --git a/src/math/op-point-modifier.cpp b/src/math/op-point-modifier.cpp
index 8d7698a..18e87fb 100644
--- a/src/math/op-point-modifier.cpp
+++ b/src/math/op-point-modifier.cpp
@@ -52,13 +52,13 @@ OpPointModifier::OpPointModifier(const std::string &name)
                          docDirectGetter("transformation", "matrix 4x4 homo")));
     addCommand(
         "setTransformation",
-        makeDirectSetter(*this, &transformation.matrix(),
+        makeCommandVoid1(*this, &OpPointModifier::setTransformation,
                          docDirectSetter("dimension", "matrix 4x4 homo")));
     addCommand("getEndEffector",
                makeDirectGetter(*this, &isEndEffector,
                                 docDirectGetter("end effector mode", "bool")));
     addCommand("setEndEffector",
-               makeDirectSetter(*this, &isEndEffector,
+               makeCommandVoid1(*this, &OpPointModifier::setEndEffector,
                                 docDirectSetter("end effector mode", "bool")));
   }
 
@@ -123,6 +123,13 @@ MatrixHomogeneous &OpPointModifier::positionSOUT_function(
 
 void OpPointModifier::setTransformation(const Eigen::Matrix4d &tr) {
   transformation.matrix() = tr;
+  // The outputs have to be computed again, even from the same inputs.
+  jacobianSOUT.setReady();
+  positionSOUT.setReady();
+}
+void OpPointModifier::setEndEffector(const bool &b) {
+  isEndEffector = b;
+  jacobianSOUT.setReady();
 }
 const Eigen::Matrix4d &OpPointModifier::getTransformation(void) {
   return transformation.matrix();
-- 
2.43.0


From e388e08c0ebaa0906028dd00a2650a8642c67cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:12 +0000
Subject: [PATCH 086/106] fix: a visual point is multiplied by a matrix of
 another size

---
 src/feature/visual-point-projecter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feature/visual-point-projecter.cpp b/src/feature/visual-point-projecter.cpp
index 6f1c500..4ec2012 100644
--- a/src/feature/visual-point-projecter.cpp
+++ b/src/feature/visual-point-projecter.cpp
@@ -51,7 +51,7 @@ dynamicgraph::Vector &VisualPointProjecter::point3DgazeSOUT_function(
   const MatrixHomogeneous &M = m_transfoSIN(iter);
   MatrixHomogeneous Mi;
   Mi = M.inverse(Eigen::Affine);
-  p3g = Mi.matrix() * p3;
+  p3g = Mi.linear() * p3 + Mi.translation();
   return p3g;
 }
 
-- 
2.43.0


From 0b7f42e19c3be0df18e51105fcad076d7e2b1b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:12 +0000
Subject: [PATCH 087/106] fix: the velocity of a gripper of several joints is
 not weighted

---
 src/tools/gripper-control.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gripper-control.cpp b/src/tools/gripper-control.cpp
index 29fb5fb..4afe5eb 100644
--- a/src/tools/gripper-control.cpp
+++ b/src/tools/gripper-control.cpp
@@ -148,7 +148,7 @@ dynamicgraph::Vector &GripperControl::computeDesiredPosition(
 
   // multiply the velocity elmt per elmt
   dynamicgraph::Vector weightedVel(SIZE);
-  weightedVel = velocity * factor;
+  weightedVel = velocity.cwiseProduct(factor);
   sotDEBUG(25) << " weightedVel " << weightedVel << std::endl;
 
   // integrate the desired velocity
-- 
2.43.0


From 278821fa79463ba6e6183d50611f80eb0236b17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:12 +0000
Subject: [PATCH 088/106] fix: the center of mass is frozen as soon as the
 pattern generator stops

---
 src/tools/com-freezer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/com-freezer.cpp b/src/tools/com-freezer.cpp
index 700e344..87d9972 100644
--- a/src/tools/com-freezer.cpp
+++ b/src/tools/com-freezer.cpp
@@ -51,13 +51,13 @@ dynamicgraph::Vector &CoMFreezer::computeFreezedCoM(
   if (PGInProcess) /* CoM unfreezed */
   {
     m_lastCoM = CoMRefSIN(time);
-    m_previousPGInProcess = (PGInProcess == 0);
+    m_previousPGInProcess = (PGInProcess != 0);
   } else {
     if (m_previousPGInProcess) /* pg.inprocess switch from 1 to 0 */
     {
       m_lastStopTime = time;
       m_lastCoM = CoMRefSIN(time);
-      m_previousPGInProcess = (PGInProcess == 0);
+      m_previousPGInProcess = (PGInProcess != 0);
     } else if (time < m_lastStopTime + 200) /* keep updating for 1s */
     {
       m_lastCoM = CoMRefSIN(time);
-- 
2.43.0


From c9a85ef14c7b72edcd52c9510c69715a2b341042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:12 +0000
Subject: [PATCH 089/106] fix: a smooth reach without goal adds vectors of
 different sizes

---
 src/tools/smooth-reach.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/smooth-reach.cpp b/src/tools/smooth-reach.cpp
index 87acebe..048a92d 100644
--- a/src/tools/smooth-reach.cpp
+++ b/src/tools/smooth-reach.cpp
@@ -27,7 +27,7 @@ SmoothReach::SmoothReach(const std::string &name)
       startTime(-1),
       lengthTime(-1),
       isStarted(false),
-      isParam(true)
+      isParam(false)
 
       ,
       smoothMode(2),
-- 
2.43.0


From e9c53dddeeb7a1f41d7ef43812dc8b3294f30a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:12 +0000
Subject: [PATCH 090/106] fix: a smooth reach of no duration gives no number

---
 src/tools/smooth-reach.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/smooth-reach.cpp b/src/tools/smooth-reach.cpp
index 048a92d..89ba875 100644
--- a/src/tools/smooth-reach.cpp
+++ b/src/tools/smooth-reach.cpp
@@ -93,7 +93,8 @@ dynamicgraph::Vector &SmoothReach::goalSOUT_function(dynamicgraph::Vector &res,
   }
 
   if (isStarted) {
-    double x = double(time - startTime) / lengthTime;
+    double x = 1;
+    if (lengthTime > 0) x = double(time - startTime) / lengthTime;
     if (x > 1) x = 1;
     double x1 = smoothFunction(x);
     double x0 = 1 - x1;
-- 
2.43.0


From 86f090995df4063eef84a90ab60dd4155bd83549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:12 +0000
Subject: [PATCH 091/106] fix: a periodic motion has another phase before its
 first period

---
 src/tools/motion-period.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools/motion-period.cpp b/src/tools/motion-period.cpp
index 7c7bc05..138b943 100644
--- a/src/tools/motion-period.cpp
+++ b/src/tools/motion-period.cpp
@@ -50,7 +50,10 @@ dynamicgraph::Vector &MotionPeriod::computeMotion(dynamicgraph::Vector &res,
   res.resize(size);
   for (unsigned int i = 0; i < size; ++i) {
     const sotMotionParam &p = motionParams[i];
-    double x = ((((time - p.initPeriod) % p.period) + 0.0) / (p.period + 0.0));
+    double x = (((time - static_cast<int>(p.initPeriod)) %
+                 static_cast<int>(p.period)) +
+                0.0) /
+               (p.period + 0.0);
     res(i) = p.initAmplitude;
     switch (p.motionType) {
       case MOTION_CONSTANT: {
-- 
2.43.0


From eb76c6c15495ef2c0bb623e13744778a6cf084b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:37 +0000
Subject: [PATCH 092/106] fix: the variance of a Kalman filter of constant
 models is not updated

---
 src/tools/kalman.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/kalman.cpp b/src/tools/kalman.cpp
index 84defc4..b8b145f 100644
--- a/src/tools/kalman.cpp
+++ b/src/tools/kalman.cpp
@@ -78,6 +78,10 @@ Matrix &Kalman::computeVarianceUpdate(Matrix &Pk_k, const int &time) {
     // Set dependency to input signals for latter computations
     varianceUpdateSOUT.addDependency(noiseTransitionSIN);
     varianceUpdateSOUT.addDependency(modelTransitionSIN);
+    varianceUpdateSOUT.addDependency(noiseMeasureSIN);
+    varianceUpdateSOUT.addDependency(modelMeasureSIN);
+    // The variance changes at each time, even with constant models.
+    varianceUpdateSOUT.setDependencyType(TimeDependency<int>::ALWAYS_READY);
   } else {
     const Matrix &Q = noiseTransitionSIN(time);
     const Matrix &R = noiseMeasureSIN(time);
-- 
2.43.0


From bc0f0b26a6df57eec8e261640cec9533afc6b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:41 +0000
Subject: [PATCH 093/106] fix: the outputs of a Kalman filter keep the first
 initial state given

---
 include/sot/core/kalman.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sot/core/kalman.hh b/include/sot/core/kalman.hh
index 1e09338..682b757 100644
--- a/include/sot/core/kalman.hh
+++ b/include/sot/core/kalman.hh
@@ -145,11 +145,14 @@ class SOT_KALMAN_EXPORT Kalman : public Entity {
 
   void setStateEstimation(const Vector &x0) {
     stateEstimation_ = x0;
+    stateUpdateSOUT.setReady();
     stateUpdateSOUT.recompute(0);
   }
 
   void setStateVariance(const Matrix &P0) {
     stateVariance_ = P0;
+    varianceUpdateSOUT.setDependencyType(TimeDependency<int>::TIME_DEPENDENT);
+    varianceUpdateSOUT.setReady();
     varianceUpdateSOUT.recompute(0);
   }
   // Current state estimation
-- 
2.43.0


From d62d42e5b1e5eeeed4e65fb858bc32ef06b2f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:41 +0000
Subject: [PATCH 094/106] fix: a reader stops at the first line of more than
 1023 characters

---
 src/traces/reader.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/traces/reader.cpp b/src/traces/reader.cpp
index def2806..4198406 100644
--- a/src/traces/reader.cpp
+++ b/src/traces/reader.cpp
@@ -57,14 +57,9 @@ void sotReader::load(const string &filename) {
   sotDEBUGIN(15);
 
   std::ifstream datafile(filename.c_str());
-  const unsigned int SIZE = 1024;
-  char buffer[SIZE];
+  std::string buffer;
   std::vector<double> newline;
-  while (datafile.good()) {
-    datafile.getline(buffer, SIZE);
-    const unsigned int gcount = (unsigned int)(datafile.gcount());
-    if (gcount >= SIZE) { /* TODO read error, line to long. */
-    }
+  while (std::getline(datafile, buffer)) {
     std::istringstream iss(buffer);
     newline.clear();
     sotDEBUG(25) << "Get line = '" << buffer << "'" << std::endl;
-- 
2.43.0


From d59e237eeb3e2cf289036ddf50a150ac91ca4077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:41 +0000
Subject: [PATCH 095/106] fix: a reader alternates between its last two lines
 at the end of its data

---
 src/traces/reader.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/traces/reader.cpp b/src/traces/reader.cpp
index 4198406..7914ee7 100644
--- a/src/traces/reader.cpp
+++ b/src/traces/reader.cpp
@@ -97,17 +97,19 @@ dynamicgraph::Vector &sotReader::getNextData(dynamicgraph::Vector &res,
                                              const unsigned int time) {
   sotDEBUGIN(15);
 
+  if (dataSet.empty()) {
+    sotDEBUGOUT(15);
+    return res;
+  }
+
   if (!iteratorSet) {
     sotDEBUG(15) << "Start the list" << std::endl;
     currentData = dataSet.begin();
     iteratorSet = true;
-  } else if (currentData != dataSet.end()) {
-    ++currentData;
-  }
-
-  if (currentData == dataSet.end()) {
-    sotDEBUGOUT(15);
-    return res;
+  } else {
+    // Stay on the last line at the end of the data.
+    DataType::const_iterator next = currentData;
+    if (++next != dataSet.end()) currentData = next;
   }
 
   const Flags &selection = selectionSIN(time);
-- 
2.43.0


From 7327083218a38a5f5b548fbae4d58c02cba8fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:59 +0000
Subject: [PATCH 096/106] fix: the solver of a sequencer which was given none
 is indeterminate

---
 src/tools/sequencer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/sequencer.cpp b/src/tools/sequencer.cpp
index 14de302..54aaef6 100644
--- a/src/tools/sequencer.cpp
+++ b/src/tools/sequencer.cpp
@@ -22,6 +22,7 @@ DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(Sequencer, "Sequencer");
 
 Sequencer::Sequencer(const std::string &name)
     : Entity(name),
+      sotPtr(NULL),
       timeInit(-1),
       playMode(false),
       outputStreamPtr(NULL),
-- 
2.43.0


From dd1d00846d72d6847f1528c33db8ff02cf3dd97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:59 +0000
Subject: [PATCH 097/106] fix: a measurement with pauses lasts only for its
 last part

---
 include/sot/core/stop-watch.hh |  4 ++++
 src/utils/stop-watch.cpp       | 13 +++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/sot/core/stop-watch.hh b/include/sot/core/stop-watch.hh
index ec270e0..5006d22 100644
--- a/include/sot/core/stop-watch.hh
+++ b/include/sot/core/stop-watch.hh
@@ -218,6 +218,7 @@ class Stopwatch {
           min_time(0),
           max_time(0),
           last_time(0),
+          paused_time(0),
           paused(false),
           stops(0) {}
 
@@ -236,6 +237,9 @@ class Stopwatch {
     /** Last time */
     long double last_time;
 
+    /** Time of the current measurement before its last pause */
+    long double paused_time;
+
     /** Tells if this performance has been paused, only for internal use */
     bool paused;
 
diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index b2d5dbe..7337033 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -139,6 +139,13 @@ void Stopwatch::stop(string perf_name) {
 
   if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
 
+  // Update total time
+  perf_info.total_time += lapse;
+
+  // A measurement lasts for all its parts, before and after its pauses
+  lapse += perf_info.paused_time;
+  perf_info.paused_time = 0;
+
   // Update last time
   perf_info.last_time = lapse;
 
@@ -146,9 +153,6 @@ void Stopwatch::stop(string perf_name) {
   if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
   if (lapse <= perf_info.min_time || perf_info.stops == 1)
     perf_info.min_time = lapse;
-
-  // Update total time
-  perf_info.total_time += lapse;
 }
 
 void Stopwatch::pause(string perf_name) {
@@ -170,7 +174,7 @@ void Stopwatch::pause(string perf_name) {
   if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
 
   // Update total time
-  perf_info.last_time += lapse;
+  perf_info.paused_time += lapse;
   perf_info.total_time += lapse;
 }
 
@@ -209,6 +213,7 @@ void Stopwatch::reset(string perf_name) {
   perf_info.min_time = 0;
   perf_info.max_time = 0;
   perf_info.last_time = 0;
+  perf_info.paused_time = 0;
   perf_info.paused = false;
   perf_info.stops = 0;
 }
-- 
2.43.0


From 87dcd10a802d1118a2f78a9c953b7d7349ee3b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:29 +0000
Subject: [PATCH 098/106] fix: an exception of the graph leaves the loader as a
 bare std::exception

---
 src/tools/sot-loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index e94a364..5a05bc8 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -178,7 +178,7 @@ void SotLoader::oneIteration(
     } catch (std::exception &e) {
       std::cout << "Exception while running the graph:\n"
                 << e.what() << std::endl;
-      throw e;
+      throw;
     }
   }
 }
-- 
2.43.0


From f2df4ad1076aeb49f70a68724b12f6c6201b8676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:29 +0000
Subject: [PATCH 099/106] fix: the option --help of the loader is ambiguous

---
 src/tools/sot-loader.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index 5a05bc8..47630a3 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -43,8 +43,7 @@ SotLoader::~SotLoader() { cleanUp(); }
 int SotLoader::parseOptions(int argc, char *argv[]) {
   po::options_description desc("Allowed options");
   desc.add_options()("help", "produce help message")(
-      "sot-dynamic-library", po::value<std::string>(), "Library to load");
-  desc.add_options()("help", "produce help message")(
+      "sot-dynamic-library", po::value<std::string>(), "Library to load")(
       "input-file", po::value<std::string>(), "Library to load");
 
   // Input variable map from the command line (int argc, char* argv[]).
-- 
2.43.0


From 4fd4908e114d016c198c78afc95ada5e50297a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:29 +0000
Subject: [PATCH 100/106] fix: a loader with a device cannot be cleaned up
 twice

---
 src/tools/sot-loader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index 47630a3..b798797 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -132,6 +132,7 @@ void SotLoader::cleanUp() {
   // the pool of entity and the class that handle the Device pointer.
   if (device_name_ != "") {
     PoolStorage::getInstance()->deregisterEntity(device_name_);
+    device_name_ = "";
   }
 
   // We do not destroy the FactoryStorage singleton because the module will not
-- 
2.43.0


From 7130bee8286725eaca004c8e6e9ada6a00787361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:29 +0000
Subject: [PATCH 101/106] fix: a library which is not a controller stays loaded

---
 src/tools/sot-loader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index b798797..aede282 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -85,6 +85,8 @@ bool SotLoader::initialization() {
   const char *dlsym_error = dlerror();
   if (dlsym_error) {
     std::cerr << "Cannot load symbol create: " << dlsym_error << '\n';
+    dlclose(sot_dynamic_library_);
+    sot_dynamic_library_ = nullptr;
     return false;
   }
 
-- 
2.43.0


From 63479fcb633f61b9971922f872d42608c327534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:29 +0000
Subject: [PATCH 102/106] fix: an iteration without controller crashes

---
 src/tools/sot-loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index aede282..85baddc 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -173,7 +173,7 @@ void SotLoader::runPythonCommand(const std::string &command,
 void SotLoader::oneIteration(
     std::map<std::string, SensorValues> &sensors_in,
     std::map<std::string, ControlValues> &control_values) {
-  if (!dynamic_graph_stopped_) {
+  if (!dynamic_graph_stopped_ && sot_external_interface_ != nullptr) {
     try {
       sot_external_interface_->nominalSetSensors(sensors_in);
       sot_external_interface_->getControl(control_values);
-- 
2.43.0


From 765622f6944f8041915d36306f40d89a4f13365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:37 +0000
Subject: [PATCH 103/106] fix: the viewer is given another name for the robot
 named robot

---
 src/dynamic_graph/sot/core/utils/viewer_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_helper.py b/src/dynamic_graph/sot/core/utils/viewer_helper.py
index ca78b11..3de355a 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_helper.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_helper.py
@@ -13,7 +13,7 @@ def stateFullSize(robot, additionalData=()):
 def refreshView(robot):
     if robot.name == "robot":
         name = "hrp"
-    if robot.name == "robot_device":
+    elif robot.name == "robot_device":
         name = "hrp"
     else:
         name = robot.name
-- 
2.43.0


From 672bbe34225304e4eee1f72021bf295bf1e54624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:37 +0000
Subject: [PATCH 104/106] fix: a robot whose state is a numpy vector has no
 viewer

---
 src/dynamic_graph/sot/core/utils/viewer_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_helper.py b/src/dynamic_graph/sot/core/utils/viewer_helper.py
index 3de355a..d87f5a6 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_helper.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_helper.py
@@ -7,7 +7,7 @@ class RobotViewerFaked:
 
 
 def stateFullSize(robot, additionalData=()):
-    return [float(val) for val in robot.state.value + additionalData]
+    return [float(val) for val in list(robot.state.value) + list(additionalData)]
 
 
 def refreshView(robot):
-- 
2.43.0


From 04150f2de23193cb413bcc9a8036c1f2374813e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:37 +0000
Subject: [PATCH 105/106] fix: robots do not move any more once a second one is
 given a viewer

---
 src/dynamic_graph/sot/core/utils/viewer_helper.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_helper.py b/src/dynamic_graph/sot/core/utils/viewer_helper.py
index d87f5a6..1019b7f 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_helper.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_helper.py
@@ -63,10 +63,11 @@ def addRobotViewer(robot, **args):
         robot.viewer = robotviewer.client(server)
 
         RobotClass.refresh = refreshView
-        RobotClass.incrementNoView = RobotClass.increment
-        RobotClass.increment = incrementView
-        RobotClass.setNoView = RobotClass.set
-        RobotClass.set = setView
+        if not hasattr(RobotClass, "incrementNoView"):
+            RobotClass.incrementNoView = RobotClass.increment
+            RobotClass.increment = incrementView
+            RobotClass.setNoView = RobotClass.set
+            RobotClass.set = setView
 
         robot.displayList = []
 
-- 
2.43.0


From db8a773141f9471a5d2227ba9d57ae019551709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:37 +0000
Subject: [PATCH 106/106] fix: a robot without viewer does not move when
 another one has a viewer

---
 src/dynamic_graph/sot/core/utils/viewer_helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_helper.py b/src/dynamic_graph/sot/core/utils/viewer_helper.py
index 1019b7f..eab9db9 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_helper.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_helper.py
@@ -48,6 +48,8 @@ def addRobotViewer(robot, **args):
     small_extra = args.get("small_extra", 10)
     server = args.get("server", "XML-RPC")
 
+    robot.displayList = []
+
     try:
         import robotviewer
 
@@ -69,8 +71,6 @@ def addRobotViewer(robot, **args):
             RobotClass.setNoView = RobotClass.set
             RobotClass.set = setView
 
-        robot.displayList = []
-
         # Check the connection
         if args.get("dorefresh", True):
             robot.refresh()
-- 
2.43.0

