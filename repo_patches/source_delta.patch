From 2c2fcace217c1a5952cb1e64374a7a8b01b5e729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:20 +0000
Subject: [PATCH 001/113] fix: CausalFilter::switch_filter restarts from the
 most recent sample

The write pointer has already been advanced when the filter is switched, so
the oldest sample of the buffer was used instead of the current one.
---
 src/filters/causal-filter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filters/causal-filter.cpp b/src/filters/causal-filter.cpp
index 0ace0ad..2e7083e 100644
--- a/src/filters/causal-filter.cpp
+++ b/src/filters/causal-filter.cpp
@@ -108,7 +108,9 @@ void CausalFilter::switch_filter(const Eigen::VectorXd &filter_numerator,
   Eigen::VectorXd::Index filter_order_m = filter_numerator.size();
   Eigen::VectorXd::Index filter_order_n = filter_denominator.size();
 
-  Eigen::VectorXd current_x(m_input_buffer.col(m_pt_numerator));
+  // m_pt_numerator points to the slot of the next sample.
+  Eigen::VectorXd current_x(m_input_buffer.col(
+      m_pt_numerator == 0 ? m_filter_order_m - 1 : m_pt_numerator - 1));
 
   m_input_buffer.resize(Eigen::NoChange, filter_order_m);
   m_output_buffer.resize(Eigen::NoChange, filter_order_n - 1);
-- 
2.43.0


From dc2b7d75e136063510a6319682622ca254b26acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:25 +0000
Subject: [PATCH 002/113] fix: CausalFilter with a denominator of one or two
 coefficients

With one coefficient the output history had no column and was read out of
bounds; with two, y[N-1] was used in place of y[N-2] in the second
derivative. Complete short denominators with zeros so that the two previous
outputs are always kept.
---
 src/filters/causal-filter.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/filters/causal-filter.cpp b/src/filters/causal-filter.cpp
index 2e7083e..314ad07 100644
--- a/src/filters/causal-filter.cpp
+++ b/src/filters/causal-filter.cpp
@@ -18,6 +18,20 @@
 #include <sot/core/causal-filter.hh>
 
 using namespace dynamicgraph::sot;
+
+namespace {
+// The two previous outputs are needed to compute the second derivative,
+// whatever the order of the denominator: complete it with zeros if needed.
+Eigen::VectorXd completeDenominator(const Eigen::VectorXd &denominator) {
+  Eigen::VectorXd a(denominator);
+  if (a.size() < 3) {
+    a.setZero(3);
+    a.head(denominator.size()) = denominator;
+  }
+  return a;
+}
+}  // namespace
+
 /*
 Filter data with an IIR or FIR filter.
 
@@ -40,15 +54,15 @@ CausalFilter::CausalFilter(const double &timestep, const int &xSize,
     : m_dt(timestep),
       m_x_size(xSize),
       m_filter_order_m(filter_numerator.size()),
-      m_filter_order_n(filter_denominator.size()),
+      m_filter_order_n(completeDenominator(filter_denominator).size()),
       m_filter_numerator(filter_numerator),
-      m_filter_denominator(filter_denominator),
+      m_filter_denominator(completeDenominator(filter_denominator)),
       m_first_sample(true),
       m_pt_numerator(0),
       m_pt_denominator(0),
       m_input_buffer(Eigen::MatrixXd::Zero(xSize, filter_numerator.size())),
       m_output_buffer(
-          Eigen::MatrixXd::Zero(xSize, filter_denominator.size() - 1)) {
+          Eigen::MatrixXd::Zero(xSize, m_filter_denominator.size() - 1)) {
   assert(timestep > 0.0 && "Timestep should be > 0");
   assert(m_filter_numerator.size() == m_filter_order_m);
   assert(m_filter_denominator.size() == m_filter_order_n);
@@ -106,7 +120,8 @@ void CausalFilter::get_x_dx_ddx(const Eigen::VectorXd &base_x,
 void CausalFilter::switch_filter(const Eigen::VectorXd &filter_numerator,
                                  const Eigen::VectorXd &filter_denominator) {
   Eigen::VectorXd::Index filter_order_m = filter_numerator.size();
-  Eigen::VectorXd::Index filter_order_n = filter_denominator.size();
+  m_filter_denominator = completeDenominator(filter_denominator);
+  Eigen::VectorXd::Index filter_order_n = m_filter_denominator.size();
 
   // m_pt_numerator points to the slot of the next sample.
   Eigen::VectorXd current_x(m_input_buffer.col(
@@ -126,8 +141,6 @@ void CausalFilter::switch_filter(const Eigen::VectorXd &filter_numerator,
   m_filter_numerator = filter_numerator;
 
   m_filter_order_n = filter_order_n;
-  m_filter_denominator.resize(filter_order_n);
-  m_filter_denominator = filter_denominator;
 
   m_pt_numerator = 0;
   m_pt_denominator = 0;
-- 
2.43.0


From 9cc36f45f1447945f8d475e4ff9002fa5152e902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:38 +0000
Subject: [PATCH 003/113] fix: ExceptionTask and ExceptionFeature keep the
 message given with a format

As in the other exceptions, append the formatted text to the message instead
of replacing it.
---
 src/exception/exception-feature.cpp | 2 +-
 src/exception/exception-task.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exception/exception-feature.cpp b/src/exception/exception-feature.cpp
index 4c8c556..97f8a76 100644
--- a/src/exception/exception-feature.cpp
+++ b/src/exception/exception-feature.cpp
@@ -35,7 +35,7 @@ ExceptionFeature::ExceptionFeature(
   char buffer[SIZE];
   vsnprintf(buffer, SIZE, format, args);
 
-  message = buffer;
+  message += buffer;
 
   va_end(args);
 }
diff --git a/src/exception/exception-task.cpp b/src/exception/exception-task.cpp
index 0d916fd..3868d0a 100644
--- a/src/exception/exception-task.cpp
+++ b/src/exception/exception-task.cpp
@@ -34,7 +34,7 @@ ExceptionTask::ExceptionTask(const ExceptionTask::ErrorCodeEnum &errcode,
   char buffer[SIZE];
   vsnprintf(buffer, SIZE, format, args);
 
-  message = buffer;
+  message += buffer;
 
   va_end(args);
 }
-- 
2.43.0


From 6a55675dd6ea13ed3bcbcdad2d9b2c666f5a935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:49 +0000
Subject: [PATCH 004/113] fix: Stopwatch minimum when a measured time is null

A null minimum was taken as 'not set yet' and replaced by the next measure.
---
 src/utils/stop-watch.cpp | 626 +++++++++++++++++++--------------------
 1 file changed, 313 insertions(+), 313 deletions(-)

diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index 0157fce..f1a2ff3 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -1,313 +1,313 @@
-/*
-Copyright (c) 2010-2013 Tommaso Urli
-
-Tommaso Urli    tommaso.urli@uniud.it   University of Udine
-
-Permission is hereby granted, free of charge, to any person obtaining
-a copy of this software and associated documentation files (the
-"Software"), to deal in the Software without restriction, including
-without limitation the rights to use, copy, modify, merge, publish,
-distribute, sublicense, and/or sell copies of the Software, and to
-permit persons to whom the Software is furnished to do so, subject to
-the following conditions:
-
-The above copyright notice and this permission notice shall be
-included in all copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
-EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF
-MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
-NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE
-LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
-OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
-WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
-
-*/
-
-#ifndef WIN32
-#include <sys/time.h>
-#else
-#include <Windows.h>
-
-#include <iomanip>
-#endif
-
-#include <iomanip>  // std::setprecision
-
-#include "sot/core/stop-watch.hh"
-
-using std::map;
-using std::ostringstream;
-using std::string;
-
-//#define START_PROFILER(name) getProfiler().start(name)
-//#define STOP_PROFILER(name) getProfiler().stop(name)
-
-Stopwatch &getProfiler() {
-  static Stopwatch s(REAL_TIME);  // alternatives are CPU_TIME and REAL_TIME
-  return s;
-}
-
-Stopwatch::Stopwatch(StopwatchMode _mode) : active(true), mode(_mode) {
-  records_of = new map<string, PerformanceData>();
-}
-
-Stopwatch::~Stopwatch() { delete records_of; }
-
-void Stopwatch::set_mode(StopwatchMode new_mode) { mode = new_mode; }
-
-bool Stopwatch::performance_exists(string perf_name) {
-  return (records_of->find(perf_name) != records_of->end());
-}
-
-long double Stopwatch::take_time() {
-  if (mode == CPU_TIME) {
-    // Use ctime
-    return clock();
-
-  } else if (mode == REAL_TIME) {
-    // Query operating system
-
-#ifdef WIN32
-    /* In case of usage under Windows */
-    FILETIME ft;
-    LARGE_INTEGER intervals;
-
-    // Get the amount of 100 nanoseconds intervals elapsed since January 1, 1601
-    // (UTC)
-    GetSystemTimeAsFileTime(&ft);
-    intervals.LowPart = ft.dwLowDateTime;
-    intervals.HighPart = ft.dwHighDateTime;
-
-    long double measure = intervals.QuadPart;
-    measure -= 116444736000000000.0;  // Convert to UNIX epoch time
-    measure /= 10000000.0;            // Convert to seconds
-
-    return measure;
-#else
-    /* Linux, MacOS, ... */
-    struct timeval tv;
-    gettimeofday(&tv, NULL);
-
-    long double measure = tv.tv_usec;
-    measure /= 1000000.0;  // Convert to seconds
-    measure += tv.tv_sec;  // Add seconds part
-
-    return measure;
-#endif
-
-  } else {
-    // If mode == NONE, clock has not been initialized, then throw exception
-    throw StopwatchException("Clock not initialized to a time taking mode!");
-  }
-}
-
-void Stopwatch::start(string perf_name) {
-  if (!active) return;
-
-  // Just works if not already present
-  records_of->insert(make_pair(perf_name, PerformanceData()));
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // Take ctime
-  perf_info.clock_start = take_time();
-
-  // If this is a new start (i.e. not a restart)
-  //  if (!perf_info.paused)
-  //    perf_info.last_time = 0;
-
-  perf_info.paused = false;
-}
-
-void Stopwatch::stop(string perf_name) {
-  if (!active) return;
-
-  long double clock_end = take_time();
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
-
-  perf_info.stops++;
-  long double lapse = clock_end - perf_info.clock_start;
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  // Update last time
-  perf_info.last_time = lapse;
-
-  // Update min/max time
-  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
-  if (lapse <= perf_info.min_time || perf_info.min_time == 0)
-    perf_info.min_time = lapse;
-
-  // Update total time
-  perf_info.total_time += lapse;
-}
-
-void Stopwatch::pause(string perf_name) {
-  if (!active) return;
-
-  long double clock_end = clock();
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
-
-  long double lapse = clock_end - perf_info.clock_start;
-
-  // Update total time
-  perf_info.last_time += lapse;
-  perf_info.total_time += lapse;
-}
-
-void Stopwatch::reset_all() {
-  if (!active) return;
-
-  map<string, PerformanceData>::iterator it;
-
-  for (it = records_of->begin(); it != records_of->end(); ++it) {
-    reset(it->first);
-  }
-}
-
-void Stopwatch::report_all(int precision, std::ostream &output) {
-  if (!active) return;
-
-  output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - "
-            "nSamples - totalTime) ***\n";
-  map<string, PerformanceData>::iterator it;
-  for (it = records_of->begin(); it != records_of->end(); ++it) {
-    report(it->first, precision, output);
-  }
-}
-
-void Stopwatch::reset(string perf_name) {
-  if (!active) return;
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  perf_info.clock_start = 0;
-  perf_info.total_time = 0;
-  perf_info.min_time = 0;
-  perf_info.max_time = 0;
-  perf_info.last_time = 0;
-  perf_info.paused = false;
-  perf_info.stops = 0;
-}
-
-void Stopwatch::turn_on() {
-  std::cout << "Stopwatch active." << std::endl;
-  active = true;
-}
-
-void Stopwatch::turn_off() {
-  std::cout << "Stopwatch inactive." << std::endl;
-  active = false;
-}
-
-void Stopwatch::report(string perf_name, int precision, std::ostream &output) {
-  if (!active) return;
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  string pad = "";
-  for (size_t i = perf_name.length(); i < STOP_WATCH_MAX_NAME_LENGTH; i++)
-    pad.append(" ");
-
-  output << perf_name << pad;
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.min_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.total_time * 1e3 / (long double)perf_info.stops) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.max_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.last_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision) << perf_info.stops
-         << std::endl;
-  output << std::fixed << std::setprecision(precision)
-         << perf_info.total_time * 1e3 << std::endl;
-}
-
-long double Stopwatch::get_time_so_far(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  long double lapse =
-      (take_time() - (records_of->find(perf_name)->second).clock_start);
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  return lapse;
-}
-
-long double Stopwatch::get_total_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.total_time;
-}
-
-long double Stopwatch::get_average_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return (perf_info.total_time / (long double)perf_info.stops);
-}
-
-long double Stopwatch::get_min_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.min_time;
-}
-
-long double Stopwatch::get_max_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.max_time;
-}
-
-long double Stopwatch::get_last_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.last_time;
-}
+/*
+Copyright (c) 2010-2013 Tommaso Urli
+
+Tommaso Urli    tommaso.urli@uniud.it   University of Udine
+
+Permission is hereby granted, free of charge, to any person obtaining
+a copy of this software and associated documentation files (the
+"Software"), to deal in the Software without restriction, including
+without limitation the rights to use, copy, modify, merge, publish,
+distribute, sublicense, and/or sell copies of the Software, and to
+permit persons to whom the Software is furnished to do so, subject to
+the following conditions:
+
+The above copyright notice and this permission notice shall be
+included in all copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
+EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF
+MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
+NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE
+LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
+OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
+WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+
+*/
+
+#ifndef WIN32
+#include <sys/time.h>
+#else
+#include <Windows.h>
+
+#include <iomanip>
+#endif
+
+#include <iomanip>  // std::setprecision
+
+#include "sot/core/stop-watch.hh"
+
+using std::map;
+using std::ostringstream;
+using std::string;
+
+//#define START_PROFILER(name) getProfiler().start(name)
+//#define STOP_PROFILER(name) getProfiler().stop(name)
+
+Stopwatch &getProfiler() {
+  static Stopwatch s(REAL_TIME);  // alternatives are CPU_TIME and REAL_TIME
+  return s;
+}
+
+Stopwatch::Stopwatch(StopwatchMode _mode) : active(true), mode(_mode) {
+  records_of = new map<string, PerformanceData>();
+}
+
+Stopwatch::~Stopwatch() { delete records_of; }
+
+void Stopwatch::set_mode(StopwatchMode new_mode) { mode = new_mode; }
+
+bool Stopwatch::performance_exists(string perf_name) {
+  return (records_of->find(perf_name) != records_of->end());
+}
+
+long double Stopwatch::take_time() {
+  if (mode == CPU_TIME) {
+    // Use ctime
+    return clock();
+
+  } else if (mode == REAL_TIME) {
+    // Query operating system
+
+#ifdef WIN32
+    /* In case of usage under Windows */
+    FILETIME ft;
+    LARGE_INTEGER intervals;
+
+    // Get the amount of 100 nanoseconds intervals elapsed since January 1, 1601
+    // (UTC)
+    GetSystemTimeAsFileTime(&ft);
+    intervals.LowPart = ft.dwLowDateTime;
+    intervals.HighPart = ft.dwHighDateTime;
+
+    long double measure = intervals.QuadPart;
+    measure -= 116444736000000000.0;  // Convert to UNIX epoch time
+    measure /= 10000000.0;            // Convert to seconds
+
+    return measure;
+#else
+    /* Linux, MacOS, ... */
+    struct timeval tv;
+    gettimeofday(&tv, NULL);
+
+    long double measure = tv.tv_usec;
+    measure /= 1000000.0;  // Convert to seconds
+    measure += tv.tv_sec;  // Add seconds part
+
+    return measure;
+#endif
+
+  } else {
+    // If mode == NONE, clock has not been initialized, then throw exception
+    throw StopwatchException("Clock not initialized to a time taking mode!");
+  }
+}
+
+void Stopwatch::start(string perf_name) {
+  if (!active) return;
+
+  // Just works if not already present
+  records_of->insert(make_pair(perf_name, PerformanceData()));
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // Take ctime
+  perf_info.clock_start = take_time();
+
+  // If this is a new start (i.e. not a restart)
+  //  if (!perf_info.paused)
+  //    perf_info.last_time = 0;
+
+  perf_info.paused = false;
+}
+
+void Stopwatch::stop(string perf_name) {
+  if (!active) return;
+
+  long double clock_end = take_time();
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // check whether the performance has been reset
+  if (perf_info.clock_start == 0) return;
+
+  perf_info.stops++;
+  long double lapse = clock_end - perf_info.clock_start;
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  // Update last time
+  perf_info.last_time = lapse;
+
+  // Update min/max time
+  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
+  if (lapse <= perf_info.min_time || perf_info.stops == 1)
+    perf_info.min_time = lapse;
+
+  // Update total time
+  perf_info.total_time += lapse;
+}
+
+void Stopwatch::pause(string perf_name) {
+  if (!active) return;
+
+  long double clock_end = clock();
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // check whether the performance has been reset
+  if (perf_info.clock_start == 0) return;
+
+  long double lapse = clock_end - perf_info.clock_start;
+
+  // Update total time
+  perf_info.last_time += lapse;
+  perf_info.total_time += lapse;
+}
+
+void Stopwatch::reset_all() {
+  if (!active) return;
+
+  map<string, PerformanceData>::iterator it;
+
+  for (it = records_of->begin(); it != records_of->end(); ++it) {
+    reset(it->first);
+  }
+}
+
+void Stopwatch::report_all(int precision, std::ostream &output) {
+  if (!active) return;
+
+  output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - "
+            "nSamples - totalTime) ***\n";
+  map<string, PerformanceData>::iterator it;
+  for (it = records_of->begin(); it != records_of->end(); ++it) {
+    report(it->first, precision, output);
+  }
+}
+
+void Stopwatch::reset(string perf_name) {
+  if (!active) return;
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  perf_info.clock_start = 0;
+  perf_info.total_time = 0;
+  perf_info.min_time = 0;
+  perf_info.max_time = 0;
+  perf_info.last_time = 0;
+  perf_info.paused = false;
+  perf_info.stops = 0;
+}
+
+void Stopwatch::turn_on() {
+  std::cout << "Stopwatch active." << std::endl;
+  active = true;
+}
+
+void Stopwatch::turn_off() {
+  std::cout << "Stopwatch inactive." << std::endl;
+  active = false;
+}
+
+void Stopwatch::report(string perf_name, int precision, std::ostream &output) {
+  if (!active) return;
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  string pad = "";
+  for (size_t i = perf_name.length(); i < STOP_WATCH_MAX_NAME_LENGTH; i++)
+    pad.append(" ");
+
+  output << perf_name << pad;
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.min_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.total_time * 1e3 / (long double)perf_info.stops) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.max_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.last_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision) << perf_info.stops
+         << std::endl;
+  output << std::fixed << std::setprecision(precision)
+         << perf_info.total_time * 1e3 << std::endl;
+}
+
+long double Stopwatch::get_time_so_far(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  long double lapse =
+      (take_time() - (records_of->find(perf_name)->second).clock_start);
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  return lapse;
+}
+
+long double Stopwatch::get_total_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.total_time;
+}
+
+long double Stopwatch::get_average_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return (perf_info.total_time / (long double)perf_info.stops);
+}
+
+long double Stopwatch::get_min_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.min_time;
+}
+
+long double Stopwatch::get_max_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.max_time;
+}
+
+long double Stopwatch::get_last_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.last_time;
+}
-- 
2.43.0


From 33110640b715f746f95d3dc716481ba96afa304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 005/113] fix: Stopwatch pauses

pause() used the processor clock whatever the mode, in ticks, and nothing
recorded that the performance was paused: stop() counted again the time
before the pause as well as the pause itself, and the statistics of a paused
lap only knew its last part.
---
 include/sot/core/stop-watch.hh |  4 ++++
 src/utils/stop-watch.cpp       | 25 ++++++++++++++++++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/sot/core/stop-watch.hh b/include/sot/core/stop-watch.hh
index ec270e0..d6b81a9 100644
--- a/include/sot/core/stop-watch.hh
+++ b/include/sot/core/stop-watch.hh
@@ -218,6 +218,7 @@ class Stopwatch {
           min_time(0),
           max_time(0),
           last_time(0),
+          paused_lapse(0),
           paused(false),
           stops(0) {}
 
@@ -236,6 +237,9 @@ class Stopwatch {
     /** Last time */
     long double last_time;
 
+    /** Time measured since the last stop, until the last pause */
+    long double paused_lapse;
+
     /** Tells if this performance has been paused, only for internal use */
     bool paused;
 
diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index f1a2ff3..6a15852 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -135,10 +135,19 @@ void Stopwatch::stop(string perf_name) {
   if (perf_info.clock_start == 0) return;
 
   perf_info.stops++;
-  long double lapse = clock_end - perf_info.clock_start;
+  // A paused performance is not being measured.
+  long double lapse = 0;
+  if (!perf_info.paused) lapse = clock_end - perf_info.clock_start;
 
   if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
 
+  // Update total time
+  perf_info.total_time += lapse;
+
+  // Add the time measured before the pauses
+  lapse += perf_info.paused_lapse;
+  perf_info.paused_lapse = 0;
+
   // Update last time
   perf_info.last_time = lapse;
 
@@ -146,15 +155,12 @@ void Stopwatch::stop(string perf_name) {
   if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
   if (lapse <= perf_info.min_time || perf_info.stops == 1)
     perf_info.min_time = lapse;
-
-  // Update total time
-  perf_info.total_time += lapse;
 }
 
 void Stopwatch::pause(string perf_name) {
   if (!active) return;
 
-  long double clock_end = clock();
+  long double clock_end = take_time();
 
   // Try to recover performance data
   if (!performance_exists(perf_name))
@@ -163,13 +169,17 @@ void Stopwatch::pause(string perf_name) {
   PerformanceData &perf_info = records_of->find(perf_name)->second;
 
   // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
+  if (perf_info.clock_start == 0 || perf_info.paused) return;
 
   long double lapse = clock_end - perf_info.clock_start;
 
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
   // Update total time
-  perf_info.last_time += lapse;
+  perf_info.paused_lapse += lapse;
+  perf_info.last_time = perf_info.paused_lapse;
   perf_info.total_time += lapse;
+  perf_info.paused = true;
 }
 
 void Stopwatch::reset_all() {
@@ -207,6 +217,7 @@ void Stopwatch::reset(string perf_name) {
   perf_info.min_time = 0;
   perf_info.max_time = 0;
   perf_info.last_time = 0;
+  perf_info.paused_lapse = 0;
   perf_info.paused = false;
   perf_info.stops = 0;
 }
-- 
2.43.0


From 93df35f69c6e08e293be96b9883a39c41666aa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:29 +0000
Subject: [PATCH 006/113] fix: Contiifstream with empty, long and incomplete
 lines

An empty line stopped the reading for ever, a line longer than the buffer was
cut and lost characters, and a line whose end was not written yet was
delivered as it was, after which the file was read again from its start.
Deliver complete lines only, whatever their length.
---
 include/sot/core/contiifstream.hh |  2 --
 src/debug/contiifstream.cpp       | 20 +++++++-------------
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/include/sot/core/contiifstream.hh b/include/sot/core/contiifstream.hh
index 8c239ee..2de7406 100644
--- a/include/sot/core/contiifstream.hh
+++ b/include/sot/core/contiifstream.hh
@@ -36,8 +36,6 @@ class SOT_CORE_EXPORT Contiifstream {
  protected:
   std::string filename;
   std::streamoff cursor;
-  static const unsigned int BUFFER_SIZE = 256;
-  char buffer[BUFFER_SIZE];
   std::list<std::string> reader;
   bool first;
 
diff --git a/src/debug/contiifstream.cpp b/src/debug/contiifstream.cpp
index 3774a84..d7259b8 100644
--- a/src/debug/contiifstream.cpp
+++ b/src/debug/contiifstream.cpp
@@ -26,19 +26,13 @@ bool Contiifstream::loop(void) {
   file.seekg(cursor);
   file.sync();
 
-  while (1) {
-    file.get(buffer, BUFFER_SIZE);
-    if (file.gcount()) {
-      res = true;
-      std::string line(buffer);
-      if (!first) reader.push_back(line);
-      cursor = file.tellg();
-      cursor++;
-      file.get(*buffer);  // get the last char ( = '\n')
-      sotDEBUG(15) << "line: " << line << std::endl;
-    } else {
-      break;
-    }
+  std::string line;
+  // Read the complete lines only: a line without its end is still being written
+  while (std::getline(file, line) && !file.eof()) {
+    res = true;
+    if (!first) reader.push_back(line);
+    cursor = file.tellg();
+    sotDEBUG(15) << "line: " << line << std::endl;
   }
 
   first = false;
-- 
2.43.0


From c1a984c41954cf9be35bc553798e99d21ceddae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:29 +0000
Subject: [PATCH 007/113] fix: DebugTrace closes its file after a write error

Otherwise the file stays open and no other trace file can be opened.
---
 src/debug/debug.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debug/debug.cpp b/src/debug/debug.cpp
index c6e44bc..07d20a7 100644
--- a/src/debug/debug.cpp
+++ b/src/debug/debug.cpp
@@ -45,13 +45,13 @@ __sotDebug_init __sotDebug_initialisator;
 } /* namespace dynamicgraph */
 
 void DebugTrace::openFile(const char *filename) {
-  if (debugfile.good() && debugfile.is_open()) debugfile.close();
+  if (debugfile.is_open()) debugfile.close();
   debugfile.clear();
   debugfile.open(filename, std::ios::trunc & std::ios::out);
 }
 
 void DebugTrace::closeFile(const char *) {
-  if (debugfile.good() && debugfile.is_open()) debugfile.close();
+  if (debugfile.is_open()) debugfile.close();
   debugfile.setstate(std::ios::failbit);
 }
 
-- 
2.43.0


From aec4f97298c6063e72fff62a6e06a5b3c22e995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 008/113] fix: Flags parsed from text do not depend on blanks
 or on the previous value

---
 src/sot/flags.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sot/flags.cpp b/src/sot/flags.cpp
index 8744bb0..751a879 100644
--- a/src/sot/flags.cpp
+++ b/src/sot/flags.cpp
@@ -30,14 +30,14 @@ using namespace dynamicgraph::sot;
 Flags::Flags(const bool &b) : flags(), outOfRangeFlag(b) {}
 
 Flags::Flags(const char *_flags)
-    : flags(strlen(_flags)), outOfRangeFlag(false) {
-  for (unsigned int i = 0; i < flags.size(); ++i) {
-    switch (_flags[i]) {
+    : flags(), outOfRangeFlag(false) {
+  for (const char *c = _flags; *c != '\0'; ++c) {
+    switch (*c) {
       case '0':
-        flags[i] = false;
+        flags.push_back(false);
         break;
       case '1':
-        flags[i] = true;
+        flags.push_back(true);
         break;
       case ' ':
         break;
@@ -131,6 +131,7 @@ std::ostream &operator<<(std::ostream &os, const Flags &fl) {
 std::istream &operator>>(std::istream &is, Flags &fl) {
   char c;
   fl.flags.clear();
+  fl.outOfRangeFlag = false;
   while (is.get(c).good()) {
     switch (c) {
       case '0':
-- 
2.43.0


From 9215f326a271dfe372dbd4f343a31631f05d2e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 009/113] fix: read the closing parenthesis of an empty vector
 of bounds

---
 src/task/multi-bound.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/task/multi-bound.cpp b/src/task/multi-bound.cpp
index 650d132..05e8c45 100644
--- a/src/task/multi-bound.cpp
+++ b/src/task/multi-bound.cpp
@@ -250,10 +250,9 @@ std::istream &operator>>(std::istream &is, VectorMultiBound &v) {
     is >> v[i];
     if (i != vali - 1) {
       SOT_MULTI_BOUND_CHECK_C(is, ',', v);
-    } else {
-      SOT_MULTI_BOUND_CHECK_C(is, ')', v);
     }
   }
+  SOT_MULTI_BOUND_CHECK_C(is, ')', v);
 
   return is;
 }
-- 
2.43.0


From 0c53ad9bcb6c87e735678b1b83992aed6cd7c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 010/113] fix: SkewSymToVector returns the vector of the
 skew-symmetric matrix, not its opposite

---
 src/matrix/operator.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index bd11c8b..43936a0 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -298,9 +298,9 @@ struct MatrixHomoToPoseUTheta
 struct SkewSymToVector : public UnaryOpHeader<Matrix, Vector> {
   inline void operator()(const Matrix &M, Vector &res) {
     res.resize(3);
-    res(0) = M(7);
-    res(1) = M(2);
-    res(2) = M(3);
+    res(0) = M(2, 1);
+    res(1) = M(0, 2);
+    res(2) = M(1, 0);
   }
 };
 
-- 
2.43.0


From 653542e4b9c41c704353ecb77d78cf38c59e577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:13 +0000
Subject: [PATCH 011/113] fix: setSignalNumber leaves no null input when a
 signal name is already taken

---
 include/sot/core/variadic-op.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/sot/core/variadic-op.hh b/include/sot/core/variadic-op.hh
index 034660e..c56a09e 100644
--- a/include/sot/core/variadic-op.hh
+++ b/include/sot/core/variadic-op.hh
@@ -100,8 +100,15 @@ class VariadicAbstract : public Entity {
       // names[i] = oss.str();
       // signal_t* s = new signal_t (NULL,names[i]);
       signal_t *s = new signal_t(NULL, oss.str());
+      try {
+        _declareSignal(s);
+      } catch (...) {
+        delete s;
+        signalsIN.resize(i);
+        updateSignalNumber((int)i);
+        throw;
+      }
       signalsIN[i] = s;
-      _declareSignal(s);
     }
     updateSignalNumber(n);
   }
-- 
2.43.0


From 913bc13d3a394caff09e413ac8076d4ee404f053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:13 +0000
Subject: [PATCH 012/113] fix: addSignal and removeSignal keep the coefficients
 of an adder in step

---
 include/sot/core/variadic-op.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sot/core/variadic-op.hh b/include/sot/core/variadic-op.hh
index c56a09e..a1af537 100644
--- a/include/sot/core/variadic-op.hh
+++ b/include/sot/core/variadic-op.hh
@@ -72,6 +72,7 @@ class VariadicAbstract : public Entity {
       _declareSignal(sig);
       signalsIN.push_back(sig);
       // names.push_back (name);
+      updateSignalNumber((int)signalsIN.size());
       return signalsIN.size() - 1;
     } catch (const ExceptionAbstract &) {
       delete sig;
@@ -84,6 +85,7 @@ class VariadicAbstract : public Entity {
     _removeSignal(signalsIN.size() - 1);
     // names.pop_back();
     signalsIN.pop_back();
+    updateSignalNumber((int)signalsIN.size());
   }
 
   void setSignalNumber(const int &n) {
-- 
2.43.0


From 0f24aa5422f01b1f5398e2a439faf08e50a298fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:08 +0000
Subject: [PATCH 013/113] fix: FIRFilter on doubles does not accumulate its
 former outputs

---
 src/matrix/fir-filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix/fir-filter.cpp b/src/matrix/fir-filter.cpp
index 358cf45..a6ed1ce 100644
--- a/src/matrix/fir-filter.cpp
+++ b/src/matrix/fir-filter.cpp
@@ -51,6 +51,11 @@ SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN(FIRFilter, Vector, double, vec_double,
 SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN(FIRFilter, Vector, Matrix, vec_mat,
                                    "FIRFilter")
 
+template <>
+void FIRFilter<double, double>::reset_signal(double &res, const double &) {
+  res = 0;
+}
+
 template <>
 void FIRFilter<Vector, double>::reset_signal(Vector &res,
                                              const Vector &sample) {
-- 
2.43.0


From 6c5529133a347ada7a7a281ff12a57fe6c226c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:08 +0000
Subject: [PATCH 014/113] fix: FIRFilter without coefficients, and ranks
 outside the coefficients

---
 include/sot/core/fir-filter.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/fir-filter.hh b/include/sot/core/fir-filter.hh
index 26a48a2..482690a 100644
--- a/include/sot/core/fir-filter.hh
+++ b/include/sot/core/fir-filter.hh
@@ -33,6 +33,7 @@ class circular_buffer {
  public:
   circular_buffer() : buf(1), start(0), numel(0) {}
   void push_front(const T &data) {
+    if (buf.empty()) return;
     if (start) {
       --start;
     } else {
@@ -185,10 +186,10 @@ class FIRFilter : public Entity {
   }
 
   void setElement(const unsigned int &rank, const coefT &coef) {
-    coefs[rank] = coef;
+    coefs.at(rank) = coef;
   }
 
-  coefT getElement(const unsigned int &rank) const { return coefs[rank]; }
+  coefT getElement(const unsigned int &rank) const { return coefs.at(rank); }
 
   static void reset_signal(sigT & /*res*/, const sigT & /*sample*/) {}
 
-- 
2.43.0


From b33540fde46584d5f9c4d19e775ab7e9d861451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:08 +0000
Subject: [PATCH 015/113] fix: ExpMovingAvg checks the coefficient it is given

---
 src/tools/exp-moving-avg.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/exp-moving-avg.cpp b/src/tools/exp-moving-avg.cpp
index 1efca5c..50e4469 100644
--- a/src/tools/exp-moving-avg.cpp
+++ b/src/tools/exp-moving-avg.cpp
@@ -12,6 +12,7 @@
 #include <boost/function.hpp>
 #include <sot/core/exp-moving-avg.hh>
 #include <sot/core/factory.hh>
+#include <stdexcept>
 
 namespace dg = ::dynamicgraph;
 
@@ -59,7 +60,8 @@ ExpMovingAvg::~ExpMovingAvg() {}
 /* --- COMPUTE ----------------------------------------------------------- */
 
 void ExpMovingAvg::setAlpha(const double &alpha_) {
-  assert(alpha <= 1. && alpha >= 0.);
+  if (!(alpha_ <= 1. && alpha_ >= 0.))
+    throw std::invalid_argument("alpha should be between 0 and 1.");
   alpha = alpha_;
 }
 
-- 
2.43.0


From 4dcd69e131d1f716a359f20c5be686500915048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 016/113] fix: FilterDifferentiator before its initialisation

The filter pointer and the sizes were not initialised: reading an output or
calling switch_filter before init dereferenced an uninitialised pointer.
---
 src/filters/filter-differentiator.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/filters/filter-differentiator.cpp b/src/filters/filter-differentiator.cpp
index 4769606..b37f376 100644
--- a/src/filters/filter-differentiator.cpp
+++ b/src/filters/filter-differentiator.cpp
@@ -61,7 +61,10 @@ FilterDifferentiator::FilterDifferentiator(const std::string &name)
       CONSTRUCT_SIGNAL_OUT(x_filtered, dynamicgraph::Vector, m_x_dx_ddxSINNER),
       CONSTRUCT_SIGNAL_OUT(dx, dynamicgraph::Vector, m_x_dx_ddxSINNER),
       CONSTRUCT_SIGNAL_OUT(ddx, dynamicgraph::Vector, m_x_dx_ddxSINNER),
-      CONSTRUCT_SIGNAL_INNER(x_dx_ddx, dynamicgraph::Vector, m_xSIN) {
+      CONSTRUCT_SIGNAL_INNER(x_dx_ddx, dynamicgraph::Vector, m_xSIN),
+      m_dt(0),
+      m_x_size(0),
+      m_filter(NULL) {
   Entity::signalRegistration(ALL_INPUT_SIGNALS << ALL_OUTPUT_SIGNALS);
 
   /* Commands. */
@@ -94,6 +97,7 @@ void FilterDifferentiator::init(const double &timestep, const int &xSize,
                                 const Eigen::VectorXd &filter_denominator) {
   m_x_size = xSize;
   m_dt = timestep;
+  delete m_filter;
   m_filter =
       new CausalFilter(timestep, xSize, filter_numerator, filter_denominator);
 
@@ -110,6 +114,9 @@ void FilterDifferentiator::switch_filter(
       << "Numerator " << filter_numerator << std::endl
       << "Denominator" << filter_denominator << std::endl
       << "at time" << m_xSIN.getTime());
+  if (m_filter == NULL)
+    return SEND_MSG("Cannot switch the filter before initialization!",
+                    MSG_TYPE_ERROR);
   m_filter->switch_filter(filter_numerator, filter_denominator);
 }
 
@@ -119,6 +126,11 @@ void FilterDifferentiator::switch_filter(
 
 DEFINE_SIGNAL_INNER_FUNCTION(x_dx_ddx, dynamicgraph::Vector) {
   sotDEBUG(15) << "Compute x_dx inner signal " << iter << std::endl;
+  if (m_filter == NULL) {
+    SEND_WARNING_STREAM_MSG(
+        "Cannot compute signal x_dx_ddx before initialization!");
+    return s;
+  }
   if (s.size() != 3 * m_x_size) s.resize(3 * m_x_size);
   // read encoders
   const dynamicgraph::Vector &base_x = m_xSIN(iter);
-- 
2.43.0


From 40ecf23f78f539d34f9b63e45a5d013ce9c7a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 017/113] fix: Kalman variance did not follow H, R and the
 measurements

P only depended on Q and F: with constant noise and transition matrices the
filter kept its first gain for ever.
---
 src/tools/kalman.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/kalman.cpp b/src/tools/kalman.cpp
index 84defc4..9853f07 100644
--- a/src/tools/kalman.cpp
+++ b/src/tools/kalman.cpp
@@ -78,6 +78,9 @@ Matrix &Kalman::computeVarianceUpdate(Matrix &Pk_k, const int &time) {
     // Set dependency to input signals for latter computations
     varianceUpdateSOUT.addDependency(noiseTransitionSIN);
     varianceUpdateSOUT.addDependency(modelTransitionSIN);
+    varianceUpdateSOUT.addDependency(modelMeasureSIN);
+    varianceUpdateSOUT.addDependency(noiseMeasureSIN);
+    varianceUpdateSOUT.addDependency(measureSIN);
   } else {
     const Matrix &Q = noiseTransitionSIN(time);
     const Matrix &R = noiseMeasureSIN(time);
-- 
2.43.0


From 9b6a1a3f325408cb7c91aac699071c8a4e4c125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 018/113] fix: admittance control missed dependencies on the
 poses

w_force did not depend on the sensor pose, and resetDq before init used an
uninitialised size.
---
 src/control/admittance-control-op-point.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/control/admittance-control-op-point.cpp b/src/control/admittance-control-op-point.cpp
index 5b0b01d..49c7ffa 100644
--- a/src/control/admittance-control-op-point.cpp
+++ b/src/control/admittance-control-op-point.cpp
@@ -61,10 +61,13 @@ AdmittanceControlOpPoint::AdmittanceControlOpPoint(const std::string &name)
       CONSTRUCT_SIGNAL_IN(w_forceDes, dynamicgraph::Vector),
       CONSTRUCT_SIGNAL_IN(opPose, dynamicgraph::sot::MatrixHomogeneous),
       CONSTRUCT_SIGNAL_IN(sensorPose, dynamicgraph::sot::MatrixHomogeneous),
-      CONSTRUCT_SIGNAL_INNER(w_force, dynamicgraph::Vector, m_forceSIN),
+      CONSTRUCT_SIGNAL_INNER(w_force, dynamicgraph::Vector,
+                             m_forceSIN << m_sensorPoseSIN),
       CONSTRUCT_SIGNAL_INNER(w_dq, dynamicgraph::Vector,
                              INPUT_SIGNALS << m_w_forceSINNER),
-      CONSTRUCT_SIGNAL_OUT(dq, dynamicgraph::Vector, m_w_dqSINNER),
+      CONSTRUCT_SIGNAL_OUT(dq, dynamicgraph::Vector,
+                           m_w_dqSINNER << m_opPoseSIN),
+      m_n(6),
       m_initSucceeded(false) {
   Entity::signalRegistration(INPUT_SIGNALS << INNER_SIGNALS << OUTPUT_SIGNALS);
 
@@ -97,7 +100,6 @@ void AdmittanceControlOpPoint::init(const double &dt) {
     return SEND_MSG("Init failed: signal sensorPose is not plugged",
                     MSG_TYPE_ERROR);
 
-  m_n = 6;
   m_dt = dt;
   m_w_dq.setZero(m_n);
   m_initSucceeded = true;
-- 
2.43.0


From 0c6075d48ff63d9c39d030b1cae8114d03a48d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 019/113] fix: SOT_RETHROW sliced the exception to its base
 class

---
 include/sot/core/exception-abstract.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sot/core/exception-abstract.hh b/include/sot/core/exception-abstract.hh
index dc9c907..46a70c4 100644
--- a/include/sot/core/exception-abstract.hh
+++ b/include/sot/core/exception-abstract.hh
@@ -120,7 +120,7 @@ class SOT_CORE_EXPORT ExceptionAbstract : public std::exception {
 };
 
 #define SOT_RETHROW \
-  (const ExceptionAbstract &err) { throw err; }
+  (const ExceptionAbstract &) { throw; }
 
 #ifdef SOT_EXCEPTION_PASSING_PARAM
 #define SOT_THROW \
-- 
2.43.0


From 309c5c7fdee3652f0decdfb04edefe3c7a7d4694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 020/113] fix: Task lost earlier errors when its size grew,
 kept stale outputs after add or clear, and refused Jacobians of another width
 for ever

---
 src/task/task.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index 7bf4f65..9d6bc07 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -110,6 +110,8 @@ void Task::addFeature(FeatureAbstract &s) {
   jacobianSOUT.addDependency(s.jacobianSOUT);
   errorSOUT.addDependency(s.errorSOUT);
   errorTimeDerivativeSOUT.addDependency(s.getErrorDot());
+  jacobianSOUT.setReady();
+  errorSOUT.setReady();
 }
 
 void Task::addFeatureFromName(const std::string &featureName) {
@@ -128,6 +130,8 @@ void Task::clearFeatureList(void) {
   }
 
   featureList.clear();
+  jacobianSOUT.setReady();
+  errorSOUT.setReady();
 }
 
 void Task::setControlSelection(const Flags &act) { controlSelectionSIN = act; }
@@ -191,8 +195,7 @@ dynamicgraph::Vector &Task::computeError(dynamicgraph::Vector &error,
       while (cursorError + dim > dimError)  // DEBUG It was >=
       {
         dimError *= 2;
-        error.resize(dimError);
-        error.setZero();
+        error.conservativeResize(dimError);
       }
 
       for (int k = 0; k < dim; ++k) {
@@ -258,10 +261,9 @@ dynamicgraph::Matrix &Task::computeJacobian(dynamicgraph::Matrix &J, int time) {
 
   try {
     dynamicgraph::Matrix::Index dimJ = J.rows();
-    dynamicgraph::Matrix::Index nbc = J.cols();
+    dynamicgraph::Matrix::Index nbc = 0;
     if (0 == dimJ) {
       dimJ = 1;
-      J.resize(dimJ, nbc);
     }
 
     dynamicgraph::Matrix::Index cursorJ = 0;
@@ -280,7 +282,7 @@ dynamicgraph::Matrix &Task::computeJacobian(dynamicgraph::Matrix &J, int time) {
 
       if (0 == nbc) {
         nbc = partialJacobian.cols();
-        J.resize(nbc, dimJ);
+        J.resize(dimJ, nbc);
       } else if (partialJacobian.cols() != nbc)
         throw ExceptionTask(
             ExceptionTask::NON_ADEQUATE_FEATURES,
-- 
2.43.0


From 50682fb0e168cf7df0c9e0e7b2c3305ef16c3dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 021/113] fix: TaskPD output did not depend on the errorDot
 input

---
 src/task/task-pd.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task/task-pd.cpp b/src/task/task-pd.cpp
index 73d2aeb..a1da8f6 100644
--- a/src/task/task-pd.cpp
+++ b/src/task/task-pd.cpp
@@ -39,6 +39,7 @@ TaskPD::TaskPD(const std::string &n)
       errorDotSIN(NULL, "sotTaskPD(" + n + ")::input(vector)::errorDot") {
   taskSOUT.setFunction(boost::bind(&TaskPD::computeTaskModif, this, _1, _2));
   taskSOUT.addDependency(errorDotSOUT);
+  taskSOUT.addDependency(errorDotSIN);
 
   signalRegistration(errorDotSOUT << errorDotSIN);
   initCommand();
-- 
2.43.0


From b911060fde5a5a0563869891df7da851f53b2eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 022/113] fix: TaskConti terminated the process (throw without
 exception) when q0 has not the size of the Jacobian

---
 src/task/task-conti.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/task-conti.cpp b/src/task/task-conti.cpp
index 4129f95..b3734d2 100644
--- a/src/task/task-conti.cpp
+++ b/src/task/task-conti.cpp
@@ -35,6 +35,7 @@ TaskConti::TaskConti(const std::string &n)
       controlPrevSIN(NULL, "sotTaskConti(" + n + ")::input(double)::q0") {
   taskSOUT.setFunction(
       boost::bind(&TaskConti::computeContiDesiredVelocity, this, _1, _2));
+  taskSOUT.addDependency(jacobianSOUT);
   signalRegistration(controlPrevSIN);
 }
 
@@ -51,7 +52,7 @@ VectorMultiBound &TaskConti::computeContiDesiredVelocity(
     dynamicgraph::Vector deref(J.rows());
     sotDEBUG(15) << "q0 = " << q0 << std::endl;
     sotDEBUG(25) << "J = " << J << std::endl;
-    if (q0.size() != (J.cols() - 6)) throw;  // TODO
+    if (q0.size() != (J.cols() - 6)) throw 1;
     for (int i = 0; i < J.rows(); ++i) {
       deref(i) = 0;
       for (int j = 6; j < J.cols(); ++j) deref(i) += J(i, j) * q0(j - 6);
-- 
2.43.0


From bd6ef40f3b47fd512aa66074efa7fceeef268a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 023/113] fix: changing the reference of a feature kept former
 dependencies and stale outputs; reference derivative of another size read or
 wrote out of bounds

---
 include/sot/core/feature-abstract.hh | 5 ++++-
 src/feature/feature-abstract.cpp     | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/sot/core/feature-abstract.hh b/include/sot/core/feature-abstract.hh
index 18fea95..c8dd6b2 100644
--- a/include/sot/core/feature-abstract.hh
+++ b/include/sot/core/feature-abstract.hh
@@ -251,15 +251,18 @@ void FeatureReferenceHelper<FeatureSpecialized>::setReference(
 #define DECLARE_REFERENCE_FUNCTIONS(FeatureSpecialized)             \
   typedef FeatureReferenceHelper<FeatureSpecialized> SP;            \
   virtual void setReference(FeatureAbstract *sdes) {                \
+    if (SP::isReferenceSet()) removeDependenciesFromReference();    \
     if (sdes == NULL) {                                             \
       /* UNSET */                                                   \
-      if (SP::isReferenceSet()) removeDependenciesFromReference();  \
       SP::unsetReference();                                         \
     } else {                                                        \
       /* SET */                                                     \
       SP::setReference(sdes);                                       \
       if (SP::isReferenceSet()) addDependenciesFromReference();     \
     }                                                               \
+    errorSOUT.setReady();                                           \
+    errordotSOUT.setReady();                                        \
+    jacobianSOUT.setReady();                                        \
   }                                                                 \
   virtual const FeatureAbstract *getReferenceAbstract(void) const { \
     return SP::getReference();                                      \
diff --git a/src/feature/feature-abstract.cpp b/src/feature/feature-abstract.cpp
index 42c0791..47ac68d 100644
--- a/src/feature/feature-abstract.cpp
+++ b/src/feature/feature-abstract.cpp
@@ -106,7 +106,10 @@ dynamicgraph::Vector &FeatureAbstract::computeErrorDot(
     const dynamicgraph::Vector &errdotDes =
         getReferenceAbstract()->errordotSIN(time);
     sotDEBUG(15) << "Err* = " << errdotDes;
-    if (errdotDes.size() < dim) {
+    int nbSelected = 0;
+    for (int i = 0; i < errdotDes.size(); ++i)
+      if (fl(i)) ++nbSelected;
+    if (nbSelected < dim) {
       SOT_THROW ExceptionFeature(
           ExceptionFeature::UNCOMPATIBLE_SIZE,
           "Error: dimension uncompatible with des->errorIN size."
@@ -114,7 +117,7 @@ dynamicgraph::Vector &FeatureAbstract::computeErrorDot(
           getName().c_str());
     }
 
-    for (int i = 0; i < errdotDes.size(); ++i)
+    for (int i = 0; curr < (unsigned int)dim; ++i)
       if (fl(i)) res(curr++) = -errdotDes(i);
   } else
     res.setZero();
-- 
2.43.0


From b2f5cd4f28af11c9f91ebcf5ec8d8a99909e70dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 024/113] fix: FeatureGeneric kept its first dimension, and
 read out of bounds a short reference or Jacobian

---
 src/feature/feature-generic.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/feature/feature-generic.cpp b/src/feature/feature-generic.cpp
index a330dc7..f16f8b4 100644
--- a/src/feature/feature-generic.cpp
+++ b/src/feature/feature-generic.cpp
@@ -36,6 +36,8 @@ FeatureGeneric::FeatureGeneric(const string &pointName)
 {
   jacobianSOUT.addDependency(jacobianSIN);
   errorSOUT.addDependency(errorSIN);
+  dimensionSOUT.addDependency(errorSIN);
+  errordotSOUT.addDependency(dimensionSOUT);
 
   signalRegistration(errorSIN << jacobianSIN << errordotSIN << errordotSOUT);
 }
@@ -65,7 +67,7 @@ unsigned int &FeatureGeneric::getDimension(unsigned int &dim, int time) {
 
   const Flags &fl = selectionSIN.access(time);
 
-  if (dimensionDefault == 0) dimensionDefault = errorSIN.access(time).size();
+  dimensionDefault = errorSIN.access(time).size();
 
   dim = 0;
   for (unsigned int i = 0; i < dimensionDefault; ++i)
@@ -105,8 +107,16 @@ Vector &FeatureGeneric::computeError(Vector &res, int time) {
     }
 
     for (int i = 0; i < err.size(); ++i)
-      if (fl(i))
-        if (fl(i)) res(curr++) = err(i) - errDes(i);
+      if (fl(i)) {
+        if (i >= errDes.size()) {
+          SOT_THROW ExceptionFeature(
+              ExceptionFeature::UNCOMPATIBLE_SIZE,
+              "Error: dimension uncompatible with des->errorIN size."
+              " (while considering feature <%s>).",
+              getName().c_str());
+        }
+        res(curr++) = err(i) - errDes(i);
+      }
   } else {
     for (int i = 0; i < err.size(); ++i)
       if (fl(i)) res(curr++) = err(i);
@@ -127,6 +137,13 @@ Matrix &FeatureGeneric::computeJacobian(Matrix &res, int time) {
 
   for (unsigned int i = 0; curr < dim; ++i)
     if (fl(i)) {
+      if (i >= Jac.rows()) {
+        SOT_THROW ExceptionFeature(
+            ExceptionFeature::UNCOMPATIBLE_SIZE,
+            "Error: dimension uncompatible with jacobianIN size."
+            " (while considering feature <%s>).",
+            getName().c_str());
+      }
       for (int j = 0; j < Jac.cols(); ++j) res(curr, j) = Jac(i, j);
       curr++;
     }
-- 
2.43.0


From ce2f58cc72557eb85184ebb9c2df6c970ae1edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 025/113] fix: missing dependencies in Feature1D,
 FeatureVector3 and FeaturePosture, uninitialised pointer in FeatureTask

---
 src/feature/feature-1d.cpp      | 11 +++++++++--
 src/feature/feature-posture.cpp |  6 ++++++
 src/feature/feature-task.cpp    |  2 +-
 src/feature/feature-vector3.cpp |  1 +
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/feature/feature-1d.cpp b/src/feature/feature-1d.cpp
index 9635784..07ee723 100644
--- a/src/feature/feature-1d.cpp
+++ b/src/feature/feature-1d.cpp
@@ -33,6 +33,7 @@ Feature1D::Feature1D(const string &pointName)
       jacobianSIN(NULL,
                   "sotFeature1D(" + name + ")::input(matrix)::jacobianIN") {
   jacobianSOUT.addDependency(jacobianSIN);
+  jacobianSOUT.addDependency(errorSIN);
   errorSOUT.addDependency(errorSIN);
 
   signalRegistration(errorSIN << jacobianSIN);
@@ -42,8 +43,14 @@ Feature1D::Feature1D(const string &pointName)
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
 
-void Feature1D::addDependenciesFromReference(void) {}
-void Feature1D::removeDependenciesFromReference(void) {}
+void Feature1D::addDependenciesFromReference(void) {
+  assert(SP::isReferenceSet());
+  errordotSOUT.addDependency(getReference()->errordotSIN);
+}
+void Feature1D::removeDependenciesFromReference(void) {
+  assert(SP::isReferenceSet());
+  errordotSOUT.removeDependency(getReference()->errordotSIN);
+}
 
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
diff --git a/src/feature/feature-posture.cpp b/src/feature/feature-posture.cpp
index ca60c5c..91669d5 100644
--- a/src/feature/feature-posture.cpp
+++ b/src/feature/feature-posture.cpp
@@ -44,6 +44,8 @@ FeaturePosture::FeaturePosture(const std::string &name)
   signalRegistration(state_ << posture_ << postureDot_);
 
   errorSOUT.addDependency(state_);
+  errorSOUT.addDependency(posture_);
+  errordotSOUT.addDependency(postureDot_);
   jacobianSOUT.setConstant(Matrix());
 
   std::string docstring;
@@ -147,6 +149,10 @@ void FeaturePosture::selectDof(unsigned dofId, bool control) {
   }
 
   jacobianSOUT.setConstant(J);
+  // the dimension changed: recompute the other signals
+  dimensionSOUT.setReady();
+  errorSOUT.setReady();
+  errordotSOUT.setReady();
 }
 
 DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(FeaturePosture, "FeaturePosture");
diff --git a/src/feature/feature-task.cpp b/src/feature/feature-task.cpp
index 2177dab..8a27b5e 100644
--- a/src/feature/feature-task.cpp
+++ b/src/feature/feature-task.cpp
@@ -29,7 +29,7 @@ DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(FeatureTask, "FeatureTask");
 /* --- CLASS ----------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
 
-FeatureTask::FeatureTask(const string &pointName) : FeatureGeneric(pointName) {}
+FeatureTask::FeatureTask(const string &pointName) : FeatureGeneric(pointName), taskPtr(NULL) {}
 
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
diff --git a/src/feature/feature-vector3.cpp b/src/feature/feature-vector3.cpp
index 9b7899d..70de434 100644
--- a/src/feature/feature-vector3.cpp
+++ b/src/feature/feature-vector3.cpp
@@ -40,6 +40,7 @@ FeatureVector3::FeatureVector3(const string &pointName)
           NULL, "sotFeatureVector3(" + name + ")::input(matrix)::Jq"),
       positionRefSIN(
           NULL, "sotFeatureVector3(" + name + ")::input(vector)::positionRef") {
+  jacobianSOUT.addDependency(vectorSIN);
   jacobianSOUT.addDependency(positionSIN);
   jacobianSOUT.addDependency(articularJacobianSIN);
 
-- 
2.43.0


From 78f89cff74d4e9d8bd6f65f5d72f2ca65d64dd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:16 +0000
Subject: [PATCH 026/113] fix: Sot wrote out of bounds when the dimension of a
 task or the size grew, and lost its dependency on a task pushed twice

---
 src/sot/sot.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 88ee365..7ac7d3c 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -219,8 +219,8 @@ void Sot::push(TaskAbstract &task) {
 TaskAbstract &Sot::pop(void) {
   TaskAbstract *res = stack.back();
   stack.pop_back();
-  controlSOUT.removeDependency(res->taskSOUT);
-  controlSOUT.removeDependency(res->jacobianSOUT);
+  // The task may be in the stack several times.
+  if (!exist(*res)) removeDependency(*res);
   controlSOUT.setReady();
   return *res;
 }
@@ -247,7 +247,9 @@ void Sot::remove(const TaskAbstract &key) {
   }
 
   stack.erase(it);
-  removeDependency(key);
+  // The task may be in the stack several times.
+  if (!exist(key)) removeDependency(key);
+  controlSOUT.setReady();
 }
 
 void Sot::removeDependency(const TaskAbstract &key) {
@@ -404,6 +406,9 @@ MemoryTaskSOT *getMemory(TaskAbstract &t, const Matrix::Index &tDim,
     mem = new MemoryTaskSOT(tDim, nDof);
     t.memoryInternal = mem;
   }
+  // The dimension of the task or the number of joints may have changed.
+  mem->tmpTask.resize(tDim);
+  mem->tmpVar.resize(nDof);
   return mem;
 }
 
-- 
2.43.0


From dc6674e2d6a9fd52265c39deadcbe99d0c32526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 027/113] fix: accelerated posture task of Sot without a
 kernel, with a partial control selection, and beyond the increment bound

---
 src/sot/sot.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 7ac7d3c..1da2ca3 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -388,13 +388,13 @@ bool updateControl(MemoryTaskSOT *mem, const Matrix::Index rankJ,
 
 bool isFullPostureTask(Task *task, const Matrix::Index &nDof,
                        const int &iterTime) {
-  if (task == NULL || task->getFeatureList().size() != 1 ||
-      !task->controlSelectionSIN(iterTime))
-    return false;
+  if (task == NULL || task->getFeatureList().size() != 1) return false;
+  const Flags &controlSelec = task->controlSelectionSIN(iterTime);
+  for (int i = 0; i < nDof; ++i)
+    if (!controlSelec(i)) return false;
   FeaturePosture *posture =
       dynamic_cast<FeaturePosture *>(task->getFeatureList().front());
 
-  assert(posture->dimensionSOUT(iterTime) <= nDof - 6);
   return posture != NULL && posture->dimensionSOUT(iterTime) == nDof - 6;
 }
 
@@ -561,10 +561,22 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
 
       /* --- COMPUTE QDOT AND P --- */
       if (!controlIsZero) mem->err.noalias() -= control.tail(nbJoints - 6);
-      mem->tmpVar.head(rankJ).noalias() =
-          kernel.transpose().rightCols(nbJoints - 6) * mem->err;
-      control.noalias() += kernel * mem->tmpVar.head(rankJ);
-      controlIsZero = false;
+      if (has_kernel) {
+        mem->tmpVar.head(rankJ).noalias() =
+            kernel.transpose().rightCols(nbJoints - 6) * mem->err;
+        mem->tmpControl.noalias() = kernel * mem->tmpVar.head(rankJ);
+      } else {
+        mem->tmpControl.setZero(nbJoints);
+        mem->tmpControl.tail(nbJoints - 6) = mem->err;
+      }
+      if (mem->tmpControl.squaredNorm() <= maxControlIncrementSquaredNorm) {
+        control += mem->tmpControl;
+        controlIsZero = false;
+      } else
+        DYNAMIC_GRAPH_ENTITY_ERROR(*this)
+            << iterTime << ": SOT " << getName() << " disabled task "
+            << taskA.getName() << " at level " << iterTask
+            << " because norm exceeded the limit.\n";
     } else {
       assert(taskA.jacobianSOUT.accessCopy().cols() == nbJoints);
 
-- 
2.43.0


From 353673eece896f817f0e177890ab37861035114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 028/113] fix: empty task, or empty initial projector, in Sot
 (decomposition of an empty matrix)

---
 src/sot/sot.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 1da2ca3..9d5b1d9 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -544,6 +544,12 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
     const Matrix::Index dim = taskA.taskSOUT.accessCopy().size();
     sotCOUNTER(0, 1);  // Direct Dynamic
 
+    /* Nothing to do for an empty task, or when no motion is left. */
+    if (dim == 0 || (has_kernel && kernel.cols() == 0)) {
+      ++iterTask;
+      continue;
+    }
+
     /* Init memory. */
     MemoryTaskSOT *mem = getMemory(taskA, dim, nbJoints);
     /***/ sotCOUNTER(1, 2);  // first allocs
-- 
2.43.0


From 5f2fa9367065a408bb1dcdf8f023fbf51808272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 029/113] fix: a task twice in the stack of Sot overwrote the
 kernel while reading it

---
 src/sot/sot.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 9d5b1d9..ef4dc4b 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -619,7 +619,9 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
       if (success) {
         controlIsZero = false;
 
-        if (!last) {
+        // The kernel does not change if nothing was solved. In particular, when
+        // the task is several times in the stack, its memory may be in use.
+        if (!last && rankJ > 0) {
           Matrix::Index cols = svd.matrixV().cols() - rankJ;
           if (has_kernel)
             mem->getKernel(nbJoints, cols).noalias() =
-- 
2.43.0


From 390d3d86e4c9e83805cb0d609bdc70c7c18b181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 030/113] fix: a first task refused by the increment bound of
 Sot disabled the tasks after it

---
 src/sot/sot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index ef4dc4b..4d598b5 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -658,7 +658,7 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
     sotPRINTCOUNTER(4);
     sotPRINTCOUNTER(5);
     sotPRINTCOUNTER(6);
-    if (last || kernel.cols() == 0) break;
+    if (last || (has_kernel && kernel.cols() == 0)) break;
   }
 
   sotCHRONO1;
-- 
2.43.0


From 3bf20ff17c37d90f357f278f0fde0588ff5dce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:37 +0000
Subject: [PATCH 031/113] fix: FeaturePoint6d error derivative did not depend
 on the pose and velocity of the reference

---
 src/feature/feature-point6d.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/feature/feature-point6d.cpp b/src/feature/feature-point6d.cpp
index 6e63116..0632581 100644
--- a/src/feature/feature-point6d.cpp
+++ b/src/feature/feature-point6d.cpp
@@ -116,12 +116,16 @@ void FeaturePoint6d::addDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.addDependency(getReference()->positionSIN);
   jacobianSOUT.addDependency(getReference()->positionSIN);
+  errordotSOUT.addDependency(getReference()->positionSIN);
+  errordotSOUT.addDependency(getReference()->velocitySIN);
 }
 
 void FeaturePoint6d::removeDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.removeDependency(getReference()->positionSIN);
   jacobianSOUT.removeDependency(getReference()->positionSIN);
+  errordotSOUT.removeDependency(getReference()->positionSIN);
+  errordotSOUT.removeDependency(getReference()->velocitySIN);
 }
 
 /* --------------------------------------------------------------------- */
-- 
2.43.0


From 547ffa330910bffc83e39e43d41bca6710134267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:37 +0000
Subject: [PATCH 032/113] fix: FeaturePoint6d frame command left the former
 outputs until an input changed

---
 src/feature/feature-point6d.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/feature/feature-point6d.cpp b/src/feature/feature-point6d.cpp
index 0632581..da72857 100644
--- a/src/feature/feature-point6d.cpp
+++ b/src/feature/feature-point6d.cpp
@@ -142,6 +142,9 @@ void FeaturePoint6d::computationFrame(const std::string &inFrame) {
                     "expecting 'current' or 'desired'");
     throw ExceptionFeature(ExceptionFeature::GENERIC, msg);
   }
+  errorSOUT.setReady();
+  jacobianSOUT.setReady();
+  errordotSOUT.setReady();
 }
 
 /// \brief Get computation frame
-- 
2.43.0


From f60846cde47d0546b135c0a51b9ae5589409ae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:51 +0000
Subject: [PATCH 033/113] fix: FeatureJointLimits kept its Jacobian and
 dimension when the limits changed, and actuate selected no joint

---
 src/feature/feature-joint-limits-command.h | 2 +-
 src/feature/feature-joint-limits.cpp       | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/feature/feature-joint-limits-command.h b/src/feature/feature-joint-limits-command.h
index 08fface..d260908 100644
--- a/src/feature/feature-joint-limits-command.h
+++ b/src/feature/feature-joint-limits-command.h
@@ -33,7 +33,7 @@ class Actuate : public Command {
       : Command(entity, std::vector<Value::Type>(), docstring) {}
   virtual Value doExecute() {
     FeatureJointLimits &fjl = static_cast<FeatureJointLimits &>(owner());
-    Flags fl(63);  // 0x0000003f = 00000000000000000000000000111111
+    Flags fl("111111");  // the six degrees of freedom of the free-flyer
     fjl.selectionSIN = (!fl);
     // return void
     return Value();
diff --git a/src/feature/feature-joint-limits.cpp b/src/feature/feature-joint-limits.cpp
index c36ef57..b79424f 100644
--- a/src/feature/feature-joint-limits.cpp
+++ b/src/feature/feature-joint-limits.cpp
@@ -50,6 +50,12 @@ FeatureJointLimits::FeatureJointLimits(const string &fName)
   errorSOUT.addDependency(upperJlSIN);
   errorSOUT.addDependency(lowerJlSIN);
 
+  jacobianSOUT.addDependency(jointSIN);
+  jacobianSOUT.addDependency(upperJlSIN);
+  jacobianSOUT.addDependency(lowerJlSIN);
+
+  dimensionSOUT.addDependency(upperJlSIN);
+
   signalRegistration(jointSIN << upperJlSIN << lowerJlSIN << widthJlSINTERN);
 
   // Commands
-- 
2.43.0


From 00aa267603b25837bc05bb07c01af21c656bb06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 034/113] fix: FeatureLineDistance ignored part of its
 derivative and kept stale outputs

---
 src/feature/feature-line-distance.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/feature/feature-line-distance.cpp b/src/feature/feature-line-distance.cpp
index 48d2b24..30a5b46 100644
--- a/src/feature/feature-line-distance.cpp
+++ b/src/feature/feature-line-distance.cpp
@@ -41,12 +41,16 @@ FeatureLineDistance::FeatureLineDistance(const string &pointName)
                 "sotFeatureVector3(" + name + ")::input(vector3)::vector"),
       lineSOUT(boost::bind(&FeatureLineDistance::computeLineCoordinates, this,
                            _1, _2),
-               positionSIN << positionRefSIN,
+               positionSIN << vectorSIN,
                "sotFeatureAbstract(" + name + ")::output(vector)::line") {
   jacobianSOUT.addDependency(positionSIN);
   jacobianSOUT.addDependency(articularJacobianSIN);
+  jacobianSOUT.addDependency(positionRefSIN);
+  jacobianSOUT.addDependency(vectorSIN);
 
   errorSOUT.addDependency(positionSIN);
+  errorSOUT.addDependency(positionRefSIN);
+  errorSOUT.addDependency(vectorSIN);
 
   signalRegistration(positionSIN << articularJacobianSIN << positionRefSIN
                                  << lineSOUT << vectorSIN);
@@ -218,6 +222,13 @@ Matrix &FeatureLineDistance::computeJacobian(Matrix &J, int time) {
       2 * a0 * b1 * z0 * b0 * c1 * c1 - 2 * a0 * b1 * b1 * z0 * c1 * c0 -
       2 * a0 * b1 * z1 * b0 * c1 * c1 + 2 * a0 * b1 * b1 * z1 * c1 * c0;
 
+  const double N = b0 * c1 * (x1 - x0) - c0 * b1 * (x1 - x0) -
+                   a0 * c1 * (y1 - y0) + c0 * a1 * (y1 - y0) +
+                   a0 * b1 * (z1 - z0) - b0 * a1 * (z1 - z0);
+  const double diffc0 =
+      (b1 * (x0 - x1) - a1 * (y0 - y1)) * K -
+      N * 2 * (c0 * a1 * a1 - a1 * a0 * c1 - b1 * b0 * c1 + c0 * b1 * b1);
+
   Matrix diffh(1, 6);
   diffh(0, 0) = diffx0 / K;
   diffh(0, 1) = diffy0 / K;
@@ -225,7 +236,7 @@ Matrix &FeatureLineDistance::computeJacobian(Matrix &J, int time) {
   K *= K;
   diffh(0, 3) = diffa0 / K;
   diffh(0, 4) = diffb0 / K;
-  diffh(0, 5) = 0;
+  diffh(0, 5) = diffc0 / K;
 
   /* --- Multiply Jline=dline/dq with diffh=de/dline --- */
   J.resize(1, J.cols());
-- 
2.43.0


From dce18ec5bb30f8a649aa1cfdd2ab571dd9eddfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:57 +0000
Subject: [PATCH 035/113] fix: VisualPointProjecter multiplied a 4x4 matrix and
 a 3-vector

---
 src/feature/visual-point-projecter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/feature/visual-point-projecter.cpp b/src/feature/visual-point-projecter.cpp
index 6f1c500..7e3bdf5 100644
--- a/src/feature/visual-point-projecter.cpp
+++ b/src/feature/visual-point-projecter.cpp
@@ -49,9 +49,8 @@ dynamicgraph::Vector &VisualPointProjecter::point3DgazeSOUT_function(
     dynamicgraph::Vector &p3g, int iter) {
   const dynamicgraph::Vector &p3 = m_point3DSIN(iter);
   const MatrixHomogeneous &M = m_transfoSIN(iter);
-  MatrixHomogeneous Mi;
-  Mi = M.inverse(Eigen::Affine);
-  p3g = Mi.matrix() * p3;
+  const MatrixHomogeneous Mi(M.inverse(Eigen::Affine));
+  p3g = Mi.linear() * p3 + Mi.translation();
   return p3g;
 }
 
-- 
2.43.0


From f101609ef523478d28404dd76c73a3878a38429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:45 +0000
Subject: [PATCH 036/113] fix: FeaturePoint6dRelative did not depend on the
 reference pose of its reference

---
 include/sot/core/feature-point6d-relative.hh |  2 ++
 src/feature/feature-point6d-relative.cpp     | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/sot/core/feature-point6d-relative.hh b/include/sot/core/feature-point6d-relative.hh
index 260e675..27861a2 100644
--- a/include/sot/core/feature-point6d-relative.hh
+++ b/include/sot/core/feature-point6d-relative.hh
@@ -75,6 +75,8 @@ class [[deprecated("replaced by FeaturePose")]] SOTFEATUREPOINT6DRELATIVE_EXPORT
   /*! @} */
 
   using FeaturePoint6d::getReference;
+  virtual void addDependenciesFromReference(void);
+  virtual void removeDependenciesFromReference(void);
 
  public:
   FeaturePoint6dRelative(const std::string &name);
diff --git a/src/feature/feature-point6d-relative.cpp b/src/feature/feature-point6d-relative.cpp
index 471d5e1..f449d5f 100644
--- a/src/feature/feature-point6d-relative.cpp
+++ b/src/feature/feature-point6d-relative.cpp
@@ -64,6 +64,20 @@ FeaturePoint6dRelative::FeaturePoint6dRelative(const string &pointName)
   initCommands();
 }
 
+void FeaturePoint6dRelative::addDependenciesFromReference(void) {
+  FeaturePoint6d::addDependenciesFromReference();
+  FeaturePoint6dRelative *sdes6d =
+      dynamic_cast<FeaturePoint6dRelative *>(getReference());
+  if (NULL != sdes6d) errorSOUT.addDependency(sdes6d->positionReferenceSIN);
+}
+
+void FeaturePoint6dRelative::removeDependenciesFromReference(void) {
+  FeaturePoint6d::removeDependenciesFromReference();
+  FeaturePoint6dRelative *sdes6d =
+      dynamic_cast<FeaturePoint6dRelative *>(getReference());
+  if (NULL != sdes6d) errorSOUT.removeDependency(sdes6d->positionReferenceSIN);
+}
+
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
-- 
2.43.0


From 00f0c66be4c86a95e9b1ee5dc8b0908087049359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:00 +0000
Subject: [PATCH 037/113] fix: OpPointModifier: Jacobian stale when the pose or
 the transformation changes, uninitialised default transformation

---
 include/sot/core/op-point-modifier.hh |  1 +
 src/math/op-point-modifier.cpp        | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/sot/core/op-point-modifier.hh b/include/sot/core/op-point-modifier.hh
index 5ac5fdc..f48dc09 100644
--- a/include/sot/core/op-point-modifier.hh
+++ b/include/sot/core/op-point-modifier.hh
@@ -69,6 +69,7 @@ class SOTOPPOINTMODIFIER_EXPORT OpPointModifier : public dynamicgraph::Entity {
   void setTransformation(const Eigen::Matrix4d &tr);
   void setTransformationBySignalName(std::istringstream &cmdArgs);
   const Eigen::Matrix4d &getTransformation(void);
+  void setEndEffector(const bool &mode);
 
  private:
   MatrixHomogeneous transformation;
diff --git a/src/math/op-point-modifier.cpp b/src/math/op-point-modifier.cpp
index f77af94..fc2ace5 100644
--- a/src/math/op-point-modifier.cpp
+++ b/src/math/op-point-modifier.cpp
@@ -32,13 +32,13 @@ OpPointModifier::OpPointModifier(const std::string &name)
           NULL, "OpPointModifior(" + name + ")::input(matrixhomo)::positionIN"),
       jacobianSOUT(
           boost::bind(&OpPointModifier::jacobianSOUT_function, this, _1, _2),
-          jacobianSIN,
+          jacobianSIN << positionSIN,
           "OpPointModifior(" + name + ")::output(matrix)::jacobian"),
       positionSOUT(
           boost::bind(&OpPointModifier::positionSOUT_function, this, _1, _2),
           positionSIN,
           "OpPointModifior(" + name + ")::output(matrixhomo)::position"),
-      transformation(),
+      transformation(MatrixHomogeneous::Identity()),
       isEndEffector(true) {
   sotDEBUGIN(15);
 
@@ -52,13 +52,13 @@ OpPointModifier::OpPointModifier(const std::string &name)
                          docDirectGetter("transformation", "matrix 4x4 homo")));
     addCommand(
         "setTransformation",
-        makeDirectSetter(*this, &transformation.matrix(),
+        makeCommandVoid1(*this, &OpPointModifier::setTransformation,
                          docDirectSetter("dimension", "matrix 4x4 homo")));
     addCommand("getEndEffector",
                makeDirectGetter(*this, &isEndEffector,
                                 docDirectGetter("end effector mode", "bool")));
     addCommand("setEndEffector",
-               makeDirectSetter(*this, &isEndEffector,
+               makeCommandVoid1(*this, &OpPointModifier::setEndEffector,
                                 docDirectSetter("end effector mode", "bool")));
   }
 
@@ -123,7 +123,15 @@ MatrixHomogeneous &OpPointModifier::positionSOUT_function(
 
 void OpPointModifier::setTransformation(const Eigen::Matrix4d &tr) {
   transformation.matrix() = tr;
+  jacobianSOUT.setReady();
+  positionSOUT.setReady();
 }
+
+void OpPointModifier::setEndEffector(const bool &mode) {
+  isEndEffector = mode;
+  jacobianSOUT.setReady();
+}
+
 const Eigen::Matrix4d &OpPointModifier::getTransformation(void) {
   return transformation.matrix();
 }
-- 
2.43.0


From eb76cf6df8725015ce3d70edbe2e34c36c2006a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 038/113] fix: Device: uninitialised free-flyer pose and time
 step

---
 src/tools/device.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index d07de74..a9a3ab0 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -75,6 +75,7 @@ Device::Device(const std::string &n)
       state_(6),
       sanityCheck_(true),
       controlInputType_(CONTROL_INPUT_ONE_INTEGRATION),
+      timestep_(0.),
       controlSIN(NULL, "Device(" + n + ")::input(double)::control"),
       attitudeSIN(NULL, "Device(" + n + ")::input(vector3)::attitudeIN"),
       zmpSIN(NULL, "Device(" + n + ")::input(vector3)::zmp"),
@@ -92,7 +93,7 @@ Device::Device(const std::string &n)
       pseudoTorqueSOUT("Device(" + n + ")::output(vector)::ptorque")
 
       ,
-      ffPose_(),
+      ffPose_(MatrixHomogeneous::Identity()),
       forceZero6(6) {
   forceZero6.fill(0);
   /* --- SIGNALS --- */
-- 
2.43.0


From aa7b16d6c5d0aa84680e412ade7a5047490cf5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 039/113] fix: Device setRoot wrote out of bounds and never
 changed the state

---
 src/tools/device.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index a9a3ab0..e6f30ec 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -298,9 +298,11 @@ void Device::setRoot(const Matrix &root) {
 
 void Device::setRoot(const MatrixHomogeneous &worldMwaist) {
   VectorRollPitchYaw r = (worldMwaist.linear().eulerAngles(2, 1, 0)).reverse();
-  Vector q = state_;
-  q = worldMwaist.translation();  // abusive ... but working.
-  for (unsigned int i = 0; i < 3; ++i) q(i + 3) = r(i);
+  state_.head<3>() = worldMwaist.translation();
+  state_.segment<3>(3) = r;
+  ffPose_ = worldMwaist;
+  stateSOUT.setConstant(state_);
+  motorcontrolSOUT.setConstant(state_);
 }
 
 void Device::setSecondOrderIntegration() {
-- 
2.43.0


From bb15694b2bddff26f8ed10d22b3557a4f4198d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 040/113] fix: Device: period with sanity checks on read bounds
 out of range when they were not set for this size

---
 src/tools/device.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index e6f30ec..cde84c0 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -518,6 +518,15 @@ void Device::integrate(const double &dt) {
     return;
   }
 
+  if (sanityCheck_ && (lowerVelocity_.size() != velocity_.size() ||
+                       upperVelocity_.size() != velocity_.size() ||
+                       lowerPosition_.size() != state_.size() ||
+                       upperPosition_.size() != state_.size()))
+    throw std::invalid_argument(
+        "Device::integrate: velocity or position bounds do not match the "
+        "state size. Set them first with setVelocityBounds and "
+        "setPositionBounds, or disable the sanity checks.");
+
   if (vel_control_.size() == 0) vel_control_ = Vector::Zero(controlIN.size());
 
   // If control size is state size - 6, integrate joint angles,
-- 
2.43.0


From e62a31605f1d8c10219ad2036ee085c86632808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:03 +0000
Subject: [PATCH 041/113] fix: gripper control multiplied two vectors as
 matrices

---
 src/tools/gripper-control.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gripper-control.cpp b/src/tools/gripper-control.cpp
index 29fb5fb..4afe5eb 100644
--- a/src/tools/gripper-control.cpp
+++ b/src/tools/gripper-control.cpp
@@ -148,7 +148,7 @@ dynamicgraph::Vector &GripperControl::computeDesiredPosition(
 
   // multiply the velocity elmt per elmt
   dynamicgraph::Vector weightedVel(SIZE);
-  weightedVel = velocity * factor;
+  weightedVel = velocity.cwiseProduct(factor);
   sotDEBUG(25) << " weightedVel " << weightedVel << std::endl;
 
   // integrate the desired velocity
-- 
2.43.0


From 0304b3cdb3c11aa027e492fe99f6cab1899c865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:03 +0000
Subject: [PATCH 042/113] fix: workspace clamp never computed at time 0

---
 src/tools/clamp-workspace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/clamp-workspace.cpp b/src/tools/clamp-workspace.cpp
index 02c73d2..430c39d 100644
--- a/src/tools/clamp-workspace.cpp
+++ b/src/tools/clamp-workspace.cpp
@@ -41,7 +41,7 @@ ClampWorkspace::ClampWorkspace(const string &fName)
                   "ClampWorkspace(" + name + ")::output(vector)::ref")
 
       ,
-      timeUpdate(0)
+      timeUpdate(-1)
 
       ,
       alpha(6, 6),
-- 
2.43.0


From 10094bb24315f12cb40f120d3dbe603e50f03c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:03 +0000
Subject: [PATCH 043/113] fix: neck limitation ignored the sign of the tilt,
 and the slope for a small pan

---
 src/tools/neck-limitation.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/tools/neck-limitation.cpp b/src/tools/neck-limitation.cpp
index a0f43a3..f2da42a 100644
--- a/src/tools/neck-limitation.cpp
+++ b/src/tools/neck-limitation.cpp
@@ -70,17 +70,8 @@ dynamicgraph::Vector &NeckLimitation::computeJointLimitation(
   double &panLimited = jointLimited(panRank);
   double &tiltLimited = jointLimited(tiltRank);
 
-  if (fabs(pan) < 1e-3)  // pan == 0
-  {
-    sotDEBUG(15) << "Pan = 0" << std::endl;
-    if (tilt * signTilt > coeffAffinePan) {
-      tiltLimited = coeffAffinePan;
-    } else {
-      tiltLimited = tilt;
-    }
-    panLimited = pan;
-  } else if (pan > 0) {
-    sotDEBUG(15) << "Pan > 0" << std::endl;
+  if (pan >= 0) {
+    sotDEBUG(15) << "Pan >= 0" << std::endl;
     if (signTilt * tilt > (pan * coeffLinearPan + coeffAffinePan)) {
       // Orthogonal projection .
       // 	  if( (tilt-coeffAffinePan)*coeffLinearPan<-1*pan )
@@ -95,7 +86,7 @@ dynamicgraph::Vector &NeckLimitation::computeJointLimitation(
       // 	      panLimited=(tmp2-coeffAffinePan*coeffLinearPan)*tmp;
       // 	      tiltLimited=(coeffLinearPan*tmp2+coeffAffinePan)*tmp;
       // 	    }
-      tiltLimited = (pan * coeffLinearPan + coeffAffinePan);
+      tiltLimited = signTilt * (pan * coeffLinearPan + coeffAffinePan);
       panLimited = pan;
     } else {
       tiltLimited = tilt;
@@ -121,7 +112,7 @@ dynamicgraph::Vector &NeckLimitation::computeJointLimitation(
       // 	      panLimited=(tmp2+coeffAffinePan*coeffLinearPan)*tmp;
       // 	      tiltLimited=(-coeffLinearPan*tmp2+coeffAffinePan)*tmp;
       // 	    }
-      tiltLimited = (-pan * coeffLinearPan + coeffAffinePan);
+      tiltLimited = signTilt * (-pan * coeffLinearPan + coeffAffinePan);
       panLimited = pan;
     } else {
       tiltLimited = tilt;
-- 
2.43.0


From cf1205acc33a6523995aff217fef01b27f12ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:35 +0000
Subject: [PATCH 044/113] fix: event repeated its trigger while the condition
 was false

---
 src/tools/event.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/event.cpp b/src/tools/event.cpp
index ae388ca..683d4d7 100644
--- a/src/tools/event.cpp
+++ b/src/tools/event.cpp
@@ -18,7 +18,7 @@ bool &Event::check(bool &ret, const int &time) {
     ++timeSinceUp_;
   }
   // If repetition is activated, trigger again after given number of iterations
-  bool trigger = up || (repeatAfterNIterations_ > 0 &&
+  bool trigger = up || (val && repeatAfterNIterations_ > 0 &&
                         timeSinceUp_ >= repeatAfterNIterations_);
   if (ret) {
     lastVal_ = val;
-- 
2.43.0


From e8386d564beb0041ee8ea53610d3634149385be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:59 +0000
Subject: [PATCH 045/113] fix: removing an input of a variadic entity (switch,
 operators) left its former output

---
 include/sot/core/variadic-op.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sot/core/variadic-op.hh b/include/sot/core/variadic-op.hh
index a1af537..8c97f1a 100644
--- a/include/sot/core/variadic-op.hh
+++ b/include/sot/core/variadic-op.hh
@@ -135,6 +135,7 @@ class VariadicAbstract : public Entity {
     // signalDeregistration(names[i]);
     signalDeregistration(signalsIN[i]->shortName());
     SOUT.removeDependency(*signalsIN[i]);
+    SOUT.setReady();
     delete signalsIN[i];
   }
   void _declareSignal(signal_t *s) {
-- 
2.43.0


From bce7e983935d5542fbd1c78e11d25ac19fff5983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:28 +0000
Subject: [PATCH 046/113] fix: restore the line ends of stop-watch.cpp

---
 src/utils/stop-watch.cpp | 648 +++++++++++++++++++--------------------
 1 file changed, 324 insertions(+), 324 deletions(-)

diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index 6a15852..7e5b5f1 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -1,324 +1,324 @@
-/*
-Copyright (c) 2010-2013 Tommaso Urli
-
-Tommaso Urli    tommaso.urli@uniud.it   University of Udine
-
-Permission is hereby granted, free of charge, to any person obtaining
-a copy of this software and associated documentation files (the
-"Software"), to deal in the Software without restriction, including
-without limitation the rights to use, copy, modify, merge, publish,
-distribute, sublicense, and/or sell copies of the Software, and to
-permit persons to whom the Software is furnished to do so, subject to
-the following conditions:
-
-The above copyright notice and this permission notice shall be
-included in all copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
-EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF
-MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
-NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE
-LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
-OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
-WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
-
-*/
-
-#ifndef WIN32
-#include <sys/time.h>
-#else
-#include <Windows.h>
-
-#include <iomanip>
-#endif
-
-#include <iomanip>  // std::setprecision
-
-#include "sot/core/stop-watch.hh"
-
-using std::map;
-using std::ostringstream;
-using std::string;
-
-//#define START_PROFILER(name) getProfiler().start(name)
-//#define STOP_PROFILER(name) getProfiler().stop(name)
-
-Stopwatch &getProfiler() {
-  static Stopwatch s(REAL_TIME);  // alternatives are CPU_TIME and REAL_TIME
-  return s;
-}
-
-Stopwatch::Stopwatch(StopwatchMode _mode) : active(true), mode(_mode) {
-  records_of = new map<string, PerformanceData>();
-}
-
-Stopwatch::~Stopwatch() { delete records_of; }
-
-void Stopwatch::set_mode(StopwatchMode new_mode) { mode = new_mode; }
-
-bool Stopwatch::performance_exists(string perf_name) {
-  return (records_of->find(perf_name) != records_of->end());
-}
-
-long double Stopwatch::take_time() {
-  if (mode == CPU_TIME) {
-    // Use ctime
-    return clock();
-
-  } else if (mode == REAL_TIME) {
-    // Query operating system
-
-#ifdef WIN32
-    /* In case of usage under Windows */
-    FILETIME ft;
-    LARGE_INTEGER intervals;
-
-    // Get the amount of 100 nanoseconds intervals elapsed since January 1, 1601
-    // (UTC)
-    GetSystemTimeAsFileTime(&ft);
-    intervals.LowPart = ft.dwLowDateTime;
-    intervals.HighPart = ft.dwHighDateTime;
-
-    long double measure = intervals.QuadPart;
-    measure -= 116444736000000000.0;  // Convert to UNIX epoch time
-    measure /= 10000000.0;            // Convert to seconds
-
-    return measure;
-#else
-    /* Linux, MacOS, ... */
-    struct timeval tv;
-    gettimeofday(&tv, NULL);
-
-    long double measure = tv.tv_usec;
-    measure /= 1000000.0;  // Convert to seconds
-    measure += tv.tv_sec;  // Add seconds part
-
-    return measure;
-#endif
-
-  } else {
-    // If mode == NONE, clock has not been initialized, then throw exception
-    throw StopwatchException("Clock not initialized to a time taking mode!");
-  }
-}
-
-void Stopwatch::start(string perf_name) {
-  if (!active) return;
-
-  // Just works if not already present
-  records_of->insert(make_pair(perf_name, PerformanceData()));
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // Take ctime
-  perf_info.clock_start = take_time();
-
-  // If this is a new start (i.e. not a restart)
-  //  if (!perf_info.paused)
-  //    perf_info.last_time = 0;
-
-  perf_info.paused = false;
-}
-
-void Stopwatch::stop(string perf_name) {
-  if (!active) return;
-
-  long double clock_end = take_time();
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
-
-  perf_info.stops++;
-  // A paused performance is not being measured.
-  long double lapse = 0;
-  if (!perf_info.paused) lapse = clock_end - perf_info.clock_start;
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  // Update total time
-  perf_info.total_time += lapse;
-
-  // Add the time measured before the pauses
-  lapse += perf_info.paused_lapse;
-  perf_info.paused_lapse = 0;
-
-  // Update last time
-  perf_info.last_time = lapse;
-
-  // Update min/max time
-  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
-  if (lapse <= perf_info.min_time || perf_info.stops == 1)
-    perf_info.min_time = lapse;
-}
-
-void Stopwatch::pause(string perf_name) {
-  if (!active) return;
-
-  long double clock_end = take_time();
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0 || perf_info.paused) return;
-
-  long double lapse = clock_end - perf_info.clock_start;
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  // Update total time
-  perf_info.paused_lapse += lapse;
-  perf_info.last_time = perf_info.paused_lapse;
-  perf_info.total_time += lapse;
-  perf_info.paused = true;
-}
-
-void Stopwatch::reset_all() {
-  if (!active) return;
-
-  map<string, PerformanceData>::iterator it;
-
-  for (it = records_of->begin(); it != records_of->end(); ++it) {
-    reset(it->first);
-  }
-}
-
-void Stopwatch::report_all(int precision, std::ostream &output) {
-  if (!active) return;
-
-  output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - "
-            "nSamples - totalTime) ***\n";
-  map<string, PerformanceData>::iterator it;
-  for (it = records_of->begin(); it != records_of->end(); ++it) {
-    report(it->first, precision, output);
-  }
-}
-
-void Stopwatch::reset(string perf_name) {
-  if (!active) return;
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  perf_info.clock_start = 0;
-  perf_info.total_time = 0;
-  perf_info.min_time = 0;
-  perf_info.max_time = 0;
-  perf_info.last_time = 0;
-  perf_info.paused_lapse = 0;
-  perf_info.paused = false;
-  perf_info.stops = 0;
-}
-
-void Stopwatch::turn_on() {
-  std::cout << "Stopwatch active." << std::endl;
-  active = true;
-}
-
-void Stopwatch::turn_off() {
-  std::cout << "Stopwatch inactive." << std::endl;
-  active = false;
-}
-
-void Stopwatch::report(string perf_name, int precision, std::ostream &output) {
-  if (!active) return;
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  string pad = "";
-  for (size_t i = perf_name.length(); i < STOP_WATCH_MAX_NAME_LENGTH; i++)
-    pad.append(" ");
-
-  output << perf_name << pad;
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.min_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.total_time * 1e3 / (long double)perf_info.stops) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.max_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.last_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision) << perf_info.stops
-         << std::endl;
-  output << std::fixed << std::setprecision(precision)
-         << perf_info.total_time * 1e3 << std::endl;
-}
-
-long double Stopwatch::get_time_so_far(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  long double lapse =
-      (take_time() - (records_of->find(perf_name)->second).clock_start);
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  return lapse;
-}
-
-long double Stopwatch::get_total_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.total_time;
-}
-
-long double Stopwatch::get_average_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return (perf_info.total_time / (long double)perf_info.stops);
-}
-
-long double Stopwatch::get_min_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.min_time;
-}
-
-long double Stopwatch::get_max_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.max_time;
-}
-
-long double Stopwatch::get_last_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.last_time;
-}
+/*
+Copyright (c) 2010-2013 Tommaso Urli
+
+Tommaso Urli    tommaso.urli@uniud.it   University of Udine
+
+Permission is hereby granted, free of charge, to any person obtaining
+a copy of this software and associated documentation files (the
+"Software"), to deal in the Software without restriction, including
+without limitation the rights to use, copy, modify, merge, publish,
+distribute, sublicense, and/or sell copies of the Software, and to
+permit persons to whom the Software is furnished to do so, subject to
+the following conditions:
+
+The above copyright notice and this permission notice shall be
+included in all copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
+EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF
+MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
+NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE
+LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
+OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
+WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+
+*/
+
+#ifndef WIN32
+#include <sys/time.h>
+#else
+#include <Windows.h>
+
+#include <iomanip>
+#endif
+
+#include <iomanip>  // std::setprecision
+
+#include "sot/core/stop-watch.hh"
+
+using std::map;
+using std::ostringstream;
+using std::string;
+
+//#define START_PROFILER(name) getProfiler().start(name)
+//#define STOP_PROFILER(name) getProfiler().stop(name)
+
+Stopwatch &getProfiler() {
+  static Stopwatch s(REAL_TIME);  // alternatives are CPU_TIME and REAL_TIME
+  return s;
+}
+
+Stopwatch::Stopwatch(StopwatchMode _mode) : active(true), mode(_mode) {
+  records_of = new map<string, PerformanceData>();
+}
+
+Stopwatch::~Stopwatch() { delete records_of; }
+
+void Stopwatch::set_mode(StopwatchMode new_mode) { mode = new_mode; }
+
+bool Stopwatch::performance_exists(string perf_name) {
+  return (records_of->find(perf_name) != records_of->end());
+}
+
+long double Stopwatch::take_time() {
+  if (mode == CPU_TIME) {
+    // Use ctime
+    return clock();
+
+  } else if (mode == REAL_TIME) {
+    // Query operating system
+
+#ifdef WIN32
+    /* In case of usage under Windows */
+    FILETIME ft;
+    LARGE_INTEGER intervals;
+
+    // Get the amount of 100 nanoseconds intervals elapsed since January 1, 1601
+    // (UTC)
+    GetSystemTimeAsFileTime(&ft);
+    intervals.LowPart = ft.dwLowDateTime;
+    intervals.HighPart = ft.dwHighDateTime;
+
+    long double measure = intervals.QuadPart;
+    measure -= 116444736000000000.0;  // Convert to UNIX epoch time
+    measure /= 10000000.0;            // Convert to seconds
+
+    return measure;
+#else
+    /* Linux, MacOS, ... */
+    struct timeval tv;
+    gettimeofday(&tv, NULL);
+
+    long double measure = tv.tv_usec;
+    measure /= 1000000.0;  // Convert to seconds
+    measure += tv.tv_sec;  // Add seconds part
+
+    return measure;
+#endif
+
+  } else {
+    // If mode == NONE, clock has not been initialized, then throw exception
+    throw StopwatchException("Clock not initialized to a time taking mode!");
+  }
+}
+
+void Stopwatch::start(string perf_name) {
+  if (!active) return;
+
+  // Just works if not already present
+  records_of->insert(make_pair(perf_name, PerformanceData()));
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // Take ctime
+  perf_info.clock_start = take_time();
+
+  // If this is a new start (i.e. not a restart)
+  //  if (!perf_info.paused)
+  //    perf_info.last_time = 0;
+
+  perf_info.paused = false;
+}
+
+void Stopwatch::stop(string perf_name) {
+  if (!active) return;
+
+  long double clock_end = take_time();
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // check whether the performance has been reset
+  if (perf_info.clock_start == 0) return;
+
+  perf_info.stops++;
+  // A paused performance is not being measured.
+  long double lapse = 0;
+  if (!perf_info.paused) lapse = clock_end - perf_info.clock_start;
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  // Update total time
+  perf_info.total_time += lapse;
+
+  // Add the time measured before the pauses
+  lapse += perf_info.paused_lapse;
+  perf_info.paused_lapse = 0;
+
+  // Update last time
+  perf_info.last_time = lapse;
+
+  // Update min/max time
+  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
+  if (lapse <= perf_info.min_time || perf_info.stops == 1)
+    perf_info.min_time = lapse;
+}
+
+void Stopwatch::pause(string perf_name) {
+  if (!active) return;
+
+  long double clock_end = take_time();
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // check whether the performance has been reset
+  if (perf_info.clock_start == 0 || perf_info.paused) return;
+
+  long double lapse = clock_end - perf_info.clock_start;
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  // Update total time
+  perf_info.paused_lapse += lapse;
+  perf_info.last_time = perf_info.paused_lapse;
+  perf_info.total_time += lapse;
+  perf_info.paused = true;
+}
+
+void Stopwatch::reset_all() {
+  if (!active) return;
+
+  map<string, PerformanceData>::iterator it;
+
+  for (it = records_of->begin(); it != records_of->end(); ++it) {
+    reset(it->first);
+  }
+}
+
+void Stopwatch::report_all(int precision, std::ostream &output) {
+  if (!active) return;
+
+  output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - "
+            "nSamples - totalTime) ***\n";
+  map<string, PerformanceData>::iterator it;
+  for (it = records_of->begin(); it != records_of->end(); ++it) {
+    report(it->first, precision, output);
+  }
+}
+
+void Stopwatch::reset(string perf_name) {
+  if (!active) return;
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  perf_info.clock_start = 0;
+  perf_info.total_time = 0;
+  perf_info.min_time = 0;
+  perf_info.max_time = 0;
+  perf_info.last_time = 0;
+  perf_info.paused_lapse = 0;
+  perf_info.paused = false;
+  perf_info.stops = 0;
+}
+
+void Stopwatch::turn_on() {
+  std::cout << "Stopwatch active." << std::endl;
+  active = true;
+}
+
+void Stopwatch::turn_off() {
+  std::cout << "Stopwatch inactive." << std::endl;
+  active = false;
+}
+
+void Stopwatch::report(string perf_name, int precision, std::ostream &output) {
+  if (!active) return;
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  string pad = "";
+  for (size_t i = perf_name.length(); i < STOP_WATCH_MAX_NAME_LENGTH; i++)
+    pad.append(" ");
+
+  output << perf_name << pad;
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.min_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.total_time * 1e3 / (long double)perf_info.stops) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.max_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.last_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision) << perf_info.stops
+         << std::endl;
+  output << std::fixed << std::setprecision(precision)
+         << perf_info.total_time * 1e3 << std::endl;
+}
+
+long double Stopwatch::get_time_so_far(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  long double lapse =
+      (take_time() - (records_of->find(perf_name)->second).clock_start);
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  return lapse;
+}
+
+long double Stopwatch::get_total_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.total_time;
+}
+
+long double Stopwatch::get_average_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return (perf_info.total_time / (long double)perf_info.stops);
+}
+
+long double Stopwatch::get_min_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.min_time;
+}
+
+long double Stopwatch::get_max_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.max_time;
+}
+
+long double Stopwatch::get_last_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.last_time;
+}
-- 
2.43.0


From 1a5bd9e2f2a64f257c8c762f8d9d2aed1dd8b894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:07 +0000
Subject: [PATCH 047/113] fix: CoMFreezer never saw the pattern generator stop
 and froze the CoM at once

---
 src/tools/com-freezer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/com-freezer.cpp b/src/tools/com-freezer.cpp
index 700e344..87d9972 100644
--- a/src/tools/com-freezer.cpp
+++ b/src/tools/com-freezer.cpp
@@ -51,13 +51,13 @@ dynamicgraph::Vector &CoMFreezer::computeFreezedCoM(
   if (PGInProcess) /* CoM unfreezed */
   {
     m_lastCoM = CoMRefSIN(time);
-    m_previousPGInProcess = (PGInProcess == 0);
+    m_previousPGInProcess = (PGInProcess != 0);
   } else {
     if (m_previousPGInProcess) /* pg.inprocess switch from 1 to 0 */
     {
       m_lastStopTime = time;
       m_lastCoM = CoMRefSIN(time);
-      m_previousPGInProcess = (PGInProcess == 0);
+      m_previousPGInProcess = (PGInProcess != 0);
     } else if (time < m_lastStopTime + 200) /* keep updating for 1s */
     {
       m_lastCoM = CoMRefSIN(time);
-- 
2.43.0


From ce24f49e10b4b6f5d7f6f4272e5ba456c69d2c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:07 +0000
Subject: [PATCH 048/113] fix: motion period and smooth reach outputs were
 computed once and never updated with time

---
 src/tools/motion-period.cpp | 1 +
 src/tools/smooth-reach.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/tools/motion-period.cpp b/src/tools/motion-period.cpp
index 7c7bc05..309cbac 100644
--- a/src/tools/motion-period.cpp
+++ b/src/tools/motion-period.cpp
@@ -36,6 +36,7 @@ MotionPeriod::MotionPeriod(const string &fName)
                  "MotionPeriod(" + name + ")::output(vector)::motion") {
   signalRegistration(motionSOUT);
   motionSOUT.setNeedUpdateFromAllChildren(true);
+  motionSOUT.setDependencyType(TimeDependency<int>::ALWAYS_READY);
   resize(0);
 }
 
diff --git a/src/tools/smooth-reach.cpp b/src/tools/smooth-reach.cpp
index 87acebe..5b9383b 100644
--- a/src/tools/smooth-reach.cpp
+++ b/src/tools/smooth-reach.cpp
@@ -44,6 +44,7 @@ SmoothReach::SmoothReach(const std::string &name)
   signalRegistration(startSIN << goalSOUT);
   initCommands();
   goalSOUT.setNeedUpdateFromAllChildren(true);
+  goalSOUT.setDependencyType(TimeDependency<int>::ALWAYS_READY);
   sotDEBUGOUT(5);
 }
 
-- 
2.43.0


From b9278af8fe15e346d4d4d0f597bb82ecf4d71357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:36 +0000
Subject: [PATCH 049/113] fix: motion period was wrong before its initial
 period (unsigned wrap around)

---
 src/tools/motion-period.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/motion-period.cpp b/src/tools/motion-period.cpp
index 309cbac..8cb61c6 100644
--- a/src/tools/motion-period.cpp
+++ b/src/tools/motion-period.cpp
@@ -51,7 +51,11 @@ dynamicgraph::Vector &MotionPeriod::computeMotion(dynamicgraph::Vector &res,
   res.resize(size);
   for (unsigned int i = 0; i < size; ++i) {
     const sotMotionParam &p = motionParams[i];
-    double x = ((((time - p.initPeriod) % p.period) + 0.0) / (p.period + 0.0));
+    // signed arithmetic: time may be lower than initPeriod
+    const long long elapsed =
+        (long long)time - static_cast<long long>(p.initPeriod);
+    const long long period = static_cast<long long>(p.period);
+    double x = (((elapsed % period) + 0.0) / (p.period + 0.0));
     res(i) = p.initAmplitude;
     switch (p.motionType) {
       case MOTION_CONSTANT: {
-- 
2.43.0


From 224bf70c25dbc4ea0ceb1f55df2f3eb79d1f5683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:36 +0000
Subject: [PATCH 050/113] fix: smooth reach with a null duration output NaN

---
 src/tools/smooth-reach.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools/smooth-reach.cpp b/src/tools/smooth-reach.cpp
index 5b9383b..73df625 100644
--- a/src/tools/smooth-reach.cpp
+++ b/src/tools/smooth-reach.cpp
@@ -94,8 +94,9 @@ dynamicgraph::Vector &SmoothReach::goalSOUT_function(dynamicgraph::Vector &res,
   }
 
   if (isStarted) {
-    double x = double(time - startTime) / lengthTime;
-    if (x > 1) x = 1;
+    double x = 1;
+    if (time - startTime < lengthTime)
+      x = double(time - startTime) / lengthTime;
     double x1 = smoothFunction(x);
     double x0 = 1 - x1;
     res = start * x0 + goal * x1;
-- 
2.43.0


From b9808c9dacaf633b1097bd60bb0166aeeb7bad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:21 +0000
Subject: [PATCH 051/113] fix: a post made while the mailbox is read was lost
 for the reader

---
 include/sot/core/mailbox.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sot/core/mailbox.hxx b/include/sot/core/mailbox.hxx
index 110a712..6587a2b 100644
--- a/include/sot/core/mailbox.hxx
+++ b/include/sot/core/mailbox.hxx
@@ -33,7 +33,9 @@ Mailbox<Object>::Mailbox(const std::string &name)
       timeSOUT(boost::bind(&Mailbox::getTimestamp, this, _1, _2), SOUT,
                "Mailbox(" + name + ")::output(Object)::timestamp") {
   signalRegistration(SOUT << objSOUT << timeSOUT);
-  SOUT.setDependencyType(TimeDependency<int>::BOOL_DEPENDENT);
+  // Reading resets the ready flag of the signal after the lock is released: a
+  // post made in between would be lost if the signal depended on this flag.
+  SOUT.setDependencyType(TimeDependency<int>::ALWAYS_READY);
 }
 
 template <class Object>
-- 
2.43.0


From 5fc17c070ac3e832121cf4e992ffc66ead74ec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:21 +0000
Subject: [PATCH 052/113] fix: the time stamp of a mailbox was not initialised
 before the first post

---
 include/sot/core/mailbox.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sot/core/mailbox.hxx b/include/sot/core/mailbox.hxx
index 6587a2b..4c213dc 100644
--- a/include/sot/core/mailbox.hxx
+++ b/include/sot/core/mailbox.hxx
@@ -23,6 +23,7 @@ Mailbox<Object>::Mailbox(const std::string &name)
     : Entity(name),
       mainObjectMutex(),
       mainObject(),
+      mainTimeStamp(),
       update(false)
 
       ,
-- 
2.43.0


From a848126df1d8fcaadcd3aea549c0bb3be1a9f5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:33 +0000
Subject: [PATCH 053/113] fix: reading a mailbox during a post could give back
 an older object than the last one read

---
 include/sot/core/mailbox.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sot/core/mailbox.hxx b/include/sot/core/mailbox.hxx
index 4c213dc..6fef2c1 100644
--- a/include/sot/core/mailbox.hxx
+++ b/include/sot/core/mailbox.hxx
@@ -71,6 +71,9 @@ typename Mailbox<Object>::sotTimestampedObject &Mailbox<Object>::get(
 
     update = false;
     res.obj = this->mainObject;
+  } else {
+    // A post is in progress: keep the last value read (res is a scratch buffer)
+    res = SOUT.accessCopy();
   }
 
   return res;
-- 
2.43.0


From 960a283ae04df73b0775fdb2937089c6f2bfc68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 054/113] fix: a periodic call with a null period divided by
 zero at the next run

---
 src/tools/periodic-call.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/periodic-call.cpp b/src/tools/periodic-call.cpp
index 9790808..0726547 100644
--- a/src/tools/periodic-call.cpp
+++ b/src/tools/periodic-call.cpp
@@ -20,6 +20,7 @@
 #include <sot/core/debug.hh>
 #include <sot/core/exception-tools.hh>
 #include <sot/core/periodic-call.hh>
+#include <stdexcept>
 
 using namespace std;
 using namespace dynamicgraph;
@@ -50,6 +51,9 @@ void PeriodicCall::addSignal(const std::string &sigpath) {
 void PeriodicCall::addDownsampledSignal(
     const std::string &name, SignalBase<int> &sig,
     const unsigned int &downsamplingFactor) {
+  if (downsamplingFactor == 0)
+    throw std::invalid_argument("PeriodicCall: the period of signal " + name +
+                                " is null.");
   signalMap[name] = SignalToCall(&sig, downsamplingFactor);
   return;
 }
-- 
2.43.0


From b08541774d52eaa2617da22cb959272dd6c08c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 055/113] fix: the stack of a sequencer was an uninitialised
 pointer until setSotRef

---
 src/tools/sequencer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/sequencer.cpp b/src/tools/sequencer.cpp
index 14de302..54aaef6 100644
--- a/src/tools/sequencer.cpp
+++ b/src/tools/sequencer.cpp
@@ -22,6 +22,7 @@ DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(Sequencer, "Sequencer");
 
 Sequencer::Sequencer(const std::string &name)
     : Entity(name),
+      sotPtr(NULL),
       timeInit(-1),
       playMode(false),
       outputStreamPtr(NULL),
-- 
2.43.0


From ae623032df9665fe381a3a1573f8b9b294d6cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:21 +0000
Subject: [PATCH 056/113] fix: the trigger of a sequencer was never evaluated
 again (no dependency)

---
 src/tools/sequencer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/sequencer.cpp b/src/tools/sequencer.cpp
index 54aaef6..feb1f22 100644
--- a/src/tools/sequencer.cpp
+++ b/src/tools/sequencer.cpp
@@ -33,6 +33,7 @@ Sequencer::Sequencer(const std::string &name)
 
   signalRegistration(triggerSOUT);
   triggerSOUT.setNeedUpdateFromAllChildren(true);
+  triggerSOUT.setDependencyType(TimeDependency<int>::ALWAYS_READY);
 
   sotDEBUGOUT(5);
 }
-- 
2.43.0


From cb7cf785a15b89d3fdafa35a9011027b5afc92f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:41 +0000
Subject: [PATCH 057/113] fix: a line of 1024 characters or more ended the
 loading of a file by the reader

---
 src/traces/reader.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/traces/reader.cpp b/src/traces/reader.cpp
index def2806..4198406 100644
--- a/src/traces/reader.cpp
+++ b/src/traces/reader.cpp
@@ -57,14 +57,9 @@ void sotReader::load(const string &filename) {
   sotDEBUGIN(15);
 
   std::ifstream datafile(filename.c_str());
-  const unsigned int SIZE = 1024;
-  char buffer[SIZE];
+  std::string buffer;
   std::vector<double> newline;
-  while (datafile.good()) {
-    datafile.getline(buffer, SIZE);
-    const unsigned int gcount = (unsigned int)(datafile.gcount());
-    if (gcount >= SIZE) { /* TODO read error, line to long. */
-    }
+  while (std::getline(datafile, buffer)) {
     std::istringstream iss(buffer);
     newline.clear();
     sotDEBUG(25) << "Get line = '" << buffer << "'" << std::endl;
-- 
2.43.0


From d8c872e2cc68f07914641d369fa4e13d1f9b4cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:41 +0000
Subject: [PATCH 058/113] fix: at the end of the data the reader alternated
 between the last two rows

---
 src/traces/reader.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/traces/reader.cpp b/src/traces/reader.cpp
index 4198406..767038f 100644
--- a/src/traces/reader.cpp
+++ b/src/traces/reader.cpp
@@ -97,17 +97,21 @@ dynamicgraph::Vector &sotReader::getNextData(dynamicgraph::Vector &res,
                                              const unsigned int time) {
   sotDEBUGIN(15);
 
+  if (dataSet.empty()) {
+    iteratorSet = false;
+    res.resize(0);
+    sotDEBUGOUT(15);
+    return res;
+  }
+
   if (!iteratorSet) {
     sotDEBUG(15) << "Start the list" << std::endl;
     currentData = dataSet.begin();
     iteratorSet = true;
-  } else if (currentData != dataSet.end()) {
-    ++currentData;
-  }
-
-  if (currentData == dataSet.end()) {
-    sotDEBUGOUT(15);
-    return res;
+  } else {
+    // Stay on the last row at the end of the data.
+    DataType::const_iterator next = currentData;
+    if (++next != dataSet.end()) currentData = next;
   }
 
   const Flags &selection = selectionSIN(time);
-- 
2.43.0


From 3d1f017077240c60b3ce9a4a4ef38d0bca489778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:41 +0000
Subject: [PATCH 059/113] fix: the reader never moved to the next row when time
 increased

---
 include/sot/core/reader.hh | 1 +
 src/traces/reader.cpp      | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sot/core/reader.hh b/include/sot/core/reader.hh
index 296f69d..19c6f8b 100644
--- a/include/sot/core/reader.hh
+++ b/include/sot/core/reader.hh
@@ -61,6 +61,7 @@ class SOTREADER_EXPORT sotReader : public Entity {
 
  public:
   SignalPtr<Flags, int> selectionSIN;
+  SignalTimeDependent<int, int> refresherSINTERN;
   SignalTimeDependent<dynamicgraph::Vector, int> vectorSOUT;
   SignalTimeDependent<dynamicgraph::Matrix, int> matrixSOUT;
 
diff --git a/src/traces/reader.cpp b/src/traces/reader.cpp
index 767038f..ec5c867 100644
--- a/src/traces/reader.cpp
+++ b/src/traces/reader.cpp
@@ -33,8 +33,9 @@ DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(sotReader, "Reader");
 sotReader::sotReader(const std::string n)
     : Entity(n),
       selectionSIN(NULL, "Reader(" + n + ")::input(flag)::selec"),
+      refresherSINTERN("Reader(" + n + ")::intern(dummy)::refresher"),
       vectorSOUT(boost::bind(&sotReader::getNextData, this, _1, _2),
-                 sotNOSIGNAL, "Reader(" + n + ")::vector"),
+                 refresherSINTERN, "Reader(" + n + ")::vector"),
       matrixSOUT(boost::bind(&sotReader::getNextMatrix, this, _1, _2),
                  vectorSOUT, "Reader(" + n + ")::matrix"),
       dataSet(),
@@ -44,6 +45,7 @@ sotReader::sotReader(const std::string n)
       cols(0) {
   signalRegistration(selectionSIN << vectorSOUT << matrixSOUT);
   selectionSIN = true;
+  refresherSINTERN.setDependencyType(TimeDependency<int>::ALWAYS_READY);
   vectorSOUT.setNeedUpdateFromAllChildren(true);
 
   initCommands();
-- 
2.43.0


From 2fce6dcbf80a7c12f82145d20cd39f4a099df1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:02 +0000
Subject: [PATCH 060/113] fix: the time stamp of a textual trajectory was never
 read (stream in end of file state)

---
 src/tools/trajectory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 3036a5d..45512ee 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -104,8 +104,10 @@ void RulesJointTrajectory::parse_header(std::string &trajectory,
   if (search_exp_sub_string(trajectory, what, header_re, sub_text1)) {
     is.str(what[1]);
     is >> TrajectoryToFill_.header_.seq_;
+    is.clear();
     is.str(what[2]);
     is >> TrajectoryToFill_.header_.stamp_.secs_;
+    is.clear();
     is.str(what[3]);
     is >> TrajectoryToFill_.header_.stamp_.nsecs_;
     TrajectoryToFill_.header_.frame_id_ = what[4];
-- 
2.43.0


From 71c2a17dea4db8b570ecee33216c1a1a203a7b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:02 +0000
Subject: [PATCH 061/113] fix: copying a trajectory dropped its joint names

---
 src/tools/trajectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 45512ee..60c84bb 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -286,6 +286,7 @@ void RulesJointTrajectory::parse_string(std::string &atext) {
 Trajectory::Trajectory(void) {}
 
 Trajectory::Trajectory(const Trajectory &copy) {
+  joint_names_ = copy.joint_names_;
   header_ = copy.header_;
   time_from_start_ = copy.time_from_start_;
   points_ = copy.points_;
-- 
2.43.0


From d6352457ce313f2281f191b91dfe4658c197a13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:02 +0000
Subject: [PATCH 062/113] fix: time_from_start_ of a trajectory was not
 initialised

---
 src/tools/trajectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 60c84bb..495a48b 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -283,7 +283,7 @@ void RulesJointTrajectory::parse_string(std::string &atext) {
   parse_points(sub_text1, sub_text2);
 }
 
-Trajectory::Trajectory(void) {}
+Trajectory::Trajectory(void) : time_from_start_(0) {}
 
 Trajectory::Trajectory(const Trajectory &copy) {
   joint_names_ = copy.joint_names_;
-- 
2.43.0


From 9241b176d20bb909e9b35258a79b14e79541bbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:02 +0000
Subject: [PATCH 063/113] fix: reading a second text appended its joints and
 points to those of the first one

---
 src/tools/trajectory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 495a48b..9a2ca1f 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -296,6 +296,8 @@ Trajectory::~Trajectory(void) {}
 
 int Trajectory::deserialize(std::istringstream &is) {
   std::string aStr = is.str();
+  joint_names_.clear();
+  points_.clear();
   RulesJointTrajectory aRJT(*this);
   aRJT.parse_string(aStr);
 
-- 
2.43.0


From 603699f86f631255c61c1e2bfaf864bf4c9ef185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:30 +0000
Subject: [PATCH 064/113] fix: the joint trajectory entity read the front of an
 empty queue

---
 src/tools/joint-trajectory-entity.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index 18317b5..ad2e0f8 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -206,10 +206,11 @@ void SotJointTrajectoryEntity::UpdateTrajectory(const Trajectory &aTrajectory) {
 int &SotJointTrajectoryEntity::OneStepOfUpdate(int &dummy, const int &time) {
   sotDEBUGIN(4);
   const Trajectory &atraj = trajectorySIN(time);
-  if ((atraj.header_.stamp_.secs_ !=
-       deque_traj_.front().header_.stamp_.secs_) ||
-      (atraj.header_.stamp_.nsecs_ !=
-       deque_traj_.front().header_.stamp_.nsecs_)) {
+  if (!deque_traj_.empty() &&
+      ((atraj.header_.stamp_.secs_ !=
+        deque_traj_.front().header_.stamp_.secs_) ||
+       (atraj.header_.stamp_.nsecs_ !=
+        deque_traj_.front().header_.stamp_.nsecs_))) {
     if (index_ < deque_traj_.front().points_.size() - 1) {
       sotDEBUG(4) << "Overwrite trajectory without completion." << index_ << " "
                   << deque_traj_.front().points_.size() << std::endl;
-- 
2.43.0


From e0bbbe144aa95ef5a7188a97ab2f924eeb60f4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:30 +0000
Subject: [PATCH 065/113] fix: the last five coefficients of the published
 posture were not initialised

---
 src/tools/joint-trajectory-entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index ad2e0f8..e9ec985 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -93,7 +93,7 @@ void SotJointTrajectoryEntity::UpdatePoint(const JointTrajectoryPoint &aJTP) {
   std::vector<JointTrajectoryPoint>::size_type possize = aJTP.positions_.size();
   if (possize == 0) return;
 
-  pose_.resize(aJTP.positions_.size());
+  pose_.setZero(aJTP.positions_.size());
   for (std::vector<JointTrajectoryPoint>::size_type i = 0; i < possize - 5;
        i++) {
     pose_(i) = aJTP.positions_[i];
-- 
2.43.0


From 25623e3a8cf70c8fe661914904a1aa1cbdcd4190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:30 +0000
Subject: [PATCH 066/113] fix: a trajectory point of less than five values was
 read out of bounds

---
 src/tools/joint-trajectory-entity.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index e9ec985..dda3ee9 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -91,7 +91,8 @@ void SotJointTrajectoryEntity::UpdatePoint(const JointTrajectoryPoint &aJTP) {
   sotDEBUGIN(5);
   // Posture
   std::vector<JointTrajectoryPoint>::size_type possize = aJTP.positions_.size();
-  if (possize == 0) return;
+  // The last five values are the center of mass (3) and of pressure (2).
+  if (possize < 5) return;
 
   pose_.setZero(aJTP.positions_.size());
   for (std::vector<JointTrajectoryPoint>::size_type i = 0; i < possize - 5;
-- 
2.43.0


From 26048fe2079f55701695842e4f01a9775a7f70d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:56 +0000
Subject: [PATCH 067/113] fix: a new trajectory stamped zero was taken for the
 current one and dropped

---
 src/tools/joint-trajectory-entity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index dda3ee9..597806f 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -157,6 +157,7 @@ void SotJointTrajectoryEntity::UpdateTrajectory(const Trajectory &aTrajectory) {
       } else
         deque_traj_.push_back(aTrajectory);
     }
+    traj_timestamp_ = aTrajectory.header_.stamp_;
   }
 
   sotDEBUG(3) << "step 1 " << std::endl
-- 
2.43.0


From 61e9ade7515bef744f62db54abef72dc6f87e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:54 +0000
Subject: [PATCH 068/113] fix: the number of joints of a robot was not
 initialised: conversions without a map ran out of bounds

---
 src/tools/robot-utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/robot-utils.cpp b/src/tools/robot-utils.cpp
index f628855..09033e9 100644
--- a/src/tools/robot-utils.cpp
+++ b/src/tools/robot-utils.cpp
@@ -226,7 +226,7 @@ void ForceUtil::display(std::ostream &os) const {
 }
 
 /**************** FromURDFToSot *************************/
-RobotUtil::RobotUtil() {}
+RobotUtil::RobotUtil() : m_nbJoints(0) {}
 
 void RobotUtil::set_joint_limits_for_id(const Index &idx, const double &lq,
                                         const double &uq) {
-- 
2.43.0


From ff87ddf3d5945406d951faceeea8a5ae722ada9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:54 +0000
Subject: [PATCH 069/113] fix: the former id of a joint or force given another
 id still had its name

---
 src/tools/robot-utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/robot-utils.cpp b/src/tools/robot-utils.cpp
index 09033e9..bdfeeb2 100644
--- a/src/tools/robot-utils.cpp
+++ b/src/tools/robot-utils.cpp
@@ -173,6 +173,7 @@ std::string ForceUtil::cp_get_name_from_id(Index idx) {
   return default_rtn;
 }
 void ForceUtil::create_force_id_to_name_map() {
+  m_force_id_to_name.clear();
   std::map<std::string, Index>::const_iterator it;
   for (it = m_name_to_force_id.begin(); it != m_name_to_force_id.end(); it++)
     m_force_id_to_name[it->second] = it->first;
@@ -250,6 +251,7 @@ void RobotUtil::set_name_to_id(const std::string &jointName,
 }
 
 void RobotUtil::create_id_to_name_map() {
+  m_id_to_name.clear();
   std::map<std::string, Index>::const_iterator it;
   for (it = m_name_to_id.begin(); it != m_name_to_id.end(); it++)
     m_id_to_name[it->second] = it->first;
-- 
2.43.0


From 058ef907f54bf0d6f504f0a3cb0df58f2e0b841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:54 +0000
Subject: [PATCH 070/113] fix: the force ids of the end effectors were not
 initialised

---
 include/sot/core/robot-utils.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/sot/core/robot-utils.hh b/include/sot/core/robot-utils.hh
index fa256e7..2573b04 100644
--- a/include/sot/core/robot-utils.hh
+++ b/include/sot/core/robot-utils.hh
@@ -76,6 +76,12 @@ struct SOT_CORE_EXPORT ForceUtil {
   Index m_Force_Id_Left_Hand, m_Force_Id_Right_Hand, m_Force_Id_Left_Foot,
       m_Force_Id_Right_Foot;
 
+  ForceUtil()
+      : m_Force_Id_Left_Hand(-1),
+        m_Force_Id_Right_Hand(-1),
+        m_Force_Id_Left_Foot(-1),
+        m_Force_Id_Right_Foot(-1) {}
+
   void set_name_to_force_id(const std::string &name, const Index &force_id);
 
   void set_force_id_to_limits(const Index &force_id,
-- 
2.43.0


From ba8ff9317e3c6bb93660ba324667880bd6520939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:45 +0000
Subject: [PATCH 071/113] fix: ParameterServer::init_simple refused for the
 number of robots leaves the server uninitialised

---
 src/tools/parameter-server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/parameter-server.cpp b/src/tools/parameter-server.cpp
index face65a..21026a3 100644
--- a/src/tools/parameter-server.cpp
+++ b/src/tools/parameter-server.cpp
@@ -210,7 +210,6 @@ void ParameterServer::init_simple(const double &dt) {
   m_dt = dt;
 
   m_emergency_stop_triggered = false;
-  m_initSucceeded = true;
 
   std::string localName("robot");
   std::shared_ptr<std::vector<std::string> > listOfRobots =
@@ -231,6 +230,7 @@ void ParameterServer::init_simple(const double &dt) {
   } else {
     m_robot_util = getRobotUtil(localName);
   }
+  m_initSucceeded = true;
 
   addCommand(
       "getJointsUrdfToSot",
-- 
2.43.0


From f4f74c4147e9702991aed056413f78730684ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:45 +0000
Subject: [PATCH 072/113] fix: displayRobotUtil before the initialisation
 dereferences a null pointer

---
 src/tools/parameter-server.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tools/parameter-server.cpp b/src/tools/parameter-server.cpp
index 21026a3..5007136 100644
--- a/src/tools/parameter-server.cpp
+++ b/src/tools/parameter-server.cpp
@@ -375,7 +375,13 @@ void ParameterServer::setImuJointName(const std::string &JointName) {
   m_robot_util->m_imu_joint_name = JointName;
 }
 
-void ParameterServer::displayRobotUtil() { m_robot_util->display(std::cout); }
+void ParameterServer::displayRobotUtil() {
+  if (!m_initSucceeded) {
+    SEND_WARNING_STREAM_MSG("Cannot display robot util before initialization!");
+    return;
+  }
+  m_robot_util->display(std::cout);
+}
 
 /* --- PROTECTED MEMBER METHODS
  * ---------------------------------------------------------- */
-- 
2.43.0


From 19b1984e44ac76066b6441cc6c374752ec754c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:53 +0000
Subject: [PATCH 073/113] fix: a second init_simple throws on the command it
 already registered

---
 src/tools/parameter-server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/parameter-server.cpp b/src/tools/parameter-server.cpp
index 5007136..5284f12 100644
--- a/src/tools/parameter-server.cpp
+++ b/src/tools/parameter-server.cpp
@@ -232,6 +232,8 @@ void ParameterServer::init_simple(const double &dt) {
   }
   m_initSucceeded = true;
 
+  // The command is already there when the server is initialised again.
+  if (commandMap.count("getJointsUrdfToSot")) return;
   addCommand(
       "getJointsUrdfToSot",
       makeDirectGetter(*this, &m_robot_util->m_dgv_urdf_to_sot,
-- 
2.43.0


From 3cde51dfe17710593218edc9e6b1dc8a08850526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:42 +0000
Subject: [PATCH 074/113] fix: the device is deregistered twice when the loader
 is cleaned up then destroyed

---
 src/tools/sot-loader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index e94a364..1c4c4f0 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -133,6 +133,7 @@ void SotLoader::cleanUp() {
   // the pool of entity and the class that handle the Device pointer.
   if (device_name_ != "") {
     PoolStorage::getInstance()->deregisterEntity(device_name_);
+    device_name_ = "";
   }
 
   // We do not destroy the FactoryStorage singleton because the module will not
-- 
2.43.0


From 69cd15ef67395d67bfe3aaf5a3b96d73b4129794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:42 +0000
Subject: [PATCH 075/113] fix: SotLoader::oneIteration rethrows a sliced copy
 of the exception

---
 src/tools/sot-loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index 1c4c4f0..5b1700c 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -179,7 +179,7 @@ void SotLoader::oneIteration(
     } catch (std::exception &e) {
       std::cout << "Exception while running the graph:\n"
                 << e.what() << std::endl;
-      throw e;
+      throw;
     }
   }
 }
-- 
2.43.0


From 562984193de7d501908f03e1103d1913d2043fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:42 +0000
Subject: [PATCH 076/113] fix: the option --help of SotLoader is declared
 twice, hence refused as ambiguous

---
 src/tools/sot-loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index 5b1700c..02dd500 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -44,7 +44,7 @@ int SotLoader::parseOptions(int argc, char *argv[]) {
   po::options_description desc("Allowed options");
   desc.add_options()("help", "produce help message")(
       "sot-dynamic-library", po::value<std::string>(), "Library to load");
-  desc.add_options()("help", "produce help message")(
+  desc.add_options()(
       "input-file", po::value<std::string>(), "Library to load");
 
   // Input variable map from the command line (int argc, char* argv[]).
-- 
2.43.0


From a6d7d3b3f3b1e9a9fede1ec3961c2f7d998616ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:47 +0000
Subject: [PATCH 077/113] fix: a library without the creation symbol is never
 unloaded

---
 src/tools/sot-loader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index 02dd500..004b937 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -86,6 +86,8 @@ bool SotLoader::initialization() {
   const char *dlsym_error = dlerror();
   if (dlsym_error) {
     std::cerr << "Cannot load symbol create: " << dlsym_error << '\n';
+    dlclose(sot_dynamic_library_);
+    sot_dynamic_library_ = nullptr;
     return false;
   }
 
-- 
2.43.0


From 9a2ddf51a1c1eb417c25f7ce347bb8d2a8264e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:16 +0000
Subject: [PATCH 078/113] fix: destroyed tasks and features stayed in the pool:
 dangling reference, name never free again

---
 include/sot/core/feature-abstract.hh |  4 ++--
 include/sot/core/pool.hh             | 12 +++++++++---
 include/sot/core/task-abstract.hh    |  2 ++
 src/factory/pool.cpp                 | 16 ++++++++++++++++
 src/feature/feature-abstract.cpp     |  4 ++++
 src/task/task-abstract.cpp           |  2 ++
 6 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/include/sot/core/feature-abstract.hh b/include/sot/core/feature-abstract.hh
index c8dd6b2..59b683b 100644
--- a/include/sot/core/feature-abstract.hh
+++ b/include/sot/core/feature-abstract.hh
@@ -89,8 +89,8 @@ class SOT_CORE_EXPORT FeatureAbstract : public Entity {
  public:
   /*! \brief Default constructor: the name of the class should be given. */
   FeatureAbstract(const std::string &name);
-  /*! \brief Default destructor */
-  virtual ~FeatureAbstract(void){};
+  /*! \brief Default destructor: the name of the feature is given back. */
+  virtual ~FeatureAbstract(void);
 
   /*! \name Methods returning the dimension of the feature.
     @{ */
diff --git a/include/sot/core/pool.hh b/include/sot/core/pool.hh
index f68118d..3722c0a 100644
--- a/include/sot/core/pool.hh
+++ b/include/sot/core/pool.hh
@@ -52,9 +52,6 @@ class TaskAbstract;
   As tasks and features derived from Entities, they should be registered
   as such.
 
-  \note From the code it is not very clear why we should not unregister
-  from the tasks and the features...
-
   The role of this class is also to look for the object supporting
   a command, and to apply this command.
 
@@ -101,6 +98,10 @@ class SOT_CORE_EXPORT PoolStorage {
   /*! \brief Registering a feature. */
   void registerFeature(const std::string &entname, FeatureAbstract *ent);
 
+  /*! \brief Forget a feature which is destroyed. */
+  static void deregisterFeature(const std::string &entname,
+                                const FeatureAbstract *ent);
+
   /*! \brief Get a reference to a feature. */
   FeatureAbstract &getFeature(const std::string &name);
   /*! @} */
@@ -110,6 +111,11 @@ class SOT_CORE_EXPORT PoolStorage {
    */
   /*! \brief Registering a task. */
   void registerTask(const std::string &entname, TaskAbstract *ent);
+
+  /*! \brief Forget a task which is destroyed. */
+  static void deregisterTask(const std::string &entname,
+                             const TaskAbstract *ent);
+
   /*! \brief Get a reference to a task. */
   TaskAbstract &getTask(const std::string &name);
   /*! @} */
diff --git a/include/sot/core/task-abstract.hh b/include/sot/core/task-abstract.hh
index 99000b0..5bad185 100644
--- a/include/sot/core/task-abstract.hh
+++ b/include/sot/core/task-abstract.hh
@@ -76,6 +76,8 @@ class SOT_CORE_EXPORT TaskAbstract : public dynamicgraph::Entity {
 
  public:
   TaskAbstract(const std::string &n);
+  /*! \brief Destructor: the name of the task is given back. */
+  virtual ~TaskAbstract(void);
 
  public: /* --- SIGNALS --- */
   dynamicgraph::SignalTimeDependent<VectorMultiBound, int> taskSOUT;
diff --git a/src/factory/pool.cpp b/src/factory/pool.cpp
index c77cd8c..1e5d237 100644
--- a/src/factory/pool.cpp
+++ b/src/factory/pool.cpp
@@ -52,6 +52,14 @@ void PoolStorage::registerTask(const std::string &entname, TaskAbstract *ent) {
   }
 }
 
+void PoolStorage::deregisterTask(const std::string &entname,
+                                 const TaskAbstract *ent) {
+  if (instance_ == 0) return;
+  Tasks::iterator entkey = instance_->task.find(entname);
+  if (entkey != instance_->task.end() && entkey->second == ent)
+    instance_->task.erase(entkey);
+}
+
 TaskAbstract &PoolStorage::getTask(const std::string &name) {
   Tasks::iterator entPtr = task.find(name);
   if (entPtr == task.end()) {
@@ -79,6 +87,14 @@ void PoolStorage::registerFeature(const std::string &entname,
   }
 }
 
+void PoolStorage::deregisterFeature(const std::string &entname,
+                                    const FeatureAbstract *ent) {
+  if (instance_ == 0) return;
+  Features::iterator entkey = instance_->feature.find(entname);
+  if (entkey != instance_->feature.end() && entkey->second == ent)
+    instance_->feature.erase(entkey);
+}
+
 FeatureAbstract &PoolStorage::getFeature(const std::string &name) {
   Features::iterator entPtr = feature.find(name);
   if (entPtr == feature.end()) {
diff --git a/src/feature/feature-abstract.cpp b/src/feature/feature-abstract.cpp
index 47ac68d..7d88d56 100644
--- a/src/feature/feature-abstract.cpp
+++ b/src/feature/feature-abstract.cpp
@@ -63,6 +63,10 @@ void FeatureAbstract::initCommands(void) {
                  "(feature name)."));
 }
 
+FeatureAbstract::~FeatureAbstract(void) {
+  PoolStorage::deregisterFeature(name, this);
+}
+
 void FeatureAbstract::featureRegistration(void) {
   PoolStorage::getInstance()->registerFeature(name, this);
 }
diff --git a/src/task/task-abstract.cpp b/src/task/task-abstract.cpp
index 7070b93..f2559c4 100644
--- a/src/task/task-abstract.cpp
+++ b/src/task/task-abstract.cpp
@@ -31,6 +31,8 @@ TaskAbstract::TaskAbstract(const std::string &n)
   signalRegistration(taskSOUT << jacobianSOUT);
 }
 
+TaskAbstract::~TaskAbstract(void) { PoolStorage::deregisterTask(name, this); }
+
 void TaskAbstract::taskRegistration(void) {
   PoolStorage::getInstance()->registerTask(name, this);
 }
-- 
2.43.0


From 88d0cda0df469c79bab4a9be27394e1e572373ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:56 +0000
Subject: [PATCH 079/113] fix: PoolStorage::writeGraph throws when the last dot
 is in the directory, and names the graph with a slash

---
 src/factory/pool.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/factory/pool.cpp b/src/factory/pool.cpp
index 1e5d237..1db8eee 100644
--- a/src/factory/pool.cpp
+++ b/src/factory/pool.cpp
@@ -106,14 +106,12 @@ FeatureAbstract &PoolStorage::getFeature(const std::string &name) {
 }
 
 void PoolStorage::writeGraph(const std::string &aFileName) {
-  size_t IdxPointFound = aFileName.rfind(".");
-  std::string tmp1 = aFileName.substr(0, IdxPointFound);
+  // Name of the file, without its directory then without its extension.
   size_t IdxSeparatorFound = aFileName.rfind("/");
-  std::string GenericName;
+  std::string GenericName = aFileName;
   if (IdxSeparatorFound != std::string::npos)
-    GenericName = tmp1.substr(IdxSeparatorFound, tmp1.length());
-  else
-    GenericName = tmp1;
+    GenericName = aFileName.substr(IdxSeparatorFound + 1);
+  GenericName = GenericName.substr(0, GenericName.rfind("."));
 
   /* Reading local time */
   time_t ltime;
-- 
2.43.0


From 5df184aac707ee13c3a161c020a1ec5e918ea9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:56 +0000
Subject: [PATCH 080/113] fix: PoolStorage::writeGraph does not quote names:
 not a dot file for names which are not identifiers

---
 src/factory/pool.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/factory/pool.cpp b/src/factory/pool.cpp
index 1db8eee..5eb6cfc 100644
--- a/src/factory/pool.cpp
+++ b/src/factory/pool.cpp
@@ -133,7 +133,7 @@ void PoolStorage::writeGraph(const std::string &aFileName) {
             << " Time: " << ltimeformatted.tm_hour << ":"
             << ltimeformatted.tm_min;
   GraphFile << " */" << std::endl;
-  GraphFile << "digraph " << GenericName << " { ";
+  GraphFile << "digraph \"" << GenericName << "\" { ";
   GraphFile << "\t graph [ label=\"" << GenericName
             << "\" bgcolor = white rankdir=LR ]" << std::endl
             << "\t node [ fontcolor = black, color = black, "
@@ -144,8 +144,8 @@ void PoolStorage::writeGraph(const std::string &aFileName) {
 
   for (Tasks::iterator iter = task.begin(); iter != task.end(); iter++) {
     TaskAbstract *ent = iter->second;
-    GraphFile << "\t\t" << ent->getName() << " [ label = \"" << ent->getName()
-              << "\" ," << std::endl
+    GraphFile << "\t\t\"" << ent->getName() << "\" [ label = \""
+              << ent->getName() << "\" ," << std::endl
               << "\t\t   fontcolor = black, color = black, "
                  "fillcolor = magenta, style=filled, shape=box ]"
               << std::endl;
-- 
2.43.0


From 88e2878e7050d75297529f31c7e91f44c64d9daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:06 +0000
Subject: [PATCH 081/113] fix: PoolStorage::writeGraph leaves the graph open:
 closing brace missing

---
 src/factory/pool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factory/pool.cpp b/src/factory/pool.cpp
index 5eb6cfc..8c66e9c 100644
--- a/src/factory/pool.cpp
+++ b/src/factory/pool.cpp
@@ -151,6 +151,7 @@ void PoolStorage::writeGraph(const std::string &aFileName) {
               << std::endl;
   }
 
+  GraphFile << "}" << std::endl;
   GraphFile << "}" << std::endl;
 
   GraphFile.close();
-- 
2.43.0


From 8be5f6e42d9d38fdc2245973c6c7737a6337a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:36 +0000
Subject: [PATCH 082/113] fix: attime refuses functions without attributes
 (methods of built-in objects)

---
 src/dynamic_graph/sot/core/utils/attime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/attime.py b/src/dynamic_graph/sot/core/utils/attime.py
index 3ac1548..f3f5542 100644
--- a/src/dynamic_graph/sot/core/utils/attime.py
+++ b/src/dynamic_graph/sot/core/utils/attime.py
@@ -68,7 +68,7 @@ class Calendar:
                 if isinstance(fun, tuple):
                     self.registerEvent(iter, fun)
                 else:  # assert iscallable(fun)
-                    if "functor" in fun.__dict__:
+                    if hasattr(fun, "functor"):
                         self.registerEvent(iter, (fun.functor, fun.functor.__doc__))
                     else:
                         self.registerEvent(iter, (fun, fun.__doc__))
-- 
2.43.0


From 6398198878809e8d05af29eb690f0208eecfc43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:47 +0000
Subject: [PATCH 083/113] fix: printing a calendar: iteritems, functions as
 strings, keys which cannot be sorted

---
 src/dynamic_graph/sot/core/utils/attime.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/attime.py b/src/dynamic_graph/sot/core/utils/attime.py
index f3f5542..b90ef06 100644
--- a/src/dynamic_graph/sot/core/utils/attime.py
+++ b/src/dynamic_graph/sot/core/utils/attime.py
@@ -33,11 +33,14 @@ class Calendar:
 
     def __repr__(self):
         res = ""
-        for iter, funpairs in sorted(self.events.iteritems()):
-            res += str(iter) + ": \n"
+        times = [iter for iter in self.events if iter not in (ALWAYS, STOP)]
+        keys = [iter for iter in (ALWAYS,) if iter in self.events] + sorted(times)
+        for iter in keys:
+            funpairs = self.events[iter]
+            res += ("always" if iter == ALWAYS else str(iter)) + ": \n"
             for funpair in funpairs:
-                if funpair[1] == "":
-                    res += funpair[0] + "\n"
+                if not funpair[1]:
+                    res += str(funpair[0]) + "\n"
                 else:
                     res += str(funpair[1]) + "\n"
         return res
-- 
2.43.0


From 9abf49f8e804d3dc3ae2d2b4bfa320ba13bf893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:54 +0000
Subject: [PATCH 084/113] fix: a periodic function which stops itself makes the
 calendar skip the next one

---
 src/dynamic_graph/sot/core/utils/attime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/attime.py b/src/dynamic_graph/sot/core/utils/attime.py
index b90ef06..95a50a8 100644
--- a/src/dynamic_graph/sot/core/utils/attime.py
+++ b/src/dynamic_graph/sot/core/utils/attime.py
@@ -85,7 +85,8 @@ class Calendar:
 
     def run(self, iter, *args):
         if ALWAYS in self.events:
-            for fun, doc in self.events[ALWAYS]:
+            # on a copy: a function may stop itself
+            for fun, doc in list(self.events[ALWAYS]):
                 fun(*args)
         if iter in self.events:
             self.callPing()
-- 
2.43.0


From 76023f7c7f6fa647b6d71adcf88af2840fa57d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:25 +0000
Subject: [PATCH 085/113] fix: History adds 1 to each coordinate of a ZMP given
 as an array

---
 src/dynamic_graph/sot/core/utils/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/history.py b/src/dynamic_graph/sot/core/utils/history.py
index 2e6dcd8..edc5ec8 100644
--- a/src/dynamic_graph/sot/core/utils/history.py
+++ b/src/dynamic_graph/sot/core/utils/history.py
@@ -24,7 +24,7 @@ class History:
             self.qdot.append(self.dynEnt.velocity.value)
             if self.withZmp:
                 waMwo = matrix(self.dynEnt.waist.value).I
-                wo_z = matrix(self.zmpSig.value + (1,)).T
+                wo_z = matrix(tuple(self.zmpSig.value) + (1,)).T
                 self.zmp.append(list(vectorToTuple(waMwo * wo_z)))
 
     def restore(self, t):
-- 
2.43.0


From 5344fc7e1cf085f665b4ae90dc55c7f965c59b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:36 +0000
Subject: [PATCH 086/113] fix: History.restore gives the index of the sample as
 its time

---
 src/dynamic_graph/sot/core/utils/history.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/history.py b/src/dynamic_graph/sot/core/utils/history.py
index edc5ec8..65b83ea 100644
--- a/src/dynamic_graph/sot/core/utils/history.py
+++ b/src/dynamic_graph/sot/core/utils/history.py
@@ -28,10 +28,10 @@ class History:
                 self.zmp.append(list(vectorToTuple(waMwo * wo_z)))
 
     def restore(self, t):
-        t = int(t / self.freq)
-        print("robot.set(", self.q[t], ")")
-        print("robot.setVelocity(", self.qdot[t], ")")
-        print("T0 = ", t)
+        i = int(t / self.freq)
+        print("robot.set(", self.q[i], ")")
+        print("robot.setVelocity(", self.qdot[i], ")")
+        print("T0 = ", i * self.freq)
         print("robot.state.time = T0")
         print("[ t.feature.position.recompute(T0) for t in refreshTaskList]")
         print("attime.fastForward(T0)")
-- 
2.43.0


From c040ceb828f42a61ec2c6866765a45633efc6faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:02 +0000
Subject: [PATCH 087/113] fix: two orders to play before the thread runs start
 it twice

---
 src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
index 7b937c0..a2b882b 100644
--- a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
+++ b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
@@ -51,7 +51,6 @@ class ThreadInterruptibleLoop(threading.Thread):
 
     def run(self):
         self.isQuit = False
-        self.isRunning = True
         while not self.isQuit:
             if self.isPlay:
                 self.loop()
@@ -63,6 +62,7 @@ class ThreadInterruptibleLoop(threading.Thread):
         print("Thread loop will now end.")
 
     def start(self):
+        self.isRunning = True
         self.setPlay(True)
         threading.Thread.start(self)
 
-- 
2.43.0


From c66bf28d64303df96e749ff16a91b26d7af15b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:47 +0000
Subject: [PATCH 088/113] fix: an order to quit given before the thread runs is
 lost

---
 src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
index a2b882b..781f541 100644
--- a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
+++ b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
@@ -50,7 +50,6 @@ class ThreadInterruptibleLoop(threading.Thread):
         self.setPlay(True)
 
     def run(self):
-        self.isQuit = False
         while not self.isQuit:
             if self.isPlay:
                 self.loop()
@@ -62,6 +61,7 @@ class ThreadInterruptibleLoop(threading.Thread):
         print("Thread loop will now end.")
 
     def start(self):
+        self.isQuit = False
         self.isRunning = True
         self.setPlay(True)
         threading.Thread.start(self)
-- 
2.43.0


From f1f85a657e77388e7d821c8568acbf8bf42f2dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:35 +0000
Subject: [PATCH 089/113] fix: generic6dReference refuses a position given as a
 column

---
 src/dynamic_graph/sot/core/meta_tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/meta_tasks.py b/src/dynamic_graph/sot/core/meta_tasks.py
index bd38750..3e77d0b 100644
--- a/src/dynamic_graph/sot/core/meta_tasks.py
+++ b/src/dynamic_graph/sot/core/meta_tasks.py
@@ -52,7 +52,7 @@ def setGain(gain, val):
 def generic6dReference(p):
     M = eye(4)
     if isinstance(p, (matrix, ndarray)) and p.size == 3:
-        M[0:3, 3] = p
+        M[0:3, 3] = array(p).ravel()
     elif isinstance(p, tuple) and len(p) == 3:
         M[0:3, 3] = p
     elif isinstance(p, (matrix, ndarray)) and p.shape == (4, 4):
-- 
2.43.0


From 07bf18d22d32416b7145493a7bacb31fdf91b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:49 +0000
Subject: [PATCH 090/113] fix: MetaTaskVisualPoint cannot be built with python
 3 (length of a filter)

---
 src/dynamic_graph/sot/core/meta_task_visual_point.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_visual_point.py b/src/dynamic_graph/sot/core/meta_task_visual_point.py
index a5629b3..096073d 100644
--- a/src/dynamic_graph/sot/core/meta_task_visual_point.py
+++ b/src/dynamic_graph/sot/core/meta_task_visual_point.py
@@ -17,12 +17,10 @@ class MetaTaskVisualPoint(object):
     proj = 0
 
     def opPointExist(self, opPoint):
-        sigsP = filter(
-            lambda x: x.getName().split(":")[-1] == opPoint, self.dyn.signals()
-        )
-        sigsJ = filter(
-            lambda x: x.getName().split(":")[-1] == "J" + opPoint, self.dyn.signals()
-        )
+        sigsP = [x for x in self.dyn.signals() if x.getName().split(":")[-1] == opPoint]
+        sigsJ = [
+            x for x in self.dyn.signals() if x.getName().split(":")[-1] == "J" + opPoint
+        ]
         return len(sigsP) == 1 & len(sigsJ) == 1
 
     def defineDynEntities(self, dyn):
-- 
2.43.0


From 0cb5009f6162a7a53c0ee681f9f273b7eb60a665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:55 +0000
Subject: [PATCH 091/113] fix: MetaTaskVisualPoint gives strings as selection,
 Flags are needed

---
 src/dynamic_graph/sot/core/meta_task_visual_point.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_visual_point.py b/src/dynamic_graph/sot/core/meta_task_visual_point.py
index 096073d..191aab7 100644
--- a/src/dynamic_graph/sot/core/meta_task_visual_point.py
+++ b/src/dynamic_graph/sot/core/meta_task_visual_point.py
@@ -1,4 +1,5 @@
 from dynamic_graph import plug
+from dynamic_graph.sot.core import Flags
 from dynamic_graph.sot.core.feature_visual_point import FeatureVisualPoint
 from dynamic_graph.sot.core.gain_adaptive import GainAdaptive
 from dynamic_graph.sot.core.meta_tasks import setGain
@@ -43,7 +44,7 @@ class MetaTaskVisualPoint(object):
     def createFeatures(self):
         self.feature = FeatureVisualPoint("feature" + self.name)
         self.featureDes = FeatureVisualPoint("feature" + self.name + "_ref")
-        self.feature.selec.value = "11"
+        self.feature.selec.value = Flags("11")
 
     def createTask(self):
         self.task = Task("task" + self.name)
@@ -117,5 +118,7 @@ class MetaTaskVisualPoint(object):
         if ref2D is not None:
             self.ref = ref2D
         if selec is not None:
+            if not isinstance(selec, Flags):
+                selec = Flags(selec)
             self.feature.selec.value = selec
         setGain(self.gain, gain)
-- 
2.43.0


From 003e4fae20386e6a6dc980b93d1a7c3a9758a0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:25 +0000
Subject: [PATCH 092/113] fix: MetaTaskPosture.gotoq compares arrays of joint
 values with an empty list

---
 src/dynamic_graph/sot/core/meta_task_posture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_posture.py b/src/dynamic_graph/sot/core/meta_task_posture.py
index 0109cb8..890525a 100644
--- a/src/dynamic_graph/sot/core/meta_task_posture.py
+++ b/src/dynamic_graph/sot/core/meta_task_posture.py
@@ -75,7 +75,7 @@ class MetaTaskPosture(object):
             limbRange = self.postureRange[limbName]
             for i in limbRange:
                 act[i] = True
-            if jointValues != []:
+            if not isinstance(jointValues, list) or jointValues != []:
                 if isinstance(jointValues, matrix):
                     qdes[limbRange, 0] = vectorToTuple(jointValues)
                 else:
-- 
2.43.0


From 8bdf97de78a2857f9d44508475cfa825dbfc305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:43 +0000
Subject: [PATCH 093/113] fix: MetaTaskPosture.gotoq needs a former call
 without posture, and shares the number of joints among robots

---
 src/dynamic_graph/sot/core/meta_task_posture.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_posture.py b/src/dynamic_graph/sot/core/meta_task_posture.py
index 890525a..b5d8b48 100644
--- a/src/dynamic_graph/sot/core/meta_task_posture.py
+++ b/src/dynamic_graph/sot/core/meta_task_posture.py
@@ -59,18 +59,18 @@ class MetaTaskPosture(object):
         self.featureDes.errorIN.value = v
 
     def gotoq(self, gain=None, qdes=None, **kwargs):
-        act = list()
+        nbDof = self.nbDof
+        if nbDof is None:
+            nbDof = len(self.feature.errorIN.value)
         if qdes is not None:
             if isinstance(qdes, tuple):
                 qdes = matrix(qdes).T
         else:
-            if MetaTaskPosture.nbDof is None:
-                MetaTaskPosture.nbDof = len(self.feature.errorIN.value)
-            qdes = zeros((MetaTaskPosture.nbDof, 1))
+            qdes = zeros((nbDof, 1))
 
         act = [
             False,
-        ] * MetaTaskPosture.nbDof
+        ] * nbDof
         for limbName, jointValues in kwargs.items():
             limbRange = self.postureRange[limbName]
             for i in limbRange:
-- 
2.43.0


From 9c2ff5b2ff830a2ba4c7efd9d9d722abb9c741be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:45 +0000
Subject: [PATCH 094/113] fix: MetaTaskPosture.gotoq truncates joint values put
 in an integer posture, modifies the posture of the caller, refuses a vector

---
 src/dynamic_graph/sot/core/meta_task_posture.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_posture.py b/src/dynamic_graph/sot/core/meta_task_posture.py
index b5d8b48..f72498d 100644
--- a/src/dynamic_graph/sot/core/meta_task_posture.py
+++ b/src/dynamic_graph/sot/core/meta_task_posture.py
@@ -6,7 +6,7 @@ from dynamic_graph.sot.core.matrix_util import matrixToTuple, vectorToTuple
 from dynamic_graph.sot.core.meta_task_6d import toFlags  # noqa
 from dynamic_graph.sot.core.meta_tasks import setGain
 from dynamic_graph.sot.core.task import Task
-from numpy import identity, matrix, zeros
+from numpy import array, identity, matrix, zeros
 
 
 class MetaTaskPosture(object):
@@ -63,8 +63,7 @@ class MetaTaskPosture(object):
         if nbDof is None:
             nbDof = len(self.feature.errorIN.value)
         if qdes is not None:
-            if isinstance(qdes, tuple):
-                qdes = matrix(qdes).T
+            qdes = array(qdes, dtype=float).reshape((-1, 1))
         else:
             qdes = zeros((nbDof, 1))
 
-- 
2.43.0


From 5e97178fb06df4f70242a0294f5223a337995731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:40 +0000
Subject: [PATCH 095/113] fix: FeaturePosition refuses a reference given as an
 array

---
 src/dynamic_graph/sot/core/feature_position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/feature_position.py b/src/dynamic_graph/sot/core/feature_position.py
index 3cc632e..3a7a12c 100644
--- a/src/dynamic_graph/sot/core/feature_position.py
+++ b/src/dynamic_graph/sot/core/feature_position.py
@@ -34,7 +34,7 @@ class FeaturePosition(Entity):
         self._feature = FeaturePoint6d(name)
         self.obj = self._feature.obj
         self._reference = FeaturePoint6d(name + "_ref")
-        if referencePosition:
+        if referencePosition is not None:
             self._reference.signal("position").value = tuple(referencePosition)
         if signalPosition:
             plug(signalPosition, self._feature.signal("position"))
-- 
2.43.0


From adcb32ae5476a4972fcc92f26eee0fc77677a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:34 +0000
Subject: [PATCH 096/113] fix: a vector of bounds allocates the size its text
 announces

---
 src/task/multi-bound.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/task/multi-bound.cpp b/src/task/multi-bound.cpp
index 05e8c45..774644e 100644
--- a/src/task/multi-bound.cpp
+++ b/src/task/multi-bound.cpp
@@ -129,9 +129,9 @@ void MultiBound::setSingleBound(double boundValue) {
 
 inline static void SOT_MULTI_BOUND_CHECK_C(std::istream &is, char check,
                                            VectorMultiBound &v) {
-  char c;
+  char c = '\0';
   is.get(c);
-  if (c != check) {
+  if (!is || c != check) {
     v.resize(0);
     sotERROR << "Error while parsing vector multi-bound. Waiting for a '"
              << check << "'. Get '" << c << "' instead. " << std::endl;
@@ -236,18 +236,20 @@ std::ostream &operator<<(std::ostream &os, const VectorMultiBound &v) {
 }
 
 std::istream &operator>>(std::istream &is, VectorMultiBound &v) {
-  unsigned int vali;
+  unsigned int vali = 0;
 
   /* Read the vector size. */
   SOT_MULTI_BOUND_CHECK_C(is, '[', v);
   is >> vali;
-  v.resize(vali);
+  v.resize(0);
   SOT_MULTI_BOUND_CHECK_C(is, ']', v);
 
   /* Loop for the vals. */
   SOT_MULTI_BOUND_CHECK_C(is, '(', v);
   for (unsigned int i = 0; i < vali; ++i) {
-    is >> v[i];
+    /* The announced size is not trusted: the vector grows as values come. */
+    v.push_back(MultiBound());
+    is >> v.back();
     if (i != vali - 1) {
       SOT_MULTI_BOUND_CHECK_C(is, ',', v);
     }
-- 
2.43.0


From 15ffbf386560b1a05fa1292df461f624d9dd0a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:34 +0000
Subject: [PATCH 097/113] fix: a trajectory text without joint names is parsed
 for ever

---
 src/tools/trajectory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 9a2ca1f..bf52a59 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -147,7 +147,8 @@ void RulesJointTrajectory::parse_joint_names(
                   << std::endl;
         std::cout << "sub_text1:" << sub_text1 << std::endl;
       }
-    }
+    } else
+      joint_names_loop = false;
     trajectory = sub_text1;
 
   } while (joint_names_loop);
-- 
2.43.0


From c04486e302ccc994accd7b3e65a6bffb08ff810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:32 +0000
Subject: [PATCH 098/113] fix: the robot named robot is not shown as hrp

---
 src/dynamic_graph/sot/core/utils/viewer_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_helper.py b/src/dynamic_graph/sot/core/utils/viewer_helper.py
index ca78b11..3de355a 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_helper.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_helper.py
@@ -13,7 +13,7 @@ def stateFullSize(robot, additionalData=()):
 def refreshView(robot):
     if robot.name == "robot":
         name = "hrp"
-    if robot.name == "robot_device":
+    elif robot.name == "robot_device":
         name = "hrp"
     else:
         name = robot.name
-- 
2.43.0


From d43ba0c532b7476915ecc25f972138e634f08af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:43 +0000
Subject: [PATCH 099/113] fix: the state of a robot is shown only when it is a
 tuple

---
 src/dynamic_graph/sot/core/utils/viewer_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_helper.py b/src/dynamic_graph/sot/core/utils/viewer_helper.py
index 3de355a..7380e0e 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_helper.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_helper.py
@@ -7,7 +7,7 @@ class RobotViewerFaked:
 
 
 def stateFullSize(robot, additionalData=()):
-    return [float(val) for val in robot.state.value + additionalData]
+    return [float(val) for val in tuple(robot.state.value) + additionalData]
 
 
 def refreshView(robot):
-- 
2.43.0


From 366e171cc252c935c1c27ad2274e9dbd9d7bc139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:57 +0000
Subject: [PATCH 100/113] fix: installing a viewer twice makes the steps of a
 robot call themselves

---
 src/dynamic_graph/sot/core/utils/viewer_helper.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_helper.py b/src/dynamic_graph/sot/core/utils/viewer_helper.py
index 7380e0e..dbec810 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_helper.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_helper.py
@@ -63,10 +63,12 @@ def addRobotViewer(robot, **args):
         robot.viewer = robotviewer.client(server)
 
         RobotClass.refresh = refreshView
-        RobotClass.incrementNoView = RobotClass.increment
-        RobotClass.increment = incrementView
-        RobotClass.setNoView = RobotClass.set
-        RobotClass.set = setView
+        if RobotClass.increment is not incrementView:
+            RobotClass.incrementNoView = RobotClass.increment
+            RobotClass.increment = incrementView
+        if RobotClass.set is not setView:
+            RobotClass.setNoView = RobotClass.set
+            RobotClass.set = setView
 
         robot.displayList = []
 
-- 
2.43.0


From 6f0ae908995d7fb03f258d5399c77a3b58fdf24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:41 +0000
Subject: [PATCH 101/113] fix: printing a feature whose inputs are not set
 fails

---
 src/feature/feature-1d.cpp               | 2 +-
 src/feature/feature-point6d-relative.cpp | 2 +-
 src/feature/feature-point6d.cpp          | 2 +-
 src/feature/feature-visual-point.cpp     | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/feature/feature-1d.cpp b/src/feature/feature-1d.cpp
index 07ee723..6e2e9d1 100644
--- a/src/feature/feature-1d.cpp
+++ b/src/feature/feature-1d.cpp
@@ -100,7 +100,7 @@ void Feature1D::display(std::ostream &os) const {
   try {
     os << "  error= " << errorSIN.accessCopy() << endl
        << "  J    = " << jacobianSIN.accessCopy() << endl;
-  } catch (ExceptionAbstract e) {
+  } catch (const dynamicgraph::ExceptionAbstract &) {
     os << " All SIN not set.";
   }
 }
diff --git a/src/feature/feature-point6d-relative.cpp b/src/feature/feature-point6d-relative.cpp
index f449d5f..8f9748a 100644
--- a/src/feature/feature-point6d-relative.cpp
+++ b/src/feature/feature-point6d-relative.cpp
@@ -284,7 +284,7 @@ void FeaturePoint6dRelative::display(std::ostream &os) const {
         os << featureNames[i];
       }
     os << ") ";
-  } catch (ExceptionAbstract e) {
+  } catch (const dynamicgraph::ExceptionAbstract &) {
     os << " selectSIN not set.";
   }
 }
diff --git a/src/feature/feature-point6d.cpp b/src/feature/feature-point6d.cpp
index da72857..9352b4a 100644
--- a/src/feature/feature-point6d.cpp
+++ b/src/feature/feature-point6d.cpp
@@ -517,7 +517,7 @@ void FeaturePoint6d::display(std::ostream &os) const {
         os << featureNames[i];
       }
     os << ") ";
-  } catch (ExceptionAbstract e) {
+  } catch (const dynamicgraph::ExceptionAbstract &) {
     os << " selectSIN not set.";
   }
 }
diff --git a/src/feature/feature-visual-point.cpp b/src/feature/feature-visual-point.cpp
index b216727..ab52a70 100644
--- a/src/feature/feature-visual-point.cpp
+++ b/src/feature/feature-visual-point.cpp
@@ -167,14 +167,14 @@ void FeatureVisualPoint::display(std::ostream &os) const {
     const Flags &fl = selectionSIN.accessCopy();
     if (fl(0)) os << " x=" << xy(0);
     if (fl(1)) os << " y=" << xy(1);
-  } catch (ExceptionAbstract e) {
+  } catch (const dynamicgraph::ExceptionAbstract &) {
     os << " XY or select not set.";
   }
 
   try {
     const double &z = ZSIN.accessCopy();
     os << " Z=" << z << " ";
-  } catch (ExceptionAbstract e) {
+  } catch (const dynamicgraph::ExceptionAbstract &) {
     os << " Z not set.";
   }
 }
-- 
2.43.0


From af521bd42f741264280676a90528bc0aa9bd1c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:53 +0000
Subject: [PATCH 102/113] fix: a pose feature used before its inputs are
 plugged ends the process

---
 include/sot/core/feature-pose.hxx | 27 +--------------------------
 1 file changed, 1 insertion(+), 26 deletions(-)

diff --git a/include/sot/core/feature-pose.hxx b/include/sot/core/feature-pose.hxx
index d335ce4..32359c2 100644
--- a/include/sot/core/feature-pose.hxx
+++ b/include/sot/core/feature-pose.hxx
@@ -108,17 +108,6 @@ FeaturePose<representation>::~FeaturePose() {}
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
 
-template <Representation_t representation>
-static inline void check(const FeaturePose<representation> &ft) {
-  (void)ft;
-  assert(ft.oMja.isPlugged());
-  assert(ft.jaMfa.isPlugged());
-  assert(ft.oMjb.isPlugged());
-  assert(ft.jbMfb.isPlugged());
-  assert(ft.faMfbDes.isPlugged());
-  assert(ft.faNufafbDes.isPlugged());
-}
-
 template <Representation_t representation>
 unsigned int &FeaturePose<representation>::getDimension(unsigned int &dim,
                                                         int time) {
@@ -149,8 +138,6 @@ template <Representation_t representation>
 Matrix &FeaturePose<representation>::computeJacobian(Matrix &J, int time) {
   typedef typename internal::LG_t<representation>::type LieGroup_t;
 
-  check(*this);
-
   q_faMfb.recompute(time);
   q_faMfbDes.recompute(time);
 
@@ -205,8 +192,6 @@ Matrix &FeaturePose<representation>::computeJacobian(Matrix &J, int time) {
 template <Representation_t representation>
 MatrixHomogeneous &FeaturePose<representation>::computefaMfb(
     MatrixHomogeneous &res, int time) {
-  check(*this);
-
   res = (oMja(time) * jaMfa(time)).inverse(Eigen::Affine) * oMjb(time) *
         jbMfb(time);
   return res;
@@ -214,16 +199,12 @@ MatrixHomogeneous &FeaturePose<representation>::computefaMfb(
 
 template <Representation_t representation>
 Vector7 &FeaturePose<representation>::computeQfaMfb(Vector7 &res, int time) {
-  check(*this);
-
   toVector(faMfb(time), res);
   return res;
 }
 
 template <Representation_t representation>
 Vector7 &FeaturePose<representation>::computeQfaMfbDes(Vector7 &res, int time) {
-  check(*this);
-
   toVector(faMfbDes(time), res);
   return res;
 }
@@ -231,8 +212,6 @@ Vector7 &FeaturePose<representation>::computeQfaMfbDes(Vector7 &res, int time) {
 template <Representation_t representation>
 Vector &FeaturePose<representation>::computeError(Vector &error, int time) {
   typedef typename internal::LG_t<representation>::type LieGroup_t;
-  check(*this);
-
   const Flags &fl = selectionSIN(time);
 
   Eigen::Matrix<double, 6, 1> v;
@@ -273,8 +252,6 @@ template <Representation_t representation>
 Vector &FeaturePose<representation>::computeErrorDot(Vector &errordot,
                                                      int time) {
   typedef typename internal::LG_t<representation>::type LieGroup_t;
-  check(*this);
-
   errordot.resize(dimensionSOUT(time));
   const Flags &fl = selectionSIN(time);
   if (!faNufafbDes.isPlugged()) {
@@ -306,8 +283,6 @@ Vector &FeaturePose<representation>::computeErrorDot(Vector &errordot,
  * current position and correct any drift. */
 template <Representation_t representation>
 void FeaturePose<representation>::servoCurrentPosition(const int &time) {
-  check(*this);
-
   const MatrixHomogeneous &_oMja = (oMja.isPlugged() ? oMja.access(time) : Id),
                           _jaMfa =
                               (jaMfa.isPlugged() ? jaMfa.access(time) : Id),
@@ -335,7 +310,7 @@ void FeaturePose<representation>::display(std::ostream &os) const {
         os << featureNames[i];
       }
     os << ") ";
-  } catch (ExceptionAbstract e) {
+  } catch (const dynamicgraph::ExceptionAbstract &) {
     os << " selectSIN not set.";
   }
 }
-- 
2.43.0


From a4ecf68d080067b0f29c4a05c79f989196efba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:53 +0000
Subject: [PATCH 103/113] fix: an integrator evaluated before its
 initialisation reads outside its memory

---
 include/sot/core/integrator-abstract.hh | 13 +++++++++++--
 include/sot/core/integrator-euler.hh    |  9 ++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/sot/core/integrator-abstract.hh b/include/sot/core/integrator-abstract.hh
index 840797b..9c5a656 100644
--- a/include/sot/core/integrator-abstract.hh
+++ b/include/sot/core/integrator-abstract.hh
@@ -27,6 +27,7 @@
 #include <sot/core/flags.hh>
 
 /* STD */
+#include <stdexcept>
 #include <string>
 
 /* --------------------------------------------------------------------- */
@@ -88,8 +89,16 @@ class IntegratorAbstract : public dynamicgraph::Entity {
   void pushDenomCoef(const coefT &denomCoef) {
     denominator.push_back(denomCoef);
   }
-  void popNumCoef() { numerator.pop_back(); }
-  void popDenomCoef() { denominator.pop_back(); }
+  void popNumCoef() {
+    if (numerator.empty())
+      throw std::out_of_range("There is no numerator coefficient");
+    numerator.pop_back();
+  }
+  void popDenomCoef() {
+    if (denominator.empty())
+      throw std::out_of_range("There is no denominator coefficient");
+    denominator.pop_back();
+  }
 
   const std::vector<coefT> &numCoeffs() const { return numerator; }
   void numCoeffs(const std::vector<coefT> &coeffs) { numerator = coeffs; }
diff --git a/include/sot/core/integrator-euler.hh b/include/sot/core/integrator-euler.hh
index 92b761b..61c371b 100644
--- a/include/sot/core/integrator-euler.hh
+++ b/include/sot/core/integrator-euler.hh
@@ -111,6 +111,12 @@ class IntegratorEuler : public IntegratorAbstract<sigT, coefT> {
     const std::vector<coefT> &num = numerator;
     const std::vector<coefT> &denom = denominator;
 
+    if (num.empty() || denom.empty() || inputMemory.size() < num.size() ||
+        outputMemory.size() < denom.size())
+      throw dynamicgraph::ExceptionSignal(
+          dynamicgraph::ExceptionSignal::GENERIC,
+          "Integrator is not initialized.");
+
     // Step 1
     tmp1 = inputMemory[0];
     inputMemory[0] = SIN.access(time);
@@ -182,9 +188,10 @@ class IntegratorEuler : public IntegratorAbstract<sigT, coefT> {
           "should be 1 (the last pushDenomCoef should be the identity).");
 
     std::size_t numsize = numerator.size();
+    const sigT input(SIN.accessCopy());
     inputMemory.resize(numsize);
 
-    inputMemory[0] = SIN.accessCopy();
+    inputMemory[0] = input;
     for (std::size_t i = 1; i < numsize; ++i) {
       inputMemory[i] = inputMemory[0];
     }
-- 
2.43.0


From 4ff28565eaa7dc0150297f7038c55de23056f78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:53 +0000
Subject: [PATCH 104/113] fix: ill-formed filters, inputs of another size and
 outputs read across an initialisation end the process

---
 src/filters/filter-differentiator.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/filters/filter-differentiator.cpp b/src/filters/filter-differentiator.cpp
index b37f376..e21a0b2 100644
--- a/src/filters/filter-differentiator.cpp
+++ b/src/filters/filter-differentiator.cpp
@@ -95,6 +95,11 @@ FilterDifferentiator::FilterDifferentiator(const std::string &name)
 void FilterDifferentiator::init(const double &timestep, const int &xSize,
                                 const Eigen::VectorXd &filter_numerator,
                                 const Eigen::VectorXd &filter_denominator) {
+  if (!(timestep > 0.0))
+    return SEND_MSG("Timestep must be positive", MSG_TYPE_ERROR);
+  if (xSize < 0 || filter_numerator.size() == 0 ||
+      filter_denominator.size() == 0)
+    return SEND_MSG("The filter is ill-formed", MSG_TYPE_ERROR);
   m_x_size = xSize;
   m_dt = timestep;
   delete m_filter;
@@ -117,6 +122,8 @@ void FilterDifferentiator::switch_filter(
   if (m_filter == NULL)
     return SEND_MSG("Cannot switch the filter before initialization!",
                     MSG_TYPE_ERROR);
+  if (filter_numerator.size() == 0 || filter_denominator.size() == 0)
+    return SEND_MSG("The filter is ill-formed", MSG_TYPE_ERROR);
   m_filter->switch_filter(filter_numerator, filter_denominator);
 }
 
@@ -131,10 +138,13 @@ DEFINE_SIGNAL_INNER_FUNCTION(x_dx_ddx, dynamicgraph::Vector) {
         "Cannot compute signal x_dx_ddx before initialization!");
     return s;
   }
-  if (s.size() != 3 * m_x_size) s.resize(3 * m_x_size);
   // read encoders
   const dynamicgraph::Vector &base_x = m_xSIN(iter);
-  assert(base_x.size() == m_x_size);
+  if (base_x.size() != m_x_size)
+    throw dynamicgraph::ExceptionSignal(
+        dynamicgraph::ExceptionSignal::GENERIC,
+        "The input does not have the size of the filter.");
+  if (s.size() != 3 * m_x_size) s.resize(3 * m_x_size);
   m_filter->get_x_dx_ddx(base_x, s);
   return s;
 }
@@ -149,6 +159,8 @@ DEFINE_SIGNAL_OUT_FUNCTION(x_filtered, dynamicgraph::Vector) {
   sotDEBUG(15) << "Compute x_filtered output signal " << iter << std::endl;
 
   const dynamicgraph::Vector &x_dx_ddx = m_x_dx_ddxSINNER(iter);
+  // computed before the last initialisation
+  if (x_dx_ddx.size() != 3 * m_x_size) return s;
   if (s.size() != m_x_size) s.resize(m_x_size);
   s = x_dx_ddx.head(m_x_size);
   return s;
@@ -158,6 +170,8 @@ DEFINE_SIGNAL_OUT_FUNCTION(dx, dynamicgraph::Vector) {
   sotDEBUG(15) << "Compute dx output signal " << iter << std::endl;
 
   const dynamicgraph::Vector &x_dx_ddx = m_x_dx_ddxSINNER(iter);
+  // computed before the last initialisation
+  if (x_dx_ddx.size() != 3 * m_x_size) return s;
   if (s.size() != m_x_size) s.resize(m_x_size);
   s = x_dx_ddx.segment(m_x_size, m_x_size);
   return s;
@@ -167,6 +181,8 @@ DEFINE_SIGNAL_OUT_FUNCTION(ddx, dynamicgraph::Vector) {
   sotDEBUG(15) << "Compute ddx output signal " << iter << std::endl;
 
   const dynamicgraph::Vector &x_dx_ddx = m_x_dx_ddxSINNER(iter);
+  // computed before the last initialisation
+  if (x_dx_ddx.size() != 3 * m_x_size) return s;
   if (s.size() != m_x_size) s.resize(m_x_size);
   s = x_dx_ddx.tail(m_x_size);
   return s;
-- 
2.43.0


From 0580affaf549cdaba036f8d3b60e39e8459c4f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:53 +0000
Subject: [PATCH 105/113] fix: a quaternion of another size ends the process

---
 src/filters/madgwickahrs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filters/madgwickahrs.cpp b/src/filters/madgwickahrs.cpp
index baabe9c..8649b54 100644
--- a/src/filters/madgwickahrs.cpp
+++ b/src/filters/madgwickahrs.cpp
@@ -87,7 +87,8 @@ void MadgwickAHRS::set_beta(const double &beta) {
 }
 
 void MadgwickAHRS::set_imu_quat(const dynamicgraph::Vector &imu_quat) {
-  assert(imu_quat.size() == 4);
+  if (imu_quat.size() != 4)
+    return SEND_MSG("The quaternion must have 4 values", MSG_TYPE_ERROR);
   m_q0 = imu_quat[0];
   m_q1 = imu_quat[1];
   m_q2 = imu_quat[2];
-- 
2.43.0


From f296ce3e0d37706048ab76ac24579f50e9cc8d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:54 +0000
Subject: [PATCH 106/113] fix: a negative number of inputs ends the process

---
 include/sot/core/variadic-op.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/sot/core/variadic-op.hh b/include/sot/core/variadic-op.hh
index 8c97f1a..b0fae55 100644
--- a/include/sot/core/variadic-op.hh
+++ b/include/sot/core/variadic-op.hh
@@ -26,6 +26,7 @@
 
 /* STD */
 #include <boost/function.hpp>
+#include <stdexcept>
 #include <string>
 
 namespace dynamicgraph {
@@ -74,14 +75,14 @@ class VariadicAbstract : public Entity {
       // names.push_back (name);
       updateSignalNumber((int)signalsIN.size());
       return signalsIN.size() - 1;
-    } catch (const ExceptionAbstract &) {
+    } catch (...) {
       delete sig;
       throw;
     }
   }
 
   void removeSignal() {
-    assert(signalsIN.size() > 0);
+    if (signalsIN.empty()) throw std::out_of_range("There is no signal");
     _removeSignal(signalsIN.size() - 1);
     // names.pop_back();
     signalsIN.pop_back();
@@ -89,7 +90,7 @@ class VariadicAbstract : public Entity {
   }
 
   void setSignalNumber(const int &n) {
-    assert(n >= 0);
+    if (n < 0) throw std::out_of_range("Wrong number of signals");
     const std::size_t oldSize = signalsIN.size();
     for (std::size_t i = n; i < oldSize; ++i) _removeSignal(i);
     signalsIN.resize(n, NULL);
-- 
2.43.0


From 7d29b8b728d9c8a70f902731b63e5821badc69d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:54 +0000
Subject: [PATCH 107/113] fix: a root position of another size ends the process

---
 src/tools/device.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index cde84c0..7899128 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -16,6 +16,7 @@
 #include "sot/core/device.hh"
 
 #include <iostream>
+#include <stdexcept>
 #include <sot/core/debug.hh>
 #include <sot/core/macros.hh>
 using namespace std;
@@ -291,12 +292,16 @@ void Device::setVelocity(const Vector &vel) {
 }
 
 void Device::setRoot(const Matrix &root) {
+  if (root.rows() != 4 || root.cols() != 4)
+    throw std::invalid_argument("The root position must be a 4x4 matrix");
   Eigen::Matrix4d _matrix4d(root);
   MatrixHomogeneous _root(_matrix4d);
   setRoot(_root);
 }
 
 void Device::setRoot(const MatrixHomogeneous &worldMwaist) {
+  if (state_.size() < 6)
+    throw std::invalid_argument("There is no root in the state");
   VectorRollPitchYaw r = (worldMwaist.linear().eulerAngles(2, 1, 0)).reverse();
   state_.head<3>() = worldMwaist.translation();
   state_.segment<3>(3) = r;
-- 
2.43.0


From 448fb9e33229295663f9165587d3513caaa7279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:54 +0000
Subject: [PATCH 108/113] fix: negative matrix sizes end the process at the
 next reading

---
 src/traces/reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/traces/reader.cpp b/src/traces/reader.cpp
index ec5c867..5a17035 100644
--- a/src/traces/reader.cpp
+++ b/src/traces/reader.cpp
@@ -19,6 +19,7 @@
 #include <sot/core/debug.hh>
 #include <sot/core/reader.hh>
 #include <sstream>
+#include <stdexcept>
 
 using namespace dynamicgraph;
 using namespace dynamicgraph::sot;
@@ -174,6 +175,8 @@ void sotReader::initCommands() {
 }
 
 void sotReader::resize(const int &row, const int &col) {
+  if (row < 0 || col < 0)
+    throw std::out_of_range("Wrong size of the matrix");
   rows = row;
   cols = col;
 }
-- 
2.43.0


From 59bca3293879a259c90c6169735c43ece70933e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:04 +0000
Subject: [PATCH 109/113] fix: gains built by the C++ constructors with values
 register their error signal

---
 src/task/gain-adaptive.cpp   | 4 ++--
 src/task/gain-hyperbolic.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/task/gain-adaptive.cpp b/src/task/gain-adaptive.cpp
index 1acfce7..9b6af3a 100644
--- a/src/task/gain-adaptive.cpp
+++ b/src/task/gain-adaptive.cpp
@@ -88,7 +88,7 @@ GainAdaptive::GainAdaptive(const std::string &name)
 GainAdaptive::GainAdaptive(const std::string &name, const double &lambda)
     : __SOT_GAIN_ADAPTATIVE_INIT {
   init(lambda);
-  Entity::signalRegistration(gainSOUT);
+  Entity::signalRegistration(gainSOUT << errorSIN);
   addCommands();
 }
 
@@ -96,7 +96,7 @@ GainAdaptive::GainAdaptive(const std::string &name, const double &valueAt0,
                            const double &valueAtInfty, const double &tanAt0)
     : __SOT_GAIN_ADAPTATIVE_INIT {
   init(valueAt0, valueAtInfty, tanAt0);
-  Entity::signalRegistration(gainSOUT);
+  Entity::signalRegistration(gainSOUT << errorSIN);
   addCommands();
 }
 
diff --git a/src/task/gain-hyperbolic.cpp b/src/task/gain-hyperbolic.cpp
index 2c8ec22..528ef88 100644
--- a/src/task/gain-hyperbolic.cpp
+++ b/src/task/gain-hyperbolic.cpp
@@ -48,7 +48,7 @@ GainHyperbolic::GainHyperbolic(const std::string &name)
 GainHyperbolic::GainHyperbolic(const std::string &name, const double &lambda)
     : __SOT_GAIN_HYPERBOLIC_INIT {
   init(lambda);
-  Entity::signalRegistration(gainSOUT);
+  Entity::signalRegistration(gainSOUT << errorSIN);
 }
 
 GainHyperbolic::GainHyperbolic(const std::string &name, const double &valueAt0,
@@ -56,7 +56,7 @@ GainHyperbolic::GainHyperbolic(const std::string &name, const double &valueAt0,
                                const double &decal0)
     : __SOT_GAIN_HYPERBOLIC_INIT {
   init(valueAt0, valueAtInfty, tanAt0, decal0);
-  Entity::signalRegistration(gainSOUT);
+  Entity::signalRegistration(gainSOUT << errorSIN);
 }
 
 void GainHyperbolic::init(const double &valueAt0, const double &valueAtInfty,
-- 
2.43.0


From 7ccf536e7e4b4f94fd0166815baa48daa2f7b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:10 +0000
Subject: [PATCH 110/113] fix: a derivator evaluated before its input is set
 starts from its first value

---
 include/sot/core/derivator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/derivator.hh b/include/sot/core/derivator.hh
index ea72dcd..17c560e 100644
--- a/include/sot/core/derivator.hh
+++ b/include/sot/core/derivator.hh
@@ -81,8 +81,8 @@ class Derivator : public dynamicgraph::Entity {
       res += memory;
       if (timestep != 1.) res *= (1. / timestep);
     } else {
-      initialized = true;
       memory = SIN(time);
+      initialized = true;
       res = memory;
       res *= 0;
     }
@@ -100,8 +100,8 @@ VectorQuaternion &Derivator<VectorQuaternion>::computeDerivation(
     res.coeffs() += memory.coeffs();
     if (timestep != 1.) res.coeffs() *= (1. / timestep);
   } else {
-    initialized = true;
     memory = SIN(time);
+    initialized = true;
     res = memory;
     res.coeffs() *= 0;
   }
-- 
2.43.0


From 1e6730dc48e799314f9deb332d1ca57421068c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:10 +0000
Subject: [PATCH 111/113] fix: SmoothReach refuses a goal and a start of
 different sizes

---
 src/tools/smooth-reach.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools/smooth-reach.cpp b/src/tools/smooth-reach.cpp
index 73df625..483e3a7 100644
--- a/src/tools/smooth-reach.cpp
+++ b/src/tools/smooth-reach.cpp
@@ -12,6 +12,7 @@
 
 #include <sot/core/debug.hh>
 #include <sot/core/smooth-reach.hh>
+#include <stdexcept>
 
 using namespace dynamicgraph;
 using namespace dynamicgraph::sot;
@@ -88,7 +89,9 @@ dynamicgraph::Vector &SmoothReach::goalSOUT_function(dynamicgraph::Vector &res,
     start = startSIN(time);
     startTime = time;
 
-    assert(start.size() == goal.size());
+    if (start.size() != goal.size())
+      throw std::invalid_argument(
+          "SmoothReach: the goal and the start have different sizes.");
     isParam = false;
     isStarted = true;
   }
-- 
2.43.0


From 6661221a6333f5fccef1a7c0db2e05d96576d1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:01 +0000
Subject: [PATCH 112/113] fix: the attitude filter gives NaN for a tiny
 accelerometer component (squares vanish)

---
 src/filters/madgwickahrs.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/filters/madgwickahrs.cpp b/src/filters/madgwickahrs.cpp
index 8649b54..e56a836 100644
--- a/src/filters/madgwickahrs.cpp
+++ b/src/filters/madgwickahrs.cpp
@@ -160,10 +160,12 @@ void MadgwickAHRS::madgwickAHRSupdateIMU(double gx, double gy, double gz,
   qDot4 = 0.5 * (m_q0 * gz + m_q1 * gy - m_q2 * gx);
 
   // Compute feedback only if accelerometer measurement valid
-  // (avoids NaN in accelerometer normalisation)
-  if (!((ax == 0.0) && (ay == 0.0) && (az == 0.0))) {
+  // (avoids NaN in accelerometer normalisation, also when the square of a tiny
+  // measurement vanishes)
+  const double squaredNorm = ax * ax + ay * ay + az * az;
+  if (squaredNorm > 0.0) {
     // Normalise accelerometer measurement
-    recipNorm = invSqrt(ax * ax + ay * ay + az * az);
+    recipNorm = invSqrt(squaredNorm);
     ax *= recipNorm;
     ay *= recipNorm;
     az *= recipNorm;
@@ -190,9 +192,10 @@ void MadgwickAHRS::madgwickAHRSupdateIMU(double gx, double gy, double gz,
     s2 = 4.0 * q0q0 * m_q2 + o2q0 * ax + o4q2 * q3q3 - o2q3 * ay - o4q2 +
          o8q2 * q1q1 + o8q2 * q2q2 + o4q2 * az;
     s3 = 4.0 * q1q1 * m_q3 - o2q1 * ax + 4.0 * q2q2 * m_q3 - o2q2 * ay;
-    if (!((s0 == 0.0) && (s1 == 0.0) && (s2 == 0.0) && (s3 == 0.0))) {
+    const double squaredStep = s0 * s0 + s1 * s1 + s2 * s2 + s3 * s3;
+    if (squaredStep > 0.0) {
       // normalise step magnitude
-      recipNorm = invSqrt(s0 * s0 + s1 * s1 + s2 * s2 + s3 * s3);
+      recipNorm = invSqrt(squaredStep);
       s0 *= recipNorm;
       s1 *= recipNorm;
       s2 *= recipNorm;
-- 
2.43.0


From 153c1a38e0fc33be3246e980b76b3300a8f5d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:59 +0000
Subject: [PATCH 113/113] fix: the feet, the joint order and the joint names of
 the robot parameters cannot be read from python

---
 src/tools/robot-utils-py.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tools/robot-utils-py.cpp b/src/tools/robot-utils-py.cpp
index d4065b1..fd1f9ff 100644
--- a/src/tools/robot-utils-py.cpp
+++ b/src/tools/robot-utils-py.cpp
@@ -11,6 +11,7 @@
 #include <boost/property_tree/ptree.hpp>
 #include <boost/python.hpp>
 #include <boost/python/suite/indexing/map_indexing_suite.hpp>
+#include <boost/python/suite/indexing/vector_indexing_suite.hpp>
 #include <sot/core/robot-utils.hh>
 
 using namespace boost::python;
@@ -45,6 +46,18 @@ BOOST_PYTHON_MODULE(robot_utils_sot_py) {
       .def("set_force_id_right_foot", &ForceUtil::set_force_id_right_foot)
       .def("display", &ForceUtil::display);
 
+  class_<FootUtil>("FootUtil")
+      .def_readwrite("m_Right_Foot_Sole_XYZ", &FootUtil::m_Right_Foot_Sole_XYZ)
+      .def_readwrite("m_Right_Foot_Force_Sensor_XYZ",
+                     &FootUtil::m_Right_Foot_Force_Sensor_XYZ)
+      .def_readwrite("m_Left_Foot_Frame_Name",
+                     &FootUtil::m_Left_Foot_Frame_Name)
+      .def_readwrite("m_Right_Foot_Frame_Name",
+                     &FootUtil::m_Right_Foot_Frame_Name);
+
+  class_<std::vector<Index> >("IndexVector")
+      .def(vector_indexing_suite<std::vector<Index> >());
+
   class_<RobotUtil>("RobotUtil")
       .def_readwrite("m_force_util", &RobotUtil::m_force_util)
       .def_readwrite("m_foot_util", &RobotUtil::m_foot_util)
@@ -67,5 +80,5 @@ BOOST_PYTHON_MODULE(robot_utils_sot_py) {
       .def(map_indexing_suite<std::map<std::string, Index> >());
 
   class_<std::map<Index, std::string> >("Indexstring")
-      .def(map_indexing_suite<std::map<Index, std::string> >());
+      .def(map_indexing_suite<std::map<Index, std::string>, true>());
 }
-- 
2.43.0

