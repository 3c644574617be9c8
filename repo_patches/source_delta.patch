From 8714edde6eebb61f1c39badd8ab4adecc9f66aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:42 +0000
Subject: [PATCH 01/58] fix: idle channels no longer shadow events after
 simulated time 1e10

---
 most_queue/sim/utils/servers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/utils/servers.py b/most_queue/sim/utils/servers.py
index 848a8d4..b002960 100644
--- a/most_queue/sim/utils/servers.py
+++ b/most_queue/sim/utils/servers.py
@@ -20,7 +20,7 @@ class Server:
         types -  тип распределения
         """
         self.dist = create_distribution(params, types, generator)
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = 1e16
         self.is_free = True
         self.tsk_on_service = None
         Server.id += 1
@@ -55,7 +55,7 @@ class Server:
         """
         End service
         """
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = 1e16
         self.is_free = True
         ts = self.tsk_on_service
         self.tsk_on_service = None
-- 
2.43.0


From a8686512bb808395aa1a2b2ecf55657b96b46711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:42 +0000
Subject: [PATCH 02/58] fix: busy period of the simulator starts when the last
 free channel is taken

---
 most_queue/sim/qs_sim.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/qs_sim.py b/most_queue/sim/qs_sim.py
index 12e3f1c..3e55fc4 100755
--- a/most_queue/sim/qs_sim.py
+++ b/most_queue/sim/qs_sim.py
@@ -332,9 +332,6 @@ class QueueingSystemSimulator:
         """
         que_ts = self.queue.pop()
 
-        if self.free_channels == 1:
-            self.start_ppnz = self.ttek
-
         self.taked += 1
         que_ts.wait_time += self.ttek - que_ts.start_waiting_time
         self.refresh_w_stat(que_ts.wait_time)
@@ -357,6 +354,9 @@ class QueueingSystemSimulator:
         # Send n jobs from the queue to the channels
         for i in range(self.n):
             if self.queue.size() != 0:
+                if self.free_channels == 1:
+                    # the last free channel is taken: busy period starts
+                    self.start_ppnz = self.ttek
                 self.send_head_of_queue_to_channel(i)
 
     def on_end_cold(self):
@@ -380,6 +380,9 @@ class QueueingSystemSimulator:
             # Send n jobs from the queue to the channels
             for i in range(self.n):
                 if self.queue.size() != 0:
+                    if self.free_channels == 1:
+                        # the last free channel is taken: busy period starts
+                        self.start_ppnz = self.ttek
                     self.send_head_of_queue_to_channel(i)
 
     def on_end_cold_delay(self):
-- 
2.43.0


From fb492ad0eeb00b33039bdfa44865cf613f23c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 03/58] fix: get_moments_minus uses the moments of the
 difference, so that it inverts get_moments

---
 most_queue/general_utils/conv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/general_utils/conv.py b/most_queue/general_utils/conv.py
index 076ba21..421f201 100644
--- a/most_queue/general_utils/conv.py
+++ b/most_queue/general_utils/conv.py
@@ -19,6 +19,6 @@ def get_moments_minus(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
     res[0] = a[0] - b[0]
-    res[1] = a[1] - b[1] - 2 * a[0] * b[0]
-    res[2] = a[2] - b[2] - 3 * a[1] * b[0] - 3 * a[0] * b[1]
+    res[1] = a[1] - b[1] - 2 * res[0] * b[0]
+    res[2] = a[2] - b[2] - 3 * res[1] * b[0] - 3 * res[0] * b[1]
     return res
-- 
2.43.0


From 03faed633ce0413b9e4176f59a06edd316905ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 04/58] fix: moments of sums and differences for fewer than
 three moments

---
 most_queue/general_utils/conv.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/most_queue/general_utils/conv.py b/most_queue/general_utils/conv.py
index 421f201..0d32ed9 100644
--- a/most_queue/general_utils/conv.py
+++ b/most_queue/general_utils/conv.py
@@ -2,8 +2,10 @@ def get_moments(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
     res[0] = a[0] + b[0]
-    res[1] = a[1] + b[1] + 2 * a[0] * b[0]
-    res[2] = a[2] + b[2] + 3 * a[1] * b[0] + 3 * a[0] * b[1]
+    if num > 1:
+        res[1] = a[1] + b[1] + 2 * a[0] * b[0]
+    if num > 2:
+        res[2] = a[2] + b[2] + 3 * a[1] * b[0] + 3 * a[0] * b[1]
     return res
 
 
@@ -19,6 +21,8 @@ def get_moments_minus(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
     res[0] = a[0] - b[0]
-    res[1] = a[1] - b[1] - 2 * res[0] * b[0]
-    res[2] = a[2] - b[2] - 3 * res[1] * b[0] - 3 * res[0] * b[1]
+    if num > 1:
+        res[1] = a[1] - b[1] - 2 * res[0] * b[0]
+    if num > 2:
+        res[2] = a[2] - b[2] - 3 * res[1] * b[0] - 3 * res[0] * b[1]
     return res
-- 
2.43.0


From ce5c6d07e4b87b48bb9a622a406fa888e26198be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:57 +0000
Subject: [PATCH 05/58] fix: the exponential fit keeps the mean of the given
 moments

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 47a0ce4..b123e42 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -738,7 +738,7 @@ class Exp_dist:
 
     @staticmethod
     def get_params(moments):
-        return Erlang_dist.get_params(moments)[1]
+        return 1.0 / moments[0]
 
 
 class Gamma:
-- 
2.43.0


From 20e08a887a4801bdf4dd5b8172f13b9dcd2b4f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:57 +0000
Subject: [PATCH 06/58] fix: the Erlang fit never returns order 0

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index b123e42..3260cd8 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -698,7 +698,7 @@ class Erlang_dist:
         Метод вычисляет параметры распределения Эрланга по двум начальным моментам
         Возвращает кортеж (r, mu) - параметры распределения Эрланга
         """
-        r = int(math.floor(f[0] * f[0] / (f[1] - f[0] * f[0]) + 0.5))
+        r = max(1, int(math.floor(f[0] * f[0] / (f[1] - f[0] * f[0]) + 0.5)))
         mu = r / f[0]
         return r, mu
 
-- 
2.43.0


From 679b2b88e47a101d108fb0580dd0b1eb95d723c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:57 +0000
Subject: [PATCH 07/58] fix: H2 fit of small moments (relative tolerance) and
 with the probability its rates belong to

---
 most_queue/rand_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 3260cd8..3c83e47 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -248,7 +248,7 @@ class H2_dist:
             tec = 0
             t1 = 0
             t2 = 0
-            while abs(tn - moments[2]) > 1e-8 and tec < max_iteration:
+            while abs(tn - moments[2]) > 1e-8 * moments[2] and tec < max_iteration:
                 tec += 1
                 q_new = (q_max + q_min) / 2.0
                 t1 = (1.0 + math.sqrt((1.0 - q_new) * (v * v - 1.0) / (2 * q_new))) * moments[0]
@@ -260,7 +260,7 @@ class H2_dist:
                     q_min = q_new
                 else:
                     q_max = q_new
-            res[0] = q_max
+            res[0] = q_new
             res[1] = 1.0 / t1
             res[2] = 1.0 / t2
             return res
-- 
2.43.0


From 9d833c9bbc659d77e5f8257efda49aee9fe0819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:57 +0000
Subject: [PATCH 08/58] fix: Exp_dist draws from the generator it is given

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 3c83e47..d4d0d4c 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -720,7 +720,7 @@ class Exp_dist:
     """
 
     def __init__(self, mu, generator=None):
-        self.erl = Erlang_dist([1, mu])
+        self.erl = Erlang_dist([1, mu], generator)
         self.params = mu
         self.type = 'M'
         self.generator = generator
-- 
2.43.0


From d7bf51f9c9e114b934c9972187ab37faee9f4c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:57 +0000
Subject: [PATCH 09/58] fix: Pareto distribution function, tail and density
 below the scale parameter

---
 most_queue/rand_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index d4d0d4c..4791c59 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -546,7 +546,7 @@ class Pareto_dist:
         """
         Возвращает значение функции плотности распределения вероятностей СВ
         """
-        if t < 0:
+        if t < k:
             return 0
         return a * math.pow(k, a) / math.pow(t, a + 1)
 
@@ -564,10 +564,10 @@ class Pareto_dist:
         Возвращает значение ДФР
         params = [a, K]
         """
-        if t < 0:
-            return 0
         a = params[0]
         k = params[1]
+        if t < k:
+            return 1
         return math.pow(k / t, a)
 
     @staticmethod
-- 
2.43.0


From f2ecab1d08d074939d33c2d1e7cab15955f333f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:33 +0000
Subject: [PATCH 10/58] fix: the Gamma density is 0 for negative arguments

---
 most_queue/rand_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 4791c59..9a16a09 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -849,7 +849,7 @@ class Gamma:
         """
         fract = sp.gamma(alpha)
         if math.fabs(fract) > 1e-12:
-            if math.fabs(mu * t) > 1e-12:
+            if mu * t > 1e-12:
                 main = mu * math.pow(mu * t, alpha - 1) * math.exp(-mu * t) / fract
             else:
                 main = 0
@@ -868,7 +868,7 @@ class Gamma:
         """
         fract = sp.gamma(alpha)
         if math.fabs(fract) > 1e-12:
-            if math.fabs(mu * t) > 1e-12:
+            if mu * t > 1e-12:
                 main = mu * math.pow(mu * t, alpha - 1) * math.exp(-mu * t) / fract
             else:
                 main = 0
-- 
2.43.0


From 9b3124de1a5250af24d93e604b26719b9f7706c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 11/58] fix: arrivals during a uniform service time for rates
 other than 1

---
 most_queue/theory/utils/q_poisson_arrival_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/utils/q_poisson_arrival_calc.py b/most_queue/theory/utils/q_poisson_arrival_calc.py
index 0cace10..5cdde05 100755
--- a/most_queue/theory/utils/q_poisson_arrival_calc.py
+++ b/most_queue/theory/utils/q_poisson_arrival_calc.py
@@ -30,10 +30,10 @@ def get_q_uniform(l, mean, half_interval, num=100):
     for j in range(num):
         summ1 = 0
         for i in range(j + 1):
-            summ1 += l * pow(mean - half_interval, i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
+            summ1 += pow(l * (mean - half_interval), i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
         summ2 = 0
         for i in range(j + 1):
-            summ2 += l * pow(mean + half_interval, i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
+            summ2 += pow(l * (mean + half_interval), i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
         q[j] = (1.0 / (2 * l * half_interval)) * (summ1 - summ2)
 
     return q
-- 
2.43.0


From 81739d6cd061594bf6aebbda6145f49c6518ca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 12/58] fix: M/M/n/r probabilities when the load is exactly 1

---
 most_queue/theory/mmnr_calc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/mmnr_calc.py b/most_queue/theory/mmnr_calc.py
index db2aeb4..703fdfa 100755
--- a/most_queue/theory/mmnr_calc.py
+++ b/most_queue/theory/mmnr_calc.py
@@ -61,11 +61,10 @@ class MMnr_calc:
         for i in range(n):
             summ1 += pow(ro, i) / math.factorial(i)
 
-        chisl = 1 - pow(ro / n, r + 1)
         coef = pow(ro, n) / math.factorial(n)
-        znam = 1 - (ro / n)
+        geom = sum(pow(ro / n, i) for i in range(r + 1))
 
-        p[0] = 1.0 / (summ1 + coef * chisl / znam)
+        p[0] = 1.0 / (summ1 + coef * geom)
 
         for i in range(n):
             p[i] = pow(ro, i) * p[0] / math.factorial(i)
-- 
2.43.0


From 85ccfe90a8ead15b65724ce8edba390a73d3ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 13/58] fix: mean batch size of the batch M/M/1 model

---
 most_queue/theory/batch_mm1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/batch_mm1.py b/most_queue/theory/batch_mm1.py
index 816054b..02be8de 100755
--- a/most_queue/theory/batch_mm1.py
+++ b/most_queue/theory/batch_mm1.py
@@ -30,7 +30,7 @@ class BatchMM1:
         """
         Mean batch size
         """
-        return sum(self.ls) / len(self.ls)
+        return sum((i + 1) * prob for i, prob in enumerate(self.ls))
 
     def calc_l_moments(self):
         """
-- 
2.43.0


From 3b2aaa85c98629d56c97de01abe226ac6b350619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 14/58] fix: impatience model keeps summing until the terms
 decrease

---
 most_queue/theory/impatience_calc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/most_queue/theory/impatience_calc.py b/most_queue/theory/impatience_calc.py
index 545b8dc..2cde888 100755
--- a/most_queue/theory/impatience_calc.py
+++ b/most_queue/theory/impatience_calc.py
@@ -10,11 +10,10 @@ def get_p0(l, mu, gamma, tol=1e-12):
     Вероятность нулевого состояния системы
     """
     summ = 0
-    elem_old = l
     elem_new = 0
 
     i = 1
-    while math.fabs(elem_new - elem_old) > tol:
+    while i == 1 or elem_new > tol or l >= mu + (i - 1) * gamma:
         chisl = math.pow(l, i)
         znam = mu
         j = 1
@@ -22,7 +21,6 @@ def get_p0(l, mu, gamma, tol=1e-12):
             znam *= (mu + j * gamma)
             j += 1
 
-        elem_old = elem_new
         elem_new = chisl / znam
         summ += elem_new
 
@@ -49,7 +47,7 @@ def get_p(l, mu, gamma, tol=1e-12, max_num=100000):
 
         pi = p0 * chisl / znam
         ps.append(pi)
-        if pi < tol:
+        if pi < tol and l < mu + i * gamma:
             break
 
     return ps
-- 
2.43.0


From c2b8b1403f4f15846857cd22847af080d38fc1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 15/58] fix: H2 fit keeps two moments when the third is too
 small, and the exponential law

---
 most_queue/rand_distribution.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 9a16a09..a69baad 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -223,8 +223,9 @@ class H2_dist:
         v = moments[1] - moments[0] * moments[0]
         v = math.sqrt(v) / moments[0]
         res = [0.0] * 3
-        if v < 1.0:
+        if v < 1.0 - 1e-9:
             return res
+        v = max(v, 1.0)
 
         q_max = 2.0 / (1.0 + v * v)
         t_min = 1.5 * ((1 + v * v) ** 2) * math.pow(moments[0], 3)
@@ -234,14 +235,10 @@ class H2_dist:
         if t_min > moments[2]:
             # one phase distibution
             q_new = q_max
-            mu1 = (1.0 - math.sqrt(q_new * (v * v - 1.0) / (2 * (1.0 - q_new)))) * moments[0]
-            if math.isclose(mu1, 0):
-                mu1 = 1e10
-            else:
-                mu1 = 1.0 / mu1
+            t1 = (1.0 + math.sqrt((1.0 - q_new) * (v * v - 1.0) / (2 * q_new))) * moments[0]
             res[0] = q_max
-            res[1] = mu1
-            res[2] = 1e6
+            res[1] = 1.0 / t1
+            res[2] = 1e10 / moments[0]
             return res
         else:
             max_iteration = 10000
-- 
2.43.0


From 2aafe2d00e275a6aeb9e77c41254194089ff7f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 16/58] fix: theoretical moments of a Cox distribution with
 complex (fitted) parameters

---
 most_queue/rand_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index a69baad..bdd832e 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -424,9 +424,9 @@ class Cox_dist:
         y2 = 1.0 - y1
         f = [0.0] * 3
         f[0] = y2 / m1 + y1 * (1.0 / m1 + 1.0 / m2)
-        f[1] = 2.0 * (y2 / math.pow(m1, 2) + y1 * (1.0 / math.pow(m1, 2) + 1.0 / (m1 * m2) + 1.0 / math.pow(m2, 2)))
-        f[2] = 6.0 * (y2 / (math.pow(m1, 3)) + y1 * (1.0 / math.pow(m1, 3) + 1.0 / (math.pow(m1, 2) * m2) +
-                                                     1.0 / (math.pow(m2, 2) * m1) + 1.0 / math.pow(m2, 3)))
+        f[1] = 2.0 * (y2 / pow(m1, 2) + y1 * (1.0 / pow(m1, 2) + 1.0 / (m1 * m2) + 1.0 / pow(m2, 2)))
+        f[2] = 6.0 * (y2 / (pow(m1, 3)) + y1 * (1.0 / pow(m1, 3) + 1.0 / (pow(m1, 2) * m2) +
+                                                     1.0 / (pow(m2, 2) * m1) + 1.0 / pow(m2, 3)))
 
         return f
 
-- 
2.43.0


From 13fbf0adc7bfa3eef8155ea011ed65f16372a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 17/58] fix: fourth cumulant from the cumulants of the number
 of events

---
 most_queue/theory/utils/flow_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/utils/flow_sum.py b/most_queue/theory/utils/flow_sum.py
index d1c9d3a..534e46d 100755
--- a/most_queue/theory/utils/flow_sum.py
+++ b/most_queue/theory/utils/flow_sum.py
@@ -112,7 +112,7 @@ class SummatorNumeric:
         if len(v) > 2:
             k.append((3 * pow(v[1], 2) - v[0] * v[2]) / pow(v[0], 5))
         if len(v) > 3:
-            k4 = v[3] / pow(v[0], 2) + 5 * v[1] * \
+            k4 = v[3] * pow(v[0], 2) + 5 * v[1] * \
                 (3 * pow(v[1], 2) - 2 * v[0] * v[2])
             k4 = k4 / pow(v[0], 7)
             k.append(k4)
-- 
2.43.0


From d858819a08502a58c922fa502a3f5cf692e7157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 18/58] fix: load factor with normal intervals or services and
 with Pareto laws of parameter 1

---
 most_queue/sim/utils/distribution_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/sim/utils/distribution_utils.py b/most_queue/sim/utils/distribution_utils.py
index 0f86658..063ba75 100644
--- a/most_queue/sim/utils/distribution_utils.py
+++ b/most_queue/sim/utils/distribution_utils.py
@@ -91,7 +91,7 @@ def calc_qs_load(source_types: str, source_params,
         l = source_params
     elif source_types == "D":
         l = 1.00 / source_params
-    elif source_types == "Uniform":
+    elif source_types in ("Uniform", "Norm"):
         l = 1.00 / source_params[0]
     elif source_types == "H":
         y1 = source_params[0]
@@ -121,7 +121,7 @@ def calc_qs_load(source_types: str, source_params,
         f1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
         l = 1.0 / f1
     elif source_types == "Pa":
-        if source_params[0] < 1:
+        if source_params[0] <= 1:
             return None
         else:
             a = source_params[0]
@@ -135,7 +135,7 @@ def calc_qs_load(source_types: str, source_params,
         b1 = 1.0 / mu
     elif server_types == "D":
         b1 = server_params
-    elif server_types == "Uniform":
+    elif server_types in ("Uniform", "Norm"):
         b1 = server_params[0]
 
     elif server_types == "H":
@@ -164,7 +164,7 @@ def calc_qs_load(source_types: str, source_params,
 
         b1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
     elif server_types == "Pa":
-        if server_params[0] < 1:
+        if server_params[0] <= 1:
             return math.inf
         else:
             a = server_params[0]
-- 
2.43.0


From b6ca43cafc831b0bcaa66e8031e969fa5f4ac29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 19/58] fix: Student quantiles for sample sizes 20 to 65 and 80

---
 most_queue/theory/utils/student_stat.py | 30 ++++++++++++-------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/most_queue/theory/utils/student_stat.py b/most_queue/theory/utils/student_stat.py
index d9ec551..b0b77db 100755
--- a/most_queue/theory/utils/student_stat.py
+++ b/most_queue/theory/utils/student_stat.py
@@ -22,7 +22,7 @@ def get_ty(gamma, n):
                  2.26, 2.23, 2.20, 2.18, 2.16,
                  2.15, 2.13, 2.12, 2.11, 2.10,
                  2.093, 2.064, 2.045, 2.032, 2.023,
-                 2.016, 2.009, 2.001, 1.996, 1.001,
+                 2.016, 2.009, 2.001, 1.996, 1.991,
                  1.987, 1.984, 1.980, 1.960]
     gamma_099 = [4.60, 4.03, 3.71, 3.50, 3.36,
                  3.25, 3.17, 3.11, 3.06, 3.01,
@@ -46,6 +46,14 @@ def get_ty(gamma, n):
             return gamma_0999[n - 5]
 
     elif n >= 20 and n < 23:
+        if gamma == 0.95:
+            return gamma_095[15]
+        if gamma == 0.99:
+            return gamma_099[15]
+        if gamma == 0.999:
+            return gamma_0999[15]
+
+    elif n >= 23 and n < 28:
         if gamma == 0.95:
             return gamma_095[16]
         if gamma == 0.99:
@@ -53,7 +61,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[16]
 
-    elif n >= 23 and n < 28:
+    elif n >= 28 and n < 33:
         if gamma == 0.95:
             return gamma_095[17]
         if gamma == 0.99:
@@ -61,7 +69,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[17]
 
-    elif n >= 28 and n < 33:
+    elif n >= 33 and n < 38:
         if gamma == 0.95:
             return gamma_095[18]
         if gamma == 0.99:
@@ -69,7 +77,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[18]
 
-    elif n >= 33 and n < 38:
+    elif n >= 38 and n < 43:
         if gamma == 0.95:
             return gamma_095[19]
         if gamma == 0.99:
@@ -77,7 +85,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[19]
 
-    elif n >= 38 and n < 43:
+    elif n >= 43 and n < 48:
         if gamma == 0.95:
             return gamma_095[20]
         if gamma == 0.99:
@@ -85,7 +93,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[20]
 
-    elif n >= 43 and n < 48:
+    elif n >= 48 and n < 56:
         if gamma == 0.95:
             return gamma_095[21]
         if gamma == 0.99:
@@ -93,7 +101,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[21]
 
-    elif n >= 48 and n < 56:
+    elif n >= 56 and n < 66:
         if gamma == 0.95:
             return gamma_095[22]
         if gamma == 0.99:
@@ -101,14 +109,6 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[22]
 
-    elif n >= 56 and n < 66:
-        if gamma == 0.95:
-            return gamma_095[23]
-        if gamma == 0.99:
-            return gamma_099[23]
-        if gamma == 0.999:
-            return gamma_0999[23]
-
     elif n >= 66 and n < 76:
         if gamma == 0.95:
             return gamma_095[23]
-- 
2.43.0


From 3166f2fe0f0a904981d7ccb9a6af489e62e6e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 20/58] fix: load of the priority simulator is the sum of the
 loads of its classes

---
 most_queue/sim/priority_queue_sim.py | 107 +++------------------------
 1 file changed, 10 insertions(+), 97 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 3ded2e1..0d059ef 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -6,7 +6,7 @@ import numpy as np
 from colorama import Fore, Style, init
 from tqdm import tqdm
 
-from most_queue.sim.utils.distribution_utils import create_distribution
+from most_queue.sim.utils.distribution_utils import calc_qs_load, create_distribution
 
 init()
 
@@ -179,102 +179,15 @@ class PriorityQueueSimulator:
         """
         Вычисляет коэффициент загрузки СМО
         """
-        l_sum = 0
-        b1_sr = 0
-
-        for i in range(self.k):
-
-            if self.sources_params[i]['type'] == "M":
-                l_sum += self.sources_params[i]['params']
-            elif self.sources_params[i]['type'] == "H":
-                y1 = self.sources_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.sources_params[i]['type'][1]
-                mu2 = self.sources_params[i]['type'][2]
-
-                f1 = y1 / mu1 + y2 / mu2
-                l_sum += 1.0 / f1
-
-            elif self.sources_params[i]['type'] == "E":
-                r = self.sources_params[i]['params'][0]
-                mu = self.sources_params[i]['params'][1]
-                l_sum += mu / r
-
-            elif self.sources_params[i]['type'] == "Gamma":
-                mu = self.sources_params[i]['params'][0]
-                alpha = self.sources_params[i]['params'][1]
-                l_sum += mu / alpha
-
-            elif self.sources_params[i]['type'] == "C":
-                y1 = self.sources_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.sources_params[i]['params'][1]
-                mu2 = self.sources_params[i]['params'][2]
-
-                f1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
-                l_sum += 1.0 / f1
-            elif self.sources_params[i]['type'] == "Pa":
-                if self.sources_params[i]['params'][0] < 1:
-                    return None
-                else:
-                    a = self.sources_params[i]['params'][0]
-                    k = self.sources_params[i]['params'][1]
-                    f1 = a * k / (a - 1)
-                    l_sum += 1.0 / f1
-            elif self.sources_params[i]['type'] == "Uniform":
-                f1 = self.sources_params[i]['type'][0]
-                l_sum += 1.0 / f1
-
-            elif self.sources_params[i]['type'] == "D":
-                f1 = self.sources_params[i]['type']
-                l_sum += 1.0 / f1
-
-            if self.servers_params[i]['type'] == "M":
-                mu = self.servers_params[i]['params']
-                b1_sr += 1.0 / mu
-
-            elif self.servers_params[i]['type'] == "H":
-                y1 = self.servers_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.servers_params[i]['params'][1]
-                mu2 = self.servers_params[i]['params'][2]
-
-                b1_sr += y1 / mu1 + y2 / mu2
-
-            elif self.servers_params[i]['type'] == "Gamma":
-                mu = self.servers_params[i]['params'][0]
-                alpha = self.servers_params[i]['params'][1]
-                b1_sr += alpha / mu
-
-            elif self.servers_params[i]['type'] == "E":
-                r = self.servers_params[i]['params'][0]
-                mu = self.servers_params[i]['params'][1]
-                b1_sr += r / mu
-
-            elif self.servers_params[i]['type'] == "Uniform":
-                f1 = self.servers_params[i]['params'][0]
-                b1_sr += 1.0 / f1
-
-            elif self.servers_params[i]['type'] == "D":
-                f1 = self.servers_params[i]['type']
-                b1_sr += 1.0 / f1
-
-            elif self.servers_params[i]['type'] == "C":
-                y1 = self.servers_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.servers_params[i]['params'][1]
-                mu2 = self.servers_params[i]['params'][2]
-
-                b1_sr += y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
-            elif self.servers_params[i]['type'] == "Pa":
-                if self.servers_params[i]['params'][0] < 1:
-                    return math.inf
-                else:
-                    a = self.servers_params[i]['params'][0]
-                    k = self.servers_params[i]['params'][1]
-                    b1_sr += a * k / (a - 1)
-
-        return l_sum * b1_sr / (self.n * self.k)
+        load = 0
+        for source, server in zip(self.sources_params, self.servers_params):
+            class_load = calc_qs_load(source['type'], source['params'],
+                                      server['type'], server['params'], self.n)
+            if class_load is None:
+                return None
+            load += class_load
+
+        return load
 
     def arrival(self, k, moment=None, ts=None):
         """
-- 
2.43.0


From 23e55304321fa4e48c1e7f2d319c274dd53fe445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 21/58] fix: batch simulator credits the elapsed time once, to
 the state present before the batch

---
 most_queue/sim/batch_sim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index ff7ceb4..0a5513f 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -47,6 +47,8 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                 batch_size = i + 1
                 break
 
+        self.p[self.in_sys] += self.arrival_time - self.t_old
+
         self.ttek = self.arrival_time
         self.t_old = self.ttek
 
@@ -54,8 +56,6 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
 
         for tsk in range(batch_size):
             self.arrived += 1
-            self.p[self.in_sys] += self.arrival_time - self.t_old
-
             self.in_sys += 1
 
             if self.free_channels == 0:
-- 
2.43.0


From dee7163adc1ad56c99880ad1a4d3a326ecc61bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 22/58] fix: batch simulator with a buffer raised TypeError
 once the channels were busy

---
 most_queue/sim/batch_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index 0a5513f..779b9ca 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -64,7 +64,7 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
-                    if len(self.queue) < self.buffer:
+                    if self.queue.size() < self.buffer:
                         new_tsk = Task(self.ttek)
                         new_tsk.start_waiting_time = self.ttek
                         self.queue.append(new_tsk)
-- 
2.43.0


From 5ce02bdb8274a22b84e416d1f91e029cecadecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 23/58] fix: jobs of a batch served at once count in the
 waiting statistics of the batch simulator

---
 most_queue/sim/batch_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index 779b9ca..2e4775e 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -82,6 +82,7 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                 for s in self.servers:
                     if s.is_free:
                         self.taked += 1
+                        self.refresh_w_stat(0)
                         s.start_service(Task(self.ttek),
                                         self.ttek, is_warm_start)
                         self.free_channels -= 1
-- 
2.43.0


From bfba7c97388f5a61a609e1d67731aefdf48f796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 24/58] fix: time before a departure at the deadline was
 credited to the state after it

---
 most_queue/sim/impatient_queue_sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index a92bc61..76bd138 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -91,7 +91,9 @@ class ImpatientQueueSim(QueueingSystemSimulator):
                     break
 
     def drop_task(self, num_of_task_in_queue, moment_to_leave_earlier):
+        self.p[self.in_sys] += moment_to_leave_earlier - self.t_old
         self.ttek = moment_to_leave_earlier
+        self.t_old = self.ttek
         new_queue = []
         for i, tsk in enumerate(self.queue.queue):
             if i != num_of_task_in_queue:
-- 
2.43.0


From 309f27010e0dd4f1563c6acd7d5bbf78352c6c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 25/58] fix: waiting statistics of the impatience simulator
 average over all jobs

---
 most_queue/sim/impatient_queue_sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index 76bd138..f935a81 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -80,6 +80,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
             for s in self.servers:
                 if s.is_free:
                     self.taked += 1
+                    self.refresh_w_stat(0)
                     s.start_service(ImpatientTask(
                         self.ttek, moment_to_leave), self.ttek, is_warm_start)
                     self.free_channels -= 1
@@ -107,6 +108,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
         self.served += 1
         self.refresh_v_stat(self.ttek - end_ts.arr_time)
         end_ts.wait_time = self.ttek - end_ts.arr_time
+        self.taked += 1
         self.refresh_w_stat(end_ts.wait_time)
 
     def run_one_step(self):
-- 
2.43.0


From 1703bff645edfd694d25304a9dd2f738cf2449ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 26/58] fix: impatience simulator with a clock beyond 1e10
 served or dropped jobs that do not exist

---
 most_queue/sim/impatient_queue_sim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index f935a81..8cdc090 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -114,7 +114,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = 1e16
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
@@ -122,7 +122,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
                 num_of_server_earlier = c
 
         num_of_task_earlier = -1
-        moment_to_leave_earlier = 1e10
+        moment_to_leave_earlier = 1e16
         for i, tsk in enumerate(self.queue.queue):
             if tsk.moment_to_leave < moment_to_leave_earlier:
                 moment_to_leave_earlier = tsk.moment_to_leave
-- 
2.43.0


From b6dd114bc094a368f198bd2cf91f08e10199deaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 27/58] fix: finite-source simulator asks the queue for its
 size (queue objects have no len())

---
 most_queue/sim/queue_finite_source_sim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 5fa2e16..f56f8fe 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -77,7 +77,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
                 new_tsk.start_waiting_time = self.ttek
                 self.queue.append(new_tsk)
             else:
-                if len(self.queue) < self.buffer:
+                if self.queue.size() < self.buffer:
                     new_tsk = Task(self.ttek)
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
@@ -89,7 +89,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
             # check if its a warm phase:
             is_warm_start = False
-            if len(self.queue) == 0 and self.free_channels == self.n and self.warm_phase.is_set:
+            if self.queue.size() == 0 and self.free_channels == self.n and self.warm_phase.is_set:
                 is_warm_start = True
 
             for s in self.servers:
@@ -131,13 +131,13 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.refresh_w_stat(end_ts.wait_time)
         self.in_sys -= 1
 
-        if len(self.queue) == 0 and self.free_channels == 1:
+        if self.queue.size() == 0 and self.free_channels == 1:
             if self.in_sys == self.n - 1:
                 # Конец ПНЗ
                 self.ppnz_moments += 1
                 self.refresh_ppnz_stat(self.ttek - self.start_ppnz)
 
-        if len(self.queue) != 0:
+        if self.queue.size() != 0:
 
             que_ts = self.queue.pop()
 
-- 
2.43.0


From cc205346aa151e4a0b9d5cef7ae6d8efc4e49ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 28/58] fix: finite-source simulator: the source of a refused
 job starts a new interval

---
 most_queue/sim/queue_finite_source_sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index f56f8fe..24430dc 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -84,6 +84,9 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
                 else:
                     self.dropped += 1
                     self.in_sys -= 1
+                    # заявка потеряна, ее источник снова готов посылать заявки
+                    self.sources_left += 1
+                    self.arrival_times[self.arrived_num] = self.ttek + self.source.generate()
 
         else:  # there are free channels:
 
-- 
2.43.0


From 56770d42e7ec4159f0f2e82c74e174bb99c877b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 29/58] fix: finite-source simulator: waiting moments are means
 over the started jobs

---
 most_queue/sim/queue_finite_source_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 24430dc..2139226 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -98,6 +98,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
             for s in self.servers:
                 if s.is_free:
                     self.taked += 1
+                    self.refresh_w_stat(0)
                     s.start_service(Task(self.ttek), self.ttek, is_warm_start)
                     self.free_channels -= 1
 
@@ -131,7 +132,6 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.total += 1
         self.free_channels += 1
         self.refresh_v_stat(self.ttek - end_ts.arr_time)
-        self.refresh_w_stat(end_ts.wait_time)
         self.in_sys -= 1
 
         if self.queue.size() == 0 and self.free_channels == 1:
@@ -149,6 +149,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
             self.taked += 1
             que_ts.wait_time += self.ttek - que_ts.start_waiting_time
+            self.refresh_w_stat(que_ts.wait_time)
             self.servers[c].start_service(que_ts, self.ttek)
             self.free_channels -= 1
 
-- 
2.43.0


From 4a08131635f7adacd8ff3cbb6488bdf62eb899bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 30/58] fix: finite-source simulator works beyond model time
 1e10 (same horizon as the base simulator)

---
 most_queue/sim/queue_finite_source_sim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 2139226..8c1756e 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -69,7 +69,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.in_sys += 1
         self.ttek = self.arrival_times[self.arrived_num]
         self.t_old = self.ttek
-        self.arrival_times[self.arrived_num] = 1e10
+        self.arrival_times[self.arrived_num] = 1e16
 
         if self.free_channels == 0:
             if self.buffer == None:  # не задана длина очереди, т.е бесконечная очередь
@@ -123,7 +123,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.ttek = time_to_end
 
         for i, a in enumerate(self.arrival_times):
-            if a > 9.9e9:
+            if a >= 1e16:
                 self.arrival_times[i] = self.ttek + self.source.generate()
                 break
 
@@ -174,8 +174,8 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
-        arr_earl = 1e10
+        serv_earl = 1e16
+        arr_earl = 1e16
         self.arrived_num = -1
 
         if self.sources_left != 0:
-- 
2.43.0


From ebdeb2c39e60c7d5f79b9b93ccd4f5ba882a1a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 31/58] fix: purging in the fork-join simulator crashed on idle
 channels and left cancelled subtasks in service

---
 most_queue/sim/fj_sim.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index c6b372f..2324263 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -117,21 +117,26 @@ class ForkJoinSim(QueueingSystemSimulator):
                     # найти все остальные подзадачи в СМО и выкинуть
                     task_id = end_ts.task_id
                     for i in range(self.n):
-                        if self.servers[i].tsk_on_service.task_id == task_id:
-                            self.servers[c].end_service()
+                        if not self.servers[i].is_free and self.servers[i].tsk_on_service.task_id == task_id:
+                            self.servers[i].end_service()
+                            self.free_channels += 1
+                            self.sub_task_in_sys -= 1
                     for i in range(self.n):
                         for j in range(len(self.queues[i])):
                             if self.queues[i][j].task_id == task_id:
                                 self.queues[i].pop(j)
+                                self.sub_task_in_sys -= 1
+                                break
 
                 self.served += 1
                 self.refresh_v_stat(self.ttek - end_ts.arr_time)
                 self.in_sys -= 1
 
-            if len(self.queues[c]) != 0:
-                que_ts = self.queues[c].pop(0)
-                self.servers[c].start_service(que_ts, self.ttek)
-                self.free_channels -= 1
+            for i in range(self.n):
+                if self.servers[i].is_free and len(self.queues[i]) != 0:
+                    que_ts = self.queues[i].pop(0)
+                    self.servers[i].start_service(que_ts, self.ttek)
+                    self.free_channels -= 1
 
         else:
             if self.served_subtask_in_task[end_ts.task_id] == self.n:
-- 
2.43.0


From 52dd249ccacc0b377998dda45533aaf95bc5d2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 32/58] fix: fork-join simulator works beyond model time 1e10
 (same horizon as its channels)

---
 most_queue/sim/fj_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index 2324263..11da76c 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -154,7 +154,7 @@ class ForkJoinSim(QueueingSystemSimulator):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = 1e16
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
-- 
2.43.0


From def82bfd9f0606c679a2da503221f6cd104fdfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 33/58] fix: the buffer of the fork-join simulator with delays
 was taken for the purging flag

---
 most_queue/sim/fj_delta_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 14c114c..08a6d67 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -18,7 +18,7 @@ class ForkJoinSimDelta(ForkJoinSim):
         buffer - максимальная длина очереди
         """
         ForkJoinSim.__init__(self, num_of_channels,
-                             num_of_parts, is_SJ, buffer)
+                             num_of_parts, is_SJ, buffer=buffer)
         self.delta = delta
         self.subtask_arr_queue = []
         self.serv_task_id = -1
-- 
2.43.0


From 36f501807653ac6f686869456310a54abbb91787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 34/58] fix: fork-join with delays raised TypeError when a
 later subtask found a free channel

---
 most_queue/sim/fj_delta_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 08a6d67..67d8e71 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -106,7 +106,7 @@ class ForkJoinSimDelta(ForkJoinSim):
                 else:  # there are free channels:
                     for s in self.servers:
                         if s.is_free:
-                            s.start_service(subtsk)
+                            s.start_service(subtsk, self.ttek)
                             self.free_channels -= 1
                             break
 
-- 
2.43.0


From 05a0267a3e9686b6f9fa6842979601b64c200cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 35/58] fix: fork-join with delays never removed served
 subtasks from the number in the system

---
 most_queue/sim/fj_delta_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 67d8e71..ccc6564 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -135,6 +135,7 @@ class ForkJoinSimDelta(ForkJoinSim):
         self.served_subtask_in_task[end_ts.task_id] += 1
         self.total += 1
         self.free_channels += 1
+        self.sub_task_in_sys -= 1
 
         if not self.is_SJ:
 
-- 
2.43.0


From 0f0b6dd7aabe0f2da6d36c4ff7e0235529a5c77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 36/58] fix: split-join with delays started the next job
 between two subtasks of the previous one and held back subtasks of the job in
 service

---
 most_queue/sim/fj_delta_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index ccc6564..4609c26 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -67,7 +67,7 @@ class ForkJoinSimDelta(ForkJoinSim):
 
             else:  # Split-Join discipline
 
-                if self.free_channels < self.k:
+                if self.in_sys > 1:  # предыдущая заявка обслужена не полностью
                     self.queue.append(t.subtasks[0])
                 else:
                     self.servers[0].start_service(t.subtasks[0], self.ttek)
@@ -172,6 +172,7 @@ class ForkJoinSimDelta(ForkJoinSim):
                                 break
                     self.queue.queue = [
                         q for q in self.queue.queue if q.task_id != new_task_id]
+                    self.serv_task_id = new_task_id
             else:
                 if self.queue.size() != 0:
                     brothers = [q for q in range(
-- 
2.43.0


From b7ad312d90a4099accaa58cb5722f63952363a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 37/58] fix: fork-join simulator with delays works beyond model
 time 1e10

---
 most_queue/sim/fj_delta_sim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 4609c26..f3aafaf 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -190,14 +190,14 @@ class ForkJoinSimDelta(ForkJoinSim):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = 1e16
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
                 serv_earl = self.servers[c].time_to_end_service
                 num_of_server_earlier = c
 
-        subtask_arr_time_earl = 1e10
+        subtask_arr_time_earl = 1e16
         num_of_subtask_earl = -1
 
         for c in range(len(self.subtask_arr_queue)):
-- 
2.43.0


From 7e2400306a4ef8db43a2b57416c36b117361465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:14 +0000
Subject: [PATCH 38/58] fix: split-join with delays lost the waiting subtasks
 of a job with more parts than free channels

---
 most_queue/sim/fj_delta_sim.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index f3aafaf..70fc144 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -163,29 +163,33 @@ class ForkJoinSimDelta(ForkJoinSim):
 
                     brothers = [q for q in range(
                         self.queue.size()) if self.queue.queue[q].task_id == new_task_id]
+                    started = []
                     for q in brothers:
                         que_ts = self.queue.queue[q]
                         for serv in self.servers:
                             if serv.is_free:
                                 serv.start_service(que_ts, self.ttek)
                                 self.free_channels -= 1
+                                started.append(que_ts)
                                 break
                     self.queue.queue = [
-                        q for q in self.queue.queue if q.task_id != new_task_id]
+                        q for q in self.queue.queue if q not in started]
                     self.serv_task_id = new_task_id
             else:
                 if self.queue.size() != 0:
                     brothers = [q for q in range(
                         self.queue.size()) if self.queue.queue[q].task_id == end_ts.task_id]
+                    started = []
                     for q in brothers:
                         que_ts = self.queue.queue[q]
                         for serv in self.servers:
                             if serv.is_free:
                                 serv.start_service(que_ts, self.ttek)
                                 self.free_channels -= 1
+                                started.append(que_ts)
                                 break
                     self.queue.queue = [
-                        q for q in self.queue.queue if q.task_id != end_ts.task_id]
+                        q for q in self.queue.queue if q not in started]
 
     def run_one_step(self):
 
-- 
2.43.0


From bf918bba42e5a33bc092658f1747cf05350ae0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 39/58] fix: moments of a maximum were integrated on nodes not
 scaled by the mean, and were zero without a delay

---
 most_queue/theory/fj_calc.py | 43 ++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 02f97ec..cc76292 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -51,36 +51,39 @@ def getMaxMoments(n, b, num=None):
          2.82592334960E-5, 4.24931398496E-7, 1.83956482398E-9,
          9.91182721961E-13]
 
+    # the quadrature nodes are in units of the mean
+    t = [a * b[0] for a in a_big]
+
     if len(b) >= 3:
 
         if coev < 1:
             params = Erlang_dist.get_params(b)
 
             for j in range(10):
-                p = g[j] * dfr_Erl_Mult(params, a_big[j],
-                                        n) * math.exp(a_big[j])
+                p = g[j] * b[0] * dfr_Erl_Mult(params, t[j],
+                                               n) * math.exp(a_big[j])
                 f[0] += p
                 for i in range(1, num):
-                    p = p * a_big[j]
+                    p = p * t[j]
                     f[i] += p
         else:
             params = H2_dist.get_params(b)
 
             for j in range(10):
-                p = g[j] * dfr_H2_Mult(params, a_big[j],
-                                       n) * math.exp(a_big[j])
+                p = g[j] * b[0] * dfr_H2_Mult(params, t[j],
+                                              n) * math.exp(a_big[j])
                 f[0] += p
                 for i in range(1, num):
-                    p = p * a_big[j]
+                    p = p * t[j]
                     f[i] += p
     else:
         params = Gamma.get_mu_alpha(b)
 
         for j in range(10):
-            p = g[j] * dfr_Gamma_Mult(params, a_big[j], n) * math.exp(a_big[j])
+            p = g[j] * b[0] * dfr_Gamma_Mult(params, t[j], n) * math.exp(a_big[j])
             f[0] += p
             for i in range(1, num):
-                p = p * a_big[j]
+                p = p * t[j]
                 f[i] += p
 
     for i in range(num - 1):
@@ -106,19 +109,21 @@ def getMaxMomentsDelta(n, b, num=3, delta=0):
          2.82592334960E-5, 4.24931398496E-7, 1.83956482398E-9,
          9.91182721961E-13]
 
-    if delta:
-        params = Gamma.get_mu_alpha(b)
+    # the quadrature nodes are in units of the mean
+    t = [a * b[0] for a in a_big]
 
-        for j in range(10):
-            p = g[j] * dfr_Gamma_Mult(params, a_big[j],
-                                      n, delta) * math.exp(a_big[j])
-            f[0] += p
-            for i in range(1, num):
-                p = p * a_big[j]
-                f[i] += p
+    params = Gamma.get_mu_alpha(b)
+
+    for j in range(10):
+        p = g[j] * b[0] * dfr_Gamma_Mult(params, t[j],
+                                         n, delta) * math.exp(a_big[j])
+        f[0] += p
+        for i in range(1, num):
+            p = p * t[j]
+            f[i] += p
 
-        for i in range(num - 1):
-            f[i + 1] *= (i + 2)
+    for i in range(num - 1):
+        f[i + 1] *= (i + 2)
 
     return f
 
-- 
2.43.0


From aa421e4f99f544aeff8b5472201d5f85d95b2452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 40/58] fix: sign and brackets of the Varma (n, k) fork-join
 approximation

---
 most_queue/theory/fj_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index cc76292..da45a9b 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -248,7 +248,7 @@ def get_v1_varma_nk(l, mu, n, k):
 
     for i in range(k, n + 1):
         summ += get_W(n, k, i) * (get_Hn(i) +
-                                  (get_V(i) - get_Hn(i) * ro)) / (l - mu)
+                                  (get_V(i) - get_Hn(i)) * ro) / (mu - l)
 
     return summ
 
-- 
2.43.0


From 4f005308ab04a02e2ba5ddb04bbb8d1f14965cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 41/58] fix: invariant fork-join approximations mixed up the
 two-server and the n-server systems

---
 most_queue/theory/fj_calc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index da45a9b..d4d0bfe 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -327,7 +327,7 @@ def get_v1_fj_invar_sj(l, mu, n):
 
     v1_fj2 = get_v1_fj2(l, mu)
     b1_sjn = getMaxMoments(n, [1 / mu_n, 2 / pow(mu_n, 2), 6 / pow(mu_n, 3)])
-    b1_sj2 = getMaxMoments(n, [1 / mu2, 2 / pow(mu2, 2), 6 / pow(mu2, 3)])
+    b1_sj2 = getMaxMoments(2, [1 / mu2, 2 / pow(mu2, 2), 6 / pow(mu2, 3)])
 
     w_sjn = get_w(l, b1_sjn)
     w_sj2 = get_w(l, b1_sj2)
@@ -356,7 +356,7 @@ def get_v_fj_invar_tt(l, b, n):
 
     v1_fj2 = get_v1_fj2(l, 1.0 / b[0])
 
-    tt2 = MGnCalc(n, l, b2)
+    tt2 = MGnCalc(2, l, b2)
     tt2.run()
     w_tt2 = tt2.get_w()
 
@@ -369,7 +369,7 @@ def get_v_fj_invar_tt(l, b, n):
 
     ttn = MGnCalc(n, l, bn)
     ttn.run()
-    w_ttn = tt2.get_w()
+    w_ttn = ttn.get_w()
 
     for i in range(3):
         v.append(v1_fj2 * w_ttn[i] / w_tt2[i])
-- 
2.43.0


From 6363a07107857d01039ee604984a1be1c3c18057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 42/58] fix: preemptive-priority moments: Pollaczek-Khinchine
 recursion of the top class and the busy rate of the higher classes

---
 most_queue/theory/priority_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 3f9813d..e493f35 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -190,7 +190,7 @@ def calc_pr1(l, b, num=3):
     for i in range(num):
         summ = b[0][i + 1] / (i + 2)
         for s in range(1, i + 1):
-            summ += b[0][i + 1 - s] * w[0][s] * math.factorial(i + 1) / (math.factorial(s) * math.factorial(i + 2 - s))
+            summ += b[0][i + 1 - s] * w[0][s - 1] * math.factorial(i + 1) / (math.factorial(s) * math.factorial(i + 2 - s))
         w[0][i] = summ * l[0] / (1 - l[0] * b[0][0])
 
     v.append([0.0] * num)
@@ -233,7 +233,7 @@ def calc_pr1(l, b, num=3):
             for m in range(i):
                 summ += w[j][m] * h[j][i - m] * math.factorial(i) / (math.factorial(m) * math.factorial(i + 1 - m))
 
-            w[j][i] = (c * L[j] * pi_j[j - 1][i] / (i + 1) + l[j] * summ) / (1.0 - l[j] * h[j][0])
+            w[j][i] = (c * L[j - 1] * pi_j[j - 1][i] / (i + 1) + l[j] * summ) / (1.0 - l[j] * h[j][0])
         w[j] = w[j][1:]
         v[j][0] = w[j][0] + h[j][0]
         v[j][1] = w[j][1] + 2 * w[j][0] * h[j][0] + h[j][1]
-- 
2.43.0


From aa473c2fbdf2de8d5363443d0d1657c14b7cfcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 43/58] fix: fifth moment of busy periods (with warm-up)

---
 most_queue/theory/priority_calc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index e493f35..6a5e460 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -89,7 +89,7 @@ def ppnz_calc(l, b, num=5):
         pnz.append(chisl / (1 - ro))
     if num > 4:
         chisl = b[4] * math.pow(z, 5) + 10 * b[3] * l * pnz[1] * math.pow(z, 3) + \
-                b[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2 * z * z]) + b[1] * (
+                b[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2] * z * z) + b[1] * (
                         5 * l * pnz[3] * z + 10 * l * l * pnz[1] * pnz[2])
         pnz.append(chisl / (1 - ro))
 
@@ -134,7 +134,7 @@ def ppnz_calc_warm_up(l, f, pnz, num=5):
     b: [j], j=1..num, начальные моменты времени обслуживания
     f: [j], нач. моменты распределения времени разогрева
     """
-    num = min(num, len(f))
+    num = min(num, len(f), len(pnz))
 
     pnz_warm_up = []
     z = 1 + l * pnz[0]
@@ -148,8 +148,8 @@ def ppnz_calc_warm_up(l, f, pnz, num=5):
                            + 6 * f[2] * l * pnz[1] * z * z + f[3] * math.pow(z, 4))
     if num > 4:
         pnz_warm_up.append(f[0] * l * pnz[4] + f[1] * (5 * l * pnz[3] * z + 10 * l * l * pnz[1] * pnz[2]) +
-                           f[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * f[3] * l * pnz[1] * math.pow(z, 3) + f[
-            4] * math.pow(z, 5)))
+                           f[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2] * z * z) +
+                           10 * f[3] * l * pnz[1] * math.pow(z, 3) + f[4] * math.pow(z, 5))
 
     return pnz_warm_up
 
-- 
2.43.0


From d63a24282d1135ce20944d2ae6a05a59f5072335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 44/58] fix: classes without priority are mixed by their
 arrival rates

---
 most_queue/theory/priority_calc.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 6a5e460..9b86af5 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -280,8 +280,8 @@ def get_w_mg1_bp(l, b):
     for i in range(num_of_moment):
         b_sr.append(0)
         for k in range(num_of_classes):
-            b_sr[i] += b[k][i]
-        b_sr[i] /= num_of_classes
+            b_sr[i] += l[k] * b[k][i]
+        b_sr[i] /= l_sum
 
     w_k = get_w(l_sum, b_sr)
 
@@ -466,13 +466,11 @@ def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
     # M/G/1 calculation:
 
     b_sr = [0.0] * j_num
-    l_sum = 0
+    l_sum = sum(l)
     for j in range(j_num):
         for k in range(k_num):
-            b_sr[j] += b1[k][j]
-        b_sr[j] /= k_num
-    for k in range(k_num):
-        l_sum += l[k]
+            b_sr[j] += l[k] * b1[k][j]
+        b_sr[j] /= l_sum
 
     p1 = get_p(l_sum, b_sr, N)
     q1 = 0
@@ -482,13 +480,10 @@ def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
     # M/G/n calculation:
 
     b_sr = [0.0] * j_num
-    l_sum = 0
     for j in range(j_num):
         for k in range(k_num):
-            b_sr[j] += b[k][j]
-        b_sr[j] /= k_num
-    for k in range(k_num):
-        l_sum += l[k]
+            b_sr[j] += l[k] * b[k][j]
+        b_sr[j] /= l_sum
 
     tt_n = MGnCalc(n, l_sum, b_sr)
     tt_n.run()
@@ -525,8 +520,8 @@ def get_w_MxGn_no_pr(l, b, n):
     for j in range(num_of_mom):
         b_sr.append(0)
         for k in range(len(b)):
-            b_sr[j] += b[k][j]
-        b_sr[j] /= num_of_mom
+            b_sr[j] += l[k] * b[k][j]
+        b_sr[j] /= l_sum
 
     tt = MGnCalc(n, l_sum, b_sr)
     tt.run()
-- 
2.43.0


From 0aad611b0a1882ed3caeda1a4b697013d5d5d669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 45/58] fix: non-preemptive priority moments depended on the
 unit of time

---
 most_queue/theory/priority_calc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 9b86af5..f840ff8 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -382,7 +382,8 @@ def get_w_np(l, b, num=3):
                     summ += l[i] * b[i][m]
                 b_b[m] = summ / lb
 
-        h = 0.0001
+        # step in units of the mean service rate
+        h = 0.001 * L[-1] / ro
         steps = 5
 
         if j != num_of_cl - 1:
@@ -399,7 +400,7 @@ def get_w_np(l, b, num=3):
         else:
             nu_a_param = 0
 
-        w_pls = []
+        w_pls = [1.0]
 
         for c in range(1, steps):
             s = h * c
@@ -419,10 +420,9 @@ def get_w_np(l, b, num=3):
 
             w_pls.append(chisl / znam)
 
-            w[j] = diff5dots(w_pls, h)
-            w[j][0] = -w[j][0]
-            if len(b[j]) > 2:
-                w[j][2] = -w[j][2]
+        w[j] = diff5dots(w_pls, h)
+        w[j][0] = -w[j][0]
+        w[j][2] = -w[j][2]
 
     return w
 
-- 
2.43.0


From c540503b3512c64c5bf9881febf20521b7de489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 46/58] fix: second moment of the waiting time in
 climov_w_pr_calc

---
 most_queue/theory/priority_calc.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index f840ff8..7fd5583 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -113,15 +113,14 @@ def climov_w_pr_calc(l, b):
         w.append([0.0] * 2)
         if k != 0:
             w[k][0] = ro_k_j[k][1] / (2 * ro_k[k - 1] * ro_k[k])
-            w[k][1] = ro_k_j[k][2] / (3 * ro_k[k]) + (ro_k_j[k][2]) / (
-                    2 * math.pow(ro_k[k], 2)) + \
-                      (ro_k_j[k][1]) / (2 * ro_k[k])
+            w[k][1] = ro_k_j[k][2] / (3 * math.pow(ro_k[k - 1], 2) * ro_k[k]) + math.pow(ro_k_j[k][1], 2) / (
+                    2 * math.pow(ro_k[k - 1], 2) * math.pow(ro_k[k], 2)) + \
+                      (ro_k_j[k][1] * ro_k_j[k - 1][1]) / (2 * math.pow(ro_k[k - 1], 3) * ro_k[k])
 
         else:
             w[k][0] = ro_k_j[k][1] / (2 * ro_k[k])
-            w[k][1] = ro_k_j[k][2] / (3 * math.pow(ro_k[k - 1], 3) * ro_k[k]) + (ro_k_j[k][2] * ro_k_j[k - 1][1]) / (
-                    2 * math.pow(ro_k[k - 1], 2) * math.pow(ro_k[k], 2)) + \
-                      (ro_k_j[k][1] * ro_k_j[k - 1][1]) / (2 * math.pow(ro_k[k - 1], 3) * ro_k[k])
+            w[k][1] = ro_k_j[k][2] / (3 * ro_k[k]) + math.pow(ro_k_j[k][1], 2) / (
+                    2 * math.pow(ro_k[k], 2))
 
     return w
 
-- 
2.43.0


From 756ab2dcd4bed36abaed86ab75a3f2243b095ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 47/58] fix: H2 fit near the exponential and Erlang-2 laws no
 longer distorts the mean

---
 most_queue/rand_distribution.py | 44 ++++++++++++---------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index bdd832e..b860934 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -273,44 +273,32 @@ class H2_dist:
         Возвращает список с параметрами [y1, mu1, mu2]
         """
 
-        f = [0.0] * 3
-        for i in range(3):
-            f[i] = complex(moments[i] / math.factorial(i + 1))
-        znam = (f[1] - pow(f[0], 2))
-        c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
-        c1 = (f[0] * f[1] - f[2]) / znam
-
-        d = pow(c1 / 2.0, 2.0) - c0
-
         if is_fitting:
             # проверка на близость распределения к экспоненциальному
+            # (варьируются 2-й и 3-й моменты, среднее сохраняется)
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
             if math.fabs(coev.real - 1.0) < ee:
                 if verbose:
-                    print("H2 is close to Exp. Multiply moments to (1+je), coev = {0:5.3f},"
+                    print("H2 is close to Exp. Multiply moments 2, 3 to (1+e), (1+3e), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
-                f = []
-                for i in range(len(moments)):
-                    f.append(moments[i] * complex(1, (i + 1) * e))
-
-                return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
-                                              is_fitting=is_fitting)
-
-            coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
+                moments = [moments[0], moments[1] * (1 + e), moments[2] * (1 + 3 * e)]
 
             # проверка на близость распределения к Эрланга 2-го порядка
-            if math.fabs(coev.real - 1.0 / math.sqrt(2.0)) < ee:
+            # (варьируется 3-й момент, первые два сохраняются)
+            elif math.fabs(coev.real - 1.0 / math.sqrt(2.0)) < ee:
                 if verbose:
-                    print("H2 is close to E2. Multiply moments to (1+je), coev = {0:5.3f},"
+                    print("H2 is close to E2. Multiply moment 3 to (1+e), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
-                f = []
-                for i in range(len(moments)):
-                    # if i == 0:
-                    #     f.append(moments[0])
-                    # else:
-                    f.append(moments[i] * complex(1, (i + 1) * e))
-                return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
-                                              is_fitting=is_fitting)
+                moments = [moments[0], moments[1], moments[2] * (1 + e)]
+
+        f = [0.0] * 3
+        for i in range(3):
+            f[i] = complex(moments[i] / math.factorial(i + 1))
+        znam = (f[1] - pow(f[0], 2))
+        c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
+        c1 = (f[0] * f[1] - f[2]) / znam
+
+        d = pow(c1 / 2.0, 2.0) - c0
 
         res = [0, 0, 0]  # y1, mu1, mu2
         c1 = complex(c1)
-- 
2.43.0


From a315c2fd908a543e60ba7cf2f5fc7c865ec292e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 48/58] fix: preemption interrupts the latest job of the lowest
 class and puts it back at the head of its queue

---
 most_queue/sim/priority_queue_sim.py | 85 +++++++++++++++-------------
 1 file changed, 46 insertions(+), 39 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 0d059ef..4f191a6 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -240,48 +240,55 @@ class PriorityQueueSimulator:
                 if self.free_channels == 0:
                     # смотрим, есть ли на обслуживании заявки младшего класса
                     is_found_weekier = False
-                    for c in self.servers:
+                    # прерывается заявка самого младшего класса, а из них - поступившая последней
+                    c = None
+                    class_on_service = k
+                    for s in self.servers:
                         if moment:
-                            class_on_service = c.tsk_on_service.in_node_class_num
+                            cls = s.tsk_on_service.in_node_class_num
                         else:
-                            class_on_service = c.tsk_on_service.k
-
-                        if class_on_service > k:
-                            time_to_end = c.time_to_end_service
-                            total_time = c.total_time_to_serve
-
-                            dropped_tsk = c.end_service()
-                            self.taked[k] += 1
-
-                            if k != self.class_ppnz_started and self.class_ppnz_started != -1 and self.in_sys[
-                                    k] == self.n:
-                                self.ppnz_moments[self.class_ppnz_started] += 1
-                                self.refresh_ppnz_stat(
-                                    self.class_ppnz_started, self.ttek - self.start_ppnz)
-                                self.start_ppnz = self.ttek
-                                self.class_ppnz_started = k
-
-                            dropped_tsk.start_waiting_time = self.ttek
-                            dropped_tsk.is_pr = True
-                            if self.prty_type == 'PR':
-                                dropped_tsk.time_to_end_service = time_to_end - self.ttek
-                            elif self.prty_type == "RS":
-                                dropped_tsk.time_to_end_service = c.dist[k].generate(
-                                )
-                            elif self.prty_type == "RW":
-                                dropped_tsk.time_to_end_service = total_time
-
-                            is_found_weekier = True
-                            if moment:
-                                self.queue[dropped_tsk.in_node_class_num].append(
-                                    dropped_tsk)
-                                c.start_service(
-                                    new_tsk, self.ttek, is_network=True)
-                            else:
-                                self.queue[dropped_tsk.k].append(dropped_tsk)
-                                c.start_service(new_tsk, self.ttek)
+                            cls = s.tsk_on_service.k
+
+                        if cls > class_on_service or (
+                                c is not None and cls == class_on_service and
+                                s.tsk_on_service.arr_time > c.tsk_on_service.arr_time):
+                            c = s
+                            class_on_service = cls
 
-                            break
+                    if c is not None:
+                        time_to_end = c.time_to_end_service
+                        total_time = c.total_time_to_serve
+
+                        dropped_tsk = c.end_service()
+                        self.taked[k] += 1
+
+                        if k != self.class_ppnz_started and self.class_ppnz_started != -1 and self.in_sys[
+                                k] == self.n:
+                            self.ppnz_moments[self.class_ppnz_started] += 1
+                            self.refresh_ppnz_stat(
+                                self.class_ppnz_started, self.ttek - self.start_ppnz)
+                            self.start_ppnz = self.ttek
+                            self.class_ppnz_started = k
+
+                        dropped_tsk.start_waiting_time = self.ttek
+                        dropped_tsk.is_pr = True
+                        if self.prty_type == 'PR':
+                            dropped_tsk.time_to_end_service = time_to_end - self.ttek
+                        elif self.prty_type == "RS":
+                            dropped_tsk.time_to_end_service = c.dist[k].generate(
+                            )
+                        elif self.prty_type == "RW":
+                            dropped_tsk.time_to_end_service = total_time
+
+                        is_found_weekier = True
+                        if moment:
+                            self.queue[dropped_tsk.in_node_class_num].insert(
+                                0, dropped_tsk)
+                            c.start_service(
+                                new_tsk, self.ttek, is_network=True)
+                        else:
+                            self.queue[dropped_tsk.k].insert(0, dropped_tsk)
+                            c.start_service(new_tsk, self.ttek)
                     if not is_found_weekier:
                         if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
                             new_tsk.start_waiting_time = self.ttek
-- 
2.43.0


From 7427fe0c1953486f899fa0cb555dfda7eefe65d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 49/58] fix: an interrupted job draws its new service time from
 its own class and keeps its total time

---
 most_queue/sim/priority_queue_sim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 4f191a6..e8069f6 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -275,7 +275,7 @@ class PriorityQueueSimulator:
                         if self.prty_type == 'PR':
                             dropped_tsk.time_to_end_service = time_to_end - self.ttek
                         elif self.prty_type == "RS":
-                            dropped_tsk.time_to_end_service = c.dist[k].generate(
+                            dropped_tsk.time_to_end_service = c.dist[class_on_service].generate(
                             )
                         elif self.prty_type == "RW":
                             dropped_tsk.time_to_end_service = total_time
@@ -676,7 +676,8 @@ class Server:
             self.tsk_on_service.time_to_end_service = self.time_to_end_service
         else:
             if ts.is_pr:
-                self.time_to_end_service = ttek + ts.time_to_end_service
+                self.total_time_to_serve = ts.time_to_end_service
+                self.time_to_end_service = ttek + self.total_time_to_serve
                 self.tsk_on_service.time_to_end_service = self.time_to_end_service
             else:
                 self.total_time_to_serve = self.dist[self.class_on_service].generate(
-- 
2.43.0


From cf14ee1674383c440884cdea9071cffdda5f8e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 50/58] fix: the No discipline of the priority simulator
 crashed and mixed up classes

---
 most_queue/sim/priority_queue_sim.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index e8069f6..6f6584b 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -361,7 +361,8 @@ class PriorityQueueSimulator:
         self.refresh_w_stat(k, end_ts.wait_time)
         self.in_sys[k] -= 1
 
-        if len(self.queue[k]) == 0 and self.free_channels == 1:
+        queue = self.queue if self.prty_type == "No" else self.queue[k]
+        if len(queue) == 0 and self.free_channels == 1:
             if self.in_sys[k] == self.n - 1 and self.class_ppnz_started != -1:
                 # Конец ПНЗ
                 self.ppnz_moments[k] += 1
@@ -399,14 +400,20 @@ class PriorityQueueSimulator:
             if len(self.queue) != 0:
 
                 que_ts = self.queue.pop(0)
+                kk = que_ts.in_node_class_num if is_network else que_ts.k
 
-                if self.free_channels == 1 and k != end_ts.k:
-                    self.start_ppnz[k] = self.ttek
-                    self.class_ppnz_started = k
+                if self.free_channels == 1 and kk != k:
+                    self.start_ppnz = self.ttek
+                    self.class_ppnz_started = kk
 
-                self.taked[k] += 1
+                self.taked[kk] += 1
                 que_ts.wait_time += self.ttek - que_ts.start_waiting_time
-                self.servers[c].start_service(que_ts, self.ttek)
+                if is_network:
+                    que_ts.wait_network += self.ttek - que_ts.start_waiting_time
+                    self.servers[c].start_service(
+                        que_ts, self.ttek, is_network=True)
+                else:
+                    self.servers[c].start_service(que_ts, self.ttek)
                 self.free_channels -= 1
         if is_network:
             return end_ts
@@ -591,7 +598,7 @@ class PriorityQueueSimulator:
                 for kk in range(self.k):
                     res += "Queue # " + \
                         str(kk + 1) + " count " + \
-                        str(len(self.queue[kk])) + "\n"
+                        str(len(self.queue if self.prty_type == "No" else self.queue[kk])) + "\n"
 
         return res
 
-- 
2.43.0


From 6078e5759626c8dc865f6f07c7858b852854b918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 51/58] fix: the waiting room of the priority simulator: a room
 of 0 places, and the NP discipline

---
 most_queue/sim/priority_queue_sim.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 6f6584b..8e51668 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -223,7 +223,7 @@ class PriorityQueueSimulator:
 
             if self.prty_type == 'No':
 
-                if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
+                if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
@@ -290,7 +290,7 @@ class PriorityQueueSimulator:
                             self.queue[dropped_tsk.k].insert(0, dropped_tsk)
                             c.start_service(new_tsk, self.ttek)
                     if not is_found_weekier:
-                        if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
+                        if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                             new_tsk.start_waiting_time = self.ttek
                             self.queue[k].append(new_tsk)
                         else:
@@ -306,9 +306,12 @@ class PriorityQueueSimulator:
                                 self.in_sys[k] -= 1
 
             elif self.prty_type == "NP":
-                if self.free_channels == 0:
+                if self.buffer is None or sum(len(q) for q in self.queue) < self.buffer:
                     new_tsk.start_waiting_time = self.ttek
                     self.queue[k].append(new_tsk)
+                else:
+                    self.dropped[k] += 1
+                    self.in_sys[k] -= 1
 
         else:  # there are free channels:
             if self.free_channels == self.n and self.is_warm_up_set == True:
-- 
2.43.0


From 5f3e8c56596211b4102d04855c8de53d8ddca31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 52/58] fix: the priority simulators lost events after time
 1e10

---
 most_queue/sim/priority_network.py   |  4 ++--
 most_queue/sim/priority_queue_sim.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/most_queue/sim/priority_network.py b/most_queue/sim/priority_network.py
index 891cace..0948e61 100755
--- a/most_queue/sim/priority_network.py
+++ b/most_queue/sim/priority_network.py
@@ -85,8 +85,8 @@ class PriorityNetwork:
         num_of_serv_ch_earlier = -1  # номер канала узла, мин время до окончания обслуживания
         num_of_k_earlier = -1  # номер класса, прибывающего через мин время
         num_of_node_earlier = -1  # номер узла, в котором раньше всех закончится обслуживание
-        arrival_earlier = 1e10  # момент прибытия ближайшего
-        serving_earlier = 1e10  # момент ближайшего обслуживания
+        arrival_earlier = 1e16  # момент прибытия ближайшего
+        serving_earlier = 1e16  # момент ближайшего обслуживания
 
         for k in range(self.k_num):
             if self.arrival_time[k] < arrival_earlier:
diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 8e51668..9023772 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -427,8 +427,8 @@ class PriorityQueueSimulator:
         self.queue[new_class] = buf
 
     def calc_time_to_next_event(self):
-        serv_earl = 1e10
-        arrival_earlier = 1e10
+        serv_earl = 1e16
+        arrival_earlier = 1e16
 
         for kk in range(self.k):
             if self.arrival_time[kk] < arrival_earlier:
@@ -449,10 +449,10 @@ class PriorityQueueSimulator:
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = 1e16
 
         k_earlier = -1
-        arrival_earlier = 1e10
+        arrival_earlier = 1e16
 
         for kk in range(self.k):
             if self.arrival_time[kk] < arrival_earlier:
@@ -662,7 +662,7 @@ class Server:
             self.dist.append(create_distribution(
                 params, dist_type, self.generator))
 
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = 1e16
         self.total_time_to_serve = 0
         # Сохранение типа дисциплины обслуживания необходимо для
         # корректного назначения времени обслуживания после прерывания
@@ -697,7 +697,7 @@ class Server:
         self.is_free = False
 
     def end_service(self):
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = 1e16
         self.is_free = True
         ts = self.tsk_on_service
         self.tsk_on_service = None
-- 
2.43.0


From f37132504a731e3ce5490853a8913bd0daeddedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 53/58] fix: service parameters of a network node follow the
 class, not the priority slot

---
 most_queue/sim/priority_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/priority_network.py b/most_queue/sim/priority_network.py
index 0948e61..4da3c3c 100755
--- a/most_queue/sim/priority_network.py
+++ b/most_queue/sim/priority_network.py
@@ -36,10 +36,10 @@ class PriorityNetwork:
 
         for m in range(self.n_num):
             self.smos.append(PriorityQueueSimulator(n[m], k_num, prty[m]))
-            param_serv_reset = []  # из-за смены порядка приоритетов в узле
+            param_serv_reset = [None] * k_num  # из-за смены порядка приоритетов в узле
             # для расчета необходимо преобразовать список с параметрами вр обслуживания в узле
             for k in range(k_num):
-                param_serv_reset.append(serv_params[m][nodes_prty[m][k]])
+                param_serv_reset[nodes_prty[m][k]] = serv_params[m][k]
 
             self.smos[m].set_servers(param_serv_reset)
             time.sleep(0.1)
-- 
2.43.0


From 9ca8e175a9baf81c6225f71ff93e291b13eda515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 54/58] fix: rounding of routing probabilities sent jobs to
 node 0

---
 most_queue/sim/priority_network.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_network.py b/most_queue/sim/priority_network.py
index 4da3c3c..1f75f40 100755
--- a/most_queue/sim/priority_network.py
+++ b/most_queue/sim/priority_network.py
@@ -64,12 +64,16 @@ class PriorityNetwork:
 
     def play_next_node(self, real_class, current_node):
         sum_p = 0
+        next_node = 0
         p = np.random.rand()
         for i in range(self.R[real_class].shape[0]):
             sum_p += self.R[real_class][current_node + 1, i]
+            if self.R[real_class][current_node + 1, i] > 0:
+                next_node = i
             if sum_p > p:
                 return i
-        return 0
+        # сумма вероятностей меньше 1 из-за округления
+        return next_node
 
     def refresh_v_stat(self, k, new_a):
         for i in range(3):
-- 
2.43.0


From 1dd70be9e0460e2f605c0e2050a3d5a3b3c19563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 55/58] fix: network_calc orders classes at a node by their
 priority slot

---
 most_queue/theory/network_calc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index d91ab1d..9bc2ace 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -121,8 +121,9 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
     for m in range(nodes):
         b_order.append([])
         l_order.append([])
-        for k in range(k_num):
-            order = nodes_prty[m][k]
+        for p in range(k_num):
+            # класс, имеющий в узле приоритет p
+            order = list(nodes_prty[m]).index(p)
             b_order[m].append(b[order][m])
             l_order[m].append(intensities[order][m])
 
@@ -141,8 +142,8 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
 
         res['loads'][i] = l_sum * b_sr[0] / n[i]
         res['v_node'].append(get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i]))
-        for k in range(k_num):
-            res['v_node'][i][nodes_prty[i][k]] = res['v_node'][i][k]
+        res['v_node'][i] = [res['v_node'][i][nodes_prty[i][k]]
+                            for k in range(k_num)]
 
     h = 0.0001
     s = [0.0] * 4
-- 
2.43.0


From 0e787de2766c1592e12e597a9501207c597b0a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 56/58] fix: network_calc node load is the sum of the class
 loads

---
 most_queue/theory/network_calc.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index 9bc2ace..6373ec6 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -129,18 +129,8 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
 
     res['v_node'] = []
     for i in range(nodes):
-        l_sum = 0
         for k in range(k_num):
-            l_sum += l_order[i][k]
-
-        b_sr = [0.0] * 4
-
-        for j in range(4):
-            for k in range(k_num):
-                b_sr[j] += b_order[i][k][j]
-            b_sr[j] /= k_num
-
-        res['loads'][i] = l_sum * b_sr[0] / n[i]
+            res['loads'][i] += l_order[i][k] * b_order[i][k][0] / n[i]
         res['v_node'].append(get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i]))
         res['v_node'][i] = [res['v_node'][i][nodes_prty[i][k]]
                             for k in range(k_num)]
-- 
2.43.0


From 71633824ae6da70f77293d2efcc3b94b0bcc0e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 57/58] fix: network_calc differentiation step in units of the
 node sojourn times, starting at 0

---
 most_queue/theory/network_calc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index 6373ec6..77deac7 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -135,12 +135,13 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
         res['v_node'][i] = [res['v_node'][i][nodes_prty[i][k]]
                             for k in range(k_num)]
 
-    h = 0.0001
-    s = [0.0] * 4
-    for i in range(4):
-        s[i] = h * (i + 1)
-
     for k in range(k_num):
+        # шаг - в долях наибольшего среднего времени пребывания в узле
+        h = 0.001 / max(res['v_node'][i][k][0] for i in range(nodes))
+        s = [0.0] * 4
+        for i in range(4):
+            s[i] = h * (i + 1)
+
         I = np.zeros((nodes, nodes))
         for i in range(nodes):
             for j in range(nodes):
@@ -163,7 +164,7 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
         for i in range(nodes):
             gamma_mu_alpha.append(Gamma.get_mu_alpha([res['v_node'][i][k][0], res['v_node'][i][k][1]]))
 
-        g_PLS = []
+        g_PLS = [1.0]
         for i in range(4):
             for j in range(nodes):
                 N[j, j] = Gamma.get_pls(*gamma_mu_alpha[j], s[i])
-- 
2.43.0


From a4e02499115d0ab6e6e9943abcc4cf4e2a90532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 58/58] fix: priority moments when a class has zero rate

---
 most_queue/theory/priority_calc.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 7fd5583..840b75a 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -220,7 +220,8 @@ def calc_pr1(l, b, num=3):
             summ = 0
             for i in range(j + 1):
                 summ += l[i] * pi_j_i[j][i][moment]
-            pi_j[j][moment] = summ / L[j]
+            if L[j] != 0:
+                pi_j[j][moment] = summ / L[j]
 
         w.append([0.0] * (num + 1))
         w[j][0] = 1
@@ -363,7 +364,7 @@ def get_w_np(l, b, num=3):
 
         b_a = [0.0] * num_of_mom
         for m in range(num_of_mom):
-            if j == 0:
+            if la == 0:
                 b_a[m] = 0
             else:
                 summ = 0
@@ -373,7 +374,7 @@ def get_w_np(l, b, num=3):
 
         b_b = [0.0] * num_of_mom
         for m in range(num_of_mom):
-            if j == num_of_cl - 1:
+            if lb == 0:
                 b_b[m] = 0
             else:
                 summ = 0
@@ -385,7 +386,7 @@ def get_w_np(l, b, num=3):
         h = 0.001 * L[-1] / ro
         steps = 5
 
-        if j != num_of_cl - 1:
+        if lb != 0:
             b_b_param = Gamma.get_mu_alpha(b_b)
         else:
             b_b_param = 0
@@ -394,7 +395,7 @@ def get_w_np(l, b, num=3):
 
         nu_a_PNZ = ppnz_calc(la, b_a)
 
-        if j != 0:
+        if la != 0:
             nu_a_param = Gamma.get_mu_alpha(nu_a_PNZ)
         else:
             nu_a_param = 0
@@ -404,7 +405,7 @@ def get_w_np(l, b, num=3):
         for c in range(1, steps):
             s = h * c
 
-            if j != 0:
+            if la != 0:
                 nu_a = Gamma.get_pls(*nu_a_param, s)
                 summ = s + la - la * nu_a
             else:
@@ -412,7 +413,7 @@ def get_w_np(l, b, num=3):
 
             chisl = (1 - ro) * summ
 
-            if j != len(l) - 1:
+            if lb != 0:
                 chisl += lb * (1 - Gamma.get_pls(*b_b_param, summ))
 
             znam = l[j] * Gamma.get_pls(*b_k_param, summ) - l[j] + s
-- 
2.43.0

