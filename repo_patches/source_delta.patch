From 1dde91b6d18b38cf718be35688bcf9385322cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 01/22] fix: strip_quotes keeps exactly the text between the
 quote runs

The length passed to substr was an end position, so a leading quote kept the
trailing one, and a text of quotes only was read past its ends.
---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 68372ef..26b92ba 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -439,12 +439,10 @@ namespace cmdr::string {
   }
 
   inline std::string strip_quotes(const std::string &str) {
-    if (str.empty()) return str;
-    std::size_t p1 = 0, p2 = str.length() - 1;
-    while (str[p1] == '"' || str[p1] == '\'') p1++;
-    while (str[p2] == '"' || str[p2] == '\'') p2--;
-    if (p2 + 1 < p1) p2 = p1 - 1;
-    return str.substr(p1, p2 + 1);
+    std::size_t p1 = 0, p2 = str.length();
+    while (p1 < p2 && (str[p1] == '"' || str[p1] == '\'')) p1++;
+    while (p2 > p1 && (str[p2 - 1] == '"' || str[p2 - 1] == '\'')) p2--;
+    return str.substr(p1, p2 - p1);
   }
 
   inline void strip_quotes(std::istream &is, std::string &s) {
-- 
2.43.0


From 6f5abbdfa9bffa264d728d03ff3d97f3ec44cbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 02/22] fix: itoa(int) computes the magnitude of INT_MIN
 without signed overflow

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 26b92ba..4e9f477 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -555,7 +555,7 @@ namespace cmdr::string {
       }
 
       int sign         = -(n < 0);
-      unsigned int val = (n ^ sign) - sign;
+      unsigned int val = ((unsigned int) n ^ (unsigned int) sign) - (unsigned int) sign;
 
       int size;
       if (val >= 10000) {
-- 
2.43.0


From 0dc9eab095f468b6f02aa169378be47ffe410b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 03/22] fix: parse_bool reads its characters with get() instead
 of parsing an int

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 42 +++++++++++-------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 5ae99f4..82e1c95 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -332,26 +332,26 @@ namespace cmdr::vars {
       ch = is.peek();
       if (ch == '0') {
         x = false;
-        is >> ch;
+        is.get();
         return true;
       }
       if (ch == '1') {
         x = true;
-        is >> ch;
+        is.get();
         return true;
       }
 
       if (ch == 't' || ch == 'T') {
-        is >> ch;
+        is.get();
         ch = is.peek();
         if (ch == 'r' || ch == 'R') {
-          is >> ch;
+          is.get();
           ch = is.peek();
           if (ch == 'u' || ch == 'U') {
-            is >> ch;
+            is.get();
             ch = is.peek();
             if (ch == 'e' || ch == 'E') {
-              is >> ch;
+              is.get();
               x = true;
               return true;
             }
@@ -364,14 +364,13 @@ namespace cmdr::vars {
         }
         is.unget();
       } else if (ch == 'y' || ch == 'Y') {
-        is >> ch;
-        is >> ch;
+        is.get();
         ch = is.peek();
         if (ch == 'e' || ch == 'E') {
-          is >> ch;
+          is.get();
           ch = is.peek();
           if (ch == 's' || ch == 'S') {
-            is >> ch;
+            is.get();
             x = true;
             return true;
           }
@@ -382,19 +381,19 @@ namespace cmdr::vars {
         }
         is.unget();
       } else if (ch == 'f' || ch == 'F') {
-        is >> ch;
+        is.get();
         ch = is.peek();
         if (ch == 'a' || ch == 'A') {
-          is >> ch;
+          is.get();
           ch = is.peek();
           if (ch == 'l' || ch == 'L') {
-            is >> ch;
+            is.get();
             ch = is.peek();
             if (ch == 's' || ch == 'S') {
-              is >> ch;
+              is.get();
               ch = is.peek();
               if (ch == 'e' || ch == 'E') {
-                is >> ch;
+                is.get();
                 x = false;
                 return true;
               }
@@ -409,11 +408,10 @@ namespace cmdr::vars {
         }
         is.unget();
       } else if (ch == 'n' || ch == 'N') {
-        is >> ch;
-        is >> ch;
+        is.get();
         ch = is.peek();
         if (ch == 'o' || ch == 'O') {
-          is >> ch;
+          is.get();
           x = false;
           return true;
         }
@@ -421,18 +419,18 @@ namespace cmdr::vars {
         return true;
 
       } else if (ch == 'o' || ch == 'O') {
-        is >> ch;
+        is.get();
         ch = is.peek();
         if (ch == 'n' || ch == 'N') {
-          is >> ch;
+          is.get();
           x = true;
           return true;
         }
         if (ch == 'f' || ch == 'F') {
-          is >> ch;
+          is.get();
           ch = is.peek();
           if (ch == 'f' || ch == 'F') {
-            is >> ch;
+            is.get();
             x = false;
             return true;
           }
-- 
2.43.0


From 053600e9627e4b82e505d66190a390b8cc2d5c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 04/22] fix: jaro_winkler_distance records the distance of an
 exact match

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 4e9f477..268e7b8 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -808,7 +808,7 @@ namespace cmdr::text {
 
       // Exit early if they're an exact match.
       if (s1 == s2) {
-        return 1;
+        return (_distance = 1);
       }
 
       // Maximum distance upto which matching
-- 
2.43.0


From a266d3973464d4fa85ab33d7d844d1a04b819b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 05/22] fix: selecting a time precision keeps the UTC/local
 choice

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 76894c0..d077f5d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -291,7 +291,7 @@ namespace cmdr::chrono {
         return;
       }
       if (v < fmtflags::mask_extra_fields) {
-        _flags = (fmtflags) ((unsigned int) _flags & ((unsigned int) fmtflags::mask_extra_fields + 1));
+        _flags = (fmtflags) ((unsigned int) _flags & ~(unsigned int) fmtflags::mask_extra_fields);
         _flags = (fmtflags) ((unsigned int) _flags | (unsigned int) (v));
         return;
       }
-- 
2.43.0


From 5c215e35852ea307ecdfbdce9a9b385b1e0ccb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 06/22] fix: priority_queue keeps its order when pushing after
 an emptied element

---
 libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
index 7844388..1854b5a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
@@ -306,6 +306,16 @@ namespace cmdr::queue {
 
   private:
     void _push(std::shared_ptr<element> &at, T data) {
+      if (at->_list.empty()) {
+        // an emptied element cannot order new data any more: the rest of its branch takes its place
+        auto rest = ReverseComp ? at->_right : at->_left;
+        if (rest) {
+          _push(rest, std::move(data));
+          at = rest;
+          return;
+        }
+      }
+
       PT l{}, r{};
       if (!at->_list.empty()) {
         for (auto const &v: at->_list) {
-- 
2.43.0


From dd5d7fad775afaf67f328edf83b65f5e0abf051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 07/22] fix: threaded_message_queue::empty reads the queue
 under its lock

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index 15e620f..2b3d3cb 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -410,11 +410,14 @@ namespace cmdr::pool {
 
     ~threaded_message_queue() { clear(); }
 
-    bool empty() const { return _data.empty(); }
+    bool empty() const {
+      const locker l_(_m);
+      return _data.empty();
+    }
 
   private:
     std::condition_variable _cv{};
-    std::mutex _m{};
+    mutable std::mutex _m{};
     mutable Coll _data{};
     bool _abort = false;
   }; // class threaded_message_queue
-- 
2.43.0


From d690c2912a44c63bc6e6753a11258b281200d5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 08/22] fix: observable does not lose observers subscribed
 concurrently

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index e4925a9..a1aaad4 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1013,9 +1013,9 @@ namespace cmdr::util {
     observable &add_observer(observer_t const &o) {
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m); // before copying: what another thread changes meanwhile must not get lost
           auto copy = _observers;
           copy.push_back(o);
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
@@ -1029,9 +1029,9 @@ namespace cmdr::util {
       observer_t wp = o;
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.push_back(wp);
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
@@ -1045,6 +1045,7 @@ namespace cmdr::util {
     observable &remove_observer(observer_t_naked *o) {
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.erase(std::remove_if(copy.begin(), copy.end(), [o](observer_t const &rhs) {
                        if (auto spt = rhs.lock())
@@ -1052,7 +1053,6 @@ namespace cmdr::util {
                        return false;
                      }),
                      copy.end());
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
-- 
2.43.0


From 12c48f11efc864953ac52167eabd602e7cdea5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 09/22] fix: signal::emit gives every callback the emitted
 values

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index a1aaad4..d30fffe 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1200,8 +1200,14 @@ namespace cmdr::util {
      * @param event_or_subject
      */
     signal &emit(SignalSubjects &&...event_or_subjects) {
-      for (auto &fn: _callbacks)
-        fn(std::move(event_or_subjects)...);
+      if constexpr ((std::is_copy_constructible_v<SignalSubjects> && ...)) {
+        // each callback gets values of its own, it might move them away
+        for (auto &fn: _callbacks)
+          fn(SignalSubjects(event_or_subjects)...);
+      } else {
+        for (auto &fn: _callbacks)
+          fn(std::move(event_or_subjects)...);
+      }
       return (*this);
     }
     signal &operator()(SignalSubjects &&...event_or_subjects) { return emit(event_or_subjects...); }
-- 
2.43.0


From a13887905a914f124f06990a2f0322b04865c9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 10/22] fix: looking a command up by its short name must not
 overwrite the table of long names

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 8060aae..a9b8c72 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -244,9 +244,9 @@ namespace cmdr {
       auto *p2    = it->second;
       cmr.obj     = (opt::cmd *) &(p2->update_hit_count(pc.title, 1, true));
     } else {
-      li              = c._short_commands;
-      auto const &it1 = li.find(pc.title);
-      if (it1 != li.end()) {
+      opt::types::indexed_commands &si = c._short_commands;
+      auto const &it1                  = si.find(pc.title);
+      if (it1 != si.end()) {
         cmr.matched = true;
         auto *p2    = it1->second;
         cmr.obj     = (opt::cmd *) &(p2->update_hit_count(pc.title, 1, false));
-- 
2.43.0


From b67371e4b9c8aaeaf1e72730e0fa1403f0730fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 11/22] fix: record only the flag finally selected as hit, once

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index a9b8c72..adfc55c 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -275,17 +275,13 @@ namespace cmdr {
               amr.matched        = true;
               amr.matched_length = (int) itz.first.length();
               amr.matched_str    = itz.first;
-              is_long |= itz.second->hit_long();
-              is_special |= itz.second->hit_special();
-              amr.obj = (cmdr::opt::arg *) &(itz.second->update_hit_count(title.substr(0, itz.first.length()), 1, is_long, is_special));
+              amr.obj            = itz.second;
             }
           } else {
             amr.matched        = true;
             amr.matched_length = (int) itz.first.length();
             amr.matched_str    = itz.first;
-            is_long |= itz.second->hit_long();
-            is_special |= itz.second->hit_special();
-            amr.obj = (cmdr::opt::arg *) &(itz.second->update_hit_count(title.substr(0, itz.first.length()), 1, is_long, is_special));
+            amr.obj            = itz.second;
             break;
           }
         }
@@ -296,6 +292,13 @@ namespace cmdr {
         goto lookup_parents;
       }
     }
+
+    // only the flag selected at last is hit
+    if (amr.matched) {
+      is_long |= amr.obj->hit_long();
+      is_special |= amr.obj->hit_special();
+      amr.obj->update_hit_count(amr.matched_str, 1, is_long, is_special);
+    }
     return amr;
   }
 
-- 
2.43.0


From 169a75711e943392401a1618263579f5236b49f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 12/22] fix: keep the choice of a toggle group under the dotted
 key of its command

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index adfc55c..1f9f62b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -496,11 +496,12 @@ namespace cmdr {
 
     if (a->is_toggleable() && a->default_value()->type() == typeid(bool)) {
       auto *cc        = a->owner();
-      auto const &cck = a->dotted_key();
+      auto const &cck = cc->dotted_key();
       auto const &k   = a->toggle_group_name();
 
       for (auto *o: cc->_toggle_groups[k]) {
-        _store.set_raw_p(cck.c_str(), o->title_long().c_str(), false);
+        if (o != a)
+          _store.set_raw_p(cck.c_str(), o->title_long().c_str(), false);
       }
 
       cc->toggle_group_set(k, a);
-- 
2.43.0


From 5302e3399e4b430daf7aa6d17c1db9f638c31489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 13/22] fix: run the post-hooks exactly once, also when a
 pre-hook or a post-hook throws

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 41 +++++++++++++------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 1f9f62b..c152978 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -550,15 +550,16 @@ namespace cmdr {
     UNUSED(pc, c);
 
     int rc{0};
-    if (_global_on_pre_invoke) {
-      rc = _global_on_pre_invoke(c, remain_args);
-    }
-    if (rc == 0) {
-      if (c.on_pre_invoke()) {
-        rc = c.on_pre_invoke()(c, remain_args);
-      }
-    }
+    std::exception_ptr eptr{};
     try {
+      if (_global_on_pre_invoke) {
+        rc = _global_on_pre_invoke(c, remain_args);
+      }
+      if (rc == 0) {
+        if (c.on_pre_invoke()) {
+          rc = c.on_pre_invoke()(c, remain_args);
+        }
+      }
       if (rc == 0) {
         if (c.on_invoke()) {
           rc = c.on_invoke()(c, remain_args);
@@ -572,26 +573,28 @@ namespace cmdr {
 #endif
         }
       }
+    } catch (...) {
+      eptr = std::current_exception();
+    }
 
+    // each post-hook runs once, whatever happened before it
+    try {
       if (c.on_post_invoke()) {
         c.on_post_invoke()(c, remain_args);
       }
-      if (_global_on_post_invoke) {
-        _global_on_post_invoke(c, remain_args);
-      }
-
     } catch (...) {
-      if (c.on_post_invoke()) {
-        c.on_post_invoke()(c, remain_args);
-      }
+      if (!eptr) eptr = std::current_exception();
+    }
+    try {
       if (_global_on_post_invoke) {
         _global_on_post_invoke(c, remain_args);
       }
+    } catch (...) {
+      if (!eptr) eptr = std::current_exception();
+    }
 
-      std::exception_ptr eptr = std::current_exception();
-      if (eptr) {
-        std::rethrow_exception(eptr);
-      }
+    if (eptr) {
+      std::rethrow_exception(eptr);
     }
     return rc;
   }
-- 
2.43.0


From cbd29e29736735db6727278938436b946e69c050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 14/22] fix: an empty argument is a positional argument too

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index c152978..fb424d5 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -898,8 +898,13 @@ namespace cmdr {
         pc.index       = i;
         pc.pos         = 0;
         auto title_len = pc.title.length();
-        if (title_len == 0)
+        if (title_len == 0) {
+          // an empty argument names no flag or command: it is a positional one
+          auto &cc = pc.last_matched_cmd();
+          if (cc.valid() && cc.no_sub_commands())
+            pc.add_remain_arg(pc.title);
           continue;
+        }
 
         if (title_len >= 2 && pc.title[0] == '~' && pc.title[1] == '~') {
           // special flags
-- 
2.43.0


From 6b539f322ef5160d3152ee70326fbf1987611a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 15/22] fix: rethrow the business error as what it is instead
 of slicing it

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index fb424d5..8784e3e 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -958,7 +958,7 @@ namespace cmdr {
 
     } catch (cmdr::exception::cmdr_biz_error const &e) {
       if (_no_catch_cmdr_biz_error) {
-        throw e;
+        throw; // as what it is
       }
       CMDR_DUMP_WITHOUT_STACK_TRACE(e);
 
-- 
2.43.0


From e65fa51ea94282979f16b46a29a16634812ab8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 16/22] fix: store: has() with a prefix looks the prefixed key
 up

---
 libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
index 10a07a4..6e7bc99 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
@@ -129,7 +129,7 @@ namespace cmdr::vars {
     sk << key;
 
     std::shared_lock<std::shared_mutex> lock(mutex_);
-    auto it = _indexes.find(key);
+    auto it = _indexes.find(sk.str());
     if (it != _indexes.end()) {
       return true;
     }
-- 
2.43.0


From 43b935ed9db6d7e844a762bff4c3a2d859c6d3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 17/22] fix: reject a flag or command with a taken name before
 recording anything of it

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 44 +++++++++++------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index f64a7bd..7500f8c 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -84,6 +84,16 @@ namespace cmdr::opt {
 
   inline void cmd::add(arg const &a) {
     if (a.valid()) {
+      // nothing is recorded when one of its names is taken
+      if (!a.title_short().empty() && _short_args.find(a.title_short()) != _short_args.end())
+        cmdr_throw_as(dup_short_flag_found, &a, this);
+      if (_long_args.find(a.title_long()) != _long_args.end())
+        cmdr_throw_as(dup_long_flag_found, &a, this);
+      for (auto const &itz: a.title_aliases()) {
+        if (_long_args.find(itz) != _long_args.end())
+          cmdr_throw_as(dup_alias_flag_found, itz.c_str(), &a, this);
+      }
+
       auto gn = a.group_name();
       if (gn.empty()) {
         if (a.toggle_group_name().empty())
@@ -119,22 +129,12 @@ namespace cmdr::opt {
 #endif
       _indexed_args.insert({a.title_long(), ptr});
 
-      if (!a.title_short().empty()) {
-        if (auto const &it = _short_args.find(a.title_short()); it != _short_args.end())
-          // cmdr_throw_line(std::string("duplicated short flag found: -") + a.title_short() + std::string(" ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_short_flag_found, &a, this);
+      if (!a.title_short().empty())
         _short_args.insert({a.title_short(), ptr});
-      }
 
-      if (auto const &it = _long_args.find(a.title_long()); it != _long_args.end())
-        // cmdr_throw_line(std::string("duplicated long flag found: --") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-        cmdr_throw_as(dup_short_flag_found, &a, this);
       _long_args.insert({a.title_long(), ptr});
 
       for (auto const &itz: a.title_aliases()) {
-        if (auto const &it = _long_args.find(itz); it != _long_args.end())
-          // cmdr_throw_line(std::string("duplicated alias flag found: -") + itz + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_alias_flag_found, itz.c_str(), &a, this);
         _long_args.insert({itz, ptr});
       }
 
@@ -163,6 +163,16 @@ namespace cmdr::opt {
 
   inline void cmd::add(cmd const &a) {
     if (a.valid()) {
+      // nothing is recorded when one of its names is taken
+      if (!a.title_short().empty() && _short_commands.find(a.title_short()) != _short_commands.end())
+        cmdr_throw_as(dup_short_cmd_found, &a, this);
+      if (_long_commands.find(a.title_long()) != _long_commands.end())
+        cmdr_throw_as(dup_long_cmd_found, &a, this);
+      for (auto const &itz: a.title_aliases()) {
+        if (_long_commands.find(itz) != _long_commands.end())
+          cmdr_throw_as(dup_alias_cmd_found, itz.c_str(), &a, this);
+      }
+
       auto gn = a.group_name();
       if (gn.empty()) {
         gn = UNSORTED_GROUP;
@@ -189,20 +199,10 @@ namespace cmdr::opt {
 #endif
 
       _indexed_commands.insert({a.title_long(), ptr});
-      if (!a.title_short().empty()) {
-        if (auto const &it = _short_commands.find(a.title_short()); it != _short_commands.end())
-          // cmdr_throw_line(std::string("duplicated short command found: ") + a.title_short() + std::string(" ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_short_cmd_found, &a, this);
+      if (!a.title_short().empty())
         _short_commands.insert({a.title_short(), ptr});
-      }
-      if (auto const &it = _long_commands.find(a.title_long()); it != _long_commands.end())
-        // cmdr_throw_line(std::string("duplicated long command found: ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-        cmdr_throw_as(dup_long_cmd_found, &a, this);
       _long_commands.insert({a.title_long(), ptr});
       for (auto const &itz: a.title_aliases()) {
-        if (auto const &it = _long_commands.find(itz); it != _long_commands.end())
-          // cmdr_throw_line(std::string("duplicated alias command found: ") + itz + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_alias_cmd_found, itz.c_str(), &a, this);
         _long_commands.insert({itz, ptr});
       }
 
-- 
2.43.0


From 3eee8bb1dd6adb54d90e2f8de6db1b96ad67b823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 18/22] fix: help screen: list groups with equal sort keys, and
 wrap only when there is room

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 33 ++++++++++++++---------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 7500f8c..ce8900a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -386,9 +386,9 @@ namespace cmdr::opt {
 
   namespace detail {
 
-    inline std::map<std::string, std::string> sort_keys(types::grouped_cmd_list const &grouped_commands) {
+    inline std::multimap<std::string, std::string> sort_keys(types::grouped_cmd_list const &grouped_commands) {
       std::set<std::string> keys;
-      std::map<std::string, std::string> dotted_key_on_keys;
+      std::multimap<std::string, std::string> dotted_key_on_keys;
       auto nobody_num = std::stoi(NOBODY_GROUP_SORTER);
       for (auto &it: grouped_commands) {
         auto &title = it.first;
@@ -404,9 +404,9 @@ namespace cmdr::opt {
       return dotted_key_on_keys;
     }
 
-    inline std::map<std::string, std::string> sort_keys(types::grouped_arg_list const &grouped_args) {
+    inline std::multimap<std::string, std::string> sort_keys(types::grouped_arg_list const &grouped_args) {
       std::set<std::string> keys;
-      std::map<std::string, std::string> dotted_key_on_keys;
+      std::multimap<std::string, std::string> dotted_key_on_keys;
       auto nobody_num = std::stoi(NOBODY_GROUP_SORTER);
       for (auto &it: grouped_args) {
         keys.insert(it.first);
@@ -421,6 +421,11 @@ namespace cmdr::opt {
       return dotted_key_on_keys;
     }
 
+    // the group name without its sorting key (the text before the first dot)
+    inline std::string clean_group_name(std::string const &key, std::string const &group_name) {
+      return string::has_prefix(group_name, key + ".") ? group_name.substr(key.length() + 1) : group_name;
+    }
+
     inline auto _out_group_name(std::string const &group_name,
                                 std::string &clean_key,
                                 types::cmd_pointers const &val,
@@ -470,7 +475,7 @@ namespace cmdr::opt {
       return std::make_tuple(wf, ws, wa, w, valid_count);
     }
 
-    inline void populate_tab_stop_width(std::map<std::string, std::string> const &dotted_key_on_keys,
+    inline void populate_tab_stop_width(std::multimap<std::string, std::string> const &dotted_key_on_keys,
                                         types::grouped_cmd_list const &grouped_commands,
                                         bool show_hidden_items,
                                         int &wt) {
@@ -478,7 +483,7 @@ namespace cmdr::opt {
         auto const &val_it = grouped_commands.find(it.second);
         if (val_it == grouped_commands.end()) continue;
         auto const &val                   = val_it->second;
-        auto clean_key                    = string::has_prefix(it.second, it.first) ? it.second.substr(it.first.length() + 1) : it.second;
+        auto clean_key                    = clean_group_name(it.first, it.second);
 
         auto [wf, ws, wa, w, valid_count] = calc_widths(show_hidden_items, val);
 
@@ -535,7 +540,7 @@ namespace cmdr::opt {
       return std::make_tuple(wf, ws, wa, w, valid_count);
     }
 
-    inline void populate_tab_stop_width(std::map<std::string, std::string> const &dotted_key_on_keys,
+    inline void populate_tab_stop_width(std::multimap<std::string, std::string> const &dotted_key_on_keys,
                                         types::grouped_arg_list const &grouped_args,
                                         bool show_hidden_items,
                                         int &wt) {
@@ -543,7 +548,7 @@ namespace cmdr::opt {
         auto const &val_it = grouped_args.find(it.second);
         if (val_it == grouped_args.end()) continue;
         auto const &val                   = val_it->second;
-        auto clean_key                    = string::has_prefix(it.second, it.first) ? it.second.substr(it.first.length() + 1) : it.second;
+        auto clean_key                    = clean_group_name(it.first, it.second);
 
         auto [wf, ws, wa, w, valid_count] = calc_widths(show_hidden_items, val);
 
@@ -582,7 +587,9 @@ namespace cmdr::opt {
                                  int wt_real) {
       std::ostringstream ss;
       auto d  = desc;
-      auto rw = (std::size_t)((std::size_t)(tw <= 0 ? 1000 : tw) - wt_real - 2);
+      // no wrapping when the terminal has no room for the description column
+      auto room = (tw <= 0 ? 1000 : tw) - wt_real - 2;
+      auto rw   = room > 0 ? (std::size_t) room : std::string::npos;
       int w   = 0;
       do {
         if (w++ != 0) {
@@ -752,14 +759,14 @@ namespace cmdr::opt {
     if (shell_completion_mode) tw = 9999; // don't wrap the long line
 
     int count_all{};
-    std::map<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_commands);
+    std::multimap<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_commands);
     detail::populate_tab_stop_width(dotted_key_on_keys, _grouped_commands, show_hidden_items, wt);
 
     for (auto &it: dotted_key_on_keys) {
       auto const &val_it = _grouped_commands.find(it.second);
       if (val_it == _grouped_commands.end()) continue;
       auto const &val                   = val_it->second;
-      auto clean_key                    = string::has_prefix(it.second, it.first) ? it.second.substr(it.first.length() + 1) : it.second;
+      auto clean_key                    = detail::clean_group_name(it.first, it.second);
 
       auto [wf, ws, wa, w, valid_count] = detail::calc_widths(show_hidden_items, val);
 
@@ -856,14 +863,14 @@ namespace cmdr::opt {
     if (shell_completion_mode) tw = 9999;
 
     int count_all{};
-    std::map<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_args);
+    std::multimap<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_args);
     detail::populate_tab_stop_width(dotted_key_on_keys, _grouped_args, show_hidden_items, wt);
 
     for (auto &it: dotted_key_on_keys) {
       auto const &val_it = _grouped_args.find(it.second);
       if (val_it == _grouped_args.end()) continue;
       auto const &val                   = val_it->second;
-      auto clean_key                    = string::has_prefix(it.second, it.first) ? it.second.substr(it.first.length() + 1) : it.second;
+      auto clean_key                    = detail::clean_group_name(it.first, it.second);
 
       auto [wf, ws, wa, w, valid_count] = detail::calc_widths(show_hidden_items, val);
 
-- 
2.43.0


From d8452060ceffc49e81f2b23395bd896beb826482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 19/22] fix: store: setting an existing key to a non-const
 std::any does not wrap it in another any

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 82e1c95..70c5296 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -151,6 +151,7 @@ namespace cmdr::vars {
       // (void) v;
     }
     void emplace(std::any &&o) { _value.swap(o); }
+    void emplace(std::any &o) { _value = o; }
     void emplace(std::any const &o) { _value = o; }
 
     [[nodiscard]] target_type const &underlying_value() const { return _value; }
-- 
2.43.0


From c31a8d4af190ae3cf555485c85560b1b06e5e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:56 +0000
Subject: [PATCH 20/22] fix: const find_flag compares short titles and aliases
 with the name looked for, without its dashes

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index ce8900a..11d3b33 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -286,10 +286,10 @@ namespace cmdr::opt {
       return (*it).second;
     if (extensive) {
       for (auto itz: _indexed_args) {
-        if (itz.second->title_short() == long_title)
+        if (itz.second->title_short() == s)
           return (itz).second;
         for (auto &k: itz.second->title_aliases()) {
-          if (k == long_title)
+          if (k == s)
             return (itz).second;
         }
       }
-- 
2.43.0


From e515693a12e6d70a4e9155374fe238afe2c3c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:37 +0000
Subject: [PATCH 21/22] fix: flags combined behind a value given with '=' (or
 taken from the next argument) are looked up at the right position

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 8784e3e..0c0b570 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -110,8 +110,10 @@ namespace cmdr {
         // try solving the following input as value of this matched arg.
         auto remains          = pc.title.substr(pc.pos + amr.matched_length);
         auto remains_orig_len = remains.length();
+        std::size_t leading   = 0;
         if (remains[0] == '=') {
           remains = remains.substr(1);
+          leading = 1;
         }
         remains = string::strip_quotes(remains);
         if (remains.empty() && pc.index + 1 < argc) {
@@ -130,9 +132,9 @@ namespace cmdr {
           if (extra_argv) {
             --pc.index; // restore the parsing pointer
           }
-        } else if (read > 0) {
-          amr.matched_length += read;
-        } else if (!extra_argv) {
+        } else if (read > 0 && !extra_argv) {
+          amr.matched_length += (int) leading + read;
+        } else {
           amr.matched_length += (int) remains_orig_len;
         }
 
-- 
2.43.0


From 40f56d2044a775d4227c5c35b9b67036184ff5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:22 +0000
Subject: [PATCH 22/22] fix: a text value given to a flag is taken as a whole,
 blanks included

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 0c0b570..d8e94fc 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -121,13 +121,20 @@ namespace cmdr {
           extra_argv = true;
         }
 
-        std::stringstream sst(remains);
         opt::arg::var_type &val = amr.obj->default_value();
-        auto xb                 = sst.tellg();
-        sst >> *val.get();
-        auto xe      = sst.tellg();
-        int read     = static_cast<int>(xe - xb);
-        value_parsed = read > 0 || sst.eof();
+        int read{};
+        if ((typ == typeid(std::string) || typ == typeid(char const *)) && remains[0] != '"' && remains[0] != '\'') {
+          // a text is taken as a whole, blanks included
+          *val         = std::string(remains);
+          value_parsed = true;
+        } else {
+          std::stringstream sst(remains);
+          auto xb = sst.tellg();
+          sst >> *val.get();
+          auto xe      = sst.tellg();
+          read         = static_cast<int>(xe - xb);
+          value_parsed = read > 0 || sst.eof();
+        }
         if (!value_parsed) {
           if (extra_argv) {
             --pc.index; // restore the parsing pointer
-- 
2.43.0

