From 2651b4ceb19ac2c954e420a5e2a8171c9fc66503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:04 +0000
Subject: [PATCH 01/15] fix: keep the scheduled flush when resetting the
 configuration

Flushing the released keys can stop at a delay in the queued output.
Dropping the scheduled flush left the remaining events queued until the next input.
---
 src/server/ServerState.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index 4dde44c..1ebc678 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -106,7 +106,6 @@ void ServerState::reset_configuration(std::unique_ptr<MultiStage> stage) {
   verbose("Resetting configuration");
   m_stage = (stage ? std::move(stage) : std::make_unique<MultiStage>());
   m_virtual_keys_down.clear();
-  m_flush_scheduled_at.reset();
   m_timeout_start_at.reset();
   evaluate_device_filters();
 }
-- 
2.43.0


From 81cd3a404c8e86890bd24e20e08ba05352a0885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:04 +0000
Subject: [PATCH 02/15] fix: forget the last key event when resetting the
 configuration

Pressing a virtual key again after a reload was mistaken for a key repeat
while output was pending, so the new mapping never saw it.
---
 src/server/ServerState.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index 1ebc678..37d703b 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -106,6 +106,7 @@ void ServerState::reset_configuration(std::unique_ptr<MultiStage> stage) {
   verbose("Resetting configuration");
   m_stage = (stage ? std::move(stage) : std::make_unique<MultiStage>());
   m_virtual_keys_down.clear();
+  m_last_key_event = { };
   m_timeout_start_at.reset();
   evaluate_device_filters();
 }
-- 
2.43.0


From e25d7abe0dee09e9e6780af65e1ce7e3b5099f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:47 +0000
Subject: [PATCH 03/15] fix: saturate timeouts before narrowing them to int

Durations of more than 2^31 milliseconds wrapped around to a timeout of zero.
---
 src/runtime/Timeout.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/runtime/Timeout.h b/src/runtime/Timeout.h
index 752a18d..775ac47 100644
--- a/src/runtime/Timeout.h
+++ b/src/runtime/Timeout.h
@@ -11,9 +11,8 @@ KeyEvent::value_t duration_to_timeout(const std::chrono::duration<R, P>& duratio
   const auto milliseconds = 
     std::chrono::duration_cast<std::chrono::milliseconds>(duration);
   const auto max = (1 << KeyEvent::value_bits) - 1;
-  return static_cast<KeyEvent::value_t>(std::clamp(
-    static_cast<int>(milliseconds.count()),
-    0, max));
+  return static_cast<KeyEvent::value_t>(std::clamp<int64_t>(
+    milliseconds.count(), 0, max));
 }
 
 inline std::chrono::milliseconds timeout_to_milliseconds(KeyEvent::value_t timeout) {
-- 
2.43.0


From 213574bc5768be88fe00622c342a965570dcb655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:01:06 +0000
Subject: [PATCH 04/15] fix: release held back output when the release of its
 trigger was consumed

---
 src/runtime/Stage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/Stage.cpp b/src/runtime/Stage.cpp
index 997e35d..aec6d42 100644
--- a/src/runtime/Stage.cpp
+++ b/src/runtime/Stage.cpp
@@ -912,6 +912,10 @@ void Stage::finish_sequence(ConstKeySequenceRange sequence) {
       ++i;
       continue;
     }
+    else if (rfind_key(m_sequence, it->key) == it) {
+      // also release output of a trigger which was already released
+      release_triggered(it->key);
+    }
 
     m_sequence.erase(it);
     --length;
-- 
2.43.0


From 3e1d8eadd6ccb174cb4581260bc14c17ac09f199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:04:20 +0000
Subject: [PATCH 05/15] fix: do not keep an input timeout as trigger of output

---
 src/runtime/Stage.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime/Stage.cpp b/src/runtime/Stage.cpp
index aec6d42..d63a9d2 100644
--- a/src/runtime/Stage.cpp
+++ b/src/runtime/Stage.cpp
@@ -621,8 +621,12 @@ void Stage::apply_input(const KeyEvent event, int device_index) {
         trigger = event;
 
       // for timeouts use last key press as trigger
-      if (get_trigger_key(trigger) == Key::timeout && m_current_timeout)
-        trigger = m_current_timeout->trigger;
+      if (get_trigger_key(trigger) == Key::timeout) {
+        if (m_current_timeout)
+          trigger = m_current_timeout->trigger;
+        else
+          trigger = event;
+      }
 
       // ensure that trigger is still down
       if (!is_physically_pressed(get_trigger_key(trigger))) {
-- 
2.43.0


From 801db06c68fe08e92fc895d7b856511b37f0ceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:18:58 +0000
Subject: [PATCH 06/15] fix: forget a held back mouse wheel event after it was
 released

The Up of a wheel event carries a value, so it was not found when the
sequence was forwarded and the wheel was considered pressed forever.
---
 src/runtime/Stage.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/runtime/Stage.cpp b/src/runtime/Stage.cpp
index d63a9d2..ba1e167 100644
--- a/src/runtime/Stage.cpp
+++ b/src/runtime/Stage.cpp
@@ -22,6 +22,13 @@ namespace {
     return end(sequence);
   }
 
+  // ignores the value, since it is set for mouse wheel events
+  template<typename It>
+  It find_up(It begin, It end, Key key) {
+    return std::find_if(begin, end,
+      [&](const KeyEvent& ev) { return ev.key == key && ev.state == KeyState::Up; });
+  }
+
   template<typename It, typename T>
   bool contains(It begin, It end, const T& v) {
     return std::find(begin, end, v) != end;
@@ -763,8 +770,7 @@ void Stage::forward_from_sequence() {
   for (auto it = begin(m_sequence); it != end(m_sequence); ++it) {
     auto& event = *it;
     if (event.state == KeyState::Down || event.state == KeyState::DownMatched) {
-      const auto up = std::find(it, end(m_sequence),
-        KeyEvent{ event.key, KeyState::Up });
+      const auto up = find_up(it, end(m_sequence), event.key);
       if (up != end(m_sequence)) {
         // erase Down when Up is following
         update_output(event, event.key);
@@ -904,7 +910,7 @@ void Stage::finish_sequence(ConstKeySequenceRange sequence) {
   for (auto i = size_t{ }; i < length; ) {
     const auto it = begin(m_sequence) + i;
     if (it->state == KeyState::Down || it->state == KeyState::DownMatched) {
-      if (!contains(it, end(m_sequence), KeyEvent{ it->key, KeyState::Up })) {
+      if (find_up(it, end(m_sequence), it->key) == end(m_sequence)) {
         it->state = KeyState::DownMatched;
         ++i;
         continue;
-- 
2.43.0


From 7ff90db7fe1f9b12390988cd70e9460dae1fdf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:22:27 +0000
Subject: [PATCH 07/15] fix: remove a mouse wheel event from the history
 independent of its value

---
 src/runtime/Stage.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/runtime/Stage.cpp b/src/runtime/Stage.cpp
index ba1e167..4725475 100644
--- a/src/runtime/Stage.cpp
+++ b/src/runtime/Stage.cpp
@@ -942,8 +942,8 @@ void Stage::clean_up_history() {
     assert(event.state == KeyState::Down);
 
     // do not remove Down without Up
-    const auto up_event = KeyEvent{ event.key, KeyState::Up, event.value };
-    if (!contains(m_history, up_event))
+    const auto up = find_up(begin(m_history), end(m_history), event.key);
+    if (up == end(m_history))
       return;
 
     for (auto context_index : m_active_contexts)
@@ -956,9 +956,8 @@ void Stage::clean_up_history() {
             return;
         }
 
+    // remove Up and Down
+    m_history.erase(up);
     m_history.erase(m_history.begin());
-
-    // also remove Up
-    m_history.erase(std::find(m_history.begin(), m_history.end(), up_event));
   }
 }
-- 
2.43.0


From d5d21fcbad53d932c42d7e047f436e676f17aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:28:50 +0000
Subject: [PATCH 08/15] fix: do not shift device bits by the index of a device
 beyond the last bit

---
 src/runtime/Stage.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/Stage.cpp b/src/runtime/Stage.cpp
index 4725475..699a1be 100644
--- a/src/runtime/Stage.cpp
+++ b/src/runtime/Stage.cpp
@@ -193,7 +193,9 @@ bool Stage::device_matches_filter(const Context& context, int device_index) cons
     return true;
 
   // no-device only matches contexts with default device
-  if (device_index == no_device_index)
+  // (also when there are more devices than bits)
+  if (device_index == no_device_index ||
+      device_index >= std::numeric_limits<uint64_t>::digits)
     return (context.matching_device_bits == all_device_bits);
 
   return ((context.matching_device_bits >> device_index) & 1);
-- 
2.43.0


From e81c34f268f5b716ede5471f9184bebc78d4f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:20 +0000
Subject: [PATCH 09/15] fix: report pressed virtual keys as released when
 resetting the configuration

---
 src/server/ServerState.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index 37d703b..d18b584 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -105,6 +105,8 @@ void ServerState::reset_configuration(std::unique_ptr<MultiStage> stage) {
   flush_send_buffer();
   verbose("Resetting configuration");
   m_stage = (stage ? std::move(stage) : std::make_unique<MultiStage>());
+  for (auto key : m_virtual_keys_down)
+    m_client->send_virtual_key_state(key, KeyState::Up);
   m_virtual_keys_down.clear();
   m_last_key_event = { };
   m_timeout_start_at.reset();
-- 
2.43.0


From 688df56d76d68e58f1dbc4e4c78402bd6311d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:20 +0000
Subject: [PATCH 10/15] fix: make room for the last virtual key in the control
 port

---
 src/client/ControlPort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/ControlPort.h b/src/client/ControlPort.h
index 0540b02..84bf0a7 100644
--- a/src/client/ControlPort.h
+++ b/src/client/ControlPort.h
@@ -50,7 +50,7 @@ private:
   void disconnect_by_instance_id(const std::string& id);
 
   Host m_host;
-  std::array<bool, *Key::last_virtual - *Key::first_virtual> m_virtual_keys_down{ };
+  std::array<bool, *Key::last_virtual - *Key::first_virtual + 1> m_virtual_keys_down{ };
   std::vector<std::pair<std::string, Key>> m_virtual_key_aliases;
   std::map<Socket, Control> m_controls;
 };
-- 
2.43.0


From 059eb85877d56c1be5d15fa29b44f57fbd005a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:20 +0000
Subject: [PATCH 11/15] fix: keep current configuration when switching back to
 a broken one

---
 src/client/ClientState.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/ClientState.cpp b/src/client/ClientState.cpp
index c526f80..e1cfa71 100644
--- a/src/client/ClientState.cpp
+++ b/src/client/ClientState.cpp
@@ -116,7 +116,11 @@ bool ClientState::load_config(std::filesystem::path filename) {
   else {
     // swap with previously loaded file
     std::swap(*it, m_config_file);
-    return m_config_file.update(false);
+    if (m_config_file.update(false))
+      return true;
+    // on failure keep current configuration
+    std::swap(*it, m_config_file);
+    return false;
   }
 }
 
-- 
2.43.0


From c5fc01931db901b5301c42594f9ce89681a4166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:20 +0000
Subject: [PATCH 12/15] fix: replace logical Alt in injected key sequences

---
 src/client/ClientState.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/ClientState.cpp b/src/client/ClientState.cpp
index e1cfa71..95bc9b3 100644
--- a/src/client/ClientState.cpp
+++ b/src/client/ClientState.cpp
@@ -15,6 +15,8 @@ namespace {
         event.key = Key::ShiftLeft;
       if (event.key == Key::Control)
         event.key = Key::ControlLeft;
+      if (event.key == Key::Alt)
+        event.key = Key::AltLeft;
       if (event.key == Key::Meta)
         event.key = Key::MetaLeft;
     }
-- 
2.43.0


From 579fa85268cdaacd94d69e589fbb675bfa49095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:41:12 +0000
Subject: [PATCH 13/15] fix: ignore messages setting the state of keys which
 are not virtual

A name which is no virtual key is sent as Key::none. It was fed to the
mapping as a pressed key, where it matched Any and failed an assertion.
---
 src/server/ServerState.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index d18b584..4632e5c 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -34,7 +34,9 @@ void ServerState::set_active_contexts(const std::vector<int>& active_contexts) {
 }
 
 void ServerState::on_set_virtual_key_state_message(Key key, KeyState state) {
-  set_virtual_key_state(key, state);
+  // unknown virtual key names are sent as Key::none
+  if (is_virtual_key(key))
+    set_virtual_key_state(key, state);
   if (!m_flush_scheduled_at)
     flush_send_buffer();
 }
-- 
2.43.0


From 75a287afebdd288198e5c8b21755d8777865454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:41:14 +0000
Subject: [PATCH 14/15] fix: reject ContextActive following a question mark

The input was left with nothing but the question mark, so matching it
with the history failed an assertion.
---
 src/config/ParseKeySequence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/ParseKeySequence.cpp b/src/config/ParseKeySequence.cpp
index 851789b..5e66ed3 100644
--- a/src/config/ParseKeySequence.cpp
+++ b/src/config/ParseKeySequence.cpp
@@ -274,7 +274,7 @@ void ParseKeySequence::check_ContextActive_usage() {
   if (it != m_sequence.end()) {
     if (!m_is_input)
       throw ParseError("ContextActive is only allowed in input");
-    if (m_sequence.size() != 2)
+    if (m_sequence.size() != 2 || it != m_sequence.begin())
       throw ParseError("ContextActive can only be used alone");
     m_sequence.pop_back();
   }
-- 
2.43.0


From 20236e42ae072c6a84f68db6f3cd464e132f241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:11:55 +0000
Subject: [PATCH 15/15] fix: limit numbers in expressions instead of
 overflowing

---
 src/config/string_iteration.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/config/string_iteration.h b/src/config/string_iteration.h
index 6f1b321..af9dcd5 100644
--- a/src/config/string_iteration.h
+++ b/src/config/string_iteration.h
@@ -2,6 +2,7 @@
 
 #include <string>
 #include <cctype>
+#include <limits>
 #include <optional>
 #include <stdexcept>
 
@@ -150,8 +151,13 @@ template<typename ForwardIt>
 std::optional<int> try_read_number(ForwardIt* it, ForwardIt end) {
   const auto begin = *it;
   auto number = 0;
-  for (; *it != end && **it >= '0' && **it <= '9'; ++*it)
-    number = number * 10 + (**it - '0');
+  for (; *it != end && **it >= '0' && **it <= '9'; ++*it) {
+    // limit to the largest number
+    if (number > (std::numeric_limits<int>::max() - (**it - '0')) / 10)
+      number = std::numeric_limits<int>::max();
+    else
+      number = number * 10 + (**it - '0');
+  }
   return (*it != begin ? std::make_optional(number) : std::nullopt);
 }
 
-- 
2.43.0

