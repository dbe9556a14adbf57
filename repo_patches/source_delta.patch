From ae0d05eae7365f4852005d4641ec2a210f92966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:42 +0000
Subject: [PATCH] fix: refuse subscriptions whose slot sum exceeds the
 subscription state's counter

---
 .../com/impl/bindings/lola/event_subscription_control.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/impl/bindings/lola/event_subscription_control.cpp b/score/mw/com/impl/bindings/lola/event_subscription_control.cpp
index 7bf0af3..33c1227 100644
--- a/score/mw/com/impl/bindings/lola/event_subscription_control.cpp
+++ b/score/mw/com/impl/bindings/lola/event_subscription_control.cpp
@@ -14,6 +14,8 @@
 #include "score/language/safecpp/safe_math/safe_math.h"
 #include "score/mw/log/logging.h"
 
+#include <limits>
+
 namespace score::mw::com::impl::lola
 {
 namespace
@@ -86,7 +88,11 @@ auto EventSubscriptionControl<AtomicIndirectorType>::Subscribe(SlotNumberType sl
             return SubscribeResult::kMaxSubscribersOverflow;
         }
         SlotNumberType current_subscribed_slots = GetSubscribedSamplesFromState(current_state);
-        if ((enforce_max_samples_) && ((current_subscribed_slots + slot_count) > max_subscribable_slots_))
+        // Even if the configured maximum is not enforced, the sum of the subscribed slots must not exceed what the
+        // subscription state can count.
+        const SlotNumberType slot_limit =
+            enforce_max_samples_ ? max_subscribable_slots_ : std::numeric_limits<SlotNumberType>::max();
+        if ((current_subscribed_slots + slot_count) > slot_limit)
         {
             mw::log::LogInfo("lola")
                 << "EventSubscriptionControl<>::Subscribe() rejected as max_subscribable_slots_ would overflow.";
-- 
2.43.0

