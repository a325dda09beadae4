From e7cfc2882afae44a711a2ccee27ec4c7af5e1a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:45:46 +0000
Subject: [PATCH] fix: visit every matchable pegged order behind skipped ones

After skipping a pegged order without a representable price, the book iterator
peeked one order behind its position and dropped a matchable order.
---
 programs/openbook-v2/src/state/orderbook/bookside_iterator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs b/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
index 587b60c..7a7992f 100644
--- a/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
+++ b/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
@@ -179,7 +179,8 @@ impl<'a> Iterator for BookSideIter<'a> {
                 if oracle_pegged_price(oracle_price_lots, o_node, side).0 != OrderState::Skipped {
                     break;
                 }
-                o_peek = self.oracle_pegged_iter.next()
+                self.oracle_pegged_iter.next();
+                o_peek = self.oracle_pegged_iter.peek();
             }
             o_peek
         } else {
-- 
2.43.0

