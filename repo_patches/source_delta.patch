From 34bf6f353870bf041ced8316e7ee79d304107091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 01/46] fix: Level::clear resets the total quantity together
 with the orders

---
 trading-engine/src/orderbook/level.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trading-engine/src/orderbook/level.rs b/trading-engine/src/orderbook/level.rs
index 0661932..470bf81 100644
--- a/trading-engine/src/orderbook/level.rs
+++ b/trading-engine/src/orderbook/level.rs
@@ -116,6 +116,7 @@ impl Level {
     #[inline]
     pub fn clear(&mut self) {
         self.orders.clear();
+        self.total_quantity = 0;
     }
 
     /// Returns (all_traded_id, remaining quantity, total quantity remained in the level)
-- 
2.43.0


From 86b4a24e788e3c10d04efeb6d7fe22401c592007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 02/46] fix: do not subtract a traded quantity twice from a bid
 level on a market order

---
 trading-engine/src/orderbook/half_book.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 509c03a..a412f12 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -638,7 +638,6 @@ impl HalfBook {
             if traded_qty > 0 {
                 traded_res.push(*price, traded_qty);
                 self.total_quantity -= traded_qty;
-                level.total_quantity -= traded_qty;
             }
 
             if level_rem == 0 { remove_prices.push(*price) }
-- 
2.43.0


From 7c9d111042dc78def3aad7bf563061580e19dc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 03/46] fix: changing an order quantity to zero removes the
 order from the book

---
 trading-engine/src/orderbook/half_book.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index a412f12..672694f 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -521,6 +521,9 @@ impl HalfBook {
         new_quantity: BookQuantity,
     ) -> Option<()> {        
         if let Some(price) = self.cache.get(&order_id) {
+            if new_quantity == 0 { // nothing is left of the order
+                return self.cancel_order(order_id)
+            }
             if let Some(level) = self.levels.get_mut(price) {
                 if let Some(original_qty) = level.change_quantity(order_id, new_quantity) {
                     self.total_quantity -= original_qty;
-- 
2.43.0


From 1796ef3051a9dcb17ff5308e336416abbba32942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 04/46] fix: default half books and order books start
 consistent (side and best price)

---
 trading-engine/src/orderbook/half_book.rs | 8 +++++++-
 trading-engine/src/orderbook/mod.rs       | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 672694f..241c92b 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -19,7 +19,7 @@ use std::collections::{
     hash_map::Entry as HmEntry,
 };
     
-#[derive(Debug, Clone, Default, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub struct HalfBook {
     pub order_side: OrderSide,
     // wow! this can be gigantic
@@ -30,6 +30,12 @@ pub struct HalfBook {
     total_quantity: BookQuantity,
 }
 
+impl Default for HalfBook {
+    fn default() -> Self {
+        HalfBook::initialize(OrderSide::default())
+    }
+}
+
 impl HalfBook {
     #[must_use]
     pub fn eq_level(&self, other: &HalfBook) -> bool {
diff --git a/trading-engine/src/orderbook/mod.rs b/trading-engine/src/orderbook/mod.rs
index 951deef..9163d5d 100644
--- a/trading-engine/src/orderbook/mod.rs
+++ b/trading-engine/src/orderbook/mod.rs
@@ -36,7 +36,7 @@ use anyhow::{
     Context,
 };
 
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct OrderBook {
     pub asks: HalfBook,
     pub bids: HalfBook,
@@ -46,6 +46,12 @@ pub struct OrderBook {
     system_time: TimeStamp,
 }
 
+impl Default for OrderBook {
+    fn default() -> Self {
+        OrderBook::initialize_with_id(InstId::default())
+    }
+}
+
 impl OrderBook {
     #[inline]
     #[must_use]
-- 
2.43.0


From 3ee333ca22af86c933f7bc1c20ef201619a99e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 05/46] fix: to_u64 reads the digits that follow the sign and
 unused bytes, not a shorter slice

---
 trading-engine/src/utils/numeric_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index f806dcb..1153ff4 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -359,7 +359,7 @@ impl IntegerConverter {
             numcfg.decimal_point_length
         };
 
-        let end_index = all_digit_size;
+        let end_index = start_index + all_digit_size;
 
         let parser = match all_digit_size {
             0..=8 => parse_under8_with_floating_point,
-- 
2.43.0


From 71459aebd84f940b05f3c45dbe8a061061f722b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 06/46] fix: a digit string of length zero parses to zero
 instead of overflowing the shift

---
 trading-engine/src/utils/numeric_converter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index 1153ff4..a39d7ef 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -266,7 +266,8 @@ pub fn parse_under8(u: &[u8], length: usize) -> u64 {
         "parse_under8: length must be less than or equal to 8"
     );
     let mut chunk: u64 = unsafe { read_unaligned(u.as_ptr() as *const u64) };
-    chunk <<= 64 - (length * 8);
+    // no digits at all leaves nothing of the chunk
+    chunk = chunk.checked_shl((64 - length * 8) as u32).unwrap_or(0);
     u8_chunk_to_u64_decimal(chunk)
 }
 
@@ -277,7 +278,8 @@ pub fn parse_under16(u: &[u8], length: usize) -> u128 {
         "parse_under16: length must be less than or equal to 16"
     );
     let mut chunk: u128 = unsafe { read_unaligned(u.as_ptr() as *const u128) };
-    chunk <<= 128 - (length * 8);
+    // no digits at all leaves nothing of the chunk
+    chunk = chunk.checked_shl((128 - length * 8) as u32).unwrap_or(0);
     u8_chunk_to_u128_decimal(chunk)
 }
 
-- 
2.43.0


From 96e6b984a2f401897efe83261a2d548b7c8eb3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 07/46] fix: IFMSRPD0036 reads the signed trade price with its
 sign and decimal point

---
 trading-engine/src/data/krx/derivative_trade.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 6907407..4432e17 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -789,9 +789,8 @@ impl IFMSRPD0036 {
             date_gen,
         )?;
 
-        let trade_price = unsafe { 
-            converter.to_book_price_unchecked(&payload[self.trade_price_slice.start..self.trade_price_slice.end])
-        };
+        let trade_price = converter
+            .to_book_price(&payload[self.trade_price_slice.start..self.trade_price_slice.end]);
 
         let trade_quantity = unsafe {
             converter.to_book_quantity_unchecked(&payload[self.trade_quantity_slice.start..self.trade_quantity_slice.end])
-- 
2.43.0


From 040d408fd508a3d3890fa0976e2fb4b1ced8bd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 08/46] fix: the unchecked readers skip a layout's sign and
 unused bytes (stock prices lost their last two digits)

---
 trading-engine/src/utils/numeric_converter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index a39d7ef..1dd0ca7 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -411,21 +411,21 @@ impl IntegerConverter {
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_u64_unchecked(&self, value: &[u8]) -> u64 {
-        parse_under16(value, self.parsing_length) as u64
+        parse_under16(&value[self.start_index..], self.parsing_length) as u64
     }
 
     /// # Safety
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_long_u64_unchecked(&self, value: &[u8]) -> u64 {
-        parse_under32(value, self.parsing_length) as u64
+        parse_under32(&value[self.start_index..], self.parsing_length) as u64
     }
 
     /// # Safety
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_u32_unchecked(&self, value: &[u8]) -> u32 {
-        parse_under8(value, self.parsing_length) as u32
+        parse_under8(&value[self.start_index..], self.parsing_length) as u32
     }
 
     #[inline(always)]
-- 
2.43.0


From a4300f7592e0191d415f631bf82570db086983c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 09/46] fix: a payload of the wrong length or with non-UTF-8
 bytes is an error, not a panic

---
 trading-engine/src/data/checker.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/data/checker.rs b/trading-engine/src/data/checker.rs
index b9843d3..690b39f 100644
--- a/trading-engine/src/data/checker.rs
+++ b/trading-engine/src/data/checker.rs
@@ -25,7 +25,7 @@ pub trait Checker {
                 tr_name,
                 size_checker,
                 payload.len(),
-                std::str::from_utf8(&payload[..(size_checker - 1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -36,7 +36,7 @@ pub trait Checker {
                 message: {:?}",
                 tr_name,
                 payload[size_checker - 1],
-                std::str::from_utf8(&payload[..(size_checker - 1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -53,7 +53,7 @@ pub trait Checker {
                 self.as_str(),
                 self.get_quote_level_cut(),
                 buffer.ask_quote_data.len(),
-                std::str::from_utf8(&payload[..(self.get_payload_length()-1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -70,7 +70,7 @@ pub trait Checker {
                 self.as_str(),
                 self.get_quote_level_cut(),
                 buffer.ask_quote_data.len(),
-                std::str::from_utf8(&payload[..(self.get_payload_length()-1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
-- 
2.43.0


From 3dde27c8eba0d4f627c4d463f356e7a3b1d89712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 10/46] fix: filling a snapshot buffer sets how many of its
 levels are in use

---
 trading-engine/src/data/krx/derivative_quote.rs | 2 ++
 trading-engine/src/data/krx/derivative_trade.rs | 2 ++
 trading-engine/src/data/krx/stock_quote.rs      | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/trading-engine/src/data/krx/derivative_quote.rs b/trading-engine/src/data/krx/derivative_quote.rs
index 58fd109..e17e647 100644
--- a/trading-engine/src/data/krx/derivative_quote.rs
+++ b/trading-engine/src/data/krx/derivative_quote.rs
@@ -228,6 +228,7 @@ impl IFMSRPD0034 {
         let quote_level_cut = self.quote_level_cut;
         let quote_start_index = self.quote_start_index;
 
+        buffer.quote_level_cut = self.quote_level_cut;
         parse_unroll_with_buffer!(
             quote_level_cut,
             quote_start_index,
@@ -475,6 +476,7 @@ impl IFMSRPD0035 {
         let quote_level_cut = self.quote_level_cut;
         let quote_start_index = self.quote_start_index;
 
+        buffer.quote_level_cut = self.quote_level_cut;
         parse_unroll_with_buffer!(
             quote_level_cut,
             quote_start_index,
diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 4432e17..e1270ad 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -325,6 +325,7 @@ impl IFMSRPD0037 {
 
         // sell_price => buy_price => sell_quantity => buy_quantity => sell_order_count => buy_order_count
         let offset = pr_ln * 2 + qn_ln * 2 + or_ln * 2;
+        data_buffer.quote_level_cut = self.quote_level_cut;
         parse_unroll_with_buffer!(
             self.quote_level_cut,
             self.quote_start_index,
@@ -659,6 +660,7 @@ impl IFMSRPD0038 {
         let quote_level_cut = self.quote_level_cut;
         let quote_start_index = self.quote_start_index;
         // sell_price => buy_price => sell_quantity => buy_quantity => sell_order_count => buy_order_count
+        data_buffer.quote_level_cut = self.quote_level_cut;
         parse_unroll_with_buffer!(
             quote_level_cut,
             quote_start_index,
diff --git a/trading-engine/src/data/krx/stock_quote.rs b/trading-engine/src/data/krx/stock_quote.rs
index 02f5d0e..ef11bc6 100644
--- a/trading-engine/src/data/krx/stock_quote.rs
+++ b/trading-engine/src/data/krx/stock_quote.rs
@@ -236,6 +236,7 @@ impl IFMSRPD0002 {
         let offset = pr_ln * 2 + qn_ln * 2;
         let quote_level_cut = self.quote_level_cut;
         let quote_start_index = self.quote_start_index;
+        buffer.quote_level_cut = self.quote_level_cut;
         parse_unroll_unchecked_price_no_count_no_lp_quantity_with_buffer!(
             quote_level_cut,
             quote_start_index,
@@ -471,6 +472,7 @@ impl IFMSRPD0003 {
         let offset = pr_ln * 2 + qn_ln * 4;
         let quote_level_cut = self.quote_level_cut;
         let quote_start_index = self.quote_start_index;
+        buffer.quote_level_cut = self.quote_level_cut;
         parse_unroll_unchecked_price_no_count_with_lp_quantity_with_buffer!(
             quote_level_cut,
             quote_start_index,
-- 
2.43.0


From c9b8d42723a6b2ecbc9433956e6caf9d3f2ffddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 11/46] fix: IFMSRPD0038 buffers take the converter that
 matches the message's prices

---
 trading-engine/src/data/krx/derivative_trade.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index e1270ad..f3bfca9 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -621,6 +621,9 @@ impl IFMSRPD0038 {
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
 
+        data_buffer.order_converter = converter;
+        data_buffer.order_counter = order_counter;
+
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
         let or_ln = order_counter.order_count.get_config().total_length;
-- 
2.43.0


From 78eca02efba1fb94d7b9f1c420891c1102e2922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:51 +0000
Subject: [PATCH 12/46] fix: a ticker that is not UTF-8 is refused (as_str
 reads it unchecked as text)

---
 trading-engine/src/types/id/ticker.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trading-engine/src/types/id/ticker.rs b/trading-engine/src/types/id/ticker.rs
index 2b95568..56c51d8 100644
--- a/trading-engine/src/types/id/ticker.rs
+++ b/trading-engine/src/types/id/ticker.rs
@@ -30,6 +30,10 @@ impl Ticker {
             let err = || anyhow!("Ticker(={:?}) length should be less than 32", from_utf8(bytes));
             return Err(err());
         }
+        if from_utf8(bytes).is_err() {
+            let err = || anyhow!("Ticker(={:?}) should be valid UTF-8", bytes);
+            return Err(err());
+        }
         let mut ticker = [0u8; 32];
         ticker[..bytes.len()].copy_from_slice(bytes);
         Ok(Ticker { ticker })
-- 
2.43.0


From f4f478b042fd8b25a2f2d34afad7df4c2048bf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 13/46] fix: a book is updated from the levels a snapshot uses,
 not from its whole buffer

---
 trading-engine/src/orderbook/half_book.rs | 2 +-
 trading-engine/src/orderbook/mod.rs       | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 241c92b..f959a43 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -88,7 +88,7 @@ impl HalfBook {
     /// So if there is a new order, it will reuse the existing orders
     pub fn update_l2_snapshot(
         &mut self, 
-        level_snapshot: &Vec<LevelSnapshot>,
+        level_snapshot: &[LevelSnapshot],
         mock_counter: &mut VirtualOrderId,
     ) -> Result<()> {
         let price_vec: Vec<BookPrice> = level_snapshot.iter().map(|x| x.book_price).collect();
diff --git a/trading-engine/src/orderbook/mod.rs b/trading-engine/src/orderbook/mod.rs
index 9163d5d..d86f7ef 100644
--- a/trading-engine/src/orderbook/mod.rs
+++ b/trading-engine/src/orderbook/mod.rs
@@ -125,9 +125,9 @@ impl OrderBook {
     #[inline]
     pub fn update_from_quote_snapshot(&mut self, quote: &QuoteSnapshot) -> Result<()> {
         self.check_id(quote.id)?;
-        self.asks.update_l2_snapshot(&quote.ask_quote_data, &mut self.virtual_id_counter)
+        self.asks.update_l2_snapshot(quote.effective_ask_data(), &mut self.virtual_id_counter)
             .context("Failed to update ask side by level snapshot")?;
-        self.bids.update_l2_snapshot(&quote.bid_quote_data, &mut self.virtual_id_counter)
+        self.bids.update_l2_snapshot(quote.effective_bid_data(), &mut self.virtual_id_counter)
             .context("Failed to update bid side by level snapshot")?;
 
         Ok(())
@@ -137,9 +137,9 @@ impl OrderBook {
     pub fn update_from_trade_quote_snapshot(&mut self, trade_quote: &TradeQuoteSnapshot) -> Result<()> {
         self.check_id(trade_quote.id)?;
         
-        self.asks.update_l2_snapshot(&trade_quote.ask_quote_data, &mut self.virtual_id_counter)
+        self.asks.update_l2_snapshot(trade_quote.effective_ask_data(), &mut self.virtual_id_counter)
             .context("Failed to update ask side by level snapshot")?;
-        self.bids.update_l2_snapshot(&trade_quote.bid_quote_data, &mut self.virtual_id_counter)
+        self.bids.update_l2_snapshot(trade_quote.effective_bid_data(), &mut self.virtual_id_counter)
             .context("Failed to update bid side by level snapshot")?;
 
         Ok(())
-- 
2.43.0


From ee3210525617d265a9194d0647d0d934be1e1bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:44 +0000
Subject: [PATCH 14/46] fix: DataSpinQueue::default owns a value, so dropping
 it no longer frees a null pointer

---
 trading-engine/src/spinqueue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/spinqueue.rs b/trading-engine/src/spinqueue.rs
index acaeb98..4949783 100644
--- a/trading-engine/src/spinqueue.rs
+++ b/trading-engine/src/spinqueue.rs
@@ -64,7 +64,7 @@ where T: Clone + Debug + Default
 {
     fn default() -> Self {
         DataSpinQueue {
-            data_buffer: AtomicPtr::default(),
+            data_buffer: AtomicPtr::new(Box::into_raw(Box::new(T::default()))),
             worker_status: WorkerStatus::new(0),
             full_status: 0,
             //workers: Vec::new(),
-- 
2.43.0


From e53beed323fdcd9e7ae9266f4be7697f9f8b81ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:44 +0000
Subject: [PATCH 15/46] fix: is_ndarray_sorted accepts an empty array instead
 of underflowing

---
 quantlib/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/util.rs b/quantlib/src/util.rs
index b77ed7d..1926681 100644
--- a/quantlib/src/util.rs
+++ b/quantlib/src/util.rs
@@ -32,7 +32,7 @@ pub fn is_ndarray_sorted<T>(arr: &Array1<T>) -> bool
 where
     T: PartialOrd,
 {
-    for i in 0..arr.len() - 1 {
+    for i in 0..arr.len().saturating_sub(1) {
         if arr[i] > arr[i + 1] {
             return false;
         }
-- 
2.43.0


From 8b1786731bf5d5c77fe5df67d779f31b3aabdd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:44 +0000
Subject: [PATCH 16/46] fix: LinearInterpolator1D::new refuses a domain too
 short to interpolate on

---
 quantlib/src/math/interpolators/linear_interpolator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantlib/src/math/interpolators/linear_interpolator.rs b/quantlib/src/math/interpolators/linear_interpolator.rs
index 4eb1b54..faa4df7 100644
--- a/quantlib/src/math/interpolators/linear_interpolator.rs
+++ b/quantlib/src/math/interpolators/linear_interpolator.rs
@@ -43,6 +43,11 @@ impl LinearInterpolator1D {
             message.push_str(&format!("\nvalue: {:?}", value));
             return Err(anyhow!(message));
         }
+        // a line needs two nodes, anything else at least one
+        let least = if extrapolation_type == ExtraPolationType::Linear { 2 } else { 1 };
+        if n < least {
+            return Err(anyhow!("domain must have at least {} element(s)", least));
+        }
         // the domain must be sorted
         if !is_ndarray_sorted(&domain) {
             return Err(anyhow!("domain must be sorted: \n{:?}", &domain));
-- 
2.43.0


From 0691c5b47f1f2f7ce53d3f765e1b6700484b6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:44 +0000
Subject: [PATCH 17/46] fix: BilinearInterpolator::new refuses a t_domain too
 short to interpolate on

---
 quantlib/src/math/interpolators/bilinear_interpolator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantlib/src/math/interpolators/bilinear_interpolator.rs b/quantlib/src/math/interpolators/bilinear_interpolator.rs
index 91c1c22..59f8887 100644
--- a/quantlib/src/math/interpolators/bilinear_interpolator.rs
+++ b/quantlib/src/math/interpolators/bilinear_interpolator.rs
@@ -46,6 +46,11 @@ impl BilinearInterpolator {
                 x_interpolator
             ));
         }
+        // a line needs two nodes, anything else at least one
+        let least = if t_domain_extrapolation_type == ExtraPolationType::Linear { 2 } else { 1 };
+        if n < least {
+            return Err(anyhow!("t_domain must have at least {} element(s)", least));
+        }
         if !is_ndarray_sorted(&t_domain) {
             return Err(anyhow!(
                 "({}:{}) t_domain must be sorted: \n{:?}",
-- 
2.43.0


From 37de9e52003702f680d255b3f44713b962711d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:44 +0000
Subject: [PATCH 18/46] fix: BilinearInterpolator::new_from_rectangle_data
 refuses an unsorted t_domain

---
 quantlib/src/math/interpolators/bilinear_interpolator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantlib/src/math/interpolators/bilinear_interpolator.rs b/quantlib/src/math/interpolators/bilinear_interpolator.rs
index 59f8887..10f1e44 100644
--- a/quantlib/src/math/interpolators/bilinear_interpolator.rs
+++ b/quantlib/src/math/interpolators/bilinear_interpolator.rs
@@ -113,6 +113,14 @@ impl BilinearInterpolator {
                 values
             ));
         }
+        if !is_ndarray_sorted(&t_domain) {
+            return Err(anyhow!(
+                "({}:{}) t_domain must be sorted: \n{:?}",
+                file!(),
+                line!(),
+                &t_domain
+            ));
+        }
         let mut x_interpolator: Vec<LinearInterpolator1D> = Vec::new();
         for i in 0..n {
             /*
-- 
2.43.0


From 31552bb32ad60af675fe8d57c077ce66406f27be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:44 +0000
Subject: [PATCH 19/46] fix: StepwiseInterpolator1D vectorized search
 extrapolates like the single search

---
 quantlib/src/math/interpolators/stepwise_interpolatior.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/math/interpolators/stepwise_interpolatior.rs b/quantlib/src/math/interpolators/stepwise_interpolatior.rs
index 47bc822..ddad4d5 100644
--- a/quantlib/src/math/interpolators/stepwise_interpolatior.rs
+++ b/quantlib/src/math/interpolators/stepwise_interpolatior.rs
@@ -117,7 +117,11 @@ where
                         x[{}] = {}, domain = [{}, {}]",
                         i, x[i], left_bound, right_bound));
                 }
-                result[i] = self.value[index[i]];
+                result[i] = if x[i] < left_bound || x[i] > right_bound {
+                    self.interpolate(x[i])?
+                } else {
+                    self.value[index[i]]
+                };
             }
         }
         Ok(result)
-- 
2.43.0


From d0f04c018b282d69c882147c750076e1f48533db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:44 +0000
Subject: [PATCH 20/46] fix: is_good_friday reads the Easter table of the
 calendar asked for

---
 quantlib/src/time/holiday.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/time/holiday.rs b/quantlib/src/time/holiday.rs
index ff4f9bc..20a9b86 100644
--- a/quantlib/src/time/holiday.rs
+++ b/quantlib/src/time/holiday.rs
@@ -28,9 +28,9 @@ pub trait Holidays {
         }
 
         if is_orthodox {
-            dd == EASTER_MONDAYS[0][year as usize - FIRST_EASTER_MONDAY] - 3
-        } else {
             dd == EASTER_MONDAYS[1][year as usize - FIRST_EASTER_MONDAY] - 3
+        } else {
+            dd == EASTER_MONDAYS[0][year as usize - FIRST_EASTER_MONDAY] - 3
         }
     }
 }
-- 
2.43.0


From d711b02792cf00edff3e4eb08b29a3e9d695c27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:44 +0000
Subject: [PATCH 21/46] fix: Korean last business day of the year uses its
 table up to 2100

---
 quantlib/src/time/calendars/southkorea.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/time/calendars/southkorea.rs b/quantlib/src/time/calendars/southkorea.rs
index 72683c6..ceaa0de 100644
--- a/quantlib/src/time/calendars/southkorea.rs
+++ b/quantlib/src/time/calendars/southkorea.rs
@@ -484,7 +484,7 @@ impl Holidays for SouthKoreaType {
         let month = date.month();
         let day = date.day();
 
-        if !(1951..=2050).contains(&year) {
+        if !(1951..=2100).contains(&year) {
             warn!(
                 "Last business day of the year is not implemented for the year {}",
                 year
-- 
2.43.0


From 82aac40ae45db9a927c586cc9109234f8b3e0d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:59 +0000
Subject: [PATCH 22/46] fix: LinearInterpolator1D answers at its last node
 without extrapolation

---
 quantlib/src/math/interpolators/linear_interpolator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantlib/src/math/interpolators/linear_interpolator.rs b/quantlib/src/math/interpolators/linear_interpolator.rs
index faa4df7..d7619a2 100644
--- a/quantlib/src/math/interpolators/linear_interpolator.rs
+++ b/quantlib/src/math/interpolators/linear_interpolator.rs
@@ -97,6 +97,9 @@ impl InterpolatorReal1D for LinearInterpolator1D {
                 ));
             }
         }
+        if x == self.domain[n - 1] {
+            return Ok(self.value[n - 1]);
+        }
         if x >= self.domain[n - 1] {
             if self.allow_extrapolation {
                 if self.extrapolation_type == ExtraPolationType::Flat {
@@ -159,6 +162,8 @@ impl InterpolatorReal1D for LinearInterpolator1D {
                         x[i]
                     ));
                 }
+            } else if x[i] == self.domain[domain_n - 1] {
+                result[i] = self.value[domain_n - 1];
             } else if x[i] >= self.domain[domain_n - 1] {
                 if self.allow_extrapolation {
                     if self.extrapolation_type == ExtraPolationType::Flat {
-- 
2.43.0


From d5ec4e43d1a44b45c9496ebaef1231fe79a4dd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:59 +0000
Subject: [PATCH 23/46] fix: BilinearInterpolator answers at its last t node
 without extrapolation

---
 quantlib/src/math/interpolators/bilinear_interpolator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantlib/src/math/interpolators/bilinear_interpolator.rs b/quantlib/src/math/interpolators/bilinear_interpolator.rs
index 10f1e44..434a43c 100644
--- a/quantlib/src/math/interpolators/bilinear_interpolator.rs
+++ b/quantlib/src/math/interpolators/bilinear_interpolator.rs
@@ -178,6 +178,8 @@ impl BilinearInterpolator {
                     self.t_domain
                 ))
             }
+        } else if t == self.t_domain[n - 1] {
+            self.x_interpolator[n - 1].interpolate(x)
         } else if t >= self.t_domain[n - 1] {
             if self.t_domain_allow_extrapolation {
                 match self.t_domain_extrapolation_type {
-- 
2.43.0


From 85881e4a84c9dfb270375971213cbdedddf8b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:12 +0000
Subject: [PATCH 24/46] fix: subtracting more than a year of months from a
 moment lands in the right year

---
 quantlib/src/utils/string_arithmetic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/utils/string_arithmetic.rs b/quantlib/src/utils/string_arithmetic.rs
index 32ed152..20a711c 100644
--- a/quantlib/src/utils/string_arithmetic.rs
+++ b/quantlib/src/utils/string_arithmetic.rs
@@ -194,8 +194,8 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
             "M" => {
                 let month_i32 = from_month_to_i32(new_datetime.month());
                 let year = new_datetime.year();
-                let new_month = from_i32_to_month((month_i32 - value as i32 + 120000000) % 12);
-                let new_year = year - 1 + (month_i32 - value as i32 + 12) / 12;
+                let new_month = from_i32_to_month((month_i32 - value as i32).rem_euclid(12));
+                let new_year = year + (month_i32 - value as i32).div_euclid(12);
                 let eom_new = NullCalendar::default()
                     .last_day_of_month(new_year, new_month)
                     .day();
-- 
2.43.0


From 03860aef1f8027d7a49cf1edd12da3c4543c71ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:24 +0000
Subject: [PATCH 25/46] fix: a year or month step keeps the hours added before
 it

---
 quantlib/src/utils/string_arithmetic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantlib/src/utils/string_arithmetic.rs b/quantlib/src/utils/string_arithmetic.rs
index 20a711c..4cc3f7c 100644
--- a/quantlib/src/utils/string_arithmetic.rs
+++ b/quantlib/src/utils/string_arithmetic.rs
@@ -117,7 +117,7 @@ pub fn add_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -136,7 +136,7 @@ pub fn add_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -187,7 +187,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -206,7 +206,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
-- 
2.43.0


From 7b4a29ed25e24c752e6a8cff3ddb4efea480948d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:27 +0000
Subject: [PATCH 26/46] fix: street day count from a 31st to a 31st is whole
 months

---
 quantlib/src/time/calendar_trait.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index 9930ad2..ed66089 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -237,9 +237,7 @@ pub trait CalendarTrait {
                 days += 30 * (month_upto as i32 - month_from as i32);
                 days += day_upto as i32 - day_from as i32;
                 if day_from == 31 {
-                    if day_upto == 31 {
-                        days -= 30;
-                    } else {
+                    if day_upto != 31 {
                         days += 1;
                     }
                 }
-- 
2.43.0


From 609cd8c4822c8234aeb38713db45d3b0d73e008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:27 +0000
Subject: [PATCH 27/46] fix: ACT/ACT ISDA splits the period at the new year

---
 quantlib/src/time/calendar_trait.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index ed66089..812c24e 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -211,16 +211,15 @@ pub trait CalendarTrait {
                         let days = if end_year == start_year {
                             (*end_date - *start_date).whole_days() as Time
                         } else {
-                            let last_day_of_year =
-                                Date::from_calendar_date(year, Month::December, 31).unwrap();
-                            (last_day_of_year - start_date.date()).whole_days() as Time
+                            let first_day_of_next_year =
+                                Date::from_calendar_date(year + 1, Month::January, 1).unwrap();
+                            (first_day_of_next_year - start_date.date()).whole_days() as Time
                         };
                         frac += days / days_in_year;
                     } else if year == end_year {
-                        let last_day_of_previous_year =
-                            Date::from_calendar_date(year - 1, Month::December, 31).unwrap();
-                        let days =
-                            (end_date.date() - last_day_of_previous_year).whole_days() as Time;
+                        let first_day_of_year =
+                            Date::from_calendar_date(year, Month::January, 1).unwrap();
+                        let days = (end_date.date() - first_day_of_year).whole_days() as Time;
                         frac += days / days_in_year;
                     } else {
                         frac += 1.0; // Full year
-- 
2.43.0


From aa98971eba633ee9a9bf27c2d82bba59162e1277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:51 +0000
Subject: [PATCH 28/46] fix: a schedule of one period ends at maturity

---
 quantlib/src/instruments/schedule.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/quantlib/src/instruments/schedule.rs b/quantlib/src/instruments/schedule.rs
index 2418c74..b690013 100644
--- a/quantlib/src/instruments/schedule.rs
+++ b/quantlib/src/instruments/schedule.rs
@@ -164,23 +164,26 @@ pub fn build_schedule(
     let mut calc_end_date: OffsetDateTime;
     let mut payment_date: OffsetDateTime;
     for i in 0..schedule_length {
-        if i == 0 {
-            calc_start_date = *effective_date;
-            calc_end_date = calc_start_date_vec[i + 1];
+        if i == schedule_length - 1 {
+            calc_start_date = match i {
+                0 => *effective_date,
+                _ => calc_start_date_vec[i],
+            };
+            calc_end_date = *maturity;
             fixing_date = calendar.adjust(
                 &(calc_start_date - Duration::days(fixing_gap_days)),
                 &BusinessDayConvention::Preceding,
             )?;
-            payment_date =
-                calendar.adjust(&(calc_end_date + Duration::days(payment_gap_days)), conv)?;
-        } else if i == schedule_length - 1 {
-            calc_start_date = calc_start_date_vec[i];
-            calc_end_date = *maturity;
+            payment_date = *maturity;
+        } else if i == 0 {
+            calc_start_date = *effective_date;
+            calc_end_date = calc_start_date_vec[i + 1];
             fixing_date = calendar.adjust(
                 &(calc_start_date - Duration::days(fixing_gap_days)),
                 &BusinessDayConvention::Preceding,
             )?;
-            payment_date = *maturity;
+            payment_date =
+                calendar.adjust(&(calc_end_date + Duration::days(payment_gap_days)), conv)?;
         } else {
             calc_start_date = calc_start_date_vec[i];
             calc_end_date = calc_start_date_vec[i + 1];
-- 
2.43.0


From b5aedf52970cba088e741f6b63e090878bd839b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:16 +0000
Subject: [PATCH 29/46] fix: a time difference to a date in an earlier year is
 negative, not zero

---
 quantlib/src/time/calendar_trait.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index 812c24e..7f82260 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -289,6 +289,9 @@ pub trait CalendarTrait {
     /// then, sum up the two times
     fn get_time_difference(&self, start_date: &OffsetDateTime, end_date: &OffsetDateTime) -> Time {
         //let midnight_last_day_of_year_start = OffsetDateTime::new_in_offset(last_day_of_year_start, time::Time::MIDNIGHT, start_date_offset);
+        if start_date > end_date {
+            return -self.get_time_difference(end_date, start_date);
+        }
         let mut frac: Time = 0.0;
         let start_year = start_date.year();
         let end_year = end_date.year();
-- 
2.43.0


From ca152509327dac55ffd5be053360637553ef8b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:16 +0000
Subject: [PATCH 30/46] fix: the forward rate over a very short interval is
 divided by the interval it was read over

---
 quantlib/src/parameters/zero_curve.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/quantlib/src/parameters/zero_curve.rs b/quantlib/src/parameters/zero_curve.rs
index 723a18e..ebb0b61 100644
--- a/quantlib/src/parameters/zero_curve.rs
+++ b/quantlib/src/parameters/zero_curve.rs
@@ -334,18 +334,13 @@ impl ZeroCurve {
     ) -> Result<Real> {
         match t1 <= t2 {
             true => {
-                let tau = t2 - t1;
-
-                let disc: Real = if tau.abs() > 1e-6 {
-                    match self.get_discount_factor_between_times(t1, t2) {
-                        Ok(d) => d,
-                        Err(e) => return Err(e),
-                    }
-                } else {
-                    match self.get_discount_factor_between_times(t1, t2 + 1e-5) {
-                        Ok(d) => d,
-                        Err(e) => return Err(e),
-                    }
+                // an interval too short to divide by is widened
+                let end = if t2 - t1 > 1e-6 { t2 } else { t2 + 1e-5 };
+                let tau = end - t1;
+
+                let disc: Real = match self.get_discount_factor_between_times(t1, end) {
+                    Ok(d) => d,
+                    Err(e) => return Err(e),
                 };
 
                 match compounding {
-- 
2.43.0


From 2daf2f3f88bbfd7b1c4fa33240970f8820a997de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:16 +0000
Subject: [PATCH 31/46] fix: dividends that have all gone by leave no deduction
 instead of a panic

---
 quantlib/src/parameters/discrete_ratio_dividend.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index c4f5c98..be8ab1b 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -87,13 +87,11 @@ impl DiscreteRatioDividend {
         let mut date_integers_for_interpolator_vec = date_integers.to_vec();
 
         let mut i = 0;
-        let mut checker = 0;
-        while i < ex_dividend_dates.len() {
-            if ex_dividend_dates[checker] < eval_dt {
+        while i < ex_dividend_dates_for_interpolator.len() {
+            if ex_dividend_dates_for_interpolator[i] < eval_dt {
                 ex_dividend_dates_for_interpolator.remove(i);
                 div_yields_vec.remove(i);
                 date_integers_for_interpolator_vec.remove(i);
-                checker += 1;
             } else {
                 i += 1;
             }
@@ -251,13 +249,11 @@ impl DiscreteRatioDividend {
         let mut date_integers_for_interpolator_vec = self.date_integers.clone().to_vec();
 
         let mut i = 0;
-        let mut checker = 0;
-        while i < self.ex_dividend_dates.len() {
-            if self.ex_dividend_dates[checker] < eval_dt {
+        while i < ex_dividend_dates_for_interpolator.len() {
+            if ex_dividend_dates_for_interpolator[i] < eval_dt {
                 ex_dividend_dates_for_interpolator.remove(i);
                 div_yields_vec.remove(i);
                 date_integers_for_interpolator_vec.remove(i);
-                checker += 1;
             } else {
                 i += 1;
             }
-- 
2.43.0


From e053970b1de3fe0a391fb1eb455bc7091376d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:40 +0000
Subject: [PATCH 32/46] fix: bumping dividends keeps the ones already gone by
 out of the deduction

---
 .../src/parameters/discrete_ratio_dividend.rs | 31 +++----------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index be8ab1b..7e2da9e 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -212,33 +212,12 @@ impl DiscreteRatioDividend {
 
         // update self.dividend_amounts
         self.dividend_amounts = &self.dividend_amounts + bump_mask * bump_val;
-        // update self.dividend_yields and remake a incremental_deduction_ratio
+        // update self.dividend_yields
         self.dividend_yields = &self.dividend_amounts / self.spot;
-        let mut incremental_deduction_ratio = Array1::zeros(self.dividend_yields.len());
-        let mut temp: Real = 1.0;
-        for (i, &yield_value) in self.dividend_yields.iter().enumerate() {
-            temp *= 1.0 - yield_value;
-            incremental_deduction_ratio[i] = temp;
-        }
-
-        // update self.deduction_interpolator
-
-        self.deduction_interpolator = match incremental_deduction_ratio.len() {
-            0 => DividendInterpolator::Constant(ConstantInterpolator1D::new(1.0)?),
-            _ => {
-                let right_extrapolation_value =
-                    Some(incremental_deduction_ratio[incremental_deduction_ratio.len() - 1]);
-                let interp = StepwiseInterpolator1D::new(
-                    self.date_integers.clone(),
-                    incremental_deduction_ratio,
-                    true,
-                    Some(1.0),
-                    right_extrapolation_value,
-                )?;
-                DividendInterpolator::Stepwise(interp)
-            }
-        };
-        Ok(())
+        // update self.deduction_interpolator from the dividends still to come
+        let evaluation_date = self.evaluation_date.clone();
+        let date = evaluation_date.borrow();
+        self.update_evaluation_date(&date)
     }
 
     pub fn update_evaluation_date(&mut self, date: &EvaluationDate) -> Result<()> {
-- 
2.43.0


From e63b22a33c94c733bcb5635df15a865140bf8a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:40 +0000
Subject: [PATCH 33/46] fix: a dividend the market price already reflects is
 not deducted again

---
 quantlib/src/parameters/discrete_ratio_dividend.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index 7e2da9e..68ac3aa 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -80,7 +80,7 @@ impl DiscreteRatioDividend {
             //let time = time_calculator.get_time_difference(&marking_offsetdatetime, date);
             //ex_dividend_times[i] = time;
         }
-        // drop data of ex-dividend date and dividend amount before the evaluation-date
+        // drop data of ex-dividend date and dividend amount up to the evaluation-date
         let eval_dt = evaluation_date.to_owned().borrow().get_date_clone();
         let mut ex_dividend_dates_for_interpolator = ex_dividend_dates.clone();
         let mut div_yields_vec = dividend_yields.to_vec();
@@ -88,7 +88,7 @@ impl DiscreteRatioDividend {
 
         let mut i = 0;
         while i < ex_dividend_dates_for_interpolator.len() {
-            if ex_dividend_dates_for_interpolator[i] < eval_dt {
+            if ex_dividend_dates_for_interpolator[i] <= eval_dt {
                 ex_dividend_dates_for_interpolator.remove(i);
                 div_yields_vec.remove(i);
                 date_integers_for_interpolator_vec.remove(i);
@@ -229,7 +229,7 @@ impl DiscreteRatioDividend {
 
         let mut i = 0;
         while i < ex_dividend_dates_for_interpolator.len() {
-            if ex_dividend_dates_for_interpolator[i] < eval_dt {
+            if ex_dividend_dates_for_interpolator[i] <= eval_dt {
                 ex_dividend_dates_for_interpolator.remove(i);
                 div_yields_vec.remove(i);
                 date_integers_for_interpolator_vec.remove(i);
-- 
2.43.0


From cc5c421b65cdab79d8a87ff3bfe840aa58c07105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:40 +0000
Subject: [PATCH 34/46] fix: floating coupons keep their notional after the
 effective date

---
 quantlib/src/instruments/plain_swap.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantlib/src/instruments/plain_swap.rs b/quantlib/src/instruments/plain_swap.rs
index 3701570..8e5bdd9 100644
--- a/quantlib/src/instruments/plain_swap.rs
+++ b/quantlib/src/instruments/plain_swap.rs
@@ -501,11 +501,10 @@ impl InstrumentTrait for PlainSwap {
         past_fixing_data: Option<Rc<DailyClosePrice>>,
     ) -> Result<HashMap<OffsetDateTime, Real>> {
         let mut res = HashMap::new();
-        let mut initial_value = 1.0;
+        let initial_value = self.initial_floating_side_payment.unwrap_or(1.0);
         if self.effective_date.date() >= pricing_date.date()
             && self.initial_floating_side_payment.is_some()
         {
-            initial_value = self.initial_floating_side_payment.unwrap();
             res.insert(self.effective_date, -initial_value);
         }
         if self.maturity.date() >= pricing_date.date()
-- 
2.43.0


From bf8be258b740de9e991c843f841ead2bfa9f2182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:40 +0000
Subject: [PATCH 35/46] fix: the last exchange of a swap does not replace the
 first one on the same date

---
 quantlib/src/instruments/plain_swap.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/instruments/plain_swap.rs b/quantlib/src/instruments/plain_swap.rs
index 8e5bdd9..02db9eb 100644
--- a/quantlib/src/instruments/plain_swap.rs
+++ b/quantlib/src/instruments/plain_swap.rs
@@ -462,7 +462,10 @@ impl InstrumentTrait for PlainSwap {
         }
 
         if self.maturity.date() >= pricing_date.date() && self.last_fixed_side_payment.is_some() {
-            res.insert(self.maturity, -self.last_fixed_side_payment.unwrap());
+            let amount = -self.last_fixed_side_payment.unwrap();
+            res.entry(self.maturity)
+                .and_modify(|e| *e += amount)
+                .or_insert(amount);
         }
 
         if self.fixed_rate.is_none() || self.fixed_legs.is_empty() {
@@ -510,7 +513,10 @@ impl InstrumentTrait for PlainSwap {
         if self.maturity.date() >= pricing_date.date()
             && self.last_floating_side_endorsement.is_some()
         {
-            res.insert(self.maturity, self.last_floating_side_endorsement.unwrap());
+            let amount = self.last_floating_side_endorsement.unwrap();
+            res.entry(self.maturity)
+                .and_modify(|e| *e += amount)
+                .or_insert(amount);
         }
 
         if self.rate_index.is_none() || self.floating_legs.is_empty() {
-- 
2.43.0


From 0df98e57e9eb60889fc0e301700408dc1e3c717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:40 +0000
Subject: [PATCH 36/46] fix: a swap built from conventions is an IRS only in
 one currency

---
 quantlib/src/instruments/plain_swap.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantlib/src/instruments/plain_swap.rs b/quantlib/src/instruments/plain_swap.rs
index 02db9eb..9375404 100644
--- a/quantlib/src/instruments/plain_swap.rs
+++ b/quantlib/src/instruments/plain_swap.rs
@@ -335,6 +335,7 @@ impl PlainSwap {
             && last_floating_side_endorsement.is_none()
             && rate_index.is_some()
             && fixed_rate.is_some()
+            && fixed_leg_currency == floating_leg_currency
         {
             specific_type = PlainSwapType::IRS;
         }
-- 
2.43.0


From 5bffad8843a75619c4e39b6cb03cd16270767270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:40 +0000
Subject: [PATCH 37/46] fix: a bond built from conventions is refused like one
 built from a schedule

---
 quantlib/src/instruments/bond.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/quantlib/src/instruments/bond.rs b/quantlib/src/instruments/bond.rs
index 525127d..4175818 100644
--- a/quantlib/src/instruments/bond.rs
+++ b/quantlib/src/instruments/bond.rs
@@ -175,6 +175,28 @@ impl Bond {
         name: String,
         code: String,
     ) -> Result<Bond> {
+        // fixed_rate_coupon and rate_index can not be both None
+        if fixed_coupon_rate.is_none() && rate_index.is_none() {
+            return Err(anyhow!(
+                "{}:{} name = {}, code = {}\n\
+                Both fixed_coupon_rate and rate_index can not be None",
+                file!(),
+                line!(),
+                &name,
+                &code
+            ));
+        }
+        // fixed_rate_coupon and rate_index can not be both Some
+        if fixed_coupon_rate.is_some() && rate_index.is_some() {
+            return Err(anyhow!(
+                "{}:{} name = {}, code = {}\n\
+                Both fixed_coupon_rate and rate_index can not be Some",
+                file!(),
+                line!(),
+                &name,
+                &code
+            ));
+        }
         let schedule = build_schedule(
             forward_generation,
             &effective_date,
-- 
2.43.0


From 2db6fcd9652e7a67390375b038e65d9aa989cf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:32 +0000
Subject: [PATCH 38/46] fix: payments expected on the same date are added up,
 not replaced

---
 quantlib/src/pricing_engines/npv_result.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/npv_result.rs b/quantlib/src/pricing_engines/npv_result.rs
index c668575..0dcdb2a 100644
--- a/quantlib/src/pricing_engines/npv_result.rs
+++ b/quantlib/src/pricing_engines/npv_result.rs
@@ -81,7 +81,11 @@ impl NpvResult {
                 .cashflow_probabilities
                 .get(id)
                 .ok_or_else(|| anyhow::anyhow!("No probability found for coupon id {}", id))?;
-            res.insert(*datetime, *amount * prob.1);
+            // payments of different legs may fall on the same date
+            let expected = *amount * prob.1;
+            res.entry(*datetime)
+                .and_modify(|e| *e += expected)
+                .or_insert(expected);
         }
         Ok(res)
     }
-- 
2.43.0


From 5515092aea4eb050804f7e726d10e78f26a1b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:23 +0000
Subject: [PATCH 39/46] fix: the exposure of a future that cannot be priced is
 an error, not a panic

---
 quantlib/src/pricing_engines/futures_pricer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/futures_pricer.rs b/quantlib/src/pricing_engines/futures_pricer.rs
index 0f85fec..7158cac 100644
--- a/quantlib/src/pricing_engines/futures_pricer.rs
+++ b/quantlib/src/pricing_engines/futures_pricer.rs
@@ -99,7 +99,7 @@ impl PricerTrait for FuturesPricer {
             Instrument::Futures(futures) => {
                 let npv = self
                     .npv(instrument)
-                    .expect("FuturesPricer::fx_exposure: failed to calculate npv.");
+                    .context("FuturesPricer::fx_exposure: failed to calculate npv.")?;
 
                 let average_trade_price = futures.get_average_trade_price();
                 let unit_notional = futures.get_unit_notional();
-- 
2.43.0


From 4d0f77be750de0522b89fe94b41507d131b9004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:39 +0000
Subject: [PATCH 40/46] fix: a bond with nothing left to pay is worth zero at a
 KRX yield, not NaN

---
 quantlib/src/pricing_engines/krx_yield_pricer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/pricing_engines/krx_yield_pricer.rs b/quantlib/src/pricing_engines/krx_yield_pricer.rs
index 127e53d..1ff7c43 100644
--- a/quantlib/src/pricing_engines/krx_yield_pricer.rs
+++ b/quantlib/src/pricing_engines/krx_yield_pricer.rs
@@ -117,7 +117,6 @@ impl PricerTrait for KrxYieldPricer {
         let cal = bond.get_calendar()?;
         let mut diff: Real;
         let daycounter = self.daycount;
-        let maturity = bond.get_maturity().unwrap();
 
         let cashflow = bond
             .get_cashflows(
@@ -136,11 +135,15 @@ impl PricerTrait for KrxYieldPricer {
             })?;
 
         // get minimum date after the pricing date (the key of cashflow)
-        let min_cashflow_date = cashflow
+        let min_cashflow_date = match cashflow
             .keys()
             .filter(|&date| date.date() > pricing_date.date())
             .min()
-            .unwrap_or(maturity);
+        {
+            Some(date) => date,
+            // nothing is left to be paid
+            None => return Ok(0.0),
+        };
 
         if !cashflow.is_empty() {
             for (date, amount) in cashflow.iter() {
-- 
2.43.0


From 0f79ee2a849c4c7b5b79a48d6fa97b6087e8a7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:39 +0000
Subject: [PATCH 41/46] fix: a bond futures without underlying bonds is refused
 by its pricer instead of panicking

---
 quantlib/src/pricing_engines/ktbf_pricer.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/ktbf_pricer.rs b/quantlib/src/pricing_engines/ktbf_pricer.rs
index b15d340..77593b6 100644
--- a/quantlib/src/pricing_engines/ktbf_pricer.rs
+++ b/quantlib/src/pricing_engines/ktbf_pricer.rs
@@ -8,7 +8,7 @@ use crate::pricing_engines::{
     pricer::PricerTrait,
 };
 //
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use std::{cell::RefCell, rc::Rc};
 
 pub struct KtbfPricer {
@@ -43,6 +43,15 @@ impl PricerTrait for KtbfPricer {
         let mut bond_yields = Vec::new();
 
         let underlying_bonds = instrument.get_underlying_bonds()?;
+        if underlying_bonds.is_empty() {
+            return Err(anyhow!(
+                "({}:{}) {} ({}) has no underlying bonds to take a yield from",
+                file!(),
+                line!(),
+                instrument.get_name(),
+                instrument.get_code(),
+            ));
+        }
 
         let krx_yield_pricer = KrxYieldPricer::new(self.evaluation_date.clone(), 0.0, None, None);
 
-- 
2.43.0


From ebe536fb2056f3082876eb9a4111a242a9a76601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:39 +0000
Subject: [PATCH 42/46] fix: a quanto option pays on the quanto forward its
 probabilities are taken from

---
 quantlib/src/pricing_engines/option_analytic_pricer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantlib/src/pricing_engines/option_analytic_pricer.rs b/quantlib/src/pricing_engines/option_analytic_pricer.rs
index 6ca92d0..d3e9719 100644
--- a/quantlib/src/pricing_engines/option_analytic_pricer.rs
+++ b/quantlib/src/pricing_engines/option_analytic_pricer.rs
@@ -98,6 +98,9 @@ impl PricerTrait for OptionAnalyticPricer {
         let d1 = (-y + total_variance / 2.0 - quanto_adjustment) / total_deviation;
         let d2 = d1 - total_deviation;
 
+        // the forward under the measure of the payment currency
+        let fwd = fwd * (-quanto_adjustment).exp();
+
         let normal = Normal::new(0.0, 1.0).unwrap();
         let nd1 = normal.cdf(d1 as f64) as Real;
         let nd2 = normal.cdf(d2 as f64) as Real;
-- 
2.43.0


From 1d6e8ee472cdda5eb8cd3b8710a281f955a3a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:53 +0000
Subject: [PATCH 43/46] fix: an instrument using a curve in two ways is
 selected for it once

---
 quantlib/src/instrument.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/quantlib/src/instrument.rs b/quantlib/src/instrument.rs
index 215d1c9..ff9040d 100644
--- a/quantlib/src/instrument.rs
+++ b/quantlib/src/instrument.rs
@@ -436,26 +436,20 @@ impl Instruments {
                 continue;
             }
             // 1)
-            if match_parameter.get_discount_curve_name(instrument)? == curve_name {
-                res.push(instrument.clone());
-            }
+            let is_discount = match_parameter.get_discount_curve_name(instrument)? == curve_name;
             // 2)
-            if match_parameter
+            let is_collateral = match_parameter
                 .get_collateral_curve_names(instrument)?
-                .contains(&curve_name)
-            {
-                res.push(instrument.clone());
-            }
+                .contains(&curve_name);
             // 3) forward curve
-            if match_parameter.get_rate_index_curve_name(instrument)? == curve_name {
-                res.push(instrument.clone());
-            }
+            let is_forward = match_parameter.get_rate_index_curve_name(instrument)? == curve_name;
             // 4) crs curve
-            if match_parameter.get_crs_curve_name(instrument)? == curve_name {
-                res.push(instrument.clone());
-            }
+            let is_crs = match_parameter.get_crs_curve_name(instrument)? == curve_name;
             // 5) floating crs curve
-            if match_parameter.get_floating_crs_curve_name(instrument)? == curve_name {
+            let is_floating_crs =
+                match_parameter.get_floating_crs_curve_name(instrument)? == curve_name;
+
+            if is_discount || is_collateral || is_forward || is_crs || is_floating_crs {
                 res.push(instrument.clone());
             }
         }
-- 
2.43.0


From 31974b51b5bc4a329fe520fe8dfe235a91940350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:53 +0000
Subject: [PATCH 44/46] fix: the currencies of all instruments include those of
 the swaps' floating legs

---
 quantlib/src/instrument.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/instrument.rs b/quantlib/src/instrument.rs
index ff9040d..05e16d5 100644
--- a/quantlib/src/instrument.rs
+++ b/quantlib/src/instrument.rs
@@ -361,7 +361,7 @@ impl Instruments {
                         currencies.push(currency);
                     }
                 }
-                "PlainSwap" => {
+                "IRS" | "CRS" | "FxSwap" | "FxForward" | "FxSpot" => {
                     let currency = instrument.get_floating_leg_currency().with_context(|| {
                         anyhow!(
                             "({}:{}) get_floating_leg_currency failed for {} ({})",
-- 
2.43.0


From 7564be66358997b532ba9622d7bb1391bf0e1be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:55 +0000
Subject: [PATCH 45/46] fix: the code of a cash position is its code, not its
 name

---
 quantlib/src/instruments/cash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/instruments/cash.rs b/quantlib/src/instruments/cash.rs
index d31dce1..b3223f2 100644
--- a/quantlib/src/instruments/cash.rs
+++ b/quantlib/src/instruments/cash.rs
@@ -30,7 +30,7 @@ impl InstrumentTrait for Cash {
         1.0
     }
     fn get_code(&self) -> &String {
-        &self.name
+        &self.code
     }
 
     fn get_currency(&self) -> &Currency {
-- 
2.43.0


From c0a536e7627cef5ebffb8ac9c98ff76d4d261d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:01 +0000
Subject: [PATCH 46/46] fix: converting a result that has no currency is
 refused, not a panic

---
 quantlib/src/pricing_engines/calculation_result.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/calculation_result.rs b/quantlib/src/pricing_engines/calculation_result.rs
index b03daf6..6d6eaa7 100644
--- a/quantlib/src/pricing_engines/calculation_result.rs
+++ b/quantlib/src/pricing_engines/calculation_result.rs
@@ -464,7 +464,10 @@ impl CalculationResult {
         currency: Currency,
         fx_rate: Real,
     ) -> Result<CalculationResult> {
-        if currency == *self.representation_currency.as_ref().unwrap() {
+        let representation_currency = self
+            .representation_currency
+            .ok_or_else(|| anyhow!("representation currency is not set"))?;
+        if currency == representation_currency {
             return Ok(self.clone());
         }
 
-- 
2.43.0

