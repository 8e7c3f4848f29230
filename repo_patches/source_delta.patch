From afbc7b1a6b57848a4ed87a377aae4cc227b447c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:08 +0000
Subject: [PATCH 1/9] fix: only remember a storage scan once it has completed

A read error (or cancellation) part way through the initial scan, or through
the rescan at the end of garbage collection, left the records found so far
behind as if the scan had completed. The next read then loaded an outdated
record, the next write re-used a sequence number, and the next garbage
collection removed the actual newest record.
---
 crates/cfg-noodle/src/storage_list.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index e1b8438..8ba0fab 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -636,6 +636,10 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         let mut crc = Crc32::new();
         let mut ctr = 0;
 
+        // Collect what we find separately, and only remember it once the scan has completed: if it
+        // fails or is cancelled part way, we must not mistake an older record for the latest one.
+        let mut seq_state = SeqState::new();
+
         // Loop over all elements in the storage...
         loop {
             let item = match iter.next(buf).await {
@@ -696,7 +700,7 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
                         start_idx,
                         idx
                     );
-                    self.seq_state.insert_good(GoodWriteRecord {
+                    seq_state.insert_good(GoodWriteRecord {
                         seq: seq_no,
                         range: start_idx..=idx,
                     });
@@ -704,10 +708,11 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
             }
         }
 
-        let highest = self.seq_state.highest_seen();
+        let highest = seq_state.highest_seen();
         if highest.is_none() {
-            self.seq_state.next_seq = NonZeroU32::new(1);
+            seq_state.next_seq = NonZeroU32::new(1);
         }
+        self.seq_state = seq_state;
 
         Ok(highest)
     }
-- 
2.43.0


From c200ee48025406ea96f7d15b0adc049f2eb40add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:16 +0000
Subject: [PATCH 2/9] fix: require garbage collection after an incomplete write

After a failed or cancelled process_writes, the partial (or unverified) record
stayed in storage, and the retry used the same sequence number. Verification
finds the first Start element with that number, i.e. the leftovers, so every
retry failed with WriteVerificationFailed until the next restart. The same
happened on the first write to a storage that holds nothing but an incomplete
record with sequence number 1, for which not even a restart helped.
---
 crates/cfg-noodle/src/storage_list.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index 8ba0fab..7809803 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -373,6 +373,11 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
             });
         }
 
+        // From here on the storage may contain a partial or unverified Write Record with our
+        // sequence number. Unless everything completes, that needs to be collected before the
+        // next attempt, as verification would otherwise find the leftovers first.
+        inner.seq_state.needs_gc = true;
+
         debug!("Attempt write_to_flash");
 
         // TODO: Retries have to be handled in the OUTER context, so we can
@@ -712,6 +717,9 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         if highest.is_none() {
             seq_state.next_seq = NonZeroU32::new(1);
         }
+        // If there is anything at all, even if it is not a valid Write Record, collect
+        // it before writing: we might re-use the sequence number of an incomplete record.
+        seq_state.needs_gc |= ctr > 0;
         self.seq_state = seq_state;
 
         Ok(highest)
-- 
2.43.0


From 223202a71818f85b59986917a40d183ba76a9ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:52 +0000
Subject: [PATCH 3/9] fix: report a too small buffer when serializing instead
 of panicking

---
 crates/cfg-noodle/src/storage_node.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index b056ce7..e769590 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -879,12 +879,14 @@ where
         len_with(tref, &mut ()),
         &cursor.get_ref()[..cursor.position()],
     );
-    // Make sure len_with returns the correct number of bytes
-    // Important because we depend on it in deserialize()
-    debug_assert_eq!(cursor.position(), len_with(tref, &mut ()));
 
     match res {
-        Ok(()) => Ok(cursor.position()),
+        Ok(()) => {
+            // Make sure len_with returns the correct number of bytes
+            // Important because we depend on it in deserialize()
+            debug_assert_eq!(cursor.position(), len_with(tref, &mut ()));
+            Ok(cursor.position())
+        }
         Err(_e) => {
             // We know this was an "end of slice" error
             Err(())
-- 
2.43.0


From 60921d3dd75048351a0c87f0055868fae6df1f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:17 +0000
Subject: [PATCH 4/9] fix: split key and value where the key ends in storage

---
 crates/cfg-noodle/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/cfg-noodle/src/lib.rs b/crates/cfg-noodle/src/lib.rs
index 282ae98..911d383 100644
--- a/crates/cfg-noodle/src/lib.rs
+++ b/crates/cfg-noodle/src/lib.rs
@@ -195,11 +195,13 @@ impl<'a> SerData<'a> {
     pub fn kv_pair(&self) -> Result<KvPair<'_>, Error> {
         let item = self.key_val();
 
-        let Ok(key) = minicbor::decode::<&str>(item) else {
+        let mut decoder = minicbor::Decoder::new(item);
+        let Ok(key) = decoder.str() else {
             return Err(Error::Deserialization);
         };
-        let len = len_with(key, &mut ());
-        let Some(remain) = item.get(len..) else {
+        // NOTE: The body starts where the decoder stopped. This is not necessarily the length we
+        // would encode the key with, as cbor allows longer forms of the same string header.
+        let Some(remain) = item.get(decoder.position()..) else {
             return Err(Error::Deserialization);
         };
         Ok(KvPair { key, body: remain })
-- 
2.43.0


From 8a283d3fa9b707831969bda8d316ec91e34b2e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 5/9] fix: release the node when an attach is cancelled

---
 crates/cfg-noodle/src/storage_node.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index e769590..643ed2d 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -440,6 +440,15 @@ where
             debug!("attach() release Lock on list");
         }
 
+        // From here on, the node is taken. Should this future be cancelled while waiting below,
+        // dropping this handle releases the node again.
+        //
+        // NOTE: Rule 6.3 is not upheld yet, so this must not be used or exposed before it is.
+        let handle = StorageListNodeHandle {
+            list_ty: PhantomData,
+            inner: self,
+        };
+
         debug!("Waiting for reading_done");
 
         // We know our node is now on the list. Create a ref to the header which
@@ -502,10 +511,7 @@ where
         // - Rule 6.1: The node is attached to a list
         // - Rule 6.2: No other handles exist
         // - Rule 6.3: We have passed the Initial/NonResident state
-        Ok(StorageListNodeHandle {
-            list_ty: PhantomData,
-            inner: self,
-        })
+        Ok(handle)
     }
 
     /// Detach a node from a given list
-- 
2.43.0


From f8e33be208cf4b9c7344e61a18e8e6f8b4a54027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:03 +0000
Subject: [PATCH 6/9] fix: do not forget a request while another one is
 processed

---
 crates/cfg-noodle/src/worker_task.rs | 134 ++++++++++++++++-----------
 1 file changed, 79 insertions(+), 55 deletions(-)

diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index 5427418..8b4a7cc 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -1,7 +1,10 @@
 //! Default worker task implementation
 
 use core::fmt::Debug;
-use embassy_futures::select::{Either, Either3, select};
+use embassy_futures::{
+    join::join4,
+    select::{Either, Either3, select, select3},
+};
 use embassy_sync::{blocking_mutex::raw::NoopRawMutex, signal::Signal};
 use embassy_time::Duration;
 use mutex_traits::ScopedRawMutex;
@@ -64,9 +67,15 @@ pub async fn default_worker_task<
         let mut first_gc_done = false;
         let needs_gc: Signal<NoopRawMutex, Duration> = Signal::new();
 
-        // Wait for either the needs_read or needs_write to be signaled
-        loop {
-            let read_fut = async {
+        // The requests that are due to be processed. Waiting for (and debouncing) requests is kept
+        // separate from processing them: a request that has been received is not forgotten when
+        // another one becomes due first.
+        let read_due: Signal<NoopRawMutex, ()> = Signal::new();
+        let write_due: Signal<NoopRawMutex, ()> = Signal::new();
+        let gc_due: Signal<NoopRawMutex, ()> = Signal::new();
+
+        let read_fut = async {
+            loop {
                 // Wait for needs_read to be signaled once
                 debug!("worker_task waiting for needs_read signal");
                 list.needs_read().await;
@@ -85,8 +94,11 @@ pub async fn default_worker_task<
                         break 'debounce;
                     }
                 }
-            };
-            let write_fut = async {
+                read_due.signal(());
+            }
+        };
+        let write_fut = async {
+            loop {
                 // Wait for needs_read to be signaled once
                 debug!("worker_task waiting for needs_write signal");
                 list.needs_write().await;
@@ -105,68 +117,80 @@ pub async fn default_worker_task<
                         break 'debounce;
                     }
                 }
-            };
-
-            let gc_fut = async {
+                write_due.signal(());
+            }
+        };
+        let gc_fut = async {
+            loop {
                 let delay = needs_gc.wait().await;
                 debug!("Got needs_gc signal. Continuing after delay of {}", delay);
                 embassy_time::Timer::after(delay).await;
-            };
+                gc_due.signal(());
+            }
+        };
 
-            info!("worker_task waiting for signals");
-            match embassy_futures::select::select3(read_fut, write_fut, gc_fut).await {
-                // needs_read signaled
-                Either3::First(_) => {
-                    info!("worker task got needs_read signal, processing reads");
+        // Wait for either the needs_read or needs_write to be signaled
+        let process_fut = async {
+            loop {
+                info!("worker_task waiting for signals");
+                match select3(read_due.wait(), write_due.wait(), gc_due.wait()).await {
+                    // needs_read signaled
+                    Either3::First(_) => {
+                        info!("worker task got needs_read signal, processing reads");
 
-                    match list.process_reads(&mut flash, buf).await {
-                        Ok(rpt) => info!("process_reads success: {:?}", rpt),
-                        Err(e) => error!("Error in process_reads: {:?}", e),
-                    }
+                        match list.process_reads(&mut flash, buf).await {
+                            Ok(rpt) => info!("process_reads success: {:?}", rpt),
+                            Err(e) => error!("Error in process_reads: {:?}", e),
+                        }
 
-                    // On the first run (i.e., after starup) we want to run garbage collection once to
-                    // have everything in a clean state.
-                    // Delay this by 120 seconds to give other tasks time to do work before we potentially
-                    // block the for a longer time with garbage collection.
-                    if !first_gc_done {
-                        info!(
-                            "worker task finished process_reads. Trigger process_garbage with delay"
-                        );
+                        // On the first run (i.e., after starup) we want to run garbage collection once to
+                        // have everything in a clean state.
+                        // Delay this by 120 seconds to give other tasks time to do work before we potentially
+                        // block the for a longer time with garbage collection.
+                        if !first_gc_done {
+                            info!(
+                                "worker task finished process_reads. Trigger process_garbage with delay"
+                            );
 
-                        needs_gc.signal(Duration::from_secs(120));
+                            needs_gc.signal(Duration::from_secs(120));
+                        }
                     }
-                }
-                // needs_write signaled
-                Either3::Second(_) => {
-                    info!("worker task got needs_write signal, first process_garbage then write");
+                    // needs_write signaled
+                    Either3::Second(_) => {
+                        info!(
+                            "worker task got needs_write signal, first process_garbage then write"
+                        );
 
-                    match list.process_garbage(&mut flash, buf).await {
-                        Ok(rpt) => info!("process_garbage success: {:?}", rpt),
-                        Err(e) => error!("Error in process_garbage: {:?}", e),
-                    }
-                    match list.process_writes(&mut flash, buf).await {
-                        Ok(rpt) => info!("process_writes success: {:?}", rpt),
-                        Err(e) => error!("Error in process_writes: {:?}", e),
-                    }
+                        match list.process_garbage(&mut flash, buf).await {
+                            Ok(rpt) => info!("process_garbage success: {:?}", rpt),
+                            Err(e) => error!("Error in process_garbage: {:?}", e),
+                        }
+                        match list.process_writes(&mut flash, buf).await {
+                            Ok(rpt) => info!("process_writes success: {:?}", rpt),
+                            Err(e) => error!("Error in process_writes: {:?}", e),
+                        }
 
-                    info!("worker task finished process_writes, triggering process_garbage");
-                    match list.process_garbage(&mut flash, buf).await {
-                        Ok(rpt) => info!("process_garbage success: {:?}", rpt),
-                        Err(e) => error!("Error in process_garbage: {:?}", e),
+                        info!("worker task finished process_writes, triggering process_garbage");
+                        match list.process_garbage(&mut flash, buf).await {
+                            Ok(rpt) => info!("process_garbage success: {:?}", rpt),
+                            Err(e) => error!("Error in process_garbage: {:?}", e),
+                        }
                     }
-                }
-                Either3::Third(_) => {
-                    info!("worker task got needs_gc signal, run process_garbage");
-                    match list.process_garbage(&mut flash, buf).await {
-                        Ok(rpt) => {
-                            info!("process_garbage success: {:?}", rpt);
-                            first_gc_done = true;
+                    Either3::Third(_) => {
+                        info!("worker task got needs_gc signal, run process_garbage");
+                        match list.process_garbage(&mut flash, buf).await {
+                            Ok(rpt) => {
+                                info!("process_garbage success: {:?}", rpt);
+                                first_gc_done = true;
+                            }
+                            Err(e) => error!("Error in process_garbage: {:?}", e),
                         }
-                        Err(e) => error!("Error in process_garbage: {:?}", e),
                     }
-                }
-            };
-        }
+                };
+            }
+        };
+
+        join4(read_fut, write_fut, gc_fut, process_fut).await
     };
 
     // Top-level select that awaits the waker future and the stopper future so that whenever the
-- 
2.43.0


From f5d6b79ac68094969e03a24986aebcb5171e279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:59 +0000
Subject: [PATCH 7/9] fix: read and try again when a write needs a read

---
 crates/cfg-noodle/src/worker_task.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index 8b4a7cc..59462e6 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -167,6 +167,23 @@ pub async fn default_worker_task<
                         }
                         match list.process_writes(&mut flash, buf).await {
                             Ok(rpt) => info!("process_writes success: {:?}", rpt),
+                            // Either a node was attached just now, or an error made us discard what
+                            // we know about the storage. Catch up on that, the write is still due.
+                            Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
+                                info!("process_writes needs a read, reading and trying again");
+                                match list.process_reads(&mut flash, buf).await {
+                                    Ok(rpt) => info!("process_reads success: {:?}", rpt),
+                                    Err(e) => error!("Error in process_reads: {:?}", e),
+                                }
+                                match list.process_garbage(&mut flash, buf).await {
+                                    Ok(rpt) => info!("process_garbage success: {:?}", rpt),
+                                    Err(e) => error!("Error in process_garbage: {:?}", e),
+                                }
+                                match list.process_writes(&mut flash, buf).await {
+                                    Ok(rpt) => info!("process_writes success: {:?}", rpt),
+                                    Err(e) => error!("Error in process_writes: {:?}", e),
+                                }
+                            }
                             Err(e) => error!("Error in process_writes: {:?}", e),
                         }
 
-- 
2.43.0


From 137d914df1b2d76d198f6157a7d17c745852f605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:37 +0000
Subject: [PATCH 8/9] fix: complete attaches of nodes loaded before a read
 failed

---
 crates/cfg-noodle/src/storage_list.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index 7809803..6fc2291 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -285,7 +285,7 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
 
         // If we have something: populate all present items
         if let Some(latest) = res {
-            inner
+            let res = inner
                 .extract_all(
                     latest,
                     storage,
@@ -293,7 +293,13 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
                     &mut total_bytes_read,
                     &mut current_bytes_read,
                 )
-                .await?;
+                .await;
+            if let Err(e) = res {
+                // Some nodes may have been populated before the error, and nothing else asks for
+                // another read on their behalf: do not leave them waiting.
+                self.reading_done.wake_all();
+                return Err(e);
+            }
         }
 
         // Now, we either have NOTHING, or we have populated all items that DO exist.
-- 
2.43.0


From 216ff172407dd762633d0480e9ec4de93d2c84bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 9/9] fix: flush pending values on stop when a read is needed
 first

A node attached just before the stopper fired, or a garbage collection
interrupted by it, made the final write fail with NeedsFirstRead.
---
 crates/cfg-noodle/src/worker_task.rs | 37 +++++++++++++++++-----------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index 59462e6..29ae9b6 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -13,7 +13,7 @@ use crate::{
     NdlDataStorage, StorageList,
     error::{Error, LoadStoreError},
     flash::empty::AlwaysEmptyFlash,
-    logging::{debug, error, info, warn},
+    logging::{debug, error, info},
 };
 
 /// A default worker task that manages storage operations based on read/write signals.
@@ -217,22 +217,31 @@ pub async fn default_worker_task<
     let Either::Second(_) = select(waker_future, stopper).await;
 
     info!("stopper future completed, stopping worker task");
-    match list.process_writes(&mut flash, buf).await {
-        Ok(rpt) => info!("process_writes success: {:?}", rpt),
-        Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => {
-            match list.process_garbage(&mut flash, buf).await {
-                Ok(rpt) => info!("process_garbage success: {:?}", rpt),
-                Err(e) => error!("Error in process_garbage: {:?}", e),
+    // Do what it takes to get pending values written: a read is needed if a node was attached
+    // just now, or if the stopper interrupted a garbage collection. Bounded, as we want to return.
+    for _ in 0..4 {
+        match list.process_writes(&mut flash, buf).await {
+            Ok(rpt) => {
+                info!("process_writes success: {:?}", rpt);
+                break;
             }
-            match list.process_writes(&mut flash, buf).await {
-                Ok(rpt) => info!("process_writes success: {:?}", rpt),
-                Err(e) => error!("Error in process_writes: {:?}", e),
+            Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => {
+                match list.process_garbage(&mut flash, buf).await {
+                    Ok(rpt) => info!("process_garbage success: {:?}", rpt),
+                    Err(e) => error!("Error in process_garbage: {:?}", e),
+                }
+            }
+            Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
+                match list.process_reads(&mut flash, buf).await {
+                    Ok(rpt) => info!("process_reads success: {:?}", rpt),
+                    Err(e) => error!("Error in process_reads: {:?}", e),
+                }
+            }
+            Err(e) => {
+                error!("Error in process_writes: {:?}", e);
+                break;
             }
         }
-        Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
-            warn!("closing worker without performing first read");
-        }
-        Err(e) => error!("Error in process_writes: {:?}", e),
     }
 
     info!("worker task stopped!");
-- 
2.43.0

