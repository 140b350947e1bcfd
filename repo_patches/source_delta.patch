From 6cf9d064891f6dda11b7927a277b20a21189247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 01/40] fix: a worker in polling mode must consume every post,
 not just the latest count

---
 source/RKMomentEngine.c    | 4 ++--
 source/RKPulseEngine.c     | 4 ++--
 source/RKPulseRingFilter.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index b39ee6a..6919c67 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -293,7 +293,7 @@ static void *momentEngineCore(void *in) {
     //        [ t0 - t1 ]
     // [    t0 - t2     ]
     //
-    uint64_t tic = me->tic;
+    uint64_t tic = 1;
 
     RKModuloPath path;
     RKPulse *S, *E, *pulses[RKMaximumPulsesPerRay];
@@ -316,7 +316,7 @@ static void *momentEngineCore(void *in) {
             while (tic == me->tic && engine->state & RKEngineStateWantActive) {
                 usleep(1000);
             }
-            tic = me->tic;
+            tic++;
         }
         if (!(engine->state & RKEngineStateWantActive)) {
             break;
diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index 10f820e..8b18826 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -401,7 +401,7 @@ static void *pulseEngineCore(void *_in) {
     //        [ t0 - t1 ]
     // [    t0 - t2     ]
     //
-    uint64_t tic = me->tic;
+    uint64_t tic = 1;
     uint16_t configIndex = -1;
 
     while (engine->state & RKEngineStateWantActive) {
@@ -416,7 +416,7 @@ static void *pulseEngineCore(void *_in) {
             while (tic == me->tic && engine->state & RKEngineStateWantActive) {
                 usleep(1000);
             }
-            tic = me->tic;
+            tic++;
         }
         if (!(engine->state & RKEngineStateWantActive)) {
             break;
diff --git a/source/RKPulseRingFilter.c b/source/RKPulseRingFilter.c
index 062ff25..0b73f9b 100644
--- a/source/RKPulseRingFilter.c
+++ b/source/RKPulseRingFilter.c
@@ -225,7 +225,7 @@ static void *ringFilterCore(void *_in) {
     //        [ t0 - t1 ]
     // [    t0 - t2     ]
     //
-    uint64_t tic = me->tic;
+    uint64_t tic = 1;
 
     RKIQZ Z, xi, yi, yk;
     int kOffset, iOffset;
@@ -243,7 +243,7 @@ static void *ringFilterCore(void *_in) {
             while (tic == me->tic && engine->state & RKEngineStateWantActive) {
                 usleep(1000);
             }
-            tic = me->tic;
+            tic++;
         }
         if (!(engine->state & RKEngineStateWantActive)) {
             break;
-- 
2.43.0


From e4bdcf7db3aead559d461310ed6b960e9f0cfa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 02/40] fix: update engine and radar state bits atomically, a
 lost update could make a stop hang for ever

---
 headers/RadarKit/RKRadar.h | 4 ++++
 headers/RadarKit/RKTypes.h | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/headers/RadarKit/RKRadar.h b/headers/RadarKit/RKRadar.h
index 96a7428..0784225 100644
--- a/headers/RadarKit/RKRadar.h
+++ b/headers/RadarKit/RKRadar.h
@@ -36,7 +36,11 @@
 #define RADAR_VARIABLE_OFFSET(STRING, NAME) \
 sprintf(STRING, "                    radar->" rk_str(NAME) " @ %ld -> %p\n", (unsigned long)((void *)&radar->NAME - (void *)radar), (unsigned int *)&radar->NAME)
 
+#if defined(__cplusplus)
 typedef uint32_t RKRadarState;
+#else
+typedef _Atomic uint32_t RKRadarState;                                                     // Bits are set and cleared by several threads
+#endif
 enum {
     RKRadarStateRayBufferAllocated                   = (1 << 0),   // Data buffers
     RKRadarStateRawIQBufferAllocated                 = (1 << 1),   //
diff --git a/headers/RadarKit/RKTypes.h b/headers/RadarKit/RKTypes.h
index dd903f1..f148bd7 100644
--- a/headers/RadarKit/RKTypes.h
+++ b/headers/RadarKit/RKTypes.h
@@ -897,7 +897,12 @@ enum {
 //                    RKEngineStateActive -
 //                    (RKEngineStateChildAllocated | RKEngineStateChildProperlyWired | RKEngineStateAllocated | RKEngineStateProperlyWired)
 //
+// Several threads set and clear bits of a state concurrently: every |=, &= and ^= must be atomic
+#if defined(__cplusplus)
 typedef uint32_t RKEngineState;
+#else
+typedef _Atomic uint32_t RKEngineState;
+#endif
 enum {
     RKEngineStateNull                            = 0,                          // Nothing
     RKEngineStateSleep0                          = 1,                          // Usually for a wait just outside of the main while loop
@@ -1537,6 +1542,8 @@ typedef struct rk_status {
     uint8_t              recorderLag;
 } RKStatus;
 
+#pragma pack(push, 8)                                                          // Natural alignment for the atomic state
+
 //
 // Simple engine
 //
@@ -1565,6 +1572,8 @@ typedef struct rk_file_monitor {                                               /
     void                 *userResource;                                        // User defined resource
 } RKFileMonitor;
 
+#pragma pack(pop)
+
 //
 // User product from other processing nodes
 //
-- 
2.43.0


From fe1bbabb93121f48604e1881ca0bb3c83fdab5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 03/40] fix: RKPulseEngineGetVacantPulse() must not wait for
 ever on a slot the consumer has just set vacant

---
 source/RKPulseEngine.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index 8b18826..d6180e7 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -1376,7 +1376,8 @@ RKPulse *RKPulseEngineGetVacantPulse(RKPulseEngine *engine, const RKPulseStatus
     RKPulse *pulse = RKGetPulseFromBuffer(engine->pulseBuffer, k);
     if (pulse->header.s != RKPulseStatusVacant && waitMask) {
         k = 0;
-        while (!(pulse->header.s & waitMask)) {
+        // The consumer may also set this pulse vacant in the meantime, see RKPulseEngineGetProcessedPulse()
+        while (pulse->header.s != RKPulseStatusVacant && !(pulse->header.s & waitMask)) {
             usleep(100);
             if (k > 10000 && k++ % 10000 == 0) {
                 RKLog("%s Wait 1   %.1fs\n", engine->name, k * 0.0001f);
-- 
2.43.0


From 7b9f013fdaf59446f2a4ad8b4ec7166b4133f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:57 +0000
Subject: [PATCH 04/40] fix: ring filter worker must not touch gates beyond the
 filter range nor overrun its delay lines

---
 source/RKPulseRingFilter.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/source/RKPulseRingFilter.c b/source/RKPulseRingFilter.c
index 0b73f9b..079c4b9 100644
--- a/source/RKPulseRingFilter.c
+++ b/source/RKPulseRingFilter.c
@@ -168,7 +168,9 @@ static void *ringFilterCore(void *_in) {
     RKIQZ xx;
     RKIQZ yy;
     const int depth = RKMaximumIIRFilterTaps;
-    size_t filterSize = depth * engine->radarDescription->pulseCapacity / engine->coreCount * sizeof(RKFloat);
+    // The process length is padded for SIMD alignment, so it can be longer than pulseCapacity / coreCount
+    const size_t maxLength = (size_t)ceilf((float)engine->radarDescription->pulseCapacity * sizeof(RKFloat) / engine->coreCount / RKMemoryAlignSize) * RKMemoryAlignSize / sizeof(RKFloat);
+    size_t filterSize = depth * maxLength * sizeof(RKFloat);
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&xx.i, RKMemoryAlignSize, 2 * filterSize));
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&xx.q, RKMemoryAlignSize, 2 * filterSize));
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&yy.i, RKMemoryAlignSize, 2 * filterSize));
@@ -280,8 +282,8 @@ static void *ringFilterCore(void *_in) {
                 // Store x[n] at index k
                 kOffset = (k * 2 + p) * me->processLength;
                 Z = RKGetSplitComplexDataFromPulse(pulse, p);
-                memcpy(xx.i + kOffset, Z.i + me->processOrigin, me->processLength * sizeof(RKFloat));
-                memcpy(xx.q + kOffset, Z.q + me->processOrigin, me->processLength * sizeof(RKFloat));
+                memcpy(xx.i + kOffset, Z.i + me->processOrigin, me->outputLength * sizeof(RKFloat));
+                memcpy(xx.q + kOffset, Z.q + me->processOrigin, me->outputLength * sizeof(RKFloat));
 
                 #if defined(DEBUG_IIR)
 
@@ -479,7 +481,7 @@ static void *pulseRingWatcher(void *_in) {
         worker->parent = engine;
         worker->processOrigin = origin;
         worker->processLength = length;
-        worker->outputLength = MIN(gateCount - origin, length);
+        worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
         origin += length;
         if (engine->verbose > 1) {
             RKLog(">%s %s @ %p\n", engine->name, worker->semaphoreName, worker->sem);
@@ -540,7 +542,7 @@ static void *pulseRingWatcher(void *_in) {
                     RKPulseRingFilterWorker *worker = &engine->workers[c];
                     worker->processOrigin = origin;
                     worker->processLength = length;
-                    worker->outputLength = MIN(gateCount - origin, length);
+                    worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
                     origin += length;
                     if (engine->verbose) {
                         RKLog("%s C%d %s    %s    %s  %s\n", engine->name, c,
@@ -738,7 +740,7 @@ static void *pulseRingWatcherV1(void *_in) {
         worker->parent = engine;
         worker->processOrigin = origin;
         worker->processLength = length;
-        worker->outputLength = MIN(gateCount - origin, length);
+        worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
         origin += length;
         if (engine->verbose > 1) {
             RKLog(">%s %s @ %p\n", engine->name, worker->semaphoreName, worker->sem);
@@ -847,7 +849,7 @@ static void *pulseRingWatcherV1(void *_in) {
                 RKPulseRingFilterWorker *worker = &engine->workers[c];
                 worker->processOrigin = origin;
                 worker->processLength = length;
-                worker->outputLength = MIN(gateCount - origin, length);
+                worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
                 origin += length;
                 if (engine->verbose) {
                     RKLog("%s C%d %s    %s    %s  %s\n", engine->name, c,
-- 
2.43.0


From 05e09aae3b32adb810257dcbeb0cdcf65b9c089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 05/40] fix: ring filter must not change the regions while its
 workers still filter earlier pulses

---
 headers/RadarKit/RKPulseRingFilter.h |  1 +
 source/RKPulseRingFilter.c           | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/headers/RadarKit/RKPulseRingFilter.h b/headers/RadarKit/RKPulseRingFilter.h
index d37b16b..593cdbb 100644
--- a/headers/RadarKit/RKPulseRingFilter.h
+++ b/headers/RadarKit/RKPulseRingFilter.h
@@ -27,6 +27,7 @@ struct rk_pulse_ring_filter_worker {
     char                             semaphoreName[32];
     uint64_t                         tic;                                      // Tic count
     uint32_t                         pid;                                      // Latest processed index of pulses buffer
+    uint32_t                         regionId;                                 // Incremented when the region changes
     uint32_t                         processOrigin;                            // The origin of the pulse data to process
     uint32_t                         processLength;                            // The length in the local storage for SIMD alignment
     uint32_t                         outputLength;                             // The length of the pulse data to produce
diff --git a/source/RKPulseRingFilter.c b/source/RKPulseRingFilter.c
index 079c4b9..c738f27 100644
--- a/source/RKPulseRingFilter.c
+++ b/source/RKPulseRingFilter.c
@@ -231,6 +231,7 @@ static void *ringFilterCore(void *_in) {
 
     RKIQZ Z, xi, yi, yk;
     int kOffset, iOffset;
+    uint32_t regionId = me->regionId;
 
     k = 0;    // pulse index
     while (engine->state & RKEngineStateWantActive) {
@@ -274,6 +275,14 @@ static void *ringFilterCore(void *_in) {
             j = RKNextModuloS(j, engine->radarDescription->pulseBufferDepth);
             fprintf(stderr, "j = %d  --> %d\n", j, engine->workerTaskDone[i0 * engine->coreCount + c]);
         }
+        if (regionId != me->regionId) {
+            // The delay lines are laid out for another region, start over
+            regionId = me->regionId;
+            memset(xx.i, 0, 2 * filterSize);
+            memset(xx.q, 0, 2 * filterSize);
+            memset(yy.i, 0, 2 * filterSize);
+            memset(yy.q, 0, 2 * filterSize);
+        }
         if (engine->useFilter && !(pulse->header.s & RKPulseStatusSkipped)) {
             // Now we perform the difference equation on each polarization
             // y[n] = B[0] * x[n] + B[1] * x[n - 1] + ...
@@ -528,7 +537,12 @@ static void *pulseRingWatcher(void *_in) {
             i = RKPreviousModuloS(*engine->configIndex, engine->radarDescription->configBufferDepth);
             config = &engine->configBuffer[i];
             // Update processing region if necessary
-            if (gateCount != MIN(pulse->header.downSampledGateCount, config->ringFilterGateCount) && pulse->header.s & RKPulseStatusProcessed) {
+            if (gateCount == MIN(pulse->header.downSampledGateCount, config->ringFilterGateCount) || pulse->header.s & RKPulseStatusSkipped) {
+                // No change
+            } else if (j != k) {
+                // The workers may still be using the current region, let them finish what has been posted
+                engine->state |= RKEngineStateSleep2;
+            } else {
                 gateCount = MIN(pulse->header.downSampledGateCount, config->ringFilterGateCount);
                 paddedGateCount = ((int)ceilf((float)gateCount * sizeof(RKFloat) / engine->coreCount / RKMemoryAlignSize) * engine->coreCount * RKMemoryAlignSize / sizeof(RKFloat));
                 if (engine->verbose) {
@@ -540,6 +554,7 @@ static void *pulseRingWatcher(void *_in) {
                 origin = 0;
                 for (c = 0; c < engine->coreCount; c++) {
                     RKPulseRingFilterWorker *worker = &engine->workers[c];
+                    worker->regionId++;
                     worker->processOrigin = origin;
                     worker->processLength = length;
                     worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
-- 
2.43.0


From e3b544976352875ff653cf25a1db43c82931bd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 06/40] fix: RKClock must settle again after a counter restart,
 a long silence, a host clock step, or a reset from another thread

---
 headers/RadarKit/RKClock.h |  4 +++-
 source/RKClock.c           | 45 ++++++++++++++++++++++++++++++--------
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/headers/RadarKit/RKClock.h b/headers/RadarKit/RKClock.h
index 192c9df..48ced71 100644
--- a/headers/RadarKit/RKClock.h
+++ b/headers/RadarKit/RKClock.h
@@ -50,9 +50,11 @@ typedef struct rk_clock {
     double           x0;
     double           u0;
     double           dx;
+    double           wisdom;                      // The dx / du provided by user
     double           sum_x0;
     double           sum_u0;
-    
+
+    pthread_mutex_t  lock;                        // Reset may come from another thread
 } RKClock;
 
 RKClock *RKClockInitWithSize(const uint32_t, const uint32_t);
diff --git a/source/RKClock.c b/source/RKClock.c
index 5ede489..1470d59 100644
--- a/source/RKClock.c
+++ b/source/RKClock.c
@@ -51,6 +51,7 @@ RKClock *RKClockInitWithSize(const uint32_t size, const uint32_t stride) {
     clock->b = 1.0 / (double)clock->stride;
     clock->a = 1.0 - clock->b;
     clock->dx = 1.0e-6;
+    pthread_mutex_init(&clock->lock, NULL);
     return clock;
 }
 
@@ -72,6 +73,7 @@ void RKClockFree(RKClock *clock) {
     }
     fclose(fid);
 #endif
+    pthread_mutex_destroy(&clock->lock);
     free(clock->tBuffer);
     free(clock->xBuffer);
     free(clock->uBuffer);
@@ -101,6 +103,7 @@ void RKClockSetOffset(RKClock *clock, double offset) {
 
 void RKClockSetDxDu(RKClock *clock, const double dxdu) {
     clock->hasWisdom = true;
+    clock->wisdom = dxdu;
     clock->dx = dxdu;
     if (clock->verbose) {
         RKLog("%s Received du/dx = %s as wisdom\n", clock->name, RKFloatToCommaStyleString(1.0 / dxdu));
@@ -127,8 +130,9 @@ void RKClockSetHighPrecision(RKClock *clock, const bool value) {
 //   us up to the precision of microseconds. If more than such precision is needed. The
 //   reference time should be set to a running reference.
 //
-double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
+double RKClockGetTime(RKClock *clock, const double ref, struct timeval *timeval) {
     int j = 0;
+    double u = ref;
     double x, dx, du, y;
     struct timeval t;
     bool recent = true;
@@ -145,9 +149,24 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
         x = (double)t.tv_sec + 1.0e-6 * (double)t.tv_usec;
     }
     y = x;
+    pthread_mutex_lock(&clock->lock);
+    // A reference that goes backward, or jumps ahead by an unreasonable amount, has been restarted. The old readings are no longer useful
+    if (clock->useInternalReference) {
+        u = (double)clock->tic++;
+    } else if (clock->count > 0) {
+        j = RKPreviousModuloS(clock->index, clock->size);
+        if (u < clock->uBuffer[j] || u - clock->uBuffer[j] > 1.0e9) {
+            RKLog("%s Warning. Reference restarted. du = %s\n", clock->name, RKFloatToCommaStyleString(u - clock->uBuffer[j]));
+            clock->count = 0;
+            clock->index = 0;
+        }
+    }
     // Reset the references when clock count = 0 or it has been a while
     if (x - clock->latestTime > RKClockAWhile && clock->count > 0) {
         RKLog("%s Warning. Self reset  %f - %f = %f   count = %u\n", clock->name, x, clock->latestTime, x - clock->latestTime, clock->count);
+        if (clock->hasWisdom) {
+            clock->dx = clock->wisdom;
+        }
         clock->count = 0;
         clock->index = 0;
     }
@@ -158,16 +177,16 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
         clock->u0 = u;
         clock->sum_x0 = x;
         clock->sum_u0 = u;
+    } else if (clock->count == 1) {
+        // The running sums span the latest 'stride' readings, which start from this one
+        clock->sum_x0 = x;
+        clock->sum_u0 = u;
     }
     // Predict x0 and u0 using a running average, so we need to keep u's and x's.
     const int k = clock->index;
     clock->tBuffer[k] = t;
     clock->xBuffer[k] = x;
-    if (clock->useInternalReference) {
-        clock->uBuffer[k] = clock->tic++;
-    } else {
-        clock->uBuffer[k] = u;
-    }
+    clock->uBuffer[k] = u;
     // We are done with the indices; update them for the next call
     clock->index = RKNextModuloS(k, clock->size);
     // Derive time only if the clock has been called at least once. Otherwise (1.0 / clock->count) would be undefined
@@ -202,10 +221,14 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
                     RKLog("%s Warning. Reference tic change of %.e per second is unexpected.\n", clock->name, du);
                     RKLog("%s Warning. Will be replaced with an internal uniform reference.\n", clock->name);
                 }
-                // Override with own tic?
+                // Override with own tic from the next call on
                 clock->useInternalReference = true;
-                clock->uBuffer[k] = clock->tic++;
-                du = clock->uBuffer[k] - clock->uBuffer[j];
+                clock->hasWisdom = false;
+                clock->latestTime = x;
+                clock->count = 0;
+                clock->index = 0;
+                pthread_mutex_unlock(&clock->lock);
+                return x + clock->offsetSeconds;
             }
             if (clock->count == clock->stride) {
                 RKLog("%s b = %.2e   du/dx = %s   offset = %.3f us", clock->name, clock->b, RKFloatToCommaStyleString(1.0 / clock->dx), 1.0e6 * clock->offsetSeconds);
@@ -259,6 +282,7 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
         RKLog("%s WARNING. Going back in time?  x = %f < %f = latestTime\n", clock->name, y, clock->latestTime);
     }
     clock->latestTime = y;
+    pthread_mutex_unlock(&clock->lock);
 
     return y + clock->offsetSeconds;
 }
@@ -267,7 +291,9 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
 #pragma mark Interactions
 
 void RKClockReset(RKClock *clock) {
+    pthread_mutex_lock(&clock->lock);
     if (clock->count == 0) {
+        pthread_mutex_unlock(&clock->lock);
         return;
     }
     clock->index = 0;
@@ -275,5 +301,6 @@ void RKClockReset(RKClock *clock) {
     clock->tic = 0;
     clock->latestTime = 0;
     clock->infoShown = false;
+    pthread_mutex_unlock(&clock->lock);
     RKLog("%s Reset   du/dx = %s\n", clock->name, RKFloatToCommaStyleString(1.0 / clock->dx));
 }
-- 
2.43.0


From 96eee287b9287a95bfe5cf79e7db0c39a5c44a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 07/40] fix: file manager must find the time in a filename with
 dashes in its prefix, and not use uninitialized time fields

---
 source/RKFileManager.c | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index da8d791..8a740fe 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -44,25 +44,19 @@ static int string_cmp_by_pseudo_time(const void *a, const void *b) {
 }
 
 static time_t timeFromFilename(const char *filename) {
-    char *yyyymmdd, *hhmmss;
-    yyyymmdd = strchr(filename, '-');
-    if (yyyymmdd == NULL) {
-        return 0;
-    }
-    yyyymmdd++;
-    hhmmss = strchr(yyyymmdd, '-');
-    if (hhmmss == NULL) {
-        return 0;
-    }
-    hhmmss++;
-    if (hhmmss - yyyymmdd > 9) {
-        // Filenames that do not follow the pattern XXXXXX-YYYYMMDD-HHMMSS-EXX.XX-PPPPPPPP.EEEEEEEE
-        RKLog("Warning. Unexpected file pattern.\n");
-        return 0;
-    }
     struct tm tm;
-    strptime(yyyymmdd, "%Y%m%d-%H%M%S", &tm);
-    return mktime(&tm);
+    const char *yyyymmdd = filename;
+    // The prefix may also have dashes, so use the first part that looks like YYYYMMDD-HHMMSS
+    while ((yyyymmdd = strchr(yyyymmdd, '-')) != NULL) {
+        yyyymmdd++;
+        memset(&tm, 0, sizeof(struct tm));
+        if (strspn(yyyymmdd, "0123456789") == 8 && strptime(yyyymmdd, "%Y%m%d-%H%M%S", &tm) != NULL) {
+            return timegm(&tm);
+        }
+    }
+    // Filenames that do not follow the pattern XXXXXX-YYYYMMDD-HHMMSS-EXX.XX-PPPPPPPP.EEEEEEEE
+    RKLog("Warning. Unexpected file pattern.\n");
+    return 0;
 }
 
 static int listElementsInFolder(RKPathname *list, const int maximumCapacity, const char *path, uint8_t type) {
-- 
2.43.0


From 959ac3a0f41a2f6465a2b942d9095abebaf7a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 08/40] fix: file manager must only remove folders that are
 empty, some file systems do not tell the type of an entry and new files may
 arrive

---
 source/RKFileManager.c | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 8a740fe..392589c 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -131,9 +131,8 @@ static bool isFolderEmpty(const char *path) {
 }
 
 static void refreshFileList(RKFileRemover *me) {
-    int i, j, k;
+    int j, k;
     struct stat fileStat;
-    char command[RKMaximumPathLength + 8];
     char string[RKMaximumStringLength];
     char format[32];
 
@@ -181,15 +180,9 @@ static void refreshFileList(RKFileRemover *me) {
             return;
         } else if (count == 0) {
             RKLog(">%s Removing %s ...\n", me->name, string);
-            i = snprintf(command, RKMaximumCommandLength, "rm -rf %s", string);
-            if (i < 0) {
-                RKLog("%s Error. Failed generating system command.\n", me->name);
-                RKLog("%s Error. path = %s.\n", me->name, string);
-                break;
-            }
-            i = system(command);
-            if (i) {
-                RKLog("Error. system(%s) -> %d   errno = %d\n", command, i, errno);
+            // Only an empty folder can be removed this way, a new file may have arrived since it was listed
+            if (rmdir(string)) {
+                RKLog("%s Error. rmdir(%s)   errno = %d\n", me->name, string, errno);
             }
         } else if (count == me->capacity - me->count) {
             RKLog("%s Info. At capacity. Suggest keeping less data on main host.\n", me->name);
@@ -265,7 +258,6 @@ static void *fileRemover(void *in) {
     const int c = me->id;
 
     char path[RKMaximumPathLength + 256];
-    char command[RKMaximumPathLength];
     char parentFolder[RKFileManagerFilenameLength] = "";
     struct timeval time = {0, 0};
 
@@ -402,15 +394,8 @@ static void *fileRemover(void *in) {
                 sprintf(path, "%s/%s", me->path, parentFolder);
                 if (isFolderEmpty(path)) {
                     RKLog("%s Removing folder %s that is empty ...\n", me->name, path);
-                    k = snprintf(command, RKMaximumCommandLength, "rm -rf %s", path);
-                    if (k < 0) {
-                        RKLog("%s Error. Failed generating system command.\n", me->name);
-                        RKLog("%s Error. path = %s.\n", me->name, path);
-                        break;
-                    }
-                    k = system(command);
-                    if (k) {
-                        RKLog("Error. system(%s) -> %d   errno = %d\n", command, k, errno);
+                    if (rmdir(path)) {
+                        RKLog("%s Error. rmdir(%s)   errno = %d\n", me->name, path, errno);
                     }
                 }
                 RKLog("%s New parentFolder = %s -> %s\n", me->name, parentFolder, folders[indexedStats[me->index].folderId]);
-- 
2.43.0


From 21456235820d962e73c536027a2de667f9f58f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 09/40] fix: stopping the file manager must not hold the lock
 its workers need, nor free what RKFileManagerAddFile() uses

---
 source/RKFileManager.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 392589c..91bafb8 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -429,8 +429,11 @@ static void *fileRemover(void *in) {
         }
     }
 
+    pthread_mutex_lock(&engine->mutex);
+    free(folders);
     free(filenames);
     free(indexedStats);
+    pthread_mutex_unlock(&engine->mutex);
 
     RKLog(">%s Stopped.\n", me->name);
 
@@ -597,7 +600,10 @@ static void *folderWatcher(void *in) {
     for (k = 0; k < engine->workerCount; k++) {
         pthread_join(engine->workers[k].tid, NULL);
     }
+    pthread_mutex_lock(&engine->mutex);
     free(engine->workers);
+    engine->workers = NULL;
+    pthread_mutex_unlock(&engine->mutex);
 
     return NULL;
 }
@@ -720,7 +726,10 @@ int RKFileManagerStop(RKFileManager *engine) {
         }
         return RKResultEngineDeactivatedMultipleTimes;
     }
-    pthread_mutex_lock(&engine->mutex);
+    if (!(engine->state & RKEngineStateWantActive)) {
+        RKLog("%s Not active.\n", engine->name);
+        return RKResultEngineDeactivatedMultipleTimes;
+    }
     RKLog("%s Stopping ...\n", engine->name);
     engine->state |= RKEngineStateDeactivating;
     engine->state ^= RKEngineStateWantActive;
@@ -730,18 +739,19 @@ int RKFileManagerStop(RKFileManager *engine) {
     if (engine->state != (RKEngineStateAllocated | RKEngineStateProperlyWired)) {
         RKLog("%s Inconsistent state 0x%04x\n", engine->name, engine->state);
     }
-    pthread_mutex_unlock(&engine->mutex);
     return RKResultSuccess;
 }
 
 int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType type) {
-    RKFileRemover *me = &engine->workers[type];
+    pthread_mutex_lock(&engine->mutex);
 
-    if (!(engine->state & RKEngineStateWantActive)) {
+    // Checked with the lock since the workers are freed by a stop
+    if (!(engine->state & RKEngineStateWantActive) || engine->workers == NULL) {
+        pthread_mutex_unlock(&engine->mutex);
         return RKResultEngineNotActive;
     }
 
-    pthread_mutex_lock(&engine->mutex);
+    RKFileRemover *me = &engine->workers[type];
 
     struct stat fileStat;
     stat(filename, &fileStat);
-- 
2.43.0


From aa33ef971df39133f3cd933eec2bac6f6903acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 10/40] fix: file manager must not run past its file and folder
 lists, and must survive files and folders it cannot read

---
 source/RKFileManager.c | 105 ++++++++++++++++++++++++++++-------------
 1 file changed, 71 insertions(+), 34 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 91bafb8..c67395d 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -8,7 +8,7 @@
 
 #include <RadarKit/RKFileManager.h>
 
-#define RKFileManagerFolderListCapacity      60
+#define RKFileManagerFolderListCapacity      1000
 #define RKFileManagerLogFileListCapacity     1000
 
 // The way RadarKit names the files should be relatively short:
@@ -82,7 +82,9 @@ static int listElementsInFolder(RKPathname *list, const int maximumCapacity, con
             int r = sprintf(pathname, "%s/", path);
             strncpy(pathname + r, dir->d_name, RKMaximumPathLength - r - 1);
             pathname[RKMaximumPathLength - 1] = '\0';
-            lstat(pathname, &status);
+            if (lstat(pathname, &status)) {
+                continue;
+            }
             if ((type == DT_REG && S_ISREG(status.st_mode)) ||
                 (type == DT_DIR && S_ISDIR(status.st_mode))) {
                 r = snprintf(list[k], RKFileManagerFilenameLength, "%s", dir->d_name);
@@ -177,7 +179,7 @@ static void refreshFileList(RKFileRemover *me) {
         }
         if (count < 0) {
             RKLog("%s Error. Unable to list files in %s\n", me->name, string);
-            return;
+            continue;
         } else if (count == 0) {
             RKLog(">%s Removing %s ...\n", me->name, string);
             // Only an empty folder can be removed this way, a new file may have arrived since it was listed
@@ -195,7 +197,9 @@ static void refreshFileList(RKFileRemover *me) {
         }
         for (; j < me->count; j++) {
             sprintf(string, "%s/%s/%s", me->path, folders[k], filenames[j]);
-            stat(string, &fileStat);
+            if (stat(string, &fileStat)) {
+                fileStat.st_size = 0;
+            }
             indexedStats[j].index = j;
             indexedStats[j].folderId = k;
             indexedStats[j].time = timeFromFilename(filenames[j]);
@@ -230,7 +234,7 @@ static void refreshFileList(RKFileRemover *me) {
         me->usage = 0;
         for (k = 0; k < folderCount; k++) {
             struct dirent *dir;
-            sprintf(string, "%s/%s/%s", me->path, folders[k], filenames[j]);
+            sprintf(string, "%s/%s", me->path, folders[k]);
             DIR *did = opendir(string);
             if (did == NULL) {
                 fprintf(stderr, "Unable to list folder '%s'\n", string);
@@ -238,7 +242,9 @@ static void refreshFileList(RKFileRemover *me) {
             }
             while ((dir = readdir(did)) != NULL) {
                 sprintf(string, "%s/%s/%s", me->path, folders[k], dir->d_name);
-                stat(string, &fileStat);
+                if (dir->d_name[0] == '.' || stat(string, &fileStat) || !S_ISREG(fileStat.st_mode)) {
+                    continue;
+                }
                 me->usage += fileStat.st_size;
             }
             closedir(did);
@@ -260,6 +266,8 @@ static void *fileRemover(void *in) {
     char path[RKMaximumPathLength + 256];
     char parentFolder[RKFileManagerFilenameLength] = "";
     struct timeval time = {0, 0};
+    bool refreshed;
+    double lapse;
 
 	// Initiate my name
     RKShortName name;
@@ -365,7 +373,20 @@ static void *fileRemover(void *in) {
         }
 
         // Removing files
+        refreshed = false;
         while (me->usage > me->limit) {
+            // All the files in the list have been removed, get a new list but only once since a file may be impossible to remove
+            if (me->index >= me->count) {
+                if (refreshed) {
+                    break;
+                }
+                if (engine->verbose) {
+                    RKLog("%s Refreshing file list ...\n", me->name);
+                }
+                refreshFileList(me);
+                refreshed = true;
+                continue;
+            }
             // Build the complete path from various components
             sprintf(path, "%s/%s/%s", me->path, folders[indexedStats[me->index].folderId], filenames[indexedStats[me->index].index]);
             if (engine->verbose) {
@@ -402,31 +423,20 @@ static void *fileRemover(void *in) {
                 strcpy(parentFolder, folders[indexedStats[me->index].folderId]);
             }
 
-            // Update the index for next check or refresh it entirely if there are too many files
+            // Update the index for next check
             me->index++;
-            if (me->index == me->capacity) {
-                me->index = 0;
-                if (me->reusable) {
-                    if (engine->verbose) {
-                        RKLog("%s Reusable file list rotated to 0.\n", me->name);
-                    }
-                } else {
-                    if (engine->verbose) {
-                        RKLog("%s Refreshing file list ...\n", me->name);
-                    }
-                    refreshFileList(me);
-                }
-            }
         }
 
         pthread_mutex_unlock(&engine->mutex);
 
         // Now we wait
         k = 0;
-        while ((k++ < 10 || RKTimevalDiff(time, me->latestTime) < 0.2) && engine->state & RKEngineStateWantActive) {
-            gettimeofday(&time, NULL);
+        do {
             usleep(100000);
-        }
+            gettimeofday(&time, NULL);
+            lapse = RKTimevalDiff(time, me->latestTime);
+            // A negative lapse means the host clock was set back, it says nothing about the latest file
+        } while ((k++ < 10 || (lapse >= 0.0 && lapse < 0.2)) && engine->state & RKEngineStateWantActive);
     }
 
     pthread_mutex_lock(&engine->mutex);
@@ -579,8 +589,7 @@ static void *folderWatcher(void *in) {
                     continue;
                 }
                 string[sizeof(string) - 1] = '\0';
-                lstat(string, &fileStat);
-                if (!S_ISREG(fileStat.st_mode)) {
+                if (lstat(string, &fileStat) || !S_ISREG(fileStat.st_mode)) {
                     continue;
                 }
                 if (fileStat.st_ctime < now - longTime) {
@@ -694,7 +703,7 @@ void RKFileManagerSetHealthDataLimit(RKFileManager *engine, const size_t limit)
 int RKFileManagerStart(RKFileManager *engine) {
     // File manager is always assumed wired, dataPath may be empty
     engine->state |= RKEngineStateProperlyWired;
-    if (engine->userRawDataUsageLimit == 0 && engine->userMomentDataUsageLimit == 0 && engine->userHealthDataUsageLimit == 0 &&
+    if ((engine->userRawDataUsageLimit == 0 || engine->userMomentDataUsageLimit == 0 || engine->userHealthDataUsageLimit == 0) &&
         engine->usagelimit == 0) {
         engine->usagelimit = RKFileManagerDefaultUsageLimit;
         RKLog("%s Usage limit not set, use default %s%s B%s (%s %s)\n",
@@ -751,13 +760,24 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
         return RKResultEngineNotActive;
     }
 
+    int j;
     RKFileRemover *me = &engine->workers[type];
 
     struct stat fileStat;
-    stat(filename, &fileStat);
+    if (stat(filename, &fileStat)) {
+        RKLog("%s Error. Unable to get the size of %s   errno = %d\n", engine->name, filename, errno);
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultFileManagerInconsistentFolder;
+    }
 
     gettimeofday(&me->latestTime, NULL);
 
+    if (strncmp(me->path, filename, strlen(me->path)) || strchr(filename + strlen(me->path) + 1, '/') == NULL) {
+        RKLog("%s File %s does not belong here (%s).\n", engine->name, filename, me->path);
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultFileManagerInconsistentFolder;
+    }
+
     // For non-reusable type, just add the size
     if (me->reusable == false) {
         me->usage += fileStat.st_size;
@@ -791,11 +811,6 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
         strncpy(filenames[k], filename, RKFileManagerFilenameLength - 1);
     }
 
-    if (strncmp(me->path, filename, strlen(me->path))) {
-        RKLog("%s File %s does not belong here (%s).\n", engine->name, filename, me->path);
-        return RKResultFileManagerInconsistentFolder;
-    }
-
     // [me->path]/YYYYMMDD/RK-YYYYMMDD-...
 
     int folderId = 0;
@@ -806,6 +821,18 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
     if (strlen(folder) > RKFileManagerFilenameLength - 1) {
         RKLog("%s Warning. Folder name is too long.\n", engine->name);
     }
+    // The list may have been refreshed while this file was being recorded, it only needs the latest size in this case
+    const time_t fileTime = timeFromFilename(filenames[k]);
+    for (j = (int)k - 1; j >= me->index && indexedStats[j].time >= fileTime; j--) {
+        if (indexedStats[j].time == fileTime &&
+            !strcmp(filenames[indexedStats[j].index], filenames[k]) && !strcmp(folders[indexedStats[j].folderId], folder)) {
+            me->usage += fileStat.st_size - indexedStats[j].size;
+            indexedStats[j].size = fileStat.st_size;
+            pthread_mutex_unlock(&engine->mutex);
+            return RKResultSuccess;
+        }
+    }
+
     if (k == 0) {
         // The data folder is empty
         folderId = 0;
@@ -815,6 +842,12 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
         // If same folder as the previous entry, no need to add another folder in the list. Add one otherwise.
         if (strcmp(folder, folders[indexedStats[k - 1].folderId])) {
             folderId++;
+            if (folderId == RKFileManagerFolderListCapacity) {
+                // No more room for another folder but many of them may have been removed, get a new list
+                refreshFileList(me);
+                pthread_mutex_unlock(&engine->mutex);
+                return RKResultSuccess;
+            }
             strcpy(folders[indexedStats[k - 1].folderId + 1], folder);
         }
     }
@@ -822,7 +855,7 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
 
     indexedStats[k].index = k;
     indexedStats[k].folderId = folderId;
-    indexedStats[k].time = timeFromFilename(filenames[k]);
+    indexedStats[k].time = fileTime;
     indexedStats[k].size = fileStat.st_size;
 
     me->usage += fileStat.st_size;
@@ -831,7 +864,11 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
         RKLog("%s Added '%s'   %s B   k = %d\n", me->name, filename, RKUIntegerToCommaStyleString(indexedStats[k].size), k);
     }
 
-    me->count = RKNextModuloS(me->count, me->capacity);
+    me->count++;
+    if (me->count == me->capacity) {
+        // No more room but many of these may have been removed, get a new list
+        refreshFileList(me);
+    }
 
     pthread_mutex_unlock(&engine->mutex);
 
-- 
2.43.0


From c67a0c390522daf30a6a523ee893b26c7e774f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 11/40] fix: RKFileManagerAddFile() must not use a worker that
 has not got its lists yet

---
 source/RKFileManager.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index c67395d..d14195c 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -518,12 +518,15 @@ static void *folderWatcher(void *in) {
 
     engine->workerCount = 3;
 
-    engine->workers = (RKFileRemover *)malloc(engine->workerCount * sizeof(RKFileRemover));
-    if (engine->workers == NULL) {
+    RKFileRemover *workers = (RKFileRemover *)malloc(engine->workerCount * sizeof(RKFileRemover));
+    if (workers == NULL) {
         RKLog(">%s Error. Unable to allocate an RKFileRemover.\n", engine->name);
         return (void *)RKResultFailedToCreateFileRemover;
     }
-    memset(engine->workers, 0, engine->workerCount * sizeof(RKFileRemover));
+    memset(workers, 0, engine->workerCount * sizeof(RKFileRemover));
+    pthread_mutex_lock(&engine->mutex);
+    engine->workers = workers;
+    pthread_mutex_unlock(&engine->mutex);
     engine->memoryUsage += engine->workerCount * sizeof(RKFileRemover);
 
     for (k = 0; k < engine->workerCount; k++) {
@@ -755,7 +758,7 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
     pthread_mutex_lock(&engine->mutex);
 
     // Checked with the lock since the workers are freed by a stop
-    if (!(engine->state & RKEngineStateWantActive) || engine->workers == NULL) {
+    if (!(engine->state & RKEngineStateWantActive) || engine->workers == NULL || engine->workers[type].tic == 0) {
         pthread_mutex_unlock(&engine->mutex);
         return RKResultEngineNotActive;
     }
-- 
2.43.0


From ef04e271a8dfd113ebbc40f7117761a2c0586a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:09 +0000
Subject: [PATCH 12/40] fix: health logger must close, report and reopen its
 file properly across minutes, record switches, errors and stop

---
 source/RKHealthLogger.c | 57 +++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/source/RKHealthLogger.c b/source/RKHealthLogger.c
index 88b113f..c3efb4e 100644
--- a/source/RKHealthLogger.c
+++ b/source/RKHealthLogger.c
@@ -10,6 +10,22 @@
 
 #pragma mark - Helper Functions
 
+static void closeFile(RKHealthLogger *engine, const char *filename) {
+    fclose(engine->fid);
+    engine->fid = NULL;
+    if (engine->verbose) {
+        RKLog("%s %sRecorded%s %s\n",
+              engine->name,
+              rkGlobalParameters.showColor ? RKGreenColor : "",
+              rkGlobalParameters.showColor ? RKNoColor : "",
+              filename);
+    }
+    // Notify file manager of a new addition
+    if (engine->fileManager) {
+        RKFileManagerAddFile(engine->fileManager, filename, RKFileTypeHealth);
+    }
+}
+
 #pragma mark - Delegate Workers
 
 static void *healthLogger(void *in) {
@@ -27,8 +43,8 @@ static void *healthLogger(void *in) {
     char filename[RKMaximumPathLength] = "";
 
 	time_t unixTime;
-	struct tm *timeStruct;
-	int min = -1;
+	struct tm timeStruct;
+	time_t min = -1;
 
 	// Update the engine state
     engine->state |= RKEngineStateWantActive;
@@ -85,22 +101,10 @@ static void *healthLogger(void *in) {
         } else {
             unixTime = (time_t)atol(keyValue);
         }
-        timeStruct = gmtime(&unixTime);
-        if (min != timeStruct->tm_min) {
-            min = timeStruct->tm_min;
-            if (engine->record && engine->fid) {
-                fclose(engine->fid);
-                if (engine->verbose) {
-                    RKLog("%s %sRecorded%s %s\n",
-                          engine->name,
-                          rkGlobalParameters.showColor ? RKGreenColor : "",
-                          rkGlobalParameters.showColor ? RKNoColor : "",
-                          filename);
-                }
-                // Notify file manager of a new addition
-                if (engine->fileManager) {
-                    RKFileManagerAddFile(engine->fileManager, filename, RKFileTypeHealth);
-                }
+        if (min != unixTime / 60) {
+            min = unixTime / 60;
+            if (engine->fid) {
+                closeFile(engine, filename);
             } else {
                 if (engine->verbose && strlen(filename)) {
                     RKLog("%s %sSkipped%s %s\n",
@@ -110,19 +114,23 @@ static void *healthLogger(void *in) {
                         filename);
                 }
             }
+        }
+        const bool record = engine->record;
+        if (engine->fid == NULL) {
             i = sprintf(filename, "%s%s%s/", desc->dataPath, desc->dataPath[0] == '\0' ? "" : "/", RKDataFolderHealth);
-            i += strftime(filename + i, 10, "%Y%m%d", gmtime(&unixTime));
+            i += strftime(filename + i, 10, "%Y%m%d", gmtime_r(&unixTime, &timeStruct));
             i += sprintf(filename + i, "/%s-", desc->filePrefix);
-            strftime(filename + i, 22, "%Y%m%d-%H%M%S.json", gmtime(&unixTime));
-            if (engine->record) {
+            strftime(filename + i, 22, "%Y%m%d-%H%M%S.json", &timeStruct);
+            if (record) {
                 RKPreparePath(filename);
-                engine->fid = fopen(filename, "w");
+                // Append since the file may already be there, e.g., the clock was set back or the system was restarted
+                engine->fid = fopen(filename, "a");
                 if (engine->fid == NULL) {
                     RKLog("%s Error. Unable to create file for health log.\n", engine->name);
                 }
             }
         }
-        if (engine->fid) {
+        if (engine->fid && record) {
             fprintf(engine->fid, "%s\n", health->string);
         }
 
@@ -140,8 +148,7 @@ static void *healthLogger(void *in) {
     }
 
     if (engine->fid != NULL) {
-        fclose(engine->fid);
-        engine->fid = NULL;
+        closeFile(engine, filename);
     }
 
     engine->state ^= RKEngineStateActive;
-- 
2.43.0


From 0059b3e439f25a45b8430cbabbb0e13e5acdc150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 13/40] fix: raw data recorder must survive short and failed
 writes, close and report every file, and switch records without losing or
 mixing pulses

---
 headers/RadarKit/RKRawDataRecorder.h |  1 +
 source/RKRawDataRecorder.c           | 86 ++++++++++++++++++----------
 2 files changed, 56 insertions(+), 31 deletions(-)

diff --git a/headers/RadarKit/RKRawDataRecorder.h b/headers/RadarKit/RKRawDataRecorder.h
index 9932382..edb6d5f 100644
--- a/headers/RadarKit/RKRawDataRecorder.h
+++ b/headers/RadarKit/RKRawDataRecorder.h
@@ -39,6 +39,7 @@ struct rk_data_recorder {
     size_t                           cacheWriteIndex;
     uint64_t                         cacheFlushCount;
     uint64_t                         fileWriteCount;
+    bool                             fileError;                      // Writing to the current file has failed
     pthread_t                        tidPulseRecorder;
 
     // Status / health
diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 4c08143..77ca4ae 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -39,6 +39,41 @@ static void RKRawDataRecorderUpdateStatusString(RKRawDataRecorder *engine) {
     engine->statusBufferIndex = RKNextModuloS(engine->statusBufferIndex, RKBufferSSlotCount);
 }
 
+// Write everything out. Once this fails, nothing more goes into the file so that what is there remains readable
+static size_t RKRawDataRecorderWrite(RKRawDataRecorder *engine, const void *data, const size_t size) {
+    size_t writtenSize = 0;
+    if (engine->fileError) {
+        return 0;
+    }
+    while (writtenSize < size) {
+        ssize_t r = write(engine->fd, data + writtenSize, size - writtenSize);
+        if (r < 0 && errno == EINTR) {
+            continue;
+        }
+        if (r <= 0) {
+            RKLog("%s Error in write().   writtenSize = %s   errno = %d\n", engine->name, RKIntegerToCommaStyleString((long)writtenSize), errno);
+            engine->fileError = true;
+            break;
+        }
+        writtenSize += r;
+        engine->fileWriteCount++;
+    }
+    return writtenSize;
+}
+
+static size_t RKRawDataRecorderCloseFile(RKRawDataRecorder *engine, const char *filename) {
+    size_t writtenSize = RKRawDataRecorderCacheFlush(engine);
+    close(engine->fd);
+    engine->fd = 0;
+    if (engine->fileWriteCount == 0) {
+        remove(filename);
+    } else if (engine->fileManager) {
+        // Notify file manager of a new addition
+        RKFileManagerAddFile(engine->fileManager, filename, RKFileTypeIQ);
+    }
+    return writtenSize;
+}
+
 #pragma mark - Delegate Workers
 
 static void *pulseRecorder(void *in) {
@@ -48,7 +83,7 @@ static void *pulseRecorder(void *in) {
 
     struct timeval t0, t1;
 
-    bool record = engine->record;
+    bool record = engine->record, wantRecord;
 
     RKPulse *pulse;
     RKConfig *config;
@@ -85,7 +120,7 @@ static void *pulseRecorder(void *in) {
 
     gettimeofday(&t1, NULL); t1.tv_sec -= 1;
 
-    j = 0;   // config index
+    j = -1;  // config index, none yet
     k = 0;   // pulse index
     n = 0;   // pulse sample count
     while (engine->state & RKEngineStateWantActive) {
@@ -131,16 +166,15 @@ static void *pulseRecorder(void *in) {
         engine->state |= RKEngineStateWritingFile;
 
         // Assess the configIndex, or if we reached the maximum pulse count for a file; or when user just decided to start/stop recording
-        if (j != pulse->header.configIndex || n >= engine->maximumRecordDepth || record != engine->record) {
+        wantRecord = engine->record;
+        if (j != pulse->header.configIndex || n >= engine->maximumRecordDepth || record != wantRecord) {
             j = pulse->header.configIndex;
             config = &engine->configBuffer[pulse->header.configIndex];
             waveform = config->waveform;
 
             // Close the current file
             if (engine->fd) {
-                len += RKRawDataRecorderCacheFlush(engine);
-                close(engine->fd);
-                engine->fd = 0;
+                len += RKRawDataRecorderCloseFile(engine, filename);
                 RKLog("%s %sRecorded%s %s (%s pulses, %s %sB) w%d\n",
                       engine->name,
                       rkGlobalParameters.showColor ? RKGreenColor : "",
@@ -150,13 +184,6 @@ static void *pulseRecorder(void *in) {
                       RKFloatToCommaStyleString((len > 1000000000 ? 1.0e-9f : 1.0e-6f) * (len + engine->cacheWriteIndex)),
                       len > 1000000000 ? "G" : "M",
                       engine->fileWriteCount);
-                if (engine->fileWriteCount == 0) {
-                    remove(filename);
-                }
-                // Notify file manager of a new addition
-                if (engine->fileManager) {
-                    RKFileManagerAddFile(engine->fileManager, filename, RKFileTypeIQ);
-                }
             } else {
                 if (strlen(filename)) {
                     RKLog("%s %sSkipped%s %s (%s pulses, %s %sB)\n",
@@ -189,12 +216,19 @@ static void *pulseRecorder(void *in) {
             if (engine->verbose > 1) {
                 RKLog("%s New I/Q %s ...\n", engine->name, filename);
             }
-            if (engine->record && config->i > 1003) {
+            if (wantRecord && config->i > 1003) {
                 RKPreparePath(filename);
                 // 4-KB raw data file header
                 memcpy(&fileHeader->config, config, sizeof(RKConfig));
                 fileHeader->config.waveform = NULL;
-                engine->fd = open(filename, O_CREAT | O_WRONLY, 0000644);
+                engine->fd = open(filename, O_CREAT | O_WRONLY | O_TRUNC, 0000644);
+                if (engine->fd < 0) {
+                    RKLog("%s Error. Unable to create file %s   errno = %d\n", engine->name, filename, errno);
+                    engine->fd = 0;
+                    engine->fileError = true;
+                } else {
+                    engine->fileError = false;
+                }
                 engine->fileWriteCount = 0;
                 engine->cacheWriteIndex = 0;
                 len = RKRawDataRecorderCacheWrite(engine, fileHeader, sizeof(RKFileHeader));
@@ -227,7 +261,7 @@ static void *pulseRecorder(void *in) {
         }
 
         // Pulse to write cache
-        if (engine->record && engine->fd) {
+        if (wantRecord && engine->fd) {
             if (fileHeader->dataType == RKRawDataTypeFromTransceiver) {
                 len += RKRawDataRecorderCacheWrite(engine, &pulse->header, sizeof(RKPulseHeader));
                 len += RKRawDataRecorderCacheWrite(engine, RKGetInt16CDataFromPulse(pulse, 0), pulse->header.gateCount * sizeof(RKInt16C));
@@ -273,16 +307,12 @@ static void *pulseRecorder(void *in) {
 
         // Update pulseIndex for the next watch
         k = RKNextModuloS(k, engine->radarDescription->pulseBufferDepth);
-        record = engine->record;
+        record = wantRecord;
         n++;
     }
 
     if (engine->fd) {
-        close(engine->fd);
-        engine->fd = 0;
-        if (engine->fileWriteCount == 0) {
-            remove(filename);
-        }
+        RKRawDataRecorderCloseFile(engine, filename);
     }
 
     free(fileHeader);
@@ -435,16 +465,11 @@ size_t RKRawDataRecorderCacheWrite(RKRawDataRecorder *engine, const void *payloa
         lastChunkSize = engine->cacheSize - engine->cacheWriteIndex;
         memcpy(engine->cache + engine->cacheWriteIndex, payload, lastChunkSize);
         remainingSize = size - lastChunkSize;
-        writtenSize = (uint32_t)write(engine->fd, engine->cache, engine->cacheSize);
-        engine->fileWriteCount++;
-        if (writtenSize != engine->cacheSize) {
-            RKLog("%s Error in write().   writtenSize = %s\n", RKIntegerToCommaStyleString((long)writtenSize));
-        }
+        writtenSize = RKRawDataRecorderWrite(engine, engine->cache, engine->cacheSize);
         engine->cacheFlushCount++;
         engine->cacheWriteIndex = 0;
         if (remainingSize >= engine->cacheSize) {
-            writtenSize += (uint32_t)write(engine->fd, (char *)(payload + lastChunkSize), remainingSize);
-            engine->fileWriteCount++;
+            writtenSize += RKRawDataRecorderWrite(engine, payload + lastChunkSize, remainingSize);
             return writtenSize;
         }
     }
@@ -457,8 +482,7 @@ size_t RKRawDataRecorderCacheFlush(RKRawDataRecorder *engine) {
     if (engine->cacheWriteIndex == 0) {
         return 0;
     }
-    size_t writtenSize = write(engine->fd, engine->cache, engine->cacheWriteIndex);
+    size_t writtenSize = RKRawDataRecorderWrite(engine, engine->cache, engine->cacheWriteIndex);
     engine->cacheWriteIndex = 0;
-    engine->fileWriteCount++;
     return writtenSize;
 }
-- 
2.43.0


From 30f1baf976499e06ed3621b2782a2ffeab791bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 14/40] fix: a refused configuration change must not block the
 next ones, and a configuration must not be seen before it is complete

---
 source/RKConfig.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index 9ba3871..2ffb5b3 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -57,10 +57,13 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
     // Use exclusive access here to prevent multiple processes trying to change RKConfig too quickly
     pthread_mutex_lock(&lock);
 
-    RKConfig *newConfig = &configs[*configIndex];
+    // Prepare the new one on the side. The slot remains as is until everything is ready, or forever if something is not acceptable
+    RKConfig config;
+    RKConfig *newConfig = &config;
+    RKConfig *slot = &configs[*configIndex];
     RKConfig *oldConfig = &configs[RKPreviousModuloS(*configIndex, configBufferDepth)];
 
-    const RKIdentifier configId = newConfig->i + configBufferDepth;
+    const RKIdentifier configId = slot->i + configBufferDepth;
 
     //RKLog("--- RKConfigAdvance()   Id = %llu ---\n", configId);
 
@@ -89,7 +92,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                         rkGlobalParameters.showColor ? RKDeepPinkColor : "",
                         RKMarkerScanTypeString(newConfig->startMarker),
                         rkGlobalParameters.showColor ? RKNoColor : "",
-                        RKVariableInString("filterCount", &newConfig->waveform->count, RKValueTypeUInt8));
+                        newConfig->waveform ? RKVariableInString("filterCount", &newConfig->waveform->count, RKValueTypeUInt8) : "no waveform");
                 break;
             case RKConfigKeyPRT:
                 newConfig->prt[0] = (RKFloat)va_arg(args, double);
@@ -128,7 +131,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 if (string == NULL) {
                     sprintf(stringBuffer[0], "VCP = (NULL)\n");
                 } else {
-                    sprintf(stringBuffer[0], "VCP = %s\n", string);
+                    snprintf(stringBuffer[0], RKStatusStringLength, "VCP = %s\n", string);
                     strncpy(newConfig->vcpDefinition, string, RKMaximumCommandLength - 8);
                 }
                 break;
@@ -162,6 +165,8 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 waveform = (RKWaveform *)va_arg(args, void *);
                 if (waveform == NULL || waveform->filterCounts[0] == 0) {
                     RKLog("Bad input for RKConfigKeyWaveform\n");
+                    va_end(args);
+                    pthread_mutex_unlock(&lock);
                     return;
                 }
                 newConfig->waveform = waveform;
@@ -173,6 +178,8 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 waveform = (RKWaveform *)va_arg(args, void *);
                 if (waveform == NULL || waveform->filterCounts[0] == 0) {
                     RKLog("Bad input for RKConfigKeyWaveformDecimate\n");
+                    va_end(args);
+                    pthread_mutex_unlock(&lock);
                     return;
                 }
                 newConfig->waveformDecimate = waveform;
@@ -279,8 +286,15 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
 
     va_end(args);
 
+    // The content goes in while the slot has no identifier, so that no one finds a config that is incomplete
+    slot->i = (RKIdentifier)-1;
+    __sync_synchronize();
+    memcpy((void *)slot + sizeof(RKIdentifier), (void *)newConfig + sizeof(RKIdentifier), sizeof(RKConfig) - sizeof(RKIdentifier));
+    __sync_synchronize();
+
     // Update the identifier and the buffer index
-    newConfig->i = configId;
+    slot->i = configId;
+    __sync_synchronize();
     *configIndex = RKNextModuloS(*configIndex, configBufferDepth);
 
     pthread_mutex_unlock(&lock);
-- 
2.43.0


From d0aeb2652bfc8bf35c553c278beac54cac6b6476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 15/40] fix: the health consolidator must not write into the
 nodes' own reports, garble enums, overrun the record or stall on a clock step

---
 source/RKHealthEngine.c |  92 +++++++++++++++------
 source/RKMisc.c         | 172 +++++++++++++---------------------------
 2 files changed, 120 insertions(+), 144 deletions(-)

diff --git a/source/RKHealthEngine.c b/source/RKHealthEngine.c
index 8d60438..b3fd7cb 100644
--- a/source/RKHealthEngine.c
+++ b/source/RKHealthEngine.c
@@ -10,6 +10,19 @@
 
 #pragma mark - Helper Functions
 
+// Make a copy of a report, returns false if the report is not complete, or if the node came around to replace it meanwhile
+static bool copyReport(RKHealth *destination, const RKHealth *source) {
+    const uint64_t i = source->i;
+    if (!(source->flag & RKHealthFlagReady)) {
+        return false;
+    }
+    __sync_synchronize();
+    memcpy(destination, source, sizeof(RKHealth));
+    destination->string[RKMaximumStringLength - 1] = '\0';
+    __sync_synchronize();
+    return source->i == i && (source->flag & RKHealthFlagReady);
+}
+
 #pragma mark - Delegate Workers
 
 static void *healthConsolidator(void *_in) {
@@ -33,6 +46,13 @@ static void *healthConsolidator(void *_in) {
     uint32_t *indices = (uint32_t *)malloc(desc->healthNodeCount * sizeof(uint32_t));
     memset(indices, 0xFF, desc->healthNodeCount * sizeof(uint32_t));
 
+    // Copies of the reports to consolidate. The reports in the nodal buffers belong to the nodes, they are never modified here
+    RKHealth *reports = (RKHealth *)malloc(desc->healthNodeCount * sizeof(RKHealth));
+    memset(reports, 0, desc->healthNodeCount * sizeof(RKHealth));
+
+    // Room to reserve for the overrides and the log time in a consolidated string
+    const int reserve = 512;
+
 	// Update the engine state
 	engine->state |= RKEngineStateWantActive;
 	engine->state ^= RKEngineStateActivating;
@@ -55,11 +75,11 @@ static void *healthConsolidator(void *_in) {
         RKLog("%s healthNodes[%d].index = %d   s = %d\n", engine->name, RKHealthNodeRadarKit, engine->healthNodes[RKHealthNodeRadarKit].index, s);
     }
 
-    k = 0;   // health index
+    k = *engine->healthIndex;   // health index
     while (engine->state & RKEngineStateWantActive) {
         // Evaluate the nodal-health buffers every once in a while
         gettimeofday(&t0, NULL);
-        if (RKTimevalDiff(t0, t1) < 0.1) {
+        if (RKTimevalDiff(t0, t1) >= 0.0 && RKTimevalDiff(t0, t1) < 0.1) {
             usleep(10000);
             continue;
         }
@@ -100,7 +120,7 @@ static void *healthConsolidator(void *_in) {
             allTrue = true;
             for (j = 0; j < desc->healthNodeCount; j++) {
                 if (engine->healthNodes[j].active) {
-                    allTrue &= engine->healthNodes[j].healths[indices[j]].flag == RKHealthFlagReady;
+                    allTrue &= engine->healthNodes[j].healths[indices[j]].flag == RKHealthFlagReady || (s >= 10 && j != RKHealthNodeRadarKit);
                 }
             }
             if (allTrue) {
@@ -108,22 +128,7 @@ static void *healthConsolidator(void *_in) {
             } else {
                 usleep(100000);
                 if (++s == 10) {
-                    // Waited too long
-                    for (j = 1; j < desc->healthNodeCount; j++) {
-                        if (engine->healthNodes[j].active && engine->healthNodes[j].healths[indices[j]].flag != RKHealthFlagReady) {
-                            RKLog("%s Replacing enum in node %d @ %d ...\n", engine->name, j, indices[j]);
-                            // This node has been disconnected, duplicate the latest reading, set all enum to old
-                            n = indices[j];
-                            RKHealth *h0 = &engine->healthNodes[j].healths[n];
-                            n = RKPreviousModuloS(n, desc->healthBufferDepth);
-                            RKHealth *h1 = &engine->healthNodes[j].healths[n];
-                            // Copy over the previous health to current health, set all enums to old
-                            h0->i += desc->healthBufferDepth;
-                            strcpy(h0->string, h1->string);
-                            RKReplaceAllValuesOfKey(h0->string, "Enum", RKStatusEnumOld);
-                            h0->flag = RKHealthFlagReady;
-                        }
-                    }
+                    // Waited too long, no longer wait for the other nodes
                     if (engine->verbose > 1) {
                         n = indices[0];
                         i = sprintf(string, "ready = [%x", engine->healthNodes[0].healths[n].flag);
@@ -163,13 +168,45 @@ static void *healthConsolidator(void *_in) {
         // Combine all the active JSON strings
         i = sprintf(string, "{");
         for (j = 0; j < desc->healthNodeCount; j++) {
-            n = indices[j];
-            if (engine->healthNodes[j].active && strlen(engine->healthNodes[j].healths[n].string) > 6) {   // {"k":0} is at least 7 chars
-                i += sprintf(string + i, "%s", engine->healthNodes[j].healths[n].string + 1);              // Ignore the first "{"
+            if (!engine->healthNodes[j].active) {
+                continue;
+            }
+            // Find the latest report of this node. Usually, it is the one before the index
+            RKHealth *source = NULL;
+            RKHealth *report = &reports[j];
+            const bool used = report->flag & RKHealthFlagReady;
+            const uint64_t usedId = report->i;
+            n = engine->healthNodes[j].index;
+            for (s = 0; s < 3 && source == NULL; s++) {
+                n = RKPreviousModuloS(n, desc->healthBufferDepth);
+                if (copyReport(report, &engine->healthNodes[j].healths[n])) {
+                    source = &engine->healthNodes[j].healths[n];
+                }
+            }
+            if (source == NULL) {
+                continue;
+            }
+            if (used && usedId == report->i) {
+                // This node has been disconnected, nothing new since the last record, set all enum to old
+                RKLog("%s Replacing enum in node %d @ %d ...\n", engine->name, j, n);
+                // The new values may be longer but not by more than the reserved room
+                if (strlen(report->string) + reserve < RKMaximumStringLength) {
+                    RKReplaceAllValuesOfKey(report->string, "Enum", RKStatusEnumOld);
+                }
+            }
+            __sync_bool_compare_and_swap(&source->flag, RKHealthFlagReady, RKHealthFlagReady | RKHealthFlagUsed);
+            n = (int)strlen(report->string);
+            if (n > 6) {                                                                                   // {"k":0} is at least 7 chars
+                if (i + n + reserve > RKMaximumStringLength) {
+                    RKLog("%s Error. No room for the %d-character report of node %d.\n", engine->name, n, j);
+                    report->flag = used ? RKHealthFlagReady : RKHealthFlagVacant;
+                    report->i = usedId;
+                    continue;
+                }
+                i += sprintf(string + i, "%s", report->string + 1);                                        // Ignore the first "{"
                 i -= RKStripTail(string);                                                                  // Strip away white spaces
                 i--;                                                                                       // Ignore the last "}"
                 i += sprintf(string + i, ", ");                                                            // Get ready to concatenante
-                engine->healthNodes[j].healths[n].flag |= RKHealthFlagUsed;
             }
         }
 
@@ -215,7 +252,8 @@ static void *healthConsolidator(void *_in) {
         }
         if (isnan(heading) || (desc->initFlags & RKInitFlagIgnoreHeading) || (desc->initFlags & RKInitFlagIgnoreGPS)) {
             // If there is also supplied GPS, replace the enum of the GPS readings to not wired
-            RKReplaceEnumOfKey(string, "heading", RKStatusEnumNotWired);
+            RKReplaceEnumOfKey(string, "\"GPS Heading\"", RKStatusEnumNotWired);
+            i = (int)strlen(string);
             // Concatenate with heading values if GPS values are not reported
             i += sprintf(string + i,
                          "\"Heading Override\":{\"Value\":true,\"Enum\":0}, "
@@ -238,8 +276,9 @@ static void *healthConsolidator(void *_in) {
         }
         if (isnan(latitude) || isnan(longitude) || (desc->initFlags & RKInitFlagIgnoreGPS)) {
             // If there is also supplied GPS, replace the enum of the GPS readings to not wired
-            RKReplaceEnumOfKey(string, "latitude", RKStatusEnumNotWired);
-            RKReplaceEnumOfKey(string, "longitude", RKStatusEnumNotWired);
+            RKReplaceEnumOfKey(string, "\"GPS Latitude\"", RKStatusEnumNotWired);
+            RKReplaceEnumOfKey(string, "\"GPS Longitude\"", RKStatusEnumNotWired);
+            i = (int)strlen(string);
             // Concatenate with latitude, longitude and heading values if GPS values are not reported
             i += sprintf(string + i,
                          "\"GPS Override\":{\"Value\":true,\"Enum\":0}, "
@@ -286,6 +325,7 @@ static void *healthConsolidator(void *_in) {
         *engine->healthIndex = k;
     }
 
+    free(reports);
     free(indices);
 
     engine->state ^= RKEngineStateActive;
diff --git a/source/RKMisc.c b/source/RKMisc.c
index 567b8d4..f26db66 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -188,123 +188,67 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
 //  - Cannot handle certain conditions within quoted strings
 //
 char *RKGetValueOfKey(const char *string, const char *key) {
-    static char valueStrings[8][256];
-    static int k = 7;
-    static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
-    if (string == NULL && key == NULL) {
-        #if defined(DEBUG_MUTEX_DESTROY)
-        fprintf(stderr, "RKGetValueOfKey: Destroying static mutex lock ...\n");
-        #endif
-        pthread_mutex_destroy(&lock);
+    static __thread char valueStrings[8][256];
+    static __thread int k = 7;
+    if (string == NULL || key == NULL) {
         return NULL;
     }
-    pthread_mutex_lock(&lock);
     char *valueString = valueStrings[k];
     k = k == 7 ? 0 : k + 1;
-    pthread_mutex_unlock(&lock);
-    char *s, *e;
+    const char *s, *e;
     size_t len;
     char quotedKey[256];
-    sprintf(quotedKey, "\"%s\"", key);
+    snprintf(quotedKey, sizeof(quotedKey), "\"%s\"", key);
     char *keyPosition = strcasestr(string, quotedKey);
     if (keyPosition == NULL) {
-        sprintf(quotedKey, "'%s'", key);
+        snprintf(quotedKey, sizeof(quotedKey), "'%s'", key);
         keyPosition = strcasestr(string, quotedKey);
     }
-
-    if (keyPosition != NULL) {
-        // Find start of the value
-        s = strchr(keyPosition + strlen(quotedKey), ':');
-        if (s != NULL) {
-            do {
-                s++;
-            } while (*s == ' ' || *s == '\r' || *s == '\n');
-        } else {
-            return NULL;
+    if (keyPosition == NULL) {
+        return NULL;
+    }
+    // Find start of the value
+    s = strchr(keyPosition + strlen(quotedKey), ':');
+    if (s == NULL) {
+        return NULL;
+    }
+    do {
+        s++;
+    } while (*s == ' ' || *s == '\r' || *s == '\n');
+    // Array, dictionary and quoted strings: find the closing symbol, return everything including the symbols
+    // Otherwise, find the end of the value
+    if (*s == '[' || *s == '{' || *s == '"' || *s == '\'') {
+        const char stop = *s == '[' ? ']' : (*s == '{' ? '}' : *s);
+        e = s + 1;
+        while (*e != '\0' && *e != stop) {
+            e++;
         }
-        // Array
-        if (*s == '[') {
-            // Find the end of bracket, return the entire array
-            e = s + 1;
-            while (*e != ']') {
-                e++;
-            }
-            len = e - s + 1;
-            if (len > 0) {
-                strncpy(valueString, s, len);
-                valueString[len] = '\0';
-            } else {
-                valueString[0] = '\0';
-            }
-            return valueString;
-        } else if (*s == '{') {
-            // Find the end of curly bracket, return the entire dictionary
-            e = s + 1;
-            while (*e != '}') {
-                e++;
-            }
-            len = e - s + 1;
-            if (len > 0) {
-                strncpy(valueString, s, len);
-                valueString[len] = '\0';
-            } else {
-                valueString[0] = '\0';
-            }
-            return valueString;
-        } else if (*s == '"') {
-            // Find the end of double quote, return the entire string
-            e = s + 1;
-            while (*e != '"') {
-                e++;
-            }
-            len = e - s + 1;
-            if (len > 0) {
-                strncpy(valueString, s, len);
-                valueString[len] = '\0';
-            } else {
-                valueString[0] = '\0';
-            }
-            return valueString;
-        } else if (*s == '\'') {
-            // Find the end of single quote, return the entire string
-            e = s + 1;
-            while (*e != '\'') {
-                e++;
-            }
-            len = e - s + 1;
-            if (len > 0) {
-                strncpy(valueString, s, len);
-                valueString[len] = '\0';
-            } else {
-                valueString[0] = '\0';
-            }
-            return valueString;
+        if (*e == stop) {
+            e++;
         }
-        // Find end of the value
+    } else {
         e = s;
-        while (*e != ',' && *e != '}' && *e != ']') {
+        while (*e != '\0' && *e != ',' && *e != '}' && *e != ']') {
             e++;
         }
-        len = MIN(255, e - s);
-        if (len > 0) {
-            strncpy(valueString, s, len);
-            valueString[len] = '\0';
-        } else {
-            valueString[0] = '\0';
-        }
-        return valueString;
     }
-    return NULL;
+    len = MIN(sizeof(valueStrings[0]) - 1, (size_t)(e - s));
+    memcpy(valueString, s, len);
+    valueString[len] = '\0';
+    return valueString;
 }
 
 void RKReplaceAllValuesOfKey(char *string, const char *key, int value) {
     int k;
-    char *s = strstr(string, key);
+    char *s;
     char *e;
     size_t l;
     char valueString[32];
+    char quotedKey[256];
+    snprintf(quotedKey, sizeof(quotedKey), "\"%s\"", key);
+    s = strstr(string, quotedKey);
     while (s != NULL) {
-        s += strlen(key);
+        s += strlen(quotedKey);
         while (*s != '\0' && (*s == '"' || *s == ' ' || *s == ':')) {
             s++;
         }
@@ -325,16 +269,11 @@ void RKReplaceAllValuesOfKey(char *string, const char *key, int value) {
             fprintf(stderr, "RKReplaceAllValuesOfKey() encountered an expected results from sprintf().\n");
             return;
         }
-        if (e - s < k) {
-            // Need to add another character
-            l = strlen(e);
-            memmove(e + k - 1, e, l);
-            *(e + k + -1 + l) = '\0';
-        }
+        // Make the value exactly k characters long, the terminating null moves along
+        l = strlen(e);
+        memmove(s + k, e, l + 1);
         memcpy(s, valueString, k);
-        //strncpy(s, valueString, k);
-        //snprintf(s, k, "%s", valueString) < 0 ? abort() : (void)0;
-        s = strstr(e, key);
+        s = strstr(s + k, quotedKey);
     }
 }
 
@@ -347,8 +286,10 @@ void RKReplaceEnumOfKey(char *string, const char *key, int value) {
     if (s == NULL) {
         return;
     }
-    s = strstr(s, "Enum");
-    if (s == NULL) {
+    // The enum must be a part of the object of the key, not one that comes later
+    e = strchr(s, '}');
+    s = strstr(s, "\"Enum\"");
+    if (s == NULL || (e != NULL && s > e)) {
         return;
     }
     s += 6;
@@ -373,12 +314,9 @@ void RKReplaceEnumOfKey(char *string, const char *key, int value) {
         fprintf(stderr, "RKReplaceEnumOfKey() encountered an expected results from sprintf().\n");
     }
     //printf("s = %p   e = %p   valueString = %s   k = %d ==? %d\n", s, e, valueString, (int)(e - s), k);
-    if (e - s < k) {
-        // Need to add another character
-        l = strlen(e);
-        memmove(e + k - 1, e, l);
-        *(e + k + -1 + l) = '\0';
-    }
+    // Make the value exactly k characters long, the terminating null moves along
+    l = strlen(e);
+    memmove(s + k, e, l + 1);
     memcpy(s, valueString, k);
 }
 
@@ -386,17 +324,15 @@ void RKReviseLogicalValues(char *string) {
     char *token;
     token = strcasestr(string, "\"true\"");
     while (token) {
-        sprintf(token, "true");
-        memmove(token + 4, token + 6, strlen(token + 6));
-        memset(token + 4 + strlen(token + 6), '\0', 2 * sizeof(char));
-        token = strcasestr(token + 6, "\"true\"");
+        memcpy(token, "true", 4);
+        memmove(token + 4, token + 6, strlen(token + 6) + 1);
+        token = strcasestr(token + 4, "\"true\"");
     }
     token = strcasestr(string, "\"false\"");
     while (token) {
-        sprintf(token, "false");
-        memmove(token + 5, token + 7, strlen(token + 7));
-        memset(token + 5 + strlen(token + 7), '\0', 2 * sizeof(char));
-        token = strcasestr(token + 7, "\"false\"");
+        memcpy(token, "false", 5);
+        memmove(token + 5, token + 7, strlen(token + 7) + 1);
+        token = strcasestr(token + 5, "\"false\"");
     }
 }
 
-- 
2.43.0


From 2ce9fb646eb75d0194585d87b662bbab8b522f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 16/40] fix: a pulse must get its position from the reports
 around its own time, also before the second report and after the reports went
 around their buffer

---
 source/RKDSP.c            |  7 +++---
 source/RKPositionEngine.c | 53 +++++++++++++++++++--------------------
 2 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/source/RKDSP.c b/source/RKDSP.c
index e0b2cd9..3ae9cf2 100644
--- a/source/RKDSP.c
+++ b/source/RKDSP.c
@@ -26,11 +26,12 @@ float RKGetMinorSectorInDegrees(const float angle1, const float angle2) {
 float RKInterpolatePositiveAngles(const float angleBefore, const float angleAfter, const float alpha) {
     float value = RKGetSignedMinorSectorInDegrees(angleAfter, angleBefore);
     value = angleBefore + alpha * value;
-    if (value > 360.0f) {
-        value -= 360.0f;
-    } else if (value < 0.0f) {
+    if (value < 0.0f) {
         value += 360.0f;
     }
+    if (value >= 360.0f) {
+        value -= 360.0f;
+    }
     return value;
 }
 
diff --git a/source/RKPositionEngine.c b/source/RKPositionEngine.c
index 222f04f..ea592cd 100644
--- a/source/RKPositionEngine.c
+++ b/source/RKPositionEngine.c
@@ -104,7 +104,6 @@ static void *pulseTagger(void *_in) {
     RKPosition *positionAfter;
     double timeBefore;
     double timeAfter;
-    double timeLatest;
     double alpha;
     RKMarker marker0;
     RKMarker marker1 = RKMarkerSweepEnd;
@@ -184,9 +183,6 @@ static void *pulseTagger(void *_in) {
         }
         engine->state ^= RKEngineStateSleep3;
 
-        // Record down the latest time
-        timeLatest = engine->positionBuffer[i].timeDouble;
-
         if (!(engine->state & RKEngineStateWantActive)) {
             break;
         }
@@ -194,34 +190,37 @@ static void *pulseTagger(void *_in) {
         // Lag of the engine
         engine->lag = fmodf(((float)*engine->pulseIndex + engine->radarDescription->pulseBufferDepth - k) / engine->radarDescription->pulseBufferDepth, 1.0f);
 
-        // Search until the time just after the pulse was acquired.
-        i = 0;
-        hasSweepEnd = false;
-        while (engine->positionBuffer[j].timeDouble <= pulse->header.timeDouble && i < engine->radarDescription->pulseBufferDepth && engine->state & RKEngineStateWantActive) {
-            hasSweepEnd |= engine->positionBuffer[j].flag & (RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete);
-            j = RKNextModuloS(j, engine->radarDescription->positionBufferDepth);
-            i++;
-        }
-        if (i == engine->radarDescription->pulseBufferDepth) {
-            if (engine->verbose > 2) {
-                RKLog("Could not find an appropriate position.  %.2f %s %.2f",
-                      pulse->header.timeDouble,
-                      pulse->header.timeDouble < timeLatest ? "<" : ">=",
-                      timeLatest);
-            }
-            // Update pulseIndex for the next watch
-            RKLog("%s Warning. Skipping forward ...\n", engine->name);
-            k = RKPreviousModuloS(*engine->pulseIndex, engine->radarDescription->pulseBufferDepth);
-            continue;
+        // Search backward from the latest position for the pair around the time the pulse was acquired. Stay away from the slots that are about to be recycled.
+        const uint32_t depth = engine->radarDescription->positionBufferDepth;
+        const int lookBack = depth - depth / 8 - 2;
+        const bool rewound = engine->positionBuffer[j].timeDouble > pulse->header.timeDouble;
+        int o = j;
+        j = i;
+        s = RKPreviousModuloS(j, depth);
+        for (i = 0; i < lookBack && (engine->positionBuffer[s].flag & RKPositionFlagReady) && engine->positionBuffer[s].timeDouble > pulse->header.timeDouble; i++) {
+            j = s;
+            s = RKPreviousModuloS(j, depth);
         }
         positionAfter  = &engine->positionBuffer[j];   timeAfter  = positionAfter->timeDouble;
-        positionAfter->flag |= RKPositionFlagUsed;
-
-        // Roll back one slot, which should be the position just before the pulse was acquired.
-        s = RKPreviousModuloS(j, engine->radarDescription->positionBufferDepth);
         positionBefore = &engine->positionBuffer[s];   timeBefore = positionBefore->timeDouble;
+        if (!(positionBefore->flag & RKPositionFlagReady) || timeBefore > pulse->header.timeDouble) {
+            // There is no position older than the pulse, use the oldest one as it is
+            positionBefore = positionAfter;   timeBefore = pulse->header.timeDouble;
+        }
+        positionAfter->flag |= RKPositionFlagUsed;
         positionBefore->flag |= RKPositionFlagUsed;
 
+        // Go through the positions since the previous pulse
+        i = 0;
+        hasSweepEnd = false;
+        if (!rewound) {
+            while (o != j) {
+                hasSweepEnd |= engine->positionBuffer[o].flag & (RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete);
+                o = RKNextModuloS(o, depth);
+                i++;
+            }
+        }
+
         // Linear interpololation : V_interp = V_before + alpha * (V_after - V_before)
         alpha = (pulse->header.timeDouble - timeBefore) / (timeAfter - timeBefore);
         pulse->header.azimuthDegrees = RKInterpolatePositiveAngles(positionBefore->azimuthDegrees,
-- 
2.43.0


From dcec7cf78265a045e2bf00b4d52821de8d0b7095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:34 +0000
Subject: [PATCH 17/40] fix: clear the cross-correlations of RKPulsePairATSR
 before summing, or each ray carries those of the rays before it

---
 source/RKPulsePairATSR.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKPulsePairATSR.c b/source/RKPulsePairATSR.c
index bd1e0c4..01f4243 100644
--- a/source/RKPulsePairATSR.c
+++ b/source/RKPulsePairATSR.c
@@ -284,6 +284,8 @@ int RKPulsePairATSR(RKMomentScratch *space, RKPulse **pulses, const uint16_t pul
         RKZeroOutIQZ(&space->R[p][1], gateCount);
         RKZeroOutIQZ(&space->RX[p][0], gateCount);
         RKZeroOutIQZ(&space->RX[p][1], gateCount);
+        RKZeroOutIQZ(&space->C[p], gateCount);
+        RKZeroOutIQZ(&space->CX[p][0], gateCount);
     }
     // Go through the even pulses for hc and vx
     n = 0;
-- 
2.43.0


From 5506a0e1aac9f09e4df28fc431810e65ed3a6114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:34 +0000
Subject: [PATCH 18/40] fix: moment engine: mark rays with skipped or recycled
 pulses as skipped, bound the ray length and the overload skip, release pulses
 in no ray, do not write stale status bits to recycled pulses

---
 headers/RadarKit/RKTypes.h |   1 +
 source/RKMomentEngine.c    | 105 +++++++++++++++++++++++--------------
 2 files changed, 67 insertions(+), 39 deletions(-)

diff --git a/headers/RadarKit/RKTypes.h b/headers/RadarKit/RKTypes.h
index f148bd7..3ca526b 100644
--- a/headers/RadarKit/RKTypes.h
+++ b/headers/RadarKit/RKTypes.h
@@ -246,6 +246,7 @@ typedef struct rk_modulo_path {
     uint32_t      length;
     uint32_t      modulo;
     uint32_t      planIndex;
+    uint64_t      pulseId;
 } RKModuloPath;
 
 //
diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 6919c67..e0dd3af 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -159,6 +159,28 @@ static void zeroOutRay(RKRay *ray) {
     memset(u, 0, RKBaseProductCount * sizeof(uint8_t));
 }
 
+// A pulse that is still the one that was gathered, i.e., its slot has not been recycled
+static bool isIntact(RKPulse *pulse, const uint64_t pulseId) {
+    return pulse->header.s & RKPulseStatusCompressed && pulse->header.i == pulseId;
+}
+
+// Mark a pulse as used. The slot may be recycled at any time so other bits must not be written back, and a new pulse is not to be marked
+static void markPulse(RKPulse *pulse, const uint64_t pulseId) {
+    if (pulse->header.i == pulseId) {
+        __sync_fetch_and_or(&pulse->header.s, RKPulseStatusUsedForMoments);
+    }
+}
+
+// Release the pulses from pulseId to the one at index k, which do not belong to any ray, so that those who wait for RKPulseStatusUsedForMoments can go on
+static void releasePulses(RKMomentEngine *engine, const uint64_t pulseId, uint32_t k) {
+    uint64_t id = RKGetPulseFromBuffer(engine->pulseBuffer, k)->header.i;
+    uint64_t n = MIN(id - pulseId + 1, engine->radarDescription->pulseBufferDepth);
+    for (; n > 0; n--) {
+        markPulse(RKGetPulseFromBuffer(engine->pulseBuffer, k), id--);
+        k = RKPreviousModuloS(k, engine->radarDescription->pulseBufferDepth);
+    }
+}
+
 int RKNoiseFromConfig(RKMomentScratch *space, RKPulse **pulses, const uint16_t pulseCount) {
     space->noise[0] = space->config->noise[0];
     space->noise[1] = space->config->noise[1];
@@ -298,6 +320,7 @@ static void *momentEngineCore(void *in) {
     RKModuloPath path;
     RKPulse *S, *E, *pulses[RKMaximumPulsesPerRay];
     RKMarker marker = RKMarkerNull;
+    bool compressed;
     float deltaAzimuth, deltaElevation;
     char *string;
 
@@ -368,13 +391,13 @@ static void *momentEngineCore(void *in) {
         ray->header.endAzimuth      = E->header.azimuthDegrees;
         ray->header.endElevation    = E->header.elevationDegrees;
         ray->header.configIndex     = E->header.configIndex;
-        ray->header.gateCount       = E->header.downSampledGateCount;
+        ray->header.gateCount       = MIN(S->header.downSampledGateCount, E->header.downSampledGateCount);
         ray->header.gateSizeMeters  = E->header.gateSizeMeters * engine->radarDescription->pulseToRayRatio;
 
         config = &engine->configBuffer[E->header.configIndex];
 
         // Compute the range correction factor if needed.
-        if (ic != E->header.configIndex || ray->header.gateCount != space->gateCount) {
+        if (ic != E->header.configIndex || previousConfig->i != config->i || ray->header.gateCount != space->gateCount) {
             ic = E->header.configIndex;
             // At this point, gateCount and gateSizeMeters is no longer of the raw pulses, they have been adjusted according to pulseToRayRatio
             space->gateCount = ray->header.gateCount;
@@ -442,9 +465,11 @@ static void *momentEngineCore(void *in) {
         marker = RKMarkerNull;
         i = is;
         k = 0;
+        compressed = true;
         do {
             pulse = RKGetPulseFromBuffer(engine->pulseBuffer, i);
             marker |= pulse->header.marker;
+            compressed &= (pulse->header.s & RKPulseStatusCompressed) != 0;
             pulses[k++] = pulse;
             i = RKNextModuloS(i, engine->radarDescription->pulseBufferDepth);
         } while (k <= path.length);
@@ -452,7 +477,7 @@ static void *momentEngineCore(void *in) {
         // printf("k = %d   is = %u   ie = %u\n", k, is, ie);
 
         // Duplicate a linear array for processor if we are to process; otherwise, just skip this group
-        if (path.length > 3 && deltaAzimuth < 3.0f && deltaElevation < 3.0f && pulses[0]->header.s & RKPulseStatusCompressed) {
+        if (path.length > 3 && deltaAzimuth < 3.0f && deltaElevation < 3.0f && compressed && isIntact(S, path.pulseId)) {
             // Initialize the scratch space
             prepareScratch(space);
             // Call the noise estimator
@@ -488,14 +513,16 @@ static void *momentEngineCore(void *in) {
             }
             ray->header.s |= RKRayStatusSkipped;
         }
+        // The pulses may have been recycled during the processing, the oldest one goes first
+        if (ray->header.s & RKRayStatusProcessed && !isIntact(S, path.pulseId)) {
+            zeroOutRay(ray);
+            ray->header.s ^= RKRayStatusProcessed | RKRayStatusSkipped;
+        }
         path.length--;
         k = 0;
         do {
-            pulse = pulses[k++];
-            pulse->header.s |= RKPulseStatusUsedForMoments;
-            if (k == 0) {
-                RKLog("pulseIndex %u   .s = %x\n", pulse->header.i, pulse->header.s);
-            }
+            markPulse(pulses[k], path.pulseId + k);
+            k++;
         } while (k <= path.length);
 
         // Update the rest of the ray header
@@ -696,18 +723,26 @@ static void *pulseGatherer(void *_in) {
             skipCounter = engine->radarDescription->pulseBufferDepth / 10;
             RKLog("%s Warning. Projected an overflow.   lead-min-max lag = %.2f / %.2f / %.2f   j = %d   pulseIndex = %d vs %d\n",
                 engine->name, engine->lag, engine->minWorkerLag, engine->maxWorkerLag, j, *engine->pulseIndex, k);
+            if (count == 0) {
+                engine->momentSource[j].origin = k;
+                engine->momentSource[j].pulseId = pulse->header.i;
+            }
             // Skip the ray: set source length to 0 for those that are currenly being or have not been processed. Save the j-th source, which is current.
             i = j;
-            do {
+            while (i != *engine->rayIndex) {
                 i = RKPreviousModuloS(i, engine->radarDescription->rayBufferDepth);
                 engine->momentSource[i].length = 0;
-                engine->business--;
-                ray = RKGetRayFromBuffer(engine->rayBuffer, i);
-            } while (!(ray->header.s & RKRayStatusReady) && engine->state & RKEngineStateWantActive);
+            }
+            // The pulses of these rays, those gathered so far and this one are done
+            releasePulses(engine, engine->momentSource[i].pulseId, k);
+            count = 0;
         } else if (skipCounter > 0) {
             // Skip processing if we are in skipping mode
-            if (--skipCounter == 0 && engine->verbose) {
-                RKLog(">%s Info. Skipped a chunk.   pulseIndex = %d vs %d\n", engine->name, *engine->pulseIndex, k);
+            markPulse(pulse, pulse->header.i);
+            if (--skipCounter == 0) {
+                if (engine->verbose) {
+                    RKLog(">%s Info. Skipped a chunk.   pulseIndex = %d vs %d\n", engine->name, *engine->pulseIndex, k);
+                }
                 for (i = 0; i < engine->coreCount; i++) {
                     engine->workers[i].lag = 0.0f;
                 }
@@ -728,20 +763,24 @@ static void *pulseGatherer(void *_in) {
             }
             i0 = pulse->header.positionIndex;
             if (pulse->header.marker & RKMarkerSweepBegin) {
-                engine->momentSource[j].origin = k;
+                if (count > 0) {
+                    releasePulses(engine, engine->momentSource[j].pulseId, RKPreviousModuloS(k, engine->radarDescription->pulseBufferDepth));
+                }
                 count = 0;
                 i1 = i0;
             }
-            if (i1 != i0 || count == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
+            if (count == 0) {
+                // First pulse of a ray
+                engine->momentSource[j].origin = k;
+                engine->momentSource[j].pulseId = pulse->header.i;
+            }
+            if (i1 != i0 || count == RKMaximumPulsesPerRay - 1 || pulse->header.marker & RKMarkerSweepEnd) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     // Sweep engine looks for i0 change and share that pulse. Remove for non-sharing mode.
-                    if (count > 1) {
+                    if (count > 1 && !(pulse->header.marker & RKMarkerSweepEnd)) {
                         count--;
                     }
-                    if (pulse->header.marker & RKMarkerSweepEnd) {
-                        count++;
-                    }
                 }
                 if (count > 0) {
                     // Number of samples in this ray and the correct plan index
@@ -771,6 +810,7 @@ static void *pulseGatherer(void *_in) {
                     j = RKNextModuloS(j, engine->radarDescription->rayBufferDepth);
                     // New origin for the next ray
                     engine->momentSource[j].origin = k;
+                    engine->momentSource[j].pulseId = pulse->header.i;
                     ray = RKGetRayFromBuffer(engine->rayBuffer, j);
                     ray->header.s = RKRayStatusVacant;
                     count = 0;
@@ -1033,10 +1073,11 @@ static void *pulseGathererV1(void *_in) {
             // printf("k%4u   i = %d %d %s\n", k, i0, i1, pulse->header.marker & RKMarkerSweepEnd ? "E" : "");
             if (pulse->header.marker & RKMarkerSweepBegin) {
                 engine->momentSource[j].origin = k;
+                engine->momentSource[j].pulseId = pulse->header.i;
                 count = 0;
                 i1 = i0;
             }
-            if (i1 != i0 || count == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
+            if (i1 != i0 || count == RKMaximumPulsesPerRay - 1 || pulse->header.marker & RKMarkerSweepEnd) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     if (pulse->header.marker & RKMarkerSweepEnd) {
@@ -1074,6 +1115,7 @@ static void *pulseGathererV1(void *_in) {
                     j = RKNextModuloS(j, engine->radarDescription->rayBufferDepth);
                     // New origin for the next ray
                     engine->momentSource[j].origin = k;
+                    engine->momentSource[j].pulseId = pulse->header.i;
                     ray = RKGetRayFromBuffer(engine->rayBuffer, j);
                     ray->header.s = RKRayStatusVacant;
                     count = 0;
@@ -1349,11 +1391,11 @@ RKRay *RKMomentEngineGetProcessedRay(RKMomentEngine *engine, const bool blocking
     }
     RKRay *ray = RKGetRayFromBuffer(engine->rayBuffer, engine->doneIndex);
     if (blocking) {
-        while (!(ray->header.s & RKRayStatusReady) && engine->state & RKEngineStateWantActive) {
+        while ((engine->doneIndex == *engine->rayIndex || !(ray->header.s & RKRayStatusReady)) && engine->state & RKEngineStateWantActive) {
             usleep(1000);
         }
     } else {
-        if (!(ray->header.s & RKRayStatusReady)) {
+        if (engine->doneIndex == *engine->rayIndex || !(ray->header.s & RKRayStatusReady)) {
             return NULL;
         }
     }
@@ -1373,23 +1415,8 @@ void RKMomentEngineFlush(RKMomentEngine *engine) {
 }
 
 void RKMomentEngineWaitWhileBusy(RKMomentEngine *engine) {
-    int k;
-    RKRay *ray;
-
-    k = 0;
+    int k = 0;
     while (engine->business > 0 && k++ < 2000) {
-        if (engine->state & RKEngineStateSleep2) {
-            // Check finished rays
-            #if defined(DEBUG_MOMENT_ENGINE_WAIT)
-            RKLog("%s Revising business  k = %d\n", engine->name, k);
-            #endif
-            ray = RKGetRayFromBuffer(engine->rayBuffer, *engine->rayIndex);
-            while (ray->header.s & RKRayStatusReady && engine->state & RKEngineStateWantActive) {
-                *engine->rayIndex = RKNextModuloS(*engine->rayIndex, engine->radarDescription->rayBufferDepth);
-                ray = RKGetRayFromBuffer(engine->rayBuffer, *engine->rayIndex);
-                engine->business--;
-            }
-        }
         if (engine->verbose && k % 100 == 1) {
             RKLog("%s Waiting ... business = %d   state = %x\n", engine->name, engine->business, engine->state);
         }
-- 
2.43.0


From 638ae14015dfc3112a2effa4488ce8a9e0b121dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:31 +0000
Subject: [PATCH 19/40] fix: RKLog writes whole lines, safely, from any number
 of threads

---
 source/RKFoundation.c | 80 ++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 54 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index e44c4c8..ae92e37 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -90,6 +90,9 @@ RKComplex RKComplexArraySum(RKComplex *src, const int count) {
 
 #pragma mark - Logger
 
+// Mutual exclusive access to the local memory of RKLog and the root data folder
+static pthread_mutex_t rkLogLock = PTHREAD_MUTEX_INITIALIZER;
+
 int RKLog(const char *whatever, ...) {
     if (rkGlobalParameters.stream == NULL && rkGlobalParameters.logfile[0] == 0) {
         return 0;
@@ -100,54 +103,23 @@ int RKLog(const char *whatever, ...) {
     va_list args;
     struct tm tm;
 
-    // Local memory
-    static char *msg = NULL;
-    static char *filename = NULL;
-    static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
-
-    if (msg == NULL) {
-        msg = (char *)malloc(RKMaximumStringLength * sizeof(char));
-    }
-    if (filename == NULL) {
-        filename = (char *)malloc(RKMaximumPathLength * sizeof(char));
-    }
-    if (msg == NULL || filename == NULL) {
-        fprintf(stderr, "Error in RKLog().\n");
-        free(filename);
-        free(msg);
-        return -1;
-    }
+    // Local memory, with some room for colors and a line feed after a message that is too long
+    static char msg[RKMaximumStringLength + 32];
+    static char colored_whatever[RKMaximumStringLength + 32];
+    static char filename[RKMaximumPathLength];
 
     if (whatever == NULL) {
-        va_start(args, whatever);
-        if (va_arg(args, void *) == NULL) {
-            #if defined(DEBUG_MUTEX_DESTROY)
-            fprintf(stderr, "Deallocating RKLog's internal stuff ...\n");
-            #endif
-            if (msg) {
-                free(msg);
-            }
-            if (filename) {
-                free(filename);
-            }
-            pthread_mutex_destroy(&lock);
-        }
-        va_end(args);
         return 0;
     }
 
-    pthread_mutex_lock(&lock);
+    pthread_mutex_lock(&rkLogLock);
 
     // Get the time
     gettimeofday(&utc, NULL);
-    memcpy(&tm, gmtime(&utc.tv_sec), sizeof(struct tm));
+    gmtime_r(&utc.tv_sec, &tm);
 
     // Construct the string
     va_start(args, whatever);
-    if (strlen(whatever) > RKMaximumStringLength - 256) {
-        fprintf(stderr, "RKLog() could potential crash for string '%s'\n", whatever);
-        return 1;
-    }
     if (rkGlobalParameters.logTimeOnly) {
         if (whatever[0] == '>') {
             i += sprintf(msg, "             ");
@@ -173,9 +145,7 @@ int RKLog(const char *whatever, ...) {
 
     char *anchor = (char *)whatever + (whatever[0] == '>' ? 1 : 0);
 
-    if (has_ok || has_info || has_error || has_warning) {
-        char *colored_whatever = (char *)malloc(RKMaximumPacketSize * sizeof(char));
-
+    if ((has_ok || has_info || has_error || has_warning) && strlen(whatever) < RKMaximumStringLength - 32) {
         if (has_ok) {
             len = (size_t)(okay_str - anchor);
         } else if (has_info) {
@@ -207,25 +177,24 @@ int RKLog(const char *whatever, ...) {
         }
         strncpy(colored_whatever + len, anchor, RKMaximumStringLength - len);
 
-        i += vsprintf(msg + i, colored_whatever, args);
+        i += vsnprintf(msg + i, RKMaximumStringLength - i, colored_whatever, args);
 
         if (rkGlobalParameters.showColor) {
-            sprintf(msg + i, RKNoColor);
+            strcat(msg, RKNoColor);
         }
-
-        free(colored_whatever);
     } else {
-        vsprintf(msg + i, anchor, args);
+        i += vsnprintf(msg + i, RKMaximumStringLength - i, anchor, args);
     }
 
-    if (whatever[strlen(whatever) - 1] != '\n') {
-        strncat(msg, "\n", RKMaximumStringLength - 1);
+    if (*anchor == '\0' || whatever[strlen(whatever) - 1] != '\n' || i >= RKMaximumStringLength) {
+        strcat(msg, "\n");
     }
     va_end(args);
     // Produce the string to the specified stream
-    if (rkGlobalParameters.stream) {
-        fprintf(rkGlobalParameters.stream, "%s", msg);
-        fflush(rkGlobalParameters.stream);
+    FILE *stream = rkGlobalParameters.stream;
+    if (stream) {
+        fprintf(stream, "%s", msg);
+        fflush(stream);
     }
     // Write the string to a file if specified
     FILE *logFileID = NULL;
@@ -237,7 +206,7 @@ int RKLog(const char *whatever, ...) {
         } else {
             i = 0;
         }
-        strftime(filename + i, RKNameLength - i, "%Y%m%d.log", &tm);
+        strftime(filename + i, RKMaximumPathLength - i, "%Y%m%d.log", &tm);
         if (i) {
             RKPreparePath(filename);
         }
@@ -259,7 +228,7 @@ int RKLog(const char *whatever, ...) {
         fprintf(logFileID, "%s", msg);
         fclose(logFileID);
     }
-    pthread_mutex_unlock(&lock);
+    pthread_mutex_unlock(&rkLogLock);
     return 0;
 }
 
@@ -345,12 +314,15 @@ int RKSetRootDataFolder(const char *folder) {
     if (strlen(folder) > RKMaximumPathLength - 64) {
         fprintf(stderr, "WARNING. Very long root folder.\n");
     }
-    sprintf(rkGlobalParameters.rootDataFolder, "%s", folder);
+    // RKLog() may be using the folder
+    pthread_mutex_lock(&rkLogLock);
+    snprintf(rkGlobalParameters.rootDataFolder, sizeof(rkGlobalParameters.rootDataFolder), "%s", folder);
     size_t len = strlen(rkGlobalParameters.rootDataFolder);
-    while (rkGlobalParameters.rootDataFolder[len - 1] == '/') {
+    while (len > 0 && rkGlobalParameters.rootDataFolder[len - 1] == '/') {
         len--;
     }
     rkGlobalParameters.rootDataFolder[len] = '\0';
+    pthread_mutex_unlock(&rkLogLock);
     return RKResultSuccess;
 }
 
-- 
2.43.0


From 03c7a309a46fac0dc69cd713b9256489fffe458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 20/40] fix: product writer reports failed writes and leaves no
 incomplete file

---
 source/RKProductFile.c | 43 +++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index cdbd4a1..d1e0498 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -33,7 +33,7 @@ static int get_global_float_att(const int ncid, const nc_type type, const char *
 }
 
 int RKProductFileWriterNC(RKProduct *product, const char *filename) {
-    int j;
+    int j, r;
     int ncid;
     int dimensionIds[2];
     int variableIdAzimuth;
@@ -65,7 +65,7 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
     }
 
     // Open a file
-    if ((j = nc_create(filename, NC_MODE, &ncid)) > 0) {
+    if ((j = nc_create(filename, NC_MODE, &ncid)) != NC_NOERR) {
         RKLog("Error. Unable to create %s   nc_create returned %d\n", filename, j);
         return RKResultFailedToOpenFileForProduct;
     }
@@ -76,7 +76,13 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
     const nc_type floatType = sizeof(RKFloat) == sizeof(double) ? NC_DOUBLE : NC_FLOAT;
 
     // Local memory
-    RKFloat *array1D = (RKFloat *)malloc(MAX(product->header.rayCount, product->header.gateCount) * sizeof(RKFloat));
+    RKFloat *array1D = (RKFloat *)calloc(MAX(product->header.rayCount, product->header.gateCount), sizeof(RKFloat));
+    if (array1D == NULL) {
+        RKLog("Error. Unable to allocate memory for %s\n", filename);
+        nc_close(ncid);
+        remove(filename);
+        return RKResultFailedToOpenFileForProduct;
+    }
 
     // Scan type
     if (product->header.isPPI) {
@@ -202,13 +208,13 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
     put_global_text_att(ncid, "ContactInformation", "https://arrc.ou.edu");
 
     // NetCDF definition ends here
-    nc_enddef(ncid);
+    r = nc_enddef(ncid) != NC_NOERR;
 
     // Data
 #if RKFloat == float
 
-    nc_put_var_float(ncid, variableIdAzimuth, product->startAzimuth);
-    nc_put_var_float(ncid, variableIdElevation, product->startElevation);
+    r |= nc_put_var_float(ncid, variableIdAzimuth, product->startAzimuth) != NC_NOERR;
+    r |= nc_put_var_float(ncid, variableIdElevation, product->startElevation) != NC_NOERR;
     if (product->header.isPPI) {
         for (j = 0; j < product->header.rayCount; j++) {
             array1D[j] = RKUMinDiff(product->endAzimuth[j], product->startAzimuth[j]);
@@ -218,11 +224,11 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
             array1D[j] = RKUMinDiff(product->endElevation[j], product->startElevation[j]);
         }
     }
-    nc_put_var_float(ncid, variableIdBeamwidth, array1D);
+    r |= nc_put_var_float(ncid, variableIdBeamwidth, array1D) != NC_NOERR;
     for (j = 0; j < product->header.rayCount; j++) {
         array1D[j] = product->header.gateSizeMeters;
     }
-    nc_put_var_float(ncid, variableIdGateWidth, array1D);
+    r |= nc_put_var_float(ncid, variableIdGateWidth, array1D) != NC_NOERR;
 
     x = product->data;
     for (j = 0; j < product->header.rayCount * product->header.gateCount; j++) {
@@ -231,12 +237,12 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
         }
         x++;
     }
-    nc_put_var_float(ncid, variableIdData, product->data);
+    r |= nc_put_var_float(ncid, variableIdData, product->data) != NC_NOERR;
 
 #elif RKloat == double
 
-    nc_put_var_double(ncid, variableIdAzimuth, product->startAzimuth);
-    nc_put_var_double(ncid, variableIdElevation, product->startElevation);
+    r |= nc_put_var_double(ncid, variableIdAzimuth, product->startAzimuth) != NC_NOERR;
+    r |= nc_put_var_double(ncid, variableIdElevation, product->startElevation) != NC_NOERR;
     if (product->header.isPPI) {
         for (j = 0; j < product->header.rayCount; j++) {
             array1D[j] = RKUMinDiff(product->endAzimuth[j], product->startAzimuth[j]);
@@ -246,11 +252,11 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
             array1D[j] = RKUMinDiff(product->endElevation[j], product->startElevation[j]);
         }
     }
-    nc_put_var_double(ncid, variableIdBeamwidth, array1D);
+    r |= nc_put_var_double(ncid, variableIdBeamwidth, array1D) != NC_NOERR;
     for (j = 0; j < product->header.rayCount; j++) {
         array1D[j] = product->header.gateSizeMeters;
     }
-    nc_put_var_double(ncid, variableIdGateWidth, array1D);
+    r |= nc_put_var_double(ncid, variableIdGateWidth, array1D) != NC_NOERR;
 
     x = product->data;
     for (j = 0; j < product->header.rayCount * product->header.gateCount; j++) {
@@ -259,7 +265,7 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
         }
         x++;
     }
-    nc_put_var_float(ncid, variableIdData, product->data);
+    r |= nc_put_var_float(ncid, variableIdData, product->data) != NC_NOERR;
 
 #else
 
@@ -267,10 +273,17 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
 
 #endif
 
-    ncclose(ncid);
+    r |= nc_close(ncid) != NC_NOERR;
 
     free(array1D);
 
+    // An incomplete file is not a product
+    if (r) {
+        RKLog("Error. Unable to write %s\n", filename);
+        remove(filename);
+        return RKResultFailedToOpenFileForProduct;
+    }
+
     return RKResultSuccess;
 }
 
-- 
2.43.0


From 4e2fe7fc906d66bbf3120645140bcaa7232abc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 21/40] fix: sweep engine records every completed sweep with
 exactly its own rays and products

---
 headers/RadarKit/RKSweepEngine.h |   1 +
 source/RKProduct.c               |  11 +-
 source/RKSweepEngine.c           | 265 +++++++++++++++++++++----------
 3 files changed, 193 insertions(+), 84 deletions(-)

diff --git a/headers/RadarKit/RKSweepEngine.h b/headers/RadarKit/RKSweepEngine.h
index ccf4d29..95290dd 100644
--- a/headers/RadarKit/RKSweepEngine.h
+++ b/headers/RadarKit/RKSweepEngine.h
@@ -23,6 +23,7 @@ typedef struct rk_sweep_scratch {
     char                             filelist[RKMaximumListLength];              // It's really handleFilesScript + file list
     char                             summary[RKMaximumStringLength];
     RKRay                            *rays[RKMaximumRaysPerSweep];
+    RKIdentifier                     rayIds[RKMaximumRaysPerSweep];              // Identities of the rays when they were gathered
     uint32_t                         rayCount;
 } RKSweepScratchSpace;
 
diff --git a/source/RKProduct.c b/source/RKProduct.c
index 2dc5303..031b64b 100644
--- a/source/RKProduct.c
+++ b/source/RKProduct.c
@@ -59,7 +59,7 @@ void RKProductBufferFree(RKProduct *buffer, const int depth) {
 }
 
 int RKProductInitFromSweep(RKProduct *product, const RKSweep *sweep) {
-    int k;
+    int i, k;
 
     // Required capacity, round to the next 90 ray count, next 100 gate count
     const uint32_t requiredCapacity = (uint32_t)ceilf(sweep->header.rayCount / 90.0f) * 90 * (uint32_t)ceilf(sweep->header.gateCount / 100.0f) * 100;
@@ -101,7 +101,7 @@ int RKProductInitFromSweep(RKProduct *product, const RKSweep *sweep) {
     product->header.SNRThreshold = sweep->header.config.SNRThreshold;
     product->header.SQIThreshold = sweep->header.config.SQIThreshold;
     memcpy(product->header.waveformName, sweep->header.config.waveformName, sizeof(RKName));
-    memcpy(product->header.vcpDefinition, sweep->header.config.vcpDefinition, sizeof(RKMaximumCommandLength));
+    memcpy(product->header.vcpDefinition, sweep->header.config.vcpDefinition, sizeof(RKCommand));
 
     // Expand if the current capacity is not sufficient
     if (product->capacity < requiredCapacity) {
@@ -167,7 +167,12 @@ int RKProductInitFromSweep(RKProduct *product, const RKSweep *sweep) {
             if (x == NULL) {
                 continue;
             }
-            memcpy(y, x, product->header.gateCount * sizeof(RKFloat));
+            // Rays may have fewer gates
+            const uint32_t gateCount = MIN(product->header.gateCount, sweep->rays[k]->header.gateCount);
+            memcpy(y, x, gateCount * sizeof(RKFloat));
+            for (i = gateCount; i < product->header.gateCount; i++) {
+                y[i] = NAN;
+            }
             y += product->header.gateCount;
         }
     }
diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 8b8a43a..fcb9bc4 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -38,6 +38,26 @@ static void RKSweepEngineUpdateStatusString(RKSweepEngine *engine) {
     engine->statusBufferIndex = RKNextModuloS(engine->statusBufferIndex, RKBufferSSlotCount);
 }
 
+// A ray still holds what was gathered if it is ready and still has the same identity,
+// i.e., the slot has not been recycled by the producer.
+static bool rayIsIntact(const RKRay *ray, const RKIdentifier i) {
+    return (ray->header.s & RKRayStatusReady) && ray->header.i == i;
+}
+
+// Set a ray free, only if the slot has not been recycled for a newer ray
+static void releaseRay(RKRay *ray, const RKIdentifier i) {
+    const RKRayStatus s = ray->header.s;
+    if (rayIsIntact(ray, i) && __sync_bool_compare_and_swap(&ray->header.s, s, RKRayStatusVacant) && ray->header.i != i) {
+        __sync_bool_compare_and_swap(&ray->header.s, RKRayStatusVacant, s);
+    }
+}
+
+static void sweepManagerDone(RKSweepEngine *engine) {
+    pthread_mutex_lock(&engine->productMutex);
+    engine->business--;
+    pthread_mutex_unlock(&engine->productMutex);
+}
+
 static void *rayReleaser(void *in) {
     RKSweepEngine *engine = (RKSweepEngine *)in;
 
@@ -47,7 +67,7 @@ static void *rayReleaser(void *in) {
     // Grab the anchor reference as soon as possible. Modulo add 2 to get to
     // the (RKSweepScratchSpaceDepth - 2)-th oldest scratch space
     RKSweepScratchSpace *space = &engine->scratchSpaces[engine->scratchSpaceIndex];
-    const uint8_t count = engine->radarDescription->rayBufferDepth / space->rayCount;
+    const uint32_t count = engine->radarDescription->rayBufferDepth / space->rayCount;
     const uint8_t index = count >= RKSweepScratchSpaceDepth
                         ? RKNextNModuloS(engine->scratchSpaceIndex, 2, RKSweepScratchSpaceDepth)
                         : RKPreviousNModuloS(engine->scratchSpaceIndex, 2, RKSweepScratchSpaceDepth);
@@ -65,10 +85,10 @@ static void *rayReleaser(void *in) {
     if (engine->verbose > 1) {
         RKLog("%s rayReleaser()  index = %d   count = %d\n", engine->name, index, space->rayCount);
     }
-    // Set them free
+    // Set them free, only those that have not been recycled for newer rays
     for (i = 0; i < space->rayCount; i++) {
         ray = space->rays[i];
-        ray->header.s = RKRayStatusVacant;
+        releaseRay(ray, space->rayIds[i]);
     }
     space->rayCount = 0;
 
@@ -103,11 +123,9 @@ static void *sweepManager(void *in) {
     RKSweep *sweep = RKSweepCollect(engine, index);
     if (sweep == NULL) {
         if (engine->verbose > 1) {
-            RKLog("%s Empty sweep   scratchSpaceIndex = %d\n", index);
+            RKLog("%s Empty sweep   scratchSpaceIndex = %d\n", engine->name, index);
         }
-        pthread_mutex_lock(&engine->productMutex);
-        engine->business--;
-        pthread_mutex_unlock(&engine->productMutex);
+        sweepManagerDone(engine);
         return NULL;
     }
     RKRay *S = sweep->rays[0];
@@ -135,7 +153,7 @@ static void *sweepManager(void *in) {
     int sweepMiddleCount = 0;
     for (j = 0; j < sweep->header.rayCount; j++) {
         sweepMiddleCount += (sweep->rays[j]->header.marker & RKMarkerSweepMiddle);
-        sweep->rays[j]->header.s |= RKRayStatusOverviewed;
+        __sync_fetch_and_or(&sweep->rays[j]->header.s, RKRayStatusOverviewed);
     }
     if ((float)sweepMiddleCount / sweep->header.rayCount < 0.8f || sweep->header.rayCount < 3) {
         record = false;
@@ -145,36 +163,40 @@ static void *sweepManager(void *in) {
     char *filelist = engine->scratchSpaces[index].filelist;
     char *summary = engine->scratchSpaces[index].summary;
 
-    int productCount = __builtin_popcount(sweep->header.baseProductList & engine->baseProductList);
+    if (engine->productBuffer == NULL) {
+        RKLog("%s Unexpected NULL productBuffer.\n", engine->name);
+        RKSweepFree(sweep);
+        sweepManagerDone(engine);
+        return NULL;
+    }
 
-    // Base products
+    // Base products, only those that are available in this sweep
     size_t productMemoryUsage = 0;
-    for (p = 0; p < productCount; p++) {
+    for (p = 0; p < RKBaseProductIndexCount; p++) {
         if (engine->baseMomentProductIds[p]) {
             RKProduct *product = RKSweepEngineGetVacantProduct(engine, sweep, engine->baseMomentProductIds[p]);
             if (product == NULL) {
                 RKLog("Error. Unable to get a product slot   p = %d   pid = %d.\n", p, engine->baseMomentProductIds[p]);
                 continue;
             }
-            RKProductInitFromSweep(product, sweep);
+            if (product->desc.baseProductList & sweep->header.baseProductList) {
+                RKProductInitFromSweep(product, sweep);
+            }
             RKSweepEngineSetProductComplete(engine, sweep, product);
             productMemoryUsage += product->totalBufferSize;
         }
     }
     engine->memoryUsage = sizeof(RKSweepEngine) + productMemoryUsage;
 
-    if (engine->productBuffer == NULL) {
-        RKLog("%s Unexpected NULL productBuffer.\n", engine->name);
-        pthread_mutex_lock(&engine->productMutex);
-        engine->business--;
-        pthread_mutex_unlock(&engine->productMutex);
-        return NULL;
-    }
-
-    if (!(engine->state & RKEngineStateWantActive)) {
-        pthread_mutex_lock(&engine->productMutex);
-        engine->business--;
-        pthread_mutex_unlock(&engine->productMutex);
+    // The products hold rays of this sweep only if none of the slots has been recycled up to this point
+    const RKSweepScratchSpace *space = &engine->scratchSpaces[index];
+    for (j = 0; j < space->rayCount; j++) {
+        if (!rayIsIntact(space->rays[j], space->rayIds[j])) {
+            RKLog("%s Warning. Ray buffer overrun. Sweep S%d discarded.   ray = %d / %d\n", engine->name, index, j, space->rayCount);
+            RKSweepFree(sweep);
+            sweepManagerDone(engine);
+            return NULL;
+        }
     }
 
     // Mark the state
@@ -183,10 +205,12 @@ static void *sweepManager(void *in) {
     // Initiate a system command with handleFileScript
     if (engine->hasFileHandlingScript) {
         strncpy(filelist, engine->fileHandlingScript, RKMaximumPathLength);
+    } else {
+        filelist[0] = '\0';
     }
 
     int summarySize = 0;
-    char filename[RKMaximumPathLength];
+    char filename[RKMaximumPathLength] = "";
     size_t filelistLength = strlen(filelist);
 
     // Product recording
@@ -252,7 +276,7 @@ static void *sweepManager(void *in) {
         }
 
         // Make a summary for logging
-        if (p == 0) {
+        if (summarySize == 0) {
             bool filenameTooLong = strlen(sweep->header.filename) > 48;
             summarySize = sprintf(summary, "%s%s%s %s%s-%s%s%s.%s",
                                   rkGlobalParameters.showColor ? (record ? RKGreenColor : RKLightOrangeColor) : "",
@@ -293,8 +317,8 @@ static void *sweepManager(void *in) {
             RKLog("%s Error. Failed using system() -> %d   errno = %d\n", engine->name, j, errno);
         }
         // Potential filenames that may be generated by the custom command. Need to notify file manager about them.
-        RKReplaceFileExtension(filename, strrchr(filename, '-'), ".__");
-        if (engine->fileHandlingScriptProperties & RKScriptPropertyProduceArchive) {
+        if (strrchr(filename, '-') && engine->fileHandlingScriptProperties & RKScriptPropertyProduceArchive) {
+            RKReplaceFileExtension(filename, strrchr(filename, '-'), ".__");
             if (engine->fileHandlingScriptProperties & RKScriptPropertyProduceTarXz) {
                 RKReplaceFileExtension(filename, "__", "tar.xz");
             } else if (engine->fileHandlingScriptProperties & RKScriptPropertyProduceTgz) {
@@ -311,9 +335,7 @@ static void *sweepManager(void *in) {
         }
     }
 
-    pthread_mutex_lock(&engine->productMutex);
-    engine->business--;
-    pthread_mutex_unlock(&engine->productMutex);
+    sweepManagerDone(engine);
 
     return NULL;
 }
@@ -323,18 +345,31 @@ static void *sweepManager(void *in) {
 static void *rayGatherer(void *in) {
     RKSweepEngine *engine = (RKSweepEngine *)in;
 
-    int j, n, p, s;
+    int i, j, n, p, s;
 
     struct timeval t0, t1;
 
-    uint32_t is = 0;   // Start index
-    uint64_t tic = 0;  // Local copy of engine tic
+    uint32_t is = 0;     // Start index
+    uint32_t count = 0;  // Number of rays after the start index
+    uint32_t last = 0;   // Index of the last ray
+    uint64_t tic = 0;    // Local copy of engine tic
+    bool open = false;   // A sweep has begun but not ended
+    bool intact;         // All rays of the sweep are what they were when they came
 
     pthread_t tidSweepManager = (pthread_t)0;
     pthread_t tidRayReleaser = (pthread_t)0;
 
     RKRay *ray;
-    RKRay **rays = engine->scratchSpaces[engine->scratchSpaceIndex].rays;
+    RKSweepScratchSpace *space = &engine->scratchSpaces[engine->scratchSpaceIndex];
+
+    // Identities of the rays as they came
+    const uint32_t depth = engine->radarDescription->rayBufferDepth;
+    RKIdentifier *rayIds = (RKIdentifier *)malloc(depth * sizeof(RKIdentifier));
+    if (rayIds == NULL) {
+        RKLog("%s Error. Unable to allocate memory for ray identities.\n", engine->name);
+        exit(EXIT_FAILURE);
+    }
+    memset(rayIds, 0, depth * sizeof(RKIdentifier));
 
     // Update the engine state
     engine->state |= RKEngineStateWantActive;
@@ -380,6 +415,9 @@ static void *rayGatherer(void *in) {
         while (j == *engine->rayIndex && engine->state & RKEngineStateWantActive) {
             if (engine->state & RKEngineStateReserved) {
                 engine->state ^= RKEngineStateReserved;
+                if (!open) {
+                    continue;
+                }
                 if (engine->verbose) {
                     RKLog("%s Flushing ...\n", engine->name);
                 }
@@ -415,61 +453,114 @@ static void *rayGatherer(void *in) {
         // Lag of the engine
         engine->lag = fmodf(((float)*engine->rayIndex + engine->radarDescription->rayBufferDepth - j) / engine->radarDescription->rayBufferDepth, 1.0f);
 
+        // Keep the identity of the ray as it came
+        rayIds[j] = ray->header.i;
+        if (j != last) {
+            last = j;
+            count++;
+        }
+
+        // A ray that is both the beginning and the end is the end of an open sweep, otherwise, a sweep on its own
+        if (ray->header.marker & RKMarkerSweepBegin && ray->header.marker & RKMarkerSweepEnd && !open) {
+            is = j;
+            count = 0;
+        }
+
         // A sweep is complete
-        if (ray->header.marker & RKMarkerSweepEnd && is == j) {
+        if (ray->header.marker & RKMarkerSweepEnd && count == 0) {
             RKLog("%s Warning. A sweep is complete is == j.\n", engine->name);
-            ray->header.s = RKRayStatusVacant;
+            if (open) {
+                open = false;
+                sweepManagerDone(engine);
+            }
         } else if (ray->header.marker & RKMarkerSweepEnd) {
-            // Gather the rays
+            // Gather the rays, up to what a sweep can hold
             n = 0;
             do {
                 ray = RKGetRayFromBuffer(engine->rayBuffer, is);
                 ray->header.n = is;
-                rays[n++] = ray;
-                is = RKNextModuloS(is, engine->radarDescription->rayBufferDepth);
-            } while (is != j && n < MIN(RKMaximumRaysPerSweep, engine->radarDescription->rayBufferDepth) - 1);
-            ray = RKGetRayFromBuffer(engine->rayBuffer, is);
-            ray->header.n = is;
-            rays[n++] = ray;
-            engine->scratchSpaces[engine->scratchSpaceIndex].rayCount = n;
+                space->rayIds[n] = rayIds[is];
+                space->rays[n++] = ray;
+                is = RKNextModuloS(is, depth);
+            } while (n <= count && n < RKMaximumRaysPerSweep);
+            if (n <= count) {
+                RKLog("%s Warning. Too many rays in a sweep, %u kept out of %u.\n", engine->name, n, count + 1);
+            }
+            space->rayCount = n;
             if (engine->verbose > 1) {
                 RKLog("%s Info. RKMarkerSweepEnd   is = %d   j = %d   n = %d\n", engine->name, is, j, n);
             }
 
+            // The next sweep may begin with the ray that ends this sweep
+            intact = count < depth;
+            is = j;
+            count = 0;
+            ray = RKGetRayFromBuffer(engine->rayBuffer, j);
+            pthread_mutex_lock(&engine->productMutex);
+            if (!open) {
+                engine->business++;
+            }
+            open = ray->header.marker & RKMarkerSweepBegin;
+            if (open) {
+                engine->business++;
+            }
+            pthread_mutex_unlock(&engine->productMutex);
+
             // If the sweepManager is still going, wait for it to finish, launch a new one, wait for engine->scratchSpaceIndex is grabbed through engine->tic
             if (tidSweepManager) {
                 pthread_join(tidSweepManager, NULL);
+                tidSweepManager = (pthread_t)0;
             }
-            tic = engine->tic;
-            if (pthread_create(&tidSweepManager, NULL, sweepManager, engine)) {
-                RKLog("%s Error. Unable to launch a sweep writer.\n", engine->name);
+            // The rays must still be there after the wait
+            for (i = 0; i < n; i++) {
+                intact &= rayIsIntact(space->rays[i], space->rayIds[i]);
             }
-            do {
-                usleep(50000);
-            } while (tic == engine->tic && engine->state & RKEngineStateWantActive);
+            if (!intact) {
+                RKLog("%s Warning. Ray buffer overrun. A sweep of %d rays discarded.\n", engine->name, n);
+                space->rayCount = 0;
+                sweepManagerDone(engine);
+            } else {
+                tic = engine->tic;
+                if (pthread_create(&tidSweepManager, NULL, sweepManager, engine)) {
+                    RKLog("%s Error. Unable to launch a sweep writer.\n", engine->name);
+                    tidSweepManager = (pthread_t)0;
+                    sweepManagerDone(engine);
+                } else {
+                    do {
+                        usleep(50000);
+                    } while (tic == engine->tic);
+                }
 
-            // If the rayReleaser is still going, wait for it to finish, launch a new one, wait for engine->scratchSpaceIndex is grabbed through engine->tic
-            if (tidRayReleaser) {
-                pthread_join(tidRayReleaser, NULL);
-            }
-            tic = engine->tic;
-            if (pthread_create(&tidRayReleaser, NULL, rayReleaser, engine)) {
-                RKLog("%s Error. Unable to launch a ray releaser.\n", engine->name);
-            }
-            do {
-                usleep(50000);
-            } while (tic == engine->tic && engine->state & RKEngineStateWantActive);
+                // If the rayReleaser is still going, wait for it to finish, launch a new one, wait for engine->scratchSpaceIndex is grabbed through engine->tic
+                if (tidRayReleaser) {
+                    pthread_join(tidRayReleaser, NULL);
+                    tidRayReleaser = (pthread_t)0;
+                }
+                tic = engine->tic;
+                if (pthread_create(&tidRayReleaser, NULL, rayReleaser, engine)) {
+                    RKLog("%s Error. Unable to launch a ray releaser.\n", engine->name);
+                    tidRayReleaser = (pthread_t)0;
+                } else {
+                    do {
+                        usleep(50000);
+                    } while (tic == engine->tic);
+                }
 
-            // Ready for next collection while the sweepManager is busy
-            engine->scratchSpaceIndex = RKNextModuloS(engine->scratchSpaceIndex, RKSweepScratchSpaceDepth);
-            if (engine->verbose > 1) {
-                RKLog("%s Info. RKMarkerSweepEnd   scratchSpaceIndex -> %d.\n", engine->name, engine->scratchSpaceIndex);
+                // Ready for next collection while the sweepManager is busy
+                engine->scratchSpaceIndex = RKNextModuloS(engine->scratchSpaceIndex, RKSweepScratchSpaceDepth);
+                if (engine->verbose > 1) {
+                    RKLog("%s Info. RKMarkerSweepEnd   scratchSpaceIndex -> %d.\n", engine->name, engine->scratchSpaceIndex);
+                }
+                space = &engine->scratchSpaces[engine->scratchSpaceIndex];
             }
-            rays = engine->scratchSpaces[engine->scratchSpaceIndex].rays;
         } else if (ray->header.marker & RKMarkerSweepBegin) {
-            pthread_mutex_lock(&engine->productMutex);
-            engine->business++;
-            pthread_mutex_unlock(&engine->productMutex);
+            // A sweep that has not ended is abandoned
+            if (!open) {
+                open = true;
+                pthread_mutex_lock(&engine->productMutex);
+                engine->business++;
+                pthread_mutex_unlock(&engine->productMutex);
+            }
             if (engine->verbose > 1) {
                 RKLog("%s Info. RKMarkerSweepBegin   is = %d   j = %d\n", engine->name, is, j);
             }
@@ -507,11 +598,12 @@ static void *rayGatherer(void *in) {
             while (is != j) {
                 RKRay *ray = RKGetRayFromBuffer(engine->rayBuffer, is);
                 if (!(ray->header.marker & RKMarkerSweepEnd)) {
-                    ray->header.s = RKRayStatusVacant;
+                    releaseRay(ray, rayIds[is]);
                 }
                 is = RKNextModuloS(is, engine->radarDescription->rayBufferDepth);
             }
             is = j;
+            count = 0;
         }
 
         // Record down the ray that is just processed
@@ -533,9 +625,18 @@ static void *rayGatherer(void *in) {
         pthread_join(tidSweepManager, NULL);
         tidSweepManager = (pthread_t)0;
     }
+    if (tidRayReleaser) {
+        pthread_join(tidRayReleaser, NULL);
+        tidRayReleaser = (pthread_t)0;
+    }
     for (p = 0; p < productCount; p++) {
         RKSweepEngineUndescribeProduct(engine, engine->baseMomentProductIds[p]);
+        engine->baseMomentProductIds[p] = 0;
     }
+    if (open) {
+        sweepManagerDone(engine);
+    }
+    free(rayIds);
     engine->state ^= RKEngineStateActive;
     return NULL;
 }
@@ -726,15 +827,16 @@ char *RKSweepEngineLatestSummary(RKSweepEngine *engine) {
 RKProductId RKSweepEngineDescribeProduct(RKSweepEngine *engine, RKProductDesc desc) {
     int i = 0;
     RKProductId productId = 42;
-    while (engine->productBuffer[i].flag & RKProductStatusActive && i < RKMaximumProductCount) {
+    pthread_mutex_lock(&engine->productMutex);
+    while (i < engine->productBufferDepth && engine->productBuffer[i].flag & RKProductStatusActive) {
         productId++;
         i++;
     }
-    if (i == RKMaximumProductCount) {
+    if (i == engine->productBufferDepth) {
+        pthread_mutex_unlock(&engine->productMutex);
         RKLog("%s Error. Unable to add anymore user products.\n", engine->name);
         return 0;
     }
-    pthread_mutex_lock(&engine->productMutex);
     engine->productBuffer[i].i = 0;
     engine->productBuffer[i].pid = productId;
     engine->productBuffer[i].desc = desc;
@@ -751,13 +853,13 @@ RKProductId RKSweepEngineDescribeProduct(RKSweepEngine *engine, RKProductDesc de
 
 int RKSweepEngineUndescribeProduct(RKSweepEngine *engine, RKProductId productId) {
     int i = 0;
-    while (i < RKMaximumProductCount) {
+    while (i < engine->productBufferDepth) {
         if (engine->productBuffer[i].pid == productId) {
             break;
         }
         i++;
     }
-    if (i == RKMaximumProductCount) {
+    if (i == engine->productBufferDepth) {
         RKLog("%s Error. Unable to locate productId = 0x%04x.\n", engine->name, productId);
         return RKResultFailedToFindProductId;
     }
@@ -778,13 +880,13 @@ int RKSweepEngineUndescribeProduct(RKSweepEngine *engine, RKProductId productId)
 
 RKProduct *RKSweepEngineGetVacantProduct(RKSweepEngine *engine, RKSweep *sweep, RKProductId productId) {
     int i = 0;
-    while (i < RKMaximumProductCount) {
+    while (i < engine->productBufferDepth) {
         if (engine->productBuffer[i].pid == productId) {
             break;
         }
         i++;
     }
-    if (i == RKMaximumProductCount) {
+    if (i == engine->productBufferDepth) {
         RKLog("%s Error. Unable to locate productId = %d.\n", engine->name, productId);
         return NULL;
     }
@@ -824,6 +926,7 @@ void RKSweepEngineWaitWhileBusy(RKSweepEngine *engine) {
 RKSweep *RKSweepCollect(RKSweepEngine *engine, const uint8_t scratchSpaceIndex) {
     MAKE_FUNCTION_NAME(name)
     int k;
+    struct tm tm;
     RKSweep *sweep = NULL;
 
     if (engine->verbose > 2) {
@@ -944,7 +1047,7 @@ RKSweep *RKSweepCollect(RKSweepEngine *engine, const uint8_t scratchSpaceIndex)
     sweep->header.endTime = (time_t)E->header.endTime.tv_sec;
     sweep->header.baseProductList = overallBaseProductList;
     sweep->header.isPPI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI;
-    sweep->header.isRHI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI;
+    sweep->header.isRHI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypeRHI;
     if (!sweep->header.isPPI && !sweep->header.isRHI) {
         config = &engine->configBuffer[T->header.configIndex];
         sweep->header.isPPI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI;
@@ -959,9 +1062,9 @@ RKSweep *RKSweepCollect(RKSweepEngine *engine, const uint8_t scratchSpaceIndex)
     memcpy(sweep->rays, rays + k, n * sizeof(RKRay *));
     // Make a suggested filename as .../[DATA_PATH]/20170119/PX10k-20170119-012345-E1.0 (no symbol and extension)
     k = sprintf(sweep->header.filename, "%s%s%s/", engine->radarDescription->dataPath, engine->radarDescription->dataPath[0] == '\0' ? "" : "/", RKDataFolderMoment);
-    k += strftime(sweep->header.filename + k, 10, "%Y%m%d", gmtime(&sweep->header.startTime));
+    k += strftime(sweep->header.filename + k, 10, "%Y%m%d", gmtime_r(&sweep->header.startTime, &tm));
     k += sprintf(sweep->header.filename + k, "/%s-", engine->radarDescription->filePrefix);
-    k += strftime(sweep->header.filename + k, 16, "%Y%m%d-%H%M%S", gmtime(&sweep->header.startTime));
+    k += strftime(sweep->header.filename + k, 16, "%Y%m%d-%H%M%S", &tm);
     if (sweep->header.isPPI) {
         k += sprintf(sweep->header.filename + k, "-E%.1f", sweep->header.config.sweepElevation);
     } else if (sweep->header.isRHI) {
-- 
2.43.0


From a73734bdda20c6332524bafd785511b71d3e46c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:40 +0000
Subject: [PATCH 22/40] fix: server sends packets whole, runs every command
 once, and keeps operators apart

Partial sends were resumed from the wrong place and abandoned after 10 ms while the next packets
followed; commands could be lost, overwritten or held back by buffered reads; operators that failed
never gave their place back; the listening socket was never closed.
---
 headers/RadarKit/RKServer.h |   5 +
 source/RKCommandCenter.c    |  29 +-
 source/RKMisc.c             |   3 +
 source/RKNetwork.c          |  58 ++--
 source/RKServer.c           | 549 ++++++++++++++++++++----------------
 5 files changed, 377 insertions(+), 267 deletions(-)

diff --git a/headers/RadarKit/RKServer.h b/headers/RadarKit/RKServer.h
index a08fe7b..d67d1ed 100644
--- a/headers/RadarKit/RKServer.h
+++ b/headers/RadarKit/RKServer.h
@@ -57,6 +57,7 @@ struct rk_server {
     int              ireq;                                  // A global instance request
     int              state;                                 // A global flag for infinite loop
     pthread_t        threadId;                              // Own thread ID
+    bool             launched;                              // Own thread has been created and not joined
     pthread_mutex_t  lock;                                  // Thread safety mutex of the server
 
     bool             busy[RKServerMaximumOperators];       // Operator occupied
@@ -95,6 +96,10 @@ struct rk_operator  {
     uint8_t          commandIndexWrite;                    // Index to write to the buffer
     uint8_t          commandIndexRead;                     // Index to read from the buffer
 
+    char             inbox[2 * RKMaximumCommandLength];    // Bytes received that are not yet made into commands
+    size_t           inboxLength;                          // Number of bytes in inbox
+    bool             inboxSkip;                            // Skip until the end of line
+
     void             *userResource;                        // User pointer
 };
 
diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index f7f118f..ee9afb1 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -69,6 +69,10 @@ static void copyRayHeader(RKRayHeaderV1 *destination, RKRayHeader *source) {
     destination->reserved3       = source->reserved3;
 }
 
+static bool operatorIsActive(RKOperator *O) {
+    return O->state == RKOperatorStateActive && O->M->state == RKServerStateActive;
+}
+
 #pragma mark - Handlers
 
 int socketCommandHandler(RKOperator *O) {
@@ -78,6 +82,7 @@ int socketCommandHandler(RKOperator *O) {
     int j, k;
 
     char symbol[8];
+    RKNetDelimiter delimiter;
     char name[RKNameLength];
     memcpy(name, engine->name, RKNameLength);
 
@@ -121,15 +126,18 @@ int socketCommandHandler(RKOperator *O) {
             // There is no need to send a response. The delegate function socketStreamHandler sends a beacon periodically
         } else if (user->radar == NULL) {
             k = 0;
-            while (user->radar == NULL) {
+            while (user->radar == NULL && operatorIsActive(O)) {
                 usleep(100000);
                 if (++k % 10 == 0 && engine->verbose > 1) {
-                    RKLog("%s sleep 1/%.1f s   radar->state = 0x%04x\n", engine->name, (float)k * 0.1f, user->radar->state);
+                    RKLog("%s sleep 1/%.1f s   No radar\n", engine->name, (float)k * 0.1f);
                 }
             }
         } else if (user->radar->desc.initFlags & RKInitFlagSignalProcessor) {
             k = 0;
             while (!(user->radar->state & RKRadarStateLive)) {
+                if (!operatorIsActive(O)) {
+                    return 0;
+                }
                 usleep(100000);
                 if (++k % 10 == 0 && engine->verbose > 1) {
                     RKLog("%s sleep 1/%.1f s   radar->state = 0x%04x\n", engine->name, (float)k * 0.1f, user->radar->state);
@@ -204,7 +212,7 @@ int socketCommandHandler(RKOperator *O) {
                             uint64_t tic = user->tic;
                             do {
                                 usleep(100000);
-                            } while (tic == user->tic);
+                            } while (tic == user->tic && operatorIsActive(O));
 
                             RKLog("%s %s Skipping to current ...", engine->name, O->name);
                             RKCommandCenterSkipToCurrent(engine, user->radar);
@@ -226,9 +234,11 @@ int socketCommandHandler(RKOperator *O) {
                     break;
 
                 case 'i':
-                    O->delimTx.type = RKNetworkPacketTypeRadarDescription;
-                    O->delimTx.size = (uint32_t)sizeof(RKRadarDesc);
-                    RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &user->radar->desc, sizeof(RKRadarDesc), NULL);
+                    // O->delimTx belongs to the stream handler, which runs in another thread
+                    delimiter = O->delimString;
+                    delimiter.type = RKNetworkPacketTypeRadarDescription;
+                    delimiter.size = (uint32_t)sizeof(RKRadarDesc);
+                    RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), &user->radar->desc, sizeof(RKRadarDesc), NULL);
                     break;
 
                 case 'q':
@@ -329,9 +339,10 @@ int socketCommandHandler(RKOperator *O) {
                 case 'a':
                     RKLog("%s %s Queue command '%s' to relay.\n", engine->name, O->name, commandString);
                     RKRadarRelayExec(user->radar->radarRelay, commandString, user->commandResponse);
-                    O->delimTx.type = RKNetworkPacketTypeControls;
-                    O->delimTx.size = (uint32_t)strlen(user->commandResponse);
-                    RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->commandResponse, O->delimTx.size, NULL);
+                    delimiter = O->delimString;
+                    delimiter.type = RKNetworkPacketTypeControls;
+                    delimiter.size = (uint32_t)strlen(user->commandResponse);
+                    RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), user->commandResponse, (ssize_t)delimiter.size, NULL);
 
                 case 'r':
                     // Change radar
diff --git a/source/RKMisc.c b/source/RKMisc.c
index f26db66..246ca44 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -954,6 +954,9 @@ char *RKSignalString(const int signal) {
 // Strip out \r, \n, white space, \10 (BS), etc.
 int RKStripTail(char *string) {
     int k = 0;
+    if (*string == '\0') {
+        return 0;
+    }
     char *c = string + strlen(string) - 1;
     while (c != string && (*c == '\r' || *c == '\n' || *c == ' ' || *c == 10)) {
         *c-- = '\0';
diff --git a/source/RKNetwork.c b/source/RKNetwork.c
index 2f7ccab..bf723db 100644
--- a/source/RKNetwork.c
+++ b/source/RKNetwork.c
@@ -8,54 +8,68 @@
 
 #include <RadarKit/RKNetwork.h>
 
+// Send a block of bytes. Return the number of bytes sent, which is less than size upon a failure
+static size_t RKNetworkSendBlock(const int sd, const void *block, const size_t size, int *failure) {
+    size_t k = 0;
+    int count = 0;
+    while (k < size) {
+        const ssize_t r = send(sd, (const char *)block + k, size - k, MSG_DONTWAIT);
+        if (r > 0) {
+            k += r;
+            count = 0;
+            continue;
+        } else if (r < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) {
+            RKLog("RKNetworkSendPackets Unable to send()\n");
+            *failure = RKResultIncompleteSend;
+            break;
+        }
+        // In counts of 10 ms without any progress
+        if (++count > RKNetworkTimeoutSeconds * 10) {
+            *failure = RKResultTimeout;
+            break;
+        }
+        usleep(10000);
+    }
+    return k;
+}
+
 // Use as:
 // RKNetworkSendPackets(operator, payload, size, payload, size, ..., NULL);
 //
+// Return the total number of bytes, or a negative number if they could not be sent. If that happens half way
+// through, the peer can no longer tell where the next packet begins so the connection is shut down.
+//
 // Note:
 // This function is not mutex proctected.
 ssize_t RKNetworkSendPackets(int sd, ...) {
     va_list   arg;
 
     void      *payload;
-    ssize_t   payloadSize = 1;
+    ssize_t   payloadSize;
 
     ssize_t   grandTotalSentSize = 0;
-    ssize_t   totalSentSize = 0;
-    ssize_t   sentSize = 0;
 
-    int       timeout_count = 0;
+    int       failure = RKResultSuccess;
 
     va_start(arg, sd);
 
     // Parse the input arguments until payload = NULL (last input)
     payload = va_arg(arg, void *);
-    while (payload != NULL) {
+    while (payload != NULL && failure == RKResultSuccess) {
         payloadSize = va_arg(arg, ssize_t);
         // RKLog("RKNetworkSendPackets : payloadSize = %d @ %p\n", (int)payloadSize, payload);
-        sentSize = 0;
-        totalSentSize = 0;
-        while (totalSentSize < payloadSize && timeout_count++ < RKNetworkTimeoutSeconds / 10) {
-            if ((sentSize = send(sd, payload + sentSize, payloadSize - sentSize, 0)) > 0) {
-                totalSentSize += sentSize;
-            }
-            if (totalSentSize < payloadSize) {
-                usleep(10000);
-            } else if (sentSize < 0) {
-                RKLog("RKNetworkSendPackets Unable to send()\n");
-                return -RKResultIncompleteSend;
-            }
-        }
-        grandTotalSentSize += totalSentSize;
+        grandTotalSentSize += RKNetworkSendBlock(sd, payload, payloadSize, &failure);
         //RKLog("RKNetworkSendPackets : grandTotalSentSize = %d\n", (int)grandTotalSentSize);
         payload = va_arg(arg, void *);
     }
 
     va_end(arg);
 
-    if (timeout_count >= RKNetworkTimeoutSeconds / 10) {
-        return -RKResultTimeout;
+    if (failure != RKResultSuccess && grandTotalSentSize > 0) {
+        shutdown(sd, SHUT_RDWR);
     }
-    return grandTotalSentSize;
+
+    return failure == RKResultSuccess ? grandTotalSentSize : -failure;
 }
 
 #define SHOW_PACKET_NUMBER(x) \
diff --git a/source/RKServer.c b/source/RKServer.c
index 8969c81..4c7f6a4 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -25,22 +25,46 @@ int RKDefaultTerminateHandler(RKOperator *);
 #pragma mark -
 #pragma mark Private functions
 
+// Free the operators that have hung up, so that their places can be taken again
+static int RKServerFreeHungUpOperators(RKServer *M) {
+    int k, count = 0;
+    for (k = 0; k < M->maxClient; k++) {
+        if (M->busy[k]) {
+            RKOperator *O = M->operators[k];
+            if (O != NULL && O->state == RKOperatorStateHungUp) {
+                RKOperatorFree(O);
+            } else {
+                count++;
+            }
+        }
+    }
+    return count;
+}
+
+// Close the listening socket and declare that the server has ended with the given state
+static void *RKServerEnd(RKServer *M, const RKServerState state) {
+    if (M->sd >= 0) {
+        close(M->sd);
+        M->sd = -1;
+    }
+    M->state = state;
+    return NULL;
+}
+
 void *RKServerRoutine(void *in) {
     RKServer *M = (RKServer *)in;
 
-    M->state = RKServerStateOpening;
-
     // Create the socket
-    if ((M->sd = socket(AF_INET, SOCK_STREAM, 0)) == 0) {
+    if ((M->sd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
         RKLog("%s failed at socket().\n", M->name);
-        M->state = RKServerStateNull;
-        return NULL;
+        return RKServerEnd(M, RKServerStateNull);
     }
 
-    int ii, k;
+    int ii;
     struct sockaddr_in sa;
-    socklen_t sa_len = sizeof(struct sockaddr_in);
+    socklen_t sa_len;
 
+    memset(&sa, 0, sizeof(sa));
     sa.sin_family = AF_INET;
     sa.sin_addr.s_addr = INADDR_ANY;
     sa.sin_port = htons(M->port);
@@ -49,23 +73,19 @@ void *RKServerRoutine(void *in) {
     ii = 1;
     if (setsockopt(M->sd, SOL_SOCKET, SO_REUSEADDR, &ii, sizeof(ii)) == -1) {
         RKLog("%s Error. Failed at setsockopt().\n", M->name);
-        M->state = RKServerStateNull;
-        return NULL;
+        return RKServerEnd(M, RKServerStateNull);
     }
 
     // Bind
     if (bind(M->sd, (struct sockaddr *)&sa, sizeof(sa)) < 0) {
         RKLog("%s Error. Failed at bind().\n", M->name);
-        M->state = RKServerStateNull;
-        close(M->sd);
-        return NULL;
+        return RKServerEnd(M, RKServerStateNull);
     }
 
     // Listen
     if (listen(M->sd, M->maxClient + 1) < 0) {
         RKLog("%s Error. Failed at listen().\n", M->name);
-        M->state = RKServerStateNull;
-        return NULL;
+        return RKServerEnd(M, RKServerStateNull);
     }
 
     if (M->verbose) {
@@ -90,18 +110,16 @@ void *RKServerRoutine(void *in) {
         FD_SET(M->sd, &rfd);
         timeout.tv_sec = 0; timeout.tv_usec = 100000;
         ii = select(M->sd + 1, &rfd, NULL, NULL, &timeout);
+        // Go through all operators to free those that hung up and count those that are busy
+        nclient = RKServerFreeHungUpOperators(M);
         if (ii > 0 && FD_ISSET(M->sd, &rfd)) {
             // Accept a connection, this part shouldn't be blocked. Reuse sa since we no longer need it
+            sa_len = sizeof(struct sockaddr_in);
             if ((sid = accept(M->sd, (struct sockaddr *)&sa, &sa_len)) == -1) {
-                RKLog("%s Error. Failed at accept().\n", M->name);
-                break;
-            }
-            // Count the number of clients, or operators that are busy
-            nclient = 0;
-            for (k = 0; k < M->maxClient; k++) {
-                if (M->busy[k]) {
-                    nclient++;
-                }
+                // A connection that could not be accepted is not a reason to turn the others away
+                RKLog("%s Error. Failed at accept().   errno = %d (%s)\n", M->name, errno, RKErrnoString(errno));
+                usleep(10000);
+                continue;
             }
             if (M->verbose) {
                 RKLog("%s Answering %s:%d  (nclient = %d  sd = %d)\n",
@@ -111,40 +129,148 @@ void *RKServerRoutine(void *in) {
                 RKLog("%s Busy (nclient = #%d)\n", M->name, nclient);
                 send(sid, busy_msg, strlen(busy_msg), 0);
                 close(sid);
-            } else {
-                RKOperator *O = RKOperatorCreate(M, sid, inet_ntoa(sa.sin_addr));
-                M->operators[O->iid] = O;
+            } else if (RKOperatorCreate(M, sid, inet_ntoa(sa.sin_addr)) == NULL) {
+                close(sid);
             }
         } else if (ii == 0) {
             // This isn't really an error, just mean no one is connecting & timeout...
             usleep(1000);
         } else if (ii == -1) {
-            RKLog("%s Error. Failed at select().\n", M->name);
+            if (errno != EINTR) {
+                RKLog("%s Error. Failed at select().   errno = %d (%s)\n", M->name, errno, RKErrnoString(errno));
+                usleep(100000);
+            }
         } else {
             RKLog("%s Error. At an unknown state.\n", M->name);
         }
-
-        // Go through all operator to see which one should be freed
-        for (k = 0; k < M->maxClient; k++) {
-            if (M->busy[k]) {
-                RKOperator *O = M->operators[k];
-                if (O != NULL && O->state == RKOperatorStateHungUp) {
-                    RKOperatorFree(O);
-                    M->operators[k] = NULL;
-                }
-            }
-        }
     } // while (M->state == RKServerStateActive) ...
 
+    // No more connections from here. Wait for all operators to leave since they depend on this server
+    close(M->sd);
+    M->sd = -1;
+    while (RKServerFreeHungUpOperators(M)) {
+        usleep(10000);
+    }
+
     if (M->verbose > 1) {
         RKLog("%s Returning ...\n", M->name);
     }
 
-    M->state = RKServerStateFree;
+    return RKServerEnd(M, RKServerStateFree);
+}
 
-    return NULL;
+#pragma mark - Operator input
+
+// Bytes from the client arrive in chunks of any size. They go through O->inbox, which is only touched by
+// the operator thread, i.e., RKOperatorRoutine() and the stream handler.
+
+// Seconds of a clock that is not affected by adjustments of the system time
+static double RKOperatorClock(void) {
+    struct timespec t;
+    clock_gettime(CLOCK_MONOTONIC, &t);
+    return (double)t.tv_sec + 1.0e-9 * (double)t.tv_nsec;
 }
 
+// Take in what is available. Return 1 if the connection is okay, 0 if the client has closed it, -1 if it is lost
+static int RKOperatorIngest(RKOperator *O) {
+    const size_t room = sizeof(O->inbox) - O->inboxLength;
+    if (room == 0) {
+        return 1;
+    }
+    const ssize_t r = recv(O->sid, O->inbox + O->inboxLength, room, MSG_DONTWAIT);
+    if (r > 0) {
+        O->inboxLength += r;
+        return 1;
+    } else if (r == 0) {
+        return 0;
+    } else if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR) {
+        return 1;
+    }
+    return -1;
+}
+
+static void RKOperatorConsume(RKOperator *O, const size_t count) {
+    O->inboxLength -= count;
+    memmove(O->inbox, O->inbox + count, O->inboxLength);
+}
+
+// Move complete lines to the command buffer as far as there is room. Return the number of lines moved
+static int RKOperatorQueueCommands(RKOperator *O) {
+    int count = 0;
+    while (O->inboxLength) {
+        const uint8_t next = O->commandIndexWrite == RKServerBufferDepth - 1 ? 0 : O->commandIndexWrite + 1;
+        char *eol = (char *)memchr(O->inbox, '\n', O->inboxLength);
+        const size_t length = eol ? eol - O->inbox + 1 : O->inboxLength;
+        if (length > RKMaximumCommandLength - 2 || O->inboxSkip) {
+            // No command is this long. Do not mistake a part of it as another command
+            if (!O->inboxSkip) {
+                RKLog("%s %s Warning. Ignored a command that is too long.\n", O->M->name, O->name);
+            }
+            O->inboxSkip = eol == NULL;
+            RKOperatorConsume(O, length);
+            continue;
+        }
+        if (eol == NULL || next == O->commandIndexRead) {
+            break;
+        }
+        char *str = O->commands[O->commandIndexWrite];
+        memcpy(str, O->inbox, length);
+        memset(str + length, 0, RKMaximumCommandLength - length);
+        RKOperatorConsume(O, length);
+        RKStripTail(str);
+        O->commandIndexWrite = next;
+        count++;
+    }
+    return count;
+}
+
+// Wait until all commands have been executed, unless one of them takes forever
+static void RKOperatorFinishCommands(RKOperator *O) {
+    uint8_t k = O->commandIndexRead;
+    double origin = RKOperatorClock();
+    while (O->M->state == RKServerStateActive && O->state == RKOperatorStateActive &&
+           (RKOperatorQueueCommands(O) || O->commandIndexRead != O->commandIndexWrite)) {
+        if (k != O->commandIndexRead) {
+            k = O->commandIndexRead;
+            origin = RKOperatorClock();
+        } else if (RKOperatorClock() - origin >= O->timeoutSeconds) {
+            RKLog("%s %s Warning. Unfinished commands.\n", O->M->name, O->name);
+            break;
+        }
+        usleep(1000);
+    }
+}
+
+// Receive a block of bytes. Return the number of bytes received, which is less than size upon a failure
+static size_t RKOperatorReceive(RKOperator *O, void *buffer, const size_t size, const double patience) {
+    int r;
+    fd_set rfd;
+    struct timeval timeout;
+    size_t k = 0;
+    double origin = RKOperatorClock();
+    while (true) {
+        if (O->inboxLength) {
+            const size_t count = MIN(size - k, O->inboxLength);
+            memcpy((char *)buffer + k, O->inbox, count);
+            RKOperatorConsume(O, count);
+            k += count;
+            origin = RKOperatorClock();
+        }
+        if (k == size || O->M->state != RKServerStateActive || O->state != RKOperatorStateActive ||
+            RKOperatorClock() - origin > patience) {
+            break;
+        }
+        FD_ZERO(&rfd);
+        FD_SET(O->sid, &rfd);
+        timeout.tv_sec = 0;
+        timeout.tv_usec = 10000;
+        r = select(O->sid + 1, &rfd, NULL, NULL, &timeout);
+        if ((r > 0 && RKOperatorIngest(O) <= 0) || (r < 0 && errno != EINTR)) {
+            break;
+        }
+    }
+    return k;
+}
 
 void *RKOperatorRoutine(void *in) {
 
@@ -153,24 +279,18 @@ void *RKOperatorRoutine(void *in) {
 
     int             r;
 
-    FILE            *fp;
     fd_set          rfd;
     fd_set          wfd;
     fd_set          efd;
 
-    char            *str;
-
     struct timeval  timeout;
-    struct timeval  user_timeout = {M->timeoutSeconds, 0};
-    struct timeval  latestReadTime;
-    struct timeval  latestWriteTime;
-
-    pthread_mutex_init(&O->lock, NULL);
+    double          latestReadTime;
+    double          latestWriteTime;
 
-    O->state = RKOperatorStateActive;
-
-    if (pthread_create(&O->tidExecute, NULL, RKOperatorCommandRoutine, O)) {
+    if (!__sync_bool_compare_and_swap(&O->state, RKOperatorStateAllocated, RKOperatorStateActive) ||
+        pthread_create(&O->tidExecute, NULL, RKOperatorCommandRoutine, O)) {
         RKLog("%s Error. Failed to create RKOperatorCommandRoutine().\n", M->name);
+        O->state = RKOperatorStateHungUp;
         return (void *)RKResultErrorCreatingOperatorCommandRoutine;
     }
 
@@ -182,15 +302,8 @@ void *RKOperatorRoutine(void *in) {
     }
 
     // Initialize some time values
-    gettimeofday(&latestReadTime, NULL);
-    gettimeofday(&latestWriteTime, NULL);
-
-    // Get a file descriptor for get line
-    fp = fdopen(O->sid, "r");
-    if (fp == NULL) {
-        RKLog("%s unable to get a file descriptor fro socket descriptor.\n", M->name);
-        return (void *)RKResultSDToFDError;
-    }
+    latestReadTime = RKOperatorClock();
+    latestWriteTime = latestReadTime;
 
     // Run loop for the read/write
     while (M->state == RKServerStateActive && O->state == RKOperatorStateActive) {
@@ -212,30 +325,25 @@ void *RKOperatorRoutine(void *in) {
                     break;
                 } else if (FD_ISSET(O->sid, &wfd)) {
                     // Ready to write (stream)
-                    gettimeofday(&latestWriteTime, NULL);
                     M->s(O);
+                    latestWriteTime = RKOperatorClock();
                 }
             } else if (r < 0) {
                 // Errors
-                RKLog("%s Error. Encountered something bad.\n", M->name);
-                break;
-            } else {
-                // Timeout (r == 0)
-                gettimeofday(&timeout, NULL);
-                timersub(&timeout, &user_timeout, &timeout);
-                if (timercmp(&timeout, &latestWriteTime, >=)) {
-                    // Dismiss with a terminate function
-                    RKLog("%s %s Encountered a timeout (%d seconds).\n", M->name, O->name, M->timeoutSeconds);
-                    if (M->t != NULL) {
-                        M->t(O);
-                    }
+                if (errno != EINTR) {
+                    RKLog("%s Error. Encountered something bad.\n", M->name);
                     break;
                 }
+            } else if (RKOperatorClock() - latestWriteTime >= M->timeoutSeconds) {
+                // Timeout (r == 0)
+                RKLog("%s %s Encountered a timeout (%d seconds).\n", M->name, O->name, M->timeoutSeconds);
+                break;
             }
         }
         //
         //  Command queue
         //
+        RKOperatorQueueCommands(O);
         FD_ZERO(&rfd);
         FD_ZERO(&efd);
         FD_SET(O->sid, &rfd);
@@ -250,60 +358,50 @@ void *RKOperatorRoutine(void *in) {
                 break;
             } else if (FD_ISSET(O->sid, &rfd)) {
                 // Ready to read (command)
-                gettimeofday(&latestReadTime, NULL);
-                str = O->commands[O->commandIndexWrite];
-                if (fgets(str, RKMaximumCommandLength - 1, fp) == NULL) {
+                latestReadTime = RKOperatorClock();
+                if (O->inboxLength == sizeof(O->inbox)) {
+                    // Commands arrive faster than they can be executed, leave the rest with the network
+                    usleep(1000);
+                } else if ((r = RKOperatorIngest(O)) <= 0) {
                     // When the socket has been disconnected by the client
-                    O->cmd = NULL;
                     RKLog("%s %s Client disconnected.\n", M->name, O->name);
-                    if (M->t != NULL) {
-                        M->t(O);
+                    // Commands that arrived before that are still to be executed
+                    if (r == 0) {
+                        RKOperatorFinishCommands(O);
                     }
                     break;
                 }
-                RKStripTail(str);
-                O->commandIndexWrite = O->commandIndexWrite == RKServerBufferDepth - 1 ? 0 : O->commandIndexWrite + 1;
-                memset(O->commands[O->commandIndexWrite], 0, RKMaximumCommandLength);
             }
         } else if (r < 0) {
             // Errors
-            RKLog("%s %s Error. Encountered an unexpected error.\n", M->name, O->name);
-            break;
-        } else if (M->options & RKServerOptionExpectBeacon) {
-            // Timeout (r == 0)
-            gettimeofday(&timeout, NULL);
-            timersub(&timeout, &user_timeout, &timeout);
-            if (timercmp(&timeout, &latestReadTime, >=)) {
-                // Dismiss with a terminate function
-                RKLog("%s %s Encountered a timeout (%d seconds).\n", M->name, O->name, M->timeoutSeconds);
-                if (M->t != NULL) {
-                    M->t(O);
-                }
+            if (errno != EINTR) {
+                RKLog("%s %s Error. Encountered an unexpected error.\n", M->name, O->name);
                 break;
             }
+        } else if (M->options & RKServerOptionExpectBeacon && RKOperatorClock() - latestReadTime >= M->timeoutSeconds) {
+            // Timeout (r == 0)
+            RKLog("%s %s Encountered a timeout (%d seconds).\n", M->name, O->name, M->timeoutSeconds);
+            break;
         }
     } // while () ...
 
-    // If the state was changed deliberately by RKOperatorHangUp()
-    if (O->state == RKOperatorStateClosing) {
-        if (M->t != NULL) {
-            M->t(O);
-        }
-    }
-
     // Set the state if all the 'break' conditions signals the RKOperatorCommandRoutine to quit as well.
     O->state = RKOperatorStateClosing;
 
     pthread_join(O->tidExecute, NULL);
-    pthread_mutex_destroy(&O->lock);
-    fclose(fp);
 
-    O->state = RKOperatorStateHungUp;
+    // Dismiss with a terminate function, nothing else uses the operator at this point
+    O->cmd = NULL;
+    if (M->t != NULL) {
+        M->t(O);
+    }
 
     if (M->verbose > 1) {
         RKLog(">%s %s Operator routine returning ...\n", M->name, O->name);
     }
 
+    O->state = RKOperatorStateHungUp;
+
     return NULL;
 }
 
@@ -347,6 +445,8 @@ RKOperator *RKOperatorCreate(RKServer *M, int sid, const char *ip) {
     }
     memset(O, 0, sizeof(RKOperator));
 
+    pthread_mutex_init(&O->lock, NULL);
+
     pthread_mutex_lock(&M->lock);
 
     int k = 0;
@@ -354,6 +454,7 @@ RKOperator *RKOperatorCreate(RKServer *M, int sid, const char *ip) {
         k++;
     }
     M->busy[k] = true;
+    M->operators[k] = O;
 
     // Default operator parameters that should not be 0
     O->M = M;
@@ -383,7 +484,11 @@ RKOperator *RKOperatorCreate(RKServer *M, int sid, const char *ip) {
 
     if (pthread_create(&O->tidRead, NULL, RKOperatorRoutine, O)) {
         RKLog("%s Error. Failed to create RKOperatorRoutine().\n", M->name);
+        M->operators[k] = NULL;
+        M->busy[k] = false;
         pthread_mutex_unlock(&M->lock);
+        pthread_mutex_destroy(&O->lock);
+        free(O);
         return NULL;
     }
 
@@ -399,10 +504,14 @@ void RKOperatorFree(RKOperator *O) {
 
     pthread_join(O->tidRead, NULL);
     close(O->sid);
-    free(O);
+    pthread_mutex_destroy(&O->lock);
 
-    M->busy[k] = false;
+    pthread_mutex_lock(&M->lock);
     M->operators[k] = NULL;
+    M->busy[k] = false;
+    pthread_mutex_unlock(&M->lock);
+
+    free(O);
 }
 
 
@@ -457,20 +566,27 @@ int RKDefaultWelcomeHandler(RKOperator *O) {
             "What can I do for you?" RKEOL,
             border,
             O->name);
-    send(O->sid, msg, strlen(msg), 0);
+    RKOperatorSendString(O, msg);
     return 0;
 }
 
 
 int RKDefaultTerminateHandler(RKOperator *O) {
     char str[] = "You are boring. I'm disconnecting you...\nBye." RKEOL;
-    send(O->sid, str, strlen(str), 0);
+    RKOperatorSendString(O, str);
     return 0;
 }
 
 #pragma mark -
 #pragma mark Life Cycle
 
+static void RKServerJoin(RKServer *M) {
+    if (M->launched) {
+        pthread_join(M->threadId, NULL);
+        M->launched = false;
+    }
+}
+
 RKServer *RKServerInit(void) {
     RKServer *M = (RKServer *)malloc(sizeof(RKServer));
     if (M == NULL) {
@@ -478,6 +594,7 @@ RKServer *RKServerInit(void) {
         return NULL;
     }
     memset(M, 0, sizeof(RKServer));
+    M->sd = -1;
     M->port = 10000;
     M->maxClient = RKServerMaximumOperators;
     M->timeoutSeconds = 5;
@@ -496,6 +613,8 @@ void RKServerFree(RKServer *M) {
     while (M->state > RKServerStateFree) {
         usleep(100000);
     }
+    RKServerJoin(M);
+    pthread_mutex_destroy(&M->lock);
     free(M);
 }
 
@@ -546,11 +665,21 @@ void RKServerSetSharedResource(RKServer *M, void *resource) {
 #pragma mark - Server actions
 
 void RKServerStart(RKServer *M) {
+    if (M->state == RKServerStateActive || M->state == RKServerStateOpening) {
+        RKLog("%s Already started.\n", M->name);
+        return;
+    }
+    // The previous run may still be on its way out
+    RKServerWait(M);
+    RKServerJoin(M);
     M->state = RKServerStateOpening;
     if (pthread_create(&M->threadId, NULL, RKServerRoutine, M)) {
         RKLog("%s Error. Unable to launch main server.\n", M->name);
+        M->state = RKServerStateNull;
+        return;
     }
-    while (M->state > RKServerStateNull && M->state < RKServerStateActive) {
+    M->launched = true;
+    while (M->state == RKServerStateOpening) {
         usleep(25000);
     }
 //    if (M->verbose) {
@@ -576,19 +705,11 @@ void RKServerStop(RKServer *M) {
 
 #pragma mark - Miscellaneous functions
 
+// Receive a payload from the client. This function should only be called from the stream handler
 ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessageFormat format) {
-    int k = 0;
-    fd_set rfd;
-    fd_set efd;
-    ssize_t r = -1;
-    int readCount;
+    size_t k = 0;
     bool readOkay = false;
 
-    FD_ZERO(&rfd);
-    FD_ZERO(&efd);
-    FD_SET(O->sid, &rfd);
-    FD_SET(O->sid, &efd);
-
     RKNetDelimiter *delimiter = &O->delimRx;
 
     RKServer *M = O->M;
@@ -598,36 +719,12 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
     switch (format) {
 
         case RKNetworkMessageFormatHeaderDefinedSize:
-            //RKNetworkread
-            k = 0;
-            readCount = 0;
-            while (readCount++ < O->timeoutSeconds * 100) {
-                if ((r = read(O->sid, delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
-                    if (r) {
-                        k += r;
-                        if (k == sizeof(RKNetDelimiter)) {
-                            break;
-                        } else if (k > sizeof(RKNetDelimiter)) {
-                            RKLog("%s %s Error. Should not read larger than sizeof(RKNetDelimiter) = %zu\n", M->name, O->name, sizeof(RKNetDelimiter));
-                            break;
-                        }
-                    } else {
-                        usleep(10000);
-                    }
-                } else if (errno != EAGAIN) {
-                    RKLog("%s %s Error. RKMessageFormatFixedHeaderVariableBlock   r = %d   k = %d   errno = %d (%s)\n",
-                              M->name, O->name, r, k, errno, RKErrnoString(errno));
-                    break;
-                } else {
-                    usleep(10000);
-                }
-            }
-            if (k != sizeof(RKNetDelimiter) || readCount > O->timeoutSeconds * 100) {
-                if (errno != ECONNREFUSED) {
-                    RKLog("%s %s Error. Incomplete read().   errno = %d (%s)\n", M->name, O->name, errno, RKErrnoString(errno));
-                }
+            k = RKOperatorReceive(O, delimiter, sizeof(RKNetDelimiter), O->timeoutSeconds);
+            if (k != sizeof(RKNetDelimiter)) {
+                RKLog("%s %s Error. Incomplete read().   k = %d\n", M->name, O->name, (int)k);
                 break;
             }
+            k = 0;
             //RKLog("Warning. delimiter -> %d %d %d %d\n", delimiter->type, delimiter->subtype, delimiter->size, delimiter->decodedSize);
             // If the delimiter specifies 0 payload, it could just be a beacon
             if (delimiter->size == 0) {
@@ -643,76 +740,28 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                 break;
             }
             // Now the actual payload
-            k = 0;
-            readCount = 0;
-            while (readCount++ < M->timeoutSeconds * 100) {
-                if ((r = (int)read(O->sid, buffer + k, delimiter->size - k)) > 0) {
-                    k += r;
-                    if (k >= delimiter->size) {
-                        break;
-                    } else {
-                        usleep(10000);
-                    }
-                } else if (errno != EAGAIN) {
-                    if (M->verbose > 1) {
-                        RKLog("%s Error. RKMessageFormatFixedBlock   r=%d  k=%d  errno=%d (%s)  %d\n",
-                              O->name, r, k, errno, RKErrnoString(errno), readCount);
-                    }
-                    readCount = O->timeoutSeconds * 10000;
-                    break;
-                } else {
-                    usleep(10000);
-                }
+            k = RKOperatorReceive(O, buffer, delimiter->size, M->timeoutSeconds);
+            if (k != delimiter->size) {
                 if (M->verbose > 1) {
-                    RKLog("... errno = %d ...\n", errno);
-                }
-            }
-            if (readCount >= O->timeoutSeconds * 100) {
-                if (M->verbose > 1) {
-                    RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", O->name, readCount, errno);
+                    RKLog("%s Not a proper frame.   k = %d / %u\n", O->name, (int)k, delimiter->size);
                 }
                 break;
             }
-            if (k > 0 && k < RKMaximumPacketSize) {
+            if (k < RKMaximumPacketSize) {
                 *((char *)buffer + k) = '\0';
             }
             readOkay = true;
             break;
 
         case RKNetworkMessageFormatConstantSize:
-            k = 0;
-            readCount = 0;
-            while (readCount++ < M->timeoutSeconds * 100) {
-                if ((r = (int)read(O->sid, buffer + k, blockLength - k)) > 0) {
-                    k += r;
-                    if (k >= blockLength) {
-                        break;
-                    } else {
-                        usleep(10000);
-                    }
-                } else if (errno != EAGAIN) {
-                    if (M->verbose > 1) {
-                        RKLog("%s Error. RKMessageFormatFixedBlock   r=%d  k=%d  errno=%d (%s)  %d\n",
-                              O->name, r, k, errno, RKErrnoString(errno), readCount);
-                    }
-                    readCount = O->timeoutSeconds * 10000;
-                    break;
-                } else {
-                    usleep(10000);
-                }
-                if (M->verbose > 1) {
-                    RKLog("... errno = %d ...\n", errno);
-                }
-            }
-            if (readCount >= O->timeoutSeconds * 100) {
+            k = RKOperatorReceive(O, buffer, blockLength, M->timeoutSeconds);
+            if (k != blockLength) {
                 if (M->verbose > 1) {
-                    RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", O->name, readCount, errno);
+                    RKLog("%s Not a proper frame.   k = %d / %d\n", O->name, (int)k, blockLength);
                 }
                 break;
             }
-            if (k > 0 && k < RKMaximumPacketSize) {
-                *((char *)buffer + k) = '\0';
-            }
+            *((char *)buffer + k) = '\0';
             readOkay = true;
             break;
 
@@ -727,24 +776,58 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
     return -1;
 }
 
-// In counts of 10ms, should be plenty, in-transit buffer should be able to hold it
-#define RKSocketTimeCountOf10ms  10
+// Send a block of bytes to the client. Return the number of bytes sent, which is less than size upon a failure
+static size_t RKOperatorSendBlock(RKOperator *O, const void *block, const size_t size, int *failure) {
+    RKServer *M = O->M;
+    fd_set wfd;
+    struct timeval timeout;
+    size_t k = 0;
+    double now, origin = RKOperatorClock();
+    while (k < size) {
+        const ssize_t r = send(O->sid, (const char *)block + k, size - k, MSG_DONTWAIT);
+        now = RKOperatorClock();
+        if (r > 0) {
+            k += r;
+            origin = now;
+            continue;
+        } else if (r < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) {
+            *failure = RKResultIncompleteSend;
+            break;
+        }
+        // Wait for the client to make room, but not when everyone is leaving
+        if (now - origin >= M->timeoutSeconds ||
+            (now - origin >= 0.1 && (M->state != RKServerStateActive || O->state != RKOperatorStateActive))) {
+            *failure = RKResultTimeout;
+            break;
+        }
+        FD_ZERO(&wfd);
+        FD_SET(O->sid, &wfd);
+        timeout.tv_sec = 0;
+        timeout.tv_usec = 10000;
+        if (select(O->sid + 1, NULL, &wfd, NULL, &timeout) != 0) {
+            usleep(100);
+        }
+    }
+    return k;
+}
 
 // Use as:
 // RKOperatorSendPackets(operator, payload, size, payload, size, ..., NULL);
+//
+// All the payloads go out as one unit. Return the total number of bytes, or a negative number if they
+// could not be sent. If that happens half way through, the client can no longer tell where the next packet
+// begins so the connection is closed.
 
 ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
 
     va_list   arg;
 
     void      *payload;
-    ssize_t   payloadSize = 1;
+    ssize_t   payloadSize;
 
     ssize_t   grandTotalSentSize = 0;
-    ssize_t   totalSentSize = 0;
-    ssize_t   sentSize = 0;
 
-    int timeout_count = 0;
+    int       failure = RKResultSuccess;
 
     pthread_mutex_lock(&O->lock);
 
@@ -752,35 +835,24 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
 
     // Parse the input arguments until payload = NULL (last input)
     payload = va_arg(arg, void *);
-    while (payload != NULL) {
+    while (payload != NULL && failure == RKResultSuccess) {
         payloadSize = va_arg(arg, ssize_t);
         //printf("size %d @ %p\n", (int)payloadSize, payload);
-        sentSize = 0;
-        totalSentSize = 0;
-        while (totalSentSize < payloadSize && timeout_count++ < RKSocketTimeCountOf10ms) {
-            if ((sentSize = send(O->sid, payload + sentSize, payloadSize - sentSize, 0)) > 0) {
-                totalSentSize += sentSize;
-            }
-            if (totalSentSize < payloadSize) {
-                usleep(1000);
-            } else if (sentSize < 0) {
-                pthread_mutex_unlock(&O->lock);
-                return RKResultIncompleteSend;
-            }
-        }
-        grandTotalSentSize += totalSentSize;
+        grandTotalSentSize += RKOperatorSendBlock(O, payload, payloadSize, &failure);
         payload = va_arg(arg, void *);
     }
 
     va_end(arg);
 
-    pthread_mutex_unlock(&O->lock);
-
-    if (timeout_count >= RKSocketTimeCountOf10ms) {
-        return RKResultTimeout;
+    if (failure != RKResultSuccess && grandTotalSentSize > 0) {
+        RKLog("%s %s Error. Incomplete packet. Disconnecting ...\n", O->M->name, O->name);
+        shutdown(O->sid, SHUT_RDWR);
+        RKOperatorHangUp(O);
     }
 
-    return grandTotalSentSize;
+    pthread_mutex_unlock(&O->lock);
+
+    return failure == RKResultSuccess ? grandTotalSentSize : -failure;
 }
 
 ssize_t RKOperatorSendString(RKOperator *O, const char *string) {
@@ -788,15 +860,19 @@ ssize_t RKOperatorSendString(RKOperator *O, const char *string) {
 }
 
 ssize_t RKOperatorSendDelimitedString(RKOperator *O, const char *string) {
-    O->delimString.type = RKNetworkPacketTypePlainText;
-    O->delimString.size = (uint32_t)strlen(string);
-    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, O->delimString.size, NULL);
+    // Work with a copy as several threads may be sending
+    RKNetDelimiter delimiter = O->delimString;
+    delimiter.type = RKNetworkPacketTypePlainText;
+    delimiter.size = (uint32_t)strlen(string);
+    return RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), string, (ssize_t)delimiter.size, NULL);
 }
 
 ssize_t RKOperatorSendCommandResponse(RKOperator *O, const char *string) {
-    O->delimString.type = RKNetworkPacketTypeCommandResponse;
-    O->delimString.size = (uint32_t)strlen(string);
-    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, O->delimString.size, NULL);
+    // Work with a copy as several threads may be sending
+    RKNetDelimiter delimiter = O->delimString;
+    delimiter.type = RKNetworkPacketTypeCommandResponse;
+    delimiter.size = (uint32_t)strlen(string);
+    return RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), string, (ssize_t)delimiter.size, NULL);
 }
 
 ssize_t RKOperatorSendBeacon(RKOperator *O) {
@@ -805,7 +881,8 @@ ssize_t RKOperatorSendBeacon(RKOperator *O) {
 }
 
 void RKOperatorHangUp(RKOperator *O) {
-    O->state = RKOperatorStateClosing;
+    // Only those in service, as the operator may be gone already
+    __sync_bool_compare_and_swap(&O->state, RKOperatorStateActive, RKOperatorStateClosing);
     return;
 }
 
-- 
2.43.0


From ae1f5856c3ce64bf9cdc76d7fb2143f47ff31e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 23/40] fix: client receives every message whole, reconnects
 and can always be stopped

---
 source/RKClient.c | 737 +++++++++++++++++++++-------------------------
 1 file changed, 338 insertions(+), 399 deletions(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index af1d8d2..bb3f90a 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -18,446 +18,368 @@ void *theClient(void *in);
 
 #pragma mark - Helper Functions
 
-void *theClient(void *in) {
-    RKClient *C = (RKClient *)in;
-
-    int r;
-    int k;
-    int flags;
-    int readCount, timeoutCount;
-    struct timeval timeout;
-    struct timeval previousBeaconTime = {0, 0};
-    bool readOkay;
-
-    C->state = RKClientStateCreating;
-
-    FILE *fid = NULL;
+// Time in seconds that does not depend on the wall clock
+static double RKClientTime(void) {
+    struct timespec t;
+    clock_gettime(CLOCK_MONOTONIC, &t);
+    return (double)t.tv_sec + 1.0e-9 * (double)t.tv_nsec;
+}
 
-    void *buf = (void *)malloc(RKMaximumPacketSize);
-    if (buf == NULL) {
-        RKLog("Error. Unable to allocate space for a buffer.\n");
-        return (void *)RKResultErrorCreatingOperatorRoutine;
+// Set the state unless the client has been asked to stop
+static void RKClientSetState(RKClient *C, const RKClientState state) {
+    pthread_mutex_lock(&C->lock);
+    if (C->state < RKClientStateDisconnecting) {
+        C->state = state;
     }
-    void *delimiter = &C->netDelimiter;
-    char *cbuf = (char *)buf;
-
-    C->userPayload = buf;
+    pthread_mutex_unlock(&C->lock);
+}
 
-    if (C->verbose > 1) {
-        RKLog("%s is working hard ...\n", C->name);
+// Wait in counts of 0.1 s unless the client has been asked to stop
+static void RKClientWait(RKClient *C, int count) {
+    while (count-- > 0 && C->state < RKClientStateDisconnecting) {
+        if (count % 10 == 0 && C->verbose > 1) {
+            RKLog("%s Reconnect in %d sec%s ...\n", C->name, count / 10, count / 10 > 1 ? "s" : "");
+        }
+        usleep(100000);
     }
+}
 
-    char ping[] = "ping" RKEOL;
+static void RKClientClose(RKClient *C) {
+    pthread_mutex_lock(&C->lock);
+    if (C->sd >= 0) {
+        close(C->sd);
+        C->sd = -1;
+    }
+    pthread_mutex_unlock(&C->lock);
+}
 
-    // Here comes the infinite loop until being stopped
-    while (C->state < RKClientStateDisconnecting) {
+// Wait up to 0.1 s for the socket to be readable. Return 1 for readable, 0 for not yet, negative upon an error
+static int RKClientWaitToRead(RKClient *C) {
+    struct timeval timeout;
+    FD_ZERO(&C->rfd);
+    FD_ZERO(&C->efd);
+    FD_SET(C->sd, &C->rfd);
+    FD_SET(C->sd, &C->efd);
+    timeout.tv_sec = 0;
+    timeout.tv_usec = 100000;
+    const int r = select(C->sd + 1, &C->rfd, NULL, &C->efd, &timeout);
+    if (r < 0) {
+        return errno == EINTR ? 0 : -1;
+    }
+    if (r > 0 && FD_ISSET(C->sd, &C->efd)) {
+        return -1;
+    }
+    return r > 0 ? 1 : 0;
+}
 
-        C->state = RKClientStateResolvingIP;
+// Read whatever is available. Return the number of bytes, 0 for nothing yet, negative if the connection has ended
+static ssize_t RKClientReadSome(RKClient *C, void *block, const size_t size) {
+    const ssize_t r = recv(C->sd, block, size, MSG_DONTWAIT);
+    if (r > 0) {
+        return r;
+    }
+    if (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR)) {
+        return 0;
+    }
+    return r == 0 && C->type == RKNetworkSocketTypeUDP ? 0 : -1;
+}
 
-        // Resolve hostname to IP address
-        if (C->verbose > 1) {
-            RKLog("%s Resolving IP address ...\n", C->name);
-        }
-        struct hostent *h = gethostbyname2(C->hostname, AF_INET);
-        if (h == NULL) {
-            RKLog("%s Error. Unable to resolve '%s'\n", C->name, C->hostname);
-            k = RKNetworkReconnectSeconds * 10;
-            do {
-                usleep(100000);
-            } while (k-- > 0 && C->state < RKClientStateReconnecting);
+// Read exactly a block of size bytes
+static int RKClientReadBlock(RKClient *C, void *block, const size_t size) {
+    int r;
+    ssize_t s;
+    size_t k = 0;
+    double time = RKClientTime();
+    while (k < size) {
+        s = RKClientReadSome(C, (char *)block + k, size - k);
+        if (s > 0) {
+            k += s;
+            time = RKClientTime();
             continue;
-        }
-        strcpy(C->hostIP, inet_ntoa(*((struct in_addr *)h->h_addr_list[0])));
-
-        if (C->verbose > 1) {
-            RKLog("%s Opening a %s socket ...\n", C->name,
-                  C->type == RKNetworkSocketTypeTCP ? "TCP" :
-                  (C->type == RKNetworkSocketTypeUDP ? "UDP" : "(NULL)"));
-        }
-        if (C->type == RKNetworkSocketTypeTCP) {
-            if ((C->sd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
-                RKLog("%s Error. Unable to create a TCP socket.\n", C->name);
-                C->state = RKClientStateDisconnected;
-                return NULL;
-            }
-        } else if (C->type == RKNetworkSocketTypeUDP) {
-            if ((C->sd = socket(AF_INET, SOCK_DGRAM, IPPROTO_UDP)) < 0) {
-                RKLog("%s Error. Unable to create a UDP socket.\n", C->name);
-                C->state = RKClientStateDisconnected;
-                return NULL;
+        } else if (s < 0) {
+            if (C->verbose > 1) {
+                RKLog("%s Connection ended.   k = %zu / %zu\n", C->name, k, size);
             }
-        } else {
-            RKLog("%s Error. Unable to determine the socket type %d.\n", C->name, C->type);
-            C->state = RKClientStateDisconnected;
-            return NULL;
+            return RKResultErrorCreatingOperatorRoutine;
         }
-        if (C->blocking == false) {
-            flags = fcntl(C->sd, F_GETFL);
-            if (fcntl(C->sd, F_SETFL, flags | O_NONBLOCK) == -1) {
-                RKLog("%s Error. Unable to use non-blocking option.\n", C->name);
+        do {
+            if (C->state >= RKClientStateDisconnecting || RKClientTime() - time > (double)C->timeoutSeconds) {
+                if (C->verbose > 1) {
+                    RKLog("%s Not a proper frame.   k = %zu / %zu\n", C->name, k, size);
+                }
+                return RKResultTimeout;
             }
+            r = RKClientWaitToRead(C);
+        } while (r == 0);
+        if (r < 0) {
+            return RKResultErrorCreatingOperatorRoutine;
         }
-        r = 1;
-        #if defined(__APPLE__)
-        setsockopt(C->sd, SOL_SOCKET, SO_NOSIGPIPE, &r, sizeof(r));
-        #endif
-        if (C->type == RKNetworkSocketTypeUDP) {
-            setsockopt(C->sd, SOL_SOCKET, SO_BROADCAST, &r, sizeof(r));
-        }
+    }
+    return RKResultSuccess;
+}
 
-        pthread_mutex_lock(&C->lock);
-        if (C->state == RKClientStateResolvingIP) {
-            C->state = RKClientStateConfiguringSocket;
+// Pass the payload to the receive handler
+static void RKClientDeliver(RKClient *C) {
+    if (C->state != RKClientStateConnected) {
+        if (C->verbose) {
+            RKLog("%s Connected.\n", C->name);
         }
-        pthread_mutex_unlock(&C->lock);
+        RKClientSetState(C, RKClientStateConnected);
+    }
+    if (C->recv) {
+        C->recv(C);
+    }
+    *(char *)C->userPayload = '\0';
+}
 
-        // Configure the socket
-        C->sa.sin_family = AF_INET;
-        C->sa.sin_port = htons(C->port);
-        C->sa.sin_addr.s_addr = inet_addr(C->hostIP);
-        //memset(C->sa.sin_zero, 0, 8);
-        //RKLog("%s <RKClient> %d.%d.%d.%d\n", C->name, (C->sa.sin_addr.s_addr >> 24) & 0xFF, (C->sa.sin_addr.s_addr >> 16) & 0xFF, (C->sa.sin_addr.s_addr >> 8) & 0xFF, C->sa.sin_addr.s_addr & 0xFF);
+// Open a connection. A connection that is not complete in timeoutSeconds is a failure
+static int RKClientConnect(RKClient *C) {
+    int r;
+    int flags;
+    struct timeval timeout;
+    struct addrinfo hints, *info = NULL;
 
-        if (C->verbose > 1) {
-            RKLog("%s Configuring socket ...\n", C->name);
-        }
+    // Resolve hostname to IP address
+    if (C->verbose > 1) {
+        RKLog("%s Resolving IP address ...\n", C->name);
+    }
+    memset(&hints, 0, sizeof(struct addrinfo));
+    hints.ai_family = AF_INET;
+    if (getaddrinfo(C->hostname, NULL, &hints, &info) || info == NULL) {
+        RKLog("%s Error. Unable to resolve '%s'\n", C->name, C->hostname);
+        return RKResultErrorCreatingOperatorRoutine;
+    }
+    C->sa.sin_family = AF_INET;
+    C->sa.sin_port = htons(C->port);
+    C->sa.sin_addr = ((struct sockaddr_in *)info->ai_addr)->sin_addr;
+    freeaddrinfo(info);
+    inet_ntop(AF_INET, &C->sa.sin_addr, C->hostIP, sizeof(C->hostIP));
 
-        pthread_mutex_lock(&C->lock);
-        if (C->state == RKClientStateConfiguringSocket) {
-            C->state = RKClientStateConnecting;
-        }
-        pthread_mutex_unlock(&C->lock);
+    if (C->verbose > 1) {
+        RKLog("%s Opening a %s socket ...\n", C->name, C->type == RKNetworkSocketTypeTCP ? "TCP" : "UDP");
+    }
+    RKClientSetState(C, RKClientStateConfiguringSocket);
+    if (C->type == RKNetworkSocketTypeTCP) {
+        r = socket(AF_INET, SOCK_STREAM, 0);
+    } else {
+        r = socket(AF_INET, SOCK_DGRAM, IPPROTO_UDP);
+    }
+    if (r < 0) {
+        RKLog("%s Error. Unable to create a socket.\n", C->name);
+        return RKResultErrorCreatingOperatorRoutine;
+    }
+    C->sd = r;
+    // Always non-blocking while connecting so that it can be stopped
+    flags = fcntl(C->sd, F_GETFL);
+    if (fcntl(C->sd, F_SETFL, flags | O_NONBLOCK) == -1) {
+        RKLog("%s Error. Unable to use non-blocking option.\n", C->name);
+    }
+    r = 1;
+    #if defined(__APPLE__)
+    setsockopt(C->sd, SOL_SOCKET, SO_NOSIGPIPE, &r, sizeof(r));
+    #endif
+    if (C->type == RKNetworkSocketTypeUDP) {
+        setsockopt(C->sd, SOL_SOCKET, SO_BROADCAST, &r, sizeof(r));
+    }
 
-        // Connect through the IP address and port number
-        if (C->verbose) {
-            RKLog("%s Connecting %s:%d ...\n", C->name, C->hostIP, C->port);
+    RKClientSetState(C, RKClientStateConnecting);
+
+    // Connect through the IP address and port number
+    if (C->verbose) {
+        RKLog("%s Connecting %s:%d ...\n", C->name, C->hostIP, C->port);
+    }
+    if (connect(C->sd, (struct sockaddr *)&C->sa, sizeof(struct sockaddr)) < 0) {
+        // In progress is not a true failure
+        if (errno != EINPROGRESS && errno != EINTR) {
+            return RKResultErrorCreatingOperatorRoutine;
         }
-        if ((r = connect(C->sd, (struct sockaddr *)&C->sa, sizeof(struct sockaddr))) < 0) {
-            // In progress is not a true failure
-            if (errno != EINPROGRESS) {
-                close(C->sd);
-                k = RKNetworkReconnectSeconds * 10;
-                do {
-                    if (C->verbose > 1 && k % 10 == 0) {
-                        RKLog("%s Connection failed (errno = %d). Retry in %d second%s ...\n", C->name, errno, k, k > 1 ? "s" : "");
-                    }
-                    usleep(100000);
-                } while (k-- > 0 && C->state < RKClientStateDisconnecting);
-                continue;
+        const double time = RKClientTime();
+        do {
+            if (C->state >= RKClientStateDisconnecting || RKClientTime() - time > (double)C->timeoutSeconds) {
+                if (C->verbose > 1) {
+                    RKLog("%s Timeout during initialization.\n", C->name);
+                }
+                return RKResultTimeout;
             }
-        }
-
-        // Server is almost ready to receive (could still be in EINPROGRESS, then select() -> 0)
-        if (C->init) {
-            fid = NULL;
             FD_ZERO(&C->wfd);
             FD_ZERO(&C->efd);
             FD_SET(C->sd, &C->wfd);
             FD_SET(C->sd, &C->efd);
-            k = 0;
-            do {
-                timeout.tv_sec = 0;
-                timeout.tv_usec = 100000;
-                r = select(C->sd + 1, NULL, &C->wfd, &C->efd, &timeout);
-            } while (r == 0 && k++ < 10 * C->timeoutSeconds && C->state < RKClientStateDisconnecting);
-            if (r > 0) {
-                if (FD_ISSET(C->sd, &C->efd)) {
-                    if (errno != EINPROGRESS) {
-                        RKLog("%s Error. r = %d   errno = %d (%s)\n", C->name, r, errno, RKErrnoString(errno));
-                    }
-                    close(C->sd);
-                    continue;
-                } else if (FD_ISSET(C->sd, &C->wfd)) {
-                    // Ready to write to socket
-                    if (C->init(C)) {
-                        if (C->verbose) {
-                            RKLog("%s Unable to connect %s:%d.\n", C->name, C->hostIP, C->port);
-                        }
-                        close(C->sd);
-                        // Wait a while before trying to reconnect
-                        k = 52;
-                        do {
-                            if (k % 10 == 0 && C->verbose > 1) {
-                                RKLog("%s Reconnect in %d sec%s ...\n", C->name, k / 10, k / 10 > 1 ? "s" : "");
-                            }
-                            usleep(100000);
-                        } while (k-- > 3 && C->state < RKClientStateDisconnecting);
-                        continue;
-                    }
-                }
-            } else {
-                if (C->verbose > 1) {
-                    RKLog("Timeout during initialization.\n");
-                }
-                close(C->sd);
-                continue;
+            timeout.tv_sec = 0;
+            timeout.tv_usec = 100000;
+            r = select(C->sd + 1, NULL, &C->wfd, &C->efd, &timeout);
+        } while (r == 0 || (r < 0 && errno == EINTR));
+        int e = 0;
+        socklen_t n = sizeof(e);
+        if (r < 0 || getsockopt(C->sd, SOL_SOCKET, SO_ERROR, &e, &n) || e) {
+            if (C->verbose > 1) {
+                RKLog("%s Connection failed (errno = %d).\n", C->name, e);
+            }
+            return RKResultErrorCreatingOperatorRoutine;
+        }
+    }
+    if (C->blocking) {
+        fcntl(C->sd, F_SETFL, flags);
+    }
+    return RKResultSuccess;
+}
+
+void *theClient(void *in) {
+    RKClient *C = (RKClient *)in;
+
+    int r;
+    size_t k;
+    ssize_t s;
+    double time;
+    double beaconTime = -10.0;
+    bool readOkay;
+
+    char line[1024];
+
+    // One more for the terminating character
+    char *buf = (char *)malloc(RKMaximumPacketSize + 1);
+    if (buf == NULL) {
+        RKLog("Error. Unable to allocate space for a buffer.\n");
+    }
+    C->userPayload = buf;
+
+    if (C->verbose > 1) {
+        RKLog("%s is working hard ...\n", C->name);
+    }
+    if (C->type != RKNetworkSocketTypeTCP && C->type != RKNetworkSocketTypeUDP) {
+        RKLog("%s Error. Unable to determine the socket type %d.\n", C->name, C->type);
+    }
+
+    char ping[] = "ping" RKEOL;
+
+    // Here comes the infinite loop until being stopped
+    while (C->state < RKClientStateDisconnecting && buf != NULL && (C->type == RKNetworkSocketTypeTCP || C->type == RKNetworkSocketTypeUDP)) {
+
+        RKClientSetState(C, RKClientStateResolvingIP);
+
+        if (RKClientConnect(C) != RKResultSuccess) {
+            RKClientClose(C);
+            RKClientWait(C, RKNetworkReconnectSeconds * 10);
+            continue;
+        }
+
+        // Server is ready to receive
+        if (C->init && C->init(C)) {
+            if (C->verbose) {
+                RKLog("%s Unable to connect %s:%d.\n", C->name, C->hostIP, C->port);
             }
+            RKClientClose(C);
+            // Wait a while before trying to reconnect
+            RKClientWait(C, 50);
+            continue;
         }
 
         // Actively receive
-        timeoutCount = 0;
+        k = 0;
+        *buf = '\0';
+        time = RKClientTime();
         while (C->state < RKClientStateReconnecting) {
-            FD_ZERO(&C->rfd);
-            FD_ZERO(&C->efd);
-            FD_SET(C->sd, &C->rfd);
-            FD_SET(C->sd, &C->efd);
-            timeout.tv_sec = 0;
-            timeout.tv_usec = 100000;
-            readOkay = false;
-            r = select(C->sd + 1, &C->rfd, NULL, &C->efd, &timeout);
-            if (C->verbose > 3 || FD_ISSET(C->sd, &C->efd)) {
-                RKLog("%s select() returned r = %d   FD_ISSET(rfd) = %d   FD_ISSET(efd) = %d   errno = %d.\n",
-                      C->name, r, FD_ISSET(C->sd, &C->rfd), FD_ISSET(C->sd, &C->efd), errno);
-            }
+            r = RKClientWaitToRead(C);
             if (r == 0) {
-                if (timeoutCount++ / 10 > C->timeoutSeconds) {
+                if (RKClientTime() - time > (double)C->timeoutSeconds) {
                     // Socket established but nothing from the server.
                     if (C->verbose > 1) {
                         RKLog("%s Timeout during select() for read.\n", C->name);
                     }
                     break;
                 }
-            } else if (r > 0 && FD_ISSET(C->sd, &C->rfd)) {
-                //RKLog("%s Warning C->state = %d   format = %d\n", C->name, C->state, C->format);
-                switch (C->format) {
-
-                    case RKNetworkMessageFormatConstantSize:
-
-                        k = 0;
-                        readCount = 0;
-                        while (readCount++ < C->timeoutSeconds * 100) {
-                            if ((r = (int)read(C->sd, buf + k, C->blockLength - k)) > 0) {
-                                k += r;
-                                if (k >= C->blockLength) {
-                                    break;
-                                } else {
-                                    usleep(10000);
-                                }
-                            } else if (errno != EAGAIN) {
-                                if (C->verbose > 1) {
-                                    RKLog("%s Error. RKMessageFormatFixedBlock   r=%d  k=%d  errno=%d (%s)  %d\n",
-                                          C->name, r, k, errno, RKErrnoString(errno), readCount);
-                                }
-                                readCount = C->timeoutSeconds * 100;
-                                pthread_mutex_lock(&C->lock);
-                                if (C->state < RKClientStateDisconnecting) {
-                                    C->state = RKClientStateReconnecting;
-                                }
-                                pthread_mutex_unlock(&C->lock);
-                                break;
-                            } else {
-                                usleep(10000);
-                            }
-                            if (C->verbose > 1) {
-                                RKLog("... errno = %d ...\n", errno);
-                            }
-                        }
-                        if (readCount >= C->timeoutSeconds * 100) {
-                            if (C->verbose > 1) {
-                                RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", C->name, readCount, errno);
-                            }
-                            break;
-                        }
-                        readOkay = true;
-                        break;
+                continue;
+            } else if (r < 0) {
+                RKLog("%s Error. r=%d  errno=%d (%s)\n", C->name, r, errno, RKErrnoString(errno));
+                break;
+            }
 
-                    case RKNetworkMessageFormatHeaderDefinedSize:
-
-                        // The delimiter first
-                        k = 0;
-                        readCount = 0;
-                        while (readCount++ < C->timeoutSeconds * 100) {
-                            if ((r = (int)read(C->sd, delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
-                                if (r > 0) {
-                                    k += r;
-                                    if (k == sizeof(RKNetDelimiter)) {
-                                        break;
-                                    } else if (k > sizeof(RKNetDelimiter)) {
-                                        RKLog("%s Error. Should not read larger than sizeof(RKNetDelimiter) = %zu\n", C->name, sizeof(RKNetDelimiter));
-                                        break;
-                                    }
-                                } else {
-                                    usleep(10000);
-                                }
-                            } else if (errno != EAGAIN) {
-                                if (C->verbose > 1) {
-                                    RKLog("%s Error. RKMessageFormatFixedHeaderVariableBlock:1  r = %d  k = %d  errno = %d (%s)\n",
-                                          C->name, r, k, errno, RKErrnoString(errno));
-                                }
-                                readCount = C->timeoutSeconds * 10000;
-                                pthread_mutex_lock(&C->lock);
-                                if (C->state < RKClientStateDisconnecting) {
-                                    C->state = RKClientStateReconnecting;
-                                } else {
-                                    pthread_mutex_unlock(&C->lock);
-                                    break;
-                                }
-                                pthread_mutex_unlock(&C->lock);
-                                break;
-                            } else {
-                                usleep(10000);
-                            }
-                        }
-                        if (k != sizeof(RKNetDelimiter) || readCount > C->timeoutSeconds * 100) {
-                            if (errno != ECONNREFUSED) {
-                                RKLog("%s Error. Incomplete read().   errno = %d (%s)\n", C->name, errno, RKErrnoString(errno));
-                            }
-                            break;
-                        }
-                        // If the delimiter specifies 0 payload, it could just be a beacon
-                        if (C->netDelimiter.size == 0) {
-                            if (C->verbose > 1) {
-                                RKLog("%s netDelimiter.size = 0\n", C->name);
-                            }
-                            readOkay = true;
-                            break;
-                        } else if (C->netDelimiter.size > RKMaximumPacketSize) {
-                            RKLog("%s Error. Payload size = %s (type %d) is more than what I can handle.\n",
-                                  C->name, RKIntegerToCommaStyleString(C->netDelimiter.size), C->netDelimiter.type);
-                            readOkay = false;
-                            break;
-                        }
-                        // Now the actual payload
-                        k = 0;
-                        readCount = 0;
-                        while (readCount++ < C->timeoutSeconds * 100) {
-                            if ((r = (int)read(C->sd, buf + k, C->netDelimiter.size - k)) > 0) {
-                                #ifdef DEBUG_RKCLIENT
-                                RKLog("%s read() -> %d / %d / %d    readCount = %d / %d\n",
-                                      C->name, r, C->netDelimiter.size - k,  C->netDelimiter.size, readCount, C->timeoutSeconds * 100);
-                                #endif
-                                if (r > 0) {
-                                    k += r;
-                                    if (k == C->netDelimiter.size) {
-                                        break;
-                                    } else if (k > C->netDelimiter.size) {
-                                        RKLog("%s Error. Should not read larger than specified size = %zu\n", C->name, C->netDelimiter.size);
-                                        break;
-                                    }
-                                } else {
-                                    usleep(10000);
-                                }
-                            } else if (errno != EAGAIN) {
-                                RKLog("%s Error. PCMessageFormatFixedHeaderVariableBlock:2  size=%d   r=%d  k=%d  errno=%d (%s)\n",
-                                      C->name, C->netDelimiter.size, r, k, errno, RKErrnoString(errno));
-                                readCount = C->timeoutSeconds * 1000;
-                                pthread_mutex_lock(&C->lock);
-                                if (C->state < RKClientStateDisconnecting) {
-                                    C->state = RKClientStateReconnecting;
-                                }
-                                pthread_mutex_unlock(&C->lock);
-                                break;
-                            } else {
-                                usleep(10000);
-                            }
-                        }
-                        #ifdef DEBUG_RKCLIENT
-                        RKLog("%s k = %d   r = %d   readCount = %d\n", C->name, k, r, readCount);
-                        for (int j = 0; j < 20; j++) {
-                            printf(" %02x/%c", (int)*(cbuf + j), *(cbuf + j));
-                        }
-                        printf("\n");
-                        #endif
-                        // Add a NULL character to the end of payload
-                        cbuf[k] = '\0';
-                        if (readCount >= C->timeoutSeconds * 1000) {
-                            break;
-                        }
-                        readOkay = true;
-                        break;
+            readOkay = false;
 
-                    case RKNetworkMessageFormatNewLine:
-                    default:
-                        
-                        if (fid == NULL) {
-                            fid = fdopen(C->sd, "r");
-                            if (fid < 0) {
-                                RKLog("%s Error. Unable to open a file descriptor for socket.\n", C->name);
-                                return (void *)-1;
-                            }
-                        }
-                        if (fgets(buf, RKMaximumPacketSize, fid) != NULL) {
-                            readOkay = true;
-                        }
-                        break;
-                } // switch (C->format) ...
+            switch (C->format) {
 
-                if (readOkay == false) {
-                    if (C->verbose > 1) {
-                        RKLog("%s Server not connected.\n", C->name);
+                case RKNetworkMessageFormatConstantSize:
+
+                    readOkay = RKClientReadBlock(C, buf, C->blockLength) == RKResultSuccess;
+                    if (readOkay) {
+                        buf[C->blockLength] = '\0';
+                        RKClientDeliver(C);
                     }
-                    pthread_mutex_lock(&C->lock);
-                    if (C->state < RKClientStateDisconnecting) {
-                        C->state = RKClientStateReconnecting;
+                    break;
+
+                case RKNetworkMessageFormatHeaderDefinedSize:
+
+                    // The delimiter first
+                    if (RKClientReadBlock(C, &C->netDelimiter, sizeof(RKNetDelimiter)) != RKResultSuccess) {
+                        break;
                     }
-                    pthread_mutex_unlock(&C->lock);
-                    close(C->sd);
-                    fid = NULL;
-                    continue;
-                } else {
-                    pthread_mutex_lock(&C->lock);
-                    if (C->state < RKClientStateDisconnecting && C->state != RKClientStateConnected) {
-                        if (C->verbose) {
-                            RKLog("%s Connected.\n", C->name);
-                        }
-                        C->state = RKClientStateConnected;
+                    // If the delimiter specifies 0 payload, it could just be a beacon
+                    if (C->netDelimiter.size > RKMaximumPacketSize) {
+                        RKLog("%s Error. Payload size = %s (type %d) is more than what I can handle.\n",
+                              C->name, RKIntegerToCommaStyleString(C->netDelimiter.size), C->netDelimiter.type);
+                        break;
                     }
-                    pthread_mutex_unlock(&C->lock);
-                }
-                timeoutCount = 0;
-                C->recv(C);
-                cbuf[0] = '\0';
-
-                // Send in a beacon signal
-                gettimeofday(&timeout, NULL);
-                timeout.tv_sec -= 2;
-                if (timercmp(&timeout, &previousBeaconTime, >=)) {
-                    FD_ZERO(&C->wfd);
-                    FD_ZERO(&C->efd);
-                    FD_SET(C->sd, &C->wfd);
-                    FD_SET(C->sd, &C->efd);
-                    timeout.tv_sec = 0;
-                    timeout.tv_usec = 1000;
-                    r = select(C->sd + 1, NULL, &C->wfd, &C->efd, &timeout);
-                    if (r > 0) {
-                        if (FD_ISSET(C->sd, &C->efd)) {
-                            // Exceptions
-                            RKLog("%s encountered an exception error.\n", C->name);
-                            break;
-                        } else if (FD_ISSET(C->sd, &C->wfd)) {
-                            gettimeofday(&previousBeaconTime, NULL);
-                            //RKLog("%s beacon\n", C->name);
-                            pthread_mutex_lock(&C->lock);
-                            RKNetworkSendPackets(C->sd, ping, strlen(ping), NULL);
-                            pthread_mutex_unlock(&C->lock);
-                        }
-                    } else {
-                        RKLog("%s Error. r=%d  errno=%d (%s)\n", C->name, r, errno, RKErrnoString(errno));
+                    // Now the actual payload
+                    if (RKClientReadBlock(C, buf, C->netDelimiter.size) != RKResultSuccess) {
                         break;
                     }
-                } // if (timercmp(&timeout, &previousBeaconTime, >=)) ...
-            } else if (r > 0 && FD_ISSET(C->sd, &C->efd)) {
-                RKLog("%s Error occurred.  r=%d  errno=%d (%s)\n", C->name, r, errno, RKErrnoString(errno));
-                break;
-            } else {
-                RKLog("%s Error. r=%d  errno=%d (%s)\n", C->name, r, errno, RKErrnoString(errno));
+                    // Add a NULL character to the end of payload
+                    buf[C->netDelimiter.size] = '\0';
+                    readOkay = true;
+                    RKClientDeliver(C);
+                    break;
+
+                case RKNetworkMessageFormatNewLine:
+                default:
+
+                    s = RKClientReadSome(C, line, sizeof(line));
+                    readOkay = s >= 0;
+                    for (ssize_t j = 0; j < s && readOkay && C->state < RKClientStateDisconnecting; j++) {
+                        buf[k++] = line[j];
+                        if (line[j] == '\n') {
+                            buf[k] = '\0';
+                            RKClientDeliver(C);
+                            k = 0;
+                        } else if (k >= RKMaximumPacketSize) {
+                            RKLog("%s Error. Line is longer than what I can handle.\n", C->name);
+                            readOkay = false;
+                        }
+                    }
+                    break;
+            } // switch (C->format) ...
+
+            if (readOkay == false) {
+                if (C->verbose > 1) {
+                    RKLog("%s Server not connected.\n", C->name);
+                }
                 break;
-            } // if (r == 0) ...
+            }
+            time = RKClientTime();
+
+            // Send in a beacon signal
+            if (time - beaconTime >= 2.0) {
+                beaconTime = time;
+                pthread_mutex_lock(&C->lock);
+                RKNetworkSendPackets(C->sd, ping, strlen(ping), NULL);
+                pthread_mutex_unlock(&C->lock);
+            }
         }
 
+        RKClientSetState(C, RKClientStateReconnecting);
+        RKClientClose(C);
+
         // Wait a while before trying to reconnect
-        k = 31;
-        while (k-- > 1 && C->state < RKClientStateDisconnecting) {
-            if (k % 10 == 0 && C->verbose > 1) {
-                RKLog("Reconnect in %d secs ...\n", k / 10);
-            }
-            usleep(100000);
-        };
+        RKClientWait(C, RKNetworkReconnectSeconds * 10);
     } // Here comes ... will jump out if C->state >= RKClientStateDisconnecting
-    free(buf);
 
     C->userPayload = NULL;
+    if (buf) {
+        free(buf);
+    }
+
+    pthread_mutex_lock(&C->lock);
     C->state = RKClientStateDisconnected;
+    pthread_mutex_unlock(&C->lock);
 
     if (C->verbose) {
         RKLog("%s Disconnected.\n", C->name);
@@ -476,6 +398,9 @@ RKClient *RKClientInitWithDesc(RKClientDesc desc) {
     if (desc.format == RKNetworkMessageFormatConstantSize && desc.blockLength == 0) {
         RKLog("Block length may not be 0 for constant packet size.\n");
         return NULL;
+    } else if (desc.blockLength < 0 || desc.blockLength > RKMaximumPacketSize) {
+        RKLog("Block length must be between 0 and %d.\n", RKMaximumPacketSize);
+        return NULL;
     } else if (desc.format != RKNetworkMessageFormatConstantSize && desc.blockLength > 0) {
         RKLog("Block length is ignored for variable packet size.\n");
         return NULL;
@@ -491,6 +416,8 @@ RKClient *RKClientInitWithDesc(RKClientDesc desc) {
         desc.timeoutSeconds = RKNetworkTimeoutSeconds;
     }
     memcpy(C, &desc, sizeof(RKClientDesc));
+    C->sd = -1;
+    pthread_mutex_init(&C->lock, NULL);
 
     // Ignore broken pipe for bad connections
     signal(SIGPIPE, SIG_IGN);
@@ -524,6 +451,7 @@ RKClient *RKClientInit(void) {
 
 void RKClientFree(RKClient *C) {
     RKClientStop(C);
+    pthread_mutex_destroy(&C->lock);
     free(C);
     return;
 }
@@ -551,36 +479,47 @@ void RKClientSetCloseHandler(RKClient *C, int (*routine)(RKClient *)) {
 #pragma mark - Interactions
 
 void RKClientStart(RKClient *C, const bool waitForConnection) {
-    pthread_mutex_init(&C->lock, NULL);
+    if (C->safeToClose) {
+        RKLog("%s Info. Client is running.\n", C->name);
+        return;
+    }
+    C->state = RKClientStateCreating;
     pthread_attr_init(&C->threadAttributes);
     if (pthread_create(&C->threadId, &C->threadAttributes, theClient, C)) {
         RKLog("Error. Unable to launch a socket client.\n");
+        pthread_attr_destroy(&C->threadAttributes);
+        C->state = RKClientStateNull;
         return;
     }
+    C->safeToClose = true;
     if (!waitForConnection) {
         if (C->verbose > 1) {
             RKLog("%s Immediate return.\n", C->name);
         }
         return;
     }
-    while (C->state < RKClientStateConnecting) {
+    while (C->state > RKClientStateNull && C->state < RKClientStateConnecting) {
         usleep(100000);
     }
     return;
 }
 
 void RKClientStop(RKClient *C) {
-    if (C->state > RKClientStateCreating && C->state < RKClientStateDisconnecting) {
-        RKLog("%s Disconnecting ...\n", C->name);
-        pthread_mutex_lock(&C->lock);
+    pthread_mutex_lock(&C->lock);
+    const bool running = C->safeToClose;
+    C->safeToClose = false;
+    if (running && C->state < RKClientStateDisconnecting) {
         C->state = RKClientStateDisconnecting;
-        pthread_mutex_unlock(&C->lock);
-        pthread_join(C->threadId, NULL);
-        pthread_attr_destroy(&C->threadAttributes);
-        pthread_mutex_destroy(&C->lock);
-        C->state = RKClientStateNull;
-    } else if (C->verbose > 1) {
-        RKLog("%s Info. Client does not seem to be running.\n", C->name);
+    }
+    pthread_mutex_unlock(&C->lock);
+    if (!running) {
+        if (C->verbose > 1) {
+            RKLog("%s Info. Client does not seem to be running.\n", C->name);
+        }
         return;
     }
+    RKLog("%s Disconnecting ...\n", C->name);
+    pthread_join(C->threadId, NULL);
+    pthread_attr_destroy(&C->threadAttributes);
+    C->state = RKClientStateNull;
 }
-- 
2.43.0


From f7b6a6d6532f7d25e7ab702510e894d4529d4f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 24/40] fix: host monitor credits replies to their probes,
 judges each host by itself and can be restarted

---
 source/RKHostMonitor.c | 479 +++++++++++++++++++++--------------------
 1 file changed, 247 insertions(+), 232 deletions(-)

diff --git a/source/RKHostMonitor.c b/source/RKHostMonitor.c
index 38902f8..e74099f 100644
--- a/source/RKHostMonitor.c
+++ b/source/RKHostMonitor.c
@@ -57,7 +57,7 @@ typedef struct rk_ipv4_header {
 
 static uint16_t rk_host_monitor_checksum (void *in, size_t len) {
     uint16_t *buf = (uint16_t *)in;
-    uint16_t sum = 0;
+    uint32_t sum = 0;
     for (sum = 0; len > 1; len -= 2) {
         sum += *buf++;
     }
@@ -69,6 +69,68 @@ static uint16_t rk_host_monitor_checksum (void *in, size_t len) {
     return ~sum;
 }
 
+// The time that does not jump with the system clock
+static double rk_host_monitor_time(void) {
+    struct timespec t;
+    clock_gettime(CLOCK_MONOTONIC, &t);
+    return (double)t.tv_sec + 1.0e-9 * (double)t.tv_nsec;
+}
+
+// Resolve the host, open a socket and set some properties for ICMP
+static int rk_host_monitor_open(RKUnitMonitor *me, struct sockaddr_in *targetAddress, const bool verbose) {
+    RKHostMonitor *engine = me->parent;
+
+    int sd;
+    const int c = me->id;
+    const int hold = 1;
+    const int value = 50;
+    struct addrinfo *info = NULL;
+    struct addrinfo hints;
+
+    // Resolve my host
+    memset(&hints, 0, sizeof(struct addrinfo));
+    hints.ai_family = AF_INET;
+    hints.ai_socktype = SOCK_DGRAM;
+    if (getaddrinfo(engine->hosts[c], NULL, &hints, &info) || info == NULL) {
+        if (verbose) {
+            RKLog("%s %s Error. Unable to resolve %s.\n", engine->name, me->name, engine->hosts[c]);
+        }
+        return -1;
+    }
+    memcpy(targetAddress, info->ai_addr, sizeof(struct sockaddr_in));
+    freeaddrinfo(info);
+
+    // Open a socket, set some properties for ICMP
+    if ((sd = socket(AF_INET, SOCK_DGRAM, IPPROTO_ICMP)) < 0) {
+        if (verbose) {
+            RKLog("%s %s Error. Unable to open a socket.  sd = %d   errno = %d (%s)\n", engine->name, me->name, sd, errno, RKErrnoString(errno));
+            if (errno == EACCES) {
+                RKLog(">%s %s Info. Use one of the following:\n", engine->name, me->name);
+                RKLog(">%s %s Info. Run 'sysctl -w net.ipv4.ping_group_range=\"0 2147483647\"'\n", engine->name, me->name);
+                RKLog(">%s %s Info. Add 'net.ipv4.ping_group_range = 0 2147483647' to /etc/sysctl.conf\n", engine->name, me->name);
+                RKLog(">%s %s Info. to allow root to use ICMP sockets\n", engine->name, me->name);
+            }
+        }
+        return -1;
+    }
+    if (setsockopt(sd, IPPROTO_IP, IP_RECVTTL, &hold, sizeof(hold))) {
+        RKLog("%s %s Error. Failed in setsockopt() IP_RECVTTL.\n", engine->name, me->name);
+        close(sd);
+        return -1;
+    }
+    if (setsockopt(sd, IPPROTO_IP, IP_TTL, &value, sizeof(value))) {
+        RKLog("%s %s Error. Failed in setsockopt().\n", engine->name, me->name);
+        close(sd);
+        return -1;
+    }
+    if (fcntl(sd, F_SETFL, O_NONBLOCK)) {
+        RKLog("%s %s Error. Failed in fcntl().\n", engine->name, me->name);
+        close(sd);
+        return -1;
+    }
+    return sd;
+}
+
 #pragma mark - Delegate Workers
 
 static void *hostPinger(void *in) {
@@ -76,23 +138,17 @@ static void *hostPinger(void *in) {
     RKHostMonitor *engine = me->parent;
 
     int k;
-    int sd;
+    int sd = -1;
     struct sockaddr_in targetAddress;
     struct sockaddr_in returnAddress;
 
     const int c = me->id;
-    const int value = 50;
-    struct protoent *protocol = getprotobyname("ICMP");
 
-    void *buff = malloc(RKHostMonitorPacketSize);
-    if (buff == NULL) {
-        RKLog("%s Error. Unable to allocate memory. Unable to continue.\n", engine->name);
-        return NULL;
-    }
+    char buff[RKHostMonitorPacketSize];
 
     RKICMPHeader *icmpHeader;
     RKIPV4Header *ipv4Header = (RKIPV4Header *)buff;
-    socklen_t returnLength = sizeof(struct sockaddr);
+    socklen_t returnLength;
     uint16_t receivedChecksum;
     uint16_t calculatedChecksum;
 
@@ -100,8 +156,18 @@ static void *hostPinger(void *in) {
     size_t txSize = RKHostMonitorPacketSize - sizeof(RKIPV4Header);
     size_t ipHeaderLength, offset;
 
-    double period;
-    struct timeval time;
+    // Transmit time of the latest probes, indexed by the sequence number
+    double txTime[64];
+    const int txDepth = sizeof(txTime) / sizeof(double);
+
+    double now, period;
+    double nextTime = 0.0;                   // When the next probe or the next attempt to open is due
+    double latestTime = -1.0;                // When the latest reply was received
+    double unusualTime = -1.0;               // When the latest unusual reply was received
+    uint16_t answeredNumber = 0;             // Sequence number of the latest probe that was answered
+    uint16_t number;
+    int sinceReopen = 0;
+    bool opened = false;
 
     // Initiate my name
     if (rkGlobalParameters.showColor) {
@@ -120,163 +186,116 @@ static void *hostPinger(void *in) {
         sprintf(me->name + k, RKNoColor);
     }
 
-    // Resolve my host
-    pthread_mutex_lock(&engine->mutex);
-    struct hostent *hostname = gethostbyname(engine->hosts[c]);
-    pthread_mutex_unlock(&engine->mutex);
-    if (hostname == NULL) {
-        RKLog("%s %s Error. Unable to resolve %s.", engine->name, me->name, engine->hosts[c]);
-        me->hostStatus = RKHostStatusUnknown;
-        me->tic = 2;
-        free(buff);
-        return NULL;
-    }
     memset(&targetAddress, 0, sizeof(struct sockaddr_in));
-    targetAddress.sin_family = hostname->h_addrtype;
-    targetAddress.sin_addr.s_addr = *(unsigned int *)hostname->h_addr;
-
-    // Open a socket, set some properties for ICMP
-    if ((sd = socket(AF_INET, SOCK_DGRAM, protocol->p_proto)) < 0) {
-        RKLog("%s %s Error. Unable to open a socket.  sd = %d   errno = %d (%s)\n", engine->name, me->name, sd, errno, RKErrnoString(errno));
-        if (errno == EACCES) {
-            RKLog(">%s %s Info. Use one of the following:\n", engine->name, me->name);
-            RKLog(">%s %s Info. Run 'sysctl -w net.ipv4.ping_group_range=\"0 2147483647\"'\n", engine->name, me->name);
-            RKLog(">%s %s Info. Add 'net.ipv4.ping_group_range = 0 2147483647' to /etc/sysctl.conf\n", engine->name, me->name);
-            RKLog(">%s %s Info. to allow root to use ICMP sockets\n", engine->name, me->name);
-        }
-        me->hostStatus = RKHostStatusUnknown;
-        me->tic = 2;
-        free(buff);
-        return NULL;
+    for (k = 0; k < txDepth; k++) {
+        txTime[k] = -1.0e9;
     }
-    int hold = 1;
-    if (setsockopt(sd, IPPROTO_IP, IP_RECVTTL, &hold, sizeof(hold))) {
-        RKLog("%s %s Error. Failed in setsockopt() IP_RECVTTL.\n", engine->name, me->name);
-        me->hostStatus = RKHostStatusUnknown;
-        me->tic = 2;
-        free(buff);
-        return NULL;
-    }
-    if (setsockopt(sd, IPPROTO_IP, IP_TTL, &value, sizeof(value))) {
-        RKLog("%s %s Error. Failed in setsockopt().\n", engine->name, me->name);
-        me->hostStatus = RKHostStatusUnknown;
-        me->tic = 2;
-        free(buff);
-        return NULL;
-    }
-    if (fcntl(sd, F_SETFL, O_NONBLOCK)) {
-        RKLog("%s %s Error. Failed in fcntl().\n", engine->name, me->name);
-        me->hostStatus = RKHostStatusUnknown;
-        me->tic = 2;
-        free(buff);
-        return NULL;
-    }
-
-    RKLog(">%s %s Started.   host = %s (%d.%d.%d.%d)   sd = %d\n",
-          engine->name,
-          me->name,
-          engine->hosts[c],
-          (targetAddress.sin_addr.s_addr & 0xff),
-          (targetAddress.sin_addr.s_addr & 0x0000ff00) >> 8,
-          (targetAddress.sin_addr.s_addr & 0x00ff0000) >> 16,
-          (targetAddress.sin_addr.s_addr & 0xff000000) >> 24,
-          sd);
 
     me->tic = 1;
-    me->sequenceNumber = 1;
+    me->sequenceNumber = 0;
     me->identifier = rand() & 0xffff;
     gettimeofday(&me->latestTime, NULL);
 
+    const double interval = (double)me->pingIntervalInSeconds;
+    const double startTime = rk_host_monitor_time();
+
     uint32_t unreachCount = 0;
 
     while (engine->state & RKEngineStateWantActive) {
 
-        // Reset buffer
-        memset(buff, 0, RKHostMonitorPacketSize);
-
-        // Prepare echo request packet
-        icmpHeader = (RKICMPHeader *)buff;
-        icmpHeader->type = RKICMPv4EchoRequest;
-        icmpHeader->code = 0;
-        icmpHeader->checksum = 0;
-        icmpHeader->identifier = me->identifier;
-        icmpHeader->sequenceNumber = me->sequenceNumber;
-        icmpHeader->checksum = rk_host_monitor_checksum(buff, txSize);
-
-        pthread_mutex_lock(&engine->mutex);
+        now = rk_host_monitor_time();
+
+        if (sd < 0 && now >= nextTime) {
+            sd = rk_host_monitor_open(me, &targetAddress, sinceReopen++ % 60 == 0);
+            now = rk_host_monitor_time();
+            nextTime = now;
+            if (sd < 0) {
+                // Try again a little later
+                nextTime = now + 1.0;
+            } else if (!opened) {
+                opened = true;
+                RKLog(">%s %s Started.   host = %s (%d.%d.%d.%d)   sd = %d\n",
+                      engine->name,
+                      me->name,
+                      engine->hosts[c],
+                      (targetAddress.sin_addr.s_addr & 0xff),
+                      (targetAddress.sin_addr.s_addr & 0x0000ff00) >> 8,
+                      (targetAddress.sin_addr.s_addr & 0x00ff0000) >> 16,
+                      (targetAddress.sin_addr.s_addr & 0xff000000) >> 24,
+                      sd);
+            }
+        }
 
         // Ping
-        if ((r = sendto(sd, buff, txSize, 0, (struct sockaddr *)&targetAddress, sizeof(struct sockaddr))) == -1) {
-            if (engine->verbose > 1) {
-                RKLog("%s %s Error. Command sendto() -> %d   errno = %d / %s.", engine->name, me->name, r, errno, RKErrnoString(errno));
-            }
-            // Now we wait a little
-            pthread_mutex_unlock(&engine->mutex);
-            k = 0;
-            while (k++ < 10 && engine->state & RKEngineStateWantActive) {
-                usleep(100000);
-            }
-            // Delay reporting since other threads may still be waiting for recvfrom()
-            me->hostStatus = RKHostStatusUnreachable;
-            me->tic++;
-            if (unreachCount++ > 3) {
+        if (sd >= 0 && now >= nextTime) {
+            // Reset buffer
+            memset(buff, 0, RKHostMonitorPacketSize);
+
+            // Prepare echo request packet, every probe has its own number
+            me->sequenceNumber++;
+            icmpHeader = (RKICMPHeader *)buff;
+            icmpHeader->type = RKICMPv4EchoRequest;
+            icmpHeader->code = 0;
+            icmpHeader->checksum = 0;
+            icmpHeader->identifier = me->identifier;
+            icmpHeader->sequenceNumber = me->sequenceNumber;
+            icmpHeader->checksum = rk_host_monitor_checksum(buff, txSize);
+
+            txTime[me->sequenceNumber % txDepth] = now;
+            if ((r = sendto(sd, buff, txSize, 0, (struct sockaddr *)&targetAddress, sizeof(struct sockaddr))) == -1) {
+                if (engine->verbose > 1) {
+                    RKLog("%s %s Error. Command sendto() -> %d   errno = %d / %s.", engine->name, me->name, r, errno, RKErrnoString(errno));
+                }
+                txTime[me->sequenceNumber % txDepth] = -1.0e9;
+                if (unreachCount++ > 3) {
+                    unreachCount = 0;
+                    RKLog("%s %s Reinitiating socket descriptor ...\n", engine->name, me->name);
+                    close(sd);
+                    sd = -1;
+                }
+            } else {
                 unreachCount = 0;
-                RKLog("%s %s Reinitiating socket descriptor ...\n", engine->name, me->name);
-                close(sd);
-                sd = socket(AF_INET, SOCK_DGRAM, protocol->p_proto);
-                setsockopt(sd, IPPROTO_IP, IP_TTL, &value, sizeof(value));
-                fcntl(sd, F_SETFL, O_NONBLOCK);
+                if (engine->verbose > 1) {
+                    RKLog(">%s %s Ping %s (%d.%d.%d.%d)   seq = %d   size = %d bytes\n",
+                          engine->name, me->name,
+                          engine->hosts[c],
+                          (targetAddress.sin_addr.s_addr & 0xff),
+                          (targetAddress.sin_addr.s_addr & 0x0000ff00) >> 8,
+                          (targetAddress.sin_addr.s_addr & 0x00ff0000) >> 16,
+                          (targetAddress.sin_addr.s_addr & 0xff000000) >> 24,
+                          me->sequenceNumber,
+                          txSize);
+                }
             }
-            continue;
-        } else if (engine->verbose > 1) {
-            RKLog(">%s %s Ping %s (%d.%d.%d.%d)   seq = %d   size = %d bytes\n",
-                  engine->name, me->name,
-                  engine->hosts[c],
-                  (targetAddress.sin_addr.s_addr & 0xff),
-                  (targetAddress.sin_addr.s_addr & 0x0000ff00) >> 8,
-                  (targetAddress.sin_addr.s_addr & 0x00ff0000) >> 16,
-                  (targetAddress.sin_addr.s_addr & 0xff000000) >> 24,
-                  me->sequenceNumber,
-                  txSize);
+            // Wait less until this one is answered.
+            nextTime = now + 1.0;
         }
 
-        // Reset buffer
-        memset(buff, 0, RKHostMonitorPacketSize);
-
         // Pong
         k = 0;
-        offset = (size_t)-1;
-        returnAddress.sin_addr.s_addr = 0x0100007F;
-        while (returnAddress.sin_addr.s_addr != targetAddress.sin_addr.s_addr && k++ < engine->workerCount + 1 && engine->state & RKEngineStateWantActive) {
-            if ((r = recvfrom(sd, buff, RKHostMonitorPacketSize, 0, (struct sockaddr *)&returnAddress, &returnLength)) > 0) {
-                if (engine->verbose > 1 && engine->tic != 2) {
-                    RKLog("%s %s recvfrom()   sd = %d   r = %d  / %d   %d.%d.%d.%d   returnLength = %d\n",
-                          engine->name, me->name,
-                          sd,
-                          r,
-                          (int)(sizeof(RKIPV4Header) + sizeof(RKICMPHeader)),
-                          (returnAddress.sin_addr.s_addr & 0xff),
-                          (returnAddress.sin_addr.s_addr & 0x0000ff00) >> 8,
-                          (returnAddress.sin_addr.s_addr & 0x00ff0000) >> 16,
-                          (returnAddress.sin_addr.s_addr & 0xff000000) >> 24,
-                          returnLength);
+        while (sd >= 0 && k++ < txDepth && engine->state & RKEngineStateWantActive) {
+            returnLength = sizeof(struct sockaddr_in);
+            memset(&returnAddress, 0, sizeof(struct sockaddr_in));
+            if ((r = recvfrom(sd, buff, RKHostMonitorPacketSize, 0, (struct sockaddr *)&returnAddress, &returnLength)) <= 0) {
+                if (engine->verbose > 2) {
+                    RKLog("%s %s recvfrom() -> %d\n", engine->name, me->name, r);
                 }
-                if (r == txSize) {
-                    offset = 0;
-                } else if (r > sizeof(RKIPV4Header) + sizeof(RKICMPHeader) && ipv4Header->protocol == protocol->p_proto) {
-                    ipHeaderLength = (ipv4Header->versionAndHeaderLength & 0x0f) * sizeof(uint32_t);
-                    if (r >= ipHeaderLength + sizeof(RKICMPHeader)) {
-                        offset = ipHeaderLength;
-                    } else {
-                        RKLog("%s %s Error. Unexpected packet size.\n", engine->name, me->name);
-                        break;
-                    }
+                break;
+            }
+            offset = (size_t)-1;
+            if (r == txSize) {
+                offset = 0;
+            } else if (r > sizeof(RKIPV4Header) + sizeof(RKICMPHeader) && ipv4Header->protocol == IPPROTO_ICMP) {
+                ipHeaderLength = (ipv4Header->versionAndHeaderLength & 0x0f) * sizeof(uint32_t);
+                if (r >= ipHeaderLength + sizeof(RKICMPHeader)) {
+                    offset = ipHeaderLength;
+                } else {
+                    RKLog("%s %s Error. Unexpected packet size.\n", engine->name, me->name);
                 }
-            } else if (engine->verbose > 2) {
-                RKLog("%s %s recvfrom() -> %d\n", engine->name, me->name, r);
             }
-        }
-        if (offset != (size_t)-1 && returnAddress.sin_addr.s_addr == targetAddress.sin_addr.s_addr) {
+            if (offset == (size_t)-1 || returnAddress.sin_addr.s_addr != targetAddress.sin_addr.s_addr) {
+                continue;
+            }
             icmpHeader = (RKICMPHeader *)(buff + offset);
             receivedChecksum = icmpHeader->checksum;
             icmpHeader->checksum = 0;
@@ -295,63 +314,52 @@ static void *hostPinger(void *in) {
                 RKLog(">%s %s identifier     = 0x%04x   0x%04x\n", engine->name, me->name, icmpHeader->identifier, me->identifier);
                 RKLog(">%s %s sequenceNumber = %   6d   %   6d\n", engine->name, me->name, icmpHeader->sequenceNumber, me->sequenceNumber);
             }
+            if (icmpHeader->type != RKICMPv4EchoReply) {
+                continue;
+            }
+            now = rk_host_monitor_time();
             // Ignore identifier for this since it can be different for UDP implementations
-            if (receivedChecksum == calculatedChecksum &&
-                icmpHeader->type == RKICMPv4EchoReply &&
-                icmpHeader->code == 0 &&
-                icmpHeader->sequenceNumber == me->sequenceNumber) {
-                me->hostStatus = RKHostStatusReachable;
-                me->sequenceNumber++;
-                gettimeofday(&me->latestTime, NULL);
+            if (receivedChecksum == calculatedChecksum && icmpHeader->code == 0) {
+                // Only a probe that was sent not long ago and that is more recent than the one answered last counts
+                number = icmpHeader->sequenceNumber;
+                if ((uint16_t)(me->sequenceNumber - number) < txDepth &&
+                    (latestTime < 0.0 || (int16_t)(number - answeredNumber) > 0) &&
+                    now - txTime[number % txDepth] < 3.0 * interval) {
+                    answeredNumber = number;
+                    latestTime = now;
+                    gettimeofday(&me->latestTime, NULL);
+                    if (number == me->sequenceNumber) {
+                        nextTime = txTime[number % txDepth] + interval;
+                    }
+                }
             } else {
-                me->hostStatus = RKHostStatusReachableUnusual;
+                unusualTime = now;
             }
-            me->tic++;
-        } else {
-            // Timed out
-            gettimeofday(&time, NULL);
-            period = RKTimevalDiff(time, me->latestTime);
-            if (engine->verbose > 1) {
-                RKLog(">%s %s r = %d   delta: %.3e   %d.%d.%d.%d  %d %d",
-                      engine->name, me->name,
-                      r,
-                      RKTimevalDiff(time, me->latestTime),
-                      (targetAddress.sin_addr.s_addr & 0xff),
-                      (targetAddress.sin_addr.s_addr & 0x0000ff00) >> 8,
-                      (targetAddress.sin_addr.s_addr & 0x00ff0000) >> 16,
-                      (targetAddress.sin_addr.s_addr & 0xff000000) >> 24, k, offset);
-            }
-            if (period > (double)me->pingIntervalInSeconds * 3.0) {
-                me->hostStatus = RKHostStatusUnreachable;
-                me->tic++;
-            } else if (me->sequenceNumber > 1 && period > (double)me->pingIntervalInSeconds * 1.5) {
-                me->hostStatus = RKHostStatusPartiallyReachable;
-                me->tic++;
-            }
-
-            pthread_mutex_unlock(&engine->mutex);
-
-            // Wait less if this round failed.
-            k = 0;
-            while (k++ < 10 && engine->state & RKEngineStateWantActive) {
-                usleep(100000);
-            }
-            continue;
         }
 
-        pthread_mutex_unlock(&engine->mutex);
+        // Judge by the age of the latest reply
+        now = rk_host_monitor_time();
+        period = now - (latestTime < 0.0 ? startTime : latestTime);
+        if (latestTime >= 0.0 && period <= interval * 1.5) {
+            me->hostStatus = RKHostStatusReachable;
+        } else if (unusualTime >= 0.0 && now - unusualTime <= interval * 1.5) {
+            me->hostStatus = RKHostStatusReachableUnusual;
+        } else if (period > interval * 3.0) {
+            me->hostStatus = RKHostStatusUnreachable;
+        } else if (latestTime >= 0.0) {
+            me->hostStatus = RKHostStatusPartiallyReachable;
+        } else {
+            me->hostStatus = RKHostStatusUnknown;
+        }
+        me->tic++;
 
         // Now we wait
-        k = 0;
-        while (k++ < me->pingIntervalInSeconds * 10 && engine->state & RKEngineStateWantActive) {
-            usleep(100000);
-        }
+        usleep(100000);
     }
 
-    if (sd) {
+    if (sd >= 0) {
         close(sd);
     }
-    free(buff);
 
     RKLog(">%s %s Stopped.\n", engine->name, me->name);
 
@@ -361,24 +369,12 @@ static void *hostPinger(void *in) {
 static void *hostWatcher(void *in) {
     RKHostMonitor *engine = (RKHostMonitor *)in;
 
-    int k;
-    bool anyTrue, allKnown, allReachable, anyReachable;
+    int k, j;
+    bool allKnown, allReachable, anyReachable;
 
     engine->state |= RKEngineStateWantActive;
     engine->state ^= RKEngineStateActivating;
 
-    if (engine->workers != NULL) {
-        RKLog("%s Workers already allocated.\n", engine->name);
-        return NULL;
-    }
-    engine->workers = (RKUnitMonitor *)malloc(MAX(3, engine->workerCount) * sizeof(RKUnitMonitor));
-    if (engine->workers == NULL) {
-        RKLog(">%s Error. Unable to allocate an RKUnitMonitor.\n", engine->name);
-        return (void *)RKResultFailedToCreateUnitWorker;
-    }
-    memset(engine->workers, 0, engine->workerCount * sizeof(RKUnitMonitor));
-    engine->memoryUsage += engine->workerCount * sizeof(RKUnitMonitor);
-
 	for (k = 0; k < engine->workerCount; k++) {
         RKUnitMonitor *worker = &engine->workers[k];
 
@@ -389,6 +385,11 @@ static void *hostWatcher(void *in) {
         // Workers that actually ping the hosts
         if (pthread_create(&worker->tid, NULL, hostPinger, worker) != 0) {
             RKLog(">%s Error. Failed to start a host pinger", engine->name);
+            engine->state ^= RKEngineStateWantActive;
+            for (j = 0; j < k; j++) {
+                pthread_join(engine->workers[j].tid, NULL);
+            }
+            engine->tic = 1;
             return (void *)RKResultFailedToStartHostPinger;
         }
     }
@@ -407,16 +408,6 @@ static void *hostWatcher(void *in) {
     // Increase the tic once to indicate the engine is ready
     engine->tic = 1;
 
-    // Wait another tic for the first ping to properly respond
-    do {
-        anyTrue = false;
-        for (k = 0; k < engine->workerCount; k++) {
-            RKUnitMonitor *worker = &engine->workers[k];
-            anyTrue |= worker->tic == engine->tic;
-        }
-        usleep(10000);
-    } while (anyTrue && engine->state & RKEngineStateWantActive);
-
     // Increase one more now that the children are going
     engine->tic = 2;
 
@@ -436,7 +427,7 @@ static void *hostWatcher(void *in) {
         for (k = 0; k < engine->workerCount; k++) {
             RKUnitMonitor *worker = &engine->workers[k];
             allKnown &= worker->hostStatus != RKHostStatusUnknown;
-            anyReachable |= worker->hostStatus == RKHostStatusReachable;
+            anyReachable |= (worker->hostStatus == RKHostStatusReachable || worker->hostStatus == RKHostStatusReachableUnusual);
             allReachable &= (worker->hostStatus == RKHostStatusReachable || worker->hostStatus == RKHostStatusReachableUnusual);
             if (engine->verbose > 1) {
                 RKLog("%s %s %s%s%s (%d)\n", engine->name,
@@ -454,19 +445,9 @@ static void *hostWatcher(void *in) {
         engine->allReachable = allReachable;
         engine->anyReachable = anyReachable;
 
-        // Wait until all children advance by one tic
+        // The children go at their own pace, none of them has to wait for the others
         engine->state |= RKEngineStateSleep1;
-        do {
-            usleep(100000);
-            anyTrue = false;
-            for (k = 0; k < engine->workerCount; k++) {
-                RKUnitMonitor *worker = &engine->workers[k];
-                anyTrue |= worker->tic == engine->tic;
-            }
-            if (engine->verbose > 2) {
-                RKLog("Info. %d %d %d vs %d\n", engine->workers[0].tic, engine->workers[1].tic, engine->workers[2].tic, engine->tic);
-            }
-        } while (anyTrue && engine->state & RKEngineStateWantActive);
+        usleep(100000);
         engine->state ^= RKEngineStateSleep1;
 
         engine->tic++;
@@ -475,12 +456,17 @@ static void *hostWatcher(void *in) {
     for (k = 0; k < engine->workerCount; k++) {
         pthread_join(engine->workers[k].tid, NULL);
     }
-    free(engine->workers);
 
     engine->state ^= RKEngineStateActive;
     return NULL;
 }
 
+static void RKHostMonitorFreeWorkers(RKHostMonitor *engine) {
+    free(engine->workers);
+    engine->workers = NULL;
+    engine->memoryUsage = sizeof(RKHostMonitor) + engine->workerCount * sizeof(RKName);
+}
+
 #pragma mark - Life Cycle
 
 RKHostMonitor *RKHostMonitorInit(void) {
@@ -505,6 +491,7 @@ void RKHostMonitorFree(RKHostMonitor *engine) {
         RKHostMonitorStop(engine);
     }
     pthread_mutex_destroy(&engine->mutex);
+    free(engine->hosts);
     free(engine);
 }
 
@@ -519,8 +506,14 @@ void RKHostMonitorAddHost(RKHostMonitor *engine, const char *address) {
         RKLog("%s Cannot add host after the engine has started.\n", engine->name);
         return;
     }
+    RKName *hosts = realloc(engine->hosts, (engine->workerCount + 1) * sizeof(RKName));
+    if (hosts == NULL) {
+        RKLog("%s Error. Unable to add host %s.\n", engine->name, address);
+        return;
+    }
     int k = engine->workerCount++;
-    engine->hosts = realloc(engine->hosts, engine->workerCount * sizeof(RKName));
+    engine->hosts = hosts;
+    memset(engine->hosts[k], 0, sizeof(RKName));
     strncpy(engine->hosts[k], address, RKNameLength - 1);
     engine->memoryUsage = sizeof(RKHostMonitor) + engine->workerCount * sizeof(RKName);
     engine->state |= RKEngineStateProperlyWired;
@@ -530,16 +523,37 @@ void RKHostMonitorAddHost(RKHostMonitor *engine, const char *address) {
 
 int RKHostMonitorStart(RKHostMonitor *engine) {
     //RKLog("%s %d %s", engine->name, engine->workerCount, engine->hosts[0]);
+    if (engine->state & (RKEngineStateActivating | RKEngineStateWantActive)) {
+        RKLog("%s Info. Engine has already been started.\n", engine->name);
+        return RKResultSuccess;
+    }
     RKLog("%s Starting ...\n", engine->name);
     engine->tic = 0;
+    engine->allKnown = false;
+    engine->allReachable = false;
+    engine->anyReachable = false;
+    engine->workers = (RKUnitMonitor *)calloc(engine->workerCount, sizeof(RKUnitMonitor));
+    if (engine->workers == NULL) {
+        RKLog(">%s Error. Unable to allocate an RKUnitMonitor.\n", engine->name);
+        return RKResultFailedToCreateUnitWorker;
+    }
+    engine->memoryUsage += engine->workerCount * sizeof(RKUnitMonitor);
     engine->state |= RKEngineStateActivating;
     if (pthread_create(&engine->tidHostWatcher, NULL, hostWatcher, engine) != 0) {
         RKLog("Error. Failed to start a host watcher.\n");
+        engine->state ^= RKEngineStateActivating;
+        RKHostMonitorFreeWorkers(engine);
         return RKResultFailedToStartHostWatcher;
     }
     while (engine->tic == 0) {
         usleep(10000);
     }
+    if (!(engine->state & RKEngineStateWantActive)) {
+        pthread_join(engine->tidHostWatcher, NULL);
+        engine->tidHostWatcher = (pthread_t)0;
+        RKHostMonitorFreeWorkers(engine);
+        return RKResultFailedToStartHostPinger;
+    }
     return RKResultSuccess;
 }
 
@@ -563,6 +577,7 @@ int RKHostMonitorStop(RKHostMonitor *engine) {
     } else {
         RKLog("%s Invalid thread ID.\n", engine->name);
     }
+    RKHostMonitorFreeWorkers(engine);
     engine->state ^= RKEngineStateDeactivating;
     RKLog("%s Stopped.\n", engine->name);
     if (engine->state != (RKEngineStateAllocated | RKEngineStateProperlyWired)) {
-- 
2.43.0


From 6699cc87bb3911368dcef7108cea7dc76e48245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 25/40] fix: release what a failed start, a stop and a restart
 leave behind; stop engines before what they use is released

---
 source/RKFileManager.c     | 11 +++++--
 source/RKHealthEngine.c    |  4 +++
 source/RKHealthLogger.c    |  1 +
 source/RKMomentEngine.c    | 26 ++++++++++++++++
 source/RKPositionEngine.c  |  4 +++
 source/RKPulseEngine.c     | 32 ++++++++++++++++++--
 source/RKPulseRingFilter.c | 28 +++++++++++++++++
 source/RKRadar.c           | 61 ++++++++++++++++++++++----------------
 source/RKRawDataRecorder.c |  1 +
 source/RKScratch.c         |  7 +++++
 source/RKSteerEngine.c     | 10 ++++++-
 source/RKSweepEngine.c     |  1 +
 12 files changed, 155 insertions(+), 31 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index d14195c..ff46011 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -447,7 +447,7 @@ static void *fileRemover(void *in) {
 
     RKLog(">%s Stopped.\n", me->name);
 
-    engine->state ^= RKEngineStateActive;
+    engine->state &= ~RKEngineStateActive;
     return NULL;
 }
 
@@ -553,7 +553,9 @@ static void *folderWatcher(void *in) {
         // Workers that actually remove the files (and folders)
         if (pthread_create(&worker->tid, NULL, fileRemover, worker) != 0) {
             RKLog(">%s Error. Failed to start a file remover.\n", engine->name);
-            return (void *)RKResultFailedToStartFileRemover;
+            engine->state ^= RKEngineStateWantActive;
+            engine->workerCount = k;
+            break;
         }
 
         while (worker->tic == 0 && engine->state & RKEngineStateWantActive) {
@@ -722,12 +724,17 @@ int RKFileManagerStart(RKFileManager *engine) {
     engine->state |= RKEngineStateActivating;
     if (pthread_create(&engine->tidFileWatcher, NULL, folderWatcher, engine) != 0) {
         RKLog("Error. Failed to start a ray gatherer.\n");
+        engine->state ^= RKEngineStateActivating;
         return RKResultFailedToStartFileManager;
     }
 	//RKLog("tidFileWatcher = %lu\n", (unsigned long)engine->tidFileWatcher);
 	while (engine->tic == 0) {
         usleep(10000);
     }
+    if (!(engine->state & RKEngineStateWantActive)) {
+        pthread_join(engine->tidFileWatcher, NULL);
+        return RKResultFailedToStartFileRemover;
+    }
     return RKResultSuccess;
 }
 
diff --git a/source/RKHealthEngine.c b/source/RKHealthEngine.c
index b3fd7cb..d77f94a 100644
--- a/source/RKHealthEngine.c
+++ b/source/RKHealthEngine.c
@@ -346,6 +346,9 @@ RKHealthEngine *RKHealthEngineInit(void) {
 }
 
 void RKHealthEngineFree(RKHealthEngine *engine) {
+    if (engine->state & RKEngineStateWantActive) {
+        RKHealthEngineStop(engine);
+    }
     free(engine);
 }
 
@@ -377,6 +380,7 @@ int RKHealthEngineStart(RKHealthEngine *engine) {
     engine->state |= RKEngineStateActivating;
     if (pthread_create(&engine->tidHealthConsolidator, NULL, healthConsolidator, engine)) {
         RKLog("Error. Unable to start health engine.\n");
+        engine->state ^= RKEngineStateActivating;
         return RKResultFailedToStartHealthWorker;
     }
 	while (engine->tic == 0) {
diff --git a/source/RKHealthLogger.c b/source/RKHealthLogger.c
index c3efb4e..b534aee 100644
--- a/source/RKHealthLogger.c
+++ b/source/RKHealthLogger.c
@@ -206,6 +206,7 @@ int RKHealthLoggerStart(RKHealthLogger *engine) {
     engine->state |= RKEngineStateActivating;
     if (pthread_create(&engine->tidBackground, NULL, healthLogger, engine)) {
         RKLog("Error. Unable to start health engine.\n");
+        engine->state ^= RKEngineStateActivating;
         return RKResultFailedToStartHealthWorker;
     }
     while (engine->tic == 0) {
diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index e0dd3af..b446951 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -675,6 +675,17 @@ static void *pulseGatherer(void *_in) {
         }
         if (pthread_create(&worker->tid, NULL, momentEngineCore, worker) != 0) {
             RKLog(">%s Error. Failed to start a moment core.\n", engine->name);
+            engine->state ^= RKEngineStateWantActive;
+            sem_close(worker->sem);
+            sem_unlink(worker->semaphoreName);
+            for (i = 0; i < c; i++) {
+                worker = &engine->workers[i];
+                sem_post(worker->sem);
+                pthread_join(worker->tid, NULL);
+                sem_close(worker->sem);
+                sem_unlink(worker->semaphoreName);
+            }
+            engine->tic = 1;
             return (void *)RKResultFailedToStartMomentCore;
         }
     }
@@ -682,6 +693,7 @@ static void *pulseGatherer(void *_in) {
     // Initialize oldIndex as 1/8-depth older than doneIndex
     if (engine->doneIndex != 0) {
         RKLog(">%s Warning. doneIndex = %u\n", engine->name, engine->doneIndex);
+        engine->doneIndex = 0;
     }
     engine->oldIndex = RKPreviousNModuloS(engine->doneIndex, MAX(1, engine->radarDescription->rayBufferDepth / 8), engine->radarDescription->rayBufferDepth);
 
@@ -875,6 +887,7 @@ static void *pulseGatherer(void *_in) {
             sem_post(worker->sem);
         }
         pthread_join(worker->tid, NULL);
+        sem_close(worker->sem);
         sem_unlink(worker->semaphoreName);
     }
     if (engine->state & RKEngineStateActive) {
@@ -1340,17 +1353,30 @@ int RKMomentEngineStart(RKMomentEngine *engine) {
     if (engine->useOldCodes) {
         if (pthread_create(&engine->tidPulseGatherer, NULL, pulseGathererV1, engine) != 0) {
             RKLog("Error. Failed to start a pulse watcher.\n");
+            engine->state ^= RKEngineStateActivating;
+            free(engine->workers);
+            engine->workers = NULL;
             return RKResultFailedToStartPulseGatherer;
         }
     } else {
         if (pthread_create(&engine->tidPulseGatherer, NULL, pulseGatherer, engine) != 0) {
             RKLog("Error. Failed to start a pulse watcher.\n");
+            engine->state ^= RKEngineStateActivating;
+            free(engine->workers);
+            engine->workers = NULL;
             return RKResultFailedToStartPulseGatherer;
         }
     }
     while (engine->tic == 0) {
         usleep(10000);
     }
+    if (!(engine->state & RKEngineStateWantActive)) {
+        pthread_join(engine->tidPulseGatherer, NULL);
+        engine->tidPulseGatherer = (pthread_t)0;
+        free(engine->workers);
+        engine->workers = NULL;
+        return RKResultFailedToStartMomentCore;
+    }
     return RKResultSuccess;
 }
 
diff --git a/source/RKPositionEngine.c b/source/RKPositionEngine.c
index ea592cd..0e8e818 100644
--- a/source/RKPositionEngine.c
+++ b/source/RKPositionEngine.c
@@ -358,6 +358,9 @@ RKPositionEngine *RKPositionEngineInit(void) {
 }
 
 void RKPositionEngineFree(RKPositionEngine *engine) {
+    if (engine->state & RKEngineStateWantActive) {
+        RKPositionEngineStop(engine);
+    }
     free(engine);
 }
 
@@ -401,6 +404,7 @@ int RKPositionEngineStart(RKPositionEngine *engine) {
     engine->state |= RKEngineStateActivating;
     if (pthread_create(&engine->threadId, NULL, pulseTagger, engine)) {
         RKLog("Error. Unable to start position engine.\n");
+        engine->state ^= RKEngineStateActivating;
         return RKResultFailedToStartPedestalWorker;
     }
     while (engine->tic == 0) {
diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index d6180e7..951b5b9 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -558,6 +558,8 @@ static void *pulseEngineCore(void *_in) {
     RKCompressionScratchFree(scratch);
     RKPulseBufferFree(localPulseBuffer);
 
+    sem_close(sem);
+
     RKLog(">%s Stopped.\n", me->name);
 
     return NULL;
@@ -617,6 +619,17 @@ static void *pulseWatcher(void *_in) {
         }
         if (pthread_create(&worker->tid, NULL, pulseEngineCore, worker) != 0) {
             RKLog(">%s Error. Failed to start a compression core.\n", engine->name);
+            engine->state ^= RKEngineStateWantActive;
+            sem_close(worker->sem);
+            sem_unlink(worker->semaphoreName);
+            for (i = 0; i < c; i++) {
+                worker = &engine->workers[i];
+                sem_post(worker->sem);
+                pthread_join(worker->tid, NULL);
+                sem_close(worker->sem);
+                sem_unlink(worker->semaphoreName);
+            }
+            engine->tic = 1;
             return (void *)RKResultFailedToStartCompressionCore;
         }
     }
@@ -624,6 +637,7 @@ static void *pulseWatcher(void *_in) {
     // Initialize oldIndex as 1/8-depth older than doneIndex
     if (engine->doneIndex != 0) {
         RKLog(">%s Warning. doneIndex = %u\n", engine->name, engine->doneIndex);
+        engine->doneIndex = 0;
     }
     engine->oldIndex = RKPreviousNModuloS(engine->doneIndex, MAX(1, engine->radarDescription->pulseBufferDepth / 8), engine->radarDescription->pulseBufferDepth);
 
@@ -755,6 +769,7 @@ static void *pulseWatcher(void *_in) {
             sem_post(worker->sem);
         }
         pthread_join(worker->tid, NULL);
+        sem_close(worker->sem);
         sem_unlink(worker->semaphoreName);
     }
     if (engine->state & RKEngineStateActive) {
@@ -988,8 +1003,8 @@ void RKPulseEngineFree(RKPulseEngine *engine) {
     if (engine->state & RKEngineStateWantActive) {
         RKPulseEngineStop(engine);
     }
-    for (int i = 0; i < engine->filterGroupCount; i++) {
-        for (int j = 0; j < engine->filterCounts[i]; j++) {
+    for (int i = 0; i < RKMaximumWaveformCount; i++) {
+        for (int j = 0; j < RKMaximumFilterCount; j++) {
             if (engine->filters[i][j] != NULL) {
                 free(engine->filters[i][j]);
             }
@@ -1322,17 +1337,30 @@ int RKPulseEngineStart(RKPulseEngine *engine) {
     if (engine->useOldCodes) {
         if (pthread_create(&engine->tidPulseWatcher, NULL, pulseWatcherV1, engine) != 0) {
             RKLog("%s Error. Failed to start.\n", engine->name);
+            engine->state ^= RKEngineStateActivating;
+            free(engine->workers);
+            engine->workers = NULL;
             return RKResultFailedToStartPulseWatcher;
         }
     } else {
         if (pthread_create(&engine->tidPulseWatcher, NULL, pulseWatcher, engine) != 0) {
             RKLog("%s Error. Failed to start.\n", engine->name);
+            engine->state ^= RKEngineStateActivating;
+            free(engine->workers);
+            engine->workers = NULL;
             return RKResultFailedToStartPulseWatcher;
         }
     }
     while (engine->tic == 0) {
         usleep(10000);
     }
+    if (!(engine->state & RKEngineStateWantActive)) {
+        pthread_join(engine->tidPulseWatcher, NULL);
+        engine->tidPulseWatcher = (pthread_t)0;
+        free(engine->workers);
+        engine->workers = NULL;
+        return RKResultFailedToStartCompressionCore;
+    }
     return RKResultSuccess;
 }
 
diff --git a/source/RKPulseRingFilter.c b/source/RKPulseRingFilter.c
index c738f27..e2810a3 100644
--- a/source/RKPulseRingFilter.c
+++ b/source/RKPulseRingFilter.c
@@ -420,6 +420,8 @@ static void *ringFilterCore(void *_in) {
     free(busyPeriods);
     free(fullPeriods);
 
+    sem_close(sem);
+
     RKLog(">%s Stopped.\n", me->name);
 
     return NULL;
@@ -497,6 +499,18 @@ static void *pulseRingWatcher(void *_in) {
         }
         if (pthread_create(&worker->tid, NULL, ringFilterCore, worker) != 0) {
             RKLog(">%s Error. Failed to start a ring core.\n", engine->name);
+            engine->state ^= RKEngineStateWantActive;
+            sem_close(worker->sem);
+            sem_unlink(worker->semaphoreName);
+            for (i = 0; i < c; i++) {
+                worker = &engine->workers[i];
+                sem_post(worker->sem);
+                pthread_join(worker->tid, NULL);
+                sem_close(worker->sem);
+                sem_unlink(worker->semaphoreName);
+            }
+            free(engine->workerTaskDone);
+            engine->tic = 1;
             return (void *)RKResultFailedToStartRingCore;
         }
     }
@@ -677,6 +691,7 @@ static void *pulseRingWatcher(void *_in) {
             sem_post(worker->sem);
         }
         pthread_join(worker->tid, NULL);
+        sem_close(worker->sem);
         sem_unlink(worker->semaphoreName);
     }
     if (engine->state & RKEngineStateActive) {
@@ -1078,17 +1093,30 @@ int RKPulseRingFilterEngineStart(RKPulseRingFilterEngine *engine) {
     if (engine->useOldCodes) {
         if (pthread_create(&engine->tidPulseWatcher, NULL, pulseRingWatcherV1, engine) != 0) {
             RKLog("%s Error. Failed to start.\n", engine->name);
+            engine->state ^= RKEngineStateActivating;
+            free(engine->workers);
+            engine->workers = NULL;
             return RKResultFailedToStartRingPulseWatcher;
         }
     } else {
         if (pthread_create(&engine->tidPulseWatcher, NULL, pulseRingWatcher, engine) != 0) {
             RKLog("%s Error. Failed to start.\n", engine->name);
+            engine->state ^= RKEngineStateActivating;
+            free(engine->workers);
+            engine->workers = NULL;
             return RKResultFailedToStartRingPulseWatcher;
         }
     }
     while (engine->tic == 0) {
         usleep(10000);
     }
+    if (!(engine->state & RKEngineStateWantActive)) {
+        pthread_join(engine->tidPulseWatcher, NULL);
+        engine->tidPulseWatcher = (pthread_t)0;
+        free(engine->workers);
+        engine->workers = NULL;
+        return RKResultFailedToStartRingCore;
+    }
     return RKResultSuccess;
 }
 
diff --git a/source/RKRadar.c b/source/RKRadar.c
index 61f0338..514b749 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1079,9 +1079,6 @@ int RKFree(RKRadar *radar) {
         RKStop(radar);
     }
     // Various RadarKit engines
-    if (radar->state & RKRadarStateFileManagerInitialized) {
-        RKFileManagerFree(radar->fileManager);
-    }
     if (radar->pulseClock) {
         RKClockFree(radar->pulseClock);
         radar->pulseClock = NULL;
@@ -1090,14 +1087,6 @@ int RKFree(RKRadar *radar) {
         RKClockFree(radar->positionClock);
         radar->positionClock = NULL;
     }
-    if (radar->fftModule) {
-        RKFFTModuleFree(radar->fftModule);
-        radar->fftModule = NULL;
-    }
-    if (radar->userModule && radar->userModuleFree) {
-        radar->userModuleFree(radar->userModule);
-        radar->userModule = NULL;
-    }
     if (radar->state & RKRadarStatePulseCompressionEngineInitialized) {
         RKPulseEngineFree(radar->pulseEngine);
         radar->pulseEngine = NULL;
@@ -1138,6 +1127,24 @@ int RKFree(RKRadar *radar) {
         RKRawDataRecorderFree(radar->rawDataRecorder);
         radar->rawDataRecorder = NULL;
     }
+    if (radar->state & RKRadarStateHostMonitorInitialized) {
+        RKHostMonitorFree(radar->hostMonitor);
+        radar->hostMonitor = NULL;
+    }
+    // The engines above may use these until they are stopped
+    if (radar->fftModule) {
+        RKFFTModuleFree(radar->fftModule);
+        radar->fftModule = NULL;
+    }
+    if (radar->userModule && radar->userModuleFree) {
+        radar->userModuleFree(radar->userModule);
+        radar->userModule = NULL;
+    }
+    // The file manager goes last since others may still report their files to it
+    if (radar->state & RKRadarStateFileManagerInitialized) {
+        RKFileManagerFree(radar->fileManager);
+        radar->fileManager = NULL;
+    }
     // Transceiver, pedestal & health relay
     if (radar->pedestal) {
         radar->pedestalFree(radar->pedestal);
@@ -1166,9 +1173,13 @@ int RKFree(RKRadar *radar) {
         RKWaveformFree(radar->waveform);
         radar->waveform = NULL;
     }
+    if (radar->waveformDecimate) {
+        RKWaveformFree(radar->waveformDecimate);
+        radar->waveformDecimate = NULL;
+    }
     if (radar->filter) {
         if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
-            RKLog("Freeing filter ...\n", radar->waveform->name);
+            RKLog("Freeing filter ...\n");
         }
         free(radar->filter);
         radar->filter = NULL;
@@ -1187,6 +1198,9 @@ int RKFree(RKRadar *radar) {
         free(radar->healths);
     }
     if (radar->state & RKRadarStateHealthNodesAllocated) {
+        for (k = 0; k < radar->desc.healthNodeCount; k++) {
+            free(radar->healthNodes[k].healths);
+        }
         free(radar->healthNodes);
     }
     if (radar->state & RKRadarStatePositionBufferAllocated) {
@@ -1540,7 +1554,11 @@ int RKSetWaveformByFilename(RKRadar *radar, const char *filename) {
     }
     // Load in the waveform
     RKWaveform *waveform = RKWaveformInitFromFile(filename);
-    return RKSetWaveform(radar, waveform);
+    int r = RKSetWaveform(radar, waveform);
+    if (waveform) {
+        RKWaveformFree(waveform);
+    }
+    return r;
 }
 
 int RKSetWaveformToImpulse(RKRadar *radar) {
@@ -1548,7 +1566,9 @@ int RKSetWaveformToImpulse(RKRadar *radar) {
         return RKResultNoPulseCompressionEngine;
     }
     RKWaveform *waveform = RKWaveformInitAsImpulse();
-    return RKSetWaveform(radar, waveform);;
+    int r = RKSetWaveform(radar, waveform);
+    RKWaveformFree(waveform);
+    return r;
 }
 
 int RKSetPRF(RKRadar *radar, const uint32_t prf) {
@@ -1984,6 +2004,7 @@ int RKStop(RKRadar *radar) {
     radar->state &= ~RKRadarStateLive;
     if (radar->systemInspector) {
         RKSimpleEngineFree(radar->systemInspector);
+        radar->systemInspector = NULL;
     }
     if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
         RKLog("Radar state = 0x%08x\n", radar->state);
@@ -2025,51 +2046,39 @@ int RKStop(RKRadar *radar) {
     }
     if (radar->state & RKRadarStateFileManagerInitialized) {
         RKFileManagerStop(radar->fileManager);
-        radar->state ^= RKRadarStateFileManagerInitialized;
     }
     if (radar->state & RKRadarStateHostMonitorInitialized) {
         RKHostMonitorStop(radar->hostMonitor);
-        radar->state ^= RKRadarStateHostMonitorInitialized;
     }
     if (radar->state & RKRadarStatePulseCompressionEngineInitialized) {
         RKPulseEngineStop(radar->pulseEngine);
-        radar->state ^= RKRadarStatePulseCompressionEngineInitialized;
     }
     if (radar->state & RKRadarStatePulseRingFilterEngineInitialized) {
         RKPulseRingFilterEngineStop(radar->pulseRingFilterEngine);
-        radar->state ^= RKRadarStatePulseRingFilterEngineInitialized;
     }
     if (radar->state & RKRadarStatePositionEngineInitialized) {
         RKPositionEngineStop(radar->positionEngine);
-        radar->state ^= RKRadarStatePositionEngineInitialized;
     }
     if (radar->state & RKRadarStatePositionSteerEngineInitialized) {
         RKSteerEngineStop(radar->steerEngine);
-        radar->state ^= RKRadarStatePositionSteerEngineInitialized;
     }
     if (radar->state & RKRadarStateMomentEngineInitialized) {
         RKMomentEngineStop(radar->momentEngine);
-        radar->state ^= RKRadarStateMomentEngineInitialized;
     }
     if (radar->state & RKRadarStateHealthEngineInitialized) {
         RKHealthEngineStop(radar->healthEngine);
-        radar->state ^= RKRadarStateHealthEngineInitialized;
     }
     if (radar->state & RKRadarStateHealthLoggerInitialized) {
         RKHealthLoggerStop(radar->healthLogger);
-        radar->state ^= RKRadarStateHealthLoggerInitialized;
     }
     if (radar->state & RKRadarStateRadarRelayInitialized) {
         RKRadarRelayStop(radar->radarRelay);
-        radar->state ^= RKRadarStateRadarRelayInitialized;
     }
     if (radar->state & RKRadarStateFileRecorderInitialized) {
         RKRawDataRecorderStop(radar->rawDataRecorder);
-        radar->state ^= RKRadarStateFileRecorderInitialized;
     }
     if (radar->state & RKRadarStateSweepEngineInitialized) {
         RKSweepEngineStop(radar->sweepEngine);
-        radar->state ^= RKRadarStateSweepEngineInitialized;
     }
     if (radar->desc.initFlags & RKInitFlagVeryVeryVerbose) {
         RKLog("Radar state = 0x%x\n", radar->state);
diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 77ca4ae..3ffc4a9 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -407,6 +407,7 @@ int RKRawDataRecorderStart(RKRawDataRecorder *engine) {
     engine->state |= RKEngineStateActivating;
     if (pthread_create(&engine->tidPulseRecorder, NULL, pulseRecorder, engine) != 0) {
         RKLog("%s Error. Failed to start pulse recorder.\n", engine->name);
+        engine->state ^= RKEngineStateActivating;
         return RKResultFailedToStartPulseRecorder;
     }
     while (!(engine->state & RKEngineStateWantActive)) {
diff --git a/source/RKScratch.c b/source/RKScratch.c
index 34863d2..9159ebd 100644
--- a/source/RKScratch.c
+++ b/source/RKScratch.c
@@ -275,9 +275,16 @@ void RKMomentScratchFree(RKMomentScratch *scratch) {
     for (k = 0; k < scratch->capacity; k++) {
         free(scratch->inBuffer[k]);
         free(scratch->outBuffer[k]);
+        free(scratch->fC[k]);
+        for (j = 0; j < 2; j++) {
+            free(scratch->fS[j][k]);
+        }
     }
     free(scratch->inBuffer);
     free(scratch->outBuffer);
+    free(scratch->fC);
+    free(scratch->fS[0]);
+    free(scratch->fS[1]);
     free(scratch);
 }
 
diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 1a5c88c..f6b2cc9 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -369,7 +369,7 @@ static void *steerer(void *_in) {
         }
 
         // Update k to catch up for the next watch
-        k = RKNextModuloS(k, engine->radarDescription->pulseBufferDepth);
+        k = RKNextModuloS(k, engine->radarDescription->positionBufferDepth);
     }
 
     engine->state ^= RKEngineStateActive;
@@ -397,6 +397,9 @@ RKSteerEngine *RKSteerEngineInit(void) {
 }
 
 void RKSteerEngineFree(RKSteerEngine *engine) {
+    if (engine->state & RKEngineStateWantActive) {
+        RKSteerEngineStop(engine);
+    }
     free(engine);
 }
 
@@ -442,6 +445,7 @@ int RKSteerEngineStart(RKSteerEngine *engine) {
     engine->state |= RKEngineStateActivating | RKEngineStateWantActive;
     if (pthread_create(&engine->threadId, NULL, steerer, engine) != 0) {
         RKLog("%s Error. Failed to start.\n", engine->name);
+        engine->state ^= (RKEngineStateActivating | RKEngineStateWantActive);
         return RKResultFailedToStartRingPulseWatcher;
     }
     while (engine->tic == 0) {
@@ -451,6 +455,10 @@ int RKSteerEngineStart(RKSteerEngine *engine) {
 }
 
 int RKSteerEngineStop(RKSteerEngine *engine) {
+    if (!(engine->state & RKEngineStateWantActive)) {
+        RKLog("%s Not active.\n", engine->name);
+        return RKResultEngineDeactivatedMultipleTimes;
+    }
     RKLog("%s Stopping ...\n", engine->name);
     engine->state |= RKEngineStateDeactivating;
     engine->state ^= RKEngineStateWantActive;
diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index fcb9bc4..7dc3303 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -780,6 +780,7 @@ int RKSweepEngineStart(RKSweepEngine *engine) {
     engine->state |= RKEngineStateActivating;
     if (pthread_create(&engine->tidRayGatherer, NULL, rayGatherer, engine) != 0) {
         RKLog("Error. Failed to start a ray gatherer.\n");
+        engine->state ^= RKEngineStateActivating;
         return RKResultFailedToStartRayGatherer;
     }
     while (engine->tic == 0) {
-- 
2.43.0


From c7ea775fa1203fc35434f0df6a936394d0fdf3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:56 +0000
Subject: [PATCH 26/40] fix: pulses shorter than the filters, or without gates,
 no longer underflow the gate count

---
 source/RKPulseEngine.c | 21 +++++++++++++++------
 source/RKScratch.c     |  2 +-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index 951b5b9..22b70d5 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -145,6 +145,11 @@ static void RKEngineShowBuffer(fftwf_complex *in, const int n) {
 
 #pragma mark - Delegate Workers
 
+// Number of gates from an origin on, a pulse may be too short to have any
+static inline unsigned int RKGatesFrom(const RKPulse *pulse, const uint32_t origin) {
+    return pulse->header.gateCount > origin ? pulse->header.gateCount - origin : 0;
+}
+
 // void RKBuiltInConfigChangeCallback(RKCompressionScratch *scratch) {
 //     RKWaveform *waveform = scratch->config->waveform;
 //     RKLog("%s Config changed. waveform @ %p   %s", scratch->name, waveform,
@@ -157,8 +162,8 @@ void RKBuiltInCompressor(RKUserModule _Nullable ignore, RKCompressionScratch *sc
     RKPulse *pulse = scratch->pulse;
     const RKComplex *filter = scratch->filter;
     const RKFilterAnchor *filterAnchor = scratch->filterAnchor;
-    const unsigned int inBound = MIN(pulse->header.gateCount - filterAnchor->inputOrigin, filterAnchor->inputOrigin + filterAnchor->maxDataLength + filterAnchor->length);
-    const unsigned int outBound = MIN(pulse->header.gateCount - filterAnchor->outputOrigin, filterAnchor->maxDataLength);
+    const unsigned int inBound = MIN(RKGatesFrom(pulse, filterAnchor->inputOrigin), filterAnchor->inputOrigin + filterAnchor->maxDataLength + filterAnchor->length);
+    const unsigned int outBound = MIN(RKGatesFrom(pulse, filterAnchor->outputOrigin), filterAnchor->maxDataLength);
 
     i = scratch->planIndex;
     const fftwf_plan planForwardInPlace = scratch->fftModule->plans[i].forwardInPlace;
@@ -460,7 +465,8 @@ static void *pulseEngineCore(void *_in) {
             pulse->parameters.filterCounts[0] = 0;
             pulse->parameters.filterCounts[1] = 0;
             pulse->header.pulseWidthSampleCount = blindGateCount;
-            pulse->header.gateCount += 1 - blindGateCount;
+            // Nothing is left of a pulse that is shorter than the filters
+            pulse->header.gateCount -= MIN(pulse->header.gateCount, MAX(1, blindGateCount) - 1);
             pulse->header.s |= RKPulseStatusSkipped;
             if (engine->verbose > 1) {
                 RKLog("%s pulse skipped. header->i = %d   gid = %d\n", me->name, pulse->header.i, gid);
@@ -498,7 +504,8 @@ static void *pulseEngineCore(void *_in) {
                 RKLog("-- %d --> %d\n", pulse->header.gateCount, pulse->header.gateCount - blindGateCount);
             }
             #endif
-            pulse->header.gateCount += 1 - blindGateCount;
+            // Nothing is left of a pulse that is shorter than the filters
+            pulse->header.gateCount -= MIN(pulse->header.gateCount, MAX(1, blindGateCount) - 1);
             pulse->header.s |= RKPulseStatusCompressed;
         }
 
@@ -707,7 +714,8 @@ static void *pulseWatcher(void *_in) {
 
             // Find the right plan and increase the use count, assuming the compressor will use it
             for (j = 0; j < engine->filterCounts[gid]; j++) {
-                planIndex = (unsigned int)ceilf(log2f((float)MIN(pulse->header.gateCount - engine->filterAnchors[gid][j].inputOrigin,
+                planIndex = pulse->header.gateCount <= engine->filterAnchors[gid][j].inputOrigin ? 0 :
+                            (unsigned int)ceilf(log2f((float)MIN(pulse->header.gateCount - engine->filterAnchors[gid][j].inputOrigin,
                                                                  engine->filterAnchors[gid][j].maxDataLength + engine->filterAnchors[gid][j].length)));
                 engine->planIndices[k][j] = planIndex;
                 engine->fftModule->plans[planIndex].count++;
@@ -925,7 +933,8 @@ static void *pulseWatcherV1(void *_in) {
 
             // Find the right plan and increase the use count, assuming the compressor will use it
             for (j = 0; j < engine->filterCounts[gid]; j++) {
-                planIndex = (unsigned int)ceilf(log2f((float)MIN(pulse->header.gateCount - engine->filterAnchors[gid][j].inputOrigin,
+                planIndex = pulse->header.gateCount <= engine->filterAnchors[gid][j].inputOrigin ? 0 :
+                            (unsigned int)ceilf(log2f((float)MIN(pulse->header.gateCount - engine->filterAnchors[gid][j].inputOrigin,
                                                                  engine->filterAnchors[gid][j].maxDataLength + engine->filterAnchors[gid][j].length)));
                 engine->planIndices[k][j] = planIndex;
                 engine->fftModule->plans[planIndex].count++;
diff --git a/source/RKScratch.c b/source/RKScratch.c
index 9159ebd..cd779f4 100644
--- a/source/RKScratch.c
+++ b/source/RKScratch.c
@@ -425,7 +425,7 @@ int makeRayFromScratch(RKMomentScratch *scratch, RKRay *ray) {
 
     // Simple despeckling: censor the current cell if the next cell is censored
     mask = scratch->mask;
-    for (k = 0; k < MIN(scratch->capacity, scratch->gateCount) - 1; k++) {
+    for (k = 0; k + 1 < MIN(scratch->capacity, scratch->gateCount); k++) {
         if (!(*(mask + 1) & RKCellMaskKeepH)) {
             *mask &= ~RKCellMaskKeepH;
         }
-- 
2.43.0


From f0de67d0266f6e0fec98f8fb6453d38aa3a9f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:56 +0000
Subject: [PATCH 27/40] fix: waveforms and user modules are kept until no
 configuration refers to them, devices are freed without a health relay

---
 headers/RadarKit/RKRadar.h |  13 ++++
 source/RKRadar.c           | 120 ++++++++++++++++++-------------------
 2 files changed, 71 insertions(+), 62 deletions(-)

diff --git a/headers/RadarKit/RKRadar.h b/headers/RadarKit/RKRadar.h
index 0784225..a5cec5a 100644
--- a/headers/RadarKit/RKRadar.h
+++ b/headers/RadarKit/RKRadar.h
@@ -78,6 +78,14 @@ enum {
 
 typedef struct rk_radar RKRadar;
 typedef struct rk_user_device RKUserDevice;
+//
+// A waveform or user module that has been replaced
+//
+typedef struct rk_retired_resource {
+    void                 *resource;
+    bool                 isWaveform;
+} RKRetiredResource;
+
 //
 // Simple device that reports health only
 //
@@ -203,6 +211,11 @@ struct rk_radar {
     RKUserModule                     userModule;
     RKUserModule                     (*userModuleInit)(RKWaveform *);
     void                             (*userModuleFree)(RKUserModule);
+    //
+    // Waveforms and user modules that have been replaced but may still be in use
+    //
+    RKRetiredResource                *retired;
+    uint32_t                         retiredCount;
 };
 
 //
diff --git a/source/RKRadar.c b/source/RKRadar.c
index 514b749..211cd75 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -25,12 +25,6 @@ enum UIDType {
     UIDTypeWaveformCalibration
 };
 
-typedef struct rk_old_source {
-    RKRadar       *radar;
-    RKUserModule  module;
-    uint64_t      targetConfigId;
-} RKOldUserModule;
-
 #pragma mark - Static Functions
 
 static uint32_t getUID(UIDType type) {
@@ -50,26 +44,52 @@ static uint32_t getUID(UIDType type) {
     return 0;
 }
 
-void *freeUserModuleDelayed(void *input) {
-    RKOldUserModule *resource = (RKOldUserModule *)input;
-    RKRadar *radar = resource->radar;
-    bool all = true;
-    int k = 0;
-    do {
-        all = true;
-        for (int c = 0; c < radar->pulseEngine->coreCount; c++) {
-            all &= radar->pulseEngine->workers[c].cid >= resource->targetConfigId;
+// Release the retired waveforms and user modules that no configuration refers to anymore, or all of them
+static void RKReleaseRetired(RKRadar *radar, const bool all) {
+    uint32_t i, j, k;
+    for (i = 0, k = 0; k < radar->retiredCount; k++) {
+        RKRetiredResource *resource = &radar->retired[k];
+        bool used = false;
+        for (j = 0; j < radar->desc.configBufferDepth && !all && !used; j++) {
+            RKConfig *config = &radar->configs[j];
+            used = resource->resource == config->waveform ||
+                   resource->resource == config->waveformDecimate ||
+                   resource->resource == config->userResource;
+        }
+        if (used) {
+            radar->retired[i++] = *resource;
+            continue;
+        }
+        if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
+            RKLog("Freeing retired %s @ %p ...\n", resource->isWaveform ? "waveform" : "user module", resource->resource);
+        }
+        if (resource->isWaveform) {
+            RKWaveformFree((RKWaveform *)resource->resource);
+        } else if (radar->userModuleFree) {
+            radar->userModuleFree((RKUserModule)resource->resource);
         }
-        usleep(10000);
-    } while (radar->active && k++ < 500 && !all);
-    if (k == 500) {
-        RKLog("Forcing removal of user module %p ...\n", resource->module);
     }
-    if (radar->desc.initFlags & RKInitFlagVerbose) {
-        RKLog("Freeing user module %p ...\n", resource->module);
+    radar->retiredCount = i;
+    if (all) {
+        free(radar->retired);
+        radar->retired = NULL;
     }
-    radar->userModuleFree(resource->module);
-    return NULL;
+}
+
+// The engines may still be using a waveform or a user module that has been replaced. Keep it until it is no longer referenced
+static void RKRetire(RKRadar *radar, void *resource, const bool isWaveform) {
+    if (resource == NULL) {
+        return;
+    }
+    RKRetiredResource *retired = (RKRetiredResource *)realloc(radar->retired, (radar->retiredCount + 1) * sizeof(RKRetiredResource));
+    if (retired == NULL) {
+        RKLog("Error. Unable to retire a resource.\n");
+        return;
+    }
+    radar->retired = retired;
+    radar->retired[radar->retiredCount].resource = resource;
+    radar->retired[radar->retiredCount].isWaveform = isWaveform;
+    radar->retiredCount++;
 }
 
 void RKUpdateWaveformCalibration(RKRadar *, const uint8_t, const RKWaveformCalibration *);
@@ -356,7 +376,7 @@ static void *systemInspectorRunLoop(void *in) {
                 RKLog("Warning. %s is in critical condition (value = %s, count = %d).\n", criticalKey, criticalValue, criticalCount);
                 if (criticalCount++ >= 20) {
                     criticalCount = 0;
-                    if (pedestalEnum == RKStatusEnumActive) {
+                    if (pedestalEnum == RKStatusEnumActive && radar->masterControllerExec) {
                         RKLog("Warning. Suspending radar due to critical %s ...\n", criticalKey);
                         radar->masterControllerExec(radar->masterController, "z", NULL);
                     }
@@ -1140,6 +1160,7 @@ int RKFree(RKRadar *radar) {
         radar->userModuleFree(radar->userModule);
         radar->userModule = NULL;
     }
+    RKReleaseRetired(radar, true);
     // The file manager goes last since others may still report their files to it
     if (radar->state & RKRadarStateFileManagerInitialized) {
         RKFileManagerFree(radar->fileManager);
@@ -1157,11 +1178,11 @@ int RKFree(RKRadar *radar) {
     if (radar->healthRelay) {
         radar->healthRelayFree(radar->healthRelay);
         radar->healthRelay = NULL;
-        for (k = 0; k < RKHealthNodeCount; k++) {
-            if (radar->userDevices[k].device) {
-                radar->userDevices[k].free(radar->userDevices[k].device);
-                radar->userDevices[k].device = NULL;
-            }
+    }
+    for (k = 0; k < RKHealthNodeCount; k++) {
+        if (radar->userDevices[k].device) {
+            radar->userDevices[k].free(radar->userDevices[k].device);
+            radar->userDevices[k].device = NULL;
         }
     }
     // Internal copies of things
@@ -1465,27 +1486,18 @@ int RKSetWaveform(RKRadar *radar, RKWaveform *waveform) {
         RKLog("Error. Multiplexing = %d filters has not been implemented. Reverting to impulse filter.\n", waveform->filterCounts[0]);
         return RKSetWaveformToImpulse(radar);
     }
-    RKConfig *config = RKGetLatestConfig(radar);
     RKWaveform *oldWaveform = radar->waveform;
     RKWaveform *oldWaveformDecimate = radar->waveformDecimate;
     const double pulseWidth = (double)waveform->depth / waveform->fs;
     radar->waveform = RKWaveformCopy(waveform);
     radar->waveformDecimate = RKWaveformCopy(waveform);
     RKWaveformDecimate(radar->waveformDecimate, radar->desc.pulseToRayRatio);
-    int j, k, r;
-    RKPulseEngineResetFilters(radar->pulseEngine);
-    for (k = 0; k < waveform->count; k++) {
-        for (j = 0; j < waveform->filterCounts[k]; j++) {
-            RKComplex *filter = waveform->samples[k] + waveform->filterAnchors[k][j].origin;
-            r = RKPulseEngineSetGroupFilter(radar->pulseEngine,
-                                       filter,
-                                       waveform->filterAnchors[k][j],
-                                       k,
-                                       j);
-            if (r != RKResultSuccess) {
-                return RKResultFailedToSetWaveform;
-            }
-        }
+    RKRetire(radar, oldWaveformDecimate, true);
+    RKRetire(radar, oldWaveform, true);
+    int k;
+    // The whole bank changes at once, pulses may be in the works
+    if (RKPulseEngineSetFilterByWaveform(radar->pulseEngine, waveform) != RKResultSuccess) {
+        return RKResultFailedToSetWaveform;
     }
     // Search for the waveform calibration for this waveform
     RKWaveformCalibration *waveformCalibration = NULL;
@@ -1503,12 +1515,7 @@ int RKSetWaveform(RKRadar *radar, RKWaveform *waveform) {
         radar->pulseEngine->userModule = radar->userModule;
         radar->momentEngine->userModule = radar->userModule;
         if (old != NULL) {
-            RKOldUserModule *resource = (RKOldUserModule *)malloc(sizeof(RKOldUserModule));
-            resource->radar = radar;
-            resource->module = old;
-            resource->targetConfigId = config->i;
-            pthread_t tid;
-            pthread_create(&tid, NULL, &freeUserModuleDelayed, resource);
+            RKRetire(radar, old, false);
         }
     }
     // Send the waveform pointers to config buffer
@@ -1522,18 +1529,7 @@ int RKSetWaveform(RKRadar *radar, RKWaveform *waveform) {
     if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
         RKLog("Waveform '%s' cached.\n", waveform->name);
     }
-    if (oldWaveformDecimate != NULL) {
-        if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
-            RKLog("Freeing radar->waveformDecimate cache ...\n");
-        }
-        RKWaveformFree(oldWaveformDecimate);
-    }
-    if (oldWaveform != NULL) {
-        if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
-            RKLog("Freeing radar->waveform cache ...\n");
-        }
-        RKWaveformFree(oldWaveform);
-    }
+    RKReleaseRetired(radar, false);
     if (radar->desc.initFlags & RKInitFlagVerbose) {
         RKPulseEngineFilterSummary(radar->pulseEngine);
     }
-- 
2.43.0


From f28919682360b877fd781bf909b8ebd08c28fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:57 +0000
Subject: [PATCH 28/40] fix: the filter bank no longer changes while pulses are
 compressed with it

---
 headers/RadarKit/RKPulseEngine.h |  1 +
 source/RKPulseEngine.c           | 64 +++++++++++++++++++++++++-------
 2 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/headers/RadarKit/RKPulseEngine.h b/headers/RadarKit/RKPulseEngine.h
index bf1fabd..afc7180 100644
--- a/headers/RadarKit/RKPulseEngine.h
+++ b/headers/RadarKit/RKPulseEngine.h
@@ -67,6 +67,7 @@ struct rk_pulse_engine {
     RKPulseWorker                    *workers;
     pthread_t                        tidPulseWatcher;
     pthread_mutex_t                  mutex;
+    pthread_rwlock_t                 filterLock;                                           // Held while the filter bank is used or changed
     RKPulseStatus                    doneStatus;
 
     // Status / health
diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index 22b70d5..cd3ef83 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -145,6 +145,9 @@ static void RKEngineShowBuffer(fftwf_complex *in, const int n) {
 
 #pragma mark - Delegate Workers
 
+// The filter bank was changed after the filter and plans of a pulse had been selected
+#define RKPulseEngineFilterIdStale   -2
+
 // Number of gates from an origin on, a pulse may be too short to have any
 static inline unsigned int RKGatesFrom(const RKPulse *pulse, const uint32_t origin) {
     return pulse->header.gateCount > origin ? pulse->header.gateCount - origin : 0;
@@ -447,8 +450,12 @@ static void *pulseEngineCore(void *_in) {
         RKLog(">%s i0 = %d  stat = %d\n", coreName, i0, input->header.s);
         #endif
 
-        // Filter group id
-        const int gid = engine->filterGid[i0];
+        // The filter bank must not change while it is in use
+        pthread_rwlock_rdlock(&engine->filterLock);
+
+        // Filter group id, select again if the bank is not what it was when this pulse was inspected
+        const bool stale = engine->filterGid[i0] == RKPulseEngineFilterIdStale;
+        const int gid = stale ? (int)(pulse->header.i % engine->filterGroupCount) : engine->filterGid[i0];
         //printf("pulse i = %u   gid = %d\n", (uint32_t)pulse->header.i, gid);
         pulse->parameters.gid = gid;
 
@@ -476,7 +483,7 @@ static void *pulseEngineCore(void *_in) {
             blindGateCount = 0;
             for (j = 0; j < engine->filterCounts[gid]; j++) {
                 // Get the plan index and size from parent engine
-                planIndex = engine->planIndices[i0][j];
+                planIndex = stale ? engine->fftModule->count - 1 : engine->planIndices[i0][j];
                 blindGateCount += engine->filterAnchors[gid][j].length;
 
                 // Compression
@@ -508,6 +515,7 @@ static void *pulseEngineCore(void *_in) {
             pulse->header.gateCount -= MIN(pulse->header.gateCount, MAX(1, blindGateCount) - 1);
             pulse->header.s |= RKPulseStatusCompressed;
         }
+        pthread_rwlock_unlock(&engine->filterLock);
 
         // Down-sampling regardless if the pulse was compressed or skipped
         int stride = MAX(1, engine->radarDescription->pulseToRayRatio);
@@ -708,6 +716,7 @@ static void *pulseWatcher(void *_in) {
                 RKLog(">%s Info. Skipped a chunk.   pulseIndex = %d vs k = %d\n", engine->name, *engine->pulseIndex, k);
             }
         } else {
+            pthread_rwlock_rdlock(&engine->filterLock);
             // Compute the filter group id to use
             engine->filterGid[k] = (gid = pulse->header.i % engine->filterGroupCount);
             //printf("pulse->header.i = %d   gid = %d\n", (uint32_t)pulse->header.i, gid);
@@ -720,6 +729,7 @@ static void *pulseWatcher(void *_in) {
                 engine->planIndices[k][j] = planIndex;
                 engine->fftModule->plans[planIndex].count++;
             }
+            pthread_rwlock_unlock(&engine->filterLock);
         }
 
         // Lag of the engine and its workers
@@ -1005,6 +1015,7 @@ RKPulseEngine *RKPulseEngineInit(void) {
     engine->compressor = &RKBuiltInCompressor;
     engine->memoryUsage = sizeof(RKPulseEngine);
     pthread_mutex_init(&engine->mutex, NULL);
+    pthread_rwlock_init(&engine->filterLock, NULL);
     return engine;
 }
 
@@ -1020,6 +1031,7 @@ void RKPulseEngineFree(RKPulseEngine *engine) {
         }
     }
     pthread_mutex_destroy(&engine->mutex);
+    pthread_rwlock_destroy(&engine->filterLock);
     free(engine->filterGid);
     free(engine->planIndices);
     free(engine);
@@ -1144,13 +1156,29 @@ void RKPulseEngineSetWaitForRingFilter(RKPulseEngine *engine, const bool answer)
     }
 }
 
-int RKPulseEngineResetFilters(RKPulseEngine *engine) {
+static void RKPulseEngineResetFiltersLocked(RKPulseEngine *engine) {
     // If engine->filterGroupCount is set to 0, gid may be undefined segmentation fault
     engine->filterGroupCount = 1;
     engine->filterCounts[0] = 1;
     for (int k = 1; k < RKMaximumFilterCount; k++) {
         engine->filterCounts[k] = 0;
     }
+}
+
+// The pulses that are still waiting for a worker were inspected with the bank as it was
+static void RKPulseEngineExpireSelections(RKPulseEngine *engine) {
+    for (uint32_t k = 0; engine->filterGid != NULL && k < engine->radarDescription->pulseBufferDepth; k++) {
+        if (engine->filterGid[k] >= 0) {
+            engine->filterGid[k] = RKPulseEngineFilterIdStale;
+        }
+    }
+}
+
+int RKPulseEngineResetFilters(RKPulseEngine *engine) {
+    pthread_rwlock_wrlock(&engine->filterLock);
+    RKPulseEngineResetFiltersLocked(engine);
+    RKPulseEngineExpireSelections(engine);
+    pthread_rwlock_unlock(&engine->filterLock);
     return RKResultSuccess;
 }
 
@@ -1177,7 +1205,7 @@ int RKPulseEngineSetFilterGroupCount(RKPulseEngine *engine, const int groupCount
 //            - gain - filter gain in dB
 //     group - filter group to assign to
 //     index - index within the group to assign to
-int RKPulseEngineSetGroupFilter(RKPulseEngine *engine, const RKComplex *filter, const RKFilterAnchor anchor, const int group, const int index) {
+static int RKPulseEngineSetGroupFilterLocked(RKPulseEngine *engine, const RKComplex *filter, const RKFilterAnchor anchor, const int group, const int index) {
     if (engine->pulseBuffer == NULL) {
         RKLog("Warning. Pulse buffer has not been set.\n");
         return RKResultNoPulseBuffer;
@@ -1231,23 +1259,31 @@ int RKPulseEngineSetGroupFilter(RKPulseEngine *engine, const RKComplex *filter,
     return RKResultSuccess;
 }
 
+int RKPulseEngineSetGroupFilter(RKPulseEngine *engine, const RKComplex *filter, const RKFilterAnchor anchor, const int group, const int index) {
+    pthread_rwlock_wrlock(&engine->filterLock);
+    int r = RKPulseEngineSetGroupFilterLocked(engine, filter, anchor, group, index);
+    RKPulseEngineExpireSelections(engine);
+    pthread_rwlock_unlock(&engine->filterLock);
+    return r;
+}
+
 int RKPulseEngineSetFilter(RKPulseEngine *engine, const RKComplex *filter, const RKFilterAnchor anchor) {
     return RKPulseEngineSetGroupFilter(engine, filter, anchor, 0, 0);
 }
 
 int RKPulseEngineSetFilterByWaveform(RKPulseEngine *engine, RKWaveform *waveform) {
-    int j, k, r;
-    RKPulseEngineResetFilters(engine);
-    for (k = 0; k < waveform->count; k++) {
-        for (j = 0; j < waveform->filterCounts[k]; j++) {
+    int j, k, r = RKResultSuccess;
+    pthread_rwlock_wrlock(&engine->filterLock);
+    RKPulseEngineResetFiltersLocked(engine);
+    for (k = 0; k < waveform->count && r == RKResultSuccess; k++) {
+        for (j = 0; j < waveform->filterCounts[k] && r == RKResultSuccess; j++) {
             RKComplex *filter = waveform->samples[k] + waveform->filterAnchors[k][j].origin;
-            r = RKPulseEngineSetGroupFilter(engine, filter, waveform->filterAnchors[k][j], k, j);
-            if (r != RKResultSuccess) {
-                return RKResultFailedToSetWaveform;
-            }
+            r = RKPulseEngineSetGroupFilterLocked(engine, filter, waveform->filterAnchors[k][j], k, j);
         }
     }
-    return RKResultSuccess;
+    RKPulseEngineExpireSelections(engine);
+    pthread_rwlock_unlock(&engine->filterLock);
+    return r == RKResultSuccess ? RKResultSuccess : RKResultFailedToSetWaveform;
 }
 
 int RKPulseEngineSetFilterToImpulse(RKPulseEngine *engine) {
-- 
2.43.0


From 3a4bf018d19e71db5c9f0919e78f03aecfebced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:59 +0000
Subject: [PATCH 29/40] fix: a relay checks the size of every record, keeps
 both channels of a longer pulse apart, shows records only when they are
 complete and asks for the streams that are wanted

---
 headers/RadarKit/RKRadarRelay.h |   1 +
 source/RKFoundation.c           |  35 ++----
 source/RKRadarRelay.c           | 217 ++++++++++++++++++++++----------
 3 files changed, 164 insertions(+), 89 deletions(-)

diff --git a/headers/RadarKit/RKRadarRelay.h b/headers/RadarKit/RKRadarRelay.h
index 84b6fa8..12cc65d 100644
--- a/headers/RadarKit/RKRadarRelay.h
+++ b/headers/RadarKit/RKRadarRelay.h
@@ -45,6 +45,7 @@ typedef struct rk_radar_relay {
     char                             latestCommand[RKMaximumCommandLength];
     pthread_t                        tidBackground;
     RKStream                         streams;
+    RKStream                         streamsRequested;
 
     // For handling sweeps
     RKSweepHeader                    sweepHeaderCache;
diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index ae92e37..1acf18a 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1530,31 +1530,31 @@ RKStream RKStreamFromString(const char * string) {
     while (j++ < strlen(string)) {
         switch (*c) {
             case '0':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusPositions;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusPositions;
                 break;
             case '1':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusPulses;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusPulses;
                 break;
             case '2':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusRays;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusRays;
                 break;
             case '3':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusIngest;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusIngest;
                 break;
             case '4':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusEngines;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusEngines;
                 break;
             case '5':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusBuffers;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusBuffers;
                 break;
             case '6':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtZ;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtZ;
                 break;
             case '7':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtHealth;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtHealth;
                 break;
             case '8':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtVCP;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtVCP;
                 break;
             case 'x':
                 flag |= RKStreamStatusTerminalChange;
@@ -1671,20 +1671,9 @@ RKStream RKStreamFromString(const char * string) {
 int RKStringFromStream(char *string, RKStream stream) {
     int j = 0;
     // Exclusive part from RKStreamStatusMask
-    if (stream & RKStreamStatusPulses) {
-        j += sprintf(string + j, "1");
-    } else if (stream & RKStreamStatusRays) {
-        j += sprintf(string + j, "2");
-    } else if (stream & RKStreamStatusPositions) {
-        j += sprintf(string + j, "3");
-    } else if (stream & RKStreamStatusEngines) {
-        j += sprintf(string + j, "4");
-    } else if (stream & RKStreamStatusBuffers) {
-        j += sprintf(string + j, "5");
-    } else if (stream & RKStreamASCIIArtZ) {
-        j += sprintf(string + j, "6");
-    } else if (stream & RKStreamASCIIArtHealth) {
-        j += sprintf(string + j, "7");
+    const int k = (int)(stream & RKStreamStatusMask);
+    if (k >= RKStreamStatusPositions && k <= RKStreamASCIIArtVCP) {
+        j += sprintf(string + j, "%d", k - (int)RKStreamStatusPositions);
     }
     if (stream & RKStreamStatusProcessorStatus) { j += sprintf(string + j, "!"); }
     if (stream & RKStreamHealthInJSON)          { j += sprintf(string + j, "h"); }
diff --git a/source/RKRadarRelay.c b/source/RKRadarRelay.c
index 9bea8e7..d602ff1 100644
--- a/source/RKRadarRelay.c
+++ b/source/RKRadarRelay.c
@@ -35,25 +35,84 @@ static int RKRadarRelayGreet(RKClient *client) {
         size += sprintf(command + size, RKEOL);
         RKNetworkSendPackets(engine->client->sd, command, size, NULL);
     }
+    engine->streamsRequested = engine->streams;
 
     pthread_mutex_unlock(&engine->client->lock);
 
     return RKResultSuccess;
 }
 
+// Ask for the streams again if they were changed while the connection was being established
+static void RKRadarRelayRequestStreams(RKRadarRelay *engine) {
+    char command[RKMaximumCommandLength];
+    RKClient *client = engine->client;
+    pthread_mutex_lock(&client->lock);
+    if (client->sd >= 0 && engine->streamsRequested != engine->streams) {
+        uint32_t size = sprintf(command, "s");
+        size += RKStringFromStream(command + size, engine->streams);
+        size += sprintf(command + size, RKEOL);
+        if (RKNetworkSendPackets(client->sd, command, size, NULL) >= 0) {
+            engine->streamsRequested = engine->streams;
+        }
+    }
+    pthread_mutex_unlock(&client->lock);
+}
+
+// Wait up to 3 seconds for a response that is later than responseIndex
+static void RKRadarRelayWaitForResponse(RKRadarRelay *engine, const uint32_t responseIndex) {
+    int s = 0;
+    while (responseIndex == engine->responseIndex && engine->state & RKEngineStateWantActive) {
+        usleep(10000);
+        if (++s % 100 == 0) {
+            RKLog("%s Waited %.2f s for response.\n", engine->name, (float)s * 0.01f);
+        }
+        if ((float)s * 0.01f >= 3.0f) {
+            RKLog("%s should time out.\n", engine->name);
+            break;
+        }
+    }
+}
+
+// The smallest payload a record must have before it may be used
+static size_t RKRadarRelayRequiredSize(RKClient *client) {
+    const size_t size = client->netDelimiter.size;
+    const RKPulseHeader *pulseHeader = (RKPulseHeader *)client->userPayload;
+    const RKRayHeader *rayHeader = (RKRayHeader *)client->userPayload;
+    switch (client->netDelimiter.type) {
+        case RKNetworkPacketTypeProcessorStatus:
+            return sizeof(RKStatus);
+        case RKNetworkPacketTypePulseData:
+            if (size < sizeof(RKPulseHeader)) {
+                return sizeof(RKPulseHeader);
+            }
+            return sizeof(RKPulseHeader) + 2 * (size_t)pulseHeader->gateCount * sizeof(RKInt16C);
+        case RKNetworkPacketTypeRayDisplay:
+            if (size < sizeof(RKRayHeader)) {
+                return sizeof(RKRayHeader);
+            }
+            return sizeof(RKRayHeader)
+                   + (size_t)__builtin_popcount(rayHeader->baseProductList & RKBaseProductListUInt8All) * rayHeader->gateCount * sizeof(uint8_t)
+                   + (size_t)__builtin_popcount(rayHeader->baseProductList & RKBaseProductListFloatAll) * rayHeader->gateCount * sizeof(float);
+        case RKNetworkPacketTypeSweepHeader:
+            return sizeof(RKSweepHeader);
+        default:
+            return 0;
+    }
+}
+
 static int RKRadarRelayRead(RKClient *client) {
     // The shared user resource pointer
     RKRadarRelay *engine = (RKRadarRelay *)client->userResource;
 
-    int j, k;
+    int j;
+    uint32_t k;
+    char *data;
+    RKConfig *config;
     RKHealth *health;
     RKStatus *status;
     RKRay *ray = (RKRay *)engine->rayBuffer;
     RKPulse *pulse = (RKPulse *)engine->pulseBuffer;
 
-    uint8_t *u8Data = NULL;
-    uint32_t productList;
-    uint32_t productCount;
     uint32_t rxGateCount = 0;
 
     const uint32_t localRayCapacity = ray->header.capacity;
@@ -64,6 +123,14 @@ static int RKRadarRelayRead(RKClient *client) {
     RKPulseStatus pulseStatus = RKPulseStatusVacant;
     uint32_t pulseSize = 0;
 
+    RKRadarRelayRequestStreams(engine);
+
+    if (client->netDelimiter.size < RKRadarRelayRequiredSize(client)) {
+        RKLog("%s Warning. Incomplete record of type %d   size = %s B\n", engine->name,
+              client->netDelimiter.type, RKIntegerToCommaStyleString(client->netDelimiter.size));
+        return RKResultSuccess;
+    }
+
     switch (client->netDelimiter.type) {
         case RKNetworkPacketTypeBeacon:
             // Ignore beacon
@@ -78,10 +145,12 @@ static int RKRadarRelayRead(RKClient *client) {
             status = &engine->statusBuffer[k];
             ((RKStatus *)(client->userPayload))->flag = status->flag;
             memcpy(status, client->userPayload, sizeof(RKStatus));
+            __sync_synchronize();
             status->flag = RKStatusFlagReady;
             k = RKNextModuloS(k, engine->radarDescription->statusBufferDepth);
             status = &engine->statusBuffer[k];
             status->flag = RKStatusFlagVacant;
+            __sync_synchronize();
             *engine->statusIndex = k;
             if (engine->verbose > 1) {
                 RKLog("%s RKNetworkPacketTypeProcessorStatus: %d\n", engine->name, k);
@@ -93,11 +162,13 @@ static int RKRadarRelayRead(RKClient *client) {
             k = *engine->healthIndex;
             health = &engine->healthBuffer[k];
             strncpy(health->string, client->userPayload, RKMaximumStringLength - 1);
+            __sync_synchronize();
             health->flag = RKHealthFlagReady;
             k = RKNextModuloS(k, engine->radarDescription->healthBufferDepth);
             health = &engine->healthBuffer[k];
-            health->string[0] = '\0';
             health->flag = RKHealthFlagVacant;
+            health->string[0] = '\0';
+            __sync_synchronize();
             *engine->healthIndex = k;
             if (engine->verbose > 1) {
                 RKLog("%s RKNetworkPacketTypeHealth: %d\n", engine->name, k);
@@ -111,7 +182,7 @@ static int RKRadarRelayRead(RKClient *client) {
             // Override the status of the payload
             pulse = (RKPulse *)client->userPayload;
             pulseStatus = pulse->header.s;
-            //rxGateCount = pulse->header.capacity;
+            rxGateCount = pulse->header.gateCount;
 
             //printf("%s Pulse packet -> %d (remote/local capacity %d / %d).\n", engine->name, *engine->pulseIndex, pulse->header.capacity, localPulseCapacity);
 
@@ -120,6 +191,9 @@ static int RKRadarRelayRead(RKClient *client) {
             if (pulse->header.gateCount > pulse->header.capacity) {
                 pulse->header.gateCount = pulse->header.capacity;
             }
+            if (pulse->header.downSampledGateCount > pulse->header.capacity) {
+                pulse->header.downSampledGateCount = pulse->header.capacity;
+            }
             // Change the in-transit header status to vacant, will restore after all data are in place
             pulse->header.s = RKPulseStatusVacant;
 
@@ -132,15 +206,20 @@ static int RKRadarRelayRead(RKClient *client) {
             c16DataH = RKGetInt16CDataFromPulse(pulse, 0);
             c16DataV = RKGetInt16CDataFromPulse(pulse, 1);
 
+            // The channels are separated by the number of gates that was sent, which can be more than what is kept here
             memcpy(c16DataH, client->userPayload + sizeof(RKPulseHeader), pulseSize);
-            memcpy(c16DataV, client->userPayload + sizeof(RKPulseHeader) + pulseSize, pulseSize);
+            memcpy(c16DataV, client->userPayload + sizeof(RKPulseHeader) + rxGateCount * sizeof(RKInt16C), pulseSize);
 
             // Restore the pulse status
+            __sync_synchronize();
             pulse->header.s = pulseStatus;
 
-            *engine->pulseIndex = RKNextModuloS(*engine->pulseIndex, engine->radarDescription->pulseBufferDepth);
-            pulse = RKGetPulseFromBuffer(engine->pulseBuffer, *engine->pulseIndex);
+            // The next slot must be vacant by the time the index arrives there
+            k = RKNextModuloS(*engine->pulseIndex, engine->radarDescription->pulseBufferDepth);
+            pulse = RKGetPulseFromBuffer(engine->pulseBuffer, k);
             pulse->header.s = RKPulseStatusVacant;
+            __sync_synchronize();
+            *engine->pulseIndex = k;
             break;
 
         case RKNetworkPacketTypeRayDisplay:
@@ -160,49 +239,28 @@ static int RKRadarRelayRead(RKClient *client) {
             ray = RKGetRayFromBuffer(engine->rayBuffer, *engine->rayIndex);
             memcpy(&ray->header, client->userPayload, sizeof(RKRayHeader));
 
-            productList = ray->header.baseProductList;
-            productCount = __builtin_popcount(productList);
-            for (j = 0; j < productCount; j++) {
-                if (productList & RKBaseProductListUInt8Z) {
-                    productList ^= RKBaseProductListUInt8Z;
-                    u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexZ);
-                } else if (productList & RKBaseProductListUInt8V) {
-                    productList ^= RKBaseProductListUInt8V;
-                    u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexV);
-                } else if (productList & RKBaseProductListUInt8W) {
-                    productList ^= RKBaseProductListUInt8W;
-                    u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexW);
-                } else if (productList & RKBaseProductListUInt8D) {
-                    productList ^= RKBaseProductListUInt8D;
-                    u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexD);
-                } else if (productList & RKBaseProductListUInt8P) {
-                    productList ^= RKBaseProductListUInt8P;
-                    u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexP);
-                } else if (productList & RKBaseProductListUInt8R) {
-                    productList ^= RKBaseProductListUInt8R;
-                    u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexR);
-                } else if (productList & RKBaseProductListUInt8K) {
-                    productList ^= RKBaseProductListUInt8K;
-                    u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexK);
-                } else if (productList & RKBaseProductListUInt8Sh) {
-                    productList ^= RKBaseProductListUInt8Sh;
-                    u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexSh);
-                } else if (productList & RKBaseProductListUInt8Sv) {
-                    productList ^= RKBaseProductListUInt8Sv;
-                    u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexSv);
-                } else {
-                    u8Data = NULL;
+            // Products in uint8_t come first, then the products in float
+            data = (char *)client->userPayload + sizeof(RKRayHeader);
+            for (j = 0; j < 16; j++) {
+                if (ray->header.baseProductList & (RKBaseProductListUInt8Z << j)) {
+                    memcpy(RKGetUInt8DataFromRay(ray, j), data, ray->header.gateCount * sizeof(uint8_t));
+                    data += rxGateCount * sizeof(uint8_t);
                 }
-
-                if (u8Data) {
-                    memcpy(u8Data, client->userPayload + sizeof(RKRayHeader) + j * rxGateCount * sizeof(uint8_t), ray->header.gateCount * sizeof(uint8_t));
+            }
+            for (j = 0; j < 16; j++) {
+                if (ray->header.baseProductList & ((uint32_t)RKBaseProductListFloatZ << j)) {
+                    memcpy(RKGetFloatDataFromRay(ray, j), data, ray->header.gateCount * sizeof(float));
+                    data += rxGateCount * sizeof(float);
                 }
             }
+            __sync_synchronize();
             ray->header.s = RKRayStatusProcessed | RKRayStatusReady;
 
-            *engine->rayIndex = RKNextModuloS(*engine->rayIndex, engine->radarDescription->rayBufferDepth);
-            ray = RKGetRayFromBuffer(engine->rayBuffer, *engine->rayIndex);
+            k = RKNextModuloS(*engine->rayIndex, engine->radarDescription->rayBufferDepth);
+            ray = RKGetRayFromBuffer(engine->rayBuffer, k);
             ray->header.s = RKRayStatusVacant;
+            __sync_synchronize();
+            *engine->rayIndex = k;
             break;
 
         case RKNetworkPacketTypePlainText:
@@ -218,7 +276,15 @@ static int RKRadarRelayRead(RKClient *client) {
         case RKNetworkPacketTypeSweepHeader:
             gettimeofday(&engine->sweepTic, NULL);
             memcpy(&engine->sweepHeaderCache, client->userPayload, sizeof(RKSweepHeader));
-            memcpy(&engine->configBuffer[*engine->configIndex], &engine->sweepHeaderCache.config, sizeof(RKConfig));
+            // References of the remote radar have no meaning here
+            config = &engine->sweepHeaderCache.config;
+            config->waveform = NULL;
+            config->waveformDecimate = NULL;
+            config->userResource = NULL;
+            config->waveformName[RKNameLength - 1] = '\0';
+            config->vcpDefinition[RKMaximumCommandLength - 1] = '\0';
+            memcpy(&engine->configBuffer[*engine->configIndex], config, sizeof(RKConfig));
+            __sync_synchronize();
             *engine->configIndex = RKNextModuloS(*engine->configIndex, engine->radarDescription->configBufferDepth);
             engine->sweepRayIndex = 0;
             break;
@@ -272,25 +338,30 @@ static void *radarRelay(void *in) {
     desc.timeoutSeconds = RKNetworkTimeoutSeconds;
     desc.verbose = 1;
 
+    // The client of an earlier start
+    if (engine->client) {
+        RKClientFree(engine->client);
+        engine->memoryUsage -= sizeof(RKClient) + RKMaximumPacketSize;
+    }
     engine->client = RKClientInitWithDesc(desc);
     engine->memoryUsage += sizeof(RKClient) + RKMaximumPacketSize;
 
-    // Update the engine state
-    engine->state |= RKEngineStateWantActive;
-    engine->state ^= RKEngineStateActivating;
-
     RKClientSetUserResource(engine->client, engine);
     RKClientSetGreetHandler(engine->client, RKRadarRelayGreet);
     RKClientSetReceiveHandler(engine->client, &RKRadarRelayRead);
 
+    // Update the engine state
+    engine->state |= RKEngineStateWantActive;
+    engine->state ^= RKEngineStateActivating;
     engine->state |= RKEngineStateActive;
 
     RKLog("%s Started.   mem = %s B   host = %s\n", engine->name, RKUIntegerToCommaStyleString(engine->memoryUsage), engine->host);
 
-    RKClientStart(engine->client, true);
+    // The remote radar may not be reachable yet so there is no wait for the connection
+    RKClientStart(engine->client, false);
 
     // Increase the tic once to indicate the engine is ready
-    engine->tic = 1;
+    engine->tic++;
 
     while (engine->state & RKEngineStateWantActive) {
         usleep(100000);
@@ -323,6 +394,12 @@ RKRadarRelay *RKRadarRelayInit(void) {
 }
 
 void RKRadarRelayFree(RKRadarRelay *engine) {
+    if (engine->state & RKEngineStateWantActive) {
+        RKRadarRelayStop(engine);
+    }
+    if (engine->client) {
+        RKClientFree(engine->client);
+    }
     free(engine);
 }
 
@@ -371,6 +448,7 @@ int RKRadarRelayStart(RKRadarRelay *engine) {
     engine->state |= RKEngineStateActivating;
     if (pthread_create(&engine->tidBackground, NULL, radarRelay, engine)) {
         RKLog("%s Error. Unable to start radar relay.\n", engine->name);
+        engine->state ^= RKEngineStateActivating;
         return RKResultFailedToStartHealthWorker;
     }
     while (engine->tic == 0) {
@@ -386,6 +464,10 @@ int RKRadarRelayStop(RKRadarRelay *engine) {
         }
         return RKResultEngineDeactivatedMultipleTimes;
     }
+    if (!(engine->state & RKEngineStateWantActive)) {
+        RKLog("%s Not active.\n", engine->name);
+        return RKResultEngineDeactivatedMultipleTimes;
+    }
     if (engine->verbose) {
         RKLog("%s Stopping ...\n", engine->name);
     }
@@ -420,20 +502,21 @@ int RKRadarRelayExec(RKRadarRelay *engine, const char *command, char *response)
             }
             return RKResultIncompleteReceive;
         }
-        int s = 0;
         uint32_t responseIndex = engine->responseIndex;
+        ssize_t sentSize = -1;
+        pthread_mutex_lock(&client->lock);
         uint32_t size = snprintf(engine->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
-        RKNetworkSendPackets(client->sd, engine->latestCommand, size, NULL);
-        while (responseIndex == engine->responseIndex) {
-            usleep(10000);
-            if (++s % 100 == 0) {
-                RKLog("%s Waited %.2f s for response.\n", client->name, (float)s * 0.01f);
-            }
-            if ((float)s * 0.01f >= 3.0f) {
-                RKLog("%s should time out.\n", client->name);
-                break;
+        if (client->sd >= 0 && size < RKMaximumCommandLength) {
+            sentSize = RKNetworkSendPackets(client->sd, engine->latestCommand, size, NULL);
+        }
+        pthread_mutex_unlock(&client->lock);
+        if (sentSize < 0) {
+            if (response != NULL) {
+                sprintf(response, "NAK. Unable to send to the remote radar." RKEOL);
             }
+            return RKResultIncompleteSend;
         }
+        RKRadarRelayWaitForResponse(engine, responseIndex);
         if (responseIndex == engine->responseIndex) {
             if (response != NULL) {
                 sprintf(response, "NAK. Timeout." RKEOL);
@@ -448,11 +531,13 @@ int RKRadarRelayExec(RKRadarRelay *engine, const char *command, char *response)
 }
 
 int RKRadarRelayUpdateStreams(RKRadarRelay *engine, RKStream newStream) {
-    char command[RKMaximumStringLength];
     if (engine->streams != newStream) {
         engine->streams = newStream;
-        sprintf(command, "s%s", RKStringOfStream(newStream));
-        RKRadarRelayExec(engine, command, NULL);
+        if (engine->state & RKEngineStateWantActive && engine->client->state == RKClientStateConnected) {
+            const uint32_t responseIndex = engine->responseIndex;
+            RKRadarRelayRequestStreams(engine);
+            RKRadarRelayWaitForResponse(engine, responseIndex);
+        }
     }
     return RKResultSuccess;
 }
-- 
2.43.0


From 04a7f61fd0e62a7bd53f527f4457e0bd3e86e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:48 +0000
Subject: [PATCH 30/40] fix: scan commands take effect as a whole or not at
 all, sweeps keep their fixed angle

- the scan lists and the progress are shared by the pedestal and the commands: locked
- a command is understood entirely before the lists change; malformed ones used to clear
  the running scan, crash or be accepted with a speed of zero
- a sweep after a PPI or a sector began in the middle of its own, 'next' kept the progress
  of the previous sweep, a scan resumed right after a stop never began
- the instruction that stops the fixed axis was overwritten by the one that starts the sweep
- a stop, or the end of a scan, stops the pedestal even when it has yet to accelerate
- an RHI always moves from its start to its end
- long summaries overran the response
---
 headers/RadarKit/RKSteerEngine.h |   3 +-
 source/RKSteerEngine.c           | 549 ++++++++++++++++++-------------
 2 files changed, 316 insertions(+), 236 deletions(-)

diff --git a/headers/RadarKit/RKSteerEngine.h b/headers/RadarKit/RKSteerEngine.h
index fa31b0a..8acb89d 100644
--- a/headers/RadarKit/RKSteerEngine.h
+++ b/headers/RadarKit/RKSteerEngine.h
@@ -147,8 +147,9 @@ struct rk_position_steer_engine {
     int                    actionIndex;
     char                   scanString[RKMaximumStringLength];
     char                   response[RKMaximumStringLength];
-    char                   dump[RKMaximumStringLength];
+    char                   dump[2 * RKMaximumStringLength];
     pthread_t              threadId;
+    pthread_mutex_t        mutex;                                              // The scan object is shared with the pedestal
 
     // Status / health
     size_t                 memoryUsage;
diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index f6b2cc9..52a9337 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -86,43 +86,59 @@ float RKSteerEngineGetRate(const float delta, RKPedestalAxis axis) {
     return delta < 0.0f ? -rate : rate;
 }
 
+// The scan lists and the progress are used by the pedestal, one position at a time, and by anyone with a command
 void RKSteerEngineStopSweeps(RKSteerEngine *engine) {
+    pthread_mutex_lock(&engine->mutex);
     engine->vcpHandle.progress = RKScanProgressStopPedestal;
     engine->vcpHandle.active = false;
+    pthread_mutex_unlock(&engine->mutex);
 }
 
 void RKSteerEngineStartSweeps(RKSteerEngine *engine) {
+    pthread_mutex_lock(&engine->mutex);
     engine->vcpHandle.active = true;
+    pthread_mutex_unlock(&engine->mutex);
 }
 
 void RKSteerEngineClearSweeps(RKSteerEngine *engine) {
+    pthread_mutex_lock(&engine->mutex);
     engine->vcpHandle.progress = RKScanProgressNone;
     engine->vcpHandle.inTheHoleCount = 0;
     engine->vcpHandle.onDeckCount = 0;
     engine->vcpHandle.sweepCount = 0;
     engine->vcpHandle.i = 0;
+    pthread_mutex_unlock(&engine->mutex);
 }
 
 void RKSteerEngineClearHole(RKSteerEngine *engine) {
+    pthread_mutex_lock(&engine->mutex);
     engine->vcpHandle.inTheHoleCount = 0;
     engine->vcpHandle.onDeckCount = 0;
+    pthread_mutex_unlock(&engine->mutex);
 }
 
 void RKSteerEngineClearDeck(RKSteerEngine *engine) {
+    pthread_mutex_lock(&engine->mutex);
     engine->vcpHandle.onDeckCount = 0;
+    pthread_mutex_unlock(&engine->mutex);
 }
 
 void RKSteerEngineNextHitter(RKSteerEngine *engine) {
     RKScanObject *V = &engine->vcpHandle;
+    pthread_mutex_lock(&engine->mutex);
     memcpy(V->batterScans, V->onDeckScans, V->onDeckCount * sizeof(RKScanPath));
     memcpy(V->onDeckScans, V->inTheHoleScans, V->inTheHoleCount * sizeof(RKScanPath));
     V->sweepCount = V->onDeckCount;
     V->onDeckCount = V->inTheHoleCount;
     V->i = 0;
+    // A new list always begins with the setup of its first sweep, or there is nothing left to do
+    V->progress = V->sweepCount ? RKScanProgressNone : RKScanProgressStopPedestal;
     V->active = true;
+    pthread_mutex_unlock(&engine->mutex);
 }
 
 void RKSteerEngineArmSweeps(RKSteerEngine *engine, const RKScanRepeat repeat) {
+    pthread_mutex_lock(&engine->mutex);
     engine->vcpHandle.progress = RKScanProgressNone;
     if (repeat == RKScanRepeatForever) {
         RKSteerEngineSetScanRepeat(engine, true);
@@ -131,29 +147,36 @@ void RKSteerEngineArmSweeps(RKSteerEngine *engine, const RKScanRepeat repeat) {
     }
     engine->vcpHandle.i = 0;
     engine->vcpHandle.active = true;
+    pthread_mutex_unlock(&engine->mutex);
 }
 
 int RKSteerEngineAddLineupSweep(RKSteerEngine *engine, const RKScanPath scan) {
+    int result = RKResultSuccess;
     RKScanObject *V = &engine->vcpHandle;
-    if (V->inTheHoleCount < RKMaximumScanCount) {
+    pthread_mutex_lock(&engine->mutex);
+    if (V->inTheHoleCount < RKMaximumScanCount && V->onDeckCount < RKMaximumScanCount) {
         V->inTheHoleScans[V->inTheHoleCount++] = scan;
         V->onDeckScans[V->onDeckCount++] = scan;
     } else {
         RKLog("%s Error. Cannot add more scans.  V->inTheHoleCount = %d\n", engine->name, V->inTheHoleCount);
-        return RKResultTooBig;
+        result = RKResultTooBig;
     }
-    return RKResultSuccess;
+    pthread_mutex_unlock(&engine->mutex);
+    return result;
 }
 
 int RKSteerEngineAddPinchSweep(RKSteerEngine *engine, const RKScanPath scan) {
+    int result = RKResultSuccess;
     RKScanObject *V = &engine->vcpHandle;
+    pthread_mutex_lock(&engine->mutex);
     if (V->onDeckCount < RKMaximumScanCount) {
         V->onDeckScans[V->onDeckCount++] = scan;
     } else {
-        RKLog("%s Error. Cannot add more scans.  V->onDeckScans = %d\n", engine->name, V->onDeckScans);
-        return RKResultTooBig;
+        RKLog("%s Error. Cannot add more scans.  V->onDeckCount = %d\n", engine->name, V->onDeckCount);
+        result = RKResultTooBig;
     }
-    return RKResultSuccess;
+    pthread_mutex_unlock(&engine->mutex);
+    return result;
 }
 
 RKScanPath RKSteerEngineMakeScanPath(RKScanMode mode,
@@ -172,114 +195,190 @@ RKScanPath RKSteerEngineMakeScanPath(RKScanMode mode,
     return sweep;
 }
 
-int RKSteerEngineAddPPISet(RKSteerEngine *engine, const char *string, const bool once, char *response) {
-    char args[4][256] = {"", "", "", ""};
-    const int n = sscanf(string, "%*s %255s %255s %255s %255s", args[0], args[1], args[2], args[3]);
-
-    float azimuthStart, azimuthEnd, elevationStart, elevationEnd, rate;
+// The sweeps of a command, collected and verified before any of the lists is touched
+typedef struct rk_scan_list {
+    RKScanPath  scans[RKMaximumScanCount];
+    int         count;
+} RKScanList;
 
-    if (response == NULL) {
-        response = engine->response;
+static bool addScan(RKScanList *list, const RKScanPath scan) {
+    if (list->count >= RKMaximumScanCount) {
+        return false;
     }
+    list->scans[list->count++] = scan;
+    return true;
+}
 
-    if (n < 2) {
-        sprintf(response, "NAK. Ill-defined PPI array.   n = %d" RKEOL, n);
-        return RKResultIncompleteScanDescription;
+// Numbers separated by commas. Returns the count or -1 if there is anything else or more than the maximum
+static int parseNumbers(const char *string, float *values, const int maximum) {
+    int k = 0;
+    char *end;
+    const char *s = string;
+    while (*s != '\0') {
+        if (*s == ',') {
+            s++;
+            continue;
+        }
+        const float value = strtof(s, &end);
+        if (end == s || (*end != ',' && *end != '\0') || !isfinite(value) || k == maximum) {
+            return -1;
+        }
+        values[k++] = value;
+        s = end;
     }
+    return k;
+}
 
-    char *elevations = args[0];
-    char *azimuth = args[1];
+static bool parseRate(const char *string, float *rate) {
+    return parseNumbers(string, rate, 1) == 1 && *rate != 0.0f;
+}
 
-    if (n > 1) {
-        azimuthStart = atof(azimuth);
-    } else {
-        azimuthStart = 0.0f;
-    }
-    azimuthEnd = azimuthStart;
-    if (n > 2) {
-        rate = atof(args[2]);
-    } else {
-        rate = RKDefaultScanSpeed;
-    }
+// RHI always moves from its start to its end
+static RKScanPath makeRHI(const float elevationStart, const float elevationEnd, const float azimuth, const float rate) {
+    const float slew = elevationEnd < elevationStart ? -fabsf(rate) : fabsf(rate);
+    return RKSteerEngineMakeScanPath(RKScanModeRHI, elevationStart, elevationEnd, azimuth, 0, slew);
+}
 
-    int k = 0;
-    char *token = strtok(elevations, ",");
-    while (token != NULL && k++ < 100) {
-        const int m = sscanf(token, "%f", &elevationStart);
-        if (m == 0) {
-            sprintf(response, "NAK. Ill-defined PPI component.   m = %d" RKEOL, m);
-            return RKResultIncompleteScanDescription;
-        }
-        elevationEnd = elevationStart;
+static int RKSteerEngineParsePPISet(RKScanList *list, const char *string, char *response) {
+    char args[4][256] = {"", "", "", ""};
+    const int n = sscanf(string, "%*s %255s %255s %255s %255s", args[0], args[1], args[2], args[3]);
 
-        RKScanPath scan = RKSteerEngineMakeScanPath(RKScanModePPI, elevationStart, elevationEnd, azimuthStart, azimuthEnd, rate);
+    float elevations[100];
+    float azimuth = 0.0f;
+    float rate = RKDefaultScanSpeed;
 
-        if (once) {
-            RKSteerEngineAddPinchSweep(engine, scan);
-        } else{
-            RKSteerEngineAddLineupSweep(engine, scan);
+    if (n < 1 || n > 3) {
+        sprintf(response, "NAK. Ill-defined PPI array.   n = %d" RKEOL, n);
+        return RKResultIncompleteScanDescription;
+    }
+    const int m = parseNumbers(args[0], elevations, 100);
+    if (m < 1 || (n > 1 && parseNumbers(args[1], &azimuth, 1) != 1) || (n > 2 && !parseRate(args[2], &rate))) {
+        sprintf(response, "NAK. Ill-defined PPI component.   m = %d" RKEOL, m);
+        return RKResultIncompleteScanDescription;
+    }
+    for (int k = 0; k < m; k++) {
+        if (!addScan(list, RKSteerEngineMakeScanPath(RKScanModePPI, elevations[k], elevations[k], azimuth, azimuth, rate))) {
+            sprintf(response, "NAK. Too many sweeps." RKEOL);
+            return RKResultTooBig;
         }
-        token = strtok(NULL, ",");
     }
-
     return RKResultSuccess;
 }
 
-int RKSteerEngineAddRHISet(RKSteerEngine *engine, const char *string, const bool once, char *response) {
+static int RKSteerEngineParseRHISet(RKScanList *list, const char *string, char *response) {
     char args[4][256] = {"", "", "", ""};
     const int n = sscanf(string, "%*s %255s %255s %255s %255s", args[0], args[1], args[2], args[3]);
 
-    float azimuthStart, elevationStart, elevationEnd, rate;
+    float elevations[2];
+    float azimuths[180];
+    float rate = RKDefaultScanSpeed;
 
-    if (response == NULL) {
-        response = engine->response;
-    }
-
-    if (n < 2) {
+    if (n < 2 || n > 3) {
         sprintf(response, "NAK. Ill-defined RHI array.   n = %d" RKEOL, n);
         return RKResultIncompleteScanDescription;
     }
+    const int m = parseNumbers(args[0], elevations, 2);
+    const int o = parseNumbers(args[1], azimuths, 180);
+    if (m < 2 || elevations[0] == elevations[1] || o < 1 || (n > 2 && !parseRate(args[2], &rate))) {
+        sprintf(response, "NAK. Ill-defined RHI component.   m = %d   o = %d" RKEOL, m, o);
+        return RKResultIncompleteScanDescription;
+    }
+    for (int k = 0; k < o; k++) {
+        // Every other sweep goes the opposite way
+        if (!addScan(list, makeRHI(elevations[k % 2], elevations[1 - k % 2], azimuths[k], rate))) {
+            sprintf(response, "NAK. Too many sweeps." RKEOL);
+            return RKResultTooBig;
+        }
+    }
+    return RKResultSuccess;
+}
 
-    char *elevations = args[0];
-    char *azimuths = args[1];
+static int RKSteerEngineParseVolume(RKScanList *list, const char *string, char *response) {
+    char args[4][256];
+    char symbol[4];
+    char component[RKMaximumCommandLength];
+    float elevations[2];
+    float azimuths[2];
+    float rate;
+    int result;
 
-    if (n > 2) {
-        rate = atof(args[2]);
-    } else {
-        rate = RKDefaultScanSpeed;
-    }
+    // The specifier comes after the first word
+    const char *s = string + strspn(string, " ");
+    s += strcspn(s, " ");
+    s += strspn(s, " ");
 
-    int m = sscanf(elevations, "%f,%f", &elevationStart, &elevationEnd);
-    if (m < 2) {
-        sprintf(response, "NAK. Ill-defined RHI component.   m = %d" RKEOL, m);
-        return RKResultIncompleteScanDescription;
+    if (*s == '\0') {
+        sprintf(response, "NAK. Empty volume." RKEOL);
+        return RKResultFailedToSetVCP;
     }
 
-    bool flip = false;
+    while (*s != '\0') {
+        const size_t w = strcspn(s, "/");
+        if (w == 0) {
+            s++;
+            continue;
+        }
+        if (w >= sizeof(component)) {
+            sprintf(response, "NAK. Volume component too long." RKEOL);
+            return RKResultFailedToSetVCP;
+        }
+        memcpy(component, s, w);
+        component[w] = '\0';
+        s += w;
 
-    int k = 0;
-    char *token = strtok(azimuths, ",");
-    while (token != NULL && k++ < 180) {
-        const int o = sscanf(token, "%f", &azimuthStart);
-        if (o == 0) {
-            sprintf(response, "NAK. Ill-defined RHI component.   o = %d" RKEOL, m);
-            return RKResultIncompleteScanDescription;
-            break;
+        const int n = sscanf(component, "%3s %255s %255s %255s %255s", symbol, args[0], args[1], args[2], args[3]);
+        if (n < 2) {
+            sprintf(response, "NAK. Ill-defined volume component.   n = %d" RKEOL, n);
+            return RKResultFailedToSetVCP;
+        }
+        if (!strcmp("pp", symbol)) {
+            if ((result = RKSteerEngineParsePPISet(list, component, response)) != RKResultSuccess) {
+                return result;
+            }
+            continue;
+        } else if (!strcmp("rr", symbol)) {
+            if ((result = RKSteerEngineParseRHISet(list, component, response)) != RKResultSuccess) {
+                return result;
+            }
+            continue;
         }
 
-        RKScanPath scan = flip ?
-            RKSteerEngineMakeScanPath(RKScanModeRHI, elevationEnd, elevationStart, azimuthStart, 0, -rate) :
-            RKSteerEngineMakeScanPath(RKScanModeRHI, elevationStart, elevationEnd, azimuthStart, 0, rate);
+        rate = RKDefaultScanSpeed;
+        const int o = parseNumbers(args[0], elevations, 2);
+        const int p = n > 2 ? parseNumbers(args[1], azimuths, 2) : 0;
+        if (o < 1 || p < 1 || n > 4 || (n > 3 && !parseRate(args[2], &rate))) {
+            sprintf(response, "NAK. Ill-defined volume component.   o = %d   p = %d" RKEOL, o, p);
+            return RKResultFailedToSetVCP;
+        }
+        if (o == 1) {
+            elevations[1] = elevations[0];
+        }
+        if (p == 1) {
+            azimuths[1] = azimuths[0];
+        }
 
-        if (once) {
-            RKSteerEngineAddPinchSweep(engine, scan);
-        } else{
-            RKSteerEngineAddLineupSweep(engine, scan);
+        RKScanPath scan;
+        if (!strcmp("p", symbol)) {
+            scan = RKSteerEngineMakeScanPath(RKScanModePPI, elevations[0], elevations[1], azimuths[0], azimuths[1], rate);
+        } else if (!strcmp("r", symbol) && elevations[0] != elevations[1]) {
+            scan = makeRHI(elevations[0], elevations[1], azimuths[0], rate);
+        } else if (!strcmp("s", symbol)) {
+            scan = RKSteerEngineMakeScanPath(RKScanModeSector, elevations[0], elevations[1], azimuths[0], azimuths[1], rate);
+        } else if (!strcmp("b", symbol)) {
+            scan = RKSteerEngineMakeScanPath(RKScanModeSpeedDown, elevations[0], elevations[1], azimuths[0], azimuths[1], rate);
+        } else {
+            sprintf(response, "NAK. Volume component '%s' not understood." RKEOL, symbol);
+            return RKResultFailedToSetVCP;
+        }
+        if (!addScan(list, scan)) {
+            sprintf(response, "NAK. Too many sweeps." RKEOL);
+            return RKResultTooBig;
         }
-        token = strtok(NULL, ",");
-        flip = !flip;
     }
-
+    if (list->count == 0) {
+        sprintf(response, "NAK. Empty volume." RKEOL);
+        return RKResultFailedToSetVCP;
+    }
     return RKResultSuccess;
 }
 
@@ -298,7 +397,6 @@ static void *steerer(void *_in) {
     struct timeval period = {.tv_sec = 2, .tv_usec = 0};
 
     // Update the engine state
-    engine->state |= RKEngineStateWantActive;
     engine->state ^= RKEngineStateActivating;
 
     RKLog("%s Started.   mem = %s B   positionIndex = %d\n", engine->name, RKUIntegerToCommaStyleString(engine->memoryUsage), *engine->positionIndex);
@@ -345,7 +443,8 @@ static void *steerer(void *_in) {
             old = &engine->positionBuffer[j];
             theta = new->timeDouble - old->timeDouble;
             rate = (float)(engine->radarDescription->positionBufferDepth / 8) / theta;
-            s = (int)ceilf(RKPedestalActionPeriod * rate);
+            // The slots may not be filled yet, or the readings may have arrived all at once
+            s = theta > 0.0f ? (int)ceilf(MIN(RKPedestalActionPeriod * rate, 100.0f)) : engine->vcpHandle.toc;
             if (engine->vcpHandle.toc != s) {
                 engine->vcpHandle.toc = s;
                 RKLog("%s Position rate = %.1f Hz   toc -> %d\n", engine->name, rate, s);
@@ -393,6 +492,11 @@ RKSteerEngine *RKSteerEngineInit(void) {
     engine->vcpHandle.toc = 3;
     engine->memoryUsage = sizeof(RKSteerEngine);
     engine->state = RKEngineStateAllocated;
+    pthread_mutexattr_t attributes;
+    pthread_mutexattr_init(&attributes);
+    pthread_mutexattr_settype(&attributes, PTHREAD_MUTEX_RECURSIVE);
+    pthread_mutex_init(&engine->mutex, &attributes);
+    pthread_mutexattr_destroy(&attributes);
     return engine;
 }
 
@@ -400,6 +504,7 @@ void RKSteerEngineFree(RKSteerEngine *engine) {
     if (engine->state & RKEngineStateWantActive) {
         RKSteerEngineStop(engine);
     }
+    pthread_mutex_destroy(&engine->mutex);
     free(engine);
 }
 
@@ -524,7 +629,7 @@ void RKSteerEngineUpdatePositionFlags(RKSteerEngine *engine, RKPosition *positio
     }
 }
 
-RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
+static RKScanAction *getAction(RKSteerEngine *engine, RKPosition *pos) {
     RKScanAction *action = &engine->actions[engine->actionIndex];
     memset(action, 0, sizeof(RKScanAction));
 
@@ -546,17 +651,12 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
     if (V->active == false || V->sweepCount == 0) {
         if (V->progress & RKScanProgressStopPedestal) {
             RKLog("%s Stopping pedestal ...\n", engine->name);
-            if (fabs(pos->elevationVelocityDegreesPerSecond) > RKPedestalVelocityTolerance) {
-                action->mode[a] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisElevation;
-                action->value[a] = 0.0f;
-                V->tic = 0;
-                a++;
-            }
-            if (fabs(pos->azimuthVelocityDegreesPerSecond) > RKPedestalVelocityTolerance) {
-                action->mode[a] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisAzimuth;
-                action->value[a] = 0.0f;
-                V->tic = 0;
-            }
+            // Both axes, the pedestal may not have accelerated yet to what it was told last
+            action->mode[0] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisElevation;
+            action->value[0] = 0.0f;
+            action->mode[1] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisAzimuth;
+            action->value[1] = 0.0f;
+            V->tic = 0;
             V->progress ^= RKScanProgressStopPedestal;
             V->progress = RKScanProgressNone;
         }
@@ -592,7 +692,7 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
 
     const RKScanPath *scan = &V->batterScans[V->i];
 
-    if (V->progress == RKScanProgressNone) {
+    if (V->progress == RKScanProgressNone || V->progress & RKScanProgressStopPedestal) {
         V->progress = RKScanProgressSetup;
         switch (scan->mode) {
             case RKScanModePPI:
@@ -632,9 +732,14 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                     action->value[a] = 0.0f;
                     V->tic = 0;
                 }
-                if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance) {
+                // The azimuth must have come to a stop, it stays for the sweep
+                if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance &&
+                    fabsf(pos->azimuthVelocityDegreesPerSecond) < RKPedestalVelocityTolerance) {
+                    // Slew the elevation while the azimuth stays
                     action->mode[0] = RKPedestalInstructTypeModeSlew | RKPedestalInstructTypeAxisElevation;
                     action->value[0] = scan->elevationSlew;
+                    action->mode[1] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisAzimuth;
+                    action->value[1] = 0.0f;
                     V->tic = 0;
                     if (verbose) {
                         RKLog("%s Info. Ready for RHI sweep %d - AZ %.2f° @ crossover EL %.2f°\n", engine->name,
@@ -681,6 +786,11 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                     V->tic = 0;
                 }
                 if (udel < RKPedestalPositionTolerance && fabs(pos->elevationVelocityDegreesPerSecond) < 0.5 * RKPedestalVelocityTolerance) {
+                    // The elevation stays, whatever it was told last
+                    action->mode[1] = action->mode[0];
+                    action->value[1] = action->value[0];
+                    action->mode[0] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisElevation;
+                    action->value[0] = 0.0f;
                     if (verbose) {
                         RKLog("%s Info. Ready for PPI sweep %d - EL %.2f° @ crossover AZ %.2f°\n", engine->name,
                             V->i, scan->elevationStart, scan->azimuthEnd);
@@ -719,9 +829,14 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                     action->value[a] = 0.0f;
                     V->tic = 0;
                 }
-                if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance) {
+                // The elevation must have come to a stop, it stays for the sweep
+                if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance &&
+                    fabsf(pos->elevationVelocityDegreesPerSecond) < RKPedestalVelocityTolerance) {
+                    // Slew the azimuth while the elevation stays
                     action->mode[0] = RKPedestalInstructTypeModeSlew | RKPedestalInstructTypeAxisAzimuth;
                     action->value[0] = scan->azimuthSlew;
+                    action->mode[1] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisElevation;
+                    action->value[1] = 0.0f;
                     V->tic = 0;
                     if (verbose) {
                         RKLog("%s Info. Ready for SEC sweep %d - EL %.1f° @ crossover AZ %.1f°\n", engine->name,
@@ -766,7 +881,10 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                     action->value[a] = 0.0f;
                     V->tic = 0;
                 }
-                if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance) {
+                // There only if it stays there
+                if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance &&
+                    fabsf(pos->elevationVelocityDegreesPerSecond) <= RKPedestalVelocityTolerance &&
+                    fabsf(pos->azimuthVelocityDegreesPerSecond) <= RKPedestalVelocityTolerance) {
                     if (verbose) {
                         RKLog("%s Info. Pointing (EL %.2f°, AZ %.2f°)\n", engine->name,
                             scan->elevationStart, scan->azimuthStart);
@@ -783,6 +901,7 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
     if (V->progress & RKScanProgressMiddle) {
         switch (scan->mode) {
             case RKScanModeRHI:
+            case RKScanModeSpeedDown:
                 // If the action was just sent, pedestal has not yet accelerated
                 if (fabsf(pos->elevationVelocityDegreesPerSecond) <= RKPedestalVelocityTolerance) {
                     break;
@@ -849,7 +968,7 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
 
     // Sweep ended, go to the next sweep
     if (V->progress & RKScanProgressEnd) {
-        V->progress ^= RKScanProgressEnd;
+        const RKScanMode mode = scan->mode;
         V->i = RKNextModuloS(V->i, V->sweepCount);
         if (V->i == 0) {
             if (V->option & RKScanOptionRepeat) {
@@ -863,7 +982,15 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                 V->active = false;
             }
         }
-        V->progress |= RKScanProgressSetup;
+        if (V->active && V->sweepCount) {
+            V->progress = RKScanProgressSetup;
+            // Data collection goes on through the transition from one PPI to the next, all others start anew
+            if (mode == RKScanModePPI && V->batterScans[V->i].mode == RKScanModePPI) {
+                V->progress |= RKScanProgressMiddle;
+            }
+        } else {
+            V->progress = RKScanProgressStopPedestal;
+        }
     }
 
     engine->actionIndex = RKNextModuloS(engine->actionIndex, RKPedestalActionBufferDepth);
@@ -874,11 +1001,18 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
     return action;
 }
 
+RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
+    pthread_mutex_lock(&engine->mutex);
+    RKScanAction *action = getAction(engine, pos);
+    pthread_mutex_unlock(&engine->mutex);
+    return action;
+}
+
 RKSteerCommand RKSteerCommandFromString(const char *string) {
     char token[64];
     int s = sscanf(string, "%63s %*s", token);
     RKSteerCommand type = RKSteerCommandNone;
-    if (s == 0) {
+    if (s != 1) {
         return type;
     } else if (!strcmp(token, "home")) {
         type = RKSteerCommandHome | RKSteerCommandImmediate;
@@ -931,15 +1065,12 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
 
     int s;
     int result;
-    float azimuthStart, azimuthEnd, elevationStart, elevationEnd, rate;
 
-    bool valid = true;
-    char symbol[4] = "";
-    char args[4][256] = {"", "", "", ""};
     RKSteerCommand motion = command & RKSteerCommandInstructionMask;
 
     switch (motion) {
         case RKSteerCommandSummary:
+            pthread_mutex_lock(&engine->mutex);
             s = sprintf(response, "ACK. Volume summary retrieved.\n\n");
             s += RKSteerEngineScanSummary(engine, response + s);
             sprintf(response + s, "%s   %s   %s   %s" RKEOL,
@@ -947,6 +1078,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
                 RKVariableInString("sweepCount", &engine->vcpHandle.sweepCount, RKValueTypeUInt16),
                 RKVariableInString("onDeckCount", &engine->vcpHandle.onDeckCount, RKValueTypeUInt16),
                 RKVariableInString("inTheHoleCount", &engine->vcpHandle.inTheHoleCount, RKValueTypeUInt16));
+            pthread_mutex_unlock(&engine->mutex);
             return RKResultSuccess;
             break;
         case RKSteerCommandScanStart:
@@ -975,169 +1107,104 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
     }
 
     // The rest of the function assumes a scan / volume will be created
-    if (RKSteerCommandIsMotion(command)) {
-        if (motion == RKSteerCommandPoint) {
-            RKSteerEngineSetScanRepeat(engine, false);
-        } else {
-            RKSteerEngineSetScanRepeat(engine, true);
-        }
-    } else {
+    if (!RKSteerCommandIsMotion(command)) {
         sprintf(response, "NAK. Command '%s' not understood. Ask my father." RKEOL, string);
         RKLog("%s Non-motion commands should not be here.\n", engine->name);
         return RKResultFailedToExecuteCommand;
     }
 
-    if (immediatelyDo) {
-        RKSteerEngineClearSweeps(engine);
-    } else if (onlyOnce) {
-        RKSteerEngineClearDeck(engine);
-    } else {
-        RKSteerEngineClearHole(engine);
-    }
+    // Nothing about the scan underway changes until the entire command has been understood
+    RKScanList list;
+    list.count = 0;
 
     if (motion == RKSteerCommandPPISet) {
 
         // pp 2,4,6,8,10 45 18 - PPI at elevations [2, 4, 6, 8, 10] degs, azimuth 45, speed 18 deg/s
-        result = RKSteerEngineAddPPISet(engine, string, onlyOnce, response);
-        if (result != RKResultSuccess) {
-            return result;
-        }
+        result = RKSteerEngineParsePPISet(&list, string, response);
 
     } else if (motion == RKSteerCommandRHISet) {
 
         // rr 0,20 10,20,30 10 - RHI at elevations [0, 20] degs, azimuths [10, 20, 30], speed 10 deg/s
-        result = RKSteerEngineAddRHISet(engine, string, onlyOnce, response);
-        if (result != RKResultSuccess) {
-            return result;
-        }
+        result = RKSteerEngineParseRHISet(&list, string, response);
 
     } else if (motion == RKSteerCommandVolume) {
 
         // vol p 2 45 18/p 4 45 18/p 6 45 18/p 8 45 18/p 10 45 18/p 12 45 18 - PPI set like the pp example
-        int k = 0;
-        char *saved;
-        char *token = strchr(string, ' ');
-        do {
-            token++;
-        } while (*token == ' ' && k++ < 8);
-        if (*token == ' ') {
-            RKLog("%s Unxpected vol command string\n", engine->name);
-            return RKResultFailedToSetVCP;
-        }
-        strncpy(engine->scanString, token, RKMaximumStringLength - 1);
-
-        RKScanMode mode = RKScanModeNone;
-
-        k = 0;
-        token = strtok_r(engine->scanString, "/", &saved);
-        while (token != NULL && k++ < 100) {
-            // parse in the usual way
-            const int m = sscanf(token, "%3s %255s %255s %255s", symbol, args[0], args[1], args[2]);
-            if (m < 2) {
-                sprintf(response, "NAK. Ill-defined volume component.   m = %d" RKEOL, m);
-                valid = false;
-                break;
-            }
-            if (strlen(symbol) == 1) {
-                if (*symbol == 'p') {
-                    mode = RKScanModePPI;
-                } else if (*symbol == 'r') {
-                    mode = RKScanModeRHI;
-                } else if (*symbol == 's') {
-                    mode = RKScanModeSector;
-                } else if (*symbol == 'b') {
-                    mode = RKScanModeSpeedDown;
-                } else {
-                    RKLog("%s Error. Scan mode '%s' not understood.\n", engine->name, symbol);
-                    valid = false;
-                    break;
-                }
-                const int o = sscanf(args[0], "%f,%f", &elevationStart, &elevationEnd);
-                if (o < 1) {
-                    sprintf(response, "NAK. Ill-defined volume component.   o = %d" RKEOL, o);
-                    valid = false;
-                    break;
-                } else if (o == 1) {
-                    elevationEnd = elevationStart;
-                }
-                const int p = sscanf(args[1], "%f,%f", &azimuthStart, &azimuthEnd);
-                if (p < 1) {
-                    sprintf(response, "NAK. Ill-defined volume component.   p = %d" RKEOL, o);
-                    valid = false;
-                    break;
-                } else if (p == 1) {
-                    azimuthEnd = azimuthStart;
-                }
-                rate = atof(args[2]);
-
-                RKScanPath scan = RKSteerEngineMakeScanPath(mode, elevationStart, elevationEnd, azimuthStart, azimuthEnd, rate);
-
-                if (onlyOnce) {
-                    RKSteerEngineAddPinchSweep(engine, scan);
-                } else {
-                    RKSteerEngineAddLineupSweep(engine, scan);
-                }
-            } else if (!strcmp("pp", symbol)) {
-                result = RKSteerEngineAddPPISet(engine, token, onlyOnce, response);
-                valid = result == RKResultSuccess;
-            } else if (!strcmp("rr", symbol)) {
-                result = RKSteerEngineAddRHISet(engine, token, onlyOnce, response);
-                valid = result == RKResultSuccess;
-            } else if (!strcmp("ss", symbol)) {
-                result = RKResultFailedToExecuteCommand;
-                valid = false;
-            }
-            token = strtok_r(NULL, "/", &saved);
-        }
+        result = RKSteerEngineParseVolume(&list, string, response);
 
     } else if (motion == RKSteerCommandPoint) {
 
-        const int n = sscanf(string, "%*s %16s %16s", args[0], args[1]);
-        const float elevation = CLAMP(atof(args[0]), -2.0f, 182.0f);
-        const float azimuth = CLAMP(atof(args[1]), 0.0f, 360.0f);
-        if (n != 2) {
-            RKLog("%s Expected two arguments for point.   n = %d\n", engine->name, n);
+        char args[2][64] = {"", ""};
+        float elevation, azimuth;
+        const int n = sscanf(string, "%*s %63s %63s", args[0], args[1]);
+        if (n != 2 || parseNumbers(args[0], &elevation, 1) != 1 || parseNumbers(args[1], &azimuth, 1) != 1) {
+            sprintf(response, "NAK. Expected two arguments for point.   n = %d" RKEOL, n);
+            result = RKResultIncompleteScanDescription;
+        } else {
+            elevation = CLAMP(elevation, -2.0f, 182.0f);
+            azimuth = CLAMP(azimuth, 0.0f, 360.0f);
+            addScan(&list, RKSteerEngineMakeScanPath(RKScanModePoint, elevation, elevation, azimuth, azimuth, NAN));
+            result = RKResultSuccess;
         }
-        RKScanPath scan = RKSteerEngineMakeScanPath(RKScanModePoint, elevation, elevation, azimuth, azimuth, NAN);
-        RKSteerEngineAddPinchSweep(engine, scan);
 
     } else if (motion == RKSteerCommandHome) {
 
         const float elevation = 0.0f;
         const float azimuth = engine->radarDescription->heading;
-        RKScanPath scan = RKSteerEngineMakeScanPath(RKScanModePoint, elevation, elevation, azimuth, azimuth, NAN);
-        RKSteerEngineAddPinchSweep(engine, scan);
+        addScan(&list, RKSteerEngineMakeScanPath(RKScanModePoint, elevation, elevation, azimuth, azimuth, NAN));
+        result = RKResultSuccess;
 
     } else {
 
         sprintf(response, "NAK. Nothing. Ask my father." RKEOL);
-        return RKResultFailedToSetVCP;
+        result = RKResultFailedToSetVCP;
 
     }
 
-    if (valid) {
-        size_t s = sprintf(response, "ACK. Volume created.\n\n");
-
-        char *summary = response + s;
+    if (result != RKResultSuccess) {
+        return result;
+    }
 
-        s += RKSteerEngineScanSummary(engine, response + s);
-        RKSteerEngineStartSweeps(engine);
-        if (immediatelyDo || engine->vcpHandle.sweepCount == 0) {
-            RKSteerEngineNextHitter(engine);
-        }
+    // From one list to the next in one step
+    pthread_mutex_lock(&engine->mutex);
 
-        int k = sprintf(engine->dump, "New volume\n");
-        RKIndentCopy(engine->dump + k, summary, 31);
-        RKStripTail(engine->dump + k);
-        RKLog("%s %s\n", engine->name, engine->dump);
+    RKSteerEngineSetScanRepeat(engine, motion != RKSteerCommandPoint);
 
-        if (immediatelyDo) {
-            sprintf(response + s, "ACK. Volume in effect." RKEOL);
+    if (immediatelyDo) {
+        RKSteerEngineClearSweeps(engine);
+    } else if (onlyOnce) {
+        RKSteerEngineClearDeck(engine);
+    } else {
+        RKSteerEngineClearHole(engine);
+    }
+    for (int k = 0; k < list.count; k++) {
+        if (onlyOnce || motion == RKSteerCommandPoint || motion == RKSteerCommandHome) {
+            RKSteerEngineAddPinchSweep(engine, list.scans[k]);
         } else {
-            sprintf(response + s, "ACK. Volume in queue." RKEOL);
+            RKSteerEngineAddLineupSweep(engine, list.scans[k]);
         }
+    }
+
+    s = sprintf(response, "ACK. Volume created.\n\n");
+    char *summary = response + s;
+    s += RKSteerEngineScanSummary(engine, response + s);
+
+    RKSteerEngineStartSweeps(engine);
+    if (immediatelyDo || engine->vcpHandle.sweepCount == 0) {
+        RKSteerEngineNextHitter(engine);
+    }
+
+    int k = sprintf(engine->dump, "New volume\n");
+    RKIndentCopy(engine->dump + k, summary, 31);
+    RKStripTail(engine->dump + k);
+    RKLog("%s %s\n", engine->name, engine->dump);
+
+    pthread_mutex_unlock(&engine->mutex);
+
+    if (immediatelyDo) {
+        sprintf(response + s, "ACK. Volume in effect." RKEOL);
     } else {
-        return RKResultFailedToSetVCP;
+        sprintf(response + s, "ACK. Volume in queue." RKEOL);
     }
 
     return RKResultSuccess;
@@ -1159,7 +1226,7 @@ static char *scanModeString(const RKScanMode mode) {
     return "NAN";
 }
 
-static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int count, const RKScanHitter linetag) {
+static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const size_t size, const int count, const RKScanHitter linetag) {
     size_t k = 0;
     char prefix[8];
     switch (linetag){
@@ -1199,6 +1266,13 @@ static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int co
 
     // Second pass, actually print it out using the consitent column width
     for (int i = 0; i < count; i++) {
+        // Not all of a long list may fit
+        if (k + 256 > size) {
+            if (k + 5 <= size) {
+                k += sprintf(string + k, "...\n");
+            }
+            break;
+        }
         k += sprintf(string + k, "%-7s %d : %s%s%s",
                      prefix,
                      i,
@@ -1249,16 +1323,21 @@ static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int co
 
 size_t RKSteerEngineScanSummary(RKSteerEngine *engine, char *string) {
     RKScanObject *V = &engine->vcpHandle;
-    size_t s = makeSweepMessage(V->batterScans, string, V->sweepCount, RKScanAtBat);
+    // A response is at most RKMaximumStringLength, there is something before and something after
+    const size_t size = RKMaximumStringLength - 1024;
+    string[0] = '\0';
+    pthread_mutex_lock(&engine->mutex);
+    size_t s = makeSweepMessage(V->batterScans, string, size, V->sweepCount, RKScanAtBat);
     if (V->onDeckCount != V->inTheHoleCount || memcmp(V->onDeckScans, V->inTheHoleScans, RKMaximumScanCount * sizeof(RKScanPath))) {
-        s += makeSweepMessage(V->onDeckScans, string + s, V->onDeckCount, RKScanPinch);
+        s += makeSweepMessage(V->onDeckScans, string + s, size - s, V->onDeckCount, RKScanPinch);
     }
     if (V->option & RKScanOptionRepeat) {
-        s += makeSweepMessage(V->inTheHoleScans, string + s, V->inTheHoleCount, RKScanLine);
+        s += makeSweepMessage(V->inTheHoleScans, string + s, size - s, V->inTheHoleCount, RKScanLine);
     }
     if (V->sweepCount == 0 && V->onDeckCount == 0 && V->inTheHoleCount == 0) {
         s = sprintf(string, "(empty)\n");
     }
+    pthread_mutex_unlock(&engine->mutex);
     return s;
 }
 
-- 
2.43.0


From a21f66c33406ce7a76fb3771520e93a953e32e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:07 +0000
Subject: [PATCH 31/40] fix: operators get whole records of the streams they
 asked for, in order, and subscriptions are kept apart

---
 source/RKCommandCenter.c | 362 +++++++++++++++++++++++++--------------
 1 file changed, 238 insertions(+), 124 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index ee9afb1..66118db 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -22,6 +22,9 @@ static void consolidateStreams(RKCommandCenter *engine) {
     int j, k;
     RKStream consolidatedStreams;
 
+    // One at a time so that the latest request wins
+    pthread_mutex_lock(&engine->mutex);
+
     // Consolidate streams
     for (j = 0; j < RKCommandCenterMaxRadars; j++) {
         RKRadar *radar = engine->radars[j];
@@ -40,6 +43,8 @@ static void consolidateStreams(RKCommandCenter *engine) {
         }
         RKRadarRelayUpdateStreams(radar->radarRelay, consolidatedStreams);
     }
+
+    pthread_mutex_unlock(&engine->mutex);
 }
 
 static void copyRayHeader(RKRayHeaderV1 *destination, RKRayHeader *source) {
@@ -69,6 +74,12 @@ static void copyRayHeader(RKRayHeaderV1 *destination, RKRayHeader *source) {
     destination->reserved3       = source->reserved3;
 }
 
+// A ray is still the one that was being copied if it is ready and still has the same identity
+static bool rayIsIntact(const RKRay *ray, const RKIdentifier i) {
+    __sync_synchronize();
+    return (ray->header.s & RKRayStatusReady) && ray->header.i == i;
+}
+
 static bool operatorIsActive(RKOperator *O) {
     return O->state == RKOperatorStateActive && O->M->state == RKServerStateActive;
 }
@@ -132,6 +143,14 @@ int socketCommandHandler(RKOperator *O) {
                     RKLog("%s sleep 1/%.1f s   No radar\n", engine->name, (float)k * 0.1f);
                 }
             }
+            if (user->radar == NULL) {
+                return 0;
+            }
+            // Go through the same command again
+            if (commandStringEnd) {
+                *commandStringEnd = ';';
+            }
+            continue;
         } else if (user->radar->desc.initFlags & RKInitFlagSignalProcessor) {
             k = 0;
             while (!(user->radar->state & RKRadarStateLive)) {
@@ -161,14 +180,16 @@ int socketCommandHandler(RKOperator *O) {
             // Process the command
             switch (commandString[0]) {
                 case '\15':
+                    pthread_mutex_lock(&user->mutex);
                     user->streams = RKStreamNull;
                     user->streamsInProgress = RKStreamNull;
+                    pthread_mutex_unlock(&user->mutex);
                     RKLog("%s %s Disconnected all streams\n", engine->name, O->name);
                     break;
 
                 case 'a':
                     // Authenticate
-                    sscanf(commandString + 1, "%s %s", sval1, sval2);
+                    sscanf(commandString + 1, "%511s %511s", sval1, sval2);
                     RKLog("%s %s Authenticating %s %s ... (%d) (%d)\n", engine->name, O->name, sval1, sval2, strlen(sval1), sizeof(user->login));
                     // Check authentication here. For now, control is always authorized
                     //
@@ -176,18 +197,21 @@ int socketCommandHandler(RKOperator *O) {
                     user->access |= RKStreamControl;
                     // Update some info
                     //strncpy(user->login, sval1, sizeof(user->login));
-                    memcpy(user->login, sval1, sizeof(user->login));
+                    strncpy(user->login, sval1, sizeof(user->login));
                     user->login[MIN(sizeof(user->login) - 1, strlen(sval1))] = '\0';
                     user->controlFirstUID = (uint32_t)-1;
                     break;
 
                 case 'c':
+                    pthread_mutex_lock(&user->mutex);
                     user->textPreferences ^= RKTextPreferencesShowColor;
-                    if (!(user->streamsInProgress & RKStreamStatusMask)) {
+                    k = user->streamsInProgress & RKStreamStatusMask;
+                    user->streamsInProgress &= ~(RKStream)RKStreamStatusMask;
+                    pthread_mutex_unlock(&user->mutex);
+                    if (k == 0) {
                         sprintf(user->commandResponse, "ACK. Buffer overview in %s." RKEOL, user->textPreferences & RKTextPreferencesShowColor ? "Color" : "Gray");
                         RKOperatorSendCommandResponse(O, user->commandResponse);
                     }
-                    user->streamsInProgress &= ~RKStreamStatusMask;
                     break;
 
                 case 'd':
@@ -220,7 +244,10 @@ int socketCommandHandler(RKOperator *O) {
                             for (k = 0; k < RKCommandCenterMaxConnections; k++) {
                                 if (engine->users[k].radar == user->radar && engine->users[k].streamsToRestore != RKStreamNull) {
                                     pthread_mutex_lock(&engine->users[k].mutex);
-                                    engine->users[k].streams = engine->users[k].streamsToRestore;
+                                    // Unless the user has made another choice in the meantime
+                                    if (engine->users[k].streams == RKStreamNull) {
+                                        engine->users[k].streams = engine->users[k].streamsToRestore;
+                                    }
                                     engine->users[k].streamsToRestore = RKStreamNull;
                                     pthread_mutex_unlock(&engine->users[k].mutex);
                                 }
@@ -249,11 +276,10 @@ int socketCommandHandler(RKOperator *O) {
 
                 case 's':
                     // Stream varrious data
-                    user->streamsToRestore = user->streamsInProgress;
                     stream = RKStreamFromString(commandString + 1);
                     //RKLog("%s %s stream = %x / %x\n", engine->name, O->name, stream, RKStreamSweepQ);
                     if (stream & RKStreamStatusTerminalChange) {
-                        stream = user->streamsToRestore;
+                        stream = user->streams;
                         k = RKNextModuloS((user->textPreferences & RKTextPreferencesWindowSizeMask) >> 2, 5) << 2;
                         user->textPreferences = (user->textPreferences & ~RKTextPreferencesWindowSizeMask) | k;
                         // Check the terminal width
@@ -286,7 +312,8 @@ int socketCommandHandler(RKOperator *O) {
                     k = user->rayIndex;
                     user->streams = stream;
                     user->streamsInProgress = RKStreamNull;
-                    user->rayStatusIndex = RKPreviousModuloS(user->radar->momentEngine->rayStatusBufferIndex, RKBufferSSlotCount);
+                    user->rayStatusIndex = user->radar->momentEngine->rayStatusBufferIndex;
+                    user->rayStatusIndex = RKPreviousModuloS(user->rayStatusIndex, RKBufferSSlotCount);
                     user->scratchSpaceIndex = user->radar->sweepEngine->scratchSpaceIndex;
                     user->ticForStatusStream = 0;
                     pthread_mutex_unlock(&user->mutex);
@@ -297,6 +324,11 @@ int socketCommandHandler(RKOperator *O) {
 
                 case 'u':
                     // Turn this user into an active node with user product return
+                    if (user->productCount >= RKMaximumProductCount) {
+                        sprintf(user->commandResponse, "NAK. Too many products." RKEOL);
+                        RKOperatorSendCommandResponse(O, user->commandResponse);
+                        break;
+                    }
                     RKParseProductDescription(&user->productDescriptions[user->productCount], commandString + 1);
                     RKLog("%s Registering external product %d: '%s' (%s) ...", engine->name,
                           user->productDescriptions[user->productCount].key,
@@ -308,7 +340,7 @@ int socketCommandHandler(RKOperator *O) {
                         //         user->productDescriptions[user->productCount].key,
                         //         user->productDescriptions[user->productCount].symbol,
                         //         user->productIds[user->productCount]);
-                        strncpy(symbol, user->productDescriptions[user->productCount].symbol, 7);
+                        snprintf(symbol, sizeof(symbol), "%s", user->productDescriptions[user->productCount].symbol);
                         snprintf(user->commandResponse, RKMaximumCommandLength, "ACK. {\"type\": \"productDescription\", \"key\":%u, \"symbol\":\"%s\", \"pid\":%u}" RKEOL,
                                 user->productDescriptions[user->productCount].key,
                                 symbol,
@@ -343,10 +375,11 @@ int socketCommandHandler(RKOperator *O) {
                     delimiter.type = RKNetworkPacketTypeControls;
                     delimiter.size = (uint32_t)strlen(user->commandResponse);
                     RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), user->commandResponse, (ssize_t)delimiter.size, NULL);
+                    break;
 
                 case 'r':
                     // Change radar
-                    sscanf("%s", commandString + 1, sval1);
+                    sscanf(commandString + 1, "%511s", sval1);
                     RKLog(">%s %s Selected radar %s\n", engine->name, O->name, sval1);
                     snprintf(user->commandResponse, RKMaximumPacketSize, "ACK. %s selected." RKEOL, sval1);
                     RKOperatorSendCommandResponse(O, user->commandResponse);
@@ -354,14 +387,14 @@ int socketCommandHandler(RKOperator *O) {
 
                 case 's':
                     // Stream varrious data
+                    pthread_mutex_lock(&user->mutex);
+                    k = user->rayIndex;
                     user->streams = RKStreamFromString(commandString + 1);
+                    user->streamsInProgress = RKStreamNull;
+                    pthread_mutex_unlock(&user->mutex);
 
                     consolidateStreams(engine);
 
-                    k = user->rayIndex;
-                    pthread_mutex_lock(&user->mutex);
-                    user->streamsInProgress = RKStreamNull;
-                    pthread_mutex_unlock(&user->mutex);
                     RKLog(">%s %s Reset progress.\n", engine->name, O->name);
                     sprintf(user->commandResponse, "{\"type\": \"init\", \"access\": 0x%016lx, \"streams\": 0x%lx, \"indices\":[%d,%d]}" RKEOL,
                             (unsigned long)user->access, (unsigned long)user->streams, k, user->rayIndex);
@@ -406,7 +439,7 @@ int socketStreamHandler(RKOperator *O) {
 
     int i, j, k, s;
     char *c;
-    static struct timeval t0;
+    struct timeval t0;
 
     int gid;
     ssize_t size;
@@ -447,13 +480,14 @@ int socketStreamHandler(RKOperator *O) {
         return 0;
     }
 
+    pthread_mutex_lock(&user->mutex);
+
     if (user->radar == NULL) {
         RKLog("User %s has no associated radar.\n", user->login);
+        pthread_mutex_unlock(&user->mutex);
         return 0;
     }
 
-    pthread_mutex_lock(&user->mutex);
-
     if (!(user->radar->state & RKRadarStateLive)) {
         pthread_mutex_unlock(&user->mutex);
         return 0;
@@ -483,7 +517,7 @@ int socketStreamHandler(RKOperator *O) {
         k = user->streams & user->access & RKStreamStatusMask;
         if (k == RKStreamStatusPositions) {
             // Stream "0" - Positions
-            user->streamsInProgress = RKStreamStatusPositions;
+            user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamStatusPositions;
             if (user->radar->positionEngine) {
                 k = snprintf(user->string, RKMaximumStringLength, "%s" RKEOL,
                              RKPositionEnginePositionString(user->radar->positionEngine));
@@ -497,7 +531,7 @@ int socketStreamHandler(RKOperator *O) {
             user->ticForStatusStream++;
         } else if (k == RKStreamStatusPulses) {
             // Stream "1" - Pulses
-            user->streamsInProgress = RKStreamStatusPulses;
+            user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamStatusPulses;
             k = snprintf(user->string, RKMaximumPacketSize, "%s" RKEOL,
                          RKPulseEnginePulseString(user->radar->pulseEngine));
             O->delimTx.type = RKNetworkPacketTypePlainText;
@@ -507,10 +541,11 @@ int socketStreamHandler(RKOperator *O) {
             user->ticForStatusStream++;
         } else if (k == RKStreamStatusRays) {
             // Stream "2" - Rays (no skipping)
-            user->streamsInProgress = RKStreamStatusRays;
+            user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamStatusRays;
             j = 0;
             k = 0;
-            endIndex = RKPreviousModuloS(user->radar->momentEngine->rayStatusBufferIndex, RKBufferSSlotCount);
+            endIndex = user->radar->momentEngine->rayStatusBufferIndex;
+            endIndex = RKPreviousModuloS(endIndex, RKBufferSSlotCount);
             while (user->rayStatusIndex != endIndex && k < RKMaximumPacketSize - 200) {
                 c = user->radar->momentEngine->rayStatusBuffer[user->rayStatusIndex];
                 k += sprintf(user->string + k, "%s\n", c);
@@ -528,7 +563,7 @@ int socketStreamHandler(RKOperator *O) {
             }
         } else if (k == RKStreamStatusIngest) {
             // Stream "3" - Overall status
-            user->streamsInProgress = RKStreamStatusIngest;
+            user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamStatusIngest;
             k = snprintf(user->string, RKMaximumPacketSize, "%s %s %s %s %s" RKEOL,
                          RKPulseEngineStatusString(user->radar->pulseEngine),
                          RKPulseRingFilterEngineStatusString(user->radar->pulseRingFilterEngine),
@@ -542,7 +577,7 @@ int socketStreamHandler(RKOperator *O) {
             user->ticForStatusStream++;
         } else if (k == RKStreamStatusEngines) {
             // Stream "4" - Engine status
-            user->streamsInProgress = RKStreamStatusEngines;
+            user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamStatusEngines;
             if (user->ticForStatusStream % 20 == 0) {
                 char spacer[64];
                 sprintf(spacer, "%s | %s",
@@ -587,7 +622,7 @@ int socketStreamHandler(RKOperator *O) {
         } else if (k == RKStreamStatusBuffers) {
             // Stream "5" - Buffer overview
             if ((user->streamsInProgress & RKStreamStatusMask) != RKStreamStatusBuffers) {
-                user->streamsInProgress = RKStreamStatusBuffers;
+                user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamStatusBuffers;
                 k = RKBufferOverview(user->string, user->radar, user->textPreferences | RKTextPreferencesDrawBackground);
             } else {
                 k = RKBufferOverview(user->string, user->radar, user->textPreferences);
@@ -606,7 +641,7 @@ int socketStreamHandler(RKOperator *O) {
             // Stream "6" - ASCII art of reflectivity
             ray = RKGetLatestRayIndex(user->radar, &endIndex);
             if ((user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtZ) {
-                user->streamsInProgress = RKStreamASCIIArtZ;
+                user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtZ;
                 user->asciiArtStride = ray->header.gateCount / (user->terminalSize.ws_col - 20);
                 user->rayIndex = endIndex;
                 if (engine->verbose) {
@@ -687,7 +722,7 @@ int socketStreamHandler(RKOperator *O) {
         } else if (k == RKStreamASCIIArtHealth) {
             // Stream "7" - Health Overview
             if ((user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtHealth) {
-                user->streamsInProgress = RKStreamASCIIArtHealth;
+                user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtHealth;
             }
             health = RKGetLatestHealth(user->radar);
             k = RKHealthOverview(user->string, health->string, user->textPreferences | RKTextPreferencesDrawBackground);
@@ -697,11 +732,12 @@ int socketStreamHandler(RKOperator *O) {
         } else if (k == RKStreamASCIIArtVCP) {
             // Stream "8" - RKSteerEngine (no skipping)
             if ((user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtVCP) {
-                user->streamsInProgress = RKStreamASCIIArtVCP;
+                user->streamsInProgress = (user->streamsInProgress & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtVCP;
             }
             j = 0;
             k = 0;
-            endIndex = RKPreviousModuloS(user->radar->steerEngine->statusBufferIndex, RKBufferSSlotCount);
+            endIndex = user->radar->steerEngine->statusBufferIndex;
+            endIndex = RKPreviousModuloS(endIndex, RKBufferSSlotCount);
             while (user->steerStatusIndex != endIndex && k < RKMaximumPacketSize - 200) {
                 c = user->radar->steerEngine->statusBuffer[user->steerStatusIndex];
                 k += sprintf(user->string + k, "%s\n", c);
@@ -769,8 +805,10 @@ int socketStreamHandler(RKOperator *O) {
     // Processor Status
     #pragma mark Processor Status
     if (user->streams & user->access & RKStreamStatusProcessorStatus) {
-        endIndex = RKPreviousModuloS(user->radar->statusIndex, user->radar->desc.statusBufferDepth);
-        if (!(user->streamsInProgress & RKStreamStatusProcessorStatus)) {
+        endIndex = user->radar->statusIndex;
+        endIndex = RKPreviousModuloS(endIndex, user->radar->desc.statusBufferDepth);
+        // Begin with a slot that has been filled, the index wraps around while the first ones are being produced
+        if (!(user->streamsInProgress & RKStreamStatusProcessorStatus) && user->radar->status[endIndex].flag == RKStatusFlagReady) {
             user->streamsInProgress |= RKStreamStatusProcessorStatus;
             if (engine->verbose) {
                 RKLog("%s %s Streaming RKStatus -> %d (0x%x %s).\n", engine->name, O->name, endIndex,
@@ -780,20 +818,25 @@ int socketStreamHandler(RKOperator *O) {
             user->statusIndex = endIndex;
         }
         s = 0;
-        while (user->radar->status[user->statusIndex].flag != RKStatusFlagReady && engine->server->state == RKServerStateActive && s++ < 20) {
+        while (user->streamsInProgress & RKStreamStatusProcessorStatus &&
+               user->radar->status[user->statusIndex].flag != RKStatusFlagReady && engine->server->state == RKServerStateActive && s++ < 20) {
             if (s % 10 == 0 && engine->verbose > 1) {
                 RKLog("%s %s sleep 0/%.1f s  RKStatus\n", engine->name, O->name, s * 0.1f);
             }
             usleep(50000);
         }
-        if (user->radar->status[user->statusIndex].flag == RKStatusFlagReady && engine->server->state == RKServerStateActive) {
-            while (user->statusIndex != endIndex) {
+        if (user->streamsInProgress & RKStreamStatusProcessorStatus &&
+            user->radar->status[user->statusIndex].flag == RKStatusFlagReady && engine->server->state == RKServerStateActive) {
+            while (user->statusIndex != endIndex && user->radar->status[user->statusIndex].flag == RKStatusFlagReady) {
                 O->delimTx.type = RKNetworkPacketTypeProcessorStatus;
                 O->delimTx.size = (uint32_t)sizeof(RKStatus);
-                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &user->radar->status[user->statusIndex], sizeof(RKStatus), NULL);
+                size = RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &user->radar->status[user->statusIndex], sizeof(RKStatus), NULL);
+                if (size < 0) {
+                    break;
+                }
                 user->statusIndex = RKNextModuloS(user->statusIndex, user->radar->desc.statusBufferDepth);
             }
-        } else {
+        } else if (user->streamsInProgress & RKStreamStatusProcessorStatus) {
             RKLog("%s %s No Status / Deactivated.   statusIndex = %d\n", engine->name, O->name, user->statusIndex);
         }
     }
@@ -801,8 +844,10 @@ int socketStreamHandler(RKOperator *O) {
     // Health Status
     #pragma mark Health Status
     if (user->streams & user->access & RKStreamHealthInJSON) {
-        endIndex = RKPreviousModuloS(user->radar->healthIndex, user->radar->desc.healthBufferDepth);
-        if (!(user->streamsInProgress & RKStreamHealthInJSON)) {
+        endIndex = user->radar->healthIndex;
+        endIndex = RKPreviousModuloS(endIndex, user->radar->desc.healthBufferDepth);
+        // Begin with a slot that has been filled, the index wraps around while the first ones are being produced
+        if (!(user->streamsInProgress & RKStreamHealthInJSON) && user->radar->healths[endIndex].flag & RKHealthFlagReady) {
             user->streamsInProgress |= RKStreamHealthInJSON;
             if (engine->verbose) {
                 RKLog("%s %s Streaming RKHealth -> %d (0x%x %s).\n", engine->name, O->name, endIndex,
@@ -812,29 +857,38 @@ int socketStreamHandler(RKOperator *O) {
             user->healthIndex = endIndex;
         }
         s = 0;
-        while (user->radar->healths[user->healthIndex].flag != RKHealthFlagReady && engine->server->state == RKServerStateActive && s++ < 20) {
+        while (user->streamsInProgress & RKStreamHealthInJSON &&
+               !(user->radar->healths[user->healthIndex].flag & RKHealthFlagReady) && engine->server->state == RKServerStateActive && s++ < 20) {
             if (s % 10 == 0 && engine->verbose > 1) {
                 RKLog("%s %s sleep 0/%.1f s  RKHealth\n", engine->name, O->name, s * 0.1f);
             }
             usleep(50000);
         }
-        if (user->radar->healths[user->healthIndex].flag == RKHealthFlagReady && engine->server->state == RKServerStateActive) {
+        if (user->streamsInProgress & RKStreamHealthInJSON &&
+            user->radar->healths[user->healthIndex].flag & RKHealthFlagReady && engine->server->state == RKServerStateActive) {
             j = 0;
             k = 0;
-            while (user->healthIndex != endIndex && k < RKMaximumStringLength - 200) {
-                c = user->radar->healths[user->healthIndex].string;
-                k += sprintf(user->string + k, "%s\n", c);
+            while (user->healthIndex != endIndex && user->radar->healths[user->healthIndex].flag & RKHealthFlagReady && k < RKMaximumPacketSize - 2 * RKMaximumStringLength) {
+                health = &user->radar->healths[user->healthIndex];
+                identifier = health->i;
+                c = health->string;
+                s = snprintf(user->string + k, RKMaximumStringLength + 1, "%s\n", c);
+                __sync_synchronize();
+                // Only if the slot has not been recycled in the meantime
+                if (health->i == identifier && health->flag & RKHealthFlagReady) {
+                    k += s;
+                    j++;
+                }
                 user->healthIndex = RKNextModuloS(user->healthIndex, user->radar->desc.healthBufferDepth);
-                j++;
             }
             if (j) {
                 // Take out the last '\n', replace it with somethign else + EOL
-                snprintf(user->string + k - 1, RKMaximumStringLength - k, "" RKEOL);
+                snprintf(user->string + k - 1, RKMaximumPacketSize - k, "" RKEOL);
                 O->delimTx.type = RKNetworkPacketTypeHealth;
                 O->delimTx.size = k;
                 RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, O->delimTx.size, NULL);
             }
-        } else {
+        } else if (user->streamsInProgress & RKStreamHealthInJSON) {
             RKLog("%s %s No Health / Deactivated.   healthIndex = %d / %d\n", engine->name, O->name, user->healthIndex, user->radar->healthIndex);
         }
     }
@@ -844,67 +898,67 @@ int socketStreamHandler(RKOperator *O) {
         #pragma mark Product Streams
         // Product streams - assume no display as display data can be derived later
         if (user->radar->desc.initFlags & RKInitFlagSignalProcessor) {
-            endIndex = RKPreviousNModuloS(user->radar->rayIndex, 2 * user->radar->momentEngine->coreCount, user->radar->desc.rayBufferDepth);
+            endIndex = user->radar->rayIndex;
+            endIndex = RKPreviousNModuloS(endIndex, 2 * user->radar->momentEngine->coreCount, user->radar->desc.rayBufferDepth);
         } else {
-            endIndex = RKPreviousModuloS(user->radar->rayIndex, user->radar->desc.rayBufferDepth);
+            endIndex = user->radar->rayIndex;
+            endIndex = RKPreviousModuloS(endIndex, user->radar->desc.rayBufferDepth);
         }
         ray = RKGetRayFromBuffer(user->radar->rays, endIndex);
 
-        if (!(user->streamsInProgress & RKStreamProductAll)) {
+        // Begin with a slot that has been used, the index wraps around while the first ones are being produced
+        if (!(user->streamsInProgress & RKStreamProductAll) && ((int64_t)ray->header.i >= 0 || ray->header.s & RKRayStatusReady)) {
             user->streamsInProgress |= (user->streams & RKStreamProductAll);
             user->rayIndex = endIndex;
-            s = 0;
-            while (!(ray->header.s & RKRayStatusReady) && engine->server->state == RKServerStateActive && s++ < 20) {
-                if (s % 10 == 0 && engine->verbose > 1) {
-                    RKLog("%s %s sleep 0/%.1f s  RKRay\n", engine->name, O->name, s * 0.1f);
-                }
-                usleep(50000);
-            }
             if (engine->verbose) {
                 RKLog("%s %s Streaming RKRay products -> %d (%s).\n", engine->name, O->name, endIndex,
                       ray->header.s & RKRayStatusReady ? "ready" : "not ready");
             }
         }
 
-        if (ray->header.s & RKRayStatusReady && engine->server->state == RKServerStateActive) {
+        if (user->streamsInProgress & RKStreamProductAll &&
+            ray->header.s & RKRayStatusReady && engine->server->state == RKServerStateActive) {
             while (user->rayIndex != endIndex) {
                 ray = RKGetRayFromBuffer(user->radar->rays, user->rayIndex);
+                identifier = ray->header.i;
+                if (!rayIsIntact(ray, identifier)) {
+                    break;
+                }
                 // Duplicate and send the header with only selected products
-                //memcpy(&rayHeader, &ray->header, sizeof(RKRayHeader));
-                copyRayHeader(&rayHeaderV1, &ray->header);
+                memcpy(&rayHeader, &ray->header, sizeof(RKRayHeader));
                 // Gather the products to be sent
-                rayHeaderV1.baseProductList = RKBaseProductListNone;
+                rayHeader.baseProductList = RKBaseProductListNone;
                 if (user->streams & RKStreamProductZ) {
-                    rayHeaderV1.baseProductList |= RKBaseProductListFloatZ;
+                    rayHeader.baseProductList |= RKBaseProductListFloatZ;
                 }
                 if (user->streams & RKStreamProductV) {
-                    rayHeaderV1.baseProductList |= RKBaseProductListFloatV;
+                    rayHeader.baseProductList |= RKBaseProductListFloatV;
                 }
                 if (user->streams & RKStreamProductW) {
-                    rayHeaderV1.baseProductList |= RKBaseProductListFloatW;
+                    rayHeader.baseProductList |= RKBaseProductListFloatW;
                 }
                 if (user->streams & RKStreamProductD) {
-                    rayHeaderV1.baseProductList |= RKBaseProductListFloatD;
+                    rayHeader.baseProductList |= RKBaseProductListFloatD;
                 }
                 if (user->streams & RKStreamProductP) {
-                    rayHeaderV1.baseProductList |= RKBaseProductListFloatP;
+                    rayHeader.baseProductList |= RKBaseProductListFloatP;
                 }
                 if (user->streams & RKStreamProductR) {
-                    rayHeaderV1.baseProductList |= RKBaseProductListFloatR;
+                    rayHeader.baseProductList |= RKBaseProductListFloatR;
                 }
                 if (user->streams & RKStreamProductK) {
-                    rayHeaderV1.baseProductList |= RKBaseProductListFloatK;
+                    rayHeader.baseProductList |= RKBaseProductListFloatK;
                 }
                 if (user->streams & RKStreamProductQ) {
-                    rayHeaderV1.baseProductList |= RKBaseProductListFloatQ;
+                    rayHeader.baseProductList |= RKBaseProductListFloatQ;
                 }
                 if (user->streams & RKStreamProductSh) {
-                    rayHeaderV1.baseProductList |= RKBaseProductListFloatSh;
+                    rayHeader.baseProductList |= RKBaseProductListFloatSh;
                 }
                 if (user->streams & RKStreamProductSv) {
-                    rayHeaderV1.baseProductList |= RKBaseProductListFloatSv;
+                    rayHeader.baseProductList |= RKBaseProductListFloatSv;
                 }
-                uint32_t productList = rayHeaderV1.baseProductList & RKBaseProductListFloatZVWDPRKSQ;
+                uint32_t productList = rayHeader.baseProductList & RKBaseProductListFloatZVWDPRKSQ;
                 uint32_t productCount = __builtin_popcount(productList);
                 //RKLog("ProductCount = %d / %x\n", productCount, productList);
 
@@ -913,7 +967,9 @@ int socketStreamHandler(RKOperator *O) {
 
                 O->delimTx.type = RKNetworkPacketTypeRayDisplay;
                 O->delimTx.size = (uint32_t)(sizeof(RKRayHeader) + productCount * rayHeader.gateCount * sizeof(float));
-                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeader, sizeof(RKRayHeader), NULL);
+                // Assemble everything so that the header and the data go out as one unit
+                memcpy(user->string, &rayHeader, sizeof(RKRayHeader));
+                char *data = user->string + sizeof(RKRayHeader);
 
                 for (j = 0; j < productCount; j++) {
                     if (productList & RKBaseProductListFloatZ) {
@@ -937,27 +993,34 @@ int socketStreamHandler(RKOperator *O) {
                     } else if (productList & RKBaseProductListFloatK) {
                         productList ^= RKBaseProductListFloatK;
                         f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexK);
-                    } else if (productList & RKBaseProductListFloatQ) {
-                        productList ^= RKBaseProductListFloatK;
-                        f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexQ);
                     } else if (productList & RKBaseProductListFloatSh) {
                         productList ^= RKBaseProductListFloatSh;
                         f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexSh);
                     } else if (productList & RKBaseProductListFloatSv) {
                         productList ^= RKBaseProductListFloatSv;
                         f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexSv);
+                    } else if (productList & RKBaseProductListFloatQ) {
+                        productList ^= RKBaseProductListFloatQ;
+                        f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexQ);
                     } else {
                         f32Data = NULL;
                     }
                     if (f32Data) {
-                        float *lowRateData = (float *)user->string;
+                        float *lowRateData = (float *)data;
                         for (i = 0, k = 0; i < rayHeader.gateCount; i++, k += user->rayDownSamplingRatio) {
                             lowRateData[i] = f32Data[k];
                         }
-                        RKOperatorSendPackets(O, lowRateData, rayHeader.gateCount * sizeof(float), NULL);
+                        data += rayHeader.gateCount * sizeof(float);
+                    }
+                }
+                // Only if the slot has not been recycled in the meantime
+                if (rayIsIntact(ray, identifier)) {
+                    size = RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, (ssize_t)O->delimTx.size, NULL);
+                    if (size < 0) {
+                        break;
                     }
+                    __sync_fetch_and_or(&ray->header.s, RKRayStatusStreamed);
                 }
-                ray->header.s |= RKRayStatusStreamed;
                 user->rayIndex = RKNextModuloS(user->rayIndex, user->radar->desc.rayBufferDepth);
             }
         } else {
@@ -966,13 +1029,15 @@ int socketStreamHandler(RKOperator *O) {
                       engine->name, O->name, user->streamsInProgress);
             }
         }
-    } else if (user->streams & user->access & RKStreamDisplayZVWDPRKS) {
+    } else if (user->streams & user->access & RKStreamDisplayAll) {
         #pragma mark Display Streams
         // Display streams - no skipping
         if (user->radar->desc.initFlags & RKInitFlagSignalProcessor) {
-            endIndex = RKPreviousNModuloS(user->radar->rayIndex, 2 * user->radar->momentEngine->coreCount, user->radar->desc.rayBufferDepth);
+            endIndex = user->radar->rayIndex;
+            endIndex = RKPreviousNModuloS(endIndex, 2 * user->radar->momentEngine->coreCount, user->radar->desc.rayBufferDepth);
         } else {
-            endIndex = RKPreviousModuloS(user->radar->rayIndex, user->radar->desc.rayBufferDepth);
+            endIndex = user->radar->rayIndex;
+            endIndex = RKPreviousModuloS(endIndex, user->radar->desc.rayBufferDepth);
         }
         if (endIndex >= user->radar->desc.rayBufferDepth) {
             RKLog("%s Error. endIndex = %s >= %s\n", engine->name, RKIntegerToCommaStyleString(endIndex), RKIntegerToCommaStyleString(user->radar->desc.rayBufferDepth));
@@ -983,25 +1048,24 @@ int socketStreamHandler(RKOperator *O) {
         }
         ray = RKGetRayFromBuffer(user->radar->rays, endIndex);
 
-        if (!(user->streamsInProgress & RKStreamDisplayZVWDPRKS)) {
-            user->streamsInProgress |= (user->streams & RKStreamDisplayZVWDPRKS);
+        // Begin with a slot that has been used, the index wraps around while the first ones are being produced
+        if (!(user->streamsInProgress & RKStreamDisplayAll) && ((int64_t)ray->header.i >= 0 || ray->header.s & RKRayStatusReady)) {
+            user->streamsInProgress |= (user->streams & RKStreamDisplayAll);
             user->rayIndex = endIndex;
-            s = 0;
-            while (!(ray->header.s & RKRayStatusReady) && engine->server->state == RKServerStateActive && s++ < 20) {
-                if (s % 10 == 0 && engine->verbose) {
-                    RKLog("%s %s sleep 0/%.1f s  RKRay\n", engine->name, O->name, s * 0.1f);
-                }
-                usleep(50000);
-            }
             if (engine->verbose) {
                 RKLog("%s %s Streaming RKRay displays -> %d (0x%02x %s).\n", engine->name, O->name, endIndex,
                       ray->header.s, ray->header.s & RKRayStatusReady ? "ready" : "not ready");
             }
         }
 
-        if (ray->header.s & RKRayStatusReady && engine->server->state == RKServerStateActive) {
+        if (user->streamsInProgress & RKStreamDisplayAll &&
+            ray->header.s & RKRayStatusReady && engine->server->state == RKServerStateActive) {
             while (user->rayIndex != endIndex) {
                 ray = RKGetRayFromBuffer(user->radar->rays, user->rayIndex);
+                identifier = ray->header.i;
+                if (!rayIsIntact(ray, identifier)) {
+                    break;
+                }
                 // Duplicate and send the header with only selected products
                 // memcpy(&rayHeader, &ray->header, sizeof(RKRayHeader));
                 copyRayHeader(&rayHeaderV1, &ray->header);
@@ -1038,7 +1102,7 @@ int socketStreamHandler(RKOperator *O) {
                 if (user->streams & RKStreamDisplaySv) {
                     rayHeaderV1.baseProductList |= RKBaseProductListUInt8Sv;
                 }
-                uint32_t displayList = rayHeaderV1.baseProductList & RKBaseProductListUInt8ZVWDPR;
+                uint32_t displayList = rayHeaderV1.baseProductList & RKBaseProductListUInt8ZVWDPRKSQ;
                 uint32_t displayCount = __builtin_popcount(displayList);
                 //RKLog("displayCount = %d / %x\n", productCount, productList);
 
@@ -1047,7 +1111,9 @@ int socketStreamHandler(RKOperator *O) {
 
                 O->delimTx.type = RKNetworkPacketTypeRayDisplay;
                 O->delimTx.size = (uint32_t)(sizeof(RKRayHeaderV1) + displayCount * rayHeaderV1.gateCount * sizeof(uint8_t));
-                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeaderV1, sizeof(RKRayHeaderV1), NULL);
+                // Assemble everything so that the header and the data go out as one unit
+                memcpy(user->string, &rayHeaderV1, sizeof(RKRayHeaderV1));
+                char *data = user->string + sizeof(RKRayHeaderV1);
 
                 for (j = 0; j < displayCount; j++) {
                     if (displayList & RKBaseProductListUInt8Z) {
@@ -1071,27 +1137,34 @@ int socketStreamHandler(RKOperator *O) {
                     } else if (displayList & RKBaseProductListUInt8K) {
                         displayList ^= RKBaseProductListUInt8K;
                         u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexK);
-                    } else if (displayList & RKBaseProductListUInt8Q) {
-                        displayList ^= RKBaseProductListUInt8Q;
-                        u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexQ);
                     } else if (displayList & RKBaseProductListUInt8Sh) {
                         displayList ^= RKBaseProductListUInt8Sh;
                         u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexSh);
                     } else if (displayList & RKBaseProductListUInt8Sv) {
                         displayList ^= RKBaseProductListUInt8Sv;
                         u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexSv);
+                    } else if (displayList & RKBaseProductListUInt8Q) {
+                        displayList ^= RKBaseProductListUInt8Q;
+                        u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexQ);
                     } else {
                         u8Data = NULL;
                     }
                     if (u8Data) {
-                        uint8_t *lowRateData = (uint8_t *)user->string;
+                        uint8_t *lowRateData = (uint8_t *)data;
                         for (i = 0, k = 0; i < rayHeaderV1.gateCount; i++, k += user->rayDownSamplingRatio) {
                             lowRateData[i] = u8Data[k];
                         }
-                        RKOperatorSendPackets(O, lowRateData, rayHeaderV1.gateCount * sizeof(uint8_t), NULL);
+                        data += rayHeaderV1.gateCount * sizeof(uint8_t);
                     }
                 }
-                ray->header.s |= RKRayStatusStreamed;
+                // Only if the slot has not been recycled in the meantime
+                if (rayIsIntact(ray, identifier)) {
+                    size = RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, (ssize_t)O->delimTx.size, NULL);
+                    if (size < 0) {
+                        break;
+                    }
+                    __sync_fetch_and_or(&ray->header.s, RKRayStatusStreamed);
+                }
                 user->rayIndex = RKNextModuloS(user->rayIndex, user->radar->desc.rayBufferDepth);
             } // while (user->rayIndex != endIndex) ...
         } else {
@@ -1100,7 +1173,7 @@ int socketStreamHandler(RKOperator *O) {
                       engine->name, O->name, user->rayIndex, endIndex, ray->header.i);
             }
         } // if (ray->header.s & RKRayStatusReady && engine->server->state == RKServerStateActive) ...
-    } // else if if (user->streams & user->access & RKStreamDisplayZVWDPRKS) ...
+    } // else if if (user->streams & user->access & RKStreamDisplayAll) ...
 
     // Sweep
     #pragma mark Sweep
@@ -1230,7 +1303,9 @@ int socketStreamHandler(RKOperator *O) {
                         ray = sweep->rays[k];
                         memcpy(&rayHeader, &ray->header, sizeof(RKRayHeader));
                         rayHeader.baseProductList = sweepHeader.baseProductList;
-                        size += RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeader, sizeof(RKRayHeader), NULL);
+                        // Assemble everything so that the header and the data go out as one unit
+                        memcpy(user->string, &rayHeader, sizeof(RKRayHeader));
+                        char *data = user->string + sizeof(RKRayHeader);
                         productList = sweepHeader.baseProductList;
                         if (engine->verbose > 1 && (k < 3 || k == sweepHeader.rayCount - 1)) {
                             RKLog(">%s %s k = %d   moments = %s   (%x)\n", engine->name, O->name, k, user->scratch + 1, productList);
@@ -1270,12 +1345,14 @@ int socketStreamHandler(RKOperator *O) {
                                 f32Data = NULL;
                             }
                             if (f32Data) {
-                                size += RKOperatorSendPackets(O, f32Data, sweep->header.gateCount * sizeof(float), NULL);
-                                user->timeLastOut = time;
+                                memcpy(data, f32Data, sweepHeader.gateCount * sizeof(float));
+                                data += sweepHeader.gateCount * sizeof(float);
                             } else if (k == 0) {
                                 RKLog("No data found %04Xh", productList);
                             }
                         } // for (j = 0; ...
+                        size += RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, (ssize_t)O->delimTx.size, NULL);
+                        user->timeLastOut = time;
                     } // for (k = 0; ...
 
                     gettimeofday(&timevalTx, NULL);
@@ -1348,33 +1425,37 @@ int socketStreamHandler(RKOperator *O) {
     #pragma mark IQ
     if (user->streams & user->access & RKStreamProductIQ) {
         // If I/Q data is sent, there is no need to send another subset of it.
-        endIndex = RKPreviousModuloS(user->radar->pulseIndex, user->radar->desc.pulseBufferDepth);
+        endIndex = user->radar->pulseIndex;
+        endIndex = RKPreviousModuloS(endIndex, user->radar->desc.pulseBufferDepth);
         while (user->pulseIndex != endIndex) {
             user->pulseIndex = RKNextModuloS(user->pulseIndex, user->radar->desc.pulseBufferDepth);
         }
         user->timeLastDisplayIQOut = time;
     } else if (user->streams & user->access & RKStreamDisplayIQ && time - user->timeLastDisplayIQOut >= 0.05) {
         if (user->radar->desc.initFlags & RKInitFlagSignalProcessor) {
-            endIndex = RKPreviousNModuloS(user->radar->pulseIndex, 2 * user->radar->pulseEngine->coreCount, user->radar->desc.pulseBufferDepth);
+            endIndex = user->radar->pulseIndex;
+            endIndex = RKPreviousNModuloS(endIndex, 2 * user->radar->pulseEngine->coreCount, user->radar->desc.pulseBufferDepth);
         } else {
-            endIndex = RKPreviousModuloS(user->radar->pulseIndex, user->radar->desc.pulseBufferDepth);
+            endIndex = user->radar->pulseIndex;
+            endIndex = RKPreviousModuloS(endIndex, user->radar->desc.pulseBufferDepth);
         }
         // Roll back a little so that(pulse index % waveform count) matches the desired waveIndex
         s = 0;
         pulse = RKGetPulseFromBuffer(user->radar->pulses, endIndex);
-        while (pulse->header.i % user->radar->pulseEngine->filterGroupCount != user->transmitWaveIndex && s++ < user->radar->pulseEngine->filterGroupCount) {
+        const uint32_t groupCount = MAX(1, user->radar->desc.initFlags & RKInitFlagSignalProcessor ? user->radar->pulseEngine->filterGroupCount : 1);
+        while (pulse->header.i % groupCount != user->transmitWaveIndex && s++ < groupCount) {
             endIndex = RKPreviousModuloS(endIndex, user->radar->desc.pulseBufferDepth);
             pulse = RKGetPulseFromBuffer(user->radar->pulses, endIndex);
         }
         //printf("wi = %d  %d\n", user->transmitWaveIndex, (int)pulse->header.i % user->radar->pulseEngine->filterGroupCount);
-        user->transmitWaveIndex = RKNextModuloS(user->transmitWaveIndex, user->radar->pulseEngine->filterGroupCount);
+        user->transmitWaveIndex = RKNextModuloS(user->transmitWaveIndex, groupCount);
         //pulse = RKGetPulseFromBuffer(user->radar->pulses, endIndex);
         s = 0;
         while (!(pulse->header.s & RKPulseStatusProcessed) && s++ < 100) {
             usleep(1000);
         }
 
-        if (!(user->streamsInProgress & RKPulseStatusProcessed)) {
+        if (!(user->streamsInProgress & RKStreamDisplayIQ)) {
             user->pulseIndex = endIndex;
             s = 0;
             while (!(pulse->header.s & RKPulseStatusHasIQData) && engine->server->state == RKServerStateActive && s++ < 20) {
@@ -1385,6 +1466,9 @@ int socketStreamHandler(RKOperator *O) {
             }
         }
 
+        identifier = pulse->header.i;
+        __sync_synchronize();
+
         if (pulse->header.s & RKPulseStatusProcessed && engine->server->state == RKServerStateActive) {
             user->streamsInProgress |= RKStreamDisplayIQ;
             memcpy(&pulseHeader, &pulse->header, sizeof(RKPulseHeader));
@@ -1467,17 +1551,19 @@ int socketStreamHandler(RKOperator *O) {
                     scale = 1.0f / sqrtf((float)user->radar->pulseEngine->filterAnchors[0][0].length);
                     yH = RKGetComplexDataFromPulse(pulse, 0);
                     yV = RKGetComplexDataFromPulse(pulse, 1);
-                    for (i = 0; i < pulseHeader.downSampledGateCount; i++) {
+                    for (i = 0; i < pulseHeader.gateCount; i++) {
                         userDataH->i   = (int16_t)(scale * yH->i);
-                        userDataH++->q = (int16_t)(scale * yH++->q);
+                        userDataH++->q = (int16_t)(scale * yH->q);
                         userDataV->i   = (int16_t)(scale * yV->i);
-                        userDataV++->q = (int16_t)(scale * yV++->q);
+                        userDataV++->q = (int16_t)(scale * yV->q);
+                        yH += k;
+                        yV += k;
                     }
                     break;
 
                 default:
                     // I/Q data from Int16C samples
-                    pulseHeader.gateCount = MIN(4096, pulseHeader.pulseWidthSampleCount + 10);
+                    pulseHeader.gateCount = MIN(pulseHeader.gateCount, MIN(4096, pulseHeader.pulseWidthSampleCount + 10));
                     for (i = 0; i < pulseHeader.gateCount; i++) {
                         *userDataH++ = *c16DataH;
                         *userDataV++ = *c16DataV;
@@ -1500,7 +1586,11 @@ int socketStreamHandler(RKOperator *O) {
 
             O->delimTx.type = RKNetworkPacketTypePulseData;
             O->delimTx.size = (uint32_t)(sizeof(RKPulseHeader) + 2 * size);
-            RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &pulseHeader, sizeof(RKPulseHeader), user->samples[0], size, user->samples[1], size, NULL);
+            // Only if the slot has not been recycled in the meantime
+            __sync_synchronize();
+            if (pulse->header.i == identifier && pulse->header.s & RKPulseStatusProcessed) {
+                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &pulseHeader, sizeof(RKPulseHeader), user->samples[0], size, user->samples[1], size, NULL);
+            }
 
             user->timeLastDisplayIQOut = time;
             user->timeLastOut = time;
@@ -1549,7 +1639,10 @@ int socketInitialHandler(RKOperator *O) {
     if (user->streams != RKStreamNull) {
         RKLog("%s %s Warning. Unexpected user state.   user->streams = %x", engine->name, O->name, user->streams);
     }
-    memset(user, 0, sizeof(RKUser));
+    // The mutex is kept since others may be going through the users
+    pthread_mutex_lock(&user->mutex);
+    memset(user, 0, offsetof(RKUser, mutex));
+    memset((char *)user + offsetof(RKUser, string), 0, sizeof(RKUser) - offsetof(RKUser, string));
     user->access = RKStreamStatusAll;
     user->access |= RKStreamDisplayAll;
     user->access |= RKStreamProductAll;
@@ -1567,13 +1660,13 @@ int socketInitialHandler(RKOperator *O) {
     user->pulseDownSamplingRatio = (uint16_t)MAX(user->radar->desc.pulseCapacity / 1000, 1);
     user->asciiArtStride = 4;
     user->ascopeMode = 0;
-    pthread_mutex_init(&user->mutex, NULL);
     struct winsize terminalSize = {.ws_col = 80, .ws_row = 40};
     ioctl(O->sid, TIOCGWINSZ, &terminalSize);
     RKLog(">%s %s Pul x %d   Ray x %d   Term %d x %d   Iid = %d...\n", engine->name, O->name,
           user->pulseDownSamplingRatio, user->rayDownSamplingRatio, terminalSize.ws_col, terminalSize.ws_row, O->iid);
     snprintf(user->login, sizeof(user->login), "radarop");
     user->serverOperator = O;
+    pthread_mutex_unlock(&user->mutex);
 
     pthread_mutex_unlock(&engine->mutex);
 
@@ -1584,17 +1677,19 @@ int socketTerminateHandler(RKOperator *O) {
     int k;
     RKCommandCenter *engine = O->userResource;
     RKUser *user = &engine->users[O->iid];
+    pthread_mutex_lock(&user->mutex);
     user->access = RKStreamNull;
     user->streams = RKStreamNull;
+    user->streamsToRestore = RKStreamNull;
     RKLog(">%s %s Disconnected.\n", engine->name, O->name);
     for (k = 0; k < user->productCount; k++) {
-        if (user->productIds[k]) {
+        if (user->productIds[k] && user->radar) {
             RKSweepEngineUndescribeProduct(user->radar->sweepEngine, user->productIds[k]);
             user->productIds[k] = 0;
         }
     }
-    pthread_mutex_destroy(&user->mutex);
     user->radar = NULL;
+    pthread_mutex_unlock(&user->mutex);
     consolidateStreams(engine);
     return RKResultSuccess;
 }
@@ -1615,6 +1710,9 @@ RKCommandCenter *RKCommandCenterInit(void) {
     engine->memoryUsage = sizeof(RKCommandCenter);
     engine->server = RKServerInit();
     pthread_mutex_init(&engine->mutex, NULL);
+    for (int k = 0; k < RKCommandCenterMaxConnections; k++) {
+        pthread_mutex_init(&engine->users[k].mutex, NULL);
+    }
     RKServerSetName(engine->server, engine->name);
     RKServerSetWelcomeHandler(engine->server, &socketInitialHandler);
     RKServerSetCommandHandler(engine->server, &socketCommandHandler);
@@ -1625,8 +1723,11 @@ RKCommandCenter *RKCommandCenterInit(void) {
 }
 
 void RKCommandCenterFree(RKCommandCenter *engine) {
-    pthread_mutex_destroy(&engine->mutex);
     RKServerFree(engine->server);
+    for (int k = 0; k < RKCommandCenterMaxConnections; k++) {
+        pthread_mutex_destroy(&engine->users[k].mutex);
+    }
+    pthread_mutex_destroy(&engine->mutex);
     free(engine);
     return;
 }
@@ -1646,6 +1747,7 @@ void RKCommandCenterSetPort(RKCommandCenter *engine, const int port) {
 void RKCommandCenterAddRadar(RKCommandCenter *engine, RKRadar *radar) {
     if (engine->radarCount >= 4) {
         RKLog("%s unable to add another radar.\n", engine->name);
+        return;
     }
     engine->radars[engine->radarCount] = radar;
     engine->radarCount++;
@@ -1668,16 +1770,20 @@ void RKCommandCenterRemoveRadar(RKCommandCenter *engine, RKRadar *radar) {
     for (i = 0; i < engine->radarCount; i++) {
         if (engine->radars[i] == radar) {
             RKLog("%s Removing '%s' ...\n", engine->name, radar->desc.name);
-            while (i < engine->radarCount - 1) {
-                engine->radars[i] = engine->radars[i + 1];
+            for (j = i; j < engine->radarCount - 1; j++) {
+                engine->radars[j] = engine->radars[j + 1];
             }
             engine->radarCount--;
+            engine->radars[engine->radarCount] = NULL;
+            break;
         }
     }
     for (i = 0; i < engine->server->maxClient; i++) {
         if (engine->server->busy[i] && engine->users[i].serverOperator->state == RKOperatorStateActive && engine->users[i].radar == radar) {
             RKLog("%s Removing '%s' from user %s %s ...\n", engine->name, radar->desc.name, engine->users[i].serverOperator->name, engine->users[i].login);
+            pthread_mutex_lock(&engine->users[i].mutex);
             engine->users[i].radar = NULL;
+            pthread_mutex_unlock(&engine->users[i].mutex);
         }
     }
     if (engine->radarCount) {
@@ -1734,10 +1840,18 @@ void RKCommandCenterSkipToCurrent(RKCommandCenter *engine, RKRadar *radar) {
             continue;
         }
         pthread_mutex_lock(&user->mutex);
-        user->pulseIndex      = RKPreviousNModuloS(radar->pulseIndex, 2 * radar->pulseEngine->coreCount, radar->desc.pulseBufferDepth);
-        user->rayIndex        = RKPreviousNModuloS(radar->rayIndex, 2 * radar->momentEngine->coreCount, radar->desc.rayBufferDepth);
-        user->healthIndex     = RKPreviousModuloS(radar->healthIndex, radar->desc.healthBufferDepth);
-        user->rayStatusIndex  = RKPreviousModuloS(user->radar->momentEngine->rayStatusBufferIndex, RKBufferSSlotCount);
+        if (user->radar != radar) {
+            pthread_mutex_unlock(&user->mutex);
+            continue;
+        }
+        user->pulseIndex      = radar->pulseIndex;
+        user->pulseIndex      = RKPreviousNModuloS(user->pulseIndex, 2 * radar->pulseEngine->coreCount, radar->desc.pulseBufferDepth);
+        user->rayIndex        = radar->rayIndex;
+        user->rayIndex        = RKPreviousNModuloS(user->rayIndex, 2 * radar->momentEngine->coreCount, radar->desc.rayBufferDepth);
+        user->healthIndex     = radar->healthIndex;
+        user->healthIndex     = RKPreviousModuloS(user->healthIndex, radar->desc.healthBufferDepth);
+        user->rayStatusIndex  = user->radar->momentEngine->rayStatusBufferIndex;
+        user->rayStatusIndex  = RKPreviousModuloS(user->rayStatusIndex, RKBufferSSlotCount);
         user->scratchSpaceIndex = user->radar->sweepEngine->scratchSpaceIndex;
         pthread_mutex_unlock(&user->mutex);
         if (user->pulseIndex > radar->desc.pulseBufferDepth ||
-- 
2.43.0


From c4da5b17384237fd699c63a7b8c8fbf8c6fb88fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:51 +0000
Subject: [PATCH 32/40] fix: the web-socket link survives partial reads and
 writes, fragments, merged frames and failed handshakes, and keeps queued
 messages whole

---
 headers/RadarKit/RKWebSocket.h |   8 +-
 source/RKWebSocket.c           | 467 +++++++++++++++++++++------------
 2 files changed, 304 insertions(+), 171 deletions(-)

diff --git a/headers/RadarKit/RKWebSocket.h b/headers/RadarKit/RKWebSocket.h
index fcc9c21..1690cf0 100644
--- a/headers/RadarKit/RKWebSocket.h
+++ b/headers/RadarKit/RKWebSocket.h
@@ -24,6 +24,7 @@
 #include "_rfc_6455.h"
 
 #define RKWebSocketFrameSize                     (1024 * 1024)
+#define RKWebSocketMaximumPayloadSize            (RKWebSocketFrameSize - 16)
 #define RKWebSocketPayloadDepth                  1000
 #define RKWebSocketTimeoutDeltaMicroseconds      10000
 #define RKWebSocketTimeoutThresholdSeconds       10.0
@@ -80,7 +81,12 @@ struct rk_websocket {
     uint32_t                 timeoutCount;                                     // Internal variable
     uint64_t                 tic;
 
-    uint8_t                  frame[RKWebSocketFrameSize];                      // A local buffer to store a frame
+    uint8_t                  frame[RKWebSocketFrameSize];                      // A local buffer to store incoming frames
+    uint32_t                 frameTotal;                                       // Number of bytes in the local buffer
+    uint8_t                  message[RKWebSocketFrameSize];                    // A local buffer to assemble a message of many frames
+    uint32_t                 messageTotal;                                     // Number of bytes in the message so far
+    bool                     fragmented;                                       // In the middle of a message
+    uint8_t                  outgoing[RKWebSocketFrameSize];                   // A local buffer to store an outgoing frame
 };
 
 RKWebSocket *RKWebSocketInit(const char *, const char *);
diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index e14c2b6..44ad213 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -8,41 +8,67 @@
 
 #include <RadarKit/RKWebSocket.h>
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 #pragma mark - Static Methods
 
-static char *RKGetHandshakeArgument(const char *buf, const char *key) {
-    static char argument[80] = {0};
-    char *b, *e;
-    b = strstr(buf, key);
-    if (b == NULL) {
-        argument[0] = '\0';
-        return argument;
-    }
-    b += strlen(key);
-    while (*b == ':' || *b == ' ') {
-        b++;
-    }
-    e = strstr(b, RKEOL);
-    size_t l = (size_t)(e - b);
-    memcpy(argument, b, l);
-    argument[l] = '\0';
-    return argument;
+// Value of a header field, names are case insensitive and may come in any order
+static void RKGetHandshakeArgument(char *argument, const size_t size, const char *buf, const char *key) {
+    const size_t n = strlen(key);
+    const char *b = buf, *e;
+    argument[0] = '\0';
+    while ((e = strstr(b, "\r\n")) != NULL) {
+        if ((size_t)(e - b) > n && !strncasecmp(b, key, n) && b[n] == ':') {
+            b += n + 1;
+            while (*b == ' ') {
+                b++;
+            }
+            snprintf(argument, size, "%.*s", (int)(e - b), b);
+            return;
+        }
+        b = e + 2;
+    }
 }
 
-static int RKSocketRead(RKWebSocket *W, uint32_t origin, size_t size) {
+static int RKSocketRead(RKWebSocket *W, const size_t origin, const size_t size) {
+    int r;
     W->tic++;
     if (W->useSSL) {
         return SSL_read(W->ssl, W->frame + origin, (int)size);
     }
-    return (int)read(W->sd,W->frame + origin, size);
+    do {
+        r = (int)read(W->sd, W->frame + origin, size);
+    } while (r < 0 && errno == EINTR);
+    return r;
 }
 
-static int RKSocketWrite(RKWebSocket *W, size_t size) {
+// Send everything in the outgoing buffer. Anything less than that leaves the connection useless
+static int RKSocketWrite(RKWebSocket *W, const size_t size) {
+    int r, s = 0;
+    size_t sent = 0;
+    bool again;
     W->tic++;
-    if (W->useSSL) {
-        return SSL_write(W->ssl, W->frame, (int)size);
+    while (sent < size) {
+        if (W->useSSL) {
+            r = SSL_write(W->ssl, W->outgoing + sent, (int)(size - sent));
+            again = r <= 0 && SSL_get_error(W->ssl, r) == SSL_ERROR_WANT_WRITE;
+        } else {
+            r = (int)send(W->sd, W->outgoing + sent, size - sent, MSG_NOSIGNAL);
+            if (r < 0 && errno == EINTR) {
+                continue;
+            }
+            again = r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK);
+        }
+        if (r > 0) {
+            sent += r;
+            s = 0;
+        } else if (!again || !W->wantActive || ++s >= RKNetworkTimeoutSeconds) {
+            return -1;
+        }
     }
-    return (int)write(W->sd, W->frame, size);
+    return (int)sent;
 }
 
 static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void *src, size_t size) {
@@ -64,10 +90,10 @@ static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void
     }
     if (r > 65535) {
         h->len = 127;
-        // Frame header can be up to 10 bytes
-        if (r > RKWebSocketFrameSize - 10) {
-            r = RKWebSocketFrameSize - 10;
-            fprintf(stderr, "I am limited to %d bytes\n", RKWebSocketFrameSize - 10);
+        // Frame header, mask and the terminating character
+        if (r > RKWebSocketMaximumPayloadSize) {
+            r = RKWebSocketMaximumPayloadSize;
+            fprintf(stderr, "I am limited to %d bytes\n", RKWebSocketMaximumPayloadSize);
         }
         *((uint64_t *)payload) = htonll((uint64_t)r);
         payload += 8;
@@ -110,10 +136,10 @@ static size_t RKWebSocketFrameDecode(void **dst, void *buf) {
     } else {
         r = h->len;
     }
-    payload[r + 4 * h->mask] = '\0';
     if (h->mask) {
         ws_mask_key key = {.u32 = *(uint32_t *)payload};
-        for (int i = 0; i < h->len; i++) {
+        payload += 4;
+        for (size_t i = 0; i < r; i++) {
             payload[i] ^= key.code[i % 4];
         }
     }
@@ -121,14 +147,23 @@ static size_t RKWebSocketFrameDecode(void **dst, void *buf) {
     return r;
 }
 
-static size_t RKWebSocketFrameGetTargetSize(void *buf) {
+// Size of the whole frame, zero if the header is not complete yet
+static size_t RKWebSocketFrameGetTargetSize(const void *buf, const size_t size) {
     size_t r = sizeof(ws_frame_header);
-    void *xlen = buf + sizeof(ws_frame_header);
-    ws_frame_header *h = (ws_frame_header *)buf;
+    const void *xlen = buf + sizeof(ws_frame_header);
+    const ws_frame_header *h = (const ws_frame_header *)buf;
+    if (size < r) {
+        return 0;
+    }
+    r += (h->len == 127 ? 8 : (h->len == 126 ? 2 : 0)) + (h->mask ? 4 : 0);
+    if (size < r) {
+        return 0;
+    }
     if (h->len == 127) {
-        r += 8 + ntohll(*(uint64_t *)xlen);
+        const uint64_t n = ntohll(*(uint64_t *)xlen);
+        r += MIN(n, RKWebSocketFrameSize);
     } else if (h->len == 126) {
-        r += 2 + ntohs(*(uint16_t *)xlen);
+        r += ntohs(*(uint16_t *)xlen);
     } else {
         r += h->len;
     }
@@ -136,7 +171,7 @@ static size_t RKWebSocketFrameGetTargetSize(void *buf) {
 }
 
 static int RKWebSocketPingPong(RKWebSocket *W, const bool ping, const char *message, const int len) {
-    size_t size = RKWebSocketFrameEncode(W->frame,
+    size_t size = RKWebSocketFrameEncode(W->outgoing,
         ping ? RFC6455_OPCODE_PING : RFC6455_OPCODE_PONG,
         message, message == NULL ? 0 : (len == 0 ? strlen(message) : len));
     int r = RKSocketWrite(W, size);
@@ -156,8 +191,8 @@ static int RKWebSocketPong(RKWebSocket *W, const char *message, const int len) {
     return RKWebSocketPingPong(W, false, message, len);
 }
 
-static void RKShowWebsocketFrameHeader(RKWebSocket *W) {
-    uint8_t *c = (uint8_t *)W->frame;
+static void RKShowWebsocketFrameHeader(const void *frame) {
+    const uint8_t *c = (const uint8_t *)frame;
     ws_frame_header *h = (ws_frame_header *)c;
     if (h->mask) {
         printf("%02x %02x   %02x %02x %02x %02x    %02x %02x %02x %02x %02x %02x %02x %02x ..."
@@ -191,10 +226,13 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         return -1;
     }
 
-    if ((W->sd = socket(AF_INET, SOCK_STREAM, 0)) == 0) {
+    if ((W->sd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
         RKLog("%s Error. Failed opening socket\n", W->name);
+        W->sd = 0;
         return -1;
     }
+    struct timeval timeout = {.tv_sec = 1, .tv_usec = 0};
+    setsockopt(W->sd, SOL_SOCKET, SO_SNDTIMEO, &timeout, sizeof(timeout));
 
     if (W->verbose > 1) {
         RKLog("%s Connecting %s:%d %s...\n", W->name,
@@ -215,8 +253,12 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         return -1;
     }
     if (W->useSSL) {
+        SSL_clear(W->ssl);
         SSL_set_fd(W->ssl, W->sd);
-        SSL_connect(W->ssl);
+        if ((r = SSL_connect(W->ssl)) != 1) {
+            RKLog("%s Error. Secure connection failed.  r = %d\n", W->name, r);
+            return -1;
+        }
     }
 
     char *buf = (char *)W->frame;
@@ -234,7 +276,7 @@ static int RKWebSocketConnect(RKWebSocket *W) {
     } else if (W->verbose) {
         RKLog("%s Using default secret %s ...\n", W->name, W->secret);
     }
-    sprintf(buf,
+    sprintf((char *)W->outgoing,
         "GET %s HTTP/1.1\r\n"
         "Host: %s\r\n"
         "Upgrade: websocket\r\n"
@@ -246,27 +288,55 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         W->host,
         W->secret);
     if (W->verbose > 2) {
-        printf("%s", buf);
+        printf("%s", (char *)W->outgoing);
     }
 
-    RKSocketWrite(W, strlen(buf));
-    do {
-        r = RKSocketRead(W, r, RKWebSocketFrameSize - r);
-    } while (r == 0 || strstr((char *)buf, "\r\n\r\n") == NULL);
-    if (r < 0) {
-        fprintf(stderr, "Error during handshake.\n");
-        fprintf(stderr, "%s", (char *)buf);
+    if (RKSocketWrite(W, strlen((char *)W->outgoing)) < 0) {
+        RKLog("%s Error. Unable to send the handshake.\n", W->name);
         return -1;
     }
-    buf[r] = '\0';
+    // The reply may come in pieces, the first frames may come right behind it
+    fd_set rfd;
+    int s = 0;
+    W->frameTotal = 0;
+    do {
+        FD_ZERO(&rfd);
+        FD_SET(W->sd, &rfd);
+        timeout.tv_sec = 0;
+        timeout.tv_usec = 100000;
+        if (!(W->useSSL && SSL_pending(W->ssl)) && (r = select(W->sd + 1, &rfd, NULL, NULL, &timeout)) <= 0) {
+            if ((r < 0 && errno != EINTR) || !W->wantActive || ++s >= 10 * RKNetworkTimeoutSeconds) {
+                RKLog("%s Error. No handshake.\n", W->name);
+                return -1;
+            }
+            c = NULL;
+            continue;
+        }
+        r = RKSocketRead(W, W->frameTotal, RKWebSocketFrameSize - 1 - W->frameTotal);
+        if (r <= 0) {
+            RKLog("%s Error. Connection lost during handshake.\n", W->name);
+            return -1;
+        }
+        W->frameTotal += r;
+        buf[W->frameTotal] = '\0';
+        c = strstr(buf, "\r\n\r\n");
+    } while (c == NULL);
+    c[2] = '\0';
+    c += 4;
     if (W->verbose > 1) {
         printf("%s", buf);
     }
 
     // Verify the return digest, websocket upgrade, connection upgrade, etc.
-    strcpy(W->digest, RKGetHandshakeArgument(buf, "Sec-WebSocket-Accept"));
-    strcpy(W->upgrade, RKGetHandshakeArgument(buf, "Upgrade"));
-    strcpy(W->connection, RKGetHandshakeArgument(buf, "Connection"));
+    RKGetHandshakeArgument(W->digest, sizeof(W->digest), buf, "Sec-WebSocket-Accept");
+    RKGetHandshakeArgument(W->upgrade, sizeof(W->upgrade), buf, "Upgrade");
+    RKGetHandshakeArgument(W->connection, sizeof(W->connection), buf, "Connection");
+
+    // What comes behind the reply is the beginning of the first frame
+    W->frameTotal -= (uint32_t)(c - buf);
+    memmove(W->frame, c, W->frameTotal);
+    W->messageTotal = 0;
+    W->fragmented = false;
 
     // This block is now hardcoded for default secret key, should replace ...
     if (strcmp(W->secret, "RadarHub123456789abcde") == 0 &&
@@ -289,7 +359,10 @@ static int RKWebSocketConnect(RKWebSocket *W) {
     }
 
     // Discard all pending deliveries
+    pthread_mutex_lock(&W->lock);
     W->payloadTail = W->payloadHead;
+    pthread_mutex_unlock(&W->lock);
+    W->timeoutCount = 0;
 
     // Call onOpen here for client to handle additional tasks after the connection is established.
     if (W->onOpen) {
@@ -301,35 +374,142 @@ static int RKWebSocketConnect(RKWebSocket *W) {
     return 0;
 }
 
+// Decode one complete frame and answer it, or hand it over to the message handler
+static int RKWebSocketHandleFrame(RKWebSocket *W, void *frame) {
+    void *anchor;
+    char show[256];
+    const ws_frame_header *h = (ws_frame_header *)frame;
+    const size_t size = RKWebSocketFrameDecode(&anchor, frame);
+    if (W->verbose > 1) {
+        if (W->verbose > 2) {
+            printf("%2zu read  ", size); RKShowWebsocketFrameHeader(frame);
+        }
+        if (size > 32) {
+            RKHeadTailBytesInHex(show, anchor, size);
+        } else if (size != 4 && h->opcode == RFC6455_OPCODE_PING) {
+            RKBytesInHex(show, anchor, size);
+        } else {
+            memcpy(show, anchor, size);
+            show[size] = '\0';
+        }
+        RKLog("%s S-%s: %s%s%s (%zu)\n", W->name,
+              OPCODE_STRING(h->opcode),
+              rkGlobalParameters.showColor ? RKOrangeColor : "",
+              show,
+              rkGlobalParameters.showColor ? RKNoColor : "",
+              size);
+    }
+    switch (h->opcode) {
+        case RFC6455_OPCODE_PING:
+            if (!h->fin || h->len > 125) {
+                return -1;
+            }
+            if (RKWebSocketPong(W, anchor, (int)size) < 0) {
+                return -1;
+            }
+            if (W->verbose > 1) {
+                RKLog("%s C-PONG: %s%s%s (%zu)\n", W->name,
+                      rkGlobalParameters.showColor ? RKLimeColor : "",
+                      show,
+                      rkGlobalParameters.showColor ? RKNoColor : "",
+                      size);
+            }
+            break;
+        case RFC6455_OPCODE_PONG:
+            break;
+        case RFC6455_OPCODE_CLOSE:
+            return -1;
+        case RFC6455_OPCODE_CONTINUATION:
+        case RFC6455_OPCODE_TEXT:
+        case RFC6455_OPCODE_BINARY:
+            if (W->fragmented != (h->opcode == RFC6455_OPCODE_CONTINUATION)) {
+                RKLog("%s Error. Unexpected frame.  opcode = %d\n", W->name, h->opcode);
+                return -1;
+            }
+            if (h->fin && !W->fragmented) {
+                if (W->onMessage) {
+                    W->onMessage(W, anchor, size);
+                }
+                break;
+            }
+            // A message in several frames is put together first
+            if (W->messageTotal + size >= RKWebSocketFrameSize) {
+                RKLog("%s Error. Message is too long.\n", W->name);
+                return -1;
+            }
+            memcpy(W->message + W->messageTotal, anchor, size);
+            W->messageTotal += size;
+            W->fragmented = !h->fin;
+            if (h->fin) {
+                W->message[W->messageTotal] = '\0';
+                if (W->onMessage) {
+                    W->onMessage(W, W->message, W->messageTotal);
+                }
+                W->messageTotal = 0;
+            }
+            break;
+        default:
+            break;
+    }
+    return 0;
+}
+
+// Handle all the complete frames received so far, keep the rest for later
+static int RKWebSocketHandleFrames(RKWebSocket *W) {
+    int r = 0;
+    uint8_t c;
+    size_t size;
+    uint32_t k = 0;
+    while (r == 0 && (size = RKWebSocketFrameGetTargetSize(W->frame + k, W->frameTotal - k)) > 0) {
+        if (size > RKWebSocketFrameSize - 1) {
+            RKLog("%s Error. Frame is too long.\n", W->name);
+            return -1;
+        }
+        if (size > W->frameTotal - k) {
+            break;
+        }
+        // The payload is terminated for convenience while it is in use
+        c = W->frame[k + size];
+        W->frame[k + size] = '\0';
+        r = RKWebSocketHandleFrame(W, W->frame + k);
+        W->frame[k + size] = c;
+        k += (uint32_t)size;
+    }
+    if (k > 0) {
+        W->frameTotal -= k;
+        memmove(W->frame, W->frame + k, W->frameTotal);
+    }
+    return r;
+}
+
 #pragma mark - Internal run loops
 
 void *transporter(void *in) {
     RKWebSocket *W = (RKWebSocket *)in;
 
     int i, r;
-    void *anchor = NULL;
-    size_t size, targetFrameSize = 0;
-    ws_frame_header *h = (ws_frame_header *)W->frame;
+    size_t size;
     char words[][5] = {"love", "hope", "cool", "cute", "sexy", "nice", "calm", "wish"};
     char uword[5] = "xxxx";
-    char message[256];
-    char show[256];
+    char message[RKMaximumStringLength];
 
     fd_set rfd;
     fd_set wfd;
     fd_set efd;
     struct timeval timeout;
-    time_t s1, s0;
-
-    uint32_t origin = 0;
-    uint32_t total = 0;
     uint32_t *p32;
+    bool opened;
 
     W->tic = 1;
 
     while (W->wantActive) {
 
-        RKWebSocketConnect(W);
+        opened = RKWebSocketConnect(W) == 0;
+
+        // The first frames may have come with the handshake
+        if (W->connected && RKWebSocketHandleFrames(W) < 0) {
+            W->connected = false;
+        }
 
         // Run loop for read and write
         while (W->wantActive && W->connected) {
@@ -351,10 +531,11 @@ void *transporter(void *in) {
                     if (W->verbose) {
                         fprintf(stderr, "Error. Exceptions during write cycle.\n");
                     }
+                    W->connected = false;
                     break;
                 } else if (FD_ISSET(W->sd, &wfd)) {
                     // Ready to write. Keep sending the payloads until the tail catches up
-                    while (W->payloadTail != W->payloadHead) {
+                    while (W->payloadTail != W->payloadHead && W->wantActive) {
                         uint16_t tail = W->payloadTail == RKWebSocketPayloadDepth - 1 ? 0 : W->payloadTail + 1;
                         const RKWebSocketPayload *payload = &W->payloads[tail];
                         if (W->verbose > 2) {
@@ -366,7 +547,7 @@ void *transporter(void *in) {
                             printf("RKWebSocket.transporter: WRITE \033[38;5;154m%s\033[m (%zu)\n",
                                    message, payload->size);
                         }
-                        size = RKWebSocketFrameEncode(W->frame, RFC6455_OPCODE_BINARY, payload->source, payload->size);
+                        size = RKWebSocketFrameEncode(W->outgoing, RFC6455_OPCODE_BINARY, payload->source, payload->size);
                         r = RKSocketWrite(W, size);
                         if (r < 0) {
                             if (W->verbose) {
@@ -374,21 +555,22 @@ void *transporter(void *in) {
                             }
                             W->connected = false;
                             break;
-                        } else if (r == 0) {
-                            W->connected = false;
-                            break;
                         }
                         W->payloadTail = tail;
                     }
+                    if (!W->connected) {
+                        break;
+                    }
                 } else {
                     // This shall not reach
                     printf("... w\n");
                 }
-            } else if (r < 0) {
+            } else if (r < 0 && errno != EINTR) {
                 // Errors
                 if (W->verbose) {
                     RKLog("%s Error. select() = %d during write cycle\n", W->name, r);
                 }
+                W->connected = false;
                 break;
             }
             //
@@ -396,14 +578,18 @@ void *transporter(void *in) {
             //
             //  wait up to tv_usec if there is nothing left to send
             //
-            size = 0;
             FD_ZERO(&rfd);
             FD_ZERO(&efd);
             FD_SET(W->sd, &rfd);
             FD_SET(W->sd, &efd);
             timeout.tv_sec = 0;
             timeout.tv_usec = W->timeoutDeltaMicroseconds;
-            r = select(W->sd + 1, &rfd, NULL, &efd, &timeout);
+            if (W->useSSL && SSL_pending(W->ssl)) {
+                FD_ZERO(&efd);
+                r = 1;
+            } else {
+                r = select(W->sd + 1, &rfd, NULL, &efd, &timeout);
+            }
             if (r > 0) {
                 if (FD_ISSET(W->sd, &efd)) {
                     // Exceptions
@@ -414,75 +600,46 @@ void *transporter(void *in) {
                     break;
                 } else if (FD_ISSET(W->sd, &rfd)) {
                     // There is something to read
-                    r = RKSocketRead(W, origin, RKWebSocketFrameSize);
+                    r = RKSocketRead(W, W->frameTotal, RKWebSocketFrameSize - 1 - W->frameTotal);
                     if (r <= 0) {
                         if (W->verbose) {
-                            fprintf(stderr, "Error. RKSocketRead() = %d   origin = %u\n", r, origin);
+                            fprintf(stderr, "Error. RKSocketRead() = %d   origin = %u\n", r, W->frameTotal);
                         }
                         W->connected = false;
                         break;
                     }
-                    if (origin == 0) {
-                        targetFrameSize = RKWebSocketFrameGetTargetSize(W->frame);
-                        total = r;
-                    } else {
-                        total += r;
-                    }
-                    if (total < targetFrameSize) {
-                        origin += r;
-                        continue;
-                    } else {
-                        origin = 0;
-                    }
-                    size = RKWebSocketFrameDecode((void **)&anchor, W->frame);
-                    if (!h->fin) {
-                        fprintf(stderr, "I need upgrade!\n"
-                                        "I need upgrade!\n"
-                                        "I need upgrade!\n"
-                                        "I cannot handle frames with h->fin = 0.\n");
-                    }
-                    if (W->verbose > 1) {
-                        if (W->verbose > 2) {
-                            printf("%2u read  ", total); RKShowWebsocketFrameHeader(W);
-                        }
-                        if (size != 4 && h->opcode == RFC6455_OPCODE_PING) {
-                            RKBytesInHex(show, anchor, size);
-                        } else if (size > 32) {
-                            RKHeadTailBytesInHex(show, anchor, size);
-                        } else {
-                            memcpy(show, anchor, size);
-                            show[size] = '\0';
-                        }
-                        RKLog("%s S-%s: %s%s%s (%zu)\n", W->name,
-                              OPCODE_STRING(h->opcode),
-                              rkGlobalParameters.showColor ? RKOrangeColor : "",
-                              show,
-                              rkGlobalParameters.showColor ? RKNoColor : "",
-                              size);
-                    }
+                    W->frameTotal += r;
                     W->timeoutCount = 0;
+                    if (RKWebSocketHandleFrames(W) < 0) {
+                        W->connected = false;
+                        break;
+                    }
                 } else {
                     // This shall not reach
                     printf("... r\n");
                 }
-            } else if (r < 0) {
+            } else if (r < 0 && errno != EINTR) {
                 // Errors
                 if (W->verbose) {
                     RKLog("%s Error. select() = %d during read cycle.\n", W->name, r);
                 }
                 W->connected = false;
                 break;
-            } else {
+            } else if (r == 0) {
                 // Timeout
                 if (W->timeoutCount++ >= W->timeoutThreshold) {
                     W->timeoutCount = 0;
                     char *word = words[rand() % 8];
                     r = RKWebSocketPing(W, word, (int)strlen(word));
+                    if (r < 0) {
+                        W->connected = false;
+                        break;
+                    }
                     if (W->verbose > 1) {
-                        p32 = (uint32_t *)&W->frame[2];
+                        p32 = (uint32_t *)&W->outgoing[2];
                         ws_mask_key key = {.u32 = *p32};
                         for (i = 0; i < 4; i++) {
-                            uword[i] = W->frame[6 + i] ^ key.code[i % 4];
+                            uword[i] = W->outgoing[6 + i] ^ key.code[i % 4];
                         }
                         RKLog("%s C-PING: %s%s%s (%zu)\n", W->name,
                               rkGlobalParameters.showColor ? RKLimeColor : "",
@@ -490,67 +647,27 @@ void *transporter(void *in) {
                               rkGlobalParameters.showColor ? RKNoColor : "",
                               strlen(word));
                         if (W->verbose > 2) {
-                            printf("%s %2d sent  ", W->name, r); RKShowWebsocketFrameHeader(W);
-                        }
-                    }
-                }
-            }
-            // Interpret the payload if something was read
-            if (size > 0) {
-                if (h->opcode == RFC6455_OPCODE_PING) {
-                    // Make a copy since payload --> W->buf or the behavior is unpredictable
-                    memcpy(message, anchor, h->len); message[h->len] = '\0';
-                    RKWebSocketPong(W, message, h->len);
-                    if (W->verbose > 1) {
-                        p32 = (uint32_t *)&W->frame[2];
-                        ws_mask_key key = {.u32 = *p32};
-                        for (i = 0; i < 4; i++) {
-                            uword[i] = W->frame[6 + i] ^ key.code[i % 4];
-                        }
-                        if (h->len != 4) {
-                            RKBytesInHex(show, message, h->len);
-                        } else {
-                            memcpy(show, message, h->len + 1);
-                        }
-                        RKLog("%s C-PONG: %s%s%s (%zu)\n", W->name,
-                              rkGlobalParameters.showColor ? RKLimeColor : "",
-                              show,
-                              rkGlobalParameters.showColor ? RKNoColor : "",
-                              h->len);
-                        if (W->verbose > 2) {
-                            printf("%2d sent  ", r); RKShowWebsocketFrameHeader(W);
+                            printf("%s %2d sent  ", W->name, r); RKShowWebsocketFrameHeader(W->outgoing);
                         }
                     }
-                } else if (h->opcode == RFC6455_OPCODE_PONG) {
-                    W->timeoutCount = 0;
-                } else if (h->opcode == RFC6455_OPCODE_CLOSE) {
-                    W->connected = false;
-                    break;
-                } else if (h->opcode == RFC6455_OPCODE_TEXT || h->opcode == RFC6455_OPCODE_BINARY) {
-                    if (W->onMessage) {
-                        W->onMessage(W, anchor, size);
-                    }
                 }
-                W->timeoutCount = 0;
             }
         } // while (W->wantActive && W->connected) ...
+        W->connected = false;
+        if (opened && W->onClose) {
+            W->onClose(W);
+        }
         if (W->sd) {
             if (W->verbose > 1) {
                 RKLog("%s Closing socket sd = %d ...\n", W->name, W->sd);
             }
-            if (W->onClose) {
-                W->onClose(W);
-            }
             close(W->sd);
             W->sd = 0;
         }
-        s1 = time(NULL);
-        i = 0;
-        do {
-            s0 = time(NULL);
-            r = (int)difftime(s0, s1);
-            if (i != r && W->verbose > 1) {
-                i = r;
+        // Retry in 10 seconds
+        for (i = 0; i < 50 && W->wantActive; i++) {
+            if (i % 5 == 0 && W->verbose > 1) {
+                r = i / 5;
                 if (r > 2) {
                     printf("\r%s No connection. Retry in %d second%s ... ", W->name,
                         10 - r, 10 - r > 1 ? "s" : "");
@@ -560,7 +677,7 @@ void *transporter(void *in) {
                 fflush(stdout);
             }
             usleep(200000);
-        } while (W->wantActive && r < 10);
+        }
         if (W->verbose > 1) {
             printf("\033[1K\r");
         }
@@ -606,14 +723,13 @@ RKWebSocket *RKWebSocketInit(const char *host, const char *path) {
     }
     n = strstr(c, ":");
     if (n == NULL) {
-        W->port = 80;
-        strcpy(W->host, host);
+        W->port = W->useSSL ? 443 : 80;
+        snprintf(W->host, sizeof(W->host), "%s", c);
     } else {
         W->port = atoi(n + 1);
         len = (size_t)(n - c);
         if (len) {
-            strncpy(W->host, c, len);
-            W->host[len] = '\0';
+            snprintf(W->host, sizeof(W->host), "%.*s", (int)len, c);
         } else {
             sprintf(W->host, "localhost");
         }
@@ -625,7 +741,7 @@ RKWebSocket *RKWebSocketInit(const char *host, const char *path) {
     if (path == NULL || strlen(path) == 0) {
         sprintf(W->path, "/");
     } else {
-        strcpy(W->path, path);
+        snprintf(W->path, sizeof(W->path), "%s", path);
     }
     // Establish the SSL context if necessary
     if (W->useSSL) {
@@ -703,6 +819,10 @@ void RKWebSocketStart(RKWebSocket *W) {
 
 void RKWebSocketStop(RKWebSocket *W) {
     pthread_mutex_lock(&W->lock);
+    if (!W->wantActive) {
+        pthread_mutex_unlock(&W->lock);
+        return;
+    }
     W->wantActive = false;
     pthread_mutex_unlock(&W->lock);
     pthread_join(W->threadId, NULL);
@@ -716,12 +836,19 @@ void RKWebSocketWait(RKWebSocket *W) {
 }
 
 // RKWebSocketSend() does not make a copy of the source.
-// The input source must be allocated using malloc() or similar variants.
+// The input source must be allocated using malloc() or similar variants, and stay as is until it is sent.
+// Returns non-zero if the source is too long or if there are too many payloads waiting already.
 int RKWebSocketSend(RKWebSocket *W, void *source, const size_t size) {
     pthread_mutex_lock(&W->lock);
     uint16_t k = W->payloadHead == RKWebSocketPayloadDepth - 1 ? 0 : W->payloadHead + 1;
+    if (k == W->payloadTail || size > RKWebSocketMaximumPayloadSize) {
+        pthread_mutex_unlock(&W->lock);
+        RKLog("%s Error. Unable to queue a payload of %zu bytes.\n", W->name, size);
+        return -1;
+    }
     W->payloads[k].source = source;
     W->payloads[k].size = size;
+    __sync_synchronize();
     W->payloadHead = k;
     pthread_mutex_unlock(&W->lock);
     return 0;
-- 
2.43.0


From 2088cd8762da8a270a3cc55a2d16dadba1d326b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:09 +0000
Subject: [PATCH 33/40] fix: instruments: one reply per command, whole commands
 and actions, health thread joined, malformed messages and sentences dropped

---
 headers/RadarKit/RKHealthRelayNaveen.h |  3 +-
 headers/RadarKit/RKHealthRelayTweeta.h |  3 +-
 headers/RadarKit/RKPedestalPedzy.h     |  5 ++-
 source/RKHealthRelayNaveen.c           | 21 ++++++++--
 source/RKHealthRelayTweeta.c           | 21 ++++++++--
 source/RKPedestalPedzy.c               | 56 +++++++++++++++++++++-----
 source/ext/nmea.c                      | 11 +++--
 7 files changed, 97 insertions(+), 23 deletions(-)

diff --git a/headers/RadarKit/RKHealthRelayNaveen.h b/headers/RadarKit/RKHealthRelayNaveen.h
index 333050b..70271a7 100644
--- a/headers/RadarKit/RKHealthRelayNaveen.h
+++ b/headers/RadarKit/RKHealthRelayNaveen.h
@@ -25,7 +25,8 @@ typedef struct rk_naveen {
     RKClient               *client;
     uint32_t               responseIndex;
     char                   responses[RKHealthRelayNaveenFeedbackDepth][RKMaximumStringLength];
-    char                   latestCommand[RKMaximumCommandLength];
+    char                   latestCommand[RKMaximumCommandLength + sizeof(RKEOL)];
+    pthread_mutex_t        mutex;                                                  // One command at a time
     RKRadar                *radar;
     pthread_t              tidBackground;
     RKByte                 response[RKMaximumStringLength];
diff --git a/headers/RadarKit/RKHealthRelayTweeta.h b/headers/RadarKit/RKHealthRelayTweeta.h
index 714e89a..92819cf 100644
--- a/headers/RadarKit/RKHealthRelayTweeta.h
+++ b/headers/RadarKit/RKHealthRelayTweeta.h
@@ -20,7 +20,8 @@ typedef struct rk_tweeta {
     RKClient               *client;
     uint32_t               responseIndex;
     char                   responses[RKHealthRelayTweetaFeedbackDepth][RKMaximumStringLength];
-    char                   latestCommand[RKMaximumCommandLength];
+    char                   latestCommand[RKMaximumCommandLength + sizeof(RKEOL)];
+    pthread_mutex_t        mutex;                                                  // One command at a time
     RKRadar                *radar;
     bool                   handlingEvent;
     bool                   toggleEvent;
diff --git a/headers/RadarKit/RKPedestalPedzy.h b/headers/RadarKit/RKPedestalPedzy.h
index 5c96ef3..0705ae2 100644
--- a/headers/RadarKit/RKPedestalPedzy.h
+++ b/headers/RadarKit/RKPedestalPedzy.h
@@ -20,7 +20,10 @@ typedef struct rk_pedzy {
     RKClient               *client;
     uint32_t               responseIndex;
     char                   responses[RKPedestalPedzyFeedbackDepth][RKMaximumStringLength];
-    char                   latestCommand[RKMaximumCommandLength];
+    char                   latestCommand[RKMaximumCommandLength + sizeof(RKEOL)];
+    char                   latestAction[64];
+    pthread_mutex_t        mutex;                                                  // One command at a time
+    bool                   active;                                                 // Life of the background thread
     RKRadar                *radar;
     pthread_t              tidBackground;
     RKByte                 response[RKMaximumStringLength];
diff --git a/source/RKHealthRelayNaveen.c b/source/RKHealthRelayNaveen.c
index 8fd8f66..a584cbf 100644
--- a/source/RKHealthRelayNaveen.c
+++ b/source/RKHealthRelayNaveen.c
@@ -52,7 +52,9 @@ static int healthRelayNaveenRead(RKClient *client) {
 }
 
 static int healthRelayNaveenGreet(RKClient *client) {
+    pthread_mutex_lock(&client->lock);
     ssize_t s = RKNetworkSendPackets(client->sd, "\n", 1, NULL);
+    pthread_mutex_unlock(&client->lock);
     if (s < 0) {
         return (int)-s;
     }
@@ -71,6 +73,7 @@ RKHealthRelay RKHealthRelayNaveenInit(RKRadar *radar, void *input) {
     }
     memset(me, 0, sizeof(RKHealthRelayNaveen));
     me->radar = radar;
+    pthread_mutex_init(&me->mutex, NULL);
 
     // What the server is uses a TCP socket at default port 9557. The payload is aywas a line string terminated by \r\n
     RKClientDesc desc;
@@ -128,10 +131,19 @@ int RKHealthRelayNaveenExec(RKHealthRelay input, const char * command, char _Nul
             return RKResultClientNotConnected;
         }
         int s = 0;
+        ssize_t size = strlen(command);
+        if (size > RKMaximumCommandLength) {
+            sprintf(response, "NAK. Command is too long." RKEOL);
+            return RKResultFailedToExecuteCommand;
+        }
+        // The next response is for this command, others have to wait for their turns
+        pthread_mutex_lock(&me->mutex);
         uint32_t responseIndex = me->responseIndex;
-        size_t size = snprintf(me->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
-        RKNetworkSendPackets(client->sd, me->latestCommand, size, NULL);
-        while (responseIndex == me->responseIndex) {
+        size = sprintf(me->latestCommand, "%s" RKEOL, command);
+        pthread_mutex_lock(&client->lock);
+        size = RKNetworkSendPackets(client->sd, me->latestCommand, size, NULL);
+        pthread_mutex_unlock(&client->lock);
+        while (size > 0 && responseIndex == me->responseIndex) {
             usleep(10000);
             if (++s % 100 == 0) {
                 RKLog("%s Waited %.2f s for response to '%s'.\n", client->name, (float)s * 0.01f, command);
@@ -142,10 +154,12 @@ int RKHealthRelayNaveenExec(RKHealthRelay input, const char * command, char _Nul
             }
         }
         if (responseIndex == me->responseIndex) {
+            pthread_mutex_unlock(&me->mutex);
             sprintf(response, "NAK. Timeout." RKEOL);
             return RKResultTimeout;
         }
         strcpy(response, me->responses[responseIndex]);
+        pthread_mutex_unlock(&me->mutex);
     }
     return RKResultSuccess;
 }
@@ -156,6 +170,7 @@ int RKHealthRelayNaveenFree(RKHealthRelay input) {
     }
     RKHealthRelayNaveen *me = (RKHealthRelayNaveen *)input;
     RKClientFree(me->client);
+    pthread_mutex_destroy(&me->mutex);
     free(me);
     return RKResultSuccess;
 }
diff --git a/source/RKHealthRelayTweeta.c b/source/RKHealthRelayTweeta.c
index 69dccb8..ecbc86e 100644
--- a/source/RKHealthRelayTweeta.c
+++ b/source/RKHealthRelayTweeta.c
@@ -58,7 +58,9 @@ static int healthRelayTweetaRead(RKClient *client) {
 }
 
 static int healthRelayTweetaGreet(RKClient *client) {
+    pthread_mutex_lock(&client->lock);
     ssize_t s = RKNetworkSendPackets(client->sd, "\n", 1, NULL);
+    pthread_mutex_unlock(&client->lock);
     if (s < 0) {
         return (int)-s;
     }
@@ -78,6 +80,7 @@ RKHealthRelay RKHealthRelayTweetaInit(RKRadar *radar, void *input) {
     }
     memset(me, 0, sizeof(RKHealthRelayTweeta));
     me->radar = radar;
+    pthread_mutex_init(&me->mutex, NULL);
 
     // Tweeta uses a TCP socket server at port 9556. The payload is always a line string terminated by \r\n
     RKClientDesc desc;
@@ -135,10 +138,19 @@ int RKHealthRelayTweetaExec(RKHealthRelay input, const char *command, char _Null
             return RKResultClientNotConnected;
         }
         int s = 0;
+        ssize_t size = strlen(command);
+        if (size > RKMaximumCommandLength) {
+            sprintf(response, "NAK. Command is too long." RKEOL);
+            return RKResultFailedToExecuteCommand;
+        }
+        // The next response is for this command, others have to wait for their turns
+        pthread_mutex_lock(&me->mutex);
         uint32_t responseIndex = me->responseIndex;
-        size_t size = snprintf(me->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
-        RKNetworkSendPackets(client->sd, me->latestCommand, size, NULL);
-        while (responseIndex == me->responseIndex) {
+        size = sprintf(me->latestCommand, "%s" RKEOL, command);
+        pthread_mutex_lock(&client->lock);
+        size = RKNetworkSendPackets(client->sd, me->latestCommand, size, NULL);
+        pthread_mutex_unlock(&client->lock);
+        while (size > 0 && responseIndex == me->responseIndex) {
             usleep(10000);
             if (++s % 100 == 0) {
                 RKLog("%s Waited %.2f s for response to '%s'.\n", client->name, (float)s * 0.01f, command);
@@ -149,10 +161,12 @@ int RKHealthRelayTweetaExec(RKHealthRelay input, const char *command, char _Null
             }
         }
         if (responseIndex == me->responseIndex) {
+            pthread_mutex_unlock(&me->mutex);
             sprintf(response, "NAK. Timeout." RKEOL);
             return RKResultTimeout;
         }
         strcpy(response, me->responses[responseIndex]);
+        pthread_mutex_unlock(&me->mutex);
     }
     return RKResultSuccess;
 }
@@ -163,6 +177,7 @@ int RKHealthRelayTweetaFree(RKHealthRelay input) {
     }
     RKHealthRelayTweeta *me = (RKHealthRelayTweeta *)input;
     RKClientFree(me->client);
+    pthread_mutex_destroy(&me->mutex);
     free(me);
     return RKResultSuccess;
 }
diff --git a/source/RKPedestalPedzy.c b/source/RKPedestalPedzy.c
index 99bcbc5..cc05435 100644
--- a/source/RKPedestalPedzy.c
+++ b/source/RKPedestalPedzy.c
@@ -13,11 +13,15 @@
 
 #pragma mark - Internal Functions
 
-static ssize_t pedestalPedzySendAction(int sd, char *ship, RKScanAction *act) {
+static ssize_t pedestalPedzySendAction(RKPedestalPedzy *me, RKScanAction *act) {
+    char *ship = me->latestAction;
     sprintf(ship, "%c", 0x0f);
     memcpy(ship + 1, act, sizeof(RKScanAction));
     strncpy(ship + 1 + sizeof(RKScanAction), RKEOL, 3);
-    return RKNetworkSendPackets(sd, ship, sizeof(RKScanAction) + 3, NULL);
+    pthread_mutex_lock(&me->client->lock);
+    const ssize_t r = RKNetworkSendPackets(me->client->sd, ship, sizeof(RKScanAction) + 3, NULL);
+    pthread_mutex_unlock(&me->client->lock);
+    return r;
 }
 
 static int pedestalPedzyRead(RKClient *client) {
@@ -29,6 +33,10 @@ static int pedestalPedzyRead(RKClient *client) {
     RKSteerEngine *steerEngine = radar->steerEngine;
 
     if (client->netDelimiter.type == 'p') {
+        if (client->netDelimiter.size != sizeof(RKPosition)) {
+            RKLog("%s Error. Unexpected position of %u bytes.\n", client->name, client->netDelimiter.size);
+            return RKResultFailedToGetVacantPosition;
+        }
         // The payload just read by RKClient
         RKPosition *position = (RKPosition *)client->userPayload;
         if (radar->desc.initFlags & RKInitFlagVeryVeryVerbose) {
@@ -86,7 +94,7 @@ static int pedestalPedzyRead(RKClient *client) {
         RKSetPositionReady(radar, newPosition);
 
         if (action->mode[0] & RKPedestalInstructTypeModeMask) {
-            pedestalPedzySendAction(client->sd, me->latestCommand, action);
+            pedestalPedzySendAction(me, action);
         }
 
     } else {
@@ -107,7 +115,9 @@ static int pedestalPedzyRead(RKClient *client) {
 }
 
 static int pedestalPedzyGreet(RKClient *client) {
+    pthread_mutex_lock(&client->lock);
     ssize_t s = RKNetworkSendPackets(client->sd, "\n", 1, NULL);
+    pthread_mutex_unlock(&client->lock);
     if (s < 0) {
         return (int)-s;
     }
@@ -133,7 +143,7 @@ static void *pedestalPedzyHealth(void *in) {
     char elPosition[16];
     RKStatusEnum azEnum;
     RKStatusEnum elEnum;
-    while (me->client->state < RKClientStateDisconnecting) {
+    while (me->active && me->client->state < RKClientStateDisconnecting) {
         if (me->client->state < RKClientStateConnected) {
             azInterlockStatus = RKStatusEnumInvalid;
             elInterlockStatus = RKStatusEnumInvalid;
@@ -153,8 +163,8 @@ static void *pedestalPedzyHealth(void *in) {
             } else {
                 vcpStatusEnum = RKStatusEnumStandby;
             }
-            sprintf(elPosition, "%.2f deg", position->elevationDegrees);
-            sprintf(azPosition, "%.2f deg", position->azimuthDegrees);
+            snprintf(elPosition, sizeof(elPosition), "%.2f deg", position->elevationDegrees);
+            snprintf(azPosition, sizeof(azPosition), "%.2f deg", position->azimuthDegrees);
             azEnum = RKStatusEnumNormal;
             elEnum = RKStatusEnumNormal;
         }
@@ -184,6 +194,13 @@ static void *pedestalPedzyHealth(void *in) {
     return (void *)NULL;
 }
 
+static void pedestalPedzyStopHealth(RKPedestalPedzy *me) {
+    if (me->active) {
+        me->active = false;
+        pthread_join(me->tidBackground, NULL);
+    }
+}
+
 #pragma mark - Protocol Implementations
 
 RKPedestal RKPedestalPedzyInit(RKRadar *radar, void *input) {
@@ -194,6 +211,7 @@ RKPedestal RKPedestalPedzyInit(RKRadar *radar, void *input) {
     }
     memset(me, 0, sizeof(RKPedestalPedzy));
     me->radar = radar;
+    pthread_mutex_init(&me->mutex, NULL);
 
     // Pedzy uses a TCP socket server at port 9000.
     RKClientDesc desc;
@@ -225,9 +243,12 @@ RKPedestal RKPedestalPedzyInit(RKRadar *radar, void *input) {
     RKClientSetReceiveHandler(me->client, &pedestalPedzyRead);
     RKClientStart(me->client, false);
 
+    me->active = true;
     if (pthread_create(&me->tidBackground, NULL, pedestalPedzyHealth, me) != 0) {
         RKLog("%s Error. Failed to start a pedestal monitor.\n", me->client->name);
-        return (void *)RKResultFailedToStartPedestalMonitor;
+        me->active = false;
+        RKPedestalPedzyFree(me);
+        return NULL;
     }
 
     return (RKPedestal)me;
@@ -246,6 +267,7 @@ int RKPedestalPedzyExec(RKPedestal input, const char *command, char _Nullable *r
 
     if (!strcmp(command, "disconnect")) {
         RKClientStop(client);
+        pedestalPedzyStopHealth(me);
     } else {
         if (client->verbose) {
             RKLog("%s Current client->state = 0x%08x   command = '%s'", client->name, client->state, command);
@@ -256,10 +278,19 @@ int RKPedestalPedzyExec(RKPedestal input, const char *command, char _Nullable *r
             return RKResultClientNotConnected;
         }
         int s = 0;
+        ssize_t size = strlen(command);
+        if (size > RKMaximumCommandLength) {
+            sprintf(response, "NAK. Command is too long." RKEOL);
+            return RKResultFailedToExecuteCommand;
+        }
+        // The next response is for this command, others have to wait for their turns
+        pthread_mutex_lock(&me->mutex);
         uint32_t responseIndex = me->responseIndex;
-        size_t size = snprintf(me->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
-        RKNetworkSendPackets(client->sd, me->latestCommand, size, NULL);
-        while (responseIndex == me->responseIndex) {
+        size = sprintf(me->latestCommand, "%s" RKEOL, command);
+        pthread_mutex_lock(&client->lock);
+        size = RKNetworkSendPackets(client->sd, me->latestCommand, size, NULL);
+        pthread_mutex_unlock(&client->lock);
+        while (size > 0 && responseIndex == me->responseIndex) {
             usleep(10000);
             if (++s % 100 == 0) {
                 RKLog("%s Waited %.2f s for response to '%s'.\n", client->name, (float)s * 0.01f, command);
@@ -270,10 +301,12 @@ int RKPedestalPedzyExec(RKPedestal input, const char *command, char _Nullable *r
             }
         }
         if (responseIndex == me->responseIndex) {
+            pthread_mutex_unlock(&me->mutex);
             sprintf(response, "NAK. Timeout." RKEOL);
             return RKResultTimeout;
         }
         strcpy(response, me->responses[responseIndex]);
+        pthread_mutex_unlock(&me->mutex);
     }
     return RKResultSuccess;
 }
@@ -283,7 +316,10 @@ int RKPedestalPedzyFree(RKPedestal input) {
         return RKResultNoRadar;
     }
     RKPedestalPedzy *me = (RKPedestalPedzy *)input;
+    RKClientStop(me->client);
+    pedestalPedzyStopHealth(me);
     RKClientFree(me->client);
+    pthread_mutex_destroy(&me->mutex);
     free(me);
     return RKResultSuccess;
 }
diff --git a/source/ext/nmea.c b/source/ext/nmea.c
index 64c50c1..df975db 100644
--- a/source/ext/nmea.c
+++ b/source/ext/nmea.c
@@ -43,6 +43,9 @@ static int nmea_checksum(const char *sentence) {
     for (i = 1; i < strlen(sentence) && sentence[i] != '*'; i++) {
         c ^= sentence[i];
     }
+    if (sentence[i] != '*') {
+        return -1;
+    }
     char ic = strtol(sentence + i + 1, NULL, 16);
     return (int)(ic - c);
 }
@@ -74,7 +77,7 @@ static void tokenize_nmea_gpgga_sentence(char *sentence, nmea_data_t *out) {
         // The field is contained between *s and *e
         len = (size_t)((long)e - (long)s) - 1;
         if (len) {
-            strncpy(token, s + 1, len);
+            strncpy(token, s + 1, len < sizeof(token) ? len : sizeof(token) - 1);
         }
         // convert the second token to UTC time
         if (i == 0) {
@@ -136,7 +139,7 @@ static void tokenize_nmea_gphdt_sentence(char *sentence, nmea_data_t *out) {
         // The field is contained between *s and *e
         len = (size_t)((long)e - (long)s) - 1;
         if (len) {
-            strncpy(token, s + 1, len);
+            strncpy(token, s + 1, len < sizeof(token) ? len : sizeof(token) - 1);
         }
         // convert the second token to heading
         if (i == 0) {
@@ -169,7 +172,7 @@ static void tokenize_nmea_gpvtg_sentence(char *sentence, nmea_data_t *out) {
         // The field is contained between *s and *e
         len = (size_t)((long)e - (long)s) - 1;
         if (len) {
-            strncpy(token, s + 1, len);
+            strncpy(token, s + 1, len < sizeof(token) ? len : sizeof(token) - 1);
         }
         if (i == 0) {
             true_bearing = atof(token);
@@ -229,7 +232,7 @@ static void tokenize_nmea_gprmc_sentence(char *sentence, nmea_data_t *out) {
         // The field is contained between *s and *e
         len = (size_t)((long)e - (long)s) - 1;
         if (len) {
-            strncpy(token, s + 1, len);
+            strncpy(token, s + 1, len < sizeof(token) ? len : sizeof(token) - 1);
         }
         // convert the second token to UTC time
         if (i == 0) {
-- 
2.43.0


From c37e5570cf178b66f3bf126a780a81d1f57790e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:09 +0000
Subject: [PATCH 34/40] fix: raw data recorder must not touch the status of
 pulses that others are working on

---
 source/RKRawDataRecorder.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 3ffc4a9..d236d41 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -86,6 +86,7 @@ static void *pulseRecorder(void *in) {
     bool record = engine->record, wantRecord;
 
     RKPulse *pulse;
+    RKPulseStatus *status;
     RKConfig *config;
     RKWaveform *waveform;
 
@@ -282,15 +283,21 @@ static void *pulseRecorder(void *in) {
 
         if (cacheFlushCount != engine->cacheFlushCount) {
             cacheFlushCount = engine->cacheFlushCount;
+            // Only those that are still in the buffer; beyond them are the pulses that others are working on
+            s = (int)(engine->radarDescription->pulseBufferDepth - engine->radarDescription->pulseBufferDepth / 8)
+              - (int)((*engine->pulseIndex + engine->radarDescription->pulseBufferDepth - k) % engine->radarDescription->pulseBufferDepth);
             i = k;
-            while (pulseCount > 0) {
+            while (pulseCount > 0 && s > 0) {
                 pulseCount--;
+                s--;
                 i = RKPreviousModuloS(i, engine->radarDescription->pulseBufferDepth);
                 pulse = RKGetPulseFromBuffer(engine->pulseBuffer, i);
                 if (pulse->header.s != RKPulseStatusVacant) {
-                    pulse->header.s |= RKPulseStatusRecorded;
+                    status = (RKPulseStatus *)&pulse->header.s;
+                    __sync_fetch_and_or(status, RKPulseStatusRecorded);
                 }
             }
+            pulseCount = 0;
         }
 
         // Log a message if it has been a while
-- 
2.43.0


From a76767a12f968c407f431a0243871eb31add07c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:51 +0000
Subject: [PATCH 35/40] fix: the hub reporter keeps payloads until they are
 sent, follows the buffers by index, bounds its replies and can always be
 stopped

---
 headers/RadarKit/RKReporter.h |   2 +
 source/RKReporter.c           | 206 ++++++++++++++++++++++++----------
 source/RKWebSocket.c          |   6 +-
 3 files changed, 152 insertions(+), 62 deletions(-)

diff --git a/headers/RadarKit/RKReporter.h b/headers/RadarKit/RKReporter.h
index 58fe7be..b2a3810 100644
--- a/headers/RadarKit/RKReporter.h
+++ b/headers/RadarKit/RKReporter.h
@@ -24,6 +24,8 @@ typedef struct rk_reporter {
     char                             message[RKMaximumStringLength];
     char                             scratch[RKMaximumStringLength];
     char                             payload[4][PAYLOAD_CAPACITY];
+    size_t                           payloadOffset[3];
+    uint32_t                         replyIndex;
     int                              verbose;
     RKRadar                          *radar;
 
diff --git a/source/RKReporter.c b/source/RKReporter.c
index cc1b745..13720c6 100644
--- a/source/RKReporter.c
+++ b/source/RKReporter.c
@@ -25,6 +25,31 @@ static void disconnectStreams(RKReporter *engine) {
     }
 }
 
+//
+// RKWebSocketSend() keeps a reference of the payload, which must stay as is until it is sent
+// The payloads are put one after another, and start over when all of them have been sent
+//
+static void *vacantPayload(RKReporter *engine, const int k, const size_t size) {
+    RKWebSocket *W = engine->ws;
+    const uint16_t head = W->payloadHead;
+    const uint16_t tail = W->payloadTail;
+    const int pending = head >= tail ? head - tail : head + RKWebSocketPayloadDepth - tail;
+    if (pending == 0) {
+        memset(engine->payloadOffset, 0, sizeof(engine->payloadOffset));
+    }
+    // Leave some room for the replies to incoming messages
+    if (pending > RKWebSocketPayloadDepth / 8 || engine->payloadOffset[k] + size > PAYLOAD_CAPACITY) {
+        return NULL;
+    }
+    return engine->payload[k] + engine->payloadOffset[k];
+}
+
+static void sendPayload(RKReporter *engine, const int k, void *payload, const size_t size) {
+    if (RKWebSocketSend(engine->ws, payload, size) == 0) {
+        engine->payloadOffset[k] += size;
+    }
+}
+
 #pragma mark - Busy Loop
 
 void *reporter(void *in) {
@@ -39,8 +64,10 @@ void *reporter(void *in) {
     int count;
     int k;
 
-    char *message = engine->message;
-    void *payload = NULL;
+    char *message = engine->scratch;
+    char *payload = NULL;
+    uint64_t identifier;
+    uint32_t status;
 
     int16_t *y;
 
@@ -54,9 +81,9 @@ void *reporter(void *in) {
 
     RKRadarHubRay *display;
 
-    do {
+    while (engine->ws->tic < 1 && engine->state & RKEngineStateWantActive) {
         usleep(10000);
-    } while (engine->ws->tic < 1);
+    }
 
     RKLog("%s Started.  mem = %s B\n", engine->name, RKIntegerToCommaStyleString(engine->memoryUsage));
 
@@ -76,28 +103,37 @@ void *reporter(void *in) {
                     }
                 }
 
-                health = &radar->healths[h];
-
-                if (health->flag & RKHealthFlagReady) {
-                    if (h % engine->healthStride) {
-                        usleep(1);
-                    } else {
+                while (h != radar->healthIndex && engine->ws->connected && engine->state & RKEngineStateWantActive) {
+                    health = &radar->healths[h];
+                    status = health->flag;
+                    if (!(status & RKHealthFlagReady)) {
+                        break;
+                    }
+                    if (h % engine->healthStride == 0) {
                         // Use payload 0 as target
-                        payload = engine->payload[0];
+                        payload = vacantPayload(engine, 0, 1 + RKMaximumStringLength);
+                        if (payload == NULL) {
+                            break;
+                        }
                         // Put together the health payload for RadarHub
-                        snprintf(payload, PAYLOAD_CAPACITY, "%c%s", RKRadarHubTypeHealth, health->string);
-                        payload_size = 1 + strlen((char *)(payload + 1));
+                        identifier = health->i;
+                        payload_size = snprintf(payload, 1 + RKMaximumStringLength, "%c%s", RKRadarHubTypeHealth, health->string);
                         if (engine->verbose > 1) {
                             if (payload_size < 64) {
                                 RKBinaryString(message, payload, payload_size);
                             } else {
                                 RKHeadTailBinaryString(message, payload, payload_size);
                             }
-                            RKLog("%s H%04d %s (%zu)", engine->name, h, message, payload_size);
+                            RKLog("%s H%04d %s (%zu)\n", engine->name, h, message, payload_size);
+                        }
+                        __sync_synchronize();
+                        // Only if the slot has not been recycled in the meantime
+                        if (health->i == identifier && health->flag & RKHealthFlagReady) {
+                            sendPayload(engine, 0, payload, payload_size);
                         }
-                        RKWebSocketSend(engine->ws, payload, payload_size);
                     }
-                    health->flag |= RKHealthFlagUsed;
+                    // The slot may be set vacant in the meantime
+                    __sync_bool_compare_and_swap(&health->flag, status, status | RKHealthFlagUsed);
                     h = RKNextModuloS(h, radar->desc.healthBufferDepth);
                 }
             }
@@ -113,17 +149,21 @@ void *reporter(void *in) {
                     }
                 }
 
-                pulse = RKGetPulseFromBuffer(radar->pulses, p);
-
-                if (pulse->header.s & RKPulseStatusHasIQData) {
-                    if (p % engine->pulseStride) {
-                        usleep(1);
-                    } else {
+                while (p != radar->pulseIndex && engine->ws->connected && engine->state & RKEngineStateWantActive) {
+                    pulse = RKGetPulseFromBuffer(radar->pulses, p);
+                    if (!(pulse->header.s & RKPulseStatusHasIQData)) {
+                        break;
+                    }
+                    if (p % engine->pulseStride == 0) {
                         // Use payload 1 as target
-                        payload = engine->payload[1];
+                        payload = vacantPayload(engine, 1, sizeof(uint8_t) + 4 * 200 * sizeof(int16_t));
+                        if (payload == NULL) {
+                            break;
+                        }
                         // Put together the payload for RadarHub
+                        identifier = pulse->header.i;
                         count = MIN(200, pulse->header.gateCount);
-                        *(char *)payload = RKRadarHubTypeScope;
+                        *payload = RKRadarHubTypeScope;
                         payload_size = sizeof(uint8_t) + 4 * count * sizeof(int16_t);
                         xh = RKGetInt16CDataFromPulse(pulse, 0);
                         xv = RKGetInt16CDataFromPulse(pulse, 1);
@@ -137,16 +177,21 @@ void *reporter(void *in) {
                             xv++;
                             y++;
                         }
-                        *(y            ) = -1;
-                        *(y + count    ) = 1;
-                        *(y + count * 2) = -1;
-                        *(y + count * 3) = 1;
-
+                        if (count > 0) {
+                            *(y            ) = -1;
+                            *(y + count    ) = 1;
+                            *(y + count * 2) = -1;
+                            *(y + count * 3) = 1;
+                        }
                         if (engine->verbose > 1) {
                             RKRadarHubPayloadString(message, payload, payload_size);
                             RKLog("%s P%04d %s (%zu)\n", engine->name, p, message, payload_size);
                         }
-                        RKWebSocketSend(engine->ws, payload, payload_size);
+                        __sync_synchronize();
+                        // Only if the slot has not been recycled in the meantime
+                        if (pulse->header.i == identifier && pulse->header.s & RKPulseStatusHasIQData) {
+                            sendPayload(engine, 1, payload, payload_size);
+                        }
                     }
                     // The following line causes a horse raise issue. Don't want to use mutex for pulses
                     // pulse->header.s |= RKPulseStatusStreamed;
@@ -156,7 +201,6 @@ void *reporter(void *in) {
 
             // Product Display Data
             #pragma mark Product Display
-            payload = engine->payload[2];
             if (engine->streams & RKStreamDisplayAll) {
                 if ((engine->streamsInProgress & RKStreamDisplayAll) != (engine->streams & RKStreamDisplayAll)) {
                     engine->streamsInProgress |= (engine->streams & RKStreamDisplayAll);
@@ -166,17 +210,25 @@ void *reporter(void *in) {
                     }
                 }
 
-                ray = RKGetRayFromBuffer(radar->rays, r);
-
-                if (ray->header.s & RKRayStatusReady) {
-                    if (r % engine->rayStride) {
-                        usleep(1);
-                    } else {
+                while (r != radar->rayIndex && engine->ws->connected && engine->state & RKEngineStateWantActive) {
+                    ray = RKGetRayFromBuffer(radar->rays, r);
+                    status = ray->header.s;
+                    if (!(status & RKRayStatusReady)) {
+                        break;
+                    }
+                    if (r % engine->rayStride == 0) {
+                        // Use payload 2 as target
+                        payload = vacantPayload(engine, 2, sizeof(RKRadarHubRayHeader) + 200 * sizeof(RKByte));
+                        if (payload == NULL) {
+                            break;
+                        }
                         // Use a ray pointer for convenience
                         display = (RKRadarHubRay *)payload;
                         // Put together the ray for RadarHub
+                        identifier = ray->header.i;
                         count = MIN(200, ray->header.gateCount);
                         // T, Es, Ee, As, Ae, _, Z0, Z1, Z2, ...
+                        memset(&display->header, 0, sizeof(RKRadarHubRayHeader));
                         display->header.type = RKRadarHubTypeRadialZ;
                         display->header.startElevation = ray->header.startElevation;
                         display->header.endElevation = ray->header.endElevation;
@@ -189,16 +241,18 @@ void *reporter(void *in) {
                             RKRadarHubPayloadString(message, payload, payload_size);
                             RKLog("%s R%04d %s (%zu)\n", engine->name, r, message, payload_size);
                         }
-                        RKWebSocketSend(engine->ws, payload, payload_size);
+                        __sync_synchronize();
+                        // Only if the slot has not been recycled in the meantime
+                        if (ray->header.i == identifier && ray->header.s & RKRayStatusReady) {
+                            sendPayload(engine, 2, payload, payload_size);
+                        }
                     }
-                    ray->header.s |= RKRayStatusStreamed;
+                    // The slot may be set vacant in the meantime
+                    __sync_bool_compare_and_swap(&ray->header.s, status, status | RKRayStatusStreamed);
                     r = RKNextModuloS(r, radar->desc.rayBufferDepth);
                 }
             }
 
-            // Others
-            payload = engine->payload[3];
-
         } else {
 
             disconnectStreams(engine);
@@ -282,9 +336,7 @@ void handleOpen(RKWebSocket *W) {
 
 void handleClose(RKWebSocket *W) {
     RKReporter *engine = (RKReporter *)W->parent;
-    if (engine->state & RKEngineStateActive) {
-        engine->state ^= RKEngineStateActive;
-    }
+    engine->connected = false;
     if (engine->verbose > 1) {
         RKLog("%s RKReporter.handleClose()\n", engine->name);
     }
@@ -318,19 +370,33 @@ void handleMessage(RKWebSocket *W, void *payload, size_t size) {
         RKLog("%s %s\n", engine->name, message);
     }
 
+    // Payload 3 has a number of replies, which must stay as they are until they are sent
+    const uint16_t head = W->payloadHead;
+    const uint16_t tail = W->payloadTail;
+    const int pending = head >= tail ? head - tail : head + RKWebSocketPayloadDepth - tail;
+    const uint32_t depth = PAYLOAD_CAPACITY / RKMaximumStringLength;
+    if (pending >= depth - 1) {
+        RKLog("%s Error. Too many replies are waiting.\n", engine->name);
+        return;
+    }
+    char *reply = engine->payload[3] + engine->replyIndex * RKMaximumStringLength;
+
     int c = rand() % 3;
-    int r = sprintf(engine->message, "%c%c%s",
-                    RKRadarHubTypeResponse,
-                    c == 0 ? 'A' : (c == 1 ? 'Q' : 'N'),
-                    message);
+    int r = snprintf(reply, RKMaximumStringLength, "%c%c%s",
+                     RKRadarHubTypeResponse,
+                     c == 0 ? 'A' : (c == 1 ? 'Q' : 'N'),
+                     message);
+    r = MIN(r, RKMaximumStringLength - 1);
     RKLog("%s %s%s%s\n", engine->name,
           rkGlobalParameters.showColor ? (c == 0 ? RKMonokaiGreen :
                                           (c == 1 ? RKBaseGreenColor : RKMonokaiOrange)) : "",
-          engine->message,
+          reply,
           rkGlobalParameters.showColor ? RKNoColor : "");
 
     // Repeat the incoming message with prefix 'A', 'Q', or 'N'
-    RKWebSocketSend(W, engine->message, r);
+    if (RKWebSocketSend(W, reply, r) == 0) {
+        engine->replyIndex = RKNextModuloS(engine->replyIndex, depth);
+    }
 }
 
 #pragma mark - Life Cycle
@@ -349,7 +415,7 @@ RKReporter *RKReporterInitWithHost(const char *host) {
     engine->pulseStride = 10;
     engine->rayStride = 1;
     engine->memoryUsage = sizeof(RKReporter);
-    if (strlen(host) == 0 || host == NULL) {
+    if (host == NULL || strlen(host) == 0) {
         // sprintf(engine->host, "http://localhost:8000");
         sprintf(engine->host, "nohost");
     } else {
@@ -373,6 +439,9 @@ RKReporter *RKReporterInit(void) {
 }
 
 void RKReporterFree(RKReporter *engine) {
+    if (engine->state & RKEngineStateWantActive) {
+        RKReporterStop(engine);
+    }
     if (engine->ws) {
         RKWebSocketFree(engine->ws);
     }
@@ -396,7 +465,13 @@ void RKReporterSetRadar(RKReporter *engine, RKRadar *radar) {
     if (engine->verbose > 1) {
         RKLog("%s Setting up radar %s (%s @ %s)\n", engine->name, radar->desc.name, engine->host, engine->address);
     }
+    if (engine->ws) {
+        RKWebSocketFree(engine->ws);
+    }
     engine->ws = RKWebSocketInit(engine->host, engine->address);
+    if (engine->ws == NULL) {
+        return;
+    }
     RKWebSocketSetOpenHandler(engine->ws, &handleOpen);
     RKWebSocketSetCloseHandler(engine->ws, &handleClose);
     RKWebSocketSetMessageHandler(engine->ws, &handleMessage);
@@ -412,32 +487,43 @@ void RKReporterStart(RKReporter *engine) {
         RKLog(">%s Not running until it is official\n", engine->name);
         return;
     }
+    if (engine->ws == NULL || engine->radar == NULL) {
+        RKLog("%s Error. No radar to report.\n", engine->name);
+        return;
+    }
+    if (engine->state & RKEngineStateWantActive) {
+        return;
+    }
     RKLog(">%s host = %s%s:%d%s%s\n", engine->name,
           rkGlobalParameters.showColor ? (engine->ws->useSSL ? RKMonokaiGreen : RKMonokaiYellow) : "",
           engine->ws->host, engine->ws->port, engine->ws->path,
           rkGlobalParameters.showColor ? RKNoColor : "");
     RKWebSocketStart(engine->ws);
+    if (!engine->ws->wantActive) {
+        RKLog("%s Error. Failed to start the connection.\n", engine->name);
+        return;
+    }
     engine->state |= RKEngineStateWantActive;
     if (pthread_create(&engine->ticWorker, NULL, reporter, engine)) {
         RKLog("%s Error. Failed to create reporter().\n", engine->name);
+        engine->state &= ~RKEngineStateWantActive;
+        RKWebSocketStop(engine->ws);
         return;
     }
-    do {
+    while (engine->state & RKEngineStateWantActive && !(engine->state & RKEngineStateActive)) {
         usleep(10000);
-    } while (engine->state & RKEngineStateWantActive && !(engine->state & RKEngineStateActive));
+    }
 }
 
 void RKReporterStop(RKReporter *engine) {
     if (engine->verbose) {
         RKLog("%s Stopping ...\n", engine->name);
     }
-    if (engine->state & RKEngineStateWantActive) {
-        engine->state ^= RKEngineStateWantActive;
+    if (!(engine->state & RKEngineStateWantActive)) {
+        return;
     }
-    int s = 0;
-    do {
-        usleep(10000);
-    } while (engine->state & RKEngineStateActive && s++ < 300);
+    engine->state &= ~RKEngineStateWantActive;
+    pthread_join(engine->ticWorker, NULL);
     if (engine->ws->wantActive) {
         RKLog("%s Disconnecting %s:%s ...\n", engine->name, engine->ws->host, engine->ws->path);
         RKWebSocketStop(engine->ws);
diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 44ad213..2230517 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -534,8 +534,9 @@ void *transporter(void *in) {
                     W->connected = false;
                     break;
                 } else if (FD_ISSET(W->sd, &wfd)) {
-                    // Ready to write. Keep sending the payloads until the tail catches up
-                    while (W->payloadTail != W->payloadHead && W->wantActive) {
+                    // Ready to write. Keep sending the payloads until the tail catches up with those that are here now, the others wait for a read
+                    const uint16_t head = W->payloadHead;
+                    while (W->payloadTail != head && W->wantActive) {
                         uint16_t tail = W->payloadTail == RKWebSocketPayloadDepth - 1 ? 0 : W->payloadTail + 1;
                         const RKWebSocketPayload *payload = &W->payloads[tail];
                         if (W->verbose > 2) {
@@ -813,6 +814,7 @@ void RKWebSocketStart(RKWebSocket *W) {
     pthread_mutex_unlock(&W->lock);
     if (pthread_create(&W->threadId, &W->threadAttributes, transporter, W)) {
         fprintf(stderr, "Unable to launch a run loop\n");
+        W->wantActive = false;
     }
     return;
 }
-- 
2.43.0


From 3dea9c6f4714fc47a13ea430640e67f2de536164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:18 +0000
Subject: [PATCH 36/40] fix: files of waveforms, raw data and preferences that
 are torn, unwritable or oversized are refused instead of misread

---
 source/RKFileHeader.c |  4 +++
 source/RKFoundation.c | 14 +++++++++--
 source/RKPreference.c | 15 +++++++++---
 source/RKWaveform.c   | 57 +++++++++++++++++++++++++++++++++----------
 4 files changed, 72 insertions(+), 18 deletions(-)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 85eaca0..7ef9fb4 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -90,6 +90,10 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         free(fileHeaderV1);
     } else {
         RKWaveform *waveform = RKWaveformReadFromReference(fid);
+        if (waveform == NULL) {
+            RKLog("Error. Failed reading waveform from file header.\n");
+            exit(EXIT_FAILURE);
+        }
         fileHeader->config.waveform = waveform;
         fileHeader->config.waveformDecimate = RKWaveformCopy(waveform);
         RKWaveformDecimate(fileHeader->config.waveformDecimate, fileHeader->desc.pulseToRayRatio);
diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 1acf18a..ff28dbf 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1217,7 +1217,7 @@ int RKReadPulseFromFileReference(RKPulse *pulse, RKFileHeader *fileHeader, FILE
             pulse->header.n = headerV1->n;
             pulse->header.t = headerV1->t;
             pulse->header.gateCount = headerV1->gateCount;
-            pulse->header.downSampledGateCount = header->downSampledGateCount;
+            pulse->header.downSampledGateCount = headerV1->downSampledGateCount;
             pulse->header.pulseWidthSampleCount = headerV1->pulseWidthSampleCount;
             pulse->header.marker = headerV1->marker;
             pulse->header.time = headerV1->time;
@@ -1271,6 +1271,13 @@ int RKReadPulseFromFileReference(RKPulse *pulse, RKFileHeader *fileHeader, FILE
         pulse->header.capacity = capacity;
         RKLog("Warning. Pulse capacity restored.\n");
     }
+    if (pulse->header.gateCount > capacity || pulse->header.downSampledGateCount > capacity) {
+        RKLog("Error in RKReadPulseFromFileReference() gateCount = %s / %s > %s\n",
+              RKIntegerToCommaStyleString(pulse->header.gateCount),
+              RKIntegerToCommaStyleString(pulse->header.downSampledGateCount),
+              RKIntegerToCommaStyleString(capacity));
+        return RKResultTooBig;
+    }
     // Pulse payload: H and V data into channels 0 and 1, respectively. Duplicate to split-complex storage
     for (j = 0; j < 2; j++) {
         if (fileHeader->dataType == RKRawDataTypeFromTransceiver) {
@@ -2041,9 +2048,12 @@ void RKParseQuotedStrings(const char *source, ...) {
         q = *s++;
         // Look for the ending quote
         e = s;
-        while (*e != q && *e != q) {
+        while (*e != q && *e != '\0') {
             e++;
         }
+        if (*e == '\0') {
+            break;
+        }
         length = (size_t)(e - s);
         strncpy(string, s, length);
         string[length] = '\0';
diff --git a/source/RKPreference.c b/source/RKPreference.c
index 2f0fad1..1364e52 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -47,6 +47,8 @@ int RKPreferenceUpdate(RKPreference *preference) {
     }
     memset(preference->objects, 0, RKPreferenceObjectCount * sizeof(RKPreferenceObject));
     preference->count = 0;
+    preference->previousIndex = 0;
+    preference->previousKeyword[0] = '\0';
 
     char *line = (char *)malloc(RKMaximumStringLength);
 
@@ -74,7 +76,9 @@ int RKPreferenceUpdate(RKPreference *preference) {
             while (*s != '\0' && (*s != ' ' && *s != '\t')) {
                 s++;
             }
-            *s++ = '\0';
+            if (*s != '\0') {
+                *s++ = '\0';
+            }
             // Now, find the first character
             while (*s != '\0' && (*s == ' ' || *s == '\t')) {
                 s++;
@@ -136,6 +140,7 @@ int RKPreferenceUpdate(RKPreference *preference) {
     }
 
     free(line);
+    fclose(fid);
 
     return RKResultSuccess;
 }
@@ -161,12 +166,14 @@ RKPreferenceObject *RKPreferenceFindKeyword(RKPreference *preference, const char
 
 int RKPreferenceGetKeywordCount(RKPreference *preference, const char *keyword) {
     int k = 0;
+    int count = 0;
     while (k < RKPreferenceObjectCount && preference->objects[k].isValid == true) {
         if (!strcasecmp(preference->objects[k].keyword, keyword)) {
-            k++;
+            count++;
         }
+        k++;
     }
-    return k;
+    return count;
 }
 
 int RKPreferenceGetValueOfKeyword(RKPreference *preference, const int verb, const char *keyword, void *target, const int type, const int count) {
@@ -238,6 +245,8 @@ int RKPreferenceGetValueOfKeyword(RKPreference *preference, const int verb, cons
 }
 
 int RKControlFromPreferenceObject(RKControl *control, RKPreferenceObject *object) {
+    control->label[0] = '\0';
+    control->command[0] = '\0';
     RKParseQuotedStrings(object->valueString, control->label, control->command, NULL);
     if (strlen(control->label) == 0 || strlen(control->command) == 0) {
         RKLog("Warning. Incomplete control. %s\n", object->valueString);
diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 489f5ee..b8c0c2f 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -967,6 +967,7 @@ void RKWaveformSummary(RKWaveform *waveform) {
 
 size_t RKWaveformWriteToReference(RKWaveform *waveform, FILE *fid) {
     int k;
+    bool failed = false;
     size_t bytes = 0;
     if (waveform->count > RKMaximumWaveformCount) {
         RKLog("Error. Waveform count = %d exceeds the maximum %d\n", waveform->count, RKMaximumWaveformCount);
@@ -988,20 +989,24 @@ size_t RKWaveformWriteToReference(RKWaveform *waveform, FILE *fid) {
     for (k = 0; k < waveform->count; k++) {
         fileHeader->filterCounts[k] = waveform->filterCounts[k];
     }
-    fwrite(fileHeader, sizeof(RKWaveFileGlobalHeader), 1, fid);
+    failed = failed || fwrite(fileHeader, sizeof(RKWaveFileGlobalHeader), 1, fid) != 1;
     bytes += sizeof(RKWaveFileGlobalHeader);
     // Go through all groups
     for (k = 0; k < waveform->count; k++) {
         // Filter anchors
-        fwrite(waveform->filterAnchors[k], sizeof(RKFilterAnchor), waveform->filterCounts[k], fid);
+        failed = failed || fwrite(waveform->filterAnchors[k], sizeof(RKFilterAnchor), waveform->filterCounts[k], fid) != waveform->filterCounts[k];
         bytes += sizeof(RKFilterAnchor) * waveform->filterCounts[k];
         // Waveform samples
-        fwrite(waveform->samples[k], sizeof(RKComplex), waveform->depth, fid);
+        failed = failed || fwrite(waveform->samples[k], sizeof(RKComplex), waveform->depth, fid) != waveform->depth;
         bytes += sizeof(RKComplex) * waveform->depth;
-        fwrite(waveform->iSamples[k], sizeof(RKInt16C), waveform->depth, fid);
+        failed = failed || fwrite(waveform->iSamples[k], sizeof(RKInt16C), waveform->depth, fid) != waveform->depth;
         bytes += sizeof(RKInt16C) * waveform->depth;
     }
     free(fileHeader);
+    if (failed) {
+        RKLog("Error. Incomplete waveform in %p\n", fid);
+        return 0;
+    }
     return bytes;
 }
 
@@ -1021,8 +1026,12 @@ RKResult RKWaveformWriteFile(RKWaveform *waveform, const char *filename) {
             strcpy(waveform->name, lastPart + 1);
         }
     }
-    RKWaveformWriteToReference(waveform, fid);
-    fclose(fid);
+    size_t bytes = RKWaveformWriteToReference(waveform, fid);
+    if (fclose(fid) != 0 || bytes == 0) {
+        RKLog("Error. Failed writing wave file %s\n", filename);
+        remove(filename);
+        return RKResultFailedToOpenFileForWriting;
+    }
     return RKResultSuccess;
 }
 
@@ -1033,6 +1042,20 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
     r = fread(fileHeader, sizeof(RKWaveFileGlobalHeader), 1, fid);
     if (r == 0) {
         RKLog("Error. No file header from %p.\n", fid);
+        free(fileHeader);
+        return NULL;
+    }
+    if (fileHeader->count == 0 || fileHeader->depth == 0) {
+        RKLog("Error. This waveform is invalid.  count = %d   depth = %u\n", fileHeader->count, fileHeader->depth);
+        free(fileHeader);
+        return NULL;
+    }
+    for (k = 0; k < MIN(fileHeader->count, RKMaximumWaveformCount); k++) {
+        if (fileHeader->filterCounts[k] > RKMaximumFilterCount) {
+            RKLog("Error. This waveform is invalid.  filterCount = %d > %d\n", fileHeader->filterCounts[k], RKMaximumFilterCount);
+            free(fileHeader);
+            return NULL;
+        }
     }
     RKWaveform *waveform = RKWaveformInitWithCountAndDepth(fileHeader->count, fileHeader->depth);
     strncpy(waveform->name, fileHeader->name, RKNameLength);
@@ -1044,8 +1067,10 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
     }
     for (k = 0; k < waveform->count; k++) {
         r = fread(waveform->filterAnchors[k], sizeof(RKFilterAnchor), fileHeader->filterCounts[k], fid);
-        if (r == 0) {
+        if (r == 0 || r != fileHeader->filterCounts[k]) {
             RKLog("Error. Unable to read filter anchors from %p\n", fid);
+            RKWaveformFree(waveform);
+            free(fileHeader);
             return NULL;
         }
         // Output data from the first filter is allowed up to the maximum
@@ -1056,7 +1081,7 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].length),
                       RKIntegerToCommaStyleString(waveform->depth));
                 RKWaveformFree(waveform);
-                fclose(fid);
+                free(fileHeader);
                 return NULL;
             }
             if (waveform->filterAnchors[k][j].origin > RKMaximumGateCount) {
@@ -1064,7 +1089,7 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].origin),
                       RKIntegerToCommaStyleString(RKMaximumGateCount));
                 RKWaveformFree(waveform);
-                fclose(fid);
+                free(fileHeader);
                 return NULL;
             }
             if (waveform->filterAnchors[k][j].inputOrigin > RKMaximumGateCount) {
@@ -1072,7 +1097,7 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].inputOrigin),
                       RKIntegerToCommaStyleString(RKMaximumGateCount));
                 RKWaveformFree(waveform);
-                fclose(fid);
+                free(fileHeader);
                 return NULL;
             }
             if (waveform->filterAnchors[k][j].outputOrigin > RKMaximumGateCount) {
@@ -1080,17 +1105,23 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].outputOrigin),
                       RKIntegerToCommaStyleString(RKMaximumGateCount));
                 RKWaveformFree(waveform);
-                fclose(fid);
+                free(fileHeader);
                 return NULL;
             }
         }
         r = fread(waveform->samples[k], sizeof(RKComplex), waveform->depth, fid);
-        if (r == 0) {
+        if (r != waveform->depth) {
             RKLog("Error. Failed reading complex samples from %p.\n", fid);
+            RKWaveformFree(waveform);
+            free(fileHeader);
+            return NULL;
         }
         r = fread(waveform->iSamples[k], sizeof(RKInt16C), waveform->depth, fid);
-        if (r == 0) {
+        if (r != waveform->depth) {
             RKLog("Error. Failed reading int16 samples from %p.\n", fid);
+            RKWaveformFree(waveform);
+            free(fileHeader);
+            return NULL;
         }
     }
     RKWaveformCalculateGain(waveform, RKWaveformGainAll);
-- 
2.43.0


From f23ef03317ef2eea9af97176f5dd9296e653c539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:18 +0000
Subject: [PATCH 37/40] fix: the file monitor notices changes within the same
 second, replaced files and changes before its first look

---
 source/RKFoundation.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index ff28dbf..71e1d22 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1463,12 +1463,14 @@ static void *fileMonitorRunLoop(void *in) {
     int s;
     struct stat fileStat;
 
+    // Keep the state of the file before the changes are promised to be noticed
+    memset(&fileStat, 0, sizeof(struct stat));
+    stat(engine->filename, &fileStat);
+    struct stat previousStat = fileStat;
+
     engine->state |= RKEngineStateWantActive;
     engine->state ^= RKEngineStateActivating;
 
-    stat(engine->filename, &fileStat);
-    time_t mtime = fileStat.st_mtime;
-
     RKLog("%s Started.   file = %s\n", engine->name, engine->filename);
 
     while (engine->state & RKEngineStateWantActive) {
@@ -1483,8 +1485,15 @@ static void *fileMonitorRunLoop(void *in) {
         }
         engine->state ^= RKEngineStateSleep1;
         stat(engine->filename, &fileStat);
-        if (mtime != fileStat.st_mtime) {
-            mtime = fileStat.st_mtime;
+        if (previousStat.st_mtime != fileStat.st_mtime ||
+            #if defined(__APPLE__)
+            previousStat.st_mtimespec.tv_nsec != fileStat.st_mtimespec.tv_nsec ||
+            #else
+            previousStat.st_mtim.tv_nsec != fileStat.st_mtim.tv_nsec ||
+            #endif
+            previousStat.st_size != fileStat.st_size ||
+            previousStat.st_ino != fileStat.st_ino) {
+            previousStat = fileStat;
             RKLog("%s File '%s' modified.\n", engine->name, engine->filename);
             if (engine->callbackRoutine) {
                 engine->callbackRoutine(engine);
-- 
2.43.0


From e26535bca00e37ced8f56e29ec778268939219fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:18 +0000
Subject: [PATCH 38/40] fix: long or incomplete health texts no longer overrun
 buffers when conditions are searched

---
 source/RKFoundation.c | 18 ++++++++++--------
 source/RKMisc.c       | 40 ++++++++++++++++++++++++++++------------
 2 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 71e1d22..b72dcca 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2130,8 +2130,8 @@ RKStatusEnum  RKStatusFromTemperatureForComputers(RKConst value) {
 //     const char *string       - JSON description
 //     const bool showEnum      - true or false to show the details
 // Output:
-//     char *firstKey           - (nullable) the key of first critical value
-//     char *firstValue         - (nullable) the object value of the first critical key
+//     char *firstKey           - (nullable) the key of first critical value, at least RKNameLength characters
+//     char *firstValue         - (nullable) the object value of the first critical key, at least RKNameLength characters
 //
 bool RKAnyCritical(const char *string, const bool showEnum, char *firstKey, char *firstValue) {
     return RKFindCondition(string, RKStatusEnumCritical, showEnum, firstKey, firstValue);
@@ -2144,8 +2144,8 @@ bool RKAnyCritical(const char *string, const bool showEnum, char *firstKey, char
 //     const RKStatusEnum target  - The target RKStatusEnum
 //     const bool showEnum        - true or false to show the details
 // Output:
-//     char *firstKey             - (nullable) the key of first critical value
-//     char *firstValue           - (nullable) the object value of the first critical key
+//     char *firstKey             - (nullable) the key of first critical value, at least RKNameLength characters
+//     char *firstValue           - (nullable) the object value of the first critical key, at least RKNameLength characters
 //
 bool RKFindCondition(const char *string, const RKStatusEnum target, const bool showEnum, char _Nullable *firstKey, char _Nullable *firstValue) {
     if (string == NULL || strlen(string) == 0) {
@@ -2217,13 +2217,13 @@ bool RKFindCondition(const char *string, const RKStatusEnum target, const bool s
     bool found = false;
 
     ks = str + 1;
-    while (*ks != '\0' && *ks != '}') {
+    while (ks && *ks != '\0' && *ks != '}') {
         ks = RKExtractJSON(ks, &type, key, obj);
         if (type != RKJSONObjectTypeObject) {
             continue;
         }
         sks = obj + 1;
-        while (*sks != '\0' && *sks != '}') {
+        while (sks && *sks != '\0' && *sks != '}') {
             sks = RKExtractJSON(sks, &subType, subKey, subObj);
             if (strncmp("Enum", subKey, 4)) {
                 continue;
@@ -2231,10 +2231,12 @@ bool RKFindCondition(const char *string, const RKStatusEnum target, const bool s
             v = atoi(subObj);
             if (v == target && found == false) {
                 if (firstKey) {
-                    strcpy(firstKey, key);
+                    strncpy(firstKey, key, RKNameLength - 1);
+                    firstKey[RKNameLength - 1] = '\0';
                 }
                 if (firstValue) {
-                    strcpy(firstValue, obj);
+                    strncpy(firstValue, obj, RKNameLength - 1);
+                    firstValue[RKNameLength - 1] = '\0';
                 }
                 found = true;
             }
diff --git a/source/RKMisc.c b/source/RKMisc.c
index 246ca44..ef4b8a9 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -94,8 +94,12 @@ char *RKGetBackgroundColorOfCubeIndex(const int c) {
 #pragma mark - JSON / Dictionary / Parsing
 
 // ks = start of a keyword, should begin with quote or space
+// Returns the end of this key-value pair. A string that is incomplete is consumed up to its terminating character.
 char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
     char *ke = NULL;
+    *type = RKJSONObjectTypePlain;
+    *key = '\0';
+    *value = '\0';
     if (*ks == '\0' || strlen(ks) < 3) {
         fprintf(stderr, "Empty JSON string.\n");
         return NULL;
@@ -103,16 +107,16 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
     while (*ks != '"' && *ks != '\0') {
         ks++;
     }
+    if (*ks == '\0') {
+        return ks;
+    }
     ke = ++ks;
     while (*ke != '"' && *ke != '\0') {
         ke++;
     }
     if (*ke == '\0') {
-        fprintf(stderr, "Expected a close quote for keyword %s\n", ks == NULL ? "(NULL)" : ks);
-        fprintf(stderr, "Original: %s\n", ks);
-        if (ke == NULL) {
-            return NULL;
-        }
+        fprintf(stderr, "Expected a close quote for keyword %s\n", ks);
+        return ke;
     }
     // Now a keyword is in betwee ks & ke
     strncpy(key, ks, ke - ks);
@@ -122,19 +126,27 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
     while (*os != ':' && *os != '\0') {
         os++;
     }
+    if (*os == '\0') {
+        return os;
+    }
     // Space character(s) in between ':' and '{'
     os++;
     while (*os == ' ') {
         os++;
     }
+    if (*os == '\0') {
+        return os;
+    }
     if (*os == '{') {
         // This is an object, recursively call myself.
         *type = RKJSONObjectTypeObject;
         oe = os + 1;
-        while (*oe != '}') {
+        while (*oe != '}' && *oe != '\0') {
+            oe++;
+        }
+        if (*oe) {
             oe++;
         }
-        oe++;
         strncpy(value, os, oe - os);
         value[oe - os] = '\0';
         #if defined(DEBUG_HEAVY)
@@ -144,10 +156,12 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
         // This is an array
         *type = RKJSONObjectTypeArray;
         oe = os + 1;
-        while (*oe != ']') {
+        while (*oe != ']' && *oe != '\0') {
+            oe++;
+        }
+        if (*oe) {
             oe++;
         }
-        oe++;
         strncpy(value, os, oe - os);
         value[oe - os] = '\0';
         #if defined(DEBUG_HEAVY)
@@ -157,17 +171,19 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
         // This is a string
         *type = RKJSONObjectTypeString;
         oe = os + 1;
-        while (*oe != '"') {
+        while (*oe != '"' && *oe != '\0') {
+            oe++;
+        }
+        if (*oe) {
             oe++;
         }
-        oe++;
         strncpy(value, os, oe - os);
         value[oe - os] = '\0';
     } else {
         // This is just a plain value
         *type = RKJSONObjectTypePlain;
         oe = os + 1;
-        while (*oe != ',' && *oe != '}') {
+        while (*oe != ',' && *oe != '}' && *oe != '\0') {
             oe++;
         }
         strncpy(value, os, oe - os);
-- 
2.43.0


From abbbb73547a75cded1af16fbdfffae3fe155aca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:18 +0000
Subject: [PATCH 39/40] fix: the PRF is passed to the configuration as a double

---
 source/RKRadar.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 211cd75..f0f9abd 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1568,7 +1568,7 @@ int RKSetWaveformToImpulse(RKRadar *radar) {
 }
 
 int RKSetPRF(RKRadar *radar, const uint32_t prf) {
-    RKAddConfig(radar, RKConfigKeyPRF, prf, RKConfigKeyNull);
+    RKAddConfig(radar, RKConfigKeyPRF, (double)prf, RKConfigKeyNull);
     return RKResultSuccess;
 }
 
@@ -1803,7 +1803,7 @@ int RKGoLive(RKRadar *radar) {
     // Add a dummy config to get things started if there hasn't been one from the user
     if (radar->configIndex == 0) {
         RKAddConfig(radar,
-                    RKConfigKeyPRF, 1000,
+                    RKConfigKeyPRF, 1000.0,
                     RKConfigKeySystemNoise, 0.1, 0.1,
                     RKConfigKeySystemZCal, -27.0, -27.0,
                     RKConfigKeySystemDCal, -0.01,
@@ -2749,7 +2749,7 @@ void RKSetStatusReady(RKRadar *radar, RKStatus *status) {
 // Note:
 //     The last key must be RKConfigKeyNull
 // Example:
-//     RKConfigAdd(radar, RKConfigKeyPRF, 1000, RKConfigNull) to set PRF
+//     RKConfigAdd(radar, RKConfigKeyPRF, 1000.0, RKConfigNull) to set PRF
 //     RKConfigAdd(radar, RKConfigKeySystemNoise, 0.3, 0.2, RKConfigNull) to set noise
 //
 // Users normally don't have to deal with these
-- 
2.43.0


From 5110f8b96d95ba1826f6287361b4348e29f8d7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:41 +0000
Subject: [PATCH 40/40] fix: product files of RHI sweeps, siblings and damaged
 files are read rightly

---
 source/RKFoundation.c  |  7 +++---
 source/RKMisc.c        |  9 ++++----
 source/RKProductFile.c | 33 +++++++++++++++++++++--------
 source/RKSweepFile.c   | 48 +++++++++++++++++++++++++++++++-----------
 4 files changed, 69 insertions(+), 28 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index b72dcca..4917eef 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -451,6 +451,7 @@ int RKListFilesWithSamePrefix(const char *filename, char list[][RKMaximumPathLen
     if (r == false) {
         //fprintf(stderr, "RKListFilesWithSamePrefix() Unable to continue.\n");
         RKLog("RKListFilesWithSamePrefix() Not a standard filename. Early return.\n");
+        closedir(dir);
         return 0;
     }
     char *ext = RKFileExtension(filename);
@@ -482,7 +483,7 @@ int RKListFilesWithSamePrefix(const char *filename, char list[][RKMaximumPathLen
     strcpy(desiredSymbol[k++], "P");
     strcpy(desiredSymbol[k++], "R");
     strcpy(desiredSymbol[k++], "K");
-    for (k = 0; k < count; k++) {
+    for (k = 0; k < MIN(count, 7); k++) {
         RKGetSymbolFromFilename(list[k], symbol);
         //printf("k = %d   symbol = %s\n", k, symbol);
         if (!strcmp(symbol, desiredSymbol[k])) {
@@ -741,11 +742,11 @@ void RKShowVecComplex(const char *name, const RKComplex *p, const int n) {
 static char *arrayHeadTailElementsInString(const float *d, const int length) {
     int c, k = 0;
     static char line[1024];
-    for (c = 0; c < 3; c++) {
+    for (c = 0; c < MIN(3, length); c++) {
         k += sprintf(line + k, " %6.2f", *(d + c));
     }
     k += sprintf(line + k, " ...");
-    for (c = length - 3; c < length; c++) {
+    for (c = MAX(0, length - 3); c < length; c++) {
         k += sprintf(line + k, " %6.2f", *(d + c));
     }
     return line;
diff --git a/source/RKMisc.c b/source/RKMisc.c
index ef4b8a9..ffcb3ce 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -864,8 +864,9 @@ char *RKFolderOfFilename(const char *filename) {
     } else if (s == filename) {
         strcpy(folder, "/");
     } else {
-        strncpy(folder, filename, sizeof(folder) - 1);
-        folder[sizeof(folder) - 1] = '\0';
+        size_t n = MIN((size_t)(s - filename), sizeof(folder) - 1);
+        strncpy(folder, filename, n);
+        folder[n] = '\0';
     }
     return folder;
 }
@@ -873,11 +874,11 @@ char *RKFolderOfFilename(const char *filename) {
 char *RKFileExtension(const char *filename) {
     static char ext[16];
     char *e = strrchr((char *)filename, '.');
-    if (e == NULL) {
+    if (e == NULL || strchr(e, '/')) {
         ext[0] = '\0';
         return ext;
     }
-    strcpy(ext, e);
+    snprintf(ext, sizeof(ext), "%s", e);
     return ext;
 }
 
diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index d1e0498..271cf37 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -177,10 +177,10 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
     nc_put_att_float(ncid, NC_GLOBAL, "RangeFolded", NC_FLOAT, 1, &tmpf);
     put_global_text_att(ncid, "RadarParameters", "PRF PulseWidth MaximumRange");
     put_global_text_att(ncid, "PRF-unit", "Hertz");
-    tmpi = (int)(1.0f / product->header.prt[0]);
+    tmpi = (int)roundf(1.0f / product->header.prt[0]);
     nc_put_att_int(ncid, NC_GLOBAL, "PRF-value", NC_INT, 1, &tmpi);
     put_global_text_att(ncid, "PulseWidth-unit", "MicroSeconds");
-    tmpf = (float)product->header.pw[0] * 1000.0f;
+    tmpf = (float)product->header.pw[0] * 1.0e6f;
     nc_put_att_float(ncid, NC_GLOBAL, "PulseWidth-value", NC_FLOAT, 1, &tmpf);
     put_global_text_att(ncid, "MaximumRange-unit", "KiloMeters");
     tmpf = 1.0e-3f * product->header.gateSizeMeters * product->header.gateCount;
@@ -300,7 +300,7 @@ void RKProductDimensionsFromFile(const char *filename, uint32_t *rayCount, uint3
     }
 
     // Read the first file
-    if ((r = nc_open(filename, NC_NOWRITE, &ncid)) > 0) {
+    if ((r = nc_open(filename, NC_NOWRITE, &ncid)) != NC_NOERR) {
         RKLog("%s Error opening file %s (%s)\n", name, filename, nc_strerror(r));
         return;
     }
@@ -316,6 +316,12 @@ void RKProductDimensionsFromFile(const char *filename, uint32_t *rayCount, uint3
             r = nc_inq_dimid(ncid, "beam", &tmpId);
         }
     }
+    if (r != NC_NOERR) {
+        // The files of RHI sweeps
+        if ((r = nc_inq_dimid(ncid, "Elevation", &tmpId)) != NC_NOERR) {
+            r = nc_inq_dimid(ncid, "elevation", &tmpId);
+        }
+    }
     if (r == NC_NOERR) {
         nc_inq_dimlen(ncid, tmpId, &localRayCount);
     } else {
@@ -360,7 +366,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     }
 
     // Read the first file
-    if ((r = nc_open(filename, NC_NOWRITE, &ncid)) > 0) {
+    if ((r = nc_open(filename, NC_NOWRITE, &ncid)) != NC_NOERR) {
         RKLog("%s Error opening file %s (%s)\n", name, filename, nc_strerror(r));
         return;
     }
@@ -379,6 +385,12 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
             r = nc_inq_dimid(ncid, "beam", &tmpId);
         }
     }
+    if (r != NC_NOERR) {
+        // The files of RHI sweeps
+        if ((r = nc_inq_dimid(ncid, "Elevation", &tmpId)) != NC_NOERR) {
+            r = nc_inq_dimid(ncid, "elevation", &tmpId);
+        }
+    }
     if (r == NC_NOERR) {
         nc_inq_dimlen(ncid, tmpId, &rayCount);
     } else {
@@ -404,6 +416,9 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     if (product->header.rayCount != (uint32_t)rayCount || product->header.gateCount != (uint32_t)gateCount) {
         RKLog("Warning. Inconsistent dimentions: %u x %u  vs  %u x %u\n",
               (uint32_t)rayCount, (uint32_t)gateCount, product->header.rayCount, product->header.gateCount);
+        // The arrays of this product do not fit
+        nc_close(ncid);
+        return;
     }
     RKGetSymbolFromFilename(filename, product->desc.symbol);
 
@@ -456,7 +471,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
         product->header.gateSizeMeters = 0.0f;
     }
     nc_get_att_long(ncid, NC_GLOBAL, "Time", &product->header.startTime);
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Wavelength-unit", &product->header.wavelength);
+    r = nc_get_att_float(ncid, NC_GLOBAL, "Wavelength-value", &product->header.wavelength);
     if (r != NC_NOERR) {
         product->header.wavelength = 0.0f;
     }
@@ -464,7 +479,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     if (r == NC_NOERR) {
         if (iv == 0) {
             RKLog("Warning. Recorded PRF = 0 Hz. Assuming 1000 Hz ...\n");
-            product->header.prt[0] = 1000.0f;
+            product->header.prt[0] = 1.0f / 1000.0f;
         } else {
             product->header.prt[0] = 1.0f / (RKFloat)iv;
         }
@@ -475,10 +490,10 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     if (r == NC_NOERR && product->header.wavelength == 0.0f && product->header.prt[0] > 0.0f) {
         product->header.wavelength = 4.0f * fv * (RKFloat)product->header.prt[0];
     }
-    nc_get_att_int(ncid, NC_GLOBAL, "PulseWidth-value", &iv);
-    r = nc_get_att_text(ncid, NC_GLOBAL, "PulseWidth-unit", stringValue);
+    r = nc_get_att_float(ncid, NC_GLOBAL, "PulseWidth-value", &fv);
+    getGlobalTextAttribute(stringValue, "PulseWidth-unit", ncid);
     if (r == NC_NOERR && !strcasecmp("microseconds", stringValue)) {
-        product->header.pw[0] = 1.0e-3 * (float)iv;
+        product->header.pw[0] = 1.0e-6f * fv;
     }
     get_global_float_att(ncid, floatType, "NoiseH-ADU", &product->header.noise[0]);
     get_global_float_att(ncid, floatType, "NoiseV-ADU", &product->header.noise[1]);
diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index aa6ea33..b070aa2 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -49,12 +49,9 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
 
     // Find the last '.'
     char *e = NULL;
-    e = strstr(inputFile, ".");
-    if (e == NULL) {
-        e = (char *)inputFile + strlen(inputFile) - 1;
-    }
-    while (*(e + 1) >= '0' && *(e + 1) <= '9') {
-        e = strstr(e + 1, ".");
+    e = strrchr(inputFile, '.');
+    if (e == NULL || strchr(e, '/')) {
+        e = (char *)inputFile + strlen(inputFile);
     }
     // Find the previous '-'
     char *b = e;
@@ -109,7 +106,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
         // Read in the header from the very first file that exists
         if (RKFilenameExists(filename)) {
             // Read the first file
-            if ((r = nc_open(filename, NC_NOWRITE, &ncid)) > 0) {
+            if ((r = nc_open(filename, NC_NOWRITE, &ncid)) != NC_NOERR) {
                 RKLog("%s Error opening file %s (%s)\n", name, inputFile, nc_strerror(r));
                 return NULL;
             }
@@ -122,6 +119,12 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                     r = nc_inq_dimid(ncid, "beam", &tmpId);
                 }
             }
+            if (r != NC_NOERR) {
+                // The files of RHI sweeps
+                if ((r = nc_inq_dimid(ncid, "Elevation", &tmpId)) != NC_NOERR) {
+                    r = nc_inq_dimid(ncid, "elevation", &tmpId);
+                }
+            }
             if (r == NC_NOERR) {
                 nc_inq_dimlen(ncid, tmpId, &rayCount);
             } else {
@@ -144,6 +147,12 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 gateCount = RKMaximumGateCount;
             }
 
+            if (rayCount > RKMaximumRaysPerSweep) {
+                nc_close(ncid);
+                RKLog("Error. rayCount = %d > %d\n", rayCount, RKMaximumRaysPerSweep);
+                return NULL;
+            }
+
             // Derive the RKMemoryAlignSize compliant capacity
             capacity = (uint32_t)ceilf((float)gateCount / RKMemoryAlignSize) * RKMemoryAlignSize;
 
@@ -154,6 +163,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             scratch = (void *)malloc(rayCount * capacity * sizeof(float));
             if (scratch == NULL) {
                 RKLog("Error. Unable to allocate memory for a scratch space.\n");
+                nc_close(ncid);
                 return NULL;
             }
 
@@ -161,6 +171,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             sweep = (RKSweep *)malloc(sizeof(RKSweep));
             if (sweep == NULL) {
                 RKLog("Error. Unable to allocate memory.\n");
+                nc_close(ncid);
                 free(scratch);
                 return NULL;
             }
@@ -318,13 +329,11 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             RKLog("%s not found.\n", filename);
             continue;
         }
-        productList |= products[k];
 
         // Open the file
-        if ((r = nc_open(filename, NC_NOWRITE, &ncid)) > 0) {
-            RKLog("%s Error opening file %s (%s)\n", name, inputFile, nc_strerror(r));
-            free(scratch);
-            return NULL;
+        if ((r = nc_open(filename, NC_NOWRITE, &ncid)) != NC_NOERR) {
+            RKLog("%s Error opening file %s (%s)\n", name, filename, nc_strerror(r));
+            continue;
         }
 
         RKLog("%s %s (*)\n", name, filename);
@@ -333,9 +342,24 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
         r = nc_inq_varid(ncid, productNames[k], &tmpId);
         if (r != NC_NOERR) {
             RKLog("Base moment %s not found.\n", productNames[k]);
+            nc_close(ncid);
+            continue;
+        }
+        // Only an array of the same size fits
+        int dimensionIds[2] = {0, 0}, dimensionCount = 0;
+        size_t n = 0, m = 0;
+        r = nc_inq_varndims(ncid, tmpId, &dimensionCount);
+        if (r == NC_NOERR && dimensionCount == 2 && nc_inq_vardimid(ncid, tmpId, dimensionIds) == NC_NOERR) {
+            nc_inq_dimlen(ncid, dimensionIds[0], &n);
+            nc_inq_dimlen(ncid, dimensionIds[1], &m);
+        }
+        if (n != rayCount || m != gateCount) {
+            RKLog("Warning. Inconsistent dimensions of %s. Ignored.\n", filename);
+            nc_close(ncid);
             continue;
         }
         nc_get_var_float(ncid, tmpId, scratch);
+        productList |= products[k];
         fp = (float *)scratch;
         for (j = 0; j < rayCount * gateCount; j++) {
             if (*fp == w2_missing_data || *fp == w2_range_folded) {
-- 
2.43.0

