From c5b8e24a70a3fbe8871c4a2880d85edec20d278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 01/99] fix: log and text messages whose arguments did not
 match their format

---
 source/RKClient.c          |  2 +-
 source/RKClock.c           |  2 +-
 source/RKCommandCenter.c   | 16 ++++++++--------
 source/RKFoundation.c      |  4 ++--
 source/RKHostMonitor.c     | 18 +++++++++---------
 source/RKMomentEngine.c    |  2 +-
 source/RKProductFile.c     |  4 ++--
 source/RKPulseEngine.c     |  4 ++--
 source/RKRadar.c           | 14 +++++++-------
 source/RKRawDataRecorder.c |  6 +++---
 source/RKScratch.c         |  2 +-
 source/RKServer.c          |  6 +++---
 source/RKSteerEngine.c     |  4 ++--
 source/RKSweepEngine.c     |  2 +-
 source/RKSweepFile.c       |  2 +-
 source/RKWebSocket.c       |  2 +-
 16 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index af1d8d2..eb6560e 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -331,7 +331,7 @@ void *theClient(void *in) {
                                     if (k == C->netDelimiter.size) {
                                         break;
                                     } else if (k > C->netDelimiter.size) {
-                                        RKLog("%s Error. Should not read larger than specified size = %zu\n", C->name, C->netDelimiter.size);
+                                        RKLog("%s Error. Should not read larger than specified size = %u\n", C->name, C->netDelimiter.size);
                                         break;
                                     }
                                 } else {
diff --git a/source/RKClock.c b/source/RKClock.c
index 5ede489..db01b33 100644
--- a/source/RKClock.c
+++ b/source/RKClock.c
@@ -147,7 +147,7 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
     y = x;
     // Reset the references when clock count = 0 or it has been a while
     if (x - clock->latestTime > RKClockAWhile && clock->count > 0) {
-        RKLog("%s Warning. Self reset  %f - %f = %f   count = %u\n", clock->name, x, clock->latestTime, x - clock->latestTime, clock->count);
+        RKLog("%s Warning. Self reset  %f - %f = %f   count = %zu\n", clock->name, x, clock->latestTime, x - clock->latestTime, clock->count);
         clock->count = 0;
         clock->index = 0;
     }
diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index f7f118f..43d296f 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -161,7 +161,7 @@ int socketCommandHandler(RKOperator *O) {
                 case 'a':
                     // Authenticate
                     sscanf(commandString + 1, "%s %s", sval1, sval2);
-                    RKLog("%s %s Authenticating %s %s ... (%d) (%d)\n", engine->name, O->name, sval1, sval2, strlen(sval1), sizeof(user->login));
+                    RKLog("%s %s Authenticating %s %s ... (%zu) (%zu)\n", engine->name, O->name, sval1, sval2, strlen(sval1), sizeof(user->login));
                     // Check authentication here. For now, control is always authorized
                     //
                     //
@@ -335,7 +335,7 @@ int socketCommandHandler(RKOperator *O) {
 
                 case 'r':
                     // Change radar
-                    sscanf("%s", commandString + 1, sval1);
+                    sscanf(commandString + 1, "%s", sval1);
                     RKLog(">%s %s Selected radar %s\n", engine->name, O->name, sval1);
                     snprintf(user->commandResponse, RKMaximumPacketSize, "ACK. %s selected." RKEOL, sval1);
                     RKOperatorSendCommandResponse(O, user->commandResponse);
@@ -951,7 +951,7 @@ int socketStreamHandler(RKOperator *O) {
             }
         } else {
             if ((int)ray->header.i > 0 && engine->verbose > 1) {
-                RKLog("%s %s No product ray / deactivated.  streamsInProgress = 0x%08x\n",
+                RKLog("%s %s No product ray / deactivated.  streamsInProgress = 0x%08zx\n",
                       engine->name, O->name, user->streamsInProgress);
             }
         }
@@ -1298,7 +1298,7 @@ int socketStreamHandler(RKOperator *O) {
                                 RKProductInitFromSweep(product, sweep);
                                 size = RKServerReceiveUserPayload(O, product->data, RKNetworkMessageFormatHeaderDefinedSize);
                                 if (user->radar->sweepEngine->verbose > 1) {
-                                    RKLog("%s %s %s (%d) -> %u %zu\n",
+                                    RKLog("%s %s %s (%zu) -> %u %zu\n",
                                           engine->name, O->name, user->string, strlen(user->string), productId, identifier);
                                 }
                                 RKShowArray(product->data, product->desc.symbol, product->header.gateCount, product->header.rayCount);
@@ -1495,7 +1495,7 @@ int socketStreamHandler(RKOperator *O) {
             user->timeLastOut = time;
         } else {
             if ((int)pulse->header.i > 0) {
-                RKLog("%s %s No IQ / Deactivated.  streamsInProgress = 0x%08x  header.s = %x\n",
+                RKLog("%s %s No IQ / Deactivated.  streamsInProgress = 0x%08zx  header.s = %x\n",
                        engine->name, O->name, user->streamsInProgress, pulse->header.s);
             }
         }
@@ -1516,7 +1516,7 @@ int socketStreamHandler(RKOperator *O) {
         size = RKOperatorSendBeacon(O);
         user->timeLastOut = time;
         if (size < 0) {
-            RKLog("Beacon failed (r = %d).\n", size);
+            RKLog("Beacon failed (r = %zd).\n", size);
             RKOperatorHangUp(O);
         }
     }
@@ -1536,7 +1536,7 @@ int socketInitialHandler(RKOperator *O) {
 
     RKUser *user = &engine->users[O->iid];
     if (user->streams != RKStreamNull) {
-        RKLog("%s %s Warning. Unexpected user state.   user->streams = %x", engine->name, O->name, user->streams);
+        RKLog("%s %s Warning. Unexpected user state.   user->streams = %zx", engine->name, O->name, user->streams);
     }
     memset(user, 0, sizeof(RKUser));
     user->access = RKStreamStatusAll;
@@ -1709,7 +1709,7 @@ void RKCommandCenterSkipToCurrent(RKCommandCenter *engine, RKRadar *radar) {
            radar->rayIndex < 2 * radar->momentEngine->coreCount ||
            radar->healthEngine->tic < 2) {
         if (++s % 10 == 0 && engine->verbose > 1) {
-            RKLog("%s Sleep 1/%.1f s    %d / %d / %d\n", engine->name, 0.01f * s,
+            RKLog("%s Sleep 1/%.1f s    %zu / %d / %zu\n", engine->name, 0.01f * s,
                   radar->pulseEngine->tic,
                   radar->rayIndex,
                   radar->healthEngine->tic);
diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index e44c4c8..d5d1bbc 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1115,7 +1115,7 @@ void RKZeroTailIQZ(RKIQZ *data, const uint32_t capacity, const uint32_t origin)
 size_t RKPulseBufferAlloc(RKBuffer *mem, const uint32_t capacity, const uint32_t count) {
     size_t alignment = RKMemoryAlignSize / sizeof(RKFloat);
     if (capacity != (capacity / alignment) * alignment) {
-        RKLog("Error. Unable to allocate for capacity = %s. Must be multiple of %d!",
+        RKLog("Error. Unable to allocate for capacity = %s. Must be multiple of %zu!",
             RKIntegerToCommaStyleString(capacity), alignment);
         return 0;
     }
@@ -1387,7 +1387,7 @@ void RKPulseDuplicateSplitComplex(RKPulse *pulse) {
 size_t RKRayBufferAlloc(RKBuffer *mem, const uint32_t capacity, const uint32_t count) {
     size_t alignment = RKMemoryAlignSize / sizeof(RKFloat);
     if (capacity != (capacity / alignment) * alignment) {
-        RKLog("Error. Ray capacity must be a multiple of %d!", alignment);
+        RKLog("Error. Ray capacity must be a multiple of %zu!", alignment);
         return 0;
     }
     RKRay *ray;
diff --git a/source/RKHostMonitor.c b/source/RKHostMonitor.c
index 38902f8..f579e30 100644
--- a/source/RKHostMonitor.c
+++ b/source/RKHostMonitor.c
@@ -208,7 +208,7 @@ static void *hostPinger(void *in) {
         // Ping
         if ((r = sendto(sd, buff, txSize, 0, (struct sockaddr *)&targetAddress, sizeof(struct sockaddr))) == -1) {
             if (engine->verbose > 1) {
-                RKLog("%s %s Error. Command sendto() -> %d   errno = %d / %s.", engine->name, me->name, r, errno, RKErrnoString(errno));
+                RKLog("%s %s Error. Command sendto() -> %zd   errno = %d / %s.", engine->name, me->name, r, errno, RKErrnoString(errno));
             }
             // Now we wait a little
             pthread_mutex_unlock(&engine->mutex);
@@ -229,7 +229,7 @@ static void *hostPinger(void *in) {
             }
             continue;
         } else if (engine->verbose > 1) {
-            RKLog(">%s %s Ping %s (%d.%d.%d.%d)   seq = %d   size = %d bytes\n",
+            RKLog(">%s %s Ping %s (%d.%d.%d.%d)   seq = %d   size = %zu bytes\n",
                   engine->name, me->name,
                   engine->hosts[c],
                   (targetAddress.sin_addr.s_addr & 0xff),
@@ -250,7 +250,7 @@ static void *hostPinger(void *in) {
         while (returnAddress.sin_addr.s_addr != targetAddress.sin_addr.s_addr && k++ < engine->workerCount + 1 && engine->state & RKEngineStateWantActive) {
             if ((r = recvfrom(sd, buff, RKHostMonitorPacketSize, 0, (struct sockaddr *)&returnAddress, &returnLength)) > 0) {
                 if (engine->verbose > 1 && engine->tic != 2) {
-                    RKLog("%s %s recvfrom()   sd = %d   r = %d  / %d   %d.%d.%d.%d   returnLength = %d\n",
+                    RKLog("%s %s recvfrom()   sd = %d   r = %zd  / %d   %d.%d.%d.%d   returnLength = %d\n",
                           engine->name, me->name,
                           sd,
                           r,
@@ -273,7 +273,7 @@ static void *hostPinger(void *in) {
                     }
                 }
             } else if (engine->verbose > 2) {
-                RKLog("%s %s recvfrom() -> %d\n", engine->name, me->name, r);
+                RKLog("%s %s recvfrom() -> %zd\n", engine->name, me->name, r);
             }
         }
         if (offset != (size_t)-1 && returnAddress.sin_addr.s_addr == targetAddress.sin_addr.s_addr) {
@@ -282,7 +282,7 @@ static void *hostPinger(void *in) {
             icmpHeader->checksum = 0;
             calculatedChecksum = rk_host_monitor_checksum(buff + offset, r - offset);
             if (engine->verbose > 1) {
-                RKLog("%s %s r = %u   sd = %d   returnAddress = %d.%d.%d.%d   returnLength = %d\n",
+                RKLog("%s %s r = %zd   sd = %d   returnAddress = %d.%d.%d.%d   returnLength = %d\n",
                       engine->name, me->name,
                       r,
                       sd,
@@ -312,7 +312,7 @@ static void *hostPinger(void *in) {
             gettimeofday(&time, NULL);
             period = RKTimevalDiff(time, me->latestTime);
             if (engine->verbose > 1) {
-                RKLog(">%s %s r = %d   delta: %.3e   %d.%d.%d.%d  %d %d",
+                RKLog(">%s %s r = %zd   delta: %.3e   %d.%d.%d.%d  %d %zu",
                       engine->name, me->name,
                       r,
                       RKTimevalDiff(time, me->latestTime),
@@ -423,7 +423,7 @@ static void *hostWatcher(void *in) {
     if (engine->verbose > 2) {
         for (k = 0; k < engine->workerCount; k++) {
             RKUnitMonitor *worker = &engine->workers[k];
-            RKLog(">%s tic[%d] = %d\n", engine->name, k, worker->tic);
+            RKLog(">%s tic[%d] = %zu\n", engine->name, k, worker->tic);
         }
     }
 
@@ -439,7 +439,7 @@ static void *hostWatcher(void *in) {
             anyReachable |= worker->hostStatus == RKHostStatusReachable;
             allReachable &= (worker->hostStatus == RKHostStatusReachable || worker->hostStatus == RKHostStatusReachableUnusual);
             if (engine->verbose > 1) {
-                RKLog("%s %s %s%s%s (%d)\n", engine->name,
+                RKLog("%s %s %s%s%s (%zu)\n", engine->name,
                       engine->hosts[k],
                       rkGlobalParameters.showColor ? (worker->hostStatus == RKHostStatusReachable ? RKGreenColor :
                                                       (worker->hostStatus == RKHostStatusReachableUnusual ? RKLimeColor :
@@ -464,7 +464,7 @@ static void *hostWatcher(void *in) {
                 anyTrue |= worker->tic == engine->tic;
             }
             if (engine->verbose > 2) {
-                RKLog("Info. %d %d %d vs %d\n", engine->workers[0].tic, engine->workers[1].tic, engine->workers[2].tic, engine->tic);
+                RKLog("Info. %zu %zu %zu vs %zu\n", engine->workers[0].tic, engine->workers[1].tic, engine->workers[2].tic, engine->tic);
             }
         } while (anyTrue && engine->state & RKEngineStateWantActive);
         engine->state ^= RKEngineStateSleep1;
diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index b39ee6a..f87148c 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -494,7 +494,7 @@ static void *momentEngineCore(void *in) {
             pulse = pulses[k++];
             pulse->header.s |= RKPulseStatusUsedForMoments;
             if (k == 0) {
-                RKLog("pulseIndex %u   .s = %x\n", pulse->header.i, pulse->header.s);
+                RKLog("pulseIndex %zu   .s = %x\n", pulse->header.i, pulse->header.s);
             }
         } while (k <= path.length);
 
diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index cdbd4a1..38ad3e4 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -320,7 +320,7 @@ void RKProductDimensionsFromFile(const char *filename, uint32_t *rayCount, uint3
         return;
     }
     if (localGateCount > RKMaximumGateCount) {
-        RKLog("Info. gateCount = %d capped to %d\n", localGateCount, RKMaximumGateCount);
+        RKLog("Info. gateCount = %zu capped to %d\n", localGateCount, RKMaximumGateCount);
         localGateCount = RKMaximumGateCount;
     }
     *gateCount = (uint32_t)localGateCount;
@@ -383,7 +383,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
         return;
     }
     if (gateCount > RKMaximumGateCount) {
-        RKLog("Info. gateCount = %d capped to %d\n", gateCount, RKMaximumGateCount);
+        RKLog("Info. gateCount = %zu capped to %d\n", gateCount, RKMaximumGateCount);
         gateCount = RKMaximumGateCount;
     }
 
diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index 10f820e..ef29cdb 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -463,7 +463,7 @@ static void *pulseEngineCore(void *_in) {
             pulse->header.gateCount += 1 - blindGateCount;
             pulse->header.s |= RKPulseStatusSkipped;
             if (engine->verbose > 1) {
-                RKLog("%s pulse skipped. header->i = %d   gid = %d\n", me->name, pulse->header.i, gid);
+                RKLog("%s pulse skipped. header->i = %zu   gid = %d\n", me->name, pulse->header.i, gid);
             }
         } else {
             // Go through all the filters in this filter group
@@ -1368,7 +1368,7 @@ int RKPulseEngineStop(RKPulseEngine *engine) {
 
 RKPulse *RKPulseEngineGetVacantPulse(RKPulseEngine *engine, const RKPulseStatus waitMask) {
     if (!(engine->state & RKEngineStateProperlyWired)) {
-        RKLog("%s Error. Not properly wired for RKPulseEngineGetVacantPulse()\n");
+        RKLog("%s Error. Not properly wired for RKPulseEngineGetVacantPulse()\n", engine->name);
         return NULL;
     }
     // Set the 1/8-ahead (7/8-depth old) pulse vacant if it has been used
diff --git a/source/RKRadar.c b/source/RKRadar.c
index 61f0338..8503170 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -426,7 +426,7 @@ void *radarCoPilot(void *in) {
                 RKLog("Nothing ...\n");
             }
         }
-        RKLog(productGenerator->rayStatusBuffer[k]);
+        RKLog("%s", productGenerator->rayStatusBuffer[k]);
         k = RKNextModuloS(k, RKBufferSSlotCount);
     }
     return NULL;
@@ -479,7 +479,7 @@ RKRadar *RKInitWithDesc(const RKRadarDesc desc) {
 
     // Get the number of CPUs
     radar->processorCount = (uint32_t)sysconf(_SC_NPROCESSORS_ONLN);
-    RKLog("Number of online CPUs = %ld (HT = 2)\n", radar->processorCount);
+    RKLog("Number of online CPUs = %d (HT = 2)\n", radar->processorCount);
     if (radar->processorCount <= 1) {
         RKLog("Assume Number of CPUs = %d was not correctly reported. Override with 4.\n", radar->processorCount);
         radar->processorCount = 4;
@@ -512,7 +512,7 @@ RKRadar *RKInitWithDesc(const RKRadarDesc desc) {
     }
     if (radar->desc.positionBufferDepth > RKBufferPSlotCount) {
         radar->desc.positionBufferDepth = RKBufferPSlotCount;
-        RKLog("Info. Position buffer clamped to %s\n", radar->desc.positionBufferDepth);
+        RKLog("Info. Position buffer clamped to %s\n", RKIntegerToCommaStyleString(radar->desc.positionBufferDepth));
     } else if (radar->desc.positionBufferDepth == 0) {
         radar->desc.positionBufferDepth = 500;
     }
@@ -543,7 +543,7 @@ RKRadar *RKInitWithDesc(const RKRadarDesc desc) {
     uint32_t stride = radar->desc.pulseToRayRatio * RKMemoryAlignSize;
     radar->desc.pulseCapacity = ((radar->desc.pulseCapacity * sizeof(RKFloat) + stride - 1) / stride) * stride / sizeof(RKFloat);
     if (radar->desc.pulseCapacity != desc.pulseCapacity && radar->desc.initFlags & RKInitFlagVeryVerbose) {
-        RKLog("Info. Pulse capacity changed from %s to %s (stride = %d RKFloats, %d B)\n",
+        RKLog("Info. Pulse capacity changed from %s to %s (stride = %zu RKFloats, %d B)\n",
               RKIntegerToCommaStyleString(desc.pulseCapacity),
               RKIntegerToCommaStyleString(radar->desc.pulseCapacity),
               stride / sizeof(RKFloat), stride);
@@ -553,13 +553,13 @@ RKRadar *RKInitWithDesc(const RKRadarDesc desc) {
     }
     if (radar->desc.controlCapacity > RKMaximumControlCount) {
         radar->desc.controlCapacity = RKMaximumControlCount;
-        RKLog("Info. Control count limited to %s\n", radar->desc.controlCapacity);
+        RKLog("Info. Control count limited to %s\n", RKIntegerToCommaStyleString(radar->desc.controlCapacity));
     } else if (radar->desc.controlCapacity == 0) {
         radar->desc.controlCapacity = 64;
     }
     if (radar->desc.waveformCalibrationCapacity > RKMaximumWaveformCalibrationCount) {
         radar->desc.waveformCalibrationCapacity = RKMaximumWaveformCalibrationCount;
-        RKLog("Info. Waveform calibration count limited to %s\n", radar->desc.controlCapacity);
+        RKLog("Info. Waveform calibration count limited to %s\n", RKIntegerToCommaStyleString(radar->desc.waveformCalibrationCapacity));
     } else if (radar->desc.waveformCalibrationCapacity == 0) {
         radar->desc.waveformCalibrationCapacity = 64;
     }
@@ -1168,7 +1168,7 @@ int RKFree(RKRadar *radar) {
     }
     if (radar->filter) {
         if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
-            RKLog("Freeing filter ...\n", radar->waveform->name);
+            RKLog("Freeing filter ...\n");
         }
         free(radar->filter);
         radar->filter = NULL;
diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 4c08143..bae4ec7 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -121,7 +121,7 @@ static void *pulseRecorder(void *in) {
         // Lag of the engine
         engine->lag = fmodf(((float)*engine->pulseIndex + engine->radarDescription->pulseBufferDepth - k) / engine->radarDescription->pulseBufferDepth, 1.0f);
         if (!isfinite(engine->lag)) {
-            RKLog("%s Error. %d + %d - %d = %d",
+            RKLog("%s Error. %d + %d - %d = %d   lag = %.2f\n",
                   engine->name,
                   *engine->pulseIndex, engine->radarDescription->pulseBufferDepth, k,
                   *engine->pulseIndex + engine->radarDescription->pulseBufferDepth - k, engine->lag);
@@ -141,7 +141,7 @@ static void *pulseRecorder(void *in) {
                 len += RKRawDataRecorderCacheFlush(engine);
                 close(engine->fd);
                 engine->fd = 0;
-                RKLog("%s %sRecorded%s %s (%s pulses, %s %sB) w%d\n",
+                RKLog("%s %sRecorded%s %s (%s pulses, %s %sB) w%zu\n",
                       engine->name,
                       rkGlobalParameters.showColor ? RKGreenColor : "",
                       rkGlobalParameters.showColor ? RKNoColor : "",
@@ -438,7 +438,7 @@ size_t RKRawDataRecorderCacheWrite(RKRawDataRecorder *engine, const void *payloa
         writtenSize = (uint32_t)write(engine->fd, engine->cache, engine->cacheSize);
         engine->fileWriteCount++;
         if (writtenSize != engine->cacheSize) {
-            RKLog("%s Error in write().   writtenSize = %s\n", RKIntegerToCommaStyleString((long)writtenSize));
+            RKLog("%s Error in write().   writtenSize = %s\n", engine->name, RKIntegerToCommaStyleString((long)writtenSize));
         }
         engine->cacheFlushCount++;
         engine->cacheWriteIndex = 0;
diff --git a/source/RKScratch.c b/source/RKScratch.c
index 34863d2..c728c09 100644
--- a/source/RKScratch.c
+++ b/source/RKScratch.c
@@ -22,7 +22,7 @@
 size_t RKCompressionScratchAlloc(RKCompressionScratch **buffer, const uint32_t capacity, const uint8_t verbose, const char * _Nullable name) {
     uint32_t goodCapacity = (capacity * sizeof(RKFloat) / RKMemoryAlignSize) * RKMemoryAlignSize / sizeof(RKFloat);
     if (capacity == 0 || capacity != goodCapacity) {
-        RKLog("Error. Unable to allocate capacity = %d. Must be greater than 0 and an integer multiple of %s!",
+        RKLog("Error. Unable to allocate capacity = %s. Must be greater than 0 and an integer multiple of %s!",
             RKIntegerToCommaStyleString(capacity),
             RKIntegerToCommaStyleString(RKMemoryAlignSize / sizeof(RKFloat)));
         return 0;
diff --git a/source/RKServer.c b/source/RKServer.c
index 8969c81..f0cc582 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -615,7 +615,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                         usleep(10000);
                     }
                 } else if (errno != EAGAIN) {
-                    RKLog("%s %s Error. RKMessageFormatFixedHeaderVariableBlock   r = %d   k = %d   errno = %d (%s)\n",
+                    RKLog("%s %s Error. RKMessageFormatFixedHeaderVariableBlock   r = %zd   k = %d   errno = %d (%s)\n",
                               M->name, O->name, r, k, errno, RKErrnoString(errno));
                     break;
                 } else {
@@ -655,7 +655,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                     }
                 } else if (errno != EAGAIN) {
                     if (M->verbose > 1) {
-                        RKLog("%s Error. RKMessageFormatFixedBlock   r=%d  k=%d  errno=%d (%s)  %d\n",
+                        RKLog("%s Error. RKMessageFormatFixedBlock   r=%zd  k=%d  errno=%d (%s)  %d\n",
                               O->name, r, k, errno, RKErrnoString(errno), readCount);
                     }
                     readCount = O->timeoutSeconds * 10000;
@@ -692,7 +692,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                     }
                 } else if (errno != EAGAIN) {
                     if (M->verbose > 1) {
-                        RKLog("%s Error. RKMessageFormatFixedBlock   r=%d  k=%d  errno=%d (%s)  %d\n",
+                        RKLog("%s Error. RKMessageFormatFixedBlock   r=%zd  k=%d  errno=%d (%s)  %d\n",
                               O->name, r, k, errno, RKErrnoString(errno), readCount);
                     }
                     readCount = O->timeoutSeconds * 10000;
diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 1a5c88c..e627cb2 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -150,7 +150,7 @@ int RKSteerEngineAddPinchSweep(RKSteerEngine *engine, const RKScanPath scan) {
     if (V->onDeckCount < RKMaximumScanCount) {
         V->onDeckScans[V->onDeckCount++] = scan;
     } else {
-        RKLog("%s Error. Cannot add more scans.  V->onDeckScans = %d\n", engine->name, V->onDeckScans);
+        RKLog("%s Error. Cannot add more scans.  V->onDeckCount = %d\n", engine->name, V->onDeckCount);
         return RKResultTooBig;
     }
     return RKResultSuccess;
@@ -807,7 +807,7 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                 if (cross && V->tic > 200) {
                     V->progress |= RKScanProgressEnd;
                     if (verbose) {
-                        RKLog("%s End crossover detected @ AZ %.2f° [%.2f° -> %.2f°]   V->tic = %zu\n", engine->name,
+                        RKLog("%s End crossover detected @ AZ %.2f° [%.2f° -> %.2f°]   V->tic = %d\n", engine->name,
                             scan->azimuthEnd, V->azimuthPrevious, pos->azimuthDegrees, V->tic);
                     }
                 }
diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 8b8a43a..c89f6c6 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -103,7 +103,7 @@ static void *sweepManager(void *in) {
     RKSweep *sweep = RKSweepCollect(engine, index);
     if (sweep == NULL) {
         if (engine->verbose > 1) {
-            RKLog("%s Empty sweep   scratchSpaceIndex = %d\n", index);
+            RKLog("%s Empty sweep   scratchSpaceIndex = %d\n", engine->name, index);
         }
         pthread_mutex_lock(&engine->productMutex);
         engine->business--;
diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index aa6ea33..6e2af66 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -140,7 +140,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             }
 
             if (gateCount > RKMaximumGateCount) {
-                RKLog("Info. gateCount = %d capped to %d\n", gateCount, RKMaximumGateCount);
+                RKLog("Info. gateCount = %zu capped to %d\n", gateCount, RKMaximumGateCount);
                 gateCount = RKMaximumGateCount;
             }
 
diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index e14c2b6..93fae08 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -512,7 +512,7 @@ void *transporter(void *in) {
                         } else {
                             memcpy(show, message, h->len + 1);
                         }
-                        RKLog("%s C-PONG: %s%s%s (%zu)\n", W->name,
+                        RKLog("%s C-PONG: %s%s%s (%d)\n", W->name,
                               rkGlobalParameters.showColor ? RKLimeColor : "",
                               show,
                               rkGlobalParameters.showColor ? RKNoColor : "",
-- 
2.43.0


From 51598e6c50b9aa4d3398287f10caace3196eaf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 02/99] fix: release the lock on the early returns of RKLog,
 RKConfigAdvance and RKFileManagerAddFile

---
 source/RKConfig.c      | 4 ++++
 source/RKFileManager.c | 1 +
 source/RKFoundation.c  | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index 9ba3871..674d0c3 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -162,6 +162,8 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 waveform = (RKWaveform *)va_arg(args, void *);
                 if (waveform == NULL || waveform->filterCounts[0] == 0) {
                     RKLog("Bad input for RKConfigKeyWaveform\n");
+                    va_end(args);
+                    pthread_mutex_unlock(&lock);
                     return;
                 }
                 newConfig->waveform = waveform;
@@ -173,6 +175,8 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 waveform = (RKWaveform *)va_arg(args, void *);
                 if (waveform == NULL || waveform->filterCounts[0] == 0) {
                     RKLog("Bad input for RKConfigKeyWaveformDecimate\n");
+                    va_end(args);
+                    pthread_mutex_unlock(&lock);
                     return;
                 }
                 newConfig->waveformDecimate = waveform;
diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index da8d791..058e60f 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -804,6 +804,7 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
 
     if (strncmp(me->path, filename, strlen(me->path))) {
         RKLog("%s File %s does not belong here (%s).\n", engine->name, filename, me->path);
+        pthread_mutex_unlock(&engine->mutex);
         return RKResultFileManagerInconsistentFolder;
     }
 
diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index d5d1bbc..5583542 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -146,6 +146,8 @@ int RKLog(const char *whatever, ...) {
     va_start(args, whatever);
     if (strlen(whatever) > RKMaximumStringLength - 256) {
         fprintf(stderr, "RKLog() could potential crash for string '%s'\n", whatever);
+        va_end(args);
+        pthread_mutex_unlock(&lock);
         return 1;
     }
     if (rkGlobalParameters.logTimeOnly) {
-- 
2.43.0


From 41cadf80e847acf6e9c19b737ef29369b26099e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 03/99] fix: file manager stop waited for its threads while
 holding the lock they need

---
 source/RKFileManager.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 058e60f..8915f91 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -745,13 +745,14 @@ int RKFileManagerStop(RKFileManager *engine) {
     RKLog("%s Stopping ...\n", engine->name);
     engine->state |= RKEngineStateDeactivating;
     engine->state ^= RKEngineStateWantActive;
+    // The removers need the lock to finish, so it must not be held while waiting for them
+    pthread_mutex_unlock(&engine->mutex);
     pthread_join(engine->tidFileWatcher, NULL);
     engine->state ^= RKEngineStateDeactivating;
     RKLog("%s Stopped.\n", engine->name);
     if (engine->state != (RKEngineStateAllocated | RKEngineStateProperlyWired)) {
         RKLog("%s Inconsistent state 0x%04x\n", engine->name, engine->state);
     }
-    pthread_mutex_unlock(&engine->mutex);
     return RKResultSuccess;
 }
 
-- 
2.43.0


From 5ad1524beb1e602a93ce3106522dfe569f9f6933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 04/99] fix: RKLog and RKGetCPUIndex changed their shared state
 outside their lock

---
 source/RKFoundation.c | 11 ++++++++---
 source/RKMisc.c       |  3 ++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 5583542..3c9d9b3 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -105,6 +105,8 @@ int RKLog(const char *whatever, ...) {
     static char *filename = NULL;
     static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
 
+    pthread_mutex_lock(&lock);
+
     if (msg == NULL) {
         msg = (char *)malloc(RKMaximumStringLength * sizeof(char));
     }
@@ -115,6 +117,9 @@ int RKLog(const char *whatever, ...) {
         fprintf(stderr, "Error in RKLog().\n");
         free(filename);
         free(msg);
+        filename = NULL;
+        msg = NULL;
+        pthread_mutex_unlock(&lock);
         return -1;
     }
 
@@ -126,18 +131,18 @@ int RKLog(const char *whatever, ...) {
             #endif
             if (msg) {
                 free(msg);
+                msg = NULL;
             }
             if (filename) {
                 free(filename);
+                filename = NULL;
             }
-            pthread_mutex_destroy(&lock);
         }
         va_end(args);
+        pthread_mutex_unlock(&lock);
         return 0;
     }
 
-    pthread_mutex_lock(&lock);
-
     // Get the time
     gettimeofday(&utc, NULL);
     memcpy(&tm, gmtime(&utc.tv_sec), sizeof(struct tm));
diff --git a/source/RKMisc.c b/source/RKMisc.c
index 567b8d4..7aad427 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -1224,8 +1224,9 @@ long RKGetCPUIndex(const long v) {
 	if (count == 0) {
 		count = sysconf(_SC_NPROCESSORS_ONLN);
 	}
+	const long k = count ? c++ % count : v;
 	pthread_mutex_unlock(&lock);
-	return count ? c++ % count : v;
+	return k;
 }
 
 long RKGetMemoryUsage(void) {
-- 
2.43.0


From 05bbde8407b1391dd18a63e496e0872e4ecd9bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 05/99] fix: client thread overrode stop requests, leaked its
 socket on lost connections and was not always joined

---
 source/RKClient.c | 49 +++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index eb6560e..2395b14 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -29,13 +29,13 @@ void *theClient(void *in) {
     struct timeval previousBeaconTime = {0, 0};
     bool readOkay;
 
-    C->state = RKClientStateCreating;
-
     FILE *fid = NULL;
 
-    void *buf = (void *)malloc(RKMaximumPacketSize);
+    // One more byte for the terminating NULL character of a full-size payload
+    void *buf = (void *)malloc(RKMaximumPacketSize + 1);
     if (buf == NULL) {
         RKLog("Error. Unable to allocate space for a buffer.\n");
+        C->state = RKClientStateDisconnected;
         return (void *)RKResultErrorCreatingOperatorRoutine;
     }
     void *delimiter = &C->netDelimiter;
@@ -52,7 +52,12 @@ void *theClient(void *in) {
     // Here comes the infinite loop until being stopped
     while (C->state < RKClientStateDisconnecting) {
 
-        C->state = RKClientStateResolvingIP;
+        // Never override a request to disconnect
+        pthread_mutex_lock(&C->lock);
+        if (C->state < RKClientStateDisconnecting) {
+            C->state = RKClientStateResolvingIP;
+        }
+        pthread_mutex_unlock(&C->lock);
 
         // Resolve hostname to IP address
         if (C->verbose > 1) {
@@ -77,19 +82,16 @@ void *theClient(void *in) {
         if (C->type == RKNetworkSocketTypeTCP) {
             if ((C->sd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
                 RKLog("%s Error. Unable to create a TCP socket.\n", C->name);
-                C->state = RKClientStateDisconnected;
-                return NULL;
+                break;
             }
         } else if (C->type == RKNetworkSocketTypeUDP) {
             if ((C->sd = socket(AF_INET, SOCK_DGRAM, IPPROTO_UDP)) < 0) {
                 RKLog("%s Error. Unable to create a UDP socket.\n", C->name);
-                C->state = RKClientStateDisconnected;
-                return NULL;
+                break;
             }
         } else {
             RKLog("%s Error. Unable to determine the socket type %d.\n", C->name, C->type);
-            C->state = RKClientStateDisconnected;
-            return NULL;
+            break;
         }
         if (C->blocking == false) {
             flags = fcntl(C->sd, F_GETFL);
@@ -371,9 +373,9 @@ void *theClient(void *in) {
                         
                         if (fid == NULL) {
                             fid = fdopen(C->sd, "r");
-                            if (fid < 0) {
+                            if (fid == NULL) {
                                 RKLog("%s Error. Unable to open a file descriptor for socket.\n", C->name);
-                                return (void *)-1;
+                                break;
                             }
                         }
                         if (fgets(buf, RKMaximumPacketSize, fid) != NULL) {
@@ -391,8 +393,6 @@ void *theClient(void *in) {
                         C->state = RKClientStateReconnecting;
                     }
                     pthread_mutex_unlock(&C->lock);
-                    close(C->sd);
-                    fid = NULL;
                     continue;
                 } else {
                     pthread_mutex_lock(&C->lock);
@@ -405,7 +405,9 @@ void *theClient(void *in) {
                     pthread_mutex_unlock(&C->lock);
                 }
                 timeoutCount = 0;
-                C->recv(C);
+                if (C->recv) {
+                    C->recv(C);
+                }
                 cbuf[0] = '\0';
 
                 // Send in a beacon signal
@@ -445,6 +447,14 @@ void *theClient(void *in) {
             } // if (r == 0) ...
         }
 
+        // No more receiving, whatever the reason is. The stream, if any, owns the socket descriptor
+        if (fid) {
+            fclose(fid);
+            fid = NULL;
+        } else {
+            close(C->sd);
+        }
+
         // Wait a while before trying to reconnect
         k = 31;
         while (k-- > 1 && C->state < RKClientStateDisconnecting) {
@@ -553,8 +563,10 @@ void RKClientSetCloseHandler(RKClient *C, int (*routine)(RKClient *)) {
 void RKClientStart(RKClient *C, const bool waitForConnection) {
     pthread_mutex_init(&C->lock, NULL);
     pthread_attr_init(&C->threadAttributes);
+    C->state = RKClientStateCreating;
     if (pthread_create(&C->threadId, &C->threadAttributes, theClient, C)) {
         RKLog("Error. Unable to launch a socket client.\n");
+        C->state = RKClientStateNull;
         return;
     }
     if (!waitForConnection) {
@@ -570,10 +582,13 @@ void RKClientStart(RKClient *C, const bool waitForConnection) {
 }
 
 void RKClientStop(RKClient *C) {
-    if (C->state > RKClientStateCreating && C->state < RKClientStateDisconnecting) {
+    // A client that has ended by itself (disconnected) still needs to be joined
+    if (C->state > RKClientStateNull && C->state != RKClientStateDisconnecting) {
         RKLog("%s Disconnecting ...\n", C->name);
         pthread_mutex_lock(&C->lock);
-        C->state = RKClientStateDisconnecting;
+        if (C->state < RKClientStateDisconnecting) {
+            C->state = RKClientStateDisconnecting;
+        }
         pthread_mutex_unlock(&C->lock);
         pthread_join(C->threadId, NULL);
         pthread_attr_destroy(&C->threadAttributes);
-- 
2.43.0


From f7b64874d89c4aa610303dc1d13c7cee4a90e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 06/99] fix: server leaked sockets and operators on errors and
 when stopping, closed a descriptor twice

---
 source/RKServer.c | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index f0cc582..6019006 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -31,7 +31,7 @@ void *RKServerRoutine(void *in) {
     M->state = RKServerStateOpening;
 
     // Create the socket
-    if ((M->sd = socket(AF_INET, SOCK_STREAM, 0)) == 0) {
+    if ((M->sd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
         RKLog("%s failed at socket().\n", M->name);
         M->state = RKServerStateNull;
         return NULL;
@@ -49,6 +49,7 @@ void *RKServerRoutine(void *in) {
     ii = 1;
     if (setsockopt(M->sd, SOL_SOCKET, SO_REUSEADDR, &ii, sizeof(ii)) == -1) {
         RKLog("%s Error. Failed at setsockopt().\n", M->name);
+        close(M->sd);
         M->state = RKServerStateNull;
         return NULL;
     }
@@ -56,14 +57,15 @@ void *RKServerRoutine(void *in) {
     // Bind
     if (bind(M->sd, (struct sockaddr *)&sa, sizeof(sa)) < 0) {
         RKLog("%s Error. Failed at bind().\n", M->name);
-        M->state = RKServerStateNull;
         close(M->sd);
+        M->state = RKServerStateNull;
         return NULL;
     }
 
     // Listen
     if (listen(M->sd, M->maxClient + 1) < 0) {
         RKLog("%s Error. Failed at listen().\n", M->name);
+        close(M->sd);
         M->state = RKServerStateNull;
         return NULL;
     }
@@ -113,6 +115,10 @@ void *RKServerRoutine(void *in) {
                 close(sid);
             } else {
                 RKOperator *O = RKOperatorCreate(M, sid, inet_ntoa(sa.sin_addr));
+                if (O == NULL) {
+                    close(sid);
+                    continue;
+                }
                 M->operators[O->iid] = O;
             }
         } else if (ii == 0) {
@@ -136,6 +142,15 @@ void *RKServerRoutine(void *in) {
         }
     } // while (M->state == RKServerStateActive) ...
 
+    // Operators quit once the server is not active, wait for them before releasing anything
+    M->state = RKServerStateClosing;
+    for (k = 0; k < M->maxClient; k++) {
+        if (M->busy[k] && M->operators[k] != NULL) {
+            RKOperatorFree(M->operators[k]);
+        }
+    }
+    close(M->sd);
+
     if (M->verbose > 1) {
         RKLog("%s Returning ...\n", M->name);
     }
@@ -171,6 +186,9 @@ void *RKOperatorRoutine(void *in) {
 
     if (pthread_create(&O->tidExecute, NULL, RKOperatorCommandRoutine, O)) {
         RKLog("%s Error. Failed to create RKOperatorCommandRoutine().\n", M->name);
+        pthread_mutex_destroy(&O->lock);
+        close(O->sid);
+        O->state = RKOperatorStateHungUp;
         return (void *)RKResultErrorCreatingOperatorCommandRoutine;
     }
 
@@ -189,6 +207,11 @@ void *RKOperatorRoutine(void *in) {
     fp = fdopen(O->sid, "r");
     if (fp == NULL) {
         RKLog("%s unable to get a file descriptor fro socket descriptor.\n", M->name);
+        O->state = RKOperatorStateClosing;
+        pthread_join(O->tidExecute, NULL);
+        pthread_mutex_destroy(&O->lock);
+        close(O->sid);
+        O->state = RKOperatorStateHungUp;
         return (void *)RKResultSDToFDError;
     }
 
@@ -350,9 +373,15 @@ RKOperator *RKOperatorCreate(RKServer *M, int sid, const char *ip) {
     pthread_mutex_lock(&M->lock);
 
     int k = 0;
-    while (M->busy[k]) {
+    while (k < M->maxClient && M->busy[k]) {
         k++;
     }
+    if (k >= M->maxClient) {
+        RKLog("%s Error. No vacant operator.\n", M->name);
+        pthread_mutex_unlock(&M->lock);
+        free(O);
+        return NULL;
+    }
     M->busy[k] = true;
 
     // Default operator parameters that should not be 0
@@ -383,7 +412,9 @@ RKOperator *RKOperatorCreate(RKServer *M, int sid, const char *ip) {
 
     if (pthread_create(&O->tidRead, NULL, RKOperatorRoutine, O)) {
         RKLog("%s Error. Failed to create RKOperatorRoutine().\n", M->name);
+        M->busy[k] = false;
         pthread_mutex_unlock(&M->lock);
+        free(O);
         return NULL;
     }
 
@@ -397,8 +428,8 @@ void RKOperatorFree(RKOperator *O) {
     RKServer *M = O->M;
     const int k = O->iid;
 
+    // The socket descriptor has been closed by the operator routine
     pthread_join(O->tidRead, NULL);
-    close(O->sid);
     free(O);
 
     M->busy[k] = false;
@@ -496,6 +527,10 @@ void RKServerFree(RKServer *M) {
     while (M->state > RKServerStateFree) {
         usleep(100000);
     }
+    if (M->threadId) {
+        pthread_join(M->threadId, NULL);
+    }
+    pthread_mutex_destroy(&M->lock);
     free(M);
 }
 
@@ -549,6 +584,8 @@ void RKServerStart(RKServer *M) {
     M->state = RKServerStateOpening;
     if (pthread_create(&M->threadId, NULL, RKServerRoutine, M)) {
         RKLog("%s Error. Unable to launch main server.\n", M->name);
+        M->threadId = (pthread_t)0;
+        M->state = RKServerStateNull;
     }
     while (M->state > RKServerStateNull && M->state < RKServerStateActive) {
         usleep(25000);
-- 
2.43.0


From 22baedc0e68a9b79e9f35127f743e71211f38583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 07/99] fix: reporter thread was not waited for when stopping

---
 source/RKReporter.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/source/RKReporter.c b/source/RKReporter.c
index cc1b745..9e4baa0 100644
--- a/source/RKReporter.c
+++ b/source/RKReporter.c
@@ -56,7 +56,7 @@ void *reporter(void *in) {
 
     do {
         usleep(10000);
-    } while (engine->ws->tic < 1);
+    } while (engine->ws->tic < 1 && engine->state & RKEngineStateWantActive);
 
     RKLog("%s Started.  mem = %s B\n", engine->name, RKIntegerToCommaStyleString(engine->memoryUsage));
 
@@ -282,9 +282,6 @@ void handleOpen(RKWebSocket *W) {
 
 void handleClose(RKWebSocket *W) {
     RKReporter *engine = (RKReporter *)W->parent;
-    if (engine->state & RKEngineStateActive) {
-        engine->state ^= RKEngineStateActive;
-    }
     if (engine->verbose > 1) {
         RKLog("%s RKReporter.handleClose()\n", engine->name);
     }
@@ -349,7 +346,7 @@ RKReporter *RKReporterInitWithHost(const char *host) {
     engine->pulseStride = 10;
     engine->rayStride = 1;
     engine->memoryUsage = sizeof(RKReporter);
-    if (strlen(host) == 0 || host == NULL) {
+    if (host == NULL || strlen(host) == 0) {
         // sprintf(engine->host, "http://localhost:8000");
         sprintf(engine->host, "nohost");
     } else {
@@ -373,6 +370,9 @@ RKReporter *RKReporterInit(void) {
 }
 
 void RKReporterFree(RKReporter *engine) {
+    if (engine->state & RKEngineStateWantActive) {
+        RKReporterStop(engine);
+    }
     if (engine->ws) {
         RKWebSocketFree(engine->ws);
     }
@@ -420,6 +420,8 @@ void RKReporterStart(RKReporter *engine) {
     engine->state |= RKEngineStateWantActive;
     if (pthread_create(&engine->ticWorker, NULL, reporter, engine)) {
         RKLog("%s Error. Failed to create reporter().\n", engine->name);
+        engine->state ^= RKEngineStateWantActive;
+        RKWebSocketStop(engine->ws);
         return;
     }
     do {
@@ -428,16 +430,15 @@ void RKReporterStart(RKReporter *engine) {
 }
 
 void RKReporterStop(RKReporter *engine) {
+    if (!(engine->state & RKEngineStateWantActive)) {
+        RKLog("%s Not active.\n", engine->name);
+        return;
+    }
     if (engine->verbose) {
         RKLog("%s Stopping ...\n", engine->name);
     }
-    if (engine->state & RKEngineStateWantActive) {
-        engine->state ^= RKEngineStateWantActive;
-    }
-    int s = 0;
-    do {
-        usleep(10000);
-    } while (engine->state & RKEngineStateActive && s++ < 300);
+    engine->state ^= RKEngineStateWantActive;
+    pthread_join(engine->ticWorker, NULL);
     if (engine->ws->wantActive) {
         RKLog("%s Disconnecting %s:%s ...\n", engine->name, engine->ws->host, engine->ws->path);
         RKWebSocketStop(engine->ws);
-- 
2.43.0


From 20499ed5863e1781e8921a5a7c0f0e6ac2c42699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 08/99] fix: pedestal monitor and ray releaser threads were not
 waited for when their component stops

---
 headers/RadarKit/RKPedestalPedzy.h | 1 +
 source/RKPedestalPedzy.c           | 8 +++++++-
 source/RKSweepEngine.c             | 4 ++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/headers/RadarKit/RKPedestalPedzy.h b/headers/RadarKit/RKPedestalPedzy.h
index 5c96ef3..87dc0a3 100644
--- a/headers/RadarKit/RKPedestalPedzy.h
+++ b/headers/RadarKit/RKPedestalPedzy.h
@@ -24,6 +24,7 @@ typedef struct rk_pedzy {
     RKRadar                *radar;
     pthread_t              tidBackground;
     RKByte                 response[RKMaximumStringLength];
+    bool                   active;
 } RKPedestalPedzy;
 
 RKPedestal RKPedestalPedzyInit(RKRadar *, void *);
diff --git a/source/RKPedestalPedzy.c b/source/RKPedestalPedzy.c
index 99bcbc5..1a75fcd 100644
--- a/source/RKPedestalPedzy.c
+++ b/source/RKPedestalPedzy.c
@@ -133,7 +133,7 @@ static void *pedestalPedzyHealth(void *in) {
     char elPosition[16];
     RKStatusEnum azEnum;
     RKStatusEnum elEnum;
-    while (me->client->state < RKClientStateDisconnecting) {
+    while (me->active) {
         if (me->client->state < RKClientStateConnected) {
             azInterlockStatus = RKStatusEnumInvalid;
             elInterlockStatus = RKStatusEnumInvalid;
@@ -225,7 +225,9 @@ RKPedestal RKPedestalPedzyInit(RKRadar *radar, void *input) {
     RKClientSetReceiveHandler(me->client, &pedestalPedzyRead);
     RKClientStart(me->client, false);
 
+    me->active = true;
     if (pthread_create(&me->tidBackground, NULL, pedestalPedzyHealth, me) != 0) {
+        me->active = false;
         RKLog("%s Error. Failed to start a pedestal monitor.\n", me->client->name);
         return (void *)RKResultFailedToStartPedestalMonitor;
     }
@@ -283,6 +285,10 @@ int RKPedestalPedzyFree(RKPedestal input) {
         return RKResultNoRadar;
     }
     RKPedestalPedzy *me = (RKPedestalPedzy *)input;
+    if (me->active) {
+        me->active = false;
+        pthread_join(me->tidBackground, NULL);
+    }
     RKClientFree(me->client);
     free(me);
     return RKResultSuccess;
diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index c89f6c6..e0ad419 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -533,6 +533,10 @@ static void *rayGatherer(void *in) {
         pthread_join(tidSweepManager, NULL);
         tidSweepManager = (pthread_t)0;
     }
+    if (tidRayReleaser) {
+        pthread_join(tidRayReleaser, NULL);
+        tidRayReleaser = (pthread_t)0;
+    }
     for (p = 0; p < productCount; p++) {
         RKSweepEngineUndescribeProduct(engine, engine->baseMomentProductIds[p]);
     }
-- 
2.43.0


From b6628cb574fa61dfd08063f337fe7324f910e924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 09/99] fix: stop of steer engine, radar relay when not active;
 free stops an active engine

---
 source/RKHealthEngine.c   |  3 +++
 source/RKPositionEngine.c |  3 +++
 source/RKRadarRelay.c     | 12 ++++++++++--
 source/RKSteerEngine.c    | 13 +++++++++++++
 4 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/source/RKHealthEngine.c b/source/RKHealthEngine.c
index 8d60438..4ff5987 100644
--- a/source/RKHealthEngine.c
+++ b/source/RKHealthEngine.c
@@ -306,6 +306,9 @@ RKHealthEngine *RKHealthEngineInit(void) {
 }
 
 void RKHealthEngineFree(RKHealthEngine *engine) {
+    if (engine->state & RKEngineStateWantActive) {
+        RKHealthEngineStop(engine);
+    }
     free(engine);
 }
 
diff --git a/source/RKPositionEngine.c b/source/RKPositionEngine.c
index 222f04f..75a1e25 100644
--- a/source/RKPositionEngine.c
+++ b/source/RKPositionEngine.c
@@ -359,6 +359,9 @@ RKPositionEngine *RKPositionEngineInit(void) {
 }
 
 void RKPositionEngineFree(RKPositionEngine *engine) {
+    if (engine->state & RKEngineStateWantActive) {
+        RKPositionEngineStop(engine);
+    }
     free(engine);
 }
 
diff --git a/source/RKRadarRelay.c b/source/RKRadarRelay.c
index 9bea8e7..e25415f 100644
--- a/source/RKRadarRelay.c
+++ b/source/RKRadarRelay.c
@@ -287,7 +287,7 @@ static void *radarRelay(void *in) {
 
     RKLog("%s Started.   mem = %s B   host = %s\n", engine->name, RKUIntegerToCommaStyleString(engine->memoryUsage), engine->host);
 
-    RKClientStart(engine->client, true);
+    RKClientStart(engine->client, false);
 
     // Increase the tic once to indicate the engine is ready
     engine->tic = 1;
@@ -323,6 +323,9 @@ RKRadarRelay *RKRadarRelayInit(void) {
 }
 
 void RKRadarRelayFree(RKRadarRelay *engine) {
+    if (engine->state & RKEngineStateWantActive) {
+        RKRadarRelayStop(engine);
+    }
     free(engine);
 }
 
@@ -386,13 +389,18 @@ int RKRadarRelayStop(RKRadarRelay *engine) {
         }
         return RKResultEngineDeactivatedMultipleTimes;
     }
+    if (!(engine->state & RKEngineStateWantActive)) {
+        RKLog("%s Not active.\n", engine->name);
+        return RKResultEngineDeactivatedMultipleTimes;
+    }
     if (engine->verbose) {
         RKLog("%s Stopping ...\n", engine->name);
     }
-    RKClientStop(engine->client);
     engine->state |= RKEngineStateDeactivating;
     engine->state ^= RKEngineStateWantActive;
     pthread_join(engine->tidBackground, NULL);
+    RKClientFree(engine->client);
+    engine->client = NULL;
     engine->state ^= RKEngineStateDeactivating;
     if (engine->verbose) {
         RKLog("%s Stopped.\n", engine->name);
diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index e627cb2..702995a 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -397,6 +397,9 @@ RKSteerEngine *RKSteerEngineInit(void) {
 }
 
 void RKSteerEngineFree(RKSteerEngine *engine) {
+    if (engine->state & RKEngineStateWantActive) {
+        RKSteerEngineStop(engine);
+    }
     free(engine);
 }
 
@@ -451,6 +454,16 @@ int RKSteerEngineStart(RKSteerEngine *engine) {
 }
 
 int RKSteerEngineStop(RKSteerEngine *engine) {
+    if (engine->state & RKEngineStateDeactivating) {
+        if (engine->verbose > 1) {
+            RKLog("%s Info. Engine is being or has been deactivated.\n", engine->name);
+        }
+        return RKResultEngineDeactivatedMultipleTimes;
+    }
+    if (!(engine->state & RKEngineStateWantActive)) {
+        RKLog("%s Not active.\n", engine->name);
+        return RKResultEngineDeactivatedMultipleTimes;
+    }
     RKLog("%s Stopping ...\n", engine->name);
     engine->state |= RKEngineStateDeactivating;
     engine->state ^= RKEngineStateWantActive;
-- 
2.43.0


From 6a3c3a7703fcdad9ca0d1328b937b5ce3c57c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 10/99] fix: file manager and host monitor left freed workers
 behind, leaked lists, stopped when not active

---
 source/RKFileManager.c | 15 ++++++++++++---
 source/RKHostMonitor.c |  2 ++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 8915f91..e47c916 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -450,6 +450,7 @@ static void *fileRemover(void *in) {
         }
     }
 
+    free(folders);
     free(filenames);
     free(indexedStats);
 
@@ -618,7 +619,10 @@ static void *folderWatcher(void *in) {
     for (k = 0; k < engine->workerCount; k++) {
         pthread_join(engine->workers[k].tid, NULL);
     }
+    pthread_mutex_lock(&engine->mutex);
     free(engine->workers);
+    engine->workers = NULL;
+    pthread_mutex_unlock(&engine->mutex);
 
     return NULL;
 }
@@ -741,6 +745,10 @@ int RKFileManagerStop(RKFileManager *engine) {
         }
         return RKResultEngineDeactivatedMultipleTimes;
     }
+    if (!(engine->state & RKEngineStateWantActive)) {
+        RKLog("%s Not active.\n", engine->name);
+        return RKResultEngineDeactivatedMultipleTimes;
+    }
     pthread_mutex_lock(&engine->mutex);
     RKLog("%s Stopping ...\n", engine->name);
     engine->state |= RKEngineStateDeactivating;
@@ -757,13 +765,14 @@ int RKFileManagerStop(RKFileManager *engine) {
 }
 
 int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType type) {
-    RKFileRemover *me = &engine->workers[type];
+    pthread_mutex_lock(&engine->mutex);
 
-    if (!(engine->state & RKEngineStateWantActive)) {
+    if (!(engine->state & RKEngineStateWantActive) || engine->workers == NULL) {
+        pthread_mutex_unlock(&engine->mutex);
         return RKResultEngineNotActive;
     }
 
-    pthread_mutex_lock(&engine->mutex);
+    RKFileRemover *me = &engine->workers[type];
 
     struct stat fileStat;
     stat(filename, &fileStat);
diff --git a/source/RKHostMonitor.c b/source/RKHostMonitor.c
index f579e30..5477d3f 100644
--- a/source/RKHostMonitor.c
+++ b/source/RKHostMonitor.c
@@ -476,6 +476,7 @@ static void *hostWatcher(void *in) {
         pthread_join(engine->workers[k].tid, NULL);
     }
     free(engine->workers);
+    engine->workers = NULL;
 
     engine->state ^= RKEngineStateActive;
     return NULL;
@@ -505,6 +506,7 @@ void RKHostMonitorFree(RKHostMonitor *engine) {
         RKHostMonitorStop(engine);
     }
     pthread_mutex_destroy(&engine->mutex);
+    free(engine->hosts);
     free(engine);
 }
 
-- 
2.43.0


From a93e88301c1ff5fbac32f098a684d1e45021e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 11/99] fix: RKFree leaked all engines after RKStop; background
 tasks of the radar used released memory

---
 headers/RadarKit/RKRadar.h |   1 +
 source/RKRadar.c           | 133 +++++++++++++++++++++++--------------
 2 files changed, 85 insertions(+), 49 deletions(-)

diff --git a/headers/RadarKit/RKRadar.h b/headers/RadarKit/RKRadar.h
index 96a7428..3746ef5 100644
--- a/headers/RadarKit/RKRadar.h
+++ b/headers/RadarKit/RKRadar.h
@@ -199,6 +199,7 @@ struct rk_radar {
     RKUserModule                     userModule;
     RKUserModule                     (*userModuleInit)(RKWaveform *);
     void                             (*userModuleFree)(RKUserModule);
+    pthread_t                        tidUserModule;                            // Releases the old user module
 };
 
 //
diff --git a/source/RKRadar.c b/source/RKRadar.c
index 8503170..78a2679 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -58,7 +58,7 @@ void *freeUserModuleDelayed(void *input) {
     do {
         all = true;
         for (int c = 0; c < radar->pulseEngine->coreCount; c++) {
-            all &= radar->pulseEngine->workers[c].cid >= resource->targetConfigId;
+            all &= radar->pulseEngine->workers == NULL || radar->pulseEngine->workers[c].cid >= resource->targetConfigId;
         }
         usleep(10000);
     } while (radar->active && k++ < 500 && !all);
@@ -69,6 +69,7 @@ void *freeUserModuleDelayed(void *input) {
         RKLog("Freeing user module %p ...\n", resource->module);
     }
     radar->userModuleFree(resource->module);
+    free(resource);
     return NULL;
 }
 
@@ -437,6 +438,7 @@ void *masterControllerExecuteInBackground(void *in) {
     if (radarCommand->radar->masterController) {
         radarCommand->radar->masterControllerExec(radarCommand->radar->masterController, radarCommand->command, NULL);
     }
+    free(radarCommand);
     return NULL;
 }
 
@@ -1078,84 +1080,93 @@ int RKFree(RKRadar *radar) {
     if (radar->active) {
         RKStop(radar);
     }
-    // Various RadarKit engines
-    if (radar->state & RKRadarStateFileManagerInitialized) {
-        RKFileManagerFree(radar->fileManager);
-    }
-    if (radar->pulseClock) {
-        RKClockFree(radar->pulseClock);
-        radar->pulseClock = NULL;
+    if (radar->tidUserModule) {
+        pthread_join(radar->tidUserModule, NULL);
+        radar->tidUserModule = (pthread_t)0;
     }
-    if (radar->positionClock) {
-        RKClockFree(radar->positionClock);
-        radar->positionClock = NULL;
+    // Transceiver, pedestal & health relay, which may still be feeding the engines
+    if (radar->pedestal) {
+        radar->pedestalFree(radar->pedestal);
+        radar->pedestal = NULL;
     }
-    if (radar->fftModule) {
-        RKFFTModuleFree(radar->fftModule);
-        radar->fftModule = NULL;
+    if (radar->transceiver) {
+        radar->transceiverFree(radar->transceiver);
+        radar->transceiver = NULL;
     }
-    if (radar->userModule && radar->userModuleFree) {
-        radar->userModuleFree(radar->userModule);
-        radar->userModule = NULL;
+    if (radar->healthRelay) {
+        radar->healthRelayFree(radar->healthRelay);
+        radar->healthRelay = NULL;
+        for (k = 0; k < RKHealthNodeCount; k++) {
+            if (radar->userDevices[k].device) {
+                radar->userDevices[k].free(radar->userDevices[k].device);
+                radar->userDevices[k].device = NULL;
+            }
+        }
     }
-    if (radar->state & RKRadarStatePulseCompressionEngineInitialized) {
+    // Various RadarKit engines, RKStop() clears the initialized bits of those that it stops
+    if (radar->pulseEngine) {
         RKPulseEngineFree(radar->pulseEngine);
         radar->pulseEngine = NULL;
     }
-    if (radar->state & RKRadarStatePulseRingFilterEngineInitialized) {
+    if (radar->pulseRingFilterEngine) {
         RKPulseRingFilterEngineFree(radar->pulseRingFilterEngine);
         radar->pulseRingFilterEngine = NULL;
     }
-    if (radar->state & RKRadarStatePositionEngineInitialized) {
+    if (radar->positionEngine) {
         RKPositionEngineFree(radar->positionEngine);
         radar->positionEngine = NULL;
     }
-    if (radar->state & RKRadarStatePositionSteerEngineInitialized) {
+    if (radar->steerEngine) {
         RKSteerEngineFree(radar->steerEngine);
         radar->steerEngine = NULL;
     }
-    if (radar->state & RKRadarStateMomentEngineInitialized) {
+    if (radar->momentEngine) {
         RKMomentEngineFree(radar->momentEngine);
         radar->momentEngine = NULL;
     }
-    if (radar->state & RKRadarStateHealthEngineInitialized) {
+    if (radar->healthEngine) {
         RKHealthEngineFree(radar->healthEngine);
         radar->healthEngine = NULL;
     }
-    if (radar->state & RKRadarStateRadarRelayInitialized) {
+    if (radar->radarRelay) {
         RKRadarRelayFree(radar->radarRelay);
         radar->radarRelay = NULL;
     }
-    if (radar->state & RKRadarStateHealthLoggerInitialized) {
+    if (radar->healthLogger) {
         RKHealthLoggerFree(radar->healthLogger);
         radar->healthLogger = NULL;
     }
-    if (radar->state & RKRadarStateSweepEngineInitialized) {
+    if (radar->sweepEngine) {
         RKSweepEngineFree(radar->sweepEngine);
         radar->sweepEngine = NULL;
     }
-    if (radar->state & RKRadarStateFileRecorderInitialized) {
+    if (radar->rawDataRecorder) {
         RKRawDataRecorderFree(radar->rawDataRecorder);
         radar->rawDataRecorder = NULL;
     }
-    // Transceiver, pedestal & health relay
-    if (radar->pedestal) {
-        radar->pedestalFree(radar->pedestal);
-        radar->pedestal = NULL;
+    if (radar->fileManager) {
+        RKFileManagerFree(radar->fileManager);
+        radar->fileManager = NULL;
     }
-    if (radar->transceiver) {
-        radar->transceiverFree(radar->transceiver);
-        radar->transceiver = NULL;
+    if (radar->hostMonitor) {
+        RKHostMonitorFree(radar->hostMonitor);
+        radar->hostMonitor = NULL;
     }
-    if (radar->healthRelay) {
-        radar->healthRelayFree(radar->healthRelay);
-        radar->healthRelay = NULL;
-        for (k = 0; k < RKHealthNodeCount; k++) {
-            if (radar->userDevices[k].device) {
-                radar->userDevices[k].free(radar->userDevices[k].device);
-                radar->userDevices[k].device = NULL;
-            }
-        }
+    if (radar->pulseClock) {
+        RKClockFree(radar->pulseClock);
+        radar->pulseClock = NULL;
+    }
+    if (radar->positionClock) {
+        RKClockFree(radar->positionClock);
+        radar->positionClock = NULL;
+    }
+    if (radar->fftModule) {
+        RKFFTModuleFree(radar->fftModule);
+        radar->fftModule = NULL;
+    }
+    if (radar->userModule && radar->userModuleFree) {
+        radar->userModuleFree(radar->userModule);
+        radar->userModule = NULL;
     }
     // Internal copies of things
     if (radar->waveform) {
@@ -1187,6 +1198,9 @@ int RKFree(RKRadar *radar) {
         free(radar->healths);
     }
     if (radar->state & RKRadarStateHealthNodesAllocated) {
+        for (k = 0; k < radar->desc.healthNodeCount; k++) {
+            free(radar->healthNodes[k].healths);
+        }
         free(radar->healthNodes);
     }
     if (radar->state & RKRadarStatePositionBufferAllocated) {
@@ -1490,11 +1504,21 @@ int RKSetWaveform(RKRadar *radar, RKWaveform *waveform) {
         radar->momentEngine->userModule = radar->userModule;
         if (old != NULL) {
             RKOldUserModule *resource = (RKOldUserModule *)malloc(sizeof(RKOldUserModule));
+            if (resource == NULL) {
+                RKLog("Error. Unable to allocate memory to release the old user module.\n");
+                return RKResultFailedToSetWaveform;
+            }
             resource->radar = radar;
             resource->module = old;
             resource->targetConfigId = config->i;
-            pthread_t tid;
-            pthread_create(&tid, NULL, &freeUserModuleDelayed, resource);
+            if (radar->tidUserModule) {
+                pthread_join(radar->tidUserModule, NULL);
+            }
+            if (pthread_create(&radar->tidUserModule, NULL, &freeUserModuleDelayed, resource)) {
+                RKLog("Error. Unable to launch a thread to release the old user module.\n");
+                radar->tidUserModule = (pthread_t)0;
+                free(resource);
+            }
         }
     }
     // Send the waveform pointers to config buffer
@@ -2641,11 +2665,22 @@ void RKPerformMasterTaskInBackground(RKRadar *radar, const char *command) {
         RKLog("Master controller is not set.\n");
         return;
     }
-    RKRadarCommand taskInput;
-    taskInput.radar = radar;
-    strncpy(taskInput.command, command, RKMaximumCommandLength - 1);
+    // The task outlives this function so it gets its own copy, which is released by the task
+    RKRadarCommand *taskInput = (RKRadarCommand *)malloc(sizeof(RKRadarCommand));
+    if (taskInput == NULL) {
+        RKLog("Error. Unable to allocate a background task.\n");
+        return;
+    }
+    memset(taskInput, 0, sizeof(RKRadarCommand));
+    taskInput->radar = radar;
+    strncpy(taskInput->command, command, RKMaximumCommandLength - 1);
     pthread_t tid;
-    pthread_create(&tid, NULL, &masterControllerExecuteInBackground, &taskInput);
+    if (pthread_create(&tid, NULL, &masterControllerExecuteInBackground, taskInput)) {
+        RKLog("Error. Unable to launch a background task.\n");
+        free(taskInput);
+        return;
+    }
+    pthread_detach(tid);
 }
 
 // General
-- 
2.43.0


From ef94d25a8c9bbbec166c90945a115b4c316a0b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 12/99] fix: buffers and locks that were not released with
 their owner

---
 source/RKFoundation.c   | 1 +
 source/RKMomentEngine.c | 4 ++++
 source/RKPulseEngine.c  | 7 +++++--
 source/RKScratch.c      | 8 ++++++++
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 3c9d9b3..052f168 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2448,6 +2448,7 @@ int RKCommandQueuePush(RKCommandQueue *queue, RKCommand *command) {
 }
 
 int RKCommandQueueFree(RKCommandQueue *queue) {
+    pthread_mutex_destroy(&queue->lock);
     free(queue->buffer);
     free(queue);
     return RKResultSuccess;
diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index f87148c..997e6b3 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -1154,6 +1154,7 @@ void RKMomentEngineFree(RKMomentEngine *engine) {
     if (engine->momentSource) {
         free(engine->momentSource);
     }
+    pthread_mutex_destroy(&engine->mutex);
     free(engine);
 }
 
@@ -1180,6 +1181,9 @@ void RKMomentEngineSetEssentials(RKMomentEngine *engine, const RKRadarDesc *desc
 
     engine->state |= RKEngineStateMemoryChange;
     bytes = engine->radarDescription->rayBufferDepth * sizeof(RKModuloPath);
+    if (engine->momentSource) {
+        free(engine->momentSource);
+    }
     engine->momentSource = (RKModuloPath *)malloc(bytes);
     if (engine->momentSource == NULL) {
         RKLog("Error. Unable to allocate momentSource.\n");
diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index ef29cdb..a9a0ad9 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -988,8 +988,8 @@ void RKPulseEngineFree(RKPulseEngine *engine) {
     if (engine->state & RKEngineStateWantActive) {
         RKPulseEngineStop(engine);
     }
-    for (int i = 0; i < engine->filterGroupCount; i++) {
-        for (int j = 0; j < engine->filterCounts[i]; j++) {
+    for (int i = 0; i < RKMaximumWaveformCount; i++) {
+        for (int j = 0; j < RKMaximumFilterCount; j++) {
             if (engine->filters[i][j] != NULL) {
                 free(engine->filters[i][j]);
             }
@@ -1061,6 +1061,9 @@ void RKPulseEngineSetEssentials(RKPulseEngine *engine, const RKRadarDesc *desc,
     engine->state |= RKEngineStateMemoryChange;
     for (int g = 0; g < RKMaximumWaveformCount; g++) {
         for (int i = 0; i < RKMaximumFilterCount; i++) {
+            if (engine->filters[g][i] != NULL) {
+                free(engine->filters[g][i]);
+            }
             POSIX_MEMALIGN_CHECK(posix_memalign((void **)&engine->filters[g][i], RKMemoryAlignSize, bytes))
             engine->memoryUsage += bytes;
         }
diff --git a/source/RKScratch.c b/source/RKScratch.c
index c728c09..62851d1 100644
--- a/source/RKScratch.c
+++ b/source/RKScratch.c
@@ -275,9 +275,17 @@ void RKMomentScratchFree(RKMomentScratch *scratch) {
     for (k = 0; k < scratch->capacity; k++) {
         free(scratch->inBuffer[k]);
         free(scratch->outBuffer[k]);
+        free(scratch->fC[k]);
+        for (j = 0; j < 2; j++) {
+            free(scratch->fS[j][k]);
+        }
     }
     free(scratch->inBuffer);
     free(scratch->outBuffer);
+    free(scratch->fC);
+    for (j = 0; j < 2; j++) {
+        free(scratch->fS[j]);
+    }
     free(scratch);
 }
 
-- 
2.43.0


From 964698f0b3482eb43fef26cdfa867e6b42c52c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 13/99] fix: threads that gave up early left their start
 operation waiting forever; server start waited for a thread that was not
 created

---
 source/RKFileManager.c     | 2 ++
 source/RKHostMonitor.c     | 3 +++
 source/RKMomentEngine.c    | 4 ++++
 source/RKPulseEngine.c     | 8 ++++++++
 source/RKPulseRingFilter.c | 8 ++++++++
 source/RKServer.c          | 1 +
 6 files changed, 26 insertions(+)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index e47c916..2f6115b 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -530,6 +530,7 @@ static void *folderWatcher(void *in) {
     engine->workers = (RKFileRemover *)malloc(engine->workerCount * sizeof(RKFileRemover));
     if (engine->workers == NULL) {
         RKLog(">%s Error. Unable to allocate an RKFileRemover.\n", engine->name);
+        engine->tic = 1;
         return (void *)RKResultFailedToCreateFileRemover;
     }
     memset(engine->workers, 0, engine->workerCount * sizeof(RKFileRemover));
@@ -559,6 +560,7 @@ static void *folderWatcher(void *in) {
         // Workers that actually remove the files (and folders)
         if (pthread_create(&worker->tid, NULL, fileRemover, worker) != 0) {
             RKLog(">%s Error. Failed to start a file remover.\n", engine->name);
+            engine->tic = 1;
             return (void *)RKResultFailedToStartFileRemover;
         }
 
diff --git a/source/RKHostMonitor.c b/source/RKHostMonitor.c
index 5477d3f..b2401d0 100644
--- a/source/RKHostMonitor.c
+++ b/source/RKHostMonitor.c
@@ -369,11 +369,13 @@ static void *hostWatcher(void *in) {
 
     if (engine->workers != NULL) {
         RKLog("%s Workers already allocated.\n", engine->name);
+        engine->tic = 1;
         return NULL;
     }
     engine->workers = (RKUnitMonitor *)malloc(MAX(3, engine->workerCount) * sizeof(RKUnitMonitor));
     if (engine->workers == NULL) {
         RKLog(">%s Error. Unable to allocate an RKUnitMonitor.\n", engine->name);
+        engine->tic = 1;
         return (void *)RKResultFailedToCreateUnitWorker;
     }
     memset(engine->workers, 0, engine->workerCount * sizeof(RKUnitMonitor));
@@ -389,6 +391,7 @@ static void *hostWatcher(void *in) {
         // Workers that actually ping the hosts
         if (pthread_create(&worker->tid, NULL, hostPinger, worker) != 0) {
             RKLog(">%s Error. Failed to start a host pinger", engine->name);
+            engine->tic = 1;
             return (void *)RKResultFailedToStartHostPinger;
         }
     }
diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 997e6b3..75ad1e0 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -635,6 +635,7 @@ static void *pulseGatherer(void *_in) {
             sem[c] = sem_open(worker->semaphoreName, O_CREAT | O_EXCL, 0600, 0);
             if (sem[c] == SEM_FAILED) {
                 RKLog(">%s Error. Unable to remove then create semaphore %s\n", engine->name, worker->semaphoreName);
+                engine->tic = 1;
                 return (void *)RKResultFailedToInitiateSemaphore;
             } else if (engine->verbose > 1) {
                 RKLog(">%s Info. Semaphore %s removed and recreated.\n", engine->name, worker->semaphoreName);
@@ -648,6 +649,7 @@ static void *pulseGatherer(void *_in) {
         }
         if (pthread_create(&worker->tid, NULL, momentEngineCore, worker) != 0) {
             RKLog(">%s Error. Failed to start a moment core.\n", engine->name);
+            engine->tic = 1;
             return (void *)RKResultFailedToStartMomentCore;
         }
     }
@@ -911,6 +913,7 @@ static void *pulseGathererV1(void *_in) {
             sem[c] = sem_open(worker->semaphoreName, O_CREAT | O_EXCL, 0600, 0);
             if (sem[c] == SEM_FAILED) {
                 RKLog(">%s Error. Unable to remove then create semaphore %s\n", engine->name, worker->semaphoreName);
+                engine->tic = 1;
                 return (void *)RKResultFailedToInitiateSemaphore;
             } else if (engine->verbose > 1) {
                 RKLog(">%s Info. Semaphore %s removed and recreated.\n", engine->name, worker->semaphoreName);
@@ -924,6 +927,7 @@ static void *pulseGathererV1(void *_in) {
         }
         if (pthread_create(&worker->tid, NULL, momentEngineCore, worker) != 0) {
             RKLog(">%s Error. Failed to start a moment core.\n", engine->name);
+            engine->tic = 1;
             return (void *)RKResultFailedToStartMomentCore;
         }
     }
diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index a9a0ad9..8e55422 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -301,6 +301,7 @@ static void *pulseEngineCore(void *_in) {
     sem_t *sem = sem_open(me->semaphoreName, O_RDWR);
     if (sem == SEM_FAILED) {
         RKLog("Error. Unable to retrieve semaphore %d\n", c);
+        me->tic = 1;
         return (void *)RKResultFailedToRetrieveSemaphore;
     };
 
@@ -347,6 +348,7 @@ static void *pulseEngineCore(void *_in) {
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&fullPeriods, RKMemoryAlignSize, RKWorkerDutyCycleBufferDepth * sizeof(double)))
     if (busyPeriods == NULL || fullPeriods == NULL) {
         RKLog("%s Error. Unable to allocate resources for duty cycle calculation\n", me->name);
+        me->tic = 1;
         return (void *)RKResultFailedToAllocateDutyCycleBuffer;
     }
     memset(busyPeriods, 0, RKWorkerDutyCycleBufferDepth * sizeof(double));
@@ -577,6 +579,7 @@ static void *pulseWatcher(void *_in) {
 
     if (engine->coreCount == 0) {
         RKLog("Error. No processing core?\n");
+        engine->tic = 1;
         return NULL;
     }
 
@@ -604,6 +607,7 @@ static void *pulseWatcher(void *_in) {
             sem[c] = sem_open(worker->semaphoreName, O_CREAT | O_EXCL, 0600, 0);
             if (sem[c] == SEM_FAILED) {
                 RKLog(">%s Error. Unable to remove then create semaphore %s\n", engine->name, worker->semaphoreName);
+                engine->tic = 1;
                 return (void *)RKResultFailedToInitiateSemaphore;
             } else if (engine->verbose > 1) {
                 RKLog(">%s Info. Semaphore %s removed and recreated.\n", engine->name, worker->semaphoreName);
@@ -617,6 +621,7 @@ static void *pulseWatcher(void *_in) {
         }
         if (pthread_create(&worker->tid, NULL, pulseEngineCore, worker) != 0) {
             RKLog(">%s Error. Failed to start a compression core.\n", engine->name);
+            engine->tic = 1;
             return (void *)RKResultFailedToStartCompressionCore;
         }
     }
@@ -779,6 +784,7 @@ static void *pulseWatcherV1(void *_in) {
 
     if (engine->coreCount == 0) {
         RKLog("Error. No processing core?\n");
+        engine->tic = 1;
         return NULL;
     }
 
@@ -806,6 +812,7 @@ static void *pulseWatcherV1(void *_in) {
             sem[c] = sem_open(worker->semaphoreName, O_CREAT | O_EXCL, 0600, 0);
             if (sem[c] == SEM_FAILED) {
                 RKLog(">%s Error. Unable to remove then create semaphore %s\n", engine->name, worker->semaphoreName);
+                engine->tic = 1;
                 return (void *)RKResultFailedToInitiateSemaphore;
             } else if (engine->verbose > 1) {
                 RKLog(">%s Info. Semaphore %s removed and recreated.\n", engine->name, worker->semaphoreName);
@@ -819,6 +826,7 @@ static void *pulseWatcherV1(void *_in) {
         }
         if (pthread_create(&worker->tid, NULL, pulseEngineCore, worker) != 0) {
             RKLog(">%s Error. Failed to start a compression core.\n", engine->name);
+            engine->tic = 1;
             return (void *)RKResultFailedToStartCompressionCore;
         }
     }
diff --git a/source/RKPulseRingFilter.c b/source/RKPulseRingFilter.c
index 062ff25..315049e 100644
--- a/source/RKPulseRingFilter.c
+++ b/source/RKPulseRingFilter.c
@@ -121,6 +121,7 @@ static void *ringFilterCore(void *_in) {
     sem_t *sem = sem_open(me->semaphoreName, O_RDWR);
     if (sem == SEM_FAILED) {
         RKLog("Error. Unable to retrieve semaphore %d\n", c);
+        me->tic = 1;
         return (void *)RKResultFailedToRetrieveSemaphore;
     };
 
@@ -161,6 +162,7 @@ static void *ringFilterCore(void *_in) {
 
     if ((me->processOrigin * sizeof(RKFloat)) % RKMemoryAlignSize > 0) {
         RKLog("%s Error. Each filter origin must align to the SIMD requirements.\n", me->name);
+        me->tic = 1;
         return NULL;
     }
     // Allocate local resources, use k to keep track of the total allocation
@@ -427,6 +429,7 @@ static void *pulseRingWatcher(void *_in) {
 
     if (engine->coreCount == 0) {
         RKLog("%s Error. No processing core?\n", engine->name);
+        engine->tic = 1;
         return NULL;
     }
 
@@ -469,6 +472,7 @@ static void *pulseRingWatcher(void *_in) {
             sem[c] = sem_open(worker->semaphoreName, O_CREAT | O_EXCL, 0600, 0);
             if (sem[c] == SEM_FAILED) {
                 RKLog(">%s Error. Unable to remove then create semaphore %s\n", engine->name, worker->semaphoreName);
+                engine->tic = 1;
                 return (void *)RKResultFailedToInitiateSemaphore;
             } else if (engine->verbose > 1) {
                 RKLog(">%s Info. Semaphore %s removed and recreated.\n", engine->name, worker->semaphoreName);
@@ -486,6 +490,7 @@ static void *pulseRingWatcher(void *_in) {
         }
         if (pthread_create(&worker->tid, NULL, ringFilterCore, worker) != 0) {
             RKLog(">%s Error. Failed to start a ring core.\n", engine->name);
+            engine->tic = 1;
             return (void *)RKResultFailedToStartRingCore;
         }
     }
@@ -686,6 +691,7 @@ static void *pulseRingWatcherV1(void *_in) {
 
     if (engine->coreCount == 0) {
         RKLog("%s Error. No processing core?\n", engine->name);
+        engine->tic = 1;
         return NULL;
     }
 
@@ -728,6 +734,7 @@ static void *pulseRingWatcherV1(void *_in) {
             sem[c] = sem_open(worker->semaphoreName, O_CREAT | O_EXCL, 0600, 0);
             if (sem[c] == SEM_FAILED) {
                 RKLog(">%s Error. Unable to remove then create semaphore %s\n", engine->name, worker->semaphoreName);
+                engine->tic = 1;
                 return (void *)RKResultFailedToInitiateSemaphore;
             } else if (engine->verbose > 1) {
                 RKLog(">%s Info. Semaphore %s removed and recreated.\n", engine->name, worker->semaphoreName);
@@ -745,6 +752,7 @@ static void *pulseRingWatcherV1(void *_in) {
         }
         if (pthread_create(&worker->tid, NULL, ringFilterCore, worker) != 0) {
             RKLog(">%s Error. Failed to start a ring core.\n", engine->name);
+            engine->tic = 1;
             return (void *)RKResultFailedToStartRingCore;
         }
     }
diff --git a/source/RKServer.c b/source/RKServer.c
index 6019006..c5078a0 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -586,6 +586,7 @@ void RKServerStart(RKServer *M) {
         RKLog("%s Error. Unable to launch main server.\n", M->name);
         M->threadId = (pthread_t)0;
         M->state = RKServerStateNull;
+        return;
     }
     while (M->state > RKServerStateNull && M->state < RKServerStateActive) {
         usleep(25000);
-- 
2.43.0


From f50921756518a30c286ee58561ef9b1fb61a75a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 14/99] fix: file manager left its remover threads running when
 one of them could not be created

---
 source/RKFileManager.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 2f6115b..6842ed5 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -560,8 +560,8 @@ static void *folderWatcher(void *in) {
         // Workers that actually remove the files (and folders)
         if (pthread_create(&worker->tid, NULL, fileRemover, worker) != 0) {
             RKLog(">%s Error. Failed to start a file remover.\n", engine->name);
-            engine->tic = 1;
-            return (void *)RKResultFailedToStartFileRemover;
+            engine->workerCount = k;
+            break;
         }
 
         while (worker->tic == 0 && engine->state & RKEngineStateWantActive) {
-- 
2.43.0


From da23a8602421702e575b2ccd9d3559337fd8d763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 15/99] fix: stopping a web socket that never ran waited for no
 thread; freeing one left its thread and SSL objects behind

---
 source/RKWebSocket.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 93fae08..85a2331 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -643,6 +643,13 @@ RKWebSocket *RKWebSocketInit(const char *host, const char *path) {
 }
 
 void RKWebSocketFree(RKWebSocket *W) {
+    RKWebSocketStop(W);
+    if (W->ssl) {
+        SSL_free(W->ssl);
+    }
+    if (W->sslContext) {
+        SSL_CTX_free(W->sslContext);
+    }
     pthread_attr_destroy(&W->threadAttributes);
     pthread_mutex_destroy(&W->lock);
     free(W);
@@ -697,6 +704,10 @@ void RKWebSocketStart(RKWebSocket *W) {
     pthread_mutex_unlock(&W->lock);
     if (pthread_create(&W->threadId, &W->threadAttributes, transporter, W)) {
         fprintf(stderr, "Unable to launch a run loop\n");
+        pthread_mutex_lock(&W->lock);
+        W->wantActive = false;
+        pthread_mutex_unlock(&W->lock);
+        W->threadId = (pthread_t)0;
     }
     return;
 }
@@ -705,7 +716,10 @@ void RKWebSocketStop(RKWebSocket *W) {
     pthread_mutex_lock(&W->lock);
     W->wantActive = false;
     pthread_mutex_unlock(&W->lock);
-    pthread_join(W->threadId, NULL);
+    if (W->threadId) {
+        pthread_join(W->threadId, NULL);
+        W->threadId = (pthread_t)0;
+    }
 }
 
 void RKWebSocketWait(RKWebSocket *W) {
-- 
2.43.0


From 65dd008a352006b3c31c32afb5421342122fdfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 16/99] fix: waits end when the server closes, the engine stops
 or a time limit passes

---
 source/RKCommandCenter.c | 23 ++++++++++++++---------
 source/RKPulseEngine.c   |  4 ++--
 source/RKRadar.c         | 10 ++++++++--
 source/RKServer.c        |  1 +
 source/RKSweepEngine.c   |  2 +-
 5 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 43d296f..4ffd792 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -121,20 +121,24 @@ int socketCommandHandler(RKOperator *O) {
             // There is no need to send a response. The delegate function socketStreamHandler sends a beacon periodically
         } else if (user->radar == NULL) {
             k = 0;
-            while (user->radar == NULL) {
+            while (user->radar == NULL && engine->server->state == RKServerStateActive && O->state == RKOperatorStateActive) {
                 usleep(100000);
                 if (++k % 10 == 0 && engine->verbose > 1) {
-                    RKLog("%s sleep 1/%.1f s   radar->state = 0x%04x\n", engine->name, (float)k * 0.1f, user->radar->state);
+                    RKLog("%s sleep 1/%.1f s   no radar\n", engine->name, (float)k * 0.1f);
                 }
             }
         } else if (user->radar->desc.initFlags & RKInitFlagSignalProcessor) {
             k = 0;
-            while (!(user->radar->state & RKRadarStateLive)) {
+            while (!(user->radar->state & RKRadarStateLive) && engine->server->state == RKServerStateActive && O->state == RKOperatorStateActive) {
                 usleep(100000);
                 if (++k % 10 == 0 && engine->verbose > 1) {
                     RKLog("%s sleep 1/%.1f s   radar->state = 0x%04x\n", engine->name, (float)k * 0.1f, user->radar->state);
                 }
             }
+            if (!(user->radar->state & RKRadarStateLive)) {
+                // The server is closing, there is no radar to execute this command
+                return RKResultRadarNotLive;
+            }
             user->commandCount++;
             if (*commandString >= '!' && *commandString <= 'z') {
                 RKLog("%s %s Received command '%s%s%s' (%p)\n",
@@ -204,7 +208,7 @@ int socketCommandHandler(RKOperator *O) {
                             uint64_t tic = user->tic;
                             do {
                                 usleep(100000);
-                            } while (tic == user->tic);
+                            } while (tic == user->tic && engine->server->state == RKServerStateActive && O->state == RKOperatorStateActive);
 
                             RKLog("%s %s Skipping to current ...", engine->name, O->name);
                             RKCommandCenterSkipToCurrent(engine, user->radar);
@@ -605,7 +609,7 @@ int socketStreamHandler(RKOperator *O) {
             }
             if (ray) {
                 k = 0;
-                while (user->rayIndex != endIndex && k < RKMaximumPacketSize - 200) {
+                while (user->rayIndex != endIndex && k < RKMaximumPacketSize - 200 && engine->server->state == RKServerStateActive) {
                     ray = RKGetRayFromBuffer(user->radar->rays, user->rayIndex);
                     if (!(ray->header.s & RKRayStatusReady)) {
                         usleep(10000);
@@ -1614,8 +1618,8 @@ RKCommandCenter *RKCommandCenterInit(void) {
 }
 
 void RKCommandCenterFree(RKCommandCenter *engine) {
-    pthread_mutex_destroy(&engine->mutex);
     RKServerFree(engine->server);
+    pthread_mutex_destroy(&engine->mutex);
     free(engine);
     return;
 }
@@ -1705,9 +1709,10 @@ void RKCommandCenterSkipToCurrent(RKCommandCenter *engine, RKRadar *radar) {
     }
 
     s = 0;
-    while (radar->pulseEngine->tic <= (2 * radar->pulseEngine->coreCount + 1) ||
-           radar->rayIndex < 2 * radar->momentEngine->coreCount ||
-           radar->healthEngine->tic < 2) {
+    while (engine->server->state == RKServerStateActive &&
+           (radar->pulseEngine->tic <= (2 * radar->pulseEngine->coreCount + 1) ||
+            radar->rayIndex < 2 * radar->momentEngine->coreCount ||
+            radar->healthEngine->tic < 2)) {
         if (++s % 10 == 0 && engine->verbose > 1) {
             RKLog("%s Sleep 1/%.1f s    %zu / %d / %zu\n", engine->name, 0.01f * s,
                   radar->pulseEngine->tic,
diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index 8e55422..bcef8dd 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -1387,9 +1387,9 @@ RKPulse *RKPulseEngineGetVacantPulse(RKPulseEngine *engine, const RKPulseStatus
     RKPulse *pulse = RKGetPulseFromBuffer(engine->pulseBuffer, k);
     if (pulse->header.s != RKPulseStatusVacant && waitMask) {
         k = 0;
-        while (!(pulse->header.s & waitMask)) {
+        while (!(pulse->header.s & waitMask) && engine->state & RKEngineStateWantActive) {
             usleep(100);
-            if (k > 10000 && k++ % 10000 == 0) {
+            if (++k % 10000 == 0) {
                 RKLog("%s Wait 1   %.1fs\n", engine->name, k * 0.0001f);
             }
         }
diff --git a/source/RKRadar.c b/source/RKRadar.c
index 78a2679..36c35ff 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1997,7 +1997,7 @@ int RKStop(RKRadar *radar) {
                   RKVariableInString("t", &t, RKValueTypeFloat));
         }
         usleep(25000);
-    } while (radar->tic < 2);
+    } while (radar->tic < 2 && s < 400);
     pthread_mutex_lock(&radar->mutex);
     radar->active = false;
     if (!(radar->state & RKRadarStateLive)) {
@@ -2218,12 +2218,18 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
 
     if (radar->desc.initFlags & RKInitFlagSignalProcessor) {
         k = 0;
-        while (!(radar->state & RKRadarStateLive)) {
+        while (!(radar->state & RKRadarStateLive) && k < 300) {
             usleep(100000);
             if (++k % 10 == 0 && radar->desc.initFlags & RKInitFlagVeryVerbose) {
                 RKLog("Sleep 1/%.1f s   radar->state = 0x%04x\n", (float)k * 0.1f, radar->state);
             }
         }
+        if (!(radar->state & RKRadarStateLive)) {
+            if (string) {
+                sprintf(string, "NAK. Radar is not live." RKEOL);
+            }
+            return RKResultRadarNotLive;
+        }
         // Process the command
         // Commands 'a', 'c', 'dr', 's', 'u', 'x', 'z' will never arrive here
         switch (commandString[0]) {
diff --git a/source/RKServer.c b/source/RKServer.c
index c5078a0..1ab08ba 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -524,6 +524,7 @@ RKServer *RKServerInit(void) {
 
 
 void RKServerFree(RKServer *M) {
+    RKServerStop(M);
     while (M->state > RKServerStateFree) {
         usleep(100000);
     }
diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index e0ad419..cdeabfd 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -650,7 +650,7 @@ void RKSweepEngineFlush(RKSweepEngine *engine) {
                 k = 0;
                 RKLog(">%s wait reset\n", engine->name);
             }
-        } while (k++ < 100 && !(engine->state & RKEngineStateSleep1));
+        } while (k++ < 100 && !(engine->state & RKEngineStateSleep1) && engine->state & RKEngineStateWantActive);
     }
     if (engine->verbose > 1) {
         RKLog("%s Engine->state = %s   rayIndex = %u / %u   tic = %zu", engine->name,
-- 
2.43.0


From 229c314d081f46f31af2814e23864f70fea4aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 17/99] fix: memory, files, sockets, semaphores and waveforms
 acquired by a function are given back on all its ways out

---
 source/RKClock.c           |  8 +++++++-
 source/RKFileHeader.c      | 12 ++++++++++--
 source/RKFoundation.c      |  1 +
 source/RKHostMonitor.c     | 13 ++++++++++---
 source/RKMomentEngine.c    |  2 ++
 source/RKPreference.c      |  1 +
 source/RKPulseEngine.c     | 14 +++++++-------
 source/RKPulseRingFilter.c | 11 ++++-------
 source/RKRadar.c           | 11 +++++++++--
 source/RKSweepEngine.c     |  7 ++-----
 source/RKSweepFile.c       |  5 +++++
 source/RKWaveform.c        | 12 ++++++++----
 source/RKWebSocket.c       |  3 +++
 13 files changed, 69 insertions(+), 31 deletions(-)

diff --git a/source/RKClock.c b/source/RKClock.c
index db01b33..38c93c0 100644
--- a/source/RKClock.c
+++ b/source/RKClock.c
@@ -35,8 +35,14 @@ RKClock *RKClockInitWithSize(const uint32_t size, const uint32_t stride) {
     clock->uBuffer = (double *)malloc(clock->size * sizeof(double));
     clock->yBuffer = (double *)malloc(clock->size * sizeof(double));
     clock->zBuffer = (double *)malloc(clock->size * sizeof(double));
-    if (clock->tBuffer == NULL || clock->xBuffer == NULL || clock->uBuffer == NULL) {
+    if (clock->tBuffer == NULL || clock->xBuffer == NULL || clock->uBuffer == NULL || clock->yBuffer == NULL || clock->zBuffer == NULL) {
         RKLog("Error. Unable to allocate internal buffers of an RKClock.\n");
+        free(clock->tBuffer);
+        free(clock->xBuffer);
+        free(clock->uBuffer);
+        free(clock->yBuffer);
+        free(clock->zBuffer);
+        free(clock);
         return NULL;
     }
     memset(clock->tBuffer, 0, clock->size * sizeof(struct timeval));
diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 85eaca0..73e3f53 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -18,8 +18,12 @@ RKFileHeader *RKFileHeaderAlloc(void) {
 }
 
 void RKFileHeaderFree(RKFileHeader *fileHeader) {
-    free(fileHeader->config.waveformDecimate);
-    free(fileHeader->config.waveform);
+    if (fileHeader->config.waveformDecimate) {
+        RKWaveformFree(fileHeader->config.waveformDecimate);
+    }
+    if (fileHeader->config.waveform) {
+        RKWaveformFree(fileHeader->config.waveform);
+    }
     free(fileHeader);
 }
 
@@ -90,6 +94,10 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         free(fileHeaderV1);
     } else {
         RKWaveform *waveform = RKWaveformReadFromReference(fid);
+        if (waveform == NULL) {
+            RKLog("Error. Failed reading the waveform of the file.\n");
+            exit(EXIT_FAILURE);
+        }
         fileHeader->config.waveform = waveform;
         fileHeader->config.waveformDecimate = RKWaveformCopy(waveform);
         RKWaveformDecimate(fileHeader->config.waveformDecimate, fileHeader->desc.pulseToRayRatio);
diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 052f168..c9f8659 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -486,6 +486,7 @@ int RKListFilesWithSamePrefix(const char *filename, char list[][RKMaximumPathLen
     if (r == false) {
         //fprintf(stderr, "RKListFilesWithSamePrefix() Unable to continue.\n");
         RKLog("RKListFilesWithSamePrefix() Not a standard filename. Early return.\n");
+        closedir(dir);
         return 0;
     }
     char *ext = RKFileExtension(filename);
diff --git a/source/RKHostMonitor.c b/source/RKHostMonitor.c
index b2401d0..102cc92 100644
--- a/source/RKHostMonitor.c
+++ b/source/RKHostMonitor.c
@@ -154,6 +154,7 @@ static void *hostPinger(void *in) {
         RKLog("%s %s Error. Failed in setsockopt() IP_RECVTTL.\n", engine->name, me->name);
         me->hostStatus = RKHostStatusUnknown;
         me->tic = 2;
+        close(sd);
         free(buff);
         return NULL;
     }
@@ -161,6 +162,7 @@ static void *hostPinger(void *in) {
         RKLog("%s %s Error. Failed in setsockopt().\n", engine->name, me->name);
         me->hostStatus = RKHostStatusUnknown;
         me->tic = 2;
+        close(sd);
         free(buff);
         return NULL;
     }
@@ -168,6 +170,7 @@ static void *hostPinger(void *in) {
         RKLog("%s %s Error. Failed in fcntl().\n", engine->name, me->name);
         me->hostStatus = RKHostStatusUnknown;
         me->tic = 2;
+        close(sd);
         free(buff);
         return NULL;
     }
@@ -222,8 +225,12 @@ static void *hostPinger(void *in) {
             if (unreachCount++ > 3) {
                 unreachCount = 0;
                 RKLog("%s %s Reinitiating socket descriptor ...\n", engine->name, me->name);
-                close(sd);
-                sd = socket(AF_INET, SOCK_DGRAM, protocol->p_proto);
+                if (sd >= 0) {
+                    close(sd);
+                }
+                if ((sd = socket(AF_INET, SOCK_DGRAM, protocol->p_proto)) < 0) {
+                    continue;
+                }
                 setsockopt(sd, IPPROTO_IP, IP_TTL, &value, sizeof(value));
                 fcntl(sd, F_SETFL, O_NONBLOCK);
             }
@@ -348,7 +355,7 @@ static void *hostPinger(void *in) {
         }
     }
 
-    if (sd) {
+    if (sd >= 0) {
         close(sd);
     }
     free(buff);
diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 75ad1e0..8b2cbd9 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -837,6 +837,7 @@ static void *pulseGatherer(void *_in) {
             sem_post(worker->sem);
         }
         pthread_join(worker->tid, NULL);
+        sem_close(worker->sem);
         sem_unlink(worker->semaphoreName);
     }
     if (engine->state & RKEngineStateActive) {
@@ -1118,6 +1119,7 @@ static void *pulseGathererV1(void *_in) {
             sem_post(worker->sem);
         }
         pthread_join(worker->tid, NULL);
+        sem_close(worker->sem);
         sem_unlink(worker->semaphoreName);
     }
 
diff --git a/source/RKPreference.c b/source/RKPreference.c
index 2f0fad1..c51b606 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -136,6 +136,7 @@ int RKPreferenceUpdate(RKPreference *preference) {
     }
 
     free(line);
+    fclose(fid);
 
     return RKResultSuccess;
 }
diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index bcef8dd..042d29b 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -297,13 +297,8 @@ static void *pulseEngineCore(void *_in) {
 
     uint32_t blindGateCount = 0;
 
-    // Find the semaphore
-    sem_t *sem = sem_open(me->semaphoreName, O_RDWR);
-    if (sem == SEM_FAILED) {
-        RKLog("Error. Unable to retrieve semaphore %d\n", c);
-        me->tic = 1;
-        return (void *)RKResultFailedToRetrieveSemaphore;
-    };
+    // Grab the semaphore
+    sem_t *sem = me->sem;
 
     // Initiate my name
     RKShortName name;
@@ -348,6 +343,9 @@ static void *pulseEngineCore(void *_in) {
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&fullPeriods, RKMemoryAlignSize, RKWorkerDutyCycleBufferDepth * sizeof(double)))
     if (busyPeriods == NULL || fullPeriods == NULL) {
         RKLog("%s Error. Unable to allocate resources for duty cycle calculation\n", me->name);
+        free(busyPeriods);
+        free(fullPeriods);
+        RKPulseBufferFree(localPulseBuffer);
         me->tic = 1;
         return (void *)RKResultFailedToAllocateDutyCycleBuffer;
     }
@@ -760,6 +758,7 @@ static void *pulseWatcher(void *_in) {
             sem_post(worker->sem);
         }
         pthread_join(worker->tid, NULL);
+        sem_close(worker->sem);
         sem_unlink(worker->semaphoreName);
     }
     if (engine->state & RKEngineStateActive) {
@@ -963,6 +962,7 @@ static void *pulseWatcherV1(void *_in) {
             sem_post(worker->sem);
         }
         pthread_join(worker->tid, NULL);
+        sem_close(worker->sem);
         sem_unlink(worker->semaphoreName);
     }
 
diff --git a/source/RKPulseRingFilter.c b/source/RKPulseRingFilter.c
index 315049e..dab040b 100644
--- a/source/RKPulseRingFilter.c
+++ b/source/RKPulseRingFilter.c
@@ -117,13 +117,8 @@ static void *ringFilterCore(void *_in) {
     const int c = me->id;
     const int ci = engine->radarDescription->initFlags & RKInitFlagManuallyAssignCPU ? engine->coreOrigin + c : -1;
 
-    // Find the semaphore
-    sem_t *sem = sem_open(me->semaphoreName, O_RDWR);
-    if (sem == SEM_FAILED) {
-        RKLog("Error. Unable to retrieve semaphore %d\n", c);
-        me->tic = 1;
-        return (void *)RKResultFailedToRetrieveSemaphore;
-    };
+    // Grab the semaphore
+    sem_t *sem = me->sem;
 
     // Initiate my name
     RKShortName name;
@@ -665,6 +660,7 @@ static void *pulseRingWatcher(void *_in) {
             sem_post(worker->sem);
         }
         pthread_join(worker->tid, NULL);
+        sem_close(worker->sem);
         sem_unlink(worker->semaphoreName);
     }
     if (engine->state & RKEngineStateActive) {
@@ -950,6 +946,7 @@ static void *pulseRingWatcherV1(void *_in) {
             sem_post(worker->sem);
         }
         pthread_join(worker->tid, NULL);
+        sem_close(worker->sem);
         sem_unlink(worker->semaphoreName);
     }
 
diff --git a/source/RKRadar.c b/source/RKRadar.c
index 36c35ff..9fc71f3 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1564,7 +1564,12 @@ int RKSetWaveformByFilename(RKRadar *radar, const char *filename) {
     }
     // Load in the waveform
     RKWaveform *waveform = RKWaveformInitFromFile(filename);
-    return RKSetWaveform(radar, waveform);
+    int r = RKSetWaveform(radar, waveform);
+    if (waveform) {
+        // The radar keeps its own copies
+        RKWaveformFree(waveform);
+    }
+    return r;
 }
 
 int RKSetWaveformToImpulse(RKRadar *radar) {
@@ -1572,7 +1577,9 @@ int RKSetWaveformToImpulse(RKRadar *radar) {
         return RKResultNoPulseCompressionEngine;
     }
     RKWaveform *waveform = RKWaveformInitAsImpulse();
-    return RKSetWaveform(radar, waveform);;
+    int r = RKSetWaveform(radar, waveform);
+    RKWaveformFree(waveform);
+    return r;
 }
 
 int RKSetPRF(RKRadar *radar, const uint32_t prf) {
diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index cdeabfd..50285f5 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -165,17 +165,13 @@ static void *sweepManager(void *in) {
 
     if (engine->productBuffer == NULL) {
         RKLog("%s Unexpected NULL productBuffer.\n", engine->name);
+        RKSweepFree(sweep);
         pthread_mutex_lock(&engine->productMutex);
         engine->business--;
         pthread_mutex_unlock(&engine->productMutex);
         return NULL;
     }
 
-    if (!(engine->state & RKEngineStateWantActive)) {
-        pthread_mutex_lock(&engine->productMutex);
-        engine->business--;
-        pthread_mutex_unlock(&engine->productMutex);
-    }
 
     // Mark the state
     engine->state |= RKEngineStateWritingFile;
@@ -565,6 +561,7 @@ RKSweepEngine *RKSweepEngineInit(void) {
     size_t bytes = RKProductBufferAlloc(&engine->productBuffer, engine->productBufferDepth, RKMaximumRaysPerSweep, 2000);
     if (engine->productBuffer == NULL) {
         RKLog("Error. Unable to allocate a product buffer for sweep engine.\n");
+        free(engine);
         return NULL;
     }
     pthread_mutex_init(&engine->productMutex, NULL);
diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index 6e2af66..c6f0edb 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -9,6 +9,7 @@
 //
 
 #include <RadarKit/RKSweepFile.h>
+#include <RadarKit/RKSweepEngine.h>
 
 static void getGlobalTextAttribute(char *dst, const char *name, const int ncid) {
     size_t n = 0;
@@ -154,6 +155,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             scratch = (void *)malloc(rayCount * capacity * sizeof(float));
             if (scratch == NULL) {
                 RKLog("Error. Unable to allocate memory for a scratch space.\n");
+                nc_close(ncid);
                 return NULL;
             }
 
@@ -161,6 +163,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             sweep = (RKSweep *)malloc(sizeof(RKSweep));
             if (sweep == NULL) {
                 RKLog("Error. Unable to allocate memory.\n");
+                nc_close(ncid);
                 free(scratch);
                 return NULL;
             }
@@ -324,6 +327,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
         if ((r = nc_open(filename, NC_NOWRITE, &ncid)) > 0) {
             RKLog("%s Error opening file %s (%s)\n", name, inputFile, nc_strerror(r));
             free(scratch);
+            RKSweepFree(sweep);
             return NULL;
         }
 
@@ -333,6 +337,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
         r = nc_inq_varid(ncid, productNames[k], &tmpId);
         if (r != NC_NOERR) {
             RKLog("Base moment %s not found.\n", productNames[k]);
+            nc_close(ncid);
             continue;
         }
         nc_get_var_float(ncid, tmpId, scratch);
diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 489f5ee..0733238 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1033,6 +1033,8 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
     r = fread(fileHeader, sizeof(RKWaveFileGlobalHeader), 1, fid);
     if (r == 0) {
         RKLog("Error. No file header from %p.\n", fid);
+        free(fileHeader);
+        return NULL;
     }
     RKWaveform *waveform = RKWaveformInitWithCountAndDepth(fileHeader->count, fileHeader->depth);
     strncpy(waveform->name, fileHeader->name, RKNameLength);
@@ -1046,6 +1048,8 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
         r = fread(waveform->filterAnchors[k], sizeof(RKFilterAnchor), fileHeader->filterCounts[k], fid);
         if (r == 0) {
             RKLog("Error. Unable to read filter anchors from %p\n", fid);
+            free(fileHeader);
+            RKWaveformFree(waveform);
             return NULL;
         }
         // Output data from the first filter is allowed up to the maximum
@@ -1055,32 +1059,32 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                 RKLog("Error. This waveform is invalid.  length = %s > depth %s\n",
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].length),
                       RKIntegerToCommaStyleString(waveform->depth));
+                free(fileHeader);
                 RKWaveformFree(waveform);
-                fclose(fid);
                 return NULL;
             }
             if (waveform->filterAnchors[k][j].origin > RKMaximumGateCount) {
                 RKLog("Error. This waveform is invalid.  origin = %s > %s (RKMaximumGateCount)\n",
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].origin),
                       RKIntegerToCommaStyleString(RKMaximumGateCount));
+                free(fileHeader);
                 RKWaveformFree(waveform);
-                fclose(fid);
                 return NULL;
             }
             if (waveform->filterAnchors[k][j].inputOrigin > RKMaximumGateCount) {
                 RKLog("Error. This waveform is invalid.  inputOrigin = %s > %s (RKMaximumGateCount)\n",
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].inputOrigin),
                       RKIntegerToCommaStyleString(RKMaximumGateCount));
+                free(fileHeader);
                 RKWaveformFree(waveform);
-                fclose(fid);
                 return NULL;
             }
             if (waveform->filterAnchors[k][j].outputOrigin > RKMaximumGateCount) {
                 RKLog("Error. This waveform is invalid.  outputOrigin = %s > %s (RKMaximumGateCount)\n",
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].outputOrigin),
                       RKIntegerToCommaStyleString(RKMaximumGateCount));
+                free(fileHeader);
                 RKWaveformFree(waveform);
-                fclose(fid);
                 return NULL;
             }
         }
diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 85a2331..d59e80f 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -590,6 +590,9 @@ RKWebSocket *RKWebSocketInit(const char *host, const char *path) {
     // Default if host == NULL
     if (host == NULL || strlen(host) == 0) {
         RKLog("%s Error. Input host cannot be %s\n", W->name, host);
+        pthread_attr_destroy(&W->threadAttributes);
+        pthread_mutex_destroy(&W->lock);
+        free(W);
         return NULL;
     }
     // Look for protocol https / http
-- 
2.43.0


From 5c69b9c4c4dd19335b72a211b438f85cfbbde345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 18/99] fix: the web socket handshake ends when the peer closes
 the connection, and keeps its own count of what it has read

---
 source/RKWebSocket.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index d59e80f..e767339 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -250,15 +250,19 @@ static int RKWebSocketConnect(RKWebSocket *W) {
     }
 
     RKSocketWrite(W, strlen(buf));
+    uint32_t size = 0;
     do {
-        r = RKSocketRead(W, r, RKWebSocketFrameSize - r);
-    } while (r == 0 || strstr((char *)buf, "\r\n\r\n") == NULL);
-    if (r < 0) {
+        r = RKSocketRead(W, size, RKWebSocketFrameSize - 1 - size);
+        if (r <= 0) {
+            break;
+        }
+        size += r;
+        buf[size] = '\0';
+    } while (size < RKWebSocketFrameSize - 1 && strstr(buf, "\r\n\r\n") == NULL);
+    if (r <= 0) {
         fprintf(stderr, "Error during handshake.\n");
-        fprintf(stderr, "%s", (char *)buf);
         return -1;
     }
-    buf[r] = '\0';
     if (W->verbose > 1) {
         printf("%s", buf);
     }
-- 
2.43.0


From 48fb4619433bac088599cc6b3030aa04a47e9b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 19/99] fix: netCDF open/create failures are negative, compare
 against NC_NOERR

---
 source/RKProductFile.c | 6 +++---
 source/RKSweepFile.c   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index 38ad3e4..6de74fd 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -65,7 +65,7 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
     }
 
     // Open a file
-    if ((j = nc_create(filename, NC_MODE, &ncid)) > 0) {
+    if ((j = nc_create(filename, NC_MODE, &ncid)) != NC_NOERR) {
         RKLog("Error. Unable to create %s   nc_create returned %d\n", filename, j);
         return RKResultFailedToOpenFileForProduct;
     }
@@ -287,7 +287,7 @@ void RKProductDimensionsFromFile(const char *filename, uint32_t *rayCount, uint3
     }
 
     // Read the first file
-    if ((r = nc_open(filename, NC_NOWRITE, &ncid)) > 0) {
+    if ((r = nc_open(filename, NC_NOWRITE, &ncid)) != NC_NOERR) {
         RKLog("%s Error opening file %s (%s)\n", name, filename, nc_strerror(r));
         return;
     }
@@ -347,7 +347,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     }
 
     // Read the first file
-    if ((r = nc_open(filename, NC_NOWRITE, &ncid)) > 0) {
+    if ((r = nc_open(filename, NC_NOWRITE, &ncid)) != NC_NOERR) {
         RKLog("%s Error opening file %s (%s)\n", name, filename, nc_strerror(r));
         return;
     }
diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index c6f0edb..1d6817d 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -110,7 +110,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
         // Read in the header from the very first file that exists
         if (RKFilenameExists(filename)) {
             // Read the first file
-            if ((r = nc_open(filename, NC_NOWRITE, &ncid)) > 0) {
+            if ((r = nc_open(filename, NC_NOWRITE, &ncid)) != NC_NOERR) {
                 RKLog("%s Error opening file %s (%s)\n", name, inputFile, nc_strerror(r));
                 return NULL;
             }
@@ -324,7 +324,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
         productList |= products[k];
 
         // Open the file
-        if ((r = nc_open(filename, NC_NOWRITE, &ncid)) > 0) {
+        if ((r = nc_open(filename, NC_NOWRITE, &ncid)) != NC_NOERR) {
             RKLog("%s Error opening file %s (%s)\n", name, inputFile, nc_strerror(r));
             free(scratch);
             RKSweepFree(sweep);
-- 
2.43.0


From 1e936a8dea7cc2f1c8cc0f322e499fecfccf1627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 20/99] fix: raw data recorder must not write to a file that
 failed to open

---
 source/RKRawDataRecorder.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index bae4ec7..e28a53d 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -191,10 +191,16 @@ static void *pulseRecorder(void *in) {
             }
             if (engine->record && config->i > 1003) {
                 RKPreparePath(filename);
+                engine->fd = open(filename, O_CREAT | O_WRONLY, 0000644);
+                if (engine->fd < 0) {
+                    RKLog("%s Error. Unable to create %s.   errno = %d (%s)\n", engine->name, filename, errno, RKErrnoString(errno));
+                    engine->fd = 0;
+                }
+            }
+            if (engine->fd) {
                 // 4-KB raw data file header
                 memcpy(&fileHeader->config, config, sizeof(RKConfig));
                 fileHeader->config.waveform = NULL;
-                engine->fd = open(filename, O_CREAT | O_WRONLY, 0000644);
                 engine->fileWriteCount = 0;
                 engine->cacheWriteIndex = 0;
                 len = RKRawDataRecorderCacheWrite(engine, fileHeader, sizeof(RKFileHeader));
-- 
2.43.0


From 37ba9c29743b41580088c2e15f37995282c00833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 21/99] fix: websocket connect must notice a failed socket()

---
 source/RKWebSocket.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index e767339..ee906dd 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -191,8 +191,9 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         return -1;
     }
 
-    if ((W->sd = socket(AF_INET, SOCK_STREAM, 0)) == 0) {
+    if ((W->sd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
         RKLog("%s Error. Failed opening socket\n", W->name);
+        W->sd = 0;
         return -1;
     }
 
-- 
2.43.0


From cc9cc198044132b11a6eef3f21253c4d12cb8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 22/99] fix: host monitor must not rely on getprotobyname()
 finding ICMP

---
 source/RKHostMonitor.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/RKHostMonitor.c b/source/RKHostMonitor.c
index 102cc92..5a7ffe0 100644
--- a/source/RKHostMonitor.c
+++ b/source/RKHostMonitor.c
@@ -82,7 +82,8 @@ static void *hostPinger(void *in) {
 
     const int c = me->id;
     const int value = 50;
-    struct protoent *protocol = getprotobyname("ICMP");
+    struct protoent *protocolEntry = getprotobyname("ICMP");
+    const int protocol = protocolEntry ? protocolEntry->p_proto : IPPROTO_ICMP;
 
     void *buff = malloc(RKHostMonitorPacketSize);
     if (buff == NULL) {
@@ -136,7 +137,7 @@ static void *hostPinger(void *in) {
     targetAddress.sin_addr.s_addr = *(unsigned int *)hostname->h_addr;
 
     // Open a socket, set some properties for ICMP
-    if ((sd = socket(AF_INET, SOCK_DGRAM, protocol->p_proto)) < 0) {
+    if ((sd = socket(AF_INET, SOCK_DGRAM, protocol)) < 0) {
         RKLog("%s %s Error. Unable to open a socket.  sd = %d   errno = %d (%s)\n", engine->name, me->name, sd, errno, RKErrnoString(errno));
         if (errno == EACCES) {
             RKLog(">%s %s Info. Use one of the following:\n", engine->name, me->name);
@@ -228,7 +229,7 @@ static void *hostPinger(void *in) {
                 if (sd >= 0) {
                     close(sd);
                 }
-                if ((sd = socket(AF_INET, SOCK_DGRAM, protocol->p_proto)) < 0) {
+                if ((sd = socket(AF_INET, SOCK_DGRAM, protocol)) < 0) {
                     continue;
                 }
                 setsockopt(sd, IPPROTO_IP, IP_TTL, &value, sizeof(value));
@@ -270,7 +271,7 @@ static void *hostPinger(void *in) {
                 }
                 if (r == txSize) {
                     offset = 0;
-                } else if (r > sizeof(RKIPV4Header) + sizeof(RKICMPHeader) && ipv4Header->protocol == protocol->p_proto) {
+                } else if (r > sizeof(RKIPV4Header) + sizeof(RKICMPHeader) && ipv4Header->protocol == protocol) {
                     ipHeaderLength = (ipv4Header->versionAndHeaderLength & 0x0f) * sizeof(uint32_t);
                     if (r >= ipHeaderLength + sizeof(RKICMPHeader)) {
                         offset = ipHeaderLength;
-- 
2.43.0


From ce307bd38d06c86dc8344a11f73802b1ba8052c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 23/99] fix: use stat() results only when the call succeeded

---
 source/RKFileManager.c | 25 +++++++++++++++++--------
 source/RKFoundation.c  |  6 ++----
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 6842ed5..5264e71 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -88,7 +88,9 @@ static int listElementsInFolder(RKPathname *list, const int maximumCapacity, con
             int r = sprintf(pathname, "%s/", path);
             strncpy(pathname + r, dir->d_name, RKMaximumPathLength - r - 1);
             pathname[RKMaximumPathLength - 1] = '\0';
-            lstat(pathname, &status);
+            if (lstat(pathname, &status) < 0) {
+                continue;
+            }
             if ((type == DT_REG && S_ISREG(status.st_mode)) ||
                 (type == DT_DIR && S_ISDIR(status.st_mode))) {
                 r = snprintf(list[k], RKFileManagerFilenameLength, "%s", dir->d_name);
@@ -208,7 +210,10 @@ static void refreshFileList(RKFileRemover *me) {
         }
         for (; j < me->count; j++) {
             sprintf(string, "%s/%s/%s", me->path, folders[k], filenames[j]);
-            stat(string, &fileStat);
+            if (stat(string, &fileStat) < 0) {
+                // The file has just been removed, it takes no space
+                fileStat.st_size = 0;
+            }
             indexedStats[j].index = j;
             indexedStats[j].folderId = k;
             indexedStats[j].time = timeFromFilename(filenames[j]);
@@ -243,7 +248,7 @@ static void refreshFileList(RKFileRemover *me) {
         me->usage = 0;
         for (k = 0; k < folderCount; k++) {
             struct dirent *dir;
-            sprintf(string, "%s/%s/%s", me->path, folders[k], filenames[j]);
+            sprintf(string, "%s/%s", me->path, folders[k]);
             DIR *did = opendir(string);
             if (did == NULL) {
                 fprintf(stderr, "Unable to list folder '%s'\n", string);
@@ -251,8 +256,9 @@ static void refreshFileList(RKFileRemover *me) {
             }
             while ((dir = readdir(did)) != NULL) {
                 sprintf(string, "%s/%s/%s", me->path, folders[k], dir->d_name);
-                stat(string, &fileStat);
-                me->usage += fileStat.st_size;
+                if (stat(string, &fileStat) == 0 && S_ISREG(fileStat.st_mode)) {
+                    me->usage += fileStat.st_size;
+                }
             }
             closedir(did);
         }
@@ -600,8 +606,7 @@ static void *folderWatcher(void *in) {
                     continue;
                 }
                 string[sizeof(string) - 1] = '\0';
-                lstat(string, &fileStat);
-                if (!S_ISREG(fileStat.st_mode)) {
+                if (lstat(string, &fileStat) < 0 || !S_ISREG(fileStat.st_mode)) {
                     continue;
                 }
                 if (fileStat.st_ctime < now - longTime) {
@@ -777,7 +782,11 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
     RKFileRemover *me = &engine->workers[type];
 
     struct stat fileStat;
-    stat(filename, &fileStat);
+    if (stat(filename, &fileStat) < 0) {
+        RKLog("%s Error. Unable to find %s.   errno = %d (%s)\n", engine->name, filename, errno, RKErrnoString(errno));
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultFileManagerInconsistentFolder;
+    }
 
     gettimeofday(&me->latestTime, NULL);
 
diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index c9f8659..9cd4a11 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1495,8 +1495,7 @@ static void *fileMonitorRunLoop(void *in) {
     engine->state |= RKEngineStateWantActive;
     engine->state ^= RKEngineStateActivating;
 
-    stat(engine->filename, &fileStat);
-    time_t mtime = fileStat.st_mtime;
+    time_t mtime = stat(engine->filename, &fileStat) == 0 ? fileStat.st_mtime : 0;
 
     RKLog("%s Started.   file = %s\n", engine->name, engine->filename);
 
@@ -1511,8 +1510,7 @@ static void *fileMonitorRunLoop(void *in) {
             usleep(100000);
         }
         engine->state ^= RKEngineStateSleep1;
-        stat(engine->filename, &fileStat);
-        if (mtime != fileStat.st_mtime) {
+        if (stat(engine->filename, &fileStat) == 0 && mtime != fileStat.st_mtime) {
             mtime = fileStat.st_mtime;
             RKLog("%s File '%s' modified.\n", engine->name, engine->filename);
             if (engine->callbackRoutine) {
-- 
2.43.0


From dddf8715fc39acb0f6c8dc6235c2e2e4ff51a389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 24/99] fix: file manager checks path, folder and file name
 lengths before storing them

---
 source/RKFileManager.c | 53 ++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 5264e71..3798a7b 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -804,41 +804,31 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
     // Copy over the filename and stats to the internal buffer
     uint32_t k = me->count;
 
-    // Extract out the date portion
-    char *lastPart = strrchr(filename, '/');
-    if (lastPart) {
-        if (strlen(lastPart) > RKFileManagerFilenameLength - 1) {
-            RKLog("%s Error. I could crash here.\n", me->name);
-        }
-        if ((void *)&filenames[k] > ((void *)filenames) + me->capacity * sizeof(RKPathname) - RKFileManagerFilenameLength) {
-            RKLog("%s Error. I could crash here.   %p vs %p   k = %d / %d\n", me->name,
-                  (void *)&filenames[k], ((void *)filenames) + me->capacity * sizeof(RKPathname) - RKFileManagerFilenameLength,
-                  k, me->capacity);
-        }
-        strncpy(filenames[k], lastPart + 1, RKFileManagerFilenameLength - 1);
-    } else {
-        if (strlen(filename) > RKFileManagerFilenameLength - 1) {
-            RKLog("%s %s Warning. Filename is too long.\n", engine->name,  me->name);
-        }
-        strncpy(filenames[k], filename, RKFileManagerFilenameLength - 1);
-    }
-
-    if (strncmp(me->path, filename, strlen(me->path))) {
+    // The file must be in a subfolder of what this remover looks after, i.e., [me->path]/YYYYMMDD/RK-YYYYMMDD-...
+    size_t pathLength = strlen(me->path);
+    if (strncmp(me->path, filename, pathLength) || filename[pathLength] != '/' || strlen(filename) >= RKMaximumPathLength) {
         RKLog("%s File %s does not belong here (%s).\n", engine->name, filename, me->path);
         pthread_mutex_unlock(&engine->mutex);
         return RKResultFileManagerInconsistentFolder;
     }
 
-    // [me->path]/YYYYMMDD/RK-YYYYMMDD-...
-
     int folderId = 0;
     char *folder = engine->scratch;
-    strcpy(folder, filename + strlen(me->path) + 1);
+    strcpy(folder, filename + pathLength + 1);
     char *e = strrchr(folder, '/');
-    *e = '\0';
-    if (strlen(folder) > RKFileManagerFilenameLength - 1) {
-        RKLog("%s Warning. Folder name is too long.\n", engine->name);
+    if (e == NULL) {
+        RKLog("%s File %s is not in a dated folder.\n", engine->name, filename);
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultFileManagerInconsistentFolder;
     }
+    *e++ = '\0';
+    if (strlen(folder) > RKFileManagerFilenameLength - 1 || strlen(e) > RKFileManagerFilenameLength - 1) {
+        RKLog("%s Error. Folder or filename of %s is too long.\n", engine->name, filename);
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultFileManagerInconsistentFolder;
+    }
+    strcpy(filenames[k], e);
+
     if (k == 0) {
         // The data folder is empty
         folderId = 0;
@@ -846,9 +836,16 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
     } else {
         folderId = indexedStats[k - 1].folderId;
         // If same folder as the previous entry, no need to add another folder in the list. Add one otherwise.
-        if (strcmp(folder, folders[indexedStats[k - 1].folderId])) {
+        if (strcmp(folder, folders[folderId])) {
+            if (folderId + 1 >= RKFileManagerFolderListCapacity) {
+                // The list of folders is full, only keep track of the usage from here on
+                me->reusable = false;
+                me->usage += fileStat.st_size;
+                pthread_mutex_unlock(&engine->mutex);
+                return RKResultFileManagerBufferNotResuable;
+            }
             folderId++;
-            strcpy(folders[indexedStats[k - 1].folderId + 1], folder);
+            strcpy(folders[folderId], folder);
         }
     }
     //printf("%s --> %s / %s (%d)\n", filename, folder, filenames[k], folderId);
-- 
2.43.0


From c204895e4dc60bbf8a8ac6ee557290566a5d5dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 25/99] fix: pgen and rknchead notice a failed open

---
 examples/pgen.c     | 4 ++++
 examples/rknchead.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/examples/pgen.c b/examples/pgen.c
index 0debf49..95b86d9 100644
--- a/examples/pgen.c
+++ b/examples/pgen.c
@@ -441,6 +441,10 @@ void proc(UserParams *arg) {
         }
         RKLog("Output: \033[38;5;82m%s\033[m\n", outputFilename);
         outfid = fopen(outputFilename, "w");
+        if (outfid == NULL) {
+            RKLog("Error. Unable to create %s.\n", outputFilename);
+            exit(EXIT_FAILURE);
+        }
 
         sprintf(outputFileHeader->preface, "RadarKit/IQ");
         outputFileHeader->dataType = RKRawDataTypeAfterMatchedFilter;
diff --git a/examples/rknchead.c b/examples/rknchead.c
index 632715a..95fb986 100644
--- a/examples/rknchead.c
+++ b/examples/rknchead.c
@@ -19,6 +19,10 @@ int main(int argc, const char **argv) {
     for (int i = 0; i < 500; i++) {
         printf("Trial #%04d   Filename = %s\n", i, filename);
         RKProductCollection *collection = RKProductCollectionInitWithFilename(filename);
+        if (collection == NULL) {
+            RKLog("Error. Unable to read %s.\n", filename);
+            return EXIT_FAILURE;
+        }
         k += collection->count;
         RKProductCollectionFree(collection);
     }
-- 
2.43.0


From a069dc970f5e4a156c10889b8adfa2f094c0d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 26/99] fix: pgen releases its filters before the waveform that
 describes them

---
 examples/pgen.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/examples/pgen.c b/examples/pgen.c
index 95b86d9..0809e94 100644
--- a/examples/pgen.c
+++ b/examples/pgen.c
@@ -856,6 +856,13 @@ void proc(UserParams *arg) {
         RKSweepFree(sweep);
     }
 
+    for (k = 0; k < config->waveform->count; k++) {
+        for (j = 0; j < config->waveform->filterCounts[k]; j++) {
+            RKLog("k = %d  j = %d  len = %u\n", k, j, config->waveform->filterAnchors[k][j].length);
+            free(filters[k][j]);
+        }
+    }
+
     if (fileHeader->config.waveform) {
         RKWaveformFree(fileHeader->config.waveform);
         RKWaveformFree(fileHeader->config.waveformDecimate);
@@ -866,13 +873,6 @@ void proc(UserParams *arg) {
     RKMomentScratchFree(space);
     RKFFTModuleFree(fftModule);
 
-    for (k = 0; k < config->waveform->count; k++) {
-        for (j = 0; j < config->waveform->filterCounts[k]; j++) {
-            RKLog("k = %d  j = %d  len = %u\n", k, j, config->waveform->filterAnchors[k][j].length);
-            free(filters[k][j]);
-        }
-    }
-
     RKCompressionScratchFree(scratch);
 
     free(fileHeader);
-- 
2.43.0


From 03dddffce49200b4d8ad2d148b80a94b70678cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 27/99] fix: version 5 header noise copy must not run into the
 waveform pointers

---
 examples/pgen.c       | 3 ++-
 source/RKFileHeader.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/examples/pgen.c b/examples/pgen.c
index 0809e94..ad8fc35 100644
--- a/examples/pgen.c
+++ b/examples/pgen.c
@@ -130,7 +130,8 @@ void proc(UserParams *arg) {
         fileHeader->config.pulseGateSize = fileHeaderV1->config.pulseGateSize;
         fileHeader->config.ringFilterGateCount = fileHeaderV1->config.pulseRingFilterGateCount;
         fileHeader->config.waveformId[0] = fileHeaderV1->config.waveformId[0];
-        memcpy(fileHeader->config.noise, fileHeaderV1->config.noise, (6 + 22 * 2 + 22 + 22 + 2) * sizeof(RKFloat));
+        memcpy(fileHeader->config.noise, fileHeaderV1->config.noise, offsetof(RKConfigV1, waveform) - offsetof(RKConfigV1, noise));
+        memcpy(fileHeader->config.vcpDefinition, fileHeaderV1->config.vcpDefinition, sizeof(fileHeader->config.vcpDefinition));
         strcpy(fileHeader->config.waveformName, fileHeaderV1->config.waveform);
         strcat(fileHeader->config.waveformName, "-syn");
         // Initialize a waveformDecimate that matches the original config->filterAnchors
diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 73e3f53..58cba59 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -70,7 +70,8 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         fileHeader->config.pulseGateSize = fileHeaderV1->config.pulseGateSize;
         fileHeader->config.ringFilterGateCount = fileHeaderV1->config.pulseRingFilterGateCount;
         fileHeader->config.waveformId[0] = fileHeaderV1->config.waveformId[0];
-        memcpy(fileHeader->config.noise, fileHeaderV1->config.noise, (6 + 22 * 2 + 22 + 22 + 2) * sizeof(RKFloat));
+        memcpy(fileHeader->config.noise, fileHeaderV1->config.noise, offsetof(RKConfigV1, waveform) - offsetof(RKConfigV1, noise));
+        memcpy(fileHeader->config.vcpDefinition, fileHeaderV1->config.vcpDefinition, sizeof(fileHeader->config.vcpDefinition));
         strcpy(fileHeader->config.waveformName, fileHeaderV1->config.waveform);
         strcat(fileHeader->config.waveformName, "-syn");
         // Initialize a waveformDecimate that matches the original config->filterAnchors
-- 
2.43.0


From 8a93578b98b703b5017fa79b4ca4943074737dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 28/99] fix: data path copy is bounded by the member it goes to

---
 source/RKRadar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 9fc71f3..008a84f 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1405,7 +1405,7 @@ int RKSetVerbosityUsingArray(RKRadar *radar, const uint8_t *array) {
 }
 
 int RKSetDataPath(RKRadar *radar, const char *path) {
-    memcpy(radar->desc.dataPath, path, RKMaximumPathLength - 1);
+    snprintf(radar->desc.dataPath, sizeof(radar->desc.dataPath), "%s", path);
     RKSetRootDataFolder(path);
     return RKResultSuccess;
 }
-- 
2.43.0


From 7a6aae7a879b7dfec466462828d543e7261bc6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 29/99] fix: preference keyword and value stay terminated

---
 source/RKPreference.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index c51b606..eeeb1c3 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -74,7 +74,9 @@ int RKPreferenceUpdate(RKPreference *preference) {
             while (*s != '\0' && (*s != ' ' && *s != '\t')) {
                 s++;
             }
-            *s++ = '\0';
+            if (*s != '\0') {
+                *s++ = '\0';
+            }
             // Now, find the first character
             while (*s != '\0' && (*s == ' ' || *s == '\t')) {
                 s++;
@@ -89,8 +91,8 @@ int RKPreferenceUpdate(RKPreference *preference) {
                     *e = '\0';
                 }
             }
-            strncpy(preference->objects[k].keyword, line, RKNameLength);
-            strncpy(preference->objects[k].valueString, s, RKMaximumStringLength);
+            strncpy(preference->objects[k].keyword, line, RKNameLength - 1);
+            strncpy(preference->objects[k].valueString, s, RKMaximumStringLength - 1);
             RKStripTail(preference->objects[k].valueString);
             preference->objects[k].isValid = true;
             if ((preference->objects[k].valueString[0] >= '0' && preference->objects[k].valueString[0] <= '9') ||
-- 
2.43.0


From 22ef7eec25b20a18e4791132d41a36ebf4da621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 30/99] restore examples/ as they were (their fixes are
 recorded as findings instead)

---
 examples/pgen.c     | 21 ++++++++-------------
 examples/rknchead.c |  4 ----
 2 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/examples/pgen.c b/examples/pgen.c
index ad8fc35..0debf49 100644
--- a/examples/pgen.c
+++ b/examples/pgen.c
@@ -130,8 +130,7 @@ void proc(UserParams *arg) {
         fileHeader->config.pulseGateSize = fileHeaderV1->config.pulseGateSize;
         fileHeader->config.ringFilterGateCount = fileHeaderV1->config.pulseRingFilterGateCount;
         fileHeader->config.waveformId[0] = fileHeaderV1->config.waveformId[0];
-        memcpy(fileHeader->config.noise, fileHeaderV1->config.noise, offsetof(RKConfigV1, waveform) - offsetof(RKConfigV1, noise));
-        memcpy(fileHeader->config.vcpDefinition, fileHeaderV1->config.vcpDefinition, sizeof(fileHeader->config.vcpDefinition));
+        memcpy(fileHeader->config.noise, fileHeaderV1->config.noise, (6 + 22 * 2 + 22 + 22 + 2) * sizeof(RKFloat));
         strcpy(fileHeader->config.waveformName, fileHeaderV1->config.waveform);
         strcat(fileHeader->config.waveformName, "-syn");
         // Initialize a waveformDecimate that matches the original config->filterAnchors
@@ -442,10 +441,6 @@ void proc(UserParams *arg) {
         }
         RKLog("Output: \033[38;5;82m%s\033[m\n", outputFilename);
         outfid = fopen(outputFilename, "w");
-        if (outfid == NULL) {
-            RKLog("Error. Unable to create %s.\n", outputFilename);
-            exit(EXIT_FAILURE);
-        }
 
         sprintf(outputFileHeader->preface, "RadarKit/IQ");
         outputFileHeader->dataType = RKRawDataTypeAfterMatchedFilter;
@@ -857,13 +852,6 @@ void proc(UserParams *arg) {
         RKSweepFree(sweep);
     }
 
-    for (k = 0; k < config->waveform->count; k++) {
-        for (j = 0; j < config->waveform->filterCounts[k]; j++) {
-            RKLog("k = %d  j = %d  len = %u\n", k, j, config->waveform->filterAnchors[k][j].length);
-            free(filters[k][j]);
-        }
-    }
-
     if (fileHeader->config.waveform) {
         RKWaveformFree(fileHeader->config.waveform);
         RKWaveformFree(fileHeader->config.waveformDecimate);
@@ -874,6 +862,13 @@ void proc(UserParams *arg) {
     RKMomentScratchFree(space);
     RKFFTModuleFree(fftModule);
 
+    for (k = 0; k < config->waveform->count; k++) {
+        for (j = 0; j < config->waveform->filterCounts[k]; j++) {
+            RKLog("k = %d  j = %d  len = %u\n", k, j, config->waveform->filterAnchors[k][j].length);
+            free(filters[k][j]);
+        }
+    }
+
     RKCompressionScratchFree(scratch);
 
     free(fileHeader);
diff --git a/examples/rknchead.c b/examples/rknchead.c
index 95fb986..632715a 100644
--- a/examples/rknchead.c
+++ b/examples/rknchead.c
@@ -19,10 +19,6 @@ int main(int argc, const char **argv) {
     for (int i = 0; i < 500; i++) {
         printf("Trial #%04d   Filename = %s\n", i, filename);
         RKProductCollection *collection = RKProductCollectionInitWithFilename(filename);
-        if (collection == NULL) {
-            RKLog("Error. Unable to read %s.\n", filename);
-            return EXIT_FAILURE;
-        }
         k += collection->count;
         RKProductCollectionFree(collection);
     }
-- 
2.43.0


From fb051d2c2fb8d603c77b11191493888709526e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 31/99] fix: calibration loops run over the filters there are

---
 source/RKCalibrator.c   | 2 +-
 source/RKMomentEngine.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKCalibrator.c b/source/RKCalibrator.c
index 0c3ccb8..1eb708b 100644
--- a/source/RKCalibrator.c
+++ b/source/RKCalibrator.c
@@ -13,7 +13,7 @@ void RKCalibratorSimple(RKUserResource _Nullable ignore, RKMomentScratch *space)
     RKFloat r = 0.0f;
     RKConfig *config = space->config;
     RKFilterAnchor *filterAnchors = config->waveformDecimate->filterAnchors[0];
-    for (k = 0; k < config->waveformDecimate->count; k++) {
+    for (k = 0; k < config->waveformDecimate->filterCounts[0]; k++) {
         //RKLog("RKCalibratorSimple: k=%d: %d ... %d\n", k, filterAnchors[k].outputOrigin, MIN(filterAnchors[k].outputOrigin + filterAnchors[k].maxDataLength, space->gateCount));
         for (i = filterAnchors[k].inputOrigin; i < MIN(filterAnchors[k].outputOrigin + filterAnchors[k].maxDataLength, space->gateCount); i++) {
             r = (RKFloat)i * space->gateSizeMeters;
diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 8b2cbd9..9c0975e 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -418,7 +418,7 @@ static void *momentEngineCore(void *in) {
                       RKFloatToCommaStyleString(1.0f / config->prt[0]), space->velocityFactor);
                 if (engine->verbose > 1) {
                     for (p = 0; p < 2; p++) {
-                        for (k = 0; k < config->waveform->count; k++) {
+                        for (k = 0; k < config->waveformDecimate->filterCounts[0]; k++) {
                             RKLog(">%s ZCal[%d][%s] = %.2f + %.2f - %.2f - %.2f = %.2f dB @ %d ..< %d\n",
                                   me->name, k,
                                   p == 0 ? "H" : (p == 1 ? "V" : "-"),
-- 
2.43.0


From 50ffa1c6ca3ba9c6a72b5b6238ca12bf0881b205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 32/99] fix: status strings come from a slot of the status ring

---
 source/RKHealthEngine.c | 2 +-
 source/RKHealthLogger.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKHealthEngine.c b/source/RKHealthEngine.c
index 4ff5987..31c846e 100644
--- a/source/RKHealthEngine.c
+++ b/source/RKHealthEngine.c
@@ -377,5 +377,5 @@ int RKHealthEngineStop(RKHealthEngine *engine) {
 }
 
 char *RKHealthEngineStatusString(RKHealthEngine *engine) {
-    return engine->statusBuffer[RKPreviousModuloS(engine->statusBufferIndex, engine->radarDescription->healthBufferDepth)];
+    return engine->statusBuffer[RKPreviousModuloS(engine->statusBufferIndex, RKBufferSSlotCount)];
 }
diff --git a/source/RKHealthLogger.c b/source/RKHealthLogger.c
index 88b113f..c0654e4 100644
--- a/source/RKHealthLogger.c
+++ b/source/RKHealthLogger.c
@@ -231,5 +231,5 @@ int RKHealthLoggerStop(RKHealthLogger *engine) {
 }
 
 char *RKHealthLoggerStatusString(RKHealthLogger *engine) {
-    return engine->statusBuffer[RKPreviousModuloS(engine->statusBufferIndex, engine->radarDescription->healthBufferDepth)];
+    return engine->statusBuffer[RKPreviousModuloS(engine->statusBufferIndex, RKBufferSSlotCount)];
 }
-- 
2.43.0


From 9642cc66e1e8e8e5bfa484cc057b9e5881d456ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 33/99] fix: moment cores keep status slots and pulse paths in
 range

---
 source/RKMomentEngine.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 9c0975e..81c2e53 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -245,7 +245,7 @@ static void *momentEngineCore(void *in) {
     uint32_t io = engine->radarDescription->rayBufferDepth - engine->coreCount + c;
 
     // Update index of the status for current ray
-    uint32_t iu = RKBufferSSlotCount - engine->coreCount + c;
+    uint32_t iu = (RKBufferSSlotCount - engine->coreCount % RKBufferSSlotCount + c) % RKBufferSSlotCount;
 
     // Start and end indices of the input pulses
     uint32_t is;
@@ -330,7 +330,7 @@ static void *momentEngineCore(void *in) {
 
         // The index path of the source of this ray
         path = engine->momentSource[io];
-        if (path.origin > engine->radarDescription->pulseBufferDepth || path.length > engine->radarDescription->pulseBufferDepth) {
+        if (path.origin >= engine->radarDescription->pulseBufferDepth || path.length >= MIN(RKMaximumPulsesPerRay, engine->radarDescription->pulseBufferDepth)) {
             RKLog("%s Warning. Unexpected path->origin = %d   path->length = %d   io = %d\n", me->name, path.origin, path.length, io);
             path.origin = 0;
             path.length = 1;
@@ -507,7 +507,7 @@ static void *momentEngineCore(void *in) {
         ray->header.s |= RKRayStatusReady;
 
         // Status of the ray
-        iu = RKNextNModuloS(iu, engine->coreCount, RKBufferSSlotCount);
+        iu = (iu + engine->coreCount) % RKBufferSSlotCount;
         string = engine->rayStatusBuffer[iu];
         i = io * (RKStatusBarWidth + 1) / engine->radarDescription->rayBufferDepth;
         memset(string, '.', RKStatusBarWidth);
@@ -734,7 +734,7 @@ static void *pulseGatherer(void *_in) {
                 count = 0;
                 i1 = i0;
             }
-            if (i1 != i0 || count == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
+            if (i1 != i0 || count == RKMaximumPulsesPerRay - 1 || pulse->header.marker & RKMarkerSweepEnd) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     // Sweep engine looks for i0 change and share that pulse. Remove for non-sharing mode.
@@ -1041,7 +1041,7 @@ static void *pulseGathererV1(void *_in) {
                 count = 0;
                 i1 = i0;
             }
-            if (i1 != i0 || count == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
+            if (i1 != i0 || count == RKMaximumPulsesPerRay - 1 || pulse->header.marker & RKMarkerSweepEnd) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     if (pulse->header.marker & RKMarkerSweepEnd) {
-- 
2.43.0


From 09186fbda9399e449a23da58ff8806e80345a3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 34/99] fix: command center refuses products and radars it has
 no room for

---
 source/RKCommandCenter.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 4ffd792..d392326 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -291,6 +291,11 @@ int socketCommandHandler(RKOperator *O) {
 
                 case 'u':
                     // Turn this user into an active node with user product return
+                    if (user->productCount >= RKMaximumProductCount) {
+                        sprintf(user->commandResponse, "NAK. Unable to register more products." RKEOL);
+                        RKOperatorSendCommandResponse(O, user->commandResponse);
+                        break;
+                    }
                     RKParseProductDescription(&user->productDescriptions[user->productCount], commandString + 1);
                     RKLog("%s Registering external product %d: '%s' (%s) ...", engine->name,
                           user->productDescriptions[user->productCount].key,
@@ -1639,6 +1644,7 @@ void RKCommandCenterSetPort(RKCommandCenter *engine, const int port) {
 void RKCommandCenterAddRadar(RKCommandCenter *engine, RKRadar *radar) {
     if (engine->radarCount >= 4) {
         RKLog("%s unable to add another radar.\n", engine->name);
+        return;
     }
     engine->radars[engine->radarCount] = radar;
     engine->radarCount++;
@@ -1661,10 +1667,11 @@ void RKCommandCenterRemoveRadar(RKCommandCenter *engine, RKRadar *radar) {
     for (i = 0; i < engine->radarCount; i++) {
         if (engine->radars[i] == radar) {
             RKLog("%s Removing '%s' ...\n", engine->name, radar->desc.name);
-            while (i < engine->radarCount - 1) {
-                engine->radars[i] = engine->radars[i + 1];
+            for (j = i; j < engine->radarCount - 1; j++) {
+                engine->radars[j] = engine->radars[j + 1];
             }
             engine->radarCount--;
+            i--;
         }
     }
     for (i = 0; i < engine->server->maxClient; i++) {
-- 
2.43.0


From 7ba9701c7919591f0d7e2fe11f931ab477f3faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 35/99] fix: root data folder and file list stay in their
 arrays

---
 source/RKFoundation.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 9cd4a11..7be482b 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -352,9 +352,9 @@ int RKSetRootDataFolder(const char *folder) {
     if (strlen(folder) > RKMaximumPathLength - 64) {
         fprintf(stderr, "WARNING. Very long root folder.\n");
     }
-    sprintf(rkGlobalParameters.rootDataFolder, "%s", folder);
+    snprintf(rkGlobalParameters.rootDataFolder, sizeof(rkGlobalParameters.rootDataFolder), "%s", folder);
     size_t len = strlen(rkGlobalParameters.rootDataFolder);
-    while (rkGlobalParameters.rootDataFolder[len - 1] == '/') {
+    while (len > 0 && rkGlobalParameters.rootDataFolder[len - 1] == '/') {
         len--;
     }
     rkGlobalParameters.rootDataFolder[len] = '\0';
@@ -518,7 +518,7 @@ int RKListFilesWithSamePrefix(const char *filename, char list[][RKMaximumPathLen
     strcpy(desiredSymbol[k++], "P");
     strcpy(desiredSymbol[k++], "R");
     strcpy(desiredSymbol[k++], "K");
-    for (k = 0; k < count; k++) {
+    for (k = 0; k < MIN(count, 7); k++) {
         RKGetSymbolFromFilename(list[k], symbol);
         //printf("k = %d   symbol = %s\n", k, symbol);
         if (!strcmp(symbol, desiredSymbol[k])) {
-- 
2.43.0


From 19b2924eb1be0f7c995a3ec5361d4d3400b84ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 36/99] fix: pulse engine validates filter groups and counts

---
 source/RKPulseEngine.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index 042d29b..980cbdc 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -1135,18 +1135,26 @@ int RKPulseEngineResetFilters(RKPulseEngine *engine) {
     // If engine->filterGroupCount is set to 0, gid may be undefined segmentation fault
     engine->filterGroupCount = 1;
     engine->filterCounts[0] = 1;
-    for (int k = 1; k < RKMaximumFilterCount; k++) {
+    for (int k = 1; k < RKMaximumWaveformCount; k++) {
         engine->filterCounts[k] = 0;
     }
     return RKResultSuccess;
 }
 
 int RKPulseEngineSetFilterCountOfGroup(RKPulseEngine *engine, const int group, const int count) {
+    if (group < 0 || group >= RKMaximumWaveformCount || count < 0 || count > RKMaximumFilterCount) {
+        RKLog("%s Error. Filter count %d of group %d is invalid.\n", engine->name, count, group);
+        return RKResultFailedToSetFilter;
+    }
     engine->filterCounts[group] = count;
     return RKResultSuccess;
 }
 
 int RKPulseEngineSetFilterGroupCount(RKPulseEngine *engine, const int groupCount) {
+    if (groupCount < 1 || groupCount > RKMaximumWaveformCount) {
+        RKLog("%s Error. Filter group count %d is invalid.\n", engine->name, groupCount);
+        return RKResultFailedToSetFilter;
+    }
     engine->filterGroupCount = groupCount;
     return RKResultSuccess;
 }
@@ -1169,11 +1177,11 @@ int RKPulseEngineSetGroupFilter(RKPulseEngine *engine, const RKComplex *filter,
         RKLog("Warning. Pulse buffer has not been set.\n");
         return RKResultNoPulseBuffer;
     }
-    if (group >= RKMaximumWaveformCount) {
+    if (group < 0 || group >= RKMaximumWaveformCount) {
         RKLog("Error. Filter group %d is invalid.\n", group);
         return RKResultFailedToSetFilter;
     }
-    if (index >= RKMaximumFilterCount) {
+    if (index < 0 || index >= RKMaximumFilterCount) {
         RKLog("Error. Filter index %d is invalid.\n", index);
         return RKResultFailedToSetFilter;
     }
-- 
2.43.0


From ed0acf9ff74010a6ecb40131f2d25eafcb989602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 37/99] fix: user device number is checked

---
 source/RKRadar.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 008a84f..312a2d1 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1281,6 +1281,10 @@ int RKSeUserDevice(RKRadar *radar,
                    RKHealthRelay (*initRoutine)(RKRadar *, void *),
                    int (*execRoutine)(RKHealthRelay, const char *, char *),
                    int (*freeRoutine)(RKHealthRelay)) {
+    if (i >= RKHealthNodeCount) {
+        RKLog("Error. Health node %d of user device is invalid.\n", i);
+        return RKResultTooBig;
+    }
     radar->userDevices[i].initInput = initInput;
     radar->userDevices[i].init = initRoutine;
     radar->userDevices[i].exec = execRoutine;
-- 
2.43.0


From c23094b63035f5478e076fb670764dda8389adf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 38/99] fix: steer engine scan tables stay within capacity

---
 source/RKSteerEngine.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 702995a..d2b9d13 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -135,11 +135,11 @@ void RKSteerEngineArmSweeps(RKSteerEngine *engine, const RKScanRepeat repeat) {
 
 int RKSteerEngineAddLineupSweep(RKSteerEngine *engine, const RKScanPath scan) {
     RKScanObject *V = &engine->vcpHandle;
-    if (V->inTheHoleCount < RKMaximumScanCount) {
+    if (V->inTheHoleCount < RKMaximumScanCount && V->onDeckCount < RKMaximumScanCount) {
         V->inTheHoleScans[V->inTheHoleCount++] = scan;
         V->onDeckScans[V->onDeckCount++] = scan;
     } else {
-        RKLog("%s Error. Cannot add more scans.  V->inTheHoleCount = %d\n", engine->name, V->inTheHoleCount);
+        RKLog("%s Error. Cannot add more scans.  V->inTheHoleCount = %d   V->onDeckCount = %d\n", engine->name, V->inTheHoleCount, V->onDeckCount);
         return RKResultTooBig;
     }
     return RKResultSuccess;
@@ -855,7 +855,7 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
     // Sweep ended, go to the next sweep
     if (V->progress & RKScanProgressEnd) {
         V->progress ^= RKScanProgressEnd;
-        V->i = RKNextModuloS(V->i, V->sweepCount);
+        V->i = V->i + 1 < V->sweepCount ? V->i + 1 : 0;
         if (V->i == 0) {
             if (V->option & RKScanOptionRepeat) {
                 RKSteerEngineNextHitter(engine);
-- 
2.43.0


From 8218828a19d7331c4483b0104d9e06b482b37aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 39/99] fix: sweep collection checks its scratch space number

---
 source/RKSweepEngine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 50285f5..9f3bb93 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -827,6 +827,10 @@ RKSweep *RKSweepCollect(RKSweepEngine *engine, const uint8_t scratchSpaceIndex)
     int k;
     RKSweep *sweep = NULL;
 
+    if (scratchSpaceIndex >= RKSweepScratchSpaceDepth) {
+        RKLog("%s Error. Sweep scratch space %u is invalid.\n", engine->name, scratchSpaceIndex);
+        return NULL;
+    }
     if (engine->verbose > 2) {
         RKLog("%s %s   anchorIndex = %u\n", engine->name, name, scratchSpaceIndex);
     }
-- 
2.43.0


From 9f045e8775e18033d2b06d637e3dd9303e3675cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 40/99] fix: preference values stop at what an entry holds

---
 source/RKPreference.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index eeeb1c3..67b216b 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -201,7 +201,7 @@ int RKPreferenceGetValueOfKeyword(RKPreference *preference, const int verb, cons
                           calibration->PCal[i]);
         }
     } else {
-        for (i = 0; i < count; i++) {
+        for (i = 0; i < MIN(count, 4); i++) {
             switch (type) {
                 case RKParameterTypeInt:
                     ((int *)target)[i] =  (int)MIN(MAX(object->doubleValues[i], -1.0e9), 1.0e9);
-- 
2.43.0


From 198713e294d333daaf9d50d4a6da2a4d788a8b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 41/99] fix: waveform from sample arrays stops at the groups it
 has

---
 source/RKWaveform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 0733238..8446f45 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -111,7 +111,7 @@ RKWaveform *RKWaveformInitFromSampleArrays(const RKComplex **samples, const uint
     }
 
     // Everything simple, no TFM business
-    for (int j = 0; j < count; j++) {
+    for (int j = 0; j < waveform->count; j++) {
         waveform->filterCounts[j] = 1;
         waveform->filterAnchors[j][0].name = 0;
         waveform->filterAnchors[j][0].origin = 0;
-- 
2.43.0


From 9b5ffc9e2905e909c8461b46851183de6fc0c82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 42/99] fix: rkutil tables are tested before they are read

---
 rkutil.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rkutil.c b/rkutil.c
index 7edcd91..9a5dae1 100644
--- a/rkutil.c
+++ b/rkutil.c
@@ -356,14 +356,14 @@ static void updateSystemPreferencesFromControlFile(UserParams *user) {
 
     // User devices
     k = 0;
-    memset(user->userDevices, 0, RKHealthNodeCount * sizeof(RKNameLength));
+    memset(user->userDevices, 0, sizeof(user->userDevices));
     do {
         s = RKPreferenceGetValueOfKeyword(userPreferences, verb, "UserDevice", user->userDevices[k++], RKParameterTypeString, RKNameLength);
-    } while (s == RKResultSuccess);
+    } while (s == RKResultSuccess && k < RKHealthNodeCount);
 
     // Revise some parameters
     s = (int)strlen(user->desc.dataPath);
-    if (user->desc.dataPath[s - 1] == '/') {
+    if (s > 0 && user->desc.dataPath[s - 1] == '/') {
         user->desc.dataPath[s - 1] = '\0';
     }
     if (!isfinite(user->SNRThreshold)) {
@@ -785,7 +785,7 @@ static void updateRadarParameters(UserParams *systemPreferences) {
     // Always refresh the controls
     RKClearControls(myRadar);
     k = 0;
-    while (systemPreferences->controls[k].label[0] != '\0' && k < RKMaximumControlCount) {
+    while (k < RKMaximumControlCount && systemPreferences->controls[k].label[0] != '\0') {
         RKAddControl(myRadar, &systemPreferences->controls[k]);
         k++;
     }
@@ -794,7 +794,7 @@ static void updateRadarParameters(UserParams *systemPreferences) {
     // Always refresh waveform calibrations
     RKClearWaveformCalibrations(myRadar);
     k = 0;
-    while (systemPreferences->calibrations[k].name[0] != '\0' && k < RKMaximumWaveformCalibrationCount) {
+    while (k < RKMaximumWaveformCalibrationCount && systemPreferences->calibrations[k].name[0] != '\0') {
         RKAddWaveformCalibration(myRadar, &systemPreferences->calibrations[k]);
         k++;
     }
-- 
2.43.0


From 8de836d35fad5f37f0bdeae055f66a9450699e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 43/99] fix: commands to hardware that is not set are refused

---
 source/RKRadar.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 312a2d1..c23e619 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -357,7 +357,7 @@ static void *systemInspectorRunLoop(void *in) {
                 RKLog("Warning. %s is in critical condition (value = %s, count = %d).\n", criticalKey, criticalValue, criticalCount);
                 if (criticalCount++ >= 20) {
                     criticalCount = 0;
-                    if (pedestalEnum == RKStatusEnumActive) {
+                    if (pedestalEnum == RKStatusEnumActive && radar->masterController != NULL) {
                         RKLog("Warning. Suspending radar due to critical %s ...\n", criticalKey);
                         radar->masterControllerExec(radar->masterController, "z", NULL);
                     }
@@ -2565,6 +2565,12 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                 } else {
 
                     // Forward to health relay
+                    if (radar->healthRelay == NULL) {
+                        if (string) {
+                            sprintf(string, "NAK. Health relay not set." RKEOL);
+                        }
+                        break;
+                    }
                     if (strlen(commandString) < 2) {
                         if (string) {
                             sprintf(string, "NAK. Empty command to health relay. Ignoring ..." RKEOL);
@@ -2582,6 +2588,12 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
 
             case 'p':
                 // Pass everything to pedestal
+                if (radar->pedestal == NULL) {
+                    if (string) {
+                        sprintf(string, "NAK. Pedestal not set." RKEOL);
+                    }
+                    break;
+                }
                 if (strlen(commandString) < 2) {
                     if (string) {
                         sprintf(string, "NAK. Empty command to pedestal. Ignoring ..." RKEOL);
@@ -2597,6 +2609,12 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
 
             case 't':
                 // Pass everything to transceiver
+                if (radar->transceiver == NULL) {
+                    if (string) {
+                        sprintf(string, "NAK. Transceiver not set." RKEOL);
+                    }
+                    break;
+                }
                 if (strlen(commandString) < 2) {
                     if (string) {
                         sprintf(string, "NAK. Empty command to transceiver. Ignoring ..." RKEOL);
-- 
2.43.0


From 4b684a408c9fb299554c484f62479e40779df212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 44/99] fix: configuration values and window parameters are
 passed as the doubles they are read as

---
 source/RKRadar.c    | 6 +++---
 source/RKWaveform.c | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index c23e619..72688d9 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1587,7 +1587,7 @@ int RKSetWaveformToImpulse(RKRadar *radar) {
 }
 
 int RKSetPRF(RKRadar *radar, const uint32_t prf) {
-    RKAddConfig(radar, RKConfigKeyPRF, prf, RKConfigKeyNull);
+    RKAddConfig(radar, RKConfigKeyPRF, (double)prf, RKConfigKeyNull);
     return RKResultSuccess;
 }
 
@@ -1822,7 +1822,7 @@ int RKGoLive(RKRadar *radar) {
     // Add a dummy config to get things started if there hasn't been one from the user
     if (radar->configIndex == 0) {
         RKAddConfig(radar,
-                    RKConfigKeyPRF, 1000,
+                    RKConfigKeyPRF, 1000.0,
                     RKConfigKeySystemNoise, 0.1, 0.1,
                     RKConfigKeySystemZCal, -27.0, -27.0,
                     RKConfigKeySystemDCal, -0.01,
@@ -2814,7 +2814,7 @@ void RKSetStatusReady(RKRadar *radar, RKStatus *status) {
 // Note:
 //     The last key must be RKConfigKeyNull
 // Example:
-//     RKConfigAdd(radar, RKConfigKeyPRF, 1000, RKConfigNull) to set PRF
+//     RKConfigAdd(radar, RKConfigKeyPRF, 1000.0, RKConfigNull) to set PRF
 //     RKConfigAdd(radar, RKConfigKeySystemNoise, 0.3, 0.2, RKConfigNull) to set noise
 //
 // Users normally don't have to deal with these
diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 8446f45..f2ec3fd 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -253,7 +253,7 @@ RKWaveform *RKWaveformInitAsTimeFrequencyMultiplexing(const double fs, const dou
     // Say bandwidth = 4 MHz. Going atmost from -2 to 0 MHz, fc @ -1 MHz
     //RKWaveform *fill = RKWaveformInitAsFrequencyHops(fs, fc - 0.25 * bandwidth, 2.0e-6, 0.0, 1);
     RKWaveform *fill = RKWaveformInitAsSingleTone(fs, fc - 0.25 * bandwidth, 2.0e-6);
-    RKWaveformApplyWindow(fill, RKWindowTypeHamming);
+    RKWaveformApplyWindow(fill, RKWindowTypeHamming, 0.0);
     // Expand waveform by the fill pulse
     RKWaveformAppendWaveform(waveform, fill, 10);
     RKWaveformFree(fill);
@@ -355,7 +355,7 @@ RKResult RKWaveformApplyWindow(RKWaveform *waveform, const RKWindowType type, ..
     parameter = va_arg(args, double);
     va_end(args);
 
-    RKWindowMake(window, type, waveform->depth, parameter, 0);
+    RKWindowMake(window, type, waveform->depth, parameter, 0.0);
 
     g = 0.0;
     w = window;
-- 
2.43.0


From 14e4879340053fc2503a4f9731f046758c09e362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 45/99] fix: packet sizes are passed as the ssize_t they are
 read as

---
 source/RKCommandCenter.c     | 24 ++++++++++++------------
 source/RKHealthRelayNaveen.c |  4 ++--
 source/RKHealthRelayTweeta.c |  4 ++--
 source/RKPedestalPedzy.c     |  4 ++--
 source/RKRadarRelay.c        |  6 +++---
 source/RKServer.c            |  4 ++--
 6 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index d392326..d2ebafb 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -340,7 +340,7 @@ int socketCommandHandler(RKOperator *O) {
                     RKRadarRelayExec(user->radar->radarRelay, commandString, user->commandResponse);
                     O->delimTx.type = RKNetworkPacketTypeControls;
                     O->delimTx.size = (uint32_t)strlen(user->commandResponse);
-                    RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->commandResponse, O->delimTx.size, NULL);
+                    RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->commandResponse, (ssize_t)O->delimTx.size, NULL);
 
                 case 'r':
                     // Change radar
@@ -490,7 +490,7 @@ int socketStreamHandler(RKOperator *O) {
             }
             O->delimTx.type = RKNetworkPacketTypePlainText;
             O->delimTx.size = k + 1;
-            RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, O->delimTx.size, NULL);
+            RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, (ssize_t)O->delimTx.size, NULL);
             user->timeLastOut = time;
             user->ticForStatusStream++;
         } else if (k == RKStreamStatusPulses) {
@@ -500,7 +500,7 @@ int socketStreamHandler(RKOperator *O) {
                          RKPulseEnginePulseString(user->radar->pulseEngine));
             O->delimTx.type = RKNetworkPacketTypePlainText;
             O->delimTx.size = k + 1;
-            RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, O->delimTx.size, NULL);
+            RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, (ssize_t)O->delimTx.size, NULL);
             user->timeLastOut = time;
             user->ticForStatusStream++;
         } else if (k == RKStreamStatusRays) {
@@ -520,7 +520,7 @@ int socketStreamHandler(RKOperator *O) {
                 snprintf(user->string + k - 1, RKMaximumPacketSize - k - 1, "" RKEOL);
                 O->delimTx.type = RKNetworkPacketTypePlainText;
                 O->delimTx.size = k + 1;
-                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, O->delimTx.size, NULL);
+                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, (ssize_t)O->delimTx.size, NULL);
                 user->timeLastOut = time;
                 user->ticForStatusStream++;
             }
@@ -535,7 +535,7 @@ int socketStreamHandler(RKOperator *O) {
                          RKRawDataRecorderStatusString(user->radar->rawDataRecorder));
             O->delimTx.type = RKNetworkPacketTypePlainText;
             O->delimTx.size = k + 1;
-            RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, O->delimTx.size, NULL);
+            RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, (ssize_t)O->delimTx.size, NULL);
             user->timeLastOut = time;
             user->ticForStatusStream++;
         } else if (k == RKStreamStatusEngines) {
@@ -579,7 +579,7 @@ int socketStreamHandler(RKOperator *O) {
                           RKIntegerToCommaStyleString(user->radar->rawDataRecorder->cacheFlushCount));
             O->delimTx.type = RKNetworkPacketTypePlainText;
             O->delimTx.size = k + 1;
-            RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, O->delimTx.size, NULL);
+            RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, (ssize_t)O->delimTx.size, NULL);
             user->timeLastOut = time;
             user->ticForStatusStream++;
         } else if (k == RKStreamStatusBuffers) {
@@ -597,7 +597,7 @@ int socketStreamHandler(RKOperator *O) {
             //    O->delimTx.size++;
             //}
             //RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, O->delimTx.size, NULL);
-            RKOperatorSendPackets(O, user->string, k, NULL);
+            RKOperatorSendPackets(O, user->string, (ssize_t)k, NULL);
             user->timeLastOut = time;
             user->ticForStatusStream++;
         } else if (k == RKStreamASCIIArtZ) {
@@ -674,7 +674,7 @@ int socketStreamHandler(RKOperator *O) {
                 //    O->delimTx.size += 256;
                 //}
                 //RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, O->delimTx.size, NULL);
-                RKOperatorSendPackets(O, user->string, k, NULL);
+                RKOperatorSendPackets(O, user->string, (ssize_t)k, NULL);
                 user->timeLastOut = time;
                 user->ticForStatusStream++;
             } else if (engine->verbose) {
@@ -689,7 +689,7 @@ int socketStreamHandler(RKOperator *O) {
             }
             health = RKGetLatestHealth(user->radar);
             k = RKHealthOverview(user->string, health->string, user->textPreferences | RKTextPreferencesDrawBackground);
-            RKOperatorSendPackets(O, user->string, k, NULL);
+            RKOperatorSendPackets(O, user->string, (ssize_t)k, NULL);
             user->timeLastOut = time;
             user->ticForStatusStream++;
         } else if (k == RKStreamASCIIArtVCP) {
@@ -711,7 +711,7 @@ int socketStreamHandler(RKOperator *O) {
                 snprintf(user->string + k - 1, RKMaximumPacketSize - k, "" RKEOL);
                 O->delimTx.type = RKNetworkPacketTypePlainText;
                 O->delimTx.size = k + 1;
-                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, O->delimTx.size, NULL);
+                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, (ssize_t)O->delimTx.size, NULL);
                 user->timeLastOut = time;
                 user->ticForStatusStream++;
             }
@@ -743,7 +743,7 @@ int socketStreamHandler(RKOperator *O) {
             j += snprintf(user->string + j, RKMaximumPacketSize - j, "]}" RKEOL);
             O->delimTx.type = RKNetworkPacketTypeControls;
             O->delimTx.size = j;
-            RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, O->delimTx.size, NULL);
+            RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, (ssize_t)O->delimTx.size, NULL);
             user->timeLastOut = time;
         }
     } // (user->radar->desc.initFlags & RKInitFlagSignalProcessor && time - user->timeLastOut >= 0.08) ...
@@ -830,7 +830,7 @@ int socketStreamHandler(RKOperator *O) {
                 snprintf(user->string + k - 1, RKMaximumStringLength - k, "" RKEOL);
                 O->delimTx.type = RKNetworkPacketTypeHealth;
                 O->delimTx.size = k;
-                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, O->delimTx.size, NULL);
+                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, (ssize_t)O->delimTx.size, NULL);
             }
         } else {
             RKLog("%s %s No Health / Deactivated.   healthIndex = %d / %d\n", engine->name, O->name, user->healthIndex, user->radar->healthIndex);
diff --git a/source/RKHealthRelayNaveen.c b/source/RKHealthRelayNaveen.c
index 8fd8f66..81689cd 100644
--- a/source/RKHealthRelayNaveen.c
+++ b/source/RKHealthRelayNaveen.c
@@ -52,7 +52,7 @@ static int healthRelayNaveenRead(RKClient *client) {
 }
 
 static int healthRelayNaveenGreet(RKClient *client) {
-    ssize_t s = RKNetworkSendPackets(client->sd, "\n", 1, NULL);
+    ssize_t s = RKNetworkSendPackets(client->sd, "\n", (ssize_t)1, NULL);
     if (s < 0) {
         return (int)-s;
     }
@@ -130,7 +130,7 @@ int RKHealthRelayNaveenExec(RKHealthRelay input, const char * command, char _Nul
         int s = 0;
         uint32_t responseIndex = me->responseIndex;
         size_t size = snprintf(me->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
-        RKNetworkSendPackets(client->sd, me->latestCommand, size, NULL);
+        RKNetworkSendPackets(client->sd, me->latestCommand, (ssize_t)size, NULL);
         while (responseIndex == me->responseIndex) {
             usleep(10000);
             if (++s % 100 == 0) {
diff --git a/source/RKHealthRelayTweeta.c b/source/RKHealthRelayTweeta.c
index 69dccb8..6008ebf 100644
--- a/source/RKHealthRelayTweeta.c
+++ b/source/RKHealthRelayTweeta.c
@@ -58,7 +58,7 @@ static int healthRelayTweetaRead(RKClient *client) {
 }
 
 static int healthRelayTweetaGreet(RKClient *client) {
-    ssize_t s = RKNetworkSendPackets(client->sd, "\n", 1, NULL);
+    ssize_t s = RKNetworkSendPackets(client->sd, "\n", (ssize_t)1, NULL);
     if (s < 0) {
         return (int)-s;
     }
@@ -137,7 +137,7 @@ int RKHealthRelayTweetaExec(RKHealthRelay input, const char *command, char _Null
         int s = 0;
         uint32_t responseIndex = me->responseIndex;
         size_t size = snprintf(me->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
-        RKNetworkSendPackets(client->sd, me->latestCommand, size, NULL);
+        RKNetworkSendPackets(client->sd, me->latestCommand, (ssize_t)size, NULL);
         while (responseIndex == me->responseIndex) {
             usleep(10000);
             if (++s % 100 == 0) {
diff --git a/source/RKPedestalPedzy.c b/source/RKPedestalPedzy.c
index 1a75fcd..0ef7a9f 100644
--- a/source/RKPedestalPedzy.c
+++ b/source/RKPedestalPedzy.c
@@ -107,7 +107,7 @@ static int pedestalPedzyRead(RKClient *client) {
 }
 
 static int pedestalPedzyGreet(RKClient *client) {
-    ssize_t s = RKNetworkSendPackets(client->sd, "\n", 1, NULL);
+    ssize_t s = RKNetworkSendPackets(client->sd, "\n", (ssize_t)1, NULL);
     if (s < 0) {
         return (int)-s;
     }
@@ -260,7 +260,7 @@ int RKPedestalPedzyExec(RKPedestal input, const char *command, char _Nullable *r
         int s = 0;
         uint32_t responseIndex = me->responseIndex;
         size_t size = snprintf(me->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
-        RKNetworkSendPackets(client->sd, me->latestCommand, size, NULL);
+        RKNetworkSendPackets(client->sd, me->latestCommand, (ssize_t)size, NULL);
         while (responseIndex == me->responseIndex) {
             usleep(10000);
             if (++s % 100 == 0) {
diff --git a/source/RKRadarRelay.c b/source/RKRadarRelay.c
index e25415f..b990d62 100644
--- a/source/RKRadarRelay.c
+++ b/source/RKRadarRelay.c
@@ -21,7 +21,7 @@ static int RKRadarRelayGreet(RKClient *client) {
     pthread_mutex_lock(&engine->client->lock);
 
     uint32_t size = sprintf(command, "a RKRadarRelay nopassword" RKEOL);
-    ssize_t sentSize = RKNetworkSendPackets(engine->client->sd, command, size, NULL);
+    ssize_t sentSize = RKNetworkSendPackets(engine->client->sd, command, (ssize_t)size, NULL);
     if (sentSize < 0) {
         pthread_mutex_unlock(&engine->client->lock);
         return RKResultIncompleteSend;
@@ -33,7 +33,7 @@ static int RKRadarRelayGreet(RKClient *client) {
         size = sprintf(command, "s");
         size += RKStringFromStream(command + size, engine->streams);
         size += sprintf(command + size, RKEOL);
-        RKNetworkSendPackets(engine->client->sd, command, size, NULL);
+        RKNetworkSendPackets(engine->client->sd, command, (ssize_t)size, NULL);
     }
 
     pthread_mutex_unlock(&engine->client->lock);
@@ -431,7 +431,7 @@ int RKRadarRelayExec(RKRadarRelay *engine, const char *command, char *response)
         int s = 0;
         uint32_t responseIndex = engine->responseIndex;
         uint32_t size = snprintf(engine->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
-        RKNetworkSendPackets(client->sd, engine->latestCommand, size, NULL);
+        RKNetworkSendPackets(client->sd, engine->latestCommand, (ssize_t)size, NULL);
         while (responseIndex == engine->responseIndex) {
             usleep(10000);
             if (++s % 100 == 0) {
diff --git a/source/RKServer.c b/source/RKServer.c
index 1ab08ba..38a337d 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -829,13 +829,13 @@ ssize_t RKOperatorSendString(RKOperator *O, const char *string) {
 ssize_t RKOperatorSendDelimitedString(RKOperator *O, const char *string) {
     O->delimString.type = RKNetworkPacketTypePlainText;
     O->delimString.size = (uint32_t)strlen(string);
-    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, O->delimString.size, NULL);
+    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, (ssize_t)O->delimString.size, NULL);
 }
 
 ssize_t RKOperatorSendCommandResponse(RKOperator *O, const char *string) {
     O->delimString.type = RKNetworkPacketTypeCommandResponse;
     O->delimString.size = (uint32_t)strlen(string);
-    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, O->delimString.size, NULL);
+    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, (ssize_t)O->delimString.size, NULL);
 }
 
 ssize_t RKOperatorSendBeacon(RKOperator *O) {
-- 
2.43.0


From 2196160b47bfddd0a5a777f4f74921fd9ca3c47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 46/99] fix: a partial send or header read continues where it
 stopped

---
 source/RKNetwork.c | 2 +-
 source/RKServer.c  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKNetwork.c b/source/RKNetwork.c
index 2f7ccab..b4a4669 100644
--- a/source/RKNetwork.c
+++ b/source/RKNetwork.c
@@ -35,7 +35,7 @@ ssize_t RKNetworkSendPackets(int sd, ...) {
         sentSize = 0;
         totalSentSize = 0;
         while (totalSentSize < payloadSize && timeout_count++ < RKNetworkTimeoutSeconds / 10) {
-            if ((sentSize = send(sd, payload + sentSize, payloadSize - sentSize, 0)) > 0) {
+            if ((sentSize = send(sd, payload + totalSentSize, payloadSize - totalSentSize, 0)) > 0) {
                 totalSentSize += sentSize;
             }
             if (totalSentSize < payloadSize) {
diff --git a/source/RKServer.c b/source/RKServer.c
index 38a337d..723f4cf 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -641,7 +641,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
             k = 0;
             readCount = 0;
             while (readCount++ < O->timeoutSeconds * 100) {
-                if ((r = read(O->sid, delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
+                if ((r = read(O->sid, (char *)delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
                     if (r) {
                         k += r;
                         if (k == sizeof(RKNetDelimiter)) {
@@ -797,7 +797,7 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
         sentSize = 0;
         totalSentSize = 0;
         while (totalSentSize < payloadSize && timeout_count++ < RKSocketTimeCountOf10ms) {
-            if ((sentSize = send(O->sid, payload + sentSize, payloadSize - sentSize, 0)) > 0) {
+            if ((sentSize = send(O->sid, payload + totalSentSize, payloadSize - totalSentSize, 0)) > 0) {
                 totalSentSize += sentSize;
             }
             if (totalSentSize < payloadSize) {
-- 
2.43.0


From d91a94a52dfd266ac43ebe62a37fc6b2afe578cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 47/99] fix: product stream sends the ray header it has filled
 in

---
 source/RKCommandCenter.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index d2ebafb..1c540fd 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -906,12 +906,12 @@ int socketStreamHandler(RKOperator *O) {
                 uint32_t productCount = __builtin_popcount(productList);
                 //RKLog("ProductCount = %d / %x\n", productCount, productList);
 
-                rayHeader.gateCount /= user->rayDownSamplingRatio;
-                rayHeader.gateSizeMeters *= (float)user->rayDownSamplingRatio;
+                rayHeaderV1.gateCount /= user->rayDownSamplingRatio;
+                rayHeaderV1.gateSizeMeters *= (float)user->rayDownSamplingRatio;
 
                 O->delimTx.type = RKNetworkPacketTypeRayDisplay;
-                O->delimTx.size = (uint32_t)(sizeof(RKRayHeader) + productCount * rayHeader.gateCount * sizeof(float));
-                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeader, sizeof(RKRayHeader), NULL);
+                O->delimTx.size = (uint32_t)(sizeof(RKRayHeaderV1) + productCount * rayHeaderV1.gateCount * sizeof(float));
+                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeaderV1, sizeof(RKRayHeaderV1), NULL);
 
                 for (j = 0; j < productCount; j++) {
                     if (productList & RKBaseProductListFloatZ) {
@@ -949,10 +949,10 @@ int socketStreamHandler(RKOperator *O) {
                     }
                     if (f32Data) {
                         float *lowRateData = (float *)user->string;
-                        for (i = 0, k = 0; i < rayHeader.gateCount; i++, k += user->rayDownSamplingRatio) {
+                        for (i = 0, k = 0; i < rayHeaderV1.gateCount; i++, k += user->rayDownSamplingRatio) {
                             lowRateData[i] = f32Data[k];
                         }
-                        RKOperatorSendPackets(O, lowRateData, rayHeader.gateCount * sizeof(float), NULL);
+                        RKOperatorSendPackets(O, lowRateData, rayHeaderV1.gateCount * sizeof(float), NULL);
                     }
                 }
                 ray->header.s |= RKRayStatusStreamed;
-- 
2.43.0


From 34b8ddca7243424d8a5f579720b76ea6dadb5fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 48/99] fix: Q moment of the product stream is marked done as
 itself

---
 source/RKCommandCenter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 1c540fd..701ee73 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -936,7 +936,7 @@ int socketStreamHandler(RKOperator *O) {
                         productList ^= RKBaseProductListFloatK;
                         f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexK);
                     } else if (productList & RKBaseProductListFloatQ) {
-                        productList ^= RKBaseProductListFloatK;
+                        productList ^= RKBaseProductListFloatQ;
                         f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexQ);
                     } else if (productList & RKBaseProductListFloatSh) {
                         productList ^= RKBaseProductListFloatSh;
-- 
2.43.0


From 95ec8fec207d72118ab9ee06ba94b6a67636513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 49/99] fix: display stream announces the products it sends

---
 source/RKCommandCenter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 701ee73..d791e3b 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -1036,7 +1036,8 @@ int socketStreamHandler(RKOperator *O) {
                 if (user->streams & RKStreamDisplaySv) {
                     rayHeaderV1.baseProductList |= RKBaseProductListUInt8Sv;
                 }
-                uint32_t displayList = rayHeaderV1.baseProductList & RKBaseProductListUInt8ZVWDPR;
+                rayHeaderV1.baseProductList &= RKBaseProductListUInt8ZVWDPR;
+                uint32_t displayList = rayHeaderV1.baseProductList;
                 uint32_t displayCount = __builtin_popcount(displayList);
                 //RKLog("displayCount = %d / %x\n", productCount, productList);
 
-- 
2.43.0


From 884b6a85fb71d8951ae978096ee3c0451e72bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 50/99] fix: a stream letter replaces the status stream instead
 of clearing all

---
 source/RKFoundation.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 7be482b..8d3eed5 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1564,31 +1564,31 @@ RKStream RKStreamFromString(const char * string) {
     while (j++ < strlen(string)) {
         switch (*c) {
             case '0':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusPositions;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusPositions;
                 break;
             case '1':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusPulses;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusPulses;
                 break;
             case '2':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusRays;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusRays;
                 break;
             case '3':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusIngest;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusIngest;
                 break;
             case '4':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusEngines;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusEngines;
                 break;
             case '5':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusBuffers;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusBuffers;
                 break;
             case '6':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtZ;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtZ;
                 break;
             case '7':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtHealth;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtHealth;
                 break;
             case '8':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtVCP;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtVCP;
                 break;
             case 'x':
                 flag |= RKStreamStatusTerminalChange;
-- 
2.43.0


From 0e130d0f2b72d233c13a6c3c6f4d52b412ba4f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 51/99] fix: status streams are written with the letters they
 are read by

---
 source/RKFoundation.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 8d3eed5..e0874f7 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1705,20 +1705,25 @@ RKStream RKStreamFromString(const char * string) {
 int RKStringFromStream(char *string, RKStream stream) {
     int j = 0;
     // Exclusive part from RKStreamStatusMask
-    if (stream & RKStreamStatusPulses) {
+    const RKStream status = stream & RKStreamStatusMask;
+    if (status == RKStreamStatusPositions) {
+        j += sprintf(string + j, "0");
+    } else if (status == RKStreamStatusPulses) {
         j += sprintf(string + j, "1");
-    } else if (stream & RKStreamStatusRays) {
+    } else if (status == RKStreamStatusRays) {
         j += sprintf(string + j, "2");
-    } else if (stream & RKStreamStatusPositions) {
+    } else if (status == RKStreamStatusIngest) {
         j += sprintf(string + j, "3");
-    } else if (stream & RKStreamStatusEngines) {
+    } else if (status == RKStreamStatusEngines) {
         j += sprintf(string + j, "4");
-    } else if (stream & RKStreamStatusBuffers) {
+    } else if (status == RKStreamStatusBuffers) {
         j += sprintf(string + j, "5");
-    } else if (stream & RKStreamASCIIArtZ) {
+    } else if (status == RKStreamASCIIArtZ) {
         j += sprintf(string + j, "6");
-    } else if (stream & RKStreamASCIIArtHealth) {
+    } else if (status == RKStreamASCIIArtHealth) {
         j += sprintf(string + j, "7");
+    } else if (status == RKStreamASCIIArtVCP) {
+        j += sprintf(string + j, "8");
     }
     if (stream & RKStreamStatusProcessorStatus) { j += sprintf(string + j, "!"); }
     if (stream & RKStreamHealthInJSON)          { j += sprintf(string + j, "h"); }
-- 
2.43.0


From dbaa98e47642e415a176e8cc1b20952c51d9b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 52/99] fix: relay accepts the Q display product

---
 source/RKRadarRelay.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/RKRadarRelay.c b/source/RKRadarRelay.c
index b990d62..20b4251 100644
--- a/source/RKRadarRelay.c
+++ b/source/RKRadarRelay.c
@@ -190,6 +190,9 @@ static int RKRadarRelayRead(RKClient *client) {
                 } else if (productList & RKBaseProductListUInt8Sv) {
                     productList ^= RKBaseProductListUInt8Sv;
                     u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexSv);
+                } else if (productList & RKBaseProductListUInt8Q) {
+                    productList ^= RKBaseProductListUInt8Q;
+                    u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexQ);
                 } else {
                     u8Data = NULL;
                 }
-- 
2.43.0


From 84dc8fcf9cea776bf5af4c65a03cc911479e3a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 53/99] fix: fourth cross-channel lag is taken from the fourth
 lag

---
 source/RKScratch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKScratch.c b/source/RKScratch.c
index 62851d1..a66e10d 100644
--- a/source/RKScratch.c
+++ b/source/RKScratch.c
@@ -313,7 +313,7 @@ int makeRayFromScratch(RKMomentScratch *scratch, RKRay *ray) {
     RKFloat *iHR1q = scratch->R[0][1].q;    int16_t *oHR1q = RKGetInt16DataFromRay(ray, RKMomentIndexHR1q);
     RKFloat *iHR2  = scratch->aR[0][2];     int16_t *oHR2  = RKGetInt16DataFromRay(ray, RKMomentIndexHR2);
     RKFloat *iHR3  = scratch->aR[0][3];     int16_t *oHR3  = RKGetInt16DataFromRay(ray, RKMomentIndexHR3);
-    RKFloat *iHR4  = scratch->aR[0][3];     int16_t *oHR4  = RKGetInt16DataFromRay(ray, RKMomentIndexHR4);
+    RKFloat *iHR4  = scratch->aR[0][4];     int16_t *oHR4  = RKGetInt16DataFromRay(ray, RKMomentIndexHR4);
     RKFloat *iVmi  = scratch->mX[1].i;      int16_t *oVmi  = RKGetInt16DataFromRay(ray, RKMomentIndexVmi);
     RKFloat *iVmq  = scratch->mX[1].q;      int16_t *oVmq  = RKGetInt16DataFromRay(ray, RKMomentIndexVmq);
     RKFloat *iVR0  = scratch->aR[1][0];     int16_t *oVR0  = RKGetInt16DataFromRay(ray, RKMomentIndexVR0);
@@ -321,7 +321,7 @@ int makeRayFromScratch(RKMomentScratch *scratch, RKRay *ray) {
     RKFloat *iVR1q = scratch->R[1][1].q;    int16_t *oVR1q = RKGetInt16DataFromRay(ray, RKMomentIndexVR1q);
     RKFloat *iVR2  = scratch->aR[1][2];     int16_t *oVR2  = RKGetInt16DataFromRay(ray, RKMomentIndexVR2);
     RKFloat *iVR3  = scratch->aR[1][3];     int16_t *oVR3  = RKGetInt16DataFromRay(ray, RKMomentIndexVR3);
-    RKFloat *iVR4  = scratch->aR[1][3];     int16_t *oVR4  = RKGetInt16DataFromRay(ray, RKMomentIndexVR4);
+    RKFloat *iVR4  = scratch->aR[1][4];     int16_t *oVR4  = RKGetInt16DataFromRay(ray, RKMomentIndexVR4);
 
     // Convert float to 16-bit representation (-32768 - 32767) using ...
     for (k = 0; k < MIN(scratch->capacity, scratch->gateCount); k++) {
-- 
2.43.0


From 08e738d77f5b6c327491749beb4bb44da1e76bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 54/99] fix: words of a command stop at what holds them

---
 source/RKCommandCenter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index d791e3b..0cb30db 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -164,7 +164,7 @@ int socketCommandHandler(RKOperator *O) {
 
                 case 'a':
                     // Authenticate
-                    sscanf(commandString + 1, "%s %s", sval1, sval2);
+                    sscanf(commandString + 1, "%511s %511s", sval1, sval2);
                     RKLog("%s %s Authenticating %s %s ... (%zu) (%zu)\n", engine->name, O->name, sval1, sval2, strlen(sval1), sizeof(user->login));
                     // Check authentication here. For now, control is always authorized
                     //
@@ -344,7 +344,7 @@ int socketCommandHandler(RKOperator *O) {
 
                 case 'r':
                     // Change radar
-                    sscanf(commandString + 1, "%s", sval1);
+                    sscanf(commandString + 1, "%511s", sval1);
                     RKLog(">%s %s Selected radar %s\n", engine->name, O->name, sval1);
                     snprintf(user->commandResponse, RKMaximumPacketSize, "ACK. %s selected." RKEOL, sval1);
                     RKOperatorSendCommandResponse(O, user->commandResponse);
-- 
2.43.0


From ebb6c551d4d8768cbad15fbd75b1babc512ecef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 55/99] fix: user product payload is limited to what the
 product holds

---
 source/RKCommandCenter.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 0cb30db..73279c2 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -1306,7 +1306,11 @@ int socketStreamHandler(RKOperator *O) {
                             if (product) {
                                 // Transfer important meta data and prepare the necessary buffer size
                                 RKProductInitFromSweep(product, sweep);
-                                size = RKServerReceiveUserPayload(O, product->data, RKNetworkMessageFormatHeaderDefinedSize);
+                                // The payload can be larger than the product
+                                size = RKServerReceiveUserPayload(O, user->scratch, RKNetworkMessageFormatHeaderDefinedSize);
+                                if (size > 0) {
+                                    memcpy(product->data, user->scratch, MIN((size_t)size, product->capacity * sizeof(RKFloat)));
+                                }
                                 if (user->radar->sweepEngine->verbose > 1) {
                                     RKLog("%s %s %s (%zu) -> %u %zu\n",
                                           engine->name, O->name, user->string, strlen(user->string), productId, identifier);
-- 
2.43.0


From e3d972d722c5b96af68d5689a82db2f776f19f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 56/99] fix: filter counts read from a file are checked

---
 source/RKFileHeader.c | 4 ++++
 source/RKWaveform.c   | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 58cba59..0326730 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -52,6 +52,10 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
             exit(EXIT_FAILURE);
         }
         r *= sizeof(RKFileHeaderV1);
+        if (fileHeaderV1->config.filterCount > RKMaximumFilterCount) {
+            RKLog("Error. This file is invalid.  filterCount = %d > %d\n", (int)fileHeaderV1->config.filterCount, RKMaximumFilterCount);
+            exit(EXIT_FAILURE);
+        }
         RKLog("fileHeaderV1->dataType = %d (%s)\n",
                 fileHeaderV1->dataType,
                 fileHeaderV1->dataType == RKRawDataTypeFromTransceiver ? "Raw" :
diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index f2ec3fd..f54ec87 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1038,6 +1038,7 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
     }
     RKWaveform *waveform = RKWaveformInitWithCountAndDepth(fileHeader->count, fileHeader->depth);
     strncpy(waveform->name, fileHeader->name, RKNameLength);
+    waveform->name[RKNameLength - 1] = '\0';
     waveform->type = fileHeader->type;
     waveform->fc = fileHeader->fc;
     waveform->fs = fileHeader->fs;
@@ -1045,6 +1046,12 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
         waveform->filterCounts[k] = fileHeader->filterCounts[k];
     }
     for (k = 0; k < waveform->count; k++) {
+        if (fileHeader->filterCounts[k] > RKMaximumFilterCount) {
+            RKLog("Error. This waveform is invalid.  filterCount = %d > %d\n", fileHeader->filterCounts[k], RKMaximumFilterCount);
+            free(fileHeader);
+            RKWaveformFree(waveform);
+            return NULL;
+        }
         r = fread(waveform->filterAnchors[k], sizeof(RKFilterAnchor), fileHeader->filterCounts[k], fid);
         if (r == 0) {
             RKLog("Error. Unable to read filter anchors from %p\n", fid);
-- 
2.43.0


From b3be08fb059873a991e153ba83fe1f4427e1fb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 57/99] fix: old pulse header is read for its own down-sampled
 gate count

---
 source/RKFoundation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index e0874f7..f74ee72 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1253,7 +1253,7 @@ int RKReadPulseFromFileReference(RKPulse *pulse, RKFileHeader *fileHeader, FILE
             pulse->header.n = headerV1->n;
             pulse->header.t = headerV1->t;
             pulse->header.gateCount = headerV1->gateCount;
-            pulse->header.downSampledGateCount = header->downSampledGateCount;
+            pulse->header.downSampledGateCount = headerV1->downSampledGateCount;
             pulse->header.pulseWidthSampleCount = headerV1->pulseWidthSampleCount;
             pulse->header.marker = headerV1->marker;
             pulse->header.time = headerV1->time;
-- 
2.43.0


From f041d34e0ce25a1f21765e81d862d22ac129f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 58/99] fix: gate counts read with a pulse are compared with
 the capacity

---
 source/RKFoundation.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index f74ee72..ad4f3a1 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1307,6 +1307,13 @@ int RKReadPulseFromFileReference(RKPulse *pulse, RKFileHeader *fileHeader, FILE
         pulse->header.capacity = capacity;
         RKLog("Warning. Pulse capacity restored.\n");
     }
+    if (pulse->header.gateCount > capacity || pulse->header.downSampledGateCount > capacity) {
+        RKLog("Error. Pulse of %s / %s gates does not fit the capacity %s\n",
+              RKIntegerToCommaStyleString(pulse->header.gateCount),
+              RKIntegerToCommaStyleString(pulse->header.downSampledGateCount),
+              RKIntegerToCommaStyleString(capacity));
+        return RKResultTooBig;
+    }
     // Pulse payload: H and V data into channels 0 and 1, respectively. Duplicate to split-complex storage
     for (j = 0; j < 2; j++) {
         if (fileHeader->dataType == RKRawDataTypeFromTransceiver) {
-- 
2.43.0


From 00f2f96c0ce0cf15033be7a39b22850870687fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 59/99] fix: value of a key stays within its string and its
 buffer

---
 source/RKMisc.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 7aad427..033a18e 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -226,10 +226,10 @@ char *RKGetValueOfKey(const char *string, const char *key) {
         if (*s == '[') {
             // Find the end of bracket, return the entire array
             e = s + 1;
-            while (*e != ']') {
+            while (*e != '\0' && *e != ']') {
                 e++;
             }
-            len = e - s + 1;
+            len = MIN(255, e - s + 1);
             if (len > 0) {
                 strncpy(valueString, s, len);
                 valueString[len] = '\0';
@@ -240,10 +240,10 @@ char *RKGetValueOfKey(const char *string, const char *key) {
         } else if (*s == '{') {
             // Find the end of curly bracket, return the entire dictionary
             e = s + 1;
-            while (*e != '}') {
+            while (*e != '\0' && *e != '}') {
                 e++;
             }
-            len = e - s + 1;
+            len = MIN(255, e - s + 1);
             if (len > 0) {
                 strncpy(valueString, s, len);
                 valueString[len] = '\0';
@@ -254,10 +254,10 @@ char *RKGetValueOfKey(const char *string, const char *key) {
         } else if (*s == '"') {
             // Find the end of double quote, return the entire string
             e = s + 1;
-            while (*e != '"') {
+            while (*e != '\0' && *e != '"') {
                 e++;
             }
-            len = e - s + 1;
+            len = MIN(255, e - s + 1);
             if (len > 0) {
                 strncpy(valueString, s, len);
                 valueString[len] = '\0';
@@ -268,10 +268,10 @@ char *RKGetValueOfKey(const char *string, const char *key) {
         } else if (*s == '\'') {
             // Find the end of single quote, return the entire string
             e = s + 1;
-            while (*e != '\'') {
+            while (*e != '\0' && *e != '\'') {
                 e++;
             }
-            len = e - s + 1;
+            len = MIN(255, e - s + 1);
             if (len > 0) {
                 strncpy(valueString, s, len);
                 valueString[len] = '\0';
@@ -282,7 +282,7 @@ char *RKGetValueOfKey(const char *string, const char *key) {
         }
         // Find end of the value
         e = s;
-        while (*e != ',' && *e != '}' && *e != ']') {
+        while (*e != '\0' && *e != ',' && *e != '}' && *e != ']') {
             e++;
         }
         len = MIN(255, e - s);
-- 
2.43.0


From 3078fa0a6ae5946ea362b6103e6d6a4234057c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 60/99] fix: key and value from a health string stop at what
 holds them

---
 source/RKMisc.c  | 35 ++++++++++++++++++++++++++++-------
 source/RKRadar.c |  2 +-
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 033a18e..ae03562 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -1510,7 +1510,12 @@ char *RKCountryFromPosition(const double latitude, const double longitude) {
 	return country;
 }
 
+// key holds RKNameLength (128) characters, value holds RKStatusStringLength (256) characters; either may be NULL
 char *RKGetNextKeyValue(char *json, char *key, char *value) {
+    if (json == NULL) {
+        return NULL;
+    }
+    size_t len;
     char *c = json;
     char *e = c + strlen(c);
     char *ks, *ke, *vs, *ve;
@@ -1519,7 +1524,9 @@ char *RKGetNextKeyValue(char *json, char *key, char *value) {
         c++;
     }
     if (c == e) {
-        *key = '\0';
+        if (key) {
+            *key = '\0';
+        }
         return NULL;
     }
     // Find the key
@@ -1535,12 +1542,19 @@ char *RKGetNextKeyValue(char *json, char *key, char *value) {
             break;
         default:
             ke = strchr(ks, ':');
-            ke--;
+            if (ke > ks) {
+                ke--;
+            }
             break;
     }
+    if (ke == NULL) {
+        fprintf(stderr, "Incomplete string?\n");
+        return NULL;
+    }
     if (key) {
-        memcpy(key, ks, ke - ks);
-        key[ke - ks] = '\0';
+        len = MIN(127, ke - ks);
+        memmove(key, ks, len);
+        key[len] = '\0';
     }
     // Find the delimiter ':'
     c = strchr(ke, ':');
@@ -1554,7 +1568,9 @@ char *RKGetNextKeyValue(char *json, char *key, char *value) {
         c++;
     }
     if (c == e) {
-        *value = '\0';
+        if (value) {
+            *value = '\0';
+        }
         return NULL;
     }
     // If this is bracketed piece, find the start and end
@@ -1580,9 +1596,14 @@ char *RKGetNextKeyValue(char *json, char *key, char *value) {
             ve--;
             break;
     }
+    if (ve == NULL) {
+        fprintf(stderr, "Incomplete string?\n");
+        return NULL;
+    }
     if (value) {
-        memcpy(value, vs, ve - vs + 1);
-        value[ve - vs + 1] = '\0';
+        len = MIN(255, ve - vs + 1);
+        memmove(value, vs, len);
+        value[len] = '\0';
     }
     if (ve == e - 1) {
         c = NULL;
diff --git a/source/RKRadar.c b/source/RKRadar.c
index 72688d9..f1e7686 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -3649,7 +3649,7 @@ int RKHealthOverview(char *text, const char *json, const RKTextPreferences flag)
     char string[RKMaximumStringLength];
     char dots[RKMaximumStringLength], labels[RKMaximumStringLength];
     char prefix[RKNameLength], posfix[RKNameLength];
-    char state[4];
+    char state[RKStatusStringLength];
     char symbol[] = "o";
     RKStatusEnum u;
     bool isLabel;
-- 
2.43.0


From b2916749d84819a8309fcc95334b67fc21e89fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 61/99] fix: words of a preference stop at what holds them

---
 source/RKPreference.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 67b216b..ddc1f56 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -109,7 +109,7 @@ int RKPreferenceUpdate(RKPreference *preference) {
 					   !strncasecmp(preference->objects[k].valueString, "true", 4) ||
 					   !strncasecmp(preference->objects[k].valueString, "yes", 3) ||
 					   !strncasecmp(preference->objects[k].valueString, "no", 2)) {
-				sscanf(preference->objects[k].valueString, "%s %s %s %s",
+				sscanf(preference->objects[k].valueString, "%127s %127s %127s %127s",
 					   preference->objects[k].subStrings[0],
 					   preference->objects[k].subStrings[1],
 					   preference->objects[k].subStrings[2],
@@ -252,7 +252,7 @@ int RKControlFromPreferenceObject(RKControl *control, RKPreferenceObject *object
 int RWaveformCalibrationFromPreferenceObject(RKWaveformCalibration *calibration, RKPreferenceObject *object) {
     int j, n;
     char *c;
-    n = sscanf(object->valueString, "%s %" SCNu8, calibration->name, &calibration->count);
+    n = sscanf(object->valueString, "%127s %" SCNu8, calibration->name, &calibration->count);
     if (n != 2) {
         RKLog("Error. Unable to parse waveform calibration.");
         return RKResultIncompleteWaveformCalibration;
-- 
2.43.0


From 27a655ac50a53d11276bbef5a6fa600246a7c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 62/99] fix: product file attributes and dimensions are limited
 to the product

---
 source/RKProductFile.c | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index 6de74fd..00a41da 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -14,11 +14,23 @@
 #define rk_nc_get_var_float   nc_get_var_double
 #endif
 
-static void getGlobalTextAttribute(char *dst, const char *name, const int ncid) {
+static int getGlobalTextAttribute(char *dst, const size_t size, const char *name, const int ncid) {
+    int r;
     size_t n = 0;
-    nc_get_att_text(ncid, NC_GLOBAL, name, dst);
-    nc_inq_attlen(ncid, NC_GLOBAL, name, &n);
-    dst[n] = 0;
+    dst[0] = '\0';
+    if ((r = nc_inq_attlen(ncid, NC_GLOBAL, name, &n)) != NC_NOERR) {
+        return r;
+    }
+    char *text = (char *)malloc(n + 1);
+    if (text == NULL) {
+        return NC_ENOMEM;
+    }
+    if ((r = nc_get_att_text(ncid, NC_GLOBAL, name, text)) == NC_NOERR) {
+        text[n] = '\0';
+        snprintf(dst, size, "%s", text);
+    }
+    free(text);
+    return r;
 }
 
 static int put_global_text_att(const int ncid, const char *att, const char *text) {
@@ -391,22 +403,24 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     if (product->header.rayCount != (uint32_t)rayCount || product->header.gateCount != (uint32_t)gateCount) {
         RKLog("Warning. Inconsistent dimentions: %u x %u  vs  %u x %u\n",
               (uint32_t)rayCount, (uint32_t)gateCount, product->header.rayCount, product->header.gateCount);
+        nc_close(ncid);
+        return;
     }
     RKGetSymbolFromFilename(filename, product->desc.symbol);
 
     // Global attributes
-    getGlobalTextAttribute(product->desc.name, "TypeName", ncid);
-    getGlobalTextAttribute(product->desc.unit, "Unit-value", ncid);
-    getGlobalTextAttribute(product->desc.colormap, "ColorMap-value", ncid);
-    getGlobalTextAttribute(stringValue, "ScanType", ncid);
+    getGlobalTextAttribute(product->desc.name, sizeof(product->desc.name), "TypeName", ncid);
+    getGlobalTextAttribute(product->desc.unit, sizeof(product->desc.unit), "Unit-value", ncid);
+    getGlobalTextAttribute(product->desc.colormap, sizeof(product->desc.colormap), "ColorMap-value", ncid);
+    getGlobalTextAttribute(stringValue, sizeof(stringValue), "ScanType", ncid);
     if (!strcmp(stringValue, "PPI")) {
         product->header.isPPI = true;
     } else if (!strcmp(stringValue, "RHI")) {
         product->header.isRHI = true;
     }
-    getGlobalTextAttribute(product->header.radarName, "radarName-value", ncid);
-    getGlobalTextAttribute(product->header.waveformName, "Waveform", ncid);
-    getGlobalTextAttribute(product->header.vcpDefinition, "RadarKit-VCP-Definition", ncid);
+    getGlobalTextAttribute(product->header.radarName, sizeof(product->header.radarName), "radarName-value", ncid);
+    getGlobalTextAttribute(product->header.waveformName, sizeof(product->header.waveformName), "Waveform", ncid);
+    getGlobalTextAttribute(product->header.vcpDefinition, sizeof(product->header.vcpDefinition), "RadarKit-VCP-Definition", ncid);
 
     r = nc_get_att_double(ncid, NC_GLOBAL, "LatitudeDouble", &product->header.latitude);
     if (r != NC_NOERR) {
@@ -463,7 +477,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
         product->header.wavelength = 4.0f * fv * (RKFloat)product->header.prt[0];
     }
     nc_get_att_int(ncid, NC_GLOBAL, "PulseWidth-value", &iv);
-    r = nc_get_att_text(ncid, NC_GLOBAL, "PulseWidth-unit", stringValue);
+    r = getGlobalTextAttribute(stringValue, sizeof(stringValue), "PulseWidth-unit", ncid);
     if (r == NC_NOERR && !strcasecmp("microseconds", stringValue)) {
         product->header.pw[0] = 1.0e-3 * (float)iv;
     }
-- 
2.43.0


From 155329dff30c6feda967c6a7de85e5ee6e6fa8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 63/99] fix: sweep file attributes and dimensions are limited
 to the sweep

---
 source/RKSweepFile.c | 61 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index 1d6817d..1785e59 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -11,11 +11,36 @@
 #include <RadarKit/RKSweepFile.h>
 #include <RadarKit/RKSweepEngine.h>
 
-static void getGlobalTextAttribute(char *dst, const char *name, const int ncid) {
+static int getGlobalTextAttribute(char *dst, const size_t size, const char *name, const int ncid) {
+    int r;
     size_t n = 0;
-    nc_get_att_text(ncid, NC_GLOBAL, name, dst);
-    nc_inq_attlen(ncid, NC_GLOBAL, name, &n);
-    dst[n] = 0;
+    dst[0] = '\0';
+    if ((r = nc_inq_attlen(ncid, NC_GLOBAL, name, &n)) != NC_NOERR) {
+        return r;
+    }
+    char *text = (char *)malloc(n + 1);
+    if (text == NULL) {
+        return NC_ENOMEM;
+    }
+    if ((r = nc_get_att_text(ncid, NC_GLOBAL, name, text)) == NC_NOERR) {
+        text[n] = '\0';
+        snprintf(dst, size, "%s", text);
+    }
+    free(text);
+    return r;
+}
+
+// Read a block of values from an array of the same rank
+static int getFloatArray(const int ncid, const int varid, const int rank, const size_t *counts, float *dst) {
+    int r, n = 0;
+    const size_t starts[2] = {0, 0};
+    if ((r = nc_inq_varndims(ncid, varid, &n)) != NC_NOERR) {
+        return r;
+    }
+    if (n != rank) {
+        return NC_EINVALCOORDS;
+    }
+    return nc_get_vara_float(ncid, varid, starts, counts, dst);
 }
 
 RKSweep *RKSweepFileRead(const char *inputFile) {
@@ -140,6 +165,11 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 return NULL;
             }
 
+            if (rayCount == 0 || rayCount > RKMaximumRaysPerSweep) {
+                RKLog("Error. rayCount = %zu is not within 1 and %d\n", rayCount, RKMaximumRaysPerSweep);
+                nc_close(ncid);
+                return NULL;
+            }
             if (gateCount > RKMaximumGateCount) {
                 RKLog("Info. gateCount = %zu capped to %d\n", gateCount, RKMaximumGateCount);
                 gateCount = RKMaximumGateCount;
@@ -152,7 +182,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                   RKIntegerToCommaStyleString(rayCount), RKIntegerToCommaStyleString(gateCount), RKIntegerToCommaStyleString(capacity));
 
             // A scratch space for netcdf API
-            scratch = (void *)malloc(rayCount * capacity * sizeof(float));
+            scratch = (void *)calloc(rayCount * capacity, sizeof(float));
             if (scratch == NULL) {
                 RKLog("Error. Unable to allocate memory for a scratch space.\n");
                 nc_close(ncid);
@@ -175,9 +205,9 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             ray = (RKRay *)sweep->rayBuffer;
 
             // Global attributes
-            getGlobalTextAttribute(typeName, "TypeName", ncid);
-            getGlobalTextAttribute(scanType, "ScanType", ncid);
-            getGlobalTextAttribute(sweep->header.desc.name, "radarName-value", ncid);
+            getGlobalTextAttribute(typeName, sizeof(typeName), "TypeName", ncid);
+            getGlobalTextAttribute(scanType, sizeof(scanType), "ScanType", ncid);
+            getGlobalTextAttribute(sweep->header.desc.name, sizeof(sweep->header.desc.name), "radarName-value", ncid);
             r = nc_get_att_double(ncid, NC_GLOBAL, "LatitudeDouble", &sweep->header.desc.latitude);
             if (r != NC_NOERR) {
                 r = nc_get_att_float(ncid, NC_GLOBAL, "Latitude", &fv);
@@ -236,7 +266,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 r = nc_inq_varid(ncid, "elevation", &tmpId);
             }
             if (r == NC_NOERR) {
-                nc_get_var_float(ncid, tmpId, scratch);
+                getFloatArray(ncid, tmpId, 1, &rayCount, scratch);
                 fp = (float *)scratch;
                 for (j = 0; j < rayCount; j++) {
                     ray = RKGetRayFromBuffer(sweep->rayBuffer, j);
@@ -252,7 +282,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 r = nc_inq_varid(ncid, "azimuth", &tmpId);
             }
             if (r == NC_NOERR) {
-                nc_get_var_float(ncid, tmpId, scratch);
+                getFloatArray(ncid, tmpId, 1, &rayCount, scratch);
                 fp = (float *)scratch;
                 for (j = 0; j < rayCount; j++) {
                     ray = RKGetRayFromBuffer(sweep->rayBuffer, j);
@@ -269,7 +299,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 }
             }
             if (r == NC_NOERR) {
-                nc_get_var_float(ncid, tmpId, scratch);
+                getFloatArray(ncid, tmpId, 1, &rayCount, scratch);
                 fp = (float *)scratch;
                 for (j = 0; j < rayCount; j++) {
                     ray = RKGetRayFromBuffer(sweep->rayBuffer, j);
@@ -287,7 +317,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 }
             }
             if (r == NC_NOERR) {
-                nc_get_var_float(ncid, tmpId, scratch);
+                getFloatArray(ncid, tmpId, 1, &rayCount, scratch);
                 fp = (float *)scratch;
                 for (j = 0; j < rayCount; j++) {
                     ray = RKGetRayFromBuffer(sweep->rayBuffer, j);
@@ -340,7 +370,12 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             nc_close(ncid);
             continue;
         }
-        nc_get_var_float(ncid, tmpId, scratch);
+        r = getFloatArray(ncid, tmpId, 2, (size_t []){rayCount, gateCount}, scratch);
+        if (r != NC_NOERR) {
+            RKLog("Warning. Unable to read %s (%s)\n", productNames[k], nc_strerror(r));
+            nc_close(ncid);
+            continue;
+        }
         fp = (float *)scratch;
         for (j = 0; j < rayCount * gateCount; j++) {
             if (*fp == w2_missing_data || *fp == w2_range_folded) {
-- 
2.43.0


From 95f881b8eda85a17680b58124d0686513bd9a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 64/99] fix: handshake arguments stop at what holds them

---
 source/RKWebSocket.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index ee906dd..c9b54b3 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -23,7 +23,10 @@ static char *RKGetHandshakeArgument(const char *buf, const char *key) {
         b++;
     }
     e = strstr(b, RKEOL);
-    size_t l = (size_t)(e - b);
+    size_t l = e == NULL ? strlen(b) : (size_t)(e - b);
+    if (l > sizeof(argument) - 1) {
+        l = sizeof(argument) - 1;
+    }
     memcpy(argument, b, l);
     argument[l] = '\0';
     return argument;
-- 
2.43.0


From bdb5a76c5c6ae988d2744a0e180d12d2c3b1639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 65/99] fix: websocket frames stay within the frame buffer

---
 source/RKWebSocket.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index c9b54b3..d1d649b 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -67,10 +67,10 @@ static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void
     }
     if (r > 65535) {
         h->len = 127;
-        // Frame header can be up to 10 bytes
-        if (r > RKWebSocketFrameSize - 10) {
-            r = RKWebSocketFrameSize - 10;
-            fprintf(stderr, "I am limited to %d bytes\n", RKWebSocketFrameSize - 10);
+        // Frame header can be up to 14 bytes, and there is a terminator after the payload
+        if (r > RKWebSocketFrameSize - 15) {
+            r = RKWebSocketFrameSize - 15;
+            fprintf(stderr, "I am limited to %d bytes\n", RKWebSocketFrameSize - 15);
         }
         *((uint64_t *)payload) = htonll((uint64_t)r);
         payload += 8;
@@ -113,6 +113,10 @@ static size_t RKWebSocketFrameDecode(void **dst, void *buf) {
     } else {
         r = h->len;
     }
+    // The frame buffer holds no more than this
+    if (r > RKWebSocketFrameSize - 15) {
+        r = RKWebSocketFrameSize - 15;
+    }
     payload[r + 4 * h->mask] = '\0';
     if (h->mask) {
         ws_mask_key key = {.u32 = *(uint32_t *)payload};
@@ -422,7 +426,7 @@ void *transporter(void *in) {
                     break;
                 } else if (FD_ISSET(W->sd, &rfd)) {
                     // There is something to read
-                    r = RKSocketRead(W, origin, RKWebSocketFrameSize);
+                    r = RKSocketRead(W, origin, RKWebSocketFrameSize - 1 - origin);
                     if (r <= 0) {
                         if (W->verbose) {
                             fprintf(stderr, "Error. RKSocketRead() = %d   origin = %u\n", r, origin);
@@ -432,6 +436,11 @@ void *transporter(void *in) {
                     }
                     if (origin == 0) {
                         targetFrameSize = RKWebSocketFrameGetTargetSize(W->frame);
+                        if (targetFrameSize > RKWebSocketFrameSize - 1) {
+                            RKLog("%s Error. Frame of %zu B is more than what I can handle.\n", W->name, targetFrameSize);
+                            W->connected = false;
+                            break;
+                        }
                         total = r;
                     } else {
                         total += r;
-- 
2.43.0


From 05c2af2219fc40b3ca696f0399ce8d45116391b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 66/99] fix: websocket secret stops at what holds it

---
 source/RKWebSocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index d1d649b..8a0a046 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -231,7 +231,7 @@ static int RKWebSocketConnect(RKWebSocket *W) {
     strcpy(W->secret, "RadarHub123456789abcde");
     FILE *fid = fopen("radarkit-radarhub-secret", "r");
     if (fid) {
-        r = fscanf(fid, "%s", buf);
+        r = fscanf(fid, "%31s", buf);
         if (r == 1 && strlen(buf) == 22) {
             if (W->verbose > 1) {
                 RKLog("%s Using secret %s (%zu) ...\n", W->name, buf, strlen(buf));
-- 
2.43.0


From d29e29b251d7c8a2e03a9c11dffff692d530880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 67/99] fix: hexadecimal display has room for what it shows

---
 source/RKWebSocket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 8a0a046..12404b1 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -325,7 +325,7 @@ void *transporter(void *in) {
     char words[][5] = {"love", "hope", "cool", "cute", "sexy", "nice", "calm", "wish"};
     char uword[5] = "xxxx";
     char message[256];
-    char show[256];
+    char show[512];
 
     fd_set rfd;
     fd_set wfd;
@@ -463,7 +463,7 @@ void *transporter(void *in) {
                             printf("%2u read  ", total); RKShowWebsocketFrameHeader(W);
                         }
                         if (size != 4 && h->opcode == RFC6455_OPCODE_PING) {
-                            RKBytesInHex(show, anchor, size);
+                            RKBytesInHex(show, anchor, MIN(size, 127));
                         } else if (size > 32) {
                             RKHeadTailBytesInHex(show, anchor, size);
                         } else {
-- 
2.43.0


From 209d3f98f171453258cd8c7e1adf1fa0a3db8a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 68/99] fix: NMEA words stop at what holds them

---
 source/ext/nmea.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/ext/nmea.c b/source/ext/nmea.c
index 64c50c1..3c9b18b 100644
--- a/source/ext/nmea.c
+++ b/source/ext/nmea.c
@@ -73,6 +73,9 @@ static void tokenize_nmea_gpgga_sentence(char *sentence, nmea_data_t *out) {
         } while (*e != ',' && *e != '\0');
         // The field is contained between *s and *e
         len = (size_t)((long)e - (long)s) - 1;
+        if (len > sizeof(token) - 1) {
+            len = sizeof(token) - 1;
+        }
         if (len) {
             strncpy(token, s + 1, len);
         }
@@ -135,6 +138,9 @@ static void tokenize_nmea_gphdt_sentence(char *sentence, nmea_data_t *out) {
         } while (*e != ',' && *e != '\0');
         // The field is contained between *s and *e
         len = (size_t)((long)e - (long)s) - 1;
+        if (len > sizeof(token) - 1) {
+            len = sizeof(token) - 1;
+        }
         if (len) {
             strncpy(token, s + 1, len);
         }
@@ -168,6 +174,9 @@ static void tokenize_nmea_gpvtg_sentence(char *sentence, nmea_data_t *out) {
         } while (*e != ',' && *e != '\0');
         // The field is contained between *s and *e
         len = (size_t)((long)e - (long)s) - 1;
+        if (len > sizeof(token) - 1) {
+            len = sizeof(token) - 1;
+        }
         if (len) {
             strncpy(token, s + 1, len);
         }
@@ -228,6 +237,9 @@ static void tokenize_nmea_gprmc_sentence(char *sentence, nmea_data_t *out) {
         } while (*e != ',' && *e != '\0');
         // The field is contained between *s and *e
         len = (size_t)((long)e - (long)s) - 1;
+        if (len > sizeof(token) - 1) {
+            len = sizeof(token) - 1;
+        }
         if (len) {
             strncpy(token, s + 1, len);
         }
-- 
2.43.0


From 9782d679246efb3426defd04f4c9d7ed012e2a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 69/99] fix: RKReporterSetRadar releases the web socket it
 replaces

---
 source/RKReporter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/RKReporter.c b/source/RKReporter.c
index 9e4baa0..7ad9f79 100644
--- a/source/RKReporter.c
+++ b/source/RKReporter.c
@@ -396,6 +396,9 @@ void RKReporterSetRadar(RKReporter *engine, RKRadar *radar) {
     if (engine->verbose > 1) {
         RKLog("%s Setting up radar %s (%s @ %s)\n", engine->name, radar->desc.name, engine->host, engine->address);
     }
+    if (engine->ws) {
+        RKWebSocketFree(engine->ws);
+    }
     engine->ws = RKWebSocketInit(engine->host, engine->address);
     RKWebSocketSetOpenHandler(engine->ws, &handleOpen);
     RKWebSocketSetCloseHandler(engine->ws, &handleClose);
-- 
2.43.0


From c281c0eb9167396dd264ce592586d2deadf75155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:58 +0000
Subject: [PATCH 70/99] fix: ray gatherer neither waits for nor joins a thread
 it could not launch

---
 source/RKSweepEngine.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 9f3bb93..88e5050 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -439,10 +439,12 @@ static void *rayGatherer(void *in) {
             tic = engine->tic;
             if (pthread_create(&tidSweepManager, NULL, sweepManager, engine)) {
                 RKLog("%s Error. Unable to launch a sweep writer.\n", engine->name);
+                tidSweepManager = (pthread_t)0;
+            } else {
+                do {
+                    usleep(50000);
+                } while (tic == engine->tic && engine->state & RKEngineStateWantActive);
             }
-            do {
-                usleep(50000);
-            } while (tic == engine->tic && engine->state & RKEngineStateWantActive);
 
             // If the rayReleaser is still going, wait for it to finish, launch a new one, wait for engine->scratchSpaceIndex is grabbed through engine->tic
             if (tidRayReleaser) {
@@ -451,10 +453,12 @@ static void *rayGatherer(void *in) {
             tic = engine->tic;
             if (pthread_create(&tidRayReleaser, NULL, rayReleaser, engine)) {
                 RKLog("%s Error. Unable to launch a ray releaser.\n", engine->name);
+                tidRayReleaser = (pthread_t)0;
+            } else {
+                do {
+                    usleep(50000);
+                } while (tic == engine->tic && engine->state & RKEngineStateWantActive);
             }
-            do {
-                usleep(50000);
-            } while (tic == engine->tic && engine->state & RKEngineStateWantActive);
 
             // Ready for next collection while the sweepManager is busy
             engine->scratchSpaceIndex = RKNextModuloS(engine->scratchSpaceIndex, RKSweepScratchSpaceDepth);
-- 
2.43.0


From 583f2e55d3de7585a6bcd8dd71073082c2b9cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:01 +0000
Subject: [PATCH 71/99] fix: file remover and host pinger answer their creator
 when they run out of memory

---
 source/RKFileManager.c | 3 +++
 source/RKHostMonitor.c | 1 +
 2 files changed, 4 insertions(+)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 3798a7b..69fbdb8 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -307,6 +307,7 @@ static void *fileRemover(void *in) {
     RKPathname *folders = (RKPathname *)malloc(bytes);
     if (folders == NULL) {
         RKLog("%s Error. Unable to allocate space for folder list.\n", me->name);
+        me->tic = 1;
         return (void *)-1;
     }
     memset(folders, 0, bytes);
@@ -317,6 +318,7 @@ static void *fileRemover(void *in) {
     if (filenames == NULL) {
         RKLog("%s Error. Unable to allocate space for file list.\n", me->name);
         free(folders);
+        me->tic = 1;
         return (void *)-2;
     }
     memset(filenames, 0, bytes);
@@ -328,6 +330,7 @@ static void *fileRemover(void *in) {
         RKLog("%s Error. Unable to allocate space for indexed stats.\n", me->name);
         free(folders);
         free(filenames);
+        me->tic = 1;
         return (void *)-2;
     }
     memset(indexedStats, 0, bytes);
diff --git a/source/RKHostMonitor.c b/source/RKHostMonitor.c
index 5a7ffe0..890bdbc 100644
--- a/source/RKHostMonitor.c
+++ b/source/RKHostMonitor.c
@@ -88,6 +88,7 @@ static void *hostPinger(void *in) {
     void *buff = malloc(RKHostMonitorPacketSize);
     if (buff == NULL) {
         RKLog("%s Error. Unable to allocate memory. Unable to continue.\n", engine->name);
+        me->tic = 2;
         return NULL;
     }
 
-- 
2.43.0


From 82088c70520a8135c55af52f453077902a3f9ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:34 +0000
Subject: [PATCH 72/99] fix: RKStop forgets the system inspector it has
 released

---
 source/RKRadar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index f1e7686..715c85c 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2019,6 +2019,7 @@ int RKStop(RKRadar *radar) {
     radar->state &= ~RKRadarStateLive;
     if (radar->systemInspector) {
         RKSimpleEngineFree(radar->systemInspector);
+        radar->systemInspector = NULL;
     }
     if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
         RKLog("Radar state = 0x%08x\n", radar->state);
-- 
2.43.0


From 8a5e5697390679367dbbb072d5a1fb963b4114ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 73/99] fix: RKLastTwoPartsOfPath copes with a path of fewer
 than three slashes

---
 source/RKMisc.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index ae03562..b906831 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -875,11 +875,12 @@ char *RKLastPartOfPath(const char *path) {
 
 char *RKLastTwoPartsOfPath(const char *path) {
     char *a0 = strchr((char *)path, '/');
-    char *a1 = strchr(a0 + 1, '/');
-    char *a2 = strchr(a1 + 1, '/');
     if (a0 == NULL) {
-        return a0;
-    } else if (a1 != NULL) {
+        return (char *)path;
+    }
+    char *a1 = strchr(a0 + 1, '/');
+    char *a2 = a1 == NULL ? NULL : strchr(a1 + 1, '/');
+    if (a1 != NULL) {
         if (a2 == NULL) {
             return a1;
         } else if (a2 != NULL) {
-- 
2.43.0


From a13784cbc1c224b244436df54669850fcc2ac4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 74/99] fix: RKExtractJSON and RKFindCondition stop at the end
 of an incomplete string

---
 source/RKFoundation.c |  6 ++++++
 source/RKMisc.c       | 37 ++++++++++++++++++++++++-------------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index ad4f3a1..d3c678b 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2257,12 +2257,18 @@ bool RKFindCondition(const char *string, const RKStatusEnum target, const bool s
     ks = str + 1;
     while (*ks != '\0' && *ks != '}') {
         ks = RKExtractJSON(ks, &type, key, obj);
+        if (ks == NULL) {
+            break;
+        }
         if (type != RKJSONObjectTypeObject) {
             continue;
         }
         sks = obj + 1;
         while (*sks != '\0' && *sks != '}') {
             sks = RKExtractJSON(sks, &subType, subKey, subObj);
+            if (sks == NULL) {
+                break;
+            }
             if (strncmp("Enum", subKey, 4)) {
                 continue;
             }
diff --git a/source/RKMisc.c b/source/RKMisc.c
index b906831..06f4739 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -103,16 +103,17 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
     while (*ks != '"' && *ks != '\0') {
         ks++;
     }
+    if (*ks == '\0') {
+        fprintf(stderr, "Expected a keyword in JSON string.\n");
+        return NULL;
+    }
     ke = ++ks;
     while (*ke != '"' && *ke != '\0') {
         ke++;
     }
     if (*ke == '\0') {
-        fprintf(stderr, "Expected a close quote for keyword %s\n", ks == NULL ? "(NULL)" : ks);
-        fprintf(stderr, "Original: %s\n", ks);
-        if (ke == NULL) {
-            return NULL;
-        }
+        fprintf(stderr, "Expected a close quote for keyword %s\n", ks);
+        return NULL;
     }
     // Now a keyword is in betwee ks & ke
     strncpy(key, ks, ke - ks);
@@ -122,6 +123,10 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
     while (*os != ':' && *os != '\0') {
         os++;
     }
+    if (*os == '\0') {
+        fprintf(stderr, "Expected a value for keyword %s\n", key);
+        return NULL;
+    }
     // Space character(s) in between ':' and '{'
     os++;
     while (*os == ' ') {
@@ -131,10 +136,12 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
         // This is an object, recursively call myself.
         *type = RKJSONObjectTypeObject;
         oe = os + 1;
-        while (*oe != '}') {
+        while (*oe != '}' && *oe != '\0') {
+            oe++;
+        }
+        if (*oe != '\0') {
             oe++;
         }
-        oe++;
         strncpy(value, os, oe - os);
         value[oe - os] = '\0';
         #if defined(DEBUG_HEAVY)
@@ -144,10 +151,12 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
         // This is an array
         *type = RKJSONObjectTypeArray;
         oe = os + 1;
-        while (*oe != ']') {
+        while (*oe != ']' && *oe != '\0') {
+            oe++;
+        }
+        if (*oe != '\0') {
             oe++;
         }
-        oe++;
         strncpy(value, os, oe - os);
         value[oe - os] = '\0';
         #if defined(DEBUG_HEAVY)
@@ -157,17 +166,19 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
         // This is a string
         *type = RKJSONObjectTypeString;
         oe = os + 1;
-        while (*oe != '"') {
+        while (*oe != '"' && *oe != '\0') {
+            oe++;
+        }
+        if (*oe != '\0') {
             oe++;
         }
-        oe++;
         strncpy(value, os, oe - os);
         value[oe - os] = '\0';
     } else {
         // This is just a plain value
         *type = RKJSONObjectTypePlain;
-        oe = os + 1;
-        while (*oe != ',' && *oe != '}') {
+        oe = os;
+        while (*oe != ',' && *oe != '}' && *oe != '\0') {
             oe++;
         }
         strncpy(value, os, oe - os);
-- 
2.43.0


From 57fbf4c3ddc85f6dc041c2723251bbb76111d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 75/99] fix: RKJSONScanPassed does not step over the end of the
 string

---
 source/RKMisc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 06f4739..7d18a19 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -522,7 +522,9 @@ char *RKJSONScanPassed(char *destination, const char *source, const char delimit
             round == 0 &&
             square == 0 &&
             (*c == delimiter || *c == '}' || *c == ')' || *c == ']' || *c == '\0')) {
-            c++;
+            if (*c != '\0') {
+                c++;
+            }
             break;
         }
     }
-- 
2.43.0


From be85521f853b7fe535e3e50b425ceaac745ebd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 76/99] fix: vol command without any scan is refused

---
 source/RKSteerEngine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index d2b9d13..7498875 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -1022,6 +1022,10 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
         int k = 0;
         char *saved;
         char *token = strchr(string, ' ');
+        if (token == NULL) {
+            RKLog("%s Incomplete vol command string\n", engine->name);
+            return RKResultFailedToSetVCP;
+        }
         do {
             token++;
         } while (*token == ' ' && k++ < 8);
-- 
2.43.0


From b385c4b0c4881cb620b1d65bb290155e8b709503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 77/99] fix: RKSweepFileRead copes with a name whose last dot
 is followed by a digit

---
 source/RKSweepFile.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index 1785e59..cecf921 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -80,7 +80,11 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
         e = (char *)inputFile + strlen(inputFile) - 1;
     }
     while (*(e + 1) >= '0' && *(e + 1) <= '9') {
-        e = strstr(e + 1, ".");
+        char *next = strstr(e + 1, ".");
+        if (next == NULL) {
+            break;
+        }
+        e = next;
     }
     // Find the previous '-'
     char *b = e;
-- 
2.43.0


From 3534c0b76630076f4aa9f02d039565d1771199f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 78/99] fix: ASCII art stream waits for the first ray

---
 source/RKCommandCenter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 73279c2..d789d4c 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -603,7 +603,7 @@ int socketStreamHandler(RKOperator *O) {
         } else if (k == RKStreamASCIIArtZ) {
             // Stream "6" - ASCII art of reflectivity
             ray = RKGetLatestRayIndex(user->radar, &endIndex);
-            if ((user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtZ) {
+            if (ray && (user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtZ) {
                 user->streamsInProgress = RKStreamASCIIArtZ;
                 user->asciiArtStride = ray->header.gateCount / (user->terminalSize.ws_col - 20);
                 user->rayIndex = endIndex;
-- 
2.43.0


From 434df42108acb13413e83ffdd59434fffc3c48ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 79/99] fix: a product header without its identifiers does not
 end the command center

---
 source/RKFoundation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index d3c678b..40eca56 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2379,11 +2379,11 @@ int RKParseProductDescription(RKProductDesc *desc, const char *inputString) {
 }
 
 RKProductId RKProductIdFromString(const char *string) {
-    return (RKProductId)strtoul(string, NULL, 10);
+    return string == NULL ? 0 : (RKProductId)strtoul(string, NULL, 10);
 }
 
 RKIdentifier RKIdentifierFromString(const char *string) {
-    return (RKIdentifier)strtouq(string, NULL, 10);
+    return string == NULL ? 0 : (RKIdentifier)strtouq(string, NULL, 10);
 }
 
 #pragma mark - Simple Engine Free
-- 
2.43.0


From f159b6217841d17a0daabe48c3363be559404c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 80/99] fix: sweepManager derives no archive name when there
 was no product

---
 source/RKSweepEngine.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 88e5050..84509c0 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -182,7 +182,7 @@ static void *sweepManager(void *in) {
     }
 
     int summarySize = 0;
-    char filename[RKMaximumPathLength];
+    char filename[RKMaximumPathLength] = "";
     size_t filelistLength = strlen(filelist);
 
     // Product recording
@@ -289,7 +289,10 @@ static void *sweepManager(void *in) {
             RKLog("%s Error. Failed using system() -> %d   errno = %d\n", engine->name, j, errno);
         }
         // Potential filenames that may be generated by the custom command. Need to notify file manager about them.
-        RKReplaceFileExtension(filename, strrchr(filename, '-'), ".__");
+        char *tail = strrchr(filename, '-');
+        if (tail) {
+            RKReplaceFileExtension(filename, tail, ".__");
+        }
         if (engine->fileHandlingScriptProperties & RKScriptPropertyProduceArchive) {
             if (engine->fileHandlingScriptProperties & RKScriptPropertyProduceTarXz) {
                 RKReplaceFileExtension(filename, "__", "tar.xz");
-- 
2.43.0


From e6ad7396ca27b811a0d4ff3fc11675f7685a54b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 81/99] fix: welcome message copes with a server name of
 unfinished color codes

---
 source/RKServer.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index 723f4cf..4819daf 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -446,12 +446,14 @@ int RKDefaultWelcomeHandler(RKOperator *O) {
     int ii;
     // Count the characters between two escape characters
     if (*c == '\033') {
-        while (*c != 'm') {
+        while (*c != 'm' && *c != '\0') {
+            c++;
+        }
+        if (*c != '\0') {
             c++;
         }
-        c++;
         char *e = c;
-        while (*e != '\033') {
+        while (*e != '\033' && *e != '\0') {
             e++;
         }
         ii = (int)(e - c) + 1;
-- 
2.43.0


From 445745fbc1d4694fcea88c8c0abfe57e5c70ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:48 +0000
Subject: [PATCH 82/99] fix: write out the cache of the raw data recorder when
 it stops

Pulses still in the write cache were lost at a stop, and a file smaller than
the cache was removed entirely.
---
 source/RKRawDataRecorder.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index e28a53d..95a2d0a 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -284,10 +284,13 @@ static void *pulseRecorder(void *in) {
     }
 
     if (engine->fd) {
+        RKRawDataRecorderCacheFlush(engine);
         close(engine->fd);
         engine->fd = 0;
         if (engine->fileWriteCount == 0) {
             remove(filename);
+        } else if (engine->fileManager) {
+            RKFileManagerAddFile(engine->fileManager, filename, RKFileTypeIQ);
         }
     }
 
-- 
2.43.0


From 3bfaec1c24eece3952b0a7d556a2329bdfb98a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:48 +0000
Subject: [PATCH 83/99] fix: announce every health log under its own name when
 it is closed

After the recording was switched off, an open log was kept and later announced
under the name of a file that was never created.
---
 source/RKHealthLogger.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/RKHealthLogger.c b/source/RKHealthLogger.c
index c0654e4..9fbec14 100644
--- a/source/RKHealthLogger.c
+++ b/source/RKHealthLogger.c
@@ -88,8 +88,9 @@ static void *healthLogger(void *in) {
         timeStruct = gmtime(&unixTime);
         if (min != timeStruct->tm_min) {
             min = timeStruct->tm_min;
-            if (engine->record && engine->fid) {
+            if (engine->fid) {
                 fclose(engine->fid);
+                engine->fid = NULL;
                 if (engine->verbose) {
                     RKLog("%s %sRecorded%s %s\n",
                           engine->name,
@@ -142,6 +143,9 @@ static void *healthLogger(void *in) {
     if (engine->fid != NULL) {
         fclose(engine->fid);
         engine->fid = NULL;
+        if (engine->fileManager) {
+            RKFileManagerAddFile(engine->fileManager, filename, RKFileTypeHealth);
+        }
     }
 
     engine->state ^= RKEngineStateActive;
-- 
2.43.0


From cb69c62d0df65926b0ee873dfaee7469d2aee461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:21 +0000
Subject: [PATCH 84/99] fix: keep the write cache of the raw data recorder
 while it is active

A new cache replaced the one in use by the recording thread, with the data in it.
---
 source/RKRawDataRecorder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 95a2d0a..82fa017 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -362,6 +362,10 @@ void RKRawDataRecorderSetCacheSize(RKRawDataRecorder *engine, uint32_t size) {
     if (engine->cacheSize == size) {
         return;
     }
+    if (engine->state & RKEngineStateWantActive) {
+        RKLog("%s Error. Cache size cannot change when the engine is active.\n", engine->name);
+        return;
+    }
     if (engine->cache != NULL) {
         free(engine->cache);
         engine->memoryUsage -= engine->cacheSize;
-- 
2.43.0


From 18083cc3d5ee6ddca7094db0e1b3f7d996b5c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:43 +0000
Subject: [PATCH 85/99] fix: volume commands that are refused get an answer

---
 source/RKSteerEngine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 7498875..2b18a62 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -1024,6 +1024,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
         char *token = strchr(string, ' ');
         if (token == NULL) {
             RKLog("%s Incomplete vol command string\n", engine->name);
+            sprintf(response, "NAK. Incomplete volume command." RKEOL);
             return RKResultFailedToSetVCP;
         }
         do {
@@ -1031,6 +1032,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
         } while (*token == ' ' && k++ < 8);
         if (*token == ' ') {
             RKLog("%s Unxpected vol command string\n", engine->name);
+            sprintf(response, "NAK. Unexpected volume command." RKEOL);
             return RKResultFailedToSetVCP;
         }
         strncpy(engine->scanString, token, RKMaximumStringLength - 1);
@@ -1058,6 +1060,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
                     mode = RKScanModeSpeedDown;
                 } else {
                     RKLog("%s Error. Scan mode '%s' not understood.\n", engine->name, symbol);
+                    sprintf(response, "NAK. Scan mode '%s' not understood." RKEOL, symbol);
                     valid = false;
                     break;
                 }
@@ -1093,6 +1096,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
                 result = RKSteerEngineAddRHISet(engine, token, onlyOnce, response);
                 valid = result == RKResultSuccess;
             } else if (!strcmp("ss", symbol)) {
+                sprintf(response, "NAK. Sector set is not supported in a volume." RKEOL);
                 result = RKResultFailedToExecuteCommand;
                 valid = false;
             }
-- 
2.43.0


From 70224ddb77ff6ecc3318630602e9e9fc0cec722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:43 +0000
Subject: [PATCH 86/99] fix: a disconnect command to the hardware relays gets
 an answer

---
 source/RKHealthRelayNaveen.c | 1 +
 source/RKHealthRelayTweeta.c | 1 +
 source/RKPedestalPedzy.c     | 1 +
 source/RKRadarRelay.c        | 6 ++++++
 4 files changed, 9 insertions(+)

diff --git a/source/RKHealthRelayNaveen.c b/source/RKHealthRelayNaveen.c
index 81689cd..a26af56 100644
--- a/source/RKHealthRelayNaveen.c
+++ b/source/RKHealthRelayNaveen.c
@@ -118,6 +118,7 @@ int RKHealthRelayNaveenExec(RKHealthRelay input, const char * command, char _Nul
 
     if (!strcmp(command, "disconnect")) {
         RKClientStop(client);
+        sprintf(response, "ACK. Disconnected." RKEOL);
     } else {
         if (client->verbose) {
             RKLog("%s Current client->state = 0x%08x   command = '%s'", client->name, client->state, command);
diff --git a/source/RKHealthRelayTweeta.c b/source/RKHealthRelayTweeta.c
index 6008ebf..07dddb5 100644
--- a/source/RKHealthRelayTweeta.c
+++ b/source/RKHealthRelayTweeta.c
@@ -125,6 +125,7 @@ int RKHealthRelayTweetaExec(RKHealthRelay input, const char *command, char _Null
 
     if (!strcmp(command, "disconnect")) {
         RKClientStop(client);
+        sprintf(response, "ACK. Disconnected." RKEOL);
     } else {
         if (client->verbose) {
             RKLog("%s Current client->state = 0x%08x   command = '%s'", client->name, client->state, command);
diff --git a/source/RKPedestalPedzy.c b/source/RKPedestalPedzy.c
index 0ef7a9f..9334deb 100644
--- a/source/RKPedestalPedzy.c
+++ b/source/RKPedestalPedzy.c
@@ -248,6 +248,7 @@ int RKPedestalPedzyExec(RKPedestal input, const char *command, char _Nullable *r
 
     if (!strcmp(command, "disconnect")) {
         RKClientStop(client);
+        sprintf(response, "ACK. Disconnected." RKEOL);
     } else {
         if (client->verbose) {
             RKLog("%s Current client->state = 0x%08x   command = '%s'", client->name, client->state, command);
diff --git a/source/RKRadarRelay.c b/source/RKRadarRelay.c
index 20b4251..ecfba5a 100644
--- a/source/RKRadarRelay.c
+++ b/source/RKRadarRelay.c
@@ -416,6 +416,9 @@ int RKRadarRelayStop(RKRadarRelay *engine) {
 
 int RKRadarRelayExec(RKRadarRelay *engine, const char *command, char *response) {
     if (!(engine->state & RKEngineStateWantActive)) {
+        if (response != NULL) {
+            sprintf(response, "NAK. Radar Relay not active." RKEOL);
+        }
         return RKResultEngineNotActive;
     }
     RKClient *client = engine->client;
@@ -424,6 +427,9 @@ int RKRadarRelayExec(RKRadarRelay *engine, const char *command, char *response)
     }
     if (!strcmp(command, "disconnect")) {
         RKClientStop(client);
+        if (response != NULL) {
+            sprintf(response, "ACK. Disconnected." RKEOL);
+        }
     } else {
         if (client->state < RKClientStateConnected) {
             if (response != NULL) {
-- 
2.43.0


From 1dbef77d7a6de5047fe15cd92726faddf2a393ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:43 +0000
Subject: [PATCH 87/99] fix: every command to the signal processor gets its own
 answer

---
 source/RKRadar.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 715c85c..4e09185 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2311,7 +2311,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                                 case 4:
                                     RKSetMomentProcessorToMultiLag(radar, 4);
                                     if (string) {
-                                        sprintf(string, "ACK. Moment processor set to MultiLag-3." RKEOL);
+                                        sprintf(string, "ACK. Moment processor set to MultiLag-4." RKEOL);
                                     }
                                     break;
                                 case 5:
@@ -2353,6 +2353,9 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         break;
                     case 'N':
                         // 'dN' - DSP noise override in dB
+                        if (string) {
+                            sprintf(string, "NAK. Command not implemented." RKEOL);
+                        }
                         break;
                     case 'r':
                         // 'dr' - Restart DSP engines
@@ -2387,6 +2390,9 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         }
                         break;
                     default:
+                        if (string) {
+                            snprintf(string, RKMaximumStringLength, "NAK. Unknown command '%s'." RKEOL, commandString);
+                        }
                         break;
                 }
                 break;
@@ -2682,6 +2688,8 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                 }
                 break;
         } // switch ...
+    } else if (string) {
+        sprintf(string, "NAK. Radar is not a signal processor." RKEOL);
     }
     return RKResultSuccess;
 }
-- 
2.43.0


From 68229358f48fe9237ec7edd66fc7b583161a1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:15 +0000
Subject: [PATCH 88/99] fix: authentication through a relay is not taken for a
 radar selection

---
 source/RKCommandCenter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index d789d4c..305239c 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -341,6 +341,7 @@ int socketCommandHandler(RKOperator *O) {
                     O->delimTx.type = RKNetworkPacketTypeControls;
                     O->delimTx.size = (uint32_t)strlen(user->commandResponse);
                     RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->commandResponse, (ssize_t)O->delimTx.size, NULL);
+                    break;
 
                 case 'r':
                     // Change radar
-- 
2.43.0


From 94c12aa82ea4e0593150204ca6ce2a2524795329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:15 +0000
Subject: [PATCH 89/99] fix: an empty scan command is not compared with what
 was on the stack

---
 source/RKSteerEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 2b18a62..b28b16a 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -883,7 +883,7 @@ RKSteerCommand RKSteerCommandFromString(const char *string) {
     char token[64];
     int s = sscanf(string, "%63s %*s", token);
     RKSteerCommand type = RKSteerCommandNone;
-    if (s == 0) {
+    if (s < 1) {
         return type;
     } else if (!strcmp(token, "home")) {
         type = RKSteerCommandHome | RKSteerCommandImmediate;
-- 
2.43.0


From 778aef78074bafb5079dc76763b941ae462f6ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:23 +0000
Subject: [PATCH 90/99] fix: the use counts of the FFT plans start from zero

---
 source/RKDSP.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKDSP.c b/source/RKDSP.c
index e0b2cd9..9cef902 100644
--- a/source/RKDSP.c
+++ b/source/RKDSP.c
@@ -490,6 +490,7 @@ RKFFTModule *RKFFTModuleInit(const uint32_t capacity, const int verbose) {
         RKLog("Error. Unable to allocate RKFFTResource.\n");
         exit(EXIT_FAILURE);
     }
+    memset(module->plans, 0, planCount * sizeof(RKFFTResource));
 
     // DFT Wisdom
     char *wisdom = (char *)malloc(1024 * 1024);
-- 
2.43.0


From 25c000d05c5a1b3dba2b8b425af53fd6f3afc1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:23 +0000
Subject: [PATCH 91/99] fix: the hop sequence shown for zero hops is empty

---
 source/RKDSP.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKDSP.c b/source/RKDSP.c
index 9cef902..17f252c 100644
--- a/source/RKDSP.c
+++ b/source/RKDSP.c
@@ -135,7 +135,7 @@ int RKBestStrideOfHopsV1(const int hopCount, const bool showNumbers) {
     }
     if (showNumbers) {
         n = 0;
-        char sequence[1024];
+        char sequence[1024] = "";
         i = 0;
         for (k = 0; k < hopCount; k++) {
             i += snprintf(sequence + i, sizeof(sequence) - i, " %d", n);
-- 
2.43.0


From 793c7dec6754b446259f764e3613ad0a493be654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:46 +0000
Subject: [PATCH 92/99] fix: refuse a waveform file with a filter that reaches
 past its samples

---
 source/RKWaveform.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index f54ec87..1a56e49 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1070,10 +1070,11 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                 RKWaveformFree(waveform);
                 return NULL;
             }
-            if (waveform->filterAnchors[k][j].origin > RKMaximumGateCount) {
-                RKLog("Error. This waveform is invalid.  origin = %s > %s (RKMaximumGateCount)\n",
+            if (waveform->filterAnchors[k][j].origin > waveform->depth - waveform->filterAnchors[k][j].length) {
+                RKLog("Error. This waveform is invalid.  origin = %s + length = %s > depth %s\n",
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].origin),
-                      RKIntegerToCommaStyleString(RKMaximumGateCount));
+                      RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].length),
+                      RKIntegerToCommaStyleString(waveform->depth));
                 free(fileHeader);
                 RKWaveformFree(waveform);
                 return NULL;
-- 
2.43.0


From 49f6976da281c37f3e6c960fb7f52bb785b95650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:46 +0000
Subject: [PATCH 93/99] fix: refuse a version 5 file with a filter that reaches
 past its waveform

---
 source/RKFileHeader.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 0326730..7a40f2a 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -81,6 +81,12 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         // Initialize a waveformDecimate that matches the original config->filterAnchors
         uint32_t u32 = 0;
         for (k = 0; k < fileHeaderV1->config.filterCount; k++) {
+            if (fileHeaderV1->config.filterAnchors[k].length > RKMaximumGateCount) {
+                RKLog("Error. This file is invalid.  filter length = %s > %s (RKMaximumGateCount)\n",
+                      RKIntegerToCommaStyleString(fileHeaderV1->config.filterAnchors[k].length),
+                      RKIntegerToCommaStyleString(RKMaximumGateCount));
+                exit(EXIT_FAILURE);
+            }
             u32 += fileHeaderV1->config.filterAnchors[k].length;
         }
         // No raw (uncompressed) data prior to this built. Talk to Boonleng if you managed to, and needed to, process one
@@ -90,6 +96,13 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         waveform->filterCounts[0] = fileHeaderV1->config.filterCount;
         for (k = 0; k < waveform->filterCounts[0]; k++) {
             memcpy(&waveform->filterAnchors[0][k], &fileHeaderV1->config.filterAnchors[k], sizeof(RKFilterAnchor));
+            if (waveform->filterAnchors[0][k].origin > u32 - waveform->filterAnchors[0][k].length) {
+                RKLog("Error. This file is invalid.  filter origin = %s + length = %s > depth %s\n",
+                      RKIntegerToCommaStyleString(waveform->filterAnchors[0][k].origin),
+                      RKIntegerToCommaStyleString(waveform->filterAnchors[0][k].length),
+                      RKIntegerToCommaStyleString(u32));
+                exit(EXIT_FAILURE);
+            }
         }
         // Fill one some dummy samples to get things going
         RKWaveformOnes(waveform);
-- 
2.43.0


From 1105cd11ed25d706e79b341a367cf3653a01d91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:46 +0000
Subject: [PATCH 94/99] fix: limit the down-sampled gate count of a relayed
 pulse to the local capacity

---
 source/RKRadarRelay.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/RKRadarRelay.c b/source/RKRadarRelay.c
index ecfba5a..25bbe6d 100644
--- a/source/RKRadarRelay.c
+++ b/source/RKRadarRelay.c
@@ -120,6 +120,9 @@ static int RKRadarRelayRead(RKClient *client) {
             if (pulse->header.gateCount > pulse->header.capacity) {
                 pulse->header.gateCount = pulse->header.capacity;
             }
+            if (pulse->header.downSampledGateCount > pulse->header.capacity) {
+                pulse->header.downSampledGateCount = pulse->header.capacity;
+            }
             // Change the in-transit header status to vacant, will restore after all data are in place
             pulse->header.s = RKPulseStatusVacant;
 
-- 
2.43.0


From 91704dd5106bb39a76d1d6db727ef561bf2b006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:55 +0000
Subject: [PATCH 95/99] fix: down-sampled I/Q display of a radar without a
 pulse engine

---
 source/RKCommandCenter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 305239c..ef0e372 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -1462,6 +1462,10 @@ int socketStreamHandler(RKOperator *O) {
 
                 case 1:
                     // Down-sampled twice (in addition to radar->desc.pulseToRayRatio) I/Q data from RKComplex samples
+                    if (!(user->radar->desc.initFlags & RKInitFlagSignalProcessor)) {
+                        pulseHeader.gateCount = 0;
+                        break;
+                    }
                     k = user->pulseDownSamplingRatio;
 
                     //pulseHeader.gateCount = MIN(pulseHeader.downSampledGateCount / k, RKMaximumGateCount);
-- 
2.43.0


From 7fc1892da1b37977df351536b0d843f8e621d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:02 +0000
Subject: [PATCH 96/99] fix: folders that are not empty are never removed by
 the file manager

---
 source/RKFileManager.c | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 69fbdb8..854ec46 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -141,7 +141,6 @@ static bool isFolderEmpty(const char *path) {
 static void refreshFileList(RKFileRemover *me) {
     int i, j, k;
     struct stat fileStat;
-    char command[RKMaximumPathLength + 8];
     char string[RKMaximumStringLength];
     char format[32];
 
@@ -189,15 +188,10 @@ static void refreshFileList(RKFileRemover *me) {
             return;
         } else if (count == 0) {
             RKLog(">%s Removing %s ...\n", me->name, string);
-            i = snprintf(command, RKMaximumCommandLength, "rm -rf %s", string);
-            if (i < 0) {
-                RKLog("%s Error. Failed generating system command.\n", me->name);
-                RKLog("%s Error. path = %s.\n", me->name, string);
-                break;
-            }
-            i = system(command);
+            // Only an empty folder can be removed this way, whatever else is in there stays
+            i = rmdir(string);
             if (i) {
-                RKLog("Error. system(%s) -> %d   errno = %d\n", command, i, errno);
+                RKLog("Error. rmdir(%s) -> %d   errno = %d\n", string, i, errno);
             }
         } else if (count == me->capacity - me->count) {
             RKLog("%s Info. At capacity. Suggest keeping less data on main host.\n", me->name);
@@ -277,7 +271,6 @@ static void *fileRemover(void *in) {
     const int c = me->id;
 
     char path[RKMaximumPathLength + 256];
-    char command[RKMaximumPathLength];
     char parentFolder[RKFileManagerFilenameLength] = "";
     struct timeval time = {0, 0};
 
@@ -417,15 +410,10 @@ static void *fileRemover(void *in) {
                 sprintf(path, "%s/%s", me->path, parentFolder);
                 if (isFolderEmpty(path)) {
                     RKLog("%s Removing folder %s that is empty ...\n", me->name, path);
-                    k = snprintf(command, RKMaximumCommandLength, "rm -rf %s", path);
-                    if (k < 0) {
-                        RKLog("%s Error. Failed generating system command.\n", me->name);
-                        RKLog("%s Error. path = %s.\n", me->name, path);
-                        break;
-                    }
-                    k = system(command);
+                    // Only an empty folder can be removed this way, whatever else is in there stays
+                    k = rmdir(path);
                     if (k) {
-                        RKLog("Error. system(%s) -> %d   errno = %d\n", command, k, errno);
+                        RKLog("Error. rmdir(%s) -> %d   errno = %d\n", path, k, errno);
                     }
                 }
                 RKLog("%s New parentFolder = %s -> %s\n", me->name, parentFolder, folders[indexedStats[me->index].folderId]);
-- 
2.43.0


From 92f3a84e9d2513d3318221609de991ee3a75f93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:02 +0000
Subject: [PATCH 97/99] fix: kinds of data without a limit of their own share
 the default limit

---
 source/RKFileManager.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 854ec46..653c836 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -711,7 +711,7 @@ void RKFileManagerSetHealthDataLimit(RKFileManager *engine, const size_t limit)
 int RKFileManagerStart(RKFileManager *engine) {
     // File manager is always assumed wired, dataPath may be empty
     engine->state |= RKEngineStateProperlyWired;
-    if (engine->userRawDataUsageLimit == 0 && engine->userMomentDataUsageLimit == 0 && engine->userHealthDataUsageLimit == 0 &&
+    if ((engine->userRawDataUsageLimit == 0 || engine->userMomentDataUsageLimit == 0 || engine->userHealthDataUsageLimit == 0) &&
         engine->usagelimit == 0) {
         engine->usagelimit = RKFileManagerDefaultUsageLimit;
         RKLog("%s Usage limit not set, use default %s%s B%s (%s %s)\n",
-- 
2.43.0


From 3a4f2b8acd0c4e888a29f60e68e4643946be4945 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:20:25 +0000
Subject: [PATCH 98/99] fix: change a client's stream selections only under its
 lock

---
 source/RKCommandCenter.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index ef0e372..5c43b37 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -157,8 +157,10 @@ int socketCommandHandler(RKOperator *O) {
             // Process the command
             switch (commandString[0]) {
                 case '\15':
+                    pthread_mutex_lock(&user->mutex);
                     user->streams = RKStreamNull;
                     user->streamsInProgress = RKStreamNull;
+                    pthread_mutex_unlock(&user->mutex);
                     RKLog("%s %s Disconnected all streams\n", engine->name, O->name);
                     break;
 
@@ -183,7 +185,9 @@ int socketCommandHandler(RKOperator *O) {
                         sprintf(user->commandResponse, "ACK. Buffer overview in %s." RKEOL, user->textPreferences & RKTextPreferencesShowColor ? "Color" : "Gray");
                         RKOperatorSendCommandResponse(O, user->commandResponse);
                     }
+                    pthread_mutex_lock(&user->mutex);
                     user->streamsInProgress &= ~RKStreamStatusMask;
+                    pthread_mutex_unlock(&user->mutex);
                     break;
 
                 case 'd':
@@ -243,7 +247,9 @@ int socketCommandHandler(RKOperator *O) {
 
                 case 's':
                     // Stream varrious data
+                    pthread_mutex_lock(&user->mutex);
                     user->streamsToRestore = user->streamsInProgress;
+                    pthread_mutex_unlock(&user->mutex);
                     stream = RKStreamFromString(commandString + 1);
                     //RKLog("%s %s stream = %x / %x\n", engine->name, O->name, stream, RKStreamSweepQ);
                     if (stream & RKStreamStatusTerminalChange) {
@@ -353,7 +359,10 @@ int socketCommandHandler(RKOperator *O) {
 
                 case 's':
                     // Stream varrious data
-                    user->streams = RKStreamFromString(commandString + 1);
+                    stream = RKStreamFromString(commandString + 1);
+                    pthread_mutex_lock(&user->mutex);
+                    user->streams = stream;
+                    pthread_mutex_unlock(&user->mutex);
 
                     consolidateStreams(engine);
 
-- 
2.43.0


From 01c95901bb55f520c7141597db010178eb65b4af Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:20:25 +0000
Subject: [PATCH 99/99] fix: wrap the steering engine's position at the depth
 of the position buffer

---
 source/RKSteerEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index b28b16a..c622c07 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -369,7 +369,7 @@ static void *steerer(void *_in) {
         }
 
         // Update k to catch up for the next watch
-        k = RKNextModuloS(k, engine->radarDescription->pulseBufferDepth);
+        k = RKNextModuloS(k, engine->radarDescription->positionBufferDepth);
     }
 
     engine->state ^= RKEngineStateActive;
-- 
2.43.0

