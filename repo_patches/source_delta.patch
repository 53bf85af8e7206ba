From 34c24d4f0492d7cb4576b8ac6f731bbfec2c95bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:24 +0000
Subject: [PATCH 01/21] fix: release the buffer of a shmem message that is
 copied into after it was sent

---
 fairmq/shmem/Message.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 50b119f..7e9dc7c 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -266,6 +266,7 @@ class Message final : public fair::mq::Message
         // if the other message is not initialized, close this one too and return
         if (otherMsg.fHandle < 0) {
             CloseMessage();
+            fQueued = false;
             return;
         }
 
@@ -273,6 +274,8 @@ class Message final : public fair::mq::Message
         if (fHandle >= 0) {
             CloseMessage();
         }
+        // the copy owns its share of the buffer, even if this msg has been sent before
+        fQueued = false;
 
         // increment ref count
         if (otherMsg.fManaged) { // msg in managed segment
-- 
2.43.0


From cd4cda8f79d9caad0453e845419ebd94c268ca4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:24 +0000
Subject: [PATCH 02/21] fix: hand the user buffer back (deallocation callback)
 also for zero-sized shmem messages

---
 fairmq/shmem/Message.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 7e9dc7c..b1bcd10 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -68,11 +68,11 @@ class Message final : public fair::mq::Message
     {
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
-            if (ffn) {
-                ffn(data, hint);
-            } else {
-                free(data);
-            }
+        }
+        if (ffn) {
+            ffn(data, hint);
+        } else {
+            free(data);
         }
         fManager.IncrementMsgCounter();
     }
@@ -154,11 +154,11 @@ class Message final : public fair::mq::Message
 
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
-            if (ffn) {
-                ffn(data, hint);
-            } else {
-                free(data);
-            }
+        }
+        if (ffn) {
+            ffn(data, hint);
+        } else {
+            free(data);
         }
     }
 
-- 
2.43.0


From 288e610a960156735680904f18180cf25bbcf484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 03/21] fix: receiving into a used shmem message must not leak
 its buffer or keep its data pointer

---
 fairmq/shmem/Message.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index b1bcd10..a265a81 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -339,6 +339,11 @@ class Message final : public fair::mq::Message
 
     void SetMeta(const MetaHeader& meta)
     {
+        // release whatever this message has been holding so far
+        CloseMessage();
+        fQueued = false;
+        fRegionPtr = nullptr;
+
         fSize = meta.fSize;
         fHint = meta.fHint;
         fHandle = meta.fHandle;
-- 
2.43.0


From 5c304921e1574924874f9e6bbf81bbcac46397d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 04/21] fix: locate the shmem ref count of a copied region
 message in the segment it is allocated from

---
 fairmq/shmem/Message.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index a265a81..209d431 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -301,9 +301,9 @@ class Message final : public fair::mq::Message
                 if (otherMsg.fShared < 0) { // if UR msg is not yet shared
                     char* ptr = fManager.Allocate(2, 0);
                     // point the fShared in the unmanaged region message to the refCount holder
-                    otherMsg.fShared = fManager.GetHandleFromAddress(ptr, fSegmentId);
+                    otherMsg.fShared = fManager.GetHandleFromAddress(ptr, fManager.GetSegmentId());
                     // the message needs to be able to locate in which segment the refCount is stored
-                    otherMsg.fSegmentId = fSegmentId;
+                    otherMsg.fSegmentId = fManager.GetSegmentId();
                     ShmHeader::IncrementRefCount(ptr);
                 } else { // if the UR msg is already shared
                     fManager.GetSegment(otherMsg.fSegmentId);
-- 
2.43.0


From 65b08e544ec47204e34e590b9da692ae23ca53e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 05/21] fix: SetUsedSize on shared, region and received shmem
 messages

---
 fairmq/shmem/Message.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 209d431..446914d 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -196,6 +196,11 @@ class Message final : public fair::mq::Message
             Deallocate();
             return true;
         } else if (newSize <= fSize) {
+            // a region block or a buffer that is shared with other messages cannot be resized, only this view of it
+            if (!fManaged || GetRefCount() > 1) {
+                fSize = newSize;
+                return true;
+            }
             try {
                 char* oldPtr = fManager.GetAddressFromHandle(fHandle, fSegmentId);
                 try {
@@ -215,9 +220,10 @@ class Message final : public fair::mq::Message
                         }
                         char* ptr = fManager.Allocate(newSize, alignment.alignment);
                         char* userPtr = ShmHeader::UserPtr(ptr);
-                        std::memcpy(userPtr, fLocalPtr, newSize);
+                        std::memcpy(userPtr, ShmHeader::UserPtr(oldPtr), newSize);
                         fManager.Deallocate(fHandle, fSegmentId);
                         fLocalPtr = userPtr;
+                        fSegmentId = fManager.GetSegmentId();
                         fHandle = fManager.GetHandleFromAddress(ptr, fSegmentId);
                     }
                     fSize = newSize;
-- 
2.43.0


From 9076c3be730fd5571acbbfd4d053eadf10412a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 06/21] fix: a released shmem message must not keep the
 segment/region of its old buffer

Rebuilding a message that was received from another segment or that referred to an
unmanaged region resolved the new buffer in the old segment/region.
---
 fairmq/shmem/Message.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 446914d..89bb3ee 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -408,9 +408,15 @@ class Message final : public fair::mq::Message
                 }
             }
         }
+        // back to an empty message, nothing of the released buffer may apply to a buffer the message is given later
         fHandle = -1;
+        fShared = -1;
         fLocalPtr = nullptr;
+        fRegionPtr = nullptr;
         fSize = 0;
+        fRegionId = 0;
+        fSegmentId = fManager.GetSegmentId();
+        fManaged = true;
     }
 
     void ReleaseUnmanagedRegionBlock()
-- 
2.43.0


From 43a2092f2a97f0a8211063344bc776fda7908b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 07/21] fix: receiving an empty multi-part shmem message must
 not trip an assertion

---
 fairmq/shmem/Socket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/shmem/Socket.h b/fairmq/shmem/Socket.h
index 2daa6fd..2e2c57c 100644
--- a/fairmq/shmem/Socket.h
+++ b/fairmq/shmem/Socket.h
@@ -275,7 +275,7 @@ class Socket final : public fair::mq::Socket
             int nbytes = zmq_msg_recv(zmqMsg.Msg(), fSocket, flags);
             if (nbytes > 0) {
                 [[maybe_unused]] auto const size = zmqMsg.Size();
-                assert(size > sizeof(std::size_t));
+                assert(size >= sizeof(std::size_t));
                 auto meta_n = static_cast<std::size_t*>(zmqMsg.Data());
                 auto const n = *meta_n;
                 assert(size >= sizeof(std::size_t) + n * sizeof(MetaHeader));
-- 
2.43.0


From 0d271637cde28007b72746511bedde538542bd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 08/21] fix: report the actual size of zeromq multi-part
 messages with parts over 2 GiB

---
 fairmq/zeromq/Socket.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fairmq/zeromq/Socket.h b/fairmq/zeromq/Socket.h
index 345df77..49c650b 100644
--- a/fairmq/zeromq/Socket.h
+++ b/fairmq/zeromq/Socket.h
@@ -172,9 +172,11 @@ class Socket final : public fair::mq::Socket
                 bool repeat = false;
 
                 for (unsigned int i = 0; i < vecSize; ++i) {
+                    // libzmq caps the returned number of bytes at INT_MAX, take the actual size of the part
+                    int64_t actualBytes = zmq_msg_size(static_cast<Message*>(msgVec[i].get())->GetMessage());
                     int nbytes = zmq_msg_send(static_cast<Message*>(msgVec[i].get())->GetMessage(), fSocket, (i < vecSize - 1) ? ZMQ_SNDMORE | flags : flags);
                     if (nbytes >= 0) {
-                        totalSize += nbytes;
+                        totalSize += actualBytes;
                     } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                         if (fCtx.Interrupted()) {
                             return static_cast<int>(TransferCode::interrupted);
@@ -225,8 +227,8 @@ class Socket final : public fair::mq::Socket
                 int nbytes = zmq_msg_recv(static_cast<Message*>(part.get())->GetMessage(), fSocket, flags);
                 if (nbytes >= 0) {
                     static_cast<Message*>(part.get())->Realign();
+                    totalSize += zmq_msg_size(static_cast<Message*>(part.get())->GetMessage());
                     msgVec.push_back(std::move(part));
-                    totalSize += nbytes;
                 } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                     if (fCtx.Interrupted()) {
                         return static_cast<int>(TransferCode::interrupted);
-- 
2.43.0


From 4df5bb60cbe728e6aefe6bf19022c8bbacf14c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 09/21] fix: keep the requested alignment of a zeromq message
 after realigning it

---
 fairmq/zeromq/Message.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fairmq/zeromq/Message.h b/fairmq/zeromq/Message.h
index a00bfb0..4e6a632 100644
--- a/fairmq/zeromq/Message.h
+++ b/fairmq/zeromq/Message.h
@@ -245,8 +245,10 @@ class Message final : public fair::mq::Message
                 // create new aligned buffer
                 auto ptrs = AllocateAligned(size, fAlignment);
                 std::memcpy(ptrs.second, zmq_msg_data(fMsg.get()), size);
-                // rebuild the message with the new buffer
+                // rebuild the message with the new buffer, keeping the requested alignment for further transfers
+                size_t alignment = fAlignment;
                 Rebuild(ptrs.second, size, [](void* /* buf */, void* hint) { free(hint); }, ptrs.first);
+                fAlignment = alignment;
             }
         }
     }
-- 
2.43.0


From cf1fce125ccac24dd30df0f2360ccc47eef2d5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:39 +0000
Subject: [PATCH 10/21] fix: a region destroyed while region info is collected
 must not take down the subscriber

---
 fairmq/shmem/Manager.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index eaca8ef..2caab72 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -507,10 +507,18 @@ class Manager
                     if (it != fRegions.end()) {
                         region = it->second.get();
                     } else {
-                        auto r = fRegions.emplace(cfgIt->first, std::make_unique<UnmanagedRegion>(fShmId, 0, false, cfgIt->second));
-                        region = r.first->second.get();
-                        region->InitializeQueues();
-                        region->StartAckSender();
+                        try {
+                            auto r = fRegions.emplace(cfgIt->first, std::make_unique<UnmanagedRegion>(fShmId, 0, false, cfgIt->second));
+                            region = r.first->second.get();
+                            region->InitializeQueues();
+                            region->StartAckSender();
+                        } catch (const TransportError&) {
+                            // the region has been destroyed since shmLock was released
+                            info.event = RegionEvent::destroyed;
+                            info.ptr = nullptr;
+                            info.size = 0;
+                            continue;
+                        }
                     }
 
                     info.ptr = region->GetData();
-- 
2.43.0


From 14dfcc1351da5d01db99dfb11075288269423778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:48 +0000
Subject: [PATCH 11/21] fix: shmem monitor: compute heartbeat age with signed
 arithmetic

A heartbeat that arrives after Watch() has taken the current time made the
unsigned duration wrap around, and the live session was cleaned up. The same
holds for the self-destruct branch, whose 32-bit duration and doubled timeout
wrap around as well.
---
 fairmq/shmem/Monitor.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index b996caa..c29a5c0 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -138,9 +138,10 @@ void Monitor::Watch()
             fSeenOnce = true;
 
             auto now = chrono::high_resolution_clock::now();
-            unsigned int duration = chrono::duration_cast<chrono::milliseconds>(now - fLastHeartbeat.load()).count();
+            // signed: a heartbeat may arrive after 'now' has been taken
+            auto duration = chrono::duration_cast<chrono::milliseconds>(now - fLastHeartbeat.load()).count();
 
-            if (fHeartbeatTriggered && duration > fTimeoutInMS) {
+            if (fHeartbeatTriggered && duration > static_cast<int64_t>(fTimeoutInMS)) {
                 // memory is present, but no heartbeats since timeout duration
                 LOG(info) << "no heartbeats since over " << fTimeoutInMS << " milliseconds, cleaning...";
                 Cleanup(ShmId{fShmId});
@@ -161,9 +162,9 @@ void Monitor::Watch()
                 } else {
                     // if self-destruct is requested, and no segment has ever been observed, quit after double timeout duration
                     auto now = chrono::high_resolution_clock::now();
-                    unsigned int duration = chrono::duration_cast<chrono::milliseconds>(now - fLastHeartbeat.load()).count();
+                    auto duration = chrono::duration_cast<chrono::milliseconds>(now - fLastHeartbeat.load()).count();
 
-                    if (duration > fTimeoutInMS * 2) {
+                    if (duration > static_cast<int64_t>(fTimeoutInMS) * 2) {
                         Cleanup(ShmId{fShmId});
                         LOG(info) << "self destructing (no segments observed within (timeout * 2) since start)";
                         fTerminating = true;
-- 
2.43.0


From cd4b8b9124099c2c2c0a62d1db6a0fddf1790c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:17 +0000
Subject: [PATCH 12/21] fix: copying a message to itself must not destroy it

---
 fairmq/shmem/Message.h  | 4 ++++
 fairmq/zeromq/Message.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 89bb3ee..e2895c3 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -269,6 +269,10 @@ class Message final : public fair::mq::Message
     void Copy(const fair::mq::Message& other) override
     {
         const Message& otherMsg = static_cast<const Message&>(other);
+        // closing the target first would destroy the source
+        if (&otherMsg == this) {
+            return;
+        }
         // if the other message is not initialized, close this one too and return
         if (otherMsg.fHandle < 0) {
             CloseMessage();
diff --git a/fairmq/zeromq/Message.h b/fairmq/zeromq/Message.h
index 4e6a632..594f0c5 100644
--- a/fairmq/zeromq/Message.h
+++ b/fairmq/zeromq/Message.h
@@ -258,6 +258,10 @@ class Message final : public fair::mq::Message
     void Copy(const fair::mq::Message& msg) override
     {
         const Message& zMsg = static_cast<const Message&>(msg);
+        // zmq_msg_copy closes the target first, which would destroy the source
+        if (&zMsg == this) {
+            return;
+        }
         // Shares the message buffer between msg and this fMsg.
         if (zmq_msg_copy(fMsg.get(), zMsg.GetMessage()) != 0) {
             LOG(error) << "failed copying message, reason: " << zmq_strerror(errno);
-- 
2.43.0


From 14b8a05b0b7b0bfeb82630b727d4c63d2a99f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 13/21] fix: ChangeState must not report success in the error
 state

---
 fairmq/StateMachine.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 41d6c2d..5dbba9d 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -259,6 +259,8 @@ try {
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     lock_guard<mutex> lock(fsm->fStateMtx);
     if (!static_cast<bool>(fsm->fNewStatePending) || transition == Transition::ErrorFound) {
+        // after an error the machine ignores all events, do not report the result of an earlier transition
+        fsm->fLastTransitionResult = (transition == Transition::ErrorFound);
         switch (transition) {
             case Transition::Auto:
                 fsm->process_event(AUTO_E());
-- 
2.43.0


From 7930a9f62a11cce1489ce8b9659eb30998cc0e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:09 +0000
Subject: [PATCH 14/21] fix: a state queue change must wake every waiting
 thread

---
 fairmq/StateQueue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fairmq/StateQueue.h b/fairmq/StateQueue.h
index 1c1ad60..3bbf0b5 100644
--- a/fairmq/StateQueue.h
+++ b/fairmq/StateQueue.h
@@ -79,7 +79,7 @@ class StateQueue
             std::lock_guard<std::mutex> lock(fMtx);
             fStates.push(state);
         }
-        fCV.notify_one();
+        fCV.notify_all();
     }
 
     template<typename CustomSignal>
@@ -90,7 +90,7 @@ class StateQueue
             fStates.push(state);
             signal();
         }
-        fCV.notify_one();
+        fCV.notify_all();
     }
 
     template<typename CustomSignal>
@@ -100,7 +100,7 @@ class StateQueue
             std::lock_guard<std::mutex> lock(fMtx);
             signal();
         }
-        fCV.notify_one();
+        fCV.notify_all();
     }
 
     template<typename CustomSignal>
-- 
2.43.0


From 7035a9628ba75d16c9a9da330a5faa95604f1c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:09 +0000
Subject: [PATCH 15/21] fix: releasing device control must wake every thread
 waiting for it

---
 fairmq/PluginServices.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/PluginServices.cxx b/fairmq/PluginServices.cxx
index 44368c7..aa83e81 100644
--- a/fairmq/PluginServices.cxx
+++ b/fairmq/PluginServices.cxx
@@ -69,7 +69,7 @@ auto PluginServices::ReleaseDeviceControl(const string& controller) -> void
         }
     }
 
-    fReleaseDeviceControlCondition.notify_one();
+    fReleaseDeviceControlCondition.notify_all();
 }
 
 auto PluginServices::GetDeviceController() const -> boost::optional<string>
-- 
2.43.0


From eabb8f425df8d3b53a09d99efe45946440cb9df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:48 +0000
Subject: [PATCH 16/21] fix: resetting the device must forget channels that
 were not attached

RESET DEVICE from INITIALIZED or BOUND destroys the channels, but the lists
of channels still to be bound/connected kept pointing to them. The next
initialization attached the dangling channels (use after free).
---
 fairmq/Device.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index ac2cc95..f84f856 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -740,6 +740,9 @@ void Device::ResetWrapper()
 
     Reset();
 
+    // channels that were never attached are still listed here (e.g. when reset before binding)
+    fUninitializedBindingChannels.clear();
+    fUninitializedConnectingChannels.clear();
     GetChannels().clear();
     fTransportFactory.reset();
     if (!NewStatePending()) {
-- 
2.43.0


From dcc844cb443ef3a65793f84492da04b92b8a8e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:18 +0000
Subject: [PATCH 17/21] fix: a failing poll thread must bring the device to
 ERROR, not end the process

With inputs on more than one transport, each transport is polled in its own
thread. An exception in one of them (e.g. from a data callback) escaped the
thread and terminated the process. It is now passed on to the thread of the
RUNNING state, as with inputs on a single transport.
---
 fairmq/Device.cxx | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index f84f856..9b8e42e 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -17,6 +17,7 @@
 // std
 #include <algorithm>   // std::max, std::any_of
 #include <chrono>
+#include <exception>
 #include <iomanip>
 #include <list>
 #include <memory>   // std::make_unique
@@ -509,16 +510,31 @@ void Device::HandleMultipleChannelInput()
 void Device::HandleMultipleTransportInput()
 {
     vector<thread> threads;
+    exception_ptr error; // first failure of the threads, guarded by fMultitransportMutex
 
     fMultitransportProceed = true;
 
     for (const auto& i : fMultitransportInputs) {
-        threads.emplace_back(thread(&Device::PollForTransport, this, fTransports.at(i.first).get(), i.second));
+        threads.emplace_back([this, &error, factory = fTransports.at(i.first).get(), &keys = i.second]() {
+            try {
+                PollForTransport(factory, keys);
+            } catch (...) {
+                lock_guard<mutex> lock(fMultitransportMutex);
+                if (!error) {
+                    error = current_exception();
+                }
+                fMultitransportProceed = false;
+            }
+        });
     }
 
     for (thread& t : threads) {
         t.join();
     }
+
+    if (error) {
+        rethrow_exception(error);
+    }
 }
 
 void Device::PollForTransport(const TransportFactory* factory, const vector<string>& channelKeys)
-- 
2.43.0


From 40afd2bd919af525c716da42aaf2fefb8513e699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:00 +0000
Subject: [PATCH 18/21] fix: a STOP requested while Run() returns must not
 bring the device to ERROR

RunWrapper checks that no state is pending and then requests STOP itself. If
another thread requested STOP between the two steps, the second request was
refused and the device ended in ERROR with 'Invalid transition: STOP'.
---
 fairmq/Device.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 9b8e42e..832c4e6 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -423,7 +423,8 @@ void Device::RunWrapper()
     }
 
     // if Run() exited and the state is still RUNNING, transition to READY.
-    if (!NewStatePending()) {
+    // A transition requested by another thread in the meantime takes precedence.
+    if (!NewStatePending() && !ChangeState(Transition::Stop) && !NewStatePending()) {
         ChangeStateOrThrow(Transition::Stop);
     }
 
-- 
2.43.0


From b82889a3cf4c8198401fbfab949aa93229a4482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:58 +0000
Subject: [PATCH 19/21] fix: waiting for a device state must end when the
 device fails

An exception in a state handler brings the device to ERROR, but the state
queue of the device was only filled from the handler itself and never got
the error state: WaitForState/WaitForNextState blocked forever.
---
 fairmq/Device.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 832c4e6..a3bbc78 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -109,6 +109,9 @@ Device::Device(ProgOptions* config, tools::Version version)
 
         fStateQueue.Push(state);
 
+        // if a handler fails, the state machine goes to ERROR without calling this function again
+        tools::CallOnDestruction pushError([&]() { fStateQueue.Push(State::Error); });
+
         switch (state) {
             case State::InitializingDevice:
                 InitWrapper();
@@ -138,6 +141,8 @@ Device::Device(ProgOptions* config, tools::Version version)
                 LOG(trace) << "device notified on new state without a matching handler: " << state;
                 break;
         }
+
+        pushError.disable();
     });
 
     fStateMachine.Start();
-- 
2.43.0


From b3ba3b80cf89581727e2f3e8e11b7e9d167135bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:15 +0000
Subject: [PATCH 20/21] fix: a property change is announced with the value that
 was set

SetProperty and UpdateProperty read the property again to announce it as
text. If another thread deleted the property in between, they failed with
PropertyNotFoundError although the property was set; if it changed it, the
text announced differed from the value announced.
---
 fairmq/ProgOptions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fairmq/ProgOptions.h b/fairmq/ProgOptions.h
index f6eea35..b0a8a3e 100644
--- a/fairmq/ProgOptions.h
+++ b/fairmq/ProgOptions.h
@@ -145,7 +145,7 @@ class ProgOptions
             lock.unlock();
 
             fEvents.Emit<fair::mq::PropertyChange, typename std::decay<T>::type>(key, val);
-            fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, GetPropertyAsString(key));
+            fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, PropertyHelper::GetPropertyInfo(Property(typename std::decay<T>::type(val))).first);
             return true;
         } else {
             LOG(debug) << "UpdateProperty failed, no property found with key '" << key << "'";
@@ -275,7 +275,7 @@ void fair::mq::ProgOptions::SetProperty(const std::string& key, T val)
     lock.unlock();
 
     fEvents.Emit<fair::mq::PropertyChange, typename std::decay<T>::type>(key, val);
-    fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, GetPropertyAsString(key));
+    fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, PropertyHelper::GetPropertyInfo(Property(typename std::decay<T>::type(val))).first);
 }
 
 extern template void fair::mq::ProgOptions::SetProperty<int>(const std::string& key, int val);
-- 
2.43.0


From 647fac1ece9c9fe36a543c791faf93f7475aeb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:15 +0000
Subject: [PATCH 21/21] fix: a channel added to the configuration keeps its
 timeouts

AddChannel did not store the send and receive timeouts, so the device created
the channel with the default (wait forever).
---
 fairmq/ProgOptions.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/ProgOptions.cxx b/fairmq/ProgOptions.cxx
index ba13a8c..a420d68 100644
--- a/fairmq/ProgOptions.cxx
+++ b/fairmq/ProgOptions.cxx
@@ -369,6 +369,8 @@ void ProgOptions::AddChannel(const string& name, const Channel& channel)
     SetVarMapValue<int>(string(prefix + "rcvBufSize"), channel.GetRcvBufSize());
     SetVarMapValue<int>(string(prefix + "sndKernelSize"), channel.GetSndKernelSize());
     SetVarMapValue<int>(string(prefix + "rcvKernelSize"), channel.GetRcvKernelSize());
+    SetVarMapValue<int>(string(prefix + "sndTimeoutMs"), channel.GetSndTimeout());
+    SetVarMapValue<int>(string(prefix + "rcvTimeoutMs"), channel.GetRcvTimeout());
     SetVarMapValue<int>(string(prefix + "linger"), channel.GetLinger());
     SetVarMapValue<int>(string(prefix + "rateLogging"), channel.GetRateLogging());
     SetVarMapValue<int>(string(prefix + "portRangeMin"), channel.GetPortRangeMin());
-- 
2.43.0

