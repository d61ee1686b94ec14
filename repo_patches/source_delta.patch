From 365d7f216bb7d9ce639f2ff647f5f6cd973ccfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:11 +0000
Subject: [PATCH 001/160] fix: InterleavedAudioFrame::fillWithValue wrote past
 its buffer

bufferMaxLen already covers every channel; multiplying it by the channel
count made memset overrun the buffer for stereo frames.
---
 src/AudioFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioFrame.cpp b/src/AudioFrame.cpp
index 006f687..481308d 100644
--- a/src/AudioFrame.cpp
+++ b/src/AudioFrame.cpp
@@ -78,7 +78,7 @@ InterleavedAudioFrame::~InterleavedAudioFrame()
 
 void InterleavedAudioFrame::fillWithValue(int value)
 {
-    memset(frameBuff, value, bufferMaxLen*channels);
+    memset(frameBuff, value, bufferMaxLen);
 }    
 
 
-- 
2.43.0


From f7081d28be50ae5926c37e5888ae30bd81e84e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:19 +0000
Subject: [PATCH 002/160] fix: Reader::removeFrame crashed when no frame was
 being held

---
 src/IOInterface.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 4481d84..5b95cfb 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -123,9 +123,11 @@ int Reader::removeFrame(int fId)
 {
     std::lock_guard<std::mutex> guard(lck);
     
-    if (filters.count(fId) > 0){
-        filters[fId].second = false;
+    if (!frame || filters.count(fId) == 0){
+        return -1;
     }
+
+    filters[fId].second = false;
     
     if (allRead()){
         measureDelay();
-- 
2.43.0


From 7fe4fdf5086a59855fbfe8e395731490db2215b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:05 +0000
Subject: [PATCH 003/160] fix: frame queues were shared between threads without
 synchronisation

A forced write racing with a removal could drop the frame being read or
corrupt the element count, and changing the reader list raced with commits.
---
 src/AVFramedQueue.cpp         |  8 ++++++++
 src/FrameQueue.hh             | 16 +++++++++++++---
 src/SlicedVideoFrameQueue.cpp |  2 ++
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/AVFramedQueue.cpp b/src/AVFramedQueue.cpp
index 7de8744..5bda7c7 100644
--- a/src/AVFramedQueue.cpp
+++ b/src/AVFramedQueue.cpp
@@ -46,6 +46,7 @@ AVFramedQueue::~AVFramedQueue()
 
 Frame* AVFramedQueue::getRear() 
 {
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     if ((rear + 1) % max == front){
         return NULL;
     }
@@ -55,6 +56,7 @@ Frame* AVFramedQueue::getRear()
 
 Frame* AVFramedQueue::getFront() 
 {
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     if(rear == front) {
         return NULL;
     }
@@ -64,6 +66,7 @@ Frame* AVFramedQueue::getFront()
 
 std::vector<int> AVFramedQueue::addFrame() 
 {
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     std::vector<int> ret;
     
     for (auto& r : connectionData.readers){
@@ -80,6 +83,7 @@ std::vector<int> AVFramedQueue::addFrame()
 
 int AVFramedQueue::removeFrame() 
 {
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     if (rear == front){
         return -1;
     }
@@ -94,6 +98,7 @@ void AVFramedQueue::doFlush()
 
 Frame* AVFramedQueue::forceGetRear()
 {
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     Frame *frame;
     while ((frame = getRear()) == NULL) {
         utils::warningMsg("Frame discarted by AVFramedQueue");
@@ -104,16 +109,19 @@ Frame* AVFramedQueue::forceGetRear()
 
 Frame* AVFramedQueue::forceGetFront()
 {
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     return frames[(front + (max - 1)) % max]; 
 }
 
 unsigned AVFramedQueue::getElements() const
 {
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     return front > rear ? (max - front + rear) : (rear - front);
 }
 
 bool AVFramedQueue::isFull() const
 {
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     return ((float) getElements())/max >= FULL_THRESHOLD;
 }
 
diff --git a/src/FrameQueue.hh b/src/FrameQueue.hh
index 3bce029..d5db7a7 100644
--- a/src/FrameQueue.hh
+++ b/src/FrameQueue.hh
@@ -29,8 +29,10 @@
 #endif
 
 #include <sys/time.h>
+#include <atomic>
 #include <chrono>
 #include <list>
+#include <mutex>
 #include <vector>
 #include "Types.hh"
 #include "StreamInfo.hh"
@@ -113,6 +115,7 @@ public:
     */
     void flush() 
     { 
+        std::lock_guard<std::recursive_mutex> guard(mtx);
         lostBlocs++;
         doFlush();
     };
@@ -167,7 +170,10 @@ public:
     * Gets the connection cData.
     * @return the struct that contains the connection data.
     */
-    ConnectionData getCData() const {return connectionData;};
+    ConnectionData getCData() const {
+        std::lock_guard<std::recursive_mutex> guard(mtx);
+        return connectionData;
+    };
     
     /**
     * Adds reader to the CData
@@ -176,6 +182,7 @@ public:
     * @return true if the addition succeeded
     */
     bool addReaderCData(int rFilterId, int readerId) {
+        std::lock_guard<std::recursive_mutex> guard(mtx);
         for(auto r : connectionData.readers){
             if (r.rFilterId == rFilterId){
                 return false;
@@ -198,6 +205,7 @@ public:
     * @return true if the removal succeeded
     */
     bool removeReaderCData(int fId) {            
+        std::lock_guard<std::recursive_mutex> guard(mtx);
         std::list<ReaderData>::iterator i = connectionData.readers.begin();
         while (i != connectionData.readers.end())
         {
@@ -221,14 +229,16 @@ public:
 protected:
     size_t rear;
     size_t front;
-    bool connected;
+    std::atomic<bool> connected;
     bool firstFrame;
-    size_t lostBlocs;
+    std::atomic<size_t> lostBlocs;
 
     ConnectionData connectionData;
 
     const StreamInfo *streamInfo;
 
+    //!< writer, readers and control threads use the queue at the same time
+    mutable std::recursive_mutex mtx;
 };
 
 #endif
diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index 93cc8ad..1014cd2 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -57,6 +57,7 @@ SlicedVideoFrameQueue::~SlicedVideoFrameQueue()
 
 Frame* SlicedVideoFrameQueue::getRear()
 {
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     if ((rear + 1) % max == front){
         return NULL;
     }
@@ -66,6 +67,7 @@ Frame* SlicedVideoFrameQueue::getRear()
 
 std::vector<int> SlicedVideoFrameQueue::addFrame()
 {
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     pushBackSliceGroup(inputFrame->getSlices(), inputFrame->getSliceNum());
     inputFrame->clear();
     
-- 
2.43.0


From 7971d3ac62be244c5b766af935d7608d038a512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 004/160] fix: a filter leaving a shared reader stalled the
 remaining ones

If every other filter had already released the current frame, nobody would
ever remove it from the queue.
---
 src/IOInterface.cpp | 9 +++++++++
 src/IOInterface.hh  | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 5b95cfb..148217b 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -129,6 +129,11 @@ int Reader::removeFrame(int fId)
 
     filters[fId].second = false;
     
+    return releaseFrame();
+}
+
+int Reader::releaseFrame()
+{
     if (allRead()){
         measureDelay();
         frame = NULL;
@@ -207,6 +212,10 @@ bool Reader::disconnect(int id)
     }
     
     if (filters.size() > 0){
+        //the departing filter might have been the last one holding the current frame
+        if (frame) {
+            releaseFrame();
+        }
         return true;
     }
     
diff --git a/src/IOInterface.hh b/src/IOInterface.hh
index 02d2a58..3600b4f 100644
--- a/src/IOInterface.hh
+++ b/src/IOInterface.hh
@@ -206,6 +206,7 @@ protected:
 
 private:
     bool disconnectQueue();
+    int releaseFrame();
     void measureDelay();
     bool allRead();
 
-- 
2.43.0


From 4c72f52d5f54033d7d0bb887b653401c4426a15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 005/160] fix: worker pool dequeued the first task instead of
 the one it runs

When the first queued task was still running, its queued re-run was lost and
the executed one stayed queued.
---
 src/WorkersPool.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index a0a069a..78aec47 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -39,9 +39,9 @@ void TaskQueue::pushBack(Runnable *run){
 }
 
 void TaskQueue::pop(){
-    if (!queue.empty()){
-        sQueue.erase(queue.front());
-        queue.pop_front();
+    if (iter != queue.end()){
+        sQueue.erase(*iter);
+        queue.erase(iter);
         resetIterator();
     }
 }
-- 
2.43.0


From 015b191c202bfc473bc4712c4c946ce47a3a605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 006/160] fix: a removed task stayed queued in the worker pool

It could be run or inspected after removeTask had returned, when its owner
had already destroyed it.
---
 src/Runnable.hh     |  3 ++-
 src/WorkersPool.cpp | 16 +++++++++++++++-
 src/WorkersPool.hh  |  2 ++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/Runnable.hh b/src/Runnable.hh
index 07c3393..61fb4cf 100644
--- a/src/Runnable.hh
+++ b/src/Runnable.hh
@@ -25,6 +25,7 @@
 #ifndef _RUNNABLE_HH
 #define _RUNNABLE_HH
 
+#include <atomic>
 #include <chrono>
 #include <functional>
 #include <vector>
@@ -120,7 +121,7 @@ private:
     
 protected:
     std::mutex mtx;
-    bool run;
+    std::atomic<bool> run;
 
 private:
     std::chrono::system_clock::time_point time;
diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index 78aec47..58986eb 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -46,6 +46,17 @@ void TaskQueue::pop(){
     }
 }
 
+void TaskQueue::remove(Runnable *run){
+    for (std::deque<Runnable*>::iterator it = queue.begin(); it != queue.end(); ++it){
+        if (*it == run){
+            sQueue.erase(run);
+            queue.erase(it);
+            break;
+        }
+    }
+    resetIterator();
+}
+
 void TaskQueue::resetIterator(){
     iter = queue.begin();
 }
@@ -118,12 +129,14 @@ WorkersPool::WorkersPool(size_t threads) : run(true)
                     enabledJobs = job->runProcessFrame();
                     
                     guard.lock();
-                    job->unsetRunning();
                     
                     if (job->pendingJobs()){
                         enabledJobs.push_back(job->getId());
                     }
                     
+                    //once unset, a removed job may be destroyed at any moment
+                    job->unsetRunning();
+                    
                     for(auto id : enabledJobs){
                         if (runnables.count(id) > 0){
                             queue.pushBack(runnables[id]);
@@ -182,6 +195,7 @@ bool WorkersPool::removeTask(const int id)
     if (runnables.count(id) > 0){
         Runnable *runnable = runnables[id];
         runnables.erase(id);
+        queue.remove(runnable);
         guard.unlock();
         qCheck.notify_one();
         while(runnable->isRunning()){
diff --git a/src/WorkersPool.hh b/src/WorkersPool.hh
index 62e9019..7c00136 100644
--- a/src/WorkersPool.hh
+++ b/src/WorkersPool.hh
@@ -42,6 +42,8 @@ public:
     
     void pop();
     
+    void remove(Runnable *run);
+    
     void resetIterator();
     
     void clear();
-- 
2.43.0


From 2e6d0ee079494ee41d74dce71f4e76103ebd2d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 007/160] fix: stopping the worker pool could miss workers
 about to wait

---
 src/WorkersPool.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index 58986eb..09c3e4b 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -162,7 +162,10 @@ WorkersPool::~WorkersPool()
 
 void WorkersPool::stop()
 {
-    run = false;
+    {
+        std::lock_guard<std::mutex> guard(mtx);
+        run = false;
+    }
     qCheck.notify_all();
     for (std::thread &worker : workers){
         if (worker.joinable()){
-- 
2.43.0


From 86634f43ba9bb3c59880b9c2b35b1fe9d99584b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 008/160] fix: connecting a filter to itself deadlocked

---
 src/Filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 47a93d2..c520fae 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -325,6 +325,11 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
     ConnectionData cData;
     ReaderData reader;
     
+    if (R == this){
+        utils::errorMsg("A filter cannot be connected to itself");
+        return false;
+    }
+    
     processEvent();
     R->processEvent();
 
-- 
2.43.0


From 5705d05a0ed05f3698b01cab4130ee83798231a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 009/160] fix: a refused connection left a null reader behind
 and leaked its queue

---
 src/Filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index c520fae..0c44d24 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -130,7 +130,7 @@ std::shared_ptr<Reader> BaseFilter::setReader(int readerID, FrameQueue* queue)
     std::shared_ptr<Reader> r (new Reader());
     
     if (!specificReaderConfig(readerID, queue)){
-        r.reset();
+        return NULL;
     }
     
     readers[readerID] = r;
@@ -359,6 +359,7 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
 
     if (!(r = R->setReader(readerID, queue))) {
         deleteWriter(writerID);
+        delete queue;
         utils::errorMsg("Could not create the reader or set the queue");
         return false;
     }
-- 
2.43.0


From ea822e9124cd8e29453d869869a2d4ed21f290ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 010/160] fix: sharing a reader ignored the reader limit and
 could share it twice

---
 src/Filter.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 0c44d24..93aacca 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -273,6 +273,21 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
+    for (auto it : shared->readers) {
+        if (it.second == readers[orgRId]){
+            utils::errorMsg("The shared filter is already sharing this reader!");
+            return false;
+        }
+    }
+    
+    //an unconnected reader might still be there
+    shared->deleteReader(sharedRId);
+    
+    if (shared->readers.size() >= shared->getMaxReaders()){
+        utils::errorMsg("The shared filter has no reader left!");
+        return false;
+    }
+    
     if (!shared->specificReaderConfig(sharedRId, readers[orgRId]->getQueue())){
         return false;
     }
-- 
2.43.0


From a9881954db5880cd49b6f16ac637ca89058fcd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 011/160] fix: a queue leaked when both of its ends
 disconnected at once

---
 src/FrameQueue.hh   |  6 ++++++
 src/IOInterface.cpp | 12 ++++--------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/FrameQueue.hh b/src/FrameQueue.hh
index d5db7a7..f7d696b 100644
--- a/src/FrameQueue.hh
+++ b/src/FrameQueue.hh
@@ -153,6 +153,12 @@ public:
     * @param boolean to set connected to true or false
     */
     void setConnected(bool conn) {connected = conn;};
+
+    /**
+    * Releases the queue from one of its ends
+    * @return true if the other end is still using it, false if the caller is the last one and must delete it
+    */
+    bool releaseConnection() {return connected.exchange(false);};
     
     /**
     * Get number of elements in the queue
diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 148217b..8acffcd 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -46,9 +46,7 @@ bool Reader::disconnectQueue()
         return false;
     }
 
-    if (queue->isConnected()) {
-        queue->setConnected(false);
-    } else {
+    if (!queue->releaseConnection()) {
         delete queue;
     }
     
@@ -297,13 +295,11 @@ bool Writer::disconnect() const
         return false;
     }
 
-    if (queue->isConnected()) {
-        queue->setConnected(false);
-        queue = NULL;
-    } else {
+    if (!queue->releaseConnection()) {
         delete queue;
-        queue = NULL;
     }
+
+    queue = NULL;
     return true;
 }
 
-- 
2.43.0


From 1020a9e1d289afb3db05a501057e0db06bee18b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:44 +0000
Subject: [PATCH 012/160] fix: reader state was inspected without its lock

A shared reader is disconnected by one filter while another one asks for its
state; an unconnected reader crashed getCurrentTime() and isFull().
---
 src/IOInterface.cpp | 14 ++++++++++++--
 src/IOInterface.hh  |  7 +++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 8acffcd..85568c1 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -183,7 +183,7 @@ size_t Reader::getLostBlocs()
 void Reader::setConnection(FrameQueue *queue)
 {
     std::lock_guard<std::mutex> guard(lck);
-    if (!queue || isConnected()){
+    if (!queue || (this->queue && this->queue->isConnected())){
         return;
     }
     
@@ -222,6 +222,8 @@ bool Reader::disconnect(int id)
 
 bool Reader::isConnected()
 {
+    std::lock_guard<std::mutex> guard(lck);
+
     if (!queue) {
         return false;
     }
@@ -242,12 +244,18 @@ size_t Reader::getQueueElements()
 
 std::chrono::microseconds Reader::getCurrentTime()
 {
+    std::lock_guard<std::mutex> guard(lck);
+
     if (frame){
         return frame->getFrameTime();
     }
     
     Frame *f;
     
+    if (!queue){
+        return NO_DTS;
+    }
+
     f = queue->getFront();
     if (f){
         return f->getFrameTime();
@@ -258,7 +266,9 @@ std::chrono::microseconds Reader::getCurrentTime()
 
 bool Reader::isFull() const
 {
-    return queue->isFull(); 
+    std::lock_guard<std::mutex> guard(lck);
+
+    return queue ? queue->isFull() : false; 
 }
 
 
diff --git a/src/IOInterface.hh b/src/IOInterface.hh
index 3600b4f..37b4148 100644
--- a/src/IOInterface.hh
+++ b/src/IOInterface.hh
@@ -153,7 +153,10 @@ public:
     * Get FrameQueue object pointer
     * @return FrameQueue object pointer
     */
-    FrameQueue* getQueue() const {return queue;};
+    FrameQueue* getQueue() const {
+        std::lock_guard<std::mutex> guard(lck);
+        return queue;
+    };
 
     /**
     * Updates connection data and if there isn't anyother filter liked with this 
@@ -217,7 +220,7 @@ private:
     std::map<int, std::pair<bool, bool>> filters;
     bool ready;
     
-    std::mutex lck;
+    mutable std::mutex lck;
 
     //Stats
     std::chrono::microseconds avgDelay;
-- 
2.43.0


From 2050180036e7915dd6074c3edc2c79d33097e487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:44 +0000
Subject: [PATCH 013/160] fix: filters sharing a reader raced on the consumed
 flag of its frame

---
 src/Frame.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Frame.hh b/src/Frame.hh
index 9779f31..3e64b19 100644
--- a/src/Frame.hh
+++ b/src/Frame.hh
@@ -25,6 +25,7 @@
 #define _FRAME_HH
 
 #include <sys/time.h>
+#include <atomic>
 #include <chrono>
 #include "Types.hh"
 #include <iostream>
@@ -149,7 +150,7 @@ protected:
     std::chrono::microseconds decodeTime;
     std::chrono::system_clock::time_point originTime;
     size_t sequenceNumber;
-    bool consumed;
+    std::atomic<bool> consumed; //!< filters sharing a reader set it at the same time
 };
 
 #endif
-- 
2.43.0


From 6cc694f5ebfdaaee94f2a5e85b959dba32c1e33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:44 +0000
Subject: [PATCH 014/160] fix: connecting to or disconnecting from a running
 filter could crash it

A reader was visible to its filter before it had a queue, so it was deleted
or dereferenced half connected; a writer whose reader had just gone returned
a null frame that was dereferenced.
---
 src/Filter.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 93aacca..26fd9fa 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -133,6 +133,12 @@ std::shared_ptr<Reader> BaseFilter::setReader(int readerID, FrameQueue* queue)
         return NULL;
     }
     
+    //the filter might be running, it must not find a reader that is not connected yet
+    if (queue){
+        r->setConnection(queue);
+        queue->setConnected(true);
+    }
+    
     readers[readerID] = r;
 
     return r;
@@ -189,6 +195,12 @@ bool BaseFilter::demandDestinationFrames(std::map<int, Frame*> &dFrames)
         }
 
         Frame *f = it->second->getFrame(true);
+        if (!f){
+            //disconnected by the reader in the meantime
+            ++it;
+            continue;
+        }
+
         f->setConsumed(false);
         dFrames[it->first] = f;
         newFrame = true;
-- 
2.43.0


From ee855442c94463285ef24a7175082f0117b2e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:48 +0000
Subject: [PATCH 015/160] fix: control operations raced with the filter being
 processed

Disconnecting, connecting, sharing, configuring or inspecting a filter from
the control thread while a worker was processing it freed queues whose
frames were in use and changed the filter's state halfway.
---
 src/Filter.cpp | 31 ++++++++++++++++++++++++-------
 src/Filter.hh  |  3 +++
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 26fd9fa..b0243be 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -263,19 +263,23 @@ bool BaseFilter::pendingJobs()
 
 bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
 {
-    std::lock_guard<std::mutex> guard(mtx);  
+    std::shared_ptr<Reader> reader;
     
     if (getId() == shared->getId()){
         utils::errorMsg("Shared filter and base filter are the same!!");
         return false;
     }
     
-    if (!(readers.count(orgRId) > 0)) {
+    std::lock(processMtx, shared->processMtx);
+    std::lock_guard<std::recursive_mutex> processing(processMtx, std::adopt_lock);
+    std::lock_guard<std::recursive_mutex> sProcessing(shared->processMtx, std::adopt_lock);
+    
+    if (!(reader = getReader(orgRId))) {
         utils::errorMsg("The reader to share is not there");
         return false;
     }
     
-    if (!readers[orgRId]->isConnected()){
+    if (!reader->isConnected()){
         utils::errorMsg("The reader to share is not connected!");
         return false;
     }
@@ -285,8 +289,10 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
+    std::lock_guard<std::mutex> guard(shared->mtx);
+    
     for (auto it : shared->readers) {
-        if (it.second == readers[orgRId]){
+        if (it.second == reader){
             utils::errorMsg("The shared filter is already sharing this reader!");
             return false;
         }
@@ -300,12 +306,12 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
-    if (!shared->specificReaderConfig(sharedRId, readers[orgRId]->getQueue())){
+    if (!shared->specificReaderConfig(sharedRId, reader->getQueue())){
         return false;
     }
     
-    shared->readers[sharedRId] = readers[orgRId];
-    readers[orgRId]->addReader(shared->getId(), sharedRId);
+    reader->addReader(shared->getId(), sharedRId);
+    shared->readers[sharedRId] = reader;
     
     return true;
 }
@@ -357,6 +363,11 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
         return false;
     }
     
+    //neither end can be processing while its readers and writers are being configured
+    std::lock(processMtx, R->processMtx);
+    std::lock_guard<std::recursive_mutex> processing(processMtx, std::adopt_lock);
+    std::lock_guard<std::recursive_mutex> rProcessing(R->processMtx, std::adopt_lock);
+
     processEvent();
     R->processEvent();
 
@@ -422,6 +433,7 @@ bool BaseFilter::connectOneToMany(BaseFilter *R, int readerID)
 
 bool BaseFilter::disconnectWriter(int writerId)
 {    
+    std::lock_guard<std::recursive_mutex> processing(processMtx);
     std::lock_guard<std::mutex> guard(mtx);
     
     if (writers.count(writerId) <= 0) {
@@ -438,6 +450,7 @@ bool BaseFilter::disconnectWriter(int writerId)
 
 bool BaseFilter::disconnectReader(int readerId)
 {   
+    std::lock_guard<std::recursive_mutex> processing(processMtx);
     std::lock_guard<std::mutex> guard(mtx);
     
     if (readers.count(readerId) <= 0) {
@@ -501,6 +514,7 @@ void BaseFilter::pushEvent(Event e)
 
 void BaseFilter::getState(Jzon::Object &filterNode)
 {
+    std::lock_guard<std::recursive_mutex> processing(processMtx);
     std::lock_guard<std::mutex> guard(mtx);
     filterNode.Add("type", utils::getFilterTypeAsString(fType));
     filterNode.Add("role", utils::getRoleAsString(fRole));
@@ -509,6 +523,7 @@ void BaseFilter::getState(Jzon::Object &filterNode)
 
 std::vector<int> BaseFilter::processFrame(int& ret)
 {
+    std::lock_guard<std::recursive_mutex> processing(processMtx);
     std::vector<int> enabledJobs;
 
     switch(fRole) {
@@ -842,6 +857,7 @@ bool HeadFilter::runDoProcessFrame(std::map<int, Frame*> &oFrames,
 
 void HeadFilter::pushEvent(Event e)
 {
+    std::lock_guard<std::recursive_mutex> processing(processMtx);
     std::string action = e.getAction();
     Jzon::Node* params = e.getParams();
     Jzon::Object outputNode;
@@ -876,6 +892,7 @@ bool TailFilter::runDoProcessFrame(std::map<int, Frame*> &oFrames,
 
 void TailFilter::pushEvent(Event e)
 {
+    std::lock_guard<std::recursive_mutex> processing(processMtx);
     std::string action = e.getAction();
     Jzon::Node* params = e.getParams();
     Jzon::Object outputNode;
diff --git a/src/Filter.hh b/src/Filter.hh
index 6b0869c..07ff0a0 100644
--- a/src/Filter.hh
+++ b/src/Filter.hh
@@ -247,6 +247,9 @@ protected:
     std::chrono::microseconds frameTime;
     const std::chrono::microseconds syncMargin;
 
+    //!< held while processing, so that control operations do not change a filter under its feet
+    std::recursive_mutex processMtx;
+
 private:
     bool connect(BaseFilter *R, int writerID, int readerID);
     std::vector<int> regularProcessFrame(int& ret);
-- 
2.43.0


From 162bb2198fe7c1c66c97abb0bea4541a333f9981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:20 +0000
Subject: [PATCH 016/160] fix: a queue that takes no more frames did not report
 being full

---
 src/AVFramedQueue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AVFramedQueue.cpp b/src/AVFramedQueue.cpp
index 5bda7c7..6dff260 100644
--- a/src/AVFramedQueue.cpp
+++ b/src/AVFramedQueue.cpp
@@ -122,7 +122,7 @@ unsigned AVFramedQueue::getElements() const
 bool AVFramedQueue::isFull() const
 {
     std::lock_guard<std::recursive_mutex> guard(mtx);
-    return ((float) getElements())/max >= FULL_THRESHOLD;
+    return (rear + 1) % max == front || getElements() >= FULL_THRESHOLD*max;
 }
 
 ////////////////////////////////////////////
-- 
2.43.0


From 2de225e63cf57009bbdac936339931e3e59f4a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 017/160] fix: events leaked their parameters

---
 src/Event.cpp | 2 +-
 src/Event.hh  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Event.cpp b/src/Event.cpp
index 9ee2079..8cfd3e6 100644
--- a/src/Event.cpp
+++ b/src/Event.cpp
@@ -33,7 +33,7 @@ bool Event::operator<(const Event& e) const
 
 Event::Event(Jzon::Object rootNode, std::chrono::system_clock::time_point timestamp, int delay) 
 {
-    inputRootNode = new Jzon::Object(rootNode);
+    inputRootNode = std::make_shared<Jzon::Object>(rootNode);
     this->timestamp = timestamp;
     this->delay = std::chrono::milliseconds(delay);
 }
diff --git a/src/Event.hh b/src/Event.hh
index 3452df9..6d7ce3d 100644
--- a/src/Event.hh
+++ b/src/Event.hh
@@ -26,6 +26,7 @@
 
 #include <string>
 #include <chrono>
+#include <memory>
 #include "Jzon.h"
 
 class Event {
@@ -39,7 +40,7 @@ public:
     bool operator<(const Event& e) const;
 
 private:
-    Jzon::Object* inputRootNode;
+    std::shared_ptr<Jzon::Object> inputRootNode;
     std::chrono::system_clock::time_point timestamp;
     std::chrono::milliseconds delay;
 
-- 
2.43.0


From f5e02a515aa90e4cfe72636e151b94db93a3dab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:39 +0000
Subject: [PATCH 018/160] fix: an ill-typed event terminated the process

---
 src/Filter.cpp | 56 +++++++++++++++-----------------------------------
 src/Filter.hh  |  1 +
 2 files changed, 18 insertions(+), 39 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index b0243be..12bd141 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -467,28 +467,34 @@ bool BaseFilter::disconnectReader(int readerId)
 
 void BaseFilter::processEvent()
 {
-    std::string action;
-    Jzon::Node* params;
-
     std::lock_guard<std::mutex> guard(mtx);
 
     while(newEvent()) {
 
         Event e = eventQueue.top();
+        executeEvent(e);
+        eventQueue.pop();
+    }
+}
+
+void BaseFilter::executeEvent(Event e)
+{
+    std::string action;
+
+    //Jzon throws when a node is missing or it has an unexpected type
+    try {
         action = e.getAction();
-        params = e.getParams();
 
         if (action.empty() || eventMap.count(action) <= 0) {
             utils::errorMsg("Wrong action name while processing event in filter");
-            eventQueue.pop();
-            continue;
+            return;
         }
 
-        if (!eventMap[action](params)) {
+        if (!eventMap[action](e.getParams())) {
             utils::errorMsg("Error executing filter event");
         }
-        
-        eventQueue.pop();
+    } catch (std::logic_error &ex) {
+        utils::errorMsg("Wrong event " + action + ": " + ex.what());
     }
 }
 
@@ -858,21 +864,7 @@ bool HeadFilter::runDoProcessFrame(std::map<int, Frame*> &oFrames,
 void HeadFilter::pushEvent(Event e)
 {
     std::lock_guard<std::recursive_mutex> processing(processMtx);
-    std::string action = e.getAction();
-    Jzon::Node* params = e.getParams();
-    Jzon::Object outputNode;
-
-    if (action.empty()) {
-        return;
-    }
-
-    if (eventMap.count(action) <= 0) {
-        return;
-    }
-
-    if (!eventMap[action](params)) {
-        utils::errorMsg("Error executing filter event");
-    }
+    executeEvent(e);
 }
 
 TailFilter::TailFilter(unsigned readersNum, FilterRole fRole_, bool periodic) :
@@ -893,21 +885,7 @@ bool TailFilter::runDoProcessFrame(std::map<int, Frame*> &oFrames,
 void TailFilter::pushEvent(Event e)
 {
     std::lock_guard<std::recursive_mutex> processing(processMtx);
-    std::string action = e.getAction();
-    Jzon::Node* params = e.getParams();
-    Jzon::Object outputNode;
-
-    if (action.empty()) {
-        return;
-    }
-
-    if (eventMap.count(action) <= 0) {
-        return;
-    }
-
-    if (!eventMap[action](params)) {
-        utils::errorMsg("Error executing filter event");
-    }
+    executeEvent(e);
 }
 
 ManyToOneFilter::ManyToOneFilter(unsigned readersNum, FilterRole fRole_, bool periodic) :
diff --git a/src/Filter.hh b/src/Filter.hh
index 07ff0a0..3e0b207 100644
--- a/src/Filter.hh
+++ b/src/Filter.hh
@@ -223,6 +223,7 @@ protected:
 
     bool newEvent();
     void processEvent();
+    void executeEvent(Event e);
     virtual void doGetState(Jzon::Object &filterNode) = 0;
 
     std::map<std::string, std::function<bool(Jzon::Node* params)> > eventMap;
-- 
2.43.0


From 66245a3c43cb2ecd0d83d54071dfd5b9b5623369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 019/160] fix: the audio buffer leaked its silence frame

---
 src/AudioCircularBuffer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 5862326..6bdfa50 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -58,6 +58,7 @@ AudioCircularBuffer::~AudioCircularBuffer()
         
         delete inputFrame;
         delete outputFrame;
+        delete dummyFrame;
     }
 }
 
-- 
2.43.0


From acfbb9908265aefdb86f1d0a3eef018f2d17798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 020/160] fix: the audio buffer accepted more channels than it
 has room for and rates below 1 kHz

---
 src/AudioCircularBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 6bdfa50..303cbb9 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -180,7 +180,7 @@ Frame* AudioCircularBuffer::forceGetFront()
 
 bool AudioCircularBuffer::setup()
 {
-    if (channels <= 0 || sampleRate <= 0 || chMaxSamples <= 0) {
+    if (channels <= 0 || channels > MAX_CHANNELS || sampleRate < 1000 || chMaxSamples <= 0) {
         return false;
     }
 
-- 
2.43.0


From 460130d7bcf1b67f6cf42dc9194e692518ee06c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 021/160] fix: silence longer than 100 ms was read from beyond
 the silence frame

---
 src/AudioCircularBuffer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 303cbb9..f20a2c2 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -23,6 +23,7 @@
 #include "AudioCircularBuffer.hh"
 #include "Utils.hh"
 #include <cstring>
+#include <algorithm>
 #include <iostream>
 
 #define MAX_DEVIATION_SAMPLES 64
@@ -130,10 +131,16 @@ std::vector<int> AudioCircularBuffer::addFrame()
             return ret;
         }
 
-        if(!pushBack(dummyFrame->getPlanarDataBuf(), paddingSamples)) {
+        if (paddingSamples * bytesPerSample > channelMaxLength - elements) {
             utils::warningMsg("[AudioCircularBuffer] Cannot push padding");
             return ret;
         }
+
+        while (paddingSamples > 0) {
+            unsigned chunk = std::min(paddingSamples, (unsigned)dummyFrame->getMaxSamples());
+            pushBack(dummyFrame->getPlanarDataBuf(), chunk);
+            paddingSamples -= chunk;
+        }
     }
 
     if(!pushBack(inputFrame->getPlanarDataBuf(), inputFrame->getSamples())) {
-- 
2.43.0


From 53297352fcab0dee9a78c7febbbc6d1256c7c49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 022/160] fix: the audio buffer's timeline broke after 2^32
 samples

---
 src/AudioCircularBuffer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index f20a2c2..40bf110 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -71,7 +71,7 @@ Frame* AudioCircularBuffer::getRear()
 Frame* AudioCircularBuffer::getFront()
 {
     std::chrono::microseconds ts;
-    unsigned frontSampleIdx;
+    size_t frontSampleIdx;
 
     std::lock_guard<std::mutex> guard(mtx);
 
@@ -101,8 +101,8 @@ std::vector<int> AudioCircularBuffer::addFrame()
     std::chrono::microseconds rearTs;
     std::chrono::microseconds deviation;
     std::vector<int> ret;
-    unsigned paddingSamples;
-    unsigned rearSampleIdx;
+    int64_t paddingSamples;
+    size_t rearSampleIdx;
 
     inTs = inputFrame->getPresentationTime();
 
@@ -137,7 +137,7 @@ std::vector<int> AudioCircularBuffer::addFrame()
         }
 
         while (paddingSamples > 0) {
-            unsigned chunk = std::min(paddingSamples, (unsigned)dummyFrame->getMaxSamples());
+            unsigned chunk = std::min(paddingSamples, (int64_t)dummyFrame->getMaxSamples());
             pushBack(dummyFrame->getPlanarDataBuf(), chunk);
             paddingSamples -= chunk;
         }
-- 
2.43.0


From dda77979905c4400409b2e546bc24a1f8877f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 023/160] fix: asking for samples not there yet changed the
 time of the last frame read

---
 src/AudioCircularBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 40bf110..8bb2757 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -81,13 +81,13 @@ Frame* AudioCircularBuffer::getFront()
 
     frontSampleIdx = front/bytesPerSample;
     ts = std::chrono::microseconds(frontSampleIdx*std::micro::den/sampleRate) + syncTimestamp;
-    outputFrame->setPresentationTime(ts);
 
     if (!popFront(outputFrame->getPlanarDataBuf(), outputFrame->getSamples())) {
         utils::debugMsg("There is not enough data to fill a frame. Impossible to get new frame!");
         return NULL;
     }
 
+    outputFrame->setPresentationTime(ts);
     outputFrame->setOriginTime(orgTime - std::chrono::microseconds(elements*std::micro::den/(bytesPerSample*sampleRate)));
     
     fillNewFrame = false;
-- 
2.43.0


From 1ca7745867cbcbe46024e89a076122611d6dd04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 024/160] fix: the audio buffer accepted output frames it has
 no room for

---
 src/AudioCircularBuffer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 8bb2757..b4c3580 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -325,6 +325,11 @@ bool AudioCircularBuffer::forcePushBack(unsigned char **buffer, int samplesReque
 
 void AudioCircularBuffer::setOutputFrameSamples(int samples) 
 {
+    if (samples <= 0 || samples > (int)outputFrame->getMaxSamples()) {
+        utils::errorMsg("[AudioCircularBuffer] Invalid number of samples per frame");
+        return;
+    }
+
     outputFrame->setSamples(samples);
     outputFrame->setLength(samples*bytesPerSample);
 }
-- 
2.43.0


From 90543e25c3c46037b7bb94e71c818cabb601753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 025/160] fix: the audio buffer compared bytes to milliseconds
 to tell whether it is full

---
 src/AudioCircularBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index b4c3580..cd7db19 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -341,6 +341,6 @@ unsigned AudioCircularBuffer::getElements() const
 
 bool AudioCircularBuffer::isFull() const
 {
-    return ((float) elements)/chMaxSamples >= FULL_THRESHOLD;
+    return elements >= FULL_THRESHOLD*channelMaxLength;
 }
 
-- 
2.43.0


From 9ca8d678074a1321a44b735d82f8c259df32cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 026/160] fix: the audio buffer was written without holding its
 lock

---
 src/AudioCircularBuffer.cpp | 13 +++++++++----
 src/AudioCircularBuffer.hh  |  1 -
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index cd7db19..c15f947 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -73,7 +73,7 @@ Frame* AudioCircularBuffer::getFront()
     std::chrono::microseconds ts;
     size_t frontSampleIdx;
 
-    std::lock_guard<std::mutex> guard(mtx);
+    std::lock_guard<std::recursive_mutex> guard(mtx);
 
     if (!fillNewFrame) {
         return outputFrame;
@@ -104,6 +104,8 @@ std::vector<int> AudioCircularBuffer::addFrame()
     int64_t paddingSamples;
     size_t rearSampleIdx;
 
+    std::lock_guard<std::recursive_mutex> guard(mtx);
+
     inTs = inputFrame->getPresentationTime();
 
     if (!synchronized) {
@@ -148,8 +150,6 @@ std::vector<int> AudioCircularBuffer::addFrame()
         return ret;
     }
     
-    std::lock_guard<std::mutex> guard(mtx);
-    
     orgTime = inputFrame->getOriginTime();
     
     for (auto& r : connectionData.readers){
@@ -161,13 +161,14 @@ std::vector<int> AudioCircularBuffer::addFrame()
 
 int AudioCircularBuffer::removeFrame()
 {
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     fillNewFrame = true;
     return connectionData.wFilterId;
 }
 
 void AudioCircularBuffer::doFlush()
 {
-    std::lock_guard<std::mutex> guard(mtx);
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     rear = 0;
     front = 0;
     elements = 0;
@@ -301,6 +302,7 @@ void AudioCircularBuffer::fillOutputBuffers(unsigned char **buffer, int bytesReq
 
 int AudioCircularBuffer::getFreeSamples()
 {
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     int freeBytes = channelMaxLength - elements;
 
     if (freeBytes == 0) {
@@ -330,17 +332,20 @@ void AudioCircularBuffer::setOutputFrameSamples(int samples)
         return;
     }
 
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     outputFrame->setSamples(samples);
     outputFrame->setLength(samples*bytesPerSample);
 }
 
 unsigned AudioCircularBuffer::getElements() const
 {
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     return elements/(outputFrame->getSamples()*bytesPerSample);
 }
 
 bool AudioCircularBuffer::isFull() const
 {
+    std::lock_guard<std::recursive_mutex> guard(mtx);
     return elements >= FULL_THRESHOLD*channelMaxLength;
 }
 
diff --git a/src/AudioCircularBuffer.hh b/src/AudioCircularBuffer.hh
index b3194b5..ffb4df8 100644
--- a/src/AudioCircularBuffer.hh
+++ b/src/AudioCircularBuffer.hh
@@ -123,7 +123,6 @@ private:
     std::chrono::system_clock::time_point orgTime;
 
     int tsDeviationThreshold;
-    std::mutex mtx;
 
     unsigned elements;
 };
-- 
2.43.0


From 1fc92e569a2c6979b94b34c389b875b30681aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 027/160] fix: the default frame size overflowed for sample
 rates above 107 kHz

---
 src/AudioFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioFrame.cpp b/src/AudioFrame.cpp
index 481308d..98a9b4a 100644
--- a/src/AudioFrame.cpp
+++ b/src/AudioFrame.cpp
@@ -33,7 +33,7 @@ int AudioFrame::getMaxSamples(int sampleRate)
 
 int AudioFrame::getDefaultSamples(int sampleRate)
 {
-    return (DEFAULT_FRAME_TIME*sampleRate)/1000000;
+    return ((int64_t)DEFAULT_FRAME_TIME*sampleRate)/1000000;
 }
 
 
-- 
2.43.0


From b0f9948b8ee6f16def6c0f6a96d6b4758a3a7969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 028/160] fix: the audio mixer released its buffers with the
 wrong operator

---
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index c65267f..a727b22 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -52,7 +52,7 @@ syncTs(std::chrono::microseconds(-1))
 AudioMixer::~AudioMixer() 
 {
     for (int i = 0; i < MAX_CHANNELS; i++) {
-        delete mixBuffers[i];
+        delete[] mixBuffers[i];
     }
 }
 
-- 
2.43.0


From 2a41ce1de59420be6601d4cff0de576aa22646fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 029/160] fix: samples of the old timeline were mixed into the
 new one after a resync

---
 src/modules/audioMixer/AudioMixer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index a727b22..b23c37a 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -26,6 +26,7 @@
 #include "../../AudioCircularBuffer.hh"
 #include "../../Utils.hh"
 #include <iostream>
+#include <algorithm>
 #include <utility>
 #include <cmath>
 #include <string.h>
@@ -138,6 +139,10 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
         rear = 0;
         syncTs = frame->getPresentationTime();
         absolutePosition = front;
+
+        for (int i = 0; i < MAX_CHANNELS; i++) {
+            std::fill(mixBuffers[i], mixBuffers[i] + mixBufferMaxSamples, 0);
+        }
     }
 
     for (int i = 0; i < channels; i++) {
-- 
2.43.0


From e784877eea3ec737a9e82e53de400044e8462f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 030/160] fix: the audio mixer's timeline broke after 2^32
 samples

---
 src/modules/audioMixer/AudioMixer.cpp | 8 ++++----
 src/modules/audioMixer/AudioMixer.hh  | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index b23c37a..1f2aeef 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -107,7 +107,7 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     SampleFmt fmt;
     unsigned nOfSamples;
     int bytesPerSample;
-    unsigned absolutePosition;
+    int64_t absolutePosition;
     unsigned bufferIdx;
     unsigned freeSpaceInMixBuffer;
 
@@ -128,12 +128,12 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
 
     absolutePosition = (frame->getPresentationTime() - syncTs).count()*sampleRate/std::micro::den;
 
-    if (absolutePosition < front) {
+    if (absolutePosition >= 0 && absolutePosition < front) {
         utils::errorMsg("[AudioMixer] Samples from the past ignored");
         return false;
     }
 
-    if (absolutePosition > front + mixBufferMaxSamples - nOfSamples) {
+    if (absolutePosition < 0 || absolutePosition > front + mixBufferMaxSamples - nOfSamples) {
         utils::errorMsg("[AudioMixer] Received frame exceeds buffer scope. Resyncing!");
         front = 0;
         rear = 0;
@@ -183,7 +183,7 @@ void AudioMixer::mixSample(float sample, float* mixBuff, int bufferIdx, float ga
 
 bool AudioMixer::extractMixedFrame(AudioFrame* frame)
 {
-    unsigned mixedElements = rear - front;
+    int64_t mixedElements = rear - front;
     unsigned pos;
     unsigned char* b;
     float *mixB;
diff --git a/src/modules/audioMixer/AudioMixer.hh b/src/modules/audioMixer/AudioMixer.hh
index df43e82..7eb9652 100644
--- a/src/modules/audioMixer/AudioMixer.hh
+++ b/src/modules/audioMixer/AudioMixer.hh
@@ -145,8 +145,8 @@ private:
     int inputFrameSamples;
     SampleFmt sampleFormat;
     int maxMixingChannels;
-    unsigned front;
-    unsigned rear;
+    int64_t front;
+    int64_t rear;
 
     float masterGain;
     float th;  //Dynamic Range Compression algorithm threshold
-- 
2.43.0


From 39d4b99d4f5b118a15c313d0965c261d55edf7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 031/160] fix: the audio mixer accepted master gains out of
 range

---
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 1f2aeef..7c4b762 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -389,7 +389,7 @@ bool AudioMixer::changeMasterVolumeEvent(Jzon::Node* params)
     }
 
     gain = params->Get("gain").ToFloat();
-    masterGain = gain;
+    masterGain = gain > 1 ? 1 : gain < 0 ? 0 : gain;
 
     return true;
 }
-- 
2.43.0


From 59897de98bac7ef32274500409c0828a026275cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 032/160] fix: the audio mixer read beyond input in another
 format or with fewer channels

---
 src/modules/audioMixer/AudioMixer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 7c4b762..f77cedb 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -115,6 +115,11 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     fmt = frame->getSampleFmt();
     nOfSamples = frame->getSamples();
 
+    if (fmt != sampleFormat || (int)frame->getChannels() != channels || (int)frame->getSampleRate() != sampleRate) {
+        utils::errorMsg("[AudioMixer] Input does not match the mixing format, discarding frame from channel " + std::to_string(mixChId));
+        return false;
+    }
+
     freeSpaceInMixBuffer = mixBufferMaxSamples - (rear - front);
 
     if (freeSpaceInMixBuffer < nOfSamples) {
-- 
2.43.0


From 6047f5d103d27ef0d83ce147d3d2d19571961bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 033/160] fix: input was not mixed when another one was ahead
 of it

---
 src/modules/audioMixer/AudioMixer.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index f77cedb..c62dd7c 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -120,10 +120,8 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
         return false;
     }
 
-    freeSpaceInMixBuffer = mixBufferMaxSamples - (rear - front);
-
-    if (freeSpaceInMixBuffer < nOfSamples) {
-        utils::errorMsg("[AudioMixer] No free space in mixing buffer, discarding frame from channel " + std::to_string(mixChId));
+    if (nOfSamples > mixBufferMaxSamples) {
+        utils::errorMsg("[AudioMixer] Frame exceeds the mixing buffer, discarding frame from channel " + std::to_string(mixChId));
         return false;
     }
 
@@ -138,7 +136,15 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
         return false;
     }
 
+    freeSpaceInMixBuffer = mixBufferMaxSamples - (rear - front);
+
     if (absolutePosition < 0 || absolutePosition > front + mixBufferMaxSamples - nOfSamples) {
+
+        if (freeSpaceInMixBuffer < nOfSamples) {
+            utils::errorMsg("[AudioMixer] No free space in mixing buffer, discarding frame from channel " + std::to_string(mixChId));
+            return false;
+        }
+
         utils::errorMsg("[AudioMixer] Received frame exceeds buffer scope. Resyncing!");
         front = 0;
         rear = 0;
-- 
2.43.0


From 45722e80518b98c6289dc51cbd63387f60329f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 034/160] fix: full scale wrapped around when converted to 16
 bit samples

---
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index c62dd7c..237daaf 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -266,7 +266,7 @@ bool AudioMixer::floatToBytes(unsigned char* dst, float const origin, SampleFmt
 
     switch(fmt) {
         case S16P:
-            value = origin * 32768.0;
+            value = std::min(std::max(origin * 32768.0, -32768.0), 32767.0);
             *dst = value & 0xFF; 
             *(dst+1) = (value >> 8) & 0xFF;
             break;
-- 
2.43.0


From a608e979363d202e9b54efd066682c79f44bf54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:26 +0000
Subject: [PATCH 035/160] fix: a channel on the topmost layer was never drawn

---
 src/modules/videoMixer/VideoMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 22a45db..36beaa3 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -114,7 +114,7 @@ bool VideoMixer::doProcessFrame(std::map<int, Frame*> &orgFrames, Frame *dst, st
 
     layoutImg = cv::Scalar(0, 0, 0);
 
-    for (int lay=0; lay < maxChannels; lay++) {
+    for (int lay=0; lay <= maxChannels; lay++) {
 
         for (auto it : orgFrames) {
 
-- 
2.43.0


From 5e09cd39a3490545e749eecd1bfde5dd39ab885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:26 +0000
Subject: [PATCH 036/160] fix: video mixer channels beyond or smaller than the
 layout terminated the process

---
 src/modules/videoMixer/VideoMixer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 36beaa3..35856eb 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -165,7 +165,7 @@ bool VideoMixer::configChannel0(int id, float width, float height, float x, floa
         return false;
     }
 
-    if (x < 0 || y < 0 || width <= 0 || height <= 0 || opacity < 0 || opacity > 1.0) {
+    if (x < 0 || x > 1 || y < 0 || y > 1 || width <= 0 || width > 1 || height <= 0 || height > 1 || opacity < 0 || opacity > 1.0) {
         utils::errorMsg("[VideoMixer] Error configuring channel. Incoherent values");
         return false;
     }
@@ -216,6 +216,10 @@ void VideoMixer::pasteToLayout(int frameID, VideoFrame* vFrame)
     int x = chConfig->getX()*outputWidth;
     int y = chConfig->getY()*outputHeight;
 
+    if (sz.width <= 0 || sz.height <= 0 || x >= outputWidth || y >= outputHeight) {
+        return;
+    }
+
     if (vFrame->getHeight() != sz.height || vFrame->getWidth() != sz.width) {
         cv::Mat resized(sz, img.type());
         cv::resize(img, resized,sz);
-- 
2.43.0


From 81088ec81b059d94d4574efb5af91fa6e06b8599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:26 +0000
Subject: [PATCH 037/160] fix: the video mixer read beyond pictures in another
 pixel format and failed on empty ones

---
 src/modules/videoMixer/VideoMixer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 35856eb..5e00572 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -209,6 +209,13 @@ bool VideoMixer::configure0(int width, int height, int fps)
 void VideoMixer::pasteToLayout(int frameID, VideoFrame* vFrame)
 {
     ChannelConfig* chConfig = channelsConfig[frameID];
+
+    if (vFrame->getWidth() <= 0 || vFrame->getHeight() <= 0 ||
+            (size_t)vFrame->getWidth()*vFrame->getHeight()*3 > vFrame->getMaxLength()) {
+        utils::errorMsg("[VideoMixer] The picture is empty or does not have the mixing format");
+        return;
+    }
+
     cv::Mat img(vFrame->getHeight(), vFrame->getWidth(), CV_8UC3, vFrame->getDataBuf());
 
     cv::Size sz(chConfig->getWidth()*outputWidth, chConfig->getHeight()*outputHeight);
-- 
2.43.0


From eae675a117e7f5e0249fa400a191c1bab2789587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:26 +0000
Subject: [PATCH 038/160] fix: crops larger than any picture terminated the
 process

---
 src/modules/videoSplitter/VideoSplitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index 808311b..3cac816 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -142,7 +142,7 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 		widthROI = cropsConfig[it.first]->getWidth();
 		heightROI = cropsConfig[it.first]->getHeight();
 
-		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && xROI+widthROI <= vFrame->getWidth() && yROI+heightROI <= vFrame->getHeight()){
+		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && xROI <= vFrame->getWidth() - widthROI && yROI <= vFrame->getHeight() - heightROI){
 			vFrameDst = dynamic_cast<VideoFrame*>(it.second);
 			cropsConfig[it.first]->getCrop()->data = vFrameDst->getDataBuf();
 			vFrameDst->setLength(widthROI * heightROI);
@@ -191,7 +191,7 @@ bool VideoSplitter::configCrop0(int id, int width, int height, int x, int y, int
     }
 
 
-    if (x < 0 || y < 0 || width <= 0 || height <= 0 || degree > 360 || degree < (-360)) {
+    if (x < 0 || y < 0 || width <= 0 || width > DEFAULT_WIDTH || height <= 0 || height > DEFAULT_HEIGHT || degree > 360 || degree < (-360)) {
         utils::errorMsg("[VideoSplitter] Error configuring crop. Incoherent values");
         return false;
     }
-- 
2.43.0


From e198ced7d79fd4d2c1793a1405efbfca84493fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:26 +0000
Subject: [PATCH 039/160] fix: the video splitter read beyond pictures in
 another pixel format

---
 src/modules/videoSplitter/VideoSplitter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index 3cac816..e727786 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -134,6 +134,12 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 		return false;
 	}
 	
+	if (vFrame->getWidth() <= 0 || vFrame->getHeight() <= 0 ||
+			(size_t)vFrame->getWidth()*vFrame->getHeight()*3 > vFrame->getMaxLength()) {
+		utils::errorMsg("[VideoSplitter] The picture is empty or not an RGB one");
+		return false;
+	}
+
 	cv::Mat orgFrame(vFrame->getHeight(), vFrame->getWidth(), CV_8UC3, vFrame->getDataBuf());
 	
 	for (auto it : dstFrames){
-- 
2.43.0


From a3b274562a33c8c48e5659af688d7d7c8edb26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:26 +0000
Subject: [PATCH 040/160] fix: the resampler's output format was undefined
 until configured

---
 src/modules/videoResampler/VideoResampler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index e43f949..e1d6353 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -38,6 +38,9 @@ VideoResampler::VideoResampler() : OneToOneFilter()
 
     outputWidth = 0;
     outputHeight = 0;
+    inPixFmt = P_NONE;
+    outPixFmt = RGB24;
+    libavInPixFmt = AV_PIX_FMT_NONE;
     libavOutPixFmt = getLibavPixFmt(outPixFmt);
 
     needsConfig = false;
-- 
2.43.0


From 40907102525d7e749cfff0beb88842f644fd2736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:26 +0000
Subject: [PATCH 041/160] fix: the resampler leaked its scaling context on
 every change

---
 src/modules/videoResampler/VideoResampler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index e1d6353..799ee1e 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -93,6 +93,7 @@ bool VideoResampler::reconfigure(VideoFrame* orgFrame)
             outHeight = outputHeight;
         }
         
+        sws_freeContext(imgConvertCtx);
         imgConvertCtx = sws_getContext(orgFrame->getWidth(), orgFrame->getHeight(), 
                                        libavInPixFmt, outWidth, outHeight,
                                        libavOutPixFmt, SWS_FAST_BILINEAR, 0, 0, 0);
-- 
2.43.0


From 68283f742af7411eb93214bd3a699883d1f98e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:26 +0000
Subject: [PATCH 042/160] fix: the resampler applied configurations it refuses

---
 src/modules/videoResampler/VideoResampler.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index 799ee1e..f347357 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -164,6 +164,12 @@ bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
 
 bool VideoResampler::configure0(int width, int height, int fps, PixType pixelFormat) 
 {
+    if (width < 0 || width > DEFAULT_WIDTH || height < 0 || height > DEFAULT_HEIGHT || 
+        getLibavPixFmt(pixelFormat) == AV_PIX_FMT_NONE) {
+        utils::errorMsg("[Resampler] Not valid configuration");
+        return false;
+    }
+
     outputWidth = width;
     outputHeight = height;
     outPixFmt = pixelFormat;
@@ -177,10 +183,6 @@ bool VideoResampler::configure0(int width, int height, int fps, PixType pixelFor
         setFrameTime(std::chrono::microseconds(std::micro::den/fps));
     }
     
-    if (libavOutPixFmt == AV_PIX_FMT_NONE){
-        return false;
-    }
-    
     return true;
 }
 
-- 
2.43.0


From 47e3cad2e2401f41d05e37326cdbfca4978369da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:26 +0000
Subject: [PATCH 043/160] fix: the resampler wrote and read beyond pictures
 larger than their buffers

---
 src/modules/videoResampler/VideoResampler.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index f347357..83a9420 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -116,6 +116,11 @@ bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
     VideoFrame* dstFrame = dynamic_cast<VideoFrame*>(dst);
     VideoFrame* orgFrame = dynamic_cast<VideoFrame*>(org);
 
+    if (!dstFrame || !orgFrame) {
+        utils::errorMsg("[Resampler] Frames must be VideoFrames");
+        return false;
+    }
+
     if (!reconfigure(orgFrame)){
         return false;
     }
@@ -273,7 +278,8 @@ bool VideoResampler::setAVFrame(AVFrame *aFrame, VideoFrame* vFrame, AVPixelForm
 {      
     if (av_image_fill_arrays(aFrame->data, aFrame->linesize, vFrame->getDataBuf(), 
             format, vFrame->getWidth(), 
-            vFrame->getHeight(), 1) <= 0){
+            vFrame->getHeight(), 1) <= 0 ||
+            av_image_get_buffer_size(format, vFrame->getWidth(), vFrame->getHeight(), 1) > (int)vFrame->getMaxLength()){
         utils::errorMsg("Could not feed AVFrame");
         return false;
     }
-- 
2.43.0


From be45f955ec00bb91aa244afe2b06a150534745b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 044/160] fix: reconfiguring a crop wrote into the frame it had
 been published in

---
 src/modules/videoSplitter/VideoSplitter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index e727786..ef93665 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -41,9 +41,9 @@ void CropConfig::config(int width, int height, int x, int y, int degree)
     this->x = x;
     this->y = y;
     this->degree = degree;
-    cv::Mat img(height, width, CV_8UC3);
-    img.copyTo(this->crop);
-
+    //NOTE: crop's data may point to the last frame it was written to
+    this->crop.release();
+    this->crop.create(height, width, CV_8UC3);
 }
 
 ///////////////////////////////////////////////////
-- 
2.43.0


From 8cded0685c0cdc083f2e17c27de8c77d0158fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 045/160] fix: a slice larger than the queue's frames was
 written past their buffers

---
 src/SlicedVideoFrameQueue.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index 1014cd2..1734521 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -135,6 +135,12 @@ void SlicedVideoFrameQueue::pushBackSliceGroup(Slice* slices, int sliceNum)
 
     for (int i=0; i<sliceNum; i++) {
 
+        if (slices[i].getDataSize() > frames[rear]->getMaxLength()) {
+            utils::errorMsg("[SlicedVideoFrameQueue] Slice discarded, it is bigger than the queue frames");
+            lostBlocs++;
+            continue;
+        }
+
         if ((frame = innerGetRear()) == NULL){
             frame = innerForceGetRear();
         }
-- 
2.43.0


From 8152dde70c79af6d0fd7ae018f0d99ed37e766da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 046/160] fix: slices of a picture that was not committed came
 out with the next one

---
 src/SlicedVideoFrameQueue.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index 1734521..a7ef7b2 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -62,6 +62,7 @@ Frame* SlicedVideoFrameQueue::getRear()
         return NULL;
     }
 
+    inputFrame->clear();
     return inputFrame;
 }
 
@@ -82,6 +83,8 @@ std::vector<int> SlicedVideoFrameQueue::addFrame()
 
 Frame* SlicedVideoFrameQueue::forceGetRear()
 {
+    std::lock_guard<std::recursive_mutex> guard(mtx);
+    inputFrame->clear();
     return inputFrame;
 }
 
-- 
2.43.0


From e4c3eb32c1e8df0c872e3f6d6ed93c1e43326345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:00 +0000
Subject: [PATCH 047/160] fix: the encoders took negative configuration values
 for huge ones

---
 .../videoEncoder/VideoEncoderX264or5.cpp      | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 67985a4..2ad29d4 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -169,13 +169,13 @@ bool VideoEncoderX264or5::configure0(unsigned bitrate_, unsigned fps_, unsigned
 
 bool VideoEncoderX264or5::configEvent(Jzon::Node* params)
 {
-    unsigned tmpBitrate;
-    unsigned tmpFps;
-    unsigned tmpGop;
-    unsigned tmpGopTime;
-    unsigned tmpLookahead;
-    unsigned tmpThreads;
-    unsigned tmpBFrames;
+    int tmpBitrate;
+    int tmpFps;
+    int tmpGop;
+    int tmpGopTime;
+    int tmpLookahead;
+    int tmpThreads;
+    int tmpBFrames;
     bool tmpAnnexB;
     std::string tmpPreset;
 
@@ -229,6 +229,11 @@ bool VideoEncoderX264or5::configEvent(Jzon::Node* params)
         tmpGopTime = params->Get("gopTime").ToInt();
     }
 
+    if (tmpBitrate < 0 || tmpFps < 0 || tmpGop < 0 || tmpGopTime < 0 || tmpLookahead < 0 || tmpThreads < 0) {
+        utils::errorMsg("Error configuring VideoEncoderX264or5: negative configuration values");
+        return false;
+    }
+
     return configure0(tmpBitrate, tmpFps, tmpGop, tmpLookahead, tmpBFrames,
                       tmpThreads, tmpAnnexB, tmpPreset, tmpGopTime);
 }
-- 
2.43.0


From dfc1f3a81e9ac9deddad936b432659b3e12859d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:21 +0000
Subject: [PATCH 048/160] fix: the H.264 encoder could not encode the 4:2:2 and
 4:4:4 pictures it accepts

---
 src/modules/videoEncoder/VideoEncoderX264.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index cae7b1b..d1d07bd 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -158,7 +158,9 @@ bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
 
     picIn.img.i_csp = colorspace;
     x264_param_default_preset(&xparams, preset.c_str(), NULL);
-    x264_param_apply_profile(&xparams, "high");
+    xparams.i_csp = colorspace;
+    x264_param_apply_profile(&xparams, colorspace == X264_CSP_I444 ? "high444" : 
+                             colorspace == X264_CSP_I422 ? "high422" : "high");
 
     x264_param_parse(&xparams, "keyint", std::to_string(gop).c_str());
     x264_param_parse(&xparams, "fps", std::to_string(fps).c_str());
-- 
2.43.0


From eafe97258c4e6607013b8779f5015ad46d25b560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:21 +0000
Subject: [PATCH 049/160] fix: the H.265 encoder read 4:4:4 pictures as 4:2:0

---
 src/modules/videoEncoder/VideoEncoderX265.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index 6d88508..5a818ed 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -162,10 +162,10 @@ bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
             break;
     }
 
-    picIn->colorSpace = colorspace;
     x265_param_default_preset(xparams, preset.c_str(), NULL);
+    xparams->internalCsp = colorspace;
     /*TODO check with NULL profile*/
-    x265_param_apply_profile(xparams, "main");
+    x265_param_apply_profile(xparams, colorspace == X265_CSP_I444 ? "main444-8" : "main");
 
     x265_param_parse(xparams, "keyint", std::to_string(gop).c_str());
     x265_param_parse(xparams, "fps", std::to_string(fps).c_str());
-- 
2.43.0


From b2808e7263a16e3e9f7e9ece715bfd13f060bd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:20 +0000
Subject: [PATCH 050/160] fix: the first pictures of a stream with B frames had
 decode time 0

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 2ad29d4..a354090 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -100,11 +100,19 @@ bool VideoEncoderX264or5::doProcessFrame(Frame *org, Frame *dst)
     
     dst->setConsumed(true);
     dst->setPresentationTime(qFTP[outPts].pTime);
-    dst->setDecodeTime(qFTP[dts].pTime);
+
+    if (qFTP.count(dts) > 0) {
+        dst->setDecodeTime(qFTP[dts].pTime);
+    } else {
+        //decoding starts before the first presentation time when there are B frames
+        std::chrono::microseconds lead((qFTP.begin()->first - dts)*std::micro::den/fps);
+        dst->setDecodeTime(std::max(qFTP.begin()->second.pTime - lead, std::chrono::microseconds(0)));
+    }
+
     dst->setOriginTime(qFTP[outPts].oTime);
     dst->setSequenceNumber(qFTP[outPts].seqNum);
     
-    qFTP.erase(dts);
+    qFTP.erase(qFTP.begin(), qFTP.upper_bound(dts));
     
     return true;
 }
-- 
2.43.0


From 2fc81557d9b8e2d92e5856d6d7c4c87618ac7d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:40 +0000
Subject: [PATCH 051/160] fix: a malformed GOP reference time terminated the
 process

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index a354090..0828b6f 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -254,8 +254,12 @@ bool VideoEncoderX264or5::forceIntraEvent(Jzon::Node*)
 
 bool VideoEncoderX264or5::setGopReferenceTimeEvent(Jzon::Node* params)
 {
-    if (params->Has("referenceTime") && params->Get("referenceTime").IsString()) {
+    if (params && params->Has("referenceTime") && params->Get("referenceTime").IsString()) {
         std::string refTime_str = params->Get("referenceTime").ToString();
+        if (refTime_str.empty() || refTime_str.size() > 18 || 
+            refTime_str.find_first_not_of("0123456789") != std::string::npos) {
+            return false;
+        }
         refTime = std::chrono::microseconds(std::stoull(refTime_str));
         return true;
     }
-- 
2.43.0


From 131dde107880fe33dd514014a38c36ed9c37081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:23 +0000
Subject: [PATCH 052/160] fix: the shared access unit was published with the
 header of the next one

---
 src/modules/sharedMemory/SharedMemory.cpp | 30 +++++++++++------------
 src/modules/sharedMemory/SharedMemory.hh  |  3 ++-
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index c04eb39..36849bf 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -52,7 +52,7 @@ SharedMemory* SharedMemory::createNew(VCodecType codec)
 }
 
 SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
-    OneToOneFilter(), enabled(true), newFrame(false), codec(codec_)
+    OneToOneFilter(), enabled(true), newFrame(false), frameInfo(InterleavedVideoFrame::createNew(codec_, 0)), codec(codec_)
 {
 
     if(!(codec == RAW || codec == H264)){
@@ -102,6 +102,8 @@ SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
 
 SharedMemory::~SharedMemory()
 {
+    delete frameInfo;
+
     if(shmctl (sharedMemoryId , IPC_RMID , 0) != 0){
         utils::errorMsg("SharedMemory::shmctl error - Could not set IPC_RMID flag to shared memory segment ID");
     }
@@ -129,7 +131,6 @@ bool SharedMemory::doProcessFrame(Frame *org, Frame *dst)
     switch(vframe->getCodec()){
         case H264:
             if(vframe->getSequenceNumber() != seqNum && newFrame){
-                writeFramePayload(vframe);
                 writeSharedMemoryH264();
                 seqNum = vframe->getSequenceNumber();
                 frameData.clear();
@@ -137,7 +138,7 @@ bool SharedMemory::doProcessFrame(Frame *org, Frame *dst)
             parseNal(vframe, newFrame);
             break;
         case RAW:
-            writeFramePayload(vframe);
+            writeFramePayload(vframe, vframe->getLength());
             writeSharedMemoryRAW(vframe->getDataBuf(), vframe->getLength());
             break;
         default:
@@ -186,21 +187,14 @@ void SharedMemory::copyOrgToDstFrame(InterleavedVideoFrame*org, InterleavedVideo
 
 void SharedMemory::writeSharedMemoryH264()
 {
-    uint8_t* data;
-    unsigned dataLength;
-    uint32_t length;
-    data = reinterpret_cast<uint8_t*> (&frameData[0]);
-    dataLength = frameData.size();
-    length = dataLength;
-
-    if (!data) {
+    if (frameData.empty()) {
         utils::errorMsg("SharedMemory::error - no data from appended frame");
         return;
     }
 
     *access = CHAR_WRITING;
-    memcpy(access+20, &length, sizeof(uint32_t));
-    memcpy(buffer, data, sizeof(uint8_t) * dataLength);
+    writeFramePayload(frameInfo, frameData.size());
+    memcpy(buffer, frameData.data(), frameData.size());
     *access = CHAR_READING;
 }
 
@@ -226,6 +220,13 @@ bool SharedMemory::parseNal(VideoFrame* nal, bool &newFrame)
         return false;
     }
 
+    if (frameData.empty()) {
+        frameInfo->setSize(nal->getWidth(), nal->getHeight());
+        frameInfo->setPixelFormat(nal->getPixelFormat());
+        frameInfo->setPresentationTime(nal->getPresentationTime());
+        frameInfo->setSequenceNumber(nal->getSequenceNumber());
+    }
+
     if (!appendNalToFrame(nalData, nalDataLength, startCodeOffset, newFrame)) {
         utils::errorMsg("Error parsing NAL: invalid NALU type");
         return false;
@@ -296,13 +297,12 @@ int SharedMemory::writeSharedMemoryRAW(uint8_t *buf, int buf_size)
     return 0;
 }
 
-void SharedMemory::writeFramePayload(InterleavedVideoFrame *frame) 
+void SharedMemory::writeFramePayload(VideoFrame *frame, uint32_t length) 
 {
     uint32_t tv_sec = frame->getPresentationTime().count()/std::micro::den;
     uint32_t tv_usec = frame->getPresentationTime().count()%std::micro::den;
     uint16_t width = frame->getWidth();
     uint16_t height = frame->getHeight();
-    uint32_t length = frame->getLength();
     uint16_t codec = getCodecFromVCodec(frame->getCodec());
     uint16_t pixFmt = getPixelFormatFromPixType(frame->getPixelFormat());
     uint16_t seqN = frame->getSequenceNumber();
diff --git a/src/modules/sharedMemory/SharedMemory.hh b/src/modules/sharedMemory/SharedMemory.hh
index cc6d783..c932c85 100644
--- a/src/modules/sharedMemory/SharedMemory.hh
+++ b/src/modules/sharedMemory/SharedMemory.hh
@@ -95,7 +95,7 @@ protected:
     bool parseNal(VideoFrame* nal, bool &newFrame);
     int detectStartCode(unsigned char const* ptr);
     int writeSharedMemoryRAW(uint8_t *buffer, int buffer_size);
-    void writeFramePayload(InterleavedVideoFrame *frame);
+    void writeFramePayload(VideoFrame *frame, uint32_t length);
     bool isWritable();
     uint16_t getSeqNum() { return seqNum;};
     void setSeqNum(uint16_t seqNum_) { seqNum = seqNum_;};
@@ -137,6 +137,7 @@ private:
     bool        enabled;
     bool        newFrame;
     std::vector<unsigned char>    frameData;
+    InterleavedVideoFrame         *frameInfo; //description of the frame in frameData
     VCodecType const              codec;
     uint16_t                      seqNum;
 };
-- 
2.43.0


From c1270dc89cd06473df867dbb5b24b3cb45d94cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:23 +0000
Subject: [PATCH 053/160] fix: frames larger than the shared segment were
 written past its end

---
 src/modules/sharedMemory/SharedMemory.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index 36849bf..8fe91cc 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -138,6 +138,10 @@ bool SharedMemory::doProcessFrame(Frame *org, Frame *dst)
             parseNal(vframe, newFrame);
             break;
         case RAW:
+            if (vframe->getLength() > MAX_SIZE) {
+                utils::errorMsg("SharedMemory::error - frame discarded, it does not fit in the shared memory");
+                break;
+            }
             writeFramePayload(vframe, vframe->getLength());
             writeSharedMemoryRAW(vframe->getDataBuf(), vframe->getLength());
             break;
@@ -192,6 +196,11 @@ void SharedMemory::writeSharedMemoryH264()
         return;
     }
 
+    if (frameData.size() > MAX_SIZE) {
+        utils::errorMsg("SharedMemory::error - frame discarded, it does not fit in the shared memory");
+        return;
+    }
+
     *access = CHAR_WRITING;
     writeFramePayload(frameInfo, frameData.size());
     memcpy(buffer, frameData.data(), frameData.size());
@@ -279,7 +288,7 @@ bool SharedMemory::appendNalToFrame(unsigned char* nalData, unsigned nalDataLeng
             return false;
     }
 
-    if (nalType != AUD) {
+    if (nalType != AUD && frameData.size() <= MAX_SIZE) {
         frameData.insert(frameData.end(), start_code, start_code + sizeof(start_code));
         frameData.insert(frameData.end(), nalData + startCodeOffset, nalData + nalDataLength);
     }
-- 
2.43.0


From 59cccc9726aefe0a419a519b22a80cd0dbd45c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:23 +0000
Subject: [PATCH 054/160] fix: connecting the output of a shared memory filter
 without input crashed

---
 src/modules/sharedMemory/SharedMemory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index 8fe91cc..fd4540d 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -155,7 +155,7 @@ bool SharedMemory::doProcessFrame(Frame *org, Frame *dst)
 
 FrameQueue* SharedMemory::allocQueue(ConnectionData cData)
 {
-    if (codec != H264 && codec !=RAW) {
+    if (!streamInfo || (codec != H264 && codec !=RAW)) {
         return NULL;
     }
 
-- 
2.43.0


From 94e9a35dc9e00490a7a36c1ef02a5a27edffe3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:23 +0000
Subject: [PATCH 055/160] fix: NAL units shorter than their start code crashed
 the shared memory filter

---
 src/modules/sharedMemory/SharedMemory.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index fd4540d..97b619a 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -214,18 +214,18 @@ bool SharedMemory::parseNal(VideoFrame* nal, bool &newFrame)
     unsigned char* nalData;
     int nalDataLength;
 
-    startCodeOffset = detectStartCode(nal->getDataBuf());
+    nalData = nal->getDataBuf();
+    nalDataLength = nal->getLength();
 
-    if(startCodeOffset == 0){
-        utils::errorMsg("Error parsing NAL: no start code detected");
+    if (!nalData || nalDataLength < LONG_START_CODE_LENGTH) {
+        utils::errorMsg("Error parsing NAL: invalid data pointer or length");
         return false;
     }
 
-    nalData = nal->getDataBuf();
-    nalDataLength = nal->getLength();
+    startCodeOffset = detectStartCode(nalData);
 
-    if (!nalData || nalDataLength <= 0) {
-        utils::errorMsg("Error parsing NAL: invalid data pointer or length");
+    if(startCodeOffset == 0 || nalDataLength == startCodeOffset){
+        utils::errorMsg("Error parsing NAL: no start code detected");
         return false;
     }
 
-- 
2.43.0


From 390a39a41df1c0e0b6e969658751171485993b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:52 +0000
Subject: [PATCH 056/160] fix: a refused shared memory filter was leaked

---
 src/modules/sharedMemory/SharedMemory.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index 97b619a..954c9d4 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -33,6 +33,7 @@ SharedMemory* SharedMemory::createNew(size_t key_, VCodecType codec)
     if(shm->isEnabled()){
         return shm;
     }
+    delete shm;
     return NULL;
 }
 
@@ -48,6 +49,7 @@ SharedMemory* SharedMemory::createNew(VCodecType codec)
     if(shm->isEnabled()){
         return shm;
     }
+    delete shm;
     return NULL;
 }
 
@@ -73,6 +75,7 @@ SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
 
     if ((SharedMemoryOrigin = (uint8_t*) shmat(sharedMemoryId, NULL, 0)) == (uint8_t *) -1) {
         utils::errorMsg("SharedMemory::shmat error - filter not created");
+        shmctl(sharedMemoryId, IPC_RMID, 0);
         enabled = false;
         return;
     }
@@ -104,6 +107,10 @@ SharedMemory::~SharedMemory()
 {
     delete frameInfo;
 
+    if (!enabled) {
+        return;
+    }
+
     if(shmctl (sharedMemoryId , IPC_RMID , 0) != 0){
         utils::errorMsg("SharedMemory::shmctl error - Could not set IPC_RMID flag to shared memory segment ID");
     }
-- 
2.43.0


From bdbd1d3d0b2713511acd665619c03e7db9edba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:52 +0000
Subject: [PATCH 057/160] fix: the shared frame was published without ordering
 it after its contents

---
 src/modules/sharedMemory/SharedMemory.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index 954c9d4..e880a71 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -208,10 +208,9 @@ void SharedMemory::writeSharedMemoryH264()
         return;
     }
 
-    *access = CHAR_WRITING;
     writeFramePayload(frameInfo, frameData.size());
     memcpy(buffer, frameData.data(), frameData.size());
-    *access = CHAR_READING;
+    __atomic_store_n(access, (uint8_t) CHAR_READING, __ATOMIC_RELEASE);
 }
 
 
@@ -305,10 +304,8 @@ bool SharedMemory::appendNalToFrame(unsigned char* nalData, unsigned nalDataLeng
 
 int SharedMemory::writeSharedMemoryRAW(uint8_t *buf, int buf_size)
 {
-
-    *access = CHAR_WRITING;
     memcpy(buffer, buf, sizeof(uint8_t) * buf_size);
-    *access = CHAR_READING;
+    __atomic_store_n(access, (uint8_t) CHAR_READING, __ATOMIC_RELEASE);
 
     return 0;
 }
@@ -334,7 +331,7 @@ void SharedMemory::writeFramePayload(VideoFrame *frame, uint32_t length)
 }
 
 bool SharedMemory::isWritable() {
-    return *access == CHAR_WRITING;
+    return __atomic_load_n(access, __ATOMIC_ACQUIRE) == CHAR_WRITING;
 }
 
 uint16_t SharedMemory::getCodecFromVCodec(VCodecType codec){
-- 
2.43.0


From 13c9ebfacec390e12b77937d2181b220c60d0624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 058/160] fix: a DASH session starting at time zero, or frames
 older than its start, wrapped the timeline

---
 src/modules/dasher/Dasher.cpp | 11 +++++++++--
 src/modules/dasher/Dasher.hh  |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index f840bed..963fcb7 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -36,7 +36,8 @@
 #include <math.h>
 
 Dasher::Dasher(unsigned readersNum) :
-TailFilter(readersNum), mpdMngr(NULL), hasVideo(false), videoStarted(false), timestampOffset(std::chrono::microseconds(0))
+TailFilter(readersNum), mpdMngr(NULL), hasVideo(false), videoStarted(false), timestampOffset(std::chrono::microseconds(0)),
+timestampOffsetSet(false)
 {
     fType = DASHER;
     initializeEventMap();
@@ -101,13 +102,19 @@ bool Dasher::doProcessFrame(std::map<int, Frame*> &orgFrames, std::vector<int> n
             continue;
         }
         
-        if (timestampOffset.count() == 0){
+        if (!timestampOffsetSet){
             timestampOffset = orgFrames[id]->getFrameTime();
+            timestampOffsetSet = true;
             for(auto seg : segmenters){
                 seg.second->setOffset(timestampOffset);
             }
         }
 
+        if (orgFrames[id]->getFrameTime() < timestampOffset) {
+            utils::warningMsg("[Dasher::doProcessFrame] Frame discarded: it is older than the start of the session");
+            continue;
+        }
+
         frame = segmenter->manageFrame(orgFrames[id]);
 
         if (!frame) {
diff --git a/src/modules/dasher/Dasher.hh b/src/modules/dasher/Dasher.hh
index 3bd7f0f..8e857f2 100644
--- a/src/modules/dasher/Dasher.hh
+++ b/src/modules/dasher/Dasher.hh
@@ -136,6 +136,7 @@ private:
     bool videoStarted;
     
     std::chrono::microseconds timestampOffset;
+    bool timestampOffsetSet;
 };
 
 /*! Abstract class implemented by DashVideoSegmenter and DashAudioSegmenter */
-- 
2.43.0


From aad378d573f95c972c06710257b347dc56f1e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:49 +0000
Subject: [PATCH 059/160] fix: a DASH segment that outgrew its buffers wrote
 past their end

---
 src/modules/dasher/i2context.h |  5 ++++-
 src/modules/dasher/i2libdash.c | 16 ++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/modules/dasher/i2context.h b/src/modules/dasher/i2context.h
index 56facfe..6e16526 100644
--- a/src/modules/dasher/i2context.h
+++ b/src/modules/dasher/i2context.h
@@ -31,9 +31,12 @@ typedef unsigned char byte;
 #define VIDEO_TYPE_HEVC 2            //AVC1_VIDEO_TYPE  &   HEV1_VIDEO_TYPE
 #define AUDIO_TYPE 3
 #define MAX_MDAT_SAMPLE 65536   //H265 -> 119296
-#define MAX_DAT 10*1024*1024 
+#define MAX_DAT (10*1024*1024)
+#define MAX_SEGMENT_HEADERS 1024    // boxes around the payload, without the sample table
+#define MAX_SAMPLE_ENTRY 16         // bytes of a sample in the sample table
 //TODO: error negative values
 #define I2ERROR_MAX 10
+#define I2ERROR_SEGMENT_FULL 10
 #define I2ERROR_SPS_PPS 9
 #define I2ERROR_IS_INTRA 8
 #define I2ERROR_DURATION_ZERO 7
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 6158c69..4b8e1cc 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -35,6 +35,14 @@ void video_sample_context_initializer(i2ctx_video **ctxVideo);
 
 uint8_t is_key_frame(byte *input_data, uint32_t size_input);
 
+// The finished segment (payload, sample table and the other boxes) has to fit in MAX_DAT bytes
+static uint8_t sample_fits(uint32_t segment_size, uint32_t samples, uint32_t sample_size)
+{
+    uint64_t needed = (uint64_t) segment_size + sample_size + ((uint64_t) samples + 1)*MAX_SAMPLE_ENTRY + MAX_SEGMENT_HEADERS;
+
+    return samples < MAX_MDAT_SAMPLE && needed <= MAX_DAT;
+}
+
 void set_segment_duration(uint32_t segment_duration, i2ctx **context)
 {
     (*context)->duration = segment_duration;
@@ -435,6 +443,10 @@ uint32_t add_video_sample(byte *input_data, uint32_t input_data_length, uint64_t
         return I2ERROR_IS_INTRA;
     }
 
+    if (!sample_fits((*context)->ctxvideo->segment_data_size, ctxSample->mdat_sample_length, input_data_length)) {
+        return I2ERROR_SEGMENT_FULL;
+    }
+
     // Add segment data
     memcpy((*context)->ctxvideo->segment_data + (*context)->ctxvideo->segment_data_size, input_data, input_data_length);
     (*context)->ctxvideo->segment_data_size += input_data_length;
@@ -481,6 +493,10 @@ uint32_t add_audio_sample(byte *input_data, uint32_t input_data_length, uint32_t
 
     // Add sample or Init new segmentation
     i2ctx_sample *ctxSample = (*context)->ctxaudio->ctxsample;
+
+    if (!sample_fits((*context)->ctxaudio->segment_data_size, ctxSample->mdat_sample_length, input_data_length)) {
+        return I2ERROR_SEGMENT_FULL;
+    }
     
     // Add segment data
     memcpy((*context)->ctxaudio->segment_data + (*context)->ctxaudio->segment_data_size, input_data, input_data_length);
-- 
2.43.0


From 786f5877fc37d5de87ac55057c69d09752962f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:49 +0000
Subject: [PATCH 060/160] fix: a gap longer than a segment kept the DASH video
 segment open

---
 src/modules/dasher/i2libdash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 4b8e1cc..95e919c 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -337,7 +337,7 @@ uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts,
 
     lastSampleDuration = nextFramePts - (*context)->ctxvideo->ctxsample->mdat[sampleIdx].presentation_timestamp;
 
-    if ((nextFrameIsIntra == TRUE) && ((((*context)->duration - lastSampleDuration)) <= ((*context)->ctxvideo->current_video_duration + lastSampleDuration))) {
+    if ((nextFrameIsIntra == TRUE) && ((*context)->duration <= (uint64_t) (*context)->ctxvideo->current_video_duration + 2*(uint64_t) lastSampleDuration)) {
         (*context)->ctxvideo->ctxsample->mdat[sampleIdx].duration = lastSampleDuration;
         (*context)->ctxvideo->current_video_duration += lastSampleDuration;
 
-- 
2.43.0


From 1bbb2a539b8f06779efc8e6618fafcf1214ae63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:49 +0000
Subject: [PATCH 061/160] fix: DASH video segments confused decode and
 presentation times

---
 src/modules/dasher/DashVideoSegmenter.cpp |  8 ++++----
 src/modules/dasher/Dasher.cpp             |  4 +++-
 src/modules/dasher/i2libdash.c            |  4 ++--
 src/modules/dasher/i2libdash.h            |  2 +-
 src/modules/dasher/i2libisoff.c           | 16 ++++++++--------
 5 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/modules/dasher/DashVideoSegmenter.cpp b/src/modules/dasher/DashVideoSegmenter.cpp
index 0a15d68..61f91ef 100644
--- a/src/modules/dasher/DashVideoSegmenter.cpp
+++ b/src/modules/dasher/DashVideoSegmenter.cpp
@@ -118,11 +118,11 @@ bool DashVideoSegmenter::generateInitSegment(DashSegment* segment)
 unsigned DashVideoSegmenter::customGenerateSegment(unsigned char *segBuffer, std::chrono::microseconds nextFrameTs, 
                                                     uint64_t &segTimestamp, uint32_t &segDuration, bool force)
 {
-    uint64_t timeBasePts;
+    uint64_t timeBaseDts;
 
-    timeBasePts = microsToTimeBase(nextFrameTs);
+    timeBaseDts = microsToTimeBase(nextFrameTs);
 
-    return generate_video_segment(isPreviousFrameIntra(), timeBasePts, segBuffer, &dashContext, &segTimestamp, &segDuration);
+    return generate_video_segment(isPreviousFrameIntra(), timeBaseDts, segBuffer, &dashContext, &segTimestamp, &segDuration);
 }
 
 bool DashVideoSegmenter::appendFrameToDashSegment(Frame* frame)
@@ -139,7 +139,7 @@ bool DashVideoSegmenter::appendFrameToDashSegment(Frame* frame)
     }
     
     timeBasePts = microsToTimeBase(vFrame->getPresentationTime());
-    timeBaseDts = microsToTimeBase(vFrame->getDecodeTime());
+    timeBaseDts = microsToTimeBase(vFrame->getFrameTime());
 
     //TODO: test it with bFrames
     addSampleReturn = add_video_sample(vFrame->getDataBuf(), vFrame->getLength(), timeBasePts, 
diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 963fcb7..b90286e 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -654,6 +654,7 @@ bool DashSegmenter::generateSegment(DashSegment* segment, Frame* frame, bool for
     uint64_t segTimestamp;
     uint32_t segDuration;
     std::chrono::microseconds frameTs = std::chrono::microseconds(0);
+    std::chrono::microseconds decodeTs = std::chrono::microseconds(0);
 
     if (!frame && !force) {
         return false;
@@ -661,9 +662,10 @@ bool DashSegmenter::generateSegment(DashSegment* segment, Frame* frame, bool for
 
     if (frame) {
         frameTs = frame->getPresentationTime();
+        decodeTs = frame->getFrameTime();
     }
 
-    segmentSize = customGenerateSegment(segment->getDataBuffer(), frameTs, segTimestamp, segDuration, force);
+    segmentSize = customGenerateSegment(segment->getDataBuffer(), decodeTs, segTimestamp, segDuration, force);
 
     if (segmentSize <= I2ERROR_MAX) {
         segment->setLastFrameTimestamp(frameTs.count());
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 95e919c..3178e4d 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -304,7 +304,7 @@ uint32_t init_audio_handler(byte *input_data, uint32_t size_input, byte *output_
     return initAudio;
 }
 
-uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts, byte *output_data, 
+uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint64_t nextFrameDts, byte *output_data, 
                                  i2ctx **context, uint64_t* segmentTimestamp, uint32_t* segmentDuration)
 {
     uint32_t segDataLength;
@@ -335,7 +335,7 @@ uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts,
         return segDataLength;
     }
 
-    lastSampleDuration = nextFramePts - (*context)->ctxvideo->ctxsample->mdat[sampleIdx].presentation_timestamp;
+    lastSampleDuration = nextFrameDts - (*context)->ctxvideo->ctxsample->mdat[sampleIdx].decode_timestamp;
 
     if ((nextFrameIsIntra == TRUE) && ((*context)->duration <= (uint64_t) (*context)->ctxvideo->current_video_duration + 2*(uint64_t) lastSampleDuration)) {
         (*context)->ctxvideo->ctxsample->mdat[sampleIdx].duration = lastSampleDuration;
diff --git a/src/modules/dasher/i2libdash.h b/src/modules/dasher/i2libdash.h
index 419e64f..c6155b5 100644
--- a/src/modules/dasher/i2libdash.h
+++ b/src/modules/dasher/i2libdash.h
@@ -59,7 +59,7 @@ void set_sample_rate(uint32_t sample_rate, i2ctx **context);
 
 uint32_t get_sample_rate(i2ctx *context);
 
-uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts, byte *output_data, 
+uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint64_t nextFrameDts, byte *output_data, 
                                  i2ctx **context, uint64_t* segmentTimestamp, uint32_t* segmentDuration);
 
 uint32_t generate_audio_segment(byte *output_data, i2ctx **context, uint64_t* segmentTimestamp, uint32_t* segmentDuration);
diff --git a/src/modules/dasher/i2libisoff.c b/src/modules/dasher/i2libisoff.c
index 34b9410..581e266 100644
--- a/src/modules/dasher/i2libisoff.c
+++ b/src/modules/dasher/i2libisoff.c
@@ -1851,24 +1851,24 @@ uint32_t write_tfhd(byte *data, uint32_t media_type, i2ctx *context) {
 
 uint32_t write_tfdt(byte *data, uint32_t media_type, i2ctx *context) {
     uint32_t count, version, size, hton_size;
-    uint64_t earliest_presentation_time, hton_earliest_presentation_time;
+    uint64_t base_decode_time, hton_base_decode_time;
 
     i2ctx_video *ctxVideo = context->ctxvideo;
     i2ctx_audio *ctxAudio = context->ctxaudio;
-    earliest_presentation_time = 0;
+    base_decode_time = 0;
 
     if ((media_type == VIDEO_TYPE_AVC) || (media_type == VIDEO_TYPE_HEVC)) {
-        earliest_presentation_time = ctxVideo->earliest_presentation_time;
+        base_decode_time = ctxVideo->ctxsample->mdat[0].decode_timestamp;
     }
     else if (media_type == AUDIO_TYPE) {
-        earliest_presentation_time = ctxAudio->earliest_presentation_time;
+        base_decode_time = ctxAudio->ctxsample->mdat[0].decode_timestamp;
     }
 
     count = 0;
     version = 1;
 
     // Size
-    size = sizeof(size) + BOX_TYPE_SIZE + sizeof(version) + sizeof(earliest_presentation_time);
+    size = sizeof(size) + BOX_TYPE_SIZE + sizeof(version) + sizeof(base_decode_time);
     hton_size = htonl(size);
     memcpy(data + count, &hton_size, sizeof(size));
     count+= sizeof(size);
@@ -1882,9 +1882,9 @@ uint32_t write_tfdt(byte *data, uint32_t media_type, i2ctx *context) {
     count+= sizeof(version);
     
     // baseMediaDecodeTime
-    hton_earliest_presentation_time = htonl_64(earliest_presentation_time);
-    memcpy(data + count, &hton_earliest_presentation_time, sizeof(earliest_presentation_time));
-    count+= sizeof(earliest_presentation_time);
+    hton_base_decode_time = htonl_64(base_decode_time);
+    memcpy(data + count, &hton_base_decode_time, sizeof(base_decode_time));
+    count+= sizeof(base_decode_time);
 
     return count;
 }
-- 
2.43.0


From 1a676bc191d1eded8b2b58e6f13a29fa25a0fb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:16 +0000
Subject: [PATCH 062/160] fix: NAL units shorter than a start code were read
 past their end by the DASH segmenters

---
 src/modules/dasher/DashVideoSegmenter.cpp     | 10 +++++++++-
 src/modules/dasher/DashVideoSegmenter.hh      |  2 +-
 src/modules/dasher/DashVideoSegmenterAVC.cpp  |  2 +-
 src/modules/dasher/DashVideoSegmenterAVC.hh   |  1 +
 src/modules/dasher/DashVideoSegmenterHEVC.cpp |  2 +-
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/modules/dasher/DashVideoSegmenter.cpp b/src/modules/dasher/DashVideoSegmenter.cpp
index 61f91ef..ee35284 100644
--- a/src/modules/dasher/DashVideoSegmenter.cpp
+++ b/src/modules/dasher/DashVideoSegmenter.cpp
@@ -178,13 +178,21 @@ bool DashVideoSegmenter::appendNalToFrame(VideoFrame* frame, unsigned char* nalD
 }
 
 
-int DashVideoSegmenter::detectStartCode(unsigned char const* ptr)
+int DashVideoSegmenter::detectStartCode(unsigned char const* ptr, unsigned length)
 {
+    if (!ptr || length < SHORT_START_CODE_LENGTH) {
+        return 0;
+    }
+
     u_int32_t bytes = 0|(ptr[0]<<16)|(ptr[1]<<8)|ptr[2];
     if (bytes == H264or5_NALU_START_CODE) {
         return SHORT_START_CODE_LENGTH;
     }
 
+    if (length < LONG_START_CODE_LENGTH) {
+        return 0;
+    }
+
     bytes = (ptr[0]<<24)|(ptr[1]<<16)|(ptr[2]<<8)|ptr[3];
     if (bytes == H264or5_NALU_START_CODE) {
         return LONG_START_CODE_LENGTH;
diff --git a/src/modules/dasher/DashVideoSegmenter.hh b/src/modules/dasher/DashVideoSegmenter.hh
index fa7726a..40f17cd 100644
--- a/src/modules/dasher/DashVideoSegmenter.hh
+++ b/src/modules/dasher/DashVideoSegmenter.hh
@@ -102,7 +102,7 @@ protected:
     bool appendNalToFrame(VideoFrame* frame, unsigned char* nalData, unsigned nalDataLength, 
                            unsigned nalWidth, unsigned nalHeight, std::chrono::microseconds ts,
                            std::chrono::microseconds dts);
-    int detectStartCode(unsigned char const* ptr);
+    int detectStartCode(unsigned char const* ptr, unsigned length);
     bool setup(unsigned int width, unsigned int height);
     unsigned customGenerateSegment(unsigned char *segBuffer, std::chrono::microseconds nextFrameTs, 
                                     uint64_t &segTimestamp, uint32_t &segDuration, bool force);
diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index 872910c..4bdc46f 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -71,7 +71,7 @@ VideoFrame* DashVideoSegmenterAVC::parseNal(VideoFrame* nal)
     unsigned char nalType;
     bool newFrame = false;
 
-    startCodeOffset = detectStartCode(nal->getDataBuf());
+    startCodeOffset = detectStartCode(nal->getDataBuf(), nal->getLength());
     nalData = nal->getDataBuf() + startCodeOffset;
     nalDataLength = nal->getLength() - startCodeOffset;
 
diff --git a/src/modules/dasher/DashVideoSegmenterAVC.hh b/src/modules/dasher/DashVideoSegmenterAVC.hh
index e2ec0b5..9cce7fa 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.hh
+++ b/src/modules/dasher/DashVideoSegmenterAVC.hh
@@ -35,6 +35,7 @@
 #define NUMBER_OF_SPS 0x01
 #define NUMBER_OF_PPS 0x01
 
+#define H264_MIN_SPS_LENGTH 4
 #define NON_IDR 1
 #define IDR 5
 #define SEI 6
diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index c703b1b..57be20f 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -73,7 +73,7 @@ VideoFrame* DashVideoSegmenterHEVC::parseNal(VideoFrame* nal)
     unsigned char nalType;
     bool newFrame = false;
 
-    startCodeOffset = detectStartCode(nal->getDataBuf());
+    startCodeOffset = detectStartCode(nal->getDataBuf(), nal->getLength());
     nalData = nal->getDataBuf() + startCodeOffset;
     nalDataLength = nal->getLength() - startCodeOffset;
 
-- 
2.43.0


From f2a8a85fa41e3c535eba656f382e37890a2e2aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:16 +0000
Subject: [PATCH 063/160] fix: an SPS too short to hold a profile was read past
 its end

---
 src/modules/dasher/DashVideoSegmenterAVC.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index 4bdc46f..70ca038 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -146,6 +146,11 @@ void DashVideoSegmenterAVC::createExtradata()
     int spsLength = sps.size();
     int ppsLength = pps.size();
 
+    if (spsLength < H264_MIN_SPS_LENGTH) {
+        utils::errorMsg("[DashVideoSegmenterAVC::createExtradata] SPS too short");
+        return;
+    }
+
     extradata.clear();
 
     extradata.insert(extradata.end(), H264_METADATA_VERSION_FLAG);
-- 
2.43.0


From 33121b841b0b5404adb786ffaa39e6e6bd1330e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:16 +0000
Subject: [PATCH 064/160] fix: an HEVC SEI after the slices hid that the
 picture is a random access point

---
 src/modules/dasher/DashVideoSegmenterHEVC.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index 57be20f..a879d19 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -100,9 +100,10 @@ VideoFrame* DashVideoSegmenterHEVC::parseNal(VideoFrame* nal)
             currentIntra = false;
             break;
         case PREFIX_SEI_NUT:
-        case SUFFIX_SEI_NUT:
             currentIntra = false;
             break;
+        case SUFFIX_SEI_NUT:
+            break;
         case AUD_HEVC:
             break;
         case IDR1:
-- 
2.43.0


From 9039e7cfb08387594fde43800ef53c001682d44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:39 +0000
Subject: [PATCH 065/160] fix: HEVC slices of the sublayer, leading and BLA
 types were left out of the DASH segments

---
 src/modules/dasher/DashVideoSegmenterHEVC.cpp | 18 +++++++++++++++---
 src/modules/dasher/DashVideoSegmenterHEVC.hh  | 11 +++++++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index a879d19..6caba32 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -72,6 +72,7 @@ VideoFrame* DashVideoSegmenterHEVC::parseNal(VideoFrame* nal)
     int nalDataLength;
     unsigned char nalType;
     bool newFrame = false;
+    bool isSlice = false;
 
     startCodeOffset = detectStartCode(nal->getDataBuf(), nal->getLength());
     nalData = nal->getDataBuf() + startCodeOffset;
@@ -106,14 +107,27 @@ VideoFrame* DashVideoSegmenterHEVC::parseNal(VideoFrame* nal)
             break;
         case AUD_HEVC:
             break;
+        case BLA1:
+        case BLA2:
+        case BLA3:
         case IDR1:
         case IDR2:
         case CRA:
             currentIntra = true;
+            isSlice = true;
             break;
         case NON_TSA_STSA_0:
         case NON_TSA_STSA_1:
+        case TSA_0:
+        case TSA_1:
+        case STSA_0:
+        case STSA_1:
+        case RADL_0:
+        case RADL_1:
+        case RASL_0:
+        case RASL_1:
             currentIntra = false;
+            isSlice = true;
             break;
         default:
             utils::errorMsg("Error parsing NAL: NalType " + std::to_string(nalType) + " not contemplated");
@@ -126,9 +140,7 @@ VideoFrame* DashVideoSegmenterHEVC::parseNal(VideoFrame* nal)
         newFrame = true;
     }
 
-    if ((nalType == IDR1 || nalType == IDR2 || nalType == CRA 
-        || nalType == NON_TSA_STSA_0 || nalType == NON_TSA_STSA_1) && 
-        !appendNalToFrame(tmpFrame, nalData, nalDataLength, nal->getWidth(), nal->getHeight(), 
+    if (isSlice && !appendNalToFrame(tmpFrame, nalData, nalDataLength, nal->getWidth(), nal->getHeight(), 
                           nal->getPresentationTime(), nal->getDecodeTime())) {
         utils::errorMsg("[DashVideoSegmenterHEVC::parseNal] Error appending NAL to frame");
     }
diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.hh b/src/modules/dasher/DashVideoSegmenterHEVC.hh
index f36af5a..5565517 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.hh
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.hh
@@ -58,6 +58,17 @@
 
 #define NON_TSA_STSA_0 0
 #define NON_TSA_STSA_1 1
+#define TSA_0 2
+#define TSA_1 3
+#define STSA_0 4
+#define STSA_1 5
+#define RADL_0 6
+#define RADL_1 7
+#define RASL_0 8
+#define RASL_1 9
+#define BLA1 16
+#define BLA2 17
+#define BLA3 18
 #define IDR1 19
 #define IDR2 20
 #define CRA 21
-- 
2.43.0


From 261adb821a8d255be5a3c6a1aee7e8ad985ffc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:39 +0000
Subject: [PATCH 066/160] fix: the ADTS channel configuration was read with its
 top bit in the wrong place

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 85893c1..e9e0741 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -211,7 +211,7 @@ unsigned char DashAudioSegmenter::getSamplingFreqIdxFromADTSHeader(unsigned char
 
 unsigned char DashAudioSegmenter::getChannelConfFromADTSHeader(unsigned char* adtsHeader)
 {
-    return (adtsHeader[2] & 0x01) | ((adtsHeader[3] >> 6) & 0x03);
+    return ((adtsHeader[2] & 0x01) << 2) | ((adtsHeader[3] >> 6) & 0x03);
 }
 
 unsigned char DashAudioSegmenter::getExtradata1stByte(unsigned char audioObjectType, unsigned char samplingFrequencyIndex)
-- 
2.43.0


From eb2eb2894e84eeb18f54116987118843dd9cca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:39 +0000
Subject: [PATCH 067/160] fix: DASH audio times wrapped at 32 bits

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index e9e0741..74c1354 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -132,7 +132,7 @@ bool DashAudioSegmenter::appendFrameToDashSegment(Frame* frame)
     unsigned char* dataWithoutADTS;
     unsigned int dataLengthWithoutADTS;
     unsigned int addSampleReturn;
-    uint32_t timeBasePts;
+    uint64_t timeBasePts;
 
     if (!frame || !frame->getDataBuf() || frame->getLength() <= 0 || !dashContext) {
         utils::errorMsg("Error appeding frame to segment: frame not valid");
-- 
2.43.0


From a04c5524a7c5a24f64e8ce9c738c2a88a2d3c530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:39 +0000
Subject: [PATCH 068/160] fix: sample rates over 65535 Hz were cut to 16 bits
 in the DASH manifest

---
 src/modules/dasher/i2context.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/i2context.h b/src/modules/dasher/i2context.h
index 6e16526..7b40862 100644
--- a/src/modules/dasher/i2context.h
+++ b/src/modules/dasher/i2context.h
@@ -97,7 +97,7 @@ typedef struct {
     uint32_t        time_base;
     uint32_t        sample_duration;
     uint16_t        channels;
-    uint16_t        sample_rate;
+    uint32_t        sample_rate;
     uint16_t        sample_size;
     uint64_t        earliest_presentation_time;
     uint32_t        sequence_number;
-- 
2.43.0


From a715210577ecf8c0e4de07ebef99cb203ede45e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:03 +0000
Subject: [PATCH 069/160] fix: DASH segments that left the window were not
 removed when they started at zero or several left at once

---
 src/modules/dasher/Dasher.cpp     | 20 ++++++++++++--------
 src/modules/dasher/MpdManager.cpp | 10 +++++++---
 src/modules/dasher/MpdManager.hh  |  9 ++++++---
 3 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index b90286e..51d325a 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -253,7 +253,7 @@ bool Dasher::writeVideoSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    uint64_t rmTimestamp;
+    std::vector<uint64_t> rmTimestamps;
     bool needEncoderConfig = false;
 
     if (vSegments.empty()) {
@@ -291,12 +291,14 @@ bool Dasher::writeVideoSegments()
         return false;
     }
 
-    rmTimestamp = mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur);
+    mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur, &rmTimestamps);
 
     mpdMngr->writeToDisk(mpdPath.c_str());
 
-    if (rmTimestamp > 0 && !cleanSegments(vSegments, rmTimestamp, V_EXT)) {
-        utils::warningMsg("Error cleaning dash video segments");
+    for (auto rmTimestamp : rmTimestamps) {
+        if (!cleanSegments(vSegments, rmTimestamp, V_EXT)) {
+            utils::warningMsg("Error cleaning dash video segments");
+        }
     }
 
     return true;
@@ -318,7 +320,7 @@ bool Dasher::writeAudioSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    uint64_t rmTimestamp;
+    std::vector<uint64_t> rmTimestamps;
 
     if (aSegments.empty()) {
         return false;
@@ -344,12 +346,14 @@ bool Dasher::writeAudioSegments()
         return false;
     }
 
-    rmTimestamp = mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur);
+    mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur, &rmTimestamps);
 
     mpdMngr->writeToDisk(mpdPath.c_str());
 
-    if (rmTimestamp > 0 && !cleanSegments(aSegments, rmTimestamp, A_EXT)) {
-        utils::warningMsg("Error cleaning dash video segments");
+    for (auto rmTimestamp : rmTimestamps) {
+        if (!cleanSegments(aSegments, rmTimestamp, A_EXT)) {
+            utils::warningMsg("Error cleaning dash audio segments");
+        }
     }
 
     return true;
diff --git a/src/modules/dasher/MpdManager.cpp b/src/modules/dasher/MpdManager.cpp
index 64eb531..562dff8 100644
--- a/src/modules/dasher/MpdManager.cpp
+++ b/src/modules/dasher/MpdManager.cpp
@@ -113,7 +113,7 @@ void MpdManager::writeToDisk(const char* fileName)
     doc.SaveFile(fileName);
 }
 
-uint64_t MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration)
+uint64_t MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration, std::vector<uint64_t>* removed)
 {
     AdaptationSet* adSet;
     uint64_t removedTimestamp;
@@ -124,7 +124,7 @@ uint64_t MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, u
         return 0;
     }
 
-    removedTimestamp = adSet->updateTimestamp(ts, duration, maxSeg);
+    removedTimestamp = adSet->updateTimestamp(ts, duration, maxSeg, removed);
     return removedTimestamp;
 }
 
@@ -238,13 +238,17 @@ AdaptationSet::~AdaptationSet()
 { 
 }
 
-uint64_t AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg)
+uint64_t AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg, std::vector<uint64_t>* removed)
 {
     uint64_t removedTimestamp= 0;
 
     while (timestamps.size() >= maxSeg) {
         removedTimestamp = timestamps.front().first;
         timestamps.pop_front();
+
+        if (removed) {
+            removed->push_back(removedTimestamp);
+        }
     }
 
     timestamps.push_back(std::pair<uint64_t,uint64_t>(ts, duration));
diff --git a/src/modules/dasher/MpdManager.hh b/src/modules/dasher/MpdManager.hh
index 19772cc..e187c8f 100644
--- a/src/modules/dasher/MpdManager.hh
+++ b/src/modules/dasher/MpdManager.hh
@@ -24,6 +24,8 @@
 
 #include <map>
 #include <deque>
+#include <string>
+#include <vector>
 #include <tinyxml2.h>
 
 #define MIN_SEGMENT 2
@@ -105,9 +107,10 @@ public:
     * @param id Adaptation set Id. Must exist.
     * @param ts Timestamp of the current segment in timescale base.
     * @param duration Duration of the current segment in timescale base.
-    * @return true if succeeded and false if not
+    * @param removed If not NULL, all the timestamps that left the list are appended to it
+    * @return The last timestamp that left the list, 0 if none did
     */
-    uint64_t updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration);
+    uint64_t updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration, std::vector<uint64_t>* removed = NULL);
 
     /**
     * Updates an existing video representation. If it does not exists, it creates a new one. Each representation is
@@ -213,7 +216,7 @@ public:
     * Sets timestamp and duration
     * @see MpdManager::updateAdaptationSetTimestamp 
     */
-    uint64_t updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg);
+    uint64_t updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg, std::vector<uint64_t>* removed = NULL);
 
     /**
     * Sets timescale, segment template and init template values
-- 
2.43.0


From 31ab95f6bf51d736b1505eac0c120dd8efa1a1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:03 +0000
Subject: [PATCH 070/160] fix: DASH files were visible while being written, and
 failed writes went unnoticed

---
 src/modules/dasher/Dasher.cpp     | 12 ++++++++++--
 src/modules/dasher/MpdManager.cpp | 22 ++++++++++++++++++++--
 src/modules/dasher/MpdManager.hh  |  4 +++-
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 51d325a..f0cd752 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -34,6 +34,7 @@
 #include <fstream>
 #include <unistd.h>
 #include <math.h>
+#include <cstdio>
 
 Dasher::Dasher(unsigned readersNum) :
 TailFilter(readersNum), mpdMngr(NULL), hasVideo(false), videoStarted(false), timestampOffset(std::chrono::microseconds(0)),
@@ -724,8 +725,8 @@ void DashSegment::setDataLength(unsigned int length)
 
 bool DashSegment::writeToDisk(std::string path)
 {
-    const char* p = path.c_str();
-    std::ofstream file(p, std::ofstream::binary);
+    std::string tmpPath = path + TMP_EXT;
+    std::ofstream file(tmpPath.c_str(), std::ofstream::binary);
 
     if (!file) {
         return false;
@@ -733,6 +734,13 @@ bool DashSegment::writeToDisk(std::string path)
 
     file.write((char*)data, dataLength);
     file.close();
+
+    // The segment shows up under its name once it is complete
+    if (!file || std::rename(tmpPath.c_str(), path.c_str()) != 0) {
+        std::remove(tmpPath.c_str());
+        return false;
+    }
+
     return true;
 }
 
diff --git a/src/modules/dasher/MpdManager.cpp b/src/modules/dasher/MpdManager.cpp
index 562dff8..524e296 100644
--- a/src/modules/dasher/MpdManager.cpp
+++ b/src/modules/dasher/MpdManager.cpp
@@ -23,6 +23,7 @@
 #include <iostream>
 #include <ctime>
 #include <chrono> 
+#include <cstdio>
 
 #include "MpdManager.hh"
 
@@ -62,7 +63,7 @@ void MpdManager::configure(unsigned int minBuffTime, unsigned int maxSegment, un
     minimumUpdatePeriod = "PT" + std::to_string(segDurInSec) + ".0S";
 }
 
-void MpdManager::writeToDisk(const char* fileName)
+bool MpdManager::writeToDisk(const char* fileName)
 {
     tinyxml2::XMLDocument doc;
     tinyxml2::XMLElement* root;
@@ -110,7 +111,24 @@ void MpdManager::writeToDisk(const char* fileName)
     }
 
     root->InsertEndChild(period);
-    doc.SaveFile(fileName);
+
+    // Readers find either the previous manifest or this one, never a part of it
+    std::string tmpName = std::string(fileName) + TMP_EXT;
+    FILE* file = std::fopen(tmpName.c_str(), "w");
+    bool written = false;
+
+    if (file) {
+        written = doc.SaveFile(file) == tinyxml2::XML_SUCCESS && !std::ferror(file);
+        written = std::fclose(file) == 0 && written;
+    }
+
+    if (!written || std::rename(tmpName.c_str(), fileName) != 0) {
+        std::cerr << "Error writing the manifest " << fileName << std::endl;
+        std::remove(tmpName.c_str());
+        return false;
+    }
+
+    return true;
 }
 
 uint64_t MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration, std::vector<uint64_t>* removed)
diff --git a/src/modules/dasher/MpdManager.hh b/src/modules/dasher/MpdManager.hh
index e187c8f..5866464 100644
--- a/src/modules/dasher/MpdManager.hh
+++ b/src/modules/dasher/MpdManager.hh
@@ -35,6 +35,7 @@
 #define XSI_SCHEMA_LOCATION "urn:mpeg:DASH:schema:MPD:2011 http://standards.iso.org/ittf/PubliclyAvailableStandards/MPEG-DASH_schema_files/DASH-MPD.xsd"
 #define PROFILES "urn:mpeg:dash:profile:isoff-live:2011"
 #define AVAILABILITY_START_TIME 64
+#define TMP_EXT ".tmp"
 #define TYPE_DYNAMIC "dynamic"
 #define PERIOD_ID 0
 #define PERIOD_START "PT0.0S"
@@ -75,8 +76,9 @@ public:
     /**
     * Write to disk the .mpd file with the current data stored in the class. If the .mpd file already exists, it is overwritted
     * @param fileName File name (can be an absolute or relative path)
+    * @return true on success and false if it could not be written
     */
-    void writeToDisk(const char* fileName);
+    bool writeToDisk(const char* fileName);
     
     //TODO: add documentation
     unsigned int getMaxSeg() {return maxSeg;};
-- 
2.43.0


From f9ab7bcc0faaf5d1133a89ad187c7d84f532708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:13 +0000
Subject: [PATCH 071/160] fix: the state of an unconfigured dasher reported an
 uninitialised segment duration

---
 src/modules/dasher/Dasher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index f0cd752..46581ed 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -37,7 +37,7 @@
 #include <cstdio>
 
 Dasher::Dasher(unsigned readersNum) :
-TailFilter(readersNum), mpdMngr(NULL), hasVideo(false), videoStarted(false), timestampOffset(std::chrono::microseconds(0)),
+TailFilter(readersNum), mpdMngr(NULL), segDur(std::chrono::seconds(0)), hasVideo(false), videoStarted(false), timestampOffset(std::chrono::microseconds(0)),
 timestampOffsetSet(false)
 {
     fType = DASHER;
-- 
2.43.0


From ab167794b89661f82d982adcc96d09f4e9ee0181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:13 +0000
Subject: [PATCH 072/160] fix: the dasher leaked its segments, contexts,
 pictures and decoder configurations

---
 src/modules/dasher/DashVideoSegmenterAVC.cpp  |  3 ++-
 src/modules/dasher/DashVideoSegmenterHEVC.cpp |  3 ++-
 src/modules/dasher/Dasher.cpp                 | 13 +++++++---
 src/modules/dasher/i2libdash.c                | 24 +++++++++++++++++++
 src/modules/dasher/i2libdash.h                |  2 ++
 src/modules/dasher/i2libisoff.c               |  2 ++
 6 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index 70ca038..a37b375 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -33,7 +33,8 @@ DashVideoSegmenter(segDur, VIDEO_CODEC_AVC, offset)
 
 DashVideoSegmenterAVC::~DashVideoSegmenterAVC()
 {
-
+    delete vFrame;
+    delete tmpFrame;
 }
 
 uint8_t DashVideoSegmenterAVC::generateContext()
diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index 6caba32..7d570d9 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -34,7 +34,8 @@ DashVideoSegmenter(segDur, VIDEO_CODEC_HEVC, offset)
 
 DashVideoSegmenterHEVC::~DashVideoSegmenterHEVC()
 {
-
+    delete vFrame;
+    delete tmpFrame;
 }
 
 uint8_t DashVideoSegmenterHEVC::generateContext()
diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 46581ed..6da5822 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -49,6 +49,15 @@ Dasher::~Dasher()
     for (auto seg : segmenters) {
         delete seg.second;
     }
+    for (auto seg : vSegments) {
+        delete seg.second;
+    }
+    for (auto seg : aSegments) {
+        delete seg.second;
+    }
+    for (auto seg : initSegments) {
+        delete seg.second;
+    }
     delete mpdMngr;
 }
 
@@ -648,9 +657,7 @@ sequenceNumber(0), bitrateInBitsPerSec(0), tsOffset(offset)
 
 DashSegmenter::~DashSegmenter()
 {
-    if(dashContext){
-        free(dashContext);
-    }
+    free_context(&dashContext);
 }
 
 bool DashSegmenter::generateSegment(DashSegment* segment, Frame* frame, bool force)
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 3178e4d..e9f9791 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -56,6 +56,7 @@ void audio_context_initializer(i2ctx **context) {
     (*context)->ctxaudio = (i2ctx_audio *) malloc(sizeof(i2ctx_audio));
     i2ctx_audio *ctxAudio = (*context)->ctxaudio;
 
+    ctxAudio->aac_data = NULL;
     ctxAudio->aac_data_length = 0;
     ctxAudio->segment_data_size = 0;
     ctxAudio->channels = 0;
@@ -84,6 +85,7 @@ void video_context_initializer(i2ctx **context, uint32_t media_type) {
     (*context)->ctxvideo = (i2ctx_video *) malloc(sizeof(i2ctx_video));
     i2ctx_video *ctxVideo = (*context)->ctxvideo;
 
+    ctxVideo->pps_sps_data = NULL;
     ctxVideo->pps_sps_data_length = 0;
     ctxVideo->segment_data_size = 0;
     ctxVideo->width = 0;
@@ -131,6 +133,28 @@ void video_sample_context_initializer(i2ctx_video **ctxVideo) {
     ctxVSample->trun_pos = 0;
 }
 
+void free_context(i2ctx **context)
+{
+    if (!context || !(*context)) {
+        return;
+    }
+
+    if ((*context)->ctxvideo) {
+        free((*context)->ctxvideo->pps_sps_data);
+        free((*context)->ctxvideo->ctxsample);
+        free((*context)->ctxvideo);
+    }
+
+    if ((*context)->ctxaudio) {
+        free((*context)->ctxaudio->aac_data);
+        free((*context)->ctxaudio->ctxsample);
+        free((*context)->ctxaudio);
+    }
+
+    free(*context);
+    *context = NULL;
+}
+
 uint8_t generate_context(i2ctx **context, uint32_t media_type) 
 {
     if ((media_type != VIDEO_TYPE_AVC) && (media_type != VIDEO_TYPE_HEVC) && (media_type != AUDIO_TYPE)) {
diff --git a/src/modules/dasher/i2libdash.h b/src/modules/dasher/i2libdash.h
index c6155b5..efdd8fd 100644
--- a/src/modules/dasher/i2libdash.h
+++ b/src/modules/dasher/i2libdash.h
@@ -74,6 +74,8 @@ uint32_t add_audio_sample(byte *input_data, uint32_t input_data_length, uint32_t
 
 void context_refresh(i2ctx **context, uint32_t media_type);
 
+void free_context(i2ctx **context);
+
 
 #endif
 
diff --git a/src/modules/dasher/i2libisoff.c b/src/modules/dasher/i2libisoff.c
index 581e266..db97126 100644
--- a/src/modules/dasher/i2libisoff.c
+++ b/src/modules/dasher/i2libisoff.c
@@ -151,6 +151,7 @@ uint32_t initVideoGenerator(byte *source_data, uint32_t size_source_data, byte *
         return I2ERROR_MEDIA_TYPE;
     }
     count = 0;
+    free((*context)->ctxvideo->pps_sps_data);
     (*context)->ctxvideo->pps_sps_data = (byte*) malloc (size_source_data);
     memcpy((*context)->ctxvideo->pps_sps_data, source_data, size_source_data);
     (*context)->ctxvideo->pps_sps_data_length = size_source_data;
@@ -187,6 +188,7 @@ uint32_t initAudioGenerator(byte *source_data, uint32_t size_source_data, byte *
     }
 
     count = 0;
+    free((*context)->ctxaudio->aac_data);
     (*context)->ctxaudio->aac_data = (byte*) malloc(size_source_data);
     memcpy((*context)->ctxaudio->aac_data, source_data, size_source_data);
     (*context)->ctxaudio->aac_data_length = size_source_data;
-- 
2.43.0


From e13f9fa26089dbd79f25cfddb91c480fa665328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:13 +0000
Subject: [PATCH 073/160] fix: after moving to another folder or name the DASH
 manifest listed segments that are not there

---
 src/modules/dasher/Dasher.cpp | 29 +++++++++++++++++++++++++++++
 src/modules/dasher/Dasher.hh  |  1 +
 2 files changed, 30 insertions(+)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 6da5822..f21df40 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -77,6 +77,8 @@ bool Dasher::configure(std::string dashFolder, std::string baseName_, unsigned i
         return false;
     }
 
+    bool moved = mpdMngr && (basePath != dashFolder || baseName != baseName_);
+
     basePath = dashFolder;
     baseName = baseName_;
     mpdPath = basePath + baseName + ".mpd";
@@ -92,9 +94,36 @@ bool Dasher::configure(std::string dashFolder, std::string baseName_, unsigned i
     mpdMngr->configure(minBuffTime, maxSeg, segDurInSec);
     segDur = std::chrono::seconds(segDurInSec);
 
+    if (moved) {
+        restartInNewPath();
+    }
+
     return true;
 }
 
+void Dasher::restartInNewPath()
+{
+    // The segments written so far stay where they were, only the init segments are needed at the new place
+    mpdMngr->flushAdaptationSetTimestamps(V_ADAPT_SET_ID);
+    mpdMngr->flushAdaptationSetTimestamps(A_ADAPT_SET_ID);
+
+    if (!vSegments.empty()) {
+        mpdMngr->updateVideoAdaptationSet(V_ADAPT_SET_ID, segmenters[vSegments.begin()->first]->getTimeBase(), vSegTempl, vInitSegTempl);
+    }
+
+    if (!aSegments.empty()) {
+        mpdMngr->updateAudioAdaptationSet(A_ADAPT_SET_ID, segmenters[aSegments.begin()->first]->getTimeBase(), aSegTempl, aInitSegTempl);
+    }
+
+    for (auto init : initSegments) {
+        std::string ext = vSegments.count(init.first) > 0 ? V_EXT : A_EXT;
+
+        if (init.second->getDataLength() > 0 && !init.second->writeToDisk(getInitSegmentName(basePath, baseName, init.first, ext))) {
+            utils::errorMsg("Error writing DASH init segment to disk: invalid path");
+        }
+    }
+}
+
 bool Dasher::doProcessFrame(std::map<int, Frame*> &orgFrames, std::vector<int> newFrames, int& ret)
 {
     DashSegmenter* segmenter;
diff --git a/src/modules/dasher/Dasher.hh b/src/modules/dasher/Dasher.hh
index 8e857f2..31910e1 100644
--- a/src/modules/dasher/Dasher.hh
+++ b/src/modules/dasher/Dasher.hh
@@ -102,6 +102,7 @@ private:
     bool generateSegment(unsigned int id, Frame* frame, DashSegmenter* segmenter);
     bool appendFrameToSegment(unsigned int id, Frame* frame, DashSegmenter* segmenter);
     DashSegmenter* getSegmenter(unsigned int id);
+    void restartInNewPath();
     bool forceAudioSegmentsGeneration();
     bool writeVideoSegments();
     bool writeAudioSegments();
-- 
2.43.0


From 6f00dc1bb05426291286a19ee6cf79dc5c778dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:17 +0000
Subject: [PATCH 074/160] fix: a DASH init segment that could not be written
 was never written again

---
 src/modules/dasher/Dasher.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index f21df40..8b31882 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -224,7 +224,11 @@ bool Dasher::generateInitSegment(unsigned int id, DashSegmenter* segmenter)
 
     if ((vSeg = dynamic_cast<DashVideoSegmenter*>(segmenter)) != NULL) {
 
-        if (!vSeg->generateInitSegment(initSegments[id])) {
+        if (vSeg->generateInitSegment(initSegments[id])) {
+            initSegments[id]->setComplete(true);
+        }
+
+        if (!initSegments[id]->isComplete()) {
             return true;
         }
 
@@ -232,11 +236,17 @@ bool Dasher::generateInitSegment(unsigned int id, DashSegmenter* segmenter)
             utils::errorMsg("Error writing DASH segment to disk: invalid path");
             return false;
         }
+
+        initSegments[id]->setComplete(false);
     }
 
     if ((aSeg = dynamic_cast<DashAudioSegmenter*>(segmenter)) != NULL) {
 
-        if (!aSeg->generateInitSegment(initSegments[id])) {
+        if (aSeg->generateInitSegment(initSegments[id])) {
+            initSegments[id]->setComplete(true);
+        }
+
+        if (!initSegments[id]->isComplete()) {
             return true;
         }
 
@@ -244,6 +254,8 @@ bool Dasher::generateInitSegment(unsigned int id, DashSegmenter* segmenter)
             utils::errorMsg("Error writing DASH segment to disk: invalid path");
             return false;
         }
+
+        initSegments[id]->setComplete(false);
     }
 
     if (!vSeg && !aSeg) {
-- 
2.43.0


From 4709900f7cdf663596569b16fc13c52c472d288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:17 +0000
Subject: [PATCH 075/160] fix: the DASH audio init segment was written again
 with every frame

---
 src/modules/dasher/DashAudioSegmenter.cpp | 8 +++++---
 src/modules/dasher/DashAudioSegmenter.hh  | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 74c1354..77aa007 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -24,7 +24,8 @@
  #include "DashAudioSegmenter.hh"
 
 DashAudioSegmenter::DashAudioSegmenter(std::chrono::seconds segDur, std::chrono::microseconds offset) :
-DashSegmenter(segDur, 0, offset)
+DashSegmenter(segDur, 0, offset), metadataSet(false), profile(0), audioObjectType(0),
+samplingFrequencyIndex(0), channelConfiguration(0)
 {
 
 }
@@ -181,12 +182,13 @@ bool DashAudioSegmenter::updateExtradata(AudioFrame* aFrame)
         return false;
     }
 
-    if (profile == getProfileFromADTSHeader(data) && samplingFrequencyIndex == getSamplingFreqIdxFromADTSHeader(data) &&
-        channelConfiguration == getChannelConfFromADTSHeader(data) && !extradata.empty())
+    if (metadataSet && profile == getProfileFromADTSHeader(data) && samplingFrequencyIndex == getSamplingFreqIdxFromADTSHeader(data) &&
+        channelConfiguration == getChannelConfFromADTSHeader(data))
     {
         return true;
     }
 
+    metadataSet = true;
     profile = getProfileFromADTSHeader(data);
     audioObjectType = profile + 1;
     samplingFrequencyIndex = getSamplingFreqIdxFromADTSHeader(data);
diff --git a/src/modules/dasher/DashAudioSegmenter.hh b/src/modules/dasher/DashAudioSegmenter.hh
index 87ddc0c..d204b92 100644
--- a/src/modules/dasher/DashAudioSegmenter.hh
+++ b/src/modules/dasher/DashAudioSegmenter.hh
@@ -85,6 +85,7 @@ private:
     unsigned char getExtradata1stByte(unsigned char audioObjectType, unsigned char samplingFrequencyIndex);
     unsigned char getExtradata2ndByte(unsigned char samplingFrequencyIndex, unsigned char channelConfiguration);
 
+    bool metadataSet;
     unsigned char profile;
     unsigned char audioObjectType;
     unsigned char samplingFrequencyIndex;
-- 
2.43.0


From 982baf937244cebc592a6fc367ec102ae1269698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:02 +0000
Subject: [PATCH 076/160] fix: a DASH audio segment whose buffers are full was
 never closed

---
 src/modules/dasher/i2context.h | 1 +
 src/modules/dasher/i2libdash.c | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/dasher/i2context.h b/src/modules/dasher/i2context.h
index 7b40862..e7b4c5a 100644
--- a/src/modules/dasher/i2context.h
+++ b/src/modules/dasher/i2context.h
@@ -33,6 +33,7 @@ typedef unsigned char byte;
 #define MAX_MDAT_SAMPLE 65536   //H265 -> 119296
 #define MAX_DAT (10*1024*1024)
 #define MAX_SEGMENT_HEADERS 1024    // boxes around the payload, without the sample table
+#define MAX_AUDIO_SAMPLE 8192       // an ADTS frame has at most 8191 bytes
 #define MAX_SAMPLE_ENTRY 16         // bytes of a sample in the sample table
 //TODO: error negative values
 #define I2ERROR_MAX 10
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index e9f9791..5b57211 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -395,7 +395,8 @@ uint32_t generate_audio_segment(byte *output_data, i2ctx **context, uint64_t* se
         return I2ERROR_DESTINATION_NULL;
     }
 
-    if ((*context)->duration <= (*context)->ctxaudio->current_audio_duration) { 
+    if ((*context)->duration <= (*context)->ctxaudio->current_audio_duration ||
+        !sample_fits((*context)->ctxaudio->segment_data_size, (*context)->ctxaudio->ctxsample->mdat_sample_length, MAX_AUDIO_SAMPLE)) {
 
         segDataLength = segmentGenerator((*context)->ctxaudio->segment_data, (*context)->ctxaudio->segment_data_size, output_data, AUDIO_TYPE, context);
 
-- 
2.43.0


From 5e403206d4812b7c6b6a7a0097aeef38403c7e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:47 +0000
Subject: [PATCH 077/160] fix: stopping the pipeline used paths that were
 already deleted

---
 src/PipelineManager.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index d31b288..983641a 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -79,14 +79,15 @@ bool PipelineManager::stop()
     pool->stop();
     utils::infoMsg("All threads stopped");
     
-    for (auto it : paths) {
-        if (!deletePath(it.first)) {
-            utils::errorMsg("Failed deleting path " + std::to_string(it.first));
+    while (!paths.empty()) {
+        int id = paths.begin()->first;
+
+        if (!deletePath(id)) {
+            utils::errorMsg("Failed deleting path " + std::to_string(id));
             return false;
         }
     }
 
-    paths.clear();
     utils::infoMsg("Paths deleted");
 
     for (auto it : filters) {
@@ -379,13 +380,7 @@ bool PipelineManager::removePath(int id)
         return true;
     }
 
-    if (!deletePath(id)) {
-        return false;
-    }
-
-    paths.erase(id);
-
-    return true;
+    return deletePath(id);
 }
 
 bool PipelineManager::removeFilter(int id)
@@ -476,6 +471,7 @@ bool PipelineManager::deletePath(int id)
         filters.erase(orgFilterId);
     }
 
+    paths.erase(id);
     delete path;
 
     return true;
-- 
2.43.0


From 0a8d6634355f53ee2f5b439412bafa58adbdeb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:47 +0000
Subject: [PATCH 078/160] fix: removing a path could break other paths sharing
 its filters or left its origin connected

---
 src/Path.cpp            |   6 +++
 src/Path.hh             |  24 ++++++++++
 src/PipelineManager.cpp | 103 ++++++++++++++++++++++++----------------
 src/PipelineManager.hh  |   2 +
 4 files changed, 93 insertions(+), 42 deletions(-)

diff --git a/src/Path.cpp b/src/Path.cpp
index 1b13316..df54c05 100644
--- a/src/Path.cpp
+++ b/src/Path.cpp
@@ -47,6 +47,12 @@ void Path::setDestinationFilter(int destinationFilterID, int dstReaderID)
     this->dstReaderID = dstReaderID;
 }
 
+void Path::addLink(int wFilterId, int writerId, int rFilterId, int readerId)
+{
+    PathLink link = {wFilterId, writerId, rFilterId, readerId};
+    links.push_back(link);
+}
+
 bool Path::hasFilter(int fId)
 {
     if (std::find(filterIDs.begin(), filterIDs.end(), fId) != filterIDs.end()){
diff --git a/src/Path.hh b/src/Path.hh
index a7f4777..a063f1d 100644
--- a/src/Path.hh
+++ b/src/Path.hh
@@ -26,6 +26,14 @@
 
 #include <vector>
 
+/*! A connection between the writer of a filter and the reader of another */
+struct PathLink {
+    int wFilterId;
+    int writerId;
+    int rFilterId;
+    int readerId;
+};
+
 /*! Path class determines the pipeline configuration, filters interconnections
     and data paths.
 */
@@ -85,6 +93,21 @@ public:
     */
     bool hasFilter(int fId);
 
+    /**
+    * Records a connection made between two consecutive filters of the path
+    */
+    void addLink(int wFilterId, int writerId, int rFilterId, int readerId);
+
+    /**
+    * Gets the connections made, from origin to destination
+    */
+    const std::vector<PathLink>& getLinks() const {return links;};
+
+    /**
+    * Forgets the connections made
+    */
+    void clearLinks() {links.clear();};
+
 protected:
     void addFilterID(int filterID);
 
@@ -94,6 +117,7 @@ private:
     int orgWriterID;
     int dstReaderID;
     std::vector<int> filterIDs;
+    std::vector<PathLink> links;
 };
 
 
diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 983641a..18a8cc6 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -304,9 +304,13 @@ bool PipelineManager::connectPath(int id)
         }
     }
 
+    if (!path->getLinks().empty()) {
+        utils::errorMsg("[PipelineManager::connectPath] Path is already connected");
+        return false;
+    }
+
     if (pathFilters.empty()) {
-        if (filters[orgFilterId]->connectManyToMany(filters[dstFilterId], path->getDstReaderID(), path->getOrgWriterID()) ||
-            handleGrouping(orgFilterId, dstFilterId, path->getOrgWriterID(), path->getDstReaderID())) {
+        if (connectLink(path, orgFilterId, dstFilterId, path->getOrgWriterID(), path->getDstReaderID(), true)) {
             return true;
         } else {
             utils::errorMsg("Connecting head to tail!");
@@ -314,20 +318,22 @@ bool PipelineManager::connectPath(int id)
         }
     }
 
-    if (!filters[orgFilterId]->connectManyToOne(filters[pathFilters.front()], path->getOrgWriterID()) &&
-        !handleGrouping(orgFilterId, pathFilters.front(), path->getOrgWriterID(), DEFAULT_ID)) {
+    if (!connectLink(path, orgFilterId, pathFilters.front(), path->getOrgWriterID(), 
+                     filters[pathFilters.front()]->generateReaderID(), true)) {
         utils::errorMsg("Connecting path head to first filter!");
         return false;
     }
 
     for (unsigned i = 0; i < pathFilters.size() - 1; i++) {
-        if (!filters[pathFilters[i]]->connectOneToOne(filters[pathFilters[i+1]])) {
+        if (!connectLink(path, pathFilters[i], pathFilters[i+1], filters[pathFilters[i]]->generateWriterID(), 
+                         filters[pathFilters[i+1]]->generateReaderID(), false)) {
             utils::errorMsg("Connecting path filters!");
             return false;
         }
     }
 
-    if (!filters[pathFilters.back()]->connectOneToMany(filters[dstFilterId], path->getDstReaderID())) {
+    if (!connectLink(path, pathFilters.back(), dstFilterId, filters[pathFilters.back()]->generateWriterID(), 
+                     path->getDstReaderID(), false)) {
         utils::errorMsg("Connecting path last filter to path tail!");
         return false;
     }
@@ -335,6 +341,36 @@ bool PipelineManager::connectPath(int id)
     return true;
 }
 
+bool PipelineManager::connectLink(Path *path, int orgFId, int dstFId, int orgWId, int dstRId, bool grouping)
+{
+    if (!filters[orgFId]->connectManyToMany(filters[dstFId], dstRId, orgWId) &&
+        (!grouping || !handleGrouping(orgFId, dstFId, orgWId, dstRId))) {
+        return false;
+    }
+
+    path->addLink(orgFId, orgWId, dstFId, dstRId);
+    return true;
+}
+
+void PipelineManager::disconnectLinks(Path *path)
+{
+    std::vector<PathLink> links = path->getLinks();
+    std::vector<PathLink>::reverse_iterator rit = links.rbegin();
+
+    for (; rit != links.rend(); ++rit) {
+        if (!filters[rit->rFilterId]->disconnectReader(rit->readerId)) {
+            utils::errorMsg("Error disconnecting path!");
+        }
+
+        //the writer might still have other readers, those of the paths sharing it
+        if (!filters[rit->wFilterId]->isWConnected(rit->writerId)) {
+            filters[rit->wFilterId]->disconnectWriter(rit->writerId);
+        }
+    }
+
+    path->clearLinks();
+}
+
 bool PipelineManager::handleGrouping(int orgFId, int dstFId, int orgWId, int dstRId)
 {
     ConnectionData cData;
@@ -431,48 +467,31 @@ bool PipelineManager::deletePath(int id)
         }
     }
 
-    if(!filters[dstFilterId]->disconnectReader(path->getDstReaderID())) {
-        utils::errorMsg("Error disconnecting path tail!");
-        return false;
-    }
+    disconnectLinks(path);
+    paths.erase(id);
+    delete path;
     
-    std::vector<int>::reverse_iterator rit = pathFilters.rbegin();
-    for (; rit!= pathFilters.rend(); ++rit){
-        filters[*rit]->disconnectReader(DEFAULT_ID);
-        pool->removeTask(*rit);
-        delete filters[*rit];
-        filters.erase(*rit);
+    std::vector<int> candidates(pathFilters.rbegin(), pathFilters.rend());
+    candidates.push_back(dstFilterId);
+    if (orgFilterId != dstFilterId){
+        candidates.push_back(orgFilterId);
     }
     
-    bool deleteOrig = true;
-    bool deleteDst = true;
-    
-    for(auto it : paths){
-        if (it.first == id){
-            continue;
-        }
-        if (it.second->hasFilter(orgFilterId)){
-            deleteOrig = false;
+    for (auto fId : candidates){
+        bool used = false;
+        
+        for (auto it : paths){
+            if (it.second->hasFilter(fId)){
+                used = true;
+            }
         }
-        if (it.second->hasFilter(dstFilterId)){
-            deleteDst = false;
+        
+        if (!used){
+            pool->removeTask(fId);
+            delete filters[fId];
+            filters.erase(fId);
         }
     }
-    
-    if (deleteDst){
-        pool->removeTask(dstFilterId);
-        delete filters[dstFilterId];
-        filters.erase(dstFilterId);
-    }
-    
-    if (deleteOrig){
-        pool->removeTask(orgFilterId);
-        delete filters[orgFilterId];
-        filters.erase(orgFilterId);
-    }
-
-    paths.erase(id);
-    delete path;
 
     return true;
 }
diff --git a/src/PipelineManager.hh b/src/PipelineManager.hh
index 5276943..caaa8ca 100644
--- a/src/PipelineManager.hh
+++ b/src/PipelineManager.hh
@@ -188,6 +188,8 @@ private:
     bool deletePath(int id);
     bool createFilter(int id, FilterType type);
     
+    bool connectLink(Path *path, int orgFId, int dstFId, int orgWId, int dstRId, bool grouping);
+    void disconnectLinks(Path *path);
     bool handleGrouping(int orgFId, int dstFId, int orgWId, int dstRId);
     bool validCData(ConnectionData cData, int orgFId, int dstFId);
 
-- 
2.43.0


From b599ef5dc2d6985e9769fa15cdc982bb35ec0142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:47 +0000
Subject: [PATCH 079/160] fix: a path that could not be connected stayed half
 connected and registered

---
 src/PipelineManager.cpp | 23 ++++++++++++++++++-----
 src/PipelineManager.hh  |  1 +
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 18a8cc6..ef6fe4d 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -293,6 +293,22 @@ bool PipelineManager::connectPath(int id)
     }
 
     Path* path = paths[id];
+
+    if (!path->getLinks().empty()) {
+        utils::errorMsg("[PipelineManager::connectPath] Path is already connected");
+        return false;
+    }
+
+    if (!connectLinks(path)) {
+        disconnectLinks(path);
+        return false;
+    }
+
+    return true;
+}
+
+bool PipelineManager::connectLinks(Path *path)
+{
     int orgFilterId = path->getOriginFilterID();
     int dstFilterId = path->getDestinationFilterID();
 
@@ -304,11 +320,6 @@ bool PipelineManager::connectPath(int id)
         }
     }
 
-    if (!path->getLinks().empty()) {
-        utils::errorMsg("[PipelineManager::connectPath] Path is already connected");
-        return false;
-    }
-
     if (pathFilters.empty()) {
         if (connectLink(path, orgFilterId, dstFilterId, path->getOrgWriterID(), path->getDstReaderID(), true)) {
             return true;
@@ -622,6 +633,8 @@ void PipelineManager::createPathEvent(Jzon::Node* params, Jzon::Object &outputNo
     }
 
     if (!connectPath(id)) {
+        delete paths[id];
+        paths.erase(id);
         outputNode.Add("error", "Error connecting path. Better pray Jesus...");
         return;
     }
diff --git a/src/PipelineManager.hh b/src/PipelineManager.hh
index caaa8ca..57a68b2 100644
--- a/src/PipelineManager.hh
+++ b/src/PipelineManager.hh
@@ -189,6 +189,7 @@ private:
     bool createFilter(int id, FilterType type);
     
     bool connectLink(Path *path, int orgFId, int dstFId, int orgWId, int dstRId, bool grouping);
+    bool connectLinks(Path *path);
     void disconnectLinks(Path *path);
     bool handleGrouping(int orgFId, int dstFId, int orgWId, int dstRId);
     bool validCData(ConnectionData cData, int orgFId, int dstFId);
-- 
2.43.0


From f28109d93d5064f40afcbcd29228799911e8d01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:47 +0000
Subject: [PATCH 080/160] fix: events sent by a running filter raced with the
 removal of the filter they are for

---
 src/Filter.cpp          | 10 +++----
 src/PipelineManager.cpp | 59 +++++++++++++++++++++++++++++++----------
 src/PipelineManager.hh  |  8 ++++++
 3 files changed, 56 insertions(+), 21 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 12bd141..f9df4ec 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -789,14 +789,10 @@ bool BaseFilter::demandOriginFramesFrameTime(std::map<int, Frame*> &oFrames, std
 
 void BaseFilter::sendEvent(Event e, int readerId)
 {
-    std::lock_guard<std::mutex> guard(mtx);
-    ConnectionData cData;
+    std::shared_ptr<Reader> reader = getReader(readerId);
     
-    if (readers.count(readerId)<= 0){
-        return;
-    }
-    if (readers[readerId]->isConnected()){
-        cData = readers[readerId]->getQueue()->getCData();
+    if (reader && reader->isConnected()){
+        ConnectionData cData = reader->getQueue()->getCData();
         PipelineManager::getInstance()->processFilterEvent(e, cData.wFilterId);
     }
 }
diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index ef6fe4d..631a8f0 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -40,7 +40,7 @@
 
 #define WORKER_DELETE_SLEEPING_TIME 1000 //us
 
-PipelineManager::PipelineManager(const unsigned thds) : threads(thds)
+PipelineManager::PipelineManager(const unsigned thds) : threads(thds), pushingEvents(0)
 {
     pipeMngrInstance = this;
     pool = new WorkersPool(threads);
@@ -90,11 +90,10 @@ bool PipelineManager::stop()
 
     utils::infoMsg("Paths deleted");
 
-    for (auto it : filters) {
-        delete it.second;
+    while (!filters.empty()) {
+        deleteFilter(filters.begin()->first);
     }
 
-    filters.clear();
     utils::infoMsg("Filters deleted");
     
     if (pool){
@@ -200,7 +199,10 @@ bool PipelineManager::addFilter(int id, BaseFilter* filter)
         return false;
     }
     
-    filters[id] = filter;
+    {
+        std::lock_guard<std::mutex> guard(filtersMtx);
+        filters[id] = filter;
+    }
 
     if (!pool){
         utils::warningMsg("Creating new thread pool!");
@@ -448,9 +450,7 @@ bool PipelineManager::removeFilter(int id)
         }
     }
     
-    pool->removeTask(id);
-    filters.erase(id);
-    delete filter;
+    deleteFilter(id);
 
     return true;
 }
@@ -498,15 +498,30 @@ bool PipelineManager::deletePath(int id)
         }
         
         if (!used){
-            pool->removeTask(fId);
-            delete filters[fId];
-            filters.erase(fId);
+            deleteFilter(fId);
         }
     }
 
     return true;
 }
 
+void PipelineManager::deleteFilter(int id)
+{
+    BaseFilter *filter = filters[id];
+
+    pool->removeTask(id);
+
+    {
+        std::unique_lock<std::mutex> guard(filtersMtx);
+        filters.erase(id);
+        while (pushingEvents > 0) {
+            eventPushed.wait(guard);
+        }
+    }
+
+    delete filter;
+}
+
 void PipelineManager::getStateEvent(Jzon::Node* params, Jzon::Object &outputNode)
 {
     Jzon::Array filterList;
@@ -748,10 +763,26 @@ void PipelineManager::processEvent(Jzon::Object event, Jzon::Object &outputNode)
 
 bool PipelineManager::processFilterEvent(Event event, int filterId)
 {
-    if (filters.count(filterId) <= 0){
-        return false;
+    BaseFilter *filter;
+
+    {
+        std::lock_guard<std::mutex> guard(filtersMtx);
+
+        if (filters.count(filterId) <= 0){
+            return false;
+        }
+
+        filter = filters[filterId];
+        pushingEvents++;
+    }
+
+    filter->pushEvent(event);
+
+    {
+        std::lock_guard<std::mutex> guard(filtersMtx);
+        pushingEvents--;
     }
 
-    filters[filterId]->pushEvent(event);
+    eventPushed.notify_all();
     return true;
 }
diff --git a/src/PipelineManager.hh b/src/PipelineManager.hh
index 57a68b2..863f0c0 100644
--- a/src/PipelineManager.hh
+++ b/src/PipelineManager.hh
@@ -30,6 +30,8 @@
 #include "WorkersPool.hh"
 
 #include <map>
+#include <mutex>
+#include <condition_variable>
 
 /*! PipelineManager class is a singleton class that presents the relation
     between the data flow, control and execution layers. It has all related
@@ -186,6 +188,7 @@ private:
     PipelineManager(unsigned threads = 0);
     ~PipelineManager();
     bool deletePath(int id);
+    void deleteFilter(int id);
     bool createFilter(int id, FilterType type);
     
     bool connectLink(Path *path, int orgFId, int dstFId, int orgWId, int dstRId, bool grouping);
@@ -200,6 +203,11 @@ private:
     std::map<int, Path*> paths;
     std::map<int, BaseFilter*> filters;
     WorkersPool *pool;
+
+    //filters might send events to others while these are removed
+    std::mutex filtersMtx;
+    std::condition_variable eventPushed;
+    unsigned pushingEvents;
 };
 
 #endif
-- 
2.43.0


From 7d88e6a137931b825aff455ef32f050fb6b47a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:01 +0000
Subject: [PATCH 081/160] fix: a filter could be connected to itself by sharing
 its output

---
 src/PipelineManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 631a8f0..a145abb 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -404,7 +404,7 @@ bool PipelineManager::handleGrouping(int orgFId, int dstFId, int orgWId, int dst
 
 bool PipelineManager::validCData(ConnectionData cData, int orgFId, int dstFId)
 {
-    if (orgFId != cData.wFilterId) {
+    if (orgFId != cData.wFilterId || orgFId == dstFId) {
         return false;
     }
     
-- 
2.43.0


From 81537ff2762ef49fcf3c9445ff9bded5a0f994f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:11 +0000
Subject: [PATCH 082/160] fix: a JSON string ending in an escaped backslash
 swallowed what follows

---
 src/Jzon.cpp | 2623 +++++++++++++++++++++++++-------------------------
 1 file changed, 1311 insertions(+), 1312 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index d6c888a..9781b44 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1,1313 +1,1312 @@
-/*
-Copyright (c) 2013 Johannes Häggqvist
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in
-all copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
-THE SOFTWARE.
-*/
-#include "Jzon.h"
-
-#include <sstream>
-#include <fstream>
-#include <stack>
-#include <algorithm>
-
-namespace Jzon
-{
-	class FormatInterpreter
-	{
-	public:
-		FormatInterpreter()
-		{
-			SetFormat(NoFormat);
-		}
-		FormatInterpreter(const Format &format)
-		{
-			SetFormat(format);
-		}
-
-		void SetFormat(const Format &format)
-		{
-			this->format = format;
-			indentationChar = (format.useTabs ? '\t' : ' ');
-			spacing = (format.spacing ? " " : "");
-			newline = (format.newline ? "\n" : spacing);
-		}
-
-		std::string GetIndentation(unsigned int level) const
-		{
-			if (!format.newline)
-			{
-				return "";
-			}
-			else
-			{
-				return std::string(format.indentSize * level, indentationChar);
-			}
-		}
-		
-		inline const std::string &GetNewline() const
-		{
-			return newline;
-		}
-		inline const std::string &GetSpacing() const
-		{
-			return spacing;
-		}
-
-	private:
-		Format format;
-		char indentationChar;
-		std::string newline;
-		std::string spacing;
-	};
-
-	void RemoveWhitespace(const std::string &json, std::string &freshJson)
-	{
-		freshJson.clear();
-
-		bool comment = false;
-		int multicomment = 0;
-		bool inString = false;
-
-		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
-		{
-			char c0 = '\0';
-			char c1 = (*it);
-			char c2 = '\0';
-			if (it != json.begin())
-				c0 = (*(it-1));
-			if (it+1 != json.end())
-				c2 = (*(it+1));
-
-			if (c0 != '\\' && c1 == '"')
-			{
-				inString = !inString;
-			}
-
-			if (!inString)
-			{
-				if (c1 == '/' && c2 == '*')
-				{
-					++multicomment;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (c1 == '*' && c2 == '/')
-				{
-					--multicomment;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (c1 == '/' && c2 == '/')
-				{
-					comment = true;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (c1 == '\n')
-				{
-					comment = false;
-				}
-			}
-
-			if (comment || multicomment > 0)
-				continue;
-
-			if (inString)
-			{
-				freshJson += c1;
-			}
-			else
-			{
-				if ((c1 != '\n')&&(c1 != ' ')&&(c1 != '\t')&&(c1 != '\r')&&(c1 != '\f'))
-					freshJson += c1;
-			}
-		}
-	}
-
-	Node::Node()
-	{
-	}
-	Node::~Node()
-	{
-	}
-
-	Object &Node::AsObject()
-	{
-		if (IsObject())
-			return static_cast<Object&>(*this);
-		else
-			throw TypeException();
-	}
-	const Object &Node::AsObject() const
-	{
-		if (IsObject())
-			return static_cast<const Object&>(*this);
-		else
-			throw TypeException();
-	}
-	Array &Node::AsArray()
-	{
-		if (IsArray())
-			return static_cast<Array&>(*this);
-		else
-			throw TypeException();
-	}
-	const Array &Node::AsArray() const
-	{
-		if (IsArray())
-			return static_cast<const Array&>(*this);
-		else
-			throw TypeException();
-	}
-	Value &Node::AsValue()
-	{
-		if (IsValue())
-			return static_cast<Value&>(*this);
-		else
-			throw TypeException();
-	}
-	const Value &Node::AsValue() const
-	{
-		if (IsValue())
-			return static_cast<const Value&>(*this);
-		else
-			throw TypeException();
-	}
-
-	Node::Type Node::DetermineType(const std::string &_json)
-	{
-		std::string json;
-		RemoveWhitespace(_json, json);
-
-		Node::Type type = T_VALUE;
-		if (!json.empty())
-		{
-			switch (json.at(0))
-			{
-			case '{' : type = T_OBJECT; break;
-			case '[' : type = T_ARRAY; break;
-			}
-		}
-
-		return type;
-	}
-
-
-	Value::Value()
-	{
-		SetNull();
-	}
-	Value::Value(const Value &rhs)
-	{
-		Set(rhs);
-	}
-	Value::Value(const Node &rhs)
-	{
-		const Value &value = rhs.AsValue();
-		Set(value);
-	}
-	Value::Value(ValueType type, const std::string &value)
-	{
-		Set(type, value);
-	}
-	Value::Value(const std::string &value)
-	{
-		Set(value);
-	}
-	Value::Value(const char *value)
-	{
-		Set(value);
-	}
-	Value::Value(const int value)
-	{
-		Set(value);
-	}
-	Value::Value(const float value)
-	{
-		Set(value);
-	}
-	Value::Value(const double value)
-	{
-		Set(value);
-	}
-	Value::Value(const bool value)
-	{
-		Set(value);
-	}
-	Value::~Value()
-	{
-	}
-
-	Node::Type Value::GetType() const
-	{
-		return T_VALUE;
-	}
-	Value::ValueType Value::GetValueType() const
-	{
-		return type;
-	}
-
-	std::string Value::ToString() const
-	{
-		if (IsNull())
-			return "null";
-		else
-			return valueStr;
-	}
-	int Value::ToInt() const
-	{
-		if (IsNull())
-			return 0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				int val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	float Value::ToFloat() const
-	{
-		if (IsNull())
-			return 0.0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				float val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	double Value::ToDouble() const
-	{
-		if (IsNull())
-			return 0.0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				double val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	bool Value::ToBool() const
-	{
-		if (IsNull())
-			return false;
-		else
-			if (IsBool())
-				return (valueStr == "true");
-			else
-				throw ValueException();
-	}
-
-	void Value::SetNull()
-	{
-		valueStr = "";
-		type     = VT_NULL;
-	}
-	void Value::Set(const Value &value)
-	{
-		if (this != &value)
-		{
-			valueStr = value.valueStr;
-			type     = value.type;
-		}
-	}
-	void Value::Set(ValueType type, const std::string &value)
-	{
-		valueStr   = value;
-		this->type = type;
-	}
-	void Value::Set(const std::string &value)
-	{
-		valueStr = UnescapeString(value);
-		type     = VT_STRING;
-	}
-	void Value::Set(const char *value)
-	{
-		valueStr = UnescapeString(std::string(value));
-		type     = VT_STRING;
-	}
-	void Value::Set(const int value)
-	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const float value)
-	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const double value)
-	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const bool value)
-	{
-		if (value)
-			valueStr = "true";
-		else
-			valueStr = "false";
-		type = VT_BOOL;
-	}
-
-	Value &Value::operator=(const Value &rhs)
-	{
-		if (this != &rhs)
-			Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const Node &rhs)
-	{
-		if (this != &rhs)
-			Set(rhs.AsValue());
-		return *this;
-	}
-	Value &Value::operator=(const std::string &rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const char *rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const int rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const float rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const double rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const bool rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-
-	bool Value::operator==(const Value &other) const
-	{
-		return ((type == other.type)&&(valueStr == other.valueStr));
-	}
-	bool Value::operator!=(const Value &other) const
-	{
-		return !(*this == other);
-	}
-
-	Node *Value::GetCopy() const
-	{
-		return new Value(*this);
-	}
-
-	// This is not the most beautiful place for these, but it'll do
-	static const char charsUnescaped[] = { '\\'  , '/'  , '\"'  , '\n' , '\t' , '\b' , '\f' , '\r' };
-	static const char *charsEscaped[]  = { "\\\\", "\\/", "\\\"", "\\n", "\\t", "\\b", "\\f", "\\r" };
-	static const unsigned int numEscapeChars = 8;
-	static const char nullUnescaped = '\0';
-	static const char *nullEscaped  = "\0\0";
-	const char *&getEscaped(const char &c)
-	{
-		for (unsigned int i = 0; i < numEscapeChars; ++i)
-		{
-			const char &ue = charsUnescaped[i];
-
-			if (c == ue)
-			{
-				const char *&e = charsEscaped[i];
-				return e;
-			}
-		}
-		return nullEscaped;
-	}
-	const char &getUnescaped(const char &c1, const char &c2)
-	{
-		for (unsigned int i = 0; i < numEscapeChars; ++i)
-		{
-			const char *&e = charsEscaped[i];
-
-			if (c1 == e[0] && c2 == e[1])
-			{
-				const char &ue = charsUnescaped[i];
-				return ue;
-			}
-		}
-		return nullUnescaped;
-	}
-
-	std::string Value::EscapeString(const std::string &value)
-	{
-		std::string escaped;
-
-		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-		{
-			const char &c = (*it);
-
-			const char *&a = getEscaped(c);
-			if (a[0] != '\0')
-			{
-				escaped += a[0];
-				escaped += a[1];
-			}
-			else
-			{
-				escaped += c;
-			}
-		}
-
-		return escaped;
-	}
-	std::string Value::UnescapeString(const std::string &value)
-	{
-		std::string unescaped;
-
-		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-		{
-			const char &c = (*it);
-			char c2 = '\0';
-			if (it+1 != value.end())
-				c2 = *(it+1);
-
-			const char &a = getUnescaped(c, c2);
-			if (a != '\0')
-			{
-				unescaped += a;
-				if (it+1 != value.end())
-					++it;
-			}
-			else
-			{
-				unescaped += c;
-			}
-		}
-
-		return unescaped;
-	}
-
-
-	Object::Object()
-	{
-	}
-	Object::Object(const Object &other)
-	{
-		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			Node &value = *(*it).second;
-
-			children.push_back(std::make_pair(name, value.GetCopy()));
-		}
-	}
-	Object::Object(const Node &other)
-	{
-		const Object &object = other.AsObject();
-
-		for (ChildList::const_iterator it = object.children.begin(); it != object.children.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			Node &value = *(*it).second;
-
-			children.push_back(std::make_pair(name, value.GetCopy()));
-		}
-	}
-	Object::~Object()
-	{
-		Clear();
-	}
-
-	Node::Type Object::GetType() const
-	{
-		return T_OBJECT;
-	}
-
-	void Object::Add(const std::string &name, Node &node)
-	{
-		children.push_back(std::make_pair(name, node.GetCopy()));
-	}
-	void Object::Add(const std::string &name, Value node)
-	{
-		children.push_back(std::make_pair(name, new Value(node)));
-	}
-	void Object::Remove(const std::string &name)
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				delete (*it).second;
-				children.erase(it);
-				break;
-			}
-		}
-	}
-	void Object::Clear()
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			delete (*it).second;
-			(*it).second = NULL;
-		}
-		children.clear();
-	}
-
-	Object::iterator Object::begin()
-	{
-		if (!children.empty())
-			return Object::iterator(&children.front());
-		else
-			return Object::iterator(NULL);
-	}
-	Object::const_iterator Object::begin() const
-	{
-		if (!children.empty())
-			return Object::const_iterator(&children.front());
-		else
-			return Object::const_iterator(NULL);
-	}
-	Object::iterator Object::end()
-	{
-		if (!children.empty())
-			return Object::iterator(&children.back()+1);
-		else
-			return Object::iterator(NULL);
-	}
-	Object::const_iterator Object::end() const
-	{
-		if (!children.empty())
-			return Object::const_iterator(&children.back()+1);
-		else
-			return Object::const_iterator(NULL);
-	}
-
-	bool Object::Has(const std::string &name) const
-	{
-		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				return true;
-			}
-		}
-		return false;
-	}
-	size_t Object::GetCount() const
-	{
-		return children.size();
-	}
-	Node &Object::Get(const std::string &name) const
-	{
-		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				return *(*it).second;
-			}
-		}
-		
-		throw NotFoundException();
-	}
-
-	Node *Object::GetCopy() const
-	{
-		return new Object(*this);
-	}
-
-
-	Array::Array()
-	{
-	}
-	Array::Array(const Array &other)
-	{
-		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
-		{
-			const Node &value = *(*it);
-
-			children.push_back(value.GetCopy());
-		}
-	}
-	Array::Array(const Node &other)
-	{
-		const Array &array = other.AsArray();
-
-		for (ChildList::const_iterator it = array.children.begin(); it != array.children.end(); ++it)
-		{
-			const Node &value = *(*it);
-
-			children.push_back(value.GetCopy());
-		}
-	}
-	Array::~Array()
-	{
-		Clear();
-	}
-
-	Node::Type Array::GetType() const
-	{
-		return T_ARRAY;
-	}
-
-	void Array::Add(Node &node)
-	{
-		children.push_back(node.GetCopy());
-	}
-	void Array::Add(Value node)
-	{
-		children.push_back(new Value(node));
-	}
-	void Array::Remove(size_t index)
-	{
-		if (index < children.size())
-		{
-			ChildList::iterator it = children.begin()+index;
-			delete (*it);
-			children.erase(it);
-		}
-	}
-	void Array::Clear()
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			delete (*it);
-			(*it) = NULL;
-		}
-		children.clear();
-	}
-
-	Array::iterator Array::begin()
-	{
-		if (!children.empty())
-			return Array::iterator(&children.front());
-		else
-			return Array::iterator(NULL);
-	}
-	Array::const_iterator Array::begin() const
-	{
-		if (!children.empty())
-			return Array::const_iterator(&children.front());
-		else
-			return Array::const_iterator(NULL);
-	}
-	Array::iterator Array::end()
-	{
-		if (!children.empty())
-			return Array::iterator(&children.back()+1);
-		else
-			return Array::iterator(NULL);
-	}
-	Array::const_iterator Array::end() const
-	{
-		if (!children.empty())
-			return Array::const_iterator(&children.back()+1);
-		else
-			return Array::const_iterator(NULL);
-	}
-
-	size_t Array::GetCount() const
-	{
-		return children.size();
-	}
-	Node &Array::Get(size_t index) const
-	{
-		if (index < children.size())
-		{
-			return *children.at(index);
-		}
-
-		throw NotFoundException();
-	}
-
-	Node *Array::GetCopy() const
-	{
-		return new Array(*this);
-	}
-
-
-	FileWriter::FileWriter(const std::string &filename) : filename(filename)
-	{
-	}
-	FileWriter::~FileWriter()
-	{
-	}
-
-	void FileWriter::WriteFile(const std::string &filename, const Node &root, const Format &format)
-	{
-		FileWriter writer(filename);
-		writer.Write(root, format);
-	}
-
-	void FileWriter::Write(const Node &root, const Format &format)
-	{
-		Writer writer(root, format);
-		writer.Write();
-
-		std::fstream file(filename.c_str(), std::ios::out | std::ios::trunc);
-		file << writer.GetResult();
-		file.close();
-	}
-
-
-	FileReader::FileReader(const std::string &filename)
-	{
-		if (!loadFile(filename, json))
-		{
-			error = "Failed to load file";
-		}
-	}
-	FileReader::~FileReader()
-	{
-	}
-
-	bool FileReader::ReadFile(const std::string &filename, Node &node)
-	{
-		FileReader reader(filename);
-		return reader.Read(node);
-	}
-
-	bool FileReader::Read(Node &node)
-	{
-		if (!error.empty())
-			return false;
-
-		Parser parser(node, json);
-		if (!parser.Parse())
-		{
-			error = parser.GetError();
-			return false;
-		}
-		else
-		{
-			return true;
-		}
-	}
-
-	Node::Type FileReader::DetermineType()
-	{
-		return Node::DetermineType(json);
-	}
-
-	const std::string &FileReader::GetError() const
-	{
-		return error;
-	}
-
-	bool FileReader::loadFile(const std::string &filename, std::string &json)
-	{
-		std::fstream file(filename.c_str(), std::ios::in | std::ios::binary);
-
-		if (!file.is_open())
-		{
-			return false;
-		}
-
-		file.seekg(0, std::ios::end);
-		std::ios::pos_type size = file.tellg();
-		file.seekg(0, std::ios::beg);
-
-		json.resize(static_cast<std::string::size_type>(size), '\0');
-		file.read(&json[0], size);
-
-		return true;
-	}
-
-
-	Writer::Writer(const Node &root, const Format &format) : fi(new FormatInterpreter), root(root)
-	{
-		SetFormat(format);
-	}
-	Writer::~Writer()
-	{
-		delete fi;
-		fi = NULL;
-	}
-
-	void Writer::SetFormat(const Format &format)
-	{
-		fi->SetFormat(format);
-	}
-	void Writer::Write()
-	{
-		result.clear();
-		writeNode(root, 0);
-	}
-
-	const std::string &Writer::GetResult() const
-	{
-		return result;
-	}
-
-	void Writer::writeNode(const Node &node, unsigned int level)
-	{
-		switch (node.GetType())
-		{
-		case Node::T_OBJECT : writeObject(node.AsObject(), level); break;
-		case Node::T_ARRAY  : writeArray(node.AsArray(), level);   break;
-		case Node::T_VALUE  : writeValue(node.AsValue());          break;
-		}
-	}
-	void Writer::writeObject(const Object &node, unsigned int level)
-	{
-		result += "{" + fi->GetNewline();
-
-		for (Object::const_iterator it = node.begin(); it != node.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			const Node &value = (*it).second;
-
-			if (it != node.begin())
-				result += "," + fi->GetNewline();
-			result += fi->GetIndentation(level+1) + "\""+name+"\"" + ":" + fi->GetSpacing();
-			writeNode(value, level+1);
-		}
-
-		result += fi->GetNewline() + fi->GetIndentation(level) + "}";
-	}
-	void Writer::writeArray(const Array &node, unsigned int level)
-	{
-		result += "[" + fi->GetNewline();
-
-		for (Array::const_iterator it = node.begin(); it != node.end(); ++it)
-		{
-			const Node &value = (*it);
-
-			if (it != node.begin())
-				result += "," + fi->GetNewline();
-			result += fi->GetIndentation(level+1);
-			writeNode(value, level+1);
-		}
-
-		result += fi->GetNewline() + fi->GetIndentation(level) + "]";
-	}
-	void Writer::writeValue(const Value &node)
-	{
-		if (node.IsString())
-		{
-			result += "\""+Value::EscapeString(node.ToString())+"\"";
-		}
-		else
-		{
-			result += node.ToString();
-		}
-	}
-
-
-	Parser::Parser(Node &root) : root(root)
-	{
-	}
-	Parser::Parser(Node &root, const std::string &json) : root(root)
-	{
-		SetJson(json);
-	}
-	Parser::~Parser()
-	{
-	}
-
-	void Parser::SetJson(const std::string &json)
-	{
-		RemoveWhitespace(json, this->json);
-	}
-	bool Parser::Parse()
-	{
-		cursor = 0;
-
-		tokenize();
-		bool success = assemble();
-
-		return success;
-	}
-
-	const std::string &Parser::GetError() const
-	{
-		return error;
-	}
-
-	void Parser::tokenize()
-	{
-		Token token;
-		std::string valueBuffer;
-		bool saveBuffer;
-
-		for (; cursor < json.size(); ++cursor)
-		{
-			char c = json.at(cursor);
-
-			saveBuffer = true;
-
-			switch (c)
-			{
-			case '{' :
-				{
-					token = T_OBJ_BEGIN;
-					break;
-				}
-			case '}' :
-				{
-					token = T_OBJ_END;
-					break;
-				}
-			case '[' :
-				{
-					token = T_ARRAY_BEGIN;
-					break;
-				}
-			case ']' :
-				{
-					token = T_ARRAY_END;
-					break;
-				}
-			case ',' :
-				{
-					token = T_SEPARATOR_NODE;
-					break;
-				}
-			case ':' :
-				{
-					token = T_SEPARATOR_NAME;
-					break;
-				}
-			case '"' :
-				{
-					token = T_VALUE;
-					readString();
-					break;
-				}
-			default :
-				{
-					valueBuffer += c;
-					saveBuffer = false;
-					break;
-				}
-			}
-
-			if ((saveBuffer || cursor == json.size()-1) && (!valueBuffer.empty())) // Always save buffer on the last character
-			{
-				if (interpretValue(valueBuffer))
-				{
-					tokens.push(T_VALUE);
-				}
-				else
-				{
-					// Store the unknown token, so we can show it to the user
-					data.push(std::make_pair(Value::VT_STRING, valueBuffer));
-					tokens.push(T_UNKNOWN);
-				}
-
-				valueBuffer.clear();
-			}
-
-			// Push the token last so that any
-			// value token will get pushed first
-			// from above.
-			// If saveBuffer is false, it means that
-			// we are in the middle of a value, so we
-			// don't want to push any tokens now.
-			if (saveBuffer)
-			{
-				tokens.push(token);
-			}
-		}
-	}
-	bool Parser::assemble()
-	{
-		std::stack<std::pair<std::string, Node*> > nodeStack;
-
-		std::string name = "";
-
-		Token token;
-		while (!tokens.empty())
-		{
-			token = tokens.front();
-			tokens.pop();
-
-			switch (token)
-			{
-			case T_UNKNOWN :
-				{
-					const std::string &unknownToken = data.front().second;
-					error = "Unknown token: "+unknownToken;
-					data.pop();
-					return false;
-				}
-			case T_OBJ_BEGIN :
-				{
-					Node *node = NULL;
-					if (nodeStack.empty())
-					{
-						if (!root.IsObject())
-						{
-							error = "The given root node is not an object";
-							return false;
-						}
-
-						node = &root;
-					}
-					else
-					{
-						node = new Object;
-					}
-
-					nodeStack.push(std::make_pair(name, node));
-					name.clear();
-					break;
-				}
-			case T_ARRAY_BEGIN :
-				{
-					Node *node = NULL;
-					if (nodeStack.empty())
-					{
-						if (!root.IsArray())
-						{
-							error = "The given root node is not an array";
-							return false;
-						}
-
-						node = &root;
-					}
-					else
-					{
-						node = new Array;
-					}
-
-					nodeStack.push(std::make_pair(name, node));
-					name.clear();
-					break;
-				}
-			case T_OBJ_END :
-			case T_ARRAY_END :
-				{
-					if (nodeStack.empty())
-					{
-						error = "Found end of object or array without beginning";
-						return false;
-					}
-					if (token == T_OBJ_END && !nodeStack.top().second->IsObject())
-					{
-						error = "Mismatched end and beginning of object";
-						return false;
-					}
-					if (token == T_ARRAY_END && !nodeStack.top().second->IsArray())
-					{
-						error = "Mismatched end and beginning of array";
-						return false;
-					}
-
-					std::string name = nodeStack.top().first;
-					Node *node = nodeStack.top().second;
-					nodeStack.pop();
-
-					if (!nodeStack.empty())
-					{
-						if (nodeStack.top().second->IsObject())
-						{
-							nodeStack.top().second->AsObject().Add(name, *node);
-						}
-						else if (nodeStack.top().second->IsArray())
-						{
-							nodeStack.top().second->AsArray().Add(*node);
-						}
-						else
-						{
-							error = "Can only add elements to objects and arrays";
-							return false;
-						}
-
-						delete node;
-						node = NULL;
-					}
-					break;
-				}
-			case T_VALUE :
-				{
-					if (!tokens.empty() && tokens.front() == T_SEPARATOR_NAME)
-					{
-						tokens.pop();
-						if (data.front().first != Value::VT_STRING)
-						{
-							error = "A name has to be a string";
-							return false;
-						}
-						else
-						{
-							name = data.front().second;
-							data.pop();
-						}
-					}
-					else
-					{
-						Node *node = NULL;
-						if (nodeStack.empty())
-						{
-							if (!root.IsValue())
-							{
-								error = "The given root node is not a value";
-								return false;
-							}
-
-							node = &root;
-						}
-						else
-						{
-							node = new Value;
-						}
-
-						if (data.front().first == Value::VT_STRING)
-						{
-							static_cast<Value*>(node)->Set(data.front().second); // This method calls UnescapeString()
-						}
-						else
-						{
-							static_cast<Value*>(node)->Set(data.front().first, data.front().second);
-						}
-						data.pop();
-
-						if (!nodeStack.empty())
-						{
-							if (nodeStack.top().second->IsObject())
-								nodeStack.top().second->AsObject().Add(name, *node);
-							else if (nodeStack.top().second->IsArray())
-								nodeStack.top().second->AsArray().Add(*node);
-
-							delete node;
-							node = NULL;
-							name.clear();
-						}
-						else
-						{
-							nodeStack.push(std::make_pair(name, node));
-							name.clear();
-						}
-					}
-					break;
-				}
-			case T_SEPARATOR_NAME :
-			case T_SEPARATOR_NODE : break;
-			}
-		}
-
-		return true;
-	}
-
-	void Parser::readString()
-	{
-		if (json.at(cursor) != '"')
-			return;
-
-		std::string str;
-
-		++cursor;
-
-		char c1 = '\0';
-		for (; cursor < json.size(); ++cursor)
-		{
-			char c2 = json.at(cursor);
-
-			if (c1 != '\\' && c2 == '"')
-			{
-				break;
-			}
-
-			str += c2;
-
-			c1 = c2;
-		}
-
-		data.push(std::make_pair(Value::VT_STRING, str));
-	}
-
-	bool Parser::interpretValue(const std::string &value)
-	{
-		std::string upperValue(value.size(), '\0');
-
-		std::transform(value.begin(), value.end(), upperValue.begin(), toupper);
-
-		if (upperValue == "NULL")
-		{
-			data.push(std::make_pair(Value::VT_NULL, ""));
-		}
-		else if (upperValue == "TRUE")
-		{
-			data.push(std::make_pair(Value::VT_BOOL, "true"));
-		}
-		else if (upperValue == "FALSE")
-		{
-			data.push(std::make_pair(Value::VT_BOOL, "false"));
-		}
-		else
-		{
-			bool number = true;
-			for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-			{
-				if (!isNumber(*it))
-				{
-					number = false;
-					break;
-				}
-			}
-
-			if (number)
-			{
-				data.push(std::make_pair(Value::VT_NUMBER, value));
-			}
-			else
-			{
-				return false;
-			}
-		}
-
-		return true;
-	}
-
-	bool Parser::isNumber(char c) const
-	{
-		return ((c >= '0' && c <= '9') || c == '.' || c == '-');
-	}
+/*
+Copyright (c) 2013 Johannes Häggqvist
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in
+all copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
+THE SOFTWARE.
+*/
+#include "Jzon.h"
+
+#include <sstream>
+#include <fstream>
+#include <stack>
+#include <algorithm>
+
+namespace Jzon
+{
+	class FormatInterpreter
+	{
+	public:
+		FormatInterpreter()
+		{
+			SetFormat(NoFormat);
+		}
+		FormatInterpreter(const Format &format)
+		{
+			SetFormat(format);
+		}
+
+		void SetFormat(const Format &format)
+		{
+			this->format = format;
+			indentationChar = (format.useTabs ? '\t' : ' ');
+			spacing = (format.spacing ? " " : "");
+			newline = (format.newline ? "\n" : spacing);
+		}
+
+		std::string GetIndentation(unsigned int level) const
+		{
+			if (!format.newline)
+			{
+				return "";
+			}
+			else
+			{
+				return std::string(format.indentSize * level, indentationChar);
+			}
+		}
+		
+		inline const std::string &GetNewline() const
+		{
+			return newline;
+		}
+		inline const std::string &GetSpacing() const
+		{
+			return spacing;
+		}
+
+	private:
+		Format format;
+		char indentationChar;
+		std::string newline;
+		std::string spacing;
+	};
+
+	void RemoveWhitespace(const std::string &json, std::string &freshJson)
+	{
+		freshJson.clear();
+
+		bool comment = false;
+		int multicomment = 0;
+		bool inString = false;
+		bool escaped = false;
+
+		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
+		{
+			char c1 = (*it);
+			char c2 = '\0';
+			if (it+1 != json.end())
+				c2 = (*(it+1));
+
+			if (!escaped && c1 == '"')
+			{
+				inString = !inString;
+			}
+			escaped = (inString && !escaped && c1 == '\\');
+
+			if (!inString)
+			{
+				if (c1 == '/' && c2 == '*')
+				{
+					++multicomment;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (c1 == '*' && c2 == '/')
+				{
+					--multicomment;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (c1 == '/' && c2 == '/')
+				{
+					comment = true;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (c1 == '\n')
+				{
+					comment = false;
+				}
+			}
+
+			if (comment || multicomment > 0)
+				continue;
+
+			if (inString)
+			{
+				freshJson += c1;
+			}
+			else
+			{
+				if ((c1 != '\n')&&(c1 != ' ')&&(c1 != '\t')&&(c1 != '\r')&&(c1 != '\f'))
+					freshJson += c1;
+			}
+		}
+	}
+
+	Node::Node()
+	{
+	}
+	Node::~Node()
+	{
+	}
+
+	Object &Node::AsObject()
+	{
+		if (IsObject())
+			return static_cast<Object&>(*this);
+		else
+			throw TypeException();
+	}
+	const Object &Node::AsObject() const
+	{
+		if (IsObject())
+			return static_cast<const Object&>(*this);
+		else
+			throw TypeException();
+	}
+	Array &Node::AsArray()
+	{
+		if (IsArray())
+			return static_cast<Array&>(*this);
+		else
+			throw TypeException();
+	}
+	const Array &Node::AsArray() const
+	{
+		if (IsArray())
+			return static_cast<const Array&>(*this);
+		else
+			throw TypeException();
+	}
+	Value &Node::AsValue()
+	{
+		if (IsValue())
+			return static_cast<Value&>(*this);
+		else
+			throw TypeException();
+	}
+	const Value &Node::AsValue() const
+	{
+		if (IsValue())
+			return static_cast<const Value&>(*this);
+		else
+			throw TypeException();
+	}
+
+	Node::Type Node::DetermineType(const std::string &_json)
+	{
+		std::string json;
+		RemoveWhitespace(_json, json);
+
+		Node::Type type = T_VALUE;
+		if (!json.empty())
+		{
+			switch (json.at(0))
+			{
+			case '{' : type = T_OBJECT; break;
+			case '[' : type = T_ARRAY; break;
+			}
+		}
+
+		return type;
+	}
+
+
+	Value::Value()
+	{
+		SetNull();
+	}
+	Value::Value(const Value &rhs)
+	{
+		Set(rhs);
+	}
+	Value::Value(const Node &rhs)
+	{
+		const Value &value = rhs.AsValue();
+		Set(value);
+	}
+	Value::Value(ValueType type, const std::string &value)
+	{
+		Set(type, value);
+	}
+	Value::Value(const std::string &value)
+	{
+		Set(value);
+	}
+	Value::Value(const char *value)
+	{
+		Set(value);
+	}
+	Value::Value(const int value)
+	{
+		Set(value);
+	}
+	Value::Value(const float value)
+	{
+		Set(value);
+	}
+	Value::Value(const double value)
+	{
+		Set(value);
+	}
+	Value::Value(const bool value)
+	{
+		Set(value);
+	}
+	Value::~Value()
+	{
+	}
+
+	Node::Type Value::GetType() const
+	{
+		return T_VALUE;
+	}
+	Value::ValueType Value::GetValueType() const
+	{
+		return type;
+	}
+
+	std::string Value::ToString() const
+	{
+		if (IsNull())
+			return "null";
+		else
+			return valueStr;
+	}
+	int Value::ToInt() const
+	{
+		if (IsNull())
+			return 0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				int val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	float Value::ToFloat() const
+	{
+		if (IsNull())
+			return 0.0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				float val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	double Value::ToDouble() const
+	{
+		if (IsNull())
+			return 0.0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				double val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	bool Value::ToBool() const
+	{
+		if (IsNull())
+			return false;
+		else
+			if (IsBool())
+				return (valueStr == "true");
+			else
+				throw ValueException();
+	}
+
+	void Value::SetNull()
+	{
+		valueStr = "";
+		type     = VT_NULL;
+	}
+	void Value::Set(const Value &value)
+	{
+		if (this != &value)
+		{
+			valueStr = value.valueStr;
+			type     = value.type;
+		}
+	}
+	void Value::Set(ValueType type, const std::string &value)
+	{
+		valueStr   = value;
+		this->type = type;
+	}
+	void Value::Set(const std::string &value)
+	{
+		valueStr = UnescapeString(value);
+		type     = VT_STRING;
+	}
+	void Value::Set(const char *value)
+	{
+		valueStr = UnescapeString(std::string(value));
+		type     = VT_STRING;
+	}
+	void Value::Set(const int value)
+	{
+		std::stringstream sstr;
+		sstr << value;
+		valueStr = sstr.str();
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const float value)
+	{
+		std::stringstream sstr;
+		sstr << value;
+		valueStr = sstr.str();
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const double value)
+	{
+		std::stringstream sstr;
+		sstr << value;
+		valueStr = sstr.str();
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const bool value)
+	{
+		if (value)
+			valueStr = "true";
+		else
+			valueStr = "false";
+		type = VT_BOOL;
+	}
+
+	Value &Value::operator=(const Value &rhs)
+	{
+		if (this != &rhs)
+			Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const Node &rhs)
+	{
+		if (this != &rhs)
+			Set(rhs.AsValue());
+		return *this;
+	}
+	Value &Value::operator=(const std::string &rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const char *rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const int rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const float rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const double rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const bool rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+
+	bool Value::operator==(const Value &other) const
+	{
+		return ((type == other.type)&&(valueStr == other.valueStr));
+	}
+	bool Value::operator!=(const Value &other) const
+	{
+		return !(*this == other);
+	}
+
+	Node *Value::GetCopy() const
+	{
+		return new Value(*this);
+	}
+
+	// This is not the most beautiful place for these, but it'll do
+	static const char charsUnescaped[] = { '\\'  , '/'  , '\"'  , '\n' , '\t' , '\b' , '\f' , '\r' };
+	static const char *charsEscaped[]  = { "\\\\", "\\/", "\\\"", "\\n", "\\t", "\\b", "\\f", "\\r" };
+	static const unsigned int numEscapeChars = 8;
+	static const char nullUnescaped = '\0';
+	static const char *nullEscaped  = "\0\0";
+	const char *&getEscaped(const char &c)
+	{
+		for (unsigned int i = 0; i < numEscapeChars; ++i)
+		{
+			const char &ue = charsUnescaped[i];
+
+			if (c == ue)
+			{
+				const char *&e = charsEscaped[i];
+				return e;
+			}
+		}
+		return nullEscaped;
+	}
+	const char &getUnescaped(const char &c1, const char &c2)
+	{
+		for (unsigned int i = 0; i < numEscapeChars; ++i)
+		{
+			const char *&e = charsEscaped[i];
+
+			if (c1 == e[0] && c2 == e[1])
+			{
+				const char &ue = charsUnescaped[i];
+				return ue;
+			}
+		}
+		return nullUnescaped;
+	}
+
+	std::string Value::EscapeString(const std::string &value)
+	{
+		std::string escaped;
+
+		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+		{
+			const char &c = (*it);
+
+			const char *&a = getEscaped(c);
+			if (a[0] != '\0')
+			{
+				escaped += a[0];
+				escaped += a[1];
+			}
+			else
+			{
+				escaped += c;
+			}
+		}
+
+		return escaped;
+	}
+	std::string Value::UnescapeString(const std::string &value)
+	{
+		std::string unescaped;
+
+		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+		{
+			const char &c = (*it);
+			char c2 = '\0';
+			if (it+1 != value.end())
+				c2 = *(it+1);
+
+			const char &a = getUnescaped(c, c2);
+			if (a != '\0')
+			{
+				unescaped += a;
+				if (it+1 != value.end())
+					++it;
+			}
+			else
+			{
+				unescaped += c;
+			}
+		}
+
+		return unescaped;
+	}
+
+
+	Object::Object()
+	{
+	}
+	Object::Object(const Object &other)
+	{
+		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			Node &value = *(*it).second;
+
+			children.push_back(std::make_pair(name, value.GetCopy()));
+		}
+	}
+	Object::Object(const Node &other)
+	{
+		const Object &object = other.AsObject();
+
+		for (ChildList::const_iterator it = object.children.begin(); it != object.children.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			Node &value = *(*it).second;
+
+			children.push_back(std::make_pair(name, value.GetCopy()));
+		}
+	}
+	Object::~Object()
+	{
+		Clear();
+	}
+
+	Node::Type Object::GetType() const
+	{
+		return T_OBJECT;
+	}
+
+	void Object::Add(const std::string &name, Node &node)
+	{
+		children.push_back(std::make_pair(name, node.GetCopy()));
+	}
+	void Object::Add(const std::string &name, Value node)
+	{
+		children.push_back(std::make_pair(name, new Value(node)));
+	}
+	void Object::Remove(const std::string &name)
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				delete (*it).second;
+				children.erase(it);
+				break;
+			}
+		}
+	}
+	void Object::Clear()
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			delete (*it).second;
+			(*it).second = NULL;
+		}
+		children.clear();
+	}
+
+	Object::iterator Object::begin()
+	{
+		if (!children.empty())
+			return Object::iterator(&children.front());
+		else
+			return Object::iterator(NULL);
+	}
+	Object::const_iterator Object::begin() const
+	{
+		if (!children.empty())
+			return Object::const_iterator(&children.front());
+		else
+			return Object::const_iterator(NULL);
+	}
+	Object::iterator Object::end()
+	{
+		if (!children.empty())
+			return Object::iterator(&children.back()+1);
+		else
+			return Object::iterator(NULL);
+	}
+	Object::const_iterator Object::end() const
+	{
+		if (!children.empty())
+			return Object::const_iterator(&children.back()+1);
+		else
+			return Object::const_iterator(NULL);
+	}
+
+	bool Object::Has(const std::string &name) const
+	{
+		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				return true;
+			}
+		}
+		return false;
+	}
+	size_t Object::GetCount() const
+	{
+		return children.size();
+	}
+	Node &Object::Get(const std::string &name) const
+	{
+		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				return *(*it).second;
+			}
+		}
+		
+		throw NotFoundException();
+	}
+
+	Node *Object::GetCopy() const
+	{
+		return new Object(*this);
+	}
+
+
+	Array::Array()
+	{
+	}
+	Array::Array(const Array &other)
+	{
+		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
+		{
+			const Node &value = *(*it);
+
+			children.push_back(value.GetCopy());
+		}
+	}
+	Array::Array(const Node &other)
+	{
+		const Array &array = other.AsArray();
+
+		for (ChildList::const_iterator it = array.children.begin(); it != array.children.end(); ++it)
+		{
+			const Node &value = *(*it);
+
+			children.push_back(value.GetCopy());
+		}
+	}
+	Array::~Array()
+	{
+		Clear();
+	}
+
+	Node::Type Array::GetType() const
+	{
+		return T_ARRAY;
+	}
+
+	void Array::Add(Node &node)
+	{
+		children.push_back(node.GetCopy());
+	}
+	void Array::Add(Value node)
+	{
+		children.push_back(new Value(node));
+	}
+	void Array::Remove(size_t index)
+	{
+		if (index < children.size())
+		{
+			ChildList::iterator it = children.begin()+index;
+			delete (*it);
+			children.erase(it);
+		}
+	}
+	void Array::Clear()
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			delete (*it);
+			(*it) = NULL;
+		}
+		children.clear();
+	}
+
+	Array::iterator Array::begin()
+	{
+		if (!children.empty())
+			return Array::iterator(&children.front());
+		else
+			return Array::iterator(NULL);
+	}
+	Array::const_iterator Array::begin() const
+	{
+		if (!children.empty())
+			return Array::const_iterator(&children.front());
+		else
+			return Array::const_iterator(NULL);
+	}
+	Array::iterator Array::end()
+	{
+		if (!children.empty())
+			return Array::iterator(&children.back()+1);
+		else
+			return Array::iterator(NULL);
+	}
+	Array::const_iterator Array::end() const
+	{
+		if (!children.empty())
+			return Array::const_iterator(&children.back()+1);
+		else
+			return Array::const_iterator(NULL);
+	}
+
+	size_t Array::GetCount() const
+	{
+		return children.size();
+	}
+	Node &Array::Get(size_t index) const
+	{
+		if (index < children.size())
+		{
+			return *children.at(index);
+		}
+
+		throw NotFoundException();
+	}
+
+	Node *Array::GetCopy() const
+	{
+		return new Array(*this);
+	}
+
+
+	FileWriter::FileWriter(const std::string &filename) : filename(filename)
+	{
+	}
+	FileWriter::~FileWriter()
+	{
+	}
+
+	void FileWriter::WriteFile(const std::string &filename, const Node &root, const Format &format)
+	{
+		FileWriter writer(filename);
+		writer.Write(root, format);
+	}
+
+	void FileWriter::Write(const Node &root, const Format &format)
+	{
+		Writer writer(root, format);
+		writer.Write();
+
+		std::fstream file(filename.c_str(), std::ios::out | std::ios::trunc);
+		file << writer.GetResult();
+		file.close();
+	}
+
+
+	FileReader::FileReader(const std::string &filename)
+	{
+		if (!loadFile(filename, json))
+		{
+			error = "Failed to load file";
+		}
+	}
+	FileReader::~FileReader()
+	{
+	}
+
+	bool FileReader::ReadFile(const std::string &filename, Node &node)
+	{
+		FileReader reader(filename);
+		return reader.Read(node);
+	}
+
+	bool FileReader::Read(Node &node)
+	{
+		if (!error.empty())
+			return false;
+
+		Parser parser(node, json);
+		if (!parser.Parse())
+		{
+			error = parser.GetError();
+			return false;
+		}
+		else
+		{
+			return true;
+		}
+	}
+
+	Node::Type FileReader::DetermineType()
+	{
+		return Node::DetermineType(json);
+	}
+
+	const std::string &FileReader::GetError() const
+	{
+		return error;
+	}
+
+	bool FileReader::loadFile(const std::string &filename, std::string &json)
+	{
+		std::fstream file(filename.c_str(), std::ios::in | std::ios::binary);
+
+		if (!file.is_open())
+		{
+			return false;
+		}
+
+		file.seekg(0, std::ios::end);
+		std::ios::pos_type size = file.tellg();
+		file.seekg(0, std::ios::beg);
+
+		json.resize(static_cast<std::string::size_type>(size), '\0');
+		file.read(&json[0], size);
+
+		return true;
+	}
+
+
+	Writer::Writer(const Node &root, const Format &format) : fi(new FormatInterpreter), root(root)
+	{
+		SetFormat(format);
+	}
+	Writer::~Writer()
+	{
+		delete fi;
+		fi = NULL;
+	}
+
+	void Writer::SetFormat(const Format &format)
+	{
+		fi->SetFormat(format);
+	}
+	void Writer::Write()
+	{
+		result.clear();
+		writeNode(root, 0);
+	}
+
+	const std::string &Writer::GetResult() const
+	{
+		return result;
+	}
+
+	void Writer::writeNode(const Node &node, unsigned int level)
+	{
+		switch (node.GetType())
+		{
+		case Node::T_OBJECT : writeObject(node.AsObject(), level); break;
+		case Node::T_ARRAY  : writeArray(node.AsArray(), level);   break;
+		case Node::T_VALUE  : writeValue(node.AsValue());          break;
+		}
+	}
+	void Writer::writeObject(const Object &node, unsigned int level)
+	{
+		result += "{" + fi->GetNewline();
+
+		for (Object::const_iterator it = node.begin(); it != node.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			const Node &value = (*it).second;
+
+			if (it != node.begin())
+				result += "," + fi->GetNewline();
+			result += fi->GetIndentation(level+1) + "\""+name+"\"" + ":" + fi->GetSpacing();
+			writeNode(value, level+1);
+		}
+
+		result += fi->GetNewline() + fi->GetIndentation(level) + "}";
+	}
+	void Writer::writeArray(const Array &node, unsigned int level)
+	{
+		result += "[" + fi->GetNewline();
+
+		for (Array::const_iterator it = node.begin(); it != node.end(); ++it)
+		{
+			const Node &value = (*it);
+
+			if (it != node.begin())
+				result += "," + fi->GetNewline();
+			result += fi->GetIndentation(level+1);
+			writeNode(value, level+1);
+		}
+
+		result += fi->GetNewline() + fi->GetIndentation(level) + "]";
+	}
+	void Writer::writeValue(const Value &node)
+	{
+		if (node.IsString())
+		{
+			result += "\""+Value::EscapeString(node.ToString())+"\"";
+		}
+		else
+		{
+			result += node.ToString();
+		}
+	}
+
+
+	Parser::Parser(Node &root) : root(root)
+	{
+	}
+	Parser::Parser(Node &root, const std::string &json) : root(root)
+	{
+		SetJson(json);
+	}
+	Parser::~Parser()
+	{
+	}
+
+	void Parser::SetJson(const std::string &json)
+	{
+		RemoveWhitespace(json, this->json);
+	}
+	bool Parser::Parse()
+	{
+		cursor = 0;
+
+		tokenize();
+		bool success = assemble();
+
+		return success;
+	}
+
+	const std::string &Parser::GetError() const
+	{
+		return error;
+	}
+
+	void Parser::tokenize()
+	{
+		Token token;
+		std::string valueBuffer;
+		bool saveBuffer;
+
+		for (; cursor < json.size(); ++cursor)
+		{
+			char c = json.at(cursor);
+
+			saveBuffer = true;
+
+			switch (c)
+			{
+			case '{' :
+				{
+					token = T_OBJ_BEGIN;
+					break;
+				}
+			case '}' :
+				{
+					token = T_OBJ_END;
+					break;
+				}
+			case '[' :
+				{
+					token = T_ARRAY_BEGIN;
+					break;
+				}
+			case ']' :
+				{
+					token = T_ARRAY_END;
+					break;
+				}
+			case ',' :
+				{
+					token = T_SEPARATOR_NODE;
+					break;
+				}
+			case ':' :
+				{
+					token = T_SEPARATOR_NAME;
+					break;
+				}
+			case '"' :
+				{
+					token = T_VALUE;
+					readString();
+					break;
+				}
+			default :
+				{
+					valueBuffer += c;
+					saveBuffer = false;
+					break;
+				}
+			}
+
+			if ((saveBuffer || cursor == json.size()-1) && (!valueBuffer.empty())) // Always save buffer on the last character
+			{
+				if (interpretValue(valueBuffer))
+				{
+					tokens.push(T_VALUE);
+				}
+				else
+				{
+					// Store the unknown token, so we can show it to the user
+					data.push(std::make_pair(Value::VT_STRING, valueBuffer));
+					tokens.push(T_UNKNOWN);
+				}
+
+				valueBuffer.clear();
+			}
+
+			// Push the token last so that any
+			// value token will get pushed first
+			// from above.
+			// If saveBuffer is false, it means that
+			// we are in the middle of a value, so we
+			// don't want to push any tokens now.
+			if (saveBuffer)
+			{
+				tokens.push(token);
+			}
+		}
+	}
+	bool Parser::assemble()
+	{
+		std::stack<std::pair<std::string, Node*> > nodeStack;
+
+		std::string name = "";
+
+		Token token;
+		while (!tokens.empty())
+		{
+			token = tokens.front();
+			tokens.pop();
+
+			switch (token)
+			{
+			case T_UNKNOWN :
+				{
+					const std::string &unknownToken = data.front().second;
+					error = "Unknown token: "+unknownToken;
+					data.pop();
+					return false;
+				}
+			case T_OBJ_BEGIN :
+				{
+					Node *node = NULL;
+					if (nodeStack.empty())
+					{
+						if (!root.IsObject())
+						{
+							error = "The given root node is not an object";
+							return false;
+						}
+
+						node = &root;
+					}
+					else
+					{
+						node = new Object;
+					}
+
+					nodeStack.push(std::make_pair(name, node));
+					name.clear();
+					break;
+				}
+			case T_ARRAY_BEGIN :
+				{
+					Node *node = NULL;
+					if (nodeStack.empty())
+					{
+						if (!root.IsArray())
+						{
+							error = "The given root node is not an array";
+							return false;
+						}
+
+						node = &root;
+					}
+					else
+					{
+						node = new Array;
+					}
+
+					nodeStack.push(std::make_pair(name, node));
+					name.clear();
+					break;
+				}
+			case T_OBJ_END :
+			case T_ARRAY_END :
+				{
+					if (nodeStack.empty())
+					{
+						error = "Found end of object or array without beginning";
+						return false;
+					}
+					if (token == T_OBJ_END && !nodeStack.top().second->IsObject())
+					{
+						error = "Mismatched end and beginning of object";
+						return false;
+					}
+					if (token == T_ARRAY_END && !nodeStack.top().second->IsArray())
+					{
+						error = "Mismatched end and beginning of array";
+						return false;
+					}
+
+					std::string name = nodeStack.top().first;
+					Node *node = nodeStack.top().second;
+					nodeStack.pop();
+
+					if (!nodeStack.empty())
+					{
+						if (nodeStack.top().second->IsObject())
+						{
+							nodeStack.top().second->AsObject().Add(name, *node);
+						}
+						else if (nodeStack.top().second->IsArray())
+						{
+							nodeStack.top().second->AsArray().Add(*node);
+						}
+						else
+						{
+							error = "Can only add elements to objects and arrays";
+							return false;
+						}
+
+						delete node;
+						node = NULL;
+					}
+					break;
+				}
+			case T_VALUE :
+				{
+					if (!tokens.empty() && tokens.front() == T_SEPARATOR_NAME)
+					{
+						tokens.pop();
+						if (data.front().first != Value::VT_STRING)
+						{
+							error = "A name has to be a string";
+							return false;
+						}
+						else
+						{
+							name = data.front().second;
+							data.pop();
+						}
+					}
+					else
+					{
+						Node *node = NULL;
+						if (nodeStack.empty())
+						{
+							if (!root.IsValue())
+							{
+								error = "The given root node is not a value";
+								return false;
+							}
+
+							node = &root;
+						}
+						else
+						{
+							node = new Value;
+						}
+
+						if (data.front().first == Value::VT_STRING)
+						{
+							static_cast<Value*>(node)->Set(data.front().second); // This method calls UnescapeString()
+						}
+						else
+						{
+							static_cast<Value*>(node)->Set(data.front().first, data.front().second);
+						}
+						data.pop();
+
+						if (!nodeStack.empty())
+						{
+							if (nodeStack.top().second->IsObject())
+								nodeStack.top().second->AsObject().Add(name, *node);
+							else if (nodeStack.top().second->IsArray())
+								nodeStack.top().second->AsArray().Add(*node);
+
+							delete node;
+							node = NULL;
+							name.clear();
+						}
+						else
+						{
+							nodeStack.push(std::make_pair(name, node));
+							name.clear();
+						}
+					}
+					break;
+				}
+			case T_SEPARATOR_NAME :
+			case T_SEPARATOR_NODE : break;
+			}
+		}
+
+		return true;
+	}
+
+	void Parser::readString()
+	{
+		if (json.at(cursor) != '"')
+			return;
+
+		std::string str;
+
+		++cursor;
+
+		bool escaped = false;
+		for (; cursor < json.size(); ++cursor)
+		{
+			char c = json.at(cursor);
+
+			if (!escaped && c == '"')
+			{
+				break;
+			}
+
+			str += c;
+
+			escaped = (!escaped && c == '\\');
+		}
+
+		data.push(std::make_pair(Value::VT_STRING, str));
+	}
+
+	bool Parser::interpretValue(const std::string &value)
+	{
+		std::string upperValue(value.size(), '\0');
+
+		std::transform(value.begin(), value.end(), upperValue.begin(), toupper);
+
+		if (upperValue == "NULL")
+		{
+			data.push(std::make_pair(Value::VT_NULL, ""));
+		}
+		else if (upperValue == "TRUE")
+		{
+			data.push(std::make_pair(Value::VT_BOOL, "true"));
+		}
+		else if (upperValue == "FALSE")
+		{
+			data.push(std::make_pair(Value::VT_BOOL, "false"));
+		}
+		else
+		{
+			bool number = true;
+			for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+			{
+				if (!isNumber(*it))
+				{
+					number = false;
+					break;
+				}
+			}
+
+			if (number)
+			{
+				data.push(std::make_pair(Value::VT_NUMBER, value));
+			}
+			else
+			{
+				return false;
+			}
+		}
+
+		return true;
+	}
+
+	bool Parser::isNumber(char c) const
+	{
+		return ((c >= '0' && c <= '9') || c == '.' || c == '-');
+	}
 }
\ No newline at end of file
-- 
2.43.0


From 0173ff851a7fc114c1723ca03fd7f0449fc3ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:11 +0000
Subject: [PATCH 083/160] fix: quotes and comment marks inside JSON comments
 changed what is read

---
 src/Jzon.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 9781b44..6796707 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -92,7 +92,7 @@ namespace Jzon
 			if (it+1 != json.end())
 				c2 = (*(it+1));
 
-			if (!escaped && c1 == '"')
+			if (!escaped && c1 == '"' && !comment && multicomment == 0)
 			{
 				inString = !inString;
 			}
@@ -100,21 +100,21 @@ namespace Jzon
 
 			if (!inString)
 			{
-				if (c1 == '/' && c2 == '*')
+				if (!comment && c1 == '/' && c2 == '*')
 				{
 					++multicomment;
 					if (it+1 != json.end())
 						++it;
 					continue;
 				}
-				else if (c1 == '*' && c2 == '/')
+				else if (multicomment > 0 && c1 == '*' && c2 == '/')
 				{
 					--multicomment;
 					if (it+1 != json.end())
 						++it;
 					continue;
 				}
-				else if (c1 == '/' && c2 == '/')
+				else if (!comment && multicomment == 0 && c1 == '/' && c2 == '/')
 				{
 					comment = true;
 					if (it+1 != json.end())
-- 
2.43.0


From 3ec77e486067d847561446fb8e86f4ab245a1ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:11 +0000
Subject: [PATCH 084/160] fix: JSON values separated only by white space were
 joined into one

---
 src/Jzon.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 6796707..7e007b2 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -76,6 +76,11 @@ namespace Jzon
 		std::string spacing;
 	};
 
+	static bool isDelimiter(char c)
+	{
+		return (std::string("{}[],:\"").find(c) != std::string::npos);
+	}
+
 	void RemoveWhitespace(const std::string &json, std::string &freshJson)
 	{
 		freshJson.clear();
@@ -84,6 +89,7 @@ namespace Jzon
 		int multicomment = 0;
 		bool inString = false;
 		bool escaped = false;
+		bool gap = false;
 
 		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
 		{
@@ -105,6 +111,7 @@ namespace Jzon
 					++multicomment;
 					if (it+1 != json.end())
 						++it;
+					gap = true;
 					continue;
 				}
 				else if (multicomment > 0 && c1 == '*' && c2 == '/')
@@ -128,7 +135,10 @@ namespace Jzon
 			}
 
 			if (comment || multicomment > 0)
+			{
+				gap = true;
 				continue;
+			}
 
 			if (inString)
 			{
@@ -137,8 +147,19 @@ namespace Jzon
 			else
 			{
 				if ((c1 != '\n')&&(c1 != ' ')&&(c1 != '\t')&&(c1 != '\r')&&(c1 != '\f'))
+				{
+					// Keep two values apart if nothing else does
+					if (gap && !freshJson.empty() && !isDelimiter(freshJson[freshJson.size()-1]) && !isDelimiter(c1))
+						freshJson += ' ';
 					freshJson += c1;
+				}
+				else
+				{
+					gap = true;
+					continue;
+				}
 			}
+			gap = false;
 		}
 	}
 
@@ -1008,6 +1029,11 @@ namespace Jzon
 					token = T_SEPARATOR_NODE;
 					break;
 				}
+			case ' ' :
+				{
+					token = T_SEPARATOR_NODE;
+					break;
+				}
 			case ':' :
 				{
 					token = T_SEPARATOR_NAME;
-- 
2.43.0


From 3807fd84a9ac933b09b1498d80049b2f4c7bd8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:11 +0000
Subject: [PATCH 085/160] fix: a JSON value directly followed by a string was
 swapped with it

---
 src/Jzon.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 7e007b2..14f772f 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1042,7 +1042,6 @@ namespace Jzon
 			case '"' :
 				{
 					token = T_VALUE;
-					readString();
 					break;
 				}
 			default :
@@ -1077,6 +1076,8 @@ namespace Jzon
 			// don't want to push any tokens now.
 			if (saveBuffer)
 			{
+				if (token == T_VALUE)
+					readString();
 				tokens.push(token);
 			}
 		}
-- 
2.43.0


From 3c7ad1bcc0a1d40d9512ca52f2afd7f911307ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:11 +0000
Subject: [PATCH 086/160] fix: an unterminated JSON string was accepted

---
 src/Jzon.cpp |  10 +-
 src/Jzon.h   | 868 +++++++++++++++++++++++++--------------------------
 2 files changed, 440 insertions(+), 438 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 14f772f..5bfe8da 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1076,8 +1076,8 @@ namespace Jzon
 			// don't want to push any tokens now.
 			if (saveBuffer)
 			{
-				if (token == T_VALUE)
-					readString();
+				if (token == T_VALUE && !readString())
+					token = T_UNKNOWN;
 				tokens.push(token);
 			}
 		}
@@ -1262,10 +1262,10 @@ namespace Jzon
 		return true;
 	}
 
-	void Parser::readString()
+	bool Parser::readString()
 	{
 		if (json.at(cursor) != '"')
-			return;
+			return false;
 
 		std::string str;
 
@@ -1287,6 +1287,8 @@ namespace Jzon
 		}
 
 		data.push(std::make_pair(Value::VT_STRING, str));
+
+		return (cursor < json.size());
 	}
 
 	bool Parser::interpretValue(const std::string &value)
diff --git a/src/Jzon.h b/src/Jzon.h
index 629597c..d5afe70 100644
--- a/src/Jzon.h
+++ b/src/Jzon.h
@@ -1,434 +1,434 @@
-/*
-Copyright (c) 2013 Johannes Häggqvist
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in
-all copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
-THE SOFTWARE.
-*/
-#ifndef Jzon_h__
-#define Jzon_h__
-
-#include <string>
-#include <vector>
-#include <queue>
-#include <iterator>
-#include <stdexcept>
-
-namespace Jzon
-{
-	class Node;
-	class Value;
-	class Object;
-	class Array;
-	typedef std::pair<std::string, Node&> NamedNode;
-	typedef std::pair<std::string, Node*> NamedNodePtr;
-	
-	class TypeException : public std::logic_error
-	{
-	public:
-		TypeException() : std::logic_error("A Node was used as the wrong type")
-		{}
-	};
-	class ValueException : public std::logic_error
-	{
-	public:
-		ValueException() : std::logic_error("A Value was used as the wrong type")
-		{}
-	};
-	class NotFoundException : public std::out_of_range
-	{
-	public:
-		NotFoundException() : std::out_of_range("The node could not be found")
-		{}
-	};
-
-	struct Format
-	{
-		bool newline;
-		bool spacing;
-		bool useTabs;
-		unsigned int indentSize;
-	};
-	static const Format StandardFormat = { true, true, true, 1 };
-	static const Format NoFormat = { false, false, false, 0 };
-
-	class Node
-	{
-		friend class Object;
-		friend class Array;
-
-	public:
-		enum Type
-		{
-			T_OBJECT,
-			T_ARRAY,
-			T_VALUE
-		};
-
-		Node();
-		virtual ~Node();
-
-		virtual Type GetType() const = 0;
-
-		inline bool IsObject() const { return (GetType() == T_OBJECT); }
-		inline bool IsArray() const { return (GetType() == T_ARRAY); }
-		inline bool IsValue() const { return (GetType() == T_VALUE); }
-
-		Object &AsObject();
-		const Object &AsObject() const;
-		Array &AsArray();
-		const Array &AsArray() const;
-		Value &AsValue();
-		const Value &AsValue() const;
-
-		virtual inline bool IsNull() const { return false; }
-		virtual inline bool IsString() const { return false; }
-		virtual inline bool IsNumber() const { return false; }
-		virtual inline bool IsBool() const { return false; }
-
-		virtual std::string ToString() const { throw TypeException(); }
-		virtual int ToInt() const { throw TypeException(); }
-		virtual float ToFloat() const { throw TypeException(); }
-		virtual double ToDouble() const { throw TypeException(); }
-		virtual bool ToBool() const { throw TypeException(); }
-
-		virtual bool Has(const std::string &name) const { throw TypeException(); }
-		virtual size_t GetCount() const { return 0; }
-		virtual Node &Get(const std::string &name) const { throw TypeException(); }
-		virtual Node &Get(size_t index) const { throw TypeException(); }
-
-		static Type DetermineType(const std::string &json);
-
-	protected:
-		virtual Node *GetCopy() const = 0;
-	};
-
-	class Value : public Node
-	{
-	public:
-		enum ValueType
-		{
-			VT_NULL,
-			VT_STRING,
-			VT_NUMBER,
-			VT_BOOL
-		};
-
-		Value();
-		Value(const Value &rhs);
-		Value(const Node &rhs);
-		Value(ValueType type, const std::string &value);
-		Value(const std::string &value);
-		Value(const char *value);
-		Value(const int value);
-		Value(const float value);
-		Value(const double value);
-		Value(const bool value);
-		virtual ~Value();
-
-		virtual Type GetType() const;
-		ValueType GetValueType() const;
-
-		virtual inline bool IsNull() const { return (type == VT_NULL); }
-		virtual inline bool IsString() const { return (type == VT_STRING); }
-		virtual inline bool IsNumber() const { return (type == VT_NUMBER); }
-		virtual inline bool IsBool() const { return (type == VT_BOOL); }
-
-		virtual std::string ToString() const;
-		virtual int ToInt() const;
-		virtual float ToFloat() const;
-		virtual double ToDouble() const;
-		virtual bool ToBool() const;
-
-		void SetNull();
-		void Set(const Value &value);
-		void Set(ValueType type, const std::string &value);
-		void Set(const std::string &value);
-		void Set(const char *value);
-		void Set(const int value);
-		void Set(const float value);
-		void Set(const double value);
-		void Set(const bool value);
-
-		Value &operator=(const Value &rhs);
-		Value &operator=(const Node &rhs);
-		Value &operator=(const std::string &rhs);
-		Value &operator=(const char *rhs);
-		Value &operator=(const int rhs);
-		Value &operator=(const float rhs);
-		Value &operator=(const double rhs);
-		Value &operator=(const bool rhs);
-
-		bool operator==(const Value &other) const;
-		bool operator!=(const Value &other) const;
-
-		static std::string EscapeString(const std::string &value);
-		static std::string UnescapeString(const std::string &value);
-
-	protected:
-		virtual Node *GetCopy() const;
-
-	private:
-		std::string valueStr;
-		ValueType type;
-	};
-
-	static const Value null;
-
-	class Object : public Node
-	{
-	public:
-		class iterator : public std::iterator<std::input_iterator_tag, NamedNode>
-		{
-		public:
-			iterator(NamedNodePtr *o) : p(o) {}
-			iterator(const iterator &it) : p(it.p) {}
-
-			iterator &operator++() { ++p; return *this; }
-			iterator operator++(int) { iterator tmp(*this); operator++(); return tmp; }
-
-			bool operator==(const iterator &rhs) { return p == rhs.p; }
-			bool operator!=(const iterator &rhs) { return p != rhs.p; }
-
-			NamedNode operator*() { return NamedNode(p->first, *p->second); }
-
-		private:
-			NamedNodePtr *p;
-		};
-		class const_iterator : public std::iterator<std::input_iterator_tag, const NamedNode>
-		{
-		public:
-			const_iterator(const NamedNodePtr *o) : p(o) {}
-			const_iterator(const const_iterator &it) : p(it.p) {}
-
-			const_iterator &operator++() { ++p; return *this; }
-			const_iterator operator++(int) { const_iterator tmp(*this); operator++(); return tmp; }
-
-			bool operator==(const const_iterator &rhs) { return p == rhs.p; }
-			bool operator!=(const const_iterator &rhs) { return p != rhs.p; }
-
-			const NamedNode operator*() { return NamedNode(p->first, *p->second); }
-
-		private:
-			const NamedNodePtr *p;
-		};
-
-		Object();
-		Object(const Object &other);
-		Object(const Node &other);
-		virtual ~Object();
-
-		virtual Type GetType() const;
-
-		void Add(const std::string &name, Node &node);
-		void Add(const std::string &name, Value node);
-		void Remove(const std::string &name);
-		void Clear();
-
-		iterator begin();
-		const_iterator begin() const;
-		iterator end();
-		const_iterator end() const;
-
-		virtual bool Has(const std::string &name) const;
-		virtual size_t GetCount() const;
-		virtual Node &Get(const std::string &name) const;
-
-	protected:
-		virtual Node *GetCopy() const;
-
-	private:
-		typedef std::vector<NamedNodePtr> ChildList;
-		ChildList children;
-	};
-
-	class Array : public Node
-	{
-	public:
-		class iterator : public std::iterator<std::input_iterator_tag, Node>
-		{
-		public:
-			iterator(Node **o) : p(o) {}
-			iterator(const iterator &it) : p(it.p) {}
-
-			iterator &operator++() { ++p; return *this; }
-			iterator operator++(int) { iterator tmp(*this); operator++(); return tmp; }
-
-			bool operator==(const iterator &rhs) { return p == rhs.p; }
-			bool operator!=(const iterator &rhs) { return p != rhs.p; }
-
-			Node &operator*() { return **p; }
-
-		private:
-			Node **p;
-		};
-		class const_iterator : public std::iterator<std::input_iterator_tag, const Node>
-		{
-		public:
-			const_iterator(const Node *const *o) : p(o) {}
-			const_iterator(const const_iterator &it) : p(it.p) {}
-
-			const_iterator &operator++() { ++p; return *this; }
-			const_iterator operator++(int) { const_iterator tmp(*this); operator++(); return tmp; }
-
-			bool operator==(const const_iterator &rhs) { return p == rhs.p; }
-			bool operator!=(const const_iterator &rhs) { return p != rhs.p; }
-
-			const Node &operator*() { return **p; }
-
-		private:
-			const Node *const *p;
-		};
-
-		Array();
-		Array(const Array &other);
-		Array(const Node &other);
-		virtual ~Array();
-
-		virtual Type GetType() const;
-
-		void Add(Node &node);
-		void Add(Value node);
-		void Remove(size_t index);
-		void Clear();
-
-		iterator begin();
-		const_iterator begin() const;
-		iterator end();
-		const_iterator end() const;
-
-		virtual size_t GetCount() const;
-		virtual Node &Get(size_t index) const;
-
-	protected:
-		virtual Node *GetCopy() const;
-
-	private:
-		typedef std::vector<Node*> ChildList;
-		ChildList children;
-	};
-
-	class FileWriter
-	{
-	public:
-		FileWriter(const std::string &filename);
-		~FileWriter();
-
-		static void WriteFile(const std::string &filename, const Node &root, const Format &format = NoFormat);
-
-		void Write(const Node &root, const Format &format = NoFormat);
-
-	private:
-		std::string filename;
-	};
-
-	class FileReader
-	{
-	public:
-		FileReader(const std::string &filename);
-		~FileReader();
-
-		static bool ReadFile(const std::string &filename, Node &node);
-
-		bool Read(Node &node);
-
-		Node::Type DetermineType();
-
-		const std::string &GetError() const;
-
-	private:
-		bool loadFile(const std::string &filename, std::string &json);
-		std::string json;
-		std::string error;
-	};
-
-	class Writer
-	{
-	public:
-		Writer(const Node &root, const Format &format = NoFormat);
-		~Writer();
-
-		void SetFormat(const Format &format);
-		void Write();
-
-		const std::string &GetResult() const;
-
-	private:
-		void writeNode(const Node &node, unsigned int level);
-		void writeObject(const Object &node, unsigned int level);
-		void writeArray(const Array &node, unsigned int level);
-		void writeValue(const Value &node);
-
-		std::string result;
-
-		class FormatInterpreter *fi;
-
-		const Node &root;
-
-		Writer &operator=(const Writer&);
-	};
-
-	class Parser
-	{
-	public:
-		Parser(Node &root);
-		Parser(Node &root, const std::string &json);
-		~Parser();
-
-		void SetJson(const std::string &json);
-		bool Parse();
-
-		const std::string &GetError() const;
-
-	private:
-		enum Token
-		{
-			T_UNKNOWN,
-			T_OBJ_BEGIN,
-			T_OBJ_END,
-			T_ARRAY_BEGIN,
-			T_ARRAY_END,
-			T_SEPARATOR_NODE,
-			T_SEPARATOR_NAME,
-			T_VALUE
-		};
-
-		void tokenize();
-		bool assemble();
-
-		void readString();
-
-		bool interpretValue(const std::string &value);
-
-		bool isNumber(char c) const;
-
-		std::string json;
-
-		std::queue<Token> tokens;
-		std::queue<std::pair<Value::ValueType, std::string> > data;
-
-		unsigned int cursor;
-
-		Node &root;
-
-		std::string error;
-
-		Parser &operator=(const Parser&);
-	};
-}
-
-#endif // Jzon_h__
+/*
+Copyright (c) 2013 Johannes Häggqvist
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in
+all copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
+THE SOFTWARE.
+*/
+#ifndef Jzon_h__
+#define Jzon_h__
+
+#include <string>
+#include <vector>
+#include <queue>
+#include <iterator>
+#include <stdexcept>
+
+namespace Jzon
+{
+	class Node;
+	class Value;
+	class Object;
+	class Array;
+	typedef std::pair<std::string, Node&> NamedNode;
+	typedef std::pair<std::string, Node*> NamedNodePtr;
+	
+	class TypeException : public std::logic_error
+	{
+	public:
+		TypeException() : std::logic_error("A Node was used as the wrong type")
+		{}
+	};
+	class ValueException : public std::logic_error
+	{
+	public:
+		ValueException() : std::logic_error("A Value was used as the wrong type")
+		{}
+	};
+	class NotFoundException : public std::out_of_range
+	{
+	public:
+		NotFoundException() : std::out_of_range("The node could not be found")
+		{}
+	};
+
+	struct Format
+	{
+		bool newline;
+		bool spacing;
+		bool useTabs;
+		unsigned int indentSize;
+	};
+	static const Format StandardFormat = { true, true, true, 1 };
+	static const Format NoFormat = { false, false, false, 0 };
+
+	class Node
+	{
+		friend class Object;
+		friend class Array;
+
+	public:
+		enum Type
+		{
+			T_OBJECT,
+			T_ARRAY,
+			T_VALUE
+		};
+
+		Node();
+		virtual ~Node();
+
+		virtual Type GetType() const = 0;
+
+		inline bool IsObject() const { return (GetType() == T_OBJECT); }
+		inline bool IsArray() const { return (GetType() == T_ARRAY); }
+		inline bool IsValue() const { return (GetType() == T_VALUE); }
+
+		Object &AsObject();
+		const Object &AsObject() const;
+		Array &AsArray();
+		const Array &AsArray() const;
+		Value &AsValue();
+		const Value &AsValue() const;
+
+		virtual inline bool IsNull() const { return false; }
+		virtual inline bool IsString() const { return false; }
+		virtual inline bool IsNumber() const { return false; }
+		virtual inline bool IsBool() const { return false; }
+
+		virtual std::string ToString() const { throw TypeException(); }
+		virtual int ToInt() const { throw TypeException(); }
+		virtual float ToFloat() const { throw TypeException(); }
+		virtual double ToDouble() const { throw TypeException(); }
+		virtual bool ToBool() const { throw TypeException(); }
+
+		virtual bool Has(const std::string &name) const { throw TypeException(); }
+		virtual size_t GetCount() const { return 0; }
+		virtual Node &Get(const std::string &name) const { throw TypeException(); }
+		virtual Node &Get(size_t index) const { throw TypeException(); }
+
+		static Type DetermineType(const std::string &json);
+
+	protected:
+		virtual Node *GetCopy() const = 0;
+	};
+
+	class Value : public Node
+	{
+	public:
+		enum ValueType
+		{
+			VT_NULL,
+			VT_STRING,
+			VT_NUMBER,
+			VT_BOOL
+		};
+
+		Value();
+		Value(const Value &rhs);
+		Value(const Node &rhs);
+		Value(ValueType type, const std::string &value);
+		Value(const std::string &value);
+		Value(const char *value);
+		Value(const int value);
+		Value(const float value);
+		Value(const double value);
+		Value(const bool value);
+		virtual ~Value();
+
+		virtual Type GetType() const;
+		ValueType GetValueType() const;
+
+		virtual inline bool IsNull() const { return (type == VT_NULL); }
+		virtual inline bool IsString() const { return (type == VT_STRING); }
+		virtual inline bool IsNumber() const { return (type == VT_NUMBER); }
+		virtual inline bool IsBool() const { return (type == VT_BOOL); }
+
+		virtual std::string ToString() const;
+		virtual int ToInt() const;
+		virtual float ToFloat() const;
+		virtual double ToDouble() const;
+		virtual bool ToBool() const;
+
+		void SetNull();
+		void Set(const Value &value);
+		void Set(ValueType type, const std::string &value);
+		void Set(const std::string &value);
+		void Set(const char *value);
+		void Set(const int value);
+		void Set(const float value);
+		void Set(const double value);
+		void Set(const bool value);
+
+		Value &operator=(const Value &rhs);
+		Value &operator=(const Node &rhs);
+		Value &operator=(const std::string &rhs);
+		Value &operator=(const char *rhs);
+		Value &operator=(const int rhs);
+		Value &operator=(const float rhs);
+		Value &operator=(const double rhs);
+		Value &operator=(const bool rhs);
+
+		bool operator==(const Value &other) const;
+		bool operator!=(const Value &other) const;
+
+		static std::string EscapeString(const std::string &value);
+		static std::string UnescapeString(const std::string &value);
+
+	protected:
+		virtual Node *GetCopy() const;
+
+	private:
+		std::string valueStr;
+		ValueType type;
+	};
+
+	static const Value null;
+
+	class Object : public Node
+	{
+	public:
+		class iterator : public std::iterator<std::input_iterator_tag, NamedNode>
+		{
+		public:
+			iterator(NamedNodePtr *o) : p(o) {}
+			iterator(const iterator &it) : p(it.p) {}
+
+			iterator &operator++() { ++p; return *this; }
+			iterator operator++(int) { iterator tmp(*this); operator++(); return tmp; }
+
+			bool operator==(const iterator &rhs) { return p == rhs.p; }
+			bool operator!=(const iterator &rhs) { return p != rhs.p; }
+
+			NamedNode operator*() { return NamedNode(p->first, *p->second); }
+
+		private:
+			NamedNodePtr *p;
+		};
+		class const_iterator : public std::iterator<std::input_iterator_tag, const NamedNode>
+		{
+		public:
+			const_iterator(const NamedNodePtr *o) : p(o) {}
+			const_iterator(const const_iterator &it) : p(it.p) {}
+
+			const_iterator &operator++() { ++p; return *this; }
+			const_iterator operator++(int) { const_iterator tmp(*this); operator++(); return tmp; }
+
+			bool operator==(const const_iterator &rhs) { return p == rhs.p; }
+			bool operator!=(const const_iterator &rhs) { return p != rhs.p; }
+
+			const NamedNode operator*() { return NamedNode(p->first, *p->second); }
+
+		private:
+			const NamedNodePtr *p;
+		};
+
+		Object();
+		Object(const Object &other);
+		Object(const Node &other);
+		virtual ~Object();
+
+		virtual Type GetType() const;
+
+		void Add(const std::string &name, Node &node);
+		void Add(const std::string &name, Value node);
+		void Remove(const std::string &name);
+		void Clear();
+
+		iterator begin();
+		const_iterator begin() const;
+		iterator end();
+		const_iterator end() const;
+
+		virtual bool Has(const std::string &name) const;
+		virtual size_t GetCount() const;
+		virtual Node &Get(const std::string &name) const;
+
+	protected:
+		virtual Node *GetCopy() const;
+
+	private:
+		typedef std::vector<NamedNodePtr> ChildList;
+		ChildList children;
+	};
+
+	class Array : public Node
+	{
+	public:
+		class iterator : public std::iterator<std::input_iterator_tag, Node>
+		{
+		public:
+			iterator(Node **o) : p(o) {}
+			iterator(const iterator &it) : p(it.p) {}
+
+			iterator &operator++() { ++p; return *this; }
+			iterator operator++(int) { iterator tmp(*this); operator++(); return tmp; }
+
+			bool operator==(const iterator &rhs) { return p == rhs.p; }
+			bool operator!=(const iterator &rhs) { return p != rhs.p; }
+
+			Node &operator*() { return **p; }
+
+		private:
+			Node **p;
+		};
+		class const_iterator : public std::iterator<std::input_iterator_tag, const Node>
+		{
+		public:
+			const_iterator(const Node *const *o) : p(o) {}
+			const_iterator(const const_iterator &it) : p(it.p) {}
+
+			const_iterator &operator++() { ++p; return *this; }
+			const_iterator operator++(int) { const_iterator tmp(*this); operator++(); return tmp; }
+
+			bool operator==(const const_iterator &rhs) { return p == rhs.p; }
+			bool operator!=(const const_iterator &rhs) { return p != rhs.p; }
+
+			const Node &operator*() { return **p; }
+
+		private:
+			const Node *const *p;
+		};
+
+		Array();
+		Array(const Array &other);
+		Array(const Node &other);
+		virtual ~Array();
+
+		virtual Type GetType() const;
+
+		void Add(Node &node);
+		void Add(Value node);
+		void Remove(size_t index);
+		void Clear();
+
+		iterator begin();
+		const_iterator begin() const;
+		iterator end();
+		const_iterator end() const;
+
+		virtual size_t GetCount() const;
+		virtual Node &Get(size_t index) const;
+
+	protected:
+		virtual Node *GetCopy() const;
+
+	private:
+		typedef std::vector<Node*> ChildList;
+		ChildList children;
+	};
+
+	class FileWriter
+	{
+	public:
+		FileWriter(const std::string &filename);
+		~FileWriter();
+
+		static void WriteFile(const std::string &filename, const Node &root, const Format &format = NoFormat);
+
+		void Write(const Node &root, const Format &format = NoFormat);
+
+	private:
+		std::string filename;
+	};
+
+	class FileReader
+	{
+	public:
+		FileReader(const std::string &filename);
+		~FileReader();
+
+		static bool ReadFile(const std::string &filename, Node &node);
+
+		bool Read(Node &node);
+
+		Node::Type DetermineType();
+
+		const std::string &GetError() const;
+
+	private:
+		bool loadFile(const std::string &filename, std::string &json);
+		std::string json;
+		std::string error;
+	};
+
+	class Writer
+	{
+	public:
+		Writer(const Node &root, const Format &format = NoFormat);
+		~Writer();
+
+		void SetFormat(const Format &format);
+		void Write();
+
+		const std::string &GetResult() const;
+
+	private:
+		void writeNode(const Node &node, unsigned int level);
+		void writeObject(const Object &node, unsigned int level);
+		void writeArray(const Array &node, unsigned int level);
+		void writeValue(const Value &node);
+
+		std::string result;
+
+		class FormatInterpreter *fi;
+
+		const Node &root;
+
+		Writer &operator=(const Writer&);
+	};
+
+	class Parser
+	{
+	public:
+		Parser(Node &root);
+		Parser(Node &root, const std::string &json);
+		~Parser();
+
+		void SetJson(const std::string &json);
+		bool Parse();
+
+		const std::string &GetError() const;
+
+	private:
+		enum Token
+		{
+			T_UNKNOWN,
+			T_OBJ_BEGIN,
+			T_OBJ_END,
+			T_ARRAY_BEGIN,
+			T_ARRAY_END,
+			T_SEPARATOR_NODE,
+			T_SEPARATOR_NAME,
+			T_VALUE
+		};
+
+		void tokenize();
+		bool assemble();
+
+		bool readString();
+
+		bool interpretValue(const std::string &value);
+
+		bool isNumber(char c) const;
+
+		std::string json;
+
+		std::queue<Token> tokens;
+		std::queue<std::pair<Value::ValueType, std::string> > data;
+
+		unsigned int cursor;
+
+		Node &root;
+
+		std::string error;
+
+		Parser &operator=(const Parser&);
+	};
+}
+
+#endif // Jzon_h__
-- 
2.43.0


From 369877f5030356c5c4119d01a82cad72411355a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:20 +0000
Subject: [PATCH 087/160] fix: names of JSON members were written and read
 without escapes

---
 src/Jzon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 5bfe8da..2a6a29b 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -925,7 +925,7 @@ namespace Jzon
 
 			if (it != node.begin())
 				result += "," + fi->GetNewline();
-			result += fi->GetIndentation(level+1) + "\""+name+"\"" + ":" + fi->GetSpacing();
+			result += fi->GetIndentation(level+1) + "\""+Value::EscapeString(name)+"\"" + ":" + fi->GetSpacing();
 			writeNode(value, level+1);
 		}
 
@@ -1203,7 +1203,7 @@ namespace Jzon
 						}
 						else
 						{
-							name = data.front().second;
+							name = Value::UnescapeString(data.front().second);
 							data.pop();
 						}
 					}
-- 
2.43.0


From d8c060c4e9d269011a18e1cae2d9e22ded5a1ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:20 +0000
Subject: [PATCH 088/160] fix: malformed JSON numbers were accepted and
 exponents refused

---
 src/Jzon.cpp | 52 +++++++++++++++++++++++++++++++++++-----------------
 src/Jzon.h   |  2 +-
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 2a6a29b..37894a0 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -25,6 +25,8 @@ THE SOFTWARE.
 #include <fstream>
 #include <stack>
 #include <algorithm>
+#include <cctype>
+#include <limits>
 
 namespace Jzon
 {
@@ -301,10 +303,12 @@ namespace Jzon
 		{
 			if (IsNumber())
 			{
-				std::stringstream sstr(valueStr);
-				int val;
-				sstr >> val;
-				return val;
+				double val = ToDouble();
+				if (val >= std::numeric_limits<int>::max())
+					return std::numeric_limits<int>::max();
+				if (val <= std::numeric_limits<int>::min())
+					return std::numeric_limits<int>::min();
+				return static_cast<int>(val);
 			}
 			else
 				throw ValueException();
@@ -1311,17 +1315,7 @@ namespace Jzon
 		}
 		else
 		{
-			bool number = true;
-			for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-			{
-				if (!isNumber(*it))
-				{
-					number = false;
-					break;
-				}
-			}
-
-			if (number)
+			if (isNumber(value))
 			{
 				data.push(std::make_pair(Value::VT_NUMBER, value));
 			}
@@ -1334,8 +1328,32 @@ namespace Jzon
 		return true;
 	}
 
-	bool Parser::isNumber(char c) const
+	bool Parser::isNumber(const std::string &value) const
 	{
-		return ((c >= '0' && c <= '9') || c == '.' || c == '-');
+		size_t pos = 0;
+		size_t digits = 0;
+
+		if (pos < value.size() && value[pos] == '-')
+			++pos;
+		for (; pos < value.size() && isdigit((unsigned char)value[pos]); ++pos)
+			++digits;
+		if (pos < value.size() && value[pos] == '.')
+		{
+			for (++pos; pos < value.size() && isdigit((unsigned char)value[pos]); ++pos)
+				++digits;
+		}
+		if (digits == 0)
+			return false;
+
+		if (pos < value.size() && (value[pos] == 'e' || value[pos] == 'E'))
+		{
+			++pos;
+			if (pos < value.size() && (value[pos] == '+' || value[pos] == '-'))
+				++pos;
+			for (digits = 0; pos < value.size() && isdigit((unsigned char)value[pos]); ++pos)
+				++digits;
+		}
+
+		return (digits > 0 && pos == value.size());
 	}
 }
\ No newline at end of file
diff --git a/src/Jzon.h b/src/Jzon.h
index d5afe70..4a710be 100644
--- a/src/Jzon.h
+++ b/src/Jzon.h
@@ -414,7 +414,7 @@ namespace Jzon
 
 		bool interpretValue(const std::string &value);
 
-		bool isNumber(char c) const;
+		bool isNumber(const std::string &value) const;
 
 		std::string json;
 
-- 
2.43.0


From 84a08e496b1818e2faed166df1f23062878548c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:20 +0000
Subject: [PATCH 089/160] fix: floating point numbers lost digits when stored
 in a JSON value

---
 src/Jzon.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 37894a0..27adee1 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -165,6 +165,22 @@ namespace Jzon
 		}
 	}
 
+	// Writes a number with as few digits as are needed to read it back
+	template <class T>
+	static std::string numberToString(T value)
+	{
+		for (int digits = std::numeric_limits<T>::digits10; ; ++digits)
+		{
+			std::stringstream sstr;
+			sstr.precision(digits);
+			sstr << value;
+
+			T readBack;
+			if (digits >= std::numeric_limits<T>::max_digits10 || ((sstr >> readBack) && readBack == value))
+				return sstr.str();
+		}
+	}
+
 	Node::Node()
 	{
 	}
@@ -396,16 +412,12 @@ namespace Jzon
 	}
 	void Value::Set(const float value)
 	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
+		valueStr = numberToString(value);
 		type     = VT_NUMBER;
 	}
 	void Value::Set(const double value)
 	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
+		valueStr = numberToString(value);
 		type     = VT_NUMBER;
 	}
 	void Value::Set(const bool value)
-- 
2.43.0


From 3ba7dfbcc0df65ba2173edda45ded268ccbe1cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:20 +0000
Subject: [PATCH 090/160] fix: assigning a JSON object or array freed its nodes
 twice

---
 src/Jzon.cpp | 12 ++++++++++++
 src/Jzon.h   |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 27adee1..f8cafb1 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -596,6 +596,12 @@ namespace Jzon
 			children.push_back(std::make_pair(name, value.GetCopy()));
 		}
 	}
+	Object &Object::operator=(const Object &rhs)
+	{
+		Object copy(rhs);
+		children.swap(copy.children);
+		return *this;
+	}
 	Object::~Object()
 	{
 		Clear();
@@ -722,6 +728,12 @@ namespace Jzon
 			children.push_back(value.GetCopy());
 		}
 	}
+	Array &Array::operator=(const Array &rhs)
+	{
+		Array copy(rhs);
+		children.swap(copy.children);
+		return *this;
+	}
 	Array::~Array()
 	{
 		Clear();
diff --git a/src/Jzon.h b/src/Jzon.h
index 4a710be..04539eb 100644
--- a/src/Jzon.h
+++ b/src/Jzon.h
@@ -232,6 +232,8 @@ namespace Jzon
 		Object(const Node &other);
 		virtual ~Object();
 
+		Object &operator=(const Object &rhs);
+
 		virtual Type GetType() const;
 
 		void Add(const std::string &name, Node &node);
@@ -299,6 +301,8 @@ namespace Jzon
 		Array(const Node &other);
 		virtual ~Array();
 
+		Array &operator=(const Array &rhs);
+
 		virtual Type GetType() const;
 
 		void Add(Node &node);
-- 
2.43.0


From a9dcb34abf9a6f7310565888e51c47b375fc164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:20 +0000
Subject: [PATCH 091/160] fix: unicode escapes in JSON strings were not
 understood and control characters written raw

---
 src/Jzon.cpp | 65 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index f8cafb1..3d6b0b4 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -521,6 +521,53 @@ namespace Jzon
 		return nullUnescaped;
 	}
 
+	// Reads the value of a \uXXXX escape
+	static bool getCodeUnit(const std::string &value, size_t pos, unsigned int &code)
+	{
+		if (value.size() < 6 || pos > value.size() - 6 || value[pos] != '\\' || value[pos+1] != 'u')
+			return false;
+
+		code = 0;
+		for (size_t i = pos + 2; i < pos + 6; ++i)
+		{
+			const char c = value[i];
+			if (c >= '0' && c <= '9')
+				code = code*16 + (c - '0');
+			else if (c >= 'a' && c <= 'f')
+				code = code*16 + (c - 'a' + 10);
+			else if (c >= 'A' && c <= 'F')
+				code = code*16 + (c - 'A' + 10);
+			else
+				return false;
+		}
+		return true;
+	}
+	static void appendUtf8(std::string &str, unsigned int code)
+	{
+		if (code < 0x80)
+		{
+			str += (char)code;
+		}
+		else if (code < 0x800)
+		{
+			str += (char)(0xC0 | (code >> 6));
+			str += (char)(0x80 | (code & 0x3F));
+		}
+		else if (code < 0x10000)
+		{
+			str += (char)(0xE0 | (code >> 12));
+			str += (char)(0x80 | ((code >> 6) & 0x3F));
+			str += (char)(0x80 | (code & 0x3F));
+		}
+		else
+		{
+			str += (char)(0xF0 | (code >> 18));
+			str += (char)(0x80 | ((code >> 12) & 0x3F));
+			str += (char)(0x80 | ((code >> 6) & 0x3F));
+			str += (char)(0x80 | (code & 0x3F));
+		}
+	}
+
 	std::string Value::EscapeString(const std::string &value)
 	{
 		std::string escaped;
@@ -535,6 +582,13 @@ namespace Jzon
 				escaped += a[0];
 				escaped += a[1];
 			}
+			else if ((unsigned char)c < 0x20)
+			{
+				static const char digits[] = "0123456789abcdef";
+				escaped += "\\u00";
+				escaped += digits[c >> 4];
+				escaped += digits[c & 0xF];
+			}
 			else
 			{
 				escaped += c;
@@ -555,12 +609,23 @@ namespace Jzon
 				c2 = *(it+1);
 
 			const char &a = getUnescaped(c, c2);
+			unsigned int code, low;
 			if (a != '\0')
 			{
 				unescaped += a;
 				if (it+1 != value.end())
 					++it;
 			}
+			else if (getCodeUnit(value, it - value.begin(), code))
+			{
+				it += 5;
+				if (code >= 0xD800 && code < 0xDC00 && getCodeUnit(value, it + 1 - value.begin(), low) && low >= 0xDC00 && low < 0xE000)
+				{
+					code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+					it += 6;
+				}
+				appendUtf8(unescaped, code);
+			}
 			else
 			{
 				unescaped += c;
-- 
2.43.0


From 87b1db8981f8a99a6ca1964e760e0901ff8b2b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:20 +0000
Subject: [PATCH 092/160] fix: parsing invalid JSON leaked nodes and left part
 of the document behind

---
 src/Jzon.cpp | 83 +++++++++++++++++++++++++++++++---------------------
 src/Jzon.h   |  7 +++++
 2 files changed, 56 insertions(+), 34 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 3d6b0b4..f00f16d 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1071,13 +1071,50 @@ namespace Jzon
 	bool Parser::Parse()
 	{
 		cursor = 0;
+		error.clear();
+		tokens = std::queue<Token>();
+		data = std::queue<std::pair<Value::ValueType, std::string> >();
+		clearRoot();
 
 		tokenize();
 		bool success = assemble();
+		if (!success)
+			clearRoot();
 
 		return success;
 	}
 
+	void Parser::clearRoot()
+	{
+		switch (root.GetType())
+		{
+		case Node::T_OBJECT : root.AsObject().Clear();  break;
+		case Node::T_ARRAY  : root.AsArray().Clear();   break;
+		case Node::T_VALUE  : root.AsValue().SetNull(); break;
+		}
+	}
+
+	// Hands the node over to its parent, if that can have children
+	bool Parser::addChild(Node &parent, const std::string &name, Node *node)
+	{
+		if (parent.IsObject())
+		{
+			parent.AsObject().children.push_back(std::make_pair(name, node));
+		}
+		else if (parent.IsArray())
+		{
+			parent.AsArray().children.push_back(node);
+		}
+		else
+		{
+			delete node;
+			error = "Can only add elements to objects and arrays";
+			return false;
+		}
+
+		return true;
+	}
+
 	const std::string &Parser::GetError() const
 	{
 		return error;
@@ -1177,7 +1214,7 @@ namespace Jzon
 	}
 	bool Parser::assemble()
 	{
-		std::stack<std::pair<std::string, Node*> > nodeStack;
+		std::stack<Node*> nodeStack;
 
 		std::string name = "";
 
@@ -1212,9 +1249,11 @@ namespace Jzon
 					else
 					{
 						node = new Object;
+						if (!addChild(*nodeStack.top(), name, node))
+							return false;
 					}
 
-					nodeStack.push(std::make_pair(name, node));
+					nodeStack.push(node);
 					name.clear();
 					break;
 				}
@@ -1234,9 +1273,11 @@ namespace Jzon
 					else
 					{
 						node = new Array;
+						if (!addChild(*nodeStack.top(), name, node))
+							return false;
 					}
 
-					nodeStack.push(std::make_pair(name, node));
+					nodeStack.push(node);
 					name.clear();
 					break;
 				}
@@ -1248,40 +1289,18 @@ namespace Jzon
 						error = "Found end of object or array without beginning";
 						return false;
 					}
-					if (token == T_OBJ_END && !nodeStack.top().second->IsObject())
+					if (token == T_OBJ_END && !nodeStack.top()->IsObject())
 					{
 						error = "Mismatched end and beginning of object";
 						return false;
 					}
-					if (token == T_ARRAY_END && !nodeStack.top().second->IsArray())
+					if (token == T_ARRAY_END && !nodeStack.top()->IsArray())
 					{
 						error = "Mismatched end and beginning of array";
 						return false;
 					}
 
-					std::string name = nodeStack.top().first;
-					Node *node = nodeStack.top().second;
 					nodeStack.pop();
-
-					if (!nodeStack.empty())
-					{
-						if (nodeStack.top().second->IsObject())
-						{
-							nodeStack.top().second->AsObject().Add(name, *node);
-						}
-						else if (nodeStack.top().second->IsArray())
-						{
-							nodeStack.top().second->AsArray().Add(*node);
-						}
-						else
-						{
-							error = "Can only add elements to objects and arrays";
-							return false;
-						}
-
-						delete node;
-						node = NULL;
-					}
 					break;
 				}
 			case T_VALUE :
@@ -1330,18 +1349,14 @@ namespace Jzon
 
 						if (!nodeStack.empty())
 						{
-							if (nodeStack.top().second->IsObject())
-								nodeStack.top().second->AsObject().Add(name, *node);
-							else if (nodeStack.top().second->IsArray())
-								nodeStack.top().second->AsArray().Add(*node);
+							if (!addChild(*nodeStack.top(), name, node))
+								return false;
 
-							delete node;
-							node = NULL;
 							name.clear();
 						}
 						else
 						{
-							nodeStack.push(std::make_pair(name, node));
+							nodeStack.push(node);
 							name.clear();
 						}
 					}
diff --git a/src/Jzon.h b/src/Jzon.h
index 04539eb..f6933f4 100644
--- a/src/Jzon.h
+++ b/src/Jzon.h
@@ -191,6 +191,8 @@ namespace Jzon
 
 	class Object : public Node
 	{
+		friend class Parser;
+
 	public:
 		class iterator : public std::iterator<std::input_iterator_tag, NamedNode>
 		{
@@ -260,6 +262,8 @@ namespace Jzon
 
 	class Array : public Node
 	{
+		friend class Parser;
+
 	public:
 		class iterator : public std::iterator<std::input_iterator_tag, Node>
 		{
@@ -414,6 +418,9 @@ namespace Jzon
 		void tokenize();
 		bool assemble();
 
+		void clearRoot();
+		bool addChild(Node &parent, const std::string &name, Node *node);
+
 		bool readString();
 
 		bool interpretValue(const std::string &value);
-- 
2.43.0


From b9d00acd5af72f35449299a87c18ab84f2011e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:20 +0000
Subject: [PATCH 093/160] fix: JSON documents that are empty, unfinished or
 followed by more were accepted

---
 src/Jzon.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index f00f16d..ec3516d 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1217,6 +1217,7 @@ namespace Jzon
 		std::stack<Node*> nodeStack;
 
 		std::string name = "";
+		bool started = false;
 
 		Token token;
 		while (!tokens.empty())
@@ -1238,6 +1239,12 @@ namespace Jzon
 					Node *node = NULL;
 					if (nodeStack.empty())
 					{
+						if (started)
+						{
+							error = "Found more than one document";
+							return false;
+						}
+						started = true;
 						if (!root.IsObject())
 						{
 							error = "The given root node is not an object";
@@ -1262,6 +1269,12 @@ namespace Jzon
 					Node *node = NULL;
 					if (nodeStack.empty())
 					{
+						if (started)
+						{
+							error = "Found more than one document";
+							return false;
+						}
+						started = true;
 						if (!root.IsArray())
 						{
 							error = "The given root node is not an array";
@@ -1324,6 +1337,12 @@ namespace Jzon
 						Node *node = NULL;
 						if (nodeStack.empty())
 						{
+							if (started)
+							{
+								error = "Found more than one document";
+								return false;
+							}
+							started = true;
 							if (!root.IsValue())
 							{
 								error = "The given root node is not a value";
@@ -1367,6 +1386,17 @@ namespace Jzon
 			}
 		}
 
+		if (!started)
+		{
+			error = "Found no document";
+			return false;
+		}
+		if (!nodeStack.empty() && !root.IsValue())
+		{
+			error = "Found beginning of object or array without end";
+			return false;
+		}
+
 		return true;
 	}
 
-- 
2.43.0


From 5fa8362c1eb7c0b5594adc5708af701691491b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:20 +0000
Subject: [PATCH 094/160] fix: deeply nested JSON documents exhausted the stack

---
 src/Jzon.cpp | 10 ++++++++++
 src/Jzon.h   |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index ec3516d..e596a46 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1262,6 +1262,11 @@ namespace Jzon
 
 					nodeStack.push(node);
 					name.clear();
+					if (nodeStack.size() > MaxDepth)
+					{
+						error = "Too many nested objects and arrays";
+						return false;
+					}
 					break;
 				}
 			case T_ARRAY_BEGIN :
@@ -1292,6 +1297,11 @@ namespace Jzon
 
 					nodeStack.push(node);
 					name.clear();
+					if (nodeStack.size() > MaxDepth)
+					{
+						error = "Too many nested objects and arrays";
+						return false;
+					}
 					break;
 				}
 			case T_OBJ_END :
diff --git a/src/Jzon.h b/src/Jzon.h
index f6933f4..390c8b2 100644
--- a/src/Jzon.h
+++ b/src/Jzon.h
@@ -63,6 +63,9 @@ namespace Jzon
 		bool useTabs;
 		unsigned int indentSize;
 	};
+	// Nodes are copied, written and deleted recursively
+	static const unsigned int MaxDepth = 2000;
+
 	static const Format StandardFormat = { true, true, true, 1 };
 	static const Format NoFormat = { false, false, false, 0 };
 
-- 
2.43.0


From d3d6ef3c2c71c94ab09d1b45de6a0f0e833ed5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:21 +0000
Subject: [PATCH 095/160] fix: destroying the controller left a dangling
 instance and its parser

---
 src/Controller.cpp | 9 ++++++++-
 src/Controller.hh  | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index 0480566..eff9682 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -41,6 +41,14 @@ Controller::Controller()
     inputRootNode = new Jzon::Object();
     parser = new Jzon::Parser(*inputRootNode);
     runFlag = true;
+    listeningSocket = -1;
+    connectionSocket = -1;
+}
+
+Controller::~Controller()
+{
+    delete parser;
+    delete inputRootNode;
 }
 
 Controller* Controller::getInstance()
@@ -54,7 +62,6 @@ Controller* Controller::getInstance()
 
 void Controller::destroyInstance()
 {
-    Controller * ctrlInstance = Controller::getInstance();
     if (ctrlInstance != NULL) {
         delete ctrlInstance;
         ctrlInstance = NULL;
diff --git a/src/Controller.hh b/src/Controller.hh
index efc5e54..31f07d5 100644
--- a/src/Controller.hh
+++ b/src/Controller.hh
@@ -92,6 +92,7 @@ public:
 
 private:
     Controller();
+    ~Controller();
     bool processEvent(Jzon::Object event);
     void sendAndClose(Jzon::Object outputNode, int socket);
 
-- 
2.43.0


From a1ef41a8edc19342f89e3a9798aac8696c925f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:21 +0000
Subject: [PATCH 096/160] fix: a listening socket that cannot be set up was
 left open

---
 src/Controller.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index eff9682..3bc3ff6 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -88,6 +88,7 @@ bool Controller::createSocket(int port)
 
     if (setsockopt(listeningSocket, SOL_SOCKET, SO_REUSEADDR, &yes, sizeof(int)) == -1 ) {
         utils::errorMsg("Setting socket options");
+        stopAndCloseSocket();
         return false;
     }
 
@@ -98,6 +99,7 @@ bool Controller::createSocket(int port)
 
     if (bind(listeningSocket, (struct sockaddr *) &serv_addr, sizeof(serv_addr)) < 0) {
         utils::errorMsg("On binding");
+        stopAndCloseSocket();
         return false;
     }
 
@@ -141,7 +143,10 @@ bool Controller::listenSocket()
 
 void Controller::stopAndCloseSocket()
 {
-    close(listeningSocket);
+    if (listeningSocket >= 0) {
+        close(listeningSocket);
+        listeningSocket = -1;
+    }
 }
 
 
-- 
2.43.0


From d9818ccc22ac8bc44a0ea63ddc4df8c0b4d2cb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:21 +0000
Subject: [PATCH 097/160] fix: a request that cannot be read was never answered
 nor its connection closed

---
 src/Controller.cpp | 9 +++++++++
 src/Controller.hh  | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index 3bc3ff6..1824876 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -157,6 +157,7 @@ bool Controller::readAndParse()
     
     if (read(connectionSocket, inBuffer, MSG_BUFFER_MAX_LENGTH - 1) < 0) {
         utils::errorMsg("Reading from socket");
+        sendError("Reading from socket");
         return false;
     }
 
@@ -164,12 +165,20 @@ bool Controller::readAndParse()
 
     if (!parser->Parse()) {
         utils::errorMsg("Error parsing JSON");
+        sendError("Error parsing JSON");
         return false;
     }
 
     return true;
 }
 
+void Controller::sendError(std::string error)
+{
+    Jzon::Object outputNode;
+    outputNode.Add("error", error);
+    sendAndClose(outputNode, connectionSocket);
+}
+
 void Controller::processRequest()
 {
     Jzon::Object outputNode;
diff --git a/src/Controller.hh b/src/Controller.hh
index 31f07d5..4268737 100644
--- a/src/Controller.hh
+++ b/src/Controller.hh
@@ -95,6 +95,7 @@ private:
     ~Controller();
     bool processEvent(Jzon::Object event);
     void sendAndClose(Jzon::Object outputNode, int socket);
+    void sendError(std::string error);
 
     int listeningSocket, connectionSocket;
     char inBuffer[MSG_BUFFER_MAX_LENGTH];
-- 
2.43.0


From bec974d6ef8471991662076d2fdd7ace20e2c51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:21 +0000
Subject: [PATCH 098/160] fix: requests arriving in pieces were refused and
 silent clients blocked the control port

---
 src/Controller.cpp | 51 ++++++++++++++++++++++++++++++++++++----------
 src/Controller.hh  |  3 +++
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index 1824876..a2f4f51 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -28,6 +28,7 @@
 #include <sys/socket.h>
 #include <netinet/in.h>
 #include <unistd.h>
+#include <poll.h>
 #include <stdio.h>
 #include <string.h>
 
@@ -155,21 +156,49 @@ bool Controller::readAndParse()
     bzero(inBuffer, MSG_BUFFER_MAX_LENGTH);
     inputRootNode->Clear();
     
-    if (read(connectionSocket, inBuffer, MSG_BUFFER_MAX_LENGTH - 1) < 0) {
-        utils::errorMsg("Reading from socket");
-        sendError("Reading from socket");
-        return false;
+    size_t length = 0;
+    std::chrono::steady_clock::time_point deadline = std::chrono::steady_clock::now() + std::chrono::microseconds(REQUEST_TIMEOUT);
+
+    // The request is complete as soon as it can be parsed
+    while (waitForData(deadline)) {
+        char excess[1024];
+        bool full = (length == MSG_BUFFER_MAX_LENGTH - 1);
+        ssize_t ret = recv(connectionSocket, full ? excess : inBuffer + length, full ? sizeof(excess) : MSG_BUFFER_MAX_LENGTH - 1 - length, 0);
+
+        if (ret < 0) {
+            utils::errorMsg("Reading from socket");
+            sendError("Reading from socket");
+            return false;
+        }
+
+        if (ret == 0) {
+            break;
+        }
+
+        if (full) {
+            continue;
+        }
+
+        length += ret;
+        parser->SetJson(inBuffer);
+
+        if (parser->Parse()) {
+            return true;
+        }
     }
 
-    parser->SetJson(inBuffer);
+    utils::errorMsg("Error parsing JSON");
+    sendError("Error parsing JSON");
+    return false;
+}
 
-    if (!parser->Parse()) {
-        utils::errorMsg("Error parsing JSON");
-        sendError("Error parsing JSON");
-        return false;
-    }
+bool Controller::waitForData(std::chrono::steady_clock::time_point deadline)
+{
+    struct pollfd pfd;
+    pfd.fd = connectionSocket;
+    pfd.events = POLLIN;
 
-    return true;
+    return std::chrono::steady_clock::now() < deadline && poll(&pfd, 1, TIMEOUT/1000) > 0;
 }
 
 void Controller::sendError(std::string error)
diff --git a/src/Controller.hh b/src/Controller.hh
index 4268737..136c7d2 100644
--- a/src/Controller.hh
+++ b/src/Controller.hh
@@ -27,11 +27,13 @@
 #include <vector>
 #include <map>
 #include <functional>
+#include <chrono>
 
 #include "PipelineManager.hh"
 
 #define MSG_BUFFER_MAX_LENGTH 4096*4
 #define TIMEOUT 100000 //usec
+#define REQUEST_TIMEOUT 1000000 //usec
 
 /*! Controller class is a singleton class defines the control protocol
     by events and through sockets
@@ -96,6 +98,7 @@ private:
     bool processEvent(Jzon::Object event);
     void sendAndClose(Jzon::Object outputNode, int socket);
     void sendError(std::string error);
+    bool waitForData(std::chrono::steady_clock::time_point deadline);
 
     int listeningSocket, connectionSocket;
     char inBuffer[MSG_BUFFER_MAX_LENGTH];
-- 
2.43.0


From 8950a28a41914d20d622d3543458d5d269265f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:21 +0000
Subject: [PATCH 099/160] fix: a client gone before its answer ended the
 process and long answers could be cut

---
 src/Controller.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index a2f4f51..c97889b 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -234,10 +234,23 @@ void Controller::sendAndClose(Jzon::Object outputNode, int socket)
     writer.Write();
     std::string result = writer.GetResult();
     const char* res = result.c_str();
-    int ret = write(socket, res, result.size());
+    size_t sent = 0;
+    struct timeval tv;
+
+    // Do not let a client that does not read its answer stop the others
+    tv.tv_sec = 0;
+    tv.tv_usec = TIMEOUT;
+    setsockopt(socket, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
+
+    while (sent < result.size()) {
+        ssize_t ret = send(socket, res + sent, result.size() - sent, MSG_NOSIGNAL);
+
+        if (ret <= 0) {
+            utils::errorMsg("Error writting socket");
+            break;
+        }
 
-    if (ret < 0) {
-        utils::errorMsg("Error writting socket");
+        sent += ret;
     }
 
     if (socket >= 0){
-- 
2.43.0


From ed7cbeb8efa892527d2813a3fed600aa73057480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:21 +0000
Subject: [PATCH 100/160] fix: malformed events ended the process

---
 src/Controller.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index c97889b..354551f 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -222,7 +222,12 @@ void Controller::processRequest()
     const Jzon::Array &events = inputRootNode->Get("events").AsArray();
 
     for (Jzon::Array::const_iterator it = events.begin(); it != events.end(); ++it) {
-        pipeMngrInstance->processEvent(*it, outputNode);
+        try {
+            pipeMngrInstance->processEvent(*it, outputNode);
+        } catch (std::exception &e) {
+            utils::errorMsg(std::string("Error processing event: ") + e.what());
+            outputNode.Add("error", "Error processing event. Invalid JSON format...");
+        }
     }
 
     sendAndClose(outputNode, connectionSocket);
-- 
2.43.0


From acdcb4b62487114bb8b91768b654ecc26aecbd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:21 +0000
Subject: [PATCH 101/160] fix: requests of several events were answered with
 several errors and empty ones with none

---
 src/Controller.cpp | 28 ++++++++++++++++++++++++++--
 src/Controller.hh  |  1 +
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index 354551f..987cf08 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -201,6 +201,21 @@ bool Controller::waitForData(std::chrono::steady_clock::time_point deadline)
     return std::chrono::steady_clock::now() < deadline && poll(&pfd, 1, TIMEOUT/1000) > 0;
 }
 
+void Controller::mergeAnswer(Jzon::Object &outputNode, Jzon::Object &answer)
+{
+    for (Jzon::Object::iterator it = answer.begin(); it != answer.end(); ++it) {
+        std::string name = (*it).first;
+
+        // The first error is kept
+        if (name == "error" && outputNode.Has(name) && !outputNode.Get(name).IsNull()) {
+            continue;
+        }
+
+        outputNode.Remove(name);
+        outputNode.Add(name, (*it).second);
+    }
+}
+
 void Controller::sendError(std::string error)
 {
     Jzon::Object outputNode;
@@ -222,12 +237,21 @@ void Controller::processRequest()
     const Jzon::Array &events = inputRootNode->Get("events").AsArray();
 
     for (Jzon::Array::const_iterator it = events.begin(); it != events.end(); ++it) {
+        Jzon::Object answer;
+
         try {
-            pipeMngrInstance->processEvent(*it, outputNode);
+            pipeMngrInstance->processEvent(*it, answer);
         } catch (std::exception &e) {
             utils::errorMsg(std::string("Error processing event: ") + e.what());
-            outputNode.Add("error", "Error processing event. Invalid JSON format...");
+            answer.Clear();
+            answer.Add("error", "Error processing event. Invalid JSON format...");
         }
+
+        mergeAnswer(outputNode, answer);
+    }
+
+    if (outputNode.GetCount() == 0) {
+        outputNode.Add("error", Jzon::null);
     }
 
     sendAndClose(outputNode, connectionSocket);
diff --git a/src/Controller.hh b/src/Controller.hh
index 136c7d2..e5db5e1 100644
--- a/src/Controller.hh
+++ b/src/Controller.hh
@@ -98,6 +98,7 @@ private:
     bool processEvent(Jzon::Object event);
     void sendAndClose(Jzon::Object outputNode, int socket);
     void sendError(std::string error);
+    void mergeAnswer(Jzon::Object &outputNode, Jzon::Object &answer);
     bool waitForData(std::chrono::steady_clock::time_point deadline);
 
     int listeningSocket, connectionSocket;
-- 
2.43.0


From c46e04d80f4ece36528f07862a53ecf410ba5cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:21 +0000
Subject: [PATCH 102/160] fix: filter events with an ill-typed filter were
 executed as commands of the manager

---
 src/PipelineManager.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index a145abb..634449d 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -725,9 +725,15 @@ void PipelineManager::processEvent(Jzon::Object event, Jzon::Object &outputNode)
         return;
     }
 
-    if ((event.Has("filterId") && event.Get("filterId").IsNumber())) {
+    if (event.Has("filterId") && !event.Get("filterId").IsNull()) {
+        if (!event.Get("filterId").IsNumber() || !event.Get("action").IsString() ||
+              (event.Has("delay") && !event.Get("delay").IsNumber())) {
+            outputNode.Add("error", "Error processing filter event. Invalid JSON format...");
+            return;
+        }
+
         filterId = event.Get("filterId").ToInt();
-        if (event.Has("delay") && event.Get("delay").IsNumber()) {
+        if (event.Has("delay")) {
             delay = event.Get("delay").ToInt();
         }
         
-- 
2.43.0


From 5dcfa63c649a134298ca981d246809a997e6ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:21 +0000
Subject: [PATCH 103/160] fix: paths could be created from null or ill-typed
 identifiers

---
 src/PipelineManager.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 634449d..7391c70 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -625,6 +625,13 @@ void PipelineManager::createPathEvent(Jzon::Node* params, Jzon::Object &outputNo
         return;
     }
 
+    if (!params->Get("id").IsNumber() || !params->Get("orgFilterId").IsNumber() ||
+          !params->Get("dstFilterId").IsNumber() || !params->Get("orgWriterId").IsNumber() ||
+            !params->Get("dstReaderId").IsNumber()) {
+        outputNode.Add("error", "Error creating path. IDs must be numeric...");
+        return;
+    }
+
     id = params->Get("id").ToInt();
     orgFilterId = params->Get("orgFilterId").ToInt();
     dstFilterId = params->Get("dstFilterId").ToInt();
@@ -639,6 +646,10 @@ void PipelineManager::createPathEvent(Jzon::Node* params, Jzon::Object &outputNo
     Jzon::Array& jsonFiltersIds = params->Get("midFiltersIds").AsArray();
 
     for (Jzon::Array::iterator it = jsonFiltersIds.begin(); it != jsonFiltersIds.end(); ++it) {
+        if (!(*it).IsNumber()) {
+            outputNode.Add("error", "Invalid midfilters array");
+            return;
+        }
         filtersIds.push_back((*it).ToInt());
     }
     
-- 
2.43.0


From 0da86ab1d4219b53ffae9c03ea3c9928e1dbf47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:26 +0000
Subject: [PATCH 104/160] fix: Exp-Golomb codes of large values were read and
 written wrongly

---
 src/modules/transmitter/SPSparser/bs.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/modules/transmitter/SPSparser/bs.h b/src/modules/transmitter/SPSparser/bs.h
index c5087cd..204ef4c 100644
--- a/src/modules/transmitter/SPSparser/bs.h
+++ b/src/modules/transmitter/SPSparser/bs.h
@@ -192,30 +192,35 @@ static inline uint32_t bs_read_u8(bs_t* b)
 
 static inline uint32_t bs_read_ue(bs_t* b)
 {
-    int32_t r = 0;
+    uint32_t r = 0;
     int i = 0;
 
     while( (bs_read_u1(b) == 0) && (i < 32) && (!bs_eof(b)) )
     {
         i++;
     }
+    if( i == 32 )
+    {
+        // longer than any value in the standard
+        bs_skip_u(b, 32);
+        return UINT32_MAX;
+    }
     r = bs_read_u(b, i);
-    r += (1 << i) - 1;
+    r += ((uint32_t)1 << i) - 1;
     return r;
 }
 
 static inline int32_t bs_read_se(bs_t* b) 
 {
-    int32_t r = bs_read_ue(b);
+    uint32_t r = bs_read_ue(b);
     if (r & 0x01)
     {
-        r = (r+1)/2;
+        return (int32_t)(r/2) + (r < UINT32_MAX);
     }
     else
     {
-        r = -(r/2);
+        return -(int32_t)(r/2);
     }
-    return r;
 }
 
 
@@ -312,7 +317,8 @@ static inline void bs_write_ue(bs_t* b, uint32_t v)
             len = len_table[ v ];
         }
 
-        bs_write_u(b, 2*len-1, v);
+        bs_write_u(b, len-1, 0);
+        bs_write_u(b, len, v);
     }
 }
 
@@ -320,11 +326,11 @@ static inline void bs_write_se(bs_t* b, int32_t v)
 {
     if (v <= 0)
     {
-        bs_write_ue(b, -v*2);
+        bs_write_ue(b, -(uint32_t)v*2);
     }
     else
     {
-        bs_write_ue(b, v*2 - 1);
+        bs_write_ue(b, (uint32_t)v*2 - 1);
     }
 }
 
-- 
2.43.0


From ac24128e9c7d8a26e4aebba6172facafcd763990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:26 +0000
Subject: [PATCH 105/160] fix: counts out of range in a sequence parameter set
 wrote outside its structure

---
 .../transmitter/SPSparser/h264_stream.c       | 30 ++++++++++++++-----
 .../transmitter/SPSparser/h264_stream.h       |  4 +--
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/modules/transmitter/SPSparser/h264_stream.c b/src/modules/transmitter/SPSparser/h264_stream.c
index 0ccc58b..8fb57ad 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.c
+++ b/src/modules/transmitter/SPSparser/h264_stream.c
@@ -160,6 +160,10 @@ int read_seq_parameter_set_rbsp(sps_t* sps, bs_t* b) {
         sps->offset_for_non_ref_pic = bs_read_se(b);
         sps->offset_for_top_to_bottom_field = bs_read_se(b);
         sps->num_ref_frames_in_pic_order_cnt_cycle = bs_read_ue(b);
+        if( sps->num_ref_frames_in_pic_order_cnt_cycle < 0 || sps->num_ref_frames_in_pic_order_cnt_cycle > 255 )
+        {
+            return -1;
+        }
         for( i = 0; i < sps->num_ref_frames_in_pic_order_cnt_cycle; i++ )
         {
             sps->offset_for_ref_frame[ i ] = bs_read_se(b);
@@ -186,7 +190,10 @@ int read_seq_parameter_set_rbsp(sps_t* sps, bs_t* b) {
     sps->vui_parameters_present_flag = bs_read_u1(b);
     if( sps->vui_parameters_present_flag )
     {
-        read_vui_parameters(sps, b);
+        if( read_vui_parameters(sps, b) < 0 )
+        {
+            return -1;
+        }
     }
     read_rbsp_trailing_bits(b);
 
@@ -219,7 +226,7 @@ void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int use
 }
 
 //Appendix E.1.1 VUI parameters syntax
-void read_vui_parameters(sps_t* sps, bs_t* b)
+int read_vui_parameters(sps_t* sps, bs_t* b)
 {
 
     sps->vui.aspect_ratio_info_present_flag = bs_read_u1(b);
@@ -264,14 +271,14 @@ void read_vui_parameters(sps_t* sps, bs_t* b)
         sps->vui.fixed_frame_rate_flag = bs_read_u1(b);
     }
     sps->vui.nal_hrd_parameters_present_flag = bs_read_u1(b);
-    if( sps->vui.nal_hrd_parameters_present_flag )
+    if( sps->vui.nal_hrd_parameters_present_flag && read_hrd_parameters(sps, b) < 0 )
     {
-        read_hrd_parameters(sps, b);
+        return -1;
     }
     sps->vui.vcl_hrd_parameters_present_flag = bs_read_u1(b);
-    if( sps->vui.vcl_hrd_parameters_present_flag )
+    if( sps->vui.vcl_hrd_parameters_present_flag && read_hrd_parameters(sps, b) < 0 )
     {
-        read_hrd_parameters(sps, b);
+        return -1;
     }
     if( sps->vui.nal_hrd_parameters_present_flag || sps->vui.vcl_hrd_parameters_present_flag )
     {
@@ -289,15 +296,22 @@ void read_vui_parameters(sps_t* sps, bs_t* b)
         sps->vui.num_reorder_frames = bs_read_ue(b);
         sps->vui.max_dec_frame_buffering = bs_read_ue(b);
     }
+
+    return 0;
 }
 
 
 //Appendix E.1.2 HRD parameters syntax
-void read_hrd_parameters(sps_t* sps, bs_t* b)
+int read_hrd_parameters(sps_t* sps, bs_t* b)
 {
     int SchedSelIdx;
 
     sps->hrd.cpb_cnt_minus1 = bs_read_ue(b);
+    if( sps->hrd.cpb_cnt_minus1 < 0 || sps->hrd.cpb_cnt_minus1 > 31 )
+    {
+        sps->hrd.cpb_cnt_minus1 = 0;
+        return -1;
+    }
     sps->hrd.bit_rate_scale = bs_read_u(b,4);
     sps->hrd.cpb_size_scale = bs_read_u(b,4);
     for( SchedSelIdx = 0; SchedSelIdx <= sps->hrd.cpb_cnt_minus1; SchedSelIdx++ )
@@ -310,6 +324,8 @@ void read_hrd_parameters(sps_t* sps, bs_t* b)
     sps->hrd.cpb_removal_delay_length_minus1 = bs_read_u(b,5);
     sps->hrd.dpb_output_delay_length_minus1 = bs_read_u(b,5);
     sps->hrd.time_offset_length = bs_read_u(b,5);
+
+    return 0;
 }
 
 //7.3.2.11 RBSP trailing bits syntax
diff --git a/src/modules/transmitter/SPSparser/h264_stream.h b/src/modules/transmitter/SPSparser/h264_stream.h
index 99e134e..0de314f 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.h
+++ b/src/modules/transmitter/SPSparser/h264_stream.h
@@ -149,8 +149,8 @@ int nal_to_rbsp(const uint8_t* nal_buf, int* nal_size, uint8_t* rbsp_buf, int* r
 
 int read_seq_parameter_set_rbsp(sps_t* h, bs_t* b);
 void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int useDefaultScalingMatrixFlag );
-void read_vui_parameters(sps_t* h, bs_t* b);
-void read_hrd_parameters(sps_t* h, bs_t* b);
+int read_vui_parameters(sps_t* h, bs_t* b);
+int read_hrd_parameters(sps_t* h, bs_t* b);
 
 void read_rbsp_trailing_bits(bs_t* b);
 
-- 
2.43.0


From d643957120932809d1f23fcf855e6efbefd73892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:26 +0000
Subject: [PATCH 106/160] fix: scaling lists in a sequence parameter set were
 not skipped and shifted the fields after them

---
 .../transmitter/SPSparser/h264_stream.c       | 25 ++++++++++---------
 .../transmitter/SPSparser/h264_stream.h       |  2 +-
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/modules/transmitter/SPSparser/h264_stream.c b/src/modules/transmitter/SPSparser/h264_stream.c
index 8fb57ad..22e387e 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.c
+++ b/src/modules/transmitter/SPSparser/h264_stream.c
@@ -137,12 +137,12 @@ int read_seq_parameter_set_rbsp(sps_t* sps, bs_t* b) {
                     if( i < 6 )
                     {
                         read_scaling_list( b, sps->ScalingList4x4[ i ], 16,
-                                      sps->UseDefaultScalingMatrix4x4Flag[ i ]);
+                                      &sps->UseDefaultScalingMatrix4x4Flag[ i ]);
                     }
                     else
                     {
                         read_scaling_list( b, sps->ScalingList8x8[ i - 6 ], 64,
-                                      sps->UseDefaultScalingMatrix8x8Flag[ i - 6 ] );
+                                      &sps->UseDefaultScalingMatrix8x8Flag[ i - 6 ] );
                     }
                 }
             }
@@ -202,14 +202,9 @@ int read_seq_parameter_set_rbsp(sps_t* sps, bs_t* b) {
 
 
 //7.3.2.1.1 Scaling list syntax
-void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int useDefaultScalingMatrixFlag )
+void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int* useDefaultScalingMatrixFlag )
 {
     int j;
-    if(scalingList == NULL)
-    {
-        return;
-    }
-
     int lastScale = 8;
     int nextScale = 8;
     for( j = 0; j < sizeOfScalingList; j++ )
@@ -217,11 +212,17 @@ void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int use
         if( nextScale != 0 )
         {
             int delta_scale = bs_read_se(b);
-            nextScale = ( lastScale + delta_scale + 256 ) % 256;
-            useDefaultScalingMatrixFlag = ( j == 0 && nextScale == 0 );
+            nextScale = ( lastScale + (uint32_t)delta_scale ) % 256;
+            if( j == 0 )
+            {
+                *useDefaultScalingMatrixFlag = ( nextScale == 0 );
+            }
+        }
+        lastScale = ( nextScale == 0 ) ? lastScale : nextScale;
+        if( scalingList != NULL )
+        {
+            scalingList[ j ] = lastScale;
         }
-        scalingList[ j ] = ( nextScale == 0 ) ? lastScale : nextScale;
-        lastScale = scalingList[ j ];
     }
 }
 
diff --git a/src/modules/transmitter/SPSparser/h264_stream.h b/src/modules/transmitter/SPSparser/h264_stream.h
index 0de314f..36ea0d0 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.h
+++ b/src/modules/transmitter/SPSparser/h264_stream.h
@@ -148,7 +148,7 @@ typedef struct
 int nal_to_rbsp(const uint8_t* nal_buf, int* nal_size, uint8_t* rbsp_buf, int* rbsp_size);
 
 int read_seq_parameter_set_rbsp(sps_t* h, bs_t* b);
-void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int useDefaultScalingMatrixFlag );
+void read_scaling_list(bs_t* b, int* scalingList, int sizeOfScalingList, int* useDefaultScalingMatrixFlag );
 int read_vui_parameters(sps_t* h, bs_t* b);
 int read_hrd_parameters(sps_t* h, bs_t* b);
 
-- 
2.43.0


From 2ec6d644c8503931de70e17b28ce6a283bc7f17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:27 +0000
Subject: [PATCH 107/160] fix: sequence parameter sets of 4:4:4 and scalable
 profiles were misread

---
 src/modules/transmitter/SPSparser/h264_stream.c | 9 +++++++--
 src/modules/transmitter/SPSparser/h264_stream.h | 6 +++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/modules/transmitter/SPSparser/h264_stream.c b/src/modules/transmitter/SPSparser/h264_stream.c
index 22e387e..2961eba 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.c
+++ b/src/modules/transmitter/SPSparser/h264_stream.c
@@ -116,7 +116,12 @@ int read_seq_parameter_set_rbsp(sps_t* sps, bs_t* b) {
 
     sps->chroma_format_idc = 1;
     if( sps->profile_idc == 100 || sps->profile_idc == 110 ||
-        sps->profile_idc == 122 || sps->profile_idc == 144 )
+        sps->profile_idc == 122 || sps->profile_idc == 144 ||
+        sps->profile_idc == 244 || sps->profile_idc == 44 ||
+        sps->profile_idc == 83 || sps->profile_idc == 86 ||
+        sps->profile_idc == 118 || sps->profile_idc == 128 ||
+        sps->profile_idc == 138 || sps->profile_idc == 139 ||
+        sps->profile_idc == 134 || sps->profile_idc == 135 )
     {
         sps->chroma_format_idc = bs_read_ue(b);
         if( sps->chroma_format_idc == 3 )
@@ -129,7 +134,7 @@ int read_seq_parameter_set_rbsp(sps_t* sps, bs_t* b) {
         sps->seq_scaling_matrix_present_flag = bs_read_u1(b);
         if( sps->seq_scaling_matrix_present_flag )
         {
-            for( i = 0; i < 8; i++ )
+            for( i = 0; i < ( ( sps->chroma_format_idc != 3 ) ? 8 : 12 ); i++ )
             {
                 sps->seq_scaling_list_present_flag[ i ] = bs_read_u1(b);
                 if( sps->seq_scaling_list_present_flag[ i ] )
diff --git a/src/modules/transmitter/SPSparser/h264_stream.h b/src/modules/transmitter/SPSparser/h264_stream.h
index 36ea0d0..4a6966e 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.h
+++ b/src/modules/transmitter/SPSparser/h264_stream.h
@@ -58,11 +58,11 @@ typedef struct
     int bit_depth_chroma_minus8;
     int qpprime_y_zero_transform_bypass_flag;
     int seq_scaling_matrix_present_flag;
-      int seq_scaling_list_present_flag[8];
+      int seq_scaling_list_present_flag[12];
       int* ScalingList4x4[6];
       int UseDefaultScalingMatrix4x4Flag[6];
-      int* ScalingList8x8[2];
-      int UseDefaultScalingMatrix8x8Flag[2];
+      int* ScalingList8x8[6];
+      int UseDefaultScalingMatrix8x8Flag[6];
     int log2_max_frame_num_minus4;
     int pic_order_cnt_type;
       int log2_max_pic_order_cnt_lsb_minus4;
-- 
2.43.0


From 7046aed0b211eb35fdacbd4dbc424693360e6c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:27 +0000
Subject: [PATCH 108/160] fix: truncated sequence parameter sets were accepted

---
 src/modules/transmitter/SPSparser/h264_stream.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/transmitter/SPSparser/h264_stream.c b/src/modules/transmitter/SPSparser/h264_stream.c
index 2961eba..617e092 100644
--- a/src/modules/transmitter/SPSparser/h264_stream.c
+++ b/src/modules/transmitter/SPSparser/h264_stream.c
@@ -202,6 +202,12 @@ int read_seq_parameter_set_rbsp(sps_t* sps, bs_t* b) {
     }
     read_rbsp_trailing_bits(b);
 
+    // fields beyond the end have been read as zeros
+    if( bs_overrun(b) )
+    {
+        return -1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 29535d14fb9d62cec5c41378efa6f7b283b7f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:37 +0000
Subject: [PATCH 109/160] fix: video encoders never released their stream
 information

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 0828b6f..1b0d605 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -42,6 +42,8 @@ VideoEncoderX264or5::~VideoEncoderX264or5()
     if (midFrame){
         av_frame_free(&midFrame);
     }
+
+    delete outputStreamInfo;
 }
 
 bool VideoEncoderX264or5::doProcessFrame(Frame *org, Frame *dst)
-- 
2.43.0


From d6b7662d6c9385d842901a33f88a5b1459d45109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:37 +0000
Subject: [PATCH 110/160] fix: the H.265 encoder never released its parameters
 and pictures

---
 src/modules/videoEncoder/VideoEncoderX265.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index 5a818ed..0f12dce 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -43,8 +43,10 @@ VideoEncoderX265::~VideoEncoderX265()
         x265_encoder_close(encoder);
         encoder = NULL;
     }
+    x265_picture_free(picIn);
+    x265_picture_free(picOut);
+    x265_param_free(xparams);
     //TODO check for x265_cleanup()?
-    //TODO add x265_picture_clean(&x265pic) or x265_picture_free(&x265pic)?
 }
 
 bool VideoEncoderX265::fillPicturePlanes(unsigned char** data, int* linesize)
-- 
2.43.0


From 55e586625582559bbbf50d6b351625e60ee5359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:21 +0000
Subject: [PATCH 111/160] fix: the shared memory exporter used the stream
 information of a filter that may be gone

---
 src/modules/sharedMemory/SharedMemory.cpp | 21 ++++++++++++++++++---
 src/modules/sharedMemory/SharedMemory.hh  |  6 +++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index e880a71..5b11907 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -54,7 +54,7 @@ SharedMemory* SharedMemory::createNew(VCodecType codec)
 }
 
 SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
-    OneToOneFilter(), enabled(true), newFrame(false), frameInfo(InterleavedVideoFrame::createNew(codec_, 0)), codec(codec_)
+    OneToOneFilter(), streamInfo(NULL), enabled(true), newFrame(false), frameInfo(InterleavedVideoFrame::createNew(codec_, 0)), codec(codec_)
 {
 
     if(!(codec == RAW || codec == H264)){
@@ -99,13 +99,13 @@ SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
     fType = SHARED_MEMORY;
     initializeEventMap();
 
-    streamInfo = NULL;
     maxFrames = 0;
 }
 
 SharedMemory::~SharedMemory()
 {
     delete frameInfo;
+    delete streamInfo;
 
     if (!enabled) {
         return;
@@ -451,6 +451,21 @@ bool SharedMemory::specificReaderConfig(int /*readerID*/, FrameQueue* queue) {
         return false;
     }
     maxFrames = avQueue->getMaxFrames();
-    streamInfo = avQueue->getStreamInfo();
+
+    const StreamInfo *inputInfo = avQueue->getStreamInfo();
+    if (!inputInfo) {
+        utils::errorMsg("Input queue has no stream information");
+        return false;
+    }
+    if (!streamInfo) {
+        streamInfo = new StreamInfo(inputInfo->type);
+    }
+    streamInfo->type = inputInfo->type;
+    if (inputInfo->type == AUDIO) {
+        streamInfo->audio = inputInfo->audio;
+    } else {
+        streamInfo->video = inputInfo->video;
+    }
+    streamInfo->setExtraData(inputInfo->extradata, inputInfo->extradata_size);
     return true;
 }
diff --git a/src/modules/sharedMemory/SharedMemory.hh b/src/modules/sharedMemory/SharedMemory.hh
index c932c85..5fd821e 100644
--- a/src/modules/sharedMemory/SharedMemory.hh
+++ b/src/modules/sharedMemory/SharedMemory.hh
@@ -123,9 +123,9 @@ private:
     PixType getPixTypeFromPixelFormat(uint16_t pixType);
     VCodecType getVCodecFromCodecType(uint16_t codecType);
 
-    // Cached copy of input stream info, used to configure output queue.
-    // It is not ours, hence the 'const' pointer.
-    const StreamInfo *streamInfo;
+    // Own copy of the input stream info, used to configure output queues:
+    // the filter the original belongs to may be gone before this one.
+    StreamInfo *streamInfo;
     unsigned maxFrames;
 
 private:
-- 
2.43.0


From d93ca96a3fab67fb313d988935e226bb059cfbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:24 +0000
Subject: [PATCH 112/160] fix: the parameters of an H.265 encoder that never
 encoded were not initialised

---
 src/modules/videoEncoder/VideoEncoderX265.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index 0f12dce..bf293e9 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -33,6 +33,7 @@ VideoEncoderX264or5(), encoder(NULL)
 {
     outputStreamInfo->video.codec = H265;
     xparams = x265_param_alloc();
+    x265_param_default(xparams);
     picIn = x265_picture_alloc();
     picOut = x265_picture_alloc();
 }
-- 
2.43.0


From 22a61c71aa110dde63f311550161903a47b30c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:58 +0000
Subject: [PATCH 113/160] fix: the shared memory exporter accepted sound and
 allocated its output from it as video

---
 src/modules/sharedMemory/SharedMemory.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index 5b11907..52bd81b 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -453,19 +453,14 @@ bool SharedMemory::specificReaderConfig(int /*readerID*/, FrameQueue* queue) {
     maxFrames = avQueue->getMaxFrames();
 
     const StreamInfo *inputInfo = avQueue->getStreamInfo();
-    if (!inputInfo) {
-        utils::errorMsg("Input queue has no stream information");
+    if (!inputInfo || inputInfo->type == AUDIO) {
+        utils::errorMsg("Input queue is not a video queue");
         return false;
     }
     if (!streamInfo) {
-        streamInfo = new StreamInfo(inputInfo->type);
-    }
-    streamInfo->type = inputInfo->type;
-    if (inputInfo->type == AUDIO) {
-        streamInfo->audio = inputInfo->audio;
-    } else {
-        streamInfo->video = inputInfo->video;
+        streamInfo = new StreamInfo(VIDEO);
     }
+    streamInfo->video = inputInfo->video;
     streamInfo->setExtraData(inputInfo->extradata, inputInfo->extradata_size);
     return true;
 }
-- 
2.43.0


From 92df23f7087a59a51c60c6de6ef634a7e49de694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 114/160] fix: splitter requests reset the frame time and the
 rotation when they were left out

---
 src/modules/videoSplitter/VideoSplitter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index ef93665..41f220a 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -246,7 +246,10 @@ bool VideoSplitter::configCropEvent(Jzon::Node* params)
     int x = params->Get("x").ToInt();
     int y = params->Get("y").ToInt();
     int degree = 0;
-    if(params->Has("degree")){
+    if (cropsConfig.count(id) > 0) {
+        degree = cropsConfig[id]->getDegree();
+    }
+    if(params->Has("degree") && params->Get("degree").IsNumber()){
     	degree = params->Get("degree").ToInt();
     }
     utils::infoMsg("ID: " + std::to_string(id) + " W: " + std::to_string(width) + " H: " + std::to_string(height) + " X: " + std::to_string(x) + " Y: " + std::to_string(y)+ " Degree: " + std::to_string(degree));
@@ -261,7 +264,7 @@ bool VideoSplitter::configureEvent(Jzon::Node* params)
         return false;
     }
 
-    std::chrono::microseconds fTime = std::chrono::microseconds(0);
+    std::chrono::microseconds fTime = getFrameTime();
 
     if (params->Has("fTime") && params->Get("fTime").IsNumber()){
   		fTime = std::chrono::microseconds(params->Get("fTime").ToInt());
-- 
2.43.0


From fe29f07549bf1a06715e543e4381fa6f9e57765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 115/160] fix: the video mixer ignored a width or height
 requested alone

---
 src/modules/videoMixer/VideoMixer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 5e00572..95207ee 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -324,9 +324,11 @@ bool VideoMixer::configureEvent(Jzon::Node* params)
         return false;
     }
 
-    if (params->Has("width") && params->Has("height") && 
-        params->Get("width").IsNumber() && params->Get("height").IsNumber()) {
+    if (params->Has("width") && params->Get("width").IsNumber()) {
         width = params->Get("width").ToInt();
+    }
+    
+    if (params->Has("height") && params->Get("height").IsNumber()) {
         height = params->Get("height").ToInt();
     }
     
-- 
2.43.0


From 55f35644ce57132762396d16a53713cb18f55045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 116/160] fix: configuring an encoder without pacing turned
 pacing on again when fps was left out

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 1b0d605..db5c2fb 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -194,7 +194,7 @@ bool VideoEncoderX264or5::configEvent(Jzon::Node* params)
     }
 
     tmpBitrate = bitrate;
-    tmpFps = fps;
+    tmpFps = getFrameTime().count() > 0 ? fps : 0;
     tmpGop = gop;
     tmpGopTime = gopTime;
     tmpLookahead = lookahead;
-- 
2.43.0


From f8c57bc3a9968c677c2a238a931dd53150a8fe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 117/160] fix: the resampler did not report its configuration

---
 src/modules/videoResampler/VideoResampler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index 83a9420..f38db3f 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -239,7 +239,10 @@ void VideoResampler::initializeEventMap()
 
 void VideoResampler::doGetState(Jzon::Object &filterNode)
 {
-    //TODO:
+    filterNode.Add("width", outputWidth);
+    filterNode.Add("height", outputHeight);
+    filterNode.Add("pixelFormat", (int) outPixFmt);
+    filterNode.Add("frameTime", (int) getFrameTime().count());
 }
 
 AVPixelFormat getLibavPixFmt(PixType pixType)
-- 
2.43.0


From bc6fec6abfcc72a11a92b26ffe875cac5fc567b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 118/160] fix: the dasher took negative durations, limits and
 bitrates for huge ones

---
 src/modules/dasher/Dasher.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 8b31882..823b20e 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -521,6 +521,13 @@ bool Dasher::configureEvent(Jzon::Node* params)
         bName = params->Get("baseName").ToString();
     }
 
+    for (auto name : {"segDurInSec", "maxSeg", "minBuffTime"}) {
+        if (params->Has(name) && params->Get(name).IsNumber() && params->Get(name).ToInt() < 0) {
+            utils::errorMsg("Error configuring Dasher: negative configuration values");
+            return false;
+        }
+    }
+
     if (params->Has("segDurInSec") && params->Get("segDurInSec").IsNumber()) {
         segDurInSec = params->Get("segDurInSec").ToInt();
     }
@@ -555,6 +562,10 @@ bool Dasher::setBitrateEvent(Jzon::Node* params)
     id = params->Get("id").ToInt();
     bitrate = params->Get("bitrate").ToInt();
 
+    if (bitrate < 0) {
+        return false;
+    }
+
     return setDashSegmenterBitrate(id, bitrate);
 }
 
-- 
2.43.0


From 98e972b933e1274fda2393d2decbf32ff9ef690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:06 +0000
Subject: [PATCH 119/160] fix: null request parameters were taken for zero

---
 src/modules/audioMixer/AudioMixer.cpp         |  9 +++++----
 src/modules/dasher/Dasher.cpp                 |  3 ++-
 src/modules/videoMixer/VideoMixer.cpp         | 12 ++++++++++++
 src/modules/videoResampler/VideoResampler.cpp |  7 +++++++
 4 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 237daaf..914638f 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -333,7 +333,8 @@ bool AudioMixer::changeChannelVolumeEvent(Jzon::Node* params)
         return false;
     }
 
-    if (!params->Has("id") || !params->Has("gain")) {
+    if (!params->Has("id") || !params->Has("gain") ||
+            !params->Get("id").IsNumber() || !params->Get("gain").IsNumber()) {
         return false;
     }
 
@@ -351,7 +352,7 @@ bool AudioMixer::muteChannelEvent(Jzon::Node* params)
         return false;
     }
 
-    if (!params->Has("id")) {
+    if (!params->Has("id") || !params->Get("id").IsNumber()) {
         return false;
     }
 
@@ -368,7 +369,7 @@ bool AudioMixer::soloChannelEvent(Jzon::Node* params)
         return false;
     }
 
-    if (!params->Has("id")) {
+    if (!params->Has("id") || !params->Get("id").IsNumber()) {
         return false;
     }
 
@@ -395,7 +396,7 @@ bool AudioMixer::changeMasterVolumeEvent(Jzon::Node* params)
         return false;
     }
 
-    if (!params->Has("gain")) {
+    if (!params->Has("gain") || !params->Get("gain").IsNumber()) {
         return false;
     }
 
diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 823b20e..799fb3c 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -555,7 +555,8 @@ bool Dasher::setBitrateEvent(Jzon::Node* params)
         return false;
     }
 
-    if (!params->Has("id") || !params->Has("bitrate")) {
+    if (!params->Has("id") || !params->Has("bitrate") ||
+            !params->Get("id").IsNumber() || !params->Get("bitrate").IsNumber()) {
         return false;
     }
 
diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 95207ee..95ed965 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -301,6 +301,18 @@ bool VideoMixer::configChannelEvent(Jzon::Node* params)
         return false;
     }
 
+    for (auto name : {"id", "width", "height", "x", "y", "layer", "opacity"}) {
+        if (!params->Get(name).IsNumber()) {
+            utils::errorMsg("[VideoMixer::configChannelEvent] Wrong type of " + std::string(name));
+            return false;
+        }
+    }
+
+    if (!params->Get("enabled").IsBool()) {
+        utils::errorMsg("[VideoMixer::configChannelEvent] Wrong type of enabled");
+        return false;
+    }
+
     int id = params->Get("id").ToInt();
     float width = params->Get("width").ToFloat();
     float height = params->Get("height").ToFloat();
diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index f38db3f..a9c74a3 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -200,6 +200,13 @@ bool VideoResampler::configEvent(Jzon::Node* params)
         return false;
     }
     
+    for (auto name : {"width", "height", "fps", "pixelFormat"}) {
+        if (params->Has(name) && !params->Get(name).IsNumber()) {
+            utils::errorMsg("[Resampler] Wrong type of " + std::string(name));
+            return false;
+        }
+    }
+
     width = outputWidth;
     height = outputHeight;
     if (getFrameTime().count() > 0){
-- 
2.43.0


From d8e135831954d9018ae13062596a57697fc5d052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:29 +0000
Subject: [PATCH 120/160] fix: the capture filter never released its stream
 information

---
 src/modules/V4LCapture/V4LCapture.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index d5c2c2c..dc5e8d8 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -56,6 +56,7 @@ V4LCapture::V4LCapture() : HeadFilter(1, REGULAR, true), status(CLOSE), forceFor
 V4LCapture::~V4LCapture()
 {
     releaseDevice();
+    delete oStreamInfo;
 }
 
 bool V4LCapture::configure(std::string device, unsigned width, unsigned height, unsigned fps, std::string format, bool fFormat)
-- 
2.43.0


From 5a3959dec1dbdc43574b4aa551cf481e2eeed00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:43 +0000
Subject: [PATCH 121/160] fix: an encoder preset that is not a text was stored
 and stopped the encoder

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index db5c2fb..e0b057a 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -231,7 +231,7 @@ bool VideoEncoderX264or5::configEvent(Jzon::Node* params)
         tmpAnnexB = params->Get("annexb").ToBool();
     }
 
-    if (params->Has("preset")) {
+    if (params->Has("preset") && params->Get("preset").IsString()) {
         tmpPreset = params->Get("preset").ToString();
     }
     
-- 
2.43.0


From d5b0fbe512509bdaced0967bf53f4230fc3ac061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:10 +0000
Subject: [PATCH 122/160] fix: reconfigure a capturing device with the
 requested rate, format and device

The recursive call passed the force format flag as the frame rate and left the format out, the device was never
opened again although another one was requested, and its buffers were still requested when the format was set.
A device that could not be stopped counted as configured.
---
 src/modules/V4LCapture/V4LCapture.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index dc5e8d8..f59f204 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -79,10 +79,10 @@ bool V4LCapture::configure(std::string device, unsigned width, unsigned height,
             }
             break;
         case CAPTURE:
-            if (stopCapturing() && uninitDevice()){
-                return configure(device, width, height, fFormat);
+            if (!releaseDevice()){
+                return false;
             }
-            break;
+            return configure(device, width, height, fps, format, fFormat);
     }
     
     frameDuration = std::chrono::microseconds((int)(std::micro::den/fps));
-- 
2.43.0


From 32f42e3afbe2c840ebd3d2891f5e6ab6c90910a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:10 +0000
Subject: [PATCH 123/160] fix: report the device that is captured

---
 src/modules/V4LCapture/V4LCapture.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index f59f204..f16b66c 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -260,6 +260,7 @@ bool V4LCapture::openDevice(std::string device)
             return false;
       }
       
+      this->device = device;
       status = OPEN;
       return true;
 }
-- 
2.43.0


From 8fbeb47ba7f217aa941179c7f26529a28b0a47f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:10 +0000
Subject: [PATCH 124/160] fix: refuse capture requests without a usable size or
 frame rate

Zero pictures per second divided by zero, negative numbers turned into huge ones.
---
 src/modules/V4LCapture/V4LCapture.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index f16b66c..1d475e5 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -61,6 +61,11 @@ V4LCapture::~V4LCapture()
 
 bool V4LCapture::configure(std::string device, unsigned width, unsigned height, unsigned fps, std::string format, bool fFormat)
 {
+    if (fps == 0 || fps > std::micro::den) {
+        utils::errorMsg("Unusable frame rate " + std::to_string(fps));
+        return false;
+    }
+
     forceFormat = fFormat;
     switch (status) {
         case CLOSE:
@@ -565,6 +570,11 @@ bool V4LCapture::configureEvent(Jzon::Node* params)
         (params->Has("forceformat") && !params->Get("forceformat").IsBool())) {
         return false;
     }
+
+    if (params->Get("width").ToInt() <= 0 || params->Get("height").ToInt() <= 0 ||
+        params->Get("fps").ToInt() <= 0) {
+        return false;
+    }
     
     return configure(params->Get("device").ToString(), 
               params->Get("width").ToInt(), 
-- 
2.43.0


From 41b1c4ff963932b7f075d5839c35a98bab095f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:10 +0000
Subject: [PATCH 125/160] fix: take the frame time the driver sets, numerator
 included

Drivers answer 1001/30000 or 333333/10000000; only the denominator was used. The average of the frame times starts
again with a new configuration.
---
 src/modules/V4LCapture/V4LCapture.cpp | 24 ++++++++++++++++++------
 src/modules/V4LCapture/V4LCapture.hh  |  2 +-
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index 1d475e5..eca3e0f 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -90,8 +90,6 @@ bool V4LCapture::configure(std::string device, unsigned width, unsigned height,
             return configure(device, width, height, fps, format, fFormat);
     }
     
-    frameDuration = std::chrono::microseconds((int)(std::micro::den/fps));
-    
     return true;
 }
 
@@ -340,7 +338,7 @@ void V4LCapture::closeDevice(void)
     status = CLOSE;
 }
 
-bool V4LCapture::initDevice(unsigned& xres, unsigned& yres, unsigned& den, std::string &format)
+bool V4LCapture::initDevice(unsigned& xres, unsigned& yres, unsigned den, std::string &format)
 {
     struct v4l2_capability cap;
     struct v4l2_cropcap cropcap;
@@ -436,12 +434,26 @@ bool V4LCapture::initDevice(unsigned& xres, unsigned& yres, unsigned& den, std::
         return false;
     }
     
-    if (fps.parm.capture.timeperframe.denominator != den){
+    frameDuration = std::chrono::microseconds((int)(std::micro::den/den));
+
+    if (fps.parm.capture.timeperframe.numerator > 0 && fps.parm.capture.timeperframe.denominator > 0){
+        frameDuration = std::chrono::microseconds(std::micro::den*
+            fps.parm.capture.timeperframe.numerator/fps.parm.capture.timeperframe.denominator);
+    }
+
+    if (frameDuration.count() <= 0){
+        utils::errorMsg("Unusable frame rate");
+        return false;
+    }
+
+    if ((unsigned) (std::micro::den/frameDuration.count()) != den){
         utils::warningMsg("Couldn't set fps to " + std::to_string(den) + ". Set to " 
-            + std::to_string(fps.parm.capture.timeperframe.denominator));
-        den = fps.parm.capture.timeperframe.denominator;
+            + std::to_string((float) std::micro::den/frameDuration.count()));
     }
 
+    frameCount = 0;
+    durationCount = std::chrono::microseconds(0);
+
     if (!init_mmap()){
         return false;
     }
diff --git a/src/modules/V4LCapture/V4LCapture.hh b/src/modules/V4LCapture/V4LCapture.hh
index e03a6a4..746ad08 100644
--- a/src/modules/V4LCapture/V4LCapture.hh
+++ b/src/modules/V4LCapture/V4LCapture.hh
@@ -70,7 +70,7 @@ private:
     bool openDevice(std::string device);
     void closeDevice();
 
-    bool initDevice(unsigned& xres, unsigned& yres, unsigned &den, std::string &format);
+    bool initDevice(unsigned& xres, unsigned& yres, unsigned den, std::string &format);
     bool uninitDevice();
 
     bool startCapturing();
-- 
2.43.0


From dd0a19ae254b421920187c82d8e059f89bf44f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:10 +0000
Subject: [PATCH 126/160] fix: copy whole captured pictures

Of planar pictures only the luma plane was copied, of compressed ones nothing; padding of lines went into the frame,
pictures larger than a frame were written beyond its end, and the length of the frame was not set.
---
 src/modules/V4LCapture/V4LCapture.cpp | 65 ++++++++++++++++++++++++++-
 src/modules/V4LCapture/V4LCapture.hh  |  1 +
 2 files changed, 64 insertions(+), 2 deletions(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index eca3e0f..c4a939e 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -227,8 +227,8 @@ bool V4LCapture::readFrame(VideoFrame *dstFrame)
         return false;
     }
     
-    memcpy(dstFrame->getDataBuf(), buffers[buf.index].data, 
-               fmt.fmt.pix.height * fmt.fmt.pix.bytesperline);
+    bool copied = copyPicture((unsigned char*) buffers[buf.index].data,
+                              buffers[buf.index].size, buf.bytesused, dstFrame);
     dstFrame->setSize(fmt.fmt.pix.width, fmt.fmt.pix.height);
     dstFrame->setPixelFormat(oStreamInfo->video.pixelFormat);
     
@@ -236,6 +236,67 @@ bool V4LCapture::readFrame(VideoFrame *dstFrame)
         return false;
     }
 
+    return copied;
+}
+
+bool V4LCapture::copyPicture(const unsigned char *src, size_t srcSize, size_t used, VideoFrame *dstFrame)
+{
+    size_t width = fmt.fmt.pix.width;
+    size_t height = fmt.fmt.pix.height;
+    size_t chromaHeight = 0;
+    size_t line, stride, length, lines;
+    unsigned char *dst = dstFrame->getDataBuf();
+
+    switch (oStreamInfo->video.pixelFormat){
+        case YUYV422:
+            line = width*2;
+            break;
+        case RGB24:
+            line = width*3;
+            break;
+        case YUV420P:
+            line = width;
+            chromaHeight = (height + 1)/2;
+            break;
+        case YUV422P:
+            line = width;
+            chromaHeight = height;
+            break;
+        default:
+            //compressed picture
+            if (used > srcSize || used > dstFrame->getMaxLength()){
+                utils::errorMsg("Captured data does not fit in a frame");
+                return false;
+            }
+            memcpy(dst, src, used);
+            dstFrame->setLength(used);
+            return true;
+    }
+
+    stride = fmt.fmt.pix.bytesperline > line ? fmt.fmt.pix.bytesperline : line;
+    length = line*height + ((width + 1)/2)*chromaHeight*2;
+    lines = stride*height + (stride/2)*chromaHeight*2;
+
+    //the last line might be not padded
+    if (lines - (stride - line) > srcSize || length > dstFrame->getMaxLength()){
+        utils::errorMsg("Captured picture does not fit in a frame");
+        return false;
+    }
+
+    //NOTE: frames have no padding, captured lines might have
+    for (size_t y = 0; y < height; y++){
+        memcpy(dst, src, line);
+        dst += line;
+        src += stride;
+    }
+
+    for (size_t y = 0; y < chromaHeight*2; y++){
+        memcpy(dst, src, (width + 1)/2);
+        dst += (width + 1)/2;
+        src += stride/2;
+    }
+
+    dstFrame->setLength(length);
     return true;
 }
 
diff --git a/src/modules/V4LCapture/V4LCapture.hh b/src/modules/V4LCapture/V4LCapture.hh
index 746ad08..cf136e7 100644
--- a/src/modules/V4LCapture/V4LCapture.hh
+++ b/src/modules/V4LCapture/V4LCapture.hh
@@ -77,6 +77,7 @@ private:
     bool stopCapturing();
 
     bool readFrame(VideoFrame* dstFrame);
+    bool copyPicture(const unsigned char *src, size_t srcSize, size_t used, VideoFrame *dstFrame);
     
     int getAvgFrameDuration(std::chrono::microseconds duration);
 
-- 
2.43.0


From db0cfd6b8ab9a401c28fb47c4beb828448d3ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:10 +0000
Subject: [PATCH 127/160] fix: unmap the capture buffers when not all of them
 can be mapped

---
 src/modules/V4LCapture/V4LCapture.cpp | 28 +++++++++++++++++++++------
 src/modules/V4LCapture/V4LCapture.hh  |  1 +
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index c4a939e..90e74c6 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -367,6 +367,7 @@ bool V4LCapture::init_mmap(void)
 
             if (xioctl(fd, VIDIOC_QUERYBUF, &buf) < 0){
                 utils::errorMsg("Failed requesting v4l buffers");
+                unmapBuffers();
                 return false;
             }
 
@@ -380,6 +381,7 @@ bool V4LCapture::init_mmap(void)
 
             if (MAP_FAILED == buffers[n_buffers].data){
                   utils::errorMsg("Mmap failed");
+                  unmapBuffers();
                   return false;
             }
       }
@@ -387,6 +389,24 @@ bool V4LCapture::init_mmap(void)
       return true;
 }
 
+bool V4LCapture::unmapBuffers(void)
+{
+    bool unmapped = true;
+
+    for (unsigned i = 0; i < n_buffers; ++i){
+        if (munmap(buffers[i].data, buffers[i].size) < 0){
+            utils::errorMsg("Failed unmapping buffers!");
+            unmapped = false;
+        }
+    }
+
+    free(buffers);
+    buffers = NULL;
+    n_buffers = 0;
+
+    return unmapped;
+}
+
 void V4LCapture::closeDevice(void)
 {
     if (status != OPEN){
@@ -530,15 +550,11 @@ bool V4LCapture::uninitDevice(void)
         return false;
     }
 
-    for (unsigned i = 0; i < n_buffers; ++i){
-        if (munmap(buffers[i].data, buffers[i].size) < 0){
-            utils::errorMsg("Failed unmapping buffers!");
-            return false;
-        }
+    if (!unmapBuffers()){
+        return false;
     }
 
     CLEAR(fmt);
-    free(buffers);
     status = OPEN;
     return true;
 }
diff --git a/src/modules/V4LCapture/V4LCapture.hh b/src/modules/V4LCapture/V4LCapture.hh
index cf136e7..6b89e4d 100644
--- a/src/modules/V4LCapture/V4LCapture.hh
+++ b/src/modules/V4LCapture/V4LCapture.hh
@@ -66,6 +66,7 @@ private:
     const bool getFrame(std::chrono::microseconds timeout, VideoFrame *dstFrame);
     
     bool init_mmap();
+    bool unmapBuffers();
 
     bool openDevice(std::string device);
     void closeDevice();
-- 
2.43.0


From f28b4eae842a20fdcc067b5ae45c632ab287ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:11 +0000
Subject: [PATCH 128/160] fix: give back a capture device that fails to stop

An unplugged camera refuses to stop streaming; its buffers and descriptor were kept for ever.
---
 src/modules/V4LCapture/V4LCapture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index 90e74c6..5e40cd3 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -602,8 +602,8 @@ bool V4LCapture::stopCapturing(void)
 
     type = V4L2_BUF_TYPE_VIDEO_CAPTURE;
     if (xioctl(fd, VIDIOC_STREAMOFF, &type) < 0){
+        //NOTE: closing the device stops it as well, and it might have been unplugged
         utils::errorMsg("VIDIOC_STREAMOFF");
-        return false;
     }
     
     status = INIT;
-- 
2.43.0


From b2da22b436c386c6435bd296f2a7a86997609d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:13 +0000
Subject: [PATCH 129/160] fix: capture raw pictures after compressed ones

The codec of an earlier configuration was kept, so that a reconfigured device could not be connected.
---
 src/modules/V4LCapture/V4LCapture.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index 5e40cd3..564b9cf 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -502,7 +502,10 @@ bool V4LCapture::initDevice(unsigned& xres, unsigned& yres, unsigned den, std::s
     oStreamInfo->video.pixelFormat = pixelType(fmt.fmt.pix.pixelformat);
     if (oStreamInfo->video.pixelFormat == P_NONE){
         oStreamInfo->video.codec = codecType(fmt.fmt.pix.pixelformat);
+    } else {
+        oStreamInfo->video.codec = RAW;
     }
+    oStreamInfo->setCodecDefaults();
     
     CLEAR(fps);
     fps.type = V4L2_BUF_TYPE_VIDEO_CAPTURE;
-- 
2.43.0


From f6139c1ada772d2b9531f1b2791f96104f5deb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:13 +0000
Subject: [PATCH 130/160] fix: recognise the YUV422P format that is requested
 from capture devices

---
 src/modules/V4LCapture/V4LCapture.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index 564b9cf..81f7398 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -700,6 +700,9 @@ static PixType pixelType(unsigned pixelFormat)
         case V4L2_PIX_FMT_YUV420:
             return YUV420P;
             break;
+        case V4L2_PIX_FMT_YUV422P:
+            return YUV422P;
+            break;
         case V4L2_PIX_FMT_RGB24:
             return RGB24;
             break;
-- 
2.43.0


From d7adba9e6471e0ee8689bf76f2afc36a4647a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:11 +0000
Subject: [PATCH 131/160] fix: give Jzon its CRLF line endings back, an earlier
 fix had converted them by accident

---
 src/Jzon.cpp | 3006 +++++++++++++++++++++++++-------------------------
 src/Jzon.h   |  896 +++++++--------
 2 files changed, 1951 insertions(+), 1951 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index e596a46..8666f02 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1,1503 +1,1503 @@
-/*
-Copyright (c) 2013 Johannes Häggqvist
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in
-all copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
-THE SOFTWARE.
-*/
-#include "Jzon.h"
-
-#include <sstream>
-#include <fstream>
-#include <stack>
-#include <algorithm>
-#include <cctype>
-#include <limits>
-
-namespace Jzon
-{
-	class FormatInterpreter
-	{
-	public:
-		FormatInterpreter()
-		{
-			SetFormat(NoFormat);
-		}
-		FormatInterpreter(const Format &format)
-		{
-			SetFormat(format);
-		}
-
-		void SetFormat(const Format &format)
-		{
-			this->format = format;
-			indentationChar = (format.useTabs ? '\t' : ' ');
-			spacing = (format.spacing ? " " : "");
-			newline = (format.newline ? "\n" : spacing);
-		}
-
-		std::string GetIndentation(unsigned int level) const
-		{
-			if (!format.newline)
-			{
-				return "";
-			}
-			else
-			{
-				return std::string(format.indentSize * level, indentationChar);
-			}
-		}
-		
-		inline const std::string &GetNewline() const
-		{
-			return newline;
-		}
-		inline const std::string &GetSpacing() const
-		{
-			return spacing;
-		}
-
-	private:
-		Format format;
-		char indentationChar;
-		std::string newline;
-		std::string spacing;
-	};
-
-	static bool isDelimiter(char c)
-	{
-		return (std::string("{}[],:\"").find(c) != std::string::npos);
-	}
-
-	void RemoveWhitespace(const std::string &json, std::string &freshJson)
-	{
-		freshJson.clear();
-
-		bool comment = false;
-		int multicomment = 0;
-		bool inString = false;
-		bool escaped = false;
-		bool gap = false;
-
-		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
-		{
-			char c1 = (*it);
-			char c2 = '\0';
-			if (it+1 != json.end())
-				c2 = (*(it+1));
-
-			if (!escaped && c1 == '"' && !comment && multicomment == 0)
-			{
-				inString = !inString;
-			}
-			escaped = (inString && !escaped && c1 == '\\');
-
-			if (!inString)
-			{
-				if (!comment && c1 == '/' && c2 == '*')
-				{
-					++multicomment;
-					if (it+1 != json.end())
-						++it;
-					gap = true;
-					continue;
-				}
-				else if (multicomment > 0 && c1 == '*' && c2 == '/')
-				{
-					--multicomment;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (!comment && multicomment == 0 && c1 == '/' && c2 == '/')
-				{
-					comment = true;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (c1 == '\n')
-				{
-					comment = false;
-				}
-			}
-
-			if (comment || multicomment > 0)
-			{
-				gap = true;
-				continue;
-			}
-
-			if (inString)
-			{
-				freshJson += c1;
-			}
-			else
-			{
-				if ((c1 != '\n')&&(c1 != ' ')&&(c1 != '\t')&&(c1 != '\r')&&(c1 != '\f'))
-				{
-					// Keep two values apart if nothing else does
-					if (gap && !freshJson.empty() && !isDelimiter(freshJson[freshJson.size()-1]) && !isDelimiter(c1))
-						freshJson += ' ';
-					freshJson += c1;
-				}
-				else
-				{
-					gap = true;
-					continue;
-				}
-			}
-			gap = false;
-		}
-	}
-
-	// Writes a number with as few digits as are needed to read it back
-	template <class T>
-	static std::string numberToString(T value)
-	{
-		for (int digits = std::numeric_limits<T>::digits10; ; ++digits)
-		{
-			std::stringstream sstr;
-			sstr.precision(digits);
-			sstr << value;
-
-			T readBack;
-			if (digits >= std::numeric_limits<T>::max_digits10 || ((sstr >> readBack) && readBack == value))
-				return sstr.str();
-		}
-	}
-
-	Node::Node()
-	{
-	}
-	Node::~Node()
-	{
-	}
-
-	Object &Node::AsObject()
-	{
-		if (IsObject())
-			return static_cast<Object&>(*this);
-		else
-			throw TypeException();
-	}
-	const Object &Node::AsObject() const
-	{
-		if (IsObject())
-			return static_cast<const Object&>(*this);
-		else
-			throw TypeException();
-	}
-	Array &Node::AsArray()
-	{
-		if (IsArray())
-			return static_cast<Array&>(*this);
-		else
-			throw TypeException();
-	}
-	const Array &Node::AsArray() const
-	{
-		if (IsArray())
-			return static_cast<const Array&>(*this);
-		else
-			throw TypeException();
-	}
-	Value &Node::AsValue()
-	{
-		if (IsValue())
-			return static_cast<Value&>(*this);
-		else
-			throw TypeException();
-	}
-	const Value &Node::AsValue() const
-	{
-		if (IsValue())
-			return static_cast<const Value&>(*this);
-		else
-			throw TypeException();
-	}
-
-	Node::Type Node::DetermineType(const std::string &_json)
-	{
-		std::string json;
-		RemoveWhitespace(_json, json);
-
-		Node::Type type = T_VALUE;
-		if (!json.empty())
-		{
-			switch (json.at(0))
-			{
-			case '{' : type = T_OBJECT; break;
-			case '[' : type = T_ARRAY; break;
-			}
-		}
-
-		return type;
-	}
-
-
-	Value::Value()
-	{
-		SetNull();
-	}
-	Value::Value(const Value &rhs)
-	{
-		Set(rhs);
-	}
-	Value::Value(const Node &rhs)
-	{
-		const Value &value = rhs.AsValue();
-		Set(value);
-	}
-	Value::Value(ValueType type, const std::string &value)
-	{
-		Set(type, value);
-	}
-	Value::Value(const std::string &value)
-	{
-		Set(value);
-	}
-	Value::Value(const char *value)
-	{
-		Set(value);
-	}
-	Value::Value(const int value)
-	{
-		Set(value);
-	}
-	Value::Value(const float value)
-	{
-		Set(value);
-	}
-	Value::Value(const double value)
-	{
-		Set(value);
-	}
-	Value::Value(const bool value)
-	{
-		Set(value);
-	}
-	Value::~Value()
-	{
-	}
-
-	Node::Type Value::GetType() const
-	{
-		return T_VALUE;
-	}
-	Value::ValueType Value::GetValueType() const
-	{
-		return type;
-	}
-
-	std::string Value::ToString() const
-	{
-		if (IsNull())
-			return "null";
-		else
-			return valueStr;
-	}
-	int Value::ToInt() const
-	{
-		if (IsNull())
-			return 0;
-		else
-		{
-			if (IsNumber())
-			{
-				double val = ToDouble();
-				if (val >= std::numeric_limits<int>::max())
-					return std::numeric_limits<int>::max();
-				if (val <= std::numeric_limits<int>::min())
-					return std::numeric_limits<int>::min();
-				return static_cast<int>(val);
-			}
-			else
-				throw ValueException();
-		}
-	}
-	float Value::ToFloat() const
-	{
-		if (IsNull())
-			return 0.0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				float val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	double Value::ToDouble() const
-	{
-		if (IsNull())
-			return 0.0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				double val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	bool Value::ToBool() const
-	{
-		if (IsNull())
-			return false;
-		else
-			if (IsBool())
-				return (valueStr == "true");
-			else
-				throw ValueException();
-	}
-
-	void Value::SetNull()
-	{
-		valueStr = "";
-		type     = VT_NULL;
-	}
-	void Value::Set(const Value &value)
-	{
-		if (this != &value)
-		{
-			valueStr = value.valueStr;
-			type     = value.type;
-		}
-	}
-	void Value::Set(ValueType type, const std::string &value)
-	{
-		valueStr   = value;
-		this->type = type;
-	}
-	void Value::Set(const std::string &value)
-	{
-		valueStr = UnescapeString(value);
-		type     = VT_STRING;
-	}
-	void Value::Set(const char *value)
-	{
-		valueStr = UnescapeString(std::string(value));
-		type     = VT_STRING;
-	}
-	void Value::Set(const int value)
-	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const float value)
-	{
-		valueStr = numberToString(value);
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const double value)
-	{
-		valueStr = numberToString(value);
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const bool value)
-	{
-		if (value)
-			valueStr = "true";
-		else
-			valueStr = "false";
-		type = VT_BOOL;
-	}
-
-	Value &Value::operator=(const Value &rhs)
-	{
-		if (this != &rhs)
-			Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const Node &rhs)
-	{
-		if (this != &rhs)
-			Set(rhs.AsValue());
-		return *this;
-	}
-	Value &Value::operator=(const std::string &rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const char *rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const int rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const float rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const double rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const bool rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-
-	bool Value::operator==(const Value &other) const
-	{
-		return ((type == other.type)&&(valueStr == other.valueStr));
-	}
-	bool Value::operator!=(const Value &other) const
-	{
-		return !(*this == other);
-	}
-
-	Node *Value::GetCopy() const
-	{
-		return new Value(*this);
-	}
-
-	// This is not the most beautiful place for these, but it'll do
-	static const char charsUnescaped[] = { '\\'  , '/'  , '\"'  , '\n' , '\t' , '\b' , '\f' , '\r' };
-	static const char *charsEscaped[]  = { "\\\\", "\\/", "\\\"", "\\n", "\\t", "\\b", "\\f", "\\r" };
-	static const unsigned int numEscapeChars = 8;
-	static const char nullUnescaped = '\0';
-	static const char *nullEscaped  = "\0\0";
-	const char *&getEscaped(const char &c)
-	{
-		for (unsigned int i = 0; i < numEscapeChars; ++i)
-		{
-			const char &ue = charsUnescaped[i];
-
-			if (c == ue)
-			{
-				const char *&e = charsEscaped[i];
-				return e;
-			}
-		}
-		return nullEscaped;
-	}
-	const char &getUnescaped(const char &c1, const char &c2)
-	{
-		for (unsigned int i = 0; i < numEscapeChars; ++i)
-		{
-			const char *&e = charsEscaped[i];
-
-			if (c1 == e[0] && c2 == e[1])
-			{
-				const char &ue = charsUnescaped[i];
-				return ue;
-			}
-		}
-		return nullUnescaped;
-	}
-
-	// Reads the value of a \uXXXX escape
-	static bool getCodeUnit(const std::string &value, size_t pos, unsigned int &code)
-	{
-		if (value.size() < 6 || pos > value.size() - 6 || value[pos] != '\\' || value[pos+1] != 'u')
-			return false;
-
-		code = 0;
-		for (size_t i = pos + 2; i < pos + 6; ++i)
-		{
-			const char c = value[i];
-			if (c >= '0' && c <= '9')
-				code = code*16 + (c - '0');
-			else if (c >= 'a' && c <= 'f')
-				code = code*16 + (c - 'a' + 10);
-			else if (c >= 'A' && c <= 'F')
-				code = code*16 + (c - 'A' + 10);
-			else
-				return false;
-		}
-		return true;
-	}
-	static void appendUtf8(std::string &str, unsigned int code)
-	{
-		if (code < 0x80)
-		{
-			str += (char)code;
-		}
-		else if (code < 0x800)
-		{
-			str += (char)(0xC0 | (code >> 6));
-			str += (char)(0x80 | (code & 0x3F));
-		}
-		else if (code < 0x10000)
-		{
-			str += (char)(0xE0 | (code >> 12));
-			str += (char)(0x80 | ((code >> 6) & 0x3F));
-			str += (char)(0x80 | (code & 0x3F));
-		}
-		else
-		{
-			str += (char)(0xF0 | (code >> 18));
-			str += (char)(0x80 | ((code >> 12) & 0x3F));
-			str += (char)(0x80 | ((code >> 6) & 0x3F));
-			str += (char)(0x80 | (code & 0x3F));
-		}
-	}
-
-	std::string Value::EscapeString(const std::string &value)
-	{
-		std::string escaped;
-
-		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-		{
-			const char &c = (*it);
-
-			const char *&a = getEscaped(c);
-			if (a[0] != '\0')
-			{
-				escaped += a[0];
-				escaped += a[1];
-			}
-			else if ((unsigned char)c < 0x20)
-			{
-				static const char digits[] = "0123456789abcdef";
-				escaped += "\\u00";
-				escaped += digits[c >> 4];
-				escaped += digits[c & 0xF];
-			}
-			else
-			{
-				escaped += c;
-			}
-		}
-
-		return escaped;
-	}
-	std::string Value::UnescapeString(const std::string &value)
-	{
-		std::string unescaped;
-
-		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-		{
-			const char &c = (*it);
-			char c2 = '\0';
-			if (it+1 != value.end())
-				c2 = *(it+1);
-
-			const char &a = getUnescaped(c, c2);
-			unsigned int code, low;
-			if (a != '\0')
-			{
-				unescaped += a;
-				if (it+1 != value.end())
-					++it;
-			}
-			else if (getCodeUnit(value, it - value.begin(), code))
-			{
-				it += 5;
-				if (code >= 0xD800 && code < 0xDC00 && getCodeUnit(value, it + 1 - value.begin(), low) && low >= 0xDC00 && low < 0xE000)
-				{
-					code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
-					it += 6;
-				}
-				appendUtf8(unescaped, code);
-			}
-			else
-			{
-				unescaped += c;
-			}
-		}
-
-		return unescaped;
-	}
-
-
-	Object::Object()
-	{
-	}
-	Object::Object(const Object &other)
-	{
-		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			Node &value = *(*it).second;
-
-			children.push_back(std::make_pair(name, value.GetCopy()));
-		}
-	}
-	Object::Object(const Node &other)
-	{
-		const Object &object = other.AsObject();
-
-		for (ChildList::const_iterator it = object.children.begin(); it != object.children.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			Node &value = *(*it).second;
-
-			children.push_back(std::make_pair(name, value.GetCopy()));
-		}
-	}
-	Object &Object::operator=(const Object &rhs)
-	{
-		Object copy(rhs);
-		children.swap(copy.children);
-		return *this;
-	}
-	Object::~Object()
-	{
-		Clear();
-	}
-
-	Node::Type Object::GetType() const
-	{
-		return T_OBJECT;
-	}
-
-	void Object::Add(const std::string &name, Node &node)
-	{
-		children.push_back(std::make_pair(name, node.GetCopy()));
-	}
-	void Object::Add(const std::string &name, Value node)
-	{
-		children.push_back(std::make_pair(name, new Value(node)));
-	}
-	void Object::Remove(const std::string &name)
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				delete (*it).second;
-				children.erase(it);
-				break;
-			}
-		}
-	}
-	void Object::Clear()
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			delete (*it).second;
-			(*it).second = NULL;
-		}
-		children.clear();
-	}
-
-	Object::iterator Object::begin()
-	{
-		if (!children.empty())
-			return Object::iterator(&children.front());
-		else
-			return Object::iterator(NULL);
-	}
-	Object::const_iterator Object::begin() const
-	{
-		if (!children.empty())
-			return Object::const_iterator(&children.front());
-		else
-			return Object::const_iterator(NULL);
-	}
-	Object::iterator Object::end()
-	{
-		if (!children.empty())
-			return Object::iterator(&children.back()+1);
-		else
-			return Object::iterator(NULL);
-	}
-	Object::const_iterator Object::end() const
-	{
-		if (!children.empty())
-			return Object::const_iterator(&children.back()+1);
-		else
-			return Object::const_iterator(NULL);
-	}
-
-	bool Object::Has(const std::string &name) const
-	{
-		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				return true;
-			}
-		}
-		return false;
-	}
-	size_t Object::GetCount() const
-	{
-		return children.size();
-	}
-	Node &Object::Get(const std::string &name) const
-	{
-		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				return *(*it).second;
-			}
-		}
-		
-		throw NotFoundException();
-	}
-
-	Node *Object::GetCopy() const
-	{
-		return new Object(*this);
-	}
-
-
-	Array::Array()
-	{
-	}
-	Array::Array(const Array &other)
-	{
-		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
-		{
-			const Node &value = *(*it);
-
-			children.push_back(value.GetCopy());
-		}
-	}
-	Array::Array(const Node &other)
-	{
-		const Array &array = other.AsArray();
-
-		for (ChildList::const_iterator it = array.children.begin(); it != array.children.end(); ++it)
-		{
-			const Node &value = *(*it);
-
-			children.push_back(value.GetCopy());
-		}
-	}
-	Array &Array::operator=(const Array &rhs)
-	{
-		Array copy(rhs);
-		children.swap(copy.children);
-		return *this;
-	}
-	Array::~Array()
-	{
-		Clear();
-	}
-
-	Node::Type Array::GetType() const
-	{
-		return T_ARRAY;
-	}
-
-	void Array::Add(Node &node)
-	{
-		children.push_back(node.GetCopy());
-	}
-	void Array::Add(Value node)
-	{
-		children.push_back(new Value(node));
-	}
-	void Array::Remove(size_t index)
-	{
-		if (index < children.size())
-		{
-			ChildList::iterator it = children.begin()+index;
-			delete (*it);
-			children.erase(it);
-		}
-	}
-	void Array::Clear()
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			delete (*it);
-			(*it) = NULL;
-		}
-		children.clear();
-	}
-
-	Array::iterator Array::begin()
-	{
-		if (!children.empty())
-			return Array::iterator(&children.front());
-		else
-			return Array::iterator(NULL);
-	}
-	Array::const_iterator Array::begin() const
-	{
-		if (!children.empty())
-			return Array::const_iterator(&children.front());
-		else
-			return Array::const_iterator(NULL);
-	}
-	Array::iterator Array::end()
-	{
-		if (!children.empty())
-			return Array::iterator(&children.back()+1);
-		else
-			return Array::iterator(NULL);
-	}
-	Array::const_iterator Array::end() const
-	{
-		if (!children.empty())
-			return Array::const_iterator(&children.back()+1);
-		else
-			return Array::const_iterator(NULL);
-	}
-
-	size_t Array::GetCount() const
-	{
-		return children.size();
-	}
-	Node &Array::Get(size_t index) const
-	{
-		if (index < children.size())
-		{
-			return *children.at(index);
-		}
-
-		throw NotFoundException();
-	}
-
-	Node *Array::GetCopy() const
-	{
-		return new Array(*this);
-	}
-
-
-	FileWriter::FileWriter(const std::string &filename) : filename(filename)
-	{
-	}
-	FileWriter::~FileWriter()
-	{
-	}
-
-	void FileWriter::WriteFile(const std::string &filename, const Node &root, const Format &format)
-	{
-		FileWriter writer(filename);
-		writer.Write(root, format);
-	}
-
-	void FileWriter::Write(const Node &root, const Format &format)
-	{
-		Writer writer(root, format);
-		writer.Write();
-
-		std::fstream file(filename.c_str(), std::ios::out | std::ios::trunc);
-		file << writer.GetResult();
-		file.close();
-	}
-
-
-	FileReader::FileReader(const std::string &filename)
-	{
-		if (!loadFile(filename, json))
-		{
-			error = "Failed to load file";
-		}
-	}
-	FileReader::~FileReader()
-	{
-	}
-
-	bool FileReader::ReadFile(const std::string &filename, Node &node)
-	{
-		FileReader reader(filename);
-		return reader.Read(node);
-	}
-
-	bool FileReader::Read(Node &node)
-	{
-		if (!error.empty())
-			return false;
-
-		Parser parser(node, json);
-		if (!parser.Parse())
-		{
-			error = parser.GetError();
-			return false;
-		}
-		else
-		{
-			return true;
-		}
-	}
-
-	Node::Type FileReader::DetermineType()
-	{
-		return Node::DetermineType(json);
-	}
-
-	const std::string &FileReader::GetError() const
-	{
-		return error;
-	}
-
-	bool FileReader::loadFile(const std::string &filename, std::string &json)
-	{
-		std::fstream file(filename.c_str(), std::ios::in | std::ios::binary);
-
-		if (!file.is_open())
-		{
-			return false;
-		}
-
-		file.seekg(0, std::ios::end);
-		std::ios::pos_type size = file.tellg();
-		file.seekg(0, std::ios::beg);
-
-		json.resize(static_cast<std::string::size_type>(size), '\0');
-		file.read(&json[0], size);
-
-		return true;
-	}
-
-
-	Writer::Writer(const Node &root, const Format &format) : fi(new FormatInterpreter), root(root)
-	{
-		SetFormat(format);
-	}
-	Writer::~Writer()
-	{
-		delete fi;
-		fi = NULL;
-	}
-
-	void Writer::SetFormat(const Format &format)
-	{
-		fi->SetFormat(format);
-	}
-	void Writer::Write()
-	{
-		result.clear();
-		writeNode(root, 0);
-	}
-
-	const std::string &Writer::GetResult() const
-	{
-		return result;
-	}
-
-	void Writer::writeNode(const Node &node, unsigned int level)
-	{
-		switch (node.GetType())
-		{
-		case Node::T_OBJECT : writeObject(node.AsObject(), level); break;
-		case Node::T_ARRAY  : writeArray(node.AsArray(), level);   break;
-		case Node::T_VALUE  : writeValue(node.AsValue());          break;
-		}
-	}
-	void Writer::writeObject(const Object &node, unsigned int level)
-	{
-		result += "{" + fi->GetNewline();
-
-		for (Object::const_iterator it = node.begin(); it != node.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			const Node &value = (*it).second;
-
-			if (it != node.begin())
-				result += "," + fi->GetNewline();
-			result += fi->GetIndentation(level+1) + "\""+Value::EscapeString(name)+"\"" + ":" + fi->GetSpacing();
-			writeNode(value, level+1);
-		}
-
-		result += fi->GetNewline() + fi->GetIndentation(level) + "}";
-	}
-	void Writer::writeArray(const Array &node, unsigned int level)
-	{
-		result += "[" + fi->GetNewline();
-
-		for (Array::const_iterator it = node.begin(); it != node.end(); ++it)
-		{
-			const Node &value = (*it);
-
-			if (it != node.begin())
-				result += "," + fi->GetNewline();
-			result += fi->GetIndentation(level+1);
-			writeNode(value, level+1);
-		}
-
-		result += fi->GetNewline() + fi->GetIndentation(level) + "]";
-	}
-	void Writer::writeValue(const Value &node)
-	{
-		if (node.IsString())
-		{
-			result += "\""+Value::EscapeString(node.ToString())+"\"";
-		}
-		else
-		{
-			result += node.ToString();
-		}
-	}
-
-
-	Parser::Parser(Node &root) : root(root)
-	{
-	}
-	Parser::Parser(Node &root, const std::string &json) : root(root)
-	{
-		SetJson(json);
-	}
-	Parser::~Parser()
-	{
-	}
-
-	void Parser::SetJson(const std::string &json)
-	{
-		RemoveWhitespace(json, this->json);
-	}
-	bool Parser::Parse()
-	{
-		cursor = 0;
-		error.clear();
-		tokens = std::queue<Token>();
-		data = std::queue<std::pair<Value::ValueType, std::string> >();
-		clearRoot();
-
-		tokenize();
-		bool success = assemble();
-		if (!success)
-			clearRoot();
-
-		return success;
-	}
-
-	void Parser::clearRoot()
-	{
-		switch (root.GetType())
-		{
-		case Node::T_OBJECT : root.AsObject().Clear();  break;
-		case Node::T_ARRAY  : root.AsArray().Clear();   break;
-		case Node::T_VALUE  : root.AsValue().SetNull(); break;
-		}
-	}
-
-	// Hands the node over to its parent, if that can have children
-	bool Parser::addChild(Node &parent, const std::string &name, Node *node)
-	{
-		if (parent.IsObject())
-		{
-			parent.AsObject().children.push_back(std::make_pair(name, node));
-		}
-		else if (parent.IsArray())
-		{
-			parent.AsArray().children.push_back(node);
-		}
-		else
-		{
-			delete node;
-			error = "Can only add elements to objects and arrays";
-			return false;
-		}
-
-		return true;
-	}
-
-	const std::string &Parser::GetError() const
-	{
-		return error;
-	}
-
-	void Parser::tokenize()
-	{
-		Token token;
-		std::string valueBuffer;
-		bool saveBuffer;
-
-		for (; cursor < json.size(); ++cursor)
-		{
-			char c = json.at(cursor);
-
-			saveBuffer = true;
-
-			switch (c)
-			{
-			case '{' :
-				{
-					token = T_OBJ_BEGIN;
-					break;
-				}
-			case '}' :
-				{
-					token = T_OBJ_END;
-					break;
-				}
-			case '[' :
-				{
-					token = T_ARRAY_BEGIN;
-					break;
-				}
-			case ']' :
-				{
-					token = T_ARRAY_END;
-					break;
-				}
-			case ',' :
-				{
-					token = T_SEPARATOR_NODE;
-					break;
-				}
-			case ' ' :
-				{
-					token = T_SEPARATOR_NODE;
-					break;
-				}
-			case ':' :
-				{
-					token = T_SEPARATOR_NAME;
-					break;
-				}
-			case '"' :
-				{
-					token = T_VALUE;
-					break;
-				}
-			default :
-				{
-					valueBuffer += c;
-					saveBuffer = false;
-					break;
-				}
-			}
-
-			if ((saveBuffer || cursor == json.size()-1) && (!valueBuffer.empty())) // Always save buffer on the last character
-			{
-				if (interpretValue(valueBuffer))
-				{
-					tokens.push(T_VALUE);
-				}
-				else
-				{
-					// Store the unknown token, so we can show it to the user
-					data.push(std::make_pair(Value::VT_STRING, valueBuffer));
-					tokens.push(T_UNKNOWN);
-				}
-
-				valueBuffer.clear();
-			}
-
-			// Push the token last so that any
-			// value token will get pushed first
-			// from above.
-			// If saveBuffer is false, it means that
-			// we are in the middle of a value, so we
-			// don't want to push any tokens now.
-			if (saveBuffer)
-			{
-				if (token == T_VALUE && !readString())
-					token = T_UNKNOWN;
-				tokens.push(token);
-			}
-		}
-	}
-	bool Parser::assemble()
-	{
-		std::stack<Node*> nodeStack;
-
-		std::string name = "";
-		bool started = false;
-
-		Token token;
-		while (!tokens.empty())
-		{
-			token = tokens.front();
-			tokens.pop();
-
-			switch (token)
-			{
-			case T_UNKNOWN :
-				{
-					const std::string &unknownToken = data.front().second;
-					error = "Unknown token: "+unknownToken;
-					data.pop();
-					return false;
-				}
-			case T_OBJ_BEGIN :
-				{
-					Node *node = NULL;
-					if (nodeStack.empty())
-					{
-						if (started)
-						{
-							error = "Found more than one document";
-							return false;
-						}
-						started = true;
-						if (!root.IsObject())
-						{
-							error = "The given root node is not an object";
-							return false;
-						}
-
-						node = &root;
-					}
-					else
-					{
-						node = new Object;
-						if (!addChild(*nodeStack.top(), name, node))
-							return false;
-					}
-
-					nodeStack.push(node);
-					name.clear();
-					if (nodeStack.size() > MaxDepth)
-					{
-						error = "Too many nested objects and arrays";
-						return false;
-					}
-					break;
-				}
-			case T_ARRAY_BEGIN :
-				{
-					Node *node = NULL;
-					if (nodeStack.empty())
-					{
-						if (started)
-						{
-							error = "Found more than one document";
-							return false;
-						}
-						started = true;
-						if (!root.IsArray())
-						{
-							error = "The given root node is not an array";
-							return false;
-						}
-
-						node = &root;
-					}
-					else
-					{
-						node = new Array;
-						if (!addChild(*nodeStack.top(), name, node))
-							return false;
-					}
-
-					nodeStack.push(node);
-					name.clear();
-					if (nodeStack.size() > MaxDepth)
-					{
-						error = "Too many nested objects and arrays";
-						return false;
-					}
-					break;
-				}
-			case T_OBJ_END :
-			case T_ARRAY_END :
-				{
-					if (nodeStack.empty())
-					{
-						error = "Found end of object or array without beginning";
-						return false;
-					}
-					if (token == T_OBJ_END && !nodeStack.top()->IsObject())
-					{
-						error = "Mismatched end and beginning of object";
-						return false;
-					}
-					if (token == T_ARRAY_END && !nodeStack.top()->IsArray())
-					{
-						error = "Mismatched end and beginning of array";
-						return false;
-					}
-
-					nodeStack.pop();
-					break;
-				}
-			case T_VALUE :
-				{
-					if (!tokens.empty() && tokens.front() == T_SEPARATOR_NAME)
-					{
-						tokens.pop();
-						if (data.front().first != Value::VT_STRING)
-						{
-							error = "A name has to be a string";
-							return false;
-						}
-						else
-						{
-							name = Value::UnescapeString(data.front().second);
-							data.pop();
-						}
-					}
-					else
-					{
-						Node *node = NULL;
-						if (nodeStack.empty())
-						{
-							if (started)
-							{
-								error = "Found more than one document";
-								return false;
-							}
-							started = true;
-							if (!root.IsValue())
-							{
-								error = "The given root node is not a value";
-								return false;
-							}
-
-							node = &root;
-						}
-						else
-						{
-							node = new Value;
-						}
-
-						if (data.front().first == Value::VT_STRING)
-						{
-							static_cast<Value*>(node)->Set(data.front().second); // This method calls UnescapeString()
-						}
-						else
-						{
-							static_cast<Value*>(node)->Set(data.front().first, data.front().second);
-						}
-						data.pop();
-
-						if (!nodeStack.empty())
-						{
-							if (!addChild(*nodeStack.top(), name, node))
-								return false;
-
-							name.clear();
-						}
-						else
-						{
-							nodeStack.push(node);
-							name.clear();
-						}
-					}
-					break;
-				}
-			case T_SEPARATOR_NAME :
-			case T_SEPARATOR_NODE : break;
-			}
-		}
-
-		if (!started)
-		{
-			error = "Found no document";
-			return false;
-		}
-		if (!nodeStack.empty() && !root.IsValue())
-		{
-			error = "Found beginning of object or array without end";
-			return false;
-		}
-
-		return true;
-	}
-
-	bool Parser::readString()
-	{
-		if (json.at(cursor) != '"')
-			return false;
-
-		std::string str;
-
-		++cursor;
-
-		bool escaped = false;
-		for (; cursor < json.size(); ++cursor)
-		{
-			char c = json.at(cursor);
-
-			if (!escaped && c == '"')
-			{
-				break;
-			}
-
-			str += c;
-
-			escaped = (!escaped && c == '\\');
-		}
-
-		data.push(std::make_pair(Value::VT_STRING, str));
-
-		return (cursor < json.size());
-	}
-
-	bool Parser::interpretValue(const std::string &value)
-	{
-		std::string upperValue(value.size(), '\0');
-
-		std::transform(value.begin(), value.end(), upperValue.begin(), toupper);
-
-		if (upperValue == "NULL")
-		{
-			data.push(std::make_pair(Value::VT_NULL, ""));
-		}
-		else if (upperValue == "TRUE")
-		{
-			data.push(std::make_pair(Value::VT_BOOL, "true"));
-		}
-		else if (upperValue == "FALSE")
-		{
-			data.push(std::make_pair(Value::VT_BOOL, "false"));
-		}
-		else
-		{
-			if (isNumber(value))
-			{
-				data.push(std::make_pair(Value::VT_NUMBER, value));
-			}
-			else
-			{
-				return false;
-			}
-		}
-
-		return true;
-	}
-
-	bool Parser::isNumber(const std::string &value) const
-	{
-		size_t pos = 0;
-		size_t digits = 0;
-
-		if (pos < value.size() && value[pos] == '-')
-			++pos;
-		for (; pos < value.size() && isdigit((unsigned char)value[pos]); ++pos)
-			++digits;
-		if (pos < value.size() && value[pos] == '.')
-		{
-			for (++pos; pos < value.size() && isdigit((unsigned char)value[pos]); ++pos)
-				++digits;
-		}
-		if (digits == 0)
-			return false;
-
-		if (pos < value.size() && (value[pos] == 'e' || value[pos] == 'E'))
-		{
-			++pos;
-			if (pos < value.size() && (value[pos] == '+' || value[pos] == '-'))
-				++pos;
-			for (digits = 0; pos < value.size() && isdigit((unsigned char)value[pos]); ++pos)
-				++digits;
-		}
-
-		return (digits > 0 && pos == value.size());
-	}
-}
\ No newline at end of file
+/*
+Copyright (c) 2013 Johannes Häggqvist
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in
+all copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
+THE SOFTWARE.
+*/
+#include "Jzon.h"
+
+#include <sstream>
+#include <fstream>
+#include <stack>
+#include <algorithm>
+#include <cctype>
+#include <limits>
+
+namespace Jzon
+{
+	class FormatInterpreter
+	{
+	public:
+		FormatInterpreter()
+		{
+			SetFormat(NoFormat);
+		}
+		FormatInterpreter(const Format &format)
+		{
+			SetFormat(format);
+		}
+
+		void SetFormat(const Format &format)
+		{
+			this->format = format;
+			indentationChar = (format.useTabs ? '\t' : ' ');
+			spacing = (format.spacing ? " " : "");
+			newline = (format.newline ? "\n" : spacing);
+		}
+
+		std::string GetIndentation(unsigned int level) const
+		{
+			if (!format.newline)
+			{
+				return "";
+			}
+			else
+			{
+				return std::string(format.indentSize * level, indentationChar);
+			}
+		}
+		
+		inline const std::string &GetNewline() const
+		{
+			return newline;
+		}
+		inline const std::string &GetSpacing() const
+		{
+			return spacing;
+		}
+
+	private:
+		Format format;
+		char indentationChar;
+		std::string newline;
+		std::string spacing;
+	};
+
+	static bool isDelimiter(char c)
+	{
+		return (std::string("{}[],:\"").find(c) != std::string::npos);
+	}
+
+	void RemoveWhitespace(const std::string &json, std::string &freshJson)
+	{
+		freshJson.clear();
+
+		bool comment = false;
+		int multicomment = 0;
+		bool inString = false;
+		bool escaped = false;
+		bool gap = false;
+
+		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
+		{
+			char c1 = (*it);
+			char c2 = '\0';
+			if (it+1 != json.end())
+				c2 = (*(it+1));
+
+			if (!escaped && c1 == '"' && !comment && multicomment == 0)
+			{
+				inString = !inString;
+			}
+			escaped = (inString && !escaped && c1 == '\\');
+
+			if (!inString)
+			{
+				if (!comment && c1 == '/' && c2 == '*')
+				{
+					++multicomment;
+					if (it+1 != json.end())
+						++it;
+					gap = true;
+					continue;
+				}
+				else if (multicomment > 0 && c1 == '*' && c2 == '/')
+				{
+					--multicomment;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (!comment && multicomment == 0 && c1 == '/' && c2 == '/')
+				{
+					comment = true;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (c1 == '\n')
+				{
+					comment = false;
+				}
+			}
+
+			if (comment || multicomment > 0)
+			{
+				gap = true;
+				continue;
+			}
+
+			if (inString)
+			{
+				freshJson += c1;
+			}
+			else
+			{
+				if ((c1 != '\n')&&(c1 != ' ')&&(c1 != '\t')&&(c1 != '\r')&&(c1 != '\f'))
+				{
+					// Keep two values apart if nothing else does
+					if (gap && !freshJson.empty() && !isDelimiter(freshJson[freshJson.size()-1]) && !isDelimiter(c1))
+						freshJson += ' ';
+					freshJson += c1;
+				}
+				else
+				{
+					gap = true;
+					continue;
+				}
+			}
+			gap = false;
+		}
+	}
+
+	// Writes a number with as few digits as are needed to read it back
+	template <class T>
+	static std::string numberToString(T value)
+	{
+		for (int digits = std::numeric_limits<T>::digits10; ; ++digits)
+		{
+			std::stringstream sstr;
+			sstr.precision(digits);
+			sstr << value;
+
+			T readBack;
+			if (digits >= std::numeric_limits<T>::max_digits10 || ((sstr >> readBack) && readBack == value))
+				return sstr.str();
+		}
+	}
+
+	Node::Node()
+	{
+	}
+	Node::~Node()
+	{
+	}
+
+	Object &Node::AsObject()
+	{
+		if (IsObject())
+			return static_cast<Object&>(*this);
+		else
+			throw TypeException();
+	}
+	const Object &Node::AsObject() const
+	{
+		if (IsObject())
+			return static_cast<const Object&>(*this);
+		else
+			throw TypeException();
+	}
+	Array &Node::AsArray()
+	{
+		if (IsArray())
+			return static_cast<Array&>(*this);
+		else
+			throw TypeException();
+	}
+	const Array &Node::AsArray() const
+	{
+		if (IsArray())
+			return static_cast<const Array&>(*this);
+		else
+			throw TypeException();
+	}
+	Value &Node::AsValue()
+	{
+		if (IsValue())
+			return static_cast<Value&>(*this);
+		else
+			throw TypeException();
+	}
+	const Value &Node::AsValue() const
+	{
+		if (IsValue())
+			return static_cast<const Value&>(*this);
+		else
+			throw TypeException();
+	}
+
+	Node::Type Node::DetermineType(const std::string &_json)
+	{
+		std::string json;
+		RemoveWhitespace(_json, json);
+
+		Node::Type type = T_VALUE;
+		if (!json.empty())
+		{
+			switch (json.at(0))
+			{
+			case '{' : type = T_OBJECT; break;
+			case '[' : type = T_ARRAY; break;
+			}
+		}
+
+		return type;
+	}
+
+
+	Value::Value()
+	{
+		SetNull();
+	}
+	Value::Value(const Value &rhs)
+	{
+		Set(rhs);
+	}
+	Value::Value(const Node &rhs)
+	{
+		const Value &value = rhs.AsValue();
+		Set(value);
+	}
+	Value::Value(ValueType type, const std::string &value)
+	{
+		Set(type, value);
+	}
+	Value::Value(const std::string &value)
+	{
+		Set(value);
+	}
+	Value::Value(const char *value)
+	{
+		Set(value);
+	}
+	Value::Value(const int value)
+	{
+		Set(value);
+	}
+	Value::Value(const float value)
+	{
+		Set(value);
+	}
+	Value::Value(const double value)
+	{
+		Set(value);
+	}
+	Value::Value(const bool value)
+	{
+		Set(value);
+	}
+	Value::~Value()
+	{
+	}
+
+	Node::Type Value::GetType() const
+	{
+		return T_VALUE;
+	}
+	Value::ValueType Value::GetValueType() const
+	{
+		return type;
+	}
+
+	std::string Value::ToString() const
+	{
+		if (IsNull())
+			return "null";
+		else
+			return valueStr;
+	}
+	int Value::ToInt() const
+	{
+		if (IsNull())
+			return 0;
+		else
+		{
+			if (IsNumber())
+			{
+				double val = ToDouble();
+				if (val >= std::numeric_limits<int>::max())
+					return std::numeric_limits<int>::max();
+				if (val <= std::numeric_limits<int>::min())
+					return std::numeric_limits<int>::min();
+				return static_cast<int>(val);
+			}
+			else
+				throw ValueException();
+		}
+	}
+	float Value::ToFloat() const
+	{
+		if (IsNull())
+			return 0.0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				float val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	double Value::ToDouble() const
+	{
+		if (IsNull())
+			return 0.0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				double val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	bool Value::ToBool() const
+	{
+		if (IsNull())
+			return false;
+		else
+			if (IsBool())
+				return (valueStr == "true");
+			else
+				throw ValueException();
+	}
+
+	void Value::SetNull()
+	{
+		valueStr = "";
+		type     = VT_NULL;
+	}
+	void Value::Set(const Value &value)
+	{
+		if (this != &value)
+		{
+			valueStr = value.valueStr;
+			type     = value.type;
+		}
+	}
+	void Value::Set(ValueType type, const std::string &value)
+	{
+		valueStr   = value;
+		this->type = type;
+	}
+	void Value::Set(const std::string &value)
+	{
+		valueStr = UnescapeString(value);
+		type     = VT_STRING;
+	}
+	void Value::Set(const char *value)
+	{
+		valueStr = UnescapeString(std::string(value));
+		type     = VT_STRING;
+	}
+	void Value::Set(const int value)
+	{
+		std::stringstream sstr;
+		sstr << value;
+		valueStr = sstr.str();
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const float value)
+	{
+		valueStr = numberToString(value);
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const double value)
+	{
+		valueStr = numberToString(value);
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const bool value)
+	{
+		if (value)
+			valueStr = "true";
+		else
+			valueStr = "false";
+		type = VT_BOOL;
+	}
+
+	Value &Value::operator=(const Value &rhs)
+	{
+		if (this != &rhs)
+			Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const Node &rhs)
+	{
+		if (this != &rhs)
+			Set(rhs.AsValue());
+		return *this;
+	}
+	Value &Value::operator=(const std::string &rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const char *rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const int rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const float rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const double rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const bool rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+
+	bool Value::operator==(const Value &other) const
+	{
+		return ((type == other.type)&&(valueStr == other.valueStr));
+	}
+	bool Value::operator!=(const Value &other) const
+	{
+		return !(*this == other);
+	}
+
+	Node *Value::GetCopy() const
+	{
+		return new Value(*this);
+	}
+
+	// This is not the most beautiful place for these, but it'll do
+	static const char charsUnescaped[] = { '\\'  , '/'  , '\"'  , '\n' , '\t' , '\b' , '\f' , '\r' };
+	static const char *charsEscaped[]  = { "\\\\", "\\/", "\\\"", "\\n", "\\t", "\\b", "\\f", "\\r" };
+	static const unsigned int numEscapeChars = 8;
+	static const char nullUnescaped = '\0';
+	static const char *nullEscaped  = "\0\0";
+	const char *&getEscaped(const char &c)
+	{
+		for (unsigned int i = 0; i < numEscapeChars; ++i)
+		{
+			const char &ue = charsUnescaped[i];
+
+			if (c == ue)
+			{
+				const char *&e = charsEscaped[i];
+				return e;
+			}
+		}
+		return nullEscaped;
+	}
+	const char &getUnescaped(const char &c1, const char &c2)
+	{
+		for (unsigned int i = 0; i < numEscapeChars; ++i)
+		{
+			const char *&e = charsEscaped[i];
+
+			if (c1 == e[0] && c2 == e[1])
+			{
+				const char &ue = charsUnescaped[i];
+				return ue;
+			}
+		}
+		return nullUnescaped;
+	}
+
+	// Reads the value of a \uXXXX escape
+	static bool getCodeUnit(const std::string &value, size_t pos, unsigned int &code)
+	{
+		if (value.size() < 6 || pos > value.size() - 6 || value[pos] != '\\' || value[pos+1] != 'u')
+			return false;
+
+		code = 0;
+		for (size_t i = pos + 2; i < pos + 6; ++i)
+		{
+			const char c = value[i];
+			if (c >= '0' && c <= '9')
+				code = code*16 + (c - '0');
+			else if (c >= 'a' && c <= 'f')
+				code = code*16 + (c - 'a' + 10);
+			else if (c >= 'A' && c <= 'F')
+				code = code*16 + (c - 'A' + 10);
+			else
+				return false;
+		}
+		return true;
+	}
+	static void appendUtf8(std::string &str, unsigned int code)
+	{
+		if (code < 0x80)
+		{
+			str += (char)code;
+		}
+		else if (code < 0x800)
+		{
+			str += (char)(0xC0 | (code >> 6));
+			str += (char)(0x80 | (code & 0x3F));
+		}
+		else if (code < 0x10000)
+		{
+			str += (char)(0xE0 | (code >> 12));
+			str += (char)(0x80 | ((code >> 6) & 0x3F));
+			str += (char)(0x80 | (code & 0x3F));
+		}
+		else
+		{
+			str += (char)(0xF0 | (code >> 18));
+			str += (char)(0x80 | ((code >> 12) & 0x3F));
+			str += (char)(0x80 | ((code >> 6) & 0x3F));
+			str += (char)(0x80 | (code & 0x3F));
+		}
+	}
+
+	std::string Value::EscapeString(const std::string &value)
+	{
+		std::string escaped;
+
+		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+		{
+			const char &c = (*it);
+
+			const char *&a = getEscaped(c);
+			if (a[0] != '\0')
+			{
+				escaped += a[0];
+				escaped += a[1];
+			}
+			else if ((unsigned char)c < 0x20)
+			{
+				static const char digits[] = "0123456789abcdef";
+				escaped += "\\u00";
+				escaped += digits[c >> 4];
+				escaped += digits[c & 0xF];
+			}
+			else
+			{
+				escaped += c;
+			}
+		}
+
+		return escaped;
+	}
+	std::string Value::UnescapeString(const std::string &value)
+	{
+		std::string unescaped;
+
+		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+		{
+			const char &c = (*it);
+			char c2 = '\0';
+			if (it+1 != value.end())
+				c2 = *(it+1);
+
+			const char &a = getUnescaped(c, c2);
+			unsigned int code, low;
+			if (a != '\0')
+			{
+				unescaped += a;
+				if (it+1 != value.end())
+					++it;
+			}
+			else if (getCodeUnit(value, it - value.begin(), code))
+			{
+				it += 5;
+				if (code >= 0xD800 && code < 0xDC00 && getCodeUnit(value, it + 1 - value.begin(), low) && low >= 0xDC00 && low < 0xE000)
+				{
+					code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+					it += 6;
+				}
+				appendUtf8(unescaped, code);
+			}
+			else
+			{
+				unescaped += c;
+			}
+		}
+
+		return unescaped;
+	}
+
+
+	Object::Object()
+	{
+	}
+	Object::Object(const Object &other)
+	{
+		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			Node &value = *(*it).second;
+
+			children.push_back(std::make_pair(name, value.GetCopy()));
+		}
+	}
+	Object::Object(const Node &other)
+	{
+		const Object &object = other.AsObject();
+
+		for (ChildList::const_iterator it = object.children.begin(); it != object.children.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			Node &value = *(*it).second;
+
+			children.push_back(std::make_pair(name, value.GetCopy()));
+		}
+	}
+	Object &Object::operator=(const Object &rhs)
+	{
+		Object copy(rhs);
+		children.swap(copy.children);
+		return *this;
+	}
+	Object::~Object()
+	{
+		Clear();
+	}
+
+	Node::Type Object::GetType() const
+	{
+		return T_OBJECT;
+	}
+
+	void Object::Add(const std::string &name, Node &node)
+	{
+		children.push_back(std::make_pair(name, node.GetCopy()));
+	}
+	void Object::Add(const std::string &name, Value node)
+	{
+		children.push_back(std::make_pair(name, new Value(node)));
+	}
+	void Object::Remove(const std::string &name)
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				delete (*it).second;
+				children.erase(it);
+				break;
+			}
+		}
+	}
+	void Object::Clear()
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			delete (*it).second;
+			(*it).second = NULL;
+		}
+		children.clear();
+	}
+
+	Object::iterator Object::begin()
+	{
+		if (!children.empty())
+			return Object::iterator(&children.front());
+		else
+			return Object::iterator(NULL);
+	}
+	Object::const_iterator Object::begin() const
+	{
+		if (!children.empty())
+			return Object::const_iterator(&children.front());
+		else
+			return Object::const_iterator(NULL);
+	}
+	Object::iterator Object::end()
+	{
+		if (!children.empty())
+			return Object::iterator(&children.back()+1);
+		else
+			return Object::iterator(NULL);
+	}
+	Object::const_iterator Object::end() const
+	{
+		if (!children.empty())
+			return Object::const_iterator(&children.back()+1);
+		else
+			return Object::const_iterator(NULL);
+	}
+
+	bool Object::Has(const std::string &name) const
+	{
+		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				return true;
+			}
+		}
+		return false;
+	}
+	size_t Object::GetCount() const
+	{
+		return children.size();
+	}
+	Node &Object::Get(const std::string &name) const
+	{
+		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				return *(*it).second;
+			}
+		}
+		
+		throw NotFoundException();
+	}
+
+	Node *Object::GetCopy() const
+	{
+		return new Object(*this);
+	}
+
+
+	Array::Array()
+	{
+	}
+	Array::Array(const Array &other)
+	{
+		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
+		{
+			const Node &value = *(*it);
+
+			children.push_back(value.GetCopy());
+		}
+	}
+	Array::Array(const Node &other)
+	{
+		const Array &array = other.AsArray();
+
+		for (ChildList::const_iterator it = array.children.begin(); it != array.children.end(); ++it)
+		{
+			const Node &value = *(*it);
+
+			children.push_back(value.GetCopy());
+		}
+	}
+	Array &Array::operator=(const Array &rhs)
+	{
+		Array copy(rhs);
+		children.swap(copy.children);
+		return *this;
+	}
+	Array::~Array()
+	{
+		Clear();
+	}
+
+	Node::Type Array::GetType() const
+	{
+		return T_ARRAY;
+	}
+
+	void Array::Add(Node &node)
+	{
+		children.push_back(node.GetCopy());
+	}
+	void Array::Add(Value node)
+	{
+		children.push_back(new Value(node));
+	}
+	void Array::Remove(size_t index)
+	{
+		if (index < children.size())
+		{
+			ChildList::iterator it = children.begin()+index;
+			delete (*it);
+			children.erase(it);
+		}
+	}
+	void Array::Clear()
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			delete (*it);
+			(*it) = NULL;
+		}
+		children.clear();
+	}
+
+	Array::iterator Array::begin()
+	{
+		if (!children.empty())
+			return Array::iterator(&children.front());
+		else
+			return Array::iterator(NULL);
+	}
+	Array::const_iterator Array::begin() const
+	{
+		if (!children.empty())
+			return Array::const_iterator(&children.front());
+		else
+			return Array::const_iterator(NULL);
+	}
+	Array::iterator Array::end()
+	{
+		if (!children.empty())
+			return Array::iterator(&children.back()+1);
+		else
+			return Array::iterator(NULL);
+	}
+	Array::const_iterator Array::end() const
+	{
+		if (!children.empty())
+			return Array::const_iterator(&children.back()+1);
+		else
+			return Array::const_iterator(NULL);
+	}
+
+	size_t Array::GetCount() const
+	{
+		return children.size();
+	}
+	Node &Array::Get(size_t index) const
+	{
+		if (index < children.size())
+		{
+			return *children.at(index);
+		}
+
+		throw NotFoundException();
+	}
+
+	Node *Array::GetCopy() const
+	{
+		return new Array(*this);
+	}
+
+
+	FileWriter::FileWriter(const std::string &filename) : filename(filename)
+	{
+	}
+	FileWriter::~FileWriter()
+	{
+	}
+
+	void FileWriter::WriteFile(const std::string &filename, const Node &root, const Format &format)
+	{
+		FileWriter writer(filename);
+		writer.Write(root, format);
+	}
+
+	void FileWriter::Write(const Node &root, const Format &format)
+	{
+		Writer writer(root, format);
+		writer.Write();
+
+		std::fstream file(filename.c_str(), std::ios::out | std::ios::trunc);
+		file << writer.GetResult();
+		file.close();
+	}
+
+
+	FileReader::FileReader(const std::string &filename)
+	{
+		if (!loadFile(filename, json))
+		{
+			error = "Failed to load file";
+		}
+	}
+	FileReader::~FileReader()
+	{
+	}
+
+	bool FileReader::ReadFile(const std::string &filename, Node &node)
+	{
+		FileReader reader(filename);
+		return reader.Read(node);
+	}
+
+	bool FileReader::Read(Node &node)
+	{
+		if (!error.empty())
+			return false;
+
+		Parser parser(node, json);
+		if (!parser.Parse())
+		{
+			error = parser.GetError();
+			return false;
+		}
+		else
+		{
+			return true;
+		}
+	}
+
+	Node::Type FileReader::DetermineType()
+	{
+		return Node::DetermineType(json);
+	}
+
+	const std::string &FileReader::GetError() const
+	{
+		return error;
+	}
+
+	bool FileReader::loadFile(const std::string &filename, std::string &json)
+	{
+		std::fstream file(filename.c_str(), std::ios::in | std::ios::binary);
+
+		if (!file.is_open())
+		{
+			return false;
+		}
+
+		file.seekg(0, std::ios::end);
+		std::ios::pos_type size = file.tellg();
+		file.seekg(0, std::ios::beg);
+
+		json.resize(static_cast<std::string::size_type>(size), '\0');
+		file.read(&json[0], size);
+
+		return true;
+	}
+
+
+	Writer::Writer(const Node &root, const Format &format) : fi(new FormatInterpreter), root(root)
+	{
+		SetFormat(format);
+	}
+	Writer::~Writer()
+	{
+		delete fi;
+		fi = NULL;
+	}
+
+	void Writer::SetFormat(const Format &format)
+	{
+		fi->SetFormat(format);
+	}
+	void Writer::Write()
+	{
+		result.clear();
+		writeNode(root, 0);
+	}
+
+	const std::string &Writer::GetResult() const
+	{
+		return result;
+	}
+
+	void Writer::writeNode(const Node &node, unsigned int level)
+	{
+		switch (node.GetType())
+		{
+		case Node::T_OBJECT : writeObject(node.AsObject(), level); break;
+		case Node::T_ARRAY  : writeArray(node.AsArray(), level);   break;
+		case Node::T_VALUE  : writeValue(node.AsValue());          break;
+		}
+	}
+	void Writer::writeObject(const Object &node, unsigned int level)
+	{
+		result += "{" + fi->GetNewline();
+
+		for (Object::const_iterator it = node.begin(); it != node.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			const Node &value = (*it).second;
+
+			if (it != node.begin())
+				result += "," + fi->GetNewline();
+			result += fi->GetIndentation(level+1) + "\""+Value::EscapeString(name)+"\"" + ":" + fi->GetSpacing();
+			writeNode(value, level+1);
+		}
+
+		result += fi->GetNewline() + fi->GetIndentation(level) + "}";
+	}
+	void Writer::writeArray(const Array &node, unsigned int level)
+	{
+		result += "[" + fi->GetNewline();
+
+		for (Array::const_iterator it = node.begin(); it != node.end(); ++it)
+		{
+			const Node &value = (*it);
+
+			if (it != node.begin())
+				result += "," + fi->GetNewline();
+			result += fi->GetIndentation(level+1);
+			writeNode(value, level+1);
+		}
+
+		result += fi->GetNewline() + fi->GetIndentation(level) + "]";
+	}
+	void Writer::writeValue(const Value &node)
+	{
+		if (node.IsString())
+		{
+			result += "\""+Value::EscapeString(node.ToString())+"\"";
+		}
+		else
+		{
+			result += node.ToString();
+		}
+	}
+
+
+	Parser::Parser(Node &root) : root(root)
+	{
+	}
+	Parser::Parser(Node &root, const std::string &json) : root(root)
+	{
+		SetJson(json);
+	}
+	Parser::~Parser()
+	{
+	}
+
+	void Parser::SetJson(const std::string &json)
+	{
+		RemoveWhitespace(json, this->json);
+	}
+	bool Parser::Parse()
+	{
+		cursor = 0;
+		error.clear();
+		tokens = std::queue<Token>();
+		data = std::queue<std::pair<Value::ValueType, std::string> >();
+		clearRoot();
+
+		tokenize();
+		bool success = assemble();
+		if (!success)
+			clearRoot();
+
+		return success;
+	}
+
+	void Parser::clearRoot()
+	{
+		switch (root.GetType())
+		{
+		case Node::T_OBJECT : root.AsObject().Clear();  break;
+		case Node::T_ARRAY  : root.AsArray().Clear();   break;
+		case Node::T_VALUE  : root.AsValue().SetNull(); break;
+		}
+	}
+
+	// Hands the node over to its parent, if that can have children
+	bool Parser::addChild(Node &parent, const std::string &name, Node *node)
+	{
+		if (parent.IsObject())
+		{
+			parent.AsObject().children.push_back(std::make_pair(name, node));
+		}
+		else if (parent.IsArray())
+		{
+			parent.AsArray().children.push_back(node);
+		}
+		else
+		{
+			delete node;
+			error = "Can only add elements to objects and arrays";
+			return false;
+		}
+
+		return true;
+	}
+
+	const std::string &Parser::GetError() const
+	{
+		return error;
+	}
+
+	void Parser::tokenize()
+	{
+		Token token;
+		std::string valueBuffer;
+		bool saveBuffer;
+
+		for (; cursor < json.size(); ++cursor)
+		{
+			char c = json.at(cursor);
+
+			saveBuffer = true;
+
+			switch (c)
+			{
+			case '{' :
+				{
+					token = T_OBJ_BEGIN;
+					break;
+				}
+			case '}' :
+				{
+					token = T_OBJ_END;
+					break;
+				}
+			case '[' :
+				{
+					token = T_ARRAY_BEGIN;
+					break;
+				}
+			case ']' :
+				{
+					token = T_ARRAY_END;
+					break;
+				}
+			case ',' :
+				{
+					token = T_SEPARATOR_NODE;
+					break;
+				}
+			case ' ' :
+				{
+					token = T_SEPARATOR_NODE;
+					break;
+				}
+			case ':' :
+				{
+					token = T_SEPARATOR_NAME;
+					break;
+				}
+			case '"' :
+				{
+					token = T_VALUE;
+					break;
+				}
+			default :
+				{
+					valueBuffer += c;
+					saveBuffer = false;
+					break;
+				}
+			}
+
+			if ((saveBuffer || cursor == json.size()-1) && (!valueBuffer.empty())) // Always save buffer on the last character
+			{
+				if (interpretValue(valueBuffer))
+				{
+					tokens.push(T_VALUE);
+				}
+				else
+				{
+					// Store the unknown token, so we can show it to the user
+					data.push(std::make_pair(Value::VT_STRING, valueBuffer));
+					tokens.push(T_UNKNOWN);
+				}
+
+				valueBuffer.clear();
+			}
+
+			// Push the token last so that any
+			// value token will get pushed first
+			// from above.
+			// If saveBuffer is false, it means that
+			// we are in the middle of a value, so we
+			// don't want to push any tokens now.
+			if (saveBuffer)
+			{
+				if (token == T_VALUE && !readString())
+					token = T_UNKNOWN;
+				tokens.push(token);
+			}
+		}
+	}
+	bool Parser::assemble()
+	{
+		std::stack<Node*> nodeStack;
+
+		std::string name = "";
+		bool started = false;
+
+		Token token;
+		while (!tokens.empty())
+		{
+			token = tokens.front();
+			tokens.pop();
+
+			switch (token)
+			{
+			case T_UNKNOWN :
+				{
+					const std::string &unknownToken = data.front().second;
+					error = "Unknown token: "+unknownToken;
+					data.pop();
+					return false;
+				}
+			case T_OBJ_BEGIN :
+				{
+					Node *node = NULL;
+					if (nodeStack.empty())
+					{
+						if (started)
+						{
+							error = "Found more than one document";
+							return false;
+						}
+						started = true;
+						if (!root.IsObject())
+						{
+							error = "The given root node is not an object";
+							return false;
+						}
+
+						node = &root;
+					}
+					else
+					{
+						node = new Object;
+						if (!addChild(*nodeStack.top(), name, node))
+							return false;
+					}
+
+					nodeStack.push(node);
+					name.clear();
+					if (nodeStack.size() > MaxDepth)
+					{
+						error = "Too many nested objects and arrays";
+						return false;
+					}
+					break;
+				}
+			case T_ARRAY_BEGIN :
+				{
+					Node *node = NULL;
+					if (nodeStack.empty())
+					{
+						if (started)
+						{
+							error = "Found more than one document";
+							return false;
+						}
+						started = true;
+						if (!root.IsArray())
+						{
+							error = "The given root node is not an array";
+							return false;
+						}
+
+						node = &root;
+					}
+					else
+					{
+						node = new Array;
+						if (!addChild(*nodeStack.top(), name, node))
+							return false;
+					}
+
+					nodeStack.push(node);
+					name.clear();
+					if (nodeStack.size() > MaxDepth)
+					{
+						error = "Too many nested objects and arrays";
+						return false;
+					}
+					break;
+				}
+			case T_OBJ_END :
+			case T_ARRAY_END :
+				{
+					if (nodeStack.empty())
+					{
+						error = "Found end of object or array without beginning";
+						return false;
+					}
+					if (token == T_OBJ_END && !nodeStack.top()->IsObject())
+					{
+						error = "Mismatched end and beginning of object";
+						return false;
+					}
+					if (token == T_ARRAY_END && !nodeStack.top()->IsArray())
+					{
+						error = "Mismatched end and beginning of array";
+						return false;
+					}
+
+					nodeStack.pop();
+					break;
+				}
+			case T_VALUE :
+				{
+					if (!tokens.empty() && tokens.front() == T_SEPARATOR_NAME)
+					{
+						tokens.pop();
+						if (data.front().first != Value::VT_STRING)
+						{
+							error = "A name has to be a string";
+							return false;
+						}
+						else
+						{
+							name = Value::UnescapeString(data.front().second);
+							data.pop();
+						}
+					}
+					else
+					{
+						Node *node = NULL;
+						if (nodeStack.empty())
+						{
+							if (started)
+							{
+								error = "Found more than one document";
+								return false;
+							}
+							started = true;
+							if (!root.IsValue())
+							{
+								error = "The given root node is not a value";
+								return false;
+							}
+
+							node = &root;
+						}
+						else
+						{
+							node = new Value;
+						}
+
+						if (data.front().first == Value::VT_STRING)
+						{
+							static_cast<Value*>(node)->Set(data.front().second); // This method calls UnescapeString()
+						}
+						else
+						{
+							static_cast<Value*>(node)->Set(data.front().first, data.front().second);
+						}
+						data.pop();
+
+						if (!nodeStack.empty())
+						{
+							if (!addChild(*nodeStack.top(), name, node))
+								return false;
+
+							name.clear();
+						}
+						else
+						{
+							nodeStack.push(node);
+							name.clear();
+						}
+					}
+					break;
+				}
+			case T_SEPARATOR_NAME :
+			case T_SEPARATOR_NODE : break;
+			}
+		}
+
+		if (!started)
+		{
+			error = "Found no document";
+			return false;
+		}
+		if (!nodeStack.empty() && !root.IsValue())
+		{
+			error = "Found beginning of object or array without end";
+			return false;
+		}
+
+		return true;
+	}
+
+	bool Parser::readString()
+	{
+		if (json.at(cursor) != '"')
+			return false;
+
+		std::string str;
+
+		++cursor;
+
+		bool escaped = false;
+		for (; cursor < json.size(); ++cursor)
+		{
+			char c = json.at(cursor);
+
+			if (!escaped && c == '"')
+			{
+				break;
+			}
+
+			str += c;
+
+			escaped = (!escaped && c == '\\');
+		}
+
+		data.push(std::make_pair(Value::VT_STRING, str));
+
+		return (cursor < json.size());
+	}
+
+	bool Parser::interpretValue(const std::string &value)
+	{
+		std::string upperValue(value.size(), '\0');
+
+		std::transform(value.begin(), value.end(), upperValue.begin(), toupper);
+
+		if (upperValue == "NULL")
+		{
+			data.push(std::make_pair(Value::VT_NULL, ""));
+		}
+		else if (upperValue == "TRUE")
+		{
+			data.push(std::make_pair(Value::VT_BOOL, "true"));
+		}
+		else if (upperValue == "FALSE")
+		{
+			data.push(std::make_pair(Value::VT_BOOL, "false"));
+		}
+		else
+		{
+			if (isNumber(value))
+			{
+				data.push(std::make_pair(Value::VT_NUMBER, value));
+			}
+			else
+			{
+				return false;
+			}
+		}
+
+		return true;
+	}
+
+	bool Parser::isNumber(const std::string &value) const
+	{
+		size_t pos = 0;
+		size_t digits = 0;
+
+		if (pos < value.size() && value[pos] == '-')
+			++pos;
+		for (; pos < value.size() && isdigit((unsigned char)value[pos]); ++pos)
+			++digits;
+		if (pos < value.size() && value[pos] == '.')
+		{
+			for (++pos; pos < value.size() && isdigit((unsigned char)value[pos]); ++pos)
+				++digits;
+		}
+		if (digits == 0)
+			return false;
+
+		if (pos < value.size() && (value[pos] == 'e' || value[pos] == 'E'))
+		{
+			++pos;
+			if (pos < value.size() && (value[pos] == '+' || value[pos] == '-'))
+				++pos;
+			for (digits = 0; pos < value.size() && isdigit((unsigned char)value[pos]); ++pos)
+				++digits;
+		}
+
+		return (digits > 0 && pos == value.size());
+	}
+}
\ No newline at end of file
diff --git a/src/Jzon.h b/src/Jzon.h
index 390c8b2..543a497 100644
--- a/src/Jzon.h
+++ b/src/Jzon.h
@@ -1,448 +1,448 @@
-/*
-Copyright (c) 2013 Johannes Häggqvist
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in
-all copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
-THE SOFTWARE.
-*/
-#ifndef Jzon_h__
-#define Jzon_h__
-
-#include <string>
-#include <vector>
-#include <queue>
-#include <iterator>
-#include <stdexcept>
-
-namespace Jzon
-{
-	class Node;
-	class Value;
-	class Object;
-	class Array;
-	typedef std::pair<std::string, Node&> NamedNode;
-	typedef std::pair<std::string, Node*> NamedNodePtr;
-	
-	class TypeException : public std::logic_error
-	{
-	public:
-		TypeException() : std::logic_error("A Node was used as the wrong type")
-		{}
-	};
-	class ValueException : public std::logic_error
-	{
-	public:
-		ValueException() : std::logic_error("A Value was used as the wrong type")
-		{}
-	};
-	class NotFoundException : public std::out_of_range
-	{
-	public:
-		NotFoundException() : std::out_of_range("The node could not be found")
-		{}
-	};
-
-	struct Format
-	{
-		bool newline;
-		bool spacing;
-		bool useTabs;
-		unsigned int indentSize;
-	};
-	// Nodes are copied, written and deleted recursively
-	static const unsigned int MaxDepth = 2000;
-
-	static const Format StandardFormat = { true, true, true, 1 };
-	static const Format NoFormat = { false, false, false, 0 };
-
-	class Node
-	{
-		friend class Object;
-		friend class Array;
-
-	public:
-		enum Type
-		{
-			T_OBJECT,
-			T_ARRAY,
-			T_VALUE
-		};
-
-		Node();
-		virtual ~Node();
-
-		virtual Type GetType() const = 0;
-
-		inline bool IsObject() const { return (GetType() == T_OBJECT); }
-		inline bool IsArray() const { return (GetType() == T_ARRAY); }
-		inline bool IsValue() const { return (GetType() == T_VALUE); }
-
-		Object &AsObject();
-		const Object &AsObject() const;
-		Array &AsArray();
-		const Array &AsArray() const;
-		Value &AsValue();
-		const Value &AsValue() const;
-
-		virtual inline bool IsNull() const { return false; }
-		virtual inline bool IsString() const { return false; }
-		virtual inline bool IsNumber() const { return false; }
-		virtual inline bool IsBool() const { return false; }
-
-		virtual std::string ToString() const { throw TypeException(); }
-		virtual int ToInt() const { throw TypeException(); }
-		virtual float ToFloat() const { throw TypeException(); }
-		virtual double ToDouble() const { throw TypeException(); }
-		virtual bool ToBool() const { throw TypeException(); }
-
-		virtual bool Has(const std::string &name) const { throw TypeException(); }
-		virtual size_t GetCount() const { return 0; }
-		virtual Node &Get(const std::string &name) const { throw TypeException(); }
-		virtual Node &Get(size_t index) const { throw TypeException(); }
-
-		static Type DetermineType(const std::string &json);
-
-	protected:
-		virtual Node *GetCopy() const = 0;
-	};
-
-	class Value : public Node
-	{
-	public:
-		enum ValueType
-		{
-			VT_NULL,
-			VT_STRING,
-			VT_NUMBER,
-			VT_BOOL
-		};
-
-		Value();
-		Value(const Value &rhs);
-		Value(const Node &rhs);
-		Value(ValueType type, const std::string &value);
-		Value(const std::string &value);
-		Value(const char *value);
-		Value(const int value);
-		Value(const float value);
-		Value(const double value);
-		Value(const bool value);
-		virtual ~Value();
-
-		virtual Type GetType() const;
-		ValueType GetValueType() const;
-
-		virtual inline bool IsNull() const { return (type == VT_NULL); }
-		virtual inline bool IsString() const { return (type == VT_STRING); }
-		virtual inline bool IsNumber() const { return (type == VT_NUMBER); }
-		virtual inline bool IsBool() const { return (type == VT_BOOL); }
-
-		virtual std::string ToString() const;
-		virtual int ToInt() const;
-		virtual float ToFloat() const;
-		virtual double ToDouble() const;
-		virtual bool ToBool() const;
-
-		void SetNull();
-		void Set(const Value &value);
-		void Set(ValueType type, const std::string &value);
-		void Set(const std::string &value);
-		void Set(const char *value);
-		void Set(const int value);
-		void Set(const float value);
-		void Set(const double value);
-		void Set(const bool value);
-
-		Value &operator=(const Value &rhs);
-		Value &operator=(const Node &rhs);
-		Value &operator=(const std::string &rhs);
-		Value &operator=(const char *rhs);
-		Value &operator=(const int rhs);
-		Value &operator=(const float rhs);
-		Value &operator=(const double rhs);
-		Value &operator=(const bool rhs);
-
-		bool operator==(const Value &other) const;
-		bool operator!=(const Value &other) const;
-
-		static std::string EscapeString(const std::string &value);
-		static std::string UnescapeString(const std::string &value);
-
-	protected:
-		virtual Node *GetCopy() const;
-
-	private:
-		std::string valueStr;
-		ValueType type;
-	};
-
-	static const Value null;
-
-	class Object : public Node
-	{
-		friend class Parser;
-
-	public:
-		class iterator : public std::iterator<std::input_iterator_tag, NamedNode>
-		{
-		public:
-			iterator(NamedNodePtr *o) : p(o) {}
-			iterator(const iterator &it) : p(it.p) {}
-
-			iterator &operator++() { ++p; return *this; }
-			iterator operator++(int) { iterator tmp(*this); operator++(); return tmp; }
-
-			bool operator==(const iterator &rhs) { return p == rhs.p; }
-			bool operator!=(const iterator &rhs) { return p != rhs.p; }
-
-			NamedNode operator*() { return NamedNode(p->first, *p->second); }
-
-		private:
-			NamedNodePtr *p;
-		};
-		class const_iterator : public std::iterator<std::input_iterator_tag, const NamedNode>
-		{
-		public:
-			const_iterator(const NamedNodePtr *o) : p(o) {}
-			const_iterator(const const_iterator &it) : p(it.p) {}
-
-			const_iterator &operator++() { ++p; return *this; }
-			const_iterator operator++(int) { const_iterator tmp(*this); operator++(); return tmp; }
-
-			bool operator==(const const_iterator &rhs) { return p == rhs.p; }
-			bool operator!=(const const_iterator &rhs) { return p != rhs.p; }
-
-			const NamedNode operator*() { return NamedNode(p->first, *p->second); }
-
-		private:
-			const NamedNodePtr *p;
-		};
-
-		Object();
-		Object(const Object &other);
-		Object(const Node &other);
-		virtual ~Object();
-
-		Object &operator=(const Object &rhs);
-
-		virtual Type GetType() const;
-
-		void Add(const std::string &name, Node &node);
-		void Add(const std::string &name, Value node);
-		void Remove(const std::string &name);
-		void Clear();
-
-		iterator begin();
-		const_iterator begin() const;
-		iterator end();
-		const_iterator end() const;
-
-		virtual bool Has(const std::string &name) const;
-		virtual size_t GetCount() const;
-		virtual Node &Get(const std::string &name) const;
-
-	protected:
-		virtual Node *GetCopy() const;
-
-	private:
-		typedef std::vector<NamedNodePtr> ChildList;
-		ChildList children;
-	};
-
-	class Array : public Node
-	{
-		friend class Parser;
-
-	public:
-		class iterator : public std::iterator<std::input_iterator_tag, Node>
-		{
-		public:
-			iterator(Node **o) : p(o) {}
-			iterator(const iterator &it) : p(it.p) {}
-
-			iterator &operator++() { ++p; return *this; }
-			iterator operator++(int) { iterator tmp(*this); operator++(); return tmp; }
-
-			bool operator==(const iterator &rhs) { return p == rhs.p; }
-			bool operator!=(const iterator &rhs) { return p != rhs.p; }
-
-			Node &operator*() { return **p; }
-
-		private:
-			Node **p;
-		};
-		class const_iterator : public std::iterator<std::input_iterator_tag, const Node>
-		{
-		public:
-			const_iterator(const Node *const *o) : p(o) {}
-			const_iterator(const const_iterator &it) : p(it.p) {}
-
-			const_iterator &operator++() { ++p; return *this; }
-			const_iterator operator++(int) { const_iterator tmp(*this); operator++(); return tmp; }
-
-			bool operator==(const const_iterator &rhs) { return p == rhs.p; }
-			bool operator!=(const const_iterator &rhs) { return p != rhs.p; }
-
-			const Node &operator*() { return **p; }
-
-		private:
-			const Node *const *p;
-		};
-
-		Array();
-		Array(const Array &other);
-		Array(const Node &other);
-		virtual ~Array();
-
-		Array &operator=(const Array &rhs);
-
-		virtual Type GetType() const;
-
-		void Add(Node &node);
-		void Add(Value node);
-		void Remove(size_t index);
-		void Clear();
-
-		iterator begin();
-		const_iterator begin() const;
-		iterator end();
-		const_iterator end() const;
-
-		virtual size_t GetCount() const;
-		virtual Node &Get(size_t index) const;
-
-	protected:
-		virtual Node *GetCopy() const;
-
-	private:
-		typedef std::vector<Node*> ChildList;
-		ChildList children;
-	};
-
-	class FileWriter
-	{
-	public:
-		FileWriter(const std::string &filename);
-		~FileWriter();
-
-		static void WriteFile(const std::string &filename, const Node &root, const Format &format = NoFormat);
-
-		void Write(const Node &root, const Format &format = NoFormat);
-
-	private:
-		std::string filename;
-	};
-
-	class FileReader
-	{
-	public:
-		FileReader(const std::string &filename);
-		~FileReader();
-
-		static bool ReadFile(const std::string &filename, Node &node);
-
-		bool Read(Node &node);
-
-		Node::Type DetermineType();
-
-		const std::string &GetError() const;
-
-	private:
-		bool loadFile(const std::string &filename, std::string &json);
-		std::string json;
-		std::string error;
-	};
-
-	class Writer
-	{
-	public:
-		Writer(const Node &root, const Format &format = NoFormat);
-		~Writer();
-
-		void SetFormat(const Format &format);
-		void Write();
-
-		const std::string &GetResult() const;
-
-	private:
-		void writeNode(const Node &node, unsigned int level);
-		void writeObject(const Object &node, unsigned int level);
-		void writeArray(const Array &node, unsigned int level);
-		void writeValue(const Value &node);
-
-		std::string result;
-
-		class FormatInterpreter *fi;
-
-		const Node &root;
-
-		Writer &operator=(const Writer&);
-	};
-
-	class Parser
-	{
-	public:
-		Parser(Node &root);
-		Parser(Node &root, const std::string &json);
-		~Parser();
-
-		void SetJson(const std::string &json);
-		bool Parse();
-
-		const std::string &GetError() const;
-
-	private:
-		enum Token
-		{
-			T_UNKNOWN,
-			T_OBJ_BEGIN,
-			T_OBJ_END,
-			T_ARRAY_BEGIN,
-			T_ARRAY_END,
-			T_SEPARATOR_NODE,
-			T_SEPARATOR_NAME,
-			T_VALUE
-		};
-
-		void tokenize();
-		bool assemble();
-
-		void clearRoot();
-		bool addChild(Node &parent, const std::string &name, Node *node);
-
-		bool readString();
-
-		bool interpretValue(const std::string &value);
-
-		bool isNumber(const std::string &value) const;
-
-		std::string json;
-
-		std::queue<Token> tokens;
-		std::queue<std::pair<Value::ValueType, std::string> > data;
-
-		unsigned int cursor;
-
-		Node &root;
-
-		std::string error;
-
-		Parser &operator=(const Parser&);
-	};
-}
-
-#endif // Jzon_h__
+/*
+Copyright (c) 2013 Johannes Häggqvist
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in
+all copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
+THE SOFTWARE.
+*/
+#ifndef Jzon_h__
+#define Jzon_h__
+
+#include <string>
+#include <vector>
+#include <queue>
+#include <iterator>
+#include <stdexcept>
+
+namespace Jzon
+{
+	class Node;
+	class Value;
+	class Object;
+	class Array;
+	typedef std::pair<std::string, Node&> NamedNode;
+	typedef std::pair<std::string, Node*> NamedNodePtr;
+	
+	class TypeException : public std::logic_error
+	{
+	public:
+		TypeException() : std::logic_error("A Node was used as the wrong type")
+		{}
+	};
+	class ValueException : public std::logic_error
+	{
+	public:
+		ValueException() : std::logic_error("A Value was used as the wrong type")
+		{}
+	};
+	class NotFoundException : public std::out_of_range
+	{
+	public:
+		NotFoundException() : std::out_of_range("The node could not be found")
+		{}
+	};
+
+	struct Format
+	{
+		bool newline;
+		bool spacing;
+		bool useTabs;
+		unsigned int indentSize;
+	};
+	// Nodes are copied, written and deleted recursively
+	static const unsigned int MaxDepth = 2000;
+
+	static const Format StandardFormat = { true, true, true, 1 };
+	static const Format NoFormat = { false, false, false, 0 };
+
+	class Node
+	{
+		friend class Object;
+		friend class Array;
+
+	public:
+		enum Type
+		{
+			T_OBJECT,
+			T_ARRAY,
+			T_VALUE
+		};
+
+		Node();
+		virtual ~Node();
+
+		virtual Type GetType() const = 0;
+
+		inline bool IsObject() const { return (GetType() == T_OBJECT); }
+		inline bool IsArray() const { return (GetType() == T_ARRAY); }
+		inline bool IsValue() const { return (GetType() == T_VALUE); }
+
+		Object &AsObject();
+		const Object &AsObject() const;
+		Array &AsArray();
+		const Array &AsArray() const;
+		Value &AsValue();
+		const Value &AsValue() const;
+
+		virtual inline bool IsNull() const { return false; }
+		virtual inline bool IsString() const { return false; }
+		virtual inline bool IsNumber() const { return false; }
+		virtual inline bool IsBool() const { return false; }
+
+		virtual std::string ToString() const { throw TypeException(); }
+		virtual int ToInt() const { throw TypeException(); }
+		virtual float ToFloat() const { throw TypeException(); }
+		virtual double ToDouble() const { throw TypeException(); }
+		virtual bool ToBool() const { throw TypeException(); }
+
+		virtual bool Has(const std::string &name) const { throw TypeException(); }
+		virtual size_t GetCount() const { return 0; }
+		virtual Node &Get(const std::string &name) const { throw TypeException(); }
+		virtual Node &Get(size_t index) const { throw TypeException(); }
+
+		static Type DetermineType(const std::string &json);
+
+	protected:
+		virtual Node *GetCopy() const = 0;
+	};
+
+	class Value : public Node
+	{
+	public:
+		enum ValueType
+		{
+			VT_NULL,
+			VT_STRING,
+			VT_NUMBER,
+			VT_BOOL
+		};
+
+		Value();
+		Value(const Value &rhs);
+		Value(const Node &rhs);
+		Value(ValueType type, const std::string &value);
+		Value(const std::string &value);
+		Value(const char *value);
+		Value(const int value);
+		Value(const float value);
+		Value(const double value);
+		Value(const bool value);
+		virtual ~Value();
+
+		virtual Type GetType() const;
+		ValueType GetValueType() const;
+
+		virtual inline bool IsNull() const { return (type == VT_NULL); }
+		virtual inline bool IsString() const { return (type == VT_STRING); }
+		virtual inline bool IsNumber() const { return (type == VT_NUMBER); }
+		virtual inline bool IsBool() const { return (type == VT_BOOL); }
+
+		virtual std::string ToString() const;
+		virtual int ToInt() const;
+		virtual float ToFloat() const;
+		virtual double ToDouble() const;
+		virtual bool ToBool() const;
+
+		void SetNull();
+		void Set(const Value &value);
+		void Set(ValueType type, const std::string &value);
+		void Set(const std::string &value);
+		void Set(const char *value);
+		void Set(const int value);
+		void Set(const float value);
+		void Set(const double value);
+		void Set(const bool value);
+
+		Value &operator=(const Value &rhs);
+		Value &operator=(const Node &rhs);
+		Value &operator=(const std::string &rhs);
+		Value &operator=(const char *rhs);
+		Value &operator=(const int rhs);
+		Value &operator=(const float rhs);
+		Value &operator=(const double rhs);
+		Value &operator=(const bool rhs);
+
+		bool operator==(const Value &other) const;
+		bool operator!=(const Value &other) const;
+
+		static std::string EscapeString(const std::string &value);
+		static std::string UnescapeString(const std::string &value);
+
+	protected:
+		virtual Node *GetCopy() const;
+
+	private:
+		std::string valueStr;
+		ValueType type;
+	};
+
+	static const Value null;
+
+	class Object : public Node
+	{
+		friend class Parser;
+
+	public:
+		class iterator : public std::iterator<std::input_iterator_tag, NamedNode>
+		{
+		public:
+			iterator(NamedNodePtr *o) : p(o) {}
+			iterator(const iterator &it) : p(it.p) {}
+
+			iterator &operator++() { ++p; return *this; }
+			iterator operator++(int) { iterator tmp(*this); operator++(); return tmp; }
+
+			bool operator==(const iterator &rhs) { return p == rhs.p; }
+			bool operator!=(const iterator &rhs) { return p != rhs.p; }
+
+			NamedNode operator*() { return NamedNode(p->first, *p->second); }
+
+		private:
+			NamedNodePtr *p;
+		};
+		class const_iterator : public std::iterator<std::input_iterator_tag, const NamedNode>
+		{
+		public:
+			const_iterator(const NamedNodePtr *o) : p(o) {}
+			const_iterator(const const_iterator &it) : p(it.p) {}
+
+			const_iterator &operator++() { ++p; return *this; }
+			const_iterator operator++(int) { const_iterator tmp(*this); operator++(); return tmp; }
+
+			bool operator==(const const_iterator &rhs) { return p == rhs.p; }
+			bool operator!=(const const_iterator &rhs) { return p != rhs.p; }
+
+			const NamedNode operator*() { return NamedNode(p->first, *p->second); }
+
+		private:
+			const NamedNodePtr *p;
+		};
+
+		Object();
+		Object(const Object &other);
+		Object(const Node &other);
+		virtual ~Object();
+
+		Object &operator=(const Object &rhs);
+
+		virtual Type GetType() const;
+
+		void Add(const std::string &name, Node &node);
+		void Add(const std::string &name, Value node);
+		void Remove(const std::string &name);
+		void Clear();
+
+		iterator begin();
+		const_iterator begin() const;
+		iterator end();
+		const_iterator end() const;
+
+		virtual bool Has(const std::string &name) const;
+		virtual size_t GetCount() const;
+		virtual Node &Get(const std::string &name) const;
+
+	protected:
+		virtual Node *GetCopy() const;
+
+	private:
+		typedef std::vector<NamedNodePtr> ChildList;
+		ChildList children;
+	};
+
+	class Array : public Node
+	{
+		friend class Parser;
+
+	public:
+		class iterator : public std::iterator<std::input_iterator_tag, Node>
+		{
+		public:
+			iterator(Node **o) : p(o) {}
+			iterator(const iterator &it) : p(it.p) {}
+
+			iterator &operator++() { ++p; return *this; }
+			iterator operator++(int) { iterator tmp(*this); operator++(); return tmp; }
+
+			bool operator==(const iterator &rhs) { return p == rhs.p; }
+			bool operator!=(const iterator &rhs) { return p != rhs.p; }
+
+			Node &operator*() { return **p; }
+
+		private:
+			Node **p;
+		};
+		class const_iterator : public std::iterator<std::input_iterator_tag, const Node>
+		{
+		public:
+			const_iterator(const Node *const *o) : p(o) {}
+			const_iterator(const const_iterator &it) : p(it.p) {}
+
+			const_iterator &operator++() { ++p; return *this; }
+			const_iterator operator++(int) { const_iterator tmp(*this); operator++(); return tmp; }
+
+			bool operator==(const const_iterator &rhs) { return p == rhs.p; }
+			bool operator!=(const const_iterator &rhs) { return p != rhs.p; }
+
+			const Node &operator*() { return **p; }
+
+		private:
+			const Node *const *p;
+		};
+
+		Array();
+		Array(const Array &other);
+		Array(const Node &other);
+		virtual ~Array();
+
+		Array &operator=(const Array &rhs);
+
+		virtual Type GetType() const;
+
+		void Add(Node &node);
+		void Add(Value node);
+		void Remove(size_t index);
+		void Clear();
+
+		iterator begin();
+		const_iterator begin() const;
+		iterator end();
+		const_iterator end() const;
+
+		virtual size_t GetCount() const;
+		virtual Node &Get(size_t index) const;
+
+	protected:
+		virtual Node *GetCopy() const;
+
+	private:
+		typedef std::vector<Node*> ChildList;
+		ChildList children;
+	};
+
+	class FileWriter
+	{
+	public:
+		FileWriter(const std::string &filename);
+		~FileWriter();
+
+		static void WriteFile(const std::string &filename, const Node &root, const Format &format = NoFormat);
+
+		void Write(const Node &root, const Format &format = NoFormat);
+
+	private:
+		std::string filename;
+	};
+
+	class FileReader
+	{
+	public:
+		FileReader(const std::string &filename);
+		~FileReader();
+
+		static bool ReadFile(const std::string &filename, Node &node);
+
+		bool Read(Node &node);
+
+		Node::Type DetermineType();
+
+		const std::string &GetError() const;
+
+	private:
+		bool loadFile(const std::string &filename, std::string &json);
+		std::string json;
+		std::string error;
+	};
+
+	class Writer
+	{
+	public:
+		Writer(const Node &root, const Format &format = NoFormat);
+		~Writer();
+
+		void SetFormat(const Format &format);
+		void Write();
+
+		const std::string &GetResult() const;
+
+	private:
+		void writeNode(const Node &node, unsigned int level);
+		void writeObject(const Object &node, unsigned int level);
+		void writeArray(const Array &node, unsigned int level);
+		void writeValue(const Value &node);
+
+		std::string result;
+
+		class FormatInterpreter *fi;
+
+		const Node &root;
+
+		Writer &operator=(const Writer&);
+	};
+
+	class Parser
+	{
+	public:
+		Parser(Node &root);
+		Parser(Node &root, const std::string &json);
+		~Parser();
+
+		void SetJson(const std::string &json);
+		bool Parse();
+
+		const std::string &GetError() const;
+
+	private:
+		enum Token
+		{
+			T_UNKNOWN,
+			T_OBJ_BEGIN,
+			T_OBJ_END,
+			T_ARRAY_BEGIN,
+			T_ARRAY_END,
+			T_SEPARATOR_NODE,
+			T_SEPARATOR_NAME,
+			T_VALUE
+		};
+
+		void tokenize();
+		bool assemble();
+
+		void clearRoot();
+		bool addChild(Node &parent, const std::string &name, Node *node);
+
+		bool readString();
+
+		bool interpretValue(const std::string &value);
+
+		bool isNumber(const std::string &value) const;
+
+		std::string json;
+
+		std::queue<Token> tokens;
+		std::queue<std::pair<Value::ValueType, std::string> > data;
+
+		unsigned int cursor;
+
+		Node &root;
+
+		std::string error;
+
+		Parser &operator=(const Parser&);
+	};
+}
+
+#endif // Jzon_h__
-- 
2.43.0


From 0e337ac1a73d9d63340ed332a22d2dc31acb246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:37 +0000
Subject: [PATCH 132/160] fix: keep the video decoder alive after a codec it
 cannot decode

---
 src/modules/videoDecoder/VideoDecoderLibav.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modules/videoDecoder/VideoDecoderLibav.cpp b/src/modules/videoDecoder/VideoDecoderLibav.cpp
index ddff4f2..5280e24 100644
--- a/src/modules/videoDecoder/VideoDecoderLibav.cpp
+++ b/src/modules/videoDecoder/VideoDecoderLibav.cpp
@@ -113,6 +113,12 @@ bool VideoDecoderLibav::doProcessFrame(Frame *org, Frame *dst)
 
 bool VideoDecoderLibav::inputConfig()
 {   
+    if (codecCtx != NULL) {
+        avcodec_close(codecCtx);
+        av_free(codecCtx);
+        codecCtx = NULL;
+    }
+
     switch(psi.fCodec){
         case H264:
             libavCodecId = AV_CODEC_ID_H264;
@@ -134,11 +140,6 @@ bool VideoDecoderLibav::inputConfig()
             break;
     }
 
-    if (codecCtx != NULL) {
-        avcodec_close(codecCtx);
-        av_free(codecCtx);
-    }
-
     codec = avcodec_find_decoder(libavCodecId);
     if (codec == NULL)
     {
@@ -170,6 +171,9 @@ bool VideoDecoderLibav::inputConfig()
     if (avcodec_open2(codecCtx, codec, &dictionary) < 0)
     {
         utils::errorMsg("Could not open required codec");
+        avcodec_close(codecCtx);
+        av_free(codecCtx);
+        codecCtx = NULL;
         return false;
     }
 
@@ -211,7 +215,7 @@ bool VideoDecoderLibav::toBuffer(VideoFrame *decodedFrame, VideoFrame *codedFram
 
 bool VideoDecoderLibav::reconfigure(VCodecType codec)
 {
-    if (psi.fCodec == codec) {
+    if (codecCtx != NULL && psi.fCodec == codec) {
         return true;
     }
 
-- 
2.43.0


From 0a5586e10eb016d25a0c197bc2ba141aa306fdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:37 +0000
Subject: [PATCH 133/160] fix: drop decoded pictures that do not fit in the
 destination frame

---
 src/modules/videoDecoder/VideoDecoderLibav.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/videoDecoder/VideoDecoderLibav.cpp b/src/modules/videoDecoder/VideoDecoderLibav.cpp
index 5280e24..ea7341b 100644
--- a/src/modules/videoDecoder/VideoDecoderLibav.cpp
+++ b/src/modules/videoDecoder/VideoDecoderLibav.cpp
@@ -184,6 +184,12 @@ bool VideoDecoderLibav::toBuffer(VideoFrame *decodedFrame, VideoFrame *codedFram
 {
     int ret, length;
     
+    length = av_image_get_buffer_size((AVPixelFormat) frame->format, frame->width, frame->height, 1);
+    if (length > (int) decodedFrame->getMaxLength()){
+        utils::errorMsg("Decoded picture does not fit in the destination frame");
+        return false;
+    }
+
     length = av_image_fill_arrays(frameCopy->data, frameCopy->linesize, decodedFrame->getDataBuf(), 
                             (AVPixelFormat) frame->format, frame->width, frame->height, 1); 
     if (length <= 0){
-- 
2.43.0


From 3f8a28cdfc509633f1057d12e9ac55cd7f0703d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:37 +0000
Subject: [PATCH 134/160] fix: give each decoded picture the time of its own
 coded frame

---
 src/modules/videoDecoder/VideoDecoderLibav.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoDecoder/VideoDecoderLibav.cpp b/src/modules/videoDecoder/VideoDecoderLibav.cpp
index ea7341b..4cdf61f 100644
--- a/src/modules/videoDecoder/VideoDecoderLibav.cpp
+++ b/src/modules/videoDecoder/VideoDecoderLibav.cpp
@@ -79,6 +79,7 @@ bool VideoDecoderLibav::doProcessFrame(Frame *org, Frame *dst)
        
     pkt.size = org->getLength();
     pkt.data = org->getDataBuf();
+    codecCtx->reordered_opaque = org->getPresentationTime().count();
    
     while (pkt.size > 0) {
         len = avcodec_decode_video2(codecCtx, frame, &gotFrame, &pkt);
@@ -93,8 +94,8 @@ bool VideoDecoderLibav::doProcessFrame(Frame *org, Frame *dst)
             if (toBuffer(vDecodedFrame, vCodedFrame)) {
                 
                 dst->setConsumed(true);
-                dst->setPresentationTime(org->getPresentationTime());
-                dst->setDecodeTime(org->getPresentationTime());
+                dst->setPresentationTime(std::chrono::microseconds(frame->reordered_opaque));
+                dst->setDecodeTime(std::chrono::microseconds(frame->reordered_opaque));
                 dst->setOriginTime(org->getOriginTime());
                 dst->setSequenceNumber(org->getSequenceNumber());
                 
-- 
2.43.0


From d8d13a7d5e4a1251c67b6194fa243bad9a7ad9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:38 +0000
Subject: [PATCH 135/160] fix: initialise the pixel format of demuxed video
 streams

---
 src/modules/headDemuxer/HeadDemuxerLibav.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.cpp b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
index 15a3b92..9877028 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.cpp
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
@@ -318,6 +318,7 @@ bool HeadDemuxerLibav::setURI(const std::string URI)
                 case AVMEDIA_TYPE_VIDEO:
                     si->type = VIDEO;
                     si->video.codec = utils::getVideoCodecFromLibavString(cdesc->name);
+                    si->video.pixelFormat = P_NONE;
                     // Overwrite libav values with our per-codec defaults
                     si->setCodecDefaults();
                     // For now, we assume H265 is always in AnnexB format
-- 
2.43.0


From 99fbe540abc58d93f14fee1c130e647a8de79ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:38 +0000
Subject: [PATCH 136/160] fix: refuse to connect a stream the demuxer does not
 have

---
 src/modules/headDemuxer/HeadDemuxerLibav.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.cpp b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
index 9877028..5d8f8b9 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.cpp
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
@@ -229,6 +229,10 @@ bool HeadDemuxerLibav::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret
 FrameQueue *HeadDemuxerLibav::allocQueue(ConnectionData cData)
 {
     // Create output queue for the kind of stream associated with this wId
+    if (outputStreamInfos.count(cData.writerId) == 0) {
+        utils::errorMsg("The demuxer has no stream " + std::to_string(cData.writerId));
+        return NULL;
+    }
     const StreamInfo *si = outputStreamInfos[cData.writerId];
     switch (si->type) {
         case AUDIO:
-- 
2.43.0


From 18cafe7d6a721453449e7d31960b3127548fd5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:38 +0000
Subject: [PATCH 137/160] fix: give demuxed frames times in microseconds, also
 when the start or the packet has none

---
 src/modules/headDemuxer/HeadDemuxerLibav.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.cpp b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
index 5d8f8b9..2584222 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.cpp
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
@@ -201,18 +201,20 @@ bool HeadDemuxerLibav::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret
     f->setConsumed(true);
     f->setLength(dst_size);
         
-    if (av_pkt.pts == AV_NOPTS_VALUE) {
-        f->setPresentationTime(
-            std::chrono::microseconds(psi->lastPTS + av_ctx->start_time_realtime));
-        f->setDecodeTime(
-            std::chrono::microseconds(psi->lastDTS + av_ctx->start_time_realtime));
+    int64_t pts = av_pkt.pts == AV_NOPTS_VALUE ? psi->lastPTS : av_pkt.pts;
+    int64_t dts = av_pkt.pts == AV_NOPTS_VALUE ? psi->lastDTS : av_pkt.dts;
+    // Files do not know the wall-clock time they start at
+    int64_t startTime = av_ctx->start_time_realtime == AV_NOPTS_VALUE ? 0 : av_ctx->start_time_realtime;
+
+    f->setPresentationTime(
+        std::chrono::microseconds(
+            (int64_t)(pts * psi->streamTimeBase * std::micro::den) + startTime));
+    if (dts == AV_NOPTS_VALUE) {
+        f->setDecodeTime(NO_DTS);
     } else {
-        f->setPresentationTime(
-            std::chrono::microseconds(
-                (int64_t)(av_pkt.pts * psi->streamTimeBase * std::micro::den) + av_ctx->start_time_realtime));
         f->setDecodeTime(
             std::chrono::microseconds(
-                (int64_t)(av_pkt.dts * psi->streamTimeBase * std::micro::den) + av_ctx->start_time_realtime));
+                (int64_t)(dts * psi->streamTimeBase * std::micro::den) + startTime));
     }
 
     if (bufferOffset == -1) {
-- 
2.43.0


From 0f193f611a88d582cc4784447e838af2eafa19fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:38 +0000
Subject: [PATCH 138/160] fix: discard demuxed H264 packets that have no start
 code

---
 src/modules/headDemuxer/HeadDemuxerLibav.cpp | 23 +++++++++++---------
 src/modules/headDemuxer/HeadDemuxerLibav.hh  |  3 +++
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.cpp b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
index 2584222..459a61c 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.cpp
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
@@ -157,11 +157,7 @@ bool HeadDemuxerLibav::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret
 
     if (dstFrames.count(av_pkt.stream_index) == 0) {
         // Discard packet if output corresponding to this stream is not connected
-        if (buffer != av_pkt.data) {
-            free(buffer);
-        }
-        buffer = NULL;
-        av_packet_unref(&av_pkt);
+        releasePacket();
         return false;
     }
 
@@ -176,6 +172,8 @@ bool HeadDemuxerLibav::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret
         int start = findStartCode(buffer, bufferOffset, bufferSize);
         if (start == -1) {
             utils::errorMsg("Malformed Annex B stream (could not find start code)");
+            releasePacket();
+            return false;
         }
 
         int end = findStartCode(buffer, bufferOffset + 4, bufferSize - 4);
@@ -218,16 +216,21 @@ bool HeadDemuxerLibav::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret
     }
 
     if (bufferOffset == -1) {
-        if (buffer != av_pkt.data) {
-            free(buffer);
-        }
-        buffer = NULL;
-        av_packet_unref(&av_pkt);
+        releasePacket();
     }
 
     return true;
 }
 
+void HeadDemuxerLibav::releasePacket()
+{
+    if (buffer != av_pkt.data) {
+        free(buffer);
+    }
+    buffer = NULL;
+    av_packet_unref(&av_pkt);
+}
+
 FrameQueue *HeadDemuxerLibav::allocQueue(ConnectionData cData)
 {
     // Create output queue for the kind of stream associated with this wId
diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.hh b/src/modules/headDemuxer/HeadDemuxerLibav.hh
index c4e93e7..f1a5f55 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.hh
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.hh
@@ -104,6 +104,9 @@ class HeadDemuxerLibav : public HeadFilter {
         int bufferSize;
         int bufferOffset;
 
+        /** Frees the packet being processed and its working buffer */
+        void releasePacket();
+
         /** Clear all data, close all files */
         void reset();
 
-- 
2.43.0


From 5640eb224f44e628a004a578943439415f503721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:38 +0000
Subject: [PATCH 139/160] fix: split NAL units up to the last bytes of a
 demuxed packet

---
 src/modules/headDemuxer/HeadDemuxerLibav.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.cpp b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
index 459a61c..ad5cf8c 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.cpp
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
@@ -176,7 +176,7 @@ bool HeadDemuxerLibav::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret
             return false;
         }
 
-        int end = findStartCode(buffer, bufferOffset + 4, bufferSize - 4);
+        int end = findStartCode(buffer, start + 3, bufferSize);
         bufferOffset = end;
         if (end == -1) {
             end = bufferSize;
-- 
2.43.0


From 0ce547b94042b76a1eaaaee8600b9d11a643e0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:38 +0000
Subject: [PATCH 140/160] fix: drop demuxed data that does not fit in the
 destination frame

---
 src/modules/headDemuxer/HeadDemuxerLibav.cpp | 31 +++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.cpp b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
index ad5cf8c..5abf4b2 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.cpp
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
@@ -167,6 +167,8 @@ bool HeadDemuxerLibav::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret
     // Copy to destination frame, framing if necessary
     uint8_t *dst_data = f->getDataBuf();
     int dst_size = bufferSize;
+    int dst_max = dst_data ? f->getMaxLength() : 0;
+    bool fits = true;
     if (psi->needsFraming) {
         // Split on startcode boundaries
         int start = findStartCode(buffer, bufferOffset, bufferSize);
@@ -184,18 +186,33 @@ bool HeadDemuxerLibav::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret
         dst_size = end - start;
 
         // LMS does not like short startcodes, so detect them and turn into long startcodes
-        if (buffer[start + 2] == 1) {
-            dst_data[0] = 0;
-            dst_data++;
+        bool shortCode = buffer[start + 2] == 1;
+        fits = dst_size + (shortCode ? 1 : 0) <= dst_max;
+        if (fits) {
+            if (shortCode) {
+                dst_data[0] = 0;
+                dst_data++;
+            }
+            memcpy(dst_data, buffer + start, dst_size);
+            if (shortCode) dst_size++;
         }
-        memcpy(dst_data, buffer + start, dst_size);
-        if (buffer[start + 2] == 1) dst_size++;
-
     } else {
         // No conversion needed, just copy
-        memcpy (dst_data, buffer, bufferSize);
+        fits = dst_size <= dst_max;
+        if (fits) {
+            memcpy (dst_data, buffer, bufferSize);
+        }
         bufferOffset = -1;
     }
+
+    if (!fits) {
+        utils::errorMsg("Demuxed data does not fit in the destination frame");
+        if (bufferOffset == -1) {
+            releasePacket();
+        }
+        return false;
+    }
+
     f->setConsumed(true);
     f->setLength(dst_size);
         
-- 
2.43.0


From 99fd750ef9e90083119205dfd47edd9c4abfbf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:38 +0000
Subject: [PATCH 141/160] fix: convert each demuxed H264 stream with its own
 parameter sets

---
 src/modules/headDemuxer/HeadDemuxerLibav.cpp | 15 ++++++---------
 src/modules/headDemuxer/HeadDemuxerLibav.hh  |  4 ++--
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.cpp b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
index 5abf4b2..194e22d 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.cpp
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
@@ -31,7 +31,6 @@ HeadDemuxerLibav::HeadDemuxerLibav() : HeadFilter ()
     avformat_network_init();
 
     av_ctx = NULL;
-    av_filter_annexb = NULL;
 
     av_pkt.data = NULL;
     buffer = NULL;
@@ -60,11 +59,6 @@ void HeadDemuxerLibav::reset()
     }
     av_ctx = NULL;
 
-    if (av_filter_annexb) {
-        av_bitstream_filter_close(av_filter_annexb);
-    }
-    av_filter_annexb = NULL;
-
     if (buffer && buffer != av_pkt.data) {
         free(buffer);
     }
@@ -82,6 +76,9 @@ void HeadDemuxerLibav::reset()
 
     // Free private stream infos
     for (auto sinfo : privateStreamInfos) {
+        if (sinfo.second->annexbFilter) {
+            av_bitstream_filter_close(sinfo.second->annexbFilter);
+        }
         delete sinfo.second;
     }
     privateStreamInfos.clear();
@@ -131,7 +128,7 @@ bool HeadDemuxerLibav::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret
         if (psi->needsFraming && !psi->isAnnexB) {
             // Convert to Annex B (adding startcodes) using temp buffer
             int res;
-            res = av_bitstream_filter_filter (av_filter_annexb,
+            res = av_bitstream_filter_filter (psi->annexbFilter,
                     av_ctx->streams[av_pkt.stream_index]->codec,
                     NULL, &buffer, &bufferSize, av_pkt.data,
                     av_pkt.size, av_pkt.flags & AV_PKT_FLAG_KEY);
@@ -369,8 +366,8 @@ bool HeadDemuxerLibav::setURI(const std::string URI)
                     psi->isAnnexB = (data[0] == 0);
                     if (!psi->isAnnexB) {
                         // This is AVCC, we need conversion
-                        av_filter_annexb = av_bitstream_filter_init ("h264_mp4toannexb");
-                        if (av_filter_annexb == NULL) {
+                        psi->annexbFilter = av_bitstream_filter_init ("h264_mp4toannexb");
+                        if (psi->annexbFilter == NULL) {
                             utils::warningMsg("Could not find suitable libav filter to convert stream to Annexb");
                             // We actually need framing, but we have no filter
                             psi->needsFraming = false;
diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.hh b/src/modules/headDemuxer/HeadDemuxerLibav.hh
index f1a5f55..6bbacdb 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.hh
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.hh
@@ -68,6 +68,8 @@ class HeadDemuxerLibav : public HeadFilter {
             bool needsFraming;
             /* Whether the input is H264 in AVCC or Annex B format */
             bool isAnnexB;
+            /** Libav filter required to convert H264 AVCC to AnnexB */
+            AVBitStreamFilterContext *annexbFilter;
             /* Initialized to zero, it keeps the last valid pts, in order to be used 
              * in case an AV_NOPTS_VALUE is found in av_pkt*/
             int64_t lastPTS;
@@ -92,8 +94,6 @@ class HeadDemuxerLibav : public HeadFilter {
         /** Libav media context. Created on #setURI(), destroyed on filter destruction
          * or subsequent #setURI(). */
         AVFormatContext *av_ctx;
-        /** Libav filter required to convert H264 AVCC to AnnexB */
-        AVBitStreamFilterContext *av_filter_annexb;
         /** Packet being processed, in case it contains more than one NALU and it needs
          * to be persisted among multiple calls to doProcessFrame. */
         AVPacket av_pkt;
-- 
2.43.0


From 5a70d4dfeec0e17cd1d633aff6dbd5cb123c0095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:29 +0000
Subject: [PATCH 142/160] fix: keep the stream infos of the demuxer as long as
 queues may use them

---
 src/modules/headDemuxer/HeadDemuxerLibav.cpp | 8 ++++++--
 src/modules/headDemuxer/HeadDemuxerLibav.hh  | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.cpp b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
index 194e22d..7c365da 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.cpp
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.cpp
@@ -48,6 +48,10 @@ HeadDemuxerLibav::~HeadDemuxerLibav()
     // Free any possible memory and close possible files/streams
     reset();
 
+    for (auto sinfo : retiredStreamInfos) {
+        delete sinfo;
+    }
+
     // Shutdown libav
     avformat_network_deinit();
 }
@@ -68,9 +72,9 @@ void HeadDemuxerLibav::reset()
         av_packet_unref(&av_pkt);
     }
 
-    // Free stream infos
+    // Connected queues might still point to the stream infos, so they have to outlive them
     for (auto sinfo : outputStreamInfos) {
-        delete sinfo.second;
+        retiredStreamInfos.push_back(sinfo.second);
     }
     outputStreamInfos.clear();
 
diff --git a/src/modules/headDemuxer/HeadDemuxerLibav.hh b/src/modules/headDemuxer/HeadDemuxerLibav.hh
index 6bbacdb..cd01c5a 100644
--- a/src/modules/headDemuxer/HeadDemuxerLibav.hh
+++ b/src/modules/headDemuxer/HeadDemuxerLibav.hh
@@ -88,6 +88,9 @@ class HeadDemuxerLibav : public HeadFilter {
          * shared with the queues. */
         std::map<int, StreamInfo*> outputStreamInfos;
 
+        /** Stream infos of previous URIs, which queues might still be using. */
+        std::vector<StreamInfo*> retiredStreamInfos;
+
         /** Stream information needed for demuxer operation, but not public. */
         std::map<int, PrivateStreamInfo*> privateStreamInfos;
 
-- 
2.43.0


From 9c1813b07d9e831573b2855e4b433358738f56c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:22 +0000
Subject: [PATCH 143/160] fix: keep the audio decoder alive after a codec it
 cannot decode

---
 src/modules/audioDecoder/AudioDecoderLibav.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/modules/audioDecoder/AudioDecoderLibav.cpp b/src/modules/audioDecoder/AudioDecoderLibav.cpp
index bcbb95d..bbe446c 100644
--- a/src/modules/audioDecoder/AudioDecoderLibav.cpp
+++ b/src/modules/audioDecoder/AudioDecoderLibav.cpp
@@ -61,6 +61,8 @@ AudioDecoderLibav::AudioDecoderLibav()
     pkt.size = 0;
     fType = AUDIO_DECODER;
 
+    fCodec = AC_NONE;
+    inSampleFmt = S_NONE;
     inChannels = 0;
     inSampleRate = 0;
     inFrame = av_frame_alloc();
@@ -389,7 +391,7 @@ bool AudioDecoderLibav::reconfigureDecoder(AudioFrame* frame)
         return false;
     }
 
-    if (frame->getCodec() == fCodec && frame->getChannels() == inChannels && frame->getSampleRate() == inSampleRate) {
+    if (codecCtx != NULL && frame->getCodec() == fCodec && frame->getChannels() == inChannels && frame->getSampleRate() == inSampleRate) {
         return true;
     }
 
@@ -415,16 +417,17 @@ bool AudioDecoderLibav::reconfigureDecoder(AudioFrame* frame)
             break;
     }
 
-    if (codecId == AV_CODEC_ID_NONE) {
-        utils::errorMsg("Error reconfiguring audio decoder: input codec not supported");
-        return false;
-    }
-
     av_frame_unref(inFrame);
 
     if (codecCtx != NULL) {
         avcodec_close(codecCtx);
         av_free(codecCtx);
+        codecCtx = NULL;
+    }
+
+    if (codecId == AV_CODEC_ID_NONE) {
+        utils::errorMsg("Error reconfiguring audio decoder: input codec not supported");
+        return false;
     }
 
     codec = avcodec_find_decoder(codecId);
@@ -447,6 +450,9 @@ bool AudioDecoderLibav::reconfigureDecoder(AudioFrame* frame)
     AVDictionary* dictionary = NULL;
     if (avcodec_open2(codecCtx, codec, &dictionary) < 0) {
         utils::errorMsg("[DECODER] Error open context!");
+        avcodec_close(codecCtx);
+        av_free(codecCtx);
+        codecCtx = NULL;
         return false;
     }
 
-- 
2.43.0


From b58d8c0a8c3814f851412dbbfb3466e1bfd37674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:22 +0000
Subject: [PATCH 144/160] fix: do not repeat the last samples when an audio
 packet gives none

---
 src/modules/audioDecoder/AudioDecoderLibav.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modules/audioDecoder/AudioDecoderLibav.cpp b/src/modules/audioDecoder/AudioDecoderLibav.cpp
index bbe446c..36f8f28 100644
--- a/src/modules/audioDecoder/AudioDecoderLibav.cpp
+++ b/src/modules/audioDecoder/AudioDecoderLibav.cpp
@@ -90,7 +90,7 @@ FrameQueue* AudioDecoderLibav::allocQueue(ConnectionData cData)
 
 bool AudioDecoderLibav::doProcessFrame(Frame *org, Frame *dst)
 {
-    int len, gotFrame;
+    int len, gotFrame = 0;
 
     AudioFrame* aCodedFrame = dynamic_cast<AudioFrame*>(org);
     AudioFrame* aDecodedFrame = dynamic_cast<AudioFrame*>(dst);
@@ -136,6 +136,10 @@ bool AudioDecoderLibav::doProcessFrame(Frame *org, Frame *dst)
         break;
     }
 
+    if (!gotFrame) {
+        return false;
+    }
+
     dst->setConsumed(true);
     dst->setPresentationTime(org->getPresentationTime());
     dst->setDecodeTime(NO_DTS);
-- 
2.43.0


From bf9d402274370127bfaaad5b8d8382b6aa4359bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:22 +0000
Subject: [PATCH 145/160] fix: resample audio from the channels and rate it is
 decoded to

---
 .../audioDecoder/AudioDecoderLibav.cpp        | 30 ++++++++++++-------
 src/modules/audioDecoder/AudioDecoderLibav.hh |  4 ++-
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/modules/audioDecoder/AudioDecoderLibav.cpp b/src/modules/audioDecoder/AudioDecoderLibav.cpp
index 36f8f28..0506b07 100644
--- a/src/modules/audioDecoder/AudioDecoderLibav.cpp
+++ b/src/modules/audioDecoder/AudioDecoderLibav.cpp
@@ -65,6 +65,8 @@ AudioDecoderLibav::AudioDecoderLibav()
     inSampleFmt = S_NONE;
     inChannels = 0;
     inSampleRate = 0;
+    decodedChannels = 0;
+    decodedSampleRate = 0;
     inFrame = av_frame_alloc();
     inLibavSampleFmt = AV_SAMPLE_FMT_NONE;
 
@@ -126,7 +128,10 @@ bool AudioDecoderLibav::doProcessFrame(Frame *org, Frame *dst)
             continue;
         }
 
-        checkSampleFormat(inFrame->format);
+        if (!checkInputFormat(inFrame)) {
+            utils::errorMsg("Error configuring the audio resampler");
+            return false;
+        }
 
         if (!resample(inFrame, aDecodedFrame)) {
             utils::errorMsg("Error resampling audio frame");
@@ -198,9 +203,9 @@ bool AudioDecoderLibav::inputConfig()
                     av_get_default_channel_layout(outChannels),
                     outLibavSampleFmt,
                     outSampleRate,
-                    av_get_default_channel_layout(inChannels),
+                    av_get_default_channel_layout(decodedChannels),
                     inLibavSampleFmt,
-                    inSampleRate,
+                    decodedSampleRate,
                     0,
                     NULL
                   );
@@ -222,7 +227,7 @@ bool AudioDecoderLibav::inputConfig()
 
 bool AudioDecoderLibav::outputConfig()
 {
-    if (inChannels == 0 && inSampleRate == 0) {
+    if (decodedChannels == 0 || decodedSampleRate == 0) {
         return true;
     }
 
@@ -232,9 +237,9 @@ bool AudioDecoderLibav::outputConfig()
                     av_get_default_channel_layout(outChannels),
                     outLibavSampleFmt,
                     outSampleRate,
-                    av_get_default_channel_layout(inChannels),
+                    av_get_default_channel_layout(decodedChannels),
                     inLibavSampleFmt,
-                    inSampleRate,
+                    decodedSampleRate,
                     0,
                     NULL
                   );
@@ -297,15 +302,18 @@ bool AudioDecoderLibav::resample(AVFrame* src, AudioFrame* dst)
     return true;
 }
 
-void AudioDecoderLibav::checkSampleFormat(int sampleFormatCode)
+bool AudioDecoderLibav::checkInputFormat(AVFrame* src)
 {
-    AVSampleFormat sampleFormat = getAVSampleFormatFromtIntCode(sampleFormatCode);
+    AVSampleFormat sampleFormat = getAVSampleFormatFromtIntCode(src->format);
 
-    if (inLibavSampleFmt == sampleFormat) {
-        return;
+    if (resampleCtx != NULL && swr_is_initialized(resampleCtx) && inLibavSampleFmt == sampleFormat &&
+        decodedChannels == (unsigned) src->channels && decodedSampleRate == (unsigned) src->sample_rate) {
+        return true;
     }
 
     inLibavSampleFmt = sampleFormat;
+    decodedChannels = src->channels;
+    decodedSampleRate = src->sample_rate;
 
     switch(inLibavSampleFmt) {
         case AV_SAMPLE_FMT_U8:
@@ -331,7 +339,7 @@ void AudioDecoderLibav::checkSampleFormat(int sampleFormatCode)
             break;
     }
 
-    inputConfig();
+    return inputConfig();
 }
 
 bool AudioDecoderLibav::configEvent(Jzon::Node* params)
diff --git a/src/modules/audioDecoder/AudioDecoderLibav.hh b/src/modules/audioDecoder/AudioDecoderLibav.hh
index 4e43dc2..e8352a1 100644
--- a/src/modules/audioDecoder/AudioDecoderLibav.hh
+++ b/src/modules/audioDecoder/AudioDecoderLibav.hh
@@ -48,7 +48,7 @@ protected:
 private:
     void initializeEventMap();
     bool resample(AVFrame* src, AudioFrame* dst);
-    void checkSampleFormat(int sampleFormat);
+    bool checkInputFormat(AVFrame* src);
     bool inputConfig();
     bool outputConfig();
     bool reconfigureDecoder(AudioFrame* frame);
@@ -79,6 +79,8 @@ private:
     unsigned outChannels;
     unsigned inSampleRate;
     unsigned outSampleRate;
+    unsigned decodedChannels;
+    unsigned decodedSampleRate;
     unsigned bytesPerSample;
     unsigned char *auxBuff[1];
 
-- 
2.43.0


From 26f7c8d8b01eef38d23f1fc9baacd9372a6a0f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:22 +0000
Subject: [PATCH 146/160] fix: refuse impossible audio decoder configurations

---
 src/modules/audioDecoder/AudioDecoderLibav.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/audioDecoder/AudioDecoderLibav.cpp b/src/modules/audioDecoder/AudioDecoderLibav.cpp
index 0506b07..0f2f025 100644
--- a/src/modules/audioDecoder/AudioDecoderLibav.cpp
+++ b/src/modules/audioDecoder/AudioDecoderLibav.cpp
@@ -156,6 +156,11 @@ bool AudioDecoderLibav::doProcessFrame(Frame *org, Frame *dst)
 
 bool AudioDecoderLibav::configure0(SampleFmt sampleFormat, int channels, int sampleRate)
 {
+    if (sampleFormat < U8 || sampleFormat > FLTP || channels <= 0 || channels > MAX_CHANNELS || sampleRate <= 0) {
+        utils::errorMsg("Audio decoder configuration not supported");
+        return false;
+    }
+
     outSampleFmt = sampleFormat;
     outChannels = channels;
     outSampleRate = sampleRate;
-- 
2.43.0


From 751304d05a1ad471e5feeeadd4751364641a0178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:22 +0000
Subject: [PATCH 147/160] fix: do not write audio of another format than the
 one of the destination frame

---
 src/modules/audioDecoder/AudioDecoderLibav.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/audioDecoder/AudioDecoderLibav.cpp b/src/modules/audioDecoder/AudioDecoderLibav.cpp
index 0f2f025..442bd23 100644
--- a/src/modules/audioDecoder/AudioDecoderLibav.cpp
+++ b/src/modules/audioDecoder/AudioDecoderLibav.cpp
@@ -268,6 +268,11 @@ bool AudioDecoderLibav::resample(AVFrame* src, AudioFrame* dst)
 {
     int samples;
 
+    if (dst->getSampleFmt() != outSampleFmt || dst->getChannels() != outChannels || dst->getSampleRate() != outSampleRate) {
+        utils::errorMsg("The connected queue does not hold the audio that is configured");
+        return false;
+    }
+
     if (dst->isPlanar()) {
         samples = swr_convert(
                     resampleCtx,
-- 
2.43.0


From 090b9ea2dd9b6cb63b8f0126a4b9d977c447ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:22 +0000
Subject: [PATCH 148/160] fix: take the frame size of PCM encoders from the
 output sample rate

---
 src/modules/audioEncoder/AudioEncoderLibav.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioEncoder/AudioEncoderLibav.cpp b/src/modules/audioEncoder/AudioEncoderLibav.cpp
index 0864ff2..d9f1e35 100644
--- a/src/modules/audioEncoder/AudioEncoderLibav.cpp
+++ b/src/modules/audioEncoder/AudioEncoderLibav.cpp
@@ -243,7 +243,7 @@ bool AudioEncoderLibav::codingConfig(AVCodecID codecId)
     if (codecCtx->frame_size != 0) {
         libavFrame->nb_samples = codecCtx->frame_size;
     } else {
-        libavFrame->nb_samples = AudioFrame::getDefaultSamples(inputSampleRate);
+        libavFrame->nb_samples = AudioFrame::getDefaultSamples(outputStreamInfo->audio.sampleRate);
     }
 
     libavFrame->format = codecCtx->sample_fmt;
-- 
2.43.0


From a9064ceb043163382b08ba9bead8613af5d892e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:22 +0000
Subject: [PATCH 149/160] fix: hold encoded MP3 in frames that can be made

---
 src/modules/audioEncoder/AudioEncoderLibav.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioEncoder/AudioEncoderLibav.cpp b/src/modules/audioEncoder/AudioEncoderLibav.cpp
index d9f1e35..63bbd7e 100644
--- a/src/modules/audioEncoder/AudioEncoderLibav.cpp
+++ b/src/modules/audioEncoder/AudioEncoderLibav.cpp
@@ -188,7 +188,7 @@ bool AudioEncoderLibav::configure0(ACodecType codec, int codedAudioChannels, int
         case MP3:
             codecId = AV_CODEC_ID_MP3;
             internalLibavSampleFmt = AV_SAMPLE_FMT_S16P;
-            outputStreamInfo->audio.sampleFormat = S16P;
+            outputStreamInfo->audio.sampleFormat = S16;
             break;
         default:
             codecId = AV_CODEC_ID_NONE;
-- 
2.43.0


From 0811738ed95be14775a69cbc434aa8e3baea8495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:22 +0000
Subject: [PATCH 150/160] fix: accept audio encoders that do not restrict rates
 or channels

---
 src/modules/audioEncoder/AudioEncoderLibav.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/modules/audioEncoder/AudioEncoderLibav.cpp b/src/modules/audioEncoder/AudioEncoderLibav.cpp
index 63bbd7e..63168e8 100644
--- a/src/modules/audioEncoder/AudioEncoderLibav.cpp
+++ b/src/modules/audioEncoder/AudioEncoderLibav.cpp
@@ -371,6 +371,10 @@ bool checkSampleFormat(AVCodec *codec, enum AVSampleFormat sampleFmt)
 {
     const enum AVSampleFormat *p = codec->sample_fmts;
 
+    if (!p) {
+        return true;
+    }
+
     while (*p != AV_SAMPLE_FMT_NONE) {
         if (*p == sampleFmt) {
             return true;
@@ -385,8 +389,9 @@ bool checkSampleRateSupport(AVCodec *codec, int sampleRate)
 {
     const int *p;
 
+    // No list means no restriction
     if (!codec->supported_samplerates) {
-        return false;
+        return true;
     }
 
     p = codec->supported_samplerates;
@@ -404,8 +409,9 @@ bool checkChannelLayoutSupport(AVCodec *codec, uint64_t channelLayout)
 {
     const uint64_t *p;
 
+    // No list means no restriction
     if (!codec->channel_layouts)
-        return false;
+        return true;
 
     p = codec->channel_layouts;
     while (*p) {
-- 
2.43.0


From f197e52704f25d637011c3295199231aa7aa0ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:22 +0000
Subject: [PATCH 151/160] fix: let the audio encoder be configured after a
 configuration it refused

---
 src/modules/audioEncoder/AudioEncoderLibav.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/modules/audioEncoder/AudioEncoderLibav.cpp b/src/modules/audioEncoder/AudioEncoderLibav.cpp
index 63168e8..1aa2c0c 100644
--- a/src/modules/audioEncoder/AudioEncoderLibav.cpp
+++ b/src/modules/audioEncoder/AudioEncoderLibav.cpp
@@ -195,7 +195,22 @@ bool AudioEncoderLibav::configure0(ACodecType codec, int codedAudioChannels, int
             break;
     }
 
-    return codingConfig(codecId);
+    if (!codingConfig(codecId)) {
+        // Nothing is configured, so another configuration can follow
+        avcodec_close(codecCtx);
+        av_free(codecCtx);
+        codecCtx = NULL;
+        av_frame_unref(libavFrame);
+        samplesPerFrame = 0;
+        outputBitrate = 0;
+        outputStreamInfo->audio.codec = AC_NONE;
+        outputStreamInfo->audio.sampleRate = 0;
+        outputStreamInfo->audio.channels = 0;
+        outputStreamInfo->audio.sampleFormat = S_NONE;
+        return false;
+    }
+
+    return true;
 }
 
 bool AudioEncoderLibav::codingConfig(AVCodecID codecId) 
-- 
2.43.0


From 5237dfbca95d677e1e904151fd424058bd442786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:22 +0000
Subject: [PATCH 152/160] fix: free the output stream info of the audio encoder

---
 src/modules/audioEncoder/AudioEncoderLibav.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/audioEncoder/AudioEncoderLibav.cpp b/src/modules/audioEncoder/AudioEncoderLibav.cpp
index 1aa2c0c..6c963d2 100644
--- a/src/modules/audioEncoder/AudioEncoderLibav.cpp
+++ b/src/modules/audioEncoder/AudioEncoderLibav.cpp
@@ -65,6 +65,8 @@ AudioEncoderLibav::~AudioEncoderLibav()
     swr_free(&resampleCtx);
     av_free(libavFrame);
     av_packet_unref(&pkt);
+
+    delete outputStreamInfo;
 }
 
 FrameQueue* AudioEncoderLibav::allocQueue(ConnectionData cData)
-- 
2.43.0


From 943ff51ca32833c251a5dc6be6e9ec5e5cf0ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:09 +0000
Subject: [PATCH 153/160] fix: initialize the audio resamplers again when their
 format changes

---
 src/modules/audioDecoder/AudioDecoderLibav.cpp | 18 ++++++++----------
 src/modules/audioEncoder/AudioEncoderLibav.cpp |  9 ++++-----
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/modules/audioDecoder/AudioDecoderLibav.cpp b/src/modules/audioDecoder/AudioDecoderLibav.cpp
index 442bd23..7742354 100644
--- a/src/modules/audioDecoder/AudioDecoderLibav.cpp
+++ b/src/modules/audioDecoder/AudioDecoderLibav.cpp
@@ -220,11 +220,10 @@ bool AudioDecoderLibav::inputConfig()
         return false;
     }
 
-    if (swr_is_initialized(resampleCtx) == 0) {
-        if (swr_init(resampleCtx) < 0) {
-            utils::errorMsg("Init context failure!");
-            return false;
-        }
+    // An initialized context only takes new options when it is initialized again
+    if (swr_init(resampleCtx) < 0) {
+        utils::errorMsg("Init context failure!");
+        return false;
     }
 
     return true;
@@ -254,11 +253,10 @@ bool AudioDecoderLibav::outputConfig()
         return false;
     }
 
-    if (swr_is_initialized(resampleCtx) == 0) {
-        if (swr_init(resampleCtx) < 0) {
-            utils::errorMsg("Init context failure!");
-            return false;
-        }
+    // An initialized context only takes new options when it is initialized again
+    if (swr_init(resampleCtx) < 0) {
+        utils::errorMsg("Init context failure!");
+        return false;
     }
 
     return true;
diff --git a/src/modules/audioEncoder/AudioEncoderLibav.cpp b/src/modules/audioEncoder/AudioEncoderLibav.cpp
index 6c963d2..60dc5f3 100644
--- a/src/modules/audioEncoder/AudioEncoderLibav.cpp
+++ b/src/modules/audioEncoder/AudioEncoderLibav.cpp
@@ -297,11 +297,10 @@ bool AudioEncoderLibav::resamplingConfig()
         return false;
     }
 
-    if (swr_is_initialized(resampleCtx) == 0) {
-        if (swr_init(resampleCtx) < 0) {
-            utils::errorMsg("Error initializing encoder resample context");
-            return false;
-        }
+    // An initialized context only takes new options when it is initialized again
+    if (swr_init(resampleCtx) < 0) {
+        utils::errorMsg("Error initializing encoder resample context");
+        return false;
     }
 
     return true;
-- 
2.43.0


From e74f43824c1a4dabd006ba548ed69083abcac72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:03 +0000
Subject: [PATCH 154/160] fix: encode whole frames of audio whose sample rate
 the encoder converts

---
 src/AudioCircularBuffer.hh                    |  5 ++
 .../audioEncoder/AudioEncoderLibav.cpp        | 65 ++++++++++++++++---
 src/modules/audioEncoder/AudioEncoderLibav.hh |  2 +
 3 files changed, 63 insertions(+), 9 deletions(-)

diff --git a/src/AudioCircularBuffer.hh b/src/AudioCircularBuffer.hh
index ffb4df8..23e074b 100644
--- a/src/AudioCircularBuffer.hh
+++ b/src/AudioCircularBuffer.hh
@@ -82,6 +82,11 @@ public:
      * @return max number of samples.
      */
     unsigned getChannelMaxSamples() {return chMaxSamples;};
+
+    /**
+     * Get the sample rate of the audio in the buffer
+     */
+    unsigned getSampleRate() const {return sampleRate;};
     
     /**
     * See FrameQueue::getElements
diff --git a/src/modules/audioEncoder/AudioEncoderLibav.cpp b/src/modules/audioEncoder/AudioEncoderLibav.cpp
index 60dc5f3..2081d07 100644
--- a/src/modules/audioEncoder/AudioEncoderLibav.cpp
+++ b/src/modules/audioEncoder/AudioEncoderLibav.cpp
@@ -39,6 +39,7 @@ AudioEncoderLibav::AudioEncoderLibav() : OneToOneFilter(),
     codec = NULL;
     codecCtx = NULL;
     resampleCtx = NULL;
+    fifo = NULL;
     libavFrame = av_frame_alloc();
     av_init_packet(&pkt);
     pkt.data = NULL;
@@ -63,6 +64,7 @@ AudioEncoderLibav::~AudioEncoderLibav()
     avcodec_close(codecCtx);
     av_free(codecCtx);
     swr_free(&resampleCtx);
+    av_audio_fifo_free(fifo);
     av_free(libavFrame);
     av_packet_unref(&pkt);
 
@@ -100,11 +102,16 @@ bool AudioEncoderLibav::doProcessFrame(Frame *org, Frame *dst)
     //resample in order to adapt to encoder constraints
     samples = resample(rawFrame, libavFrame);
 
-    if (samples <= 0) {
+    if (samples < 0) {
         utils::errorMsg("Error encoding audio frame: resampling error");
         return false;
     }
 
+    if (samples == 0) {
+        utils::debugMsg("Audio encoder: there is not a whole frame yet");
+        return false;
+    }
+
     ret = avcodec_encode_audio2(codecCtx, &pkt, libavFrame, &gotFrame);
 
     if (ret < 0) {
@@ -133,6 +140,7 @@ bool AudioEncoderLibav::doProcessFrame(Frame *org, Frame *dst)
 bool AudioEncoderLibav::specificReaderConfig(int /*readerID*/, FrameQueue* queue)
 {
     AudioCircularBuffer* b;
+    int samples;
 
     if (samplesPerFrame == 0) {
         utils::errorMsg("Error setting audio encoder reader. Samples per frame has 0 value");
@@ -146,7 +154,14 @@ bool AudioEncoderLibav::specificReaderConfig(int /*readerID*/, FrameQueue* queue
         return false;
     }
 
-    b->setOutputFrameSamples(samplesPerFrame);
+    // A frame of the input must not give more than a frame to encode
+    samples = samplesPerFrame;
+
+    if (outputStreamInfo->audio.sampleRate > 0) {
+        samples = (uint64_t)samplesPerFrame*b->getSampleRate()/outputStreamInfo->audio.sampleRate;
+    }
+
+    b->setOutputFrameSamples(samples > 0 ? samples : 1);
 
     return true;
 }
@@ -274,6 +289,14 @@ bool AudioEncoderLibav::codingConfig(AVCodecID codecId)
         return false;
     }
 
+    av_audio_fifo_free(fifo);
+    fifo = av_audio_fifo_alloc(internalLibavSampleFmt, outputStreamInfo->audio.channels, samplesPerFrame);
+
+    if (fifo == NULL) {
+        utils::errorMsg("Could not allocate the samples to encode");
+        return false;
+    }
+
     return true;
 }
 
@@ -348,14 +371,22 @@ bool AudioEncoderLibav::reconfigure(AudioFrame* frame)
 
 int AudioEncoderLibav::resample(AudioFrame* src, AVFrame* dst)
 {
-    int samples;
+    int samples, maxSamples;
     unsigned char *auxBuff;
+    uint8_t **converted = NULL;
+
+    maxSamples = av_rescale_rnd(swr_get_delay(resampleCtx, inputSampleRate) + src->getSamples(), 
+                                outputStreamInfo->audio.sampleRate, inputSampleRate, AV_ROUND_UP);
+
+    if (av_samples_alloc_array_and_samples(&converted, NULL, dst->channels, maxSamples, internalLibavSampleFmt, 0) < 0) {
+        return -1;
+    }
 
     if (src->isPlanar()) {
         samples = swr_convert(
                     resampleCtx,
-                    dst->data,
-                    dst->nb_samples,
+                    converted,
+                    maxSamples,
                     (const uint8_t**)src->getPlanarDataBuf(),
                     src->getSamples()
                   );
@@ -365,15 +396,31 @@ int AudioEncoderLibav::resample(AudioFrame* src, AVFrame* dst)
 
         samples = swr_convert(
                     resampleCtx,
-                    dst->data,
-                    dst->nb_samples,
-                    (const uint8_t**)auxBuff,
+                    converted,
+                    maxSamples,
+                    (const uint8_t**)&auxBuff,
                     src->getSamples()
                   );
 
     }
 
-    return samples;
+    if (samples > 0 && av_audio_fifo_write(fifo, (void**)converted, samples) < samples) {
+        samples = -1;
+    }
+
+    av_freep(&converted[0]);
+    av_freep(&converted);
+
+    if (samples < 0) {
+        return samples;
+    }
+
+    // Frames of another sample rate do not give a whole frame each
+    if (av_audio_fifo_size(fifo) < dst->nb_samples) {
+        return 0;
+    }
+
+    return av_audio_fifo_read(fifo, (void**)dst->data, dst->nb_samples);
 }
 
 void AudioEncoderLibav::doGetState(Jzon::Object &filterNode)
diff --git a/src/modules/audioEncoder/AudioEncoderLibav.hh b/src/modules/audioEncoder/AudioEncoderLibav.hh
index c773816..a604beb 100644
--- a/src/modules/audioEncoder/AudioEncoderLibav.hh
+++ b/src/modules/audioEncoder/AudioEncoderLibav.hh
@@ -27,6 +27,7 @@
 
 extern "C" {
     #include <libavcodec/avcodec.h>
+    #include <libavutil/audio_fifo.h>
     #include <libswresample/swresample.h>
 }
 
@@ -74,6 +75,7 @@ private:
     AVFrame             *libavFrame;
     AVPacket            pkt;
     SwrContext          *resampleCtx;
+    AVAudioFifo         *fifo;
     int                 gotFrame;
 
     unsigned            samplesPerFrame;
-- 
2.43.0


From 2cfbac0ed4c3c1e82a3f78a343791eda26d730cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:03 +0000
Subject: [PATCH 155/160] fix: free the samples of the audio encoder's frame

---
 src/modules/audioEncoder/AudioEncoderLibav.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioEncoder/AudioEncoderLibav.cpp b/src/modules/audioEncoder/AudioEncoderLibav.cpp
index 2081d07..8e17b75 100644
--- a/src/modules/audioEncoder/AudioEncoderLibav.cpp
+++ b/src/modules/audioEncoder/AudioEncoderLibav.cpp
@@ -65,7 +65,7 @@ AudioEncoderLibav::~AudioEncoderLibav()
     av_free(codecCtx);
     swr_free(&resampleCtx);
     av_audio_fifo_free(fifo);
-    av_free(libavFrame);
+    av_frame_free(&libavFrame);
     av_packet_unref(&pkt);
 
     delete outputStreamInfo;
-- 
2.43.0


From dc73c46bc725a783ea8f66be820d40064b96dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:35 +0000
Subject: [PATCH 156/160] fix: report the losses of a path at its own readers

The losses of the intermediate filters were looked for at their reader with the default id, whoever
it belongs to: those of an intermediate mixer were not counted, and a path that is not connected
reported those of other paths.
---
 src/PipelineManager.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 7391c70..da775ca 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -552,11 +552,10 @@ void PipelineManager::getStateEvent(Jzon::Node* params, Jzon::Object &outputNode
         f = getFilter(it.second->getDestinationFilterID());
         if (f) {
             path.Add("avgDelay", (int)f->getAvgReaderDelay(it.second->getDstReaderID()).count());
-            totalPathLostBlocs += f->getLostBlocs(it.second->getDstReaderID());
-            for (auto itt : pFilters) {
-                f = getFilter(itt);
+            for (auto link : it.second->getLinks()) {
+                f = getFilter(link.rFilterId);
                 if (f){
-                    totalPathLostBlocs += f->getLostBlocs(DEFAULT_ID);
+                    totalPathLostBlocs += f->getLostBlocs(link.readerId);
                 }
             }
             path.Add("lostBlocs", (int)totalPathLostBlocs);
-- 
2.43.0


From aa397c83a2f34c0d485b17f7fcbb77a48560bd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:08 +0000
Subject: [PATCH 157/160] fix: remove segments only once the manifest on disk
 does not list them

When the manifest could not be written the segments that had left the window were removed all the
same, and the manifest on disk, the previous one, still listed them. They wait for the next one.
---
 src/modules/dasher/Dasher.cpp | 26 ++++++++++++++++++--------
 src/modules/dasher/Dasher.hh  |  2 ++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 799fb3c..1a1b629 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -106,6 +106,8 @@ void Dasher::restartInNewPath()
     // The segments written so far stay where they were, only the init segments are needed at the new place
     mpdMngr->flushAdaptationSetTimestamps(V_ADAPT_SET_ID);
     mpdMngr->flushAdaptationSetTimestamps(A_ADAPT_SET_ID);
+    vRmTimestamps.clear();
+    aRmTimestamps.clear();
 
     if (!vSegments.empty()) {
         mpdMngr->updateVideoAdaptationSet(V_ADAPT_SET_ID, segmenters[vSegments.begin()->first]->getTimeBase(), vSegTempl, vInitSegTempl);
@@ -304,7 +306,6 @@ bool Dasher::writeVideoSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    std::vector<uint64_t> rmTimestamps;
     bool needEncoderConfig = false;
 
     if (vSegments.empty()) {
@@ -342,16 +343,21 @@ bool Dasher::writeVideoSegments()
         return false;
     }
 
-    mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur, &rmTimestamps);
+    mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur, &vRmTimestamps);
 
-    mpdMngr->writeToDisk(mpdPath.c_str());
+    // The manifest on disk still lists them if it could not be replaced
+    if (!mpdMngr->writeToDisk(mpdPath.c_str())) {
+        return true;
+    }
 
-    for (auto rmTimestamp : rmTimestamps) {
+    for (auto rmTimestamp : vRmTimestamps) {
         if (!cleanSegments(vSegments, rmTimestamp, V_EXT)) {
             utils::warningMsg("Error cleaning dash video segments");
         }
     }
 
+    vRmTimestamps.clear();
+
     return true;
 }
 
@@ -371,7 +377,6 @@ bool Dasher::writeAudioSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    std::vector<uint64_t> rmTimestamps;
 
     if (aSegments.empty()) {
         return false;
@@ -397,16 +402,21 @@ bool Dasher::writeAudioSegments()
         return false;
     }
 
-    mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur, &rmTimestamps);
+    mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur, &aRmTimestamps);
 
-    mpdMngr->writeToDisk(mpdPath.c_str());
+    // The manifest on disk still lists them if it could not be replaced
+    if (!mpdMngr->writeToDisk(mpdPath.c_str())) {
+        return true;
+    }
 
-    for (auto rmTimestamp : rmTimestamps) {
+    for (auto rmTimestamp : aRmTimestamps) {
         if (!cleanSegments(aSegments, rmTimestamp, A_EXT)) {
             utils::warningMsg("Error cleaning dash audio segments");
         }
     }
 
+    aRmTimestamps.clear();
+
     return true;
 }
 
diff --git a/src/modules/dasher/Dasher.hh b/src/modules/dasher/Dasher.hh
index 31910e1..facc491 100644
--- a/src/modules/dasher/Dasher.hh
+++ b/src/modules/dasher/Dasher.hh
@@ -121,6 +121,8 @@ private:
     std::map<int, DashSegment*> vSegments;
     std::map<int, DashSegment*> aSegments;
     std::map<int, DashSegment*> initSegments;
+    std::vector<uint64_t> vRmTimestamps;    // out of the window, to be removed once the manifest does not list them
+    std::vector<uint64_t> aRmTimestamps;
 
     MpdManager* mpdMngr;
     std::chrono::seconds segDur;
-- 
2.43.0


From beb298ad3d4d3715681653902185c9ab1f670c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:10 +0000
Subject: [PATCH 158/160] fix: list a segment start only once

When the representation a set takes its times from leaves, the one that follows can repeat a start
that is listed: the file was overwritten, listed twice, and removed when the first entry left the
window, while the second was still listed.
---
 src/modules/dasher/MpdManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/dasher/MpdManager.cpp b/src/modules/dasher/MpdManager.cpp
index 524e296..06ddcd1 100644
--- a/src/modules/dasher/MpdManager.cpp
+++ b/src/modules/dasher/MpdManager.cpp
@@ -260,6 +260,11 @@ uint64_t AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsi
 {
     uint64_t removedTimestamp= 0;
 
+    // A segment that starts when a listed one does takes its place: it has the same file
+    for (auto it = timestamps.begin(); it != timestamps.end();) {
+        it = it->first == ts ? timestamps.erase(it) : it + 1;
+    }
+
     while (timestamps.size() >= maxSeg) {
         removedTimestamp = timestamps.front().first;
         timestamps.pop_front();
-- 
2.43.0


From c500f8cc967b158d93e8cf459936ff28ac84881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:13 +0000
Subject: [PATCH 159/160] fix: compare the last frames of the segments that are
 cut, not of those to come

---
 src/modules/dasher/Dasher.cpp | 7 +++++--
 src/modules/dasher/Dasher.hh  | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 1a1b629..61d9774 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -713,7 +713,7 @@ bool Dasher::setDashSegmenterBitrate(int id, unsigned int bps)
 
 DashSegmenter::DashSegmenter(std::chrono::seconds segmentDuration, unsigned int tBase, std::chrono::microseconds offset) :
 segDur(segmentDuration), dashContext(NULL), timeBase(tBase), frameDuration(0), currentTimestamp(0),
-sequenceNumber(0), bitrateInBitsPerSec(0), tsOffset(offset)
+sequenceNumber(0), bitrateInBitsPerSec(0), tsOffset(offset), lastFrameTs(0)
 {
     segDurInTimeBaseUnits = segDur.count()*timeBase;
 }
@@ -743,10 +743,13 @@ bool DashSegmenter::generateSegment(DashSegment* segment, Frame* frame, bool for
     segmentSize = customGenerateSegment(segment->getDataBuffer(), decodeTs, segTimestamp, segDuration, force);
 
     if (segmentSize <= I2ERROR_MAX) {
-        segment->setLastFrameTimestamp(frameTs.count());
+        lastFrameTs = frameTs;
         return false;
     }
     
+    // The frame received now belongs to the next segment, as those to come while this one is not written
+    segment->setLastFrameTimestamp(lastFrameTs.count());
+    lastFrameTs = frameTs;
     segment->setTimestamp(segTimestamp);
     segment->setDuration(segDuration);
     segment->setDataLength(segmentSize);
diff --git a/src/modules/dasher/Dasher.hh b/src/modules/dasher/Dasher.hh
index facc491..34d3f44 100644
--- a/src/modules/dasher/Dasher.hh
+++ b/src/modules/dasher/Dasher.hh
@@ -229,6 +229,7 @@ protected:
     unsigned int bitrateInBitsPerSec;
     
     std::chrono::microseconds tsOffset;
+    std::chrono::microseconds lastFrameTs;
 };
 
 /*! It represents a dash segment. It contains a buffer with the segment data (it allocates data) and its length. Moreover, it contains the
-- 
2.43.0


From 38be2dfcefa61ea2f2782042f12d57ae9a8dcc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:13 +0000
Subject: [PATCH 160/160] fix: realign the representations of a set after the
 latest of them

---
 src/modules/dasher/Dasher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 61d9774..b1ab122 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -328,13 +328,13 @@ bool Dasher::writeVideoSegments()
 
     for (auto seg : vSegments) {
         if (seg.second->getLastFrameTimestamp() != lastTs) {
-            utils::warningMsg("Segments of the same adaptation set have different timestamps");
             needEncoderConfig = true;
-            break;
+            lastTs = std::max(lastTs, seg.second->getLastFrameTimestamp());
         }
     }
     
     if (needEncoderConfig){
+        utils::warningMsg("Segments of the same adaptation set have different timestamps");
         sendSetReferenceEvent(lastTs + std::chrono::microseconds(segDur).count());
     }
     
-- 
2.43.0

