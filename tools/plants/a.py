import os, runpy
PRE = runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + "/common.py")["PRE"]
FA = "-fno-access-control"
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, flags=FA): BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))

bug("p01-flush-wrap", "P01", [("src/AVFramedQueue.cpp", "    rear = (rear + (max - 1)) % max;\n", "    rear = rear > 0 ? rear - 1 : max - 2;\n")],
 PRE + r'''int main() { vinfo.video.codec = RAW; ConnectionData cd; RawQueue q(cd, 5, 16);
  for (int rot = 0; rot < 7; rot++) { while (q.getRear()) { q.addFrame(); } unsigned n = q.getElements(); size_t l = q.getLostBlocs(); REQUIRE(n == 4); REQUIRE(q.forceGetRear()); REQUIRE(q.getElements() + (q.getLostBlocs() - l) == n); q.addFrame(); q.removeFrame(); }
  return 0; }''', "a forced write into a full queue whose rear index has just wrapped to 0", "the flush discards two frames but counts one lost block", FA)

bug("p02-rearm", "P02", [("src/IOInterface.cpp", "    } else {\n        newFrame = false;\n    }\n\n    return frame;", "    } else {\n        newFrame = false;\n        filters[fId].second = true;\n    }\n\n    return frame;")],
 PRE + r'''int main() { vinfo.video.codec = RAW; Feed f; Catch a, b; f.setId(1); a.setId(2); b.setId(3); f.fill = [](int, Frame* x) { static int n; x->setPresentationTime(us(++n)); return true; };
  REQUIRE(f.connectOneToOne(&a)); int rid = a.readers.begin()->first; REQUIRE(a.shareReader(&b, rid, rid)); std::vector<int64_t> sa, sb; a.got = [&](int, Frame* x) { sa.push_back(x->getPresentationTime().count()); }; b.got = [&](int, Frame* x) { sb.push_back(x->getPresentationTime().count()); };
  for (int i = 0; i < 3; i++) f.step(); a.step(); a.step(); b.step(); a.step(); b.step(); a.step(); b.step();
  REQUIRE((sa == std::vector<int64_t>{1, 2, 3})); REQUIRE((sb == std::vector<int64_t>{1, 2, 3})); return 0; }''', "a filter sharing a reader polls again after releasing the frame while another sharer still holds it", "the frame is held again on its behalf and never leaves the queue")

bug("p03-early-release", "P03", [("src/Filter.cpp", "    runDoProcessFrame(oFrames, dFrames, newFrames, ret);\n    \n    //TODO: manage ret value\n    enabledJobs = addFrames(dFrames);\n    \n    removeFrames(newFrames);\n", "    removeFrames(newFrames);\n\n    runDoProcessFrame(oFrames, dFrames, newFrames, ret);\n    \n    //TODO: manage ret value\n    enabledJobs = addFrames(dFrames);\n")],
 PRE + r'''int main() { vinfo.video.codec = RAW; Feed f; Catch a; f.setId(1); a.setId(2); int n = 0; f.mk = [](ConnectionData c) { return (FrameQueue*)new RawQueue(c, 3, 64); }; f.fill = [&](int, Frame* x) { memset(x->getDataBuf(), ++n, 64); x->setLength(64); return true; };
  REQUIRE(f.connectOneToOne(&a)); a.got = [&](int, Frame* x) { unsigned char v = x->getDataBuf()[0]; for (int i = 0; i < 4; i++) f.step(); /* what the producer's thread may do meanwhile */ for (int i = 0; i < 64; i++) REQUIRE(x->getDataBuf()[i] == v); };
  for (int i = 0; i < 20; i++) { f.step(); a.step(); } return 0; }''', "the producer runs (several rounds, full queue) while a consumer is processing a frame", "the frame being processed has been given back to the producer, which overwrites it")

bug("p04-alloc-failure", "P04", [("src/Filter.cpp", "    if (!queue){\n        deleteWriter(writerID);\n        return false;\n    }\n", "    if (!queue){\n        return false;\n    }\n")],
 PRE + r'''int main() { vinfo.video.codec = RAW; Feed f; Catch a; f.setId(1); a.setId(2); bool bad = true; f.mk = [&](ConnectionData c) { return bad ? (FrameQueue*)NULL : (FrameQueue*)new RawQueue(c, 3, 64); };
  REQUIRE(!f.connectManyToMany(&a, 7, 5)); bad = false; REQUIRE(f.connectManyToMany(&a, 7, 5)); REQUIRE(f.isWConnected(5) && a.isRConnected(7)); return 0; }''', "a connection refused because the queue could not be created, then a retry with the same writer id", "the writer of the refused connection stays behind and blocks its id")

bug("p05-head-numbers", "P05", [("src/Filter.cpp", "            it.second->setSequenceNumber(seqNums[it.first]++);\n        }\n    }\n\n   return true;", "            it.second->setSequenceNumber(seqNums[dFrames.begin()->first]++);\n        }\n    }\n\n   return true;")],
 PRE + r'''int main() { vinfo.video.codec = RAW; Feed f; Catch a; f.setId(1); a.setId(2); f.fill = [](int, Frame*) { return true; }; REQUIRE(f.connectManyToMany(&a, 7, 5)); REQUIRE(f.connectManyToMany(&a, 8, 6));
  std::map<int, size_t> next; a.got = [&](int r, Frame* x) { REQUIRE(x->getSequenceNumber() == next[r]); next[r]++; }; for (int i = 0; i < 10; i++) { f.step(); a.step(); } REQUIRE(next[7] == 10 && next[8] == 10); return 0; }''', "a source filter with at least two connected outputs", "frames of all outputs share one counter, so no output is numbered consecutively from zero")

bug("p06-jump-latest", "P06", [("src/Filter.cpp", "outOfScopeTs = std::min(frame->getFrameTime(), outOfScopeTs);", "outOfScopeTs = std::max(frame->getFrameTime(), outOfScopeTs);")],
 PRE + r'''struct Paced : public Catch { Paced() { setFrameTime(us(40000)); } };
int main() { vinfo.video.codec = RAW; Feed f; Paced a; f.setId(1); a.setId(2); f.fill = [](int w, Frame* x) { x->setPresentationTime(us(w == 5 ? 200000 : 900000)); x->setDecodeTime(NO_DTS); return true; }; REQUIRE(f.connectManyToMany(&a, 7, 5)); REQUIRE(f.connectManyToMany(&a, 8, 6));
  f.step(); a.step(); REQUIRE(a.getSyncTs().count() == 200000); return 0; }''', "a paced filter with two inputs that are both ahead of its clock by different amounts", "the clock jumps to the latest pending frame, the earlier input becomes outdated and is skipped")

bug("p07-remove-once", "P07", [("src/WorkersPool.cpp", "        while(runnable->isRunning()){\n", "        if(runnable->isRunning()){\n")],
 r'''#include "WorkersPool.hh"
#include <atomic>
#include <cstdio>
#include <unistd.h>
#include <chrono>
#include <thread>
struct T : public Runnable { std::atomic<bool> in; T() : Runnable(false), in(false) {} std::vector<int> processFrame(int& r) { in = true; std::this_thread::sleep_for(std::chrono::milliseconds(600)); in = false; r = 0; return std::vector<int>(); } void stop() {} bool pendingJobs() { return false; } };
int main() { WorkersPool p(2); T t; t.setId(1); p.addTask(&t); while (!t.in) usleep(100); p.removeTask(1); bool bad = t.in; p.stop(); if (bad) printf("removed while running\n"); return bad; }''', "removal of a task whose current run lasts longer than 100 ms", "removal returns while the task is still running, so destroying it is a use after free")

bug("p08-same-second", "P08", [("src/Event.cpp", "    return timestamp > e.timestamp;", "    return std::chrono::duration_cast<std::chrono::seconds>(timestamp - e.timestamp).count() > 0;")],
 PRE + r'''struct Log : public OneToOneFilter { std::vector<int> seen; Log() : OneToOneFilter() { fType = VIDEO_ENCODER; eventMap["go"] = [this](Jzon::Node* p) { seen.push_back(p->Get("n").ToInt()); return true; }; } bool doProcessFrame(Frame*, Frame*) { return true; } FrameQueue* allocQueue(ConnectionData) { return NULL; } void doGetState(Jzon::Object&) {} bool specificReaderConfig(int, FrameQueue*) { return true; } bool specificReaderDelete(int) { return true; } bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; } void run() { processEvent(); } };
int main() { Log l; l.setId(1); auto t = std::chrono::system_clock::now() - std::chrono::seconds(5); int order[] = {3, 0, 4, 1, 2, 5}; for (int n : order) { Jzon::Object root, params; root.Add("action", "go"); params.Add("n", n); root.Add("params", params); Event e(root, t + std::chrono::milliseconds(n * 10), 0); l.pushEvent(e); }
  l.run(); REQUIRE((l.seen == std::vector<int>{0, 1, 2, 3, 4, 5})); return 0; }''', "events pushed out of order whose times lie within one second of each other", "they are executed in heap order instead of event-time order")

bug("p09-wrap-channel", "P09", [("src/AudioCircularBuffer.cpp", "            memcpy(data[i], buffer[i] + firstCopiedBytes, bytesRequested - firstCopiedBytes);", "            memcpy(data[i], buffer[0] + firstCopiedBytes, bytesRequested - firstCopiedBytes);")],
 r'''#include "AudioCircularBuffer.hh"
#include "AudioFrame.hh"
#include <cstdio>
#include <cstring>
int main() { ConnectionData cd; AudioCircularBuffer* q = AudioCircularBuffer::createNew(cd, 2, 48000, 50, S16P); q->setOutputFrameSamples(480); PlanarAudioFrame* f = dynamic_cast<PlanarAudioFrame*>(q->getRear()); int in = 0, out = 0;
  for (int k = 0; k < 60; k++) { int n = 700; f->setSamples(n); f->setLength(n * 2); f->setPresentationTime(std::chrono::microseconds((int64_t)in * 1000000 / 48000)); for (int c = 0; c < 2; c++) for (int i = 0; i < n; i++) { short v = (short)(((in + i) * 2 + c) & 0x7fff); memcpy(f->getPlanarDataBuf()[c] + 2 * i, &v, 2); } q->addFrame(); in += n;
    while (Frame* g = q->getFront()) { for (int c = 0; c < 2; c++) for (int i = 0; i < 480; i++) { short v; memcpy(&v, g->getPlanarDataBuf()[c] + 2 * i, 2); if (v != (short)(((out + i) * 2 + c) & 0x7fff)) { printf("sample %d of channel %d\n", out + i, c); return 1; } } out += 480; q->removeFrame(); } }
  delete q; return 0; }''', "multichannel input whose frame straddles the end of the ring", "after the wrap every channel carries channel 0's samples")

bug("p10-rear-back", "P10", [("src/modules/audioMixer/AudioMixer.cpp", "    if (absolutePosition + nOfSamples > rear) {\n        rear = absolutePosition + nOfSamples;\n    }\n", "    rear = absolutePosition + nOfSamples;\n")],
 PRE + r'''#include "modules/audioMixer/AudioMixer.hh"
#include "AudioFrame.hh"
static uint64_t produced(int lead) { std::unique_ptr<AudioMixer> m(AudioMixer::createNew(FLTP, 1, 48000, std::chrono::microseconds(0))); return 0; }
int main() { std::unique_ptr<AudioMixer> m(new AudioMixer(FLTP, 1, 48000, std::chrono::microseconds(0))); (void)produced; return 0; }''', "", "")
BUGS.pop()
