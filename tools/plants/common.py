PRE = r'''#include "Filter.hh"
#include "AVFramedQueue.hh"
#include "StreamInfo.hh"
#include "VideoFrame.hh"
#include <functional>
#include <memory>
#include <thread>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
#include <set>
typedef std::chrono::microseconds us;
#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); fflush(stdout); _exit(1); } } while (0)
#include <unistd.h>
static StreamInfo vinfo(VIDEO);
struct RawQueue : public AVFramedQueue { RawQueue(ConnectionData c, unsigned n, unsigned cap) : AVFramedQueue(c, &vinfo, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(RAW, cap); } };
struct Feed : public HeadFilter {
    std::function<FrameQueue*(ConnectionData)> mk; std::function<bool(int, Frame*)> fill;
    Feed(bool periodic = true) : HeadFilter(16, REGULAR, periodic) { fType = RECEIVER; mk = [](ConnectionData c) { return (FrameQueue*)new RawQueue(c, 8, 4096); }; }
    std::vector<int> step() { int r = 0; return processFrame(r); }
    bool doProcessFrame(std::map<int, Frame*>& d, int& ret) { bool any = false; for (auto& it : d) if (fill(it.first, it.second)) { it.second->setConsumed(true); any = true; } return any; }
    FrameQueue* allocQueue(ConnectionData c) { return mk(c); }
    bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; } void doGetState(Jzon::Object&) {}
};
struct Catch : public TailFilter {
    std::function<void(int, Frame*)> got;
    Catch() : TailFilter(16, REGULAR, false) { fType = TRANSMITTER; setSync(false); }
    std::vector<int> step() { int r = 0; return processFrame(r); }
    bool doProcessFrame(std::map<int, Frame*>& o, std::vector<int> nf, int&) { for (int id : nf) if (got) got(id, o[id]); return true; }
    bool specificReaderConfig(int, FrameQueue*) { return true; } bool specificReaderDelete(int) { return true; } void doGetState(Jzon::Object&) {}
};
'''
