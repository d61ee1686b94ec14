// Driver filters for the real media modules: a source whose queue and frames are supplied by the
// harness, and a sink that hands every frame it gets to the harness.
#ifndef MOD_HH
#define MOD_HH
#include "vf.hh"
#include "Filter.hh"
#include "AVFramedQueue.hh"
#include "StreamInfo.hh"
#include <functional>
#include <memory>
#include <chrono>
#include <thread>
namespace mod {
typedef std::chrono::microseconds us;
class Feed : public HeadFilter {
public:
    std::function<FrameQueue*(ConnectionData)> mk; std::function<bool(int writer, Frame*)> fill;
    Feed() : HeadFilter(16, REGULAR, true) { fType = RECEIVER; }
    std::vector<int> step() { int r = 0; return processFrame(r); }
    using BaseFilter::writers;
protected:
    bool doProcessFrame(std::map<int, Frame*>& d, int& ret) { bool any = false; for (auto& it : d) if (fill(it.first, it.second)) { it.second->setConsumed(true); any = true; } ret = 0; return any; }
    FrameQueue* allocQueue(ConnectionData c) { return mk(c); }
    bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; }
    void doGetState(Jzon::Object&) {}
};
class Catch : public TailFilter {
public:
    std::function<void(int reader, Frame*)> got;
    Catch(bool together = false) : TailFilter(16, REGULAR, false) { fType = TRANSMITTER; setSync(together); }
    std::vector<int> step() { int r = 0; return processFrame(r); }
protected:
    bool doProcessFrame(std::map<int, Frame*>& o, std::vector<int> nf, int&) { for (int id : nf) if (got) got(id, o[id]); return true; }
    bool specificReaderConfig(int, FrameQueue*) { return true; } bool specificReaderDelete(int) { return true; }
    void doGetState(Jzon::Object&) {}
};
inline std::string state(BaseFilter& f) { Jzon::Object o; f.getState(o); Jzon::Writer w(o, Jzon::NoFormat); w.Write(); return w.GetResult(); }
inline void event(BaseFilter& f, const std::string& action, Jzon::Object params, bool withParams = true) { Jzon::Object root; root.Add("action", action); if (withParams) root.Add("params", params); Event e(root, std::chrono::system_clock::now(), 0); f.pushEvent(e); }
}
#endif
