import os, runpy
PRE = runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + "/common.py")["PRE"]
FA = "-fno-access-control"
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, flags=FA): BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))
bug("p02-release-early", "P02", [("src/IOInterface.cpp", "        if (it.second.first || it.second.second){\n            return false;", "        if (it.second.first && it.second.second){\n            return false;")],
 PRE + r'''int main() { vinfo.video.codec = RAW; ConnectionData cd; ReaderData rd; rd.rFilterId = 2; rd.readerId = 1; cd.readers.push_back(rd); RawQueue* q = new RawQueue(cd, 6, 64); Reader r; r.setConnection(q); q->setConnected(true); r.addReader(3, 1);
  for (int i = 0; i < 3; i++) { q->getRear()->setPresentationTime(us(i)); q->addFrame(); } bool nw; Frame* a = r.getFrame(2, nw); REQUIRE(nw); Frame* b = r.getFrame(3, nw); REQUIRE(nw && a == b); r.removeFrame(2); REQUIRE(q->getElements() == 3); REQUIRE(r.getFrame(3, nw) == b && !nw); r.removeFrame(3); REQUIRE(q->getElements() == 2); return 0; }''',
 "two filters share a reader; both have taken the frame and only one has released it", "the frame leaves the queue while the other filter is still using it")
bug("p03-unlocked-release", "P03", [("src/IOInterface.cpp", "    std::lock_guard<std::mutex> guard(lck);\n    \n    if (!frame || filters.count(fId) == 0){\n        return -1;", "    if (!frame || filters.count(fId) == 0){\n        return -1;")],
 PRE + r'''#include <atomic>
int main() { vinfo.video.codec = RAW; ConnectionData cd; ReaderData rd; rd.rFilterId = 2; rd.readerId = 1; cd.readers.push_back(rd); RawQueue* q = new RawQueue(cd, 8, 64); Reader r; r.setConnection(q); q->setConnected(true); r.addReader(3, 1); const int N = 400000; std::atomic<int> added(0); std::atomic<bool> over(false); std::atomic<int> sync(0);
  std::thread w([&] { for (int i = 0; i < N; ) { Frame* f = q->getRear(); if (!f) { if (over) return; continue; } f->setSequenceNumber(i++); q->addFrame(); } });
  std::atomic<int> turn[2]; turn[0] = turn[1] = 0; bool bad = false;
  auto rd_ = [&](int id, int me) { int64_t next = 0; while (next < N && !over) { bool nw; Frame* f = r.getFrame(id, nw); if (!nw) continue; if ((int64_t)f->getSequenceNumber() != next) { printf("filter %d got frame %zu instead of %lld\n", id, f->getSequenceNumber(), (long long)next); fflush(stdout); bad = true; over = true; return; } next++; turn[me]++; while (turn[1 - me] < turn[me] && !over) {} r.removeFrame(id); } };
  std::thread a(rd_, 2, 0), b(rd_, 3, 1); a.join(); b.join(); over = true; w.join(); _exit(bad ? 1 : 0); }''',
 "two filters sharing a reader release the same frame at the same moment on two threads", "both find the frame read by all and remove it, so a frame is lost uncounted (or the reader crashes)")
bug("p10-rear-back", "P10", [("src/modules/audioMixer/AudioMixer.cpp", "    if (absolutePosition + nOfSamples > rear) {\n        rear = absolutePosition + nOfSamples;\n    }\n", "    rear = absolutePosition + nOfSamples;\n")],
 PRE + r'''#include "modules/audioMixer/AudioMixer.hh"
#include "AudioFrame.hh"
int main() { AudioMixer* m = new AudioMixer(2); m->specificReaderDelete(0); m->gains[1] = 1; m->gains[2] = 1; m->masterGain = 1; PlanarAudioFrame* f = PlanarAudioFrame::createNew(m->channels, m->sampleRate, 4096, PCM, m->sampleFormat); int n = m->inputFrameSamples; PlanarAudioFrame* out = PlanarAudioFrame::createNew(m->channels, m->sampleRate, 4096, PCM, m->sampleFormat);
  auto push = [&](int id, int at, float v) { f->setSamples(n); f->setLength(n * 4); f->setPresentationTime(us(10000000 + (int64_t)at * n * 1000000 / m->sampleRate)); for (int c = 0; c < m->channels; c++) for (int i = 0; i < n; i++) memcpy(f->getPlanarDataBuf()[c] + 4 * i, &v, 4); m->pushToBuffer(id, f); };
  int got = 0; for (int k = 0; k < 8; k++) { push(1, k + 1, 0.25f); push(2, k, 0.25f); while (m->extractMixedFrame(out)) got++; } REQUIRE(got >= 6); return 0; }''',
 "two inputs, the one that arrives later in each round lagging behind the other", "the end of the mixed data moves backwards, so the mixer withholds output that is due")
bug("p11-stale-background", "P11", [("src/modules/videoMixer/VideoMixer.cpp", "    layoutImg = cv::Scalar(0, 0, 0);\n", "    //a single full size channel covers everything\n    if (orgFrames.size() != 1 || channelsConfig.count(orgFrames.begin()->first) <= 0 ||\n            channelsConfig[orgFrames.begin()->first]->getWidth() < 1 || channelsConfig[orgFrames.begin()->first]->getHeight() < 1) {\n        layoutImg = cv::Scalar(0, 0, 0);\n    }\n")],
 PRE + r'''#include "modules/videoMixer/VideoMixer.hh"
int main() { VideoMixer* m = VideoMixer::createNew(4, 64, 64); m->specificReaderConfig(1, NULL); REQUIRE(m->configChannel0(1, 1, 1, 0.5, 0.5, 0, true, 1)); InterleavedVideoFrame* in = InterleavedVideoFrame::createNew(RAW, 64, 64, RGB24), *out = InterleavedVideoFrame::createNew(RAW, 64, 64, RGB24); memset(in->getDataBuf(), 200, 64 * 64 * 3); memset(out->getDataBuf(), 99, 64 * 64 * 3);
  std::map<int, Frame*> o; o[1] = in; REQUIRE(m->doProcessFrame(o, out, std::vector<int>(1, 1))); REQUIRE(out->getDataBuf()[0] == 0 && out->getDataBuf()[64 * 64 * 3 - 1] == 200); return 0; }''',
 "exactly one channel, of full size but with an offset (or translucent), drawn into a reused frame", "the uncovered part shows what the buffer held before instead of black")
bug("p12-odd-column", "P12", [("src/modules/videoSplitter/VideoSplitter.cpp", "    		orgFrame(cv::Rect(xROI, yROI, widthROI, heightROI)).copyTo(", "    		orgFrame(cv::Rect(xROI & ~1, yROI, widthROI, heightROI)).copyTo(")],
 PRE + r'''#include "modules/videoSplitter/VideoSplitter.hh"
int main() { VideoSplitter* m = VideoSplitter::createNew(); m->specificWriterConfig(1); REQUIRE(m->configCrop0(1, 10, 10, 7, 3, 0)); InterleavedVideoFrame* in = InterleavedVideoFrame::createNew(RAW, 64, 48, RGB24), *out = InterleavedVideoFrame::createNew(RAW, 64, 64, RGB24); for (int i = 0; i < 64 * 48 * 3; i++) in->getDataBuf()[i] = i * 13 + i / 64;
  std::map<int, Frame*> d; d[1] = out; REQUIRE(m->doProcessFrame(in, d)); for (int y = 0; y < 10; y++) REQUIRE(!memcmp(out->getDataBuf() + y * 30, in->getDataBuf() + ((y + 3) * 64 + 7) * 3, 30)); return 0; }''',
 "a crop rectangle starting at an odd column", "the crop is shifted by one pixel")
bug("p13-format-change", "P13", [("src/modules/videoResampler/VideoResampler.cpp", "        orgFrame->getHeight() != inFrame->height ||\n        orgFrame->getPixelFormat() != inPixFmt)", "        orgFrame->getHeight() != inFrame->height)")],
 PRE + r'''#include "modules/videoResampler/VideoResampler.hh"
int main() { VideoResampler* m = new VideoResampler(); InterleavedVideoFrame* in = InterleavedVideoFrame::createNew(RAW, 64, 64, RGB32), *out = InterleavedVideoFrame::createNew(RAW, 64, 64, RGB32); m->configure0(64, 64, 0, RGB24); in->setSize(64, 64); in->setPixelFormat(RGB24); memset(in->getDataBuf(), 50, 64 * 64 * 3); REQUIRE(m->doProcessFrame(in, out)); REQUIRE(abs(out->getDataBuf()[300] - 50) < 4);
  in->setPixelFormat(YUV420P); memset(in->getDataBuf(), 235, 64 * 64); memset(in->getDataBuf() + 64 * 64, 128, 64 * 32); REQUIRE(m->doProcessFrame(in, out)); REQUIRE(out->getDataBuf()[300] > 245 && out->getDataBuf()[64 * 63 * 3] > 245); return 0; }''',
 "the input's pixel format changes while its size stays", "the picture is converted as if it still had the old format")
bug("p14-first-slice-origin", "P14", [("src/SlicedVideoFrameQueue.cpp", "        vFrame->setOriginTime(inputFrame->getOriginTime());\n", "        if (i == 0) {\n            vFrame->setOriginTime(inputFrame->getOriginTime());\n        }\n")],
 PRE + r'''#include "SlicedVideoFrameQueue.hh"
int main() { vinfo.video.codec = H264; ConnectionData cd; SlicedVideoFrameQueue* q = SlicedVideoFrameQueue::createNew(cd, &vinfo, 8, 64); unsigned char d[8] = {0}; for (int k = 1; k < 5; k++) { SlicedVideoFrame* p = dynamic_cast<SlicedVideoFrame*>(q->getRear()); for (int i = 0; i < 3; i++) p->setSlice(d, 8); std::chrono::system_clock::time_point t = std::chrono::system_clock::time_point(std::chrono::seconds(k)); p->setOriginTime(t); q->addFrame(); for (int i = 0; i < 3; i++) { REQUIRE(q->getFront()->getOriginTime() == t); q->removeFrame(); } } return 0; }''',
 "a picture with more than one slice", "later slices carry the origin time of whatever their buffer held before")
