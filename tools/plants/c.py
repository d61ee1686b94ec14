import os, runpy
PRE = runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + "/common.py")["PRE"]
FA = "-fno-access-control"; CV = '-fno-access-control -I"$here"'
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, flags=FA, cv=False): BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=CV if cv else flags, cv=cv))
M = "src/modules/"
bug("p02-departure-rearms", "P02", [("src/IOInterface.cpp", "    if (filters.size() > 0){\n", "    ready = true;\n    if (!filters.empty()){\n")],
 PRE + r'''int main() { vinfo.video.codec = RAW; ConnectionData cd; ReaderData rd; rd.rFilterId = 2; rd.readerId = 1; cd.readers.push_back(rd); RawQueue* q = new RawQueue(cd, 6, 64); Reader r; r.setConnection(q); q->setConnected(true); r.addReader(3, 1); r.addReader(4, 1);
  for (int i = 0; i < 3; i++) { q->getRear()->setPresentationTime(us(i)); q->addFrame(); } bool nw; Frame* a = r.getFrame(2, nw); REQUIRE(nw); REQUIRE(r.getFrame(3, nw) == a && nw); r.removeFrame(2); r.disconnect(4); REQUIRE(r.getFrame(3, nw) == a); REQUIRE(!nw); REQUIRE(r.getFrame(2, nw) == a); REQUIRE(!nw); return 0; }''',
 "one of at least three sharers leaves while the others hold a frame that one of them released already", "the frame is shown as new a second time to the remaining filters")
bug("p03-state-unlocked", "P03", [("src/AVFramedQueue.cpp", "    elements++;\n    rear = (rear + 1) % max;", "    rear = (rear + 1) % max;\n    elements++;")], "", "", "")
BUGS.pop()
bug("p10-rear-back", "P10", [(M + "audioMixer/AudioMixer.cpp", "    if (absolutePosition + nOfSamples > rear) {\n        rear = absolutePosition + nOfSamples;\n    }\n", "    rear = absolutePosition + nOfSamples;\n")],
 PRE + r'''#include "modules/audioMixer/AudioMixer.hh"
#include "AudioFrame.hh"
int main() { AudioMixer* m = new AudioMixer(2); m->gains[1] = 1; m->gains[2] = 1; m->masterGain = 1; PlanarAudioFrame* f = PlanarAudioFrame::createNew(m->channels, m->sampleRate, 4096, PCM, m->sampleFormat); int n = m->inputFrameSamples; PlanarAudioFrame* out = PlanarAudioFrame::createNew(m->channels, m->sampleRate, 4096, PCM, m->sampleFormat);
  auto push = [&](int id, int at, float v) { f->setSamples(n); f->setLength(n * 4); f->setPresentationTime(us(10000000 + (int64_t)at * n * 1000000 / m->sampleRate)); for (int c = 0; c < m->channels; c++) for (int i = 0; i < n; i++) memcpy(f->getPlanarDataBuf()[c] + 4 * i, &v, 4); m->pushToBuffer(id, f); };
  int got = 0; push(1, 0, 0.25f); push(1, 1, 0.25f); push(1, 2, 0.25f); push(1, 3, 0.25f); int a = 0; while (m->extractMixedFrame(out)) a++; 
  AudioMixer* k = new AudioMixer(2); k->gains[1] = 1; k->gains[2] = 1; k->masterGain = 1; m = k; push(1, 0, 0.25f); push(1, 1, 0.25f); push(1, 2, 0.25f); push(1, 3, 0.25f); push(2, 0, 0.25f); while (m->extractMixedFrame(out)) got++; printf("%d %d\n", a, got); REQUIRE(a > 0 && got == a); return 0; }''',
 "an input whose frame ends before what another one delivered already", "the end of the mixed data moves backwards, so the mixer withholds output that is due")
bug("p11-stale-background", "P11", [(M + "videoMixer/VideoMixer.cpp", "    layoutImg = cv::Scalar(0, 0, 0);\n", "    //a single full size channel covers everything\n    if (orgFrames.size() != 1 || channelsConfig.count(orgFrames.begin()->first) <= 0 ||\n            channelsConfig[orgFrames.begin()->first]->getWidth() < 1 || channelsConfig[orgFrames.begin()->first]->getHeight() < 1) {\n        layoutImg = cv::Scalar(0, 0, 0);\n    }\n")],
 PRE + r'''#include "modules/videoMixer/VideoMixer.hh"
int main() { VideoMixer* m = VideoMixer::createNew(4, 64, 64); m->specificReaderConfig(1, NULL); REQUIRE(m->configChannel0(1, 1, 1, 0.5, 0.5, 0, true, 1)); InterleavedVideoFrame* in = InterleavedVideoFrame::createNew(RAW, 64, 64, RGB24), *out = InterleavedVideoFrame::createNew(RAW, 64, 64, RGB24); memset(in->getDataBuf(), 200, 64 * 64 * 3); memset(out->getDataBuf(), 99, 64 * 64 * 3);
  std::map<int, Frame*> o; o[1] = in; REQUIRE(m->doProcessFrame(o, out, std::vector<int>(1, 1))); REQUIRE(out->getDataBuf()[0] == 0 && out->getDataBuf()[64 * 64 * 3 - 1] == 200); return 0; }''',
 "exactly one channel, of full size but with an offset (or translucent), drawn into a reused frame", "the uncovered part shows what the buffer held before instead of black", cv=True)
bug("p12-odd-column", "P12", [(M + "videoSplitter/VideoSplitter.cpp", "cv::Rect(xROI, yROI, widthROI, heightROI)", "cv::Rect(xROI & ~1, yROI, widthROI, heightROI)")],
 PRE + r'''#include "modules/videoSplitter/VideoSplitter.hh"
int main() { VideoSplitter* m = VideoSplitter::createNew(); m->specificWriterConfig(1); REQUIRE(m->configCrop0(1, 10, 10, 7, 3, 0)); InterleavedVideoFrame* in = InterleavedVideoFrame::createNew(RAW, 64, 48, RGB24), *out = InterleavedVideoFrame::createNew(RAW, 64, 64, RGB24); for (int i = 0; i < 64 * 48 * 3; i++) in->getDataBuf()[i] = i * 13 + i / 64;
  std::map<int, Frame*> d; d[1] = out; REQUIRE(m->doProcessFrame(in, d)); for (int y = 0; y < 10; y++) REQUIRE(!memcmp(out->getDataBuf() + y * 30, in->getDataBuf() + ((y + 3) * 64 + 7) * 3, 30)); return 0; }''',
 "a crop rectangle starting at an odd column", "the crop is shifted by one pixel", cv=True)
bug("p15-format-kept", "P15", [(M + "videoEncoder/VideoEncoderX264.cpp", "        orgFrame->getHeight() == xparams.i_height && orgFrame->getPixelFormat() == inPixFmt) {", "        orgFrame->getHeight() == xparams.i_height) {")],
 PRE + r'''#include "modules/videoEncoder/VideoEncoderX264.hh"
#include "SlicedVideoFrameQueue.hh"
int main() { VideoEncoderX264* e = new VideoEncoderX264(); e->configure0(500, 25, 10, 0, 0, 1, true, "ultrafast", 0); InterleavedVideoFrame* in = InterleavedVideoFrame::createNew(RAW, 64, 64, YUV444P); SlicedVideoFrame* out = SlicedVideoFrame::createNew(H264); in->setSize(64, 64); in->setPixelFormat(YUV420P); memset(in->getDataBuf(), 128, 64 * 64 * 3); in->setLength(64 * 96); in->setPresentationTime(us(1000000)); e->doProcessFrame(in, out);
  StreamInfo* o = e->outputStreamInfo; auto profile = [&] { unsigned char* d = o->extradata; for (int i = 0; i + 5 < o->extradata_size; i++) if (!d[i] && !d[i + 1] && d[i + 2] == 1 && (d[i + 3] & 31) == 7) return (int)d[i + 4]; return -1; }; REQUIRE(profile() > 0 && profile() != 244); in->setPixelFormat(YUV444P); in->setLength(64 * 64 * 3); in->setPresentationTime(us(1040000)); e->doProcessFrame(in, out); REQUIRE(profile() == 244); return 0; }''',
 "the input's pixel format changes while its size stays", "pictures in the new format are encoded as if they had the old one")
bug("p16-pile-up", "P16", [(M + "sharedMemory/SharedMemory.cpp", "                seqNum = vframe->getSequenceNumber();\n                frameData.clear();\n            }\n            parseNal(vframe, newFrame);\n        }\n        return true;", "                seqNum = vframe->getSequenceNumber();\n            }\n            parseNal(vframe, newFrame);\n        }\n        return true;")],
 PRE + r'''#include "modules/sharedMemory/SharedMemory.hh"
#include <sys/shm.h>
int main() { size_t key = 0x5a000000u | (getpid() & 0xffffff); SharedMemory* m = SharedMemory::createNew(key, H264); REQUIRE(m); InterleavedVideoFrame* in = InterleavedVideoFrame::createNew(H264, 100000), *out = InterleavedVideoFrame::createNew(H264, 100000);
  auto unit = [&](int seq, int type, int fill, int n) { unsigned char* d = in->getDataBuf(); memset(d, fill, n + 5); d[0] = d[1] = d[2] = 0; d[3] = 1; d[4] = type; in->setLength(n + 5); in->setSize(64, 64); in->setSequenceNumber(seq); in->setPresentationTime(us(seq * 40000)); m->doProcessFrame(in, out); };
  int bad = 0; std::vector<unsigned> lens; uint8_t* a = m->access;
  uint8_t idle = *a; unit(1, 9, 1, 2); unit(1, 0x65, 1, 100); unit(2, 9, 2, 2); unit(2, 0x65, 2, 100); uint8_t busy = *a; size_t one = m->frameData.size(); REQUIRE(idle != busy); unit(3, 9, 3, 2); unit(3, 0x65, 3, 100); unit(4, 9, 4, 2); unit(4, 0x65, 4, 100); REQUIRE(m->frameData.size() == one); shmctl(m->sharedMemoryId, IPC_RMID, 0); return bad; }''',
 "the external reader holds the segment for more than one compressed picture", "the pictures skipped meanwhile pile up and are published with the next one")
bug("p17-size-kept", "P17", [(M + "dasher/DashVideoSegmenter.cpp", "    if (!dashContext) {\n        i2error = generateContext();\n    }\n", "    if (dashContext) {\n        return true;\n    }\n\n    i2error = generateContext();\n")],
 PRE + r'''#include "modules/dasher/Dasher.hh"
#include "modules/dasher/DashVideoSegmenterAVC.hh"
int main() { std::string b = "x"; DashVideoSegmenterAVC* s = new DashVideoSegmenterAVC(std::chrono::seconds(2), us(0)); DashSegment seg; auto width = [&]() -> int { unsigned char x[] = {1, 66, 0, 30, 255, 225, 0, 4, 0x67, 66, 0, 30, 1, 0, 4, 0x68, 1, 2, 3}; s->extradata.assign(x, x + sizeof x); if (!s->generateInitSegment(&seg)) return -1; unsigned char* d = seg.getDataBuffer(); for (unsigned i = 0; i + 40 < seg.getDataLength(); i++) if (!memcmp(d + i, "avc1", 4) && !memcmp(d + i - 4 + 86 + 4, "avcC", 4)) return d[i + 28] << 8 | d[i + 29]; return -2; };
  REQUIRE(s->setup(640, 480)); int a = width(); printf("%d\n", a); REQUIRE(a == 640); REQUIRE(s->setup(320, 240)); REQUIRE(width() == 320); return 0; }''',
 "the picture size changes during a session", "new init segments keep the size the stream started with")
bug("p18-rate-index", "P18", [(M + "dasher/DashAudioSegmenter.cpp", "(samplingFrequencyIndex>>1)", "((samplingFrequencyIndex & 7)>>1)")],
 PRE + r'''#include "modules/dasher/DashAudioSegmenter.hh"
int main() { DashAudioSegmenter* s = new DashAudioSegmenter(std::chrono::seconds(2), us(0)); for (int i = 0; i < 13; i++) { REQUIRE(s->getExtradata1stByte(1, i) == ((1 << 3) | (i >> 1))); } return 0; }''',
 "a sampling rate of 16 kHz or less", "the init segment describes another sampling rate")
bug("p19-clean-stops", "P19", [(M + "dasher/Dasher.cpp", "            success &= false;\n            utils::warningMsg(\"Error cleaning dash segment: \" + segmentName);\n", "            utils::warningMsg(\"Error cleaning dash segment: \" + segmentName);\n            return false;\n")],
 PRE + r'''#include "modules/dasher/Dasher.hh"
#include <fstream>
int main() { char t[] = "/tmp/demoXXXXXX"; REQUIRE(mkdtemp(t)); Dasher* d = new Dasher(); d->configure(t, "demo", 2, 5, 5); std::map<int, DashSegment*> m; for (int i = 1; i < 4; i++) m[i] = NULL; std::vector<std::string> f; for (int i = 2; i < 4; i++) { f.push_back(d->getSegmentName(d->basePath, d->baseName, i, 77, ".m4v")); std::ofstream(f.back().c_str()) << "x"; REQUIRE(!access(f.back().c_str(), F_OK)); }
  d->cleanSegments(m, 77, ".m4v"); bool left = false; for (auto& x : f) if (!access(x.c_str(), F_OK)) { left = true; unlink(x.c_str()); } rmdir(t); REQUIRE(!left); return 0; }''',
 "a representation with a low id joined after a segment that leaves the window now", "the files of the other representations stay on disk for ever")
bug("p20-max-size", "P20", [(M + "dasher/MpdManager.cpp", "        vRepr->update(codec, width, height, bandwidth);\n    }\n", "        vRepr->update(codec, width, height, bandwidth);\n        frameRate = fps;\n        return;\n    }\n")],
 PRE + r'''#include "modules/dasher/MpdManager.hh"
int main() { VideoAdaptationSet* a = new VideoAdaptationSet(1000, "s", "i"); a->updateVideoRepresentation("1", "avc1", 320, 240, 100, 25); a->updateVideoRepresentation("1", "avc1", 640, 480, 100, 25); tinyxml2::XMLDocument d; tinyxml2::XMLElement* e = d.NewElement("AdaptationSet"); a->toMpd(d, e); REQUIRE(e->IntAttribute("maxWidth") == 640 && e->IntAttribute("maxHeight") == 480); return 0; }''',
 "a representation grows after it was added", "the set's maximum size is below that of its representation")
bug("p23-escape-solidus", "P23", [], "", "", "")
BUGS.pop()
bug("p24-cycle-sign", "P24", [(M + "transmitter/SPSparser/h264_stream.c", "        sps->offset_for_top_to_bottom_field = bs_read_se(b);", "        sps->offset_for_top_to_bottom_field = bs_read_ue(b);")],
 r'''extern "C" {
#include "modules/transmitter/SPSparser/h264_stream.h"
}
#include <cstdio>
#include <cstring>
int main() { uint8_t buf[64]; memset(buf, 0, 64); bs_t b; bs_init(&b, buf, 64); bs_write_u8(&b, 66); bs_write_u8(&b, 0); bs_write_u8(&b, 30); bs_write_ue(&b, 0); bs_write_ue(&b, 0); bs_write_ue(&b, 1); bs_write_u1(&b, 0); bs_write_se(&b, 2); bs_write_se(&b, -3); bs_write_ue(&b, 0); bs_write_ue(&b, 1); bs_write_u1(&b, 0); bs_write_ue(&b, 3); bs_write_ue(&b, 3); bs_write_u1(&b, 1); bs_write_u1(&b, 1); bs_write_u1(&b, 0); bs_write_u1(&b, 0); bs_write_u1(&b, 1);
  static sps_t h; bs_t r; bs_init(&r, buf, 32); read_seq_parameter_set_rbsp(&h, &r); if (h.offset_for_top_to_bottom_field != -3) { printf("%d\n", h.offset_for_top_to_bottom_field); return 1; } return 0; }''',
 "picture order count type 1", "a signed field is read as unsigned")
bug("p26-lookahead", "P26", [(M + "videoEncoder/VideoEncoderX264or5.cpp", "    tmpLookahead = lookahead;\n", "    tmpLookahead = gopTime > 0 ? 0 : lookahead;\n")],
 PRE + r'''#include "modules/videoEncoder/VideoEncoderX264.hh"
int main() { VideoEncoderX264* e = new VideoEncoderX264(); e->configure0(500, 25, 10, 7, 0, 1, true, "ultrafast", 3000000); Jzon::Object p; p.Add("bitrate", 700); REQUIRE(e->configEvent(&p)); REQUIRE(e->lookahead == 7 && e->bitrate == 700); return 0; }''',
 "a configuration without a lookahead while a GOP time is set", "a parameter left out of the request changes")
bug("p25-replaced-repr", "P25", [(M + "dasher/MpdManager.cpp", "    delete representations[id];\n    representations.erase(id);\n    return true;\n}\n\nVideoRepresentation*", "    representations.erase(id);\n    return true;\n}\n\nVideoRepresentation*")],
 PRE + r'''#include "modules/dasher/MpdManager.hh"
#include <malloc.h>
int main() { VideoAdaptationSet* a = new VideoAdaptationSet(1000, "s", "i"); size_t u = 0; for (int k = 0; k < 2000; k++) { a->updateVideoRepresentation("1", "avc1.a very long codec description that is allocated", 320, 240, 100, 25); a->removeRepresentation("1"); if (k == 500) u = mallinfo2().uordblks; } REQUIRE(mallinfo2().uordblks < u + 10000); return 0; }''',
 "video inputs of a dasher that leave and join again", "memory grows with every one of them")
