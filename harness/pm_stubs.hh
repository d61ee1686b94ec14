// Stand-ins for the modules that cannot be built here (live555, FFmpeg 2 API), so that the
// real PipelineManager.cpp can be compiled and run.  They are real filters: a source that
// numbers and checksums frames, relays that copy, and a sink that checks what arrives.
#ifndef PM_STUBS_HH
#define PM_STUBS_HH
#define _SOURCE_MANAGER_HH
#define _SINK_MANAGER_HH
#define _HEAD_DEMUXER_LIBAV_HH
#define _AUDIO_ENCODER_LIBAV_HH
#define _AUDIO_DECODER_LIBAV_HH
#define _VIDEO_DECODER_LIBAV_HH
#include "Filter.hh"
#include "AVFramedQueue.hh"
#include "VideoFrame.hh"
#include "mini.hh"

class SourceManager : public mini::Source { public: SourceManager() : mini::Source(16, true) { fType = RECEIVER; retUs = 1500; } };
class HeadDemuxerLibav : public mini::Source { public: HeadDemuxerLibav() : mini::Source(16, true) { fType = DEMUXER; retUs = 4000; } };
class SinkManager : public mini::Sink { public: SinkManager() : mini::Sink(16) { fType = TRANSMITTER; maxLog = 16; talk = true; } static SinkManager* createNew() { return new SinkManager(); } };
class VideoDecoderLibav : public mini::Relay { public: VideoDecoderLibav() { fType = VIDEO_DECODER; } };
class AudioDecoderLibav : public mini::Relay { public: AudioDecoderLibav() { fType = AUDIO_DECODER; } };
class AudioEncoderLibav : public mini::Relay { public: AudioEncoderLibav() { fType = AUDIO_ENCODER; } };
#endif
