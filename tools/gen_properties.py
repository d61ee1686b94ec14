#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "Frame queues are bounded FIFOs that account for every dropped frame",
  "A frame queue hands frames to its reader in exactly the order they were committed, each with the content, length and metadata it was committed with, never twice, and never more than its capacity at once. "
  "An ordinary write into a full queue is refused and changes nothing; a forced write into a full queue discards only the most recently committed frames and counts each discarded frame as a lost block, so that committed = delivered + lost + still queued at every moment. "
  "The element count, the emptiness and fullness answers and the ids returned by commit and removal agree with that accounting.",
  ["histories", "inputs", "configurations"],
  "All sequences of rear/forced-rear/commit/front/remove operations, all queue sizes from 2 to the maximum, all codecs and frame kinds a queue can be created for.",
  "The unit tests drive one short fill/empty sequence on a 4-frame queue; wrap-around, overflow at every phase, and long mixed histories are never reached.",
  ["src/AVFramedQueue.cpp", "src/AVFramedQueue.hh", "src/FrameQueue.hh", "src/Frame.cpp", "src/VideoFrame.cpp", "src/AudioFrame.cpp"],
  [("modular ring with one slot kept free", "src/AVFramedQueue.cpp getRear/addFrame/removeFrame"),
   ("forced write flushes the newest element and counts it", "src/AVFramedQueue.cpp forceGetRear, src/FrameQueue.hh flush")],
  [("rear/front", "ring indices", "src/FrameQueue.hh"), ("lostBlocs", "count of discarded frames", "src/FrameQueue.hh")],
  ["getRear, forceGetRear, addFrame, getFront, removeFrame, getElements, isFull, getLostBlocs"])

p("P02", "A shared reader shows every frame exactly once to each of its filters",
  "Each filter sharing a reader gets every frame of the queue, in order, flagged as new exactly once; asking again before the frame is released repeats the same frame flagged as not new. "
  "A frame leaves the queue only after every filter sharing the reader has released it, and then the next frame becomes visible to all of them. "
  "A filter not attached to the reader, or a disconnected reader, gets no frame at all and its requests change nothing for the others. "
  "The delay a reader reports is the average age of the frames it let go while the media time went on by one measuring interval.",
  ["histories", "schedules"],
  "All interleavings of get/release/join/leave requests by up to 16 filters over one reader with a concurrent or interleaved writer.",
  "Unit tests cover one or two filters in a single fixed order; the combinations of late joiners, repeated gets, releases in any order and departures are not sampled.",
  ["src/IOInterface.cpp", "src/IOInterface.hh"],
  [("per-filter new/consumed flags re-armed once per frame", "src/IOInterface.cpp Reader::getFrame"),
   ("release only when every flag pair is clear", "src/IOInterface.cpp Reader::removeFrame, allRead"),
   ("average delay of a window", "src/IOInterface.cpp Reader::measureDelay")],
  None, ["Reader::getFrame/removeFrame/addReader/disconnect return values, queue element count"])

p("P03", "Frames cross a running pipeline intact, in order and without data races",
  "When filters run concurrently on the worker threads, every frame a filter receives is byte-for-byte a frame that its upstream neighbour committed, in the order committed and at most once, and no committed frame disappears unless it is counted as a lost block. "
  "No two threads access the same frame memory or queue bookkeeping without ordering while a pipeline runs, is reconfigured by events, or is inspected through state queries.",
  ["schedules", "configurations"],
  "All thread interleavings of producers, consumers, shared readers and state queries, for all worker counts, queue sizes, fan-outs and pipeline shapes.",
  "The functional tests call filters one after another from a single thread; no existing test runs two filters at the same time.",
  ["src/AVFramedQueue.cpp", "src/FrameQueue.hh", "src/IOInterface.cpp", "src/Filter.cpp", "src/AudioCircularBuffer.cpp", "src/WorkersPool.cpp", "src/Runnable.hh"],
  [("single-producer/single-consumer index discipline", "src/AVFramedQueue.cpp"),
   ("reader and filter locks", "src/IOInterface.cpp, src/Filter.cpp"), ("buffer lock", "src/AudioCircularBuffer.cpp")])

p("P04", "Connecting, sharing and disconnecting filters never leaves a half connection",
  "A connection succeeds only between an unused writer and an unused reader within both filters' limits and queue capabilities, after which both ends report being connected and the reported connection data name exactly the filters and readers attached; a refused request leaves both filters as they were, so that the same ids can be used again. "
  "Disconnecting either end, in any order and from any filter sharing the reader, makes that end report unconnected without disturbing the other sharers or connections, and frees the queue exactly once when its last user leaves. "
  "Deleting a filter at any moment disconnects its ends in the same way, and processing a filter whose neighbour has gone neither crashes nor uses freed memory.",
  ["histories", "fault_sequences", "configurations"],
  "All sequences of connect (all four kinds), share, disconnect, delete and process requests over groups of filters, including refused ones and filters that reject the connection.",
  "Unit tests check each call once on fresh filters; error paths, reuse after failure and disconnect orders are combinatorial and invisible without memory checking.",
  ["src/Filter.cpp", "src/Filter.hh", "src/IOInterface.cpp", "src/FrameQueue.hh"],
  [("limit and uniqueness tests, roll-back of the writer", "src/Filter.cpp connect, setWriter, setReader"),
   ("two-step queue release", "src/IOInterface.cpp Reader::disconnectQueue, Writer::disconnect"),
   ("lazy cleanup of dead ends", "src/Filter.cpp demandDestinationFrames, demandOriginFrames*")])

p("P05", "Filters keep sequence, timing and wake-up bookkeeping through processing",
  "Source and merging filters number the frames they emit on each output consecutively from zero, one-to-many filters pass on the sequence number and origin time of the frame consumed, and a frame not produced is never committed nor numbered. "
  "Processing with no new input or no connected output runs nothing and asks to wait (input that arrives while no output is connected is discarded), consumes each new input exactly once otherwise, and reports exactly the filters attached to the outputs that got a frame (plus itself when periodic) as runnable.",
  ["histories", "configurations"],
  "All filter kinds, numbers of inputs and outputs, patterns of produced/not produced frames, connections and disconnections between rounds.",
  "Unit tests process a handful of frames on mock filters with one or two connections.",
  ["src/Filter.cpp", "src/Filter.hh"],
  [("per-writer sequence counters", "src/Filter.cpp runDoProcessFrame of each filter kind"),
   ("consumed flag decides commit", "src/Filter.cpp addFrames"), ("release of the new inputs", "src/Filter.cpp removeFrames")])

p("P06", "Input synchronisation and frame-time pacing pass the right frames",
  "A synchronised terminal filter processes an input only when every input has a frame and that frame is within the 40 ms margin of the latest one, or when the frame lags behind by more than the margin, or when its queue is nearly full (at least 90 % of its frames, or no room for another one); all inputs are passed together when they are aligned, and inputs that are ahead are held back unconsumed. "
  "A filter with a frame time skips over outdated input and advances its clock by exactly one frame time per processed round, jumping forward to the earliest pending frame when all input lies ahead. "
  "A frame's time is its decoding time when that is defined and not later than its presentation time, otherwise its presentation time.",
  ["histories", "inputs"],
  "All arrival patterns and timestamp offsets over up to 16 inputs, all frame times, including gaps, jumps and empty queues.",
  "Tests check one aligned and one lagging pair; the decision depends on arrival histories and relative offsets.",
  ["src/Filter.cpp", "src/Frame.cpp", "src/IOInterface.cpp"],
  [("margin comparison against the latest input time", "src/Filter.cpp framesSync"),
   ("syncTs window", "src/Filter.cpp demandOriginFramesFrameTime"), ("frame time choice", "src/Frame.cpp getFrameTime")])

p("P07", "The worker pool runs each task serially, keeps waking it, and lets go of it",
  "The pool never runs the same task on two threads at once, never runs it before the time it asked to wait has passed, and runs it again whenever a finished task names it as runnable or it reports pending work, as long as it is registered. "
  "Once removal of a task or stopping the pool has returned, that task (or any task) is neither running nor ever touched again, so it can be destroyed at once. "
  "Ids are unique and non-negative among registered tasks, refused or repeated requests change nothing, and stopping always terminates.",
  ["schedules", "histories"],
  "All interleavings of task execution with additions, removals, enablings and stop, for all thread counts and task delays.",
  "The unit tests sleep for a fixed time with one or two mock tasks and count executions; the windows between dequeue, run and removal are never hit on purpose.",
  ["src/WorkersPool.cpp", "src/WorkersPool.hh", "src/Runnable.cpp", "src/Runnable.hh"],
  [("running flag checked under the pool lock", "src/WorkersPool.cpp worker loop"),
   ("wait for the running flag on removal", "src/WorkersPool.cpp removeTask"), ("join on stop", "src/WorkersPool.cpp stop")],
  None, ["processFrame of a monitored task (entry/exit/owner thread)"])

p("P08", "Filter events run exactly once, in order, not early, and bad ones do no harm",
  "Every event pushed to a filter whose action the filter knows is executed exactly once with its own parameters, in order of event time, never before its delay has elapsed; source and terminal filters execute it immediately on push. "
  "Events with missing or unknown actions, or with missing or ill-typed parameters, are discarded without executing anything else, blocking later events, terminating the process or leaking their parameters.",
  ["histories", "inputs"],
  "All sequences of pushed events with any mix of delays, times, actions and parameter shapes, over all filter kinds.",
  "Tests push one well-formed event and look at one field.",
  ["src/Event.cpp", "src/Event.hh", "src/Filter.cpp"],
  [("priority queue by event time and delay test", "src/Filter.cpp processEvent/newEvent, src/Event.cpp"),
   ("action lookup", "src/Filter.cpp eventMap")])

p("P09", "The audio buffer is sample-exact and keeps the timeline continuous",
  "The samples read from the audio buffer are, channel by channel, the samples of the accepted frames in order with exactly as much silence (zero samples) inserted as the timestamp gap between consecutive frames asks for, each output frame stamped with the time of its first sample; deviations of up to 64 samples in either direction are absorbed without inserting or dropping anything. "
  "A frame older than that is discarded whole, a frame that does not fit is refused whole (the silence before it may stay), and a gap of at least the buffer limit empties the buffer and restarts the timeline at the next frame. "
  "This holds for any channel count, sample rate, sample size, frame length and stream duration, without touching memory outside the buffers.",
  ["inputs", "histories", "configurations"],
  "All sequences of frame lengths, timestamps (jitter, gaps, jumps back), reads and flushes; all planar formats; streams long enough to wrap every index.",
  "The unit tests push a few equally spaced frames and check element counts, not sample values over wrap-around, gaps or long streams.",
  ["src/AudioCircularBuffer.cpp", "src/AudioCircularBuffer.hh", "src/AudioFrame.cpp"],
  [("write-time computed from the rear index", "src/AudioCircularBuffer.cpp addFrame"),
   ("split copies at the wrap", "src/AudioCircularBuffer.cpp pushBack, fillOutputBuffers")])

p("P10", "The audio mixer outputs the gain-weighted sum of its time-aligned inputs",
  "Every mixed frame carries, per channel and sample, the sum of the input samples due at that instant, each weighted by its channel gain and the master gain and added in order of arrival with the running sum compressed above the threshold, and silence where no input is due; with a single input at unit gains below the compression threshold the samples come out unchanged. "
  "Output frames have constant length and consecutive timestamps advancing by exactly that length; input due before what has already been mixed is ignored, and input from before the start of the timeline or beyond the 100 ms mixing window restarts the timeline at that input with nothing left of the old one. "
  "Input whose format differs from the mixer's is ignored. "
  "Gain, mute and solo requests affect the addressed channels only, are clamped to the valid range and are reported back by the state query.",
  ["inputs", "histories", "configurations"],
  "All numbers of inputs, timestamp offsets, frame lengths, sample values, gain settings and connection changes.",
  "The functional test mixes two constant files and compares coarse output; sums, alignment and gain combinations are open-ended.",
  ["src/modules/audioMixer/AudioMixer.cpp", "src/modules/audioMixer/AudioMixer.hh"],
  [("mix buffers indexed by sample time", "src/modules/audioMixer/AudioMixer.cpp pushToBuffer"),
   ("output extraction", "src/modules/audioMixer/AudioMixer.cpp extractMixedFrame")])

p("P11", "The video mixer composes exactly its configured layout",
  "Each composed picture equals the reference composition of the current picture of every enabled input: black background, layers drawn in ascending order (and within a layer by channel id), each scaled to its configured fraction of the output, placed at its configured offset, cropped at the output edges and blended with its configured opacity, whatever the input sizes. "
  "Disabled channels, empty pictures, pictures that do not fit their buffer and inputs without any picture do not appear, and layout requests with values outside 0 to 1 or unknown channels are refused and leave the layout unchanged. "
  "The picture has the configured output size, a length matching it and, when the mixer is not paced, the latest presentation time of the pictures drawn, and no request or input makes the mixer fail or write outside the picture.",
  ["inputs", "configurations", "histories"],
  "All layouts (positions, sizes, layers, opacities, enable flags, output sizes) over all numbers, sizes and contents of inputs and all orders of configuration and frames.",
  "Functional tests compare a few stored pictures for one or two inputs at fixed layouts.",
  ["src/modules/videoMixer/VideoMixer.cpp", "src/modules/videoMixer/VideoMixer.hh"],
  [("layer loop", "src/modules/videoMixer/VideoMixer.cpp doProcessFrame"),
   ("paste with crop and opacity", "src/modules/videoMixer/VideoMixer.cpp pasteToLayout"),
   ("validation of requests", "src/modules/videoMixer/VideoMixer.cpp configChannelEvent/configureEvent")])

p("P12", "The video splitter outputs pixel-exact crops with the source's timing",
  "Every crop the splitter emits contains exactly the source pixels of its configured rectangle, row for row, with the crop's dimensions, matching length and the source frame's presentation time, origin time and sequence number. "
  "A crop that is unset or does not fit inside the source picture yields no frame on its output and does not affect the other crops; impossible rectangles are refused and leave the configuration unchanged.",
  ["inputs", "configurations"],
  "All source sizes and contents, numbers of outputs, crop rectangles (inside, touching and outside the borders) and reconfigurations between frames.",
  "The functional tests use a couple of rectangles on one picture.",
  ["src/modules/videoSplitter/VideoSplitter.cpp", "src/modules/videoSplitter/VideoSplitter.hh"],
  [("rectangle test and copy", "src/modules/videoSplitter/VideoSplitter.cpp doProcessFrame"),
   ("request validation", "src/modules/videoSplitter/VideoSplitter.cpp configCrop0/configCropEvent")])

p("P13", "The video resampler delivers the requested size and format with faithful pixels",
  "Every resampled picture has the configured output size (the input's where none is configured) and pixel format (RGB24 until configured), the length that size and format imply, pixels equal to a reference conversion of the input, and the input's presentation time, origin time and sequence number. "
  "Changes of input size, input format or configuration between frames take effect on the next frame, a picture that cannot be converted or does not fit the output buffer is not delivered, a configured frame rate sets the frame time, and invalid requests leave the configuration unchanged. "
  "Running indefinitely over such changes neither leaks nor touches memory outside the pictures.",
  ["inputs", "configurations", "histories"],
  "All combinations of input/output sizes and pixel formats, reconfiguration sequences and picture contents.",
  "There is no resampler unit test that checks output pixels or sequences of changes.",
  ["src/modules/videoResampler/VideoResampler.cpp", "src/modules/videoResampler/VideoResampler.hh"],
  [("scaler reconfiguration", "src/modules/videoResampler/VideoResampler.cpp reconfigure/doProcessFrame"),
   ("plane layout", "src/modules/videoResampler/VideoResampler.cpp setAVFrame")])

p("P14", "The slice queue delivers every slice of a picture once, in order, byte-exact",
  "Each slice attached to an input picture comes out as its own frame with exactly its bytes, in the order attached, carrying the picture's presentation, decoding and origin times, sequence number and size; slices attached but not committed never come out. "
  "A full queue drops and counts only the newest slices, a picture holds a bounded number of slices and refuses more, and an oversized slice never corrupts memory.",
  ["inputs", "histories"],
  "All sequences of pictures with 0 to 16+ slices of any size up to and beyond the limit, interleaved with reads in any rhythm.",
  "The unit test copies one picture with a few slices.",
  ["src/SlicedVideoFrameQueue.cpp", "src/SlicedVideoFrameQueue.hh", "src/VideoFrame.cpp"],
  [("slice-by-slice copy into ring frames", "src/SlicedVideoFrameQueue.cpp pushBackSliceGroup/addFrame"),
   ("slice list limits", "src/VideoFrame.cpp SlicedVideoFrame::setSlice")])

p("P15", "Encoded video decodes to the source pictures with their own timestamps",
  "Every picture fed to a video encoder (H.264 or H.265) comes out exactly once, after the encoder's delay, under its own presentation time, origin time and sequence number, all NAL units of a picture together and each behind a start code, and decodes to a picture of the same size and pixel format close to the source, presented in the order fed; only pictures still inside the encoder when it is reconfigured may be dropped. Decode times increase and are never later than the presentation times. "
  "The first picture, and the next one after a request for an intra picture, a reconfiguration, a change of size or format, or once the configured GOP time has elapsed, is an intra picture; the parameter sets are stored apart, and with annex-B output on they also precede every intra picture in the stream. "
  "Reconfiguring at any point keeps all of this true, refused configurations change nothing, and pictures that cannot be encoded only produce no output.",
  ["inputs", "configurations", "histories"],
  "All sequences of pictures, sizes, pixel formats, timestamps, presets, GOP/B-frame/lookahead settings, intra requests and reconfigurations.",
  "No existing test builds the encoders' output, decodes it or follows timestamps.",
  ["src/modules/videoEncoder/VideoEncoderX264or5.cpp", "src/modules/videoEncoder/VideoEncoderX264.cpp", "src/modules/videoEncoder/VideoEncoderX265.cpp"],
  [("timestamp queue keyed by presentation time", "src/modules/videoEncoder/VideoEncoderX264or5.cpp"),
   ("forced intra", "src/modules/videoEncoder/VideoEncoderX264or5.cpp forceIntra"), ("header extraction", "encodeHeadersFrame")])

p("P16", "The shared-memory export never overwrites or tears a frame being read",
  "The exporter writes a frame into the shared segment only while the external reader has released it, publishes it only after header and payload are complete, and the published header describes exactly the published payload (sequence, format, codec, size, time, length). "
  "Frames arriving while the reader still owns the segment are skipped whole, so are frames that do not fit the segment; compressed pictures are published as complete access units (an access unit ends where the next delimiter arrives), and nothing is written outside the segment. "
  "The frame passed on downstream is identical to the one received, whatever the reader does.",
  ["schedules", "inputs", "histories"],
  "All reader behaviours (release at any moment, never, twice), frame sizes and codecs, and reader/exporter interleavings.",
  "The tests export one or two frames in lock-step with a cooperative reader.",
  ["src/modules/sharedMemory/SharedMemory.cpp", "src/modules/sharedMemory/SharedMemory.hh"],
  [("access flag handshake", "src/modules/sharedMemory/SharedMemory.cpp isWritable/writeSharedMemoryH264/RAW"),
   ("header layout", "src/modules/sharedMemory/SharedMemory.cpp writeFramePayload")])

p("P17", "DASH video segments contain exactly the input access units",
  "Each video segment is a well-formed fragment whose samples are, in order and without loss or duplication, exactly the access units fed in since the previous segment, each holding its NAL units byte for byte behind a length prefix, and it starts with an intra picture. "
  "Frames older than the session's start, and NAL units or samples that do not fit in the picture or segment capacity, are left out whole. "
  "The segments' start times and durations tile the stream's timeline without gap or overlap and, to within a tick, equal the sums of their samples' durations; a segment closes at the first intra picture that comes once its duration is within one picture of the target; and the init segment carries the current parameter sets and picture size. "
  "No input sequence makes the segmenter write beyond its buffers or report a malformed segment.",
  ["inputs", "histories", "configurations"],
  "All H.264/H.265 NAL sequences (any unit types, sizes, slicing, start-code lengths), GOP structures, frame timings and segment durations.",
  "The tests feed stored clips with constant frame rate and one segment duration and compare against stored files.",
  ["src/modules/dasher/DashVideoSegmenter.cpp", "src/modules/dasher/DashVideoSegmenterAVC.cpp", "src/modules/dasher/DashVideoSegmenterHEVC.cpp", "src/modules/dasher/i2libdash.c", "src/modules/dasher/i2libisoff.c"],
  [("access-unit assembly", "src/modules/dasher/DashVideoSegmenter.cpp manageFrame"),
   ("sample table and boxes", "src/modules/dasher/i2libdash.c, src/modules/dasher/i2libisoff.c")])

p("P18", "DASH audio segments contain exactly the input audio frames",
  "Each audio segment is a well-formed fragment whose samples are, in order and without loss or duplication, exactly the payloads (transport header stripped) of the frames fed in since the previous segment, each lasting its nominal number of samples. "
  "Segments' start times and durations tile the timeline, a segment closes as soon as the target duration is reached, when it is full or when it is forced, and reports the time and duration of what it contains; the init segment describes the stream's channels, rate and decoder configuration. "
  "Frames too short to carry a header, and frames older than the session's start, are rejected without effect.",
  ["inputs", "histories", "configurations"],
  "All sequences of ADTS frames of any size, channel count and sample rate, forced and natural segment ends, and target durations.",
  "The tests feed one stored stream with one duration.",
  ["src/modules/dasher/DashAudioSegmenter.cpp", "src/modules/dasher/Dasher.cpp", "src/modules/dasher/i2libdash.c", "src/modules/dasher/i2libisoff.c"],
  [("header strip and sample add", "src/modules/dasher/DashAudioSegmenter.cpp appendFrame"),
   ("segment close and force", "src/modules/dasher/i2libdash.c generate_audio_segment/force_generate_audio_segment")])

p("P19", "The DASH manifest on disk always matches the segments on disk",
  "At any moment, also between two processing steps or when a write fails, every segment the manifest's timelines list for a representation (since that representation joined) exists on disk complete, as does its init segment, and segments that have slid out of the window are removed (once the manifest no longer lists them), so while a representation exists the disk never accumulates more than the window for it. "
  "Listed start times are strictly increasing and, where the input has no gap, contiguous with their durations per adaptation set; representations of a set whose input has common cut points are cut at the same times, and audio segments are cut in step with video when both are present. "
  "Moving to another folder or base name starts a new timeline; files are only created or removed inside the configured folder and under the configured base name.",
  ["histories", "configurations", "inputs"],
  "All sets of video and audio representations, segment durations, window sizes, input timings, reconfigurations and representation removals.",
  "The existing tests check return values of configuration calls, not the evolving folder contents.",
  ["src/modules/dasher/Dasher.cpp", "src/modules/dasher/MpdManager.cpp"],
  [("write-then-list order and expiry", "src/modules/dasher/Dasher.cpp writeSegmentsToDisk/updateMpd"),
   ("bounded timeline", "src/modules/dasher/MpdManager.cpp updateTimestamp")])

p("P20", "The manifest document reflects exactly the updates applied to it",
  "The written manifest is well-formed XML that contains, for every adaptation set and representation added and not removed, exactly the attributes last set, and the most recent segment times in order, limited to the configured window. "
  "Updating, removing, flushing or resizing never affects other sets, operations on unknown sets or representations are refused without effect, a start time given again replaces the one listed, and each time that leaves the window is reported to the caller so that its file can be deleted.",
  ["histories", "inputs"],
  "All sequences of set/representation/timestamp updates, removals, flushes and window changes with any ids and values.",
  "The unit test builds one small manifest and reads a few attributes back.",
  ["src/modules/dasher/MpdManager.cpp", "src/modules/dasher/MpdManager.hh"],
  [("timeline deque bounded by the window", "src/modules/dasher/MpdManager.cpp AdaptationSet::updateTimestamp"),
   ("serialisation", "src/modules/dasher/MpdManager.cpp toMpd/writeToDisk")])

p("P21", "The pipeline manager's graph stays consistent under any command sequence",
  "After any sequence of filter and path creations, connections and removals, the reported filters and paths are exactly those created and not removed, every reported path's filters exist and, once connected, are linked along it, and filters in use by a path cannot be removed; the losses and the delay reported for a path are those its own readers have measured. "
  "Refused requests change nothing; removing a path disconnects it, deletes those of its intermediate filters and ends that no other path uses, and leaves all other paths working; stopping removes everything. "
  "No command sequence, with data flowing at the same time, crashes, deadlocks or uses freed filters.",
  ["histories", "schedules", "configurations"],
  "All sequences of manager commands (valid and invalid ids, shared origins, shared readers, multi-hop paths) with worker threads running.",
  "The manager's unit test does not even build here and, where it does, creates one path.",
  ["src/PipelineManager.cpp", "src/PipelineManager.hh", "src/Path.cpp"],
  [("validation before creation", "src/PipelineManager.cpp createPath"), ("grouping through shared readers", "src/PipelineManager.cpp handleGrouping"),
   ("reference search on deletion", "src/PipelineManager.cpp deletePath")])

p("P22", "The control port answers every request and survives malformed ones",
  "Every client that connects and sends a request (in any pieces, without pauses of over 100 ms and within a second) gets exactly one well-formed JSON answer without repeated members and then end of connection: an error if the request or any event in it is malformed, unknown or refused, the requested state or an explicit null error otherwise. "
  "No byte sequence sent to the control port terminates the process, wedges the server or changes the pipeline unless it is a valid command, and the next request is always served. A command answered without error is in force, one answered with an error has changed nothing, and an answer of any length arrives whole at a client that keeps reading.",
  ["inputs", "fault_sequences", "histories"],
  "All byte strings up to and beyond the message limit, truncated and ill-typed JSON, disconnecting clients, and valid commands mixed in between.",
  "There is no test of the controller.",
  ["src/Controller.cpp", "src/Controller.hh", "src/PipelineManager.cpp", "src/Jzon.cpp"],
  [("request parsing and validation", "src/Controller.cpp readAndParse/processRequest, src/PipelineManager.cpp *Event")])

p("P23", "JSON documents survive parsing and writing unchanged",
  "For any document tree, writing it (in any format) and parsing the text gives an equal tree, and parsing then writing any valid text preserves its meaning, including escapes, numbers, nesting and order. "
  "Parsing any byte string terminates and never crashes, leaks or reads outside the text. It fails on empty texts, unbalanced or mismatched brackets, more than 2000 levels of nesting, unterminated strings, unknown tokens, malformed numbers and anything following the document, and leaves no partial tree behind a failure; missing or surplus separators and comments are tolerated and otherwise every value of the text is in the tree, in order.",
  ["inputs"],
  "All document trees and all byte strings.",
  "No test exercises the JSON library.",
  ["src/Jzon.cpp", "src/Jzon.h"],
  [("tokeniser and assembler", "src/Jzon.cpp Parser"), ("escaping", "src/Jzon.cpp Value::EscapeString/UnescapeString"), ("writer", "src/Jzon.cpp Writer")])

p("P24", "H.264 parameter sets are read exactly as they were written, and any bytes safely",
  "Reading an H.264 sequence parameter set written with any valid field values gives back exactly those values (of the two sets of buffer parameters the one written last), whatever follows it, and one that is cut short is refused. "
  "Removing the start-code escapes from NAL data is the exact inverse of inserting them, reading bits and Exp-Golomb codes is the exact inverse of writing them, and output never exceeds the room given. "
  "Any byte string presented as a NAL unit or parameter set is processed without crashing, looping or accessing memory outside the input and the parser's own state.",
  ["inputs"],
  "All field values of all profiles, all NAL payloads, buffer sizes and arbitrary byte strings.",
  "No test exercises the parser.",
  ["src/modules/transmitter/SPSparser/h264_stream.c", "src/modules/transmitter/SPSparser/h264_stream.h", "src/modules/transmitter/SPSparser/bs.h"],
  [("bit reader bounds", "src/modules/transmitter/SPSparser/bs.h"), ("emulation prevention", "src/modules/transmitter/SPSparser/h264_stream.c nal_to_rbsp"), ("parameter set parser", "src/modules/transmitter/SPSparser/h264_stream.c read_seq_parameter_set_rbsp")])

p("P25", "Running, reconfiguring and tearing down pipelines returns every resource",
  "Any cycle of creating, connecting, feeding, reconfiguring by events, disconnecting and destroying filters returns the process to the same amount of live memory, threads, shared segments and open files, however often it is repeated. "
  "Every allocation is released exactly once and in the way it was obtained.",
  ["histories", "configurations"],
  "All life cycles of all buildable filter kinds, with any events and traffic in between, repeated any number of times.",
  "The tests run each life cycle once without any leak or allocation checking.",
  ["src/Filter.cpp", "src/Event.cpp", "src/AudioCircularBuffer.cpp", "src/modules/dasher", "src/modules/audioMixer/AudioMixer.cpp", "src/modules/videoResampler/VideoResampler.cpp", "src/modules/videoEncoder"],
  [("destructors of filters, readers, writers and queues", "src/Filter.cpp, src/IOInterface.cpp, module destructors")])

p("P26", "A configuration request is applied completely or not at all",
  "For every filter, a configuration event with acceptable parameters is reflected by the next state report exactly as requested, with parameters left out keeping their previous value; any other event leaves the reported state unchanged (an ill-typed parameter either voids its request or counts as left out; gains and GOP times are clamped to their limits). A state read at any time is that of a point between two requests, never a mixture. "
  "State reports are always complete, well-formed JSON naming the filter's true type and role.",
  ["inputs", "configurations", "histories"],
  "All event sequences over all actions of all buildable filter kinds with valid, boundary, missing, surplus and ill-typed parameters.",
  "Only a few filters have a test of one configuration call each.",
  ["src/modules/videoResampler/VideoResampler.cpp", "src/modules/videoEncoder/VideoEncoderX264or5.cpp", "src/modules/videoMixer/VideoMixer.cpp", "src/modules/videoSplitter/VideoSplitter.cpp", "src/modules/audioMixer/AudioMixer.cpp", "src/modules/dasher/Dasher.cpp", "src/Filter.cpp", "src/Utils.cpp"],
  [("parameter checks in each event handler", "configEvent handlers of the modules"), ("state report", "doGetState of the modules")])

p("P27", "The camera capture delivers each filled picture and gives the device back",
  "Whatever sizes, formats, rates, line padding and numbers of buffers the driver grants, each frame the capture filter emits is the next picture the device completed: all its bytes without padding, with its length, size, format and the time of the capture; none is emitted twice, out of order or made up, and pictures that fit into a frame are left out only when a call to the driver failed. "
  "Memory of a buffer the device owns is never touched, every buffer goes back to the device once it is copied, and nothing beyond a buffer or a frame is read or written. "
  "A request captures the named device with the requested settings as far as the driver grants them, also when the filter is capturing already, and the state reports what was granted; when any call fails, the device is closed and can be requested again; a request that is incomplete, ill-typed or without a usable rate changes nothing. "
  "Releasing or destroying the filter returns every mapping and descriptor, also when the device fails to stop.",
  ["inputs", "histories", "crash points"],
  "All drivers that keep the rules of Video4Linux, all sequences of requests, pictures and idle times, and a failure or interruption at any system call.",
  "There is no test of the capture filter: it needs a device.",
  ["src/modules/V4LCapture/V4LCapture.cpp", "src/modules/V4LCapture/V4LCapture.hh"],
  [("states of the device", "src/modules/V4LCapture/V4LCapture.cpp configure, releaseDevice"), ("copy of a picture", "src/modules/V4LCapture/V4LCapture.cpp readFrame, copyPicture"), ("buffers", "src/modules/V4LCapture/V4LCapture.cpp init_mmap, uninitDevice")],
  [("status", "what the device is doing", "src/modules/V4LCapture/V4LCapture.hh"), ("fmt", "what the driver granted", "src/modules/V4LCapture/V4LCapture.hh")],
  ["the configure event, configure, releaseDevice, the state report, the frames behind the filter's queue, the system calls on the device"])

p("P28", "The video decoder shows each decodable picture once, in order, at its own time",
  "For H.264, H.265, VP8 and MJPEG streams, the frames behind the decoder are exactly the pictures of the coded stream in display order, with their size, pixel format and content, each with the presentation time of the coded frame it came from and the origin time and sequence number of the one that completed it, also when the encoder reordered them and when slices or parameter sets come in frames of their own. "
  "A picture larger than the destination frame is left out and nothing is written beyond a frame. Damaged data, data of an unknown codec and changes of codec or size in mid-stream never stop the filter: it decodes the next intact stream completely, and it makes up no picture.",
  ["inputs", "histories"],
  "All coded streams of four codecs with any slicing, reordering, damage and order of streams.",
  "The decoder has no test, and the repository's build here leaves it out.",
  ["src/modules/videoDecoder/VideoDecoderLibav.cpp", "src/modules/videoDecoder/VideoDecoderLibav.hh"],
  [("change of codec", "src/modules/videoDecoder/VideoDecoderLibav.cpp inputConfig, reconfigure"), ("copy of a picture", "src/modules/videoDecoder/VideoDecoderLibav.cpp toBuffer")],
  [], ["coded frames into the filter's reader, the frames behind its queue, the state report"])

p("P29", "The demuxer delivers every packet of every connected stream, described rightly",
  "For a readable media address, each stream the demuxer reports can be connected, its queue describes it (codec, size, rate, channels, extra data), and the frames behind it are the packets of that stream in order, whole, each once, with times in microseconds that follow those in the container; H.264 comes as single NAL units with four-byte start codes that together are the access units of the stream with its parameter sets; everything else comes packet by packet, unchanged. "
  "Streams that are not connected are passed over; unknown streams and unreadable addresses are refused and leave the demuxer usable; data larger than a frame is left out; at damage or the end of the file it stops without making up data. An address can be given again.",
  ["inputs", "histories"],
  "All files of the common containers with any streams, any damage and any point at which a file ends.",
  "The demuxer's tests need FFmpeg 2 and are not part of the build here.",
  ["src/modules/headDemuxer/HeadDemuxerLibav.cpp", "src/modules/headDemuxer/HeadDemuxerLibav.hh"],
  [("splitting", "src/modules/headDemuxer/HeadDemuxerLibav.cpp doProcessFrame"), ("streams", "src/modules/headDemuxer/HeadDemuxerLibav.cpp setURI, reset")],
  [], ["the configure event and setURI, the state report, the frames and stream descriptions behind the queues"])

p("P30", "Audio is decoded and encoded sample by sample",
  "For MP3, AAC, Opus and mu-law packets, the samples behind the audio decoder are those of the coded stream, complete and in order, converted from the rate, channels and format actually decoded to the configured ones, each frame at the time of its packet; packets without samples give none, and damaged, undecodable or wrongly declared packets never stop the filter nor write beyond a frame. "
  "The packets behind the audio encoder are those of the whole input converted to the configured rate and channels and cut into frames of the codec, without gap, repetition or stale samples, for PCM, mu-law, MP3 and Opus and any input rate. "
  "An impossible configuration is refused, changes nothing and does not prevent a later one; the state reports what is configured.",
  ["inputs", "configurations", "histories"],
  "All formats, rates and channels, all packets, and all series of configurations.",
  "The codecs' tests need FFmpeg 2 and are not part of the build here.",
  ["src/modules/audioDecoder/AudioDecoderLibav.cpp", "src/modules/audioEncoder/AudioEncoderLibav.cpp"],
  [("resampling", "AudioDecoderLibav::checkInputFormat, resample; AudioEncoderLibav::resample"), ("configuration", "configure0 of both modules")],
  [], ["configure events, the state report, the frames in and behind the filters"])

p("P31", "Representations of a DASH set that drift apart are told to meet again",
  "Whenever the segments published together for a video set do not all end with the same picture (by presentation time), the filter that feeds each representation of that set is told exactly once, with a gopReferenceTime event, to meet at one and the same time: that of the latest of those last pictures plus the duration of a segment, on the pictures' own clock. "
  "Nobody is told when the segments end together or none were published, and never the feeder of an audio representation or of one that has left. "
  "Encoders that cut groups by time and obey are cut together again after that time, stay together, and no picture is lost on the way.",
  ["histories", "schedules", "configurations"],
  "All sets of representations, orders in which their pictures arrive, moments at which one joins, leaves or shifts its groups, segment and group durations.",
  "The segmenter's tests feed one representation and never look at what the encoders are told.",
  ["src/modules/dasher/Dasher.cpp", "src/Filter.cpp", "src/modules/videoEncoder/VideoEncoderX264or5.cpp"],
  [("comparison of the last pictures", "src/modules/dasher/Dasher.cpp writeVideoSegments, DashSegmenter::generateSegment"), ("event to the feeder", "Dasher::sendSetReferenceEvent, BaseFilter::sendEvent, PipelineManager::processFilterEvent"), ("groups by time", "VideoEncoderX264or5::doProcessFrame, setGopReferenceTimeEvent")],
  [], ["the segments on disk, the gopReferenceTime events that reach the filters, the group starts of the encoders"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
