# Which harnesses decide which property, with how many cases (quick, thorough).
CHECKS = {}
def check(prop, rule, runs, require=(), assumptions=()):
    CHECKS[prop] = dict(rule=rule, runs=runs, require=list(require), assumptions=list(assumptions))
def run(harness, flavor, quick, thorough, **kw):
    return dict(harness=harness, flavor=flavor, cases=(quick, thorough), **kw)

check("P01", "a case is a random history of queue operations checked step by step against a reference FIFO; distinct = distinct sequences of (queue length, dropped?, delivered?) states",
      [run("p01_queue", "asan", 300000, 600000)], require=["commits", "deliveries", "forced drops", "refused commits", "empty removals", "refused creations"])

check("P02", "a case is a random history of writes, requests, releases, attachments and departures on a shared reader checked against a reference model, or a concurrent run of several sharers; distinct = distinct sequences of (queue length, per-filter shown/released flags), resp. distinct delivery outcomes",
      [run("p02_reader", "asan", 150000, 800000), run("p02_reader", "tsan", 1500, 12000)],
      require=["frames shown as new", "frames repeated", "partial releases", "frames released by departure", "releases with nothing held", "refused requests", "concurrent deliveries", "attach/detach while running"])

check("P07", "a case is a scripted set of tasks on a pool with random thread count, injected delays at every mutex operation and concurrent registration/removal; distinct = distinct global orders of task executions",
      [run("p07_pool", "asan", 1600, 20000), run("p07_pool", "tsan", 1600, 20000)],
      require=["runs", "removals while running", "re-registrations", "refused requests", "wake-ups named", "pending re-runs", "waits asked", "injected delays"])

check("P04", "a case is a random history of connect, share, disconnect, process and delete requests on real filters, compared after every step with a model of the connection graph; distinct = distinct sequences of connection graphs",
      [run("p04_connect", "asan", 400000, 1500000)],
      require=["connections made", "connections refused", "readers shared", "sharings refused", "sharers disconnected", "processed with a vanished neighbour", "filters deleted", "flows checked"])

check("P03", "a case is a random pipeline of real filters on the real worker pool with schedule perturbation, either left alone (conservation per connection) or reconfigured, inspected and torn down by a control thread while running; distinct = distinct delivery outcomes per connection",
      [run("p03_pipeline", "tsan", 800, 12000), run("p03_pipeline", "asan", 800, 12000)],
      require=["static pipelines", "frames committed", "frames lost and counted", "shared readers", "dynamic pipelines", "connections made while running", "readers shared while running", "readers disconnected while running", "filters deleted while running", "events pushed while running", "state queries while running", "injected delays"])

check("P05", "a case is a random graph of real filters processed one at a time, every call compared with a reference model of inputs shown, frames committed and numbered, filters woken and waiting time; distinct = distinct sequences of queue lengths",
      [run("p05_process", "asan", 250000, 800000)], require=["processing rounds", "idle rounds", "frames committed", "inputs consumed", "frames lost", "shared readers", "disconnections"])
check("P06", "a case is a random arrival history over 1-16 inputs of a synchronised sink or a frame-time paced merging filter, every call compared with a reference model; distinct = distinct sequences of queue lengths",
      [run("p06_sync", "asan", 200000, 600000)], require=["aligned rounds", "lagging inputs passed", "full inputs passed", "rounds holding inputs back", "rounds waiting for an input", "frame-time rounds", "clock jumps", "outdated rounds"])
check("P08", "a case is a random history of events (good and ill-formed, delayed, with any time) pushed to one filter of each kind and compared with a model of the event queue, or pushed by several threads while another processes; distinct = distinct sequences of (executed, pending) counts resp. execution orders",
      [run("p08_events", "asan", 36000, 200000, env={"ASAN_OPTIONS": "detect_leaks=1"}), run("p08_events", "tsan", 5000, 30000)],
      require=["events executed", "immediate executions", "ill-formed events discarded", "rounds with a pending event", "rounds with events behind a delayed one", "concurrent executions"])
check("P09", "a case is a random history of writes (contiguous, jittered, gaps, past, discontinuities), reads and flushes on an audio buffer of any configuration compared byte for byte with a reference, a stream of more than 2^32 samples, or a concurrent writer and reader; distinct = distinct sequences of write outcomes",
      [run("p09_audiobuf", "asan", 40000, 100000, env={"ASAN_OPTIONS": "detect_leaks=1", "VF_LONG": "1"}), run("p09_audiobuf", "tsan", 5000, 15000)],
      require=["frames accepted", "frames from the past", "silence inserted", "frames refused for room", "discontinuities", "frames read", "deviations absorbed", "wrap-arounds", "samples in long streams", "concurrent samples read", "configurations refused", "flushes"])
check("P10", "a case is a random history of frames (any length, skew, gap, jump), gain requests, foreign formats and disconnections on a mixer with 1-16 inputs, every round compared sample by sample with an online reference mix; distinct = distinct sequences of placements in the mixing window",
      [run("p10_mixer", "asan", 2000, 60000), run("p10_mixer", "plain", 1, 1, hang_s=400, env={"VF_LONG": "1"})],
      require=["frames mixed out", "timeline restarts", "late input ignored", "samples overlapping", "compressed samples", "gain requests", "gains out of range", "incomplete requests", "foreign formats", "states compared", "samples delivered", "inputs removed", "unit-gain single inputs"])
check("P11", "a case is a random history of layout requests (possible and impossible) and pictures of any size on a mixer with 1-16 channels, every composed picture compared pixel by pixel with a reference composition; distinct = distinct sequences of placements",
      [run("p11_vmixer", "asan", 6000, 40000)],
      require=["pictures composed", "inputs drawn", "disabled inputs", "inputs cropped", "inputs blended", "inputs scaled", "inputs without picture or extent", "empty or foreign pictures", "inputs on the topmost layer", "layout requests applied", "layout requests refused", "output size changes", "states compared", "pictures delivered", "inputs removed"],
      assumptions=["OpenCV's resize is the reference scaling"])
check("P12", "a case is a random history of crop requests (possible and impossible) and pictures of any size on a splitter with 1-16 outputs, every crop compared byte by byte with the source; distinct = distinct sequences of crops emitted",
      [run("p12_splitter", "asan", 20000, 60000)],
      require=["pictures split", "crops emitted", "crops unset", "crops outside the picture", "empty or foreign pictures", "crops configured", "requests refused", "states compared", "outputs removed", "crops delivered"])
check("P13", "a case is a random history of configurations and pictures of any size and format through source, resampler and sink, every picture compared with a reference conversion; distinct = distinct sequences of conversions",
      [run("p13_resampler", "asan", 10000, 60000, env={"ASAN_OPTIONS": "detect_leaks=1"})],
      require=["pictures converted", "pictures copied", "pictures that cannot be converted", "configurations applied", "configurations refused", "frame rates set"],
      assumptions=["libswscale is the reference conversion"])
check("P14", "a case is a random history of pictures with 0-20 slices (any size up to and beyond the limit, some abandoned) and reads on a slice queue, directly, through filters or between two threads, compared slice by slice with a reference list; distinct = distinct sequences of slices",
      [run("p14_slices", "asan", 36000, 120000), run("p14_slices", "tsan", 400, 2000, env={"VF_THREADS": "1"})],
      require=["slices committed", "slices delivered", "slices dropped by a full queue", "oversized slices", "slices beyond the bound", "slices abandoned", "writes refused", "slices through filters", "slices across threads", "slices lost across threads"])
check("P15", "a case is a random sequence of pictures, configurations (possible and impossible), intra requests, size and format changes through an H.264 or H.265 encoder, whose whole output is decoded and compared with the input; distinct = distinct sequences of decoded contents and picture types",
      [run("p15_encoders", "asan", 900, 12000)],
      require=["H.264 pictures decoded", "H.265 pictures decoded", "intra pictures", "intra pictures requested", "intra pictures due by time", "configurations applied", "configurations refused", "pictures that cannot be encoded", "size or format changes"],
      assumptions=["libavcodec is the reference decoder"])
check("P16", "a case is a random history of raw frames or H.264 NAL units (any size up to beyond the segment, malformed ones) through the exporter with a reader that releases the segment at random, every published frame and every byte of the segment compared with a model, or a reader on another thread; distinct = distinct sequences of published and skipped frames",
      [run("p16_shm", "asan", 10000, 60000), run("p16_shm", "tsan", 60, 2000, env={"VF_THREADS": "1"}), run("p16_shm", "asan", 60, 2000, env={"VF_THREADS": "1"})],
      require=["raw frames published", "access units published", "frames skipped while owned", "frames larger than the segment", "malformed NAL units", "frames passed on", "frames read across threads", "frames read again after a while", "segments created and removed"],
      assumptions=["the reader is another mapping of the segment in the same process or a thread of it"])
check("P17", "a case is a random stream of NAL units for one to three representations through the real segmenter (or one whose segments outgrow the buffers, or arbitrary bytes and times), every file it writes read back with an independent parser and compared with the access units that went in; distinct = distinct sequences of segment lengths",
      [run("p17_dash", "asan", 1500, 30000, env={"VF_DASH": "video"}), run("p17_dash", "asan", 60, 1500, env={"VF_DASH": "big"}), run("p17_dash", "asan", 400, 20000, env={"VF_DASH": "garbage"})],
      require=["access units", "video segments", "video samples", "init segments", "intra pictures inside segments", "access units before the first intra", "samples that did not fit", "units that did not fit in a picture", "arbitrary inputs"],
      assumptions=["all representations of a set carry the same cut points and do not run a whole segment apart", "a stream carries its parameter sets before its first intra picture"])
check("P18", "a case is a random stream of AAC frames for one or two audio representations, alone or next to a video one that forces the cuts, through the real segmenter, every file read back with an independent parser and compared with the frames that went in; distinct = distinct sequences of segment lengths",
      [run("p17_dash", "asan", 800, 16000, env={"VF_DASH": "audio"})],
      require=["audio frames", "audio segments", "audio samples", "audio segments forced with video", "invalid audio frames", "audio frames from before the session"],
      assumptions=["all audio representations of a set have the same rate and frame size and do not run a whole segment apart", "with video, every audio representation has frames when the video cuts"])
check("P19", "a case is a random history of representations joining, leaving, being fed and reconfigured (window, name, folder) with writes failing now and then; after each step, and in the plain build before and after each file operation, the folder is read as a client would; distinct = distinct sequences of timeline lengths and numbers of representations",
      [run("p17_dash", "asan", 500, 10000, env={"VF_DASH": "life"}), run("p17_dash", "plain", 200, 6000, env={"VF_DASH": "life"})],
      require=["timeline changes", "listed segments read back", "moves to another place", "representations joined, left or reconfigured", "steps with failing writes", "file operations looked at", "listed segments seen complete at those"],
      assumptions=["a stream carries its parameter sets before its first intra picture", "a crash is that of the process: what the system was told to write is there"])
check("P20", "a case is a random history of updates, removals, flushes and window changes of a manifest with arbitrary ids and texts, against a model; the document is read back with an XML parser after any of them; distinct = distinct sequences of operations",
      [run("p20_mpd", "asan", 20000, 100000)],
      require=["manifests read back", "sets compared", "representations compared", "representations removed", "timelines flushed", "times leaving the window", "starts listed before", "several times leaving at once", "refused updates", "failed writes"],
      assumptions=["ids and texts hold no control characters, which XML cannot carry"])
check("P21", "a case is a random history of manager commands (possible and impossible, through the protocol or the methods) with the pool running and delays injected, the whole reported state and all connections compared with a model after every command and every path seen to deliver frames; distinct = distinct sequences of connection graphs",
      [run("p21_pipeline", "asan", 10000, 60000), run("p21_pipeline", "tsan", 2000, 30000), run("p21_real", "asan", 60, 3000), run("p21_real", "tsan", 60, 3000, env={"TSAN_OPTIONS": "ignore_noninstrumented_modules=1"})],
      require=["paths with losses", "paths with losses on the way", "paths with a delay", "filters created", "paths created", "paths of several hops", "writers shared by paths", "paths that cannot be connected", "half-made connections undone", "paths removed", "ends kept for another path", "intermediate filters kept for another path", "unconnected paths removed", "removals of filters in use refused", "filters removed", "stops", "events for filters", "events sent by filters", "states compared", "paths seen working", "injected delays", "real filters created", "real paths created", "real paths refused", "real paths removed", "real paths seen working", "configurations sent while running", "real states compared", "frames received from real modules", "connections to itself refused"],
      assumptions=["commands reach the manager from one thread, as the controller does"])

check("P23", "a case is 12 random trees built, edited, written in a random format and read back, several spellings of each (escapes, white space, comments, missing and surplus separators), and mutated and random texts, judged by an independent strict reader and an independent tokeniser, with the allocated bytes compared around each parse; every eighth case adds deep and long documents; distinct = distinct sequences of texts",
      [run("p23_json", "asan", 10000, 300000)],
      require=["texts accepted", "texts refused", "valid texts", "broken texts", "documents of another type", "texts nested too deeply", "values accounted for", "round trips", "allocations balanced", "reused parsers", "numbers stored", "numbers read", "type checks", "edits", "assignments", "deep documents read", "deep documents refused", "long documents", "files"])

check("P22", "a case is a random sequence of client behaviours on a loopback connection to the real controller: valid, ill-typed, garbled, oversized and fragmented requests, half-closed, silent, vanishing and simultaneous clients; the answer is read by an independent strict reader and predicted from the request, and after each the whole reported pipeline is compared with a model; distinct = distinct sequences of requests",
      [run("p22_control", "asan", 400, 20000), run("p22_control", "tsan", 160, 8000, env={"TSAN_OPTIONS": "ignore_noninstrumented_modules=1"})],
      require=["paths made as answered", "paths refused without a trace", "long answers read in pieces", "answers", "requests that cannot be parsed", "requests beyond the limit", "requests in pieces", "half-closed connections", "events refused", "commands accepted", "state requests", "path requests", "paths seen", "events for filters", "filters created", "filters removed", "paths removed", "stops", "clients gone", "silent clients", "answers behind a silent client", "answers to simultaneous clients", "states compared", "controllers destroyed"],
      assumptions=["a client that wants an answer sends its request without pauses of over 100 ms and within a second"])

check("P24", "a case is 20 sequence parameter sets with random valid fields written bit by bit by an independent writer and read back, cut short and damaged, 20 NAL units escaped and arbitrary ones unescaped by an independent decoder, 20 random sequences of bit operations; every fourth case reads the headers of x264; all buffers have their exact size under AddressSanitizer; distinct = distinct bit contents",
      [run("p24_sps", "asan", 50000, 400000)],
      require=["sets read back", "sets with escapes", "high profile sets", "scaling lists", "order count cycles", "VUI parameters", "HRD parameters", "truncated sets", "damaged sets refused", "damaged sets read", "random sets", "escapes undone", "buffers too small", "arbitrary units read", "arbitrary units refused", "bit sequences written", "bit sequences read", "writes beyond the end", "reads beyond the end", "byte runs", "sets of an encoder", "sets printed"])

_leak = {"VF_LEAK": "1"}
check("P25", "a case of any other check's workload is a life cycle that is run five times in one process while every allocation is recorded with the repetition that made it; what is alive two repetitions later, in every repetition, is reported with the place that allocated it, as are files, threads and shared segments growing with every repetition; distinct = distinct behaviours of the workloads",
      [run(h, "asan", q, t, env=_leak) for h, q, t in [("p01_queue", 400, 8000), ("p02_reader", 300, 6000), ("p04_connect", 600, 12000), ("p05_process", 300, 6000), ("p08_events", 200, 4000), ("p09_audiobuf", 60, 1000), ("p10_mixer", 30, 1000), ("p11_vmixer", 40, 1000), ("p12_splitter", 200, 3000), ("p13_resampler", 200, 3000), ("p14_slices", 100, 2000), ("p15_encoders", 30, 600), ("p16_shm", 200, 3000), ("p17_dash", 100, 3000), ("p21_pipeline", 40, 1000), ("p21_real", 40, 800), ("p22_control", 40, 800), ("p23_json", 100, 2000), ("p24_sps", 60, 1000), ("p27_capture", 100, 2000), ("p25_cycles", 300, 10000)]],
      require=["filters deleted in mid-life", "connections", "readers shared", "life cycles", "allocations followed", "life cycles that left nothing"])
check("P26", "a case is a random history of requests (usual, boundary, out of range, incomplete, unknown and ill-typed ones, as events and through the C++ interface), of ends that appear and disappear and of rounds of frames for one filter of any kind; after each the report read by a strict JSON reader, the frame time and the segmenters' bitrates are compared with a model; one case in eight sends its requests while other threads execute the filter and read its state, and every state read must be that of a point in the history, in order; distinct = distinct histories",
      [run("p26_config", "asan", 8000, 300000), run("p26_config", "tsan", 400, 15000, env={"P26_TOGETHER": "1"})],
      require=["requests carried out", "requests that changed nothing", "parameters of another type", "incomplete or unknown requests", "requests through the C++ interface", "ends added", "ends removed", "states compared", "states read meanwhile", "changes seen by other threads"],
      assumptions=["an ill-typed parameter may make the whole request void or count as left out; fractions for whole numbers may be truncated or be ill-typed"])
check("P27", "a case is a random history of one or two simulated cameras (formats, sizes, padded lines, rates, buffer counts of their own; a driver that keeps the rules of Video4Linux, makes the memory of the buffers it owns inaccessible, interrupts and fails calls), of requests, releases, pictures and idle rounds; every frame behind the real queue is compared with the next picture the driver filled, every state with the driver's, and descriptors and mappings are counted whenever nothing is captured; distinct = distinct series of settings and pictures",
      [run("p27_capture", "asan", 4000, 60000)],
      require=["requests", "requests refused", "devices configured", "devices released", "connections", "pictures compared", "rounds without a picture", "pictures too large for the queue", "failing calls", "interrupted calls", "states compared"])
check("P28", "a case is a random series of H.264, H.265, VP8 and MJPEG streams (sizes, slices, reordering, packets of one NAL unit or one access unit, destinations too small), of damaged streams and of data no decoder exists for through the decoder filter; every picture of an intact stream is compared with the one libavcodec gives for it; distinct = distinct sequences of pictures",
      [run("p28_decoder", "asan", 600, 6000)],
      require=["H.264 pictures compared", "H.265 pictures compared", "VP8 pictures compared", "MJPEG pictures compared", "pictures of reordered streams", "damaged streams", "undecodable packets", "pictures that do not fit", "streams with parameter sets apart"],
      assumptions=["libavcodec is the reference decoder", "the module is compiled against FFmpeg 6 by way of harness/libav_compat.h"])
check("P29", "a case is a random series of media files (containers, codecs, one to four streams, reordering, parameter sets apart or inside, end-of-stream units, damaged packets, cut files) and of unreadable ones through the demuxer; every frame of every connected stream is compared with what libavformat reads from the file; distinct = distinct sequences of units",
      [run("p29_demuxer", "asan", 1000, 8000, env={"ASAN_OPTIONS": "detect_leaks=1"})],
      require=["files read", "NAL units compared", "packets compared", "units that do not fit", "addresses refused", "streams left unconnected", "addresses given again", "descriptions compared"],
      assumptions=["libavformat is the reference reader", "the module is compiled against FFmpeg 6 by way of harness/libav_compat.h"])
check("P30", "a case is either a random series of configurations and of MP3, AAC, Opus and mu-law streams (intact, damaged, declared wrongly) through the audio decoder, or a random source through the audio encoder configured to PCM, mu-law, MP3 or Opus after impossible requests; every sample and every packet is compared with what libavcodec and libswresample make of the same input; distinct = distinct series of streams",
      [run("p30_audio", "asan", 1600, 12000, env={"ASAN_OPTIONS": "detect_leaks=1:fast_unwind_on_malloc=0"})],
      require=["decoded samples compared", "damaged audio streams", "undecodable audio", "decoder configurations refused", "streams into frames of another format", "pcm packets compared", "pcmu packets compared", "mp3 packets compared", "opus packets compared", "packets compared after a rate conversion", "sources replaced", "encoder configurations refused"],
      assumptions=["libavcodec and libswresample are the reference", "the modules are compiled against FFmpeg 6 by way of harness/libav_compat.h", "AAC is not encoded: the only AAC encoder here takes no 16-bit samples"])
check("P31", "a case is a random set of one to four video representations (some beside audio, some joining or leaving on the way) whose encoders cut where they like, or cut by time and obey, or are real x264 encoders, fed to the real segmenter inside the real pipeline manager; which segments were cut together and with which picture each ends is read from the published files, what each encoder was told from its events; distinct = distinct series of segment lengths",
      [run("p31_realign", "asan", 1000, 20000)],
      require=["sets of segments cut", "cuts with segments that end apart", "cuts with segments that end together", "encoders told", "sets of obeying encoders", "sets of real encoders", "sets that met again", "segments that follow without a gap", "representations that left", "encoders replaced"],
      assumptions=["an encoder has not yet passed the time it is told to meet at", "the representations of a set do not run a whole segment apart"])
