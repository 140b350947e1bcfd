#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run it after editing an entry).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))
SM = "The built-in tests run each engine once, on the real scheduler, with no assertion on the outcome (mostly smoke tests): "

prop("C01", "Every pulse is compressed exactly once, correctly, and released in order",
 "Every pulse handed to the pulse-compression stage with the stage able to keep up is processed exactly once by the matched-filter bank selected by its own waveform group, and is released in acquisition order with a gate count and sample values equal to those of the reference correlation (blind gates removed, down-sampled by the configured ratio). A consumer that sees a pulse marked processed never sees a partially written one, a pulse that is shorter than its filters comes out without gates, and when the filters are replaced while pulses are in flight each pulse is compressed with the old or the new bank as a whole. The result does not depend on the number of worker threads, their relative speed, or the interleaving.",
 ["schedules","inputs","configurations"], "All interleavings of producer, dispatcher, any number of workers and consumer; all pulse sizes, waveforms, filter groups, down-sampling ratios and buffer depths.",
 SM+"one schedule, one core count, no comparison of the data that leave the ring while others are in flight.",
 ["source/RKPulseEngine.c","headers/RadarKit/RKPulseEngine.h","source/RKDSP.c"],
 [("pulse status bits","processing state of each ring slot","RKPulseHeader.s"),("filter id table","which filter group each slot uses","RKPulseEngine.filterGid"),("done index","next pulse a consumer may take","RKPulseEngine.doneIndex")],
 [("round-robin hand-off through per-worker semaphores","pulseWatcher/pulseEngineCore in RKPulseEngine.c"),("vacant slot ahead marking","RKPulseEngineGetVacantPulse")],
 ["RKPulseEngineGetProcessedPulse","pulse header and data in the shared ring"])
prop("C02", "Overloaded or stalled compression skips pulses but never sticks or mislabels",
 "When workers stall or input outruns them, every pulse is eventually either processed or explicitly marked skipped, never both and never left undecided, and the stage's statistics agree. A skipped pulse is never presented as compressed. Once the stall ends, new pulses are fully processed again within a bounded number of pulses.",
 ["schedules","fault_sequences"], "All placements and durations of worker, dispatcher and producer stalls, and all bursts of input.",
 SM+"overload is never provoked deterministically, and recovery is not asserted.",
 ["source/RKPulseEngine.c"],
 [("worker lag","how far behind each worker is","RKPulseWorker.lag"),("almostFull / skip counter","overflow handling","RKPulseEngine.almostFull")],
 [("skip threshold and skip counter","pulseWatcher in RKPulseEngine.c")],
 ["pulse status bits after quiescence"])
prop("C03", "Clutter filtering equals the recursive filter, whatever the parallelism",
 "With the ground-clutter filter enabled, every output sample of every pulse equals the configured recursive filter applied gate by gate to the sequence of compressed pulses, pulses leave in order and exactly once, and gates outside the filter's range are untouched. The output is independent of how many worker threads share the gates and of their interleaving. With the filter disabled the samples pass unchanged.",
 ["schedules","inputs","configurations"], "All interleavings, worker counts, filter coefficients, gate counts and orders of enabling or disabling.",
 SM+"the filter output under concurrency is never compared with the recursion.",
 ["source/RKPulseRingFilter.c","source/RKFilter.c"],
 [("filter delay lines","per-core ring of past inputs and outputs","ringFilterCore"),("task-done matrix","which core finished which pulse","RKPulseRingFilterEngine.workerTaskDone")],
 [("all-cores-done barrier in order","pulseRingWatcher in RKPulseRingFilter.c")],
 ["pulse data after the processed mark"])
prop("C04", "Each pulse gets the antenna position of its own time, in order",
 "Every pulse that is tagged carries an azimuth and elevation interpolated between two pedestal reports that bracket its time stamp (across the 0/360 wrap too), and pulses are tagged in acquisition order, each at most once. Sweep and scan begin/end markers attached to pulses correspond to those of the pedestal reports: no marker of a delivered bracket is invented, and each sweep transition seen by tagged pulses is marked. Late, bursty or jittered position reports delay tagging but never make it use a non-bracketing report; a pulse older than every report there is carries the oldest one's reading.",
 ["schedules","fault_sequences","inputs"], "All interleavings of pedestal, pulse producer and tagger, all report delays, and all azimuth trajectories.",
 SM+"no assertion on the interpolated values nor on behaviour under late reports.",
 ["source/RKPositionEngine.c"],
 [("position ring and its ready flags","pedestal reports","RKPositionEngine.positionBuffer"),("pulse position","tag on the pulse","RKPulseHeader.azimuthDegrees")],
 [("search for the bracketing pair","pulseTagger in RKPositionEngine.c")],
 ["RKPositionEngineGetVacantPosition/SetPositionReady","pulse headers marked HasPosition"])
prop("C05", "Rays are formed from consecutive pulses without loss, duplication or reorder",
 "Each ray is computed from exactly the consecutive pulses whose position falls in its angular bin (the pulse at the boundary of two bins is shared by both rays, unless boundary pulses are excluded; at most 2,000 pulses make a ray), rays come out in order and each once, and a ray marked ready is completely written, with header values (start and end time, azimuth, elevation, pulse count, gates, configuration, markers) taken from its own pulses and moments that depend on its own pulses and configuration only. This holds for any number of workers and any relative speed. A ray with a pulse that was skipped earlier, or whose pulses were recycled before it was done, or that is dropped when processing is too slow, is explicitly marked skipped and never presented as valid data, and pulses that belong to no ray are released to later stages.",
 ["schedules","fault_sequences","inputs"], "All interleavings of tagger, gatherer and workers; all stalls; all scan trajectories.",
 SM+"ray contents are not compared with the pulses that went in.",
 ["source/RKMomentEngine.c"],
 [("ray status bits","state of each ray slot","RKRayHeader.s"),("origin/length table","pulses of each ray","RKMomentEngine.momentSource")],
 [("in-order release and skip logic","pulseGatherer/momentCore in RKMomentEngine.c")],
 ["user moment processor call-back","ray buffer"])
prop("C06", "A completed sweep becomes one product file set with exactly its rays",
 "For every completed sweep of a volume scan with recording on (at least 3 rays, 4 of 5 inside the sweep), exactly one file for each product its rays carry is produced and reported to the archive, named from the sweep's own time and angle, containing exactly the rays of that sweep in order with the values of the rays (361 to 379 rays are cut to one full turn). A sweep whose rays are overwritten before they could be copied is dropped as a whole, and later sweeps are recorded again. A further sweep arriving while one is still being written, or a slow or failing disk, neither mixes rays of two sweeps nor leaves an incomplete file reported as good, and with recording off no file is written.",
 ["schedules","fault_sequences","histories"], "All interleavings of ray arrival and sweep writing; all disk delays and failures; all sequences of sweeps.",
 SM+"sweep writing overlaps nothing in the tests and no disk failure is injected.",
 ["source/RKSweepEngine.c","source/RKProductFile.c","source/RKProduct.c"],
 [("sweep scratch spaces","rays of sweeps in flight","RKSweepEngine.scratchSpaces"),("product table","registered products","RKSweepEngine.productBuffer")],
 [("scratch space hand-off to the manager thread","rayGatherer/sweepManager in RKSweepEngine.c")],
 ["files on disk","product recorder call-back"])
prop("C07", "Raw data files hold every recorded pulse, bit-exact, whatever the disk does",
 "While raw recording is on and the disk accepts the data, each file is a header followed by every pulse handled in that file's period, once each, in order and bit-exact, including after short writes and after an orderly stop. After a crash at any point each file is a prefix of that stream. A disk error loses data only in the file concerned: recording neither crashes nor blocks the pipeline, and a later file is again complete.",
 ["crash_points","fault_sequences","schedules"], "All points of crash or stop, all patterns of short or failed writes and opens, all interleavings of producer and recorder.",
 SM+"the recorder is exercised on a working disk only and the files are not read back.",
 ["source/RKRawDataRecorder.c","source/RKFileHeader.c"],
 [("write cache","bytes accepted but not yet written","RKRawDataRecorder.cache"),("file sequence counters","pulses in the current file","RKRawDataRecorder")],
 [("cached write and flush","RKRawDataRecorderCacheWrite / CacheFlush")],
 ["files on disk","list of files reported to the file manager"])
prop("C08", "Disk usage stays within its limit by deleting only the oldest managed files",
 "Whatever files are added and whenever, once the cleaners have had time to run the space used by managed files is at or under the configured share for each kind, and files are deleted oldest first (by the time in their names; by day once an archive has more files of a kind than the manager's table holds), no more than needed, and only inside the managed data folders. No file is deleted while usage is under the limit. Adding a file never blocks for ever, and stopping always finishes.",
 ["schedules","fault_sequences","histories"], "All sequences and timings of added files, existing archives, folder layouts and names, file system errors, and interleavings of recorder and cleaners.",
 SM+"the test generates one archive on the real disk with one schedule.",
 ["source/RKFileManager.c"],
 [("indexed file table","files known, sorted by time","RKFileRemover.indexedStats"),("usage","bytes accounted","RKFileRemover.usage")],
 [("usage loop of each remover","fileRemover in RKFileManager.c"),("RKFileManagerAddFile","RKFileManager.c")],
 ["simulated file system","recorded unlink and remove-folder calls"])
prop("C09", "Operator packets arrive whole, in order and uncorrupted over any connection",
 "Every packet a server component sends to a connected peer arrives as exactly the bytes given, with its type and length, in the order sent, without interleaving with packets sent by other threads to the same peer, however the transport splits, coalesces, delays or throttles the data. If a packet cannot be delivered in full the sender is told so, and the peer never receives a corrupted or misframed packet on a live connection.",
 ["schedules","fault_sequences","inputs"], "All segmentations, socket buffer sizes, stalls and resets of the byte stream, and all interleavings of concurrent senders.",
 SM+"loop-back sockets never split or throttle at the sizes used.",
 ["source/RKServer.c","source/RKNetwork.c"],
 [("operator lock","serialises senders","RKOperator.lock"),("delimiter","type and size of the packet","RKNetDelimiter")],
 [("partial send loop","RKOperatorSendPackets, RKNetworkSendPackets")],
 ["bytes received by the simulated peer"])
prop("C10", "Every engine can be started and stopped at any moment without hang or damage",
 "Stopping any processing engine, at any moment and under any load or scheduling, returns within a bounded time with all of its threads finished, and its memory can then be released; nothing it owns is touched afterwards. Starting it again works as it did the first time. Stopping twice, or stopping while it starves for input, is harmless.",
 ["schedules","histories"], "All interleavings of start and stop calls with the engine's own threads and its neighbours, at any point of the data flow.",
 SM+"start and stop are exercised at a fixed quiet point.",
 ["source/RKPulseEngine.c","source/RKPulseRingFilter.c","source/RKPositionEngine.c","source/RKMomentEngine.c","source/RKSweepEngine.c","source/RKHealthEngine.c","source/RKHealthLogger.c","source/RKRawDataRecorder.c","source/RKFileManager.c","source/RKHostMonitor.c","source/RKSteerEngine.c"],
 [("engine state word","wanted and actual activity bits","RKEngineState of each engine")],
 [("stop: clear the active bit, join threads","RK...Stop functions")],
 ["return of the stop call","set of live threads","engine state"])
prop("C11", "Consolidated health always reflects a consistent snapshot of all live nodes",
 "Every consolidated health record is well-formed, contains every live node's most recently completed report that fits (whole, not torn, and unmodified but for quoted logical values and the status of location readings that are not used), carries a log time, and records appear in order. When a node other than the radar's own falls silent the records keep coming, with the silent node's last values flagged as old. Location and heading reported by the nodes update the radar description only after the required number of consistent reports.",
 ["schedules","fault_sequences","inputs"], "All interleavings and delays of node reports, silent nodes, and report texts.",
 SM+"one emulator node, one schedule.",
 ["source/RKHealthEngine.c","source/RKMisc.c"],
 [("node rings","health reports per node","RKHealthEngine.healthNodes"),("health ring","consolidated records","RKHealthEngine.healthBuffer")],
 [("wait for all nodes or time out","healthConsolidator in RKHealthEngine.c")],
 ["consolidated ring"])
prop("C12", "The health log holds every consolidated record once, in the file of its minute",
 "With recording on, each consolidated health record that is handled is appended exactly once, in order and whole, to a log file that holds only records of one minute and is named from its first record's time. Each finished file is handed to the archive exactly once, and turning recording off and on, disk errors or stopping never corrupt a file, crash, or leak open files.",
 ["schedules","fault_sequences","histories"], "All arrival times across minute boundaries, toggles of recording, disk errors and stop points.",
 SM+"rotation at the minute, toggling and disk errors are not exercised.",
 ["source/RKHealthLogger.c"],
 [("open log file","current minute's file","RKHealthLogger.fid")],
 [("rotation on minute change","healthLogger in RKHealthLogger.c")],
 ["files on disk","open file count"])
prop("C13", "Pulse time stamps follow the hardware tick with bounded error",
 "Given a regular hardware counter, the time derived for each pulse stays within about twice the host's worst lateness of the true time, however irregular the host's call times are, and, once as many pulses as the averaging length have been seen, it increases from pulse to pulse as long as the lateness stays well below the averaging length. After the counter or the host clock jumps, the derived time settles again close to the host clock within a bounded number of pulses and stays ordered from there on; after a silence of more than five minutes it starts over and is right at once.",
 ["fault_sequences","inputs","schedules"], "All host scheduling jitter, clock steps, counter steps and silences.",
 SM+"the test drives one synthetic sequence without asserting.",
 ["source/RKClock.c"],
 [("anchors and slope","fit of time against counter","RKClock")],
 [("recursive fit with self-reset","RKClockGetTime in RKClock.c")],
 ["returned times"])
prop("C14", "A server runs every operator's commands exactly once, in order, in isolation",
 "Each complete command line a connected operator sends is executed exactly once and in the order sent, however the network splits or merges the bytes, and the replies go to that operator only; a line too long for a command is ignored as a whole. A slow, stalled, or vanished operator neither stops nor slows commands and streams of the others beyond a bound. When operators leave their place becomes free again, so the server always accepts up to its maximum number of operators, refuses the next one with a message, and never handles a connection twice.",
 ["schedules","fault_sequences","histories"], "All arrival patterns, connects, disconnects, resets and stalls of up to more than the maximum number of operators.",
 SM+"one interactive server without assertions.",
 ["source/RKServer.c"],
 [("operator table","connected operators","RKServer.operators"),("command ring","pending commands per operator","RKOperator.commands")],
 [("accept loop, per-operator read and command threads","RKServer.c")],
 ["command call-back","bytes received by each simulated client"])
prop("C15", "A client receives every message whole, reconnects, and can always be stopped",
 "A client delivers each message the server sends exactly once, in order and with exactly its bytes and type, however the network splits the data, and oversized or truncated messages never overrun memory. After the server or the network fails it reconnects by itself once the server is reachable again, without leaking descriptors. Stopping it returns within a bounded time at any moment.",
 ["schedules","fault_sequences","inputs"], "All segmentations, resets, timeouts, refusals and moments of stop.",
 SM+"one loop-back connection, never broken.",
 ["source/RKClient.c","source/RKNetwork.c"],
 [("client state","connection phase","RKClient.state"),("receive buffer","payload in progress","RKClient.userPayload")],
 [("connect, select, read, reconnect loop","theClient in RKClient.c")],
 ["receive call-back","descriptor table"])
prop("C16", "The web-socket link frames, masks and answers correctly over any byte stream",
 "Each message accepted on an open web-socket link (one that fits a frame, while fewer wait than the ring holds; others are refused) reaches the peer exactly once, in order, as one well-formed masked frame with exactly its bytes, while the link stays up; each message the peer sends, fragmented or not, is delivered to the application exactly once with exactly its bytes, however the transport splits or merges them. Pings are answered with the same payload, idle links are pinged, and after a failure or a bad or missing handshake the link closes and reconnects. Open and close call-backs alternate, and stopping always finishes.",
 ["schedules","fault_sequences","inputs"], "All segmentations and short writes, message sizes across the 7/16/64-bit length forms, resets, silences and stop points.",
 SM+"needs a live external server, so it is never exercised.",
 ["source/RKWebSocket.c"],
 [("outgoing ring","queued messages","RKWebSocket.payloads"),("frame buffer","frame in progress","RKWebSocket.frame")],
 [("transport loop and event loop","RKWebSocket.c")],
 ["bytes on the simulated wire","message call-back"])
prop("C17", "Configuration changes are atomic and each pulse sees the one in force",
 "A reader that looks up the current configuration, or one by its number, always sees a complete one: every field is either from the change in question or inherited from the configuration before it, never from a stale one. Concurrent changes are each applied completely, get distinct increasing numbers, and none is lost. No change, valid or not, can block later changes.",
 ["schedules","inputs"], "All interleavings of writers and readers and all lists of changes, including rejected ones.",
 SM+"configuration changes are made by one thread.",
 ["source/RKConfig.c"],
 [("configuration ring","successive configurations","RKConfig buffer"),("current index","published configuration","configIndex")],
 [("advance under a lock, publish last","RKConfigAdvance in RKConfig.c")],
 ["RKConfigAdvance, RKConfigWithId and the ring"])
prop("C18", "The antenna executes the commanded scan sequence, sweep by sweep",
 "For every accepted scan command the pedestal is driven through exactly the listed sweeps in order: each ends once, at its commanded end and at its commanded fixed angle, an RHI or sector sweep having covered its whole span, and the sequence then repeats, finishes (the pedestal coming to rest) or is replaced, according to the command. A queued scan starts only after the one before it has ended; malformed commands are refused without disturbing the running scan. This holds whenever the commands come, for any pedestal that obeys its instructions (whatever its speed, acceleration and delay), across the wrap-around of the angles, and for noisy, late and bursting reports.",
 ["schedules","inputs","histories","fault_sequences"], "All scan commands and their timing, all pedestal dynamics, report jitter and dropped reports.",
 SM+"one emulated pedestal, no assertion on the sweep sequence.",
 ["source/RKSteerEngine.c"],
 [("scan lists","current, next and queued scans","RKSteerEngine.vcpHandle"),("scan progress","setup, middle, end","RKScanObject.progress")],
 [("state machine per position report","RKSteerEngineGetAction")],
 ["actions sent to the pedestal","markers on positions"])
prop("C19", "Host reachability reflects recent replies, for every host, within a bound",
 "A monitored host is reported reachable soon after it answers and unreachable within a bounded time after it stops answering, replies being credited only to the host that sent them and to a probe that was sent. The combined indications agree with the individual ones. Losing, delaying, duplicating or reordering replies, a failing socket, or one dead host never freezes the monitoring of the others, and monitoring can be restarted.",
 ["schedules","fault_sequences"], "All loss, delay, duplication and failure patterns, and interleavings.",
 SM+"needs a real network and privileges.",
 ["source/RKHostMonitor.c"],
 [("worker status","state per host","RKUnitMonitor / RKHostMonitor.workers")],
 [("ping loop per host and consolidation","hostPinger/hostWatcher")],
 ["RKHostMonitor status fields"])
prop("C20", "The assembled pipeline turns every pulse into rays in order while it is live",
 "With all engines running together, every acquired pulse travels through compression, filtering, position tagging and ray formation exactly once and in order, and no stage reads a slot before the stage before it has finished with it or after the producer has reclaimed it. Stopping the radar at any moment finishes in bounded time with everything released.",
 ["schedules","fault_sequences"], "All interleavings of the whole set of engine threads, and stalls of any one of them.",
 SM+"one real-time run of a simulated radar, judged by eye.",
 ["source/RKRadar.c","source/RKPulseEngine.c","source/RKPulseRingFilter.c","source/RKPositionEngine.c","source/RKMomentEngine.c","source/RKSweepEngine.c","source/RKRawDataRecorder.c"],
 [("shared rings","pulses, positions, rays, configurations","RKRadar")],
 [("status bits hand-over between engines","all engines")],
 ["ray and pulse rings","sweep files"])
prop("C21", "Each stream subscriber gets the current data of what it asked for, well framed",
 "A remote operator that subscribes to a set of streams receives, well framed, the health, status, pulse, ray and sweep records it asked for and no others, each complete and with the contents the radar published; as long as the connection keeps up, health, status, ray and sweep records arrive in order without gap or repetition from the time of the request until it unsubscribes or leaves. Changing the subscription takes effect without disturbing the connection, and one operator's choice or speed never affects another's. A relay asks its radar for exactly what its operators want together.",
 ["schedules","histories","fault_sequences"], "All orders of subscriptions and data production, and transport behaviours.",
 SM+"needs a running radar and a viewer.",
 ["source/RKCommandCenter.c","source/RKServer.c"],
 [("stream masks","what each operator asked for","RKUser.streams"),("per-user ring indices","next record to send","RKUser.rayIndex, pulseIndex, ...")],
 [("stream handler per operator","socketStreamHandler in RKCommandCenter.c")],
 ["bytes received by each simulated operator"])
prop("C22", "A relayed radar shows the remote radar's records unaltered",
 "A relay delivers each status, health, pulse and ray record the remote radar sends into the local buffers exactly once, in order and unaltered, marking a record available only when it is complete. A malformed or oversized record never overruns local buffers, and no address of the remote process is kept as a local one. After a lost connection it reconnects and asks for the same streams again.",
 ["schedules","fault_sequences","inputs"], "All record sizes, segmentations, and connection failures.",
 SM+"never exercised without two radars.",
 ["source/RKRadarRelay.c","source/RKClient.c"],
 [("local rings","relayed records","RKRadarRelay buffers")],
 [("receive call-back","RKRadarRelayRead")],
 ["local rings of the relaying radar"])
prop("C23", "Every log line is written whole, once, to the log of its day",
 "A line logged by any thread appears exactly once, whole and never interleaved with another, in the output stream and in the log file of the day it was logged, and lines of one thread keep their order. Changing the day, the log folder or disk errors never lose the process or block it, and no length of message can block later ones (a message of more than about 4,000 characters is cut). A line lost to a disk error is lost alone.",
 ["schedules","fault_sequences","inputs"], "All interleavings of logging threads, day changes, disk errors and message lengths.",
 SM+"the log file is not examined and never written by competing threads.",
 ["source/RKMisc.c","source/RKFoundation.c"],
 [("log file of the day","destination","rkGlobalParameters.logfile")],
 [("lock around formatting and writing","RKLog in RKFoundation.c")],
 ["log files"])
# pure computations: not decided by simulation
prop("C24", "Vectorised arithmetic equals the scalar definition for all lengths",
 "Each vectorised complex and real array operation gives the scalar result for every length and input within rounding, and touches nothing outside the arrays.",
 ["inputs"], "All lengths, alignments and values.", "The unit tests use one length.",
 ["source/RKSIMD.c"], [], [("SIMD kernels","RKSIMD.c")], ["output arrays"])
prop("C25", "Moment estimators give the textbook moments for every dwell",
 "Reflectivity, velocity, width and the dual-polarisation moments computed from a dwell equal the textbook estimators within rounding for every number of pulses and gates, and no gate depends on another.",
 ["inputs","configurations"], "All dwell lengths, lags and signals.", "The unit tests compare a few short dwells.",
 ["source/RKPulsePair.c","source/RKMultiLag.c","source/RKPulsePairHop.c","source/RKSpectralMoment.c"], [], [("estimators","RKPulsePair*.c, RKMultiLag.c, RKSpectralMoment.c")], ["ray data"])
prop("C26", "Stored waveforms, raw data and preferences come back as stored or are refused",
 "A waveform is stored whole or reported as not stored, and loading a waveform file gives exactly the stored waveform or, if the file is incomplete, nothing. Every whole pulse of a raw data file is read back as recorded, in order, up to the first that is incomplete or too big for the reader's buffer. Every entry of a preference file, also after it was replaced, is found under its keyword with its value and in its order, and incomplete controls are refused.",
 ["inputs","fault_sequences","crash_points"], "All waveforms, recordings and preference files; all write and read errors, full disks, short transfers and crashes while storing; all cuts of a file; all replacements of a file between and during readings.",
 "One example each is printed, not asserted, and no unit test meets an incomplete file or a failing disk.",
 ["source/RKWaveform.c","source/RKFileHeader.c","source/RKFoundation.c","source/RKPreference.c","source/RKRawDataRecorder.c"],
 [("RKWaveform","what is stored","RKTypes.h"),("RKPreference.objects","entries in force","RKPreference.h")],
 [("writer and reader of waveforms","RKWaveformWriteToReference, RKWaveformReadFromReference"),("reader of raw data","RKFileHeaderRead, RKReadPulseFromFileReference"),("parser and look-up","RKPreferenceUpdate, RKPreferenceFindKeyword")],
 ["return values","file contents","loaded structures"])
prop("C27", "Every reading, action and command of an attached instrument arrives once",
 "Each position or health message of an attached pedestal or health relay becomes exactly one record, in order, with the readings it carried (azimuths turned by the radar's heading), and malformed messages become none and do no harm. Each scan action and each command reaches the instrument whole and once, and each caller gets the reply to its own command or an error within a few seconds. A lost or silent instrument is reconnected, its health is not shown as if it were there, and the radar can be stopped and released at any moment.",
 ["schedules","fault_sequences","inputs"], "All interleavings of instrument messages, commands, actions, health reports, stops and connection failures.",
 SM+"no unit test runs an instrument.",
 ["source/RKPedestalPedzy.c","source/RKHealthRelayTweeta.c","source/RKHealthRelayNaveen.c","source/ext/nmea.c","source/RKRadar.c"],
 [("RKPosition and RKHealth slots","next record","RKRadar"),("latestCommand, responses","command slot","RKPedestalPedzy")],
 [("client lock around sends","RKClient.lock"),("one command at a time","RKPedestalPedzy.mutex")],
 ["position ring","health ring","bytes at the instrument","replies"])
prop("C28", "The hub gets what the radar produces, whole, once and in order",
 "While a RadarHub reporter is connected, every health, scope sample set and display ray that it selects (by the strides) reaches the hub exactly once, in order and with the contents the radar published, after an introduction and the list of controls, and nothing else does. Every message of the hub is answered by one reply with its text (as much as fits in a reply), whatever its length. The reporter only marks slots that are filled, comes back when the connection is lost, and can be started, stopped, started again and released at any moment, also when a thread cannot be made.",
 ["schedules","fault_sequences","inputs"], "All interleavings of producers, the reporter, the link and the hub, all losses of the connection.",
 SM+"no unit test runs a reporter.",
 ["source/RKReporter.c","source/RKWebSocket.c"],
 [("payload and reply buffers","until they are sent","RKReporter"),("health and ray flags","slot","RKHealth, RKRay")],
 [("queue of payloads","RKWebSocketSend"),("take a slot by index, compare-and-swap of its flag","reporter")],
 ["messages at the hub","replies","health and ray flags"])
prop("C29", "The radar sees its own state as it is and suspends itself when it must",
 "A live radar inspects itself a few times a second, until it is stopped, and each inspection leaves one status record and one whole health record that says what is so: whether pulses come and how often against the PRF that was set, whether the pedestal moves, whether the health relay has reported since the last inspection, which hosts can be reached, and the recorder, the filter and the noise. When some value of the latest health has been critical in more than twenty inspections in a row and the pedestal moves, the radar is suspended once and the count starts again; fewer, or one inspection in between without a critical value, never suspends it. Reports of devices with long texts or cut anywhere do no harm.",
 ["schedules","inputs","fault_sequences"], "All histories of device reports, pulses, positions, settings and reachability, and all interleavings of them with the inspections.",
 "It takes minutes of a live radar with critical values that come and go at certain moments; no unit test runs an inspection.",
 ["source/RKRadar.c","source/RKFoundation.c","source/RKMisc.c"], [("criticalCount, tweetaIndex, rates","carried from one inspection to the next","systemInspectorRunLoop")],
 [("asynchronous sampling of rings and health nodes","systemInspectorRunLoop"),("suspension through the master controller","systemInspectorRunLoop")], ["RadarKit health node","status ring","commands at the transceiver"])
prop("C30", "Every change of a watched file is acted on",
 "While a file monitor is alive, its routine is called with the monitor within a few seconds after every change of the file, whether it was edited in place, replaced or taken away for a while, and also if changes follow one another within a second or while the routine runs. It is not called more often than the file changed, nor twice at the same time, nor after the monitor was freed. A monitor can be freed at any moment without hang or leak.",
 ["schedules","inputs","fault_sequences"], "All times of changes, kinds of saves, durations of the routine, failing looks at the file and moments of the stop.",
 "The only test touches a file and looks at the screen; the misses need two saves within one second.",
 ["source/RKFoundation.c","rkutil.c"], [("previousStat","state of the file last acted on","fileMonitorRunLoop")],
 [("comparison of file states","fileMonitorRunLoop"),("stop and join","RKSimpleEngineFree")], ["calls of the routine","return values"])
prop("C31", "A soft restart brings the whole radar back with its settings",
 "A soft restart of a live radar, at any moment and under any load, returns within bounded time with the radar live and every engine and thread running as before, with the configuration, the waveform, the recorder, the filter and the method it had. Pulses, positions and healths that are acquired after it are numbered from the start and go through to rays, with the right values, as on a new radar, also after several restarts and while devices go on feeding the radar. Stopping and releasing the radar afterwards leaves no thread, descriptor or memory behind, and a radar that is not live is not restarted.",
 ["schedules","histories","inputs"], "All moments of restarts, interleavings of engines and devices with them, and numbers of restarts.",
 "It stops and starts ten engines around data in flight; no unit test does it.",
 ["source/RKRadar.c","source/RKPulseEngine.c","source/RKMomentEngine.c","source/RKPositionEngine.c","source/RKHealthEngine.c","source/RKPulseRingFilter.c","source/RKSweepEngine.c","source/RKRawDataRecorder.c"],
 [("ring buffers and indices","reset while devices hold slots","RKSoftRestart"),("engine states","RKEngineState","all engines")], [("stop and start of the engines","RKSoftRestart")], ["engine states","pulse and ray rings","settings","threads and memory"])
prop("C32", "Products of the archive come back as stored, damaged files do no harm",
 "A product that was reported as stored is read back with its size, description, time, place, angles, gate size, PRF (to the whole Hz), noise, calibration and values (those that are not finite as missing), from a PPI, an RHI or any other scan; one that was not stored leaves no file. The collection opened by any file of a sweep holds each product file of that sweep once, the base moments in their usual order, and the sweep read by any of them holds all its base moments of the same size. Files that are missing, empty, being written, cut, of another size or named in another way, and failing opens, harm neither the other products nor files that are open elsewhere, and leave no descriptor or memory behind.",
 ["inputs","fault_sequences","schedules"], "All sizes, values and sets of products, all disk faults while they are stored, all cuts, and readers at any moment of the storing.",
 "Misreads depend on the kind of scan, the neighbours in the folder and the moment a file is looked at; the only test shows a file on the screen.",
 ["source/RKProductFile.c","source/RKSweepFile.c","source/RKProduct.c","source/RKFoundation.c","source/RKMisc.c"], [("netCDF identifiers","files open at the same time","RKProductFileWriterNC, RKProductReadFileIntoBuffer"),("product arrays","sized by the first file","RKProductCollectionInitWithFilename")],
 [("store, then read","RKProductFileWriterNC, RKProductFileReaderNC"),("collection by common prefix","RKListFilesWithSamePrefix"),("sweep from sibling files","RKSweepFileRead")], ["files","products","rays of the sweep"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    import re
    n = len(re.findall(r'\.(?:\s|$)', p["statement"]))
    assert n <= 3, (p["id"], n)
print(len(P))
