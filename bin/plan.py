COMMON_STUB = ["kernel scheduler, clocks and timers (simulated)", "C library threads, semaphores, files, sockets and heap (simulated)", "terminal output (discarded)"]
PLAN = {
 "C01": dict(files=["c01_pulse.cpp"], real=["RKPulseEngine.c", "RKDSP.c", "RKSIMD.c", "RKScratch.c", "RKFoundation.c", "FFTW (real library, planned with FFTW_ESTIMATE)"],
    scenarios=[dict(name="pulse", quick=6000)], probes=["gates compared"],
    note="Seeded search, no proof: thousands of simulated runs of the real stage with 1-5 workers, every release compared with a direct correlation in double precision and re-checked later for late writes."),
 "C02": dict(files=["c02_overload.cpp"], real=["RKPulseEngine.c", "RKDSP.c", "RKSIMD.c", "RKScratch.c", "RKFoundation.c", "FFTW (real library, planned with FFTW_ESTIMATE)"],
    scenarios=[dict(name="overload", quick=3000)], probes=["skipped pulses", "compressed pulses", "skips under load"],
    note="Seeded search: the producer outruns 1-5 workers that are stalled at random; every released pulse is classified and checked, and recovery after the stalls end is bounded in pulses and simulated time."),
 "C03": dict(files=["c03_filter.cpp"], real=["RKPulseRingFilter.c", "RKSIMD.c", "RKDSP.c (filter coefficients)", "RKFoundation.c"], stub=["pulse compression (harness writes compressed pulses)"],
    scenarios=[dict(name="filter", quick=4000)], probes=["filtered pulses", "pulses passed unchanged", "range changes"],
    note="Seeded search: 1-6 workers, random and built-in filters, range, gate count and switch changes; every gate of every released pulse compared with the recursion in double precision."),
 "C13": dict(files=["c13_clock.cpp"], real=["RKClock.c"], stub=["hardware counter (harness)"],
    scenarios=[dict(name="clock", quick=3000)], probes=["ordered stamps", "settled after a jump"],
    note="Seeded search over call lateness, host clock steps both ways, counter steps and restarts, silences and concurrent resets, with bounds on error and ordering derived from the averaging length."),
 "C08": dict(files=["c08_files.cpp"], real=["RKFileManager.c", "RKFoundation.c"], stub=["recorders (harness threads that create files and report them)"],
    scenarios=[dict(name="files", quick=1500), dict(name="files_full", quick=64, tq=20)], probes=["files deleted", "usage brought under the limit", "old logs deleted", "stopped while files are added"],
    note="Seeded search: every deletion is checked, as it happens, against a model of the archive (who, how old, how much is used); archives of up to 90 days, tables filled to capacity, concurrent recorders, stop and restart, clock steps, failing stat, unlink and opendir calls."),
 "C12": dict(files=["c12_healthlog.cpp"], real=["RKHealthLogger.c", "RKFileManager.c", "RKFoundation.c", "RKMisc.c", "RKJSON.c"], stub=["health consolidator (harness thread)"],
    scenarios=[dict(name="healthlog", quick=4000)], probes=["records found on disk", "record switched", "files handed to the archive", "records after a disk error", "restarts"],
    note="Seeded search: every line of every file written by the real logger is compared with the records made, over minute, hour and day changes, log time steps, record switches, full disks, failing opens and writes, stop and restart."),
 "C07": dict(files=["c07_record.cpp"], real=["RKRawDataRecorder.c", "RKFileManager.c", "RKWaveform.c", "RKFoundation.c", "RKMisc.c"], stub=["pulse stages up to moments (harness writes finished pulses)"],
    scenarios=[dict(name="record", quick=1400)], probes=["pulses read back", "files handed to the archive", "recording switched", "restarts", "files read back after a crash"],
    note="Seeded search: every file the real recorder leaves is parsed and compared byte for byte with the pulses made, over short writes, slow and full disks, failing opens and writes, record switches at any point, configuration changes, cache sizes, stop, restart and process crash."),
 "C17": dict(files=["c17_config.cpp"], real=["RKConfig.c", "RKRadar.c (RKGetLatestConfig, RKSetPulseReady)", "RKMisc.c", "RKFoundation.c"], stub=["callers that change and read configurations (harness threads)"],
    scenarios=[dict(name="config", quick=5000)], probes=["changes", "rejected changes", "reads by number", "reads of the latest"],
    note="Seeded search over concurrent changes, refused changes at every position in the argument list, readers by number and of the latest, preempted at every memory access; each published configuration is compared with an executable model of all changes in their numbered order."),
 "C11": dict(files=["c11_health.cpp"], real=["RKHealthEngine.c", "RKRadar.c (RKGetVacantHealth, RKSetHealthReady)", "RKMisc.c", "RKFoundation.c"], stub=["health nodes (harness threads that write report texts)"],
    scenarios=[dict(name="health", quick=12000)], probes=["records", "reports", "old reports", "location updates", "heading updates"],
    note="Seeded search over report texts, rates, delays in the middle of a report, silent nodes, stop and restart, host clock steps and threads that parse at the same time; every record is parsed and compared with the reports made, and location and heading with an executable model."),
 "C04": dict(files=["c04_position.cpp"], real=["RKPositionEngine.c", "RKConfig.c", "RKDSP.c (interpolation)", "RKRadar.c (RKGetVacantPosition, RKGetVacantPulse, RKAddConfig)"], stub=["pedestal and pulse stages before (harness threads)"],
    scenarios=[dict(name="position", quick=3000)], probes=["pulses tagged", "same bracket", "sweeps begun", "sweeps ended", "reports"],
    note="Seeded search: the position of every tagged pulse is compared with an interpolation of the reports made, its markers with a model of the sweep rules, over late and bursty reports, stalls, skipped-forward readers and ring wrap-around."),
 "C05": dict(files=["c05_rays.cpp"], real=["RKMomentEngine.c", "RKScratch.c", "RKPulsePair.c, RKPulsePairHop.c, RKPulsePairATSR.c, RKMultiLag.c", "RKConfig.c", "RKRadar.c (RKGetVacantPulse, RKAddConfig)"], stub=["pulse stages before (harness threads)", "calibrator call-back", "in a fifth of the runs the moment processor"],
    scenarios=[dict(name="rays", quick=4000)], probes=["valid rays", "skipped rays", "rays recomputed", "sweeps begun"],
    note="Seeded search: every delivered ray is compared with a small model of the gatherer (pulses, order, header), its moments are recomputed alone on a clean scratch space, rays are hashed when first seen ready and half a buffer later; worker stalls, overload of the pulse ring, skipped pulses, sweep starts and ends, all scan types and processors."),
"C23": dict(files=["c23_log.cpp"], real=["RKFoundation.c (RKLog, RKSetRootDataFolder)", "RKMisc.c (RKPreparePath)"], stub=["the threads that log (harness threads)", "disk (simulated)"],
    scenarios=[dict(name="logging", quick=5000)], probes=["lines logged", "lines in a daily log", "complete outputs", "folder changes"],
    note="Seeded search: every line logged by several threads is looked for in the log of its day and in the output, whole, once and in the order of its thread, with clock jumps over midnight, folder changes, output switched on and off, messages up to 20 kB, short, slow and failing writes; after faults stop logging must go on."),
 "C06": dict(files=["c06_sweep.cpp"], real=["RKSweepEngine.c", "RKProduct.c", "RKProductFile.c with the NetCDF library", "RKFileManager.c", "RKMisc.c", "RKFoundation.c"], stub=["moment stage (harness thread that makes rays)", "in most runs the product recorder call-back", "file handling script (recorded)"],
    scenarios=[dict(name="sweeps", quick=2500)], probes=["products recorded", "sweeps", "files read back", "recovered from overload", "sweeps that share a ray", "sweeps abandoned", "flushes", "recording switched"],
    note="Seeded search: every product the recorder gets, and every file on disk, is compared ray by ray and value by value with the rays made, over sweeps of 1 to 380 rays, abandoned, joined and single-ray sweeps, slow and failing recorders, slow, full and failing disks, recording switched, flush, early stop, and a ring lapped while a file is written."),
 "C09": dict(files=["c09_server.cpp"], real=["RKServer.c", "RKNetwork.c", "RKMisc.c", "RKFoundation.c"], stub=["TCP connection (simulated: segmentation, delay, windows, resets)", "the peer and the handlers (harness)"],
    scenarios=[dict(name="packets", quick=7000)], probes=["packets delivered", "connections intact", "connections lost", "sends that failed", "send would block"],
    note="Seeded search: a server operator's stream handler, command handler and other threads send packets of all sizes at the same time; the peer reads along, slowly, with pauses, stops or is cut off; every frame that arrives is compared with what was sent and what the sender was told."),
 "C14": dict(files=["c09_server.cpp"], real=["RKServer.c", "RKNetwork.c", "RKMisc.c", "RKFoundation.c"], stub=["TCP connections (simulated)", "clients and handlers (harness)"],
    scenarios=[dict(name="operators", quick=3000)], probes=["commands run", "connections served", "refusals", "full houses", "half-closes"],
    note="Seeded search over clients that come, go, vanish, stall, stay silent, send bursts or overlong lines in any segmentation, failing accepts and threads, host clock jumps, stops under load and restarts; each command's execution and each reply is checked, as are places, bounds and leaks."),
 "C15": dict(files=["c15_client.cpp"], real=["RKClient.c", "RKNetwork.c", "RKMisc.c", "RKFoundation.c"],
                stub=["TCP connections and name lookup (simulated)", "the server and the handlers (harness)"],
                scenarios=[dict(name="client", quick=4000)],
                probes=["messages delivered", "connections", "orderly ends", "restarts", "early stops", "beacons"],
                note="raw, line and fixed-block formats; byte streams cut, delayed, reset, silent; server restarts; stop at any moment"),
 "C19": dict(
  files=["c19_hosts.cpp"],
  real=["RKHostMonitor.c","RKMisc.c","RKFoundation.c"],
  stub=["ICMP sockets and name lookup (simulated)","the hosts (harness)"],
  scenarios=[dict(name="hosts", quick=2500)],
  probes=["replies credited","reachable judged","unreachable judged","combined indications judged","restarts","recoveries","failed starts"],
  note="Hosts answer, fall silent, recover, answer late, twice or with damaged datagrams; lookups and sockets fail; the clock jumps."),
 "C10": dict(
  files=["c10_startstop.cpp"],
  real=["RKRadar.c (RKInitWithDesc, RKFree and buffers)","RKPulseEngine.c, RKPulseRingFilter.c, RKPositionEngine.c, RKMomentEngine.c, RKSweepEngine.c, RKHealthEngine.c, RKHealthLogger.c, RKRawDataRecorder.c, RKFileManager.c, RKSteerEngine.c, RKHostMonitor.c","everything they use"],
  stub=["transceiver, pedestal and health reports (harness threads)","disk and network (simulated)"],
  scenarios=[dict(name="startstop", quick=1000)],
  probes=["stops","stops again","restarts","worked as the first time","releases","failed starts"],
  note="Engines in any combination and order, before, during and after the data flow; second stops, restarts, thread creation failures, release while running; threads, descriptors, semaphores and memory are counted."),
 "C20": dict(
  files=["c20_pipeline.cpp"],
  real=["RKRadar.c (RKGoLive, RKStop, RKSetWaveform, RKExecuteCommand, the inspector, the devices' life)","all engines between the pulse ring and the sweep files, health, logs and file manager","everything they use"],
  stub=["transceiver, pedestal and health relay (harness threads behind the device callbacks)","built-in compressor and moment processor are called through checking wrappers","disk and network (simulated)"],
  scenarios=[dict(name="pipeline", quick=1200, tlimit=60)],
  probes=["pulses in rays","rays","stops","pipelines drained","operator actions","waveform changes"],
  note="A radar that goes live with its devices, takes pulses and positions under steady, bursty, pausing and overload rates while an operator changes waveform, recording level, filters and moment methods, and is stopped at any moment; a device may fail to start."),
 "C22": dict(files=["c22_relay.cpp"], real=["RKRadarRelay.c", "RKClient.c", "RKNetwork.c", "RKMisc.c", "RKFoundation.c"],
  stub=["TCP connections and name lookup (simulated)", "the remote radar, the readers of the local rings, the users (harness)"],
  scenarios=[dict(name="relay", quick=2500)],
  probes=["connections", "restarts", "early stops", "orderly ends", "status records", "health records", "pulse records", "ray records", "stream requests", "streams agreed", "commands relayed", "commands answered"],
  note="status, health, pulse and ray records of all sizes, malformed and oversized records; connections cut, reset, silent, refused; stream changes and commands at any time; stop at any moment; sampled schedules"),
 "C18": dict(files=["c18_steer.cpp"], real=["RKSteerEngine.c", "RKMisc.c", "RKFoundation.c"],
  stub=["the pedestal: dynamics, delay, encoder (harness)", "the network between pedestal and radar (reports delivered late and in bursts by the harness)"],
  scenarios=[dict(name="steer", quick=2000, tq=40)],
  probes=["PPI", "RHI", "sector", "point", "commands", "malformed commands", "at rest", "instructions"],
  note="one or two commanders, all kinds of scan commands and malformed ones at any time; pedestals of different speed, acceleration, delay and report rate; noisy, late and bursting reports; sampled schedules"),
 "C21": dict(files=["c21_streams.cpp"], real=["RKCommandCenter.c", "RKServer.c", "RKNetwork.c", "RKSweepEngine.c (collection)", "RKMisc.c", "RKFoundation.c", "RKPreference.c"],
  stub=["TCP connections (simulated)", "the radar's engines: the harness writes the rings, the status lines and the sweep scratch spaces", "the operators (harness)"],
  scenarios=[dict(name="streams", quick=600, tq=60)],
  probes=["product rays", "display rays", "pulses", "healths", "statuses", "sweeps", "text", "controls", "subscriptions", "returns", "complete to the end", "consolidated", "stops under load"],
  note="up to 4 operators with random subscriptions, changes of mode, authentication, departures, resets and pauses, on signal processors and relays; rays completed out of order; short sends, stalls, clock jumps; stop at any moment; sampled schedules"),
 "C16": dict(files=["c16_websocket.cpp"], real=["RKWebSocket.c", "RKNetwork.c", "RKMisc.c", "RKFoundation.c", "RKPreference.c"],
  stub=["TCP connections and name lookup (simulated)", "the hub (harness: a web-socket server)", "TLS (never on in a run)"],
  scenarios=[dict(name="websocket", quick=3000, tq=60)],
  probes=["messages sent", "messages received", "messages delivered", "messages refused", "pings sent", "pongs", "pings of the link", "early stops"],
  note="up to 5 connections with good, refused, silent, broken and garbage handshakes; message sizes across all length forms up to and beyond the limit; fragments, merged and split frames; short sends, tiny buffers, stalls, resets, goodbyes, garbage, outages, lookup failures, clock jumps; stop at any moment; sampled schedules"),
 "C27": dict(files=["c27_instruments.cpp"], real=["RKPedestalPedzy.c", "RKHealthRelayTweeta.c", "RKHealthRelayNaveen.c", "ext/nmea.c", "RKClient.c", "RKNetwork.c", "RKRadar.c", "RKSteerEngine.c", "RKPositionEngine.c", "the other engines of a signal processor (idle)"],
  stub=["TCP connections and name lookup (simulated)", "the pedestal and the health relay (harness: TCP servers)", "the users that give commands (harness)"],
  scenarios=[dict(name="instruments", quick=800, tq=80)],
  probes=["connections", "positions", "reports", "sentences", "bad sentences", "beacons", "actions", "commands", "replies", "refusals", "scan commands", "pedestal healths", "stops"],
  note="a pedestal and up to one health relay of either kind; segments cut anywhere, tiny buffers, messages of wrong size, garbage readings, bad and overlong sentences; connections cut, reset, silent or refused; up to 3 users that give commands; thread creation failures; stop at any moment; sampled schedules"),
 "C28": dict(files=["c28_hub.cpp"], real=["RKReporter.c", "RKWebSocket.c", "RKNetwork.c", "RKMisc.c", "RKFoundation.c"],
  stub=["TCP connections and name lookup (simulated)", "the hub (harness: a web-socket server)", "the radar (harness: fills the buffers of healths, pulses and rays the way the engines do)"],
  scenarios=[dict(name="hub", quick=800, tq=60)],
  probes=["connections", "healths", "scopes", "rays", "messages", "replies", "complete", "early stops", "stops", "failed starts"],
  note="up to 4 connections, also refused ones and ones the hub resets, leaves or does not read; buffers of various depths, pulses of 0 to 320 gates at 100 to 10000 per second, rays, healths of up to 4 KB; messages of up to 24 KB; short sends, stalls, clock jumps, failing threads; stop, restart and free at any moment; sampled schedules"),
 "C26": dict(files=["c26_store.cpp"], real=["RKWaveform.c (files)", "RKFileHeader.c", "RKFoundation.c (RKReadPulseFromFileReference, RKParseQuotedStrings)", "RKPreference.c", "RKRawDataRecorder.c (writes the raw data that is read)", "RKMisc.c"], stub=["disk (simulated)", "the radar that stores and loads, the editor of the preferences (harness threads)"],
    scenarios=[dict(name="wavefile", quick=5000), dict(name="rawread", quick=2500), dict(name="preferences", quick=2500)], probes=["waveforms stored", "waveforms read back", "stores failed", "torn files refused", "headers read back", "pulses read back", "torn pulses refused", "oversized pulses refused", "lookups", "controls read", "incomplete controls refused", "calibrations read", "keywords counted", "preference files replaced"],
    note="Seeded search: waveforms of 1 to 22 groups and 1 to 1500 samples stored and loaded under write and read errors, full disks, short and slow transfers, crashes and cuts at any byte, with concurrent readers; raw data files of the real recorder (and of the previous format) read back pulse by pulse, whole, cut and with read errors, into buffers that are large enough or not; preference files of up to 160 lines, cut at any byte and replaced while they are read, against a reference parser and look-up."),
 "C29": dict(files=["c29_inspector.cpp"], real=["RKRadar.c (RKSystemInspector, health, position, pulse and status rings, RKSetPRF)", "RKFoundation.c (RKFindCondition)", "RKMisc.c (RKExtractJSON)", "RKHealth.c", "all other engines of a live radar"], stub=["transceiver, pedestal and health relay (harness: devices)", "the hosts (simulated ICMP)", "disk (simulated)"],
    scenarios=[dict(name="inspector", quick=700, tq=70)], probes=["inspections", "critical inspections", "suspensions", "full counts", "full counts, standing", "moving", "standing", "rates", "normal PRF", "relay heard", "relay silent", "hosts reachable", "stops"],
    note="Seeded search: a whole live radar whose devices report critical values for 4 to 25 s with gaps of all lengths, pedestals that move, stand and change, pulse trains that stop, changes of PRF, noise, recorder and filter, hosts that come and go, device reports with long texts and cut anywhere, slow suspensions, stalls and failing threads; every inspection is judged against the inputs before and after it, the suspensions against the set of possible counts."),
 "C30": dict(files=["c30_filemonitor.cpp"], real=["RKFoundation.c (RKFileMonitor, RKSimpleEngineFree)"], stub=["file system (simulated)", "the editor and the routine (harness)"],
    scenarios=[dict(name="filemonitor", quick=8000)], probes=["saves", "changes acted on", "files taken away for a while", "stopped with a change not acted on"],
    note="Seeded search: a file edited in place, replaced and taken away at random moments, alone, in bursts within one second and while a slow routine runs, with failing stat calls and stops at any moment; every call of the routine is counted against the changes and every change must be acted on within 20 s."),
 "C31": dict(files=["c31_restart.cpp"], real=["RKRadar.c (RKSoftRestart, RKGoLive, RKStop, RKFree, all rings)", "all engines of a live radar"], stub=["transceiver, pedestal and health relay (harness: devices)", "disk and hosts (simulated)"],
    scenarios=[dict(name="restart", quick=1500, tq=60)], probes=["restarts", "pulses through", "rays", "healths", "drained", "stops"],
    note="Seeded search: 1 to 3 restarts of a live radar at random moments, 1 to 3 cores per engine, with and without semaphores, devices that pause while the radar is not live or go on regardless, changes of PRF, waveform, noise, recorder and filter before; after each restart threads, engine states and settings are compared and the pipeline must drain with the right values."),
 "C32": dict(files=["c32_products.cpp"], real=["RKProductFile.c", "RKSweepFile.c", "RKProduct.c", "RKFoundation.c (RKListFilesWithSamePrefix, names)", "RKMisc.c (paths)", "libnetcdf"], stub=["disk (simulated; netCDF works on private files that appear when they are closed)", "the process that stores and the user who reads (harness threads)"],
    scenarios=[dict(name="products", quick=3000, tq=40)], probes=["products stored", "stores failed", "products read back", "collections read back", "sweeps read back", "odd names"],
    note="Seeded search: 1 to 3 sweeps (PPI, RHI or neither) of up to 11 products, 1 to 400 rays and 1 to 200 gates stored in any order under failing opens and writes and full disks while another thread reads them one by one, as collections and as sweeps; afterwards every stored file is compared value by value, alone, in its collection and in its sweep, also after others were cut at any byte, replaced or taken away."),
}
