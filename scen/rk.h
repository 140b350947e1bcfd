// Helpers shared by the scenarios
#pragma once
#include "sim.h"
#include <math.h>
#include <string.h>
#include <complex>
#include <algorithm>
#include <set>
#include <deque>
extern "C" {
#include <RadarKit.h>
}
static inline void rk_quiet(void) {
    RKSetWantScreenOutput(false); RKSetWantColor(false);
    rkGlobalParameters.dailyLog = false; rkGlobalParameters.logfile[0] = 0;
}
// the usual chaos: thread stalls and late timers
static inline void chaos(void) {
    static const double ps[] = {0, 0, 0.0002, 0.002, 0.01}, pj[] = {0, 0.1, 0.5};
    static const int hi[] = {2, 20, 200};
    cfg.p_stall = ps[P("stalls", 0, 4)]; cfg.stall_lo = 50 * US; cfg.stall_hi = hi[P("stallms", 0, 2)] * MS;
    cfg.p_jitter = pj[P("jitter", 0, 2)]; cfg.jitter_hi = hi[P("jitterms", 0, 2)] * MS;
}
typedef std::complex<double> cd;
static inline RKRadarDesc *new_desc(uint32_t cap, uint32_t depth) {
    RKRadarDesc *d = (RKRadarDesc *)calloc(1, sizeof(RKRadarDesc));
    d->pulseCapacity = cap; d->pulseToRayRatio = 1; d->pulseBufferDepth = depth; d->configBufferDepth = 4;
    d->positionBufferDepth = 200; d->rayBufferDepth = 60; d->healthBufferDepth = 10; d->healthNodeCount = 1; d->statusBufferDepth = 10; d->productBufferDepth = 4;
    d->pulseSmoothFactor = 1000; d->pulseTicsPerSecond = 1000000; d->positionSmoothFactor = 100; d->positionTicsPerSecond = 1000000;
    d->latitude = 35; d->longitude = -97; d->heading = 0; d->wavelength = 0.03;
    strcpy(d->name, "Sim"); strcpy(d->filePrefix, "SIM"); strcpy(d->dataPath, "data");
    return d;
}
static inline uint64_t bytes_hash(const void *p, size_t n) { const uint8_t *b = (const uint8_t *)p; uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; } return h; }
