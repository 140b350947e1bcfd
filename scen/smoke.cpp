#include "sim.h"
extern "C" {
#include <RadarKit.h>
}
SCENARIO(smoke, "C00") {
    RKSetWantScreenOutput(false);
    RKClock *c = RKClockInitWithSize(100, 10);
    for (int i = 0; i < 100; i++) { sim_sleep_ns(1*MS); double t = RKClockGetTime(c, i * 10.0, NULL); sim_hash_bytes(&t, 8); sim_note("%f", t); }
    RKClockFree(c);
}
