// A limit for the processor time of a harness: independent of how busy the machine is.
// (Something that waits forever is ended by whoever started the harness.)
#pragma once
#include <sys/time.h>
inline void cpuAlarm(unsigned seconds) { itimerval t {}; t.it_value.tv_sec = seconds; setitimer(ITIMER_PROF, &t, nullptr); }
