// What the stand-in OpenMP runtime observed.
#ifndef VF_GOMP_H_
#define VF_GOMP_H_
#include <cstdint>
struct VfGompStats {
    uint64_t regions;   // parallel regions with more than one thread
    uint64_t threads;   // threads taking part in them
    uint64_t chunks;    // chunks of loops handed out at run time
    uint64_t orders;    // distinct orders in which the threads of a region arrived / took their chunks
    uint64_t overlaps;  // regions in which at least two threads were inside at the same time
};
extern "C" VfGompStats vf_gomp_stats();
extern "C" void vf_gomp_seed(uint64_t seed); // decides the delays
#endif
