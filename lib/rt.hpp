// Controlled execution of threads of instrumented code (compiled with -fsanitize=thread, linked with c13rt.cpp in place
// of the sanitizer's runtime): one thread runs at a time, switches happen where the plan says, every memory access is
// checked for a conflict with an access of another thread that is not ordered by synchronisation.
#ifndef VERIF_RT_HPP
#define VERIF_RT_HPP

#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt {
    struct Plan {
        int first = 0;
        std::vector<uint64_t> at;     // synchronisation points (numbered over all threads) at which to switch
        std::vector<uint64_t> atCall; // function entries at which to switch
    };

    struct Report {
        std::string race;
        bool deadlock = false, overflow = false;
        uint64_t points = 0, calls = 0, accesses = 0, granules = 0;
    };

    Report run(const std::vector<std::function<void()>> &threads, const Plan &plan);
}
#endif
