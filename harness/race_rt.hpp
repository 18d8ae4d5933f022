#pragma once
#include <cstdint>

struct RaceConfig {
  std::uint64_t seed = 1;
  std::uint64_t stale_den = 0;  // a load which may return an older value does so with probability 1/stale_den
};
struct RaceStats {
  std::uint64_t accesses, atomics, fences, syncs, releases, stale_possible, stale_read, shadow_overflow, races, fibers;
};
RaceStats& RaceGetStats();
void RaceBegin(const RaceConfig& config);
void RaceEnd();
void RaceResume(std::uint64_t id);
// everything done so far by any fiber happens before what the caller does next
void RaceJoinAll();
// given by the harness
void RaceReport(const char* key, const char* message);
