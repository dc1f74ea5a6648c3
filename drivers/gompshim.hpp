#pragma once
#include <cstdint>
struct GompPlan {
    int threads     = 1;
    bool pauses     = false; // yields of random length before each thread starts working
    bool oneByOne   = false; // the threads of a team run one after another, in random order
    uint64_t seed   = 1;
};
struct GompStats { uint64_t regions = 0, teams = 0, hash = 14695981039346656037ull; };
extern GompStats gompStats;
void gompPlan(const GompPlan&);
