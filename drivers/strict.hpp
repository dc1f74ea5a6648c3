// Forced into every sanitized translation unit: Eigen's own assertions stay on although NDEBUG is defined as in the shipped build.
#pragma once
#include <cstdio>
#include <cstdlib>
#define eigen_assert(x)                                                                          \
    do {                                                                                         \
        if (!(x)) {                                                                              \
            fprintf(stderr, "EIGEN ASSERTION FAILED: %s at %s:%d\n", #x, __FILE__, __LINE__);    \
            abort();                                                                             \
        }                                                                                        \
    } while (0)
