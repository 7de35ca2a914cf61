// Replaces the random engine the library uses by one whose every output is chosen by the explorer.
// Force-included before the library sources and the harness of C02.
#pragma once
#include <random>
extern "C" unsigned verif_rng_next(void);
namespace std {
struct verif_choice_engine {
    typedef uint_fast32_t result_type;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    verif_choice_engine() {}
    template <class T> explicit verif_choice_engine(const T&) {}
    void seed() {}
    template <class T> void seed(const T&) {}
    result_type operator()() { return verif_rng_next(); }
};
}
#define mt19937 verif_choice_engine
