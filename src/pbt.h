// Choice-sequence property-based testing engine (see DESIGN.md).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <utility>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

class Case {
public:
    // ---- primitive choices -------------------------------------------------------------------------------------
    // Uniform in [0, maxIncl]; 0 is the simplest value.
    uint64_t draw(uint64_t maxIncl);
    int intIn(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<uint64_t>(hi - lo))); }
    // true with probability p; shrinks to false
    bool chance(double p) {
        if (p <= 0) { return false; }
        return draw(65535) >= static_cast<uint64_t>((1.0 - p) * 65536.0 + 0.5) || p >= 1.0;
    }
    // real in [lo, hi]; one draw in eight comes from a small grid of round values
    double real(double lo, double hi);
    // uniform real, never snapped
    double unif(double lo, double hi) { return lo + (hi - lo) * (static_cast<double>(draw((1ull << 40) - 1)) / static_cast<double>((1ull << 40) - 1)); }
    // log-uniform in [lo, hi], lo > 0
    double logReal(double lo, double hi);
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
    // index chosen with the given integer weights
    int weighted(std::initializer_list<int> w);
    // one more iteration? expected number of iterations about `mean`, at most `max`
    bool more(int& count, double mean, int max);

    // spans group the choices of one operation so that the shrinker can drop it as a whole
    struct Span { Case& c; size_t idx; Span(Case& c); ~Span(); };

    // ---- results -----------------------------------------------------------------------------------------------
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void check(bool cond, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    [[noreturn]] void discard() { throw Discard{}; }
    void nontrivial() { mNontrivial = true; }
    void label(const char* name, uint64_t n = 1);
    // written to the sample / replay log; cheap when not verbose
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    bool verbose() const { return mVerbose; }
    uint64_t aux() const { return mAux; }

    // ---- internals ---------------------------------------------------------------------------------------------
    bool mRandom = false, mVerbose = false, mNontrivial = false;
    uint64_t mState[4] = {0, 0, 0, 0};
    const uint64_t* mReplay = nullptr; size_t mReplayLen = 0;
    size_t mPos = 0; uint64_t mHash = 1469598103934665603ull; uint64_t mAux = 0;
    std::string* mLog = nullptr;
    // twins: a second Case that repeats exactly the choices recorded from the first one
    std::vector<uint64_t>* mRec = nullptr; const std::vector<uint64_t>* mTape = nullptr; size_t mTapePos = 0; bool mTwin = false, mTwinDiverged = false;
};

struct SubProp {
    const char* name;
    void (*fn)(Case&);
    uint64_t quick, thorough;      // number of cases
    const char* rule;              // how cases are made and what is non-trivial
    double cpuLimit;               // CPU seconds per case before it counts as a hang
    SubProp* next;
    SubProp(const char* n, void (*f)(Case&), uint64_t q, uint64_t t, const char* r, double cpu);
};

#define PBT_PROP(NAME, QUICK, THOROUGH, RULE) \
    static void pbt_fn_##NAME(pbt::Case& c); \
    static pbt::SubProp pbt_sp_##NAME(#NAME, pbt_fn_##NAME, QUICK, THOROUGH, RULE, 20.0); \
    static void pbt_fn_##NAME(pbt::Case& c)

}
