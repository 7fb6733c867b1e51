#include "pbt.h"
#include <atomic>
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstddef>
#include <csignal>
#include <ctime>
#include <map>
#include <fstream>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>

namespace pbt {

static SubProp* gProps = nullptr;
SubProp::SubProp(const char* n, void (*f)(Case&), uint64_t q, uint64_t t, const char* r, double cpu)
    : name(n), fn(f), quick(q), thorough(t), rule(r), cpuLimit(cpu), next(nullptr) {
    SubProp** p = &gProps; while (*p) p = &(*p)->next; *p = this;
}

static const size_t CAP = 1 << 16, SPANCAP = 1 << 13, NLABEL = 192;
struct LabelSlot { char name[72]; uint64_t n; };
struct Shm {                       // one per worker
    volatile int status;           // 0 idle/running, 1 failed by oracle, 2 finished all, 3 discard, 4 pass (single run)
    volatile uint64_t index;
    volatile uint64_t nChoices, nSpans;
    volatile uint64_t evals, nontrivial, discards;
    uint64_t choices[CAP];
    uint32_t spans[SPANCAP][2];
    LabelSlot labels[NLABEL];
    char msg[8192];
};
static Shm* gShm = nullptr;        // the region this process writes to
static std::atomic<uint64_t>* gSeen = nullptr; static const size_t SEEN = 1 << 22;
static std::atomic<uint64_t>* gDistinct = nullptr;

template <class T> static T* sharedAlloc(size_t n = 1) {
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return static_cast<T*>(p);
}

static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rngNext(uint64_t* s) {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r;
}

uint64_t Case::draw(uint64_t maxIncl) {
    uint64_t v;
    if (mTwin) { if (!mTape || mTapePos >= mTape->size()) { mTwinDiverged = true; return 0; } v = (*mTape)[mTapePos++]; if (v > maxIncl) { mTwinDiverged = true; v = 0; } return v; }
    if (mPos >= CAP) v = 0;
    else if (mRandom) {
        uint64_t r = rngNext(mState);
        v = (maxIncl == UINT64_MAX) ? r : static_cast<uint64_t>((static_cast<unsigned __int128>(r) * (maxIncl + 1)) >> 64);
    }
    else {
        v = mPos < mReplayLen ? mReplay[mPos] : 0;
        if (v > maxIncl) v = (maxIncl == UINT64_MAX) ? v : v % (maxIncl + 1);
    }
    if (mPos < CAP) {
        if (gShm) { gShm->choices[mPos] = v; gShm->nChoices = mPos + 1; }
        mPos++;
    }
    mHash = (mHash ^ v) * 1099511628211ull; mHash ^= mHash >> 29;
    if (mRec) mRec->push_back(v);
    return v;
}

double Case::real(double lo, double hi) {
    uint64_t mode = draw(7);
    if (mode == 0) {
        uint64_t k = draw(16);
        const bool zero = lo <= 0 && hi >= 0;
        if (k == 0) return zero ? 0.0 : lo;
        return lo + (hi - lo) * static_cast<double>(k) / 16.0;
    }
    return unif(lo, hi);
}
double Case::logReal(double lo, double hi) { return std::exp(unif(std::log(lo), std::log(hi))); }
int Case::weighted(std::initializer_list<int> w) {
    int sum = 0; for (int x : w) sum += x;
    int r = static_cast<int>(draw(static_cast<uint64_t>(sum - 1))); int i = 0;
    for (int x : w) { if (r < x) return i; r -= x; i++; }
    return 0;
}
bool Case::more(int& count, double mean, int max) {
    if (count >= max) return false;
    if (!chance(mean / (mean + 1.0))) return false;
    count++; return true;
}
Case::Span::Span(Case& cc) : c(cc), idx(SIZE_MAX) {
    if (gShm && !cc.mTwin && gShm->nSpans < SPANCAP) { idx = gShm->nSpans; gShm->nSpans = idx + 1; gShm->spans[idx][0] = c.mPos; gShm->spans[idx][1] = c.mPos; }
}
Case::Span::~Span() { if (idx != SIZE_MAX) gShm->spans[idx][1] = c.mPos; }

void Case::fail(const char* fmt, ...) {
    char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    throw Failure{buf};
}
void Case::check(bool cond, const char* fmt, ...) {
    if (cond) return;
    char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    throw Failure{buf};
}
void Case::note(const char* fmt, ...) {
    if (!mVerbose || !mLog) return;
    char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (mLog->size() < 20000) { *mLog += buf; *mLog += "\n"; }
    if (getenv("PBT_TRACE")) { fprintf(stderr, "%s\n", buf); fflush(stderr); }
}
void Case::label(const char* name, uint64_t n) {
    if (!gShm || mTwin) return;
    for (size_t i = 0; i < NLABEL; i++) {
        LabelSlot& s = gShm->labels[i];
        if (s.name[0] == 0) { snprintf(s.name, sizeof s.name, "%s", name); s.n = n; return; }
        if (strncmp(s.name, name, sizeof s.name - 1) == 0) { s.n += n; return; }
    }
}

static void onHang(int) {
    if (gShm) { snprintf(gShm->msg, sizeof gShm->msg, "case exceeded its CPU time limit (no termination)"); }
    signal(SIGABRT, SIG_DFL); abort();
}
static void armTimer(double sec) {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = static_cast<long>(sec); it.it_value.tv_usec = static_cast<long>((sec - std::floor(sec)) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}

// Runs one case in this process. Returns 0 pass, 1 fail, 3 discard.
static int runOne(SubProp& sp, Case& c, std::string& msg) {
    gShm->nChoices = 0; gShm->nSpans = 0; gShm->msg[0] = 0;
    armTimer(sp.cpuLimit);
    int r = 0;
    try { sp.fn(c); }
    catch (Failure& f) { msg = f.msg; r = 1; }
    catch (Discard&) { r = 3; }
    catch (std::exception& e) { msg = std::string("C++ exception escaped from the library: ") + e.what(); r = 1; }
    armTimer(0);
    return r;
}
static void seedCase(Case& c, uint64_t seed, const char* prop, const char* sub, uint64_t index) {
    uint64_t x = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    for (const char* s = prop; *s; s++) x = (x ^ static_cast<uint64_t>(*s)) * 1099511628211ull;
    for (const char* s = sub; *s; s++) x = (x ^ static_cast<uint64_t>(*s)) * 1099511628211ull;
    x ^= index * 0xD1342543DE82EF95ull;
    for (int i = 0; i < 4; i++) c.mState[i] = splitmix(x);
    c.mRandom = true; c.mAux = index;
}

struct Outcome { int kind; std::string msg; std::vector<uint64_t> used; std::vector<std::pair<uint32_t, uint32_t>> spans; std::string log; };
// kind: 0 pass, 1 oracle failure, 2 crash/hang, 3 discard

static Shm* gSingle = nullptr;
static std::string gTmp;
static std::string readFile(const std::string& p, size_t maxn = 6000) {
    std::ifstream f(p); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
    if (s.size() > maxn) s = s.substr(0, maxn); return s;
}
static Outcome runForked(SubProp& sp, const std::vector<uint64_t>* choices, uint64_t seed, const char* prop, uint64_t index, bool verbose) {
    gSingle->status = 0; gSingle->nChoices = 0; gSingle->nSpans = 0; gSingle->msg[0] = 0;
    std::string logf = gTmp + "/log", errf = gTmp + "/err";
    unlink(logf.c_str()); unlink(errf.c_str());
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (!getenv("PBT_TRACE")) { dup2(fd, 2); dup2(fd, 1); }
        gShm = gSingle;
        signal(SIGPROF, onHang);
        Case c; std::string log, msg;
        if (choices) { c.mReplay = choices->data(); c.mReplayLen = choices->size(); c.mAux = index; }
        else seedCase(c, seed, prop, sp.name, index);
        c.mVerbose = verbose; c.mLog = &log;
        int r = runOne(sp, c, msg);
        if (verbose) { std::ofstream f(logf); f << log; f.close(); }
        snprintf(gShm->msg, sizeof gShm->msg, "%s", msg.c_str());
        gShm->status = r == 0 ? 4 : r;
        _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    Outcome o;
    if (gSingle->status == 4) o.kind = 0;
    else if (gSingle->status == 1) { o.kind = 1; o.msg = gSingle->msg; }
    else if (gSingle->status == 3) o.kind = 3;
    else {
        o.kind = 2;
        std::string err = readFile(errf);
        o.msg = std::string("process died (") + (WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exit") + "): " + gSingle->msg + " " + err;
    }
    size_t n = gSingle->nChoices;
    o.used.assign(gSingle->choices, gSingle->choices + n);
    for (size_t i = 0; i < gSingle->nSpans; i++) o.spans.push_back({gSingle->spans[i][0], gSingle->spans[i][1]});
    if (verbose) o.log = readFile(logf, 20000);
    return o;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static std::vector<uint64_t> shrink(SubProp& sp, std::vector<uint64_t> best, double budget, int maxEvals, int& evals, Outcome& bestOut) {
    double t0 = now(); evals = 0;
    auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    auto attempt = [&](const std::vector<uint64_t>& cand) -> bool {
        if (evals >= maxEvals || now() - t0 > budget) return false;
        evals++;
        Outcome o = runForked(sp, &cand, 0, "", 0, false);
        if (o.kind != 1 && o.kind != 2) return false;
        std::vector<uint64_t> used = o.used; while (!used.empty() && used.back() == 0) used.pop_back();
        std::vector<uint64_t> c2 = cand; while (!c2.empty() && c2.back() == 0) c2.pop_back();
        const std::vector<uint64_t>& pick = better(used, c2) ? used : c2;
        if (!better(pick, best)) return false;
        best = pick; bestOut = o; return true;
    };
    bool progress = true;
    while (progress && evals < maxEvals && now() - t0 < budget) {
        progress = false;
        // drop whole spans (with the choice before it, usually the "continue" flag)
        for (int extra = 1; extra >= 0; extra--) {
            size_t k = bestOut.spans.size();
            while (k > 0) {
                k--;
                if (k >= bestOut.spans.size()) continue;
                size_t a = bestOut.spans[k].first, b = bestOut.spans[k].second;
                if (a < static_cast<size_t>(extra)) continue;
                a -= extra;
                if (a >= b || a >= best.size()) continue;
                std::vector<uint64_t> cand(best.begin(), best.begin() + a);
                if (b < best.size()) cand.insert(cand.end(), best.begin() + b, best.end());
                if (attempt(cand)) progress = true;
                if (now() - t0 > budget || evals >= maxEvals) break;
            }
        }
        for (size_t len : {64, 32, 16, 8, 4, 3, 2, 1}) {
            for (size_t i = best.size(); i-- > 0;) {
                if (i + len > best.size()) continue;
                std::vector<uint64_t> cand(best.begin(), best.begin() + i);
                cand.insert(cand.end(), best.begin() + i + len, best.end());
                if (attempt(cand)) { progress = true; }
                if (now() - t0 > budget * 0.6 || evals >= maxEvals) break;
            }
        }
        for (size_t len : {32, 8, 2, 1}) {
            for (size_t i = 0; i + len <= best.size(); i += len) {
                bool any = false; for (size_t j = i; j < i + len; j++) any |= best[j] != 0;
                if (!any) continue;
                std::vector<uint64_t> cand = best; for (size_t j = i; j < i + len; j++) cand[j] = 0;
                if (attempt(cand)) progress = true;
            }
        }
        for (size_t i = 0; i < best.size(); i++) {
            for (int step = 0; step < 40 && i < best.size() && best[i] > 0; step++) {
                std::vector<uint64_t> cand = best; cand[i] = best[i] / 2;
                if (attempt(cand)) { progress = true; continue; }
                if (i >= best.size() || best[i] == 0) break;
                cand = best; cand[i] = best[i] - 1;
                if (best[i] < 64 && attempt(cand)) { progress = true; continue; }
                break;
            }
        }
    }
    return best;
}

static std::string jsonEsc(const std::string& s) {
    std::string o; for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += ch;
    } return o;
}

static int replayFile(const std::string& path) {
    std::ifstream f(path); std::string line, sub; std::vector<uint64_t> ch;
    while (std::getline(f, line)) {
        if (line.rfind("sub ", 0) == 0) sub = line.substr(4);
        else if (line.rfind("choices", 0) == 0) { std::stringstream ss(line.substr(7)); uint64_t v; while (ss >> v) ch.push_back(v); }
    }
    for (SubProp* p = gProps; p; p = p->next) if (sub == p->name) {
        Outcome o = runForked(*p, &ch, 0, "", 0, true);
        printf("%s\nresult: %s %s\n", o.log.c_str(), o.kind == 0 ? "pass" : o.kind == 3 ? "discard" : "FAIL", o.msg.c_str());
        return o.kind == 1 || o.kind == 2 ? 1 : 0;
    }
    fprintf(stderr, "no sub-property %s\n", sub.c_str()); return 3;
}

#ifndef PBT_FUZZER
static int mainImpl(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i < argc; i++) {
        std::string k = argv[i];
        if (k.rfind("--", 0) == 0 && i + 1 < argc) a[k.substr(2)] = argv[++i];
    }
    std::string prop = a.count("property") ? a["property"] : "X";
    std::string variant = a.count("variant") ? a["variant"] : "v";
    uint64_t seed = a.count("seed") ? strtoull(a["seed"].c_str(), nullptr, 10) : 1;
    bool thorough = a["tier"] == "thorough";
    double scale = a.count("scale") ? atof(a["scale"].c_str()) : 1.0;
    double cap = a.count("timecap") ? atof(a["timecap"].c_str()) : (thorough ? 7200 : 420);
    int workers = a.count("workers") ? atoi(a["workers"].c_str()) : 8;
    double shrinkBudget = a.count("shrink") ? atof(a["shrink"].c_str()) : 40;
    char tmpl[] = "/tmp/pbtXXXXXX"; gTmp = mkdtemp(tmpl);
    gSingle = sharedAlloc<Shm>();
    struct Cleanup { ~Cleanup() { std::string c = gTmp; unlink((c + "/log").c_str()); unlink((c + "/err").c_str()); for (int w = 0; w < 64; w++) unlink((c + "/w" + std::to_string(w)).c_str()); rmdir(c.c_str()); } } cleanup;
    if (a.count("replay")) { int r = replayFile(a["replay"]); return r; }

    double t0 = now(); std::string json; int violations = 0; bool first = true;
    for (SubProp* p = gProps; p; p = p->next) {
        if (a.count("sub") && a["sub"] != p->name) continue;
        if (violations) break;
        double ts = now();
        uint64_t total = static_cast<uint64_t>(static_cast<double>(thorough ? p->thorough : p->quick) * scale);
        if (total == 0) continue;
        if (a.count("cases")) total = strtoull(a["cases"].c_str(), nullptr, 10);
        Shm* shms = sharedAlloc<Shm>(workers);
        gSeen = sharedAlloc<std::atomic<uint64_t>>(SEEN); gDistinct = sharedAlloc<std::atomic<uint64_t>>(1);
        std::atomic<uint64_t>* nextIdx = sharedAlloc<std::atomic<uint64_t>>(1);
        uint64_t one = a.count("index") ? strtoull(a["index"].c_str(), nullptr, 10) : UINT64_MAX;
        std::vector<pid_t> pids(workers);
        uint64_t chunk = total > 4000 ? 16 : 1;
        uint64_t ev = 0, nt = 0, dis = 0; std::map<std::string, uint64_t> labels;
        std::string samples; int ns = 0; int unrep = 0;
        for (int round = 0; round < 4; round++) {
        fflush(stdout); fflush(stderr);
        for (int w = 0; w < workers; w++) { memset((void*)&shms[w], 0, offsetof(Shm, choices)); memset((void*)shms[w].labels, 0, sizeof shms[w].labels); shms[w].msg[0] = 0; }
        for (int w = 0; w < workers; w++) {
            pid_t pid = fork();
            if (pid == 0) {
                int fd = open((gTmp + "/w" + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1);
                gShm = &shms[w]; signal(SIGPROF, onHang);
                bool stop = false;
                while (!stop) {
                    uint64_t base = nextIdx->fetch_add(chunk);
                    if (base >= total || now() - ts > cap) break;
                    for (uint64_t i = base; i < std::min(base + chunk, total); i++) {
                        if (one != UINT64_MAX && i != one) continue;
                        gShm->index = i;
                        Case c; seedCase(c, seed, prop.c_str(), p->name, i);
                        std::string msg; int r = runOne(*p, c, msg);
                        gShm->evals++;
                        if (r == 1) { snprintf(gShm->msg, sizeof gShm->msg, "%s", msg.c_str()); gShm->status = 1; _exit(1); }
                        if (r == 3) gShm->discards++;
                        else if (c.mNontrivial) {
                            gShm->nontrivial++;
                            uint64_t h = c.mHash ? c.mHash : 1; size_t k = h & (SEEN - 1);
                            for (int probe = 0; probe < 64; probe++) {
                                uint64_t cur = gSeen[k].load(std::memory_order_relaxed);
                                if (cur == h) break;
                                if (cur == 0) { if (gSeen[k].compare_exchange_strong(cur, h)) { (*gDistinct)++; break; } if (cur == h) break; }
                                k = (k + 1) & (SEEN - 1);
                            }
                        }
                    }
                }
                gShm->status = 2; _exit(0);
            }
            pids[w] = pid;
        }
        int badWorker = -1; int left = workers;
        while (left > 0) {
            int st; pid_t pid = wait(&st); left--;
            int w = -1; for (int k = 0; k < workers; k++) if (pids[k] == pid) w = k;
            if (w < 0) continue;
            pids[w] = 0;
            if (shms[w].status != 2 && badWorker < 0) {
                badWorker = w;
                for (int k = 0; k < workers; k++) if (pids[k] > 0) kill(pids[k], SIGKILL);
            }
        }
        for (int w = 0; w < workers; w++) {
            ev += shms[w].evals; nt += shms[w].nontrivial; dis += shms[w].discards;
            for (auto& l : shms[w].labels) if (l.name[0]) labels[l.name] += l.n;
        }
        if (badWorker < 0) break;
        {
            uint64_t idx = shms[badWorker].index;
            fprintf(stderr, "[%s/%s] case %llu failed: %s %s\n", prop.c_str(), p->name, (unsigned long long)idx, shms[badWorker].msg, shms[badWorker].status == 1 ? "" : readFile(gTmp + "/w" + std::to_string(badWorker), 1500).c_str());
            Outcome o0 = runForked(*p, nullptr, seed, prop.c_str(), idx, false);
            bool confirmed = false; std::vector<uint64_t> best = o0.used; Outcome bo = o0; int evals = 0;
            if (o0.kind == 1 || o0.kind == 2) {
                while (!best.empty() && best.back() == 0) best.pop_back();
                best = shrink(*p, best, shrinkBudget, 6000, evals, bo);
                confirmed = true;
                for (int k = 0; k < 3; k++) { Outcome o = runForked(*p, &best, 0, "", 0, false); if (o.kind != 1 && o.kind != 2) confirmed = false; }
                if (!confirmed) {  // the unshrunk case
                    best = o0.used; confirmed = true;
                    for (int k = 0; k < 3; k++) { Outcome o = runForked(*p, &best, 0, "", 0, false); if (o.kind != 1 && o.kind != 2) confirmed = false; }
                }
            }
            if (confirmed) {
                Outcome fin = runForked(*p, &best, 0, "", 0, true);
                std::string dir = a.count("replaydir") ? a["replaydir"] : ".";
                std::string path = dir + "/" + prop + "-" + variant + "-" + p->name + "-" + std::to_string(seed) + ".replay";
                std::ofstream f(path);
                f << "property " << prop << "\nsub " << p->name << "\nvariant " << variant << "\nseed " << seed << " case " << idx << "\nmessage " << jsonEsc(fin.msg) << "\nchoices";
                for (uint64_t v : best) f << " " << v;
                f << "\nlog\n" << fin.log; f.close();
                fprintf(stderr, "[%s/%s] shrunk to %zu choices in %d runs: %s\n%s", prop.c_str(), p->name, best.size(), evals, fin.msg.c_str(), fin.log.c_str());
                printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str()); fflush(stdout);
                violations++;
            } else {
                fprintf(stderr, "[%s/%s] case %llu did not reproduce when run alone; not reported\n", prop.c_str(), p->name, (unsigned long long)idx);
                labels["UNREPRODUCED"]++; unrep++;
            }
            if (confirmed) break;
        }
        }
        if (!violations) {
            for (uint64_t i = 0; i < total && i < 60 && ns < 2; i++) {
                Outcome o = runForked(*p, nullptr, seed, prop.c_str(), i, true);
                if (o.kind != 0 || o.log.size() < 20) continue;
                if (o.log.size() > 1500) o.log = o.log.substr(0, 1500) + "...";
                samples += std::string(ns ? "," : "") + "\"" + jsonEsc(o.log) + "\""; ns++;
            }
        }
        std::string lj; for (auto& l : labels) { lj += (lj.empty() ? "" : ",") + std::string("\"") + jsonEsc(l.first) + "\":" + std::to_string(l.second); }
        double dt = now() - ts;
        char num[256]; snprintf(num, sizeof num, "\"planned\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"discarded\":%llu,\"wall_s\":%.2f", (unsigned long long)total, (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)gDistinct->load(), (unsigned long long)dis, dt);
        json += std::string(first ? "" : ",\n") + "{\"sub\":\"" + p->name + "\",\"variant\":\"" + variant + "\"," + num + ",\"rule\":\"" + jsonEsc(p->rule) + "\",\"classes\":{" + lj + "},\"samples\":[" + samples + "]}";
        first = false;
        fprintf(stderr, "[%s/%s/%s] cases=%llu nontrivial=%llu distinct=%llu discarded=%llu %.1fs\n", prop.c_str(), variant.c_str(), p->name, (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)gDistinct->load(), (unsigned long long)dis, dt);
        if (a.count("stats")) for (auto& l : labels) fprintf(stderr, "    %-50s %llu\n", l.first.c_str(), (unsigned long long)l.second);
        munmap(shms, sizeof(Shm) * workers); munmap(gSeen, sizeof(*gSeen) * SEEN); munmap(gDistinct, 8); munmap(nextIdx, 8);
    }
    if (a.count("out")) { std::ofstream f(a["out"]); f << "{\"wall_s\":" << now() - t0 << ",\"violations\":" << violations << ",\"subs\":[" << json << "]}\n"; }
    return violations ? 1 : 0;
}
#endif
}

#ifndef PBT_FUZZER
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
#else
// libFuzzer entry: bytes -> choices (8 bytes little endian windows keep structure: one byte of width, then value)
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    using namespace pbt;
    static SubProp* sp = nullptr;
    if (!sp) {
        const char* want = getenv("PBT_SUB");
        for (SubProp* p = gProps; p; p = p->next) if (!want || !strcmp(want, p->name)) { sp = p; break; }
        gShm = sharedAlloc<Shm>();
        if (!sp) abort();
    }
    std::vector<uint64_t> ch;
    size_t i = 0;
    while (i < size && ch.size() < 20000) {
        unsigned w = data[i] & 7; i++; uint64_t v = 0;
        for (unsigned k = 0; k < w && i < size; k++) v |= static_cast<uint64_t>(data[i++]) << (8 * k);
        if (w == 0) v = data[i - 1] >> 3;
        ch.push_back(v);
    }
    Case c; c.mReplay = ch.data(); c.mReplayLen = ch.size();
    gShm->nChoices = 0; gShm->nSpans = 0;
    memset(gShm->labels, 0, sizeof gShm->labels);
    try { sp->fn(c); }
    catch (Discard&) {}
    catch (Failure& f) {
        if (const char* out = getenv("PBT_FUZZ_OUT")) {
            std::ofstream o(out); o << "sub " << sp->name << "\nmessage " << f.msg << "\nchoices"; for (auto v : ch) o << " " << v; o << "\n"; }
        fprintf(stderr, "ORACLE FAILURE: %s\n", f.msg.c_str()); __builtin_trap();
    }
    return 0;
}
#endif
