#include "pbt.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <math.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <map>
#include <set>
#include <atomic>
#include <new>
#include <algorithm>
#include <fstream>
#include <typeinfo>
#include <cxxabi.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define PBT_TSAN 1
#endif
#endif

// ---------------------------------------------------------------- sanitizer options
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=1:"
           "detect_stack_use_after_return=0:malloc_context_size=12:symbolize=1:quarantine_size_mb=32:"
           "max_allocation_size_mb=4096:detect_odr_violation=0:alloc_dealloc_mismatch=0:allow_user_segv_handler=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
extern "C" const char* __tsan_default_options() {
    return "halt_on_error=1:exitcode=77:second_deadlock_stack=1:report_signal_unsafe=0:detect_deadlocks=0:history_size=4:"
           "report_thread_leaks=0:report_destroy_locked=0:die_after_fork=0:abort_on_error=0:handle_abort=1";
}

// ---------------------------------------------------------------- assert replacement
extern "C" __attribute__((noreturn, visibility("default")))
void epicsAssert(const char* file, const unsigned line, const char* exp, const char*)
{
    pbt::AssertHit h; 
    const char* b = strrchr(file, '/');
    h.where = std::string(b ? b + 1 : file) + ":" + std::to_string(line);
    h.expr = exp;
    throw h;
}

// ---------------------------------------------------------------- allocation accounting
namespace {
std::atomic<long> gLive(0), gBytes(0);
std::atomic<size_t> gLimit((size_t)256 << 20);
std::atomic<long> gFail(0), gCount(0), gTotal(0);
void* doNew(size_t n) {
    gCount.fetch_add(1, std::memory_order_relaxed);
    if(gFail.load(std::memory_order_relaxed) > 0 && gFail.fetch_sub(1, std::memory_order_relaxed) == 1) throw std::bad_alloc();
    if(n > gLimit.load(std::memory_order_relaxed)) { pbt::g_allocTripped = true; throw std::bad_alloc(); }
    void* p = malloc(n ? n : 1);
    if(!p) { pbt::g_allocTripped = true; throw std::bad_alloc(); }
    gLive.fetch_add(1, std::memory_order_relaxed);
    gBytes.fetch_add((long)malloc_usable_size(p), std::memory_order_relaxed);
    gTotal.fetch_add((long)n, std::memory_order_relaxed);
    return p;
}
void doDel(void* p) noexcept {
    if(!p) return;
    gLive.fetch_sub(1, std::memory_order_relaxed);
    gBytes.fetch_sub((long)malloc_usable_size(p), std::memory_order_relaxed);
    free(p);
}
}
void* operator new(size_t n) { return doNew(n); }
void* operator new[](size_t n) { return doNew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return doNew(n); } catch(...) { return 0; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return doNew(n); } catch(...) { return 0; } }
void operator delete(void* p) noexcept { doDel(p); }
void operator delete[](void* p) noexcept { doDel(p); }
void operator delete(void* p, size_t) noexcept { doDel(p); }
void operator delete[](void* p, size_t) noexcept { doDel(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { doDel(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { doDel(p); }

namespace pbt {
bool g_allocTripped = false;
long liveAllocs() { return gLive.load(); }
long liveBytes() { return gBytes.load(); }
void failAlloc(long nth) { gFail.store(nth); }
long allocCount() { return gCount.load(); }
long allocTotal() { return gTotal.load(); }
bool allocFailed() { return gFail.load() <= 0; }
void allocLimit(size_t one) { gLimit.store(one); }

void Src::seed(uint64_t a) {
    // splitmix to fill
    for(int i = 0; i < 2; i++) {
        a += 0x9e3779b97f4a7c15ull; uint64_t z = a;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; s[i] = z ^ (z >> 31);
    }
}
uint64_t Src::next() { // xorshift128+
    uint64_t x = s[0], y = s[1]; s[0] = y; x ^= x << 23;
    s[1] = x ^ y ^ (x >> 17) ^ (y >> 26); return s[1] + y;
}
uint64_t Src::draw(uint64_t n) {
    uint64_t v;
    if(replay) {
        v = pos < rec.size() ? rec[pos] : 0;
        pos++;
        if(n && v >= n) v = v % n;
        return v;
    }
    uint64_t r = next() >> 1; r ^= next() << 20;
    v = n ? r % n : r;
    rec.push_back(v); pos++;
    return v;
}

std::string hex(const void* p, size_t n) {
    static const char d[] = "0123456789abcdef"; std::string o; const unsigned char* b = (const unsigned char*)p;
    for(size_t i = 0; i < n; i++) { if(i == 200) { o += "...(" + std::to_string(n) + ")"; break; } o += d[b[i] >> 4]; o += d[b[i] & 15]; if(i % 4 == 3) o += ' '; }
    return o;
}
std::string quote(const std::string& s) {
    std::string o = "\""; char b[8];
    for(size_t i = 0; i < s.size(); i++) {
        unsigned char ch = s[i];
        if(i >= 200) { o += "...(" + std::to_string(s.size()) + ")"; break; }
        if(ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if(ch < 32 || ch >= 127) { snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
        else o += (char)ch;
    }
    return o + "\"";
}

static std::vector<Test>& tests() { static std::vector<Test> t; return t; }
Register::Register(const char* n, TestFn f, unsigned q, unsigned t, bool racy) {
    Test x; x.name = n; x.fn = f; x.quick = q; x.thorough = t; x.racy = racy; x.weight = 1; tests().push_back(x);
}
} // namespace pbt

using namespace pbt;

static uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) {
    for(size_t i = 0; i < s.size(); i++) { h ^= (unsigned char)s[i]; h *= 1099511628211ull; }
    return h;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- running one case
struct Outcome { bool failed = false; bool discarded = false; std::string key, msg; };

static std::string demangle(const char* n) {
    int st = 0; char* d = abi::__cxa_demangle(n, 0, 0, &st); std::string o = d ? d : n; free(d); return o;
}

static Outcome runCase(const Test& t, Ctx& c) {
    Outcome o;
    g_allocTripped = false;
    try { t.fn(c); }
    catch(Fail& f) { o.failed = true; o.key = f.key; o.msg = f.msg; }
    catch(Discard&) { o.discarded = true; }
    catch(AssertHit& a) { o.failed = true; o.key = "assert:" + a.where.substr(0, a.where.find(':')); o.msg = "internal assertion failed at " + a.where + ": " + a.expr; }
    catch(std::exception& e) { o.failed = true; o.key = std::string("exception:") + demangle(typeid(e).name()); o.msg = std::string("unexpected exception ") + demangle(typeid(e).name()) + ": " + e.what(); }
    catch(...) { o.failed = true; o.key = "exception:unknown"; o.msg = "unexpected non-standard exception"; }
    if(o.failed) o.key = std::string(t.name) + "/" + o.key;
    return o;
}

// ---------------------------------------------------------------- shared state
enum { MAXW = 16, NLAB = 400, LABSZ = 60, NSAMP = 24, SAMPSZ = 1500, MAXH = 1 << 21, RECMAX = 1 << 20 };
struct WorkerShm {
    volatile int test; volatile long idx; volatile long started; // counters
    volatile double caseStart;
    long evals, discards, interesting;
    long perTest[64], perTestNT[64];
    char lab[NLAB][LABSZ]; long labn[NLAB]; int nlab;
    char samp[NSAMP][SAMPSZ]; int nsamp;
    long nh; uint64_t h[MAXH];
    // failure found by exception
    int failed; char key[400]; char msg[8000]; char cdesc[16000];
    long nrec; uint64_t rec[RECMAX];
    volatile int done, stop;
};
static WorkerShm* W;

static void addLabel(WorkerShm* w, const std::string& l) {
    for(int i = 0; i < w->nlab; i++) if(!strncmp(w->lab[i], l.c_str(), LABSZ - 1)) { w->labn[i]++; return; }
    if(w->nlab < NLAB) { strncpy(w->lab[w->nlab], l.c_str(), LABSZ - 1); w->labn[w->nlab] = 1; w->nlab++; }
}
static void setFailure(WorkerShm* w, const Outcome& o, const Ctx& c) {
    snprintf(w->key, sizeof w->key, "%s", o.key.c_str());
    snprintf(w->msg, sizeof w->msg, "%s", o.msg.c_str());
    snprintf(w->cdesc, sizeof w->cdesc, "%s", c.desc.str().c_str());
    w->nrec = std::min<long>(c.src.rec.size(), RECMAX);
    std::copy(c.src.rec.begin(), c.src.rec.begin() + w->nrec, w->rec);
    w->failed = 1;
}

struct Options {
    std::string prop, tier = "quick", verif, replay, rule, known; uint64_t seed = 1; int workers = 8; double cap = 0; double scale = 1;
    std::string only; bool list = false; bool fuzzdump = false; std::string builddesc; long one = -1; double minutes = 0; bool fast = false;
} opt;
static std::map<std::string, std::string> knownKeys; // key -> text

static uint64_t caseSeed(const Test& t, long idx) { return fnv(t.name, fnv(std::to_string(opt.seed) + "/" + std::to_string(idx))); }
static long casesOf(const Test& t) { 
    double n = (opt.tier == "thorough" ? t.thorough : t.quick) * opt.scale; return n < 1 ? (n > 0 ? 1 : 0) : (long)n; }

static void quiet(const std::string& file) {
    int fd = open(file.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
    if(fd >= 0) { dup2(fd, 2); close(fd); }
    fd = open("/dev/null", O_WRONLY); if(fd >= 0) { dup2(fd, 1); close(fd); }
}
void (*pbt::workerStart)();
static void childSetup(const std::string& errfile) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
    quiet(errfile);
    if(pbt::workerStart) pbt::workerStart();
}

// worker: order of cases is round robin over tests so that a capped run still touches everything
struct Plan { int test; long idx; };
static std::vector<Plan> makePlan() {
    std::vector<std::pair<double, Plan> > tmp;
    for(size_t t = 0; t < tests().size(); t++) {
        if(!opt.only.empty() && opt.only != tests()[t].name) continue;
        long n = casesOf(tests()[t]);
        for(long i = 0; i < n; i++) { Plan p = {(int)t, i}; tmp.push_back(std::make_pair((i + 0.5) / n, p)); }
    }
    std::stable_sort(tmp.begin(), tmp.end(), [](const std::pair<double, Plan>& a, const std::pair<double, Plan>& b) { return a.first < b.first; });
    std::vector<Plan> o; for(auto& x : tmp) o.push_back(x.second); return o;
}

static void runWorker(int w, const std::vector<Plan>& plan, size_t from, double deadline) {
    WorkerShm* s = &W[w];
    for(size_t i = from; i < plan.size(); i += opt.workers) {
        if(s->stop || now() > deadline) break;
        const Test& t = tests()[plan[i].test];
        s->test = plan[i].test; s->idx = plan[i].idx; s->caseStart = now(); s->started = (long)i + 1;
        Ctx c; c.src.seed(caseSeed(t, plan[i].idx));
        Outcome o = runCase(t, c);
        s->evals++; if(plan[i].test < 64) s->perTest[plan[i].test]++;
        if(o.discarded) { s->discards++; continue; }
        if(o.failed) {
            setFailure(s, o, c);
            // leave; the parent confirms and restarts us after this case if need be
            _exit(66);
        }
        for(auto& l : c.labels) addLabel(s, std::string(t.name) + ": " + l);
        if(c.interesting) {
            s->interesting++; if(plan[i].test < 64) s->perTestNT[plan[i].test]++;
            std::string d = c.desc.str(); uint64_t h = fnv(t.name, fnv(d));
            if(d.empty()) for(auto v : c.src.rec) { h ^= v; h *= 1099511628211ull; }
            if(s->nh < MAXH) s->h[s->nh++] = h;
            static int per[64]; int& np = per[plan[i].test & 63];
            if(s->nsamp < NSAMP && np < 1 && (h >> 5) % 7 < 3 && d.size() < SAMPSZ - 100) { np++;
                snprintf(s->samp[s->nsamp++], SAMPSZ, "%s#%ld: %s", t.name, plan[i].idx, d.c_str());
            }
        }
    }
    s->done = 1;
    _exit(0);
}

// ---------------------------------------------------------------- isolated runs
static std::string slurp(const std::string& f) { std::ifstream i(f.c_str()); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::string crashKey(const std::string& err, int status) {
    size_t p = err.find("SUMMARY: ");
    std::string k;
    if(p != std::string::npos) {
        std::string l = err.substr(p + 9, err.find('\n', p) - p - 9);
        // "AddressSanitizer: heap-buffer-overflow /path/f.cpp:12:3 in fn(...)"
        std::istringstream is(l); std::string a, b; is >> a >> b;
        k = a + b;
        size_t q = l.find(" in "); 
        if(q != std::string::npos) { std::string fn = l.substr(q + 4); fn = fn.substr(0, fn.find('(')); if(fn.size() > 100) fn.resize(100); k += "@" + fn; }
    } else if((p = err.find("runtime error: ")) != std::string::npos) {
        k = "UBSan:" + err.substr(p + 15, std::min<size_t>(60, err.find('\n', p) - p - 15));
    } else if(err.find("terminate called") != std::string::npos) k = "terminate";
    else if(err.find("Assertion") != std::string::npos) k = "abort-assert";
    else if(WIFSIGNALED(status)) k = std::string("signal") + std::to_string(WTERMSIG(status));
    else k = "exit" + std::to_string(WEXITSTATUS(status));
    return "crash:" + k;
}
static std::string workdir;

// run `rec` of test t in a forked child.  returns outcome; hang -> key hang
static Outcome isolated(int ti, const std::vector<uint64_t>& rec, double timeout, int repeats = 1, std::string* desc = 0, std::vector<uint64_t>* used = 0) {
    WorkerShm* s = &W[MAXW]; 
    s->failed = 0; s->key[0] = s->msg[0] = s->cdesc[0] = 0;
    std::string err = workdir + "/iso.err"; unlink(err.c_str());
    pid_t p = fork();
    if(p == 0) {
        childSetup(err);
        Outcome o; 
        for(int r = 0; r < repeats; r++) {
            Ctx c; c.src.rec = rec; c.src.replay = true;
            o = runCase(tests()[ti], c);
            if(o.failed || r + 1 == repeats) {
                snprintf(s->cdesc, sizeof s->cdesc, "%s", c.desc.str().c_str());
                c.src.rec.resize(std::min(c.src.rec.size(), c.src.pos));
                if(o.failed) { setFailure(s, o, c); _exit(66); }
                _exit(o.discarded ? 5 : 0);
            }
        }
        _exit(0);
    }
    Outcome o; double t0 = now(); int st = 0;
    while(true) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if(r == p) break;
        if(now() - t0 > timeout) { kill(p, SIGKILL); waitpid(p, &st, 0); o.failed = true; o.key = std::string(tests()[ti].name) + "/hang"; o.msg = "no answer within the time limit"; return o; }
        usleep(now() - t0 < 0.05 ? 200 : 5000);
    }
    if(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 5)) { o.discarded = WEXITSTATUS(st) == 5; if(desc) *desc = s->cdesc; return o; }
    o.failed = true;
    if(WIFEXITED(st) && WEXITSTATUS(st) == 66 && s->failed) { o.key = s->key; o.msg = s->msg; if(desc) *desc = s->cdesc; if(used) used->assign(s->rec, s->rec + s->nrec); }
    else { std::string e = slurp(err); o.key = std::string(tests()[ti].name) + "/" + crashKey(e, st); o.msg = "crashed: " + e.substr(0, 6000); }
    return o;
}
static bool sameKind(const std::string& a, const std::string& b) { 
    auto norm = [](std::string s) { size_t p = s.find("crash:"); if(p != std::string::npos) return s.substr(0, p + 6); return s; };
    return norm(a) == norm(b);
}

// simpler = shorter, then smaller
static std::vector<uint64_t> shrink(int ti, std::vector<uint64_t> best, const std::string& key, double budget, long* tries) {
    double end = now() + budget; long n = 0; int reps = tests()[ti].racy ? 25 : 1;
    auto bad = [&](const std::vector<uint64_t>& r, std::vector<uint64_t>* used) {
        n++; Outcome o = isolated(ti, r, 20, reps, 0, used); return o.failed && !knownKeys.count(o.key) && sameKind(o.key, key); };
    bool progress = true;
    while(progress && now() < end && n < 4000) {
        progress = false;
        for(size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && now() < end; len /= 2) {
            for(size_t i = best.size(); i > 0 && now() < end;) { // delete chunks from the end
                size_t a = i >= len ? i - len : 0;
                std::vector<uint64_t> t(best); t.erase(t.begin() + a, t.begin() + std::min(i, t.size()));
                std::vector<uint64_t> used;
                if(t.size() < best.size() && bad(t, &used)) { best = t; progress = true; i = std::min(a + len, best.size()); if(a == 0) i = std::min(i, best.size()); if(best.empty()) break; if(i > best.size()) i = best.size(); if(a == 0) break; i = a; }
                else { if(a == 0) break; i = a; }
            }
            for(size_t a = 0; a < best.size() && now() < end; a += len) { // zero chunks
                std::vector<uint64_t> t(best); bool ch = false;
                for(size_t k = a; k < std::min(a + len, t.size()); k++) if(t[k]) { t[k] = 0; ch = true; }
                if(ch && bad(t, 0)) { best = t; progress = true; }
            }
        }
        for(size_t i = 0; i < best.size() && now() < end; i++) { // minimize values
            uint64_t hi = best[i]; if(!hi) continue;
            uint64_t lo = 0; // binary search for a smaller failing value
            for(int k = 0; k < 14 && lo < hi && now() < end; k++) {
                uint64_t mid = lo + (hi - lo) / 2; std::vector<uint64_t> t(best); t[i] = mid;
                if(bad(t, 0)) { best = t; hi = mid; progress = true; } else lo = mid + 1;
            }
        }
    }
    while(!best.empty() && best.back() == 0) best.pop_back();
    if(tries) *tries = n;
    return best;
}

static std::string jstr(const std::string& s) {
    std::string o = "\""; char b[10];
    for(unsigned char ch : s) {
        if(ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if(ch < 32 || ch >= 127) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += (char)ch;
    }
    return o + "\"";
}

static void mkdirs(const std::string& d) { std::string p; for(size_t i = 0; i <= d.size(); i++) if(i == d.size() || d[i] == '/') { p = d.substr(0, i); if(!p.empty()) mkdir(p.c_str(), 0755); } }

static std::string writeReplay(int ti, const std::vector<uint64_t>& rec, const Outcome& o, const std::string& desc) {
    std::string dir = opt.verif + "/replays"; mkdirs(dir);
    std::string keyh = std::to_string(fnv(o.key) % 1000000);
    std::string f = dir + "/" + opt.prop + "-" + tests()[ti].name + "-" + keyh + ".replay";
    std::ofstream out(f.c_str());
    out << "# property " << opt.prop << " test " << tests()[ti].name << "\n# replay: bin/check " << opt.prop << " --replay " << f << "\n";
    out << "# key: " << o.key << "\n";
    std::istringstream m(o.msg + "\n--- case:\n" + desc); std::string l; while(std::getline(m, l)) out << "# " << l << "\n";
    out << "test " << tests()[ti].name << "\n";
    out << "choices"; for(auto v : rec) out << " " << v; out << "\n";
    return f;
}

int main(int argc, char** argv)
{
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if(a == "--prop") opt.prop = val(); else if(a == "--tier") opt.tier = val(); else if(a == "--seed") opt.seed = strtoull(val().c_str(), 0, 0);
        else if(a == "--verif") opt.verif = val(); else if(a == "--replay") opt.replay = val(); else if(a == "--rule") opt.rule = val();
        else if(a == "--workers") opt.workers = atoi(val().c_str()); else if(a == "--cap") opt.cap = atof(val().c_str());
        else if(a == "--scale") opt.scale = atof(val().c_str()); else if(a == "--only") opt.only = val(); else if(a == "--known") opt.known = val();
        else if(a == "--desc") opt.builddesc = val(); else if(a == "--one") opt.one = atol(val().c_str());
        else if(a == "--list") opt.list = true;
        else if(a == "--fast") opt.fast = true; // development: stop at the first unconfirmed failure
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if(opt.list) { for(auto& t : tests()) printf("%s quick=%u thorough=%u\n", t.name, t.quick, t.thorough); return 0; }
    std::sort(tests().begin(), tests().end(), [](const Test& a, const Test& b) { return strcmp(a.name, b.name) < 0; });
    if(opt.workers > MAXW) opt.workers = MAXW;
    char tmpl[] = "/tmp/pbtXXXXXX"; workdir = mkdtemp(tmpl);
    struct Clean { pid_t me; ~Clean() { if(getpid() != me) return; std::string c = "rm -rf " + workdir; if(system(c.c_str())) {} } } clean = { getpid() };
    W = (WorkerShm*)mmap(0, sizeof(WorkerShm) * (MAXW + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(W == MAP_FAILED) { perror("mmap"); return 2; }
    double t0 = now();

    // known findings: lines  "known: property=P13 key=<key> <text>"
    struct KF { std::string key, text; bool seen; }; std::vector<KF> kfs;
    if(!opt.known.empty()) {
        std::ifstream in(opt.known.c_str()); std::string l; std::string pre = "known: property=" + opt.prop + " key=";
        while(std::getline(in, l)) if(l.compare(0, pre.size(), pre) == 0) {
            size_t e = l.find(' ', pre.size()); KF k; k.key = l.substr(pre.size(), e - pre.size()); k.text = e == std::string::npos ? "" : l.substr(e + 1); k.seen = false;
            kfs.push_back(k); knownKeys[k.key] = k.text;
        }
    }
    auto testIndex = [&](const std::string& n) { for(size_t i = 0; i < tests().size(); i++) if(n == tests()[i].name) return (int)i; return -1; };

    if(!opt.replay.empty()) {
        std::ifstream in(opt.replay.c_str()); std::string l, tn; std::vector<uint64_t> rec;
        while(std::getline(in, l)) {
            if(l.empty() || l[0] == '#') continue; std::istringstream is(l); std::string w; is >> w;
            if(w == "test") is >> tn; else if(w == "choices") { uint64_t v; while(is >> v) rec.push_back(v); }
        }
        int ti = testIndex(tn); if(ti < 0) { fprintf(stderr, "bad replay file\n"); return 2; }
        std::string desc; Outcome o = isolated(ti, rec, 60, tests()[ti].racy ? 100 : 1, &desc);
        printf("case: %s\n%s\n%s\n", desc.c_str(), o.failed ? "FAILS" : (o.discarded ? "discarded" : "passes"), o.msg.c_str());
        if(o.failed) { printf("VIOLATION property=%s replay=%s\n", opt.prop.c_str(), opt.replay.c_str()); return 1; }
        return 0;
    }
    if(opt.one >= 0) { if(pbt::workerStart) pbt::workerStart(); // run a single case in-process (debugging)
        int ti = testIndex(opt.only); Ctx c; c.src.seed(caseSeed(tests()[ti], opt.one)); Outcome o = runCase(tests()[ti], c);
        printf("%s\n%s %s\n%s\n", c.desc.str().c_str(), o.failed ? "FAIL" : "ok", o.key.c_str(), o.msg.c_str()); return o.failed;
    }

    std::vector<Plan> plan = makePlan();
    double cap = opt.cap > 0 ? opt.cap : (opt.tier == "thorough" ? 1500 : 240);
    double deadline = t0 + cap;
    std::vector<pid_t> pid(opt.workers, 0); std::vector<size_t> pos(opt.workers);
    auto start = [&](int w, size_t from) {
        W[w].failed = 0; W[w].done = 0; W[w].started = 0; W[w].caseStart = now();
        pid_t p = fork();
        if(p == 0) { childSetup(workdir + "/w" + std::to_string(w) + ".err"); runWorker(w, plan, from, deadline); }
        pid[w] = p;
    };
    std::map<std::string, long> knownHits; long unconfirmed = 0; std::vector<std::string> unconfirmedMsgs; 
    int violations = 0; std::string vioLine; long shrinkTries = 0;
    const double HANG = opt.fast ? 20 : 60;
    for(int w = 0; w < opt.workers; w++) { pos[w] = w; start(w, w); }
    int alive = opt.workers; int restarts = 0;
    while(alive > 0) {
        int st; pid_t r = waitpid(-1, &st, WNOHANG); int w = -1; bool hang = false;
        if(r > 0) { for(int i = 0; i < opt.workers; i++) if(pid[i] == r) w = i; if(w < 0) continue; }
        else {
            for(int i = 0; i < opt.workers; i++) if(pid[i] && W[i].started && now() - W[i].caseStart > HANG) { w = i; hang = true; kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); break; }
            if(w < 0) { usleep(20000); continue; }
        }
        pid[w] = 0;
        if(!hang && W[w].done) { alive--; continue; }
        // a failure, crash or hang in plan position W[w].started-1
        long pp = (long)W[w].started - 1; if(pp < 0) { fprintf(stderr, "worker died at start: %s\n", slurp(workdir + "/w" + std::to_string(w) + ".err").substr(0, 3000).c_str()); return 2; }
        int ti = plan[pp].test; Outcome o; std::string desc; std::vector<uint64_t> rec;
        if(W[w].failed) { o.failed = true; o.key = W[w].key; o.msg = W[w].msg; desc = W[w].cdesc; rec.assign(W[w].rec, W[w].rec + W[w].nrec); }
        else {
            std::string e = slurp(workdir + "/w" + std::to_string(w) + ".err"); o.failed = true;
            o.key = std::string(tests()[ti].name) + "/" + (hang ? std::string("hang") : crashKey(e, st)); o.msg = (hang ? "no answer within the time limit " : "crashed: ") + e.substr(0, 6000);
            // regenerate the choice sequence: run in a child that records choices as it goes
            WorkerShm* s = &W[MAXW]; s->nrec = 0; 
            pid_t p = fork();
            if(p == 0) {
                childSetup(workdir + "/rec.err"); 
                Ctx* c = new Ctx; c->src.seed(caseSeed(tests()[ti], plan[pp].idx));
                struct Rec { }; 
                // publish the recording from a signal-proof place: copy after each draw is expensive, so
                // pre-generate a long stream: draws are rec'd modulo n, which replays identically
                for(long k = 0; k < RECMAX / 16; k++) { uint64_t v = c->src.next() >> 1; v ^= c->src.next() << 20; s->rec[k] = v; s->nrec = k + 1; }
                _exit(0);
            }
            int st2; waitpid(p, &st2, 0);
            rec.assign(s->rec, s->rec + s->nrec);
        }
        unlink((workdir + "/w" + std::to_string(w) + ".err").c_str());
        if(knownKeys.count(o.key)) { knownHits[o.key]++; }
        else if(opt.fast) { printf("VIOLATION property=%s FAST key %s: %s\n", opt.prop.c_str(), o.key.c_str(), o.msg.substr(0, 300).c_str()); fflush(stdout); for(int i = 0; i < opt.workers; i++) if(pid[i]) kill(pid[i], SIGKILL); return 1; }
        else {
            // confirm three times in isolation
            int again = 0; Outcome conf; std::vector<uint64_t> used; double tmo = hang ? 45 : 60;
            int reps = tests()[ti].racy ? 60 : 1;
            bool confirmed;
            if(tests()[ti].racy) { int n = 0; for(int k = 0; k < 6 && !n; k++) { conf = isolated(ti, rec, 90, reps, &desc, &used); if(conf.failed) n++; } confirmed = n > 0; again = n; }
            else { for(int k = 0; k < 3; k++) { Outcome x = isolated(ti, rec, tmo, 1, &desc, &used); if(x.failed) { again++; conf = x; } else break; } confirmed = again == 3; }
            if(!confirmed && !tests()[ti].racy && !hang) {
                // depends on what ran before in the same process: repeat the worker's whole sequence
                int seq = 0; 
                for(int k = 0; k < 2; k++) {
                    WorkerShm* s = &W[w]; std::vector<char> save((char*)s, (char*)s + offsetof(WorkerShm, h));
                    s->failed = 0; s->done = 0; s->started = 0; pid_t p = fork();
                    if(p == 0) { childSetup(workdir + "/seq.err"); runWorker(w, std::vector<Plan>(plan.begin(), plan.begin() + pp + 1), w, now() + 300); }
                    int s2; waitpid(p, &s2, 0); bool bad = !s->done; memcpy(s, &save[0], save.size());
                    if(bad) seq++;
                }
                if(seq == 2) { confirmed = true; conf = o; used.clear(); o.msg += "\n(depends on earlier cases of the same process; replay runs the sequence)"; }
            }
            if(knownKeys.count(conf.key)) { knownHits[conf.key]++; }
            else if(confirmed) {
                for(int i = 0; i < opt.workers; i++) if(pid[i]) { kill(pid[i], SIGKILL); int x; waitpid(pid[i], &x, 0); pid[i] = 0; }
                if(!used.empty()) rec = used;
                std::vector<uint64_t> small = rec;
                if(again) {
                    // trim the over-long stream recovered from a crash first
                    small = hang ? rec : shrink(ti, rec, conf.key, opt.tier == "thorough" ? 120 : 40, &shrinkTries);
                    Outcome x = hang ? conf : isolated(ti, small, 60, reps, &desc); if(x.failed) conf = x; else { small = rec; }
                }
                std::string f = writeReplay(ti, small, conf, desc);
                printf("case: %s\n%s\nkey: %s\n", desc.substr(0, 4000).c_str(), conf.msg.substr(0, 4000).c_str(), conf.key.c_str());
                vioLine = "VIOLATION property=" + opt.prop + " replay=" + f;
                violations = 1; alive = 0; break;
            } else { unconfirmed++; if(unconfirmedMsgs.size() < 5) unconfirmedMsgs.push_back(o.key + ": " + o.msg.substr(0, 500)); }
        }
        // restart after the failing case
        if(++restarts > 400) { for(int i = 0; i < opt.workers; i++) W[i].stop = 1; alive--; continue; }
        size_t nxt = pp + opt.workers;
        if(nxt >= plan.size()) { alive--; continue; }
        start(w, nxt);
    }

    // ---- evidence
    long evals = 0, disc = 0, inter = 0; std::map<std::string, long> labs; std::set<uint64_t> hs; std::vector<std::string> samples; std::vector<long> pt(64, 0), ptn(64, 0);
    for(int w = 0; w < opt.workers; w++) {
        evals += W[w].evals; disc += W[w].discards; inter += W[w].interesting;
        for(int i = 0; i < W[w].nlab; i++) labs[W[w].lab[i]] += W[w].labn[i];
        for(long i = 0; i < W[w].nh; i++) hs.insert(W[w].h[i]);
        for(int i = 0; i < W[w].nsamp; i++) samples.push_back(W[w].samp[i]);
        for(int i = 0; i < 64; i++) { pt[i] += W[w].perTest[i]; ptn[i] += W[w].perTestNT[i]; }
    }
    bool capped = now() > deadline;
    std::string ev = opt.verif + "/evidence"; mkdirs(ev); ev += "/" + opt.prop + ".json";
    {
        std::ofstream out(ev.c_str());
        out << "{\n \"property\": " << jstr(opt.prop) << ",\n \"tier\": " << jstr(opt.tier) << ",\n \"seed\": " << opt.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
        out << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << hs.size() << ",\n  \"nontrivial\": " << inter << ",\n  \"discarded\": " << disc << ",\n";
        out << "  \"rule\": " << jstr(opt.rule) << ",\n  \"planned\": " << plan.size() << ",\n  \"stopped_by_time_cap\": " << (capped ? "true" : "false") << ",\n  \"unconfirmed_failures\": " << unconfirmed << ",\n";
        out << "  \"unconfirmed\": ["; for(size_t i = 0; i < unconfirmedMsgs.size(); i++) out << (i ? ", " : "") << jstr(unconfirmedMsgs[i]); out << "],\n";
        out << "  \"tests\": {"; bool first = true;
        for(size_t i = 0; i < tests().size() && i < 64; i++) { out << (first ? "" : ", ") << "\n   " << jstr(tests()[i].name) << ": {\"evaluations\": " << pt[i] << ", \"nontrivial\": " << ptn[i] << "}"; first = false; }
        out << "\n  },\n  \"labels\": {"; first = true;
        for(auto& l : labs) { out << (first ? "" : ", ") << "\n   " << jstr(l.first) << ": " << l.second; first = false; }
        out << "\n  },\n  \"known_finding_hits\": {"; first = true;
        for(auto& k : knownHits) { out << (first ? "" : ", ") << jstr(k.first) << ": " << k.second; first = false; }
        out << "},\n  \"shrink_attempts\": " << shrinkTries << ",\n  \"build\": " << jstr(opt.builddesc) << ",\n  \"samples\": [";
        // spread samples over tests
        std::vector<std::string> pickd; std::map<std::string, std::vector<std::string> > byT;
        for(auto& x : samples) byT[x.substr(0, x.find('#'))].push_back(x);
        for(size_t k = 0; k < 3; k++) for(auto& t : byT) if(k < t.second.size() && pickd.size() < 20) pickd.push_back(t.second[k]);
        for(size_t i = 0; i < pickd.size(); i++) out << (i ? "," : "") << "\n   " << jstr(pickd[i]); 
        out << "\n  ]\n },\n \"assumptions\": [\"failures are confirmed by re-running the recorded choices in a fresh process\"],\n \"violations\": " << violations << ",\n \"wall_s\": " << (now() - t0) << "\n}\n";
    }
    for(auto& k : kfs) if(knownHits.count(k.key)) printf("KNOWN-FINDING: property=%s %s\n", opt.prop.c_str(), k.text.c_str());
    printf("%s %s: %ld cases, %ld non-trivial (%zu distinct), %ld discarded, %ld unconfirmed, %.1fs%s\n", opt.prop.c_str(), opt.tier.c_str(), evals, inter, hs.size(), disc, unconfirmed, now() - t0, capped ? " (time cap)" : "");
    for(auto& m : unconfirmedMsgs) printf("unconfirmed: %s\n", m.c_str());
    if(violations) { printf("%s\n", vioLine.c_str()); return 1; }
    return 0;
}

// With clang the header declares two constructors, the library (built by gcc) has one.
#include <epicsMutex.h>
#if defined(__clang__)
epicsMutex::epicsMutex() : epicsMutex("", 0) {}
#endif
