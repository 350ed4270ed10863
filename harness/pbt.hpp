// Small property-based-testing engine.
//
// A case is generated from a *choice sequence*: every random decision goes
// through Src::draw().  A recorded sequence replays the case exactly; a
// shortened/zeroed sequence is a simpler case (draws past the end give 0), so
// shrinking and coverage-guided mutation work on the sequence.
#ifndef PBT_HPP
#define PBT_HPP
#include <stdint.h>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <stdexcept>
#include <string.h>

namespace pbt {

struct Fail {            // an oracle said no
    std::string key, msg;
    Fail(const std::string& k, const std::string& m) : key(k), msg(m) {}
};
struct Discard {};       // case outside of the property's domain
// thrown by our replacement of epicsAssert(); deliberately not a std::exception
struct AssertHit { std::string where, expr; };

struct Src {
    std::vector<uint64_t> rec;
    size_t pos = 0;
    bool replay = false;
    uint64_t s[2];
    // replay==true: mutate nothing, past the end yields 0
    void seed(uint64_t a);
    uint64_t next();
    uint64_t draw(uint64_t n); // [0,n); n==0: full 64 bit
};

struct Ctx {
    Src src;
    std::ostringstream desc;   // human readable description of the case
    bool interesting = false;
    std::vector<std::string> labels;
    bool verbose = false;

    uint64_t draw(uint64_t n) { return src.draw(n); }
    size_t u(size_t n) { return n <= 1 ? 0 : (size_t)src.draw(n); }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)src.draw((uint64_t)(hi - lo) + 1); }
    uint64_t bits() { return src.draw(0); }
    bool coin() { return src.draw(2) == 1; }
    bool chance(unsigned num, unsigned den) { return src.draw(den) >= den - num; } // 0 -> false
    template<class C> const typename C::value_type& pick(const C& c) { return c[u(c.size())]; }
    template<class X> X oneOf(std::initializer_list<X> l) { return *(l.begin() + u(l.size())); }
    // index with given weights; first alternative is the simplest
    size_t weighted(std::initializer_list<unsigned> w) {
        unsigned tot = 0; for(unsigned x : w) tot += x;
        uint64_t d = src.draw(tot); size_t i = 0;
        for(unsigned x : w) { if(d < x) return i; d -= x; i++; }
        return 0;
    }
    void nontrivial(bool b = true) { if(b) interesting = true; }
    void label(const std::string& s) { labels.push_back(s); }
    void cover(bool b, const char* s) { if(b) labels.push_back(s); }
};

typedef void (*TestFn)(Ctx&);
struct Test {
    const char* name; TestFn fn;
    unsigned quick;      // cases in the quick tier
    unsigned thorough;   // cases in the thorough tier
    bool racy;           // outcome depends on thread schedule
    unsigned weight;
};
struct Register { Register(const char* n, TestFn f, unsigned q, unsigned t, bool racy = false); };

// accounting done by the replaced operator new
extern bool g_allocTripped;
// called in every process which is to run cases, before the first
extern void (*workerStart)();
long liveAllocs();        // live operator-new blocks
long liveBytes();
// the nth allocation from now on fails (once); 0: none
void failAlloc(long nth);
bool allocFailed();
long allocCount();         // allocations so far
long allocTotal();         // bytes allocated so far, freed or not
void allocLimit(size_t one); // single allocations above -> std::bad_alloc

std::string quote(const std::string& s);
std::string hex(const void* p, size_t n);
inline std::string hex(const std::vector<uint8_t>& v) { return hex(v.data(), v.size()); }

template<class A, class B>
std::string differ(const A& a, const B& b) { std::ostringstream o; o << "got " << a << ", expected " << b; return o.str(); }

} // namespace pbt

#define PBT_TEST(NAME, QUICK, THOROUGH) \
    static void pbt_##NAME(pbt::Ctx& c); \
    static pbt::Register pbt_reg_##NAME(#NAME, pbt_##NAME, QUICK, THOROUGH); \
    static void pbt_##NAME(pbt::Ctx& c)
#define PBT_RACY(NAME, QUICK, THOROUGH) \
    static void pbt_##NAME(pbt::Ctx& c); \
    static pbt::Register pbt_reg_##NAME(#NAME, pbt_##NAME, QUICK, THOROUGH, true); \
    static void pbt_##NAME(pbt::Ctx& c)

#define FAIL(KEY, MSG) do { std::ostringstream o_; o_ << MSG; throw pbt::Fail(KEY, o_.str()); } while(0)
#define CHECK(COND, KEY, MSG) do { if(!(COND)) { std::ostringstream o_; o_ << "[" #COND "] " << MSG; throw pbt::Fail(KEY, o_.str()); } } while(0)
#define CHECK_EQ(A, B, KEY, MSG) do { auto a_ = (A); auto b_ = (B); if(!(a_ == b_)) { std::ostringstream o_; \
    o_ << #A " == " #B ": got " << a_ << ", expected " << b_ << "; " << MSG; throw pbt::Fail(KEY, o_.str()); } } while(0)
// run STMT; it must throw a std::exception (an assert() is not a refusal)
#define MUST_THROW(STMT, KEY, MSG) do { bool th_ = false; try { STMT; } catch(std::exception&) { th_ = true; } \
    if(!th_) FAIL(KEY, "not refused: " #STMT "; " << MSG); } while(0)

#endif
