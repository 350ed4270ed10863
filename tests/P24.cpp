// P24: everything is freed once, by whoever lets go last
#include "machine.hpp"
namespace {
struct Usage { long blocks, bytes; size_t all; epics::RefSnapshot refs; Usage() { refs.update(); blocks = pbt::liveAllocs(); bytes = pbt::liveBytes(); all = __sanitizer_get_current_allocated_bytes(); } };
// what a run leaves behind; run again to tell it from something set up once
string left(const std::function<void()>& f) {
    string msg; for(int i = 0; i < 3; i++) { Usage* a = new Usage; f(); std::ostringstream o; { Usage b; epics::RefSnapshot d = b.refs - a->refs; long blocks = b.blocks - a->blocks, bytes = b.bytes - a->bytes; long all = (long)b.all - (long)a->all; size_t n = 0; for(auto& x : d) if(x.second.delta) { o << x.first << " " << x.second.delta << ", "; n++; } // both snapshots hold the same
        blocks -= (long)a->refs.size(); bytes -= 0; (void)bytes; (void)all; if(blocks) o << blocks << " blocks"; }
        delete a; msg = o.str(); if(msg.empty()) return msg; }
    return msg;
}
long cLeft(const std::function<void()>& f) { long all = 0; for(int i = 0; i < 4; i++) { size_t a = __sanitizer_get_current_allocated_bytes(); f(); size_t b = __sanitizer_get_current_allocated_bytes(); all = (long)b - (long)a; if(all == 0) return 0; } return all; }
PBT_TEST(histories, 20000, 400000) {
    vector<Step> p = program(c); size_t threw = 0, did = 0; auto go = [&]() { Machine m(false); m.run(p); threw = m.threw; did = m.did; if(!m.badKey.empty()) FAIL(m.badKey, m.bad); };
    string l = left(go); CHECK(l.empty(), "leak", "left behind: " + l); long k = cLeft(go); CHECK_EQ(k, 0, "leak", "bytes left behind");
    if(threw) c.label("with failures"); c.nontrivial(did > 3 && p.size() > 4);
}
PBT_TEST(alloc_faults, 12000, 300000) {
    vector<Step> p = program(c); long total = 0; { Machine m(true); m.run(p); } { Machine m(true); long n = pbt::allocCount(); m.run(p); total = pbt::allocCount() - n; } if(total < 1) return; bool hit = false;
    for(int i = 0; i < 4; i++) { long nth = 1 + (long)((double)c.u(1000000) / 1e6 * total); c.desc << "fail " << nth << " of " << total << "; "; bool failed = false; string key, bad; auto go = [&]() { Machine m(true); pbt::failAlloc(nth); try { m.run(p); } catch(std::bad_alloc&) {} failed = pbt::allocFailed(); pbt::failAlloc(0); if(!m.badKey.empty()) { key = m.badKey; bad = m.bad; } };
        string l = left(go); hit |= failed; if(!key.empty()) FAIL("fault_" + key, bad); CHECK(l.empty(), "fault_leak", "left behind after the failed allocation: " + l); }
    c.nontrivial(hit && total > 30); if(hit) c.label("allocation failed");
}
// ---- counters
PBT_TEST(counters, 4000, 60000) {
    static size_t cells[6]; std::map<string, int> reg; vector<epics::RefSnapshot> shots; vector<std::map<string, size_t> > want; epics::RefSnapshot base; base.update(); int steps = 1 + c.u(20);
    auto name = [](int i) { static const char* n[] = {"A", "Field2", "PVFiel", "Z", "zz", "thing with spaces"}; return string(n[i]); };
    struct Cleanup { ~Cleanup() { static const char* n[] = {"A", "Field2", "PVFiel", "Z", "zz", "thing with spaces"}; for(auto x : n) for(auto& k : cells) epics::unregisterRefCounter(x, &k); } } cl; memset(cells, 0, sizeof cells);
    for(int s = 0; s < steps; s++) { int i = c.u(6), j = c.u(6); string n = name(i); switch(c.u(6)) {
        case 0: epics::registerRefCounter(n.c_str(), &cells[j]); reg[n] = j; c.desc << "register " << n << " " << j << "; "; break;
        case 1: epics::unregisterRefCounter(n.c_str(), &cells[j]); if(reg.count(n) && reg[n] == j) reg.erase(n); c.desc << "unregister " << n << " " << j << "; "; break;
        case 2: { int k = c.u(5); for(int q = 0; q < k; q++) REFTRACE_INCREMENT(cells[j]); c.desc << "inc " << j << " " << k << "; "; break; }
        case 3: if(cells[j]) { REFTRACE_DECREMENT(cells[j]); c.desc << "dec " << j << "; "; } break;
        case 4: { epics::RefSnapshot x; x.update(); std::map<string, size_t> m; for(auto& r : reg) m[r.first] = cells[r.second]; shots.push_back(x); want.push_back(m); c.desc << "shot; "; break; }
        default: CHECK_EQ(epics::readRefCounter(n.c_str()), reg.count(n) ? cells[reg[n]] : 0, "read", n); } }
    epics::RefSnapshot x; x.update(); std::map<string, size_t> m; for(auto& r : reg) m[r.first] = cells[r.second]; shots.push_back(x); want.push_back(m);
    for(size_t i = 0; i < shots.size(); i++) { CHECK_EQ(shots[i].size(), base.size() + want[i].size(), "size", ""); for(int q = 0; q < 6; q++) { string n = name(q); CHECK_EQ(shots[i][n].current, want[i].count(n) ? want[i][n] : 0, "snapshot", n); CHECK_EQ(shots[i][n].delta, 0L, "delta", n); }
        for(size_t j = 0; j < shots.size(); j++) { epics::RefSnapshot d = shots[i] - shots[j]; std::ostringstream o, exp; o << d; std::map<string, std::pair<long, long> > lines; for(int q = 0; q < 6; q++) { string n = name(q); bool a = want[i].count(n), b = want[j].count(n); long va = a ? want[i][n] : 0, vb = b ? want[j][n] : 0; CHECK_EQ((long)d[n].current, va, "difference", n); CHECK_EQ(d[n].delta, va - vb, "difference", n); if(va - vb) lines[n] = std::make_pair(va, va - vb); size_t here = 0; for(auto& e : d) here += e.first == n; CHECK_EQ(here, (size_t)(a || b), "listed", n); } for(auto& l : lines) exp << l.first << ":\t" << l.second.first << " (delta " << l.second.second << ")\n"; CHECK_EQ(o.str(), exp.str(), "print", ""); } }
    char* txt = epicsRefSnapshotCurrent(); string t(txt ? txt : "(null)"); free(txt); for(auto& r : reg) { string line = r.first + ":\t" + std::to_string(cells[r.second]) + " "; bool has = ("\n" + t).find("\n" + line) != string::npos; CHECK_EQ(has, cells[r.second] != 0, "current", r.first + " in " + t); }
    c.nontrivial(steps > 4);
}
struct Mon : public epics::RefMonitor { std::atomic<int> n{0}; std::atomic<long> last{0}; void show(const epics::RefSnapshot& s, bool complete = false) override { n++; last = s["monitored"].delta; (void)complete; } ~Mon() { stop(); } };
PBT_RACY(monitor, 200, 2000) {
    static size_t cell; cell = 0; epics::registerRefCounter("monitored", &cell); Mon m; long prev = 0; int steps = 1 + c.u(6); bool on = false; for(int i = 0; i < steps; i++) switch(c.u(4)) { case 0: c.desc << "start "; m.start(60); on = true; break; case 1: c.desc << "stop "; m.stop(); on = false; break; case 2: { c.desc << "current "; int n = m.n; m.current(); CHECK(m.n > n, "current", "not shown"); break; } default: c.desc << "inc "; REFTRACE_INCREMENT(cell); CHECK_EQ(m.running(), on, "running", ""); } m.stop(); CHECK(!m.running(), "running", "stopped"); (void)prev;
    int n = m.n; m.start(0.001); for(int i = 0; m.n < n + 2; i++) { if(i > 200000) FAIL("stuck", "no second report"); std::this_thread::sleep_for(std::chrono::microseconds(100)); } m.stop(); n = m.n; epics::unregisterRefCounter("monitored", &cell); CHECK_EQ(m.n.load(), n, "after_stop", ""); c.nontrivial(steps > 2);
}
}
