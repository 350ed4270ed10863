// P23: timers, events, threads and locks
#include "gen_pvd.hpp"
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <pv/timer.h>
#include <pv/event.h>
#include <pv/thread.h>
#include <pv/lock.h>
#include <pv/reftrack.h>
namespace {
using namespace epics::pvData; using pbt::Ctx; using std::string; using std::vector;
const double LIMIT = 25; // seconds: only a lost wakeup takes that long
double clockNow() { static const epicsTime t0(epicsTime::getCurrent()); return epicsTime::getCurrent() - t0; }
void micros(unsigned n) { std::this_thread::sleep_for(std::chrono::microseconds(n)); }
// ---- one model of the timer, kept under one mutex; the worker thread may be ahead of it by one call
struct Sim {
    std::mutex m; std::condition_variable cv; string error, key; bool closed = false; unsigned long seq = 0;
    void fail(const string& k, const string& msg) { if(key.empty()) { key = k; error = msg; } cv.notify_all(); }
    void check() { if(!key.empty()) FAIL(key, error); }
};
struct Cb; typedef std::tr1::shared_ptr<Cb> CbPtr;
struct Act { int op; int who; double delay, period; };
struct World { Sim s; Timer* timer; vector<CbPtr> cb; void schedule(int who, double delay, double period, int self); void cancel(int who, int self); void ask(int who, int self); };
struct Cb : public TimerCallback {
    World& w; int id; bool pending = false; double lo = 0, hi = 0, period = 0, delay = 0, known = 0; unsigned long seq = 0; bool first = true; int fly = 0; bool fuzzy = false; /* a periodic call could not be cancelled, unknown whether under way or just over */ int starts = 0, stops = 0; vector<Act> script; bool inCall = false, repeat = false; bool gate = false; Event entered, go, left;
    Cb(World& w, int id) : w(w), id(id) {}
    string name() { return "callback " + std::to_string(id); }
    void callback() override {
        if(gate) { entered.signal(); go.wait(LIMIT); left.signal(); return; }
        std::lock_guard<std::mutex> G(w.s.m); double now = clockNow(); starts++;
        if(fuzzy) {}
        else if(fly > 0) fly--; // the call that could not be cancelled any more
        else if(!pending) w.s.fail(starts > 1 ? "ran_again" : "ran", name() + " ran while not scheduled");
        else {
            if(now < lo - 2e-6) w.s.fail("early", name() + " ran " + std::to_string(lo - now) + " s early");
            for(auto& y : w.cb) if(y.get() != this && !y->fuzzy && y->pending && y->known < lo && (y->hi + 2e-6 < lo || (y->first && first && y->delay == delay && y->seq < seq))) w.s.fail("order", name() + " ran before callback " + std::to_string(y->id) + " which was due earlier");
            pending = false; if(period > 0) { repeat = true; inCall = true; }
        }
        if(!script.empty() && !w.s.closed) { Act a = script.back(); script.pop_back(); if(a.op == 0) w.schedule(a.who < 0 ? id : a.who, a.delay, a.period, id); else if(a.op == 1) w.cancel(a.who < 0 ? id : a.who, id); else w.ask(a.who < 0 ? id : a.who, id); }
        inCall = false; if(repeat) { repeat = false; pending = true; first = false; lo += period; hi += period; known = clockNow(); }
        w.s.cv.notify_all();
    }
    void timerStopped() override { if(gate) return; std::lock_guard<std::mutex> G(w.s.m); stops++; if(!w.s.closed) w.s.fail("stopped_open", name() + " was told that the timer stopped"); else if(!pending && !fuzzy) w.s.fail("stopped_not_pending", name() + " was told that the timer stopped, but was not pending"); pending = false; w.s.cv.notify_all(); }
};
// all three with the model's mutex held. self: the callback in progress in this thread, or -1
void World::schedule(int who, double delay, double period, int self) {
    Cb& x = *cb[who]; double a = clockNow(); bool ok = true; string what; try { if(period == 0) timer->scheduleAfterDelay(cb[who], delay); else timer->schedulePeriodic(cb[who], delay, period); } catch(std::logic_error& e) { ok = false; what = e.what(); } double b = clockNow();
    if(x.fuzzy) return;
    if(ok && x.pending) { // the worker took it already
        if(self >= 0) return s.fail("scheduled_twice", x.name() + " accepted while scheduled"); if(b < x.lo - 2e-6 && x.first) return s.fail("scheduled_twice", x.name() + " accepted while scheduled, long before its time"); if(x.period > 0) { x.fuzzy = true; return; } x.fly++; }
    if(!ok && !x.pending) return s.fail("refused", x.name() + ": " + what);
    if(ok) { if(x.inCall) x.repeat = false; x.pending = true; x.first = true; x.lo = a + delay; x.hi = b + delay; x.known = b; x.delay = delay; x.period = period; x.seq = ++s.seq; }
}
void World::cancel(int who, int self) {
    Cb& x = *cb[who]; bool ok = timer->cancel(cb[who]); double b = clockNow(); if(x.fuzzy) return;
    if(ok && !x.pending) return s.fail("cancelled_nothing", x.name() + ": cancel() returned true, not scheduled");
    if(!ok && x.pending) { if(self >= 0) return s.fail("not_cancelled", x.name() + ": cancel() returned false while scheduled"); if(x.first && b < x.lo - 2e-6) return s.fail("not_cancelled", x.name() + ": cancel() returned false long before its time"); if(x.period > 0) { x.fuzzy = true; return; } x.fly++; }
    if(x.inCall) x.repeat = false; x.pending = false;
}
void World::ask(int who, int self) { Cb& x = *cb[who]; bool ok = timer->isScheduled(cb[who]); double b = clockNow(); if(x.fuzzy) return; if(ok && !x.pending) s.fail("isScheduled", x.name() + " is reported scheduled"); if(!ok && x.pending && (self >= 0 || (x.first && b < x.lo - 2e-6))) s.fail("isScheduled", x.name() + " is reported not scheduled"); }
bool isNear(const Cb& x) { return !x.fuzzy && x.pending && x.period == 0 && x.lo < clockNow() + 100; }
double genDelay(Ctx& c, bool nearOnly = false) { switch(c.weighted({ 4, 3, nearOnly ? 0u : 2u, 1, 1 })) { case 0: return c.u(4000) * 1e-6; case 1: return 0; case 2: return 1000 + c.u(1000); case 3: return 0.002; default: return -1e-3 * c.u(3); } }
double genPeriod(Ctx& c) { return c.chance(1, 4) ? (1 + c.u(30)) * 1e-4 : 0; }
PBT_RACY(timer_model, 15000, 200000) {
    World w; Timer timer("t", middlePriority); w.timer = &timer; int n = 2 + c.u(5); for(int i = 0; i < n; i++) w.cb.push_back(CbPtr(new Cb(w, i))); std::tr1::shared_ptr<Cb> gate(new Cb(w, 99)); gate->gate = true;
    bool sentinel = c.coin(); CbPtr far(new Cb(w, 100)); far->gate = true; if(sentinel) { timer.scheduleAfterDelay(far, 5000); c.desc << "sentinel; "; }
    for(int i = 0; i < n; i++) for(int k = c.u(3); k > 0; k--) { Act a; a.op = c.weighted({ 3, 2, 1 }); a.who = c.chance(1, 2) ? -1 : (int)c.u(n); a.delay = genDelay(c); a.period = genPeriod(c); w.cb[i]->script.push_back(a); c.desc << "in call of " << i << ": " << (a.op == 0 ? "schedule " : a.op == 1 ? "cancel " : "ask ") << (a.who < 0 ? i : a.who) << " " << a.delay << "/" << a.period << "; "; }
    int rounds = 1 + c.u(3), total = 0; bool early = c.chance(1, 3);
    struct Cleanup { Timer& t; std::tr1::shared_ptr<Cb> g; World& w; ~Cleanup() { g->go.signal(); { std::lock_guard<std::mutex> G(w.s.m); w.s.closed = true; } t.close(); } } cleanup = { timer, gate, w };
    for(int r = 0; r < rounds; r++) {
        bool held = c.chance(2, 3); if(held) { timer.scheduleAfterDelay(gate, -5000.0); if(!gate->entered.wait(LIMIT)) FAIL("lost", "an expired callback never ran"); c.desc << "[held] "; }
        int steps = 1 + c.u(8); for(int s = 0; s < steps; s++) { int who = c.u(n); double d = genDelay(c), p = genPeriod(c); int op = c.weighted({ 5, 2, 2, 1 });
            if(op == 0) c.desc << "schedule " << who << " " << d << "/" << p << "; "; else if(op == 1) c.desc << "cancel " << who << "; "; else if(op == 2) c.desc << "ask " << who << "; ";
            if(op < 3) { std::lock_guard<std::mutex> G(w.s.m); if(op == 0) w.schedule(who, d, p, -1); else if(op == 1) w.cancel(who, -1); else w.ask(who, -1); total++; }
            else { std::ostringstream o; std::lock_guard<std::mutex> G(w.s.m); o << timer; if(held) { size_t lines = 0, exp = sentinel; for(char ch : o.str()) lines += ch == '\n'; bool fuzzy = false; for(auto& x : w.cb) { exp += x->pending; fuzzy |= x->fuzzy; } if(!fuzzy) CHECK_EQ(lines, exp, "dump", o.str()); } c.desc << "dump; "; }
            if(!held && c.chance(1, 4)) micros(c.u(1500)); }
        { std::lock_guard<std::mutex> G(w.s.m); w.s.check(); } if(held) { gate->go.signal(); gate->left.wait(LIMIT); }
        if(early && r == rounds - 1) break;
        { std::unique_lock<std::mutex> G(w.s.m); bool ok = w.s.cv.wait_for(G, std::chrono::duration<double>(LIMIT), [&]() { if(!w.s.key.empty()) return true; for(auto& x : w.cb) if(isNear(*x) || x->fly > 0) return false; return true; }); w.s.check(); if(!ok) FAIL("lost", "a callback never ran"); }
    }
    // periodic callbacks go on until cancelled
    if(!early) for(auto& x : w.cb) { std::unique_lock<std::mutex> G(w.s.m); if(x->fuzzy || !x->pending || x->period == 0 || x->lo > clockNow() + 100) continue; x->script.clear(); int want = x->starts + 2; bool ok = w.s.cv.wait_for(G, std::chrono::duration<double>(LIMIT), [&]() { return !w.s.key.empty() || x->starts >= want || x->fuzzy || !x->pending || x->period == 0; }); w.s.check(); if(!ok) FAIL("no_repeat", x->name() + " is not repeated"); if(c.coin()) w.cancel(x->id, -1); w.s.check(); }
    { std::lock_guard<std::mutex> G(w.s.m); w.s.closed = true; }
    timer.close();
    std::lock_guard<std::mutex> G(w.s.m); w.s.check(); int runs = 0; for(auto& x : w.cb) { if(x->pending && !x->fuzzy) FAIL("not_stopped", x->name() + " was pending when the timer was closed, and not notified"); if(x->fly > 0) FAIL("vanished", x->name() + " was neither cancelled nor run"); CHECK(!timer.isScheduled(x), "isScheduled_closed", ""); runs += x->starts; if(x->fuzzy) c.label("caught in a repetition"); }
    c.label(runs == 0 ? "runs 0" : runs < 5 ? "runs 1-4" : "runs 5+"); if(early) c.label("closed while busy"); c.nontrivial(total > 2 && runs > 0);
}
// ---- conservation under free interleaving: every accepted request is run, cancelled or stopped, exactly once
struct One : public TimerCallback { std::atomic<int> s{0}, r{0}, k{0}, t{0}; std::atomic<int> again{0}; std::atomic<bool> over{false}, late{false}; Timer* timer; std::tr1::weak_ptr<One> self; int pay = 0;
    void callback() override { r++; pay++; if(over) late = true; if(again > 0) { again--; std::tr1::shared_ptr<One> me(self.lock()); if(me) try { timer->scheduleAfterDelay(me, 0.0); s++; } catch(std::logic_error&) {} } }
    void timerStopped() override { t++; } };
struct Rep : public TimerCallback { std::atomic<int> r{0}, t{0}; void callback() override { r++; } void timerStopped() override { t++; } };
PBT_RACY(timer_races, 15000, 200000) {
    std::tr1::shared_ptr<Timer> timer(new Timer("t", middlePriority)); int nt = 2 + c.u(3), nc = 1 + c.u(3); vector<std::tr1::shared_ptr<One> > cb; for(int i = 0; i < nc; i++) { cb.push_back(std::tr1::shared_ptr<One>(new One)); cb[i]->timer = timer.get(); cb[i]->self = cb[i]; cb[i]->again = c.u(4); }
    struct Op { int op, who; double d; unsigned pause; }; vector<vector<Op> > plan(nt); int closer = c.coin() ? c.u(nt) : -1;
    for(int t = 0; t < nt; t++) { int n = 3 + c.u(20); for(int i = 0; i < n; i++) { Op o; o.op = c.weighted({ 5, 3, 2, 1, 1 }); o.who = c.u(nc); o.d = c.weighted({ 3, 2, 1 }) == 0 ? 0 : c.coin() ? c.u(300) * 1e-6 : 1000; o.pause = c.chance(1, 5) ? c.u(200) : 0; plan[t].push_back(o); } if(t == closer) { Op o = { 9, 0, 0, 0 }; plan[t].insert(plan[t].begin() + c.u((uint32_t)plan[t].size()), o); } }
    for(int t = 0; t < nt; t++) { c.desc << "thread " << t << ": "; for(auto& o : plan[t]) { const char* nm[] = { "schedule", "cancel", "ask", "periodic", "dump" }; c.desc << (o.op == 9 ? "close" : nm[o.op]) << o.who << "/" << o.d << " "; } }
    std::mutex em; string err, key; auto bad = [&](const string& k, const string& m) { std::lock_guard<std::mutex> G(em); if(key.empty()) { key = k; err = m; } }; std::atomic<int> ready{0}; std::atomic<bool> closed{false};
    vector<std::thread> th; for(int t = 0; t < nt; t++) th.emplace_back([&, t]() {
        std::tr1::shared_ptr<Rep> rep(new Rep); bool on = false; int after = -1, accepted = 0, ended = 0; ready++; while(ready < nt) std::this_thread::yield();
        for(auto& o : plan[t]) { One& x = *cb[o.who]; switch(o.op) {
            case 0: try { timer->scheduleAfterDelay(cb[o.who], o.d); x.s++; } catch(std::logic_error&) {} break;
            case 1: if(timer->cancel(cb[o.who])) x.k++; break;
            case 2: timer->isScheduled(cb[o.who]); break;
            case 3: if(!on) { if(after >= 0 && rep->r != after) bad("ran_after_cancel", "periodic callback ran after cancel() returned true"); after = -1; bool was = closed; try { timer->schedulePeriodic(rep, o.d, 1e-4); accepted++; on = true; } catch(std::logic_error& e) { if(!was && !closed) bad("refused", e.what()); } }
                else { int t0 = rep->t; bool ok = timer->cancel(rep); if(ok) { after = rep->r; ended++; on = false; if(rep->t != t0) bad("stopped_and_cancelled", ""); } else on = false, after = -2; if(after == -2) { after = -1; /* the call in progress was the last one */ } } break;
            case 4: { std::ostringstream s; s << *timer; break; }
            default: closed = true; timer->close(); } if(o.pause) micros(o.pause); }
        if(on) { // end: stop repeating
            if(timer->cancel(rep)) { int r = rep->r; micros(300); if(rep->r != r) bad("ran_after_cancel", "periodic callback ran after cancel() returned true"); } else { micros(100); } }
        else if(after >= 0 && rep->r != after) bad("ran_after_cancel", "periodic callback ran after cancel() returned true");
        if(timer->isScheduled(rep)) bad("still_scheduled", "after cancel");
    });
    for(auto& t : th) t.join(); if(!key.empty()) FAIL(key, err);
    bool wait = closer < 0 && c.coin(); if(wait) { double end = clockNow() + LIMIT; for(auto& x : cb) x->again = 0; for(;;) { bool busy = false; for(auto& x : cb) { if(timer->isScheduled(x)) { if(timer->cancel(x)) x->k++; } if(x->s != x->r + x->k + x->t) busy = true; } if(!busy) break; if(clockNow() > end) FAIL("lost", "an accepted request was neither run nor cancelled"); micros(50); } }
    if(closer >= 0 || c.coin()) { timer->close(); for(auto& x : cb) x->over = true; }
    timer.reset(); int runs = 0; for(auto& x : cb) { CHECK(!x->late, "late", "called after the timer was closed"); int s = x->s, r = x->r, k = x->k, t = x->t; runs += r; CHECK(s == r + k + t, "not_once", s << " requests, " << r << " runs, " << k << " cancelled, " << t << " stopped"); CHECK_EQ(x->pay, r, "concurrent_callbacks", ""); }
    c.nontrivial(runs > 0); c.label(closer >= 0 ? "closed by a thread" : "closed at the end");
}
PBT_TEST(timer_closed, 400, 5000) {
    std::tr1::shared_ptr<Timer> t(new Timer("t", (ThreadPriority)c.pick(vector<int>{ lowestPriority, lowerPriority, lowPriority, middlePriority, highPriority, higherPriority, highestPriority }))); int n = c.u(4); vector<std::tr1::shared_ptr<Rep> > a, b; for(int i = 0; i < n; i++) { a.push_back(std::tr1::shared_ptr<Rep>(new Rep)); if(c.coin()) t->scheduleAfterDelay(a[i], 1000); else t->schedulePeriodic(a[i], 1000 + c.u(10), 1); }
    bool byClose = c.coin(); c.desc << n << " pending, " << (byClose ? "close" : "destructor"); if(byClose) { t->close(); for(int i = 0; i < 2; i++) { std::tr1::shared_ptr<Rep> x(new Rep); if(c.coin()) t->scheduleAfterDelay(x, c.coin() ? 0 : 1000); else t->schedulePeriodic(x, c.coin() ? 0 : 1000, c.coin() ? 0 : 1); CHECK_EQ(x->t.load(), 1, "late_schedule", "timerStopped calls"); CHECK(!t->isScheduled(x), "isScheduled", ""); CHECK(!t->cancel(x), "cancel", ""); b.push_back(x); } if(c.coin()) t->close(); std::ostringstream o; o << *t; CHECK_EQ(o.str(), string(), "dump", ""); } t.reset();
    for(auto& x : a) { CHECK_EQ(x->t.load(), 1, "stopped", "timerStopped calls"); CHECK_EQ(x->r.load(), 0, "ran", ""); CHECK(x.unique(), "kept", "callback still referenced"); } for(auto& x : b) { CHECK_EQ(x->t.load(), 1, "stopped", "timerStopped calls"); CHECK_EQ(x->r.load(), 0, "ran", ""); } c.nontrivial(n > 1);
}
// ---- events
PBT_TEST(event_model, 3000, 50000) {
    bool full = c.coin(); Event e(full); c.desc << "Event(" << full << ") "; int steps = 1 + c.u(20), waits = 0;
    for(int i = 0; i < steps; i++) switch(c.u(4)) {
        case 0: e.signal(); full = true; c.desc << "signal "; break;
        case 1: { bool r = e.tryWait(); c.desc << "tryWait "; CHECK_EQ(r, full, "tryWait", ""); full = false; waits++; break; }
        case 2: { double d = full ? c.pick(vector<double>{ 0, 1e-3, 100, -1 }) : c.pick(vector<double>{ 0, 1e-4, 3e-4, -1 }); double a = clockNow(); bool r = e.wait(d); double b = clockNow(); c.desc << "wait(" << d << ") "; CHECK_EQ(r, full, "wait", ""); if(!full) CHECK(b - a >= d - 1e-4, "wait_short", "waited " << b - a << " of " << d); full = false; waits++; break; }
        default: if(full) { CHECK(e.wait(), "wait", "full"); full = false; c.desc << "wait() "; waits++; } }
    c.nontrivial(waits > 1);
}
PBT_RACY(event_threads, 2000, 20000) {
    int n = 2 + c.u(4), rounds = 5 + c.u(60), shape = c.u(2); c.desc << n << " threads, " << rounds << " rounds, " << (shape ? "producers" : "ring"); std::atomic<bool> lost{false};
    if(shape == 0) { // a token passed round a ring; plain data travels with it
        vector<std::unique_ptr<Event> > ev; for(int i = 0; i < n; i++) ev.emplace_back(new Event(i == 0 && c.coin())); bool started = false; long data = 0; vector<std::thread> th; if(!ev[0]->tryWait()) started = true; ev[0]->signal(); (void)started;
        for(int i = 0; i < n; i++) th.emplace_back([&, i]() { for(int r = 0; r < rounds; r++) { bool ok = (r + i) % 3 ? ev[i]->wait() : ev[i]->wait(LIMIT); if(!ok) { lost = true; for(auto& e : ev) e->signal(); return; } data++; ev[(i + 1) % n]->signal(); } });
        for(auto& t : th) t.join(); CHECK(!lost, "lost", "a signal was lost"); CHECK_EQ(data, (long)n * rounds, "count", "");
    } else { Event e; std::atomic<long> avail{0}; long got = 0, total = (long)n * rounds; vector<std::thread> th; for(int i = 0; i < n; i++) th.emplace_back([&, i]() { for(int r = 0; r < rounds; r++) { avail++; e.signal(); if((r + i) % 7 == 0) micros(20); } });
        double end = clockNow() + LIMIT; while(got < total) { if(!e.wait(LIMIT) || clockNow() > end) { lost = true; break; } got += avail.exchange(0); } for(auto& t : th) t.join(); CHECK(!lost, "lost", "waiter missed the last signal: " << got << " of " << total); }
    c.nontrivial(rounds > 10);
}
// ---- threads
struct Body : public Runnable { std::atomic<int> n{0}; Event began; std::atomic<bool> over{false}; string name; unsigned prio = 0; unsigned work = 0; void run() override { n++; began.signal(); name = epicsThreadGetNameSelf(); prio = epicsThreadGetPriority(epicsThreadGetIdSelf()); if(work) micros(work); over = true; } void meth() { run(); } static void fn(void* p) { ((Body*)p)->run(); } };
PBT_RACY(threads, 2000, 20000) {
    { static const int p[] = { lowestPriority, lowerPriority, lowPriority, middlePriority, highPriority, higherPriority, highestPriority }; for(int i = 0; i < 6; i++) CHECK(p[i] < p[i + 1], "order", "priority " << i << " is " << p[i] << ", the next " << p[i + 1]); CHECK(p[0] >= (int)epicsThreadPriorityMin && p[6] <= (int)epicsThreadPriorityMax, "order", "outside of what is possible"); }
    size_t live = Thread::num_instances; vector<std::unique_ptr<Body> > body; vector<ThreadPtr> th; int n = 1 + c.u(5); vector<string> names; vector<bool> started; vector<unsigned> prios;
    for(int i = 0; i < n; i++) {
        body.emplace_back(new Body); Body* b = body.back().get(); if(c.coin()) b->work = c.u(300); string nm = "n" + string(c.u(4), 'x'); unsigned prio = c.pick(vector<unsigned>{ lowestPriority, lowerPriority, lowPriority, middlePriority, highPriority, higherPriority, highestPriority }); int how = c.u(9); bool go = true, dflt = false; c.desc << how << " ";
        if(how == 0) th.push_back(ThreadPtr(new Thread(nm, (ThreadPriority)prio, b))); else if(how == 1) th.push_back(ThreadPtr(new Thread(*b, nm, epicsThreadGetStackSize(epicsThreadStackSmall), prio)));
        else { std::unique_ptr<Thread::Config> cf; switch(how) { case 2: cf.reset(new Thread::Config(b)); break; case 3: cf.reset(new Thread::Config(&Body::fn, (void*)b)); break; case 4: cf.reset(new Thread::Config(b, &Body::meth)); break; case 5: cf.reset(new Thread::Config([b]() { b->run(); })); break; default: cf.reset(new Thread::Config); }
            int order = c.u(3); auto naming = [&]() { switch(c.u(4)) { case 0: cf->name(nm); break; case 1: *cf << nm; break; case 2: { int k = c.u(100); *cf << nm << k; nm += std::to_string(k); break; } default: { int k = c.u(100); cf->name(nm); *cf << k << 'z'; nm += std::to_string(k) + "z"; } } }; if(c.chance(1, 6)) { cf->name("another name"); cf->name(nm); } else naming(); if(order) cf->prio(prio); else dflt = true; go = c.chance(3, 4); if(!go) cf->autostart(false); if(c.coin()) cf->stack(c.coin() ? epicsThreadStackSmall : epicsThreadStackMedium);
            if(how == 6) cf->run(b); else if(how == 7) { if(c.coin()) cf->run(&Body::fn, (void*)b); else cf->run([b]() { b->run(); }); } else if(how == 8) { if(c.coin()) { Body* other = b; cf->run([other]() { abort(); }); } cf->run(b, &Body::meth); }
            if(c.chance(1, 8)) { Thread::Config none; none.name("x"); MUST_THROW(Thread t(none), "no_runner", ""); CHECK_EQ(Thread::num_instances, live + th.size(), "counter", "after failure"); }
            th.push_back(ThreadPtr(new Thread(*cf))); if(c.coin()) cf.reset(); }
        if(dflt) prio = epicsThreadPriorityLow; names.push_back(nm); prios.push_back(prio); started.push_back(go); CHECK_EQ(Thread::num_instances, live + th.size(), "counter", "");
    }
    // joining a thread which has not begun yet prevents it from doing so
    for(int i = 0; i < n; i++) { if(!started[i] && c.coin()) { CHECK_EQ(body[i]->n.load(), 0, "early", ""); th[i]->start(); started[i] = true; } }
    for(int i = 0; i < n; i++) {
        Body& b = *body[i]; bool wait = c.chance(3, 4), join = c.coin(); c.desc << (started[i] ? "started " : "") << (wait ? "wait " : "") << (join ? "join; " : "; "); if(started[i] && wait && !b.began.wait(LIMIT)) FAIL("never_ran", names[i]); char buf[64]; th[i]->getName(buf, sizeof buf); CHECK_EQ(string(buf), names[i], "name", ""); if(join && started[i]) { th[i]->exitWait(); CHECK(b.n == (b.over ? 1 : 0), "joined", "began " << b.n << ", over " << b.over); }
        th[i].reset(); CHECK(b.n <= 1 && b.over == (b.n == 1), "joined", "began " << b.n << ", over " << b.over); if(!started[i]) CHECK_EQ(b.n.load(), 0, "not_started", ""); else if(wait) CHECK_EQ(b.n.load(), 1, "once", ""); if(b.n) { CHECK_EQ(b.name, names[i], "name", ""); CHECK_EQ(b.prio, prios[i], "priority", ""); } CHECK_EQ(Thread::num_instances, live + n - 1 - i, "counter", ""); }
    c.nontrivial(n > 1);
}
// ---- locks
PBT_RACY(locks, 1500, 20000) {
    Mutex m; { Lock l(m); bool own = true; int steps = c.u(12); for(int i = 0; i < steps; i++) { switch(c.u(4)) { case 0: l.lock(); own = true; break; case 1: l.unlock(); own = false; break; case 2: CHECK(l.tryLock(), "tryLock", "free"); own = true; break; default: CHECK_EQ(l.ownsLock(), own, "ownsLock", ""); } CHECK_EQ(l.ownsLock(), own, "ownsLock", ""); if(c.chance(1, 3)) { bool got = false; std::thread t([&]() { if(m.tryLock()) { got = true; m.unlock(); } }); t.join(); CHECK_EQ(got, !own, "held", ""); } } if(!own) { Lock other(m); bool r = true; std::thread t([&]() { r = l.tryLock(); }); t.join(); CHECK(!r, "tryLock", "taken"); CHECK(!l.ownsLock(), "ownsLock", "after failed tryLock"); } }
    bool free = false; { std::thread t([&]() { if(m.tryLock()) { free = true; m.unlock(); } }); t.join(); } CHECK(free, "released", "");
    int nt = 2 + c.u(3), rounds = 10 + c.u(100); long data = 0, exp = 0; vector<std::thread> th; std::atomic<long> tries{0}; for(int i = 0; i < nt; i++) { int style = c.u(3); c.desc << style; exp += rounds; th.emplace_back([&, style]() { for(int r = 0; r < rounds; r++) { if(style == 0) { Lock l(m); data++; } else if(style == 1) { Lock l(m); l.unlock(); l.lock(); data++; l.unlock(); } else { Lock l(m); l.unlock(); while(!l.tryLock()) { tries++; std::this_thread::yield(); } data++; } } }); } for(auto& t : th) t.join(); CHECK_EQ(data, exp, "exclusion", ""); c.nontrivial(true);
}
}
