// C19 C22 C29
// FLAGS: -I$REPO/src
#include "common.h"
#include <cmath>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <thread>
#include <atomic>
#include "progress_tracker.cc"
using namespace rp;
using T = utl::progress_tracker;
struct model {
  std::string status;
  bool show = true;
  float lo = 0.F, hi = 100.F, mod = 1.F, out = 0.F;
  size_t ih = 100, in = 0;
  float f(size_t i) const {
    float const r = ih == 0 ? 1.F : static_cast<float>(static_cast<double>(i) / static_cast<double>(ih));
    float const x = lo + std::round((hi - lo) * r / mod) * mod;
    return x < lo ? lo : hi < x ? hi : x;
  }
};
static void same(T const& t, model const& m, size_t calls, size_t want) {
  eq("callbacks", calls, want);
  eq("status", t.status_, m.status);
  eq("show_progress", t.show_progress_, m.show);
  eq("lower bound", t.out_low_, m.lo);
  eq("upper bound", t.out_high_, m.hi);
  eq("step", t.out_mod_, m.mod);
  eq("input bound", t.in_high_, m.ih);
  eq("input", t.in_.load(), m.in);
  eq("output", t.out_.load(), m.out);
}
static void sequential() {
  unsigned const seed = static_cast<unsigned>(rnd(1U << 30));
  rng.seed(seed);
  std::string log;
  size_t calls = 0, want = 0;
  model m;
  T t{[&](T const& x) {
    ++calls;
    bool const locked = !x.mutex_.try_lock();
    if (locked) { rp::fail("callback under the lock" + log); }
    x.mutex_.unlock();
  }};
  float const fs[] = {0.F, 0.F, 100.F, 1.F, 50.F, -3.F, 0.5F, 7.F, 33.3F};
  size_t const ns[] = {0, 1, 2, 3, 99, 100, 101, 200, 7, 1000000};
  static std::string const ss[] = {"", "a", "b"};
  auto F = [&] { return fs[rnd(9)]; };
  auto N = [&] { return ns[rnd(10)]; };
  for (unsigned k = 0; k < 12; ++k) {
    auto const op = rnd(10);
    auto const a = F(), b = F();
    auto const n = N();
    auto const s = ss[rnd(3)];
    bool const p = rnd(2) != 0;
    log += " op" + std::to_string(op) + "(" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(n) + "," + s + "," + std::to_string(p) + ")";
    cur("sequence of changes and updates", log);
    auto old = m;
    bool threw = false, wthrow = false, bounds = false;
    auto out_bounds = [&] { if (a <= b) { m.lo = a; m.hi = b; } else { wthrow = true; } };
    try {
      switch (op) {
        case 0: m.status = s; t.status(s); break;
        case 1: m.show = p; t.show_progress(p); break;
        case 2: m.lo = 0; m.hi = 100; m.mod = 1; m.ih = 100; bounds = true; t.reset_bounds(); break;
        case 3: bounds = true; out_bounds(); t.out_bounds(a, b); break;
        case 4: bounds = true; if (a > 0.F) { m.mod = a; } else { wthrow = true; } t.out_mod(a); break;
        case 5: bounds = true; m.ih = n; t.in_high(n); break;
        case 6: bounds = true; m.status = s; m.ih = n; out_bounds(); if (!wthrow) { m.show = p; } t.status(s).in_high(n).out_bounds(a, b).show_progress(p); break;
        case 7: m.in = n; m.out = m.f(n); if (p) { t.update(n); } else { t.update(n); } break;
        case 8: m.in = std::max(m.in, n); m.out = m.f(m.in); if (p) { t.update_monotonic(n); } else { t.update_fn()(n); } break;
        case 9: m.in += p ? 1 : n; m.out = m.f(m.in); if (p) { rnd(2) != 0 ? t.increment() : t.increment_fn()(); } else { t.increment(n); } break;
      }
    } catch (...) { threw = true; }
    eq("throws", threw, wthrow);
    bool const bc = bounds && (old.lo != m.lo || old.hi != m.hi || old.mod != m.mod || old.ih != m.ih);
    if (bc) { m.in = 0; m.out = m.lo; }
    want += bc || old.status != m.status || old.show != m.show || (op >= 7 && old.out != m.out) ? 1 : 0;
    same(t, m, calls, want);
  }
  {
    cur("an update of one tracker replaced by one of another", seed);
    T t2{[](T const&) {}};
    size_t const before = calls;
    auto u = t.status(m.status + "x");
    u = t2.status("y");
    eq("callbacks", calls, before + 1);
    check(t.mutex_.try_lock(), "locked");
    t.mutex_.unlock();
  }
}
static void concurrent(unsigned kind) {
  size_t const bound = 1 + rnd(300);
  cur("concurrent updates (kind, input bound)", kind, bound);
  std::atomic<unsigned> k{0};
  T t{[&](T const&) { if ((k++ % 3) == 0) { std::this_thread::yield(); } }};
  t.in_high(bound);
  model m;
  m.ih = bound;
  unsigned const n = 3, per = 200;
  std::atomic<unsigned> ready{0};
  std::vector<std::thread> ts;
  for (unsigned i = 0; i < n; ++i) {
    ts.emplace_back([&, i] {
      ++ready;
      while (ready < n) {}
      for (unsigned j = 0; j < per; ++j) {
        switch (kind) {
          case 0: t.increment(); break;
          case 1: t.update_monotonic(j * n + i); break;
          case 2: t.update(j * n + i); break;
          default: if (i == 0) { t.increment(2); } else { t.update_monotonic(j); }
        }
      }
    });
  }
  for (auto& x : ts) { x.join(); }
  if (kind == 0) { eq("input", t.in_.load(), size_t{n * per}); }
  if (kind == 1) { eq("input", t.in_.load(), size_t{n * per - 1}); }
  eq("output", t.out_.load(), m.f(t.in_.load()));
}
static void printed() {
  cur("printing a registry", "");
  utl::global_progress_trackers g;
  std::map<std::string, utl::progress_tracker_ptr> m;
  size_t height = 0;
  for (auto n = 0; n != 6; ++n) {
    for (auto k = size_t{0}, e = rnd(4); k != e; ++k) {
      auto const name = std::string(1 + rnd(3), static_cast<char>('a' + rnd(4)));
      auto const t = m[name] = g.get_tracker(name);
      t->status_ = rnd(2) ? "" : "st";
      t->show_progress_ = rnd(3) != 0;
      t->out_ = rnd(4) == 0 ? 100.F : rnd(4) == 0 ? 0.F : static_cast<float>(rnd(10001)) / 100.F;
      if (rnd(3) == 0) { t->out_ = static_cast<float>(rnd(55) * 100 / 55); }
    }
    g.silent_ = rnd(4) == 0;
    std::stringstream want, got;
    if (!g.silent_) {
      if (height != 0) { want << "\x1b[" << height << "A"; }
      for (auto const& [name, t] : m) {
        want << "\x1b[K" << std::setw(12) << std::right << name << ": ";
        if (t->show_progress_) {
          want << "[";
          for (auto i = 0; i != 55; ++i) { want << (static_cast<float>(100 * i / 55) <= t->out_.load() ? "■" : " "); }
          want << " ] " << std::setw(3) << static_cast<int>(t->out_.load()) << "%" << (t->status_.empty() ? "" : " | ") << t->status_ << "\n";
        } else {
          want << t->status_ << "\n";
        }
      }
      height = m.size();
    }
    auto const old = std::cout.rdbuf(got.rdbuf());
    g.print();
    std::cout.rdbuf(old);
    eq("text", got.str(), want.str());
    eq("lines printed last", size_t{g.last_print_height_}, height);
    check(g.mutex_.try_lock(), "the registry is left locked");
    g.mutex_.unlock();
    for (auto const& [name, t] : m) { check(t->mutex_.try_lock(), "a tracker is left locked"); t->mutex_.unlock(); }
  }
}

static void registry() {
  auto& g = utl::get_global_progress_trackers();
  {
    cur("a new registry", "");
    auto const f = std::make_unique<utl::global_progress_trackers>();
    check(f->silent_ && f->trackers_.empty() && f->active_tracker_ == nullptr && f->last_print_height_ == 0U, "not empty, silent and without an active tracker");
  }
  g.clear();
  g.silent_ = true;
  std::map<std::string, utl::progress_tracker_ptr> m;
  utl::progress_tracker_ptr active;
  std::string log;
  static std::string const ss[] = {"", "a", "b", "c"};
  auto known = [&](std::string const& s, utl::progress_tracker_ptr const& p) {
    check(p != nullptr, "no tracker");
    auto const it = m.find(s);
    if (it == m.end()) {
      for (auto const& [k, v] : m) { check(v != p, "the tracker of another name"); }
      m[s] = p;
    } else {
      check(it->second == p, "another tracker for the same name");
    }
  };
  for (unsigned k = 0; k < 10; ++k) {
    auto const op = rnd(7);
    auto const& s = ss[rnd(4)];
    bool const b = rnd(2) != 0;
    log += " op" + std::to_string(op) + "(" + s + "," + std::to_string(b) + ")";
    cur("sequence of registry operations", log);
    switch (op) {
      case 0: known(s, g.get_tracker(s)); break;
      case 1: known(s, active = utl::activate_progress_tracker(s)); break;
      case 2: { utl::progress_tracker_ptr p = b ? nullptr : g.get_tracker(s); if (p) { known(s, p); } active = p; check(utl::activate_progress_tracker(p) == p, "another tracker"); break; }
      case 3: {
        bool threw = false;
        utl::progress_tracker_ptr p;
        try { p = utl::get_active_progress_tracker(); } catch (...) { threw = true; }
        eq("throws", threw, active == nullptr);
        check(p == active, "the active tracker");
        break;
      }
      case 4: {
        auto const p = utl::get_active_progress_tracker_or_activate(s);
        if (active) { check(p == active, "the active tracker"); } else { known(s, p); active = p; }
        break;
      }
      case 5: g.last_print_height_ = 3; g.clear(); eq("height", g.last_print_height_, 0U); m.clear(); active = nullptr; break;
      case 6: {
        bool const old = g.silent_ = rnd(2) != 0;
        { utl::global_progress_bars x{b}; eq("silence while the bars are shown", g.silent_, b); }
        eq("silence", g.silent_, old);
        g.silent_ = true;
        m.clear();
        active = nullptr;
        break;
      }
    }
    check(g.mutex_.try_lock(), "locked");
    g.mutex_.unlock();
    eq("number of trackers", g.trackers_.size(), m.size());
    check(g.active_tracker_ == active, "the active tracker");
  }
  cur("a change of a registered tracker that is not shown");
  g.silent_ = false;
  auto const t = g.get_tracker("x");
  std::ostringstream o;
  auto* const old = std::cout.rdbuf(o.rdbuf());
  t->show_progress(false);
  t->status("z");
  std::cout.rdbuf(old);
  g.silent_ = true;
  check(o.str().find("z") != std::string::npos, "a change is printed");
}
int main(int argc, char** argv) {
  return run(argc, argv, {{"C19", [] { while (more()) { for (unsigned i = 0; i < 200; ++i) { sequential(); } for (unsigned i = 0; i < 4; ++i) { concurrent(i); } } }},
                          {"C22", [] { while (more()) { registry(); } }},
                          {"C29", [] { while (more()) { printed(); } }}});
}
