// C20 C21
#include "common.h"
#include <atomic>
#include <list>
#include <memory>
#include <set>
#include "utl/parallel_for.h"
#include "utl/thread_pool.h"
using namespace rp;
static unsigned hc = 2;
unsigned std::thread::hardware_concurrency() noexcept { return hc; }
using V = std::vector<unsigned>;
struct boom { size_t i; };
using E = utl::parallel_error_strategy;
static std::atomic<int> tl_made, tl_gone, tl_bad;
struct local {
  local() : owner{std::this_thread::get_id()} { ++tl_made; }
  ~local() { ++tl_gone; }
  std::thread::id owner;
  size_t runs = 0;
  std::atomic<int> busy{0};
};
static void dawdle(unsigned m, size_t i) {
  if (((m >> (i % 29)) & 1U) != 0) { std::this_thread::sleep_for(std::chrono::microseconds(50 * (1 + i % 3))); }
}
struct state {
  state(size_t n) : run(n), prog(n) {}
  std::vector<std::atomic<int>> run, prog;
  std::atomic<int> other{0};
};
// variant: 0 run, 1 local, 2 each, 3 each const, 4 desc, 5 list
static void par(unsigned variant, size_t n, unsigned bad, unsigned pbad, unsigned slow, bool quit, unsigned threads) {
  hc = threads;
  cur("parallel_for (variant, jobs, failing jobs, failing progress, slow, quit, hardware threads)", variant, n, bad, pbad, slow, quit, threads);
  state s(n);
  tl_made = tl_gone = tl_bad = 0;
  auto fails = [&](size_t i) { return ((bad >> (i % 31)) & 1U) != 0; };
  auto pfails = [&](size_t i) { return ((pbad >> (i % 31)) & 1U) != 0; };
  auto job = [&](size_t i) {
    if (i >= n) { ++s.other; return; }
    ++s.run[i];
    dawdle(slow, i);
    if (fails(i)) { throw boom{i}; }
  };
  auto progress = [&](size_t i) {
    if (i >= n) { ++s.other; return; }
    ++s.prog[i];
    if (pfails(i)) { throw boom{i}; }
  };
  auto const strat = quit ? E::QUIT_EXEC : E::CONTINUE_EXEC;
  std::vector<size_t> jobs(n);
  for (size_t i = 0; i < n; ++i) { jobs[i] = i; }
  std::list<size_t> const lst(jobs.begin(), jobs.end());
  auto const& cjobs = jobs;
  utl::errors_t errs;
  bool threw = false;
  size_t which = 0;
  try {
    switch (variant) {
      case 0: errs = utl::parallel_for_run(n, job, progress, strat); break;
      case 1: errs = utl::parallel_for_run_threadlocal<local>(n, [&](local& l, size_t i) { if (l.owner != std::this_thread::get_id() || ++l.busy != 1) { ++tl_bad; } ++l.runs; try { job(i); } catch (...) { --l.busy; throw; } --l.busy; }, progress, strat); break;
      case 2: errs = utl::parallel_for(jobs, [&](size_t& i) { job(&i - jobs.data()); }, progress, strat); break;
      case 3: errs = utl::parallel_for(cjobs, [&](size_t const& i) { job(&i - jobs.data()); }, progress, strat); break;
      case 4: errs = utl::parallel_for("x", jobs, size_t{3}, [&](size_t const& i) { job(&i - jobs.data()); }, progress, strat); break;
      case 5: errs = utl::parallel_for(lst, [&](size_t const& i) { job(i); }, progress, strat); break;
    }
  } catch (boom const& b) { threw = true; which = b.i; }
  auto const failed = [&](size_t i) { return s.run[i] == 1 && (fails(i) || (s.prog[i] == 1 && pfails(i))); };
  check(s.other == 0, "a job index out of range");
  size_t nfailed = 0;
  for (size_t i = 0; i < n; ++i) {
    check(s.run[i] <= 1, "a job ran twice");
    check(s.prog[i] == (s.run[i] == 1 && !fails(i) ? 1 : 0), "progress was not reported exactly once for a job that succeeded");
    nfailed += failed(i);
  }
  if (!quit) {
    check(!threw, "an exception escaped under CONTINUE_EXEC");
  } else {
    eq("throws iff a job failed", threw, nfailed != 0);
    if (threw) { check(which < n && failed(which), "the exception is not one of a failed job"); }
    if (threw && threads <= 1) {
      for (size_t i = 0; i < n; ++i) { eq("one thread: jobs run up to the first failure", s.run[i] == 1, i <= which); }
    }
  }
  if (!quit || nfailed == 0) {
    for (size_t i = 0; i < n; ++i) { check(s.run[i] == 1, "a job did not run"); }
    std::vector<size_t> got, want;
    for (auto const& [i, e] : errs) {
      got.push_back(i);
      try { std::rethrow_exception(e); } catch (boom const& b) { eq("the exception recorded with index " , b.i, i); } catch (...) { fail("another exception"); }
    }
    std::sort(got.begin(), got.end());
    for (size_t i = 0; i < n; ++i) { if (failed(i)) { want.push_back(i); } }
    eq("indices of failed jobs", got, want);
  }
  if (variant == 1) {
    eq("one thread-local object per thread", tl_made.load(), static_cast<int>(std::max(1U, threads)));
    eq("thread-local objects destroyed", tl_gone.load(), tl_made.load());
    eq("thread-local object of another thread", tl_bad.load(), 0);
  }
}
static void c20() {
  for (unsigned v = 0; v < 6; ++v) {
    for (size_t n : {0, 1, 2, 3, 5, 8}) {
      for (unsigned t : {2U, 1U, 3U, 0U}) { for (bool q : {false, true}) { for (unsigned bad : {0U, 1U, 2U, 4U, 6U, ~0U}) { par(v, n, bad, 0, 0, q, t); par(v, n, 0, bad, 5, q, t); } } }
    }
  }
  while (more()) { par(rnd(6), rnd(40), rnd(2) ? rnd(1U << 31) & rnd(1U << 31) : 0, rnd(3) ? 0 : rnd(1U << 31), rnd(1U << 31), rnd(2), rnd(9)); }
}
static void pool(size_t n1, size_t n2, size_t n3, unsigned slow, unsigned threads, bool nested, bool cb) {
  hc = threads;
  cur("thread_pool (jobs of three executes, slow, hardware threads, nested, callbacks)", n1, n2, n3, slow, threads, nested, cb);
  std::atomic<int> inits{0}, fins{0}, other{0}, late{0}, wrong{0}, throws{0}, attempts{0};
  static thread_local int inited = 0;
  {
    std::unique_ptr<utl::thread_pool> p = cb ? std::make_unique<utl::thread_pool>([&] { inited = 1; ++inits; }, [&] { if (inited != 1) { ++wrong; } inited = 0; ++fins; }) : std::make_unique<utl::thread_pool>();
    int round = 0;
    std::atomic<int> current{0};
    for (size_t n : {n1, n2, n3}) {
      std::vector<std::atomic<int>> run(n);
      int const r = ++round;
      current = r;
      std::atomic<bool> done{false};
      p->execute(n, [&, r](size_t i) {
        if (current != r || done) { ++late; return; }
        if (cb && inited != 1) { ++wrong; }
        if (i >= n) { ++other; return; }
        dawdle(slow >> r, i);
        ++run[i];
        if (nested && i == 0) { ++attempts; try { p->execute(1, [](size_t) {}); } catch (...) { ++throws; } }
      });
      done = true;
      for (size_t i = 0; i < n; ++i) { eq("times the job ran when execute returned", run[i].load(), 1); }
      eq("nested execute throws", throws.load(), attempts.load());
      eq("jobs outside of the range", other.load(), 0);
    }
    if (slow & 1U) { std::this_thread::sleep_for(std::chrono::microseconds(200)); }
  }
  eq("jobs run after execute returned", late.load(), 0);
  eq("jobs or finalizers outside initializer and finalizer", wrong.load(), 0);
  if (cb) {
    eq("initializers", inits.load(), static_cast<int>(std::max(1U, threads)));
    eq("finalizers", fins.load(), static_cast<int>(std::max(1U, threads)));
  }
}
static void c21() {
  for (unsigned t : {1U, 2U, 3U, 0U}) {
    for (size_t n1 : {0, 1, 2, 5}) { for (size_t n2 : {0, 1, 3, 7}) { for (unsigned slow : {0U, 2U, 4U, 6U, 255U}) { pool(n1, n2, n1, slow, t, false, slow & 1U); pool(n1, n2, 2, slow, t, true, true); } } }
  }
  while (more()) { pool(rnd(20), rnd(20), rnd(20), rnd(1U << 31), 1 + rnd(8), rnd(2), rnd(2)); }
}
int main(int argc, char** argv) { return run(argc, argv, {{"C20", c20}, {"C21", c21}}); }
