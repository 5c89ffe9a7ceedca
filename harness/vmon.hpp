// vmon.hpp - the run-time monitoring kit every harness in /verif is built on.
//
// A harness registers "modes".  A mode is a case function: given a deterministic random
// source it builds one workload for the real nbdl code, runs it, and its oracle calls
// violate() for every observation that contradicts the property.  The case number and the
// seed determine a case completely, so `--mode M --seed S --only K` replays it.
//
// What a run reports (JSON, one object, to --out):
//   evaluations   cases executed
//   counters      events the monitors actually observed (by name)
//   samples       a few cases written out
//   violations    appended as JSON lines to <out>.viol as soon as they happen, so that a
//                 later crash cannot lose them
//   <out>.hash    64 bit hashes of the distinct non-trivial cases
// The number of the case in progress is kept in the mapped file --mark, so that the runner
// can attribute a crash, a sanitizer abort or a hang to a case.
#ifndef VMON_HPP
#define VMON_HPP

#ifdef VMON_THREADS
#include <atomic>
#include <memory>
#include <thread>
#endif
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <map>
#include <sstream>
#include <string>
#include <string_view>
#include <typeinfo>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sched.h>
#include <time.h>
#include <sys/mman.h>
#include <unistd.h>

namespace vmon
{
  inline std::uint64_t mix(std::uint64_t z)
  {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }

  inline std::uint64_t hash(std::string_view s, std::uint64_t h = 0xcbf29ce484222325ULL)
  {
    for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ULL; }
    return mix(h);
  }

  struct Rng
  {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed) { }

    std::uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
    std::uint64_t below(std::uint64_t n) { return n == 0 ? 0 : next() % n; }
    // inclusive
    std::int64_t range(std::int64_t a, std::int64_t b)
    { return a + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(b - a + 1))); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    bool coin() { return next() & 1u; }
    template <typename C>
    auto const& pick(C const& c) { return c[below(c.size())]; }
    template <typename T>
    T pick(std::initializer_list<T> c) { return c.begin()[below(c.size())]; }
    std::string bytes(std::size_t n)
    { std::string r(n, '\0'); for (auto& c : r) c = static_cast<char>(next()); return r; }
    std::string from(std::string_view alphabet, std::size_t n)
    { std::string r(n, '\0'); for (auto& c : r) c = alphabet[below(alphabet.size())]; return r; }
    template <typename C>
    void shuffle(C& c)
    { for (std::size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[below(i)]); }
  };

  inline std::string quote(std::string_view s)
  {
    std::string r = "\"";
    char buf[8];
    for (unsigned char c : s)
    {
      if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
      else if (c < 0x20 || c >= 0x7f) { std::snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
      else r += static_cast<char>(c);
    }
    return r + "\"";
  }

  // shortened printable rendering of bytes for messages
  inline std::string show(std::string_view s, std::size_t max = 96)
  {
    std::string r;
    char buf[8];
    for (std::size_t i = 0; i < s.size() && i < max; ++i)
    {
      unsigned char c = static_cast<unsigned char>(s[i]);
      if (c < 0x20 || c >= 0x7f || c == '\\') { std::snprintf(buf, sizeof buf, "\\x%02x", c); r += buf; }
      else r += static_cast<char>(c);
    }
    if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
    return r;
  }

  struct Mode
  {
    std::string name;
    void (*fn)(Rng&);
    std::vector<std::string> required; // counters which must be non-zero when the mode is done
  };

  struct State
  {
    std::vector<Mode> modes;
    std::string mode;
    std::uint64_t seed = 1;
    std::uint64_t index = 0;
    bool verbose = false;
    std::uint64_t evaluations = 0;
    std::map<std::string, std::uint64_t> counters;
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, unsigned> violations;
    unsigned in_case = 0;
    FILE* viol = nullptr;
    bool thorough = false;
  };

#ifdef VMON_THREADS
  // Cases run on several threads, each with a state of its own; nothing here may synchronize
  // threads, or it would hide the races the sanitizer is to find.
  inline State*& own() { static thread_local State* s = nullptr; return s; }
  inline std::uint64_t& delays() { static thread_local std::uint64_t d = 0; return d; } // 0: none
  inline State& st() { static State* s = new State; return own() ? *own() : *s; }
  inline void perturb()
  {
    if (!delays()) return;
    delays() = mix(delays());
    switch (delays() % 64)
    {
      case 0: { timespec t{0, static_cast<long>(delays() >> 40) % 200000}; ::nanosleep(&t, nullptr); break; }
      case 1: case 2: case 3: case 4: ::sched_yield();
    }
  }
#else
  inline State& st() { static State* s = new State; return *s; }
  inline void perturb() { }
#endif

  inline void count(std::string const& name, std::uint64_t n = 1) { perturb(); st().counters[name] += n; }
  inline void count_max(std::string const& name, std::uint64_t n)
  { auto& c = st().counters[name]; if (n > c) c = n; }
  // A non-trivial case or observation identified by its content
  inline void distinct(std::uint64_t h)
  { if (st().distinct.size() < 400000) st().distinct.insert(h); }
  inline void distinct(std::string_view s) { distinct(hash(s)); }
  inline void sample(std::string s)
  {
    if (st().verbose) std::fprintf(stderr, "[case %llu] %s\n", (unsigned long long)st().index, s.c_str());
    if (st().samples.size() < 6)
    {
      if (s.size() > 400) s = s.substr(0, 400) + "...";
      st().samples.push_back(std::move(s));
    }
  }
  inline bool want_sample() { return st().verbose || st().samples.size() < 6; }

  inline void violate(std::string const& key, std::string const& detail)
  {
    ++st().in_case;
    auto& n = st().violations[key];
    if (st().verbose) std::fprintf(stderr, "VIOLATES %s: %s\n", key.c_str(), detail.c_str());
    if (++n > 3) return; // the first three of each kind are kept in full
    if (st().viol)
    {
      std::fprintf(st().viol, "{\"mode\":%s,\"case\":%llu,\"key\":%s,\"detail\":%s}\n"
        , quote(st().mode).c_str(), (unsigned long long)st().index
        , quote(key).c_str(), quote(detail.substr(0, 2000)).c_str());
      std::fflush(st().viol);
    }
  }

  template <typename Cond>
  inline bool check(Cond const& c, std::string const& key, std::string const& detail)
  { if (!c) violate(key, detail); return static_cast<bool>(c); }

  struct Register
  {
    Register(std::string name, void (*fn)(Rng&), std::vector<std::string> required = {})
    { st().modes.push_back(Mode{std::move(name), fn, std::move(required)}); }
  };

  inline std::uint64_t case_seed(std::uint64_t seed, std::string const& mode, std::uint64_t index)
  { return mix(mix(seed * 0x9e3779b97f4a7c15ULL + 17) ^ hash(mode) ^ mix(index + 0x51ed27)); }

#ifdef VMON_THREADS
  // what a case observed, so that running it alone and beside others can be compared
  inline std::string run_apart(Mode const& m, std::uint64_t seed, std::uint64_t index, std::uint64_t delay)
  {
    auto state = std::make_unique<State>();
    state->index = index;
    state->mode = m.name;
    own() = state.get();
    delays() = delay;
    Rng rng(seed);
    std::string end = "returned";
    try { m.fn(rng); }
    catch (std::exception const& e) { end = std::string("threw ") + e.what(); }
    catch (...) { end = "threw"; }
    own() = nullptr;
    delays() = 0;
    std::vector<std::uint64_t> d(state->distinct.begin(), state->distinct.end());
    std::sort(d.begin(), d.end());
    std::string o = m.name + " " + end + ";";
    for (auto& [k, v] : state->violations) o += " violated " + k + " " + std::to_string(v) + ";";
    for (auto& [k, v] : state->counters) o += " " + k + " " + std::to_string(v) + ";";
    std::uint64_t h = 0;
    for (auto x : d) h = mix(h ^ x);
    return o + " " + std::to_string(h);
  }
  // Several threads, each with cases of its own, at once; and every case alone.
  inline void threads_case(Rng& r, std::vector<Mode> const& modes)
  {
    struct Job { Mode const* mode; std::uint64_t seed, delay; std::string beside, alone; };
    std::size_t const n = static_cast<std::size_t>(r.range(2, 6));
    std::vector<std::vector<Job>> work(n);
    // sometimes all threads do the same
    bool const same = r.chance(1, 3);
    Mode const* common = &r.pick(modes);
    std::uint64_t const common_seed = r.next();
    for (auto& w : work)
      for (auto k = r.range(1, 4); k > 0; --k)
        w.push_back(Job{same ? common : &r.pick(modes), same && r.coin() ? common_seed : r.next(), r.coin() ? r.next() | 1 : 0, "", ""});
    std::uint64_t const index = st().index;
    std::string what;
    auto alone = [&] { for (auto& w : work) for (auto& j : w) j.alone = run_apart(*j.mode, j.seed, index, 0); };
    // first beside others, so that whatever is made at its first use is made there
    bool const before = index % 4 == 3;
    if (before) alone();
    std::atomic<std::size_t> ready{0};
    std::vector<std::thread> ts;
    for (auto& w : work)
      ts.emplace_back([&w, &ready, n, index]
      {
        ready.fetch_add(1);
        while (ready.load() < n) ::sched_yield();
        for (auto& j : w) j.beside = run_apart(*j.mode, j.seed, index, j.delay);
      });
    for (auto& t : ts) t.join();
    if (!before) alone();
    for (auto& w : work)
    {
      what += " |";
      for (auto& j : w)
      {
        what += " " + j.mode->name + ":" + std::to_string(j.seed % 1000);
        count("cases beside others");
        check(j.beside == j.alone, "not as alone", "beside others: " + j.beside + " alone: " + j.alone);
      }
    }
    count("threads", n);
    distinct(what);
    sample(std::to_string(n) + " threads:" + what);
  }
#endif

  inline int main_(int argc, char** argv)
  {
#ifdef VMON_THREADS
    std::vector<Mode> const all = st().modes;
    st().modes = {Mode{"threads", nullptr, {"threads", "cases beside others"}}};
#endif
    std::string mode, out, mark;
    std::uint64_t start = 0, count_ = 100, only = ~0ULL;
    for (int i = 1; i < argc; ++i)
    {
      std::string a = argv[i];
      auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--mode") mode = val();
      else if (a == "--seed") st().seed = std::stoull(val());
      else if (a == "--start") start = std::stoull(val());
      else if (a == "--count") count_ = std::stoull(val());
      else if (a == "--only") only = std::stoull(val());
      else if (a == "--out") out = val();
      else if (a == "--mark") mark = val();
      else if (a == "--verbose") st().verbose = true;
      else if (a == "--thorough") st().thorough = true;
      else if (a == "--list") { for (auto& m : st().modes) std::puts(m.name.c_str()); return 0; }
      else { std::fprintf(stderr, "unknown argument %s\n", a.c_str()); return 64; }
    }
    Mode* m = nullptr;
    for (auto& x : st().modes) if (x.name == mode) m = &x;
    if (!m) { std::fprintf(stderr, "no mode named '%s'\n", mode.c_str()); return 64; }
    st().mode = mode;
    if (!out.empty()) st().viol = std::fopen((out + ".viol").c_str(), "a");

    std::uint64_t volatile dummy[2] = {};
    std::uint64_t volatile* marker = dummy;
    if (!mark.empty())
    {
      int fd = ::open(mark.c_str(), O_RDWR | O_CREAT, 0644);
      if (fd >= 0 && ::ftruncate(fd, 4096) == 0)
      {
        void* p = ::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) marker = static_cast<std::uint64_t volatile*>(p);
      }
    }
    double slowest = 0, at = 0;
    auto const now = [] { timespec t{}; ::clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) / 1e9; };
    std::uint64_t end = start + count_;
    if (only != ~0ULL) { start = only; end = only + 1; }
    for (std::uint64_t i = start; i < end; ++i)
    {
      at = now();
      marker[0] = i;
      marker[1] = 1;
      st().index = i;
      st().in_case = 0;
      Rng rng(case_seed(st().seed, mode, i));
#ifdef VMON_THREADS
      try { threads_case(rng, all); }
#else
      try { m->fn(rng); }
#endif
      catch (std::exception const& e)
      { violate("escaped-exception", std::string("a C++ exception escaped: ") + typeid(e).name() + ": " + e.what()); }
      catch (...)
      { violate("escaped-exception", "a C++ exception of unknown type escaped"); }
      ++st().evaluations;
      slowest = std::max(slowest, now() - at);
    }
    marker[1] = 2; // finished

    std::ostringstream o;
    o << "{\"mode\":" << quote(mode) << ",\"slowest\":" << slowest << ",\"evaluations\":" << st().evaluations << ",\"counters\":{";
    bool first = true;
    for (auto& [k, v] : st().counters) { if (!first) o << ','; first = false; o << quote(k) << ':' << v; }
    o << "},\"required\":[";
    first = true;
    for (auto& r : m->required) { if (!first) o << ','; first = false; o << quote(r); }
    o << "],\"samples\":[";
    first = true;
    for (auto& s : st().samples) { if (!first) o << ','; first = false; o << quote(s); }
    o << "],\"violation_counts\":{";
    first = true;
    for (auto& [k, v] : st().violations) { if (!first) o << ','; first = false; o << quote(k) << ':' << v; }
    o << "}}";
    if (!out.empty())
    {
      if (FILE* f = std::fopen((out + ".hash").c_str(), "ab"))
      {
        for (auto h : st().distinct) std::fwrite(&h, 8, 1, f);
        std::fclose(f);
      }
      if (FILE* f = std::fopen(out.c_str(), "w")) { std::fputs(o.str().c_str(), f); std::fclose(f); }
      else return 65;
    }
    else std::puts(o.str().c_str());
    std::fflush(nullptr);
    ::_exit(0); // leaks and lifetimes are judged per case, not by what statics do at exit
  }
}

#define VMON_CAT_(a, b) a##b
#define VMON_CAT(a, b) VMON_CAT_(a, b)
#define VMON_MODE(NAME, FN, ...) \
  static ::vmon::Register VMON_CAT(vmon_reg_, __LINE__){NAME, FN, {__VA_ARGS__}};
// one whose cases take long even alone: left out of the runs with several threads
#ifdef VMON_THREADS
#define VMON_LONG_MODE(NAME, FN, ...)
#else
#define VMON_LONG_MODE(NAME, FN, ...) VMON_MODE(NAME, FN, __VA_ARGS__)
#endif
#define VMON_MAIN int main(int argc, char** argv) { return ::vmon::main_(argc, argv); }

#endif
