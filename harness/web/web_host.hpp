// The C++ side of the stand-in for emscripten: a node process runs the JavaScript
// (host.js); it may read and write this process's memory and call back, while a snippet runs.
#pragma once
#include <sanitizer/asan_interface.h>
#include <signal.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <string>
#include <type_traits>

extern "C" char** environ;

namespace web_host
{
  struct js_error : std::runtime_error { using std::runtime_error::runtime_error; };

  // set by the harness: the functions of the program which JavaScript may call
  inline int (*called)(int which, void*) = nullptr;
  inline long bad_memory = 0;         // accesses of JavaScript outside the memory of the program
  inline std::string bad_memory_what;
  inline long trips = 0, callbacks = 0, peeks = 0, pokes = 0;

  inline int& pipe_to() { static int fd = -1; return fd; }
  inline int& pipe_from() { static int fd = -1; return fd; }
  inline std::string& script() { static std::string s; return s; }

  inline void start()
  {
    if (pipe_to() >= 0) return;
    int a[2], b[2];
    if (pipe(a) || pipe(b)) { std::perror("pipe"); std::_Exit(70); }
    posix_spawn_file_actions_t f;
    posix_spawn_file_actions_init(&f);
    posix_spawn_file_actions_adddup2(&f, a[0], 0);
    posix_spawn_file_actions_adddup2(&f, b[1], 1);
    for (int fd : {a[0], a[1], b[0], b[1]}) posix_spawn_file_actions_addclose(&f, fd);
    std::string s = script();
    char name[] = "node", flag[] = "--stack-size=4000", light[] = "--v8-pool-size=1";
    char* argv[] = {name, flag, light, s.data(), nullptr};
    pid_t pid;
    signal(SIGPIPE, SIG_IGN);
    if (posix_spawnp(&pid, "node", &f, nullptr, argv, environ)) { std::fprintf(stderr, "node does not start\n"); std::_Exit(70); }
    posix_spawn_file_actions_destroy(&f);
    close(a[0]); close(b[1]);
    pipe_to() = a[1]; pipe_from() = b[0];
  }

  inline void tell(std::string s)
  {
    start();
    s += '\n';
    for (std::size_t at = 0; at < s.size();)
    {
      ssize_t n = write(pipe_to(), s.data() + at, s.size() - at);
      if (n <= 0) { std::fprintf(stderr, "node is gone\n"); std::_Exit(70); }
      at += static_cast<std::size_t>(n);
    }
  }
  inline std::string hear()
  {
    static std::string pending = [] { std::string s; s.reserve(1 << 20); return s; }();
    for (;;)
    {
      auto at = pending.find('\n');
      if (at != std::string::npos) { std::string l = pending.substr(0, at); pending.erase(0, at + 1); return l; }
      char chunk[65536];
      ssize_t n = read(pipe_from(), chunk, sizeof chunk);
      if (n <= 0) { std::fprintf(stderr, "node is gone\n"); std::_Exit(70); }
      pending.append(chunk, static_cast<std::size_t>(n));
    }
  }

  inline std::string hex(void const* p, std::size_t n)
  {
    static char const digits[] = "0123456789abcdef";
    std::string r(n * 2, '0');
    auto* c = static_cast<unsigned char const*>(p);
    for (std::size_t i = 0; i < n; ++i) { r[2 * i] = digits[c[i] >> 4]; r[2 * i + 1] = digits[c[i] & 15]; }
    return r;
  }
  inline std::string hex(std::string const& s) { return hex(s.data(), s.size()); }
  inline std::string unhex(char const* h, std::size_t n)
  {
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::string r(n / 2, '\0');
    for (std::size_t i = 0; i + 1 < n; i += 2) r[i / 2] = static_cast<char>(v(h[i]) * 16 + v(h[i + 1]));
    return r;
  }

  // is this memory of the program?
  inline bool usable(std::uint64_t at, std::uint64_t n, char const* how)
  {
    bool bad = at < 4096 || n > (1ull << 32);
    if (!bad)
    {
      // mapped at all?
      std::uint64_t const page = 4096;
      std::uint64_t const from = at / page * page, to = (at + n + page - 1) / page * page;
      bad = msync(reinterpret_cast<void*>(from), to - from, MS_ASYNC) != 0;
    }
#if __has_feature(address_sanitizer)
    if (!bad) bad = __asan_region_is_poisoned(reinterpret_cast<void*>(at), n) != nullptr;
#endif
    if (bad)
    {
      ++bad_memory;
      bad_memory_what = std::string("JavaScript ") + how + " " + std::to_string(n) + " bytes which are not all the program's";
    }
    return !bad;
  }

  // waits for the answer to a command, serving what the JavaScript asks for meanwhile
  inline std::string answer()
  {
    ++trips;
    for (;;)
    {
      std::string l = hear();
      switch (l[0])
      {
        case 'R': return l.size() > 2 ? l.substr(2) : std::string();
        case 'E': throw js_error(unhex(l.data() + 2, l.size() - 2));
        case 'C':
        {
          ++callbacks;
          char* e;
          int const which = static_cast<int>(std::strtol(l.data() + 2, &e, 10));
          auto p = std::strtoull(e, nullptr, 10);
          int result;
          try { result = called(which, reinterpret_cast<void*>(p)); }
          catch (js_error const& x)
          { // an exception of JavaScript stays one
            tell("J " + hex(x.what(), std::strlen(x.what())));
            break;
          }
          catch (...)
          {
            tell("X");
            // unwind the JavaScript
            try { answer(); } catch (js_error const&) { }
            throw;
          }
          tell("Q " + std::to_string(result));
          break;
        }
        case 'M':
        {
          char* e;
          auto at = std::strtoull(l.data() + 4, &e, 10);
          if (l[2] == 'r')
          {
            ++peeks;
            auto n = std::strtoull(e + 1, nullptr, 10);
            tell(usable(at, n, "reads") ? hex(reinterpret_cast<void const*>(at), n) : std::string(2 * std::min<std::uint64_t>(n, 1 << 20), '0'));
          }
          else
          {
            ++pokes;
            std::string b = unhex(e + 1, l.size() - static_cast<std::size_t>(e + 1 - l.data()));
            if (usable(at, b.size(), "writes")) std::memcpy(reinterpret_cast<void*>(at), b.data(), b.size());
            tell("ok");
          }
          break;
        }
        default: std::fprintf(stderr, "node says: %s\n", l.c_str()); std::_Exit(70);
      }
    }
  }

  // arguments of snippets: numbers, as emscripten's 32 bit words and doubles
  inline std::string number(double d) { char b[40]; std::snprintf(b, sizeof b, " n%.17g", d); return b; }
  template <typename T> std::string snippet_arg(T const& x)
  {
    if constexpr (std::is_pointer_v<std::decay_t<T>> || std::is_array_v<T>)
      return " n" + std::to_string(reinterpret_cast<std::uint64_t>(static_cast<void const*>(x)));
    else if constexpr (std::is_floating_point_v<T>) return number(x);
    else if constexpr (std::is_enum_v<T>) return snippet_arg(static_cast<std::underlying_type_t<T>>(x));
    else
    {
      static_assert(std::is_integral_v<T>, "snippets take numbers and pointers only");
      // sizes are 32 bit there
      return " n" + std::to_string(static_cast<std::int32_t>(x));
    }
  }

  inline int next_snippet() { static int n = 0; return n++; }
  template <typename... A> double run(char kind, int id, char const* code, A const&... a)
  {
    static char known[1 << 16] = {}; // snippets already sent
    if (id >= static_cast<int>(sizeof known)) { std::fprintf(stderr, "too many snippets\n"); std::_Exit(70); }
    if (!known[static_cast<std::size_t>(id)])
    {
      known[static_cast<std::size_t>(id)] = 1;
      tell("D " + std::to_string(id) + " " + std::to_string(sizeof...(A)) + " " + hex(code, std::strlen(code)));
    }
    std::string s = "A " + std::to_string(id) + " " + kind;
    ((s += snippet_arg(a)), ...);
    tell(s);
    std::string const r = answer();
    return r == "NaN" ? std::nan("") : std::strtod(r.c_str(), nullptr);
  }
}
