// All of a program's heap and the stack it runs on within the first 2 GiB, because the code
// for the web keeps addresses in 32 bit integers.  The heap watches itself: freed memory and
// the surroundings of every allocation are poisoned for the address sanitizer, and the
// allocations that are alive are counted.
#pragma once
#include <pthread.h>
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>

namespace low_memory
{
  struct head { std::size_t size, bucket; head* next; std::size_t mark; };   // 32 bytes, poisoned
  constexpr std::size_t arena_size = 640u << 20, gap = 32, quarantine_max = 96u << 20, alive_mark = 0xA11A11A11Aull, uncounted_mark = 0xB22B22B22Bull, dead_mark = 0xDEADDEADull;
  inline char* arena_at = nullptr;
  inline char* arena_end = nullptr;
  inline head* free_[40] = {};
  inline head* old_first = nullptr;
  inline head* old_last = nullptr;
  inline std::size_t old_bytes = 0;
  inline long alive = 0;
  inline long made = 0;
  inline int uncounted = 0;           // while positive, allocations are not the program's

  inline void open_(void* p, std::size_t n) { ASAN_UNPOISON_MEMORY_REGION(p, n); }
  inline void close_(void* p, std::size_t n) { ASAN_POISON_MEMORY_REGION(p, n); }
  [[noreturn]] inline void die(char const* what) { std::fprintf(stderr, "low memory: %s\n", what); std::abort(); }

  inline char* map(std::size_t n)
  {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_32BIT, -1, 0);
    if (p == MAP_FAILED || reinterpret_cast<std::uintptr_t>(p) + n > (1ull << 31)) die("no memory below 2 GiB");
    return static_cast<char*>(p);
  }
  // buckets of 32 * 2^k bytes
  inline std::size_t bucket_of(std::size_t n) { std::size_t b = 0; while ((std::size_t{32} << b) < n) ++b; return b; }

  inline void* get(std::size_t n)
  {
    if (!arena_at) { arena_at = map(arena_size); arena_end = arena_at + arena_size; close_(arena_at, arena_size); }
    std::size_t const b = bucket_of(n ? n : 1), room = std::size_t{32} << b;
    head* h;
    if ((h = free_[b])) { open_(h, sizeof(head)); free_[b] = h->next; }
    else
    {
      std::size_t const whole = sizeof(head) + room + gap;
      if (static_cast<std::size_t>(arena_end - arena_at) < whole) throw std::bad_alloc();
      h = reinterpret_cast<head*>(arena_at);
      arena_at += whole;
      open_(h, sizeof(head));
    }
    h->size = n; h->bucket = b; h->next = nullptr; h->mark = uncounted > 0 ? uncounted_mark : alive_mark;
    char* p = reinterpret_cast<char*>(h + 1);
    close_(h, sizeof(head));
    open_(p, n);
    std::memset(p, 0xb7, n);
    if (uncounted <= 0) ++alive;
    ++made;
    return p;
  }
  inline void put(void* p)
  {
    if (!p) return;
    head* h = static_cast<head*>(p) - 1;
    open_(h, sizeof(head));
    if (h->mark != alive_mark && h->mark != uncounted_mark) die(h->mark == dead_mark ? "freed twice" : "freed what was not allocated");
    if (h->mark == alive_mark) --alive;
    h->mark = dead_mark;
    std::memset(p, 0xdb, h->size);
    close_(p, h->size);
    std::size_t const room = std::size_t{32} << h->bucket;
    h->next = nullptr;
    if (old_last) { open_(old_last, sizeof(head)); old_last->next = h; close_(old_last, sizeof(head)); } else old_first = h;
    old_last = h;
    close_(h, sizeof(head));
    old_bytes += room;
    while (old_bytes > quarantine_max)
    {
      head* o = old_first;
      open_(o, sizeof(head));
      old_first = o->next;
      if (!old_first) old_last = nullptr;
      old_bytes -= std::size_t{32} << o->bucket;
      o->next = free_[o->bucket];
      free_[o->bucket] = o;
      close_(o, sizeof(head));
    }
  }

  struct start { int argc; char** argv; int (*fn)(int, char**); int result; };
  // runs fn on a stack below 2 GiB
  inline int run(int argc, char** argv, int (*fn)(int, char**))
  {
    std::size_t const n = 64u << 20;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, map(n), n);
    start s{argc, argv, fn, 70};
    pthread_t t;
    if (pthread_create(&t, &a, [](void* x) -> void* { auto* s = static_cast<start*>(x); s->result = s->fn(s->argc, s->argv); return nullptr; }, &s)) die("no thread");
    pthread_join(t, nullptr);
    return s.result;
  }
}

void* operator new(std::size_t n) { return low_memory::get(n); }
void* operator new[](std::size_t n) { return low_memory::get(n); }
void operator delete(void* p) noexcept { low_memory::put(p); }
void operator delete[](void* p) noexcept { low_memory::put(p); }
void operator delete(void* p, std::size_t) noexcept { low_memory::put(p); }
void operator delete[](void* p, std::size_t) noexcept { low_memory::put(p); }
// the stack is never kept elsewhere
extern "C" __attribute__((used, visibility("default"))) char const* __asan_default_options() { return "detect_stack_use_after_return=0:detect_leaks=0"; }
