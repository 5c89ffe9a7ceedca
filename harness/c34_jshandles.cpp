// C34: handles of JavaScript values, functions JavaScript can call, and promises made in JavaScript.
#include <nbdl/catch.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_sync.hpp>
#include "web/web.hpp"
#include <boost/hana.hpp>
#include <functional>
#include <memory>
#include <optional>
namespace hana = boost::hana;
using vmon::Rng;

namespace
{
  using namespace hana::literals;
  using nbdl::js::get_handle;
  using nbdl::js::val;

  // values JavaScript makes: objects with an identity, and some plain ones
  void make(int handle, int id)
  {
    static char const* const plain[] = {"null", "undefined", "0", "''", "'text'", "NaN", "false", "[]", "(function() { })"};
    if (id < 9) web::put(handle, plain[id]);
    else web::put(handle, "(window.things = window.things || {}, window.things[" + std::to_string(id) + "] = window.things[" + std::to_string(id) + "] || {thing: " + std::to_string(id) + "})");
  }
  std::string name(int handle)
  {
    return web::text("var v = Module.NBDL_DETAIL_JS_GET($0); if (v && v.thing) return (window.things[v.thing] === v ? 'thing ' : 'copy of ') + v.thing;"
                     "if (typeof v === 'function') return 'function'; if (typeof v === 'number') return 'number ' + v; return (JSON.stringify(v) + '');", handle);
  }
  std::string name_of(int id)
  {
    static char const* const plain[] = {"null", "undefined", "number 0", "\"\"", "\"text\"", "number NaN", "false", "[]", "function"};
    return id < 9 ? plain[id] : "thing " + std::to_string(id);
  }

  // ------------------------------------------------------------ handles
  void handles(Rng& r)
  {
    web::reset();
    EM_ASM({ window.things = {}; });
    int const before = web::entries();
    long const alive = low_memory::alive;
    {
      struct slot { std::unique_ptr<val> v; int is = 1; bool known = true; }; // undefined until it is given a value
      std::vector<slot> s(static_cast<std::size_t>(r.range(2, 8)));
      std::string trace;
      auto const some = [&]() -> slot* { for (int i = 0; i < 20; ++i) { auto& x = s[r.below(s.size())]; if (x.v) return &x; } return nullptr; };
      for (int steps = static_cast<int>(r.range(5, 40)); steps-- > 0;)
      {
        auto at = r.below(s.size());
        slot& x = s[at];
        slot* o = some();
        auto const from = o ? static_cast<std::size_t>(o - s.data()) : 0;
        trace += " " + std::to_string(at);
        switch (r.below(13))
        {
          case 11: if (x.v) // a function of JavaScript makes it something else
          {
            x.known = true;
            switch (r.below(6))
            {
              case 0: NBDL_JS_TRANSFORM(*x.v, function(v) { return null; }); x.is = 0; break;
              case 1: NBDL_JS_TRANSFORM(*x.v, function(v) { }); x.is = 1; break;
              case 2: NBDL_JS_TRANSFORM(*x.v, function(v) { return 0; }); x.is = 2; break;
              case 3: NBDL_JS_TRANSFORM(*x.v, function(v) { return ''; }); x.is = 3; break;
              case 4: NBDL_JS_TRANSFORM(*x.v, function(v) { return false; }); x.is = 6; break;
              case 5: NBDL_JS_TRANSFORM(*x.v, function(v) { return 'text'; }); x.is = 4; break;
            }
            trace += " becomes " + std::to_string(x.is);
          } break;
          case 12: // an element by its name
          {
            x.v = nullptr;
            web::text("document.body.innerHTML = ''; var ids = ['a', 'name', 'name2', 'a-longer-name', 'a-longer-name-than-that'].slice($0);"
              "for (var id of ids) { var e = document.createElement('i'); e.thing = 'e'; e.setAttribute('id', id); window.things[id] = e; document.body.appendChild(e); } return ''", static_cast<int>(r.below(3)));
            std::string want;
            auto const find = [&](auto id) { want = hana::to<char const*>(id); x = slot{std::make_unique<val>(nbdl::js::get_element_by_id(id)), 1, false}; };
            switch (r.below(6))
            {
              case 0: find("a"_s); break;
              case 1: find("name"_s); break;
              case 2: find("name2"_s); break;
              case 3: find("a-longer-name"_s); break;
              case 4: find("a-longer-name-than-that"_s); break;
              case 5: find("absent"_s); break;
            }
            trace += " found " + want;
            std::string const is = web::text("var v = Module.NBDL_DETAIL_JS_GET($0); return v === null ? 'null' : v.getAttribute('id') + (document.getElementById(v.getAttribute('id')) === v ? '' : ' another')", get_handle(*x.v));
            std::string const should = web::text("return document.getElementById('" + want + "') === null ? 'null' : '" + want + "'");
            web::check(is == should, "element", trace + ": " + is + " instead of " + should);
            web::count("elements");
          } break;
          case 0: x = slot{}; trace += " gone"; break;
          case 1: x = slot{std::make_unique<val>()}; trace += " made"; break;
          case 2: if (o && o != &x) { x.v = nullptr; x = slot{std::make_unique<val>(*o->v), o->is, o->known}; trace += " copies " + std::to_string(from); } break;
          case 3: if (o && o != &x) { x.v = nullptr; x = slot{std::make_unique<val>(std::move(*o->v)), o->is, o->known}; o->known = false; trace += " takes " + std::to_string(from); } break;
          case 4: if (o && x.v) { *x.v = *o->v; x.is = o->is; x.known = o->known; trace += " = " + std::to_string(from); web::count(o == &x ? "assigned to itself" : "assigned"); } break;
          case 5: if (o && o != &x && x.v) { *x.v = std::move(*o->v); x.is = o->is; x.known = o->known; o->known = false; trace += " = move " + std::to_string(from); } break;
          case 6: if (x.v) { NBDL_JS_TRANSFORM(*x.v, function(v) { return [v]; }); x.known = false; trace += " wrapped";
                    web::text("var v = Module.NBDL_DETAIL_JS_GET($0); if (!Array.isArray(v) || v.length !== 1) throw 'not wrapped'; return ''", get_handle(*x.v)); } break;
          case 7: if (x.v && o)
                  {
                    bool const equal = hana::equal(*x.v, *o->v);
                    bool const want = web::text("return Module.NBDL_DETAIL_JS_GET($0) === Module.NBDL_DETAIL_JS_GET($1) ? 'y' : 'n'", get_handle(*x.v), get_handle(*o->v)) == "y";
                    web::check(equal == want, "equal", trace);
                    if (x.known && o->known && x.is == o->is && x.is >= 9) web::check(equal, "equal", trace);
                    web::count(equal ? "equal" : "different");
                  } break;
          case 8: if (x.v) { emscripten::val const e = *x.v; emscripten::val g = emscripten::val::module_property("nbdl_detail_json_val")[get_handle(*x.v)];
                    web::check(e == g || (x.is == 5 && x.known), "as val", trace); } break;
          default:
            if (!x.v) x = slot{std::make_unique<val>()};
            x.is = static_cast<int>(r.below(14)); x.known = true;
            make(get_handle(*x.v), x.is);
            trace += " := " + std::to_string(x.is);
        }
        // every handle names what it was last given
        long live = 0;
        std::string hs = "[";
        for (std::size_t i = 0; i < s.size(); ++i)
          if (s[i].v)
          {
            ++live;
            hs += std::to_string(get_handle(*s[i].v)) + ",";
            if (!s[i].known) continue;
            std::string const is = name(get_handle(*s[i].v));
            if (!web::check(is == name_of(s[i].is), "value", trace + ": " + std::to_string(i) + " is " + is + " instead of " + name_of(s[i].is))) return;
          }
        // and nothing else is kept
        std::string const extra = web::text("var h = " + hs + "]; return Object.keys(Module.nbdl_detail_json_val).filter(k => !h.includes(+k)).length");
        if (!web::check(extra == std::to_string(before), "kept", trace + ": " + extra + " values are kept besides " + std::to_string(live) + " handles")) return;
        web::count("handles seen", static_cast<std::uint64_t>(live));
      }
      web::distinct(trace);
      if (r.chance(1, 50)) web::sample(trace);
    }
    web::check(web::entries() == before, "kept", "after all handles are gone");
    web::check(low_memory::alive == alive, "memory-kept", std::to_string(low_memory::alive - alive) + " allocations");
    web::check_memory();
  }

  // ------------------------------------------------------------ callbacks
  void callbacks(Rng& r)
  {
    web::reset();
    EM_ASM({ window.things = {}; });
    int const before = web::entries();
    long const alive = low_memory::alive;
    {
      struct log_t { std::string got; int depth = 0; } log;
      struct slot { std::unique_ptr<nbdl::js::callback_t> c; int id = 0; };
      std::vector<slot> s(static_cast<std::size_t>(r.range(1, 5)));
      std::vector<std::unique_ptr<val>> copies;
      std::string trace, want;
      int next = 0;
      std::function<void(int, std::string)> inside; // what a called function does
      auto const make_one = [&](slot& x)
      {
        int const id = ++next;
        bool const by_value = r.coin();
        x.c = nullptr;
        // a function object which must not be used once it is gone
        auto here = std::make_shared<int>(id);
        if (by_value)
          x.c = std::make_unique<nbdl::js::callback_t>(nbdl::js::callback([&, id, here](val v)
          {
            log.got += "<" + std::to_string(*here) + " " + name(get_handle(v));
            if (inside) inside(id, "");
            log.got += " " + name(get_handle(v)) + ">";
          }));
        else
          x.c = std::make_unique<nbdl::js::callback_t>(nbdl::js::callback([&, id, here](auto const& v)
          {
            log.got += "<" + std::to_string(*here) + " " + name(get_handle(v));
            log.got += " " + name(get_handle(v)) + ">";
          }));
        x.id = id;
      };
      for (int steps = static_cast<int>(r.range(4, 25)); steps-- > 0;)
      {
        slot& x = s[r.below(s.size())];
        switch (r.below(7))
        {
          case 0: make_one(x); trace += " make " + std::to_string(x.id); break;
          case 1: if (x.c) { trace += " drop " + std::to_string(x.id); x.c = nullptr; } break;
          case 2: if (x.c) { slot& y = s[r.below(s.size())]; if (&y != &x) { y.c = std::move(x.c); y.id = x.id; trace += " move " + std::to_string(y.id); }
                             else { auto p = std::make_unique<nbdl::js::callback_t>(std::move(*x.c)); x.c = std::move(p); } } break;
          case 3: if (x.c)
                  { // a copy of the function is the function
                    val f{*x.c};
                    web::check(hana::equal(f, *x.c), "copy", trace);
                    int const thing = static_cast<int>(r.below(14));
                    val a; make(get_handle(a), thing);
                    log.got.clear();
                    EM_ASM_({ Module.NBDL_DETAIL_JS_GET($0)(Module.NBDL_DETAIL_JS_GET($1)); }, get_handle(f), get_handle(a));
                    want = "<" + std::to_string(x.id) + " " + name_of(thing) + " " + name_of(thing) + ">";
                    web::check(log.got == want, "called", trace + ": " + log.got + " instead of " + want);
                    web::count("calls");
                  } break;
          case 4: if (x.c)
                  { // an event of a form
                    bool const submit = r.coin();
                    auto const n = web::text(std::string("var n = 0; Module.NBDL_DETAIL_JS_GET($0)({type: '") + (submit ? "submit" : "click") + "', thing: 50, preventDefault: function() { ++n; }}); return n", get_handle(*x.c));
                    web::check(n == (submit ? "1" : "0"), "prevented", trace + ": " + n);
                    web::count("calls");
                  } break;
          case 5: if (x.c)
                  { // several calls, and calls from within calls
                    int const n = static_cast<int>(r.range(1, 4));
                    log.got.clear(); want.clear();
                    slot* other = nullptr;
                    for (auto& y : s) if (y.c && y.id != x.id && r.coin()) other = &y;
                    int left = 1;
                    if (other)
                      inside = [&](int id, std::string)
                      {
                        if (id != x.id || left-- <= 0) return;
                        web::text("Module.NBDL_DETAIL_JS_GET($0)(7777); return ''", get_handle(*other->c));
                      };
                    for (int i = 0; i < n; ++i)
                      web::text("Module.NBDL_DETAIL_JS_GET($0)(" + std::to_string(i) + "); return ''", get_handle(*x.c));
                    inside = nullptr;
                    bool const nested = other && left <= 0;
                    std::size_t calls = 0;
                    for (char c : log.got) calls += c == '<';
                    web::check(calls == static_cast<std::size_t>(n) + (nested ? 1 : 0), "calls", trace + ": " + log.got);
                    for (int i = 0; i < n; ++i)
                    {
                      auto const open = "<" + std::to_string(x.id) + " number " + std::to_string(i), end = " number " + std::to_string(i) + ">";
                      web::check(log.got.find(open) != std::string::npos && log.got.find(end) != std::string::npos, "called", trace + ": " + log.got);
                    }
                    web::count("calls", calls);
                    if (nested) web::count("calls within calls");
                  } break;
          default: if (x.c) copies.push_back(std::make_unique<val>(*x.c)); break;
        }
        std::size_t live = copies.size();
        for (auto& y : s) if (y.c) live += 1;
        // a function keeps itself and the value it was last called with
        std::size_t functions = live - copies.size();
        int const n = web::entries() - before;
        if (!web::check(n >= static_cast<int>(live) && n <= static_cast<int>(live + functions), "kept",
              trace + ": " + std::to_string(n) + " values for " + std::to_string(functions) + " functions and " + std::to_string(copies.size()) + " copies")) return;
      }
      web::distinct(trace);
      if (r.chance(1, 50)) web::sample(trace);
    }
    web::check(web::entries() == before, "kept", "after all functions are gone: " + std::to_string(web::entries() - before));
    web::check(low_memory::alive == alive, "memory-kept", std::to_string(low_memory::alive - alive) + " allocations");
    web::check_memory();
  }

  // ------------------------------------------------------------ promises
  // a function of C that promises: handles of resolve, of reject, and of the values
  extern "C" void c34_native(int resolve, int reject, int a, int b)
  {
    EM_ASM_({ window.later.push(function() { if (window.rejects) Module.NBDL_DETAIL_JS_GET($1)(Module.NBDL_DETAIL_JS_GET($2)); else Module.NBDL_DETAIL_JS_GET($0)(Module.NBDL_DETAIL_JS_GET($2)); });
              window.seen = JSON.stringify([Module.NBDL_DETAIL_JS_GET($2), Module.NBDL_DETAIL_JS_GET($3)]); if (window.now) window.later.pop()(); }, resolve, reject, a, b);
  }
  void promises(Rng& r)
  {
    web::reset();
    bool const rejects = r.chance(1, 3), now = r.coin();
    // a promise is settled once, whatever is called after that
    int const again = r.chance(1, 3) ? static_cast<int>(r.range(1, 3)) : 0;
    int const kind = static_cast<int>(r.below(5)), n = static_cast<int>(r.range(1, 4));
    std::string const text = r.from("abcdef", r.below(8));
    EM_ASM_({ window.later = []; window.seen = ''; window.things = {}; window.rejects = $0 != 0; window.now = $1 != 0; window.again = $2; }, rejects, now, again);
    web::text("window.answer = '" + text + "'; return ''");
    int const before = web::entries();
    std::string got;
    long alive = 0;
    std::string trace = std::to_string(kind) + (rejects ? " rejects" : " resolves") + (again ? " again " + std::to_string(again) : "") + (now ? " now " : " later ") + text;
    auto const note = [&](char const* what) { return [&got, what](auto const& v) { got += std::string(what) + web::json(get_handle(v)) + ";"; }; };
    // the first makes whatever is made once
    for (int i = 0; i < n; ++i)
    {
      got.clear();
      auto const settle = [&]
      {
        if (!now)
        {
          web::check(got.empty(), "too-early", trace + ": " + got);
          web::text("var l = window.later; window.later = []; for (var f of l) f(); return ''");
        }
      };
      std::string want = (rejects ? "no\"" : "yes\"") + text + "\";";
      {
        val a, b, c;
        web::put(get_handle(a), "'A" + text + "'");
        web::put(get_handle(b), "'B'");
        web::put(get_handle(c), "{c: 1}");
        switch (kind)
        {
          case 0:
            nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE(function(resolve, reject)
            {
              var f = function() { (window.rejects ? reject : resolve)(window.answer); if (window.again & 1) resolve(99); if (window.again & 2) reject(98); };
              if (window.now) f(); else window.later.push(f);
            }), note("yes"), nbdl::catch_(note("no"))));
            break;
          case 1:
            nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject)
            {
              var f = function() { (window.rejects ? reject : resolve)(window.answer); if (window.again & 1) resolve(99); if (window.again & 2) reject(98); };
              window.seen = JSON.stringify([a, b, c]);
              if (window.now) f(); else window.later.push(f);
            }, a, b, c), note("yes"), nbdl::catch_(note("no"))));
            web::check(web::text("return window.seen") == "[\"A" + text + "\",\"B\",{\"c\":1}]", "captured", trace + ": " + web::text("return window.seen"));
            break;
          case 2:
            nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject)
            {
              // the value is kept as long as the promise needs it
              var f = function() { (window.rejects ? reject : resolve)(a.slice(1)); };
              if (window.now) f(); else window.later.push(f);
            }, a), note("yes"), nbdl::catch_(note("no"))));
            break;
          case 3:
          {
            nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_C_FUNC(c34_native, a, b), note("yes"), nbdl::catch_(note("no"))));
            web::check(web::text("return window.seen") == "[\"A" + text + "\",\"B\"]", "captured", trace + ": " + web::text("return window.seen"));
            want = (rejects ? "no\"A" : "yes\"A") + text + "\";";
            break;
          }
          default:
          {
            // two, one after the other
            nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE(function(resolve, reject)
            {
              var f = function() { resolve('first'); };
              if (window.now) f(); else window.later.push(f);
            })
            , note("one")
            , NBDL_JS_PROMISE(function(resolve, reject)
            {
              var f = function() { (window.rejects ? reject : resolve)(window.answer); if (window.again & 1) resolve(99); if (window.again & 2) reject(98); };
              f();
            }), note("yes"), nbdl::catch_(note("no"))));
            want = "one\"first\";" + want;
          }
        }
        settle();
      }
      web::check(got == want, "continued", trace + ": " + got + " instead of " + want);
      web::count(rejects ? "rejected" : "resolved");
      if (again) web::count("settled more than once");
      web::count(now ? "settled at once" : "settled later");
      EM_ASM({ window.later = []; });
      int const left = web::entries() - before;
      web::check(left == 0, "kept", trace + ": " + std::to_string(left) + " JavaScript values after " + std::to_string(i + 1) + " promises");
      if (i == 0) alive = low_memory::alive;
      else web::check(low_memory::alive == alive, "memory-kept", trace + ": " + std::to_string(low_memory::alive - alive) + " allocations per promise");
    }
    web::distinct(trace);
    if (r.chance(1, 50)) web::sample(trace);
    web::check_memory();
  }
}
VMON_MODE("handles", handles, "handles seen", "assigned", "assigned to itself", "equal", "different", "elements")
VMON_MODE("callbacks", callbacks, "calls", "calls within calls")
VMON_MODE("promises", promises, "resolved", "rejected", "settled at once", "settled later", "settled more than once")
WEB_MAIN
