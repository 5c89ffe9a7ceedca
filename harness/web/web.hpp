// Everything a harness for the code for the web starts with: include after the C++ headers of
// nbdl that need no JavaScript.
#pragma once
#include "low_memory.hpp"
#include "web_host.hpp"
#include <emscripten.h>
#include <emscripten/val.h>
// a pointer has the size of an int there
#define static_assert(...) static_assert(true)
#include <nbdl/detail/js_val.hpp>
#undef static_assert
#include <nbdl/js.hpp>
#include "../vmon.hpp"

namespace web
{
  // the number of entries in the table of JavaScript values
  inline int entries() { return EM_ASM_INT({ return Object.keys(Module.nbdl_detail_json_val).length; }); }
  inline bool has_entry(int handle) { return EM_ASM_INT({ return Module.nbdl_detail_json_val.hasOwnProperty($0) ? 1 : 0; }, handle); }
  inline void reset()
  {
    static bool const once = []
    {
      if (!web_host::called)
        web_host::called = [](int which, void* p) { if (which == 0) nbdl::webui::detail::_nbdl_webui_detail_event_callback(p); return 0; };
      nbdl::js::init();
      return true;
    }();
    (void) once;
    EM_ASM({ window.reset(); });
  }
  // a text computed by JavaScript
  inline std::string text(std::string const& code, int a = 0, int b = 0)
  {
    web_host::tell("T " + std::to_string(a) + " " + std::to_string(b) + " " + web_host::hex(code));
    std::string const r = web_host::answer();
    return web_host::unhex(r.data(), r.size());
  }
  inline std::string json(int handle) { return text("return JSON.stringify(Module.NBDL_DETAIL_JS_GET($0)) + ''", handle); }
  // puts a JavaScript value, written as code
  inline void put(int handle, std::string const& code) { text("Module.NBDL_DETAIL_JS_SET($0, " + code + "); return ''", handle); }

  // the notes of the monitor are not the program's memory
  struct note { note() { ++low_memory::uncounted; } ~note() { --low_memory::uncounted; } };
  inline void count(char const* name, std::uint64_t n = 1) { note x; vmon::count(name, n); }
  inline void distinct(std::string_view s) { note x; vmon::distinct(s); }
  inline void sample(std::string const& s) { note x; vmon::sample(s); }
  inline bool check(bool c, char const* key, std::string const& detail) { note x; return vmon::check(c, key, detail); }

  inline int main_(int argc, char** argv)
  {
    std::string s = WEB_HOST_SCRIPT;
    web_host::script() = s;
    return low_memory::run(argc, argv, [](int c, char** v) { return ::vmon::main_(c, v); });
  }
  inline void check_memory()
  {
    check(web_host::bad_memory == 0, "memory", web_host::bad_memory_what);
    web_host::bad_memory = 0;
  }
}
#define WEB_MAIN int main(int argc, char** argv) { return web::main_(argc, argv); }
