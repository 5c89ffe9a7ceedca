// A stand-in for emscripten's val: a reference to a value of the node process.
#pragma once
#include <emscripten.h>
#include <array>
#include <functional>
#include <string_view>
#include <vector>

namespace emscripten
{
  class val
  {
    struct shared { long id; long uses; };
    shared* s;
    explicit val(long id) : s(new shared{id, 1}) { }
    explicit val(shared* x) : s(x) { }
    void drop() { if (s && --s->uses == 0) { web_host::tell("d " + std::to_string(s->id)); delete s; } }

    static std::string text(std::string_view x) { return "s" + web_host::hex(x.data(), x.size()); }
    template <typename T> static std::string arg(T const& x)
    {
      using U = std::decay_t<T>;
      if constexpr (std::is_same_v<U, val>) return x.ref();
      else if constexpr (std::is_same_v<U, bool>) return x ? "t" : "f";
      else if constexpr (std::is_arithmetic_v<U>) return web_host::number(static_cast<double>(x)).substr(1);
      else if constexpr (std::is_convertible_v<T const&, std::string_view>) return text(x);
      else { val const v(x); return v.ref(); }
    }
    std::string ref() const { return "v" + std::to_string(s->id); }
    static val ask(std::string const& c) { web_host::tell(c); return val(std::strtol(web_host::answer().c_str(), nullptr, 10)); }
    static std::string text_of(std::string const& r) { return web_host::unhex(r.data(), r.size()); }
    static std::string put(std::string const& c) { web_host::tell(c); return web_host::answer(); }
    template <typename R> static constexpr char kind =
      std::is_void_v<R> ? '0' : std::is_same_v<R, val> ? 'v' : std::is_same_v<R, bool> ? 'b' : std::is_integral_v<R> ? 'i' : std::is_floating_point_v<R> ? 'd' : 's';
    template <typename R> static R finish(std::string const& r)
    {
      if constexpr (std::is_same_v<R, val>) return val(std::strtol(r.c_str(), nullptr, 10));
      else if constexpr (std::is_arithmetic_v<R>) return static_cast<R>(std::strtod(r.c_str(), nullptr));
      else if constexpr (!std::is_void_v<R>) return R(web_host::unhex(r.data(), r.size()));
    }

  public:
    val() : val(undefined()) { }
    val(val const& o) : s(o.s) { ++s->uses; }
    val(val&& o) : s(o.s) { o.s = undefined_(); }
    val& operator=(val const& o) { ++o.s->uses; drop(); s = o.s; return *this; }
    val& operator=(val&& o) { if (this != &o) { drop(); s = o.s; o.s = undefined_(); } return *this; }
    ~val() { drop(); }

    explicit val(char const* x) : val(ask("k " + text(x))) { }
    explicit val(std::string const& x) : val(ask("k " + text(x))) { }
    template <typename T> requires std::is_arithmetic_v<T> explicit val(T x) : val(ask("k " + arg(x))) { }

    static shared* undefined_() { return new shared{std::strtol((web_host::tell("k u"), web_host::answer()).c_str(), nullptr, 10), 1}; }
    static val undefined() { return val(undefined_()); }
    static val null() { return ask("k l"); }
    static val global(char const* name) { return ask("g " + text(name)); }
    static val module_property(char const* name) { return ask("m " + text(name)); }
    template <typename T> val operator[](T const& k) const { return ask("p " + ref() + " " + arg(k)); }
    template <typename K, typename V> void set(K const& k, V const& v) { put("s " + ref() + " " + arg(k) + " " + arg(v)); }
    template <typename R, typename... A> R call(char const* name, A&&... a) const
    {
      std::string c = std::string("c ") + kind<R> + " " + ref() + " " + text(name);
      ((c += " " + arg(a)), ...);
      return finish<R>(put(c));
    }
    template <typename... A> val operator()(A&&... a) const
    {
      std::string c = "f v " + ref();
      ((c += " " + arg(a)), ...);
      return finish<val>(put(c));
    }
    template <typename R> R as() const { return finish<R>(put(std::string("a ") + kind<R> + " " + ref())); }
    bool strictlyEquals(val const& o) const { return put("= " + ref() + " " + o.ref()) == "1"; }
    bool operator==(val const& o) const { return strictlyEquals(o); }
    bool operator!=(val const& o) const { return !strictlyEquals(o); }
    bool equals(val const& o) const { return strictlyEquals(o) || (isNothing() && o.isNothing()); }
    bool operator!() const { return !as<bool>(); }
    explicit operator bool() const { return as<bool>(); }
    bool isNothing() const { return isNull() || isUndefined(); }
    val typeOf() const { return val(text_of(put("y " + ref()))); }
    bool isString() const { return text_of(put("y " + ref())) == "string"; }
    bool isNumber() const { return text_of(put("y " + ref())) == "number"; }
    bool instanceof(val const& o) const { return put("i " + ref() + " " + o.ref()) == "1"; }
    bool in(val const& o) const { return put("? " + o.ref() + " " + ref()) == "1"; }
    template <typename... A> val new_(A&&... a) const
    {
      std::string c = "n " + ref();
      ((c += " " + arg(a)), ...);
      return finish<val>(put(c));
    }
    static val object() { return global("Object").new_(); }
    static val array() { return global("Array").new_(); }
    bool isTrue() const { return strictlyEquals(val(true)); }
    bool isFalse() const { return strictlyEquals(val(false)); }
    bool isNull() const { return strictlyEquals(null()); }
    bool isUndefined() const { return strictlyEquals(undefined()); }
  };
}
