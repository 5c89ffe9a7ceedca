// C21: a visitor of one type runs for values of that very type, whatever else they convert to.
#include <boost/hana.hpp>
namespace hana = boost::hana;
#include <nbdl/match.hpp>
#include <nbdl/match_path.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/ext/std/unordered_map.hpp>
#include <string>
#include <vector>
#include "vmon.hpp"

using vmon::Rng;
using namespace hana::literals;
namespace
{
  template <typename T> std::string type_name() { return typeid(T).name(); }

  // types which are close to one another
  enum plain_kind { plain_a = 1, plain_b }; enum class strong_kind : int { a = 1, b };
  struct animal { int legs = 4; }; struct dog : animal { int barks = 2; }; struct from_int { int x; from_int(int i = 1) : x(i) { } operator int() const { return x; } };
  template <typename ...T> struct kin
  {
    using var = nbdl::variant<T...>;
    template <typename H> static void of(H value)
    {
      var v(value);
      auto m = hana::make_map(hana::make_pair("v"_s, v), hana::make_pair("i"_s, value));
      vmon::check(v.template is<H>() && (int(v.template is<T>()) + ...) == 1, "is", type_name<H>());
      ([&] {
        bool const is = std::is_same_v<H, T>;
        int n = 0; auto f = [&](T const&) { ++n; };
        auto told = [&](char const* how) { vmon::check(n == is, "when", std::string(how) + ": asked for " + type_name<T>() + ", holds " + type_name<H>() + ", ran " + std::to_string(n)); n = 0; };
        nbdl::match(v, nbdl::match_when<T>(f)); told("variant");
        nbdl::match_when<T>(v, f); told("direct");
        nbdl::match(m, "i"_s, nbdl::match_when<T>(f)); told("value at a key");
        auto map = nbdl::mapped_overload(hana::make_map(hana::make_pair(hana::type_c<T>, [&](auto const&) { ++n; })), [](auto const&) { });
        nbdl::match(v, map); told("map of types");
        vmon::count("kin");
      }(), ...);
    }
    static void all() { (of(T{}), ...); }
  };

  void values(Rng& r)
  {
    switch (r.below(4))
    {
      case 0: kin<bool, char, signed char, unsigned char, int, unsigned>::all(); break;
      case 1: kin<short, int, unsigned long, long, float, double>::all(); break;
      case 2: kin<plain_kind, strong_kind, int, animal, dog, from_int>::all(); break;
      default: kin<char const*, std::string, std::vector<int>, hana::tuple<int>, nbdl::nothing>::all();
    }
    vmon::distinct(r.below(4));
  }
}
VMON_MODE("kin", values, "kin")
VMON_MAIN
