#ifndef VERIF_FULL_DUPLEX_FUTURE_HPP
#define VERIF_FULL_DUPLEX_FUTURE_HPP
#include <memory>
#include <utility>
namespace full_duplex
{
  // a place for a value that is made when it is known what from
  template <typename T>
  struct future
  {
    std::shared_ptr<T> value;
    template <typename ...X>
    T& operator()(X&& ...x) { value = std::make_shared<T>(std::forward<X>(x)...); return *value; }
  };
}
#endif
