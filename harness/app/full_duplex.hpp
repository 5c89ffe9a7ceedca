// A stand-in for the library full_duplex, which nbdl's application layer is written against
// and which is not installed.  It has what nbdl uses of it: promises which are resolved with a
// value, an error or terminate, pipelines of them, loops, and endpoints with an input
// pipeline, a queue and an output pipeline.  Values go from stage to stage as they are resolved;
// errors skip the stages that do not ask for them.  It also watches what the stages do:
// every stage has to resolve exactly once per input.
#ifndef VERIF_FULL_DUPLEX_HPP
#define VERIF_FULL_DUPLEX_HPP

#include <boost/hana.hpp>
#include <functional>
#include <memory>
#include <optional>
#include <queue>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>

namespace full_duplex
{
  namespace hana = boost::hana;

  struct void_input_t { };
  constexpr void_input_t void_input{};
  struct terminate { };
  struct queue_full_t { };

  template <typename T> struct error { T value; };
  struct make_error_fn
  { template <typename T> auto operator()(T&& x) const { return error<std::decay_t<T>>{std::forward<T>(x)}; } };
  constexpr make_error_fn make_error{};

  template <typename T> struct is_error_t : std::false_type { };
  template <typename T> struct is_error_t<error<T>> : std::true_type { };
  template <typename T> constexpr bool is_error = is_error_t<std::decay_t<T>>::value;

  // what the stages did
  struct monitor_t
  {
    std::size_t stages = 0, pipelines = 0, ended = 0, twice = 0, errors = 0, opened = 0, closed = 0;
    std::string what;
  };
  inline monitor_t& monitor() { static thread_local monitor_t m; return m; }

  // what a stage takes: values, errors or both
  enum class takes { values, errors, any };

  template <takes Takes, typename F>
  struct stage_t { static constexpr takes kind = Takes; F fn; };
  template <typename ...S>
  struct chain_t { std::tuple<S...> stages; };

  template <typename T> struct is_chain_t : std::false_type { };
  template <typename ...S> struct is_chain_t<chain_t<S...>> : std::true_type { };
  template <typename T> constexpr bool is_chain = is_chain_t<std::decay_t<T>>::value;

  template <takes Takes, typename F>
  constexpr auto one(F f) { return chain_t<stage_t<Takes, F>>{std::tuple<stage_t<Takes, F>>{stage_t<Takes, F>{std::move(f)}}}; }

  struct promise_fn { template <typename F> constexpr auto operator()(F f) const { return one<takes::values>(std::move(f)); } };
  constexpr promise_fn promise{};
  struct promise_any_fn { template <typename F> constexpr auto operator()(F f) const { return one<takes::any>(std::move(f)); } };
  constexpr promise_any_fn promise_any{};

  template <typename F>
  struct mapper
  {
    F fn;
    template <typename R, typename X>
    void operator()(R& resolve, X&& x)
    {
      if constexpr(std::is_void_v<decltype(fn(std::forward<X>(x)))>) { fn(std::forward<X>(x)); resolve(void_input); }
      else resolve(fn(std::forward<X>(x)));
    }
  };
  struct map_fn { template <typename F> constexpr auto operator()(F f) const { return one<takes::values>(mapper<F>{std::move(f)}); } };
  constexpr map_fn map{};
  struct map_any_fn { template <typename F> constexpr auto operator()(F f) const { return one<takes::any>(mapper<F>{std::move(f)}); } };
  constexpr map_any_fn map_any{};

  template <typename F>
  struct tapper
  {
    F fn;
    template <typename R, typename X>
    void operator()(R& resolve, X&& x) { fn(x); resolve(std::forward<X>(x)); }
  };
  struct tap_fn { template <typename F> constexpr auto operator()(F f) const { return one<takes::values>(tapper<F>{std::move(f)}); } };
  constexpr tap_fn tap{};

  template <typename F>
  struct catcher
  {
    F fn;
    template <typename R, typename X>
    void operator()(R& resolve, error<X> x)
    {
      if constexpr(std::is_void_v<decltype(fn(std::move(x.value)))>) { fn(std::move(x.value)); resolve(void_input); }
      else resolve(fn(std::move(x.value)));
    }
  };
  struct catch_error_fn { template <typename F> constexpr auto operator()(F f) const { return one<takes::errors>(catcher<F>{std::move(f)}); } };
  constexpr catch_error_fn catch_error{};

  template <typename X>
  struct lifted
  {
    X value;
    template <typename R, typename I>
    void operator()(R& resolve, I&&) { resolve(value); }
  };
  struct promise_lift_fn { template <typename X> constexpr auto operator()(X x) const { return one<takes::values>(lifted<X>{std::move(x)}); } };
  constexpr promise_lift_fn promise_lift{};

  template <typename X>
  constexpr auto as_chain(X x)
  {
    if constexpr(is_chain<X>) return x;
    else return promise(std::move(x));
  }
  struct do_fn
  {
    template <typename ...P>
    constexpr auto operator()(P ...p) const
    {
      return [](auto ...c)
      {
        return std::apply([](auto ...s) { return chain_t<decltype(s)...>{std::tuple<decltype(s)...>{std::move(s)...}}; }
          , std::tuple_cat(std::move(c.stages)...));
      }(as_chain(std::move(p))...);
    }
  };
  constexpr do_fn do_{};

  template <typename T>
  T& unwrap(T& x) { return x; }
  template <typename T>
  T& unwrap(std::reference_wrapper<T>& x) { return x.get(); }

  // A running pipeline.  OnEnd(pipeline, input) decides what happens after the last stage.
  template <typename State, typename Chain, typename OnEnd>
  struct running;

  template <typename P, std::size_t I>
  struct resolver
  {
    P* p = nullptr;
    bool armed = false;

    resolver() = default;
    resolver(resolver const&) = delete;

    decltype(auto) get_state() const { return unwrap(p->state); }

    template <typename X>
    void operator()(X&& x)
    {
      if (!armed)
      {
        ++monitor().twice;
        monitor().what = "stage " + std::to_string(I) + " of " + std::to_string(P::size) + " resolved without an input to answer";
        return;
      }
      armed = false;
      if constexpr(std::is_same_v<std::decay_t<X>, terminate>) p->end();
      else p->template enter<I + 1>(std::forward<X>(x));
    }
  };

  template <typename P, typename Seq> struct resolvers;
  template <typename P, std::size_t ...I>
  struct resolvers<P, std::index_sequence<I...>> { std::tuple<resolver<P, I>...> all; };

  template <typename State, typename ...S, typename OnEnd>
  struct running<State, chain_t<S...>, OnEnd>
  {
    static constexpr std::size_t size = sizeof...(S);
    State state;
    std::tuple<S...> stages;
    OnEnd on_end;
    resolvers<running, std::make_index_sequence<size>> res;

    running(State s, chain_t<S...> c, OnEnd e)
      : state(std::move(s)), stages(std::move(c.stages)), on_end(std::move(e))
    {
      ++monitor().pipelines;
      std::apply([this](auto& ...r) { ((r.p = this), ...); }, res.all);
    }
    running(running const&) = delete;
    ~running() { ++monitor().ended; }

    template <std::size_t I, typename X>
    void enter(X&& x)
    {
      if constexpr(I == size) on_end(*this, std::forward<X>(x));
      else
      {
        using Stage = std::tuple_element_t<I, std::tuple<S...>>;
        if constexpr(Stage::kind == takes::any || (Stage::kind == takes::errors) == is_error<X>)
        {
          ++monitor().stages;
          auto& r = std::get<I>(res.all);
          r.armed = true;
          std::get<I>(stages).fn(r, std::forward<X>(x));
        }
        else enter<I + 1>(std::forward<X>(x));
      }
    }
    void end() { delete this; }
  };

  struct end_once
  {
    template <typename P, typename X>
    void operator()(P& p, X&& x) const { if (is_error<X>) ++monitor().errors; p.end(); }
  };
  struct end_again
  {
    template <typename P, typename X>
    void operator()(P& p, X&& x) const
    {
      if constexpr(is_error<X>) { ++monitor().errors; p.end(); }
      else p.template enter<0>(void_input);
    }
  };
  template <typename End, typename State, typename Chain>
  void run_chain(State s, Chain c)
  { (new running<State, Chain, End>(std::move(s), std::move(c), End{}))->template enter<0>(void_input); }

  struct run_async_with_state_fn
  { template <typename State, typename ...P> void operator()(State s, P ...p) const { run_chain<end_once>(std::move(s), do_(std::move(p)...)); } };
  constexpr run_async_with_state_fn run_async_with_state{};
  struct run_async_loop_with_state_fn
  { template <typename State, typename ...P> void operator()(State s, P ...p) const { run_chain<end_again>(std::move(s), do_(std::move(p)...)); } };
  constexpr run_async_loop_with_state_fn run_async_loop_with_state{};

  // endpoints
  namespace event
  {
    struct init_t { }; struct read_message_t { }; struct write_message_t { }; struct error_t { }; struct terminate_t { };
    template <typename Tag>
    struct key_t
    {
      template <typename X>
      constexpr auto operator=(X x) const { return hana::make_pair(hana::type_c<Tag>, std::move(x)); }
      constexpr key_t() = default;
      key_t(key_t const&) = default;
    };
    constexpr key_t<init_t> init{}; constexpr key_t<read_message_t> read_message{}; constexpr key_t<write_message_t> write_message{};
    constexpr key_t<error_t> error{}; constexpr key_t<terminate_t> terminate{};
  }
  struct endpoint_fn
  { template <typename ...E> constexpr auto operator()(E ...e) const { return hana::make_tuple(hana::make_map(std::move(e)...)); } };
  constexpr endpoint_fn endpoint{};
  struct endpoint_compose_fn
  { template <typename ...E> constexpr auto operator()(E ...e) const { return hana::flatten(hana::make_tuple(std::move(e)...)); } };
  constexpr endpoint_compose_fn endpoint_compose{};

  template <typename State, typename Queue, typename Endpoints>
  struct endpoint_object : std::enable_shared_from_this<endpoint_object<State, Queue, Endpoints>>
  {
    State state_;
    Queue queue;
    Endpoints endpoints;
    bool is_ready = false, is_writing = false, is_over = false;

    endpoint_object(State s, Queue q, Endpoints e)
      : state_(std::move(s)), queue(std::move(q)), endpoints(std::move(e))
    { ++monitor().opened; }
    endpoint_object(endpoint_object const&) = delete;
    ~endpoint_object() { ++monitor().closed; }

    State& state() { return state_; }

    // keeps the endpoint alive as long as one of its pipelines runs
    struct keep
    {
      std::shared_ptr<endpoint_object> self;
      State& get() { return self->state_; }
    };
    friend State& unwrap(keep& k) { return k.self->state_; }

    template <typename Tag>
    auto chain()
    {
      return hana::unpack(endpoints, [&](auto const& ...e)
      {
        auto part = [&](auto const& m)
        {
          if constexpr(decltype(hana::contains(m, hana::type_c<Tag>))::value)
          {
            auto const& x = m[hana::type_c<Tag>];
            if constexpr(is_chain<decltype(x)>) return x;
            else return x(*this);
          }
          else return chain_t<>{};
        };
        return do_(part(e)...);
      });
    }
    // errors are told to the endpoint, after which it is over
    template <int part>
    struct end_part
    {
      template <typename P, typename X>
      void operator()(P& p, X&& x) const
      {
        std::shared_ptr<endpoint_object> self = p.state.self;
        if constexpr(is_error<X>)
        {
          auto e = x;
          p.end();
          self->fail(std::move(e.value));
        }
        else if constexpr(part == 0) { p.end(); self->ready(); }
        else if constexpr(part == 1) { if (self->is_over) p.end(); else p.template enter<0>(void_input); }
        else { p.end(); self->written(); }
      }
    };
    template <int part, typename Chain, typename X>
    void run_part(Chain c, X&& x)
    {
      (new running<keep, Chain, end_part<part>>(keep{this->shared_from_this()}, std::move(c), end_part<part>{}))
        ->template enter<0>(std::forward<X>(x));
    }
    void start() { run_part<0>(chain<event::init_t>(), void_input); }
    void ready()
    {
      is_ready = true;
      auto self = this->shared_from_this();
      run_part<1>(chain<event::read_message_t>(), void_input);
      write();
    }
    void write()
    {
      if (!is_ready || is_writing || is_over || queue.empty()) return;
      is_writing = true;
      run_part<2>(chain<event::write_message_t>(), queue.front());
    }
    void written()
    {
      is_writing = false;
      if (!queue.empty()) queue.pop();
      write();
    }
    template <typename Message>
    void send_message(Message&& m) { queue.push(std::forward<Message>(m)); write(); }

    template <typename E>
    void fail(E e)
    {
      if (is_over) return;
      is_over = true;
      auto self = this->shared_from_this();
      (new running<keep, decltype(chain<event::error_t>()), end_once>(keep{self}, chain<event::error_t>(), end_once{}))
        ->template enter<0>(e);
      (new running<keep, decltype(chain<event::terminate_t>()), end_once>(keep{self}, chain<event::terminate_t>(), end_once{}))
        ->template enter<0>(void_input);
    }
  };
  struct endpoint_open_fn
  {
    template <typename State, typename Queue, typename Endpoints>
    std::shared_ptr<endpoint_object<State, Queue, Endpoints>> operator()(State s, Queue q, Endpoints e) const
    {
      auto x = std::make_shared<endpoint_object<State, Queue, Endpoints>>(std::move(s), std::move(q), std::move(e));
      x->start();
      return x;
    }
  };
  constexpr endpoint_open_fn endpoint_open{};
}
#endif
