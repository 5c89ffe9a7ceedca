// written by tools/gen_defs.py - do not edit

#if DEF_GROUP == 0
  template <> struct definition<0>
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Producer(Name("p0"_s), AccessPoints(AccessPoint(ListenPaths(Path<K<2>, K<3>>), AccessPoint(Actions(Create(), Read(), Update(), Delete()), Entity<E<1>>, Name("n2"_s), Store<spy_tag>, ListenPaths(Path<K<2>, K<3>>, Path<hana::string<'s', '5'>>), PathKey<K<3>>), Store<spy_tag>, Actions(Update()), PathKey<K<2>>, Entity<E<4>>), AccessPoint(PathKey<hana::string<'s', '5'>>, Actions(Create(), Update(), Delete()), Entity<E<1>>, Store<spy_tag>, Name("n3"_s))), Type<prod<0, 0>>), Consumers(Consumer(Type<obs<0, 0>>, Name("c0"_s)), Consumer(Type<cons<0, 1>>), Consumer(Type<cons<0, 2>>)));
    }
    using path0 = hana::tuple<K<2>>;
    using path1 = hana::tuple<K<2>, K<3>>;
    using path2 = hana::tuple<hana::string<'s', '5'>>;
    using paths_ = mpdef::list<path0, path1, path2>;
    using paths = mpdef::list<hana::type<path0>, hana::type<path1>, hana::type<path2>>;
    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<E<4>, E<1>, E<1>>, i>;
    using upstream = mpdef::list<nbdl::message::upstream_update<path0, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_create<nbdl::message::create_path<K<3>, hana::tuple<K<2>>>, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::upstream_read<path1, nbdl::message::no_impl>, nbdl::message::upstream_update<path1, nbdl::message::no_impl, E<1>>, nbdl::message::upstream_delete<path1, nbdl::message::no_impl>, nbdl::message::upstream_create<path2, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::upstream_update<path2, nbdl::message::no_impl, E<1>>, nbdl::message::upstream_delete<path2, nbdl::message::no_impl>>;
    using downstream = mpdef::list<nbdl::message::downstream_update<path0, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_create<path1, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, E<1>>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path1, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path1, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path2, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_update<path2, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path2, nbdl::message::no_impl, nbdl::message::no_impl>>;
    static constexpr bool spied[] = {true, true, true};
    static std::vector<point> points()
    {
      return {
        {"K2", 0, true, 4, {}},
        {"K2/K3", 0, true, 1, {0, 1}},
        {"S5", 0, true, 1, {1}},
      };
    }
    static std::vector<std::string> actors() { return {"P0", "S0", "C1", "C2"}; }
    // by name, in another order than defined, one actor without an argument
    static constexpr int without_argument = 0;
    template <typename Tag> static auto make_named(int base)
    {
      return nbdl::make_context<Tag>(nbdl::actor(hana::type_c<cons<0, 1>>, arg<2>{base + 2}), nbdl::actor("c0"_s, arg<1>{base + 1}), nbdl::actor(hana::type_c<cons<0, 2>>, arg<3>{base + 3}));
    }
    template <typename Tag> static auto make_placed(int base)
    { return nbdl::make_unique_context<Tag>(arg<0>{base + 0}, arg<1>{base + 1}, arg<2>{base + 2}, arg<3>{base + 3}); }
  };
#endif
#if DEF_GROUP == 1
  template <> struct definition<1>
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Consumers(Consumer(Type<obs<1, 0>>, Name("c0"_s)), Consumer(Name("c1"_s), Type<obs<1, 1>>)), Producer(Name("p0"_s), Type<prod<1, 0>>, AccessPoints(AccessPoint(Name("n1"_s), Actions(Create(), Update(), Delete()), Store<spy_tag>, ListenPaths(Path<K<2>, K<4>, hana::string<'s', '1'>>), AccessPoint(Actions(Create(), Read(), Update(), Delete()), Store<nbdl::null_store>, PathKey<K<4>>, Name("n2"_s), Entity<E<1>>), Entity<E<4>>, PathKey<hana::string<'s', '1'>>), AccessPoint(AccessPoint(Entity<E<1>>, PathKey<K<4>>, AccessPoint(PathKey<hana::string<'s', '1'>>, Actions(Create(), Read(), Update(), Delete()), Entity<E<4>>), Actions()), PathKey<K<2>>), AccessPoint(PathKey<K<4>>))));
    }
    using path0 = hana::tuple<hana::string<'s', '1'>>;
    using path1 = hana::tuple<hana::string<'s', '1'>, K<4>>;
    using path2 = hana::tuple<K<2>, K<4>, hana::string<'s', '1'>>;
    using paths_ = mpdef::list<path0, path1, path2>;
    using paths = mpdef::list<hana::type<path0>, hana::type<path1>, hana::type<path2>>;
    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<E<4>, E<1>, E<4>>, i>;
    using upstream = mpdef::list<nbdl::message::upstream_create<path0, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_update<path0, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path0, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<4>, hana::tuple<hana::string<'s', '1'>>>, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::upstream_read<path1, nbdl::message::no_impl>, nbdl::message::upstream_update<path1, nbdl::message::no_impl, E<1>>, nbdl::message::upstream_delete<path1, nbdl::message::no_impl>, nbdl::message::upstream_create<path2, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_read<path2, nbdl::message::no_impl>, nbdl::message::upstream_update<path2, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path2, nbdl::message::no_impl>>;
    using downstream = mpdef::list<nbdl::message::downstream_create<path0, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_update<path0, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path0, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path1, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, E<1>>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path1, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path1, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path2, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_read<path2, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path2, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path2, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path2, nbdl::message::no_impl, nbdl::message::no_impl>>;
    static constexpr bool spied[] = {true, false, false};
    static std::vector<point> points()
    {
      return {
        {"S1", 0, true, 4, {}},
        {"S1/K4", 0, false, 1, {}},
        {"K2/K4/S1", 0, false, 4, {0}},
      };
    }
    static std::vector<std::string> actors() { return {"P0", "S0", "S1"}; }
    // by name, in another order than defined, one actor without an argument
    static constexpr int without_argument = 0;
    template <typename Tag> static auto make_named(int base)
    {
      return nbdl::make_context<Tag>(nbdl::actor("c0"_s, arg<1>{base + 1}), nbdl::actor("c1"_s, arg<2>{base + 2}));
    }
    template <typename Tag> static auto make_placed(int base)
    { return nbdl::make_unique_context<Tag>(arg<0>{base + 0}, arg<1>{base + 1}, arg<2>{base + 2}); }
  };
#endif
#if DEF_GROUP == 2
  template <> struct definition<2>
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Producers(Producer(Type<prod<2, 0>>, AccessPoint(Actions(Read(), Delete()), PathKey<K<3>>, AccessPoints(AccessPoint(Actions(Update(), Create(), Delete(), Read()), AccessPoints(AccessPoint(Entity<E<4>>, PathKey<K<1>>, Actions(Delete(), Read(), Update(), Create()))), PathKey<hana::string<'s', '1'>>, Name("n2"_s), Entity<E<2>>), AccessPoint(ListenPaths(Path<K<3>, hana::string<'s', '1'>>, Path<K<2>>, Path<K<1>>), Store<spy_tag>, PathKey<hana::string<'s', '6'>>, Entity<E<4>>, Actions(Create(), Read(), Update(), Delete()))), Entity<E<2>>, Name("n1"_s)), Name("p0"_s)), Producer(Name("p1"_s), AccessPoints(AccessPoint(Actions(Read()), Entity<E<1>>, AccessPoint(PathKey<K<1>>), PathKey<K<1>>), AccessPoint(Entity<E<4>>, PathKey<K<2>>, AccessPoint(Store<spy_tag>, Name("n7"_s), PathKey<hana::string<'s', '4'>>, Entity<E<2>>, Actions(Create(), Read(), Update(), Delete())), Actions(Read(), Create(), Update(), Delete()), Store<nbdl::null_store>)), Type<prod<2, 1>>)), Consumers(Consumer(Name("c0"_s), Type<cons<2, 0>>), Consumer(Type<cons<2, 1>>, Name("c1"_s))));
    }
    using path0 = hana::tuple<K<3>>;
    using path1 = hana::tuple<K<3>, hana::string<'s', '1'>>;
    using path2 = hana::tuple<K<3>, hana::string<'s', '1'>, K<1>>;
    using path3 = hana::tuple<K<3>, hana::string<'s', '6'>>;
    using path4 = hana::tuple<K<1>>;
    using path5 = hana::tuple<K<2>>;
    using path6 = hana::tuple<K<2>, hana::string<'s', '4'>>;
    using paths_ = mpdef::list<path0, path1, path2, path3, path4, path5, path6>;
    using paths = mpdef::list<hana::type<path0>, hana::type<path1>, hana::type<path2>, hana::type<path3>, hana::type<path4>, hana::type<path5>, hana::type<path6>>;
    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<E<2>, E<2>, E<4>, E<4>, E<1>, E<4>, E<2>>, i>;
    using upstream = mpdef::list<nbdl::message::upstream_read<path0, nbdl::message::no_impl>, nbdl::message::upstream_delete<path0, nbdl::message::no_impl>, nbdl::message::upstream_update<path1, nbdl::message::no_impl, E<2>>, nbdl::message::upstream_create<path1, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::upstream_delete<path1, nbdl::message::no_impl>, nbdl::message::upstream_read<path1, nbdl::message::no_impl>, nbdl::message::upstream_delete<path2, nbdl::message::no_impl>, nbdl::message::upstream_read<path2, nbdl::message::no_impl>, nbdl::message::upstream_update<path2, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_create<nbdl::message::create_path<K<1>, hana::tuple<K<3>, hana::string<'s', '1'>>>, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_create<path3, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_read<path3, nbdl::message::no_impl>, nbdl::message::upstream_update<path3, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path3, nbdl::message::no_impl>, nbdl::message::upstream_read<path4, nbdl::message::no_impl>, nbdl::message::upstream_read<path5, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<2>, hana::tuple<>>, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_update<path5, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path5, nbdl::message::no_impl>, nbdl::message::upstream_create<path6, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::upstream_read<path6, nbdl::message::no_impl>, nbdl::message::upstream_update<path6, nbdl::message::no_impl, E<2>>, nbdl::message::upstream_delete<path6, nbdl::message::no_impl>>;
    using downstream = mpdef::list<nbdl::message::downstream_read<path0, nbdl::message::no_impl, E<2>>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_delete<path0, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_update<path1, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_create<path1, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path1, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, E<2>>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_delete<path2, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_read<path2, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path2, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path2, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_create<path2, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_create<path3, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_read<path3, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path3, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path3, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path3, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_read<path4, nbdl::message::no_impl, E<1>>, nbdl::message::downstream_read<path4, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_read<path5, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path5, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_create<path5, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_update<path5, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path5, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path6, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_read<path6, nbdl::message::no_impl, E<2>>, nbdl::message::downstream_read<path6, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path6, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path6, nbdl::message::no_impl, nbdl::message::no_impl>>;
    static constexpr bool spied[] = {false, false, false, true, false, false, true};
    static std::vector<point> points()
    {
      return {
        {"K3", 0, false, 2, {}},
        {"K3/S1", 0, false, 2, {3}},
        {"K3/S1/K1", 0, false, 4, {}},
        {"K3/S6", 0, true, 4, {}},
        {"K1", 1, false, 1, {3}},
        {"K2", 1, false, 4, {3}},
        {"K2/S4", 1, true, 2, {}},
      };
    }
    static std::vector<std::string> actors() { return {"P0", "P1", "C0", "C1"}; }
    // by name, in another order than defined, one actor without an argument
    static constexpr int without_argument = 0;
    template <typename Tag> static auto make_named(int base)
    {
      return nbdl::make_context<Tag>(nbdl::actor("c0"_s, arg<2>{base + 2}), nbdl::actor("p1"_s, arg<1>{base + 1}), nbdl::actor("c1"_s, arg<3>{base + 3}));
    }
    template <typename Tag> static auto make_placed(int base)
    { return nbdl::make_unique_context<Tag>(arg<0>{base + 0}, arg<1>{base + 1}, arg<2>{base + 2}, arg<3>{base + 3}); }
  };
#endif
#if DEF_GROUP == 3
  template <> struct definition<3>
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Producers(Producer(AccessPoints(AccessPoint(Store<nbdl::null_store>, Actions(Create(), Read(), Update(), Delete()), PathKey<K<1>>, Entity<E<4>>)), Type<prod<3, 0>>, Name("p0"_s)), Producer(AccessPoint(Store<spy_tag>, Entity<E<3>>, AccessPoints(AccessPoint(Entity<E<3>>, ListenPaths(Path<K<3>, K<3>>, Path<K<3>, K<3>, hana::string<'s', '3'>>), PathKey<K<3>>, AccessPoint(Actions(Create(), Read(), Update(), Delete()), Store<spy_tag>, ListenPaths(Path<K<5>>, Path<K<3>, K<3>, hana::string<'s', '3'>>), Entity<E<3>>, PathKey<hana::string<'s', '3'>>), Store<spy_tag>, Actions(Update(), Delete(), Create(), Read()))), PathKey<K<3>>, Actions(Delete(), Update())), Type<prod<3, 1>>), Producer(Type<prod<3, 2>>, AccessPoint(Entity<E<4>>, AccessPoint(AccessPoints(AccessPoint(PathKey<hana::string<'s', '4'>>)), Store<spy_tag>, PathKey<K<4>>, Entity<E<4>>, Name("n6"_s), Actions(Create(), Update(), Read(), Delete())), Actions(Create()), PathKey<K<5>>, Store<spy_tag>))), Consumers(Consumer(Type<cons<3, 0>>, Name("c0"_s)), Consumer(Type<cons<3, 1>>)));
    }
    using path0 = hana::tuple<K<1>>;
    using path1 = hana::tuple<K<3>>;
    using path2 = hana::tuple<K<3>, K<3>>;
    using path3 = hana::tuple<K<3>, K<3>, hana::string<'s', '3'>>;
    using path4 = hana::tuple<K<5>>;
    using path5 = hana::tuple<K<5>, K<4>>;
    using paths_ = mpdef::list<path0, path1, path2, path3, path4, path5>;
    using paths = mpdef::list<hana::type<path0>, hana::type<path1>, hana::type<path2>, hana::type<path3>, hana::type<path4>, hana::type<path5>>;
    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<E<4>, E<3>, E<3>, E<3>, E<4>, E<4>>, i>;
    using upstream = mpdef::list<nbdl::message::upstream_create<nbdl::message::create_path<K<1>, hana::tuple<>>, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_read<path0, nbdl::message::no_impl>, nbdl::message::upstream_update<path0, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path0, nbdl::message::no_impl>, nbdl::message::upstream_delete<path1, nbdl::message::no_impl>, nbdl::message::upstream_update<path1, nbdl::message::no_impl, E<3>>, nbdl::message::upstream_update<path2, nbdl::message::no_impl, E<3>>, nbdl::message::upstream_delete<path2, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<3>, hana::tuple<K<3>>>, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::upstream_read<path2, nbdl::message::no_impl>, nbdl::message::upstream_create<path3, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::upstream_read<path3, nbdl::message::no_impl>, nbdl::message::upstream_update<path3, nbdl::message::no_impl, E<3>>, nbdl::message::upstream_delete<path3, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<5>, hana::tuple<>>, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<4>, hana::tuple<K<5>>>, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_update<path5, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_read<path5, nbdl::message::no_impl>, nbdl::message::upstream_delete<path5, nbdl::message::no_impl>>;
    using downstream = mpdef::list<nbdl::message::downstream_create<path0, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path0, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path0, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_delete<path1, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_update<path1, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_update<path2, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path2, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path2, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_read<path2, nbdl::message::no_impl, E<3>>, nbdl::message::downstream_read<path2, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_create<path3, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_read<path3, nbdl::message::no_impl, E<3>>, nbdl::message::downstream_read<path3, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path3, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path3, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path4, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_create<path5, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_update<path5, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_read<path5, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path5, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_delete<path5, nbdl::message::no_impl, nbdl::message::no_impl>>;
    static constexpr bool spied[] = {false, true, true, true, true, true};
    static std::vector<point> points()
    {
      return {
        {"K1", 0, false, 4, {}},
        {"K3", 1, true, 3, {}},
        {"K3/K3", 1, true, 3, {2}},
        {"K3/K3/S3", 1, true, 3, {2, 3}},
        {"K5", 2, true, 4, {3}},
        {"K5/K4", 2, true, 4, {}},
      };
    }
    static std::vector<std::string> actors() { return {"P0", "P1", "P2", "C0", "C1"}; }
    // by name, in another order than defined, one actor without an argument
    static constexpr int without_argument = 2;
    template <typename Tag> static auto make_named(int base)
    {
      return nbdl::make_context<Tag>(nbdl::actor(hana::type_c<cons<3, 1>>, arg<4>{base + 4}), nbdl::actor("c0"_s, arg<3>{base + 3}), nbdl::actor("p0"_s, arg<0>{base + 0}), nbdl::actor(hana::type_c<prod<3, 1>>, arg<1>{base + 1}));
    }
    template <typename Tag> static auto make_placed(int base)
    { return nbdl::make_unique_context<Tag>(arg<0>{base + 0}, arg<1>{base + 1}, arg<2>{base + 2}, arg<3>{base + 3}, arg<4>{base + 4}); }
  };
#endif
#if DEF_GROUP == 0
  template <> struct definition<4>
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Consumers(Consumer(Type<cons<4, 0>>), Consumer(Name("c1"_s), Type<obs<4, 1>>)), Producers(Producer(Type<prod<4, 0>>, AccessPoints(AccessPoint(Entity<E<2>>, PathKey<hana::string<'s', '2'>>, Name("n1"_s), Actions(Create(), Delete(), Update()), AccessPoints(AccessPoint(Actions(Update()), Store<spy_tag>, Entity<E<1>>, PathKey<K<3>>, ListenPaths(Path<hana::string<'s', '6'>>, Path<K<5>, K<2>>)), AccessPoint(Name("n2"_s), PathKey<K<5>>, AccessPoint(PathKey<hana::string<'s', '1'>>, AccessPoints(AccessPoint(Entity<E<1>>, Store<nbdl::null_store>, PathKey<K<3>>, Actions(Create(), Read(), Update(), Delete())), AccessPoint(Actions(), PathKey<hana::string<'s', '3'>>)), Entity<E<1>>)))), AccessPoint(Actions(Create(), Read(), Update(), Delete()), Name("n4"_s), Store<nbdl::null_store>, Entity<E<1>>, PathKey<K<4>>))), Producer(Name("p1"_s), AccessPoints(AccessPoint(Entity<E<1>>, PathKey<hana::string<'s', '6'>>, Store<spy_tag>, Actions(Create(), Read(), Update(), Delete())), AccessPoint(AccessPoints(AccessPoint(PathKey<K<2>>, Entity<E<1>>, Actions(Create(), Read(), Update(), Delete()), Store<spy_tag>)), PathKey<K<5>>)), Type<prod<4, 1>>)));
    }
    using path0 = hana::tuple<hana::string<'s', '2'>>;
    using path1 = hana::tuple<hana::string<'s', '2'>, K<3>>;
    using path2 = hana::tuple<hana::string<'s', '2'>, K<5>, hana::string<'s', '1'>, K<3>>;
    using path3 = hana::tuple<K<4>>;
    using path4 = hana::tuple<hana::string<'s', '6'>>;
    using path5 = hana::tuple<K<5>, K<2>>;
    using paths_ = mpdef::list<path0, path1, path2, path3, path4, path5>;
    using paths = mpdef::list<hana::type<path0>, hana::type<path1>, hana::type<path2>, hana::type<path3>, hana::type<path4>, hana::type<path5>>;
    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<E<2>, E<1>, E<1>, E<1>, E<1>, E<1>>, i>;
    using upstream = mpdef::list<nbdl::message::upstream_create<path0, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::upstream_delete<path0, nbdl::message::no_impl>, nbdl::message::upstream_update<path0, nbdl::message::no_impl, E<2>>, nbdl::message::upstream_update<path1, nbdl::message::no_impl, E<1>>, nbdl::message::upstream_create<nbdl::message::create_path<K<3>, hana::tuple<hana::string<'s', '2'>, K<5>, hana::string<'s', '1'>>>, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::upstream_read<path2, nbdl::message::no_impl>, nbdl::message::upstream_update<path2, nbdl::message::no_impl, E<1>>, nbdl::message::upstream_delete<path2, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<4>, hana::tuple<>>, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::upstream_read<path3, nbdl::message::no_impl>, nbdl::message::upstream_update<path3, nbdl::message::no_impl, E<1>>, nbdl::message::upstream_delete<path3, nbdl::message::no_impl>, nbdl::message::upstream_create<path4, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::upstream_read<path4, nbdl::message::no_impl>, nbdl::message::upstream_update<path4, nbdl::message::no_impl, E<1>>, nbdl::message::upstream_delete<path4, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<2>, hana::tuple<K<5>>>, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::upstream_read<path5, nbdl::message::no_impl>, nbdl::message::upstream_update<path5, nbdl::message::no_impl, E<1>>, nbdl::message::upstream_delete<path5, nbdl::message::no_impl>>;
    using downstream = mpdef::list<nbdl::message::downstream_create<path0, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path0, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_update<path0, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_update<path1, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_create<path2, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_read<path2, nbdl::message::no_impl, E<1>>, nbdl::message::downstream_read<path2, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path2, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path2, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path3, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_read<path3, nbdl::message::no_impl, E<1>>, nbdl::message::downstream_read<path3, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path3, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path3, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path4, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_read<path4, nbdl::message::no_impl, E<1>>, nbdl::message::downstream_read<path4, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path4, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path4, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path5, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_read<path5, nbdl::message::no_impl, E<1>>, nbdl::message::downstream_read<path5, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path5, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path5, nbdl::message::no_impl, nbdl::message::no_impl>>;
    static constexpr bool spied[] = {false, true, false, false, true, true};
    static std::vector<point> points()
    {
      return {
        {"S2", 0, false, 2, {}},
        {"S2/K3", 0, true, 1, {}},
        {"S2/K5/S1/K3", 0, false, 1, {}},
        {"K4", 0, false, 1, {}},
        {"S6", 1, true, 1, {1}},
        {"K5/K2", 1, true, 1, {1}},
      };
    }
    static std::vector<std::string> actors() { return {"P0", "P1", "C0", "S1"}; }
    // by name, in another order than defined, one actor without an argument
    static constexpr int without_argument = 3;
    template <typename Tag> static auto make_named(int base)
    {
      return nbdl::make_context<Tag>(nbdl::actor(hana::type_c<prod<4, 0>>, arg<0>{base + 0}), nbdl::actor(hana::type_c<cons<4, 0>>, arg<2>{base + 2}), nbdl::actor("p1"_s, arg<1>{base + 1}));
    }
    template <typename Tag> static auto make_placed(int base)
    { return nbdl::make_unique_context<Tag>(arg<0>{base + 0}, arg<1>{base + 1}, arg<2>{base + 2}, arg<3>{base + 3}); }
  };
#endif
#if DEF_GROUP == 1
  template <> struct definition<5>
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Producers(Producer(Type<prod<5, 0>>, AccessPoints(AccessPoint(PathKey<K<3>>, AccessPoints(AccessPoint(PathKey<K<3>>, AccessPoints(AccessPoint(Actions(Create(), Read(), Update(), Delete()), AccessPoint(Entity<E<3>>, Actions(Read()), Store<spy_tag>, ListenPaths(Path<K<2>>, Path<K<3>, K<3>, hana::string<'s', '4'>>), PathKey<K<3>>), Entity<E<4>>, PathKey<hana::string<'s', '4'>>), AccessPoint(Entity<E<2>>, Actions(Read(), Create()), PathKey<K<6>>, Store<spy_tag>)), Actions(Delete(), Read(), Update()), Entity<E<4>>, Store<spy_tag>)), Name("n1"_s), Store<spy_tag>, Actions(Create(), Read(), Update(), Delete()), Entity<E<1>>), AccessPoint(Store<spy_tag>, Actions(Create(), Read(), Update(), Delete()), Entity<E<4>>, ListenPaths(Path<K<3>, K<3>, hana::string<'s', '4'>>, Path<K<3>, K<3>, hana::string<'s', '4'>, K<3>>, Path<K<3>>), PathKey<K<2>>)))), Consumers(Consumer(Type<both<5, 0>>, Name("c0"_s)), Consumer(Type<cons<5, 1>>, Name("c1"_s))));
    }
    using path0 = hana::tuple<K<3>>;
    using path1 = hana::tuple<K<3>, K<3>>;
    using path2 = hana::tuple<K<3>, K<3>, hana::string<'s', '4'>>;
    using path3 = hana::tuple<K<3>, K<3>, hana::string<'s', '4'>, K<3>>;
    using path4 = hana::tuple<K<3>, K<3>, K<6>>;
    using path5 = hana::tuple<K<2>>;
    using paths_ = mpdef::list<path0, path1, path2, path3, path4, path5>;
    using paths = mpdef::list<hana::type<path0>, hana::type<path1>, hana::type<path2>, hana::type<path3>, hana::type<path4>, hana::type<path5>>;
    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<E<1>, E<4>, E<4>, E<3>, E<2>, E<4>>, i>;
    using upstream = mpdef::list<nbdl::message::upstream_create<nbdl::message::create_path<K<3>, hana::tuple<>>, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::upstream_read<path0, nbdl::message::no_impl>, nbdl::message::upstream_update<path0, nbdl::message::no_impl, E<1>>, nbdl::message::upstream_delete<path0, nbdl::message::no_impl>, nbdl::message::upstream_delete<path1, nbdl::message::no_impl>, nbdl::message::upstream_read<path1, nbdl::message::no_impl>, nbdl::message::upstream_update<path1, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_create<path2, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_read<path2, nbdl::message::no_impl>, nbdl::message::upstream_update<path2, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path2, nbdl::message::no_impl>, nbdl::message::upstream_read<path3, nbdl::message::no_impl>, nbdl::message::upstream_read<path4, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<6>, hana::tuple<K<3>, K<3>>>, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<2>, hana::tuple<>>, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_read<path5, nbdl::message::no_impl>, nbdl::message::upstream_update<path5, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path5, nbdl::message::no_impl>>;
    using downstream = mpdef::list<nbdl::message::downstream_create<path0, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, E<1>>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path0, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path0, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_delete<path1, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path1, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_create<path2, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_read<path2, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path2, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path2, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path2, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_read<path3, nbdl::message::no_impl, E<3>>, nbdl::message::downstream_read<path3, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_read<path4, nbdl::message::no_impl, E<2>>, nbdl::message::downstream_read<path4, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_create<path4, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_create<path5, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_read<path5, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path5, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path5, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path5, nbdl::message::no_impl, nbdl::message::no_impl>>;
    static constexpr bool spied[] = {true, true, false, true, true, true};
    static std::vector<point> points()
    {
      return {
        {"K3", 0, true, 1, {5}},
        {"K3/K3", 0, true, 4, {}},
        {"K3/K3/S4", 0, false, 4, {3, 5}},
        {"K3/K3/S4/K3", 0, true, 3, {5}},
        {"K3/K3/K6", 0, true, 2, {}},
        {"K2", 0, true, 4, {3}},
      };
    }
    static std::vector<std::string> actors() { return {"P0", "B0", "C1"}; }
    // by name, in another order than defined, one actor without an argument
    static constexpr int without_argument = 1;
    template <typename Tag> static auto make_named(int base)
    {
      return nbdl::make_context<Tag>(nbdl::actor("c1"_s, arg<2>{base + 2}), nbdl::actor(hana::type_c<prod<5, 0>>, arg<0>{base + 0}));
    }
    template <typename Tag> static auto make_placed(int base)
    { return nbdl::make_unique_context<Tag>(arg<0>{base + 0}, arg<1>{base + 1}, arg<2>{base + 2}); }
  };
#endif
#if DEF_GROUP == 2
  template <> struct definition<6>
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Consumers(Consumer(Name("c0"_s), Type<obs<6, 0>>)), Producers(Producer(Type<prod<6, 0>>, AccessPoints(AccessPoint(PathKey<hana::string<'s', '5'>>, Actions(Create(), Read(), Update(), Delete()), Entity<E<1>>, AccessPoint(PathKey<K<6>>, Store<spy_tag>, Entity<E<4>>, Actions(Delete(), Update(), Create()), AccessPoints(AccessPoint(ListenPaths(Path<K<1>, K<5>>, Path<hana::string<'s', '4'>>), PathKey<K<4>>, Actions(Read(), Delete(), Update()), Store<spy_tag>, Entity<E<4>>)), ListenPaths(Path<hana::string<'s', '5'>, K<6>>)), Store<spy_tag>), AccessPoint(Actions(Delete(), Read()), Store<nbdl::null_store>, Entity<E<2>>, PathKey<K<5>>), AccessPoint(Entity<E<2>>, Store<spy_tag>, Actions(Update()), PathKey<hana::string<'s', '4'>>, Name("n5"_s), ListenPaths(Path<K<1>>, Path<hana::string<'s', '3'>>, Path<K<5>>)))), Producer(AccessPoints(AccessPoint(Entity<E<2>>, PathKey<K<1>>, Actions(Update(), Read(), Create(), Delete()), AccessPoints(AccessPoint(PathKey<K<5>>, Entity<E<4>>, Actions(Create(), Read(), Update(), Delete())), AccessPoint(Entity<E<3>>, PathKey<K<1>>, Name("n8"_s), Actions(Create(), Read(), Update(), Delete())))), AccessPoint(Name("n9"_s), Entity<E<1>>, Actions(Delete()), PathKey<hana::string<'s', '3'>>), AccessPoint(PathKey<K<4>>)), Type<prod<6, 1>>)));
    }
    using path0 = hana::tuple<hana::string<'s', '5'>>;
    using path1 = hana::tuple<hana::string<'s', '5'>, K<6>>;
    using path2 = hana::tuple<hana::string<'s', '5'>, K<6>, K<4>>;
    using path3 = hana::tuple<K<5>>;
    using path4 = hana::tuple<hana::string<'s', '4'>>;
    using path5 = hana::tuple<K<1>>;
    using path6 = hana::tuple<K<1>, K<5>>;
    using path7 = hana::tuple<K<1>, K<1>>;
    using path8 = hana::tuple<hana::string<'s', '3'>>;
    using paths_ = mpdef::list<path0, path1, path2, path3, path4, path5, path6, path7, path8>;
    using paths = mpdef::list<hana::type<path0>, hana::type<path1>, hana::type<path2>, hana::type<path3>, hana::type<path4>, hana::type<path5>, hana::type<path6>, hana::type<path7>, hana::type<path8>>;
    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<E<1>, E<4>, E<4>, E<2>, E<2>, E<2>, E<4>, E<3>, E<1>>, i>;
    using upstream = mpdef::list<nbdl::message::upstream_create<path0, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::upstream_read<path0, nbdl::message::no_impl>, nbdl::message::upstream_update<path0, nbdl::message::no_impl, E<1>>, nbdl::message::upstream_delete<path0, nbdl::message::no_impl>, nbdl::message::upstream_delete<path1, nbdl::message::no_impl>, nbdl::message::upstream_update<path1, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_create<nbdl::message::create_path<K<6>, hana::tuple<hana::string<'s', '5'>>>, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_read<path2, nbdl::message::no_impl>, nbdl::message::upstream_delete<path2, nbdl::message::no_impl>, nbdl::message::upstream_update<path2, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path3, nbdl::message::no_impl>, nbdl::message::upstream_read<path3, nbdl::message::no_impl>, nbdl::message::upstream_update<path4, nbdl::message::no_impl, E<2>>, nbdl::message::upstream_update<path5, nbdl::message::no_impl, E<2>>, nbdl::message::upstream_read<path5, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<1>, hana::tuple<>>, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::upstream_delete<path5, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<5>, hana::tuple<K<1>>>, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_read<path6, nbdl::message::no_impl>, nbdl::message::upstream_update<path6, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path6, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<1>, hana::tuple<K<1>>>, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::upstream_read<path7, nbdl::message::no_impl>, nbdl::message::upstream_update<path7, nbdl::message::no_impl, E<3>>, nbdl::message::upstream_delete<path7, nbdl::message::no_impl>, nbdl::message::upstream_delete<path8, nbdl::message::no_impl>>;
    using downstream = mpdef::list<nbdl::message::downstream_create<path0, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, E<1>>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path0, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path0, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_delete<path1, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_update<path1, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_create<path1, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_read<path2, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path2, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_delete<path2, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_update<path2, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path3, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_read<path3, nbdl::message::no_impl, E<2>>, nbdl::message::downstream_read<path3, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path4, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_update<path5, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_read<path5, nbdl::message::no_impl, E<2>>, nbdl::message::downstream_read<path5, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_create<path5, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path5, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path6, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_read<path6, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path6, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path6, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path6, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path7, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_read<path7, nbdl::message::no_impl, E<3>>, nbdl::message::downstream_read<path7, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path7, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path7, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_delete<path8, nbdl::message::no_impl, nbdl::message::no_impl>>;
    static constexpr bool spied[] = {true, true, true, false, true, false, false, false, false};
    static std::vector<point> points()
    {
      return {
        {"S5", 0, true, 1, {}},
        {"S5/K6", 0, true, 4, {1}},
        {"S5/K6/K4", 0, true, 4, {}},
        {"K5", 0, false, 2, {4}},
        {"S4", 0, true, 2, {2}},
        {"K1", 1, false, 2, {4}},
        {"K1/K5", 1, false, 4, {2}},
        {"K1/K1", 1, false, 3, {}},
        {"S3", 1, false, 1, {4}},
      };
    }
    static std::vector<std::string> actors() { return {"P0", "P1", "S0"}; }
    // by name, in another order than defined, one actor without an argument
    static constexpr int without_argument = 2;
    template <typename Tag> static auto make_named(int base)
    {
      return nbdl::make_context<Tag>(nbdl::actor(hana::type_c<prod<6, 0>>, arg<0>{base + 0}), nbdl::actor(hana::type_c<prod<6, 1>>, arg<1>{base + 1}));
    }
    template <typename Tag> static auto make_placed(int base)
    { return nbdl::make_unique_context<Tag>(arg<0>{base + 0}, arg<1>{base + 1}, arg<2>{base + 2}); }
  };
#endif
#if DEF_GROUP == 3
  template <> struct definition<7>
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Producers(Producer(Name("p0"_s), AccessPoints(AccessPoint(PathKey<hana::string<'s', '6'>>, Actions(Create(), Read(), Update(), Delete()), Store<spy_tag>, ListenPaths(Path<hana::string<'s', '6'>, K<1>>), AccessPoints(AccessPoint(Entity<E<2>>, PathKey<K<1>>, Store<spy_tag>, Actions(Delete(), Read()))), Entity<E<3>>, Name("n1"_s))), Type<prod<7, 0>>)));
    }
    using path0 = hana::tuple<hana::string<'s', '6'>>;
    using path1 = hana::tuple<hana::string<'s', '6'>, K<1>>;
    using paths_ = mpdef::list<path0, path1>;
    using paths = mpdef::list<hana::type<path0>, hana::type<path1>>;
    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<E<3>, E<2>>, i>;
    using upstream = mpdef::list<nbdl::message::upstream_create<path0, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::upstream_read<path0, nbdl::message::no_impl>, nbdl::message::upstream_update<path0, nbdl::message::no_impl, E<3>>, nbdl::message::upstream_delete<path0, nbdl::message::no_impl>, nbdl::message::upstream_delete<path1, nbdl::message::no_impl>, nbdl::message::upstream_read<path1, nbdl::message::no_impl>>;
    using downstream = mpdef::list<nbdl::message::downstream_create<path0, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, E<3>>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path0, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path0, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_delete<path1, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, E<2>>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, nbdl::not_found>>;
    static constexpr bool spied[] = {true, true};
    static std::vector<point> points()
    {
      return {
        {"S6", 0, true, 3, {}},
        {"S6/K1", 0, true, 2, {0}},
      };
    }
    static std::vector<std::string> actors() { return {"P0"}; }
    // by name, in another order than defined, one actor without an argument
    static constexpr int without_argument = -1;
    template <typename Tag> static auto make_named(int base)
    {
      return nbdl::make_context<Tag>(nbdl::actor("p0"_s, arg<0>{base + 0}));
    }
    template <typename Tag> static auto make_placed(int base)
    { return nbdl::make_unique_context<Tag>(arg<0>{base + 0}); }
  };
#endif
#if DEF_GROUP == 0
  template <> struct definition<8>
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Producers(Producer(AccessPoints(AccessPoint(Entity<E<1>>, Actions(Update(), Read(), Create(), Delete()), Store<nbdl::null_store>, PathKey<K<2>>), AccessPoint(Store<spy_tag>, ListenPaths(Path<K<4>>), PathKey<K<4>>, Actions(Create(), Read()), Entity<E<2>>)), Type<prod<8, 0>>, Name("p0"_s))));
    }
    using path0 = hana::tuple<K<2>>;
    using path1 = hana::tuple<K<4>>;
    using paths_ = mpdef::list<path0, path1>;
    using paths = mpdef::list<hana::type<path0>, hana::type<path1>>;
    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<E<1>, E<2>>, i>;
    using upstream = mpdef::list<nbdl::message::upstream_update<path0, nbdl::message::no_impl, E<1>>, nbdl::message::upstream_read<path0, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<2>, hana::tuple<>>, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::upstream_delete<path0, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<4>, hana::tuple<>>, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::upstream_read<path1, nbdl::message::no_impl>>;
    using downstream = mpdef::list<nbdl::message::downstream_update<path0, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, E<1>>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_create<path0, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path0, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path1, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, E<2>>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, nbdl::not_found>>;
    static constexpr bool spied[] = {false, true};
    static std::vector<point> points()
    {
      return {
        {"K2", 0, false, 1, {}},
        {"K4", 0, true, 2, {1}},
      };
    }
    static std::vector<std::string> actors() { return {"P0"}; }
    // by name, in another order than defined, one actor without an argument
    static constexpr int without_argument = -1;
    template <typename Tag> static auto make_named(int base)
    {
      return nbdl::make_context<Tag>(nbdl::actor("p0"_s, arg<0>{base + 0}));
    }
    template <typename Tag> static auto make_placed(int base)
    { return nbdl::make_unique_context<Tag>(arg<0>{base + 0}); }
  };
#endif
#if DEF_GROUP == 1
  template <> struct definition<9>
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Producers(Producer(Name("p0"_s), AccessPoints(AccessPoint(Entity<E<1>>, PathKey<K<5>>, AccessPoint(AccessPoints(AccessPoint(PathKey<K<5>>, Actions(Create(), Update(), Read(), Delete()), Entity<E<2>>, Store<spy_tag>), AccessPoint(Actions(), PathKey<hana::string<'s', '4'>>)), PathKey<K<6>>, Name("n1"_s), Entity<E<3>>), Store<spy_tag>, Actions(Create(), Update()), ListenPaths(Path<K<2>>))), Type<prod<9, 0>>), Producer(Type<prod<9, 1>>, Name("p1"_s), AccessPoints(AccessPoint(Entity<E<3>>, Store<spy_tag>, Actions(Create(), Update(), Delete()), PathKey<K<2>>), AccessPoint(AccessPoints(AccessPoint(PathKey<K<5>>, Name("n4"_s), ListenPaths(Path<K<6>, K<5>>, Path<K<2>>, Path<K<5>>), Entity<E<2>>, AccessPoints(AccessPoint(Name("n4"_s), AccessPoints(AccessPoint(PathKey<K<3>>, Actions(Update(), Read(), Delete(), Create()), Store<spy_tag>, Entity<E<3>>), AccessPoint(PathKey<K<1>>, Store<spy_tag>, Entity<E<4>>, ListenPaths(Path<K<6>, K<5>>, Path<K<6>, K<5>, K<1>, K<1>>), Actions(Create(), Read(), Update(), Delete()))), PathKey<K<1>>)), Store<spy_tag>, Actions(Delete(), Read(), Update())), AccessPoint(Name("n6"_s), Actions(), PathKey<K<4>>, Entity<E<1>>)), Entity<E<4>>, Actions(), PathKey<K<6>>)))), Consumers(Consumer(Type<obs<9, 0>>, Name("c0"_s)), Consumer(Type<obs<9, 1>>, Name("c1"_s)), Consumer(Type<both<9, 2>>, Name("c2"_s))));
    }
    using path0 = hana::tuple<K<5>>;
    using path1 = hana::tuple<K<5>, K<6>, K<5>>;
    using path2 = hana::tuple<K<2>>;
    using path3 = hana::tuple<K<6>, K<5>>;
    using path4 = hana::tuple<K<6>, K<5>, K<1>, K<3>>;
    using path5 = hana::tuple<K<6>, K<5>, K<1>, K<1>>;
    using paths_ = mpdef::list<path0, path1, path2, path3, path4, path5>;
    using paths = mpdef::list<hana::type<path0>, hana::type<path1>, hana::type<path2>, hana::type<path3>, hana::type<path4>, hana::type<path5>>;
    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<E<1>, E<2>, E<3>, E<2>, E<3>, E<4>>, i>;
    using upstream = mpdef::list<nbdl::message::upstream_create<nbdl::message::create_path<K<5>, hana::tuple<>>, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::upstream_update<path0, nbdl::message::no_impl, E<1>>, nbdl::message::upstream_create<nbdl::message::create_path<K<5>, hana::tuple<K<5>, K<6>>>, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::upstream_update<path1, nbdl::message::no_impl, E<2>>, nbdl::message::upstream_read<path1, nbdl::message::no_impl>, nbdl::message::upstream_delete<path1, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<2>, hana::tuple<>>, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::upstream_update<path2, nbdl::message::no_impl, E<3>>, nbdl::message::upstream_delete<path2, nbdl::message::no_impl>, nbdl::message::upstream_delete<path3, nbdl::message::no_impl>, nbdl::message::upstream_read<path3, nbdl::message::no_impl>, nbdl::message::upstream_update<path3, nbdl::message::no_impl, E<2>>, nbdl::message::upstream_update<path4, nbdl::message::no_impl, E<3>>, nbdl::message::upstream_read<path4, nbdl::message::no_impl>, nbdl::message::upstream_delete<path4, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<3>, hana::tuple<K<6>, K<5>, K<1>>>, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<1>, hana::tuple<K<6>, K<5>, K<1>>>, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_read<path5, nbdl::message::no_impl>, nbdl::message::upstream_update<path5, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path5, nbdl::message::no_impl>>;
    using downstream = mpdef::list<nbdl::message::downstream_create<path0, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_update<path0, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_create<path1, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_update<path1, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, E<2>>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_delete<path1, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path2, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_update<path2, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path2, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_delete<path3, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_read<path3, nbdl::message::no_impl, E<2>>, nbdl::message::downstream_read<path3, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path3, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_update<path4, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_read<path4, nbdl::message::no_impl, E<3>>, nbdl::message::downstream_read<path4, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_delete<path4, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path4, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_create<path5, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_read<path5, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path5, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path5, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path5, nbdl::message::no_impl, nbdl::message::no_impl>>;
    static constexpr bool spied[] = {true, true, true, true, true, true};
    static std::vector<point> points()
    {
      return {
        {"K5", 0, true, 1, {3}},
        {"K5/K6/K5", 0, true, 2, {}},
        {"K2", 1, true, 3, {0, 3}},
        {"K6/K5", 1, true, 2, {3, 5}},
        {"K6/K5/K1/K3", 1, true, 3, {}},
        {"K6/K5/K1/K1", 1, true, 4, {5}},
      };
    }
    static std::vector<std::string> actors() { return {"P0", "P1", "S0", "S1", "B2"}; }
    // by name, in another order than defined, one actor without an argument
    static constexpr int without_argument = 2;
    template <typename Tag> static auto make_named(int base)
    {
      return nbdl::make_context<Tag>(nbdl::actor("c1"_s, arg<3>{base + 3}), nbdl::actor("p0"_s, arg<0>{base + 0}), nbdl::actor("p1"_s, arg<1>{base + 1}), nbdl::actor("c2"_s, arg<4>{base + 4}));
    }
    template <typename Tag> static auto make_placed(int base)
    { return nbdl::make_unique_context<Tag>(arg<0>{base + 0}, arg<1>{base + 1}, arg<2>{base + 2}, arg<3>{base + 3}, arg<4>{base + 4}); }
  };
#endif
#if DEF_GROUP == 2
  template <> struct definition<10>
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Producers(Producer(Name("p0"_s), Type<prod<10, 0>>, AccessPoints(AccessPoint(AccessPoints(AccessPoint(PathKey<hana::string<'s', '6'>>, Actions()), AccessPoint(Actions(Update()), AccessPoint(PathKey<K<2>>, Entity<E<1>>, Actions(Create(), Delete(), Read())), Entity<E<3>>, PathKey<K<3>>)), ListenPaths(Path<K<3>, K<3>>), Store<spy_tag>, PathKey<K<3>>, Actions(Delete(), Update(), Create(), Read()), Entity<E<1>>, Name("n1"_s)), AccessPoint(PathKey<K<2>>, Name("n3"_s), Actions()))), Producer(Type<prod<10, 1>>, AccessPoints(AccessPoint(Entity<E<3>>, PathKey<K<5>>, Name("n4"_s), Actions(Update(), Delete(), Read(), Create())), AccessPoint(Entity<E<4>>, PathKey<hana::string<'s', '3'>>, Store<spy_tag>, Actions(Create(), Read(), Update(), Delete())), AccessPoint(Entity<E<3>>, Actions(Create(), Delete()), Store<nbdl::null_store>, PathKey<K<4>>)))), Consumer(Type<cons<10, 0>>, Name("c0"_s)));
    }
    using path0 = hana::tuple<K<3>>;
    using path1 = hana::tuple<K<3>, K<3>>;
    using path2 = hana::tuple<K<3>, K<3>, K<2>>;
    using path3 = hana::tuple<K<5>>;
    using path4 = hana::tuple<hana::string<'s', '3'>>;
    using path5 = hana::tuple<K<4>>;
    using paths_ = mpdef::list<path0, path1, path2, path3, path4, path5>;
    using paths = mpdef::list<hana::type<path0>, hana::type<path1>, hana::type<path2>, hana::type<path3>, hana::type<path4>, hana::type<path5>>;
    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<E<1>, E<3>, E<1>, E<3>, E<4>, E<3>>, i>;
    using upstream = mpdef::list<nbdl::message::upstream_delete<path0, nbdl::message::no_impl>, nbdl::message::upstream_update<path0, nbdl::message::no_impl, E<1>>, nbdl::message::upstream_create<nbdl::message::create_path<K<3>, hana::tuple<>>, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::upstream_read<path0, nbdl::message::no_impl>, nbdl::message::upstream_update<path1, nbdl::message::no_impl, E<3>>, nbdl::message::upstream_create<nbdl::message::create_path<K<2>, hana::tuple<K<3>, K<3>>>, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::upstream_delete<path2, nbdl::message::no_impl>, nbdl::message::upstream_read<path2, nbdl::message::no_impl>, nbdl::message::upstream_update<path3, nbdl::message::no_impl, E<3>>, nbdl::message::upstream_delete<path3, nbdl::message::no_impl>, nbdl::message::upstream_read<path3, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<5>, hana::tuple<>>, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::upstream_create<path4, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_read<path4, nbdl::message::no_impl>, nbdl::message::upstream_update<path4, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path4, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<4>, hana::tuple<>>, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::upstream_delete<path5, nbdl::message::no_impl>>;
    using downstream = mpdef::list<nbdl::message::downstream_delete<path0, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_update<path0, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_create<path0, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, E<1>>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path1, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_create<path2, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path2, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_read<path2, nbdl::message::no_impl, E<1>>, nbdl::message::downstream_read<path2, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path3, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path3, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_read<path3, nbdl::message::no_impl, E<3>>, nbdl::message::downstream_read<path3, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_create<path3, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_create<path4, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_read<path4, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path4, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path4, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path4, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path5, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path5, nbdl::message::no_impl, nbdl::message::no_impl>>;
    static constexpr bool spied[] = {true, false, false, false, true, false};
    static std::vector<point> points()
    {
      return {
        {"K3", 0, true, 1, {}},
        {"K3/K3", 0, false, 3, {0}},
        {"K3/K3/K2", 0, false, 1, {}},
        {"K5", 1, false, 3, {}},
        {"S3", 1, true, 4, {}},
        {"K4", 1, false, 3, {}},
      };
    }
    static std::vector<std::string> actors() { return {"P0", "P1", "C0"}; }
    // by name, in another order than defined, one actor without an argument
    static constexpr int without_argument = 2;
    template <typename Tag> static auto make_named(int base)
    {
      return nbdl::make_context<Tag>(nbdl::actor(hana::type_c<prod<10, 1>>, arg<1>{base + 1}), nbdl::actor("p0"_s, arg<0>{base + 0}));
    }
    template <typename Tag> static auto make_placed(int base)
    { return nbdl::make_unique_context<Tag>(arg<0>{base + 0}, arg<1>{base + 1}, arg<2>{base + 2}); }
  };
#endif
#if DEF_GROUP == 3
  template <> struct definition<11>
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Consumer(Name("c0"_s), Type<obs<11, 0>>), Producer(Name("p0"_s), AccessPoints(AccessPoint(Actions(Update(), Read()), Entity<E<1>>, PathKey<K<2>>, Store<spy_tag>, ListenPaths(Path<hana::string<'s', '4'>, K<2>, K<5>>, Path<hana::string<'s', '4'>, K<2>>)), AccessPoint(PathKey<hana::string<'s', '4'>>, Store<spy_tag>, AccessPoints(AccessPoint(Entity<E<2>>, Store<spy_tag>, PathKey<K<2>>, ListenPaths(Path<hana::string<'s', '4'>, K<3>>), AccessPoints(AccessPoint(ListenPaths(Path<hana::string<'s', '4'>, K<2>, K<3>>), PathKey<K<3>>, Store<spy_tag>), AccessPoint(ListenPaths(Path<hana::string<'s', '4'>, K<2>, K<5>>), Name("n5"_s), PathKey<K<5>>, Store<spy_tag>, Actions(Create(), Read(), Update(), Delete()), Entity<E<3>>)), Name("n3"_s)), AccessPoint(Actions(Delete(), Update()), Entity<E<4>>, Store<spy_tag>, PathKey<K<3>>)), Entity<E<4>>, Actions(Create(), Read(), Update(), Delete()))), Type<prod<11, 0>>));
    }
    using path0 = hana::tuple<K<2>>;
    using path1 = hana::tuple<hana::string<'s', '4'>>;
    using path2 = hana::tuple<hana::string<'s', '4'>, K<2>>;
    using path3 = hana::tuple<hana::string<'s', '4'>, K<2>, K<3>>;
    using path4 = hana::tuple<hana::string<'s', '4'>, K<2>, K<5>>;
    using path5 = hana::tuple<hana::string<'s', '4'>, K<3>>;
    using paths_ = mpdef::list<path0, path1, path2, path3, path4, path5>;
    using paths = mpdef::list<hana::type<path0>, hana::type<path1>, hana::type<path2>, hana::type<path3>, hana::type<path4>, hana::type<path5>>;
    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<E<1>, E<4>, E<2>, spy_tag, E<3>, E<4>>, i>;
    using upstream = mpdef::list<nbdl::message::upstream_update<path0, nbdl::message::no_impl, E<1>>, nbdl::message::upstream_read<path0, nbdl::message::no_impl>, nbdl::message::upstream_create<path1, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_read<path1, nbdl::message::no_impl>, nbdl::message::upstream_update<path1, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path1, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<5>, hana::tuple<hana::string<'s', '4'>, K<2>>>, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::upstream_read<path4, nbdl::message::no_impl>, nbdl::message::upstream_update<path4, nbdl::message::no_impl, E<3>>, nbdl::message::upstream_delete<path4, nbdl::message::no_impl>, nbdl::message::upstream_delete<path5, nbdl::message::no_impl>, nbdl::message::upstream_update<path5, nbdl::message::no_impl, E<4>>>;
    using downstream = mpdef::list<nbdl::message::downstream_update<path0, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, E<1>>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_create<path1, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path1, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path1, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path4, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_read<path4, nbdl::message::no_impl, E<3>>, nbdl::message::downstream_read<path4, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path4, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path4, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_delete<path5, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_update<path5, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>>;
    static constexpr bool spied[] = {true, true, true, true, true, true};
    static std::vector<point> points()
    {
      return {
        {"K2", 0, true, 1, {}},
        {"S4", 0, true, 4, {}},
        {"S4/K2", 0, true, 2, {0}},
        {"S4/K2/K3", 0, true, 0, {3}},
        {"S4/K2/K5", 0, true, 3, {0, 4}},
        {"S4/K3", 0, true, 4, {2}},
      };
    }
    static std::vector<std::string> actors() { return {"P0", "S0"}; }
    // by name, in another order than defined, one actor without an argument
    static constexpr int without_argument = 0;
    template <typename Tag> static auto make_named(int base)
    {
      return nbdl::make_context<Tag>(nbdl::actor("c0"_s, arg<1>{base + 1}));
    }
    template <typename Tag> static auto make_placed(int base)
    { return nbdl::make_unique_context<Tag>(arg<0>{base + 0}, arg<1>{base + 1}); }
  };
#endif
#if DEF_GROUP == 0
  template <> struct definition<12>
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Producers(Producer(AccessPoints(AccessPoint(Name("n1"_s), Entity<E<3>>, PathKey<K<4>>, Actions(Create(), Read(), Update(), Delete())), AccessPoint(Actions(Delete(), Read(), Create()), PathKey<K<6>>, Store<spy_tag>, Entity<E<2>>, Name("n2"_s))), Name("p0"_s), Type<prod<12, 0>>), Producer(Type<prod<12, 1>>, Name("p1"_s), AccessPoints(AccessPoint(Entity<E<1>>, AccessPoint(Store<nbdl::null_store>, Actions(Create(), Read(), Update(), Delete()), Entity<E<4>>, PathKey<hana::string<'s', '2'>>), Actions(Read(), Update(), Create(), Delete()), PathKey<K<5>>), AccessPoint(Name("n5"_s), Store<spy_tag>, Entity<E<4>>, PathKey<hana::string<'s', '2'>>, Actions(Create(), Read(), Update(), Delete()))))), Consumers(Consumer(Name("c0"_s), Type<cons<12, 0>>), Consumer(Type<cons<12, 1>>)));
    }
    using path0 = hana::tuple<K<4>>;
    using path1 = hana::tuple<K<6>>;
    using path2 = hana::tuple<K<5>>;
    using path3 = hana::tuple<K<5>, hana::string<'s', '2'>>;
    using path4 = hana::tuple<hana::string<'s', '2'>>;
    using paths_ = mpdef::list<path0, path1, path2, path3, path4>;
    using paths = mpdef::list<hana::type<path0>, hana::type<path1>, hana::type<path2>, hana::type<path3>, hana::type<path4>>;
    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<E<3>, E<2>, E<1>, E<4>, E<4>>, i>;
    using upstream = mpdef::list<nbdl::message::upstream_create<nbdl::message::create_path<K<4>, hana::tuple<>>, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::upstream_read<path0, nbdl::message::no_impl>, nbdl::message::upstream_update<path0, nbdl::message::no_impl, E<3>>, nbdl::message::upstream_delete<path0, nbdl::message::no_impl>, nbdl::message::upstream_delete<path1, nbdl::message::no_impl>, nbdl::message::upstream_read<path1, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<6>, hana::tuple<>>, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::upstream_read<path2, nbdl::message::no_impl>, nbdl::message::upstream_update<path2, nbdl::message::no_impl, E<1>>, nbdl::message::upstream_create<nbdl::message::create_path<K<5>, hana::tuple<>>, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::upstream_delete<path2, nbdl::message::no_impl>, nbdl::message::upstream_create<path3, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_read<path3, nbdl::message::no_impl>, nbdl::message::upstream_update<path3, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path3, nbdl::message::no_impl>, nbdl::message::upstream_create<path4, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_read<path4, nbdl::message::no_impl>, nbdl::message::upstream_update<path4, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path4, nbdl::message::no_impl>>;
    using downstream = mpdef::list<nbdl::message::downstream_create<path0, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, E<3>>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path0, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path0, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_delete<path1, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, E<2>>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_create<path1, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_read<path2, nbdl::message::no_impl, E<1>>, nbdl::message::downstream_read<path2, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path2, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_create<path2, nbdl::message::no_impl, E<1>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path2, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path3, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_read<path3, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path3, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path3, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path3, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path4, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_read<path4, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path4, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path4, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path4, nbdl::message::no_impl, nbdl::message::no_impl>>;
    static constexpr bool spied[] = {false, true, false, false, true};
    static std::vector<point> points()
    {
      return {
        {"K4", 0, false, 3, {}},
        {"K6", 0, true, 2, {}},
        {"K5", 1, false, 1, {}},
        {"K5/S2", 1, false, 4, {}},
        {"S2", 1, true, 4, {}},
      };
    }
    static std::vector<std::string> actors() { return {"P0", "P1", "C0", "C1"}; }
    // by name, in another order than defined, one actor without an argument
    static constexpr int without_argument = 3;
    template <typename Tag> static auto make_named(int base)
    {
      return nbdl::make_context<Tag>(nbdl::actor("p0"_s, arg<0>{base + 0}), nbdl::actor("c0"_s, arg<2>{base + 2}), nbdl::actor("p1"_s, arg<1>{base + 1}));
    }
    template <typename Tag> static auto make_placed(int base)
    { return nbdl::make_unique_context<Tag>(arg<0>{base + 0}, arg<1>{base + 1}, arg<2>{base + 2}, arg<3>{base + 3}); }
  };
#endif
#if DEF_GROUP == 1
  template <> struct definition<13>
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Producers(Producer(AccessPoints(AccessPoint(Entity<E<4>>, PathKey<hana::string<'s', '3'>>, Actions(Create(), Read(), Update(), Delete())), AccessPoint(PathKey<K<5>>, Entity<E<4>>, Name("n2"_s), Store<spy_tag>, Actions(Create(), Read(), Update(), Delete()), AccessPoints(AccessPoint(Store<spy_tag>, ListenPaths(Path<K<5>, K<5>>, Path<K<5>, K<3>>), PathKey<K<3>>, Entity<E<3>>), AccessPoint(AccessPoint(PathKey<K<5>>, Entity<E<3>>, Actions(Update(), Read(), Create(), Delete())), Actions(Update()), Store<spy_tag>, PathKey<K<5>>, Entity<E<2>>)))), Name("p0"_s), Type<prod<13, 0>>), Producer(AccessPoints(AccessPoint(Actions(Delete(), Update(), Read()), Entity<E<2>>, ListenPaths(Path<K<5>, K<3>>, Path<K<5>>, Path<hana::string<'s', '3'>>), Store<spy_tag>, PathKey<K<4>>, AccessPoints(AccessPoint(Entity<E<2>>, ListenPaths(Path<K<5>, K<3>>, Path<hana::string<'s', '3'>>, Path<K<4>>), Actions(Create(), Read(), Update(), Delete()), Store<spy_tag>, PathKey<K<2>>, Name("n7"_s))))), Type<prod<13, 1>>, Name("p1"_s))), Consumers(Consumer(Type<obs<13, 0>>), Consumer(Type<cons<13, 1>>, Name("c1"_s))));
    }
    using path0 = hana::tuple<hana::string<'s', '3'>>;
    using path1 = hana::tuple<K<5>>;
    using path2 = hana::tuple<K<5>, K<3>>;
    using path3 = hana::tuple<K<5>, K<5>>;
    using path4 = hana::tuple<K<5>, K<5>, K<5>>;
    using path5 = hana::tuple<K<4>>;
    using path6 = hana::tuple<K<4>, K<2>>;
    using paths_ = mpdef::list<path0, path1, path2, path3, path4, path5, path6>;
    using paths = mpdef::list<hana::type<path0>, hana::type<path1>, hana::type<path2>, hana::type<path3>, hana::type<path4>, hana::type<path5>, hana::type<path6>>;
    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<E<4>, E<4>, E<3>, E<2>, E<3>, E<2>, E<2>>, i>;
    using upstream = mpdef::list<nbdl::message::upstream_create<path0, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_read<path0, nbdl::message::no_impl>, nbdl::message::upstream_update<path0, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path0, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<5>, hana::tuple<>>, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_read<path1, nbdl::message::no_impl>, nbdl::message::upstream_update<path1, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path1, nbdl::message::no_impl>, nbdl::message::upstream_update<path3, nbdl::message::no_impl, E<2>>, nbdl::message::upstream_update<path4, nbdl::message::no_impl, E<3>>, nbdl::message::upstream_read<path4, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<5>, hana::tuple<K<5>, K<5>>>, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::upstream_delete<path4, nbdl::message::no_impl>, nbdl::message::upstream_delete<path5, nbdl::message::no_impl>, nbdl::message::upstream_update<path5, nbdl::message::no_impl, E<2>>, nbdl::message::upstream_read<path5, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<2>, hana::tuple<K<4>>>, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::upstream_read<path6, nbdl::message::no_impl>, nbdl::message::upstream_update<path6, nbdl::message::no_impl, E<2>>, nbdl::message::upstream_delete<path6, nbdl::message::no_impl>>;
    using downstream = mpdef::list<nbdl::message::downstream_create<path0, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path0, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path0, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path1, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path1, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path1, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path1, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_update<path3, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_update<path4, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_read<path4, nbdl::message::no_impl, E<3>>, nbdl::message::downstream_read<path4, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_create<path4, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path4, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_delete<path5, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_update<path5, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_read<path5, nbdl::message::no_impl, E<2>>, nbdl::message::downstream_read<path5, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_create<path6, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_read<path6, nbdl::message::no_impl, E<2>>, nbdl::message::downstream_read<path6, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path6, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path6, nbdl::message::no_impl, nbdl::message::no_impl>>;
    static constexpr bool spied[] = {false, true, true, true, false, true, true};
    static std::vector<point> points()
    {
      return {
        {"S3", 0, false, 4, {5, 6}},
        {"K5", 0, true, 4, {5}},
        {"K5/K3", 0, true, 3, {2, 5, 6}},
        {"K5/K5", 0, true, 2, {2}},
        {"K5/K5/K5", 0, false, 3, {}},
        {"K4", 1, true, 2, {6}},
        {"K4/K2", 1, true, 2, {}},
      };
    }
    static std::vector<std::string> actors() { return {"P0", "P1", "S0", "C1"}; }
    // by name, in another order than defined, one actor without an argument
    static constexpr int without_argument = 2;
    template <typename Tag> static auto make_named(int base)
    {
      return nbdl::make_context<Tag>(nbdl::actor("p0"_s, arg<0>{base + 0}), nbdl::actor("c1"_s, arg<3>{base + 3}), nbdl::actor("p1"_s, arg<1>{base + 1}));
    }
    template <typename Tag> static auto make_placed(int base)
    { return nbdl::make_unique_context<Tag>(arg<0>{base + 0}, arg<1>{base + 1}, arg<2>{base + 2}, arg<3>{base + 3}); }
  };
#endif
#if DEF_GROUP == 2
  template <> struct definition<14>
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Consumer(Name("c0"_s), Type<cons<14, 0>>), Producer(Type<prod<14, 0>>, AccessPoints(AccessPoint(AccessPoints(AccessPoint(AccessPoint(PathKey<K<4>>), PathKey<K<1>>, Entity<E<4>>), AccessPoint(AccessPoint(Store<spy_tag>, PathKey<K<1>>, ListenPaths(Path<K<5>, K<5>, K<1>>, Path<K<5>>, Path<hana::string<'s', '4'>>)), PathKey<K<5>>, Entity<E<2>>, Actions(Delete(), Create()))), Actions(Create(), Read(), Update(), Delete()), Entity<E<4>>, PathKey<K<5>>, Name("n1"_s), ListenPaths(Path<hana::string<'s', '4'>>, Path<K<5>, K<5>>, Path<K<5>>), Store<spy_tag>), AccessPoint(Store<spy_tag>, Name("n4"_s), PathKey<hana::string<'s', '4'>>, ListenPaths(Path<hana::string<'s', '4'>>, Path<K<5>, K<5>, K<1>>))), Name("p0"_s)));
    }
    using path0 = hana::tuple<K<5>>;
    using path1 = hana::tuple<K<5>, K<5>>;
    using path2 = hana::tuple<K<5>, K<5>, K<1>>;
    using path3 = hana::tuple<hana::string<'s', '4'>>;
    using paths_ = mpdef::list<path0, path1, path2, path3>;
    using paths = mpdef::list<hana::type<path0>, hana::type<path1>, hana::type<path2>, hana::type<path3>>;
    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<E<4>, E<2>, spy_tag, spy_tag>, i>;
    using upstream = mpdef::list<nbdl::message::upstream_create<nbdl::message::create_path<K<5>, hana::tuple<>>, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::upstream_read<path0, nbdl::message::no_impl>, nbdl::message::upstream_update<path0, nbdl::message::no_impl, E<4>>, nbdl::message::upstream_delete<path0, nbdl::message::no_impl>, nbdl::message::upstream_delete<path1, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<5>, hana::tuple<K<5>>>, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>>;
    using downstream = mpdef::list<nbdl::message::downstream_create<path0, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, E<4>>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_update<path0, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path0, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_delete<path1, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path1, nbdl::message::no_impl, E<2>, nbdl::message::no_impl>>;
    static constexpr bool spied[] = {true, false, true, true};
    static std::vector<point> points()
    {
      return {
        {"K5", 0, true, 4, {0, 2}},
        {"K5/K5", 0, false, 2, {0}},
        {"K5/K5/K1", 0, true, 0, {2, 3}},
        {"S4", 0, true, 0, {0, 2, 3}},
      };
    }
    static std::vector<std::string> actors() { return {"P0", "C0"}; }
    // by name, in another order than defined, one actor without an argument
    static constexpr int without_argument = 1;
    template <typename Tag> static auto make_named(int base)
    {
      return nbdl::make_context<Tag>(nbdl::actor("p0"_s, arg<0>{base + 0}));
    }
    template <typename Tag> static auto make_placed(int base)
    { return nbdl::make_unique_context<Tag>(arg<0>{base + 0}, arg<1>{base + 1}); }
  };
#endif
#if DEF_GROUP == 3
  template <> struct definition<15>
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Producer(Type<prod<15, 0>>, Name("p0"_s), AccessPoints(AccessPoint(Entity<E<3>>, PathKey<K<1>>, Actions(Delete(), Read(), Create(), Update()), AccessPoints(AccessPoint(PathKey<K<2>>, ListenPaths(Path<K<5>>, Path<K<1>>, Path<K<1>, K<2>>), Actions(Delete()), Store<spy_tag>, Entity<E<3>>)), Name("n1"_s)), AccessPoint(Entity<E<4>>, Actions(Create()), Store<spy_tag>, PathKey<K<5>>))));
    }
    using path0 = hana::tuple<K<1>>;
    using path1 = hana::tuple<K<1>, K<2>>;
    using path2 = hana::tuple<K<5>>;
    using paths_ = mpdef::list<path0, path1, path2>;
    using paths = mpdef::list<hana::type<path0>, hana::type<path1>, hana::type<path2>>;
    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<E<3>, E<3>, E<4>>, i>;
    using upstream = mpdef::list<nbdl::message::upstream_delete<path0, nbdl::message::no_impl>, nbdl::message::upstream_read<path0, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<1>, hana::tuple<>>, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::upstream_update<path0, nbdl::message::no_impl, E<3>>, nbdl::message::upstream_delete<path1, nbdl::message::no_impl>, nbdl::message::upstream_create<nbdl::message::create_path<K<5>, hana::tuple<>>, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>>;
    using downstream = mpdef::list<nbdl::message::downstream_delete<path0, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, E<3>>, nbdl::message::downstream_read<path0, nbdl::message::no_impl, nbdl::not_found>, nbdl::message::downstream_create<path0, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_update<path0, nbdl::message::no_impl, E<3>, nbdl::message::no_impl>, nbdl::message::downstream_delete<path1, nbdl::message::no_impl, nbdl::message::no_impl>, nbdl::message::downstream_create<path2, nbdl::message::no_impl, E<4>, nbdl::message::no_impl>>;
    static constexpr bool spied[] = {false, true, true};
    static std::vector<point> points()
    {
      return {
        {"K1", 0, false, 3, {1}},
        {"K1/K2", 0, true, 3, {1}},
        {"K5", 0, true, 4, {1}},
      };
    }
    static std::vector<std::string> actors() { return {"P0"}; }
    // by name, in another order than defined, one actor without an argument
    static constexpr int without_argument = -1;
    template <typename Tag> static auto make_named(int base)
    {
      return nbdl::make_context<Tag>(nbdl::actor("p0"_s, arg<0>{base + 0}));
    }
    template <typename Tag> static auto make_placed(int base)
    { return nbdl::make_unique_context<Tag>(arg<0>{base + 0}); }
  };
#endif
