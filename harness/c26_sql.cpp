// C26: what nbdl::sql_db inserts, selects and updates covers every member of an entity.
//
// "rows": every row that insert emits is recorded (table, columns, values, and the key it was
// given) and compared with the rows a walk written by hand emits.
// "database": the generated statements run in an in-memory SQLite database; what select,
// update and plain queries read back is compared with the entities.
#include <boost/hana.hpp>
namespace hana = boost::hana;
#include <nbdl/bind_sequence.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/sql_db/insert.hpp>
#include <nbdl/sql_db/select.hpp>
#include <nbdl/sql_db/update.hpp>
#include <nbdl/sql_db/statement/insert.hpp>
#include <nbdl/sql_db/statement/select.hpp>
#include <nbdl/sql_db/statement/update.hpp>
#include <nbdl/string.hpp>

#include <deque>
#include <list>
#include <memory>
#include <set>
#include <vector>
#include <sqlite3.h>
#include "vmon.hpp"

using vmon::Rng;
namespace sd = nbdl::sql_db;
using namespace hana::literals;


namespace
{
  struct tag { int num; nbdl::string txt; };
  struct wide { unsigned a; nbdl::string b; bool c; nbdl::string d; long e; int f; nbdl::string g; };
  struct pair2 { nbdl::string name; tag first; tag second; };
  struct deep { int v; pair2 p; tag q; };
  struct abyss { deep x; nbdl::string w; deep y; };
  struct only_child { tag c; };
  struct item { unsigned n; nbdl::string s; };
  struct boxed { tag lid; unsigned m; };
  struct basket { nbdl::string label; std::vector<item> items; };
  struct shelf { int no; std::vector<basket> baskets; tag head; std::list<item> loose; std::deque<boxed> boxes; };
  struct crate { basket inner; int weight; };
  struct only_list { std::vector<item> all; };
}
namespace nbdl
{
  NBDL_ENTITY(tag, num, txt);
  NBDL_ENTITY(wide, a, b, c, d, e, f, g);
  NBDL_ENTITY(pair2, name, first, second);
  NBDL_ENTITY(deep, v, p, q);
  NBDL_ENTITY(abyss, x, w, y);
  NBDL_ENTITY(only_child, c);
  NBDL_ENTITY(item, n, s);
  NBDL_ENTITY(boxed, lid, m);
  NBDL_ENTITY(basket, label, items);
  NBDL_ENTITY(shelf, no, baskets, head, loose, boxes);
  NBDL_ENTITY(crate, inner, weight);
  NBDL_ENTITY(only_list, all);
}

namespace
{
  // ---- random values -------------------------------------------------------------------
  std::string word(Rng& r)
  {
    switch (r.below(4))
    {
    case 0: return "";
    case 1: return r.from("ab'\"?;, %\\", r.below(12));
    case 2: return r.bytes(r.below(20));
    default: return r.from("abcdefghijklmnopqrstuvwxyz", 20 + r.below(40));
    }
  }
  void fill(Rng& r, tag& x) { x = {static_cast<int>(r.next()), word(r)}; }
  void fill(Rng& r, wide& x)
  {
    x = {static_cast<unsigned>(r.next()), word(r), r.coin(), word(r), static_cast<long>(r.next()), static_cast<int>(r.next()), word(r)};
  }
  void fill(Rng& r, pair2& x) { x.name = word(r); fill(r, x.first); fill(r, x.second); if (r.chance(1, 5)) x.second = x.first; }
  void fill(Rng& r, deep& x) { x.v = static_cast<int>(r.next()); fill(r, x.p); fill(r, x.q); if (r.chance(1, 5)) x.p.first = x.q; }
  void fill(Rng& r, abyss& x) { fill(r, x.x); x.w = word(r); fill(r, x.y); if (r.chance(1, 5)) x.y = x.x; }
  void fill(Rng& r, only_child& x) { fill(r, x.c); }
  void fill(Rng& r, item& x) { x = {static_cast<unsigned>(r.next()), word(r)}; }
  void fill(Rng& r, boxed& x) { fill(r, x.lid); x.m = static_cast<unsigned>(r.next()); }
  void fill(Rng& r, basket& x);
  template <typename C> void fill_list(Rng& r, C& c)
  {
    auto n = r.pick({0, 0, 1, 2, 3, 7});
    for (int i = 0; i < n; ++i) { c.emplace_back(); fill(r, c.back()); if (i && r.chance(1, 5)) c.back() = c.front(); }
  }
  void fill(Rng& r, basket& x) { x.label = word(r); fill_list(r, x.items); }
  void fill(Rng& r, shelf& x) { x.no = static_cast<int>(r.next()); fill_list(r, x.baskets); fill(r, x.head); fill_list(r, x.loose); fill_list(r, x.boxes); }
  void fill(Rng& r, crate& x) { fill(r, x.inner); x.weight = static_cast<int>(r.next()); }
  void fill(Rng& r, only_list& x) { fill_list(r, x.all); }

  // ---- values as text ------------------------------------------------------------------
  std::string text(std::string const& s) { return vmon::quote(s); }
  std::string text(char const* s) { return vmon::quote(s); }
  std::string text(bool b) { return b ? "1" : "0"; }
  std::string text(int x) { return std::to_string(x); }
  std::string text(unsigned x) { return std::to_string(x); }
  std::string text(long x) { return std::to_string(x); }
  template <typename T> std::string text(nbdl::key_impl<T> const& k) { return std::to_string(k.value); }
  template <typename S> std::string name_of(S s) { return std::string(s.c_str(), hana::length(s)); }

  using columns = std::vector<std::pair<std::string, std::string>>;

  struct row
  {
    std::string table;
    columns cols;
    unsigned id;
    std::string str() const
    {
      std::string s = table;
      auto sorted = cols;
      std::sort(sorted.begin(), sorted.end());
      for (auto& [n, v] : sorted) s += " " + n + "=" + v;
      return s + " -> " + std::to_string(id);
    }
  };
  using rows = std::vector<row>;

  template <typename T> std::string kind() { return name_of(sd::table_name<T>{}); }

  // ---- the walk written by hand --------------------------------------------------------
  // A row is explained by the value it holds: it refers to the rows of its children, which come
  // before it, and the rows of its collections, which come after it in order, refer to it.
  struct walk
  {
    rows const& log;       // what was emitted
    std::vector<bool> used = std::vector<bool>(log.size());
    std::string problem;
    void fail(std::size_t at, std::string s)
    { if (problem.empty()) problem = "row " + std::to_string(at) + (at < log.size() ? " (" + log[at].str() + ")" : "") + ": " + s; }

    static columns join(columns a, columns b) { a.insert(a.end(), b.begin(), b.end()); return a; }
    static std::pair<std::string, std::string> ref(std::string n, unsigned id) { return {n, std::to_string(id)}; }

    std::size_t row_of(unsigned id)
    {
      for (std::size_t i = 0; i < log.size(); ++i) if (log[i].id == id) return i;
      return log.size();
    }
    // the row at `at` is that of a value of this table with these columns and references to children
    bool own(std::size_t at, std::string table, columns cols, std::vector<std::string> children = {})
    {
      if (!problem.empty()) return false;
      if (at >= log.size()) { fail(at, "there is no row for a " + table); return false; }
      if (used[at]) { fail(at, "is the row of two values"); return false; }
      used[at] = true;
      for (auto& n : children) for (auto& c : log[at].cols) if (c.first == n) { cols.push_back(c); break; }
      row want{table, cols, log[at].id};
      if (want.str() != log[at].str()) { fail(at, "should be " + want.str() + (children.empty() ? "" : " and refer to its children")); return false; }
      return true;
    }
    template <typename T> void child(std::size_t at, std::string name, T const& x)
    {
      if (!problem.empty()) return;
      std::size_t found = log.size();
      for (auto& c : log[at].cols) if (c.first == name) found = row_of(static_cast<unsigned>(std::stoul(c.second)));
      if (found >= log.size()) return fail(at, name + " refers to no row");
      if (found > at) return fail(at, name + " refers to a row emitted after it");
      go(x, found, {});
    }
    template <typename C> void list(std::size_t at, std::string parent, C const& c, std::string table)
    {
      if (!problem.empty()) return;
      auto k = ref(parent, log[at].id);
      std::vector<std::size_t> found;
      for (std::size_t i = 0; i < log.size(); ++i)
        if (log[i].table == table && std::find(log[i].cols.begin(), log[i].cols.end(), k) != log[i].cols.end())
        {
          if (i < at) return fail(i, "was emitted before the row it refers to");
          found.push_back(i);
        }
      if (found.size() != c.size()) return fail(at, std::to_string(found.size()) + " rows of " + table + " instead of " + std::to_string(c.size()));
      std::size_t i = 0;
      for (auto& x : c) go(x, found[i++], {k});
    }
    // all rows of these values, which no other row refers to
    void done() { for (std::size_t i = 0; i < log.size(); ++i) if (!used[i]) fail(i, "was not called for"); }

    void go(tag const& x, std::size_t at, columns k) { own(at, "tag", join(k, {{"num", text(x.num)}, {"txt", text(x.txt)}})); }
    void go(wide const& x, std::size_t at, columns k)
    {
      own(at, "wide", join(k, {{"a", text(x.a)}, {"b", text(x.b)}, {"c", text(x.c)}, {"d", text(x.d)}, {"e", text(x.e)},
                               {"f", text(x.f)}, {"g", text(x.g)}}));
    }
    void go(pair2 const& x, std::size_t at, columns k)
    {
      own(at, "pair2", join(k, {{"name", text(x.name)}}), {"first_id", "second_id"});
      child(at, "first_id", x.first); child(at, "second_id", x.second);
    }
    void go(deep const& x, std::size_t at, columns k)
    {
      own(at, "deep", join(k, {{"v", text(x.v)}}), {"p_id", "q_id"});
      child(at, "p_id", x.p); child(at, "q_id", x.q);
    }
    void go(abyss const& x, std::size_t at, columns k)
    {
      own(at, "abyss", join(k, {{"w", text(x.w)}}), {"x_id", "y_id"});
      child(at, "x_id", x.x); child(at, "y_id", x.y);
    }
    void go(only_child const& x, std::size_t at, columns k) { own(at, "only_child", k, {"c_id"}); child(at, "c_id", x.c); }
    void go(item const& x, std::size_t at, columns k) { own(at, "item", join(k, {{"n", text(x.n)}, {"s", text(x.s)}})); }
    void go(boxed const& x, std::size_t at, columns k) { own(at, "boxed", join(k, {{"m", text(x.m)}}), {"lid_id"}); child(at, "lid_id", x.lid); }
    void go(basket const& x, std::size_t at, columns k)
    {
      own(at, "basket", join(k, {{"label", text(x.label)}}));
      list(at, "basket_id", x.items, "item");
    }
    void go(shelf const& x, std::size_t at, columns k)
    {
      own(at, "shelf", join(k, {{"no", text(x.no)}}), {"head_id"});
      child(at, "head_id", x.head);
      list(at, "shelf_id", x.baskets, "basket"); list(at, "shelf_id", x.loose, "item"); list(at, "shelf_id", x.boxes, "boxed");
    }
    void go(crate const& x, std::size_t at, columns k)
    {
      own(at, "crate", join(k, {{"weight", text(x.weight)}}), {"inner_id"});
      child(at, "inner_id", x.inner);
    }
    void go(only_list const& x, std::size_t at, columns k) { own(at, "only_list", k); list(at, "only_list_id", x.all, "item"); }
  };

  template <typename Params>
  columns columns_of(Params const& params)
  {
    columns c;
    hana::for_each(params, [&](auto const& p) { c.emplace_back(name_of(hana::first(p)), text(hana::second(p))); });
    return c;
  }

  // ---- rows ----------------------------------------------------------------------------

  struct recorder
  {
    rows* log; unsigned* next; unsigned step;
    template <typename Name, typename Params>
    unsigned operator()(Name name, Params&& params) const
    {
      // a real insert consumes what it is given
      auto mine = std::decay_t<Params>(std::forward<Params>(params));
      *next += step;
      log->push_back({name_of(name), columns_of(mine), *next});
      return *next;
    }
  };

  template <typename T>
  std::string whole(T const& x)
  {
    std::string s;
    nbdl::bind_sequence(x, [&](auto const& ...m)
    {
      auto one = [&](auto const& v)
      {
        using V = std::decay_t<decltype(v)>;
        if constexpr (nbdl::EntityContainer<V>) { s += "["; for (auto& e : v) s += whole(e) + ","; s += "]"; }
        else if constexpr (nbdl::Entity<V>) s += "{" + whole(v) + "}";
        else s += text(v) + ";";
      };
      (one(m), ...);
    });
    return s;
  }

  template <typename T>
  void rows_of(Rng& r)
  {
    T x{}; fill(r, x);
    auto const before = whole(x);
    rows log;
    unsigned next = static_cast<unsigned>(r.below(1000));
    recorder rec{&log, &next, static_cast<unsigned>(1 + r.below(9))};
    auto const owner = word(r); auto const place = static_cast<int>(r.next());
    columns keys;
    unsigned id = 0;
    auto given = hana::make_tuple(hana::make_pair("owner"_s, std::string(owner)), hana::make_pair("place_id"_s, place));
    int how = static_cast<int>(r.below(6));
    if (how >= 3) keys = {{"owner", text(owner)}, {"place_id", text(place)}};
    T moved = x;
    auto const& cx = x;
    using sd::insert;
    switch (how)
    {
    case 0: id = insert(rec, x).value; break;
    case 1: id = insert(rec, cx).value; break;
    case 2: id = insert(rec, std::move(moved)).value; break;
    case 3: id = insert(rec, x, given).value; break;
    case 4: id = insert(rec, cx, std::move(given)).value; break;
    case 5: id = insert(rec, std::move(moved), std::as_const(given)).value; break;
    }
    auto what = kind<T>() + " " + before.substr(0, 300) + " inserted in way " + std::to_string(how);
    vmon::check(whole(x) == before, "source", what + ": the entity inserted became " + whole(x).substr(0, 300));
    if (how == 3 || how == 5)
      vmon::check(hana::second(hana::at_c<0>(given)) == owner, "source-keys", what + ": the keys given were changed");
    walk w{log};
    auto at = w.row_of(id);
    vmon::check(at < log.size(), "key", what + ": gave the key " + std::to_string(id) + " of no row");
    w.go(x, at, keys);
    w.done();
    vmon::check(w.problem.empty(), "rows", what + ": " + w.problem);
    std::set<std::string> seen;
    for (auto& l : log)
    {
      std::set<std::string> names;
      for (auto& c : l.cols) vmon::check(names.insert(c.first).second, "column-twice", what + ": " + l.str());
    }
    vmon::count("rows inserted", log.size());
    vmon::count(kind<T>());
    vmon::distinct(vmon::hash(what));
    if (log.size() > 3) { std::string s; for (auto& l : log) s += l.str() + "\n"; vmon::sample(s); }
  }

  // a collection of rows inserted at once
  template <typename C>
  void rows_of_list(Rng& r)
  {
    using T = typename C::value_type;
    C c; fill_list(r, c);
    C moved = c;
    rows log;
    unsigned next = 0;
    recorder rec{&log, &next, 1};
    auto const owner = word(r); auto const place = static_cast<int>(r.next());
    auto given = hana::make_tuple(hana::make_pair("owner"_s, std::string(owner)), hana::make_pair("place_id"_s, place));
    columns keys = {{"owner", text(owner)}, {"place_id", text(place)}};
    int how = static_cast<int>(r.below(5));
    using sd::insert;
    switch (how)
    {
    case 0: insert(rec, c); keys = {}; break;
    case 1: insert(rec, std::move(moved)); keys = {}; break;
    case 2: insert(rec, c, given); break;
    case 3: insert(rec, std::move(moved), std::move(given)); break;
    case 4: insert(rec, std::as_const(c), hana::make_tuple(hana::make_pair("owner"_s, std::string(owner)), hana::make_pair("place_id"_s, place))); break;
    }
    walk w{log};
    std::size_t at = 0;
    for (auto& x : c)
    {
      // the next row of the table which is not part of another value
      while (at < log.size() && (log[at].table != kind<T>() || w.used[at])) ++at;
      w.go(x, at, keys);
    }
    w.done();
    vmon::check(w.problem.empty(), "list-rows", std::to_string(c.size()) + " of " + kind<T>() + " in way " + std::to_string(how) + ": " + w.problem);
    vmon::count("rows inserted", log.size());
    vmon::count("lists inserted");
    vmon::distinct(vmon::hash(std::to_string(c.size()) + kind<T>() + owner));
  }

  void rows_mode(Rng& r)
  {
    switch (r.below(15))
    {
    case 0: rows_of<tag>(r); break;
    case 1: rows_of<wide>(r); break;
    case 2: rows_of<pair2>(r); break;
    case 3: rows_of<deep>(r); break;
    case 4: rows_of<abyss>(r); break;
    case 5: rows_of<only_child>(r); break;
    case 6: rows_of<item>(r); break;
    case 7: rows_of<boxed>(r); break;
    case 8: rows_of<basket>(r); break;
    case 9: rows_of<shelf>(r); break;
    case 10: rows_of<crate>(r); break;
    case 11: rows_of<only_list>(r); break;
    case 12: rows_of_list<std::vector<tag>>(r); break;
    case 13: rows_of_list<std::deque<boxed>>(r); break;
    case 14: rows_of_list<std::vector<shelf>>(r); break;
    }
  }
}
#ifndef NO_DB

namespace
{
  // ---- the database --------------------------------------------------------------------
  struct db
  {
    sqlite3* h = nullptr;
    std::string error;
    int statements = 0;
    db() { sqlite3_open(":memory:", &h); }
    ~db() { sqlite3_close(h); }
    bool exec(char const* s)
    {
      char* e = nullptr;
      if (sqlite3_exec(h, s, nullptr, nullptr, &e) == SQLITE_OK) return true;
      note(s); sqlite3_free(e); return false;
    }
    void note(std::string s) { if (error.empty()) error = s + ": " + sqlite3_errmsg(h); }

    static void bind(sqlite3_stmt* q, int i, std::string const& v) { sqlite3_bind_text(q, i, v.data(), static_cast<int>(v.size()), SQLITE_TRANSIENT); }
    static void bind(sqlite3_stmt* q, int i, bool v) { sqlite3_bind_int64(q, i, v); }
    static void bind(sqlite3_stmt* q, int i, int v) { sqlite3_bind_int64(q, i, v); }
    static void bind(sqlite3_stmt* q, int i, unsigned v) { sqlite3_bind_int64(q, i, v); }
    static void bind(sqlite3_stmt* q, int i, long v) { sqlite3_bind_int64(q, i, v); }
    template <typename T> static void bind(sqlite3_stmt* q, int i, nbdl::key_impl<T> const& k) { sqlite3_bind_int64(q, i, k.value); }

    // all rows that a statement with its values gives
    template <typename Values>
    std::vector<columns> run(std::string const& sql, Values const& values)
    {
      ++statements;
      std::vector<columns> result;
      sqlite3_stmt* q = nullptr;
      char const* tail = nullptr;
      if (sqlite3_prepare_v2(h, sql.data(), static_cast<int>(sql.size()), &q, &tail) != SQLITE_OK) { note(sql); return result; }
      if (tail && *tail && tail != sql.data() + sql.size()) note("left over text in " + sql);
      int n = static_cast<int>(decltype(hana::length(values))::value);
      if (sqlite3_bind_parameter_count(q) != n)
        note(std::to_string(n) + " values for the " + std::to_string(sqlite3_bind_parameter_count(q)) + " placeholders of " + sql);
      int i = 0;
      hana::for_each(values, [&](auto const& v) { bind(q, ++i, v); });
      int rc;
      while ((rc = sqlite3_step(q)) == SQLITE_ROW)
      {
        columns c;
        for (int k = 0; k < sqlite3_column_count(q); ++k)
        {
          std::string v;
          if (sqlite3_column_type(q, k) == SQLITE_INTEGER) v = std::to_string(static_cast<long long>(sqlite3_column_int64(q, k)));
          else if (sqlite3_column_type(q, k) == SQLITE_NULL) v = "NULL";
          else { auto p = static_cast<char const*>(sqlite3_column_blob(q, k)); v = vmon::quote(std::string_view(p ? p : "", sqlite3_column_bytes(q, k))); }
          c.emplace_back(sqlite3_column_name(q, k), v);
        }
        result.push_back(std::move(c));
      }
      if (rc != SQLITE_DONE) note(sql);
      sqlite3_finalize(q);
      return result;
    }
  };

  char const* schema =
    "CREATE TABLE tag(tag_id INTEGER PRIMARY KEY, num INTEGER, txt TEXT, owner TEXT, place_id INTEGER);"
    "CREATE TABLE wide(wide_id INTEGER PRIMARY KEY, a INTEGER, b TEXT, c INTEGER, d TEXT, e INTEGER, f INTEGER, g TEXT, owner TEXT, place_id INTEGER);"
    "CREATE TABLE pair2(pair2_id INTEGER PRIMARY KEY, name TEXT, first_id INTEGER, second_id INTEGER, owner TEXT, place_id INTEGER);"
    "CREATE TABLE deep(deep_id INTEGER PRIMARY KEY, v INTEGER, p_id INTEGER, q_id INTEGER, owner TEXT, place_id INTEGER);"
    "CREATE TABLE abyss(abyss_id INTEGER PRIMARY KEY, w TEXT, x_id INTEGER, y_id INTEGER, owner TEXT, place_id INTEGER);"
    "CREATE TABLE only_child(only_child_id INTEGER PRIMARY KEY, c_id INTEGER, owner TEXT, place_id INTEGER);"
    "CREATE TABLE item(item_id INTEGER PRIMARY KEY, n INTEGER, s TEXT, basket_id INTEGER, shelf_id INTEGER, owner TEXT, place_id INTEGER);"
    "CREATE TABLE boxed(boxed_id INTEGER PRIMARY KEY, m INTEGER, lid_id INTEGER, shelf_id INTEGER, owner TEXT, place_id INTEGER);"
    "CREATE TABLE basket(basket_id INTEGER PRIMARY KEY, label TEXT, shelf_id INTEGER, owner TEXT, place_id INTEGER);"
    "CREATE TABLE shelf(shelf_id INTEGER PRIMARY KEY, no INTEGER, head_id INTEGER, owner TEXT, place_id INTEGER);"
    "CREATE TABLE crate(crate_id INTEGER PRIMARY KEY, weight INTEGER, inner_id INTEGER, owner TEXT, place_id INTEGER);";

  // what select must read for an entity, by the names of its columns
  void expect(tag const& x, std::string p, columns& c) { c.emplace_back("\"" + p + "\".\"num\"", text(x.num)); c.emplace_back("\"" + p + "\".\"txt\"", text(x.txt)); }
  void expect(item const& x, std::string p, columns& c) { c.emplace_back("\"" + p + "\".\"n\"", text(x.n)); c.emplace_back("\"" + p + "\".\"s\"", text(x.s)); }
  void expect(wide const& x, std::string p, columns& c)
  {
    p = "\"" + p + "\".\"";
    c.emplace_back(p + "a\"", text(x.a)); c.emplace_back(p + "b\"", text(x.b)); c.emplace_back(p + "c\"", text(x.c)); c.emplace_back(p + "d\"", text(x.d));
    c.emplace_back(p + "e\"", text(x.e)); c.emplace_back(p + "f\"", text(x.f)); c.emplace_back(p + "g\"", text(x.g));
  }
  void expect(pair2 const& x, std::string p, columns& c)
  { c.emplace_back("\"" + p + "\".\"name\"", text(x.name)); expect(x.first, p + ".first", c); expect(x.second, p + ".second", c); }
  void expect(deep const& x, std::string p, columns& c)
  { c.emplace_back("\"" + p + "\".\"v\"", text(x.v)); expect(x.p, p + ".p", c); expect(x.q, p + ".q", c); }
  void expect(abyss const& x, std::string p, columns& c)
  { c.emplace_back("\"" + p + "\".\"w\"", text(x.w)); expect(x.x, p + ".x", c); expect(x.y, p + ".y", c); }
  void expect(only_child const& x, std::string p, columns& c) { expect(x.c, p + ".c", c); }
  void expect(boxed const& x, std::string p, columns& c) { c.emplace_back("\"" + p + "\".\"m\"", text(x.m)); expect(x.lid, p + ".lid", c); }
  template <typename T> columns expected(T const& x) { columns c; expect(x, kind<T>(), c); std::sort(c.begin(), c.end()); return c; }
  std::string show(columns const& c) { std::string s; for (auto& [n, v] : c) s += n + "=" + v + " "; return s; }

  struct into_db
  {
    db* d;
    template <typename Name, typename Params>
    unsigned operator()(Name name, Params&& params) const
    {
      auto q = sd::statement::insert(name, hana::to_map(std::forward<Params>(params)));
      d->run(std::string(hana::first(q).c_str(), hana::length(hana::first(q))), hana::second(q));
      return static_cast<unsigned>(sqlite3_last_insert_rowid(d->h));
    }
  };
  struct from_db
  {
    db* d;
    template <typename Name, typename Columns, typename Joins, typename Keys>
    std::vector<columns> operator()(Name name, Columns cols, Joins joins, Keys&& keys) const
    {
      auto q = sd::statement::select(name, cols, joins, std::forward<Keys>(keys));
      auto result = d->run(std::string(hana::first(q).c_str(), hana::length(hana::first(q))), hana::second(q));
      // name the columns as the statement does
      std::vector<std::string> names(1);
      for (char c : name_of(cols)) if (c == ',') names.emplace_back(); else names.back() += c;
      for (auto& row : result)
      {
        if (row.size() != names.size()) { d->note("columns of " + name_of(cols)); continue; }
        for (std::size_t i = 0; i < row.size(); ++i) row[i].first = names[i];
        std::sort(row.begin(), row.end());
      }
      return result;
    }
  };
  struct update_db
  {
    db* d;
    template <typename Name, typename Values, typename Keys>
    void operator()(Name name, Values&& values, Keys&& keys) const
    {
      auto q = sd::statement::update(name, hana::to<hana::basic_tuple_tag>(std::forward<Values>(values)),
                                     hana::to<hana::basic_tuple_tag>(std::forward<Keys>(keys)));
      d->run(std::string(hana::first(q).c_str(), hana::length(hana::first(q))), hana::second(q));
    }
  };

  template <typename T>
  void insert_and_select(Rng& r, db& d)
  {
    std::vector<std::string> owners{word(r), word(r)};
    std::vector<T> xs; std::vector<unsigned> ids; std::vector<int> owner_at, place;
    auto n = 1 + r.below(5);
    for (unsigned i = 0; i < n; ++i)
    {
      T x{}; fill(r, x);
      int o = static_cast<int>(r.below(3)) - 1, p = static_cast<int>(r.below(3));
      unsigned id;
      using sd::insert;
      if (o < 0) id = insert(into_db{&d}, x).value;
      else id = insert(into_db{&d}, x, hana::make_tuple(hana::make_pair("owner"_s, std::string(owners[o])), hana::make_pair("place_id"_s, p))).value;
      xs.push_back(x); ids.push_back(id); owner_at.push_back(o); place.push_back(p);
    }
    auto what = kind<T>();
    auto quoted = [](auto col) { return sd::detail::string_sum("\""_s, sd::table_name<T>{}, "\".\""_s, col, "\""_s); };
    auto primary = [&](unsigned id) { return hana::make_pair(sd::select_primary_key_name<T>{}, sd::primary_key<T>{id}); };

    auto all_right = [&](char const* when)
    {
      for (unsigned i = 0; i < n; ++i)
      {
        auto got = sd::select<T>(from_db{&d}, hana::make_map(primary(ids[i])));
        vmon::count("rows selected", got.size());
        if (!d.error.empty()) return;
        vmon::check(got.size() == 1 && got[0] == expected(xs[i]), std::string("select-") + when,
                    what + " " + std::to_string(ids[i]) + " should be " + show(expected(xs[i])).substr(0, 300) + " but is " +
                    (got.empty() ? "absent" : show(got[0]).substr(0, 300)) + " of " + std::to_string(got.size()));
      }
    };
    all_right("inserted");

    // by two and three keys
    for (int k = 0; k < 4 && d.error.empty(); ++k)
    {
      unsigned i = r.below(n); int o = static_cast<int>(r.below(2)), p = static_cast<int>(r.below(3));
      auto two = sd::select<T>(from_db{&d}, hana::make_map(primary(ids[i]), hana::make_pair(quoted("owner"_s), std::string(owners[o]))));
      bool match = owner_at[i] >= 0 && owners[owner_at[i]] == owners[o];
      if (d.error.empty())
        vmon::check(two.size() == match && (!match || two[0] == expected(xs[i])), "two-keys",
                    what + ": selected " + std::to_string(two.size()) + " rows by its key and its " + (match ? "" : "wrong ") + "owner");
      auto three = sd::select<T>(from_db{&d}, hana::make_map(primary(ids[i]), hana::make_pair(quoted("owner"_s), std::string(owners[o])),
                                                             hana::make_pair(quoted("place_id"_s), p)));
      match = match && place[i] == p;
      if (d.error.empty())
        vmon::check(three.size() == match && (!match || three[0] == expected(xs[i])), "three-keys",
                    what + ": selected " + std::to_string(three.size()) + " rows by three keys, " + (match ? "all right" : "not all right"));
      vmon::count("selects by several keys", 2);
    }

    // by the key of a child
    if constexpr (std::is_same_v<T, deep>)
      for (int k = 0; k < 3 && d.error.empty(); ++k)
      {
        unsigned i = r.below(n);
        auto q = d.run("SELECT q_id, first_id FROM deep JOIN pair2 ON pair2_id = p_id WHERE deep_id=?", hana::make_tuple(ids[i]));
        if (q.size() != 1) continue;
        using outer = NBDL_MEMBER(&deep::q);
        using middle = NBDL_MEMBER(&deep::p);
        using inner = NBDL_MEMBER(&pair2::first);
        auto got = sd::select<T>(from_db{&d}, hana::make_map(hana::make_pair(sd::select_nested_key_name<deep, outer>{}, std::stoi(q[0][0].second))));
        auto other = sd::select<T>(from_db{&d}, hana::make_map(hana::make_pair(sd::select_nested_key_name<deep, middle, inner>{}, std::stoi(q[0][1].second))));
        if (!d.error.empty()) break;
        vmon::check(got.size() == 1 && got[0] == expected(xs[i]) && other == got, "child-key", what + ": selected by the key of a child " + std::to_string(got.size()) + " and "
                    + std::to_string(other.size()) + " rows");
        vmon::count("selects by a child's key", 2);
      }

    // updates touch their own row and nothing else
    if constexpr (std::is_same_v<T, tag> || std::is_same_v<T, wide> || std::is_same_v<T, item>)
    {
      for (int k = 0; k < 3 && d.error.empty(); ++k)
      {
        unsigned i = r.below(n);
        T y{}; fill(r, y);
        T given = y;
        int how = static_cast<int>(r.below(3));
        bool hits = true;
        using sd::update;
        if (how == 0) update(update_db{&d}, y, hana::make_tuple(hana::make_pair(sd::table_key_name<T>{}, sd::primary_key<T>{ids[i]})));
        else if (how == 1) update(update_db{&d}, std::move(given), hana::make_tuple(hana::make_pair(sd::table_key_name<T>{}, sd::primary_key<T>{ids[i]})));
        else
        {
          int o = static_cast<int>(r.below(2));
          hits = owner_at[i] >= 0 && owners[owner_at[i]] == owners[o];
          update(update_db{&d}, y, hana::make_tuple(hana::make_pair("owner"_s, std::string(owners[o])), hana::make_pair(sd::table_key_name<T>{}, sd::primary_key<T>{ids[i]})));
          vmon::count("updates by several keys");
        }
        if (hits) xs[i] = y;
        vmon::count("updates");
        all_right("updated");
      }
    }
    vmon::check(d.error.empty(), "statement", what + ": " + d.error);
    vmon::count(what);
    std::string all; for (auto& x : xs) all += whole(x);
    vmon::distinct(vmon::hash(what + all));
  }

  std::vector<std::string> read(db& d, std::string const& sql, unsigned id)
  {
    std::vector<std::string> v;
    for (auto& row : d.run(sql, hana::make_tuple(id))) { std::string s; for (auto& c : row) s += c.second + "|"; v.push_back(s); }
    return v;
  }
  void check_items(db& d, std::string parent, unsigned id, std::vector<std::string> want)
  {
    auto got = read(d, "SELECT n,s FROM item WHERE " + parent + "_id=? ORDER BY item_id", id);
    vmon::check(got == want, "items", parent + " " + std::to_string(id) + " has " + std::to_string(got.size()) + " items instead of " + std::to_string(want.size()) + ", or others");
    vmon::count("rows of collections read", got.size());
  }
  template <typename C> std::vector<std::string> items(C const& c) { std::vector<std::string> v; for (auto& i : c) v.push_back(text(i.n) + "|" + text(i.s) + "|"); return v; }

  void check_basket(db& d, unsigned id, basket const& b)
  {
    auto got = read(d, "SELECT label FROM basket WHERE basket_id=?", id);
    vmon::check(got == std::vector<std::string>{text(b.label) + "|"}, "basket", "label of basket " + std::to_string(id));
    check_items(d, "basket", id, items(b.items));
  }
  void collections(Rng& r, db& d)
  {
    using sd::insert;
    for (unsigned k = 0, n = 1 + r.below(3); k < n; ++k)
    {
      switch (r.below(3))
      {
      case 0: { basket b{}; fill(r, b); auto id = insert(into_db{&d}, b).value; check_basket(d, id, b); break; }
      case 1:
      {
        crate c{}; fill(r, c); auto id = insert(into_db{&d}, c).value;
        auto got = read(d, "SELECT weight FROM crate WHERE crate_id=?", id);
        vmon::check(got == std::vector<std::string>{text(c.weight) + "|"}, "crate", "weight");
        auto inner = read(d, "SELECT inner_id FROM crate WHERE crate_id=?", id);
        if (inner.size() == 1) check_basket(d, static_cast<unsigned>(std::stoul(inner[0])), c.inner);
        break;
      }
      case 2:
      {
        shelf s{}; fill(r, s); auto id = insert(into_db{&d}, s).value;
        auto got = read(d, "SELECT no, num, txt FROM shelf JOIN tag ON tag_id = head_id WHERE shelf_id=?", id);
        vmon::check(got == std::vector<std::string>{text(s.no) + "|" + text(s.head.num) + "|" + text(s.head.txt) + "|"}, "shelf", "head");
        check_items(d, "shelf", id, items(s.loose));
        auto ids = read(d, "SELECT basket_id FROM basket WHERE shelf_id=? ORDER BY basket_id", id);
        vmon::check(ids.size() == s.baskets.size(), "baskets", "a shelf has " + std::to_string(ids.size()) + " baskets");
        for (std::size_t i = 0; i < ids.size() && i < s.baskets.size(); ++i) check_basket(d, static_cast<unsigned>(std::stoul(ids[i])), s.baskets[i]);
        std::vector<std::string> want; for (auto& b : s.boxes) want.push_back(text(b.m) + "|" + text(b.lid.num) + "|" + text(b.lid.txt) + "|");
        got = read(d, "SELECT m, num, txt FROM boxed JOIN tag ON tag_id = lid_id WHERE shelf_id=? ORDER BY boxed_id", id);
        vmon::check(got == want, "boxes", "boxes of a shelf");
        break;
      }
      }
    }
    vmon::check(d.error.empty(), "statement", "collections: " + d.error);
    vmon::count("collections");
  }

  void database(Rng& r)
  {
    db d;
    if (!d.exec(schema)) { std::fprintf(stderr, "schema: %s\n", d.error.c_str()); std::abort(); }
    for (unsigned k = 0, n = 1 + r.below(3); k < n; ++k)
      switch (r.below(9))
      {
      case 0: insert_and_select<tag>(r, d); break;
      case 1: insert_and_select<wide>(r, d); break;
      case 2: insert_and_select<pair2>(r, d); break;
      case 3: insert_and_select<deep>(r, d); break;
      case 4: insert_and_select<abyss>(r, d); break;
      case 5: insert_and_select<only_child>(r, d); break;
      case 6: insert_and_select<item>(r, d); break;
      case 7: insert_and_select<boxed>(r, d); break;
      case 8: collections(r, d); break;
      }
    vmon::count("statements run", d.statements);
  }
}
#endif

VMON_MODE("rows", rows_mode, "rows inserted", "lists inserted", "shelf", "abyss")
#ifndef NO_DB
VMON_MODE("database", database, "rows selected", "updates", "updates by several keys", "selects by several keys", "selects by a child's key", "collections", "rows of collections read")
#endif
VMON_MAIN
