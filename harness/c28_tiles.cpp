// C28: the tile game of the examples against a two dimensional model.
#include <boost/hana.hpp>
namespace hana = boost::hana;
#include <nbdl.hpp>
#include "vmon.hpp"
#include <set>
#include <tiles/game.hpp>
using vmon::Rng;

namespace
{
  // the model: rows of tiles, and the tail which is no part of the board
  struct model
  {
    int w, h;
    std::vector<std::vector<unsigned char>> rows;
    std::vector<unsigned char> tail;
    bool move(int index)
    {
      if (index < 0 || index >= w * h) return false;
      int const y = index / w, x = index % w;
      int const dx[] = {-1, 1, 0, 0}, dy[] = {0, 0, -1, 1};
      for (int d = 0; d < 4; ++d)
      {
        int const nx = x + dx[d], ny = y + dy[d];
        if (nx < 0 || nx >= w || ny < 0 || ny >= h) continue;
        if (rows[y][x] != 0 && rows[ny][nx] == 0) { std::swap(rows[y][x], rows[ny][nx]); return true; }
      }
      return false;
    }
    // inversions of the tiles, and the row of the empty one: no legal move changes this number
    int parity() const
    {
      std::vector<int> seq; int row = 0;
      for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (rows[y][x]) seq.push_back(rows[y][x]); else row = y;
      int inv = 0;
      for (std::size_t i = 0; i < seq.size(); ++i) for (std::size_t j = i + 1; j < seq.size(); ++j) inv += seq[i] > seq[j];
      return w % 2 ? inv % 2 : (inv + row) % 2;
    }
    std::vector<unsigned char> all() const
    {
      std::vector<unsigned char> v;
      for (auto const& r : rows) v.insert(v.end(), r.begin(), r.end());
      v.insert(v.end(), tail.begin(), tail.end());
      return v;
    }
    std::string show() const
    {
      std::string s = std::to_string(w) + "x" + std::to_string(h) + ":";
      for (auto c : all()) s += " " + std::to_string(c);
      return s;
    }
  };
  template <typename G> std::vector<unsigned char> board_of(G const& g) { return {g.board.begin(), g.board.end()}; }

  model some_board(Rng& r)
  {
    model m;
    do { m.w = r.chance(1, 8) ? 1 : r.range(1, 9); m.h = r.chance(1, 8) ? 1 : r.range(1, 9); } while (m.w * m.h > 64 || m.w * m.h < 2);
    if (r.chance(1, 6)) { m.w = m.h = 8; }
    if (r.chance(1, 30)) { m.w = 64; m.h = 1; }
    if (r.chance(1, 30)) { m.w = 1; m.h = 64; }
    std::vector<unsigned char> p;
    for (int i = 0; i < m.w * m.h; ++i) p.push_back(static_cast<unsigned char>(i));
    if (r.coin()) r.shuffle(p);
    m.rows.resize(m.h);
    for (int y = 0; y < m.h; ++y) m.rows[y].assign(p.begin() + y * m.w, p.begin() + (y + 1) * m.w);
    bool const zeros = r.coin(); // nothing beyond the board is an empty tile
    for (int i = m.w * m.h; i < 64; ++i) m.tail.push_back(zeros ? 0 : static_cast<unsigned char>(r.below(256)));
    return m;
  }
  tiles::game game_of(model const& m)
  {
    tiles::game g; g.width = m.w; g.height = m.h;
    auto v = m.all();
    std::copy(v.begin(), v.end(), g.board.begin());
    return g;
  }
  int some_index(Rng& r, model const& m)
  {
    int e = 0;
    auto v = m.all();
    while (v[e] != 0) ++e;
    int const deltas[] = {-1, 1, -m.w, m.w, 0, m.w - 1, -m.w - 1};
    switch (r.below(4))
    {
      case 0: return r.range(0, 255);
      case 1: return r.range(0, m.w * m.h);
      default: return std::clamp(e + deltas[r.below(7)], 0, 255);
    }
  }
  // The first tile of the last row with no empty neighbour: nbdl takes the byte beyond the board for
  // its neighbour below (a known finding).  Such moves belong to the modes last-row and edge.
  bool below_the_board(model const& m, int i)
  {
    model n = m;
    return i == m.w * (m.h - 1) && (m.tail.empty() || m.tail[0] == 0) && !n.move(i);
  }
  void judge(model const& before, int i, bool moved, bool expect, model const& after, std::vector<unsigned char> const& got)
  {
    vmon::count("moves");
    vmon::count(expect ? "moves made" : "moves refused");
    if (moved != expect) vmon::violate("a move says whether it was made", before.show() + " move " + std::to_string(i) + (moved ? " made" : " refused"));
    if (got != after.all()) vmon::violate("board after a move", before.show() + " move " + std::to_string(i));
    if (expect) vmon::check(after.parity() == before.parity(), "model", "a move changed what no move can change");
  }
}

namespace { struct wide { int index; }; }
static void moves(Rng& r)
{
  model m = some_board(r);
  // the board lies alone in memory, so that the sanitizer sees every step off it
  auto g = std::make_unique<tiles::game>(game_of(m));
  vmon::distinct(m.show());
  if (r.chance(1, 4))
  {
    // every index of this one board
    for (int i = 0; i < 256; ++i)
    {
      if (below_the_board(m, i)) { vmon::count("left to other modes"); continue; }
      model n = m; auto h = std::make_unique<tiles::game>(*g);
      bool const e = n.move(i);
      bool const got = tiles::detail::apply_game_move(*h, tiles::game_move{static_cast<unsigned char>(i)});
      judge(m, i, got, e, n, board_of(*h));
      vmon::check(h->width == m.w && h->height == m.h, "size of the board", m.show());
    }
  }
  int const steps = r.range(1, 120);
  std::string const start = m.show();
  for (int k = 0; k < steps; ++k)
  {
    int const i = some_index(r, m);
    if (below_the_board(m, i)) { vmon::count("left to other modes"); continue; }
    model const before = m;
    bool const e = m.move(i);
    bool got;
    tiles::game_move mv{static_cast<unsigned char>(i)};
    if (r.coin()) got = tiles::detail::apply_game_move(*g, mv);
    else got = tiles::detail::apply_game_move(*g, std::move(mv));
    judge(before, i, got, e, m, board_of(*g));
    if (board_of(*g) != m.all()) return;
  }
  // indices which no byte can hold
  for (int i : {-1, -m.w, 256, 1 << 30, -(1 << 30), m.w * m.h})
  {
    bool const got = tiles::detail::apply_game_move(*g, wide{i});
    judge(m, i, got, false, m, board_of(*g));
  }
  vmon::sample(start + " after " + std::to_string(steps) + " moves " + m.show());
}
VMON_MODE("moves", moves, "moves made", "moves refused")

static void last_row(Rng& r)
{
  model m;
  do { m = some_board(r); if (!m.tail.empty()) m.tail[0] = 0; } while (m.tail.empty() || !below_the_board(m, m.w * (m.h - 1)));
  vmon::distinct(m.show());
  vmon::count("last rows");
  int const i = m.w * (m.h - 1);
  auto g = std::make_unique<tiles::game>(game_of(m));
  bool const moved = tiles::detail::apply_game_move(*g, tiles::game_move{static_cast<unsigned char>(i)});
  auto got = board_of(*g), wrong = m.all();
  std::swap(wrong[i], wrong[i + m.w]);
  if (moved && got == wrong) vmon::violate("the tile leaves the board downwards", m.show());
  else if (moved) vmon::violate("a move says whether it was made", m.show());
  else if (got != m.all()) vmon::violate("board after a move", m.show());
}
#ifndef VMON_THREADS
VMON_MODE("last-row", last_row, "last rows")
#endif

static void edge(Rng& r)
{
  model m;
  do { m = some_board(r); } while (!m.tail.empty() || !below_the_board(m, m.w * (m.h - 1)));
  vmon::distinct(m.show());
  vmon::count("edges");
  int const i = m.w * (m.h - 1);
  auto g = std::make_unique<tiles::game>(game_of(m));
  bool const moved = tiles::detail::apply_game_move(*g, tiles::game_move{static_cast<unsigned char>(i)});
  if (moved || board_of(*g) != m.all()) vmon::violate("board after a move", m.show());
}
#ifndef VMON_THREADS // reads beyond the board
VMON_MODE("edge", edge)
#endif

namespace
{
  thread_local int told = 0; // notifications since the last look
  struct watcher;
  template <typename C> struct watcher_actor
  {
    using hana_tag = watcher;
    C context;
    template <typename I> watcher_actor(I&& i) : context(i.context) { }
  };
  struct watcher { template <typename C> using actor_impl = watcher_actor<C>; };
  struct tiles_context
  {
    static auto make_def() { return tiles::context<nbdl::echo_producer, watcher>::make_def(); }
  };
}
namespace nbdl
{
  template <> struct notify_state_change_impl<watcher>
  {
    template <typename W, typename Path> static void apply(W&&, Path&& p)
    {
      if constexpr (std::is_same_v<std::decay_t<Path>, tiles::game_path>) ++told;
      else vmon::violate("path of a notification", "not the path of the game");
    }
  };
}

static void context_(Rng& r)
{
  // two games at once: the store of one context is not that of another
  std::vector<decltype(nbdl::make_context<tiles_context>(nbdl::actor("producer"_s, nbdl::echo_producer{})))> games;
  int const n = r.range(1, 2);
  for (int i = 0; i < n; ++i) games.push_back(nbdl::make_context<tiles_context>(nbdl::actor("producer"_s, nbdl::echo_producer{})));
  model const first{3, 3, {{3, 4, 6}, {8, 0, 1}, {2, 5, 7}}, std::vector<unsigned char>(55, 0)};
  std::vector<model> m(n, first);
  int const steps = r.range(1, 80);
  for (int k = 0; k < steps; ++k)
  {
    int const c = r.range(0, n - 1);
    int const i = some_index(r, m[c]);
    if (below_the_board(m[c], i)) { vmon::count("left to other modes"); continue; }
    model const before = m[c];
    bool const e = m[c].move(i);
    auto& state = games[c]->template actor<1>();
    told = 0;
    tiles::create_game_move(state, static_cast<unsigned char>(i));
    if (told != (e ? 1 : 0)) vmon::violate("notifications of a move", before.show() + " move " + std::to_string(i) + ": " + std::to_string(told));
    for (int o = 0; o < n; ++o)
    {
      bool looked = false;
      nbdl::match(games[o]->template actor<1>().context, tiles::game_path{}, [&](auto const& g)
      {
        if constexpr (std::is_same_v<std::decay_t<decltype(g)>, tiles::game>)
        {
          looked = true;
          if (o == c) judge(before, i, told == 1, e, m[o], board_of(g));
          else if (board_of(g) != m[o].all()) vmon::violate("board of another game", m[o].show());
          vmon::check(g.width == 3 && g.height == 3, "size of the board", "");
        }
      });
      vmon::check(looked, "the game is there", "");
    }
  }
  vmon::distinct(m[0].show());
}
VMON_MODE("context", context_, "moves made", "moves refused")

VMON_MAIN
