// C35: what a renderer shows is what its description says about the values of the store now,
// and an event reaches the handler once, with the values of now.
#include <nbdl/apply_message.hpp>
#include <nbdl/message.hpp>
#include <nbdl/notify_state_change.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/match.hpp>
#include <functional>
#include <vector>
#include "web/web.hpp"
#include <nbdl/webui/detail/dom_manips.hpp>
#include <nbdl/webui/html.hpp>
#include <nbdl/webui/renderer.hpp>

namespace c35
{
  // a store of named values which tells a renderer about changes made by messages
  template <typename S> struct ui_store_tag { };
  template <typename S> struct ui_store
  {
    using hana_tag = ui_store_tag<S>;
    S store;
    std::function<void()> changed;
    int applied = 0;
    ui_store(S s) : store(std::move(s)) { }
    ui_store(ui_store const&) = delete;
  };
}
namespace nbdl
{
  template <typename S> struct apply_message_impl<c35::ui_store_tag<S>>
  {
    template <typename Store, typename Message> static constexpr auto apply(Store& s, Message&& m)
    {
      nbdl::match_path(s, message::get_path(m), [&](auto& value)
      {
        if constexpr (requires { value = message::get_payload(std::forward<Message>(m)); })
          value = message::get_payload(std::forward<Message>(m));
      });
      ++s.applied;
      if (s.changed) s.changed();
      return true;
    }
  };
  template <typename S> struct get_impl<c35::ui_store_tag<S>>
  {
    template <typename Store, typename Key> static constexpr decltype(auto) apply(Store&& s, Key&& k)
    { return nbdl::get(std::forward<Store>(s).store, std::forward<Key>(k)); }
  };
}
namespace c35
{
  namespace hana = boost::hana;
  using namespace hana::literals;
  namespace message = nbdl::message;
  using vmon::Rng;
  using namespace nbdl::webui::html;
  using namespace nbdl::ui_spec;
  using nbdl::webui::html::tag::element;
  using std::string;

  // ------------------------------------------------------------ what is seen
  string canon_code()
  {
    return R"JS(
      var esc = s => String(s).replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;').replace(/"/g, '&quot;');
      var canon = n => {
        if (n.nodeType === 3) return esc(n.nodeValue);
        if (!n.attributes_) return n.outerHTML;
        var s = '<' + n.name_;
        for (var [k, v] of [...n.attributes_].sort()) {
          if (k === 'class') { v = [...new Set(v.split(/\s+/).filter(x => x))].sort().join(' '); if (!v) continue; }
          s += ' ' + k + '="' + esc(v) + '"';
        }
        for (var p of ['value', 'title']) if (Object.prototype.hasOwnProperty.call(n, p)) s += ' .' + p + '="' + esc(n[p]) + '"';
        return s + '>' + n.childNodes.map(canon).join('') + '</' + n.name_ + '>';
      };
      return document.body.childNodes.map(canon).join('');)JS";
  }
  string shown() { return web::text(canon_code()); }
  string esc(string const& s)
  {
    string r;
    for (char c : s) c == '&' ? r += "&amp;" : c == '<' ? r += "&lt;" : c == '>' ? r += "&gt;" : c == '"' ? r += "&quot;" : r += c;
    return r;
  }
  // the classes of an element, in the order of their names
  string classes(std::vector<string> c)
  {
    std::vector<string> l;
    for (auto& x : c)
    {
      string w;
      for (char ch : x + " ") if (ch == ' ' || ch == '\n') { if (!w.empty()) l.push_back(w); w.clear(); } else w += ch;
    }
    std::sort(l.begin(), l.end());
    l.erase(std::unique(l.begin(), l.end()), l.end());
    string r;
    for (auto& x : l) r += (r.empty() ? "" : " ") + x;
    return r.empty() ? r : " class=\"" + esc(r) + "\"";
  }
  // the number of listeners in the document
  int listeners() { return std::atoi(web::text("var n = 0; var f = x => { n += x.listeners.length; x.childNodes.forEach(f); }; f(document.body); return n").c_str()); }
  emscripten::val body() { return emscripten::val::global("document")["body"]; }

  string a_word(Rng& r) { return r.from("abcdefgh", r.below(6)); }
  string a_text(Rng& r)
  {
    static char const* const odd[] = {"", " ", "<b>", "&amp;", "\"q\"", "\xc3\xa9t\xc3\xa9", "\xe6\xbc\xa2\xe5\xad\x97", "\xf0\x9f\x98\x80", "a  b", "line\nline", "undefined", "null", "0"};
    switch (r.below(4)) { case 0: return odd[r.below(std::size(odd))]; case 1: return r.from("ab<>&\"' \xc3", 0) + string(static_cast<std::size_t>(r.range(1, 300)), 'x'); default: return a_word(r); }
  }

  // ------------------------------------------------------------ texts, attributes, classes
  constexpr auto texts_spec()
  {
    return div(
      attr_class(concat("base "_s, get("cls"_s)))
    , attribute("id"_s, "outer"_s)
    , attribute("data-t"_s, concat("["_s, get("title"_s), "]"_s, get("title"_s)))
    , attribute("data-u"_s, get("title"_s))
    , text_node("static <text>"_s)
    , text_node(get("title"_s))
    , span(set_property("value"_s, concat(get("title"_s), "!"_s)), set_property("title"_s, "fixed"_s), text_node(concat("n="_s, get("count"_s), ";"_s, get("title"_s))))
    , a(attr_href("#x"_s), add_attribute_if("disabled"_s, get("flag"_s), hana::id), add_attribute_if("hidden"_s, get("flag"_s), hana::not_), text_node(hana::size_c<12>))
    , p(attr_class("para"_s), add_class_if("on"_s, get("flag"_s), hana::id), add_class_if("off"_s, get("flag"_s), hana::not_)
      , add_class_when<int>("is-int"_s, get("kind"_s)), add_class_when<std::string>("is-text"_s, get("kind"_s)))
    , ul(li(), li(text_node(get("count"_s))), li(h3(text_node(get("cls"_s)))))
    , h4(text_node(get("big"_s)), h5(text_node(get("many"_s))), h6(text_area()))
    , pre(unsafe_set_inner_html("<i>raw</i>"_s))
    , div(attribute("data-m"_s, concat("m"_s, match(get("kind"_s), when<std::string>([](auto p) { return concat("s:"_s, p); }), when<int>("i"_s), when<>("?"_s))
        , match_if(get("title"_s), cond(equal("abc"_s), "ABC"_s), cond(equal(""_s), "empty"_s), otherwise([](auto p) { return concat("("_s, p, ")"_s); }))))
      , match(get("name"_s), when<std::string>([](auto p) { return text_node(p); }), when<>(span(text_node("nobody"_s))))));
  }
  using variant_t = nbdl::variant<int, string>;
  auto texts_store(string title, string cls, int count, bool flag, variant_t kind, nbdl::optional<string> name, long long big = 0, unsigned many = 0)
  {
    return hana::make_map(hana::make_pair("title"_s, std::move(title)), hana::make_pair("cls"_s, std::move(cls)), hana::make_pair("count"_s, count)
      , hana::make_pair("flag"_s, flag), hana::make_pair("kind"_s, std::move(kind)), hana::make_pair("name"_s, std::move(name))
      , hana::make_pair("big"_s, big), hana::make_pair("many"_s, many));
  }
  struct texts_model
  {
    string title, cls; int count = 0; bool flag = false; int kind = 0; string kind_text; bool named = false; string name; int kind_number = 0; long long big = 0; unsigned many = 0;
    int marks() const { return 18; } // the elements and texts that stay
    string html() const
    {
      string m = "m" + string(kind == 2 ? "s:" + kind_text : kind == 1 ? "i" : "?") + (title == "abc" ? "ABC" : title.empty() ? "empty" : "(" + title + ")");
      return "<div" + classes({"base", cls}) + " data-t=\"" + esc("[" + title + "]" + title) + "\" data-u=\"" + esc(title) + "\" id=\"outer\">static &lt;text&gt;" + esc(title)
        + "<span .value=\"" + esc(title + "!") + "\" .title=\"fixed\">n=" + std::to_string(count) + ";" + esc(title) + "</span>"
        + "<a" + string(flag ? " disabled=\"\"" : " hidden=\"\"") + " href=\"#x\">12</a>"
        + "<p" + classes({"para", flag ? "on" : "off", kind == 1 ? "is-int" : kind == 2 ? "is-text" : ""}) + "></p>"
        + "<ul><li></li><li>" + std::to_string(count) + "</li><li><h3>" + esc(cls) + "</h3></li></ul><h4>" + std::to_string(big) + "<h5>" + std::to_string(many) + "</h5><h6><textarea></textarea></h6></h4><pre><i>raw</i></pre>"
        + "<div data-m=\"" + esc(m) + "\">" + (named ? esc(name) : string("<span>nobody</span>")) + "</div></div>";
    }
  };

  template <typename Spec, typename Store> auto render(Spec, Store& s)
  {
    using Tag = nbdl::webui::renderer<Spec>;
    using R = typename nbdl::actor_type<Tag, std::reference_wrapper<Store>>::type;
    return std::unique_ptr<R>(new R(nbdl::detail::make_actor_initializer(std::ref(s), body())));
  }

  // one value of the store after another is changed; then the renderer is told
  template <typename Store> void change(Rng& r, texts_model& m, Store& s, string& trace)
  {
    auto& st = s.store;
    switch (r.below(7))
    {
      case 6: m.big = r.coin() ? static_cast<long long>(r.next()) : static_cast<long long>(r.below(20)) - 10; m.many = static_cast<unsigned>(r.next()); st["big"_s] = m.big; st["many"_s] = m.many; trace += " big"; break;
      case 0: m.title = r.chance(1, 3) ? string("abc") : r.chance(1, 3) ? string() : a_text(r); st["title"_s] = m.title; trace += " title"; break;
      case 1: m.cls = r.coin() ? a_word(r) : a_word(r) + " " + a_word(r); st["cls"_s] = m.cls; trace += " cls"; break;
      case 2: m.count = r.chance(1, 4) ? static_cast<int>(r.next()) : static_cast<int>(r.below(4)); st["count"_s] = m.count; trace += " count"; break;
      case 3: m.flag = !m.flag; st["flag"_s] = m.flag; trace += " flag"; break;
      case 4: m.kind = static_cast<int>(r.below(3)); m.kind_text = a_text(r);
        if (m.kind == 0) st["kind"_s] = variant_t{}; else if (m.kind == 1) st["kind"_s] = variant_t{m.count}; else st["kind"_s] = variant_t{m.kind_text};
        m.kind_number = m.count; trace += " kind" + std::to_string(m.kind); break;
      default: m.named = r.coin(); m.name = a_text(r);
        if (m.named) st["name"_s] = m.name; else st["name"_s] = nbdl::optional<string>{};
        trace += m.named ? " name" : " noname"; break;
    }
    web::count("changes");
  }
  template <typename Model, typename Spec> void follow(Rng& r, Spec spec, char const* what)
  {
    web::reset();
    int const before = web::entries();
    long alive = 0;
    for (int round = 0; round < 2; ++round)
    {
      if (round == 1) alive = low_memory::alive;
      {
        string trace = what;
        Model m;
        auto s = std::make_unique<ui_store<decltype(texts_store("", "", 0, false, variant_t{}, {}))>>(texts_store("", "", 0, false, variant_t{}, {}));
        for (int i = static_cast<int>(r.below(8)); i-- > 0;) change(r, m, *s, trace);
        trace += " render";
        auto rd = render(spec, *s);
        string is = shown();
        if (!web::check(is == m.html(), "rendered", trace + ":\n" + is + "\ninstead of\n" + m.html())) return;
        int const same = m.marks();
        if (same) web::text("var f = n => { n.seen = 1; n.childNodes.forEach(f); }; f(document.body); return ''");
        for (int steps = static_cast<int>(r.range(1, 12)); steps-- > 0;)
        {
          for (int i = static_cast<int>(r.below(4)); i-- > 0;) change(r, m, *s, trace);
          trace += " update";
          nbdl::notify_state_change(*rd, hana::type_c<void>);
          is = shown();
          web::count("updates");
          if (!web::check(is == m.html(), "updated", trace + ":\n" + is + "\ninstead of\n" + m.html())) return;
          if (same) web::check(web::text("var c = 0; var f = n => { if (n.seen) ++c; n.childNodes.forEach(f); }; f(document.body); return c >= $0 ? 'y' : 'n' + c", same) == "y", "elements-kept", trace);
        }
        if (r.chance(1, 4))
        { // once it is told to end it changes nothing
          rd->destroy();
          change(r, m, *s, trace);
          rd->update();
          web::check(shown() == is, "destroyed", trace);
          web::count("destroyed");
        }
        web::distinct(is);
        if (r.chance(1, 50)) web::sample(trace + " " + is);
        rd = nullptr;
        web::check(listeners() == 0, "listeners-kept", trace);
        web::check(web::entries() == before, "kept", trace + ": " + std::to_string(web::entries() - before) + " JavaScript values");
        EM_ASM({ window.reset(); });
      }
      long const now = low_memory::alive;
      if (round == 1) web::check(now == alive, "memory-kept", what + string(": ") + std::to_string(now - alive) + " allocations");
    }
    web::check_memory();
  }
  void texts(Rng& r) { follow<texts_model>(r, texts_spec(), "texts"); }

  // ------------------------------------------------------------ branches
  constexpr auto even = [](int x) { return x % 2 == 0; };
  constexpr auto two = [](int x) { return x == 2; };
  // alternatives of one element
  constexpr auto plain_spec()
  {
    return div(
      match(get("name"_s), when<string>([](auto p) { return span(attr_class(concat("n "_s, p)), text_node(p)); }), when<>(h1(text_node(get("title"_s)))))
    , text_node("|"_s)
    , match(get("kind"_s), when<string>([](auto p) { return text_node(p); }), when<int>([](auto p) { return nbdl::webui::html::p(text_node(p)); }), when<>(div(text_node("nothing"_s))))
    , text_node("|"_s)
    , match_if(get("title"_s), cond(equal("abc"_s), div(text_node(get("count"_s)))), cond(equal(""_s), text_node("empty"_s))
        , otherwise([](auto p) { return ul(li(text_node(p)), li(add_class_if("f"_s, get("flag"_s), hana::id))); }))
    , match_if(get("count"_s), cond(even, div(
          match(get("kind"_s), when<string>([](auto p) { return h2(text_node(p)); }), when<>(h3()))
        , match_if(get("flag"_s), cond(hana::id, text_node("yes"_s)), otherwise(text_node(get("cls"_s))))))
      , otherwise(pre(text_node("odd"_s)))));
  }
  string el(string const& name, string const& inside, string const& attributes = "") { return "<" + name + attributes + ">" + inside + "</" + name + ">"; }
  struct plain_model : texts_model
  {
    int marks() const { return 0; }
    string html() const
    {
      return el("div", (named ? el("span", esc(name), classes({"n", name})) : el("h1", esc(title))) + "|"
        + (kind == 2 ? esc(kind_text) : kind == 1 ? el("p", std::to_string(kind_number)) : el("div", "nothing")) + "|"
        + (title == "abc" ? el("div", std::to_string(count)) : title.empty() ? string("empty") : el("ul", el("li", esc(title)) + el("li", "", flag ? " class=\"f\"" : "")))
        + (count % 2 == 0 ? el("div", (kind == 2 ? el("h2", esc(kind_text)) : el("h3", "")) + (flag ? string("yes") : esc(cls))) : el("pre", "odd")));
    }
  };
  // alternatives that show nothing, or several things
  constexpr auto groups_spec()
  {
    return div(
      match(get("name"_s), when<string>([](auto p) { return span(text_node(p)); }), when<>())
    , text_node("|"_s)
    , match(get("kind"_s), when<string>([](auto p) { return text_node(concat("text "_s, p, "."_s)); }), when<int>([](auto p) { return text_node(concat("int "_s, p)); }), when<>())
    , text_node("|"_s)
    , match(get("name"_s), when<nbdl::nothing>(), when<string>(text_node(concat(get("title"_s), get("cls"_s)))))
    , text_node("|"_s)
    , match_if(get("title"_s), cond(equal("abc"_s), text_node(concat(get("count"_s), "-"_s, get("cls"_s)))), cond(equal(""_s), div(text_node("empty"_s)))
        , otherwise([](auto p) { return text_node(concat("<"_s, p, ">"_s)); }))
    , text_node("|"_s)
    , div(match_if(get("flag"_s), cond(hana::id, span()), otherwise(noop_t{}))));
  }
  struct groups_model : texts_model
  {
    int marks() const { return 0; }
    string html() const
    {
      return el("div", (named ? el("span", esc(name)) : "") + "|"
        + (kind == 2 ? esc("text " + kind_text + ".") : kind == 1 ? "int " + std::to_string(kind_number) : "") + "|"
        + (named ? esc(title + cls) : "") + "|"
        + (title == "abc" ? std::to_string(count) + "-" + esc(cls) : title.empty() ? el("div", "empty") : esc("<" + title + ">")) + "|"
        + el("div", flag ? el("span", "") : ""));
    }
  };
  // alternatives of alternatives
  constexpr auto nested_spec()
  {
    return div(
      match_if(get("title"_s)
      , cond(equal("abc"_s), match(get("kind"_s)
          , when<string>([](auto p) { return h1(text_node(p)); })
          , when<>(match(get("name"_s), when<string>([](auto p) { return h2(text_node(p)); }), when<>(h3(text_node(get("cls"_s))))))))
      , cond(equal(""_s), match_if(get("flag"_s), cond(hana::id, ul(li())), otherwise(text_node("no"_s))))
      , otherwise([](auto p) { return span(text_node(p)); }))
    , text_node("|"_s)
    , match_if(get("flag"_s), cond(hana::id, match_if(get("count"_s), cond(even, match_if(get("count"_s), cond(two, text_node("two"_s)), otherwise(text_node("even"_s)))), otherwise(div())))
      , otherwise(match_if(get("count"_s), cond(even, text_node("EVEN"_s)), otherwise(pre())))));
  }
  struct nested_model : texts_model
  {
    int marks() const { return 0; }
    string html() const
    {
      return el("div", (title == "abc" ? (kind == 2 ? el("h1", esc(kind_text)) : named ? el("h2", esc(name)) : el("h3", esc(cls))) : title.empty() ? (flag ? el("ul", el("li", "")) : "no") : el("span", esc(title)))
        + "|" + (flag ? (count % 2 == 0 ? (count == 2 ? "two" : "even") : el("div", "")) : count % 2 == 0 ? "EVEN" : el("pre", "")));
    }
  };
  void branches(Rng& r) { follow<plain_model>(r, plain_spec(), "branches"); }
  void groups(Rng& r) { follow<groups_model>(r, groups_spec(), "groups"); }
  void nested(Rng& r) { follow<nested_model>(r, nested_spec(), "nested"); }

  // ------------------------------------------------------------ rows and events
  // what the handlers saw and what they do
  struct acts { std::vector<string> log; int how = 0; };
  inline acts& act() { static thread_local acts a; return a; }

  inline auto make_row(string text, int n, bool done)
  { return hana::make_map(hana::make_pair("text"_s, std::move(text)), hana::make_pair("n"_s, n), hana::make_pair("done"_s, done)); }
  using row_t = decltype(make_row("", 0, false));
  using rows_t = std::vector<row_t>;
  inline auto rows_store(string title, int count, rows_t rows)
  { return hana::make_map(hana::make_pair("title"_s, std::move(title)), hana::make_pair("count"_s, count), hana::make_pair("rows"_s, std::move(rows))); }

  void note_(string x) { web::note n; act().log.push_back(std::move(x)); }
  constexpr auto on_row = [](auto send, int n, string text, int count)
  {
    note_("row " + std::to_string(n) + " " + text + " " + std::to_string(count));
    if (act().how & 1) send(message::make_upstream_update(hana::make_tuple("title"_s), message::no_uid, text));
    if (act().how & 2) send(message::make_upstream_update(hana::make_tuple("count"_s), message::no_uid, count + 1));
  };
  // the row which is used goes away
  constexpr auto on_remove = [](auto send, rows_t const& rows, string const& text, int n)
  {
    note_("remove " + text + " " + std::to_string(n));
    rows_t left;
    for (auto& x : rows) if (x["n"_s] != n) left.push_back(x);
    send(message::make_upstream_update(hana::make_tuple("rows"_s), message::no_uid, std::move(left)));
    if (act().how & 2) send(message::make_upstream_update(hana::make_tuple("count"_s), message::no_uid, 1000));
  };
  constexpr auto on_count = [](auto send, int count)
  {
    note_("count " + std::to_string(count));
    send(message::make_upstream_update(hana::make_tuple("count"_s), message::no_uid, count + 1));
  };
  constexpr auto on_data = [](auto, string title, auto const& event)
  {
    nbdl::detail::js_val const& e = event;
    note_("key " + title + " " + web::text("return Module.NBDL_DETAIL_JS_GET($0).key", e.handle()));
  };
  constexpr auto on_file = [](auto send, string title, auto const& event)
  {
    nbdl::detail::js_val const& e = event;
    note_("file " + title + " " + web::text("return Module.NBDL_DETAIL_JS_GET($0).target.value", e.handle()));
    send(message::make_upstream_update(hana::make_tuple("title"_s), message::no_uid, string("chosen")));
  };
  constexpr auto fixed_branch = [](auto p) { return text_node(p); };
  constexpr auto a_row = [](auto x)
  {
    return li(attr_class(concat("row "_s, get(x, "text"_s))), add_class_if("done"_s, get(x, "done"_s), hana::id)
    , on_click(on_row, get(x, "n"_s), get(x, "text"_s), get("count"_s))
    , text_node(get(x, "n"_s))
    , match_if(get(x, "text"_s), cond(equal(""_s), span()), cond(equal("abc"_s), noop_t{}), otherwise(fixed_branch))
    , text_node(get("title"_s))
    , a(on_click(on_remove, get("rows"_s), get(x, "text"_s), get(x, "n"_s))), p());
  };
  constexpr auto rows_spec()
  {
    return div(
      h1(on_click(on_count, get("count"_s)), on_key_down(on_data, get("title"_s), get(event_data)), text_node(get("count"_s)))
    , ul(for_each(get("rows"_s), a_row))
    , h2(text_node(get("title"_s)))
    , h3(match_if(get("title"_s), cond(equal(""_s), span(on_click(on_count, get("count"_s)))), otherwise(pre())))
    , div(hidden_file_input(on_file, get("title"_s), get(event_data)))
    , form(event_attribute("submit"_s, on_count, get("count"_s)), text_area(on_key_up(on_data, get("title"_s), get(event_data)))));
  }
  struct row_model { string text; int n = 0; bool done = false; };
  struct rows_model
  {
    string title; int count = 0; std::vector<row_model> rows;
    string html() const
    {
      string s;
      for (auto& x : rows)
      {
        s += el("li", std::to_string(x.n) + (x.text.empty() ? el("span", "") : x.text == "abc" ? string() : esc(x.text)) + esc(title) + "<a></a>" + el("p", ""), classes({"row", x.text, x.done ? "done" : ""}));
      }
      return el("div", el("h1", std::to_string(count)) + el("ul", s) + el("h2", esc(title)) + el("h3", el(title.empty() ? "span" : "pre", "")) + el("div", el("input", "", " type=\"file\"")) + el("form", el("textarea", "")));
    }
    rows_t value() const { rows_t v; for (auto& x : rows) v.push_back(make_row(x.text, x.n, x.done)); return v; }
  };
  void rows(Rng& r)
  {
    web::reset();
    int const before = web::entries();
    long alive = 0;
    bool const live = r.coin(); // the renderer is told about every message at once
    int const largest = r.chance(1, 20) ? 60 : 6;
    for (int round = 0; round < 2; ++round)
    {
      if (round == 1) alive = low_memory::alive;
      {
        string trace = live ? "live:" : "rows:";
        rows_model m;
        int next = 0;
        auto const new_row = [&]
        {
          row_model x;
          x.text = r.chance(1, 4) ? string("abc") : r.chance(1, 3) ? string() : a_text(r); x.n = ++next; x.done = r.coin();
          return x;
        };
        for (int i = static_cast<int>(r.below(static_cast<std::uint64_t>(largest))); i-- > 0;) m.rows.push_back(new_row());
        m.title = a_text(r);
        using S = ui_store<decltype(rows_store("", 0, {}))>;
        auto s = std::make_unique<S>(rows_store(m.title, m.count, m.value()));
        auto rd = render(rows_spec(), *s);
        auto const update = [&] { nbdl::notify_state_change(*rd, hana::type_c<void>); web::count("updates"); };
        if (live) s->changed = update;
        bool ok = true;
        auto const same = [&](char const* key)
        {
          string const is = shown();
          return ok = ok && web::check(is == m.html(), key, trace + ":\n" + is + "\ninstead of\n" + m.html());
        };
        if (!same("rendered")) return;
        for (int steps = static_cast<int>(r.range(1, 14)); steps-- > 0 && ok;)
        {
          act().log.clear();
          act().how = static_cast<int>(r.below(4));
          std::vector<string> want;
          auto const at = m.rows.empty() ? 0 : r.below(m.rows.size());
          int applied = s->applied;
          switch (r.below(10))
          {
            case 0: // other rows
              switch (r.below(4))
              {
                case 0: m.rows.insert(m.rows.begin() + static_cast<std::ptrdiff_t>(m.rows.empty() ? 0 : at), new_row()); break;
                case 1: if (!m.rows.empty()) m.rows.erase(m.rows.begin() + static_cast<std::ptrdiff_t>(at)); break;
                case 2: m.rows.clear(); for (int i = static_cast<int>(r.below(static_cast<std::uint64_t>(largest))); i-- > 0;) m.rows.push_back(new_row()); break;
                default: m.rows.push_back(new_row());
              }
              s->store["rows"_s] = m.value(); update(); trace += " rows"; web::count("rows changed"); break;
            case 1: // values of a row
              if (m.rows.empty()) break;
              switch (r.below(2))
              {
                case 0: m.rows[at].text = r.coin() ? a_text(r) : string("abc"); s->store["rows"_s][at]["text"_s] = m.rows[at].text; break;
                default: m.rows[at].done = !m.rows[at].done; s->store["rows"_s][at]["done"_s] = m.rows[at].done; break;
              }
              update(); trace += " row"; web::count("rows changed"); break;
            case 2: m.title = r.chance(1, 3) ? string() : a_text(r); s->store["title"_s] = m.title; update(); trace += " title"; break;
            case 3: // a click on a row
              if (m.rows.empty()) break;
              trace += " click" + std::to_string(at) + "/" + std::to_string(act().how);
              want = {"row " + std::to_string(m.rows[at].n) + " " + m.rows[at].text + " " + std::to_string(m.count)};
              if (act().how & 1) { m.title = m.rows[at].text; ++applied; }
              if (act().how & 2) { ++m.count; ++applied; }
              web::text("document.body.firstChild.childNodes[1].childNodes[$0].click(); return ''", static_cast<int>(at));
              if (!live) update();
              web::count("events"); break;
            case 4: // a row removes itself; the click gets to the row too unless that is gone
            {
              if (m.rows.empty() || !r.coin()) break;
              trace += " remove" + std::to_string(at);
              row_model const x = m.rows[at];
              want = {"remove " + x.text + " " + std::to_string(x.n)};
              m.rows.erase(m.rows.begin() + static_cast<std::ptrdiff_t>(at));
              ++applied;
              if (act().how & 2) { m.count = 1000; ++applied; }
              web::text("var l = document.body.firstChild.childNodes[1].childNodes[$0]; var a = l.childNodes.find(x => x.name_ === 'a'); a.dispatchEvent({type: 'click', alone: true}); return ''", static_cast<int>(at));
              if (!live) update();
              web::count("events"); web::count("rows removed by themselves"); break;
            }
            case 5: // the counter
              trace += " count";
              want = {"count " + std::to_string(m.count)}; ++m.count; ++applied;
              web::text("document.body.firstChild.childNodes[0].click(); return ''");
              if (!live) update();
              web::count("events"); break;
            case 6: // the value of the event
            {
              string const key = a_word(r);
              trace += " key";
              want = {"key " + m.title + " " + key};
              web::text("document.body.firstChild.childNodes[0].dispatchEvent({type: 'keydown', key: '" + key + "'}); return ''");
              web::count("events"); break;
            }
            case 8: // the form; the browser is not to send it
              if (r.coin())
              {
                string const key = a_word(r);
                trace += " up";
                want = {"key " + m.title + " " + key};
                web::text("document.body.firstChild.childNodes[5].firstChild.dispatchEvent({type: 'keyup', key: '" + key + "'}); return ''");
                web::count("events"); break;
              }
              trace += " submit";
              want = {"count " + std::to_string(m.count)}; ++m.count; ++applied;
              web::check(web::text("var e = {type: 'submit', n: 0, preventDefault() { ++this.n; this.defaultPrevented = true; }}; document.body.firstChild.childNodes[5].dispatchEvent(e); return e.n") != "0", "submit-prevented", trace);
              if (!live) update();
              web::count("events"); web::count("submits"); break;
            case 7: // a listener within an alternative
              if (!m.title.empty()) break;
              trace += " inner";
              want = {"count " + std::to_string(m.count)}; ++m.count; ++applied;
              web::text("document.body.firstChild.childNodes[3].childNodes.find(x => x.nodeType === 1).click(); return ''");
              if (!live) update();
              web::count("events"); break;
            default: // a file is chosen
            {
              string const key = a_word(r);
              trace += " file";
              string const n = web::text("var d = document.body.firstChild.childNodes[4], i = d.childNodes[0], n = 0, f = e => { ++n; }; i.addEventListener('click', f); d.click(); i.removeEventListener('click', f); return n");
              web::check(n == "1", "file-click", trace + ": " + n);
              web::check(act().log.empty(), "file-early", trace);
              want = {"file " + m.title + " " + key}; m.title = "chosen"; ++applied;
              web::text("var i = document.body.firstChild.childNodes[4].childNodes[0]; i.value = '" + key + "'; i.dispatchEvent({type: 'change'}); delete i.value; return ''");
              if (!live) update();
              web::count("events"); break;
            }
          }
          string got, expected;
          for (auto& x : act().log) got += x + ";";
          for (auto& x : want) expected += x + ";";
          ok = web::check(got == expected, "handled", trace + ": " + got + " instead of " + expected) && ok;
          ok = web::check(s->applied == applied, "messages", trace + ": " + std::to_string(s->applied) + " instead of " + std::to_string(applied)) && ok;
          same("updated");
        }
        if (!ok) return;
        web::distinct(trace);
        if (r.chance(1, 50)) web::sample(trace);
        s->changed = nullptr;
        rd = nullptr;
        web::check(listeners() == 0, "listeners-kept", trace);
        web::check(web::entries() == before, "kept", trace + ": " + std::to_string(web::entries() - before) + " JavaScript values");
        EM_ASM({ window.reset(); });
        { web::note n; act().log = {}; }
      }
      long const now = low_memory::alive;
      if (round == 1) web::check(now == alive, "memory-kept", std::to_string(now - alive) + " allocations");
    }
    web::check_memory();
  }
}
VMON_MODE("texts", c35::texts, "updates", "changes", "destroyed")
VMON_MODE("branches", c35::branches, "updates", "changes", "destroyed")
VMON_MODE("groups", c35::groups, "updates", "changes", "destroyed")
VMON_MODE("nested", c35::nested, "updates", "changes", "destroyed")
VMON_MODE("rows", c35::rows, "updates", "events", "rows changed", "rows removed by themselves", "submits")
WEB_MAIN
