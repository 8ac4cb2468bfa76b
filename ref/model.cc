#include "model.hh"

#include <cstdio>

namespace model {
namespace {
std::string hx(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
std::string q(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
std::string ps(const PStr& p) { return (p.prot ? "P" : "-") + q(p.v); }

struct D {
  std::string o;
  DumpOpt opt;
  std::string ind;
  void line(const std::string& k, const std::string& v) { o += ind + k + " " + v + "\n"; }
  void num(const std::string& k, long long v) { line(k, std::to_string(v)); }
  void times(const int64_t* t) {
    std::string s;
    for (int i = 0; i < (opt.kdb ? 4 : 5); ++i) s += (i ? " " : "") + std::to_string(t[i]);
    line("times", s);
  }
  void bin(const std::string& k, const Binary& b, bool with_compress) {
    line(k, std::string(b.prot ? "P" : "-") + (with_compress && b.compress ? "Z" : "-") + " " + q(b.data));
  }
  void entry(const Entry& e) {
    line("entry", hx(e.uuid));
    std::string save = ind;
    ind += "  ";
    num("icon", e.icon);
    line("title", ps(e.title)); line("url", ps(e.url)); line("user", ps(e.username));
    line("pass", ps(e.password)); line("notes", ps(e.notes));
    times(e.times);
    if (!opt.kdb) {
      num("custom_icon", e.custom_icon);
      line("override", q(e.override_url)); line("tags", q(e.tags)); line("bg", q(e.bg)); line("fg", q(e.fg));
      num("expires", e.expires); num("usage", e.usage);
      num("at", e.at_enabled); num("at_obf", e.at_obf); line("at_seq", q(e.at_seq));
      for (auto& a : e.assoc) line("assoc", q(a.window) + " " + q(a.sequence));
      for (auto& c : e.custom) line("field", q(c.first) + " " + ps(c.second));
    }
    for (auto& a : e.attachments) {
      if (opt.kdb) { line("attach", q(a.name)); bin("  data", a.inl, false); continue; }
      line("attach", q(a.name) + (a.pool >= 0 ? " pool#" + std::to_string(a.pool) : a.has ? " inline" : " none"));
      if (a.pool < 0 && a.has) bin("  data", a.inl, opt.inline_compress);
    }
    if (!opt.kdb)
      for (auto& h : e.history) { o += ind + "history\n"; std::string s2 = ind; ind += "  "; entry(h); ind = s2; }
    ind = save;
  }
  void group(const Group& g, bool root) {
    line("group", opt.kdb ? "" : hx(g.uuid));
    std::string save = ind;
    ind += "  ";
    if (!(opt.kdb && root)) {
      line("name", q(g.name));
      num("icon", g.icon);
      times(g.times);
      if (opt.kdb) num("flags", g.flags);
    }
    if (!opt.kdb) {
      num("custom_icon", g.custom_icon);
      line("notes", q(g.notes));
      num("expires", g.expires); num("expanded", g.expanded); num("usage", g.usage);
      line("at_seq", q(g.at_seq)); num("autotype", g.autotype); num("search", g.search);
      num("last_visible", g.last_visible);
    }
    for (auto& e : g.entries) entry(e);
    for (auto& s : g.groups) group(s, false);
    ind = save;
  }
};
std::string gref(const GRef& r) {
  return r.kind == GRef::kNone ? "none" : r.kind == GRef::kTree ? "tree#" + std::to_string(r.index) : "detached " + hx(r.uuid);
}
}  // namespace

std::string dump_entry(const Entry& e, const DumpOpt& opt) { D d; d.opt = opt; d.entry(e); return d.o; }
std::string dump_group(const Group& g, const DumpOpt& opt) { D d; d.opt = opt; d.group(g, false); return d.o; }

std::string dump(const Db& db, const DumpOpt& opt) {
  D d;
  d.opt = opt;
  d.num("cipher", db.cipher);
  d.line("master_seed", hx(db.master_seed));
  d.line("iv", hx(db.iv));
  d.line("tseed", hx(db.tseed));
  d.num("rounds", db.rounds);
  if (!opt.kdb) {
    d.line("iks", hx(db.iks));
    d.num("compress", db.compress);
    const Meta& m = db.meta;
    d.line("generator", q(m.generator));
    auto ts = [&](const char* k, const TStr& t) { d.line(k, q(t.v) + " @" + std::to_string(t.t)); };
    ts("db_name", m.name); ts("db_desc", m.desc); ts("db_user", m.user);
    d.num("hist_days", m.hist_days);
    d.line("color", q(m.color));
    d.num("key_changed", m.key_changed); d.num("key_rec", m.key_rec); d.num("key_force", m.key_force);
    std::string mp;
    for (bool b : m.mp) mp += b ? '1' : '0';
    d.line("mem_prot", mp);
    d.line("recycle_bin", gref(m.recycle_bin)); d.num("recycle_changed", m.recycle_changed);
    d.line("templates", gref(m.templates)); d.num("templates_changed", m.templates_changed);
    d.line("last_selected", gref(m.last_selected)); d.line("last_visible", gref(m.last_visible));
    d.num("hist_items", m.hist_items); d.num("hist_size", m.hist_size);
    for (auto& i : m.icons) d.line("icon", hx(i.uuid) + " " + hx(i.data));
    for (auto& b : m.binaries) d.bin("binary", b, true);
    for (auto& c : m.custom) d.line("custom", q(c.first) + " " + q(c.second));
  }
  d.group(db.root, true);
  return d.o;
}

static void pre(const Group& g, std::vector<const Group*>& o) { o.push_back(&g); for (auto& s : g.groups) pre(s, o); }
std::vector<const Group*> preorder(const Group& g) { std::vector<const Group*> o; pre(g, o); return o; }
static void pre(Group& g, std::vector<Group*>& o) { o.push_back(&g); for (auto& s : g.groups) pre(s, o); }
std::vector<Group*> preorder(Group& g) { std::vector<Group*> o; pre(g, o); return o; }
size_t count_groups(const Group& g) { size_t n = 1; for (auto& s : g.groups) n += count_groups(s); return n; }
size_t count_entries(const Group& g) { size_t n = g.entries.size(); for (auto& s : g.groups) n += count_entries(s); return n; }
static void hist(const Entry& e, std::vector<const Entry*>& o) { for (auto& h : e.history) { o.push_back(&h); hist(h, o); } }
void all_entries(const Group& g, std::vector<const Entry*>& o, bool h) {
  for (auto& e : g.entries) { o.push_back(&e); if (h) hist(e, o); }
  for (auto& s : g.groups) all_entries(s, o, h);
}
void map_plain(Db& db, const std::function<void(std::string&)>& f) {
  auto p = [&](PStr& s) { if (!s.prot) f(s.v); };
  std::function<void(Entry&)> ent = [&](Entry& e) {
    for (PStr* s : {&e.title, &e.url, &e.username, &e.password, &e.notes}) p(*s);
    for (std::string* s : {&e.override_url, &e.tags, &e.bg, &e.fg, &e.at_seq}) f(*s);
    for (auto& a : e.assoc) { f(a.window); f(a.sequence); }
    for (auto& a : e.attachments) f(a.name);
    for (auto& c : e.custom) { f(c.first); p(c.second); }
    for (auto& h : e.history) ent(h);
  };
  for (Group* g : preorder(db.root)) {
    for (std::string* s : {&g->name, &g->notes, &g->at_seq}) f(*s);
    for (auto& e : g->entries) ent(e);
  }
  Meta& m = db.meta;
  for (std::string* s : {&m.generator, &m.name.v, &m.desc.v, &m.user.v, &m.color}) f(*s);
  for (auto& c : m.custom) { f(c.first); f(c.second); }
}

std::string shape(const Db& db) {
  std::string s = "groups=" + std::to_string(count_groups(db.root)) + " entries=" + std::to_string(count_entries(db.root)) +
                  " levels=";
  struct L { static void go(const Group& g, int l, std::string& s) { s += std::to_string(l) + (g.entries.empty() ? "" : "e" + std::to_string(g.entries.size())) + ","; for (auto& x : g.groups) go(x, l + 1, s); } };
  std::string lv;
  L::go(db.root, 0, lv);
  if (lv.size() > 120) lv = lv.substr(0, 120) + "..";
  s += lv;
  s += " icons=" + std::to_string(db.meta.icons.size()) + " binaries=" + std::to_string(db.meta.binaries.size()) +
       " cipher=" + std::to_string(db.cipher) + " compress=" + std::to_string(db.compress) + " rounds=" + std::to_string(db.rounds);
  return s;
}
}  // namespace model
