// C19: JSON output is well-formed and faithful.
#include <locale>
#include <map>
#include <cstring>

#include "common.hh"
using namespace harness;

namespace {
// --- a strict JSON (RFC 8259) parser -----------------------------------------
struct J {
  enum T { kObj, kArr, kStr, kNum, kWord } t = kWord;
  std::string s;  // decoded string, or the spelling
  std::vector<std::pair<std::string, J>> m;
  std::vector<J> a;
};
struct Bad { std::string what; size_t at; };
struct Parser {
  const std::string& s;
  size_t p = 0;
  void bad(const std::string& w) { throw Bad{w, p}; }
  void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) ++p; }
  char peek() { if (p >= s.size()) bad("ends early"); return s[p]; }
  void expect(char c) { if (peek() != c) bad(std::string("expected '") + c + "'"); ++p; }
  static void utf8(std::string& o, uint32_t u) {
    if (u < 0x80) o += char(u);
    else if (u < 0x800) { o += char(0xc0 | u >> 6); o += char(0x80 | (u & 63)); }
    else if (u < 0x10000) { o += char(0xe0 | u >> 12); o += char(0x80 | (u >> 6 & 63)); o += char(0x80 | (u & 63)); }
    else { o += char(0xf0 | u >> 18); o += char(0x80 | (u >> 12 & 63)); o += char(0x80 | (u >> 6 & 63)); o += char(0x80 | (u & 63)); }
  }
  uint32_t hex4() {
    uint32_t v = 0;
    for (int i = 0; i < 4; ++i) {
      char c = peek();
      ++p;
      v = v * 16;
      if (c >= '0' && c <= '9') v += c - '0';
      else if (c >= 'a' && c <= 'f') v += c - 'a' + 10;
      else if (c >= 'A' && c <= 'F') v += c - 'A' + 10;
      else bad("bad \\u escape");
    }
    return v;
  }
  std::string str() {
    expect('"');
    std::string o;
    for (;;) {
      unsigned char c = static_cast<unsigned char>(peek());
      ++p;
      if (c == '"') return o;
      if (c < 0x20) bad("control character in a string");
      if (c != '\\') { o += char(c); continue; }
      char e = peek();
      ++p;
      switch (e) {
        case '"': case '\\': case '/': o += e; break;
        case 'b': o += '\b'; break;
        case 'f': o += '\f'; break;
        case 'n': o += '\n'; break;
        case 'r': o += '\r'; break;
        case 't': o += '\t'; break;
        case 'u': {
          uint32_t u = hex4();
          if (u >= 0xd800 && u < 0xdc00 && p + 1 < s.size() && s[p] == '\\' && s[p + 1] == 'u') { p += 2; uint32_t l = hex4(); if (l < 0xdc00 || l > 0xdfff) bad("bad surrogate"); u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00); }
          utf8(o, u);
          break;
        }
        default: bad("bad escape");
      }
    }
  }
  J val(int depth = 0) {
    if (depth > 2000) bad("too deep");
    ws();
    J j;
    char c = peek();
    if (c == '{') {
      j.t = J::kObj;
      ++p;
      ws();
      if (peek() == '}') { ++p; return j; }
      for (;;) {
        ws();
        std::string k = str();
        ws();
        expect(':');
        j.m.push_back({k, val(depth + 1)});
        ws();
        if (peek() == ',') { ++p; continue; }
        expect('}');
        return j;
      }
    }
    if (c == '[') {
      j.t = J::kArr;
      ++p;
      ws();
      if (peek() == ']') { ++p; return j; }
      for (;;) {
        j.a.push_back(val(depth + 1));
        ws();
        if (peek() == ',') { ++p; continue; }
        expect(']');
        return j;
      }
    }
    if (c == '"') { j.t = J::kStr; j.s = str(); return j; }
    size_t b = p;
    if (c == '-' || (c >= '0' && c <= '9')) {
      j.t = J::kNum;
      if (c == '-') ++p;
      auto digits = [&] { if (p >= s.size() || !isdigit((unsigned char)s[p])) bad("bad number"); while (p < s.size() && isdigit((unsigned char)s[p])) ++p; };
      if (peek() == '0') ++p; else digits();
      if (p < s.size() && s[p] == '.') { ++p; digits(); }
      if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { ++p; if (p < s.size() && (s[p] == '+' || s[p] == '-')) ++p; digits(); }
      j.s = s.substr(b, p - b);
      return j;
    }
    for (const char* w : {"true", "false", "null"})
      if (s.compare(p, strlen(w), w) == 0) { p += strlen(w); j.s = w; return j; }
    bad("unexpected character");
    return j;
  }
};
J parse(const std::string& s, const std::string& what) {
  Parser p{s};
  try {
    J j = p.val();
    p.ws();
    if (p.p != s.size()) throw Bad{"text after the value", p.p};
    return j;
  } catch (const Bad& b) {
    size_t from = b.at > 30 ? b.at - 30 : 0;
    pbt::fail("malformed:" + b.what, what + ": the JSON is malformed at byte " + std::to_string(b.at) + " (" + b.what + "): ..." + pbt::quote(s.substr(from, 60)));
  }
}

// --- expectation -------------------------------------------------------------
typedef std::vector<std::pair<std::string, std::string>> Flat;  // path -> type:value
void flat(const J& j, const std::string& path, Flat& out) {
  switch (j.t) {
    case J::kObj: {
      std::multimap<std::string, const J*> sorted;
      for (auto& m : j.m) sorted.insert({m.first, &m.second});
      std::map<std::string, int> n;
      for (auto& m : sorted) {
        // Attachments are repeated members of the same name.
        std::string k = m.first == "attachment" ? "attachment#" + std::to_string(n[m.first]++) : m.first;
        if (m.first != "attachment" && n[m.first]++) pbt::fail("duplicate-member", "member '" + m.first + "' occurs twice in " + path);
        flat(*m.second, path + "." + k, out);
      }
      out.push_back({path, "object"});
      break;
    }
    case J::kArr:
      for (size_t i = 0; i < j.a.size(); ++i) flat(j.a[i], path + "[" + std::to_string(i) + "]", out);
      out.push_back({path, "array of " + std::to_string(j.a.size())});
      break;
    case J::kStr: out.push_back({path, "string " + j.s}); break;
    case J::kNum: out.push_back({path, "number " + j.s}); break;
    default: out.push_back({path, j.s}); break;
  }
}
J jstr(const std::string& s) { J j; j.t = J::kStr; j.s = s; return j; }
J jnum(uint64_t n) { J j; j.t = J::kNum; j.s = std::to_string(n); return j; }
J jtime(int64_t t) {
  time_t x = time_t(t);
  struct tm tm {};
  localtime_r(&x, &tm);
  char b[64];
  snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
  return jstr(b);
}
bool is_meta(const model::Entry& e) {
  bool bin = false;
  for (auto& a : e.attachments) bin |= a.name == "bin-stream";
  return bin && e.title.v == "Meta-Info" && e.url.v == "$" && e.username.v == "SYSTEM" && !e.notes.v.empty();
}
J want_attachment(const model::Attachment& a, const model::Meta& meta) {
  J j;
  j.t = J::kObj;
  if (!a.name.empty()) j.m.push_back({"name", jstr(a.name)});
  const model::Binary* b = a.pool >= 0 ? &meta.binaries.at(a.pool) : a.has ? &a.inl : nullptr;
  if (b && !b->data.empty()) j.m.push_back({"data", jstr(b->data)});
  return j;
}
J want_entry(const model::Entry& e, const model::Meta& meta) {
  J j;
  j.t = J::kObj;
  j.m.push_back({"icon", jnum(e.icon)});
  auto text = [&](const char* n, const std::string& s) { if (!s.empty()) j.m.push_back({n, jstr(s)}); };
  text("title", e.title.v); text("url", e.url.v); text("username", e.username.v); text("password", e.password.v); text("notes", e.notes.v);
  static const char* const tn[] = {"creation_time", "modification_time", "access_time", "expiry_time"};
  for (int i = 0; i < 4; ++i) if (e.times[i]) j.m.push_back({tn[i], jtime(e.times[i])});
  for (auto& a : e.attachments) j.m.push_back({"attachment", want_attachment(a, meta)});
  return j;
}
J want_group(const model::Group& g, const model::Meta& meta) {
  J j;
  j.t = J::kObj;
  j.m.push_back({"icon", jnum(g.icon)});
  if (g.custom_icon >= 0) j.m.push_back({"custom_icon", jstr("1")});
  if (!g.name.empty()) j.m.push_back({"name", jstr(g.name)});
  if (!g.notes.empty()) j.m.push_back({"notes", jstr(g.notes)});
  static const char* const tn[] = {"creation_time", "modification_time", "access_time", "expiry_time", "move_time"};
  for (int i = 0; i < 5; ++i) if (g.times[i]) j.m.push_back({tn[i], jtime(g.times[i])});
  if (g.flags) j.m.push_back({"flags", jnum(g.flags)});
  if (!g.groups.empty()) { J a; a.t = J::kArr; for (auto& s : g.groups) a.a.push_back(want_group(s, meta)); j.m.push_back({"groups", a}); }
  J a;
  a.t = J::kArr;
  for (auto& e : g.entries) if (!is_meta(e)) a.a.push_back(want_entry(e, meta));
  if (!a.a.empty()) j.m.push_back({"entries", a});
  return j;
}
void judge(const J& want, const std::string& json, const std::string& what) {
  Flat w, g;
  flat(want, "$", w);
  flat(parse(json, what), "$", g);
  for (size_t i = 0; i < std::max(w.size(), g.size()); ++i) {
    if (i < w.size() && i < g.size() && w[i] == g[i]) continue;
    auto show = [](const Flat& f, size_t i) { return i < f.size() ? f[i].first + " = " + pbt::quote(f[i].second) : std::string("nothing"); };
    std::string key = i < w.size() ? w[i].first : g[i].first;
    key = key.substr(key.rfind('.') == std::string::npos ? 0 : key.rfind('.') + 1);
    std::string gk = i < g.size() ? g[i].first : "";
    pbt::fail("member:" + key, what + ": expected " + show(w, i) + ", the JSON has " + show(g, i));
  }
}

struct Punct : std::numpunct<char> {
  char do_thousands_sep() const override { return ','; }
  std::string do_grouping() const override { return "\3"; }
};
struct LocaleGuard {
  std::locale old;
  bool on;
  explicit LocaleGuard(bool o) : on(o) { if (on) old = std::locale::global(std::locale(std::locale::classic(), new Punct)); }
  ~LocaleGuard() { if (on) std::locale::global(old); }
};

gen::Opt opts() { gen::Opt o; o.max_groups = 8; o.max_entries = 8; o.edge_ws = true; return o; }
// Texts that JSON must escape or keep, in every position a text has.
void spice(Case& c, model::Entry& e) {
  auto text = [&](std::string& s) {
    switch (c.t.pick({4, 1, 1, 1, 1})) {
      case 1: for (size_t i = c.t.below(6) + 1; i; --i) s.insert(s.begin() + c.t.below(s.size() + 1), char(c.t.below(0x20))); break;
      case 2: { static const std::vector<std::string> v = {"\"", "\\", "\\\"", "\\u0041", "\\n", "\"}", "\",\"x\":\"", "/", "</script>", "\x7f", "\xe2\x80\xa8", "\xf0\x9f\x98\x80", "\xc2\x80", "%s", "\\"}; s += c.t.of(v); if (c.t.chance(1, 2)) s = c.t.of(v) + s; break; }
      case 3: s.clear(); break;
      case 4: s = std::string(1, char(c.t.below(0x80))); break;
      default: break;
    }
  };
  text(e.title.v); text(e.url.v); text(e.username.v); text(e.password.v); text(e.notes.v);
  for (auto& a : e.attachments) { text(a.name); if (a.pool < 0 && a.has) text(a.inl.data); }
}
void metaize(Case& c, model::Entry& e) {
  e.title.v = "Meta-Info"; e.url.v = "$"; e.username.v = "SYSTEM";
  if (e.notes.v.empty()) e.notes.v = "n";
  model::Attachment a;
  a.name = "bin-stream";
  a.inl.data = "x";
  e.attachments.insert(e.attachments.begin() + c.t.below(e.attachments.size() + 1), a);
  switch (c.t.below(12)) {  // near misses
    case 0: e.title.v = "Meta-info"; break;
    case 1: e.url.v = "$$"; break;
    case 2: e.username.v = "SYSTEMS"; break;
    case 3: e.notes.v.clear(); break;
    case 4: for (auto& x : e.attachments) if (x.name == "bin-stream") x.name = "bin-streams"; break;
    case 5: e.attachments.clear(); break;
    case 6: e.title.v = ""; break;
    default: break;
  }
}
// Years with four digits, as local time.
void four_digits(model::Db& m) {
  auto clampt = [](int64_t& t) { if (t < -30000000000ll || t > 250000000000ll) t %= 1000000000ll; };
  std::function<void(model::Entry&)> clampe = [&](model::Entry& e) {
    for (auto& t : e.times) clampt(t);
    for (auto& h : e.history) clampe(h);
  };
  for (auto g : model::preorder(m.root)) {
    for (auto& t : g->times) clampt(t);
    for (auto& e : g->entries) clampe(e);
  }
}
model::Db make(Case& c) {
  pbt::set_tz(gen::tz(c.t));
  model::Db m = gen::db(c.t, opts());
  for (auto g : model::preorder(m.root)) {
    for (auto& e : g->entries) {
      if (c.t.chance(2, 3)) spice(c, e);
      if (c.t.chance(1, 5)) { metaize(c, e); c.label(is_meta(e) ? "meta entry" : "almost meta entry"); }
      if (c.t.chance(1, 8)) e.attachments.push_back(model::Attachment());
    }
    if (c.t.chance(1, 4)) { model::Entry e; e.title.v = g->name; spice(c, e); g->name = e.title.v; g->notes = e.notes.v; }
  }
  four_digits(m);
  return m;
}
void check_all(Case& c, const model::Db& m, keepass::Database& db, bool loc, const std::string& how) {
  std::vector<std::pair<J, std::string>> got;
  size_t n = 0;
  std::function<void(const model::Group&, keepass::Group&)> go = [&](const model::Group& g, keepass::Group& l) {
    std::string js;
    { LocaleGuard lg(loc); js = l.ToJson(); }
    judge(want_group(g, m.meta), js, how + " group");
    ++n;
    for (size_t i = 0; i < g.entries.size(); ++i) {
      auto& e = *l.Entries().at(i);
      PBT_REQUIRE(e.IsMetaEntry() == is_meta(g.entries[i]), "meta-entry", how << " entry " << (is_meta(g.entries[i]) ? "is a meta-entry that is not recognized" : "is taken for a meta-entry"));
      { LocaleGuard lg(loc); js = e.ToJson(); }
      judge(want_entry(g.entries[i], m.meta), js, how + " entry");
      ++n;
      for (size_t k = 0; k < g.entries[i].attachments.size(); ++k) {
        { LocaleGuard lg(loc); js = e.attachments().at(k)->ToJson(); }
        judge(want_attachment(g.entries[i].attachments[k], m.meta), js, how + " attachment");
        ++n;
      }
      for (size_t k = 0; k < g.entries[i].history.size(); ++k) {
        judge(want_entry(g.entries[i].history[k], m.meta), e.history().at(k)->ToJson(), how + " history entry");
        ++n;
      }
    }
    for (size_t i = 0; i < g.groups.size(); ++i) go(g.groups[i], *l.Groups().at(i));
  };
  go(m.root, *db.root());
  c.eval(n);
  c.describe(model::shape(m));
  if (n > 1) c.nontrivial(model::dump(m));
}
}  // namespace

static void built(Case& c) {
  begin(c);
  model::Db m = make(c);
  check_all(c, m, *bridge::to_db(m), false, "built");
}
static void locale(Case& c) {
  begin(c);
  model::Db m = make(c);
  for (auto g : model::preorder(m.root)) { if (c.t.chance(1, 2)) g->flags = 0x8000 | g->flags; if (c.t.chance(1, 2)) g->icon = 1234567; for (auto& e : g->entries) e.icon += 1000000; }
  check_all(c, m, *bridge::to_db(m), true, "built (global locale with digit grouping)");
}
static void imported(Case& c) {
  begin(c);
  bool kdb = c.t.chance(1, 2);
  pbt::set_tz("UTC0");
  gen::Opt o = opts();
  o.kdb = kdb;
  o.edge_ws = false;
  o.strict_xml = true;
  model::Db m = gen::db(c.t, o);
  m.rounds %= 2;
  four_digits(m);
  for (auto g : model::preorder(m.root)) for (auto& e : g->entries) {
    if (c.t.chance(1, 5)) {
      std::vector<model::Attachment> keep;
      if (kdb) e.attachments.clear();
      metaize(c, e);
      c.label(is_meta(e) ? "meta entry" : "almost meta entry");
    }
  }
  gen::Cred cr = simple_cred();
  auto key = make_key(c, cr);
  std::string p = c.dir + "/f";
  pbt::SplitMix rng = c.t.sub();
  bridge::write_file(p, kdb ? ref::write_kdb(m, comps(cr), ref::gen_kdb_style(c.t), rng) : ref::write_kdbx(m, comps(cr), ref::gen_kdbx_style(c.t), rng));
  Imported i = kdb ? import_kdb(p, key) : import_kdbx(p, key);
  PBT_REQUIRE(i.ok(), "import-failed", "import failed: " << i.str());
  if (kdb) {
    // What KDB stores (the root is made by the import).
    model::Db got = bridge::from_db(*i.db);
    same_kdb(m, *i.db, "imported", "import");
    m = got;
  }
  check_all(c, m, *i.db, false, kdb ? "KDB" : "KDBX");
}
// json escapes are decoded from every byte and every pair of them.
static void bytes(Case& c) {
  uint64_t b = c.t.below(256);
  begin(c);
  pbt::set_tz("UTC0");
  for (int second = 0; second < 256; ++second) {
    std::string s = std::string("a") + char(b) + char(second);
    keepass::Entry e;
    e.set_title(keepass::protect<std::string>(s, false));
    model::Entry m;
    m.title.v = s;
    judge(want_entry(m, model::Meta()), e.ToJson(), "entry titled " + pbt::quote(s));
    keepass::Group g;
    g.set_name(s.substr(1));
    model::Group mg;
    mg.name = s.substr(1);
    judge(want_group(mg, model::Meta()), g.ToJson(), "group named " + pbt::quote(s));
    c.eval(2);
    c.nontrivial(s);
  }
  c.describe("all pairs beginning with byte " + std::to_string(b));
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C19";
  k.rule = "distinct databases with more than one object, each of whose groups, entries, attachments and history entries was converted and compared; sub-check bytes: distinct byte pairs";
  k.assumptions = {"an entry with several attachments has one member 'attachment' for each (the parser accepts repeated members of that name only)",
                   "bytes that are not UTF-8 are passed through; whether readers accept them is not judged",
                   "times are those whose local year has four digits"};
  k.subs = {{"built", 1500, 60000, built}, {"locale", 200, 5000, locale}, {"imported", 600, 20000, imported}, {"bytes", 256, 256, bytes, true}};
  return pbt::run_check(k, argc, argv);
}
