#include "gen.hh"

#include <ctime>
#include <set>

#include "../ref/crypto.hh"

namespace gen {
using model::Db;
using model::Entry;
using model::Group;
using model::GRef;
using model::Meta;
using model::PStr;
using pbt::SplitMix;

const int64_t kNeverTime = ref::civil_to_unix({2999, 12, 28, 22, 59, 59});

size_t size(Tape& t, size_t big) {
  switch (t.pick({30, 40, 12, big ? 10u : 0u, big ? 2u : 0u})) {
    case 0: return t.below(4);
    case 1: return t.below(24);
    case 2: {
      static const std::vector<size_t> b = {31, 32, 33, 47, 48, 63, 64, 65, 100, 127, 128, 129, 192, 255, 256, 257};
      return t.of(b);
    }
    case 3: {
      static const std::vector<size_t> b = {511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 8191, 12288, 16383, 16384, 16385, 32768, 65535, 65536, 65537};
      size_t v = t.of(b);
      return v <= big ? v : t.below(big + 1);
    }
    default: return t.below(big + 1);
  }
}

static const std::vector<std::string>& pieces_xml() {
  static const std::vector<std::string> v = {
      "a", "Z", "0", "abc", "pass word", "&", "<", ">", "\"", "'", "&amp;", "&#65;", "&lt;b&gt;", "]]>", "<![CDATA[", "-->", "<!--x-->",
      "<a/>", "</Value>", "{REF:T@I:0}", "%20", "\\", "\\n", "/", "\t", "\n", "\r\n", "\r", "  ", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80",
      "\xd7\xa9\xd7\x9c", "\xe6\xbc\xa2\xe5\xad\x97", "e\xcc\x81", "\xc2\xa0", "\xef\xbb\xbf", "\xe2\x80\xa8", "=", "+", "AAAA", "True", "null", "SYSTEM"};
  return v;
}

std::string text(Tape& t, Text kind, size_t big) {
  std::string s;
  if (kind == Text::kAny) {
    // Protected / binary content: arbitrary bytes or ordinary text.
    if (t.chance(1, 2)) return t.bytes(size(t, big));
    kind = Text::kXml;
  }
  size_t n = size(t, big);
  if (n == 0) return s;
  auto bad = [&](unsigned char c) {
    if (c == 0) return true;
    if (kind == Text::kNulFree) return false;
    if (kind == Text::kStrictXml && c < 32 && c != '\t' && c != '\n' && c != '\r') return true;
    return false;
  };
  switch (t.pick({30, 30, 12, 12, 10, 6})) {
    case 0: {  // plain ASCII from one seed
      SplitMix r = t.sub();
      for (size_t i = 0; i < n; ++i) s += char('a' + r.next() % 26);
      break;
    }
    case 1: {  // pieces
      SplitMix r = t.sub();
      size_t k = 0;
      while (s.size() < n && k++ < n) s += pieces_xml()[n > 64 ? r.next() % pieces_xml().size() : t.below(pieces_xml().size())];
      break;
    }
    case 2: {  // white space at the edges
      static const std::vector<std::string> ws = {" ", "\t", "\n", "  ", "\n\n", " \t ", "\r\n", "\r"};
      if (t.chance(1, 2)) s += t.of(ws);
      if (t.chance(2, 3)) s += "x y" + std::string(n > 4 ? n - 4 : 0, 'q');
      if (t.chance(1, 2)) s += t.of(ws);
      break;
    }
    case 3: {  // printable ASCII
      SplitMix r = t.sub();
      for (size_t i = 0; i < n; ++i) s += char(32 + r.next() % 95);
      break;
    }
    case 4: {  // random code points as UTF-8
      SplitMix r = t.sub();
      while (s.size() < n) {
        uint32_t c;
        switch (r.next() % 4) {
          case 0: c = 0x20 + r.next() % 0x5f; break;
          case 1: c = 0xa0 + r.next() % 0x700; break;
          case 2: c = 0x800 + r.next() % 0xd000; break;  // below the surrogates
          default: c = 0x10000 + r.next() % 0xfff00; break;
        }
        if ((c & 0xfffe) == 0xfffe) c = 0xfffd;
        if (c < 0x80) s += char(c);
        else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
        else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
      }
      break;
    }
    default: {  // any permitted bytes
      SplitMix r = t.sub();
      for (size_t i = 0; i < n; ++i) {
        unsigned char c = r.next() >> 9;
        if (kind != Text::kNulFree && c >= 0x80) c &= 0x7f;
        s += char(c);
      }
      break;
    }
  }
  std::string o;
  for (unsigned char c : s) if (!bad(c)) o += char(c);
  return o;
}

std::string ident(Tape& t) {
  static const std::vector<std::string> v = {"a", "b", "key", "name", "x1", "Zed"};
  return t.of(v);
}

uint32_t u32(Tape& t) {
  static const std::vector<uint32_t> b = {0, 1, 2, 7, 68, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu, 1000000};
  return t.chance(1, 4) ? uint32_t(t.below(1ull << 32)) : t.of(b);
}

int64_t i64(Tape& t) {
  static const std::vector<int64_t> b = {-1, 0, 1, -2, 100, 365, 6291456, 2147483647ll, 2147483648ll, -2147483648ll, -2147483649ll, 4294967295ll,
                                         4294967296ll, INT64_MAX, INT64_MIN, INT64_MAX - 1};
  return t.chance(1, 4) ? int64_t(t.below(0)) : t.of(b);
}

static int64_t base_time(Tape& t, int64_t ymin, int64_t ymax) {
  using ref::civil_to_unix;
  switch (t.pick({20, 20, 20, 20, 10, 10})) {
    case 0: return civil_to_unix({2014, 5, 17, 10, 30, 15}) + int64_t(t.below(86400));
    case 1: {  // around DST changes and year ends in recent years
      int64_t y = 1970 + t.below(120);
      static const std::vector<std::pair<int, int>> md = {{3, 31}, {3, 25}, {3, 8}, {3, 14}, {10, 25}, {10, 31}, {11, 1}, {11, 7}, {12, 31}, {1, 1}, {2, 28}, {3, 1}, {4, 1}, {9, 30}};
      auto p = t.of(md);
      return civil_to_unix({y, p.first, p.second, int(t.below(24)), int(t.below(60)), int(t.below(60))});
    }
    case 2: {  // leap days and century ends
      static const std::vector<int64_t> ys = {2000, 2012, 2016, 1904, 1996, 2400, 2096, 2100, 1900, 2800};
      int64_t y = t.of(ys);
      if (y < ymin) y = 2000;
      return civil_to_unix({y, 2, 28, 0, 0, 0}) + int64_t(t.below(3 * 86400));
    }
    case 3: {  // any civil time
      int64_t y = ymin + int64_t(t.below(ymax - ymin + 1));
      return civil_to_unix({y, int(1 + t.below(12)), int(1 + t.below(28)), int(t.below(24)), int(t.below(60)), int(t.below(60))});
    }
    case 4: {  // close to the epoch and 32-bit limits
      static const std::vector<int64_t> b = {1, -1, 2, 59, 3600, 86399, 86400, -2, -3600, -86400, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, -2147483648ll};
      return t.of(b);
    }
    default: {
      int64_t y = t.chance(1, 2) ? ymin : ymax;
      return civil_to_unix({y, t.chance(1, 2) ? 1 : 12, int(1 + t.below(28)), int(t.below(24)), int(t.below(60)), int(t.below(60))});
    }
  }
}

int64_t time_kdbx(Tape& t) {
  if (t.chance(1, 5)) return 0;
  int64_t v = base_time(t, 1, 9999);
  if (v == kNeverTime) ++v;
  return v;
}

// Whether another instant shows the same local civil time.
static bool ambiguous(time_t tt, const std::tm& tm) {
  std::set<long> offs;
  for (int h = -26; h <= 26; ++h) {
    time_t x = tt + h * 3600;
    std::tm o;
    if (localtime_r(&x, &o)) offs.insert(o.tm_gmtoff);
  }
  for (long o : offs) {
    time_t x = tt + tm.tm_gmtoff - o;
    std::tm other;
    if (x != tt && localtime_r(&x, &other) && other.tm_gmtoff == o) return true;
  }
  return false;
}

int64_t time_kdb(Tape& t) {
  if (t.chance(1, 5)) return 0;
  int64_t v = base_time(t, 1901, 4094);
  for (int i = 0; i < 8; ++i) {
    time_t tt = v;
    std::tm tm;
    if (localtime_r(&tt, &tm)) {
      bool never = tm.tm_year == 1099 && tm.tm_mon == 11 && tm.tm_mday == 28 && tm.tm_hour == 23 && tm.tm_min == 59 && tm.tm_sec == 59;
      if (!ambiguous(tt, tm) && tt != 0 && !never && tm.tm_year >= 0 && tm.tm_year <= 4095 - 1900 && tm.tm_sec < 60) return v;
    }
    v += 7200;
  }
  return 1400000000;
}

std::string tz(Tape& t) {
  static const std::vector<std::string> v = {
      "UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NST3:30NDT,M3.2.0,M11.1.0", "XXX12", "YYY-14",
      "AEST-10AEDT,M10.1.0,M4.1.0/3", "NPT-5:45", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", ":Europe/Berlin", ":America/New_York",
      ":America/Sao_Paulo", ":Asia/Kathmandu", ":Australia/Lord_Howe", ":Pacific/Apia", ":Europe/London", ":Africa/Monrovia", ":Asia/Tehran"};
  return t.of(v);
}

std::string uuid_from(uint64_t seed, uint64_t n) {
  uint64_t a = pbt::mix(seed, n), b = pbt::mix(a, 77);
  std::string s;
  ref::put64(s, a);
  ref::put64(s, b);
  // Occasionally shapes that stress base64 and comparison code.
  switch (a % 11) {
    case 0: for (int i = 0; i < 12; ++i) s[i] = '\0'; break;
    case 1: for (int i = 0; i < 12; ++i) s[i] = '\xff'; break;
    case 2: for (int i = 0; i < 12; ++i) s[i] = '\xfb'; break;
  }
  if (s == std::string(16, '\0')) s[15] = 1;
  return s;
}

// White space around unprotected XML text is a property of its own (C01/edge-space).
static std::string edges(std::string s, const Opt& o) {
  if ((o.kdb && !o.xml_text) || o.edge_ws) return s;
  auto ws = [](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; };
  for (size_t i = 0; i < s.size() && ws(s[i]); ++i) s[i] = '.';
  for (size_t i = s.size(); i-- > 0 && ws(s[i]);) s[i] = '.';
  return s;
}

static PStr pstr(Tape& t, const Opt& o, bool default_prot) {
  PStr p;
  if (!o.kdb) p.prot = t.chance(1, 3) != default_prot;
  p.v = text(t, o.kdb ? (o.xml_text ? Text::kStrictXml : Text::kNulFree) : p.prot ? Text::kAny : o.strict_xml ? Text::kStrictXml : Text::kXml, o.big);
  if (!p.prot) p.v = edges(p.v, o);
  return p;
}

static std::string plain(Tape& t, const Opt& o, bool big = false) {
  return edges(text(t, o.kdb ? (o.xml_text ? Text::kStrictXml : Text::kNulFree) : o.strict_xml ? Text::kStrictXml : Text::kXml, big ? o.big : o.big && t.chance(1, 20) ? 70000 : 0), o);
}

Entry entry(Tape& t, const Opt& o, const Meta& meta, uint64_t us, int depth) {
  Entry e;
  e.uuid = uuid_from(us, t.below(1u << 20) + 1000);
  e.icon = t.chance(1, 2) ? t.below(69) : u32(t);
  e.title = pstr(t, o, false);
  e.username = pstr(t, o, false);
  e.password = pstr(t, o, true);
  e.url = pstr(t, o, false);
  e.notes = pstr(t, o, false);
  for (int i = 0; i < 5; ++i) {
    if (o.kdb && i == 4) break;
    e.times[i] = o.kdb ? time_kdb(t) : time_kdbx(t);
  }
  if (o.kdb) {
    if (t.chance(1, 3)) {
      model::Attachment a;
      a.name = o.xml_text ? plain(t, o) : text(t, Text::kNulFree, 0);
      a.inl.data = t.bytes(size(t, o.big));
      if (!a.name.empty() || !a.inl.data.empty()) e.attachments.push_back(a);
    }
    if (t.chance(1, 10)) {  // KeePass 1.x meta entry
      e.title.v = "Meta-Info"; e.url.v = "$"; e.username.v = "SYSTEM"; e.notes.v = "KPX_GROUP_TREE_STATE";
      e.attachments.clear();
      model::Attachment a;
      a.name = "bin-stream";
      a.inl.data = t.bytes(1 + t.below(20));
      e.attachments.push_back(a);
    }
    return e;
  }
  if (!meta.icons.empty() && t.chance(1, 3)) e.custom_icon = t.below(meta.icons.size());
  e.override_url = t.chance(1, 3) ? plain(t, o) : "";
  e.tags = t.chance(1, 3) ? plain(t, o) : "";
  e.bg = t.chance(1, 4) ? "#FF8000" : t.chance(1, 6) ? plain(t, o) : "";
  e.fg = t.chance(1, 4) ? "#0000FF" : t.chance(1, 6) ? plain(t, o) : "";
  e.expires = t.chance(1, 2);
  e.usage = t.chance(1, 2) ? u32(t) : 0;
  e.at_enabled = t.chance(1, 2);
  e.at_obf = t.chance(1, 4) ? u32(t) : t.chance(1, 2);
  e.at_seq = t.chance(1, 3) ? plain(t, o) : "";
  for (size_t n = t.chance(1, 3) ? t.below(4) : 0; n--;) e.assoc.push_back({plain(t, o), plain(t, o)});
  for (size_t n = t.chance(1, 2) ? t.below(4) : 0; n--;) {
    std::string k = plain(t, o);
    static const std::set<std::string> reserved = {"Title", "URL", "UserName", "Password", "Notes"};
    if (reserved.count(k)) k += "_";
    PStr v = pstr(t, o, false);
    e.custom.push_back({k, v});
  }
  for (size_t n = t.chance(1, 3) ? 1 + t.below(3) : 0; n--;) {
    model::Attachment a;
    a.name = plain(t, o);
    if (!meta.binaries.empty() && !t.chance(1, 4)) {
      a.pool = t.below(meta.binaries.size());
    } else {
      a.inl.prot = t.chance(1, 3);
      a.inl.data = t.bytes(size(t, o.big));
    }
    e.attachments.push_back(a);
  }
  if (o.history && depth < 2 && t.chance(1, depth ? 6 : 3)) {
    Opt ho = o;
    ho.big = 0;
    for (size_t n = 1 + t.below(3); n--;) {
      Entry h = entry(t, ho, meta, us, depth + 1);
      if (t.chance(2, 3)) h.uuid = e.uuid;
      e.history.push_back(h);
    }
  }
  return e;
}

static void group_fields(Tape& t, const Opt& o, const Meta& meta, Group& g) {
  g.name = plain(t, o);
  g.icon = t.chance(1, 2) ? t.below(69) : u32(t);
  for (int i = 0; i < 5; ++i) {
    if (o.kdb && i == 4) break;
    g.times[i] = t.chance(1, 2) ? (o.kdb ? time_kdb(t) : time_kdbx(t)) : 0;
  }
  if (o.kdb) { g.flags = t.chance(1, 2) ? (t.chance(1, 2) ? t.below(65536) : u32(t)) : 0; return; }
  g.notes = t.chance(1, 3) ? plain(t, o, true) : "";
  if (!meta.icons.empty() && t.chance(1, 3)) g.custom_icon = t.below(meta.icons.size());
  g.expires = t.chance(1, 2);
  g.expanded = t.chance(1, 2);
  g.usage = t.chance(1, 3) ? u32(t) : 0;
  g.at_seq = t.chance(1, 4) ? plain(t, o) : "";
  g.autotype = int(t.below(3));
  g.search = int(t.below(3));
}

Group tree(Tape& t, const Opt& o, const Meta& meta) {
  uint64_t us = t.below(0);
  Group root;
  root.uuid = uuid_from(us, 0);
  if (!o.kdb) group_fields(t, o, meta, root);
  // The preorder sequence of depths: each next group is at depth 1..prev+1, so
  // every tree shape is reachable, with a bias to deep-then-up-then-down.
  size_t n = t.pick({10, 30, 40, 20});
  n = n == 0 ? 0 : n == 1 ? t.below(3) : n == 2 ? t.below(7) : t.below(o.max_groups + 1);
  std::vector<size_t> depth;
  size_t prev = 0;
  for (size_t i = 0; i < n; ++i) {
    size_t d;
    switch (t.pick({40, 30, 30})) {
      case 0: d = prev + 1; break;
      case 1: d = prev ? prev : 1; break;
      default: d = 1 + t.below(prev + 1); break;
    }
    depth.push_back(d);
    prev = d;
  }
  // Build; children are appended to the last group one level up.
  std::vector<Group> flat(n);
  for (size_t i = 0; i < n; ++i) {
    flat[i].uuid = uuid_from(us, i + 1);
    group_fields(t, o, meta, flat[i]);
  }
  std::vector<size_t> owner;  // entries' group index (0 = root)
  size_t ne = t.pick({15, 45, 30, 10});
  ne = ne == 0 ? 0 : ne == 1 ? t.below(3) : ne == 2 ? t.below(6) : t.below(o.max_entries + 1);
  if (o.kdb && n == 0) ne = 0;
  for (size_t i = 0; i < ne; ++i) {
    size_t gi = o.kdb ? 1 + t.below(n) : t.below(n + 1);
    Entry e = entry(t, o, meta, us);
    Group& g = gi ? flat[gi - 1] : root;
    // UUIDs are unique within a group; an entry may share its group's UUID.
    if (!o.kdb && t.chance(1, 40)) e.uuid = g.uuid;
    bool dup = false;
    for (auto& x : g.entries) dup |= x.uuid == e.uuid;
    if (dup) e.uuid = uuid_from(us, (1ull << 32) + i);
    g.entries.push_back(e);
  }
  auto lv = [&](Group& g) {
    if (!o.kdb && !g.entries.empty() && t.chance(1, 2)) g.last_visible = t.below(g.entries.size());
  };
  lv(root);
  for (auto& g : flat) lv(g);
  // Attach from the back so that each subtree is complete when moved.
  for (size_t i = n; i-- > 0;) {
    std::vector<Group> kids;
    size_t j = i;  // parent: nearest earlier group with smaller depth
    while (j > 0 && depth[j - 1] >= depth[i]) --j;
    Group& parent = j > 0 ? flat[j - 1] : root;
    parent.groups.insert(parent.groups.begin(), std::move(flat[i]));
  }
  return root;
}

Db db(Tape& t, const Opt& o) {
  Db d;
  SplitMix r = t.sub();
  auto rnd = [&](size_t n) { std::string s(n, '\0'); for (auto& c : s) c = char(r.next() >> 11); return s; };
  d.iv = rnd(16);
  d.tseed = rnd(32);
  d.iks = rnd(32);
  static const std::vector<uint64_t> rounds = {1, 0, 2, 3, 5, 10, 64, 100, 257, 1000};
  d.rounds = t.of(rounds);
  if (o.kdb) {
    d.master_seed = rnd(16);
    d.cipher = t.below(2);
    d.root = tree(t, o, d.meta);
    return d;
  }
  d.master_seed = rnd(32);
  d.compress = t.chance(1, 2);
  Meta& m = d.meta;
  auto pl = [&]() { return plain(t, o); };
  m.generator = pl();
  m.name = {pl(), time_kdbx(t)};
  m.desc = {plain(t, o, true), time_kdbx(t)};
  m.user = {pl(), time_kdbx(t)};
  m.hist_days = u32(t);
  m.color = t.chance(1, 3) ? pl() : "";
  m.key_changed = time_kdbx(t);
  m.key_rec = i64(t);
  m.key_force = i64(t);
  for (auto& b : m.mp) b = t.chance(1, 2);
  m.recycle_changed = time_kdbx(t);
  m.templates_changed = time_kdbx(t);
  m.hist_items = int32_t(u32(t));
  m.hist_size = i64(t);
  uint64_t us = t.below(0);
  for (size_t n = t.chance(1, 2) ? t.below(4) : 0, i = 0; i < n; ++i) {
    std::string data = t.bytes(1 + t.below(40));
    if (t.chance(1, 8)) data = t.bytes(1 + size(t, o.big));
    m.icons.push_back({uuid_from(us, 900 + i), data});
  }
  for (size_t n = t.chance(1, 2) ? 1 + t.below(5) : 0; n--;) {
    model::Binary b;
    switch (t.pick({4, 3, 3})) { case 1: b.prot = true; break; case 2: b.compress = true; break; default: break; }
    b.data = t.bytes(size(t, o.big));
    if (t.chance(1, 6)) b.data = text(t, Text::kNulFree, 0);
    m.binaries.push_back(b);
  }
  for (size_t n = t.chance(1, 3) ? t.below(4) : 0; n--;) {
    std::string k = pl();
    if (k.empty()) k = "k";
    std::string v = pl();
    m.custom.push_back({k, v});
  }
  d.root = tree(t, o, m);
  size_t ng = model::count_groups(d.root);
  auto ref = [&](bool detached_ok) {
    GRef g;
    size_t k = t.pick({3, 5, detached_ok && o.detached_refs ? 2u : 0u});
    if (k == 1) { g.kind = GRef::kTree; g.index = t.below(ng); }
    if (k == 2) { g.kind = GRef::kDetached; g.uuid = t.chance(1, 2) ? std::string(16, '\0') : uuid_from(us, 5000 + t.below(3)); }
    return g;
  };
  m.recycle_bin = ref(true);
  m.templates = ref(true);
  m.last_selected = ref(false);
  m.last_visible = ref(false);
  return d;
}

std::string crowd(Tape& t, const Opt& o, Db& d) {
  static const std::vector<size_t> counts = {11, 17, 33, 40, 65, 101, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 513, 700};
  static const std::vector<size_t> many = {1000, 1023, 1024, 1025, 2048, 4095, 4097, 9999, 10001, 16383, 16385, 32767, 32769, 65535, 65536, 65537, 70000};
  static const std::vector<size_t> kinds = {0, 2, 3, 4, 5, 7, 8, 9, 10};
  size_t n = t.of(o.mass ? many : counts), kind = o.mass ? (o.kdb ? 2 * t.below(2) : t.of(kinds)) : t.below(o.kdb ? 4 : 13);
  if (kind == 8 && n > 4097) n = 4097;  // the library looks binaries up one by one
  uint64_t us = t.below(0);
  SplitMix r = t.sub();
  Group* g = &d.root;
  if (o.kdb && kind >= 1) {
    d.root.groups.push_back(Group());
    g = &d.root.groups.back();
    g->name = "crowd";
  }
  auto simple = [&](size_t i) {
    Entry e;
    e.uuid = uuid_from(us, i);
    e.title.v = "t" + std::to_string(r.next() % 50);
    if (!o.kdb && r.next() % 2) { e.password.v = "p" + std::to_string(i); e.password.prot = true; }
    return e;
  };
  Entry* e = nullptr;
  if (!o.kdb && ((kind >= 3 && kind <= 7) || kind == 11)) {
    g->entries.push_back(simple(100000));
    e = &g->entries.back();
  }
  auto blob = [&](size_t i) { return r.next() % 3 ? "data" + std::to_string(r.next() % 4) : std::string(i % 40, char(i)); };
  std::string what;
  switch (kind) {
    case 0:
      what = "groups";
      for (size_t i = 0; i < n; ++i) {
        Group x;
        x.uuid = uuid_from(us, i);
        x.name = "g" + std::to_string(r.next() % 30);
        if (r.next() % 4 == 0) x.entries.push_back(simple(200000 + i));
        if (i % 50 == 49 && r.next() % 2) { Group y; y.uuid = uuid_from(us, 300000 + i); y.name = "sub"; x.groups.push_back(y); }
        d.root.groups.push_back(x);
      }
      break;
    case 1: {
      what = "levels";
      Group top;
      for (size_t i = 0; i < n; ++i) {
        Group x;
        x.uuid = uuid_from(us, i);
        x.name = "l" + std::to_string(i);
        if (r.next() % 8 == 0) x.entries.push_back(simple(200000 + i));
        if (i) x.groups.push_back(std::move(top));
        if (r.next() % 8 == 0) { Group y; y.uuid = uuid_from(us, 300000 + i); y.name = "side"; x.groups.insert(r.next() % 2 ? x.groups.begin() : x.groups.end(), y); }
        top = std::move(x);
      }
      g->groups.push_back(std::move(top));
      break;
    }
    case 2:
      what = "entries";
      for (size_t i = 0; i < n; ++i) g->entries.push_back(simple(i));
      break;
    case 3:
      if (o.kdb) {
        static const std::vector<uint64_t> rs = {1023, 4096, 32767, 65535, 65536, 65537, 70000};
        d.rounds = t.of(rs);
        return "rounds " + std::to_string(d.rounds);
      }
      what = "custom fields";
      for (size_t i = 0; i < n; ++i) e->custom.push_back({"k" + std::to_string(r.next() % 200), {"v" + std::to_string(i), r.next() % 3 == 0}});
      break;
    case 4:
      what = "inline attachments";
      for (size_t i = 0; i < n; ++i) {
        model::Attachment a;
        a.name = "a" + std::to_string(r.next() % 200);
        a.inl.data = blob(i);
        a.inl.prot = r.next() % 3 == 0;
        e->attachments.push_back(a);
      }
      break;
    case 5:
      what = "history entries";
      for (size_t i = 0; i < n; ++i) { Entry h = simple(i); h.uuid = e->uuid; e->history.push_back(h); }
      break;
    case 6: {
      what = "history levels";
      if (n > 300) n = 300;
      Entry top = simple(1);
      for (size_t i = 0; i < n; ++i) { Entry x = simple(2 + i); x.history.push_back(top); top = x; }
      e->history.push_back(top);
      break;
    }
    case 7:
      what = "associations";
      for (size_t i = 0; i < n; ++i) e->assoc.push_back({"w" + std::to_string(i), "s" + std::to_string(r.next() % 50)});
      break;
    case 8: {
      what = "binaries";
      size_t base = d.meta.binaries.size();
      for (size_t i = 0; i < n; ++i) {
        model::Binary b;
        b.data = blob(i);
        b.prot = r.next() % 3 == 0;
        b.compress = !b.prot && r.next() % 3 == 0;
        d.meta.binaries.push_back(b);
      }
      Entry x = simple(400000);
      for (size_t i = 0; i < n; ++i) {
        model::Attachment a;
        a.name = "b" + std::to_string(i);
        a.pool = int(base + r.next() % n);
        x.attachments.push_back(a);
      }
      g->entries.push_back(x);
      break;
    }
    case 9: {
      what = "icons";
      size_t base = d.meta.icons.size();
      for (size_t i = 0; i < n; ++i) { std::string data = blob(i); if (data.empty()) data = "i"; d.meta.icons.push_back({uuid_from(us, 500000 + i), data}); }
      for (size_t i = 0; i < n; ++i) if (r.next() % 4 == 0) { Entry x = simple(i); x.custom_icon = int(base + r.next() % n); g->entries.push_back(x); }
      break;
    }
    case 10:
      what = "custom data";
      for (size_t i = 0; i < n; ++i) d.meta.custom.push_back({"k" + std::to_string(r.next() % 300), "v" + std::to_string(i)});
      break;
    case 11:
      what = "fields with attachments";
      for (size_t i = 0; i < n; ++i) {
        e->custom.push_back({"k" + std::to_string(i), {blob(i), true}});
        model::Attachment a;
        a.name = "p" + std::to_string(i);
        a.inl.data = blob(i + 1);
        a.inl.prot = true;
        e->attachments.push_back(a);
      }
      break;
    default: {
      static const std::vector<uint64_t> rs = {1023, 4096, 32767, 65535, 65536, 65537, 70000};
      d.rounds = t.of(rs);
      return "rounds " + std::to_string(d.rounds);
    }
  }
  return what + " " + std::to_string(n);
}

std::string Cred::describe() const {
  return (has_pw ? "pw=" + pbt::quote(pw, 40) : std::string("no-pw")) + (has_kf ? " keyfile(" + std::string(kf_hex ? "hex" : "xml") + ")=" + pbt::hex(kf, 8) : "");
}

Cred cred(Tape& t) {
  Cred c;
  switch (t.pick({5, 2, 3})) {
    case 0: c.has_pw = true; break;
    case 1: c.has_kf = true; break;
    default: c.has_pw = c.has_kf = true; break;
  }
  if (c.has_pw) c.pw = text(t, Text::kAny, 0);
  if (c.has_kf) {
    c.kf = t.bytes(32);
    c.kf_hex = t.chance(1, 2);
  }
  return c;
}

std::string keyfile_text(Tape& t, const std::string& k, bool hex) {
  if (hex) {
    bool upper = t.chance(1, 2), mixed = t.chance(1, 4);
    std::string s;
    for (size_t i = 0; i < k.size(); ++i) {
      const char* d = (mixed ? (i & 1) : upper) ? "0123456789ABCDEF" : "0123456789abcdef";
      s += d[uint8_t(k[i]) >> 4];
      s += d[uint8_t(k[i]) & 15];
    }
    return s;
  }
  std::string b = ref::b64(k);
  switch (t.pick({4, 3, 2, 2})) {
    case 0:
      return "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<KeyFile>\n\t<Meta>\n\t\t<Version>1.00</Version>\n\t</Meta>\n\t<Key>\n\t\t<Data>" + b +
             "</Data>\n\t</Key>\n</KeyFile>";
    case 1: return "<KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>" + b + "</Data></Key></KeyFile>";
    case 2:
      return "<?xml version=\"1.0\"?>\r\n<!-- key -->\r\n<KeyFile>\r\n <Key>\r\n  <Data>\r\n   " + b + "\r\n  </Data>\r\n </Key>\r\n</KeyFile>\r\n";
    default: return "<KeyFile><Key><Data>" + b.substr(0, 20) + " " + b.substr(20) + "</Data></Key></KeyFile>\n";
  }
}
}  // namespace gen
