// C28: the work of an operation grows in proportion to the database.
//
// Work is counted, not timed: basic blocks executed in the library (compiled
// with -fsanitize-coverage=trace-pc, see check.sh) plus bytes that memory
// functions move, set or compare. The count of a case does not depend on the
// machine or its load.
#include <algorithm>
#include <cstring>

#include "common.hh"

using namespace harness;

namespace {
bool g_on = false;
#define UNCOUNTED __attribute__((no_sanitize_coverage))
uint64_t g_blocks = 0, g_bytes = 0;
}

extern "C" {
UNCOUNTED void __sanitizer_cov_trace_pc() { g_blocks += g_on; }
UNCOUNTED void* memcpy(void* d, const void* s, size_t n) {
  if (g_on) g_bytes += n;
  void* r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
UNCOUNTED void* memmove(void* d, const void* s, size_t n) {
  if (g_on) g_bytes += n;
  void* r = d;
  if (static_cast<char*>(d) <= s || static_cast<const char*>(s) + n <= d) {
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    char* dd = static_cast<char*>(d) + n - 1;
    const char* ss = static_cast<const char*>(s) + n - 1;
    asm volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  }
  return r;
}
UNCOUNTED void* memset(void* d, int v, size_t n) {
  if (g_on) g_bytes += n;
  void* r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
  return r;
}
UNCOUNTED int memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *p = static_cast<const unsigned char*>(a), *q = static_cast<const unsigned char*>(b);
  size_t i = 0;
  while (i < n && p[i] == q[i]) ++i;
  if (g_on) g_bytes += i;
  return i < n ? int(p[i]) - int(q[i]) : 0;
}
void* counted_memchr(const void* a, int v, size_t n) asm("memchr");
UNCOUNTED void* counted_memchr(const void* a, int v, size_t n) {
  const unsigned char* p = static_cast<const unsigned char*>(a);
  for (size_t i = 0; i < n; ++i)
    if (p[i] == static_cast<unsigned char>(v)) { if (g_on) g_bytes += i; return const_cast<unsigned char*>(p + i); }
  if (g_on) g_bytes += n;
  return nullptr;
}
UNCOUNTED size_t strlen(const char* s) {
  const volatile char* p = s;
  size_t n = 0;
  while (p[n]) ++n;
  if (g_on) g_bytes += n;
  return n;
}
}

namespace {
struct Work { uint64_t blocks = 0, bytes = 0; uint64_t sum() const { return blocks + bytes / 8; } };
template <class F>
Work count(F f) {
  g_blocks = g_bytes = 0;
  g_on = true;
  try { f(); } catch (...) { g_on = false; throw; }
  g_on = false;
  Work w;
  w.blocks = g_blocks;
  w.bytes = g_bytes;
  return w;
}

struct Dim {
  const char* name;
  int formats;  // 1 KDBX, 2 KDB
  size_t unit;  // the smaller size
  std::function<void(model::Db&, size_t, pbt::SplitMix&)> grow;
};
std::string word(pbt::SplitMix& r, size_t n) {
  static const char abc[] = "abcdefghijklmnopqrstuvwxyz0123456789 -_";
  std::string s;
  for (size_t i = 0; i < n; ++i) s += abc[(r.next() >> 20) % (i && i + 1 < n ? 39 : 36)];
  return s;
}
Bytes blob(pbt::SplitMix& r, size_t n) {
  Bytes b(n, 0);
  for (size_t i = 0; i < n; ++i) b[i] = char(r.next() >> 30);
  return b;
}
model::Entry entry(pbt::SplitMix& r) {
  model::Entry e;
  e.uuid = blob(r, 16);
  e.icon = (r.next() >> 20) % 60;
  e.title.v = word(r, 8);
  e.username.v = word(r, 5);
  e.password.v = word(r, 10);
  e.password.prot = true;
  e.url.v = word(r, 12);
  e.notes.v = word(r, 20);
  for (auto& t : e.times) t = 1300000000 + int64_t((r.next() >> 20) % 100000000);
  return e;
}
model::Group group(pbt::SplitMix& r) {
  model::Group g;
  g.uuid = blob(r, 16);
  g.icon = (r.next() >> 20) % 60;
  g.name = word(r, 8);
  for (auto& t : g.times) t = 1300000000 + int64_t((r.next() >> 20) % 100000000);
  return g;
}
model::Entry& one(model::Db& d) { return d.root.groups[0].entries[0]; }
std::string marked(pbt::SplitMix& r, size_t n) {
  static const char* const bits[] = {"a", "<", "&", ">", "\"", "'", " x", "\n", "\xc3\xa4", "]]>", "\t.", "zz"};
  std::string s = "b";
  while (s.size() < n) s += bits[(r.next() >> 20) % 12];
  return s + "e";
}
const std::vector<Dim> kDims = {
    {"groups side by side", 3, 400, [](model::Db& d, size_t n, pbt::SplitMix& r) { while (n--) d.root.groups.push_back(group(r)); }},
    {"entries of a group", 3, 300, [](model::Db& d, size_t n, pbt::SplitMix& r) { while (n--) d.root.groups[0].entries.push_back(entry(r)); }},
    {"entries in many groups", 3, 300, [](model::Db& d, size_t n, pbt::SplitMix& r) {
       for (size_t i = 0; i < n; ++i) { if (i % 3 == 0) d.root.groups.push_back(group(r)); d.root.groups.back().entries.push_back(entry(r)); } }},
    {"tree of groups", 3, 300, [](model::Db& d, size_t n, pbt::SplitMix& r) {
       std::function<void(model::Group&, size_t)> go = [&](model::Group& g, size_t k) {
         for (size_t i = 0; k && i < 3; ++i) { size_t part = i == 2 ? k : (k + 2) / 3; part = std::min(part, k); if (!part) break; k -= part; g.groups.push_back(group(r)); go(g.groups.back(), part - 1); } };
       go(d.root.groups[0], n); }},
    {"levels of groups", 3, 40, [](model::Db& d, size_t n, pbt::SplitMix& r) {
       model::Group* g = &d.root.groups[0];
       while (n--) { g->groups.push_back(group(r)); g = &g->groups.back(); g->entries.push_back(entry(r)); } }},
    {"history of an entry", 1, 300, [](model::Db& d, size_t n, pbt::SplitMix& r) { while (n--) one(d).history.push_back(entry(r)); }},
    {"levels of history", 1, 20, [](model::Db& d, size_t n, pbt::SplitMix& r) {
       model::Entry* e = &one(d);
       while (n--) { e->history.push_back(entry(r)); e = &e->history.back(); } }},
    {"fields of an entry", 1, 800, [](model::Db& d, size_t n, pbt::SplitMix& r) {
       for (size_t i = 0; i < n; ++i) one(d).custom.push_back({"k" + std::to_string(i) + word(r, 4), {word(r, 9), i % 2 == 1}}); }},
    {"attachments of an entry", 1, 500, [](model::Db& d, size_t n, pbt::SplitMix& r) {
       for (size_t i = 0; i < n; ++i) { model::Attachment a; a.name = word(r, 8); a.inl.data = blob(r, 30); one(d).attachments.push_back(a); } }},
    {"stored attachments of entries", 1, 300, [](model::Db& d, size_t n, pbt::SplitMix& r) {
       for (size_t i = 0; i < n; ++i) {
         model::Binary b; b.data = blob(r, 30); b.prot = i % 3 == 0; b.compress = i % 3 == 1; d.meta.binaries.push_back(b);
         model::Attachment a; a.name = word(r, 8); a.pool = int(i);
         if (i % 4 == 0) d.root.groups[0].entries.push_back(entry(r));
         d.root.groups[0].entries.back().attachments.push_back(a); } }},
    {"uses of a stored attachment", 1, 400, [](model::Db& d, size_t n, pbt::SplitMix& r) {
       model::Binary b; b.data = blob(r, 3000); d.meta.binaries.push_back(b);
       for (size_t i = 0; i < n; ++i) {
         model::Attachment a; a.name = word(r, 8); a.pool = 0;
         if (i % 4 == 0) d.root.groups[0].entries.push_back(entry(r));
         d.root.groups[0].entries.back().attachments.push_back(a); } }},
    {"unused stored attachments", 1, 500, [](model::Db& d, size_t n, pbt::SplitMix& r) { while (n--) { model::Binary b; b.data = blob(r, 40); d.meta.binaries.push_back(b); } }},
    {"custom icons", 1, 300, [](model::Db& d, size_t n, pbt::SplitMix& r) {
       for (size_t i = 0; i < n; ++i) { d.meta.icons.push_back({blob(r, 16), blob(r, 60)}); d.root.groups[0].entries.push_back(entry(r)); d.root.groups[0].entries.back().custom_icon = int(i); } }},
    {"uses of a custom icon", 1, 300, [](model::Db& d, size_t n, pbt::SplitMix& r) {
       d.meta.icons.push_back({blob(r, 16), blob(r, 3000)});
       while (n--) { d.root.groups.push_back(group(r)); d.root.groups.back().custom_icon = 0; } }},
    {"custom data", 1, 1000, [](model::Db& d, size_t n, pbt::SplitMix& r) { for (size_t i = 0; i < n; ++i) d.meta.custom.push_back({"k" + std::to_string(i), word(r, 10)}); }},
    {"auto-type associations", 1, 1000, [](model::Db& d, size_t n, pbt::SplitMix& r) { while (n--) one(d).assoc.push_back({word(r, 6), word(r, 6)}); }},
    {"text", 3, 30000, [](model::Db& d, size_t n, pbt::SplitMix& r) { one(d).notes.v = marked(r, n); }},
    {"protected text", 3, 40000, [](model::Db& d, size_t n, pbt::SplitMix& r) { one(d).password.v = marked(r, n); }},
    {"name of a group", 3, 30000, [](model::Db& d, size_t n, pbt::SplitMix& r) { d.root.groups[0].name = marked(r, n); }},
    {"data of an attachment", 3, 40000, [](model::Db& d, size_t n, pbt::SplitMix& r) {
       model::Attachment a; a.name = "a"; a.inl.data = blob(r, n); one(d).attachments.push_back(a); }},
    {"protected data of an attachment", 1, 40000, [](model::Db& d, size_t n, pbt::SplitMix& r) {
       model::Attachment a; a.name = "a"; a.pool = 0; d.meta.binaries.push_back({blob(r, n), true, false}); one(d).attachments.push_back(a); }},
    {"compressed data of an attachment", 1, 40000, [](model::Db& d, size_t n, pbt::SplitMix& r) {
       model::Attachment a; a.name = "a"; a.pool = 0; d.meta.binaries.push_back({blob(r, n / 2) + Bytes(n - n / 2, 'x'), false, true}); one(d).attachments.push_back(a); }},
    {"data of a custom icon", 1, 40000, [](model::Db& d, size_t n, pbt::SplitMix& r) { d.meta.icons.push_back({blob(r, 16), blob(r, n)}); }},
    {"key transformation rounds", 3, 3000, [](model::Db& d, size_t n, pbt::SplitMix&) { d.rounds = n; }},
};

constexpr size_t kFactor = 16;
// Logarithms and tables that grow stay below this.
constexpr double kBound = 1.25;

void run(Case& c) {
  begin(c);
  pbt::set_tz("UTC0");
  bool kdb;
  const Dim* d;
  size_t pick = c.t.below(kDims.size() * 2);
  d = &kDims[pick % kDims.size()];
  kdb = d->formats == 3 && pick >= kDims.size();
  size_t n = d->unit + c.t.below(d->unit / 2);
  uint64_t seed = c.t.below(0);
  bool compress = c.t.chance(1, 2);
  int cipher = kdb && c.t.chance(1, 4);
  gen::Cred cr = simple_cred();
  keepass::Key key = make_key(c, cr), wrong("not this one");
  // A style of the other writer, the same for both sizes.
  ref::KdbxStyle xs = c.t.chance(1, 3) ? ref::plain_kdbx_style() : ref::gen_kdbx_style(c.t);
  ref::KdbStyle ks = kdb ? ref::gen_kdb_style(c.t) : ref::KdbStyle();
  if (c.t.chance(1, 6)) xs.blocks = {1 + c.t.below(40)};
  uint64_t wseed = c.t.below(0);
  std::string what = std::string(d->name) + (kdb ? " (KDB" : " (KDBX") + (compress && !kdb ? ", compressed)" : ")");
  c.describe(what + ", " + std::to_string(n) + " and " + std::to_string(n * kFactor));
  c.label(std::string(d->name) + (kdb ? ", KDB" : ", KDBX"));
  c.nontrivial(pbt::mix(pbt::hash_str(what), pbt::mix(n, seed)));

  // Every level may handle all that is below it.
  bool levels = strstr(d->name, "levels");
  double bound = kBound * double(levels ? kFactor * kFactor : strstr(d->name, "tree") ? kFactor * 3 / 2 : kFactor);
  auto build = [&](size_t size) {
    pbt::SplitMix r(seed);
    model::Db m;
    m.cipher = cipher;
    m.compress = compress && !kdb;
    m.master_seed = blob(r, kdb ? 16 : 32);
    m.iv = blob(r, 16);
    m.tseed = blob(r, 32);
    m.iks = blob(r, 32);
    m.root = group(r);
    m.root.groups.push_back(group(r));
    m.root.groups[0].entries.push_back(entry(r));
    d->grow(m, size, r);
    if (kdb) m.root = [&] { model::Group g; g.groups = m.root.groups; return g; }();
    return m;
  };
  std::string p = c.dir + "/f";
  struct Measured { const char* op; Work w[2]; };
  std::vector<Measured> ops = {{"exporting", {}}, {"importing", {}}, {"importing a foreign file", {}}, {"making JSON", {}}, {"comparing", {}},
                               {"refusing a wrong key", {}}, {"refusing a damaged file", {}}, {"refusing a truncated file", {}}};
  for (int i = 0; i < 2; ++i) {
    model::Db m = build(i ? n * kFactor : n);
    auto lib = bridge::to_db(m, !kdb);
    auto twin = bridge::to_db(m, !kdb);
    Outcome e;
    ops[0].w[i] = count([&] { e = kdb ? export_kdb(p, *lib, key) : export_kdbx(p, *lib, key); });
    PBT_REQUIRE(e.ok(), "export-failed", what << ": " << e.str());
    Imported im;
    ops[1].w[i] = count([&] { im = kdb ? import_kdb(p, key) : import_kdbx(p, key); });
    PBT_REQUIRE(im.ok(), "import-failed", what << ": " << im.str());
    pbt::SplitMix r(wseed);
    bridge::write_file(p, kdb ? ref::write_kdb(m, comps(cr), ks, r) : ref::write_kdbx(m, comps(cr), xs, r));
    ops[2].w[i] = count([&] { im = kdb ? import_kdb(p, key) : import_kdbx(p, key); });
    PBT_REQUIRE(im.ok(), "import-failed", what << ": the file of the other writer: " << im.str());
    Imported no;
    ops[5].w[i] = count([&] { no = kdb ? import_kdb(p, wrong) : import_kdbx(p, wrong); });
    Bytes f = bridge::read_file(p), g = f;
    g[g.size() - g.size() / 8 - 1] ^= 0x10;
    bridge::write_file(p, g);
    ops[6].w[i] = count([&] { no = kdb ? import_kdb(p, key) : import_kdbx(p, key); });
    bridge::write_file(p, f.substr(0, f.size() - f.size() / 8 / 16 * 16 - 16));
    ops[7].w[i] = count([&] { no = kdb ? import_kdb(p, key) : import_kdbx(p, key); });
    no.db.reset();
    ops[3].w[i] = count([&] { lib->root()->ToJson(); });
    ops[4].w[i] = count([&] { (void)(*lib->root() == *twin->root()); });
  }
  for (auto& o : ops) {
    c.eval();
    uint64_t a = o.w[0].sum(), b = o.w[1].sum();
    if (FILE* fp = getenv("C28_SHOW") ? fopen(getenv("C28_SHOW"), "a") : nullptr) { fprintf(fp, "%-40s %-26s n=%zu %10llu+%llu %10llu+%llu ratio %.2f\n", what.c_str(), o.op, n, (unsigned long long)o.w[0].blocks, (unsigned long long)o.w[0].bytes, (unsigned long long)o.w[1].blocks, (unsigned long long)o.w[1].bytes, double(b) / double(std::max<uint64_t>(a, 1))); fclose(fp); continue; }
    if (!strncmp(o.op, "refusing", 8)) {
      // Where the file is given up depends on more than its size.
      uint64_t whole = ops[2].w[1].sum();
      PBT_REQUIRE(double(b) <= kBound * double(whole) + 20000, "refusal",
                  o.op << ", " << what << ": " << n * kFactor << " take " << b << " steps but importing takes only " << whole);
      continue;
    }
    PBT_REQUIRE(double(b) <= bound * double(a) + 20000, "steep",
                o.op << ", " << what << ": " << n << " take " << a << " steps but " << n * kFactor << " take " << b << ", " << double(b) / double(a) << " times as many");
  }
}

// Objects that receive one thing more and more often.
void adding(Case& c) {
  begin(c);
  static const char* const names[] = {"groups", "entries", "attachments", "history entries", "custom fields", "associations", "binaries", "icons", "custom data"};
  int kind = int(c.t.below(9));
  size_t n = 2000 + c.t.below(2000);
  std::string text(c.t.below(30), 'x');
  c.describe(std::string(names[kind]) + ", " + std::to_string(n) + " and " + std::to_string(n * kFactor));
  c.label(std::string("adding ") + names[kind]);
  c.nontrivial(pbt::mix(n * 9 + kind, text.size()));
  auto one_group = std::make_shared<keepass::Group>();
  auto one_entry = std::make_shared<keepass::Entry>();
  auto one_attachment = std::make_shared<keepass::Entry::Attachment>();
  auto one_binary = std::make_shared<keepass::Binary>(keepass::protect<std::string>(text, false));
  auto one_icon = std::make_shared<keepass::Icon>(std::array<uint8_t, 16>(), std::vector<uint8_t>(text.begin(), text.end()));
  uint64_t w[2];
  for (int i = 0; i < 2; ++i) {
    keepass::Group g;
    keepass::Entry e;
    keepass::Metadata m;
    size_t k = i ? n * kFactor : n;
    w[i] = count([&] {
      for (size_t j = 0; j < k; ++j) switch (kind) {
        case 0: g.AddGroup(one_group); break;
        case 1: g.AddEntry(one_entry); break;
        case 2: e.AddAttachment(one_attachment); break;
        case 3: e.AddHistoryEntry(one_entry); break;
        case 4: e.AddCustomField(text, keepass::protect<std::string>(text, false)); break;
        case 5: e.auto_type().AddAssociation(text, text); break;
        case 6: m.AddBinary(one_binary); break;
        case 7: m.AddIcon(one_icon); break;
        default: m.AddField(text, text); break;
      }
    }).sum();
  }
  c.eval(2);
  PBT_REQUIRE(double(w[1]) <= kBound * kFactor * double(w[0]) + 20000, "steep",
              "adding " << names[kind] << ": " << n << " take " << w[0] << " steps but " << n * kFactor << " take " << w[1]);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C28";
  k.rule = "two databases that differ in one size by a factor of 16 were exported, imported, converted and compared; distinct by what grows, its size and the content";
  k.assumptions = {"work is counted as basic blocks of the library and bytes moved by memory functions; what zlib and OpenSSL do inside is not counted"};
  k.subs = {{"grow", 160, 4000, run, true, 300}, {"adding", 300, 3000, adding}};
  return pbt::run_check(k, argc, argv);
}
