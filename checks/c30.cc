// C30: an export that is refused leaves the destination as it was.
#include <fcntl.h>
#include <filesystem>
#include <sys/stat.h>
#include <unistd.h>

#include "common.hh"
using namespace harness;
namespace fs = std::filesystem;

namespace {
enum Kind { kRootEntry, kAttachments, kRounds, kLevels, kHistory, kTime, kNul, kKinds };
const char* const kNames[] = {"entry of the root", "several attachments", "many rounds", "nested groups", "nested history", "time out of range", "NUL in a text"};

int64_t far_time(Case& c, bool kdb) {
  switch (c.t.below(3)) {
    case 0: return ref::civil_to_unix({kdb ? 4097 + int64_t(c.t.below(20000)) : 10001 + int64_t(c.t.below(20000)), 1 + int(c.t.below(12)), 1 + int(c.t.below(28)), 1, 2, 3});
    case 1: return ref::civil_to_unix({kdb ? 1 + int64_t(c.t.below(1890)) : -1 - int64_t(c.t.below(3000)), 1 + int(c.t.below(12)), 1 + int(c.t.below(28)), 1, 2, 3});
    default: return c.t.chance(1, 2) ? INT64_MAX - int64_t(c.t.below(5)) : INT64_MIN + int64_t(c.t.below(5));
  }
}

// Makes the database one that the format cannot hold.
std::string spoil(Case& c, model::Db& m, bool kdb, Kind kind) {
  gen::Opt o;
  o.kdb = kdb;
  o.xml_text = true;
  o.history = false;
  std::vector<model::Group*> pre = model::preorder(m.root);
  auto below_root = [&]() -> model::Group& {
    if (pre.size() < 2) {
      model::Group g;
      g.name = "g";
      m.root.groups.push_back(g);
      pre = model::preorder(m.root);
    }
    return *pre[1 + c.t.below(pre.size() - 1)];
  };
  auto some_entry = [&]() -> model::Entry& {
    model::Group& g = below_root();
    if (g.entries.empty()) g.entries.push_back(gen::entry(c.t, o, m.meta, 7));
    return g.entries[c.t.below(g.entries.size())];
  };
  switch (kind) {
    case kRootEntry: m.root.entries.push_back(gen::entry(c.t, o, m.meta, 3)); return "";
    case kAttachments: {
      model::Entry& e = some_entry();
      while (e.attachments.size() < 2) {
        model::Attachment a;
        a.name = gen::ident(c.t);
        a.inl.data = c.t.bytes(c.t.below(50));
        e.attachments.push_back(a);
      }
      return "";
    }
    case kRounds: m.rounds = (uint64_t(1) << 32) + c.t.below(1000); return "";
    case kLevels: {
      model::Group* g = &below_root();
      size_t n = 1001 + c.t.below(300);
      for (size_t i = 0; i < n; ++i) { g->groups.push_back(model::Group()); g = &g->groups.back(); }
      return std::to_string(n);
    }
    case kHistory: {
      model::Entry* e = &some_entry();
      size_t n = 1001 + c.t.below(200);
      for (size_t i = 0; i < n; ++i) { e->history.push_back(model::Entry()); e = &e->history.back(); }
      return std::to_string(n);
    }
    case kTime: {
      int64_t v = far_time(c, kdb);
      int which = int(c.t.below(4));
      if (c.t.chance(1, 2)) some_entry().times[which] = v;
      else below_root().times[which] = v;
      return std::to_string(v);
    }
    default: {
      std::string v = gen::ident(c.t) + std::string(1, '\0') + gen::ident(c.t);
      if (kdb) {
        model::Entry& e = some_entry();
        std::string* at[] = {&e.title.v, &e.url.v, &e.username.v, &e.password.v, &e.notes.v, &below_root().name};
        size_t n = c.t.below(6);
        *at[n] = v;
        return "text " + std::to_string(n);
      }
      size_t total = 0, i = 0;
      some_entry();
      model::map_plain(m, [&](std::string&) { ++total; });
      size_t want = c.t.below(total);
      model::map_plain(m, [&](std::string& s) { if (i++ == want) s = v; });
      return "text " + std::to_string(want) + " of " + std::to_string(total);
    }
  }
}

struct State {
  bool exists = false;
  Bytes data;
  ino_t inode = 0;
  mode_t mode = 0;
  off_t size = 0;
  struct timespec mtime = {};
};
State look(const std::string& p) {
  State s;
  struct stat st;
  if (lstat(p.c_str(), &st) != 0) return s;
  s.exists = true;
  s.inode = st.st_ino;
  s.mode = st.st_mode;
  s.size = st.st_size;
  s.mtime = st.st_mtim;
  if (S_ISREG(st.st_mode)) s.data = bridge::read_file(p);
  return s;
}
std::string listing(const std::string& d) {
  std::set<std::string> names;
  for (auto& e : fs::directory_iterator(d)) names.insert(e.path().filename().string());
  std::string r;
  for (auto& n : names) r += n + "\n";
  return r;
}

void refused(Case& c) {
  begin(c);
  pbt::set_tz("UTC0");
  bool kdb = c.t.chance(1, 2);
  std::vector<Kind> kinds = kdb ? std::vector<Kind>{kRootEntry, kAttachments, kRounds, kLevels, kTime, kNul, kNul} : std::vector<Kind>{kLevels, kHistory, kTime, kTime, kNul, kNul, kNul};
  Kind kind = c.t.of(kinds);
  gen::Opt o;
  o.kdb = kdb;
  o.max_groups = 6;
  o.max_entries = 5;
  o.big = c.t.chance(1, 6) ? 20000 : 0;
  model::Db good = gen::db(c.t, o);
  good.rounds %= 20;
  model::Db bad = good;
  std::string more = spoil(c, bad, kdb, kind);
  std::string what = std::string(kNames[kind]) + (kdb ? ", KDB" : ", KDBX") + (more.empty() ? "" : ", " + more);
  gen::Cred cr = simple_cred();
  keepass::Key key = make_key(c, cr);
  std::string dir = c.dir + "/w";
  fs::remove_all(dir);
  mkdir(dir.c_str(), 0700);
  std::string p = dir + "/f", real = p;
  auto lib = bridge::to_db(good, !kdb);
  keepass::KdbFile kf;
  keepass::KdbxFile xf;
  auto save = [&](const keepass::Database& d) { return kdb ? export_kdb(p, d, key, &kf) : export_kdbx(p, d, key, &xf); };
  int before = int(c.t.below(5));
  static const char* const befores[] = {"nothing there", "an earlier version there", "something else there", "an empty file there", "a link to an earlier version there"};
  if (before == 4) {
    real = dir + "/real";
    if (symlink("real", p.c_str()) != 0) pbt::discard();
  }
  if (before == 1 || before == 4) {
    Outcome e = save(*lib);
    PBT_REQUIRE(e.ok(), "export-failed", e.str());
  } else if (before == 2) bridge::write_file(p, c.t.bytes(1 + c.t.below(3000)));
  else if (before == 3) bridge::write_file(p, "");
  // Times are set back, so that any change of the file shows.
  if (before) {
    struct timespec t[2] = {{1000000000, 5}, {1000000000, 7}};
    utimensat(AT_FDCWD, real.c_str(), t, 0);
  }
  State link = look(p), file = look(real);
  std::string list = listing(dir);
  c.describe(what + ", " + befores[before] + ", " + model::shape(good));
  c.label(kNames[kind] + std::string(kdb ? ", KDB" : ", KDBX"));
  c.label(befores[before]);
  auto worse = bridge::to_db(bad, !kdb);
  Outcome e = save(*worse);
  c.eval();
  if (e.ok()) { c.label(std::string("accepted: ") + kNames[kind]); return; }
  c.nontrivial(pbt::mix(pbt::hash_str(what + model::shape(good)), before));
  PBT_REQUIRE(e.kind != kUnknown, "error-kind", what << ": refused with " << e.str());
  State link2 = look(p), file2 = look(real);
  PBT_REQUIRE(link2.exists == link.exists, "created", what << ", " << befores[before] << ": after the refusal there is " << (link2.exists ? "a file" : "nothing"));
  PBT_REQUIRE(listing(dir) == list, "other-files", what << ", " << befores[before] << ": after the refusal there are other files");
  PBT_REQUIRE(file2.data == file.data, "content-lost", what << ", " << befores[before] << ": the refused export left " << file2.data.size() << " bytes of " << file.data.size());
  PBT_REQUIRE(file2.inode == file.inode && link2.inode == link.inode && file2.mode == file.mode, "replaced", what << ", " << befores[before] << ": the refused export replaced the file");
  PBT_REQUIRE(file2.mtime.tv_sec == file.mtime.tv_sec && file2.mtime.tv_nsec == file.mtime.tv_nsec, "written", what << ", " << befores[before] << ": the refused export wrote to the file");
  // What was refused does not get in the way of what is not.
  Outcome again = save(*lib);
  PBT_REQUIRE(again.ok(), "stuck", what << ": after the refusal another database cannot be exported: " << again.str());
  Imported i = kdb ? import_kdb(p, key) : import_kdbx(p, key);
  PBT_REQUIRE(i.ok(), "stuck", what << ": exported after a refusal, not importable: " << i.str());
  if (kdb) same_kdb(good, *i.db, "leftover", "exported after a refusal");
  else same_kdbx(good, *i.db, "leftover", "exported after a refusal");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C30";
  k.rule = "the export of a database that the format cannot hold was refused; distinct by what it cannot hold, what was at the destination and the shape of the database";
  k.subs = {{"refused", 4000, 100000, refused}};
  return pbt::run_check(k, argc, argv);
}
