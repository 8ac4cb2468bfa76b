// C29: the sample program shows what is in a database, or says why not.
#include <fcntl.h>
#include <cstring>
#include <filesystem>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "common.hh"
using namespace harness;
extern char** environ;

namespace {
struct Ran { bool exited = false; int code = -1; std::string out, err; };
Ran run_sample(Case& c, const std::vector<std::string>& args) {
  static const char* prog = getenv("SAMPLE_PROGRAM");
  if (!prog) pbt::fail("setup", "no sample program");
  std::string o = c.dir + "/.out", e = c.dir + "/.err";
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_addopen(&fa, 2, e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  std::vector<std::string> a = args;
  std::string name = "sample";
  std::vector<char*> av = {&name[0]};
  for (auto& s : a) av.push_back(const_cast<char*>(s.c_str()));
  av.push_back(nullptr);
  std::vector<std::string> env;
  for (char** p = environ; *p; ++p) if (strncmp(*p, "ASAN_OPTIONS=", 13)) env.push_back(*p);
  env.push_back("ASAN_OPTIONS=exitcode=99:detect_leaks=0");
  std::vector<char*> ev;
  for (auto& s : env) ev.push_back(&s[0]);
  ev.push_back(nullptr);
  pid_t pid;
  int rc = posix_spawn(&pid, prog, &fa, nullptr, av.data(), ev.data());
  posix_spawn_file_actions_destroy(&fa);
  if (rc) pbt::fail("setup", std::string("cannot start the sample program: ") + strerror(rc));
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Ran r;
  r.exited = WIFEXITED(st);
  r.code = r.exited ? WEXITSTATUS(st) : WTERMSIG(st);
  r.out = bridge::read_file(o);
  r.err = bridge::read_file(e);
  return r;
}
void failed(const Ran& r, const std::string& what) {
  PBT_REQUIRE(r.exited && r.code != 99, "crash", what << ": the program " << (r.exited ? "stopped with status " : "was killed by signal ") << r.code << ": " << pbt::quote(r.err, 600));
  PBT_REQUIRE(r.out.empty(), "output", what << ": there is output all the same: " << pbt::quote(r.out, 200));
  PBT_REQUIRE(!r.err.empty(), "no-message", what << ": nothing was said");
  PBT_REQUIRE(r.code != 0, "status", what << ": the program reported success");
}
model::Db make(Case& c, bool kdb, const std::string& tz) {
  gen::Opt o;
  o.kdb = kdb;
  o.tz = tz;
  o.max_groups = 8;
  o.max_entries = 6;
  o.crowd = c.t.chance(1, 8);
  model::Db m = make_db(c, o);
  m.rounds = 1 + m.rounds % 300;  // otherwise the seed in the header has no effect
  return m;
}
// An empty directory of the case.
std::string fresh(Case& c) {
  std::string d = c.dir + "/w";
  std::filesystem::remove_all(d);
  mkdir(d.c_str(), 0700);
  return d;
}
std::string some_name(Case& c, bool kdb) {
  static const std::vector<std::string> stems = {"a", "data base", "a.b", "x.kdb.kdbx2", ".hidden", "ä", "-", "a%s", "kdb", "--help"};
  static const std::vector<std::string> other = {".kdbx", "", ".KDB", ".kdb2", ".kdb ", ".kd", ".", ".db", ".kdb.", ".kdb.kdbx", "kdb"};
  std::string s = c.t.of(stems) + (kdb ? ".kdb" : c.t.of(other));
  // What decides is what is after the last point.
  if (!kdb && s.size() >= 4 && s.substr(s.size() - 4) == ".kdb") s += "x";
  return s;
}
}  // namespace

static void shown(Case& c) {
  begin(c);
  bool kdb = c.t.chance(1, 2);
  std::string tz = c.t.chance(1, 2) ? "UTC0" : gen::tz(c.t);
  pbt::set_tz(tz);
  model::Db m = make(c, kdb, tz);
  gen::Cred cr;
  cr.has_pw = true;
  cr.pw = "password";
  keepass::Key key("password");
  std::string dir = fresh(c);
  if (c.t.chance(1, 3)) { dir += c.t.chance(1, 2) ? "/d.kdb" : "/d.kdbx"; mkdir(dir.c_str(), 0700); }
  std::string path = dir + "/" + some_name(c, kdb);
  if (c.t.chance(1, 2)) {
    auto lib = bridge::to_db(m, !kdb);
    Outcome e = kdb ? export_kdb(path, *lib, key) : export_kdbx(path, *lib, key);
    if (!e.ok()) pbt::discard();
  } else {
    pbt::SplitMix r = c.t.sub();
    bridge::write_file(path, kdb ? ref::write_kdb(m, comps(cr), ref::gen_kdb_style(c.t), r) : ref::write_kdbx(m, comps(cr), ref::gen_kdbx_style(c.t), r));
  }
  Imported i = kdb ? import_kdb(path, key) : import_kdbx(path, key);
  PBT_REQUIRE(i.ok(), "import-failed", i.str());
  std::string want = i.db->root()->ToJson() + "\n";
  c.describe(path.substr(c.dir.size()) + ", " + model::shape(m));
  c.label(kdb ? "KDB" : "KDBX");
  if (rich(m)) c.nontrivial(want);
  Bytes before = bridge::read_file(path);
  Ran r = run_sample(c, {path});
  PBT_REQUIRE(r.exited && r.code == 0, "status", "the program " << (r.exited ? "stopped with status " : "was killed by signal ") << r.code << ": " << pbt::quote(r.err, 600));
  PBT_REQUIRE(r.out == want, "output", "the output is not the content of the database: " << pbt::first_diff(want, r.out));
  PBT_REQUIRE(r.err.empty(), "message", "it said " << pbt::quote(r.err, 200));
  PBT_REQUIRE(bridge::read_file(path) == before, "changed", "the file was changed");
}

static void refused(Case& c) {
  begin(c);
  pbt::set_tz("UTC0");
  bool kdb = c.t.chance(1, 2);
  int kind = int(c.t.below(8));
  static const char* const names[] = {"no arguments", "several arguments", "missing file", "directory", "other password", "other format", "damaged file", "empty file"};
  std::string path = fresh(c) + "/" + some_name(c, kdb);
  std::vector<std::string> args = {path};
  model::Db m = make(c, kdb, "UTC0");
  c.describe(std::string(names[kind]) + (kdb ? ", KDB" : ", KDBX"));
  c.label(std::string(names[kind]) + (kdb ? ", KDB" : ", KDBX"));
  gen::Cred cr;
  cr.has_pw = true;
  cr.pw = "password";
  if (kind == 4) {
    static const std::vector<std::string> other = {"", "Password", "password ", "passwor", "passwordp"};
    cr.pw = c.t.of(other);
  }
  keepass::Key key(cr.pw);
  if (kind == 2) {
  } else if (kind == 3) {
    mkdir(path.c_str(), 0700);
  } else {
    bool as_kdb = kdb != (kind == 5);
    // What KDBX holds does not fit KDB in general.
    if (kind == 5) m = make(c, as_kdb, "UTC0");
    auto lib = bridge::to_db(m, !as_kdb);
    Outcome e = as_kdb ? export_kdb(path, *lib, key) : export_kdbx(path, *lib, key);
    if (!e.ok()) pbt::discard();
    if (kind == 6) {
      Bytes f = bridge::read_file(path);
      // In the content, behind any header.
      size_t at = f.size() - 1 - c.t.below(std::min<size_t>(f.size(), 64));
      f[at] ^= char(1 << c.t.below(8));
      bridge::write_file(path, f);
    }
    if (kind == 7) bridge::write_file(path, "");
  }
  if (kind == 0) args.clear();
  if (kind == 1) for (size_t n = 1 + c.t.below(3); n--;) args.push_back(c.t.chance(1, 2) ? path : "x");
  c.nontrivial(pbt::mix(c.t.below(0), kind));
  Ran r = run_sample(c, args);
  failed(r, names[kind]);
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C29";
  k.rule = "the sample program was run on a database with groups and entries or other content, or was given something that is none; distinct by content";
  k.assumptions = {"the expected output is the library's JSON of the imported database, which C19 checks against the content"};
  k.subs = {{"shown", 400, 10000, shown}, {"refused", 300, 6000, refused}};
  return pbt::run_check(k, argc, argv);
}
