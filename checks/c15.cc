// C15: I/O failures are reported, never silent.
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include "common.hh"
using namespace harness;
using keepass::Key;

namespace {
struct World {
  bool kdb;
  model::Db db;
  gen::Cred cr;
  std::shared_ptr<keepass::Database> lib;
};
World make_world(Case& c) {
  World w;
  w.kdb = c.t.chance(1, 2);
  pbt::set_tz("UTC0");
  gen::Opt o;
  o.kdb = w.kdb;
  o.strict_xml = true;
  o.max_groups = 5;
  o.max_entries = 4;
  w.db = gen::db(c.t, o);
  w.db.rounds %= 3;
  // Files of less than one, of some and of many of the stream's buffers.
  static const std::vector<size_t> extra = {0, 0, 7000, 9000, 20000, 70000};
  size_t n = c.t.of(extra);
  if (n) {
    model::Entry e;
    e.uuid = gen::uuid_from(77, 7);
    std::string s;
    pbt::SplitMix r = c.t.sub();
    while (s.size() < n) s += char('a' + (r.next() >> 16) % 26);
    e.notes.v = s;
    if (w.kdb) { if (w.db.root.groups.empty()) { model::Group g; g.name = "g"; w.db.root.groups.push_back(g); } w.db.root.groups[0].entries.push_back(e); }
    else w.db.root.entries.push_back(e);
  }
  w.cr = simple_cred();
  w.lib = bridge::to_db(w.db);
  return w;
}
Outcome do_export(World& w, const std::string& p, const Key& k) { return w.kdb ? export_kdb(p, *w.lib, k) : export_kdbx(p, *w.lib, k); }
Imported do_import(World& w, const std::string& p, const Key& k) { return w.kdb ? import_kdb(p, k) : import_kdbx(p, k); }
// The file holds the complete database, by the independent reader.
std::string incomplete(World& w, const std::string& p) {
  try {
    Bytes f = bridge::read_file(p);
    if (w.kdb) {
      std::string a = model::dump(w.db, kKdbDump), b = model::dump(ref::read_kdb(f, comps(w.cr)).db, kKdbDump);
      return a == b ? "" : "its database differs: " + pbt::first_diff(a, b);
    }
    std::string a = model::dump(w.db, kKdbxDump), b = model::dump(ref::read_kdbx(f, comps(w.cr)).db, kKdbxDump);
    return a == b ? "" : "its database differs: " + pbt::first_diff(a, b);
  } catch (const std::exception& e) {
    return std::string("it cannot be read: ") + e.what();
  }
}
void same_db(World& w, const keepass::Database& got, const std::string& key, const std::string& what) {
  if (w.kdb) same_kdb(w.db, got, key, what); else same_kdbx(w.db, got, key, what);
}
std::string title(const World& w) { return w.kdb ? "KDB" : "KDBX"; }
// Bytes an export of this size writes / an import reads, without faults.
}  // namespace

// Write errors at every offset (a dense sample for larger files).
static void write_error(Case& c) {
  begin(c);
  World w = make_world(c);
  Key key = make_key(c, w.cr);
  std::string p = c.dir + "/out";
  FaultPlan none;
  arm(none);
  Outcome e = do_export(w, p, key);
  FaultStats st = disarm();
  PBT_REQUIRE(e.ok(), "export-failed", "export failed without faults: " << e.str());
  size_t size = bridge::read_file(p).size();
  PBT_REQUIRE(st.write_bytes == size, "harness", "interposed writes saw " << st.write_bytes << " of " << size << " bytes");
  std::string inc = incomplete(w, p);
  PBT_REQUIRE(inc.empty(), "incomplete", title(w) << " export returned normally, but the file is not the database: " << inc);
  std::vector<size_t> at;
  size_t all = c.thorough ? 4000 : 150;
  if (size <= all) for (size_t k = 0; k < size; ++k) at.push_back(k);
  else {
    for (size_t k : {size_t(0), size_t(1), size - 1, size - 2, size - 16, size - 17, size_t(124), size_t(8190), size_t(8191), size_t(8192)}) if (k < size) at.push_back(k);
    for (size_t i = 0; i < all / 4; ++i) at.push_back(c.t.below(size));
  }
  c.describe(title(w) + " file of " + std::to_string(size) + " bytes, " + std::to_string(at.size()) + " failing offsets");
  c.label("format:" + title(w));
  c.label(size < 8191 ? "size:<buffer" : size < 17000 ? "size:1-2 buffers" : "size:many buffers");
  static const std::vector<int> errs = {ENOSPC, EIO, EFBIG, EDQUOT};
  for (size_t k : at) {
    FaultPlan f;
    f.write_fail_at = int64_t(k);
    f.err = c.t.of(errs);
    f.one_shot = c.t.chance(1, 3);
    if (c.t.chance(1, 4)) f.max_chunk = 1 + c.t.below(5000);
    arm(f);
    Outcome x = do_export(w, p, key);
    st = disarm();
    c.eval();
    if (st.injected) c.nontrivial(pbt::mix(pbt::mix(k, size), f.err * 2 + f.one_shot));
    PBT_REQUIRE(x.kind != kUnknown, "not-std-exception", "export threw something that is not a standard exception");
    if (x.ok()) {
      PBT_REQUIRE(!st.injected || incomplete(w, p).empty(), "write-error-silent", title(w) << " export returned normally although writing failed at byte " << k << " of " << size << (f.one_shot ? " (once)" : ""));
      inc = incomplete(w, p);
      PBT_REQUIRE(inc.empty(), "incomplete", title(w) << " export returned normally, but the file is not the database: " << inc);
    }
  }
}

// Failures of the real system: a full device, a file size limit, failing close,
// unusable destinations.
static void system_error(Case& c) {
  begin(c);
  World w = make_world(c);
  Key key = make_key(c, w.cr);
  std::string p = c.dir + "/out";
  Outcome e = do_export(w, p, key);
  PBT_REQUIRE(e.ok(), "export-failed", "export failed without faults: " << e.str());
  size_t size = bridge::read_file(p).size();
  std::string what;
  bool must_fail = true, complete_ok = false;
  Outcome x;
  switch (c.t.below(8)) {
    case 0: case 1: {
      what = "/dev/full";
      x = do_export(w, "/dev/full", key);
      break;
    }
    case 2: case 3: {
      size_t lim = c.t.chance(1, 8) ? size + c.t.below(3) : c.t.below(size);
      what = "file size limit " + std::to_string(lim) + " of " + std::to_string(size);
      must_fail = lim < size;
      signal(SIGXFSZ, SIG_IGN);
      rlimit old, now;
      getrlimit(RLIMIT_FSIZE, &old);
      now = old;
      now.rlim_cur = lim;
      setrlimit(RLIMIT_FSIZE, &now);
      x = do_export(w, p, key);
      setrlimit(RLIMIT_FSIZE, &old);
      complete_ok = true;
      break;
    }
    case 4: {
      what = "error when closing";
      FaultPlan f;
      f.close_fails = true;
      f.err = c.t.chance(1, 2) ? EIO : ENOSPC;
      arm(f);
      x = do_export(w, p, key);
      FaultStats st = disarm();
      must_fail = st.injected > 0;
      break;
    }
    case 5: what = "destination is a directory"; mkdir((c.dir + "/d").c_str(), 0700); x = do_export(w, c.dir + "/d", key); break;
    case 6: what = "no such directory"; x = do_export(w, c.dir + "/no/such/file", key); break;
    default: {
      what = "dangling link into nowhere";
      std::string l = c.dir + "/l" + std::to_string(c.index);
      if (symlink((c.dir + "/no/such/file").c_str(), l.c_str()) != 0) pbt::discard();
      x = do_export(w, l, key);
      unlink(l.c_str());
      break;
    }
  }
  c.describe(title(w) + " " + what);
  c.label("fault:" + what.substr(0, what.find_first_of("0123456789")));
  c.nontrivial(what + std::to_string(size));
  PBT_REQUIRE(x.kind != kUnknown, "not-std-exception", what << ": not a standard exception");
  if (must_fail) PBT_REQUIRE(!x.ok(), "write-error-silent", title(w) << " export of " << size << " bytes returned normally: " << what);
  else if (x.ok() && complete_ok) { std::string inc = incomplete(w, p); PBT_REQUIRE(inc.empty(), "incomplete", what << ": export returned normally, but " << inc); }
}

// Short and interrupted calls change nothing; neither does what the destination
// held before.
static void permitted(Case& c) {
  begin(c);
  World w = make_world(c);
  Key key = make_key(c, w.cr);
  std::string p = c.dir + "/out", log;
  if (c.t.chance(1, 3)) { bridge::write_file(p, c.t.bytes(c.t.below(100000))); log += " over an existing file"; }
  FaultPlan f;
  if (c.t.chance(3, 4)) f.max_chunk = 1 + c.t.below(c.t.chance(1, 2) ? 16 : 9000);
  if (c.t.chance(2, 3)) f.eintr_every = 2 + unsigned(c.t.below(6));
  arm(f);
  Outcome e = do_export(w, p, key);
  FaultStats a = disarm();
  PBT_REQUIRE(e.ok(), "permitted-export-failed", title(w) << " export with chunks of " << f.max_chunk << " and an interrupted call of every " << f.eintr_every << log << " failed: " << e.str());
  std::string inc = incomplete(w, p);
  PBT_REQUIRE(inc.empty(), "incomplete", title(w) << " export with chunks of " << f.max_chunk << " and an interrupted call of every " << f.eintr_every << log << ": " << inc);
  arm(f);
  Imported i = do_import(w, p, key);
  FaultStats b = disarm();
  PBT_REQUIRE(i.ok(), "permitted-import-failed", title(w) << " import with chunks of " << f.max_chunk << " and an interrupted call of every " << f.eintr_every << " failed: " << i.str());
  same_db(w, *i.db, "permitted-import", "database imported with short reads");
  c.describe(title(w) + " chunks " + std::to_string(f.max_chunk) + " interrupts every " + std::to_string(f.eintr_every) + log);
  if (a.shorts + b.shorts) c.label("short calls");
  if (a.eintrs + b.eintrs) c.label("interrupted calls");
  if (a.shorts + b.shorts + a.eintrs + b.eintrs) c.nontrivial(model::dump(w.db) + std::to_string(f.max_chunk * 100 + f.eintr_every));
  // Key files as well.
  if (c.t.chance(1, 3)) {
    Bytes kf = c.t.bytes(32);
    std::string kp = c.dir + "/key";
    bridge::write_file(kp, gen::keyfile_text(c.t, kf, c.t.chance(1, 2)));
    Key k1("x"), k2("x");
    arm(f);
    Outcome o1 = guarded([&] { k1.SetKeyFile(kp); });
    disarm();
    Outcome o2 = guarded([&] { k2.SetKeyFile(kp); });
    PBT_REQUIRE(o1.ok() && o2.ok(), "permitted-key-failed", "key file import with short reads failed: " << o1.str());
    std::array<uint8_t, 32> z{};
    PBT_REQUIRE(k1.Transform(z, 1, Key::SubKeyResolution::kHashSubKeys) == k2.Transform(z, 1, Key::SubKeyResolution::kHashSubKeys), "permitted-key", "short reads change the key");
    c.label("key file");
  }
}

static void read_error(Case& c) {
  begin(c);
  World w = make_world(c);
  Key key = make_key(c, w.cr);
  std::string p = c.dir + "/in";
  bridge::write_file(p, w.kdb ? ref::write_kdb(w.db, comps(w.cr), ref::KdbStyle(), c.t.sub()) : ref::write_kdbx(w.db, comps(w.cr), ref::plain_kdbx_style(), c.t.sub()));
  FaultPlan none;
  arm(none);
  Imported i = do_import(w, p, key);
  FaultStats st = disarm();
  PBT_REQUIRE(i.ok(), "import-failed", "import failed without faults: " << i.str());
  size_t total = st.read_bytes, seeks = st.seeks;
  PBT_REQUIRE(total >= bridge::read_file(p).size(), "harness", "interposed reads saw " << total << " bytes");
  std::vector<int64_t> at;
  size_t all = c.thorough ? 3000 : 120;
  if (total <= all) for (size_t k = 0; k < total; ++k) at.push_back(int64_t(k));
  else {
    for (size_t k : {size_t(0), size_t(1), size_t(12), size_t(123), size_t(124), total - 1, total - 16}) if (k < total) at.push_back(int64_t(k));
    for (size_t n = 0; n < all / 4; ++n) at.push_back(int64_t(c.t.below(total)));
  }
  for (size_t k = 0; k < seeks && k < 12; ++k) at.push_back(-1 - int64_t(k));
  c.describe(title(w) + " file, " + std::to_string(total) + " bytes read, " + std::to_string(at.size()) + " faults");
  c.label("format:" + title(w));
  for (int64_t k : at) {
    FaultPlan f;
    if (k >= 0) f.read_fail_at = k; else f.seek_fail_at = -1 - k;
    f.one_shot = c.t.chance(1, 3);
    if (k >= 0 && c.t.chance(1, 4)) f.max_chunk = 1 + c.t.below(5000);
    arm(f);
    Imported x = do_import(w, p, key);
    st = disarm();
    c.eval();
    if (st.injected) c.nontrivial(pbt::mix(pbt::mix(uint64_t(k), total), f.one_shot));
    c.label(k >= 0 ? "fault:read" : "fault:seek");
    std::string what = (k >= 0 ? "reading failed at byte " + std::to_string(k) + " of " + std::to_string(total) : "seek " + std::to_string(-1 - k) + " failed") + (f.one_shot ? " (once)" : "");
    PBT_REQUIRE(x.kind != kUnknown, "not-std-exception", what << ": not a standard exception");
    if (!x.ok()) continue;
    // Data that arrived after all must be right; with reads failing for good
    // it cannot have.
    same_db(w, *x.db, "read-error-wrong", title(w) + " import although " + what);
    PBT_REQUIRE(f.one_shot || k < 0 || !st.injected, "read-error-silent", title(w) << " import returned normally although " << what);
  }
}

static void key_file_error(Case& c) {
  begin(c);
  Bytes kf = c.t.bytes(32);
  bool hex = c.t.chance(1, 2);
  std::string kp = c.dir + "/key";
  std::string text = gen::keyfile_text(c.t, kf, hex);
  bridge::write_file(kp, text);
  Key right("x");
  FaultPlan none;
  arm(none);
  right.SetKeyFile(kp);
  FaultStats st = disarm();
  size_t total = st.read_bytes, seeks = st.seeks;
  std::array<uint8_t, 32> z{};
  auto value = [&](const Key& k) { return k.Transform(z, 1, Key::SubKeyResolution::kHashSubKeys); };
  Key before("x");
  for (int64_t k = -int64_t(std::min<size_t>(seeks, 8)); k < int64_t(std::min<size_t>(total, 400)); ++k) {
    for (int once = 0; once < 2; ++once) {
      FaultPlan f;
      f.one_shot = once;
      if (k >= 0) f.read_fail_at = k; else f.seek_fail_at = -1 - k;
      Key y("x");
      arm(f);
      Outcome o = guarded([&] { y.SetKeyFile(kp); });
      st = disarm();
      c.eval();
      std::string what = std::string(hex ? "hex" : "XML") + " key file: " + (k >= 0 ? "reading failed at byte " + std::to_string(k) : "seek " + std::to_string(-1 - k) + " failed") + (once ? " (once)" : "");
      PBT_REQUIRE(o.kind != kUnknown, "not-std-exception", what);
      if (o.ok()) {
        PBT_REQUIRE(value(y) == value(right), "key-read-error-wrong", what << ": another key results");
        PBT_REQUIRE(once || k < 0 || !st.injected, "key-read-error-silent", what << ": no error");
      } else {
        PBT_REQUIRE(value(y) == value(before), "key-changed", what << ": the key changed although an error was reported");
      }
    }
  }
  c.describe(std::string(hex ? "hex" : "XML") + " key file of " + std::to_string(text.size()) + " bytes, every offset");
  c.nontrivial(text);
}

static void missing(Case& c) {
  begin(c);
  Key key("x");
  size_t how = c.t.below(6), who = c.t.below(3);
  std::string p, what;
  switch (how) {
    case 0: p = c.dir + "/missing"; what = "missing file"; break;
    case 1: p = c.dir + "/no/such/dir"; what = "missing directory"; break;
    case 2: p = c.dir; what = "directory"; break;
    case 3: p = ""; what = "empty path"; break;
    case 4: p = c.dir + "/empty"; bridge::write_file(p, ""); what = "empty file"; break;
    default: p = c.dir + "/f/x"; bridge::write_file(c.dir + "/f", "x"); what = "file used as a directory"; break;
  }
  Outcome o;
  bool null = false;
  switch (who) {
    case 0: o = import_kdbx(p, key); break;
    case 1: o = import_kdb(p, key); break;
    default: o = guarded([&] { key.SetKeyFile(p); }); break;
  }
  (void)null;
  static const char* names[] = {"KDBX import", "KDB import", "key file import"};
  c.describe(std::string(names[who]) + " of " + what);
  c.nontrivial(how * 3 + who);
  PBT_REQUIRE(!o.ok(), "missing-silent", names[who] << " of " << what << " returned normally");
  PBT_REQUIRE(o.kind != kUnknown, "not-std-exception", names[who] << " of " << what);
  if (how <= 1) PBT_REQUIRE(o.kind == kNotFound || o.kind == kIo || o.kind == kStdOther, "missing-kind", names[who] << " of " << what << " reports " << o.str());
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C15";
  k.level = "fault_enumeration";
  k.rule = "distinct (file, fault position, fault kind) in which the fault was delivered, or short/interrupted calls happened";
  k.assumptions = {"faults are delivered at the read, write, writev, lseek and fclose calls libstdc++ makes, and by the kernel through /dev/full and RLIMIT_FSIZE", "whether data reached stable storage is not observable here: the library does not sync"};
  k.subs = {{"write-error", 400, 4000, write_error, false, 300}, {"system-error", 1200, 30000, system_error}, {"permitted", 1500, 40000, permitted}, {"read-error", 400, 4000, read_error, false, 300}, {"key-file-error", 60, 1500, key_file_error}, {"missing", 60, 200, missing}};
  return pbt::run_check(k, argc, argv);
}
