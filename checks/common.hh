// Shared harness: credentials, classified imports/exports, interposition.
#pragma once
#include <memory>
#include <string>

#include "../gen/bridge.hh"
#include "../gen/gen.hh"
#include "../pbt/engine.hh"
#include "../ref/crypto.hh"
#include "../ref/kdb.hh"
#include "../ref/kdbx.hh"
#include "../ref/model.hh"

namespace harness {
using pbt::Bytes;
using pbt::Case;

// ---- interposition (interpose.cc) -----------------------------------------
// std::random_device is deterministic within a case unless real randomness is
// asked for, so that a case is a pure function of its tape.
void seed_random(uint64_t s);
// With bits > 0 every draw has only that many bits of randomness.
void real_random(bool on, unsigned bits = 0);
uint64_t random_calls();

// Faults on read/write/writev/lseek to file descriptors >= 3 once armed.
struct FaultPlan {
  bool active = false;
  int64_t read_fail_at = -1;    // byte offset of reads at which errno is returned
  int64_t write_fail_at = -1;   // byte offset of writes
  int err = 5;                  // EIO
  bool one_shot = false;        // only the first failing call fails
  size_t max_chunk = 0;         // short reads/writes of at most this size
  unsigned eintr_every = 0;     // every nth call fails with EINTR
  int64_t seek_fail_at = -1;    // index of the first seek that fails
  bool close_fails = false;     // closing reports an error
};
void arm(const FaultPlan& p);
struct FaultStats { uint64_t calls = 0, injected = 0, read_bytes = 0, write_bytes = 0, shorts = 0, eintrs = 0, seeks = 0, closes = 0; };
FaultStats disarm();

// ---- outcomes --------------------------------------------------------------
enum Kind { kOk, kFormat, kPassword, kIo, kNotFound, kInternal, kStdOther, kUnknown };
const char* kind_name(Kind k);
struct Outcome {
  Kind kind = kOk;
  std::string what;
  bool ok() const { return kind == kOk; }
  std::string str() const { return std::string(kind_name(kind)) + (what.empty() ? "" : "(" + what + ")"); }
};
Outcome guarded(const std::function<void()>& f);

struct Imported : Outcome { std::shared_ptr<keepass::Database> db; };
Imported import_kdbx(const std::string& path, const keepass::Key& key, keepass::KdbxFile* file = nullptr);
Imported import_kdb(const std::string& path, const keepass::Key& key, keepass::KdbFile* file = nullptr);
Outcome export_kdbx(const std::string& path, const keepass::Database& db, const keepass::Key& key, keepass::KdbxFile* file = nullptr);
Outcome export_kdb(const std::string& path, const keepass::Database& db, const keepass::Key& key, keepass::KdbFile* file = nullptr);

// ---- credentials -----------------------------------------------------------
keepass::Key make_key(Case& c, const gen::Cred& cr);            // plain XML/hex form
ref::Components comps(const gen::Cred& cr);
gen::Cred simple_cred();

// ---- model helpers ---------------------------------------------------------
// Pairs (dump of expectation, dump of observation) compared with a message
// naming the first differing line.
void same(const std::string& expect, const std::string& got, const std::string& key, const std::string& what);
void same_kdbx(const model::Db& expect, const keepass::Database& got, const std::string& key, const std::string& what);
void same_kdb(const model::Db& expect, const keepass::Database& got, const std::string& key, const std::string& what);
extern const model::DumpOpt kKdbDump;
extern const model::DumpOpt kKdbxDump;

// Uses everything a consumer would: snapshot, JSON of all, equality with self.
void touch(keepass::Database& db);

// Non-trivial database: at least one group below the root and one entry, or a
// binary, icon or history.
bool rich(const model::Db& db);
void label_db(Case& c, const model::Db& db);
// Sometimes marks protected stored binaries as to be compressed as well. The
// format stores them protected and not compressed.
void ask_compression(Case& c, keepass::Database& db);
// A generated database; with o.crowd something in it is numerous.
model::Db make_db(Case& c, const gen::Opt& o);

// Key-transformation rounds a (damaged) header asks for, 0 when unreadable.
uint64_t rounds_of(bool kdb, const Bytes& file);

// Standard start of a case (seeds the interposed randomness from the tape).
void begin(Case& c);
std::string class_of_diff(const std::string& a, const std::string& b);
}  // namespace harness
