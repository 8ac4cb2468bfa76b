// Generators of database models, texts, keys and time zones.
#pragma once
#include <string>
#include <vector>

#include "../pbt/engine.hh"
#include "../ref/model.hh"

namespace gen {
using pbt::Tape;

struct Opt {
  bool kdb = false;          // restrict to what KDB can represent
  bool strict_xml = false;   // unprotected text is legal XML 1.0 text
  size_t max_groups = 12;
  size_t max_entries = 10;
  size_t big = 0;            // upper bound of occasional large texts/binaries
  std::string tz = "UTC0";   // zone in effect (KDB times must be unambiguous)
  bool history = true;
  bool detached_refs = true;
  bool xml_text = false;     // with kdb: texts that KDBX can carry as well
  bool crowd = false;        // one thing is numerous or large (see crowd)
  bool mass = false;         // with crowd: up to tens of thousands
  bool edge_ws = false;      // unprotected text may begin or end with white space
};

enum class Text { kXml, kStrictXml, kAny, kNulFree };

size_t size(Tape& t, size_t big);                // boundary-biased length
std::string text(Tape& t, Text kind, size_t big);
std::string ident(Tape& t);                      // short, simple
uint32_t u32(Tape& t);
int64_t i64(Tape& t);
int64_t time_kdbx(Tape& t);
int64_t time_kdb(Tape& t);                       // needs TZ already set
std::string tz(Tape& t);

model::Db db(Tape& t, const Opt& o);
// Makes one thing numerous (groups, levels, entries, fields, attachments,
// history, icons, binaries, ...) or large (seeds, rounds); says which.
std::string crowd(Tape& t, const Opt& o, model::Db& db);
model::Entry entry(Tape& t, const Opt& o, const model::Meta& meta, uint64_t uuid_seed, int depth = 0);
model::Group tree(Tape& t, const Opt& o, const model::Meta& meta);
std::string uuid_from(uint64_t seed, uint64_t n);

struct Cred {
  bool has_pw = false;
  std::string pw;
  bool has_kf = false;
  std::string kf;            // 32 key bytes
  bool kf_hex = false;       // file form
  std::string describe() const;
};
Cred cred(Tape& t);
std::string keyfile_text(Tape& t, const std::string& key32, bool hex);

extern const int64_t kNeverTime;  // 2999-12-28T22:59:59Z
}  // namespace gen
