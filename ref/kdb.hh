// Independent reader and writer of the KeePass 1.x (KDB) format.
#pragma once
#include <functional>
#include <string>
#include <vector>

#include "kdbx.hh"
#include "model.hh"

namespace ref {

Bytes kdb_time(int64_t t);            // local time; 0 = never; uses libc localtime
Civil kdb_unpack(const Bytes& five);
Bytes kdb_pack(const Civil& c);
extern const Bytes kKdbNever;
int64_t kdb_time_parse(const Bytes& five);  // throws on impossible dates

struct KdbField { uint32_t type; Bytes data; };
struct KdbRecord { std::vector<KdbField> fields; };  // without the end field

struct KdbRaw {
  uint32_t sig0 = 0x9aa2d903, sig1 = 0xb54bfb65, flags = 2, version = 0x00030002;
  Bytes master_seed, iv, tseed;
  uint32_t rounds = 0;
  int cipher = 0;
  uint32_t num_groups = 0, num_entries = 0;
  std::vector<KdbRecord> groups, entries;
};
struct KdbInfo : KdbRaw {
  Bytes content;
  model::Db db;
};
KdbInfo read_kdb(const Bytes& file, const Components& key);

struct KdbStyle {
  uint32_t version = 0x00030002;
  bool sha2_flag = true;
  bool shuffle_fields = false;
  bool comments = false;        // type-0 fields
  bool random_ids = false;
  int alike_bits = 0;           // ids that agree in all but some bits: 0 no, 1 low 16, 2 high 16, 3 low 8, 4 high 8
  bool shuffle_entries = false; // interleave entries of different groups
  bool omit_defaults = false;
  bool keepass_attach = true;   // empty attachment fields when there is none
};
KdbStyle gen_kdb_style(pbt::Tape& t);
KdbRaw kdb_records(const model::Db& db, const KdbStyle& st, pbt::SplitMix rng);
Bytes kdb_content(const KdbRaw& r);
Bytes seal_kdb(const KdbRaw& r, const Bytes& content, const Components& key);  // hash computed
Bytes seal_kdb_hash(const KdbRaw& r, const Bytes& content, const Bytes& hash, const Components& key);
Bytes write_kdb(const model::Db& db, const Components& key, const KdbStyle& st, pbt::SplitMix rng);
}  // namespace ref
