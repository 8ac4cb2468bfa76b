// Independent reader and writer of the KDBX 3.1 format (AES + Salsa20).
#pragma once
#include <functional>
#include <string>
#include <vector>

#include "model.hh"
#include "xml.hh"

namespace ref {

// Credentials: 32-byte component keys, empty when absent.
struct Components {
  Bytes pw;  // SHA-256 of the password
  Bytes kf;  // key-file key
};
Components components(bool has_pw, const Bytes& pw, bool has_kf, const Bytes& kf);
Bytes composite_kdbx(const Components& c);
Bytes composite_kdb(const Components& c);
Bytes transform(const Bytes& composite, const Bytes& seed, uint64_t rounds);

struct ProtectedItem {
  std::string path;   // e.g. KeePassFile/Root/Group/Entry/String/Value
  Bytes plain;
  Bytes encoded;      // base64 text as stored
  size_t offset = 0;  // position in the keystream
};

struct KdbxInfo {
  uint32_t version = 0;
  std::vector<std::pair<int, Bytes>> fields;  // header fields in order
  Bytes header;          // raw header
  Bytes start_bytes;
  Bytes payload;         // decrypted content after the start bytes, padding removed
  std::vector<size_t> block_sizes;
  Bytes xml;
  Node doc;
  std::vector<ProtectedItem> prot;
  model::Db db;
};
struct ReadOpt {
  XmlParseOpt xml;
};
// Throws Error when the file is not a valid KDBX 3.1 file for these components.
KdbxInfo read_kdbx(const Bytes& file, const Components& key, const ReadOpt& opt = {});

// --- writing ---------------------------------------------------------------
struct HeaderField { int id; Bytes data; };

struct KdbxStyle {
  XmlStyle xml;
  uint32_t version = 0x00030001;
  bool shuffle_header = false;
  bool comment_field = false;
  Bytes eoh_data;                       // data of the EndOfHeader field
  int gz_level = 6, gz_strategy = 0, gz_mem = 8, gz_wbits = 15;
  int gz_flushes = 0;                   // number of flush points
  std::vector<size_t> blocks;           // cyclic block sizes; empty: one block
  bool shuffle_simple = false;          // order of simple fields
  bool value_before_key = false;
  bool omit_defaults = false;           // leave out elements holding defaults
  bool bool_lower = false;              // true/false
  bool null_bool = false;               // "null" (or else nothing) for settings left to the parent group
  bool unknown = false;                 // unknown elements and attributes
  bool deleted_objects = false;
  bool inline_pool = false;             // (not used for shared binaries)
  int id_style = 0;                     // binary ids: 0 sequential, 1 sparse, 2 names
};
KdbxStyle plain_kdbx_style();
KdbxStyle gen_kdbx_style(pbt::Tape& t);

// Document tree of a model (protected texts still plain, marked `prot`).
// HeaderHash is filled in by write_kdbx_doc.
Node kdbx_doc(const model::Db& db, const KdbxStyle& st, pbt::SplitMix& rng);
// Obfuscates the marked nodes in document order.
void obfuscate(Node& doc, const Bytes& inner_key);

struct RawKdbx {
  std::vector<HeaderField> fields;  // without EndOfHeader
  Bytes eoh;
  uint32_t sig0 = 0x9aa2d903, sig1 = 0xb54bfb67, version = 0x00030001;
  Bytes start_bytes;
  Bytes master_seed, iv, tseed, iks;
  uint64_t rounds = 0;
  bool compress = false;
};
RawKdbx raw_header(const model::Db& db, const KdbxStyle& st, pbt::SplitMix& rng);
Bytes header_bytes(const RawKdbx& r);
// Frames payload in hashed blocks of the given sizes (cyclic).
Bytes hash_blocks(const Bytes& payload, const std::vector<size_t>& sizes);
Bytes unhash_blocks(const Bytes& framed, std::vector<size_t>* sizes = nullptr);  // strict; throws
// Encrypts start bytes + framed content and prepends the header.
Bytes seal_kdbx(const RawKdbx& r, const Bytes& framed, const Components& key);
Bytes final_key(const Bytes& master_seed, const Bytes& transformed);

// Everything together. `edit_doc` may change the document before obfuscation.
Bytes write_kdbx(const model::Db& db, const Components& key, const KdbxStyle& st, pbt::SplitMix rng,
                 const std::function<void(Node&)>& edit_doc = nullptr,
                 const std::function<void(Bytes&)>& edit_xml = nullptr);

std::string kdbx_time(int64_t t);       // 0 = never
int64_t parse_kdbx_time(const std::string& s);
model::Db doc_to_model(const Node& doc, std::vector<ProtectedItem>* prot, const Bytes& inner_key);
}  // namespace ref
