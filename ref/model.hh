// Plain-data model of a KeePass database, independent of the library.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace model {
using Bytes = std::string;

struct PStr {
  std::string v;
  bool prot = false;
};

struct Icon { Bytes uuid; Bytes data; };
struct Binary { Bytes data; bool prot = false; bool compress = false; };

struct Attachment {
  std::string name;
  int pool = -1;          // index into Meta::binaries, or
  bool has = true;        // (has == false: no value at all)
  Binary inl;             // an inline value
};

struct Assoc { std::string window, sequence; };

enum { kCreate, kModify, kAccess, kExpire, kMove };

struct Entry {
  Bytes uuid = Bytes(16, '\0');
  uint32_t icon = 0;
  int custom_icon = -1;
  PStr title, url, username, password, notes;
  std::string override_url, tags, bg, fg;
  int64_t times[5] = {0, 0, 0, 0, 0};
  bool expires = false;
  uint32_t usage = 0;
  bool at_enabled = false;
  uint32_t at_obf = 0;
  std::string at_seq;
  std::vector<Assoc> assoc;
  std::vector<Attachment> attachments;
  std::vector<Entry> history;
  std::vector<std::pair<std::string, PStr>> custom;
};

struct Group {
  Bytes uuid = Bytes(16, '\0');
  uint32_t icon = 0;
  int custom_icon = -1;
  std::string name, notes;
  int64_t times[5] = {0, 0, 0, 0, 0};
  uint32_t flags = 0;
  bool expires = false, expanded = false;
  uint32_t usage = 0;
  std::string at_seq;
  int autotype = 0, search = 0;  // 0 off, 1 on, 2 as the parent group
  int last_visible = -1;  // index into entries
  std::vector<Group> groups;
  std::vector<Entry> entries;
};

// Reference to a group: none, a tree node (preorder index, root = 0), or a
// UUID that no tree node has.
struct GRef {
  enum Kind { kNone, kTree, kDetached } kind = kNone;
  int index = -1;
  Bytes uuid;
};

struct TStr { std::string v; int64_t t = 0; };

struct Meta {
  std::string generator;
  TStr name, desc, user;
  uint32_t hist_days = 365;
  std::string color;
  int64_t key_changed = 0, key_rec = -1, key_force = -1;
  bool mp[5] = {false, false, true, false, false};
  GRef recycle_bin, templates, last_selected, last_visible;
  int64_t recycle_changed = 0, templates_changed = 0;
  int32_t hist_items = -1;
  int64_t hist_size = -1;
  std::vector<Icon> icons;
  std::vector<Binary> binaries;
  std::vector<std::pair<std::string, std::string>> custom;
};

struct Db {
  int cipher = 0;  // 0 AES, 1 Twofish
  Bytes master_seed = Bytes(32, '\0');
  Bytes iv = Bytes(16, '\0');
  Bytes tseed = Bytes(32, '\0');
  Bytes iks = Bytes(32, '\0');
  uint64_t rounds = 1;
  bool compress = false;
  Meta meta;
  Group root;
};

struct DumpOpt {
  bool kdb = false;       // only what KDB stores
  bool inline_compress = false;
};

// Canonical text: two databases are equal in every stored respect iff their
// dumps are equal.
std::string dump(const Db& db, const DumpOpt& opt = {});
std::string dump_group(const Group& g, const DumpOpt& opt = {});
std::string dump_entry(const Entry& e, const DumpOpt& opt = {});

size_t count_groups(const Group& g);
size_t count_entries(const Group& g);
std::vector<const Group*> preorder(const Group& g);
std::vector<Group*> preorder(Group& g);
void all_entries(const Group& g, std::vector<const Entry*>& out, bool history);
// Applies f to every text that a KDBX file stores unprotected.
void map_plain(Db& db, const std::function<void(std::string&)>& f);
std::string shape(const Db& db);  // short human-readable summary
}  // namespace model
