// C26: the object model keeps exactly what it is given.
// Histories of settings, additions, copies, moves and releases over a world of
// objects of every kind; a shadow of each object says what it must hold.
#include <ctime>
#include <iterator>

#include "common.hh"
#include "security.hh"
#include "temporal.hh"
#include "util.hh"

using namespace harness;
namespace kp = keepass;

namespace {

using Shadow = std::map<std::string, std::string>;  // attribute -> value as text
using PS = kp::protect<std::string>;
using TS = kp::temporal<std::string>;

std::string r(const std::string& s) { return std::to_string(s.size()) + ":" + s; }
std::string r(const PS& p) { return (p.is_protected() ? "P" : "-") + r(p.value()); }
std::string r(const TS& t) { return std::to_string(int64_t(t.time())) + "@" + r(t.value()); }
std::string r(bool b) { return b ? "true" : "false"; }
template <class T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, int>::type = 0>
std::string r(T v) { return std::to_string(v); }
template <size_t N> std::string r(const std::array<uint8_t, N>& a) { return r(bridge::str(a)); }
std::string r(const std::vector<uint8_t>& a) { return r(bridge::str(a)); }
template <class T> std::string r(const std::shared_ptr<T>& p) {
  std::ostringstream o;
  o << static_cast<const void*>(p.get());
  return p ? o.str() : "none";
}
template <class T> std::string r(const std::weak_ptr<T>& p) { return r(p.lock()); }

struct World;

// ---- values ----------------------------------------------------------------
std::string text(Case& c) {
  static const std::vector<std::string> v = {"", "a", "b", "Meta-Info", "$", "SYSTEM", "bin-stream"};
  return c.t.chance(1, 3) ? c.t.of(v) : gen::text(c.t, gen::Text::kAny, c.t.chance(1, 40) ? 70000 : 40);
}
PS prot(Case& c) { std::string s = text(c); return PS(s, c.t.chance(1, 2)); }
int64_t some_time(Case& c) { return c.t.chance(1, 4) ? 0 : c.t.chance(1, 8) ? gen::i64(c.t) : gen::time_kdbx(c.t); }
TS temp(Case& c) { std::string s = text(c); return TS(s, some_time(c)); }

// ---- kinds -----------------------------------------------------------------
enum KindId { kEntry, kGroup, kMeta, kDb, kAttachment, kBinary, kIcon, kProt, kTemp, kEField, kMField, kAuto, kMemProt, kAssoc, kKinds };
const char* const kKindNames[] = {"entry", "group", "metadata", "database", "attachment", "binary", "icon", "protected text", "timed text", "custom field", "metadata field", "auto-type", "memory protection", "association"};

struct Obj {
  int kind;
  size_t id;
  std::shared_ptr<void> p;      // the world's own reference; null once released
  std::weak_ptr<void> w;
  const void* addr;
  Shadow s;
  // Children this object must keep alive, by list or attribute.
  std::map<std::string, std::vector<size_t>> owns;
  std::map<std::string, size_t> weak;  // attribute -> object it refers to weakly
};

struct World {
  Case& c;
  std::vector<std::shared_ptr<Obj>> objs;
  std::set<std::string> uuids;
  std::string log;
  size_t ops = 0, copies = 0, moves = 0;

  explicit World(Case& cc) : c(cc) {}
  Obj& at(size_t id) { return *objs[id]; }
  // A held object of a kind, created before 'before', or none.
  int pick(int kind, size_t before = size_t(-1)) {
    std::vector<size_t> v;
    for (auto& o : objs)
      if (o->p && o->kind == kind && o->id < before) v.push_back(o->id);
    return v.empty() ? -1 : int(v[c.t.below(v.size())]);
  }
  template <class T> std::shared_ptr<T> ptr(int id) { return id < 0 ? nullptr : std::static_pointer_cast<T>(at(size_t(id)).p); }
};

// An attribute: how to change it (updating the shadow) and how to read it.
template <class T> struct Attr {
  std::string name;
  std::function<void(World&, Obj&, T&)> set;
  std::function<std::string(T&)> get;
  std::function<void(T&)> self;  // set it to what it is, through its own getter
};

template <class T> using Attrs = std::vector<Attr<T>>;

#define VAL(T, n, gen_, getter, setter)                                              \
  Attr<T>{n, [](World& w, Obj& o, T& x) { Case& c = w.c; (void)c; auto v = gen_; o.s[n] = r(v); x.setter(v); }, \
          [](T& x) { return r(x.getter()); }, [](T& x) { x.setter(x.getter()); }}
// A reference to another object (owned, or weak).
#define REF(T, n, U, kind_, getter, setter, owned)                                   \
  Attr<T>{n, [](World& w, Obj& o, T& x) {                                            \
            int k = w.c.t.chance(1, 5) ? -1 : w.pick(kind_); \
            std::shared_ptr<U> p = w.ptr<U>(k);                                      \
            x.setter(p);                                                             \
            o.s[n] = r(p);                                                           \
            if (owned) { o.owns[n].clear(); if (k >= 0) o.owns[n] = {size_t(k)}; }   \
            else { o.weak.erase(n); if (k >= 0) o.weak[n] = size_t(k); }             \
          },                                                                         \
          [](T& x) { return r(x.getter()); }, [](T& x) { x.setter(x.getter()); }}
// A list of other objects.
#define LIST(T, n, U, kind_, getter, adder)                                          \
  Attr<T>{n, [](World& w, Obj& o, T& x) {                                            \
            int k = w.pick(kind_, (kind_) == o.kind ? o.id : size_t(-1));            \
            if (k < 0 || o.owns[n].size() > 30) return;                              \
            x.adder(w.ptr<U>(k));                                                    \
            o.owns[n].push_back(size_t(k));                                          \
            o.s[n] += r(w.ptr<U>(k)) + ";";                                          \
          },                                                                         \
          [](T& x) { std::string s; for (auto& i : x.getter()) s += r(i) + ";"; return s; }, nullptr}

// A setting that may be left to the parent.
#define TRI(T, n, getter, setter, left, leave)                                       \
  Attr<T>{n, [](World& w, Obj& o, T& x) {                                            \
            uint64_t k = w.c.t.below(3);                                             \
            if (k == 2) x.leave(); else x.setter(k == 1);                            \
            o.s[n] = k == 2 ? "left" : r(k == 1);                                    \
          },                                                                         \
          [](T& x) { return x.left() ? x.getter() ? std::string("left and set") : std::string("left") : r(x.getter()); }, \
          [](T& x) { if (x.left()) x.leave(); else x.setter(x.getter()); }}

#define ARR(N) bridge::arr<N>(c.t.bytes(N))

const Attrs<kp::Entry>& attrs(kp::Entry*) {
  typedef kp::Entry T;
  static const Attrs<T> a = {
      VAL(T, "uuid", ARR(16), uuid, set_uuid), VAL(T, "icon", gen::u32(c.t), icon, set_icon),
      REF(T, "custom icon", kp::Icon, kIcon, custom_icon, set_custom_icon, false),
      VAL(T, "title", prot(c), title, set_title), VAL(T, "url", prot(c), url, set_url),
      VAL(T, "override url", text(c), override_url, set_override_url),
      VAL(T, "username", prot(c), username, set_username), VAL(T, "password", prot(c), password, set_password),
      VAL(T, "notes", prot(c), notes, set_notes), VAL(T, "tags", text(c), tags, set_tags),
      VAL(T, "creation time", some_time(c), creation_time, set_creation_time),
      VAL(T, "modification time", some_time(c), modification_time, set_modification_time),
      VAL(T, "access time", some_time(c), access_time, set_access_time),
      VAL(T, "expiry time", some_time(c), expiry_time, set_expiry_time),
      VAL(T, "move time", some_time(c), move_time, set_move_time),
      VAL(T, "expires", c.t.chance(1, 2), expires, set_expires), VAL(T, "usage", gen::u32(c.t), usage_count, set_usage_count),
      VAL(T, "background", text(c), bg_color, set_bg_color), VAL(T, "foreground", text(c), fg_color, set_fg_color),
      VAL(T, "auto-type enabled", c.t.chance(1, 2), auto_type().enabled, auto_type().set_enabled),
      VAL(T, "auto-type obfuscation", gen::u32(c.t), auto_type().obfuscation, auto_type().set_obfuscation),
      VAL(T, "auto-type sequence", text(c), auto_type().sequence, auto_type().set_sequence),
      {"associations", [](World& w, Obj& o, T& x) {
         std::string win = text(w.c), seq = text(w.c);
         x.auto_type().AddAssociation(win, seq);
         o.s["associations"] += r(win) + r(seq) + ";";
       }, [](T& x) { std::string s; for (auto& i : x.auto_type().associations()) s += r(i.window()) + r(i.sequence()) + ";"; return s; }, nullptr},
      LIST(T, "attachments", kp::Entry::Attachment, kAttachment, attachments, AddAttachment),
      LIST(T, "history", kp::Entry, kEntry, history, AddHistoryEntry),
      {"custom fields", [](World& w, Obj& o, T& x) {
         std::string k = text(w.c);
         PS v = prot(w.c);
         size_t n = x.custom_fields().size();
         if (n && w.c.t.chance(1, 5)) {  // from a field of its own
           auto& f = x.custom_fields()[w.c.t.below(n)];
           std::string add = r(k) + r(f.value()) + ";";
           x.AddCustomField(k, f.value());
           o.s["custom fields"] += add;
           return;
         }
         std::string k0 = k;
         x.AddCustomField(k, v);
         PBT_REQUIRE(k == k0, "argument", "adding a custom field changed its name argument");
         o.s["custom fields"] += r(k) + r(v) + ";";
       }, [](T& x) { std::string s; for (auto& i : x.custom_fields()) s += r(i.key()) + r(i.value()) + ";"; return s; }, nullptr}};
  return a;
}

const Attrs<kp::Group>& attrs(kp::Group*) {
  typedef kp::Group T;
  static const Attrs<T> a = {
      VAL(T, "uuid", ARR(16), uuid, set_uuid), VAL(T, "icon", gen::u32(c.t), icon, set_icon),
      REF(T, "custom icon", kp::Icon, kIcon, custom_icon, set_custom_icon, false),
      VAL(T, "name", text(c), name, set_name), VAL(T, "notes", text(c), notes, set_notes),
      VAL(T, "creation time", some_time(c), creation_time, set_creation_time),
      VAL(T, "modification time", some_time(c), modification_time, set_modification_time),
      VAL(T, "access time", some_time(c), access_time, set_access_time),
      VAL(T, "expiry time", some_time(c), expiry_time, set_expiry_time),
      VAL(T, "move time", some_time(c), move_time, set_move_time),
      VAL(T, "flags", gen::u32(c.t), flags, set_flags), VAL(T, "expires", c.t.chance(1, 2), expires, set_expires),
      VAL(T, "expanded", c.t.chance(1, 2), expanded, set_expanded), VAL(T, "usage", gen::u32(c.t), usage_count, set_usage_count),
      VAL(T, "auto-type sequence", text(c), default_autotype_sequence, set_default_autotype_sequence),
      TRI(T, "auto-type", autotype, set_autotype, autotype_inherited, inherit_autotype),
      TRI(T, "search", search, set_search, search_inherited, inherit_search),
      REF(T, "last visible", kp::Entry, kEntry, last_visible_entry, set_last_visible_entry, false),
      LIST(T, "groups", kp::Group, kGroup, Groups, AddGroup), LIST(T, "entries", kp::Entry, kEntry, Entries, AddEntry)};
  return a;
}

const Attrs<kp::Metadata>& attrs(kp::Metadata*) {
  typedef kp::Metadata T;
  static const Attrs<T> a = {
      VAL(T, "generator", text(c), generator, set_generator), VAL(T, "name", temp(c), database_name, set_database_name),
      VAL(T, "description", temp(c), database_desc, set_database_desc),
      VAL(T, "default username", temp(c), default_username, set_default_username),
      VAL(T, "history days", gen::u32(c.t), maintenance_hist_days, set_maintenance_hist_days),
      VAL(T, "color", text(c), database_color, set_database_color),
      VAL(T, "key changed", some_time(c), master_key_changed, set_master_key_changed),
      VAL(T, "key change rec", gen::i64(c.t), master_key_change_rec, set_master_key_change_rec),
      VAL(T, "key change force", gen::i64(c.t), master_key_change_force, set_master_key_change_force),
      VAL(T, "protect title", c.t.chance(1, 2), memory_protection().title, memory_protection().set_title),
      VAL(T, "protect username", c.t.chance(1, 2), memory_protection().username, memory_protection().set_username),
      VAL(T, "protect password", c.t.chance(1, 2), memory_protection().password, memory_protection().set_password),
      VAL(T, "protect url", c.t.chance(1, 2), memory_protection().url, memory_protection().set_url),
      VAL(T, "protect notes", c.t.chance(1, 2), memory_protection().notes, memory_protection().set_notes),
      REF(T, "recycle bin", kp::Group, kGroup, recycle_bin, set_recycle_bin, true),
      VAL(T, "recycle bin changed", some_time(c), recycle_bin_changed, set_recycle_bin_changed),
      REF(T, "templates", kp::Group, kGroup, entry_templates, set_entry_templates, true),
      VAL(T, "templates changed", some_time(c), entry_templates_changed, set_entry_templates_changed),
      VAL(T, "history items", int32_t(gen::u32(c.t)), history_max_items, set_history_max_items),
      VAL(T, "history size", gen::i64(c.t), history_max_size, set_history_max_size),
      REF(T, "last selected", kp::Group, kGroup, last_selected_group, set_last_selected_group, false),
      REF(T, "last visible", kp::Group, kGroup, last_visible_group, set_last_visible_group, false),
      LIST(T, "binaries", kp::Binary, kBinary, binaries, AddBinary), LIST(T, "icons", kp::Icon, kIcon, icons, AddIcon),
      {"fields", [](World& w, Obj& o, T& x) {
         std::string k = text(w.c), v = text(w.c);
         size_t n = x.fields().size();
         if (n && w.c.t.chance(1, 5)) {
           auto& f = x.fields()[w.c.t.below(n)];
           std::string add = r(f.value()) + r(f.key()) + ";";
           x.AddField(f.value(), f.key());
           o.s["fields"] += add;
           return;
         }
         x.AddField(k, v);
         o.s["fields"] += r(k) + r(v) + ";";
       }, [](T& x) { std::string s; for (auto& i : x.fields()) s += r(i.key()) + r(i.value()) + ";"; return s; }, nullptr}};
  return a;
}

const Attrs<kp::Database>& attrs(kp::Database*) {
  typedef kp::Database T;
  static const Attrs<T> a = {
      REF(T, "root", kp::Group, kGroup, root, set_root, true), REF(T, "meta", kp::Metadata, kMeta, meta, set_meta, true),
      {"cipher", [](World& w, Obj& o, T& x) { bool t = w.c.t.chance(1, 2); x.set_cipher(t ? T::Cipher::kTwofish : T::Cipher::kAes); o.s["cipher"] = r(t); },
       [](T& x) { return r(x.cipher() == T::Cipher::kTwofish); }, [](T& x) { x.set_cipher(x.cipher()); }},
      {"master seed", [](World& w, Obj& o, T& x) {
         std::string s = w.c.t.bytes(w.c.t.chance(1, 2) ? 16 : w.c.t.below(70));
         if (s.size() == 16 && w.c.t.chance(1, 2)) x.set_master_seed(bridge::arr<16>(s));
         else x.set_master_seed(std::vector<uint8_t>(s.begin(), s.end()));
         o.s["master seed"] = r(s);
       }, [](T& x) { return r(x.master_seed()); }, [](T& x) { x.set_master_seed(x.master_seed()); }},
      VAL(T, "init vector", ARR(16), init_vector, set_init_vector), VAL(T, "transform seed", ARR(32), transform_seed, set_transform_seed),
      VAL(T, "stream key", ARR(32), inner_random_stream_key, set_inner_random_stream_key),
      VAL(T, "rounds", uint64_t(gen::i64(c.t)), transform_rounds, set_transform_rounds), VAL(T, "compress", c.t.chance(1, 2), compress, set_compress)};
  return a;
}

const Attrs<kp::Entry::Attachment>& attrs(kp::Entry::Attachment*) {
  typedef kp::Entry::Attachment T;
  static const Attrs<T> a = {VAL(T, "name", text(c), name, set_name), REF(T, "binary", kp::Binary, kBinary, binary, set_binary, true)};
  return a;
}
const Attrs<kp::Binary>& attrs(kp::Binary*) {
  typedef kp::Binary T;
  static const Attrs<T> a = {VAL(T, "data", prot(c), data, set_data), VAL(T, "compress", c.t.chance(1, 2), compress, set_compress)};
  return a;
}
const Attrs<kp::Icon>& attrs(kp::Icon*) {
  typedef kp::Icon T;
  static const Attrs<T> a = {
      {"uuid", [](World&, Obj&, T&) {}, [](T& x) { return r(x.uuid()); }, nullptr},
      {"data", [](World& w, Obj& o, T& x) { std::string s = w.c.t.bytes(w.c.t.below(40)); x.set_data(std::vector<uint8_t>(s.begin(), s.end())); o.s["data"] = r(s); },
       [](T& x) { return r(x.data()); }, [](T& x) { x.set_data(x.data()); }}};
  return a;
}
const Attrs<PS>& attrs(PS*) {
  typedef PS T;
  static const Attrs<T> a = {VAL(T, "value", text(c), value, set_value), VAL(T, "protected", c.t.chance(1, 2), is_protected, set_protected)};
  return a;
}
const Attrs<TS>& attrs(TS*) {
  typedef TS T;
  static const Attrs<T> a = {
      {"value", [](World& w, Obj& o, T& x) {
         std::string s = text(w.c);
         time_t t0 = time(nullptr);
         if (w.c.t.chance(1, 2)) x = s; else x.Set(s);
         time_t t1 = time(nullptr);
         PBT_REQUIRE(x.time() >= t0 && x.time() <= t1, "stamp", "a text assigned between " << t0 << " and " << t1 << " has the time " << x.time());
         o.s["value"] = r(s);
         o.s["time"] = r(x.time());
       }, [](T& x) { return r(x.value()); }, nullptr},
      VAL(T, "time", some_time(c), time, set_time)};
  return a;
}
const Attrs<kp::Entry::Field>& attrs(kp::Entry::Field*) {
  typedef kp::Entry::Field T;
  static const Attrs<T> a = {{"key", [](World&, Obj&, T&) {}, [](T& x) { return r(x.key()); }, nullptr},
                             {"value", [](World&, Obj&, T&) {}, [](T& x) { return r(x.value()); }, nullptr}};
  return a;
}
const Attrs<kp::Metadata::Field>& attrs(kp::Metadata::Field*) {
  typedef kp::Metadata::Field T;
  static const Attrs<T> a = {{"key", [](World&, Obj&, T&) {}, [](T& x) { return r(x.key()); }, nullptr},
                             {"value", [](World&, Obj&, T&) {}, [](T& x) { return r(x.value()); }, nullptr}};
  return a;
}
const Attrs<kp::Entry::AutoType>& attrs(kp::Entry::AutoType*) {
  typedef kp::Entry::AutoType T;
  static const Attrs<T> a = {
      VAL(T, "enabled", c.t.chance(1, 2), enabled, set_enabled), VAL(T, "obfuscation", gen::u32(c.t), obfuscation, set_obfuscation),
      VAL(T, "sequence", text(c), sequence, set_sequence),
      {"associations", [](World& w, Obj& o, T& x) {
         std::string win = text(w.c), seq = text(w.c);
         x.AddAssociation(win, seq);
         o.s["associations"] += r(win) + r(seq) + ";";
       }, [](T& x) { std::string s; for (auto& i : x.associations()) s += r(i.window()) + r(i.sequence()) + ";"; return s; }, nullptr}};
  return a;
}
const Attrs<kp::Metadata::MemoryProtection>& attrs(kp::Metadata::MemoryProtection*) {
  typedef kp::Metadata::MemoryProtection T;
  static const Attrs<T> a = {VAL(T, "title", c.t.chance(1, 2), title, set_title), VAL(T, "username", c.t.chance(1, 2), username, set_username),
                             VAL(T, "password", c.t.chance(1, 2), password, set_password), VAL(T, "url", c.t.chance(1, 2), url, set_url),
                             VAL(T, "notes", c.t.chance(1, 2), notes, set_notes)};
  return a;
}
const Attrs<kp::Entry::AutoType::Association>& attrs(kp::Entry::AutoType::Association*) {
  typedef kp::Entry::AutoType::Association T;
  static const Attrs<T> a = {{"window", [](World&, Obj&, T&) {}, [](T& x) { return r(x.window()); }, nullptr},
                             {"sequence", [](World&, Obj&, T&) {}, [](T& x) { return r(x.sequence()); }, nullptr}};
  return a;
}

// ---- creation: a new object and what it must hold --------------------------
std::shared_ptr<kp::Entry> fresh(World&, Shadow& s, kp::Entry*) {
  auto e = std::make_shared<kp::Entry>();
  for (auto& a : attrs(e.get())) s[a.name] = "";
  for (const char* n : {"title", "url", "username", "password", "notes"}) s[n] = "-0:";
  for (const char* n : {"override url", "tags", "background", "foreground", "auto-type sequence"}) s[n] = "0:";
  for (const char* n : {"creation time", "modification time", "access time", "expiry time", "move time", "icon", "usage", "auto-type obfuscation"}) s[n] = "0";
  s["expires"] = s["auto-type enabled"] = "false";
  s["custom icon"] = "none";
  s["uuid"] = r(e->uuid());
  return e;
}
std::shared_ptr<kp::Group> fresh(World&, Shadow& s, kp::Group*) {
  auto e = std::make_shared<kp::Group>();
  for (auto& a : attrs(e.get())) s[a.name] = "";
  for (const char* n : {"name", "notes", "auto-type sequence"}) s[n] = "0:";
  for (const char* n : {"creation time", "modification time", "access time", "expiry time", "move time", "icon", "usage", "flags"}) s[n] = "0";
  s["expires"] = s["expanded"] = s["auto-type"] = s["search"] = "false";
  s["custom icon"] = s["last visible"] = "none";
  s["uuid"] = r(e->uuid());
  return e;
}
std::shared_ptr<kp::Metadata> fresh(World&, Shadow& s, kp::Metadata*) {
  auto e = std::make_shared<kp::Metadata>();
  for (auto& a : attrs(e.get())) s[a.name] = "";
  s["generator"] = s["color"] = "0:";
  s["name"] = s["description"] = s["default username"] = "0@0:";
  s["history days"] = "365";
  s["key changed"] = s["recycle bin changed"] = s["templates changed"] = "0";
  s["key change rec"] = s["key change force"] = s["history items"] = s["history size"] = "-1";
  s["protect title"] = s["protect username"] = s["protect url"] = s["protect notes"] = "false";
  s["protect password"] = "true";
  s["recycle bin"] = s["templates"] = s["last selected"] = s["last visible"] = "none";
  return e;
}
std::shared_ptr<kp::Database> fresh(World&, Shadow& s, kp::Database*) {
  auto e = std::make_shared<kp::Database>();
  s["root"] = s["meta"] = "none";
  s["cipher"] = s["compress"] = "false";
  s["master seed"] = "0:";
  s["init vector"] = r(std::string(16, '\0'));
  s["transform seed"] = s["stream key"] = r(std::string(32, '\0'));
  s["rounds"] = "8192";
  return e;
}
std::shared_ptr<kp::Entry::Attachment> fresh(World&, Shadow& s, kp::Entry::Attachment*) {
  s["name"] = "0:";
  s["binary"] = "none";
  return std::make_shared<kp::Entry::Attachment>();
}
std::shared_ptr<kp::Binary> fresh(World& w, Shadow& s, kp::Binary*) {
  PS p = prot(w.c);
  s["data"] = r(p);
  s["compress"] = "false";
  return std::make_shared<kp::Binary>(p);
}
std::shared_ptr<kp::Icon> fresh(World& w, Shadow& s, kp::Icon*) {
  Case& c = w.c;
  auto u = ARR(16);
  std::string d = c.t.bytes(c.t.below(40));
  s["uuid"] = r(u);
  s["data"] = r(d);
  return std::make_shared<kp::Icon>(u, std::vector<uint8_t>(d.begin(), d.end()));
}
std::shared_ptr<PS> fresh(World& w, Shadow& s, PS*) {
  if (w.c.t.chance(1, 4)) { s["value"] = "0:"; s["protected"] = "false"; return std::make_shared<PS>(); }
  std::string v = text(w.c);
  bool p = w.c.t.chance(1, 2);
  s["value"] = r(v);
  s["protected"] = r(p);
  return std::make_shared<PS>(v, p);
}
std::shared_ptr<TS> fresh(World& w, Shadow& s, TS*) {
  if (w.c.t.chance(1, 4)) { s["value"] = "0:"; s["time"] = "0"; return std::make_shared<TS>(); }
  std::string v = text(w.c);
  int64_t t = some_time(w.c);
  s["value"] = r(v);
  s["time"] = r(t);
  return std::make_shared<TS>(v, t);
}
std::shared_ptr<kp::Entry::Field> fresh(World& w, Shadow& s, kp::Entry::Field*) {
  std::string k = text(w.c);
  PS v = prot(w.c);
  s["key"] = r(k);
  s["value"] = r(v);
  return std::make_shared<kp::Entry::Field>(k, v);
}
std::shared_ptr<kp::Metadata::Field> fresh(World& w, Shadow& s, kp::Metadata::Field*) {
  std::string k = text(w.c), v = text(w.c);
  s["key"] = r(k);
  s["value"] = r(v);
  return std::make_shared<kp::Metadata::Field>(k, v);
}
std::shared_ptr<kp::Entry::AutoType> fresh(World&, Shadow& s, kp::Entry::AutoType*) {
  s["enabled"] = "false";
  s["obfuscation"] = "0";
  s["sequence"] = "0:";
  s["associations"] = "";
  return std::make_shared<kp::Entry::AutoType>();
}
std::shared_ptr<kp::Metadata::MemoryProtection> fresh(World&, Shadow& s, kp::Metadata::MemoryProtection*) {
  s["title"] = s["username"] = s["url"] = s["notes"] = "false";
  s["password"] = "true";
  return std::make_shared<kp::Metadata::MemoryProtection>();
}
std::shared_ptr<kp::Entry::AutoType::Association> fresh(World& w, Shadow& s, kp::Entry::AutoType::Association*) {
  std::string k = text(w.c), v = text(w.c);
  s["window"] = r(k);
  s["sequence"] = r(v);
  return std::make_shared<kp::Entry::AutoType::Association>(k, v);
}

// ---- operations, for any kind ----------------------------------------------
template <class F> decltype(auto) dispatch(int kind, F f) {
  switch (kind) {
    case kEntry: return f(static_cast<kp::Entry*>(nullptr));
    case kGroup: return f(static_cast<kp::Group*>(nullptr));
    case kMeta: return f(static_cast<kp::Metadata*>(nullptr));
    case kDb: return f(static_cast<kp::Database*>(nullptr));
    case kAttachment: return f(static_cast<kp::Entry::Attachment*>(nullptr));
    case kBinary: return f(static_cast<kp::Binary*>(nullptr));
    case kIcon: return f(static_cast<kp::Icon*>(nullptr));
    case kProt: return f(static_cast<PS*>(nullptr));
    case kTemp: return f(static_cast<TS*>(nullptr));
    case kEField: return f(static_cast<kp::Entry::Field*>(nullptr));
    case kMField: return f(static_cast<kp::Metadata::Field*>(nullptr));
    case kAuto: return f(static_cast<kp::Entry::AutoType*>(nullptr));
    case kMemProt: return f(static_cast<kp::Metadata::MemoryProtection*>(nullptr));
    default: return f(static_cast<kp::Entry::AutoType::Association*>(nullptr));
  }
}

std::string describe(const Obj& o) { return std::string(kKindNames[o.kind]) + " #" + std::to_string(o.id); }

Obj& enlist(World& w, int kind, std::shared_ptr<void> p) {
  auto o = std::make_shared<Obj>();
  o->kind = kind;
  o->id = w.objs.size();
  o->p = p;
  o->w = p;
  o->addr = p.get();
  w.objs.push_back(o);
  return *o;
}

Obj& create(World& w, int kind) {
  return dispatch(kind, [&](auto* tag) -> Obj& {
    Shadow s;
    auto p = fresh(w, s, tag);
    Obj& o = enlist(w, kind, p);
    o.s = s;
    if (kind == kEntry || kind == kGroup)
      PBT_REQUIRE(w.uuids.insert(s["uuid"]).second, "uuid", "a new " << kKindNames[kind] << " has the identifier of another object");
    return o;
  });
}

// Compares one object with its shadow.
void verify(World& w, Obj& o, const std::string& when) {
  if (!o.p) return;
  dispatch(o.kind, [&](auto* tag) {
    using T = typename std::remove_pointer<decltype(tag)>::type;
    T& x = *static_cast<T*>(o.p.get());
    for (auto& a : attrs(tag)) {
      std::string want = o.s[a.name];
      auto wk = o.weak.find(a.name);
      if (wk != o.weak.end() && w.at(wk->second).w.expired()) want = "none";
      std::string got = a.get(x);
      PBT_REQUIRE(got == want, "value", when << ": " << describe(o) << " has " << a.name << " " << pbt::quote(got) << " instead of " << pbt::quote(want));
    }
    for (auto& l : o.owns)
      for (size_t k : l.second)
        PBT_REQUIRE(!w.at(k).w.expired(), "released", when << ": " << describe(w.at(k)) << " is gone although " << describe(o) << " holds it as " << l.first);
  });
}

bool is_meta(World& w, Obj& e);
bool is_meta(World& w, Obj& e) {
  bool bin = false;
  for (size_t k : e.owns["attachments"]) bin |= w.at(k).s["name"] == r(std::string("bin-stream"));
  auto val = [&](const char* n) { return e.s[n].substr(1); };
  return val("title") == r(std::string("Meta-Info")) && val("url") == r(std::string("$")) && val("username") == r(std::string("SYSTEM")) && val("notes") != "0:" && bin;
}

void predicates(World& w, Obj& o) {
  if (!o.p) return;
  auto want = [&](const char* n, bool got, bool expect) {
    PBT_REQUIRE(got == expect, "predicate", n << " of " << describe(o) << " is " << got);
  };
  if (o.kind == kEntry) {
    auto& e = *static_cast<kp::Entry*>(o.p.get());
    want("HasAttachment", e.HasAttachment(), !o.owns["attachments"].empty());
    want("HasNonDefaultAutoTypeSettings", e.HasNonDefaultAutoTypeSettings(),
         o.s["auto-type enabled"] != "false" || o.s["auto-type obfuscation"] != "0" || o.s["auto-type sequence"] != "0:" || !o.s["associations"].empty());
    want("IsMetaEntry", e.IsMetaEntry(), is_meta(w, o));
    if (is_meta(w, o)) w.c.label("meta-entry");
  } else if (o.kind == kGroup) {
    bool any = false;
    for (size_t k : o.owns["entries"]) any |= !is_meta(w, w.at(k));
    want("HasNonMetaEntries", static_cast<kp::Group*>(o.p.get())->HasNonMetaEntries(), any);
  } else if (o.kind == kBinary) {
    auto& b = *static_cast<kp::Binary*>(o.p.get());
    want("Empty", b.Empty(), o.s["data"] == "-0:" || o.s["data"] == "P0:");
    want("Size", r(std::string(b.Size(), 'x')).substr(0, r(std::string(b.Size(), 'x')).find(':')) == o.s["data"].substr(1, o.s["data"].find(':') - 1), true);
  } else if (o.kind == kProt) {
    auto& b = *static_cast<PS*>(o.p.get());
    const std::string& conv = b;
    want("value access", *b == b.value() && conv == b.value() && b->size() == b.value().size(), true);
  } else if (o.kind == kTemp) {
    auto& b = *static_cast<TS*>(o.p.get());
    const std::string& conv = b;
    want("value access", *b == b.value() && conv == b.value() && b->size() == b.value().size(), true);
  }
}

// Every object below a group, in preorder with levels, at most 'limit'.
bool expect_walk(World& w, size_t g, size_t level, std::string& out, size_t& limit) {
  for (size_t k : w.at(g).owns["groups"]) {
    if (!limit--) { limit = 0; return false; }
    out += std::to_string(k) + "." + std::to_string(level) + " ";
    if (!expect_walk(w, k, level + 1, out, limit)) return false;
  }
  return true;
}

void traverse(World& w) {
  int g = w.pick(kGroup);
  if (g < 0) return;
  std::string want, got;
  size_t limit = 3000;
  if (!expect_walk(w, size_t(g), 0, want, limit)) return;
  std::map<const void*, size_t> ids;
  for (auto& o : w.objs)
    if (!o->w.expired()) ids[o->addr] = o->id;
  kp::dfs<kp::Group, &kp::Group::Groups>(w.ptr<kp::Group>(g), [&](const std::shared_ptr<kp::Group>& x, size_t level) {
    got += std::to_string(ids.at(x.get())) + "." + std::to_string(level) + " ";
  });
  PBT_REQUIRE(got == want, "traversal", "the groups below " << describe(w.at(size_t(g))) << " are visited as " << got.substr(0, 200) << " instead of " << want.substr(0, 200));
}

void copy_shadow(Obj& to, const Obj& from) {
  to.s = from.s;
  to.owns = from.owns;
  to.weak = from.weak;
}
// Objects own only earlier ones of their own kind, so that there are no cycles.
bool may_take(World& w, const Obj& to, const Obj& from) {
  for (auto& l : from.owns)
    for (size_t k : l.second)
      if (w.at(k).kind == to.kind && k >= to.id) return false;
  return true;
}

int any_held(World& w) {
  std::vector<size_t> v;
  for (auto& o : w.objs)
    if (o->p) v.push_back(o->id);
  return v.empty() ? -1 : int(v[w.c.t.below(v.size())]);
}

void step(World& w) {
  Case& c = w.c;
  int k = any_held(w);
  size_t what = k < 0 ? 9 : c.t.pick({30, 3, 4, 4, 3, 3, 2, 2, 3, 6, 3, 2});
  std::string did;
  if (what == 9 || what == 10) {
    Obj& o = create(w, int(c.t.below(what == 9 ? size_t(kBinary) + 2 : size_t(kKinds))));
    w.log += " new " + describe(o);
    verify(w, o, "new");
    return;
  }
  Obj& o = w.at(size_t(k));
  dispatch(o.kind, [&](auto* tag) {
    using T = typename std::remove_pointer<decltype(tag)>::type;
    T& x = *static_cast<T*>(o.p.get());
    auto& as = attrs(tag);
    switch (what) {
      case 0: {  // change attributes
        for (size_t n = 1 + c.t.below(4); n--;) {
          auto& a = as[c.t.below(as.size())];
          a.set(w, o, x);
          did += " " + a.name;
        }
        did = "set" + did;
        break;
      }
      case 1: {  // to what they are
        auto& a = as[c.t.below(as.size())];
        if (a.self) a.self(x);
        did = "reset " + a.name;
        break;
      }
      case 2: {  // copy
        Obj& n = enlist(w, o.kind, nullptr);
        auto p = std::make_shared<T>(x);
        n.p = p;
        n.w = p;
        n.addr = p.get();
        copy_shadow(n, o);
        did = "copied to " + describe(n);
        ++w.copies;
        break;
      }
      case 3: {  // assign to another
        int to = w.pick(o.kind);
        if (to < 0 || !may_take(w, w.at(size_t(to)), o)) break;
        Obj& d = w.at(size_t(to));
        *static_cast<T*>(d.p.get()) = x;
        if (&d != &o) copy_shadow(d, o);
        did = "assigned to " + describe(d);
        ++w.copies;
        break;
      }
      case 4: {  // move to another, and start again
        int to = w.pick(o.kind);
        if (to < 0 || to == int(o.id) || !may_take(w, w.at(size_t(to)), o)) break;
        Obj& d = w.at(size_t(to));
        *static_cast<T*>(d.p.get()) = std::move(x);
        copy_shadow(d, o);
        Shadow s;
        auto p = fresh(w, s, tag);
        x = *p;
        o.s = s;
        o.owns.clear();
        o.weak.clear();
        did = "moved to " + describe(d);
        ++w.moves;
        break;
      }
      case 5: {  // out and back again
        T y(std::move(x));
        Shadow s;
        x = T(*fresh(w, s, tag));
        if (c.t.chance(1, 2)) std::swap(x, y);
        else x = std::move(y);
        did = "moved out and back";
        ++w.moves;
        break;
      }
      case 6: {  // a vector of them, growing
        std::vector<T> v;
        for (size_t n = 1 + c.t.below(9); n--;) v.push_back(x);
        if (c.t.chance(1, 2)) v.insert(v.begin(), x);
        if (c.t.chance(1, 2)) v.erase(v.begin());
        if (v.empty()) v.push_back(x);
        T y = v[c.t.below(v.size())];
        v.clear();
        x = y;
        did = "through a vector";
        ++w.copies;
        break;
      }
      case 7: predicates(w, o); did = "asked"; break;
      case 8: {  // nearly a meta-entry
        if (o.kind != kEntry) break;
        auto& e = reinterpret_cast<kp::Entry&>(x);
        size_t skip = c.t.below(6);
        auto put = [&](size_t i, const char* n, const std::string& v, auto set) {
          PS p(v, c.t.chance(1, 2));
          if (i == skip) return;
          (e.*set)(p);
          o.s[n] = r(p);
        };
        put(0, "title", "Meta-Info", &kp::Entry::set_title);
        put(1, "url", "$", &kp::Entry::set_url);
        put(2, "username", "SYSTEM", &kp::Entry::set_username);
        put(3, "notes", "x", &kp::Entry::set_notes);
        if (skip != 4) {
          Obj& a = create(w, kAttachment);
          static_cast<kp::Entry::Attachment*>(a.p.get())->set_name("bin-stream");
          a.s["name"] = r(std::string("bin-stream"));
          e.AddAttachment(std::static_pointer_cast<kp::Entry::Attachment>(a.p));
          o.owns["attachments"].push_back(a.id);
          o.s["attachments"] += r(std::static_pointer_cast<kp::Entry::Attachment>(a.p)) + ";";
        }
        did = "meta-entry but " + std::to_string(skip);
        predicates(w, o);
        break;
      }
      case 11: o.p.reset(); did = "released"; break;
    }
  });
  w.log += "; " + describe(o) + " " + did;
  verify(w, o, did);
}

void history(Case& c) {
  seed_random(c.t.below(0));
  std::vector<std::weak_ptr<void>> all;
  std::string log;
  size_t n = 0, copies = 0, moves = 0;
  {
    World w(c);
    for (size_t i = 2 + c.t.below(6); i--;) create(w, int(c.t.below(kKinds)));
    n = 1 + c.t.below(c.t.chance(1, 4) ? 160 : 50);
    for (size_t i = 0; i < n; ++i) {
      step(w);
      c.eval();
      if (i % 8 == 7)
        for (auto& o : w.objs) verify(w, *o, "meanwhile");
    }
    for (auto& o : w.objs) { verify(w, *o, "at the end"); predicates(w, *o); }
    traverse(w);
    for (auto& o : w.objs) { all.push_back(o->w); c.label(kKindNames[o->kind]); }
    log = w.log;
    copies = w.copies;
    moves = w.moves;
  }
  for (auto& x : all) PBT_REQUIRE(x.expired(), "kept", "an object outlives everything that refers to it");
  c.describe(log.substr(0, 600));
  if (n >= 5 && copies + moves >= 1) c.nontrivial(log);
}

// Trees with many groups, walked by the library.
void walks(Case& c) {
  seed_random(c.t.below(0));
  gen::Opt o;
  o.max_groups = c.t.chance(1, 4) ? 200 : 25;
  o.max_entries = 3;
  model::Db m = gen::db(c.t, o);
  if (c.t.chance(1, 4)) {  // deep or wide below a group of the tree
    auto all = model::preorder(m.root);
    model::Group* g = all[c.t.below(all.size())];
    bool deep = c.t.chance(1, 2);
    for (size_t n = 1 + c.t.below(deep ? 900 : 3000); n--;) {
      model::Group s;
      s.name = std::to_string(n);
      g->groups.insert(g->groups.begin() + long(c.t.below(std::min<size_t>(2, g->groups.size() + 1))), s);
      if (deep) g = &g->groups.front();
    }
    c.label(deep ? "deep" : "wide");
  }
  auto db = bridge::to_db(m);
  std::string want, got;
  std::function<void(const model::Group&, size_t)> go = [&](const model::Group& g, size_t l) {
    for (auto& s : g.groups) { want += std::to_string(l) + r(s.uuid) + r(s.name); go(s, l + 1); }
  };
  go(m.root, 0);
  kp::dfs<kp::Group, &kp::Group::Groups>(db->root(), [&](const std::shared_ptr<kp::Group>& g, size_t l) {
    got += std::to_string(l) + r(g->uuid()) + r(g->name());
  });
  c.eval();
  PBT_REQUIRE(got == want, "traversal", "groups are not visited once each in order: " << pbt::first_diff(want, got));
  if (!want.empty()) c.nontrivial(want);
  c.describe(model::shape(m));
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C26";
  k.rule = "distinct histories of at least five operations with at least one copy or move, and distinct trees of more than one group";
  k.assumptions = {"objects do not own themselves through a cycle of references", "the state of a moved-from object is not constrained until it is assigned again",
                   "self-move is not used"};
  k.subs = {{"history", 12000, 500000, history}, {"walks", 1000, 30000, walks}};
  return pbt::run_check(k, argc, argv);
}
