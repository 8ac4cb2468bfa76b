// C18: equality of groups, entries and attachments is exact.
#include "common.hh"
using namespace harness;
using keepass::Entry;
using keepass::Group;

namespace {
// --- oracle: equality by the public getters ---------------------------------
bool eq(const keepass::protect<std::string>& a, const keepass::protect<std::string>& b) { return a.value() == b.value() && a.is_protected() == b.is_protected(); }
bool eqb(const keepass::Binary& a, const keepass::Binary& b) { return eq(a.data(), b.data()); }
bool eqa(const Entry::Attachment& a, const Entry::Attachment& b) {
  if (a.name() != b.name() || !a.binary() != !b.binary()) return false;
  return !a.binary() || eqb(*a.binary(), *b.binary());
}
bool eqt(const Entry::AutoType& a, const Entry::AutoType& b) {
  if (a.enabled() != b.enabled() || a.obfuscation() != b.obfuscation() || a.sequence() != b.sequence() || a.associations().size() != b.associations().size()) return false;
  for (size_t i = 0; i < a.associations().size(); ++i)
    if (a.associations()[i].window() != b.associations()[i].window() || a.associations()[i].sequence() != b.associations()[i].sequence()) return false;
  return true;
}
bool eqe(Entry& a, Entry& b) {
  if (a.uuid() != b.uuid() || a.icon() != b.icon() || a.custom_icon().lock() != b.custom_icon().lock() || !eq(a.title(), b.title()) || !eq(a.url(), b.url()) || a.override_url() != b.override_url() ||
      !eq(a.username(), b.username()) || !eq(a.password(), b.password()) || !eq(a.notes(), b.notes()) || a.tags() != b.tags() || a.creation_time() != b.creation_time() ||
      a.modification_time() != b.modification_time() || a.access_time() != b.access_time() || a.expiry_time() != b.expiry_time() || a.move_time() != b.move_time() || a.expires() != b.expires() ||
      a.usage_count() != b.usage_count() || a.bg_color() != b.bg_color() || a.fg_color() != b.fg_color() || !eqt(a.auto_type(), b.auto_type()) || a.attachments().size() != b.attachments().size() ||
      a.history().size() != b.history().size() || a.custom_fields().size() != b.custom_fields().size())
    return false;
  for (size_t i = 0; i < a.attachments().size(); ++i) if (!eqa(*a.attachments()[i], *b.attachments()[i])) return false;
  for (size_t i = 0; i < a.history().size(); ++i) if (!eqe(*a.history()[i], *b.history()[i])) return false;
  for (size_t i = 0; i < a.custom_fields().size(); ++i)
    if (a.custom_fields()[i].key() != b.custom_fields()[i].key() || !eq(a.custom_fields()[i].value(), b.custom_fields()[i].value())) return false;
  return true;
}
bool eqg(Group& a, Group& b) {
  if (a.uuid() != b.uuid() || a.icon() != b.icon() || a.custom_icon().lock() != b.custom_icon().lock() || a.name() != b.name() || a.notes() != b.notes() || a.creation_time() != b.creation_time() ||
      a.modification_time() != b.modification_time() || a.access_time() != b.access_time() || a.expiry_time() != b.expiry_time() || a.move_time() != b.move_time() || a.flags() != b.flags() ||
      a.expires() != b.expires() || a.expanded() != b.expanded() || a.usage_count() != b.usage_count() || a.default_autotype_sequence() != b.default_autotype_sequence() ||
      a.autotype() != b.autotype() || a.search() != b.search() || a.autotype_inherited() != b.autotype_inherited() || a.search_inherited() != b.search_inherited() || a.last_visible_entry().lock() != b.last_visible_entry().lock() || a.Groups().size() != b.Groups().size() ||
      a.Entries().size() != b.Entries().size())
    return false;
  for (size_t i = 0; i < a.Groups().size(); ++i) if (!eqg(*a.Groups()[i], *b.Groups()[i])) return false;
  for (size_t i = 0; i < a.Entries().size(); ++i) if (!eqe(*a.Entries()[i], *b.Entries()[i])) return false;
  return true;
}

template <class T>
void ask(const T& a, const T& b, bool want, const std::string& kind, const std::string& what) {
  bool ab = a == b, ba = b == a;
  PBT_REQUIRE(ab == want, kind + (want ? ":equal-unequal" : ":unequal-equal") + ":" + what, kind << "s that are " << (want ? "equal" : "different") << " (" << what << ") compare " << (ab ? "equal" : "different"));
  PBT_REQUIRE(ba == want, kind + ":asymmetric:" + what, kind << "s compare " << (ab ? "equal" : "different") << " one way and " << (ba ? "equal" : "different") << " the other (" << what << ")");
  PBT_REQUIRE((a != b) == !want && (b != a) == !want, kind + ":not-equal:" + what, kind << "s: != is not the negation of == (" << what << ")");
  PBT_REQUIRE(a == a && b == b && !(a != a), kind + ":reflexive", "a " << kind << " differs from itself");
}

// --- mutations of the model -------------------------------------------------
struct EMut { const char* name; std::function<bool(Case&, model::Entry&)> f; bool visible; };  // visible: must make unequal
void tweak(Case& c, std::string& s) {
  switch (c.t.below(s.empty() ? 2 : 5)) {
    case 0: s += 'x'; return;
    case 1: s += '\0'; return;
    case 2: s.pop_back(); return;
    case 3: s[c.t.below(s.size())] ^= 1 << c.t.below(8); return;
    default: s.insert(s.begin(), ' '); return;
  }
}
void tweak(Case& c, int64_t& t) { static const std::vector<int64_t> d = {1, -1, 3600, int64_t(1) << 32, int64_t(1) << 31, -(int64_t(1) << 40)}; t += c.t.of(d); }
void tweak32(Case& c, uint32_t& v) { v ^= 1u << c.t.below(32); }

const std::vector<EMut>& emuts() {
  typedef model::Entry E;
  static const std::vector<EMut> v = {
      {"uuid", [](Case& c, E& e) { e.uuid[c.t.below(16)] ^= 1 << c.t.below(8); return true; }, true},
      {"icon", [](Case& c, E& e) { tweak32(c, e.icon); return true; }, true},
      {"custom icon", [](Case& c, E& e) { int o = e.custom_icon; e.custom_icon = int(c.t.below(4)) - 1; return e.custom_icon != o; }, true},
      {"title", [](Case& c, E& e) { tweak(c, e.title.v); return true; }, true},
      {"url", [](Case& c, E& e) { tweak(c, e.url.v); return true; }, true},
      {"user name", [](Case& c, E& e) { tweak(c, e.username.v); return true; }, true},
      {"password", [](Case& c, E& e) { tweak(c, e.password.v); return true; }, true},
      {"notes", [](Case& c, E& e) { tweak(c, e.notes.v); return true; }, true},
      {"title protection", [](Case&, E& e) { e.title.prot = !e.title.prot; return true; }, true},
      {"url protection", [](Case&, E& e) { e.url.prot = !e.url.prot; return true; }, true},
      {"user name protection", [](Case&, E& e) { e.username.prot = !e.username.prot; return true; }, true},
      {"password protection", [](Case&, E& e) { e.password.prot = !e.password.prot; return true; }, true},
      {"notes protection", [](Case&, E& e) { e.notes.prot = !e.notes.prot; return true; }, true},
      {"override url", [](Case& c, E& e) { tweak(c, e.override_url); return true; }, true},
      {"tags", [](Case& c, E& e) { tweak(c, e.tags); return true; }, true},
      {"background", [](Case& c, E& e) { tweak(c, e.bg); return true; }, true},
      {"foreground", [](Case& c, E& e) { tweak(c, e.fg); return true; }, true},
      {"creation time", [](Case& c, E& e) { tweak(c, e.times[0]); return true; }, true},
      {"modification time", [](Case& c, E& e) { tweak(c, e.times[1]); return true; }, true},
      {"access time", [](Case& c, E& e) { tweak(c, e.times[2]); return true; }, true},
      {"expiry time", [](Case& c, E& e) { tweak(c, e.times[3]); return true; }, true},
      {"move time", [](Case& c, E& e) { tweak(c, e.times[4]); return true; }, true},
      {"expires", [](Case&, E& e) { e.expires = !e.expires; return true; }, true},
      {"usage count", [](Case& c, E& e) { tweak32(c, e.usage); return true; }, true},
      {"auto-type enabled", [](Case&, E& e) { e.at_enabled = !e.at_enabled; return true; }, true},
      {"auto-type obfuscation", [](Case&, E& e) { e.at_obf = !e.at_obf; return true; }, true},
      {"auto-type sequence", [](Case& c, E& e) { tweak(c, e.at_seq); return true; }, true},
      {"association added", [](Case& c, E& e) { e.assoc.insert(e.assoc.begin() + c.t.below(e.assoc.size() + 1), {"w", "s"}); return true; }, true},
      {"association removed", [](Case& c, E& e) { if (e.assoc.empty()) return false; e.assoc.erase(e.assoc.begin() + c.t.below(e.assoc.size())); return true; }, true},
      {"association window", [](Case& c, E& e) { if (e.assoc.empty()) return false; tweak(c, c.t.of(e.assoc).window == "" ? e.assoc[0].window : e.assoc.back().window); return true; }, true},
      {"association sequence", [](Case& c, E& e) { if (e.assoc.empty()) return false; tweak(c, e.assoc[c.t.below(e.assoc.size())].sequence); return true; }, true},
      {"association moved", [](Case& c, E& e) { if (e.assoc.size() < 2) return false; auto o = e.assoc[0]; std::swap(e.assoc[0], e.assoc.back()); return o.window != e.assoc[0].window || o.sequence != e.assoc[0].sequence; }, true},
      {"attachment added at the end", [](Case&, E& e) { model::Attachment a; a.name = "n"; e.attachments.push_back(a); return true; }, true},
      {"last attachment removed", [](Case&, E& e) { if (e.attachments.empty()) return false; e.attachments.pop_back(); return true; }, true},
      {"attachment name", [](Case& c, E& e) { if (e.attachments.empty()) return false; tweak(c, e.attachments[c.t.below(e.attachments.size())].name); return true; }, true},
      {"attachment data", [](Case& c, E& e) { for (auto& a : e.attachments) if (a.pool < 0 && a.has) { tweak(c, a.inl.data); return true; } return false; }, true},
      {"attachment protection", [](Case&, E& e) { for (auto& a : e.attachments) if (a.pool < 0 && a.has) { a.inl.prot = !a.inl.prot; return true; } return false; }, true},
      {"attachment compression", [](Case&, E& e) { for (auto& a : e.attachments) if (a.pool < 0 && a.has) { a.inl.compress = !a.inl.compress; return true; } return false; }, false},
      {"attachment without data", [](Case&, E& e) { for (auto& a : e.attachments) if (a.pool < 0 && a.has) { a.has = false; return true; } return false; }, true},
      {"attachments exchanged", [](Case&, E& e) { if (e.attachments.size() < 2 || e.attachments[0].name == e.attachments[1].name) return false; std::swap(e.attachments[0], e.attachments[1]); return true; }, true},
      {"custom field added", [](Case& c, E& e) { e.custom.insert(e.custom.begin() + c.t.below(e.custom.size() + 1), {"k!", model::PStr()}); return true; }, true},
      {"custom field removed", [](Case&, E& e) { if (e.custom.empty()) return false; e.custom.pop_back(); return true; }, true},
      {"custom field key", [](Case& c, E& e) { if (e.custom.empty()) return false; tweak(c, e.custom[c.t.below(e.custom.size())].first); return true; }, true},
      {"custom field value", [](Case& c, E& e) { if (e.custom.empty()) return false; tweak(c, e.custom[c.t.below(e.custom.size())].second.v); return true; }, true},
      {"custom field protection", [](Case& c, E& e) { if (e.custom.empty()) return false; auto& x = e.custom[c.t.below(e.custom.size())].second.prot; x = !x; return true; }, true},
      {"custom fields exchanged", [](Case&, E& e) { if (e.custom.size() < 2 || e.custom[0].first == e.custom[1].first) return false; std::swap(e.custom[0], e.custom[1]); return true; }, true},
      {"history entry added", [](Case&, E& e) { model::Entry h; h.title.v = "h"; e.history.push_back(h); return true; }, true},
      {"last history entry removed", [](Case&, E& e) { if (e.history.empty()) return false; e.history.pop_back(); return true; }, true},
      {"first history entry removed", [](Case&, E& e) { if (e.history.empty()) return false; e.history.erase(e.history.begin()); return true; }, true},
      {"history entry repeated", [](Case&, E& e) { if (e.history.empty()) return false; e.history.push_back(e.history.back()); return true; }, true},
  };
  return v;
}
struct GMut { const char* name; std::function<bool(Case&, model::Group&)> f; };
const std::vector<GMut>& gmuts() {
  typedef model::Group G;
  static const std::vector<GMut> v = {
      {"uuid", [](Case& c, G& g) { g.uuid[c.t.below(16)] ^= 1 << c.t.below(8); return true; }},
      {"icon", [](Case& c, G& g) { tweak32(c, g.icon); return true; }},
      {"custom icon", [](Case& c, G& g) { int o = g.custom_icon; g.custom_icon = int(c.t.below(4)) - 1; return g.custom_icon != o; }},
      {"name", [](Case& c, G& g) { tweak(c, g.name); return true; }},
      {"notes", [](Case& c, G& g) { tweak(c, g.notes); return true; }},
      {"creation time", [](Case& c, G& g) { tweak(c, g.times[0]); return true; }},
      {"modification time", [](Case& c, G& g) { tweak(c, g.times[1]); return true; }},
      {"access time", [](Case& c, G& g) { tweak(c, g.times[2]); return true; }},
      {"expiry time", [](Case& c, G& g) { tweak(c, g.times[3]); return true; }},
      {"move time", [](Case& c, G& g) { tweak(c, g.times[4]); return true; }},
      {"flags", [](Case& c, G& g) { g.flags ^= 1u << c.t.below(32); return true; }},
      {"expires", [](Case&, G& g) { g.expires = !g.expires; return true; }},
      {"expanded", [](Case&, G& g) { g.expanded = !g.expanded; return true; }},
      {"usage count", [](Case& c, G& g) { tweak32(c, g.usage); return true; }},
      {"auto-type sequence", [](Case& c, G& g) { tweak(c, g.at_seq); return true; }},
      {"auto-type", [](Case& c, G& g) { g.autotype = (g.autotype + 1 + int(c.t.below(2))) % 3; return true; }},
      {"search", [](Case& c, G& g) { g.search = (g.search + 1 + int(c.t.below(2))) % 3; return true; }},
      {"group added at the end", [](Case&, G& g) { model::Group n; n.name = "n"; g.groups.push_back(n); return true; }},
      {"group added at the front", [](Case&, G& g) { model::Group n; n.name = "n!"; g.groups.insert(g.groups.begin(), n); return true; }},
      {"last group removed", [](Case&, G& g) { if (g.groups.empty()) return false; g.groups.pop_back(); return true; }},
      {"first group removed", [](Case&, G& g) { if (g.groups.empty()) return false; g.groups.erase(g.groups.begin()); return true; }},
      {"groups exchanged", [](Case&, G& g) { if (g.groups.size() < 2 || g.groups[0].uuid == g.groups[1].uuid) return false; std::swap(g.groups[0], g.groups[1]); return true; }},
      {"entry added at the end", [](Case&, G& g) { model::Entry e; e.title.v = "n"; g.entries.push_back(e); return true; }},
      {"last entry removed", [](Case&, G& g) { if (g.entries.empty()) return false; g.entries.pop_back(); return true; }},
      {"first entry removed", [](Case&, G& g) { if (g.entries.empty()) return false; g.entries.erase(g.entries.begin()); return true; }},
      {"entry repeated", [](Case&, G& g) { if (g.entries.empty()) return false; g.entries.push_back(g.entries.back()); return true; }},
      {"entries exchanged", [](Case&, G& g) { if (g.entries.size() < 2 || g.entries[0].uuid == g.entries[1].uuid) return false; std::swap(g.entries[0], g.entries[1]); return true; }},
  };
  return v;
}

std::shared_ptr<keepass::Metadata> pool() {
  auto m = std::make_shared<keepass::Metadata>();
  // Icons 0 and 1 have the same data but are different objects.
  for (int i = 0; i < 3; ++i) m->AddIcon(std::make_shared<keepass::Icon>(bridge::arr<16>(Bytes(16, char(i))), std::vector<uint8_t>(3, uint8_t(i / 2))));
  for (int i = 0; i < 3; ++i) m->AddBinary(std::make_shared<keepass::Binary>(keepass::protect<std::string>("b" + std::to_string(i), i == 1)));
  return m;
}
gen::Opt opts() { gen::Opt o; o.max_groups = 6; o.max_entries = 5; return o; }
void no_last(model::Group& g) { g.last_visible = -1; for (auto& s : g.groups) no_last(s); }
model::Meta meta3() {
  model::Meta m;
  for (int i = 0; i < 3; ++i) m.icons.push_back({Bytes(16, char(i)), "x"});
  for (int i = 0; i < 3; ++i) { model::Binary b; m.binaries.push_back(b); }
  return m;
}
}  // namespace

static void entries(Case& c) {
  size_t mi = c.t.below(emuts().size() + 4);  // enumerated: mutation, or none
  begin(c);
  pbt::set_tz("UTC0");
  model::Entry a = gen::entry(c.t, opts(), meta3(), c.t.below(0));
  // Enough of everything for mutations to apply to.
  if (c.t.chance(2, 3)) { model::Attachment x; x.name = "i"; x.inl.data = c.t.bytes(c.t.below(9)); a.attachments.insert(a.attachments.begin() + c.t.below(a.attachments.size() + 1), x); }
  while (a.assoc.size() < c.t.below(3)) a.assoc.push_back({"w" + std::to_string(a.assoc.size()), "q"});
  while (a.custom.size() < c.t.below(3)) a.custom.push_back({"c" + std::to_string(a.custom.size()), model::PStr()});
  while (a.history.size() < c.t.below(3)) { model::Entry h; h.title.v = std::to_string(a.history.size()); a.history.push_back(h); }
  model::Entry b = a;
  std::string what = "copies";
  bool want = true;
  if (mi < emuts().size()) {
    model::Entry* at = &b;
    size_t depth = 0;
    while (!at->history.empty() && c.t.chance(1, 3)) { at = &at->history[c.t.below(at->history.size())]; ++depth; }
    const EMut& m = emuts()[mi];
    if (!m.f(c, *at)) { c.label("not applicable"); at = nullptr; b = a; }
    else { what = m.name; want = !m.visible; if (depth) c.label("in history"); }
    if (depth && at) what += " of a history entry";
  }
  auto meta = pool();
  auto la = bridge::to_entry(a, meta), lb = bridge::to_entry(b, meta);
  c.eval();
  c.describe(what);
  c.label(mi < emuts().size() ? std::string("mutation:") + emuts()[mi].name : "mutation:none");
  c.nontrivial(model::dump_entry(a) + what);
  PBT_REQUIRE(eqe(*la, *lb) == want, "harness", "oracle disagrees: " << what);
  ask(*la, *lb, want, "entry", what);
  ask(la->auto_type(), lb->auto_type(), eqt(la->auto_type(), lb->auto_type()), "auto-type", what);
  for (size_t i = 0; i < a.attachments.size() && i < b.attachments.size(); ++i) {
    auto &x = *la->attachments()[i], &y = *lb->attachments()[i];
    ask(x, y, eqa(x, y), "attachment", what);
    if (x.binary() && y.binary()) ask(*x.binary(), *y.binary(), eqb(*x.binary(), *y.binary()), "binary", what);
  }
  for (size_t i = 0; i < a.custom.size() && i < b.custom.size(); ++i) {
    auto &x = la->custom_fields()[i], &y = lb->custom_fields()[i];
    ask(x, y, x.key() == y.key() && eq(x.value(), y.value()), "custom field", what);
  }
  // Copies of the object itself, and assignment.
  Entry cp(*la);
  ask(cp, *la, true, "entry", "copy constructed");
  if (!want) { cp = *lb; ask(cp, *la, false, "entry", "assigned another"); ask(cp, *lb, true, "entry", "assigned"); }
  Entry mv(std::move(cp));
  ask(mv, want ? *la : *lb, true, "entry", "moved");
}

static void groups(Case& c) {
  size_t nm = gmuts().size() + emuts().size();
  size_t mi = c.t.below(nm + 5);
  begin(c);
  pbt::set_tz("UTC0");
  gen::Opt o = opts();
  model::Group a = gen::tree(c.t, o, meta3());
  no_last(a);
  model::Group b = a;
  std::string what = "copies";
  bool want = true;
  std::vector<model::Group*> pre = model::preorder(b);
  if (mi < gmuts().size()) {
    model::Group* at = pre[c.t.below(pre.size())];
    if (gmuts()[mi].f(c, *at)) { what = std::string(gmuts()[mi].name) + (at == &b ? "" : " of a subgroup"); want = false; c.label(std::string("mutation:") + gmuts()[mi].name); if (at != &b) c.label("in subgroup"); }
    else { b = a; c.label("not applicable"); }
  } else if (mi < nm) {
    const EMut& m = emuts()[mi - gmuts().size()];
    std::vector<model::Entry*> es;
    for (auto g : pre) for (auto& e : g->entries) es.push_back(&e);
    if (!es.empty() && m.f(c, *es[c.t.below(es.size())])) { what = std::string(m.name) + " of an entry"; want = !m.visible; c.label("mutation:entry"); }
    else { b = a; c.label("not applicable"); }
  } else c.label("mutation:none");
  auto meta = pool();
  auto la = bridge::to_group(a, meta), lb = bridge::to_group(b, meta);
  c.eval();
  c.describe(what);
  c.nontrivial(model::dump_group(a) + what);
  PBT_REQUIRE(eqg(*la, *lb) == want, "harness", "oracle disagrees: " << what);
  ask(*la, *lb, want, "group", what);
  if (mi >= nm) {
    // Last visible entries are compared by identity, at any depth.
    auto x = std::make_shared<Entry>();
    auto y = std::make_shared<Entry>(*x);
    std::vector<Group*> ga, gb;
    std::function<void(Group&, std::vector<Group*>&)> go = [&](Group& g, std::vector<Group*>& v) { v.push_back(&g); for (auto& s : g.Groups()) go(*s, v); };
    go(*la, ga);
    go(*lb, gb);
    size_t k = c.t.below(ga.size());
    ga[k]->set_last_visible_entry(x);
    ask(*la, *lb, false, "group", "last visible entry set in one");
    gb[k]->set_last_visible_entry(y);
    ask(*la, *lb, false, "group", "last visible entries are different objects");
    gb[k]->set_last_visible_entry(x);
    ask(*la, *lb, true, "group", "last visible entries are the same object");
    x.reset();
    ask(*la, *lb, true, "group", "last visible entries are gone");
    gb[k]->set_last_visible_entry(std::weak_ptr<Entry>());
    ask(*la, *lb, true, "group", "one last visible entry is gone, the other unset");
    c.label("last visible entry");
  }
  Group cp(*la);
  ask(cp, *la, true, "group", "copy constructed");
}

// Unrelated objects: equality is what the getters say.
static void pairs(Case& c) {
  begin(c);
  pbt::set_tz("UTC0");
  gen::Opt o = opts();
  o.max_groups = 3;
  o.max_entries = 2;
  auto meta = pool();
  std::vector<model::Group> ms;
  std::vector<std::shared_ptr<Group>> gs;
  size_t n = 2 + c.t.below(4);
  for (size_t i = 0; i < n; ++i) {
    model::Group g = i && c.t.chance(1, 2) ? ms[c.t.below(i)] : gen::tree(c.t, o, meta3());
    no_last(g);
    if (c.t.chance(1, 3)) { g.groups.clear(); g.entries.clear(); }
    if (i && c.t.chance(1, 4)) { g = ms[i - 1]; const GMut& m = gmuts()[c.t.below(gmuts().size())]; m.f(c, g); }
    ms.push_back(g);
    gs.push_back(bridge::to_group(g, meta));
  }
  std::string s;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) {
      bool e = eqg(*gs[i], *gs[j]);
      s += e ? '=' : '.';
      c.eval();
      ask(*gs[i], *gs[j], e, "group", "pair");
    }
  c.label(s.find('=') != std::string::npos ? "some equal" : "");
  c.describe("matrix " + s);
  std::string d;
  for (auto& m : ms) d += model::dump_group(m);
  c.nontrivial(d);
}

static void small(Case& c) {
  begin(c);
  Bytes u = c.t.bytes(16), v = c.t.chance(1, 2) ? u : c.t.bytes(16);
  Bytes x = c.t.bytes(c.t.below(40)), y = c.t.chance(1, 2) ? x : x.substr(0, c.t.below(x.size() + 1));
  if (c.t.chance(1, 3)) tweak(c, y);
  keepass::Icon i(bridge::arr<16>(u), std::vector<uint8_t>(x.begin(), x.end())), j(bridge::arr<16>(v), std::vector<uint8_t>(y.begin(), y.end()));
  ask(i, j, x == y, "icon", "data");
  bool p = c.t.chance(1, 2), q = c.t.chance(1, 2);
  keepass::Binary a(keepass::protect<std::string>(x, p)), b(keepass::protect<std::string>(y, q));
  b.set_compress(c.t.chance(1, 2));
  ask(a, b, x == y && p == q, "binary", "data");
  ask(a.data(), b.data(), x == y && p == q, "protected value", "data");
  Entry::AutoType::Association m(x, y), n(y, x);
  ask(m, n, x == y, "association", "exchanged");
  Entry::Attachment s, t;
  s.set_name(x); t.set_name(y);
  ask(s, t, x == y, "attachment", "names, no data");
  s.set_binary(std::make_shared<keepass::Binary>(a));
  ask(s, t, false, "attachment", "one without data");
  t.set_binary(std::make_shared<keepass::Binary>(b));
  ask(s, t, x == y && p == q, "attachment", "names and data");
  c.eval(7);
  c.describe(pbt::quote(x) + " and " + pbt::quote(y));
  c.nontrivial(x + "|" + y + (p ? "p" : "") + (q ? "q" : ""));
}

// Trees imported twice are equal, and differ from a file with one change.
static void imported(Case& c) {
  begin(c);
  pbt::set_tz("UTC0");
  bool kdb = c.t.chance(1, 3);
  gen::Opt o = opts();
  o.kdb = kdb;
  o.strict_xml = true;
  model::Db m = gen::db(c.t, o);
  m.rounds %= 2;
  no_last(m.root);
  std::function<void(model::Entry&)> ei = [&](model::Entry& e) { e.custom_icon = -1; for (auto& h : e.history) ei(h); };
  for (auto g : model::preorder(m.root)) { g->custom_icon = -1; for (auto& e : g->entries) ei(e); }
  gen::Cred cr = simple_cred();
  std::string p = c.dir + "/f";
  auto key = make_key(c, cr);
  auto lib = bridge::to_db(m);
  Outcome e = kdb ? export_kdb(p, *lib, key) : export_kdbx(p, *lib, key);
  PBT_REQUIRE(e.ok(), "export-failed", "export failed: " << e.str());
  seed_random(7);
  Imported x = kdb ? import_kdb(p, key) : import_kdbx(p, key);
  seed_random(7);  // KDB groups get generated identifiers
  Imported y = kdb ? import_kdb(p, key) : import_kdbx(p, key);
  c.eval(3);
  PBT_REQUIRE(x.ok() && y.ok(), "import-failed", "import failed: " << x.str());
  c.describe(model::shape(m));
  c.nontrivial(model::dump(m));
  bool same = eqg(*x.db->root(), *y.db->root());
  ask(*x.db->root(), *y.db->root(), same, "group", "imported twice");
  if (!kdb) {
    PBT_REQUIRE(same, "imported-unequal", "two imports of one file are unequal");
    ask(*x.db->root(), *lib->root(), eqg(*x.db->root(), *lib->root()), "group", "imported and exported");
  }
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C18";
  k.rule = "distinct (object, mutation) pairs or sets of objects whose comparison, in both directions and with !=, was judged by a comparison through the public getters";
  k.assumptions = {"lists contain no null pointers", "how a binary is stored (its compression flag) and an icon's UUID do not take part in their equality"};
  size_t ne = emuts().size() + 4, ng = gmuts().size() + emuts().size() + 5;
  k.subs = {{"entries", ne * 80, ne * 3000, entries, true},
            {"groups", ng * 60, ng * 2000, groups, true},
            {"pairs", 1500, 50000, pairs},
            {"small", 2000, 50000, small},
            {"imported", 300, 8000, imported}};
  return pbt::run_check(k, argc, argv);
}
