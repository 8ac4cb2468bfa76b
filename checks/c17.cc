// C17: imported references denote the objects of the imported tree.
#include <map>
#include <set>

#include "common.hh"
using namespace harness;
using keepass::Key;

namespace {
// A database in which many things refer to many things.
model::Db refs_db(Case& c) {
  pbt::set_tz("UTC0");
  gen::Opt o;
  o.strict_xml = true;
  o.max_groups = 14;
  o.max_entries = 10;
  model::Db m = gen::db(c.t, o);
  m.rounds %= 2;
  uint64_t us = c.t.below(0);
  // Icons and binaries, some with equal content.
  size_t ni = c.t.below(5), nb = c.t.below(6);
  m.meta.icons.clear();
  m.meta.binaries.clear();
  for (size_t i = 0; i < ni; ++i) m.meta.icons.push_back({gen::uuid_from(us, 7000 + i), i && c.t.chance(1, 2) ? m.meta.icons[0].data : "icon" + std::to_string(i)});
  for (size_t i = 0; i < nb; ++i) {
    model::Binary b;
    b.data = i && c.t.chance(1, 2) ? m.meta.binaries[0].data : c.t.bytes(c.t.below(20)) + std::to_string(i);
    b.prot = c.t.chance(1, 3);
    b.compress = !b.prot && c.t.chance(1, 3);
    m.meta.binaries.push_back(b);
  }
  std::vector<model::Group*> pre = model::preorder(m.root);
  std::function<void(model::Entry&)> entry = [&](model::Entry& e) {
    e.custom_icon = ni && c.t.chance(2, 3) ? int(c.t.below(ni)) : -1;
    e.attachments.clear();
    size_t na = c.t.below(4);
    for (size_t i = 0; i < na; ++i) {
      model::Attachment a;
      a.name = "a" + std::to_string(c.t.below(3));
      if (nb && !c.t.chance(1, 4)) a.pool = int(c.t.below(nb));
      else { a.inl.data = nb && c.t.chance(1, 2) ? m.meta.binaries[0].data : "inline"; a.inl.prot = c.t.chance(1, 2); }
      e.attachments.push_back(a);
    }
    for (auto& h : e.history) { if (c.t.chance(3, 4)) h.uuid = e.uuid; entry(h); }
  };
  for (auto g : pre) {
    g->custom_icon = ni && c.t.chance(1, 2) ? int(c.t.below(ni)) : -1;
    for (auto& e : g->entries) entry(e);
    g->last_visible = !g->entries.empty() && c.t.chance(2, 3) ? int(c.t.below(g->entries.size())) : -1;
  }
  // Kinds have separate identifiers: an icon, a group and an entry may have the same.
  if (ni && c.t.chance(1, 3)) m.meta.icons[0].uuid = pre[c.t.below(pre.size())]->uuid;
  auto gref = [&](bool detached) {
    model::GRef r;
    switch (c.t.pick({2, 6, unsigned(detached ? 1 : 0)})) {
      case 1: r.kind = model::GRef::kTree; r.index = int(c.t.below(pre.size())); break;
      case 2: r.kind = model::GRef::kDetached; r.uuid = gen::uuid_from(us, 9000 + c.t.below(2)); break;
      default: break;
    }
    return r;
  };
  m.meta.recycle_bin = gref(true);
  m.meta.templates = gref(true);
  m.meta.last_selected = gref(false);
  m.meta.last_visible = gref(false);
  return m;
}

typedef std::shared_ptr<keepass::Group> GroupP;
void preorder(const GroupP& g, std::vector<GroupP>& out) {
  out.push_back(g);
  for (auto& s : g->Groups()) preorder(s, out);
}
std::string at(const char* what, const std::string& where) { return std::string(what) + " of " + where; }

struct Walk {
  const model::Db& m;
  keepass::Database& db;
  std::set<const keepass::Binary*> inl;
  std::map<const keepass::Entry*, std::string> seen;
  size_t refs = 0;
  int nameless = -1;  // position of a group without UUID

  void icon(const std::shared_ptr<keepass::Icon>& p, int want, const std::string& where) {
    auto& icons = db.meta()->icons();
    if (want < 0) { PBT_REQUIRE(!p, "icon-set", where << " has a custom icon although the file gives it none"); return; }
    ++refs;
    PBT_REQUIRE(p, "icon-unset", where << " has no custom icon although the file gives it icon " << want);
    PBT_REQUIRE(p == icons.at(want), "icon-other-object", where << " has a custom icon that is not the object at position " << want << " of the database's icons");
  }
  void entry(const model::Entry& e, keepass::Entry& l, const std::string& where) {
    PBT_REQUIRE(!seen.count(&l), "entry-shared", where << " and " << seen[&l] << " are the same object");
    seen[&l] = where;
    PBT_REQUIRE(bridge::str(l.uuid()) == e.uuid, "shape", where << " has another UUID");
    icon(l.custom_icon().lock(), e.custom_icon, where);
    PBT_REQUIRE(l.attachments().size() == e.attachments.size(), "shape", where << " has " << l.attachments().size() << " attachments instead of " << e.attachments.size());
    for (size_t i = 0; i < e.attachments.size(); ++i) {
      auto b = l.attachments()[i]->binary();
      std::string w = "attachment " + std::to_string(i) + " of " + where;
      PBT_REQUIRE(b, "binary-unset", w << " has no data");
      if (e.attachments[i].pool >= 0) {
        ++refs;
        PBT_REQUIRE(b == db.meta()->binaries().at(e.attachments[i].pool), "binary-other-object", w << " is not the stored binary " << e.attachments[i].pool);
      } else {
        for (auto& p : db.meta()->binaries()) PBT_REQUIRE(b != p, "inline-shared", w << " is stored with its entry but shares the object of a stored binary");
        PBT_REQUIRE(inl.insert(b.get()).second, "inline-shared", w << " is stored with its entry but shares its object with another attachment");
      }
    }
    PBT_REQUIRE(l.history().size() == e.history.size(), "shape", where << " has " << l.history().size() << " history entries instead of " << e.history.size());
    for (size_t i = 0; i < e.history.size(); ++i) entry(e.history[i], *l.history()[i], "history entry " + std::to_string(i) + " of " + where);
  }
  void run() {
    auto meta = db.meta();
    PBT_REQUIRE(meta && db.root(), "shape", "no meta data or no root");
    PBT_REQUIRE(meta->icons().size() == m.meta.icons.size() && meta->binaries().size() == m.meta.binaries.size(), "shape", "numbers of icons or binaries differ");
    std::set<const void*> pool;
    for (auto& b : meta->binaries()) PBT_REQUIRE(b && pool.insert(b.get()).second, "binaries-shared", "two stored binaries are the same object");
    for (auto& b : meta->icons()) PBT_REQUIRE(b && pool.insert(b.get()).second, "icons-shared", "two custom icons are the same object");
    std::vector<GroupP> pre;
    preorder(db.root(), pre);
    std::vector<const model::Group*> mp = model::preorder(m.root);
    PBT_REQUIRE(pre.size() == mp.size(), "shape", pre.size() << " groups instead of " << mp.size());
    std::set<const void*> gs;
    for (size_t i = 0; i < pre.size(); ++i) {
      std::string where = "group " + std::to_string(i);
      PBT_REQUIRE(gs.insert(pre[i].get()).second, "group-shared", where << " is the same object as an earlier one");
      PBT_REQUIRE(int(i) == nameless || bridge::str(pre[i]->uuid()) == mp[i]->uuid, "shape", where << " has another UUID");
      icon(pre[i]->custom_icon().lock(), mp[i]->custom_icon, where);
      PBT_REQUIRE(pre[i]->Entries().size() == mp[i]->entries.size(), "shape", where << ": number of entries");
      for (size_t j = 0; j < mp[i]->entries.size(); ++j) entry(mp[i]->entries[j], *pre[i]->Entries()[j], "entry " + std::to_string(j) + " of " + where);
      auto lv = pre[i]->last_visible_entry().lock();
      if (mp[i]->last_visible < 0) PBT_REQUIRE(!lv, "last-entry-set", where << " has a last visible entry although the file gives it none");
      else {
        ++refs;
        PBT_REQUIRE(lv, "last-entry-unset", where << " has no last visible entry although the file names entry " << mp[i]->last_visible);
        PBT_REQUIRE(lv == pre[i]->Entries()[mp[i]->last_visible], "last-entry-other-object", where << " has a last visible entry that is not its entry " << mp[i]->last_visible << (seen.count(lv.get()) ? " but " + seen[lv.get()] : ""));
      }
    }
    group("recycle bin", m.meta.recycle_bin, meta->recycle_bin(), pre, true);
    group("entry templates group", m.meta.templates, meta->entry_templates(), pre, true);
    group("last selected group", m.meta.last_selected, meta->last_selected_group().lock(), pre, false);
    group("last visible group", m.meta.last_visible, meta->last_visible_group().lock(), pre, false);
  }
  void group(const char* what, const model::GRef& want, const GroupP& got, const std::vector<GroupP>& pre, bool keeps) {
    std::string name(what);
    std::string key = name.substr(0, name.rfind(' ') == std::string::npos ? name.size() : name.find(' '));
    size_t which = pre.size();
    for (size_t i = 0; i < pre.size(); ++i) if (pre[i] == got) which = i;
    if (want.kind == model::GRef::kTree) {
      ++refs;
      PBT_REQUIRE(got, "group-unset:" + key, "the " << name << " is unset although the file names group " << want.index);
      PBT_REQUIRE(which < pre.size(), "group-copy:" + key, "the " << name << " is not an object of the tree (the file names group " << want.index << ")");
      PBT_REQUIRE(int(which) == want.index, "group-other:" + key, "the " << name << " is group " << which << ", the file names group " << want.index);
    } else if (want.kind == model::GRef::kNone) {
      PBT_REQUIRE(!got, "group-set:" + key, "the " << name << " is set although the file names none");
    } else {
      PBT_REQUIRE(which == pre.size(), "group-other:" + key, "the " << name << " is group " << which << " of the tree although the file names none of them");
      if (got && keeps) PBT_REQUIRE(bridge::str(got->uuid()) == want.uuid, "group-uuid:" + key, "the " << name << " has another UUID than the file says");
    }
  }
};

void judge(Case& c, const model::Db& m, keepass::Database& db) {
  Walk w{m, db};
  w.run();
  if (w.refs >= 3) c.nontrivial(model::dump(m));
  c.label(w.refs >= 10 ? "references:>=10" : w.refs >= 3 ? "references:3-9" : "references:<3");
  c.describe(model::shape(m) + ", " + std::to_string(w.refs) + " references");
}
}  // namespace

static void file(Case& c) {
  begin(c);
  model::Db m = refs_db(c);
  gen::Cred cr = simple_cred();
  pbt::SplitMix rng = c.t.sub();
  std::string p = c.dir + "/f";
  bridge::write_file(p, ref::write_kdbx(m, comps(cr), ref::gen_kdbx_style(c.t), rng));
  Imported i;
  {
    keepass::KdbxFile f;
    i = import_kdbx(p, make_key(c, cr), &f);
  }
  c.eval();
  PBT_REQUIRE(i.ok(), "import-failed", "import failed: " << i.str());
  judge(c, m, *i.db);
}
static void exported(Case& c) {
  begin(c);
  model::Db m = refs_db(c);
  // An inline value equal to a stored binary stays inline.
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  std::string p = c.dir + "/f";
  keepass::KdbxFile f;
  auto lib = bridge::to_db(m);
  // Detached groups are known by the API only for the first two references.
  int rounds = 1 + int(c.t.below(3));
  std::shared_ptr<keepass::Database> cur = lib;
  for (int r = 0; r < rounds; ++r) {
    Outcome e = export_kdbx(p, *cur, key, c.t.chance(1, 2) ? &f : nullptr);
    c.eval();
    PBT_REQUIRE(e.ok(), "export-failed", "export " << r + 1 << " failed: " << e.str());
    Imported i = import_kdbx(p, key, c.t.chance(1, 2) ? &f : nullptr);
    PBT_REQUIRE(i.ok(), "import-failed", "import " << r + 1 << " failed: " << i.str());
    cur = i.db;
    judge(c, m, *cur);
  }
}
// References that denote nothing in the file.
static void dangling(Case& c) {
  begin(c);
  model::Db m = refs_db(c);
  gen::Cred cr = simple_cred();
  pbt::SplitMix rng = c.t.sub();
  ref::KdbxStyle st = ref::gen_kdbx_style(c.t);
  st.unknown = false;
  int which = int(c.t.below(4));
  static const char* const el[] = {"LastSelectedGroup", "LastTopVisibleGroup", "LastTopVisibleEntry", "CustomIconUUID"};
  size_t hits = 0;
  std::string odd = ref::b64(gen::uuid_from(c.t.below(0), 4242));
  bool absent = c.t.chance(1, 3), empty = c.t.chance(1, 2);
  // A group that nothing refers to may lack its UUID; what the file leaves
  // unset does not denote that group.
  int nameless = -1, seen_groups = -1;
  bool uuid_absent = c.t.chance(1, 2);
  if (c.t.chance(1, 3)) {
    nameless = int(c.t.below(model::preorder(m.root).size()));
    for (auto* r : {&m.meta.recycle_bin, &m.meta.templates, &m.meta.last_selected, &m.meta.last_visible})
      if (r->kind == model::GRef::kTree && r->index == nameless) *r = model::GRef();
    if (which < 2 && !absent && !empty) absent = true;
    c.label("group without UUID");
  }
  // Likewise for a custom icon without UUID.
  int plain_icon = -1, seen_icons = -1;
  if (!m.meta.icons.empty() && c.t.chance(1, 3)) {
    plain_icon = int(c.t.below(m.meta.icons.size()));
    std::function<void(model::Entry&)> drop = [&](model::Entry& e) { if (e.custom_icon == plain_icon) e.custom_icon = -1; for (auto& h : e.history) drop(h); };
    for (auto* g : model::preorder(m.root)) { if (g->custom_icon == plain_icon) g->custom_icon = -1; for (auto& e : g->entries) drop(e); }
    c.label("icon without UUID");
  }
  std::function<void(ref::Node&)> edit = [&](ref::Node& n) {
    if (n.name == "Icon" && ++seen_icons == plain_icon)
      for (size_t i = 0; i < n.kids.size(); ++i)
        if (n.kids[i].name == "UUID") { if (uuid_absent) n.kids.erase(n.kids.begin() + i); else n.kids[i].text.clear(); break; }
    if (n.name == "Group" && ++seen_groups == nameless)
      for (size_t i = 0; i < n.kids.size(); ++i)
        if (n.kids[i].name == "UUID") { if (uuid_absent) n.kids.erase(n.kids.begin() + i); else n.kids[i].text.clear(); break; }
    for (size_t i = 0; i < n.kids.size();) {
      if (n.kids[i].name == el[which]) {
        ++hits;
        if (absent) { n.kids.erase(n.kids.begin() + i); continue; }
        n.kids[i].text = empty ? "" : odd;
      }
      edit(n.kids[i]);
      ++i;
    }
  };
  if (which == 0) m.meta.last_selected = model::GRef();
  if (which == 1) m.meta.last_visible = model::GRef();
  model::Db w = m;
  std::vector<model::Group*> pre = model::preorder(m.root), prew = model::preorder(w.root);
  std::function<void(model::Entry&)> noicon = [&](model::Entry& e) { e.custom_icon = -1; for (auto& h : e.history) noicon(h); };
  // The file is written from w, the expectation is m.
  for (size_t i = 0; i < pre.size(); ++i) {
    if (which == 2) pre[i]->last_visible = -1;
    if (which == 3) { pre[i]->custom_icon = -1; for (auto& e : pre[i]->entries) noicon(e); }
  }
  auto other = [&](model::GRef& r) { r.kind = model::GRef::kTree; r.index = 0; };
  if (which == 0) other(w.meta.last_selected);
  if (which == 1) other(w.meta.last_visible);
  std::string p = c.dir + "/f";
  Bytes f = ref::write_kdbx(w, comps(cr), st, rng, edit);
  bridge::write_file(p, f);
  Imported i = import_kdbx(p, make_key(c, cr));
  c.eval();
  c.label(std::string(el[which]) + (absent ? " absent" : empty ? " empty" : " unknown"));
  PBT_REQUIRE(i.ok(), "import-failed", "import of a file whose " << el[which] << " denotes nothing failed: " << i.str());
  Walk wk{m, *i.db};
  wk.nameless = nameless;
  wk.run();
  c.describe(std::string(el[which]) + (absent ? " absent, " : empty ? " empty, " : " unknown, ") + model::shape(m));
  if (hits) c.nontrivial(model::dump(w) + el[which]);
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C17";
  k.rule = "distinct databases with at least three references (groups, last visible entries, icons, attachments); for dangling ones at least one occurrence";
  k.assumptions = {"UUIDs of groups, of entries of one group and of icons are distinct among themselves (history entries share that of their entry)",
                   "a recycle bin or templates UUID that no group has is kept as a group outside the tree (or dropped); which is not judged"};
  k.subs = {{"file", 1500, 60000, file}, {"exported", 700, 25000, exported}, {"dangling", 600, 15000, dangling}};
  return pbt::run_check(k, argc, argv);
}
