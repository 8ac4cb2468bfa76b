// C27: sessions: open, edit through the public interface, save, open again.
#include <set>

#include "common.hh"
using namespace harness;
using keepass::Key;

namespace {
typedef std::shared_ptr<keepass::Group> G;
typedef std::shared_ptr<keepass::Entry> E;
typedef keepass::protect<std::string> PS;

void preorder(const G& g, std::vector<G>& o) {
  o.push_back(g);
  for (auto& s : g->Groups()) preorder(s, o);
}

// A database under edit, with the model of what it should hold.
struct Session {
  Case& c;
  bool kdb;
  gen::Opt o;  // small pieces
  model::Db m;
  std::shared_ptr<keepass::Database> db;
  std::set<const void*> shared;  // entries whose attachments a history entry shares
  std::string log;
  uint64_t us = 1;
  std::vector<int> focus = {};  // kinds of edits of one entry, if not any

  PS ps(const model::PStr& p) { return PS(p.v, p.prot); }
  void note(const std::string& s) { log += s + "; "; c.label(s); }

  std::vector<G> lib_groups() { std::vector<G> v; preorder(db->root(), v); return v; }
  // References to groups of the tree are kept in the model as positions.
  std::vector<std::pair<model::GRef*, G>> held;
  void hold() {
    held.clear();
    auto meta = db->meta();
    if (!meta) return;
    auto keep = [&](model::GRef& r, const G& g) { if (r.kind == model::GRef::kTree) held.push_back({&r, g}); };
    keep(m.meta.recycle_bin, meta->recycle_bin());
    keep(m.meta.templates, meta->entry_templates());
    keep(m.meta.last_selected, meta->last_selected_group().lock());
    keep(m.meta.last_visible, meta->last_visible_group().lock());
  }
  void reindex() {
    auto v = lib_groups();
    for (auto& h : held)
      for (size_t i = 0; i < v.size(); ++i) if (v[i] == h.second) h.first->index = int(i);
  }
  void attach(keepass::Entry& e, const model::Attachment& a) {
    auto at = std::make_shared<keepass::Entry::Attachment>();
    at->set_name(a.name);
    if (a.pool >= 0) at->set_binary(db->meta()->binaries().at(a.pool));
    else if (a.has) {
      auto b = std::make_shared<keepass::Binary>(PS(a.inl.data, a.inl.prot));
      b->set_compress(a.inl.compress);
      at->set_binary(b);
    }
    e.AddAttachment(at);
  }

  void edit_entry(model::Entry& e, const E& l) {
    model::Entry x = gen::entry(c.t, o, m.meta, 1000000 + us++);
    int k = focus.empty() ? int(c.t.below(kdb ? 12 : 24)) : focus[c.t.below(focus.size())];
    static const char* const names[] = {"title", "url", "username", "password", "notes", "creation", "modification", "access", "expiry", "icon", "uuid", "attachment",
                                        "override url", "tags", "bg", "fg", "move", "expires", "usage", "custom icon", "auto-type", "association", "history", "custom field"};
    note(std::string("entry ") + names[k]);
    switch (k) {
      case 0: e.title = x.title; l->set_title(ps(x.title)); break;
      case 1: e.url = x.url; l->set_url(ps(x.url)); break;
      case 2: e.username = x.username; l->set_username(ps(x.username)); break;
      case 3: e.password = x.password; l->set_password(ps(x.password)); break;
      case 4: e.notes = x.notes; l->set_notes(ps(x.notes)); break;
      case 5: e.times[0] = x.times[0]; l->set_creation_time(x.times[0]); break;
      case 6: e.times[1] = x.times[1]; l->set_modification_time(x.times[1]); break;
      case 7: e.times[2] = x.times[2]; l->set_access_time(x.times[2]); break;
      case 8: e.times[3] = x.times[3]; l->set_expiry_time(x.times[3]); break;
      case 9: e.icon = x.icon; l->set_icon(x.icon); break;
      case 10: e.uuid = x.uuid; l->set_uuid(bridge::arr<16>(x.uuid)); break;
      case 11: {
        size_t n = e.attachments.size();
        if (n && (kdb || c.t.chance(1, 2)) && !shared.count(l.get())) {
          // An attachment gets another name or other content.
          size_t i = c.t.below(n);
          auto at = l->attachments()[i];
          bool mine = e.attachments[i].pool < 0 && e.attachments[i].has && at->binary();
          if (mine && c.t.chance(1, 3)) {
            // The data of an attachment that nothing else refers to changes in place.
            model::Binary& b = e.attachments[i].inl;
            b.data = c.t.bytes(1 + c.t.below(60));
            at->binary()->set_data(PS(b.data, b.prot));
            c.label("attachment in place");
          } else if (c.t.chance(1, 2)) {
            std::string name = gen::ident(c.t);
            if (kdb && name.empty()) name = "n";
            e.attachments[i].name = name;
            at->set_name(name);
          } else {
            model::Attachment a = e.attachments[i];
            a.has = true;
            a.pool = -1;
            a.inl = model::Binary();
            a.inl.data = c.t.bytes(1 + c.t.below(60));
            a.inl.prot = !kdb && c.t.chance(1, 2);
            if (!kdb && !m.meta.binaries.empty() && c.t.chance(1, 2)) {
              a.pool = int(c.t.below(m.meta.binaries.size()));
              a.inl = model::Binary();
              at->set_binary(db->meta()->binaries().at(a.pool));
            } else {
              at->set_binary(std::make_shared<keepass::Binary>(PS(a.inl.data, a.inl.prot)));
            }
            e.attachments[i] = a;
          }
        } else if (!kdb || !n) {
          model::Attachment a;
          a.name = gen::ident(c.t);
          if (a.name.empty()) a.name = "n";
          if (!kdb && !m.meta.binaries.empty() && c.t.chance(1, 2)) a.pool = int(c.t.below(m.meta.binaries.size()));
          else { a.inl.data = c.t.bytes(c.t.below(60)); a.inl.prot = !kdb && c.t.chance(1, 2); }
          e.attachments.push_back(a);
          attach(*l, a);
        }
        break;
      }
      case 12: e.override_url = x.override_url; l->set_override_url(x.override_url); break;
      case 13: e.tags = x.tags; l->set_tags(x.tags); break;
      case 14: e.bg = x.bg; l->set_bg_color(x.bg); break;
      case 15: e.fg = x.fg; l->set_fg_color(x.fg); break;
      case 16: e.times[4] = x.times[4]; l->set_move_time(x.times[4]); break;
      case 17: e.expires = !e.expires; l->set_expires(e.expires); break;
      case 18: e.usage = x.usage; l->set_usage_count(x.usage); break;
      case 19:
        e.custom_icon = m.meta.icons.empty() || c.t.chance(1, 4) ? -1 : int(c.t.below(m.meta.icons.size()));
        l->set_custom_icon(e.custom_icon < 0 ? std::weak_ptr<keepass::Icon>() : std::weak_ptr<keepass::Icon>(db->meta()->icons().at(e.custom_icon)));
        break;
      case 20:
        e.at_enabled = x.at_enabled; e.at_obf = x.at_obf; e.at_seq = x.at_seq;
        l->auto_type().set_enabled(x.at_enabled);
        l->auto_type().set_obfuscation(x.at_obf);
        l->auto_type().set_sequence(x.at_seq);
        break;
      case 21: {
        model::Assoc a{gen::ident(c.t), gen::ident(c.t)};
        e.assoc.push_back(a);
        l->auto_type().AddAssociation(a.window, a.sequence);
        break;
      }
      case 22: {
        // The state before the edit goes to the history, as in KeePass.
        if (e.history.size() < 3 && c.t.chance(2, 3)) {
          model::Entry h = e;
          e.history.push_back(h);
          l->AddHistoryEntry(std::make_shared<keepass::Entry>(*l));
          shared.insert(l.get());
        } else {
          x.history.clear();
          e.history.push_back(x);
          l->AddHistoryEntry(bridge::to_entry(x, db->meta()));
        }
        break;
      }
      default: {
        std::string key = "field " + std::to_string(c.t.below(20));
        model::PStr v = x.title;
        e.custom.push_back({key, v});
        l->AddCustomField(key, ps(v));
      }
    }
  }
  void edit_group(model::Group& g, const G& l, bool root) {
    if (kdb && root) return;  // KDB has no attributes of the root
    gen::Opt one = o;
    one.max_groups = 1;
    model::Group x = gen::tree(c.t, one, m.meta);
    int k = int(c.t.below(kdb ? 7 : 18));
    static const char* const names[] = {"name", "creation", "modification", "access", "expiry", "icon", "flags", "notes", "move", "custom icon", "expires", "expanded",
                                        "usage", "auto-type sequence", "auto-type", "search", "last visible", "uuid"};
    note(std::string("group ") + names[k]);
    switch (k) {
      case 0: { std::string n = c.t.chance(1, 2) ? gen::ident(c.t) : x.name; g.name = n; l->set_name(n); break; }
      case 1: g.times[0] = x.times[0]; l->set_creation_time(x.times[0]); break;
      case 2: g.times[1] = x.times[1]; l->set_modification_time(x.times[1]); break;
      case 3: g.times[2] = x.times[2]; l->set_access_time(x.times[2]); break;
      case 4: g.times[3] = x.times[3]; l->set_expiry_time(x.times[3]); break;
      case 5: g.icon = uint32_t(c.t.below(69)); l->set_icon(g.icon); break;
      case 6: if (kdb) { g.flags = gen::u32(c.t); l->set_flags(g.flags); } break;
      case 7: { std::string n = gen::ident(c.t); g.notes = n; l->set_notes(n); break; }
      case 8: g.times[4] = x.times[4]; l->set_move_time(x.times[4]); break;
      case 9:
        g.custom_icon = m.meta.icons.empty() || c.t.chance(1, 4) ? -1 : int(c.t.below(m.meta.icons.size()));
        l->set_custom_icon(g.custom_icon < 0 ? std::weak_ptr<keepass::Icon>() : std::weak_ptr<keepass::Icon>(db->meta()->icons().at(g.custom_icon)));
        break;
      case 10: g.expires = !g.expires; l->set_expires(g.expires); break;
      case 11: g.expanded = !g.expanded; l->set_expanded(g.expanded); break;
      case 12: g.usage = gen::u32(c.t); l->set_usage_count(g.usage); break;
      case 13: g.at_seq = gen::ident(c.t); l->set_default_autotype_sequence(g.at_seq); break;
      case 14: g.autotype = int(c.t.below(3)); if (g.autotype == 2) l->inherit_autotype(); else l->set_autotype(g.autotype); break;
      case 15: g.search = int(c.t.below(3)); if (g.search == 2) l->inherit_search(); else l->set_search(g.search); break;
      case 16:
        g.last_visible = g.entries.empty() || c.t.chance(1, 4) ? -1 : int(c.t.below(g.entries.size()));
        l->set_last_visible_entry(g.last_visible < 0 ? std::weak_ptr<keepass::Entry>() : std::weak_ptr<keepass::Entry>(l->Entries().at(g.last_visible)));
        break;
      default: g.uuid = gen::uuid_from(2000000 + c.t.below(0), us++); l->set_uuid(bridge::arr<16>(g.uuid)); break;
    }
  }
  void edit_meta() {
    auto l = db->meta();
    model::Meta& e = m.meta;
    gen::Opt one = o;
    one.max_groups = one.max_entries = 1;
    model::Meta x = gen::db(c.t, one).meta;
    typedef keepass::temporal<std::string> TS;
    int k = int(c.t.below(17));
    static const char* const names[] = {"name", "description", "user", "color", "history days", "key changed", "key rec", "key force", "protection", "history limits",
                                        "icon", "icon data", "binary", "binary data", "custom data", "recycle bin", "references"};
    note(std::string("meta ") + names[k]);
    auto groups = lib_groups();
    switch (k) {
      case 0: e.name = x.name; l->set_database_name(TS(x.name.v, x.name.t)); break;
      case 1: e.desc = x.desc; l->set_database_desc(TS(x.desc.v, x.desc.t)); break;
      case 2: e.user = x.user; l->set_default_username(TS(x.user.v, x.user.t)); break;
      case 3: e.color = x.color; l->set_database_color(x.color); break;
      case 4: e.hist_days = x.hist_days; l->set_maintenance_hist_days(x.hist_days); break;
      case 5: e.key_changed = x.key_changed; l->set_master_key_changed(x.key_changed); break;
      case 6: e.key_rec = x.key_rec; l->set_master_key_change_rec(x.key_rec); break;
      case 7: e.key_force = x.key_force; l->set_master_key_change_force(x.key_force); break;
      case 8: {
        int i = int(c.t.below(5));
        bool v = e.mp[i] = !e.mp[i];
        auto& p = l->memory_protection();
        if (i == 0) p.set_title(v);
        if (i == 1) p.set_username(v);
        if (i == 2) p.set_password(v);
        if (i == 3) p.set_url(v);
        if (i == 4) p.set_notes(v);
        break;
      }
      case 9: e.hist_items = x.hist_items; e.hist_size = x.hist_size; l->set_history_max_items(x.hist_items); l->set_history_max_size(x.hist_size); break;
      case 10: {
        model::Icon i{gen::uuid_from(3000000 + c.t.below(0), us++), c.t.bytes(1 + c.t.below(50))};
        e.icons.push_back(i);
        l->AddIcon(std::make_shared<keepass::Icon>(bridge::arr<16>(i.uuid), std::vector<uint8_t>(i.data.begin(), i.data.end())));
        break;
      }
      case 11:
        if (!e.icons.empty()) {
          size_t i = c.t.below(e.icons.size());
          Bytes d = c.t.bytes(1 + c.t.below(50));
          e.icons[i].data = d;
          l->icons()[i]->set_data(std::vector<uint8_t>(d.begin(), d.end()));
        }
        break;
      case 12: {
        model::Binary b;
        b.data = c.t.bytes(c.t.below(80));
        (c.t.chance(1, 2) ? b.prot : b.compress) = true;
        e.binaries.push_back(b);
        auto n = std::make_shared<keepass::Binary>(PS(b.data, b.prot));
        n->set_compress(b.compress);
        l->AddBinary(n);
        break;
      }
      case 13:
        if (!e.binaries.empty()) {
          // Every attachment that refers to it has the new content.
          size_t i = c.t.below(e.binaries.size());
          e.binaries[i].data = c.t.bytes(c.t.below(80));
          e.binaries[i].prot = c.t.chance(1, 2);
          if (e.binaries[i].prot) e.binaries[i].compress = false;
          l->binaries()[i]->set_data(PS(e.binaries[i].data, e.binaries[i].prot));
          l->binaries()[i]->set_compress(e.binaries[i].compress);
        }
        break;
      case 14: { std::string key = gen::ident(c.t) + "k", v = gen::ident(c.t); e.custom.push_back({key, v}); l->AddField(key, v); break; }
      case 15: {
        model::GRef r;
        if (c.t.chance(3, 4)) { r.kind = model::GRef::kTree; r.index = int(c.t.below(groups.size())); }
        G to = r.kind == model::GRef::kTree ? groups[size_t(r.index)] : nullptr;
        if (c.t.chance(1, 2)) { e.recycle_bin = r; l->set_recycle_bin(to); e.recycle_changed = x.recycle_changed; l->set_recycle_bin_changed(x.recycle_changed); }
        else { e.templates = r; l->set_entry_templates(to); e.templates_changed = x.templates_changed; l->set_entry_templates_changed(x.templates_changed); }
        break;
      }
      default: {
        model::GRef r;
        r.kind = model::GRef::kTree;
        r.index = int(c.t.below(groups.size()));
        if (c.t.chance(1, 2)) { e.last_selected = r; l->set_last_selected_group(groups[size_t(r.index)]); }
        else { e.last_visible = r; l->set_last_visible_group(groups[size_t(r.index)]); }
      }
    }
  }
  void edit_db() {
    static const char* const names[] = {"cipher", "compression", "rounds", "seeds"};
    int k = int(c.t.below(4));
    if (kdb && k == 1) k = 0;
    if (!kdb && k == 0) k = 1;  // KDBX always uses AES
    note(std::string("database ") + names[k]);
    switch (k) {
      case 0: m.cipher = !m.cipher; db->set_cipher(m.cipher ? keepass::Database::Cipher::kTwofish : keepass::Database::Cipher::kAes); break;
      case 1: m.compress = !m.compress; db->set_compress(m.compress); break;
      case 2: m.rounds = 1 + c.t.below(40); db->set_transform_rounds(m.rounds); break;
      default: {
        m.master_seed = c.t.bytes(kdb ? 16 : 32);
        m.tseed = c.t.bytes(32);
        m.iv = c.t.bytes(16);
        db->set_master_seed(std::vector<uint8_t>(m.master_seed.begin(), m.master_seed.end()));
        db->set_transform_seed(bridge::arr<32>(m.tseed));
        db->set_init_vector(bridge::arr<16>(m.iv));
        if (!kdb) { m.iks = c.t.bytes(32); db->set_inner_random_stream_key(bridge::arr<32>(m.iks)); }
      }
    }
  }
  void edit() {
    auto mg = model::preorder(m.root);
    auto lg = lib_groups();
    size_t at = c.t.below(mg.size());
    if (!focus.empty() && c.t.chance(7, 8)) {
      // One entry again and again.
      for (size_t g = 0; g < mg.size(); ++g) {
        if (mg[g]->entries.empty()) continue;
        edit_entry(mg[g]->entries[0], lg[g]->Entries()[0]);
        return;
      }
    }
    switch (c.t.pick({10, 4, kdb ? 0u : 4u, 2, 3, 2})) {
      case 0: {
        for (size_t i = 0; i < mg.size(); ++i) {
          size_t g = (at + i) % mg.size();
          if (mg[g]->entries.empty()) continue;
          size_t e = c.t.below(mg[g]->entries.size());
          edit_entry(mg[g]->entries[e], lg[g]->Entries()[e]);
          return;
        }
        break;
      }
      case 1: edit_group(*mg[at], lg[at], at == 0); break;
      case 2: edit_meta(); break;
      case 3: edit_db(); break;
      case 4: {
        if (kdb && at == 0) at = mg.size() - 1;
        if (kdb && at == 0) break;
        note("add entry");
        model::Entry x = gen::entry(c.t, o, m.meta, 4000000 + us++);
        mg[at]->entries.push_back(x);
        lg[at]->AddEntry(bridge::to_entry(x, db->meta()));
        break;
      }
      default: {
        note("add groups");
        hold();
        gen::Opt few = o;
        few.max_groups = 3;
        few.max_entries = 2;
        model::Group x = gen::tree(c.t, few, m.meta);
        mg[at]->groups.push_back(x);
        lg[at]->AddGroup(bridge::to_group(x, db->meta()));
        reindex();
      }
    }
  }
};

void sessions(Case& c, bool kdb) {
  begin(c);
  gen::Opt o;
  o.kdb = kdb;
  o.max_groups = 6;
  o.max_entries = 6;
  if (kdb) { o.tz = gen::tz(c.t); pbt::set_tz(o.tz); } else pbt::set_tz(gen::tz(c.t));
  bool foreign = c.t.chance(1, 2);
  o.strict_xml = foreign;
  Session s{c, kdb, o, gen::db(c.t, o), nullptr, {}, "", 1, {}, {}};
  if (!kdb) s.m.cipher = 0;
  gen::Cred cr = simple_cred();
  Key key = make_key(c, cr);
  if (!kdb && c.t.chance(1, 3)) {
    // Attachments and the versions of the entry that have them.
    s.focus = {11, 11, 22};
    if (c.t.chance(1, 2)) s.focus.push_back(int(c.t.below(24)));
    c.label("focus");
  }
  keepass::KdbxFile fx;
  keepass::KdbFile fk;
  std::string p = c.dir + "/db";
  auto import = [&](bool same_object) { return kdb ? import_kdb(p, key, same_object ? &fk : nullptr) : import_kdbx(p, key, same_object ? &fx : nullptr); };
  auto expect = [&](const std::string& k, const std::string& what) {
    if (kdb) same_kdb(s.m, *s.db, k, what + " (" + s.log + ")"); else same_kdbx(s.m, *s.db, k, what + " (" + s.log + ")");
  };
  if (foreign) {
    pbt::SplitMix rng = c.t.sub();
    bridge::write_file(p, kdb ? ref::write_kdb(s.m, comps(cr), ref::gen_kdb_style(c.t), rng) : ref::write_kdbx(s.m, comps(cr), ref::gen_kdbx_style(c.t), rng));
    Imported i = import(c.t.chance(1, 2));
    PBT_REQUIRE(i.ok(), "import-failed", "first import failed: " << i.str());
    s.db = i.db;
    c.label("foreign file");
  } else {
    s.db = bridge::to_db(s.m, !kdb);
    c.label("built");
  }
  expect("opened", "database as opened");
  size_t n = 1 + c.t.below(4), edits = 0;
  c.describe(std::string(kdb ? "KDB " : "KDBX ") + (foreign ? "foreign " : "built ") + model::shape(s.m));
  for (size_t k = 0; k < n; ++k) {
    for (size_t i = c.t.below(9); i--; ++edits) s.edit();
    expect("edited", "database after editing");
    if (c.t.chance(1, 4)) { cr.has_pw = true; cr.pw = gen::ident(c.t); key.SetPassword(cr.pw); s.note("change password"); }
    bool so = c.t.chance(1, 2);
    Outcome e = kdb ? export_kdb(p, *s.db, key, so ? &fk : nullptr) : export_kdbx(p, *s.db, key, so ? &fx : nullptr);
    c.eval();
    PBT_REQUIRE(e.ok(), "export-failed", "export " << k << " failed after " << s.log << ": " << e.str());
    expect("saved", "database in memory after saving");
    Imported i = import(c.t.chance(1, 2));
    PBT_REQUIRE(i.ok(), "reopen-failed", "import " << k << " failed after " << s.log << ": " << i.str());
    s.log += "save; ";
    auto mem = s.db;
    s.db = i.db;
    expect("reopened", "database reopened");
    if (c.t.chance(1, 3)) { s.db = mem; s.log += "(go on with the one in memory) "; c.label("go on in memory"); }
    else s.shared.clear();
  }
  c.describe(s.log);
  if (edits) c.nontrivial(model::dump(s.m, kdb ? kKdbDump : kKdbxDump));
}
void kdbx(Case& c) { sessions(c, false); }
void kdb(Case& c) { sessions(c, true); }
}  // namespace

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C27";
  k.rule = "distinct databases at the end of a history with at least one edit through the public interface";
  k.assumptions = {"nothing can be removed (the interface has no way to); an attachment that a history entry shares with its entry is not changed in place; edits of KDB databases stay within what KDB stores"};
  k.subs = {{"kdbx", 3000, 90000, kdbx}, {"kdb", 2500, 75000, kdb}};
  return pbt::run_check(k, argc, argv);
}
