#include "bridge.hh"

#include <fstream>
#include <map>

using namespace keepass;

namespace bridge {

static protect<std::string> ps(const model::PStr& p) { return protect<std::string>(p.v, p.prot); }
static model::PStr ps(const protect<std::string>& p) { return {p.value(), p.is_protected()}; }

std::shared_ptr<Entry> to_entry(const model::Entry& m, const std::shared_ptr<Metadata>& meta) {
  auto e = std::make_shared<Entry>();
  e->set_uuid(arr<16>(m.uuid));
  e->set_icon(m.icon);
  if (m.custom_icon >= 0 && meta) e->set_custom_icon(meta->icons().at(m.custom_icon));
  e->set_title(ps(m.title));
  e->set_url(ps(m.url));
  e->set_username(ps(m.username));
  e->set_password(ps(m.password));
  e->set_notes(ps(m.notes));
  e->set_override_url(m.override_url);
  e->set_tags(m.tags);
  e->set_bg_color(m.bg);
  e->set_fg_color(m.fg);
  e->set_creation_time(m.times[0]);
  e->set_modification_time(m.times[1]);
  e->set_access_time(m.times[2]);
  e->set_expiry_time(m.times[3]);
  e->set_move_time(m.times[4]);
  e->set_expires(m.expires);
  e->set_usage_count(m.usage);
  e->auto_type().set_enabled(m.at_enabled);
  e->auto_type().set_obfuscation(m.at_obf);
  e->auto_type().set_sequence(m.at_seq);
  for (auto& a : m.assoc) e->auto_type().AddAssociation(a.window, a.sequence);
  for (auto& a : m.attachments) {
    auto at = std::make_shared<Entry::Attachment>();
    at->set_name(a.name);
    if (a.pool >= 0 && meta) {
      at->set_binary(meta->binaries().at(a.pool));
    } else if (a.has) {
      auto b = std::make_shared<Binary>(protect<std::string>(a.inl.data, a.inl.prot));
      b->set_compress(a.inl.compress);
      at->set_binary(b);
    }
    e->AddAttachment(at);
  }
  for (auto& h : m.history) e->AddHistoryEntry(to_entry(h, meta));
  for (auto& c : m.custom) {
    std::string k = c.first;
    e->AddCustomField(k, ps(c.second));
  }
  return e;
}

std::shared_ptr<Group> to_group(const model::Group& m, const std::shared_ptr<Metadata>& meta) {
  auto g = std::make_shared<Group>();
  g->set_uuid(arr<16>(m.uuid));
  g->set_icon(m.icon);
  if (m.custom_icon >= 0 && meta) g->set_custom_icon(meta->icons().at(m.custom_icon));
  g->set_name(m.name);
  g->set_notes(m.notes);
  g->set_creation_time(m.times[0]);
  g->set_modification_time(m.times[1]);
  g->set_access_time(m.times[2]);
  g->set_expiry_time(m.times[3]);
  g->set_move_time(m.times[4]);
  g->set_flags(m.flags);
  g->set_expires(m.expires);
  g->set_expanded(m.expanded);
  g->set_usage_count(m.usage);
  g->set_default_autotype_sequence(m.at_seq);
  if (m.autotype == 2) g->inherit_autotype(); else g->set_autotype(m.autotype);
  if (m.search == 2) g->inherit_search(); else g->set_search(m.search);
  for (auto& e : m.entries) g->AddEntry(to_entry(e, meta));
  for (auto& s : m.groups) g->AddGroup(to_group(s, meta));
  if (m.last_visible >= 0) g->set_last_visible_entry(g->Entries().at(m.last_visible));
  return g;
}

static void preorder(const std::shared_ptr<Group>& g, std::vector<std::shared_ptr<Group>>& o) {
  o.push_back(g);
  for (auto& s : g->Groups()) preorder(s, o);
}

std::shared_ptr<Database> to_db(const model::Db& m, bool with_meta) {
  auto db = std::make_shared<Database>();
  db->set_cipher(m.cipher ? Database::Cipher::kTwofish : Database::Cipher::kAes);
  db->set_master_seed(std::vector<uint8_t>(m.master_seed.begin(), m.master_seed.end()));
  db->set_init_vector(arr<16>(m.iv));
  db->set_transform_seed(arr<32>(m.tseed));
  db->set_inner_random_stream_key(arr<32>(m.iks));
  db->set_transform_rounds(m.rounds);
  db->set_compress(m.compress);
  std::shared_ptr<Metadata> meta;
  if (with_meta) {
    meta = std::make_shared<Metadata>();
    const model::Meta& mm = m.meta;
    meta->set_generator(mm.generator);
    meta->set_database_name(temporal<std::string>(mm.name.v, mm.name.t));
    meta->set_database_desc(temporal<std::string>(mm.desc.v, mm.desc.t));
    meta->set_default_username(temporal<std::string>(mm.user.v, mm.user.t));
    meta->set_maintenance_hist_days(mm.hist_days);
    meta->set_database_color(mm.color);
    meta->set_master_key_changed(mm.key_changed);
    meta->set_master_key_change_rec(mm.key_rec);
    meta->set_master_key_change_force(mm.key_force);
    meta->memory_protection().set_title(mm.mp[0]);
    meta->memory_protection().set_username(mm.mp[1]);
    meta->memory_protection().set_password(mm.mp[2]);
    meta->memory_protection().set_url(mm.mp[3]);
    meta->memory_protection().set_notes(mm.mp[4]);
    meta->set_recycle_bin_changed(mm.recycle_changed);
    meta->set_entry_templates_changed(mm.templates_changed);
    meta->set_history_max_items(mm.hist_items);
    meta->set_history_max_size(mm.hist_size);
    for (auto& b : mm.binaries) {
      auto bin = std::make_shared<Binary>(protect<std::string>(b.data, b.prot));
      bin->set_compress(b.compress);
      meta->AddBinary(bin);
    }
    for (auto& i : mm.icons)
      meta->AddIcon(std::make_shared<Icon>(arr<16>(i.uuid), std::vector<uint8_t>(i.data.begin(), i.data.end())));
    for (auto& c : mm.custom) meta->AddField(c.first, c.second);
  }
  auto root = to_group(m.root, meta);
  db->set_root(root);
  if (with_meta) {
    std::vector<std::shared_ptr<Group>> pre;
    preorder(root, pre);
    auto resolve = [&](const model::GRef& r) -> std::shared_ptr<Group> {
      if (r.kind == model::GRef::kTree) return pre.at(r.index);
      if (r.kind == model::GRef::kDetached) {
        auto g = std::make_shared<Group>();
        g->set_uuid(arr<16>(r.uuid));
        return g;
      }
      return nullptr;
    };
    meta->set_recycle_bin(resolve(m.meta.recycle_bin));
    meta->set_entry_templates(resolve(m.meta.templates));
    if (m.meta.last_selected.kind == model::GRef::kTree) meta->set_last_selected_group(resolve(m.meta.last_selected));
    if (m.meta.last_visible.kind == model::GRef::kTree) meta->set_last_visible_group(resolve(m.meta.last_visible));
    db->set_meta(meta);
  }
  return db;
}

namespace {
struct Snap {
  std::shared_ptr<Metadata> meta;
  std::string aliens;

  int icon_index(const std::shared_ptr<Icon>& p, const std::string& where) {
    if (!p) return -1;
    if (meta)
      for (size_t i = 0; i < meta->icons().size(); ++i) if (meta->icons()[i] == p) return int(i);
    aliens += "custom icon of " + where + " is not one of the database's icons\n";
    return -2;
  }
  model::Entry entry(Entry& e) {
    model::Entry m;
    m.uuid = str(e.uuid());
    m.icon = e.icon();
    m.custom_icon = icon_index(e.custom_icon().lock(), "entry");
    m.title = ps(e.title()); m.url = ps(e.url()); m.username = ps(e.username());
    m.password = ps(e.password()); m.notes = ps(e.notes());
    m.override_url = e.override_url(); m.tags = e.tags(); m.bg = e.bg_color(); m.fg = e.fg_color();
    m.times[0] = e.creation_time(); m.times[1] = e.modification_time(); m.times[2] = e.access_time();
    m.times[3] = e.expiry_time(); m.times[4] = e.move_time();
    m.expires = e.expires(); m.usage = e.usage_count();
    m.at_enabled = e.auto_type().enabled(); m.at_obf = e.auto_type().obfuscation(); m.at_seq = e.auto_type().sequence();
    for (auto& a : e.auto_type().associations()) m.assoc.push_back({a.window(), a.sequence()});
    for (auto& a : e.attachments()) {
      model::Attachment ma;
      if (!a) { aliens += "null attachment\n"; continue; }
      ma.name = a->name();
      auto b = a->binary();
      ma.has = !!b;
      if (b && meta)
        for (size_t i = 0; i < meta->binaries().size(); ++i) if (meta->binaries()[i] == b) { ma.pool = int(i); break; }
      if (b && ma.pool < 0) ma.inl = {b->data().value(), b->data().is_protected(), b->compress()};
      m.attachments.push_back(ma);
    }
    for (auto& h : e.history()) { if (h) m.history.push_back(entry(*h)); else aliens += "null history entry\n"; }
    for (auto& f : e.custom_fields()) m.custom.push_back({f.key(), ps(f.value())});
    return m;
  }
  model::Group group(Group& g) {
    model::Group m;
    m.uuid = str(g.uuid());
    m.icon = g.icon();
    m.custom_icon = icon_index(g.custom_icon().lock(), "group");
    m.name = g.name(); m.notes = g.notes();
    m.times[0] = g.creation_time(); m.times[1] = g.modification_time(); m.times[2] = g.access_time();
    m.times[3] = g.expiry_time(); m.times[4] = g.move_time();
    m.flags = g.flags(); m.expires = g.expires(); m.expanded = g.expanded(); m.usage = g.usage_count();
    m.at_seq = g.default_autotype_sequence(); m.autotype = g.autotype_inherited() ? 2 : g.autotype(); m.search = g.search_inherited() ? 2 : g.search();
    auto lv = g.last_visible_entry().lock();
    if (lv) {
      m.last_visible = -2;
      for (size_t i = 0; i < g.Entries().size(); ++i) if (g.Entries()[i] == lv) m.last_visible = int(i);
      if (m.last_visible == -2) aliens += "last visible entry is not an entry of its group\n";
    }
    for (auto& e : g.Entries()) { if (e) m.entries.push_back(entry(*e)); else aliens += "null entry\n"; }
    for (auto& s : g.Groups()) { if (s) m.groups.push_back(group(*s)); else aliens += "null group\n"; }
    return m;
  }
};
}  // namespace

model::Entry from_entry(Entry& e) { Snap s; return s.entry(e); }

model::Db from_db(const Database& db, std::string* aliens) {
  Snap s;
  s.meta = db.meta();
  model::Db m;
  m.cipher = db.cipher() == Database::Cipher::kTwofish;
  m.master_seed = std::string(db.master_seed().begin(), db.master_seed().end());
  m.iv = str(db.init_vector());
  m.tseed = str(db.transform_seed());
  m.iks = str(db.inner_random_stream_key());
  m.rounds = db.transform_rounds();
  m.compress = db.compress();
  if (!db.root()) { if (aliens) *aliens = "no root\n"; return m; }
  m.root = s.group(*db.root());
  if (auto meta = db.meta()) {
    model::Meta& o = m.meta;
    o.generator = meta->generator();
    o.name = {meta->database_name().value(), meta->database_name().time()};
    o.desc = {meta->database_desc().value(), meta->database_desc().time()};
    o.user = {meta->default_username().value(), meta->default_username().time()};
    o.hist_days = meta->maintenance_hist_days();
    o.color = meta->database_color();
    o.key_changed = meta->master_key_changed();
    o.key_rec = meta->master_key_change_rec();
    o.key_force = meta->master_key_change_force();
    auto& mp = meta->memory_protection();
    o.mp[0] = mp.title(); o.mp[1] = mp.username(); o.mp[2] = mp.password(); o.mp[3] = mp.url(); o.mp[4] = mp.notes();
    o.recycle_changed = meta->recycle_bin_changed();
    o.templates_changed = meta->entry_templates_changed();
    o.hist_items = meta->history_max_items();
    o.hist_size = meta->history_max_size();
    for (auto& i : meta->icons()) o.icons.push_back({str(i->uuid()), std::string(i->data().begin(), i->data().end())});
    for (auto& b : meta->binaries()) o.binaries.push_back({b->data().value(), b->data().is_protected(), b->compress()});
    for (auto& f : meta->fields()) o.custom.push_back({f.key(), f.value()});
    std::vector<std::shared_ptr<Group>> pre;
    preorder(db.root(), pre);
    auto gref = [&](const std::shared_ptr<Group>& g) {
      model::GRef r;
      if (!g) return r;
      for (size_t i = 0; i < pre.size(); ++i)
        if (pre[i] == g) { r.kind = model::GRef::kTree; r.index = int(i); return r; }
      r.kind = model::GRef::kDetached;
      r.uuid = str(g->uuid());
      return r;
    };
    o.recycle_bin = gref(meta->recycle_bin());
    o.templates = gref(meta->entry_templates());
    o.last_selected = gref(meta->last_selected_group().lock());
    o.last_visible = gref(meta->last_visible_group().lock());
  }
  if (aliens) *aliens = s.aliens;
  return m;
}

std::string read_file(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
void write_file(const std::string& path, const std::string& data) {
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f.write(data.data(), data.size());
  f.close();
  if (!f) throw std::runtime_error("harness: cannot write " + path);
}

}  // namespace bridge
