// Conversion between the plain model and the library's public object model.
#pragma once
#include <memory>
#include <string>

#include "../ref/model.hh"
#include "binary.hh"
#include "database.hh"
#include "entry.hh"
#include "exception.hh"
#include "group.hh"
#include "icon.hh"
#include "kdb.hh"
#include "kdbx.hh"
#include "key.hh"
#include "metadata.hh"

namespace bridge {

template <size_t N>
std::array<uint8_t, N> arr(const std::string& s) {
  std::array<uint8_t, N> a{};
  for (size_t i = 0; i < N && i < s.size(); ++i) a[i] = static_cast<uint8_t>(s[i]);
  return a;
}
template <class A>
std::string str(const A& a) { return std::string(a.begin(), a.end()); }

std::shared_ptr<keepass::Database> to_db(const model::Db& m, bool with_meta = true);
std::shared_ptr<keepass::Entry> to_entry(const model::Entry& e, const std::shared_ptr<keepass::Metadata>& meta);
std::shared_ptr<keepass::Group> to_group(const model::Group& g, const std::shared_ptr<keepass::Metadata>& meta);

// Snapshot through the public getters. References that do not denote an object
// of the snapshot's own tree/pools are reported through `aliens` (and appear as
// detached / inline), so identity errors are visible.
model::Db from_db(const keepass::Database& db, std::string* aliens = nullptr);
model::Entry from_entry(keepass::Entry& e);

std::string read_file(const std::string& path);
void write_file(const std::string& path, const std::string& data);

}  // namespace bridge
