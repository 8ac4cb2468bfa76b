// Independent strict XML 1.0 subset parser and a style-driven writer.
#pragma once
#include <string>
#include <utility>
#include <vector>

#include "../pbt/engine.hh"
#include "crypto.hh"

namespace ref {

struct Node {
  std::string name;
  std::vector<std::pair<std::string, std::string>> attrs;
  std::vector<Node> kids;
  std::string text;       // character data of an element without child elements
  // Writer hints.
  bool b64 = false;       // white space may be inserted in the text
  bool prot = false;      // text is plaintext still to be obfuscated
  bool fixed = false;     // never insert unknown siblings/attributes here

  Node() {}
  explicit Node(const std::string& n, const std::string& t = "") : name(n), text(t) {}
  const Node* child(const std::string& n) const {
    for (auto& k : kids) if (k.name == n) return &k;
    return nullptr;
  }
  size_t count(const std::string& n) const {
    size_t c = 0;
    for (auto& k : kids) c += k.name == n;
    return c;
  }
  const std::string* attr(const std::string& n) const {
    for (auto& a : attrs) if (a.first == n) return &a.second;
    return nullptr;
  }
  Node& add(const Node& n) { kids.push_back(n); return kids.back(); }
  Node& add(const std::string& n, const std::string& t = "") { kids.push_back(Node(n, t)); return kids.back(); }
};

struct XmlParseOpt {
  bool strict_chars = true;  // reject characters XML 1.0 does not allow
};
Node parse_xml(const Bytes& s, const XmlParseOpt& opt = {});  // returns the root element

struct XmlStyle {
  bool bom = false, decl = true, pretty = true, crlf = false;
  std::string indent = "\t";
  bool self_close = false;    // <a /> for empty elements
  unsigned cdata = 0;         // out of 8: whole-text CDATA
  unsigned charref = 0;       // out of 8: encode some characters as references
  unsigned comments = 0;      // out of 8: comments/PIs between elements
  bool apos_attr = false;     // single-quoted attributes
  bool b64_wrap = false;      // line breaks inside base64 text
  bool gt_raw = true;         // leave '>' unescaped where allowed
};
XmlStyle plain_style();
XmlStyle gen_style(pbt::Tape& t);
Bytes write_xml(const Node& root, const XmlStyle& st, pbt::SplitMix rng);

// Strict JSON.
struct Json {
  enum Kind { kNull, kBool, kNumber, kString, kArray, kObject } kind = kNull;
  bool b = false;
  std::string s;  // string value (UTF-8) or number literal
  std::vector<Json> a;
  std::vector<std::pair<std::string, Json>> o;
  const Json* get(const std::string& k) const {
    for (auto& p : o) if (p.first == k) return &p.second;
    return nullptr;
  }
};
Json parse_json(const std::string& s);  // throws Error

bool valid_utf8(const std::string& s);
}  // namespace ref
