#include "xml.hh"

#include <cstring>

namespace ref {

bool valid_utf8(const std::string& s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
    if (n < 0 || i + n >= s.size()) return false;
    uint32_t v = n == 0 ? c : c & (0x3f >> n);
    for (int k = 1; k <= n; ++k) {
      unsigned char d = s[i + k];
      if ((d & 0xc0) != 0x80) return false;
      v = v << 6 | (d & 63);
    }
    if ((n == 2 && v < 0x800) || (n == 3 && (v < 0x10000 || v > 0x10ffff)) || (v >= 0xd800 && v < 0xe000)) return false;
    i += n + 1;
  }
  return true;
}

static std::string utf8(uint32_t c) {
  std::string s;
  if (c < 0x80) s += char(c);
  else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); }
  else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
  else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
  return s;
}

namespace {
struct Parser {
  const Bytes& s;
  XmlParseOpt opt;
  size_t p = 0;
  int depth = 0;

  [[noreturn]] void err(const std::string& m) { throw Error("XML: " + m + " at offset " + std::to_string(p)); }
  bool at(const char* t) { return s.compare(p, strlen(t), t) == 0; }
  bool eof() { return p >= s.size(); }
  static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
  void skip_ws() { while (!eof() && ws(s[p])) ++p; }
  static bool name_start(unsigned char c) { return isalpha(c) || c == '_' || c == ':' || c >= 0x80; }
  static bool name_char(unsigned char c) { return name_start(c) || isdigit(c) || c == '-' || c == '.'; }
  std::string name() {
    if (eof() || !name_start(s[p])) err("name expected");
    size_t b = p;
    while (!eof() && name_char(s[p])) ++p;
    return s.substr(b, p - b);
  }
  void check_char(unsigned char c) {
    if (c == 0) err("NUL character");
    if (opt.strict_chars && c < 32 && c != '\t' && c != '\n' && c != '\r') err("illegal control character");
  }
  std::string reference() {
    ++p;  // &
    size_t e = s.find(';', p);
    if (e == std::string::npos || e - p > 10 || e == p) err("bad reference");
    std::string r = s.substr(p, e - p);
    p = e + 1;
    if (r == "amp") return "&";
    if (r == "lt") return "<";
    if (r == "gt") return ">";
    if (r == "quot") return "\"";
    if (r == "apos") return "'";
    if (r[0] != '#') err("unknown entity " + r);
    uint32_t v = 0;
    bool hexa = r.size() > 1 && r[1] == 'x';
    size_t i = hexa ? 2 : 1;
    if (i >= r.size()) err("bad character reference");
    for (; i < r.size(); ++i) {
      int d = isdigit((unsigned char)r[i]) ? r[i] - '0' : hexa && isxdigit((unsigned char)r[i]) ? tolower(r[i]) - 'a' + 10 : -1;
      if (d < 0) err("bad character reference");
      v = v * (hexa ? 16 : 10) + d;
      if (v > 0x10ffff) err("character reference out of range");
    }
    if (v == 0 || (v >= 0xd800 && v < 0xe000)) err("character reference to no character");
    if (opt.strict_chars && v < 32 && v != 9 && v != 10 && v != 13) err("reference to illegal character");
    return utf8(v);
  }
  void comment() {
    size_t e = s.find("--", p + 4);
    if (e == std::string::npos || e + 2 >= s.size() || s[e + 2] != '>') err("bad comment");
    p = e + 3;
  }
  void pi() {
    size_t e = s.find("?>", p);
    if (e == std::string::npos) err("unterminated processing instruction");
    p = e + 2;
  }
  void misc() {
    for (;;) {
      skip_ws();
      if (at("<!--")) comment();
      else if (at("<?")) pi();
      else return;
    }
  }
  Node element() {
    if (++depth > 20000) err("too deep");
    ++p;
    Node n(name());
    for (;;) {
      size_t before = p;
      skip_ws();
      if (eof()) err("unterminated tag");
      if (s[p] == '>') { ++p; break; }
      if (at("/>")) { p += 2; --depth; return n; }
      if (before == p) err("white space expected in tag");
      std::string a = name();
      skip_ws();
      if (eof() || s[p] != '=') err("= expected");
      ++p;
      skip_ws();
      if (eof() || (s[p] != '"' && s[p] != '\'')) err("quote expected");
      char q = s[p++];
      std::string v;
      while (!eof() && s[p] != q) {
        if (s[p] == '<') err("< in attribute");
        if (s[p] == '&') { v += reference(); continue; }
        check_char(s[p]);
        v += ws(s[p]) ? ' ' : s[p];
        ++p;
      }
      if (eof()) err("unterminated attribute");
      ++p;
      if (n.attr(a)) err("duplicate attribute " + a);
      n.attrs.push_back({a, v});
    }
    std::string text;
    for (;;) {
      if (eof()) err("unterminated element " + n.name);
      char c = s[p];
      if (c == '<') {
        if (at("</")) {
          p += 2;
          std::string e = name();
          if (e != n.name) err("mismatched end tag " + e + " for " + n.name);
          skip_ws();
          if (eof() || s[p] != '>') err("> expected");
          ++p;
          break;
        }
        if (at("<!--")) { comment(); continue; }
        if (at("<![CDATA[")) {
          size_t e = s.find("]]>", p + 9);
          if (e == std::string::npos) err("unterminated CDATA");
          for (size_t i = p + 9; i < e; ++i) {
            check_char(s[i]);
            if (s[i] == '\r') { text += '\n'; if (s[i + 1] == '\n') ++i; } else text += s[i];
          }
          p = e + 3;
          continue;
        }
        if (at("<?")) { pi(); continue; }
        if (p + 1 < s.size() && !name_start(s[p + 1])) err("stray <");
        n.kids.push_back(element());
        continue;
      }
      if (c == '&') { text += reference(); continue; }
      if (at("]]>")) err("]]> in text");
      check_char(c);
      if (c == '\r') { text += '\n'; ++p; if (!eof() && s[p] == '\n') ++p; continue; }
      text += c;
      ++p;
    }
    if (n.kids.empty()) n.text = text;
    else for (char c : text) if (!ws(c)) err("text mixed with elements in " + n.name);
    --depth;
    return n;
  }
};
}  // namespace

Node parse_xml(const Bytes& s, const XmlParseOpt& opt) {
  Parser ps{s, opt};
  if (opt.strict_chars && !valid_utf8(s)) throw Error("XML: not UTF-8");
  if (ps.at("\xef\xbb\xbf")) ps.p = 3;
  if (ps.at("<?xml")) ps.pi();
  ps.misc();
  if (ps.eof() || !ps.at("<")) ps.err("no root element");
  Node n = ps.element();
  ps.misc();
  if (!ps.eof()) ps.err("content after the root element");
  return n;
}

XmlStyle plain_style() { return XmlStyle(); }

XmlStyle gen_style(pbt::Tape& t) {
  XmlStyle st;
  st.bom = t.chance(1, 6);
  st.decl = !t.chance(1, 4);
  st.pretty = !t.chance(1, 3);
  st.crlf = t.chance(1, 5);
  static const std::vector<std::string> ind = {"\t", "  ", "", "    ", " \t"};
  st.indent = t.of(ind);
  st.self_close = t.chance(1, 2);
  st.cdata = t.chance(1, 3) ? 1 + t.below(8) : 0;
  st.charref = t.chance(1, 3) ? 1 + t.below(8) : 0;
  st.comments = t.chance(1, 4) ? 1 + t.below(4) : 0;
  st.apos_attr = t.chance(1, 4);
  st.b64_wrap = t.chance(1, 4);
  st.gt_raw = t.chance(1, 2);
  return st;
}

namespace {
struct Writer {
  const XmlStyle& st;
  pbt::SplitMix r;
  std::string o;
  unsigned below(unsigned n) { return unsigned((r.next() >> 20) % n); }
  void nl(int d) {
    if (!st.pretty) return;
    o += st.crlf ? "\r\n" : "\n";
    for (int i = 0; i < d; ++i) o += st.indent;
  }
  std::string esc(const std::string& s, bool attr) {
    std::string e;
    bool refs = below(8) < st.charref;
    for (size_t i = 0; i < s.size(); ++i) {
      unsigned char c = s[i];
      if (c == '&') e += refs && below(2) ? "&#38;" : "&amp;";
      else if (c == '<') e += refs && below(2) ? "&#x3c;" : "&lt;";
      else if (c == '>') {
        bool must = i >= 2 && s[i - 1] == ']' && s[i - 2] == ']';
        e += !must && st.gt_raw ? ">" : refs ? "&#62;" : "&gt;";
      } else if (c == '"' && (attr || below(4) == 0)) e += "&quot;";
      else if (c == '\'' && (attr || below(4) == 0)) e += "&apos;";
      else if (c == '\r' || (attr && c < 32)) e += "&#" + std::to_string(c) + ";";
      else if (refs && below(4) == 0 && c >= 32 && c < 0x80) {
        char b[16];
        static const char* f[] = {"&#%u;", "&#x%X;", "&#x%x;", "&#%04u;"};
        snprintf(b, sizeof b, f[below(4)], c);
        e += b;
      } else if (refs && below(3) == 0 && c >= 0xc2) {
        int n = c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
        uint32_t v = c & (0x3f >> n);
        bool ok = i + n < s.size();
        for (int k = 1; ok && k <= n; ++k) {
          unsigned char d = s[i + k];
          ok = (d & 0xc0) == 0x80;
          v = v << 6 | (d & 63);
        }
        if (ok) { e += "&#" + std::to_string(v) + ";"; i += n; } else e += char(c);
      } else e += char(c);
    }
    return e;
  }
  void junk(int d) {
    if (below(8) < st.comments) {
      nl(d);
      o += below(2) ? "<!-- c <Entry> & -->" : "<?pi x=\"1\"?>";
    }
  }
  void el(const Node& n, int d) {
    o += '<';
    o += n.name;
    for (auto& a : n.attrs) {
      char q = st.apos_attr ? '\'' : '"';
      o += ' ';
      o += a.first;
      o += below(8) < st.comments ? " = " : "=";
      o += q;
      o += esc(a.second, true);
      o += q;
    }
    if (n.kids.empty() && n.text.empty() && st.self_close) { o += below(2) ? " />" : "/>"; return; }
    o += '>';
    if (n.kids.empty()) {
      std::string t = n.text;
      if (n.b64 && st.b64_wrap && !t.empty()) {
        std::string w;
        size_t every = 1 + below(80), k = 0;
        if (below(2)) w += "\n\t ";
        for (char c : t) { if (k && k % every == 0) w += below(3) ? "\n" : " "; w += c; ++k; }
        if (below(2)) w += "\n  ";
        t = w;
      }
      if (!t.empty() && below(8) < st.cdata && t.find("]]>") == std::string::npos && t.find('\r') == std::string::npos) o += "<![CDATA[" + t + "]]>";
      else o += esc(t, false);
    } else {
      for (auto& k : n.kids) { junk(d + 1); nl(d + 1); el(k, d + 1); }
      junk(d + 1);
      nl(d);
    }
    o += "</" + n.name;
    if (below(8) < st.comments) o += " ";
    o += '>';
  }
};
}  // namespace

Bytes write_xml(const Node& root, const XmlStyle& st, pbt::SplitMix rng) {
  Writer w{st, rng, ""};
  if (st.bom) w.o += "\xef\xbb\xbf";
  if (st.decl) w.o += st.apos_attr ? "<?xml version='1.0' encoding='UTF-8'?>" : "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>";
  if (st.decl) w.nl(0);
  w.junk(0);
  w.el(root, 0);
  w.junk(0);
  if (st.pretty) w.nl(0);
  return w.o;
}

namespace {
struct JP {
  const std::string& s;
  size_t p = 0;
  int depth = 0;
  [[noreturn]] void err(const std::string& m) { throw Error("JSON: " + m + " at offset " + std::to_string(p)); }
  void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) ++p; }
  char peek() { if (p >= s.size()) err("unexpected end"); return s[p]; }
  uint32_t hex4() {
    uint32_t v = 0;
    for (int i = 0; i < 4; ++i) {
      char c = peek();
      if (!isxdigit((unsigned char)c)) err("bad \\u escape");
      v = v * 16 + (isdigit((unsigned char)c) ? c - '0' : tolower(c) - 'a' + 10);
      ++p;
    }
    return v;
  }
  std::string str() {
    if (peek() != '"') err("string expected");
    ++p;
    std::string o;
    for (;;) {
      unsigned char c = peek();
      ++p;
      if (c == '"') return o;
      if (c < 32) { --p; err("raw control character in string"); }
      if (c != '\\') { o += char(c); continue; }
      char e = peek();
      ++p;
      switch (e) {
        case '"': case '\\': case '/': o += e; break;
        case 'b': o += '\b'; break;
        case 'f': o += '\f'; break;
        case 'n': o += '\n'; break;
        case 'r': o += '\r'; break;
        case 't': o += '\t'; break;
        case 'u': {
          uint32_t v = hex4();
          if (v >= 0xd800 && v < 0xdc00) {
            if (peek() != '\\') err("lone surrogate");
            ++p;
            if (peek() != 'u') err("lone surrogate");
            ++p;
            uint32_t w = hex4();
            if (w < 0xdc00 || w >= 0xe000) err("bad surrogate pair");
            v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
          } else if (v >= 0xdc00 && v < 0xe000) err("lone surrogate");
          o += utf8(v);
          break;
        }
        default: err("bad escape");
      }
    }
  }
  Json value() {
    if (++depth > 5000) err("too deep");
    ws();
    Json j;
    char c = peek();
    if (c == '{') {
      j.kind = Json::kObject;
      ++p;
      ws();
      if (peek() == '}') ++p;
      else for (;;) {
        ws();
        std::string k = str();
        if (j.get(k)) err("duplicate member " + k);
        ws();
        if (peek() != ':') err(": expected");
        ++p;
        Json v = value();
        j.o.push_back({k, v});
        ws();
        if (peek() == ',') { ++p; continue; }
        if (peek() == '}') { ++p; break; }
        err(", or } expected");
      }
    } else if (c == '[') {
      j.kind = Json::kArray;
      ++p;
      ws();
      if (peek() == ']') ++p;
      else for (;;) {
        j.a.push_back(value());
        ws();
        if (peek() == ',') { ++p; continue; }
        if (peek() == ']') { ++p; break; }
        err(", or ] expected");
      }
    } else if (c == '"') {
      j.kind = Json::kString;
      j.s = str();
    } else if (s.compare(p, 4, "true") == 0) { j.kind = Json::kBool; j.b = true; p += 4; }
    else if (s.compare(p, 5, "false") == 0) { j.kind = Json::kBool; p += 5; }
    else if (s.compare(p, 4, "null") == 0) { p += 4; }
    else {
      j.kind = Json::kNumber;
      size_t b = p;
      if (peek() == '-') ++p;
      if (peek() == '0') ++p;
      else if (isdigit((unsigned char)peek())) while (p < s.size() && isdigit((unsigned char)s[p])) ++p;
      else err("value expected");
      if (p < s.size() && s[p] == '.') { ++p; if (!isdigit((unsigned char)peek())) err("bad number"); while (p < s.size() && isdigit((unsigned char)s[p])) ++p; }
      if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) {
        ++p;
        if (peek() == '+' || peek() == '-') ++p;
        if (!isdigit((unsigned char)peek())) err("bad number");
        while (p < s.size() && isdigit((unsigned char)s[p])) ++p;
      }
      j.s = s.substr(b, p - b);
    }
    --depth;
    return j;
  }
};
}  // namespace

Json parse_json(const std::string& s) {
  JP jp{s};
  Json j = jp.value();
  jp.ws();
  if (jp.p != s.size()) jp.err("trailing text");
  return j;
}
}  // namespace ref
