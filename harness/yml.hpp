// A reader for the YAML subset cv::FileStorage writes, independent of OpenCV:
// keeps duplicated keys (a well-formed result file has none) and order.
#pragma once
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace yml {
struct Node {
  enum Kind { Scalar, Map, Seq } kind = Scalar;
  std::string s;
  std::vector<std::pair<std::string, Node>> m;
  std::vector<Node> q;
  int count(const std::string &k) const {
    int n = 0;
    for (auto &x : m)
      n += x.first == k;
    return n;
  }
  const Node &at(const std::string &k) const {
    for (auto &x : m)
      if (x.first == k)
        return x.second;
    throw std::runtime_error("no key " + k);
  }
  double num() const {
    if (kind != Scalar || s.empty())
      throw std::runtime_error("not a number");
    char *e;
    std::string t = s;
    if (t == ".Nan" || t == "-.Nan")
      return NAN;
    if (t == ".Inf")
      return INFINITY;
    if (t == "-.Inf")
      return -INFINITY;
    double d = strtod(t.c_str(), &e);
    if (*e)
      throw std::runtime_error("not a number: " + s);
    return d;
  }
  int i() const { return int(num()); }
  std::vector<double> nums() const {
    std::vector<double> v;
    for (auto &x : q)
      v.push_back(x.num());
    return v;
  }
};
struct Mat {
  int rows = 0, cols = 0;
  std::vector<double> d;
  double operator()(int r, int c) const { return d.at(size_t(r) * cols + c); }
};
inline Mat mat(const Node &n) {
  Mat m;
  m.rows = n.at("rows").i();
  m.cols = n.at("cols").i();
  m.d = n.at("data").nums();
  if (m.d.size() != size_t(m.rows) * m.cols)
    throw std::runtime_error("matrix size");
  return m;
}

class Parser {
  std::vector<std::pair<int, std::string>> lines; // indent, text
  size_t k = 0;
  static std::string unq(const std::string &t) {
    if (t.size() >= 2 && t[0] == '"' && t.back() == '"') {
      std::string o;
      for (size_t i = 1; i + 1 < t.size(); i++) {
        if (t[i] == '\\' && i + 2 < t.size())
          i++;
        o += t[i];
      }
      return o;
    }
    return t;
  }
  static std::string strip(std::string t) {
    while (!t.empty() && (t.back() == ' ' || t.back() == '\r'))
      t.pop_back();
    size_t a = t.find_first_not_of(' ');
    return a == std::string::npos ? "" : t.substr(a);
  }
  Node flow(std::string t) { // t starts with [ or {, may continue on later lines
    auto closed = [](const std::string &x) {
      int d = 0;
      bool q = false;
      for (size_t i = 0; i < x.size(); i++) {
        char ch = x[i];
        if (ch == '\\' && q) {
          i++;
          continue;
        }
        if (ch == '"')
          q = !q;
        if (q)
          continue;
        d += (ch == '[' || ch == '{') - (ch == ']' || ch == '}');
      }
      return d == 0;
    };
    while (!closed(t)) {
      if (k >= lines.size())
        throw std::runtime_error("unterminated sequence");
      t += " " + lines[k++].second;
    }
    size_t p = 0;
    Node n = flowAt(t, p);
    return n;
  }
  Node flowAt(const std::string &t, size_t &p) {
    Node n;
    auto ws = [&] {
      while (p < t.size() && t[p] == ' ')
        p++;
    };
    ws();
    if (p < t.size() && (t[p] == '[' || t[p] == '{')) {
      bool map = t[p] == '{';
      n.kind = map ? Node::Map : Node::Seq;
      p++;
      ws();
      while (p < t.size() && t[p] != ']' && t[p] != '}') {
        std::string key;
        if (map) {
          size_t c = t.find(':', p);
          if (c == std::string::npos)
            throw std::runtime_error("flow map");
          key = strip(t.substr(p, c - p));
          p = c + 1;
        }
        Node v = flowAt(t, p);
        if (map)
          n.m.push_back({key, v});
        else
          n.q.push_back(v);
        ws();
        if (p < t.size() && t[p] == ',')
          p++;
        ws();
      }
      p++;
      return n;
    }
    size_t a = p;
    if (p < t.size() && t[p] == '"') {
      p++;
      while (p < t.size() && t[p] != '"')
        p += t[p] == '\\' ? 2 : 1;
      p++;
    } else
      while (p < t.size() && t[p] != ',' && t[p] != ']' && t[p] != '}')
        p++;
    n.s = unq(strip(t.substr(a, p - a)));
    return n;
  }
  Node value(std::string t, int indent) {
    if (t.rfind("!!", 0) == 0) {
      size_t sp = t.find(' ');
      t = sp == std::string::npos ? "" : strip(t.substr(sp));
    }
    if (t.empty())
      return block(indent);
    if (t[0] == '[' || t[0] == '{')
      return flow(t);
    Node n;
    n.s = unq(t);
    return n;
  }
  // the block whose lines are indented deeper than `parent`
  Node block(int parent) {
    Node n;
    if (k >= lines.size() || (lines[k].first <= parent))
      return n; // empty value
    if (lines[k].second[0] == '[' || lines[k].second[0] == '{')
      return flow(lines[k++].second); // an empty list goes on its own line
    int ind = lines[k].first;
    bool seq = lines[k].second == "-" || lines[k].second.rfind("- ", 0) == 0;
    n.kind = seq ? Node::Seq : Node::Map;
    while (k < lines.size() && lines[k].first == ind) {
      std::string t = lines[k].second;
      if (seq) {
        if (!(t == "-" || t.rfind("- ", 0) == 0))
          throw std::runtime_error("mixed sequence: " + t);
        std::string rest = strip(t.substr(1));
        bool plain = rest.empty() || rest[0] == '[' || rest[0] == '{' || rest[0] == '"' || rest[0] == '!';
        size_t c = plain ? std::string::npos : rest.find(": ");
        if (!plain && (c != std::string::npos || rest.back() == ':')) { // map item inline
          lines[k] = {ind + 2, rest};
          n.q.push_back(block(ind));
        } else {
          k++;
          n.q.push_back(value(rest, ind));
        }
      } else {
        size_t c = t[0] == '"' ? t.find("\":") : t.find(':');
        if (c == std::string::npos)
          throw std::runtime_error("no key in line: " + t);
        if (t[0] == '"')
          c++;
        std::string key = unq(strip(t.substr(0, c)));
        k++;
        std::string rest = strip(t.substr(c + 1));
        // a block sequence may sit at the indentation of its key
        if ((rest.empty()) && k < lines.size() && lines[k].first == ind &&
            (lines[k].second == "-" || lines[k].second.rfind("- ", 0) == 0))
          n.m.push_back({key, block(ind - 1)});
        else
          n.m.push_back({key, value(rest, ind)});
      }
    }
    if (k < lines.size() && lines[k].first > ind)
      throw std::runtime_error("bad indentation: " + lines[k].second);
    return n;
  }

public:
  Node parse(const std::string &path) {
    std::ifstream f(path);
    if (!f)
      throw std::runtime_error("cannot open " + path);
    std::string l;
    bool first = true;
    while (std::getline(f, l)) {
      if (first && l.rfind("%YAML", 0) != 0)
        throw std::runtime_error("no YAML header in " + path);
      if (first) {
        first = false;
        continue;
      }
      if (l == "---" || l == "...")
        continue;
      std::string t = strip(l);
      if (t.empty())
        continue;
      lines.push_back({int(l.find_first_not_of(' ')), t});
    }
    if (first)
      throw std::runtime_error("empty file " + path);
    Node n = block(-1);
    if (n.kind == Node::Scalar)
      n.kind = Node::Map;
    if (k != lines.size())
      throw std::runtime_error("trailing content in " + path + ": " + lines[k].second);
    return n;
  }
};
inline Node load(const std::string &p) { return Parser().parse(p); }
} // namespace yml
