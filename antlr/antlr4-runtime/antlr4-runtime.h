// A small stand-in for the ANTLR 4 C++ runtime: a table driven lexer and
// parser with the interface the parse tree visitors of mpact-sim use. The
// tables and the typed contexts are generated from the grammars in /repo by
// g4.py. The parser explores all derivations (chart of end positions) and
// prefers the first alternative and the longest repetition, as ANTLR does;
// directly left recursive rules are parsed by precedence climbing.
#ifndef VERIF_ANTLR4_RUNTIME_H_
#define VERIF_ANTLR4_RUNTIME_H_
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <iostream>
#include <istream>
#include <iterator>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace antlrcpp {
class BitSet {};
}  // namespace antlrcpp

namespace antlr4 {

class Recognizer {};
namespace dfa {
class DFA {};
}  // namespace dfa
namespace atn {
class ATNConfigSet {};
}  // namespace atn

class Token {
 public:
  virtual ~Token() = default;
  std::string getText() const { return text; }
  size_t getLine() const { return line; }
  size_t getCharPositionInLine() const { return column; }
  size_t getType() const { return static_cast<size_t>(type); }
  std::string text;
  int type = 0;
  size_t line = 0, column = 0;
};
using CommonToken = Token;

class Parser;
class BaseErrorListener {
 public:
  virtual ~BaseErrorListener() = default;
  virtual void syntaxError(Recognizer*, Token*, size_t, size_t,
                           const std::string&, std::exception_ptr) {}
  virtual void reportAmbiguity(Parser*, const dfa::DFA&, size_t, size_t, bool,
                               const antlrcpp::BitSet&, atn::ATNConfigSet*) {}
  virtual void reportAttemptingFullContext(Parser*, const dfa::DFA&, size_t,
                                           size_t, const antlrcpp::BitSet&,
                                           atn::ATNConfigSet*) {}
  virtual void reportContextSensitivity(Parser*, const dfa::DFA&, size_t,
                                        size_t, size_t, atn::ATNConfigSet*) {}
};

namespace tree {
class ParseTree {
 public:
  virtual ~ParseTree() = default;
  virtual std::string getText() = 0;
};
class TerminalNode : public ParseTree {
 public:
  std::string getText() override { return symbol->getText(); }
  Token* getSymbol() const { return symbol; }
  Token* symbol = nullptr;
};
}  // namespace tree

class ParserRuleContext : public tree::ParseTree {
 public:
  std::string getText() override {
    std::string s;
    for (auto* c : children) s += c->getText();
    return s;
  }
  Token* getStart() const { return start; }
  Token* getStop() const { return stop; }
  virtual void setLabel(int, Token*, ParserRuleContext*) {}
  Token* start = nullptr;
  Token* stop = nullptr;
  int rule = -1;
  std::vector<tree::ParseTree*> children;

  template <typename T>
  std::vector<T*> rules(int r) const {
    std::vector<T*> v;
    for (auto* c : children) {
      auto* x = dynamic_cast<ParserRuleContext*>(c);
      if (x && x->rule == r) v.push_back(static_cast<T*>(x));
    }
    return v;
  }
  std::vector<tree::TerminalNode*> tokens(int t) const {
    std::vector<tree::TerminalNode*> v;
    for (auto* c : children) {
      auto* x = dynamic_cast<tree::TerminalNode*>(c);
      if (x && x->symbol->type == t) v.push_back(x);
    }
    return v;
  }
  template <typename V>
  static auto at(const V& v, size_t i) -> typename V::value_type {
    return i < v.size() ? v[i] : nullptr;
  }
};

class ANTLRInputStream {
 public:
  ANTLRInputStream() = default;
  explicit ANTLRInputStream(const std::string& s) : text(s) {}
  void load(std::istream& s, bool = false) {
    text.assign(std::istreambuf_iterator<char>(s),
                std::istreambuf_iterator<char>());
  }
  void load(const std::string& s, bool = false) { text = s; }
  std::string text;
};

// ---- lexer ----
// Lexer expressions: the set of end positions reachable from a start position.
struct Lx {
  enum Kind { kSeq, kAlt, kRep, kSet, kEof } kind = kSeq;
  std::vector<int> kids;
  int min = 0, max = -1;   // kRep
  std::vector<std::pair<int, int>> ranges;  // kSet
  bool negate = false;
};
struct LexRule {
  const char* name;
  int type;
  int root;
  bool shortest, hidden;
};
struct LexTables {
  std::vector<Lx> nodes;
  std::vector<LexRule> rules;
};

class Lexer {
 public:
  Lexer(const LexTables& t, ANTLRInputStream* in) : t_(t), s_(in->text) {
    size_t pos = 0, line = 1, col = 0;
    while (pos < s_.size()) {
      size_t best = 0;
      const LexRule* rule = nullptr;
      for (auto& r : t_.rules) {
        auto ends = Ends(r.root, {pos});
        ends.erase(pos);
        if (ends.empty()) continue;
        size_t e = r.shortest ? *ends.begin() : *ends.rbegin();
        if (e - pos > best) {
          best = e - pos;
          rule = &r;
        }
      }
      if (rule == nullptr) {
        errors.push_back({line, col, "token recognition error at: '" +
                                         s_.substr(pos, 1) + "'"});
        best = 1;
      } else if (!rule->hidden) {
        auto k = std::make_unique<Token>();
        k->text = s_.substr(pos, best);
        k->type = rule->type;
        k->line = line;
        k->column = col;
        tokens.push_back(std::move(k));
      }
      for (size_t i = pos; i < pos + best; i++) {
        if (s_[i] == '\n') {
          line++;
          col = 0;
        } else {
          col++;
        }
      }
      pos += best;
    }
    auto k = std::make_unique<Token>();
    k->text = "<EOF>";
    k->type = -1;
    k->line = line;
    k->column = col;
    tokens.push_back(std::move(k));
  }
  struct Error {
    size_t line, col;
    std::string msg;
  };
  std::vector<std::unique_ptr<Token>> tokens;
  std::vector<Error> errors;
  void removeErrorListeners() {}
  void addErrorListener(BaseErrorListener*) {}

 private:
  std::set<size_t> Ends(int n, const std::set<size_t>& from) {
    const Lx& x = t_.nodes[n];
    std::set<size_t> r;
    switch (x.kind) {
      case Lx::kSeq: {
        r = from;
        for (int k : x.kids) {
          r = Ends(k, r);
          if (r.empty()) break;
        }
        return r;
      }
      case Lx::kAlt:
        for (int k : x.kids) {
          auto e = Ends(k, from);
          r.insert(e.begin(), e.end());
        }
        return r;
      case Lx::kRep: {
        std::set<size_t> cur = from;
        for (int i = 0; i < x.min; i++) cur = Ends(x.kids[0], cur);
        r = cur;
        for (int i = x.min; !cur.empty() && (x.max < 0 || i < x.max); i++) {
          auto e = Ends(x.kids[0], cur);
          cur.clear();
          for (size_t p : e) {
            if (r.insert(p).second) cur.insert(p);
          }
        }
        return r;
      }
      case Lx::kSet:
        for (size_t p : from) {
          if (p >= s_.size()) continue;
          int c = static_cast<unsigned char>(s_[p]);
          bool in = false;
          for (auto& [a, b] : x.ranges) in |= (c >= a && c <= b);
          if (in != x.negate) r.insert(p + 1);
        }
        return r;
      case Lx::kEof:
        for (size_t p : from) {
          if (p >= s_.size()) r.insert(p);
        }
        return r;
    }
    return r;
  }
  const LexTables& t_;
  const std::string& s_;
};

class CommonTokenStream {
 public:
  explicit CommonTokenStream(Lexer* lexer) : lexer(lexer) {}
  Lexer* lexer;
};

// ---- parser ----
struct Gx {
  enum Kind { kSeq, kAlt, kRep, kTok, kRule, kEof } kind = kSeq;
  std::vector<int> kids;
  int min = 0, max = -1;
  int ref = 0;    // token type or rule
  int label = -1;
};
struct GRule {
  const char* name;
  int root;
  bool left_recursive;
  ParserRuleContext* (*make)();
};
struct ParseTables {
  std::vector<Gx> nodes;
  std::vector<GRule> rules;
};

class Parser : public Recognizer {
 public:
  Parser(const ParseTables& t, CommonTokenStream* s)
      : t_(t), lexer_(s->lexer) {}
  virtual ~Parser() = default;
  void removeErrorListeners() { listeners_.clear(); }
  void addErrorListener(BaseErrorListener* l) { listeners_.push_back(l); }
  void setBuildParseTree(bool) {}
  size_t getNumberOfSyntaxErrors() const { return errors_; }

 protected:
  ParserRuleContext* Parse(int rule) {
    memo_.clear();
    far_ = pos_;
    for (auto& e : lexer_->errors) Report(nullptr, e.line, e.col, e.msg);
    lexer_->errors.clear();
    size_t at = pos_;
    auto ends = RuleEnds(rule, at);
    if (ends.empty()) {
      Token* k = Tok(far_);
      Report(k, k->line, k->column, "mismatched input '" + k->text + "'");
      auto* c = Make(rule);
      c->start = c->stop = Tok(at);
      return c;
    }
    size_t end = *ends.rbegin();
    auto* c = BuildRule(rule, at, end);
    pos_ = end;
    return c;
  }

 private:
  using Ends = std::set<size_t>;
  Token* Tok(size_t i) {
    return lexer_->tokens[std::min(i, lexer_->tokens.size() - 1)].get();
  }
  void Report(Token* k, size_t line, size_t col, const std::string& msg) {
    errors_++;
    for (auto* l : listeners_) {
      l->syntaxError(this, k, line, col, msg, nullptr);
    }
  }
  ParserRuleContext* Make(int rule) {
    ParserRuleContext* c = t_.rules[rule].make();
    c->rule = rule;
    pool_.emplace_back(c);
    return c;
  }
  const Ends& RuleEnds(int rule, size_t pos) {
    auto key = std::make_pair(-1 - rule, pos);
    auto it = memo_.find(key);
    if (it != memo_.end()) return it->second;
    Ends e;
    if (t_.rules[rule].left_recursive) {
      size_t end;
      if (Climb(rule, pos, 0, &end, nullptr)) e.insert(end);
    } else {
      e = NodeEnds(t_.rules[rule].root, pos);
    }
    return memo_.emplace(key, std::move(e)).first->second;
  }
  const Ends& NodeEnds(int n, size_t pos) {
    auto key = std::make_pair(n, pos);
    auto it = memo_.find(key);
    if (it != memo_.end()) return it->second;
    Ends r;
    const Gx& x = t_.nodes[n];
    switch (x.kind) {
      case Gx::kTok:
        if (Tok(pos)->type == x.ref) {
          r.insert(pos + 1);
        } else {
          far_ = std::max(far_, pos);
        }
        break;
      case Gx::kEof:
        if (Tok(pos)->type == -1) {
          r.insert(pos);
        } else {
          far_ = std::max(far_, pos);
        }
        break;
      case Gx::kRule:
        r = RuleEnds(x.ref, pos);
        break;
      case Gx::kAlt:
        for (int k : x.kids) {
          auto& e = NodeEnds(k, pos);
          r.insert(e.begin(), e.end());
        }
        break;
      case Gx::kSeq:
        r = SeqEnds(n, 0, pos);
        break;
      case Gx::kRep:
        r = RepEnds(n, pos);
        break;
    }
    return memo_.emplace(key, std::move(r)).first->second;
  }
  Ends SeqEnds(int n, size_t from, size_t pos) {
    const Gx& x = t_.nodes[n];
    Ends cur = {pos};
    for (size_t i = from; i < x.kids.size() && !cur.empty(); i++) {
      Ends next;
      for (size_t p : cur) {
        auto& e = NodeEnds(x.kids[i], p);
        next.insert(e.begin(), e.end());
      }
      cur = std::move(next);
    }
    return cur;
  }
  Ends RepEnds(int n, size_t pos) {
    const Gx& x = t_.nodes[n];
    Ends r, cur = {pos};
    if (x.min == 0) r.insert(pos);
    for (int i = 0; !cur.empty() && (x.max < 0 || i < x.max); i++) {
      Ends next;
      for (size_t p : cur) {
        for (size_t e : NodeEnds(x.kids[0], p)) {
          if (e != p && r.insert(e).second) next.insert(e);
        }
      }
      cur = std::move(next);
    }
    return r;
  }

  void Add(ParserRuleContext* c, int label, tree::ParseTree* kid, Token* tok,
           ParserRuleContext* sub) {
    c->children.push_back(kid);
    if (label >= 0) c->setLabel(label, tok, sub);
  }
  ParserRuleContext* BuildRule(int rule, size_t pos, size_t end) {
    if (t_.rules[rule].left_recursive) {
      ParserRuleContext* c = nullptr;
      size_t e;
      Climb(rule, pos, 0, &e, &c);
      return c;
    }
    auto* c = Make(rule);
    c->start = Tok(pos);
    c->stop = Tok(end > pos ? end - 1 : pos);
    Build(c, t_.rules[rule].root, pos, end, -1);
    return c;
  }
  void Build(ParserRuleContext* c, int n, size_t pos, size_t end, int label) {
    const Gx& x = t_.nodes[n];
    if (label < 0) label = x.label;
    switch (x.kind) {
      case Gx::kTok: {
        auto* k = new tree::TerminalNode;
        pool_.emplace_back(k);
        k->symbol = Tok(pos);
        Add(c, label, k, k->symbol, nullptr);
        return;
      }
      case Gx::kEof: {
        auto* k = new tree::TerminalNode;
        pool_.emplace_back(k);
        k->symbol = Tok(pos);
        Add(c, label, k, k->symbol, nullptr);
        return;
      }
      case Gx::kRule: {
        auto* s = BuildRule(x.ref, pos, end);
        Add(c, label, s, nullptr, s);
        return;
      }
      case Gx::kAlt:
        for (int k : x.kids) {
          if (NodeEnds(k, pos).count(end)) {
            Build(c, k, pos, end, label);
            return;
          }
        }
        return;
      case Gx::kSeq:
        for (size_t i = 0; i < x.kids.size(); i++) {
          // The longest part that lets the rest of the sequence match.
          const Ends ends = NodeEnds(x.kids[i], pos);
          for (auto it = ends.rbegin(); it != ends.rend(); ++it) {
            if (SeqEnds(n, i + 1, *it).count(end)) {
              Build(c, x.kids[i], pos, *it, label);
              pos = *it;
              break;
            }
          }
        }
        return;
      case Gx::kRep: {
        int i = 0;
        while (pos < end && (x.max < 0 || i < x.max)) {
          const Ends ends = NodeEnds(x.kids[0], pos);
          bool ok = false;
          for (auto it = ends.rbegin(); it != ends.rend(); ++it) {
            if (*it == pos) continue;
            if (*it == end || (x.max != 1 && RepEnds(n, *it).count(end))) {
              Build(c, x.kids[0], pos, *it, label);
              pos = *it;
              ok = true;
              break;
            }
          }
          if (!ok) return;
          i++;
        }
        return;
      }
    }
  }
  // Precedence climbing for `r : prefix r | r op r | primary ...`; earlier
  // alternatives bind tighter.
  bool Climb(int rule, size_t pos, int level, size_t* end,
             ParserRuleContext** out) {
    const Gx& alts = t_.nodes[t_.rules[rule].root];
    int n = static_cast<int>(alts.kids.size());
    auto is_self = [&](int k) {
      return t_.nodes[k].kind == Gx::kRule && t_.nodes[k].ref == rule;
    };
    ParserRuleContext* left = nullptr;
    size_t at = 0;
    bool have = false;
    for (int a = 0; a < n && !have; a++) {
      const Gx& seq = t_.nodes[alts.kids[a]];
      const auto kids = seq.kind == Gx::kSeq ? seq.kids
                                             : std::vector<int>{alts.kids[a]};
      if (is_self(kids.front())) continue;
      if (kids.size() > 1 && is_self(kids.back())) {
        // Prefix operator: one simple element, then an operand.
        auto e = NodeEnds(kids[0], pos);
        if (kids.size() != 2 || e.empty()) continue;
        size_t mid = *e.rbegin();
        ParserRuleContext* sub = nullptr;
        if (!Climb(rule, mid, n - a, &at, out ? &sub : nullptr)) continue;
        if (out) {
          left = Make(rule);
          left->start = Tok(pos);
          left->stop = Tok(at - 1);
          Build(left, kids[0], pos, mid, -1);
          Add(left, t_.nodes[kids[1]].label, sub, nullptr, sub);
        }
        have = true;
      } else {
        auto e = NodeEnds(alts.kids[a], pos);
        if (e.empty()) continue;
        at = *e.rbegin();
        if (out) {
          left = Make(rule);
          left->start = Tok(pos);
          left->stop = Tok(at - 1);
          Build(left, alts.kids[a], pos, at, -1);
        }
        have = true;
      }
    }
    if (!have) return false;
    for (;;) {
      bool more = false;
      for (int a = 0; a < n && !more; a++) {
        const Gx& seq = t_.nodes[alts.kids[a]];
        if (seq.kind != Gx::kSeq || !is_self(seq.kids.front())) continue;
        int prec = n - a;
        if (prec < level) continue;
        if (seq.kids.size() != 3 || !is_self(seq.kids[2])) continue;
        auto e = NodeEnds(seq.kids[1], at);
        if (e.empty()) continue;
        size_t mid = *e.rbegin(), stop = 0;
        ParserRuleContext* right = nullptr;
        if (!Climb(rule, mid, prec + 1, &stop, out ? &right : nullptr)) {
          continue;
        }
        if (out) {
          auto* c = Make(rule);
          c->start = left->start;
          c->stop = Tok(stop - 1);
          Add(c, t_.nodes[seq.kids[0]].label, left, nullptr, left);
          Build(c, seq.kids[1], at, mid, -1);
          Add(c, t_.nodes[seq.kids[2]].label, right, nullptr, right);
          left = c;
        }
        at = stop;
        more = true;
      }
      if (!more) break;
    }
    *end = at;
    if (out) *out = left;
    return true;
  }

  const ParseTables& t_;
  Lexer* lexer_;
  size_t pos_ = 0, far_ = 0, errors_ = 0;
  std::vector<BaseErrorListener*> listeners_;
  std::map<std::pair<int, size_t>, Ends> memo_;
  std::vector<std::unique_ptr<tree::ParseTree>> pool_;
};

}  // namespace antlr4
#endif
