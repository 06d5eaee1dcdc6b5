// Reference front end for the Nix expression language, written from Nix's own
// grammar (lexer.l / parser.y of Nix 2.18-2.24) and deliberately boring: a
// longest-match lexer, one recursive function per grammar level, and the
// attribute merge of parser-state.hh. It shares no code with /repo.
//
// `Unspec` marks texts on which Nix versions disagree or on which nixd
// documents a deviation; checks leave those out.
#pragma once

#include <cassert>
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace ref {

using Str = std::string;

enum K {
  Var, Int, Float, String, IndString, Path, SPath, Uri, Paren, List, Attrs, Let, LegacyLet, Select, Call, Lambda, Bin, Un, HasAttr,
  If, Assert, With,
  // not expressions
  AttrPath, NameId, NameStr, NameDyn, Binding, Inherit, Interp, Text, Formal, Formals, Id
};
inline const char *kname(K X) {
  static const char *T[] = {"var", "int", "float", "str", "ind", "path", "spath", "uri", "paren", "list", "attrs", "let", "legacylet", "select", "call", "lambda", "bin", "un", "has", "if", "assert", "with", "attrpath", "name", "namestr", "namedyn", "bind", "inherit", "interp", "text", "formal", "formals", "id"};
  return T[X];
}

struct Set;
struct N {
  K k;
  int b = -1, e = -1;
  Str s;             ///< name, operator, text, number spelling; "rec" for Attrs
  std::vector<N *> c; ///< children, null where optional and absent
  Set *set = nullptr; ///< Attrs, Let, LegacyLet: desugared set
  std::vector<N *> raw; ///< IndString: its tokens; Text tokens that count for the indentation have b = 0
};

/// One attribute of a desugared set.
struct Def {
  enum Kind { Plain, Inherited, InheritedFrom } kind = Plain;
  N *name = nullptr;  ///< the name node that first introduced it
  std::vector<N *> more; ///< further name nodes that contribute to it
  N *value = nullptr; ///< value; for InheritedFrom the source expression
  Set *nested = nullptr; ///< for sets made by paths, or an Attrs value's set
};
struct Dyn {
  N *name = nullptr;
  N *value = nullptr;
  Set *nested = nullptr;
};
struct Set {
  bool rec = false;
  std::map<Str, Def> st;
  std::vector<Dyn> dyn;
  std::vector<N *> from; ///< every source of an `inherit (source) ...`
  bool merged = false;   ///< another written set was merged into it
};

struct Err {
  int pos;
  Str msg;
};

struct Arena {
  std::deque<N> ns;
  std::deque<Set> sets;
  N *node(K k, int b, int e, Str s = "", std::vector<N *> c = {}) {
    ns.push_back({k, b, e, std::move(s), std::move(c)});
    return &ns.back();
  }
  Set *set(bool rec) {
    sets.emplace_back();
    sets.back().rec = rec;
    return &sets.back();
  }
};

inline bool isC(char c) { return isalnum((unsigned char)c) || c == '.' || c == '_' || c == '-' || c == '+'; }
inline bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool digit(char c) { return c >= '0' && c <= '9'; }
inline bool idc(char c) { return alpha(c) || digit(c) || c == '_' || c == '\'' || c == '-'; }
inline bool uric(char c) { return alpha(c) || digit(c) || (c && strchr("%/?:@&=+$,-_.!~*'", c)); }

inline Str unescape1(char c) {
  switch (c) {
  case 'n': return "\n";
  case 'r': return "\r";
  case 't': return "\t";
  default: return Str(1, c);
  }
}

struct Tok {
  enum T { Eof, Id, Kw, Int, Float, Path, PathStart, SPath, Uri, P, Bad } t = Eof;
  int b = 0, e = 0;
  Str s;
  bool is(const char *x) const { return (t == P || t == Kw) && s == x; }
};

class Lexer {
public:
  std::string_view S;
  explicit Lexer(std::string_view S) : S(S) {}
  char at(int i) const { return i >= 0 && i < (int)S.size() ? S[i] : '\0'; }
  bool in(int i) const { return i < (int)S.size(); }

  // {C}*(\/{C}+)+\/?  -> length or 0
  mutable bool Lenient = false; ///< nixd documents that it deviates here
  int mPath(int p) const {
    int i = p;
    while (in(i) && isC(at(i))) ++i;
    int end = 0;
    while (in(i) && at(i) == '/' && in(i + 1) && isC(at(i + 1))) {
      ++i;
      while (in(i) && isC(at(i))) ++i;
      end = i;
    }
    if (!end) return 0;
    if (in(end) && at(end) == '/') ++end;
    return end - p;
  }
  // {C}*\/
  int mSeg(int p) const {
    int i = p;
    while (in(i) && isC(at(i))) ++i;
    return in(i) && at(i) == '/' ? i + 1 - p : 0;
  }
  int mC(int p) const {
    int i = p;
    while (in(i) && isC(at(i))) ++i;
    return i - p;
  }
  int skip(int p, bool &bad) const {
    bad = false;
    for (;;) {
      char c = at(p);
      if (!in(p)) return p;
      if (c == ' ' || c == '\t' || c == '\n' || c == '\r') ++p;
      else if (c == '#') {
        while (in(p) && at(p) != '\n' && at(p) != '\r') ++p;
      } else if (c == '/' && at(p + 1) == '*') {
        auto e = S.find("*/", p + 2);
        if (e == std::string_view::npos) { bad = true; return p; }
        p = e + 2;
      } else return p;
    }
  }
  Tok lex(int p) const {
    Tok r;
    bool bad;
    p = skip(p, bad);
    r.b = r.e = p;
    if (bad) { r.t = Tok::Bad; r.e = p + 1; return r; }
    if (!in(p)) { r.t = Tok::Eof; return r; }
    int best = 0;
    auto take = [&](int len, Tok::T t) {
      if (len > best) { best = len; r.t = t; }
    };
    char c = at(p);
    if (alpha(c) || c == '_') {
      int i = p + 1;
      while (in(i) && idc(at(i))) ++i;
      take(i - p, Tok::Id);
    }
    if (digit(c)) {
      int i = p;
      while (in(i) && digit(at(i))) ++i;
      take(i - p, Tok::Int);
      // nixd documents that it takes [0-9]+\.[0-9]* as a float
      if (c == '0' && at(i) == '.' && (i > p + 1 || !digit(at(i + 1)))) Lenient = true;
    }
    { // FLOAT (([1-9][0-9]*\.[0-9]*)|(0?\.[0-9]+))([Ee][+-]?[0-9]+)?
      int i = p, ok = 0;
      if (c >= '1' && c <= '9') {
        while (digit(at(i))) ++i;
        if (at(i) == '.') {
          ++i;
          while (digit(at(i))) ++i;
          ok = i;
        }
      } else if (c == '0' || c == '.') {
        if (c == '0') ++i;
        if (at(i) == '.' && digit(at(i + 1))) {
          ++i;
          while (digit(at(i))) ++i;
          ok = i;
        }
      }
      if (ok) {
        int j = ok;
        if (at(j) == 'e' || at(j) == 'E') {
          ++j;
          if (at(j) == '+' || at(j) == '-') ++j;
          if (digit(at(j))) {
            while (digit(at(j))) ++j;
            ok = j;
          } else Lenient = true; // nixd documents that it reports a missing exponent
        }
        take(ok - p, Tok::Float);
      }
    }
    take(mPath(p), Tok::Path);
    if (c == '~') {
      int l = mPath(p + 1);
      if (l && at(p + 1) == '/') take(l + 1, Tok::Path);
      if (S.substr(p, 4) == "~/${") take(4, Tok::PathStart);
    }
    if (int l = mSeg(p); l && at(p + l) == '$' && at(p + l + 1) == '{') take(l + 2, Tok::PathStart);
    if (c == '<') { // \<{C}+(\/{C}+)*\>
      int i = p + 1, l = mC(i);
      if (l) {
        i += l;
        while (at(i) == '/' && mC(i + 1)) i += 1 + mC(i + 1);
        if (at(i) == '>') take(i + 1 - p, Tok::SPath);
      }
    }
    if (alpha(c)) {
      int i = p + 1;
      while (in(i) && (alpha(at(i)) || digit(at(i)) || at(i) == '+' || at(i) == '-' || at(i) == '.')) ++i;
      if (at(i) == ':' && in(i + 1) && uric(at(i + 1))) {
        ++i;
        while (in(i) && uric(at(i))) ++i;
        take(i - p, Tok::Uri);
      }
    }
    static const char *Ps[] = {"...", "==", "!=", "<=", ">=", "&&", "||", "->", "//", "++", "<|", "|>", "${", "''",
                               "{", "}", "[", "]", "(", ")", ";", ":", ",", ".", "@", "?", "=", "!", "-", "+", "*", "/", "<", ">", "\""};
    for (auto *q : Ps)
      if (S.substr(p, strlen(q)) == q) take(strlen(q), Tok::P);
    if (!best) { best = 1; r.t = Tok::Bad; }
    r.e = p + best;
    r.s = Str(S.substr(p, best));
    if (r.t == Tok::Id) {
      static const std::set<Str> KW = {"if", "then", "else", "assert", "with", "let", "in", "rec", "inherit", "or"};
      if (KW.count(r.s)) r.t = Tok::Kw;
    }
    return r;
  }
};

/// Desugaring of bindings, as Nix's ParserState::addAttr does it.
struct Desugar {
  Arena &A;
  bool Dup = false;       ///< duplicate attribute
  bool Unspec = false;    ///< Nix versions disagree
  std::vector<N *> DupAt;
  explicit Desugar(Arena &A) : A(A) {}
  static bool staticStr(N *n) { // "..." without interpolation
    for (auto *x : n->c)
      if (x->k == Interp) return false;
    return true;
  }
  static Str strText(N *n) {
    Str r;
    for (auto *x : n->c) r += x->s;
    return r;
  }
  static bool isStatic(N *name) { return name->k == NameId || (name->k == NameStr && staticStr(name->c[0])); }
  static Str nameOf(N *name) { return name->k == NameId ? name->s : strText(name->c[0]); }
  void dup(N *at) { Dup = true; DupAt.push_back(at); }
  Set *asSet(N *v) {
    if (!v) return nullptr;
    if (v->k == Paren) {
      N *x = v;
      while (x && x->k == Paren) x = x->c[0];
      if (x && x->k == Attrs) Unspec = true;
      return nullptr;
    }
    return v->k == Attrs ? v->set : nullptr;
  }
  void insert(Set *S, N *name, Def D) {
    Str n = nameOf(name);
    auto it = S->st.find(n);
    if (it == S->st.end()) {
      S->st[n] = D;
      return;
    }
    Set *X = it->second.kind == Def::Plain ? it->second.nested : nullptr;
    Set *Y = D.kind == Def::Plain ? D.nested : nullptr;
    if (!X || !Y) return dup(name);
    it->second.more.push_back(name);
    for (auto &[k, d] : Y->st) {
      auto j = X->st.find(k);
      if (j == X->st.end()) X->st[k] = d;
      else {
        if (j->second.nested && d.nested && j->second.kind == Def::Plain && d.kind == Def::Plain) Unspec = true;
        dup(d.name);
      }
    }
    for (auto &d : Y->dyn) X->dyn.push_back(d);
    X->from.insert(X->from.end(), Y->from.begin(), Y->from.end());
    X->merged = true;
  }
  void binding(Set *S, N *B) {
    auto &path = B->c[0]->c;
    for (size_t i = 0; i + 1 < path.size(); ++i) {
      N *name = path[i];
      if (isStatic(name)) {
        auto it = S->st.find(nameOf(name));
        if (it != S->st.end()) {
          if (it->second.kind != Def::Plain || !it->second.nested) return dup(name);
          it->second.more.push_back(name);
          S = it->second.nested;
        } else {
          Def d;
          d.name = name;
          d.nested = A.set(false);
          S->st[nameOf(name)] = d;
          S = d.nested;
        }
      } else {
        Dyn d;
        d.name = name;
        d.nested = A.set(false);
        S->dyn.push_back(d);
        S = d.nested;
      }
    }
    N *name = path.back(), *v = B->c[1];
    Set *vs = asSet(v);
    if (isStatic(name)) {
      Def d;
      d.name = name;
      d.value = v;
      d.nested = vs;
      insert(S, name, d);
    } else {
      Dyn d;
      d.name = name;
      d.value = v;
      d.nested = vs;
      S->dyn.push_back(d);
    }
  }
  Set *run(bool rec, const std::vector<N *> &binds) {
    Set *S = A.set(rec);
    for (auto *B : binds) {
      if (B->k == Inherit && B->c[0]) S->from.push_back(B->c[0]);
      if (B->k == Binding) binding(S, B);
      else
        for (size_t i = 1; i < B->c.size(); ++i) {
          N *name = B->c[i];
          if (!isStatic(name)) continue;
          Def d;
          d.kind = B->c[0] ? Def::InheritedFrom : Def::Inherited;
          d.name = name;
          d.value = B->c[0];
          if (S->st.count(nameOf(name))) dup(name);
          else S->st[nameOf(name)] = d;
        }
    }
    return S;
  }
};

struct Parser {
public:
  Arena &A;
  Lexer L;
  Tok T;
  int End = 0; ///< end of the last consumed token
  bool Unspec = false;
  Str UnspecWhy;
  bool SemaErr = false;
  std::vector<Str> SemaWhy;
  int Depth = 0;
  Desugar Sema;

  Parser(Arena &A, std::string_view S) : A(A), L(S), Sema(A) {}

  N *parse() {
    T = L.lex(0);
    N *r = expr();
    if (T.t != Tok::Eof) err("unexpected text");
    if (Sema.Dup) { SemaErr = true; SemaWhy.push_back("duplicate attribute"); }
    if (Sema.Unspec) unspec("merge of nested sets");
    return r;
  }


  void unspec(const char *w) { if (!Unspec) UnspecWhy = w; Unspec = true; }
  void semaErr(const char *w) { SemaErr = true; SemaWhy.push_back(w); }
  [[noreturn]] void err(Str m) { throw Err{T.b, m}; }
  void jump(int p) { End = p; T = L.lex(p); }
  void next() { jump(T.e); }
  Tok peek(int n = 1) {
    Tok t = T;
    while (n--) t = L.lex(t.e);
    return t;
  }
  void expect(const char *x) {
    if (!T.is(x)) err(Str("expected ") + x);
    next();
  }
  struct Deep {
    Parser &P;
    Deep(Parser &P) : P(P) {
      if (++P.Depth > 3000) P.err("too deep");
    }
    ~Deep() { --P.Depth; }
  };

  N *expr() {
    Deep D(*this);
    int b = T.b;
    if (T.t == Tok::Id) {
      Tok n = peek();
      if (n.is(":") || n.is("@")) return lambda();
    }
    if (T.is("{")) {
      Tok n = peek();
      if (n.is("}")) {
        Tok m = peek(2);
        if (m.is(":") || m.is("@")) return lambda();
      } else if (n.is("...")) return lambda();
      else if (n.t == Tok::Id) {
        Tok m = peek(2);
        if (m.is(",") || m.is("?") || m.is("}")) return lambda();
      }
    }
    if (T.is("assert") || T.is("with")) {
      K k = T.is("with") ? With : Assert;
      next();
      N *c = expr();
      expect(";");
      N *x = expr();
      return A.node(k, b, End, "", {c, x});
    }
    if (T.is("let") && !peek().is("{")) {
      next();
      std::vector<N *> bs = binds();
      expect("in");
      N *x = expr();
      N *r = A.node(Let, b, 0, "", bs);
      r->set = Sema.run(true, bs);
      for (auto &d : r->set->dyn) {
        if (isLitDyn(d.name)) unspec("literal dynamic name in let");
        else semaErr("dynamic attribute in let");
      }
      r->c.push_back(x);
      r->e = End;
      return r;
    }
    if (T.is("if")) {
      next();
      N *c = expr();
      expect("then");
      N *t = expr();
      expect("else");
      N *x = expr();
      return A.node(If, b, End, "", {c, t, x});
    }
    return pipes();
  }

  N *pipes() {
    int b = T.b;
    N *l = op(1);
    if (SwapPipes && (T.is("|>") || T.is("<|"))) {
      if (T.is("|>")) return pipeRight(l, b, "|>", "<|");
      return pipeLeft(l, b, "<|", "|>");
    }
    if (T.is("|>")) return pipeLeft(l, b, "|>", "<|");
    if (T.is("<|")) return pipeRight(l, b, "<|", "|>");
    return l;
  }
  bool SwapPipes = false;
  N *pipeLeft(N *l, int b, const char *O, const char *Other) {
    while (T.is(O)) {
      next();
      N *r = op(1);
      l = A.node(Bin, b, End, O, {l, r});
    }
    if (T.is(Other)) err("mixed pipes");
    return l;
  }
  N *pipeRight(N *l, int b, const char *O, const char *Other) {
    Deep D(*this);
    next();
    int b2 = T.b;
    N *r = op(1);
    if (T.is(Other)) err("mixed pipes");
    if (T.is(O)) r = pipeRight(r, b2, O, Other);
    return A.node(Bin, b, End, O, {l, r});
  }
  enum Assoc { Left, Right, Non };
  static int prec(const Str &o, Assoc &a) {
    a = Left;
    if (o == "->") { a = Right; return 1; }
    if (o == "||") return 2;
    if (o == "&&") return 3;
    if (o == "==" || o == "!=") { a = Non; return 4; }
    if (o == "<" || o == ">" || o == "<=" || o == ">=") { a = Non; return 5; }
    if (o == "//") { a = Right; return 6; }
    if (o == "+" || o == "-") return 8; // 7: NOT
    if (o == "*" || o == "/") return 9;
    if (o == "++") { a = Right; return 10; }
    return 0; // 11: '?', 12: NEGATE
  }

  N *op(int min) {
    Deep D(*this);
    int b = T.b;
    N *l;
    if (T.is("!")) {
      next();
      N *x = op(8);
      l = A.node(Un, b, End, "!", {x});
    } else if (T.is("-")) {
      next();
      N *x = op(13);
      l = A.node(Un, b, End, "-", {x});
    } else l = app();
    for (;;) {
      if (T.is("?")) {
        if (11 < min) return l;
        next();
        N *p = attrpath();
        l = A.node(HasAttr, b, End, "", {l, p});
        continue;
      }
      if (T.t != Tok::P) return l;
      Assoc a;
      Str o = T.s;
      int p = prec(o, a);
      if (!p || p < min) return l;
      next();
      N *r = op(a == Right ? p : p + 1);
      l = A.node(Bin, b, End, o, {l, r});
      if (a == Non && T.t == Tok::P) {
        Assoc a2;
        if (prec(T.s, a2) == p) err("non-associative operator");
      }
    }
  }

  bool startsSimple() {
    switch (T.t) {
    case Tok::Id: case Tok::Int: case Tok::Float: case Tok::Path: case Tok::PathStart: case Tok::SPath: case Tok::Uri:
      return true;
    case Tok::Kw:
      return T.s == "rec" || (T.s == "let" && peek().is("{"));
    case Tok::P:
      return T.s == "\"" || T.s == "''" || T.s == "(" || T.s == "{" || T.s == "[";
    default:
      return false;
    }
  }

  N *app() {
    int b = T.b;
    N *f = select();
    if (!startsSimple()) return f;
    if (f->k == Int || f->k == Float || f->k == String || f->k == IndString || f->k == Path || f->k == Uri)
      unspec("literal applied");
    std::vector<N *> c{f};
    while (startsSimple()) {
      c.push_back(select());
    }
    return A.node(Call, b, End, "", c);
  }

  N *select() {
    Deep D(*this);
    int b = T.b;
    N *s = simple();
    if (T.is(".")) {
      next();
      N *p = attrpath();
      N *d = nullptr;
      if (T.is("or")) {
        next();
        d = select();
      }
      return A.node(Select, b, End, "", {s, p, d});
    }
    if (T.is("or")) {
      unspec("`or` applied");
      next();
    }
    return s;
  }

  N *attrName() {
    int b = T.b;
    if (T.t == Tok::Id || T.is("or")) {
      Str s = T.s;
      next();
      return A.node(NameId, b, End, s);
    }
    if (T.is("\"")) {
      N *x = string();
      return A.node(NameStr, b, End, "", {x});
    }
    if (T.is("${")) {
      next();
      N *x = expr();
      expect("}");
      return A.node(NameDyn, b, End, "", {x});
    }
    err("expected attribute name");
  }
  static bool isLitDyn(N *n) {
    if (n->k != NameDyn) return false;
    N *x = n->c[0];
    while (x && x->k == Paren) x = x->c[0];
    return x && (x->k == String || x->k == IndString || x->k == Uri) && Desugar::staticStr(x);
  }
  N *attrpath() {
    int b = T.b;
    std::vector<N *> c{attrName()};
    while (T.is(".")) {
      next();
      c.push_back(attrName());
    }
    return A.node(AttrPath, b, End, "", c);
  }

  std::vector<N *> binds() {
    std::vector<N *> r;
    for (;;) {
      int b = T.b;
      if (T.is("inherit")) {
        next();
        std::vector<N *> c{nullptr};
        if (T.is("(")) {
          next();
          c[0] = expr();
          expect(")");
        }
        while (T.t == Tok::Id || T.is("or") || T.is("\"") || T.is("${")) {
          N *n = attrName();
          if (!Desugar::isStatic(n)) {
            if (isLitDyn(n)) unspec("literal dynamic name in inherit");
            else semaErr("dynamic attribute in inherit");
          }
          c.push_back(n);
        }
        expect(";");
        r.push_back(A.node(Inherit, b, End, "", c));
      } else if (T.t == Tok::Id || T.is("or") || T.is("\"") || T.is("${")) {
        N *p = attrpath();
        for (auto *n : p->c)
          if (isLitDyn(n)) unspec("literal dynamic name");
        expect("=");
        N *v = expr();
        expect(";");
        r.push_back(A.node(Binding, b, End, "", {p, v}));
      } else return r;
    }
  }

  N *lambda() {
    int b = T.b;
    N *arg = nullptr, *fs = nullptr;
    if (T.t == Tok::Id) {
      arg = A.node(Id, T.b, T.e, T.s);
      next();
      if (T.is("@")) {
        next();
        fs = formals();
      }
    } else {
      fs = formals();
      if (T.is("@")) {
        next();
        if (T.t != Tok::Id) err("expected argument name");
        arg = A.node(Id, T.b, T.e, T.s);
        next();
      }
    }
    expect(":");
    if (fs) {
      std::set<Str> seen;
      for (auto *f : fs->c)
        if (!seen.insert(f->s).second) semaErr("duplicate formal");
      if (arg && seen.count(arg->s)) semaErr("formal equals argument");
    }
    N *x = expr();
    return A.node(Lambda, b, End, "", {arg, fs, x});
  }
  N *formals() {
    int b = T.b;
    expect("{");
    std::vector<N *> c;
    Str ell;
    while (!T.is("}")) {
      if (T.is("...")) {
        ell = "...";
        next();
        break;
      }
      if (T.t != Tok::Id) err("expected formal");
      int fb = T.b;
      N *id = A.node(Id, T.b, T.e, T.s);
      next();
      N *d = nullptr;
      if (T.is("?")) {
        next();
        d = expr();
      }
      c.push_back(A.node(Formal, fb, End, id->s, {id, d}));
      if (T.is(",")) next();
      else if (!T.is("}")) err("expected , or }");
    }
    if (!T.is("}")) err("expected }");
    next();
    return A.node(Formals, b, End, ell, c);
  }

  N *simple() {
    Deep D(*this);
    int b = T.b;
    Tok t = T;
    switch (T.t) {
    case Tok::Id:
      next();
      return A.node(Var, b, End, t.s);
    case Tok::Int: {
      errno = 0;
      strtoll(t.s.c_str(), nullptr, 10);
      if (errno) semaErr("integer too big");
      next();
      return A.node(Int, b, End, t.s);
    }
    case Tok::Float: {
      errno = 0;
      strtod(t.s.c_str(), nullptr);
      if (errno) unspec("float out of range");
      next();
      return A.node(Float, b, End, t.s);
    }
    case Tok::SPath:
      next();
      return A.node(SPath, b, End, t.s.substr(1, t.s.size() - 2));
    case Tok::Uri:
      next();
      return A.node(Uri, b, End, t.s);
    case Tok::Path:
    case Tok::PathStart:
      return path();
    default:
      break;
    }
    if (T.is("\"")) return string();
    if (T.is("''")) return indString();
    if (T.is("(")) {
      next();
      N *x = expr();
      expect(")");
      return A.node(Paren, b, End, "", {x});
    }
    if (T.is("[")) {
      next();
      std::vector<N *> c;
      while (!T.is("]")) {
        if (!startsSimple()) err("expected list element");
        c.push_back(select());
      }
      next();
      return A.node(List, b, End, "", c);
    }
    if (T.is("let")) {
      if (!peek().is("{")) err("let in operand position");
      next();
      next();
      std::vector<N *> bs = binds();
      expect("}");
      N *r = A.node(LegacyLet, b, End, "", bs);
      r->set = Sema.run(true, bs);
      if (!r->set->st.count("body")) unspec("legacy let without body");
      return r;
    }
    bool rec = T.is("rec");
    if (rec) next();
    if (T.is("{")) {
      next();
      std::vector<N *> bs = binds();
      expect("}");
      N *r = A.node(Attrs, b, End, rec ? "rec" : "", bs);
      r->set = Sema.run(rec, bs);
      return r;
    }
    err("expected expression");
  }

  N *interp(int p) { // at "${"
    T = L.lex(p);
    assert(T.is("${"));
    next();
    N *x = expr();
    if (!T.is("}")) err("expected }");
    int e = T.e;
    End = e;
    return A.node(Interp, p, e, "", {x});
  }
  static void text(Arena &A, std::vector<N *> &c, const Str &s) {
    if (s.empty()) return;
    if (!c.empty() && c.back()->k == Text) c.back()->s += s;
    else c.push_back(A.node(Text, -1, -1, s));
  }
  N *string() {
    int b = T.b, p = T.e;
    std::vector<N *> c;
    for (;;) {
      if (!L.in(p)) { T.b = p; err("unterminated string"); }
      char ch = L.at(p);
      if (ch == '"') break;
      if (ch == '\r') unspec("carriage return in string");
      if (ch == '\\') {
        if (!L.in(p + 1)) err("unterminated string");
        if (L.at(p + 1) == '\r') unspec("carriage return in string");
        text(A, c, unescape1(L.at(p + 1)));
        p += 2;
      } else if (ch == '$' && L.at(p + 1) == '{' && L.in(p + 1)) {
        N *i = interp(p);
        p = i->e;
        c.push_back(i);
      } else if (ch == '$' && L.in(p + 1) && L.at(p + 1) != '"' && L.at(p + 1) != '\\') {
        if (L.at(p + 1) == '\r') unspec("carriage return in string");
        text(A, c, Str(L.S.substr(p, 2)));
        p += 2;
      } else {
        text(A, c, Str(1, ch));
        ++p;
      }
    }
    jump(p + 1);
    return A.node(String, b, p + 1, "", c);
  }
  N *indString() {
    int b = T.b, p = T.e;
    std::vector<N *> c, raw;
    auto text = [&](Arena &A, std::vector<N *> &c, const Str &s, bool Indent = false) {
      Parser::text(A, c, s);
      if (Indent && !raw.empty() && raw.back()->k == Text && raw.back()->b == 0) raw.back()->s += s;
      else raw.push_back(A.node(Text, Indent ? 0 : -1, -1, s));
    };
    auto starts = [&](const char *x) { return L.S.substr(p, strlen(x)) == x; };
    for (;;) {
      if (!L.in(p)) { T.b = p; err("unterminated string"); }
      if (starts("''$")) { text(A, c, "$"); p += 3; }
      else if (starts("'''")) { text(A, c, "''"); p += 3; }
      else if (starts("''\\")) {
        if (!L.in(p + 3)) err("unterminated string");
        text(A, c, unescape1(L.at(p + 3)));
        p += 4;
      } else if (starts("''")) break;
      else if (starts("${")) {
        N *i = interp(p);
        p = i->e;
        c.push_back(i);
        raw.push_back(i);
      } else if (L.at(p) == '$' && L.in(p + 1) && L.at(p + 1) != '\'') {
        text(A, c, Str(L.S.substr(p, 2)), true);
        p += 2;
      } else if (L.at(p) == '\'' && L.in(p + 1) && L.at(p + 1) != '\'' && L.at(p + 1) != '$') {
        text(A, c, Str(L.S.substr(p, 2)), true);
        p += 2;
      } else {
        text(A, c, Str(1, L.at(p)), L.at(p) != '$' && L.at(p) != '\'');
        ++p;
      }
    }
    jump(p + 2);
    N *r = A.node(IndString, b, p + 2, "", c);
    r->raw = raw;
    return r;
  }
  N *path() {
    int b = T.b, p = T.b;
    std::vector<N *> c;
    bool slash;
    if (T.t == Tok::PathStart) p += T.s.size() - 2;
    else p = T.e;
    text(A, c, Str(L.S.substr(b, p - b)));
    slash = L.at(p - 1) == '/';
    for (;;) {
      if (L.S.substr(p, 2) == "${") {
        N *i = interp(p);
        p = i->e;
        c.push_back(i);
        slash = false;
        continue;
      }
      int l = std::max(std::max(L.mPath(p), L.mSeg(p)), L.mC(p));
      if (!l) break;
      text(A, c, Str(L.S.substr(p, l)));
      p += l;
      slash = L.at(p - 1) == '/';
    }
    if (slash) { T.b = p; err("path has a trailing slash"); }
    jump(p);
    return A.node(Path, b, p, "", c);
  }
};

struct Parsed {
  std::unique_ptr<Arena> A{new Arena};
  N *root = nullptr;
  bool grammar = false; ///< accepted by the grammar
  bool unspec = false;
  bool sema = false; ///< rejected by a parse-time check (duplicates, ...)
  Str why;
  bool ok() const { return grammar && !unspec && !sema; }
};
/// \p Pipes: with the associativities of |> and <| swapped.
inline Parsed parse(std::string_view S, bool Pipes = false) {
  Parsed R;
  Parser P(*R.A, S);
  P.SwapPipes = Pipes;
  try {
    R.root = P.parse();
    R.grammar = true;
  } catch (Err &E) {
    R.why = E.msg;
  }
  if (P.L.Lenient) P.unspec("float spelling");
  R.unspec = P.Unspec;
  R.sema = P.SemaErr;
  if (P.Unspec) R.why = P.UnspecWhy;
  else if (P.SemaErr) R.why = P.SemaWhy[0];
  return R;
}

/// Only white space and comments.
inline bool blank(std::string_view S) {
  Arena A;
  Parser P(A, S);
  bool Bad;
  int I = P.L.skip(0, Bad);
  return !Bad && I == (int)S.size();
}

/// Printed form. Flags: R ranges, V literal values.
inline void print(const N *n, Str &o, bool R, bool V) {
  if (!n) {
    o += "_";
    return;
  }
  K k = n->k;
  o += "(";
  o += kname(k == Uri || k == IndString ? String : k);
  if (R && n->b >= 0) o += "[" + std::to_string(n->b) + "," + std::to_string(n->e) + "]";
  bool lit = k == Text || k == Int || k == Float || k == Uri;
  if (k == Uri) {
    o += " (text";
    if (V) o += " '" + n->s + "'";
    o += ")";
  } else if (!n->s.empty() && (!lit || V)) {
    if (V && k == Int) o += " " + std::to_string(strtoll(n->s.c_str(), nullptr, 10));
    else if (V && k == Float) {
      char B[64];
      snprintf(B, sizeof B, " %a", strtod(n->s.c_str(), nullptr));
      o += B;
    } else o += " '" + n->s + "'";
  }
  for (auto *x : n->c) {
    o += " ";
    print(x, o, R, V);
  }
  o += ")";
}
inline Str print(const N *n, bool R = false, bool V = false) {
  Str o;
  print(n, o, R, V);
  return o;
}
} // namespace ref
