// Normalisation by evaluation of reference trees: a lazy evaluator for the Nix
// language in which unknown things (global names, function parameters,
// operators on unknown operands, builtins) are neutral terms. Two programs with
// equal normal forms denote the same value in every environment, up to the
// stated readback depth.
#pragma once
#include "ref/nixref.h"

#include <functional>

namespace ref {

struct Eval {
  struct Value;
  struct Env;
  struct Thunk {
    const N *n = nullptr;
    const Set *set = nullptr;
    Env *env = nullptr;
    Value *v = nullptr;
    std::function<Value *()> fn;
    bool busy = false;
  };
  enum VK { VInt, VFloat, VStr, VPath, VList, VSet, VLam, VNeutral, VPrim, VBottom };
  struct Value {
    VK k;
    Str s;
    std::vector<Thunk *> e;                        ///< elements, arguments; parts of strings (texts are VPrim thunks)
    std::map<Str, Thunk *> a;                      ///< VSet
    std::vector<std::pair<Value *, Thunk *>> dyn;  ///< VSet: attributes of unknown name
    const N *n = nullptr;
    Env *env = nullptr;
  };
  struct Env {
    Env *up = nullptr;
    std::map<Str, Thunk *> vars;
    Thunk *with = nullptr;
  };
  struct Fuel {};

  std::deque<Thunk> ts;
  std::deque<Value> vs;
  std::deque<Env> es;
  int fuel = 200000;
  int maxDepth = 12;
  Str dir = "/base";
  std::function<bool(const Str &)> builtin = [](const Str &) { return false; };
  bool curPos = false; ///< the program asks for its own position
  bool innerWith = false; ///< take every name of a `with` from the innermost one
  /// contents of the other files `import ./file` may load: path -> tree, directory
  std::map<Str, const N *> files;

  Thunk *thunk(const N *n, Env *E) {
    ts.emplace_back();
    ts.back().n = n;
    ts.back().env = E;
    return &ts.back();
  }
  Thunk *thunk(Value *v) {
    ts.emplace_back();
    ts.back().v = v;
    return &ts.back();
  }
  Thunk *thunk(std::function<Value *()> f) {
    ts.emplace_back();
    ts.back().fn = std::move(f);
    return &ts.back();
  }
  Value *val(VK k, Str s = "", std::vector<Thunk *> e = {}) {
    vs.emplace_back();
    Value *v = &vs.back();
    v->k = k;
    v->s = std::move(s);
    v->e = std::move(e);
    return v;
  }
  Value *bottom() { return val(VBottom); }
  Value *neutral(Str s, std::vector<Thunk *> e = {}) { return val(VNeutral, std::move(s), std::move(e)); }
  Env *extend(Env *E) {
    es.emplace_back();
    es.back().up = E;
    return &es.back();
  }
  int depth = 0;
  Value *force(Thunk *t) {
    if (t->v) return t->v;
    if (t->busy) return bottom();
    if (--fuel < 0 || depth > 2000) throw Fuel{};
    t->busy = true;
    ++depth;
    Value *v = t->fn ? t->fn() : t->set ? mkSet(t->set, t->env) : eval(t->n, t->env);
    --depth;
    t->busy = false;
    return t->v = v;
  }

  static Str unprefix(const Str &s) { return s.rfind("__", 0) == 0 ? s.substr(2) : s; }
  Value *prim(const Str &name) {
    if (name == "__curPos") {
      curPos = true;
      return neutral("curPos");
    }
    return val(VPrim, unprefix(name));
  }
  Value *var(const Str &name, Env *E) {
    std::vector<Thunk *> withs;
    for (Env *x = E; x; x = x->up) {
      auto it = x->vars.find(name);
      if (it != x->vars.end()) return force(it->second);
      if (x->with) withs.push_back(x->with);
    }
    if (builtin(name)) return prim(name);
    std::vector<Thunk *> rest;
    if (innerWith && !withs.empty()) return selectOne(force(withs[0]), name);
    for (size_t i = 0; i < withs.size(); ++i) {
      Value *w = force(withs[i]);
      if (w->k == VSet && w->dyn.empty()) {
        if (auto it = w->a.find(name); it != w->a.end()) {
          if (rest.empty()) return force(it->second);
          rest.push_back(withs[i]);
          break;
        }
        continue;
      }
      if (w->k == VPrim && w->s == "builtins") {
        if (builtin(name) || builtin("__" + name)) {
          if (rest.empty()) return prim(name);
          rest.push_back(withs[i]);
          break;
        }
        continue;
      }
      if (w->k != VSet && w->k != VNeutral) {
        if (rest.empty()) return bottom();
        rest.push_back(withs[i]);
        break;
      }
      rest.push_back(withs[i]);
    }
    if (rest.empty()) return withs.empty() ? neutral("?" + name) : bottom();
    if (rest.size() == 1) return selectOne(force(rest[0]), name);
    return neutral("with." + name, rest);
  }
  /// select, no default; \p v is unknown or a set
  Value *selectOne(Value *v, const Str &name) {
    if (v->k == VSet) {
      if (auto it = v->a.find(name); it != v->a.end()) return force(it->second);
      if (v->dyn.empty()) return bottom();
      return neutral("." + name, {thunk(v)});
    }
    if (v->k == VPrim && v->s == "builtins" && (builtin(name) || builtin("__" + name))) return prim(name);
    if (v->k == VNeutral || v->k == VPrim) return neutral("." + name, {thunk(v)});
    return bottom();
  }
  static bool isText(const Value *v) { return v->k == VStr && v->e.empty(); }
  /// the name an AttrPath element denotes; null text when unknown
  bool attrName(const N *n, Env *E, Str &s, Value *&dyn) {
    dyn = nullptr;
    if (n->k == NameId) {
      s = n->s;
      return true;
    }
    Value *v = eval(n->k == NameStr ? n->c[0] : n->c[0], E);
    if (isText(v)) {
      s = v->s;
      return true;
    }
    dyn = v;
    return false;
  }
  Value *select(Value *v, const std::vector<N *> &path, size_t i, const N *def, Env *E) {
    for (; i < path.size(); ++i) {
      Str s;
      Value *dyn;
      if (v->k == VBottom) return v;
      bool ok = attrName(path[i], E, s, dyn);
      if (!ok && dyn->k == VBottom) return dyn;
      bool known = ok && (v->k == VSet && (v->dyn.empty() || v->a.count(s)));
      if (ok && v->k == VPrim && v->s == "builtins" && (builtin(s) || builtin("__" + s))) known = true;
      if (known) {
        if (v->k == VSet && !v->a.count(s)) return def ? eval(def, E) : bottom();
        v = selectOne(v, s);
        continue;
      }
      if (v->k != VSet && v->k != VNeutral && v->k != VPrim) return def ? eval(def, E) : bottom();
      if (!def) {
        v = ok ? selectOne(v, s) : neutral(".${}", {thunk(v), thunk(dyn)});
        continue;
      }
      std::vector<Thunk *> a{thunk(v)};
      Str tag = "selor";
      for (; i < path.size(); ++i) {
        if (attrName(path[i], E, s, dyn)) tag += "." + s;
        else {
          tag += ".${}";
          a.push_back(thunk(dyn));
        }
      }
      a.push_back(thunk(def, E));
      return neutral(tag, a);
    }
    return v;
  }

  Value *mkSet(const Set *S, Env *E, Env **Inner = nullptr) {
    Value *r = val(VSet);
    Env *In = E;
    if (S->rec) In = extend(E);
    if (Inner) *Inner = In;
    for (auto &[n, d] : S->st) {
      Thunk *t;
      if (d.kind == Def::Inherited) {
        Str nm = n;
        t = thunk([this, nm, E] { return var(nm, E); });
      } else if (d.kind == Def::InheritedFrom) {
        Str nm = n;
        const N *src = d.value;
        t = thunk([this, nm, src, In] {
          Value *v = eval(src, In);
          if (v->k == VSet && v->dyn.empty() && !v->a.count(nm)) return bottom();
          return selectOne(v, nm);
        });
      } else if (d.nested) {
        t = thunk((const N *)nullptr, In);
        t->set = d.nested;
      } else t = thunk(d.value, In);
      r->a[n] = t;
      if (S->rec) In->vars[n] = t;
    }
    for (auto &d : S->dyn) {
      Thunk *t;
      if (d.nested) {
        t = thunk((const N *)nullptr, In);
        t->set = d.nested;
      } else t = thunk(d.value, In);
      Str s;
      Value *dv;
      if (attrName(d.name, In, s, dv)) {
        if (r->a.count(s)) return bottom();
        r->a[s] = t;
      } else if (dv->k == VBottom) return dv;
      else if (dv->k == VPrim && dv->s == "null") continue;
      else r->dyn.push_back({dv, t});
    }
    return r;
  }
  void pushText(Value *r, const Str &s) {
    if (s.empty()) return;
    if (!r->e.empty() && r->e.back()->v->k == VPrim) r->e.back()->v->s += s;
    else r->e.push_back(thunk(val(VPrim, s)));
  }
  /// parts -> VStr with e = alternating texts (VPrim) and values; pure text in s
  Value *concat(VK k, const std::vector<std::pair<Str, const N *>> &parts, Env *E) {
    Value *r = val(k);
    for (auto &[s, n] : parts) {
      if (!n) {
        pushText(r, s);
        continue;
      }
      Value *v = eval(n, E);
      if (v->k == VBottom) return v;
      if (v->k == VStr) {
        if (v->e.empty()) pushText(r, v->s);
        else
          for (auto *t : v->e) {
            if (t->v->k == VPrim) pushText(r, t->v->s);
            else r->e.push_back(t);
          }
      } else r->e.push_back(thunk(neutral("coerce", {thunk(v)})));
    }
    if (r->e.empty()) return r;
    if (r->e.size() == 1 && r->e[0]->v->k == VPrim) {
      r->s = r->e[0]->v->s;
      r->e.clear();
    }
    return r;
  }
  static std::vector<std::pair<Str, const N *>> plainParts(const N *n) {
    std::vector<std::pair<Str, const N *>> p;
    for (auto *c : n->c) {
      if (c->k == Interp) p.push_back({"", c->c[0]});
      else p.push_back({c->s, nullptr});
    }
    return p;
  }
  /// Nix's stripIndentation
  static std::vector<std::pair<Str, const N *>> indParts(const N *n) {
    struct T {
      Str s;
      bool ind;
      const N *x;
    };
    std::vector<T> ts;
    for (auto *c : n->raw) ts.push_back({c->s, c->k == Text && c->b == 0, c->k == Interp ? c->c[0] : nullptr});
    if (!ts.empty() && ts[0].ind) { // the opening quote takes ` *\n`
      size_t p = ts[0].s.find_first_not_of(' ');
      if (p != Str::npos && ts[0].s[p] == '\n') ts[0].s.erase(0, p + 1);
      if (ts[0].s.empty()) ts.erase(ts.begin());
    }
    bool start = true;
    size_t minI = 1000000, cur = 0;
    for (auto &t : ts) {
      if (!t.ind) {
        if (start) {
          start = false;
          minI = std::min(minI, cur);
        }
        continue;
      }
      for (char ch : t.s) {
        if (start) {
          if (ch == ' ') ++cur;
          else if (ch == '\n') cur = 0;
          else {
            start = false;
            minI = std::min(minI, cur);
          }
        } else if (ch == '\n') {
          start = true;
          cur = 0;
        }
      }
    }
    std::vector<std::pair<Str, const N *>> r;
    start = true;
    size_t drop = 0, left = ts.size();
    for (auto &t : ts) {
      if (t.x) {
        start = false;
        drop = 0;
        r.push_back({"", t.x});
      } else {
        Str s2;
        for (char ch : t.s) {
          if (start) {
            if (ch == ' ') {
              if (drop++ >= minI) s2 += ch;
            } else if (ch == '\n') {
              drop = 0;
              s2 += ch;
            } else {
              start = false;
              drop = 0;
              s2 += ch;
            }
          } else {
            s2 += ch;
            if (ch == '\n') start = true;
          }
        }
        if (left == 1) {
          size_t p = s2.find_last_of('\n');
          if (p != Str::npos && s2.find_first_not_of(' ', p + 1) == Str::npos) s2.resize(p + 1);
        }
        r.push_back({s2, nullptr});
      }
      --left;
    }
    return r;
  }
  static Str normPath(const Str &p) {
    std::vector<Str> v;
    size_t i = 0;
    while (i <= p.size()) {
      size_t j = p.find('/', i);
      if (j == Str::npos) j = p.size();
      Str x = p.substr(i, j - i);
      if (x == "..") {
        if (!v.empty()) v.pop_back();
      } else if (!x.empty() && x != ".") v.push_back(x);
      i = j + 1;
    }
    Str r;
    for (auto &x : v) r += "/" + x;
    return r.empty() ? "/" : r;
  }
  Value *path(const N *n, Env *E) {
    auto ps = plainParts(n);
    if (!ps.empty() && !ps[0].second) {
      Str &t = ps[0].first;
      bool slash = ps.size() > 1 && t.size() > 1 && t.back() == '/';
      if (t[0] == '~') t = "~" + normPath(t.substr(1));
      else t = normPath(t[0] == '/' ? t : dir + "/" + t);
      if (slash && t != "/") t += "/";
    }
    return concat(VPath, ps, E);
  }

  Value *apply(Value *f, Thunk *arg) {
    if (--fuel < 0) throw Fuel{};
    switch (f->k) {
    case VLam: {
      const N *n = f->n, *fs = n->c[1];
      Env *In = extend(f->env);
      if (n->c[0]) In->vars[n->c[0]->s] = arg;
      if (fs) {
        Value *a = force(arg);
        if (a->k == VBottom) return a;
        if (a->k == VNeutral || a->k == VPrim || (a->k == VSet && !a->dyn.empty())) return neutral("app", {thunk(f), arg});
        if (a->k != VSet) return bottom();
        size_t used = 0;
        for (auto *x : fs->c) {
          auto it = a->a.find(x->s);
          if (it != a->a.end()) {
            In->vars[x->s] = it->second;
            ++used;
          } else if (x->c[1]) In->vars[x->s] = thunk(x->c[1], In);
          else return bottom();
        }
        if (fs->s.empty() && used != a->a.size()) return bottom();
      }
      return eval(n->c[2], In);
    }
    case VSet:
      if (auto it = f->a.find("__functor"); it != f->a.end()) return apply(apply(force(it->second), thunk(f)), arg);
      return f->dyn.empty() ? bottom() : neutral("app", {thunk(f), arg});
    case VPrim:
      if (f->s == "import" && !files.empty()) {
        Value *a = force(arg);
        if (a->k == VPath && a->e.empty() && files.count(a->s)) {
          es.emplace_back();
          return eval(files[a->s], &es.back());
        }
      }
      [[fallthrough]];
    case VNeutral: {
      return neutral("app", {thunk(f), arg});
    }
    case VBottom:
      return f;
    default:
      return bottom();
    }
  }

  static bool isBool(const Value *v, bool &b) {
    if (v->k != VPrim || (v->s != "true" && v->s != "false")) return false;
    b = v->s == "true";
    return true;
  }

  Value *eval(const N *n, Env *E) {
    if (--fuel < 0 || depth > 2000) throw Fuel{};
    struct D {
      int &d;
      D(int &d) : d(d) { ++d; }
      ~D() { --d; }
    } guard(depth);
    switch (n->k) {
    case Var:
      if (n->s == "__curPos") return prim(n->s);
      return var(n->s, E);
    case Int: return val(VInt, std::to_string(strtoll(n->s.c_str(), nullptr, 10)));
    case Float: {
      char b[64];
      snprintf(b, sizeof b, "%a", strtod(n->s.c_str(), nullptr));
      return val(VFloat, b);
    }
    case String: return concat(VStr, plainParts(n), E);
    case IndString: return concat(VStr, indParts(n), E);
    case Path: return path(n, E);
    case SPath: return neutral("<" + n->s + ">");
    case Uri: return val(VStr, n->s);
    case Paren: return eval(n->c[0], E);
    case List: {
      Value *r = val(VList);
      for (auto *c : n->c) r->e.push_back(thunk(c, E));
      return r;
    }
    case Attrs: return mkSet(n->set, E);
    case LegacyLet: {
      Value *v = mkSet(n->set, E);
      return v->k == VSet ? selectOne(v, "body") : v;
    }
    case Let: {
      Env *In;
      Value *v = mkSet(n->set, E, &In);
      if (v->k != VSet) return v;
      return eval(n->c.back(), In);
    }
    case Select: {
      return select(eval(n->c[0], E), n->c[1]->c, 0, n->c[2], E);
    }
    case Call: {
      Value *f = eval(n->c[0], E);
      for (size_t i = 1; i < n->c.size(); ++i) f = apply(f, thunk(n->c[i], E));
      return f;
    }
    case Lambda: {
      Value *r = val(VLam);
      r->n = n;
      r->env = E;
      return r;
    }
    case With: {
      Env *In = extend(E);
      In->with = thunk(n->c[0], E);
      return eval(n->c[1], In);
    }
    case If: {
      Value *c = eval(n->c[0], E);
      bool b;
      if (c->k == VBottom) return c;
      if (isBool(c, b)) return eval(n->c[b ? 1 : 2], E);
      if (c->k != VNeutral) return bottom();
      return neutral("if", {thunk(c), thunk(n->c[1], E), thunk(n->c[2], E)});
    }
    case Assert: {
      Value *c = eval(n->c[0], E);
      bool b;
      if (c->k == VBottom) return c;
      if (isBool(c, b)) return b ? eval(n->c[1], E) : bottom();
      if (c->k != VNeutral) return bottom();
      return neutral("assert", {thunk(c), thunk(n->c[1], E)});
    }
    case HasAttr: {
      Value *v = eval(n->c[0], E);
      auto &p = n->c[1]->c;
      for (size_t i = 0; i < p.size(); ++i) {
        if (v->k == VBottom) return v;
        Str s;
        Value *dyn;
        bool ok = attrName(p[i], E, s, dyn);
        if (v->k != VSet && v->k != VNeutral && v->k != VPrim) return prim("false");
        if (ok && v->k == VSet && (v->dyn.empty() || v->a.count(s))) {
          if (!v->a.count(s)) return prim("false");
          if (i + 1 == p.size()) return prim("true");
          v = force(v->a[s]);
          continue;
        }
        std::vector<Thunk *> a{thunk(v)};
        Str tag = "has";
        for (; i < p.size(); ++i) {
          if (attrName(p[i], E, s, dyn)) tag += "." + s;
          else {
            tag += ".${}";
            a.push_back(thunk(dyn));
          }
        }
        return neutral(tag, a);
      }
      return prim("true");
    }
    case Un: {
      Value *v = eval(n->c[0], E);
      if (v->k == VBottom) return v;
      if (n->s == "-" && v->k == VInt) return val(VInt, std::to_string((long long)(0ULL - (unsigned long long)strtoll(v->s.c_str(), nullptr, 10))));
      if (n->s == "-" && v->k == VFloat) {
        char b[64];
        snprintf(b, sizeof b, "%a", -strtod(v->s.c_str(), nullptr));
        return val(VFloat, b);
      }
      return neutral("un" + n->s, {thunk(v)});
    }
    case Bin: {
      if (n->s == "|>") return apply(eval(n->c[1], E), thunk(n->c[0], E));
      if (n->s == "<|") return apply(eval(n->c[0], E), thunk(n->c[1], E));
      if (n->s == "-" || n->s == "+") { // integers, for the negative numbers of JSON
        Value *a = eval(n->c[0], E), *b = eval(n->c[1], E);
        if (a->k == VInt && b->k == VInt) {
          long long x = strtoll(a->s.c_str(), nullptr, 10), y = strtoll(b->s.c_str(), nullptr, 10);
          unsigned long long r = n->s == "-" ? (unsigned long long)x - (unsigned long long)y : (unsigned long long)x + (unsigned long long)y;
          return val(VInt, std::to_string((long long)r));
        }
        return neutral("bin" + n->s, {thunk(a), thunk(b)});
      }
      return neutral("bin" + n->s, {thunk(n->c[0], E), thunk(n->c[1], E)});
    }
    default:
      return bottom();
    }
  }

  int fresh = 0;
  static Str quote(const Str &s) {
    Str r = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') r += '\\';
      if (c < 32) {
        char b[8];
        snprintf(b, sizeof b, "\\x%02x", c);
        r += b;
      } else r += (char)c;
    }
    return r + "\"";
  }
  void read(Thunk *t, int d, Str &o) { read(force(t), d, o); }
  void read(Value *v, int d, Str &o) {
    if (--fuel < 0 || o.size() > 200000) throw Fuel{};
    if (d > maxDepth) {
      o += "...";
      return;
    }
    switch (v->k) {
    case VInt:
    case VFloat:
      o += v->s;
      return;
    case VStr:
    case VPath:
      o += v->k == VPath ? "p" : "";
      if (v->e.empty()) {
        o += quote(v->s);
        return;
      }
      o += "(";
      for (auto *t : v->e) {
        if (t->v->k == VPrim) o += quote(t->v->s);
        else read(t, d + 1, o);
        o += " ";
      }
      o += ")";
      return;
    case VList:
      o += "[";
      for (auto *t : v->e) {
        read(t, d + 1, o);
        o += " ";
      }
      o += "]";
      return;
    case VSet:
      o += "{";
      for (auto &[n, t] : v->a) {
        o += quote(n) + "=";
        read(t, d + 1, o);
        o += ";";
      }
      for (auto &[n, t] : v->dyn) {
        o += "${";
        read(n, d + 1, o);
        o += "}=";
        read(t, d + 1, o);
        o += ";";
      }
      o += "}";
      return;
    case VLam: {
      const N *n = v->n, *fs = n->c[1];
      Env *In = extend(v->env);
      int id = fresh++;
      Str p = "#" + std::to_string(id);
      o += "\\" + p;
      if (n->c[0]) In->vars[n->c[0]->s] = thunk(neutral(p));
      if (fs) {
        std::map<Str, const N *> m;
        for (auto *x : fs->c) m[x->s] = x->c[1];
        for (auto &[s, x] : m) In->vars[s] = thunk(neutral(p + "." + s));
        o += "{";
        for (auto &[s, x] : m) {
          o += s;
          if (x) {
            o += "?";
            Thunk *t = thunk(x, In);
            read(t, d + 1, o);
          }
          o += ",";
        }
        o += fs->s + "}";
      }
      o += ":";
      read(thunk(n->c[2], In), d + 1, o);
      fresh = id;
      return;
    }
    case VNeutral:
      o += "(" + v->s;
      for (auto *t : v->e) {
        o += " ";
        read(t, d + 1, o);
      }
      o += ")";
      return;
    case VPrim:
      o += "@" + v->s;
      return;
    case VBottom:
      o += "!";
      return;
    }
  }
  /// normal form, or "" when the bounds are exceeded
  Str norm(const N *n) {
    try {
      es.emplace_back();
      Str o;
      read(eval(n, &es.back()), 0, o);
      return o;
    } catch (Fuel &) {
      return "";
    }
  }
};
} // namespace ref
