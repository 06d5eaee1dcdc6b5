// Lexical scoping of the Nix language over reference trees (Nix's bindVars).
#pragma once
#include "ref/nixref.h"

#include <algorithm>
#include <functional>

namespace ref {

struct Scoping {
  enum BK { BLet, BRec, BArg, BFormal, BFormalWithArg, BArgWithFormals, BWith };
  struct Bind {
    BK k;
    const N *at = nullptr; ///< name node; the With expression for BWith
    Str name;
    std::vector<std::pair<int, int>> uses;
    const N *owner = nullptr; ///< Let, LegacyLet, Attrs, Lambda or With
    std::vector<N *> more; ///< further names that contribute to the attribute
    Def::Kind how = Def::Plain;
  };
  enum OK { Undefined, Builtin, Defined, FromWith };
  struct Occ {
    int b, e;
    Str name;
    OK k;
    int bind = -1;          ///< Defined
    std::vector<int> withs; ///< FromWith: innermost first
    bool inherited = false; ///< written as a name of `inherit`
  };
  struct RecSet {
    const N *at; ///< the Attrs
    bool used = false;
    std::vector<int> binds;
  };
  struct Env {
    Env *up = nullptr;
    std::map<Str, int> defs;
    int with = -1;
  };
  std::deque<Bind> binds;
  std::deque<Occ> occs;
  std::deque<RecSet> recs;
  std::deque<Env> envs;
  std::map<const N *, Env *> envOf; ///< environment an expression is evaluated in
  std::function<bool(const Str &)> builtin; ///< is a global name
  std::set<const N *> seen;

  void run(const N *root) {
    envs.push_back({});
    expr(root, &envs.back());
    for (auto &r : recs)
      for (int b : r.binds) r.used |= !binds[b].uses.empty();
  }

private:
  int add(BK k, const N *at, const Str &name, const N *owner) {
    binds.push_back({k, at, name, {}, owner});
    return binds.size() - 1;
  }
  void use(const Str &name, int b, int e, Env *E, bool inherited) {
    Occ o{b, e, name, Undefined};
    o.inherited = inherited;
    for (Env *x = E; x; x = x->up) {
      auto it = x->defs.find(name);
      if (it != x->defs.end()) {
        o.k = Defined;
        o.bind = it->second;
        o.withs.clear();
        break;
      }
      if (x->with >= 0) o.withs.push_back(x->with);
    }
    if (o.k != Defined) {
      if (builtin(name)) {
        o.k = Builtin;
        o.withs.clear();
      } else if (!o.withs.empty()) o.k = FromWith;
    }
    if (o.k == Defined) binds[o.bind].uses.push_back({b, e});
    for (int w : o.withs) binds[w].uses.push_back({b, e});
    occs.push_back(o);
  }
  Env *extend(Env *E) {
    envs.push_back({});
    envs.back().up = E;
    return &envs.back();
  }
  /// the environment in which the set's values live
  Env *set(const Set *S, Env *E, BK k, const N *owner) {
    Env *In = E;
    if (S->rec) {
      In = extend(E);
      for (auto &[n, d] : S->st) {
        int i = In->defs[n] = add(k, d.name, n, owner);
        binds[i].more = d.more;
        binds[i].how = d.kind;
      }
      if (owner->k == Attrs) {
        recs.push_back({owner});
        for (auto &[n, b] : In->defs) recs.back().binds.push_back(b);
      }
    }
    for (auto &[n, d] : S->st) {
      if (d.kind == Def::Inherited) {
        envOf[d.name] = E;
        use(n, d.name->b, d.name->e, E, true);
      } else if (d.kind == Def::InheritedFrom) continue;
      else if (d.nested) nested(d.nested, d.value, In);
      else expr(d.value, In);
    }
    for (auto *f : S->from) expr(f, In);
    for (auto &d : S->dyn) {
      expr(d.name, In);
      if (d.nested) nested(d.nested, d.value, In);
      else expr(d.value, In);
    }
    return In;
  }
  void nested(const Set *S, const N *value, Env *E) {
    if (value && value->k == Attrs && value->set == S) expr(value, E);
    else set(S, E, BRec, value);
  }
  void expr(const N *n, Env *E) {
    if (!n || !seen.insert(n).second) return;
    envOf[n] = E;
    switch (n->k) {
    case Var:
      if (n->s == "__curPos") {
        occs.push_back({n->b, n->e, n->s, Builtin});
        return;
      }
      return use(n->s, n->b, n->e, E, false);
    case Attrs:
      set(n->set, E, BRec, n);
      return;
    case LegacyLet:
      set(n->set, E, BRec, n);
      return;
    case Let: {
      Env *In = set(n->set, E, BLet, n);
      expr(n->c.back(), In);
      return;
    }
    case Lambda: {
      const N *arg = n->c[0], *fs = n->c[1];
      Env *In = extend(E);
      if (arg) In->defs[arg->s] = add(fs ? BArgWithFormals : BArg, arg, arg->s, n);
      if (fs) {
        for (auto *f : fs->c) In->defs[f->s] = add(arg ? BFormalWithArg : BFormal, f->c[0], f->s, n);
        for (auto *f : fs->c) expr(f->c[1], In);
      }
      expr(n->c[2], In);
      return;
    }
    case With: {
      expr(n->c[0], E);
      Env *In = extend(E);
      In->with = add(BWith, n, "", n);
      expr(n->c[1], In);
      return;
    }
    default:
      for (auto *c : n->c) expr(c, E);
    }
  }
};
} // namespace ref
