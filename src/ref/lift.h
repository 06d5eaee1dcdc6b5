// Lifts a libnixf tree into the reference tree form, so that the two can be
// compared and the reference's resolver and evaluator can run on either.
#pragma once
#include "checks/nixfutil.h"
#include "ref/nixref.h"

namespace ref {

struct Lift {
  Arena &A;
  Str Bad; ///< first thing the tree lacks (null child, unknown kind)
  std::map<const nixf::Node *, N *> Of;
  explicit Lift(Arena &A) : A(A) {}
  using NN = nixf::Node;

  static int B(const NN &n) { return n.lCur().offset(); }
  static int E(const NN &n) { return n.rCur().offset(); }
  N *bad(const char *w) {
    if (Bad.empty()) Bad = w;
    return nullptr;
  }
  N *mk(K k, const NN &n, Str s = "", std::vector<N *> c = {}) {
    N *r = A.node(k, B(n), E(n), std::move(s), std::move(c));
    Of[&n] = r;
    return r;
  }

  std::vector<N *> parts(const nixf::InterpolatedParts &P) {
    std::vector<N *> c;
    for (auto &F : P.fragments()) {
      if (F.kind() == nixf::InterpolablePart::SPK_Escaped) {
        if (F.escaped().empty()) continue;
        if (!c.empty() && c.back()->k == Text) c.back()->s += F.escaped();
        else c.push_back(A.node(Text, -1, -1, F.escaped()));
      } else {
        auto &I = F.interpolation();
        N *x = I.expr() ? expr(I.expr()) : bad("empty interpolation");
        c.push_back(mk(Interp, I, "", {x}));
      }
    }
    return c;
  }
  N *name(const nixf::AttrName &M) {
    switch (M.kind()) {
    case nixf::AttrName::ANK_ID:
      return mk(NameId, M, M.id()->name());
    case nixf::AttrName::ANK_String:
      return mk(NameStr, M, "", {mk(String, M.string(), "", parts(M.string().parts()))});
    default: {
      auto &I = M.interpolation();
      return mk(NameDyn, M, "", {I.expr() ? expr(I.expr()) : bad("empty dynamic name")});
    }
    }
  }
  N *path(const nixf::AttrPath *P) {
    if (!P) return bad("missing attrpath");
    std::vector<N *> c;
    for (auto &M : P->names()) c.push_back(M ? name(*M) : bad("missing attrname"));
    return mk(AttrPath, *P, "", c);
  }
  std::vector<N *> binds(const nixf::Binds *Bs) {
    std::vector<N *> r;
    if (!Bs) return r;
    for (auto &X : Bs->bindings()) {
      if (X->kind() == NN::NK_Binding) {
        auto &Y = static_cast<const nixf::Binding &>(*X);
        if (!Y.value()) bad("binding without value");
        r.push_back(mk(Binding, Y, "", {path(&Y.path()), Y.value() ? expr(Y.value().get()) : nullptr}));
      } else if (X->kind() == NN::NK_Inherit) {
        auto &Y = static_cast<const nixf::Inherit &>(*X);
        std::vector<N *> c{Y.expr() ? expr(Y.expr().get()) : nullptr};
        for (auto &M : Y.names()) c.push_back(name(*M));
        r.push_back(mk(Inherit, Y, "", c));
      } else bad("unknown binding kind");
    }
    return r;
  }
  N *need(const nixf::Expr *X, const char *w) { return X ? expr(X) : bad(w); }
  static const char *op(nixf::tok::TokenKind K) { return nixf::tok::spelling(K).data(); }

  N *expr(const nixf::Expr *X) {
    switch (X->kind()) {
    case NN::NK_ExprInt:
      return mk(Int, *X, std::to_string(static_cast<const nixf::ExprInt &>(*X).value()));
    case NN::NK_ExprFloat: {
      char Buf[64];
      snprintf(Buf, sizeof Buf, "%a", static_cast<const nixf::ExprFloat &>(*X).value());
      return mk(Float, *X, Buf);
    }
    case NN::NK_ExprVar:
      return mk(Var, *X, static_cast<const nixf::ExprVar &>(*X).id().name());
    case NN::NK_ExprString:
      return mk(String, *X, "", parts(static_cast<const nixf::ExprString &>(*X).parts()));
    case NN::NK_ExprPath:
      return mk(Path, *X, "", parts(static_cast<const nixf::ExprPath &>(*X).parts()));
    case NN::NK_ExprSPath:
      return mk(SPath, *X, static_cast<const nixf::ExprSPath &>(*X).text());
    case NN::NK_ExprParen: {
      auto &Y = static_cast<const nixf::ExprParen &>(*X);
      if (!Y.rparen()) bad("missing )");
      return mk(Paren, *X, "", {need(Y.expr(), "empty parentheses")});
    }
    case NN::NK_ExprList: {
      std::vector<N *> c;
      for (auto &Z : static_cast<const nixf::ExprList &>(*X).elements()) c.push_back(need(Z.get(), "null element"));
      return mk(List, *X, "", c);
    }
    case NN::NK_ExprAttrs: {
      auto &Y = static_cast<const nixf::ExprAttrs &>(*X);
      return mk(Attrs, *X, Y.rec() ? "rec" : "", binds(Y.binds()));
    }
    case NN::NK_ExprSelect: {
      auto &Y = static_cast<const nixf::ExprSelect &>(*X);
      return mk(Select, *X, "", {expr(&Y.expr()), path(Y.path()), Y.defaultExpr() ? expr(Y.defaultExpr()) : nullptr});
    }
    case NN::NK_ExprCall: {
      auto &Y = static_cast<const nixf::ExprCall &>(*X);
      std::vector<N *> c{expr(&Y.fn())};
      for (auto &Z : Y.args()) c.push_back(need(Z.get(), "null argument"));
      return mk(Call, *X, "", c);
    }
    case NN::NK_ExprLambda: {
      auto &Y = static_cast<const nixf::ExprLambda &>(*X);
      N *arg = nullptr, *fs = nullptr;
      if (!Y.arg()) bad("lambda without argument");
      else {
        if (auto *I = Y.arg()->id()) arg = mk(Id, *I, I->name());
        if (auto *F = Y.arg()->formals()) {
          std::vector<N *> c;
          Str ell;
          for (auto &M : F->members()) {
            if (M->isEllipsis()) {
              ell = "...";
              continue;
            }
            if (!M->id()) continue; // trailing comma
            N *id = mk(Id, *M->id(), M->id()->name());
            N *f = mk(Formal, *M, M->id()->name(), {id, M->defaultExpr() ? expr(M->defaultExpr()) : nullptr});
            f->b = id->b; // nixd's formal starts at its comma
            c.push_back(f);
          }
          fs = mk(Formals, *F, ell, c);
        }
      }
      return mk(Lambda, *X, "", {arg, fs, need(Y.body(), "lambda without body")});
    }
    case NN::NK_ExprBinOp: {
      auto &Y = static_cast<const nixf::ExprBinOp &>(*X);
      return mk(Bin, *X, op(Y.op().op()), {need(Y.lhs(), "no lhs"), need(Y.rhs(), "no rhs")});
    }
    case NN::NK_ExprUnaryOp: {
      auto &Y = static_cast<const nixf::ExprUnaryOp &>(*X);
      return mk(Un, *X, op(Y.op().op()), {need(Y.expr(), "no operand")});
    }
    case NN::NK_ExprOpHasAttr: {
      auto &Y = static_cast<const nixf::ExprOpHasAttr &>(*X);
      return mk(HasAttr, *X, "", {need(Y.expr(), "no operand"), path(Y.attrpath())});
    }
    case NN::NK_ExprIf: {
      auto &Y = static_cast<const nixf::ExprIf &>(*X);
      return mk(If, *X, "", {need(Y.cond(), "no condition"), need(Y.then(), "no then"), need(Y.elseExpr(), "no else")});
    }
    case NN::NK_ExprAssert: {
      auto &Y = static_cast<const nixf::ExprAssert &>(*X);
      return mk(Assert, *X, "", {need(Y.cond(), "no condition"), need(Y.value(), "no value")});
    }
    case NN::NK_ExprWith: {
      auto &Y = static_cast<const nixf::ExprWith &>(*X);
      return mk(With, *X, "", {need(Y.with(), "no with"), need(Y.expr(), "no body")});
    }
    case NN::NK_ExprLet: {
      auto &Y = static_cast<const nixf::ExprLet &>(*X);
      auto c = binds(Y.binds());
      c.push_back(need(Y.expr(), "let without body"));
      return mk(Let, *X, "", c);
    }
    case NN::NK_ExprLegacyLet: {
      auto &Y = static_cast<const nixf::ExprLegacyLet &>(*X);
      return mk(LegacyLet, *X, "", Y.attrs() ? binds(Y.attrs()->binds()) : std::vector<N *>{});
    }
    default:
      return bad("unknown expression kind");
    }
  }
};
} // namespace ref
