// C09: template expressions: value, instantiation, ownership.
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "mc.h"
#include "mpact/sim/decoder/template_expression.h"

using mc::Ctx;
using namespace mpact::sim::machine_description::instruction_set;

namespace {

// ---- The specification: plain trees and substitution. ----------------------
enum K { CONST, PARAM, NEG, SLOT, ADD, SUB, MUL, DIV, F0, F1, F2 };
struct Tree {
  K k;
  int v = 0;  // constant or parameter position
  std::vector<std::shared_ptr<Tree>> a;
};
using T = std::shared_ptr<Tree>;
T Mk(K k, int v = 0, std::vector<T> a = {}) {
  auto t = std::make_shared<Tree>();
  t->k = k;
  t->v = v;
  t->a = std::move(a);
  return t;
}
bool Closed(const T& t) {
  if (t->k == PARAM) return false;
  for (auto& x : t->a)
    if (!Closed(x)) return false;
  return true;
}
struct Overflow {};
using Val = std::optional<int64_t>;
// Value of a closed tree; empty: an error. The evaluation never leaves the
// range of int, or the case is outside the property.
Val Value(const T& t) {
  std::vector<int64_t> v;
  bool bad = false;
  for (auto& x : t->a) {
    Val r = Value(x);
    if (!r) bad = true;
    v.push_back(r.value_or(0));
  }
  if (bad) return {};
  int64_t r = 0;
  switch (t->k) {
    case CONST: r = t->v; break;
    case PARAM: return {};
    case NEG: r = -v[0]; break;
    case SLOT: r = v[0]; break;
    case ADD: r = v[0] + v[1]; break;
    case SUB: r = v[0] - v[1]; break;
    case MUL: r = v[0] * v[1]; break;
    case DIV:
      if (v[1] == 0) return {};
      r = v[0] / v[1];
      break;
    case F0: r = 42; break;
    case F1: r = v[0] + 3; break;
    case F2:
      if (v[0] == 0) return {};
      r = v[0] * 10 - v[1];
      break;
  }
  if (r > INT32_MAX || r < INT32_MIN) throw Overflow{};
  return r;
}
// Does some closed subtree have no value?
bool HasError(const T& t) {
  if (Closed(t) && !Value(t)) return true;
  for (auto& x : t->a)
    if (HasError(x)) return true;
  return false;
}
struct OutOfRange {};
T Subst(const T& t, const std::vector<T>* args) {
  if (t->k == PARAM) {
    if (!args) return t;
    if (t->v >= (int)args->size()) throw OutOfRange{};
    return (*args)[t->v];
  }
  std::vector<T> a;
  for (auto& x : t->a) a.push_back(Subst(x, args));
  return Mk(t->k, t->v, a);
}
std::string Text(const T& t) {
  switch (t->k) {
    case CONST: return mc::S("%d", t->v);
    case PARAM: return mc::S("p%d", t->v);
    case NEG: return "-(" + Text(t->a[0]) + ")";
    case SLOT: return "slot(" + Text(t->a[0]) + ")";
    case F0: return "f0()";
    case F1: return "f1(" + Text(t->a[0]) + ")";
    case F2: return "f2(" + Text(t->a[0]) + "," + Text(t->a[1]) + ")";
    default: break;
  }
  return "(" + Text(t->a[0]) + " " + "+-*/"[t->k - ADD] + " " + Text(t->a[1]) +
         ")";
}

// ---- The implementation. ----------------------------------------------------
absl::StatusOr<TemplateValue> Fn(int n, TemplateInstantiationArgs* args) {
  if ((int)args->size() != n) return absl::InternalError("argument count");
  int v[2] = {0, 0};
  for (int i = 0; i < n; i++) {
    auto r = (*args)[i]->GetValue();
    if (!r.ok()) return r.status();
    auto tv = r.value();
    v[i] = *std::get_if<int>(&tv);
  }
  if (n == 0) return TemplateValue(42);
  if (n == 1) return TemplateValue(v[0] + 3);
  if (v[0] == 0) return absl::InvalidArgumentError("f2");
  return TemplateValue(v[0] * 10 - v[1]);
}
struct Formals {
  TemplateFormal f0{"p0", 0}, f1{"p1", 1}, f2{"p2", 2};
  TemplateFormal* operator[](int i) { return i == 0 ? &f0 : i == 1 ? &f1 : &f2; }
};
TemplateExpression* Build(const T& t, Formals& f) {
  auto A = [&](int i) { return Build(t->a[i], f); };
  switch (t->k) {
    case CONST: return t->v & 1 ? new TemplateConstant(t->v)
                                : new TemplateConstant(TemplateValue(t->v));
    case PARAM: return new TemplateParam(f[t->v]);
    case NEG: return new TemplateNegate(A(0));
    case SLOT: return new SlotConstant(A(0));
    case ADD: { auto* l = A(0); return new TemplateAdd(l, A(1)); }
    case SUB: { auto* l = A(0); return new TemplateSubtract(l, A(1)); }
    case MUL: { auto* l = A(0); return new TemplateMultiply(l, A(1)); }
    case DIV: { auto* l = A(0); return new TemplateDivide(l, A(1)); }
    default: break;
  }
  auto* args = new TemplateInstantiationArgs;
  for (size_t i = 0; i < t->a.size(); i++) args->push_back(A(i));
  int n = t->a.size();
  return new TemplateFunction(
      [n](TemplateInstantiationArgs* a) { return Fn(n, a); }, args);
}

void CheckExpr(Ctx& c, const char* what, const TemplateExpression* e,
               const T& t) {
  c.check(e->IsConstant() == Closed(t), "%s: IsConstant() is %d for %s", what,
          e->IsConstant(), Text(t).c_str());
  auto v = e->GetValue();
  Val want = Closed(t) ? Value(t) : Val();
  c.check(v.ok() == want.has_value(), "%s: GetValue() of %s is %s, %s expected",
          what, Text(t).c_str(), v.ok() ? "a value" : "an error",
          want ? "a value" : "an error");
  if (v.ok()) {
    auto tv = v.value();
    c.check(*std::get_if<int>(&tv) == *want, "%s: %s is %d, %lld expected",
            what, Text(t).c_str(), *std::get_if<int>(&tv), (long long)*want);
  }
}

// Instantiates; returns the new expression or null when it is an error.
TemplateExpression* Inst(Ctx& c, const char* what, TemplateExpression* e,
                         const T& t, TemplateInstantiationArgs* args,
                         const std::vector<T>* targs, T* out) {
  auto r = e->Evaluate(args);
  T s;
  try {
    s = Subst(t, targs);
  } catch (OutOfRange&) {
    c.check(!r.ok(), "%s: %s instantiated with too few arguments", what,
            Text(t).c_str());
    return nullptr;
  }
  *out = s;
  if (r.ok()) {
    c.check(r.value() != nullptr && r.value() != e, "%s: not a new expression",
            what);
    if (HasError(s) && !Closed(s)) {
      // May still carry the error.
      c.check(!r.value()->IsConstant() && !r.value()->GetValue().ok(),
              "%s: %s has a value", what, Text(s).c_str());
    } else {
      CheckExpr(c, what, r.value(), s);
    }
    return r.value();
  }
  c.check(HasError(s), "%s: instantiation of %s to %s failed: %s", what,
          Text(t).c_str(), Text(s).c_str(),
          std::string(r.status().message()).c_str());
  return nullptr;
}

// Builds a tree with at most n operators by choices.
T Gen(Ctx& c, int n, const std::vector<int>& consts, int nparams, bool rich) {
  int leaves = (int)consts.size() + nparams;
  // kinds: leaf..., NEG, ADD..DIV, then (rich) SLOT, F0, F1, F2
  int ops = n > 0 ? (rich ? 9 : 5) : 0;
  int k = c.choose(leaves + ops, "node");
  if (k < (int)consts.size()) return Mk(CONST, consts[k]);
  if (k < leaves) return Mk(PARAM, k - (int)consts.size());
  static const K kOps[] = {NEG, ADD, SUB, MUL, DIV, SLOT, F0, F1, F2};
  K op = kOps[k - leaves];
  if (op == F0) return Mk(op);
  if (op == NEG || op == SLOT || op == F1)
    return Mk(op, 0, {Gen(c, n - 1, consts, nparams, rich)});
  int l = c.choose(n, "operators left");
  T a = Gen(c, l, consts, nparams, rich);
  T b = Gen(c, n - 1 - l, consts, nparams, rich);
  return Mk(op, 0, {a, b});
}

void Body(Ctx& c, int n, const std::vector<int>& consts, int nparams, bool rich,
          int nargsets) {
  Formals f, outer;
  T t = Gen(c, n, consts, nparams, rich);
  static const T p0 = [] { mc::NoTrack x; return Mk(PARAM, 0); }(),
                 p1 = [] { mc::NoTrack x; return Mk(PARAM, 1); }();
  // Argument lists of the first instantiation.
  int as = Closed(t) ? 0 : c.choose(nargsets, "arguments");
  auto C = [](int v) { return Mk(CONST, v); };
  std::vector<T> targs;
  switch (as) {
    case 0: targs = {C(6), C(-2)}; break;
    case 1: targs = {Mk(SUB, 0, {p1, C(4)}), p0}; break;
    case 2: targs = {C(0), p1}; break;
    case 3: targs = {Mk(F1, 0, {C(-3)}), Mk(NEG, 0, {p0})}; break;
    case 4: targs = {Mk(F2, 0, {p0, p1}), Mk(DIV, 0, {C(7), C(0)})}; break;
    case 5: targs = {C(9)}; break;
  }
  std::vector<T> targs2 = {C(5), C(-7)};
  try {
    // Keep int overflow out.
    (void)HasError(t);
    try {
      T s = Subst(t, &targs);
      (void)HasError(s);
      (void)HasError(Subst(s, &targs2));
    } catch (OutOfRange&) {
    }
    try {
      (void)HasError(Subst(t, &targs2));
    } catch (OutOfRange&) {
    }
  } catch (Overflow&) {
    c.prune();
  }
  c.op("%s with argument list %d", Text(t).c_str(), as);
  TemplateExpression* e = Build(t, f);
  TemplateInstantiationArgs args, args2;
  for (auto& x : targs) args.push_back(Build(x, outer));
  for (auto& x : targs2) args2.push_back(Build(x, outer));
  CheckExpr(c, "expression", e, t);

  TemplateExpression* copy = e->DeepCopy();
  c.check(copy != nullptr && copy != e, "DeepCopy returned no new tree");
  CheckExpr(c, "copy", copy, t);

  T s, s2;
  // Without arguments.
  if (auto* x = Inst(c, "without arguments", e, t, nullptr, nullptr, &s))
    delete x;
  auto* x = Inst(c, "instantiation", e, t, &args, &targs, &s);
  // Neither the expression nor the arguments changed.
  CheckExpr(c, "expression afterwards", e, t);
  for (size_t i = 0; i < targs.size(); i++)
    CheckExpr(c, "argument afterwards", args[i], targs[i]);
  delete e;
  for (auto* a : args) delete a;
  // The result and the copy stand on their own.
  if (x) {
    if (!(HasError(s) && !Closed(s))) CheckExpr(c, "result afterwards", x, s);
    auto* y = Inst(c, "second instantiation", x, s, &args2, &targs2, &s2);
    delete x;
    if (y) {
      auto* yc = y->DeepCopy();
      delete y;
      if (!(HasError(s2) && !Closed(s2))) CheckExpr(c, "final copy", yc, s2);
      delete yc;
    }
  }
  CheckExpr(c, "copy afterwards", copy, t);
  if (auto* z = Inst(c, "copy instantiation", copy, t, &args2, &targs2, &s2))
    delete z;
  delete copy;
  for (auto* a : args2) delete a;
  c.state(Text(t) + mc::S("#%d", as));
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(
      argc, argv, "C09",
      {{"rich2",
        [](Ctx& c) { Body(c, 2, {0, 1, -3, 7, 70000}, 3, true, 6); }},
       {"rich3", [](Ctx& c) { Body(c, 3, {0, 7}, 1, true, 4); }},
       {"arith3", [](Ctx& c) { Body(c, 3, {0, 2, -3}, 2, false, 3); }, 3, true},
       {"rich3_deep",
        [](Ctx& c) { Body(c, 3, {0, -7}, 2, true, 5); }, 3, true}},
      "all expression trees of up to 2 operators over 5 constants and 3 "
      "parameters x 6 argument lists, and of up to 3 operators over 2 "
      "constants and 1 parameter x 4 lists (thorough: 3 operators with more "
      "leaves); operators: negation, slot constant, + - * /, functions of 0, 1 "
      "and 2 arguments, one of which can fail",
      {"integer overflow of int is outside the property"});
}
