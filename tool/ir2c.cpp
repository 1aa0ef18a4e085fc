// ir2c: translate an LLVM 18 module (already linked + optimised) into C for CBMC.
// Every SSA value becomes a C local, memory objects keep their LLVM layout, control flow becomes gotos.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/LoopInfo.h>
#include <functional>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/SmallString.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
using namespace llvm;
using std::string;

static Module *M;
static const DataLayout *DL;
static std::map<Type *, string> tname;
static std::vector<string> tdefs;
static std::map<const Value *, string> gname;
static std::set<string> unresolved;
static raw_ostream *OS;
static bool failed = false;
static string curfn;

static void unsupported (const string &what) {
  errs () << "ir2c: unsupported in " << curfn << ": " << what << "\n";
  failed = true;
}
static string str (const Value *v) { string s; raw_string_ostream o (s); v->print (o); return o.str (); }
static string str (const Type *v) { string s; raw_string_ostream o (s); v->print (o); return o.str (); }

static string ity (unsigned w) {
  switch (w) {
  case 1: return "u1";
  case 8: return "u8";
  case 16: return "u16";
  case 32: return "u32";
  case 64: return "u64";
  case 128: return "u128";
  }
  return "unsigned __CPROVER_bitvector[" + std::to_string (w) + "]";
}
static string sity (unsigned w) {
  switch (w) {
  case 8: return "s8";
  case 16: return "s16";
  case 32: return "s32";
  case 64: return "s64";
  case 128: return "s128";
  }
  return "signed __CPROVER_bitvector[" + std::to_string (w) + "]";
}
// flatten nested arrays to (scalar type, count)
static string ctype (Type *T);
static std::pair<Type *, uint64_t> flat (Type *T) {
  if (auto *A = dyn_cast<ArrayType> (T)) {
    auto p = flat (A->getElementType ());
    return { p.first, p.second * A->getNumElements () };
  }
  return { T, 1 };
}
static string ctype (Type *T) {
  auto it = tname.find (T);
  if (it != tname.end ()) return it->second;
  string r;
  if (T->isVoidTy ()) r = "void";
  else if (T->isIntegerTy ()) r = ity (T->getIntegerBitWidth ());
  else if (T->isFloatTy ()) r = "float";
  else if (T->isDoubleTy ()) r = "double";
  else if (T->isX86_FP80Ty ()) r = "long double";
  else if (T->isPointerTy ()) r = "ptr";
  else if (auto *S = dyn_cast<StructType> (T)) {
    string n = "struct S" + std::to_string (tname.size ());
    tname[T] = n; // no recursion possible with opaque pointers
    string d = n + " {";
    for (unsigned i = 0; i < S->getNumElements (); i++)
      d += " " + ctype (S->getElementType (i)) + " f" + std::to_string (i) + ";";
    if (S->getNumElements () == 0) d += " char dummy[0];";
    d += string (" }") + (S->isPacked () ? " __attribute__((packed))" : "") + ";";
    tdefs.push_back (d);
    return n;
  }
  else if (auto *A = dyn_cast<ArrayType> (T)) {
    string n = "struct A" + std::to_string (tname.size ());
    tname[T] = n;
    auto p = flat (A);
    string d = n + " { " + ctype (p.first) + " e[" + std::to_string (p.second) + "]; };";
    tdefs.push_back (d);
    return n;
  }
  else if (auto *V = dyn_cast<FixedVectorType> (T)) {
    string n = "struct V" + std::to_string (tname.size ());
    tname[T] = n;
    string d = n + " { " + ctype (V->getElementType ()) + " e[" + std::to_string (V->getNumElements ()) + "]; };";
    tdefs.push_back (d);
    return n;
  }
  else { unsupported ("type " + str (T)); r = "int"; }
  tname[T] = r;
  return r;
}
static string mangle (StringRef n) {
  string r;
  for (char c : n) r += (isalnum ((unsigned char) c) || c == '_') ? string (1, c) : "_" + std::to_string ((int) (unsigned char) c) + "_";
  return r;
}
static string gn (const GlobalValue *g) {
  auto it = gname.find (g);
  if (it != gname.end ()) return it->second;
  string n = (isa<Function> (g) ? "F_" : "G_") + mangle (g->getName ());
  return gname[g] = n;
}
static string intlit (const APInt &v) {
  unsigned w = v.getBitWidth ();
  if (w <= 64) return "((" + ity (w) + ")" + std::to_string (v.getZExtValue ()) + "ULL)";
  uint64_t lo = v.extractBitsAsZExtValue (64, 0), hi = w > 64 ? v.lshr (64).extractBitsAsZExtValue (std::min (64u, w - 64), 0) : 0;
  return "((" + ity (w) + ")((((u128)" + std::to_string (hi) + "ULL)<<64)|(u128)" + std::to_string (lo) + "ULL))";
}
static string fplit (const ConstantFP *c) {
  const APFloat &f = c->getValueAPF ();
  if (f.isNaN ()) return "(0.0/0.0)";
  if (f.isInfinity ()) return f.isNegative () ? "(-1.0/0.0)" : "(1.0/0.0)";
  char buf[64];
  if (c->getType ()->isDoubleTy ()) snprintf (buf, 64, "%a", f.convertToDouble ());
  else if (c->getType ()->isFloatTy ()) snprintf (buf, 64, "%af", (double) f.convertToFloat ());
  else { bool li; APFloat g (f); g.convert (APFloat::IEEEdouble (), APFloat::rmNearestTiesToEven, &li); snprintf (buf, 64, "%aL", g.convertToDouble ()); }
  return string ("(") + buf + ")";
}
static string nondet (Type *T) {
  if (T->isIntegerTy ()) {
    unsigned w = T->getIntegerBitWidth ();
    if (w == 1) return "nd_u1()"; if (w == 8) return "nd_u8()"; if (w == 16) return "nd_u16()"; if (w == 32) return "nd_u32()"; if (w == 64) return "nd_u64()";
    return "((" + ctype (T) + ")nd_u64())";
  }
  if (T->isDoubleTy ()) return "nd_double()";
  if (T->isFloatTy ()) return "nd_float()";
  if (T->isPointerTy ()) return "nd_ptr()";
  return "0";
}
static string constexpr_ptr (const Constant *C);
static string cval (const Constant *C, bool init); // init = inside a static initialiser
static void flat_inits (const Constant *C, std::vector<string> &out) {
  Type *T = C->getType ();
  if (auto *A = dyn_cast<ArrayType> (T)) {
    for (uint64_t i = 0; i < A->getNumElements (); i++) flat_inits (C->getAggregateElement ((unsigned) i), out);
  }
  else out.push_back (cval (C, true));
}
static string cval (const Constant *C, bool init) {
  Type *T = C->getType ();
  if (auto *ci = dyn_cast<ConstantInt> (C)) return intlit (ci->getValue ());
  if (auto *cf = dyn_cast<ConstantFP> (C)) return fplit (cf);
  if (isa<ConstantPointerNull> (C)) return "((ptr)0)";
  if (T->isPointerTy () && !isa<UndefValue> (C)) return constexpr_ptr (C);
  if (isa<UndefValue> (C) && !T->isAggregateType () && !T->isVectorTy ()) {
    if (init) return T->isPointerTy () ? "((ptr)0)" : "0";
    return nondet (T);
  }
  if (T->isStructTy ()) {
    auto *S = cast<StructType> (T);
    string r = init ? "{" : "((" + ctype (T) + "){";
    for (unsigned i = 0; i < S->getNumElements (); i++) r += (i ? "," : "") + cval (C->getAggregateElement (i), true);
    return r + (init ? "}" : "})");
  }
  if (T->isArrayTy ()) {
    std::vector<string> v; 
    string r = init ? "{{" : "((" + ctype (T) + "){{";
    if (!isa<ConstantAggregateZero> (C) || flat (T).second < 64) { flat_inits (C, v); } else v.push_back (flat (T).first->isStructTy () ? "{0}" : "0");
    for (size_t i = 0; i < v.size (); i++) r += (i ? "," : "") + v[i];
    if (v.empty ()) return init ? "{}" : "((" + ctype (T) + "){})";
    return r + (init ? "}}" : "}})");
  }
  if (auto *V = dyn_cast<FixedVectorType> (T)) {
    string r = init ? "{{" : "((" + ctype (T) + "){{";
    for (unsigned i = 0; i < V->getNumElements (); i++) { auto *e = C->getAggregateElement (i); r += (i ? "," : "") + (e ? cval (e, true) : string ("0")); }
    return r + (init ? "}}" : "}})");
  }
  if (auto *ce = dyn_cast<ConstantExpr> (C)) {
    if (ce->getOpcode () == Instruction::PtrToInt) return "((" + ctype (T) + ")" + cval (ce->getOperand (0), init) + ")";
    if (ce->getOpcode () == Instruction::Trunc) return "((" + ctype (T) + ")" + cval (ce->getOperand (0), init) + ")";
    if (ce->getOpcode () == Instruction::Sub) return "(" + cval (ce->getOperand (0), init) + "-" + cval (ce->getOperand (1), init) + ")";
    if (ce->getOpcode () == Instruction::Add) return "(" + cval (ce->getOperand (0), init) + "+" + cval (ce->getOperand (1), init) + ")";
    if (ce->getOpcode () == Instruction::ICmp) {
      auto p = (CmpInst::Predicate) ce->getPredicate ();
      return "((u1)(" + cval (ce->getOperand (0), init) + (p == CmpInst::ICMP_EQ ? "==" : "!=") + cval (ce->getOperand (1), init) + "))";
    }
  }
  unsupported ("constant " + str (C));
  return "0";
}
static string constexpr_ptr (const Constant *C) {
  if (auto *g = dyn_cast<GlobalVariable> (C)) return "((ptr)&" + gn (g) + ")";
  if (auto *f = dyn_cast<Function> (C)) return "((ptr)&" + gn (f) + ")";
  if (auto *a = dyn_cast<GlobalAlias> (C)) return constexpr_ptr (a->getAliasee ());
  if (isa<ConstantPointerNull> (C)) return "((ptr)0)";
  if (auto *ce = dyn_cast<ConstantExpr> (C)) {
    if (ce->getOpcode () == Instruction::GetElementPtr) {
      APInt off (64, 0);
      if (cast<GEPOperator> (ce)->accumulateConstantOffset (*DL, off))
        return "(" + constexpr_ptr (cast<Constant> (ce->getOperand (0))) + "+" + std::to_string (off.getSExtValue ()) + ")";
    }
    if (ce->getOpcode () == Instruction::IntToPtr) return "((ptr)" + cval (ce->getOperand (0), true) + ")";
    if (ce->isCast ()) return constexpr_ptr (ce->getOperand (0));
  }
  unsupported ("pointer constant " + str (C));
  return "((ptr)0)";
}
static std::map<const Value *, string> lname;
static string val (const Value *v) {
  if (auto *c = dyn_cast<Constant> (v)) return cval (c, false);
  auto it = lname.find (v);
  if (it != lname.end ()) return it->second;
  if (isa<MetadataAsValue> (v)) return "0";
  return lname[v] = "v" + std::to_string (lname.size ());
}
static string sval (const Value *v) { // signed view
  unsigned w = v->getType ()->getIntegerBitWidth ();
  if (w == 1) return "(-(s32)" + val (v) + ")";
  return "((" + sity (w) + ")" + val (v) + ")";
}
static string fsig (const Function *F, bool names) {
  string r = ctype (F->getReturnType ()) + " " + gn (F) + "(";
  bool first = true;
  for (auto &a : F->args ()) {
    r += (first ? "" : ", ") + ctype (a.getType ()) + (names ? " " + val (&a) : "");
    first = false;
  }
  if (first) r += "void";
  return r + ")";
}
static void phis (std::ostringstream &o, const BasicBlock *from, const BasicBlock *to) {
  std::vector<std::pair<string, string>> as;
  for (auto &I : *to) {
    auto *p = dyn_cast<PHINode> (&I);
    if (!p) break;
    const Value *in = p->getIncomingValueForBlock (from);
    if (isa<UndefValue> (in) && (in->getType ()->isAggregateType ())) continue;
    as.push_back ({ val (p), val (in) });
  }
  // parallel copy through temporaries when a phi reads another phi of the same block
  std::set<string> targets;
  for (auto &a : as) targets.insert (a.first);
  bool need = false;
  for (auto &a : as) if (targets.count (a.second) && a.second != a.first) need = true;
  if (!need) { for (auto &a : as) if (a.first != a.second) o << " " << a.first << "=" << a.second << ";"; }
  else {
    for (auto &a : as) o << " " << a.first << "_t=" << a.second << ";";
    for (auto &a : as) o << " " << a.first << "=" << a.first << "_t;";
  }
}
static std::map<const BasicBlock *, string> bname;
static string go (const BasicBlock *from, const BasicBlock *to) {
  std::ostringstream o;
  phis (o, from, to);
  o << " goto " << bname[to] << ";";
  return "{" + o.str () + " }";
}
static string memcpy_code (const string &d, const string &s, const Value *n, bool mv) {
  if (auto *c = dyn_cast<ConstantInt> (n)) {
    uint64_t k = c->getZExtValue ();
    if (k == 0) return ";";
    if (k <= 512) {
      static int u = 0; string id = std::to_string (u++);
      // a struct copy: sound for memmove as the value is read first
      string t = "struct MC" + std::to_string (k);
      static std::set<uint64_t> seen;
      if (seen.insert (k).second) tdefs.push_back (t + " { u8 e[" + std::to_string (k) + "]; };");
      return "{ " + t + " mc" + id + " = *(" + t + "*)" + s + "; *(" + t + "*)" + d + " = mc" + id + "; }";
    }
  }
  return string (mv ? "vp_memmove(" : "vp_memcpy(") + d + "," + s + "," + val (n) + ");";
}
static string loc (const Instruction &I) {
  if (auto &d = I.getDebugLoc ()) {
    string f = cast<DIScope> (d.getScope ())->getFilename ().str ();
    return f + ":" + std::to_string (d.getLine ());
  }
  return "?";
}
static string esc (string s) { string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') { r += "\\n"; continue; } r += c; } return r; }
static string cstr_arg (const Value *v) {
  const Value *b = v->stripPointerCasts ();
  if (auto *g = dyn_cast<GlobalVariable> (b))
    if (g->hasInitializer ())
      if (auto *d = dyn_cast<ConstantDataArray> (g->getInitializer ()))
        if (d->isString ()) { string s = d->getAsString ().str (); while (!s.empty () && s.back () == 0) s.pop_back (); return s; }
  return "?";
}
static bool is_log (StringRef n) {
  return n == "t8_debugf" || n == "t8_infof" || n == "t8_productionf" || n == "t8_errorf" || n == "t8_global_errorf" || n == "t8_global_essentialf"
      || n == "t8_global_productionf" || n == "t8_global_infof" || n == "t8_logf" || n == "sc_logf" || n == "sc_log" || n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n=="fflush"
      || n == "t8_log_indent_push" || n == "t8_log_indent_pop" || n == "sc_log_indent_push" || n == "sc_log_indent_pop" || n == "sc_log_indent_push_count" || n == "sc_log_indent_pop_count";
}
static string call (const CallBase &CB) {
  const Function *F = dyn_cast<Function> (CB.getCalledOperand ()->stripPointerCasts ());
  string res = CB.getType ()->isVoidTy () ? "" : val (&CB) + " = ";
  auto A = [&] (unsigned i) { return val (CB.getArgOperand (i)); };
  auto S = [&] (unsigned i) { return sval (CB.getArgOperand (i)); };
  if (CB.isInlineAsm ()) return "; /* asm */";
  if (F && F->isIntrinsic ()) {
    Type *T = CB.getType ();
    switch (F->getIntrinsicID ()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::vastart: case Intrinsic::vaend:
      return "";
    case Intrinsic::stacksave: return res + "(ptr)0;";
    case Intrinsic::expect: case Intrinsic::ptr_annotation: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return res + A (0) + ";";
    case Intrinsic::objectsize: return res + "(" + ctype (T) + ")-1;";
    case Intrinsic::is_constant: return res + "0;";
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return memcpy_code (A (0), A (1), CB.getArgOperand (2), false);
    case Intrinsic::memmove: return memcpy_code (A (0), A (1), CB.getArgOperand (2), true);
    case Intrinsic::memset:
      if (auto *c = dyn_cast<ConstantInt> (CB.getArgOperand (2))) {
        uint64_t k = c->getZExtValue ();
        if (k <= 512) {
          string r = "{ ptr msd = " + A (0) + "; u8 msv = " + A (1) + ";";
          // written as bytes; CBMC folds
          uint64_t i = 0;
          if (auto *cv = dyn_cast<ConstantInt> (CB.getArgOperand (1)); cv && cv->isZero ())
            for (; i + 4 <= k; i += 4) r += " *(u32*)(msd+" + std::to_string (i) + ")=0;";
          for (; i < k; i++) r += " *(u8*)(msd+" + std::to_string (i) + ")=msv;";
          return r + " }";
        }
      }
      return "vp_memset(" + A (0) + "," + A (1) + "," + A (2) + ");";
    case Intrinsic::umax: return res + "(" + A (0) + ">" + A (1) + "?" + A (0) + ":" + A (1) + ");";
    case Intrinsic::umin: return res + "(" + A (0) + "<" + A (1) + "?" + A (0) + ":" + A (1) + ");";
    case Intrinsic::smax: return res + "(" + S (0) + ">" + S (1) + "?" + A (0) + ":" + A (1) + ");";
    case Intrinsic::smin: return res + "(" + S (0) + "<" + S (1) + "?" + A (0) + ":" + A (1) + ");";
    case Intrinsic::abs: return res + "(" + S (0) + "<0?(" + ctype (T) + ")(0-" + A (0) + "):" + A (0) + ");";
    case Intrinsic::ctpop: return res + "(" + ctype (T) + ")vp_popcount((u64)" + A (0) + ");";
    case Intrinsic::ctlz: return res + "(" + ctype (T) + ")vp_clz((u64)" + A (0) + "," + std::to_string (T->getIntegerBitWidth ()) + ");";
    case Intrinsic::cttz: return res + "(" + ctype (T) + ")vp_ctz((u64)" + A (0) + "," + std::to_string (T->getIntegerBitWidth ()) + ");";
    case Intrinsic::bswap: return res + "__builtin_bswap" + std::to_string (T->getIntegerBitWidth ()) + "(" + A (0) + ");";
    case Intrinsic::bitreverse: return res + "(" + ctype (T) + ")vp_bitrev((u64)" + A (0) + "," + std::to_string (T->getIntegerBitWidth ()) + ");";
    case Intrinsic::usub_sat: return res + "(" + A (0) + ">" + A (1) + "?(" + ctype (T) + ")(" + A (0) + "-" + A (1) + "):0);";
    case Intrinsic::uadd_sat: return res + "((" + ctype (T) + ")(" + A (0) + "+" + A (1) + ")<" + A (0) + "?(" + ctype (T) + ")-1:(" + ctype (T) + ")(" + A (0) + "+" + A (1) + "));";
    case Intrinsic::fshl: case Intrinsic::fshr: {
      unsigned w = T->getIntegerBitWidth ();
      string W = std::to_string (w), s = "((" + A (2) + ")%" + W + ")";
      if (F->getIntrinsicID () == Intrinsic::fshl)
        return res + "(" + s + "==0?" + A (0) + ":(" + ctype (T) + ")((" + A (0) + "<<" + s + ")|(" + A (1) + ">>(" + W + "-" + s + "))));";
      return res + "(" + s + "==0?" + A (1) + ":(" + ctype (T) + ")((" + A (0) + "<<(" + W + "-" + s + "))|(" + A (1) + ">>" + s + ")));";
    }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
      Type *I = CB.getArgOperand (0)->getType ();
      unsigned w = I->getIntegerBitWidth ();
      auto id = F->getIntrinsicID ();
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      string op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? "+" : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? "-" : "*";
      string wide = (sg ? "signed" : "unsigned") + string (" __CPROVER_bitvector[") + std::to_string (2 * w + 2) + "]";
      string a = sg ? S (0) : A (0), b = sg ? S (1) : A (1);
      string e = "((" + wide + ")" + a + op + "(" + wide + ")" + b + ")";
      string nar = sg ? "(" + sity (w) + ")" : "(" + ity (w) + ")";
      return val (&CB) + ".f0 = (" + ity (w) + ")(" + A (0) + op + A (1) + "); " + val (&CB) + ".f1 = (" + e + ") != ((" + wide + ")" + nar + "(" + ity (w) + ")(" + A (0) + op + A (1) + "));";
    }
    case Intrinsic::fabs: return res + (T->isFloatTy () ? "__builtin_fabsf(" : "__builtin_fabs(") + A (0) + ");";
    case Intrinsic::fmuladd: return res + A (0) + "*" + A (1) + "+" + A (2) + ";";
    case Intrinsic::sqrt: return res + "sqrt(" + A (0) + ");";
    case Intrinsic::floor: return res + "vp_floor(" + A (0) + ");";
    case Intrinsic::ceil: return res + "vp_ceil(" + A (0) + ");";
    case Intrinsic::trunc: return res + "vp_truncd(" + A (0) + ");";
    case Intrinsic::rint: case Intrinsic::nearbyint: return res + "vp_rint(" + A (0) + ");";
    case Intrinsic::copysign: return res + "__builtin_copysign(" + A (0) + "," + A (1) + ");";
    case Intrinsic::maxnum: return res + "(" + A (0) + ">" + A (1) + "?" + A (0) + ":" + A (1) + ");";
    case Intrinsic::minnum: return res + "(" + A (0) + "<" + A (1) + "?" + A (0) + ":" + A (1) + ");";
    case Intrinsic::is_fpclass: {
      auto m = cast<ConstantInt> (CB.getArgOperand (1))->getZExtValue ();
      if (m == 3) return res + "(" + A (0) + "!=" + A (0) + ");";
      if (m == 516) return res + "(__builtin_fabs(" + A (0) + ")==1.0/0.0);";
      if (m == 504) return res + "(__builtin_fabs(" + A (0) + ")<1.0/0.0);";
      unsupported ("is.fpclass"); return "";
    }
    case Intrinsic::ubsantrap: return "__CPROVER_assert(0,\"VP_UB trap at " + esc (loc (CB)) + "\"); __CPROVER_assume(0);";
    case Intrinsic::trap: return "__CPROVER_assert(0,\"VP_TRAP at " + esc (loc (CB)) + "\"); __CPROVER_assume(0);";
    case Intrinsic::eh_typeid_for: return res + "0;";
    case Intrinsic::load_relative: {
      return res + A (0) + "+(s64)*(s32*)(" + A (0) + "+" + A (1) + ");"; 
    }
    default: unsupported ("intrinsic " + F->getName ().str ()); return "";
    }
  }
  if (F && F->isDeclaration ()) {
    StringRef n = F->getName ();
    if (n == "vp_assume") return "__CPROVER_assume(" + A (0) + ");";
    if (n == "vp_assert") return "__CPROVER_assert(" + A (0) + ",\"VP " + esc (cstr_arg (CB.getArgOperand (1))) + "\");";
    if (n == "vp_witness") return "__CPROVER_assert(0,\"VPWITNESS " + esc (cstr_arg (CB.getArgOperand (0))) + "\");";
    if (n == "vp_u64") return "VP_REC = nd_u64(); " + res + "VP_REC;";
    if (n == "vp_double") return "VP_RECD = nd_double(); " + res + "VP_RECD;";
    if (n == "vp_case") return res + "(" + ctype (CB.getType ()) + ")VP_CASE" + std::to_string (cast<ConstantInt> (CB.getArgOperand (0))->getZExtValue ()) + ";";
    if (n == "vp_same_object") return res + "__CPROVER_same_object(" + A (0) + "," + A (1) + ");";
    if (is_log (n)) return CB.getType ()->isVoidTy () ? "" : res + nondet (CB.getType ()) + ";";
    if (n == "sc_abort" || n == "sc_abort_verbose" || n == "sc_abort_verbosef" || n == "sc_abort_collective" || n == "abort" || n == "__cxa_pure_virtual" || n == "_ZSt9terminatev" || n.starts_with ("_ZSt") && n.contains ("__throw") || n == "__assert_fail" || n == "exit" || n == "__cxa_throw" || n=="__cxa_rethrow")
      return "__CPROVER_assert(0,\"VP_ABORT " + esc (n.str ()) + " called at " + esc (loc (CB)) + "\"); __CPROVER_assume(0);";
    if (n == "malloc" || n == "_Znwm" || n == "_Znam") return res + "vp_malloc(" + A (0) + ");";
    if (n == "calloc") return res + "vp_calloc(" + A (0) + "," + A (1) + ");";
    if (n == "free" || n == "_ZdlPv" || n == "_ZdaPv") return "free(" + A (0) + ");";
    if (n == "_ZdlPvm" || n == "_ZdaPvm") return "free(" + A (0) + ");";
    if (n == "memcpy") return memcpy_code (A (0), A (1), CB.getArgOperand (2), false) + res.substr (0, 0);
    if (n == "memcmp" || n == "bcmp") return res + "vp_memcmp(" + A (0) + "," + A (1) + "," + A (2) + ");";
    if (n == "strlen") return res + "vp_strlen(" + A (0) + ");";
    if (n == "strcmp") return res + "vp_strcmp(" + A (0) + "," + A (1) + ");";
    if (n == "abs" || n == "labs" || n == "llabs") return res + "(" + S (0) + "<0?0-" + A (0) + ":" + A (0) + ");";
    if (n == "fabs") return res + "__builtin_fabs(" + A (0) + ");";
    if (n == "sqrt") return res + "sqrt(" + A (0) + ");";
    if (n == "floor") return res + "vp_floor(" + A (0) + ");";
    if (n == "ceil") return res + "vp_ceil(" + A (0) + ");";
    if (n == "ldexp") return res + "ldexp(" + A (0) + ",(s32)" + A (1) + ");";
    if (n == "atexit" || n == "__cxa_atexit") return res + "0;";
    if (n == "__cxa_guard_acquire") return res + "(*(u8*)" + A (0) + "==0);";
    if (n == "__cxa_guard_release") return "*(u8*)" + A (0) + "=1;";
    if (n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev") return "";
    unresolved.insert (n.str ());
    return "__CPROVER_assert(0,\"VP_UNRESOLVED " + esc (n.str ()) + "\"); __CPROVER_assume(0);";
  }
  string r;
  if (F) {
    if (F->getFunctionType () == CB.getFunctionType ()) r = gn (F) + "(";
  }
  if (r.empty ()) {
    r = "((" + ctype (CB.getType ()) + "(*)(";
    for (unsigned i = 0; i < CB.arg_size (); i++) r += (i ? "," : "") + ctype (CB.getArgOperand (i)->getType ());
    if (CB.arg_size () == 0) r += "void";
    r += "))" + val (CB.getCalledOperand ()) + ")(";
  }
  unsigned nfix = CB.getFunctionType ()->getNumParams ();
  for (unsigned i = 0; i < (F ? nfix : CB.arg_size ()); i++) r += (i ? "," : "") + A (i);
  return res + r + ");";
}
// If p addresses (with at least one symbolic index) a flat array object (global or alloca) whose scalar type is T,
// return an lvalue "obj.e[idx]"; otherwise "".
static string array_lvalue (const Value *p, Type *T) {
  std::vector<std::pair<const Value *, int64_t>> terms; int64_t c = 0;
  const Value *b = p;
  while (auto *G = dyn_cast<GEPOperator> (b)) {
    for (auto it = gep_type_begin (G), e = gep_type_end (G); it != e; ++it) {
      const Value *ix = it.getOperand ();
      if (StructType *S2 = it.getStructTypeOrNull ()) { c += DL->getStructLayout (S2)->getElementOffset (cast<ConstantInt> (ix)->getZExtValue ()); continue; }
      int64_t sz = DL->getTypeAllocSize (it.getIndexedType ());
      if (auto *ci = dyn_cast<ConstantInt> (ix)) c += ci->getSExtValue () * sz;
      else terms.push_back ({ ix, sz });
    }
    b = G->getPointerOperand ();
  }
  Type *OT; string obj;
  if (auto *g = dyn_cast<GlobalVariable> (b)) { OT = g->getValueType (); obj = gn (g); }
  else if (auto *a = dyn_cast<AllocaInst> (b)) {
    auto *n = dyn_cast<ConstantInt> (a->getArraySize ());
    if (!n || !n->isOne ()) return "";
    OT = a->getAllocatedType (); obj = val (a) + "_m";
  }
  else return "";
  if (!OT->isArrayTy ()) return "";
  auto fl = flat (OT);
  if (fl.first != T || T->isIntegerTy (1)) return "";
  int64_t sz = DL->getTypeAllocSize (T);
  if (c % sz) return "";
  string idx = std::to_string (c / sz) + "L";
  for (auto &t : terms) {
    if (t.second % sz) return "";
    int64_t k = t.second / sz;
    idx += "+(s64)" + sval (t.first) + (k == 1 ? string () : "*" + std::to_string (k) + "L");
  }
  return obj + ".e[" + idx + "]";
}
static string instr (const Instruction &I) {
  auto A = [&] (unsigned i) { return val (I.getOperand (i)); };
  auto S = [&] (unsigned i) { return sval (I.getOperand (i)); };
  Type *T = I.getType ();
  string res = T->isVoidTy () ? "" : val (&I) + " = ";
  string ct = T->isVoidTy () ? "" : ctype (T);
  auto vec = [&] (std::function<string (string)> f) {
    string r;
    for (unsigned i = 0; i < cast<FixedVectorType> (T)->getNumElements (); i++) r += val (&I) + ".e[" + std::to_string (i) + "] = " + f (".e[" + std::to_string (i) + "]") + "; ";
    return r;
  };
  if (auto *B = dyn_cast<BinaryOperator> (&I)) {
    const char *op = nullptr;
    Type *ET = T->getScalarType ();
    switch (B->getOpcode ()) {
    case Instruction::Add: case Instruction::FAdd: op = "+"; break;
    case Instruction::Sub: case Instruction::FSub: op = "-"; break;
    case Instruction::Mul: case Instruction::FMul: op = "*"; break;
    case Instruction::FDiv: op = "/"; break;
    case Instruction::And: op = "&"; break;
    case Instruction::Or: op = "|"; break;
    case Instruction::Xor: op = "^"; break;
    default: break;
    }
    if (T->isVectorTy ()) {
      if (!op) { 
        unsigned w = ET->isIntegerTy () ? ET->getIntegerBitWidth () : 0;
        if (B->getOpcode () == Instruction::Shl) return vec ([&] (string e) { return "(" + ctype (ET) + ")(" + A (0) + e + "<<" + A (1) + e + ")"; });
        if (B->getOpcode () == Instruction::LShr) return vec ([&] (string e) { return "(" + ctype (ET) + ")(" + A (0) + e + ">>" + A (1) + e + ")"; });
        if (B->getOpcode () == Instruction::AShr) return vec ([&] (string e) { return "(" + ctype (ET) + ")(((" + sity (w) + ")" + A (0) + e + ")>>" + A (1) + e + ")"; });
        unsupported ("vector op " + str (&I)); return "";
      }
      return vec ([&] (string e) { return "(" + ctype (ET) + ")(" + A (0) + e + op + A (1) + e + ")"; });
    }
    if (op) {
      if (T->isIntegerTy (1) && (string (op) == "+" || string (op) == "-")) op = "^";
      return res + "(" + ct + ")(" + A (0) + op + A (1) + ");";
    }
    unsigned w = T->isIntegerTy () ? T->getIntegerBitWidth () : 0;
    string W = std::to_string (w);
    auto guard = [&] (string e) {
      if (auto *c = dyn_cast<ConstantInt> (I.getOperand (1))) { if (c->getValue ().ult (w)) return e; }
      return "(" + A (1) + "<" + W + "?" + e + ":" + nondet (T) + ")";
    };
    switch (B->getOpcode ()) {
    case Instruction::UDiv: return res + "(" + ct + ")(" + A (0) + "/" + A (1) + ");";
    case Instruction::URem: return res + "(" + ct + ")(" + A (0) + "%" + A (1) + ");";
    case Instruction::SDiv: return res + "(" + ct + ")(" + S (0) + "/" + S (1) + ");";
    case Instruction::SRem: return res + "(" + ct + ")(" + S (0) + "%" + S (1) + ");";
    case Instruction::Shl: return res + guard ("(" + ct + ")(" + A (0) + "<<" + A (1) + ")") + ";";
    case Instruction::LShr: return res + guard ("(" + ct + ")(" + A (0) + ">>" + A (1) + ")") + ";";
    case Instruction::AShr: return res + guard ("(" + ct + ")(" + S (0) + ">>" + A (1) + ")") + ";";
    case Instruction::FRem: return res + "fmod(" + A (0) + "," + A (1) + ");";
    default: unsupported (str (&I)); return "";
    }
  }
  if (auto *U = dyn_cast<UnaryOperator> (&I)) { 
    if (T->isVectorTy ()) return vec ([&] (string e) { return "-" + A (0) + e; });
    return res + "-" + val (U->getOperand (0)) + ";"; }
  if (auto *C = dyn_cast<CmpInst> (&I)) {
    string op; bool sg = false, neg = false;
    switch (C->getPredicate ()) {
    case CmpInst::ICMP_EQ: case CmpInst::FCMP_OEQ: op = "=="; break;
    case CmpInst::ICMP_NE: case CmpInst::FCMP_UNE: op = "!="; break;
    case CmpInst::ICMP_UGT: op = ">"; break; case CmpInst::ICMP_UGE: op = ">="; break;
    case CmpInst::ICMP_ULT: op = "<"; break; case CmpInst::ICMP_ULE: op = "<="; break;
    case CmpInst::ICMP_SGT: op = ">"; sg = true; break; case CmpInst::ICMP_SGE: op = ">="; sg = true; break;
    case CmpInst::ICMP_SLT: op = "<"; sg = true; break; case CmpInst::ICMP_SLE: op = "<="; sg = true; break;
    case CmpInst::FCMP_OGT: op = ">"; break; case CmpInst::FCMP_OGE: op = ">="; break;
    case CmpInst::FCMP_OLT: op = "<"; break; case CmpInst::FCMP_OLE: op = "<="; break;
    case CmpInst::FCMP_UGT: op = "<="; neg = true; break; case CmpInst::FCMP_UGE: op = "<"; neg = true; break;
    case CmpInst::FCMP_ULT: op = ">="; neg = true; break; case CmpInst::FCMP_ULE: op = ">"; neg = true; break;
    case CmpInst::FCMP_ONE: return res + "(" + A (0) + "<" + A (1) + "||" + A (0) + ">" + A (1) + ");";
    case CmpInst::FCMP_UEQ: return res + "!(" + A (0) + "<" + A (1) + "||" + A (0) + ">" + A (1) + ");";
    case CmpInst::FCMP_ORD: return res + "(" + A (0) + "==" + A (0) + "&&" + A (1) + "==" + A (1) + ");";
    case CmpInst::FCMP_UNO: return res + "(" + A (0) + "!=" + A (0) + "||" + A (1) + "!=" + A (1) + ");";
    default: unsupported (str (&I));
    }
    if (T->isVectorTy ()) {
      Type *ET = I.getOperand (0)->getType ()->getScalarType ();
      return vec ([&] (string e) { return string (neg ? "!" : "") + "(" + (sg ? "(" + sity (ET->getIntegerBitWidth ()) + ")" : "") + A (0) + e + op + (sg ? "(" + sity (ET->getIntegerBitWidth ()) + ")" : "") + A (1) + e + ")"; });
    }
    return res + (neg ? "!" : "") + "(" + (sg ? S (0) : A (0)) + op + (sg ? S (1) : A (1)) + ");";
  }
  if (auto *C = dyn_cast<CastInst> (&I)) {
    Type *F = C->getSrcTy ();
    if (T->isVectorTy () || F->isVectorTy ()) {
      if (C->getOpcode () == Instruction::BitCast)
        return "{ union { " + ctype (F) + " a; " + ct + " b; } u; u.a=" + A (0) + "; " + res + "u.b; }";
      Type *FE = F->getScalarType (), *TE = T->getScalarType ();
      bool sg = C->getOpcode () == Instruction::SExt || C->getOpcode () == Instruction::SIToFP;
      return vec ([&] (string e) {
        string x = A (0) + e;
        if (sg) x = FE->isIntegerTy (1) ? "(-(s32)" + x + ")" : "(" + sity (FE->getIntegerBitWidth ()) + ")" + x;
        if (C->getOpcode () == Instruction::FPToSI) x = "(" + sity (TE->getIntegerBitWidth ()) + ")" + x;
        if (TE->isIntegerTy (1)) x = "(" + x + "&1)";
        return "(" + ctype (TE) + ")" + x; });
    }
    switch (C->getOpcode ()) {
    case Instruction::Trunc: return T->isIntegerTy (1) ? res + "(" + A (0) + "&1)!=0;" : res + "(" + ct + ")" + A (0) + ";";
    case Instruction::ZExt: return res + "(" + ct + ")" + A (0) + ";";
    case Instruction::SExt: return res + "(" + ct + ")(" + sity (T->getIntegerBitWidth ()) + ")" + S (0) + ";";
    case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::UIToFP: case Instruction::FPToUI: return res + "(" + ct + ")" + A (0) + ";";
    case Instruction::SIToFP: return res + "(" + ct + ")" + S (0) + ";";
    case Instruction::FPToSI: return res + "(" + ct + ")(" + sity (T->getIntegerBitWidth ()) + ")" + A (0) + ";";
    case Instruction::PtrToInt: return res + "(" + ct + ")(u64)" + A (0) + ";";
    case Instruction::IntToPtr: return res + "(ptr)(u64)" + A (0) + ";";
    case Instruction::BitCast:
      if (T == F) return res + A (0) + ";";
      return "{ union { " + ctype (F) + " a; " + ct + " b; } u; u.a=" + A (0) + "; " + res + "u.b; }";
    default: unsupported (str (&I)); return "";
    }
  }
  if (auto *L = dyn_cast<LoadInst> (&I)) {
    if (T->isIntegerTy (1)) return res + "(*(u8*)" + A (0) + "&1)!=0;";
    if (T->isIntegerTy () && T->getIntegerBitWidth () % 8 == 0 && T->getIntegerBitWidth () > 8 && ity (T->getIntegerBitWidth ()).size () > 5) {
      unsigned nb = T->getIntegerBitWidth () / 8; string r = res;
      for (unsigned i = 0; i < nb; i++) r += (i ? "|" : "") + string ("((") + ct + ")*(u8*)(" + A (0) + "+" + std::to_string (i) + ")<<" + std::to_string (8 * i) + ")";
      return r + ";";
    }
    { string lv = array_lvalue (L->getPointerOperand (), T); if (!lv.empty ()) return res + lv + ";"; }
    return res + "*(" + ct + "*)" + A (0) + ";";
  }
  if (auto *St = dyn_cast<StoreInst> (&I)) {
    Type *V = St->getValueOperand ()->getType ();
    if (isa<UndefValue> (St->getValueOperand ())) return "";
    if (V->isIntegerTy (1)) return "*(u8*)" + A (1) + " = (u8)" + A (0) + ";";
    if (V->isIntegerTy () && V->getIntegerBitWidth () % 8 == 0 && ity (V->getIntegerBitWidth ()).size () > 5) {
      unsigned nb = V->getIntegerBitWidth () / 8; string r;
      for (unsigned i = 0; i < nb; i++) r += "*(u8*)(" + A (1) + "+" + std::to_string (i) + ")=(u8)(" + A (0) + ">>" + std::to_string (8 * i) + ");";
      return r;
    }
    { string lv = array_lvalue (St->getPointerOperand (), V); if (!lv.empty ()) return lv + " = " + A (0) + ";"; }
    return "*(" + ctype (V) + "*)" + A (1) + " = " + A (0) + ";";
  }
  if (auto *G = dyn_cast<GetElementPtrInst> (&I)) {
    int64_t c = 0; string r = val (G->getPointerOperand ());
    for (auto it = gep_type_begin (G), e = gep_type_end (G); it != e; ++it) {
      const Value *ix = it.getOperand ();
      if (StructType *S2 = it.getStructTypeOrNull ()) { c += DL->getStructLayout (S2)->getElementOffset (cast<ConstantInt> (ix)->getZExtValue ()); continue; }
      uint64_t sz = DL->getTypeAllocSize (it.getIndexedType ());
      if (auto *ci = dyn_cast<ConstantInt> (ix)) { c += ci->getSExtValue () * (int64_t) sz; continue; }
      if (sz == 0) continue;
      string s = "(s64)" + sval (ix);
      r += sz == 1 ? "+" + s : "+" + s + "*" + std::to_string (sz) + "LL";
    }
    if (c) r += (c > 0 ? "+" : "-") + std::to_string (c > 0 ? c : -c);
    return res + "(ptr)(" + r + ");";
  }
  if (isa<SelectInst> (&I)) {
    if (I.getOperand (0)->getType ()->isVectorTy ()) return vec ([&] (string e) { return A (0) + e + "?" + A (1) + e + ":" + A (2) + e; });
    return res + A (0) + " ? " + A (1) + " : " + A (2) + ";";
  }
  if (isa<FreezeInst> (&I)) return res + A (0) + ";";
  if (auto *E = dyn_cast<ExtractValueInst> (&I)) {
    string r = A (0); Type *cur = I.getOperand (0)->getType ();
    for (unsigned ix : E->indices ()) {
      if (cur->isStructTy ()) { r += ".f" + std::to_string (ix); cur = cast<StructType> (cur)->getElementType (ix); }
      else { auto *AT = cast<ArrayType> (cur); if (AT->getElementType ()->isArrayTy ()) { unsupported ("nested array extractvalue"); } r += ".e[" + std::to_string (ix) + "]"; cur = AT->getElementType (); }
    }
    return res + r + ";";
  }
  if (auto *E = dyn_cast<InsertValueInst> (&I)) {
    string r = val (&I); Type *cur = T;
    for (unsigned ix : E->indices ()) {
      if (cur->isStructTy ()) { r += ".f" + std::to_string (ix); cur = cast<StructType> (cur)->getElementType (ix); }
      else { auto *AT = cast<ArrayType> (cur); if (AT->getElementType ()->isArrayTy ()) { unsupported ("nested array insertvalue"); } r += ".e[" + std::to_string (ix) + "]"; cur = AT->getElementType (); }
    }
    string pre = isa<UndefValue> (I.getOperand (0)) ? "" : res + A (0) + "; ";
    return pre + r + " = " + A (1) + ";";
  }
  if (isa<ExtractElementInst> (&I)) return res + A (0) + ".e[" + A (1) + "];";
  if (isa<InsertElementInst> (&I)) return (isa<UndefValue> (I.getOperand (0)) ? string () : res + A (0) + "; ") + val (&I) + ".e[" + A (2) + "] = " + A (1) + ";";
  if (auto *SV = dyn_cast<ShuffleVectorInst> (&I)) {
    string r; unsigned n0 = cast<FixedVectorType> (SV->getOperand (0)->getType ())->getNumElements (); auto m = SV->getShuffleMask ();
    for (unsigned i = 0; i < m.size (); i++) {
      if (m[i] < 0) continue;
      r += val (&I) + ".e[" + std::to_string (i) + "] = " + ((unsigned) m[i] < n0 ? A (0) + ".e[" + std::to_string (m[i]) + "]" : A (1) + ".e[" + std::to_string (m[i] - n0) + "]") + "; ";
    }
    return r;
  }
  if (auto *CB = dyn_cast<CallBase> (&I)) {
    string r = call (*CB);
    if (auto *inv = dyn_cast<InvokeInst> (&I)) r += " " + go (I.getParent (), inv->getNormalDest ());
    return r;
  }
  if (auto *R = dyn_cast<ReturnInst> (&I)) return R->getReturnValue () ? "return " + A (0) + ";" : "return;";
  if (auto *Br = dyn_cast<BranchInst> (&I)) {
    if (Br->isUnconditional ()) return go (I.getParent (), Br->getSuccessor (0));
    return "if (" + val (Br->getCondition ()) + ") " + go (I.getParent (), Br->getSuccessor (0)) + " else " + go (I.getParent (), Br->getSuccessor (1));
  }
  if (auto *Sw = dyn_cast<SwitchInst> (&I)) {
    string r;
    for (auto &c : Sw->cases ()) r += "if (" + val (Sw->getCondition ()) + "==" + val (c.getCaseValue ()) + ") " + go (I.getParent (), c.getCaseSuccessor ()) + "\n  else ";
    return r + go (I.getParent (), Sw->getDefaultDest ());
  }
  if (isa<UnreachableInst> (&I)) return "__CPROVER_assert(0,\"VP_UNREACHABLE\"); __CPROVER_assume(0);";
  if (auto *Rw = dyn_cast<AtomicRMWInst> (&I)) {
    string p = "*(" + ct + "*)" + A (0);
    string op = Rw->getOperation () == AtomicRMWInst::Add ? "+" : Rw->getOperation () == AtomicRMWInst::Sub ? "-" : "";
    if (op.empty ()) unsupported (str (&I));
    return res + p + "; " + p + " = (" + ct + ")(" + val (&I) + op + A (1) + ");";
  }
  if (isa<FenceInst> (&I)) return "";
  if (isa<LandingPadInst> (&I) || isa<ResumeInst> (&I)) return "__CPROVER_assume(0);";
  unsupported ("instruction " + str (&I));
  return "";
}
/* Block order: reverse post-order with every loop contiguous, so that leaving a loop is a forward jump (CBMC counts
 * unwindings per backward jump and merges states at forward targets). */
static std::vector<const BasicBlock *> block_order (const Function &CF) {
  Function &F = const_cast<Function &> (CF);
  DominatorTree DT (F);
  LoopInfo LI (DT);
  std::vector<const BasicBlock *> out;
  std::set<const BasicBlock *> emitted;
  std::function<void (Loop *, BasicBlock *)> region = [&] (Loop *R, BasicBlock *entry) {
    auto rep = [&] (BasicBlock *B) -> void * {
      Loop *L = LI.getLoopFor (B);
      if (L == R) return B;
      while (L && L->getParentLoop () != R) L = L->getParentLoop ();
      return L ? (void *) L : (void *) B;
    };
    std::map<void *, std::pair<Loop *, BasicBlock *>> node;
    std::set<void *> seen;
    std::vector<void *> post;
    std::function<void (BasicBlock *)> dfs = [&] (BasicBlock *B) {
      void *r = rep (B);
      if (!seen.insert (r).second) return;
      std::vector<BasicBlock *> succ;
      if (r == (void *) B) {
        node[r] = { nullptr, B };
        for (auto *S : successors (B)) succ.push_back (S);
      }
      else {
        Loop *L = (Loop *) r;
        node[r] = { L, L->getHeader () };
        SmallVector<BasicBlock *, 8> ex;
        L->getExitBlocks (ex);
        for (auto *S : ex) succ.push_back (S);
      }
      for (auto *S : succ) {
        if (R && (!R->contains (S) || S == R->getHeader ())) continue;
        dfs (S);
      }
      post.push_back (r);
    };
    dfs (entry);
    for (size_t i = post.size (); i-- > 0;) {
      auto &nd = node[post[i]];
      if (nd.first) region (nd.first, nd.second);
      else if (emitted.insert (nd.second).second) out.push_back (nd.second);
    }
  };
  region (nullptr, &F.getEntryBlock ());
  for (auto &B : F) if (!emitted.count (&B)) out.push_back (&B);
  return out;
}
static void function (const Function &F) {
  curfn = F.getName ().str ();
  lname.clear (); bname.clear ();
  std::ostringstream body, decl;
  string sig = fsig (&F, true);
  int n = 0;
  const auto order = block_order (F);
  for (auto *B : order) bname[B] = "L" + std::to_string (n++);
  for (auto *BP : order) {
    auto &B = *BP;
    body << bname[&B] << ": ;\n";
    for (auto &I : B) {
      if (isa<PHINode> (I)) { continue; }
      if (auto *Al = dyn_cast<AllocaInst> (&I)) {
        string nm = val (&I);
        if (auto *c = dyn_cast<ConstantInt> (Al->getArraySize ())) {
          if (c->isOne ()) {
            decl << "  " << ctype (Al->getAllocatedType ()) << " " << nm << "_m; ptr " << nm << ";\n";
            body << "  " << nm << " = (ptr)&" << nm << "_m;\n";
          }
          else {
            decl << "  " << ctype (Al->getAllocatedType ()) << " " << nm << "_m[" << c->getZExtValue () << "]; ptr " << nm << ";\n";
            body << "  " << nm << " = (ptr)&" << nm << "_m[0];\n";
          }
        }
        else {
          decl << "  ptr " << nm << ";\n";
          body << "  " << nm << " = vp_malloc((u64)" << val (Al->getArraySize ()) << "*" << DL->getTypeAllocSize (Al->getAllocatedType ()) << "ULL);\n";
        }
        continue;
      }
      string s = instr (I);
      if (!s.empty ()) body << "  " << s << "\n";
    }
  }
  for (auto &B : F)
    for (auto &I : B) {
      if (I.getType ()->isVoidTy () || isa<AllocaInst> (I) || I.getType ()->isTokenTy () || isa<LandingPadInst> (I)) continue;
      if (!lname.count (&I)) continue;
      decl << "  " << ctype (I.getType ()) << " " << val (&I) << ";";
      if (isa<PHINode> (I)) decl << " " << ctype (I.getType ()) << " " << val (&I) << "_t;";
      decl << "\n";
    }
  *OS << "/* " << curfn << " */\n" << sig << "\n{\n" << decl.str () << body.str () << "}\n\n";
}
int main (int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto m = parseIRFile (argv[1], err, ctx);
  if (!m) { err.print ("ir2c", errs ()); return 2; }
  M = m.get (); DL = &M->getDataLayout ();
  std::error_code ec; 
  string fbody; raw_string_ostream fo (fbody); OS = &fo;
  string globals, protos; 
  for (auto &F : *M) if (!F.isDeclaration ()) function (F);
  curfn = "<globals>";
  for (auto &F : *M) {
    if (F.isDeclaration ()) {
      bool used = false; for (auto *u : F.users ()) if (!isa<CallBase> (u) || cast<CallBase> (u)->getCalledOperand () != &F) used = true;
      if (!used || F.isIntrinsic ()) continue;
      lname.clear ();
      protos += fsig (&F, true) + " { __CPROVER_assert(0,\"VP_UNRESOLVED " + F.getName ().str () + "\"); __CPROVER_assume(0); }\n"; 
    } else protos += fsig (&F, false) + ";\n";
  }
  string gdecl, gdef; string ctors;
  for (auto &G : M->globals ()) {
    if (G.getName () == "llvm.global_ctors") {
      if (auto *ca = dyn_cast<ConstantArray> (G.getInitializer ()))
        for (auto &op : ca->operands ()) if (auto *f = dyn_cast<Function> (cast<ConstantStruct> (op)->getOperand (1))) ctors += "  " + gn (f) + "();\n";
      continue;
    }
    if (G.getName ().starts_with ("llvm.")) continue;
    Type *T = G.getValueType ();
    if (G.isDeclaration ()) errs () << "ir2c: external global " << G.getName () << "\n";
    if (!T->isSized ()) { gdecl += "char " + gn (&G) + "[1];\n"; continue; }
    string t = ctype (T);
    gdecl += string ("static ") + (G.isConstant () ? "const " : "") + t + " " + gn (&G) + ";\n";
    if (G.hasInitializer () && !isa<UndefValue> (G.getInitializer ()) && !isa<ConstantAggregateZero> (G.getInitializer ()))
      gdef += string ("static ") + (G.isConstant () ? "const " : "") + t + " " + gn (&G) + " = " + cval (G.getInitializer (), true) + ";\n";
  }
  outs () << "#include \"vp_rt.h\"\n";
  for (auto &d : tdefs) outs () << d << "\n";
  outs () << gdecl << protos << gdef << "\n" << fo.str ();
  outs () << "void vp_ctors(void) {\n" << ctors << "}\n";
  outs () << "int main(void) { vp_ctors(); F_vp_harness(); return 0; }\n";
  for (auto &u : unresolved) errs () << "ir2c: unresolved external " << u << "\n";
  { // functions on a call-graph cycle: the driver bounds their recursion separately
    std::map<Function *, std::set<Function *>> cg;
    for (auto &F : *M) for (auto &B : F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase> (&I)) if (auto *g = cb->getCalledFunction ()) if (!g->isDeclaration ()) cg[&F].insert (g);
    for (auto &F : *M) {
      if (F.isDeclaration ()) continue;
      std::set<Function *> seen; std::vector<Function *> st (cg[&F].begin (), cg[&F].end ());
      while (!st.empty ()) { Function *g = st.back (); st.pop_back (); if (seen.insert (g).second) for (auto *h : cg[g]) st.push_back (h); }
      if (seen.count (&F)) errs () << "ir2c: recursive " << gn (&F) << "\n";
    }
  }
  return failed ? 3 : 0;
}
