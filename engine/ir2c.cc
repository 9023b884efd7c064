// ir2c: mechanical LLVM-IR -> C translation used to hand the *compiled* /repo
// sources to CBMC.  Every reachable function of the input module is emitted;
// nothing is dropped except debug/lifetime/alias metadata.  Functions without
// a body are listed on stderr ("EXTERN name") and return a nondeterministic
// value; functions marked noreturn become failing assertions.
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using namespace llvm;
using std::string;

static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout* DL;

static std::ostringstream typeDecls, fwdDecls, globalDecls, globalDefs, body;
static std::map<Type*, string> typeNames;
static int typeCounter = 0;
static std::map<const Value*, string> names;
static int undefCounter = 0;
static std::vector<string>* curLocals = nullptr;
static std::set<string> externsUsed;
static std::set<string> helpers;

[[noreturn]] static void fail(const string& m) {
  std::cerr << "IR2C-UNSUPPORTED: " << m << "\n";
  exit(3);
}
template <class T>
static string str(const T& v) {
  string s;
  raw_string_ostream o(s);
  v.print(o);
  return o.str();
}

static string sanitize(StringRef s) {
  string o;
  for (char c : s)
    o += (isalnum((unsigned char)c) || c == '_') ? string(1, c)
                                                 : ("_" + std::to_string((unsigned char)c) + "_");
  return o;
}

static unsigned storeBits(unsigned w) { return ((w + 7) / 8) * 8; }

static string intTy(unsigned w, bool sgn = false) {
  switch (w) {
    case 1: return "_Bool";
    case 8: return sgn ? "signed char" : "unsigned char";
    case 16: return sgn ? "short" : "unsigned short";
    case 32: return sgn ? "int" : "unsigned int";
    case 64: return sgn ? "long" : "unsigned long";
    case 128: return sgn ? "__int128" : "unsigned __int128";
  }
  return string(sgn ? "signed" : "unsigned") + " __CPROVER_bitvector[" + std::to_string(w) + "]";
}

static bool isSsoUnion(const StructType* s) {
  if (!s->hasName() || !s->getName().starts_with("union.") || s->getNumElements() != 2) return false;
  auto* a = dyn_cast<ArrayType>(s->getElementType(1));
  return s->getElementType(0)->isIntegerTy(64) && a && a->getNumElements() == 8 && a->getElementType()->isIntegerTy(8);
}
static string ty(Type* t) {
  if (t->isVoidTy()) return "void";
  if (t->isFloatTy()) return "float";
  if (t->isDoubleTy()) return "double";
  if (t->isX86_FP80Ty()) return "long double";
  if (t->isPointerTy()) return "char*";
  if (auto* i = dyn_cast<IntegerType>(t)) {
    unsigned w = i->getBitWidth();
    if (w == 1 || w == 8 || w == 16 || w == 32 || w == 64 || w == 128) return intTy(w);
    auto it = typeNames.find(t);
    if (it != typeNames.end()) return it->second;
    string n = "u" + std::to_string(w) + "_t_";
    typeDecls << "typedef unsigned __CPROVER_bitvector[" << w << "] " << n << ";\n";
    typeDecls << "typedef signed __CPROVER_bitvector[" << w << "] s" << n << ";\n";
    typeNames[t] = n;
    return n;
  }
  auto it = typeNames.find(t);
  if (it != typeNames.end()) return it->second;
  if (auto* s = dyn_cast<StructType>(t)) {
    string n = "struct S" + std::to_string(typeCounter++);
    std::ostringstream d;
    d << n << " {";
    if (s->isOpaque()) fail("opaque struct");
    if (isSsoUnion(s)) {  // the short-string buffer: bytes
      typeDecls << n << " { unsigned char f0[16]; };\n";
      typeNames[t] = n;
      return n;
    }
    for (unsigned i = 0; i < s->getNumElements(); i++) {
      Type* e = s->getElementType(i);
      if (DL->getTypeAllocSize(e) == 0) {  // zero sized members carry nothing
        continue;
      }
      d << " " << ty(e) << " f" << i << ";";
    }
    if (s->getNumElements() == 0) d << " char empty[0];";
    d << " }" << (s->isPacked() ? " __attribute__((packed))" : "") << ";\n";
    typeDecls << d.str();
    typeNames[t] = n;
    return n;
  }
  if (auto* a = dyn_cast<ArrayType>(t)) {
    string n = "struct A" + std::to_string(typeCounter++);
    string e = ty(a->getElementType());
    typeDecls << n << " { " << e << " a[" << a->getNumElements() << "]; };\n";
    typeNames[t] = n;
    return n;
  }
  if (auto* v = dyn_cast<FixedVectorType>(t)) {
    string n = "struct V" + std::to_string(typeCounter++);
    string e = ty(v->getElementType());
    typeDecls << n << " { " << e << " a[" << v->getNumElements() << "]; };\n";
    typeNames[t] = n;
    return n;
  }
  fail("type " + str(*t));
}
static string sty(Type* t) {  // signed version of int type
  auto* i = cast<IntegerType>(t);
  unsigned w = i->getBitWidth();
  if (w == 1) {
    // signed i1: handled specially
    return "_Bool";
  }
  if (w == 8 || w == 16 || w == 32 || w == 64 || w == 128) return intTy(w, true);
  return "s" + ty(t);
}

static string intLit(const APInt& v) {
  unsigned w = v.getBitWidth();
  if (w <= 32) return std::to_string(v.getZExtValue()) + (w == 1 ? "" : "u");
  if (w <= 64) return std::to_string(v.getZExtValue()) + "ul";
  if (w <= 128) {
    uint64_t lo = v.trunc(64).getZExtValue(), hi = v.lshr(64).trunc(64).getZExtValue();
    return "(((unsigned __int128)" + std::to_string(hi) + "ul << 64) | " + std::to_string(lo) + "ul)";
  }
  // wider: compose
  string s = "(";
  unsigned n = (w + 63) / 64;
  string t = "u" + std::to_string(w) + "_t_";
  for (unsigned i = 0; i < n; i++) {
    uint64_t part = v.lshr(64 * i).zextOrTrunc(64).getZExtValue();
    if (i) s += " | ";
    s += "((" + t + ")" + std::to_string(part) + "ul << " + std::to_string(64 * i) + ")";
  }
  return s + ")";
}

static string fpLit(const APFloat& f, Type* t) {
  helpers.insert("bits");
  if (t->isFloatTy()) {
    uint64_t b = f.bitcastToAPInt().getZExtValue();
    if (f.isFinite()) {
      char buf[64];
      snprintf(buf, sizeof buf, "%a", (double)f.convertToFloat());
      return string("(float)") + buf + "f";
    }
    return "vf_bits_to_float(" + std::to_string(b) + "u)";
  }
  if (t->isDoubleTy()) {
    uint64_t b = f.bitcastToAPInt().getZExtValue();
    if (f.isFinite()) {
      char buf[64];
      snprintf(buf, sizeof buf, "%a", f.convertToDouble());
      return buf;
    }
    return "vf_bits_to_double(" + std::to_string(b) + "ul)";
  }
  if (t->isX86_FP80Ty()) {
    bool li;
    APFloat d = f;
    d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    if (li || !d.isFinite()) fail("x86_fp80 literal not exactly a double");
    char buf[64];
    snprintf(buf, sizeof buf, "%a", d.convertToDouble());
    return string("(long double)") + buf;
  }
  fail("fp literal");
}

static string nm(const Value* v);
static string gname(const GlobalValue* g) {
  auto it = names.find(g);
  if (it != names.end()) return it->second;
  string n = sanitize(g->getName());
  if (n.empty()) n = "anon" + std::to_string(names.size());
  if (isa<GlobalVariable>(g)) n = "g_" + n;
  else n = "f_" + n;
  names[g] = n;
  return n;
}

static string constInit(const Constant* c);  // brace initialiser
static string cexpr(const Constant* c);

static string undefOf(Type* t) {
  string n = "undef" + std::to_string(undefCounter++);
  if (!curLocals) fail("undef outside function");
  curLocals->push_back(ty(t) + " " + n + ";");
  return n;
}

static string gepExpr(const GEPOperator* g, std::function<string(const Value*)> val) {
  string base = val(g->getPointerOperand());
  APInt off(64, 0);
  string dyn;
  for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
    Value* idx = gi.getOperand();
    if (StructType* st = gi.getStructTypeOrNull()) {
      unsigned f = cast<ConstantInt>(idx)->getZExtValue();
      off += DL->getStructLayout(st)->getElementOffset(f);
    } else {
      uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
      if (auto* ci = dyn_cast<ConstantInt>(idx)) {
        off += ci->getValue().sextOrTrunc(64) * sz;
      } else {
        string i = val(idx);
        unsigned w = idx->getType()->getIntegerBitWidth();
        if (w < 64) i = "(long)(" + sty(idx->getType()) + ")" + i;
        else i = "(long)" + i;
        dyn += " + " + i + (sz == 1 ? "" : " * " + std::to_string(sz) + "l");
      }
    }
  }
  int64_t o = off.getSExtValue();
  string r = "(" + base;
  if (!dyn.empty()) r += dyn;
  if (o > 0) r += " + " + std::to_string(o);
  if (o < 0) r += " - " + std::to_string(-o);
  return r + ")";
}

static string cexpr(const Constant* c) {
  if (auto* i = dyn_cast<ConstantInt>(c)) {
    unsigned w = i->getBitWidth();
    if (w == 8 || w == 16) return "(" + ty(c->getType()) + ")" + intLit(i->getValue());
    return intLit(i->getValue());
  }
  if (auto* f = dyn_cast<ConstantFP>(c)) return fpLit(f->getValueAPF(), c->getType());
  if (isa<ConstantPointerNull>(c)) return "((char*)0)";
  if (isa<UndefValue>(c)) {
    if (!curLocals) return "0";
    return undefOf(c->getType());
  }
  if (auto* g = dyn_cast<GlobalValue>(c)) {
    if (auto* a = dyn_cast<GlobalAlias>(g)) return cexpr(a->getAliasee());
    return "((char*)&" + gname(g) + ")";
  }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    auto val = [](const Value* v) { return cexpr(cast<Constant>(v)); };
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: return gepExpr(cast<GEPOperator>(e), val);
      case Instruction::BitCast: return val(e->getOperand(0));
      case Instruction::PtrToInt:
        return "((" + ty(e->getType()) + ")(unsigned long)" + val(e->getOperand(0)) + ")";
      case Instruction::IntToPtr: return "((char*)" + val(e->getOperand(0)) + ")";
      case Instruction::Sub:
        return "((" + ty(e->getType()) + ")(" + val(e->getOperand(0)) + " - " + val(e->getOperand(1)) + "))";
      case Instruction::Add:
        return "((" + ty(e->getType()) + ")(" + val(e->getOperand(0)) + " + " + val(e->getOperand(1)) + "))";
      case Instruction::Trunc:
        return "((" + ty(e->getType()) + ")" + val(e->getOperand(0)) + ")";
      case Instruction::ICmp: {
        auto p = (CmpInst::Predicate)e->getPredicate();
        string op = p == CmpInst::ICMP_EQ ? "==" : p == CmpInst::ICMP_NE ? "!=" : "";
        if (op.empty()) fail("constexpr icmp");
        return "((_Bool)(" + val(e->getOperand(0)) + op + val(e->getOperand(1)) + "))";
      }
      default: fail("constexpr " + str(*e));
    }
  }
  if (c->getType()->isAggregateType() || c->getType()->isVectorTy()) {
    return "((" + ty(c->getType()) + ")" + constInit(c) + ")";
  }
  fail("constant " + str(*c));
}

static string constInit(const Constant* c) {
  Type* t = c->getType();
  if (auto* s = dyn_cast<StructType>(t)) {
    if (isSsoUnion(s)) {
      if (!c->isNullValue() && !isa<UndefValue>(c)) fail("constant short string");
      return "{{0}}";
    }
    string r = "{";
    bool first = true;
    for (unsigned i = 0; i < s->getNumElements(); i++) {
      if (DL->getTypeAllocSize(s->getElementType(i)) == 0) continue;
      if (!first) r += ", ";
      first = false;
      r += constInit(c->getAggregateElement(i));
    }
    return r + "}";
  }
  if (isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
    uint64_t n = isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements()
                                   : cast<FixedVectorType>(t)->getNumElements();
    if (c->isNullValue()) return "{{0}}";
    string r = "{{";
    for (uint64_t i = 0; i < n; i++) {
      if (i) r += ",";
      r += constInit(c->getAggregateElement(i));
    }
    return r + "}}";
  }
  if (isa<UndefValue>(c)) return "0";
  return cexpr(c);
}

// zero initialisers of nested aggregates whose first member is a scalar
static string zeroInit(Type* t) {
  if (auto* s = dyn_cast<StructType>(t)) {
    if (isSsoUnion(s)) return "{{0}}";
    for (unsigned i = 0; i < s->getNumElements(); i++)
      if (DL->getTypeAllocSize(s->getElementType(i)))
        return "{" + zeroInit(s->getElementType(i)) + "}";
    return "{}";
  }
  if (auto* a = dyn_cast<ArrayType>(t)) {
    if (a->getNumElements() == 0) return "{}";
    return "{{" + zeroInit(a->getElementType()) + "}}";
  }
  return "0";
}

static string nm(const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return cexpr(c);
  auto it = names.find(v);
  if (it == names.end()) fail("unnamed value " + str(*v));
  return it->second;
}

static string funcProto(const Function* f, const string& n) {
  string r = ty(f->getReturnType()) + " " + n + "(";
  for (unsigned i = 0; i < f->arg_size(); i++) {
    if (i) r += ", ";
    r += ty(f->getArg(i)->getType()) + " a" + std::to_string(i);
  }
  if (f->isVarArg()) r += f->arg_size() ? ", ..." : "";
  else if (!f->arg_size()) r += "void";
  return r + ")";
}
static string fnPtrCast(FunctionType* ft) {
  string r = "(" + ty(ft->getReturnType()) + "(*)(";
  for (unsigned i = 0; i < ft->getNumParams(); i++) {
    if (i) r += ", ";
    r += ty(ft->getParamType(i));
  }
  if (!ft->getNumParams()) r += "void";
  return r + "))";
}

struct FnEmitter {
  const Function& F;
  std::ostringstream o;
  std::vector<string> locals;
  std::map<const BasicBlock*, string> lab;
  string lastLine;
  FnEmitter(const Function& f) : F(f) {}

  void line(const Instruction& I) {
    if (const DebugLoc& d = I.getDebugLoc()) {
      auto* sc = cast<DIScope>(d.getScope());
      string l = "#line " + std::to_string(d.getLine()) + " \"" + sc->getFilename().str() + "\"\n";
      if (l != lastLine) { o << l; lastLine = l; }
    }
  }
  string loc(const Instruction& I) {
    if (const DebugLoc& d = I.getDebugLoc()) {
      auto* sc = cast<DIScope>(d.getScope());
      return sc->getFilename().str() + ":" + std::to_string(d.getLine());
    }
    return "?";
  }
  // Calls of runtime functions go through a function-level local: a call inside
  // a larger expression would make the verifier declare a temporary in the middle
  // of the body, and gotos across declarations defeat its constant propagation.
  string hoist(string e) {
    size_t q = 0;
    static const std::map<string, string> rt = {{"vf_memcmp", "int"}, {"vf_new", "char*"}, {"vf_new2", "char*"}, {"vf_memchr", "char*"},
        {"vf_ret0_3", "int"}, {"vf_guard_acquire", "int"}, {"malloc", "void*"}, {"calloc", "void*"}, {"vf_symbolic_alloc", "char*"},
        {"vf_nondet_u32", "unsigned int"}, {"vf_nondet_u16", "unsigned short"}, {"vf_nondet_u8", "unsigned char"}};
    for (auto& [n, t] : rt) hoist1(e, n, t);
    for (auto n : {"vf_strlen", "vf_ctlz", "vf_cttz", "vf_ctpop", "vf_bswap", "vf_bitreverse", "vf_nondet_u64"}) hoist1(e, n, "unsigned long");
    (void)q;
    return e;
  }
  void hoist1(string& e, const string& n, const string& t) {
    size_t q = 0;
    while ((q = e.find(n + "(", q)) != string::npos) {
      if (q > 0 && (isalnum(e[q - 1]) || e[q - 1] == '_')) { q++; continue; }
      size_t i = q + n.size(), d = 0;
      for (; i < e.size(); i++) { if (e[i] == '(') d++; if (e[i] == ')' && --d == 0) break; }
      if (q == 0 && i + 1 == e.size() && 0) return;
      string v = "hc" + std::to_string(undefCounter++);
      locals.push_back(t + " " + v + ";");
      string arg = hoist(e.substr(q + n.size() + 1, i - q - n.size() - 1));
      o << "  " << v << " = " << n << "(" << arg << ");\n";
      e.replace(q, i + 1 - q, v);
    }
  }
  void def(const Instruction& I, const string& e0) {
    string e = hoist(e0);
    o << "  " << names[&I] << " = " << e << ";\n";
  }
  string typedNew(const string& t, const string& count) {
    string f = "vf_new_";
    for (char c : t) f += isalnum(c) ? c : '_';
    helpers.insert("PROTO:static char* " + f + "(vf_u64 n) { return (char*)__CPROVER_allocate(sizeof(" + t + ") * n, 0); }");
    helpers.insert("PROTO:static char* " + f + "_1(void) { return (char*)__CPROVER_allocate(sizeof(" + t + "), 0); }");
    return count == "1" ? f + "_1()" : f + "(" + count + ")";
  }
  string wrap(const Instruction& I, const string& e) { return "(" + ty(I.getType()) + ")(" + e + ")"; }
  string S(const Value* v) {
    Type* t = v->getType();
    if (t->isIntegerTy(1)) return "(-(int)" + nm(v) + ")";
    return "(" + sty(t) + ")" + nm(v);
  }

  void phiCopies(const BasicBlock* from, const BasicBlock* to) {
    std::vector<std::pair<string, string>> cps;
    for (auto& p : to->phis()) {
      const Value* v = p.getIncomingValueForBlock(from);
      if (v == &p) continue;
      if (isa<UndefValue>(v)) continue;  // any value will do; keep the old one?
      cps.push_back({names[&p], nm(v)});
    }
    // undefined incoming values: havoc
    for (auto& p : to->phis()) {
      const Value* v = p.getIncomingValueForBlock(from);
      if (isa<UndefValue>(v)) cps.push_back({names[&p], nm(v)});
    }
    if (cps.size() == 1) {
      o << "    " << cps[0].first << " = " << cps[0].second << ";\n";
      return;
    }
    std::set<string> dests;
    for (auto& c : cps) dests.insert(c.first);
    bool needTmp = false;
    for (auto& c : cps)
      if (dests.count(c.second) ) needTmp = true;
    if (!needTmp) {
      for (auto& c : cps) o << "    " << c.first << " = " << c.second << ";\n";
      return;
    }
    for (auto& c : cps) o << "    " << c.first << "_t = " << c.second << ";\n";
    for (auto& c : cps) o << "    " << c.first << " = " << c.first << "_t;\n";
  }
  void jump(const BasicBlock* from, const BasicBlock* to) {
    phiCopies(from, to);
    o << "    goto " << lab[to] << ";\n";
  }

  static bool isHarnessFn(StringRef n) { return n.starts_with("vf_"); }

  void emitAssert(const string& cond, const string& msg) {
    string m;
    for (char c : msg) {
      if (c == '"' || c == '\\') m += '\\';
      m += c;
    }
    o << "  __CPROVER_assert(" << cond << ", \"" << m << "\");\n";
  }

  string literalString(const Value* v) {
    // follow to constant global string
    v = v->stripPointerCasts();
    if (auto* g = dyn_cast<GlobalVariable>(v))
      if (g->hasInitializer())
        if (auto* d = dyn_cast<ConstantDataSequential>(g->getInitializer()))
          if (d->isCString()) return d->getAsCString().str();
    return "";
  }

  void memop(const CallInst& C, const char* kind) {
    string d = nm(C.getArgOperand(0)), s = nm(C.getArgOperand(1));
    const Value* n = C.getArgOperand(2);
    if (auto* ci = dyn_cast<ConstantInt>(n)) {
      uint64_t k = ci->getZExtValue();
      if (k == 0) return;
      if (strcmp(kind, "memset")) {
        if (k <= 4096) {
          // field by field when the layout of either side is known, so that
          // the verifier keeps seeing whole fields
          std::vector<std::pair<uint64_t, Type*>> lv;
          if (fieldsAt(C.getArgOperand(0), k, lv) || (lv.clear(), fieldsAt(C.getArgOperand(1), k, lv))) {
            std::vector<string> tmps;
            bool move = !strcmp(kind, "memmove");
            for (auto& [off, t] : lv) {
              string at = " + " + std::to_string(off) + ")", T = ty(t);
              if (!move) { o << "  *(" << T << "*)(" << d << at << " = *(" << T << "*)(" << s << at << ";\n"; continue; }
              tmps.push_back("mc" + std::to_string(undefCounter++));
              locals.push_back(T + " " + tmps.back() + ";");
              o << "  " << tmps.back() << " = *(" << T << "*)(" << s << at << ";\n";
            }
            for (size_t i = 0; i < tmps.size(); i++)
              o << "  *(" << ty(lv[i].second) << "*)(" << d << " + " << lv[i].first << ") = " << tmps[i] << ";\n";
            return;
          }
          // value copy (also correct for overlapping moves)
          if (k == 1 || k == 2 || k == 4 || k == 8) {
            string t = intTy(k * 8);
            o << "  *(" << t << "*)" << d << " = *(" << t << "*)" << s << ";\n";
            return;
          }
          string t = ty(ArrayType::get(Type::getInt8Ty(Ctx), k));
          if (k % 8 == 0) t = ty(ArrayType::get(Type::getInt64Ty(Ctx), k / 8));
          else if (k % 4 == 0) t = ty(ArrayType::get(Type::getInt32Ty(Ctx), k / 4));
          string tmp = "mc" + std::to_string(undefCounter++);
          locals.push_back(t + " " + tmp + ";");
          o << "  " << tmp << " = *(" << t << "*)" << s << "; *(" << t << "*)" << d << " = " << tmp << ";\n";
          return;
        }
      } else {
        if (k <= 1024 && isa<ConstantInt>(C.getArgOperand(1))) {
          uint64_t b = cast<ConstantInt>(C.getArgOperand(1))->getZExtValue() & 0xff;
          uint64_t w = b * 0x0101010101010101ull, off = 0;
          if (k % 8 == 0)
            for (; off < k; off += 8) o << "  *(unsigned long*)(" << d << " + " << off << ") = " << w << "ul;\n";
          else if (k % 4 == 0)
            for (; off < k; off += 4) o << "  *(unsigned int*)(" << d << " + " << off << ") = " << (uint32_t)w << "u;\n";
          else
            for (; off < k; off++) o << "  " << d << "[" << off << "] = " << b << "u;\n";
          return;
        }
      }
    }
    string len = nm(n);
    if (n->getType()->getIntegerBitWidth() < 64) len = "(unsigned long)" + len;
    if (strcmp(kind, "memset")) {
      Type* e = baseElement(C.getArgOperand(0));
      if (!e) e = baseElement(C.getArgOperand(1));
      if (e && DL->getTypeAllocSize(e) > 1) {
        string f = string("vf_") + kind + "_";
        for (char c : ty(e)) f += isalnum(c) ? c : '_';
        helpers.insert("PROTO:VF_TYPED_" + string(strcmp(kind, "memcpy") ? "MOVE" : "COPY") + "(" + f + ", " + ty(e) + ")");
        o << "  " << f << "(" << d << ", " << s << ", " << len << ");\n";
        return;
      }
    }
    helpers.insert(kind);
    o << "  vf_" << kind << "(" << d << ", " << s << ", " << len << ");\n";
  }

  // Scalar fields covering [off, off + k) of an object of type t; false if one
  // straddles the range.
  bool leaves(Type* t, uint64_t base, uint64_t lo, uint64_t hi, uint64_t& at, std::vector<std::pair<uint64_t, Type*>>& out) {
    uint64_t sz = DL->getTypeAllocSize(t);
    if (base + sz <= lo || base >= hi) return true;
    if (out.size() > 160) return false;
    if (auto* st = dyn_cast<StructType>(t)) {
      const StructLayout* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++)
        if (!leaves(st->getElementType(i), base + sl->getElementOffset(i), lo, hi, at, out)) return false;
      return true;
    }
    if (auto* ar = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL->getTypeAllocSize(ar->getElementType());
      if (es == 0 || ar->getNumElements() > 100000) return false;
      for (uint64_t i = base < lo ? (lo - base) / es : 0; i < ar->getNumElements() && base + i * es < hi; i++)
        if (!leaves(ar->getElementType(), base + i * es, lo, hi, at, out)) return false;
      return true;
    }
    if (!(t->isIntegerTy() || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy())) return false;
    if (base < lo || base + sz > hi || DL->getTypeStoreSize(t) != sz) return false;
    if (t->isIntegerTy() && t->getIntegerBitWidth() != sz * 8) return false;
    for (; at < base; at++) out.push_back({at - lo, Type::getInt8Ty(Ctx)});  // padding
    out.push_back({base - lo, t});
    at = base + sz;
    return true;
  }
  // A structure of k bytes that p is used as or was derived as.
  Type* pointee(const Value* p, uint64_t k) {
    std::set<const Value*> seen;
    std::vector<const Value*> w{p};
    for (int depth = 0; !w.empty() && depth < 60; depth++) {
      const Value* v = w.back();
      w.pop_back();
      if (!seen.insert(v).second) continue;
      auto ok = [&](Type* t) { return t->isStructTy() && t->isSized() && DL->getTypeAllocSize(t) == k; };
      for (auto* u : v->users())
        if (auto* g = dyn_cast<GEPOperator>(u)) if (g->getPointerOperand() == v && ok(g->getSourceElementType())) return g->getSourceElementType();
      if (auto* g = dyn_cast<GEPOperator>(v)) {
        if (g->getNumIndices() == 1) { if (ok(g->getSourceElementType())) return g->getSourceElementType(); w.push_back(g->getPointerOperand()); }
      } else if (auto* ph = dyn_cast<PHINode>(v)) { for (auto& x : ph->incoming_values()) w.push_back(x); }
      else if (auto* c = dyn_cast<CallInst>(v)) {
        auto* f = c->getCalledFunction();
        if (f && (f->getName() == "_Znwm" || f->getName() == "_Znam")) if (Type* t = heapType(*c)) if (ok(t)) return t;
      }
    }
    return nullptr;
  }
  bool fieldsAt(const Value* p, uint64_t k, std::vector<std::pair<uint64_t, Type*>>& out) {
    uint64_t off = 0;
    for (int depth = 0; depth < 20; depth++) {
      Type* t = nullptr;
      if (auto* al = dyn_cast<AllocaInst>(p)) t = al->getAllocatedType();
      else if (auto* gv = dyn_cast<GlobalVariable>(p)) t = gv->getValueType();
      else if (auto* ag = dyn_cast<Argument>(p)) { t = ag->getParamStructRetType(); if (!t) t = ag->getParamByValType(); }
      else if (auto* c = dyn_cast<CallInst>(p)) {
        auto* f = c->getCalledFunction();
        if (f && (f->getName() == "_Znwm" || f->getName() == "_Znam")) t = heapType(*c);
        if (t && !t->isSized()) t = nullptr;
        if (t) off %= DL->getTypeAllocSize(t);
      }
      if (!t && off == 0) t = pointee(p, k);
      const GEPOperator* g = dyn_cast<GEPOperator>(p);
      if (!t && g && g->getSourceElementType()->isStructTy()) {
        // the pointer operand is used as an object of that structure
        APInt o2(64, 0);
        const Value* base = g->getPointerOperand();
        if (g->accumulateConstantOffset(*DL, o2) && !o2.isNegative()) {
          uint64_t o3 = off + o2.getZExtValue();
          Type* st = g->getSourceElementType();
          bool onlyFirst = isa<ConstantInt>(g->getOperand(1)) && cast<ConstantInt>(g->getOperand(1))->isZero();
          if (onlyFirst && o3 + k <= DL->getTypeAllocSize(st) && !isa<AllocaInst>(base) && !isa<GlobalVariable>(base) && !isa<GEPOperator>(base)) {
            t = st;
            off = o3;
          }
        }
      }
      if (t) {
        if (!t->isSized() || off + k > DL->getTypeAllocSize(t)) return false;
        uint64_t at = off;
        out.clear();
        if (!leaves(t, 0, off, off + k, at, out)) return false;
        for (; at < off + k; at++) out.push_back({at - off, Type::getInt8Ty(Ctx)});
        return out.size() <= 160;
      }
      if (!g) return false;
      APInt o2(64, 0);
      if (!g->accumulateConstantOffset(*DL, o2) || o2.isNegative()) return false;
      off += o2.getZExtValue();
      p = g->getPointerOperand();
    }
    return false;
  }

  // A structure moved as one integer register: its fields, else null.
  std::map<const LoadInst*, std::unique_ptr<std::vector<std::pair<uint64_t, Type*>>>> splits;
  const std::vector<std::pair<uint64_t, Type*>>* splitLoad(const LoadInst& L) {
    auto it = splits.find(&L);
    if (it != splits.end()) return it->second.get();
    auto& r = splits[&L];
    Type* t = L.getType();
    if (!t->isIntegerTy() || !(t->isIntegerTy(16) || t->isIntegerTy(32) || t->isIntegerTy(64)) || !L.hasOneUse()) return nullptr;
    auto* st = dyn_cast<StoreInst>(*L.user_begin());
    if (!st || st->getValueOperand() != &L) return nullptr;
    uint64_t k = t->getIntegerBitWidth() / 8;
    std::vector<std::pair<uint64_t, Type*>> lv;
    if (!fieldsAt(st->getPointerOperand(), k, lv) && (lv.clear(), !fieldsAt(L.getPointerOperand(), k, lv))) return nullptr;
    if (lv.size() < 2) return nullptr;
    r = std::make_unique<std::vector<std::pair<uint64_t, Type*>>>(std::move(lv));
    return r.get();
  }

  // Element type of a heap block, guessed from how the block is addressed.
  // Only affects how CBMC lays the block out internally, not its meaning.
  Type* heapType(const CallInst& C) {
    uint64_t sz = 0;
    if (auto* ci = dyn_cast<ConstantInt>(C.getArgOperand(0))) sz = ci->getZExtValue();
    Type* best = nullptr;
    uint64_t bestSz = 0;
    std::set<const Value*> seen;
    std::vector<const Value*> w{&C};
    auto consider = [&](Type* t) {
      if (!t->isSized() || t->isIntegerTy(1)) return;
      uint64_t k = DL->getTypeAllocSize(t);
      if (k <= 1 || (sz && sz % k)) return;
      if (t->isIntegerTy() && DL->getTypeStoreSize(t) * 8 != t->getIntegerBitWidth()) return;
      bool cand = !best || k > bestSz;
      if (cand) { best = t; bestSz = k; }
    };
    int depth = 0;
    while (!w.empty() && depth++ < 400) {
      const Value* v = w.back();
      w.pop_back();
      if (!seen.insert(v).second) continue;
      for (auto* u : v->users()) {
        if (auto* g = dyn_cast<GetElementPtrInst>(u)) {
          if (g->getPointerOperand() != v) continue;
          Type* st = g->getSourceElementType();
          if (st->isStructTy() || st->isPointerTy() || st->isIntegerTy() || st->isFloatingPointTy()) consider(st);
        } else if (auto* p = dyn_cast<PHINode>(u)) w.push_back(p);
        else if (auto* sI = dyn_cast<StoreInst>(u)) { if (sI->getPointerOperand() == v) consider(sI->getValueOperand()->getType()); }
        else if (auto* l = dyn_cast<LoadInst>(u)) consider(l->getType());
        else if (isa<SelectInst>(u)) w.push_back(u);
      }
    }
    if (sz && best && bestSz < sz && sz <= 512 && sz % 8 == 0 && !best->isStructTy()) return nullptr;
    return best;
  }

  // Element type of the heap block a pointer points into, if one is found.
  Type* baseElement(const Value* p) {
    std::set<const Value*> seen;
    std::vector<const Value*> w{p};
    int depth = 0;
    while (!w.empty() && depth++ < 100) {
      const Value* v = w.back();
      w.pop_back();
      if (!seen.insert(v).second) continue;
      if (auto* g = dyn_cast<GEPOperator>(v)) w.push_back(g->getPointerOperand());
      else if (auto* ph = dyn_cast<PHINode>(v)) for (auto& x : ph->incoming_values()) w.push_back(x);
      else if (auto* si = dyn_cast<SelectInst>(v)) { w.push_back(si->getTrueValue()); w.push_back(si->getFalseValue()); }
      else if (auto* c = dyn_cast<CallInst>(v)) {
        auto* f = c->getCalledFunction();
        if (f && (f->getName() == "_Znwm" || f->getName() == "_Znam")) if (Type* t = heapType(*c)) return t;
      }
    }
    return nullptr;
  }

  void call(const CallInst& C) {
    if (C.isInlineAsm()) {
      // empty asm barriers only
      if (C.getType()->isVoidTy()) return;
      fail("inline asm");
    }
    const Value* cv = C.getCalledOperand()->stripPointerCasts();
    if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
    const Function* callee = dyn_cast<Function>(cv);
    Type* rt = C.getType();
    auto A = [&](unsigned i) { return nm(C.getArgOperand(i)); };
    if (callee && callee->isIntrinsic()) { intrinsic(C, callee); return; }
    if (callee) {
      StringRef n = callee->getName();
      if (n == "vf_assert_impl") {
        string m = literalString(C.getArgOperand(1));
        emitAssert(A(0), "P:" + m);
        return;
      }
      if (n == "vf_assume_impl") { o << "  __CPROVER_assume(" << A(0) << ");\n"; return; }
      if (n == "vf_cover_impl") {
        emitAssert("0", "COVER:" + literalString(C.getArgOperand(0)));
        return;
      }
      if (n == "vf_object_size") { def(C, "(unsigned long)__CPROVER_OBJECT_SIZE(" + A(0) + ")"); return; }
      if (n == "vf_same_object") { def(C, "__CPROVER_same_object(" + A(0) + ", " + A(1) + ")"); return; }
      if (n == "vf_havoc_object") { o << "  __CPROVER_havoc_object(" + A(0) + ");\n"; return; }
    }
    bool hasBody = callee && !callee->isDeclaration();
    if (callee && !hasBody) {
      string n = callee->getName().str();
      if (C.doesNotReturn() || callee->doesNotReturn()) {
        string extra = C.arg_size() ? literalString(C.getArgOperand(0)) : "";
        emitAssert("0", "SAFETY: reaches noreturn " + demangle(n) + (extra.empty() ? "" : " (" + extra + ")") + " at " + loc(C));
        o << "  __CPROVER_assume(0);\n";
        return;
      }
      static const std::map<string, string> lib = {
          {"malloc", "malloc"}, {"calloc", "calloc"}, {"free", "free"}, {"memcmp", "vf_memcmp"},
          {"bcmp", "vf_memcmp"}, {"strlen", "vf_strlen"}, {"memchr", "vf_memchr"},
          {"_Znwm", "vf_new"}, {"_Znam", "vf_new"}, {"_ZdlPv", "vf_del"}, {"_ZdlPvm", "vf_del1"},
          {"_ZdaPv", "vf_del"}, {"_ZdaPvm", "vf_del1"}, {"_ZnwmSt11align_val_t", "vf_new2"},
          {"_ZdlPvmSt11align_val_t", "vf_del2"}, {"_ZdlPvSt11align_val_t", "vf_del1"},
          {"__cxa_atexit", "vf_ret0_3"}, {"__cxa_guard_acquire", "vf_guard_acquire"},
          {"__cxa_guard_release", "vf_guard_release"}};
      auto it = lib.find(n);
      static const std::set<string> math = {"sqrt","sqrtf","pow","powf","exp","expf","log","logf","log10","log10f",
          "log2","log2f","sin","sinf","cos","cosf","tan","tanf","asin","acos","atan","atan2","fmod","fmodf","cbrt","exp2","sinh","cosh"};
      if (it != lib.end() && (it->second == "vf_new" || it->second == "vf_new2")) {
        if (Type* h = heapType(C)) {
          uint64_t esz = DL->getTypeAllocSize(h);
          if (auto* ci = dyn_cast<ConstantInt>(C.getArgOperand(0))) {
            uint64_t n = ci->getZExtValue() / esz;
            def(C, typedNew(ty(h), n == 1 ? "1" : std::to_string(n) + "ul"));
          } else
            def(C, typedNew(ty(h), "(" + A(0) + " + " + std::to_string(esz - 1) + "ul) / " + std::to_string(esz) + "ul"));
          return;
        }
      }
      if (it != lib.end()) {
        helpers.insert("lib");
        string e = it->second + "(";
        unsigned k = C.arg_size();
        if (it->second == "vf_del") k = 1;
        for (unsigned i = 0; i < k; i++) e += (i ? ", " : "") + A(i);
        e += ")";
        if (rt->isVoidTy()) o << "  " << e << ";\n";
        else def(C, wrap(C, e));
        return;
      }
      static const std::map<string, string> exactfp = {
          {"floor","floor"},{"floorf","floorf"},{"ceil","ceil"},{"ceilf","ceilf"},{"trunc","trunc"},{"truncf","truncf"},
          {"round","round"},{"roundf","roundf"},{"fabs","fabs"},{"fabsf","fabsf"},{"rint","rint"},{"nearbyint","nearbyint"},{"lround","lround"},{"lroundf","lroundf"},{"llround","llround"},{"fmin","fmin"},{"fmax","fmax"},{"fminf","fminf"},{"fmaxf","fmaxf"}};
      auto ef = exactfp.find(n);
      if (ef != exactfp.end()) {
        string e = ef->second + "(";
        for (unsigned i = 0; i < C.arg_size(); i++) e += (i ? ", " : "") + A(i);
        def(C, e + ")");
        return;
      }
      if (math.count(n)) {
        externsUsed.insert("math:" + n);
        string p = ty(rt) + " __CPROVER_uninterpreted_" + n + "(";
        for (unsigned i = 0; i < C.arg_size(); i++) p += (i ? ", " : "") + ty(C.getArgOperand(i)->getType());
        helpers.insert("PROTO:" + p + ");");
        string e = "__CPROVER_uninterpreted_" + n + "(";
        for (unsigned i = 0; i < C.arg_size(); i++) e += (i ? ", " : "") + A(i);
        def(C, e + ")");
        return;
      }
      if (isHarnessFn(n)) {
        // harness primitives implemented in vf_rt.h (C side)
        string e = n + "(";
        for (unsigned i = 0; i < C.arg_size(); i++) e += (i ? ", " : "") + A(i);
        e += ")";
        if (rt->isVoidTy()) o << "  " << e << ";\n";
        else def(C, e);
        return;
      }
      externsUsed.insert(demangle(n));
      if (!rt->isVoidTy()) def(C, undefOf(rt));
      return;
    }
    // direct or indirect
    string e;
    FunctionType* ft = C.getFunctionType();
    bool same = callee && callee->getFunctionType() == ft;
    if (callee && same) e = gname(callee) + "(";
    else {
      string p = callee ? "(char*)&" + gname(callee) : nm(C.getCalledOperand());
      e = "(" + fnPtrCast(ft) + p + ")(";
    }
    unsigned k = ft->isVarArg() ? C.arg_size() : ft->getNumParams();
    for (unsigned i = 0; i < k; i++) e += (i ? ", " : "") + A(i);
    e += ")";
    if (rt->isVoidTy()) o << "  " << e << ";\n";
    else def(C, e);
    if (C.doesNotReturn()) {
      o << "  __CPROVER_assume(0);\n";
    }
  }

  string aggType(Type* t) { return ty(t); }

  void intrinsic(const CallInst& C, const Function* f) {
    auto A = [&](unsigned i) { return nm(C.getArgOperand(i)); };
    Type* t = C.getType();
    auto sc = [&](unsigned i) { return S(C.getArgOperand(i)); };
    unsigned w = t->isIntegerTy() ? t->getIntegerBitWidth() : 0;
    string W = std::to_string(w);
    switch (f->getIntrinsicID()) {
      case Intrinsic::memcpy:
      case Intrinsic::memcpy_inline: memop(C, "memcpy"); return;
      case Intrinsic::memmove: memop(C, "memmove"); return;
      case Intrinsic::memset: memop(C, "memset"); return;
      case Intrinsic::lifetime_start:
      case Intrinsic::lifetime_end:
      case Intrinsic::dbg_declare:
      case Intrinsic::dbg_value:
      case Intrinsic::dbg_label:
      case Intrinsic::dbg_assign:
      case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::assume:
      case Intrinsic::stackrestore:
      case Intrinsic::invariant_end:
      case Intrinsic::prefetch:
      case Intrinsic::donothing: return;
      case Intrinsic::invariant_start: def(C, "((char*)0)"); return;
      case Intrinsic::stacksave: def(C, "((char*)0)"); return;
      case Intrinsic::expect: def(C, A(0)); return;
      case Intrinsic::launder_invariant_group:
      case Intrinsic::strip_invariant_group: def(C, A(0)); return;
      case Intrinsic::is_constant: def(C, "0"); return;
      case Intrinsic::objectsize: def(C, wrap(C, "-1l")); return;
      case Intrinsic::ubsantrap: {
        static const char* kinds[] = {"add overflow","builtin unreachable","cfi","div/rem overflow","dynamic type cache miss",
          "float cast overflow","function type mismatch","implicit conversion","invalid builtin","invalid objc cast",
          "invalid bool/enum load","missing return","mul overflow","negate overflow","null ptr arg","null return","nonnull arg",
          "nonnull ret","out of bounds index","pointer overflow","shift out of bounds","sub overflow","type mismatch","alignment","vla"};
        unsigned k = cast<ConstantInt>(C.getArgOperand(0))->getZExtValue();
        emitAssert("0", string("SAFETY: undefined behaviour: ") + (k < 25 ? kinds[k] : "?") + " at " + loc(C));
        o << "  __CPROVER_assume(0);\n";
        return;
      }
      case Intrinsic::trap:
      case Intrinsic::debugtrap:
        emitAssert("0", "SAFETY: trap at " + loc(C));
        o << "  __CPROVER_assume(0);\n";
        return;
      case Intrinsic::umin: def(C, A(0) + " < " + A(1) + " ? " + A(0) + " : " + A(1)); return;
      case Intrinsic::umax: def(C, A(0) + " > " + A(1) + " ? " + A(0) + " : " + A(1)); return;
      case Intrinsic::smin: def(C, sc(0) + " < " + sc(1) + " ? " + A(0) + " : " + A(1)); return;
      case Intrinsic::smax: def(C, sc(0) + " > " + sc(1) + " ? " + A(0) + " : " + A(1)); return;
      case Intrinsic::abs: def(C, wrap(C, sc(0) + " < 0 ? -" + A(0) + " : " + A(0))); return;
      case Intrinsic::ctlz:
      case Intrinsic::cttz:
      case Intrinsic::ctpop:
      case Intrinsic::bitreverse:
      case Intrinsic::bswap: {
        string n = string("vf_") + (f->getIntrinsicID() == Intrinsic::ctlz ? "ctlz" : f->getIntrinsicID() == Intrinsic::cttz ? "cttz"
                    : f->getIntrinsicID() == Intrinsic::ctpop ? "ctpop" : f->getIntrinsicID() == Intrinsic::bswap ? "bswap" : "bitreverse");
        helpers.insert("bitops");
        if (w > 64) fail("wide bitop");
        def(C, wrap(C, n + "(" + A(0) + ", " + W + ")"));
        return;
      }
      case Intrinsic::fshl:
      case Intrinsic::fshr: {
        bool l = f->getIntrinsicID() == Intrinsic::fshl;
        string s = "(" + A(2) + " % " + W + "u)";
        if (l) def(C, wrap(C, s + " == 0 ? " + A(0) + " : (" + A(0) + " << " + s + ") | (" + A(1) + " >> (" + W + "u - " + s + "))"));
        else def(C, wrap(C, s + " == 0 ? " + A(1) + " : (" + A(0) + " << (" + W + "u - " + s + ")) | (" + A(1) + " >> " + s + ")"));
        return;
      }
      case Intrinsic::usub_sat: def(C, wrap(C, A(0) + " < " + A(1) + " ? 0 : " + A(0) + " - " + A(1))); return;
      case Intrinsic::uadd_sat:
        def(C, wrap(C, "(" + ty(t) + ")(" + A(0) + " + " + A(1) + ") < " + A(0) + " ? (" + ty(t) + ")-1 : " + A(0) + " + " + A(1)));
        return;
      case Intrinsic::sadd_with_overflow:
      case Intrinsic::uadd_with_overflow:
      case Intrinsic::ssub_with_overflow:
      case Intrinsic::usub_with_overflow:
      case Intrinsic::smul_with_overflow:
      case Intrinsic::umul_with_overflow: {
        auto id = f->getIntrinsicID();
        Type* it = C.getArgOperand(0)->getType();
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        string op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? "plus"
                    : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? "minus" : "mult";
        string cop = op == "plus" ? "+" : op == "minus" ? "-" : "*";
        string T = sg ? sty(it) : ty(it);
        o << "  " << names[&C] << ".f0 = (" << ty(it) << ")(" << nm(C.getArgOperand(0)) << " " << cop << " " << nm(C.getArgOperand(1)) << ");\n";
        o << "  " << names[&C] << ".f1 = __CPROVER_overflow_" << op << "((" << T << ")" << A(0) << ", (" << T << ")" << A(1) << ");\n";
        return;
      }
      case Intrinsic::fabs: def(C, (t->isFloatTy() ? "fabsf(" : "fabs(") + A(0) + ")"); return;
      case Intrinsic::floor: def(C, (t->isFloatTy() ? "floorf(" : "floor(") + A(0) + ")"); return;
      case Intrinsic::ceil: def(C, (t->isFloatTy() ? "ceilf(" : "ceil(") + A(0) + ")"); return;
      case Intrinsic::trunc: def(C, (t->isFloatTy() ? "truncf(" : "trunc(") + A(0) + ")"); return;
      case Intrinsic::round: def(C, (t->isFloatTy() ? "roundf(" : "round(") + A(0) + ")"); return;
      case Intrinsic::rint:
      case Intrinsic::nearbyint: def(C, (t->isFloatTy() ? "rintf(" : "rint(") + A(0) + ")"); return;
      case Intrinsic::minnum: def(C, (t->isFloatTy() ? "fminf(" : "fmin(") + A(0) + ", " + A(1) + ")"); return;
      case Intrinsic::maxnum: def(C, (t->isFloatTy() ? "fmaxf(" : "fmax(") + A(0) + ", " + A(1) + ")"); return;
      case Intrinsic::copysign: def(C, (t->isFloatTy() ? "copysignf(" : "copysign(") + A(0) + ", " + A(1) + ")"); return;
      case Intrinsic::fmuladd: def(C, "(" + ty(t) + ")(" + A(0) + " * " + A(1) + ") + " + A(2)); return;
      case Intrinsic::sqrt:
      case Intrinsic::pow:
      case Intrinsic::exp:
      case Intrinsic::exp2:
      case Intrinsic::log:
      case Intrinsic::log10:
      case Intrinsic::log2:
      case Intrinsic::sin:
      case Intrinsic::cos: {
        string n = f->getName().substr(5).str();
        n = n.substr(0, n.find('.')) + (t->isFloatTy() ? "f" : "");
        externsUsed.insert("math:" + n);
        string p = ty(t) + " __CPROVER_uninterpreted_" + n + "(";
        for (unsigned i = 0; i < C.arg_size(); i++) p += (i ? ", " : "") + ty(C.getArgOperand(i)->getType());
        helpers.insert("PROTO:" + p + ");");
        string e = "__CPROVER_uninterpreted_" + n + "(";
        for (unsigned i = 0; i < C.arg_size(); i++) e += (i ? ", " : "") + A(i);
        def(C, e + ")");
        return;
      }
      case Intrinsic::powi: fail("powi");
      case Intrinsic::is_fpclass: {
        unsigned m = cast<ConstantInt>(C.getArgOperand(1))->getZExtValue();
        string x = A(0), e = "0";
        if (m & 3) e += " || __CPROVER_isnan" + string(C.getArgOperand(0)->getType()->isFloatTy() ? "f" : "d") + "(" + x + ")";
        if (m & 4) e += " || (__CPROVER_isinfd(" + x + ") && __CPROVER_signd(" + x + "))";
        if (m & 512) e += " || (__CPROVER_isinfd(" + x + ") && !__CPROVER_signd(" + x + "))";
        if (m & 8) e += " || (__CPROVER_isnormald(" + x + ") && __CPROVER_signd(" + x + "))";
        if (m & 256) e += " || (__CPROVER_isnormald(" + x + ") && !__CPROVER_signd(" + x + "))";
        if (m & 0xF0) {
          if ((m & 0xF0) == 0x60) e += " || " + x + " == 0";
          else if ((m & 0xF0) == 0xF0) e += " || (!__CPROVER_isnormald(" + x + ") && !__CPROVER_isnand(" + x + ") && !__CPROVER_isinfd(" + x + "))";
          else fail("is.fpclass subnormal mask");
        }
        if (C.getArgOperand(0)->getType()->isFloatTy()) {
          for (auto p : {"isnan", "isinf", "isnormal", "sign"}) {
            string a = string("__CPROVER_") + p + "d(", b = string("__CPROVER_") + p + "f(";
            size_t q = 0;
            while ((q = e.find(a, q)) != string::npos) { e.replace(q, a.size(), b); q += b.size(); }
          }
        }
        def(C, "(_Bool)(" + e + ")");
        return;
      }
      case Intrinsic::threadlocal_address: def(C, A(0)); return;
      case Intrinsic::load_relative: fail("load.relative");
      case Intrinsic::vastart:
      case Intrinsic::vaend: return;
      case Intrinsic::fptosi_sat:
      case Intrinsic::fptoui_sat: fail("fptoi.sat");
      default: fail("intrinsic " + f->getName().str());
    }
  }

  void inst(const Instruction& I) {
    line(I);
    Type* t = I.getType();
    auto A = [&](unsigned i) { return nm(I.getOperand(i)); };
    switch (I.getOpcode()) {
      case Instruction::Alloca: {
        auto& a = cast<AllocaInst>(I);
        if (a.isArrayAllocation() && !isa<ConstantInt>(a.getArraySize())) fail("vla");
        uint64_t n = a.isArrayAllocation() ? cast<ConstantInt>(a.getArraySize())->getZExtValue() : 1;
        string m = names[&I] + "_m";
        Type* at = a.getAllocatedType();
        if (n != 1) at = ArrayType::get(at, n);
        if (DL->getTypeAllocSize(at) == 0) at = Type::getInt8Ty(Ctx);
        locals.push_back(ty(at) + " " + m + ";");
        def(I, "(char*)&" + m);
        return;
      }
      case Instruction::Load: {
        if (auto* lv = splitLoad(cast<LoadInst>(I))) {
          for (auto& [off, ft] : *lv) {
            string tmp = names[&I] + "_" + std::to_string(off);
            locals.push_back(ty(ft) + " " + tmp + ";");
            o << "  " << tmp << " = *(" << ty(ft) << "*)(" << A(0) << " + " << off << ");\n";
          }
          return;
        }
        if (t->isIntegerTy(1)) { def(I, "(_Bool)(*(unsigned char*)" + A(0) + " & 1)"); return; }
        if (t->isIntegerTy()) {
          unsigned w = t->getIntegerBitWidth();
          if (storeBits(w) != w) {
            def(I, wrap(I, "*(" + ty(IntegerType::get(Ctx, storeBits(w))) + "*)" + A(0)));
            return;
          }
        }
        def(I, "*(" + ty(t) + "*)" + A(0));
        return;
      }
      case Instruction::Store: {
        if (auto* ld = dyn_cast<LoadInst>(I.getOperand(0)))
          if (auto* lv = splitLoad(*ld)) {
            for (auto& [off, ft] : *lv)
              o << "  *(" << ty(ft) << "*)(" << A(1) << " + " << off << ") = " << names[ld] << "_" << off << ";\n";
            return;
          }
        Type* vt = I.getOperand(0)->getType();
        // value in the low bits, constant above: two stores
        if (auto* bo = dyn_cast<BinaryOperator>(I.getOperand(0)); bo && bo->getOpcode() == Instruction::Or && (vt->isIntegerTy(64) || vt->isIntegerTy(32) || vt->isIntegerTy(16)))
          if (auto* z = dyn_cast<ZExtInst>(bo->getOperand(0)))
            if (auto* c = dyn_cast<ConstantInt>(bo->getOperand(1))) {
              unsigned w = vt->getIntegerBitWidth(), n = z->getSrcTy()->getIntegerBitWidth();
              uint64_t cv = c->getZExtValue();
              if ((n == 8 || n == 16 || n == 32) && (cv & ((1ull << n) - 1)) == 0) {
                o << "  *(" << ty(z->getSrcTy()) << "*)" << A(1) << " = " << nm(z->getOperand(0)) << ";\n";
                for (unsigned b = n; b < w; b += 8)
                  o << "  *(unsigned char*)(" << A(1) << " + " << b / 8 << ") = " << ((cv >> b) & 255) << "u;\n";
                return;
              }
            }
        if (vt->isIntegerTy() && storeBits(vt->getIntegerBitWidth()) != vt->getIntegerBitWidth()) {
          string T = ty(IntegerType::get(Ctx, storeBits(vt->getIntegerBitWidth())));
          o << "  *(" << T << "*)" << A(1) << " = (" << T << ")" << A(0) << ";\n";
          return;
        }
        o << "  *(" << ty(vt) << "*)" << A(1) << " = " << A(0) << ";\n";
        return;
      }
      case Instruction::GetElementPtr:
        def(I, gepExpr(cast<GEPOperator>(&I), [](const Value* v) { return nm(v); }));
        return;
      case Instruction::Add: def(I, wrap(I, A(0) + " + " + A(1))); return;
      case Instruction::Sub: {
        // address differences: by offset when both lie in one object (same value,
        // but the verifier folds it to a constant)
        auto* x = dyn_cast<PtrToIntOperator>(I.getOperand(0));
        auto* y = dyn_cast<PtrToIntOperator>(I.getOperand(1));
        if (x && y && t->isIntegerTy(64)) {
          def(I, "VF_PDIFF(" + nm(x->getPointerOperand()) + ", " + nm(y->getPointerOperand()) + ")");
          return;
        }
        def(I, wrap(I, A(0) + " - " + A(1)));
        return;
      }
      case Instruction::Mul: def(I, wrap(I, A(0) + " * " + A(1))); return;
      case Instruction::And: def(I, wrap(I, A(0) + " & " + A(1))); return;
      case Instruction::Or: def(I, wrap(I, A(0) + " | " + A(1))); return;
      case Instruction::Xor: def(I, wrap(I, A(0) + " ^ " + A(1))); return;
      case Instruction::Shl: def(I, wrap(I, A(0) + " << " + A(1))); return;
      case Instruction::LShr: def(I, wrap(I, A(0) + " >> " + A(1))); return;
      case Instruction::AShr: def(I, wrap(I, S(I.getOperand(0)) + " >> " + A(1))); return;
      case Instruction::UDiv:
      case Instruction::URem:
      case Instruction::SDiv:
      case Instruction::SRem: {
        bool sg = I.getOpcode() == Instruction::SDiv || I.getOpcode() == Instruction::SRem;
        bool dv = I.getOpcode() == Instruction::SDiv || I.getOpcode() == Instruction::UDiv;
        if (!isa<ConstantInt>(I.getOperand(1)))
          emitAssert(A(1) + " != 0", "SAFETY: division by zero at " + loc(I));
        string a = sg ? S(I.getOperand(0)) : A(0), b = sg ? S(I.getOperand(1)) : A(1);
        def(I, wrap(I, a + (dv ? " / " : " % ") + b));
        return;
      }
      case Instruction::FAdd: def(I, A(0) + " + " + A(1)); return;
      case Instruction::FSub: def(I, A(0) + " - " + A(1)); return;
      case Instruction::FMul: def(I, A(0) + " * " + A(1)); return;
      case Instruction::FDiv: def(I, A(0) + " / " + A(1)); return;
      case Instruction::FNeg: def(I, "-" + A(0)); return;
      case Instruction::ICmp: {
        auto p = cast<ICmpInst>(I).getPredicate();
        const Value *x = I.getOperand(0), *y = I.getOperand(1);
        string a, b;
        if (CmpInst::isSigned(p)) { a = S(x); b = S(y); }
        else { a = nm(x); b = nm(y); }
        if (x->getType()->isPointerTy() && !CmpInst::isEquality(p)) {
          const char* f = p == CmpInst::ICMP_UGT ? "VF_PGT" : p == CmpInst::ICMP_UGE ? "VF_PGE"
                          : p == CmpInst::ICMP_ULT ? "VF_PLT" : "VF_PLE";
          if (!CmpInst::isSigned(p)) { def(I, string(f) + "(" + a + ", " + b + ")"); return; }
          a = "(unsigned long)" + a;
          b = "(unsigned long)" + b;
        }
        string op;
        switch (p) {
          case CmpInst::ICMP_EQ: op = "=="; break;
          case CmpInst::ICMP_NE: op = "!="; break;
          case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: op = ">"; break;
          case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: op = ">="; break;
          case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: op = "<"; break;
          default: op = "<=";
        }
        def(I, a + " " + op + " " + b);
        return;
      }
      case Instruction::FCmp: {
        auto p = cast<FCmpInst>(I).getPredicate();
        string a = A(0), b = A(1);
        string uno = "(" + a + " != " + a + " || " + b + " != " + b + ")";
        string ord = "(" + a + " == " + a + " && " + b + " == " + b + ")";
        switch (p) {
          case CmpInst::FCMP_FALSE: def(I, "0"); return;
          case CmpInst::FCMP_TRUE: def(I, "1"); return;
          case CmpInst::FCMP_OEQ: def(I, a + " == " + b); return;
          case CmpInst::FCMP_OGT: def(I, a + " > " + b); return;
          case CmpInst::FCMP_OGE: def(I, a + " >= " + b); return;
          case CmpInst::FCMP_OLT: def(I, a + " < " + b); return;
          case CmpInst::FCMP_OLE: def(I, a + " <= " + b); return;
          case CmpInst::FCMP_ONE: def(I, ord + " && " + a + " != " + b); return;
          case CmpInst::FCMP_ORD: def(I, ord); return;
          case CmpInst::FCMP_UNO: def(I, uno); return;
          case CmpInst::FCMP_UEQ: def(I, uno + " || " + a + " == " + b); return;
          case CmpInst::FCMP_UGT: def(I, "!(" + a + " <= " + b + ")"); return;
          case CmpInst::FCMP_UGE: def(I, "!(" + a + " < " + b + ")"); return;
          case CmpInst::FCMP_ULT: def(I, "!(" + a + " >= " + b + ")"); return;
          case CmpInst::FCMP_ULE: def(I, "!(" + a + " > " + b + ")"); return;
          case CmpInst::FCMP_UNE: def(I, a + " != " + b); return;
          default: fail("fcmp");
        }
      }
      case Instruction::Trunc:
        if (t->isIntegerTy(1)) def(I, "(_Bool)(" + A(0) + " & 1)");
        else def(I, wrap(I, A(0)));
        return;
      case Instruction::ZExt: def(I, wrap(I, A(0))); return;
      case Instruction::SExt:
        if (I.getOperand(0)->getType()->isIntegerTy(1)) def(I, wrap(I, A(0) + " ? (" + ty(t) + ")-1 : (" + ty(t) + ")0"));
        else def(I, "(" + ty(t) + ")(" + sty(t) + ")" + S(I.getOperand(0)));
        return;
      case Instruction::FPExt:
      case Instruction::FPTrunc: def(I, wrap(I, A(0))); return;
      case Instruction::UIToFP: def(I, wrap(I, A(0))); return;
      case Instruction::SIToFP: def(I, wrap(I, S(I.getOperand(0)))); return;
      case Instruction::FPToUI: def(I, wrap(I, A(0))); return;
      case Instruction::FPToSI: def(I, wrap(I, "(" + sty(t) + ")(" + A(0) + ")")); return;
      case Instruction::PtrToInt: def(I, wrap(I, "(unsigned long)" + A(0))); return;
      case Instruction::IntToPtr: def(I, "(char*)(unsigned long)" + A(0)); return;
      case Instruction::BitCast: {
        Type* s = I.getOperand(0)->getType();
        if (s == t || (s->isPointerTy() && t->isPointerTy())) { def(I, A(0)); return; }
        string tmp = "bc" + std::to_string(undefCounter++);
        locals.push_back(ty(s) + " " + tmp + ";");
        o << "  " << tmp << " = " << A(0) << ";\n";
        def(I, "*(" + ty(t) + "*)&" + tmp);
        return;
      }
      case Instruction::Freeze: def(I, A(0)); return;
      case Instruction::Select: def(I, A(0) + " ? " + A(1) + " : " + A(2)); return;
      case Instruction::ExtractValue: {
        auto& e = cast<ExtractValueInst>(I);
        string s = A(0);
        Type* ct = I.getOperand(0)->getType();
        for (unsigned k : e.indices()) {
          if (ct->isStructTy()) { s += ".f" + std::to_string(k); ct = ct->getStructElementType(k); }
          else { s += ".a[" + std::to_string(k) + "]"; ct = ct->getArrayElementType(); }
        }
        if (DL->getTypeAllocSize(t) == 0) return;
        def(I, s);
        return;
      }
      case Instruction::InsertValue: {
        auto& e = cast<InsertValueInst>(I);
        if (!isa<UndefValue>(I.getOperand(0))) def(I, A(0));
        string s = names[&I];
        Type* ct = t;
        for (unsigned k : e.indices()) {
          if (ct->isStructTy()) { s += ".f" + std::to_string(k); ct = ct->getStructElementType(k); }
          else { s += ".a[" + std::to_string(k) + "]"; ct = ct->getArrayElementType(); }
        }
        if (DL->getTypeAllocSize(ct) == 0) return;
        o << "  " << s << " = " << A(1) << ";\n";
        return;
      }
      case Instruction::ExtractElement: {
        def(I, A(0) + ".a[" + A(1) + "]");
        return;
      }
      case Instruction::InsertElement: {
        if (!isa<UndefValue>(I.getOperand(0))) def(I, A(0));
        o << "  " << names[&I] << ".a[" << A(2) << "] = " << A(1) << ";\n";
        return;
      }
      case Instruction::Call: call(cast<CallInst>(I)); return;
      case Instruction::Br: {
        auto& b = cast<BranchInst>(I);
        const BasicBlock* p = I.getParent();
        if (b.isUnconditional()) { jump(p, b.getSuccessor(0)); return; }
        o << "  if (" << nm(b.getCondition()) << ") {\n";
        jump(p, b.getSuccessor(0));
        o << "  } else {\n";
        jump(p, b.getSuccessor(1));
        o << "  }\n";
        return;
      }
      case Instruction::Switch: {
        auto& s = cast<SwitchInst>(I);
        const BasicBlock* p = I.getParent();
        string c = nm(s.getCondition());
        for (auto& k : s.cases()) {
          o << "  if (" << c << " == " << cexpr(k.getCaseValue()) << ") {\n";
          jump(p, k.getCaseSuccessor());
          o << "  }\n";
        }
        jump(p, s.getDefaultDest());
        return;
      }
      case Instruction::Ret:
        if (I.getNumOperands()) o << "  return " << A(0) << ";\n";
        else o << "  return;\n";
        return;
      case Instruction::Unreachable:
        o << "  __CPROVER_assume(0);\n";
        if (!F.getReturnType()->isVoidTy()) {
          string u = "unreach" + std::to_string(undefCounter++);
          locals.push_back(ty(F.getReturnType()) + " " + u + ";");
          o << "  return " << u << ";\n";
        } else o << "  return;\n";
        return;
      case Instruction::Fence: return;
      case Instruction::AtomicRMW: {
        auto& r = cast<AtomicRMWInst>(I);
        string T = ty(t), p = nm(r.getPointerOperand()), v = nm(r.getValOperand());
        def(I, "*(" + T + "*)" + p);
        string n = names[&I], e;
        switch (r.getOperation()) {
          case AtomicRMWInst::Add: e = n + " + " + v; break;
          case AtomicRMWInst::Sub: e = n + " - " + v; break;
          case AtomicRMWInst::Xchg: e = v; break;
          case AtomicRMWInst::Or: e = n + " | " + v; break;
          case AtomicRMWInst::And: e = n + " & " + v; break;
          default: fail("atomicrmw");
        }
        o << "  *(" << T << "*)" << p << " = (" << T << ")(" << e << ");\n";
        return;
      }
      default: fail(string("instruction ") + I.getOpcodeName() + ": " + str(I));
    }
  }

  void run() {
    curLocals = &locals;
    int n = 0, b = 0;
    for (auto& a : F.args()) names[&a] = "a" + std::to_string(a.getArgNo());
    for (auto& BB : F) {
      lab[&BB] = "B" + std::to_string(b++);
      for (auto& I : BB)
        if (!I.getType()->isVoidTy()) {
          names[&I] = "v" + std::to_string(n++);
          if (DL->getTypeAllocSize(I.getType()) == 0 ) {
            string d = ty(I.getType()) + " " + names[&I] + ";";
            locals.push_back(d);
            continue;
          }
          locals.push_back(ty(I.getType()) + " " + names[&I] + ";");
          if (isa<PHINode>(I)) locals.push_back(ty(I.getType()) + " " + names[&I] + "_t;");
        }
    }
    ReversePostOrderTraversal<const Function*> rpo(&F);
    bool first = true;
    for (const BasicBlock* BB : rpo) {
      if (!first || !BB->hasNPredecessors(0)) o << lab[BB] << ": ;\n";
      first = false;
      for (auto& I : *BB) {
        if (isa<PHINode>(I)) continue;
        inst(I);
      }
    }
    body << funcProto(&F, gname(&F)) << " {\n";
    for (auto& l : locals) body << "  " << l << "\n";
    body << o.str();
    body << "}\n";
    curLocals = nullptr;
  }
};

int main(int argc, char** argv) {
  if (argc < 4) { std::cerr << "usage: ir2c in.bc entry out.c\n"; return 2; }
  SMDiagnostic Err;
  M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("ir2c", errs()); return 2; }
  DL = &M->getDataLayout();
  // reachable from entry + global ctors
  Function* entry = M->getFunction(argv[2]);
  if (!entry || entry->isDeclaration()) { std::cerr << "no entry " << argv[2] << "\n"; return 2; }
  std::vector<Function*> ctors;
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors"))
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto& op : ca->operands())
        if (auto* f = dyn_cast<Function>(cast<Constant>(op)->getAggregateElement(1u)->stripPointerCasts()))
          ctors.push_back(f);
  std::set<const GlobalValue*> seen;
  std::vector<const GlobalValue*> work;
  std::function<void(const Value*)> visit = [&](const Value* v) {
    if (auto* g = dyn_cast<GlobalValue>(v)) {
      if (auto* a = dyn_cast<GlobalAlias>(g)) { visit(a->getAliasee()); return; }
      if (seen.insert(g).second) work.push_back(g);
      return;
    }
    if (auto* c = dyn_cast<Constant>(v))
      for (auto& op : c->operands()) visit(op.get());
  };
  visit(entry);
  auto closure = [&] {
    while (!work.empty()) {
      const GlobalValue* g = work.back();
      work.pop_back();
      if (auto* f = dyn_cast<Function>(g)) {
        for (auto& BB : *f)
          for (auto& I : BB)
            for (auto& op : I.operands()) visit(op.get());
      } else if (auto* gv = dyn_cast<GlobalVariable>(g)) {
        if (gv->hasInitializer() && !gv->getName().starts_with("llvm.")) visit(gv->getInitializer());
      }
    }
  };
  closure();
  // Run only the static initialisers that touch a reachable global variable.
  std::set<Function*> usedCtors;
  bool again = true;
  std::function<bool(const Function*, std::set<const Function*>&)> touches = [&](const Function* f, std::set<const Function*>& vis) -> bool {
    if (!vis.insert(f).second) return false;
    for (auto& BB : *f)
      for (auto& I : BB)
        for (auto& op : I.operands()) {
          std::function<bool(const Value*)> chk = [&](const Value* v) -> bool {
            if (auto* gv = dyn_cast<GlobalVariable>(v)) return !gv->isConstant() && seen.count(gv);
            if (auto* fn = dyn_cast<Function>(v)) return !fn->isDeclaration() && touches(fn, vis);
            if (auto* c = dyn_cast<ConstantExpr>(v)) for (auto& o2 : c->operands()) if (chk(o2.get())) return true;
            return false;
          };
          if (chk(op.get())) return true;
        }
    return false;
  };
  while (again) {
    again = false;
    for (auto* f : ctors) {
      if (usedCtors.count(f)) continue;
      std::set<const Function*> vis;
      if (touches(f, vis)) { usedCtors.insert(f); visit(f); closure(); again = true; }
    }
  }

  for (auto& F : *M)
    if (seen.count(&F) && !F.isDeclaration()) { FnEmitter e(F); e.run(); }
  // globals
  for (auto& G : M->globals()) {
    if (!seen.count(&G) || G.getName().starts_with("llvm.")) continue;
    string n = gname(&G);
    Type* t = G.getValueType();
    bool zero = DL->getTypeAllocSize(t) == 0;
    string T = zero ? "char" : ty(t);
    globalDecls << T << " " << n << ";\n";
    if (G.hasInitializer() && !zero) {
      auto* init = G.getInitializer();
      globalDefs << T << " " << n << " = " << (init->isNullValue() || isa<UndefValue>(init) ? (t->isAggregateType() ? zeroInit(t) : string("0")) : constInit(init)) << ";\n";
    } else if (!G.hasInitializer()) {
      externsUsed.insert("data:" + demangle(G.getName().str()));
    }
  }
  for (auto& F : *M)
    if (seen.count(&F) && !F.isIntrinsic() && !F.isDeclaration()) fwdDecls << funcProto(&F, gname(&F)) << ";\n";
    else if (seen.count(&F) && !F.isIntrinsic() && F.isDeclaration() && names.count(&F)) {
      // address taken only
      fwdDecls << funcProto(&F, gname(&F)) << ";\n";
    }
  std::ofstream out(argv[3]);
  out << "#include \"vf_rt.h\"\n" << typeDecls.str();
  for (auto& h : helpers)
    if (h.rfind("PROTO:", 0) == 0) out << h.substr(6) << "\n";
  out << fwdDecls.str() << globalDecls.str() << globalDefs.str();
  out << body.str();
  out << "#line 1 \"vf_main\"\nvoid vf_main(void) {\n";
  for (auto* f : ctors) if (usedCtors.count(f)) out << "  " << gname(f) << "();\n";
  out << "  " << gname(entry) << "();\n}\n";
  int nf = 0;
  for (auto& F : *M) if (seen.count(&F) && !F.isDeclaration()) { nf++; std::cout << "FUNC " << demangle(F.getName().str()) << "\n"; }
  for (auto& e : externsUsed) std::cout << "EXTERN " << e << "\n";
  return 0;
}
