// irdump: loads LLVM IR (textual or bitcode) and writes the resolved program
// (functions, control-flow graph, instructions, byte-resolved address
// arithmetic, initialised globals, debug locations) as JSON for the Python
// analyses in /verif/vf.  It executes nothing.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <string>
using namespace llvm;

static const DataLayout *DL;

static std::string esc(StringRef s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

static void type(raw_ostream &o, Type *t) {
  if (t->isVoidTy()) o << "\"v\"";
  else if (t->isIntegerTy()) o << t->getIntegerBitWidth();
  else if (t->isPointerTy()) o << "\"p\"";
  else if (t->isDoubleTy()) o << "\"d\"";
  else if (t->isFloatTy()) o << "\"f\"";
  else if (t->isX86_FP80Ty()) o << "\"x\"";
  else if (auto *s = dyn_cast<StructType>(t)) {
    o << "[\"s\"";
    auto *L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); ++i) {
      o << ",[" << L->getElementOffset(i) << ",";
      type(o, s->getElementType(i)); o << "]";
    }
    o << "]";
  } else if (auto *a = dyn_cast<ArrayType>(t)) {
    o << "[\"a\"," << a->getNumElements() << "," << DL->getTypeAllocSize(a->getElementType()) << ",";
    type(o, a->getElementType()); o << "]";
  } else o << "\"?\"";
}

static void konst(raw_ostream &o, const Constant *c);

// flattened initialiser: list of [offset,size,value]
static void flat(raw_ostream &o, const Constant *c, uint64_t off, bool &first) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {
    if (!first) o << ","; first = false;
    o << "[" << off << "," << DL->getTypeAllocSize(t).getFixedValue() << ",[\"z\"]]";
    return;
  }
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
    if (!first) o << ","; first = false;
    if (ds->isString()) {
      o << "[" << off << "," << ds->getNumElements() << ",[\"str\"," << esc(ds->getAsString()) << "]]";
      return;
    }
    uint64_t es = DL->getTypeAllocSize(ds->getElementType());
    for (unsigned i = 0; i < ds->getNumElements(); ++i) {
      if (i) o << ",";
      o << "[" << off + i * es << "," << es << ",";
      konst(o, ds->getElementAsConstant(i)); o << "]";
    }
    return;
  }
  if (auto *s = dyn_cast<ConstantStruct>(c)) {
    auto *L = DL->getStructLayout(s->getType());
    for (unsigned i = 0; i < s->getNumOperands(); ++i)
      flat(o, s->getOperand(i), off + L->getElementOffset(i), first);
    return;
  }
  if (auto *a = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType());
    for (unsigned i = 0; i < a->getNumOperands(); ++i)
      flat(o, a->getOperand(i), off + i * es, first);
    return;
  }
  if (!first) o << ","; first = false;
  o << "[" << off << "," << DL->getTypeStoreSize(t).getFixedValue() << ",";
  konst(o, c); o << "]";
}

static void konst(raw_ostream &o, const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s; ci->getValue().toStringUnsigned(s);
    o << "[\"c\"," << ci->getBitWidth() << "," << s << "]";
    return;
  }
  if (isa<ConstantPointerNull>(c)) { o << "[\"c\",64,0]"; return; }
  if (isa<UndefValue>(c)) { o << "[\"u\"]"; return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    if (c->getType()->isDoubleTy()) { double dv = cf->getValueAPF().convertToDouble(); if (dv != dv || dv - dv != 0) o << "[\"d\",\"" << (dv != dv ? "nan" : dv > 0 ? "inf" : "-inf") << "\"]"; else { o << "[\"d\","; o << format("%.17g", dv); o << "]"; } }
    else o << "[\"d\",0]";
    return;
  }
  if (auto *g = dyn_cast<GlobalValue>(c)) {
    if (auto *al = dyn_cast<GlobalAlias>(g)) { konst(o, al->getAliasee()); return; }
    o << "[\"g\"," << esc(g->getName()) << ",0]"; return; }
  if (isa<ConstantAggregateZero>(c)) { o << "[\"zz\","; type(o, c->getType()); o << "]"; return; }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
    o << "[\"agg\"";
    for (auto &op : c->operands()) { o << ","; konst(o, cast<Constant>(op)); }
    o << "]"; return;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0);
      if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
        const Constant *b = ce->getOperand(0);
        if (isa<GlobalValue>(b) && !isa<GlobalAlias>(b)) {
          o << "[\"g\"," << esc(b->getName()) << "," << off.getSExtValue() << "]"; return;
        }
        o << "[\"add\","; konst(o, b); o << "," << off.getSExtValue() << "]"; return;
      }
    }
    if (ce->isCast()) { o << "[\"cast\",\"" << ce->getOpcodeName() << "\","; konst(o, ce->getOperand(0)); o << ","; type(o, ce->getType()); o << "]"; return; }
    o << "[\"ce\",\"" << ce->getOpcodeName() << "\"";
    for (auto &op : ce->operands()) { o << ","; konst(o, cast<Constant>(op)); }
    o << "]"; return;
  }
  o << "[\"?\"]";
}

struct FnDumper {
  raw_ostream &o;
  std::map<const Value *, int> ids;
  std::map<const BasicBlock *, int> bbs;
  FnDumper(raw_ostream &o) : o(o) {}
  void val(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) { konst(o, c); return; }
    auto it = ids.find(v);
    if (it != ids.end()) { o << it->second; return; }
    if (isa<MetadataAsValue>(v)) { o << "[\"u\"]"; return; }
    o << "[\"?\"]";
  }
  void locinfo(const Instruction &I) {
    if (auto &d = I.getDebugLoc()) {
      o << "," << d.getLine();
    } else o << ",0";
  }
  void run(const Function &F) {
    int n = 0;
    for (auto &a : F.args()) ids[&a] = n++;
    int b = 0;
    for (auto &B : F) { bbs[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
    o << "{\"dem\":" << esc(demangle(F.getName().str())) << ",\"decl\":" << (F.isDeclaration() ? "true" : "false");
    o << ",\"ret\":"; type(o, F.getReturnType());
    o << ",\"nr\":" << (F.doesNotReturn() ? "true" : "false");
    o << ",\"nu\":" << (F.doesNotThrow() ? "true" : "false");
    o << ",\"ln\":" << (F.hasLinkOnceLinkage() || F.hasWeakLinkage() ? 1 : 0);
    o << ",\"args\":[";
    bool first = true;
    for (auto &a : F.args()) { if (!first) o << ","; first = false;
      o << "["; type(o, a.getType());
      o << "," << (a.hasStructRetAttr() ? 1 : 0) << "," << (a.hasByValAttr() ? DL->getTypeAllocSize(a.getParamByValType()).getFixedValue() : 0) << "," << (a.onlyReadsMemory()?1:0) << "]"; }
    o << "]";
    if (auto *sp = F.getSubprogram()) {
      std::string d = sp->getDirectory().str(), f = sp->getFilename().str();
      if (!f.empty() && f[0] != '/') f = d + "/" + f;
      o << ",\"file\":" << esc(f) << ",\"line\":" << sp->getLine();
    }
    o << ",\"n\":" << n << ",\"bb\":[";
    bool fb = true;
    for (auto &B : F) {
      if (!fb) o << ",\n"; fb = false;
      o << "[";
      bool fi = true;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
          auto id = ii->getIntrinsicID();
          if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id==Intrinsic::experimental_noalias_scope_decl) continue;
        }
        if (!fi) o << ","; fi = false;
        inst(I);
      }
      o << "]";
    }
    o << "]}";
  }
  void inst(const Instruction &I) {
    int r = I.getType()->isVoidTy() ? -1 : ids[&I];
    o << "[\"" << I.getOpcodeName() << "\"," << r << ",";
    type(o, I.getType());
    locinfo(I);
    if (auto *a = dyn_cast<AllocaInst>(&I)) {
      o << "," << DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue() << ","; val(a->getArraySize());
    } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
      o << ","; val(g->getPointerOperand());
      // list of [scale, index] plus constant
      int64_t c = 0; std::vector<std::pair<int64_t, const Value *>> vs;
      for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
        const Value *idx = gti.getOperand();
        if (StructType *st = gti.getStructTypeOrNull()) {
          c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
        } else {
          int64_t sc = DL->getTypeAllocSize(gti.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(idx)) c += sc * ci->getSExtValue();
          else vs.push_back({sc, idx});
        }
      }
      o << "," << c << ",[";
      for (size_t i = 0; i < vs.size(); ++i) { if (i) o << ","; o << "[" << vs[i].first << ","; val(vs[i].second);
        o << "," << vs[i].second->getType()->getIntegerBitWidth() << "]"; }
      o << "]";
    } else if (auto *l = dyn_cast<LoadInst>(&I)) {
      o << ","; val(l->getPointerOperand());
      o << "," << DL->getTypeStoreSize(l->getType()).getFixedValue();
    } else if (auto *s = dyn_cast<StoreInst>(&I)) {
      o << ","; val(s->getValueOperand()); o << ","; val(s->getPointerOperand());
      o << "," << DL->getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue() << ","; type(o, s->getValueOperand()->getType());
    } else if (auto *br = dyn_cast<BranchInst>(&I)) {
      if (br->isConditional()) { o << ","; val(br->getCondition()); o << "," << bbs[br->getSuccessor(0)] << "," << bbs[br->getSuccessor(1)]; }
      else o << ",null," << bbs[br->getSuccessor(0)];
    } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
      o << ","; val(sw->getCondition()); o << "," << bbs[sw->getDefaultDest()] << ",[";
      bool f = true;
      for (auto c : sw->cases()) { if (!f) o << ","; f = false; SmallString<40> s; c.getCaseValue()->getValue().toStringUnsigned(s); o << "[" << s << "," << bbs[c.getCaseSuccessor()] << "]"; }
      o << "]," << sw->getCondition()->getType()->getIntegerBitWidth();
    } else if (auto *ph = dyn_cast<PHINode>(&I)) {
      o << ",[";
      for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) { if (i) o << ","; o << "[" << bbs[ph->getIncomingBlock(i)] << ","; val(ph->getIncomingValue(i)); o << "]"; }
      o << "]";
    } else if (auto *ic = dyn_cast<CmpInst>(&I)) {
      o << ",\"" << CmpInst::getPredicateName(ic->getPredicate()).str() << "\",";
      val(ic->getOperand(0)); o << ","; val(ic->getOperand(1)); o << ","; type(o, ic->getOperand(0)->getType());
    } else if (auto *cb = dyn_cast<CallBase>(&I)) {
      o << ","; 
      val(cb->getCalledOperand()); o << ",[";
      for (unsigned i = 0; i < cb->arg_size(); ++i) { if (i) o << ","; val(cb->getArgOperand(i)); }
      o << "],[";
      for (unsigned i = 0; i < cb->arg_size(); ++i) { if (i) o << ","; o << (cb->isByValArgument(i) ? (int64_t)DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue() : (int64_t)0); }
      o << "]";
      if (auto *iv = dyn_cast<InvokeInst>(&I)) o << "," << bbs[iv->getNormalDest()] << "," << bbs[iv->getUnwindDest()];
    } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
      o << ","; val(ev->getAggregateOperand()); o << ",[";
      bool f = true; for (unsigned i : ev->indices()) { if (!f) o << ","; f = false; o << i; } o << "]";
    } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
      o << ","; val(iv->getAggregateOperand()); o << ","; val(iv->getInsertedValueOperand()); o << ",[";
      bool f = true; for (unsigned i : iv->indices()) { if (!f) o << ","; f = false; o << i; } o << "]";
    } else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
      o << "," << (lp->isCleanup() ? 1 : 0) << ",[";
      for (unsigned i = 0; i < lp->getNumClauses(); ++i) { if (i) o << ","; konst(o, lp->getClause(i)); } o << "]";
    } else if (auto *c = dyn_cast<CastInst>(&I)) {
      o << ","; val(c->getOperand(0)); o << ","; type(o, c->getOperand(0)->getType());
    } else {
      for (auto &op : I.operands()) { o << ","; val(op); }
    }
    o << "]";
  }
};

int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: irdump in.ll out.json\n"; return 2; }
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  std::error_code ec;
  raw_fd_ostream o(argv[2], ec);
  if (ec) { errs() << ec.message() << "\n"; return 2; }
  o << "{\"functions\":{";
  bool first = true;
  for (auto &F : *M) {
    if (F.getName().starts_with("llvm.dbg")) continue;
    if (!first) o << ",\n"; first = false;
    o << esc(F.getName()) << ":";
    FnDumper(o).run(F);
  }
  o << "},\"globals\":{";
  first = true;
  for (auto &G : M->globals()) {
    if (!first) o << ",\n"; first = false;
    o << esc(G.getName()) << ":{\"dem\":" << esc(demangle(G.getName().str())) << ",\"size\":" << DL->getTypeAllocSize(G.getValueType()).getFixedValue()
      << ",\"const\":" << (G.isConstant() ? "true" : "false") << ",\"ext\":" << (G.hasInitializer() ? "false" : "true") << ",\"init\":[";
    bool f = true;
    if (G.hasInitializer() && G.getName() != "llvm.global_ctors") flat(o, G.getInitializer(), 0, f);
    o << "]}";
  }
  o << "},\"ctors\":[";
  first = true;
  if (auto *g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto *a = dyn_cast<ConstantArray>(g->getInitializer()))
    for (auto &op : a->operands()) { if (!first) o << ","; first = false; o << esc(cast<ConstantStruct>(op)->getOperand(1)->getName()); }
  o << "],\"aliases\":{";
  first = true;
  for (auto &A : M->aliases()) { if (!first) o << ","; first = false; o << esc(A.getName()) << ":" << esc(A.getAliasee()->stripPointerCasts()->getName()); }
  o << "}}\n";
  return 0;
}
