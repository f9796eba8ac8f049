// irx: reads an LLVM bitcode module and writes it out as JSON for the Python
// analyses of /verif/lib.  Options:
//   --inline   mark every module-internal, non-address-taken, non-recursive
//              function always_inline and inline it first, so that results do
//              not depend on how code is cut into static helpers
//   --sroa     run SROA instead of only mem2reg
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static raw_ostream *OS;
static const DataLayout *DL;

static std::string esc(StringRef s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

static std::string tyName(Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) {
    if (st->hasName()) {
      std::string n = st->getName().str();
      for (const char *p : {"struct.", "union.", "enum."}) {
        size_t l = strlen(p);
        if (n.compare(0, l, p) == 0) { n = n.substr(l); break; }
      }
      return n;
    }
    return "{lit}";
  }
  std::string s; raw_string_ostream o(s); t->print(o); return o.str();
}

static std::string diName(const DIType *t) {
  if (!t) return "void";
  if (!t->getName().empty() ) {
    return t->getName().str();
  }
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diName(d->getBaseType()) + "*";
    case dwarf::DW_TAG_const_type: return "const " + diName(d->getBaseType());
    case dwarf::DW_TAG_volatile_type: return "volatile " + diName(d->getBaseType());
    case dwarf::DW_TAG_restrict_type: return diName(d->getBaseType());
    default: return diName(d->getBaseType());
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string n = diName(c->getBaseType());
      for (auto *e : c->getElements())
        if (auto *s = dyn_cast<DISubrange>(e)) {
          n += "[";
          if (auto *ci = dyn_cast_if_present<ConstantInt *>(s->getCount())) n += std::to_string(ci->getSExtValue());
          n += "]";
        }
      return n;
    }
    return "anon";
  }
  if (auto *st = dyn_cast<DISubroutineType>(t)) {
    std::string n = "fn(";
    bool first = true;
    for (auto *e : st->getTypeArray()) { if (!first) n += ","; first = false; n += e ? diName(e) : "void"; }
    return n + ")";
  }
  return "?";
}

static const DIType *strip(const DIType *t) {
  while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type:
    case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_restrict_type:
      t = d->getBaseType(); continue;
    default: return t;
    }
  }
  return t;
}

static std::map<const Value *, int> ID;

static void constant(const Constant *c);

static void operand(const Value *v) {
  if (auto *bb = dyn_cast<BasicBlock>(v)) { *OS << "[\"b\"," << ID[bb] << "]"; return; }
  if (auto *a = dyn_cast<Argument>(v)) { *OS << "[\"a\"," << a->getArgNo() << "]"; return; }
  if (isa<Instruction>(v)) { *OS << "[\"i\"," << ID[v] << "]"; return; }
  if (auto *c = dyn_cast<Constant>(v)) { constant(c); return; }
  if (isa<MetadataAsValue>(v)) { *OS << "[\"m\"]"; return; }
  if (isa<InlineAsm>(v)) { *OS << "[\"asm\"]"; return; }
  *OS << "[\"?\"]";
}

static void gepSteps(const GEPOperator *g) {
  // list of ["f",struct,idx,byteoff] / ["x",operand,elemsize,count|-1]
  *OS << "[";
  bool first = true;
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    if (!first) *OS << ","; first = false;
    if (StructType *st = it.getStructTypeOrNull()) {
      unsigned k = cast<ConstantInt>(it.getOperand())->getZExtValue();
      *OS << "[\"f\"," << esc(tyName(st)) << "," << k << "," << DL->getStructLayout(st)->getElementOffset(k).getFixedValue() << "]";
    } else {
      long cnt = -1;
      // number of elements, when the indexed type is an array
      if (it != gep_type_begin(g)) {
        auto p = gep_type_begin(g); Type *cur = g->getSourceElementType();
        for (auto q = gep_type_begin(g); q != it; ++q) {
          if (q == gep_type_begin(g)) { cur = g->getSourceElementType(); continue; }
          if (auto *st = dyn_cast<StructType>(cur)) cur = st->getElementType(cast<ConstantInt>(q.getOperand())->getZExtValue());
          else if (auto *at = dyn_cast<ArrayType>(cur)) cur = at->getElementType();
        }
        (void)p;
        if (auto *at = dyn_cast<ArrayType>(cur)) cnt = at->getNumElements();
      }
      *OS << "[\"x\","; operand(it.getOperand());
      *OS << "," << DL->getTypeAllocSize(it.getIndexedType()).getFixedValue() << "," << cnt << "]";
    }
  }
  *OS << "]";
}

static void constant(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s; ci->getValue().toString(s, 10, true);
    *OS << "[\"c\",\"" << s << "\"," << ci->getBitWidth() << "]"; return;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    SmallString<40> s; cf->getValueAPF().toString(s);
    *OS << "[\"fp\"," << esc(s) << "]"; return;
  }
  if (isa<ConstantPointerNull>(c)) { *OS << "[\"n\"]"; return; }
  if (isa<UndefValue>(c)) { *OS << "[\"u\"]"; return; }
  if (auto *f = dyn_cast<Function>(c)) { *OS << "[\"F\"," << esc(f->getName()) << "]"; return; }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) { constant(ga->getAliasee()); return; }
  if (auto *g = dyn_cast<GlobalVariable>(c)) { *OS << "[\"g\"," << esc(g->getName()) << "]"; return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) {
      *OS << "[\"e\",\"getelementptr\",["; operand(g->getPointerOperand());
      *OS << "],"; gepSteps(g);
      APInt off(64, 0);
      if (g->accumulateConstantOffset(*DL, off)) *OS << "," << off.getSExtValue();
      *OS << "]"; return;
    }
    *OS << "[\"e\"," << esc(ce->getOpcodeName()) << ",[";
    for (unsigned i = 0; i < ce->getNumOperands(); ++i) { if (i) *OS << ","; operand(ce->getOperand(i)); }
    *OS << "],[],0]"; return;
  }
  if (isa<ConstantAggregateZero>(c)) { *OS << "[\"z\"]"; return; }
  *OS << "[\"k\"]";
}

// flatten a global initializer to [offset, size, const]
static void flatten(const Constant *c, uint64_t off, bool &first, unsigned &budget) {
  if (budget == 0) return;
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = cd->getElementByteSize();
    if (cd->isString() || es == 1) {
      --budget;
      if (!first) *OS << ","; first = false;
      *OS << "[" << off << "," << cd->getNumElements() << ",[\"s\"," << esc(cd->getRawDataValues()) << "]]"; return;
    }
    for (unsigned i = 0; i < cd->getNumElements(); ++i) flatten(cd->getElementAsConstant(i), off + i * es, first, budget);
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) flatten(ca->getOperand(i), off + i * es, first, budget);
    return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); ++i) flatten(cs->getOperand(i), off + sl->getElementOffset(i), first, budget);
    return;
  }
  if (c->isNullValue()) return;
  --budget;
  if (!first) *OS << ","; first = false;
  *OS << "[" << off << "," << DL->getTypeStoreSize(c->getType()) << ","; constant(c); *OS << "]";
}

static void loc(const DebugLoc &dl) {
  if (!dl) { *OS << "null"; return; }
  auto *s = dl->getScope()->getSubprogram();
  *OS << "[" << esc(dl->getFilename()) << "," << dl.getLine() << "," << esc(s ? s->getName() : "") << "," << (dl->getInlinedAt() ? 1 : 0) << "]";
}

static void prepareInline(Module &M, unsigned lim) {
  std::set<Function *> rec;
  CallGraph cg(M);
  for (auto it = scc_begin(&cg); !it.isAtEnd(); ++it)
    if (it.hasCycle()) for (auto *n : *it) if (n->getFunction()) rec.insert(n->getFunction());
  for (Function &F : M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    if (!F.hasLocalLinkage()) continue;
    if (rec.count(&F) || F.isVarArg()) continue;
    bool taken = F.hasAddressTaken();
    if (taken) continue;
    if (lim && F.getInstructionCount() > lim) continue;
    F.removeFnAttr(Attribute::NoInline);
    F.addFnAttr(Attribute::AlwaysInline);
  }
}

int main(int argc, char **argv) {
  bool inl = false, sroa = false, di = false; std::string in, out; std::set<std::string> force; unsigned lim = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--inline") inl = true;
    else if (a == "--sroa") sroa = true;
    else if (a == "--di") di = true;
    else if (a.rfind("--limit=", 0) == 0) lim = atoi(a.c_str() + 8);
    else if (a.rfind("--force=", 0) == 0) force.insert(a.substr(8));
    else if (in.empty()) in = a; else out = a;
  }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(in, err, ctx);
  if (!M) { err.print("irx", errs()); return 2; }
  DL = &M->getDataLayout();
  {
    for (auto &n : force) if (Function *f = M->getFunction(n)) if (!f->isDeclaration()) {
      f->removeFnAttr(Attribute::NoInline); f->addFnAttr(Attribute::AlwaysInline);
    }
    if (inl) prepareInline(*M, lim);
    PassBuilder pb; LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
    pb.crossRegisterProxies(lam, fam, cam, mam);
    ModulePassManager mpm;
    std::string pipe = std::string((inl || !force.empty()) ? "always-inline," : "") + (sroa ? "function(sroa<modify-cfg>)" : "function(mem2reg)");
    if (auto e = pb.parsePassPipeline(mpm, pipe)) { errs() << "pipeline: " << toString(std::move(e)) << "\n"; return 2; }
    mpm.run(*M, mam);
  }
  std::error_code ec; raw_fd_ostream fo(out, ec);
  if (ec) { errs() << ec.message() << "\n"; return 2; }
  OS = &fo;
  *OS << "{\n\"layouts\":{";
  bool first = true;
  // LLVM struct layouts
  for (StructType *st : M->getIdentifiedStructTypes()) {
    if (st->isOpaque()) continue;
    if (!first) *OS << ",\n"; first = false;
    auto *sl = DL->getStructLayout(st);
    *OS << esc(tyName(st)) << ":{\"size\":" << sl->getSizeInBytes().getFixedValue() << ",\"f\":[";
    for (unsigned i = 0; i < st->getNumElements(); ++i) {
      if (i) *OS << ",";
      *OS << "[" << sl->getElementOffset(i).getFixedValue() << "," << esc(tyName(st->getElementType(i))) << "," << DL->getTypeAllocSize(st->getElementType(i)).getFixedValue() << "]";
    }
    *OS << "]}";
  }
  *OS << "},\n\"ditypes\":{";
  DebugInfoFinder df; df.processModule(*M);
  first = true; std::set<std::string> seen;
  auto comp = [&](const std::string &name, const DICompositeType *c) {
    if (name.empty() || seen.count(name) || c->isForwardDecl()) return;
    seen.insert(name);
    if (!first) *OS << ",\n"; first = false;
    bool u = c->getTag() == dwarf::DW_TAG_union_type;
    *OS << esc(name) << ":{\"union\":" << (u ? "true" : "false") << ",\"size\":" << c->getSizeInBits() / 8 << ",\"m\":[";
    bool f1 = true;
    for (auto *e : c->getElements()) {
      auto *d = dyn_cast<DIDerivedType>(e); if (!d || d->getTag() != dwarf::DW_TAG_member) continue;
      if (!f1) *OS << ","; f1 = false;
      const DIType *bt = strip(d->getBaseType());
      std::string k = "o";
      if (auto *cc = dyn_cast_or_null<DICompositeType>(bt)) k = cc->getTag() == dwarf::DW_TAG_union_type ? "U" : cc->getTag() == dwarf::DW_TAG_structure_type ? "S" : cc->getTag() == dwarf::DW_TAG_enumeration_type ? "E" : "A";
      else if (auto *dd = dyn_cast_or_null<DIDerivedType>(bt)) { if (dd->getTag() == dwarf::DW_TAG_pointer_type) k = "P"; }
      std::string under = k == "S" || k == "U" || k == "E" ? bt->getName().str() : "";
      *OS << "[" << esc(d->getName()) << "," << d->getOffsetInBits() / 8 << "," << d->getSizeInBits() << "," << esc(diName(d->getBaseType())) << "," << esc(k) << "," << esc(under) << "," << (d->isBitField() ? 1 : 0) << "]";
    }
    *OS << "]}";
  };
  for (auto *t : df.types()) {
    if (auto *c = dyn_cast<DICompositeType>(t)) {
      if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) comp(c->getName().str(), c);
    } else if (auto *d = dyn_cast<DIDerivedType>(t)) {
      if (d->getTag() == dwarf::DW_TAG_typedef)
        if (auto *c = dyn_cast_or_null<DICompositeType>(strip(d)))
          if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) comp(d->getName().str(), c);
    }
  }
  *OS << "},\n\"enums\":{";
  first = true; seen.clear();
  auto en = [&](const std::string &name, const DICompositeType *c) {
    if (name.empty() || seen.count(name) || c->isForwardDecl()) return; seen.insert(name);
    if (!first) *OS << ",\n"; first = false;
    *OS << esc(name) << ":{";
    bool f1 = true;
    for (auto *e : c->getElements()) if (auto *x = dyn_cast<DIEnumerator>(e)) { if (!f1) *OS << ","; f1 = false; SmallString<40> s; x->getValue().toString(s, 10, !x->isUnsigned()); *OS << esc(x->getName()) << ":" << s; }
    *OS << "}";
  };
  for (auto *t : df.types()) {
    if (auto *c = dyn_cast<DICompositeType>(t)) { if (c->getTag() == dwarf::DW_TAG_enumeration_type) en(c->getName().str(), c); }
    else if (auto *d = dyn_cast<DIDerivedType>(t)) { if (d->getTag() == dwarf::DW_TAG_typedef) if (auto *c = dyn_cast_or_null<DICompositeType>(strip(d))) if (c->getTag() == dwarf::DW_TAG_enumeration_type) en(d->getName().str(), c); }
  }
  if (di) {
    // the type graph of the debug information: [id, tag, name, size, offset, base, encoding, flags, elements]
    std::map<const DINode *, int> num; std::vector<const DIType *> todo;
    auto id = [&](const DIType *t) -> int { if (!t) return -1; auto it = num.find(t); if (it != num.end()) return it->second; int n = num.size(); num[t] = n; todo.push_back(t); return n; };
    for (auto *t : df.types()) id(t);
    std::map<const GlobalVariable *, int> gt;
    for (GlobalVariable &g : M->globals()) { SmallVector<DIGlobalVariableExpression *, 1> dv; g.getDebugInfo(dv); if (!dv.empty()) id(dv[0]->getVariable()->getType()); }
    *OS << "},\n\"di\":[";
    for (size_t k = 0; k < todo.size(); ++k) {
      const DIType *t = todo[k];
      if (k) *OS << ",\n";
      *OS << "{\"n\":" << esc(t->getName()) << ",\"sz\":" << t->getSizeInBits() << ",\"off\":" << t->getOffsetInBits() << ",\"fl\":" << (unsigned)t->getFlags() << ",\"bf\":" << (t->isBitField() ? 1 : 0) << ",\"fwd\":" << (t->isForwardDecl() ? 1 : 0) << ",\"tag\":" << esc(dwarf::TagString(t->getTag()));
      if (auto *b = dyn_cast<DIBasicType>(t)) *OS << ",\"enc\":" << esc(dwarf::AttributeEncodingString(b->getEncoding()));
      if (auto *d = dyn_cast<DIDerivedType>(t)) *OS << ",\"b\":" << id(d->getBaseType());
      if (auto *c = dyn_cast<DICompositeType>(t)) {
        *OS << ",\"b\":" << id(c->getBaseType()) << ",\"e\":[";
        bool f1 = true;
        for (auto *e : c->getElements()) {
          if (!f1) *OS << ","; f1 = false;
          if (auto *s = dyn_cast<DISubrange>(e)) { auto n = s->getCount(); auto *ci = n ? dyn_cast_if_present<ConstantInt *>(n) : nullptr; *OS << "[\"r\"," << (ci ? ci->getSExtValue() : -1) << "]"; }
          else if (auto *x = dyn_cast<DIEnumerator>(e)) { SmallString<40> v; x->getValue().toString(v, 10, !x->isUnsigned()); *OS << "[\"e\"," << esc(x->getName()) << "," << v << "]"; }
          else if (auto *m = dyn_cast<DIType>(e)) *OS << "[\"m\"," << id(m) << "]";
          else *OS << "[\"?\"]";
        }
        *OS << "]";
      }
      if (auto *s = dyn_cast<DISubroutineType>(t)) { *OS << ",\"a\":["; bool f1 = true; for (auto *e : s->getTypeArray()) { if (!f1) *OS << ","; f1 = false; *OS << id(e); } *OS << "]"; }
      *OS << "}";
    }
    *OS << "],\n\"diglobals\":{";
    bool f0 = true;
    for (GlobalVariable &g : M->globals()) { SmallVector<DIGlobalVariableExpression *, 1> dv; g.getDebugInfo(dv); if (!dv.empty()) { if (!f0) *OS << ","; f0 = false; *OS << esc(g.getName()) << ":" << id(dv[0]->getVariable()->getType()); } }
    *OS << "},\n\"globals\":{";
  } else
  *OS << "},\n\"globals\":{";
  first = true;
  for (GlobalVariable &g : M->globals()) {
    if (!first) *OS << ",\n"; first = false;
    *OS << esc(g.getName()) << ":{\"decl\":" << (g.isDeclaration() ? 1 : 0) << ",\"local\":" << (g.hasLocalLinkage() ? 1 : 0) << ",\"const\":" << (g.isConstant() ? 1 : 0) << ",\"tls\":" << (g.isThreadLocal() ? 1 : 0)
        << ",\"ty\":" << esc(tyName(g.getValueType())) << ",\"size\":" << DL->getTypeAllocSize(g.getValueType()).getFixedValue();
    SmallVector<DIGlobalVariableExpression *, 1> dv; g.getDebugInfo(dv);
    if (!dv.empty()) {
      auto *v = dv[0]->getVariable();
      auto *sp = dyn_cast_or_null<DILocalScope>(v->getScope());
      *OS << ",\"dn\":" << esc(v->getName()) << ",\"dt\":" << esc(diName(v->getType())) << ",\"file\":" << esc(v->getFilename()) << ",\"line\":" << v->getLine() << ",\"fn\":" << esc(sp ? sp->getSubprogram()->getName() : "");
    }
    if (g.hasInitializer()) { *OS << ",\"init\":["; bool f1 = true; unsigned b = 20000; flatten(g.getInitializer(), 0, f1, b); *OS << "]"; }
    *OS << "}";
  }
  *OS << "},\n\"functions\":{";
  first = true;
  for (Function &F : *M) {
    if (!first) *OS << ",\n"; first = false;
    *OS << esc(F.getName()) << ":{\"decl\":" << (F.isDeclaration() ? 1 : 0) << ",\"local\":" << (F.hasLocalLinkage() ? 1 : 0) << ",\"vararg\":" << (F.isVarArg() ? 1 : 0) << ",\"taken\":" << (F.hasAddressTaken() ? 1 : 0) << ",\"nargs\":" << F.arg_size() << ",\"rty\":" << esc(tyName(F.getReturnType()))
        << ",\"noret\":" << (F.doesNotReturn() ? 1 : 0);
    *OS << ",\"aty\":["; { bool f1 = true; for (auto &a : F.args()) { if (!f1) *OS << ","; f1 = false; *OS << esc(tyName(a.getType())); } } *OS << "]";
    *OS << ",\"asp\":["; { bool f1 = true; for (auto &a : F.args()) { if (!f1) *OS << ","; f1 = false; *OS << (a.hasStructRetAttr() ? 1 : a.hasByValAttr() ? 2 : 0); } } *OS << "]";
    if (auto *sp = F.getSubprogram()) {
      *OS << ",\"file\":" << esc(sp->getFilename()) << ",\"line\":" << sp->getLine() << ",\"ditypes\":[";
      bool f1 = true;
      if (auto *t = sp->getType()) for (auto *e : t->getTypeArray()) { if (!f1) *OS << ","; f1 = false; *OS << esc(e ? diName(e) : "void"); }
      *OS << "],\"params\":[";
      f1 = true;
      for (auto *n : sp->getRetainedNodes()) if (auto *lv = dyn_cast<DILocalVariable>(n)) if (lv->isParameter()) { if (!f1) *OS << ","; f1 = false; *OS << "[" << lv->getArg() << "," << esc(lv->getName()) << "," << esc(diName(lv->getType())) << "]"; }
      *OS << "]";
    }
    if (!F.isDeclaration()) {
      ID.clear(); int n = 0, b = 0;
      for (auto &BB : F) { ID[&BB] = b++; for (auto &I : BB) ID[&I] = n++; }
      *OS << ",\"vars\":[";
      bool f1 = true;
      for (auto &BB : F) for (auto &I : BB) if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
        if (!dv->getVariable()) continue;
        Value *v = dv->getNumVariableLocationOps() ? dv->getVariableLocationOp(0) : nullptr;
        if (!v) continue;
        if (!f1) *OS << ","; f1 = false;
        *OS << "["; operand(v); *OS << "," << esc(dv->getVariable()->getName()) << "," << esc(diName(dv->getVariable()->getType())) << "," << (isa<DbgDeclareInst>(dv) ? 1 : 0) << "," << dv->getVariable()->getArg() << "]";
      }
      *OS << "],\"blocks\":[";
      bool fb = true;
      for (auto &BB : F) {
        if (!fb) *OS << ",\n"; fb = false;
        *OS << "[";
        bool fi = true;
        for (auto &I : BB) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          if (!fi) *OS << ","; fi = false;
          *OS << "{\"i\":" << ID[&I] << ",\"o\":" << esc(I.getOpcodeName()) << ",\"t\":" << esc(tyName(I.getType())) << ",\"l\":"; loc(I.getDebugLoc());
          *OS << ",\"a\":[";
          bool fo2 = true;
          if (auto *cb = dyn_cast<CallBase>(&I)) {
            for (auto &u : cb->args()) { if (!fo2) *OS << ","; fo2 = false; operand(u.get()); }
          } else if (auto *p = dyn_cast<PHINode>(&I)) {
            for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) { if (!fo2) *OS << ","; fo2 = false; *OS << "["; operand(p->getIncomingValue(k)); *OS << "," << ID[p->getIncomingBlock(k)] << "]"; }
          } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
            operand(g->getPointerOperand());
          } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            operand(sw->getCondition());
          } else if (auto *br = dyn_cast<BranchInst>(&I)) {
            if (br->isConditional()) operand(br->getCondition());
          } else for (auto &u : I.operands()) { if (!fo2) *OS << ","; fo2 = false; operand(u.get()); }
          *OS << "]";
          if (auto *cb = dyn_cast<CallBase>(&I)) {
            *OS << ",\"c\":"; operand(cb->getCalledOperand());
            if (cb->doesNotReturn()) *OS << ",\"noret\":1";
            *OS << ",\"fty\":" << esc(tyName(cb->getFunctionType()));
            *OS << ",\"pt\":["; bool f2 = true; for (auto &u : cb->args()) { if (!f2) *OS << ","; f2 = false; *OS << esc(tyName(u->getType())); } *OS << "]";
            *OS << ",\"sp\":["; f2 = true; for (unsigned k = 0; k < cb->arg_size(); ++k) { if (!f2) *OS << ","; f2 = false; *OS << (cb->paramHasAttr(k, Attribute::StructRet) ? 1 : cb->paramHasAttr(k, Attribute::ByVal) ? 2 : 0); } *OS << "]";
          }
          if (auto *g = dyn_cast<GEPOperator>(&I)) {
            *OS << ",\"g\":"; gepSteps(g);
            APInt off(64, 0); if (g->accumulateConstantOffset(*DL, off)) *OS << ",\"off\":" << off.getSExtValue();
          }
          if (auto *c = dyn_cast<CmpInst>(&I)) *OS << ",\"p\":" << esc(CmpInst::getPredicateName(c->getPredicate())) << ",\"ot\":" << esc(tyName(c->getOperand(0)->getType()));
          if (auto *al = dyn_cast<AllocaInst>(&I)) { *OS << ",\"at\":" << esc(tyName(al->getAllocatedType())); auto sz = al->getAllocationSize(*DL); if (sz) *OS << ",\"sz\":" << sz->getFixedValue(); }
          if (isa<StoreInst>(I) ) *OS << ",\"st\":" << esc(tyName(I.getOperand(0)->getType())) << ",\"sz\":" << DL->getTypeStoreSize(I.getOperand(0)->getType()).getFixedValue();
          if (isa<LoadInst>(I)) *OS << ",\"sz\":" << DL->getTypeStoreSize(I.getType()).getFixedValue();
          if (auto *st = dyn_cast<StoreInst>(&I)) { if (st->isAtomic()) *OS << ",\"at\":1"; }
          if (auto *ld = dyn_cast<LoadInst>(&I)) { if (ld->isAtomic()) *OS << ",\"at\":1"; }
          if (isa<CastInst>(I)) *OS << ",\"ft\":" << esc(tyName(I.getOperand(0)->getType()));
          if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) *OS << ",\"nsw\":1"; }
          if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { *OS << ",\"ix\":["; bool f2 = true; for (unsigned k : ev->indices()) { if (!f2) *OS << ","; f2 = false; *OS << k; } *OS << "]"; }
          if (auto *iv = dyn_cast<InsertValueInst>(&I)) { *OS << ",\"ix\":["; bool f2 = true; for (unsigned k : iv->indices()) { if (!f2) *OS << ","; f2 = false; *OS << k; } *OS << "]"; }
          if (I.isTerminator()) {
            *OS << ",\"s\":[";
            bool f2 = true;
            if (auto *sw = dyn_cast<SwitchInst>(&I)) {
              *OS << ID[sw->getDefaultDest()];
              *OS << "],\"cases\":[";
              for (auto &cs : sw->cases()) { if (!f2) *OS << ","; f2 = false; SmallString<40> s; cs.getCaseValue()->getValue().toString(s, 10, true); *OS << "[" << s << "," << ID[cs.getCaseSuccessor()] << "]"; }
            } else for (unsigned k = 0; k < I.getNumSuccessors(); ++k) { if (!f2) *OS << ","; f2 = false; *OS << ID[I.getSuccessor(k)]; }
            *OS << "]";
          }
          *OS << "}";
        }
        *OS << "]";
      }
      *OS << "]";
    }
    *OS << "}";
  }
  *OS << "},\n\"aliases\":{";
  first = true;
  for (auto &a : M->aliases()) { if (!first) *OS << ","; first = false; *OS << esc(a.getName()) << ":"; constant(a.getAliasee()); }
  *OS << "}}\n";
  return 0;
}
