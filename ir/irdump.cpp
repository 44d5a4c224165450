// irdump: print an LLVM module (after mem2reg) as JSON for the analyser.
// usage: irdump in.bc out.json
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
using namespace llvm;

static const DataLayout *DL;
static std::map<const DIType *, int> tyIds;
static std::vector<const DIType *> tyList;

static int tyId(const DIType *t) {
  if (!t) return -1;
  auto it = tyIds.find(t);
  if (it != tyIds.end()) return it->second;
  int id = tyList.size();
  tyIds[t] = id;
  tyList.push_back(t);
  return id;
}

static json::Value wd(Type *t) {
  if (t->isIntegerTy()) return (int64_t)t->getIntegerBitWidth();
  if (t->isPointerTy()) return "p";
  if (t->isVoidTy()) return "v";
  if (t->isFloatingPointTy()) return "f";
  return "agg";
}

static std::map<const Value *, int> ids;

static json::Value operand(const Value *v) {
  auto it = ids.find(v);
  if (it != ids.end()) return json::Array{"v", it->second};
  if (auto *c = dyn_cast<ConstantInt>(v)) {
    SmallString<40> s;
    c->getValue().toStringSigned(s);
    return json::Array{"i", std::string(s.str()), (int64_t)c->getBitWidth()};
  }
  if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
  if (isa<UndefValue>(v)) return json::Array{"u"};
  if (auto *f = dyn_cast<Function>(v)) return json::Array{"f", f->getName().str()};
  if (auto *g = dyn_cast<GlobalVariable>(v)) return json::Array{"g", g->getName().str()};
  if (auto *g = dyn_cast<GEPOperator>(v)) {
    APInt off(64, 0);
    if (g->accumulateConstantOffset(*DL, off))
      return json::Array{"ce", operand(g->getPointerOperand()), off.getSExtValue()};
  }
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (ce->getOpcode() == Instruction::IntToPtr)
      if (auto *c = dyn_cast<ConstantInt>(ce->getOperand(0)))
        return json::Array{"ip", c->getSExtValue()};
  }
  if (auto *c = dyn_cast<ConstantFP>(v)) return json::Array{"d"};
  return json::Array{"x"};
}

static const char *kindName(const DIType *t) {
  switch (t->getTag()) {
  case dwarf::DW_TAG_structure_type: return "struct";
  case dwarf::DW_TAG_union_type: return "union";
  case dwarf::DW_TAG_array_type: return "array";
  case dwarf::DW_TAG_pointer_type: return "ptr";
  case dwarf::DW_TAG_typedef: return "typedef";
  case dwarf::DW_TAG_const_type: return "const";
  case dwarf::DW_TAG_volatile_type: return "volatile";
  case dwarf::DW_TAG_base_type: return "base";
  case dwarf::DW_TAG_enumeration_type: return "enum";
  case dwarf::DW_TAG_subroutine_type: return "func";
  default: return "other";
  }
}

static json::Value dumpType(const DIType *t) {
  json::Object o;
  o["k"] = kindName(t);
  o["name"] = t->getName().str();
  o["size"] = (int64_t)(t->getSizeInBits() / 8);
  if (auto *b = dyn_cast<DIBasicType>(t)) {
    o["signed"] = b->getSignedness() == DIBasicType::Signedness::Signed;
  } else if (auto *d = dyn_cast<DIDerivedType>(t)) {
    o["base"] = tyId(d->getBaseType());
  } else if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      o["base"] = tyId(c->getBaseType());
      json::Array dims;
      for (auto *e : c->getElements())
        if (auto *sr = dyn_cast<DISubrange>(e)) {
          int64_t n = -1;
          if (auto *ci = dyn_cast_if_present<ConstantInt *>(sr->getCount())) n = ci->getSExtValue();
          dims.push_back(n);
        }
      o["dims"] = std::move(dims);
    } else if (c->getTag() != dwarf::DW_TAG_enumeration_type) {
      json::Array ms;
      for (auto *e : c->getElements())
        if (auto *m = dyn_cast<DIDerivedType>(e))
          if (m->getTag() == dwarf::DW_TAG_member)
            ms.push_back(json::Object{{"name", m->getName().str()},
                                      {"off", (int64_t)(m->getOffsetInBits() / 8)},
                                      {"size", (int64_t)(m->getSizeInBits() / 8)},
                                      {"ty", tyId(m->getBaseType())}});
      o["members"] = std::move(ms);
    } else {
      json::Array ms;
      for (auto *e : c->getElements())
        if (auto *en = dyn_cast<DIEnumerator>(e))
          ms.push_back(json::Object{{"name", en->getName().str()}, {"val", en->getValue().getSExtValue()}});
      o["enum"] = std::move(ms);
    }
  }
  return std::move(o);
}

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    FunctionPassManager FPM;
    FPM.addPass(PromotePass());
    ModulePassManager MPM;
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(*M, MAM);
  }
  DL = &M->getDataLayout();
  DebugInfoFinder DIF;
  DIF.processModule(*M);
  for (auto *t : DIF.types()) tyId(t);

  json::Object root;
  json::Object funcs;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    ids.clear();
    int n = 0;
    json::Object fo;
    json::Array args;
    for (auto &A : F.args()) {
      ids[&A] = n;
      args.push_back(json::Object{{"id", n}, {"name", A.getName().str()}, {"w", wd(A.getType())}});
      n++;
    }
    std::map<const BasicBlock *, int> bb;
    int nb = 0;
    std::map<const Value *, std::string> vnames;
    for (auto &B : F) {
      bb[&B] = nb++;
      for (auto &I : B) {
        if (auto *dv = dyn_cast<DbgValueInst>(&I)) {
          if (auto *v = dv->getValue()) vnames[v] = dv->getVariable()->getName().str();
          continue;
        }
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (!I.getType()->isVoidTy()) ids[&I] = n++;
      }
    }
    fo["args"] = std::move(args);
    fo["internal"] = F.hasLocalLinkage();
    fo["ret"] = wd(F.getReturnType());
    fo["vararg"] = F.isVarArg();
    if (auto *sp = F.getSubprogram()) {
      fo["file"] = sp->getFilename().str();
      fo["line"] = (int64_t)sp->getLine();
      json::Array pt;
      if (sp->getType())
        for (auto *t : sp->getType()->getTypeArray()) pt.push_back(tyId(t));
      fo["ptypes"] = std::move(pt);
    }
    json::Array blocks;
    for (auto &B : F) {
      json::Array ins;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        json::Object o;
        o["o"] = I.getOpcodeName();
        if (!I.getType()->isVoidTy()) {
          o["d"] = ids[&I];
          auto it = vnames.find(&I);
          if (it != vnames.end()) o["nm"] = it->second;
        }
        o["w"] = wd(I.getType());
        if (auto &L = I.getDebugLoc()) {
          auto *sc = cast<DIScope>(L->getScope());
          o["l"] = json::Array{sc->getFilename().str(), (int64_t)L->getLine()};
        }
        json::Array a;
        if (auto *x = dyn_cast<AllocaInst>(&I)) {
          o["size"] = (int64_t)DL->getTypeAllocSize(x->getAllocatedType()).getFixedValue();
          o["nm"] = x->getName().str();
          a.push_back(operand(x->getArraySize()));
        } else if (auto *x = dyn_cast<LoadInst>(&I)) {
          a.push_back(operand(x->getPointerOperand()));
          o["size"] = (int64_t)DL->getTypeStoreSize(x->getType()).getFixedValue();
          if (x->isVolatile()) o["vol"] = true;
        } else if (auto *x = dyn_cast<StoreInst>(&I)) {
          a.push_back(operand(x->getValueOperand()));
          a.push_back(operand(x->getPointerOperand()));
          o["size"] = (int64_t)DL->getTypeStoreSize(x->getValueOperand()->getType()).getFixedValue();
          o["vw"] = wd(x->getValueOperand()->getType());
          if (x->isVolatile()) o["vol"] = true;
        } else if (auto *x = dyn_cast<GetElementPtrInst>(&I)) {
          MapVector<Value *, APInt> vo;
          APInt c(64, 0);
          auto *g = cast<GEPOperator>(x);
          a.push_back(operand(x->getPointerOperand()));
          if (g->collectOffset(*DL, 64, vo, c)) {
            o["c"] = c.getSExtValue();
            json::Array vs;
            for (auto &kv : vo) vs.push_back(json::Array{operand(kv.first), kv.second.getSExtValue(), (int64_t)kv.first->getType()->getIntegerBitWidth()});
            o["vs"] = std::move(vs);
          } else o["bad"] = true;
        } else if (auto *x = dyn_cast<ICmpInst>(&I)) {
          o["p"] = CmpInst::getPredicateName(x->getPredicate()).str();
          a.push_back(operand(x->getOperand(0)));
          a.push_back(operand(x->getOperand(1)));
          o["vw"] = wd(x->getOperand(0)->getType());
        } else if (auto *x = dyn_cast<BranchInst>(&I)) {
          if (x->isConditional()) a.push_back(operand(x->getCondition()));
          json::Array s;
          for (unsigned i = 0; i < x->getNumSuccessors(); i++) s.push_back(bb[x->getSuccessor(i)]);
          o["s"] = std::move(s);
        } else if (auto *x = dyn_cast<SwitchInst>(&I)) {
          a.push_back(operand(x->getCondition()));
          json::Array cs;
          for (auto &c : x->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bb[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs);
          o["def"] = bb[x->getDefaultDest()];
        } else if (auto *x = dyn_cast<PHINode>(&I)) {
          json::Array in;
          for (unsigned i = 0; i < x->getNumIncomingValues(); i++)
            in.push_back(json::Array{operand(x->getIncomingValue(i)), bb[x->getIncomingBlock(i)]});
          o["in"] = std::move(in);
        } else if (auto *x = dyn_cast<CallBase>(&I)) {
          o["o"] = "call";
          o["callee"] = operand(x->getCalledOperand());
          for (auto &op : x->args()) a.push_back(operand(op.get()));
          json::Array aw;
          for (auto &op : x->args()) aw.push_back(wd(op->getType()));
          o["aw"] = std::move(aw);
          if (x->doesNotReturn()) o["nr"] = true;
        } else {
          for (auto &op : I.operands())
            if (!isa<BasicBlock>(op.get())) a.push_back(operand(op.get()));
          if (I.getNumOperands() && !isa<BasicBlock>(I.getOperand(0))) o["vw"] = wd(I.getOperand(0)->getType());
        }
        o["a"] = std::move(a);
        ins.push_back(std::move(o));
      }
      blocks.push_back(std::move(ins));
    }
    fo["blocks"] = std::move(blocks);
    fo["nvals"] = n;
    funcs[F.getName().str()] = std::move(fo);
  }
  root["funcs"] = std::move(funcs);
  json::Object globs;
  for (auto &G : M->globals()) {
    json::Object o;
    o["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType()).getFixedValue();
    o["const"] = G.isConstant();
    o["internal"] = G.hasLocalLinkage();
    if (G.hasInitializer()) {
      if (auto *c = dyn_cast<ConstantDataArray>(G.getInitializer())) {
        if (c->isString()) {
          json::Array b;
          for (unsigned char ch : c->getAsString()) b.push_back((int64_t)ch);
          o["bytes"] = std::move(b);
        } else if (c->getElementType()->isIntegerTy()) {
          json::Array b;
          for (unsigned i = 0; i < c->getNumElements(); i++) b.push_back(c->getElementAsAPInt(i).getSExtValue());
          o["ints"] = std::move(b);
          o["esz"] = (int64_t)c->getElementByteSize();
        }
      } else if (G.getInitializer()->isNullValue()) o["zero"] = true;
      else if (auto *c = dyn_cast<ConstantStruct>(G.getInitializer())) {
        auto *SL = DL->getStructLayout(c->getType());
        json::Array fl;
        for (unsigned i = 0; i < c->getNumOperands(); i++) {
          auto *op = c->getOperand(i);
          fl.push_back(json::Array{(int64_t)SL->getElementOffset(i).getFixedValue(), (int64_t)DL->getTypeStoreSize(op->getType()).getFixedValue(),
                                   op->isNullValue() && !op->getType()->isIntegerTy() && !op->getType()->isPointerTy() ? json::Value(json::Array{"z"}) : operand(op)});
        }
        o["fields"] = std::move(fl);
      }
    }
    SmallVector<DIGlobalVariableExpression *, 1> ge;
    G.getDebugInfo(ge);
    if (!ge.empty()) o["ty"] = tyId(ge[0]->getVariable()->getType());
    globs[G.getName().str()] = std::move(o);
  }
  root["globals"] = std::move(globs);
  json::Array tys;
  for (size_t i = 0; i < tyList.size(); i++) tys.push_back(dumpType(tyList[i]));
  root["types"] = std::move(tys);
  std::error_code ec;
  raw_fd_ostream os(argv[2], ec);
  os << json::Value(std::move(root));
  return 0;
}
