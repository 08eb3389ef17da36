// irdump: prints an LLVM module (textual or bitcode) as compact JSON for the
// abstract interpreter in absint/.  Nothing is executed.
#include "llvm/AsmParser/Parser.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <string>
using namespace llvm;
using json::Array; using json::Object; typedef json::Value JV;

static const DataLayout *DL;
static std::map<const llvm::Value *, int> Ids;

static JV typ(Type *T) {
  if (T->isIntegerTy()) return Array{"i", (int64_t)T->getIntegerBitWidth()};
  if (T->isPointerTy()) return "p";
  if (T->isVoidTy()) return "v";
  if (T->isFloatingPointTy()) return Array{"f", (int64_t)T->getPrimitiveSizeInBits()};
  if (auto *S = dyn_cast<StructType>(T)) {
    if (S->isOpaque()) return Array{"o"};
    Array E; const StructLayout *L = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++)
      E.push_back(Array{(int64_t)(uint64_t)L->getElementOffset(i), typ(S->getElementType(i))});
    return Array{"s", (int64_t)DL->getTypeAllocSize(T).getFixedValue(), std::move(E)};
  }
  if (auto *A = dyn_cast<ArrayType>(T))
    return Array{"a", (int64_t)A->getNumElements(), typ(A->getElementType()),
                 (int64_t)DL->getTypeAllocSize(A->getElementType()).getFixedValue()};
  if (auto *V = dyn_cast<FixedVectorType>(T))
    return Array{"vec", (int64_t)V->getNumElements(), typ(V->getElementType())};
  return Array{"o"};
}
static JV apint(const APInt &A) {
  if (A.getSignificantBits() <= 64) return A.getSExtValue();
  SmallString<64> S; A.toStringSigned(S); return std::string(S);
}
static JV val(const llvm::Value *V);
static JV constant(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) return Array{"c", apint(I->getValue()), (int64_t)I->getBitWidth()};
  if (isa<ConstantPointerNull>(C)) return Array{"n"};
  if (isa<UndefValue>(C)) return Array{"u"};
  if (auto *F = dyn_cast<Function>(C)) return Array{"fn", F->getName().str()};
  if (auto *G = dyn_cast<GlobalVariable>(C)) return Array{"g", G->getName().str()};
  if (auto *GA = dyn_cast<GlobalAlias>(C)) return constant(GA->getAliasee());
  if (isa<ConstantAggregateZero>(C)) return Array{"z", typ(C->getType())};
  if (auto *CD = dyn_cast<ConstantDataArray>(C)) {
    Array E; for (unsigned i = 0; i < CD->getNumElements(); i++) {
      if (CD->getElementType()->isIntegerTy()) E.push_back(apint(CD->getElementAsAPInt(i))); else E.push_back(nullptr);
    }
    return Array{"ca", typ(CD->getElementType()), std::move(E)};
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
    Array E; for (auto &Op : CA->operands()) E.push_back(constant(cast<Constant>(Op)));
    return Array{"cs", typ(C->getType()), std::move(E)};
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (auto *G = dyn_cast<GEPOperator>(CE)) {
      APInt Off(64, 0);
      if (G->accumulateConstantOffset(*DL, Off))
        return Array{"ge", constant(cast<Constant>(G->getPointerOperand())), Off.getSExtValue()};
    }
    if (CE->isCast() && CE->getOpcode() != Instruction::Trunc) return constant(CE->getOperand(0));
  }
  if (isa<ConstantFP>(C)) return Array{"fp"};
  return Array{"?"};
}
static JV val(const llvm::Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constant(C);
  auto It = Ids.find(V);
  if (It != Ids.end()) return Array{"r", It->second};
  if (auto *M = dyn_cast<MetadataAsValue>(V)) {
    if (auto *S = dyn_cast<MDString>(M->getMetadata())) return Array{"md", S->getString().str()};
    return Array{"md", ""};
  }
  if (isa<InlineAsm>(V)) return Array{"asm"};
  return Array{"?"};
}

static std::string scopeName(const DIScope *S) {
  if (!S || isa<DIFile>(S) || isa<DICompileUnit>(S)) return "";
  std::string P = scopeName(S->getScope());
  std::string N = S->getName().str();
  if (isa<DINamespace>(S) && N.empty()) N = "(anonymous namespace)";
  if (auto *SP = dyn_cast<DISubprogram>(S)) N = SP->getName().str() + "()";
  if (N.empty()) return P;
  return P.empty() ? N : P + "::" + N;
}
static std::string typeName(const DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return typeName(D->getBaseType()) + "*";
      case dwarf::DW_TAG_reference_type: return typeName(D->getBaseType()) + "&";
      case dwarf::DW_TAG_rvalue_reference_type: return typeName(D->getBaseType()) + "&&";
      case dwarf::DW_TAG_const_type: return "const " + typeName(D->getBaseType());
      case dwarf::DW_TAG_volatile_type: return typeName(D->getBaseType());
      case dwarf::DW_TAG_typedef: return typeName(D->getBaseType());
      default: break;
    }
  }
  if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
  if (isa<DISubroutineType>(T)) return "fn";
  std::string S = scopeName(T->getScope());
  std::string N = T->getName().str();
  return S.empty() ? N : S + "::" + N;
}

int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  json::OStream J(outs());
  J.objectBegin();
  // Globals
  J.attributeBegin("globals"); J.objectBegin();
  for (auto &G : M->globals()) {
    J.attributeBegin(G.getName());
    Object O{{"const", G.isConstant()}, {"t", typ(G.getValueType())}};
    if (G.getValueType()->isSized()) O["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType()).getFixedValue();
    if (G.hasInitializer()) O["init"] = constant(G.getInitializer());
    O["tls"] = G.isThreadLocal();
    O["dn"] = demangle(G.getName().str());
    J.value(std::move(O)); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  // Types
  DebugInfoFinder F; F.processModule(*M);
  J.attributeBegin("types"); J.arrayBegin();
  for (auto *T : F.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C) continue;
    if (C->isForwardDecl()) continue;
    std::string N = typeName(C);
    if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
      if (N.find("s2a") == std::string::npos && N.find("upb") == std::string::npos && N.find("absl::Status") == std::string::npos) continue;
      Array E; for (auto *El : C->getElements()) if (auto *EN = dyn_cast<DIEnumerator>(El))
        E.push_back(Array{EN->getName().str(), EN->getValue().getSExtValue()});
      J.value(Object{{"k", "enum"}, {"name", N}, {"elems", std::move(E)}});
      continue;
    }
    if (C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_structure_type) continue;
    if (N.find("s2a") == std::string::npos) continue;
    Array Mem, Bases, Virt, Meth;
    for (auto *El : C->getElements()) {
      if (auto *D = dyn_cast<DIDerivedType>(El)) {
        if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember())
          Mem.push_back(Array{D->getName().str(), (int64_t)D->getOffsetInBits() / 8, (int64_t)D->getSizeInBits() / 8, typeName(D->getBaseType())});
        if (D->getTag() == dwarf::DW_TAG_inheritance)
          Bases.push_back(Array{typeName(D->getBaseType()), (int64_t)D->getOffsetInBits() / 8});
      } else if (auto *SP = dyn_cast<DISubprogram>(El)) {
        if (SP->getVirtuality()) Virt.push_back(Array{(int64_t)SP->getVirtualIndex(), SP->getName().str(), SP->getLinkageName().str()});
        Meth.push_back(Array{SP->getName().str(), SP->getLinkageName().str(), (int64_t)(SP->getFlags() & DINode::FlagAccessibility)});
      }
    }
    J.value(Object{{"k", "class"}, {"name", N}, {"id", C->getIdentifier().str()}, {"size", (int64_t)C->getSizeInBits() / 8},
                   {"members", std::move(Mem)}, {"bases", std::move(Bases)}, {"virt", std::move(Virt)}, {"methods", std::move(Meth)}});
  }
  J.arrayEnd(); J.attributeEnd();
  // Functions
  std::map<std::string, int> Files; std::vector<std::string> FileList;
  auto fileId = [&](const DIFile *Fl) {
    std::string P = Fl ? (Fl->getFilename().startswith("/") ? Fl->getFilename().str() : (Fl->getDirectory() + "/" + Fl->getFilename()).str()) : "";
    auto It = Files.find(P); if (It != Files.end()) return It->second;
    int I = FileList.size(); Files[P] = I; FileList.push_back(P); return I;
  };
  J.attributeBegin("functions"); J.objectBegin();
  for (auto &Fn : *M) {
    if (Fn.isIntrinsic() && Fn.isDeclaration()) continue;
    J.attributeBegin(Fn.getName()); J.objectBegin();
    J.attribute("dn", demangle(Fn.getName().str()));
    J.attribute("link", (int64_t)(Fn.hasLocalLinkage() ? 1 : 0));
    J.attribute("ret", typ(Fn.getReturnType()));
    J.attribute("va", Fn.isVarArg());
    J.attribute("noret", Fn.doesNotReturn());
    Ids.clear(); int N = 0;
    J.attributeBegin("args"); J.arrayBegin();
    for (auto &A : Fn.args()) {
      Ids[&A] = N++;
      Object O{{"t", typ(A.getType())}, {"n", A.getName().str()}};
      if (A.hasStructRetAttr()) O["sret"] = (int64_t)DL->getTypeAllocSize(A.getParamStructRetType()).getFixedValue();
      if (A.hasByValAttr()) O["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType()).getFixedValue();
      if (A.hasAttribute(Attribute::ZExt)) O["ext"] = "z";
      J.value(std::move(O));
    }
    J.arrayEnd(); J.attributeEnd();
    if (auto *SP = Fn.getSubprogram()) {
      J.attribute("file", fileId(SP->getFile())); J.attribute("line", (int64_t)SP->getLine());
      Array TA; if (auto *ST = SP->getType()) for (auto *T : ST->getTypeArray()) TA.push_back(typeName(T));
      J.attribute("dtypes", std::move(TA));
      J.attribute("sname", SP->getName().str());
    }
    if (Fn.isDeclaration()) { J.objectEnd(); J.attributeEnd(); continue; }
    std::map<const BasicBlock *, int> BB; int nb = 0;
    for (auto &B : Fn) { BB[&B] = nb++; for (auto &I : B) if (!I.getType()->isVoidTy()) Ids[&I] = N++; }
    J.attributeBegin("blocks"); J.arrayBegin();
    for (auto &B : Fn) {
      J.arrayBegin();
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
          auto ID = II->getIntrinsicID();
          if (ID == Intrinsic::lifetime_start || ID == Intrinsic::lifetime_end) continue;
        }
        Array A; A.push_back(I.getOpcodeName());
        A.push_back(I.getType()->isVoidTy() ? -1 : Ids[&I]);
        A.push_back(typ(I.getType()));
        Array O;
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          unsigned W = 64; MapVector<llvm::Value *, APInt> Var; APInt C(W, 0);
          bool ok = G->collectOffset(*DL, W, Var, C);
          O.push_back(val(G->getPointerOperand())); O.push_back(ok ? C.getSExtValue() : 0);
          Array Vs; for (auto &P : Var) Vs.push_back(Array{val(P.first), P.second.getSExtValue(), (int64_t)P.first->getType()->getIntegerBitWidth()});
          O.push_back(std::move(Vs)); O.push_back(ok);
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++) O.push_back(Array{BB[P->getIncomingBlock(i)], val(P->getIncomingValue(i))});
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          O.push_back(val(C->getCalledOperand()));
          Array As; for (unsigned i = 0; i < C->arg_size(); i++) {
            Array X{val(C->getArgOperand(i)), typ(C->getArgOperand(i)->getType())};
            if (C->isByValArgument(i)) X.push_back((int64_t)DL->getTypeAllocSize(C->getParamByValType(i)).getFixedValue());
            As.push_back(std::move(X));
          }
          O.push_back(std::move(As)); O.push_back(C->doesNotReturn());
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isConditional()) { O.push_back(val(Br->getCondition())); O.push_back(BB[Br->getSuccessor(0)]); O.push_back(BB[Br->getSuccessor(1)]); }
          else O.push_back(BB[Br->getSuccessor(0)]);
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          O.push_back(val(S->getCondition())); O.push_back(BB[S->getDefaultDest()]);
          Array Cs; for (auto &Ca : S->cases()) Cs.push_back(Array{apint(Ca.getCaseValue()->getValue()), BB[Ca.getCaseSuccessor()]});
          O.push_back(std::move(Cs)); O.push_back((int64_t)S->getCondition()->getType()->getIntegerBitWidth());
        } else if (auto *Cm = dyn_cast<CmpInst>(&I)) {
          O.push_back(CmpInst::getPredicateName(Cm->getPredicate()).str());
          O.push_back(val(Cm->getOperand(0))); O.push_back(val(Cm->getOperand(1))); O.push_back(typ(Cm->getOperand(0)->getType()));
        } else if (auto *Al = dyn_cast<AllocaInst>(&I)) {
          O.push_back((int64_t)DL->getTypeAllocSize(Al->getAllocatedType()).getFixedValue()); O.push_back(val(Al->getArraySize())); O.push_back(Al->getName().str());
        } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
          O.push_back(val(EV->getAggregateOperand())); Array Ix; for (auto i : EV->indices()) Ix.push_back((int64_t)i); O.push_back(std::move(Ix));
        } else if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
          O.push_back(val(IV->getAggregateOperand())); O.push_back(val(IV->getInsertedValueOperand())); Array Ix; for (auto i : IV->indices()) Ix.push_back((int64_t)i); O.push_back(std::move(Ix));
        } else {
          for (auto &Op : I.operands()) { O.push_back(val(Op)); }
          if (isa<StoreInst>(I)) O.push_back(typ(I.getOperand(0)->getType()));
          if (isa<CastInst>(I)) O.push_back(typ(I.getOperand(0)->getType()));
          if (auto *RMW = dyn_cast<AtomicRMWInst>(&I)) { O.push_back((int64_t)RMW->getOperation()); O.push_back(typ(RMW->getValOperand()->getType())); }
          if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) O.push_back((OB->hasNoSignedWrap() ? 1 : 0) | (OB->hasNoUnsignedWrap() ? 2 : 0));
        }
        A.push_back(std::move(O));
        if (auto &L = I.getDebugLoc()) { A.push_back((int64_t)L.getLine()); A.push_back(fileId(cast<DIScope>(L.getScope())->getFile())); }
        else { A.push_back(0); A.push_back(-1); }
        J.value(std::move(A));
      }
      J.arrayEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  Object AL; for (auto &GA : M->aliases()) if (auto *F = dyn_cast<Function>(GA.getAliasee()->stripPointerCasts())) AL[GA.getName().str()] = F->getName().str();
  J.attribute("aliases", std::move(AL));
  Array FL; for (auto &S : FileList) FL.push_back(S);
  J.attribute("files", std::move(FL));
  J.objectEnd();
  return 0;
}
