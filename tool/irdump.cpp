// irdump: reads LLVM bitcode, inlines local helpers, promotes locals to SSA,
// and prints the result as JSON for the analyses in /verif/sa.
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <set>
using namespace llvm;

static json::OStream *J;
static std::map<const Value *, int> Ids;
static const DataLayout *DL;

static void operand(const Value *V);

static void constOperand(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
        J->object([&] {
            J->attribute("k", "c");
            if (CI->getBitWidth() <= 64)
                J->attribute("v", CI->getSExtValue());
            else {
                SmallString<64> S;
                CI->getValue().toString(S, 10, true);
                J->attribute("big", S.str());
            }
            J->attribute("w", (int64_t)CI->getBitWidth());
        });
        return;
    }
    if (isa<ConstantPointerNull>(C)) {
        J->object([&] { J->attribute("k", "null"); });
        return;
    }
    if (isa<UndefValue>(C)) {
        J->object([&] { J->attribute("k", "undef"); });
        return;
    }
    if (auto *CF = dyn_cast<ConstantFP>(C)) {
        J->object([&] { J->attribute("k", "fp"); J->attribute("v", CF->getValueAPF().convertToDouble()); });
        return;
    }
    if (C->getType()->isPointerTy()) {
        APInt Off(64, 0);
        const Value *B = C->stripAndAccumulateConstantOffsets(*DL, Off, true);
        if (auto *G = dyn_cast<GlobalValue>(B)) {
            J->object([&] {
                J->attribute("k", isa<Function>(G) ? "f" : "g");
                J->attribute("n", G->getName());
                J->attribute("o", Off.getSExtValue());
            });
            return;
        }
    }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        if (CE->getOpcode() == Instruction::PtrToInt || CE->getOpcode() == Instruction::IntToPtr) {
            constOperand(cast<Constant>(CE->getOperand(0)));
            return;
        }
    }
    J->object([&] { J->attribute("k", "cx"); });
}

static void operand(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) { constOperand(C); return; }
    auto It = Ids.find(V);
    if (It != Ids.end()) {
        J->object([&] { J->attribute("k", "v"); J->attribute("i", It->second); });
        return;
    }
    J->object([&] { J->attribute("k", "x"); });
}

// full value of a constant initialiser
static void constInit(const Constant *C) {
    Type *T = C->getType();
    if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
        if (CDS->getElementType()->isIntegerTy(8)) {
            StringRef R = CDS->getRawDataValues();
            static const char *H = "0123456789abcdef";
            std::string S;
            for (unsigned char ch : R) { S += H[ch >> 4]; S += H[ch & 15]; }
            J->object([&] { J->attribute("k", "bytes"); J->attribute("h", S); });
            return;
        }
        J->object([&] {
            J->attribute("k", "arr");
            J->attributeArray("e", [&] {
                for (unsigned i = 0; i < CDS->getNumElements(); i++)
                    if (CDS->getElementType()->isIntegerTy())
                        J->value((int64_t)CDS->getElementAsInteger(i));
                    else
                        J->value(CDS->getElementAsDouble(i));
            });
            J->attribute("es", (int64_t)DL->getTypeAllocSize(CDS->getElementType()));
        });
        return;
    }
    if (isa<ConstantAggregateZero>(C)) {
        J->object([&] { J->attribute("k", "zero"); J->attribute("sz", (int64_t)DL->getTypeAllocSize(T)); });
        return;
    }
    if (auto *CS = dyn_cast<ConstantStruct>(C)) {
        auto *ST = cast<StructType>(T);
        J->object([&] {
            J->attribute("k", "struct");
            J->attribute("t", ST->hasName() ? ST->getName() : "");
            J->attributeArray("e", [&] { for (auto &Op : CS->operands()) constInit(cast<Constant>(Op)); });
            J->attributeArray("off", [&] {
                auto *SL = DL->getStructLayout(ST);
                for (unsigned i = 0; i < ST->getNumElements(); i++) J->value((int64_t)SL->getElementOffset(i));
            });
        });
        return;
    }
    if (auto *CA = dyn_cast<ConstantArray>(C)) {
        J->object([&] {
            J->attribute("k", "arr");
            J->attributeArray("e", [&] { for (auto &Op : CA->operands()) constInit(cast<Constant>(Op)); });
            J->attribute("es", (int64_t)DL->getTypeAllocSize(CA->getType()->getElementType()));
        });
        return;
    }
    constOperand(C);
}

static std::string tyName(Type *T) {
    if (T->isPointerTy()) return "ptr";
    if (T->isVoidTy()) return "void";
    if (auto *I = dyn_cast<IntegerType>(T)) return "i" + std::to_string(I->getBitWidth());
    if (auto *S = dyn_cast<StructType>(T)) return S->hasName() ? S->getName().str() : "anon";
    if (auto *A = dyn_cast<ArrayType>(T)) return "[" + std::to_string(A->getNumElements()) + " x " + tyName(A->getElementType()) + "]";
    if (T->isFloatTy()) return "float";
    if (T->isDoubleTy()) return "double";
    if (T->isVectorTy()) return "vec";
    return "other";
}

static std::string fileOf(const DIScope *S) {
    if (!S) return "";
    return S->getFilename().str();
}

static void loc(const DebugLoc &D) {
    if (!D) return;
    J->attribute("l", (int64_t)D.getLine());
    const DILocalScope *S = cast<DILocalScope>(D.getScope());
    J->attribute("fn", S->getSubprogram() ? S->getSubprogram()->getName() : "");
    J->attribute("file", fileOf(S));
    if (D.getInlinedAt()) {
        J->attributeArray("at", [&] {
            for (DILocation *A = D.getInlinedAt(); A; A = A->getInlinedAt())
                J->object([&] {
                    J->attribute("l", (int64_t)A->getLine());
                    J->attribute("fn", A->getScope()->getSubprogram()->getName());
                });
        });
    }
}

static std::string diTypeName(const DIType *T, int depth = 0) {
    if (!T) return "void";
    if (depth > 12) return "?";
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
        switch (D->getTag()) {
        case dwarf::DW_TAG_pointer_type: return diTypeName(D->getBaseType(), depth + 1) + "*";
        case dwarf::DW_TAG_const_type: return "const " + diTypeName(D->getBaseType(), depth + 1);
        case dwarf::DW_TAG_typedef: return D->getName().str();
        default: return diTypeName(D->getBaseType(), depth + 1);
        }
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) {
        if (C->getTag() == dwarf::DW_TAG_array_type) {
            std::string S = diTypeName(C->getBaseType(), depth + 1);
            for (auto *E : C->getElements())
                if (auto *SR = dyn_cast<DISubrange>(E))
                    if (auto *CI = dyn_cast_if_present<ConstantInt *>(SR->getCount()))
                        S += "[" + std::to_string(CI->getSExtValue()) + "]";
            return S;
        }
        std::string N = C->getName().str();
        if (N.empty()) N = "anon";
        return N;
    }
    if (isa<DISubroutineType>(T)) return "fn";
    return T->getName().str();
}

static void dumpInst(const Instruction &I) {
    J->object([&] {
        auto It = Ids.find(&I);
        if (It != Ids.end() && !I.getType()->isVoidTy()) J->attribute("i", It->second);
        J->attribute("op", I.getOpcodeName());
        if (!I.getType()->isVoidTy()) J->attribute("t", tyName(I.getType()));
        if (I.hasName()) J->attribute("nm", I.getName());
        loc(I.getDebugLoc());
        if (auto *A = dyn_cast<AllocaInst>(&I)) {
            J->attribute("at_", tyName(A->getAllocatedType()));
            auto Sz = A->getAllocationSize(*DL);
            if (Sz) J->attribute("sz", (int64_t)Sz->getFixedValue());
            J->attributeBegin("n"); operand(A->getArraySize()); J->attributeEnd();
            for (auto *U : findDbgDeclares(const_cast<AllocaInst *>(A))) {
                J->attribute("var", U->getVariable()->getName());
                J->attribute("vt", diTypeName(U->getVariable()->getType()));
                break;
            }
            return;
        }
        if (auto *G = dyn_cast<GEPOperator>(&I)) {
            MapVector<Value *, APInt> VO;
            APInt CO(64, 0);
            bool ok = G->collectOffset(*DL, 64, VO, CO);
            J->attributeBegin("b"); operand(G->getPointerOperand()); J->attributeEnd();
            J->attribute("o", CO.getSExtValue());
            J->attribute("ok", ok);
            J->attribute("st", tyName(G->getSourceElementType()));
            J->attributeArray("vo", [&] {
                for (auto &P : VO) J->array([&] { operand(P.first); J->value(P.second.getSExtValue()); });
            });
            return;
        }
        if (auto *C = dyn_cast<CallBase>(&I)) {
            const Value *Cal = C->getCalledOperand()->stripPointerCasts();
            if (auto *F = dyn_cast<Function>(Cal)) J->attribute("callee", F->getName());
            else { J->attributeBegin("cv"); operand(Cal); J->attributeEnd(); }
            J->attributeArray("a", [&] { for (auto &A : C->args()) operand(A.get()); });
            if (C->isInlineAsm()) J->attribute("asm", true);
            return;
        }
        if (auto *P = dyn_cast<PHINode>(&I)) {
            J->attributeArray("in", [&] {
                for (unsigned k = 0; k < P->getNumIncomingValues(); k++)
                    J->array([&] { operand(P->getIncomingValue(k)); J->value(Ids[P->getIncomingBlock(k)]); });
            });
            return;
        }
        if (auto *B = dyn_cast<BranchInst>(&I)) {
            if (B->isConditional()) { J->attributeBegin("c"); operand(B->getCondition()); J->attributeEnd(); }
            J->attributeArray("s", [&] { for (unsigned k = 0; k < B->getNumSuccessors(); k++) J->value(Ids[B->getSuccessor(k)]); });
            return;
        }
        if (auto *S = dyn_cast<SwitchInst>(&I)) {
            J->attributeBegin("c"); operand(S->getCondition()); J->attributeEnd();
            J->attribute("d", Ids[S->getDefaultDest()]);
            J->attributeArray("cs", [&] {
                for (auto &C : S->cases()) J->array([&] { J->value(C.getCaseValue()->getSExtValue()); J->value(Ids[C.getCaseSuccessor()]); });
            });
            return;
        }
        if (auto *C = dyn_cast<CmpInst>(&I)) J->attribute("p", CmpInst::getPredicateName(C->getPredicate()));
        if (auto *L = dyn_cast<LoadInst>(&I)) J->attribute("sz", (int64_t)DL->getTypeStoreSize(L->getType()));
        if (auto *S = dyn_cast<StoreInst>(&I)) J->attribute("sz", (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()));
        if (isa<ExtractValueInst>(&I)) J->attribute("idx", (int64_t)cast<ExtractValueInst>(I).getIndices()[0]);
        if (isa<CastInst>(&I)) J->attribute("ft", tyName(I.getOperand(0)->getType()));
        J->attributeArray("a", [&] { for (auto &O : I.operands()) operand(O.get()); });
    });
}

static std::set<const DICompositeType *> SeenDI;
static std::vector<const DICompositeType *> DIs;
static void collectDI(const DIType *T, int d = 0) {
    while (T) {
        if (auto *D = dyn_cast<DIDerivedType>(T)) { T = D->getBaseType(); continue; }
        if (auto *C = dyn_cast<DICompositeType>(T)) {
            if (!SeenDI.insert(C).second) return;
            DIs.push_back(C);
            if (C->getTag() == dwarf::DW_TAG_array_type) { T = C->getBaseType(); continue; }
            for (auto *E : C->getElements())
                if (auto *M = dyn_cast<DIDerivedType>(E)) collectDI(M->getBaseType(), d + 1);
        }
        return;
    }
}

struct MarkPass : PassInfoMixin<MarkPass> {
    static bool isRequired() { return true; }
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
        for (auto &F : M) {
            if (F.isDeclaration()) continue;
            std::vector<AllocaInst *> As;
            for (auto &I : F.getEntryBlock())
                if (auto *A = dyn_cast<AllocaInst>(&I))
                    if (isAllocaPromotable(A) && (A->getAllocatedType()->isIntegerTy() || A->getAllocatedType()->isPointerTy()))
                        As.push_back(A);
            for (auto *A : As) {
                IRBuilder<> B(A->getNextNode());
                B.CreateStore(B.CreateFreeze(UndefValue::get(A->getAllocatedType())), A);
            }
        }
        return PreservedAnalyses::none();
    }
};

int main(int argc, char **argv) {
    // irdump IN.bc MODE [maxinstrs]   MODE: inline | mark | whole | raw
    // mark: inline, and scalar locals start with a value that promotion does not fold away
    LLVMContext Ctx;
    SMDiagnostic Err;
    auto M = parseIRFile(argv[1], Err, Ctx);
    if (!M) { Err.print(argv[0], errs()); return 2; }
    bool Whole = argc > 2 && StringRef(argv[2]) == "whole";     // a program: everything goes into main
    bool Mark = argc > 2 && StringRef(argv[2]) == "mark";
    bool Inl = Whole || Mark || (argc > 2 && StringRef(argv[2]) == "inline");
    unsigned MaxI = argc > 3 ? atoi(argv[3]) : 1500;
    DL = &M->getDataLayout();
    std::map<std::string, std::vector<std::string>> HasLocalDef;
    std::set<std::string> Inlined;
    // direct callees before inlining (the resolved call graph)
    std::map<std::string, std::set<std::string>> Calls;
    for (auto &F : *M)
        for (auto &I : instructions(F))
            if (auto *C = dyn_cast<CallBase>(&I))
                if (auto *G = C->getCalledFunction())
                    if (!G->isIntrinsic()) Calls[F.getName().str()].insert(G->getName().str());
    if (Inl) {
        for (auto &F : *M) {
            if (F.isDeclaration()) continue;
            F.removeFnAttr(Attribute::NoInline);
            F.removeFnAttr(Attribute::OptimizeNone);
            bool Rec = Calls[F.getName().str()].count(F.getName().str());
            if (!Rec && F.getInstructionCount() <= MaxI && (Whole ? F.getName() != "main" : F.hasLocalLinkage()) && !F.isVarArg()) {
                F.addFnAttr(Attribute::AlwaysInline);
                Inlined.insert(F.getName().str());
            }
        }
    }
    {
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PassBuilder PB;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        if (Inl) {
            // keep bodies of inlined functions: AlwaysInliner erases unused ones, so make copies visible via linkage
            MPM.addPass(AlwaysInlinerPass(false));
        }
        if (Mark) MPM.addPass(MarkPass());
        MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG)));
        MPM.run(*M, MAM);
    }
    for (auto &F : *M) if (auto *SP = F.getSubprogram()) {
        for (auto *T : SP->getType()->getTypeArray()) collectDI(T);
    }
    DebugInfoFinder DIF; DIF.processModule(*M);
    for (auto *T : DIF.types()) collectDI(T);

    json::OStream JS(outs());
    J = &JS;
    J->objectBegin();
    J->attribute("source", M->getSourceFileName());
    auto Struct = [&](StringRef Name, const DICompositeType *C) {
        J->attributeObject(Name, [&] {
            J->attribute("size", (int64_t)(C->getSizeInBits() / 8));
            J->attributeArray("f", [&] {
                for (auto *E : C->getElements())
                    if (auto *Mb = dyn_cast<DIDerivedType>(E))
                        J->array([&] {
                            J->value((int64_t)(Mb->getOffsetInBits() / 8));
                            J->value((int64_t)(Mb->getSizeInBits() / 8));
                            J->value(Mb->getName());
                            J->value(diTypeName(Mb->getBaseType()));
                        });
            });
        });
    };
    J->attributeObject("structs", [&] {
        std::set<std::string> Done;
        for (auto *C : DIs) {
            if (C->getTag() != dwarf::DW_TAG_structure_type || C->getName().empty() || C->isForwardDecl()) continue;
            if (!Done.insert(C->getName().str()).second) continue;
            Struct(C->getName(), C);
        }
    });
    J->attributeObject("typedefs", [&] {          // names of structures without a tag
        std::set<std::string> Done;
        for (auto *T : DIF.types())
            if (auto *D = dyn_cast<DIDerivedType>(T))
                if (D->getTag() == dwarf::DW_TAG_typedef && D->getBaseType())
                    if (auto *C = dyn_cast<DICompositeType>(D->getBaseType()))
                        if (C->getTag() == dwarf::DW_TAG_structure_type && C->getName().empty() && Done.insert(D->getName().str()).second)
                            Struct(D->getName(), C);
    });
    J->attributeObject("calls", [&] {
        for (auto &P : Calls) J->attributeArray(P.first, [&] { for (auto &S : P.second) J->value(S); });
    });
    J->attributeObject("globals", [&] {
        for (auto &G : M->globals()) {
            J->attributeObject(G.getName(), [&] {
                J->attribute("const", G.isConstant());
                J->attribute("local", G.hasLocalLinkage());
                J->attribute("decl", G.isDeclaration());
                J->attribute("t", tyName(G.getValueType()));
                if (!G.isDeclaration()) J->attribute("sz", (int64_t)DL->getTypeAllocSize(G.getValueType()));
                SmallVector<DIGlobalVariableExpression *, 1> GV;
                G.getDebugInfo(GV);
                if (!GV.empty()) {
                    J->attribute("l", (int64_t)GV[0]->getVariable()->getLine());
                    J->attribute("dt", diTypeName(GV[0]->getVariable()->getType()));
                    J->attribute("file", GV[0]->getVariable()->getFilename());
                }
                if (G.hasInitializer()) { J->attributeBegin("init"); constInit(G.getInitializer()); J->attributeEnd(); }
            });
        }
    });
    J->attributeObject("functions", [&] {
        for (auto &F : *M) {
            if (F.isIntrinsic()) continue;
            J->attributeObject(F.getName(), [&] {
                J->attribute("decl", F.isDeclaration());
                J->attribute("local", F.hasLocalLinkage());
                J->attribute("addr", F.hasAddressTaken());
                J->attribute("ret", tyName(F.getReturnType()));
                J->attribute("vararg", F.isVarArg());
                J->attribute("nargs", (int64_t)F.arg_size());
                if (F.isDeclaration()) return;
                Ids.clear();
                int n = 0;
                for (auto &A : F.args()) Ids[&A] = n++;
                for (auto &B : F) { Ids[&B] = n++; for (auto &I : B) Ids[&I] = n++; }
                auto *SP = F.getSubprogram();
                if (SP) {
                    J->attribute("l", (int64_t)SP->getLine());
                    J->attribute("file", SP->getFilename());
                    auto TA = SP->getType()->getTypeArray();
                    J->attribute("rett", TA.size() ? diTypeName(TA[0]) : "void");
                    J->attributeArray("argt", [&] { for (unsigned k = 1; k < TA.size(); k++) J->value(diTypeName(TA[k])); });
                }
                J->attributeArray("args", [&] {
                    for (auto &A : F.args()) J->object([&] {
                        J->attribute("i", Ids[&A]);
                        J->attribute("nm", A.getName());
                        J->attribute("t", tyName(A.getType()));
                    });
                });
                J->attributeArray("blocks", [&] {
                    for (auto &B : F) J->object([&] {
                        J->attribute("i", Ids[&B]);
                        J->attributeArray("ins", [&] {
                            for (auto &I : B) if (!isa<DbgInfoIntrinsic>(I)) dumpInst(I);
                        });
                    });
                });
            });
        }
    });
    J->objectEnd();
    outs() << "\n";
    return 0;
}
