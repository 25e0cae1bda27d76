// irdump: turns LLVM bitcode of the repository into a JSON description of selected functions,
// after promoting locals to SSA and inlining everything except a configurable set of opaque functions.
//   irdump MODULE.bc CONFIG OUT.json
// CONFIG lines:  opaque <regex on demangled name>   never inlined (call stays visible)
//                inline <regex>                     overrides opaque
//                root <regex>                       dumped
//                list                               also list every defined function (names, callees)
#include <llvm/ADT/StringExtras.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/IR/Verifier.h>
#include <fstream>
#include <regex>
#include <map>
#include <set>
#include <iostream>
#include <functional>
using namespace llvm;

static std::string tyStr(Type *T) { std::string s; raw_string_ostream os(s); T->print(os); return os.str(); }

struct Dumper {
    Module &M; const DataLayout &DL;
    std::map<const Value *, int> id; int next = 0;
    Dumper(Module &m) : M(m), DL(m.getDataLayout()) {}
    int getId(const Value *V) { auto it = id.find(V); if (it != id.end()) return it->second; return id[V] = next++; }

    json::Value gepInfo(const GEPOperator *G) {
        MapVector<Value *, APInt> var; unsigned bw = DL.getIndexTypeSizeInBits(G->getType());
        APInt c(bw, 0);
        json::Object o;
        if (!G->collectOffset(DL, bw, var, c)) { o["bad"] = true; return o; }
        o["base"] = operand(G->getPointerOperand());
        o["off"] = c.getSExtValue();
        json::Array vs;
        for (auto &p : var) { json::Array e; e.push_back(operand(p.first)); e.push_back(p.second.getSExtValue()); vs.push_back(std::move(e)); }
        o["var"] = std::move(vs);
        return o;
    }
    json::Value operand(const Value *V, int depth = 0) {
        json::Array a;
        if (auto *C = dyn_cast<ConstantInt>(V)) {
            a.push_back("i"); a.push_back(C->getBitWidth() <= 64 ? std::to_string(C->getSExtValue()) : toString(C->getValue(), 10, true)); a.push_back((int)C->getBitWidth());
        } else if (auto *C = dyn_cast<ConstantFP>(V)) {
            double d; bool li; APFloat f = C->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); d = f.convertToDouble();
            char b[64]; snprintf(b, sizeof b, "%a", d); a.push_back("f"); a.push_back(std::string(b)); a.push_back(tyStr(C->getType()));
        } else if (isa<ConstantPointerNull>(V)) { a.push_back("null"); }
        else if (isa<UndefValue>(V)) { a.push_back("undef"); }
        else if (auto *C = dyn_cast<ConstantAggregateZero>(V)) { (void)C; a.push_back("zero"); }
        else if (auto *G = dyn_cast<GlobalValue>(V)) { a.push_back("g"); a.push_back(G->getName().str()); }
        else if (auto *CE = dyn_cast<ConstantExpr>(V)) {
            if (auto *G = dyn_cast<GEPOperator>(CE)) { a.push_back("cgep"); a.push_back(gepInfo(G)); }
            else { a.push_back("ce"); a.push_back(CE->getOpcodeName()); if (depth < 6) for (auto &u : CE->operands()) a.push_back(operand(u.get(), depth + 1)); }
        } else if (auto *CV = dyn_cast<ConstantDataSequential>(V)) {
            a.push_back("vec");
            for (unsigned i = 0; i < CV->getNumElements() && i < 16; i++) a.push_back(operand(CV->getElementAsConstant(i)));
        } else if (auto *CV = dyn_cast<ConstantAggregate>(V)) {
            a.push_back("vec");
            for (unsigned i = 0; i < CV->getNumOperands() && i < 16; i++) a.push_back(operand(CV->getOperand(i), depth + 1));
        } else if (isa<MetadataAsValue>(V)) { a.push_back("md"); }
        else if (isa<InlineAsm>(V)) { a.push_back("asm"); }
        else { a.push_back("v"); a.push_back(getId(V)); }
        return a;
    }
    static std::string base(StringRef f) { return f.str(); }
    json::Value loc(const DebugLoc &L) {
        json::Array a; const DILocation *D = L.get();
        while (D) {
            json::Array e;
            auto *sp = D->getScope()->getSubprogram();
            e.push_back(sp ? (sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()) : "");
            e.push_back(D->getFilename().str()); e.push_back((int)D->getLine()); e.push_back((int)D->getColumn());
            a.push_back(std::move(e)); D = D->getInlinedAt();
        }
        return a;
    }
    json::Value function(Function &F) {
        id.clear(); next = 0;
        json::Object o; o["name"] = F.getName().str(); o["dem"] = demangle(F.getName().str());
        if (auto *sp = F.getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = (int)sp->getLine(); }
        o["ret"] = tyStr(F.getReturnType());
        json::Array args;
        for (auto &A : F.args()) { json::Object a; a["id"] = getId(&A); a["ty"] = tyStr(A.getType()); a["name"] = A.getName().str(); a["sret"] = A.hasStructRetAttr(); a["byval"] = A.hasByValAttr(); args.push_back(std::move(a)); }
        o["args"] = std::move(args);
        DominatorTree DT(F); LoopInfo LI(DT);
        std::map<const BasicBlock *, int> bid; int n = 0; 
        ReversePostOrderTraversal<Function *> R(&F);
        for (auto *B : R) bid[B] = n++;
        json::Array blocks;
        for (auto *B : R) {
            json::Object b; b["id"] = bid[B];
            if (auto *D = DT.getNode(B)->getIDom()) b["idom"] = bid[D->getBlock()]; else b["idom"] = -1;
            Loop *L = LI.getLoopFor(B); b["loop"] = L ? bid[L->getHeader()] : -1;
            json::Array ins;
            for (auto &I : *B) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                json::Object i; i["id"] = getId(&I); i["op"] = I.getOpcodeName(); i["ty"] = tyStr(I.getType());
                if (auto *TB = I.getMetadata(LLVMContext::MD_tbaa)) if (TB->getNumOperands() >= 3) if (auto *BT = dyn_cast<MDNode>(TB->getOperand(0))) if (BT->getNumOperands()) if (auto *NM = dyn_cast<MDString>(BT->getOperand(0))) if (auto *OF = mdconst::dyn_extract<ConstantInt>(TB->getOperand(2))) {
                    json::Array t; t.push_back(NM->getString().str()); t.push_back(OF->getSExtValue()); i["tbaa"] = std::move(t); }
                if (I.getDebugLoc()) i["loc"] = loc(I.getDebugLoc());
                json::Array ops;
                if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { i["gep"] = gepInfo(cast<GEPOperator>(G)); }
                else if (auto *P = dyn_cast<PHINode>(&I)) {
                    for (unsigned k = 0; k < P->getNumIncomingValues(); k++) {
                        auto it = bid.find(P->getIncomingBlock(k)); if (it == bid.end()) continue;
                        json::Array e; e.push_back(it->second); e.push_back(operand(P->getIncomingValue(k))); ops.push_back(std::move(e));
                    }
                } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
                    if (Br->isConditional()) ops.push_back(operand(Br->getCondition()));
                    json::Array t; for (unsigned k = 0; k < Br->getNumSuccessors(); k++) t.push_back(bid[Br->getSuccessor(k)]); i["succ"] = std::move(t);
                } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
                    ops.push_back(operand(Sw->getCondition())); json::Array t;
                    t.push_back(bid[Sw->getDefaultDest()]);
                    json::Array cs; for (auto &c : Sw->cases()) { json::Array e; e.push_back(std::to_string(c.getCaseValue()->getSExtValue())); e.push_back(bid[c.getCaseSuccessor()]); cs.push_back(std::move(e)); }
                    i["succ"] = std::move(t); i["cases"] = std::move(cs);
                } else if (auto *CB = dyn_cast<CallBase>(&I)) {
                    if (auto *Fn = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) i["callee"] = Fn->getName().str();
                    else i["icallee"] = operand(CB->getCalledOperand());
                    for (auto &a : CB->args()) ops.push_back(operand(a.get()));
                    if (auto *IV = dyn_cast<InvokeInst>(CB)) { json::Array t; t.push_back(bid[IV->getNormalDest()]); t.push_back(bid[IV->getUnwindDest()]); i["succ"] = std::move(t); }
                    if (CB->doesNotThrow()) i["nt"] = true;
                } else if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
                    for (unsigned k = 0; k < LP->getNumClauses(); k++) if (LP->isCatch(k)) ops.push_back(operand(LP->getClause(k)));
                    i["cleanup"] = LP->isCleanup();
                } else {
                    if (auto *C = dyn_cast<CmpInst>(&I)) i["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
                    if (auto *A = dyn_cast<AllocaInst>(&I)) { i["aty"] = tyStr(A->getAllocatedType()); auto sz = A->getAllocationSize(DL); i["size"] = sz ? (int64_t)sz->getFixedValue() : -1; }
                    if (auto *St = dyn_cast<StoreInst>(&I)) { i["sty"] = tyStr(St->getValueOperand()->getType()); i["size"] = (int64_t)DL.getTypeStoreSize(St->getValueOperand()->getType()); }
                    if (auto *Ld = dyn_cast<LoadInst>(&I)) i["size"] = (int64_t)DL.getTypeStoreSize(Ld->getType());
                    if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (auto k : EV->indices()) x.push_back((int)k); i["idx"] = std::move(x); }
                    if (auto *IV = dyn_cast<InsertValueInst>(&I)) { json::Array x; for (auto k : IV->indices()) x.push_back((int)k); i["idx"] = std::move(x); }
                    if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) { json::Array x; for (auto k : SV->getShuffleMask()) x.push_back((int)k); i["idx"] = std::move(x); }
                    for (auto &u : I.operands()) ops.push_back(operand(u.get()));
                }
                i["ops"] = std::move(ops);
                ins.push_back(std::move(i));
            }
            b["ins"] = std::move(ins);
            blocks.push_back(std::move(b));
        }
        o["blocks"] = std::move(blocks);
        json::Array loops;
        for (auto *L : LI.getLoopsInPreorder()) { json::Object l; l["header"] = bid[L->getHeader()]; l["parent"] = L->getParentLoop() ? bid[L->getParentLoop()->getHeader()] : -1;
            json::Array bs; for (auto *B : L->blocks()) bs.push_back(bid[B]); l["blocks"] = std::move(bs); loops.push_back(std::move(l)); }
        o["loops"] = std::move(loops);
        return o;
    }
};


int main(int argc, char **argv) {
    if (argc < 4) { errs() << "usage\n"; return 2; }
    LLVMContext C; SMDiagnostic E; auto M = parseIRFile(argv[1], E, C);
    if (!M) { E.print("irdump", errs()); return 2; }
    json::Object ts; for (auto *T : M->getIdentifiedStructTypes()) if (T->isSized()) ts[T->getName()] = (int64_t)M->getDataLayout().getTypeAllocSize(T);
    std::vector<std::regex> opaque, inl, roots; bool list = false, keepInvoke = false; int maxSize = 100000;
    { std::ifstream f(argv[2]); std::string l;
      while (std::getline(f, l)) {
        if (l.rfind("opaque ", 0) == 0) opaque.emplace_back(l.substr(7), std::regex::ECMAScript | std::regex::optimize);
        else if (l.rfind("inline ", 0) == 0) inl.emplace_back(l.substr(7), std::regex::ECMAScript | std::regex::optimize);
        else if (l.rfind("root ", 0) == 0) roots.emplace_back(l.substr(5), std::regex::ECMAScript | std::regex::optimize);
        else if (l.rfind("maxsize ", 0) == 0) maxSize = atoi(l.substr(8).c_str());
        else if (l == "keepinvoke") keepInvoke = true;
        else if (l == "list") list = true; } }
    auto any = [](std::vector<std::regex> &v, const std::string &s) { for (auto &r : v) if (std::regex_search(s, r)) return true; return false; };
    for (bool again = true; again;) { again = false; for (auto &A : M->aliases()) if (auto *F = A.getAliaseeObject()) { A.replaceAllUsesWith(F); A.eraseFromParent(); again = true; break; } }
    std::set<std::string> rootNames;
    json::Array fl;
    for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        std::string d = demangle(F.getName().str());
        bool isRoot = any(roots, d);
        if (isRoot) rootNames.insert(F.getName().str());
        F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline);
        bool op = any(opaque, d) && !any(inl, d);
        bool big = F.getInstructionCount() > (unsigned)maxSize;
        if (op || big) F.addFnAttr(Attribute::NoInline); else F.addFnAttr(Attribute::AlwaysInline);
        F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); F.setVisibility(GlobalValue::DefaultVisibility); F.setDSOLocal(false);
    }
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    TargetLibraryInfoImpl TLII(Triple(M->getTargetTriple())); TLII.disableAllFunctions();
    FAM.registerPass([&] { return TargetLibraryAnalysis(TLII); });
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    auto run = [&](const char *p) { ModulePassManager X; if (auto e = PB.parsePassPipeline(X, p)) { errs() << toString(std::move(e)) << "\n"; exit(2); } X.run(*M, MAM); };
    run(keepInvoke ? "function(simplifycfg,sroa)" : "function(lowerinvoke,simplifycfg,sroa)");
    // only inline into what the roots reach: drop bodies of everything else first
    if (!rootNames.empty()) {
        std::set<Function *> reach; std::vector<Function *> w;
        for (auto &n : rootNames) w.push_back(M->getFunction(n));
        while (!w.empty()) { Function *F = w.back(); w.pop_back(); if (!F || F->isDeclaration() || !reach.insert(F).second) continue;
            if (F->hasFnAttribute(Attribute::NoInline) && !rootNames.count(F->getName().str())) { continue; }
            for (auto &B : *F) for (auto &I : B) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = CB->getCalledFunction()) w.push_back(G); }
        for (auto &F : *M) if (!F.isDeclaration() && (!reach.count(&F) || (F.hasFnAttribute(Attribute::NoInline) && !rootNames.count(F.getName().str())))) { F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
        MAM.clear(); FAM.clear(); CGAM.clear(); LAM.clear();
    }
    run("always-inline");
    // a scalar passed to a library call by constant reference is passed as a copy, so that it need not live in memory
    { std::regex cr(R"(^[^(]*std::(vector|unordered_map|unordered_set|map|set)<.*>::(push_back|emplace_back|resize|assign|vector|operator\[\]|find|count|contains|at|insert|emplace|erase)(<.*>)?\(.*&)");
      for (auto &F : *M) { if (F.isDeclaration()) continue;
        for (auto &B : F) for (auto &I : B) { auto *CB = dyn_cast<CallBase>(&I); if (!CB || !CB->getCalledFunction()) continue;
            bool any_ = false; for (unsigned k = 1; k < CB->arg_size(); k++) if (auto *A = dyn_cast<AllocaInst>(CB->getArgOperand(k))) if (A->getAllocatedType()->isIntegerTy() || A->getAllocatedType()->isDoubleTy() || A->getAllocatedType()->isPointerTy()) any_ = true;
            if (!any_ || !std::regex_search(demangle(CB->getCalledFunction()->getName().str()), cr)) continue;
            for (unsigned k = 1; k < CB->arg_size(); k++) if (auto *A = dyn_cast<AllocaInst>(CB->getArgOperand(k))) { auto *T = A->getAllocatedType();
                if (A->isArrayAllocation() || !(T->isIntegerTy() || T->isDoubleTy() || T->isPointerTy())) continue;
                auto *N = new AllocaInst(T, 0, "", &*F.getEntryBlock().begin());
                auto *L = new LoadInst(T, A, "", CB); new StoreInst(L, N, CB); CB->setArgOperand(k, N); } } } }
    run("function(simplifycfg,sroa,early-cse<memssa>,instsimplify,simplifycfg,sroa,early-cse<memssa>,adce,simplifycfg,loop-simplify,lcssa)");
    json::Object out; json::Object funcs; Dumper D(*M);
    for (auto &n : rootNames) { Function *F = M->getFunction(n); if (F && !F->isDeclaration()) funcs[n] = D.function(*F); }
    out["functions"] = std::move(funcs);
    // referenced names -> demangled
    json::Object dem; for (auto &F : *M) dem[F.getName()] = demangle(F.getName().str());
    out["dem"] = std::move(dem);
    json::Object gl;
    std::function<void(Constant *, uint64_t, json::Array &, int &)> flatC = [&](Constant *K, uint64_t off, json::Array &a, int &budget) {
        if (budget-- < 0) return;
        const DataLayout &DL = M->getDataLayout();
        if (auto *CS = dyn_cast<ConstantStruct>(K)) { auto *SL = DL.getStructLayout(CS->getType()); for (unsigned k = 0; k < CS->getNumOperands(); k++) flatC(CS->getOperand(k), off + SL->getElementOffset(k), a, budget); return; }
        if (auto *CA = dyn_cast<ConstantArray>(K)) { uint64_t es = DL.getTypeAllocSize(CA->getType()->getElementType()); for (unsigned k = 0; k < CA->getNumOperands(); k++) flatC(CA->getOperand(k), off + k * es, a, budget); return; }
        if (auto *CD = dyn_cast<ConstantDataSequential>(K)) { if (CD->isString()) return; uint64_t es = CD->getElementByteSize(); for (unsigned k = 0; k < CD->getNumElements(); k++) flatC(CD->getElementAsConstant(k), off + k * es, a, budget); return; }
        json::Array e; e.push_back((int64_t)off);
        if (auto *CE = dyn_cast<ConstantExpr>(K)) { if (CE->getOpcode() == Instruction::IntToPtr) K = CE->getOperand(0); }
        e.push_back(D.operand(K)); a.push_back(std::move(e));
    };
    for (auto &G : M->globals()) { json::Object g; g["const"] = G.isConstant(); g["ty"] = tyStr(G.getValueType()); g["tls"] = G.isThreadLocal(); g["local"] = G.hasLocalLinkage();
        if (G.hasInitializer()) { auto *In = G.getInitializer();
            if (auto *CS = dyn_cast<ConstantDataArray>(In)) { if (CS->isCString()) g["str"] = json::fixUTF8(CS->getAsCString()); }
            if (isa<ConstantFP>(In) || isa<ConstantInt>(In)) g["init"] = D.operand(In);
            if (auto *CD = dyn_cast<ConstantDataArray>(In)) { if (!CD->isString()) { json::Array a; for (unsigned k = 0; k < CD->getNumElements() && k < 256; k++) a.push_back(D.operand(CD->getElementAsConstant(k))); g["arr"] = std::move(a); } }
        }
        if (G.hasInitializer() && G.isConstant() && isa<ConstantAggregate>(G.getInitializer())) { json::Array a; int budget = 200; flatC(G.getInitializer(), 0, a, budget); if (budget >= 0) g["flat"] = std::move(a); }
        if (keepInvoke && G.hasInitializer()) {     // functions the initializer mentions, in order, with the strings before them
            json::Array a; std::function<void(Constant *, int)> w = [&](Constant *K, int d) { if (d > 6) return;
                if (auto *F = dyn_cast<Function>(K)) { a.push_back(F->getName().str()); return; }
                if (isa<GlobalValue>(K)) return;
                for (auto &u : K->operands()) if (auto *k = dyn_cast<Constant>(u.get())) w(k, d + 1); };
            w(G.getInitializer(), 0); if (!a.empty()) g["fnrefs"] = std::move(a); }
        gl[G.getName()] = std::move(g); }
    out["globals"] = std::move(gl);
    out["structs"] = std::move(ts);
    std::error_code ec; raw_fd_ostream os(argv[3], ec); os << json::Value(std::move(out));
    return 0;
}
