// irlint: facts about every function of the repository, from LLVM bitcode (before optimisation).
//   irlint MODULE.bc ROOTDIR OUT.json
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <fstream>
#include <map>
#include <set>
#include <vector>
using namespace llvm;
static std::string fileOf(const DIFile *f) {
    if (!f) return "";
    std::string n = f->getFilename().str();
    if (!n.empty() && n[0] == '/') return n;
    return f->getDirectory().str() + "/" + n;
}
static json::Value locOf(const Instruction &I) {
    if (auto *D = I.getDebugLoc().get()) return json::Array{fileOf(D->getFile()), (int64_t)D->getLine()};
    return nullptr;
}
static std::string dem(StringRef n) { return demangle(n.str()); }
static const Function *calleeOf(const CallBase *C) { return dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts()); }
static bool isNow(const std::string &d) { return d.find("std::chrono::") == 0 && d.find("_clock::now()") != std::string::npos; }
// uses of a time stamp other than arithmetic of std::chrono and diagnostics
static void timeEscapes(const Function &F, json::Array &out) {
    std::set<const Value *> T; std::vector<const Value *> W; int n = 0;
    auto push = [&](const Value *v) { if (!isa<Constant>(v) && T.insert(v).second) W.push_back(v); };
    for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = calleeOf(C)) if (isNow(dem(G->getName()))) { push(&I); n++; }
    if (!n) return;
    while (!W.empty()) {
        auto *v = W.back(); W.pop_back();
        for (auto *u : v->users()) {
            auto *I = dyn_cast<Instruction>(u); if (!I) continue;
            if (auto *S = dyn_cast<StoreInst>(I)) {
                if (S->getPointerOperand() == v) continue;      // overwritten
                auto *b = S->getPointerOperand()->stripInBoundsOffsets();
                if (isa<AllocaInst>(b)) push(b); else out.push_back(json::Array{"stored", locOf(*I)});
            } else if (isa<LoadInst>(I) || isa<GetElementPtrInst>(I) || isa<CastInst>(I) || isa<PHINode>(I) || isa<BinaryOperator>(I) || isa<ExtractValueInst>(I) || isa<InsertValueInst>(I) || isa<UnaryOperator>(I) || isa<FreezeInst>(I)) {
                push(I);
                if (auto *G = dyn_cast<GetElementPtrInst>(I)) (void)G;
            } else if (auto *C = dyn_cast<CallBase>(I)) {
                auto *G = calleeOf(C); std::string d = G ? dem(G->getName()) : "indirect call";
                size_t fp = d.find('(');
                std::string head = d.substr(0, fp);
                bool chr = head.find("std::chrono::") != std::string::npos || d.find("std::chrono::") != std::string::npos;
                if (d.find("nikfemm::nlog") == 0 || d.find("llvm.") == 0 || d == "printf") {
                    if (isa<MemCpyInst>(C)) { auto *b = cast<MemCpyInst>(C)->getDest()->stripInBoundsOffsets(); if (isa<AllocaInst>(b)) push(b); else out.push_back(json::Array{"copied", locOf(*I)}); }
                    continue;
                }
                if (chr) { if (!I->getType()->isVoidTy()) push(I); for (auto &a : C->args()) { auto *b = a->stripInBoundsOffsets(); if (isa<AllocaInst>(b)) push(b); } continue; }
                out.push_back(json::Array{"passed to " + d, locOf(*I)});
            } else if (isa<ReturnInst>(I)) out.push_back(json::Array{"returned", locOf(*I)});
            else if (isa<CmpInst>(I) || isa<BranchInst>(I) || isa<SwitchInst>(I) || isa<SelectInst>(I)) out.push_back(json::Array{"compared", locOf(*I)});
            else out.push_back(json::Array{"used", locOf(*I)});
        }
    }
}
int main(int argc, char **argv) {
    LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("irlint", errs()); return 1; }
    std::string root = argv[2];
    json::Array fs, gs;
    for (auto &G : M->globals()) {
        if (G.isDeclaration()) continue;
        json::Object o; o["name"] = G.getName().str(); o["dem"] = dem(G.getName()); o["const"] = G.isConstant(); o["tls"] = G.isThreadLocal();
        SmallVector<DIGlobalVariableExpression *, 1> D; G.getDebugInfo(D);
        if (!D.empty()) { auto *v = D[0]->getVariable(); o["file"] = fileOf(v->getFile()); o["line"] = (int64_t)v->getLine(); o["src"] = v->getName().str();
            const DIType *t = v->getType(); bool c = false;
            while (t) { if (t->getTag() == dwarf::DW_TAG_const_type) { c = true; break; }
                if (auto *d = dyn_cast<DIDerivedType>(t)) { if (t->getTag() == dwarf::DW_TAG_pointer_type || t->getTag() == dwarf::DW_TAG_reference_type) break; t = d->getBaseType(); }
                else if (auto *a = dyn_cast<DICompositeType>(t)) { if (t->getTag() != dwarf::DW_TAG_array_type) break; t = a->getBaseType(); }
                else break; }
            o["ctype"] = c; }
        int users = 0, writes = 0; 
        std::vector<const User *> W(G.user_begin(), G.user_end()); std::set<const User *> seen;
        while (!W.empty()) { auto *u = W.back(); W.pop_back(); if (!seen.insert(u).second) continue; users++;
            if (auto *S = dyn_cast<StoreInst>(u)) { (void)S; writes++; } else if (isa<CallBase>(u)) writes++;
            else if (isa<GEPOperator>(u) || isa<ConstantExpr>(u)) for (auto *x : u->users()) W.push_back(x); }
        o["users"] = users; o["writes"] = writes;
        gs.push_back(std::move(o));
    }
    for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        auto *SP = F.getSubprogram();
        std::string file = SP ? fileOf(SP->getFile()) : "";
        json::Object o; o["name"] = F.getName().str(); o["dem"] = dem(F.getName()); o["file"] = file; o["line"] = SP ? (int64_t)SP->getLine() : 0; o["nounwind"] = F.doesNotThrow();
        bool repo = file.find(root) == 0;
        json::Array calls, pti, glob; std::set<std::string> gseen;
        std::set<const BasicBlock *> term;
        for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = calleeOf(C)) if (G->getName() == "__clang_call_terminate") {
            // the landing pad that ends in terminate
            term.insert(&B);
        }
        for (auto &B : F) for (auto &I : B) {
            if (auto *C = dyn_cast<CallBase>(&I)) {
                auto *G = calleeOf(C);
                if (G && G->isIntrinsic()) continue;
                json::Object c; c["callee"] = G ? G->getName().str() : ""; c["loc"] = locOf(I); c["nt"] = C->doesNotThrow();
                if (auto *V = dyn_cast<InvokeInst>(&I)) { c["invoke"] = true; if (term.count(V->getUnwindDest())) c["term"] = true; }
                else c["unwinds"] = !C->doesNotThrow();
                calls.push_back(std::move(c));
            }
            if (isa<PtrToIntInst>(I) && repo) {
                bool diff = true;
                for (auto *u : I.users()) if (!(isa<BinaryOperator>(u) && cast<BinaryOperator>(u)->getOpcode() == Instruction::Sub)) diff = false;
                if (!diff) pti.push_back(locOf(I));
            }
            if (repo) for (auto &op : I.operands()) {
                std::vector<const Value *> W{op.get()}; std::set<const Value *> s;
                while (!W.empty()) { auto *v = W.back(); W.pop_back(); if (!s.insert(v).second) continue;
                    if (auto *g = dyn_cast<GlobalVariable>(v)) { if (!g->isConstant() && gseen.insert(g->getName().str()).second) glob.push_back(json::Array{g->getName().str(), locOf(I)}); }
                    else if (auto *c = dyn_cast<ConstantExpr>(v)) for (auto &q : c->operands()) W.push_back(q.get()); }
            }
        }
        o["calls"] = std::move(calls); o["ptrtoint"] = std::move(pti); o["globals"] = std::move(glob);
        { std::set<const BasicBlock *> R; std::vector<const BasicBlock *> W{&F.getEntryBlock()}; bool ret = false;
          while (!W.empty()) { auto *b = W.back(); W.pop_back(); if (!R.insert(b).second) continue; if (isa<ReturnInst>(b->getTerminator())) ret = true; for (auto *s : successors(b)) W.push_back(s); }
          o["returns"] = ret; }
        if (repo) { json::Array t; timeEscapes(F, t); o["time"] = std::move(t); }
        fs.push_back(std::move(o));
    }
    json::Object ds;
    for (auto &F : *M) ds[F.getName().str()] = dem(F.getName());
    std::error_code ec; raw_fd_ostream os(argv[3], ec);
    os << json::Value(json::Object{{"functions", std::move(fs)}, {"globals", std::move(gs)}, {"dem", std::move(ds)}});
    return 0;
}
