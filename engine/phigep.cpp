// opt plugin; pass "omv-phigep": rewrites the address of a load,
// gep(phi(a, b), constants), to phi(gep(a, constants), gep(b, constants)), so
// that value numbering can look for the value in each predecessor. What is
// loaded from is not null, so that null operands are left out.
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Instructions.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Passes/PassPlugin.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Transforms/Utils/LCSSA.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/Transforms/Utils/LoopPeel.h>
#include <llvm/Transforms/Utils/LoopSimplify.h>
using namespace llvm;

namespace {
struct PhiGep : PassInfoMixin<PhiGep> {
    PreservedAnalyses run(Function& f, FunctionAnalysisManager& am) {
        auto& li = am.getResult<LoopAnalysis>(f);
        bool changed = false;
        // an access through the null pointer is an event, and nothing follows it
        SmallVector<Instruction*, 8> bad;
        for (auto& b : f) for (auto& i : b) {
            auto p = getLoadStorePointerOperand(&i);
            if (p && !p->getType()->getPointerAddressSpace() && isa<ConstantPointerNull>(getUnderlyingObject(p, 100))) { bad.push_back(&i); break; }
        }
        if (!bad.empty()) {
            auto ev = f.getParent()->getOrInsertFunction("omv_null_access", FunctionType::get(Type::getVoidTy(f.getContext()), false));
            if (auto g = dyn_cast<Function>(ev.getCallee())) { g->setDoesNotReturn(); g->setDoesNotThrow(); }
            for (auto i : bad) {
                auto c = CallInst::Create(ev, "", i);
                c->setDoesNotReturn(); c->setDoesNotThrow(); c->setDebugLoc(i->getDebugLoc());
                changeToUnreachable(i);
            }
            return PreservedAnalyses::none();
        }
        for (int round = 0; round < 4; ++round) {
            SmallVector<LoadInst*, 64> loads;
            for (auto& b : f) for (auto& i : b) if (auto l = dyn_cast<LoadInst>(&i)) loads.push_back(l);
            bool again = false;
            for (auto l : loads) {
                auto g = dyn_cast<GetElementPtrInst>(l->getPointerOperand());
                if (!g || !g->hasAllConstantIndices()) continue;
                // what is loaded from is not null
                if (auto c = dyn_cast<SelectInst>(g->getPointerOperand()))
                    if (auto x = isa<ConstantPointerNull>(c->getTrueValue()) ? c->getFalseValue() : isa<ConstantPointerNull>(c->getFalseValue()) ? c->getTrueValue() : nullptr) {
                        SmallVector<Value*, 4> ix(g->indices());
                        l->setOperand(0, GetElementPtrInst::Create(g->getSourceElementType(), x, ix, "omv", g));
                        again = changed = true;
                        continue;
                    }
                if (auto c = dyn_cast<SelectInst>(g->getPointerOperand())) {
                    SmallVector<Value*, 4> ix(g->indices());
                    auto x = GetElementPtrInst::Create(g->getSourceElementType(), c->getTrueValue(), ix, "omv", g);
                    auto y = GetElementPtrInst::Create(g->getSourceElementType(), c->getFalseValue(), ix, "omv", g);
                    l->setOperand(0, SelectInst::Create(c->getCondition(), x, y, "omv", g));
                    again = changed = true;
                    continue;
                }
                auto p = dyn_cast<PHINode>(g->getPointerOperand());
                if (!p || li.isLoopHeader(p->getParent()) || p->getNumIncomingValues() > 64) continue;
                bool ok = true;
                for (auto& v : p->incoming_values())
                    ok &= isa<Instruction>(v) || isa<Argument>(v) || isa<GlobalValue>(v) || isa<Constant>(v);
                for (auto b : p->blocks()) ok &= !isa<InvokeInst>(b->getTerminator());
                if (!ok) continue;
                auto q = PHINode::Create(g->getType(), p->getNumIncomingValues(), "omv", p);
                DenseMap<BasicBlock*, Value*> made;
                for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) {
                    auto b = p->getIncomingBlock(k);
                    auto& v = made[b];
                    if (isa<ConstantPointerNull>(p->getIncomingValue(k))) v = PoisonValue::get(g->getType());
                    if (!v) {
                        SmallVector<Value*, 4> ix(g->indices());
                        auto n = GetElementPtrInst::Create(g->getSourceElementType(), p->getIncomingValue(k), ix, "omv", b->getTerminator());
                        v = n;
                    }
                    q->addIncoming(v, b);
                }
                l->setOperand(0, q);
                again = changed = true;
            }
            if (!again) break;
        }
        return changed ? PreservedAnalyses::none() : PreservedAnalyses::all();
    }
};

// one back edge per loop: loop-simplify would make nested loops of several
struct OneLatch : PassInfoMixin<OneLatch> {
    PreservedAnalyses run(Function& f, FunctionAnalysisManager& am) {
        auto& li = am.getResult<LoopAnalysis>(f);
        std::vector<std::pair<BasicBlock*, SmallVector<BasicBlock*, 8>>> todo;
        for (auto l : li.getLoopsInPreorder()) {
            SmallVector<BasicBlock*, 8> latches;
            l->getLoopLatches(latches);
            bool ok = latches.size() > 1;
            for (auto b : latches) ok &= isa<BranchInst>(b->getTerminator()) || isa<SwitchInst>(b->getTerminator());
            if (ok) todo.push_back({l->getHeader(), latches});
        }
        for (auto& [h, latches] : todo) SplitBlockPredecessors(h, latches, ".latch");
        return todo.empty() ? PreservedAnalyses::all() : PreservedAnalyses::none();
    }
};

// loops along a linked list have no trip count: peel them
struct PeelWalks : PassInfoMixin<PeelWalks> {
    bool any;   // any loop, one iteration at a time
    explicit PeelWalks(bool a) : any(a) {}
    static bool walk(Loop* l) {
        auto latch = l->getLoopLatch();
        if (!latch) return false;
        for (auto& p : l->getHeader()->phis()) {
            if (!p.getType()->isPointerTy()) continue;
            auto n = dyn_cast<LoadInst>(p.getIncomingValueForBlock(latch));
            if (n && l->contains(n) && n->getPointerOperand()->stripPointerCasts() != &p) {
                auto g = dyn_cast<GetElementPtrInst>(n->getPointerOperand());
                if (g && g->getPointerOperand() == &p && g->hasAllConstantIndices()) return true;
            } else if (n && n->getPointerOperand() == &p) return true;
        }
        return false;
    }
    PreservedAnalyses run(Function& f, FunctionAnalysisManager& am) {
        auto& li = am.getResult<LoopAnalysis>(f);
        auto& dt = am.getResult<DominatorTreeAnalysis>(f);
        auto& se = am.getResult<ScalarEvolutionAnalysis>(f);
        auto& ac = am.getResult<AssumptionAnalysis>(f);
        bool changed = false;
        // the outermost ones; those inside are seen again in each copy
        SmallVector<Loop*, 8> todo(li.begin(), li.end()), pick;
        while (!todo.empty()) {
            auto l = todo.pop_back_val();
            simplifyLoop(l, &dt, &li, &se, &ac, nullptr, true);
            if ((any || walk(l)) && canPeel(l)) pick.push_back(l);
            else todo.append(l->begin(), l->end());
        }
        for (auto l : pick) {
            formLCSSARecursively(*l, dt, &li, &se);
            ValueToValueMapTy vm;
            changed |= peelLoop(l, any ? 1 : 5, &li, &se, dt, &ac, true, vm);
        }
        return changed || !pick.empty() ? PreservedAnalyses::none() : PreservedAnalyses::all();
    }
};

// bounded analysis of searches: a loop that gives up after so many iterations
// that it cannot be unrolled gives up after one or two
struct FewTries : PassInfoMixin<FewTries> {
    unsigned tries;
    explicit FewTries(unsigned n) : tries(n) {}
    PreservedAnalyses run(Function& f, FunctionAnalysisManager& am) {
        auto& li = am.getResult<LoopAnalysis>(f);
        bool changed = false;
        for (auto l : li.getLoopsInPreorder()) {
            SmallVector<BasicBlock*, 4> ex;
            l->getExitingBlocks(ex);
            for (auto b : ex) {
                auto br = dyn_cast<BranchInst>(b->getTerminator());
                auto c = br && br->isConditional() ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr;
                for (int i = 0; c && i < 2; ++i) {
                    auto k = dyn_cast<ConstantInt>(c->getOperand(i));
                    if (k && k->getBitWidth() <= 64 && k->getSExtValue() > 1024) {
                        c->setOperand(i, ConstantInt::get(k->getType(), tries));
                        changed = true;
                    }
                }
            }
        }
        return changed ? PreservedAnalyses::none() : PreservedAnalyses::all();
    }
};
}

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "omv", "1", [](PassBuilder& pb) {
        pb.registerPipelineParsingCallback([](StringRef n, FunctionPassManager& pm, ArrayRef<PassBuilder::PipelineElement>) {
            if (n == "omv-peel") { pm.addPass(PeelWalks(false)); return true; }
            if (n == "omv-peel-one") { pm.addPass(PeelWalks(true)); return true; }
            if (n == "omv-few1") { pm.addPass(FewTries(1)); return true; }
            if (n == "omv-few2") { pm.addPass(FewTries(2)); return true; }
            if (n == "omv-latch") { pm.addPass(OneLatch()); return true; }
            if (n != "omv-phigep") return false;
            pm.addPass(PhiGep());
            return true;
        });
    }};
}
