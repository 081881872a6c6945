// irx: dump selected functions of an LLVM module as JSON, for the analyses in
// engine/*.py. GEPs are resolved to byte offsets, constant expressions are
// expanded, debug locations (with inlining chain) are attached, and the
// attributes that the analyses need (readnone, noreturn...) are made explicit.
//
//   irx MODULE PREFIX...      functions whose demangled-free name starts with
//                             one of the prefixes ("" = all definitions)
//   irx --demangled MODULE SUBSTRING...   select on the demangled name
#include <llvm/ADT/StringExtras.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>

using namespace llvm;
namespace js = llvm::json;

static const DataLayout* DL;
static std::map<const Value*, int> ids;

static std::string tystr(Type* t) {
    std::string s;
    raw_string_ostream os(s);
    t->print(os, false, true);
    return s;
}

static js::Value val(const Value* v);

static js::Value constval(const Constant* c) {
    if (auto ci = dyn_cast<ConstantInt>(c)) {
        SmallString<32> s;
        ci->getValue().toStringUnsigned(s);
        return js::Array{"c", (int64_t)ci->getBitWidth(), std::string(s)};
    }
    if (isa<ConstantPointerNull>(c))
        return js::Array{"null"};
    if (isa<PoisonValue>(c))
        return js::Array{"undef", tystr(c->getType())};
    if (isa<UndefValue>(c))
        return js::Array{"undef", tystr(c->getType())};
    if (isa<ConstantAggregateZero>(c))
        return js::Array{"zero", tystr(c->getType())};
    if (auto ga = dyn_cast<GlobalAlias>(c))
        return val(ga->getAliasee());
    if (auto gv = dyn_cast<GlobalValue>(c))
        return js::Array{"g", gv->getName().str()};
    if (auto fp = dyn_cast<ConstantFP>(c)) {
        SmallString<32> s;
        fp->getValueAPF().bitcastToAPInt().toStringUnsigned(s);
        return js::Array{"fp", tystr(c->getType()), std::string(s)};
    }
    if (auto ce = dyn_cast<ConstantExpr>(c)) {
        if (auto gep = dyn_cast<GEPOperator>(ce)) {
            APInt off(64, 0);
            if (gep->accumulateConstantOffset(*DL, off))
                return js::Array{
                    "gep", val(gep->getPointerOperand()),
                    (int64_t)off.getSExtValue()};
        }
        js::Array ops;
        for (auto& o : ce->operands())
            ops.push_back(val(o.get()));
        return js::Array{
            "ce", std::string(Instruction::getOpcodeName(ce->getOpcode())), tystr(ce->getType()),
            std::move(ops)};
    }
    if (auto ca = dyn_cast<ConstantAggregate>(c)) {
        js::Array ops;
        for (auto& o : ca->operands())
            ops.push_back(val(o.get()));
        return js::Array{"agg", tystr(c->getType()), std::move(ops)};
    }
    if (auto cd = dyn_cast<ConstantDataSequential>(c)) {
        js::Array ops;
        for (unsigned i = 0; i < cd->getNumElements(); ++i)
            ops.push_back(val(cd->getElementAsConstant(i)));
        return js::Array{"agg", tystr(c->getType()), std::move(ops)};
    }
    std::string s;
    raw_string_ostream os(s);
    c->print(os);
    return js::Array{"const", s};
}

static js::Value val(const Value* v) {
    if (auto a = dyn_cast<Argument>(v))
        return js::Array{"a", (int64_t)a->getArgNo()};
    if (auto i = dyn_cast<Instruction>(v))
        return js::Array{"i", (int64_t)ids.at(i)};
    if (auto b = dyn_cast<BasicBlock>(v))
        return js::Array{"b", (int64_t)ids.at(b)};
    if (auto c = dyn_cast<Constant>(v))
        return constval(c);
    if (isa<InlineAsm>(v))
        return js::Array{"asm"};
    if (isa<MetadataAsValue>(v))
        return js::Array{"md"};
    return js::Array{"?"};
}

static js::Value fnattrs(const Function* f) {
    js::Array a;
    if (f->doesNotAccessMemory())
        a.push_back("readnone");
    if (f->onlyReadsMemory())
        a.push_back("readonly");
    if (f->doesNotReturn())
        a.push_back("noreturn");
    if (f->doesNotThrow())
        a.push_back("nounwind");
    if (f->willReturn())
        a.push_back("willreturn");
    return a;
}

static js::Value loc(const Instruction& I) {
    js::Array chain;
    for (const DILocation* l = I.getDebugLoc().get(); l; l = l->getInlinedAt()) {
        std::string fn;
        if (auto sp = l->getScope()->getSubprogram())
            fn = sp->getName().str();
        chain.push_back(js::Array{
            l->getFilename().str(), (int64_t)l->getLine(), fn});
    }
    return chain;
}

static js::Value geptype(const GetElementPtrInst* g) {
    return tystr(g->getSourceElementType());
}

static js::Value instr(const Instruction& I) {
    js::Object o;
    o["id"] = ids.at(&I);
    o["op"] = I.getOpcodeName();
    o["ty"] = tystr(I.getType());
    if (I.getDebugLoc())
        o["loc"] = loc(I);
    js::Array ops;
    for (auto& u : I.operands()) {
        if (auto mv = dyn_cast<MetadataAsValue>(u.get())) {
            (void)mv;
            ops.push_back(js::Array{"md"});
        } else
            ops.push_back(val(u.get()));
    }
    o["ops"] = std::move(ops);
    if (auto g = dyn_cast<GetElementPtrInst>(&I)) {
        APInt c(64, 0);
        MapVector<Value*, APInt> vars;
        if (g->collectOffset(*DL, 64, vars, c)) {
            o["off"] = (int64_t)c.getSExtValue();
            js::Array vs;
            for (auto& p : vars)
                vs.push_back(js::Array{
                    val(p.first), (int64_t)p.second.getSExtValue()});
            o["vars"] = std::move(vs);
        }
        o["sty"] = geptype(g);
        js::Array idx;
        for (auto it = g->idx_begin(); it != g->idx_end(); ++it)
            idx.push_back(val(it->get()));
        o["idx"] = std::move(idx);
        o["inbounds"] = g->isInBounds();
    }
    if (auto c = dyn_cast<CmpInst>(&I))
        o["pred"] = std::string(CmpInst::getPredicateName(c->getPredicate()));
    if (auto l = dyn_cast<LoadInst>(&I)) {
        o["size"] = (int64_t)DL->getTypeStoreSize(l->getType());
        o["volatile"] = l->isVolatile();
    }
    if (auto s = dyn_cast<StoreInst>(&I)) {
        o["size"] =
            (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType());
        o["volatile"] = s->isVolatile();
    }
    if (auto a = dyn_cast<AllocaInst>(&I)) {
        o["size"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType());
        o["aty"] = tystr(a->getAllocatedType());
    }
    if (auto rmw = dyn_cast<AtomicRMWInst>(&I))
        o["rmw"] = std::string(AtomicRMWInst::getOperationName(rmw->getOperation()));
    if (auto ev = dyn_cast<ExtractValueInst>(&I)) {
        js::Array ix;
        for (auto i : ev->indices())
            ix.push_back((int64_t)i);
        o["ix"] = std::move(ix);
    }
    if (auto iv = dyn_cast<InsertValueInst>(&I)) {
        js::Array ix;
        for (auto i : iv->indices())
            ix.push_back((int64_t)i);
        o["ix"] = std::move(ix);
    }
    if (auto p = dyn_cast<PHINode>(&I)) {
        js::Array inc;
        for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
            inc.push_back(js::Array{
                val(p->getIncomingValue(i)),
                (int64_t)ids.at(p->getIncomingBlock(i))});
        o["inc"] = std::move(inc);
    }
    if (auto s = dyn_cast<SwitchInst>(&I)) {
        js::Array cases;
        for (auto& c : s->cases())
            cases.push_back(js::Array{
                val(c.getCaseValue()), (int64_t)ids.at(c.getCaseSuccessor())});
        o["cases"] = std::move(cases);
        o["default"] = (int64_t)ids.at(s->getDefaultDest());
    }
    if (auto b = dyn_cast<BranchInst>(&I)) {
        js::Array t;
        for (unsigned i = 0; i < b->getNumSuccessors(); ++i)
            t.push_back((int64_t)ids.at(b->getSuccessor(i)));
        o["succ"] = std::move(t);
    }
    if (auto c = dyn_cast<CallBase>(&I)) {
        js::Array args;
        js::Array aattr;
        for (unsigned i = 0; i < c->arg_size(); ++i) {
            auto& u = c->getArgOperandUse(i);
            args.push_back(
                isa<MetadataAsValue>(u.get()) ? js::Value(js::Array{"md"})
                                              : val(u.get()));
            js::Array at;
            if (c->paramHasAttr(i, Attribute::StructRet))
                at.push_back("sret");
            if (c->paramHasAttr(i, Attribute::NoCapture))
                at.push_back("nocapture");
            if (c->paramHasAttr(i, Attribute::ReadOnly))
                at.push_back("readonly");
            if (c->paramHasAttr(i, Attribute::ByVal))
                at.push_back(
                    "byval:" +
                    std::to_string((uint64_t)DL->getTypeAllocSize(
                        c->getParamByValType(i))));
            aattr.push_back(std::move(at));
        }
        o["args"] = std::move(args);
        o["aattr"] = std::move(aattr);
        js::Array attrs;
        if (c->doesNotAccessMemory())
            attrs.push_back("readnone");
        if (c->onlyReadsMemory())
            attrs.push_back("readonly");
        if (c->doesNotReturn())
            attrs.push_back("noreturn");
        if (c->doesNotThrow())
            attrs.push_back("nounwind");
        if (c->onlyAccessesArgMemory())
            attrs.push_back("argmemonly");
        if (c->onlyAccessesInaccessibleMemory())
            attrs.push_back("inaccessible");
        if (c->hasRetAttr(Attribute::NoAlias))
            attrs.push_back("noalias");
        if (c->isMustTailCall())
            attrs.push_back("musttail");
        o["attrs"] = std::move(attrs);
        if (auto f = c->getCalledFunction()) {
            o["callee"] = f->getName().str();
            if (f->isIntrinsic())
                o["intrinsic"] = true;
        } else
            o["fp"] = val(c->getCalledOperand());
        if (auto inv = dyn_cast<InvokeInst>(c)) {
            o["normal"] = (int64_t)ids.at(inv->getNormalDest());
            o["unwind"] = (int64_t)ids.at(inv->getUnwindDest());
        }
    }
    return o;
}

// irx --prep IN OUT ALWAYS NEVER KEEP: decide what is inlined. Functions whose
// demangled name matches NEVER stay calls, others that match ALWAYS are
// inlined at every call site, whatever the call site looks like.
static int prep(int argc, char** argv) {
    if (argc < 6)
        return 3;
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(argv[2], err, ctx);
    if (!m) {
        err.print(argv[0], errs());
        return 3;
    }
    // allocation functions change nothing that the program can see
    for (auto n : {"_Znwm", "_Znam"})
        if (auto f = m->getFunction(n))
            f->setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
    // nor do these, whose calls are what is compared
    for (auto& f : *m)
        if (f.isDeclaration() && f.getName().starts_with("omv_rec_")) {
            f.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
            f.setDoesNotThrow();
        }
    // direct recursion is peeled to a constant depth; what is left beyond it is
    // a call to omv_deep, which no specification contains
    const int depth = argc > 6 ? atoi(argv[6]) : 0;
    if (depth > 0) {
        std::vector<Function*> rec;
        for (auto& f : *m) {
            bool self = false;
            for (auto* u : f.users())
                if (auto* c = dyn_cast<CallBase>(u))
                    self |= c->getCalledFunction() == &f && c->getFunction() == &f;
            if (self && !f.isDeclaration())
                rec.push_back(&f);
        }
        for (auto* f : rec) {
            std::vector<Function*> lv{f};
            for (int i = 0; i < depth; ++i) {
                ValueToValueMapTy vm;
                lv.push_back(CloneFunction(f, vm));
                lv.back()->setLinkage(GlobalValue::InternalLinkage);
                lv.back()->setComdat(nullptr);
            }
            auto* end = Function::Create(f->getFunctionType(), GlobalValue::ExternalLinkage, "omv_deep", m.get());
            lv.push_back(end);
            for (int i = 0; i <= depth; ++i)
                for (auto& b : *lv[i])
                    for (auto& in : b)
                        if (auto* c = dyn_cast<CallBase>(&in))
                            if (c->getCalledFunction() == f)
                                c->setCalledFunction(lv[i + 1]);
        }
    }
    Regex always(argv[4]), never(argv[5]);
    for (auto& f : *m) {
        auto d = demangle(f.getName().str());
        f.removeFnAttr(Attribute::OptimizeNone);
        if (f.isDeclaration())
            continue;
        StringRef n = f.getName();
        if (n.starts_with("probe_") || n.starts_with("ref_"))
            continue;
        f.removeFnAttr(Attribute::Cold);
        if (*argv[5] && never.match(d)) {
            f.removeFnAttr(Attribute::AlwaysInline);
            f.addFnAttr(Attribute::NoInline);
        } else if (always.match(d)) {
            f.removeFnAttr(Attribute::NoInline);
            f.addFnAttr(Attribute::AlwaysInline);
        }
    }
    std::error_code ec;
    raw_fd_ostream os(argv[3], ec, sys::fs::OF_None);
    if (ec)
        return 3;
    WriteBitcodeToFile(*m, os);
    return 0;
}

int main(int argc, char** argv) {
    if (argc > 1 && StringRef(argv[1]) == "--prep")
        return prep(argc, argv);
    bool dem = false;
    int k = 1;
    if (argc > 1 && StringRef(argv[1]) == "--demangled") {
        dem = true;
        ++k;
    }
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(argv[k++], err, ctx);
    if (!m) {
        err.print(argv[0], errs());
        return 3;
    }
    DL = &m->getDataLayout();
    std::vector<std::string> want(argv + k, argv + argc);
    js::Array fns;
    for (auto& f : *m) {
        if (f.isDeclaration())
            continue;
        auto name = f.getName().str();
        auto dname = demangle(name);
        bool sel = want.empty();
        for (auto& w : want)
            sel = sel ||
                (dem ? dname.find(w) != std::string::npos
                     : name.compare(0, w.size(), w) == 0);
        if (!sel)
            continue;
        ids.clear();
        int n = 0, b = 0;
        for (auto& bb : f) {
            ids[&bb] = b++;
            for (auto& i : bb)
                ids[&i] = n++;
        }
        DominatorTree dt(f);
        LoopInfo li(dt);
        js::Object fo;
        fo["name"] = name;
        fo["dname"] = dname;
        fo["ret"] = tystr(f.getReturnType());
        if (auto sp = f.getSubprogram()) {
            fo["file"] = sp->getFilename().str();
            fo["line"] = (int64_t)sp->getLine();
        }
        js::Array args;
        for (auto& a : f.args()) {
            js::Object ao;
            ao["ty"] = tystr(a.getType());
            ao["name"] = a.getName().str();
            js::Array at;
            if (a.hasNoAliasAttr())
                at.push_back("noalias");
            if (a.hasStructRetAttr())
                at.push_back("sret");
            if (a.hasNonNullAttr(false))
                at.push_back("nonnull");
            if (a.hasByValAttr())
                at.push_back("byval");
            ao["attrs"] = std::move(at);
            args.push_back(std::move(ao));
        }
        fo["args"] = std::move(args);
        js::Array blocks;
        for (auto& bb : f) {
            js::Object bo;
            bo["id"] = ids[&bb];
            bo["name"] = bb.getName().str();
            js::Array ins;
            for (auto& i : bb) {
                if (isa<DbgInfoIntrinsic>(i))
                    continue;
                ins.push_back(instr(i));
            }
            bo["ins"] = std::move(ins);
            js::Array succ, pred;
            for (auto s : successors(&bb))
                succ.push_back((int64_t)ids[s]);
            for (auto s : predecessors(&bb))
                pred.push_back((int64_t)ids[s]);
            bo["succ"] = std::move(succ);
            bo["pred"] = std::move(pred);
            if (auto node = dt.getNode(&bb))
                bo["idom"] = node->getIDom()
                    ? (int64_t)ids[node->getIDom()->getBlock()]
                    : (int64_t)-1;
            js::Array loops;
            for (auto l = li.getLoopFor(&bb); l; l = l->getParentLoop())
                loops.push_back((int64_t)ids[l->getHeader()]);
            bo["loops"] = std::move(loops);
            blocks.push_back(std::move(bo));
        }
        fo["blocks"] = std::move(blocks);
        fns.push_back(std::move(fo));
    }
    js::Array decls;
    for (auto& f : *m)
        decls.push_back(js::Object{
            {"name", f.getName().str()},
            {"dname", demangle(f.getName().str())},
            {"decl", f.isDeclaration()},
            {"attrs", fnattrs(&f)}});
    js::Array globals;
    for (auto& g : m->globals()) {
        js::Object go{
            {"name", g.getName().str()},
            {"dname", demangle(g.getName().str())},
            {"const", g.isConstant()},
            {"decl", g.isDeclaration()},
            {"size", (int64_t)(g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0)}};
        if (g.hasInitializer() && g.isConstant() &&
            (uint64_t)DL->getTypeAllocSize(g.getValueType()) < 4096)
            go["init"] = constval(g.getInitializer());
        globals.push_back(std::move(go));
    }
    js::Object out;
    out["functions"] = std::move(fns);
    out["decls"] = std::move(decls);
    out["globals"] = std::move(globals);
    outs() << js::Value(std::move(out)) << "\n";
    return 0;
}
