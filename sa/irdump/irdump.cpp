// irdump: reads LLVM bitcode/IR, runs mem2reg, and prints a resolved program description as JSON.
// It performs no analysis of its own; the Python checkers in ../ do.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <set>
using namespace llvm;
static const DataLayout* DL;
static std::map<const Value*, int> ids;

static std::string tystr(Type* t)
{
    std::string s; raw_string_ostream o(s);
    if (auto* st = dyn_cast<StructType>(t)) { if (st->hasName()) return "%" + st->getName().str(); }
    t->print(o, false, true); return o.str();
}
static json::Value constOp(const Constant* c);
static json::Value gepParts(const GEPOperator* g, json::Value base, std::function<json::Value(const Value*)> conv)
{
    unsigned bw = DL->getIndexTypeSizeInBits(g->getType());
    MapVector<Value*, APInt> var; APInt off(bw, 0);
    json::Array a;
    if (!g->collectOffset(*DL, bw, var, off)) { a = json::Array{"gep?", std::move(base)}; return a; }
    json::Array vs;
    for (auto& kv : var) vs.push_back(json::Array{conv(kv.first), (int64_t)kv.second.getSExtValue()});
    std::string ty = tystr(g->getSourceElementType());
    if (auto* i = dyn_cast<Instruction>(g)) if (auto* m = i->getMetadata("sa.t")) ty = "%" + cast<MDString>(m->getOperand(0))->getString().str();
    return json::Array{"gep", std::move(base), off.getSExtValue(), std::move(vs), ty};
}
static json::Value val(const Value* v)
{
    if (auto* c = dyn_cast<Constant>(v)) return constOp(c);
    if (isa<BasicBlock>(v)) return json::Array{"bb", ids[v]};
    if (isa<MetadataAsValue>(v)) return json::Array{"md"};
    if (isa<InlineAsm>(v)) return json::Array{"asm"};
    return json::Array{"v", ids[v]};
}
static json::Value constOp(const Constant* c)
{
    if (auto* i = dyn_cast<ConstantInt>(c))
    {
        if (i->getBitWidth() <= 64) return json::Array{"i", (int64_t)i->getBitWidth(), i->getSExtValue()};
        return json::Array{"u"};
    }
    if (isa<ConstantPointerNull>(c)) return json::Array{"null"};
    if (isa<UndefValue>(c)) return json::Array{"undef", tystr(c->getType())};
    if (auto* al = dyn_cast<GlobalAlias>(c)) if (auto* t = al->getAliaseeObject()) return json::Array{"g", t->getName().str()};
    if (auto* g = dyn_cast<GlobalValue>(c)) return json::Array{"g", g->getName().str()};
    if (auto* f = dyn_cast<ConstantFP>(c)) { SmallString<32> s; f->getValueAPF().toString(s); return json::Array{"f", s.str().str()}; }
    if (isa<ConstantAggregateZero>(c)) return json::Array{"zero", tystr(c->getType()), (int64_t)DL->getTypeAllocSize(c->getType())};
    if (auto* d = dyn_cast<ConstantDataSequential>(c))
    {
        json::Array a;
        if (d->getElementType()->isIntegerTy())
            for (unsigned k = 0; k < d->getNumElements(); k++) a.push_back((int64_t)d->getElementAsInteger(k));
        return json::Array{"data", (int64_t)d->getElementByteSize(), std::move(a)};
    }
    if (isa<ConstantArray>(c) || isa<ConstantStruct>(c))
    {
        json::Array a;
        for (unsigned k = 0; k < c->getNumOperands(); k++)
        {
            uint64_t off;
            if (auto* st = dyn_cast<StructType>(c->getType())) off = DL->getStructLayout(st)->getElementOffset(k);
            else off = k * DL->getTypeAllocSize(cast<ArrayType>(c->getType())->getElementType());
            a.push_back(json::Array{(int64_t)off, constOp(cast<Constant>(c->getOperand(k))), (int64_t)DL->getTypeStoreSize(c->getOperand(k)->getType())});
        }
        return json::Array{"agg", std::move(a)};
    }
    if (auto* e = dyn_cast<ConstantExpr>(c))
    {
        if (auto* g = dyn_cast<GEPOperator>(e)) return gepParts(g, constOp(cast<Constant>(g->getPointerOperand())), val);
        json::Array a{"ce", e->getOpcodeName(), tystr(e->getType())};
        for (auto& o : e->operands()) a.push_back(val(o.get()));
        return a;
    }
    return json::Array{"u"};
}
static int64_t lineOf(const Instruction& I, std::string& file)
{
    if (const DILocation* l = I.getDebugLoc().get()) { file = l->getFilename().str(); return l->getLine(); }
    return 0;
}
static void diType(const DIType* t, std::string& s)
{
    if (!t) { s += "void"; return; }
    if (auto* b = dyn_cast<DIBasicType>(t)) { s += b->getName(); return; }
    if (auto* d = dyn_cast<DIDerivedType>(t))
    {
        switch (d->getTag())
        {
        case dwarf::DW_TAG_pointer_type: diType(d->getBaseType(), s); s += "*"; return;
        case dwarf::DW_TAG_reference_type: diType(d->getBaseType(), s); s += "&"; return;
        case dwarf::DW_TAG_rvalue_reference_type: diType(d->getBaseType(), s); s += "&&"; return;
        case dwarf::DW_TAG_const_type: s += "const "; diType(d->getBaseType(), s); return;
        case dwarf::DW_TAG_typedef:
        case dwarf::DW_TAG_volatile_type: default: diType(d->getBaseType(), s); return;
        }
    }
    if (auto* c = dyn_cast<DICompositeType>(t))
    {
        if (c->getTag() == dwarf::DW_TAG_array_type) { diType(c->getBaseType(), s); s += "[]"; return; }
        if (c->getTag() == dwarf::DW_TAG_enumeration_type) s += "enum ";
        s += c->getName(); return;
    }
    if (isa<DISubroutineType>(t)) { s += "fn"; return; }
    s += "?";
}
int main(int argc, char** argv)
{
    LLVMContext ctx; SMDiagnostic err;
    if (argc == 4 && std::string(argv[1]) == "-types")
    {
        // before units are linked (which merges structures of the same layout): note what a member access names
        auto U = parseIRFile(argv[2], err, ctx);
        if (!U) { err.print(argv[0], errs()); return 2; }
        for (auto& F : *U) for (auto& B : F) for (auto& I : B)
            if (auto* g = dyn_cast<GetElementPtrInst>(&I)) if (auto* st = dyn_cast<StructType>(g->getSourceElementType())) if (st->hasName())
                g->setMetadata("sa.t", MDNode::get(ctx, MDString::get(ctx, st->getName())));
        std::error_code ec; raw_fd_ostream o(argv[3], ec);
        if (ec) return 3;
        WriteBitcodeToFile(*U, o);
        return 0;
    }
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print(argv[0], errs()); return 2; }
    DL = &M->getDataLayout();
    {
        LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
        PassBuilder pb; pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam);
        pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
        ModulePassManager mpm;
        mpm.addPass(createModuleToFunctionPassAdaptor(PromotePass()));
        mpm.run(*M, mam);
    }
    raw_ostream& os = outs();
    json::Object root;
    json::Array globals, funcs, types;
    for (auto& g : M->globals())
    {
        json::Object o; o["name"] = g.getName().str(); o["const"] = g.isConstant(); o["internal"] = g.hasLocalLinkage();
        o["size"] = (int64_t)(g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0);
        o["dem"] = demangle(g.getName().str());
        if (g.hasInitializer()) o["init"] = constOp(g.getInitializer());
        globals.push_back(std::move(o));
    }
    DebugInfoFinder dif; dif.processModule(*M);
    std::map<const DIType*, int> tids;
    auto strip = [](const DIType* bt) -> const DIType* {
        while (auto* td = dyn_cast_or_null<DIDerivedType>(bt)) { if (td->getTag()==dwarf::DW_TAG_typedef||td->getTag()==dwarf::DW_TAG_const_type||td->getTag()==dwarf::DW_TAG_volatile_type) bt = td->getBaseType(); else break; }
        return bt; };
    auto tid = [&](const DIType* t) -> int64_t { t = strip(t); if (!isa_and_nonnull<DICompositeType>(t)) return -1; auto it = tids.find(t); if (it != tids.end()) return it->second; int k = tids.size(); tids[t] = k; return k; };
    for (auto* t : dif.types())
    {
        if (auto* td = dyn_cast<DIDerivedType>(t)) if (td->getTag() == dwarf::DW_TAG_typedef)
        {
            int64_t k = tid(td->getBaseType());
            if (k >= 0 && !td->getFilename().starts_with("/usr")) { json::Object o; o["typedef"] = td->getName().str(); o["tid"] = k; types.push_back(std::move(o)); }
            continue;
        }
        auto* c = dyn_cast<DICompositeType>(t);
        if (!c || c->isForwardDecl()) continue;
        if (c->getTag() == dwarf::DW_TAG_enumeration_type)
        {
            json::Object o; o["enum"] = c->getName().str(); json::Array es;
            for (auto* e : c->getElements()) if (auto* en = dyn_cast<DIEnumerator>(e)) es.push_back(json::Array{en->getName().str(), en->getValue().getSExtValue()});
            o["vals"] = std::move(es); types.push_back(std::move(o)); continue;
        }
        if (c->getTag() == dwarf::DW_TAG_array_type) continue;
        std::string f = c->getFilename().str();
        if (f.rfind("/usr", 0) == 0) continue;
        json::Object o;
        std::string nm = c->getName().str();
        std::string scope;
        if (auto* sc = c->getScope()) scope = sc->getName().str();
        o["name"] = nm; o["tid"] = tid(c); o["scope"] = scope; o["size"] = (int64_t)(c->getSizeInBits() / 8); o["file"] = f; o["ident"] = c->getIdentifier().str(); o["line"]=(int64_t)c->getLine();
        json::Array ms;
        for (auto* e : c->getElements())
        {
            if (auto* d = dyn_cast<DIDerivedType>(e))
            {
                std::string ts; diType(d->getBaseType(), ts);
                bool st = d->isStaticMember();
                if (d->getTag() == dwarf::DW_TAG_inheritance)
                    ms.push_back(json::Array{"", (int64_t)d->getOffsetInBits(), (int64_t)0, ts, "base", false, tid(d->getBaseType()), -1});
                else if (d->getTag() == dwarf::DW_TAG_member && !st)
                {
                    const DIType* bt = strip(d->getBaseType());
                    std::string kind = "member"; int64_t mt = tid(bt), pt = -1;
                    if (auto* cc = dyn_cast_or_null<DICompositeType>(bt)) kind = cc->getTag() == dwarf::DW_TAG_array_type ? "array" : "agg";
                    if (auto* pd = dyn_cast_or_null<DIDerivedType>(bt)) if (pd->getTag() == dwarf::DW_TAG_pointer_type) { kind = "ptr"; pt = tid(pd->getBaseType()); }
                    ms.push_back(json::Array{d->getName().str(), (int64_t)d->getOffsetInBits(), (int64_t)d->getSizeInBits(), ts, kind, d->isBitField(), mt, pt});
                }
            }
        }
        o["members"] = std::move(ms);
        types.push_back(std::move(o));
    }
    for (auto& F : *M)
    {
        if (F.isIntrinsic() && F.getName().starts_with("llvm.dbg")) continue;
        json::Object fo; fo["name"] = F.getName().str(); fo["dem"] = demangle(F.getName().str());
        fo["decl"] = F.isDeclaration(); fo["ret"] = tystr(F.getReturnType());
        fo["vararg"] = F.isVarArg(); fo["link"] = F.hasLocalLinkage() ? "local" : (F.hasLinkOnceLinkage() ? "odr" : "ext");
        ids.clear(); int n = 0; json::Array args;
        DISubprogram* sp = F.getSubprogram();
        for (auto& a : F.args())
        {
            ids[&a] = n++;
            json::Object ao; ao["ty"] = tystr(a.getType()); ao["id"] = ids[&a];
            if (a.hasByValAttr()) ao["byval"] = tystr(a.getParamByValType()), ao["bysize"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType());
            if (a.hasStructRetAttr()) ao["sret"] = true;
            ao["name"] = a.getName().str();
            args.push_back(std::move(ao));
        }
        fo["args"] = std::move(args);
        if (sp)
        {
            fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine(); fo["srcname"] = sp->getName().str();
            if (auto* st = sp->getType()) { json::Array ps; for (auto* t : st->getTypeArray()) { std::string s; diType(t, s); ps.push_back(s); } fo["ptypes"] = std::move(ps); }
            if (auto* sc = dyn_cast_or_null<DICompositeType>(sp->getScope())) fo["cls"] = sc->getName().str();
        }
        bool header = false;      // small library templates that are analysed like the program itself
        if (sp) for (const char* h : { "/bits/unique_ptr.h", "/tuple", "/bits/move.h", "/bits/stl_algobase.h", "/bits/stl_pair.h", "/array", "/bits/stl_iterator.h", "/initializer_list", "/bits/ptr_traits.h" })
            if (sp->getFilename().ends_with(h)) header = true;
        if (argc > 2 && (!sp || !(header || sp->getFilename().starts_with(argv[2])))) { fo["decl"] = true; if (F.isDeclaration() == false) fo["outside"] = true; }
        if (fo["decl"].getAsBoolean().value_or(false)) { funcs.push_back(std::move(fo)); continue; }
        int nb = 0;
        for (auto& B : F) ids[&B] = nb++;
        for (auto& B : F) for (auto& I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++;
        fo["nvals"] = n;
        json::Array bbs;
        std::map<int, std::string> vnames;
        std::string ffile = sp ? sp->getFilename().str() : "";
        for (auto& B : F)
        {
            json::Array ins;
            for (auto& I : B)
            {
                if (auto* dv = dyn_cast<DbgVariableIntrinsic>(&I))
                {
                    if (dv->getNumVariableLocationOps() == 1)
                        if (auto* v = dv->getVariableLocationOp(0)) if (ids.count(v) && !isa<Constant>(v)) vnames[ids[v]] = dv->getVariable()->getName().str();
                    continue;
                }
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                json::Object o; o["op"] = I.getOpcodeName();
                if (!I.getType()->isVoidTy()) { o["id"] = ids[&I]; o["ty"] = tystr(I.getType()); }
                std::string fl; int64_t ln = lineOf(I, fl); o["l"] = ln; if (!fl.empty() && fl != ffile) o["f"] = fl;
                if (auto* g = dyn_cast<GetElementPtrInst>(&I)) o["g"] = gepParts(cast<GEPOperator>(g), val(g->getPointerOperand()), val);
                else if (auto* a = dyn_cast<AllocaInst>(&I)) { auto sz = a->getAllocationSize(*DL); if (sz) o["size"] = (int64_t)sz->getFixedValue(); o["aty"] = tystr(a->getAllocatedType()); }
                else if (auto* c = dyn_cast<CallBase>(&I))
                {
                    o["callee"] = val(c->getCalledOperand()->stripPointerCasts());
                    json::Array as; for (auto& x : c->args()) as.push_back(val(x.get())); o["args"] = std::move(as);
                    json::Array bv; bool any = false;
                    for (unsigned k = 0; k < c->arg_size(); k++) { if (c->isByValArgument(k)) { any = true; bv.push_back((int64_t)DL->getTypeAllocSize(c->getParamByValType(k))); } else bv.push_back(0); }
                    if (any) o["byval"] = std::move(bv);
                    if (auto* iv = dyn_cast<InvokeInst>(c)) { o["norm"] = ids[iv->getNormalDest()]; o["unw"] = ids[iv->getUnwindDest()]; }
                }
                else if (auto* p = dyn_cast<PHINode>(&I))
                {
                    json::Array as; for (unsigned k = 0; k < p->getNumIncomingValues(); k++) as.push_back(json::Array{ids[p->getIncomingBlock(k)], val(p->getIncomingValue(k))}); o["in"] = std::move(as);
                }
                else if (auto* s = dyn_cast<SwitchInst>(&I))
                {
                    o["cond"] = val(s->getCondition()); json::Array cs; for (auto& k : s->cases()) cs.push_back(json::Array{k.getCaseValue()->getSExtValue(), ids[k.getCaseSuccessor()]}); o["cases"] = std::move(cs); o["def"] = ids[s->getDefaultDest()];
                }
                else if (auto* b = dyn_cast<BranchInst>(&I))
                {
                    if (b->isConditional()) { o["cond"] = val(b->getCondition()); o["t"] = ids[b->getSuccessor(0)]; o["e"] = ids[b->getSuccessor(1)]; }
                    else o["t"] = ids[b->getSuccessor(0)];
                }
                else
                {
                    json::Array as; for (auto& x : I.operands()) as.push_back(val(x.get())); o["o"] = std::move(as);
                    if (auto* c = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str(); o["oty"] = tystr(c->getOperand(0)->getType()); }
                    if (auto* c = dyn_cast<CastInst>(&I)) o["sty"] = tystr(c->getSrcTy());
                    if (isa<LoadInst>(&I)) o["size"] = (int64_t)DL->getTypeStoreSize(I.getType());
                    if (auto* st = dyn_cast<StoreInst>(&I)) { o["size"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()); o["vty"] = tystr(st->getValueOperand()->getType()); }
                    if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) o["nsw"] = ob->hasNoSignedWrap();
                    if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto x : ev->indices()) ix.push_back((int64_t)x); o["idx"] = std::move(ix); }
                    if (auto* ev = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto x : ev->indices()) ix.push_back((int64_t)x); o["idx"] = std::move(ix); }
                }
                ins.push_back(std::move(o));
            }
            bbs.push_back(std::move(ins));
        }
        fo["blocks"] = std::move(bbs);
        json::Object vn; for (auto& kv : vnames) vn[std::to_string(kv.first)] = kv.second; fo["vnames"] = std::move(vn);
        funcs.push_back(std::move(fo));
    }
    root["globals"] = std::move(globals); root["types"] = std::move(types); root["funcs"] = std::move(funcs);
    os << json::Value(std::move(root)) << "\n";
    return 0;
}
