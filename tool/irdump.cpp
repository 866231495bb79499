// Dumps the LLVM IR of the redGrapes library in a form which is easy to analyse from Python.
// usage: irdump OUT.jsonl A.bc B.bc ...
#include <llvm/ADT/SmallString.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Scalar/SROA.h>

#include <deque>
#include <map>
#include <set>

using namespace llvm;
using json::Array;
using json::Object;
using JV = json::Value;

static std::string U8(StringRef s)
{
    return json::fixUTF8(s);
}

static DataLayout const* DL;
static std::map<std::string, int> fileIds;
static std::vector<std::string> files;

static int fileId(DIFile* f)
{
    std::string n = f ? (f->getFilename().starts_with("/") ? f->getFilename().str()
                                                           : (f->getDirectory() + "/" + f->getFilename()).str())
                      : "?";
    auto it = fileIds.find(n);
    if(it != fileIds.end())
        return it->second;
    int id = files.size();
    files.push_back(U8(n));
    fileIds[n] = id;
    return id;
}

static JV typeJ(Type* t)
{
    if(t->isIntegerTy())
        return Array{"i", (int64_t) t->getIntegerBitWidth()};
    if(t->isPointerTy())
        return Array{"p"};
    if(t->isVoidTy())
        return Array{"v"};
    if(t->isFloatingPointTy())
        return Array{"fp", (int64_t) DL->getTypeStoreSize(t)};
    if(auto s = dyn_cast<StructType>(t))
    {
        if(s->isOpaque())
            return Array{"x", 0};
        Array fs;
        auto* L = DL->getStructLayout(s);
        for(unsigned i = 0; i < s->getNumElements(); ++i)
            fs.push_back(Array{(int64_t) L->getElementOffset(i), typeJ(s->getElementType(i))});
        return Array{"s", (int64_t) L->getSizeInBytes(), std::move(fs)};
    }
    if(auto a = dyn_cast<ArrayType>(t))
        return Array{"a", (int64_t) a->getNumElements(), (int64_t) DL->getTypeAllocSize(a->getElementType()), typeJ(a->getElementType())};
    if(t->isSized())
        return Array{"x", (int64_t) DL->getTypeAllocSize(t).getKnownMinValue()};
    return Array{"x", 0};
}

struct FnDumper
{
    std::map<llvm::Value const*, int> ids;
    std::map<BasicBlock const*, int> bbs;
    std::set<Function*>& callees;
    std::set<GlobalVariable*>& globals;

    FnDumper(std::set<Function*>& c, std::set<GlobalVariable*>& g) : callees(c), globals(g)
    {
    }

    JV constJ(Constant* c)
    {
        if(auto ci = dyn_cast<ConstantInt>(c))
        {
            SmallString<40> s;
            ci->getValue().toStringUnsigned(s);
            if(ci->getBitWidth() <= 32)
                return Array{"c", (int64_t) ci->getZExtValue()};
            return Array{"C", std::string(s)};
        }
        if(isa<ConstantPointerNull>(c))
            return Array{"c", 0};
        if(isa<UndefValue>(c))
            return Array{"u"};
        if(auto f = dyn_cast<Function>(c))
        {
            callees.insert(f);
            return Array{"f", U8(f->getName())};
        }
        if(auto a = dyn_cast<GlobalAlias>(c))
            return constJ(a->getAliasee());
        if(auto g = dyn_cast<GlobalVariable>(c))
        {
            globals.insert(g);
            return Array{"g", U8(g->getName()), 0};
        }
        if(auto ce = dyn_cast<ConstantExpr>(c))
        {
            if(ce->getType()->isPointerTy())
            {
                APInt off(64, 0);
                auto* base = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
                if(auto g = dyn_cast<GlobalVariable>(base))
                {
                    globals.insert(g);
                    return Array{"g", U8(g->getName()), off.getSExtValue()};
                }
                if(ce->getOpcode() == Instruction::IntToPtr)
                    return constJ(ce->getOperand(0));
            }
            if(ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::Trunc)
                return constJ(ce->getOperand(0));
            return Array{"x", std::string("constexpr ") + ce->getOpcodeName()};
        }
        if(isa<ConstantAggregateZero>(c))
            return Array{"z"};
        if(auto st = dyn_cast<ConstantAggregate>(c))
        {
            Array a;
            for(auto& o : st->operands())
                a.push_back(constJ(cast<Constant>(o)));
            return Array{"agg", std::move(a)};
        }
        if(auto cd = dyn_cast<ConstantDataSequential>(c))
        {
            Array a;
            if(cd->getElementType()->isIntegerTy())
                for(unsigned i = 0; i < cd->getNumElements(); ++i)
                    a.push_back(Array{"C", std::to_string(cd->getElementAsInteger(i))});
            return Array{"agg", std::move(a)};
        }
        if(auto fp = dyn_cast<ConstantFP>(c))
        {
            SmallString<40> s;
            fp->getValueAPF().toString(s);
            return Array{"x", std::string("fp ") + std::string(s)};
        }
        return Array{"x", "const"};
    }

    JV opJ(llvm::Value* v)
    {
        if(auto c = dyn_cast<Constant>(v))
            return constJ(c);
        auto it = ids.find(v);
        if(it != ids.end())
            return Array{"v", it->second};
        return Array{"x", "?"};
    }

    Object dump(Function& F)
    {
        int n = 0;
        Array args;
        for(auto& a : F.args())
        {
            ids[&a] = n++;
            Object o;
            o["t"] = typeJ(a.getType());
            o["name"] = U8(a.getName());
            if(a.hasStructRetAttr())
                o["sret"] = true;
            if(a.hasByValAttr())
                o["byval"] = (int64_t) DL->getTypeAllocSize(a.getParamByValType());
            args.push_back(std::move(o));
        }
        int b = 0;
        for(auto& bb : F)
        {
            bbs[&bb] = b++;
            for(auto& i : bb)
                ids[&i] = n++;
        }
        Array blocks;
        for(auto& bb : F)
        {
            Array is;
            for(auto& i : bb)
            {
                if(isa<DbgInfoIntrinsic>(i))
                    continue;
                is.push_back(inst(i));
            }
            blocks.push_back(std::move(is));
        }
        Object o;
        o["args"] = std::move(args);
        o["blocks"] = std::move(blocks);
        return o;
    }

    static std::string ord(AtomicOrdering o)
    {
        return toIRString(o);
    }

    Object inst(Instruction& I)
    {
        Object o;
        o["n"] = ids[&I];
        o["o"] = I.getOpcodeName();
        if(!I.getType()->isVoidTy())
            o["t"] = typeJ(I.getType());
        if(auto& l = I.getDebugLoc())
        {
            o["l"] = (int64_t) l.getLine();
            if(auto* sc = dyn_cast<DIScope>(l.getScope()))
                o["f"] = fileId(sc->getFile());
        }
        Array a;
        switch(I.getOpcode())
        {
        case Instruction::Alloca:
            {
                auto& A = cast<AllocaInst>(I);
                o["sz"] = (int64_t) DL->getTypeAllocSize(A.getAllocatedType());
                if(A.getAllocatedType()->isStructTy() && !cast<StructType>(A.getAllocatedType())->isLiteral())
                    o["st"] = A.getAllocatedType()->getStructName().str();
                return o;
            }
        case Instruction::Load:
            {
                auto& L = cast<LoadInst>(I);
                if(L.isAtomic())
                    o["ord"] = ord(L.getOrdering());
                if(L.isVolatile())
                    o["vol"] = true;
                a.push_back(opJ(L.getPointerOperand()));
                break;
            }
        case Instruction::Store:
            {
                auto& S = cast<StoreInst>(I);
                if(S.isAtomic())
                    o["ord"] = ord(S.getOrdering());
                if(S.isVolatile())
                    o["vol"] = true;
                o["vt"] = typeJ(S.getValueOperand()->getType());
                a.push_back(opJ(S.getValueOperand()));
                a.push_back(opJ(S.getPointerOperand()));
                break;
            }
        case Instruction::AtomicRMW:
            {
                auto& R = cast<AtomicRMWInst>(I);
                o["rmw"] = AtomicRMWInst::getOperationName(R.getOperation()).str();
                o["ord"] = ord(R.getOrdering());
                a.push_back(opJ(R.getPointerOperand()));
                a.push_back(opJ(R.getValOperand()));
                break;
            }
        case Instruction::AtomicCmpXchg:
            {
                auto& X = cast<AtomicCmpXchgInst>(I);
                o["ord"] = ord(X.getSuccessOrdering());
                o["ford"] = ord(X.getFailureOrdering());
                if(X.isWeak())
                    o["weak"] = true;
                o["vt"] = typeJ(X.getCompareOperand()->getType());
                a.push_back(opJ(X.getPointerOperand()));
                a.push_back(opJ(X.getCompareOperand()));
                a.push_back(opJ(X.getNewValOperand()));
                break;
            }
        case Instruction::Fence:
            o["ord"] = ord(cast<FenceInst>(I).getOrdering());
            break;
        case Instruction::GetElementPtr:
            {
                auto& G = cast<GEPOperator>(I);
                MapVector<llvm::Value*, APInt> vo;
                APInt co(64, 0);
                a.push_back(opJ(G.getPointerOperand()));
                if(G.collectOffset(*DL, 64, vo, co))
                {
                    o["off"] = co.getSExtValue();
                    Array vs;
                    for(auto& p : vo)
                        vs.push_back(Array{opJ(p.first), p.second.getSExtValue()});
                    o["var"] = std::move(vs);
                }
                break;
            }
        case Instruction::ICmp:
            o["p"] = CmpInst::getPredicateName(cast<ICmpInst>(I).getPredicate()).str();
            o["ot"] = typeJ(I.getOperand(0)->getType());
            for(auto& x : I.operands())
                a.push_back(opJ(x));
            break;
        case Instruction::Br:
            {
                auto& B = cast<BranchInst>(I);
                if(B.isConditional())
                    a.push_back(opJ(B.getCondition()));
                Array s;
                for(unsigned i = 0; i < B.getNumSuccessors(); ++i)
                    s.push_back(bbs[B.getSuccessor(i)]);
                o["s"] = std::move(s);
                break;
            }
        case Instruction::Switch:
            {
                auto& S = cast<SwitchInst>(I);
                a.push_back(opJ(S.getCondition()));
                o["def"] = bbs[S.getDefaultDest()];
                Array cs;
                for(auto& c : S.cases())
                    cs.push_back(Array{constJ(c.getCaseValue()), bbs[c.getCaseSuccessor()]});
                o["cases"] = std::move(cs);
                break;
            }
        case Instruction::PHI:
            {
                auto& P = cast<PHINode>(I);
                Array in;
                for(unsigned i = 0; i < P.getNumIncomingValues(); ++i)
                    in.push_back(Array{opJ(P.getIncomingValue(i)), bbs[P.getIncomingBlock(i)]});
                o["in"] = std::move(in);
                break;
            }
        case Instruction::ExtractValue:
            {
                auto& E = cast<ExtractValueInst>(I);
                Array ix;
                for(auto x : E.indices())
                    ix.push_back((int64_t) x);
                o["ix"] = std::move(ix);
                a.push_back(opJ(E.getAggregateOperand()));
                break;
            }
        case Instruction::InsertValue:
            {
                auto& E = cast<InsertValueInst>(I);
                Array ix;
                for(auto x : E.indices())
                    ix.push_back((int64_t) x);
                o["ix"] = std::move(ix);
                a.push_back(opJ(E.getAggregateOperand()));
                a.push_back(opJ(E.getInsertedValueOperand()));
                break;
            }
        case Instruction::Call:
        case Instruction::Invoke:
            {
                auto& C = cast<CallBase>(I);
                o["c"] = C.isInlineAsm() ? JV(Array{"x", "asm"}) : opJ(C.getCalledOperand());
                for(auto& x : C.args())
                    a.push_back(opJ(x));
                if(C.doesNotReturn())
                    o["nr"] = true;
                if(C.doesNotThrow())
                    o["nt"] = true;
                Array bv;
                for(unsigned i = 0; i < C.arg_size(); ++i)
                    if(C.isByValArgument(i))
                        bv.push_back(Array{(int64_t) i, (int64_t) DL->getTypeAllocSize(C.getParamByValType(i))});
                if(!bv.empty())
                    o["bv"] = std::move(bv);
                if(auto* Inv = dyn_cast<InvokeInst>(&I))
                {
                    o["s"] = Array{bbs[Inv->getNormalDest()], bbs[Inv->getUnwindDest()]};
                }
                break;
            }
        default:
            for(auto& x : I.operands())
                if(!isa<BasicBlock>(x))
                    a.push_back(opJ(x));
            if(I.isTerminator())
            {
                Array s;
                for(unsigned i = 0; i < I.getNumSuccessors(); ++i)
                    s.push_back(bbs[I.getSuccessor(i)]);
                o["s"] = std::move(s);
            }
            if(I.isCast())
                o["ot"] = typeJ(I.getOperand(0)->getType());
        }
        o["a"] = std::move(a);
        return o;
    }
};

static std::string tyName(DIType* t, int depth = 0);

static std::string qualName(DICompositeType* c)
{
    if(!c->getIdentifier().empty())
    {
        std::string d = demangle(c->getIdentifier().str());
        std::string pre = "typeinfo name for ";
        if(d.rfind(pre, 0) == 0)
            return U8(d.substr(pre.size()));
    }
    std::string n = U8(c->getName());
    for(auto* s = c->getScope(); s; s = s->getScope())
    {
        if(isa<DIFile>(s) || isa<DICompileUnit>(s))
            break;
        if(auto* sc = dyn_cast<DICompositeType>(s))
            return qualName(sc) + "::" + n;
        std::string sn = U8(s->getName());
        n = (sn.empty() ? "(anon)" : sn) + "::" + n;
    }
    return n;
}

static std::string tyName(DIType* t, int depth)
{
    if(!t)
        return "void";
    if(depth > 20)
        return "...";
    if(auto* c = dyn_cast<DICompositeType>(t))
    {
        if(c->getTag() == dwarf::DW_TAG_array_type)
        {
            std::string s = tyName(c->getBaseType(), depth + 1) + "[";
            for(auto* e : c->getElements())
                if(auto* r = dyn_cast<DISubrange>(e))
                    if(auto* ci = dyn_cast_if_present<ConstantInt*>(r->getCount()))
                        s += std::to_string(ci->getSExtValue());
            return s + "]";
        }
        return qualName(c);
    }
    if(auto* d = dyn_cast<DIDerivedType>(t))
    {
        switch(d->getTag())
        {
        case dwarf::DW_TAG_pointer_type:
            return tyName(d->getBaseType(), depth + 1) + "*";
        case dwarf::DW_TAG_reference_type:
        case dwarf::DW_TAG_rvalue_reference_type:
            return tyName(d->getBaseType(), depth + 1) + "&";
        default:
            return tyName(d->getBaseType(), depth + 1);
        }
    }
    if(auto* st = dyn_cast<DISubroutineType>(t))
        return "fn";
    return U8(t->getName());
}

static Object diTypes(Module& M)
{
    DebugInfoFinder F;
    F.processModule(M);
    Object out;
    for(auto* t : F.types())
    {
        auto* c = dyn_cast<DICompositeType>(t);
        if(!c || c->isForwardDecl())
            continue;
        std::string n = qualName(c);
        if(c->getTag() == dwarf::DW_TAG_enumeration_type)
        {
            Array es;
            for(auto* e : c->getElements())
                if(auto* en = dyn_cast<DIEnumerator>(e))
                    es.push_back(Array{U8(en->getName()), en->getValue().getSExtValue()});
            out[n] = Object{{"enum", std::move(es)}, {"size", (int64_t) c->getSizeInBits() / 8}};
            continue;
        }
        if(c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_class_type
           && c->getTag() != dwarf::DW_TAG_union_type)
            continue;
        Array ms, bs, vs, fs;
        for(auto* e : c->getElements())
        {
            if(auto* d = dyn_cast<DIDerivedType>(e))
            {
                if(d->getTag() == dwarf::DW_TAG_inheritance)
                    bs.push_back(Array{(int64_t) d->getOffsetInBits() / 8, U8(tyName(d->getBaseType()))});
                else if(d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember())
                    ms.push_back(Array{
                        (int64_t) d->getOffsetInBits() / 8,
                        U8(d->getName()),
                        tyName(d->getBaseType()),
                        (int64_t) d->getSizeInBits() / 8});
            }
            else if(auto* s = dyn_cast<DISubprogram>(e))
            {
                if(s->getVirtuality())
                    vs.push_back(Array{(int64_t) s->getVirtualIndex(), U8(s->getName()), U8(s->getLinkageName())});
            }
        }
        out[n] = Object{
            {"size", (int64_t) c->getSizeInBits() / 8},
            {"m", std::move(ms)},
            {"b", std::move(bs)},
            {"v", std::move(vs)},
            {"file", fileId(c->getFile())},
            {"union", c->getTag() == dwarf::DW_TAG_union_type}};
    }
    return out;
}

static bool opaqueNs(std::string const& d)
{
    for(char const* p : {"spdlog::", "fmt::", "boost::context", "boost::core", "boost::typeindex", "moodycamel::", "std::locale", "std::basic_ios", "std::thread::", "std::filesystem"})
        if(d.rfind(p, 0) == 0)
            return true;
    return false;
}

int main(int argc, char** argv)
{
    LLVMContext ctx;
    ctx.setDiscardValueNames(false);
    SMDiagnostic err;
    std::unique_ptr<Module> M = std::make_unique<Module>("all", ctx);
    Linker linker(*M);
    for(int i = 2; i < argc; ++i)
    {
        auto m = parseIRFile(argv[i], err, ctx);
        if(!m)
        {
            err.print("irdump", errs());
            return 2;
        }
        if(linker.linkInModule(std::move(m)))
        {
            errs() << "link failed: " << argv[i] << "\n";
            return 2;
        }
    }
    DL = &M->getDataLayout();

    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    SROAPass sroa(SROAOptions::PreserveCFG);

    std::error_code ec;
    raw_fd_ostream os(argv[1], ec);
    if(ec)
        return 2;

    std::deque<Function*> work;
    std::set<Function*> seen;
    auto push = [&](Function* f)
    {
        if(seen.insert(f).second)
            work.push_back(f);
    };
    for(auto& F : *M)
    {
        if(F.isDeclaration())
            continue;
        std::string d = demangle(U8(F.getName()));
        bool root = false;
        if(auto* sp = F.getSubprogram())
            if(sp->getFile())
            {
                std::string fn = sp->getFilename().str();
                if(fn.find("redGrapes/") != std::string::npos || fn.find("driver") != std::string::npos)
                    root = true;
            }
        // reached through a vtable only
        if(d.rfind("std::_Sp_counted_ptr", 0) == 0 && (d.find("::_M_destroy()") != std::string::npos || d.find("::_M_dispose()") != std::string::npos))
            root = true;
        if(root && d.find("fmt::") != 0)
            push(&F);
    }
    std::set<GlobalVariable*> globals;
    while(!work.empty())
    {
        Function* F = work.front();
        work.pop_front();
        std::string dem = demangle(U8(F->getName()));
        Object o;
        o["fn"] = U8(F->getName());
        o["d"] = U8(dem);
        if(F->doesNotReturn())
            o["nr"] = true;
        bool isOpaque = F->isDeclaration() || opaqueNs(dem);
        if(!isOpaque)
        {
            sroa.run(*F, FAM);
            std::set<Function*> callees;
            FnDumper D(callees, globals);
            o["body"] = D.dump(*F);
            if(auto* sp = F->getSubprogram())
            {
                o["file"] = fileId(sp->getFile());
                o["line"] = (int64_t) sp->getLine();
                Array ts;
                if(sp->getType())
                    for(auto* t : sp->getType()->getTypeArray())
                        ts.push_back(U8(tyName(t)));
                o["types"] = std::move(ts);
                o["base"] = U8(sp->getName());
                if(auto* ns = dyn_cast_or_null<DINamespace>(sp->getScope()))
                {
                    std::string n;
                    for(DIScope* s = ns; s && isa<DINamespace>(s); s = s->getScope())
                        n = (s->getName().empty() ? std::string("(anon)") : s->getName().str()) + (n.empty() ? "" : "::" + n);
                    o["ns"] = U8(n);
                }
                if(auto* sc = dyn_cast_or_null<DICompositeType>(sp->getScope()))
                    o["cls"] = U8(qualName(sc));
                if(auto* dcl = sp->getDeclaration())
                    if(auto* sc = dyn_cast_or_null<DICompositeType>(dcl->getScope()))
                        o["cls"] = U8(qualName(sc));
            }
            for(auto* c : callees)
                push(c);
        }
        os << JV(std::move(o)) << "\n";
    }
    // globals
    std::set<GlobalVariable*> done;
    while(done.size() < globals.size())
    {
        auto gs = globals;
        for(auto* g : gs)
        {
            if(!done.insert(g).second)
                continue;
            std::set<Function*> callees;
            FnDumper D(callees, globals);
            Object o;
            o["g"] = U8(g->getName());
            o["d"] = U8(demangle(U8(g->getName())));
            o["tls"] = g->isThreadLocal();
            o["const"] = g->isConstant();
            if(g->getValueType()->isSized())
                o["sz"] = (int64_t) DL->getTypeAllocSize(g->getValueType());
            o["t"] = typeJ(g->getValueType());
            if(g->hasInitializer() && DL->getTypeAllocSize(g->getValueType()) < 4096)
                o["init"] = D.constJ(g->getInitializer());
            SmallVector<DIGlobalVariableExpression*, 1> gve;
            g->getDebugInfo(gve);
            if(!gve.empty() && gve[0]->getVariable())
                o["ty"] = tyName(gve[0]->getVariable()->getType());
            os << JV(std::move(o)) << "\n";
        }
    }
    os << JV(Object{{"types", diTypes(*M)}}) << "\n";
    Array fs;
    for(auto& f : files)
        fs.push_back(f);
    os << JV(Object{{"files", std::move(fs)}}) << "\n";
    return 0;
}
