// irdump: reads LLVM bitcode/IR and prints it as JSON for the kvc verifier.
// Purely mechanical: every instruction is emitted, nothing is dropped except debug intrinsics and metadata.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
using namespace llvm;
static raw_ostream* O;
static const DataLayout* DL;
static std::map<Type*, int> tyIdx;
static std::vector<std::string> tyDefs;
static std::string q(StringRef s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static int ty(Type* t)
{
    auto it = tyIdx.find(t);
    if (it != tyIdx.end()) return it->second;
    std::string d;
    uint64_t ss = 0, as = 0;
    if (t->isSized() && !t->isScalableTy()) { ss = DL->getTypeStoreSize(t); as = DL->getTypeAllocSize(t); }
    std::string sz = ",\"s\":" + std::to_string(ss) + ",\"z\":" + std::to_string(as);
    if (t->isIntegerTy()) d = "{\"k\":\"i\",\"n\":" + std::to_string(t->getIntegerBitWidth()) + sz + "}";
    else if (t->isFloatTy()) d = "{\"k\":\"f\",\"n\":32" + sz + "}";
    else if (t->isDoubleTy()) d = "{\"k\":\"f\",\"n\":64" + sz + "}";
    else if (t->isHalfTy()) d = "{\"k\":\"f\",\"n\":16" + sz + "}";
    else if (t->isX86_FP80Ty()) d = "{\"k\":\"f\",\"n\":80" + sz + "}";
    else if (t->isPointerTy()) d = "{\"k\":\"p\",\"n\":64" + sz + "}";
    else if (t->isVoidTy()) d = "{\"k\":\"void\"}";
    else if (auto* v = dyn_cast<FixedVectorType>(t))
        d = "{\"k\":\"v\",\"n\":" + std::to_string(v->getNumElements()) + ",\"e\":" + std::to_string(ty(v->getElementType())) + sz + "}";
    else if (auto* a = dyn_cast<ArrayType>(t))
        d = "{\"k\":\"a\",\"n\":" + std::to_string(a->getNumElements()) + ",\"e\":" + std::to_string(ty(a->getElementType())) + sz + "}";
    else if (auto* s = dyn_cast<StructType>(t))
    {
        if (s->isOpaque()) d = "{\"k\":\"opaque\"}";
        else
        {
            const StructLayout* L = DL->getStructLayout(s);
            d = "{\"k\":\"s\",\"e\":[";
            std::string offs;
            for (unsigned i = 0; i < s->getNumElements(); i++)
            {
                if (i) { d += ","; offs += ","; }
                d += std::to_string(ty(s->getElementType(i)));
                offs += std::to_string((uint64_t)L->getElementOffset(i));
            }
            d += "],\"o\":[" + offs + "]" + sz + "}";
        }
    }
    else d = "{\"k\":\"other\"}";
    int n = tyDefs.size();
    tyDefs.push_back(d);
    tyIdx[t] = n;
    return n;
}
static std::map<const Value*, int> ids;
static std::map<const BasicBlock*, int> bbs;
static std::string val(const Value* v);
static std::string instr(const User* u, unsigned opc, int id);
static std::string u128(const APInt& a)
{
    SmallString<64> s;
    a.toString(s, 10, false);
    return std::string(s);
}
static std::string cst(const Constant* c)
{
    if (auto* i = dyn_cast<ConstantInt>(c)) return "[\"i\"," + std::to_string(i->getBitWidth()) + "," + u128(i->getValue()) + "]";
    if (auto* f = dyn_cast<ConstantFP>(c)) { APInt b = f->getValueAPF().bitcastToAPInt(); return "[\"f\"," + std::to_string(b.getBitWidth()) + "," + u128(b) + "]"; }
    if (isa<ConstantPointerNull>(c)) return "[\"n\"]";
    if (isa<PoisonValue>(c)) return "[\"p\"," + std::to_string(ty(c->getType())) + "]";
    if (isa<UndefValue>(c)) return "[\"u\"," + std::to_string(ty(c->getType())) + "]";
    if (isa<ConstantAggregateZero>(c)) return "[\"z\"," + std::to_string(ty(c->getType())) + "]";
    if (auto* g = dyn_cast<GlobalValue>(c)) return "[\"g\"," + q(g->getName()) + "]";
    if (auto* a = dyn_cast<ConstantDataSequential>(c))
    {
        std::string r = "[\"a\",[";
        for (unsigned i = 0; i < a->getNumElements(); i++) { if (i) r += ","; r += cst(a->getElementAsConstant(i)); }
        return r + "]]";
    }
    if (isa<ConstantAggregate>(c))
    {
        std::string r = "[\"a\",[";
        for (unsigned i = 0; i < c->getNumOperands(); i++) { if (i) r += ","; r += cst(cast<Constant>(c->getOperand(i))); }
        return r + "]]";
    }
    if (auto* e = dyn_cast<ConstantExpr>(c)) return "[\"e\"," + instr(e, e->getOpcode(), -1) + "]";
    std::string s; raw_string_ostream os(s); c->print(os);
    return "[\"?\"," + q(s) + "]";
}
static std::string val(const Value* v)
{
    if (auto* c = dyn_cast<Constant>(v)) return cst(c);
    auto it = ids.find(v);
    if (it != ids.end()) return std::to_string(it->second);
    if (isa<MetadataAsValue>(v)) return "[\"m\"]";
    if (isa<InlineAsm>(v)) return "[\"asm\"]";
    return "[\"?\",\"val\"]";
}
static std::string instr(const User* u, unsigned opc, int id)
{
    std::string name = Instruction::getOpcodeName(opc);
    std::string r = "[" + q(name) + "," + std::to_string(id) + "," + std::to_string(ty(u->getType())) + ",[";
    std::string ex = "0";
    std::vector<const Value*> ops;
    if (auto* phi = dyn_cast<PHINode>(u))
    {
        ex = "[";
        for (unsigned i = 0; i < phi->getNumIncomingValues(); i++)
        {
            ops.push_back(phi->getIncomingValue(i));
            ex += (i ? "," : "") + std::to_string(bbs[phi->getIncomingBlock(i)]);
        }
        ex += "]";
    }
    else if (auto* gep = dyn_cast<GEPOperator>(u))
    {
        MapVector<Value*, APInt> var;
        APInt co(64, 0);
        if (!u->getType()->isVectorTy() && gep->collectOffset(*DL, 64, var, co))
        {
            ops.push_back(gep->getPointerOperand());
            ex = "[" + std::to_string(co.getSExtValue()) + ",[";
            bool first = true;
            for (auto& p : var)
            {
                ops.push_back(p.first);
                ex += (first ? "" : ",") + std::to_string(p.second.getSExtValue());
                first = false;
            }
            ex += "]]";
        }
        else
        {
            // vector of pointers: base, then (index, type-scale) per operand, only simple one-index form supported
            for (auto& o : u->operands()) ops.push_back(o.get());
            ex = "[\"vec\"," + std::to_string(DL->getTypeAllocSize(gep->getSourceElementType())) + "]";
        }
    }
    else if (auto* br = dyn_cast<BranchInst>(u))
    {
        if (br->isConditional())
        {
            ops.push_back(br->getCondition());
            ex = "[" + std::to_string(bbs[br->getSuccessor(0)]) + "," + std::to_string(bbs[br->getSuccessor(1)]) + "]";
        }
        else ex = "[" + std::to_string(bbs[br->getSuccessor(0)]) + "]";
    }
    else if (auto* sw = dyn_cast<SwitchInst>(u))
    {
        ops.push_back(sw->getCondition());
        ex = "[" + std::to_string(bbs[sw->getDefaultDest()]) + ",[";
        bool first = true;
        for (auto& c : sw->cases())
        {
            ex += std::string(first ? "" : ",") + "[" + u128(c.getCaseValue()->getValue()) + "," + std::to_string(bbs[c.getCaseSuccessor()]) + "]";
            first = false;
        }
        ex += "]]";
    }
    else if (auto* cb = dyn_cast<CallBase>(u))
    {
        for (auto& a : cb->args()) ops.push_back(a.get());
        ops.push_back(cb->getCalledOperand());
        std::string nb = "null", ub = "null";
        if (auto* iv = dyn_cast<InvokeInst>(u)) { nb = std::to_string(bbs[iv->getNormalDest()]); ub = std::to_string(bbs[iv->getUnwindDest()]); }
        std::string fm = "0";
        if (isa<FPMathOperator>(u)) fm = cast<FPMathOperator>(u)->hasAllowContract() ? "1" : "0";
        // byval / sret attributes
        std::string bv = "[";
        for (unsigned i = 0; i < cb->arg_size(); i++)
        {
            if (i) bv += ",";
            if (cb->isByValArgument(i)) bv += std::to_string(DL->getTypeAllocSize(cb->getParamByValType(i)));
            else bv += "0";
        }
        bv += "]";
        ex = "[" + nb + "," + ub + "," + fm + "," + bv + "]";
    }
    else
    {
        for (auto& o : u->operands())
            if (!isa<BasicBlock>(o.get())) ops.push_back(o.get());
        if (auto* c = dyn_cast<CmpInst>(u)) ex = q(CmpInst::getPredicateName(c->getPredicate()));
        else if (auto* ce = dyn_cast<ConstantExpr>(u)) { if (ce->isCompare()) ex = q(CmpInst::getPredicateName((CmpInst::Predicate)ce->getPredicate())); else if (ce->isCast()) ex = std::to_string(ty(ce->getOperand(0)->getType())); }
        else if (auto* al = dyn_cast<AllocaInst>(u)) ex = "[" + std::to_string(ty(al->getAllocatedType())) + "," + std::to_string(al->getAlign().value()) + "]";
        else if (auto* ld = dyn_cast<LoadInst>(u)) ex = "[" + std::to_string(ld->getAlign().value()) + "]";
        else if (auto* st = dyn_cast<StoreInst>(u)) ex = "[" + std::to_string(ty(st->getValueOperand()->getType())) + "," + std::to_string(st->getAlign().value()) + "]";
        else if (auto* sv = dyn_cast<ShuffleVectorInst>(u))
        {
            ex = "[";
            bool f = true;
            for (int m : sv->getShuffleMask()) { ex += (f ? "" : ",") + std::to_string(m); f = false; }
            ex += "]";
        }
        else if (auto* ev = dyn_cast<ExtractValueInst>(u)) { ex = "["; bool f = true; for (unsigned m : ev->indices()) { ex += (f ? "" : ",") + std::to_string(m); f = false; } ex += "]"; }
        else if (auto* iv = dyn_cast<InsertValueInst>(u)) { ex = "["; bool f = true; for (unsigned m : iv->indices()) { ex += (f ? "" : ",") + std::to_string(m); f = false; } ex += "]"; }
        else if (isa<CastInst>(u)) ex = std::to_string(ty(u->getOperand(0)->getType()));
        else if (auto* rmw = dyn_cast<AtomicRMWInst>(u)) ex = q(AtomicRMWInst::getOperationName(rmw->getOperation()));
        else if (isa<FPMathOperator>(u)) ex = cast<FPMathOperator>(u)->hasAllowContract() ? "1" : "0";
        else if (auto* pe = dyn_cast<PossiblyExactOperator>(u)) ex = pe->isExact() ? "\"exact\"" : "0";
        else if (auto* ob = dyn_cast<OverflowingBinaryOperator>(u)) ex = std::string("\"") + (ob->hasNoUnsignedWrap() ? "nuw" : "") + (ob->hasNoSignedWrap() ? "nsw" : "") + "\"";
    }
    for (size_t i = 0; i < ops.size(); i++) { if (i) r += ","; r += val(ops[i]); }
    r += "]," + ex + "]";
    return r;
}
int main(int argc, char** argv)
{
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print(argv[0], errs()); return 1; }
    DL = &M->getDataLayout();
    std::error_code ec;
    raw_fd_ostream out(argc > 2 ? argv[2] : "-", ec);
    O = &out;
    out << "{\"globals\":{";
    bool first = true;
    for (auto& g : M->globals())
    {
        if (!g.hasName()) g.setName("__anon");
        out << (first ? "" : ",") << q(g.getName()) << ":[" << ty(g.getValueType()) << "," << (g.isConstant() ? 1 : 0) << ","
            << (g.hasInitializer() ? cst(g.getInitializer()) : "null") << "," << (g.getAlign() ? g.getAlign()->value() : 1) << "]";
        first = false;
    }
    out << "},\"aliases\":{";
    first = true;
    for (auto& a : M->aliases()) { out << (first ? "" : ",") << q(a.getName()) << ":" << cst(a.getAliasee()); first = false; }
    out << "},\"funcs\":{";
    first = true;
    for (auto& F : *M)
    {
        ids.clear(); bbs.clear();
        int n = 0, b = 0;
        out << (first ? "" : ",\n") << q(F.getName()) << ":{\"dem\":" << q(demangle(F.getName().str())) << ",\"ret\":" << ty(F.getReturnType()) << ",\"args\":[";
        first = false;
        bool f2 = true;
        for (auto& A : F.args()) { ids[&A] = n++; out << (f2 ? "" : ",") << "[" << ids[&A] << "," << ty(A.getType()) << "," << (A.hasByValAttr() ? DL->getTypeAllocSize(A.getParamByValType()).getFixedValue() : 0) << "," << (A.hasStructRetAttr() ? DL->getTypeAllocSize(A.getParamStructRetType()).getFixedValue() : 0) << "]"; f2 = false; }
        out << "]";
        if (F.isDeclaration()) { out << ",\"decl\":1}"; continue; }
        for (auto& B : F) { bbs[&B] = b++; for (auto& I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
        out << ",\"n\":" << n << ",\"blocks\":[";
        bool fb = true;
        for (auto& B : F)
        {
            out << (fb ? "[" : ",[");
            fb = false;
            bool fi = true;
            for (auto& I : B)
            {
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                out << (fi ? "" : ",") << instr(&I, I.getOpcode(), I.getType()->isVoidTy() ? -1 : ids[&I]);
                fi = false;
            }
            out << "]";
        }
        out << "],\"loops\":{";
        DominatorTree DT(F);
        LoopInfo LI(DT);
        bool fl = true;
        for (Loop* L : LI.getLoopsInPreorder())
        {
            out << (fl ? "" : ",") << "\"" << bbs[L->getHeader()] << "\":[";
            fl = false;
            bool f3 = true;
            for (auto* bb : L->blocks()) { out << (f3 ? "" : ",") << bbs[bb]; f3 = false; }
            out << "]";
        }
        out << "}}";
    }
    out << "},\"types\":[";
    for (size_t i = 0; i < tyDefs.size(); i++) out << (i ? "," : "") << tyDefs[i];
    out << "]}\n";
    return 0;
}
