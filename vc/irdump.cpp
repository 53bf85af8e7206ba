// irdump: LLVM bitcode -> JSON, restricted to what is reachable from the given roots.
// usage: irdump in.bc out.json root-prefix...
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <deque>
#include <map>
#include <set>
using namespace llvm;
using json::Array; using json::Object; using json::Value;

static const DataLayout* DL;
static std::set<const GlobalValue*> seen;
static std::deque<const GlobalValue*> work;
static std::map<const llvm::Value*, int> ids;

static void need(const GlobalValue* g) { if (seen.insert(g).second) work.push_back(g); }

static json::Value ty(Type* t)
{
    if (t->isVoidTy()) return "void";
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (t->isPointerTy()) return "p";
    if (t->isDoubleTy()) return "f64";
    if (t->isFloatTy()) return "f32";
    if (t->isX86_FP80Ty()) return "f80";
    if (auto* st = dyn_cast<StructType>(t)) {
        if (st->isOpaque()) return Array{"opaque"};
        auto* sl = DL->getStructLayout(st);
        Array a;
        for (unsigned i = 0; i < st->getNumElements(); ++i) a.push_back(Array{(int64_t)sl->getElementOffset(i), ty(st->getElementType(i))});
        return Array{"st", (int64_t)DL->getTypeAllocSize(st).getFixedValue(), std::move(a)};
    }
    if (auto* at = dyn_cast<ArrayType>(t))
        return Array{"ar", (int64_t)at->getNumElements(), ty(at->getElementType()), (int64_t)DL->getTypeAllocSize(at->getElementType()).getFixedValue()};
    if (auto* vt = dyn_cast<FixedVectorType>(t))
        return Array{"vec", (int64_t)vt->getNumElements(), ty(vt->getElementType()), (int64_t)DL->getTypeAllocSize(vt->getElementType()).getFixedValue()};
    std::string s; raw_string_ostream o(s); t->print(o);
    return Array{"other", o.str()};
}

static json::Value val(const llvm::Value* v);

static std::string istr(const APInt& a) { SmallString<40> s; a.toStringUnsigned(s); return s.str().str(); }

static json::Value constant(const Constant* c)
{
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 53) return Array{"i", (int64_t)ci->getBitWidth(), (int64_t)ci->getZExtValue()};
        return Array{"i", (int64_t)ci->getBitWidth(), istr(ci->getValue())};
    }
    if (isa<ConstantPointerNull>(c)) return Array{"n"};
    if (isa<UndefValue>(c)) return Array{"u", ty(c->getType())};
    if (isa<ConstantAggregateZero>(c)) return Array{"z", ty(c->getType())};
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        return Array{"f", ty(c->getType()), istr(cf->getValueAPF().bitcastToAPInt())};
    }
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
        if (auto* ga = dyn_cast<GlobalAlias>(gv)) {
            if (auto* o = dyn_cast<Constant>(ga->getAliasee())) return constant(o);
        }
        need(gv);
        return Array{"g", gv->getName().str()};
    }
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
        if (cds->getElementType()->isIntegerTy(8)) {
            std::string hex; static const char* d = "0123456789abcdef";
            for (unsigned char ch : cds->getRawDataValues()) { hex += d[ch >> 4]; hex += d[ch & 15]; }
            return Array{"bytes", hex};
        }
        Array a;
        for (unsigned i = 0; i < cds->getNumElements(); ++i) a.push_back(constant(cds->getElementAsConstant(i)));
        return Array{"agg", ty(c->getType()), std::move(a)};
    }
    if (isa<ConstantAggregate>(c)) {
        Array a;
        for (unsigned i = 0; i < c->getNumOperands(); ++i) a.push_back(constant(cast<Constant>(c->getOperand(i))));
        return Array{"agg", ty(c->getType()), std::move(a)};
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (auto* gep = dyn_cast<GEPOperator>(ce)) {
            APInt off(64, 0);
            if (gep->accumulateConstantOffset(*DL, off))
                return Array{"gep", constant(cast<Constant>(gep->getPointerOperand())), (int64_t)off.getSExtValue()};
        }
        if (ce->isCast()) return Array{"cast", ce->getOpcodeName(), constant(ce->getOperand(0)), ty(ce->getType())};
        Array a{"ce", ce->getOpcodeName(), ty(ce->getType())};
        for (auto& o : ce->operands()) a.push_back(constant(cast<Constant>(o.get())));
        return a;
    }
    std::string s; raw_string_ostream o(s); c->print(o);
    return Array{"unk", o.str()};
}

static json::Value val(const llvm::Value* v)
{
    if (auto* c = dyn_cast<Constant>(v)) return constant(c);
    if (isa<MetadataAsValue>(v)) return Array{"md"};
    if (isa<InlineAsm>(v)) return Array{"asm"};
    if (isa<BasicBlock>(v)) return Array{"bb"};
    return (int64_t)ids.at(v);
}

static json::Value inst(const Instruction& I, std::map<const BasicBlock*, int>& bb)
{
    int64_t id = I.getType()->isVoidTy() ? -1 : ids[&I];
    Array a;
    auto B = [&](const BasicBlock* b) -> int64_t { return bb.at(b); };
    if (auto* x = dyn_cast<AllocaInst>(&I)) {
        a = Array{"alloca", id, (int64_t)DL->getTypeAllocSize(x->getAllocatedType()).getFixedValue(), val(x->getArraySize()), x->getName().str(), (int64_t)x->getAlign().value()};
    } else if (auto* x = dyn_cast<LoadInst>(&I)) {
        a = Array{"load", id, ty(x->getType()), val(x->getPointerOperand()), x->isAtomic()};
    } else if (auto* x = dyn_cast<StoreInst>(&I)) {
        a = Array{"store", id, ty(x->getValueOperand()->getType()), val(x->getValueOperand()), val(x->getPointerOperand()), x->isAtomic()};
    } else if (auto* x = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<llvm::Value*, APInt> vo; APInt co(64, 0);
        if (cast<GEPOperator>(x)->collectOffset(*DL, 64, vo, co)) {
            Array vs;
            for (auto& p : vo) vs.push_back(Array{val(p.first), (int64_t)p.second.getSExtValue(), (int64_t)p.first->getType()->getIntegerBitWidth()});
            a = Array{"gep", id, val(x->getPointerOperand()), (int64_t)co.getSExtValue(), std::move(vs), x->isInBounds()};
        } else a = Array{"unsup", id, "gep"};
    } else if (auto* x = dyn_cast<BinaryOperator>(&I)) {
        int fl = 0;
        if (auto* o = dyn_cast<OverflowingBinaryOperator>(x)) fl = (o->hasNoSignedWrap() ? 1 : 0) | (o->hasNoUnsignedWrap() ? 2 : 0);
        a = Array{"bin", id, x->getOpcodeName(), ty(x->getType()), val(x->getOperand(0)), val(x->getOperand(1)), fl};
    } else if (auto* x = dyn_cast<UnaryOperator>(&I)) {
        a = Array{"un", id, x->getOpcodeName(), ty(x->getType()), val(x->getOperand(0))};
    } else if (auto* x = dyn_cast<CmpInst>(&I)) {
        a = Array{isa<FCmpInst>(x) ? "fcmp" : "icmp", id, CmpInst::getPredicateName(x->getPredicate()).str(), ty(x->getOperand(0)->getType()), val(x->getOperand(0)), val(x->getOperand(1))};
    } else if (auto* x = dyn_cast<CastInst>(&I)) {
        a = Array{"castop", id, x->getOpcodeName(), ty(x->getSrcTy()), ty(x->getDestTy()), val(x->getOperand(0))};
    } else if (auto* x = dyn_cast<BranchInst>(&I)) {
        if (x->isConditional()) a = Array{"br", -1, val(x->getCondition()), B(x->getSuccessor(0)), B(x->getSuccessor(1))};
        else a = Array{"jmp", -1, B(x->getSuccessor(0))};
    } else if (auto* x = dyn_cast<SwitchInst>(&I)) {
        Array cs;
        for (auto& c : x->cases()) cs.push_back(Array{val(c.getCaseValue()), B(c.getCaseSuccessor())});
        a = Array{"switch", -1, val(x->getCondition()), B(x->getDefaultDest()), std::move(cs)};
    } else if (auto* x = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(x)) return nullptr;
        Array args;
        unsigned i = 0;
        for (auto& o : x->args()) {
            int64_t byval = x->isByValArgument(i) ? (int64_t)DL->getTypeAllocSize(x->getParamByValType(i)).getFixedValue() : 0;
            if (byval) args.push_back(Array{"byval", byval, val(o.get())});
            else args.push_back(val(o.get()));
            ++i;
        }
        json::Value callee = val(x->getCalledOperand());
        int64_t n = -1, u = -1;
        if (auto* iv = dyn_cast<InvokeInst>(x)) { n = B(iv->getNormalDest()); u = B(iv->getUnwindDest()); }
        a = Array{"call", id, ty(x->getType()), std::move(callee), std::move(args), n, u, x->doesNotThrow()};
    } else if (auto* x = dyn_cast<ReturnInst>(&I)) {
        if (x->getReturnValue()) a = Array{"ret", -1, val(x->getReturnValue())}; else a = Array{"ret", -1};
    } else if (auto* x = dyn_cast<PHINode>(&I)) {
        Array in;
        for (unsigned i = 0; i < x->getNumIncomingValues(); ++i) in.push_back(Array{B(x->getIncomingBlock(i)), val(x->getIncomingValue(i))});
        a = Array{"phi", id, std::move(in)};
    } else if (auto* x = dyn_cast<SelectInst>(&I)) {
        a = Array{"select", id, ty(x->getType()), val(x->getCondition()), val(x->getTrueValue()), val(x->getFalseValue())};
    } else if (auto* x = dyn_cast<ExtractValueInst>(&I)) {
        Array ix; for (auto i : x->indices()) ix.push_back((int64_t)i);
        a = Array{"extractvalue", id, val(x->getAggregateOperand()), std::move(ix)};
    } else if (auto* x = dyn_cast<InsertValueInst>(&I)) {
        Array ix; for (auto i : x->indices()) ix.push_back((int64_t)i);
        a = Array{"insertvalue", id, val(x->getAggregateOperand()), val(x->getInsertedValueOperand()), std::move(ix), ty(x->getType())};
    } else if (auto* x = dyn_cast<LandingPadInst>(&I)) {
        Array cl;
        for (unsigned i = 0; i < x->getNumClauses(); ++i) {
            if (x->isCatch(i)) cl.push_back(Array{"catch", constant(x->getClause(i))});
            else cl.push_back(Array{"filter", constant(x->getClause(i))});
        }
        a = Array{"landingpad", id, x->isCleanup(), std::move(cl)};
    } else if (auto* x = dyn_cast<ResumeInst>(&I)) {
        a = Array{"resume", -1, val(x->getValue())};
    } else if (isa<UnreachableInst>(&I)) {
        a = Array{"unreachable", -1};
    } else if (auto* x = dyn_cast<AtomicRMWInst>(&I)) {
        a = Array{"rmw", id, AtomicRMWInst::getOperationName(x->getOperation()).str(), ty(x->getType()), val(x->getPointerOperand()), val(x->getValOperand())};
    } else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&I)) {
        a = Array{"cmpxchg", id, ty(x->getCompareOperand()->getType()), val(x->getPointerOperand()), val(x->getCompareOperand()), val(x->getNewValOperand()), x->isWeak()};
    } else if (isa<FenceInst>(&I)) {
        a = Array{"fence", -1};
    } else if (auto* x = dyn_cast<FreezeInst>(&I)) {
        a = Array{"freeze", id, val(x->getOperand(0))};
    } else {
        a = Array{"unsup", id, I.getOpcodeName()};
    }
    int64_t line = 0; 
    if (auto& dl = I.getDebugLoc()) line = dl.getLine();
    a.push_back(line);
    return a;
}

int main(int argc, char** argv)
{
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print(argv[0], errs()); return 1; }
    DL = &M->getDataLayout();
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        for (int i = 3; i < argc; ++i) if (F.getName().startswith(argv[i])) need(&F);
    }
    std::error_code ec; raw_fd_ostream out(argv[2], ec);
    json::OStream J(out);
    Object funcs, globals;
    // all defined functions' demangled names, for lookups
    Object names;
    // global ctors
    // dynamic initialisers of reachable globals
    std::vector<const Function*> inits;
    for (auto& F : *M) if (!F.isDeclaration() && F.getName().startswith("__cxx_global_var_init")) inits.push_back(&F);
    auto pickInits = [&]() {
        for (auto* F : inits) {
            if (seen.count(F)) continue;
            for (auto& I : instructions(*F)) {
                bool hit = false;
                for (auto& op : I.operands()) {
                    const llvm::Value* v = op.get();
                    if (auto* g = dyn_cast<GEPOperator>(v)) v = g->getPointerOperand();
                    if (auto* gv = dyn_cast<GlobalVariable>(v)) if (!gv->isConstant() && gv->hasInitializer() && !gv->getName().startswith("_ZGV") && seen.count(gv)) hit = true;
                }
                if (hit) { need(F); break; }
            }
        }
    };
    while (true) {
        if (work.empty()) pickInits();
        if (work.empty()) break;
        const GlobalValue* g = work.front(); work.pop_front();
        if (auto* F = dyn_cast<Function>(g)) {
            Object o;
            o["dem"] = demangle(F->getName().str());
            Array params; ids.clear(); int n = 0;
            for (auto& a : F->args()) {
                ids[&a] = n++;
                params.push_back(Array{ty(a.getType()), a.getName().str(), a.hasByValAttr() ? (int64_t)DL->getTypeAllocSize(a.getParamByValType()).getFixedValue() : (int64_t)0, a.hasStructRetAttr()});
            }
            o["params"] = std::move(params);
            o["ret"] = ty(F->getReturnType());
            o["nounwind"] = F->doesNotThrow();
            o["vararg"] = F->isVarArg();
            if (!F->isDeclaration()) {
                if (auto* sp = F->getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine(); }
                std::map<const BasicBlock*, int> bb; int b = 0;
                for (auto& B : *F) { bb[&B] = b++; for (auto& I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
                Array blocks;
                for (auto& B : *F) {
                    Array is;
                    for (auto& I : B) { auto v = inst(I, bb); if (v.kind() != json::Value::Null) is.push_back(std::move(v)); }
                    blocks.push_back(std::move(is));
                }
                o["blocks"] = std::move(blocks);
                DominatorTree DT(const_cast<Function&>(*F)); LoopInfo LI(DT);
                Array loops;
                for (auto* L : LI.getLoopsInPreorder()) {
                    Array bs; for (auto* B : L->blocks()) bs.push_back((int64_t)bb[B]);
                    loops.push_back(Array{(int64_t)bb[L->getHeader()], std::move(bs), (int64_t)L->getLoopDepth()});
                }
                o["loops"] = std::move(loops);
            }
            funcs[F->getName().str()] = std::move(o);
        } else if (auto* V = dyn_cast<GlobalVariable>(g)) {
            Object o;
            o["size"] = (int64_t)DL->getTypeAllocSize(V->getValueType()).getFixedValue();
            o["const"] = V->isConstant();
            o["tls"] = V->isThreadLocal();
            o["ty"] = ty(V->getValueType());
            o["dem"] = demangle(V->getName().str());
            if (V->hasInitializer()) o["init"] = constant(V->getInitializer());
            globals[V->getName().str()] = std::move(o);
        }
    }
    Object root;
    Array ctors;
    for (auto* F : inits) if (seen.count(F)) ctors.push_back(F->getName().str());
    root["ctors"] = std::move(ctors);
    root["funcs"] = std::move(funcs);
    root["globals"] = std::move(globals);
    J.value(std::move(root));
    return 0;
}
