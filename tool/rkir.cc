// rkir: reads the linked LLVM bitcode of radarkit, normalises it (helper inlining, mem2reg, constant folding,
// jump threading) and writes a compact JSON model of the resolved program for the rules in /verif/rules.
// usage: rkir IN.bc OUT.json KNOWN.txt [--inline-static] [--passes=PIPELINE]
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static raw_ostream *O;
static const DataLayout *DL;
static DenseMap<StructType *, const DICompositeType *> SDI;
static std::map<std::string, const DICompositeType *> DIByName;
static std::map<const DICompositeType *, std::string> TypedefOf;

static void js(StringRef s) {
    *O << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') *O << '\\' << c;
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); *O << b; }
        else *O << c;
    }
    *O << '"';
}

static const DIType *strip(const DIType *t) {
    while (t) {
        if (auto *d = dyn_cast<DIDerivedType>(t)) {
            unsigned g = d->getTag();
            if (g == dwarf::DW_TAG_typedef || g == dwarf::DW_TAG_const_type || g == dwarf::DW_TAG_volatile_type || g == dwarf::DW_TAG_member) { t = d->getBaseType(); continue; }
            return t;
        }
        if (auto *c = dyn_cast<DICompositeType>(t)) {
            if (c->getTag() == dwarf::DW_TAG_array_type) { t = c->getBaseType(); continue; }
            return t;
        }
        return t;
    }
    return t;
}

static std::string typeName(const DIType *t) {   // source level spelling
    if (!t) return "void";
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
        unsigned g = d->getTag();
        if (g == dwarf::DW_TAG_typedef) return d->getName().str();
        if (g == dwarf::DW_TAG_pointer_type) return typeName(d->getBaseType()) + "*";
        if (g == dwarf::DW_TAG_const_type || g == dwarf::DW_TAG_volatile_type || g == dwarf::DW_TAG_member) return typeName(d->getBaseType());
        return d->getName().str();
    }
    if (auto *c = dyn_cast<DICompositeType>(t)) {
        if (c->getTag() == dwarf::DW_TAG_array_type) return typeName(c->getBaseType()) + "[]";
        auto it = TypedefOf.find(c);
        if (c->getName().empty() && it != TypedefOf.end()) return it->second;
        return c->getName().str();
    }
    if (isa<DISubroutineType>(t)) return "fn";
    return t->getName().str();
}

static std::string sname(StructType *st) {
    if (!st->hasName()) return "";
    auto it = SDI.find(st);
    if (it != SDI.end()) {
        auto t = TypedefOf.find(it->second);
        if (t != TypedefOf.end()) return t->second;
        if (!it->second->getName().empty()) return it->second->getName().str();
        if (auto *sc = dyn_cast_or_null<DICompositeType>(it->second->getScope())) {   // member of a named union or structure
            auto t2 = TypedefOf.find(sc);
            if (t2 != TypedefOf.end()) return t2->second;
            if (!sc->getName().empty()) return sc->getName().str();
        }
    }
    StringRef n = st->getName();
    if (n.starts_with("struct.")) n = n.drop_front(7);
    else if (n.starts_with("union.")) n = n.drop_front(6);
    return n.str();
}

static std::pair<std::string, const DIType *> fieldDI(StructType *st, unsigned idx) {
    auto it = SDI.find(st);
    if (it == SDI.end() || st->isOpaque()) return {"", nullptr};
    uint64_t off = DL->getStructLayout(st)->getElementOffsetInBits(idx);
    const DICompositeType *c = it->second;
    const DIDerivedType *best = nullptr;
    for (auto *e : c->getElements()) {
        auto *d = dyn_cast_or_null<DIDerivedType>(e);
        if (!d || d->getTag() != dwarf::DW_TAG_member) continue;
        if (d->getOffsetInBits() == off) { if (!best || d->getSizeInBits() > best->getSizeInBits()) best = d; }
    }
    if (!best) return {"", nullptr};
    return {best->getName().str(), best->getBaseType()};
}

static void collectDI(Module &M) {
    DebugInfoFinder F;
    F.processModule(M);
    for (auto *t : F.types()) {
        if (auto *d = dyn_cast<DIDerivedType>(t)) {
            if (d->getTag() == dwarf::DW_TAG_typedef) {
                if (auto *c = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
                    if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) {
                        if (!TypedefOf.count(c) || TypedefOf[c] > d->getName().str()) TypedefOf[c] = d->getName().str();
                        if (c->getElements().size()) DIByName[d->getName().str()] = c;
                    }
            }
        } else if (auto *c = dyn_cast<DICompositeType>(t)) {
            if ((c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) && !c->getName().empty() && c->getElements().size())
                DIByName[c->getName().str()] = c;
        }
    }
    // typedef names by tag name, for composite copies of other units
    std::map<std::string, std::string> tagTypedef;
    for (auto &p : TypedefOf) if (!p.first->getName().empty()) tagTypedef[p.first->getName().str()] = p.second;
    std::vector<StructType *> work;
    for (StructType *st : M.getIdentifiedStructTypes()) {
        StringRef n = st->getName();
        if (n.starts_with("struct.")) n = n.drop_front(7);
        else if (n.starts_with("union.")) n = n.drop_front(6);
        std::string s = n.str();
        auto it = DIByName.find(s);
        if (it == DIByName.end()) {
            size_t p = s.rfind('.');
            if (p != std::string::npos) it = DIByName.find(s.substr(0, p));
        }
        if (it != DIByName.end() && s.substr(0, 4) != "anon") {
            SDI[st] = it->second;
            if (!it->second->getName().empty() && !TypedefOf.count(it->second)) {
                auto t = tagTypedef.find(it->second->getName().str());
                if (t != tagTypedef.end()) TypedefOf[it->second] = t->second;
            }
            work.push_back(st);
        }
    }
    while (!work.empty()) {
        StructType *st = work.back(); work.pop_back();
        if (st->isOpaque()) continue;
        for (unsigned i = 0; i < st->getNumElements(); i++) {
            Type *t = st->getElementType(i);
            while (t->isArrayTy()) t = t->getArrayElementType();
            auto *sub = dyn_cast<StructType>(t);
            if (!sub || !sub->hasName() || SDI.count(sub)) continue;
            auto d = fieldDI(st, i);
            auto *c = dyn_cast_or_null<DICompositeType>(strip(d.second));
            if (c) { SDI[sub] = c; work.push_back(sub); }
        }
    }
}

// anonymous structures inside unions have no name to match by: pair them with the debug information by layout
static void collectAnon(Module &M) {
    DebugInfoFinder F;
    F.processModule(M);
    std::map<std::string, std::vector<const DICompositeType *>> byLayout;
    for (auto *t : F.types()) {
        auto *c = dyn_cast<DICompositeType>(t);
        if (!c || c->getTag() != dwarf::DW_TAG_structure_type || !c->getName().empty()) continue;
        std::string k;
        for (auto *e : c->getElements()) if (auto *d = dyn_cast_or_null<DIDerivedType>(e)) if (d->getTag() == dwarf::DW_TAG_member) k += std::to_string(d->getOffsetInBits() / 8) + ":" + std::to_string(d->getSizeInBits() / 8) + ",";
        byLayout[k].push_back(c);
    }
    for (StructType *st : M.getIdentifiedStructTypes()) {
        if (SDI.count(st) || st->isOpaque()) continue;
        StringRef n = st->getName();
        if (!n.starts_with("struct.anon")) continue;
        std::string k;
        auto *L = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) k += std::to_string(L->getElementOffset(i).getFixedValue()) + ":" + std::to_string(DL->getTypeAllocSize(st->getElementType(i)).getFixedValue()) + ",";
        auto it = byLayout.find(k);
        if (it == byLayout.end()) continue;
        const DICompositeType *pick = nullptr; bool clash = false;
        for (auto *c : it->second) {
            if (!pick) { pick = c; continue; }
            // copies of one type in different units are the same; different member names clash
            auto a = pick->getElements(), b = c->getElements();
            for (unsigned i = 0; i < a.size() && i < b.size(); i++) if (cast<DIDerivedType>(a[i])->getName() != cast<DIDerivedType>(b[i])->getName()) clash = true;
        }
        if (pick && !clash) SDI[st] = pick;
    }
}

struct FnCtx {
    DenseMap<const Value *, int> id;
    DenseMap<const BasicBlock *, int> bb;
};

static void operand(FnCtx &C, const Value *v);

static void gepPath(FnCtx *C, const GEPOperator *g) {
    *O << '[';
    Type *cur = g->getSourceElementType();
    bool first = true;
    unsigned k = 0;
    for (auto it = g->idx_begin(); it != g->idx_end(); ++it, ++k) {
        const Value *ix = it->get();
        if (k == 0) {
            if (auto *ci = dyn_cast<ConstantInt>(ix)) if (ci->isZero()) continue;
            if (!first) *O << ','; first = false;
            *O << "[\"p\","; operand(*C, ix); *O << ',' << DL->getTypeAllocSize(cur).getFixedValue() << ']';
            continue;
        }
        if (!first) *O << ','; first = false;
        if (auto *st = dyn_cast<StructType>(cur)) {
            unsigned i = cast<ConstantInt>(ix)->getZExtValue();
            auto d = fieldDI(st, i);
            *O << "[\"f\","; js(sname(st)); *O << ',' << i << ','; js(d.first.empty() ? ("#" + std::to_string(i)) : d.first);
            *O << ',' << DL->getStructLayout(st)->getElementOffset(i).getFixedValue() << ',' << DL->getTypeAllocSize(st->getElementType(i)).getFixedValue() << ']';
            cur = st->getElementType(i);
        } else {
            uint64_t n = 0;
            Type *el = cur;
            if (auto *at = dyn_cast<ArrayType>(cur)) { n = at->getNumElements(); el = at->getElementType(); }
            else if (auto *vt = dyn_cast<FixedVectorType>(cur)) { n = vt->getNumElements(); el = vt->getElementType(); }
            *O << "[\"i\","; operand(*C, ix); *O << ',' << DL->getTypeAllocSize(el).getFixedValue() << ',' << n << ']';
            cur = el;
        }
    }
    *O << ']';
}

static void operand(FnCtx &C, const Value *v) {
    if (auto *ci = dyn_cast<ConstantInt>(v)) {
        if (ci->getBitWidth() <= 64) *O << "[\"c\"," << ci->getSExtValue() << ',' << ci->getBitWidth() << ']';
        else *O << "[\"u\"]";
        return;
    }
    if (isa<ConstantPointerNull>(v)) { *O << "[\"n\"]"; return; }
    if (auto *cf = dyn_cast<ConstantFP>(v)) {
        APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        char b[64]; snprintf(b, 64, "%.9g", f.convertToDouble());
        *O << "[\"d\",\"" << b << "\"]"; return;
    }
    if (auto *f = dyn_cast<Function>(v)) { *O << "[\"F\","; js(f->getName()); *O << ']'; return; }
    if (auto *g = dyn_cast<GlobalVariable>(v)) {
        if (g->isConstant() && g->hasInitializer()) {
            if (auto *cd = dyn_cast<ConstantDataSequential>(g->getInitializer())) {
                if (cd->isString()) { *O << "[\"s\","; StringRef s = cd->getAsString(); if (s.ends_with(StringRef("\0", 1))) s = s.drop_back(); js(s); *O << ','; js(g->getName()); *O << ']'; return; }
            } else if (g->getInitializer()->isNullValue() && g->getInitializer()->getType()->isArrayTy() && g->getName().starts_with(".str")) {
                *O << "[\"s\",\"\","; js(g->getName()); *O << ']'; return;
            }
        }
        *O << "[\"g\","; js(g->getName()); *O << ']'; return;
    }
    if (isa<UndefValue>(v)) { *O << "[\"u\"]"; return; }
    if (auto *fr = dyn_cast<FreezeInst>(v)) if (isa<UndefValue>(fr->getOperand(0))) { *O << "[\"u\"]"; return; }
    if (auto *ce = dyn_cast<ConstantExpr>(v)) {
        if (auto *g = dyn_cast<GEPOperator>(ce)) { *O << "[\"G\","; operand(C, g->getPointerOperand()); *O << ','; gepPath(&C, g); *O << ']'; return; }
        *O << "[\"E\","; js(ce->getOpcodeName());
        for (auto &u : ce->operands()) { *O << ','; operand(C, u.get()); }
        *O << ']'; return;
    }
    if (auto *a = dyn_cast<Argument>(v)) { *O << "[\"a\"," << a->getArgNo() << ']'; return; }
    auto it = C.id.find(v);
    if (it != C.id.end()) { *O << it->second; return; }
    if (auto *ca = dyn_cast<ConstantAggregateZero>(v)) { (void)ca; *O << "[\"z\"]"; return; }
    *O << "[\"?\"]";
}

static std::string ty(Type *t) {
    if (t->isPointerTy()) return "p";
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (t->isFloatTy()) return "f";
    if (t->isDoubleTy()) return "d";
    if (t->isVoidTy()) return "v";
    if (auto *s = dyn_cast<StructType>(t)) return "S:" + sname(s);
    if (auto *a = dyn_cast<ArrayType>(t)) return "[" + std::to_string(a->getNumElements()) + "x" + ty(a->getElementType()) + "]";
    if (auto *a = dyn_cast<FixedVectorType>(t)) return "<" + std::to_string(a->getNumElements()) + "x" + ty(a->getElementType()) + ">";
    std::string s; raw_string_ostream r(s); t->print(r); return s;
}

static std::string baseName(StringRef f) { size_t p = f.rfind('/'); return (p == StringRef::npos ? f : f.drop_front(p + 1)).str(); }

static void constVal(FnCtx &C, const Constant *c, int depth) {
    if (depth > 4) { *O << "[\"?\"]"; return; }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
        *O << "[\"L\"";
        for (auto &u : ca->operands()) { *O << ','; constVal(C, cast<Constant>(u.get()), depth + 1); }
        *O << ']'; return;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        if (cd->isString()) { *O << "[\"s\","; js(cd->getAsString()); *O << ",\"\"]"; return; }
        *O << "[\"L\"";
        for (unsigned i = 0; i < cd->getNumElements(); i++) { *O << ','; operand(C, cd->getElementAsConstant(i)); }
        *O << ']'; return;
    }
    operand(C, c);
}

static std::string stem(StringRef n) {   // the linker appends .N to equal static names
    size_t p = n.rfind('.');
    if (p == StringRef::npos || p == 0 || n.drop_front(p + 1).find_first_not_of("0123456789") != StringRef::npos) return n.str();
    return n.take_front(p).str();
}

int main(int argc, char **argv) {
    if (argc < 4) { errs() << "usage\n"; return 2; }
    bool inlineStatic = false, unset = false;
    std::string passes = "function(mem2reg,sccp,simplifycfg<no-switch-range-to-icmp;no-switch-to-lookup;keep-loops;no-hoist-common-insts;no-sink-common-insts>,jump-threading,dce)";
    std::set<std::string> noinline_;
    for (int i = 4; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--inline-static") inlineStatic = true;
        else if (a == "--unset") unset = true;
        else if (a.rfind("--passes=", 0) == 0) passes = a.substr(9);
        else if (a.rfind("--noinline=", 0) == 0) noinline_.insert(a.substr(11));
    }
    std::set<std::string> known;
    { std::ifstream k(argv[3]); std::string l; while (std::getline(k, l)) if (!l.empty()) known.insert(l); }
    LLVMContext Ctx;
    SMDiagnostic Err;
    std::unique_ptr<Module> M = parseIRFile(argv[1], Err, Ctx);
    if (!M) { Err.print("rkir", errs()); return 2; }
    DL = &M->getDataLayout();
    std::vector<std::string> inlined;
    // addresses taken
    std::map<Function *, int> inlineCount;
    auto wants = [&](Function *f) {
        if (!f || f->isDeclaration() || f->isVarArg()) return false;
        if (noinline_.count(f->getName().str())) return false;
        if (f->getName() == "main") return false;
        if (!known.count(stem(f->getName()))) return true;
        return inlineStatic && f->hasLocalLinkage() && f->getInstructionCount() < 4000;
    };
    // bottom-up: repeat until no change; guard against recursion by a per-function budget
    {
        std::map<Function *, std::set<Function *>> calls;
        for (Function &F : *M) for (Instruction &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) if (Function *c = cb->getCalledFunction()) calls[&F].insert(c);
        std::vector<Function *> order; std::set<Function *> seen; std::set<Function *> onstack; std::set<Function *> recursive;
        std::function<void(Function *)> dfs = [&](Function *f) {
            if (seen.count(f)) return; seen.insert(f); onstack.insert(f);
            for (auto *c : calls[f]) { if (onstack.count(c)) recursive.insert(c); else dfs(c); }
            onstack.erase(f); order.push_back(f);
        };
        for (Function &F : *M) dfs(&F);
        for (Function *f : order) {
            if (f->isDeclaration()) continue;
            bool again = true; int budget = 2000;
            while (again && budget > 0) {
                again = false;
                for (Instruction &I : instructions(*f)) {
                    auto *cb = dyn_cast<CallBase>(&I);
                    if (!cb) continue;
                    Function *c = cb->getCalledFunction();
                    if (!wants(c) || recursive.count(c) || c == f) continue;
                    // do not let function grow without bound
                    if (f->getInstructionCount() > 40000) continue;
                    InlineFunctionInfo IFI;
                    if (InlineFunction(*cb, IFI).isSuccess()) { inlineCount[c]++; again = true; budget--; break; }
                }
            }
        }
    }
    // what a scalar holds before it is given a value is kept apart from every other value, so that nothing is folded away with it
    if (unset) for (Function &F : *M) {
        if (F.isDeclaration()) continue;
        std::vector<AllocaInst *> as;
        for (Instruction &I : F.getEntryBlock()) if (auto *a = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(a)) as.push_back(a);
        for (auto *a : as) {
            auto *fr = new FreezeInst(UndefValue::get(a->getAllocatedType()), "", a->getNextNode());
            new StoreInst(fr, a, fr->getNextNode());
        }
    }
    {
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PassBuilder PB;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        if (auto e = PB.parsePassPipeline(MPM, passes)) { errs() << "bad pipeline: " << toString(std::move(e)) << "\n"; return 2; }
        MPM.run(*M, MAM);
    }
    collectDI(*M);
    collectAnon(*M);
    std::error_code EC;
    raw_fd_ostream OS(argv[2], EC);
    if (EC) { errs() << EC.message() << "\n"; return 2; }
    O = &OS;
    *O << "{\"structs\":{";
    bool first = true;
    std::set<std::string> doneS;
    for (StructType *st : M->getIdentifiedStructTypes()) {
        if (st->isOpaque()) continue;
        std::string n = sname(st);
        if (n.empty() || doneS.count(n)) continue;
        doneS.insert(n);
        if (!first) *O << ','; first = false;
        js(n); *O << ":{\"size\":" << DL->getTypeAllocSize(st).getFixedValue() << ",\"llvm\":"; js(st->getName()); *O << ",\"fields\":[";
        for (unsigned i = 0; i < st->getNumElements(); i++) {
            if (i) *O << ',';
            auto d = fieldDI(st, i);
            *O << '['; js(d.first.empty() ? ("#" + std::to_string(i)) : d.first); *O << ',' << DL->getStructLayout(st)->getElementOffset(i).getFixedValue() << ',' << DL->getTypeAllocSize(st->getElementType(i)).getFixedValue() << ',';
            js(ty(st->getElementType(i))); *O << ','; js(d.second ? typeName(d.second) : ""); *O << ']';
        }
        *O << "]}\n";
    }
    // structures as the debug information has them (with unions and nested members)
    *O << "},\"ditypes\":{";
    first = true;
    for (auto &p : DIByName) {
        if (!first) *O << ','; first = false;
        js(p.first); *O << ":{\"size\":" << p.second->getSizeInBits() / 8 << ",\"union\":" << (p.second->getTag() == dwarf::DW_TAG_union_type ? 1 : 0) << ",\"members\":[";
        bool f2 = true;
        for (auto *e : p.second->getElements()) if (auto *d = dyn_cast_or_null<DIDerivedType>(e)) if (d->getTag() == dwarf::DW_TAG_member) {
            if (!f2) *O << ','; f2 = false;
            *O << '['; js(d->getName()); *O << ',' << d->getOffsetInBits() / 8 << ',' << d->getSizeInBits() / 8 << ','; js(typeName(d->getBaseType())); *O << ']';
        }
        *O << "]}\n";
    }
    *O << "},\"globals\":{";
    first = true;
    for (GlobalVariable &g : M->globals()) {
        if (g.getName().starts_with(".str") || g.getName().starts_with("llvm.")) continue;
        if (!first) *O << ','; first = false;
        FnCtx C;
        js(g.getName()); *O << ":{\"ty\":"; js(ty(g.getValueType())); *O << ",\"const\":" << (g.isConstant() ? 1 : 0) << ",\"size\":" << DL->getTypeAllocSize(g.getValueType()).getFixedValue() << ",\"init\":";
        if (g.hasInitializer()) constVal(C, g.getInitializer(), 0); else *O << "null";
        *O << "}\n";
    }
    *O << "},\"functions\":{";
    first = true;
    for (Function &F : *M) {
        if (F.isIntrinsic()) continue;
        if (!first) *O << ','; first = false;
        js(F.getName()); *O << ":{\"decl\":" << (F.isDeclaration() ? 1 : 0) << ",\"static\":" << (F.hasLocalLinkage() ? 1 : 0) << ",\"va\":" << (F.isVarArg() ? 1 : 0) << ",\"inl\":" << inlineCount[&F] << ",\"noret\":" << (F.doesNotReturn() ? 1 : 0);
        DISubprogram *SP = F.getSubprogram();
        if (SP) { *O << ",\"file\":"; js(baseName(SP->getFilename())); *O << ",\"line\":" << SP->getLine(); }
        *O << ",\"ret\":"; js(ty(F.getReturnType()));
        *O << ",\"argty\":[";
        for (unsigned i = 0; i < F.arg_size(); i++) { if (i) *O << ','; js(ty(F.getArg(i)->getType())); }
        *O << "]";
        if (SP && SP->getType()) {
            *O << ",\"sig\":[";
            auto ta = SP->getType()->getTypeArray();
            for (unsigned i = 0; i < ta.size(); i++) { if (i) *O << ','; js(typeName(ta[i])); }
            *O << "]";
        }
        if (F.isDeclaration()) { *O << "}\n"; continue; }
        FnCtx C;
        int n = 0, b = 0;
        for (BasicBlock &B : F) {
            C.bb[&B] = b++;
            for (Instruction &I : B) { if (isa<DbgInfoIntrinsic>(&I)) continue; C.id[&I] = n++; }
        }
        *O << ",\"args\":[";
        for (unsigned i = 0; i < F.arg_size(); i++) { if (i) *O << ','; js(F.getArg(i)->getName()); }
        *O << "],\"vars\":{";
        bool f3 = true;
        std::set<std::pair<int, std::string>> dv;
        for (Instruction &I : instructions(F)) {
            const Value *v = nullptr; const DILocalVariable *var = nullptr;
            if (auto *d = dyn_cast<DbgDeclareInst>(&I)) { v = d->getAddress(); var = d->getVariable(); }
            else if (auto *d = dyn_cast<DbgValueInst>(&I)) { if (!d->hasArgList()) { v = d->getValue(); var = d->getVariable(); } }
            if (!v || !var) continue;
            auto it = C.id.find(v);
            if (it == C.id.end()) continue;
            if (!dv.insert({it->second, ""}).second) continue;
            if (!f3) *O << ','; f3 = false;
            *O << '"' << it->second << "\":["; js(var->getName()); *O << ','; js(typeName(var->getType())); *O << ']';
        }
        *O << "},\"blocks\":[";
        bool fb = true;
        for (BasicBlock &B : F) {
            if (!fb) *O << ','; fb = false;
            *O << "[";
            bool fi = true;
            for (Instruction &I : B) {
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                if (!fi) *O << ",\n"; fi = false;
                // [op, type, line, file, payload...]
                *O << '[';
                js(I.getOpcodeName()); *O << ','; js(ty(I.getType())); *O << ',';
                if (auto &loc = I.getDebugLoc()) {
                    *O << loc.getLine() << ',';
                    auto *sc = loc->getScope();
                    js(baseName(sc->getFilename()));
                    if (loc->getInlinedAt()) { /* scope name marks the helper */ }
                    *O << ','; js(sc->getSubprogram() ? sc->getSubprogram()->getName() : StringRef(""));
                } else *O << "0,\"\",\"\"";
                *O << ',';
                if (auto *cb = dyn_cast<CallBase>(&I)) {
                    *O << '['; operand(C, cb->getCalledOperand());
                    for (auto &a : cb->args()) { *O << ','; if (isa<MetadataAsValue>(a.get())) *O << "[\"?\"]"; else operand(C, a.get()); }
                    *O << ']';
                } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                    *O << '['; operand(C, g->getPointerOperand()); *O << ','; gepPath(&C, cast<GEPOperator>(g)); *O << ']';
                } else if (auto *p = dyn_cast<PHINode>(&I)) {
                    *O << '[';
                    for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { if (i) *O << ','; *O << '['; operand(C, p->getIncomingValue(i)); *O << ',' << C.bb[p->getIncomingBlock(i)] << ']'; }
                    *O << ']';
                } else if (auto *br = dyn_cast<BranchInst>(&I)) {
                    *O << '[';
                    if (br->isConditional()) { operand(C, br->getCondition()); *O << ',' << C.bb[br->getSuccessor(0)] << ',' << C.bb[br->getSuccessor(1)]; }
                    else *O << C.bb[br->getSuccessor(0)];
                    *O << ']';
                } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                    *O << '['; operand(C, sw->getCondition()); *O << ',' << C.bb[sw->getDefaultDest()];
                    for (auto &cs : sw->cases()) { *O << ",[" << cs.getCaseValue()->getSExtValue() << ',' << C.bb[cs.getCaseSuccessor()] << ']'; }
                    *O << ']';
                } else if (auto *cm = dyn_cast<CmpInst>(&I)) {
                    *O << '['; js(CmpInst::getPredicateName(cm->getPredicate())); *O << ','; operand(C, cm->getOperand(0)); *O << ','; operand(C, cm->getOperand(1)); *O << ']';
                } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
                    *O << '['; operand(C, al->getArraySize()); *O << ',' << DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue() << ','; js(ty(al->getAllocatedType())); *O << ']';
                } else if (auto *st = dyn_cast<StoreInst>(&I)) {
                    *O << '['; operand(C, st->getValueOperand()); *O << ','; operand(C, st->getPointerOperand()); *O << ','; *O << DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue() << ','; js(ty(st->getValueOperand()->getType())); *O << ']';
                } else {
                    *O << '[';
                    bool fo = true;
                    for (auto &u : I.operands()) { if (isa<BasicBlock>(u.get())) continue; if (!fo) *O << ','; fo = false; operand(C, u.get()); }
                    *O << ']';
                }
                *O << ']';
            }
            *O << "]";
        }
        *O << "]}\n";
    }
    *O << "}}\n";
    OS.flush();
    return 0;
}
