// irx: links LLVM bitcode of the code under analysis, normalises it (invoke lowering, SSA promotion,
// optional inlining of project functions) and dumps a typed, resolved JSON program for the Python analyses.
// usage: irx OUT.json PROJECT_PREFIX[:PREFIX...] KEEPFILE|- a.bc b.bc ...
// KEEPFILE lists the demangled names of the functions that are analysed as units of their own; every other
// (non-recursive) project function, i.e. a helper that is not part of the known code base, is inlined into its
// callers so that extracting a helper does not change what the analyses see. '-' keeps everything.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
using std::string;
using std::vector;

static vector<string> Prefixes;
static const DataLayout* DL;

static string esc(StringRef s) {
    string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
static string fileOf(const DIScope* s) {
    if (!s) return "";
    string d = s->getDirectory().str(), f = s->getFilename().str();
    if (!f.empty() && f[0] == '/') return f;
    return d + "/" + f;
}
static bool isProjectPath(const string& p) {
    for (auto& x : Prefixes) if (p.compare(0, x.size(), x) == 0) return true;
    return false;
}
static bool isProject(const Function& F) {
    if (F.isDeclaration()) return false;
    if (auto* sp = F.getSubprogram()) return isProjectPath(fileOf(sp->getFile()));
    // compiler generated thunks/outlined regions without a subprogram
    return F.getName().contains("omp_outlined");
}
static string tyStr(Type* t) {
    if (t->isPointerTy()) return "ptr";
    if (auto* st = dyn_cast<StructType>(t)) return st->hasName() ? st->getName().str() : "struct";
    string s; raw_string_ostream os(s); t->print(os); return os.str();
}

static string cleanName(string n) {
    while (true) {
        size_t q = n.rfind('.');
        if (q == string::npos || q + 1 == n.size() || n.find_first_not_of("0123456789", q + 1) != string::npos) return n;
        n = n.substr(0, q);
    }
}

// ---- debug-info driven field names -------------------------------------------------------------
struct DIRec { string name; const DICompositeType* ct; };
static std::map<string, vector<const DICompositeType*>> ByName;  // unqualified base name
static string diTypeName(const DIType* t) {
    if (!t) return "void";
    if (auto* b = dyn_cast<DIBasicType>(t)) return b->getName().str();
    if (auto* c = dyn_cast<DICompositeType>(t)) {
        if (c->getTag() == dwarf::DW_TAG_array_type) return diTypeName(c->getBaseType()) + "[]";
        return c->getName().str();
    }
    if (auto* d = dyn_cast<DIDerivedType>(t)) {
        switch (d->getTag()) {
            case dwarf::DW_TAG_pointer_type: return diTypeName(d->getBaseType()) + "*";
            case dwarf::DW_TAG_reference_type: return diTypeName(d->getBaseType()) + "&";
            case dwarf::DW_TAG_rvalue_reference_type: return diTypeName(d->getBaseType()) + "&&";
            case dwarf::DW_TAG_const_type: return "const " + diTypeName(d->getBaseType());
            case dwarf::DW_TAG_typedef: return d->getName().str();
            case dwarf::DW_TAG_member: return diTypeName(d->getBaseType());
            default: return d->getBaseType() ? diTypeName(d->getBaseType()) : d->getName().str();
        }
    }
    if (isa<DISubroutineType>(t)) return "fn";
    return "?";
}
static std::map<std::pair<StructType*, string>, vector<string>> FieldCache;
// The linker merges struct types of equal shape whatever their names: instructions carry the name they had in their own unit.
static void tagStructNames(Module& m) {
    for (auto& F : m) for (auto& BB : F) for (auto& I : BB) {
        Type* t = nullptr;
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) t = g->getSourceElementType();
        else if (auto* a = dyn_cast<AllocaInst>(&I)) t = a->getAllocatedType();
        if (auto* st = dyn_cast_or_null<StructType>(t))
            if (st->hasName()) I.setMetadata("irx.st", MDNode::get(m.getContext(), {MDString::get(m.getContext(), st->getName())}));
    }
}
static string tagName(const Instruction& I, Type* t) {
    auto* st = dyn_cast<StructType>(t);
    if (!st) return "";
    if (auto* md = I.getMetadata("irx.st")) return cast<MDString>(md->getOperand(0))->getString().str();
    return st->hasName() ? st->getName().str() : "";
}
static const vector<string>& fields(StructType* st, const string& stName) {
    auto ck = std::make_pair(st, stName);
    auto it = FieldCache.find(ck);
    if (it != FieldCache.end()) return it->second;
    vector<string> out(st->getNumElements());
    for (unsigned i = 0; i < out.size(); i++) out[i] = "#" + std::to_string(i);
    if (!stName.empty() && st->isSized()) {
        string n = stName;
        size_t p = n.find('.');
        if (p != string::npos) n = n.substr(p + 1);
        // strip uniquifying suffix .NN and .base
        while (true) {
            size_t q = n.rfind('.');
            if (q == string::npos) break;
            string suf = n.substr(q + 1);
            if (suf == "base" || suf.find_first_not_of("0123456789") == string::npos) n = n.substr(0, q); else break;
        }
        size_t c = n.rfind("::");
        string base = c == string::npos ? n : n.substr(c + 2);
        const StructLayout* sl = DL->getStructLayout(st);
        for (auto* ct : ByName[base]) {
            vector<string> cand = out; unsigned hit = 0; bool bad = false;
            for (auto* e : ct->getElements()) {
                auto* d = dyn_cast_or_null<DIDerivedType>(e);
                if (!d || d->isStaticMember()) continue;
                if (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) continue;
                uint64_t off = d->getOffsetInBits() / 8;
                bool found = false;
                for (unsigned i = 0; i < out.size(); i++)
                    if (sl->getElementOffset(i) == off) {
                        string nm = d->getTag() == dwarf::DW_TAG_member ? d->getName().str() : "<base>";
                        if (cand[i][0] == '#') { cand[i] = nm; hit++; }
                        else if (cand[i] == "<base>") cand[i] = nm; // empty base at the same offset
                        found = true; break;
                    }
                if (!found) bad = true;
            }
            if (!bad && hit) { out = cand; break; }
        }
    }
    return FieldCache[ck] = out;
}

// ---- dumping ------------------------------------------------------------------------------------
struct Dumper {
    raw_ostream& O;
    std::map<string, int> files; vector<string> fileList;
    std::map<const Value*, int> ids;
    Dumper(raw_ostream& o) : O(o) {}
    int fileId(const string& f) {
        auto it = files.find(f); if (it != files.end()) return it->second;
        int n = fileList.size(); files[f] = n; fileList.push_back(f); return n;
    }
    string operand(const Value* v) {
        if (auto* ci = dyn_cast<ConstantInt>(v)) {
            SmallString<32> s; ci->getValue().toString(s, 10, ci->getBitWidth() != 1, false);
            return "[\"c\"," + string(s.str()) + "," + std::to_string(ci->getBitWidth()) + "]";
        }
        if (auto* cf = dyn_cast<ConstantFP>(v)) {
            APFloat f = cf->getValueAPF(); bool li;
            f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
            char b[64]; snprintf(b, sizeof b, "%.17g", f.convertToDouble());
            return string("[\"f\",\"") + b + "\"]";
        }
        if (isa<ConstantPointerNull>(v)) return "[\"null\"]";
        if (isa<UndefValue>(v)) return "[\"undef\"]";
        if (isa<ConstantAggregateZero>(v)) return "[\"zero\"]";
        if (auto* f = dyn_cast<Function>(v)) return "[\"fn\"," + esc(f->getName()) + "]";
        if (auto* g = dyn_cast<GlobalVariable>(v)) return "[\"g\"," + esc(g->getName()) + "]";
        if (auto* a = dyn_cast<GlobalAlias>(v)) return operand(a->getAliaseeObject());
        if (auto* a = dyn_cast<Argument>(v)) return "[\"a\"," + std::to_string(a->getArgNo()) + "]";
        if (auto* ce = dyn_cast<ConstantExpr>(v)) {
            if (auto* gep = dyn_cast<GEPOperator>(ce)) {
                APInt off(64, 0);
                if (gep->accumulateConstantOffset(*DL, off))
                    return "[\"cg\"," + operand(gep->getPointerOperand()) + "," + std::to_string(off.getSExtValue()) + "]";
            }
            string s = "[\"ce\",\"" + string(ce->getOpcodeName()) + "\"";
            for (auto& o : ce->operands()) s += "," + operand(o.get());
            return s + "]";
        }
        if (isa<BasicBlock>(v)) return "[\"b\"," + std::to_string(ids[v]) + "]";
        if (isa<MetadataAsValue>(v)) return "[\"md\"]";
        if (isa<InlineAsm>(v)) return "[\"asm\"]";
        if (isa<Instruction>(v)) return "[\"v\"," + std::to_string(ids[v]) + "]";
        string s; raw_string_ostream os(s); v->print(os);
        return "[\"o\"," + esc(os.str()) + "]";
    }
    string loc(const Instruction& I) {
        const DILocation* d = I.getDebugLoc().get();
        string s = "[";
        bool first = true;
        while (d) {
            if (!first) s += ",";
            first = false;
            s += "[" + std::to_string(fileId(fileOf(d->getScope()->getFile()))) + "," + std::to_string(d->getLine());
            auto* sp = d->getScope()->getSubprogram();
            s += "," + esc(sp ? sp->getName() : "") + "," + std::to_string(d->getColumn()) + "]";
            d = d->getInlinedAt();
        }
        return s + "]";
    }
    void func(const Function& F, bool firstFn) {
        if (!firstFn) O << ",\n";
        ids.clear();
        int n = 0;
        for (auto& BB : F) ids[&BB] = n++;
        n = 0;
        for (auto& BB : F) for (auto& I : BB) ids[&I] = n++;
        auto* sp = F.getSubprogram();
        O << "{\"name\":" << esc(F.getName()) << ",\"dem\":" << esc(demangle(F.getName().str()));
        O << ",\"src\":" << esc(sp ? sp->getName() : "") << ",\"file\":" << fileId(sp ? fileOf(sp->getFile()) : "")
          << ",\"line\":" << (sp ? sp->getLine() : 0) << ",\"proj\":" << (isProject(F) ? "true" : "false")
          << ",\"linkage\":" << (int)F.getLinkage()
          << ",\"art\":" << (sp && (sp->getFlags() & DINode::FlagArtificial) ? "true" : "false")
          << ",\"acc\":" << (sp ? (int)(sp->getFlags() & DINode::FlagAccessibility) : 0);
        // declaration access (members: flags are on the declaration)
        if (sp && sp->getDeclaration())
            O << ",\"dacc\":" << (int)(sp->getDeclaration()->getFlags() & DINode::FlagAccessibility)
              << ",\"dart\":" << (sp->getDeclaration()->getFlags() & DINode::FlagArtificial ? "true" : "false");
        if (sp && sp->getScope()) O << ",\"scope\":" << esc(sp->getScope()->getName());
        O << ",\"ret\":" << esc(tyStr(F.getReturnType()));
        // DI parameter types (0 = return)
        O << ",\"dity\":[";
        if (sp && sp->getType()) {
            bool f = true;
            for (auto* t : sp->getType()->getTypeArray()) { if (!f) O << ","; f = false; O << esc(diTypeName(t)); }
        }
        O << "],\"pnames\":{";
        if (sp) {
            bool f = true;
            for (auto* nd : sp->getRetainedNodes())
                if (auto* v = dyn_cast<DILocalVariable>(nd)) if (v->getArg()) {
                    if (!f) O << ","; f = false;
                    O << "\"" << v->getArg() << "\":" << esc(v->getName());
                }
        }
        O << "},\"args\":[";
        bool fa = true;
        for (auto& A : F.args()) {
            if (!fa) O << ",";
            fa = false;
            O << "{\"n\":" << esc(A.getName()) << ",\"t\":" << esc(tyStr(A.getType()));
            if (A.hasStructRetAttr()) O << ",\"sret\":" << esc(tyStr(A.getParamStructRetType()));
            if (A.hasByValAttr()) O << ",\"byval\":" << esc(tyStr(A.getParamByValType()));
            O << "}";
        }
        O << "],\"blocks\":[\n";
        bool fb = true;
        for (auto& BB : F) {
            if (!fb) O << ",\n";
            fb = false;
            O << "[";
            bool fi = true;
            for (auto& I : BB) {
                if (auto* dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
                    // keep: name bindings value->variable, for readable reports
                    Value* loc = dv->getNumVariableLocationOps() ? dv->getVariableLocationOp(0) : nullptr;
                    if (!fi) O << ",";
                    fi = false;
                    auto* v = dv->getVariable();
                    O << "{\"i\":" << ids[&I] << ",\"o\":\"dbg\",\"n\":" << esc(v->getName()) << ",\"arg\":" << v->getArg()
                      << ",\"decl\":" << (isa<DbgDeclareInst>(dv) ? "true" : "false")
                      << ",\"ty\":" << esc(diTypeName(v->getType()))
                      << ",\"a\":[" << (loc ? operand(loc) : "[\"undef\"]") << "]}";
                    continue;
                }
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                if (!fi) O << ",\n";
                fi = false;
                O << "{\"i\":" << ids[&I] << ",\"o\":\"" << I.getOpcodeName() << "\",\"t\":" << esc(tyStr(I.getType()));
                O << ",\"l\":" << loc(I);
                if (auto* ci = dyn_cast<CmpInst>(&I)) O << ",\"p\":\"" << CmpInst::getPredicateName(ci->getPredicate()).str() << "\"";
                if (auto* al = dyn_cast<AllocaInst>(&I)) {
                    O << ",\"at\":" << esc(isa<StructType>(al->getAllocatedType()) ? cleanName(tagName(*al, al->getAllocatedType())) : tyStr(al->getAllocatedType()));
                    if (al->getAllocatedType()->isSized()) O << ",\"sz\":" << DL->getTypeAllocSize(al->getAllocatedType());
                }
                if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                    // path elements: ["f", fieldname] or ["x", operand, elemsize]
                    O << ",\"path\":[";
                    Type* cur = g->getSourceElementType();
                    bool f2 = true; unsigned k = 0;
                    for (auto it = g->idx_begin(); it != g->idx_end(); ++it, ++k) {
                        Value* ix = it->get();
                        if (k == 0) {
                            auto* c = dyn_cast<ConstantInt>(ix);
                            if (c && c->isZero()) continue;
                            if (!f2) O << ",";
                            f2 = false;
                            O << "[\"x\"," << operand(ix) << "," << (cur->isSized() ? DL->getTypeAllocSize(cur).getFixedValue() : 0) << "]";
                            continue;
                        }
                        if (auto* st = dyn_cast<StructType>(cur)) {
                            unsigned fi2 = cast<ConstantInt>(ix)->getZExtValue();
                            if (!f2) O << ",";
                            f2 = false;
                            O << "[\"f\"," << esc(fields(st, cur == g->getSourceElementType() ? tagName(*g, st) : st->hasName() ? st->getName().str() : "")[fi2]) << "," << esc(tyStr(st)) << "]";
                            cur = st->getElementType(fi2);
                        } else {
                            Type* et = GetElementPtrInst::getTypeAtIndex(cur, (uint64_t)0);
                            if (!f2) O << ",";
                            f2 = false;
                            O << "[\"x\"," << operand(ix) << "," << DL->getTypeAllocSize(et).getFixedValue() << "]";
                            cur = et;
                        }
                    }
                    O << "],\"st\":" << esc(isa<StructType>(g->getSourceElementType()) ? cleanName(tagName(*g, g->getSourceElementType())) : tyStr(g->getSourceElementType())) << ",\"rt\":" << esc(tyStr(g->getResultElementType()));
                }
                if (auto* cb = dyn_cast<CallBase>(&I)) {
                    Value* cv = cb->getCalledOperand()->stripPointerCasts();
                    if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject(); // constructors that share one body
                    if (auto* cf = dyn_cast<Function>(cv)) O << ",\"f\":" << esc(cf->getName());
                    else O << ",\"fp\":" << operand(cv);
                    O << ",\"a\":[";
                    bool f2 = true;
                    for (auto& a : cb->args()) { if (!f2) O << ","; f2 = false; O << operand(a.get()); }
                    O << "]";
                    if (cb->hasStructRetAttr()) O << ",\"sret\":true";
                } else if (auto* phi = dyn_cast<PHINode>(&I)) {
                    O << ",\"a\":[";
                    for (unsigned k = 0; k < phi->getNumIncomingValues(); k++) {
                        if (k) O << ",";
                        O << "[" << operand(phi->getIncomingValue(k)) << "," << ids[phi->getIncomingBlock(k)] << "]";
                    }
                    O << "]";
                } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                    O << ",\"a\":[" << operand(sw->getCondition()) << "],\"def\":" << ids[sw->getDefaultDest()] << ",\"cases\":[";
                    bool f2 = true;
                    for (auto& c : sw->cases()) {
                        if (!f2) O << ","; f2 = false;
                        O << "[" << c.getCaseValue()->getSExtValue() << "," << ids[c.getCaseSuccessor()] << "]";
                    }
                    O << "]";
                } else {
                    O << ",\"a\":[";
                    bool f2 = true;
                    for (auto& a : I.operands()) { if (!f2) O << ","; f2 = false; O << operand(a.get()); }
                    O << "]";
                }
                if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { O << ",\"ix\":[" << ev->getIndices()[0] << "]"; }
                if (auto* iv = dyn_cast<InsertValueInst>(&I)) { O << ",\"ix\":[" << iv->getIndices()[0] << "]"; }
                if (auto* iv = dyn_cast<InsertValueInst>(&I)) { O << ",\"ix\":[" << iv->getIndices()[0] << "]"; }
                O << "}";
            }
            O << "]";
        }
        O << "]}";
    }
    void globals(Module& M) {
        O << "\"globals\":{";
        bool f = true;
        for (auto& G : M.globals()) {
            if (!f) O << ",\n";
            f = false;
            O << esc(G.getName()) << ":{\"const\":" << (G.isConstant() ? "true" : "false") << ",\"decl\":" << (G.isDeclaration() ? "true" : "false")
              << ",\"tls\":" << (G.isThreadLocal() ? "true" : "false") << ",\"dem\":" << esc(demangle(G.getName().str())) << ",\"ty\":" << esc(tyStr(G.getValueType()));
            SmallVector<DIGlobalVariableExpression*, 1> gv; G.getDebugInfo(gv);
            if (!gv.empty()) {
                auto* v = gv[0]->getVariable();
                O << ",\"file\":" << fileId(fileOf(v->getFile())) << ",\"line\":" << v->getLine() << ",\"n\":" << esc(v->getName())
                  << ",\"proj\":" << (isProjectPath(fileOf(v->getFile())) ? "true" : "false")
                  << ",\"dity\":" << esc(diTypeName(v->getType()));
            }
            if (G.hasInitializer()) {
                auto* init = G.getInitializer();
                if (auto* ca = dyn_cast<ConstantDataArray>(init)) {
                    if (ca->isCString()) O << ",\"str\":" << esc(ca->getAsCString());
                    else if (ca->isString()) O << ",\"str\":" << esc(ca->getAsString());
                    else {
                        O << ",\"arr\":[";
                        for (unsigned k = 0; k < ca->getNumElements(); k++) { if (k) O << ","; O << operand(ca->getElementAsConstant(k)); }
                        O << "]";
                    }
                } else if (isa<ConstantInt>(init) || isa<ConstantFP>(init) || isa<ConstantPointerNull>(init) || init->getType()->isPointerTy())
                    O << ",\"val\":" << operand(init);
                else if (auto* ca2 = dyn_cast<ConstantArray>(init)) {
                    O << ",\"arr\":[";
                    for (unsigned k = 0; k < ca2->getNumOperands(); k++) { if (k) O << ","; O << operand(ca2->getOperand(k)); }
                    O << "]";
                } else if (isa<ConstantAggregateZero>(init)) O << ",\"zero\":true";
            }
            O << "}";
        }
        O << "}";
    }
};

// A scalar local starts with the result of a marker call instead of LLVM's undef: SROA would fold phi(x, undef)
// into x and hide the path on which the variable has no value. unmark() turns the markers into undef again.
static void mark(Function& F) {
    std::vector<AllocaInst*> as;
    for (auto& I : F.getEntryBlock()) if (auto* a = dyn_cast<AllocaInst>(&I)) {
        Type* t = a->getAllocatedType();
        if (!a->isArrayAllocation() && (t->isIntegerTy() || t->isFloatTy() || t->isDoubleTy() || t->isPointerTy()) && isAllocaPromotable(a)) as.push_back(a);
    }
    for (auto* a : as) {
        string n; raw_string_ostream o(n); o << "__irx_unset."; a->getAllocatedType()->print(o);
        FunctionCallee m = F.getParent()->getOrInsertFunction(o.str(), FunctionType::get(a->getAllocatedType(), false));
        auto* c = CallInst::Create(m, "", a->getNextNode());
        (new StoreInst(c, a, false, a->getAlign()))->insertAfter(c);
    }
}

static void unmark(Function& F) {
    std::vector<CallInst*> cs;
    for (auto& B : F) for (auto& I : B)
        if (auto* c = dyn_cast<CallInst>(&I)) if (c->getCalledFunction() && c->getCalledFunction()->getName().starts_with("__irx_unset.")) cs.push_back(c);
    for (auto* c : cs) { c->replaceAllUsesWith(UndefValue::get(c->getType())); c->eraseFromParent(); }
}

static void promote(Function& F, FunctionAnalysisManager& FAM) {
    SROAPass p(SROAOptions::PreserveCFG);
    p.run(F, FAM);
    FAM.invalidate(F, PreservedAnalyses::none());
}

// qualified name of a demangled function without template arguments, parameters and return type
static string plainName(const string& d) {
    if (d.find("{lambda") != string::npos) return d;
    string r; int depth = 0;
    for (size_t i = 0; i < d.size(); i++) {
        if (depth == 0 && d.compare(i, 8, "operator") == 0 && (i == 0 || d[i - 1] == ':' || d[i - 1] == ' ')) {
            r += "operator"; i += 8;
            if (d.compare(i, 2, "()") == 0) { r += "()"; i += 2; }
            while (i < d.size() && d[i] != '(' && (ispunct((unsigned char)d[i]))) r += d[i++];
            i--; continue;
        }
        if (d.compare(i, 21, "(anonymous namespace)") == 0) { if (!depth) r += "(anonymous_namespace)"; i += 20; continue; }
        if (d[i] == '<') { depth++; continue; }
        if (d[i] == '>' ) { depth--; continue; }
        if (depth) continue;
        if (d[i] == '(') break;
        r += d[i];
    }
    size_t op = r.find("operator"), sp = r.rfind(' ', op == string::npos ? string::npos : op);
    return sp == string::npos ? r : r.substr(sp + 1);
}

int main(int argc, char** argv) {
    if (argc < 5) return 2;
    string outp = argv[1];
    { string s = argv[2]; size_t p = 0; while (p <= s.size()) { size_t q = s.find(':', p); if (q == string::npos) q = s.size(); if (q > p) Prefixes.push_back(s.substr(p, q - p)); p = q + 1; } }
    string mode = argv[3];
    LLVMContext ctx; SMDiagnostic err;
    std::unique_ptr<Module> M;
    for (int i = 4; i < argc; i++) {
        auto m = parseIRFile(argv[i], err, ctx);
        if (!m) { err.print("irx", errs()); return 2; }
        tagStructNames(*m);
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 2; }
    }
    DL = &M->getDataLayout();
    DebugInfoFinder dif; dif.processModule(*M);
    for (auto* t : dif.types())
        if (auto* ct = dyn_cast<DICompositeType>(t)) {
            if (ct->isForwardDecl()) continue;
            string n = ct->getName().str(); size_t p = n.find('<');
            ByName[p == string::npos ? n : n.substr(0, p)].push_back(ct);
        }
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        F.removeFnAttr(Attribute::OptimizeNone);
        F.removeFnAttr(Attribute::NoInline);
        LowerInvokePass().run(F, FAM);
        FAM.invalidate(F, PreservedAnalyses::none());
        removeUnreachableBlocks(F);
        FAM.invalidate(F, PreservedAnalyses::none());
        if (isProject(F)) { mark(F); promote(F, FAM); }
    }
    std::set<Function*> wasInlined;  // helpers that some function of the code base calls directly
    {
        std::set<string> keep; bool all = mode == "-";
        if (!all) {
            auto buf = MemoryBuffer::getFile(mode);
            if (!buf) { errs() << "no keep file\n"; return 2; }
            SmallVector<StringRef, 0> lines; (*buf)->getBuffer().split(lines, '\n');
            for (auto l : lines) if (!l.trim().empty()) keep.insert(plainName(l.trim().str()));
        }
        CallGraph CG(*M);
        std::set<const Function*> rec;
        for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
            const auto& scc = *it;
            bool cyc = scc.size() > 1;
            if (scc.size() == 1 && it.hasCycle()) cyc = true;
            if (cyc) for (auto* n : scc) if (n->getFunction()) rec.insert(n->getFunction());
        }
        static const char* smallStd[] = {"std::max<", "std::min<", "std::move<", "std::forward<", "std::swap<", "std::abs(", "std::fabs(",
                                         "std::isnan(", "std::isinf(", "std::floor(", "std::ceil(", "std::addressof<", "std::remove_reference<"};
        for (auto& F : *M) {
            F.removeFnAttr(Attribute::AlwaysInline);
            if (F.isDeclaration()) continue;
            string dem = demangle(F.getName().str());
            bool inl = false;
            if (isProject(F)) {
                inl = !all && !keep.count(plainName(dem)) && !rec.count(&F) && !F.getName().contains("omp_outlined") && F.getName() != "main"
                      && !StringRef(dem).contains("::~") && F.getName().find("GLOBAL__") == StringRef::npos && F.getName().find("__cxx_global") == StringRef::npos;
            } else {
                size_t sp = 0; // the demangled form starts with the return type for templates
                for (auto* p : smallStd) { size_t q = dem.find(p); if (q != string::npos && dem.find('(') >= q && (q == 0 || dem[q - 1] == ' ' || dem[q - 1] == '&' || dem[q - 1] == '*')) inl = true; }
                (void)sp;
                // pairs of scalars: constructors and make_pair
                size_t q = dem.find("std::pair<"), e = dem.find('>');
                if (q != string::npos && e != string::npos && dem.find('<') == q + 9 && dem.compare(e, 7, ">::pair") == 0) inl = true;
                if (q == 0 && dem.find("std::make_pair<") != string::npos && dem.find('<') == q + 9) inl = true;
            }
            if (inl) { F.addFnAttr(Attribute::AlwaysInline); 
                if (isProject(F)) for (auto* U : F.users()) { // called from a function of the code base
                    auto* cb = dyn_cast<CallBase>(U);
                    if (!cb || cb->getCalledOperand() != &F || cb->getFunction() == &F) continue;
                    auto* sp = cb->getFunction()->getSubprogram();
                    if (sp && isProject(*cb->getFunction()) && !StringRef(fileOf(sp->getFile())).contains("/tu/")) { wasInlined.insert(&F); break; }
                } }
            else F.addFnAttr(Attribute::NoInline);
            if (isProject(F) && (F.isDiscardableIfUnused() || F.hasLocalLinkage())) { F.setLinkage(GlobalValue::WeakODRLinkage); F.setComdat(nullptr); }
        }
        ModulePassManager MPM;
        MPM.addPass(AlwaysInlinerPass(/*InsertLifetime=*/false));
        MPM.run(*M, MAM);
        for (auto& F : *M) if (!F.isDeclaration() && isProject(F)) {
            removeUnreachableBlocks(F);
            FAM.invalidate(F, PreservedAnalyses::none());
            promote(F, FAM);
            unmark(F);
        }
    }
    std::error_code ec; raw_fd_ostream os(outp, ec);
    if (ec) return 2;
    Dumper D(os);
    os << "{\"functions\":[\n";
    bool first = true;
    for (auto& F : *M) { if (F.isDeclaration() || !isProject(F)) continue; D.func(F, first); first = false; }
    os << "],\n\"decls\":{";
    first = true;
    for (auto& F : *M) {
        if (!F.isDeclaration() && isProject(F)) continue;
        if (!first) os << ",\n";
        first = false;
        auto* sp = F.getSubprogram();
        os << esc(F.getName()) << ":{\"dem\":" << esc(demangle(F.getName().str())) << ",\"def\":" << (F.isDeclaration() ? "false" : "true")
           << ",\"noret\":" << (F.doesNotReturn() ? "true" : "false")
           << ",\"ret\":" << esc(tyStr(F.getReturnType()))
           << ",\"file\":" << esc(sp ? fileOf(sp->getFile()) : "") << "}";
    }
    os << "},\n";
    D.globals(*M);
    // struct types with named fields
    os << ",\n\"structs\":{";
    first = true;
    for (auto* st : M->getIdentifiedStructTypes()) {
        if (!st->isSized()) continue;
        if (!first) os << ",\n";
        first = false;
        os << esc(st->getName()) << ":[";
        auto& fs = fields(st, st->hasName() ? st->getName().str() : "");
        for (unsigned i = 0; i < fs.size(); i++) { if (i) os << ","; os << "[" << esc(fs[i]) << "," << esc(tyStr(st->getElementType(i))) << "," << DL->getStructLayout(st)->getElementOffset(i).getFixedValue() << "]"; }
        os << "]";
    }
    // class member list from debug info for project classes
    os << "},\n\"classes\":{";
    first = true;
    std::set<string> seen;
    for (auto& kv : ByName) for (auto* ct : kv.second) {
        if (!ct->getFile() || !isProjectPath(fileOf(ct->getFile()))) continue;
        string key = ct->getName().str();
        if (!seen.insert(key).second) continue;
        if (!first) os << ",\n";
        first = false;
        os << esc(key) << ":{\"line\":" << ct->getLine() << ",\"file\":" << D.fileId(fileOf(ct->getFile())) << ",\"members\":[";
        bool f2 = true;
        for (auto* e : ct->getElements()) {
            auto* d = dyn_cast_or_null<DIDerivedType>(e);
            if (!d || d->isStaticMember() || d->getTag() != dwarf::DW_TAG_member) continue;
            if (!f2) os << ",";
            f2 = false;
            os << "[" << esc(d->getName()) << "," << esc(diTypeName(d->getBaseType())) << "," << d->getOffsetInBits() / 8 << "]";
        }
        os << "]}";
    }
    os << "},\n\"inlined\":[";
    first = true;
    for (auto* n : wasInlined) { if (!n->use_empty()) continue; if (!first) os << ","; first = false; os << esc(n->getName()); }
    os << "],\n\"files\":[";
    for (size_t i = 0; i < D.fileList.size(); i++) { if (i) os << ","; os << esc(D.fileList[i]); }
    os << "]}\n";
    return 0;
}
