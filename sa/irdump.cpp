// irdump: print an LLVM module as line-delimited JSON for the Python analyses.
// One line per global variable and per function; operands are fully resolved
// (constant expressions folded to global+offset, GEPs to byte offsets).
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/SmallString.h"
#include <map>
#include <string>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value*, int> ids;
static std::map<const BasicBlock*, int> bbs;
static std::map<std::string, int> files;
static raw_ostream *O;

static std::string esc(StringRef s)
{
	std::string r = "\"";
	for (char ch : s) {
		unsigned char c = ch;
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}
// type: positive int N = iN, "p" pointer, "d"/"f" floating, "v" void, ["s",size,[[off,ty]...]]
static std::string ty(Type *t)
{
	if (t->isVoidTy()) return "\"v\"";
	if (t->isIntegerTy()) return std::to_string(t->getIntegerBitWidth());
	if (t->isPointerTy()) return "\"p\"";
	if (t->isDoubleTy()) return "\"d\"";
	if (t->isFloatTy()) return "\"f\"";
	if (t->isX86_FP80Ty()) return "\"x\"";
	if (auto *st = dyn_cast<StructType>(t)) {
		if (st->isOpaque()) return "\"o\"";
		const StructLayout *sl = DL->getStructLayout(st);
		std::string r = "[\"s\"," + std::to_string((uint64_t)sl->getSizeInBytes()) + ",[";
		for (unsigned i = 0; i < st->getNumElements(); i++) {
			if (i) r += ",";
			r += "[" + std::to_string((uint64_t)sl->getElementOffset(i)) + "," + ty(st->getElementType(i)) + "]";
		}
		return r + "]]";
	}
	Type *et = 0; uint64_t n = 0;
	if (auto *at = dyn_cast<ArrayType>(t)) { et = at->getElementType(); n = at->getNumElements(); }
	if (auto *vt = dyn_cast<FixedVectorType>(t)) { et = vt->getElementType(); n = vt->getNumElements(); }
	if (et && n <= 64) {
		uint64_t es = DL->getTypeAllocSize(et);
		std::string r = "[\"s\"," + std::to_string(es * n) + ",[";
		for (uint64_t i = 0; i < n; i++) {
			if (i) r += ",";
			r += "[" + std::to_string(es * i) + "," + ty(et) + "]";
		}
		return r + "]]";
	}
	return "\"?\"";
}
static std::string apint(const APInt& v)
{
	SmallString<64> s; v.toStringUnsigned(s); return std::string(s);
}
static std::string op(const Value *v);
static std::string konst(const Constant *c)
{
	if (auto *ci = dyn_cast<ConstantInt>(c)) return "[\"i\"," + apint(ci->getValue()) + "]";
	if (isa<ConstantPointerNull>(c)) return "[\"i\",0]";
	if (isa<UndefValue>(c)) return "[\"u\"]";
	if (auto *cf = dyn_cast<ConstantFP>(c)) {
		if (c->getType()->isDoubleTy() || c->getType()->isFloatTy()) {
			double d = c->getType()->isDoubleTy() ? cf->getValueAPF().convertToDouble() : cf->getValueAPF().convertToFloat();
			char b[64]; snprintf(b, 64, "[\"f\",%.17g]", d); 
			std::string s = b; if (s.find("inf") != std::string::npos || s.find("nan") != std::string::npos) return "[\"u\"]";
			return s;
		}
		return "[\"u\"]";
	}
	if (isa<Function>(c)) return "[\"F\"," + esc(c->getName()) + "]";
	if (isa<GlobalVariable>(c)) return "[\"g\"," + esc(c->getName()) + ",0]";
	if (auto *ga = dyn_cast<GlobalAlias>(c)) return konst(ga->getAliasee());
	if (isa<ConstantAggregateZero>(c)) return "[\"z\"," + ty(c->getType()) + "]";
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		if (ce->getOpcode() == Instruction::GetElementPtr) {
			APInt off(64, 0);
			if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
				std::string b = konst(ce->getOperand(0));
				return "[\"+\"," + b + "," + std::to_string(off.getSExtValue()) + "]";
			}
		}
		if (ce->isCast()) return konst(ce->getOperand(0));
		return "[\"u\"]";
	}
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
		std::string r = "[\"a\",[";
		for (unsigned i = 0; i < cd->getNumElements(); i++) { if (i) r += ","; r += konst(cd->getElementAsConstant(i)); }
		return r + "]]";
	}
	if (isa<ConstantAggregate>(c)) {
		std::string r = "[\"a\",[";
		for (unsigned i = 0; i < c->getNumOperands(); i++) { if (i) r += ","; r += konst(cast<Constant>(c->getOperand(i))); }
		return r + "]]";
	}
	return "[\"u\"]";
}
static std::string op(const Value *v)
{
	if (auto *c = dyn_cast<Constant>(v)) return konst(c);
	auto i = ids.find(v);
	if (i != ids.end()) return std::to_string(i->second);
	if (isa<InlineAsm>(v)) return "[\"asm\"," + esc(cast<InlineAsm>(v)->getAsmString()) + "," + esc(cast<InlineAsm>(v)->getConstraintString()) + "]";
	return "[\"m\"]"; // metadata
}
// flatten an initializer to [off,size,operand]
static void flat(const Constant *c, uint64_t off, std::string& r, bool& first)
{
	Type *t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
	if (auto *st = dyn_cast<StructType>(t)) {
		const StructLayout *sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) flat(c->getAggregateElement(i), off + sl->getElementOffset(i), r, first);
		return;
	}
	if (auto *at = dyn_cast<ArrayType>(t)) {
		uint64_t es = DL->getTypeAllocSize(at->getElementType());
		for (uint64_t i = 0; i < at->getNumElements(); i++) flat(c->getAggregateElement(i), off + es * i, r, first);
		return;
	}
	if (!first) r += ",";
	first = false;
	r += "[" + std::to_string(off) + "," + std::to_string((uint64_t)DL->getTypeStoreSize(t)) + "," + konst(c) + "]";
}
static int fileId(const DILocation *l)
{
	std::string f = l->getFilename().str();
	if (!f.empty() && f[0] != '/') f = l->getDirectory().str() + "/" + f;
	auto it = files.find(f);
	if (it != files.end()) return it->second;
	int n = files.size(); files[f] = n; return n;
}
int main(int argc, char **argv)
{
	LLVMContext ctx; SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M) { err.print("irdump", errs()); return 1; }
	DL = &M->getDataLayout();
	O = &outs();
	for (auto& g : M->globals()) {
		*O << "{\"k\":\"g\",\"n\":" << esc(g.getName()) << ",\"d\":" << esc(demangle(g.getName().str()))
			<< ",\"c\":" << (g.isConstant() ? 1 : 0)
			<< ",\"size\":" << (g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0);
		if (g.hasInitializer()) {
			std::string r; bool first = true;
			flat(g.getInitializer(), 0, r, first);
			*O << ",\"init\":[" << r << "]";
		} else *O << ",\"init\":null";
		*O << "}\n";
	}
	for (auto& F : *M) {
		std::string dn = demangle(F.getName().str());
		if (F.isDeclaration()) {
			*O << "{\"k\":\"d\",\"n\":" << esc(F.getName()) << ",\"d\":" << esc(dn) << ",\"ret\":" << ty(F.getReturnType()) << "}\n";
			continue;
		}
		ids.clear(); bbs.clear();
		int n = 0, nb = 0;
		for (auto& a : F.args()) ids[&a] = n++;
		int nargs = n;
		for (auto& B : F) { bbs[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
		std::string fileline = "[-1,0]";
		if (auto *sp = F.getSubprogram()) {
			std::string f = sp->getFilename().str();
			if (!f.empty() && f[0] != '/') f = sp->getDirectory().str() + "/" + f;
			if (!files.count(f)) { int k = files.size(); files[f] = k; }
			fileline = "[" + std::to_string(files[f]) + "," + std::to_string(sp->getLine()) + "]";
		}
		*O << "{\"k\":\"f\",\"n\":" << esc(F.getName()) << ",\"d\":" << esc(dn) << ",\"na\":" << nargs << ",\"nv\":" << n
			<< ",\"loc\":" << fileline << ",\"ret\":" << ty(F.getReturnType()) << ",\"at\":[";
		{
			bool f1 = true;
			for (auto& a : F.args()) {
				if (!f1) *O << ","; f1 = false;
				if (a.hasByValAttr()) *O << "[\"byval\"," << (uint64_t)DL->getTypeAllocSize(a.getParamByValType()) << "]";
				else if (a.hasStructRetAttr()) *O << "[\"sret\"," << (uint64_t)DL->getTypeAllocSize(a.getParamStructRetType()) << "]";
				else *O << ty(a.getType());
			}
		}
		*O << "],\"b\":[";
		bool fb = true;
		for (auto& B : F) {
			if (!fb) *O << ","; fb = false;
			*O << "[";
			bool fi = true;
			for (auto& I : B) {
				if (isa<DbgInfoIntrinsic>(I)) continue;
				if (!fi) *O << ","; fi = false;
				int dst = I.getType()->isVoidTy() ? -1 : ids[&I];
				std::string r = "[" + esc(I.getOpcodeName()) + "," + std::to_string(dst);
				int fl = -1, ln = 0;
				if (const DebugLoc& d = I.getDebugLoc()) { fl = fileId(d.get()); ln = d.getLine(); }
				r += "," + std::to_string(fl) + "," + std::to_string(ln);
				if (auto *a = dyn_cast<AllocaInst>(&I)) {
					r += "," + std::to_string((uint64_t)DL->getTypeAllocSize(a->getAllocatedType())) + "," + op(a->getArraySize()) + "," + esc(a->getName());
				} else if (auto *l = dyn_cast<LoadInst>(&I)) {
					r += "," + op(l->getPointerOperand()) + "," + ty(l->getType()) + "," + std::to_string((uint64_t)DL->getTypeStoreSize(l->getType()));
				} else if (auto *s = dyn_cast<StoreInst>(&I)) {
					r += "," + op(s->getValueOperand()) + "," + op(s->getPointerOperand()) + "," + ty(s->getValueOperand()->getType()) + "," + std::to_string((uint64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()));
				} else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
					MapVector<Value*, APInt> var; APInt c(64, 0);
					if (g->collectOffset(*DL, 64, var, c)) {
						r += "," + op(g->getPointerOperand()) + "," + std::to_string(c.getSExtValue()) + ",[";
						bool f = true;
						for (auto& kv : var) { if (!f) r += ","; f = false; r += "[" + op(kv.first) + "," + std::to_string(kv.second.getSExtValue()) + "," + ty(kv.first->getType()) + "]"; }
						r += "]";
					} else r += ",null";
				} else if (auto *p = dyn_cast<PHINode>(&I)) {
					r += ",[";
					for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { if (i) r += ","; r += "[" + std::to_string(bbs[p->getIncomingBlock(i)]) + "," + op(p->getIncomingValue(i)) + "]"; }
					r += "]," + ty(p->getType());
				} else if (auto *b = dyn_cast<BranchInst>(&I)) {
					if (b->isConditional()) r += "," + op(b->getCondition()) + "," + std::to_string(bbs[b->getSuccessor(0)]) + "," + std::to_string(bbs[b->getSuccessor(1)]);
					else r += ",null," + std::to_string(bbs[b->getSuccessor(0)]);
				} else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
					r += "," + op(sw->getCondition()) + "," + std::to_string(bbs[sw->getDefaultDest()]) + ",[";
					bool f = true;
					for (auto& c : sw->cases()) { if (!f) r += ","; f = false; r += "[" + apint(c.getCaseValue()->getValue()) + "," + std::to_string(bbs[c.getCaseSuccessor()]) + "]"; }
					r += "]";
				} else if (auto *cb = dyn_cast<CallBase>(&I)) {
					r += "," + op(cb->getCalledOperand()) + ",[";
					bool f = true;
					for (unsigned i = 0; i < cb->arg_size(); i++) {
						if (!f) r += ","; f = false;
						r += op(cb->getArgOperand(i));
					}
					r += "]," + ty(cb->getType()) + ",[";
					f = true;
					for (unsigned i = 0; i < cb->arg_size(); i++) {
						if (!f) r += ","; f = false;
						if (cb->isByValArgument(i)) r += "[\"byval\"," + std::to_string((uint64_t)DL->getTypeAllocSize(cb->getParamByValType(i))) + "]";
						else r += ty(cb->getArgOperand(i)->getType());
					}
					r += "]";
					if (auto *iv = dyn_cast<InvokeInst>(&I)) r += "," + std::to_string(bbs[iv->getNormalDest()]) + "," + std::to_string(bbs[iv->getUnwindDest()]);
				} else if (auto *ic = dyn_cast<CmpInst>(&I)) {
					r += "," + esc(CmpInst::getPredicateName(ic->getPredicate())) + "," + op(ic->getOperand(0)) + "," + op(ic->getOperand(1)) + "," + ty(ic->getOperand(0)->getType());
				} else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
					r += "," + op(ev->getAggregateOperand()) + ",[";
					bool f = true; for (unsigned k : ev->indices()) { if (!f) r += ","; f = false; r += std::to_string(k); } r += "]";
				} else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
					r += "," + op(iv->getAggregateOperand()) + "," + op(iv->getInsertedValueOperand()) + ",[";
					bool f = true; for (unsigned k : iv->indices()) { if (!f) r += ","; f = false; r += std::to_string(k); } r += "]," + ty(iv->getType());
				} else if (isa<LandingPadInst>(&I)) {
					auto *lp = cast<LandingPadInst>(&I);
					r += std::string(",") + (lp->isCleanup() ? "1" : "0") + ",[";
					for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (i) r += ","; r += op(lp->getClause(i)); }
					r += "]";
				} else {
					for (auto& u : I.operands()) r += "," + op(u.get());
					r += "," + ty(I.getType());
					if (I.getNumOperands() && I.isCast()) r += "," + ty(I.getOperand(0)->getType());
				}
				*O << r << "]";
			}
			*O << "]";
		}
		*O << "]}\n";
	}
	*O << "{\"k\":\"files\",\"f\":[";
	std::vector<std::string> fv(files.size());
	for (auto& kv : files) fv[kv.second] = kv.first;
	for (size_t i = 0; i < fv.size(); i++) { if (i) *O << ","; *O << esc(fv[i]); }
	*O << "]}\n";
}
