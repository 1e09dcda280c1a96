// SymPass: LLVM 18 pass plugin that rewrites the real code under /repo so that, next to every
// concrete value it computes, it also builds a symbolic expression (a node id in the runtime's DAG).
// Branch decisions on symbolic values are reported to the runtime, which records the path condition.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include "symops.h"
using namespace llvm;

namespace {

struct Inst
{
	Module& M; LLVMContext& C; const DataLayout& DL;
	Type *I32, *I64, *I1, *VoidT, *PtrT;
	FunctionCallee fBin, fUn, fCmp, fSel, fLoad, fStore, fTouch, fMemcpy, fMemset, fBranch, fSwitch, fConc,
		fEnter, fArg, fSetArg, fCall, fAfter, fSetRet, fGetRet, fMath, fClear, fLeak, fGep;
	std::map<std::string, Constant*> strs;

	Inst(Module& m) : M(m), C(m.getContext()), DL(m.getDataLayout())
	{
		I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); I1 = Type::getInt1Ty(C);
		VoidT = Type::getVoidTy(C); PtrT = PointerType::getUnqual(C);
		auto fn = [&](const char* n, Type* r, std::vector<Type*> a) { return M.getOrInsertFunction(n, FunctionType::get(r, a, false)); };
		fBin = fn("__s_bin", I32, {I32, I32, I32, I64, I32, I64, I64});          // op ty ea ca eb cb res
		fUn = fn("__s_un", I32, {I32, I32, I32, I32, I64, I64});                 // op tyin tyout ea ca res
		fCmp = fn("__s_cmp", I32, {I32, I32, I32, I64, I32, I64, I32});          // pred ty ea ca eb cb res
		fSel = fn("__s_sel", I32, {I32, I32, I32, I32, I64, I32, I64, PtrT});    // ty ec c ea ca eb cb site
		fLoad = fn("__s_load", I32, {PtrT, I32, I64, PtrT});                     // p ty val site
		fStore = fn("__s_store", VoidT, {PtrT, I32, I32, I64, PtrT});            // p ty e val site
		fTouch = fn("__s_touch", VoidT, {PtrT, I64, I32, PtrT});                 // p size write(0/1/2=atomic) site
		fMemcpy = fn("__s_memcpy", VoidT, {PtrT, PtrT, I64, PtrT});
		fMemset = fn("__s_memset", VoidT, {PtrT, I32, I32, I64, PtrT});          // p e val n
		fBranch = fn("__s_branch", VoidT, {I32, I32, PtrT});
		fSwitch = fn("__s_switch", VoidT, {I32, I32, I64, I64, PtrT});           // e ty value casevalue
		fConc = fn("__s_conc", VoidT, {I32, I32, I64, PtrT});                    // e ty val site
		fGep = fn("__s_gep", VoidT, {I32, I32, I64, I64, I64, PtrT});            // e ty val elemsz objcount(0 unknown) site
		fEnter = fn("__s_enter", I32, {PtrT});
		fArg = fn("__s_arg", I32, {I32, I32, I64});                              // ok|idx, ty, val
		fSetArg = fn("__s_setarg", VoidT, {I32, I32});
		fCall = fn("__s_call", VoidT, {PtrT, I32});                              // callee nleaves
		fAfter = fn("__s_after", VoidT, {PtrT, PtrT});                           // name site
		fSetRet = fn("__s_setret", VoidT, {I32, I32});
		fGetRet = fn("__s_getret", I32, {I32, I32, I64});
		fMath = fn("__s_math", I32, {PtrT, I32, I32, I64, I32, I64, I64});       // name ty ea ca eb cb res
		fClear = fn("__s_clear", VoidT, {PtrT, I64});
		fLeak = fn("__s_leak", VoidT, {I32, PtrT, PtrT});
	}

	Constant* str(const std::string& s)
	{
		auto& r = strs[s];
		if(!r)
		{
			Constant* d = ConstantDataArray::getString(C, s);
			auto* g = new GlobalVariable(M, d->getType(), true, GlobalValue::PrivateLinkage, d, "__symstr");
			r = g;
		}
		return r;
	}
	std::string site(Instruction* I)
	{
		std::string s;
		if(DILocation* L = I->getDebugLoc())
		{
			StringRef f = L->getFilename(); size_t p = f.rfind('/'); if(p != StringRef::npos) f = f.substr(p + 1);
			s = (f + ":" + Twine(L->getLine())).str();
			int n = 0;
			for(DILocation* A = L->getInlinedAt(); A && n < 3; A = A->getInlinedAt(), ++n)
			{
				StringRef g = A->getFilename(); size_t q = g.rfind('/'); if(q != StringRef::npos) g = g.substr(q + 1);
				s += ("<" + g + ":" + Twine(A->getLine())).str();
			}
		}
		s += " in " + I->getFunction()->getName().str();
		return s;
	}

	// ---- leaves
	typedef std::vector<Type*> TL;
	void leaves(Type* t, TL& out)
	{
		if(auto* v = dyn_cast<FixedVectorType>(t)) { for(unsigned i = 0; i < v->getNumElements(); ++i) leaves(v->getElementType(), out); }
		else if(auto* s = dyn_cast<StructType>(t)) { for(Type* e : s->elements()) leaves(e, out); }
		else if(auto* a = dyn_cast<ArrayType>(t)) { for(uint64_t i = 0; i < a->getNumElements(); ++i) leaves(a->getElementType(), out); }
		else if(!t->isVoidTy()) out.push_back(t);
	}
	static unsigned code(Type* t)   // type code for the runtime; 0 = not tracked
	{
		if(t->isDoubleTy()) return SYT_F64;
		if(t->isFloatTy()) return SYT_F32;
		if(t->isIntegerTy() && t->getIntegerBitWidth() <= 64) return t->getIntegerBitWidth();
		return 0;
	}
};

struct FI
{
	Inst& X; Function& F; LLVMContext& C;
	Value* Z;
	std::map<Value*, std::vector<Value*>> sh;
	FI(Inst& x, Function& f) : X(x), F(f), C(x.C) { Z = ConstantInt::get(X.I32, 0); }

	Value* ci32(uint32_t v) { return ConstantInt::get(X.I32, v); }
	Value* ci64(uint64_t v) { return ConstantInt::get(X.I64, v); }

	std::vector<Value*> get(Value* v)
	{
		auto it = sh.find(v);
		if(it != sh.end()) return it->second;
		Inst::TL l; X.leaves(v->getType(), l);
		return std::vector<Value*>(l.size(), Z);
	}
	Value* get1(Value* v) { auto r = get(v); return r.empty() ? Z : r[0]; }
	bool allZero(Value* v) { for(Value* s : get(v)) if(s != Z) return false; return true; }

	Value* bits(IRBuilder<>& B, Value* v)   // scalar -> i64
	{
		Type* t = v->getType();
		if(t->isDoubleTy()) return B.CreateBitCast(v, X.I64);
		if(t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, X.I32), X.I64);
		if(t->isIntegerTy(64)) return v;
		if(t->isIntegerTy() && t->getIntegerBitWidth() < 64) return B.CreateZExt(v, X.I64);
		return ci64(0);
	}
	// leaf values of an aggregate SSA value
	void leafVals(IRBuilder<>& B, Value* v, std::vector<Value*>& out)
	{
		Type* t = v->getType();
		if(auto* vt = dyn_cast<FixedVectorType>(t)) { for(unsigned i = 0; i < vt->getNumElements(); ++i) leafVals(B, B.CreateExtractElement(v, uint64_t(i)), out); }
		else if(auto* st = dyn_cast<StructType>(t)) { for(unsigned i = 0; i < st->getNumElements(); ++i) leafVals(B, B.CreateExtractValue(v, i), out); }
		else if(auto* at = dyn_cast<ArrayType>(t)) { for(unsigned i = 0; i < at->getNumElements(); ++i) leafVals(B, B.CreateExtractValue(v, i), out); }
		else if(!t->isVoidTy()) out.push_back(v);
	}
	Constant* site(Instruction* I) { return X.str(X.site(I)); }

	static unsigned binop(unsigned o)
	{
		switch(o)
		{
		case Instruction::Add: return SYO_ADD; case Instruction::Sub: return SYO_SUB; case Instruction::Mul: return SYO_MUL;
		case Instruction::UDiv: return SYO_UDIV; case Instruction::SDiv: return SYO_SDIV; case Instruction::URem: return SYO_UREM; case Instruction::SRem: return SYO_SREM;
		case Instruction::Shl: return SYO_SHL; case Instruction::LShr: return SYO_LSHR; case Instruction::AShr: return SYO_ASHR;
		case Instruction::And: return SYO_AND; case Instruction::Or: return SYO_OR; case Instruction::Xor: return SYO_XOR;
		case Instruction::FAdd: return SYO_FADD; case Instruction::FSub: return SYO_FSUB; case Instruction::FMul: return SYO_FMUL; case Instruction::FDiv: return SYO_FDIV; case Instruction::FRem: return SYO_FREM;
		}
		return 0;
	}
	static unsigned castop(unsigned o)
	{
		switch(o)
		{
		case Instruction::ZExt: return SYO_ZEXT; case Instruction::SExt: return SYO_SEXT; case Instruction::Trunc: return SYO_TRUNC;
		case Instruction::FPExt: return SYO_FPEXT; case Instruction::FPTrunc: return SYO_FPTRUNC;
		case Instruction::SIToFP: return SYO_SITOFP; case Instruction::UIToFP: return SYO_UITOFP;
		case Instruction::FPToSI: return SYO_FPTOSI; case Instruction::FPToUI: return SYO_FPTOUI; case Instruction::BitCast: return SYO_BITCAST;
		}
		return 0;
	}

	void elementwise(Instruction* I, IRBuilder<>& B, std::function<Value*(IRBuilder<>&, std::vector<Value*>, std::vector<Value*>, Value*)> f)
	{
		bool any = false;
		for(Value* o : I->operands()) if(!allZero(o)) any = true;
		if(!any) return;
		std::vector<std::vector<Value*>> ov, os;
		for(Value* o : I->operands()) { std::vector<Value*> t; leafVals(B, o, t); ov.push_back(t); os.push_back(get(o)); }
		std::vector<Value*> rv; leafVals(B, I, rv);
		std::vector<Value*> res;
		for(size_t i = 0; i < rv.size(); ++i)
		{
			std::vector<Value*> vs, ss;
			for(size_t k = 0; k < ov.size(); ++k) { size_t j = ov[k].size() == 1 ? 0 : i; vs.push_back(ov[k][j]); ss.push_back(os[k][j]); }
			res.push_back(f(B, vs, ss, rv[i]));
		}
		sh[I] = res;
	}

	void leakAll(Instruction* I, IRBuilder<>& B, const char* why)
	{
		for(Value* o : I->operands())
			for(Value* s : get(o)) if(s != Z) B.CreateCall(X.fLeak, {s, X.str(why), site(I)});
	}

	void doLoad(LoadInst* L, IRBuilder<>& B)
	{
		Inst::TL l; X.leaves(L->getType(), l);
		std::vector<Value*> vals; 
		bool tracked = false; for(Type* t : l) if(Inst::code(t)) tracked = true;
		if(!tracked) { B.CreateCall(X.fTouch, {L->getPointerOperand(), ci64(X.DL.getTypeStoreSize(L->getType())), ci32(0), site(L)}); return; }
		leafVals(B, L, vals);
		std::vector<Value*> res; uint64_t idx = 0;
		std::vector<uint64_t> offs; offsets(L->getType(), 0, offs);
		for(Value* v : vals)
		{
			unsigned c = Inst::code(v->getType());
			Value* p = B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C), L->getPointerOperand(), offs[idx++]);
			if(!c) { B.CreateCall(X.fTouch, {p, ci64(X.DL.getTypeStoreSize(v->getType())), ci32(0), site(L)}); res.push_back(Z); continue; }
			res.push_back(B.CreateCall(X.fLoad, {p, ci32(c), bits(B, v), site(L)}));
		}
		sh[L] = res;
	}
	void offsets(Type* t, uint64_t base, std::vector<uint64_t>& out)
	{
		if(auto* v = dyn_cast<FixedVectorType>(t)) { uint64_t es = X.DL.getTypeSizeInBits(v->getElementType()) / 8; for(unsigned i = 0; i < v->getNumElements(); ++i) offsets(v->getElementType(), base + i * es, out); }
		else if(auto* s = dyn_cast<StructType>(t)) { auto* SL = X.DL.getStructLayout(s); for(unsigned i = 0; i < s->getNumElements(); ++i) offsets(s->getElementType(i), base + SL->getElementOffset(i), out); }
		else if(auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = X.DL.getTypeAllocSize(a->getElementType()); for(uint64_t i = 0; i < a->getNumElements(); ++i) offsets(a->getElementType(), base + i * es, out); }
		else if(!t->isVoidTy()) out.push_back(base);
	}
	void doStore(StoreInst* S, IRBuilder<>& B)
	{
		Value* v = S->getValueOperand();
		std::vector<Value*> vals; leafVals(B, v, vals);
		std::vector<Value*> ss = get(v);
		std::vector<uint64_t> offs; offsets(v->getType(), 0, offs);
		for(size_t i = 0; i < vals.size(); ++i)
		{
			unsigned c = Inst::code(vals[i]->getType());
			Value* p = B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C), S->getPointerOperand(), offs[i]);
			uint64_t sz = X.DL.getTypeStoreSize(vals[i]->getType());
			if(!c) { B.CreateCall(X.fTouch, {p, ci64(sz), ci32(1), site(S)}); B.CreateCall(X.fClear, {p, ci64(sz)}); continue; }
			B.CreateCall(X.fStore, {p, ci32(c), ss[i], bits(B, vals[i]), site(S)});
		}
	}

	void doIntrinsic(IntrinsicInst* I, IRBuilder<>& B)
	{
		switch(I->getIntrinsicID())
		{
		case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
		{
			// memmove semantics of the shadow: read shadow first, done by the runtime
			if(get1(I->getArgOperand(2)) != Z) B.CreateCall(X.fConc, {get1(I->getArgOperand(2)), ci32(64), B.CreateZExtOrTrunc(I->getArgOperand(2), X.I64), site(I)});
			B.CreateCall(X.fMemcpy, {I->getArgOperand(0), I->getArgOperand(1), B.CreateZExtOrTrunc(I->getArgOperand(2), X.I64), site(I)});
			return;
		}
		case Intrinsic::memset:
			B.CreateCall(X.fMemset, {I->getArgOperand(0), get1(I->getArgOperand(1)), B.CreateZExt(I->getArgOperand(1), X.I32), B.CreateZExtOrTrunc(I->getArgOperand(2), X.I64), site(I)});
			return;
		case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
			if(auto* A = dyn_cast<AllocaInst>(I->getArgOperand(1)->stripPointerCasts()))
				B.CreateCall(X.fClear, {A, ci64(X.DL.getTypeAllocSize(A->getAllocatedType()))});
			return;
		case Intrinsic::fabs: unary(I, B, SYO_FABS); return;
		case Intrinsic::sqrt: unary(I, B, SYO_SQRT); return;
		case Intrinsic::floor: unary(I, B, SYO_FLOOR); return;
		case Intrinsic::ceil: unary(I, B, SYO_CEIL); return;
		case Intrinsic::trunc: unary(I, B, SYO_FTRUNC); return;
		case Intrinsic::round: unary(I, B, SYO_ROUND); return;
		case Intrinsic::cttz: unary(I, B, SYO_CTTZ); return;
		case Intrinsic::ctlz: unary(I, B, SYO_CTLZ); return;
		case Intrinsic::ctpop: unary(I, B, SYO_CTPOP); return;
		case Intrinsic::minnum: binary(I, B, SYO_FMIN); return;
		case Intrinsic::maxnum: binary(I, B, SYO_FMAX); return;
		case Intrinsic::umin: binary(I, B, SYO_UMIN); return;
		case Intrinsic::umax: binary(I, B, SYO_UMAX); return;
		case Intrinsic::smin: binary(I, B, SYO_SMIN); return;
		case Intrinsic::smax: binary(I, B, SYO_SMAX); return;
		case Intrinsic::usub_sat: binary(I, B, SYO_USUBSAT); return;
		case Intrinsic::pow: binary(I, B, SYO_POW); return;
		case Intrinsic::copysign: binary(I, B, SYO_COPYSIGN); return;
		case Intrinsic::abs: unary(I, B, SYO_IABS); return;
		case Intrinsic::fmuladd:
		case Intrinsic::fma:
			elementwiseN(I, B, 3, [&](IRBuilder<>& b, std::vector<Value*> v, std::vector<Value*> s, Value* r) -> Value*
			{
				unsigned c = Inst::code(r->getType());
				Value* m = b.CreateFMul(v[0], v[1]);
				Value* e = b.CreateCall(X.fBin, {ci32(SYO_FMUL), ci32(c), s[0], bits(b, v[0]), s[1], bits(b, v[1]), bits(b, m)});
				return b.CreateCall(X.fBin, {ci32(SYO_FADD), ci32(c), e, bits(b, m), s[2], bits(b, v[2]), bits(b, r)});
			});
			return;
		case Intrinsic::uadd_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::usub_with_overflow:
		case Intrinsic::sadd_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::ssub_with_overflow:
			for(int k = 0; k < 2; ++k)
				if(get1(I->getArgOperand(k)) != Z)
					B.CreateCall(X.fConc, {get1(I->getArgOperand(k)), ci32(Inst::code(I->getArgOperand(k)->getType())), bits(B, I->getArgOperand(k)), site(I)});
			return;
		case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl:
			return;
		default:
			for(unsigned k = 0; k < I->arg_size(); ++k)
				for(Value* s : get(I->getArgOperand(k))) if(s != Z) B.CreateCall(X.fLeak, {s, X.str(I->getCalledFunction()->getName().str()), site(I)});
		}
	}
	void elementwiseN(CallInst* I, IRBuilder<>& B, unsigned n, std::function<Value*(IRBuilder<>&, std::vector<Value*>, std::vector<Value*>, Value*)> f)
	{
		bool any = false;
		for(unsigned k = 0; k < n; ++k) if(!allZero(I->getArgOperand(k))) any = true;
		if(!any) return;
		std::vector<std::vector<Value*>> ov, os;
		for(unsigned k = 0; k < n; ++k) { std::vector<Value*> t; leafVals(B, I->getArgOperand(k), t); ov.push_back(t); os.push_back(get(I->getArgOperand(k))); }
		std::vector<Value*> rv; leafVals(B, I, rv);
		std::vector<Value*> res;
		for(size_t i = 0; i < rv.size(); ++i)
		{
			std::vector<Value*> vs, ss;
			for(size_t k = 0; k < n; ++k) { vs.push_back(ov[k][i]); ss.push_back(os[k][i]); }
			res.push_back(f(B, vs, ss, rv[i]));
		}
		sh[I] = res;
	}
	void unary(CallInst* I, IRBuilder<>& B, unsigned op)
	{
		elementwiseN(I, B, 1, [&](IRBuilder<>& b, std::vector<Value*> v, std::vector<Value*> s, Value* r) -> Value*
		{
			return b.CreateCall(X.fUn, {ci32(op), ci32(Inst::code(v[0]->getType())), ci32(Inst::code(r->getType())), s[0], bits(b, v[0]), bits(b, r)});
		});
	}
	void binary(CallInst* I, IRBuilder<>& B, unsigned op)
	{
		elementwiseN(I, B, 2, [&](IRBuilder<>& b, std::vector<Value*> v, std::vector<Value*> s, Value* r) -> Value*
		{
			return b.CreateCall(X.fBin, {ci32(op), ci32(Inst::code(r->getType())), s[0], bits(b, v[0]), s[1], bits(b, v[1]), bits(b, r)});
		});
	}

	void doCall(CallBase* I)
	{
		Function* cf = I->getCalledFunction();
		Instruction* after = nullptr;
		if(isa<InvokeInst>(I)) after = &*cast<InvokeInst>(I)->getNormalDest()->getFirstInsertionPt();
		else after = I->getNextNode();
		if(I->isInlineAsm())
		{
			IRBuilder<> B(I);
			for(unsigned k = 0; k < I->arg_size(); ++k)
				for(Value* s : get(I->getArgOperand(k))) if(s != Z) B.CreateCall(X.fLeak, {s, X.str("asm"), site(I)});
			return;
		}
		if(auto* II = dyn_cast<IntrinsicInst>(I)) { IRBuilder<> B(after); setloc(B, I); if(isa<MemIntrinsic>(I)) { IRBuilder<> B0(I); doIntrinsic(II, B0); } else doIntrinsic(II, B); return; }
		std::string name = cf ? cf->getName().str() : std::string("<indirect>");
		if(cf && name.compare(0, 4, "__s_") == 0) return;
		static const char* math1[] = {"sqrt", "sqrtf", "fabs", "fabsf", "floor", "floorf", "ceil", "ceilf", "trunc", "truncf", "round", "roundf", nullptr};
		static const unsigned mop[] = {SYO_SQRT, SYO_SQRT, SYO_FABS, SYO_FABS, SYO_FLOOR, SYO_FLOOR, SYO_CEIL, SYO_CEIL, SYO_FTRUNC, SYO_FTRUNC, SYO_ROUND, SYO_ROUND};
		if(cf && cf->isDeclaration() && isa<CallInst>(I))
		{
			for(int k = 0; math1[k]; ++k) if(name == math1[k]) { IRBuilder<> B(after); setloc(B, I); unary(cast<CallInst>(I), B, mop[k]); return; }
			if(name == "pow" || name == "powf") { IRBuilder<> B(after); setloc(B, I); binary(cast<CallInst>(I), B, SYO_POW); return; }
			if(name == "fmin" || name == "fminf") { IRBuilder<> B(after); setloc(B, I); binary(cast<CallInst>(I), B, SYO_FMIN); return; }
			if(name == "fmax" || name == "fmaxf") { IRBuilder<> B(after); setloc(B, I); binary(cast<CallInst>(I), B, SYO_FMAX); return; }
			if(name == "memcpy" || name == "memmove") { IRBuilder<> B(I); B.CreateCall(X.fMemcpy, {I->getArgOperand(0), I->getArgOperand(1), I->getArgOperand(2), site(I)}); return; }
		}
		IRBuilder<> B(I);
		std::vector<Value*> args; 
		for(unsigned k = 0; k < I->arg_size(); ++k) { auto s = get(I->getArgOperand(k)); args.insert(args.end(), s.begin(), s.end()); }
		for(size_t k = 0; k < args.size(); ++k) if(args[k] != Z) B.CreateCall(X.fSetArg, {ci32(k), args[k]});
		B.CreateCall(X.fCall, {I->getCalledOperand(), ci32(args.size())});
		if(auto* CI = dyn_cast<CallInst>(I)) if(CI->isMustTailCall()) return;
		IRBuilder<> A(after); setloc(A, I);
		Inst::TL l; X.leaves(I->getType(), l);
		bool tracked = false; for(Type* t : l) if(Inst::code(t)) tracked = true;
		A.CreateCall(X.fAfter, {X.str(name), site(I)});
		if(!tracked) return;
		std::vector<Value*> vals, res; leafVals(A, I, vals);
		for(size_t k = 0; k < vals.size(); ++k)
		{
			unsigned c = Inst::code(vals[k]->getType());
			res.push_back(c ? (Value*)A.CreateCall(X.fGetRet, {ci32(k), ci32(c), bits(A, vals[k])}) : Z);
		}
		sh[I] = res;
	}
	void setloc(IRBuilder<>& B, Instruction* I) { B.SetCurrentDebugLocation(I->getDebugLoc()); }

	void run()
	{
		// 1. split normal edges of invokes
		std::vector<InvokeInst*> inv;
		for(auto& BB : F) if(auto* II = dyn_cast<InvokeInst>(BB.getTerminator())) inv.push_back(II);
		for(auto* II : inv) SplitEdge(II->getParent(), II->getNormalDest());
		// 2. collect
		std::vector<Instruction*> work; std::vector<PHINode*> phis; std::vector<AllocaInst*> allocas;
		ReversePostOrderTraversal<Function*> RPO(&F);
		for(BasicBlock* BB : RPO)
			for(Instruction& I : *BB)
			{
				if(auto* P = dyn_cast<PHINode>(&I)) phis.push_back(P);
				work.push_back(&I);
			}
		// 3. arguments
		{
			IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
			if(auto* sp = F.getSubprogram()) B.SetCurrentDebugLocation(DILocation::get(C, sp->getLine(), 0, sp));
			Value* ok = B.CreateCall(X.fEnter, {&F});
			unsigned k = 0;
			for(Argument& A : F.args())
			{
				std::vector<Value*> vals, res; leafVals(B, &A, vals);
				for(Value* v : vals)
				{
					unsigned c = Inst::code(v->getType());
					if(c) res.push_back(B.CreateCall(X.fArg, {B.CreateOr(ok, ci32(k)), ci32(c), bits(B, v)}));
					else res.push_back(Z);
					++k;
				}
				sh[&A] = res;
			}
		}
		// 4. phi placeholders
		for(PHINode* P : phis)
		{
			Inst::TL l; X.leaves(P->getType(), l);
			std::vector<Value*> res;
			for(Type* t : l)
			{
				if(!Inst::code(t)) { res.push_back(Z); continue; }
				IRBuilder<> B(P);
				res.push_back(B.CreatePHI(X.I32, P->getNumIncomingValues()));
			}
			sh[P] = res;
		}
		// 5. instructions
		for(Instruction* I : work) visit(I);
		// 6. fill phis
		for(PHINode* P : phis)
		{
			auto& r = sh[P];
			for(size_t k = 0; k < r.size(); ++k)
				if(auto* SP = dyn_cast<PHINode>(r[k]))
					for(unsigned i = 0; i < P->getNumIncomingValues(); ++i)
						SP->addIncoming(get(P->getIncomingValue(i))[k], P->getIncomingBlock(i));
		}
	}

	void visit(Instruction* I)
	{
		if(isa<PHINode>(I)) return;
		if(auto* L = dyn_cast<LoadInst>(I)) { IRBuilder<> B(I->getNextNode()); setloc(B, I); doLoad(L, B); return; }
		if(auto* S = dyn_cast<StoreInst>(I)) { IRBuilder<> B(I); doStore(S, B); return; }
		if(auto* A = dyn_cast<AllocaInst>(I))
		{
			IRBuilder<> B(I->getNextNode());
			while(isa<AllocaInst>(&*B.GetInsertPoint())) B.SetInsertPoint(B.GetInsertPoint()->getNextNode());
			if(auto* n = dyn_cast<ConstantInt>(A->getArraySize()))
				B.CreateCall(X.fClear, {A, ci64(X.DL.getTypeAllocSize(A->getAllocatedType()) * n->getZExtValue())});
			else
				B.CreateCall(X.fClear, {A, B.CreateMul(B.CreateZExtOrTrunc(A->getArraySize(), X.I64), ci64(X.DL.getTypeAllocSize(A->getAllocatedType())))});
			return;
		}
		if(auto* BO = dyn_cast<BinaryOperator>(I))
		{
			IRBuilder<> B(I->getNextNode()); setloc(B, I);
			unsigned op = binop(BO->getOpcode());
			elementwise(I, B, [&](IRBuilder<>& b, std::vector<Value*> v, std::vector<Value*> s, Value* r) -> Value*
			{
				unsigned c = Inst::code(r->getType());
				if(!c) { for(Value* q : s) if(q != Z) b.CreateCall(X.fLeak, {q, X.str("wide op"), site(I)}); return Z; }
				return b.CreateCall(X.fBin, {ci32(op), ci32(c), s[0], bits(b, v[0]), s[1], bits(b, v[1]), bits(b, r)});
			});
			return;
		}
		if(auto* UO = dyn_cast<UnaryOperator>(I))
		{
			IRBuilder<> B(I->getNextNode()); setloc(B, I);
			(void)UO;
			elementwise(I, B, [&](IRBuilder<>& b, std::vector<Value*> v, std::vector<Value*> s, Value* r) -> Value*
			{
				unsigned c = Inst::code(r->getType());
				if(!c) return Z;
				return b.CreateCall(X.fUn, {ci32(SYO_FNEG), ci32(c), ci32(c), s[0], bits(b, v[0]), bits(b, r)});
			});
			return;
		}
		if(auto* CI = dyn_cast<CmpInst>(I))
		{
			IRBuilder<> B(I->getNextNode()); setloc(B, I);
			elementwise(I, B, [&](IRBuilder<>& b, std::vector<Value*> v, std::vector<Value*> s, Value* r) -> Value*
			{
				unsigned c = Inst::code(v[0]->getType());
				if(!c) { for(Value* q : s) if(q != Z) b.CreateCall(X.fLeak, {q, X.str("wide cmp"), site(I)}); return Z; }
				return b.CreateCall(X.fCmp, {ci32(CI->getPredicate()), ci32(c), s[0], bits(b, v[0]), s[1], bits(b, v[1]), b.CreateZExt(r, X.I32)});
			});
			return;
		}
		if(auto* K = dyn_cast<CastInst>(I))
		{
			IRBuilder<> B(I->getNextNode()); setloc(B, I);
			if(allZero(K->getOperand(0))) return;
			Type* st = K->getSrcTy(); Type* dt = K->getDestTy();
			if(isa<PtrToIntInst>(K)) return;
			if(isa<IntToPtrInst>(K)) { B.CreateCall(X.fConc, {get1(K->getOperand(0)), ci32(Inst::code(st)), bits(B, K->getOperand(0)), site(I)}); return; }
			Inst::TL sl, dl; X.leaves(st, sl); X.leaves(dt, dl);
			if(isa<BitCastInst>(K) && (sl.size() != dl.size()))
			{
				// reshape through memory-like bytes: let the runtime concatenate/extract
				std::vector<Value*> sv, dv; leafVals(B, K->getOperand(0), sv); leafVals(B, K, dv);
				auto ss = get(K->getOperand(0));
				// use a scratch alloca in the entry block
				IRBuilder<> E(&*F.getEntryBlock().getFirstInsertionPt());
				AllocaInst* A = E.CreateAlloca(st);
				B.CreateStore(K->getOperand(0), A);
				std::vector<uint64_t> o1, o2; offsets(st, 0, o1); offsets(dt, 0, o2);
				for(size_t k = 0; k < sv.size(); ++k)
					B.CreateCall(X.fStore, {B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C), A, o1[k]), ci32(Inst::code(sl[k])), ss[k], bits(B, sv[k]), site(I)});
				std::vector<Value*> res;
				for(size_t k = 0; k < dv.size(); ++k)
				{
					unsigned c = Inst::code(dl[k]);
					res.push_back(c ? (Value*)B.CreateCall(X.fLoad, {B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C), A, o2[k]), ci32(c), bits(B, dv[k]), site(I)}) : Z);
				}
				sh[I] = res;
				return;
			}
			elementwise(I, B, [&](IRBuilder<>& b, std::vector<Value*> v, std::vector<Value*> s, Value* r) -> Value*
			{
				unsigned c1 = Inst::code(v[0]->getType()), c2 = Inst::code(r->getType());
				if(!c1 || !c2) { if(s[0] != Z) b.CreateCall(X.fLeak, {s[0], X.str("wide cast"), site(I)}); return Z; }
				return b.CreateCall(X.fUn, {ci32(castop(K->getOpcode())), ci32(c1), ci32(c2), s[0], bits(b, v[0]), bits(b, r)});
			});
			return;
		}
		if(auto* S = dyn_cast<SelectInst>(I))
		{
			IRBuilder<> B(I->getNextNode()); setloc(B, I);
			if(allZero(S->getCondition()) && allZero(S->getTrueValue()) && allZero(S->getFalseValue())) return;
			std::vector<Value*> c, t, f, res; leafVals(B, S->getCondition(), c); leafVals(B, S->getTrueValue(), t); leafVals(B, S->getFalseValue(), f);
			auto sc = get(S->getCondition()), st = get(S->getTrueValue()), sf = get(S->getFalseValue());
			for(size_t k = 0; k < t.size(); ++k)
			{
				size_t j = c.size() == 1 ? 0 : k;
				unsigned ty = Inst::code(t[k]->getType());
				Value* c32 = B.CreateZExt(c[j], X.I32);
				if(!ty) { if(sc[j] != Z) B.CreateCall(X.fBranch, {sc[j], c32, site(I)}); res.push_back(Z); continue; }
				res.push_back(B.CreateCall(X.fSel, {ci32(ty), sc[j], c32, st[k], bits(B, t[k]), sf[k], bits(B, f[k]), site(I)}));
			}
			sh[I] = res;
			return;
		}
		if(auto* G = dyn_cast<GetElementPtrInst>(I))
		{
			IRBuilder<> B(I);
			unsigned pos = 0;
			for(auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI, ++pos)
			{
				Value* idx = GTI.getOperand();
				if(idx->getType()->isVectorTy()) continue;
				Value* s = get1(idx);
				if(s == Z) continue;
				uint64_t cnt = 0, es = 0;
				if(!GTI.isStruct()) es = GTI.getSequentialElementStride(X.DL);
				if(pos > 0) { if(auto* at = dyn_cast<ArrayType>(GetElementPtrInst::getIndexedType(G->getSourceElementType(), SmallVector<Value*, 4>(G->idx_begin(), G->idx_begin() + pos)))) cnt = at->getNumElements(); }
				else if(G->getNumIndices() == 1 && es)
				{
					if(auto* gv = dyn_cast<GlobalVariable>(G->getPointerOperand())) cnt = X.DL.getTypeAllocSize(gv->getValueType()) / es;
					else if(auto* al = dyn_cast<AllocaInst>(G->getPointerOperand())) { if(!al->isArrayAllocation()) cnt = X.DL.getTypeAllocSize(al->getAllocatedType()) / es; }
				}
				B.CreateCall(X.fGep, {s, ci32(Inst::code(idx->getType())), bits(B, idx), ci64(es), ci64(cnt), site(I)});
			}
			return;
		}
		if(auto* E = dyn_cast<ExtractElementInst>(I))
		{
			auto s = get(E->getVectorOperand());
			if(auto* k = dyn_cast<ConstantInt>(E->getIndexOperand())) sh[I] = {s[k->getZExtValue()]};
			else { IRBuilder<> B(I->getNextNode()); for(Value* q : s) if(q != Z) B.CreateCall(X.fLeak, {q, X.str("dyn extractelement"), site(I)}); }
			return;
		}
		if(auto* E = dyn_cast<InsertElementInst>(I))
		{
			auto s = get(E->getOperand(0));
			if(auto* k = dyn_cast<ConstantInt>(E->getOperand(2))) { s[k->getZExtValue()] = get1(E->getOperand(1)); sh[I] = s; }
			return;
		}
		if(auto* V = dyn_cast<ShuffleVectorInst>(I))
		{
			auto a = get(V->getOperand(0)), b = get(V->getOperand(1));
			std::vector<Value*> r;
			for(int m : V->getShuffleMask()) r.push_back(m < 0 ? Z : (size_t)m < a.size() ? a[m] : b[m - a.size()]);
			sh[I] = r;
			return;
		}
		if(auto* E = dyn_cast<ExtractValueInst>(I))
		{
			size_t off = aggOff(E->getAggregateOperand()->getType(), E->getIndices());
			Inst::TL l; X.leaves(I->getType(), l);
			auto s = get(E->getAggregateOperand());
			sh[I] = std::vector<Value*>(s.begin() + off, s.begin() + off + l.size());
			return;
		}
		if(auto* E = dyn_cast<InsertValueInst>(I))
		{
			size_t off = aggOff(E->getAggregateOperand()->getType(), E->getIndices());
			auto s = get(E->getAggregateOperand()); auto v = get(E->getInsertedValueOperand());
			for(size_t k = 0; k < v.size(); ++k) s[off + k] = v[k];
			sh[I] = s;
			return;
		}
		if(auto* FR = dyn_cast<FreezeInst>(I)) { sh[I] = get(FR->getOperand(0)); return; }
		if(auto* BR = dyn_cast<BranchInst>(I))
		{
			if(BR->isConditional() && get1(BR->getCondition()) != Z)
			{
				IRBuilder<> B(I);
				B.CreateCall(X.fBranch, {get1(BR->getCondition()), B.CreateZExt(BR->getCondition(), X.I32), site(I)});
			}
			return;
		}
		if(auto* SW = dyn_cast<SwitchInst>(I))
		{
			if(get1(SW->getCondition()) != Z)
			{
				IRBuilder<> B(I);
				for(auto& c : SW->cases())
					B.CreateCall(X.fSwitch, {get1(SW->getCondition()), ci32(Inst::code(SW->getCondition()->getType())), bits(B, SW->getCondition()), ci64(c.getCaseValue()->getZExtValue()), site(I)});
			}
			return;
		}
		if(auto* R = dyn_cast<ReturnInst>(I))
		{
			IRBuilder<> B(I);
			if(R->getReturnValue())
			{
				if(auto* prev = dyn_cast_or_null<CallInst>(I->getPrevNode())) if(prev->isMustTailCall()) return;
				auto s = get(R->getReturnValue());
				for(size_t k = 0; k < s.size(); ++k) B.CreateCall(X.fSetRet, {ci32(k), s[k]});
			}
			return;
		}
		if(auto* CB = dyn_cast<CallBase>(I)) { doCall(CB); return; }
		if(auto* AR = dyn_cast<AtomicRMWInst>(I))
		{
			IRBuilder<> B(I);
			B.CreateCall(X.fTouch, {AR->getPointerOperand(), ci64(X.DL.getTypeStoreSize(AR->getType())), ci32(2), site(I)});
			B.CreateCall(X.fClear, {AR->getPointerOperand(), ci64(X.DL.getTypeStoreSize(AR->getType()))});
			if(get1(AR->getValOperand()) != Z) B.CreateCall(X.fLeak, {get1(AR->getValOperand()), X.str("atomicrmw"), site(I)});
			return;
		}
		if(auto* CX = dyn_cast<AtomicCmpXchgInst>(I))
		{
			IRBuilder<> B(I);
			B.CreateCall(X.fTouch, {CX->getPointerOperand(), ci64(X.DL.getTypeStoreSize(CX->getNewValOperand()->getType())), ci32(2), site(I)});
			B.CreateCall(X.fClear, {CX->getPointerOperand(), ci64(X.DL.getTypeStoreSize(CX->getNewValOperand()->getType()))});
			return;
		}
	}
	size_t aggOff(Type* t, ArrayRef<unsigned> idx)
	{
		size_t off = 0;
		for(unsigned i : idx)
		{
			if(auto* s = dyn_cast<StructType>(t)) { for(unsigned k = 0; k < i; ++k) { Inst::TL l; X.leaves(s->getElementType(k), l); off += l.size(); } t = s->getElementType(i); }
			else if(auto* a = dyn_cast<ArrayType>(t)) { Inst::TL l; X.leaves(a->getElementType(), l); off += l.size() * i; t = a->getElementType(); }
		}
		return off;
	}
};

struct SymPass : PassInfoMixin<SymPass>
{
	PreservedAnalyses run(Module& M, ModuleAnalysisManager&)
	{
		Inst X(M);
		std::vector<Function*> fs;
		for(Function& F : M)
			if(!F.isDeclaration() && !F.hasAvailableExternallyLinkage() && F.getName().substr(0, 4) != "__s_" && !F.hasFnAttribute(Attribute::Naked))
				fs.push_back(&F);
		for(Function* F : fs) { F->removeFnAttr(Attribute::Memory); FI(X, *F).run(); }
		// purity attributes are wrong once the runtime is called
		for(Function& F : M) { F.removeFnAttr(Attribute::Memory); for(BasicBlock& BB : F) for(Instruction& I : BB) if(auto* CB = dyn_cast<CallBase>(&I)) { CB->removeFnAttr(Attribute::Memory); } }
		return PreservedAnalyses::none();
	}
	static bool isRequired() { return true; }
};
}

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo()
{
	return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder& PB)
	{
		PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
	}};
}
