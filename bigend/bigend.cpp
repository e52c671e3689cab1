// Lets a module compiled for a big-endian target run on this little-endian machine.
//
// Everything a program does is kept as the big-endian compiler produced it; only the one thing that depends
// on the machine is made explicit: a value wider than a byte goes to memory, and comes from it, with its bytes
// reversed.  Registers have no byte order, so calls into the native world are unaffected as long as they pass
// scalars and plain bytes.  Refuses what it cannot translate faithfully.
//
// A module for a host with 32-bit pointers (of either byte order) becomes one for x32, the mode of this processor
// whose pointers in memory are 32 bits wide; its types must have the same layout there.
#include <llvm/ADT/SmallPtrSet.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/TypeFinder.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>
#include <cstdlib>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static size_t loads, stores, tables, slots;

template <class V> [[noreturn]] static void refuse(const char * why, const V & what) {
	errs() << "bigend: cannot translate " << why << ": " << what << "\n";
	exit(3);
}

// value as it is in registers -> value whose native (little-endian) store gives the big-endian bytes, and back
static Value * swapped(IRBuilder<> & b, Value * v, const DataLayout & dl) {
	Type * t = v->getType();
	if (auto * i = dyn_cast<IntegerType>(t)) {
		const unsigned w = i->getBitWidth();
		if (w <= 8) return v;
		if (w % 8) refuse("integer of odd width", *t);
		if (w % 16) {
			Type * wide = b.getIntNTy(w + 8);
			return b.CreateTrunc(b.CreateLShr(b.CreateUnaryIntrinsic(Intrinsic::bswap, b.CreateZExt(v, wide)), 8), t);
		}
		return b.CreateUnaryIntrinsic(Intrinsic::bswap, v);
	}
	if (t->isPointerTy()) {
		Value * i = b.CreatePtrToInt(v, b.getIntNTy(dl.getPointerSizeInBits()));
		return b.CreateIntToPtr(b.CreateUnaryIntrinsic(Intrinsic::bswap, i), t);
	}
	if (t->isFloatTy() || t->isDoubleTy() || t->isFP128Ty()) {
		Type * i = b.getIntNTy(t->getPrimitiveSizeInBits());
		return b.CreateBitCast(b.CreateUnaryIntrinsic(Intrinsic::bswap, b.CreateBitCast(v, i)), t);
	}
	if (isa<StructType>(t) || isa<ArrayType>(t)) {
		const unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : unsigned(cast<ArrayType>(t)->getNumElements());
		Value * r = PoisonValue::get(t);
		for (unsigned k = 0; k < n; ++k) r = b.CreateInsertValue(r, swapped(b, b.CreateExtractValue(v, k), dl), k);
		return r;
	}
	if (auto * x = dyn_cast<FixedVectorType>(t); x && x->getElementType()->isIntegerTy()) {
		const unsigned w = x->getElementType()->getIntegerBitWidth();
		if (w == 8) return v;
		if (w % 16 == 0) return b.CreateUnaryIntrinsic(Intrinsic::bswap, v);
	}
	refuse("memory access of type", *t);
}

struct Slot {
	uint64_t offset;
	Constant * pointer;
};

static void bytes_of(Constant * c, const DataLayout & dl, uint8_t * out, uint64_t at, std::vector<Slot> & pointers) {
	Type * t = c->getType();
	if (c->isNullValue() || isa<UndefValue>(c)) return;
	auto number = [&](const APInt & v) {
		const unsigned n = unsigned(dl.getTypeStoreSize(t));
		const APInt w = v.zextOrTrunc(n * 8);
		for (unsigned i = 0; i < n; ++i) out[at + i] = uint8_t(w.extractBitsAsZExtValue(8, (n - 1 - i) * 8));
	};
	if (auto * i = dyn_cast<ConstantInt>(c)) return number(i->getValue());
	if (auto * f = dyn_cast<ConstantFP>(c)) return number(f->getValueAPF().bitcastToAPInt());
	if (auto * s = dyn_cast<ConstantStruct>(c)) {
		const StructLayout * l = dl.getStructLayout(s->getType());
		for (unsigned i = 0; i < s->getNumOperands(); ++i) bytes_of(s->getOperand(i), dl, out, at + l->getElementOffset(i), pointers);
		return;
	}
	if (auto * s = dyn_cast<ConstantDataSequential>(c)) {
		const uint64_t step = dl.getTypeAllocSize(s->getElementType());
		for (unsigned i = 0; i < s->getNumElements(); ++i) bytes_of(s->getElementAsConstant(i), dl, out, at + i * step, pointers);
		return;
	}
	if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
		const uint64_t step = dl.getTypeAllocSize(c->getOperand(0)->getType());
		for (unsigned i = 0; i < c->getNumOperands(); ++i) bytes_of(cast<Constant>(c->getOperand(i)), dl, out, at + i * step, pointers);
		return;
	}
	if (t->isPointerTy()) {
		pointers.push_back({at, c});
		return;
	}
	refuse("initializer", *c);
}

static bool plain_bytes(Type * t) {
	if (t->isIntegerTy()) return t->getIntegerBitWidth() <= 8;
	if (auto * a = dyn_cast<ArrayType>(t)) return plain_bytes(a->getElementType());
	if (auto * s = dyn_cast<StructType>(t)) {
		for (Type * e : s->elements()) if (!plain_bytes(e)) return false;
		return true;
	}
	return false;
}

int main(int argc, char ** argv) {
	if (argc < 3) return 2;
	LLVMContext context;
	SMDiagnostic error;
	auto m = parseIRFile(argv[1], error, context);
	if (!m) {
		error.print("bigend", errs());
		return 2;
	}
	const DataLayout from = m->getDataLayout();
	// a host with 32-bit pointers becomes x32, whose pointers in memory are 32 bits wide
	const bool narrow = from.getPointerSizeInBits() == 32;
	const DataLayout to(narrow ? "e-m:e-p:32:32-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128" : "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128");
	const bool reverse = from.isBigEndian();
	if (!reverse && !narrow) {
		errs() << "bigend: a module like the native ones\n";
		return 2;
	}
	// same layout of everything but the byte order
	TypeFinder types;
	types.run(*m, false);
	for (StructType * s : types) {
		if (s->isOpaque()) continue;
		const StructLayout *a = from.getStructLayout(s), *b = to.getStructLayout(s);
		if (a->getSizeInBytes() != b->getSizeInBytes() || a->getAlignment() != b->getAlignment()) refuse("type with another layout", *s);
		for (unsigned i = 0; i < s->getNumElements(); ++i) if (a->getElementOffset(i) != b->getElementOffset(i)) refuse("type with another layout", *s);
	}

	// constants and variables
	std::vector<std::pair<GlobalVariable *, std::vector<Slot>>> late;
	std::vector<GlobalVariable *> globals;
	for (GlobalVariable & g : m->globals()) globals.push_back(&g);
	if (!reverse) globals.clear();
	for (GlobalVariable * g : globals) {
		if (!g->hasInitializer() || g->getName().starts_with("llvm.") || g->getName().starts_with("_ZTI") || g->getName().starts_with("_ZTS")) continue;
		Type * t = g->getValueType();
		if (plain_bytes(t) || g->getInitializer()->isNullValue() || isa<UndefValue>(g->getInitializer())) continue;
		const uint64_t size = from.getTypeAllocSize(t);
		std::vector<uint8_t> raw(size);
		std::vector<Slot> pointers;
		bytes_of(g->getInitializer(), from, raw.data(), 0, pointers);
		Constant * init = ConstantDataArray::get(context, raw);
		auto * n = new GlobalVariable(*m, init->getType(), g->isConstant() && pointers.empty(), g->getLinkage(), init, "", g, g->getThreadLocalMode());
		n->copyAttributesFrom(g);
		n->setComdat(g->getComdat());
		n->setAlignment(std::max(Align(from.getABITypeAlign(t)), g->getAlign().valueOrOne()));
		n->takeName(g);
		g->replaceAllUsesWith(n);
		if (!pointers.empty()) late.push_back({n, std::move(pointers)});
		g->eraseFromParent();
		++tables;
	}

	// code
	std::set<std::string> outside;
	for (Function & f : *m) {
		f.removeFnAttr("target-cpu");
		f.removeFnAttr("target-features");
		f.removeFnAttr("tune-cpu");
		if (f.isDeclaration()) {
			if (!f.isIntrinsic() && !f.use_empty()) outside.insert(f.getName().str());
			continue;
		}
		// (an argument passed by value in memory is copied byte by byte: its bytes already have the order of the host)
		std::vector<Instruction *> work;
		for (Instruction & i : instructions(f)) work.push_back(&i);
		for (Instruction * i : work) {
			if (!reverse) {
				if (auto * c = dyn_cast<CallBase>(i); c && c->isInlineAsm() && !cast<InlineAsm>(c->getCalledOperand())->getAsmString().empty()) refuse("inline assembly", *i);
			} else if (auto * l = dyn_cast<LoadInst>(i)) {
				l->setMetadata(LLVMContext::MD_range, nullptr);
				l->setMetadata(LLVMContext::MD_nonnull, nullptr);
				l->setMetadata(LLVMContext::MD_align, nullptr);
				l->setMetadata(LLVMContext::MD_noundef, nullptr);
				l->setMetadata(LLVMContext::MD_dereferenceable, nullptr);
				l->setMetadata(LLVMContext::MD_dereferenceable_or_null, nullptr);
				IRBuilder<> b(l->getNextNode());
				SmallPtrSet<User *, 8> before(l->user_begin(), l->user_end());
				Value * v = swapped(b, l, from);
				if (v != l) l->replaceUsesWithIf(v, [&](Use & u) { return before.contains(u.getUser()); });
				++loads;
			} else if (auto * s = dyn_cast<StoreInst>(i)) {
				IRBuilder<> b(s);
				s->setOperand(0, swapped(b, s->getValueOperand(), from));
				++stores;
			} else if (isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i)) {
				refuse("atomic operation", *i);
			} else if (isa<VAArgInst>(i)) {
				refuse("variable arguments", *i);
			} else if (auto * c = dyn_cast<BitCastInst>(i)) {
				if ((c->getSrcTy()->isVectorTy() || c->getDestTy()->isVectorTy()) && c->getSrcTy()->getScalarSizeInBits() != c->getDestTy()->getScalarSizeInBits()) refuse("reinterpreted vector", *i);
			} else if (auto * c = dyn_cast<CallBase>(i)) {
				if (c->isInlineAsm()) refuse("inline assembly", *i);
				if (auto * x = dyn_cast<IntrinsicInst>(c); x && (x->getIntrinsicID() == Intrinsic::masked_load || x->getIntrinsicID() == Intrinsic::masked_store || x->getIntrinsicID() == Intrinsic::vastart || x->getIntrinsicID() == Intrinsic::vacopy)) refuse("operation", *i);
			}
		}
	}

	// pointers in tables are known when the program starts; they are stored in big-endian order then
	if (!late.empty()) {
		auto * f = Function::Create(FunctionType::get(Type::getVoidTy(context), false), GlobalValue::InternalLinkage, "bigend_pointers", *m);
		IRBuilder<> b(BasicBlock::Create(context, "", f));
		for (auto & [g, pointers] : late) {
			for (const Slot & s : pointers) {
				auto * p = b.CreateConstInBoundsGEP1_64(b.getInt8Ty(), g, s.offset);
				b.CreateAlignedStore(swapped(b, s.pointer, from), p, Align(1));
				++slots;
			}
		}
		b.CreateRetVoid();
		appendToGlobalCtors(*m, f, 0);
	}
	// only the interface is visible: the native program has functions with the same names
	auto hide = [](GlobalObject & g) {
		if (g.isDeclaration()) g.setDSOLocal(false); // from a shared library of the native side
		if (g.isDeclaration() || g.getName().starts_with("be_") || g.getName().starts_with("llvm.")) return;
		g.setComdat(nullptr);
		g.setLinkage(GlobalValue::InternalLinkage);
		g.setVisibility(GlobalValue::DefaultVisibility);
	};
	for (Function & f : *m) hide(f);
	for (GlobalVariable & g : m->globals()) hide(g);
	m->setDataLayout(to);
	m->setTargetTriple(narrow ? "x86_64-pc-linux-gnux32" : "x86_64-pc-linux-gnu");
	if (auto * flags = m->getModuleFlagsMetadata()) m->eraseNamedMetadata(flags);
	if (verifyModule(*m, &errs())) return 3;
	std::error_code ec;
	raw_fd_ostream out(argv[2], ec, sys::fs::OF_None);
	if (ec) return 2;
	WriteBitcodeToFile(*m, out);
	outs() << "bigend: " << loads << " loads, " << stores << " stores, " << tables << " tables, " << slots << " pointers; outside:";
	for (auto & n : outside) outs() << " " << n;
	outs() << "\n";
}
