// Abstract interpreter over LLVM IR. The abstract state maps every SSA value and every byte of memory to a
// value of terms.hpp; all input contents and all input sizes are symbols, so one abstract run covers every
// input. Branches on sizes partition the state; loops whose trip count is symbolic are closed with an
// inductive invariant (inferred by generalising two arrivals at the loop head, then verified).
#pragma once
#include "terms.hpp"
#include <llvm/ADT/DenseMap.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <chrono>
#include <unordered_set>

namespace cta {

enum OpC : uint8_t {
	O_ADD, O_SUB, O_MUL, O_UDIV, O_UREM, O_SDIV, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
	O_ICMP, O_SEL, O_TRUNC, O_ZEXT, O_SEXT, O_COPY, O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_BR, O_CBR, O_SWITCH,
	O_CALL, O_RET, O_EXTRACT, O_INSERT, O_UNREACH, O_UNSUP, O_NOP
};

struct Move {
	int dst, src;
};
struct Edge {
	int block = -1;
	vector<Move> moves;
};

struct FnCode;
struct Op {
	OpC o = O_NOP;
	uint8_t w = 0;
	uint8_t pred = 0;
	int dst = -1, a = 0, b = 0, c = 0;
	u64 imm = 0;
	vector<std::pair<int, i64>> idx; // gep: slot, scale
	vector<int> args;
	vector<unsigned> path; // extract/insert
	vector<u64> cases;
	vector<Edge> edges;
	const llvm::Type * ty = nullptr;
	const llvm::Function * callee = nullptr;
	const llvm::Instruction * I = nullptr;
};

struct LoopC {
	int header;
	int parent;
	vector<char> in; // by block
	bool hot = false;
};

struct FnCode {
	const llvm::Function * F = nullptr;
	string name;
	int nslots = 0;
	int nargs = 0;
	vector<vector<Op>> blocks;
	vector<int> headerLoop;  // block -> loop it heads, or -1
	vector<int> innermost;   // block -> innermost loop
	vector<LoopC> loops;
	vector<vector<char>> liveIn; // for loop headers: slot live?
	vector<int> argSlots;
};

struct Cell {
	N n = 0;
	uint8_t i = 0;
	uint8_t st = 0; // 0 undefined, 1 byte i of n, 2 anything
	bool operator==(const Cell & o) const { return st == o.st && (st != 1 || (n == o.n && i == o.i)); }
};

enum ObjKind : uint8_t { OB_MEM, OB_STREAM, OB_CONST, OB_GLOBAL, OB_OUT, OB_FUNC, OB_DEAD };

struct Obj {
	ObjKind kind = OB_MEM;
	N size = 0;
	u64 csize = 0;
	vector<Cell> cells;
	u64 stream = 0;
	N start = 0;
	string name;
	const llvm::GlobalVariable * gv = nullptr;
	const llvm::Function * fn = nullptr;
	bool readonly = false;
};
using ObjP = std::shared_ptr<Obj>;

struct State;
struct Snap {
	std::shared_ptr<const State> st;
	std::shared_ptr<Snap> prev;
};
struct VerifyRec;
struct LoopInst {
	int loop;
	int arrivals = 0;
	int tries = 0;
	std::shared_ptr<Snap> snaps;
	int nsnaps = 0;
	VerifyRec * verify = nullptr;
};

struct Frame {
	const FnCode * fn = nullptr;
	int block = 0, pc = 0;
	vector<N> slots;
	vector<LoopInst> loops;
	size_t objBase = 0;
	int retDst = -1;
};

struct SubLog {
	N from;
	N node; // what it was replaced by
	N to;   // node == to + off, or ~0
	u64 off;
};

struct State {
	vector<ObjP> objs;
	vector<Frame> frames;
	vector<N> ghosts;
	vector<SubLog> log;
	N ret = 0;
	bool hasRet = false;
	vector<std::pair<N, bool>> assumed; // data conditions assumed on this path
	vector<string> notes;
	int splits = 0;
	bool pending = false; // stands at a loop head whose arrival has not been reported
	// called-back output (encoders): number of characters delivered so far
};

struct Viol {
	string kind, msg, where;
};

struct VerifyRec {
	size_t depth; // frame index
	int loop;
	N j, k;
	u64 step;
	const State * A;
	size_t logBase;
	bool failed = false;
	string why;
	vector<State> exits;
	vector<std::pair<int, std::pair<size_t, size_t>>> mism; // what, index
	int arrivals = 0;
};

struct Ev {
	enum { RET, SPLIT, ARRIVE, VERIFY, EXIT, VIOL, DATA } k;
	N cond = 0;
	Viol v;
};

struct Stats {
	u64 steps = 0, loads = 0, stores = 0, branches = 0, splits = 0, loopsClosed = 0, boundsChecks = 0, shiftChecks = 0, divChecks = 0, calls = 0, paths = 0, asserts = 0, opaque = 0;
	std::set<const llvm::Instruction *> sites;
	std::set<string> fns;
};

struct Interp {
	Arena & T;
	const llvm::Module & M;
	const llvm::DataLayout & DL;
	bool big;
	vector<ObjP> globals; // fixed prefix of every state's object table
	llvm::DenseMap<const llvm::Value *, u64> globalId;
	std::map<const llvm::Function *, std::unique_ptr<FnCode>> code;
	vector<N> consts;
	Stats stats;
	using Handler = std::function<bool(Interp &, State &, const Op &, const vector<N> & args, N & result)>;
	std::map<const llvm::Function *, Handler> handlers;
	std::map<string, Handler> named; // by mangled name
	bool allowDataBranch = false; // data mode: fork on conditions over message content
	bool dataIndexViolation = false;
	bool dataBranchIsViolation = false;
	bool allowHeap = false;
	std::function<bool(Interp &, State &, u64 obj, N off, const vector<Cell> &)> outWrite;
	vector<Viol> dataViols;
	std::set<string> dataViolSeen;
	vector<Viol> effects; // C13
	std::set<string> unproved;
	u64 fuel = 400000000;
	int maxTries = 80;
	int splitLimit = 4000;
	int maxConds = 200; // conditions on content a path may collect
	bool nested = false; // case distinctions concern the enclosing loops, too
	int nsym = 0;
	unsigned junkCount = 0;
	std::map<unsigned, N> undefNodes;

	Interp(Arena & T, const llvm::Module & M): T(T), M(M), DL(M.getDataLayout()), big(DL.isBigEndian()) {
		T.con(8, 0);
		for (unsigned w: {1u, 8u, 16u, 32u, 64u}) undef(w);
		for (auto & g: M.globals()) addGlobal(g);
		for (auto & f: M) {
			auto o = std::make_shared<Obj>();
			o->kind = OB_FUNC;
			o->fn = &f;
			o->name = f.getName().str();
			o->size = T.con(64, 0);
			globalId[&f] = globals.size();
			globals.push_back(o);
		}
		for (auto & g: M.globals()) fillGlobal(g);
		T.baseNames.clear();
		for (auto & o: globals) T.baseNames.push_back(o->name);
		// (terms remembered here have to outlive what is released between items)
		for (auto & f: M)
			if (!f.isDeclaration()) try {
					get(&f);
				} catch (Fail &) { code.erase(&f); }
		T.onRelease.push_back([this](N from) {
			for (auto it = undefNodes.begin(); it != undefNodes.end();)
				if (it->second >= from) it = undefNodes.erase(it);
				else ++it;
		});
	}
	void addGlobal(const llvm::GlobalVariable & g) {
		auto o = std::make_shared<Obj>();
		o->gv = &g;
		o->name = g.getName().str();
		u64 sz = g.getValueType()->isSized() ? DL.getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
		o->csize = sz;
		o->size = T.con(64, sz);
		o->kind = g.isConstant() && g.hasInitializer() ? OB_CONST : OB_GLOBAL;
		o->readonly = true;
		globalId[&g] = globals.size();
		globals.push_back(o);
	}
	void fillGlobal(const llvm::GlobalVariable & g) {
		auto & o = globals[globalId[&g]];
		if (o->kind != OB_CONST) return;
		o->cells.assign(o->csize, Cell{T.con(8, 0), 0, 1});
		try {
			fillConst(*o, 0, g.getInitializer());
		} catch (Fail &) { o->kind = OB_GLOBAL; }
	}
	void fillConst(Obj & o, u64 off, const llvm::Constant * c) {
		using namespace llvm;
		if (isa<ConstantAggregateZero>(c)) return;
		if (isa<UndefValue>(c)) {
			u64 sz = DL.getTypeAllocSize(c->getType()).getFixedValue();
			for (u64 i = 0; i < sz; ++i) o.cells[off + i].st = 0;
			return;
		}
		if (auto * s = dyn_cast<ConstantStruct>(c)) {
			auto * L = DL.getStructLayout(s->getType());
			for (unsigned i = 0; i < s->getNumOperands(); ++i) fillConst(o, off + L->getElementOffset(i).getFixedValue(), s->getOperand(i));
			return;
		}
		if (auto * a = dyn_cast<ConstantArray>(c)) {
			u64 es = DL.getTypeAllocSize(a->getType()->getElementType()).getFixedValue();
			for (unsigned i = 0; i < a->getNumOperands(); ++i) fillConst(o, off + es * i, a->getOperand(i));
			return;
		}
		if (auto * d = dyn_cast<ConstantDataSequential>(c)) {
			u64 es = DL.getTypeAllocSize(d->getElementType()).getFixedValue();
			for (unsigned i = 0; i < d->getNumElements(); ++i) fillConst(o, off + es * i, d->getElementAsConstant(i));
			return;
		}
		N v = constant(c);
		storeCells(o.cells.data() + off, v, T.w(v) <= 8 ? 1 : T.w(v) / 8);
	}
	bool swapped() const { return big; }
	void storeCells(Cell * p, N v, unsigned bytes) {
		for (unsigned i = 0; i < bytes; ++i) p[i] = Cell{v, uint8_t(big ? bytes - 1 - i : i), 1};
	}

	N undef(unsigned w) {
		auto it = undefNodes.find(w);
		if (it != undefNodes.end()) return it->second;
		return undefNodes[w] = T.sym(w, "undef", HAS_JUNK);
	}
	bool isUndef(N a) const {
		for (auto & u: undefNodes)
			if (u.second == a) return true;
		return false;
	}
	// uninitialised for certain; what was only lost on the way is not followed
	bool unknown(N a) {
		if (!T.has(a, HAS_JUNK)) return false;
		std::set<N> at, seen;
		T.atoms(a, at, seen);
		for (N x: at)
			if (isUndef(x)) return true;
		throw Fail("unsupported", "use of a value that could not be followed");
	}
	N junk(unsigned w) { return T.sym(w, "junk" + std::to_string(junkCount++), HAS_JUNK); }

	unsigned widthOf(const llvm::Type * t) const {
		if (t->isPointerTy()) return 64;
		if (t->isIntegerTy()) {
			unsigned w = t->getIntegerBitWidth();
			if (w <= 64) return w;
		}
		return 0;
	}
	N constant(const llvm::Constant * c) {
		using namespace llvm;
		unsigned w = widthOf(c->getType());
		if (auto * ci = dyn_cast<ConstantInt>(c)) {
			if (!w) throw Fail("unsupported", "wide integer");
			return T.con(w, ci->getZExtValue());
		}
		if (isa<ConstantPointerNull>(c)) return T.con(64, 0);
		if (isa<UndefValue>(c)) {
			if (w) return undef(w);
			vector<N> v;
			if (auto * st = dyn_cast<StructType>(c->getType())) {
				for (auto * e: st->elements()) v.push_back(constant(UndefValue::get(e)));
				return T.tup(v);
			}
			if (auto * at = dyn_cast<ArrayType>(c->getType())) {
				for (u64 i = 0; i < at->getNumElements(); ++i) v.push_back(constant(UndefValue::get(at->getElementType())));
				return T.tup(v);
			}
			throw Fail("unsupported", "undef type");
		}
		if (isa<ConstantAggregateZero>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataArray>(c)) {
			vector<N> v;
			unsigned n = isa<StructType>(c->getType()) ? cast<StructType>(c->getType())->getNumElements() : unsigned(cast<ArrayType>(c->getType())->getNumElements());
			for (unsigned i = 0; i < n; ++i) v.push_back(constant(c->getAggregateElement(i)));
			return T.tup(v);
		}
		if (auto * g = dyn_cast<GlobalAlias>(c)) return constant(g->getAliasee());
		if (isa<GlobalVariable>(c) || isa<Function>(c)) return T.base(globalId[c]);
		if (auto * ce = dyn_cast<ConstantExpr>(c)) {
			switch (ce->getOpcode()) {
			case Instruction::GetElementPtr: {
				APInt off(64, 0);
				if (!cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) throw Fail("unsupported", "constant gep");
				return T.add(constant(ce->getOperand(0)), T.con(64, off.getZExtValue()));
			}
			case Instruction::PtrToInt:
			case Instruction::IntToPtr:
			case Instruction::BitCast: return constant(ce->getOperand(0));
			case Instruction::Sub: return T.sub(constant(ce->getOperand(0)), constant(ce->getOperand(1)));
			case Instruction::Add: return T.add(constant(ce->getOperand(0)), constant(ce->getOperand(1)));
			default: break;
			}
		}
		throw Fail("unsupported", "constant");
	}

	static string shortPath(const string & f) {
		auto p = f.find("cthash/");
		return p == string::npos ? f : f.substr(p);
	}
	string locOf(const llvm::Instruction * I) const {
		string s;
		if (!I) return "?";
		const llvm::DebugLoc & dl = I->getDebugLoc();
		const llvm::DILocation * L = dl.get();
		int n = 0;
		for (; L && n < 4; L = L->getInlinedAt(), ++n) {
			string f = shortPath(L->getFilename().str());
			string fn;
			if (auto * sp = L->getScope()->getSubprogram()) fn = sp->getName().str();
			if (n) s += " < ";
			s += f + ":" + std::to_string(L->getLine()) + (fn.empty() ? "" : " (" + fn + ")");
		}
		if (s.empty()) s = "in " + demangle(I->getFunction()->getName().str());
		return s;
	}
	static string demangle(const string & s) {
		string r = llvm::demangle(s);
		return r;
	}

	// ------------------------------------------------------------------ decoding
	const FnCode & get(const llvm::Function * F) {
		auto it = code.find(F);
		if (it != code.end()) return *it->second;
		auto & slot = code[F];
		slot = std::make_unique<FnCode>();
		decode(*slot, F);
		return *slot;
	}
	void decode(FnCode & fc, const llvm::Function * F) {
		using namespace llvm;
		fc.F = F;
		fc.name = demangle(F->getName().str());
		DenseMap<const Value *, int> slot;
		DenseMap<const BasicBlock *, int> bid;
		int ns = 0;
		for (auto & a: F->args()) {
			slot[&a] = ns;
			fc.argSlots.push_back(ns);
			++ns;
		}
		fc.nargs = ns;
		int nb = 0;
		for (auto & b: *F) {
			bid[&b] = nb++;
			for (auto & i: b)
				if (!i.getType()->isVoidTy()) slot[&i] = ns++;
		}
		fc.nslots = ns;
		auto val = [&](const Value * v) -> int {
			if (auto * c = dyn_cast<Constant>(v)) {
				try {
					consts.push_back(constant(c));
				} catch (Fail &) { consts.push_back(undef(1)); }
				return -int(consts.size());
			}
			auto it = slot.find(v);
			if (it == slot.end()) return -1 - int(consts.size() - 1);
			return it->second;
		};
		fc.blocks.resize(size_t(nb));
		auto edge = [&](const BasicBlock * from, const BasicBlock * to) {
			Edge e;
			e.block = bid[to];
			for (auto & p: to->phis()) e.moves.push_back({slot[&p], val(p.getIncomingValueForBlock(from))});
			return e;
		};
		for (auto & b: *F) {
			auto & ops = fc.blocks[size_t(bid[&b])];
			for (auto & i: b) {
				if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue;
				Op op;
				op.I = &i;
				op.dst = i.getType()->isVoidTy() ? -1 : slot[&i];
				op.w = uint8_t(widthOf(i.getType()));
				op.o = O_UNSUP;
				if (auto * bo = dyn_cast<BinaryOperator>(&i)) {
					op.a = val(bo->getOperand(0));
					op.b = val(bo->getOperand(1));
					if (op.w) switch (bo->getOpcode()) {
						case Instruction::Add: op.o = O_ADD; break;
						case Instruction::Sub: op.o = O_SUB; break;
						case Instruction::Mul: op.o = O_MUL; break;
						case Instruction::UDiv: op.o = O_UDIV; break;
						case Instruction::URem: op.o = O_UREM; break;
						case Instruction::SDiv: op.o = O_SDIV; break;
						case Instruction::SRem: op.o = O_SREM; break;
						case Instruction::And: op.o = O_AND; break;
						case Instruction::Or: op.o = O_OR; break;
						case Instruction::Xor: op.o = O_XOR; break;
						case Instruction::Shl: op.o = O_SHL; break;
						case Instruction::LShr: op.o = O_LSHR; break;
						case Instruction::AShr: op.o = O_ASHR; break;
						default: break;
						}
				} else if (auto * ic = dyn_cast<ICmpInst>(&i)) {
					op.a = val(ic->getOperand(0));
					op.b = val(ic->getOperand(1));
					op.pred = uint8_t(ic->getPredicate());
					if (widthOf(ic->getOperand(0)->getType())) op.o = O_ICMP;
				} else if (auto * se = dyn_cast<SelectInst>(&i)) {
					op.a = val(se->getCondition());
					op.b = val(se->getTrueValue());
					op.c = val(se->getFalseValue());
					if (op.w) op.o = O_SEL;
				} else if (auto * ca = dyn_cast<CastInst>(&i)) {
					op.a = val(ca->getOperand(0));
					unsigned sw = widthOf(ca->getOperand(0)->getType());
					if (op.w && sw) switch (ca->getOpcode()) {
						case Instruction::Trunc: op.o = O_TRUNC; break;
						case Instruction::ZExt: op.o = O_ZEXT; break;
						case Instruction::SExt: op.o = O_SEXT; break;
						case Instruction::PtrToInt: op.o = op.w == 64 ? O_COPY : O_TRUNC; break;
						case Instruction::IntToPtr:
							if (sw == 64) op.o = O_COPY;
							break;
						case Instruction::BitCast:
							if (sw == op.w) op.o = O_COPY;
							break;
						default: break;
						}
				} else if (auto * fr = dyn_cast<FreezeInst>(&i)) {
					op.a = val(fr->getOperand(0));
					op.o = O_COPY;
				} else if (auto * al = dyn_cast<AllocaInst>(&i)) {
					if (auto * n = dyn_cast<ConstantInt>(al->getArraySize())) {
						op.imm = DL.getTypeAllocSize(al->getAllocatedType()).getFixedValue() * n->getZExtValue();
						op.o = O_ALLOCA;
					}
				} else if (auto * ld = dyn_cast<LoadInst>(&i)) {
					op.a = val(ld->getPointerOperand());
					op.ty = ld->getType();
					if (loadable(op.ty)) op.o = O_LOAD;
				} else if (auto * st = dyn_cast<StoreInst>(&i)) {
					op.a = val(st->getPointerOperand());
					op.b = val(st->getValueOperand());
					op.ty = st->getValueOperand()->getType();
					if (loadable(op.ty)) op.o = O_STORE;
				} else if (auto * ge = dyn_cast<GetElementPtrInst>(&i)) {
					op.a = val(ge->getPointerOperand());
					op.o = O_GEP;
					for (auto ti = gep_type_begin(ge), te = gep_type_end(ge); ti != te; ++ti) {
						const Value * ix = ti.getOperand();
						if (auto * stt = ti.getStructTypeOrNull()) {
							op.imm += DL.getStructLayout(stt)->getElementOffset(unsigned(cast<ConstantInt>(ix)->getZExtValue())).getFixedValue();
						} else {
							i64 sc = i64(DL.getTypeAllocSize(ti.getIndexedType()).getFixedValue());
							if (auto * ci = dyn_cast<ConstantInt>(ix)) op.imm += u64(ci->getSExtValue() * sc);
							else op.idx.push_back({val(ix), sc});
						}
					}
				} else if (auto * br = dyn_cast<BranchInst>(&i)) {
					if (br->isConditional()) {
						op.o = O_CBR;
						op.a = val(br->getCondition());
						op.edges.push_back(edge(&b, br->getSuccessor(0)));
						op.edges.push_back(edge(&b, br->getSuccessor(1)));
					} else {
						op.o = O_BR;
						op.edges.push_back(edge(&b, br->getSuccessor(0)));
					}
				} else if (auto * sw = dyn_cast<SwitchInst>(&i)) {
					op.o = O_SWITCH;
					op.a = val(sw->getCondition());
					op.edges.push_back(edge(&b, sw->getDefaultDest()));
					for (auto & cs: sw->cases()) {
						op.cases.push_back(cs.getCaseValue()->getZExtValue());
						op.edges.push_back(edge(&b, cs.getCaseSuccessor()));
					}
				} else if (auto * cb = dyn_cast<CallBase>(&i)) {
					op.o = O_CALL;
					op.callee = cb->getCalledFunction();
					if (!op.callee) op.a = val(cb->getCalledOperand());
					for (auto & a: cb->args()) {
						if (isa<MetadataAsValue>(a)) op.args.push_back(-1);
						else op.args.push_back(val(a));
					}
					if (auto * inv = dyn_cast<InvokeInst>(&i)) op.edges.push_back(edge(&b, inv->getNormalDest()));
					if (op.callee && op.callee->isIntrinsic()) {
						switch (op.callee->getIntrinsicID()) {
						case Intrinsic::dbg_declare:
						case Intrinsic::dbg_value:
						case Intrinsic::dbg_label:
						case Intrinsic::assume:
						case Intrinsic::experimental_noalias_scope_decl: op.o = O_NOP; break;
						default: break;
						}
					}
				} else if (auto * re = dyn_cast<ReturnInst>(&i)) {
					op.o = O_RET;
					op.a = re->getReturnValue() ? val(re->getReturnValue()) : INT_MIN;
				} else if (auto * ev = dyn_cast<ExtractValueInst>(&i)) {
					op.o = O_EXTRACT;
					op.a = val(ev->getAggregateOperand());
					op.path.assign(ev->idx_begin(), ev->idx_end());
				} else if (auto * iv = dyn_cast<InsertValueInst>(&i)) {
					op.o = O_INSERT;
					op.a = val(iv->getAggregateOperand());
					op.b = val(iv->getInsertedValueOperand());
					op.path.assign(iv->idx_begin(), iv->idx_end());
				} else if (isa<UnreachableInst>(i)) {
					op.o = O_UNREACH;
				}
				if (op.o == O_NOP) continue;
				ops.push_back(std::move(op));
			}
		}
		// loops
		fc.headerLoop.assign(size_t(nb), -1);
		fc.innermost.assign(size_t(nb), -1);
		{
			DominatorTree DT(*const_cast<Function *>(F));
			LoopInfo LI(DT);
			DenseMap<const Loop *, int> lid;
			for (auto * L: LI.getLoopsInPreorder()) {
				LoopC lc;
				lc.header = bid[L->getHeader()];
				lc.parent = L->getParentLoop() ? lid[L->getParentLoop()] : -1;
				lc.in.assign(size_t(nb), 0);
				for (auto * b: L->blocks()) {
					lc.in[size_t(bid[b])] = 1;
					fc.innermost[size_t(bid[b])] = int(fc.loops.size());
				}
				lid[L] = int(fc.loops.size());
				fc.headerLoop[size_t(lc.header)] = int(fc.loops.size());
				fc.loops.push_back(lc);
			}
		}
		liveness(fc);
	}
	bool loadable(const llvm::Type * t) const {
		using namespace llvm;
		if (unsigned w = widthOf(t)) return w == 1 || w % 8 == 0;
		if (auto * s = dyn_cast<StructType>(t)) {
			for (auto * e: s->elements())
				if (!loadable(e)) return false;
			return true;
		}
		if (auto * a = dyn_cast<ArrayType>(t)) return loadable(a->getElementType());
		return false;
	}
	static void uses(const Op & o, const std::function<void(int)> & f) {
		auto u = [&](int x) {
			if (x >= 0) f(x);
		};
		switch (o.o) {
		case O_CALL:
			if (!o.callee) u(o.a);
			for (int x: o.args) u(x);
			break;
		case O_GEP:
			u(o.a);
			for (auto & x: o.idx) u(x.first);
			break;
		case O_SEL:
			u(o.a);
			u(o.b);
			u(o.c);
			break;
		case O_BR:
		case O_ALLOCA:
		case O_UNREACH:
		case O_UNSUP:
		case O_NOP: break;
		case O_RET:
			if (o.a != INT_MIN) u(o.a);
			break;
		case O_CBR:
		case O_SWITCH:
		case O_LOAD:
		case O_COPY:
		case O_TRUNC:
		case O_ZEXT:
		case O_SEXT:
		case O_EXTRACT: u(o.a); break;
		default:
			u(o.a);
			u(o.b);
		}
	}
	void liveness(FnCode & fc) {
		if (fc.loops.empty()) return;
		size_t nb = fc.blocks.size(), ns = size_t(fc.nslots);
		vector<vector<char>> in(nb, vector<char>(ns, 0));
		bool ch = true;
		while (ch) {
			ch = false;
			for (size_t b = nb; b-- > 0;) {
				vector<char> live(ns, 0);
				for (size_t q = fc.blocks[b].size(); q-- > 0;) {
					auto & o = fc.blocks[b][q];
					if (!o.edges.empty()) {
						for (auto & e: o.edges) {
							vector<char> l = in[size_t(e.block)];
							for (auto & m: e.moves) l[size_t(m.dst)] = 0;
							for (auto & m: e.moves)
								if (m.src >= 0) l[size_t(m.src)] = 1;
							for (size_t i = 0; i < ns; ++i) live[i] |= l[i];
						}
					}
					if (o.dst >= 0) live[size_t(o.dst)] = 0;
					uses(o, [&](int x) { live[size_t(x)] = 1; });
				}
				if (live != in[b]) {
					in[b] = live;
					ch = true;
				}
			}
		}
		// (values defined by phis of the header are live there when used; in[] holds them as they are not killed)
		fc.liveIn.resize(fc.loops.size());
		for (size_t l = 0; l < fc.loops.size(); ++l) fc.liveIn[l] = in[size_t(fc.loops[l].header)];
	}

	// ------------------------------------------------------------------ states
	State fresh() {
		State s;
		s.objs = globals;
		return s;
	}
	u64 addObj(State & s, ObjP o) {
		s.objs.push_back(o);
		u64 id = s.objs.size() - 1;
		if (T.baseNames.size() <= id) T.baseNames.resize(id + 1);
		T.baseNames[id] = o->name;
		return id;
	}
	u64 mem(State & s, const string & name, u64 size) {
		auto o = std::make_shared<Obj>();
		o->kind = OB_MEM;
		o->name = name;
		o->csize = size;
		o->size = T.con(64, size);
		o->cells.assign(size, Cell{});
		return addObj(s, o);
	}
	u64 stream(State & s, const string & name, u64 sid, N start, N size) {
		auto o = std::make_shared<Obj>();
		o->kind = OB_STREAM;
		o->name = name;
		o->size = size;
		o->start = start;
		o->stream = sid;
		o->readonly = true;
		return addObj(s, o);
	}
	Obj & own(State & s, u64 id) {
		auto & p = s.objs[id];
		if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
		return *p;
	}
	void call(State & s, const llvm::Function * F, const vector<N> & args, int retDst = -1) {
		const FnCode & fc = get(F);
		Frame f;
		f.fn = &fc;
		f.slots.assign(size_t(fc.nslots), 0);
		if (args.size() != fc.argSlots.size()) throw Fail("error", "argument count of " + fc.name);
		for (size_t i = 0; i < args.size(); ++i) f.slots[size_t(fc.argSlots[i])] = args[i];
		f.objBase = s.objs.size();
		f.retDst = retDst;
		s.frames.push_back(std::move(f));
		stats.fns.insert(fc.name);
	}
	bool decl(const llvm::Function * F) const { return F->isDeclaration(); }

	N get(const Frame & f, int x) const { return x >= 0 ? f.slots[size_t(x)] : consts[size_t(-x - 1)]; }

	// pointer -> object and offset
	bool resolve(N p, u64 & obj, N & off) {
		const Node & x = T.n[p];
		if (x.k == KBASE) {
			obj = x.c;
			off = T.con(64, 0);
			return true;
		}
		if (x.k == KADD) {
			Lin l = T.lin(p), r;
			r.c = l.c;
			int nb = 0;
			for (auto & t: l.t) {
				if (T.kind(t.first) == KBASE) {
					if (t.second != 1) return false;
					++nb;
					obj = T.n[t.first].c;
				} else
					r.t.push_back(t);
			}
			if (nb != 1) return false;
			off = T.mkAdd(64, r);
			return true;
		}
		return false;
	}

	struct Stop {
		Ev e;
	};
	[[noreturn]] void viol(const string & kind, const string & msg, const Op & op) {
		Ev e;
		e.k = Ev::VIOL;
		e.v = {kind, msg, locOf(op.I)};
		throw Stop{e};
	}
	[[noreturn]] void split(N cond) {
		Ev e;
		e.k = Ev::SPLIT;
		e.cond = cond;
		throw Stop{e};
	}
	// 1-bit value -> known truth, or stops with a split
	bool decide(State & s, N c, const Op & op) {
		if (T.isConst(c)) return T.cval(c) & 1;
		if (!s.assumed.empty()) {
			N r = underAssumptions(s, c);
			if (T.isConst(r)) return T.cval(r) & 1;
			c = r;
		}
		if (unknown(c)) viol("uninitialised", "a branch depends on an uninitialised or unspecified value", op);
		if (T.has(c, HAS_DATA)) {
			noteData(op, "a branch depends on message content");
			Ev e;
			e.k = Ev::DATA;
			e.cond = c;
			throw Stop{e};
		}
		split(c);
	}
	N underAssumptions(State & s, N c) {
		Arena::Map m, atoms;
		for (auto & a: s.assumed) {
			m[a.first] = T.con(1, a.second);
			if (a.second && T.kind(a.first) == KICMP && T.n[a.first].c == P_EQ) {
				N x = N(T.arg(a.first, 0)), y = N(T.arg(a.first, 1));
				if (T.isConst(x)) std::swap(x, y);
				if (T.isConst(y) && T.kind(x) == KMB) atoms[x] = y;
			}
		}
		auto old = T.substFlags;
		T.substFlags = 0xff;
		// (what is put together by a replacement may be known itself)
		auto known = [&](N x) {
			for (int i = 0; i < 8 && !T.isConst(x); ++i) {
				std::unordered_map<N, N> memo;
				N y = T.subst(x, m, memo);
				if (y == x) break;
				x = y;
			}
			return x;
		};
		N r = known(c);
		if (!atoms.empty() && !T.isConst(r)) {
			// what is known to equal a constant, in the assumptions as well
			std::unordered_map<N, N> ma, mb;
			r = T.subst(r, atoms, ma);
			Arena::Map rest;
			for (auto & a: s.assumed)
				if (N x = T.subst(a.first, atoms, ma); x != a.first && !T.isConst(x)) rest[x] = T.con(1, a.second);
			if (!rest.empty() && !T.isConst(r)) r = known(T.subst(r, rest, mb));
			else r = known(r);
		}
		T.substFlags = old;
		return r;
	}
	void noteData(const Op & op, const string & what) {
		if (dataBranchIsViolation) viol("data-dependent", what, op);
		string w = locOf(op.I);
		if (dataViolSeen.insert(w + what).second) dataViols.push_back({"data-dependent", what, w});
	}

	// inside [0,size) ?
	void bounds(State & s, u64 obj, N off, u64 bytes, const Op & op, const char * what) {
		++stats.boundsChecks;
		const Obj & o = *s.objs[obj];
		if (o.kind == OB_DEAD || o.kind == OB_FUNC) viol("out-of-bounds", string(what) + " of a dead object", op);
		N sz = o.size;
		if (T.isConst(off) && T.isConst(sz)) {
			u64 a = T.cval(off), b = T.cval(sz);
			if (a > b || bytes > b - a) viol("out-of-bounds", string(what) + " of " + std::to_string(bytes) + " byte(s) at offset " + std::to_string(i64(a)) + " of " + o.name + " (size " + std::to_string(b) + ")", op);
			return;
		}
		if (unknown(off)) viol("uninitialised", string(what) + " at an uninitialised offset of " + o.name, op);
		// lower end
		i128 lo, hi;
		bool okLo = T.srange(off, lo, hi) && lo >= 0;
		Arena::Diff d;
		N end = T.add(off, T.con(64, bytes));
		bool okHi = false;
		Range re = T.range(end);
		if (okLo && re.exact && T.diff(end, sz, d)) okHi = d.hi <= 0;
		if (okLo && okHi) return;
		if (T.has(off, HAS_DATA) || T.has(sz, HAS_DATA)) {
			noteData(op, "an address depends on message content");
			viol("out-of-bounds?", string(what) + " at offset " + T.str(off) + " of " + o.name + " not shown to be inside", op);
		}
		// decide by splitting on sizes
		if (T.range(off).exact) {
			N in = T.not_(T.ult(sz, end));
			if (T.isConst(in)) {
				if (T.cval(in)) return;
				viol("out-of-bounds", string(what) + " at offset " + T.str(off) + " of " + o.name + " (size " + T.str(sz) + ")", op);
			}
			split(in);
		}
		N neg = T.slt(off, T.con(64, 0));
		if (T.isConst(neg) && T.cval(neg)) viol("out-of-bounds", string(what) + " at offset " + T.str(off) + " of " + o.name, op);
		if (!T.isConst(neg)) split(neg);
		viol("out-of-bounds?", string(what) + " at offset " + T.str(off) + " of " + o.name + " not shown to be inside", op);
	}
	u64 ptr(State & s, N p, N & off, const Op & op) {
		u64 obj;
		if (T.isConst(p)) viol("null", "access through a null pointer", op);
		if (resolve(p, obj, off) && obj < s.objs.size()) return obj;
		// a choice between pointers: one case for each
		for (N x: T.kind(p) == KSEL ? vector<N>{p} : T.kind(p) == KADD ? T.kids(p) : vector<N>{})
			if (T.kind(x) == KSEL && T.w(x) == 64 && !unknown(p)) {
				bool c = decide(s, N(T.arg(x, 0)), op);
				Arena::Map m;
				m[x] = N(T.arg(x, c ? 1 : 2));
				std::unordered_map<N, N> memo;
				N q = T.subst(p, m, memo);
				if (q != p) return ptr(s, q, off, op);
			}
		if (unknown(p)) viol("uninitialised", "access through an uninitialised pointer", op);
		throw Fail("unsupported", "pointer " + T.str(p) + " at " + locOf(op.I));
	}
	// bytes of an object at a concrete or symbolic offset
	void readCells(State & s, u64 obj, N off, u64 n, Cell * out, const Op & op) {
		const Obj & o = *s.objs[obj];
		if (o.kind == OB_STREAM) {
			N at = T.add(o.start, off);
			for (u64 i = 0; i < n; ++i) out[i] = Cell{T.mb(o.stream, T.add(at, T.con(64, i))), 0, 1};
			return;
		}
		if (o.kind == OB_OUT) viol("read-of-output", "the output buffer is read", op);
		if (o.kind == OB_GLOBAL) {
			effects.push_back({"global", "reads mutable or external object " + demangle(o.name), locOf(op.I)});
			throw Fail("unsupported", "read of non-constant global " + o.name);
		}
		if (T.isConst(off)) {
			const Cell * p = o.cells.data() + T.cval(off);
			for (u64 i = 0; i < n; ++i) out[i] = p[i];
			return;
		}
		throw Fail("unsupported", "read at symbolic offset " + T.str(off) + " of " + o.name + " at " + locOf(op.I));
	}
	N fromCells(const Cell * c, unsigned bytes, unsigned w, const Op & op) {
		// whole value?
		bool whole = true;
		for (unsigned i = 0; i < bytes && whole; ++i) whole = c[i].st == 1 && c[i].n == c[0].n && c[i].i == (big ? bytes - 1 - i : i);
		if (whole && T.w(c[0].n) == w) return c[0].n;
		bool anyU = false, anyJ = false;
		for (unsigned i = 0; i < bytes; ++i) {
			anyU |= c[i].st == 0;
			anyJ |= c[i].st == 2;
		}
		if (anyU) return undef(w);
		if (anyJ) return junk(w);
		u64 C = 0;
		vector<Ent> e;
		vector<Ent> tmp;
		for (unsigned i = 0; i < bytes; ++i) {
			unsigned at = big ? bytes - 1 - i : i; // byte position in the value
			N v = c[i].n;
			if (T.kind(v) == KBASE || (T.has(v, HAS_BASE) && bytes == 8)) throw Fail("unsupported", "part of a pointer at " + locOf(op.I));
			u64 cc = 0;
			tmp.clear();
			T.toX(v, cc, tmp);
			int sh = int(8 * c[i].i) - int(8 * at);
			auto s = [&](u64 x) -> u64 { return sh >= 0 ? (sh >= 64 ? 0 : x >> sh) : x << -sh; };
			u64 m = u64(255) << (8 * at);
			C ^= s(cc) & m;
			for (auto & x: tmp) {
				u64 mm = s(x.m) & m;
				if (mm) e.push_back({x.a, x.d + sh, mm});
			}
		}
		N r = T.mkX(w < 8 ? 8 : w, C, e);
		return w < 8 ? T.trunc(r, w) : r;
	}
	N loadTy(State & s, u64 obj, N off, const llvm::Type * ty, const Op & op) {
		using namespace llvm;
		if (unsigned w = widthOf(ty)) {
			unsigned bytes = (w + 7) / 8;
			const Obj & o = *s.objs[obj];
			if (!T.isConst(off) && (o.kind == OB_CONST || o.kind == OB_MEM)) {
				if (T.has(off, HAS_DATA)) noteData(op, "an address depends on message content");
				else if (!(o.kind == OB_CONST)) splitOffset(s, off, op);
				string content(o.csize, 0);
				for (u64 i = 0; i < o.csize; ++i) {
					auto & c = o.cells[i];
					if (c.st != 1 || !T.isConst(c.n)) {
						if (c.st == 0) continue;
						throw Fail("unsupported", "read at symbolic offset of " + o.name + " at " + locOf(op.I));
					}
					content[i] = char(T.cval(c.n) >> (8 * c.i));
				}
				if (big && bytes > 1) throw Fail("unsupported", "table of wide values");
				return T.look(content, off, w);
			}
			Cell c[8];
			readCells(s, obj, off, bytes, c, op);
			return fromCells(c, bytes, w, op);
		}
		vector<N> v;
		if (auto * st = dyn_cast<StructType>(const_cast<llvm::Type *>(ty))) {
			auto * L = DL.getStructLayout(st);
			for (unsigned i = 0; i < st->getNumElements(); ++i) v.push_back(loadTy(s, obj, T.add(off, T.con(64, L->getElementOffset(i).getFixedValue())), st->getElementType(i), op));
		} else if (auto * at = dyn_cast<ArrayType>(const_cast<llvm::Type *>(ty))) {
			u64 es = DL.getTypeAllocSize(at->getElementType()).getFixedValue();
			for (u64 i = 0; i < at->getNumElements(); ++i) v.push_back(loadTy(s, obj, T.add(off, T.con(64, es * i)), at->getElementType(), op));
		} else
			throw Fail("unsupported", "load type");
		return T.tup(v);
	}
	void splitOffset(State & s, N off, const Op & op) {
		// an offset over sizes with few values: partition
		Range r = T.range(off);
		if (r.exact && r.hi - r.lo <= 512 && !T.has(off, HAS_DATA)) {
			N c = T.eq(off, T.con(T.w(off), r.lo));
			if (!T.isConst(c)) split(c);
		}
		(void)s;
		(void)op;
	}
	void storeBytes(State & s, u64 obj, N off, const vector<Cell> & c, const Op & op) {
		const Obj & o0 = *s.objs[obj];
		if (o0.kind == OB_OUT) {
			if (!outWrite || !outWrite(*this, s, obj, off, c)) viol("output", "write at offset " + T.str(off) + " of the output", op);
			return;
		}
		if (o0.kind == OB_GLOBAL || o0.kind == OB_CONST) viol("global-write", "write to " + demangle(o0.name), op);
		if (o0.readonly || o0.kind == OB_STREAM) viol("input-write", "write to the input", op);
		if (!T.isConst(off)) {
			if (T.has(off, HAS_DATA)) noteData(op, "an address depends on message content");
			splitOffset(s, off, op);
			throw Fail("unsupported", "write at symbolic offset " + T.str(off) + " of " + o0.name + " at " + locOf(op.I));
		}
		Obj & o = own(s, obj);
		u64 at = T.cval(off);
		for (size_t i = 0; i < c.size(); ++i) o.cells[at + i] = c[i];
	}
	void flatten(N v, const llvm::Type * ty, vector<Cell> & out, u64 base) {
		using namespace llvm;
		if (unsigned w = widthOf(ty)) {
			unsigned bytes = (w + 7) / 8;
			if (w == 1) v = T.zext(v, 8);
			if (out.size() < base + bytes) out.resize(base + bytes);
			if (isUndef(v)) {
				for (unsigned i = 0; i < bytes; ++i) out[base + i] = Cell{};
			} else
				storeCells(out.data() + base, v, bytes);
			return;
		}
		if (auto * st = dyn_cast<StructType>(const_cast<llvm::Type *>(ty))) {
			auto * L = DL.getStructLayout(st);
			for (unsigned i = 0; i < st->getNumElements(); ++i) flatten(N(T.arg(v, i)), st->getElementType(i), out, base + L->getElementOffset(i).getFixedValue());
			return;
		}
		if (auto * at = dyn_cast<ArrayType>(const_cast<llvm::Type *>(ty))) {
			u64 es = DL.getTypeAllocSize(at->getElementType()).getFixedValue();
			for (u64 i = 0; i < at->getNumElements(); ++i) flatten(N(T.arg(v, i)), at->getElementType(), out, base + es * i);
			return;
		}
		throw Fail("unsupported", "store type");
	}
	void storeTy(State & s, u64 obj, N off, N v, const llvm::Type * ty, const Op & op) {
		vector<Cell> c;
		flatten(v, ty, c, 0);
		storeBytes(s, obj, off, c, op);
	}
	void copyMem(State & s, N dst, N src, N n, const Op & op) {
		if (T.isConst(n) && T.cval(n) == 0) return;
		N do_, so;
		if (!T.isConst(n)) {
			if (unknown(n)) viol("uninitialised", "copy of an uninitialised number of bytes", op);
			if (T.has(n, HAS_DATA)) noteData(op, "the size of a copy depends on message content");
		if (T.has(n, HAS_DATA)) throw Fail("unsupported", "copy of data-dependent size");
			Range r = T.range(n);
			N c = T.eq(n, T.con(64, r.lo));
			if (r.exact && !T.isConst(c)) split(c);
			throw Fail("unsupported", "copy of symbolic size");
		}
		u64 k = T.cval(n);
		if (k > (1u << 20)) viol("out-of-bounds", "copy of " + std::to_string(k) + " bytes", op);
		u64 so_ = ptr(s, src, so, op);
		bounds(s, so_, so, k, op, "read");
		u64 d = ptr(s, dst, do_, op);
		bounds(s, d, do_, k, op, "write");
		vector<Cell> c(k);
		readCells(s, so_, so, k, c.data(), op);
		storeBytes(s, d, do_, c, op);
		stats.sites.insert(op.I);
	}

	N icmp(State & s, unsigned pred, N a, N b, const Op & op) {
		using P = llvm::CmpInst::Predicate;
		// pointers to different objects
		if (T.w(a) == 64 && (T.has(a, HAS_BASE) || T.has(b, HAS_BASE))) {
			u64 o1, o2;
			N f1, f2;
			bool r1 = resolve(a, o1, f1), r2 = resolve(b, o2, f2);
			if (r1 && r2 && o1 != o2) {
				if (pred == P::ICMP_EQ) return T.con(1, 0);
				if (pred == P::ICMP_NE) return T.con(1, 1);
				throw Fail("unsupported", "order of unrelated pointers at " + locOf(op.I));
			}
			if (r1 && r2) {
				a = f1;
				b = f2;
				if (pred == P::ICMP_ULT || pred == P::ICMP_UGT || pred == P::ICMP_ULE || pred == P::ICMP_UGE) pred += P::ICMP_SGT - P::ICMP_UGT; // offsets may be negative
			} else if (T.isConst(a) || T.isConst(b)) {
				u64 v = T.isConst(a) ? T.cval(a) : T.cval(b);
				if (v == 0 && (pred == P::ICMP_EQ || pred == P::ICMP_NE) && (r1 || r2)) return T.con(1, pred == P::ICMP_NE);
			}
		}
		(void)s;
		switch (pred) {
		case P::ICMP_EQ: return T.eq(a, b);
		case P::ICMP_NE: return T.not_(T.eq(a, b));
		case P::ICMP_ULT: return T.ult(a, b);
		case P::ICMP_UGT: return T.ult(b, a);
		case P::ICMP_ULE: return T.not_(T.ult(b, a));
		case P::ICMP_UGE: return T.not_(T.ult(a, b));
		case P::ICMP_SLT: return T.slt(a, b);
		case P::ICMP_SGT: return T.slt(b, a);
		case P::ICMP_SLE: return T.not_(T.slt(b, a));
		case P::ICMP_SGE: return T.not_(T.slt(a, b));
		}
		throw Fail("unsupported", "comparison");
	}
	u64 shiftAmount(State & s, N b, unsigned w, const Op & op) {
		++stats.shiftChecks;
		if (!T.isConst(b)) {
			if (unknown(b)) viol("uninitialised", "shift by an uninitialised amount", op);
			if (!T.has(b, HAS_DATA)) {
				Range r = T.range(b);
				if (r.exact && r.hi - r.lo <= 64) {
					N c = T.eq(b, T.con(T.w(b), r.lo));
					if (!T.isConst(c)) split(c);
				}
			}
			throw Fail("unsupported", "shift by " + T.str(b) + " at " + locOf(op.I));
		}
		(void)s;
		u64 k = T.cval(b);
		if (k >= w) viol("shift", "shift of a " + std::to_string(w) + "-bit value by " + std::to_string(k), op);
		return k;
	}

	// ------------------------------------------------------------------ running one state up to the next event
	Ev run(State & s) {
		try {
			if (s.pending) {
				s.pending = false;
				Ev ev;
				ev.k = s.frames.back().loops.back().verify ? Ev::VERIFY : Ev::ARRIVE;
				return ev;
			}
			return runInner(s);
		} catch (Stop & st) { return st.e; }
	}
	// take an edge; returns true when an event must be raised
	bool take(State & s, const Edge & e, Ev & ev) {
		Frame & f = s.frames.back();
		if (!e.moves.empty()) {
			N buf[64];
			vector<N> big_;
			N * p = buf;
			if (e.moves.size() > 64) {
				big_.resize(e.moves.size());
				p = big_.data();
			}
			for (size_t i = 0; i < e.moves.size(); ++i) p[i] = get(f, e.moves[i].src);
			for (size_t i = 0; i < e.moves.size(); ++i) f.slots[size_t(e.moves[i].dst)] = p[i];
		}
		f.block = e.block;
		f.pc = 0;
		bool exited = false;
		while (!f.loops.empty() && !f.fn->loops[size_t(f.loops.back().loop)].in[size_t(e.block)]) {
			exited |= f.loops.back().verify != nullptr;
			f.loops.pop_back();
		}
		int h = f.fn->headerLoop[size_t(e.block)];
		bool arrive = false;
		if (h >= 0) {
			if (f.loops.empty() || f.loops.back().loop != h) {
				LoopInst li;
				li.loop = h;
				f.loops.push_back(li);
			}
			auto & li = f.loops.back();
			++li.arrivals;
			if (li.verify) {
				ev.k = Ev::VERIFY;
				arrive = true;
			} else if (f.fn->loops[size_t(h)].hot) {
				ev.k = Ev::ARRIVE;
				arrive = true;
			}
		}
		if (exited) {
			s.pending = arrive;
			ev.k = Ev::EXIT;
			return true;
		}
		return arrive;
	}

	Ev runInner(State & s) {
		using namespace llvm;
		for (;;) {
			Frame & f = s.frames.back();
			const Op & op = f.fn->blocks[size_t(f.block)][size_t(f.pc)];
			if ((stats.steps & 1023) == 0 && late()) throw Fail("time", "out of time");
			if (++stats.steps > fuel) throw Fail("fuel", "out of steps in " + f.fn->name);
			auto V = [&](int x) { return get(f, x); };
			switch (op.o) {
			case O_ADD: f.slots[size_t(op.dst)] = T.add(V(op.a), V(op.b)); break;
			case O_SUB: f.slots[size_t(op.dst)] = T.sub(V(op.a), V(op.b)); break;
			case O_MUL: f.slots[size_t(op.dst)] = T.mul(V(op.a), V(op.b)); break;
			case O_UDIV:
			case O_UREM: {
				++stats.divChecks;
				N b = V(op.b);
				if (T.isConst(b) && T.cval(b) == 0) viol("division", "division by zero", op);
				f.slots[size_t(op.dst)] = op.o == O_UDIV ? T.udiv(V(op.a), b) : T.urem(V(op.a), b);
				break;
			}
			case O_SDIV:
			case O_SREM: {
				++stats.divChecks;
				N a = V(op.a), b = V(op.b);
				if (T.isConst(b) && T.cval(b) == 0) viol("division", "division by zero", op);
				i128 lo, hi;
				N r;
				if (T.isConst(a) && T.isConst(b)) {
					i64 x = sext64(T.cval(a), op.w), y = sext64(T.cval(b), op.w);
					r = T.con(op.w, op.o == O_SDIV ? u64(y == -1 ? -x : x / y) : u64(y == -1 ? 0 : x % y));
				} else if (T.srange(a, lo, hi) && lo >= 0 && T.isConst(b) && sext64(T.cval(b), op.w) > 0)
					r = op.o == O_SDIV ? T.udiv(a, b) : T.urem(a, b);
				else
					r = T.bin(op.o == O_SDIV ? KSDIV : KSREM, a, b);
				f.slots[size_t(op.dst)] = r;
				break;
			}
			case O_AND: f.slots[size_t(op.dst)] = T.and_(V(op.a), V(op.b)); break;
			case O_OR: f.slots[size_t(op.dst)] = T.or_(V(op.a), V(op.b)); break;
			case O_XOR: f.slots[size_t(op.dst)] = T.xor_(V(op.a), V(op.b)); break;
			case O_SHL: f.slots[size_t(op.dst)] = T.shl(V(op.a), unsigned(shiftAmount(s, V(op.b), op.w, op))); break;
			case O_LSHR: f.slots[size_t(op.dst)] = T.lshr(V(op.a), unsigned(shiftAmount(s, V(op.b), op.w, op))); break;
			case O_ASHR: f.slots[size_t(op.dst)] = T.ashr(V(op.a), unsigned(shiftAmount(s, V(op.b), op.w, op))); break;
			case O_ICMP: f.slots[size_t(op.dst)] = icmp(s, op.pred, V(op.a), V(op.b), op); break;
			case O_SEL: {
				N c = V(op.a);
				if (!T.isConst(c) && !s.assumed.empty()) c = underAssumptions(s, c);
				if (!T.isConst(c) && !T.has(c, HAS_DATA | HAS_JUNK)) split(c);
				f.slots[size_t(op.dst)] = T.sel(c, V(op.b), V(op.c));
				break;
			}
			case O_TRUNC: f.slots[size_t(op.dst)] = T.trunc(V(op.a), op.w); break;
			case O_ZEXT: f.slots[size_t(op.dst)] = T.zext(V(op.a), op.w); break;
			case O_SEXT: f.slots[size_t(op.dst)] = T.sext(V(op.a), op.w); break;
			case O_COPY: f.slots[size_t(op.dst)] = V(op.a); break;
			case O_ALLOCA: {
				string nm = op.I->hasName() ? op.I->getName().str() : "local";
				N p = T.base(mem(s, nm, op.imm));
				s.frames.back().slots[size_t(op.dst)] = p;
				break;
			}
			case O_LOAD: {
				++stats.loads;
				N off;
				u64 o = ptr(s, V(op.a), off, op);
				u64 bytes = DL.getTypeStoreSize(const_cast<llvm::Type *>(op.ty)).getFixedValue();
				bounds(s, o, off, bytes, op, "read");
				N v = loadTy(s, o, off, op.ty, op);
				s.frames.back().slots[size_t(op.dst)] = v;
				stats.sites.insert(op.I);
				break;
			}
			case O_STORE: {
				++stats.stores;
				N off;
				u64 o = ptr(s, V(op.a), off, op);
				u64 bytes = DL.getTypeStoreSize(const_cast<llvm::Type *>(op.ty)).getFixedValue();
				bounds(s, o, off, bytes, op, "write");
				storeTy(s, o, off, V(op.b), op.ty, op);
				stats.sites.insert(op.I);
				break;
			}
			case O_GEP: {
				N p = V(op.a);
				if (op.imm) p = T.add(p, T.con(64, op.imm));
				for (auto & x: op.idx) {
					N i = V(x.first);
					if (T.w(i) != 64) i = T.sext(i, 64);
					p = T.add(p, T.mulc(i, u64(x.second)));
				}
				f.slots[size_t(op.dst)] = p;
				break;
			}
			case O_BR: {
				Ev ev;
				if (take(s, op.edges[0], ev)) return ev;
				continue;
			}
			case O_CBR: {
				++stats.branches;
				bool t = decide(s, V(op.a), op);
				Ev ev;
				if (take(s, op.edges[t ? 0 : 1], ev)) return ev;
				continue;
			}
			case O_SWITCH: {
				++stats.branches;
				N v = V(op.a);
				size_t go = 0;
				for (size_t i = 0; i < op.cases.size(); ++i) {
					N c = T.eq(v, T.con(T.w(v), op.cases[i]));
					if (decide(s, c, op)) {
						go = i + 1;
						break;
					}
				}
				Ev ev;
				if (take(s, op.edges[go], ev)) return ev;
				continue;
			}
			case O_EXTRACT: {
				N v = V(op.a);
				for (unsigned i: op.path) v = T.kind(v) == KTUP ? N(T.arg(v, i)) : throw Fail("unsupported", "extractvalue");
				f.slots[size_t(op.dst)] = v;
				break;
			}
			case O_INSERT: {
				std::function<N(N, size_t)> ins = [&](N v, size_t d) -> N {
					if (d == op.path.size()) return V(op.b);
					vector<N> e;
					for (size_t i = 0; i < T.nargs(v); ++i) e.push_back(N(T.arg(v, i)));
					e[op.path[d]] = ins(e[op.path[d]], d + 1);
					return T.tup(e);
				};
				f.slots[size_t(op.dst)] = ins(V(op.a), 0);
				break;
			}
			case O_RET: {
				N r = op.a == INT_MIN ? 0 : V(op.a);
				bool has = op.a != INT_MIN;
				bool exited = false;
				for (auto & li: f.loops) exited |= li.verify != nullptr;
				int rd = f.retDst;
				s.objs.resize(f.objBase);
				s.frames.pop_back();
				Ev ev;
				if (s.frames.empty()) {
					s.ret = r;
					s.hasRet = has;
					ev.k = exited ? Ev::EXIT : Ev::RET;
					return ev;
				}
				if (rd >= 0) s.frames.back().slots[size_t(rd)] = r;
				if (afterCall(s, ev)) return ev;
				if (exited) {
					ev.k = Ev::EXIT;
					return ev;
				}
				continue;
			}
			case O_CALL: {
				Ev ev;
				int c = doCall(s, op, ev);
				if (c == 2) return ev;
				if (c == 1) continue; // frame pushed
				if (afterCall(s, ev)) return ev;
				continue;
			}
			case O_UNREACH: viol("unreachable", "control reaches a point the compiler takes for unreachable", op);
			case O_UNSUP: {
				string t;
				llvm::raw_string_ostream os(t);
				op.I->print(os);
				throw Fail("unsupported", "instruction " + t + " at " + locOf(op.I));
			}
			case O_NOP: break;
			}
			++s.frames.back().pc;
		}
	}
	// continue behind a call (invoke: at its normal destination)
	bool afterCall(State & s, Ev & ev) {
		Frame & f = s.frames.back();
		const Op & op = f.fn->blocks[size_t(f.block)][size_t(f.pc)];
		if (!op.edges.empty()) return take(s, op.edges[0], ev);
		++f.pc;
		return false;
	}

	// 0 done, 1 frame pushed
	int doCall(State & s, const Op & op, Ev & ev) {
		(void)ev;
		using namespace llvm;
		++stats.calls;
		Frame & f = s.frames.back();
		vector<N> a;
		a.reserve(op.args.size());
		for (int x: op.args) a.push_back(get(f, x));
		const Function * F = op.callee;
		if (!F) {
			N p = get(f, op.a), off;
			u64 o;
			if (resolve(p, o, off) && T.isConst(off) && T.cval(off) == 0 && s.objs[o]->kind == OB_FUNC) F = s.objs[o]->fn;
			else throw Fail("unsupported", "indirect call at " + locOf(op.I));
		}
		auto set = [&](N v) {
			if (op.dst >= 0) s.frames.back().slots[size_t(op.dst)] = v;
		};
		auto h = handlers.find(F);
		if (h != handlers.end()) {
			N r = 0;
			if (h->second(*this, s, op, a, r)) {
				set(r);
				return 0;
			}
		}
		if (F->isIntrinsic()) {
			switch (F->getIntrinsicID()) {
			case Intrinsic::lifetime_start:
			case Intrinsic::lifetime_end: {
				N off;
				u64 o;
				if (resolve(a[1], o, off) && o >= globals.size() && s.objs[o]->kind == OB_MEM) {
					Obj & ob = own(s, o);
					for (auto & c: ob.cells) c = Cell{};
				}
				return 0;
			}
			case Intrinsic::memcpy:
			case Intrinsic::memmove:
			case Intrinsic::memcpy_inline: copyMem(s, a[0], a[1], a[2], op); return 0;
			case Intrinsic::memset:
			case Intrinsic::memset_inline: {
				if (!T.isConst(a[2])) {
					Range r = T.range(a[2]);
					N c = T.eq(a[2], T.con(64, r.lo));
					if (r.exact && !T.has(a[2], HAS_DATA) && !T.isConst(c)) split(c);
					throw Fail("unsupported", "memset of symbolic size");
				}
				u64 k = T.cval(a[2]);
				if (!k) return 0;
				N off;
				u64 o = ptr(s, a[0], off, op);
				bounds(s, o, off, k, op, "write");
				storeBytes(s, o, off, vector<Cell>(k, Cell{a[1], 0, 1}), op);
				return 0;
			}
			case Intrinsic::bswap: set(T.bswap(a[0])); return 0;
			case Intrinsic::fshl:
			case Intrinsic::fshr: {
				unsigned w = op.w;
				if (!T.isConst(a[2])) throw Fail("unsupported", "rotate by a variable amount");
				u64 k = T.cval(a[2]) % w;
				if (F->getIntrinsicID() == Intrinsic::fshr) k = (w - k) % w;
				if (k == 0) set(F->getIntrinsicID() == Intrinsic::fshr ? a[1] : a[0]);
				else if (a[0] == a[1]) set(T.rotl(a[0], unsigned(k)));
				else set(T.xor_(T.shlX(a[0], unsigned(k)), T.lshrX(a[1], unsigned(w - k))));
				return 0;
			}
			case Intrinsic::umin:
			case Intrinsic::umax: {
				N c = T.ult(a[0], a[1]);
				if (!T.isConst(c) && !T.has(c, HAS_DATA | HAS_JUNK)) split(c);
				bool mn = F->getIntrinsicID() == Intrinsic::umin;
				set(T.sel(c, mn ? a[0] : a[1], mn ? a[1] : a[0]));
				return 0;
			}
			case Intrinsic::smin:
			case Intrinsic::smax: {
				N c = T.slt(a[0], a[1]);
				if (!T.isConst(c) && !T.has(c, HAS_DATA | HAS_JUNK)) split(c);
				bool mn = F->getIntrinsicID() == Intrinsic::smin;
				set(T.sel(c, mn ? a[0] : a[1], mn ? a[1] : a[0]));
				return 0;
			}
			case Intrinsic::expect:
			case Intrinsic::expect_with_probability: set(a[0]); return 0;
			case Intrinsic::is_constant: set(T.con(1, 0)); return 0;
			case Intrinsic::objectsize: set(T.con(64, ~u64(0))); return 0;
			case Intrinsic::stacksave: set(T.con(64, 0)); return 0;
			case Intrinsic::stackrestore: return 0;
			case Intrinsic::prefetch: return 0;
			case Intrinsic::launder_invariant_group:
			case Intrinsic::strip_invariant_group: set(a[0]); return 0;
			case Intrinsic::ctlz:
			case Intrinsic::cttz:
			case Intrinsic::ctpop: {
				if (!T.isConst(a[0])) throw Fail("unsupported", "bit count");
				u64 v = T.cval(a[0]);
				unsigned w = op.w;
				u64 r = F->getIntrinsicID() == Intrinsic::ctpop ? u64(__builtin_popcountll(v)) : v == 0 ? w : F->getIntrinsicID() == Intrinsic::ctlz ? u64(__builtin_clzll(v)) - (64 - w) : u64(__builtin_ctzll(v));
				set(T.con(w, r));
				return 0;
			}
			case Intrinsic::trap:
			case Intrinsic::ubsantrap: viol("trap", "a trap is reached", op);
			case Intrinsic::usub_with_overflow:
			case Intrinsic::uadd_with_overflow: {
				bool sub = F->getIntrinsicID() == Intrinsic::usub_with_overflow;
				N r = sub ? T.sub(a[0], a[1]) : T.add(a[0], a[1]);
				N o = sub ? T.ult(a[0], a[1]) : T.ult(r, a[0]);
				set(T.tup({r, o}));
				return 0;
			}
			default: throw Fail("unsupported", "intrinsic " + F->getName().str());
			}
		}
		string nm = F->getName().str();
		auto nh = named.find(nm);
		if (nh != named.end()) {
			N r = 0;
			if (nh->second(*this, s, op, a, r)) {
				set(r);
				return 0;
			}
		}
		if (nm == "memcpy" || nm == "memmove") {
			copyMem(s, a[0], a[1], a[2], op);
			set(a[0]);
			return 0;
		}
		if (nm == "wmemset" || nm == "wmemcpy" || nm == "wmemmove") {
			if (!T.isConst(a[2])) throw Fail("unsupported", nm + " of symbolic size");
			u64 k = T.cval(a[2]) * 4;
			set(a[0]);
			if (!k) return 0;
			if (nm != "wmemset") {
				copyMem(s, a[0], a[1], T.con(64, k), op);
				return 0;
			}
			N off;
			u64 o = ptr(s, a[0], off, op);
			bounds(s, o, off, k, op, "write");
			vector<Cell> c(k);
			for (u64 i = 0; i < k; ++i) c[i] = Cell{a[1], uint8_t(big ? 3 - i % 4 : i % 4), 1};
			storeBytes(s, o, off, c, op);
			return 0;
		}
		if (nm == "memcmp" || nm == "__builtin_memcmp" || nm == "bcmp") {
			if (!T.isConst(a[2])) throw Fail("unsupported", "memcmp of symbolic size");
			u64 k = T.cval(a[2]);
			N o1, o2;
			vector<Cell> c1(k), c2(k);
			if (k) {
				u64 p1 = ptr(s, a[0], o1, op), p2 = ptr(s, a[1], o2, op);
				bounds(s, p1, o1, k, op, "read");
				bounds(s, p2, o2, k, op, "read");
				readCells(s, p1, o1, k, c1.data(), op);
				readCells(s, p2, o2, k, c2.data(), op);
			}
			N r = T.con(32, 0);
			for (u64 i = k; i-- > 0;) {
				N x = fromCells(&c1[i], 1, 8, op), y = fromCells(&c2[i], 1, 8, op);
				r = T.sel(T.eq(x, y), r, T.sel(T.ult(x, y), T.con(32, ~u64(0)), T.con(32, 1)));
			}
			set(r);
			return 0;
		}
		if (nm == "strlen") {
			N off;
			u64 o = ptr(s, a[0], off, op);
			if (!T.isConst(off) || s.objs[o]->kind != OB_CONST) throw Fail("unsupported", "strlen");
			u64 i = T.cval(off), b = i;
			auto & c = s.objs[o]->cells;
			while (i < c.size() && !(T.isConst(c[i].n) && ((T.cval(c[i].n) >> (8 * c[i].i)) & 255) == 0)) ++i;
			set(T.con(64, i - b));
			return 0;
		}
		if (nm == "abort" || nm == "__assert_fail" || nm == "_ZSt9terminatev" || nm == "_ZSt21__glibcxx_assert_failPKciS0_S0_" || nm == "__clang_call_terminate") viol("assertion", "a failing assertion is reached (" + nm + ")", op);
		if (nm == "printf" || nm == "puts" || nm == "fprintf" || nm == "putchar") viol("assertion", "an assertion's failure report is reached (" + nm + ")", op);
		if (nm == "__cxa_throw" || nm == "__cxa_allocate_exception" || (nm.rfind("_ZSt", 0) == 0 && nm.find("throw") != string::npos)) viol("throw", "an exception is thrown (" + demangle(nm) + ")", op);
		if (nm == "_Znwm" || nm == "malloc" || nm == "_Znam") {
			if (!allowHeap) viol("allocation", "memory is allocated (" + demangle(nm) + ")", op);
			if (!T.isConst(a[0])) {
				Range r = T.range(a[0]);
				if (r.exact && !T.has(a[0], HAS_DATA) && r.hi - r.lo < 4096) {
					N c = T.eq(a[0], T.con(64, r.lo));
					if (!T.isConst(c)) split(c);
				}
				throw Fail("unsupported", "allocation of symbolic size");
			}
			set(T.base(mem(s, "heap", T.cval(a[0]))));
			return 0;
		}
		if (nm == "_ZdlPv" || nm == "_ZdlPvm" || nm == "free" || nm == "_ZdaPv") {
			if (!allowHeap) viol("allocation", "memory is released", op);
			return 0;
		}
		if (F->isDeclaration()) throw Fail("unsupported", "call of " + demangle(nm) + " at " + locOf(op.I));
		call(s, F, a, op.dst);
		return 1;
	}

	// ------------------------------------------------------------------ substitution on states
	void substState(State & s, const Arena::Map & m) {
		std::unordered_map<N, N> memo;
		auto f = [&](N a) { return T.has(a, T.substFlags) ? T.subst(a, m, memo) : a; };
		for (auto & fr: s.frames)
			for (auto & v: fr.slots) v = f(v);
		for (size_t i = globals.size(); i < s.objs.size(); ++i) {
			auto & o = s.objs[i];
			bool touch = T.has(o->size, T.substFlags) || (o->kind == OB_STREAM && T.has(o->start, T.substFlags));
			if (!touch)
				for (auto & c: o->cells)
					if (c.st == 1 && T.has(c.n, T.substFlags)) {
						touch = true;
						break;
					}
			if (!touch) continue;
			Obj & w = own(s, i);
			w.size = f(w.size);
			if (T.isConst(w.size)) w.csize = T.cval(w.size);
			if (w.kind == OB_STREAM) w.start = f(w.start);
			for (auto & c: w.cells)
				if (c.st == 1) c.n = f(c.n);
		}
		for (auto & g: s.ghosts) g = f(g);
		for (auto & a: s.assumed) a.first = f(a.first);
		s.ret = s.hasRet ? f(s.ret) : s.ret;
	}
	// still inside the loop being verified?
	static bool inside(const State & s, const VerifyRec * vr) {
		if (s.frames.size() <= vr->depth) return false;
		for (auto & l: s.frames[vr->depth].loops)
			if (l.verify == vr) return true;
		return false;
	}
	void substSym(State & s, N from, N to, N newSym, u64 off) {
		Arena::Map m;
		m[from] = to;
		substState(s, m);
		s.log.push_back({from, to, newSym, off});
	}

	N newSym(unsigned w, const string & base, u64 hi) {
		return T.sym(w, base + "'" + std::to_string(nsym++), HAS_SIZE, 0, hi);
	}
	static string stem(const string & s) {
		auto p = s.find('\'');
		return p == string::npos ? s : s.substr(0, p);
	}

	// first undecided comparison inside a condition
	bool findIcmp(N c, N & out) {
		const Node & x = T.n[c];
		if (x.k == KICMP) {
			out = c;
			return true;
		}
		if (x.k == KX) {
			for (uint32_t i = 0; i < x.len; i += 3)
				if (findIcmp(N(T.arg(c, i)), out)) return true;
			return false;
		}
		if (x.k == KMONO) {
			for (uint32_t i = 0; i < x.len; i += 2)
				if (findIcmp(N(T.arg(c, i)), out)) return true;
			return false;
		}
		if (x.k == KAND || x.k == KSEL) {
			for (uint32_t i = 0; i < x.len; ++i)
				if (findIcmp(N(T.arg(c, i)), out)) return true;
		}
		return false;
	}
	// choose symbol and threshold t: [0,t-1] | [t,hi]
	bool threshold(N cond, N & symOut, u64 & t) {
		N ic;
		std::set<N> at, seen;
		if (findIcmp(cond, ic)) {
			N a = N(T.arg(ic, 0)), b = N(T.arg(ic, 1));
			Arena::Diff d;
			if (T.w(a) > 8 && T.diff(a, b, d) && !d.l.t.empty()) {
				unsigned W = T.w(a);
				bool allSyms = true;
				for (auto & x: d.l.t) {
					N y = x.first;
					allSyms &= T.kind(y) == KSYM || (T.kind(y) == KX && coreSym(y) != ~0u);
				}
				if (allSyms) {
					for (auto & x: d.l.t) {
						N y = T.kind(x.first) == KSYM ? x.first : coreSym(x.first);
						if (T.range(y).lo == T.range(y).hi) continue;
						i128 ci = sext64(x.second, W);
						// others at their low end
						i128 c = sext64(d.l.c, W);
						i128 v;
						u64 P = T.n[ic].c;
						if (P == P_EQ) {
							if (c % ci) {
								v = -c / ci;
							} else
								v = -c / ci;
							if (v <= 0) v = 1;
						} else if (ci > 0) {
							v = -c >= 0 ? (-c + ci - 1) / ci : -1;
						} else {
							v = c >= 0 ? c / -ci + 1 : -1;
						}
						if (v < 1) v = 1;
						if (v > i128(T.range(y).hi)) {
							if (d.l.t.size() > 1) continue;
							v = i128(T.range(y).hi);
						}
						symOut = y;
						t = u64(v);
						return true;
					}
				}
			}
		}
		T.atoms(cond, at, seen);
		for (N a: at)
			if (T.kind(a) == KSYM && T.range(a).hi > T.range(a).lo) {
				symOut = a;
				t = 1;
				return true;
			}
		return false;
	}
	N coreSym(N y) { // zext of a symbol
		if (T.kind(y) == KX && T.nargs(y) == 3 && T.n[y].c == 0 && i64(T.arg(y, 1)) == 0) {
			N a = N(T.arg(y, 0));
			if (T.kind(a) == KSYM) return a;
		}
		return ~0u;
	}
	void doSplit(State & s, N cond, vector<State> & out) {
		++stats.splits;
		if (++s.splits > splitLimit) throw Fail("unproved", "too many case distinctions: " + T.str(cond) + where(s));
		// mark the loops we are in
		for (auto & f: s.frames)
			for (size_t i = nested || f.loops.empty() ? 0 : f.loops.size() - 1; i < f.loops.size(); ++i)
				const_cast<LoopC &>(f.fn->loops[size_t(f.loops[i].loop)]).hot = true;
		N y;
		u64 t;
		if (!threshold(cond, y, t)) throw Fail("unproved", "cannot decide " + T.str(cond) + where(s));
		u64 hi = T.range(y).hi;
		unsigned W = T.w(y);
		if (t > hi) throw Fail("unproved", "cannot decide " + T.str(cond) + where(s));
		string nm = stem(T.syms[T.n[y].c].name);
		State lowS = s;
		{
			N low = t == 1 ? T.con(W, 0) : newSym(W, nm, t - 1);
			substSym(lowS, y, low, t == 1 ? ~0u : low, 0);
		}
		{
			N ns = newSym(W, nm, hi - t);
			N to = T.add(ns, T.con(W, t));
			substSym(s, y, to, T.isConst(ns) ? ~0u : ns, t);
		}
		out.push_back(std::move(s));
		out.push_back(std::move(lowS));
	}
	string where(const State & s) const {
		if (s.frames.empty()) return "";
		auto & f = s.frames.back();
		auto & ops = f.fn->blocks[size_t(f.block)];
		return size_t(f.pc) < ops.size() ? " at " + locOf(ops[size_t(f.pc)].I) : "";
	}

	// ------------------------------------------------------------------ generalisation of two arrivals
	N au(N a, N b, N k, std::map<std::pair<N, N>, N> & memo) {
		if (a == b) return a;
		auto it = memo.find({a, b});
		if (it != memo.end()) return it->second;
		N r = auRaw(a, b, k, memo);
		memo[{a, b}] = r;
		return r;
	}
	N kTimes(N k, unsigned w, u64 d) { return T.mulc(T.w(k) == w ? k : T.trunc(k, w), d); }
	N auRaw(N a, N b, N k, std::map<std::pair<N, N>, N> & memo) {
		const N bad = ~0u;
		if (T.w(a) != T.w(b)) return bad;
		unsigned w = T.w(a);
		if (T.has(a, HAS_JUNK) || T.has(b, HAS_JUNK)) return bad;
		const Node x = T.n[a], y = T.n[b];
		if (y.k == KFN && y.len == 1 && T.isConst(a)) { // folded at zero?
			N z = T.fn(y.c >> 32, y.c & 0xffffffffu, w, {T.con(64, 0)});
			if (z == a) {
				N arg = au(T.con(64, 0), N(T.arg(b, 0)), k, memo);
				if (arg != bad) return T.fn(y.c >> 32, y.c & 0xffffffffu, w, {arg});
			}
		}
		if (y.k == KFN && y.len == 1 && !(x.k == KFN && x.c == y.c)) {
			N z = T.fn(y.c >> 32, y.c & 0xffffffffu, w, {T.con(64, 0)});
			if (z == a) {
				N arg = au(T.con(64, 0), N(T.arg(b, 0)), k, memo);
				if (arg != bad) return T.fn(y.c >> 32, y.c & 0xffffffffu, w, {arg});
			}
		}
		if (w >= 8 && x.k != KTUP && y.k != KTUP) {
			N d = T.sub(b, a);
			if (T.isConst(d)) return T.add(a, kTimes(k, w, T.cval(d)));
		}
		if (x.k == KMB && y.k == KMB && x.c == y.c) {
			N o = au(N(T.arg(a, 0)), N(T.arg(b, 0)), k, memo);
			return o == bad ? bad : T.mb(x.c, o);
		}
		if (x.k == y.k && x.c == y.c && x.len == y.len) {
			if (x.k == KFN || x.k == KTUP || x.k == KLOOK || x.k == KSEL || x.k == KICMP) {
				vector<N> v;
				for (uint32_t i = 0; i < x.len; ++i) {
					N o = au(N(T.arg(a, i)), N(T.arg(b, i)), k, memo);
					if (o == bad) return bad;
					v.push_back(o);
				}
				switch (x.k) {
				case KFN: return T.fn(x.c >> 32, x.c & 0xffffffffu, w, v);
				case KTUP: return T.tup(v);
				case KLOOK: {
					string t = T.tables[x.c];
					return T.look(t, v[0], w);
				}
				case KSEL: return T.sel(v[0], v[1], v[2]);
				default: return x.c == P_EQ ? T.eq(v[0], v[1]) : x.c == P_ULT ? T.ult(v[0], v[1]) : T.slt(v[0], v[1]);
				}
			}
		}
		if ((x.k == KX || y.k == KX) && T.has(a, HAS_DATA)) {
			u64 ca = 0, cb = 0;
			vector<Ent> ea, eb, r;
			T.toX(a, ca, ea);
			T.toX(b, cb, eb);
			if (ca != cb || ea.size() != eb.size()) return bad;
			vector<char> used(eb.size(), 0);
			// identical first
			vector<int> match(ea.size(), -1);
			for (size_t i = 0; i < ea.size(); ++i)
				for (size_t j = 0; j < eb.size(); ++j)
					if (!used[j] && ea[i].a == eb[j].a && ea[i].d == eb[j].d && ea[i].m == eb[j].m) {
						used[j] = 1;
						match[i] = int(j);
						break;
					}
			for (size_t i = 0; i < ea.size(); ++i) {
				if (match[i] >= 0) continue;
				for (size_t j = 0; j < eb.size(); ++j)
					if (!used[j] && ea[i].d == eb[j].d && ea[i].m == eb[j].m && T.kind(ea[i].a) == T.kind(eb[j].a) && T.kind(ea[i].a) != KMONO) {
						used[j] = 1;
						match[i] = int(j);
						break;
					}
				if (match[i] < 0) return bad;
			}
			for (size_t i = 0; i < ea.size(); ++i) {
				N o = au(ea[i].a, eb[size_t(match[i])].a, k, memo);
				if (o == bad) return bad;
				u64 cc = 0;
				vector<Ent> t;
				T.toX(o, cc, t);
				if (t.size() != 1 || cc) return bad;
				r.push_back({t[0].a, t[0].d + ea[i].d, ea[i].m});
			}
			return T.mkX(w, ca, r);
		}
		return bad;
	}

	// canonical dead slots
	void scrub(State & s) {
		Frame & f = s.frames.back();
		auto & live = f.fn->liveIn[size_t(f.loops.back().loop)];
		for (size_t i = 0; i < f.slots.size(); ++i)
			if (!live[i]) f.slots[i] = 0;
	}

	bool generalise(const State & z, const State & s, N m, N mLast, N j, N k, State & A, string & why) {
		State a0 = z, a1 = s;
		Arena::Map m0, m1;
		m0[m] = j;
		m1[mLast] = j;
		substState(a0, m0);
		substState(a1, m1);
		if (a0.frames.size() != a1.frames.size() || a0.objs.size() != a1.objs.size() || a0.ghosts.size() != a1.ghosts.size()) {
			why = "shape";
			return false;
		}
		A = a1;
		std::map<std::pair<N, N>, N> memo;
		for (size_t f = 0; f < A.frames.size(); ++f) {
			auto & p = a0.frames[f];
			auto & q = a1.frames[f];
			if (p.fn != q.fn || p.block != q.block || p.pc != q.pc) {
				why = "position";
				return false;
			}
			for (size_t i = 0; i < q.slots.size(); ++i) {
				N r = au(p.slots[i], q.slots[i], k, memo);
				if (trace && r == ~0u) fprintf(stderr, "   widen slot %zu: %s | %s\n", i, T.str(p.slots[i]).c_str(), T.str(q.slots[i]).c_str());
				if (r == ~0u) r = T.w(q.slots[i]) ? junk(T.w(q.slots[i])) : q.slots[i];
				A.frames[f].slots[i] = r;
			}
		}
		for (size_t o = globals.size(); o < A.objs.size(); ++o) {
			if (a0.objs[o] == a1.objs[o]) continue;
			auto & p = *a0.objs[o];
			auto & q = *a1.objs[o];
			if (p.kind != q.kind || p.cells.size() != q.cells.size()) {
				why = "object";
				return false;
			}
			Obj & w = own(A, o);
			w.size = au(p.size, q.size, k, memo);
			if (w.size == ~0u) {
				why = "object size";
				return false;
			}
			if (w.kind == OB_STREAM) {
				w.start = au(p.start, q.start, k, memo);
				if (w.start == ~0u) {
					why = "stream";
					return false;
				}
			}
			for (size_t i = 0; i < w.cells.size(); ++i) {
				auto & c = p.cells[i];
				auto & d = q.cells[i];
				if (c == d) continue;
				if (c.st == 1 && d.st == 1 && c.i == d.i) {
					N r = au(c.n, d.n, k, memo);
					if (r != ~0u) {
						w.cells[i].n = r;
						continue;
					}
				}
				if (c.st == 1 && d.st == 1) { // same byte written another way?
					Op none;
					N r1 = fromCells(&c, 1, 8, none), r2 = fromCells(&d, 1, 8, none);
					N r = au(r1, r2, k, memo);
					if (r != ~0u) {
						w.cells[i] = Cell{r, 0, 1};
						continue;
					}
				}
				if (trace) fprintf(stderr, "   widen %s[%zu]: %s.%d(%d) | %s.%d(%d)\n", w.name.c_str(), i, T.str(c.n).c_str(), c.i, c.st, T.str(d.n).c_str(), d.i, d.st);
				w.cells[i] = Cell{0, 0, 2};
			}
		}
		for (size_t g = 0; g < A.ghosts.size(); ++g) {
			N r = au(a0.ghosts[g], a1.ghosts[g], k, memo);
			if (r == ~0u) {
				why = "ghost";
				return false;
			}
			A.ghosts[g] = r;
		}
		return true;
	}
	bool sameByte(const Cell & a, const Cell & b) {
		if (a == b) return true;
		if (a.st != 1 || b.st != 1) return false;
		Op none;
		try {
			return fromCells(&a, 1, 8, none) == fromCells(&b, 1, 8, none);
		} catch (Fail &) { return false; }
	}
	// is s covered by A (already instantiated)? collects differences; what: 0 slot, 1 cell, 2 other
	bool covered(const State & A, const State & s, vector<std::pair<int, std::pair<size_t, size_t>>> & mism) {
		bool ok = true;
		if (A.frames.size() != s.frames.size() || A.objs.size() != s.objs.size()) {
			mism.push_back({2, {0, 0}});
			return false;
		}
		for (size_t f = 0; f < A.frames.size(); ++f)
			for (size_t i = 0; i < A.frames[f].slots.size(); ++i) {
				N a = A.frames[f].slots[i], b = s.frames[f].slots[i];
				if (a == b) continue;
				if (T.kind(a) == KSYM && T.has(a, HAS_JUNK) && !isUndef(a)) continue;
				mism.push_back({0, {f, i}});
				ok = false;
			}
		for (size_t o = globals.size(); o < A.objs.size(); ++o) {
			if (A.objs[o] == s.objs[o]) continue;
			auto & p = *A.objs[o];
			auto & q = *s.objs[o];
			if (p.kind != q.kind || p.size != q.size || p.cells.size() != q.cells.size() || (p.kind == OB_STREAM && p.start != q.start)) {
				mism.push_back({2, {o, 0}});
				ok = false;
				continue;
			}
			for (size_t i = 0; i < p.cells.size(); ++i) {
				if (p.cells[i].st == 2 || sameByte(p.cells[i], q.cells[i])) continue;
				mism.push_back({1, {o, i}});
				ok = false;
			}
		}
		for (size_t g = 0; g < A.ghosts.size(); ++g)
			if (A.ghosts[g] != s.ghosts[g]) {
				mism.push_back({2, {g, 1}});
				ok = false;
			}
		return ok;
	}

	int depth = 0;
	bool trace = getenv("CTA_TRACE") != nullptr;
	// try to close the loop at whose head s has just arrived; on success the exits are appended to work
	bool accelerate(State & s, vector<State> & work, vector<Viol> & viols) {
		auto & li = s.frames.back().loops.back();
		int loopId = li.loop;
		size_t fdepth = s.frames.size() - 1;
		int p = 0;
		for (auto z = li.snaps; z && p < 34; z = z->prev) {
			++p;
			const State & Z = *z->st;
			// exactly one symbol chain replaced since then
			N m = ~0u, cur = ~0u;
			u64 c = 0;
			bool ok = true;
			for (size_t i = Z.log.size(); i < s.log.size(); ++i) {
				auto & l = s.log[i];
				if (m == ~0u) {
					m = l.from;
					cur = l.from;
				}
				if (l.from != cur || l.to == ~0u) {
					ok = false;
					break;
				}
				c += l.off;
				cur = l.to;
			}
			if (!ok) return false;
			if (m == ~0u || c == 0) continue;
			if (T.range(cur).hi < 64) return false;
			u64 hi = T.range(m).hi;
			N j = newSym(T.w(m), "j", hi);
			N k = newSym(64, "k", hi);
			State A;
			string why;
			if (!generalise(Z, s, m, cur, j, k, A, why)) {
				if (trace) fprintf(stderr, "%*sno generalisation: %s\n", depth, "", why.c_str());
				continue;
			}
			for (int round = 0; round < 6; ++round) {
				VerifyRec vr;
				vr.depth = fdepth;
				vr.loop = loopId;
				vr.j = j;
				vr.k = k;
				vr.step = c;
				A.log = Z.log;
				A.log.push_back({m, T.add(j, T.mulc(T.w(m) == 64 ? k : T.trunc(k, T.w(m)), c)), ~0u, 0});
				A.assumed = s.assumed;
				vr.logBase = A.log.size();
				auto & fl = A.frames[fdepth].loops;
				// inner instances below this loop keep their own; this one verifies
				while (!fl.empty() && fl.back().loop != loopId) fl.pop_back();
				fl.back().snaps = nullptr;
				fl.back().verify = &vr;
				State A0 = A;
				vr.A = &A0;
				vector<State> w2{A};
				vector<Viol> v2;
				vector<State> fin;
				++depth;
				int keep = splitLimit;
				// (early guesses are often wrong: little effort for them)
				int effort = nested || li.tries <= 4 ? 300 : li.tries <= 12 ? 1000 : splitLimit;
				splitLimit = std::min(splitLimit, A.splits + effort);
				try {
					exploreList(w2, fin, v2, &vr);
					splitLimit = keep;
				} catch (Fail & e) {
					splitLimit = keep;
					--depth;
					if (e.kind == "fuel") throw;
					vr.failed = true;
					vr.why = e.what();
					vr.mism.clear();
					++depth;
				}
				--depth;
				if (!v2.empty()) {
					vr.failed = true;
					if (vr.why.empty()) vr.why = v2[0].kind + ": " + v2[0].msg + " at " + v2[0].where;
					vr.mism.clear();
				}
				if (!vr.failed && vr.mism.empty() && vr.arrivals > 0) {
					++stats.loopsClosed;
					if (trace) fprintf(stderr, "%*sclosed loop %d period %d step %llu exits %zu\n", depth, "", loopId, p, (unsigned long long)c, vr.exits.size());
					// (also the snapshot itself must be the instance k=0)
					for (auto & e: vr.exits) {
						e.splits = s.splits;
						work.push_back(std::move(e));
					}
					return true;
				}
				if (trace) {
					fprintf(stderr, "%*sloop %d in %s period %d: not inductive (%s, %zu differences, %d arrivals)\n", depth, "", loopId, s.frames[fdepth].fn->name.c_str(), p, vr.why.c_str(), vr.mism.size(), vr.arrivals);
					for (auto & x: vr.mism) fprintf(stderr, "%*s   %d %zu %zu\n", depth, "", x.first, x.second.first, x.second.second);
				}
				if (vr.failed || vr.mism.empty()) break;
				// weaken
				A = A0;
				bool can = true;
				for (auto & x: vr.mism) {
					if (x.first == 0) {
						N & v = A.frames[x.second.first].slots[x.second.second];
						v = junk(T.w(v));
					} else if (x.first == 1)
						own(A, x.second.first).cells[x.second.second] = Cell{0, 0, 2};
					else
						can = false;
				}
				if (!can) break;
			}
		}
		(void)viols;
		return false;
	}

	bool lastLap(const State & s, const VerifyRec & vr) {
		N cur = vr.j;
		for (size_t i = vr.logBase; i < s.log.size(); ++i) {
			auto & l = s.log[i];
			if (l.from != cur) continue;
			if (l.to == ~0u) return true;
			cur = l.to;
		}
		return false;
	}
	void onVerify(State & s, VerifyRec & vr) {
		++vr.arrivals;
		// chain from j; restrictions of other symbols apply to the invariant as well (it holds for all their values)
		N cur = vr.j;
		u64 c = 0;
		bool ok = true;
		vector<SubLog> others;
		for (size_t i = vr.logBase; i < s.log.size(); ++i) {
			auto & l = s.log[i];
			if (l.from != cur) {
				others.push_back(l);
				continue;
			}
			if (l.to == ~0u) {
				ok = false;
				break;
			}
			c += l.off;
			cur = l.to;
		}
		if (!ok || c == 0 || c % vr.step) {
			vr.failed = true;
			vr.why = "progress";
			return;
		}
		State want = *vr.A;
		{
			Arena::Map m;
			m[vr.j] = cur;
			m[vr.k] = T.add(vr.k, T.con(T.w(vr.k), c / vr.step));
			substState(want, m);
		}
		for (auto & l: others) {
			Arena::Map m;
			m[l.from] = l.node;
			substState(want, m);
		}
		vector<std::pair<int, std::pair<size_t, size_t>>> mm;
		if (!covered(want, s, mm)) {
			if (trace && mm.size() < 6)
				for (auto & x: mm) {
					if (x.first == 0) fprintf(stderr, "   slot %zu: have %s want %s\n", x.second.second, T.str(s.frames[x.second.first].slots[x.second.second]).c_str(), T.str(want.frames[x.second.first].slots[x.second.second]).c_str());
					if (x.first == 1) {
						auto &h = s.objs[x.second.first]->cells[x.second.second], &wc = want.objs[x.second.first]->cells[x.second.second];
						fprintf(stderr, "   %s[%zu]: have %s.%d(%d) want %s.%d(%d)\n", s.objs[x.second.first]->name.c_str(), x.second.second, T.str(h.n).c_str(), h.i, h.st, T.str(wc.n).c_str(), wc.i, wc.st);
					}
				}
			for (auto & x: mm)
				if (std::find(vr.mism.begin(), vr.mism.end(), x) == vr.mism.end()) vr.mism.push_back(x);
		}
	}

	// data conditions: fork (data mode)
	std::function<bool(Interp &, State &, N, vector<State> &)> onData;

	void exploreList(vector<State> & work, vector<State> & finals, vector<Viol> & viols, VerifyRec * vr) {
		while (!work.empty()) {
			State s = std::move(work.back());
			work.pop_back();
			if (vr && !inside(s, vr)) {
				vr->exits.push_back(std::move(s));
				continue;
			}
			if (s.frames.empty()) {
				finals.push_back(std::move(s));
				continue;
			}
			bool go = true;
			while (go) {
				Ev e = run(s);
				switch (e.k) {
				case Ev::RET:
					++stats.paths;
					if (vr) vr->exits.push_back(std::move(s));
					else finals.push_back(std::move(s));
					go = false;
					break;
				case Ev::SPLIT:
					doSplit(s, e.cond, work);
					go = false;
					break;
				case Ev::DATA: {
					if (dataBranchIsViolation) {
						viols.push_back({"data-dependent", "a branch depends on message content", where(s).substr(4)});
						go = false;
						break;
					}
					if (onData && onData(*this, s, e.cond, work)) {
						go = false;
						break;
					}
					// fork on the condition
					if (s.assumed.size() > size_t(maxConds)) throw Fail("unproved", "too many conditions on content, the last " + T.str(e.cond, 6).substr(0, 300) + where(s));
					N ic;
					if (!findIcmp(e.cond, ic)) ic = e.cond;
					// (a comparison of something selected: first what selects)
					for (N d; T.kind(ic) == KICMP && ((T.kind(N(T.arg(ic, 0))) == KSEL && findIcmp(N(T.arg(ic, 0)), d)) || (T.kind(N(T.arg(ic, 1))) == KSEL && findIcmp(N(T.arg(ic, 1)), d)));) ic = d;
					if (trace) fprintf(stderr, "fork on %s%s\n", T.str(ic, 4).substr(0, 200).c_str(), where(s).c_str());
					State t = s;
					t.assumed.push_back({ic, true});
					s.assumed.push_back({ic, false});
					work.push_back(std::move(t));
					work.push_back(std::move(s));
					go = false;
					break;
				}
				case Ev::VIOL:
					viols.push_back(e.v);
					go = false;
					break;
				case Ev::EXIT:
					// (of the loop being verified, possibly of several)
					if (vr && inside(s, vr)) break;
					if (vr) vr->exits.push_back(std::move(s));
					else work.push_back(std::move(s));
					go = false;
					break;
				case Ev::VERIFY:
					scrub(s);
					if (lastLap(s, *vr)) {
						// arrives at the head once more, but with nothing left to count: followed like an exit
						auto & li = s.frames.back().loops.back();
						li.verify = nullptr;
						li.snaps = nullptr;
						li.tries = 0;
						s.pending = true;
						vr->exits.push_back(std::move(s));
						go = false;
						break;
					}
					onVerify(s, *vr);
					go = false;
					break;
				case Ev::ARRIVE: {
					scrub(s);
					auto & li = s.frames.back().loops.back();
					if (++li.tries > maxTries) throw Fail("unproved", "no invariant found for the loop" + where(s));
					if (li.snaps && accelerate(s, work, viols)) {
						go = false;
						break;
					}
					auto sn = std::make_shared<Snap>();
					sn->st = std::make_shared<State>(s);
					sn->prev = s.frames.back().loops.back().snaps;
					auto & l2 = s.frames.back().loops.back();
					l2.snaps = sn;
					++l2.nsnaps;
					break;
				}
				}
			}
			if (vr && vr->failed) return;
		}
	}
	struct Result {
		vector<State> finals;
		vector<Viol> viols;
	};
	Result explore(State s) {
		Result r;
		vector<State> w;
		w.push_back(std::move(s));
		exploreList(w, r.finals, r.viols, nullptr);
		return r;
	}
};

// ---------------------------------------------------------------------- evaluation on pseudo-random assignments
struct Sampler { // (of terms: the program is not run)
	const Arena & T;
	u64 seed;
	std::unordered_map<N, u64> fixed, memo;
	std::function<bool(Sampler &, N, u64 &)> fnEval; // summaries with a definition
	bool bad = false;                                // this assignment could not be evaluated faithfully
	std::map<u64, vector<vector<u64>>> groups;       // runs of states between blocks, by first block
	Sampler(const Arena & T, u64 seed): T(T), seed(seed) { }
	static u64 mix(u64 x) {
		x ^= x >> 33;
		x *= 0xff51afd7ed558ccdull;
		x ^= x >> 33;
		x *= 0xc4ceb9fe1a85ec53ull;
		x ^= x >> 33;
		return x;
	}
	u64 ev(N a) {
		auto f = fixed.find(a);
		if (f != fixed.end()) return f->second;
		auto it = memo.find(a);
		if (it != memo.end()) return it->second;
		u64 r = raw(a) & full(T.w(a) ? T.w(a) : 64);
		memo[a] = r;
		return r;
	}
	u64 raw(N a) {
		const Node x = T.n[a];
		auto arg = [&](size_t i) { return N(T.pool[x.off + i]); };
		switch (x.k) {
		case KX: {
			u64 v = x.c;
			for (uint32_t i = 0; i < x.len; i += 3) {
				u64 q = ev(arg(i));
				int d = int(i64(T.pool[x.off + i + 1]));
				u64 s = d >= 64 || d <= -64 ? 0 : d >= 0 ? q >> d : q << -d;
				v ^= s & T.pool[x.off + i + 2];
			}
			return v;
		}
		case KADD: {
			u64 v = x.c;
			for (uint32_t i = 0; i < x.len; i += 2) v += ev(arg(i)) * T.pool[x.off + i + 1];
			return v;
		}
		case KMONO: {
			u64 v = ~u64(0);
			for (uint32_t i = 0; i < x.len; i += 2) {
				u64 q = ev(arg(i));
				int d = int(i64(T.pool[x.off + i + 1]));
				v &= d >= 64 || d <= -64 ? 0 : d >= 0 ? q >> d : q << -d;
			}
			return v;
		}
		case KSYM: {
			auto & si = T.syms[x.c];
			u64 h = mix(seed * 77 + x.c * 0x9e3779b97f4a7c15ull + 1);
			u64 span = si.hi - si.lo;
			if (x.fl & HAS_SIZE) {
				if ((h & 3) == 0 || seed % 3 == 0) return si.lo + std::min<u64>(span, (h >> 8) & 7);
				if ((h & 3) == 1) return si.hi - std::min<u64>(span, (h >> 8) & 7);
				if ((h & 3) == 2 && span > 70000) { // just behind a power of two
					unsigned b = 16 + unsigned(h >> 16) % 48;
					u64 v = (u64(1) << b) + ((h >> 8) & 7);
					if (v >= si.lo && v <= si.hi) return v;
				}
			}
			return span == ~u64(0) ? h : si.lo + h % (span + 1);
		}
		case KBASE: return (x.c + 1) << 40;
		case KMB: return mix(seed + x.c * 1315423911u + ev(arg(0)) * 0x9e3779b97f4a7c15ull) & 255;
		case KTUP:
		case KFN: {
			u64 fv;
			if (x.k == KFN && fnEval && fnEval(*this, a, fv)) return fv;
			u64 h = mix(seed ^ (x.c + 7));
			for (uint32_t i = 0; i < x.len; ++i) h = mix(h * 31 + ev(arg(i)) + 1);
			return h;
		}
		case KLOOK: {
			u64 q = ev(arg(0)), v = 0;
			auto & t = T.tables[x.c];
			if (q + x.w / 8 <= t.size()) memcpy(&v, t.data() + q, x.w / 8);
			return v;
		}
		case KSEL: return ev(arg(0)) & 1 ? ev(arg(1)) : ev(arg(2));
		default: {
			u64 A = ev(arg(0)), B = ev(arg(1));
			unsigned W = T.w(arg(0));
			switch (x.k) {
			case KICMP: return x.c == P_EQ ? A == B : x.c == P_ULT ? A < B : sext64(A, W) < sext64(B, W);
			case KAND: return A & B;
			case KMUL: return A * B;
			case KUDIV: return B ? A / B : 0;
			case KUREM: return B ? A % B : 0;
			case KSHL: return B >= W ? 0 : A << B;
			case KLSHR: return B >= W ? 0 : A >> B;
			case KASHR: return B >= W ? 0 : u64(sext64(A, W) >> B);
			default: return mix(A + 3 * B);
			}
		}
		}
	}
};

} // namespace cta
