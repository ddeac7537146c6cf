// What functions may do besides computing: a walk over the call graph from the entry points, every reachable
// instruction looked at once.
#pragma once
#include "stream.hpp"
#include <deque>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>

namespace cta {
struct Effects {
	Mod m;
	u64 nf = 0, ni = 0, nc = 0, roots = 0;
	std::map<const llvm::Function *, const llvm::Function *> parent;

	static string loc(const llvm::Instruction & I) {
		if (auto * L = I.getDebugLoc().get()) {
			string f = L->getFilename().str();
			auto p = f.find("include/");
			if (p != string::npos && f.find("cthash") != string::npos) f = f.substr(p + 8);
			else p = f.rfind('/'), f = p == string::npos ? f : f.substr(p + 1);
			return f + ":" + std::to_string(L->getLine());
		}
		return "?";
	}
	static string shortName(const llvm::Function & F) {
		string s = llvm::demangle(F.getName().str());
		return s.size() > 110 ? s.substr(0, 107) + "..." : s;
	}
	string path(const llvm::Function * F) {
		vector<string> v;
		for (int n = 0; F && n < 60; F = parent[F], ++n) v.push_back(shortName(*F));
		string s = v.back();
		if (v.size() > 1) s += " -> " + (v.size() > 2 ? string(v.size() > 3 ? "... -> " : "") + v[1] + " -> " : string()) + v[0];
		return s;
	}
	// a function that only returns a constant
	static llvm::Constant * constantFn(const llvm::Function * F) {
		if (!F || F->isDeclaration() || F->size() != 1) return nullptr;
		for (auto & I: F->front()) {
			if (llvm::isa<llvm::DbgInfoIntrinsic>(I)) continue;
			if (auto * r = llvm::dyn_cast<llvm::ReturnInst>(&I)) return r->getReturnValue() ? llvm::dyn_cast<llvm::Constant>(r->getReturnValue()) : nullptr;
			return nullptr;
		}
		return nullptr;
	}
	static llvm::ConstantInt * value(llvm::Value * v) {
		if (auto * c = llvm::dyn_cast<llvm::ConstantInt>(v)) return c;
		if (auto * cb = llvm::dyn_cast<llvm::CallBase>(v))
			if (auto * c = constantFn(cb->getCalledFunction())) return llvm::dyn_cast<llvm::ConstantInt>(c);
		return nullptr;
	}
	static void globalsOf(const llvm::Value * v, std::set<const llvm::GlobalVariable *> & out, int depth = 0) {
		if (auto * g = llvm::dyn_cast<llvm::GlobalVariable>(v)) out.insert(g);
		else if (auto * c = llvm::dyn_cast<llvm::Constant>(v); c && depth < 8 && !llvm::isa<llvm::Function>(v))
			for (auto & o: c->operands()) globalsOf(o.get(), out, depth + 1);
	}
	// failure of an assertion: reports and stops
	static bool reporting(const string & n) {
		for (auto x: {"printf", "puts", "fprintf", "putchar", "fputs", "fputc", "fflush", "abort", "__assert_fail", "_ZSt9terminatev", "__clang_call_terminate", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "vprintf", "fwrite", "perror"})
			if (n == x) return true;
		return false;
	}
	static string classify(const string & n) {
		for (auto x: {"memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "__gxx_personality_v0", "__cxa_begin_catch", "abort", "__assert_fail", "_ZSt9terminatev", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "__clang_call_terminate", "wmemcmp", "wcslen", "memchr"})
			if (n == x) return "";
		if (n.rfind("_Zn", 0) == 0 || n.rfind("_Zd", 0) == 0 || n == "malloc" || n == "calloc" || n == "realloc" || n == "free" || n == "aligned_alloc" || n == "posix_memalign") return "allocates or frees memory";
		if (n == "__cxa_guard_acquire" || n == "__cxa_guard_release" || n == "__cxa_guard_abort" || n == "__cxa_atexit" || n == "__cxa_thread_atexit") return "initialises a static object";
		if (n.rfind("__cxa_throw", 0) == 0 || n.rfind("__cxa_allocate_exception", 0) == 0 || n == "__cxa_rethrow") return "throws";
		if (n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != string::npos) return "may throw";
		if (n.rfind("pthread_", 0) == 0 || n.find("mutex") != string::npos || n.find("__atomic") != string::npos) return "synchronises";
		if (n.rfind("_ZNSo", 0) == 0 || n.rfind("_ZStls", 0) == 0 || n.find("basic_ostream") != string::npos || n.rfind("_ZNSt8ios_base", 0) == 0) return "does output";
		return "leaves the analysed code";
	}

	void run(const string & file, Report & R) {
		using namespace llvm;
		SMDiagnostic err;
		m.M = parseIRFile(file, err, m.ctx);
		if (!m.M) throw std::runtime_error("cannot read " + file);
		std::deque<const Function *> q;
		for (auto & F: *m.M)
			if (F.getName().starts_with("h_") && !F.isDeclaration()) {
				q.push_back(&F);
				parent[&F] = nullptr;
				++roots;
			}
		std::set<string> seen;
		auto bad = [&](const Function & F, const Instruction & I, const string & w) {
			string s = shortName(F) + " (" + loc(I) + ") " + w;
			if (seen.insert(s).second) R.bad(s + "; reached from " + path(&F));
		};
		auto open = [&](const Function & F, const Instruction & I, const string & w) {
			string s = shortName(F) + " (" + loc(I) + ") " + w;
			if (seen.insert(s).second) R.open(s + "; reached from " + path(&F));
		};
		while (!q.empty()) {
			const Function & F = *q.front();
			q.pop_front();
			++nf;
			bool clean = true;
			// blocks that run
			std::set<const BasicBlock *> live;
			vector<const BasicBlock *> w{&F.getEntryBlock()};
			auto succ = [&](const BasicBlock * b) {
				vector<const BasicBlock *> r;
				auto * t = b->getTerminator();
				if (auto * br = dyn_cast<BranchInst>(t); br && br->isConditional()) {
					if (auto * c = value(br->getCondition())) {
						r.push_back(br->getSuccessor(c->isZero()));
						return r;
					}
				}
				for (unsigned i = 0; i < t->getNumSuccessors(); ++i) r.push_back(t->getSuccessor(i));
				return r;
			};
			while (!w.empty()) {
				auto * b = w.back();
				w.pop_back();
				if (!live.insert(b).second) continue;
				for (auto * x: succ(b)) w.push_back(x);
			}
			// blocks that only end in a failure
			std::set<const BasicBlock *> doomed;
			for (bool more = true; more;) {
				more = false;
				for (auto * b: live) {
					if (doomed.count(b)) continue;
					auto s = succ(b);
					bool d = s.empty() ? isa<UnreachableInst>(b->getTerminator()) : true;
					for (auto * x: s) d = d && doomed.count(x);
					for (auto & I: *b)
						if (auto * cb = dyn_cast<CallBase>(&I); cb && cb->getCalledFunction())
							d |= cb->getCalledFunction()->getName() == "abort";
					if (d) doomed.insert(b), more = true;
				}
			}
			for (auto * b: live)
				for (auto & I: *b) {
					if (isa<DbgInfoIntrinsic>(I)) continue;
					++ni;
					if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<FenceInst>(I) || I.isAtomic()) bad(F, I, "synchronises with other threads (atomic operation)"), clean = false;
					std::set<const GlobalVariable *> gs;
					for (auto & o: I.operands())
						if (!isa<Function>(o.get())) globalsOf(o.get(), gs);
					for (auto * g: gs)
						if (!g->isConstant()) {
							string n = llvm::demangle(g->getName().str());
							if (doomed.count(b) && (n == "stderr" || n == "stdout")) continue;
							bad(F, I, string("uses the ") + (g->isThreadLocal() ? "thread-local" : "static") + " object " + n);
							clean = false;
						}
					auto * cb = dyn_cast<CallBase>(&I);
					if (!cb) continue;
					++nc;
					if (auto * ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) {
						if (!ia->getAsmString().empty()) bad(F, I, "contains inline assembly"), clean = false;
						continue;
					}
					auto * C = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
					if (!C) {
						open(F, I, "calls through a pointer");
						clean = false;
						continue;
					}
					if (C->isIntrinsic()) {
						if (C->getIntrinsicID() == Intrinsic::threadlocal_address) bad(F, I, "uses a thread-local object"), clean = false;
						continue;
					}
					if (!C->isDeclaration()) {
						if (!parent.count(C)) {
							parent[C] = &F;
							q.push_back(C);
						}
						continue;
					}
					string n = C->getName().str(), k = classify(n);
					if (k.empty() || (doomed.count(b) && reporting(n))) continue;
					string what = k + " (" + llvm::demangle(n).substr(0, 80) + ")";
					if (k == "may throw" || k == "leaves the analysed code") {
						// pure functions of the C library and failures the other analyses look at
						if (k == "leaves the analysed code" && C->doesNotAccessMemory()) continue;
						if (k == "may throw") open(F, I, what);
						else bad(F, I, what);
					} else bad(F, I, what);
					clean = false;
				}
			R.obligations += 1;
			if (clean) R.discharged += 1;
		}
		R.count("entry points", roots);
		R.count("functions walked", nf);
		R.count("instructions looked at", ni);
		R.count("call sites", nc);
		if (!roots) throw std::runtime_error("no entry points");
	}
};
} // namespace cta
