// Loading a module and bringing it into the form the interpreter works on: everything inlined into the entry
// points except the functions which are summarised, locals in registers. No optimisation which could hide a
// construct from the analysis (no loop, vector or library-call transformation) is run.
#pragma once
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/Transforms/Scalar/DCE.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/InstSimplifyPass.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <functional>
#include <memory>
#include <string>

namespace cta {
struct Mod {
	llvm::LLVMContext ctx;
	std::unique_ptr<llvm::Module> M;
};
// the control flow as it is written: no branch is turned into a selection, none is dropped for leading nowhere
inline bool & asWritten() {
	static bool b = false;
	return b;
}
inline std::unique_ptr<Mod> loadModule(const std::string & path, const std::function<bool(const std::string & demangled)> & keep) {
	using namespace llvm;
	auto m = std::make_unique<Mod>();
	SMDiagnostic err;
	m->M = parseIRFile(path, err, m->ctx);
	if (!m->M) throw std::runtime_error("cannot read " + path + ": " + err.getMessage().str());
	Module & M = *m->M;
	SmallPtrSet<Function *, 16> kept;
	for (auto & F: M) {
		if (F.isDeclaration()) continue;
		bool entry = F.getName().starts_with("h_");
		bool k = !entry && keep(demangle(F.getName().str()));
		F.removeFnAttr(Attribute::AlwaysInline);
		F.removeFnAttr(Attribute::OptimizeNone);
		F.removeFnAttr(Attribute::NoInline);
		F.removeFnAttr(Attribute::InlineHint);
		F.removeFnAttr("flatten");
		if (entry || k) F.addFnAttr(Attribute::NoInline);
		else F.addFnAttr(Attribute::AlwaysInline);
		if (k) kept.insert(&F);
		if (!entry && !k && F.hasExternalLinkage() == false && !F.hasLocalLinkage()) {
			F.setComdat(nullptr);
			F.setLinkage(GlobalValue::InternalLinkage);
		}
	}
	for (auto & F: M)
		for (auto & B: F)
			for (auto & I: B)
				if (auto * cb = dyn_cast<CallBase>(&I)) {
					cb->removeFnAttr(Attribute::AlwaysInline);
					cb->removeFnAttr(Attribute::NoInline);
					if (auto * c = cb->getCalledFunction()) {
						if (kept.count(c)) cb->setIsNoInline();
					}
				}
	LoopAnalysisManager LAM;
	FunctionAnalysisManager FAM;
	CGSCCAnalysisManager CGAM;
	ModuleAnalysisManager MAM;
	PassBuilder PB;
	PB.registerModuleAnalyses(MAM);
	PB.registerCGSCCAnalyses(CGAM);
	PB.registerFunctionAnalyses(FAM);
	PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	ModulePassManager MPM;
	{ // locals first: inlined bodies get small
		FunctionPassManager FPM;
		FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
		FPM.addPass(EarlyCSEPass(false));
		MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
	}
	MPM.addPass(AlwaysInlinerPass(true));
	MPM.addPass(GlobalDCEPass());
	FunctionPassManager FPM;
	FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
	FPM.addPass(EarlyCSEPass(false));
	FPM.addPass(InstSimplifyPass());
	SimplifyCFGOptions so;
	so.SimplifyCondBranch = false;
	if (!asWritten()) FPM.addPass(SimplifyCFGPass(so));
	FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
	FPM.addPass(EarlyCSEPass(false));
	FPM.addPass(DCEPass());
	if (!asWritten()) FPM.addPass(SimplifyCFGPass(so));
	MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
	MPM.addPass(GlobalDCEPass());
	MPM.run(M, MAM);
	if (getenv("CTA_IR")) M.print(llvm::errs(), nullptr);
	return m;
}
} // namespace cta
