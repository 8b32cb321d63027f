// irx: normalise LLVM bitcode and export selected functions as JSON graphs.
//
//   irx -o OUT.json --cfg CFG.json a.bc b.bc ...
//
// CFG.json: { "entries": [regex...], "preserve": [regex...], "opt": bool,
//             "want_calls": bool }
// All regexes are matched (search) against demangled names.
//
// Normalisation: the modules are linked, everything not reachable from the
// entries is dropped, every function that is not an entry and not in the
// preserve list is inlined, and the scalar simplification passes are run.
// Events (calls to preserved functions, loads/stores of fields, atomics,
// branches, invokes) survive; helper functions, loops written one way or the
// other, local temporaries and RAII guards do not.
#include <llvm/ADT/SCCIterator.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>

using namespace llvm;

static std::unordered_map<std::string, std::string> demCache;
static const std::string & dem(StringRef n) {
	auto it = demCache.find(n.str());
	if (it != demCache.end()) return it->second;
	return demCache[n.str()] = llvm::demangle(n.str());
}

struct Rx {
	std::vector<std::regex> r;
	void add(const std::string & s) { r.emplace_back(s, std::regex::ECMAScript | std::regex::optimize); }
	bool match(const std::string & s) const {
		for (auto & x : r) if (std::regex_search(s, x)) return true;
		return false;
	}
};

static json::Object cfg;
static Rx entries, preserve, nothrowRx, inl;
static bool optimise = true;

static bool isStdName(StringRef m) {
	return m.starts_with("_ZSt") || m.starts_with("_ZNSt") || m.starts_with("_ZNKSt")
		|| m.starts_with("_ZNSo") || m.starts_with("_ZNSi") || m.starts_with("_ZNSs") || m.starts_with("_ZNKSs")
		|| m.starts_with("_ZN9__gnu_cxx") || m.starts_with("_ZNK9__gnu_cxx")
		|| m.starts_with("_ZN5boost") || m.starts_with("_ZNK5boost") || m.starts_with("_ZStl") ;
}

static std::string typeStr(Type * t) {
	std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str();
}

static bool hasLoopOrBig(Function & F, unsigned limit) {
	unsigned n = 0;
	for (auto & B : F) for (auto & I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; if (++n > limit) return true; }
	return false;
}

// ---- field tables from debug info -------------------------------------
static std::string scopeName(DIScope * s) {
	if (!s) return "";
	std::string r;
	if (auto * ns = dyn_cast<DINamespace>(s)) {
		r = ns->getName().empty() ? "(anonymous namespace)" : ns->getName().str();
		std::string p = scopeName(ns->getScope());
		return p.empty() ? r : p + "::" + r;
	}
	if (auto * t = dyn_cast<DICompositeType>(s)) {
		r = t->getName().str();
		std::string p = scopeName(t->getScope());
		return p.empty() ? r : p + "::" + r;
	}
	if (auto * sp = dyn_cast<DISubprogram>(s)) {
		r = sp->getName().str();
		std::string p = scopeName(sp->getScope());
		return p.empty() ? r : p + "::" + r;
	}
	if (isa<DIFile>(s) || isa<DICompileUnit>(s)) return "";
	if (auto * lb = dyn_cast<DILexicalBlockBase>(s)) return scopeName(lb->getScope());
	return "";
}
static std::string diTypeName(DIType * t, int depth = 0) {
	if (!t) return "void";
	if (depth > 8) return "?";
	if (auto * c = dyn_cast<DICompositeType>(t)) {
		if (c->getTag() == dwarf::DW_TAG_array_type) return diTypeName(c->getBaseType(), depth+1) + "[]";
		std::string n = c->getName().str();
		std::string p = scopeName(c->getScope());
		return p.empty() ? n : p + "::" + n;
	}
	if (auto * d = dyn_cast<DIDerivedType>(t)) {
		std::string b = diTypeName(d->getBaseType(), depth+1);
		switch (d->getTag()) {
			case dwarf::DW_TAG_pointer_type: return b + "*";
			case dwarf::DW_TAG_reference_type: return b + "&";
			case dwarf::DW_TAG_rvalue_reference_type: return b + "&&";
			case dwarf::DW_TAG_const_type: return "const " + b;
			case dwarf::DW_TAG_typedef: return b;
			default: return b;
		}
	}
	if (auto * b = dyn_cast<DIBasicType>(t)) return b->getName().str();
	return t->getName().str();
}
static DIType * stripTypedef(DIType * t) {
	while (auto * d = dyn_cast_or_null<DIDerivedType>(t)) {
		if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_const_type || d->getTag() == dwarf::DW_TAG_volatile_type)
			t = d->getBaseType();
		else break;
	}
	return t;
}

// identifier of the class a pointer/reference type points to ("" if none)
static std::string pointeeKey(DIType * t) {
	t = stripTypedef(t);
	auto * d = dyn_cast_or_null<DIDerivedType>(t);
	if (!d) return "";
	switch (d->getTag()) {
		case dwarf::DW_TAG_pointer_type: case dwarf::DW_TAG_reference_type: case dwarf::DW_TAG_rvalue_reference_type: break;
		default: return "";
	}
	DIType * b = stripTypedef(d->getBaseType());
	if (auto * c = dyn_cast_or_null<DICompositeType>(b)) return c->getIdentifier().str();
	return "";
}

static json::Object structTable(Module & M) {
	DebugInfoFinder f; f.processModule(M);
	json::Object out;
	for (DIType * t : f.types()) {
		auto * c = dyn_cast<DICompositeType>(t);
		if (!c) continue;
		if (c->isForwardDecl()) continue;
		if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
		std::string key = c->getIdentifier().empty() ? ("?" + diTypeName(c)) : c->getIdentifier().str();
		json::Array mem;
		for (auto * e : c->getElements()) {
			auto * d = dyn_cast_or_null<DIDerivedType>(e);
			if (!d) continue;
			if (d->isStaticMember()) continue;
			if (d->getTag() == dwarf::DW_TAG_member || d->getTag() == dwarf::DW_TAG_inheritance) {
				json::Object m;
				m["n"] = d->getTag() == dwarf::DW_TAG_member ? d->getName().str() : std::string("<base>");
				m["o"] = (int64_t)(d->getOffsetInBits() / 8);
				DIType * bt = stripTypedef(d->getBaseType());
				m["t"] = diTypeName(d->getBaseType());
				uint64_t sz = d->getSizeInBits(); if (!sz && bt) sz = bt->getSizeInBits();
				m["s"] = (int64_t)(sz / 8);
				if (std::string pk = pointeeKey(bt); !pk.empty()) m["pk"] = pk;
				if (auto * bc = dyn_cast_or_null<DICompositeType>(bt)) {
					if (bc->getTag() == dwarf::DW_TAG_array_type) {
						DIType * et = stripTypedef(bc->getBaseType());
						m["arr"] = true;
						if (et) m["es"] = (int64_t)(et->getSizeInBits()/8);
						if (auto * ec = dyn_cast_or_null<DICompositeType>(et)) if (!ec->getIdentifier().empty()) m["k"] = ec->getIdentifier().str();
					} else if (!bc->getIdentifier().empty()) m["k"] = bc->getIdentifier().str();
				}
				mem.push_back(std::move(m));
			}
		}
		json::Object s;
		s["name"] = diTypeName(c);
		s["size"] = (int64_t)(c->getSizeInBits() / 8);
		s["m"] = std::move(mem);
		s["union"] = c->getTag() == dwarf::DW_TAG_union_type;
		out[key] = std::move(s);
	}
	return out;
}

// ---- export ------------------------------------------------------------
struct Exporter {
	const DataLayout & DL;
	Module & M;
	std::map<const Value *, int> ids;
	int next = 0;
	Exporter(Module & M) : DL(M.getDataLayout()), M(M) {}

	json::Value operand(const Value * v, int depth = 0) {
		json::Object o;
		if (auto * c = dyn_cast<ConstantInt>(v)) {
			o["k"] = "int";
			if (c->getBitWidth() <= 64) o["v"] = c->getSExtValue(); else { SmallString<40> s; c->getValue().toStringSigned(s); o["v"] = std::string(s.str()); }
			o["w"] = (int64_t)c->getBitWidth();
			return std::move(o);
		}
		if (isa<ConstantPointerNull>(v)) { o["k"] = "null"; return std::move(o); }
		if (auto * f = dyn_cast<ConstantFP>(v)) { o["k"] = "fp"; SmallString<40> s; f->getValueAPF().toString(s); o["v"] = std::string(s.str()); return std::move(o); }
		if (isa<UndefValue>(v)) { o["k"] = "undef"; return std::move(o); }
		if (auto * g = dyn_cast<GlobalValue>(v)) {
			o["k"] = "global"; o["n"] = dem(g->getName()); o["m"] = g->getName().str();
			if (auto * gv = dyn_cast<GlobalVariable>(g)) if (gv->getValueType()->isSized()) o["sz"] = (int64_t)DL.getTypeAllocSize(gv->getValueType()).getFixedValue();
			if (auto * gv = dyn_cast<GlobalVariable>(g)) if (gv->isConstant() && gv->hasInitializer() && depth < 2)
				if (isa<ConstantAggregateZero>(gv->getInitializer()) && gv->getValueType()->isArrayTy() && gv->getValueType()->getArrayElementType()->isIntegerTy(8)) o["str"] = "";
				else if (auto * cd = dyn_cast<ConstantDataSequential>(gv->getInitializer())) if (cd->isString()) { std::string s = cd->getAsString().str(); for (auto & ch : s) if ((unsigned char)ch >= 127 || (unsigned char)ch < 32) ch = ' '; o["str"] = s.substr(0, 200); }
			return std::move(o);
		}
		if (auto * a = dyn_cast<Argument>(v)) {
			o["k"] = "arg"; o["i"] = (int64_t)a->getArgNo(); return std::move(o);
		}
		if (auto * ce = dyn_cast<ConstantExpr>(v)) {
			o["k"] = "cexpr"; o["op"] = ce->getOpcodeName();
			if (auto * g = dyn_cast<GEPOperator>(ce)) {
				APInt off(64, 0);
				if (g->accumulateConstantOffset(DL, off)) o["off"] = off.getSExtValue();
			}
			json::Array a;
			for (auto & x : ce->operands()) a.push_back(operand(x.get(), depth+1));
			o["a"] = std::move(a);
			return std::move(o);
		}
		if (isa<ConstantAggregateZero>(v) && (v->getType()->isStructTy() || v->getType()->isArrayTy())) {
			auto * z = cast<ConstantAggregateZero>(v);
			uint64_t n = z->getElementCount().getKnownMinValue();
			if (n <= 16) { o["k"] = "agg"; json::Array e; for (uint64_t i = 0; i < n; ++i) e.push_back(operand(z->getElementValue(i))); o["e"] = std::move(e); return std::move(o); }
		}
		if (auto * ca = dyn_cast<ConstantAggregate>(v)) if (ca->getNumOperands() <= 16 && !ca->getType()->isVectorTy()) {
			o["k"] = "agg"; json::Array e; for (auto & u: ca->operands()) e.push_back(operand(u.get())); o["e"] = std::move(e); return std::move(o);
		}
		if (isa<Constant>(v)) {
			o["k"] = "const"; o["t"] = typeStr(v->getType());
			std::string txt; raw_string_ostream os(txt); v->print(os); os.flush(); if (txt.size() < 300) o["v"] = txt; else o["v"] = std::to_string(std::hash<std::string>()(txt));
			return std::move(o);
		}
		if (isa<InlineAsm>(v)) { o["k"] = "asm"; return std::move(o); }
		if (isa<MetadataAsValue>(v)) { o["k"] = "md"; return std::move(o); }
		auto it = ids.find(v);
		o["k"] = "i";
		o["i"] = it == ids.end() ? -1 : it->second;
		return std::move(o);
	}

	static bool instNoThrow(const CallBase & c) {
		return c.doesNotThrow();
	}

	json::Object inst(const Instruction & I) {
		json::Object o;
		o["id"] = ids[&I];
		o["op"] = I.getOpcodeName();
		if (!I.getType()->isVoidTy()) { o["t"] = typeStr(I.getType()); }
		if (auto & dl = I.getDebugLoc()) {
			o["line"] = (int64_t)dl.getLine();
			if (auto * sc = dyn_cast_or_null<DIScope>(dl.getScope())) {
				o["file"] = sc->getFilename().str();
			}
			// enclosing (inlined) subprogram
			DILocalScope * ls = dyn_cast_or_null<DILocalScope>(dl.getScope());
			if (ls) if (auto * sp = ls->getSubprogram()) o["fn"] = scopeName(sp);
			json::Array chain;
			DILocation * ia = dl->getInlinedAt();
			int n = 0;
			while (ia && n < 12) {
				if (auto * l2 = dyn_cast_or_null<DILocalScope>(ia->getScope())) if (auto * sp = l2->getSubprogram())
					chain.push_back(scopeName(sp) + ":" + std::to_string(ia->getLine()));
				ia = ia->getInlinedAt(); ++n;
			}
			if (!chain.empty()) o["ia"] = std::move(chain);
		}
		if (MDNode * tb = I.getMetadata(LLVMContext::MD_tbaa)) {
			// struct path tag: (base, access, offset)
			if (tb->getNumOperands() >= 3) {
				auto * b = dyn_cast_or_null<MDNode>(tb->getOperand(0));
				auto * a = dyn_cast_or_null<MDNode>(tb->getOperand(1));
				json::Object t;
				auto nm = [](MDNode * n) -> std::string {
					if (!n || n->getNumOperands() == 0) return "";
					if (auto * s = dyn_cast_or_null<MDString>(n->getOperand(0))) return s->getString().str();
					return "";
				};
				t["b"] = nm(b); t["a"] = nm(a);
				if (auto * c = mdconst::dyn_extract_or_null<ConstantInt>(tb->getOperand(2))) t["o"] = c->getSExtValue();
				o["tbaa"] = std::move(t);
			}
		}
		json::Array a;
		if (auto * c = dyn_cast<CallBase>(&I)) {
			Function * f = c->getCalledFunction();
			if (!f) f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
			if (f) { o["callee"] = dem(f->getName()); o["cm"] = f->getName().str(); if (f->isIntrinsic()) o["intr"] = true; }
			else { o["callee"] = nullptr; o["cv"] = operand(c->getCalledOperand()); }
			o["nt"] = c->doesNotThrow();
			if (c->doesNotReturn()) o["nr"] = true;
			for (auto & x : c->args()) a.push_back(operand(x.get()));
			if (auto * iv = dyn_cast<InvokeInst>(c)) {
				o["op"] = "invoke";
				(void)iv;
			}
		} else if (auto * p = dyn_cast<PHINode>(&I)) {
			json::Array in;
			for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) {
				a.push_back(operand(p->getIncomingValue(i)));
				in.push_back(ids[p->getIncomingBlock(i)]);
			}
			o["in"] = std::move(in);
		} else if (auto * g = dyn_cast<GetElementPtrInst>(&I)) {
			APInt off(64, 0);
			if (g->accumulateConstantOffset(DL, off)) o["off"] = off.getSExtValue();
			o["st"] = typeStr(g->getSourceElementType());
			for (auto & x : g->operands()) a.push_back(operand(x.get()));
			MapVector<Value *, APInt> vo;
			APInt co(64, 0);
			if (g->collectOffset(DL, 64, vo, co)) {
				o["co"] = co.getSExtValue();
				json::Array vs;
				for (auto & kv : vo) { json::Array e; e.push_back(operand(kv.first)); e.push_back(kv.second.getSExtValue()); vs.push_back(std::move(e)); }
				o["vo"] = std::move(vs);
			}
		} else if (auto * b = dyn_cast<BranchInst>(&I)) {
			if (b->isConditional()) a.push_back(operand(b->getCondition()));
		} else if (auto * s = dyn_cast<SwitchInst>(&I)) {
			a.push_back(operand(s->getCondition()));
			json::Array cs;
			for (auto & h : s->cases()) { json::Array e; e.push_back(h.getCaseValue()->getBitWidth() == 1 ? (int64_t) h.getCaseValue()->getZExtValue() : h.getCaseValue()->getSExtValue()); e.push_back(ids[h.getCaseSuccessor()]); cs.push_back(std::move(e)); }
			o["cases"] = std::move(cs);
			o["default"] = ids[s->getDefaultDest()];
		} else if (auto * l = dyn_cast<LandingPadInst>(&I)) {
			o["cleanup"] = l->isCleanup();
			for (unsigned i = 0; i < l->getNumClauses(); ++i) {
				json::Object cl;
				cl["catch"] = l->isCatch(i);
				cl["v"] = operand(l->getClause(i));
				a.push_back(std::move(cl));
			}
		} else {
			for (auto & x : I.operands()) if (!isa<BasicBlock>(x.get())) a.push_back(operand(x.get()));
		}
		o["a"] = std::move(a);
		if (auto * c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
		if (auto * l = dyn_cast<LoadInst>(&I)) { if (l->isAtomic()) o["atomic"] = toIRString(l->getOrdering()); if (l->isVolatile()) o["volatile"] = true; }
		if (auto * l = dyn_cast<StoreInst>(&I)) { if (l->isAtomic()) o["atomic"] = toIRString(l->getOrdering()); if (l->isVolatile()) o["volatile"] = true; }
		if (auto * l = dyn_cast<AtomicRMWInst>(&I)) { o["atomic"] = toIRString(l->getOrdering()); o["rmw"] = AtomicRMWInst::getOperationName(l->getOperation()).str(); }
		if (auto * l = dyn_cast<AtomicCmpXchgInst>(&I)) { o["atomic"] = toIRString(l->getSuccessOrdering()); }
		if (auto * l = dyn_cast<AllocaInst>(&I)) {
			o["at"] = typeStr(l->getAllocatedType());
			for (auto * d : findDbgDeclares(const_cast<AllocaInst *>(l))) if (auto * v = d->getVariable()) {
				o["var"] = v->getName().str();
				if (auto * c = dyn_cast_or_null<DICompositeType>(stripTypedef(v->getType()))) o["vk"] = c->getIdentifier().str();
			}
		}
		if (auto * l = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (unsigned i : l->indices()) x.push_back((int64_t)i); o["idx"] = std::move(x); }
		if (auto * l = dyn_cast<InsertValueInst>(&I)) { json::Array x; for (unsigned i : l->indices()) x.push_back((int64_t)i); o["idx"] = std::move(x); }
		return o;
	}

	json::Object function(Function & F) {
		ids.clear(); next = 0;
		json::Object o;
		o["name"] = dem(F.getName()); o["mangled"] = F.getName().str();
		if (auto * sp = F.getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine(); }
		json::Array args;
		for (auto & a : F.args()) { json::Object x; x["n"] = a.getName().str(); x["t"] = typeStr(a.getType()); if (a.hasStructRetAttr()) x["sret"] = true; args.push_back(std::move(x)); }
		o["args"] = std::move(args);
		if (auto * sp = F.getSubprogram()) if (auto * st = sp->getType()) {
			json::Array ts; auto ta = st->getTypeArray();
			for (unsigned i = 0; i < ta.size(); ++i) { json::Object x; x["k"] = pointeeKey(ta[i]); x["n"] = diTypeName(ta[i]); ts.push_back(std::move(x)); }
			o["dts"] = std::move(ts);
			o["scope"] = scopeName(sp->getScope());
			if (auto * ct = dyn_cast_or_null<DICompositeType>(sp->getScope())) o["cls"] = ct->getIdentifier().str();
		}
		o["nounwind"] = F.doesNotThrow();
		for (auto & B : F) { ids[&B] = next++; for (auto & I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; ids[&I] = next++; } }
		json::Array blocks;
		for (auto & B : F) {
			json::Object b; b["id"] = ids[&B];
			json::Array is, succ;
			for (auto & I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; is.push_back(inst(I)); }
			for (auto * s : successors(&B)) succ.push_back(ids[s]);
			b["i"] = std::move(is); b["s"] = std::move(succ);
			blocks.push_back(std::move(b));
		}
		o["blocks"] = std::move(blocks);
		return o;
	}
};

static size_t lambdaAt(const std::string & n) {
	for (auto k : {"::$_", "::'lambda", "::{lambda"}) { size_t i = n.find(k); if (i != std::string::npos) return i; }
	return std::string::npos;
}

static bool inlineWanted(Function & F) {
	if (F.isDeclaration()) return false;
	const std::string & n = dem(F.getName());
	// a lambda inside an entry is part of it
	size_t i = lambdaAt(n);
	if (i != std::string::npos && entries.match(n.substr(0, i))) return true;
	if (preserve.match(n)) return false;
	if (inl.match(n)) return true;
	return true;
}

int main(int argc, char ** argv) {
	std::string out, cfgFile; std::vector<std::string> files;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "-o") out = argv[++i];
		else if (a == "--cfg") cfgFile = argv[++i];
		else files.push_back(a);
	}
	auto buf = MemoryBuffer::getFile(cfgFile);
	if (!buf) { errs() << "irx: cannot read cfg\n"; return 3; }
	auto pv = json::parse((*buf)->getBuffer());
	if (!pv) { errs() << "irx: bad cfg " << toString(pv.takeError()) << "\n"; return 3; }
	json::Object & C = *pv->getAsObject();
	auto load = [&](const char * k, Rx & r) { if (auto * a = C.getArray(k)) for (auto & x : *a) r.add(x.getAsString()->str()); };
	load("entries", entries); load("preserve", preserve); load("inline", inl); load("nothrow", nothrowRx);
	optimise = C.getBoolean("opt").value_or(true);
	bool doInline = C.getBoolean("do_inline").value_or(true);
	bool wantStructs = C.getBoolean("structs").value_or(true);
	int64_t maxInst = C.getInteger("max_inst").value_or(60000);

	LLVMContext ctx;
	std::unique_ptr<Module> M;
	for (auto & f : files) {
		SMDiagnostic err;
		auto m = parseIRFile(f, err, ctx);
		if (!m) { err.print("irx", errs()); return 3; }
		if (!M) M = std::move(m);
		else if (Linker::linkModules(*M, std::move(m))) { errs() << "irx: link failed for " << f << "\n"; return 3; }
	}
	if (!M) return 3;

	// constructor/destructor aliases stand for the function itself
	{
		std::vector<GlobalAlias *> as;
		for (auto & A : M->aliases()) as.push_back(&A);
		for (auto * A : as) A->replaceAllUsesWith(A->getAliasee());
	}

	// vtables and other constant initialisers keep functions alive; that is
	// fine, they are simply not entries.
	std::vector<Function *> ent;
	std::set<Function *> entSet;
	for (auto & F : *M) if (!F.isDeclaration() && entries.match(dem(F.getName())) && lambdaAt(dem(F.getName())) == std::string::npos) { ent.push_back(&F); entSet.insert(&F); }

	json::Object top;
	if (wantStructs) top["structs"] = structTable(*M);
	{
		// exception hierarchy from the typeinfo objects
		json::Object bs;
		for (auto & G : M->globals()) {
			std::string n = dem(G.getName());
			if (n.rfind("typeinfo for ", 0) || !G.hasInitializer()) continue;
			auto * cs = dyn_cast<ConstantStruct>(G.getInitializer());
			if (!cs) continue;
			json::Array a;
			for (unsigned i = 2; i < cs->getNumOperands(); ++i)
				if (auto * g = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) {
					std::string b = dem(g->getName());
					if (!b.rfind("typeinfo for ", 0)) a.push_back(b.substr(13));
				}
			if (!a.empty()) bs[n.substr(13)] = std::move(a);
		}
		top["bases"] = std::move(bs);
	}

	// reachability from entries
	std::set<Function *> reach; std::vector<Function *> st(ent.begin(), ent.end());
	for (auto * f : ent) reach.insert(f);
	while (!st.empty()) {
		Function * f = st.back(); st.pop_back();
		if (f->isDeclaration()) continue;
		if (!entSet.count(f) && preserve.match(dem(f->getName()))) { /* still walk for attribute inference */ }
		for (auto & I : instructions(*f)) if (auto * c = dyn_cast<CallBase>(&I)) {
			Function * g = c->getCalledFunction();
			if (g && reach.insert(g).second) st.push_back(g);
		}
	}

	LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
	PassBuilder PB;
	PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);

	auto runFn = [&](Function & F, const char * pipe) {
		FunctionPassManager FPM;
		if (auto e = PB.parsePassPipeline(FPM, pipe)) { errs() << toString(std::move(e)) << "\n"; exit(3); }
		FPM.run(F, FAM);
		FAM.clear(F, F.getName());
	};

	for (auto & F : *M) {
		const std::string & n = dem(F.getName());
		if (!nothrowRx.match(n)) continue;
		if (!F.isDeclaration() && !preserve.match(n)) continue;
		F.setDoesNotThrow();
	}
	// infer nounwind bottom-up (only over exact definitions reachable)
	{
		CallGraph CG(*M);
		for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
			bool nothrow = true;
			std::set<Function *> comp;
			for (auto * n : *it) if (n->getFunction()) comp.insert(n->getFunction());
			for (auto * f : comp) {
				if (f->isDeclaration()) { if (!f->doesNotThrow()) nothrow = false; continue; }
				for (auto & I : instructions(*f)) {
					if (isa<ResumeInst>(I)) nothrow = false;
					if (auto * c = dyn_cast<CallInst>(&I)) {
						if (c->doesNotThrow()) continue;
						Function * g = c->getCalledFunction();
						if (g && comp.count(g)) continue;
						nothrow = false;
					}
				}
				// invokes: unwinding goes to a landing pad of f itself; a resume makes it throw
				if (!nothrow) break;
			}
			if (nothrow) for (auto * f : comp) if (!f->isDeclaration()) f->setDoesNotThrow();
		}
	}

	if (doInline) {
		// Bottom-up inlining over the reachable part of the call graph.
		std::vector<Function *> order; 
		{
			CallGraph CG(*M);
			for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it)
				for (auto * n : *it) if (Function * f = n->getFunction()) if (reach.count(f) && !f->isDeclaration()) order.push_back(f);
		}
		std::set<Function *> done;
		std::map<Function *, bool> want;
		for (auto * f : order) want[f] = inlineWanted(*f);
		for (auto * f : order) {
			if (!want[f] && !entSet.count(f)) { continue; }
			f->removeFnAttr(Attribute::OptimizeNone);
			f->removeFnAttr(Attribute::NoInline);
			std::vector<CallBase *> work;
			unsigned total = 0;
			for (auto & I : instructions(*f)) { ++total; if (auto * c = dyn_cast<CallBase>(&I)) work.push_back(c); }
			for (auto * c : work) {
				Function * g = c->getCalledFunction();
				if (!g || g == f || g->isDeclaration() || !done.count(g)) continue;
				if (!want[g]) continue;
				if (!isInlineViable(*g).isSuccess()) continue;
				unsigned gsz = g->getInstructionCount();
				if (total + gsz > maxInst) { errs() << "irx: note: not inlining " << dem(g->getName()) << " into " << dem(f->getName()) << " (size)\n"; continue; }
				InlineFunctionInfo IFI;
				auto r = InlineFunction(*c, IFI, false, nullptr, true);
				if (r.isSuccess()) total += gsz;
			}
			if (optimise) runFn(*f, "sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg");
			else runFn(*f, "sroa,simplifycfg");
			done.insert(f);
		}
	}
	for (auto * f : ent) {
		if (optimise) runFn(*f, "sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,jump-threading,correlated-propagation,gvn,sroa,instcombine<no-verify-fixpoint>,simplifycfg,jump-threading,correlated-propagation,simplifycfg,adce");
		else runFn(*f, "sroa,simplifycfg");
	}

	json::Array fns;
	for (auto * f : ent) { Exporter E(*M); fns.push_back(E.function(*f)); }
	top["functions"] = std::move(fns);
	// names of all defined functions (for who-may-call queries) and direct call edges, pre-inlining names lost; optional
	std::error_code ec;
	raw_fd_ostream os(out, ec);
	if (ec) { errs() << ec.message() << "\n"; return 3; }
	os << json::Value(std::move(top));
	return 0;
}
