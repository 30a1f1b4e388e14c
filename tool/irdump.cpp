// irdump: export an LLVM IR module as JSON for the Python analyses.
//
// Usage: irdump in.bc out.json
//
// The module is expected to have gone through the normalisation pipeline in
// vlib/build.py (mem2reg + optional inlining of internal functions).
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>

#include <map>
#include <set>
#include <string>

using namespace llvm;

static std::string typeStr(Type* t) {
  std::string s;
  raw_string_ostream os(s);
  t->print(os, false, true);
  return os.str();
}

struct FnCtx {
  std::map<const Value*, int> ids;
  int next = 0;
  int id(const Value* v) {
    auto it = ids.find(v);
    if (it != ids.end()) return it->second;
    return ids[v] = next++;
  }
};

static const DataLayout* DL;

static json::Value constJson(const Constant* c, int depth);

static json::Value gepJson(const GEPOperator* g, FnCtx* ctx);

static json::Value valJson(const Value* v, FnCtx* ctx) {
  if (auto* ci = dyn_cast<ConstantInt>(v)) {
    if (ci->getBitWidth() <= 64)
      return json::Array{"c", ci->getSExtValue(), (int64_t)ci->getBitWidth()};
    return json::Array{"big"};
  }
  if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
  if (isa<UndefValue>(v)) return json::Array{"u"};
  if (auto* cf = dyn_cast<ConstantFP>(v)) {
    SmallString<32> s;
    cf->getValueAPF().toString(s);
    return json::Array{"fp", s.str().str()};
  }
  if (auto* f = dyn_cast<Function>(v)) return json::Array{"f", f->getName().str()};
  if (auto* g = dyn_cast<GlobalVariable>(v)) return json::Array{"g", g->getName().str()};
  if (auto* a = dyn_cast<GlobalAlias>(v)) return valJson(a->getAliaseeObject(), ctx);
  if (isa<BlockAddress>(v) || isa<ConstantTokenNone>(v) || isa<GlobalIFunc>(v)) return json::Array{"u"};
  if (auto* ce = dyn_cast<ConstantExpr>(v)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) {
      return json::Array{"gep", gepJson(gep, ctx)};
    }
    json::Array ops;
    for (auto& o : ce->operands()) ops.push_back(valJson(o.get(), ctx));
    return json::Array{"ce", std::string(ce->getOpcodeName()), std::move(ops)};
  }
  if (auto* c = dyn_cast<Constant>(v)) return json::Array{"k", constJson(c, 0)};
  if (isa<BasicBlock>(v)) return json::Array{"bb", ctx ? ctx->id(v) : -1};
  if (isa<MetadataAsValue>(v)) return json::Array{"md"};
  if (isa<InlineAsm>(v)) return json::Array{"asm"};
  if (ctx) return json::Array{"v", ctx->id(v)};
  return json::Array{"?"};
}

static json::Value gepJson(const GEPOperator* g, FnCtx* ctx) {
  json::Object o;
  o["base"] = valJson(g->getPointerOperand(), ctx);
  o["srcty"] = typeStr(g->getSourceElementType());
  o["inbounds"] = g->isInBounds();
  APInt off(64, 0);
  MapVector<Value*, APInt> vars;
  if (g->collectOffset(*DL, 64, vars, off)) {
    o["off"] = off.getSExtValue();
    json::Array vs;
    for (auto& kv : vars)
      vs.push_back(json::Array{valJson(kv.first, ctx), kv.second.getSExtValue()});
    o["vars"] = std::move(vs);
  }
  json::Array idx;
  for (auto it = g->idx_begin(); it != g->idx_end(); ++it)
    idx.push_back(valJson(it->get(), ctx));
  o["idx"] = std::move(idx);
  json::Array arr;
  Type* seqTy = nullptr;
  for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
    if (gi.isSequential() && gi != gep_type_begin(g)) {
      // isSequential() with a known element count: the indexed aggregate is an array
      if (auto* at = dyn_cast<ArrayType>(seqTy))
        arr.push_back(json::Array{valJson(gi.getOperand(), ctx), (int64_t)at->getNumElements()});
    }
    seqTy = gi.getIndexedType();
  }
  if (!arr.empty()) o["arr"] = std::move(arr);
  return o;
}

static json::Value constJson(const Constant* c, int depth) {
  if (depth > 6) return json::Array{"deep"};
  if (auto* cda = dyn_cast<ConstantDataArray>(c)) {
    if (cda->isString()) {
      std::string s = cda->getAsString().str();
      if (json::isUTF8(s)) return json::Array{"str", s};
      json::Array bytes;
      for (unsigned char ch : s) bytes.push_back((int64_t)ch);
      return json::Array{"bytes", std::move(bytes)};
    }
    json::Array a;
    for (unsigned i = 0; i < cda->getNumElements() && i < 4096; i++)
      a.push_back(constJson(cda->getElementAsConstant(i), depth + 1));
    return json::Array{"arr", std::move(a)};
  }
  if (isa<ConstantAggregateZero>(c)) return json::Array{"zero"};
  if (isa<ConstantArray>(c) || isa<ConstantStruct>(c)) {
    json::Array a;
    for (auto& op : c->operands()) a.push_back(constJson(cast<Constant>(op), depth + 1));
    return json::Array{"arr", std::move(a)};
  }
  if (isa<ConstantVector>(c) || isa<ConstantDataVector>(c)) return json::Array{"vec"};
  if (!(isa<ConstantInt>(c) || isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantFP>(c) ||
        isa<GlobalValue>(c) || isa<ConstantExpr>(c)))
    return json::Array{"u"};
  return valJson(c, nullptr);
}

static std::string diTypeName(const DIType* t, int depth = 0) {
  if (!t || depth > 8) return "void";
  if (auto* d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type:
        return diTypeName(d->getBaseType(), depth + 1) + "*";
      case dwarf::DW_TAG_reference_type:
      case dwarf::DW_TAG_rvalue_reference_type:
        return diTypeName(d->getBaseType(), depth + 1) + "&";
      case dwarf::DW_TAG_const_type:
        return "const " + diTypeName(d->getBaseType(), depth + 1);
      case dwarf::DW_TAG_typedef:
        return d->getName().str();
      default:
        return diTypeName(d->getBaseType(), depth + 1);
    }
  }
  if (auto* c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = diTypeName(c->getBaseType(), depth + 1) + "[";
      s += std::to_string(c->getSizeInBits() / 8) + "B]";
      return s;
    }
    std::string kind = c->getTag() == dwarf::DW_TAG_enumeration_type ? "enum "
                       : c->getTag() == dwarf::DW_TAG_union_type     ? "union "
                                                                     : "struct ";
    return kind + c->getName().str();
  }
  if (isa<DISubroutineType>(t)) return "fn";
  return t->getName().str();
}

static json::Value locJson(const DebugLoc& dl) {
  if (!dl) return nullptr;
  json::Array chain;
  const DILocation* l = dl.get();
  while (l) {
    const DISubprogram* sp = l->getScope() ? l->getScope()->getSubprogram() : nullptr;
    chain.push_back(json::Array{(int64_t)l->getLine(),
                                l->getFilename().str(),
                                sp ? sp->getName().str() : std::string("")});
    l = l->getInlinedAt();
  }
  return std::move(chain);
}

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) {
    err.print(argv[0], errs());
    return 2;
  }
  DataLayout dl(M.get());
  DL = &dl;
  json::Object out;
  json::Array globals;
  for (auto& g : M->globals()) {
    json::Object o;
    o["name"] = g.getName().str();
    o["const"] = g.isConstant();
    o["internal"] = g.hasLocalLinkage();
    o["decl"] = g.isDeclaration();
    o["type"] = typeStr(g.getValueType());
    o["size"] = (int64_t)(g.getValueType()->isSized() ? dl.getTypeAllocSize(g.getValueType()).getFixedValue() : 0);
    if (g.hasInitializer()) o["init"] = constJson(g.getInitializer(), 0);
    SmallVector<DIGlobalVariableExpression*, 1> dbg;
    g.getDebugInfo(dbg);
    if (!dbg.empty()) {
      auto* v = dbg[0]->getVariable();
      o["dname"] = v->getName().str();
      o["file"] = v->getFilename().str();
      o["line"] = (int64_t)v->getLine();
      o["dtype"] = diTypeName(v->getType());
    }
    globals.push_back(std::move(o));
  }
  out["globals"] = std::move(globals);

  // struct layouts from debug info
  json::Object structs;
  DebugInfoFinder finder;
  finder.processModule(*M);
  for (auto* t : finder.types()) {
    auto* c = dyn_cast<DICompositeType>(t);
    if (!c || c->getName().empty()) continue;
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
      json::Object o;
      o["kind"] = "enum";
      json::Object vals;
      for (auto* e : c->getElements())
        if (auto* en = dyn_cast<DIEnumerator>(e))
          vals[en->getName().str()] = en->getValue().getSExtValue();
      o["values"] = std::move(vals);
      structs["enum " + c->getName().str()] = std::move(o);
      continue;
    }
    if (c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_class_type &&
        c->getTag() != dwarf::DW_TAG_union_type)
      continue;
    if (c->isForwardDecl()) continue;
    json::Object o;
    o["kind"] = "struct";
    o["size"] = (int64_t)c->getSizeInBits() / 8;
    json::Array mem;
    for (auto* e : c->getElements()) {
      auto* d = dyn_cast<DIDerivedType>(e);
      if (!d) continue;
      if (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) continue;
      if (d->isStaticMember()) continue;
      int64_t esz = 0;
      const DIType* b = d->getBaseType();
      while (b && b->getSizeInBits() == 0) {
        auto* dd = dyn_cast<DIDerivedType>(b);
        if (!dd) break;
        b = dd->getBaseType();
      }
      if (b) esz = (int64_t)b->getSizeInBits() / 8;
      mem.push_back(json::Object{{"name", d->getName().str()},
                                 {"off", (int64_t)d->getOffsetInBits() / 8},
                                 {"size", esz},
                                 {"type", diTypeName(d->getBaseType())}});
    }
    o["members"] = std::move(mem);
    structs[c->getName().str()] = std::move(o);
  }
  out["structs"] = std::move(structs);

  json::Array fns;
  for (auto& F : *M) {
    json::Object fo;
    fo["name"] = F.getName().str();
    std::string dem = demangle(F.getName().str());
    fo["dem"] = dem;
    fo["internal"] = F.hasLocalLinkage();
    fo["decl"] = F.isDeclaration();
    fo["vararg"] = F.isVarArg();
    fo["ret"] = typeStr(F.getReturnType());
    if (auto* sp = F.getSubprogram()) {
      fo["dname"] = sp->getName().str();
      fo["file"] = sp->getFilename().str();
      fo["line"] = (int64_t)sp->getLine();
      if (auto* ty = sp->getType()) {
        json::Array tys;
        for (auto* t : ty->getTypeArray()) tys.push_back(diTypeName(t));
        fo["dtypes"] = std::move(tys);
      }
    }
    FnCtx fc;
    json::Array params;
    for (auto& a : F.args())
      params.push_back(json::Object{{"id", fc.id(&a)},
                                    {"name", a.getName().str()},
                                    {"type", typeStr(a.getType())}});
    fo["params"] = std::move(params);
    json::Array blocks;
    json::Object vars;  // dbg variable names for values
    for (auto& B : F) fc.id(&B);
    for (auto& B : F) {
      json::Object bo;
      bo["id"] = fc.id(&B);
      json::Array insts;
      for (auto& I : B) {
        if (auto* dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
          if (auto* v = dv->getVariableLocationOp(0))
            if (!isa<Constant>(v))
              vars[std::to_string(fc.id(v))] = dv->getVariable()->getName().str();
          continue;
        }
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object io;
        io["op"] = std::string(I.getOpcodeName());
        io["id"] = fc.id(&I);
        io["type"] = typeStr(I.getType());
        if (I.getDebugLoc()) io["loc"] = locJson(I.getDebugLoc());
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
          io["gep"] = gepJson(cast<GEPOperator>(g), &fc);
        } else if (auto* cb = dyn_cast<CallBase>(&I)) {
          io["callee"] = valJson(cb->getCalledOperand()->stripPointerCasts(), &fc);
          json::Array args;
          for (auto& a : cb->args()) args.push_back(valJson(a.get(), &fc));
          io["args"] = std::move(args);
          if (auto* inv = dyn_cast<InvokeInst>(&I)) {
            io["succ"] = json::Array{fc.id(inv->getNormalDest()), fc.id(inv->getUnwindDest())};
          }
          if (cb->doesNotReturn()) io["noreturn"] = true;
        } else if (auto* p = dyn_cast<PHINode>(&I)) {
          json::Array inc;
          for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
            inc.push_back(json::Array{valJson(p->getIncomingValue(i), &fc),
                                      fc.id(p->getIncomingBlock(i))});
          io["inc"] = std::move(inc);
        } else if (auto* br = dyn_cast<BranchInst>(&I)) {
          json::Array s;
          for (unsigned k = 0; k < br->getNumSuccessors(); k++) s.push_back(fc.id(br->getSuccessor(k)));
          io["succ"] = std::move(s);
          if (br->isConditional()) io["cond"] = valJson(br->getCondition(), &fc);
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
          io["cond"] = valJson(sw->getCondition(), &fc);
          io["default"] = fc.id(sw->getDefaultDest());
          json::Array cs;
          for (auto& c : sw->cases())
            cs.push_back(json::Array{c.getCaseValue()->getSExtValue(),
                                     fc.id(c.getCaseSuccessor())});
          io["cases"] = std::move(cs);
        } else {
          json::Array ops;
          for (auto& o : I.operands()) ops.push_back(valJson(o.get(), &fc));
          io["ops"] = std::move(ops);
          if (auto* c = dyn_cast<CmpInst>(&I))
            io["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
          if (auto* l = dyn_cast<LoadInst>(&I)) {
            io["align"] = (int64_t)l->getAlign().value();
            io["size"] = (int64_t)dl.getTypeStoreSize(l->getType()).getFixedValue();
          }
          if (auto* s = dyn_cast<StoreInst>(&I)) {
            io["align"] = (int64_t)s->getAlign().value();
            io["size"] = (int64_t)dl.getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue();
            io["vtype"] = typeStr(s->getValueOperand()->getType());
          }
          if (auto* a = dyn_cast<AllocaInst>(&I)) {
            io["aty"] = typeStr(a->getAllocatedType());
            io["size"] = (int64_t)dl.getTypeAllocSize(a->getAllocatedType()).getFixedValue();
          }
          if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) {
            io["nsw"] = ob->hasNoSignedWrap();
            io["nuw"] = ob->hasNoUnsignedWrap();
          }
          if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
            json::Array ix;
            for (auto i : ev->indices()) ix.push_back((int64_t)i);
            io["idx"] = std::move(ix);
          }
          if (auto* ev = dyn_cast<InsertValueInst>(&I)) {
            json::Array ix;
            for (auto i : ev->indices()) ix.push_back((int64_t)i);
            io["idx"] = std::move(ix);
          }
          if (auto* cst = dyn_cast<CastInst>(&I)) io["from"] = typeStr(cst->getSrcTy());
          if (I.getNumOperands() > 0 && isa<CmpInst>(&I)) io["opty"] = typeStr(I.getOperand(0)->getType());
        }
        insts.push_back(std::move(io));
      }
      bo["insts"] = std::move(insts);
      blocks.push_back(std::move(bo));
    }
    fo["blocks"] = std::move(blocks);
    fo["vars"] = std::move(vars);
    fns.push_back(std::move(fo));
  }
  out["functions"] = std::move(fns);
  std::error_code ec;
  raw_fd_ostream os(argv[2], ec);
  os << json::Value(std::move(out));
  return 0;
}
