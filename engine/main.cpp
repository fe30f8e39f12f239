// ipsym: symbolic executor for LLVM 18 IR (C and C++ incl. exceptions, RTTI, virtual dispatch).
// Executes main() of a linked bitcode module; forks at feasible symbolic branches; decides
// assertions with z3 for every value of the symbolic inputs on every path.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <functional>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <thread>
#include <sys/resource.h>
#include <unistd.h>
#include <pthread.h>
using namespace llvm;

// ---------------------------------------------------------------- options / statistics
static std::string g_outFile, g_ceDir = ".", g_tag = "h";
static int g_case = 0, g_maxViol = 3;
static double g_maxTime = 600; static uint64_t g_maxInstr = ~0ull; static uint64_t g_maxPaths = ~0ull;
static bool g_trace = false; static bool g_verbose = false; static unsigned g_maxConc = 64; static int g_strictFP = 0;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static uint64_t n_instr = 0, n_paths = 0, n_forks = 0, n_assumedAway = 0, n_checks_sym = 0, n_checks_conc = 0, n_states = 1;
struct LabelStat { uint64_t sym = 0, conc = 0, fail = 0, unknown = 0; };
static std::map<std::string, LabelStat> g_labels;
static std::map<std::string, uint64_t> g_reach;
static std::set<std::string> g_notes;        // inconclusive reasons
static std::map<std::string, uint64_t> g_stubs;  // environment stubs used
struct Violation { std::string kind, label, msg, file; std::string where; };
static std::vector<Violation> g_viol;
static std::vector<std::string> g_samples;

// ---------------------------------------------------------------- memory
enum ObjKind : uint8_t { K_GLOBAL, K_HEAP, K_STACK, K_FUNC };
struct Sym { uint32_t off; uint32_t n; Expr* e; };
struct Obj {
   int rc = 1; uint32_t size; ObjKind kind; bool ro = false; uint8_t* d; uint8_t* m; // m: 0xff concrete, 0 uninit, 1 symbolic
   std::vector<Sym> sym; uint32_t allocKind = 0; // 1 malloc 2 new 3 new[]
   Obj(uint32_t s, ObjKind k, bool init) : size(s), kind(k) { d = (uint8_t*)calloc(2 * (size_t)s + 16, 1); m = d + s + 8; if( init ) memset(m, 0xff, s); }
   Obj(const Obj& o) : rc(1), size(o.size), kind(o.kind), ro(o.ro), sym(o.sym), allocKind(o.allocKind) { d = (uint8_t*)malloc(2 * (size_t)size + 16); memcpy(d, o.d, 2 * (size_t)size + 16); m = d + size + 8; }
   ~Obj() { free(d); }
};
static inline void unref(Obj* o) { if( o && --o->rc == 0 ) delete o; }
struct Chunk { int rc = 1; Obj* o[256]; Chunk() { memset(o, 0, sizeof o); } };
struct Mem {
   std::vector<Chunk*> t; uint32_t next = 1; std::vector<uint32_t> freeStack; uint64_t liveHeap = 0;
   Mem() {}
   Mem(const Mem& o) : t(o.t), next(o.next), freeStack(o.freeStack), liveHeap(o.liveHeap) { for( auto c : t ) if( c ) c->rc++; }
   Mem& operator=(const Mem&) = delete;
   ~Mem() { for( auto c : t ) if( c && --c->rc == 0 ) { for( auto o : c->o ) unref(o); delete c; } }
   Obj* get(uint32_t id) const { uint32_t ci = id >> 8; if( ci >= t.size() || !t[ci] ) return nullptr; return t[ci]->o[id & 255]; }
   Obj*& slot(uint32_t id) {
      uint32_t ci = id >> 8; if( ci >= t.size() ) t.resize(ci + 1, nullptr);
      if( !t[ci] ) t[ci] = new Chunk();
      else if( t[ci]->rc > 1 ) { Chunk* n = new Chunk(); for( int i = 0; i < 256; i++ ) { n->o[i] = t[ci]->o[i]; if( n->o[i] ) n->o[i]->rc++; } t[ci]->rc--; t[ci] = n; }
      return t[ci]->o[id & 255];
   }
   Obj* getW(uint32_t id) { uint32_t ci = id >> 8; if( ci >= t.size() || !t[ci] ) return nullptr; Chunk* c = t[ci]; if( c->rc == 1 ) { Obj* o = c->o[id & 255]; if( !o || o->rc == 1 ) return o; }
      Obj*& s = slot(id); if( s && s->rc > 1 ) { Obj* n = new Obj(*s); s->rc--; s = n; } return s; }
   uint64_t alloc(uint64_t size, ObjKind k, bool init, uint32_t ak = 0) {
      uint32_t id; if( k == K_STACK && !freeStack.empty() ) { id = freeStack.back(); freeStack.pop_back(); } else id = next++;
      Obj* o = new Obj((uint32_t)size, k, init); o->allocKind = ak; slot(id) = o; if( k == K_HEAP ) liveHeap++;
      return (uint64_t)id << 32;
   }
   void release(uint32_t id) { Obj*& s = slot(id); if( s ) { if( s->kind == K_HEAP ) liveHeap--; if( s->kind == K_STACK ) freeStack.push_back(id); unref(s); s = nullptr; } }
};

// ---------------------------------------------------------------- code
enum KOp : uint16_t { K_NOP, K_BIN, K_FBIN, K_FNEG, K_ICMP, K_FCMP, K_LOAD, K_STORE, K_GEP, K_ALLOCA, K_BR, K_CONDBR, K_SWITCH, K_RET, K_CALL, K_INVOKE, K_UNREACH,
   K_SELECT, K_CAST, K_EXTRACTV, K_INSERTV, K_LANDING, K_RESUME, K_FREEZE, K_COPY, K_INTRIN, K_UNSUP, K_EXTELT, K_INSELT, K_SHUF, K_ATOMRMW, K_CMPXCHG };
struct Edge { int pc; std::vector<std::pair<int, int>> copies; };
struct Func;
struct KInst {
   KOp op = K_NOP; uint8_t w = 0, w2 = 0; uint8_t flag = 0; int dst = -1; int a = 0, b = 0, c = 0; uint32_t aux = 0; int64_t off = 0;
   std::vector<int> ops; std::vector<uint64_t> scales; const Instruction* in = nullptr; Type* ty = nullptr; Function* callee = nullptr; Func* kf = nullptr;
};
struct Func { Function* f; std::vector<KInst> code; std::vector<SVal> consts; std::vector<Edge> edges; int nregs = 0; bool entered = false; uint64_t calls = 0; std::unordered_map<const llvm::Value*, int> regOf; std::unordered_map<const llvm::Value*, int> constOf; };
struct Frame { Func* f; int pc = 0; std::vector<SVal> r; std::vector<uint32_t> allocas; uint64_t va = 0; };

struct Exc { uint64_t obj, ti; };
struct State {
   Mem mem; std::vector<Frame> st; std::vector<Expr*> cs; std::unordered_map<uint32_t, bool> known; std::unordered_map<uint32_t, uint64_t> kval;
   std::map<std::string, int> nameCnt; std::vector<Expr*> syms; std::vector<std::string> symNames;
   std::vector<Exc> excs; std::vector<Exc> caught; Exc cur{0, 0}; uint64_t curSel = 0; int depthForks = 0; uint64_t rnd = 1; std::vector<std::string> log;
   uint64_t uninit = 0;
};
struct PathEnd { std::string kind, msg; };   // kind: "exit", "assume", "error:..." , "unsup"
static std::vector<State*> g_work;
static Module* M; static const DataLayout* DL;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr; static std::unordered_map<uint64_t, Function*> faddr; static std::map<uint64_t, const GlobalValue*> gByAddr;
static std::unordered_map<Function*, Func*> funcs;

static uint64_t typeSize(Type* t) { return DL->getTypeStoreSize(t).getFixedValue(); }
static unsigned bitW(Type* t) { if( t->isPointerTy() ) return 64; if( t->isDoubleTy() ) return 64; if( t->isFloatTy() ) return 32; if( t->isIntegerTy() ) return t->getIntegerBitWidth(); return 0; }
static bool isAggTy(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static std::string str(Type* t) { std::string s; raw_string_ostream o(s); t->print(o); return s; }
static std::string str(const llvm::Value* v) { std::string s; raw_string_ostream o(s); v->print(o); return s; }

// ---------------------------------------------------------------- constants
static SVal evalConst(const Constant* c);
static uint64_t addrOf(const GlobalValue* g) {
   if( auto* a = dyn_cast<GlobalAlias>(g) ) return evalConst(a->getAliasee()).c;
   auto it = gaddr.find(g); if( it == gaddr.end() ) { throw PathEnd{"unsup", "no address for global " + g->getName().str()}; } return it->second;
}
static SVal aggConst(const Constant* c, Type* t) {
   std::vector<SVal> v; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
   for( unsigned i = 0; i < n; i++ ) { Constant* e = c->getAggregateElement(i); v.push_back(e ? evalConst(e) : SVal((uint64_t)0)); }
   SVal r; r.e = mkAgg(v); return r;
}
static SVal evalConst(const Constant* c) {
   if( auto* i = dyn_cast<ConstantInt>(c) ) { if( i->getBitWidth() > 64 ) { if( i->getValue().getActiveBits() <= 64 ) return SVal(i->getZExtValue()); throw PathEnd{"unsup", "wide int constant"}; } return SVal(i->getZExtValue()); }
   if( auto* f = dyn_cast<ConstantFP>(c) ) { if( f->getType()->isDoubleTy() || f->getType()->isFloatTy() ) return SVal(f->getValueAPF().bitcastToAPInt().getZExtValue()); return SVal((uint64_t)0); }
   if( isa<ConstantPointerNull>(c) ) return SVal((uint64_t)0);
   if( auto* g = dyn_cast<GlobalValue>(c) ) return SVal(addrOf(g));
   if( isAggTy(c->getType()) ) return aggConst(c, c->getType());
   if( isa<UndefValue>(c) ) return SVal((uint64_t)0);
   if( auto* ce = dyn_cast<ConstantExpr>(c) ) {
      switch( ce->getOpcode() ) {
         case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(ce); APInt off(64, 0); if( !g->accumulateConstantOffset(*DL, off) ) throw PathEnd{"unsup", "const gep"}; return SVal(evalConst(ce->getOperand(0)).c + off.getSExtValue()); }
         case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return evalConst(ce->getOperand(0));
         case Instruction::Trunc: return SVal(evalConst(ce->getOperand(0)).c & maskw(bitW(ce->getType())));
         case Instruction::Sub: return SVal((evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c) & maskw(bitW(ce->getType())));
         case Instruction::Add: return SVal((evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c) & maskw(bitW(ce->getType())));
         case Instruction::ICmp: { uint64_t a = evalConst(ce->getOperand(0)).c, b = evalConst(ce->getOperand(1)).c; auto p = cast<ConstantExpr>(ce)->getPredicate(); if( p == CmpInst::ICMP_EQ ) return SVal((uint64_t)(a == b)); if( p == CmpInst::ICMP_NE ) return SVal((uint64_t)(a != b)); break; }
         default: break;
      }
      throw PathEnd{"unsup", "constant expression " + str(c)};
   }
   throw PathEnd{"unsup", "constant " + str(c)};
}
static void initGlobal(uint8_t* d, const Constant* c) {
   Type* t = c->getType();
   if( isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) ) return;
   if( auto* cds = dyn_cast<ConstantDataSequential>(c) ) { StringRef s = cds->getRawDataValues(); memcpy(d, s.data(), s.size()); return; }
   if( t->isStructTy() ) { auto* sl = DL->getStructLayout(cast<StructType>(t)); for( unsigned i = 0; i < t->getStructNumElements(); i++ ) initGlobal(d + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
   if( t->isArrayTy() ) { uint64_t es = DL->getTypeAllocSize(t->getArrayElementType()); for( uint64_t i = 0; i < t->getArrayNumElements(); i++ ) initGlobal(d + i * es, c->getAggregateElement((unsigned)i)); return; }
   SVal v = evalConst(c); memcpy(d, &v.c, std::min<uint64_t>(8, typeSize(t)));
}

// ---------------------------------------------------------------- compile
static int constIdx(Func* kf, const Constant* c) {
   auto it = kf->constOf.find(c); if( it != kf->constOf.end() ) return it->second;
   kf->consts.push_back(evalConst(c)); int i = -(int)kf->consts.size(); kf->constOf[c] = i; return i;
}
static int opnd(Func* kf, const llvm::Value* v) {
   if( auto* c = dyn_cast<Constant>(v) ) return constIdx(kf, c);
   auto it = kf->regOf.find(v); if( it == kf->regOf.end() ) { if( isa<MetadataAsValue>(v) ) { return constIdx(kf, ConstantInt::get(Type::getInt64Ty(M->getContext()), 0)); } if( isa<InlineAsm>(v) ) throw PathEnd{"unsup", "inline asm"}; throw PathEnd{"unsup", "operand " + str(v)}; }
   return it->second;
}
static int makeEdge(Func* kf, BasicBlock* from, BasicBlock* to, std::unordered_map<BasicBlock*, int>& bbpc) {
   Edge e; e.pc = bbpc[to];
   for( auto& I : *to ) { auto* p = dyn_cast<PHINode>(&I); if( !p ) break; auto* in = p->getIncomingValueForBlock(from); e.copies.push_back({kf->regOf[p], opnd(kf, in)}); }
   kf->edges.push_back(std::move(e)); return (int)kf->edges.size() - 1;
}
static Func* getFunc(Function* f) {
   auto it = funcs.find(f); if( it != funcs.end() ) return it->second;
   if( f->isMaterializable() ) { if( auto err = f->materialize() ) { consumeError(std::move(err)); } }
   Func* kf = new Func(); kf->f = f; funcs[f] = kf;
   int n = 0; for( auto& a : f->args() ) kf->regOf[&a] = n++;
   std::unordered_map<BasicBlock*, int> bbpc; int pc = 0;
   for( auto& bb : *f ) { bbpc[&bb] = pc; for( auto& I : bb ) { if( !I.getType()->isVoidTy() ) kf->regOf[&I] = n++; if( !isa<PHINode>(I) && !isa<DbgInfoIntrinsic>(I) ) pc++; } }
   kf->nregs = n;
   for( auto& bb : *f ) for( auto& I : bb ) {
      if( isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I) ) continue;
      KInst k; k.in = &I; k.ty = I.getType(); if( !I.getType()->isVoidTy() ) k.dst = kf->regOf[&I];
      try {
         auto O = [&](int i) { return opnd(kf, I.getOperand(i)); };
         switch( I.getOpcode() ) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
            case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
               static const std::map<unsigned, Op> mp = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
               k.op = K_BIN; k.aux = mp.at(I.getOpcode()); k.a = O(0); k.b = O(1); if( I.getType()->isVectorTy() ) { k.flag = 1; k.w = bitW(I.getType()->getScalarType()); } else { k.w = I.getType()->getIntegerBitWidth() > 64 ? 0 : bitW(I.getType()); if( !k.w ) k.op = K_UNSUP; } break; }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
               k.op = I.getOpcode() == Instruction::FRem ? K_UNSUP : K_FBIN; k.aux = I.getOpcode() == Instruction::FAdd ? O_FADD : I.getOpcode() == Instruction::FSub ? O_FSUB : I.getOpcode() == Instruction::FMul ? O_FMUL : O_FDIV; k.a = O(0); k.b = O(1);
               if( I.getType()->isVectorTy() ) k.flag = 1; k.w = bitW(I.getType()->getScalarType()); break;
            case Instruction::FNeg: k.op = K_FNEG; k.a = O(0); k.w = bitW(I.getType()->getScalarType()); if( I.getType()->isVectorTy() ) k.flag = 1; break;
            case Instruction::ICmp: k.op = K_ICMP; k.aux = cast<ICmpInst>(I).getPredicate(); k.a = O(0); k.b = O(1); k.w = bitW(I.getOperand(0)->getType()); if( !k.w || k.w > 64 ) k.op = K_UNSUP; break;
            case Instruction::FCmp: k.op = K_FCMP; k.aux = cast<FCmpInst>(I).getPredicate(); k.a = O(0); k.b = O(1); k.w = bitW(I.getOperand(0)->getType()); if( !k.w ) k.op = K_UNSUP; break;
            case Instruction::Load: k.op = K_LOAD; k.a = O(0); break;
            case Instruction::Store: k.op = K_STORE; k.a = O(0); k.b = O(1); k.ty = I.getOperand(0)->getType(); break;
            case Instruction::GetElementPtr: {
               k.op = K_GEP; k.a = O(0); if( I.getType()->isVectorTy() ) { k.op = K_UNSUP; break; }
               for( auto gi = gep_type_begin(&I), ge = gep_type_end(&I); gi != ge; ++gi ) {
                  llvm::Value* ix = gi.getOperand();
                  if( StructType* st = gi.getStructTypeOrNull() ) k.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                  else { uint64_t sz = gi.getSequentialElementStride(*DL); if( auto* ci = dyn_cast<ConstantInt>(ix) ) k.off += ci->getSExtValue() * (int64_t)sz; else { k.ops.push_back(opnd(kf, ix)); k.scales.push_back(sz | ((uint64_t)bitW(ix->getType()) << 48)); } }
               } break; }
            case Instruction::Alloca: { auto& al = cast<AllocaInst>(I); k.op = K_ALLOCA; k.off = DL->getTypeAllocSize(al.getAllocatedType()); k.a = O(0); k.w = bitW(al.getArraySize()->getType()); break; }
            case Instruction::Br: { auto& br = cast<BranchInst>(I); if( br.isUnconditional() ) { k.op = K_BR; k.aux = makeEdge(kf, &bb, br.getSuccessor(0), bbpc); } else { k.op = K_CONDBR; k.a = opnd(kf, br.getCondition()); k.b = makeEdge(kf, &bb, br.getSuccessor(0), bbpc); k.c = makeEdge(kf, &bb, br.getSuccessor(1), bbpc); } break; }
            case Instruction::Switch: { auto& sw = cast<SwitchInst>(I); k.op = K_SWITCH; k.a = opnd(kf, sw.getCondition()); k.w = bitW(sw.getCondition()->getType()); k.b = makeEdge(kf, &bb, sw.getDefaultDest(), bbpc); for( auto& cse : sw.cases() ) { k.scales.push_back(cse.getCaseValue()->getZExtValue()); k.ops.push_back(makeEdge(kf, &bb, cse.getCaseSuccessor(), bbpc)); } break; }
            case Instruction::Ret: k.op = K_RET; k.a = cast<ReturnInst>(I).getReturnValue() ? O(0) : INT_MAX; break;
            case Instruction::Unreachable: k.op = K_UNREACH; break;
            case Instruction::Select: k.op = K_SELECT; k.a = O(0); k.b = O(1); k.c = O(2); k.w = bitW(I.getType()); k.flag = I.getOperand(0)->getType()->isVectorTy(); break;
            case Instruction::ExtractValue: k.op = K_EXTRACTV; k.a = O(0); for( auto i : cast<ExtractValueInst>(I).indices() ) k.ops.push_back(i); break;
            case Instruction::InsertValue: k.op = K_INSERTV; k.a = O(0); k.b = O(1); for( auto i : cast<InsertValueInst>(I).indices() ) k.ops.push_back(i); break;
            case Instruction::ExtractElement: k.op = K_EXTELT; k.a = O(0); k.b = O(1); break;
            case Instruction::InsertElement: k.op = K_INSELT; k.a = O(0); k.b = O(1); k.c = O(2); break;
            case Instruction::ShuffleVector: { auto& sv = cast<ShuffleVectorInst>(I); k.op = K_SHUF; k.a = O(0); k.b = O(1); for( int m : sv.getShuffleMask() ) k.ops.push_back(m); break; }
            case Instruction::LandingPad: k.op = K_LANDING; break;
            case Instruction::Resume: k.op = K_RESUME; k.a = O(0); break;
            case Instruction::Freeze: k.op = K_COPY; k.a = O(0); break;
            case Instruction::Fence: k.op = K_NOP; break;
            case Instruction::AtomicRMW: { auto& r = cast<AtomicRMWInst>(I); k.op = K_ATOMRMW; k.a = O(0); k.b = O(1); k.aux = r.getOperation(); k.w = bitW(I.getType()); break; }
            case Instruction::Call: case Instruction::Invoke: {
               auto& cb = cast<CallBase>(I); k.op = I.getOpcode() == Instruction::Call ? K_CALL : K_INVOKE;
               if( cb.isInlineAsm() ) { k.op = K_UNSUP; break; }
               llvm::Value* cv = cb.getCalledOperand()->stripPointerCasts(); if( auto* al = dyn_cast<GlobalAlias>(cv) ) cv = al->getAliaseeObject();
               k.callee = dyn_cast<Function>(cv); if( !k.callee ) k.a = opnd(kf, cb.getCalledOperand());
               for( unsigned i = 0; i < cb.arg_size(); i++ ) k.ops.push_back(opnd(kf, cb.getArgOperand(i)));
               if( k.op == K_INVOKE ) { auto& iv = cast<InvokeInst>(I); k.b = makeEdge(kf, &bb, iv.getNormalDest(), bbpc); k.c = makeEdge(kf, &bb, iv.getUnwindDest(), bbpc); }
               if( k.callee && k.callee->isIntrinsic() && k.op == K_CALL ) k.aux = k.callee->getIntrinsicID();
               break; }
            default:
               if( auto* ci = dyn_cast<CastInst>(&I) ) { k.op = K_CAST; k.aux = ci->getOpcode(); k.a = O(0); k.w = bitW(ci->getSrcTy()); k.w2 = bitW(ci->getDestTy()); k.flag = (ci->getSrcTy()->isDoubleTy() ? 1 : 0) | (ci->getDestTy()->isDoubleTy() ? 2 : 0) | (ci->getSrcTy()->isFloatTy() ? 4 : 0) | (ci->getDestTy()->isFloatTy() ? 8 : 0); if( !k.w || !k.w2 || k.w > 64 || k.w2 > 64 ) k.op = K_UNSUP; }
               else k.op = K_UNSUP;
         }
      } catch( PathEnd& p ) { k = KInst(); k.in = &I; k.op = K_UNSUP; }
      kf->code.push_back(std::move(k));
   }
   return kf;
}

// ---------------------------------------------------------------- state helpers
static State* S;  // current
static bool g_freed = false;
static inline const SVal& val(const Frame& f, int i) { return i >= 0 ? f.r[i] : f.f->consts[-i - 1]; }
static std::string backtrace(State& s) { std::string o; int n = 0; for( int i = (int)s.st.size() - 1; i >= 0 && n < 14; i--, n++ ) o += (n ? " < " : "") + demangle(s.st[i].f->f->getName().str()).substr(0, 100); return o; }
[[noreturn]] static void err(const std::string& k, const std::string& m) { throw PathEnd{"error:" + k, m}; }
[[noreturn]] static void unsup(const std::string& m) { throw PathEnd{"unsup", m}; }

static void addC(State& s, Expr* c) {
   if( c->op == O_CONST ) return;
   s.cs.push_back(c); s.known[c->id] = true;
   if( c->op == O_XOR && c->w == 1 && c->k[1]->op == O_CONST ) s.known[c->k[0]->id] = false;
   else s.known[mkNot(c)->id] = false;
   if( c->op == O_EQ && c->k[1]->op == O_CONST ) s.kval[c->k[0]->id] = c->k[1]->c;
   if( c->op == O_AND && c->w == 1 ) { addC(s, c->k[0]); addC(s, c->k[1]); }
   if( c->op == O_XOR && c->w == 1 && c->k[1]->op == O_CONST && c->k[0]->op == O_OR ) { addC(s, mkNot(c->k[0]->k[0])); addC(s, mkNot(c->k[0]->k[1])); }
}
static std::unordered_map<uint64_t, Res> qcache;
static Res sat(State& s, Expr* q, Model* m = nullptr, bool hard = false) {
   if( q->op == O_CONST && !m ) return q->c ? SAT : UNSAT;
   std::vector<Expr*> cs = m ? s.cs : slice(s.cs, q);
   if( m ) { // include side constraints for all
      std::vector<Expr*> all = s.cs; all.push_back(q); std::vector<Expr*> out; std::set<uint32_t> vs; std::vector<Expr*> work = all; std::set<Expr*> seen(all.begin(), all.end());
      while( !work.empty() ) { Expr* e = work.back(); work.pop_back(); out.push_back(e); for( auto v : *e->vars ) if( vs.insert(v).second ) for( Expr* sd : g_vars[v].side ) if( seen.insert(sd).second ) work.push_back(sd); }
      return solveRaw(out, m, &s.syms, hard);
   }
   cs.push_back(q);
   uint64_t h = 1469598103934665603ull; for( Expr* e : cs ) { h ^= e->id; h *= 1099511628211ull; h ^= h >> 29; }
   auto it = qcache.find(h); if( it != qcache.end() && !(hard && it->second == UNKNOWN) ) { g_ss.cacheHits++; return it->second; }
   Res r = solveRaw(cs, nullptr, nullptr, hard);
   qcache[h] = r; return r;
}
static uint64_t modelVal(State& s, Expr* e) { // a feasible value of BV expression e
   Expr* v = mkVar("!val" + std::to_string(e->w), e->w, S_BV);
   std::vector<Expr*> cs = slice(s.cs, e); cs.push_back(mkBin(O_EQ, v, e));
   Model m; std::vector<Expr*> mv{v}; Res r = solveRaw(cs, &m, &mv, true);
   if( r != SAT ) unsup("no model for concretisation");
   return m[v->aux].second & maskw(e->w);
}
static State* cloneState(State& s) { n_states++; State* n = new State(s); return n; }
// returns the truth value of cond on this path, forking when both are feasible
static bool decide(Expr* c) {
   if( c->op == O_CONST ) return c->c;
   State& s = *S;
   auto it = s.known.find(c->id); if( it != s.known.end() ) return it->second;
   if( c->op == O_AND && c->w == 1 ) { auto i1 = s.known.find(c->k[0]->id), i2 = s.known.find(c->k[1]->id); if( (i1 != s.known.end() && !i1->second) || (i2 != s.known.end() && !i2->second) ) return false; }
   if( c->op == O_OR && c->w == 1 ) { auto i1 = s.known.find(c->k[0]->id), i2 = s.known.find(c->k[1]->id); if( (i1 != s.known.end() && i1->second) || (i2 != s.known.end() && i2->second) ) return true; }
   Expr* nc = mkNot(c);
   Res rt = sat(s, c);
   if( rt == UNSAT ) { s.known[c->id] = false; s.known[nc->id] = true; return false; }
   Res rf = sat(s, nc);
   if( rf == UNSAT ) { s.known[c->id] = true; s.known[nc->id] = false; return true; }
   if( rt == UNKNOWN || rf == UNKNOWN ) g_stubs["branch feasibility unknown (both sides explored)"]++;
   n_forks++; if( g_trace ) fprintf(stderr, "fork %s\n", backtrace(s).substr(0, 300).c_str());
   State* o = cloneState(s); addC(*o, nc); o->depthForks++; g_work.push_back(o);
   addC(s, c); s.depthForks++;
   return true;
}
static uint64_t concretize(const SVal& v, unsigned w) {
   if( v.isConst() ) return v.c;
   if( v.e->op == O_AGG ) unsup("concretize aggregate");
   Expr* e = v.e;
   auto it = S->kval.find(e->id); if( it != S->kval.end() ) return it->second;
   if( e->op == O_BITS ) unsup("concretize bits of a double");
   if( e->op == O_ITE ) { // split on the condition first: keeps enumeration small
      if( decide(e->k[0]) ) return concretize(SVal(e->k[1]), w); else return concretize(SVal(e->k[2]), w); }
   uint64_t c = modelVal(*S, e);
   if( decide(mkBin(O_EQ, e, mkConst(c, e->w))) ) return c;
   // the fork above explores e != c by re-execution
   unsup("concretize");
}

// ---------------------------------------------------------------- memory access
static Obj* lookup(uint64_t addr, uint64_t n, uint32_t& off, bool write) {
   uint32_t id = addr >> 32; off = (uint32_t)addr;
   Obj* o = write ? S->mem.getW(id) : S->mem.get(id);
   if( !o ) { char b[100]; if( addr < (1ull << 32) ) { snprintf(b, 100, "%s at null+%llu", write ? "write" : "read", (unsigned long long)addr); err("null-deref", b); } snprintf(b, 100, "%s of %llu bytes at freed/invalid address %llx", write ? "write" : "read", (unsigned long long)n, (unsigned long long)addr); err("use-after-free", b); }
   if( (uint64_t)off + n > o->size ) { char b[120]; snprintf(b, 120, "%s of %llu bytes at offset %u of object of size %u (kind %d)", write ? "write" : "read", (unsigned long long)n, off, o->size, o->kind); err("out-of-bounds", b); }
   if( o->kind == K_FUNC ) err("bad-access", "data access to function");
   if( write && o->ro ) err("write-to-constant", "write to constant memory");
   return o;
}
static void killSym(Obj* o, uint32_t off, uint32_t n) { // remove symbolic overlays in [off,off+n); split partial ones
   auto& v = o->sym; if( v.empty() ) return;
   std::vector<Sym> add; bool touched = false;
   for( size_t i = 0; i < v.size(); ) {
      Sym s = v[i];
      if( s.off < off + n && off < s.off + s.n ) {
         touched = true;
         v[i] = v.back(); v.pop_back();
         if( s.off >= off && s.off + s.n <= off + n ) continue;
         Expr* e = s.e; if( e->sort == S_DBL ) { e = mkBits(e); }
         for( uint32_t j = 0; j < s.n; j++ ) { uint32_t p = s.off + j; if( p >= off && p < off + n ) continue; Expr* be = mkExtract(e, 8 * j, 8); if( be->op == O_CONST ) { o->d[p] = be->c; o->m[p] = 0xff; } else add.push_back({p, 1, be}); }
      } else i++;
   }
   if( touched ) for( auto& a : add ) v.push_back(a);
}
static void storeV(uint64_t addr, const SVal& v, unsigned n, bool dbl) {
   uint32_t off; Obj* o = lookup(addr, n, off, true);
   if( !o->sym.empty() ) killSym(o, off, n);
   if( v.isConst() ) { memcpy(o->d + off, &v.c, n); memset(o->m + off, 0xff, n); }
   else { Expr* e = v.e; if( e->op == O_AGG ) unsup("store agg"); if( !dbl && e->w < 8 * n ) e = mkExt(O_ZEXT, e, 8 * n); if( e->op == O_BITS ) e = e->k[0]; o->sym.push_back({off, n, e}); memset(o->m + off, 1, n); }
}
static SVal loadV(uint64_t addr, unsigned n, bool dbl) {
   uint32_t off; Obj* o = lookup(addr, n, off, false);
   bool conc = true; 
   if( n == 8 ) { uint64_t mm; memcpy(&mm, o->m + off, 8); conc = mm == ~0ull; } else for( unsigned i = 0; i < n; i++ ) if( o->m[off + i] != 0xff ) { conc = false; break; }
   if( conc ) { uint64_t c = 0; memcpy(&c, o->d + off, n); return SVal(c); }
   for( auto& s : o->sym ) if( s.off == off && s.n == n ) {
      Expr* e = s.e;
      if( dbl && e->sort == S_BV ) e = mkFromBits(e); else if( !dbl && e->sort == S_DBL ) e = mkBits(e);
      return SVal(e);
   }
   bool anySym = false, anyUn = false; for( unsigned i = 0; i < n; i++ ) { if( o->m[off + i] == 1 ) anySym = true; if( o->m[off + i] == 0 ) anyUn = true; }
   if( anyUn ) { // uninitialised memory: arbitrary value, fixed from now on
      Obj* w = S->mem.getW(addr >> 32);
      if( !anySym && std::all_of(o->m + off, o->m + off + n, [](uint8_t x) { return x == 0; }) ) {
         Expr* e = mkVar("!uninit" + std::to_string(S->uninit++), dbl ? 64 : 8 * n, dbl ? S_DBL : S_BV);
         w->sym.push_back({off, n, e}); memset(w->m + off, 1, n); return SVal(e);
      }
      for( unsigned i = 0; i < n; i++ ) if( w->m[off + i] == 0 ) { Expr* e = mkVar("!uninit" + std::to_string(S->uninit++), 8, S_BV); w->sym.push_back({off + i, 1, e}); w->m[off + i] = 1; }
      o = w;
   }
   // assemble bytes
   Expr* r = nullptr;
   for( unsigned i = 0; i < n; i++ ) {
      Expr* b = nullptr;
      if( o->m[off + i] == 0xff ) b = mkConst(o->d[off + i], 8);
      else for( auto& s : o->sym ) if( s.off <= off + i && off + i < s.off + s.n ) { Expr* e = s.e; if( e->sort == S_DBL ) e = mkBits(e); b = mkExtract(e, 8 * (off + i - s.off), 8); break; }
      if( !b ) unsup("load assembly");
      r = r ? mkConcat(b, r) : b;
   }
   if( dbl ) r = mkFromBits(r);
   return SVal(r);
}
static SVal loadT(uint64_t addr, Type* t) {
   if( isAggTy(t) ) {
      std::vector<SVal> v;
      if( t->isStructTy() ) { auto* sl = DL->getStructLayout(cast<StructType>(t)); for( unsigned i = 0; i < t->getStructNumElements(); i++ ) v.push_back(loadT(addr + sl->getElementOffset(i), t->getStructElementType(i))); }
      else { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType(); uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); uint64_t es = DL->getTypeAllocSize(et); for( uint64_t i = 0; i < n; i++ ) v.push_back(loadT(addr + i * es, et)); }
      SVal r; r.e = mkAgg(v); return r;
   }
   unsigned n = typeSize(t); 
   if( t->isX86_FP80Ty() || n > 8 ) { if( n == 16 && t->isIntegerTy() ) { std::vector<SVal> v{loadV(addr, 8, false), loadV(addr + 8, 8, false)}; SVal r; r.e = mkAgg(v); return r; } unsup("load type " + str(t)); }
   SVal v = loadV(addr, n, t->isDoubleTy());
   unsigned w = bitW(t);
   if( w < 8 * n ) { if( v.isConst() ) v.c &= maskw(w); else v = SVal(mkExtract(v.e, 0, w)); }
   return v;
}
static void storeT(uint64_t addr, const SVal& v, Type* t) {
   if( isAggTy(t) || (t->isIntegerTy() && bitW(t) > 64) ) {
      if( !v.e ) { // zero/undef aggregate
         uint64_t n = typeSize(t); for( uint64_t i = 0; i < n; i++ ) storeV(addr + i, SVal((uint64_t)0), 1, false); return; }
      auto& a = *v.e->agg;
      if( t->isIntegerTy() ) { storeV(addr, a[0], 8, false); storeV(addr + 8, a[1], 8, false); return; }
      if( t->isStructTy() ) { auto* sl = DL->getStructLayout(cast<StructType>(t)); for( unsigned i = 0; i < t->getStructNumElements(); i++ ) storeT(addr + sl->getElementOffset(i), a[i], t->getStructElementType(i)); }
      else { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType(); uint64_t es = DL->getTypeAllocSize(et); for( size_t i = 0; i < a.size(); i++ ) storeT(addr + i * es, a[i], et); }
      return;
   }
   if( typeSize(t) > 8 ) unsup("store type " + str(t));
   storeV(addr, v, typeSize(t), t->isDoubleTy());
}
static void memCopy(uint64_t dst, uint64_t src, uint64_t n) {
   if( !n || dst == src ) return;
   uint32_t so, dof; Obj* s = lookup(src, n, so, false);
   // gather
   std::vector<uint8_t> d(s->d + so, s->d + so + n), m(s->m + so, s->m + so + n); std::vector<Sym> sy;
   if( !s->sym.empty() ) for( auto& x : s->sym ) if( x.off < so + n && so < x.off + x.n ) {
      if( x.off >= so && x.off + x.n <= so + n ) sy.push_back({(uint32_t)(x.off - so), x.n, x.e});
      else { Expr* e = x.e; if( e->sort == S_DBL ) e = mkBits(e); for( uint32_t j = 0; j < x.n; j++ ) { uint32_t p = x.off + j; if( p >= so && p < so + n ) { Expr* b = mkExtract(e, 8 * j, 8); if( b->op == O_CONST ) { d[p - so] = b->c; m[p - so] = 0xff; } else sy.push_back({p - so, 1, b}); } } }
   }
   Obj* o = lookup(dst, n, dof, true);
   killSym(o, dof, n);
   memcpy(o->d + dof, d.data(), n); memcpy(o->m + dof, m.data(), n);
   for( auto& x : sy ) o->sym.push_back({x.off + dof, x.n, x.e});
}
static void memSet(uint64_t dst, const SVal& v, uint64_t n) {
   if( !n ) return;
   if( !v.isConst() ) { for( uint64_t i = 0; i < n; i++ ) storeV(dst + i, v, 1, false); return; }
   uint32_t off; Obj* o = lookup(dst, n, off, true); killSym(o, off, n); memset(o->d + off, (int)v.c, n); memset(o->m + off, 0xff, n);
}
static std::string readStr(uint64_t a) { std::string s; for( ;; ) { SVal v = loadV(a++, 1, false); uint64_t c = concretize(v, 8); if( !c ) break; s += (char)c; if( s.size() > 1000000 ) unsup("string too long"); } return s; }

// ---------------------------------------------------------------- exceptions / RTTI
static uint64_t rd64(uint64_t a) { SVal v = loadV(a, 8, false); return concretize(v, 64); }
static std::string symAt(uint64_t a) { auto it = gByAddr.upper_bound(a); if( it == gByAddr.begin() ) return ""; --it; if( (it->first >> 32) != (a >> 32) ) return ""; return it->second->getName().str(); }
// kinds: 1 class, 2 si, 3 vmi, 0 unknown
static int tiKind(uint64_t ti) {
   const std::string n = symAt(rd64(ti));
   if( n == "_ZTVN10__cxxabiv117__class_type_infoE" ) return 1;
   if( n == "_ZTVN10__cxxabiv120__si_class_type_infoE" ) return 2;
   if( n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE" ) return 3;
   return 0;
}
static bool sameTI(uint64_t a, uint64_t b) { if( a == b ) return true; return !symAt(a).empty() && symAt(a) == symAt(b); }
// collect all occurrences (offset) of dst as a base of class ti located at full+off
static void findBases(uint64_t ti, int64_t off, uint64_t full, uint64_t dst, std::set<int64_t>& out) {
   if( sameTI(ti, dst) ) { out.insert(off); return; }
   int k = tiKind(ti);
   if( k == 2 ) findBases(rd64(ti + 16), off, full, dst, out);
   else if( k == 3 ) {
      uint64_t cnt = rd64(ti + 16) >> 32;
      for( uint64_t i = 0; i < cnt; i++ ) {
         uint64_t b = rd64(ti + 24 + 16 * i); int64_t fl = (int64_t)rd64(ti + 32 + 16 * i); int64_t bo = fl >> 8;
         if( fl & 1 ) { if( !full ) continue; uint64_t vp = rd64(full + off); bo = (int64_t)rd64(vp + bo); }
         findBases(b, off + bo, full, dst, out);
      }
   }
}
static bool tiMatch(uint64_t thrown, uint64_t want, int64_t& adj) { std::set<int64_t> o; findBases(thrown, 0, 0, want, o); if( o.empty() ) return false; adj = *o.begin(); return true; }
static std::vector<uint64_t> typeIds; static uint64_t typeIdFor(uint64_t a) { for( size_t i = 0; i < typeIds.size(); i++ ) if( typeIds[i] == a ) return i + 1; typeIds.push_back(a); return typeIds.size(); }
static void popFrame(State& s) { for( auto id : s.st.back().allocas ) s.mem.release(id); if( s.st.back().va ) s.mem.release(s.st.back().va >> 32); s.st.pop_back(); }
static void takeEdge(Frame& f, int e) {
   Edge& ed = f.f->edges[e];
   if( ed.copies.size() == 1 ) f.r[ed.copies[0].first] = val(f, ed.copies[0].second);
   else if( !ed.copies.empty() ) { std::vector<SVal> t; t.reserve(ed.copies.size()); for( auto& c : ed.copies ) t.push_back(val(f, c.second)); for( size_t i = 0; i < t.size(); i++ ) f.r[ed.copies[i].first] = t[i]; }
   f.pc = ed.pc;
}
static std::string tiName(uint64_t ti) { std::string n = symAt(ti); return demangle(n); }
// unwinds from the current top frame, whose pc is at a call/invoke (or resume, first=true pops it)
static void unwind(State& s, bool popFirst) {
   bool first = popFirst;
   while( !s.st.empty() ) {
      Frame& f = s.st.back();
      KInst& k = f.f->code[f.pc];
      if( !first && k.op == K_INVOKE ) {
         auto* lp = cast<InvokeInst>(k.in)->getLandingPadInst();
         uint64_t sel = 0; bool enter = lp->isCleanup();
         for( unsigned i = 0; i < lp->getNumClauses(); i++ ) {
            Constant* c = lp->getClause(i);
            if( lp->isCatch(i) ) {
               uint64_t want = evalConst(c).c; int64_t adj = 0;
               if( !want || tiMatch(s.cur.ti, want, adj) ) { sel = typeIdFor(want); enter = true; break; }
            } else { // filter: empty filter = no exceptions allowed
               if( c->getType()->isArrayTy() && c->getType()->getArrayNumElements() == 0 ) { sel = (uint64_t)-1; enter = true; break; }
               unsup("exception filter");
            }
         }
         if( enter ) { s.curSel = sel & 0xffffffff; takeEdge(f, k.c); return; }
      }
      first = false;
      popFrame(s);
   }
   throw PathEnd{"error:uncaught-exception", "uncaught exception of type " + tiName(s.cur.ti)};
}

// ---------------------------------------------------------------- printf-like formatting
// A symbolic number printed with enough digits becomes a token that strtod/strtol turn back into the same expression;
// printed with fewer digits (%g with precision < 17) it reads back as some other number.
static std::vector<Expr*> g_tokD, g_tokI; static State* g_tokS;
static std::string tokD(Expr* e, int prec) { g_tokD.push_back(e); char b[64]; snprintf(b, 64, "7.7%d%09ue77", prec >= 17 ? 7 : 6, (unsigned)g_tokD.size()); return b; }
static std::string tokI(Expr* e) { g_tokI.push_back(e); char b[64]; snprintf(b, 64, "777000000%09u", (unsigned)g_tokI.size()); return b; }
static SVal mkSym(State& s, const std::string& base, unsigned w, int sort, unsigned outW);
static bool readTokD(State& s, const std::string& t, SVal& r) {
   if( t.size() < 16 || t.compare(0, 3, "7.7") || t.compare(13, 3, "e77") || (t[3] != '7' && t[3] != '6') ) return false; unsigned n = (unsigned)atol(t.substr(4, 9).c_str()); if( !n || n > g_tokD.size() ) return false;
   Expr* e = g_tokD[n - 1]; if( t[3] == '7' ) { r = SVal(e); return true; }
   r = mkSym(s, "rounded", 64, S_DBL, 64); addC(s, mkNot(mkF(O_FEQ, r.e, e))); return true; }
static bool readTokI(const std::string& t, SVal& r) { if( t.size() < 18 || t.compare(0, 9, "777000000") ) return false; unsigned n = (unsigned)atol(t.substr(9, 9).c_str()); if( !n || n > g_tokI.size() ) return false; Expr* e = g_tokI[n - 1]; r = SVal(e->w < 64 ? mkExt(O_SEXT, e, 64) : e); return true; }
struct ArgSrc { std::function<SVal()> nextI; std::function<SVal()> nextD; };
static std::string formatStr(const std::string& fmt, ArgSrc& a) {
   std::string out;
   for( size_t i = 0; i < fmt.size(); i++ ) {
      if( fmt[i] != '%' ) { out += fmt[i]; continue; }
      if( fmt[i + 1] == '%' ) { out += '%'; i++; continue; }
      std::string sp = "%"; i++;
      auto take = [&](const char* set) { while( i < fmt.size() && strchr(set, fmt[i]) ) { if( fmt[i] == '*' ) { sp += std::to_string((int)concretize(a.nextI(), 32)); i++; } else sp += fmt[i++]; } };
      take("-+ #0"); take("0123456789*"); if( fmt[i] == '.' ) { sp += '.'; i++; take("0123456789*"); }
      std::string len; while( i < fmt.size() && strchr("hlLzjt", fmt[i]) ) len += fmt[i++];
      char c = fmt[i]; char buf[2048];
      if( strchr("di", c) ) { SVal v = a.nextI(); if( !v.isConst() ) { Expr* e = v.e; if( len.empty() && e->w > 32 ) e = mkExtract(e, 0, 32); out += tokI(e); continue; } long long x = len.empty() ? (int)v.c : (long long)v.c; snprintf(buf, sizeof buf, (sp + "lld").c_str(), x); out += buf; }
      else if( strchr("uxXo", c) ) { SVal v = a.nextI(); if( !v.isConst() ) { out += "<sym>"; continue; } unsigned long long x = len.empty() ? (unsigned)v.c : v.c; snprintf(buf, sizeof buf, (sp + "ll" + c).c_str(), x); out += buf; }
      else if( c == 'c' ) { SVal v = a.nextI(); snprintf(buf, sizeof buf, (sp + "c").c_str(), v.isConst() ? (int)v.c : '?'); out += buf; }
      else if( c == 's' ) { SVal v = a.nextI(); std::string s = v.isConst() ? (v.c ? readStr(v.c) : "(null)") : "<sym>"; std::vector<char> b(s.size() + 600); snprintf(b.data(), b.size(), (sp + "s").c_str(), s.c_str()); out += b.data(); }
      else if( c == 'p' ) { SVal v = a.nextI(); snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)v.c); out += buf; }
      else if( strchr("eEfFgGaA", c) ) { SVal v = a.nextD(); if( !v.isConst() ) { size_t q = sp.find('.'); int prec = q == std::string::npos ? 6 : atoi(sp.c_str() + q + 1); out += tokD(v.e, c == 'g' || c == 'G' ? prec : c == 'e' || c == 'E' ? prec + 1 : c == 'a' || c == 'A' ? 17 : 0); continue; } snprintf(buf, sizeof buf, (sp + c).c_str(), asD(v.c)); out += buf; }
      else out += c;
   }
   return out;
}

// ---------------------------------------------------------------- external functions
typedef std::function<SVal(State&, Frame&, KInst&, std::vector<SVal>&)> Handler;
static std::unordered_map<std::string, Handler> H;
static SVal applyF1(const std::string& n, const SVal& a);
static SVal fdivide(const SVal& a, const SVal& b);
static void writeBack(uint64_t buf, uint64_t n, const std::string& s) { if( !n ) return; uint64_t m = std::min<uint64_t>(n - 1, s.size()); for( uint64_t i = 0; i < m; i++ ) storeV(buf + i, SVal((uint64_t)(uint8_t)s[i]), 1, false); storeV(buf + m, SVal((uint64_t)0), 1, false); }
static ArgSrc vaArgs(std::vector<SVal>& args, size_t start) { auto i = std::make_shared<size_t>(start); auto f = [&args, i]() { if( *i >= args.size() ) err("varargs", "missing vararg"); return args[(*i)++]; }; return {f, f}; }
static ArgSrc vaList(uint64_t ap) {
   // struct { i32 gp, i32 fp, ptr overflow, ptr reg }: the engine always passes in the overflow area
   auto f = [ap](bool dbl) { uint64_t p = concretize(loadV(ap + 8, 8, false), 64); SVal v = loadV(p, 8, dbl); storeV(ap + 8, SVal(p + 8), 8, false); return v; };
   return {[f]() { return f(false); }, [f]() { return f(true); }};
}
static std::string ceFile(State& s, const Model& m, const std::string& label, const std::string& kind) {
   static int n = 0; std::string fn = g_ceDir + "/" + g_tag + "." + std::to_string(g_case) + "." + std::to_string(n++) + ".ce";
   std::ofstream o(fn); o << "# " << kind << " " << label << "\ncase " << g_case << "\nmode " << (g_mode == REAL ? 1 : 2) << "\n";
   for( size_t i = 0; i < s.syms.size(); i++ ) { auto it = m.find(s.syms[i]->aux); uint64_t b = 0; double d = 0; if( it != m.end() ) { b = it->second.second; d = it->second.first; }
      char buf[200]; snprintf(buf, 200, " %016llx %.17g", (unsigned long long)b, s.syms[i]->sort == S_DBL ? d : (double)sx(b, s.syms[i]->w)); std::string nm = s.symNames[i]; for( char& ch : nm ) if( ch == ' ' ) ch = '_'; o << "var " << nm << buf << "\n"; }
   return fn;
}
static void report(State& s, Expr* extra, const std::string& kind, const std::string& label, const std::string& msg) {
   int same = 0; for( auto& v : g_viol ) if( v.label == label && v.kind == kind ) same++;
   g_labels[label].fail++;
   if( same >= g_maxViol ) return;
   Model m; Res r = sat(s, extra ? extra : mkConst(1, 1), &m, true);
   if( r == UNSAT ) { fprintf(stderr, "[ipsym] discarded infeasible failure %s\n", label.c_str()); return; }
   if( r == UNKNOWN ) { g_notes.insert("failure of '" + label + "' (" + msg + ") has no model: solver gave up"); return; }
   std::string fn = ceFile(s, m, label, kind);
   g_viol.push_back({kind, label, msg, fn, backtrace(s)});
   fprintf(stderr, "[ipsym] FAIL %s label=%s %s\n   at %s\n   ce %s\n", kind.c_str(), label.c_str(), msg.c_str(), backtrace(s).c_str(), fn.c_str());
}
static void doCheck(State& s, Expr* c, const std::string& label, const std::function<std::vector<Expr*>()>& prefer = nullptr) {
   LabelStat& L = g_labels[label];
   if( c->op == O_CONST ) { L.conc++; n_checks_conc++; if( !c->c ) { report(s, nullptr, "check", label, "assertion false on a whole path"); throw PathEnd{"failed", label}; } return; }
   auto it = s.known.find(c->id); if( it != s.known.end() && it->second ) { L.sym++; n_checks_sym++; return; }
   L.sym++; n_checks_sym++;
   Expr* nc = mkNot(c);
   Res r = sat(s, nc, nullptr, true);
   if( r == UNSAT ) { s.known[c->id] = true; return; }
   if( r == UNKNOWN ) { L.unknown++; g_notes.insert("check '" + label + "': solver gave no verdict"); return; }
   Expr* best = nc;
   if( prefer ) for( Expr* p : prefer() ) { Expr* q = mkBin(O_AND, nc, p); if( sat(s, q) == SAT ) { best = q; break; } }
   else if( g_mode == REAL ) { Expr* q = nc; for( Expr* v : s.syms ) if( v->sort == S_DBL ) q = mkBin(O_AND, q, mkBin(O_AND, mkF(O_FLE, mkDConst(fromD(-1e3)), v), mkF(O_FLE, v, mkDConst(fromD(1e3))))); if( q != nc && sat(s, q) == SAT ) best = q; }
   report(s, best, "check", label, "assertion can fail");
   if( sat(s, c) == UNSAT ) throw PathEnd{"failed", label};
   addC(s, c);
}
static Expr* boolArg(const SVal& v) { if( v.isConst() ) return mkConst((v.c & 0xffffffff) != 0, 1); Expr* e = v.e; if( e->w == 1 ) return e; return mkNot(mkBin(O_EQ, e, mkConst(0, e->w))); }
static std::string uniq(State& s, const std::string& n) { int& c = s.nameCnt[n]; return n + "#" + std::to_string(c++); }
static SVal mkSym(State& s, const std::string& base, unsigned w, int sort, unsigned outW) {
   std::string n = uniq(s, base); Expr* e;
   if( sort == S_DBL && g_mode == FPM ) { Expr* b = mkVar(n, 64, S_BV); s.syms.push_back(b); s.symNames.push_back(n); return SVal(mkFromBits(b)); }
   e = mkVar(n, w, sort); s.syms.push_back(e); s.symNames.push_back(n);
   if( sort == S_BV && outW > w ) return SVal(mkExt(w == 1 ? O_ZEXT : O_SEXT, e, outW));
   return SVal(e);
}
static uint64_t doAlloc(State& s, const SVal& szv, uint32_t ak, bool zero = false) {
   uint64_t n = concretize(szv, 64); if( n > (1ull << 28) ) err("huge-alloc", "allocation of " + std::to_string(n) + " bytes");
   return s.mem.alloc(n, K_HEAP, zero, ak);
}
static void doFree(State& s, uint64_t p, uint32_t ak) {
   if( !p ) return; Obj* o = s.mem.get(p >> 32); if( !o ) err("double-free", "free of freed/invalid pointer"); if( o->kind != K_HEAP || (uint32_t)p ) err("bad-free", "free of non-heap or interior pointer");
   if( o->allocKind != ak ) err("alloc-dealloc-mismatch", "mismatched deallocation"); s.mem.release(p >> 32);
}
static std::vector<std::string> g_execOrder;

static SVal unaryMath(const std::string& n, const SVal& a) {
   if( a.isConst() ) { double x = asD(a.c), r; if( n == "log" ) r = log(x); else if( n == "exp" ) r = exp(x); else if( n == "sin" ) r = sin(x); else if( n == "cos" ) r = cos(x); else if( n == "tan" ) r = tan(x); else if( n == "log10" ) r = log10(x); else if( n == "atan" ) r = atan(x); else if( n == "asin" ) r = asin(x); else if( n == "acos" ) r = acos(x); else if( n == "exp2" ) r = exp2(x); else if( n == "log2" ) r = log2(x); else if( n == "round" ) r = round(x); else if( n == "cbrt" ) r = cbrt(x); else unsup("math " + n); return SVal(fromD(r)); }
   if( g_mode == REAL && (n == "log" || n == "log10") ) { // domain split
      Expr* z = mkDConst(0); if( decide(mkF(O_FEQ, a.e, z)) ) return SVal(fromD(-INFINITY)); if( decide(mkF(O_FLT, a.e, z)) ) return SVal(fromD(NAN)); }
   return SVal(mkUF(n, a.e));
}
static SVal fsqrt(const SVal& a) {
   if( a.isConst() ) return SVal(fromD(std::sqrt(asD(a.c))));
   if( g_mode == REAL ) { Expr* z = mkDConst(0); if( decide(mkF(O_FLT, a.e, z)) ) return SVal(fromD(NAN)); }
   return SVal(mkF(O_FSQRT, a.e));
}
static SVal fpow(const SVal& a, const SVal& b) {
   if( a.isConst() && b.isConst() ) return SVal(fromD(pow(asD(a.c), asD(b.c))));
   if( b.isConst() ) { double p = asD(b.c); if( p == 0 ) return SVal(fromD(1.0)); if( p == 1 ) return a; if( g_mode == REAL ) { if( p == 2 ) return SVal(mkF(O_FMUL, a.e, a.e)); if( p == 3 ) return SVal(mkF(O_FMUL, a.e, mkF(O_FMUL, a.e, a.e))); if( p == 0.5 ) return fsqrt(a); if( p == -1 ) return fdivide(SVal(fromD(1)), a); } }
   if( a.isConst() && asD(a.c) == 1. ) return a;
   return SVal(mkUF("pow", toE(a, 64, S_DBL), toE(b, 64, S_DBL)));
}
static SVal fabsV(const SVal& a) { if( a.isConst() ) return SVal(a.c & 0x7fffffffffffffffull); return SVal(mkF(O_FABS, a.e)); }
static SVal fminmax(const SVal& a, const SVal& b, bool mx) {
   if( a.isConst() && b.isConst() ) return SVal(fromD(mx ? fmax(asD(a.c), asD(b.c)) : fmin(asD(a.c), asD(b.c))));
   Expr* x = toE(a, 64, S_DBL), *y = toE(b, 64, S_DBL);
   Expr* r = mx ? mkIte(mkF(O_FLT, x, y), y, x) : mkIte(mkF(O_FLT, y, x), y, x);
   if( g_mode == FPM ) r = mkIte(mkF(O_FISNAN, x), y, mkIte(mkF(O_FISNAN, y), x, r));
   return SVal(r);
}
static SVal sgnSplitInf(Expr* x, double whenPos, double whenNeg, double whenZero) { Expr* z = mkDConst(0); if( decide(mkF(O_FLT, z, x)) ) return SVal(fromD(whenPos)); if( decide(mkF(O_FLT, x, z)) ) return SVal(fromD(whenNeg)); return SVal(fromD(whenZero)); }
static bool nonFin(const SVal& v) { return v.isConst() && !std::isfinite(asD(v.c)); }
// if the value is an ite that may be non-finite, resolve it by forking (REAL mode)
static bool mayBeNonFinite(Expr* e, int d = 0) { if( e->op == O_CONST ) return e->sort == S_DBL && !std::isfinite(asD(e->c)); if( e->op != O_ITE || d > 50 ) return false; return mayBeNonFinite(e->k[1], d + 1) || mayBeNonFinite(e->k[2], d + 1); }
static SVal resolveIte(SVal v) { while( !v.isConst() && v.e->op == O_ITE && mayBeNonFinite(v.e) ) v = decide(v.e->k[0]) ? SVal(v.e->k[1]) : SVal(v.e->k[2]); return v; }
static SVal fdivide(const SVal& a0, const SVal& b0) {
   if( a0.isConst() && b0.isConst() ) return SVal(fromD(asD(a0.c) / asD(b0.c)));
   if( g_mode == FPM ) return SVal(mkF(O_FDIV, toE(a0, 64, S_DBL), toE(b0, 64, S_DBL)));
   SVal a = resolveIte(a0), b = resolveIte(b0);
   if( a.isConst() && b.isConst() ) return SVal(fromD(asD(a.c) / asD(b.c)));
   if( b.isConst() ) { double d = asD(b.c); if( std::isnan(d) ) return b; if( std::isinf(d) ) return SVal(fromD(0)); if( d == 0 ) return sgnSplitInf(a.e, std::signbit(d) ? -INFINITY : INFINITY, std::signbit(d) ? INFINITY : -INFINITY, NAN); return SVal(mkF(O_FDIV, a.e, mkDConst(b.c))); }
   if( a.isConst() && std::isnan(asD(a.c)) ) return a;
   if( decide(mkF(O_FEQ, b.e, mkDConst(0))) ) { // signed zero is not modelled: +0
      if( a.isConst() ) { double d = asD(a.c); return SVal(fromD(d / 0.0)); } return sgnSplitInf(a.e, INFINITY, -INFINITY, NAN); }
   if( a.isConst() && std::isinf(asD(a.c)) ) { double d = asD(a.c); return sgnSplitInf(b.e, d, -d, d); }
   return SVal(mkF(O_FDIV, toE(a, 64, S_DBL), b.e));
}
static SVal fbin(Op op, const SVal& a0, const SVal& b0) {
   if( a0.isConst() && b0.isConst() ) { double x = asD(a0.c), y = asD(b0.c); return SVal(fromD(op == O_FADD ? x + y : op == O_FSUB ? x - y : op == O_FMUL ? x * y : x / y)); }
   if( op == O_FDIV ) return fdivide(a0, b0);
   if( g_mode == FPM ) return SVal(mkF(op, toE(a0, 64, S_DBL), toE(b0, 64, S_DBL)));
   SVal a = resolveIte(a0), b = resolveIte(b0);
   auto conc = [](SVal& x) { if( !x.isConst() && x.e->op == O_SITOFP ) { Expr* y = x.e->k[0]; unsigned w = y->w; x = SVal(fromD((double)sx(concretize(SVal(y), w), w))); } };
   conc(a); conc(b);   // arithmetic on a converted integer: case split on its value
   if( a.isConst() && b.isConst() ) return fbin(op, a, b);
   if( nonFin(a) || nonFin(b) ) {
      double c = asD(nonFin(a) ? a.c : b.c); Expr* x = nonFin(a) ? b.e : a.e;
      if( std::isnan(c) ) return SVal(fromD(NAN));
      if( op == O_FADD ) return SVal(fromD(c));
      if( op == O_FSUB ) return SVal(fromD(nonFin(a) ? c : -c));
      return sgnSplitInf(x, c, -c, NAN);
   }
   return SVal(mkF(op, toE(a, 64, S_DBL), toE(b, 64, S_DBL)));
}
static Expr* eqTol(Expr* a, Expr* b, double tol) { // |a-b| <= tol*(1+|a|+|b|)
   Expr* d = mkF(O_FABS, mkF(O_FSUB, a, b)); Expr* sc = mkF(O_FADD, mkDConst(fromD(1)), mkF(O_FADD, mkF(O_FABS, a), mkF(O_FABS, b)));
   return mkF(O_FLE, d, mkF(O_FMUL, mkDConst(fromD(tol)), sc));
}
static void checkEq(State& s, SVal a, SVal b, const std::string& label, double tol) {
   LabelStat& L = g_labels[label];
   if( g_mode == FPM ) { // same value or both NaN
      Expr* x = toE(a, 64, S_DBL), *y = toE(b, 64, S_DBL);
      doCheck(s, x == y ? mkConst(1, 1) : mkBin(O_OR, mkF(O_FEQ, x, y), mkBin(O_AND, mkF(O_FISNAN, x), mkF(O_FISNAN, y))), label); return; }
   a = resolveIte(a); b = resolveIte(b);
   if( a.isConst() && b.isConst() ) { double x = asD(a.c), y = asD(b.c); bool ok = (std::isnan(x) && std::isnan(y)) || x == y || fabs(x - y) <= std::max(tol, 1e-9) * (1 + fabs(x) + fabs(y)); doCheck(s, mkConst(ok, 1), label); return; }
   if( nonFin(a) || nonFin(b) ) { doCheck(s, mkConst(0, 1), label); return; }
   Expr* x = toE(a, 64, S_DBL), *y = toE(b, 64, S_DBL);
   if( x == y ) { L.sym++; n_checks_sym++; return; }
   if( !(x->op == O_VAR && y->op == O_CONST) && algEqual(x, y, slice(s.cs, mkF(O_FEQ, x, y))) ) { L.sym++; n_checks_sym++; return; }
   Expr* eq = mkF(O_FEQ, x, y);
   Res r = sat(s, mkNot(eq), nullptr, true);
   if( r == UNSAT ) { L.sym++; n_checks_sym++; return; }
   doCheck(s, eqTol(x, y, tol > 0 ? tol : 1e-9), label, [&]() { std::vector<Expr*> p; Expr* d = mkF(O_FABS, mkF(O_FSUB, x, y)); Expr* box = mkConst(1, 1); for( Expr* v : s.syms ) if( v->sort == S_DBL ) box = mkBin(O_AND, box, mkBin(O_AND, mkF(O_FLE, mkDConst(fromD(-1e3)), v), mkF(O_FLE, v, mkDConst(fromD(1e3)))));
      // counterexamples that survive rounding in the native replay are preferred
      p.push_back(mkBin(O_AND, box, mkF(O_FLE, mkDConst(fromD(1e-2)), d))); for( double t : {1e-2, 1e-4} ) p.push_back(mkNot(eqTol(x, y, t))); for( double t : {1.0, 1e-2, 1e-4} ) p.push_back(mkF(O_FLE, mkDConst(fromD(t)), d)); p.push_back(mkNot(eqTol(x, y, 1e-6))); return p; });
}

static void initHandlers() {
   auto noop = [](State&, Frame&, KInst&, std::vector<SVal>&) { return SVal((uint64_t)0); };
   auto stub0 = [&](const char* n) { H[n] = [n](State&, Frame&, KInst&, std::vector<SVal>&) { g_stubs[n]++; return SVal((uint64_t)0); }; };
#define HND(name) H[name] = [](State& s, Frame& f, KInst& k, std::vector<SVal>& a) -> SVal
#define UNUSED (void)s; (void)f; (void)k; (void)a
   // --- symbolic API
   HND("__sym_double") { UNUSED; return mkSym(s, readStr(a[0].c), 64, S_DBL, 64); };
   HND("__sym_int") { UNUSED; return mkSym(s, readStr(a[0].c), 32, S_BV, 32); };
   HND("__sym_long") { UNUSED; return mkSym(s, readStr(a[0].c), 64, S_BV, 64); };
   HND("__sym_char") { UNUSED; return mkSym(s, readStr(a[0].c), 8, S_BV, 32); };
   HND("__sym_bool") { UNUSED; return mkSym(s, readStr(a[0].c), 1, S_BV, 32); };
   HND("__sym_case") { UNUSED; return SVal((uint64_t)(uint32_t)g_case); };
   HND("__sym_mode") { UNUSED; return SVal((uint64_t)(g_mode == REAL ? 1 : 2)); };
   HND("__sym_live") { UNUSED; return SVal(s.mem.liveHeap); };
   HND("__sym_concretize") { UNUSED; return SVal(concretize(a[0], 64)); };
   HND("__sym_decide") { UNUSED; return SVal((uint64_t)decide(boolArg(a[0]))); };
   HND("__sym_is_symbolic") { UNUSED; return SVal((uint64_t)!a[0].isConst()); };
   HND("__sym_assume") { UNUSED; Expr* c = boolArg(a[0]); if( c->op == O_CONST ) { if( !c->c ) throw PathEnd{"assume", ""}; return SVal(); }
      auto it = s.known.find(c->id); if( it != s.known.end() ) { if( it->second ) return SVal(); throw PathEnd{"assume", ""}; }
      Res r = sat(s, c); if( r == UNSAT ) throw PathEnd{"assume", ""}; addC(s, c); return SVal(); };
   HND("__sym_check") { UNUSED; doCheck(s, boolArg(a[0]), readStr(a[1].c)); return SVal(); };
   HND("__sym_check_eq") { UNUSED; checkEq(s, a[0], a[1], readStr(a[2].c), a.size() > 3 ? asD(a[3].c) : 0); return SVal(); };
   HND("__sym_reach") { UNUSED; g_reach[readStr(a[0].c)]++; return SVal(); };
   HND("__sym_print") { UNUSED; std::string n = readStr(a[0].c); fprintf(stderr, "[print] %s = %s\n", n.c_str(), a[1].isConst() ? (std::to_string(asD(a[1].c)) + " / " + std::to_string((int64_t)a[1].c)).c_str() : exprStr(a[1].e).c_str()); return SVal(); };
   HND("__sym_printi") { UNUSED; std::string n = readStr(a[0].c); fprintf(stderr, "[print] %s = %s\n", n.c_str(), a[1].isConst() ? std::to_string((int64_t)a[1].c).c_str() : exprStr(a[1].e).c_str()); return SVal(); };
   HND("__sym_trace") { UNUSED; std::string n = readStr(a[0].c); if( g_verbose ) fprintf(stderr, "[trace] %s\n", n.c_str()); return SVal(); };
   // --- memory
   HND("malloc") { UNUSED; return SVal(doAlloc(s, a[0], 1)); };
   HND("calloc") { UNUSED; return SVal(doAlloc(s, SVal(concretize(a[0], 64) * concretize(a[1], 64)), 1, true)); };
   HND("realloc") { UNUSED; uint64_t n = concretize(a[1], 64); uint64_t p = concretize(a[0], 64); uint64_t q = doAlloc(s, SVal(n), 1); if( p ) { Obj* o = s.mem.get(p >> 32); if( !o ) err("bad-free", "realloc"); memCopy(q, p, std::min<uint64_t>(n, o->size)); doFree(s, p, 1); } return SVal(q); };
   HND("free") { UNUSED; doFree(s, concretize(a[0], 64), 1); return SVal(); };
   for( auto n : {"_Znwm", "_ZnwmRKSt9nothrow_t"} ) HND(n) { UNUSED; return SVal(doAlloc(s, a[0], 2)); };
   for( auto n : {"_Znam", "_ZnamRKSt9nothrow_t"} ) HND(n) { UNUSED; return SVal(doAlloc(s, a[0], 3)); };
   for( auto n : {"_ZdlPv", "_ZdlPvm"} ) HND(n) { UNUSED; doFree(s, concretize(a[0], 64), 2); return SVal(); };
   for( auto n : {"_ZdaPv", "_ZdaPvm"} ) HND(n) { UNUSED; doFree(s, concretize(a[0], 64), 3); return SVal(); };
   for( auto n : {"memcpy", "memmove"} ) HND(n) { UNUSED; memCopy(concretize(a[0], 64), concretize(a[1], 64), concretize(a[2], 64)); return a[0]; };
   HND("memset") { UNUSED; memSet(concretize(a[0], 64), a[1].isConst() ? SVal(a[1].c & 255) : SVal(mkExtract(a[1].e, 0, 8)), concretize(a[2], 64)); return a[0]; };
   // --- math
   for( std::string n : {"log", "exp", "sin", "cos", "tan", "log10", "atan", "asin", "acos", "exp2", "log2", "round", "cbrt"} ) H[n] = [n](State&, Frame&, KInst&, std::vector<SVal>& a) { return unaryMath(n, a[0]); };
   HND("sqrt") { UNUSED; return fsqrt(a[0]); };
   HND("pow") { UNUSED; return fpow(a[0], a[1]); };
   HND("fabs") { UNUSED; return fabsV(a[0]); };
   HND("fmin") { UNUSED; return fminmax(a[0], a[1], false); };
   HND("fmax") { UNUSED; return fminmax(a[0], a[1], true); };
   HND("fmod") { UNUSED; if( !a[0].isConst() || !a[1].isConst() ) unsup("fmod"); return SVal(fromD(fmod(asD(a[0].c), asD(a[1].c)))); };
   HND("floor") { UNUSED; return SVal(mkFRnd(toE(a[0], 64, S_DBL), 0)); };
   HND("ceil") { UNUSED; return SVal(mkFRnd(toE(a[0], 64, S_DBL), 1)); };
   HND("trunc") { UNUSED; return SVal(mkFRnd(toE(a[0], 64, S_DBL), 2)); };
   HND("drand48") { UNUSED; s.rnd = s.rnd * 6364136223846793005ull + 1442695040888963407ull; return SVal(fromD((double)(s.rnd >> 33) / 2147483648.0)); };
   HND("srand48") { UNUSED; s.rnd = 1; return SVal(); };
   // --- io stubs
   for( auto n : {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "fflush", "fwrite", "vprintf", "vfprintf", "fclose", "setlocale", "perror", "putc", "signal", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_atexit", "atexit", "getenv", "fopen", "dlopen", "dlsym", "dlclose", "dlerror", "gettimeofday", "getrusage", "time", "clock", "feenableexcept", "fedisableexcept", "setvbuf"} ) stub0(n);
   HND("clock_gettime") { UNUSED; g_stubs["clock_gettime"]++; storeV(a[1].c, SVal((uint64_t)0), 8, false); storeV(a[1].c + 8, SVal((uint64_t)0), 8, false); return SVal((uint64_t)0); };
   HND("gettimeofday") { UNUSED; g_stubs["gettimeofday"]++; storeV(a[0].c, SVal((uint64_t)0), 8, false); storeV(a[0].c + 8, SVal((uint64_t)0), 8, false); return SVal((uint64_t)0); };
   HND("getrusage") { UNUSED; g_stubs["getrusage"]++; memSet(a[1].c, SVal((uint64_t)0), 144); return SVal((uint64_t)0); };
   HND("snprintf") { UNUSED; ArgSrc src = vaArgs(a, 3); std::string r = formatStr(readStr(concretize(a[2], 64)), src); writeBack(concretize(a[0], 64), concretize(a[1], 64), r); return SVal((uint64_t)r.size()); };
   HND("sprintf") { UNUSED; ArgSrc src = vaArgs(a, 2); std::string r = formatStr(readStr(concretize(a[1], 64)), src); writeBack(concretize(a[0], 64), r.size() + 1, r); return SVal((uint64_t)r.size()); };
   HND("vsnprintf") { UNUSED; ArgSrc src = vaList(concretize(a[3], 64)); std::string r = formatStr(readStr(concretize(a[2], 64)), src); writeBack(concretize(a[0], 64), concretize(a[1], 64), r); return SVal((uint64_t)r.size()); };
   H["__vsnprintf_chk"] = [](State&, Frame&, KInst&, std::vector<SVal>& a) -> SVal { ArgSrc src = vaList(concretize(a[5], 64)); std::string r = formatStr(readStr(concretize(a[4], 64)), src); writeBack(concretize(a[0], 64), concretize(a[1], 64), r); return SVal((uint64_t)r.size()); };
   HND("strtod") { UNUSED; std::string t = readStr(concretize(a[0], 64)); char* e; { SVal tr; if( readTokD(s, t, tr) ) { uint64_t ep = concretize(a[1], 64); if( ep ) storeV(ep, SVal(a[0].c + 16), 8, false); return tr; } } double d = strtod(t.c_str(), &e); uint64_t ep = concretize(a[1], 64); if( ep ) storeV(ep, SVal(a[0].c + (e - t.c_str())), 8, false); return SVal(fromD(d)); };
   HND("atof") { UNUSED; return SVal(fromD(atof(readStr(concretize(a[0], 64)).c_str()))); };
   HND("strtol") { UNUSED; std::string t = readStr(concretize(a[0], 64)); char* e; { SVal tr; if( readTokI(t, tr) ) { uint64_t ep = concretize(a[1], 64); if( ep ) storeV(ep, SVal(a[0].c + 18), 8, false); return tr; } } long d = strtol(t.c_str(), &e, (int)a[2].c); uint64_t ep = concretize(a[1], 64); if( ep ) storeV(ep, SVal(a[0].c + (e - t.c_str())), 8, false); return SVal((uint64_t)d); };
   HND("strtoll") { UNUSED; std::string t = readStr(concretize(a[0], 64)); char* e; long d = strtol(t.c_str(), &e, (int)a[2].c); uint64_t ep = concretize(a[1], 64); if( ep ) storeV(ep, SVal(a[0].c + (e - t.c_str())), 8, false); return SVal((uint64_t)d); };
   H["__isoc23_strtol"] = H["strtol"]; H["__isoc23_strtoll"] = H["strtoll"];
   HND("pthread_mutex_lock") { UNUSED; uint64_t p = concretize(a[0], 64); SVal v = loadV(p, 4, false); if( v.isConst() && v.c ) err("deadlock", "mutex locked twice"); storeV(p, SVal((uint64_t)1), 4, false); return SVal((uint64_t)0); };
   HND("pthread_mutex_unlock") { UNUSED; storeV(concretize(a[0], 64), SVal((uint64_t)0), 4, false); return SVal((uint64_t)0); };
   HND("atoi") { UNUSED; return SVal((uint64_t)(uint32_t)atoi(readStr(concretize(a[0], 64)).c_str())); };
   HND("abort") { UNUSED; err("abort", "abort() called"); };
   HND("exit") { UNUSED; throw PathEnd{"exit", "exit()"}; };
   HND("__assert_fail") { UNUSED; err("assert", readStr(a[0].c)); };
   HND("_ZSt9terminatev") { UNUSED; err("terminate", "std::terminate called"); };
   HND("__cxa_pure_virtual") { UNUSED; err("pure-virtual", "pure virtual call"); };
   for( auto n : {"_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt25__throw_bad_function_callv", "_ZSt16__throw_bad_castv", "__cxa_throw_bad_array_new_length"} )
      { std::string nn = n; H[n] = [nn](State&, Frame&, KInst&, std::vector<SVal>&) -> SVal { err("std-throw", nn); }; }
   // --- C++ runtime
   HND("__cxa_allocate_exception") { UNUSED; return SVal(s.mem.alloc(concretize(a[0], 64), K_HEAP, false, 9)); };
   HND("__cxa_free_exception") { UNUSED; s.mem.release(a[0].c >> 32); return SVal(); };
   HND("__cxa_get_exception_ptr") { UNUSED; return a[0]; };
   HND("__cxa_begin_catch") { UNUSED; Exc e{a[0].c, 0}; for( auto& x : s.excs ) if( x.obj == a[0].c ) e = x; s.caught.push_back(e); return a[0]; };
   HND("__cxa_end_catch") { UNUSED; if( !s.caught.empty() ) s.caught.pop_back(); return SVal(); };
   HND("__cxa_guard_acquire") { UNUSED; SVal v = loadV(a[0].c, 1, false); return SVal((uint64_t)(v.isConst() && v.c == 0)); };
   HND("__cxa_guard_release") { UNUSED; storeV(a[0].c, SVal((uint64_t)1), 1, false); return SVal(); };
   HND("__cxa_guard_abort") { UNUSED; return SVal(); };
   HND("_ZSt18uncaught_exceptionv") { UNUSED; return SVal((uint64_t)0); };
   HND("__dynamic_cast") { UNUSED; uint64_t p = concretize(a[0], 64); uint64_t vp = rd64(p); int64_t ott = (int64_t)rd64(vp - 16); uint64_t ti = rd64(vp - 8); uint64_t full = p + ott; std::set<int64_t> o; findBases(ti, 0, full, a[2].c, o); if( o.empty() ) return SVal((uint64_t)0); if( o.size() > 1 ) { return SVal((uint64_t)0); } return SVal(full + *o.begin()); };
   (void)noop;
}
static SVal intrinsic(State& s, Frame& f, KInst& k, std::vector<SVal>& a, bool& done) {
   done = true;
   auto W = [&](int i) { return bitW(k.in->getOperand(i)->getType()); };
   Type* t = k.in->getType();
   switch( k.callee->getIntrinsicID() ) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::vaend: return SVal();
      case Intrinsic::invariant_start: case Intrinsic::stacksave: return SVal((uint64_t)0);
      case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: return a[0];
      case Intrinsic::is_constant: return SVal((uint64_t)0);
      case Intrinsic::objectsize: return SVal(~0ull);
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memCopy(concretize(a[0], 64), concretize(a[1], 64), concretize(a[2], 64)); return SVal();
      case Intrinsic::memset: memSet(concretize(a[0], 64), a[1], concretize(a[2], 64)); return SVal();
      case Intrinsic::fabs: if( !t->isDoubleTy() ) break; return fabsV(a[0]);
      case Intrinsic::sqrt: if( !t->isDoubleTy() ) break; return fsqrt(a[0]);
      case Intrinsic::pow: return fpow(a[0], a[1]);
      case Intrinsic::powi: { int n = (int)concretize(a[1], 32); if( a[0].isConst() ) return SVal(fromD(pow(asD(a[0].c), n))); SVal r(fromD(1)); for( int i = 0; i < std::abs(n); i++ ) r = fbin(O_FMUL, r, a[0]); return n < 0 ? fdivide(SVal(fromD(1)), r) : r; }
      case Intrinsic::log: return unaryMath("log", a[0]); case Intrinsic::exp: return unaryMath("exp", a[0]); case Intrinsic::log10: return unaryMath("log10", a[0]); case Intrinsic::sin: return unaryMath("sin", a[0]); case Intrinsic::cos: return unaryMath("cos", a[0]); case Intrinsic::exp2: return unaryMath("exp2", a[0]); case Intrinsic::log2: return unaryMath("log2", a[0]); case Intrinsic::round: return unaryMath("round", a[0]);
      case Intrinsic::floor: return SVal(mkFRnd(toE(a[0], 64, S_DBL), 0)); case Intrinsic::ceil: return SVal(mkFRnd(toE(a[0], 64, S_DBL), 1)); case Intrinsic::trunc: return SVal(mkFRnd(toE(a[0], 64, S_DBL), 2)); case Intrinsic::rint: case Intrinsic::nearbyint: return SVal(mkFRnd(toE(a[0], 64, S_DBL), 3));
      case Intrinsic::maxnum: case Intrinsic::maximum: return fminmax(a[0], a[1], true); case Intrinsic::minnum: case Intrinsic::minimum: return fminmax(a[0], a[1], false);
      case Intrinsic::fmuladd: return fbin(O_FADD, fbin(O_FMUL, a[0], a[1]), a[2]);
      case Intrinsic::fma: if( g_mode == FPM && !(a[0].isConst() && a[1].isConst() && a[2].isConst()) ) break; return fbin(O_FADD, fbin(O_FMUL, a[0], a[1]), a[2]);
      case Intrinsic::copysign: { if( a[0].isConst() && a[1].isConst() ) return SVal(fromD(copysign(asD(a[0].c), asD(a[1].c)))); SVal ab = fabsV(a[0]); if( a[1].isConst() ) return std::signbit(asD(a[1].c)) ? SVal(mkF(O_FNEG, toE(ab, 64, S_DBL))) : ab; Expr* x = toE(ab, 64, S_DBL); Expr* neg = g_mode == REAL ? mkF(O_FLT, a[1].e, mkDConst(0)) : mkExtract(mkBits(a[1].e), 63, 1); return SVal(mkIte(neg, mkF(O_FNEG, x), x)); }
      case Intrinsic::is_fpclass: {
         unsigned mask = cast<ConstantInt>(k.in->getOperand(1))->getZExtValue(); // 1 snan 2 qnan 4 -inf 8 -norm 10 -sub 20 -0 40 +0 80 +sub 100 +norm 200 +inf
         if( a[0].isConst() ) { double d = asD(a[0].c); unsigned c = std::isnan(d) ? 2 : std::isinf(d) ? (d < 0 ? 4 : 0x200) : d == 0 ? (std::signbit(d) ? 0x20 : 0x40) : std::fpclassify(d) == FP_SUBNORMAL ? (d < 0 ? 0x10 : 0x80) : (d < 0 ? 8 : 0x100); return SVal((uint64_t)((mask & c) != 0 || (c == 2 && (mask & 3)))); }
         if( (mask & 3) != 0 && (mask & 3) != 3 ) break;
         Expr* e = a[0].e; 
         if( g_mode == REAL && e->op == O_ITE ) { SVal r = resolveIte(a[0]); if( r.isConst() ) { a[0] = r; bool dd; return intrinsic(s, f, k, a, dd); } e = r.e; }
         Expr* nan = mkF(O_FISNAN, e), *inf = mkF(O_FISINF, e), *neg = mkF(O_FLT, e, mkDConst(0)); Expr* r = mkConst(0, 1);
         auto orr = [&](Expr* x) { r = mkBin(O_OR, r, x); };
         if( mask & 3 ) orr(nan); if( mask & 4 ) orr(mkBin(O_AND, inf, neg)); if( mask & 0x200 ) orr(mkBin(O_AND, inf, mkNot(neg)));
         unsigned fin = mask & 0x1f8; Expr* isfin = mkBin(O_AND, mkNot(nan), mkNot(inf));
         if( fin == 0x1f8 ) orr(isfin); else if( fin == 0x60 ) orr(mkF(O_FEQ, e, mkDConst(0))); else if( fin == 0x1c0 ) orr(mkBin(O_AND, isfin, mkNot(neg))); else if( fin == 0x180 ) orr(mkBin(O_AND, isfin, mkF(O_FLT, mkDConst(0), e))); else if( fin == 0 ) {} else unsup("is.fpclass mask");
         return SVal(r); }
      case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
         unsigned w = W(0); if( !w ) break; auto id = k.callee->getIntrinsicID(); bool mx = id == Intrinsic::umax || id == Intrinsic::smax; bool sg = id == Intrinsic::smax || id == Intrinsic::smin;
         Expr* x = toE(a[0], w, S_BV), *y = toE(a[1], w, S_BV); Expr* lt = mkBin(sg ? O_SLT : O_ULT, x, y); return SVal(mx ? mkIte(lt, y, x) : mkIte(lt, x, y)); }
      case Intrinsic::abs: { unsigned w = W(0); Expr* x = toE(a[0], w, S_BV); return SVal(mkIte(mkBin(O_SLT, x, mkConst(0, w)), mkBin(O_SUB, mkConst(0, w), x), x)); }
      case Intrinsic::usub_sat: { unsigned w = W(0); Expr* x = toE(a[0], w, S_BV), *y = toE(a[1], w, S_BV); return SVal(mkIte(mkBin(O_ULT, x, y), mkConst(0, w), mkBin(O_SUB, x, y))); }
      case Intrinsic::uadd_sat: { unsigned w = W(0); Expr* x = toE(a[0], w, S_BV), *y = toE(a[1], w, S_BV); Expr* r = mkBin(O_ADD, x, y); return SVal(mkIte(mkBin(O_ULT, r, x), mkConst(maskw(w), w), r)); }
      case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
         unsigned w = W(0); uint64_t x = concretize(a[0], w), y = concretize(a[1], w); unsigned __int128 r; bool o; auto id = k.callee->getIntrinsicID();
         if( id == Intrinsic::umul_with_overflow ) { r = (unsigned __int128)x * y; o = (r >> w) != 0; } else if( id == Intrinsic::uadd_with_overflow ) { r = (unsigned __int128)x + y; o = (r >> w) != 0; } else if( id == Intrinsic::usub_with_overflow ) { r = (uint64_t)(x - y); o = x < y; }
         else { __int128 p = id == Intrinsic::sadd_with_overflow ? (__int128)sx(x, w) + sx(y, w) : id == Intrinsic::ssub_with_overflow ? (__int128)sx(x, w) - sx(y, w) : (__int128)sx(x, w) * sx(y, w); r = (unsigned __int128)p; o = p != (__int128)sx((uint64_t)p & maskw(w), w); }
         SVal v; v.e = mkAgg({SVal((uint64_t)r & maskw(w)), SVal((uint64_t)o)}); return v; }
      case Intrinsic::ctlz: { uint64_t x = concretize(a[0], 64); unsigned w = W(0); if( !x ) return SVal((uint64_t)w); return SVal((uint64_t)(__builtin_clzll(x) - (64 - w))); }
      case Intrinsic::cttz: { uint64_t x = concretize(a[0], 64); unsigned w = W(0); if( !x ) return SVal((uint64_t)w); return SVal((uint64_t)__builtin_ctzll(x)); }
      case Intrinsic::ctpop: return SVal((uint64_t)__builtin_popcountll(concretize(a[0], 64)));
      case Intrinsic::bswap: { uint64_t x = concretize(a[0], 64); unsigned w = W(0); return SVal(__builtin_bswap64(x) >> (64 - w)); }
      case Intrinsic::fshl: case Intrinsic::fshr: { unsigned w = W(0); uint64_t x = concretize(a[0], w), y = concretize(a[1], w), c = concretize(a[2], w) % w; if( k.callee->getIntrinsicID() == Intrinsic::fshl ) return SVal(c ? ((x << c) | (y >> (w - c))) & maskw(w) : x); return SVal(c ? ((y >> c) | (x << (w - c))) & maskw(w) : y); }
      case Intrinsic::trap: case Intrinsic::ubsantrap: err("trap", "llvm.trap");
      case Intrinsic::eh_typeid_for: return SVal(typeIdFor(a[0].c));
      case Intrinsic::vastart: { // everything is in the overflow area
         storeV(a[0].c, SVal((uint64_t)48), 4, false); storeV(a[0].c + 4, SVal((uint64_t)304), 4, false); storeV(a[0].c + 8, SVal(f.va), 8, false); storeV(a[0].c + 16, SVal((uint64_t)0), 8, false); return SVal(); }
      case Intrinsic::vacopy: memCopy(a[0].c, a[1].c, 24); return SVal();
      default: break;
   }
   done = false; (void)s; return SVal();
}

// ---------------------------------------------------------------- main loop
static uint64_t g_lastReport = 0;
static SVal cmpI(unsigned pred, const SVal& a, const SVal& b, unsigned w) {
   if( a.isConst() && b.isConst() ) {
      uint64_t x = a.c & maskw(w), y = b.c & maskw(w); int64_t sxx = sx(x, w), sy = sx(y, w); bool r = false;
      switch( pred ) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
         case CmpInst::ICMP_SGT: r = sxx > sy; break; case CmpInst::ICMP_SGE: r = sxx >= sy; break; case CmpInst::ICMP_SLT: r = sxx < sy; break; case CmpInst::ICMP_SLE: r = sxx <= sy; break; }
      return SVal((uint64_t)r);
   }
   Expr* x = toE(a, w, S_BV), *y = toE(b, w, S_BV);
   switch( pred ) {
      case CmpInst::ICMP_EQ: return SVal(mkBin(O_EQ, x, y)); case CmpInst::ICMP_NE: return SVal(mkNot(mkBin(O_EQ, x, y)));
      case CmpInst::ICMP_UGT: return SVal(mkBin(O_ULT, y, x)); case CmpInst::ICMP_UGE: return SVal(mkBin(O_ULE, y, x)); case CmpInst::ICMP_ULT: return SVal(mkBin(O_ULT, x, y)); case CmpInst::ICMP_ULE: return SVal(mkBin(O_ULE, x, y));
      case CmpInst::ICMP_SGT: return SVal(mkBin(O_SLT, y, x)); case CmpInst::ICMP_SGE: return SVal(mkBin(O_SLE, y, x)); case CmpInst::ICMP_SLT: return SVal(mkBin(O_SLT, x, y)); default: return SVal(mkBin(O_SLE, x, y));
   }
}
static SVal cmpF(unsigned pred, const SVal& a, const SVal& b, unsigned w) {
   if( w == 32 && (!a.isConst() || !b.isConst()) ) unsup("symbolic float");
   if( a.isConst() && b.isConst() ) {
      double x, y; if( w == 32 ) { float f; uint32_t u = a.c; memcpy(&f, &u, 4); x = f; u = b.c; memcpy(&f, &u, 4); y = f; } else { x = asD(a.c); y = asD(b.c); }
      bool un = std::isnan(x) || std::isnan(y); bool r = false;
      switch( pred ) { case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
         case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
         case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break;
         case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; }
      return SVal((uint64_t)r);
   }
   Expr* x = toE(a, 64, S_DBL), *y = toE(b, 64, S_DBL);
   Expr* un = mkBin(O_OR, mkF(O_FISNAN, x), mkF(O_FISNAN, y)); Expr* r;
   switch( pred & 7 ) { // ordered base relation: 1 eq 2 gt 3 ge 4 lt 5 le 6 ne 7 ord
      case 0: r = mkConst(0, 1); break; case 1: r = mkF(O_FEQ, x, y); break; case 2: r = mkF(O_FLT, y, x); break; case 3: r = mkF(O_FLE, y, x); break; case 4: r = mkF(O_FLT, x, y); break; case 5: r = mkF(O_FLE, x, y); break;
      case 6: r = mkBin(O_AND, mkNot(mkF(O_FEQ, x, y)), mkNot(un)); break; default: r = mkNot(un); }
   if( pred & 8 ) { if( (pred & 7) == 6 ) return SVal(mkNot(mkF(O_FEQ, x, y))); if( (pred & 7) == 7 ) return SVal((uint64_t)1); r = mkBin(O_OR, r, un); }
   return SVal(r);
}
static double f32(uint64_t b) { float f; uint32_t u = b; memcpy(&f, &u, 4); return f; }
static uint64_t tof32(double d) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; }
static SVal castV(KInst& k, const SVal& a) {
   switch( k.aux ) {
      case Instruction::Trunc: return a.isConst() ? SVal(a.c & maskw(k.w2)) : SVal(mkExtract(a.e, 0, k.w2));
      case Instruction::ZExt: return a.isConst() ? SVal(a.c & maskw(k.w)) : SVal(mkExt(O_ZEXT, a.e, k.w2));
      case Instruction::SExt: return a.isConst() ? SVal((uint64_t)sx(a.c, k.w) & maskw(k.w2)) : SVal(mkExt(O_SEXT, a.e, k.w2));
      case Instruction::PtrToInt: return k.w2 < 64 ? (a.isConst() ? SVal(a.c & maskw(k.w2)) : SVal(mkExtract(a.e, 0, k.w2))) : a;
      case Instruction::IntToPtr: return k.w < 64 ? (a.isConst() ? a : SVal(mkExt(O_ZEXT, a.e, 64))) : a;
      case Instruction::BitCast: if( (k.flag & 3) == 3 || (k.flag & 12) == 12 ) return a; if( k.flag & 1 ) return a.isConst() ? a : SVal(mkBits(a.e)); if( k.flag & 2 ) return a.isConst() ? a : SVal(mkFromBits(a.e)); return a;
      case Instruction::SIToFP: case Instruction::UIToFP: {
         if( !a.isConst() ) { if( k.flag & 8 ) unsup("int to float"); if( g_mode == REAL && (k.w > 32 || k.aux != Instruction::SIToFP) ) { uint64_t c = concretize(a, k.w); return SVal(fromD(k.aux == Instruction::SIToFP ? (double)sx(c, k.w) : (double)c)); } return SVal(mkCast(k.aux == Instruction::SIToFP ? O_SITOFP : O_UITOFP, a.e, 64, S_DBL)); }
         double d = k.aux == Instruction::SIToFP ? (double)sx(a.c, k.w) : (double)(a.c & maskw(k.w)); return SVal(k.flag & 8 ? tof32(d) : fromD(d)); }
      case Instruction::FPToSI: case Instruction::FPToUI: {
         if( !a.isConst() ) { SVal r = resolveIte(a); if( r.isConst() ) return castV(k, r); if( r.e->op == O_SITOFP && k.aux == Instruction::FPToSI ) { Expr* y = r.e->k[0]; return SVal(k.w2 == y->w ? y : k.w2 > y->w ? mkExt(O_SEXT, y, k.w2) : mkExtract(y, 0, k.w2)); } return SVal(mkCast(k.aux == Instruction::FPToSI ? O_FPTOSI : O_FPTOUI, r.e, k.w2, S_BV)); }
         double d = k.flag & 4 ? f32(a.c) : asD(a.c); if( std::isnan(d) || fabs(d) >= 9.3e18 ) return SVal(0x8000000000000000ull & maskw(k.w2)); return SVal((k.aux == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d) & maskw(k.w2)); }
      case Instruction::FPExt: if( a.isConst() && (k.flag & 4) ) return SVal(fromD(f32(a.c))); unsup("fpext");
      case Instruction::FPTrunc: if( a.isConst() && (k.flag & 8) ) return SVal(tof32(asD(a.c))); unsup("fptrunc");
      default: unsup("cast");
   }
}
static void enterFunction(State& s, Function* fn, std::vector<SVal>& args, FunctionType* callTy) {
   Func* kf = getFunc(fn); kf->calls++; kf->entered = true;
   if( s.st.size() > 2000 ) err("stack-overflow", "recursion too deep");
   s.st.emplace_back(); Frame& n = s.st.back(); n.f = kf; n.r.resize(kf->nregs);
   size_t na = fn->arg_size(); for( size_t i = 0; i < na && i < args.size(); i++ ) n.r[i] = args[i];
   if( fn->isVarArg() && args.size() > na ) {
      uint64_t p = s.mem.alloc(8 * (args.size() - na), K_STACK, true); n.va = p;
      for( size_t i = na; i < args.size(); i++ ) { const SVal& v = args[i]; bool d = !v.isConst() && v.e->sort == S_DBL; SVal vv = v; if( !v.isConst() && v.e->sort == S_BV && v.e->w < 64 ) vv = SVal(mkExt(O_ZEXT, v.e, 64)); storeV(p + 8 * (i - na), vv, 8, d); }
   }
   (void)callTy;
   if( kf->code.empty() ) unsup("empty function " + fn->getName().str());
}
static void finishCall(State& s, Frame& f, KInst& k, const SVal& r) { if( k.dst >= 0 ) f.r[k.dst] = r; if( k.op == K_INVOKE ) takeEdge(f, k.b); else f.pc++; (void)s; }

static void step(State& s) {
   Frame& f = s.st.back();
   KInst& k = f.f->code[f.pc];
   n_instr++;
   switch( k.op ) {
      case K_NOP: f.pc++; return;
      case K_BIN: {
         const SVal& a = val(f, k.a), &b = val(f, k.b);
         if( k.flag ) { std::vector<SVal> r; if( !a.e || !b.e ) unsup("vector const"); for( size_t i = 0; i < a.e->agg->size(); i++ ) r.push_back(SVal(mkBin((Op)k.aux, toE((*a.e->agg)[i], k.w, S_BV), toE((*b.e->agg)[i], k.w, S_BV)))); SVal v; v.e = mkAgg(r); f.r[k.dst] = v; f.pc++; return; }
         if( a.isConst() && b.isConst() ) {
            uint64_t x = a.c, y = b.c, m = maskw(k.w), r;
            switch( k.aux ) { case O_ADD: r = (x + y) & m; break; case O_SUB: r = (x - y) & m; break; case O_MUL: r = (x * y) & m; break; case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break;
               case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: { if( !(y & m) ) err("div-by-zero", "integer division by zero"); Expr* e = mkBin((Op)k.aux, mkConst(x, k.w), mkConst(y, k.w)); if( e->op != O_CONST ) err("div-overflow", "integer division overflow"); r = e->c; break; }
               default: r = mkBin((Op)k.aux, mkConst(x, k.w), mkConst(y, k.w))->c; }
            f.r[k.dst] = SVal(r);
         } else {
            Expr* x = toE(a, k.w, S_BV), *y = toE(b, k.w, S_BV);
            if( k.aux == O_UDIV || k.aux == O_SDIV || k.aux == O_UREM || k.aux == O_SREM ) if( decide(mkBin(O_EQ, y, mkConst(0, k.w))) ) err("div-by-zero", "integer division by zero");
            f.r[k.dst] = SVal(mkBin((Op)k.aux, x, y));
         }
         f.pc++; return; }
      case K_FBIN: {
         const SVal& a = val(f, k.a), &b = val(f, k.b);
         if( k.flag ) { if( !a.e || !b.e ) unsup("vector const"); std::vector<SVal> r; for( size_t i = 0; i < a.e->agg->size(); i++ ) r.push_back(fbin((Op)k.aux, (*a.e->agg)[i], (*b.e->agg)[i])); SVal v; v.e = mkAgg(r); s.st.back().r[k.dst] = v; s.st.back().pc++; return; }
         if( k.w == 32 ) { if( !a.isConst() || !b.isConst() ) unsup("float"); float x = (float)f32(a.c), y = (float)f32(b.c); f.r[k.dst] = SVal(tof32(k.aux == O_FADD ? x + y : k.aux == O_FSUB ? x - y : k.aux == O_FMUL ? x * y : x / y)); f.pc++; return; }
         f.r[k.dst] = fbin((Op)k.aux, a, b); f.pc++; return; }
      case K_FNEG: { const SVal& a = val(f, k.a); if( k.flag ) { std::vector<SVal> r; for( auto& x : *a.e->agg ) r.push_back(x.isConst() ? SVal(x.c ^ 0x8000000000000000ull) : SVal(mkF(O_FNEG, x.e))); SVal v; v.e = mkAgg(r); f.r[k.dst] = v; f.pc++; return; }
         if( k.w == 32 ) f.r[k.dst] = SVal(a.c ^ 0x80000000ull); else f.r[k.dst] = a.isConst() ? SVal(a.c ^ 0x8000000000000000ull) : SVal(mkF(O_FNEG, a.e)); f.pc++; return; }
      case K_ICMP: f.r[k.dst] = cmpI(k.aux, val(f, k.a), val(f, k.b), k.w); f.pc++; return;
      case K_FCMP: { SVal r = cmpF(k.aux, val(f, k.a), val(f, k.b), k.w); f.r[k.dst] = r; f.pc++; return; }
      case K_LOAD: { uint64_t a = concretize(val(f, k.a), 64); f.r[k.dst] = loadT(a, k.ty); f.pc++; return; }
      case K_STORE: { uint64_t a = concretize(val(f, k.b), 64); storeT(a, val(f, k.a), k.ty); f.pc++; return; }
      case K_GEP: {
         const SVal& base = val(f, k.a); uint64_t off = k.off; Expr* se = base.e; uint64_t cb = base.isConst() ? base.c : 0;
         for( size_t i = 0; i < k.ops.size(); i++ ) { const SVal& ix = val(f, k.ops[i]); uint64_t sc = k.scales[i] & 0xffffffffffffull; unsigned w = k.scales[i] >> 48;
            if( ix.isConst() ) off += (uint64_t)sx(ix.c, w) * sc; else { Expr* t = mkBin(O_MUL, mkExt(O_SEXT, ix.e, 64), mkConst(sc, 64)); se = se ? mkBin(O_ADD, se, t) : t; } }
         if( !se ) f.r[k.dst] = SVal(cb + off); else { Expr* e = mkBin(O_ADD, se, mkConst(cb + off, 64)); f.r[k.dst] = SVal(e); }
         f.pc++; return; }
      case K_ALLOCA: { uint64_t n = concretize(val(f, k.a), k.w); uint64_t p = s.mem.alloc(n * (uint64_t)k.off, K_STACK, false); f.allocas.push_back(p >> 32); f.r[k.dst] = SVal(p); f.pc++; return; }
      case K_BR: takeEdge(f, k.aux); return;
      case K_CONDBR: { const SVal& c = val(f, k.a); bool t = c.isConst() ? (c.c & 1) : decide(c.e); Frame& ff = S->st.back(); takeEdge(ff, t ? k.b : k.c); return; }
      case K_SWITCH: { const SVal& v = val(f, k.a);
         if( v.isConst() ) { for( size_t i = 0; i < k.ops.size(); i++ ) if( k.scales[i] == (v.c & maskw(k.w)) ) { takeEdge(f, k.ops[i]); return; } takeEdge(f, k.b); return; }
         for( size_t i = 0; i < k.ops.size(); i++ ) if( decide(mkBin(O_EQ, v.e, mkConst(k.scales[i], k.w))) ) { takeEdge(S->st.back(), k.ops[i]); return; }
         takeEdge(S->st.back(), k.b); return; }
      case K_RET: {
         SVal r; if( k.a != INT_MAX ) r = val(f, k.a);
         popFrame(s); if( s.st.empty() ) throw PathEnd{"exit", "main returned"};
         Frame& c = s.st.back(); finishCall(s, c, c.f->code[c.pc], r); return; }
      case K_UNREACH: err("unreachable", "reached an unreachable point");
      case K_SELECT: {
         const SVal& c = val(f, k.a), &a = val(f, k.b), &b = val(f, k.c);
         if( k.flag ) { std::vector<SVal> r; for( size_t i = 0; i < c.e->agg->size(); i++ ) { auto& ci = (*c.e->agg)[i]; if( !ci.isConst() ) unsup("vector select"); r.push_back((ci.c & 1) ? (*a.e->agg)[i] : (*b.e->agg)[i]); } SVal v; v.e = mkAgg(r); f.r[k.dst] = v; f.pc++; return; }
         if( c.isConst() ) { SVal r = (c.c & 1) ? a : b; f.r[k.dst] = r; f.pc++; return; }
         bool dbl = k.ty->isDoubleTy();
         auto it = s.known.find(c.e->id); if( it != s.known.end() ) { SVal r = it->second ? a : b; f.r[k.dst] = r; f.pc++; return; }
         if( (a.e && a.e->op == O_AGG) || (b.e && b.e->op == O_AGG) || k.ty->isPointerTy() || k.w == 0 ) { bool t = decide(c.e); Frame& ff = S->st.back(); SVal r = t ? val(ff, k.b) : val(ff, k.c); ff.r[k.dst] = r; ff.pc++; return; }
         f.r[k.dst] = SVal(mkIte(c.e, toE(a, k.w, dbl ? S_DBL : S_BV), toE(b, k.w, dbl ? S_DBL : S_BV))); f.pc++; return; }
      case K_CAST: { SVal r = castV(k, val(f, k.a)); S->st.back().r[k.dst] = r; S->st.back().pc++; return; }
      case K_COPY: f.r[k.dst] = val(f, k.a); f.pc++; return;
      case K_EXTRACTV: { SVal v = val(f, k.a); for( int i : k.ops ) { if( !v.e ) { v = SVal((uint64_t)0); break; } if( v.e->op != O_AGG ) unsup("extractvalue"); v = (*v.e->agg)[i]; } f.r[k.dst] = v; f.pc++; return; }
      case K_INSERTV: {
         std::function<SVal(SVal, Type*, size_t)> ins = [&](SVal v, Type* t, size_t d) -> SVal { if( d == k.ops.size() ) return val(f, k.b); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); std::vector<SVal> e; if( v.e && v.e->op == O_AGG ) e = *v.e->agg; else e.resize(n); Type* et = t->isStructTy() ? t->getStructElementType(k.ops[d]) : t->getArrayElementType(); e[k.ops[d]] = ins(e[k.ops[d]], et, d + 1); SVal r; r.e = mkAgg(e); return r; };
         f.r[k.dst] = ins(val(f, k.a), k.ty, 0); f.pc++; return; }
      case K_EXTELT: { const SVal& v = val(f, k.a); uint64_t i = concretize(val(f, k.b), 64); f.r[k.dst] = v.e ? (*v.e->agg)[i] : SVal((uint64_t)0); f.pc++; return; }
      case K_INSELT: { const SVal& v = val(f, k.a); uint64_t i = concretize(val(f, k.c), 64); std::vector<SVal> e; if( v.e ) e = *v.e->agg; else e.resize(cast<FixedVectorType>(k.ty)->getNumElements()); e[i] = val(f, k.b); SVal r; r.e = mkAgg(e); f.r[k.dst] = r; f.pc++; return; }
      case K_SHUF: { const SVal& a = val(f, k.a), &b = val(f, k.b); size_t n = cast<FixedVectorType>(k.in->getOperand(0)->getType())->getNumElements(); std::vector<SVal> e; for( int m : k.ops ) { if( m < 0 ) e.push_back(SVal((uint64_t)0)); else if( (size_t)m < n ) e.push_back(a.e ? (*a.e->agg)[m] : SVal((uint64_t)0)); else e.push_back(b.e ? (*b.e->agg)[m - n] : SVal((uint64_t)0)); } SVal r; r.e = mkAgg(e); f.r[k.dst] = r; f.pc++; return; }
      case K_ATOMRMW: { uint64_t p = concretize(val(f, k.a), 64); SVal o = loadT(p, k.ty); SVal b = val(f, k.b), r; Expr* x = toE(o, k.w, S_BV), *y = toE(b, k.w, S_BV); switch( k.aux ) { case AtomicRMWInst::Add: r = SVal(mkBin(O_ADD, x, y)); break; case AtomicRMWInst::Sub: r = SVal(mkBin(O_SUB, x, y)); break; case AtomicRMWInst::Xchg: r = b; break; default: unsup("atomicrmw"); } storeT(p, r, k.ty); f.r[k.dst] = o; f.pc++; return; }
      case K_LANDING: { SVal v; v.e = mkAgg({SVal(s.cur.obj), SVal(s.curSel)}); f.r[k.dst] = v; f.pc++; return; }
      case K_RESUME: { const SVal& v = val(f, k.a); uint64_t obj = (*v.e->agg)[0].c; for( auto& x : s.excs ) if( x.obj == obj ) s.cur = x; unwind(s, true); return; }
      case K_CALL: case K_INVOKE: {
         std::vector<SVal> args; args.reserve(k.ops.size()); for( int o : k.ops ) args.push_back(val(f, o));
         Function* fn = k.callee;
         if( !fn ) { uint64_t p = concretize(val(f, k.a), 64); auto it = faddr.find(p); if( it == faddr.end() ) { if( p < (1ull << 32) ) err("null-call", "call through null pointer"); unsup("indirect call to non-function " + symAt(p)); } fn = it->second; }
         if( fn->isIntrinsic() ) { bool done; SVal r = intrinsic(s, f, k, args, done); if( !done ) unsup("intrinsic " + fn->getName().str()); finishCall(s, S->st.back(), k, r); return; }
         if( !fn->isDeclaration() || fn->isMaterializable() ) { enterFunction(s, fn, args, nullptr); return; }
         std::string name = fn->getName().str();
         if( name == "__cxa_throw" ) { s.cur = Exc{args[0].c, args[1].c}; s.excs.push_back(s.cur); if( g_trace ) fprintf(stderr, "throw %s\n", tiName(args[1].c).c_str()); unwind(s, false); return; }
         if( name == "__cxa_rethrow" ) { if( s.caught.empty() ) err("terminate", "rethrow without exception"); s.cur = s.caught.back(); unwind(s, false); return; }
         auto it = H.find(name); if( it == H.end() ) unsup("external function " + demangle(name) + " [" + name + "] called from " + backtrace(s));
         SVal r = it->second(s, f, k, args);
         finishCall(s, S->st.back(), k, r); return; }
      case K_UNSUP: default: unsup("instruction " + str(k.in) + " in " + demangle(f.f->f->getName().str()));
   }
}
static std::string jesc(const std::string& s) { std::string o; for( char c : s ) { if( c == '"' || c == '\\' ) { o += '\\'; o += c; } else if( (unsigned char)c < 32 ) o += ' '; else o += c; } return o; }
static std::string g_stop;
static void addSample(State& s) {
   if( g_samples.size() >= 3 || s.syms.empty() ) return;
   std::string o; for( size_t i = 0; i < std::min<size_t>(s.cs.size(), 6); i++ ) o += (i ? " && " : "") + exprStr(s.cs[i], 5); g_samples.push_back(o.substr(0, 600));
}
static void writeOut() {
   std::ofstream o(g_outFile); o.precision(6);
   o << "{\n \"case\": " << g_case << ", \"mode\": \"" << (g_mode == REAL ? "real" : "fp") << "\",\n \"paths\": " << n_paths << ", \"assumed_away\": " << n_assumedAway << ", \"forks\": " << n_forks << ", \"states\": " << n_states << ", \"instructions\": " << n_instr
     << ",\n \"checks_symbolic\": " << n_checks_sym << ", \"checks_concrete\": " << n_checks_conc << ",\n \"queries\": " << g_ss.queries << ", \"q_sat\": " << g_ss.sat << ", \"q_unsat\": " << g_ss.unsat << ", \"q_unknown\": " << g_ss.unknown << ", \"q_cached\": " << g_ss.cacheHits << ", \"solver_s\": " << g_ss.time << ", \"max_query_s\": " << g_ss.maxTime << ", \"wall_s\": " << elapsed() << ",\n \"complete\": " << (g_stop.empty() && g_work.empty() ? "true" : "false") << ", \"stop\": \"" << jesc(g_stop) << "\",\n \"labels\": {";
   bool first = true; for( auto& l : g_labels ) { o << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": {\"symbolic\": " << l.second.sym << ", \"concrete\": " << l.second.conc << ", \"fail\": " << l.second.fail << ", \"unknown\": " << l.second.unknown << "}"; first = false; }
   o << "},\n \"reach\": {"; first = true; for( auto& l : g_reach ) { o << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; first = false; }
   o << "},\n \"notes\": ["; first = true; for( auto& n : g_notes ) { o << (first ? "" : ", ") << "\"" << jesc(n) << "\""; first = false; }
   o << "],\n \"stubs\": {"; first = true; for( auto& l : g_stubs ) { o << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; first = false; }
   o << "},\n \"samples\": ["; first = true; for( auto& n : g_samples ) { o << (first ? "" : ", ") << "\"" << jesc(n) << "\""; first = false; }
   o << "],\n \"violations\": ["; first = true; for( auto& v : g_viol ) { o << (first ? "" : ", ") << "{\"kind\": \"" << jesc(v.kind) << "\", \"label\": \"" << jesc(v.label) << "\", \"msg\": \"" << jesc(v.msg) << "\", \"file\": \"" << jesc(v.file) << "\", \"where\": \"" << jesc(v.where) << "\"}"; first = false; }
   o << "],\n \"functions\": ["; first = true; for( auto& p : funcs ) if( p.second->entered ) { std::string n = p.first->getName().str(); if( n.find("Ipopt") == std::string::npos && n.find("Ip") == std::string::npos ) continue; o << (first ? "" : ", ") << "\"" << jesc(demangle(n)) << "\""; first = false; }
   o << "]\n}\n";
}
static std::string g_bc;
static void runAll() {
   LLVMContext ctx; SMDiagnostic diag;
   std::unique_ptr<Module> mod = getLazyIRFileModule(g_bc, diag, ctx);
   if( !mod ) { diag.print("ipsym", errs()); exit(3); }
   M = mod.get(); DL = &M->getDataLayout();
   State* s0 = new State(); S = s0;
   for( auto& f : M->functions() ) { uint64_t a = s0->mem.alloc(1, K_FUNC, true); gaddr[&f] = a; faddr[a] = &f; gByAddr[a] = &f; }
   std::vector<GlobalVariable*> gv; for( auto& g : M->globals() ) gv.push_back(&g);
   for( auto* g : gv ) { uint64_t n = g->isDeclaration() ? 256 : DL->getTypeAllocSize(g->getValueType()).getFixedValue(); uint64_t a = s0->mem.alloc(n, K_GLOBAL, true); gaddr[g] = a; gByAddr[a] = g; }
   for( auto* g : gv ) if( !g->isDeclaration() && g->getName() != "llvm.global_ctors" ) { Obj* o = s0->mem.get(gaddr[g] >> 32); try { initGlobal(o->d, g->getInitializer()); } catch( PathEnd& p ) { if( g_verbose ) fprintf(stderr, "global %s: %s\n", g->getName().str().c_str(), p.msg.c_str()); } if( g->isConstant() ) o->ro = true; }
   // stack: main, then ctors executed first (pushed on top)
   std::vector<SVal> margs{SVal((uint64_t)0), SVal((uint64_t)0)};
   Function* mainF = M->getFunction("sym_main"); if( !mainF ) { fprintf(stderr, "no sym_main\n"); exit(3); }
   // synthetic driver: run ctors via a work list
   std::vector<Function*> ctors;
   if( auto* gc = M->getGlobalVariable("llvm.global_ctors") ) if( auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()) ) { std::vector<std::pair<uint64_t, Function*>> v; for( auto& op : ca->operands() ) { auto* cs = cast<ConstantStruct>(op); if( auto* f = dyn_cast<Function>(cs->getOperand(1)) ) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for( auto& p : v ) ctors.push_back(p.second); }
   for( Function* c : ctors ) {
      std::vector<SVal> na; enterFunction(*s0, c, na, nullptr);
      try { while( true ) step(*s0); } catch( PathEnd& p ) { if( p.kind != "exit" ) { g_notes.insert("static constructor " + c->getName().str() + ": " + p.kind + " " + p.msg); g_stop = "ctor"; return; } } catch( Unsupported& u ) { g_notes.insert("ctor: " + u.msg); g_stop = "ctor"; return; }
   }
   enterFunction(*s0, mainF, margs, nullptr);
   g_work.push_back(s0);
   while( !g_work.empty() ) {
      State* s = g_work.back(); g_work.pop_back(); S = s;
      try {
         uint64_t cnt = 0;
         while( true ) { step(*s); if( (++cnt & 0xfff) == 0 ) { if( elapsed() > g_maxTime ) { g_stop = "time limit"; break; } if( n_instr > g_maxInstr ) { g_stop = "instruction limit"; break; } if( g_verbose && elapsed() - g_lastReport > 5 ) { g_lastReport = elapsed(); fprintf(stderr, "[%.0fs] instr %.1fM paths %llu work %zu queries %llu solver %.1fs heap %llu at %s\n", elapsed(), n_instr / 1e6, (unsigned long long)n_paths, g_work.size(), (unsigned long long)g_ss.queries, g_ss.time, (unsigned long long)s->mem.liveHeap, backtrace(*s).substr(0, 150).c_str()); } } }
      } catch( PathEnd& p ) {
         if( p.kind == "exit" ) { n_paths++; addSample(*s); }
         else if( p.kind == "assume" ) n_assumedAway++;
         else if( p.kind == "failed" ) n_paths++;
         else if( p.kind == "unsup" ) { n_paths++; g_notes.insert("unsupported: " + p.msg); if( g_verbose ) fprintf(stderr, "UNSUP %s\n  at %s\n", p.msg.c_str(), backtrace(*s).c_str()); }
         else { n_paths++; report(*s, nullptr, p.kind, p.kind.substr(6), p.msg); }
      } catch( Unsupported& u ) { n_paths++; g_notes.insert("unsupported: " + u.msg + " at " + backtrace(*s)); }
      delete s;
      if( !g_stop.empty() ) break;
      if( n_paths >= g_maxPaths ) { g_stop = "path limit"; break; }
   }
   writeOut();
   fflush(nullptr);
   int rc = !g_viol.empty() ? 1 : (!g_notes.empty() || !g_stop.empty()) ? 2 : 0;
   fprintf(stderr, "[ipsym] case %d: paths %llu forks %llu instr %.2fM queries %llu solver %.2fs wall %.2fs rc=%d %s\n", g_case, (unsigned long long)n_paths, (unsigned long long)n_forks, n_instr / 1e6, (unsigned long long)g_ss.queries, g_ss.time, elapsed(), rc, g_stop.c_str());
   for( auto& n : g_notes ) fprintf(stderr, "   note: %s\n", n.substr(0, 700).c_str());
   _exit(rc);
}
static void* thr(void*) { runAll(); writeOut(); for( auto& n : g_notes ) fprintf(stderr, "   note: %s\n", n.c_str()); _exit(2); return nullptr; }
int main(int argc, char** argv) {
   T0 = std::chrono::steady_clock::now(); unsigned tmo = 10000, hard = 60000;
   for( int i = 1; i < argc; i++ ) { std::string a = argv[i]; auto v = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; }; const char* x;
      if( (x = v("--out=")) ) g_outFile = x; else if( (x = v("--case=")) ) g_case = atoi(x); else if( (x = v("--mode=")) ) g_mode = std::string(x) == "fp" ? FPM : REAL; else if( (x = v("--max-time=")) ) g_maxTime = atof(x); else if( (x = v("--max-paths=")) ) g_maxPaths = atoll(x); else if( (x = v("--max-instr=")) ) g_maxInstr = atoll(x);
      else if( (x = v("--ce=")) ) g_ceDir = x; else if( (x = v("--tag=")) ) g_tag = x; else if( (x = v("--timeout=")) ) tmo = atoi(x); else if( (x = v("--hard=")) ) hard = atoi(x); else if( a == "-v" ) g_verbose = true; else if( a == "--trace" ) g_trace = true; else if( (x = v("--max-viol=")) ) g_maxViol = atoi(x); else g_bc = a; }
   if( g_outFile.empty() ) g_outFile = "/dev/null";
   solverInit(tmo, hard); initHandlers();
   pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30); pthread_t t; pthread_create(&t, &at, thr, nullptr); pthread_join(t, nullptr); return 2;
}
