#pragma once
#include "expr.h"
#include "mem.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <set>
#include <functional>
#include <deque>
#include <chrono>
namespace jsym {
struct Opnd { int reg{-1}; Value c; };
struct FuncI;
struct GepTerm { int reg; u64 scale; u8 w; Value c; };
struct Inst {
    u16 op{0}; u8 w{0}; u8 sw{0}; u8 pred{0}; u8 lanes{1};
    bool vis{false};
    int dst{-1}; int dstN{0};
    std::vector<Opnd> o;
    std::vector<int> tgt;            // branch targets (block ids)
    std::vector<u128> cases;         // switch
    std::vector<GepTerm> gep; u64 gepc{0};
    std::vector<u8> lw;              // leaf widths (load/store/select/ret on aggregates) 
    std::vector<u64> loff;           // leaf offsets
    std::vector<u8> argn;            // leaf count of each call argument
    FuncI* callee{nullptr}; int builtin{-1}; 
    const llvm::Instruction* I{nullptr};
    u64 asize{0}; u64 align{1};
    std::vector<int> shuf;
};
struct PhiCopy { int dst; Opnd src; };
struct BlockI { int first; std::map<int, std::vector<PhiCopy>> phis; };
struct FuncI {
    const llvm::Function* F{nullptr}; std::string name; u64 addr{0}; bool compiled{false}; int nregs{0};
    std::vector<Inst> code; std::vector<BlockI> blocks; std::vector<int> argSlots, argN; 
    std::string file; u32 line{0}; bool repo{false}; std::vector<char> cov; u64 calls{0};
    int builtin{-1};
};
struct Frame {
    int rc{0}; FuncI* f; int pc{0}, blk{0}; std::vector<Value> r; std::vector<u64> allocas; std::vector<Value> va; bool isDtorCall{false};
    Frame(FuncI* x) : f(x) {}
    Frame(const Frame& o) : rc(0), f(o.f), pc(o.pc), blk(o.blk), r(o.r), allocas(o.allocas), va(o.va), isDtorCall(o.isDtorCall) {}
};
enum class TS : u8 { Run, WantMutex, CvWait, Done, Join, WantRd, WantWr };
struct CaughtExc { u64 exc; u64 adj; };
struct Thread { std::vector<Ref<Frame>> st; TS ts{TS::Run}; u64 want{0}, cv{0}; bool reacq{false}, timed{false}, atPoint{true}; u64 deadline{0}; u64 rv{0}; std::vector<CaughtExc> caught; u64 errnoAddr{0}; u64 curExc{0}; std::map<u64, u64> landAdj; };
struct MutexSt { int owner{-1}; int cnt{0}; int readers{0}; };
struct ExcInfo { u64 ti{0}, dtor{0}; int handlers{0}; bool rethrown{false}; };
struct Input { std::string name; u8 w; bool conc; u128 c; u32 var; };
struct Obs { std::string name; Value v; u8 w; };
struct State {
    std::vector<Thread> th; int cur{0}; bool grant{false}; int preempt{0}; int spurious{0};
    ObjTable mem; Cons pc; Model m; std::vector<Input> in; std::vector<Obs> obs; u64 steps{0}; u64 heapNext, stackNext; u32 nUninit{0}, nIn{0};
    std::map<u64, MutexSt> mtx; std::map<u64, ExcInfo> exc; std::map<std::pair<int, u64>, u64> tls; std::vector<u8> sched; u64 id{0}; u32 forks{0}; u64 clock{0}; std::set<u64> guards;
    std::set<std::string> labels; bool unknown{false}; std::vector<std::string> trace;
    Thread& T() { return th[cur]; }
    const Frame& fr() { return *th[cur].st.back(); }
    Frame& wfr() { return *th[cur].st.back().own(); }
    bool known(E e) const { for (size_t i = pc.size(); i-- > 0;) if (pc[i] == e) return true; return false; }
};
struct ErrorRec { std::string kind, msg; std::vector<std::string> stack; std::vector<std::pair<std::string, std::pair<u8, u128>>> inputs; std::vector<u8> sched; bool inconclusive{false}; u64 count{1}; };
struct PathRec { std::vector<std::pair<std::string, std::pair<u8, u128>>> inputs; std::vector<std::pair<std::string, std::string>> obs; std::vector<u8> sched; };
struct Options { std::string entry = "harness"; double timeLimit = 300; u64 maxSteps = 20000000; unsigned solverMs = 20000; int maxErrors = 8; int maxPreempt = 100; int spurious = 0; size_t samples = 12; std::string repoPrefix = "/repo/"; u64 maxAlloc = 1ULL << 30; std::string xdir; unsigned xevery = 0; bool verbose = false; u64 seed = 1; size_t maxStates = 200000; double memMB = 6000; bool traceSched = getenv("JSYM_TRACE") != nullptr; };
struct PathEnd {};   // thrown to terminate the current path
struct Retry {};     // current state changed, re-run the same instruction
struct Exec {
    Options opt; Solver solver; std::unique_ptr<llvm::Module> M; const llvm::DataLayout* DL{nullptr};
    std::map<const llvm::GlobalValue*, u64> gaddr; std::map<u64, FuncI*> fbyAddr; std::deque<FuncI> funcs; std::map<const llvm::Function*, FuncI*> fmap; ObjTable base; std::map<u64, std::string> gname;
    std::vector<State*> work; State* S{nullptr};
    std::vector<ErrorRec> errors; std::vector<PathRec> samples; u64 nPaths = 0, nErrPaths = 0, nForks = 0, nSteps = 0, nAssumeEnd = 0, nAsserts = 0, nAssertTrivial = 0, nIncomplete = 0, nLoadsSym = 0; std::map<std::string, u64> reach; std::map<std::string, u64> unmodelled; std::map<std::pair<u32, unsigned>, u32> varByOrd; std::map<u32, u32> uninitByOrd; bool timeUp = false, memUp = false; std::chrono::steady_clock::time_point t0;
    std::map<u64, int> typeIds; std::set<std::string> touchedLabels;
    std::map<std::string, int> bnames; std::vector<std::function<void(Inst&, std::vector<Value>&)>> bfun;
    Value bret; bool bret2 = false; Value bretB; // builtin return values
    Exec(Options o);
    void load(const std::string& bc); void run(); std::string json();
    // internals
    FuncI* getF(const llvm::Function*); void compile(FuncI*); u64 sizeOf(llvm::Type*); unsigned widthOf(llvm::Type*);
    void leaves(llvm::Type*, std::vector<u8>& w, std::vector<u64>& off, u64 base); 
    void constLeaves(const llvm::Constant*, std::vector<Value>& out); Value constVal(const llvm::Constant*);
    void initBytes(Object* o, u64 off, const llvm::Constant* c);
    void step(); bool condFork(E c, State*& onFalse); bool branch(Value c);
    void addC(State* s, E e) { if (e->k != K::Const && !s->known(e)) s->pc.push_back(e); }
    bool mayBe(State* s, E e, Model* out = nullptr); 
    void push(State* s) { work.push_back(s); }
    [[noreturn]] void fail(const std::string& kind, const std::string& msg, bool inconclusive = false, const Model* m = nullptr);
    void record(const std::string& kind, const std::string& msg, bool inconclusive, const Model& m, bool addStack = true);
    [[noreturn]] void endPath(); void finishPath();
    State* fork() { State* n = new State(*S); n->id = ++nForks; n->forks++; S->forks++; return n; }
    u64 concretize(const Value& v, unsigned w);
    Object* lookup(u64 addr); Object* wobj(u64 base);
    void resolve(const Value& addr, u64 n, bool wr, u64& objBase, Value& off);
    Value loadv(const Value& addr, unsigned w); void storev(const Value& addr, Value v, unsigned w); 
    Value readAt(Object* o, u64 off, unsigned w); void writeAt(Object* o, u64 off, Value v, unsigned w); E byteAt(u64 objBase, u64 off);
    u64 alloc(u64 n, u64 align, OK_ k, const char* tag); void dealloc(u64 a, OK_ k);
    u64 exprToE(const Value&); E toE(const Value& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
    static Value fromE(E e) { Value v; if (e->k == K::Const) v.c = e->c; else v.e = e; return v; }
    Value bin(K k, const Value& a, const Value& b, unsigned w);
    Value icmp(unsigned pred, const Value& a, const Value& b, unsigned w);
    Value fcmp(unsigned pred, const Value& a, const Value& b, unsigned w);
    Value ite(const Value& c, const Value& a, const Value& b, unsigned w);
    void jump(int tgt); void call(FuncI* f, std::vector<Value>& args, Inst* ci, std::vector<Value>* va); void ret(std::vector<Value>& rv); void doCall(Inst& in); void setRet(Inst& in, const Value& v); void advance(); void afterCall(Inst& in);
    void unwind(); u64 matchType(u64 thrown, u64 caught, u64 obj, bool& ok); bool tiMatch(u64 thrown, u64 caught, i64& off, bool viaPtr); int typeId(u64 ti);
    u64 rdConst64(u64 a); std::string rdStr(u64 a, size_t max = 512); void throwObj(u64 exc);
    void memcpyB(const Value& d, const Value& s, u64 n); void memsetB(const Value& d, const Value& v, u64 n); Value memcmpB(const Value& a, const Value& b, u64 n, bool eqOnly);
    void intrinsic(Inst& in, std::vector<Value>& a, const llvm::Function* F); void regBuiltins(); std::vector<std::string> stack();
    void grantCur(); bool schedule(bool visible); std::vector<int> enabled(); void activate(int t); void newVarInput(const char* name, unsigned w, Value& out);
    std::vector<std::pair<std::string, std::pair<u8, u128>>> inputsOf(const State& s, const Model& m);
    u32 mkInternalVar(State* s);
    double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
};
}
