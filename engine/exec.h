#pragma once
#include "expr.h"
#include "solver.h"
#include "mem.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <string>
#include <vector>
#include <deque>

struct SV { E e; uint64_t c; };
struct Lane { uint32_t off; uint16_t width; bool fp; };	// memory layout of one flattened scalar
struct Layout { std::vector<Lane> lanes; uint64_t size; };

struct FuncInfo;
struct BlockInfo;
struct State;
struct Ins;
typedef std::function<void(State&, Ins&)> Handler;

struct Ins
{
	llvm::Instruction* I;
	unsigned opc;
	int dst = -1;
	unsigned w = 0;	       // lane width of the result (0 for void / mixed aggregates)
	unsigned n = 0;	       // lanes of the result
	std::vector<int> ops;  // operand slots (>=0) or constant pool (-x-1)
	// GEP
	int64_t cst = 0;
	std::vector<std::pair<int, int64_t>> terms; // operand slot, scale
	std::vector<unsigned> termW;
	const Layout* lay = nullptr;
	FuncInfo* callee = nullptr;
	const Handler* handler = nullptr;
	FuncInfo* parent = nullptr;
	BlockInfo* bb = nullptr;
	bool visible = false;
	uint64_t aux = 0;
};
struct PhiIn { int dst; unsigned n; std::map<BlockInfo*, int> in; };
struct BlockInfo
{
	llvm::BasicBlock* bb;
	FuncInfo* f;
	std::vector<PhiIn> phis;
	std::vector<Ins> ins;
};
struct FuncInfo
{
	llvm::Function* F;
	std::string name;
	uint64_t addr = 0;
	bool decoded = false;
	unsigned nslots = 0;
	std::vector<std::unique_ptr<BlockInfo>> blocks;
	std::map<llvm::BasicBlock*, BlockInfo*> bmap;
	std::map<const llvm::Value*, int> slots;
	std::vector<int> argSlots;
	std::vector<unsigned> argN;
	const Handler* handler = nullptr;
	uint64_t calls = 0;
	uint64_t icount = 0;
	bool repo = false;
	std::string file;
};
struct Frame
{
	FuncInfo* f;
	BlockInfo* bb;
	unsigned ip = 0;
	std::vector<SV> regs;
	std::vector<uint64_t> allocs;
	uint64_t va = 0; // vararg area
	std::map<BlockInfo*, unsigned>* loops = nullptr;
};
struct Exc { uint64_t obj; std::string type; uint64_t refs; };
enum TStatus : uint8_t { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE };
struct Thread
{
	std::vector<Frame> st;
	TStatus status = T_RUN;
	uint64_t waitOn = 0;   // mutex or condvar address, or joined thread
	uint64_t waitMutex = 0; // for condvar
	std::vector<Exc> caught;
	Exc pending{ 0, "", 0 };
	uint64_t tid = 0;
	uint64_t threadObj = 0;
	bool yielded = false;
};
// happens-before tracking of plain accesses (only while schedules are explored)
static const unsigned MAXT = 6;
struct VC { uint16_t c[MAXT] = { 0 }; };
struct Cell { uint16_t r[MAXT]; uint16_t wclk; uint16_t wt; uint32_t loc; };
struct Shadow { Cell c[PG]; };
struct SymRec { std::string name; std::vector<E> bytes; bool replay; };
struct State
{
	uint64_t id = 0;
	std::vector<Thread> th;
	unsigned cur = 0;
	Mem mem;
	std::vector<E> pc;
	ModelP model;
	std::vector<SymRec> syms;
	std::map<uint64_t, int> mutexOwner;
	std::map<std::pair<unsigned, const void*>, uint64_t> tls; // (thread, global) -> address
	std::map<uint64_t, unsigned> ctors;
	uint64_t heapLive = 0, heapBytes = 0;
	int mallocFail = 0;	// remaining allocation failures that may be injected
	int mallocFailed = 0;
	uint64_t allocLimit = 0;
	unsigned schedPos = 0;
	int preempt = 0;
	bool schedDone = false;
	std::vector<int> schedTrace; // flattened pairs: number of visible operations so far, thread switched to (1000+k: thread k notified)
	bool sched = false;
	uint64_t vis = 0;
	unsigned spins = 0; // consecutive yields without any thread that has something else to do
	std::vector<VC> vc;
	std::map<uint64_t, VC> syncs;
	// hash of what each thread has seen (its own steps and, through synchronisation, those of others): equal hashes mean
	// equivalent interleavings, of which one is enough
	std::vector<uint64_t> hh;
	std::map<uint64_t, uint64_t> oh;
	uint64_t lastKey = 0;
	std::unordered_map<uint64_t, std::shared_ptr<Shadow>> shadow;
	uint64_t depth = 0; // forks on the path
	uint64_t icount = 0;
	bool dead = false;
	bool recover = false;
	unsigned phase = 0;
	std::map<std::string, uint64_t> vars; // harness scratch
	std::map<uint64_t, std::string> excType;
	std::vector<std::pair<std::string, std::vector<E>>> obs;
	State() {}
	Thread& t() { return th[cur]; }
	Frame& f() { return th[cur].st.back(); }
};
