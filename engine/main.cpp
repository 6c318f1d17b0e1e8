// vse: a small symbolic executor for LLVM IR (clang -emit-llvm of the real sources plus a harness).
//
// Every path is executed with symbolic inputs; an SMT solver (Z3, bit-vectors) decides at each
// branch, address and assertion which outcomes are possible for some input value. The pointer
// structure of the heap is concrete along a path, the data is symbolic. The run is exhaustive
// within the input ranges the harness states, or it says that it is not.
#include "expr.h"

#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <algorithm>
#include <bitset>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <atomic>
#include <fstream>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

using namespace llvm;
using std::string;
using std::vector;

static double now()
{
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- values and memory

struct Val {
	uint64_t c = 0;
	E e = nullptr; // null: concrete
};
static const E UNDEF = (E)1;

static inline Val V(uint64_t c) { return Val{c, nullptr}; }
static inline Val VE(E e) { return isC(e) ? Val{e->c, nullptr} : Val{0, e}; }
static inline E asE(Val v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

struct SymByte {
	E e;
	uint8_t k; // byte index in e
};

enum Kind : uint8_t { HEAP, STACK, GLOBAL };

struct Obj {
	int rc = 1;
	Kind kind;
	bool ro = false;
	uint32_t size;
	const char *name = "";
	vector<uint8_t> data;
	vector<uint8_t> uninit;  // empty: all initialised
	vector<SymByte> sym;     // empty: all concrete
};

struct Ref {
	Obj *p = nullptr;
	Ref() {}
	explicit Ref(Obj *o) : p(o) {}
	Ref(const Ref &r) : p(r.p)
	{
		if(p)
			++p->rc;
	}
	Ref(Ref &&r) noexcept : p(r.p) { r.p = nullptr; }
	Ref &operator=(Ref r)
	{
		std::swap(p, r.p);
		return *this;
	}
	~Ref()
	{
		if(p && --p->rc == 0)
			delete p;
	}
};

struct Slot {
	Ref o;
	uint8_t state = 0; // 0 live, 1 freed heap, 2 dead stack, 3 function
};

static const uint64_t OBJ_BIAS = 0x10000000ull;
static inline uint64_t baseOf(uint32_t id) { return ((uint64_t)id << 32) | OBJ_BIAS; }

// ---------------------------------------------------------------- compiled functions

enum K : uint8_t {
	I_BIN, I_ICMP, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_LOAD, I_STORE, I_GEP, I_BR, I_CBR, I_SWITCH,
	I_SELECT, I_CALL, I_RET, I_ALLOCA, I_UNREACH, I_BAD, I_NOP, I_AGGLOAD, I_AGGSTORE, I_EXTRACTV, I_INSERTV
};

enum B : uint8_t {
	B_NONE, B_RANGE, B_ASSUME, B_ASSERT, B_END, B_ALLOC, B_FREE, B_SIZE, B_KILL, B_CONC, B_OBS, B_SPAWN,
	B_YIELD, B_WAIT, B_SELF, B_GUARD, B_WORK, B_DEPTH, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_IGNORE, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_TLS, B_MATH, B_UNKNOWN
};

struct GepStep {
	int op;
	uint64_t scale;
	uint8_t w;
};

struct Ins {
	K k;
	uint8_t w = 0, w2 = 0;
	uint8_t sub = 0; // Op, predicate, builtin
	int dst = -1;
	int a = 0, b = 0, c = 0;
	int x = -1; // side table
	uint64_t imm = 0;
	uint32_t line = 0;
};

struct Edge {
	int ip;
	vector<std::pair<int, int>> moves;
};

struct CallInfo {
	int fn = -1; // -1 indirect
	vector<int> args;
	vector<uint8_t> aw;
	vector<uint32_t> byval; // size of the copy a by-value argument needs
	string name;
	unsigned id = 0; // of an intrinsic
};

// Leaves of an aggregate type: offset, width and bytes of each scalar.
struct Leaf {
	uint64_t off;
	uint8_t w, n;
};

struct AggInfo {
	vector<Leaf> leaves;
	int first = 0, count = 0; // leaves addressed by extractvalue/insertvalue
	bool scalar = false;
};

struct SwitchInfo {
	vector<std::pair<uint64_t, int>> cases;
	int def;
};

struct Fn {
	Function *f;
	string name, file;
	int nregs = 0, nargs = 0;
	vector<Ins> code;
	vector<Edge> edges;
	vector<vector<GepStep>> geps;
	vector<CallInfo> calls;
	vector<SwitchInfo> sws;
	vector<AggInfo> aggs;
	vector<uint8_t> cov;
	bool compiled = false;
};

static LLVMContext g_ctx;
static std::unique_ptr<Module> g_mod;
static const DataLayout *g_dl;
static vector<Fn> g_fns;
static std::unordered_map<const Function *, int> g_fnIndex;
static vector<Val> g_consts;
static vector<uint8_t> g_constW;
static std::unordered_map<const Constant *, int> g_constIdx;
static std::unordered_map<const GlobalVariable *, uint32_t> g_globalId;
static uint32_t g_firstFnId;
static vector<vector<Val>> g_agg; // immutable aggregate values

// ---------------------------------------------------------------- state

struct Frame {
	int fn;
	int ip;
	int retdst;
	uint8_t retw;
	vector<Val> regs;
	vector<uint32_t> allocas;
	uint64_t bytes = 0; // of arrays on the stack, in this frame
};

struct Thread {
	vector<Frame> st;
	uint64_t bytes = 0; // of all frames
	uint64_t deep() const { return st.size() + bytes / 64; } // frames, and arrays in units of 64 bytes
	bool done = false;
	uint64_t waitAddr = 0;
};

struct VarInfo {
	uint8_t w;
	bool input;
	uint64_t add; // input value = var + add
};

struct State {
	vector<Thread> th;
	int cur = 0;
	vector<Slot> objs;
	vector<E> cons;
	vector<VarInfo> vars;
	vector<uint64_t> model;
	vector<Val> inputs; // 64-bit values handed to the harness
	vector<Val> obs;
	vector<std::pair<uint64_t, uint64_t>> guards; // inaccessible [begin,end)
	uint64_t steps = 0;
	uint64_t copied = 0;  // bytes moved by memcpy and its kind
	uint64_t deepest = 0; // the deepest the stack has been since it was last asked for, see deep()
	bool resched = false;
	bool ended = false;
};

struct Violation {
	string what, where;
};

// ---------------------------------------------------------------- statistics and options

struct Stats {
	uint64_t paths = 0, completed = 0, assumed = 0, killed = 0, forks = 0, instrs = 0;
	uint64_t queries = 0, qcached = 0, qsat = 0, qunsat = 0, qunknown = 0, qhard = 0, asserts = 0, checked = 0, maxcons = 0, allocs = 0;
	double solver = 0;
} S;

static uint64_t optMaxSteps = 2000000;
static uint64_t optMaxValues = 5000;
static double optTimeout = 600;
static uint64_t optMaxDepth = 3000;
static double optQuery = 1;      // seconds the first solver gets for a query
static double optHard = 120;     // and the others for one it does not answer
static uint64_t g_rng;  // chooses the sampled paths
static unsigned g_worker;
static int optWorkers = 1;
static uint64_t optSeed = 1;
static string optOut, optEntry = "harness";
static double g_start;
static vector<std::pair<vector<uint64_t>, vector<uint64_t>>> g_samples;
static bool g_incomplete;
static string g_incompleteWhy;

// ---------------------------------------------------------------- solver

static Z3_context Z;
static Z3_solver g_solver;
static uint64_t g_epoch = 1;

static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error %d: %s\n", (int)e, Z3_get_error_msg(c, e)); }

static void solverInit()
{
	Z3_config cfg = Z3_mk_config();
	Z = Z3_mk_context(cfg);
	Z3_set_error_handler(Z, zerr);
	Z3_del_config(cfg);
	g_solver = getenv("VSE_LOGIC") ? Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, getenv("VSE_LOGIC"))) : Z3_mk_simple_solver(Z);
	Z3_solver_inc_ref(Z, g_solver);
	Z3_params p = Z3_mk_params(Z);
	Z3_params_inc_ref(Z, p);
	Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), (unsigned)(optQuery * 1000));
	Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "random_seed"), (unsigned)optSeed);
	Z3_solver_set_params(Z, g_solver, p);
	Z3_params_dec_ref(Z, p);
}

static Z3_ast asBool(E e)
{
	return Z3_mk_eq(Z, toZ3(Z, e), toZ3(Z, mkConst(1, 1)));
}


struct Incomplete {
	string why;
};

// ---- constraint slicing and query cache
//
// A query is "path constraints and cond". Only the constraints that share inputs with cond
// (transitively) matter, because the rest is satisfied by the path's own model. The answer for a
// slice is remembered.

// ---- queries the incremental solver does not answer quickly
//
// They are given to other solvers, each in a process of its own: one that translates bit-vectors to
// integers (divisions by constants), and two that bit-blast after preprocessing. The first answer counts;
// a model is checked against the query before it is used.

static Z3_lbool portfolio(const vector<string> &names, vector<string> &vals)
{
	string base = optOut.empty() ? "/tmp/vse-query" : optOut;
	base += ".q" + std::to_string(g_worker) + "-" + std::to_string(getpid());
	string text = Z3_solver_to_string(Z, g_solver);
	for(const char *w : {"bvurem_i", "bvudiv_i", "bvsdiv_i", "bvsrem_i", "bvsmod_i"})
		for(size_t at; (at = text.find(w)) != string::npos;)
			text.erase(at + strlen(w) - 2, 2);
	text = "(set-option :produce-models true)\n(set-logic QF_BV)\n" + text + "\n(check-sat)\n";
	string ask;
	for(auto &n : names)
		if(text.find("(declare-fun " + n + " ") != string::npos)
			ask += " " + n;
	if(!ask.empty())
		text += "(get-value (" + ask + "))\n";
	FILE *fp = fopen((base + ".smt2").c_str(), "w");
	if(!fp)
		return Z3_L_UNDEF;
	fputs(text.c_str(), fp);
	fclose(fp);

	const char *cmds[][4] = {{"cvc5", "--solve-bv-as-int=sum", nullptr, nullptr}, {"cvc5", nullptr, nullptr, nullptr}, {"z3-new", nullptr, nullptr, nullptr}, {"z3", nullptr, nullptr, nullptr}};
	const int n = sizeof(cmds) / sizeof(*cmds);
	pid_t pids[n];
	for(int i = 0; i < n; ++i)
	{
		pids[i] = fork();
		if(!pids[i])
		{
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			int fd = open((base + "." + std::to_string(i)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
			dup2(fd, 1);
			dup2(fd, 2);
			alarm((unsigned)optHard);
			string in = base + ".smt2";
			char *argv[6];
			int k = 0;
			for(int j = 0; j < 4 && cmds[i][j]; ++j)
				argv[k++] = (char *)cmds[i][j];
			argv[k++] = (char *)in.c_str();
			argv[k] = nullptr;
			execvp(argv[0], argv);
			_exit(127);
		}
	}
	Z3_lbool answer = Z3_L_UNDEF;
	for(int left = n; left && answer == Z3_L_UNDEF;)
	{
		for(int i = 0; i < n && answer == Z3_L_UNDEF; ++i)
		{
			int st;
			if(pids[i] <= 0 || waitpid(pids[i], &st, WNOHANG) != pids[i])
				continue;
			pids[i] = 0;
			--left;
			std::ifstream f(base + "." + std::to_string(i));
			string out((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
			if(out.find("error") != string::npos && out.compare(0, 5, "unsat"))
				continue;
			if(!out.compare(0, 5, "unsat"))
				answer = Z3_L_FALSE;
			else if(!out.compare(0, 3, "sat"))
			{
				vals.clear();
				bool all = true;
				for(auto &nm : names)
				{
					vals.push_back("0");
					if(ask.find(" " + nm) == string::npos)
						continue;
					size_t at = out.find("(" + nm + " ");
					if(at == string::npos)
						all = false;
					else
						vals.back() = out.substr(at + nm.size() + 2, out.find(')', at) - at - nm.size() - 2);
				}
				if(all)
					answer = Z3_L_TRUE;
			}
		}
		if(answer == Z3_L_UNDEF)
			usleep(5000);
	}
	for(int i = 0; i < n; ++i)
	{
		if(pids[i] > 0)
		{
			kill(pids[i], SIGKILL);
			waitpid(pids[i], nullptr, 0);
		}
		unlink((base + "." + std::to_string(i)).c_str());
	}
	unlink((base + ".smt2").c_str());
	return answer;
}

static uint64_t bvValue(const string &t) // #b0101, #x1f, (_ bv12 64)
{
	if(!t.compare(0, 2, "#b"))
		return strtoull(t.c_str() + 2, nullptr, 2);
	if(!t.compare(0, 2, "#x"))
		return strtoull(t.c_str() + 2, nullptr, 16);
	size_t at = t.find("bv");
	return at == string::npos ? 0 : strtoull(t.c_str() + at + 2, nullptr, 10);
}

typedef std::bitset<512> VarSet;
static std::unordered_map<E, VarSet> g_varsOf;

static bool g_manyVars;

static const VarSet &varsOf(E e)
{
	auto it = g_varsOf.find(e);
	if(it != g_varsOf.end())
		return it->second;
	VarSet v;
	if(e->op == Op::Var)
	{
		uint64_t i = e->c & ~UNINIT_BIT;
		if(i < v.size())
			v.set(i);
		else
			g_manyVars = true;
	}
	else
	{
		for(E k : {e->a, e->b, e->d})
			if(k)
				v |= varsOf(k);
	}
	return g_varsOf.emplace(e, v).first->second;
}

struct KeyHash {
	size_t operator()(const vector<uint32_t> &k) const
	{
		uint64_t h = 1469598103934665603ull;
		for(uint32_t x : k)
			h = (h ^ x) * 1099511628211ull;
		return h ^ (h >> 31);
	}
};

struct Answer {
	bool sat;
	vector<std::pair<uint32_t, uint64_t>> vals;
};
static std::unordered_map<vector<uint32_t>, Answer, KeyHash> g_cache;

// Is there a value of the inputs that satisfies the path and cond? Fills model if so.
static bool feasible(State &s, E cond, vector<uint64_t> &model)
{
	if(isC(cond))
	{
		model = s.model;
		return cond->c != 0;
	}
	double t = now();
	++S.queries;
	vector<E> slice;
	VarSet vs = varsOf(cond);
	if(g_manyVars)
		slice = s.cons;
	else
	{
		vector<E> rest(s.cons);
		for(bool more = true; more;)
		{
			more = false;
			for(size_t i = 0; i < rest.size();)
			{
				const VarSet &cv = varsOf(rest[i]);
				if((cv & vs).any())
				{
					vs |= cv;
					slice.push_back(rest[i]);
					rest[i] = rest.back();
					rest.pop_back();
					more = true;
				}
				else
					++i;
			}
		}
		if(g_manyVars)
			slice = s.cons;
	}
	vector<uint32_t> key;
	key.reserve(slice.size() + 1);
	for(E e : slice)
		key.push_back(e->id);
	key.push_back(cond->id);
	std::sort(key.begin(), key.end());
	key.erase(std::unique(key.begin(), key.end()), key.end());
	auto it = g_cache.find(key);
	if(it == g_cache.end())
	{
		Z3_solver_push(Z, g_solver);
		for(E e : slice)
			Z3_solver_assert(Z, g_solver, asBool(e));
		Z3_solver_assert(Z, g_solver, asBool(cond));
		Z3_lbool r = Z3_solver_check(Z, g_solver);
		Answer a;
		a.sat = r == Z3_L_TRUE;
		if(r == Z3_L_TRUE)
		{
			Z3_model m = Z3_solver_get_model(Z, g_solver);
			Z3_model_inc_ref(Z, m);
			for(size_t i = 0; i < s.vars.size(); ++i)
			{
				if(!g_manyVars && (i >= vs.size() || !vs.test(i)))
					continue;
				Z3_func_decl d = Z3_get_app_decl(Z, Z3_to_app(Z, toZ3(Z, mkVar(i | (s.vars[i].input ? 0 : UNINIT_BIT), s.vars[i].w))));
				Z3_ast v = Z3_model_get_const_interp(Z, m, d);
				uint64_t u = 0;
				if(v)
					Z3_get_numeral_uint64(Z, v, &u);
				a.vals.push_back({(uint32_t)i, u});
			}
			Z3_model_dec_ref(Z, m);
			++S.qsat;
		}
		else if(r == Z3_L_FALSE)
			++S.qunsat;
		else
		{
			vector<string> names, vals;
			vector<uint32_t> idx;
			for(size_t i = 0; i < s.vars.size(); ++i)
				if(g_manyVars || (i < vs.size() && vs.test(i)))
				{
					idx.push_back((uint32_t)i);
					names.push_back("v" + std::to_string(i | (s.vars[i].input ? 0 : UNINIT_BIT)) + "_" + std::to_string(s.vars[i].w));
				}
			r = portfolio(names, vals);
			if(r == Z3_L_TRUE)
			{
				a.sat = true;
				vector<uint64_t> m = s.model;
				m.resize(s.vars.size());
				for(size_t k = 0; k < idx.size(); ++k)
				{
					uint64_t u = bvValue(vals[k]);
					a.vals.push_back({idx[k], u});
					m[idx[k]] = u;
				}
				bool good = evalE(cond, m, ++g_epoch) != 0;
				for(E e : slice)
					good = good && evalE(e, m, ++g_epoch);
				if(!good)
					r = Z3_L_UNDEF;
				++S.qsat;
			}
			else if(r == Z3_L_FALSE)
				++S.qunsat;
			else
				++S.qunknown;
			++S.qhard;
		}
		Z3_solver_pop(Z, g_solver, 1);
		if(r == Z3_L_UNDEF)
			throw Incomplete{"solver answered unknown"};
		if(now() - g_start > optTimeout)
			throw Incomplete{"time limit"};
		it = g_cache.emplace(std::move(key), std::move(a)).first;
	}
	else
		++S.qcached;
	bool sat = it->second.sat;
	if(sat)
	{
		model = s.model;
		model.resize(s.vars.size());
		for(auto &v : it->second.vals)
			if(v.first < model.size())
				model[v.first] = v.second;
	}
	S.solver += now() - t;
	return sat;
}

static uint64_t evalUnder(const State &s, E e) { return evalE(e, s.model, ++g_epoch); }
static uint64_t evalUnder(const State &s, Val v) { return v.e ? evalUnder(s, v.e) : v.c; }

static void addCons(State &s, E e)
{
	if(isC(e))
		return;
	s.cons.push_back(e);
	S.maxcons = std::max<uint64_t>(S.maxcons, s.cons.size());
}

// ---------------------------------------------------------------- worklist

static std::deque<std::unique_ptr<State>> g_work;

static std::unique_ptr<State> forkState(const State &s)
{
	++S.forks;
	return std::unique_ptr<State>(new State(s));
}

// ---------------------------------------------------------------- control-flow exceptions

struct PathEnd {};   // path finished (end, assume, kill)
struct Bug {
	string what;
};

// ---------------------------------------------------------------- locations

static string whereIs(const State &s)
{
	string r;
	const Thread &t = s.th[s.cur];
	for(int i = (int)t.st.size() - 1, n = 0; i >= 0 && n < 6; --i, ++n)
	{
		const Frame &f = t.st[i];
		const Fn &fn = g_fns[f.fn];
		int ip = f.ip;
		if(ip >= (int)fn.code.size())
			ip = (int)fn.code.size() - 1;
		if(n)
			r += " < ";
		r += fn.name + ":" + std::to_string(ip >= 0 ? fn.code[ip].line : 0);
	}
	return r;
}

// ---------------------------------------------------------------- memory access

static uint32_t newObj(State &s, uint64_t size, Kind kind, bool uninit, const char *name)
{
	if(size > (64u << 20))
		throw Incomplete{"allocation of " + std::to_string(size) + " bytes"};
	Obj *o = new Obj();
	o->kind = kind;
	o->size = (uint32_t)size;
	o->name = name;
	o->data.assign(size, 0);
	if(uninit)
		o->uninit.assign(size, 1);
	uint32_t id = (uint32_t)s.objs.size();
	Slot sl;
	sl.o = Ref(o);
	s.objs.push_back(std::move(sl));
	return id;
}

static Obj *writable(State &s, uint32_t id)
{
	Ref &r = s.objs[id].o;
	if(r.p->rc > 1)
	{
		Obj *n = new Obj(*r.p);
		n->rc = 1;
		r = Ref(n);
	}
	return r.p;
}

static uint32_t access(State &s, uint64_t addr, uint64_t n, bool write, uint64_t &off)
{
	uint32_t id = (uint32_t)(addr >> 32);
	const char *what = write ? "write" : "read";
	++S.checked;
	if(addr < 0x10000)
		throw Bug{string("null pointer ") + what};
	if(id == 0 || id >= s.objs.size())
		throw Bug{string("wild pointer ") + what};
	Slot &sl = s.objs[id];
	if(sl.state == 1)
		throw Bug{string("use after free (") + what + ")"};
	if(sl.state == 2)
		throw Bug{string("use of a dead stack object (") + what + ")"};
	if(sl.state == 3)
		throw Bug{string("data access to a function (") + what + ")"};
	uint64_t base = baseOf(id);
	off = addr - base;
	if(addr < base || off > sl.o.p->size || n > sl.o.p->size - off)
		throw Bug{string("out-of-bounds ") + what + " of " + std::to_string(n) + " byte(s) at offset " +
			std::to_string((int64_t)off) + " of a block of " + std::to_string(sl.o.p->size)};
	if(write && sl.o.p->ro)
		throw Bug{"write to read-only memory"};
	for(auto &g : s.guards)
		if(n && addr < g.second && addr + n > g.first)
			throw Bug{string(what) + " of guarded memory"};
	return id;
}

static E freshVar(State &s, unsigned w, bool input, uint64_t add, uint64_t val)
{
	s.vars.push_back(VarInfo{(uint8_t)w, input, add});
	s.model.push_back(val & mask(w));
	return mkVar((s.vars.size() - 1) | (input ? 0 : UNINIT_BIT), w);
}

static void storeBytes(State &s, uint64_t addr, Val v, unsigned n, unsigned w)
{
	uint64_t off;
	uint32_t id = access(s, addr, n, true, off);
	Obj *o = writable(s, id);
	if(!v.e)
	{
		memcpy(&o->data[off], &v.c, n);
		if(!o->sym.empty())
			for(unsigned i = 0; i < n; ++i)
				o->sym[off + i].e = nullptr;
	}
	else
	{
		E e = v.e;
		if(w < n * 8)
			e = mkZExt(e, n * 8);
		if(isC(e))
		{
			storeBytes(s, addr, V(e->c), n, n * 8);
			return;
		}
		if(o->sym.empty())
			o->sym.assign(o->size, SymByte{nullptr, 0});
		for(unsigned i = 0; i < n; ++i)
			o->sym[off + i] = SymByte{e, (uint8_t)i};
	}
	if(!o->uninit.empty())
		for(unsigned i = 0; i < n; ++i)
			o->uninit[off + i] = 0;
}

static Val loadBytes(State &s, uint64_t addr, unsigned n, unsigned w)
{
	uint64_t off;
	uint32_t id = access(s, addr, n, false, off);
	const Obj *o = s.objs[id].o.p;
	bool plain = true;
	if(!o->uninit.empty())
	{
		bool any = false;
		for(unsigned i = 0; i < n; ++i)
			any |= o->uninit[off + i];
		if(any)
		{
			Obj *q = writable(s, id);
			if(q->sym.empty())
				q->sym.assign(q->size, SymByte{nullptr, 0});
			for(unsigned i = 0; i < n; ++i)
				if(q->uninit[off + i])
				{
					q->uninit[off + i] = 0;
					q->sym[off + i] = SymByte{freshVar(s, 8, false, 0, 0xbe), 0};
				}
			o = q;
		}
	}
	if(!o->sym.empty())
		for(unsigned i = 0; i < n; ++i)
			if(o->sym[off + i].e)
				plain = false;
	if(plain)
	{
		uint64_t c = 0;
		memcpy(&c, &o->data[off], n);
		return V(c & mask(w));
	}
	E first = o->sym[off].e;
	if(first && o->sym[off].k == 0 && first->w == n * 8)
	{
		bool same = true;
		for(unsigned i = 1; i < n; ++i)
			same &= o->sym[off + i].e == first && o->sym[off + i].k == i;
		if(same)
			return VE(w < n * 8 ? mkExtract(first, 0, w) : first);
	}
	E r = nullptr;
	for(unsigned i = 0; i < n; ++i)
	{
		const SymByte &sb = o->sym[off + i];
		E b = sb.e ? mkExtract(sb.e, sb.k * 8, 8) : mkConst(o->data[off + i], 8);
		r = r ? mkConcat(b, r) : b;
	}
	if(w < n * 8)
		r = mkExtract(r, 0, w);
	return VE(r);
}

// Splits the path over every value v can take and returns the one of this branch.
static uint64_t concretize(State &s, Val v, unsigned w)
{
	if(!v.e)
		return v.c;
	if(v.e->u)
		throw Bug{"an address or size depends on uninitialised memory"};
	uint64_t c = evalUnder(s, v.e);
	E eq = mkBin(Op::Eq, v.e, mkConst(c, w));
	if(isC(eq))
		return c;
	vector<uint64_t> m;
	E ne = mkNot(eq);
	if(feasible(s, ne, m))
	{
		auto o = forkState(s);
		o->model = m;
		addCons(*o, ne);
		g_work.push_back(std::move(o)); // re-executes the same instruction
		addCons(s, eq);
	}
	return c;
}

// ---------------------------------------------------------------- compilation of IR

static int constIndex(const Constant *c);
static Val constVal(const Constant *c, unsigned w);

static Val newAgg(vector<Val> v)
{
	g_agg.push_back(std::move(v));
	return V(g_agg.size() - 1);
}

static unsigned widthOf(Type *t)
{
	if(t->isPointerTy())
		return 64;
	if(auto *it = dyn_cast<IntegerType>(t))
		return it->getBitWidth();
	return 0;
}

static bool leavesOf(Type *t, uint64_t off, vector<Leaf> &out)
{
	if(auto *st = dyn_cast<StructType>(t))
	{
		const StructLayout *sl = g_dl->getStructLayout(st);
		for(unsigned i = 0; i < st->getNumElements(); ++i)
			if(!leavesOf(st->getElementType(i), off + sl->getElementOffset(i), out))
				return false;
		return true;
	}
	if(auto *at = dyn_cast<ArrayType>(t))
	{
		uint64_t es = g_dl->getTypeAllocSize(at->getElementType());
		for(uint64_t i = 0; i < at->getNumElements(); ++i)
			if(!leavesOf(at->getElementType(), off + i * es, out))
				return false;
		return true;
	}
	unsigned w = widthOf(t);
	if(!w || w > 64)
		return false;
	out.push_back(Leaf{off, (uint8_t)w, (uint8_t)g_dl->getTypeStoreSize(t)});
	return true;
}

static void constLeaves(const Constant *c, vector<Val> &out)
{
	Type *t = c->getType();
	if(t->isAggregateType())
	{
		uint64_t n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
		for(uint64_t i = 0; i < n; ++i)
			constLeaves(c->getAggregateElement((unsigned)i), out);
		return;
	}
	Val v = constVal(c, widthOf(t));
	if(v.e == UNDEF)
		v = V(0xbebebebebebebebeull & mask(widthOf(t)));
	out.push_back(v);
}

static Val constVal(const Constant *c, unsigned w)
{
	if(auto *ci = dyn_cast<ConstantInt>(c))
		return V(ci->getBitWidth() > 64 ? ci->getValue().trunc(64).getZExtValue() : ci->getZExtValue());
	if(isa<ConstantPointerNull>(c))
		return V(0);
	if(c->getType()->isAggregateType())
	{
		vector<Val> v;
		constLeaves(c, v);
		return newAgg(std::move(v));
	}
	if(isa<UndefValue>(c))
		return Val{0, UNDEF};
	if(auto *gv = dyn_cast<GlobalVariable>(c))
		return V(baseOf(g_globalId.at(gv)));
	if(auto *f = dyn_cast<Function>(c))
		return V(baseOf(g_firstFnId + (uint32_t)g_fnIndex.at(f)));
	if(auto *ga = dyn_cast<GlobalAlias>(c))
		return constVal(ga->getAliasee(), w);
	if(auto *ce = dyn_cast<ConstantExpr>(c))
	{
		if(auto *g = dyn_cast<GEPOperator>(ce))
		{
			APInt off(64, 0);
			if(g->accumulateConstantOffset(*g_dl, off))
				return V(constVal(cast<Constant>(g->getPointerOperand()), 64).c + off.getZExtValue());
		}
		switch(ce->getOpcode())
		{
			case Instruction::PtrToInt:
			case Instruction::IntToPtr:
			case Instruction::BitCast: return V(constVal(ce->getOperand(0), w).c & mask(w));
			default: break;
		}
	}
	if(isa<ConstantAggregateZero>(c))
		return V(0);
	errs() << "unsupported constant: " << *c << "\n";
	exit(3);
}

static int constIndex(const Constant *c)
{
	auto it = g_constIdx.find(c);
	if(it != g_constIdx.end())
		return it->second;
	unsigned w = widthOf(c->getType());
	int i = (int)g_consts.size();
	g_consts.push_back(constVal(c, w ? w : 64));
	g_constW.push_back((uint8_t)(w ? w : 64));
	g_constIdx[c] = i;
	return i;
}

static void initGlobal(Obj *o, uint64_t off, const Constant *c)
{
	Type *t = c->getType();
	if(isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
		return;
	if(auto *cds = dyn_cast<ConstantDataSequential>(c))
	{
		uint64_t es = g_dl->getTypeAllocSize(cds->getElementType());
		for(unsigned i = 0; i < cds->getNumElements(); ++i)
			initGlobal(o, off + i * es, cds->getElementAsConstant(i));
		return;
	}
	if(auto *ca = dyn_cast<ConstantArray>(c))
	{
		uint64_t es = g_dl->getTypeAllocSize(ca->getType()->getElementType());
		for(unsigned i = 0; i < ca->getNumOperands(); ++i)
			initGlobal(o, off + i * es, ca->getOperand(i));
		return;
	}
	if(auto *cs = dyn_cast<ConstantStruct>(c))
	{
		const StructLayout *sl = g_dl->getStructLayout(cs->getType());
		for(unsigned i = 0; i < cs->getNumOperands(); ++i)
			initGlobal(o, off + sl->getElementOffset(i), cs->getOperand(i));
		return;
	}
	unsigned w = widthOf(t);
	if(!w)
	{
		errs() << "unsupported initializer " << *c << "\n";
		exit(3);
	}
	uint64_t v = constVal(c, w).c;
	uint64_t n = g_dl->getTypeStoreSize(t);
	memcpy(&o->data[off], &v, n);
}

static const std::map<string, B> BUILTINS = {
	{"__vse_range", B_RANGE}, {"__vse_assume", B_ASSUME}, {"__vse_assert", B_ASSERT}, {"__vse_end", B_END},
	{"__vse_alloc", B_ALLOC}, {"__vse_free", B_FREE}, {"__vse_size", B_SIZE}, {"__vse_kill", B_KILL},
	{"__vse_conc", B_CONC}, {"__vse_observe", B_OBS}, {"__vse_spawn", B_SPAWN}, {"__vse_yield", B_YIELD},
	{"__vse_wait", B_WAIT}, {"__vse_self", B_SELF}, {"__vse_guard", B_GUARD}, {"__vse_work", B_WORK}, {"__vse_depth", B_DEPTH}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET},
};

static B builtinOf(const Function *f)
{
	if(f->isIntrinsic())
	{
		switch(f->getIntrinsicID())
		{
			case Intrinsic::memcpy:
			case Intrinsic::memcpy_inline: return B_MEMCPY;
			case Intrinsic::memmove: return B_MEMMOVE;
			case Intrinsic::memset: return B_MEMSET;
			case Intrinsic::lifetime_start:
			case Intrinsic::lifetime_end:
			case Intrinsic::dbg_declare:
			case Intrinsic::dbg_value:
			case Intrinsic::dbg_label:
			case Intrinsic::assume:
			case Intrinsic::stackrestore:
			case Intrinsic::prefetch:
			case Intrinsic::experimental_noalias_scope_decl:
			case Intrinsic::donothing: return B_IGNORE;
			case Intrinsic::stacksave: return B_IGNORE;
			case Intrinsic::umax: return B_UMAX;
			case Intrinsic::umin: return B_UMIN;
			case Intrinsic::smax: return B_SMAX;
			case Intrinsic::smin: return B_SMIN;
			case Intrinsic::threadlocal_address: return B_TLS;
			case Intrinsic::uadd_with_overflow:
			case Intrinsic::usub_with_overflow:
			case Intrinsic::umul_with_overflow:
			case Intrinsic::sadd_with_overflow:
			case Intrinsic::ssub_with_overflow:
			case Intrinsic::smul_with_overflow:
			case Intrinsic::uadd_sat:
			case Intrinsic::usub_sat:
			case Intrinsic::abs:
			case Intrinsic::ctlz:
			case Intrinsic::cttz:
			case Intrinsic::ctpop:
			case Intrinsic::bswap:
			case Intrinsic::fshl:
			case Intrinsic::fshr:
			case Intrinsic::expect: return f->getArg(0)->getType()->isIntegerTy() && f->getArg(0)->getType()->getIntegerBitWidth() <= 64 ? B_MATH : B_UNKNOWN;
			default: return B_UNKNOWN;
		}
	}
	auto it = BUILTINS.find(f->getName().str());
	if(it != BUILTINS.end() && f->isDeclaration())
		return it->second;
	return f->isDeclaration() ? B_UNKNOWN : B_NONE;
}

static void compileFn(Fn &fn)
{
	Function &f = *fn.f;
	fn.compiled = true;
	std::unordered_map<const Value *, int> reg;
	int n = 0;
	for(auto &a : f.args())
		reg[&a] = n++;
	fn.nargs = n;
	for(auto &bb : f)
		for(auto &i : bb)
			if(!i.getType()->isVoidTy())
				reg[&i] = n++;
	fn.nregs = n;
	auto op = [&](const Value *v) -> int {
		if(auto *c = dyn_cast<Constant>(v))
			return ~constIndex(c);
		return reg.at(v);
	};
	std::unordered_map<const BasicBlock *, int> bbip;
	int ip = 0;
	for(auto &bb : f)
	{
		bbip[&bb] = ip;
		for(auto &i : bb)
			if(!isa<PHINode>(i))
				++ip;
	}
	auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
		Edge e;
		e.ip = bbip.at(to);
		for(auto &p : to->phis())
			e.moves.push_back({reg.at(&p), op(p.getIncomingValueForBlock(from))});
		fn.edges.push_back(e);
		return (int)fn.edges.size() - 1;
	};
	for(auto &bb : f)
	{
		for(auto &i : bb)
		{
			if(isa<PHINode>(i))
				continue;
			Ins in;
			in.k = I_BAD;
			in.line = i.getDebugLoc() ? i.getDebugLoc().getLine() : 0;
			if(!i.getType()->isVoidTy())
				in.dst = reg.at(&i);
			in.w = (uint8_t)std::min(255u, widthOf(i.getType()));
			if(auto *bo = dyn_cast<BinaryOperator>(&i))
			{
				in.k = I_BIN;
				in.a = op(bo->getOperand(0));
				in.b = op(bo->getOperand(1));
				switch(bo->getOpcode())
				{
					case Instruction::Add: in.sub = (uint8_t)Op::Add; break;
					case Instruction::Sub: in.sub = (uint8_t)Op::Sub; break;
					case Instruction::Mul: in.sub = (uint8_t)Op::Mul; break;
					case Instruction::UDiv: in.sub = (uint8_t)Op::UDiv; break;
					case Instruction::SDiv: in.sub = (uint8_t)Op::SDiv; break;
					case Instruction::URem: in.sub = (uint8_t)Op::URem; break;
					case Instruction::SRem: in.sub = (uint8_t)Op::SRem; break;
					case Instruction::And: in.sub = (uint8_t)Op::And; break;
					case Instruction::Or: in.sub = (uint8_t)Op::Or; break;
					case Instruction::Xor: in.sub = (uint8_t)Op::Xor; break;
					case Instruction::Shl: in.sub = (uint8_t)Op::Shl; break;
					case Instruction::LShr: in.sub = (uint8_t)Op::LShr; break;
					case Instruction::AShr: in.sub = (uint8_t)Op::AShr; break;
					default: in.k = I_BAD;
				}
				if(in.w == 0 || in.w > 64)
					in.k = I_BAD;
			}
			else if(auto *ic = dyn_cast<ICmpInst>(&i))
			{
				in.k = I_ICMP;
				in.w = (uint8_t)widthOf(ic->getOperand(0)->getType());
				in.a = op(ic->getOperand(0));
				in.b = op(ic->getOperand(1));
				in.sub = (uint8_t)ic->getPredicate();
				if(!in.w || in.w > 64)
					in.k = I_BAD;
			}
			else if(auto *ca = dyn_cast<CastInst>(&i))
			{
				in.a = op(ca->getOperand(0));
				in.w2 = (uint8_t)widthOf(ca->getOperand(0)->getType());
				switch(ca->getOpcode())
				{
					case Instruction::ZExt: in.k = I_ZEXT; break;
					case Instruction::SExt: in.k = I_SEXT; break;
					case Instruction::Trunc: in.k = I_TRUNC; break;
					case Instruction::PtrToInt:
					case Instruction::IntToPtr: in.k = in.w < in.w2 ? I_TRUNC : I_ZEXT; break;
					case Instruction::BitCast: in.k = I_COPY; break;
					default: break;
				}
				if(!in.w || !in.w2 || in.w > 64 || in.w2 > 64)
					in.k = I_BAD;
			}
			else if(auto *fr = dyn_cast<FreezeInst>(&i))
			{
				in.k = I_COPY;
				in.a = op(fr->getOperand(0));
			}
			else if(auto *ld = dyn_cast<LoadInst>(&i))
			{
				in.k = in.w && in.w <= 64 ? I_LOAD : I_BAD;
				in.a = op(ld->getPointerOperand());
				in.imm = g_dl->getTypeStoreSize(ld->getType());
				AggInfo ai;
				if(ld->getType()->isAggregateType() && leavesOf(ld->getType(), 0, ai.leaves))
				{
					in.k = I_AGGLOAD;
					in.x = (int)fn.aggs.size();
					fn.aggs.push_back(ai);
				}
			}
			else if(auto *st = dyn_cast<StoreInst>(&i))
			{
				in.w = (uint8_t)widthOf(st->getValueOperand()->getType());
				in.k = in.w && in.w <= 64 ? I_STORE : I_BAD;
				in.a = op(st->getValueOperand());
				in.b = op(st->getPointerOperand());
				in.imm = g_dl->getTypeStoreSize(st->getValueOperand()->getType());
				AggInfo ai;
				Type *vt = st->getValueOperand()->getType();
				if(vt->isAggregateType() && leavesOf(vt, 0, ai.leaves))
				{
					in.k = I_AGGSTORE;
					in.x = (int)fn.aggs.size();
					fn.aggs.push_back(ai);
				}
			}
			else if(isa<ExtractValueInst>(&i) || isa<InsertValueInst>(&i))
			{
				auto *ev = dyn_cast<ExtractValueInst>(&i);
				auto *iv = dyn_cast<InsertValueInst>(&i);
				const Value *agg = ev ? ev->getAggregateOperand() : iv->getAggregateOperand();
				ArrayRef<unsigned> idx = ev ? ev->getIndices() : iv->getIndices();
				Type *t = agg->getType();
				AggInfo ai;
				bool good = leavesOf(t, 0, ai.leaves);
				for(unsigned k : idx)
				{
					for(unsigned q = 0; q < k; ++q)
					{
						vector<Leaf> l;
						leavesOf(t->isStructTy() ? t->getStructElementType(q) : t->getArrayElementType(), 0, l);
						ai.first += (int)l.size();
					}
					t = t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType();
				}
				vector<Leaf> l;
				good = good && leavesOf(t, 0, l);
				ai.count = (int)l.size();
				ai.scalar = !t->isAggregateType();
				in.k = good ? (ev ? I_EXTRACTV : I_INSERTV) : I_BAD;
				in.a = op(agg);
				if(iv)
					in.b = op(iv->getInsertedValueOperand());
				in.x = (int)fn.aggs.size();
				fn.aggs.push_back(ai);
			}
			else if(auto *g = dyn_cast<GetElementPtrInst>(&i))
			{
				in.k = I_GEP;
				in.a = op(g->getPointerOperand());
				vector<GepStep> steps;
				uint64_t off = 0;
				for(auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi)
				{
					Value *idx = gi.getOperand();
					if(StructType *sty = gi.getStructTypeOrNull())
						off += g_dl->getStructLayout(sty)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue());
					else
					{
						uint64_t es = g_dl->getTypeAllocSize(gi.getIndexedType());
						if(auto *ci = dyn_cast<ConstantInt>(idx))
							off += (uint64_t)ci->getSExtValue() * es;
						else
							steps.push_back(GepStep{op(idx), es, (uint8_t)widthOf(idx->getType())});
					}
				}
				in.imm = off;
				in.x = (int)fn.geps.size();
				fn.geps.push_back(steps);
			}
			else if(auto *br = dyn_cast<BranchInst>(&i))
			{
				if(br->isConditional())
				{
					in.k = I_CBR;
					in.a = op(br->getCondition());
					in.b = edge(&bb, br->getSuccessor(0));
					in.c = edge(&bb, br->getSuccessor(1));
				}
				else
				{
					in.k = I_BR;
					in.b = edge(&bb, br->getSuccessor(0));
				}
			}
			else if(auto *sw = dyn_cast<SwitchInst>(&i))
			{
				in.k = I_SWITCH;
				in.a = op(sw->getCondition());
				in.w = (uint8_t)widthOf(sw->getCondition()->getType());
				SwitchInfo si;
				for(auto &c : sw->cases())
					si.cases.push_back({c.getCaseValue()->getZExtValue(), edge(&bb, c.getCaseSuccessor())});
				si.def = edge(&bb, sw->getDefaultDest());
				in.x = (int)fn.sws.size();
				fn.sws.push_back(si);
			}
			else if(auto *se = dyn_cast<SelectInst>(&i))
			{
				in.k = in.w && in.w <= 64 ? I_SELECT : I_BAD;
				in.a = op(se->getCondition());
				in.b = op(se->getTrueValue());
				in.c = op(se->getFalseValue());
			}
			else if(auto *cb = dyn_cast<CallBase>(&i))
			{
				in.k = I_CALL;
				if(isa<DbgInfoIntrinsic>(cb))
					in.k = I_NOP;
				else
				{
					CallInfo ci;
					Function *callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
					in.sub = B_NONE;
					if(callee)
					{
						in.sub = builtinOf(callee);
						ci.name = callee->getName().str();
						ci.id = callee->getIntrinsicID();
						if(in.sub == B_NONE)
							ci.fn = g_fnIndex.at(callee);
					}
					else if(cb->isInlineAsm())
						in.k = I_BAD;
					else
						in.a = op(cb->getCalledOperand());
					if(in.sub == B_IGNORE)
					{
						in.k = I_NOP;
					}
					else if(in.k == I_CALL)
					{
						unsigned argNo = 0;
						for(auto &a : cb->args())
						{
							unsigned w = widthOf(a->getType());
							unsigned no = argNo++;
							ci.byval.push_back(cb->isByValArgument(no) ? (uint32_t)g_dl->getTypeAllocSize(cb->getParamByValType(no)) : 0);
							if(a->getType()->isAggregateType())
								w = 64;
							if(!w || w > 64)
							{
								if(callee && (callee->isVarArg() || in.sub == B_UNKNOWN))
									continue;
								in.k = I_BAD;
								break;
							}
							ci.args.push_back(op(a));
							ci.aw.push_back((uint8_t)w);
						}
					}
					in.x = (int)fn.calls.size();
					fn.calls.push_back(ci);
				}
			}
			else if(auto *rt = dyn_cast<ReturnInst>(&i))
			{
				in.k = I_RET;
				if(rt->getReturnValue())
				{
					in.a = op(rt->getReturnValue());
					in.x = 1;
				}
			}
			else if(auto *al = dyn_cast<AllocaInst>(&i))
			{
				in.k = I_ALLOCA;
				in.imm = g_dl->getTypeAllocSize(al->getAllocatedType());
				in.a = op(al->getArraySize());
				in.w2 = (uint8_t)widthOf(al->getArraySize()->getType());
			}
			else if(isa<UnreachableInst>(&i))
				in.k = I_UNREACH;
			fn.code.push_back(in);
		}
	}
	fn.cov.assign(fn.code.size(), 0);
}

// ---------------------------------------------------------------- interpreter

static inline Val getOp(State &s, Frame &f, int o)
{
	if(o >= 0)
		return f.regs[o];
	const Val &v = g_consts[~o];
	if(v.e == UNDEF)
		return VE(freshVar(s, g_constW[~o], false, 0, 0));
	return v;
}

static void takeEdge(State &s, Frame &f, int e)
{
	const Fn &fn = g_fns[f.fn];
	const Edge &ed = fn.edges[e];
	if(ed.moves.size() == 1)
		f.regs[ed.moves[0].first] = getOp(s, f, ed.moves[0].second);
	else if(!ed.moves.empty())
	{
		vector<Val> tmp;
		tmp.reserve(ed.moves.size());
		for(auto &m : ed.moves)
			tmp.push_back(getOp(s, f, m.second));
		for(size_t i = 0; i < tmp.size(); ++i)
			f.regs[ed.moves[i].first] = tmp[i];
	}
	f.ip = ed.ip;
}

static void enterFn(State &s, int fi, const vector<Val> &args, int dst, uint8_t w)
{
	Fn &fn = g_fns[fi];
	if(!fn.compiled)
		compileFn(fn);
	Thread &t = s.th[s.cur];
	if(t.st.size() > optMaxDepth)
		throw Bug{"recursion deeper than " + std::to_string(optMaxDepth) + " calls"};
	Frame fr;
	fr.fn = fi;
	fr.ip = 0;
	fr.retdst = dst;
	fr.retw = w;
	fr.regs.resize(fn.nregs);
	for(size_t i = 0; i < (size_t)fn.nargs && i < args.size(); ++i)
		fr.regs[i] = args[i];
	t.st.push_back(std::move(fr));
	s.deepest = std::max<uint64_t>(s.deepest, t.deep());
}

static Val binVal(Op op, Val a, Val b, unsigned w)
{
	if(!a.e && !b.e)
		return V(foldBin(op, w, a.c, b.c));
	return VE(mkBin(op, asE(a, w), asE(b, w)));
}

static Val icmp(unsigned pred, Val a, Val b, unsigned w)
{
	Op op;
	bool swap = false, neg = false;
	switch(pred)
	{
		case CmpInst::ICMP_EQ: op = Op::Eq; break;
		case CmpInst::ICMP_NE: op = Op::Eq; neg = true; break;
		case CmpInst::ICMP_ULT: op = Op::Ult; break;
		case CmpInst::ICMP_ULE: op = Op::Ule; break;
		case CmpInst::ICMP_UGT: op = Op::Ult; swap = true; break;
		case CmpInst::ICMP_UGE: op = Op::Ule; swap = true; break;
		case CmpInst::ICMP_SLT: op = Op::Slt; break;
		case CmpInst::ICMP_SLE: op = Op::Sle; break;
		case CmpInst::ICMP_SGT: op = Op::Slt; swap = true; break;
		default: op = Op::Sle; swap = true; break;
	}
	if(swap)
		std::swap(a, b);
	if(!a.e && !b.e)
		return V(foldBin(op, w, a.c, b.c) ^ (neg ? 1 : 0));
	E e = mkBin(op, asE(a, w), asE(b, w));
	return VE(neg ? mkNot(e) : e);
}

// Integer intrinsics: counting bits, rotating, arithmetic that reports or limits an overflow.
static Val mathVal(unsigned id, Val x, Val y, Val z, unsigned w)
{
	E a = asE(x, w), b = y.e || id != Intrinsic::expect ? asE(y, w) : a;
	E zero = mkConst(0, w), one = mkConst(1, w), ones = mkConst(~0ull, w);
	auto pair = [&](E r, E o) { return newAgg({VE(r), VE(o)}); };
	auto wide = [&](bool sg) { // product of at most 32 bits
		E p = sg ? mkBin(Op::Mul, mkSExt(a, 2 * w), mkSExt(b, 2 * w)) : mkBin(Op::Mul, mkZExt(a, 2 * w), mkZExt(b, 2 * w));
		E r = mkExtract(p, 0, w);
		return pair(r, mkNot(mkBin(Op::Eq, p, sg ? mkSExt(r, 2 * w) : mkZExt(r, 2 * w))));
	};
	switch(id)
	{
		case Intrinsic::expect: return x;
		case Intrinsic::uadd_with_overflow:
		{
			E r = mkBin(Op::Add, a, b);
			return pair(r, mkBin(Op::Ult, r, a));
		}
		case Intrinsic::usub_with_overflow: return pair(mkBin(Op::Sub, a, b), mkBin(Op::Ult, a, b));
		case Intrinsic::sadd_with_overflow:
		{
			E r = mkBin(Op::Add, a, b);
			return pair(r, mkBin(Op::Slt, mkBin(Op::And, mkBin(Op::Xor, a, r), mkBin(Op::Xor, b, r)), zero));
		}
		case Intrinsic::ssub_with_overflow:
		{
			E r = mkBin(Op::Sub, a, b);
			return pair(r, mkBin(Op::Slt, mkBin(Op::And, mkBin(Op::Xor, a, b), mkBin(Op::Xor, a, r)), zero));
		}
		case Intrinsic::umul_with_overflow:
		{
			if(w <= 32)
				return wide(false);
			if(isC(a))
				std::swap(a, b);
			E none = mkBin(Op::Eq, b, zero);
			E most = mkBin(Op::UDiv, ones, mkIte(none, one, b));
			return pair(mkBin(Op::Mul, a, b), mkIte(none, mkConst(0, 1), mkBin(Op::Ult, most, a)));
		}
		case Intrinsic::smul_with_overflow:
		{
			if(w <= 32)
				return wide(true);
			E r = mkBin(Op::Mul, a, b), none = mkBin(Op::Eq, b, zero), minus = mkBin(Op::Eq, b, ones);
			E back = mkBin(Op::SDiv, r, mkIte(none, one, mkIte(minus, one, b)));
			E o = mkIte(minus, mkBin(Op::Eq, a, mkConst(1ull << (w - 1), w)), mkNot(mkBin(Op::Eq, back, a)));
			return pair(r, mkIte(none, mkConst(0, 1), o));
		}
		case Intrinsic::uadd_sat:
		{
			E r = mkBin(Op::Add, a, b);
			return VE(mkIte(mkBin(Op::Ult, r, a), ones, r));
		}
		case Intrinsic::usub_sat: return VE(mkIte(mkBin(Op::Ult, a, b), zero, mkBin(Op::Sub, a, b)));
		case Intrinsic::abs: return VE(mkIte(mkBin(Op::Slt, a, zero), mkBin(Op::Sub, zero, a), a));
		case Intrinsic::ctpop:
		{
			E n = zero;
			for(unsigned i = 0; i < w; ++i)
				n = mkBin(Op::Add, n, mkZExt(mkExtract(a, i, 1), w));
			return VE(n);
		}
		case Intrinsic::ctlz:
		case Intrinsic::cttz:
		{
			E n = mkConst(w, w);
			for(unsigned i = 0; i < w; ++i) // the last one that applies counts
			{
				unsigned bit = id == Intrinsic::ctlz ? i : w - 1 - i;
				n = mkIte(mkBin(Op::Eq, mkExtract(a, bit, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), n);
			}
			return VE(n);
		}
		case Intrinsic::bswap:
		{
			E r = mkExtract(a, 0, 8);
			for(unsigned i = 8; i < w; i += 8)
				r = mkConcat(r, mkExtract(a, i, 8));
			return VE(r);
		}
		default: // fshl, fshr
		{
			E n = mkBin(Op::URem, asE(z, w), mkConst(w, w)), none = mkBin(Op::Eq, n, zero), rest = mkBin(Op::Sub, mkConst(w, w), n);
			if(id == Intrinsic::fshl)
				return VE(mkIte(none, a, mkBin(Op::Or, mkBin(Op::Shl, a, n), mkBin(Op::LShr, b, rest))));
			return VE(mkIte(none, b, mkBin(Op::Or, mkBin(Op::Shl, a, rest), mkBin(Op::LShr, b, n))));
		}
	}
}

// Decides a symbolic condition: returns the side this path follows; the other side is forked if feasible.
static bool decide(State &s, E cond, std::unique_ptr<State> &other)
{
	if(cond->u)
		throw Bug{"a branch depends on uninitialised memory"};
	bool side = evalUnder(s, cond) != 0;
	E c = side ? cond : mkNot(cond);
	E n = side ? mkNot(cond) : cond;
	vector<uint64_t> m;
	if(feasible(s, n, m))
	{
		other = forkState(s);
		other->model = m;
		addCons(*other, n);
		addCons(s, c);
	}
	return side;
}

static string readStr(State &s, uint64_t addr)
{
	string r;
	for(int i = 0; i < 400; ++i)
	{
		uint64_t off;
		uint32_t id;
		try
		{
			id = access(s, addr + i, 1, false, off);
		}
		catch(Bug &)
		{
			break;
		}
		char c = (char)s.objs[id].o.p->data[off];
		if(!c)
			break;
		r += c;
	}
	return r;
}

static void copyBytes(State &s, uint64_t d, uint64_t a, uint64_t n, bool overlapOk)
{
	if(!n)
		return;
	s.copied += n;
	uint64_t so, dof;
	uint32_t si = access(s, a, n, false, so);
	uint32_t di = access(s, d, n, true, dof);
	if(!overlapOk && si == di && so != dof && so < dof + n && dof < so + n)
		throw Bug{"memcpy of overlapping memory"};
	Obj *dst = writable(s, di);
	const Obj *src = s.objs[si].o.p;
	memmove(&dst->data[dof], &src->data[so], n);
	if(!src->uninit.empty() || !dst->uninit.empty())
	{
		if(dst->uninit.empty())
			dst->uninit.assign(dst->size, 0);
		if(src->uninit.empty())
			memset(&dst->uninit[dof], 0, n);
		else
			memmove(&dst->uninit[dof], &src->uninit[so], n);
	}
	if(!src->sym.empty() || !dst->sym.empty())
	{
		if(dst->sym.empty())
			dst->sym.assign(dst->size, SymByte{nullptr, 0});
		if(src->sym.empty())
			std::fill(dst->sym.begin() + dof, dst->sym.begin() + dof + n, SymByte{nullptr, 0});
		else if(dof <= so)
			std::copy(src->sym.begin() + so, src->sym.begin() + so + n, dst->sym.begin() + dof);
		else
			std::copy_backward(src->sym.begin() + so, src->sym.begin() + so + n, dst->sym.begin() + dof + n);
	}
}

static void finishPath(State &s)
{
	++S.completed;
	size_t keep = 4;
	uint64_t &rng = g_rng;
	if(!rng)
		rng = 88172645463325252ull + (optSeed * 64 + g_worker) * 7919;
	rng ^= rng << 13;
	rng ^= rng >> 7;
	rng ^= rng << 17;
	if(g_samples.size() < keep || rng % S.completed < keep)
	{
		vector<uint64_t> in, ob;
		for(auto &v : s.inputs)
			in.push_back(evalUnder(s, v));
		for(auto &v : s.obs)
			ob.push_back(evalUnder(s, v));
		if(g_samples.size() < keep)
			g_samples.push_back({in, ob});
		else
			g_samples[rng % keep] = {in, ob};
	}
}

// Chooses the next thread at a scheduling point; every runnable thread is tried.
static void schedule(State &s)
{
	vector<int> run;
	bool all = true;
	for(size_t i = 0; i < s.th.size(); ++i)
	{
		Thread &t = s.th[i];
		if(t.done)
			continue;
		all = false;
		if(t.waitAddr)
		{
			Val v = loadBytes(s, t.waitAddr, 4, 32);
			if(v.e)
				throw Incomplete{"symbolic wait flag"};
			if(!v.c)
				continue;
		}
		run.push_back((int)i);
	}
	if(run.empty())
	{
		if(all)
			return;
		throw Bug{"deadlock: every unfinished thread is blocked"};
	}
	size_t pick = 0;
	if(run.size() > 1)
	{
		// the schedule is an input: index among the runnable threads
		for(size_t k = 1; k < run.size(); ++k)
		{
			auto o = forkState(s);
			o->inputs.push_back(V(k));
			o->cur = run[k];
			o->th[run[k]].waitAddr = 0;
			o->resched = false;
			g_work.push_back(std::move(o));
		}
		s.inputs.push_back(V(0));
	}
	s.cur = run[pick];
	s.th[s.cur].waitAddr = 0;
	s.resched = false;
}

static bool doBuiltin(State &s, Frame &f, const Ins &in, const CallInfo &ci)
{
	auto arg = [&](size_t i) { return getOp(s, f, ci.args[i]); };
	switch((B)in.sub)
	{
		case B_RANGE:
		{
			Val lo = arg(0), hi = arg(1);
			Val r;
			if(!lo.e && !hi.e)
			{
				if(lo.c > hi.c)
				{
					++S.assumed;
					throw PathEnd();
				}
				uint64_t span = hi.c - lo.c;
				if(span == 0)
					r = V(lo.c);
				else
				{
					unsigned w = 1;
					while(w < 64 && span > mask(w))
						++w;
					E v = freshVar(s, w, true, lo.c, 0);
					if(span != mask(w))
						addCons(s, mkBin(Op::Ule, v, mkConst(span, w)));
					r = VE(mkBin(Op::Add, mkZExt(v, 64), mkConst(lo.c, 64)));
				}
			}
			else
			{
				E v = freshVar(s, 64, true, 0, evalUnder(s, lo));
				E c = mkBin(Op::And, mkBin(Op::Ule, asE(lo, 64), v), mkBin(Op::Ule, v, asE(hi, 64)));
				if(!evalUnder(s, c))
				{
					vector<uint64_t> m;
					if(!feasible(s, c, m))
					{
						++S.assumed;
						throw PathEnd();
					}
					s.model = m;
				}
				addCons(s, c);
				r = VE(v);
			}
			s.inputs.push_back(r);
			if(in.dst >= 0)
				f.regs[in.dst] = r;
			return true;
		}
		case B_ASSUME:
		{
			Val c = arg(0);
			if(c.e)
			{
				E e = mkNot(mkBin(Op::Eq, c.e, mkConst(0, ci.aw[0])));
				if(isC(e))
					c = V(e->c);
				else
				{
					if(!evalUnder(s, e))
					{
						vector<uint64_t> m;
						if(!feasible(s, e, m))
						{
							++S.assumed;
							throw PathEnd();
						}
						s.model = m;
					}
					addCons(s, e);
					return true;
				}
			}
			if(!c.c)
			{
				++S.assumed;
				throw PathEnd();
			}
			return true;
		}
		case B_ASSERT:
		{
			++S.asserts;
			Val c = arg(0);
			E e = mkNot(mkBin(Op::Eq, asE(c, ci.aw[0]), mkConst(0, ci.aw[0])));
			bool bad = false;
			if(isC(e))
				bad = !e->c;
			else if(!evalUnder(s, e))
				bad = true;
			else
			{
				vector<uint64_t> m;
				if(feasible(s, mkNot(e), m))
				{
					s.model = m;
					bad = true;
				}
			}
			if(bad)
				throw Bug{"assertion: " + readStr(s, concretize(s, arg(1), 64))};
			return true;
		}
		case B_END:
			s.ended = true;
			finishPath(s);
			throw PathEnd();
		case B_KILL:
			++S.killed;
			throw PathEnd();
		case B_ALLOC:
		{
			uint64_t n = concretize(s, arg(0), 64);
			++S.allocs;
			f.regs[in.dst] = V(baseOf(newObj(s, n, HEAP, true, "heap")));
			return true;
		}
		case B_FREE:
		{
			uint64_t p = concretize(s, arg(0), 64);
			if(!p)
				return true;
			uint32_t id = (uint32_t)(p >> 32);
			if(id == 0 || id >= s.objs.size() || s.objs[id].state == 3)
				throw Bug{"free of an invalid pointer"};
			if(s.objs[id].state == 1)
				throw Bug{"double free"};
			if(s.objs[id].state == 2 || s.objs[id].o.p->kind != HEAP || p != baseOf(id))
				throw Bug{"free of a pointer that is not the start of a heap block"};
			s.objs[id].state = 1;
			s.objs[id].o = Ref();
			return true;
		}
		case B_SIZE:
		{
			uint64_t p = concretize(s, arg(0), 64), off;
			uint32_t id = access(s, p, 0, false, off);
			if(off || s.objs[id].o.p->kind != HEAP)
				throw Bug{"realloc of a pointer that is not the start of a heap block"};
			f.regs[in.dst] = V(s.objs[id].o.p->size);
			return true;
		}
		case B_CONC:
			f.regs[in.dst] = V(concretize(s, arg(0), ci.aw[0]));
			return true;
		case B_OBS:
			s.obs.push_back(arg(0));
			return true;
		case B_SPAWN:
		{
			uint64_t fp = concretize(s, arg(0), 64);
			Val a = arg(1);
			uint32_t id = (uint32_t)(fp >> 32);
			if(id < g_firstFnId || id >= g_firstFnId + g_fns.size())
				throw Bug{"thread start at an invalid function"};
			int save = s.cur;
			s.th.emplace_back();
			s.cur = (int)s.th.size() - 1;
			enterFn(s, (int)(id - g_firstFnId), {a}, -1, 0);
			int tid = s.cur;
			s.cur = save;
			if(in.dst >= 0)
				s.th[save].st.back().regs[in.dst] = V(tid);
			return true;
		}
		case B_YIELD:
			s.resched = true;
			return true;
		case B_WAIT:
		{
			uint64_t p = concretize(s, arg(0), 64);
			s.th[s.cur].waitAddr = p;
			s.resched = true;
			return true;
		}
		case B_GUARD:
		{
			uint64_t p = concretize(s, arg(0), 64), n = concretize(s, arg(1), 64);
			uint64_t on = concretize(s, arg(2), ci.aw[2]);
			std::pair<uint64_t, uint64_t> r(p, p + n);
			auto it = std::find(s.guards.begin(), s.guards.end(), r);
			if(on && it == s.guards.end())
				s.guards.push_back(r);
			else if(!on && it != s.guards.end())
				s.guards.erase(it);
			return true;
		}
		case B_MATH:
			f.regs[in.dst] = mathVal(ci.id, arg(0), ci.args.size() > 1 ? arg(1) : V(0), ci.args.size() > 2 ? arg(2) : V(0), ci.aw[0]);
			return true;
		case B_TLS: // one instance, that of the first thread
			if(s.cur)
				throw Incomplete{"thread-local variable used in a second thread"};
			f.regs[in.dst] = arg(0);
			return true;
		case B_SELF:
			f.regs[in.dst] = V(s.cur);
			return true;
		case B_WORK: // instructions executed, a copied word counts as one
			f.regs[in.dst] = V(s.steps + s.copied / 8);
			return true;
		case B_DEPTH: // the deepest the stack has been since the last question, above the caller's
			f.regs[in.dst] = V(s.deepest - std::min<uint64_t>(s.deepest, s.th[s.cur].deep()));
			s.deepest = s.th[s.cur].deep();
			return true;
		case B_MEMCPY:
		case B_MEMMOVE:
		{
			uint64_t n = concretize(s, arg(2), ci.aw[2]);
			uint64_t d = concretize(s, arg(0), 64), a = concretize(s, arg(1), 64);
			copyBytes(s, d, a, n, in.sub == B_MEMMOVE);
			if(in.dst >= 0)
				f.regs[in.dst] = V(d);
			return true;
		}
		case B_MEMSET:
		{
			uint64_t n = concretize(s, arg(2), ci.aw[2]);
			uint64_t d = concretize(s, arg(0), 64);
			Val v = arg(1);
			if(v.e && ci.aw[1] > 8)
				v = VE(mkExtract(v.e, 0, 8));
			s.copied += n;
			if(n && !v.e)
			{
				uint64_t off;
				uint32_t id = access(s, d, n, true, off);
				Obj *o = writable(s, id);
				memset(&o->data[off], (int)v.c, n);
				if(!o->sym.empty())
					std::fill(o->sym.begin() + off, o->sym.begin() + off + n, SymByte{nullptr, 0});
				if(!o->uninit.empty())
					memset(&o->uninit[off], 0, n);
			}
			else
				for(uint64_t i = 0; i < n; ++i)
					storeBytes(s, d + i, v, 1, 8);
			if(in.dst >= 0)
				f.regs[in.dst] = V(d);
			return true;
		}
		case B_UMAX:
		case B_UMIN:
		case B_SMAX:
		case B_SMIN:
		{
			Val a = arg(0), b = arg(1);
			bool sg = in.sub == B_SMAX || in.sub == B_SMIN, mx = in.sub == B_UMAX || in.sub == B_SMAX;
			Val c = icmp(sg ? CmpInst::ICMP_SGT : CmpInst::ICMP_UGT, a, b, in.w);
			if(!c.e)
				f.regs[in.dst] = (c.c != 0) == mx ? a : b;
			else
				f.regs[in.dst] = VE(mkIte(c.e, asE(mx ? a : b, in.w), asE(mx ? b : a, in.w)));
			return true;
		}
		default:
			throw Incomplete{"call of an external function without a model: " + ci.name};
	}
}

static void runRaw(State &s)
{
	for(;;)
	{
		if(s.resched)
			schedule(s);
		Thread &t = s.th[s.cur];
		Frame &f = t.st.back();
		Fn &fn = g_fns[f.fn];
		const Ins &in = fn.code[f.ip];
		fn.cov[f.ip] = 1;
		++S.instrs;
		if(++s.steps > optMaxSteps)
			throw Bug{"no end after " + std::to_string(optMaxSteps) + " steps (possible non-termination)"};
		if((S.instrs & 0xffff) == 0 && now() - g_start > optTimeout)
			throw Incomplete{"time limit"};
		switch(in.k)
		{
			case I_NOP:
				if(in.dst >= 0)
					f.regs[in.dst] = V(0);
				++f.ip;
				break;
			case I_BIN:
			{
				Val a = getOp(s, f, in.a), b = getOp(s, f, in.b);
				Op op = (Op)in.sub;
				if(op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem)
				{
					if(!b.e)
					{
						if(!b.c)
							throw Bug{"division by zero"};
					}
					else
					{
						vector<uint64_t> m;
						E z = mkBin(Op::Eq, b.e, mkConst(0, in.w));
						if(feasible(s, z, m))
						{
							s.model = m;
							throw Bug{"division by zero"};
						}
					}
				}
				f.regs[in.dst] = binVal(op, a, b, in.w);
				++f.ip;
				break;
			}
			case I_ICMP:
				f.regs[in.dst] = icmp(in.sub, getOp(s, f, in.a), getOp(s, f, in.b), in.w);
				++f.ip;
				break;
			case I_ZEXT:
			{
				Val a = getOp(s, f, in.a);
				f.regs[in.dst] = a.e ? VE(mkZExt(a.e, in.w)) : a;
				++f.ip;
				break;
			}
			case I_SEXT:
			{
				Val a = getOp(s, f, in.a);
				f.regs[in.dst] = a.e ? VE(mkSExt(a.e, in.w)) : V((uint64_t)sx(a.c, in.w2) & mask(in.w));
				++f.ip;
				break;
			}
			case I_TRUNC:
			{
				Val a = getOp(s, f, in.a);
				f.regs[in.dst] = a.e ? VE(mkExtract(a.e, 0, in.w)) : V(a.c & mask(in.w));
				++f.ip;
				break;
			}
			case I_COPY:
				f.regs[in.dst] = getOp(s, f, in.a);
				++f.ip;
				break;
			case I_LOAD:
			{
				uint64_t p = concretize(s, getOp(s, f, in.a), 64);
				f.regs[in.dst] = loadBytes(s, p, (unsigned)in.imm, in.w);
				++f.ip;
				break;
			}
			case I_STORE:
			{
				uint64_t p = concretize(s, getOp(s, f, in.b), 64);
				storeBytes(s, p, getOp(s, f, in.a), (unsigned)in.imm, in.w);
				++f.ip;
				break;
			}
			case I_GEP:
			{
				Val p = getOp(s, f, in.a);
				p = binVal(Op::Add, p, V(in.imm), 64);
				for(auto &g : fn.geps[in.x])
				{
					Val i = getOp(s, f, g.op);
					if(!i.e)
						i = V((uint64_t)sx(i.c, g.w));
					else
						i = VE(mkSExt(i.e, 64));
					p = binVal(Op::Add, p, binVal(Op::Mul, i, V(g.scale), 64), 64);
				}
				f.regs[in.dst] = p;
				++f.ip;
				break;
			}
			case I_BR:
				takeEdge(s, f, in.b);
				break;
			case I_CBR:
			{
				Val c = getOp(s, f, in.a);
				bool side;
				if(!c.e)
					side = c.c != 0;
				else
				{
					std::unique_ptr<State> o;
					side = decide(s, c.e, o);
					if(o)
					{
						takeEdge(*o, o->th[o->cur].st.back(), side ? in.c : in.b);
						g_work.push_back(std::move(o));
					}
				}
				takeEdge(s, f, side ? in.b : in.c);
				break;
			}
			case I_SWITCH:
			{
				uint64_t v = concretize(s, getOp(s, f, in.a), in.w);
				const SwitchInfo &si = fn.sws[in.x];
				int e = si.def;
				for(auto &c : si.cases)
					if(c.first == v)
						e = c.second;
				takeEdge(s, f, e);
				break;
			}
			case I_SELECT:
			{
				Val c = getOp(s, f, in.a), a = getOp(s, f, in.b), b = getOp(s, f, in.c);
				if(!c.e)
					f.regs[in.dst] = c.c ? a : b;
				else if(in.w == 64 && !a.e && !b.e && a.c != b.c)
				{
					/* an index, a size or an address: both cases are followed on their own paths, as for a branch */
					std::unique_ptr<State> o;
					bool side = decide(s, c.e, o);
					if(o)
					{
						Frame &of = o->th[o->cur].st.back();
						of.regs[in.dst] = side ? b : a;
						++of.ip;
						g_work.push_back(std::move(o));
					}
					f.regs[in.dst] = side ? a : b;
				}
				else
					f.regs[in.dst] = VE(mkIte(c.e, asE(a, in.w), asE(b, in.w)));
				++f.ip;
				break;
			}
			case I_CALL:
			{
				const CallInfo &ci = fn.calls[in.x];
				if(in.sub != B_NONE)
				{
					int me = s.cur;
					doBuiltin(s, f, in, ci);
					++s.th[me].st.back().ip; // spawn may move the thread table
					break;
				}
				int target = ci.fn;
				if(target < 0)
				{
					uint64_t fp = concretize(s, getOp(s, f, in.a), 64);
					uint32_t id = (uint32_t)(fp >> 32);
					if(id < g_firstFnId || id >= g_firstFnId + g_fns.size() || fp != baseOf(id))
						throw Bug{fp ? "call through an invalid function pointer" : "call through a null function pointer"};
					target = (int)(id - g_firstFnId);
					if(g_fns[target].f->isDeclaration())
						throw Incomplete{"indirect call of an external function: " + g_fns[target].name};
				}
				vector<Val> args;
				args.reserve(ci.args.size());
				for(int a : ci.args)
					args.push_back(getOp(s, f, a));
				vector<uint32_t> copies;
				for(size_t k = 0; k < args.size(); ++k)
					if(ci.byval[k])
					{
						uint64_t src = concretize(s, args[k], 64);
						uint32_t id = newObj(s, ci.byval[k], STACK, true, "by-value argument");
						copyBytes(s, baseOf(id), src, ci.byval[k], true);
						args[k] = V(baseOf(id));
						copies.push_back(id);
					}
				enterFn(s, target, args, in.dst, in.w);
				if(!copies.empty())
					s.th[s.cur].st.back().allocas = copies;
				break;
			}
			case I_AGGLOAD:
			{
				uint64_t p = concretize(s, getOp(s, f, in.a), 64);
				vector<Val> v;
				for(auto &l : fn.aggs[in.x].leaves)
					v.push_back(loadBytes(s, p + l.off, l.n, l.w));
				f.regs[in.dst] = newAgg(std::move(v));
				++f.ip;
				break;
			}
			case I_AGGSTORE:
			{
				uint64_t p = concretize(s, getOp(s, f, in.b), 64);
				const vector<Val> v = g_agg[getOp(s, f, in.a).c];
				size_t k = 0;
				for(auto &l : fn.aggs[in.x].leaves)
					storeBytes(s, p + l.off, v[k++], l.n, l.w);
				++f.ip;
				break;
			}
			case I_EXTRACTV:
			{
				const AggInfo &ai = fn.aggs[in.x];
				const vector<Val> &v = g_agg[getOp(s, f, in.a).c];
				if(ai.scalar)
					f.regs[in.dst] = v[ai.first];
				else
				{
					vector<Val> part(v.begin() + ai.first, v.begin() + ai.first + ai.count);
					f.regs[in.dst] = newAgg(std::move(part));
				}
				++f.ip;
				break;
			}
			case I_INSERTV:
			{
				const AggInfo &ai = fn.aggs[in.x];
				vector<Val> v = g_agg[getOp(s, f, in.a).c];
				Val x = getOp(s, f, in.b);
				if(ai.scalar)
					v[ai.first] = x;
				else
					for(int k = 0; k < ai.count; ++k)
						v[ai.first + k] = g_agg[x.c][k];
				f.regs[in.dst] = newAgg(std::move(v));
				++f.ip;
				break;
			}
			case I_RET:
			{
				Val r;
				if(in.x == 1)
					r = getOp(s, f, in.a);
				for(uint32_t id : f.allocas)
				{
					s.objs[id].state = 2;
					s.objs[id].o = Ref();
				}
				int dst = f.retdst;
				t.bytes -= f.bytes;
				t.st.pop_back();
				if(t.st.empty())
				{
					t.done = true;
					bool all = true;
					for(auto &x : s.th)
						all &= x.done;
					if(all)
						throw PathEnd();
					if(s.cur == 0)
						throw Bug{"harness returned before its threads"};
					s.resched = true;
				}
				else
				{
					Frame &c = t.st.back();
					if(dst >= 0)
						c.regs[dst] = r;
					++c.ip;
				}
				break;
			}
			case I_ALLOCA:
			{
				uint64_t n = concretize(s, getOp(s, f, in.a), in.w2);
				uint32_t id = newObj(s, n * in.imm, STACK, true, "stack");
				f.allocas.push_back(id);
				f.bytes += n * in.imm;
				t.bytes += n * in.imm;
				s.deepest = std::max<uint64_t>(s.deepest, t.deep());
				f.regs[in.dst] = V(baseOf(id));
				++f.ip;
				break;
			}
			case I_UNREACH:
				throw Bug{"unreachable code reached"};
			default:
				throw Incomplete{"unsupported instruction in " + fn.name + ":" + std::to_string(in.line)};
		}
	}
}

// ---------------------------------------------------------------- results

static string jstr(const string &s)
{
	string r = "\"";
	for(char c : s)
	{
		if(c == '"' || c == '\\')
			r += '\\';
		if((unsigned char)c < 32)
			c = ' ';
		r += c;
	}
	return r + "\"";
}

static bool g_haveBug;
static Violation g_bug;
static vector<uint64_t> g_bugInputs;

static void writeResult(const string &path, const string &status)
{
	std::ostringstream o;
	o << "{\"status\":" << jstr(status) << ",\"why\":" << jstr(g_incompleteWhy);
	o << ",\"paths\":" << S.paths << ",\"completed\":" << S.completed << ",\"assumed_away\":" << S.assumed << ",\"aborted\":" << S.killed;
	o << ",\"forks\":" << S.forks << ",\"instructions\":" << S.instrs << ",\"asserts\":" << S.asserts << ",\"accesses\":" << S.checked;
	o << ",\"queries\":" << S.queries << ",\"q_cached\":" << S.qcached;
	o << ",\"q_sat\":" << S.qsat << ",\"q_unsat\":" << S.qunsat << ",\"q_unknown\":" << S.qunknown << ",\"q_hard\":" << S.qhard << ",\"solver_s\":" << S.solver;
	o << ",\"max_path_constraints\":" << S.maxcons << ",\"exprs\":" << g_exprs.size();
	auto arr = [&](const vector<uint64_t> &v) {
		o << "[";
		for(size_t i = 0; i < v.size(); ++i)
			o << (i ? "," : "") << v[i];
		o << "]";
	};
	if(g_haveBug)
	{
		o << ",\"bug\":" << jstr(g_bug.what) << ",\"where\":" << jstr(g_bug.where) << ",\"inputs\":";
		arr(g_bugInputs);
	}
	o << ",\"samples\":[";
	for(size_t i = 0; i < g_samples.size(); ++i)
	{
		o << (i ? "," : "") << "{\"inputs\":";
		arr(g_samples[i].first);
		o << ",\"observed\":";
		arr(g_samples[i].second);
		o << "}";
	}
	o << "],\"functions\":{";
	bool first = true;
	for(auto &f : g_fns)
	{
		if(!f.compiled)
			continue;
		string bits;
		for(auto c : f.cov)
			bits += c ? '1' : '0';
		o << (first ? "" : ",") << jstr(f.file + ":" + f.name) << ":\"" << bits << "\"";
		first = false;
	}
	o << "}}\n";
	FILE *fp = fopen((path + ".tmp").c_str(), "w");
	if(!fp)
		_exit(3);
	string str = o.str();
	fwrite(str.data(), 1, str.size(), fp);
	fclose(fp);
	rename((path + ".tmp").c_str(), path.c_str());
}

// Shared by the worker processes. A worker with paths left gives half of them to a new process
// whenever fewer than the allowed number of workers are busy.
static struct Shared {
	std::atomic<int> busy, ids, bug;
	std::atomic<int> npids;
	std::atomic<pid_t> pids[4096];
} *g_shared;
static vector<pid_t> g_kids;

static string statusOf()
{
	return g_haveBug ? "bug" : g_incomplete ? "incomplete" : "ok";
}

static void freshWorker()
{
	S = Stats();
	g_samples.clear();
	for(auto &f : g_fns)
		std::fill(f.cov.begin(), f.cov.end(), 0);
	g_kids.clear();
	g_worker = (unsigned)g_shared->ids++;
	g_rng = 0;
	int n = g_shared->npids++;
	if(n < 4096)
		g_shared->pids[n] = getpid();
}

static int waitKids()
{
	int worst = 0;
	for(pid_t k : g_kids)
	{
		int st;
		if(waitpid(k, &st, 0) < 0)
			continue;
		int code = WIFEXITED(st) ? WEXITSTATUS(st) : 4;
		if(code == 10)
			worst = 10;
		else if(code && worst != 10)
			worst = 2;
	}
	return worst;
}

static void explore(bool bfs, size_t limit);

[[noreturn]] static void worker()
{
	explore(false, 0);
	writeResult(optOut + "." + std::to_string(g_worker), statusOf());
	--g_shared->busy;
	if(g_haveBug || g_incomplete)
	{
		// the answer is known: the others need not go on
		g_shared->bug = 1;
		for(int i = 0; i < g_shared->npids && i < 4096; ++i)
			if(g_shared->pids[i] && g_shared->pids[i] != getpid())
				kill(g_shared->pids[i], SIGKILL);
		_exit(g_haveBug ? 10 : 2);
	}
	_exit(waitKids());
}

static void share()
{
	if(g_work.size() < 2 || g_shared->busy >= optWorkers)
		return;
	if(++g_shared->busy > optWorkers)
	{
		--g_shared->busy;
		return;
	}
	pid_t p = fork();
	if(p < 0)
	{
		--g_shared->busy;
		return;
	}
	std::deque<std::unique_ptr<State>> mine;
	for(size_t i = 0; i < g_work.size(); ++i)
		if((i & 1) == (p == 0 ? 0 : 1))
			mine.push_back(std::move(g_work[i]));
	g_work.swap(mine);
	mine.clear();
	if(p == 0)
	{
		freshWorker();
		worker();
	}
	g_kids.push_back(p);
}

static void explore(bool bfs, size_t limit)
{
	double start = now(), shared = start;
	while(!g_work.empty() && (!bfs || (g_work.size() < limit && now() - start < 1.5)))
	{
		if(!bfs && optWorkers > 1)
		{
			double t = now();
			if(t - shared > 0.1)
			{
				shared = t;
				if(g_shared->bug)
				{
					g_incomplete = true;
					g_incompleteWhy = "stopped";
					return;
				}
				share();
			}
		}
		std::unique_ptr<State> st;
		if(bfs)
		{
			st = std::move(g_work.front());
			g_work.pop_front();
		}
		else
		{
			st = std::move(g_work.back());
			g_work.pop_back();
		}
		++S.paths;
		State *raw = st.get();
		try
		{
			runRaw(*raw);
		}
		catch(PathEnd &)
		{
		}
		catch(Bug &b)
		{
			g_haveBug = true;
			g_bug.what = b.what;
			g_bug.where = whereIs(*raw);
			for(auto &v : raw->inputs)
				g_bugInputs.push_back(evalUnder(*raw, v));
			return;
		}
		catch(Incomplete &i)
		{
			g_incomplete = true;
			g_incompleteWhy = i.why + " at " + whereIs(*raw);
			return;
		}
	}
}

static void setupModule(State &s)
{
	uint32_t id = 1;
	for(auto &g : g_mod->globals())
		g_globalId[&g] = id++;
	g_firstFnId = id;
	for(auto &f : *g_mod)
	{
		g_fnIndex[&f] = (int)g_fns.size();
		Fn fn;
		fn.f = &f;
		fn.name = f.getName().str();
		if(DISubprogram *sp = f.getSubprogram())
			fn.file = sp->getFilename().str();
		g_fns.push_back(std::move(fn));
	}
	s.objs.resize(g_firstFnId + g_fns.size());
	s.objs[0].state = 1;
	for(auto &g : g_mod->globals())
	{
		Obj *o = new Obj();
		o->kind = GLOBAL;
		o->name = "global";
		uint64_t sz = g.getValueType()->isSized() ? g_dl->getTypeAllocSize(g.getValueType()) : 8;
		o->size = (uint32_t)sz;
		o->data.assign(sz, 0);
		s.objs[g_globalId[&g]].o = Ref(o);
	}
	for(auto &g : g_mod->globals())
	{
		Obj *o = s.objs[g_globalId[&g]].o.p;
		if(g.hasInitializer())
			initGlobal(o, 0, g.getInitializer());
		o->ro = g.isConstant();
	}
	for(size_t i = 0; i < g_fns.size(); ++i)
		s.objs[g_firstFnId + i].state = 3;
}

int main(int argc, char **argv)
{
	g_start = now();
	string bc;
	for(int i = 1; i < argc; ++i)
	{
		string a = argv[i];
		auto next = [&]() -> string {
			if(i + 1 >= argc)
				exit(3);
			return argv[++i];
		};
		if(a == "--entry")
			optEntry = next();
		else if(a == "--timeout")
			optTimeout = atof(next().c_str());
		else if(a == "--workers")
			optWorkers = atoi(next().c_str());
		else if(a == "--seed")
			optSeed = strtoull(next().c_str(), nullptr, 10);
		else if(a == "--max-depth")
			optMaxDepth = strtoull(next().c_str(), nullptr, 10);
		else if(a == "--max-steps")
			optMaxSteps = strtoull(next().c_str(), nullptr, 10);
		else if(a == "--out")
			optOut = next();
		else
			bc = a;
	}
	SMDiagnostic err;
	g_mod = parseIRFile(bc, err, g_ctx);
	if(!g_mod)
	{
		err.print("vse", errs());
		return 3;
	}
	g_dl = &g_mod->getDataLayout();
	solverInit();
	std::unique_ptr<State> s0(new State());
	setupModule(*s0);
	Function *entry = g_mod->getFunction(optEntry);
	if(!entry || entry->isDeclaration())
	{
		fprintf(stderr, "vse: no function %s\n", optEntry.c_str());
		return 3;
	}
	g_shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if(g_shared == MAP_FAILED)
		return 3;
	g_shared->ids = 1;
	s0->th.emplace_back();
	enterFn(*s0, g_fnIndex[entry], {}, -1, 0);
	g_work.push_back(std::move(s0));
	if(optWorkers > 1)
		explore(true, (size_t)optWorkers * 100);
	else
		explore(false, 0);
	if(g_haveBug || g_incomplete || g_work.empty())
	{
		writeResult(optOut + ".0", statusOf());
		return g_haveBug ? 10 : g_incomplete ? 2 : 0;
	}
	writeResult(optOut + ".0", "ok");
	vector<std::unique_ptr<State>> all;
	for(auto &st : g_work)
		all.push_back(std::move(st));
	g_work.clear();
	int n = (int)std::min<size_t>(optWorkers, all.size());
	g_shared->busy = n;
	for(int w = 0; w < n; ++w)
	{
		pid_t p = fork();
		if(p == 0)
		{
			for(size_t i = w; i < all.size(); i += n)
				g_work.push_back(std::move(all[i]));
			all.clear();
			freshWorker();
			worker();
		}
		g_kids.push_back(p);
	}
	int worst = waitKids();
	if(g_shared->bug && worst != 10)
		worst = 2;
	return worst;
}
