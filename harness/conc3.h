// C27 file descriptor handles
// Descriptors are numbers handed out by a simulated kernel (lowest free number,
// like the real one); close() on them is intercepted.

#include "crucible/fd.h"
#include <dlfcn.h>

namespace c27 {
	static const int BASE = 100000;
	static const int SLOTS = 64;
	struct Inst { bool open = false; int refs = 0; unsigned closes = 0; };
	static int cur[SLOTS];            // instance index or -1
	static vector<Inst> insts;
	static unsigned faults;           // close() calls that report an error
	static unsigned close_calls, reused;

	static void reset()
	{
		for (auto &c : cur) c = -1;
		insts.clear();
		faults = close_calls = reused = 0;
	}
	static int sim_open()
	{
		for (int i = 0; i < SLOTS; ++i) if (cur[i] < 0) {
			cur[i] = int(insts.size());
			insts.push_back(Inst());
			insts.back().open = true;
			return BASE + i;
		}
		inconclusive("descriptor table full");
	}
	static int sim_close(int fd)
	{
		ds::point("close");
		++close_calls;
		const int s = fd - BASE;
		if (s >= SLOTS || cur[s] < 0) PBT_FAIL("close(" << fd << ") on a descriptor that is not open: closed twice");
		Inst &in = insts[size_t(cur[s])];
		++in.closes;
		if (in.refs > 0) PBT_FAIL("close(" << fd << ") while " << in.refs << " handle(s) to it still exist");
		in.open = false;
		cur[s] = -1;
		ds::point("closed");
		if (faults) { --faults; errno = EIO; return -1; }
		return 0;
	}

	struct Holder { Fd fd; int inst = -1; };

	static void drop_ref(int inst) { if (inst >= 0) --insts[size_t(inst)].refs; }
	static void add_ref(int inst) { if (inst >= 0) ++insts[size_t(inst)].refs; }

	struct Op { unsigned kind, a, b; };

	// Mailbox through which threads pass handles
	static mutex mb_mutex;
	static vector<Holder> *mailbox;

	static void step(vector<Holder> &h, const Op &op)
	{
		Holder &x = h[op.a % h.size()];
		Holder &y = h[op.b % h.size()];
		switch (op.kind) {
			case 0: {  // open and wrap
				const int n = sim_open();
				const int inst = cur[n - BASE];
				add_ref(inst);
				drop_ref(x.inst);
				x.inst = inst;
				x.fd = n;
				if (int(x.fd) != n) PBT_FAIL("handle for " << n << " reports " << int(x.fd));
				break;
			}
			case 1:  // copy
				if (&x == &y) { Fd tmp(y.fd); x.fd = tmp; break; }
				add_ref(y.inst);
				drop_ref(x.inst);
				x.inst = y.inst;
				x.fd = y.fd;
				break;
			case 2:  // drop
				drop_ref(x.inst);
				x.inst = -1;
				x.fd = Fd();
				if (!!x.fd) PBT_FAIL("empty handle claims to be valid");
				break;
			case 3: {  // wrap again a number this thread already holds
				if (y.inst < 0 || &x == &y) break;
				const int n = y.fd;
				add_ref(y.inst);
				drop_ref(x.inst);
				x.inst = y.inst;
				x.fd = n;
				label("number wrapped twice");
				break;
			}
			case 4: {  // negative descriptor
				drop_ref(x.inst);
				x.inst = -1;
				x.fd = -int(1 + op.b % 5);
				if (!!x.fd) PBT_FAIL("handle of a negative descriptor claims to be valid");
				if (int(x.fd) >= 0) PBT_FAIL("handle of a negative descriptor reports " << int(x.fd));
				break;
			}
			case 5: {  // swap through the mailbox
				unique_lock<mutex> l(mb_mutex);
				Holder &m = (*mailbox)[op.b % mailbox->size()];
				swap(x.inst, m.inst);
				swap(x.fd, m.fd);
				break;
			}
			case 6: {  // copy into the mailbox
				unique_lock<mutex> l(mb_mutex);
				Holder &m = (*mailbox)[op.b % mailbox->size()];
				add_ref(x.inst);
				drop_ref(m.inst);
				m.inst = x.inst;
				m.fd = x.fd;
				break;
			}
			case 7: {  // through the shared IOHandle pointer
				if (x.inst < 0) break;
				shared_ptr<IOHandle> p = x.fd.operator->();
				x.fd = Fd();
				ds::point();
				if (p->get_fd() < BASE || cur[p->get_fd() - BASE] != x.inst) PBT_FAIL("IOHandle pointer no longer refers to its descriptor");
				x.fd = p;
				break;
			}
			case 8: {  // open and wrap a handle made by the caller
				const int n = sim_open();
				const int inst = cur[n - BASE];
				add_ref(inst);
				drop_ref(x.inst);
				x.inst = inst;
				x.fd = make_shared<IOHandle>(n);
				break;
			}
		}
		if (x.inst >= 0) {
			const int n = x.fd;
			if (n < BASE || cur[n - BASE] != x.inst) PBT_FAIL("handle refers to descriptor " << n << " which is not the one it was given");
			if (!x.fd) PBT_FAIL("valid handle claims to be invalid");
		}
	}

	static void check_all(const char *when)
	{
		for (size_t i = 0; i < insts.size(); ++i) {
			auto &in = insts[i];
			if (in.refs > 0 && !in.open) PBT_FAIL(when << ": descriptor instance " << i << " is closed but has " << in.refs << " handles");
			if (in.refs == 0 && in.open) PBT_FAIL(when << ": descriptor instance " << i << " has no handle left but was never closed");
			if (in.closes > 1) PBT_FAIL(when << ": descriptor instance " << i << " closed " << in.closes << " times");
		}
	}

	static const char *op_name[] = { "open", "copy", "drop", "wrap-again", "negative", "swap-mailbox", "copy-to-mailbox", "via-IOHandle", "wrap-own-IOHandle" };

	static void handles()
	{
		reset();
		const unsigned nt = unsigned(range(1, 4));
		vector<vector<Op>> prog(nt);
		for (unsigned t = 0; t < nt; ++t) {
			Msg m;
			const unsigned n = unsigned(range(2, nt == 1 ? 40 : 12));
			for (unsigned i = 0; i < n; ++i) {
				Op op { unsigned(weighted({8, 6, 6, 3, 1, 4, 3, 2, 2})), unsigned(draw(3)), unsigned(draw(3)) };
				prog[t].push_back(op);
				m << " " << op_name[op.kind] << "(" << op.a << "," << op.b << ")";
			}
			PBT_DESC("thread " << t << ":" << m.os.str());
		}
		faults = chance(1, 4) ? unsigned(draw(3)) : 0;
		if (faults) PBT_DESC("first " << faults << " close calls report an error");
		quiet_start(400);
		vector<vector<Holder>> held(nt);
		for (auto &h : held) h.resize(3);
		vector<Holder> mb(2);
		mailbox = &mb;
		{
			vector<thread> th;
			for (unsigned t = 0; t < nt; ++t) th.emplace_back([&, t]() {
				for (auto &op : prog[t]) { ds::point(); step(held[t], op); }
			});
			for (auto &t : th) t.join();
		}
		ds::stop();
		check_all("after the program");
		bool shared = false;
		for (auto &in : insts) if (in.refs > 1) shared = true;
		for (auto &h : held) for (auto &x : h) { drop_ref(x.inst); x.inst = -1; x.fd = Fd(); }
		for (auto &x : mb) { drop_ref(x.inst); x.inst = -1; x.fd = Fd(); }
		check_all("after dropping everything");
		for (auto &in : insts) if (in.closes != 1) PBT_FAIL("a descriptor was closed " << in.closes << " times in the end");
		if (shared) label("shared by several handles at the end");
		if (insts.size() > 3 && close_calls > 1 && (nt > 1 || insts.size() > 5)) nontrivial();
	}
}

extern "C" int
close(int fd)
{
	if (fd >= c27::BASE && fd < c27::BASE + 1000) return c27::sim_close(fd);
	static int (*real)(int) = reinterpret_cast<int (*)(int)>(dlsym(RTLD_NEXT, "close"));
	return real(fd);
}

static void
conc3_props(vector<Property> &props)
{
	Property p;
	p.id = "C27"; p.level = "exploration"; p.assumptions = { "a descriptor number is only wrapped again while the same thread still holds a handle to it, as the documentation of the class requires" };
	p.rule = "Generated programs of open/copy/assign/drop/wrap-again/exchange operations on handles in 1-4 threads, with descriptors allocated lowest-number-first so that closed numbers are reused at once, and close calls that report errors; every close call is checked against a reference count per opened descriptor. Non-trivial: more than three descriptors opened and more than one closed, by several threads or more than five in one. Distinct by choice sequence.";
	p.scenarios = { { "handles", c27::handles, 20000, 600000, true, 60 } };
	props.push_back(p);
}
