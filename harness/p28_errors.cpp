// Failing calls: every call of the interface with every argument invalid; errors of several threads, interleaved.
#include "calls.hpp"

static ccs_result_t take_error()
{
	ccs_error_stack_t s = ccs_get_thread_error();
	if (!s)
		return CCS_RESULT_SUCCESS;
	ccs_result_t code = CCS_RESULT_SUCCESS;
	const char  *msg  = nullptr;
	size_t       n    = 0;
	ccs_error_stack_elem_t *e = nullptr;
	OKX(ccs_error_stack_get_code(s, &code));
	OKX(ccs_error_stack_get_message(s, &msg));
	OKX(ccs_error_stack_get_elems(s, &n, &e));
	if (!msg)
		mc::fail("error without a message");
	if (!n)
		mc::fail("error without a location");
	for (size_t i = 0; i < n; i++)
		if (!e[i].file || !e[i].func || !*e[i].file || !*e[i].func || e[i].line <= 0)
			mc::fail("location %zu of an error is incomplete", i);
	if (refcount((ccs_object_t)s) != 1)
		mc::fail("the error given to the caller has other owners");
	OKX(ccs_release_object(s));
	if (code == CCS_RESULT_SUCCESS)
		mc::fail("error of code success");
	return code;
}
static void bad_call(const Call &k, int bads)
{
	Fix f;
	int prep = mc::choose(k.preps, "preparation");
	if (k.prep)
		k.prep(f, prep);
	std::map<void *, int> c0, c1;
	std::string           t0 = f.text(true, &c0);
	ccs_clear_thread_error();
	{
		Ctx          c(f, bads);
		ccs_result_t e = k.run(f, c);
		mc::step();
		if (c.expect.empty()) { // all arguments valid
			if (e != CCS_RESULT_SUCCESS)
				mc::fail("%s returned %d with valid arguments", k.name, (int)e);
			if (take_error() != CCS_RESULT_SUCCESS)
				mc::fail("%s succeeded but left an error", k.name);
			c.release();
			return;
		}
		mc::nontrivial();
		if (e == CCS_RESULT_SUCCESS && c.what.find("no array") != std::string::npos && c.what.find(" value 0") != std::string::npos) {
			c.release(); // none of nothing: together they are valid
			return;
		}
		if (e >= 0)
			mc::fail("%s returned %d with%s", k.name, (int)e, c.what.c_str());
		bool ok = false;
		for (auto x : c.expect)
			ok |= x == e;
		if (!ok)
			mc::fail("%s returned %d instead of %d with%s", k.name, (int)e, (int)c.expect[0], c.what.c_str());
		ccs_result_t t = take_error();
		if (t != e && !(k.flags & NOERROR))
			mc::fail("%s returned %d but the error of the thread says %d, with%s", k.name, (int)e, (int)t, c.what.c_str());
		if (!(k.flags & INDEXES))
			c.unchanged(k.name);
		std::string t1 = f.text(true, &c1);
		if (!(k.flags & PARTS)) {
			if (t0 != t1)
				mc::fail("%s failed but changed something, with%s: %s", k.name, c.what.c_str(), difference(t0, t1).c_str());
			if (c0 != c1)
				mc::fail("%s failed but changed a reference count, with%s", k.name, c.what.c_str());
		}
		mc::obs_bytes(c.what.data(), c.what.size());
	}
	mc::obs((uint64_t)(&k - &book()[0]));
	if (k.flags & PARTS)
		return;
	Ctx          c(f, 0);
	ccs_result_t e = k.run(f, c);
	if (e != CCS_RESULT_SUCCESS)
		mc::fail("%s returned %d with valid arguments after failing", k.name, (int)e);
	if (take_error() != CCS_RESULT_SUCCESS)
		mc::fail("%s succeeded but left an error", k.name);
	c.release();
}
MC_SUITE(arguments)
{
	int i = mc::choose((int)book().size(), "call");
	mc::shard_point();
	bad_call(book()[(size_t)i], mc::thorough() ? 2 : 1);
}
// ---- errors of threads -----------------------------------------------------------
#include "threads.hpp"
extern "C" void __sanitizer_cov_trace_pc(void) { thr::point(); }

// what a thread must find as its error
struct Seen {
	ccs_result_t code = CCS_RESULT_SUCCESS; // success: no error
	std::string  msg;                       // of an error made by the user
	size_t       elems = 0;
};
struct Shared {
	Par x, c;
	Tre t;
	Shared() : x(pint("x", 0, 10, 1)), c(pcat("c", {ccs_int(0), ccs_int(1)})) { OKX(ccs_create_tree(1, ccs_int(1), t.ret())); }
};
struct Thread {
	int     id;
	Shared &sh;
	Seen    e;
	int     made = 0;
	void fails(ccs_result_t got, ccs_result_t want)
	{
		if (got != want)
			mc::fail("thread %d: a failing call returned %d instead of %d", id, (int)got, (int)want);
		e      = Seen();
		e.code = want;
	}
	void take()
	{
		ccs_error_stack_t s = thr::call([] { return ccs_get_thread_error(); });
		if (!s) {
			if (e.code != CCS_RESULT_SUCCESS)
				mc::fail("thread %d: its error %d is gone", id, (int)e.code);
			return;
		}
		if (e.code == CCS_RESULT_SUCCESS)
			mc::fail("thread %d: has an error but made none", id);
		ccs_result_t            code;
		const char             *msg;
		size_t                  n;
		ccs_error_stack_elem_t *el;
		OKX(ccs_error_stack_get_code(s, &code));
		OKX(ccs_error_stack_get_message(s, &msg));
		OKX(ccs_error_stack_get_elems(s, &n, &el));
		if (code != e.code)
			mc::fail("thread %d: its error says %d instead of %d", id, (int)code, (int)e.code);
		if (!n)
			mc::fail("thread %d: error without a location", id);
		if (!e.msg.empty() && (e.msg != msg || n != e.elems || el[0].line != id + 1 || el[n - 1].line != id + (int)n))
			mc::fail("thread %d: the error it has set came back as another", id);
		if (refcount((ccs_object_t)s) != 1)
			mc::fail("thread %d: the error given to the caller has other owners", id);
		thr::call([&] { return ccs_release_object(s); });
		e = Seen();
	}
	static const int NOP = 6;
	void op(int k)
	{
		mc::step();
		const char *nm  = nullptr;
		ccs_tree_t  ch  = nullptr;
		ccs_bool_t  ok  = 0;
		ccs_datum_t two[2] = {ccs_int(1), ccs_int(1)};
		ccs_parameter_t par = nullptr;
		switch (k) {
		case 0: // a call failing differently in each thread
			if (id == 0)
				fails(thr::call([&] { return ccs_parameter_get_name(nullptr, &nm); }), BADO);
			else if (id == 1)
				fails(thr::call([&] { return ccs_tree_get_child(sh.t, 7, &ch); }), OOB);
			else
				fails(thr::call([&] { return ccs_parameter_get_name(sh.x, nullptr); }), BADV);
			break;
		case 1: // another, deeper in the library
			if (id == 0)
				fails(thr::call([&] { return ccs_create_categorical_parameter("d", 2, two, 0, &par); }), BADV);
			else if (id == 1)
				fails(thr::call([&] { return ccs_create_numerical_parameter("n", (ccs_numeric_type_t)77, CCSI(0), CCSI(1), CCSI(0), CCSI(0), &par); }), CCS_RESULT_ERROR_INVALID_TYPE);
			else
				fails(thr::call([&] { return ccs_create_uniform_int_distribution(3, 1, CCS_SCALE_TYPE_LINEAR, 0, (ccs_distribution_t *)&par); }), BADV);
			break;
		case 2: // a call that succeeds changes nothing
			if (thr::call([&] { return ccs_parameter_check_value(sh.c, ccs_int(id), &ok); }) != CCS_RESULT_SUCCESS || ok != (id < 2))
				mc::fail("thread %d: a call did not succeed", id);
			break;
		case 3:
			take();
			break;
		case 4:
			thr::call([] { ccs_clear_thread_error(); });
			e = Seen();
			break;
		case 5: {
			ccs_error_stack_t s = nullptr;
			ccs_result_t      c = id == 0 ? CCS_RESULT_ERROR_SYSTEM : id == 1 ? CCS_RESULT_ERROR_EXTERNAL : CCS_RESULT_ERROR_UNSUPPORTED_OPERATION;
			if (thr::call([&] { return ccs_create_error_stack(&s, c, "error %d of thread %d: %s", made, id, "text"); }) != CCS_RESULT_SUCCESS)
				mc::fail("no error stack");
			for (int i = 0; i < 2; i++)
				if (thr::call([&] { return ccs_error_stack_push(s, "file", id + i + 1, "func"); }) != CCS_RESULT_SUCCESS)
					mc::fail("no error location");
			if (thr::call([&] { return ccs_set_thread_error(s); }) != CCS_RESULT_SUCCESS)
				mc::fail("the error could not be set");
			e.code = c, e.elems = 2, e.msg = strf("error %d of thread %d: text", made++, id);
			break;
		}
		}
	}
	void end()
	{
		take();
		if (ccs_get_thread_error())
			mc::fail("thread %d: an error taken is there again", id);
	}
};
// sequences of calls of two or three threads, in every order
MC_SUITE(threads)
{
	Shared              sh;
	int                 nt = 2 + mc::choose(2, "threads"), len = nt == 3 ? 1 : mc::thorough() ? 3 : 2;
	int                 o0 = mc::choose(Thread::NOP, "operation"), o1 = len > 1 ? mc::choose(Thread::NOP, "operation") : 0;
	mc::shard_point();
	std::vector<Thread> t;
	for (int i = 0; i < nt; i++)
		t.push_back(Thread{i, sh, Seen(), 0});
	std::vector<std::function<void()>> jobs;
	for (int i = 0; i < nt; i++)
		jobs.push_back([&, i] {
			for (int k = 0; k < len; k++) {
				thr::step();
				int o = i == 0 && k == 0 ? o0 : i == 0 && k == 1 ? o1 : mc::choose(Thread::NOP, "operation");
				t[(size_t)i].op(o);
				mc::obs((uint64_t)(i * 10 + o));
			}
			thr::step();
			t[(size_t)i].end();
		});
	mc::nontrivial();
	thr::run(jobs, nullptr);
}
// two threads, switching at any point inside a call
MC_SUITE(preemption)
{
	Shared sh;
	int    o0 = mc::choose(Thread::NOP, "operation"), o1 = mc::choose(Thread::NOP, "operation");
	int    before = mc::choose(2, "errors present before");
	int    budget = mc::thorough() ? 3 : 2;
	mc::shard_point();
	std::vector<Thread> t{Thread{0, sh, Seen(), 0}, Thread{1, sh, Seen(), 0}};
	std::vector<std::function<void()>> jobs;
	for (int i = 0; i < 2; i++)
		jobs.push_back([&, i] {
			t[(size_t)i].op(i ? o1 : o0);
			t[(size_t)i].end();
		});
	if (before) {
		std::vector<std::function<void()>> pre;
		for (int i = 0; i < 2; i++)
			pre.push_back([&, i] { t[(size_t)i].op(5); });
		thr::run(pre, nullptr);
	}
	mc::nontrivial();
	thr::run(jobs, [&] {
		if (!budget || !mc::choose(2, "switch"))
			return false;
		budget--;
		return true;
	});
	mc::obs((uint64_t)thr::S().points);
}
// ---- descriptions of every size ---------------------------------------------------
// every error code: its name, and the names of no two are equal
MC_SUITE(names)
{
	int         v    = mc::choose(60, "code") - 45;
	const char *name = "untouched";
	mc::shard_point();
	ccs_clear_thread_error();
	ccs_result_t e = ccs_get_result_name((ccs_result_t)v, &name);
	mc::step();
	mc::nontrivial();
	mc::obs((uint64_t)(v + 100));
	bool known = v > (int)CCS_RESULT_MIN && v < (int)CCS_RESULT_MAX;
	if (!known) {
		if (e != BADV || take_error() != BADV)
			mc::fail("code %d is not one of the library but its name gave %d", v, (int)e);
		return;
	}
	if (e != CCS_RESULT_SUCCESS || !name || strncmp(name, "CCS_RESULT_", 11))
		mc::fail("code %d has no name (%d)", v, (int)e);
	if (take_error() != CCS_RESULT_SUCCESS)
		mc::fail("naming code %d left an error", v);
	if ((v < 0) != !strncmp(name, "CCS_RESULT_ERROR_", 17))
		mc::fail("code %d is named %s", v, name);
	for (int o = (int)CCS_RESULT_MIN + 1; o < (int)CCS_RESULT_MAX; o++) {
		const char *n2 = nullptr;
		MC_OK(ccs_get_result_name((ccs_result_t)o, &n2));
		if (o != v && !strcmp(name, n2))
			mc::fail("codes %d and %d have the same name %s", v, o, name);
	}
#define NAMED(x) if (v == (int)x && strcmp(name, #x)) mc::fail("code %d is named %s", v, name)
	NAMED(CCS_RESULT_AGAIN);
	NAMED(CCS_RESULT_SUCCESS);
	NAMED(CCS_RESULT_ERROR_INVALID_OBJECT);
	NAMED(CCS_RESULT_ERROR_INVALID_VALUE);
	NAMED(CCS_RESULT_ERROR_INVALID_TYPE);
	NAMED(CCS_RESULT_ERROR_INVALID_SCALE);
	NAMED(CCS_RESULT_ERROR_INVALID_DISTRIBUTION);
	NAMED(CCS_RESULT_ERROR_INVALID_EXPRESSION);
	NAMED(CCS_RESULT_ERROR_INVALID_PARAMETER);
	NAMED(CCS_RESULT_ERROR_INVALID_CONFIGURATION);
	NAMED(CCS_RESULT_ERROR_INVALID_NAME);
	NAMED(CCS_RESULT_ERROR_INVALID_CONDITION);
	NAMED(CCS_RESULT_ERROR_INVALID_TUNER);
	NAMED(CCS_RESULT_ERROR_INVALID_GRAPH);
	NAMED(CCS_RESULT_ERROR_TYPE_NOT_COMPARABLE);
	NAMED(CCS_RESULT_ERROR_INVALID_BOUNDS);
	NAMED(CCS_RESULT_ERROR_OUT_OF_BOUNDS);
	NAMED(CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
	NAMED(CCS_RESULT_ERROR_OUT_OF_MEMORY);
	NAMED(CCS_RESULT_ERROR_UNSUPPORTED_OPERATION);
	NAMED(CCS_RESULT_ERROR_INVALID_EVALUATION);
	NAMED(CCS_RESULT_ERROR_INVALID_FEATURES);
	NAMED(CCS_RESULT_ERROR_INVALID_FEATURES_TUNER);
	NAMED(CCS_RESULT_ERROR_INVALID_FILE_PATH);
	NAMED(CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
	NAMED(CCS_RESULT_ERROR_DUPLICATE_HANDLE);
	NAMED(CCS_RESULT_ERROR_INVALID_HANDLE);
	NAMED(CCS_RESULT_ERROR_SYSTEM);
	NAMED(CCS_RESULT_ERROR_EXTERNAL);
	NAMED(CCS_RESULT_ERROR_INVALID_TREE);
	NAMED(CCS_RESULT_ERROR_INVALID_TREE_SPACE);
	NAMED(CCS_RESULT_ERROR_INVALID_TREE_TUNER);
}
// messages and locations of every size class, made in every way, come back as they were given
MC_SUITE(descriptions)
{
	static const size_t lens[] = {0, 1, 7, 8, 31, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 70000};
	static const size_t cnts[] = {0, 1, 2, 7, 8, 9, 16, 17, 33, 64, 65, 300};
	int    v     = mc::choose(31, "code") - 30;
	size_t len   = lens[mc::choose((int)(sizeof(lens) / sizeof(*lens)), "length of the message")];
	mc::shard_point();
	size_t n     = cnts[mc::choose((int)(sizeof(cnts) / sizeof(*cnts)), "locations")];
	int    form  = mc::choose(3, "made as the error of the thread / set as it / kept apart");
	int    old   = mc::choose(2, "an error before");
	if (v == 0)
		mc::prune();
	if (!mc::thorough() && v != -1 && v != -17 && v != -30 && (len > 1 || n > 1))
		mc::prune();
	mc::nontrivial();
	ccs_clear_thread_error();
	const char *nm = nullptr;
	if (old)
		MC_ERR(ccs_parameter_get_name(nullptr, &nm));
	std::string text;
	for (size_t i = 0; i < len; i++)
		text += (char)(i % 61 == 60 ? '%' : 'a' + i % 26);
	ccs_error_stack_t s = nullptr;
	if (form == 0) {
		MC_OK(ccs_create_thread_error((ccs_result_t)v, "%s|%d", text.c_str(), v));
		s = ccs_get_thread_error();
		if (!s || ccs_get_thread_error())
			mc::fail("the error made for the thread is not there once");
	} else
		MC_OK(ccs_create_error_stack(&s, (ccs_result_t)v, "%s|%d", text.c_str(), v));
	std::vector<std::string> files, funcs;
	for (size_t i = 0; i < n; i++)
		files.push_back(strf("file%zu", i)), funcs.push_back(strf("func%zu", i * 7));
	for (size_t i = 0; i < n; i++)
		MC_OK(ccs_error_stack_push(s, files[i].c_str(), (int)(i * 3 + 1), funcs[i].c_str()));
	if (form == 1) {
		MC_OK(ccs_set_thread_error(s));
		ccs_error_stack_t s2 = ccs_get_thread_error();
		if (s2 != s)
			mc::fail("the error set is not the error of the thread");
	} else if (form == 2 && old) {
		if (take_error() != BADO)
			mc::fail("making an error replaced the one of the thread");
	}
	text += strf("|%d", v);
	ccs_result_t            code = (ccs_result_t)77;
	const char             *msg  = nullptr;
	size_t                  m    = 12345;
	ccs_error_stack_elem_t *el   = nullptr;
	MC_OK(ccs_error_stack_get_code(s, &code));
	MC_OK(ccs_error_stack_get_message(s, &msg));
	MC_OK(ccs_error_stack_get_elems(s, &m, &el));
	mc::step();
	if ((int)code != v || !msg || text != msg)
		mc::fail("an error of code %d with a message of %zu characters came back as %d with %zu", v, text.size(), (int)code, msg ? strlen(msg) : 0);
	if (m != n)
		mc::fail("%zu locations were given but %zu are there", n, m);
	for (size_t i = 0; i < n; i++)
		if (files[i] != el[i].file || funcs[i] != el[i].func || el[i].line != (int)(i * 3 + 1))
			mc::fail("location %zu of %zu is another", i, n);
	if (refcount((ccs_object_t)s) != 1)
		mc::fail("the error has other owners");
	MC_OK(ccs_release_object(s));
	if (ccs_get_thread_error())
		mc::fail("an error is there that nobody made");
	mc::obs((uint64_t)(len * 1000 + n));
}
