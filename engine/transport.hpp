// A custom fstrm_rdwr transport driven by the harness.
#pragma once
#include "env.hpp"
#include "mc.hpp"
#include "ref.hpp"
extern "C" {
#include "fstrm.h"
}
#include <functional>
struct Tr {
	// configuration
	bool can_read = true, can_write = true;
	bool faults = true;              // offer transport failures (deviations)
	bool strict = false;             // judge the use of the transport itself (C09)
	bool eof_is_stop = true;         // what read returns at the end of the input
	std::function<void(Tr &)> on_open; // may set in / reset
	std::function<void(const char *)> meanwhile; // something else happens before or after an operation
	std::function<ref::B(Tr &)> more; // more input when it is exhausted
	// state
	ref::B in, out;
	size_t inpos = 0;
	bool open = false, failed = false, destroyed = false, misused = false;
	int opens = 0, ok_opens = 0, closes = 0, destroys = 0, nops = 0, faulted = 0, close_faults = 0;
	size_t out_at_fault = 0;
	int out_mark = 0;
	struct fstrm_rdwr *rdwr = nullptr;

	bool fault(const char *what)
	{
		nops++;
		if (!faults) return false;
		if (mc::deviate(2, what)) { faulted++; out_at_fault = out.size(); return true; }
		return false;
	}
	void use(const char *what)
	{
		CHECK(!destroyed, "%s called after the transport was destroyed", what);
	}
	static fstrm_res op_open(void *o)
	{
		Tr &t = *(Tr *)o;
		t.use("open");
		if (t.strict) CHECK(!t.open, "the transport is opened while it is open");
		t.opens++;
		if (t.fault("open-fails")) return fstrm_res_failure;
		t.open = true;
		t.failed = false;
		t.ok_opens++;
		if (t.on_open) t.on_open(t);
		return fstrm_res_success;
	}
	static fstrm_res op_close(void *o)
	{
		Tr &t = *(Tr *)o;
		t.use("close");
		if (t.strict) CHECK(t.open, "the transport is closed while it is not open");
		t.closes++;
		t.open = false;
		if (t.fault("close-fails")) { t.close_faults++; return fstrm_res_failure; }
		return fstrm_res_success;
	}
	static fstrm_res op_read(void *o, void *p, size_t n)
	{
		Tr &t = *(Tr *)o;
		t.use("read");
		if (t.strict) CHECK(t.open, "read from a transport that is not open");
		if (t.strict) CHECK(!t.failed, "read from a transport after it failed");
		if (!t.open) return fstrm_res_failure;
		if (t.fault("read-fails")) { t.failed = true; return fstrm_res_failure; }
		while (t.in.size() - t.inpos < n && t.more) {
			ref::B m = t.more(t);
			if (m.empty()) break;
			t.in += m;
		}
		if (t.in.size() - t.inpos < n) {
			// like fread(): what is there is lost, and a read of 0 bytes never comes here
			t.inpos = t.in.size();
			t.failed = true;
			return t.eof_is_stop ? fstrm_res_stop : fstrm_res_failure;
		}
		memcpy(p, t.in.data() + t.inpos, n);
		t.inpos += n;
		return fstrm_res_success;
	}
	static fstrm_res op_write(void *o, const struct iovec *v, int n)
	{
		Tr &t = *(Tr *)o;
		t.use("write");
		if (t.strict) CHECK(t.open, "write to a transport that is not open");
		if (t.strict) CHECK(!t.failed, "write to a transport after it failed");
		if (!t.open) return fstrm_res_failure;
		CHECK(n >= 0 && n <= 1024, "write of %d iovecs", n);
		if (t.fault("write-fails")) { t.failed = true; return fstrm_res_failure; }
		for (int i = 0; i < n; i++) {
			if (v[i].iov_len >= (1u << 28)) { // too big to keep: its size and first bytes are
				t.out += "<" + std::to_string(v[i].iov_len) + ":" + std::string((const char *)v[i].iov_base, 8) + ">";
			} else t.out.append((const char *)v[i].iov_base, v[i].iov_len);
		}
		return fstrm_res_success;
	}
	static fstrm_res op_destroy(void *o)
	{
		Tr &t = *(Tr *)o;
		t.use("destroy");
		if (t.strict) CHECK(!t.open, "the transport is destroyed while it is open");
		t.destroyed = true;
		t.destroys++;
		return fstrm_res_success;
	}
	void around(const char *what) { if (meanwhile) meanwhile(what); }
	static fstrm_res m_open(void *o) { Tr &t = *(Tr *)o; t.around("before open"); fstrm_res r = op_open(o); t.around("after open"); return r; }
	static fstrm_res m_close(void *o) { Tr &t = *(Tr *)o; t.around("before close"); fstrm_res r = op_close(o); t.around("after close"); return r; }
	static fstrm_res m_read(void *o, void *p, size_t n) { Tr &t = *(Tr *)o; t.around("before read"); fstrm_res r = op_read(o, p, n); t.around("after read"); return r; }
	static fstrm_res m_write(void *o, const struct iovec *v, int n) { Tr &t = *(Tr *)o; t.around("before write"); fstrm_res r = op_write(o, v, n); t.around("after write"); return r; }
	struct fstrm_rdwr *make()
	{
		rdwr = fstrm_rdwr_init(this);
		fstrm_rdwr_set_open(rdwr, m_open);
		fstrm_rdwr_set_close(rdwr, m_close);
		if (can_read) fstrm_rdwr_set_read(rdwr, m_read);
		if (can_write) fstrm_rdwr_set_write(rdwr, m_write);
		fstrm_rdwr_set_destroy(rdwr, op_destroy);
		return rdwr;
	}
	struct fstrm_writer *writer(const ref::L &ct)
	{
		struct fstrm_writer_options *o = fstrm_writer_options_init();
		for (auto &c : ct) {
			ref::B k = c;
			CHECK(fstrm_writer_options_add_content_type(o, k.data(), k.size()) == fstrm_res_success, "writer_options_add_content_type");
		}
		struct fstrm_rdwr *r = make();
		struct fstrm_writer *w = fstrm_writer_init(ct.empty() ? nullptr : o, &r);
		CHECK(w && !r, "fstrm_writer_init");
		fstrm_writer_options_destroy(&o);
		return w;
	}
	struct fstrm_reader *reader(const ref::L &ct, size_t max = 0)
	{
		struct fstrm_reader_options *o = fstrm_reader_options_init();
		for (auto &c : ct) CHECK(fstrm_reader_options_add_content_type(o, c.data(), c.size()) == fstrm_res_success, "reader_options_add_content_type");
		if (max) CHECK(fstrm_reader_options_set_max_frame_size(o, max) == fstrm_res_success, "set_max_frame_size(%zu)", max);
		struct fstrm_rdwr *r = make();
		struct fstrm_reader *x = fstrm_reader_init(ct.empty() && !max ? nullptr : o, &r);
		CHECK(x && !r, "fstrm_reader_init");
		fstrm_reader_options_destroy(&o);
		return x;
	}
};
// what a control frame object holds, as wire payload
static inline ref::B payload_of(const struct fstrm_control *c)
{
	fstrm_control_type t;
	if (!c || fstrm_control_get_type(c, &t) != fstrm_res_success) return "none";
	ref::L l;
	size_t n = 0;
	fstrm_control_get_num_field_content_type(c, &n);
	for (size_t i = 0; i < n; i++) {
		const uint8_t *p;
		size_t k;
		if (fstrm_control_get_field_content_type(c, i, &p, &k) != fstrm_res_success) return "bad";
		l.push_back(ref::B((const char *)p, k));
	}
	return ref::ctl_payload(t, l);
}
// reads one control frame with escape from s at p; false: malformed or incomplete
static inline bool parse_ctl(const ref::B &s, size_t &p, uint32_t &type, ref::L &c)
{
	if (s.size() < p + 8 || ref::rd32(s, p) != 0) return false;
	size_t n = ref::rd32(s, p + 4);
	if (n > 512 || s.size() - p - 8 < n) return false;
	if (!ref::decode(s.substr(p + 8, n), type, c)) return false;
	p += 8 + n;
	return true;
}
// malformed or unexpected things a peer can send in place of a control frame
static inline std::vector<ref::B> bad_frames(uint32_t type)
{
	using namespace ref;
	std::vector<B> v;
	B good = ctl_payload(type, L());
	v.push_back(be32(5) + "hello" + ctl(type));                        // a data frame
	v.push_back(be32(0) + be32(0));                                     // empty control frame
	v.push_back(be32(0) + be32(0) + good);
	v.push_back(be32(0) + be32(3) + good);
	v.push_back(be32(0) + be32(5) + good + "x");
	v.push_back(be32(0) + be32(8) + good + be32(1));
	v.push_back(be32(0) + be32(12) + good + be32(2) + be32(0));        // unknown field
	v.push_back(be32(0) + be32(13) + good + be32(1) + be32(2) + "a");  // field longer than the frame
	v.push_back(be32(0) + be32(12 + 257) + good + be32(1) + be32(257) + data(257, 1));
	v.push_back(be32(0) + be32(513) + good + be32(1) + be32(250) + data(250, 1) + be32(1) + be32(243) + data(243, 1)); // 513 bytes
	v.push_back(be32(0) + be32(0xffffffffu) + good);
	v.push_back(be32(0) + be32(0x10004) + good);
	v.push_back(be32(1) + be32(4) + good);
	v.push_back(be32(0x01000000) + be32(4) + good);
	v.push_back(ctl(0)); v.push_back(ctl(6)); v.push_back(ctl(type | 0x100)); v.push_back(ctl(type << 24));
	v.push_back(be32(0) + be32(type) + be32(4));
	v.push_back(be32(0) + be32(22) + be32(START) + be32(1) + be32(1) + "a" + be32(1) + be32(1) + "a");
	v.push_back(be32(0) + be32(13) + be32(STOP) + be32(1) + be32(1) + "a");
	v.push_back(be32(0) + be32(13) + be32(FINISH) + be32(1) + be32(1) + "a");
	return v;
}
// all lists of up to n entries over the alphabet
static inline std::vector<ref::L> all_lists(const std::vector<ref::B> &al, int n)
{
	std::vector<ref::L> r(1), last(1);
	for (int i = 0; i < n; i++) {
		std::vector<ref::L> next;
		for (auto &l : last) for (auto &a : al) { ref::L k = l; k.push_back(a); next.push_back(k); }
		r.insert(r.end(), next.begin(), next.end());
		last = next;
	}
	return r;
}
