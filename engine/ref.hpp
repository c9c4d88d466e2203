// Reference definitions of the Frame Streams encoding, written independently of the library.
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
namespace ref {
typedef std::string B;
typedef std::vector<B> L;
enum { ACCEPT = 1, START = 2, STOP = 3, READY = 4, FINISH = 5 };
inline B be32(uint32_t v) { B r; for (int i = 3; i >= 0; i--) r += (char)(v >> (8 * i)); return r; }
inline uint32_t rd32(const B &s, size_t p) { uint32_t v = 0; for (int i = 0; i < 4; i++) v = v << 8 | (unsigned char)s[p + i]; return v; }
inline L wire_ctypes(int type, const L &c)
{
	if (type == STOP || type == FINISH) return L();
	if (type == START && c.size() > 1) return L(1, c[0]);
	return c;
}
// control frame payload
inline B ctl_payload(uint32_t type, const L &c)
{
	B r = be32(type);
	for (auto &x : wire_ctypes(type, c)) r += be32(1) + be32(x.size()) + x;
	return r;
}
inline B with_header(const B &payload) { return be32(0) + be32(payload.size()) + payload; }
inline B ctl(uint32_t type, const L &c = L()) { return with_header(ctl_payload(type, c)); }
inline B frame(const B &d) { return be32(d.size()) + d; }
inline bool known(uint32_t t) { return t >= 1 && t <= 5; }
// decodes a control frame payload
inline bool decode(const B &s, uint32_t &type, L &c)
{
	c.clear();
	if (s.size() > 512 || s.size() < 4) return false;
	type = rd32(s, 0);
	if (!known(type)) return false;
	size_t p = 4;
	while (p < s.size()) {
		if (s.size() - p < 8) return false;
		if (rd32(s, p) != 1) return false;
		size_t n = rd32(s, p + 4);
		p += 8;
		if (n > 256 || n > s.size() - p) return false;
		c.push_back(s.substr(p, n));
		p += n;
	}
	if (type == START && c.size() > 1) return false;
	if ((type == STOP || type == FINISH) && c.size() > 0) return false;
	return true;
}
inline bool decode_header(const B &s, uint32_t &type, L &c)
{
	if (s.size() < 8 || rd32(s, 0) != 0 || rd32(s, 4) != s.size() - 8) return false;
	return decode(s.substr(8), type, c);
}
// does a frame of this type with these content types match m (null: absent)
inline bool match(uint32_t type, const L &c, const B *m)
{
	if (type == STOP || type == FINISH) return false;
	L w = wire_ctypes(type, c);
	if (w.empty()) return true;
	if (!m) return false;
	for (auto &x : w) if (x == *m) return true;
	return false;
}
inline B hex(const B &s, size_t max = 40)
{
	B r;
	char b[4];
	for (size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, 4, "%02x", (unsigned char)s[i]); r += b; }
	if (s.size() > max) r += ".." + std::to_string(s.size());
	return r;
}
// deterministic payload
inline B data(size_t n, unsigned salt)
{
	B r(n, 0);
	uint32_t x = salt * 2654435761u + 12345;
	for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; r[i] = (char)(x >> 24); }
	return r;
}
}
