#include "common.hpp"
#include "vmime/utility/filteredStream.hpp"
#include "vmime/utility/streamUtils.hpp"
#include "vmime/utility/inputStreamByteBufferAdapter.hpp"
#include "vmime/utility/inputStreamAdapter.hpp"
#include "vmime/utility/inputStreamPointerAdapter.hpp"
#include "vmime/utility/outputStreamAdapter.hpp"
#include "vmime/utility/outputStreamByteArrayAdapter.hpp"
#include "vmime/utility/seekableInputStreamRegionAdapter.hpp"
#include "vmime/utility/parserInputStreamAdapter.hpp"
#include "vmime/utility/progressListener.hpp"
#include "vmime/security/digest/messageDigestFactory.hpp"
#include <sstream>
using namespace vmime::utility;

static string readAll(inputStream& is, size_t bs) {
	string r; std::vector<byte_t> b(bs); int guard = 0;
	while (!is.eof()) { size_t n = is.read(&b[0], bs); vs_check(n <= bs, "read() returns no more than asked for"); r.append((const char*)&b[0], n); if (++guard > 60) vs_fail("stream never ends"); }
	return r;
}
static string fixedPrefix() { static const char* p[] = {"", "\r\n", "\n.", "\r\n.", "\r\n.\r", "a\r", ".", "\n"}; return p[P("pfx", 0)]; }
static string symIn(size_t n) { return P("set", 0) ? symStrIn(n, "\r\n.x") : symStr(n); }
// dot-stuffing output filter: reference and independence of chunking
HARNESS h_dotout() {
	string x = fixedPrefix() + symIn(P("n", 4));
	bool cut = P("cut", 1);
	string out, whole; outputStreamStringAdapter os(out), os2(whole);
	dotFilteredOutputStream f(os), g(os2);
	if (cut) writeChunks(f, x); else f.write(x.data(), x.size());
	f.flush(); g.write(x.data(), x.size()); g.flush();
	observe("out", out);
	checkEq(out, whole, "dot-stuffing does not depend on chunking");
	if (x[0] != '.') {
		string ref; for (size_t i = 0; i < x.size(); i++) { if (x[i] == '.' && i && x[i - 1] == '\n') ref += '.'; ref += x[i]; }
		checkEq(out, ref, "a dot is doubled exactly at the start of a line");
		inputStreamStringAdapter in(out); dotFilteredInputStream back(in);
		checkEq(readAll(back, 16), x, "unstuffing gives the data back");
	} else if (x.size() > 1 && (x[1] == '\r' || x[1] == '\n')) vs_check(out[0] == '.' && out[1] == '.', "a lone dot on the first line is doubled");
	vs_reach("end");
}
HARNESS h_dotin() {
	string x = fixedPrefix() + symIn(P("n", 5));
	ChunkIn in(x); dotFilteredInputStream f(in);
	string out = readAll(f, 1 + vs_choice(2) * 15);
	string ref; char p2 = 0, p1 = 0;
	for (char c : x) { if (c == '.' && p1 == '.' && p2 == '\n') { p2 = 0; continue; } ref += c; p2 = p1; p1 = c; }
	observe("out", out);
	checkEq(out, ref, "one dot is removed after a dot that starts a line");
	f.reset(); checkEq(readAll(f, 16), ref, "reading again after reset");
	vs_reach("end");
}
HARNESS h_crlf2lf() {
	string x = fixedPrefix() + symIn(P("n", 5));
	string out; outputStreamStringAdapter os(out); CRLFToLFFilteredOutputStream f(os);
	writeChunks(f, x); f.flush();
	string ref; for (size_t i = 0; i < x.size(); i++) if (!(x[i] == '\r' && i + 1 < x.size() && x[i + 1] == '\n')) ref += x[i];
	observe("out", out);
	checkEq(out, ref, "CRLF becomes LF, all else is kept");
	vs_reach("end");
}
HARNESS h_lf2crlf() {
	string x = fixedPrefix() + symIn(P("n", 5));
	string out; outputStreamStringAdapter os(out); LFToCRLFFilteredOutputStream f(os);
	writeChunks(f, x); f.flush();
	string ref; for (size_t i = 0; i < x.size(); i++) { if (x[i] == '\r') { ref += "\r\n"; if (i + 1 < x.size() && x[i + 1] == '\n') i++; } else if (x[i] == '\n') ref += "\r\n"; else ref += x[i]; }
	observe("out", out);
	checkEq(out, ref, "every line break becomes CRLF");
	vs_reach("end");
}
template <int N> static void stop(const char* seq, const string& x) {
	ChunkIn in(x); stopSequenceFilteredInputStream<N> f(in, seq);
	static const size_t bs[] = {N + 1, N + 2, 32};
	string out = readAll(f, bs[vs_choice(3)]);
	size_t at = x.find(seq); string ref = at == string::npos ? x : x.substr(0, at);
	observe("out", out);
	checkEq(out, ref, "everything before the stop sequence and nothing after");
	ChunkIn in2(x, false); stopSequenceFilteredInputStream<N> g(in2, seq);
	readAll(g, 32); g.reset(); checkEq(readAll(g, 32), ref, "reading again after reset");
	vs_reach("end");
}
HARNESS h_stop() {
	string x = fixedPrefix() + (P("set", 0) ? symStrIn(P("n", 5), P("N", 1) <= 2 ? "xya" : "\r\n.a") : symStr(P("n", 5)));
	switch (P("N", 1)) { case 1: stop<1>("x", x); break; case 2: stop<2>("xy", x); break; case 3: stop<3>("\n.\n", x); break; default: stop<5>("\r\n.\r\n", x); }
}

// input stream adapters against the model (content, position)
HARNESS h_adapter() {
	size_t kind = P("kind", 0), n = P("n", 4), steps = P("steps", 4);
	string all = symStr(n + 2), x = all.substr(1, n);
	shared_ptr<seekableInputStream> s; shared_ptr<inputStream> is; bool skips = true;
	std::istringstream* iss = nullptr; string buf(x);
	switch (kind) {
		case 0: is = s = make_shared<inputStreamStringAdapter>(buf); break;
		case 1: is = s = make_shared<inputStreamStringAdapter>(all, 1, 1 + n); break;
		case 2: is = s = make_shared<inputStreamByteBufferAdapter>((const byte_t*)buf.data(), buf.size()); break;
		case 3: is = s = make_shared<seekableInputStreamRegionAdapter>(make_shared<inputStreamStringAdapter>("01234" + all), 6, n); break;
		case 6: is = s = make_shared<seekableInputStreamRegionAdapter>(make_shared<inputStreamStringAdapter>(x + all), 0, n); break;
		case 8: is = s = make_shared<seekableInputStreamRegionAdapter>(make_shared<inputStreamStringAdapter>("0123" + all + "tail"), 5, n); break;
		case 9: { auto u = make_shared<inputStreamStringAdapter>("0123" + all + "tail"); u->seek(vs_choice(9)); is = s = make_shared<seekableInputStreamRegionAdapter>(u, 5, n); s->reset(); break; }
		case 4: iss = new std::istringstream(x); is = make_shared<inputStreamPointerAdapter>(iss, true); break;
		case 5: is = s = make_shared<parserInputStreamAdapter>(make_shared<inputStreamStringAdapter>(all, 1, 1 + n)); break;
		default: is = s = make_shared<seekableInputStreamRegionAdapter>(make_shared<seekableInputStreamRegionAdapter>(make_shared<inputStreamStringAdapter>("012" + all), 2, n + 3), 2, n);
	}
	size_t pos = 0;
	for (size_t i = 0; i < steps; i++) {
		if (s) vs_check(s->getPosition() == pos, "position");
		switch (vs_choice(s ? 4 : 3)) {
			case 0: {
				size_t k = vs_choice(n + 2 + (kind >= 8 ? 4 : 0)), want = std::min(k, n - pos); std::vector<byte_t> b(k + n + 1, 0xEE);
				size_t got = is->read(&b[0], kind >= 8 && k == n + 5 ? size_t(-1) : k);
				vs_check(got <= want && (got || !want), "read() makes progress and stays within the content");
				if (!iss) vs_check(got == want, "read() delivers what there is");
				vs_check(memcmp(&b[0], x.data() + pos, got) == 0, "read() delivers the content in order");
				vs_check(b[k] == 0xEE, "read() writes no more than asked for");
				pos += got; break;
			}
			case 1: { size_t k = vs_choice(n + 3); if (k == n + 2) k = iss ? n + 2 : size_t(-1); size_t got = is->skip(k); vs_check(got == std::min(k, n - pos), "skip() moves as far as it can"); pos += got; break; }
			case 2: is->reset(); pos = 0; break;
			case 3: { size_t k = vs_choice(n + 3); if (k == n + 2) k = size_t(-1); s->seek(k); if (k <= n) pos = k; else { vs_check(s->getPosition() == pos || s->getPosition() == n, "seek() past the end"); pos = s->getPosition(); } break; }
		}
		if (!iss) vs_check(is->eof() == (pos >= n), "eof()");
	}
	string rest; { byte_t b[3]; int guard = 0; while (!is->eof()) { size_t g = is->read(b, 3); rest.append((char*)b, g); if (++guard > 20) vs_fail("stream never ends"); } }
	observe("rest", rest);
	checkEq(rest, x.substr(pos), "the rest of the content follows");
	vs_reach("end");
}
// writing to outputs, copying between streams
struct Prog : public progressListener { size_t tot = 0, cur = 0, stopAt = 0; int started = 0, stopped = 0; void start(const size_t) override { started++; } void progress(const size_t c, const size_t t) override { vs_check(c >= cur && c <= t, "progress is monotonic and within its total"); cur = c; tot = t; } void stop(const size_t t) override { stopped++; stopAt = t; } };
struct SmallOut : public outputStreamStringAdapter { SmallOut(string& s) : outputStreamStringAdapter(s) {} size_t getBlockSize() override { return 3; } };
HARNESS h_copy() {
	string x = symStrUpTo(P("n", 4)); ChunkIn in(x);
	string out; size_t kind = vs_choice(4), r;
	if (kind == 0) { byteArray a; a.push_back('p'); outputStreamByteArrayAdapter os(a); r = bufferedStreamCopy(in, os); out.assign(a.begin(), a.end()); vs_check(out[0] == 'p', "byte array is appended to"); out.erase(0, 1); }
	else if (kind == 1) { SmallOut os(out); r = bufferedStreamCopy(in, os); }
	else if (kind == 2) { std::ostringstream o; outputStreamAdapter os(o); Prog p; r = bufferedStreamCopy(in, os, x.size(), &p); os.flush(); out = o.str(); vs_check(p.started == 1 && p.stopped == 1 && p.stopAt == x.size(), "progress is started and stopped"); }
	else { size_t st = vs_choice(x.size() + 1), len = vs_choice(x.size() + 2); SmallOut os(out); r = bufferedStreamCopyRange(in, os, st, len); x = x.substr(st, len); }
	observe("out", out);
	checkEq(out, x, "copy delivers the content"); vs_check(r == x.size(), "copy returns its length");
	vs_reach("end");
}
// search in a seekable stream, whatever pieces it delivers
HARNESS h_find() {
	struct S : public seekableInputStream { ChunkIn c; S(const string& s, bool cut, size_t from, size_t to) : c(s, cut, from, to) {} bool eof() const override { return c.eof(); } void reset() override { c.reset(); } size_t read(byte_t* const b, const size_t n) override { return c.read(b, n); } size_t skip(const size_t n) override { return c.skip(n); } size_t getPosition() const override { return c.pos; } void seek(const size_t p) override { c.pos = std::min(p, c.data.size()); } };
	size_t pre = P("pre", 0); string x(pre, 'a'); x += symStrIn(P("n", 6), "-ab"); x += string(P("post", 0), 'c');
	static const char* tok[] = {"-", "--", "--a", "\n-", "ab", "--ab"};
	string t = tok[P("tok", 1)]; size_t st = P("st", 1) ? vs_choice(3) : 0;
	auto s = make_shared<S>(x, P("cut", 1), pre > 1 ? pre - 1 : 0, pre + P("n", 6)); auto p = make_shared<parserInputStreamAdapter>(s);
	p->seek(1);
	size_t at = p->findNext(t, st), ref = x.find(t, st);
	vs_observe_int("at", at);
	vs_check(at == (ref == string::npos ? (size_t)-1 : ref), "findNext() finds the first occurrence");
	vs_check(p->getPosition() == std::min<size_t>(1, x.size()), "findNext() keeps the position");
	size_t b = vs_choice(x.size() > 3 ? 3 : x.size() + 1), e = x.size();
	checkEq(p->extract(b, e), x.substr(b), "extract()");
	vs_reach("end");
}

// content handlers: what is generated decodes to what was put in
static const char* ENC[] = {"", "base64", "quoted-printable", "7bit", "8bit", "binary", "uuencode"};
HARNESS h_content() {
	string x = symStrUpTo(P("n", 2)), src = x;
	vmime::encoding e1 = P("e1", 0) ? vmime::encoding(ENC[P("e1", 0)]) : contentHandler::NO_ENCODING, e2(ENC[P("e2", 1)]);
	bool text = vs_choice(2);
	if (P("e1", 0)) { auto c = e1.getEncoder(); string t; outputStreamStringAdapter os(t); inputStreamStringAdapter in(x); c->encode(in, os); src = t; }
	shared_ptr<contentHandler> h; shared_ptr<ChunkIn> ci;
	if (P("stream", 0)) h = make_shared<streamContentHandler>(ci = make_shared<ChunkIn>(src, P("cut", 0)), src.size(), e1); else h = make_shared<stringContentHandler>(src, e1);
	if (text) h->setContentTypeHint(mediaType("text", "plain"));
	string ex, raw, gen, back; { outputStreamStringAdapter os(ex); h->extract(os); } { outputStreamStringAdapter os(raw); Prog p; h->extractRaw(os, &p); }
	checkEq(ex, x, "extract() gives the decoded content"); checkEq(raw, src, "extractRaw() gives the content as it is");
	vs_check(h->getLength() == src.size() && h->isEmpty() == src.empty() && h->isEncoded() == (P("e1", 0) != 0), "length, emptiness and encoding");
	{ outputStreamStringAdapter os(gen); h->generate(os, e2, 20); }
	observe("gen", gen);
	stringContentHandler h2(gen, e2); { outputStreamStringAdapter os(back); h2.extract(os); }
	checkEq(back, x, "generate() in another encoding carries the same content");
	auto c = h->clone(); string ex2; { outputStreamStringAdapter os(ex2); c->extract(os); } checkEq(ex2, x, "a clone has the same content");
	vs_reach("end");
}

// digests
static shared_ptr<security::digest::messageDigest> mkd(size_t k) { return security::digest::messageDigestFactory::getInstance()->create(k ? "sha1" : "md5"); }
static string digest(security::digest::messageDigest& d) { return string((const char*)d.getDigest(), d.getDigestLength()); }
static inline uint32_t rol(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static string refDigest(size_t k, string m) {
	uint64_t bits = m.size() * 8; m += '\x80'; while (m.size() % 64 != 56) m += '\0';
	for (int i = 0; i < 8; i++) m += (char)(k ? bits >> (56 - 8 * i) : bits >> (8 * i));
	uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}; const unsigned char* p = (const unsigned char*)m.data();
	for (size_t o = 0; o < m.size(); o += 64, p += 64) {
		uint32_t w[80], a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		if (k) {
			for (int i = 0; i < 16; i++) w[i] = p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
			for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
			for (int i = 0; i < 80; i++) {
				uint32_t f = i < 20 ? ((b & c) | (~b & d)) : i < 40 ? (b ^ c ^ d) : i < 60 ? ((b & c) | (b & d) | (c & d)) : (b ^ c ^ d);
				uint32_t K = i < 20 ? 0x5a827999 : i < 40 ? 0x6ed9eba1 : i < 60 ? 0x8f1bbcdc : 0xca62c1d6;
				uint32_t t = rol(a, 5) + f + e + K + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t;
			}
			h[4] += e;
		} else {
			static const uint32_t K[64] = {0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
			static const int S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
			for (int i = 0; i < 16; i++) w[i] = p[4 * i] | p[4 * i + 1] << 8 | p[4 * i + 2] << 16 | (uint32_t)p[4 * i + 3] << 24;
			for (int i = 0; i < 64; i++) {
				uint32_t f; int g;
				if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; } else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = (7 * i) % 16; }
				uint32_t t = d; d = c; c = b; b = b + rol(a + f + K[i] + w[g], S[i / 16][i % 4]); a = t;
			}
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d;
	}
	string r; for (int i = 0; i < (k ? 5 : 4); i++) for (int j = 0; j < 4; j++) r += (char)(k ? h[i] >> (24 - 8 * j) : h[i] >> (8 * j));
	return r;
}
// any division into three updates gives the digest of the whole
HARNESS h_digest_chunk() {
	size_t k = P("alg", 0), lo = P("lo", 0); string x = symStr(lo + vs_choice(P("len", 4)));
	auto a = mkd(k), b = mkd(k);
	a->update(x); a->finalize(); string whole = digest(*a);
	size_t step = P("step", 1); size_t i = std::min(x.size(), vs_choice(x.size() / step + 2) * step), j = i + std::min(x.size() - i, vs_choice((x.size() - i) / step + 2) * step);
	if (P("again", 0)) { b->update(symStr(3)); b->reset(); }
	b->update((const byte_t*)x.data(), 0, i); b->update((const byte_t*)x.data(), i, j - i);
	switch (vs_choice(3)) {
		case 0: b->update((const byte_t*)x.data() + j, x.size() - j); b->finalize(); break;
		case 1: for (size_t q = j; q < x.size(); q++) b->update((byte_t)x[q]); b->finalize(string()); break;
		case 2: b->finalize((const byte_t*)x.data(), j, x.size() - j); break;
	}
	checkEq(digest(*b), whole, "the digest does not depend on how the data is divided into updates");
	vs_reach("end");
}
// the digest is the standard's, for every length, with an arbitrary byte somewhere
HARNESS h_digest_ref() {
	size_t k = P("alg", 0), n = P("lo", 0) + vs_choice(P("len", 130)); string x(n, 0); for (size_t i = 0; i < n; i++) x[i] = (char)(i * 37 + 11);
	unsigned char c = vs_u8(); if (n) x[(n * 7) % n] = c; if (n > 3) x[n - 1] = c;
	auto a = mkd(k); a->update(x); a->finalize();
	string d = digest(*a); observe("d", d);
	checkEq(d, refDigest(k, x), "the digest is the one the standard defines");
	vs_reach("end");
}
