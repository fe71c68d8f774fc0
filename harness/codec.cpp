#include "common.hpp"
#include "vmime/utility/encoder/b64Encoder.hpp"
#include "vmime/utility/encoder/qpEncoder.hpp"
#include "vmime/utility/encoder/uuEncoder.hpp"
#include "vmime/utility/encoder/sevenBitEncoder.hpp"
#include "vmime/utility/encoder/eightBitEncoder.hpp"
#include "vmime/utility/encoder/binaryEncoder.hpp"
#include "vmime/utility/encoder/encoderFactory.hpp"
#include "vmime/encoding.hpp"
using namespace vmime::utility;
enum { B64, QP, QPTEXT, QP2047, UU, SEVEN, EIGHT, BIN };
static shared_ptr<encoder::encoder> mk(size_t kind, size_t mll, bool viaFactory = true) {
	shared_ptr<encoder::encoder> e;
	auto f = encoder::encoderFactory::getInstance();
	switch (kind) {
		case B64: e = f->create("base64"); break;
		case QP: case QPTEXT: case QP2047: e = f->create("quoted-printable"); break;
		case UU: e = f->create("uuencode"); break;
		case SEVEN: e = f->create("7bit"); break;
		case EIGHT: e = f->create("8bit"); break;
		default: e = f->create("binary"); break;
	}
	if (kind == QPTEXT) e->getProperties()["text"] = true;
	if (kind == QP2047) e->getProperties()["rfc2047"] = true;
	if (mll) e->getProperties()["maxlinelength"] = mll;
	return e;
}
static string content() { // concrete filler, then symbolic bytes
	size_t pre = P("pre", 0);
	string s(pre, 'a');
	if (P("fill", 0)) for (size_t i = 0; i < pre; i++) s[i] = (char)(i * 31 + i / 256 * 7);
	if (P("var", 1)) s += symStrUpTo(P("n", 3)); else s += symStr(P("n", 3));
	return s;
}
static string enc(size_t kind, size_t mll, const string& data, bool cut, size_t* ret = nullptr) {
	auto e = mk(kind, mll);
	ChunkIn in(data, cut, P("pre", 0) > 2 ? P("pre", 0) - 2 : 0); string out; outputStreamStringAdapter os(out);
	size_t r = e->encode(in, os); if (ret) *ret = r; os.flush();
	return out;
}
static string dec(size_t kind, const string& data, bool cut, size_t* ret = nullptr) {
	auto e = mk(kind, 0);
	ChunkIn in(data, cut); string out; outputStreamStringAdapter os(out);
	size_t r = e->decode(in, os); if (ret) *ret = r; os.flush();
	return out;
}
// decode(encode(x)) == x; the pieces the input arrives in do not matter; byte counts are right
HARNESS h_codec_rt() {
	size_t k = P("enc", 0), mll = P("mll", 0);
	string data = content(); size_t r = 0, r2 = 0;
	string e = enc(k, mll, data, P("cut", 0), &r);
	observe("enc", e);
	vs_check(r == e.size(), "encode() returns the number of bytes written");
	string d = dec(k, e, false, &r2);
	observe("dec", d);
	checkEq(d, data, "decode(encode(x)) == x");
	vs_check(r2 == d.size(), "decode() returns the number of bytes written");
	vs_reach("end");
}
HARNESS h_codec_encchunk() {
	size_t k = P("enc", 0), mll = P("mll", 0);
	string data = content();
	string e = enc(k, mll, data, false), e2 = enc(k, mll, data, true);
	observe("e2", e2);
	checkEq(e, e2, "encoding does not depend on how the input is cut");
	vs_reach("end");
}
// arbitrary bytes into a decoder: no memory error, ends, same result however the input is cut
HARNESS h_codec_dec() {
	size_t k = P("enc", 0);
	static const char* pre[] = {"", "=", "begin 644 f\r\n", "begin 644 f\r\n#0V%T", "YWJj", "begi", "begin 6 x\nM", "e"};
	string data = string(pre[P("pfx", 0)]) + symStrUpTo(P("n", 4));
	size_t r = 0;
	string d = dec(k, data, false, &r);
	observe("dec", d);
	vs_check(r == d.size(), "decode() returns the number of bytes written");
	vs_check(d.size() <= mk(k, 0)->getDecodedSize(data.size()), "decoded size within the estimate");
	if (P("cut", 1)) {
		string d2 = dec(k, data, true);
		observe("dec2", d2);
		checkEq(d, d2, "decoding does not depend on how the input is cut");
	}
	vs_reach("end");
}
static bool upHex(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'); }
// what goes on the wire is well formed
HARNESS h_codec_wf() {
	size_t k = P("enc", 0), mll = P("mll", 0);
	string data = content();
	string e = enc(k, mll, data, false);
	observe("enc", e);
	size_t lim = mll && k != QP2047 ? std::max<size_t>(std::min<size_t>(mll, 76), 4) : (size_t)-1, col = 0;
	if ((k == QP || k == QPTEXT) && mll) lim = std::min<size_t>(mll + 2, 76);
	if (k == B64) {
		size_t pad = 0, digits = 0;
		for (size_t i = 0; i < e.size(); i++) {
			unsigned char c = e[i];
			if (c == '\r') { vs_check(i + 1 < e.size() && e[i + 1] == '\n', "b64: lines end with CRLF"); vs_check(col % 4 == 0, "b64: whole quads on a line"); col = 0; i++; vs_check(mll != 0, "b64: no line break unless asked for"); continue; }
			vs_check(vs_or(vs_or(c >= 'A' && c <= 'Z', c >= 'a' && c <= 'z'), vs_or(vs_or(c >= '0' && c <= '9', c == '+'), vs_or(c == '/', c == '='))), "b64: alphabet");
			if (c == '=') pad++; else vs_check(pad == 0, "b64: nothing after padding");
			digits++; vs_check(++col <= lim, "line length limit");
		}
		vs_check(digits == (data.size() + 2) / 3 * 4 && pad == (3 - data.size() % 3) % 3, "b64: padding");
	} else if (k == QP2047) {
		for (size_t i = 0; i < e.size(); i++) {
			unsigned char c = e[i];
			if (c == '=') { vs_check(i + 2 < e.size() && upHex(e[i + 1]) && upHex(e[i + 2]), "q: = followed by two hex digits"); i += 2; continue; }
			bool ok = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '!' || c == '*' || c == '+' || c == '-' || c == '/' || c == '_';
			vs_check(ok, "q: only characters allowed in a phrase");
		}
	} else if (k == QP || k == QPTEXT) {
		for (size_t i = 0; i < e.size(); i++) {
			unsigned char c = e[i];
			if (col == 0) vs_check(c != '.', "qp: no line starts with a dot");
			if (c == '=') {
				vs_check(i + 2 < e.size(), "qp: escape is complete");
				vs_check(++col <= lim, "line length limit");
				if (e[i + 1] == '\r') { vs_check(e[i + 2] == '\n', "qp: soft break is =CRLF"); col = 0; }
				else { vs_check(upHex(e[i + 1]) && upHex(e[i + 2]), "qp: = followed by two hex digits"); col += 2; vs_check(col <= lim, "line length limit"); }
				i += 2; continue;
			}
			if (c == '\r' || c == '\n') {
				vs_check(k == QPTEXT, "qp: binary content has no raw line break");
				vs_check(i == 0 || e[i - 1] != ' ', "qp: no space at the end of a line");
				if (c == '\n') col = 0; else col++;
				continue;
			}
			vs_check(c >= 32 && c <= 126, "qp: printable characters only");
			if (i + 1 == e.size()) vs_check(c != ' ', "qp: no space at the end");
			vs_check(++col <= lim, "line length limit");
		}
	} else if (k == UU) {
		vs_check(e.compare(0, 6, "begin ") == 0, "uu: begin line");
		vs_check(e.size() >= 5 && e.compare(e.size() - 5, 5, "end\r\n") == 0, "uu: end line");
		size_t i = e.find("\r\n") + 2; size_t tot = 0;
		while (i < e.size() - 5) {
			size_t n = (unsigned char)e[i] - ' '; vs_check(n >= 1 && n <= 45, "uu: line length character"); tot += n;
			size_t len = (n + 2) / 3 * 4; vs_check(i + 1 + len + 2 <= e.size() - 5, "uu: line is complete");
			for (size_t q = 0; q < len; q++) vs_check(vs_and((unsigned char)e[i + 1 + q] >= 32, (unsigned char)e[i + 1 + q] <= 96), "uu: alphabet");
			vs_check(e[i + 1 + len] == '\r' && e[i + 2 + len] == '\n', "uu: CRLF"); i += len + 3;
		}
		vs_check(tot == data.size(), "uu: line lengths add up");
	}
	vs_reach("end");
}
// size estimates are upper bounds
HARNESS h_codec_size() {
	size_t k = P("enc", 0), mll = P("mll", 0);
	size_t n = P("lo", 0) + vs_choice(P("len", 10));
	unsigned char x = vs_u8(), y = vs_u8();
	string data; for (size_t i = 0; i < n; i++) data.push_back(i % 2 ? y : x);
	auto e = mk(k, mll);
	string out = enc(k, mll, data, false);
	vs_check(out.size() <= e->getEncodedSize(n), "encoded size within the estimate");
	observe("tail", out.substr(out.size() > 8 ? out.size() - 8 : 0));
	vs_reach("end");
}
// the encoding chosen for some text carries it unchanged and, if it is 7bit, is 7-bit clean with short lines
HARNESS h_codec_decide() {
	string data(P("pre", 0), 'a'); data += symStrUpTo(P("n", 4));
	vmime::encoding en = vmime::encoding::decide(make_shared<stringContentHandler>(data), vs_choice(2) ? vmime::encoding::USAGE_TEXT : vmime::encoding::USAGE_BINARY_DATA);
	observe("name", en.getName());
	auto e = en.getEncoder();
	ChunkIn in(data, false); string out; outputStreamStringAdapter os(out); e->getProperties()["maxlinelength"] = 76; e->encode(in, os);
	auto d = en.getEncoder();
	ChunkIn in2(out, false); string back; outputStreamStringAdapter os2(back); d->decode(in2, os2);
	checkEq(back, data, "chosen encoding carries the data");
	size_t col = 0;
	for (size_t i = 0; i < out.size(); i++) { unsigned char c = out[i]; vs_check(c < 128, "chosen encoding is 7-bit clean"); if (c == '\n') col = 0; else vs_check(++col <= 998, "line length"); }
	vs_reach("end");
}
// any RFC 2045 representation of the data (not only the one this library produces) decodes to the data
HARNESS h_codec_foreign() {
	size_t k = P("enc", 0);
	string data = symStr(P("n", 2)), e;
	static const char* brk[] = {"", "\r\n", "\n"};
	if (k == B64) {
		static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
		for (size_t i = 0; i < data.size(); i += 3) {
			unsigned b0 = (unsigned char)data[i], b1 = i + 1 < data.size() ? (unsigned char)data[i + 1] : 0, b2 = i + 2 < data.size() ? (unsigned char)data[i + 2] : 0;
			char q[4] = {A[b0 >> 2], A[((b0 & 3) << 4) | (b1 >> 4)], A[((b1 & 15) << 2) | (b2 >> 6)], A[b2 & 63]};
			if (i + 1 >= data.size()) q[2] = '='; if (i + 2 >= data.size()) q[3] = '=';
			for (int j = 0; j < 4; j++) { e.push_back(q[j]); if (j == 3 || P("mid", 1)) e += brk[vs_choice(3)]; }
		}
	} else {
		for (size_t i = 0; i < data.size(); i++) {
			unsigned char c = data[i]; int form = vs_choice(3);
			static const char* U = "0123456789ABCDEF"; static const char* L = "0123456789abcdef";
			if (form == 0) { // literal: allowed for printable characters but '=', and blanks inside a line
				if (!((c >= 33 && c <= 126 && c != '=') || ((c == ' ' || c == '\t')))) vs_end();
				if ((c == ' ' || c == '\t')) { e.push_back(c); e += "=\r\n"; continue; }
				e.push_back(c);
			} else { const char* H = form == 1 ? U : L; e.push_back('='); e.push_back(H[c >> 4]); e.push_back(H[c & 15]); }
			unsigned b = vs_choice(3); if (b) { e += "="; e += brk[b]; }
		}
	}
	observe("enc", e);
	string d = dec(k, e, false); checkEq(d, data, "any valid representation decodes to the data");
	vs_reach("end");
}
