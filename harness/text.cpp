// RFC 2047 header text: text, word, wordEncoder
#include "common.hpp"
#include "gen.hpp"
#include "vmime/wordEncoder.hpp"
#include "vmime/utility/encoder/b64Encoder.hpp"
#include "vmime/utility/encoder/qpEncoder.hpp"

static string gen(const text& t, size_t mll, size_t cur, int flags) {
	generationContext ctx; ctx.setMaxLineLength(mll ? mll : lineLengthLimits::infinite);
	string out; utility::outputStreamStringAdapter os(out);
	t.encodeAndFold(ctx, os, cur, NULL, flags);
	return out;
}
// builds the text the way users do: 0 text from string (mixed), 1 one word, 2 two words cut anywhere between characters
static void build(text& t, const std::vector<string>& parts, unsigned ch, unsigned how) {
	string all; for (auto& p : parts) all += p;
	if (how == 0) t.createFromString(all, charset(CHARSETS[ch]));
	else if (how == 1) t.appendWord(make_shared<word>(all, charset(CHARSETS[ch])));
	else for (auto& p : parts) if (!p.empty()) t.appendWord(make_shared<word>(p, charset(CHARSETS[ch])));
}
static std::vector<string> params(unsigned& ch, unsigned& how, size_t& mll, size_t& cur, int& flags) {
	ch = P("ch", 0); how = P("how", 0); mll = P("mll", 0); cur = P("cur", 0); flags = 0;
	if (P("force", 0)) flags |= text::FORCE_ENCODING;
	if (P("quote", 0)) flags |= text::QUOTE_IF_POSSIBLE;
	if (P("anycur", 0)) cur += vs_choice(P("anycur", 0));
	std::vector<string> v;
	size_t n = P("n", 2), m2 = P("n2", 0);
	v.push_back(filler(P("pre", 0), P("fill", 0)) + symText(P("exact", 0) ? n : vs_choice(n + 1), P("mask", 1)));
	if (m2) v.push_back(symText(m2, P("mask2", P("mask", 1))));
	if (P("post", 0)) v.back() += filler(P("post", 0), P("fill2", P("fill", 0)));
	return v;
}

// C08: parse(generate(text)) has the same characters
namespace stub { void install(); }
HARNESS h_text_rt() {
	stub::install();
	unsigned ch, how; size_t mll, cur; int flags;
	std::vector<string> parts = params(ch, how, mll, cur, flags);
	string all; for (auto& p : parts) all += p;
	text t; build(t, parts, ch, how);
	string whole; for (auto& w : t.getWordList()) whole += w->getBuffer();
	if (how == 0) checkEq(whole, all, "building a text from a string keeps every character");
	string g = gen(t, mll, cur, flags);
	observe("gen", g);
	text b; b.parse(g);
	string back = b.getConvertedText(charset("utf-8"));
	string want = toUtf8(all, ch);
	// between two separate words a blank may have to be added (an encoded word must be separated from plain text)
	if (how == 2) checkEq(unblank(back), unblank(want), "header text read back has the characters of the text written");
	else checkEq(squeeze(back), squeeze(want), "header text read back equals the text written");
	bool enc = true; for (auto& w : t.getWordList()) if (!(flags & text::FORCE_ENCODING) && !wordEncoder::isEncodingNeeded(generationContext(), w->getBuffer(), w->getCharset(), w->getLanguage())) enc = false;
	if (enc) checkEq(back, want, "fully encoded header text read back equals the text written, blanks included");
	// the decoded text does not depend on where the lines were folded
	string flat; for (size_t i = 0; i < g.size(); i++) { if (i + 2 < g.size() && g[i] == '\r' && g[i + 1] == '\n') { i++; continue; } flat.push_back(g[i]); }
	text u; u.parse(flat);
	checkEq(squeeze(u.getConvertedText(charset("utf-8"))), squeeze(back), "unfolding the lines first gives the same text");
	vs_reach("end");
}

static const signed char* b64tab() { static signed char t[256]; static bool init = false; if (!init) { for (int i = 0; i < 256; i++) t[i] = -1; const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; for (int i = 0; i < 64; i++) t[(unsigned char)A[i]] = i; init = true; } return t; }
static const signed char* hextab() { static signed char t[256]; static bool init = false; if (!init) { for (int i = 0; i < 256; i++) t[i] = -1; const char* A = "0123456789ABCDEF"; for (int i = 0; i < 16; i++) t[(unsigned char)A[i]] = i; init = true; } return t; }
// strict reading of one encoded word; 0: not valid. Few branches on the data, so that few paths are needed.
static int readEncodedWord(const string& w, string& cs, string& data) {
	if (w.size() < 8 || w.compare(0, 2, "=?") || w.compare(w.size() - 2, 2, "?=")) return 0;
	size_t a = w.find('?', 2); if (a == string::npos) return 0;
	cs = w.substr(2, a - 2);
	if (a + 2 >= w.size() || w[a + 2] != '?') return 0;
	char e = w[a + 1]; string body = w.substr(a + 3, w.size() - 2 - (a + 3)); data.clear();
	int bad = 0;
	if (e == 'B' || e == 'b') {
		if (body.size() % 4 || body.empty()) return 0;
		const signed char* T = b64tab();
		for (size_t i = 0; i < body.size(); i += 4) {
			bool lastq = i + 4 == body.size();
			int p3 = lastq && body[i + 3] == '=', p2 = p3 && body[i + 2] == '=';
			int v0 = T[(unsigned char)body[i]], v1 = T[(unsigned char)body[i + 1]], v2 = p2 ? 0 : T[(unsigned char)body[i + 2]], v3 = p3 ? 0 : T[(unsigned char)body[i + 3]];
			bad |= (v0 | v1 | v2 | v3) >> 7 & 1;
			data.push_back(char(v0 << 2 | (v1 & 63) >> 4)); if (!p2) data.push_back(char(v1 << 4 | (v2 & 63) >> 2)); if (!p3) data.push_back(char(v2 << 6 | v3));
		}
		return !bad;
	}
	if (e == 'Q' || e == 'q') {
		const signed char* H = hextab();
		for (size_t i = 0; i < body.size(); i++) {
			char c = body[i];
			if (c == '=') { if (i + 2 >= body.size()) return 0; int h = H[(unsigned char)body[i + 1]], l = H[(unsigned char)body[i + 2]]; bad |= (h | l) >> 7 & 1; data.push_back(char(h << 4 | l)); i += 2; }
			else { bad |= (c < 0x21) | (c > 0x7e) | (c == '?'); data.push_back(c == '_' ? ' ' : c); }
		}
		return !bad;
	}
	return 0;
}

// C09: the words generated are valid
HARNESS h_text_wf() {
	stub::install();
	unsigned ch, how; size_t mll, cur; int flags;
	std::vector<string> parts = params(ch, how, mll, cur, flags);
	text t; build(t, parts, ch, how);
	string g = gen(t, mll, cur, flags);
	observe("gen", g);
	size_t lim = mll ? std::min<size_t>(mll, 76) : 0;
	size_t ls = 0, line = 0; bool over = false, wayOver = false;
	while (ls <= g.size()) {
		size_t le = g.find("\r\n", ls); string l = g.substr(ls, le == string::npos ? string::npos : le - ls);
		vs_check(l.find('\r') == string::npos && l.find('\n') == string::npos, "line breaks are CRLF");
		if (ls) vs_check(!l.empty() && (l[0] == ' ' || l[0] == '\t'), "a folded line starts with a blank");
		size_t words = 0, chars = l.size() + (line == 0 ? cur : 0), lastChar = 0; bool other = false;
		for (size_t i = 0; i < l.size(); ) {
			if (blank(l[i])) { i++; continue; }
			size_t j = i; while (j < l.size() && !blank(l[j])) j++;
			string w = l.substr(i, j - i); i = j;
			if (w.compare(0, 2, "=?") == 0) {
				string cs, data;
				vs_check(readEncodedWord(w, cs, data), "an encoded word has valid syntax and characters");
				words++;
				vs_check(cs == CHARSETS[ch] || (how == 0 && cs == "us-ascii"), "an encoded word names its charset");
				if (ch == 0) vs_check(validUtf8(data), "an encoded word holds complete characters");
				vs_check(!data.empty(), "an encoded word is not empty");
				if (mll && w.size() > 75) (w.size() <= 75 + 11 ? over : wayOver) = true;
			} else { other = true; vs_check(w.find("=?") == string::npos || w.find("?=") == string::npos, "no encoded word glued to other text"); }
		}
		if (lim && words && chars > lim) vs_check(chars <= std::max(lim, (size_t)12 + strlen(CHARSETS[ch])) + 13 || line == 0, "a line of encoded words exceeds its limit by at most its last character");
		if (lim && !words && l.size() && line) {
			// plain text: too long only when it holds no blank to fold at
			bool brk = false; for (size_t i = 1; i + 1 < l.size(); i++) if (blank(l[i])) brk = true;
			vs_check(chars <= lim + 1 || !brk || mll > 76, "a line of plain text that can be folded stays within the limit");
		}
		if (le == string::npos) break;
		ls = le + 2; line++;
	}
	vs_reach("end");
	vs_check(!wayOver, "an encoded word has at most 75 characters (by more than its last character)");
	// the last character alone makes it too long: see known_findings.json (K01)
	vs_check(!over, "known:K01|an encoded word has at most 75 characters");
}

static const char* PFX[] = { "", "=?utf-8?B?", "=?utf-8?Q?", "a =?utf-8?Q?x", "=?utf-8?B?5Lit5", "=?utf-8?B?5Lit5?= =?utf-8?B?", "=?us-ascii*en?q?a?=", "=?utf-8?q?=C3", "a b\r\n ", "=?iso-8859-1?Q?=E9?= ", "=?utf-8?B?5?= =?utf-8?B?aaa?= =?utf-8?B?", "=?", "=?utf-8?B?YWJj", "=?utf-8?Q?a?= =?utf-8?Q?" };
// C08 (safety part): any text parses inside its bounds
HARNESS h_text_parse() {
	stub::install();
	string s = PFX[P("pfx", 0)]; s += P("set", 0) == 1 ? symStrUpToIn(P("n", 4), "=?BQq_ \r\na") : symStrUpTo(P("n", 4));
	if (P("close", 0)) s += "?=";
	string all = "(" + s + "=)"; // parse the middle of a longer buffer
	text t; size_t np = 0;
	parsingContext ctx; t.parse(ctx, all, 1, 1 + s.size(), &np);
	vs_check(np <= 1 + s.size(), "parsing stops inside the text");
	size_t last = 1;
	for (auto& w : t.getWordList()) {
		size_t a = w->getParsedOffset(), l = w->getParsedLength();
		vs_check(a >= last && a + l <= 1 + s.size(), "a parsed word lies inside the text, after the one before");
		last = a + l;
	}
	word w1; size_t wp = 0; w1.parse(ctx, all, 1, 1 + s.size(), &wp);
	vs_check(wp <= 1 + s.size() && w1.getParsedOffset() + w1.getParsedLength() <= 1 + s.size(), "parsing one word stops inside the text");
	text u; u.parse(s);
	vs_check(u == t, "what follows the text does not change what is parsed");
	if (P("cs", 1)) { charsetConverterOptions o; o.silentlyReplaceInvalidSequences = true; string c = t.getConvertedText(charset("utf-8"), o); observe("utf8", c); }
	vs_reach("end");
}

// C08: RFC 2047 text written by others is decoded as the RFC says
HARNESS h_text_foreign() {
	stub::install();
	size_t k = P("k", 2); string in, want; int prev = -1; // -1 none, 0 plain, 1 encoded
	string lead = P("lead", 0) ? "ab " : ""; if (!lead.empty()) { in = want = "ab"; prev = 0; }
	for (size_t i = 0; i < k; i++) {
		string sep; int kind = vs_choice(3); // plain, B, Q
		if (prev >= 0) { switch (vs_choice(P("seps", 4))) { case 0: sep = " "; break; case 1: sep = "\r\n "; break; case 2: sep = "\t"; break; case 3: sep = "  "; break; } in += sep; }
		string blankv = sep.empty() ? "" : sep[0] != '\r' ? sep : " ";
		if (kind == 0) {
			string w = symStrIn(P("n", 2), range(0x21, 0x7e)); vs_assume(w[0] != '=' && w.back() != '=' );
			if (prev >= 0) want += blankv; want += w; in += w; prev = 0;
		} else {
			string w = symText(P("n", 2), P("mask", 4 + 1)), e;
			if (kind == 1) {
				static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
				for (size_t j = 0; j < w.size(); j += 3) {
					unsigned b0 = (unsigned char)w[j], b1 = j + 1 < w.size() ? (unsigned char)w[j + 1] : 0, b2 = j + 2 < w.size() ? (unsigned char)w[j + 2] : 0;
					e.push_back(A[b0 >> 2]); e.push_back(A[(b0 & 3) << 4 | b1 >> 4]); e.push_back(j + 1 < w.size() ? A[(b1 & 15) << 2 | b2 >> 6] : '='); e.push_back(j + 2 < w.size() ? A[b2 & 63] : '=');
				}
				e = (vs_choice(2) ? "=?UTF-8?b?" : "=?utf-8?B?") + e + "?=";
			} else {
				int low = vs_choice(2);
				for (char c : w) { unsigned char b = c; if (b < 0x80 && b != '=' && b != '?' && b != '_' && b != ' ') e.push_back(c); else if (b == ' ' && low) e.push_back('_'); else { e.push_back('='); e.push_back((low ? "0123456789abcdef" : "0123456789ABCDEF")[b >> 4]); e.push_back((low ? "0123456789abcdef" : "0123456789ABCDEF")[b & 15]); } }
				e = (low ? "=?utf-8?q?" : "=?utf-8*fr?Q?") + e + "?=";
			}
			if (prev == 0) want += blankv;
			want += w; in += e; prev = 1;
		}
	}
	observe("in", in);
	text t; t.parse(in);
	string got = t.getConvertedText(charset("utf-8"));
	checkEq(got, want, "RFC 2047 text is decoded to its characters");
	shared_ptr<text> d = text::decodeAndUnfold(in);
	checkEq(d->getConvertedText(charset("utf-8")), want, "decodeAndUnfold gives the same");
	vs_reach("end");
}

static string b64(const string& w) {
	static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string e;
	for (size_t j = 0; j < w.size(); j += 3) {
		unsigned b0 = (unsigned char)w[j], b1 = j + 1 < w.size() ? (unsigned char)w[j + 1] : 0, b2 = j + 2 < w.size() ? (unsigned char)w[j + 2] : 0;
		e.push_back(A[b0 >> 2]); e.push_back(A[(b0 & 3) << 4 | b1 >> 4]); e.push_back(j + 1 < w.size() ? A[(b1 & 15) << 2 | b2 >> 6] : '='); e.push_back(j + 2 < w.size() ? A[b2 & 63] : '=');
	}
	return e;
}
// C08: Base64 data cut anywhere between encoded words (even inside a group of four digits) is decoded whole
HARNESS h_text_split() {
	stub::install();
	string w = symStr(P("n", 6)), e = b64(w);
	size_t k = P("k", 2), at = 0; string in;
	for (size_t i = 0; i < k; i++) {
		size_t left = e.size() - at, c = i + 1 == k ? left : 1 + vs_choice(left - (k - 1 - i));
		if (i) in += " "; in += "=?utf-8?B?" + e.substr(at, c) + "?="; at += c;
	}
	text t; t.parse(in);
	string whole; for (auto& x : t.getWordList()) whole += x->getBuffer();
	checkEq(whole, w, "Base64 data cut between encoded words is decoded whole");
	vs_reach("end");
}
