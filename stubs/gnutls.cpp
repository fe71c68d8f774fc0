// GnuTLS as a model: certificates are records of small facts, TLS records are a length byte and masked bytes
#include <gnutls/gnutls.h>
#include <gnutls/x509.h>
#include "vs.h"
#include "gnutls.hpp"
#include "stub.hpp"
#include <cerrno>
#include <cstring>
using std::string;
namespace stub { unsigned long tlsTime0 = 1325500000ul; bool tlsNoMd5 = false; std::vector<string> tlsChain; int tlsObjects = 0, tlsHandshake = 0; bool tlsDone = false, tlsClosed = false; size_t tlsRecord = 4; string tlsName; int tlsInterrupts = 0; }
using namespace stub;
struct gnutls_x509_crt_int { unsigned char b[C_SIZE]; };
struct gnutls_session_int { gnutls_transport_ptr_t ptr = nullptr; gnutls_push_func push = nullptr; gnutls_pull_func pull = nullptr; gnutls_errno_func err = nullptr; int eno = 0; string pending; size_t pendingData = 0; string in, data; bool eof = false; int dir = 0, hs = 0; std::vector<gnutls_datum_t> peers; };
static bool sameCert(const gnutls_x509_crt_int* a, const gnutls_x509_crt_int* b) { return memcmp(a->b, b->b, C_SIZE) == 0; }
static bool inTime(const gnutls_x509_crt_int* c) { unsigned long now = stub::unixTime; return vs_and(now >= tlsTime0 + c->b[C_FROM], now <= tlsTime0 + c->b[C_TO]); }
static int flush(gnutls_session_int* s) { s->dir = 1; while (!s->pending.empty()) { ssize_t n = s->push(s->ptr, s->pending.data(), s->pending.size()); if (n < 0) { int e = s->err ? s->err(s->ptr) : s->eno; return e == EAGAIN ? GNUTLS_E_AGAIN : GNUTLS_E_PUSH_ERROR; } vs_check((size_t)n <= s->pending.size(), "no more bytes are sent than given"); s->pending.erase(0, n); } return 0; }
static int fill(gnutls_session_int* s, size_t n) { s->dir = 0; while (s->in.size() < n) { char b[64]; size_t want = n - s->in.size(); if (want > sizeof b) want = sizeof b; ssize_t k = s->pull(s->ptr, b, want); if (k < 0) { int e = s->err ? s->err(s->ptr) : s->eno; return e == EAGAIN ? GNUTLS_E_AGAIN : GNUTLS_E_PULL_ERROR; } if (k == 0) return GNUTLS_E_PREMATURE_TERMINATION; vs_check((size_t)k <= want, "no more bytes are received than asked for"); s->in.append(b, k); } return 0; }
static bool interrupted() { if (tlsInterrupts <= 0) return false; if (!vs_choice(2)) return false; tlsInterrupts--; return true; }
extern "C" {
int gnutls_x509_crt_init(gnutls_x509_crt_t* c) { *c = new gnutls_x509_crt_int; memset((*c)->b, 0, C_SIZE); tlsObjects++; return 0; }
void gnutls_x509_crt_deinit(gnutls_x509_crt_t c) { if (c) { delete c; tlsObjects--; } }
int gnutls_x509_crt_import(gnutls_x509_crt_t c, const gnutls_datum_t* d, gnutls_x509_crt_fmt_t f) { if (d->size != C_SIZE || d->data[0] != (f == GNUTLS_X509_FMT_DER ? 'D' : 'P')) return GNUTLS_E_ASN1_DER_ERROR; memcpy(c->b, d->data, C_SIZE); c->b[0] = 'D'; return 0; }
int gnutls_x509_crt_list_import(gnutls_x509_crt_t* l, unsigned int* max, const gnutls_datum_t* d, gnutls_x509_crt_fmt_t f, unsigned) { // a concatenation; as the library does, DER is one certificate only
	if (f == GNUTLS_X509_FMT_DER) { if (*max < 1) return GNUTLS_E_SHORT_MEMORY_BUFFER; gnutls_x509_crt_init(&l[0]); int r = gnutls_x509_crt_import(l[0], d, f); if (r < 0) { gnutls_x509_crt_deinit(l[0]); return r; } *max = 1; return 1; }
	if (d->size == 0 || d->size % C_SIZE) return GNUTLS_E_BASE64_DECODING_ERROR; unsigned n = d->size / C_SIZE; for (unsigned i = 0; i < n; i++) if (d->data[i * C_SIZE] != 'P') return GNUTLS_E_BASE64_DECODING_ERROR; if (n > *max) { *max = n; return GNUTLS_E_SHORT_MEMORY_BUFFER; }
	for (unsigned i = 0; i < n; i++) { gnutls_x509_crt_init(&l[i]); memcpy(l[i]->b, d->data + i * C_SIZE, C_SIZE); l[i]->b[0] = 'D'; } *max = n; return n; }
int gnutls_x509_crt_export(gnutls_x509_crt_t c, gnutls_x509_crt_fmt_t f, void* out, size_t* n) { if (!out || *n < C_SIZE) { *n = C_SIZE; return GNUTLS_E_SHORT_MEMORY_BUFFER; } memcpy(out, c->b, C_SIZE); ((unsigned char*)out)[0] = f == GNUTLS_X509_FMT_DER ? 'D' : 'P'; *n = C_SIZE; return 0; }
int gnutls_x509_crt_get_serial(gnutls_x509_crt_t c, void* out, size_t* n) { if (*n < 1) { *n = 1; return GNUTLS_E_SHORT_MEMORY_BUFFER; } *(unsigned char*)out = c->b[C_ID]; *n = 1; return 0; }
unsigned gnutls_x509_crt_check_issuer(gnutls_x509_crt_t c, gnutls_x509_crt_t i) { return c->b[C_ISSUER] == i->b[C_SUBJECT]; }
int gnutls_x509_crt_verify(gnutls_x509_crt_t c, const gnutls_x509_crt_t* ca, unsigned n, unsigned flags, unsigned* out) {
	*out = 0; bool times = !(flags & GNUTLS_VERIFY_DISABLE_TIME_CHECKS);
	for (unsigned i = 0; i < n; i++) if (sameCert(c, ca[i])) { if (times && !(flags & GNUTLS_VERIFY_DISABLE_TRUSTED_TIME_CHECKS) && !inTime(ca[i])) *out = GNUTLS_CERT_INVALID | GNUTLS_CERT_EXPIRED; return 0; }
	for (unsigned i = 0; i < n; i++) if (c->b[C_ISSUER] == ca[i]->b[C_SUBJECT]) {
		bool v1 = (ca[i]->b[C_FLAGS] & 2) && ((flags & GNUTLS_VERIFY_ALLOW_ANY_X509_V1_CA_CRT) || (!(flags & GNUTLS_VERIFY_DO_NOT_ALLOW_X509_V1_CA_CRT) && ca[i]->b[C_ISSUER] == ca[i]->b[C_SUBJECT]));
		if (!(flags & GNUTLS_VERIFY_DISABLE_CA_SIGN) && !((ca[i]->b[C_FLAGS] & 1) || v1)) *out |= GNUTLS_CERT_INVALID | GNUTLS_CERT_SIGNER_NOT_CA;
		if (c->b[C_SIGKEY] != ca[i]->b[C_KEY]) *out |= GNUTLS_CERT_INVALID | GNUTLS_CERT_SIGNATURE_FAILURE;
		if (times && (!inTime(c) || (!(flags & GNUTLS_VERIFY_DISABLE_TRUSTED_TIME_CHECKS) && !inTime(ca[i])))) *out |= GNUTLS_CERT_INVALID | GNUTLS_CERT_EXPIRED;
		return 0; }
	*out = GNUTLS_CERT_INVALID | GNUTLS_CERT_SIGNER_NOT_FOUND; return 0; }
unsigned gnutls_x509_crt_check_hostname(gnutls_x509_crt_t c, const char* h) { return h[0] && !h[1] && (unsigned char)h[0] == c->b[C_HOST]; }
int gnutls_x509_crt_get_dn_by_oid(gnutls_x509_crt_t c, const char*, unsigned, unsigned, void* o, size_t* n) { ((char*)o)[0] = c->b[C_HOST]; ((char*)o)[1] = 0; *n = 1; return 0; }
int gnutls_x509_crt_get_subject_alt_name(gnutls_x509_crt_t, unsigned, void*, size_t*, unsigned*) { return GNUTLS_E_REQUESTED_DATA_NOT_AVAILABLE; }
time_t gnutls_x509_crt_get_activation_time(gnutls_x509_crt_t c) { return tlsTime0 + c->b[C_FROM]; }
time_t gnutls_x509_crt_get_expiration_time(gnutls_x509_crt_t c) { return tlsTime0 + c->b[C_TO]; }
int gnutls_x509_crt_get_fingerprint(gnutls_x509_crt_t c, gnutls_digest_algorithm_t a, void* o, size_t* n) { size_t w = a == GNUTLS_DIG_MD5 ? 16 : a == GNUTLS_DIG_SHA1 ? 20 : 32; if (!o || *n < w) { *n = w; return GNUTLS_E_SHORT_MEMORY_BUFFER; } if (a == GNUTLS_DIG_MD5 && tlsNoMd5) return GNUTLS_E_UNWANTED_ALGORITHM; memset(o, 0, w); if (a == GNUTLS_DIG_MD5) *(unsigned char*)o = c->b[C_MD5]; else memcpy(o, c->b, C_SIZE); *n = w; return 0; }
int gnutls_x509_crt_get_issuer_dn(gnutls_x509_crt_t c, char* o, size_t* n) { if (*n < 2) return GNUTLS_E_SHORT_MEMORY_BUFFER; o[0] = c->b[C_ISSUER]; o[1] = 0; *n = 1; return 0; }
int gnutls_x509_crt_get_version(gnutls_x509_crt_t c) { return c->b[C_FLAGS] & 2 ? 1 : 3; }
// sessions
int gnutls_global_init(void) { return 0; } void gnutls_global_deinit(void) {}
int gnutls_anon_allocate_client_credentials(gnutls_anon_client_credentials_t* c) { *c = nullptr; return 0; } void gnutls_anon_free_client_credentials(gnutls_anon_client_credentials_t) {}
int gnutls_certificate_allocate_credentials(gnutls_certificate_credentials_t* c) { *c = nullptr; return 0; } void gnutls_certificate_free_credentials(gnutls_certificate_credentials_t) {}
int gnutls_init(gnutls_session_t* s, unsigned) { *s = new gnutls_session_int; tlsObjects++; return 0; }
void gnutls_deinit(gnutls_session_t s) { delete s; tlsObjects--; }
void gnutls_dh_set_prime_bits(gnutls_session_t, unsigned) {}
int gnutls_priority_set_direct(gnutls_session_t, const char* p, const char**) { return strncmp(p, "NORMAL", 6) && strncmp(p, "SECURE", 6) ? GNUTLS_E_INVALID_REQUEST : 0; }
int gnutls_credentials_set(gnutls_session_t, gnutls_credentials_type_t, void*) { return 0; }
void gnutls_transport_set_ptr(gnutls_session_t s, gnutls_transport_ptr_t p) { s->ptr = p; }
void gnutls_transport_set_push_function(gnutls_session_t s, gnutls_push_func f) { s->push = f; }
void gnutls_transport_set_pull_function(gnutls_session_t s, gnutls_pull_func f) { s->pull = f; }
void gnutls_transport_set_errno_function(gnutls_session_t s, gnutls_errno_func f) { s->err = f; }
void gnutls_transport_set_errno(gnutls_session_t s, int e) { s->eno = e; }
int gnutls_server_name_set(gnutls_session_t, gnutls_server_name_type_t, const void* n, size_t l) { tlsName.assign((const char*)n, l); return 0; }
const char* gnutls_strerror(int) { return "error"; }
int gnutls_record_get_direction(gnutls_session_t s) { return s->dir; }
int gnutls_handshake(gnutls_session_t s) { if (interrupted()) return GNUTLS_E_INTERRUPTED; if (s->hs == 0) { s->pending = "\x01hi"; s->hs = 1; } if (s->hs == 1) { int r = flush(s); if (r < 0) return r; s->hs = 2; } if (s->hs == 2) { int r = fill(s, 3); if (r < 0) return r; if (s->in != "\x02ho") return GNUTLS_E_UNEXPECTED_PACKET; s->in.clear(); s->hs = 3; } if (tlsHandshake) return tlsHandshake; s->hs = 4; tlsDone = true; return 0; }
const gnutls_datum_t* gnutls_certificate_get_peers(gnutls_session_t s, unsigned* n) { if (!tlsDone || tlsChain.empty()) { *n = 0; return nullptr; } s->peers.clear(); for (auto& c : tlsChain) s->peers.push_back({ (unsigned char*)&c[0], (unsigned)c.size() }); *n = s->peers.size(); return s->peers.data(); }
ssize_t gnutls_record_send(gnutls_session_t s, const void* d, size_t n) {
	if (interrupted()) return GNUTLS_E_INTERRUPTED; if (s->hs != 4) return GNUTLS_E_INVALID_SESSION;
	if (s->pending.empty()) { size_t k = n < tlsRecord ? n : tlsRecord; s->pending += (char)k; for (size_t i = 0; i < k; i++) s->pending += (char)(((const char*)d)[i] ^ 0x55); s->pendingData = k; }
	int r = flush(s); if (r < 0) return r; return s->pendingData; }
ssize_t gnutls_record_recv(gnutls_session_t s, void* d, size_t n) {
	if (interrupted()) return GNUTLS_E_INTERRUPTED; if (s->hs != 4) return GNUTLS_E_INVALID_SESSION; if (s->data.empty() && s->eof) return 0;
	if (s->data.empty()) { int r = fill(s, 1); if (r < 0) return r; size_t k = (unsigned char)s->in[0]; r = fill(s, 1 + k); if (r < 0) return r; for (size_t i = 0; i < k; i++) s->data += (char)(s->in[1 + i] ^ 0x55); s->in.clear(); if (k == 0) { s->eof = true; return 0; } }
	size_t k = n < s->data.size() ? n : s->data.size(); memcpy(d, s->data.data(), k); s->data.erase(0, k); return k; }
int gnutls_bye(gnutls_session_t s, gnutls_close_request_t) { tlsClosed = true; s->pending += '\0'; int r = flush(s); if (r < 0) return r; return 0; }
}
