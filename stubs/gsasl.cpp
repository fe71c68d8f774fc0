// GNU SASL as a model: PLAIN in one step, LOGIN in two, X-STEPS as the harness says; security layers as the harness says
#include <gsasl.h>
#include <string>
#include <cstdlib>
#include <cstring>
#include "gsasl.hpp"
struct Gsasl { Gsasl_callback_function cb = nullptr; void* hook = nullptr; };
struct Gsasl_session { Gsasl* ctx; std::string mech; int step = 0; std::string value; };
namespace stub { saslModel* sasl = nullptr; int saslObjects = 0; }
static int give(const std::string& s, char** out, size_t* n) { *out = (char*)std::malloc(s.size() + 1); std::memcpy(*out, s.data(), s.size()); (*out)[s.size()] = 0; *n = s.size(); return GSASL_OK; }
static bool known(const std::string& m) { return m == "PLAIN" || m == "LOGIN" || m == "X-STEPS"; }
static std::string ask(Gsasl_session* s, Gsasl_property p, int& rc) { s->value.clear(); rc = s->ctx->cb ? s->ctx->cb(s->ctx, s, p) : (int)GSASL_NO_CALLBACK; return s->value; }
extern "C" {
int gsasl_init(Gsasl** c) { *c = new Gsasl; stub::saslObjects++; return GSASL_OK; }
void gsasl_done(Gsasl* c) { if (c) { delete c; stub::saslObjects--; } }
int gsasl_client_support_p(Gsasl*, const char* n) { return known(n); }
int gsasl_client_mechlist(Gsasl*, char** out) { size_t n; return give("PLAIN LOGIN X-STEPS", out, &n); }
const char* gsasl_client_suggest_mechanism(Gsasl*, const char* l) { static const char* best[] = { "X-STEPS", "LOGIN", "PLAIN" }; std::string list = std::string(" ") + l + " "; for (const char* b : best) if (list.find(std::string(" ") + b + " ") != std::string::npos) return b; return nullptr; }
int gsasl_client_start(Gsasl* c, const char* m, Gsasl_session** s) { if (!known(m)) { *s = nullptr; return GSASL_UNKNOWN_MECHANISM; } *s = new Gsasl_session; (*s)->ctx = c; (*s)->mech = m; stub::saslObjects++; return GSASL_OK; }
void gsasl_finish(Gsasl_session* s) { if (s) { delete s; stub::saslObjects--; } }
void gsasl_callback_set(Gsasl* c, Gsasl_callback_function cb) { c->cb = cb; }
void gsasl_callback_hook_set(Gsasl* c, void* h) { c->hook = h; }
void* gsasl_callback_hook_get(Gsasl* c) { return c->hook; }
int gsasl_property_set(Gsasl_session* s, Gsasl_property, const char* v) { s->value = v; return GSASL_OK; }
void gsasl_free(void* p) { std::free(p); }
int gsasl_step(Gsasl_session* s, const char* in, size_t n, char** out, size_t* on) {
	*out = nullptr; *on = 0; int k = s->step++, r1 = 0, r2 = 0;
	if (s->mech == "PLAIN") { std::string u = ask(s, GSASL_AUTHID, r1); if (r1) return GSASL_NO_AUTHID; std::string p = ask(s, GSASL_PASSWORD, r2); if (r2) return GSASL_NO_PASSWORD; return give(std::string(1, '\0') + u + std::string(1, '\0') + p, out, on); }
	if (s->mech == "LOGIN") { if (k > 1) return GSASL_MECHANISM_CALLED_TOO_MANY_TIMES; std::string v = ask(s, k ? GSASL_PASSWORD : GSASL_AUTHID, r1); if (r1) return k ? GSASL_NO_PASSWORD : GSASL_NO_AUTHID; give(v, out, on); return k ? GSASL_OK : GSASL_NEEDS_MORE; }
	if (!stub::sasl) return GSASL_AUTHENTICATION_ERROR; std::string o; int rc = stub::sasl->step(k, std::string(in ? in : "", n), o); if (rc == GSASL_OK || rc == GSASL_NEEDS_MORE) give(o, out, on); return rc;
}
int gsasl_encode(Gsasl_session*, const char* in, size_t n, char** out, size_t* on) { std::string r(in, n); if (stub::sasl && !stub::sasl->encode(std::string(in, n), r)) return GSASL_INTEGRITY_ERROR; return give(r, out, on); }
int gsasl_decode(Gsasl_session*, const char* in, size_t n, char** out, size_t* on) { std::string r(in, n); if (stub::sasl && !stub::sasl->decode(std::string(in, n), r)) return GSASL_INTEGRITY_ERROR; return give(r, out, on); }
}
