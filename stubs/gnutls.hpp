#pragma once
#include <string>
#include <vector>
// GnuTLS as a model. A certificate is [tag 'D'][identity][subject][issuer][key][signing key][flags: 1 CA, 2 version 1][activation][expiration][host][md5]
namespace stub {
enum { C_TAG, C_ID, C_SUBJECT, C_ISSUER, C_KEY, C_SIGKEY, C_FLAGS, C_FROM, C_TO, C_HOST, C_MD5, C_SIZE };
extern unsigned long tlsTime0; // the dates of certificates count from here
extern bool tlsNoMd5;          // as in FIPS mode
extern std::vector<std::string> tlsChain; // the certificates the peer presents
extern int tlsObjects;         // sessions and certificates not released
extern int tlsHandshake;       // 0 succeeds, else the error it ends with
extern bool tlsDone;           // the handshake is complete
extern size_t tlsRecord;       // the most bytes a record holds
extern std::string tlsName;    // the server name asked for
extern bool tlsClosed;         // a closing alert was sent
extern int tlsInterrupts;      // how many calls may be interrupted
}
