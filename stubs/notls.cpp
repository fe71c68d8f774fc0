// TLS properties without GnuTLS, for harnesses that create services but never start TLS
#include "vmime/vmime.hpp"
#include "vmime/net/tls/TLSProperties.hpp"
namespace vmime { namespace net { namespace tls {
TLSProperties::TLSProperties() {}
TLSProperties::TLSProperties(const TLSProperties&) : object() {}
} } }
