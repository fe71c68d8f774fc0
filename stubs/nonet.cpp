// For harnesses that use no messaging: keeps the network services out of the link.
#include "vmime/net/serviceFactory.hpp"
namespace vmime { namespace net { shared_ptr<serviceFactory> serviceFactory::getInstance() { return shared_ptr<serviceFactory>(); } } }
