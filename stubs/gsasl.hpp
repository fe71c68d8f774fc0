#pragma once
#include <string>
namespace stub {
struct saslModel { virtual ~saslModel() {} virtual int step(int, const std::string&, std::string&) { return 0; } virtual bool encode(const std::string& i, std::string& o) { o = i; return true; } virtual bool decode(const std::string& i, std::string& o) { o = i; return true; } };
extern saslModel* sasl; extern int saslObjects;
}
