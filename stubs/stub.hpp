#pragma once
#include "vmime/vmime.hpp"
// Deterministic platform used in the symbolic build and in the replay build alike.
namespace stub {
extern vmime::shared_ptr<vmime::net::socketFactory> sockets;
extern vmime::shared_ptr<vmime::utility::fileSystemFactory> files;
extern unsigned long unixTime;
extern unsigned char randomByte;   // generateRandomBytes fills with this, incremented
void install();
}
