#include "stub.hpp"
#include "vmime/platform.hpp"
#include "vmime/utility/sync/criticalSection.hpp"
using namespace vmime;
namespace stub {
shared_ptr<net::socketFactory> sockets;
shared_ptr<utility::fileSystemFactory> files;
unsigned long unixTime = 1325500000ul;
unsigned char randomByte = 7;
struct crit : public utility::sync::criticalSection { void lock() override {} void unlock() override {} };
struct handler : public platform::handler {
	unsigned long getUnixTime() const override { return unixTime; }
	const datetime getCurrentLocalTime() const override { return datetime(2012, 1, 2, 10, 26, 40, 0); }
	const string getHostName() const override { return "host.example"; }
	unsigned int getProcessId() const override { return 4242; }
	uintptr_t getThreadId() const override { return 1; }
	const vmime::charset getLocalCharset() const override { return vmime::charset("utf-8"); }
	shared_ptr<net::socketFactory> getSocketFactory() override { return sockets; }
	shared_ptr<utility::fileSystemFactory> getFileSystemFactory() override { return files; }
	shared_ptr<utility::childProcessFactory> getChildProcessFactory() override { return null; }
	void generateRandomBytes(unsigned char* b, const unsigned int n) override { for (unsigned int i = 0; i < n; i++) b[i] = randomByte++; }
	shared_ptr<utility::sync::criticalSection> createCriticalSection() override { return make_shared<crit>(); }
};
void install() { platform::setHandler<handler>(); }
}
