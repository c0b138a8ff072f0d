// The Tor daemon is never started in the simulation: ChildProcess is a stub.
#include <Common/ChildProcess.h>
namespace reproc { class process {}; }
ChildProcess::ChildProcess() : m_pProcess(nullptr) {}
ChildProcess::~ChildProcess() {}
ChildProcess::UCPtr ChildProcess::Create(const std::vector<std::string>&) { return nullptr; }
bool ChildProcess::IsRunning() const noexcept { return false; }
int ChildProcess::GetExitStatus() const noexcept { return -1; }
