// In-process HTTP server standing in for civetweb: requests are handed to the registered handlers on simulated threads.
#pragma once
#include <string>
#include <vector>
#include <utility>
namespace simweb {
struct Resp { bool refused = true; int code = 0; std::string raw, body; };
// Runs one request; blocks the calling (simulated) thread until the handler returned.
Resp request(int port, const std::string& method, const std::string& uri, const std::string& query, const std::string& body, const std::vector<std::pair<std::string, std::string>>& headers = {});
std::vector<int> ports();
}
