#include "simweb.h"
#include "sim.h"
#include <civetweb.h>
#include <cstdarg>
#include <cstring>
#include <map>
#include <memory>
struct Handler { std::string uri; mg_request_handler h; void* cb; int busy = 0; };
struct mg_context { int port = 0; std::vector<std::unique_ptr<Handler>> hs; int inflight = 0; bool stop = false; };
struct mg_connection { mg_context* c; mg_request_info info; std::string body, out; size_t pos = 0; std::string method, uri, query; std::vector<std::pair<std::string, std::string>> hdr; };
static std::map<int, mg_context*>& ctxs() { static auto* m = new std::map<int, mg_context*>; return *m; }
static int nextPort = 40000;
static const int WORKERS = 10;
extern "C" {
unsigned mg_init_library(unsigned) { return 1; }
unsigned mg_exit_library(void) { return 1; }
struct mg_context* mg_start(const struct mg_callbacks*, void*, const char** o) {
	sim::Kernel k; int port = 0; for (int i = 0; o && o[i] && o[i + 1]; i += 2) if (!strcmp(o[i], "listening_ports")) { const char* p = strrchr(o[i + 1], ':'); port = atoi(p ? p + 1 : o[i + 1]); }
	if (port == 0) port = nextPort++; else if (ctxs().count(port)) return nullptr;
	auto* c = new mg_context; c->port = port; ctxs()[port] = c; return c;
}
void mg_stop(struct mg_context* c) {
	if (!c) return;
	{ sim::Kernel k; c->stop = true; ctxs().erase(c->port); }
	sim::wakeAll(&c->stop);
	while (c->inflight) sim::waitOn(c, ~0ull); // like civetweb, waits for every worker
	delete c;
}
int mg_get_server_ports(const struct mg_context* c, int n, struct mg_server_port* p) { if (n < 1) return -1; memset(p, 0, sizeof *p); p->protocol = 1; p->port = c->port; return 1; }
// Like civetweb, removing or replacing a handler waits until none of its requests is running.
void mg_set_request_handler(struct mg_context* c, const char* uri, mg_request_handler h, void* cb) {
	Handler* f = nullptr;
	{ sim::Kernel k; for (auto& x : c->hs) if (x->uri == uri) f = x.get(); if (!f) { if (h) { c->hs.push_back(std::make_unique<Handler>(Handler{ uri, h, cb })); } return; } f->h = nullptr; }
	while (f->busy) sim::waitOn(f, ~0ull);
	{ sim::Kernel k; if (h) { f->h = h; f->cb = cb; } else for (size_t i = 0; i < c->hs.size(); i++) if (c->hs[i].get() == f) { c->hs.erase(c->hs.begin() + i); break; } }
}
const struct mg_request_info* mg_get_request_info(const struct mg_connection* c) { return &c->info; }
const char* mg_get_header(const struct mg_connection* c, const char* n) { for (auto& h : c->hdr) if (!strcasecmp(h.first.c_str(), n)) return h.second.c_str(); return nullptr; }
int mg_read(struct mg_connection* c, void* b, size_t n) { size_t k = std::min(n, c->body.size() - c->pos); memcpy(b, c->body.data() + c->pos, k); c->pos += k; return (int)k; }
int mg_write(struct mg_connection* c, const void* b, size_t n) { c->out.append((const char*)b, n); return (int)n; }
int mg_printf(struct mg_connection* c, const char* f, ...) { char b[8192]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); c->out.append(b, std::min<size_t>(n, sizeof b - 1)); return n; }
}
namespace simweb {
std::vector<int> ports() { sim::Kernel k; std::vector<int> v; for (auto& x : ctxs()) v.push_back(x.first); return v; }
Resp request(int port, const std::string& method, const std::string& uri, const std::string& query, const std::string& body, const std::vector<std::pair<std::string, std::string>>& headers) {
	sim::yield(); Resp r; mg_context* c; mg_connection* cn; Handler* f = nullptr; mg_request_handler h = nullptr; void* cb = nullptr;
	{ sim::Kernel k; auto it = ctxs().find(port); if (it == ctxs().end() || it->second->stop) return r; c = it->second;
	  if (c->inflight >= WORKERS) return r; // backlog: refused rather than queued
	  c->inflight++;
	  size_t best = 0; for (auto& x : c->hs) { bool m = x->h && (uri == x->uri || (uri.compare(0, x->uri.size(), x->uri) == 0 && (x->uri.back() == '/' || uri[x->uri.size()] == '/'))); if (m && x->uri.size() >= best) { best = x->uri.size(); f = x.get(); } } if (f) { h = f->h; cb = f->cb; f->busy++; }
	  cn = new mg_connection; cn->c = c; cn->body = body; cn->method = method; cn->uri = uri; cn->query = query; cn->hdr = headers; memset(&cn->info, 0, sizeof cn->info);
	  cn->info.request_method = cn->method.c_str(); cn->info.request_uri = cn->info.local_uri = cn->uri.c_str(); cn->info.query_string = query.empty() ? nullptr : cn->query.c_str(); cn->info.content_length = body.empty() ? -1 : (long long)body.size(); cn->info.server_port = port; strcpy(cn->info.remote_addr, "127.0.0.1"); }
	int code = 404;
	if (h) code = h(cn, cb);
	{ sim::Kernel k; r.refused = false; r.code = code; r.raw = cn->out; size_t p = r.raw.find("\r\n\r\n"); r.body = p == std::string::npos ? "" : r.raw.substr(p + 4); delete cn; c->inflight--; if (f) f->busy--; }
	if (f) sim::wakeAll(f);
	if (c->inflight == 0) sim::wakeAll(c);
	sim::yield(); return r;
}
}
