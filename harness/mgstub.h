// Stands in for civetweb: requests are handed to the registered handlers directly and what they write is kept. Include once, in the check's own source file.
#pragma once
#include <civetweb.h>
#include <cstdarg>
#include <cstring>
#include <map>
#include <string>
#include <vector>
struct mg_connection { std::string method = "POST", uri, body; bool hasQuery = false; std::string query; std::map<std::string, std::string> headers; long long length = -2; size_t at = 0; std::string out; mg_request_info info; int fails = 0; size_t chunk = 0; /* most bytes given by one read, 0: any number */ };
struct mg_context { int port = 0; std::map<std::string, std::pair<mg_request_handler, void*>> handlers; bool live = false; };
namespace mg {
inline std::vector<mg_context*>& started() { static std::vector<mg_context*> v; return v; }
// as civetweb does: the longest registered URI that is the request's URI, or a directory of it
inline std::pair<mg_request_handler, void*> route(mg_context* c, const std::string& uri) { std::pair<mg_request_handler, void*> best{ nullptr, nullptr }; size_t len = 0; for (auto& h : c->handlers) { const std::string& u = h.first; bool hit = u == uri || (uri.compare(0, u.size(), u) == 0 && (u.back() == '/' || uri[u.size()] == '/')); if (hit && u.size() >= len) { best = h.second; len = u.size(); } } return best; }
struct Reply { bool handled = false; int code = 0; std::string head, body; std::map<std::string, std::string> headers; std::string wrong; };
// splits what was written into one response; wrong says why that cannot be done
inline Reply split(const std::string& out) {
    Reply r; size_t e = out.find("\r\n\r\n"); if (e == out.npos) { r.wrong = "no header"; return r; } r.head = out.substr(0, e); r.body = out.substr(e + 4); size_t l = r.head.find("\r\n"); std::string first = r.head.substr(0, l); if (first.compare(0, 9, "HTTP/1.1 ") || first.size() < 13) { r.wrong = "bad status line " + first; return r; } r.code = atoi(first.c_str() + 9);
    while (l != r.head.npos) { size_t n = r.head.find("\r\n", l + 2); std::string h = r.head.substr(l + 2, n == r.head.npos ? n : n - l - 2); size_t c = h.find(": "); if (c == h.npos) { r.wrong = "bad header " + h; return r; } r.headers[h.substr(0, c)] = h.substr(c + 2); l = n; }
    auto it = r.headers.find("Content-Length"); if (it == r.headers.end()) r.wrong = "no Content-Length"; else if (it->second != std::to_string(r.body.size())) r.wrong = "Content-Length " + it->second + " but " + std::to_string(r.body.size()) + " bytes"; return r;
}
inline Reply ask(mg_context* ctx, mg_connection& c) { auto h = route(ctx, c.uri); Reply r; if (!h.first) return r; if (c.length == -2) c.length = (long long)c.body.size(); memset(&c.info, 0, sizeof c.info); c.info.request_method = c.method.c_str(); c.info.request_uri = c.info.local_uri = c.uri.c_str(); c.info.query_string = c.hasQuery ? c.query.c_str() : nullptr; c.info.content_length = c.length; h.first(&c, h.second); r = split(c.out); r.handled = true; return r; }
}
extern "C" {
unsigned mg_init_library(unsigned) { return 1; }
unsigned mg_exit_library(void) { return 1; }
struct mg_context* mg_start(const struct mg_callbacks*, void*, const char** o) { auto* c = new mg_context; static int next = 20000; for (; *o; o += 2) if (!strcmp(o[0], "listening_ports")) { const char* p = strrchr(o[1], ':'); c->port = atoi(p ? p + 1 : o[1]); } if (!c->port) c->port = next++; c->live = true; mg::started().push_back(c); return c; }
void mg_stop(struct mg_context* c) { for (auto& x : mg::started()) if (x == c) { x = mg::started().back(); mg::started().pop_back(); delete c; return; } }
int mg_get_server_ports(const struct mg_context* c, int, struct mg_server_port* p) { memset(p, 0, sizeof *p); p->port = c->port; return 1; }
void mg_set_request_handler(struct mg_context* c, const char* uri, mg_request_handler h, void* d) { c->handlers[uri] = { h, d }; }
const struct mg_request_info* mg_get_request_info(const struct mg_connection* c) { return &c->info; }
const char* mg_get_header(const struct mg_connection* c, const char* n) { auto it = c->headers.find(n); return it == c->headers.end() ? nullptr : it->second.c_str(); }
// never more than the declared length, as civetweb
int mg_read(struct mg_connection* c, void* buf, size_t n) { size_t left = c->length < 0 ? c->body.size() : std::min((size_t)c->length, c->body.size()); left -= std::min(left, c->at); n = std::min(n, left); if (c->chunk) n = std::min(n, c->chunk); memcpy(buf, c->body.data() + c->at, n); c->at += n; return (int)n; }
int mg_write(struct mg_connection* c, const void* p, size_t n) { c->out.append((const char*)p, n); return (int)n; }
int mg_printf(struct mg_connection* c, const char* f, ...) { va_list a; va_start(a, f); char b[8192]; int n = vsnprintf(b, sizeof b, f, a); va_end(a); if (n > 0) c->out.append(b, std::min((size_t)n, sizeof b - 1)); return n; }
}
