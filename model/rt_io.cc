// Console streams and the in-memory file table of the iostream model.
#include <iostream>
#include <map>
#include <string>
namespace {
struct Sink : std::streambuf { Sink() { sink_ = true; } };
Sink g_sink;
std::map<std::string, std::string>& files() { static std::map<std::string, std::string> f; return f; }
}
const std::string* sx_file_lookup(const std::string& n) { auto it = files().find(n); return it == files().end() ? nullptr : &it->second; }
void sx_file_store(const std::string& n, const std::string& c) { files()[n] = c; }
namespace std {
__attribute__((init_priority(101))) ostream cout(&g_sink);
__attribute__((init_priority(101))) ostream cerr(&g_sink);
__attribute__((init_priority(101))) ostream clog(&g_sink);
__attribute__((init_priority(101))) istream cin(&g_sink);
}
