// A Mosquitto version 2 auth plugin that writes one line per callback and answers from a file of rules.
#include <fcntl.h>
#include <unistd.h>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>

struct mosquitto_auth_opt { char *key; char *value; };
struct Ud { std::string log, rules; };

static std::string hex(const char *s)
{
    static const char *d = "0123456789abcdef";
    std::string r = "x";
    if (!s) return "null";
    for (; *s; s++) { unsigned char c = *s; r += d[c >> 4]; r += d[c & 15]; }
    return r;
}

static void line(void *p, std::string s)
{
    Ud *u = static_cast<Ud*>(p);
    s += "\n";
    int fd = open(u->log.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0600);
    if (fd >= 0) { if (write(fd, s.data(), s.size()) < 0) {} close(fd); }
}

static int rule(void *p, const std::vector<std::string> &key)
{
    std::ifstream f(static_cast<Ud*>(p)->rules);
    for (std::string l; std::getline(f, l);)
    {
        std::istringstream is(l);
        std::vector<std::string> w;
        for (std::string x; is >> x;) w.push_back(x);
        if (w.size() != key.size() + 1) continue;
        bool ok = true;
        for (size_t i = 0; i < key.size(); i++) ok = ok && (w[i] == key[i] || w[i] == "*");
        if (ok) return w.back() == "throw" ? 13 : std::stoi(w.back());
    }
    return 0;
}

#define API extern "C" __attribute__((visibility("default")))

API int mosquitto_auth_plugin_version(void) { return 2; }
API int mosquitto_auth_plugin_init(void **user_data, mosquitto_auth_opt *opts, int n)
{
    Ud *u = new Ud;
    for (int i = 0; i < n; i++)
    {
        if (!strcmp(opts[i].key, "log")) u->log = opts[i].value;
        if (!strcmp(opts[i].key, "rules")) u->rules = opts[i].value;
    }
    *user_data = u;
    return 0;
}
API int mosquitto_auth_plugin_cleanup(void *u, mosquitto_auth_opt *, int) { delete static_cast<Ud*>(u); return 0; }
API int mosquitto_auth_security_init(void *u, mosquitto_auth_opt *, int, bool reload)
{
    if (!reload) return 0;
    line(u, "init 1");
    return rule(u, {"init"});
}
API int mosquitto_auth_security_cleanup(void *, mosquitto_auth_opt *, int, bool) { return 0; }
API int mosquitto_auth_acl_check(void *u, const char *cid, const char *user, const char *topic, int access)
{
    line(u, "acl " + std::to_string(access) + " " + hex(cid) + " " + hex(user) + " " + hex(topic) + " s x x 0 0 - - - - u");
    return rule(u, {"acl", std::to_string(access), hex(cid), hex(topic)});
}
API int mosquitto_auth_unpwd_check(void *u, const char *user, const char *pw)
{
    line(u, std::string("login x ") + hex(user) + " " + hex(pw) + " u");
    return rule(u, {"login", hex(user)});
}
API int mosquitto_auth_psk_key_get(void *, const char *, const char *, char *, int) { return 1; }
