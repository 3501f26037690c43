// A plugin that writes one line per callback and answers from a file of rules that is read again each time.
// PV: plugin interface version (1..5).
#include "flashmq_public.h"
#include <chrono>
#include <optional>
#include <string_view>
#include <unordered_map>
#include <fcntl.h>
#include <unistd.h>
#include <pthread.h>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <thread>

using UP = std::vector<std::pair<std::string, std::string>>;
using Subtopics = std::vector<std::string>;
using OptS = std::optional<std::string>;

struct Td { pthread_t owner; std::string log, rules; };

static std::string hex(std::string_view s)
{
    static const char *d = "0123456789abcdef";
    std::string r = "x";
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}

static std::string opt(const OptS &s) { return s ? hex(std::string_view(*s)) : "-"; }

static std::string unhex(const std::string &s)
{
    std::string r;
    for (size_t i = 1; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}

static std::string ups(const UP *u)
{
    std::string r = "u";
    if (u) for (auto &p : *u) r += "," + hex(p.first) + "=" + hex(p.second);
    return r;
}

static UP unups(const std::string &s)
{
    UP r;
    std::istringstream is(s);
    std::string part;
    while (std::getline(is, part, ','))
    {
        size_t i = part.find('=');
        if (i == std::string::npos) continue;
        r.emplace_back(unhex(part.substr(0, i)), unhex(part.substr(i + 1)));
    }
    return r;
}

static std::string sts(const Subtopics &t)
{
    std::string r = "s";
    for (auto &s : t) r += "," + hex(s);
    return r;
}

static void line(void *td, std::string s)
{
    Td *t = static_cast<Td*>(td);
    if (!pthread_equal(t->owner, pthread_self())) s += " BADTHREAD";
    s += "\n";
    int fd = open(t->log.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0600);
    if (fd >= 0) { if (write(fd, s.data(), s.size()) < 0) {} close(fd); }
}

static std::vector<std::string> rule(void *td, const std::vector<std::string> &key, std::vector<std::vector<std::string>> *all = nullptr)
{
    Td *t = static_cast<Td*>(td);
    std::ifstream f(t->rules);
    for (std::string l; std::getline(f, l);)
    {
        std::istringstream is(l);
        std::vector<std::string> w;
        for (std::string x; is >> x;) w.push_back(x);
        if (w.size() < key.size()) continue;
        bool ok = true;
        for (size_t i = 0; i < key.size(); i++) ok = ok && (w[i] == key[i] || w[i] == "*");
        if (!ok) continue;
        w.erase(w.begin(), w.begin() + key.size());
        if (!all) return w;
        all->push_back(w);
    }
    return {};
}

static AuthResult res(const std::string &s)
{
    if (s == "throw") throw std::runtime_error("thrown by the plugin");
    return static_cast<AuthResult>(std::stoi(s));
}

static void command(void *td, const std::vector<std::string> &w)
{
    const std::string c = w[0];
    if (c == "publish")       // topic qos retain payload expiry up resp corr ctype
    {
        UP up = unups(w[6]);
        std::string resp = unhex(w[7]), corr = unhex(w[8]), ct = unhex(w[9]);
        flashmq_publish_message(unhex(w[1]), std::stoi(w[2]), w[3] == "1", unhex(w[4]), std::stoul(w[5]), w[6] == "-" ? nullptr : &up, w[7] == "-" ? nullptr : &resp,
                                w[8] == "-" ? nullptr : &corr, w[9] == "-" ? nullptr : &ct);
        return;
    }
    std::weak_ptr<Session> s;
    flashmq_get_session_pointer(unhex(w[1]), unhex(w[2]), s);
    if (s.expired()) { line(td, "nosession"); return; }
    if (c == "remove") flashmq_plugin_remove_client_v4(s, w[3] == "1", static_cast<ServerDisconnectReasons>(std::stoi(w[4])));
    else if (c == "addsub") { bool r = flashmq_plugin_add_subscription(s, unhex(w[3]), std::stoi(w[4]), w[5] == "1", w[6] == "1", std::stoul(w[7])); line(td, r ? "added" : "notadded"); }
    else if (c == "remsub") flashmq_plugin_remove_subscription_v4(s, unhex(w[3]));
}

static void commands(void *td, const std::string &topic)
{
    std::vector<std::vector<std::string>> all;
    rule(td, {"do", hex(topic)}, &all);
    for (auto &w : all)
    {
        bool own = w[0] == "thread";
        if (own) w.erase(w.begin());
        auto f = [&] { try { command(td, w); } catch (std::exception &ex) { line(td, "cmdthrow"); } };
        if (own) { std::thread t(f); t.join(); }
        else f();
    }
}

static void later(const std::vector<std::string> &w, size_t i, const std::weak_ptr<Client> &client, const std::string &method)
{
    // async <how> <delay> <result> <returndata>
    const std::string how = w[i];
    const uint32_t delay = std::stoul(w[i + 1]);
    const AuthResult r = static_cast<AuthResult>(std::stoi(w[i + 2]));
    const std::string data = unhex(w[i + 3]);
    if (how == "task") flashmq_add_task([=] { flashmq_continue_async_authentication_v4(client, r, method, data, 0); }, delay);
    else if (how == "delay") flashmq_continue_async_authentication_v4(client, r, method, data, delay);
    else if (how == "thread") { std::thread t([=] { flashmq_continue_async_authentication_v4(client, r, method, data, delay); }); t.join(); }
}

static AuthResult acl(void *td, AclAccess access, const std::string &cid, const std::string &user, const std::string &topic, const Subtopics &st, const std::string &share,
                      std::string_view payload, uint8_t qos, bool retain, const OptS &corr, const OptS &resp, const OptS &ct,
                      const std::optional<std::chrono::time_point<std::chrono::steady_clock>> exp, const UP *up)
{
    const std::string a = std::to_string(static_cast<int>(access));
    std::string e = "-";
    if (exp) e = std::to_string(std::chrono::duration_cast<std::chrono::milliseconds>(*exp - std::chrono::steady_clock::now()).count());
    line(td, "acl " + a + " " + hex(cid) + " " + hex(user) + " " + hex(topic) + " " + sts(st) + " " + hex(share) + " " + hex(payload) + " " + std::to_string(qos) + " " + (retain ? "1" : "0") + " "
         + opt(corr) + " " + opt(resp) + " " + opt(ct) + " " + e + " " + ups(up));
    if (access == AclAccess::write) commands(td, topic);
    auto w = rule(td, {"acl", a, hex(cid), hex(topic)});
    return w.empty() ? AuthResult::success : res(w[0]);
}

static bool altpub(void *td, const std::string &cid, std::string &topic, const Subtopics &st, std::string_view payload, uint8_t &qos, bool &retain, OptS *corr, OptS *resp, OptS *ct, UP *up)
{
    line(td, "altpub " + hex(cid) + " " + hex(topic) + " " + sts(st) + " " + hex(payload) + " " + std::to_string(qos) + " " + (retain ? "1" : "0") + " "
         + opt(corr ? *corr : OptS()) + " " + opt(resp ? *resp : OptS()) + " " + opt(ct ? *ct : OptS()) + " " + ups(up));
    auto w = rule(td, {"altpub", hex(cid), hex(topic)});
    if (w.empty()) return false;
    if (w[0] == "throw") res("throw");
    if (w[1] != "-") topic = unhex(w[1]);
    if (w[2] != "-") qos = std::stoi(w[2]);
    if (w[3] != "-") retain = w[3] == "1";
    auto ch = [&](OptS *o, const std::string &v) { if (o && v != "-") { if (v == "none") o->reset(); else *o = unhex(v); } };
    ch(corr, w[4]); ch(resp, w[5]); ch(ct, w[6]);
    if (up && w[7] != "-") *up = unups(w[7]);
    return w[0] == "1";
}

extern "C"
{

API int flashmq_plugin_version() { return PV; }

API void flashmq_plugin_allocate_thread_memory(void **td, std::unordered_map<std::string, std::string> &opts)
{
    *td = new Td { pthread_self(), opts["log"], opts["rules"] };
    line(*td, "alloc " + hex(opts["extra"]));
}

API void flashmq_plugin_deallocate_thread_memory(void *td, std::unordered_map<std::string, std::string> &)
{
    line(td, "dealloc");
    delete static_cast<Td*>(td);
}

API void flashmq_plugin_init(void *td, std::unordered_map<std::string, std::string> &opts, bool reloading)
{
    line(td, std::string("init ") + (reloading ? "1 " : "0 ") + hex(opts["extra"]));
    auto w = rule(td, {"init"});
    if (!w.empty()) res(w[0]);
}

API void flashmq_plugin_deinit(void *td, std::unordered_map<std::string, std::string> &, bool reloading) { line(td, std::string("deinit ") + (reloading ? "1" : "0")); }

API AuthResult flashmq_plugin_login_check(void *td, const std::string &cid, const std::string &user, const std::string &pw, const UP *up, const std::weak_ptr<Client> &client)
{
    line(td, "login " + hex(cid) + " " + hex(user) + " " + hex(pw) + " " + ups(up));
    auto w = rule(td, {"login", hex(cid)});
    if (w.empty()) return AuthResult::success;
    if (w[0] == "async") { later(w, 1, client, ""); return AuthResult::async; }
    return res(w[0]);
}

API AuthResult flashmq_plugin_extended_auth(void *td, const std::string &cid, ExtendedAuthStage stage, const std::string &method, const std::string &data, const UP *up, std::string &ret, std::string &user,
                                            const std::weak_ptr<Client> &client)
{
    line(td, "ext " + hex(cid) + " " + std::to_string(static_cast<int>(stage)) + " " + hex(method) + " " + hex(data) + " " + ups(up) + " " + hex(user));
    auto w = rule(td, {"ext", hex(cid), std::to_string(static_cast<int>(stage))});
    if (w.empty()) return AuthResult::login_denied;
    // <newuser> then either <result> <returndata> or async ...
    if (w[0] != "-") user = unhex(w[0]);
    if (w[1] == "async") { later(w, 2, client, method); return AuthResult::async; }
    if (w[2] != "-") ret = unhex(w[2]);
    return res(w[1]);
}

API bool flashmq_plugin_alter_subscription(void *td, const std::string &cid, std::string &topic, const Subtopics &st, uint8_t &qos, const UP *up)
{
    line(td, "altsub " + hex(cid) + " " + hex(topic) + " " + sts(st) + " " + std::to_string(qos) + " " + ups(up));
    auto w = rule(td, {"altsub", hex(cid), hex(topic)});
    if (w.empty()) return false;
    if (w[0] == "throw") res("throw");
    if (w[1] != "-") topic = unhex(w[1]);
    if (w[2] != "-") qos = std::stoi(w[2]);
    return w[0] == "1";
}

API void flashmq_plugin_client_disconnected(void *td, const std::string &cid)
{
    line(td, "gone " + hex(cid));
    auto w = rule(td, {"gone", hex(cid)});
    if (!w.empty()) res(w[0]);
}

#if PV >= 4
API void flashmq_plugin_on_unsubscribe(void *td, const std::weak_ptr<Session> &session, const std::string &cid, const std::string &user, const std::string &topic, const Subtopics &st,
                                       const std::string &share, const UP *up)
{
    line(td, "unsub " + hex(cid) + " " + hex(user) + " " + hex(topic) + " " + sts(st) + " " + hex(share) + " " + ups(up) + (session.expired() ? " NOSESSION" : ""));
    auto w = rule(td, {"unsub", hex(cid)});
    if (!w.empty()) res(w[0]);
}
#endif

#if PV == 1
API bool flashmq_plugin_alter_publish(void *td, const std::string &cid, std::string &topic, const Subtopics &st, uint8_t &qos, bool &retain, UP *up)
{ return altpub(td, cid, topic, st, {}, qos, retain, nullptr, nullptr, nullptr, up); }
API AuthResult flashmq_plugin_acl_check(void *td, const AclAccess access, const std::string &cid, const std::string &user, const std::string &topic, const Subtopics &st, const uint8_t qos,
                                        const bool retain, const UP *up)
{ return acl(td, access, cid, user, topic, st, "", {}, qos, retain, {}, {}, {}, {}, up); }
#elif PV == 2
API bool flashmq_plugin_alter_publish(void *td, const std::string &cid, std::string &topic, const Subtopics &st, std::string_view payload, uint8_t &qos, bool &retain, UP *up)
{ return altpub(td, cid, topic, st, payload, qos, retain, nullptr, nullptr, nullptr, up); }
API AuthResult flashmq_plugin_acl_check(void *td, const AclAccess access, const std::string &cid, const std::string &user, const std::string &topic, const Subtopics &st, std::string_view payload,
                                        const uint8_t qos, const bool retain, const UP *up)
{ return acl(td, access, cid, user, topic, st, "", payload, qos, retain, {}, {}, {}, {}, up); }
#else
#if PV == 5
API bool flashmq_plugin_alter_publish(void *td, const std::string &cid, std::string &topic, const Subtopics &st, std::string_view payload, uint8_t &qos, bool &retain, OptS &corr, OptS &resp, OptS &ct, UP *up)
{ return altpub(td, cid, topic, st, payload, qos, retain, &corr, &resp, &ct, up); }
API AuthResult flashmq_plugin_acl_check(void *td, const AclAccess access, const std::string &cid, const std::string &user, const std::string &topic, const Subtopics &st, const std::string &share,
                                        std::string_view payload, const uint8_t qos, const bool retain, const OptS &corr, const OptS &resp, const OptS &ct,
                                        const std::optional<std::chrono::time_point<std::chrono::steady_clock>> exp, const UP *up)
{ return acl(td, access, cid, user, topic, st, share, payload, qos, retain, corr, resp, ct, exp, up); }
#else
API bool flashmq_plugin_alter_publish(void *td, const std::string &cid, std::string &topic, const Subtopics &st, std::string_view payload, uint8_t &qos, bool &retain, const OptS &corr, const OptS &resp, UP *up)
{
    OptS c = corr, r = resp;
    return altpub(td, cid, topic, st, payload, qos, retain, &c, &r, nullptr, up);
}
#if PV == 4
API AuthResult flashmq_plugin_acl_check(void *td, const AclAccess access, const std::string &cid, const std::string &user, const std::string &topic, const Subtopics &st, const std::string &share,
                                        std::string_view payload, const uint8_t qos, const bool retain, const OptS &corr, const OptS &resp, const UP *up)
{ return acl(td, access, cid, user, topic, st, share, payload, qos, retain, corr, resp, {}, {}, up); }
#else
API AuthResult flashmq_plugin_acl_check(void *td, const AclAccess access, const std::string &cid, const std::string &user, const std::string &topic, const Subtopics &st, std::string_view payload,
                                        const uint8_t qos, const bool retain, const OptS &corr, const OptS &resp, const UP *up)
{ return acl(td, access, cid, user, topic, st, "", payload, qos, retain, corr, resp, {}, {}, up); }
#endif
#endif
#endif

}
