// A stand-in for the ZeroMQ library: contexts, sockets and messages whose use is recorded; calls fail when the harness asks for it.
#pragma once
#include "common.h"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <mutex>
#include <thread>
#include <lamppost/bus/Bus.h>
#include <lamppost/plugin/PluginInstance.h>
#include <lamppost/plugin/PluginTemplateInfo.h>
#include <zmq.h>
typedef std::vector<Str> Frames; typedef std::chrono::milliseconds ms; using lp::bus::Bus;
struct ZCtx { unsigned open = 0; bool terminated = false; };
struct ZSock { ZCtx* ctx; int type; bool open = true, broken = false; std::vector<Str> bound, connected, subs; std::vector<Frames> in, sent; size_t at = 0, part = 0; bool more = false; Frames pending; int failRecvAt = -1; unsigned recvs = 0, interrupts = 0; };
struct ZBuf { char* data; size_t size; bool more; };
struct ZMsg { uint64_t tag; ZBuf* b; };
enum : uint64_t { ZLive = 0x5a4d515f4c495645ull, ZDead = 0x5a4d515f44454144ull };
static std::vector<ZCtx*>& zctxs() { static std::vector<ZCtx*>* v = new std::vector<ZCtx*>; return *v; }
static std::vector<ZSock*>& zsocks() { static std::vector<ZSock*>* v = new std::vector<ZSock*>; return *v; }
static std::atomic<int> gBufs(0); static int gFaults = 0; static unsigned gFailed = 0; static bool gTermEintr = false; static std::function<void(ZSock*)> gOnSub;   // faults left, faults taken, what to do with a new subscriber socket
static bool fault(const char* what) { if (gFaults <= 0 || !lps_choose(what, 2)) return false; gFaults--; gFailed++; return true; }
static ZSock* zs(void* s) { if (!s) { errno = ENOTSOCK; return nullptr; } ZSock* z = (ZSock*)s; if (!z->open) { lps_fail("a socket is not used after being closed"); errno = ENOTSOCK; return nullptr; } return z; }
static ZMsg* zm(zmq_msg_t* m) { return (ZMsg*)m; }
static ZBuf* zbuf(size_t n) { ZBuf* b = new ZBuf; b->data = (char*)malloc(n ? n : 1); b->size = n; b->more = false; gBufs++; return b; }
static void zfree(ZBuf* b) { if (b) { free(b->data); delete b; gBufs--; } }
static bool wanted(ZSock* s, const Frames& f);
static bool gNet = false; static std::mutex& gNetLock() { static std::mutex* m = new std::mutex; return *m; }   // sockets of one process that are joined by their endpoints' ports
static Str zport(const Str& a) { return a.substr(a.rfind(':') + 1); }
static bool zjoined(const std::vector<Str>& a, const std::vector<Str>& b) { for (auto& x : a) for (auto& y : b) if (zport(x) == zport(y)) return true; return false; }
static void zroute(ZSock* s, const Frames& f) { for (auto* r : zsocks()) if (r->open && r->type == ZMQ_SUB && (zjoined(s->bound, r->connected) || zjoined(s->connected, r->bound))) r->in.push_back(f); }
static bool wanted(ZSock* s, const Frames& f) { for (auto& p : s->subs) if (f[0].size() >= p.size() && f[0].compare(0, p.size(), p) == 0) return true; return false; }
static bool zsend(ZSock* s, const char* p, size_t n, int flags) { std::unique_lock<std::mutex> l; if (gNet) l = std::unique_lock<std::mutex>(gNetLock()); if (s->type != ZMQ_PUB) { errno = ENOTSUP; return false; } if (s->broken) { errno = ETERM; return false; } s->pending.push_back(Str(p, n)); if (!(flags & ZMQ_SNDMORE)) { s->sent.push_back(s->pending); if (gNet) zroute(s, s->pending); s->pending.clear(); } return true; }
static bool zrecv(ZSock* s, Str& out, bool& more) { std::unique_lock<std::mutex> l; if (gNet) l = std::unique_lock<std::mutex>(gNetLock()); if (s->type != ZMQ_SUB) { errno = ENOTSUP; return false; } s->recvs++; if (s->failRecvAt >= 0 && (int)s->recvs > s->failRecvAt) { s->failRecvAt = -1; s->interrupts++; errno = EINTR; return false; }   // a receive in the middle of a message may be interrupted as well
  while (s->part == 0 && s->at < s->in.size() && !wanted(s, s->in[s->at])) s->at++; if (s->at >= s->in.size()) { errno = EAGAIN; return false; } Frames& f = s->in[s->at]; out = f[s->part++]; more = s->part < f.size(); if (!more) { s->at++; s->part = 0; } s->more = more; return true; }
extern "C" {
void* zmq_ctx_new(void) { if (fault("ctx_new")) { errno = EMFILE; return nullptr; } auto* c = new ZCtx; zctxs().push_back(c); return c; }
void* zmq_init(int) { return zmq_ctx_new(); }
int zmq_ctx_term(void* c) { if (!c) { errno = EFAULT; return -1; } auto* x = (ZCtx*)c; if (x->terminated) { lps_fail("a context is terminated once"); return -1; } if (gTermEintr) { gTermEintr = false; errno = EINTR; return -1; } if (x->open) lps_fail("every socket is closed before its context is terminated (the call would wait forever)"); x->terminated = true; return 0; }
int zmq_term(void* c) { return zmq_ctx_term(c); }
int zmq_ctx_destroy(void* c) { return zmq_ctx_term(c); }
int zmq_ctx_shutdown(void* c) { if (!c) { errno = EFAULT; return -1; } if (((ZCtx*)c)->terminated) { lps_fail("a context is not used after being terminated"); return -1; } return 0; }
int zmq_ctx_set(void* c, int, int) { if (!c) { errno = EFAULT; return -1; } return 0; }
void* zmq_socket(void* c, int type) { if (!c) { errno = EFAULT; return nullptr; } auto* x = (ZCtx*)c; if (x->terminated) { lps_fail("a context is not used after being terminated"); return nullptr; } if (fault("socket")) { errno = EMFILE; return nullptr; } auto* s = new ZSock; s->ctx = x; s->type = type; x->open++; zsocks().push_back(s); if (type == ZMQ_SUB && gOnSub) gOnSub(s); return s; }
int zmq_close(void* p) { if (!p) { errno = ENOTSOCK; return -1; } auto* s = (ZSock*)p; if (!s->open) { lps_fail("a socket is closed once"); return -1; } s->open = false; s->ctx->open--; return 0; }
int zmq_setsockopt(void* p, int opt, const void* v, size_t n) { ZSock* s = zs(p); if (!s) return -1; if (fault("setsockopt")) { errno = EINTR; return -1; } if (opt == ZMQ_SUBSCRIBE) { if (s->type != ZMQ_SUB) { errno = EINVAL; return -1; } s->subs.push_back(Str((const char*)v, n)); } return 0; }
int zmq_getsockopt(void* p, int opt, void* v, size_t* n) { ZSock* s = zs(p); if (!s) return -1; if (opt != ZMQ_RCVMORE) { errno = EINVAL; return -1; } if (*n < sizeof(int)) { errno = EINVAL; return -1; } int m = s->more; memcpy(v, &m, sizeof m); *n = sizeof m; return 0; }
int zmq_bind(void* p, const char* a) { ZSock* s = zs(p); if (!s) return -1; if (fault("bind")) { errno = EADDRINUSE; return -1; } s->bound.push_back(a); return 0; }
int zmq_connect(void* p, const char* a) { ZSock* s = zs(p); if (!s) return -1; if (fault("connect")) { errno = EINVAL; return -1; } s->connected.push_back(a); return 0; }
int zmq_msg_init(zmq_msg_t* m) { zm(m)->tag = ZLive; zm(m)->b = nullptr; return 0; }
int zmq_msg_init_size(zmq_msg_t* m, size_t n) { if (fault("msg_init")) { errno = ENOMEM; return -1; } zm(m)->tag = ZLive; zm(m)->b = zbuf(n); return 0; }
int zmq_msg_init_data(zmq_msg_t* m, void* p, size_t n, zmq_free_fn* f, void* h) { if (fault("msg_init")) { errno = ENOMEM; return -1; } zm(m)->tag = ZLive; zm(m)->b = zbuf(n); if (n) memcpy(zm(m)->b->data, p, n); if (f) f(p, h); return 0; }
int zmq_msg_close(zmq_msg_t* m) { if (zm(m)->tag != ZLive) { errno = EFAULT; return -1; } zfree(zm(m)->b); zm(m)->b = nullptr; zm(m)->tag = ZDead; return 0; }
void* zmq_msg_data(zmq_msg_t* m) { if (zm(m)->tag != ZLive) { lps_fail("a transport message is not used after being closed"); return nullptr; } return zm(m)->b ? zm(m)->b->data : (char*)m; }
size_t zmq_msg_size(const zmq_msg_t* m) { const ZMsg* z = (const ZMsg*)m; if (z->tag != ZLive) { lps_fail("a transport message is not used after being closed"); return 0; } return z->b ? z->b->size : 0; }
int zmq_msg_more(const zmq_msg_t* m) { const ZMsg* z = (const ZMsg*)m; return z->b ? z->b->more : 0; }
int zmq_msg_get(const zmq_msg_t* m, int o) { if (o == ZMQ_MORE) return zmq_msg_more(m); errno = EINVAL; return -1; }
int zmq_msg_send(zmq_msg_t* m, void* p, int flags) { ZSock* s = zs(p); if (!s) return -1; if (zm(m)->tag != ZLive) { errno = EFAULT; return -1; } if (!s->broken && fault("msg_send")) s->broken = true; ZBuf* b = zm(m)->b; int n = b ? (int)b->size : 0; if (!zsend(s, b ? b->data : "", n, flags)) return -1; zfree(b); zm(m)->b = nullptr; return n; }
int zmq_sendmsg(void* p, zmq_msg_t* m, int flags) { return zmq_msg_send(m, p, flags); }
int zmq_send(void* p, const void* d, size_t n, int flags) { ZSock* s = zs(p); if (!s) return -1; if (fault("send")) { errno = EINTR; s->interrupts++; return -1; } return zsend(s, (const char*)d, n, flags) ? (int)n : -1; }
int zmq_msg_recv(zmq_msg_t* m, void* p, int) { ZSock* s = zs(p); if (!s) return -1; if (zm(m)->tag != ZLive) { errno = EFAULT; return -1; } Str f; bool more = false; if (!zrecv(s, f, more)) return -1; zfree(zm(m)->b); ZBuf* b = zbuf(f.size()); if (f.size()) memcpy(b->data, f.data(), f.size()); b->more = more; zm(m)->b = b; return (int)f.size(); }
int zmq_recvmsg(void* p, zmq_msg_t* m, int flags) { return zmq_msg_recv(m, p, flags); }
int zmq_recv(void* p, void* d, size_t n, int) { ZSock* s = zs(p); if (!s) return -1; Str f; bool more = false; if (!zrecv(s, f, more)) return -1; size_t k = f.size() < n ? f.size() : n; if (k) memcpy(d, f.data(), k); return (int)f.size(); }
int zmq_errno(void) { return errno; }
const char* zmq_strerror(int) { return "error"; }
lp::PluginInstance* CreateInstance(lp::PluginConfiguration c); lp::PluginTemplateInfo* CreateInfo();
}
// a link below a root bus
struct Fixture { std::shared_ptr<Bus> root; lp::PluginConfiguration c; lp::PluginInstance* link = nullptr; Str name;
  Fixture(Str n = "Link0") : name(n) { root = std::make_shared<Bus>("root"); c.mIdentifier = name; c.mBus = root->CreateChildBus(name); }
  void enable(bool server, bool client) { if (server || lps_param("explicit", 0)) c.mCustomConfiguration["server-role"]["enabled"] = server; if (client || lps_param("explicit", 0)) c.mCustomConfiguration["client-role"]["enabled"] = client; }
  void create() { link = CreateInstance(c); lps_assert(link && link->GetIdentifier() == name, "an instance is created"); }
  void run(int t) { std::thread s([&, t] { std::this_thread::sleep_for(ms(t)); root->Stop(); }); root->Start(); s.join(); lps_progress(); }
  void finish() { link->Stop(); link->Deinitialize(); delete link; link = nullptr; }
  void released(const char* m) { for (auto* s : zsocks()) lps_assert(!s->open, m); for (auto* x : zctxs()) lps_assert(x->terminated, m); lps_assert(gBufs == 0, m); }
};
static ZSock* zfind(int type, bool server) { for (auto* s : zsocks()) if (s->type == type && (server ? !s->bound.empty() : !s->connected.empty())) return s; return nullptr; }
static bool decode(const Str& b, Message& out) { auto raw = std::make_shared<lp::data::RawBytes>(); raw->Append((void*)b.data(), b.size()); try { out = Message::Deserialize(raw); return true; } catch (ex::Exception&) { return false; } }
static Str encode(Message m) { auto raw = m.SerializeToBytes(); return Str((const char*)raw->GetContent(), raw->GetSize()); }
