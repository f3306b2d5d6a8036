#ifndef RAWTLS_H
#define RAWTLS_H
#include "netsim.h"
#include <openssl/ssl.h>
// a TLS end of our own on a raw connection; id < 0: without certificate
struct RawTls {
    SSL_CTX *ctx = nullptr; SSL *ssl = nullptr; int fd; bool done = false, failed = false; size_t stop = SIZE_MAX, sent = 0;
    RawTls(int fd, int id, bool old, bool server = false): fd(fd) {
        ctx = SSL_CTX_new(server ? TLS_server_method() : TLS_client_method()); SSL_CTX_set_verify(ctx, SSL_VERIFY_NONE, nullptr); SSL_CTX_set_session_cache_mode(ctx, SSL_SESS_CACHE_OFF);
        if (old) SSL_CTX_set_max_proto_version(ctx, TLS1_2_VERSION);
        if (id >= 0) {
            const unsigned char *p = g_ids[id].cert.data(); ::X509 *x = d2i_X509(nullptr, &p, g_ids[id].cert.size()); SSL_CTX_use_certificate(ctx, x); X509_free(x);
            p = g_ids[id].key.data(); EVP_PKEY *k = d2i_AutoPrivateKey(nullptr, &p, g_ids[id].key.size()); SSL_CTX_use_PrivateKey(ctx, k); EVP_PKEY_free(k);
        }
        ssl = SSL_new(ctx); SSL_set_bio(ssl, BIO_new(BIO_s_mem()), BIO_new(BIO_s_mem())); if (server) SSL_set_accept_state(ssl); else SSL_set_connect_state(ssl);
    }
    void flush() {
        char b[4096]; int n;
        while ((n = BIO_read(SSL_get_wbio(ssl), b, sizeof b)) > 0) {
            size_t k = std::min<size_t>(n, stop > sent ? stop - sent : 0);
            if (k) sim::raw_send_all(fd, Bytes(b, b + k)); sent += k;
        }
    }
    bool feed() { auto d = sim::raw_recv(fd); if (!d.empty()) BIO_write(SSL_get_rbio(ssl), d.data(), d.size()); return !d.empty(); }
    bool handshake() {
        for (int i = 0, idle = 0; idle < 8 && i < 400 && !done && !failed; i++) {
            ERR_clear_error();
            int r = SSL_do_handshake(ssl); flush();
            if (r == 1) { done = true; break; }
            if (SSL_get_error(ssl, r) != SSL_ERROR_WANT_READ) failed = true;
            sim::settle(); if (feed()) idle = 0; else idle++;
        }
        ERR_clear_error();
        return done;
    }
    void pump() { for (int i = 0; i < 40; i++) { sim::settle(); auto d = sim::raw_recv(fd); if (d.empty()) break; } }     // keeps reading
    void send(const Bytes &b) { ERR_clear_error(); SSL_write(ssl, b.data(), b.size()); flush(); ERR_clear_error(); }
    Bytes recv() { Bytes r; feed(); ERR_clear_error(); char b[4096]; int n; while ((n = SSL_read(ssl, b, sizeof b)) > 0) r.insert(r.end(), b, b + n); flush(); ERR_clear_error(); return r; }
    ~RawTls() { SSL_free(ssl); SSL_CTX_free(ctx); ERR_clear_error(); }
};
#endif
