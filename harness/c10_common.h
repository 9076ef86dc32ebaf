#pragma once
#include "sym.h"
#include "env.h"
#include <atmi.h>
#include <xatmi.h>
#include <stdlib.h>
#include "ipc.h"
#include "misc.h"
using namespace fux::ipc;

struct head { char name[XATMI_SERVICE_NAME_LENGTH]; uint64_t gttid[(sizeof(fux::gttid) + 7) / 8]; long flags; int cd, replyq, rval; long rcode; char cat; long mtype; };
static void fill(head &h, msg &m) { // symbolic header
  memset(&h, 0, sizeof h); sym_bytes(h.name, 4, "name"); h.name[XATMI_SERVICE_NAME_LENGTH - 2] = sym_u8("name1"); sym_bytes(h.gttid, sizeof(fux::gttid), "gttid"); h.flags = sym_long("flags"); h.cd = sym_int("cd"); h.replyq = sym_int("replyq"); h.rval = sym_int("rval"); h.rcode = sym_long("rcode"); h.cat = sym_range("cat", 0, 2); h.mtype = sym_long("mtype"); sym_assume(h.mtype > 0);
  memcpy(m->servicename, h.name, sizeof h.name); memcpy(&m->gttid, h.gttid, sizeof(fux::gttid)); m->flags = h.flags; m->cd = h.cd; m->replyq = h.replyq; m->rval = h.rval; m->rcode = h.rcode; m->cat = (category)h.cat; m->mtype = h.mtype; }
static void same(head &h, msg &m) {
  sym_check(memcmp(m->servicename, h.name, sizeof h.name) == 0, "a received message has the service name sent"); sym_check(memcmp(&m->gttid, h.gttid, sizeof(fux::gttid)) == 0, "a received message has the transaction sent");
  sym_check(m->flags == h.flags, "a received message has the flags sent"); sym_check(m->cd == h.cd, "a received message has the descriptor sent"); sym_check(m->replyq == h.replyq, "a received message has the reply queue sent"); sym_check(m->rval == h.rval && m->rcode == h.rcode, "a received message has the return values sent");
  sym_check((char)m->cat == h.cat, "a received message has the category sent"); sym_check(m->mtype == h.mtype, "a received message has the type sent"); }
// payload: bytes with known positions; the size is chosen around the limit between queue and file
struct load { int type; long n; uint8_t a, b, c; char *p; };
static const long HDR = 24; // exported buffer header
static void payload(load &l, int type, long total) { // total: size of the whole message
  l.type = type; long n = total - (long)sizeof(msgmem) - HDR; if (n < 0) n = 0; l.n = n;
  l.p = tpalloc((char *)(type == 0 ? "CARRAY" : "STRING"), (char *)"*", n + 1); sym_check(l.p != nullptr, "tpalloc");
  if (type == 1) { if (n == 0) l.n = n = 1; memset(l.p, 'm', n - 1); l.p[n - 1] = 0; if (n > 3) { l.a = sym_u8("a"); l.b = sym_u8("b"); sym_assume(l.a != 0 && l.b != 0); l.p[0] = l.a; l.p[n - 2] = l.b; } }
  else { for (long i = 0; i < n; i++) l.p[i] = i; if (n) { l.p[n - 1] = l.b = sym_u8("b"); l.p[0] = l.a = sym_u8("a"); if (n == 1) l.b = l.a; } } }
static void got(load &l, msg &m) { char *q = tpalloc((char *)"STRING", (char *)"*", 20); m.get_data(&q); char t[9] = "", s[17] = ""; tptypes(q, t, s); sym_check(strncmp(t, l.type == 0 ? "CARRAY" : "STRING", 8) == 0, "a received message has the payload type sent"); sym_check((long)m.size_data() == l.n + HDR, "a received message has the payload length sent");
  sym_check(memcmp(q, l.p, l.n) == 0, "a received message has the payload sent"); tpfree(q); }
