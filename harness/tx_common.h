#pragma once
// transaction managers and resource managers as seen from the process under test
#include "world.h"
#include <tpadm.h>
#include "ipc.h"
#include "misc.h"
#include "fux.h"
#include "trx.h"
using fux::ipc::msg;
namespace fux::tx { extern uint16_t grpno; } namespace fux::glob { extern xa_switch_t *xasw; }
static mib *M;
static bool same(const XID &a, const XID &b) { return a.formatID == b.formatID && a.gtrid_length == b.gtrid_length && a.bqual_length == b.bqual_length && !memcmp(a.data, b.data, a.gtrid_length + a.bqual_length); }
static int rec0(XID *, long, int, long) { return 0; } static int com0(int *, int *, int, long) { return 0; }
static int live_transactions() { int n = 0; auto &t = M->transactions(); for (size_t k = 0; k < t.len; k++) n += t[k].xid.formatID != -1; return n; }
