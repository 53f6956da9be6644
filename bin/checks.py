#!/usr/bin/env python3
"""Entry point: checks.py <property id> [quick|thorough].  Exit 0: held; 1: VIOLATION; anything else: error of the check."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, vbuild

CHECKS = {}
def check(pid, **kw):
    def deco(f): CHECKS[pid] = dict(fn=f, **kw); return f
    return deco

RULE = ("each evaluation is one run of the real library code under the controlled scheduler (random client program, random/PCT schedule, virtual time); "
        "a case counts once per distinct recorded history, and every distinct history is decided by TLC against the specification")

class T:  # tier-dependent sizes
    def __init__(self, tier): self.q = tier != "thorough"
    def __call__(self, q, t): return q if self.q else t

@check("C05", drivers=["d_taskexec"])
def c05(c, x, z):
    vf.model_check(c, "TaskExecutorMC", "TaskExecutorMC_thread.cfg")
    vf.trace_suite(c, "thread", x["d_taskexec"], "TaskExecutorTrace", n=z(20000, 150000), uniq=z(4000, 40000), tmax=z(12, 120))

@check("C06", drivers=["d_taskexec"])
def c06(c, x, z):
    vf.model_check(c, "TaskExecutorMC", z("TaskExecutorMC_threadless.cfg", "TaskExecutorMC_threadless_big.cfg"))
    vf.trace_suite(c, "threadless", x["d_taskexec"], "TaskExecutorTrace", n=z(20000, 150000), uniq=z(4000, 40000), tmax=z(12, 120), opts={"threadless": 1})

@check("C01", drivers=["d_signal"])
def c01(c, x, z):
    vf.model_check(c, "SignalsMC", z("SignalsMC_sync.cfg", "SignalsMC_sync_big.cfg"))
    vf.trace_suite(c, "sync", x["d_signal"], "SignalsTrace", n=z(20000, 150000), uniq=z(4000, 40000), tmax=z(15, 150), opts={"mode": "sync"})

@check("C02", drivers=["d_signal"])
def c02(c, x, z):
    vf.model_check(c, "SignalsMC", z("SignalsMC_async.cfg", "SignalsMC_sync_big.cfg"))
    vf.trace_suite(c, "reset", x["d_signal"], "SignalsTrace", n=z(20000, 150000), uniq=z(4000, 40000), tmax=z(15, 150), opts={"mode": "sync", "focus": 1})
    vf.trace_suite(c, "resetpop", x["d_signal"], "SignalsTrace", n=z(8000, 60000), uniq=z(1500, 20000), tmax=z(10, 80), opts={"mode": "pop", "focus": 1})

@check("C03", drivers=["d_signal"])
def c03(c, x, z):
    vf.model_check(c, "SignalsMC", "SignalsMC_pop.cfg")
    vf.trace_suite(c, "pop", x["d_signal"], "SignalsTrace", n=z(20000, 150000), uniq=z(4000, 40000), tmax=z(15, 150), opts={"mode": "pop"})
    vf.trace_suite(c, "asyncpop", x["d_signal"], "SignalsTrace", n=z(6000, 60000), uniq=z(1200, 12000), tmax=z(10, 80), opts={"mode": "async", "apop": 1}, batch=300)

@check("C04", drivers=["d_signal", "d_lifetoken"])
def c04(c, x, z):
    vf.model_check(c, "SignalsMC", "SignalsMC_async.cfg")
    vf.model_check(c, "LifeTokenMC", z("LifeTokenMC.cfg", "LifeTokenMC_big.cfg"))
    vf.trace_suite(c, "async", x["d_signal"], "SignalsTrace", n=z(12000, 100000), uniq=z(2500, 25000), tmax=z(15, 150), opts={"mode": "async"}, batch=600)
    vf.trace_suite(c, "lifetoken", x["d_lifetoken"], "LifeTokenTrace", n=z(20000, 150000), uniq=z(4000, 40000), tmax=z(15, 150))

@check("C07", drivers=["d_timer"])
def c07(c, x, z):
    vf.model_check(c, "TimerMC", "TimerMC.cfg")
    if not z(1, 0): vf.model_check(c, "TimerMC", "TimerMC_big.cfg")
    vf.trace_suite(c, "timer", x["d_timer"], "TimerTrace", n=z(20000, 200000), uniq=z(6000, 60000), tmax=z(20, 200), opts={"rw": 8})

@check("C08", drivers=["d_timer"])
def c08(c, x, z):
    vf.model_check(c, "TimerMC", "TimerMC_jit.cfg")
    if not z(1, 0): vf.model_check(c, "TimerMC", "TimerMC_big.cfg")
    vf.trace_suite(c, "reset", x["d_timer"], "TimerTrace", n=z(20000, 200000), uniq=z(6000, 60000), tmax=z(20, 200), opts={"rw": 40})

@check("C09", drivers=["d_deferrer"])
def c09(c, x, z):
    vf.model_check(c, "DeferrerMC", z("DeferrerMC_j1q.cfg", "DeferrerMC_j0.cfg"))
    vf.trace_suite(c, "deferrer", x["d_deferrer"], "DeferrerTrace", n=z(20000, 200000), uniq=z(6000, 60000), tmax=z(20, 200))

@check("C10", drivers=["d_future"])
def c10(c, x, z):
    vf.model_check(c, "FuturesMC", z("FuturesMC.cfg", "FuturesMC_big.cfg"))
    vf.trace_suite(c, "future", x["d_future"], "FuturesTrace", n=z(30000, 300000), uniq=z(9000, 90000), tmax=z(25, 250))

@check("C11", drivers=["d_cancel"])
def c11(c, x, z):
    vf.model_check(c, "CancellationMC", z("CancellationMC.cfg", "CancellationMC_big.cfg"))
    vf.trace_suite(c, "cancel", x["d_cancel"], "CancellationTrace", n=z(30000, 300000), uniq=z(9000, 90000), tmax=z(25, 250))

@check("C23", drivers=["d_pool"])
def c23(c, x, z):
    vf.model_check(c, "ThreadPoolMC", z("ThreadPoolMC.cfg", "ThreadPoolMC_big.cfg"))
    vf.trace_suite(c, "pool", x["d_pool"], "ThreadPoolTrace", n=z(20000, 200000), uniq=z(6000, 60000), tmax=z(20, 200))

@check("C12", drivers=["d_circ", "d_pipe"])
def c12(c, x, z):
    vf.model_check(c, "CircularBufferMC", "CircularBufferMC.cfg")
    vf.model_check(c, "PipeMC", "PipeMC.cfg")
    vf.trace_suite(c, "circular", x["d_circ"], "CircularBufferTrace", n=z(15000, 150000), uniq=z(6000, 60000), tmax=z(10, 100))
    vf.trace_suite(c, "pipe", x["d_pipe"], "PipeTrace", n=z(12000, 100000), uniq=z(3000, 30000), tmax=z(12, 120))

@check("C13", drivers=["d_databuf"])
def c13(c, x, z):
    vf.model_check(c, "DataBufferMC", z("DataBufferMC.cfg", "DataBufferMC_big.cfg"))
    vf.trace_suite(c, "databuffer", x["d_databuf"], "DataBufferTrace", n=z(20000, 200000), uniq=z(5000, 40000), tmax=z(12, 150))

@check("C14", drivers=["d_packetbuf"])
def c14(c, x, z):
    vf.model_check(c, "PacketBufferMC", z("PacketBufferMC.cfg", "PacketBufferMC_big.cfg"))
    vf.trace_suite(c, "packetbuffer", x["d_packetbuf"], "PacketBufferTrace", n=z(20000, 200000), uniq=z(5000, 40000), tmax=z(12, 150))

@check("C15", drivers=["d_sptr"])
def c15(c, x, z):
    vf.model_check(c, "SharedPtrMC", z("SharedPtrMC.cfg", "SharedPtrMC_big.cfg"))
    vf.trace_suite(c, "pointers", x["d_sptr"], "SharedPtrTrace", n=z(60000, 600000), uniq=z(16000, 150000), tmax=z(20, 200))

@check("C16", drivers=["d_tokens"])
def c16(c, x, z):
    vf.model_check(c, "TokensMC", z("TokensMC.cfg", "TokensMC_big.cfg"))
    vf.trace_suite(c, "tokens", x["d_tokens"], "TokensTrace", n=z(40000, 400000), uniq=z(8000, 80000), tmax=z(20, 200))

@check("C17", drivers=["d_obs"])
def c17(c, x, z):
    vf.model_check(c, "ObsMC", z("ObsMC.cfg", "ObsMC_big.cfg"))
    vf.trace_suite(c, "observable", x["d_obs"], "ObsTrace", n=z(40000, 400000), uniq=z(8000, 80000), tmax=z(20, 200))

@check("C22", drivers=["d_snap"])
def c22(c, x, z):
    vf.model_check(c, "SnapMC", z("SnapMC.cfg", "SnapMC_big.cfg"))
    vf.trace_suite(c, "collections", x["d_snap"], "SnapTrace", n=z(50000, 500000), uniq=z(10000, 80000), tmax=z(20, 200))

@check("C18", drivers=["d_txn"])
def c18(c, x, z):
    vf.model_check(c, "TxnMC", z("TxnMC.cfg", "TxnMC_big.cfg"))
    vf.trace_suite(c, "transactional", x["d_txn"], "TxnTrace", n=z(40000, 400000), uniq=z(8000, 80000), tmax=z(20, 200))

@check("C19", drivers=["d_obv"])
def c19(c, x, z):
    vf.model_check(c, "ObvMC", z("ObvMC.cfg", "ObvMC_big.cfg"))
    vf.trace_suite(c, "values", x["d_obv"], "ObvTrace", n=z(40000, 400000), uniq=z(10000, 100000), tmax=z(20, 200))

@check("C20", drivers=["d_cache"], sched=False)
def c20(c, x, z):
    vf.model_check(c, "CacheMC", z("CacheMC.cfg", "CacheMC_big.cfg"))
    vf.trace_suite(c, "caches", x["d_cache"], "CacheTrace", n=z(30000, 300000), uniq=z(12000, 100000), tmax=z(20, 200))

@check("C21", drivers=["d_cont"], sched=False)
def c21(c, x, z):
    vf.model_check(c, "ContMC", z("ContMC.cfg", "ContMC_big.cfg"))
    vf.trace_suite(c, "containers", x["d_cont"], "ContTrace", n=z(50000, 400000), uniq=z(15000, 120000), tmax=z(20, 200))

@check("C25", drivers=["d_sync"])
def c25(c, x, z):
    vf.model_check(c, "SyncMC", z("SyncMC.cfg", "SyncMC_big.cfg"))
    vf.trace_suite(c, "primitives", x["d_sync"], "SyncTrace", n=z(40000, 400000), uniq=z(8000, 80000), tmax=z(20, 200))

@check("C24", drivers=["d_once"])
def c24(c, x, z):
    vf.model_check(c, "OnceMC", z("OnceMC.cfg", "OnceMC_big.cfg"))
    vf.trace_suite(c, "once", x["d_once"], "OnceTrace", n=z(50000, 400000), uniq=z(12000, 100000), tmax=z(20, 200))

@check("C26", drivers=["d_stream", "d_feed"], sched=False)
def c26(c, x, z):
    vf.model_check(c, "StreamMC", z("StreamMC.cfg", "StreamMC_big.cfg"))
    vf.model_check(c, "FeedMC", z("FeedMC.cfg", "FeedMC_big.cfg"))
    vf.trace_suite(c, "stream", x["d_stream"], "StreamTrace", n=z(30000, 300000), uniq=z(10000, 100000), tmax=z(15, 120))
    vf.trace_suite(c, "feed", x["d_feed"], "FeedTrace", n=z(40000, 300000), uniq=z(10000, 80000), tmax=z(15, 120))


@check("C27", drivers=["d_counted"], sched=False)
def c27(c, x, z):
    vf.model_check(c, "CountedMC", z("CountedMC.cfg", "CountedMC_big.cfg"))
    vf.trace_suite(c, "counted", x["d_counted"], "CountedTrace", n=z(40000, 400000), uniq=z(12000, 100000), tmax=z(15, 150))


@check("C28", drivers=["d_held"], sched=False)
def c28(c, x, z):
    vf.model_check(c, "HeldMC", z("HeldMC.cfg", "HeldMC_big.cfg"))
    vf.trace_suite(c, "holders", x["d_held"], "HeldTrace", n=z(50000, 400000), uniq=z(14000, 100000), tmax=z(15, 150))


@check("C29", drivers=["d_seqs"], sched=False)
def c29(c, x, z):
    vf.model_check(c, "SeqsMC", z("SeqsMC.cfg", "SeqsMC_big.cfg"))
    vf.trace_suite(c, "seqs", x["d_seqs"], "SeqsTrace", n=z(60000, 600000), uniq=z(15000, 120000), tmax=z(15, 150))


@check("C31", drivers=["d_paged", "d_async"])
def c31(c, x, z):
    vf.model_check(c, "PagedMC", z("PagedMC.cfg", "PagedMC_big.cfg"))
    vf.model_check(c, "AsyncStreamMC", z("AsyncStreamMC.cfg", "AsyncStreamMC_big.cfg"))
    vf.trace_suite(c, "paged", x["d_paged"], "PagedTrace", n=z(12000, 100000), uniq=z(3000, 30000), tmax=z(12, 120))
    vf.trace_suite(c, "async", x["d_async"], "AsyncStreamTrace", n=z(16000, 150000), uniq=z(8000, 80000), tmax=z(12, 120))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = CHECKS[pid]
    c = vf.Ctx(pid, tier, seed)
    try:
        exes = vbuild.build(ck["drivers"])
        ck["fn"](c, exes, T(tier))
        rc = vf.finish(c, ck.get("rule", RULE), ck.get("assumptions", ()))
    except vf.CheckError as e:
        print("CHECK ERROR: %s" % e, flush=True)
        rc = 1 if c.violations else 3
        if c.violations:
            rc = vf.finish(c, RULE)
    sys.exit(rc)

if __name__ == "__main__":
    main()
