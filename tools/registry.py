"""What each property's check runs: harness modules and their parameter instances."""

def R(harness, params=None, thorough=None, stubs=(), covers=(), preempt=-1, race=True, t=600, native=True, max_viol=6):
    """One harness with a list of parameter sets (dicts) per tier."""
    return dict(harness=harness, quick=params or [{}], thorough=thorough, stubs=tuple(stubs), covers=tuple(covers),
                preempt=preempt, race=race, t=t, native=native, max_viol=max_viol)

def P(**kw):
    """Cartesian product of parameter lists."""
    out = [{}]
    for k, v in kw.items():
        out = [dict(o, **{k: x}) for o in out for x in (v if isinstance(v, (list, tuple, range)) else [v])]
    return out

CHECKS = {}

def C(pid, runs, assumptions=()):
    CHECKS[pid] = dict(runs=runs, assumptions=list(assumptions))

C("V01", [R("base64", P(dec=0, len=range(0, 5)) + P(dec=0, back=0, len=[7, 12, 20]) + P(dec=0, pre=[55, 76, 190, 255, 1023, 65535], len=2) + P(dec=1, pre=[77, 308, 1100, 66220], len=3) + P(dec=1, len=range(0, 5)) + P(dec=1, cls=1, len=[5, 8, 9]),
            thorough=P(dec=0, len=range(0, 7)) + P(dec=0, back=0, len=[7, 12, 20, 48]) + P(dec=1, len=range(0, 7)) + P(dec=1, cls=1, len=[8, 9, 10, 12]),
            covers=["encoded", "decoded", "malformed"])],
  ["texts up to 5 arbitrary bytes, and up to 9 over {A-Z,=,space}; data up to 4 bytes for the round trip, up to 20 for the encoder",
   "memory allocation does not fail"])
C("V02", [R("datetime", P(mode=0, len=[0, 1, 8, 16, 17, 18, 24]) + [dict(mode=1, _w=9), dict(mode=2)],
            covers=["accepted", "rejected", "fields", "now"])],
  ["texts of length 0,1,8,16,17,18,24 with arbitrary bytes; years 1900-9999 for values built from fields",
   "strftime/atoi modelled for the C locale; the clock is a fixed instant"])
C("V03", [R("valueops", P(ta=range(4), op=range(21), steps=3) + P(many=[9, 17, 33, 70, 300]) + P(many=9, len=[64, 300]), covers=["done", "many"])],
  ["two values, three operations out of 21 kinds, each value starting as int, string, one-element array or one-member struct",
   "memory allocation does not fail"])
C("V04", [R("typed", P(mode=range(3)) + P(many=[9, 33, 130], len=[0, 40]) + P(many=5, len=[300, 1100]), covers=["matrix", "inside", "outside", "present", "absent"])],
  ["strings of 3 bytes, arrays of up to 3 elements with any int index, struct keys of up to 2 bytes"])
C("V05", [R("visit", P(depth=1, width=2) + P(depth=1, width=1, keys=1) + P(depth=0, big=1) + P(depth=0, wide=1) + P(many=[9, 33, 120], len=[0, 70]) + P(many=2, len=[300, 1100, 66000]), thorough=P(depth=2, width=2) + P(depth=0, big=1) + P(depth=0, wide=1), covers=["visited"])],
  ["value trees of depth 2 and up to 2 children, strings up to 2 bytes; one fixed double and date-time (floating point is not encoded)"])
XML = ("xml.cc",)
C("X01", [R("xmlrt", P(mode=0, depth=0, resp=0, slen=3) + P(mode=0, depth=0, resp=1, slen=3, omit=[0, 1]) + P(mode=0, menu=1, depth=1, width=1, resp=1, omit=[0, 1]) +
              P(mode=0, menu=1, depth=1, width=2) + P(mode=0, menu=2, depth=2, width=1, resp=0) + P(mode=0, menu=3, depth=2, width=2, resp=[0, 1]) + P(mode=1, resp=[0, 1]) +
              P(mode=2, kind=[0, 1, 2], len=[9, 17, 65, 129, 300], resp=[0, 1]) + P(mode=2, kind=[0, 1], len=1100) + P(mode=2, kind=[0, 6], len=66000) + P(mode=2, kind=8) + P(mode=2, kind=3, len=600) + P(mode=2, kind=6, len=[60, 300], resp=[0, 1]) + P(mode=2, kind=[3, 4], len=[9, 66], resp=[0, 1]) + P(mode=2, kind=5, len=[9, 20], resp=[0, 1]) + P(mode=2, kind=7, len=[9, 65]),
            stubs=XML, covers=["trip"])])
C("X02", [R("xmlscalar", P(type=[0, 2, 3], form=0, len=[0, 1, 2, 3]) + P(type=1, form=0, len=2) + P(type=[0, 1, 2, 3], form=[1, 3]) + P(type=4, form=2, len=[0, 1, 2, 3]) + P(type=[0, 2], form=0, len=[0, 1], **{"def": [1, 2, 3, 4]}),
            thorough=P(type=[0, 1, 2, 3], form=0, len=range(0, 6)) + P(type=[0, 1, 2, 3], form=1) + P(type=4, form=2, len=range(0, 6)) + P(type=[0, 1, 2, 3], form=0, len=[0, 1, 2], **{"def": [1, 2, 3, 4]}),
            stubs=XML, covers=["accepted", "refused", "range", "empty"])])
C("X03", [R("xmldoc", P(resp=0, ctx=range(0, 24), n=3), thorough=P(resp=0, ctx=range(0, 24), n=4), stubs=XML, covers=["grammatical", "refused"]), R("xmldoc", P(resp=0, many=[9, 40, 140], kind=[0, 1, 2], n=1) + P(resp=0, many=[5, 20], kind=[3, 4], n=1), stubs=XML, covers=["grammatical", "refused"])])
C("X04", [R("xmldoc", P(resp=1, ctx=range(0, 15), n=3), thorough=P(resp=1, ctx=range(0, 15), n=4), stubs=XML, covers=["result", "fault", "refused"]), R("xmldoc", P(resp=1, many=[40, 140], kind=[1, 2], n=1) + P(resp=1, many=[5, 20], kind=[3, 4], n=1), stubs=XML, covers=["result", "refused"]),
          R("fault", P(omit=[0, 1], slen=3) + P(slen=1, pad=[70, 600, 5000, 70000]) + P(slen=1, hi=[1, 2, 3]), stubs=XML, covers=["fault"])])
C("X05", [R("xmlsafe", P(pad=0) + P(pad=[1, 2, 3]) + P(head=[1, 2]), stubs=("xmlforce.cc",), covers=["failed", "ok"])])
C("H01", [R("httpread", P(mode=0, pre=range(6), n=5) + P(mode=0, pre=[0, 1, 2, 5], n=6, cls=1) + P(mode=0, pre=range(3), n=5, cls=1, cuts=2) + P(mode=1) + P(mode=0, resp=1, pre=range(4), n=5) + P(mode=1, resp=1) + P(mode=1, resp=[0, 1], hpad=[300, 5000]) + P(mode=1, resp=[0, 1], bpad=[1100, 66000]),
            covers=["packet", "error", "partial", "exact", "rpacket", "rerror", "rpartial", "rexact"])])
C("H02", [R("httplimit", P(requests=[1, 2], endless=[0, 1]) + P(digits=[1, 2, 3]), covers=["refused", "accepted", "several"])])
C("H03", [R("httphdr", P(mode=[0, 2, 3, 4, 7, 8, 9], strict=[0, 1], lf=[0, 1]) + P(mode=10, n=[70, 300, 1100, 9000, 66000]) + P(mode=10, n=10, lines=[9, 40]) + P(mode=1, n=range(0, 6)) + P(mode=1, n=[4, 5, 6], big=1) + P(mode=5, strict=[0, 1], len=[3, 11, 12, 13]) + P(mode=5, free=12) + P(mode=6, strict=[0, 1], param=[0, 1]),
            covers=["accepted", "refused"])])
C("H04", [R("httpmsg", P(mode=range(0, 3)) + P(mode=7, len=[40, 300, 1100, 9000, 65533, 70000]), covers=["request", "response", "error"])])
C("H05", [R("httpmsg", P(mode=3, ul=[0, 1, 2], pl=[0, 1, 2]) + P(mode=3, ul=3, pl=0) + P(mode=3, pre=[30, 70], ul=1, pl=1) + P(mode=4, n=range(0, 6)) + P(mode=4, basic=0, n=[0, 4, 5, 6]), covers=["credentials", "decoded", "unauthorized"])])
C("H06", [R("httpmsg", P(mode=5, n=range(0, 5)) + P(mode=5, pre=[12, 30, 100], n=1) + P(mode=6, n=range(0, 4)), covers=["set", "both", "refused", "xheader", "other"])])
NETS = ("net.cc", "xml.cc", "tls.cc")
C("S01", [R("srv", P(peers=1, reqs=2, cuts=1, splits=1) + P(peers=1, reqs=1, cuts=2, splits=2, mincut=180) + P(peers=2, reqs=1, cuts=0, splits=0, subset=1) + P(peers=2, reqs=1, cuts=1, splits=0, mincut=205) +
              P(peers=1, reqs=1, cuts=0, splits=1, bad=[1, 2], subset=1) + P(peers=1, reqs=2, cuts=0, splits=1, big=[5000, 17000]) + P(peers=1, reqs=1, cuts=0, splits=1, big=70000) + P(peers=1, reqs=[5, 9, 18], cuts=0, splits=0), stubs=NETS, covers=["served", "broken"]),
          R("srvcall", P(mode=4), stubs=NETS, covers=["refused"])])
C("H07", [R("srvcont", P(reqs=2, splits=1) + P(reqs=3, splits=0, delays=0) + P(reqs=1, splits=2, delays=2) + P(reqs=1, cuts=2, splits=0, delays=0) + P(reqs=2, splits=0, delays=0, pad=[70, 300, 5000], lim=[0, 30000]), stubs=NETS, covers=["interim", "plain"])])
C("S02", [R("srvfault", P(splits=[0, 1]) + P(long=[70, 300, 1100, 5000]), stubs=NETS, covers=["fault"]), R("srvfault", P(forced=1), stubs=("net.cc", "xmlforce.cc", "tls.cc"), covers=["unserialisable", "nofault"])])
C("S03", [R("srvcall", P(mode=0) + P(mode=0, many=[9, 40], len=[0, 60]) + P(mode=0, many=3, len=[300, 1100]) + P(mode=0, many=3, disp=[4, 9]), stubs=NETS, covers=["resolved", "unknown", "listed"])])
C("S04", [R("srvcall", P(mode=[1, 9]) + P(mode=1, many=[6, 14]), stubs=NETS, covers=["result", "fault"])])
CHECKS["H02"]["runs"].append(R("srvcall", P(mode=6), stubs=NETS, covers=["refused", "accepted"]))
CHECKS["H05"]["runs"].append(R("srvcall", P(mode=2) + P(mode=2, long=1) + P(mode=11, tls=[0, 1]), stubs=NETS, covers=["granted", "denied", "undecided"]))
CHECKS["H06"]["runs"].append(R("srvcall", P(mode=3), stubs=NETS, covers=["seen"]))
CHECKS["H03"]["runs"].append(R("srvcall", P(mode=4), stubs=NETS, covers=["refused"]))
C("S07", [R("srvcall", P(mode=5, nofw=[0, 1]) + P(mode=5, peers=[5, 10]), stubs=NETS, covers=["granted", "refused", "fault"])])
C("C01", [R("client", P(mode=0, cuts=1, splits=0) + P(mode=0, cuts=0, splits=2) + P(mode=0, kind=[0, 6], cuts=2, splits=1, mincut=180) + P(mode=0, cuts=0, splits=0, intr=2) + P(mode=0, kind=0, splits=0, big=[2000, 17000, 66000, 70000], sbuf=[0, 30000]) + P(mode=0, kind=11, cuts=0, splits=0, pad=[65536, 70000], gap=[65536, 65535]), stubs=NETS, covers=["value", "fault", "httperr", "malformed", "xmlerr", "neterr", "timeout"])])
C("C02", [R("client", P(mode=1, calls=[2, 3]) + P(mode=1, calls=2, cuts=1, splits=0, mincut=180) + P(mode=1, calls=2, splits=1) + P(mode=1, calls=[4, 7, 11], plain=1), stubs=NETS, covers=["calls"])])
C("C03", [R("client", P(mode=2, intr=[0, 1, 4]), stubs=NETS, covers=["now", "later", "refused", "late error", "never", "unknown host", "no socket", "again"])])
C("C04", [R("client", P(mode=3, proxy=[0, 1], keep=[0, 1], auth=[0, 1]) + P(mode=3, params=12) + P(mode=3, noauth=1, empty=1) + P(mode=3, long=[60, 260], auth=1, keep=1, proxy=[0, 1]) + P(mode=3, long=260, auth=1, tls=1), stubs=NETS, covers=["proxy", "direct"])])
C("C05", [R("client", P(mode=4), stubs=NETS, covers=["host", "port", "sockaddr", "refused", "failed"])])
C("R01", [R("reactor", P(handlers=2, acts=[1, 2], rounds=2) + P(handlers=3, acts=1, rounds=1, lock=1) + P(handlers=[6, 11], busy=1, acts=1, rounds=2), stubs=("net.cc",), covers=["input", "output", "injected", "terminated", "unregistered another", "deleted another", "threw", "done", "pending"])])
C("R02", [R("reactor", P(handlers=2, acts=0, rounds=2, stoppers=1, inject=0, waits=1, lock=[0, 1], change=1), stubs=("net.cc",), covers=["timeout", "interrupted", "poll error", "nothing to serve", "changed"])])
TLSS = ("net.cc", "xml.cc", "tls.cc")
C("T01", [R("https", P(mode=0, reqs=[4, 9], wants=0, stay=1) + P(mode=0, reqs=1, wants=0, big=[17000, 70000]) + P(mode=0, reqs=1, wants=3) + P(mode=0, reqs=2, wants=2) + P(mode=0, reqs=1, wants=1, cuts=1, mincut=190) + P(mode=0, reqs=1, wants=1, fault=4) + P(mode=0, reqs=2, wants=0, fault=7) + P(mode=0, reqs=1, wants=1, cuts=2, hold=2, mincut=200) +
              P(mode=0, peers=2, reqs=1, wants=1, nokeep=1) + P(mode=0, peers=2, reqs=1, wants=0, subset=1, fault=4, nokeep=1), stubs=TLSS, covers=["want read", "want write", "tls fault", "served", "broken", "held"]),
          R("https", P(mode=1, calls=[4, 7], wants=0) + P(mode=1, calls=1, wants=0, big=[17000, 70000]) + P(mode=1, wants=3) + P(mode=1, calls=2, wants=1) + P(mode=1, calls=2, wants=0, fault=6) + P(mode=1, wants=1, fault=4) + P(mode=1, wants=1, peer=1) + P(mode=1, wants=0, cuts=2, hold=2, mincut=130), stubs=TLSS, covers=["called", "broken", "timeout", "closed", "held"])])
C("T02", [R("https", P(mode=2, wants=[0, 1]), stubs=TLSS, covers=["accepted", "rejected", "required", "anonymous", "unchecked", "reconfigured"])])
C("T03", [R("tlserr", P(mode=0), stubs=TLSS, covers=["success", "failure"]), R("tlserr", P(mode=1), stubs=TLSS, covers=["load", "not initialised", "object"])])
C("T04", [R("https", P(mode=3, cuts=0, splits=0, cfg=1) + P(mode=3, cuts=1, splits=0) + P(mode=3, cuts=0, splits=1) + P(mode=3, kind=[0, 1], cuts=1, splits=1) + P(mode=3, kind=9, cuts=0, splits=0) + P(mode=3, kind=[0, 3, 6, 8], cuts=2, splits=0) + P(mode=3, kind=0, cuts=0, splits=0, wants=2, calls=[1, 2]) + P(mode=3, cuts=0, splits=0, intr=1), stubs=TLSS, covers=["tunnelled", "refused"])])
C("T05", [R("tlserr", P(mode=2), stubs=TLSS, covers=["mismatch", "server", "client"])])
THR = ("net.cc", "xml.cc", "tls.cc", "thr.cc")
ONE = dict(cuts=0, splits=0)
C("S05", [R("srv", P(pool=1, peers=[2, 1], reqs=1, **ONE), stubs=THR, preempt=2, covers=["served"]),
          R("pool", P(mode=0, workers=1, calls=[1, 2]), stubs=THR, preempt=3, covers=["ran"]),
          R("pool", P(mode=0, workers=1, calls=[6, 12, 20]), stubs=THR, preempt=1, covers=["ran"]),
          R("pool", P(mode=0, workers=[3, 6, 9], calls=2, _delay=1) + P(mode=0, workers=6, calls=6, dep=2, _delay=1), thorough=P(mode=0, workers=[3, 6], calls=2, _delay=1, _preempt=2), stubs=THR, preempt=1, covers=["ran"]),
          R("pool", P(mode=0, workers=9, calls=9, dep=2, _delay=1) + P(mode=0, workers=9, calls=20, _delay=1, _preempt=0), stubs=THR, preempt=1, covers=["ran"]),
          R("pool", P(mode=0, workers=2, calls=1), stubs=THR, preempt=2, covers=["ran"]),
          R("pool", P(mode=0, workers=2, calls=[2, 3]) + P(mode=0, workers=2, calls=2, dep=1) + P(mode=0, workers=[1, 2], late=1, calls=2), thorough=P(mode=0, workers=2, calls=2, _preempt=2) + P(mode=0, workers=3, calls=[2, 3]), stubs=THR, preempt=1, covers=["ran"]),
          R("srv", P(pool=1, peers=1, reqs=2, **ONE) + P(pool=2, peers=2, reqs=1, _preempt=0, subset=1, **ONE) + P(pool=1, peers=1, reqs=1, bad=[1, 2], **ONE) + P(pool=3, peers=3, reqs=1, _delay=1, **ONE) + P(pool=3, peers=3, reqs=2, _delay=1, _preempt=0, **ONE), thorough=P(pool=2, peers=2, reqs=1, **ONE) + P(pool=2, peers=2, reqs=1, _delay=1, _preempt=2, **ONE), stubs=THR, preempt=1, covers=["served", "broken"])])
C("S06", [R("pool", P(mode=1, workers=[4, 6, 9], calls=[0, 1, 2], _delay=1), thorough=P(mode=1, workers=[4, 6], calls=[0, 1], _delay=1, _preempt=2), stubs=THR, preempt=1, covers=["ran", "dropped"]), R("pool", P(mode=1, workers=9, calls=9, _delay=1) + P(mode=1, workers=9, calls=20, _delay=1, _preempt=0), stubs=THR, preempt=1, covers=["ran", "dropped"]), R("pool", P(mode=1, workers=1, calls=[6, 12, 20]), stubs=THR, preempt=1, covers=["ran", "dropped"]),
          R("pool", P(mode=1, workers=1, calls=[0, 1, 2]), thorough=P(mode=1, workers=1, calls=[1, 2, 3], _preempt=4), stubs=THR, preempt=3, covers=["ran", "dropped"]),
          R("pool", P(mode=1, workers=2, calls=[0, 1]), thorough=P(mode=1, workers=2, calls=2), stubs=THR, preempt=2, covers=["ran", "dropped"]),
          R("pool", P(mode=1, workers=2, calls=[2, 3]) + P(mode=1, workers=3, calls=0) + P(mode=1, workers=2, late=[1, 2], calls=[0, 1]), thorough=P(mode=1, workers=3, calls=[1, 2]), stubs=THR, preempt=1, covers=["ran", "dropped"])])
C("S09", [R("apart", [dict(a=i, b=i) for i in range(8)] + [dict(a=i, b=j) for i, j in ((0, 1), (0, 3), (1, 4), (2, 3), (4, 5), (5, 6), (0, 5), (2, 7))], stubs=THR, preempt=1, covers=["both"])])
C("S10", [R("srvcall", P(mode=7, peers=2, reqs=1) + P(mode=7, peers=2, reqs=1, args=1, subset=1) + P(mode=7, peers=1, reqs=2, tap=[0, 1]) + P(mode=7, peers=1, reqs=1, args=[6, 20, 36], tap=[0, 1]), stubs=NETS, covers=["told"]),
          R("srvcall", P(mode=7, pool=1, peers=2, reqs=1, args=1), stubs=THR, preempt=1, covers=["told"])])
C("S11", [R("srvcall", P(mode=8, peers=1), stubs=NETS, covers=["logged", "silent"]),
          R("srvcall", P(mode=8, pool=2, peers=2), stubs=THR, preempt=1, covers=["logged"])])
C("S08", [R("stop", P(how=[0, 1, 2]) + P(how=[3, 4, 5], calls=[1, 2]) + P(pool=1, how=[0, 1, 2, 3, 4, 5], calls=1), thorough=P(pool=1, how=[3, 4, 5], calls=2, _preempt=3), stubs=THR, preempt=2, covers=["stopped", "again"]),
          R("stop", P(pool=1, how=[3, 4, 5], calls=2), thorough=P(pool=2, how=[3, 4, 5], calls=2), stubs=THR, preempt=1, covers=["stopped", "again"])])
C("S12", [R("srvcall", P(mode=10, tls=[0, 1]), stubs=NETS, covers=["failed", "served"]), R("srvcall", P(mode=10, pool=1), stubs=THR, preempt=0, covers=["failed", "served"])])
CHECKS["S02"]["runs"].append(R("srvfault", P(pool=1), stubs=THR, preempt=1, covers=["fault"]))
CHECKS["S04"]["runs"].append(R("srvcall", P(mode=1, pool=1), stubs=THR, preempt=0, covers=["result", "fault"]))
CHECKS["H07"]["runs"].append(R("srvcont", P(reqs=1, splits=0, pool=1), stubs=THR, preempt=1, covers=["interim", "plain"]))

# the same over HTTPS: the TLS library passes everything on at once (T01 decides what it may do in between)
for pid, h, ps, cov in [
    ("S01", "srv", P(tls=1, peers=1, reqs=2, cuts=1, splits=0) + P(tls=1, peers=2, reqs=1, cuts=0, splits=0, subset=1) + P(tls=1, peers=1, reqs=1, cuts=0, splits=0, bad=[1, 2], subset=1) + P(tls=1, peers=1, reqs=9, cuts=0, splits=0), ["served", "broken"]),
    ("S02", "srvfault", P(tls=1) + P(tls=1, long=[1100]), ["fault"]), ("S03", "srvcall", P(mode=0, tls=1), ["resolved", "unknown", "listed"]),
    ("S04", "srvcall", P(mode=9, tls=1), ["result", "fault"]), ("S07", "srvcall", P(mode=5, nofw=[0, 1], tls=1), ["granted", "refused"]),
    ("S10", "srvcall", P(mode=7, peers=2, reqs=1, tls=1) + P(mode=7, peers=1, reqs=2, tls=1), ["told"]), ("S11", "srvcall", P(mode=8, peers=1, tls=1), ["logged", "silent"]),
    ("H02", "srvcall", P(mode=6, tls=1), ["refused", "accepted"]), ("H03", "srvcall", P(mode=4, tls=1, splits=0), ["refused"]), ("H05", "srvcall", P(mode=2, tls=1), ["granted", "denied"]),
    ("H06", "srvcall", P(mode=3, tls=1), ["seen"]), ("H07", "srvcont", P(reqs=2, splits=0, tls=1) + P(reqs=1, cuts=2, splits=0, delays=0, tls=1) + P(reqs=2, splits=0, delays=0, pad=[70, 5000], tls=1), ["interim", "plain"])]:
    CHECKS[pid]["runs"].append(R(h, ps, stubs=NETS, covers=cov))
for pid, ps, cov in [
    ("C01", P(tls=1, mode=0, cuts=1, splits=0) + P(tls=1, mode=0, cuts=0, splits=0, intr=2) + P(tls=1, mode=0, kind=11, cuts=0, splits=0, pad=65536, gap=[65536, 65535]), ["value", "fault", "httperr", "malformed", "xmlerr", "neterr", "timeout"]),
    ("C02", P(tls=1, mode=1, calls=[2, 3]) + P(tls=1, mode=1, calls=7, plain=1), ["calls"]), ("C03", P(tls=1, mode=2, intr=[0, 1]), ["now", "later", "refused", "late error", "never", "unknown host", "no socket", "again"]),
    ("C04", P(tls=1, mode=3, proxy=0, keep=[0, 1], auth=1) + P(tls=1, mode=3, proxy=0, params=12), ["direct"])]:
    CHECKS[pid]["runs"].append(R("client", ps, stubs=NETS, covers=cov))
CHECKS["S05"]["runs"].append(R("srv", P(tls=1, pool=1, peers=[1, 2], reqs=1, **ONE), stubs=THR, preempt=1, covers=["served"]))
CHECKS["S08"]["runs"].append(R("stop", P(tls=1, how=[0, 1, 3, 4]) + P(tls=1, pool=1, how=[3, 5], calls=1), stubs=THR, preempt=1, covers=["stopped", "again"]))
