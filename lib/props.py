"""What each property's check runs."""
import vf
from vf import Harness, Job

SEATD = ["seatd/seat.c", "seatd/client.c", "seatd/server.c", "seatd/poller.c", "common/connection.c",
         "common/linked_list.c", "common/terminal.c", "common/drm.c", "common/evdev.c", "common/hidraw.c", "common/wscons.c"]
h_sys = Harness("h_sys.c", SEATD)
HID = ["-DHIDIOCREVOKE=_IOW('H',0x0D,int)"]
h_sys_many = Harness("h_sys.c", SEATD, hdefs=["-DNOFD=420", "-DNFD=330", "-DMAXDEV=132"])
h_sys_long = Harness("h_sys.c", SEATD, hdefs=["-DNOFD=700", "-DNFD=48", "-DNHELD=600"])
h_sys_hid = Harness("h_sys.c", SEATD, hdefs=["-DHAVE_HIDRAW"] + HID, rdefs=HID)
BSD = vf.H + "/bsd"
h_sys_fbsd = Harness("h_sys.c", SEATD, hdefs=["-DPLAT=2"], rdefs=["-DVF_AS_FREEBSD", "-I" + BSD + "/freebsd"])
h_sys_nbsd = Harness("h_sys.c", SEATD, hdefs=["-DPLAT=3"], rdefs=["-DVF_AS_NETBSD", "-I" + BSD + "/netbsd"])

# fault kinds of kern.h
F_RES = 1 | 2 | 4 | 8 | 64 | 512   # allocation, tty, open, dup, revoke ioctl, realpath
F_CONN = 128 | 256                 # receive errors, accept/fcntl/getsockopt/pipe

# histories leading to the states that matter; '*' is an arbitrary event
COMMON = ["", "c", "co0", "co0c", "co0d00d01", "co0d00d00d01"]
VIRT = ["co0co1", "co0co1d01s01", "co0co1d00d01s01a0", "co0co1d01s01a0d11", "co0co1co2s02", "co0co1co2s01", "co0co1s01h1", "co0d01co1s01a0s10a1d11", "co0co1d01d00s01a0s10a1", "co0co1h0co2"]
VT = ["co0d00d01v2", "co0d00d01v2a0", "co0d01v2a0co1", "co0d01v2co1", "co0v2co1v3", "co0v2a0co1d11v1", "co0v2a0co1d11v3a1", "co0v2co1a0v1", "co0d01d00v2a0v1"]


def sys_jobs(tier, only=None):
    q = tier == "quick"
    jobs = [Job(h_sys, "?" * (7 if q else 9), vtb=v, jobs=2 if q else 8) for v in (0, 1)]
    for vtb, pre in ((0, COMMON + VIRT), (1, COMMON + VT)):
        for p in pre:
            n = 2 if q else 3
            if p in ("", "c"):
                n = 3 if q else 4
            jobs.append(Job(h_sys, p + "*" * n, vtb=vtb, jobs=1 if q else 4))
        for p in pre[2:]:
            n = 1 if q else 2
            jobs.append(Job(h_sys, p + "!" + "*" * n, vtb=vtb, faults=1, fmask=F_RES | F_CONN, jobs=1 if q else 2))
            if vtb:
                jobs.append(Job(h_sys, p + "!" + "*" * n, vtb=1, race=1, jobs=1 if q else 2))
        jobs.append(Job(h_sys, "!co0d00d01", vtb=vtb, faults=1 if q else 2, fmask=F_RES | F_CONN))
    jobs.append(Job(h_sys, "!co0v2a0co1v1", vtb=1, faults=1 if q else 2, fmask=F_RES))
    for vtb, back in ((0, "co1s01a0s10a1"), (1, "v2a0v1")):
        jobs += [Job(h_sys_hid, "co0d00d03**", vtb=vtb), Job(h_sys_hid, "co0d03d01%sd03d01*" % back, vtb=vtb), Job(h_sys_hid, "co0d03d03%sK0d03K0K0d03" % back, vtb=vtb), Job(h_sys_hid, "co0d03d01d00%sd03!*" % back, vtb=vtb, faults=1, fmask=F_RES)]
    return jobs + bsd_jobs(q)


def bsd_jobs(q):
    """the same daemon built for FreeBSD (other console calls) and NetBSD (wscons devices, no hangups)"""
    j = []
    for h, fm in ((h_sys_fbsd, F_RES & ~2 | F_CONN), (h_sys_nbsd, F_RES | F_CONN)):
        for v, ps in ((0, VIRT[1:] + ["co0d01"]), (1, VT + ["co0d01"])):
            for p in ps:
                j.append(Job(h, p + ("*" if q else "**"), vtb=v))
                if not q:
                    j.append(Job(h, p + "!*", vtb=v, faults=1, fmask=fm))
        j += [Job(h, "!co0d00d01", vtb=v, faults=1, fmask=fm) for v in (0, 1)]
        j += [Job(h, s, vtb=v, faults=1, fmask=fm & F_RES) for v, s in (FSEQ[3:4] + FSEQ[13:14] if q else FSEQ)]
        j += [Job(h, "co0d00cm1*", vtb=0, len=8, frag=f) for f in (0, 3)]
    return j


# long histories (one path): what counts, wraps or piles up
LONG = [(0, "co0[co1h1R]co1s01a0", 260), (0, "co0[d00]K0*", 257), (0, "co0[d00]K0*", 199), (1, "co0d00[d01K0]*", 140), (1, "co0d00[v2a0v1]*", 40), (0, "co0co1[s01a0s10a1]*", 70), (0, "co0[p0]d00*", 100), (1, "co0d00v2a0co1[v1a1v2a0]*", 20)]
# a fault somewhere, then what shows whether it was undone
FSEQ = [(0, s) for s in ("co0d00!d00K0", "co0d01!d01d00K0K0", "co0co1d00!s01a0d10", "co0co1d01!s01a0s10a1", "co0co1co2!s02a0s20a2", "co0co1co2!s02x0", "co0co1co2!x0x1", "co0co1co2!h0d11", "co0!d00d01h0co1", "co0d01co1!s01a0s10a1d01K0", "co0d00d01!d01K0d01")] + \
       [(1, s) for s in ("co0d00d01!v2a0v1", "co0d00!v2v1", "co0d01!v2a0co1v1", "co0!v2a0co1d11v1a1", "co0d01!x0co1", "co0d01!h0co1", "co0v2co1!a0v1a1", "co0v2co1!h0", "co0v2co1!x0v1", "co0v2a0co1!h1v1", "co0d01!v2a0v1d01K0", "co0d01!v2a0v1d01v2a0")]
SENDERR = [(0, p) for p in ("co0co1", "co0co1co2", "co0co1co2s02", "co0co1d00d01s01a0", "co0d01")] + [(1, p) for p in ("co0d01", "co0d01v2a0", "co0v2co1", "co0v2a0co1v1")]


def history_jobs(q):
    j = [Job(h_sys_long, s, vtb=v, times=t) for v, s, t in LONG]
    j += [Job(h_sys, s, vtb=v, faults=1 if q else 2, fmask=F_RES) for v, s in FSEQ]
    j += [Job(h_sys, p + ("!*" if q else "!**"), vtb=v, faults=1, fmask=32) for v, p in SENDERR]
    if not q:
        j += [Job(h_sys_long, "co0[d00]K0*", vtb=0, times=t) for t in (32800, 65537)]
    return j


def raw_jobs(q):
    """clients that do not keep to the protocol"""
    j = []
    for vtb, pre in ((0, ["c", "co0", "co0d00d01", "co0co1", "co0co1d00s01", "co0co1d00d01s01a0", "co0x0"]), (1, ["c", "co0", "co0d00d01", "co0d00v2", "co0d00v2a0co1", "co0v2co1"])):
        for p in pre:
            for c in range(p.count("c")):
                for ln in (0, 3, 8) if q else (0, 1, 2, 3, 4, 6, 8, 13):
                    j.append(Job(h_sys, "%sm%d*" % (p, c) if c < 2 and not (q and ln == 3) else "%sm%d" % (p, c), vtb=vtb, len=ln, frag=(0, 1, 3)[ln % 3]))
        j += [Job(h_sys, "co0d00cm1*", vtb=vtb, len=600), Job(h_sys, "co0d00m0c*", vtb=vtb, len=600), Job(h_sys, "co0l0*", vtb=vtb), Job(h_sys, "co0d00l0*", vtb=vtb, frag=7, lmin=255, lmax=256),
              Job(h_sys, "co0f03p0f02m0*", vtb=vtb), Job(h_sys, "co0cf13m1*", vtb=vtb), Job(h_sys, "co0cf12p1*", vtb=vtb), Job(h_sys, "co0f03!p0*", vtb=vtb, faults=1, fmask=F_RES | F_CONN), Job(h_sys, "cf04p0f02h0", vtb=vtb)]
    return j


h_diff = Harness("h_diff.c", SEATD)
h_diff_fds = Harness("h_diff.c", SEATD, hdefs=["-DMAXSFD=160", "-DNFD=180", "-DNOFD=200"])


def pile_jobs(q):
    """replies with descriptors pile up for a client that does not read"""
    return [Job(h_diff_fds, h, burst=n, vtb=v, full=1, drains=1, batch=1) for h, v in (("co0d00O0p0", 0), ("co0p0O0v2a0", 1)) for n in ((2, 20, 28, 33, 63, 64, 65, 70, 100) if q else range(1, 129))]


SYS_BOUNDS = {"quick": "the daemon's real code from start to shutdown; up to 4 connections; histories = a listed prefix of up to 12 events followed by 2 arbitrary events (3 from the initial states), or any 7 (thorough 9) of the events that move the seat on (join, acknowledge, leave, hang up, switch, VT switch, open), or 1 arbitrary event with one resource fault injected at any system call or allocation; every 32-bit device id, session number and uid; 7 device paths (C03: any name of up to 33 characters); VTs 1..3 of 6; also histories of up to 300 listed events in a loop followed by one arbitrary event, sequences of failures of sends, a failing start, and 52 histories of the daemon as built for FreeBSD and NetBSD",
              "thorough": "as quick, with 3 (4) arbitrary events, and 2 arbitrary events with a fault"}
SYS_ASSUME = ["kernel model harness/kern.h: evdev/hidraw revocation, DRM mastership, VT switching with release/acquire signals, sockets, poll",
              "signals are delivered between system calls of the daemon, as the poll loop sees them", "one request is in flight per client per event (batches and fragments: C09, C10)"]


EXTRA = {
    "C03": lambda q: [Job(h, "co0n0", vtb=v, nlen=n) for h in (h_sys, h_sys_hid) for v in (0, 1) for n in ((8, 12, 17, 18) if q else range(1, 19))] +
                      [Job(h, "co0N0" + t, vtb=v, nlen=n) for h, v, t in ((h_sys, 0, ""), (h_sys_hid, 1, ""), (h_sys, 1, "d00N0")) for n in ((0, 3, 13, 24, 33) if q else range(41))],
    "C04": lambda q: [Job(h_sys_many, "co0D0" + "B0" * (3 if q else 5), vtb=0, jobs=4), Job(h_sys_many, "co0D0cB0B0", vtb=1, many=128, jobs=2),
                      Job(h_sys_many, "co0D0v2a0v1B0B0", vtb=1), Job(h_sys_many, "co0D0co1s01a0s10a1B0B0", vtb=0)],
    "C10": lambda q: raw_jobs(q) + pile_jobs(q),
    "C11": lambda q: [Job(h_sys, "co0d00d01", vtb=v, finit=1, faults=1 if q else 2, fmask=F_RES | F_CONN) for v in (0, 1)] + pile_jobs(q),
}


NOENV = [Job(h_sys, "co0d00v2a0v1t", vtb=1, noenv=1), Job(h_sys, "co0d00co1d01s01t", vtb=0)]


def sys_spec(prop, tier, wit):
    return dict(jobs=NOENV + EXTRA.get(prop, lambda q: [])(tier == "quick") + history_jobs(tier == "quick") + sys_jobs(tier), witnesses=wit, bounds=SYS_BOUNDS[tier], assumptions=SYS_ASSUME, budget=150 if tier == "quick" else 3600)


SYSW = {
    "C01": ["open-enabled", "open-waiting", "enabled", "ack"],
    "C02": ["disable-event", "vt-release-ack", "device-opened", "device-closed", "shutdown"],
    "C03": ["device-open", "device-opened", "device-refused", "device-failed"],
    "C04": ["device-reopened", "device-closed", "device-deref"],
    "C05": ["switch-queued", "switch-refused", "switch-same", "switch-vt", "queued-enabled"],
    "C06": ["vt-release-ack", "vt-switched"],
    "C07": ["vt-restored", "shutdown"],
    "C08": ["open-refused", "open-enabled", "open-waiting"],
    "C09": ["enabled", "device-opened", "switch-refused"],
    "C11": ["not-started", "holder-closed", "holder-hangup", "shutdown", "vt-restored"],
}


SPECS = {}
NOTES = {}
NA = {}
TRUST = "Bounded: decided by Z3 for every value and history within the stated bounds over the compiled real code; trusts %s, clang's lowering, symx and Z3."


def prop(pid, trust):
    def deco(f):
        SPECS[pid] = f
        NOTES[pid] = TRUST % trust
        return f
    return deco


def spec(pid, tier):
    if pid not in SPECS:
        raise SystemExit("no such property: " + pid)
    return SPECS[pid](tier == "quick")


for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C11"):
    SPECS[_p] = (lambda pp: lambda q: sys_spec(pp, "quick" if q else "thorough", SYSW[pp]))(_p)
    NOTES[_p] = TRUST % "the kernel model in harness/kern.h"

# ---------------------------------------------------------------- C16
h_list = Harness("h_list.c", ["common/linked_list.c"])


@prop("C16", "the list model in harness/h_list.c")
def c16(q):
    jobs = [Job(h_list, n=8, ops=1), Job(h_list, n=5, ops=2), Job(h_list, n=3, ops=3)] if q else [Job(h_list, n=9, ops=2, jobs=4), Job(h_list, n=4, ops=4, jobs=4)]
    return dict(jobs=jobs, witnesses=["insert", "remove", "take-empty", "take-join"],
                bounds="two arbitrary well-formed lists of together up to 8 (thorough 9) elements followed by 1 (2) arbitrary operations; up to 5 elements and 2 operations, 3 and 3 (4 and 4)",
                assumptions=["operations are used as documented: only detached or initialised elements are inserted, only members removed"])

# ---------------------------------------------------------------- C14, C15: connection
h_conn = Harness("h_conn.c", ["common/connection.c", "common/linked_list.c"])


def conn_jobs(q):
    if q:
        return [Job(h_conn, mode=0, ops=3, jobs=4), Job(h_conn, mode=0, ops=3, sizes=6, bases=2, jobs=2), Job(h_conn, mode=1, ops=4, bases=2, sizes=3, jobs=4), Job(h_conn, mode=1, ops=3, jobs=2), Job(h_conn, mode=1, ops=3, fds=1, bases=2, sizes=2),
                Job(h_conn, mode=1, ops=4, fds=1, bases=1, sizes=1), Job(h_conn, mode=1, ops=4, fds=2, bases=2, sizes=1), Job(h_conn, mode=2, bases=5)]
    return [Job(h_conn, mode=0, ops=4, bases=5, sizes=5, jobs=8), Job(h_conn, mode=1, ops=5, bases=3, sizes=3, jobs=8), Job(h_conn, mode=1, ops=4, bases=5, sizes=6, jobs=8), Job(h_conn, mode=1, ops=4, fds=1, bases=4, sizes=4, jobs=8),
            Job(h_conn, mode=1, ops=5, fds=2, bases=4, sizes=2, jobs=8), Job(h_conn, mode=2, bases=5)]


CONN_B = "one end of a connection, all byte values, 3-4 (thorough 4-5) operations from an empty connection whose ring position is 0, next to the end of the buffer or next to the 32-bit wrap; sizes around 1, 4, the largest message, the buffer size and one more; every sendmsg/recvmsg outcome (all, part, EAGAIN, EINTR, hard error, end of file); up to 130 descriptors"
CONN_A = ["socket model of harness/h_conn.c: stream semantics of sendmsg/recvmsg with SCM_RIGHTS as on Linux", "after a hard error or descriptor overflow the connection is only closed, as all users do"]


@prop("C14", "the socket model in harness/h_conn.c")
def c14(q):
    return dict(jobs=conn_jobs(q), witnesses=["short", "wrapped", "flushed", "put-refused", "in-full", "get-refused", "got", "restored"], bounds=CONN_B, assumptions=CONN_A, budget=150 if q else 3600)


@prop("C15", "the socket model in harness/h_conn.c and the kernel model in harness/kern.h")
def c15(q):
    sysj = [Job(h_sys, s, vtb=v, faults=1, fmask=F_RES | F_CONN) for s in ("co0!d00d01d00", "co0d00!**", "co0d00d01d00!*") for v in (0, 1)]
    return dict(jobs=conn_jobs(q) + sysj + pile_jobs(q), witnesses=["fd-sent", "fd-full", "fd-received", "fd-overflow", "fd-got", "device-reopened"],
                bounds=CONN_B + "; and the daemon opening and closing devices, with one fault at any point", assumptions=CONN_A + SYS_ASSUME, budget=150 if q else 3600)

# ---------------------------------------------------------------- C12, C13: poller
h_poller = Harness("h_poller.c", ["seatd/poller.c", "common/linked_list.c"])
h_poller_acc = Harness("h_poller.c", ["seatd/poller.c", "common/linked_list.c"], hdefs=["-DACC"], acc=True)


POLL_B = ("the loop's real code; up to 3 (thorough 4) initial fd sources and 2 signal sources; every mask and every set of reported conditions; 2 iterations (thorough 3) with up to 2 (3) changes made "
          "by handlers or between iterations: destroy, add, change mask, replace on the same descriptor, raise a signal, add or remove a signal handler; up to 2 (3) signals at any system call%s; interrupted polls; one failing call or allocation; a full signal pipe")
POLL_A = ["environment of harness/h_poller.c: poll, pipe and sigaction as on Linux; a signal handler runs to completion and signals do not nest"]


@prop("C12", "the poll model in harness/h_poller.c")
def c12(q):
    jobs = [Job(h_poller, kinds=1, acts=2, sig0=0, fds=2, jobs=2), Job(h_poller, kinds=1, acts=1, sig0=0, fds=3, jobs=2), Job(h_poller, kinds=1, acts=3, iters=1, sig0=0, fds=2, jobs=2),
            Job(h_poller, kinds=3, acts=1, faults=1, eintr=1, fds=2, jobs=2), Job(h_poller, kinds=3, acts=1, sigs=1, fds=2, jobs=2), Job(h_poller, kinds=1, acts=2, fds=1, sig0=0, iters=3, jobs=2), Job(h_poller, kinds=1, acts=1, fds=0, sig0=1, iters=1, many=40)]
    if not q:
        jobs = [Job(h_poller, kinds=1, acts=3, sig0=0, fds=2, jobs=8), Job(h_poller, kinds=1, acts=2, sig0=0, fds=4, jobs=8), Job(h_poller, kinds=1, acts=2, sig0=0, iters=3, fds=3, jobs=8),
                Job(h_poller, kinds=3, acts=2, faults=2, eintr=1, fds=2, jobs=8), Job(h_poller, kinds=3, acts=2, sigs=1, fds=2, jobs=8)] + jobs
    return dict(jobs=jobs, witnesses=["fd-called", "destroyed", "poll-failed", "signal-handled", "many"], bounds=POLL_B % "", assumptions=POLL_A, budget=150 if q else 3000)


@prop("C13", "the poll and signal model in harness/h_poller.c, and the kernel model of harness/kern.h")
def c13(q):
    jobs = [Job(h_poller, kinds=2, acts=2, sigs=1, sig0=2, fds=0), Job(h_poller, kinds=2, acts=1, sigs=2, eintr=1, sig0=1, fds=0, jobs=2), Job(h_poller, kinds=3, acts=1, sigs=1, eintr=1, faults=1, fds=1, jobs=2), Job(h_poller, burst=1, acts=1, kinds=2, iters=2, fds=1), Job(h_poller, acts=1, kinds=1, iters=1, fds=1, finit=2),
            Job(h_poller_acc, kinds=2, acts=1, sigs=1, sig0=2, fds=0), Job(h_poller_acc, kinds=2, acts=1, sigs=2, sig0=1, iters=2, fds=0, jobs=4), Job(h_poller_acc, kinds=2, acts=2, sigs=1, sig0=2, fds=0, jobs=4), Job(h_poller_acc, kinds=3, acts=1, sigs=1, fds=1, jobs=2),
            Job(h_sys, "co0d00d01v2a0", vtb=1), Job(h_sys, "co0v2co1v3*", vtb=1), Job(h_sys, "co0*", vtb=0),
            Job(h_sys, "", vtb=1, finit=1, faults=1 if q else 2, fmask=F_RES | F_CONN)]
    if not q:
        jobs = [Job(h_poller, kinds=2, acts=3, sigs=2, sig0=2, fds=0, eintr=1, jobs=8), Job(h_poller, kinds=3, acts=2, sigs=2, eintr=1, faults=1, fds=1, jobs=8),
                Job(h_poller_acc, kinds=2, acts=2, sigs=2, sig0=2, fds=0, iters=2, jobs=8), Job(h_poller_acc, kinds=3, acts=2, sigs=1, eintr=1, fds=1, jobs=8), Job(h_poller_acc, kinds=2, acts=1, sigs=3, sig0=1, fds=0, iters=2, jobs=8)] + jobs
    return dict(jobs=jobs, witnesses=["signal", "signal-handled", "pipe-full"], bounds=POLL_B % " and, in jobs of their own, before any memory access of the loop's code", assumptions=POLL_A, budget=150 if q else 3000)

# ---------------------------------------------------------------- C09, C10


def diff_jobs(q):
    j = []
    H0, H1 = ["co0d00d01d00k01s02a0p0", "co0co1d01s02p0a0p1d10k11s11", "cco0o1s02h0p1", "co0x0p0", "co0co1s02x0p1d11"], ["co0d00d01v2p0a0co1d10", "co0d00v2co1p0a0d11v1a1", "co0s02p0a0v2co1"]
    for vtb, hs in ((0, H0), (1, H1)):
        for h in hs:
            j += [Job(h_diff, h, vtb=vtb, sends=1 if q else 2, drains=2, late=1, jobs=1 if q else 4), Job(h_diff, h, vtb=vtb, batch=2, sends=0 if q else 1, drains=1, jobs=1 if q else 4), Job(h_diff, h, vtb=vtb, frag=5), Job(h_diff, h, vtb=vtb, split=1), Job(h_diff, h, vtb=vtb, batch=1, frag=9)]
            j += [Job(h_diff, h + "*", vtb=vtb, sends=1, drains=1, jobs=1 if q else 2), Job(h_diff, h + "*", vtb=vtb, batch=1, frag=3)]
        j += [Job(h_diff, "co0**", vtb=vtb, sends=1, batch=1 if q and vtb else 2, jobs=2 if q else 4), Job(h_diff, "co0L0L0L0*", vtb=vtb, batch=1), Job(h_diff, "co0L0d00L0*", vtb=vtb, frag=100), Job(h_diff, "co0L0L0p0d01p0", vtb=vtb, sends=1, frag=0),
              Job(h_diff, "co0P0P0d00", burst=60, vtb=vtb, sends=1, drains=0, batch=1), Job(h_diff, "co0P0d00P0", burst=100, vtb=vtb, batch=1)]
    for vtb, hs in ((0, H0), (1, H1)):
        j += [Job(h_diff, h + ("" if q else "*"), vtb=vtb, sends=1, serr=1, jobs=1 if q else 4) for h in hs]
    # replies pile up to the last byte kept for a client, and an event follows
    j += [Job(h_diff, "co0P0v2" + ("" if q else "*"), burst=128, vtb=1, sends=1, drains=0, batch=1, jobs=2), Job(h_diff, "co0P0p0v2a0v1", burst=126, vtb=1, sends=1, drains=1, batch=1), Job(h_diff, "co0co1d10P0s02", burst=128, vtb=0, sends=1, drains=1, batch=1), Job(h_diff, "co0co1P1s02a0", burst=128, vtb=0, sends=1, drains=1, batch=1)]
    j += pile_jobs(q)
    if not q:
        j += [Job(h_diff, p + "**", vtb=v, sends=1, split=1, jobs=8) for v in (0, 1) for p in ("co0", "co0co1d00", "co0d00d01")]
    return j


@prop("C09", "the kernel model in harness/kern.h")
def c09(q):
    return dict(jobs=diff_jobs(q) + sys_jobs("quick" if q else "thorough"), witnesses=["compared", "batched", "split", "drained", "overflowed", "send-failed", "fd-compared", "device-opened", "switch-refused", "enabled"], budget=200 if q else 3600, assumptions=SYS_ASSUME,
                bounds=SYS_BOUNDS["quick" if q else "thorough"] + "; and 8 listed histories (each alone and followed by an arbitrary event), run a second time with 1 (2) sends that are short or meet a full socket, every batching of consecutive requests, every fragment size up to 9 bytes, or any request split around another event")


@prop("C10", "the kernel model in harness/kern.h")
def c10(q):
    s = sys_spec("C10", "quick" if q else "thorough", ["malformed", "incomplete", "long-path", "enabled"])
    s["bounds"] += "; and from 13 states a client sends any header with 0 to 13 or 600 bytes of payload (the first 8 arbitrary), whole or in fragments, with or without descriptors, followed by an arbitrary event; paths of 254 to 258 bytes"
    s["budget"] = 200 if q else 3600
    return s

# ---------------------------------------------------------------- C17 - C20: libseat
LS = ["-DSEATD_ENABLED=1", "-DLIBSEAT=1"]
h_client = Harness("h_client.c", [("libseat/libseat.c", LS), ("libseat/backend/seatd.c", LS), ("libseat/backend/noop.c", LS), "common/connection.c", "common/linked_list.c"])
LB = LS + ["-DBUILTIN_ENABLED=1"]
h_client_b = Harness("h_client.c", [("libseat/libseat.c", LB), ("libseat/backend/seatd.c", LB), ("libseat/backend/noop.c", LB), "common/connection.c", "common/linked_list.c"], hdefs=["-DBUILTIN_ENABLED"])


def client_jobs(q, only=""):
    H = Job
    if q:
        j = [H(h_client, script="**", evs=1, errs=1, jobs=2), H(h_client, script="**", evs=2), H(h_client, script="d*", evs=1, cb=1), H(h_client, script="***"), H(h_client, script="a*L", evs=2), H(h_client, script="wpL", evs=2, cb=1), H(h_client, script="p", evs=3, cb=1, cbops=1), H(h_client, script="d", evs=2, cb=2, errs=1), H(h_client, script="", evs=2, cb=2, cbops=1, loss=1), H(h_client, script="w", evs=1, cb=1, cbops=1, faults=1),
             H(h_client, script="**", faults=1), H(h_client, script="*", evs=1, faults=1), H(h_client, script="*", evs=1, errs=1, faults=1), H(h_client, script="**", evs=1, loss=1), H(h_client, script="*", evs=1, loss=1, errs=1, cb=1),
             H(h_client, script="**", frag=1, evs=1), H(h_client, script="*", frag=3, evs=2), H(h_client, script="*", shorts=1, evs=1), H(h_client, script="dks", shorts=2), H(h_client, script="*", eintr=1, evs=1), H(h_client, script="l*"), H(h_client, script="l", shorts=1, frag=3),
             H(h_client, script="d", name=1), H(h_client, script="d", name=2, unterminated=1), H(h_client, script="d", name=63), H(h_client, script="d", name=64), H(h_client, script="d", name=7, unterminated=1), H(h_client, script="d", name=0),
             *[H(h_client, script="d", sock=k, faults=k == 1) for k in (1, 2, 3, 4)], H(h_client, script="**", fast=1, evs=1), H(h_client, script="*L", fast=1, evs=2, cb=1, frag=3), H(h_client, script="*", fast=1, evs=1, errs=1, loss=1), H(h_client, script="dLs", fast=1, evs=1, shorts=1), H(h_client, script="dks", fast=1, evs=1, cb=1),
             H(h_client_b, script="*", builtin=1, evs=1), H(h_client_b, script="**", builtin=1, faults=1), H(h_client_b, script="*", builtin=2, faults=2), H(h_client_b, script="*", builtin=1, loss=1)]
    else:
        j = [H(h_client, script="***", evs=1, errs=1, jobs=8), H(h_client, script="**", evs=3, errs=1, jobs=8), H(h_client, script="**", evs=2, cb=2, cbops=1, jobs=8), H(h_client, script="*", evs=2, cb=2, cbops=1, errs=1, loss=1, jobs=8), H(h_client, script="*", evs=1, cb=1, cbops=1, faults=2, jobs=8), H(h_client, script="****", jobs=4), H(h_client, script="***", faults=2, jobs=8), H(h_client, script="**", evs=1, errs=1, faults=2, jobs=8),
             H(h_client, script="***", evs=1, loss=1, jobs=8), H(h_client, script="**", frag=3, evs=1, errs=1, shorts=1, eintr=1, jobs=8), H(h_client, script="**", frag=5, evs=2, loss=1, jobs=8)] + client_jobs(True)
    return j


def hostile_jobs(q):
    j = []
    for at in (0, 1, 2, 3):
        for n in (1, 4, 8) if q else (1, 2, 3, 4, 5, 6, 7, 8, 10, 12):
            for fds in (0, 1):
                for hup in (0, 1):
                    j.append(Job(h_client, script="", mode=1, at=at, bytes=n, fds=fds, hup=hup, frag=(0, 1, 3)[n % 3]))
        j.append(Job(h_client, script="", mode=1, at=at, bytes=8, tail=70))
        j.append(Job(h_client, script="", mode=1, at=at, bytes=8, tail=62, term=1))
        j.append(Job(h_client, script="", mode=1, at=at, bytes=8, tail=280, hup=1))
    j += [Job(h_client, script="", mode=1, at=2, bytes=8, timeout=100, hup=h) for h in (0, 1)] + [Job(h_client, script="", mode=1, at=1, bytes=12, fds=f) for f in (0, 1)]
    j += [Job(h_client, script="", mode=1, at=1, call=c, bytes=n, hup=h) for c in (1, 2, 3) for n, h in ((4, 1), (8, 0)) + (() if q else ((9, 0), (12, 1)))]
    return j


CL_B = ("libseat.c and the seatd and builtin backends from open to close; 2-3 (thorough 3-4) arbitrary calls between, each with every argument value; up to 2 (3) events before, after or apart from replies; every error code, device id and session number; bytes cut to 1, 3, 5 or any; 1 (2) failing system calls or allocations; "
        "loss of the connection at any point; interrupted waits; a daemon that answers at once; callbacks that acknowledge, make any other request or dispatch, also while opening and closing; socket names: default, absolute, relative, longest, too long, empty")
CL_A = ["server stub of harness/h_client.c; one thread; callbacks make one call each, nested dispatches included, and do not close the seat", "the embedded server's own code is covered by C01-C13; here its process is a stub"]
CL_T = "the server stub in harness/h_client.c"


@prop("C17", CL_T)
def c17(q):
    return dict(jobs=client_jobs(q), witnesses=["callback", "nested", "event", "device", "closed"], bounds=CL_B, assumptions=CL_A, budget=150 if q else 3600)


@prop("C18", CL_T)
def c18(q):
    return dict(jobs=client_jobs(q), witnesses=["error", "dead", "lost", "refused", "device", "closed"], bounds=CL_B, assumptions=CL_A, budget=150 if q else 3600)


@prop("C19", CL_T)
def c19(q):
    return dict(jobs=hostile_jobs(q), witnesses=["hostile-failed", "hostile-opened", "hostile-bad", "hostile-closed"], budget=150 if q else 3600, assumptions=CL_A,
                bounds="while opening, requesting, dispatching or closing the server sends 1 to 8 (thorough 12) arbitrary bytes, also followed by 70 or 280 filler bytes, with or without a descriptor, whole or in fragments, and stays or leaves")


@prop("C20", CL_T)
def c20(q):
    return dict(jobs=client_jobs(q) + hostile_jobs(q), witnesses=["open-failed", "closed", "dead", "hostile-closed", "embedded"], bounds=CL_B + "; and the arbitrary bytes of C19", assumptions=CL_A, budget=150 if q else 3600)

# ---------------------------------------------------------------- C21: both sides
h_e2e = Harness("h_e2e.c", SEATD + [("libseat/libseat.c", LS), ("libseat/backend/seatd.c", LS), ("libseat/backend/noop.c", LS)])

E2E = {0: ["o0p0d00d01", "o0o1p0p1", "o0o1p0p1d00s0p0", "o0o1p0p1d00s0p0a0p1d10", "o0p0d00d00x0", "o0p0d01x0o0p0"], 1: ["o0p0d00d01", "o0p0d00v2p0", "o0p0v2p0a0o1p1", "o0p0d00v2p0o1", "o0p0v2p0a0o1p1d10v1p1a1p0"]}


def e2e_jobs(q):
    J = lambda s, **k: Job(h_e2e, s, **k)
    j = [J("**" if q else "***", jobs=1 if q else 4), J("**" if q else "***", vtb=1, jobs=1 if q else 4), J("o0p0l0l0*"), J("o0p0l0", frag=100, cfrag=2), J("o0p0!l0", shorts=2), J("o0p0d00*i0", plen=7, fails=1), J("o0p0i0", plen=12)]
    for v in (0, 1):
        for p in E2E[v]:
            j += [J(p + ("*" if q else "**"), vtb=v, jobs=1 if q else 4), J(p + "!*", vtb=v, nest=1, jobs=1 if q else 2), J(p + "*", vtb=v, frag=3, cfrag=5), J(p + "!*", vtb=v, sends=1, cfrag=1), J(p + "!*", vtb=v, shorts=1, eintr=1), J(p + "*", vtb=v, fails=1), J(p + "Q*", vtb=v)]
            if not q:
                j += [J(p + "*", vtb=v, cb=2, jobs=8), J(p + "!*", vtb=v, cb=1, nest=1, jobs=8), J(p + "!*", vtb=v, nest=2, jobs=8), J(p + "!**", vtb=v, nest=1, jobs=8), J(p + "!**", vtb=v, sends=2, jobs=8), J(p + "**", vtb=v, cfrag=1, frag=2, jobs=4), J(p + "*Q**", vtb=v, jobs=4)]
        if q:
            j += [J(E2E[v][1] + "**", vtb=v, jobs=2)]
        j += [J("o0*", vtb=v, cb=2), J("o0o1p0p1d00s0*", cb=1) if v == 0 else J("o0p0d00v2p0*", vtb=1, cb=2), J("o0p0!*", vtb=v, cb=1, nest=1)]
    return j


@prop("C21", "the kernel model in harness/kern.h and harness/h_e2e.c")
def c21(q):
    return dict(jobs=e2e_jobs(q), witnesses=["seat", "opened", "long", "too-long", "path-errno", "open-errno", "not-active", "closed-device", "close-failed", "switched", "acknowledged", "disabled", "agree-active", "agree-inactive", "nested", "acts", "left", "stopped", "vt"], budget=150 if q else 3600,
                bounds="the seatd backend of libseat and the whole daemon joined; up to 2 applications; 10 listed histories of up to 10 calls followed by 1 (thorough 2) arbitrary calls or VT switches with every argument, 2 (3) from the start; calls of the other application in the middle of a call; 1 or 2 calls made by callbacks, nested dispatches included; bytes in any direction cut to 1, 2, 3, 5, 100; short and refused sends; interrupted waits; every errno; paths of 1 to 11 arbitrary and of 253 to 258 characters; the daemon stopping",
                assumptions=["sockets and kernel as modelled; the applications call only what the library's documentation allows (a disable is acknowledged after it was dispatched)", "error codes are those of Linux, 1 to 4095"])


h_launch = Harness("h_launch.c", ["seatd-launch/seatd-launch.c"], rdefs=["-Dmain=vf_prog_main"])

h_main = Harness("h_main.c", ["seatd/seatd.c"], rdefs=["-Dmain=vf_prog_main"])
h_log = Harness("h_log.c", ["common/log.c"])
B3 = ["-DLIBSEAT=1", "-DSEATD_ENABLED=1", "-DLOGIND_ENABLED=1", "-DBUILTIN_ENABLED=1"]


def backend(fl):
    return Harness("h_backend.c", [("libseat/libseat.c", fl), ("libseat/backend/noop.c", fl)], hdefs=fl[1:])


h_backends = {"slb": backend(B3), "s": backend(B3[:2]), "l": backend([B3[0], B3[2]]), "b": backend([B3[0], B3[3]]), "sb": backend([B3[0], B3[1], B3[3]]), "lb": backend([B3[0], B3[2], B3[3]]), "sl": backend(B3[:3])}
h_backend = h_backends["slb"]
LL = ["-DLIBSEAT=1", "-DLOGIND_ENABLED=1", "-DHAVE_LIBSYSTEMD=1"]
h_logind = Harness("h_logind.c", [("libseat/libseat.c", LL), ("libseat/backend/logind.c", LL), ("libseat/backend/noop.c", LL)])


# ---------------------------------------------------------------- C22, C24: choice of backend, no-op backend
@prop("C22", "the stub backends in harness/h_backend.c")
def c22(q):
    jobs = [Job(h, mode=0, len=n, faults=f) for h in h_backends.values() for n, f in ((7, 1), (8, 0))] + [Job(h_client_b, script="*", builtin=2, faults=1 if q else 2), Job(h_client_b, script="d", builtin=2)]
    if not q:
        jobs += [Job(h, mode=0, len=n, faults=2) for h in h_backends.values() for n in (1, 2, 3, 4, 5, 6, 9)]
    return dict(jobs=jobs, witnesses=["named", "named-failed", "unknown", "first", "none", "noop", "no-listener", "embedded"], budget=150,
                bounds="every value of the environment variable up to 8 (thorough 9) characters; every combination of backends compiled in, failing, and errno; every missing listener or callback; one call of each function passed on with any argument and result; the child of the builtin backend serving up to 3 rounds",
                assumptions=["backends are stubs; the real ones are covered by C17-C20, C23, C24"])


@prop("C24", "the system call stubs in harness/h_backend.c")
def c24(q):
    n = 3 if q else 5
    jobs = [Job(h_backend, mode=1, ops=n, jobs=2 if q else 8), Job(h_backend, mode=1, ops=2, faults=1), Job(h_backend, mode=1, ops=1, rounds=2), Job(h_backends["s"], mode=1, ops=2, faults=2)]
    return dict(jobs=jobs, witnesses=["dispatch", "dispatch-failed", "device", "device-failed", "switch", "open-failed", "closed", "nested"], budget=150 if q else 1800,
                bounds="up to %d arbitrary calls, every argument, errno and timeout, one failing call or allocation at any point; the callback acknowledges, opens a device, dispatches or does nothing" % n, assumptions=[])


# ---------------------------------------------------------------- C23: logind
def logind_jobs(q):
    J = lambda s, **k: Job(h_logind, s, **k)
    j = [J("d", evs=1, oe=1), J("0d", evs=1, oe=1, type=1, shared=1, extra=0), J("0dd", evs=1, jobs=2), J("dd", evs=2, jobs=4), J("d**", evs=1, extra=0, jobs=4), J("d0cd", cb=1, evs=1, extra=0, jobs=4), J("01d", evs=1, kind=2, cb=1), J("01d", evs=2, kind=2, extra=0, jobs=4),
         J("dd", evs=3, kind=1, extra=0), J("dd", evs=3, kind=0, extra=0), J("***", jobs=2), J("d**", po=1, jobs=2), J("d*", evs=1, po=1, extra=0),
         J("**", faults=1), J("**", faults=1, id=1, type=1), J("*", faults=2, id=2), J("d*", faults=1, evs=1, oe=1, extra=0, jobs=4), J("01d", faults=1, evs=1, kind=2, jobs=2), J("d", faults=1, evs=1), J("d", faults=1, evs=2, extra=0, jobs=2), J("0c*", faults=1), J("0d", evs=1, wq=1, extra=0),
         J("0cs", fixdev=0), J("01cc", fixdev=0), J("0d", evs=1, kind=2, fixdev=0), J("0c01cc", dup0=0, evs=1, extra=0), J("d", rounds=2, evs=1, kind=0, extra=0), J("0d", rounds=2), J("0", rounds=2, faults=1), J("dd", evs=1, nest=1), J("0d", evs=2, nest=1, extra=0), J("d", faults=1, nest=1)]
    if not q:
        j = [J("d*d", evs=1, po=1, extra=0, jobs=8), J("d**", evs=2, jobs=8), J("0dd", evs=2, jobs=8), J("01d", evs=3, kind=2, extra=0, jobs=8), J("d0cd", cb=2, evs=2, extra=0, jobs=8), J("d***", evs=1, extra=0, jobs=8), J("****", jobs=8), J("***", faults=1, jobs=8), J("**", faults=2, evs=1, extra=0, jobs=8), J("dd", evs=2, oe=1, faults=1, jobs=8), J("d**", po=1, evs=1, cb=1, faults=1, extra=0, jobs=8)] + j
    return j


@prop("C23", "the stub of sd-bus, sd-login and logind in harness/h_logind.c")
def c23(q):
    return dict(jobs=logind_jobs(q), witnesses=["enabled", "disabled", "acknowledged", "signal", "ping", "queued", "broken", "hangup", "opened", "open-failed", "closed-device", "switched", "switch-failed", "not-opened", "acts", "late-ping", "closed"], budget=200 if q else 3600,
                bounds="libseat.c and the logind backend from open to close, up to 3 (thorough 4) calls with arbitrary arguments; up to 2-3 events at any bus call: activity changes told by value or by invalidation, pause signals of every kind for 3 devices, unrelated properties and interfaces; one (two) failing calls, allocations or unreadable messages; a bus that hangs up; every device number within 12 and 20 bits (concrete numbers in most jobs)",
                assumptions=["sd-bus keeps its documented contracts: a synchronous call queues what arrives before the reply; messages and errors are owned by the caller", "Active occurs at most once among changed and once among invalidated properties", "callbacks open or close at most one device and acknowledge"])


# ---------------------------------------------------------------- C25 - C27: programs
def launch_jobs(q):
    j = [Job(h_launch, argv=a) for a in range(11)] + [Job(h_launch, argv=1, faults=1, eintr=1, jobs=2), Job(h_launch, argv=2, eintr=2, jobs=2), Job(h_launch, argv=1, faults=2), Job(h_launch, argv=3, faults=1), Job(h_launch, argv=1, polls=8), Job(h_launch, argv=1, ignored=1)]
    if not q:
        j += [Job(h_launch, argv=1, faults=2, eintr=2, polls=6, jobs=8), Job(h_launch, argv=2, eintr=3, polls=6, jobs=8), Job(h_launch, argv=1, polls=30)]
    return j


LA_B = "main from start to end, in the launcher and in both children; 11 forms of command line with arbitrary characters; every uid, gid and wait status; up to 3 (thorough 29) rounds of waiting; one or two failing calls and interruptions; the daemon becoming ready, closing the pipe or dying at any call"
LA_A = ["kernel stub of harness/h_launch.c; with SIGCHLD ignored only that the launcher ends and fails", "the daemon is what C27 says; here it is a stub"]


@prop("C25", "the kernel stub in harness/h_launch.c")
def c25(q):
    return dict(jobs=launch_jobs(q), witnesses=["command", "daemon", "failed", "exec-failed", "usage"], bounds=LA_B, assumptions=LA_A, budget=150 if q else 1800)


@prop("C26", "the kernel stub in harness/h_launch.c")
def c26(q):
    return dict(jobs=launch_jobs(q), witnesses=["ready", "exited", "signaled", "told", "daemon-died", "pipe-closed", "failed", "usage"], bounds=LA_B, assumptions=LA_A, budget=150 if q else 1800)


@prop("C27", "the file system, socket and server stubs in harness/h_main.c")
def c27(q):
    opts = ["", "n", "z", "zn", "u", "g", "ug", "ugn3", "gn", "U", "G", "uU", "n0", "1n", "4", "N", "zu", "uz", "gz", "zg", "w", "W", "v", "h", "x", "zh", "nw", "2zn", "32", "13", "203u", "3z", "z3", "z0n", "1zn", "n3z", "u3", "3g", "nz", "u1gn", "h0", "zz", "uu", "nn"]
    jobs = [Job(h_main, strs={"script": o}, faults=f) for o in opts for f in ((0, 1) if q else (0, 1, 2, 3))] + [Job(h_main, strs={"script": o}, race=1, faults=f) for o in ("", "ugn", "n") for f in (0, 1)] + [Job(h_sys, "co0t", vtb=v) for v in (0, 1)]
    return dict(jobs=jobs, witnesses=["serving", "ready", "refused", "removed-leftover", "removed-own", "in-use", "usage"], budget=150 if q else 900,
                bounds="main from start to stop with 44 combinations of options, every uid, gid, umask and readiness descriptor below 100; at the path nothing, a socket, file, directory, fifo, device, link to a socket or file, or nothing visible; up to 3 rounds of the loop; one (thorough three) failing calls; another daemon taking the path in between",
                assumptions=["the server's own code is a stub here (C01-C13)", "the readiness descriptor is not the socket's"])


# ---------------------------------------------------------------- C28: log
@prop("C28", "the C library stubs in harness/h_log.c")
def c28(q):
    jobs = [Job(h_log, ops=3, tty=t, jobs=2) for t in (0, 1)] + [Job(h_log, default=1, ops=2, tty=t, jobs=2) for t in (0, 1)]
    if not q:
        jobs = [Job(h_log, ops=4, tty=0, jobs=8), Job(h_log, default=1, ops=3, tty=1, jobs=8), Job(h_log, default=1, ops=3, tty=0, jobs=8)] + jobs
    return dict(jobs=jobs, witnesses=["delivered", "dropped", "written"], budget=150 if q else 1800,
                bounds="up to 3 (thorough 4) operations: any level set, any handler of two or the default, any message level, any errno, integer, string and long arguments; the default handler with 2 start times and 4 elapsed times, on a terminal or not",
                assumptions=["messages are shorter than 200 characters"])


# ---------------------------------------------------------------- C29: platforms
def _plat(n, hid=False):
    import vf
    b = vf.H + "/bsd"
    sysf = {1: [], 2: ["-DVF_AS_FREEBSD", "-I" + b + "/freebsd"], 3: ["-DVF_AS_NETBSD", "-I" + b + "/netbsd"]}[n]
    if hid:
        sysf = sysf + HID
    return Harness("h_plat.c", ["common/terminal.c", "common/drm.c", "common/evdev.c", "common/hidraw.c", "common/wscons.c"], hdefs=["-DPLAT=%d" % n, "-DHID=%d" % hid], rdefs=sysf)


h_plats = [_plat(1), _plat(1, True), _plat(2), _plat(3)]


@prop("C29", "the names and requests of the three systems, written in harness/h_plat.c")
def c29(q):
    jobs = []
    for h in h_plats:
        jobs += [Job(h, mode=0), Job(h, mode=1, faults=1, jobs=8 if h is h_plats[2] else 1), Job(h, mode=2, faults=1 if q else 2)]
    return dict(jobs=jobs, witnesses=["device", "no-device", "terminal", "terminal-failed", "no-name", "operation", "operation-failed"], budget=150,
                bounds="every path up to 11 characters, and every known prefix with one character changed or cut and up to 2 arbitrary characters behind; every terminal number (FreeBSD), 78 numbers up to 65535 (Linux, NetBSD); every operation with every argument and one failing call, for Linux with and without hidraw revocation, FreeBSD and NetBSD",
                assumptions=["the BSD headers are stand-ins that give the documented names some numbers", "terminal numbers are the kernel's, so at most 65535 on Linux and NetBSD"])


# ---------------------------------------------------------------- C30: the embedded daemon
h_embed = Harness("h_sys.c", SEATD, hdefs=["-DEMBED"], rdefs=["-DLIBSEAT=1"])


def embed_jobs(q):
    J = lambda s, **k: Job(h_embed, s, **k)
    j = []
    for vtb in (0, 1):
        j += [J("***" if q else "****", vtb=vtb, jobs=1 if q else 8), J("o0d00d00d01" + "*" * (2 if q else 3), vtb=vtb, jobs=1 if q else 4), J("o0d00d01k01" + "*" * (1 if q else 2), vtb=vtb),
              J("m0*", vtb=vtb), J("o0d01m0", vtb=vtb, len=4), J("!o0d00d01*", vtb=vtb, faults=1 if q else 2, fmask=F_RES | F_CONN), J("", vtb=vtb, finit=1, faults=1 if q else 2, fmask=F_RES | F_CONN), J("o0d01h0", vtb=vtb, finit=1, faults=1, fmask=F_RES | F_CONN)]
    j += [J(p + "*" * (1 if q else 2), vtb=1) for p in ("o0d00d01v2", "o0d00d01v2a0", "o0d01v2a0v1", "o0d01v2v3a0", "v2o0d00v1")]
    j += [J(p + "!*", vtb=1, faults=1, fmask=F_RES | F_CONN) for p in ("o0d00d01v2", "o0d01v2a0")]
    j += [Job(h_client_b, script="*", builtin=2, faults=1 if q else 2), Job(h_client_b, script="d", builtin=2)]
    return j


@prop("C30", "the kernel model in harness/kern.h")
def c30(q):
    return dict(jobs=embed_jobs(q), witnesses=["serving", "application-left", "not-started", "not-served", "enabled", "device-opened", "disable-event", "malformed", "vt-restored", "shutdown", "embedded"], budget=150 if q else 3600,
                bounds="server.c, client.c, seat.c, poller.c, connection.c and the device and terminal helpers as built into the library, with one application connected from the start; every history of 3 (thorough 4) events, and 12 listed states followed by 1-2 (2-3) arbitrary events or VT switches with every argument; one (two) failing calls at any point from the start on; the forked child of the builtin backend with a stub server serving up to 3 rounds",
                assumptions=SYS_ASSUME)
