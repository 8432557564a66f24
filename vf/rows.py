"""The rows atop 1.26 defines for its parseable formats, computed from raw structures through the model."""
from vf import model

LAY = model.layout("1.26")
PATCHSTAT, IOSTAT = 0x2, 0x4  # atop.h
FORMATS = ["cpu", "CPL", "CPU", "DSK", "LVM", "MDD", "MEM", "NETL", "NETU", "PAG", "PRC", "PRD", "PRG", "PRM", "PRN", "SWP"]
CLI_FORMATS = [f for f in FORMATS if f != "PRD"]


def rows(fmt, header, record, sstat, tstats):
    """All rows of one format. Arguments are raw bytes."""
    h = lambda *p: LAY.get(header, "Header", p)  # noqa: E731
    r = lambda *p: LAY.get(record, "Record", p)  # noqa: E731
    s = lambda *p: LAY.get(sstat, "SStat", p)  # noqa: E731
    base = {"timestamp": r("curtime"), "interval": r("interval")}
    if fmt == "cpu":
        n = min(s("cpu", "nrcpu"), 64)
        return [dict(base, ticks=h("hertz"), proc=i, **cpu(lambda f, i=i: s("cpu", "cpu", i, f))) for i in range(n)]
    if fmt == "CPU":
        return [dict(base, ticks=h("hertz"), procs=s("cpu", "nrcpu"), **cpu(lambda f: s("cpu", "all", f)))]
    if fmt == "CPL":
        return [dict(base, procs=s("cpu", "nrcpu"), load_1=s("cpu", "lavg1"), load_5=s("cpu", "lavg5"), load_15=s("cpu", "lavg15"),
                     context_switches=s("cpu", "csw"), interrupts=s("cpu", "devint"))]
    if fmt in ("DSK", "LVM", "MDD"):
        array = fmt.lower()
        out = []
        for i in range(LAY.field("DSKStat", array).count):
            g = lambda f, i=i: s("dsk", array, i, f)  # noqa: E731
            if not g("name"):
                break
            out.append(dict(base, name=model.text(g("name")), io_ms=g("io_ms"), reads=g("nread"), read_sectors=g("nrsect"),
                            writes=g("nwrite"), write_sectors=g("nwsect")))
        return out
    if fmt == "MEM":
        return [dict(base, page_size=h("pagesize"), phys_mem=s("mem", "physmem"), free_mem=s("mem", "freemem"),
                     page_cache=s("mem", "cachemem"), buffer_cache=s("mem", "buffermem"), slab=s("mem", "slabmem"),
                     dirty_pages=s("mem", "cachedrt"))]
    if fmt == "NETL":
        out = []
        for i in range(LAY.field("IntfStat", "intf").count):
            g = lambda f, i=i: s("intf", "intf", i, f)  # noqa: E731
            if not g("name"):
                break
            out.append(dict(base, name=model.text(g("name")), pkt_received=g("rpack"), byte_received=g("rbyte"),
                            pkt_transmitted=g("spack"), bytes_transmitted=g("sbyte"), speed=g("speed"), duplex=g("duplex")[0]))
        return out
    if fmt == "NETU":
        n = lambda *p: s("net", *p)  # noqa: E731
        return [dict(base, name="upper", tcp_pkt_received=n("tcp", "InSegs"), tcp_pkt_transmitted=n("tcp", "OutSegs"),
                     udp_pkt_received=n("udpv4", "InDatagrams") + n("udpv6", "Udp6InDatagrams"),
                     udp_pkt_transmitted=n("udpv4", "OutDatagrams") + n("udpv6", "Udp6OutDatagrams"),
                     ip_pkt_received=n("ipv4", "InReceives") + n("ipv6", "Ip6InReceives"),
                     ip_pkt_transmitted=n("ipv4", "OutRequests") + n("ipv6", "Ip6OutRequests"),
                     ip_pkt_delivered=n("ipv4", "InDelivers") + n("ipv6", "Ip6InDelivers"),
                     ip_pkt_forwarded=n("ipv4", "ForwDatagrams") + n("ipv6", "Ip6OutForwDatagrams"))]
    if fmt == "PAG":
        return [dict(base, page_size=h("pagesize"), page_scans=s("mem", "pgscans"), alloc_stalls=s("mem", "allocstall"),
                     swapins=s("mem", "swins"), swapouts=s("mem", "swouts"))]
    if fmt == "SWP":
        return [dict(base, page_size=h("pagesize"), swap=s("mem", "totswap"), free_swap=s("mem", "freeswap"),
                     committed_space=s("mem", "committed"), committed_limit=s("mem", "commitlim"))]
    out = []
    for t in tstats:
        g = lambda *p, t=t: LAY.get(t, "TStat", p)  # noqa: E731
        row = dict(base, pid=g("gen", "pid"), name=model.text(g("gen", "name")),
                   state=g("gen", "state").decode("utf-8", "ignore"))
        if fmt == "PRC":
            row.update(ticks=h("hertz"), user_consumption=g("cpu", "utime"), system_consumption=g("cpu", "stime"),
                       nice=g("cpu", "nice"), priority=g("cpu", "prio"), priority_realtime=g("cpu", "rtprio"),
                       policy=g("cpu", "policy"), cpu=g("cpu", "curcpu"), sleep=g("cpu", "sleepavg"))
        elif fmt == "PRD":
            row.update(kernel_patch="y" if h("supportflags") & PATCHSTAT else "n",
                       standard_io="y" if h("supportflags") & IOSTAT else "n", reads=g("dsk", "rio"), read_sectors=g("dsk", "rsz"),
                       writes=g("dsk", "wio"), written_sectors=g("dsk", "wsz"), cancelled_sector_writes=g("dsk", "cwsz"))
        elif fmt == "PRG":
            row.update(real_uid=g("gen", "ruid"), real_gid=g("gen", "rgid"), tgid=g("gen", "pid"), threads=g("gen", "nthr"),
                       exit_code=g("gen", "excode"), start_time=g("gen", "btime"), cmd=model.text(g("gen", "cmdline")),
                       ppid=g("gen", "ppid"), running_threads=g("gen", "nthrrun"), sleeping_threads=g("gen", "nthrslpi"),
                       dead_threads=g("gen", "nthrslpu"), effective_uid=g("gen", "euid"), effective_gid=g("gen", "egid"),
                       saved_uid=g("gen", "suid"), saved_gid=g("gen", "sgid"), filesystem_uid=g("gen", "fsuid"),
                       filesystem_gid=g("gen", "fsgid"), elapsed_time=g("gen", "elaps"))
        elif fmt == "PRM":
            row.update(page=h("pagesize"), vsize=g("mem", "vmem") * 1024, rsize=g("mem", "rmem") * 1024,
                       ssize=g("mem", "shtext") * 1024, vgrowth=g("mem", "vgrow") * 1024, rgrowth=g("mem", "rgrow") * 1024,
                       minor_faults=g("mem", "minflt"), major_faults=g("mem", "majflt"))
        elif fmt == "PRN":
            row.update(kernel_patch="y" if h("supportflags") & PATCHSTAT else "n", tcp_transmitted=g("net", "tcpsnd"),
                       tcp_transmitted_size=g("net", "tcpssz"), tcp_received=g("net", "tcprcv"), tcp_received_size=g("net", "tcprsz"),
                       udp_transmitted=g("net", "udpsnd"), udp_transmitted_size=g("net", "udpssz"), udp_received=g("net", "udprcv"),
                       udp_received_size=g("net", "udprsz"), raw_transmitted=g("net", "rawsnd"), raw_received=g("net", "rawrcv"))
        else:
            raise KeyError(fmt)
        out.append(row)
    return out


def cpu(g):
    return {"system": g("stime"), "user": g("utime"), "niced": g("ntime"), "idle": g("itime"), "wait": g("wtime"),
            "irq": g("Itime"), "softirq": g("Stime"), "steal": g("steal"), "guest": g("guest")}
