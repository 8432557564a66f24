/* Structures in raw logs of atop 2.11 (x86-64 Linux). */
typedef long long count_t;

struct Record {
	count_t curtime;
	unsigned short flags;
	unsigned short ncgroups;
	unsigned short sfuture[2];
	unsigned int scomplen;
	unsigned int pcomplen;
	unsigned int interval;
	unsigned int ndeviat;
	unsigned int nactproc;
	unsigned int ntask;
	unsigned int totproc;
	unsigned int totrun;
	unsigned int totslpi;
	unsigned int totslpu;
	unsigned int totzomb;
	unsigned int nexit;
	unsigned int noverflow;
	unsigned int totidle;
	unsigned int ccomplen;
	unsigned int coriglen;
	unsigned int ncgpids;
	unsigned int icomplen;
	unsigned int ifuture;
};

struct FreqCnt {
	count_t maxfreq;
	count_t cnt;
	count_t ticks;
};

struct PerCPU {
	int cpunr;
	count_t stime;
	count_t utime;
	count_t ntime;
	count_t itime;
	count_t wtime;
	count_t Itime;
	count_t Stime;
	count_t steal;
	count_t guest;
	struct FreqCnt freqcnt;
	count_t instr;
	count_t cycle;
	count_t cfuture[6];
};

struct CPUStat {
	count_t nrcpu;
	count_t devint;
	count_t csw;
	count_t nprocs;
	float lavg1;
	float lavg5;
	float lavg15;
	count_t cfuture[4];
	struct PerCPU all;
	struct PerCPU cpu[2048];
};

struct MemStat {
	count_t physmem;
	count_t freemem;
	count_t buffermem;
	count_t slabmem;
	count_t cachemem;
	count_t cachedrt;
	count_t totswap;
	count_t freeswap;
	count_t pgscans;
	count_t pgsteal;
	count_t allocstall;
	count_t swouts;
	count_t swins;
	count_t tcpsock;
	count_t udpsock;
	count_t commitlim;
	count_t committed;
	count_t shmem;
	count_t shmrss;
	count_t shmswp;
	count_t slabreclaim;
	count_t stothugepage;
	count_t sfreehugepage;
	count_t shugepagesz;
	count_t vmwballoon;
	count_t zfsarcsize;
	count_t swapcached;
	count_t ksmsharing;
	count_t ksmshared;
	count_t zswapped;
	count_t zswap;
	count_t oomkills;
	count_t compactstall;
	count_t pgmigrate;
	count_t numamigrate;
	count_t pgouts;
	count_t pgins;
	count_t pagetables;
	count_t zswouts;
	count_t zswins;
	count_t ltothugepage;
	count_t lfreehugepage;
	count_t lhugepagesz;
	count_t availablemem;
	count_t anonhugepage;
	count_t cfuture[5];
};

struct IPv4Stats {
	count_t Forwarding;
	count_t DefaultTTL;
	count_t InReceives;
	count_t InHdrErrors;
	count_t InAddrErrors;
	count_t ForwDatagrams;
	count_t InUnknownProtos;
	count_t InDiscards;
	count_t InDelivers;
	count_t OutRequests;
	count_t OutDiscards;
	count_t OutNoRoutes;
	count_t ReasmTimeout;
	count_t ReasmReqds;
	count_t ReasmOKs;
	count_t ReasmFails;
	count_t FragOKs;
	count_t FragFails;
	count_t FragCreates;
};

struct ICMPv4Stats {
	count_t InMsgs;
	count_t InErrors;
	count_t InCsumErrors;
	count_t InDestUnreachs;
	count_t InTimeExcds;
	count_t InParmProbs;
	count_t InSrcQuenchs;
	count_t InRedirects;
	count_t InEchos;
	count_t InEchoReps;
	count_t InTimestamps;
	count_t InTimestampReps;
	count_t InAddrMasks;
	count_t InAddrMaskReps;
	count_t OutMsgs;
	count_t OutErrors;
	count_t OutDestUnreachs;
	count_t OutTimeExcds;
	count_t OutParmProbs;
	count_t OutSrcQuenchs;
	count_t OutRedirects;
	count_t OutEchos;
	count_t OutEchoReps;
	count_t OutTimestamps;
	count_t OutTimestampReps;
	count_t OutAddrMasks;
	count_t OutAddrMaskReps;
};

struct UDPv4Stats {
	count_t InDatagrams;
	count_t NoPorts;
	count_t InErrors;
	count_t OutDatagrams;
};

struct IPv6Stats {
	count_t Ip6InReceives;
	count_t Ip6InHdrErrors;
	count_t Ip6InTooBigErrors;
	count_t Ip6InNoRoutes;
	count_t Ip6InAddrErrors;
	count_t Ip6InUnknownProtos;
	count_t Ip6InTruncatedPkts;
	count_t Ip6InDiscards;
	count_t Ip6InDelivers;
	count_t Ip6OutForwDatagrams;
	count_t Ip6OutRequests;
	count_t Ip6OutDiscards;
	count_t Ip6OutNoRoutes;
	count_t Ip6ReasmTimeout;
	count_t Ip6ReasmReqds;
	count_t Ip6ReasmOKs;
	count_t Ip6ReasmFails;
	count_t Ip6FragOKs;
	count_t Ip6FragFails;
	count_t Ip6FragCreates;
	count_t Ip6InMcastPkts;
	count_t Ip6OutMcastPkts;
};

struct ICMPv6Stats {
	count_t Icmp6InMsgs;
	count_t Icmp6InErrors;
	count_t Icmp6InDestUnreachs;
	count_t Icmp6InPktTooBigs;
	count_t Icmp6InTimeExcds;
	count_t Icmp6InParmProblems;
	count_t Icmp6InEchos;
	count_t Icmp6InEchoReplies;
	count_t Icmp6InGroupMembQueries;
	count_t Icmp6InGroupMembResponses;
	count_t Icmp6InGroupMembReductions;
	count_t Icmp6InRouterSolicits;
	count_t Icmp6InRouterAdvertisements;
	count_t Icmp6InNeighborSolicits;
	count_t Icmp6InNeighborAdvertisements;
	count_t Icmp6InRedirects;
	count_t Icmp6OutMsgs;
	count_t Icmp6OutDestUnreachs;
	count_t Icmp6OutPktTooBigs;
	count_t Icmp6OutTimeExcds;
	count_t Icmp6OutParmProblems;
	count_t Icmp6OutEchoReplies;
	count_t Icmp6OutRouterSolicits;
	count_t Icmp6OutNeighborSolicits;
	count_t Icmp6OutNeighborAdvertisements;
	count_t Icmp6OutRedirects;
	count_t Icmp6OutGroupMembResponses;
	count_t Icmp6OutGroupMembReductions;
};

struct UDPv6Stats {
	count_t Udp6InDatagrams;
	count_t Udp6NoPorts;
	count_t Udp6InErrors;
	count_t Udp6OutDatagrams;
};

struct TCPStats {
	count_t RtoAlgorithm;
	count_t RtoMin;
	count_t RtoMax;
	count_t MaxConn;
	count_t ActiveOpens;
	count_t PassiveOpens;
	count_t AttemptFails;
	count_t EstabResets;
	count_t CurrEstab;
	count_t InSegs;
	count_t OutSegs;
	count_t RetransSegs;
	count_t InErrs;
	count_t OutRsts;
	count_t InCsumErrors;
};

struct NETStat {
	struct IPv4Stats ipv4;
	struct ICMPv4Stats icmpv4;
	struct UDPv4Stats udpv4;
	struct IPv6Stats ipv6;
	struct ICMPv6Stats icmpv6;
	struct UDPv6Stats udpv6;
	struct TCPStats tcp;
};

struct PerIntf {
	char name[16];
	count_t rbyte;
	count_t rpack;
	count_t rerrs;
	count_t rdrop;
	count_t rfifo;
	count_t rframe;
	count_t rcompr;
	count_t rmultic;
	count_t rfuture[4];
	count_t sbyte;
	count_t spack;
	count_t serrs;
	count_t sdrop;
	count_t sfifo;
	count_t scollis;
	count_t scarrier;
	count_t scompr;
	count_t sfuture[4];
	char type;
	count_t speed;
	count_t speedp;
	char duplex;
	count_t cfuture[4];
};

struct IntfStat {
	int nrintf;
	struct PerIntf intf[128];
};

struct MemPerNUMA {
	int numanr;
	float frag;
	count_t totmem;
	count_t freemem;
	count_t filepage;
	count_t dirtymem;
	count_t slabmem;
	count_t slabreclaim;
	count_t active;
	count_t inactive;
	count_t shmem;
	count_t tothp;
	count_t freehp;
	count_t cfuture[2];
};

struct MemNUMA {
	count_t nrnuma;
	struct MemPerNUMA numa[1024];
};

struct CPUPerNUMA {
	int numanr;
	count_t nrcpu;
	count_t stime;
	count_t utime;
	count_t ntime;
	count_t itime;
	count_t wtime;
	count_t Itime;
	count_t Stime;
	count_t steal;
	count_t guest;
	count_t cfuture[2];
};

struct CPUNUMA {
	count_t nrnuma;
	struct CPUPerNUMA numa[1024];
};

struct PerDSK {
	char name[32];
	count_t nread;
	count_t nrsect;
	count_t nwrite;
	count_t nwsect;
	count_t io_ms;
	count_t avque;
	count_t ndisc;
	count_t ndsect;
	count_t inflight;
	count_t cfuture[3];
};

struct DSKStat {
	int ndsk;
	int nmdd;
	int nlvm;
	struct PerDSK dsk[1024];
	struct PerDSK mdd[256];
	struct PerDSK lvm[2048];
};

struct Server {
	count_t netcnt;
	count_t netudpcnt;
	count_t nettcpcnt;
	count_t nettcpcon;
	count_t rpccnt;
	count_t rpcbadfmt;
	count_t rpcbadaut;
	count_t rpcbadcln;
	count_t rpcread;
	count_t rpcwrite;
	count_t rchits;
	count_t rcmiss;
	count_t rcnoca;
	count_t nrbytes;
	count_t nwbytes;
	count_t future[8];
};

struct Client {
	count_t rpccnt;
	count_t rpcretrans;
	count_t rpcautrefresh;
	count_t rpcread;
	count_t rpcwrite;
	count_t future[8];
};

struct PerNFSMount {
	char mountdev[128];
	count_t age;
	count_t bytesread;
	count_t byteswrite;
	count_t bytesdread;
	count_t bytesdwrite;
	count_t bytestotread;
	count_t bytestotwrite;
	count_t pagesmread;
	count_t pagesmwrite;
	count_t future[8];
};

struct NFSMounts {
	int nrmounts;
	struct PerNFSMount nfsmnt[64];
};

struct NFSStat {
	struct Server server;
	struct Client client;
	struct NFSMounts nfsmounts;
};

struct PerContainer {
	unsigned long ctid;
	unsigned long numproc;
	count_t system;
	count_t user;
	count_t nice;
	count_t uptime;
	count_t physpages;
};

struct ContStat {
	int nrcontainer;
	struct PerContainer cont[128];
};

struct PSI {
	float avg10;
	float avg60;
	float avg300;
	count_t total;
};

struct Pressure {
	char present;
	char future[3];
	struct PSI cpusome;
	struct PSI memsome;
	struct PSI memfull;
	struct PSI iosome;
	struct PSI iofull;
};

struct PerGPU {
	char taskstats;
	unsigned char nrprocs;
	char type[13];
	char busid[13];
	int gpunr;
	int gpupercnow;
	int mempercnow;
	count_t memtotnow;
	count_t memusenow;
	count_t samples;
	count_t gpuperccum;
	count_t memperccum;
	count_t memusecum;
};

struct GPUStat {
	int nrgpus;
	struct PerGPU gpu[32];
};

struct PerIFB {
	char ibname[12];
	short portnr;
	short lanes;
	count_t rate;
	count_t rcvb;
	count_t sndb;
	count_t rcvp;
	count_t sndp;
	count_t cfuture[4];
};

struct IFBStat {
	int nrports;
	struct PerIFB ifb[32];
};

struct PerLLC {
	unsigned char id;
	float occupancy;
	count_t mbm_local;
	count_t mbm_total;
};

struct LLCStat {
	int nrllcs;
	struct PerLLC perllc[256];
};

struct WWWStat {
	count_t accesses;
	count_t totkbytes;
	count_t uptime;
	int bworkers;
	int iworkers;
};

struct SStat {
	struct CPUStat cpu;
	struct MemStat mem;
	struct NETStat net;
	struct IntfStat intf;
	struct MemNUMA memnuma;
	struct CPUNUMA cpunuma;
	struct DSKStat dsk;
	struct NFSStat nfs;
	struct ContStat cfs;
	struct Pressure psi;
	struct GPUStat gpu;
	struct IFBStat ifb;
	struct LLCStat llc;
	struct WWWStat www;
};

struct GEN {
	int tgid;
	int pid;
	int ppid;
	int ruid;
	int euid;
	int suid;
	int fsuid;
	int rgid;
	int egid;
	int sgid;
	int fsgid;
	int nthr;
	char name[16];
	char isproc;
	char state;
	int excode;
	count_t btime;
	count_t elaps;
	char cmdline[256];
	int nthrslpi;
	int nthrslpu;
	int nthrrun;
	int nthridle;
	int ctid;
	int vpid;
	int wasinactive;
	char utsname[16];
	int cgroupix;
	int ifuture[4];
};

struct CPU {
	count_t utime;
	count_t stime;
	int nice;
	int prio;
	int rtprio;
	int policy;
	int curcpu;
	int sleepavg;
	int ifuture[6];
	char wchan[16];
	count_t rundelay;
	count_t blkdelay;
	count_t nvcsw;
	count_t nivcsw;
	count_t cfuture[3];
};

struct DSK {
	count_t rio;
	count_t rsz;
	count_t wio;
	count_t wsz;
	count_t cwsz;
	count_t cfuture[4];
};

struct MEM {
	count_t minflt;
	count_t majflt;
	count_t vexec;
	count_t vmem;
	count_t rmem;
	count_t pmem;
	count_t vgrow;
	count_t rgrow;
	count_t vdata;
	count_t vstack;
	count_t vlibs;
	count_t vswap;
	count_t vlock;
	count_t cfuture[7];
};

struct NET {
	count_t tcpsnd;
	count_t tcpssz;
	count_t tcprcv;
	count_t tcprsz;
	count_t udpsnd;
	count_t udpssz;
	count_t udprcv;
	count_t udprsz;
	count_t avail1;
	count_t avail2;
	count_t cfuture[4];
};

struct GPU {
	char state;
	char bfuture[3];
	short nrgpus;
	int gpulist;
	int gpubusy;
	int membusy;
	count_t timems;
	count_t memnow;
	count_t memcum;
	count_t sample;
	count_t cfuture[3];
};

struct TStat {
	struct GEN gen;
	struct CPU cpu;
	struct DSK dsk;
	struct MEM mem;
	struct NET net;
	struct GPU gpu;
};

struct CGGen {
	int structlen;
	int sequence;
	int parentseq;
	int depth;
	int nprocs;
	int procsbelow;
	int namelen;
	int fullnamelen;
	int ifuture[4];
	count_t namehash;
	count_t lfuture[4];
};

struct CGConf {
	int cpuweight;
	int cpumax;
	count_t memmax;
	count_t swpmax;
	int dskweight;
	int ifuture[5];
	count_t cfuture[5];
};

struct CGCPU {
	count_t utime;
	count_t stime;
	count_t somepres;
	count_t fullpres;
	count_t cfuture[5];
};

struct CGMem {
	count_t current;
	count_t anon;
	count_t file;
	count_t kernel;
	count_t shmem;
	count_t somepres;
	count_t fullpres;
	count_t cfuture[5];
};

struct CGDSK {
	count_t rbytes;
	count_t wbytes;
	count_t rios;
	count_t wios;
	count_t somepres;
	count_t fullpres;
	count_t cfuture[5];
};

struct CStat {
	struct CGGen gen;
	struct CGConf conf;
	struct CGCPU cpu;
	struct CGMem mem;
	struct CGDSK dsk;
	char cgname[0];
};

struct UTSName {
	char sysname[65];
	char nodename[65];
	char release[65];
	char version[65];
	char machine[65];
	char domain[65];
};

struct Header {
	unsigned int magic;
	unsigned short aversion;
	unsigned short future1;
	unsigned short future2;
	unsigned short rawheadlen;
	unsigned short rawreclen;
	unsigned short hertz;
	unsigned short pidwidth;
	unsigned short sfuture[5];
	unsigned int sstatlen;
	unsigned int tstatlen;
	struct UTSName utsname;
	char cfuture[8];
	unsigned int pagesize;
	int supportflags;
	int osrel;
	int osvers;
	int ossub;
	int cstatlen;
	int ifuture[5];
};

#define TOP_Record Record
#define TOP_SStat SStat
#define TOP_TStat TStat
#define TOP_CStat CStat
#define TOP_Header Header
