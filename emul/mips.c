// Runs a statically linked Go program for linux/mips (big-endian, 32 bits,
// GOMIPS=softfloat) or, if built with -DM64, linux/mips64 (GOMIPS64=softfloat) on a machine that is neither: one host thread interprets
// the instructions of all threads of the program, and the system calls that
// the Go runtime makes are carried out or refused here. Signals are not
// delivered; the program is to run with GODEBUG=asyncpreemptoff=1.
//
// Exit 3: this emulator cannot go on. Exit 2, with a line that starts
// "SIGSEGV" or "SIGTRAP": the program did what a processor would refuse.
#define _GNU_SOURCE
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int32_t s32;
typedef int64_t s64;

#ifdef M64
typedef u64 reg;
typedef s64 sreg;
#define EHDR Elf64_Ehdr
#define PHDR Elf64_Phdr
#define CLASS ELFCLASS64
#define bword b64
#else
typedef u32 reg;
typedef s32 sreg;
#define EHDR Elf32_Ehdr
#define PHDR Elf32_Phdr
#define CLASS ELFCLASS32
#define bword b32
#endif
#define WORD ((u32)sizeof(reg))

// All memory of the program is below this address.
#define TOP 0x7fff0000u
#define PAGE 4096u
#define NPAGES (TOP / PAGE)

static u8 *mem;
static u8 used[NPAGES];

static void fail(const char *f, ...) {
	va_list a;
	va_start(a, f);
	fprintf(stderr, "HARNESS PANIC: emulator: ");
	vfprintf(stderr, f, a);
	fprintf(stderr, "\n");
	_exit(3);
}

static inline u32 ld32(u32 a) { u32 v; memcpy(&v, mem + a, 4); return __builtin_bswap32(v); }
static inline u16 ld16(u32 a) { u16 v; memcpy(&v, mem + a, 2); return __builtin_bswap16(v); }
static inline void st32(u32 a, u32 v) { v = __builtin_bswap32(v); memcpy(mem + a, &v, 4); }
static inline u64 ld64(u32 a) { u64 v; memcpy(&v, mem + a, 8); return __builtin_bswap64(v); }
static inline void st64(u32 a, u64 v) { v = __builtin_bswap64(v); memcpy(mem + a, &v, 8); }
#ifdef M64
#define ldw ld64
#define stw st64
#else
#define ldw ld32
#define stw st32
#endif
static inline void st16(u32 a, u16 v) { v = __builtin_bswap16(v); memcpy(mem + a, &v, 2); }

// ---- threads

enum { FREE, RUN, WAIT, POLL };
struct thread {
	reg r[33]; // 32: where results for register 0 go
	reg hi, lo;
	u32 pc, npc;
	int state, tid;
	u32 addr;     // of the futex
	s64 deadline; // host time, or -1
	u32 events, max;
};
#define NTHREADS 256
static struct thread th[NTHREADS];
static struct thread *cur;
static int tids = 1000;
static u64 executed, switches;
static u32 llbit, lladdr;
static int eventcount;
static u8 eventdata[8];
static int registered;

static s64 now(void) {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (s64)t.tv_sec * 1000000000 + t.tv_nsec;
}

static void wake(struct thread *t, sreg v0, u32 a3) {
	t->r[2] = v0;
	t->r[7] = a3;
	t->state = RUN;
}

static void pollready(struct thread *t) {
	st32(t->events, 1);
	st32(t->events + 4, 0);
	memcpy(mem + t->events + 8, eventdata, 8);
	wake(t, 1, 0);
}

// schedule makes another thread current, waiting for one if all wait.
static void schedule(void) {
	int k = cur - th;
	llbit = 0;
	switches++;
	for (;;) {
		s64 first = -1, t = 0;
		for (int i = 1; i <= NTHREADS; i++) {
			struct thread *x = &th[(k + i) % NTHREADS];
			if (x->state == WAIT || x->state == POLL) {
				if (x->state == POLL && registered && eventcount) {
					pollready(x);
				} else if (x->deadline >= 0) {
					if (!t)
						t = now();
					if (t >= x->deadline)
						wake(x, x->state == POLL || !x->addr ? 0 : 145, x->state == WAIT && x->addr); // ETIMEDOUT
					else if (first < 0 || x->deadline < first)
						first = x->deadline;
				}
			}
			if (x->state == RUN) {
				cur = x;
				return;
			}
		}
		if (first < 0)
			fail("all threads wait for ever");
		s64 d = first - now();
		if (d > 0) {
			struct timespec ts = {d / 1000000000, d % 1000000000};
			nanosleep(&ts, 0);
		}
	}
}

// ---- memory

static int isfree(u32 a, u32 n) {
	if (a < 0x10000 || a >= TOP || n > TOP - a)
		return 0;
	for (u32 p = a / PAGE; p < (a + n) / PAGE; p++)
		if (used[p])
			return 0;
	return 1;
}

static int map(u32 a, u32 n, int prot) {
	void *p = mmap(mem + a, n, prot & 7, MAP_FIXED | MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED)
		return errno;
	memset(used + a / PAGE, 1, n / PAGE);
	return 0;
}

static s32 do_mmap(u32 a, u32 n, u32 prot, u32 flags, s32 fd) {
	if (!(flags & 0x800) || fd != -1)
		return -ENODEV;
	n = (n + PAGE - 1) & -PAGE;
	if (!n || (a & (PAGE - 1)))
		return -EINVAL;
	if (!(flags & 0x10)) { // not fixed
		if (!a || !isfree(a, n)) {
			u32 run = 0, p = 0x78000000u / PAGE;
			while (--p > 0x10000 / PAGE) {
				run = used[p] ? 0 : run + 1;
				if (run == n / PAGE)
					break;
			}
			if (run != n / PAGE)
				return -ENOMEM;
			a = p * PAGE;
		}
	} else if (a >= TOP || n > TOP - a) {
		return -ENOMEM;
	}
	int e = map(a, n, prot);
	return e ? -e : (s32)a;
}

static char *path(u32 a) { return (char *)mem + a; }

static int openflags(u32 f) {
	int h = f & 3;
	if (f & 0x8) h |= O_APPEND;
	if (f & 0x80) h |= O_NONBLOCK;
	if (f & 0x100) h |= O_CREAT;
	if (f & 0x200) h |= O_TRUNC;
	if (f & 0x400) h |= O_EXCL;
	return h | O_CLOEXEC;
}

#define EVFD 900
#define EPFD 901

// ---- system calls: the value, or minus the error; the numbers of errors
// that Go's runtime looks at and that differ from the host's are translated.

static int guesterr(int e) {
	switch (e) {
	case ENOSYS: return 89;
	case ETIMEDOUT: return 145;
	}
	return e;
}

static s64 spec(u32 a) { return (s64)(sreg)ldw(a) * 1000000000 + ldw(a + WORD); }

#define RESCHEDULED (-100000)

// o32 has the number of the system call in the other convention.
static u32 o32(u32 n) {
	static const u16 m[][2] = {{0, 3}, {1, 4}, {2, 5}, {3, 6}, {5, 215}, {9, 90}, {10, 125}, {11, 91}, {12, 45}, {13, 194}, {14, 195}, {23, 162}, {26, 217},
		{27, 218}, {34, 166}, {38, 20}, {55, 120}, {58, 1}, {60, 37}, {70, 55}, {80, 38}, {129, 206}, {178, 222}, {194, 238}, {196, 240}, {205, 246},
		{208, 249}, {222, 263}, {225, 266}, {247, 288}, {254, 295}, {272, 313}, {284, 325}, {285, 326}, {313, 353}};
	for (unsigned i = 0; i < sizeof m / sizeof *m; i++)
		if (m[i][0] + 5000u == n)
			return m[i][1] + 4000;
	return n;
}

static sreg do_syscall(u32 nr, reg a0, reg a1, reg a2, reg a3) {
	if (WORD == 8)
		nr = o32(nr);
	s64 r;
	switch (nr) {
	case 4001: // exit
		cur->state = FREE;
		schedule();
		return RESCHEDULED;
	case 4246: // exit_group
		if (getenv("SVB_EMUL_STATS"))
			fprintf(stderr, "emulator: %llu instructions, %llu switches\n", (unsigned long long)executed, (unsigned long long)switches);
		_exit(a0 & 0xff);
	case 4003:
		if (a0 == EVFD) {
			if (!eventcount)
				return -EAGAIN;
			memset(mem + a1, 0, 8);
			mem[a1 + 7] = eventcount;
			eventcount = 0;
			return 8;
		}
		r = read(a0, mem + a1, a2);
		return r < 0 ? -errno : r;
	case 4004:
		if (a0 == EVFD) {
			eventcount = 1;
			return 8;
		}
		r = write(a0, mem + a1, a2);
		return r < 0 ? -errno : r;
	case 4005:
		r = open(path(a0), openflags(a1), a2);
		return r < 0 ? -errno : r;
	case 4288:
		r = openat((s32)a0 == -100 ? AT_FDCWD : (int)a0, path(a1), openflags(a2), a3);
		return r < 0 ? -errno : r;
	case 4006:
		if (a0 == EVFD || a0 == EPFD || a0 < 3)
			return 0;
		return close(a0) < 0 ? -errno : 0;
	case 4038:
		return rename(path(a0), path(a1)) < 0 ? -errno : 0;
	case 4295: // renameat
		return renameat(AT_FDCWD, path(a1), AT_FDCWD, path(a3)) < 0 ? -errno : 0;
	case 4215: { // fstat64
		struct stat st;
		if (fstat(a0, &st) < 0)
			return -errno;
		memset(mem + a1, 0, 104);
		st32(a1 + 24, st.st_mode);
		st32(a1 + 28, 1);
		st32(a1 + 56, (u64)st.st_size >> 32);
		st32(a1 + 60, st.st_size);
		return 0;
	}
	case 4020:
		return 1000;
	case 4222:
		return cur->tid;
	case 4055: // fcntl
	case 4220:
		if (a1 == 3)
			return a0 == 0 ? 0 : 1;
		return 0;
	case 4045: // brk
		return 0;
	case 4090:
		if (a0 >> 31 || a1 >> 31) {
			if (a1 >> 31)
				return -ENOMEM;
			a0 = a3 & 0x10 ? 1 : 0; // where it was to be is only a hint
		}
		return do_mmap(a0, a1, a2, a3, WORD == 8 ? (u32)cur->r[8] : ld32(cur->r[29] + 16));
	case 4091: // munmap
		a1 = (a1 + PAGE - 1) & -(reg)PAGE;
		if ((a0 & (PAGE - 1)) || a0 >= TOP || a1 > TOP - a0)
			return -EINVAL;
		mmap(mem + a0, a1, PROT_NONE, MAP_FIXED | MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		memset(used + a0 / PAGE, 0, a1 / PAGE);
		return 0;
	case 4125: // mprotect
		if (a0 >= TOP || a1 > TOP - a0)
			return -ENOMEM;
		return mprotect(mem + a0, a1, a2 & 7) < 0 ? -errno : 0;
	case 4218: // madvise
		if (a0 >= TOP || a1 > TOP - a0)
			return -ENOMEM;
		if (a2 == 4)
			return madvise(mem + a0, a1, MADV_DONTNEED) < 0 ? -errno : 0;
		return 0;
	case 4217: // mincore
		return -ENOSYS;
	case 4120: { // clone
		struct thread *t = th;
		while (t < th + NTHREADS && t->state != FREE)
			t++;
		if (t == th + NTHREADS)
			fail("too many threads");
		*t = *cur;
		t->r[29] = a1;
		t->r[2] = 0;
		t->r[7] = 0;
		t->state = RUN;
		t->tid = ++tids;
		return t->tid;
	}
	case 4162:
		wake(cur, 0, 0);
		schedule();
		return RESCHEDULED;
	case 4166: // nanosleep
		cur->state = WAIT;
		cur->addr = 0;
		cur->deadline = now() + spec(a0);
		schedule();
		return RESCHEDULED;
	case 4238: // futex
		switch (a1 & 0x7f) {
		case 0:
			if (ld32(a0) != a2)
				return -EAGAIN;
			cur->state = WAIT;
			cur->addr = a0;
			cur->deadline = a3 ? now() + spec(a3) : -1;
			schedule();
			return RESCHEDULED;
		case 1: {
			u32 n = 0;
			for (struct thread *t = th; t < th + NTHREADS && n < a2; t++)
				if (t->state == WAIT && t->addr == a0) {
					wake(t, 0, 0);
					n++;
				}
			return n;
		}
		}
		return -ENOSYS;
	case 4326: // epoll_create1
		return EPFD;
	case 4325: // eventfd2
		return EVFD;
	case 4249: // epoll_ctl
		if (a2 != EVFD)
			return -EPERM;
		registered = 1;
		memcpy(eventdata, mem + a3 + 8, 8);
		return 0;
	case 4313: { // epoll_pwait
		cur->events = a1;
		if (registered && eventcount) {
			pollready(cur);
			return 1;
		}
		if (a3 == 0)
			return 0;
		cur->state = POLL;
		cur->deadline = (s32)a3 < 0 ? -1 : now() + (s64)a3 * 1000000;
		schedule();
		return RESCHEDULED;
	}
	case 4194: // rt_sigaction
		if (a2)
			memset(mem + a2, 0, WORD == 8 ? 32 : 24);
		return 0;
	case 4195: // rt_sigprocmask
		if (a2)
			memset(mem + a2, 0, 16);
		return 0;
	case 4206: // sigaltstack
		if (a1) {
			memset(mem + a1, 0, 3 * WORD);
			st32(a1 + 2 * WORD, 2);
		}
		return 0;
	case 4240: // sched_getaffinity
		if (a1 < WORD)
			return -EINVAL;
		stw(a2, 1);
		return WORD;
	case 4263: { // clock_gettime
		struct timespec t;
		if (clock_gettime(a0, &t) < 0)
			return -errno;
		stw(a1, t.tv_sec);
		stw(a1 + WORD, t.tv_nsec);
		return 0;
	}
	case 4353: // getrandom
		r = getrandom(mem + a0, a1, 0);
		return r < 0 ? -errno : r;
	case 4037: // kill
	case 4266: { // tgkill
		u32 sig = nr == 4037 ? a1 : a2;
		if (sig == 23) // SIGURG asks for preemption
			return 0;
		fprintf(stderr, "runtime: the program ends itself with signal %u\n", sig);
		_exit(2);
	}
	}
	if (getenv("SVB_EMUL_TRACE"))
		fprintf(stderr, "emulator: refused system call %u(%#llx,%#llx,%#llx,%#llx)\n", nr, (u64)a0 + 0ull, (u64)a1 + 0ull, (u64)a2 + 0ull, (u64)a3 + 0ull);
	return -ENOSYS;
}

// ---- instructions

#define OPS \
	X(BAD) X(NOP) X(SLL) X(SRL) X(SRA) X(SLLV) X(SRLV) X(SRAV) X(JR) X(JALR) X(MOVZ) X(MOVN) X(SYSCALL) X(BREAK) X(SYNC) \
	X(MFHI) X(MTHI) X(MFLO) X(MTLO) X(MULT) X(MULTU) X(DIV) X(DIVU) X(ADDU) X(SUBU) X(AND) X(OR) X(XOR) X(NOR) X(SLT) X(SLTU) \
	X(TEQ) X(TNE) X(BLTZ) X(BGEZ) X(BLTZAL) X(BGEZAL) X(J) X(JAL) X(BEQ) X(BNE) X(BLEZ) X(BGTZ) X(ADDIU) X(SLTI) X(SLTIU) \
	X(ANDI) X(ORI) X(XORI) X(LUI) X(MUL) X(MADD) X(MADDU) X(MSUB) X(MSUBU) X(CLZ) X(CLO) X(LB) X(LH) X(LWL) X(LW) X(LBU) X(LHU) X(LWR) X(SB) X(SH) \
	X(SWL) X(SW) X(SWR) X(LL) X(SC) \
	X(LWU) X(LD) X(SD) X(LDL) X(LDR) X(SDL) X(SDR) X(LLD) X(SCD) X(DADDIU) X(DADDU) X(DSUBU) X(DMULT) X(DMULTU) X(DDIV) X(DDIVU) \
	X(DSLL) X(DSRL) X(DSRA) X(DSLLV) X(DSRLV) X(DSRAV) X(DCLZ) X(DCLO)

enum op {
#define X(n) n,
	OPS
#undef X
};

struct insn {
	u32 op;
	u8 rs, rt, rd, sa;
	u32 imm; // sign- or zero-extended, or the target
};

static struct insn *code;
static u32 textlo, texthi;

static struct insn decode(u32 w, u32 pc) {
	struct insn d = {BAD, w >> 21 & 31, w >> 16 & 31, w >> 11 & 31, w >> 6 & 31, (u32)(s32)(int16_t)w};
	u32 op = w >> 26, fn = w & 63;
	u32 bt = pc + 4 + (d.imm << 2), jt = ((pc + 4) & 0xf0000000) | (w & 0x3ffffff) << 2;
	static const u8 special[64] = {
		[0] = SLL, [2] = SRL, [3] = SRA, [4] = SLLV, [6] = SRLV, [7] = SRAV, [8] = JR, [9] = JALR, [10] = MOVZ, [11] = MOVN, [12] = SYSCALL,
		[13] = BREAK, [15] = SYNC, [16] = MFHI, [17] = MTHI, [18] = MFLO, [19] = MTLO, [24] = MULT, [25] = MULTU, [26] = DIV, [27] = DIVU,
		[32] = ADDU, [33] = ADDU, [34] = SUBU, [35] = SUBU, [36] = AND, [37] = OR, [38] = XOR, [39] = NOR, [42] = SLT, [43] = SLTU, [52] = TEQ, [54] = TNE,
#ifdef M64
		[20] = DSLLV, [22] = DSRLV, [23] = DSRAV, [28] = DMULT, [29] = DMULTU, [30] = DDIV, [31] = DDIVU, [44] = DADDU, [45] = DADDU, [46] = DSUBU,
		[47] = DSUBU, [56] = DSLL, [58] = DSRL, [59] = DSRA, [60] = DSLL, [62] = DSRL, [63] = DSRA,
#endif
	};
	static const u8 ops[64] = {
		[2] = J, [3] = JAL, [4] = BEQ, [5] = BNE, [6] = BLEZ, [7] = BGTZ, [8] = ADDIU, [9] = ADDIU, [10] = SLTI, [11] = SLTIU, [12] = ANDI, [13] = ORI,
		[14] = XORI, [15] = LUI, [32] = LB, [33] = LH, [34] = LWL, [35] = LW, [36] = LBU, [37] = LHU, [38] = LWR, [40] = SB, [41] = SH, [42] = SWL, [43] = SW,
		[46] = SWR, [48] = LL, [56] = SC,
#ifdef M64
		[24] = DADDIU, [25] = DADDIU, [26] = LDL, [27] = LDR, [39] = LWU, [44] = SDL, [45] = SDR, [52] = LLD, [55] = LD, [60] = SCD, [63] = SD,
#endif
	};
	switch (op) {
	case 0:
		d.op = special[fn];
		if (((fn == 2 || fn == 58 || fn == 62) && d.rs) || ((fn == 6 || fn == 22) && d.sa)) // rotations
			d.op = BAD;
		if (fn >= 60)
			d.sa += 32;
		break;
	case 1:
		d.op = d.rt == 0 ? BLTZ : d.rt == 1 ? BGEZ : d.rt == 16 ? BLTZAL : d.rt == 17 ? BGEZAL : BAD;
		d.imm = bt;
		break;
	case 28:
		d.op = fn == 2 ? MUL : fn == 0 ? MADD : fn == 1 ? MADDU : fn == 4 ? MSUB : fn == 5 ? MSUBU : fn == 32 ? CLZ : fn == 33 ? CLO : BAD;
		if (WORD == 8 && (fn == 36 || fn == 37))
			d.op = fn == 36 ? DCLZ : DCLO;
		break;
	default:
		d.op = ops[op];
		if (op == 2 || op == 3)
			d.imm = jt;
		else if (op >= 4 && op <= 7)
			d.imm = bt;
		else if (op >= 12 && op <= 14)
			d.imm = w & 0xffff;
		else if (op == 15)
			d.imm = w << 16;
		// The target of these is rt.
		d.rd = d.rt;
	}
	// An exception on overflow, of ADD, ADDI and SUB, is what Go never uses.
	if (!d.rd && d.op != SC && d.op != SCD && d.op != SYSCALL)
		d.rd = 32;
	if (w == 0)
		d.op = NOP;
	return d;
}


static void onsegv(int sig, siginfo_t *si, void *x) {
	char b[300];
	u64 a = (u8 *)si->si_addr - mem;
	if (!mem || a >= 1ull << 32)
		snprintf(b, sizeof b, "HARNESS PANIC: emulator: signal %d at host address %p\n", sig, si->si_addr);
	else
		snprintf(b, sizeof b, "SIGSEGV: access to address %#llx of the emulated program, near pc %#x, ra %#x\n", (unsigned long long)a, cur->npc, (u32)cur->r[31]);
	if (write(2, b, strlen(b)) < 0 || b[0] == 'H')
		_exit(3);
	_exit(2);
}

#ifdef M64
static void __attribute__((noreturn)) far(u64 a, u32 pc) {
	fprintf(stderr, "SIGSEGV: access to address %#llx of the emulated program at pc %#x\n", (unsigned long long)a, pc);
	_exit(2);
}
#endif

static void run(void) {
	static const void *labels[] = {
#define X(n) &&L_##n,
		OPS
#undef X
	};
	reg *r = cur->r;
	u32 pc = cur->pc, npc = cur->npc;
	const u32 lo = textlo;
	const u32 size = (texthi - textlo) / 4;
	s64 budget = 200000;
	u64 acc;
	const struct insn *d;
#define NEXT \
	do { \
		d = &code[(pc - lo) >> 2]; \
		pc = npc; \
		npc += 4; \
		budget--; \
		goto *labels[d->op]; \
	} while (0)
#define S (r[d->rs])
#define T (r[d->rt])
#define D (r[d->rd])
#define I (d->imm)         // of what is not extended by its sign
#define J ((sreg)(s32)d->imm) // of what is
#ifdef M64
#define EA ({ reg e = S + J; if (__builtin_expect(e >> 32, 0)) far(e, pc - 4); (u32)e; })
#else
#define EA (S + I)
#endif
#define W(x) ((sreg)(s32)(x)) // a result of 32 bits
#define L(n, ...) L_##n: { __VA_ARGS__; } NEXT
// pc is the address of the delay slot by now.
#define BR(n, c) L_##n: if (c) { npc = I; if (budget < 0) goto expired; } NEXT
#define CHECK(t) do { if ((t) - lo >= size * 4ull || ((t) & 3)) { fprintf(stderr, "SIGSEGV: jump to %#llx from %#x\n", (unsigned long long)(t), pc - 4); _exit(2); } } while (0)
	NEXT;
	L(NOP, );
	L(SLL, D = W((u32)T << d->sa));
	L(SRL, D = W((u32)T >> d->sa));
	L(SRA, D = W((s32)T >> d->sa));
	L(SLLV, D = W((u32)T << (S & 31)));
	L(SRLV, D = W((u32)T >> (S & 31)));
	L(SRAV, D = W((s32)T >> (S & 31)));
	L(MOVZ, if (!T) D = S);
	L(MOVN, if (T) D = S);
	L(SYNC, );
	L(MFHI, D = cur->hi);
	L(MTHI, cur->hi = S);
	L(MFLO, D = cur->lo);
	L(MTLO, cur->lo = S);
#define ACC cur->hi = W(acc >> 32), cur->lo = W(acc)
	L(MULT, acc = (u64)((s64)(s32)S * (s32)T); ACC);
	L(MULTU, acc = (u64)(u32)S * (u32)T; ACC);
	L(DIV, if ((u32)T) { s64 q = (s64)(s32)S / (s32)T, m = (s64)(s32)S % (s32)T; cur->lo = W(q); cur->hi = W(m); });
	L(DIVU, if ((u32)T) { u32 q = (u32)S / (u32)T, m = (u32)S % (u32)T; cur->lo = W(q); cur->hi = W(m); });
	L(ADDU, D = W(S + T));
	L(SUBU, D = W(S - T));
	L(AND, D = S & T);
	L(OR, D = S | T);
	L(XOR, D = S ^ T);
	L(NOR, D = ~(S | T));
	L(SLT, D = (sreg)S < (sreg)T);
	L(SLTU, D = S < T);
	L(MUL, D = W((u32)S * (u32)T));
	L(MADD, acc = ((u64)cur->hi << 32 | (u32)cur->lo) + (u64)((s64)(s32)S * (s32)T); ACC);
	L(MADDU, acc = ((u64)cur->hi << 32 | (u32)cur->lo) + (u64)(u32)S * (u32)T; ACC);
	L(MSUB, acc = ((u64)cur->hi << 32 | (u32)cur->lo) - (u64)((s64)(s32)S * (s32)T); ACC);
	L(MSUBU, acc = ((u64)cur->hi << 32 | (u32)cur->lo) - (u64)(u32)S * (u32)T; ACC);
	L(CLZ, D = (u32)S ? __builtin_clz(S) : 32);
	L(CLO, D = ~(u32)S ? __builtin_clz(~(u32)S) : 32);
	L(ADDIU, D = W(S + I));
	L(SLTI, D = (sreg)S < J);
	L(SLTIU, D = S < (reg)J);
	L(ANDI, D = S & I);
	L(ORI, D = S | I);
	L(XORI, D = S ^ I);
	L(LUI, D = W(I));
#define AT cur->npc = pc; u32 a = EA
	L(LB, AT; D = (sreg)(int8_t)mem[a]);
	L(LBU, AT; D = mem[a]);
	L(LH, AT; D = (sreg)(int16_t)ld16(a));
	L(LHU, AT; D = ld16(a));
	L(LW, AT; D = W(ld32(a)));
	L(LL, AT; lladdr = a; D = W(ld32(a)); llbit = 1);
	L(LWL, AT; u32 k = a & 3; u32 v = ld32(a & -4u) << 8 * k; D = W(v | (k ? T & ((1u << 8 * k) - 1) : 0)));
	L(LWR, AT; u32 k = 3 - (a & 3); u32 v = ld32(a & -4u) >> 8 * k; D = W(v | (k ? T & ~(0xffffffffu >> 8 * k) : 0)));
	L(SB, AT; mem[a] = T);
	L(SH, AT; st16(a, T));
	L(SW, AT; st32(a, T));
	L(SC, AT; u32 ok = llbit && lladdr == a; if (ok) st32(a, T); llbit = 0; if (d->rt) T = ok);
	L(SWL, AT; for (u32 k = 0; k < 4 - (a & 3); k++) mem[a + k] = T >> (24 - 8 * k));
	L(SWR, AT; for (u32 k = 0; k <= (a & 3); k++) mem[a - k] = T >> 8 * k);
	// The rest exists with 64 bits only.
	L(LWU, AT; D = ld32(a));
	L(LD, AT; D = ld64(a));
	L(SD, AT; st64(a, T));
	L(LDL, AT; u32 k = a & 7; u64 v = ld64(a & -8u) << 8 * k; D = v | (k ? T & ((1ull << 8 * k) - 1) : 0));
	L(LDR, AT; u32 k = 7 - (a & 7); u64 v = ld64(a & -8u) >> 8 * k; D = v | (k ? T & ~(~0ull >> 8 * k) : 0));
	L(SDL, AT; for (u32 k = 0; k < 8 - (a & 7); k++) mem[a + k] = (u64)T >> (56 - 8 * k));
	L(SDR, AT; for (u32 k = 0; k <= (a & 7); k++) mem[a - k] = (u64)T >> 8 * k);
	L(LLD, AT; lladdr = a; D = ld64(a); llbit = 1);
	L(SCD, AT; u32 ok = llbit && lladdr == a; if (ok) st64(a, T); llbit = 0; if (d->rt) T = ok);
	L(DADDIU, D = S + J);
	L(DADDU, D = S + T);
	L(DSUBU, D = S - T);
	L(DMULT, __int128 p = (__int128)(s64)S * (s64)T; cur->hi = (u64)(p >> 64); cur->lo = p);
	L(DMULTU, unsigned __int128 p = (unsigned __int128)S * T; cur->hi = (u64)(p >> 64); cur->lo = p);
	L(DDIV, if (T == (reg)-1) { cur->lo = -S; cur->hi = 0; } else if (T) { s64 q = (s64)S / (s64)T, m = (s64)S % (s64)T; cur->lo = q; cur->hi = m; });
	L(DDIVU, if (T) { u64 q = (u64)S / T, m = (u64)S % T; cur->lo = q; cur->hi = m; });
	L(DSLL, D = (u64)T << d->sa);
	L(DSRL, D = (u64)T >> d->sa);
	L(DSRA, D = (s64)T >> d->sa);
	L(DSLLV, D = (u64)T << (S & 63));
	L(DSRLV, D = (u64)T >> (S & 63));
	L(DSRAV, D = (s64)T >> (S & 63));
	L(DCLZ, D = S ? __builtin_clzll(S) : 64);
	L(DCLO, D = ~S ? __builtin_clzll(~S) : 64);
	L(TEQ, if (S == T) { fprintf(stderr, "SIGTRAP: trap at %#x\n", pc - 4); _exit(2); });
	L(TNE, if (S != T) { fprintf(stderr, "SIGTRAP: trap at %#x\n", pc - 4); _exit(2); });
	BR(BEQ, S == T);
	BR(BNE, S != T);
	BR(BLEZ, (sreg)S <= 0);
	BR(BGTZ, (sreg)S > 0);
	BR(BLTZ, (sreg)S < 0);
	BR(BGEZ, (sreg)S >= 0);
L_BLTZAL:
	acc = (sreg)S < 0;
	r[31] = npc;
	if (acc)
		npc = I;
	NEXT;
L_BGEZAL:
	acc = (sreg)S >= 0;
	r[31] = npc;
	if (acc)
		npc = I;
	NEXT;
L_J:
	npc = I;
	if (budget < 0)
		goto expired;
	NEXT;
L_JAL:
	r[31] = npc;
	npc = I;
	NEXT;
L_JR:
	acc = S;
	CHECK(acc);
	npc = acc;
	NEXT;
L_JALR:
	acc = S;
	CHECK(acc);
	if (d->rd)
		D = npc;
	npc = acc;
	NEXT;
L_SYSCALL: {
	executed += 200000 - budget;
	budget = 200000;
	struct thread *self = cur;
	cur->pc = pc;
	cur->npc = npc;
	sreg v = do_syscall(r[2], r[4], r[5], r[6], r[7]);
	if (v != RESCHEDULED) {
		if (v < 0 && v > -4096) {
			self->r[2] = guesterr(-v);
			self->r[7] = 1;
		} else {
			self->r[2] = v;
			self->r[7] = 0;
		}
	}
	r = cur->r;
	pc = cur->pc;
	npc = cur->npc;
	NEXT;
}
expired:
	executed += 200000 - budget;
	budget = 200000;
	cur->pc = pc;
	cur->npc = npc;
	schedule();
	r = cur->r;
	pc = cur->pc;
	npc = cur->npc;
	NEXT;
L_BREAK:
	fprintf(stderr, "SIGTRAP: break at %#x\n", pc - 4);
	_exit(2);
L_BAD:
	fail("instruction %08x at %#x is unknown", ld32(pc - 4), pc - 4);
}

static u16 b16(u16 x) { return __builtin_bswap16(x); }
static u32 b32(u32 x) { return __builtin_bswap32(x); }
#ifdef M64
static u64 b64(u64 x) { return __builtin_bswap64(x); }
#endif

extern char **environ;

int main(int argc, char **argv) {
	if (argc < 2)
		fail("usage: mips program arguments");
	int fd = open(argv[1], O_RDONLY);
	struct stat st;
	if (fd < 0 || fstat(fd, &st) < 0)
		fail("%s: %s", argv[1], strerror(errno));
	u8 *f = mmap(0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
	close(fd);
	EHDR *h = (EHDR *)f;
	if (memcmp(f, ELFMAG, 4) || f[EI_CLASS] != CLASS || f[EI_DATA] != ELFDATA2MSB || b16(h->e_machine) != EM_MIPS)
		fail("%s is no program for big-endian MIPS", argv[1]);
	mem = mmap(0, (1ull << 32) + PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (mem == MAP_FAILED)
		fail("no address space: %s", strerror(errno));
	struct sigaction sa = {.sa_sigaction = onsegv, .sa_flags = SA_SIGINFO | SA_ONSTACK};
	static char alt[1 << 16];
	stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
	sigaltstack(&ss, 0);
	sigaction(SIGSEGV, &sa, 0);
	sigaction(SIGBUS, &sa, 0);
	for (int i = 0; i < b16(h->e_phnum); i++) {
		PHDR *p = (PHDR *)(f + bword(h->e_phoff) + i * sizeof *p);
		if (b32(p->p_type) != PT_LOAD)
			continue;
		u32 a = bword(p->p_vaddr), n = bword(p->p_memsz), lo = a & -PAGE, hi = (a + n + PAGE - 1) & -PAGE;
		if (map(lo, hi - lo, PROT_READ | PROT_WRITE))
			fail("segment: %s", strerror(errno));
		memcpy(mem + a, f + bword(p->p_offset), bword(p->p_filesz));
		if (b32(p->p_flags) & PF_X) {
			textlo = a;
			texthi = a + bword(p->p_filesz);
			code = malloc((texthi - textlo + 8) / 4 * sizeof *code);
			for (u32 x = textlo; x + 4 <= texthi; x += 4)
				code[(x - textlo) / 4] = decode(ld32(x), x);
		}
		if (!(b32(p->p_flags) & PF_W))
			mprotect(mem + lo, hi - lo, PROT_READ);
	}
	// The stack.
	u32 sp = TOP - 0x1000, top = sp;
	if (map(TOP - (8 << 20), 8 << 20, PROT_READ | PROT_WRITE))
		fail("stack: %s", strerror(errno));
	static u32 ptr[4096];
	int n = 0;
	ptr[n++] = argc - 1;
#define PUSH(s) do { const char *q = (s); u32 l = strlen(q) + 1; if (n > 4000 || top - sp + l > (4 << 20)) fail("too many arguments"); sp -= l; memcpy(mem + sp, q, l); ptr[n++] = sp; } while (0)
	for (int i = 1; i < argc; i++)
		PUSH(argv[i]);
	ptr[n++] = 0;
	for (char **e = environ; *e; e++)
		if (strncmp(*e, "GODEBUG=", 8))
			PUSH(*e);
	PUSH("GODEBUG=asyncpreemptoff=1");
	ptr[n++] = 0;
	sp = (sp - 16) & -16u;
	u32 rnd = sp;
	if (getrandom(mem + rnd, 16, 0) != 16)
		fail("no random numbers");
	u32 aux[] = {AT_PAGESZ, PAGE, AT_RANDOM, rnd, AT_HWCAP, 0, AT_SECURE, 0, AT_NULL, 0};
	for (unsigned i = 0; i < sizeof aux / sizeof *aux; i++)
		ptr[n++] = aux[i];
	sp = (sp - WORD * n) & -16u;
	for (int i = 0; i < n; i++)
		stw(sp + WORD * i, ptr[i]);
	cur = th;
	cur->state = RUN;
	cur->tid = 1000;
	cur->r[29] = sp;
	cur->pc = bword(h->e_entry);
	cur->npc = cur->pc + 4;
	run();
}
