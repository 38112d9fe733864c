/* Native driver for the assembly routines: fibers that fill every register the
 * calling convention preserves, the control words and their stacks with random
 * values before each switch, and check them when they are resumed. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/wait.h>
#include <rcpr/fiber.h>
#include "fiber/common/fiber_internal.h"
typedef RCPR_SYM(fiber) fib; typedef RCPR_SYM(fiber_scheduler) sch; typedef RCPR_SYM(rcpr_uuid) uid;
#define NF 4
#define FAIL(...) do { printf("CHECK FAILED: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(3); } while (0)
struct regs { uint64_t r[6]; uint32_t mx; uint32_t cw; };
static uint64_t rng = 1; static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL; }
static fib F[NF]; static sch* S = (sch*)(uintptr_t)0x5ced5ced; static long left; static uint8_t* stk[NF]; static size_t ssz[NF];
static struct { const uid* id; int64_t ev; void* p; int from, to; } R;
static struct regs in[NF], out[NF]; static int started[NF];
/* loads the registers from rcx, switches, and stores what it finds afterwards to r9's saved copy */
void probe(fib* prev, fib* next, const uid* id, int64_t ev, void* p, struct regs* io);
__asm__(
".text\n.globl probe\nprobe:\n"
"push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\n"
"sub $24,%rsp\nstmxcsr (%rsp)\nfnstcw 4(%rsp)\nmov %r9,8(%rsp)\n"
"mov 0(%r9),%rbx\nmov 8(%r9),%rbp\nmov 16(%r9),%r12\nmov 24(%r9),%r13\nmov 32(%r9),%r14\nmov 40(%r9),%r15\nldmxcsr 48(%r9)\nfldcw 52(%r9)\n"
"call *sw_ptr(%rip)\n"
"mov 8(%rsp),%r9\n"
"mov %rbx,0(%r9)\nmov %rbp,8(%r9)\nmov %r12,16(%r9)\nmov %r13,24(%r9)\nmov %r14,32(%r9)\nmov %r15,40(%r9)\nstmxcsr 48(%r9)\nmovl $0,52(%r9)\nfnstcw 52(%r9)\n"
"ldmxcsr (%rsp)\nfldcw 4(%rsp)\nadd $24,%rsp\n"
"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n");
void (*sw_ptr)(fib*, fib*, const uid*, int64_t, void*) = &RCPR_SYM(fiber_switch);
static void told(int me)
{
    if (R.to != me) FAIL("the wrong fiber was resumed");
    if (F[me].restore_discipline_id != R.id || F[me].restore_reason_code != R.ev || F[me].restore_param != R.p) FAIL("a fiber is not told what it is resumed with");
}
static void go(int me)
{
    volatile uint64_t pat[24]; uint64_t want[24]; struct regs w, io; volatile uint64_t* q = pat;
    for (int i = 0; i < 24; ++i) q[i] = want[i] = rnd();
    for (int i = 0; i < 6; ++i) w.r[i] = rnd();
    w.mx = 0x1f80u ^ (((uint32_t)rnd() & 3u) << 13) ^ ((rnd() & 1) ? 0x8000u : 0); w.cw = 0x37fu ^ (((uint32_t)rnd() & 3u) << 10);
    int to = (int)(rnd() % NF); if (left-- <= 0) to = 0; if (to == me && me == 0 && left < 0) return;
    R.id = (const uid*)(uintptr_t)rnd(); R.ev = (int64_t)rnd(); R.p = (void*)(uintptr_t)rnd(); R.from = me; R.to = to;
    io = w; uint64_t junk[3] = { rnd(), rnd(), rnd() }; F[to].restore_discipline_id = (const uid*)(uintptr_t)junk[0]; F[to].restore_reason_code = (int64_t)junk[1]; F[to].restore_param = (void*)(uintptr_t)junk[2];
    probe(&F[me], &F[to], R.id, R.ev, R.p, &io);
    if (memcmp(io.r, w.r, sizeof(w.r))) FAIL("a preserved register changed over a suspension");
    if ((io.mx & 0xffc0u) != (w.mx & 0xffc0u) || io.cw != w.cw) FAIL("a control word changed over a suspension");
    for (int i = 0; i < 24; ++i) if (q[i] != want[i]) FAIL("the stack of a suspended fiber changed");
    told(me);
}
/* recursion: suspensions at various depths and alignments */
static void __attribute__((noinline)) deep(int me, int d) { volatile char pad[40]; pad[0] = (char)d; if (d > 0) deep(me, d - 1); else go(me); if (pad[0] != (char)d) FAIL("the stack of a suspended fiber changed"); }
static status entry_c(sch* s, fib* f, uintptr_t sp)
{
    int me = (int)(f - F);
    if (me < 1 || me >= NF || s != S || started[me]) FAIL("the entry is not given its own scheduler and fiber");
    if ((sp & 15) != 8) FAIL("the entry's stack is not aligned");
    if (sp < (uintptr_t)stk[me] || sp >= (uintptr_t)stk[me] + ssz[me]) FAIL("the entry is not on its own stack");
    started[me] = 1; told(me);
    for (;;) deep(me, (int)(rnd() % 5));
}
status entry(sch* s, fib* f);
__asm__(".text\nentry:\nmov %rsp,%rdx\njmp *entry_ptr(%rip)\n");
status (*entry_ptr)(sch*, fib*, uintptr_t) = &entry_c;
static status quick_entry(sch* s, fib* f) { (void)s; (void)f; return 0; }
int main(int c, char** v)
{
    rng = strtoull(c > 1 ? v[1] : "1", 0, 10) * 0x9E3779B97F4A7C15ULL + 1; left = c > 2 ? atol(v[2]) : 1000;
    /* the entry returns: the process ends, with an error */
    pid_t p = fork();
    if (p == 0) { uint8_t* k = malloc(65536); memset(&F[1], 0, sizeof(fib)); F[1].stack_ptr = k + 65536; RCPR_SYM(fiber_make)(&F[1], S, &quick_entry); RCPR_SYM(fiber_switch)(&F[0], &F[1], NULL, 0, NULL); _exit(0); }
    int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) == 0) FAIL("a return from the entry does not end the process with an error (status %x)", st);
    for (int i = 1; i < NF; ++i) {
        ssz[i] = 65536 + (size_t)(rnd() % 64); stk[i] = malloc(ssz[i]); memset(stk[i], 0xA5, ssz[i]); memset(&F[i], 0, sizeof(fib)); F[i].stack_ptr = stk[i] + ssz[i];
        RCPR_SYM(fiber_make)(&F[i], S, &entry);
    }
    while (left > 0) deep(0, (int)(rnd() % 5));
    printf("native ok\n"); return 0;
}
