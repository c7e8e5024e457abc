// A seccomp filter that traps host system calls the sandbox has no business making.
#pragma once
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <cstddef>
#include "vh.hpp"
using vh::u64;
static volatile int trapped = -1; static volatile u64 trap_arg[2]; static volatile bool in_call;
static void on_sys(int, siginfo_t* si, void* uc) { auto* c = (ucontext_t*)uc; trapped = si->si_syscall; trap_arg[0] = c->uc_mcontext.gregs[REG_RDI]; trap_arg[1] = c->uc_mcontext.gregs[REG_RSI]; c->uc_mcontext.gregs[REG_RAX] = -1; }
// what the host side may do at any time; anything else is trapped (finish() is called with the filter on, so it opens its files first)
static bool install_filter() {
	static const int ok[] = {SYS_write, SYS_writev, SYS_mmap, SYS_munmap, SYS_mremap, SYS_mprotect, SYS_madvise, SYS_brk, SYS_futex, SYS_clock_gettime, SYS_gettimeofday, SYS_clock_getres, SYS_exit, SYS_exit_group, SYS_rt_sigaction, SYS_rt_sigprocmask, SYS_rt_sigreturn,
		SYS_getrandom, SYS_sched_yield, SYS_sigaltstack, SYS_gettid, SYS_getpid, SYS_tgkill, SYS_alarm, SYS_setitimer, SYS_restart_syscall, SYS_fstat, SYS_newfstatat, SYS_lseek, SYS_prctl, SYS_close, SYS_getrusage, SYS_rseq, SYS_set_robust_list, SYS_prlimit64, SYS_sched_getaffinity, SYS_membarrier};
	std::vector<sock_filter> f; f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)));
	for (int n : ok) { f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)n, 0, 1)); f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)); }
	f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP)); sock_fprog p{(unsigned short)f.size(), f.data()};
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sys; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &sa, nullptr);
	return prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0;
}
