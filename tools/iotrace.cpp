// iotrace: ptrace + seccomp system-call monitor for one command and its threads.
//
//   iotrace --root DIR [--log FILE] [--fault SPEC]... [--kill N] [--timeout SEC] -- cmd args...
//
// Watches file-system calls on paths below DIR (several --root allowed) and writes one line per
// completed call:   <n> <tid> <call> ret=<r> [path] [path2] [off/len]
// n is the global sequence number of *mutating or reading* calls on watched paths ("ops").
// Only the monitored command's own calls are changed; nothing else on the machine is touched.
//
// SPEC = class:errno:first:count[:substr]   fail ops of that class, from the first-th matching one
//        (1-based), 'count' times (0 = for ever).  class: write read open openw close rename unlink seek sync any
//        errno "SHORT" halves a write/read instead of failing it, "EOF" makes a read return 0 (file shorter than expected), "KILL" kills the command before that op,
//        "LOST" (close) fails with EIO and the last 4 KiB of the file read as zero: write-back failed, which only close reports.
// --kill N: SIGKILL the command before its N-th op is executed.
// Exit status: that of the command, 128+sig if it was killed by a signal; 250 on tool failure, 251 timeout.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <csignal>
#include <ctime>
#include <climits>
#include <unistd.h>
#include <fcntl.h>
#include <stddef.h>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>

static std::vector<std::string> roots;
static FILE* logf_ = nullptr;
struct Fault { std::string cls; int err; bool shrt; bool eof = false; bool kill = false, lost = false; long first, count; std::string substr; long seen = 0, fired = 0; };
static std::vector<Fault> faults;
static long kill_at = 0, n_op = 0;
static pid_t child = 0;
static std::map<int, std::string> fds;		// fd -> path (single process)
static std::map<int, bool> fdw;			// opened for writing
struct Pending { long nr; bool w = false; std::string p1, p2; int fd = -1; long len = 0; int flags = 0; bool watched = false; int inject = 0; bool eof = false; long n = 0; std::string cls; };
static std::map<pid_t, Pending> pend;
static bool timed_out = false;

static const int traced[] = { SYS_open, SYS_openat, SYS_creat, SYS_write, SYS_pwrite64, SYS_writev, SYS_pwritev, SYS_read, SYS_pread64, SYS_readv,
	SYS_close, SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_rmdir, SYS_lseek, SYS_fsync, SYS_fdatasync, SYS_ftruncate, SYS_truncate,
	SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_mkdir, SYS_mkdirat, SYS_copy_file_range, SYS_sendfile, SYS_dup, SYS_dup2, SYS_dup3, SYS_fallocate, SYS_chmod, SYS_fchmodat };

static void lose(pid_t t, int fd) {
	const std::string p = "/proc/" + std::to_string(t) + "/fd/" + std::to_string(fd);
	int f = open(p.c_str(), O_WRONLY);
	struct stat st;
	if(f < 0) return;
	if(!fstat(f, &st) && S_ISREG(st.st_mode) && st.st_size > 0) {
		std::vector<char> z(std::min<long>(4096, st.st_size));
		if(pwrite(f, z.data(), z.size(), st.st_size - long(z.size())) < 0) perror("iotrace: lose");
	}
	close(f);
}
static std::string rd_str(pid_t t, uint64_t addr) {
	std::string s;
	while(s.size() < PATH_MAX) {
		errno = 0;
		long w = ptrace(PTRACE_PEEKDATA, t, addr + s.size(), 0);
		if(errno) break;
		for(int i = 0; i < 8; ++i) { char c = (w >> (8 * i)) & 0xff; if(!c) return s; s += c; }
	}
	return s;
}
static std::string norm(const std::string& cwd, const std::string& p) {
	std::string full = !p.empty() && p[0] == '/' ? p : cwd + "/" + p;
	std::vector<std::string> parts; size_t i = 0;
	while(i < full.size()) {
		size_t j = full.find('/', i); if(j == std::string::npos) j = full.size();
		std::string c = full.substr(i, j - i);
		if(c == "..") { if(!parts.empty()) parts.pop_back(); } else if(!c.empty() && c != ".") parts.push_back(c);
		i = j + 1;
	}
	std::string r; for(auto& c : parts) r += "/" + c;
	return r.empty() ? "/" : r;
}
static std::string cwd_of(pid_t t) { char b[PATH_MAX]; std::string l = "/proc/" + std::to_string(t) + "/cwd"; ssize_t n = readlink(l.c_str(), b, sizeof b); return n > 0 ? std::string(b, n) : "/"; }
static std::string at_path(pid_t t, int dfd, uint64_t addr) {
	std::string p = rd_str(t, addr);
	if(!p.empty() && p[0] == '/') return norm("/", p);
	if(dfd == AT_FDCWD || dfd == -1) return norm(cwd_of(t), p);
	auto it = fds.find(dfd);
	return norm(it == fds.end() ? "/?" : it->second, p);
}
static bool watched(const std::string& p) {
	for(auto& r : roots) if((r == "/" && !p.empty()) || (p.compare(0, r.size(), r) == 0 && (p.size() == r.size() || p[r.size()] == '/'))) return true;
	return false;
}
static const char* name_of(long nr) {
	switch(nr) {
		case SYS_open: case SYS_openat: case SYS_creat: return "open";
		case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: return "write";
		case SYS_copy_file_range: return "copyrange"; case SYS_sendfile: return "sendfile";
		case SYS_read: case SYS_pread64: case SYS_readv: return "read";
		case SYS_close: return "close";
		case SYS_rename: case SYS_renameat: case SYS_renameat2: return "rename";
		case SYS_unlink: case SYS_unlinkat: case SYS_rmdir: return "unlink";
		case SYS_lseek: return "seek"; case SYS_fsync: case SYS_fdatasync: return "sync";
		case SYS_ftruncate: case SYS_truncate: return "truncate"; case SYS_fallocate: return "fallocate";
		case SYS_link: case SYS_linkat: return "link"; case SYS_symlink: case SYS_symlinkat: return "symlink";
		case SYS_mkdir: case SYS_mkdirat: return "mkdir"; case SYS_chmod: case SYS_fchmodat: return "chmod";
	}
	return "other";
}
static void kill_all() { kill(child, SIGKILL); }
static void on_alarm(int) { timed_out = true; kill_all(); }

static int errno_of(const std::string& s) {
	if(s == "ENOSPC") return ENOSPC; if(s == "EIO") return EIO; if(s == "EXDEV") return EXDEV; if(s == "EACCES") return EACCES;
	if(s == "EMFILE") return EMFILE; if(s == "EDQUOT") return EDQUOT; if(s == "ENOENT") return ENOENT; if(s == "EROFS") return EROFS; if(s == "EBUSY") return EBUSY;
	return atoi(s.c_str());
}

// called at syscall entry; fills Pending; may alter registers
static void on_entry(pid_t t) {
	user_regs_struct r;
	if(ptrace(PTRACE_GETREGS, t, 0, &r)) return;
	Pending p; p.nr = r.orig_rax;
	const uint64_t a0 = r.rdi, a1 = r.rsi, a2 = r.rdx, a3 = r.r10;
	bool set = false;
	switch(p.nr) {
		case SYS_open: p.p1 = at_path(t, AT_FDCWD, a0); p.flags = a1; break;
		case SYS_creat: p.p1 = at_path(t, AT_FDCWD, a0); p.flags = O_CREAT | O_WRONLY | O_TRUNC; break;
		case SYS_openat: p.p1 = at_path(t, int(a0), a1); p.flags = a2; break;
		case SYS_rename: p.p1 = at_path(t, AT_FDCWD, a0); p.p2 = at_path(t, AT_FDCWD, a1); break;
		case SYS_renameat: case SYS_renameat2: p.p1 = at_path(t, int(a0), a1); p.p2 = at_path(t, int(a2), a3); break;
		case SYS_link: p.p1 = at_path(t, AT_FDCWD, a0); p.p2 = at_path(t, AT_FDCWD, a1); break;
		case SYS_linkat: p.p1 = at_path(t, int(a0), a1); p.p2 = at_path(t, int(a2), a3); break;
		case SYS_symlink: p.p1 = rd_str(t, a0); p.p2 = at_path(t, AT_FDCWD, a1); break;
		case SYS_symlinkat: p.p1 = rd_str(t, a0); p.p2 = at_path(t, int(a1), a2); break;
		case SYS_unlink: case SYS_rmdir: case SYS_truncate: case SYS_mkdir: case SYS_chmod: p.p1 = at_path(t, AT_FDCWD, a0); break;
		case SYS_unlinkat: case SYS_mkdirat: case SYS_fchmodat: p.p1 = at_path(t, int(a0), a1); break;
		case SYS_copy_file_range: p.fd = int(a2); p.len = r.r8; break;
		case SYS_sendfile: p.fd = int(a0); p.len = a3; break;
		case SYS_dup: case SYS_dup2: case SYS_dup3: p.fd = int(a0); p.flags = int(a1); break;
		default: p.fd = int(a0); p.len = long(a2); break;
	}
	if(p.fd >= 0) { auto it = fds.find(p.fd); if(it != fds.end()) p.p1 = it->second; }
	p.watched = watched(p.p1) || watched(p.p2);
	std::string nm = name_of(p.nr);
	if(nm == "close") {		// forget the descriptor before the kernel can hand it out again
		p.w = fdw.count(p.fd) && fdw[p.fd];
		fds.erase(p.fd); fdw.erase(p.fd);
	}
	if(p.watched && nm != "other") {
		p.n = ++n_op;
		if(kill_at && n_op >= kill_at) {
			if(logf_) { fprintf(logf_, "%ld %d KILL before %s %s %s\n", p.n, t, nm.c_str(), p.p1.c_str(), p.p2.c_str()); fflush(logf_); }
			kill_all();
		}
		bool wr = nm == "open" && (p.flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC));
		for(auto& f : faults) {
			bool m = f.cls == "any" || f.cls == nm || (f.cls == "openw" && wr) || (f.cls == "write" && (nm == "copyrange" || nm == "sendfile"))
				|| (f.cls == "closew" && nm == "close" && p.w);
			if(!m) continue;
			if(!f.substr.empty() && p.p1.find(f.substr) == std::string::npos && p.p2.find(f.substr) == std::string::npos) continue;
			f.seen++;
			if(f.seen < f.first || (f.count && f.fired >= f.count)) continue;
			f.fired++;
			if(f.kill) {
				if(logf_) { fprintf(logf_, "%ld %d KILL before %s %s %s\n", p.n, t, nm.c_str(), p.p1.c_str(), p.p2.c_str()); fflush(logf_); }
				kill_all();
			} else if(f.eof) {
				p.eof = true; r.orig_rax = -1; set = true;
			} else if(f.shrt) {
				if((p.nr == SYS_write || p.nr == SYS_read) && r.rdx > 1) { r.rdx /= 2; set = true; }
			} else {
				p.inject = f.err;
				if(f.lost && p.w) lose(t, p.fd);
				// a failed close still releases the descriptor, as on Linux
				if(nm != "close") { r.orig_rax = -1; set = true; }
			}
			break;
		}
	}
	if(set) ptrace(PTRACE_SETREGS, t, 0, &r);
	pend[t] = p;
}
static void on_exit_(pid_t t) {
	auto it = pend.find(t);
	if(it == pend.end()) return;
	Pending p = it->second; pend.erase(it);
	user_regs_struct r;
	if(ptrace(PTRACE_GETREGS, t, 0, &r)) return;
	long ret = long(r.rax);
	if(p.eof) { ret = 0; r.rax = 0; ptrace(PTRACE_SETREGS, t, 0, &r); }
	if(p.inject) { ret = -p.inject; r.rax = ret; ptrace(PTRACE_SETREGS, t, 0, &r); }
	std::string nm = name_of(p.nr);
	if(nm == "open" && ret >= 0) { fds[int(ret)] = p.p1; fdw[int(ret)] = p.flags & (O_WRONLY | O_RDWR); }
	if((p.nr == SYS_dup || p.nr == SYS_dup2 || p.nr == SYS_dup3) && ret >= 0) { auto f = fds.find(p.fd); if(f != fds.end()) { fds[int(ret)] = f->second; fdw[int(ret)] = fdw[p.fd]; } }
	if(p.watched && p.n && logf_) {
		fprintf(logf_, "%ld %d %s ret=%ld%s", p.n, t, nm.c_str(), ret, p.inject || p.eof ? " INJECTED" : "");
		if(nm == "open") fprintf(logf_, " flags=%s", (p.flags & O_TRUNC) ? "wt" : (p.flags & (O_WRONLY | O_RDWR)) ? "w" : "r");
		if(nm == "write" || nm == "read") fprintf(logf_, " len=%ld", p.len);
		if(nm == "close") fprintf(logf_, " %s", p.w ? "w" : "r");
		fprintf(logf_, " %s", p.p1.c_str());
		if(!p.p2.empty()) fprintf(logf_, " %s", p.p2.c_str());
		fprintf(logf_, "\n");
	}
}

int main(int argc, char** argv) {
	int i = 1; int timeout = 0; std::string stats;
	for(; i < argc; ++i) {
		std::string a = argv[i];
		if(a == "--") { ++i; break; }
		else if(a == "--root") { std::string p = norm(cwd_of(getpid()), argv[++i]); char rp[PATH_MAX]; if(realpath(p.c_str(), rp)) roots.push_back(p); roots.push_back(p); }
		else if(a == "--log") logf_ = fopen(argv[++i], "w");
		else if(a == "--kill") kill_at = atol(argv[++i]);
		else if(a == "--timeout") timeout = atoi(argv[++i]);
		else if(a == "--stats") stats = argv[++i];
		else if(a == "--fault") {
			std::string s = argv[++i]; std::vector<std::string> f; size_t b = 0;
			for(int q = 0; q < 4; ++q) { size_t e = s.find(':', b); f.push_back(s.substr(b, e == std::string::npos ? e : e - b)); if(e == std::string::npos) { b = s.size(); break; } b = e + 1; }
			Fault x; x.cls = f.at(0); x.shrt = f.at(1) == "SHORT"; x.eof = f.at(1) == "EOF"; x.kill = f.at(1) == "KILL"; x.lost = f.at(1) == "LOST"; x.err = x.lost ? EIO : errno_of(f.at(1)); x.first = atol(f.at(2).c_str()); x.count = atol(f.at(3).c_str()); x.substr = b <= s.size() ? s.substr(b) : "";
			faults.push_back(x);
		} else { fprintf(stderr, "iotrace: bad option %s\n", a.c_str()); return 250; }
	}
	if(i >= argc) return 250;
	child = fork();
	if(child == 0) {
		ptrace(PTRACE_TRACEME, 0, 0, 0);
		raise(SIGSTOP);
		std::vector<sock_filter> f;
		f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)));
		const int n = sizeof(traced) / sizeof(int);
		for(int q = 0; q < n; ++q) f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)traced[q], (unsigned char)(n - q), 0));
		f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
		f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE));
		sock_fprog prog = { (unsigned short)f.size(), f.data() };
		if(prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) { perror("seccomp"); _exit(250); }
		execvp(argv[i], argv + i);
		perror("exec"); _exit(250);
	}
	int st;
	if(waitpid(child, &st, 0) < 0 || !WIFSTOPPED(st)) return 250;
	if(ptrace(PTRACE_SETOPTIONS, child, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC | PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL)) { perror("ptrace"); return 250; }
	if(timeout) { signal(SIGALRM, on_alarm); struct sigaction sa {}; sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, 0); alarm(timeout); }
	// pass SIGINT/SIGTERM on to the command
	signal(SIGINT, SIG_IGN);
	ptrace(PTRACE_CONT, child, 0, 0);
	int code = 250;
	while(true) {
		pid_t t = waitpid(-1, &st, __WALL);
		if(t < 0) { if(errno == EINTR) continue; break; }
		if(WIFEXITED(st) || WIFSIGNALED(st)) {
			pend.erase(t);
			if(t == child) code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
			continue;
		}
		if(!WIFSTOPPED(st)) continue;
		int sig = WSTOPSIG(st), ev = st >> 16;
		if(ev == PTRACE_EVENT_SECCOMP) {
			on_entry(t);
			ptrace(PTRACE_SYSCALL, t, 0, 0);	// stop again at exit
		} else if(sig == (SIGTRAP | 0x80)) {
			// Linux >= 4.8: the seccomp stop comes first, then a syscall-entry stop may follow
			// only when PTRACE_SYSCALL was already pending; the next stop is the exit.
			on_exit_(t);
			ptrace(PTRACE_CONT, t, 0, 0);
		} else if(ev) {
			ptrace(PTRACE_CONT, t, 0, 0);
		} else if(sig == SIGSTOP) {
			ptrace(PTRACE_CONT, t, 0, 0);		// new thread
		} else {
			ptrace(PTRACE_CONT, t, 0, sig);
		}
	}
	if(logf_) fclose(logf_);
	if(!stats.empty()) {
		FILE* f = fopen(stats.c_str(), "w");
		fprintf(f, "{\"ops\":%ld,\"faults\":[", n_op);
		for(size_t q = 0; q < faults.size(); ++q) fprintf(f, "%s{\"seen\":%ld,\"fired\":%ld}", q ? "," : "", faults[q].seen, faults[q].fired);
		fprintf(f, "],\"code\":%d,\"timeout\":%s}\n", code, timed_out ? "true" : "false");
		fclose(f);
	}
	if(timed_out) return 251;
	return code;
}
