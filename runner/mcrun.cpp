// mcrun: executes a stream of cases against one binary, N at a time, each in a
// scratch directory of its own, and reports exit status and output per case.
//
// usage: mcrun BINARY NWORKERS TIMEOUT_MS OUTCAP SCRATCH [memlimit_mb]
// stdin : sequence of cases   u32 len | payload
//   payload: u8 nargs {u16 len bytes}* | u8 has_stdin [u32 len bytes]
//            (has_stdin 1: a file; 2: a pipe, followed by u16 n {u32 offset}*,
//             the input is delivered in pieces cut at the offsets)
//            | u8 nfiles {u16 len name | u32 len content}*
// stdout: sequence of results u32 index | i32 status | u32 len | bytes
//   status: exit code, or 256+signal, or 1000 (timeout), 1001 (cannot run)
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include <condition_variable>
#include <deque>
#include <mutex>
#include <string>
#include <thread>
#include <utility>
#include <vector>

extern char** environ;
static std::mutex qm, om;
static std::condition_variable qcv, qfull;
static std::deque<std::pair<uint32_t, std::string>> queue_;
static bool done_ = false;
static std::string bin, scratch;
static int timeout_ms;
static size_t outcap;

static bool readn(int fd, void* p, size_t n)
{
  char* c = (char*)p;
  while (n)
  {
    ssize_t r = read(fd, c, n);
    if (r <= 0) return false;
    c += r;
    n -= r;
  }
  return true;
}
static void writen(int fd, const void* p, size_t n)
{
  const char* c = (const char*)p;
  while (n)
  {
    ssize_t r = write(fd, c, n);
    if (r <= 0) _exit(3);
    c += r;
    n -= r;
  }
}
struct Rd
{
  const char* p;
  template <class T> T num()
  {
    T v;
    memcpy(&v, p, sizeof v);
    p += sizeof v;
    return v;
  }
  std::string str(size_t n)
  {
    std::string s(p, n);
    p += n;
    return s;
  }
};
static void mkparents(const std::string& dir, const std::string& name)
{
  for (size_t i = 0; i < name.size(); i++)
    if (name[i] == '/') mkdir((dir + "/" + name.substr(0, i)).c_str(), 0755);
}
static void put(const std::string& path, const std::string& c)
{
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  if (fd < 0) return;
  writen(fd, c.data(), c.size());
  close(fd);
}
static void work(int id)
{
  std::string dir = scratch + "/w" + std::to_string(id);
  mkdir(dir.c_str(), 0755);
  std::string outp = dir + ".out", inp = dir + ".in";
  for (;;)
  {
    std::pair<uint32_t, std::string> item;
    {
      std::unique_lock<std::mutex> l(qm);
      qcv.wait(l, [] { return done_ || !queue_.empty(); });
      if (queue_.empty()) return;
      item = std::move(queue_.front());
      queue_.pop_front();
      qfull.notify_one();
    }
    Rd r{item.second.data()};
    std::vector<std::string> args{bin};
    int na = r.num<uint8_t>();
    for (int i = 0; i < na; i++)
    {
      size_t n = r.num<uint16_t>();
      args.push_back(r.str(n));
    }
    int hs = r.num<uint8_t>();
    std::string piped;
    std::vector<size_t> cuts;
    int pp[2] = {-1, -1};
    if (hs)
    {
      size_t n = r.num<uint32_t>();
      piped = r.str(n);
      if (hs == 1) put(inp, piped);
      else
      {
        int k = r.num<uint16_t>();
        for (int i = 0; i < k; i++) cuts.push_back(r.num<uint32_t>());
        cuts.push_back(piped.size());
        if (pipe2(pp, O_CLOEXEC) != 0) _exit(4);
      }
    }
    int nf = r.num<uint8_t>();
    std::vector<std::string> files;
    for (int i = 0; i < nf; i++)
    {
      size_t n = r.num<uint16_t>();
      std::string name = r.str(n);
      size_t m = r.num<uint32_t>();
      mkparents(dir, name);
      files.push_back(dir + "/" + name);
      put(files.back(), r.str(m));
    }
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    if (hs == 2) posix_spawn_file_actions_adddup2(&fa, pp[0], 0);
    else posix_spawn_file_actions_addopen(
        &fa, 0, hs ? inp.c_str() : "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(
        &fa, 1, outp.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    posix_spawn_file_actions_adddup2(&fa, 1, 2);
    // cd:X as first argument: run in subdirectory X
    std::string cwd = dir;
    if (args.size() > 1 && args[1].compare(0, 3, "cd:") == 0)
    {
      cwd += "/" + args[1].substr(3);
      args.erase(args.begin() + 1);
    }
    posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
    std::vector<char*> av;
    for (auto& a : args) av.push_back((char*)a.c_str());
    av.push_back(nullptr);
    pid_t pid;
    int rc = posix_spawn(&pid, bin.c_str(), &fa, nullptr, av.data(), environ);
    posix_spawn_file_actions_destroy(&fa);
    int32_t status = 1001;
    if (hs == 2)
    {
      // we keep the reading end open, hence writing does not raise a signal
      size_t pos = 0;
      for (size_t c : cuts)
      {
        if (c > pos)
        {
          writen(pp[1], piped.data() + pos, c - pos);
          pos = c;
          for (int i = 0, left = 1; left && i < 400; i++)
          {
            if (ioctl(pp[0], FIONREAD, &left) != 0 || !left) break;
            usleep(25);
          }
        }
      }
      close(pp[1]);
      close(pp[0]);
    }
    if (rc == 0)
    {
      bool to = false;
      int pfd = syscall(SYS_pidfd_open, pid, 0);
      if (pfd >= 0)
      {
        struct pollfd p = {pfd, POLLIN, 0};
        int pr;
        do pr = poll(&p, 1, timeout_ms);
        while (pr < 0 && errno == EINTR);
        if (pr == 0)
        {
          to = true;
          kill(pid, SIGKILL);
        }
        close(pfd);
      }
      int st;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      if (to) status = 1000;
      else if (WIFEXITED(st)) status = WEXITSTATUS(st);
      else status = 256 + WTERMSIG(st);
    }
    std::string out;
    int fd = open(outp.c_str(), O_RDONLY | O_CLOEXEC);
    if (fd >= 0)
    {
      out.resize(outcap);
      size_t k = 0;
      while (k < outcap)
      {
        ssize_t g = read(fd, &out[k], outcap - k);
        if (g <= 0) break;
        k += g;
      }
      out.resize(k);
      off_t total = lseek(fd, 0, SEEK_END);
      if (total > (off_t)k)
      {
        // keep the end as well
        char tail[512];
        off_t from = total - (off_t)sizeof(tail);
        if (from < (off_t)k) from = k;
        ssize_t g = pread(fd, tail, sizeof(tail), from);
        if (g > 0)
        {
          out += "\n...\n";
          out.append(tail, g);
        }
      }
      close(fd);
    }
    for (auto& f : files) unlink(f.c_str());
    uint32_t idx = item.first, n = out.size();
    std::lock_guard<std::mutex> l(om);
    writen(1, &idx, 4);
    writen(1, &status, 4);
    writen(1, &n, 4);
    writen(1, out.data(), n);
  }
}
int main(int argc, char** argv)
{
  if (argc < 6) return 2;
  bin = argv[1];
  int nw = atoi(argv[2]);
  timeout_ms = atoi(argv[3]);
  outcap = atol(argv[4]);
  scratch = argv[5];
  signal(SIGPIPE, SIG_DFL);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  if (argc > 6 && atol(argv[6]) > 0)
  {
    rl.rlim_cur = rl.rlim_max = (rlim_t)atol(argv[6]) << 20;
    setrlimit(RLIMIT_AS, &rl);
  }
  std::vector<std::thread> ts;
  for (int i = 0; i < nw; i++) ts.emplace_back(work, i);
  uint32_t idx = 0, len;
  while (readn(0, &len, 4))
  {
    std::string p(len, 0);
    if (!readn(0, &p[0], len)) break;
    std::unique_lock<std::mutex> l(qm);
    qfull.wait(l, [] { return queue_.size() < 4096; });
    queue_.emplace_back(idx++, std::move(p));
    qcv.notify_one();
  }
  {
    std::lock_guard<std::mutex> l(qm);
    done_ = true;
  }
  qcv.notify_all();
  for (auto& t : ts) t.join();
  return 0;
}
