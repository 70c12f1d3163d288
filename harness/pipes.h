// Named pipes whose other end is a thread of the harness.
#ifndef VERIF_PIPES_H
#define VERIF_PIPES_H
#include <atomic>
#include <fcntl.h>
#include <poll.h>
#include <string>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

// Collects what is written to a new pipe at `path`, or leaves (closing its end)
// after `leave` bytes.
class PipeIn {
public:
  explicit PipeIn(const std::string &path, size_t leave = SIZE_MAX, int capacity = 0) : m_path(path), m_leave(leave) {
    unlink(path.c_str());
    if (mkfifo(path.c_str(), 0666)) _exit(78);
    m_fd = open(path.c_str(), O_RDONLY | O_NONBLOCK | O_CLOEXEC);
    if (m_fd < 0) _exit(78);
    if (capacity) fcntl(m_fd, F_SETPIPE_SZ, capacity);
    m_thread = std::thread([this] { run(); });
  }
  // what was written; to be called when nothing holds the pipe open any more
  const std::string &finish() {
    m_stop = true;
    if (m_thread.joinable()) m_thread.join();
    if (m_fd >= 0) close(m_fd);
    m_fd = -1;
    unlink(m_path.c_str());
    return m_bytes;
  }
  ~PipeIn() { finish(); }

private:
  void run() {
    char b[4096];
    for (;;) {
      bool last = m_stop; // all data is in the pipe by now
      if (m_bytes.size() >= m_leave) {
        pollfd p{m_fd, POLLIN, 0};
        if (m_leave == 0 && !last && (poll(&p, 1, 5), !(p.revents & POLLIN))) continue;
        close(m_fd);
        m_fd = -1;
        return;
      }
      ssize_t k = read(m_fd, b, std::min(sizeof b, m_leave - m_bytes.size()));
      if (k > 0) { m_bytes.append(b, size_t(k)); continue; }
      if (last) return;
      pollfd p{m_fd, POLLIN, 0};
      poll(&p, 1, 2);
      if (!(p.revents & POLLIN)) usleep(100);
    }
  }
  std::string m_path;
  size_t m_leave;
  int m_fd = -1;
  std::atomic<bool> m_stop{false};
  std::string m_bytes;
  std::thread m_thread;
};
// Offers bytes through a new pipe at `path` to whoever opens it.
class PipeOut {
public:
  PipeOut(const std::string &path, const std::string &bytes) : m_path(path), m_bytes(bytes) {
    unlink(path.c_str());
    if (mkfifo(path.c_str(), 0666)) _exit(78);
    m_thread = std::thread([this] { run(); });
  }
  ~PipeOut() {
    m_stop = true;
    int fd = open(m_path.c_str(), O_RDONLY | O_NONBLOCK | O_CLOEXEC); // nobody waits in vain
    m_thread.join();
    if (fd >= 0) close(fd);
    unlink(m_path.c_str());
  }

private:
  void run() {
    int fd = -1;
    while ((fd = open(m_path.c_str(), O_WRONLY | O_NONBLOCK | O_CLOEXEC)) < 0) {
      if (m_stop) return;
      usleep(50);
    }
    size_t p = 0;
    while (p < m_bytes.size()) {
      ssize_t k = write(fd, m_bytes.data() + p, m_bytes.size() - p);
      if (k > 0) { p += size_t(k); continue; }
      if (errno != EAGAIN || m_stop) break;
      pollfd q{fd, POLLOUT, 0};
      poll(&q, 1, 2);
    }
    close(fd);
  }
  std::string m_path, m_bytes;
  std::atomic<bool> m_stop{false};
  std::thread m_thread;
};
#endif
