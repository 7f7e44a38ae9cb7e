"""Planted bugs in nisaba/port."""
RUNFILES = '''#pragma once
#include <string>
namespace bazel { namespace tools { namespace cpp { namespace runfiles {
class Runfiles { public:
  static Runfiles *Create(const std::string &, std::string *) { return new Runfiles; }
  std::string Rlocation(const std::string &p) const { return p; } };
}}}}
'''
LOG = '''#pragma once
#include <cstdlib>
#include <iostream>
struct DemoLog { bool fatal; ~DemoLog() { std::cerr << std::endl; if (fatal) abort(); }
  template <class T> DemoLog &operator<<(const T &v) { std::cerr << v; return *this; } };
#define LOG(x) DemoLog{#x[0] == 'F'}
'''
CHECK = '''#pragma once
#include "absl/log/log.h"
#define CHECK(x) if (x) {} else LOG(FATAL)
#define CHECK_EQ(a, b) CHECK((a) == (b))
'''
SHIMS = {'shim/tools/cpp/runfiles/runfiles.h': RUNFILES, 'shim/absl/log/log.h': LOG, 'shim/absl/log/check.h': CHECK}
HEAD = '''#!/bin/bash
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
'''
ABSL = '-Wl,--start-group $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.a) -Wl,--end-group'
POOL = HEAD + '''g++ -std=c++17 -O1 -I"$PWD" -o "$t/demo" "$here/demo.cc" %s -lpthread || exit 3
timeout 60 "$t/demo"
''' % ABSL
FILE = HEAD + '''g++ -std=c++17 -O1 -w -I"$here/shim" -I"$PWD" -o "$t/demo" "$here/demo.cc" "$PWD"/nisaba/port/file_util.cc %s -lpthread || exit 3
cd "$t" && timeout 60 "$t/demo"
''' % ABSL
PB = HEAD + '''protoc -I"$PWD" --cpp_out="$t" nisaba/scripts/brahmic/script_config.proto nisaba/interim/testing/testdata.proto || exit 3
g++ -std=c++17 -O1 -w -I"$here/shim" -I"$PWD" -I"$t" -o "$t/demo" "$here/demo.cc" "$PWD"/nisaba/port/file.cc "$PWD"/nisaba/port/file_util.cc "$t/nisaba/interim/testing/testdata.pb.cc" -lprotobuf %s -lpthread || exit 3
cd "$t" && timeout 60 "$t/demo"
''' % ABSL

BUGS = {}

BUGS['pool-batch'] = dict(
    property='P02',
    edits=[('nisaba/port/thread_pool.h', '''      std::function<void()> func;
      {
        absl::MutexLock l(&mu_);
        mu_.Await(absl::Condition(this, &ThreadPool::WorkAvailable));
        func = std::move(queue_.front());
        queue_.pop();
      }
      if (func == nullptr) {  // Shutdown signal.
        break;
      }
      func();
''', '''      std::function<void()> func, next;
      {
        absl::MutexLock l(&mu_);
        mu_.Await(absl::Condition(this, &ThreadPool::WorkAvailable));
        func = std::move(queue_.front());
        queue_.pop();
        // Long queue: take two tasks for one acquisition of the lock.
        if (func != nullptr && queue_.size() > static_cast<size_t>(num_threads_) &&
            queue_.front() != nullptr) {
          next = std::move(queue_.front());
          queue_.pop();
        }
      }
      if (func == nullptr) {  // Shutdown signal.
        break;
      }
      func();
      if (next != nullptr) next();
''')],
    needs='more queued tasks than workers when a worker becomes free, and tasks that wait for one another',
    breaks='a worker holds a second task back while it runs the first one: two tasks that need each other, taken by the '
           'same worker, never finish although another worker is idle',
    demo={'demo.sh': POOL, 'demo.cc': '''#include <atomic>
#include <chrono>
#include <cstdlib>
#include "nisaba/port/thread_pool.h"
// Two workers, four tasks queued before the start: 0 and 1 meet, 2 and 3 meet.
int main() {
  std::atomic<int> a{0}, b{0};
  auto meet = [](std::atomic<int> *x) {
    ++*x;
    for (int i = 0; i < 5000 && *x < 2; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    if (*x < 2) _Exit(1);
  };
  {
    nisaba::ThreadPool pool(2);
    for (int i = 0; i < 4; ++i) { auto *x = i < 2 ? &a : &b; pool.Schedule([&, x] { meet(x); }); }
    pool.StartWorkers();
  }
  return a == 2 && b == 2 ? 0 : 1;
}
'''})

BUGS['pool-first-task'] = dict(
    property='P01',
    edits=[('nisaba/port/thread_pool.h', '''    for (int i = 0; i < num_threads_; ++i) {
      threads_.push_back(std::thread(&ThreadPool::WorkLoop, this));
    }
''', '''    for (int i = 0; i < num_threads_; ++i) {
      // Give the new worker something to start with, if there is anything.
      std::function<void()> first;
      {
        absl::MutexLock l(&mu_);
        if (queue_.size() > 1) {
          first = std::move(queue_.front());
          queue_.pop();
        } else if (!queue_.empty()) {
          first = queue_.front();
        }
      }
      threads_.push_back(std::thread([this, first] {
        if (first != nullptr) first();
        WorkLoop();
      }));
    }
''')],
    needs='tasks scheduled before StartWorkers(), and a queue that is down to one task when a worker is created',
    breaks='the last task queued before the start runs twice',
    demo={'demo.sh': POOL, 'demo.cc': '''#include <atomic>
#include "nisaba/port/thread_pool.h"
int main() {
  std::atomic<int> runs[3] = {};
  {
    nisaba::ThreadPool pool(1);
    pool.Schedule([&] { ++runs[0]; });
    pool.StartWorkers();
  }
  return runs[0] == 1 ? 0 : 1;
}
'''})

BUGS['pool-inline'] = dict(
    property='P02',
    edits=[('nisaba/port/thread_pool.h', '''    assert(func != nullptr);
    absl::MutexLock l(&mu_);
    queue_.push(std::move(func));
''', '''    assert(func != nullptr);
    {
      absl::MutexLock l(&mu_);
      if (queue_.size() < 4096) {
        queue_.push(std::move(func));
        return;
      }
    }
    func();  // The workers are far behind: lend a hand.
''')],
    needs='more than 4096 tasks waiting at the same time',
    breaks='Schedule() runs the task itself: it waits for it, out of order and with one more task running than there are workers',
    demo={'demo.sh': POOL, 'demo.cc': '''#include <atomic>
#include <cstdlib>
#include <thread>
#include "nisaba/port/thread_pool.h"
int main() {
  std::atomic<bool> open{false};
  std::atomic<int> wrong{0};
  const auto me = std::this_thread::get_id();
  {
    nisaba::ThreadPool pool(1);
    pool.StartWorkers();
    pool.Schedule([&] { while (!open) std::this_thread::yield(); });
    for (int i = 0; i < 6000; ++i) pool.Schedule([&] { if (std::this_thread::get_id() == me) ++wrong; });
    open = true;
  }
  return wrong == 0 ? 0 : 1;
}
'''})

BUGS['port-write-notrunc'] = dict(
    property='P08',
    edits=[('nisaba/port/file_util.cc', '''  output.open(std::string(file_path));
  if (!output) {
''', '''  // Keep the inode of an existing file: others may have it open.
  output.open(std::string(file_path), std::ios::out | std::ios::in);
  if (!output) output.open(std::string(file_path));
  if (!output) {
''')],
    needs='writing a shorter text over a longer file',
    breaks='the tail of the old content stays behind the new content',
    demo={'demo.sh': FILE, **SHIMS, 'demo.cc': '''#include "nisaba/port/file_util.h"
using namespace nisaba::file;
int main() {
  if (!WriteTextFile("x.txt", "a long first version").ok()) return 2;
  if (!WriteTextFile("x.txt", "short").ok()) return 2;
  auto r = ReadTextFile("x.txt");
  return r.ok() && *r == "short" ? 0 : 1;
}
'''})

BUGS['port-lines-buffer'] = dict(
    property='P09',
    edits=[('nisaba/port/file_util.cc', '''  while (std::getline(ifs, line)) {
    if (line.empty()) continue;
    if (line.size() >= max_length) line[max_length - 1] = '\\0';
    input_lines.emplace_back(line);
  }
''', '''  std::vector<char> buffer(max_length + 1);
  while (ifs.getline(buffer.data(), buffer.size())) {
    if (ifs.gcount() <= 1) continue;
    line.assign(buffer.data(), ifs.gcount() - (ifs.eof() ? 0 : 1));
    input_lines.emplace_back(line);
  }
''')],
    needs='a line longer than the buffer, followed by other lines',
    breaks='reading stops at the long line and the shortened list is returned as a success',
    demo={'demo.sh': FILE, **SHIMS, 'demo.cc': '''#include "nisaba/port/file_util.h"
using namespace nisaba::file;
int main() {
  std::string text = "first\\n" + std::string(40000, 'x') + "\\nlast\\n";
  if (!WriteTextFile("x.txt", text).ok()) return 2;
  auto r = ReadLines("x.txt");
  if (!r.ok()) return 0;
  return r->size() == 3 && r->back() == "last" ? 0 : 1;
}
'''})

BUGS['port-size-cache'] = dict(
    property='P10',
    edits=[('nisaba/port/file.cc', '''  struct stat f_stat;
  stat(name_.c_str(), &f_stat);
  return f_stat.st_size;
''', '''  if (size_ == 0) {
    struct stat f_stat;
    stat(name_.c_str(), &f_stat);
    size_ = f_stat.st_size;
  }
  return size_;
'''), ('nisaba/port/file.h', '''  FILE* f_;
''', '''  size_t size_ = 0;
  FILE* f_;
''')],
    needs='two Size() calls with a write in between',
    breaks='Size() keeps reporting the size of the first call',
    demo={'demo.sh': PB, **SHIMS, 'demo.cc': '''#include "nisaba/port/file.h"
int main() {
  File *f = File::Open("x", "w");
  f->WriteString("abc"); f->Flush();
  if (f->Size() != 3) return 1;
  f->WriteString("defg"); f->Flush();
  return f->Size() == 7 ? 0 : 1;
}
'''})

BUGS['port-proto-merge'] = dict(
    property='P11',
    edits=[('nisaba/port/file.cc', 'if (parser.ParseFromString(str, proto)) {', 'if (parser.MergeFromString(str, proto)) {')],
    needs='loading into a message that is not empty',
    breaks='what the message held before is mixed with the content of the file',
    demo={'demo.sh': PB, **SHIMS, 'demo.cc': '''#include "nisaba/port/file.h"
#include "nisaba/port/file_util.h"
#include "nisaba/interim/testing/testdata.pb.h"
int main() {
  if (!nisaba::file::WriteTextFile("m", "rewrite { rule: 'A' input: 'x' }\\n").ok()) return 2;
  testing::Rewrites m;
  if (!::file::ReadFileToProto("m", &m) || m.rewrite_size() != 1) return 1;
  if (!::file::ReadFileToProto("m", &m)) return 1;
  return m.rewrite_size() == 1 ? 0 : 1;
}
'''})

BUGS['pool-hw-limit'] = dict(
    property='P02',
    edits=[('nisaba/port/thread_pool.h', '''    for (int i = 0; i < num_threads_; ++i) {
''', '''    // More threads than processors only get in each other's way.
    const int hw = std::thread::hardware_concurrency();
    const int n = hw > 0 && hw < num_threads_ ? hw : num_threads_;
    for (int i = 0; i < n; ++i) {
''')],
    needs='a machine with fewer processors than the pool has workers, and tasks that wait for each other',
    breaks='fewer workers are started than asked for: tasks that need each other never all run',
    demo={'demo.sh': POOL, 'demo.cc': '''#include <atomic>
#include <chrono>
#include <cstdlib>
#include <thread>
#include "nisaba/port/thread_pool.h"
int main() {
  std::atomic<int> here{0};
  const int n = std::thread::hardware_concurrency() + 1;
  nisaba::ThreadPool pool(n);
  pool.StartWorkers();
  for (int i = 0; i < n; ++i) pool.Schedule([&] { ++here; while (here < n) std::this_thread::sleep_for(std::chrono::milliseconds(1)); });
  for (int i = 0; i < 1000 && here < n; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
  if (here < n) _Exit(1);
  return 0;
}
'''})

BUGS['pool-retire'] = dict(
    property='P01',
    edits=[('nisaba/port/thread_pool.h', '''        mu_.Await(absl::Condition(this, &ThreadPool::WorkAvailable));
''', '''        // Threads that have nothing to do are given back after a while.
        if (!mu_.AwaitWithTimeout(
                absl::Condition(this, &ThreadPool::WorkAvailable),
                absl::Seconds(5))) {
          break;
        }
'''), ('nisaba/port/thread_pool.h', '#include "absl/synchronization/mutex.h"\n', '#include "absl/synchronization/mutex.h"\n#include "absl/time/time.h"\n')],
    needs='a pool that has nothing to do for five seconds before it gets its next task',
    breaks='all workers have left: tasks scheduled later are never run',
    demo={'demo.sh': POOL, 'demo.cc': '''#include <atomic>
#include <chrono>
#include <thread>
#include "nisaba/port/thread_pool.h"
int main() {
  std::atomic<int> ran{0};
  {
    nisaba::ThreadPool pool(2);
    pool.StartWorkers();
    pool.Schedule([&] { ++ran; });
    std::this_thread::sleep_for(std::chrono::seconds(7));
    pool.Schedule([&] { ++ran; });
  }
  return ran == 2 ? 0 : 1;
}
'''})

# ---- more of the file helpers, and the timer ----
U, F, P, T = ['nisaba/port/' + n for n in ('file_util.cc', 'file.cc', 'proto_file_stream.cc', 'timer.h')]

BUGS['port-write-same'] = dict(
    property='P08',
    edits=[(U, '  std::ofstream output;\n', '''  {
    // Leave a file alone that holds this text already.
    std::ifstream old{std::string(file_path), std::ios::ate};
    if (old && static_cast<size_t>(old.tellg()) == contents.size()) {
      std::string now(std::min<size_t>(contents.size(), 4096), '\\0');
      old.seekg(0);
      if (old.read(&now[0], now.size()) && now == contents.substr(0, 4096)) {
        return absl::OkStatus();
      }
    }
  }
  std::ofstream output;
''')],
    needs='overwriting a file with a text of the same length that differs only beyond the first 4096 bytes',
    breaks='the old text stays, success is reported',
    demo={'demo.sh': FILE, **SHIMS, 'demo.cc': '''#include "nisaba/port/file_util.h"
using namespace nisaba::file;
int main() {
  std::string a(9000, 'a'), b = a;
  b[8000] = 'b';
  if (!WriteTextFile("x.txt", a).ok()) return 2;
  if (!WriteTextFile("x.txt", b).ok()) return 2;
  auto r = ReadTextFile("x.txt");
  return r.ok() && *r == b ? 0 : 1;
}
'''})

BUGS['port-write-rename'] = dict(
    property='P08',
    edits=[(U, '  output.open(std::string(file_path));\n', '''  // Readers never see a part of the text.
  const std::string part = absl::StrCat(file_path, ".part");
  output.open(part);
'''), (U, '''        "Failed to write: ", contents.size(), " bytes to ", file_path));
  }
  return absl::OkStatus();
''', '''        "Failed to write: ", contents.size(), " bytes to ", file_path));
  }
  std::error_code error;
  std::filesystem::rename(part, std::string(file_path), error);
  return absl::OkStatus();
''')],
    needs='renaming the finished file fails',
    breaks='the text is not in the file, success is reported',
    demo={'demo.sh': FILE, **SHIMS, 'demo.cc': '''#include <sys/stat.h>
#include "nisaba/port/file_util.h"
using namespace nisaba::file;
int main() {
  mkdir("x.txt", 0755);  // Neither writable nor replaceable by a file.
  return WriteTextFile("x.txt", "text").ok() ? 1 : 0;
}
'''})

FAULTY = FILE.replace('-lpthread', '-rdynamic -lpthread')

BUGS['port-lines-partial'] = dict(
    property='P09',
    edits=[(U, '  if (ifs.bad()) {', '  if (ifs.bad() && input_lines.empty()) {')],
    needs='a read error after the first lines were read',
    breaks='the lines read so far are returned as if they were the file',
    demo={'demo.sh': FAULTY, **SHIMS, 'demo.cc': '''#include <errno.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "nisaba/port/file_util.h"
using namespace nisaba::file;
static int reads = 1000;
extern "C" ssize_t read(int fd, void *p, size_t n) {
  if (fd > 2 && reads-- == 0) { errno = EIO; return -1; }
  return syscall(SYS_read, fd, p, n);
}
int main() {
  std::string text;
  for (int i = 0; i < 20000; ++i) text += "line\\n";
  if (!WriteTextFile("x.txt", text).ok()) return 2;
  reads = 2;
  auto r = ReadLines("x.txt");
  return r.ok() && r->size() != 20000 ? 1 : 0;
}
'''})

BUGS['port-stream-part'] = dict(
    property='P10',
    edits=[(P, '''  return ::file::WriteString(
             fp_,
             absl::string_view(reinterpret_cast<const char*>(buffer), size),
             ::file::Defaults())
      .ok();''', '''  // Saves a copy of the buffer.
  return size == 0 || fp_->Write(buffer, size) > 0;''')],
    needs='a device that takes a part of a buffer only (a full disk in the middle of it)',
    breaks='the stream reports success for bytes that are not stored',
    demo={'demo.sh': PB.replace('"$here/demo.cc"', '"$here/demo.cc" "$PWD"/nisaba/port/proto_file_stream.cc'),
          **SHIMS, 'demo.cc': '''#include <signal.h>
#include <string.h>
#include <sys/resource.h>
#include <algorithm>
#include "nisaba/port/file.h"
#include "nisaba/port/file_util.h"
#include "nisaba/port/proto_file_stream.h"
int main() {
  File *f = File::Open("x", "w");
  signal(SIGXFSZ, SIG_IGN);
  rlimit old, full;
  getrlimit(RLIMIT_FSIZE, &old);
  full = old;
  full.rlim_cur = 5000;
  setrlimit(RLIMIT_FSIZE, &full);
  bool ok = true;
  std::string want(8192, 'x');
  {
    nisaba::proto::ProtoFileOutputStream out(f);
    void *p; int n; size_t done = 0;
    while (done < want.size() && (ok = out.Next(&p, &n))) {
      size_t k = std::min<size_t>(n, want.size() - done);
      memcpy(p, want.data() + done, k);
      done += k;
      if (k < static_cast<size_t>(n)) out.BackUp(n - k);
    }
    if (!out.Close()) ok = false;
  }
  setrlimit(RLIMIT_FSIZE, &old);
  auto r = nisaba::file::ReadTextFile("x");
  return ok && (!r.ok() || *r != want) ? 1 : 0;
}
'''})

CLOCK = '''#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "nisaba/port/timer.h"
static double late = 0;  // seconds
extern "C" int clock_gettime(clockid_t c, timespec *t) noexcept {
  int r = syscall(SYS_clock_gettime, c, t);
  long long ns = t->tv_nsec + static_cast<long long>(late * 1e9);
  t->tv_sec += ns / 1000000000;
  t->tv_nsec = ns % 1000000000;
  return r;
}
'''
TIMER = HEAD + '''g++ -std=c++17 -O1 -rdynamic -I"$PWD" -o "$t/demo" "$here/demo.cc" || exit 3
timeout 60 "$t/demo"
'''

BUGS['timer-int'] = dict(
    property='P12',
    edits=[(T, '''    return std::chrono::duration<double, std::milli>(
               std::chrono::steady_clock::now() - start_time_)
        .count();
''', '''    const int micros = std::chrono::duration_cast<std::chrono::microseconds>(
                           std::chrono::steady_clock::now() - start_time_)
                           .count();
    return micros / 1000.0;
''')],
    needs='a timer that runs for more than 35 minutes',
    breaks='the elapsed time wraps around and gets negative',
    demo={'demo.sh': TIMER, 'demo.cc': CLOCK + '''int main() {
  nisaba::Timer t;
  late = 3600;
  const double ms = t.ElapsedMillis();
  return ms >= 3600e3 && ms < 3660e3 ? 0 : 1;
}
'''})

BUGS['timer-float'] = dict(
    property='P12',
    edits=[(T, '''    return std::chrono::duration<double, std::milli>(
               std::chrono::steady_clock::now() - start_time_)
        .count();
''', '''    using Millis = std::chrono::duration<float, std::milli>;
    return Millis(std::chrono::steady_clock::now().time_since_epoch()).count() -
           Millis(start_time_.time_since_epoch()).count();
''')],
    needs='a machine that has been up for some hours',
    breaks='the elapsed time is off by whole milliseconds, and goes up in steps',
    demo={'demo.sh': TIMER, 'demo.cc': CLOCK + '''int main() {
  late = 30 * 86400.0;
  nisaba::Timer t;
  late += 0.040;
  const double ms = t.ElapsedMillis();
  return ms >= 39.99 && ms < 1000 ? 0 : 1;
}
'''})
