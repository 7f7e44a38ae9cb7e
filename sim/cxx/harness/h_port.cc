// Scenarios for P08, P09, P10, P11 (C++ part) and P12: nisaba/port.
#include <algorithm>
#include <cstring>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "google/protobuf/text_format.h"
#include "nisaba/interim/testing/testdata.pb.h"
#include "nisaba/port/file.h"
#include "nisaba/port/file_util.h"
#include "nisaba/port/proto_file_stream.h"
#include "nisaba/port/timer.h"
#include "nisaba/scripts/brahmic/script_config.pb.h"
#include "simrt.h"
#include "simutil.h"

namespace {

using simutil::Content;
using simutil::OnDisk;
using simutil::Put;

const unsigned kHardWrite = sim::kOpenFail | sim::kWriteEIO | sim::kWriteENOSPC | sim::kCloseFail |
                            sim::kRenameFail | sim::kUnlinkFail;
const unsigned kHardRead = sim::kOpenFail | sim::kReadEIO;

// Runs fn with the given faults; an escaping exception is reported.
template <class F>
void Call(const char *what, unsigned faults, F fn) {
  sim::SetFaults(faults);
  try {
    fn();
  } catch (const std::exception &e) {
    sim::SetFaults(0);
    sim::Violation("escaped-exception", "%s lets an exception escape: %s", what, e.what());
  }
  sim::SetFaults(0);
}

// A text that differs a little from the given one (or not at all).
std::string Similar(std::string text) {
  const size_t n = text.size();
  switch (sim::W(4)) {
    case 0: break;
    case 1:  // One byte, near the start, the end, or anywhere.
      if (n) {
        const size_t at = sim::W(n);
        text[sim::W(2) ? at : n - 1 - at % std::min<size_t>(n, 16)] ^= 1;
      }
      break;
    case 2: text.resize(n - std::min<size_t>(n, 1 + sim::W(sim::W(2) ? 10 : 10000))); break;
    default: text += text.substr(0, 1 + sim::W(100)) + "more"; break;
  }
  return text;
}

}  // namespace

// P08.
SIM_SCENARIO(port_write_text) {
  const unsigned faults = kHardWrite | sim::kWriteEINTR | sim::kWriteShort;
  const int n = sim::Range(1, 4);
  for (int i = 0; i < n; ++i) {
    const bool temp = sim::Chance(1, 3);
    const std::string name = sim::Chance(1, 2) ? "a.txt" : "b.txt";
    std::string path = (temp ? "/sim/tmp/" : "/sim/d/") + name;
    const std::string text = Content(sim::W(6));
    if (sim::Chance(1, 3)) Put(path, Similar(text));
    const std::string old = OnDisk(path);
    const uint64_t hard0 = sim::FaultsFired(kHardWrite);
    bool ok = false;
    std::string err;
    Call("the write helper", faults, [&] {
      if (temp) {
        auto r = nisaba::file::WriteTempTextFile(name, text);
        ok = r.ok();
        if (ok) path = *r; else err = r.status().ToString();
      } else {
        auto r = nisaba::file::WriteTextFile(path, text);
        ok = r.ok();
        err = r.ToString();
      }
    });
    const bool hard = sim::FaultsFired(kHardWrite) != hard0;
    const std::string got = OnDisk(path);
    sim::Note("write %zu bytes to %s: %s", text.size(), path.c_str(), ok ? "ok" : "error");
    if (ok && !sim::FileExists(path.c_str()))
      sim::Violation("not-stored", "writing %s reported success, there is no such file", path.c_str());
    if (ok && got != text)
      sim::Violation("not-stored", "writing %zu bytes to %s reported success, %zu bytes are stored%s", text.size(),
                     path.c_str(), got.size(), got.size() == text.size() ? ", different ones" : "");
    if (!ok && !hard)
      sim::Violation("false-error", "writing %s failed without a fault: %s", path.c_str(), err.c_str());
    if (ok && old.size() == text.size() && old != text) sim::Probe("overwrote_same_size");
    if (!ok && got != old && text.compare(0, got.size(), got) != 0)
      sim::Violation("mixed", "after a failed write %s is neither the old file nor a part of the new one", path.c_str());
    if (sim::OpenFiles()) sim::Violation("descriptor-leak", "%d descriptors left open", sim::OpenFiles());
    if (hard) sim::Probe("writes_with_hard_fault");
    if (text.size() > 100) sim::Nontrivial();
  }
}

// P09.
SIM_SCENARIO(port_read_text) {
  const unsigned faults = kHardRead | sim::kReadEINTR | sim::kReadShort | sim::kSeekFail;
  const int n = sim::Range(1, 3);
  for (int i = 0; i < n; ++i) {
    const bool missing = sim::Chance(1, 10);
    std::string text = Content(1 + sim::W(5));
    const std::string path = missing ? "/sim/d/none" : "/sim/d/in";
    if (!missing) Put(path, text);
    const uint64_t hard0 = sim::FaultsFired(kHardRead | sim::kSeekFail);
    const int kind = sim::W(2);
    bool ok = false;
    std::string got, err;
    Call("the read helper", faults, [&] {
      auto r = kind ? nisaba::file::ReadBinaryFile(path) : nisaba::file::ReadTextFile(path);
      ok = r.ok();
      if (ok) got = *r; else err = r.status().ToString();
    });
    const bool hard = sim::FaultsFired(kHardRead | sim::kSeekFail) != hard0;
    sim::Note("read %s: %s", path.c_str(), ok ? "ok" : "error");
    if (ok && missing) sim::Violation("missing-file", "reading a missing file reports success");
    if (ok && got != text)
      sim::Violation("not-the-file", "reading %zu bytes reported success with %zu bytes%s", text.size(), got.size(),
                     got.size() == text.size() ? ", different ones" : "");
    if (!ok && !hard && !missing && !text.empty())
      sim::Violation("false-error", "reading %s failed without a fault: %s", path.c_str(), err.c_str());
    if (sim::OpenFiles()) sim::Violation("descriptor-leak", "%d descriptors left open", sim::OpenFiles());
    if (hard) sim::Probe("reads_with_hard_fault");
    if (text.size() > 100) sim::Nontrivial();
  }
}

// P09.
SIM_SCENARIO(port_read_lines) {
  const unsigned faults = kHardRead | sim::kReadEINTR | sim::kReadShort;
  const int n = sim::Range(0, 40);
  const bool long_lines = sim::Chance(1, 3);
  std::string text;
  std::vector<std::string> want;
  for (int i = 0; i < n; ++i) {
    std::string l = Content(sim::W(long_lines ? 4 : 2));
    for (char &c : l) if (c == '\n' || c == '\r' || c == 0) c = '.';
    // Beyond the limit only the start of a line is promised.
    if (l.size() > 30000 && !sim::Chance(1, 2)) l.resize(30000);
    else if (sim::Chance(1, 60)) l.resize(32760 + sim::W(20), 'z');
    text += l;
    if (i + 1 < n || sim::Chance(1, 2)) text += '\n';
    if (!l.empty()) want.push_back(l);
  }
  const bool missing = sim::Chance(1, 12);
  const std::string path = missing ? "/sim/d/none" : "/sim/d/in";
  if (!missing) Put(path, text);
  bool ok = false;
  std::vector<std::string> got;
  std::string err;
  Call("ReadLines", faults, [&] {
    auto r = nisaba::file::ReadLines(path);
    ok = r.ok();
    if (ok) got = *r; else err = r.status().ToString();
  });
  const bool hard = sim::FaultsFired(kHardRead) != 0;
  if (ok && missing) sim::Violation("missing-file", "reading a missing file reports success");
  const size_t kMax = 32768;
  if (ok && got.size() == want.size())
    for (size_t i = 0; i < got.size(); ++i)
      if (want[i].size() >= kMax && got[i].compare(0, kMax - 1, want[i], 0, kMax - 1) == 0) got[i] = want[i];
  if (ok && got != want)
    sim::Violation("not-the-file", "ReadLines reported success with %zu lines of %zu%s", got.size(), want.size(),
                   got.size() == want.size() ? ", different ones" : "");
  if (!ok && !hard && !missing) sim::Violation("false-error", "ReadLines failed without a fault: %s", err.c_str());
  if (sim::OpenFiles()) sim::Violation("descriptor-leak", "%d descriptors left open", sim::OpenFiles());
  if (hard) sim::Probe("reads_with_hard_fault");
  if (want.size() > 2) sim::Nontrivial();
}

// The size of a file that cannot be examined is not made up.
void AskSize(File *f, size_t size) {
  const uint64_t h0 = sim::FaultsFired(sim::kStatFail);
  sim::SetFaults(sim::kStatFail);
  const size_t got = f->Size();
  sim::SetFaults(0);
  if (got != size && (got != 0 || sim::FaultsFired(sim::kStatFail) == h0))
    sim::Violation("size", "Size() is %zu of %zu", got, size);
}

// P10: a file object written with a random sequence of calls.
SIM_SCENARIO(port_file_write) {
  const unsigned faults = sim::kWriteEIO | sim::kWriteENOSPC | sim::kCloseFail | sim::kWriteEINTR | sim::kWriteShort;
  // stdio reports an interrupted write as an error, so it counts as one here.
  const unsigned hard = sim::kWriteEIO | sim::kWriteENOSPC | sim::kCloseFail | sim::kWriteEINTR;
  const bool append = sim::Chance(1, 3);
  std::string before;
  if (append) { before = Content(sim::W(3)); Put("/sim/d/out", before); }
  auto name = std::make_unique<std::string>("/sim/d/out");
  std::unique_ptr<File> f(File::Open(*name, append ? "a" : "w"));
  if (f == nullptr) sim::Violation("false-error", "opening failed without a fault");
  // The name belongs to the caller.
  if (sim::Chance(1, 2)) name = nullptr;
  std::string all = before;
  bool err = false;
  const int n = sim::Range(1, 8);
  auto stored = [&](const char *what) {
    const std::string got = OnDisk("/sim/d/out");
    if (!err && got != all)
      sim::Violation("not-stored", "%s reported success: %zu bytes stored of %zu written%s", what, got.size(), all.size(),
                     got.size() == all.size() ? ", different ones" : "");
  };
  for (int i = 0; i < n; ++i) {
    const std::string d = Content(sim::W(5));
    bool ok = true;
    const int op = sim::W(6);
    const uint64_t h0 = sim::FaultsFired(hard);
    // WriteOrDie may end the run, loudly, when there is a fault.
    sim::AllowFatal(op == 4);
    sim::SetFaults(faults);
    switch (op) {
      case 0: { size_t k = f->Write(d.data(), d.size()); if (k > d.size()) sim::Violation("count", "Write of %zu returns %zu", d.size(), k); ok = k == d.size(); break; }
      case 1: ok = f->WriteString(d) == d.size(); break;
      case 2: ok = f->WriteLine(d); break;
      case 3: ok = ::file::WriteString(f.get(), d, ::file::Defaults()).ok(); break;
      case 4: f->WriteOrDie(d.data(), d.size()); break;
      case 5: ok = f->Flush(); break;
    }
    sim::SetFaults(0);
    sim::AllowFatal(false);
    if (op != 5) all += d;
    if (op == 2) all += "\n";
    if (!ok && sim::FaultsFired(hard) == h0 && !err) sim::Violation("false-error", "operation %d failed without a fault", op);
    if (!ok) err = true;
    sim::Note("op %d, %zu bytes: %s", op, d.size(), ok ? "ok" : "error");
    if (op == 5 && ok) stored("Flush");
    if (op == 5 && ok && !err && f->Size() != all.size())
      sim::Violation("size", "Size() is %zu after flushing %zu bytes", f->Size(), all.size());
    if (op == 5 && ok && !err && sim::Chance(1, 4)) AskSize(f.get(), all.size());
  }
  const uint64_t h0 = sim::FaultsFired(hard);
  sim::SetFaults(faults);
  const bool plain = sim::W(2);
  bool ok = plain ? f->Close() : f->Close(::file::Defaults()).ok();
  sim::SetFaults(0);
  sim::Note("close: %s", ok ? "ok" : "error");
  if (ok) stored("Close");
  if (!ok && sim::FaultsFired(hard) == h0 && !err) sim::Violation("false-error", "Close failed without a fault");
  if (f->Open()) sim::Violation("still-open", "the file object says it is open after Close() %s", ok ? "succeeded" : "failed");
  if (sim::OpenFiles()) sim::Violation("descriptor-leak", "%d descriptors left open", sim::OpenFiles());
  if (all.size() > 200) sim::Nontrivial();
}

// P10: reading.
SIM_SCENARIO(port_file_read) {
  const unsigned faults = sim::kReadEIO | sim::kReadEINTR | sim::kReadShort;
  const unsigned hard = sim::kReadEIO | sim::kReadEINTR;
  const std::string text = Content(1 + sim::W(5));
  Put("/sim/d/in", text);
  std::unique_ptr<File> f(File::Open("/sim/d/in", "r"));
  if (f == nullptr) sim::Violation("false-error", "opening failed without a fault");
  if (f->Size() != text.size()) sim::Violation("size", "Size() is %zu of %zu", f->Size(), text.size());
  if (sim::Chance(1, 4)) AskSize(f.get(), text.size());
  size_t pos = 0;
  const int n = sim::Range(1, 5);
  for (int i = 0; i < n; ++i) {
    const uint64_t h0 = sim::FaultsFired(hard);
    const int op = sim::W(3);
    std::string got;
    size_t asked = 0;
    bool complete = false;  // the call claims that all that could be read was read
    sim::SetFaults(faults);
    if (op == 0) {
      asked = 1 + sim::W(9000);
      std::string b(asked, '\0');
      const size_t k = f->Read(&b[0], asked);
      if (k > asked) sim::Violation("count", "Read of %zu returns %zu", asked, k);
      got = b.substr(0, k);
      complete = k == asked;
    } else if (op == 1) {
      asked = sim::Chance(1, 2) ? 1 + sim::W(5000) : 10000000;
      const int64_t k = f->ReadToString(&got, asked);
      complete = k >= 0;
      if (k >= 0 && static_cast<size_t>(k) != got.size()) sim::Violation("count", "ReadToString returns %lld with %zu bytes", (long long)k, got.size());
    } else {
      asked = 2 + sim::W(300);
      std::string b(asked + 1, 'x');
      char *r = f->ReadLine(&b[0], asked);
      if (b[asked] != 'x') sim::Violation("overrun", "ReadLine wrote beyond its limit");
      complete = r != nullptr;
      if (r) {
        // A line stops at its end or one byte below the limit.
        size_t e = text.find('\n', pos);
        size_t len = e == std::string::npos ? text.size() - pos : e + 1 - pos;
        if (len > asked - 1) len = asked - 1;
        got = b.substr(0, len);
        if (sim::FaultsFired(hard) == h0 && b[len] != 0) sim::Violation("count", "the line is not terminated where it ends");
        if (sim::FaultsFired(hard) != h0) got = std::string(b.c_str());
        asked = len;
      }
    }
    sim::SetFaults(0);
    const bool hit = sim::FaultsFired(hard) != h0;
    size_t left = text.size() - pos;
    if (got != text.substr(pos, got.size())) sim::Violation("not-the-file", "operation %d returns bytes that are not next in the file", op);
    if (op == 1 && complete && got.size() != std::min(asked, left))
      sim::Violation("not-the-file", "ReadToString returned %zu bytes as the whole rest of %zu", got.size(), left);
    if (op == 0 && !hit && got.size() != std::min(asked, left)) sim::Violation("short", "Read returns %zu of %zu without a fault", got.size(), std::min(asked, left));
    if (op == 1 && !complete && !hit) sim::Violation("false-error", "ReadToString failed without a fault");
    if (op == 2 && !complete && !hit && left) sim::Violation("false-error", "ReadLine failed without a fault");
    if (hit) break;  // position unknown from here on
    pos += got.size();
  }
  if (!f->Close()) sim::Violation("false-error", "Close failed without a fault");
  if (sim::OpenFiles()) sim::Violation("descriptor-leak", "%d descriptors left open", sim::OpenFiles());
  if (text.size() > 200) sim::Nontrivial();
}

// P10: opening.
SIM_SCENARIO(port_file_open) {
  const int op = sim::W(3);
  const bool missing = sim::W(2);
  if (!missing) Put("/sim/d/in", "hello\n");
  sim::AllowFatal(op != 0);
  sim::SetFaults(sim::kOpenFail);
  std::unique_ptr<File> f(op == 0 ? File::Open("/sim/d/in", "r")
                                  : op == 1 ? File::OpenOrDie("/sim/d/in", "r")
                                            : ::file::OpenOrDie("/sim/d/in", "r", ::file::Defaults()));
  sim::SetFaults(0);
  sim::AllowFatal(false);
  if (f != nullptr && (missing || sim::FaultsFired(sim::kOpenFail))) sim::Violation("open", "an open that failed gives a file");
  if (f == nullptr && !missing && !sim::FaultsFired(sim::kOpenFail)) sim::Violation("open", "a good open gives no file");
  if (f == nullptr && op) sim::Violation("open", "OpenOrDie returns without a file");
  if (f) {
    if (!f->Open()) sim::Violation("open", "an open file says it is not");
    char b[6];
    sim::AllowFatal(true);
    sim::SetFaults(sim::kReadEIO | sim::kReadShort);
    f->ReadOrDie(b, 6);
    sim::SetFaults(0);
    sim::AllowFatal(false);
    if (memcmp(b, "hello\n", 6) != 0) sim::Violation("not-the-file", "ReadOrDie returned without the bytes");
    if (!f->Close()) sim::Violation("false-error", "Close failed");
    sim::Nontrivial();
  }
  if (sim::OpenFiles()) sim::Violation("descriptor-leak", "%d descriptors left open", sim::OpenFiles());
}

// P10: the protocol-buffer stream on top of a file.
SIM_SCENARIO(port_proto_stream) {
  const unsigned faults = sim::kWriteEIO | sim::kWriteENOSPC | sim::kCloseFail | sim::kWriteEINTR | sim::kWriteShort;
  const unsigned hard = faults & ~sim::kWriteShort;
  File *f = File::Open("/sim/d/out", "w");
  if (f == nullptr) sim::Violation("false-error", "opening failed without a fault");
  std::unique_ptr<File> own(f);
  static const int kBlocks[] = {-1, 1, 7, 64, 5000};
  std::string all;
  bool err = false;
  const bool auto_close = sim::Chance(1, 4);
  {
    nisaba::proto::ProtoFileOutputStream out(f, kBlocks[sim::W(5)]);
    if (auto_close) out.SetCloseOnDelete(true);
    const int n = sim::Range(1, 10);
    for (int i = 0; i < n; ++i) {
      const uint64_t h0 = sim::FaultsFired(hard);
      const int op = sim::W(4);
      bool ok = true;
      sim::SetFaults(faults);
      if (op == 0) {
        ok = out.Flush();
      } else {
        void *p = nullptr;
        int size = 0;
        ok = out.Next(&p, &size);
        if (ok) {
          if (size <= 0) sim::Violation("block", "Next gives a block of %d bytes", size);
          const int keep = op == 1 ? size : sim::W(size + 1);
          for (int k = 0; k < keep; ++k) {
            const char c = 'a' + (all.size() + k) % 26;
            static_cast<char *>(p)[k] = c;
          }
          for (int k = 0; k < keep; ++k) all += 'a' + all.size() % 26;
          if (keep < size) out.BackUp(size - keep);
        }
      }
      sim::SetFaults(0);
      if (!err && ok && out.ByteCount() != static_cast<int64_t>(all.size()))
        sim::Violation("count", "ByteCount() is %lld after %zu bytes", (long long)out.ByteCount(), all.size());
      if (!ok && !err && sim::FaultsFired(hard) == h0) sim::Violation("false-error", "stream operation %d failed without a fault", op);
      if (!ok) err = true;
    }
    if (!auto_close) {
      sim::SetFaults(faults);
      const uint64_t h0 = sim::FaultsFired(hard);
      const bool ok = out.Close();
      sim::SetFaults(0);
      const std::string got = OnDisk("/sim/d/out");
      sim::Note("close: %s", ok ? "ok" : "error");
      if (ok && got != all && !err)
        sim::Violation("not-stored", "Close reported success: %zu bytes stored of %zu", got.size(), all.size());
      if (ok && err && got.size() < all.size())
        sim::Violation("not-stored", "Close reported success after an error: %zu bytes stored of %zu", got.size(), all.size());
      if (!ok && !err && sim::FaultsFired(hard) == h0) sim::Violation("false-error", "Close failed without a fault");
    }
  }
  if (auto_close) {
    const std::string got = OnDisk("/sim/d/out");
    if (!sim::FaultsFired(hard) && got != all)
      sim::Violation("not-stored", "stream gone: %zu bytes stored of %zu", got.size(), all.size());
  }
  if (f->Open()) sim::Violation("still-open", "the file says it is open after the stream closed it");
  if (sim::OpenFiles()) sim::Violation("descriptor-leak", "%d descriptors left open", sim::OpenFiles());
  if (all.size() > 20) sim::Nontrivial();
}

namespace {
testing::Rewrites MakeRewrites() {
  testing::Rewrites m;
  const int n = sim::Range(1, 60);
  for (int i = 0; i < n; ++i) {
    auto *r = m.add_rewrite();
    const std::string base = std::string(1 + sim::W(40), 'a' + i % 26);
    r->add_rule("RULE_" + std::to_string(i % 7));
    r->set_input(base + "<in>");
    r->add_output(base + (i % 2 ? "\xE0\xA4\x95" : "x"));
  }
  return m;
}
}  // namespace

// P11: generic loaders.
SIM_SCENARIO(port_proto_load) {
  const unsigned faults = kHardRead | sim::kReadEINTR | sim::kReadShort | sim::kSeekFail;
  testing::Rewrites m = MakeRewrites();
  std::string data;
  const int form = sim::W(2);
  if (form) m.SerializeToString(&data);
  else google::protobuf::TextFormat::PrintToString(m, &data);
  // Damage: the loader must fail, or give what a sane reader makes of the file.
  const int damage = sim::W(6);
  if (damage == 4) data.resize(sim::W(data.size()));
  if (damage == 5 && !data.empty()) data[sim::W(data.size())] ^= 1 + sim::W(255);
  Put("/sim/d/m", data);
  testing::Rewrites want, got;
  bool readable = false;
  {
    google::protobuf::TextFormat::Parser p;
    if (p.ParseFromString(data, &want)) readable = true;
    else readable = want.ParseFromString(data);
  }
  if (sim::Chance(1, 2)) got = MakeRewrites();  // left-overs must not shine through
  bool ok = false;
  const int how = sim::W(2);
  Call("the proto loader", faults, [&] {
    ok = how ? ::file::ReadFileToProto("/sim/d/m", &got) : ::file::GetTextProto("/sim/d/m", &got, ::file::Defaults()).ok();
  });
  const bool hard = sim::FaultsFired(kHardRead | sim::kSeekFail) != 0;
  sim::Note("load (%zu bytes, damage %d): %s", data.size(), damage, ok ? "ok" : "error");
  if (ok && !readable) sim::Violation("damaged-accepted", "a damaged file is loaded");
  if (ok && got.SerializeAsString() != want.SerializeAsString())
    sim::Violation("partial", "loading reported success with %d of %d entries", got.rewrite_size(), want.rewrite_size());
  if (!ok && !hard && readable && !data.empty()) sim::Violation("false-error", "a good file does not load");
  if (sim::OpenFiles()) sim::Violation("descriptor-leak", "%d descriptors left open", sim::OpenFiles());
  if (hard) sim::Probe("loads_with_hard_fault");
  sim::Nontrivial();
}

// P12.
SIM_SCENARIO(port_timer) {
  const bool jumps = sim::W(3) != 0;
  const int n = sim::Range(1, 10);
  const bool far = sim::Chance(1, 4);
  auto pass = [&] {
    if (far && sim::Chance(1, 3)) sim::AdvanceNs((int64_t)(1 + sim::W(60 * 24)) * 3600 * 1000000000);  // Up to 60 days.
    else sim::AdvanceNs(sim::W(3) == 0 ? sim::W(2000) : (int64_t)sim::W(5000) * 1000000);
  };
  if (jumps) sim::SetClockJumps(true);
  // Timers of different ages: each counts from its own start.
  struct Watch {
    nisaba::Timer t;
    int64_t m0 = 0, m1 = 0;
    double last = 0;
  };
  std::vector<std::unique_ptr<Watch>> watches;
  auto start = [&] {
    pass();
    const int64_t m0 = sim::MonoNs();
    watches.emplace_back(new Watch);
    watches.back()->m0 = m0;
    watches.back()->m1 = sim::MonoNs();
  };
  auto read = [&](const Watch &w) {
    const int64_t a = sim::MonoNs();
    const double e = w.t.ElapsedMillis();
    const int64_t b = sim::MonoNs();
    sim::Note("elapsed %.6f ms", e);
    if (e < 0) sim::Violation("negative", "the timer reports %.6f ms", e);
    // Real time that passed between construction and reading, with slack for
    // the rounding of a double.
    const double lo = (a - w.m1) / 1e6, hi = (b - w.m0) / 1e6;
    if (e < lo - 1e-3 - lo * 1e-9 || e > hi + 1e-3 + hi * 1e-9)
      sim::Violation("wrong-time", "the timer reports %.6f ms, between %.6f and %.6f ms really passed", e, lo, hi);
    return e;
  };
  start();
  const int more = sim::W(3);
  const bool threads = sim::Chance(1, 4);
  if (threads) {
    for (int i = 0; i < more; ++i) start();
    std::thread other([&] { for (int i = 0; i < n; ++i) { read(*watches[i % watches.size()]); sim::Yield(); } });
    for (int i = 0; i < n; ++i) read(*watches[i % watches.size()]);
    other.join();
  }
  for (int i = 0; i < n; ++i) {
    if ((int)watches.size() <= more && sim::Chance(1, 3)) start();
    pass();
    Watch &w = *watches[sim::W(watches.size())];
    const double e = read(w);
    if (e < w.last - 1e-6) sim::Violation("decreasing", "the timer goes from %.6f to %.6f ms", w.last, e);
    w.last = e;
  }
  sim::Nontrivial();
}
