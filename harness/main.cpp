// Runs batches of calls.  Input, on stdin:
//   @<TAB>key<TAB>{"fn":...      a batch: which function, how its event begins
//   arg arg ...                  one call
// Output: events {"fn":...,"rows":[[args..., status, ub, results...],...]}
// status is "ok", "trap" (SIGFPE), "crash" (SIGSEGV, SIGABRT, ...), "hang" or
// "throw"; ub counts the overflows and invalid shifts/divisions the compiler's
// instrumentation saw during the call.
#include "exec.hpp"

#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sys/time.h>

namespace ex {
std::map<std::string, Fn>& registry()
{
  static std::map<std::string, Fn> r;
  return r;
}
}

static volatile unsigned long ub_count;
extern "C" {
#define UB(name) void __ubsan_handle_##name(void*, void*, void*) { ++ub_count; }
UB(add_overflow) UB(sub_overflow) UB(mul_overflow) UB(divrem_overflow)
UB(shift_out_of_bounds)
void __ubsan_handle_negate_overflow(void*, void*) { ++ub_count; }
}

static sigjmp_buf jump;
static volatile bool in_call;
static volatile unsigned long call_no, seen_call;
static char const* volatile outcome;

static void on_signal(int sig)
{
  if (sig == SIGALRM)
  {
    if (!in_call || call_no != seen_call) { seen_call = call_no; return; }
    outcome = "hang";
    siglongjmp(jump, 1);
  }
  if (!in_call) _exit(70);
  outcome = (sig == SIGFPE) ? "trap" : "crash";
  siglongjmp(jump, 1);
}

int main()
{
  std::ios::sync_with_stdio(false);
  static char alt[1 << 16];
  stack_t ss {};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_NODEFER | SA_ONSTACK;
  for (int s : {SIGFPE, SIGSEGV, SIGBUS, SIGILL, SIGABRT, SIGTRAP, SIGALRM})
    sigaction(s, &sa, nullptr);
  itimerval tv {{1, 0}, {1, 0}};
  setitimer(ITIMER_REAL, &tv, nullptr);

  bool const careful = std::getenv("EXEC_CAREFUL") != nullptr;
  std::size_t const chunk = careful ? 1 : 400;
  std::string line, prefix;
  ex::Fn fn = nullptr;
  std::string rows;
  std::size_t nrows = 0;
  auto flush = [&] {
    if (nrows == 0) return;
    std::cout << prefix << ",\"rows\":[" << rows << "]}\n";
    if (careful) std::cout.flush();
    rows.clear();
    nrows = 0;
  };
  ex::Args args;
  while (std::getline(std::cin, line))
  {
    if (line.empty()) continue;
    if (line[0] == '@')
    {
      flush();
      auto const t1 = line.find('\t'), t2 = line.find('\t', t1 + 1);
      auto const key = line.substr(t1 + 1, t2 - t1 - 1);
      prefix = line.substr(t2 + 1);
      auto const it = ex::registry().find(key);
      if (it == ex::registry().end())
      {
        std::cerr << "no such function: " << key << "\n";
        return 71;
      }
      fn = it->second;
      continue;
    }
    args.v.clear();
    for (std::size_t i = 0; i < line.size();)
    {
      auto const e = std::min(line.find(' ', i), line.size());
      args.v.push_back(std::string_view(line).substr(i, e - i));
      i = e + 1;
    }
    ex::Out out, in;
    ub_count = 0;
    outcome = "ok";
    ++call_no;
    if (sigsetjmp(jump, 0) == 0)
    {
      in_call = true;
      try { fn(args, out); }
      catch (std::out_of_range const&) { outcome = "badargs"; }
      catch (...) { outcome = "throw"; }
      in_call = false;
    }
    else
    {
      in_call = false;
      new (&out) ex::Out; // the text may be half-built
    }
    // arguments: numbers as numbers, anything else as codes of its bytes
    for (std::size_t i = 0; i < args.v.size(); ++i)
    {
      auto const a = args.v[i];
      if (!a.empty() && a[0] == 'x')
        in.codes([&] { ex::Args t; t.v = {a.substr(1)}; return t.text(0); }());
      else if (a.size() > (a[0] == '-') && (a[0] == '-' || (a[0] >= '0' && a[0] <= '9')))
      {
        if (a.size() < 10) { in.sep(); in.s += a; }
        else if (a[0] == '-') in.num(std::strtoll(std::string(a).c_str(), nullptr, 10));
        else in.unum(std::strtoull(std::string(a).c_str(), nullptr, 10));
      }
      else in.word(a);
    }
    in.word(outcome);
    in.num(static_cast<long long>(ub_count));
    if (nrows++) rows += ',';
    rows += '[';
    rows += in.s;
    if (std::strcmp(const_cast<char const*>(outcome), "ok") == 0 && !out.s.empty())
    {
      rows += ',';
      rows += out.s;
    }
    rows += ']';
    if (nrows >= chunk) flush();
  }
  flush();
  std::cout << "{\"fn\":\"end\",\"rows\":[]}\n";
}
