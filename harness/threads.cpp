// Runs groups of programs (machine.cpp) alone and next to each other.
// Input:  G <seed> <quantum> <rounds>     a group; then for each program
//         @<TAB>key<TAB>{"fn":...         how its event begins
//         arg arg ...                     steps, the first an init
// Every group is run by a new process, in which each program is a thread, and
// each program by another one in which there is no other thread.
// With a quantum the threads take turns: a basic block of the library or of
// the instruction is the unit, and who is next is drawn from the seed.
#include "exec.hpp"
#include "threads.hpp"

#include <barrier>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace ex {
std::map<std::string, Fn>& registry()
{
  static std::map<std::string, Fn> r;
  return r;
}
}

struct Program {
  ex::Fn fn;
  std::string prefix;
  std::vector<std::string> lines;
};
using Outcomes = std::vector<std::string>;

static ex::Args split(std::string_view line)
{
  ex::Args a;
  for (std::size_t i = 0; i < line.size();)
  {
    auto const e = std::min(line.find(' ', i), line.size());
    a.v.push_back(line.substr(i, e - i));
    i = e + 1;
  }
  return a;
}

static void run(Program const& p, std::vector<ex::Args> const& steps, Outcomes& out)
{
  for (std::size_t i = 0; i < steps.size(); ++i)
  {
    ex::Out o;
    p.fn(steps[i], o);
    out[i] = o.s;
  }
}

static void share(Program const& p)
{
  auto a = split(p.lines[0]);
  a.v[0] = "share";
  ex::Out o;
  p.fn(a, o);
}

// A group of programs in a process of its own.  What it writes comes back.
template <typename F> static bool child(F f, std::string& text, int& status)
{
  int fd[2];
  if (pipe(fd)) std::exit(73);
  auto const pid = fork();
  if (pid < 0) std::exit(73);
  if (pid == 0)
  {
    close(fd[0]);
    alarm(60);
    std::string const s = f();
    for (std::size_t n = 0; n < s.size();)
    {
      auto const k = write(fd[1], s.data() + n, s.size() - n);
      if (k <= 0) _exit(74);
      n += static_cast<std::size_t>(k);
    }
    _exit(0);
  }
  close(fd[1]);
  char buf[1 << 16];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) text.append(buf, static_cast<std::size_t>(n));
  close(fd[0]);
  waitpid(pid, &status, 0);
  return status == 0;
}

static std::string alone(Program const& p)
{
  share(p);
  std::vector<ex::Args> steps;
  for (auto const& l : p.lines) steps.push_back(split(l));
  Outcomes out(steps.size());
  run(p, steps, out);
  std::string s;
  for (auto const& o : out) (s += o) += '\n';
  return s;
}

static std::string together(std::vector<Program> const& ps, unsigned long seed, unsigned quantum,
                            unsigned rounds, std::vector<Outcomes> const& expected)
{
  auto const n = ps.size();
  share(ps[0]);
  std::vector<std::vector<ex::Args>> steps(n);
  std::vector<Outcomes> one(n), out(n);
  std::vector<std::vector<unsigned>> differ(n);
  for (std::size_t t = 0; t < n; ++t)
  {
    for (auto const& l : ps[t].lines) steps[t].push_back(split(l));
    one[t].resize(steps[t].size());
    out[t] = expected[t];
    differ[t].resize(steps[t].size());
  }
  std::barrier<> start(static_cast<std::ptrdiff_t>(n));
  sched::begin(seed, quantum, n);
  {
    std::vector<std::jthread> ts;
    for (std::size_t t = 0; t < n; ++t)
      ts.emplace_back([&, t] {
        start.arrive_and_wait();
        sched::enter(t);
        for (unsigned r = 0; r < rounds; ++r)
        {
          run(ps[t], steps[t], one[t]);
          for (std::size_t i = 0; i < one[t].size(); ++i)
            if (one[t][i] != expected[t][i] && differ[t][i]++ == 0) out[t][i] = one[t][i];
        }
        sched::leave(t);
      });
  }
  std::string s = std::to_string(sched::races()) + '\n';
  for (std::size_t t = 0; t < n; ++t)
    for (std::size_t i = 0; i < out[t].size(); ++i)
      s += std::to_string(differ[t][i]) + ' ' + out[t][i] + '\n';
  return s;
}

static std::vector<std::string> lines_of(std::string const& s)
{
  std::vector<std::string> r;
  for (std::size_t i = 0; i < s.size();)
  {
    auto const e = std::min(s.find('\n', i), s.size());
    r.push_back(s.substr(i, e - i));
    i = e + 1;
  }
  return r;
}

static void group(std::vector<Program> const& ps, unsigned long seed, unsigned quantum, unsigned rounds)
{
  if (ps.empty()) return;
  std::vector<Outcomes> expected;
  for (auto const& p : ps)
  {
    std::string text;
    int status;
    if (!child([&] { return alone(p); }, text, status))
    {
      std::cerr << "a program does not run alone: " << p.prefix << "\n";
      return;
    }
    expected.push_back(lines_of(text));
  }
  std::string text;
  int status = 0;
  bool ran = child([&] { return together(ps, seed, quantum, rounds, expected); }, text, status);
  auto const got = lines_of(text);
  std::size_t all = 1;
  for (auto const& e : expected) all += e.size();
  ran = ran && got.size() == all;
  std::size_t at = 1;
  for (std::size_t t = 0; t < ps.size(); ++t)
  {
    std::cout << ps[t].prefix << ",\"races\":" << (ran ? got[0] : "0") << ",\"rows\":[";
    for (std::size_t i = 0; i < expected[t].size(); ++i)
    {
      ex::Out in;
      for (auto const a : split(ps[t].lines[i]).v)
        if (a.size() > (a[0] == '-') && (a[0] == '-' || (a[0] >= '0' && a[0] <= '9')))
        {
          if (a.size() < 10) { in.sep(); in.s += a; }
          else if (a[0] == '-') in.num(std::strtoll(std::string(a).c_str(), nullptr, 10));
          else in.unum(std::strtoull(std::string(a).c_str(), nullptr, 10));
        }
        else in.word(a);
      std::string count = "0", outcome = expected[t][i];
      if (ran)
      {
        auto const& g = got[at++];
        count = g.substr(0, g.find(' '));
        outcome = g.substr(g.find(' ') + 1);
      }
      in.word(ran ? "ok" : WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM ? "hang" : "crash");
      std::cout << (i ? "," : "") << '[' << in.s << ',' << count << ',' << expected[t][i] << ','
                << outcome << ']';
    }
    std::cout << "]}\n";
  }
}

int main()
{
  std::string line;
  std::vector<Program> ps;
  unsigned long seed = 0;
  unsigned quantum = 0, rounds = 1;
  while (std::getline(std::cin, line))
  {
    if (line.empty()) continue;
    if (line[0] == 'G')
    {
      group(ps, seed, quantum, rounds);
      ps.clear();
      std::sscanf(line.c_str(), "G %lu %u %u", &seed, &quantum, &rounds);
    }
    else if (line[0] == '@')
    {
      auto const t1 = line.find('\t'), t2 = line.find('\t', t1 + 1);
      auto const key = line.substr(t1 + 1, t2 - t1 - 1);
      auto const it = ex::registry().find(key);
      if (it == ex::registry().end())
      {
        std::cerr << "no such function: " << key << "\n";
        return 71;
      }
      ps.push_back({it->second, line.substr(t2 + 1), {}});
    }
    else ps.back().lines.push_back(line);
  }
  group(ps, seed, quantum, rounds);
  std::cout << "{\"fn\":\"end\",\"rows\":[]}\n";
}
