// Simulated processes: every MPI rank of every participant is a coroutine of one program, with its own copy
// of the library's process-global state; connections are in-memory byte streams with FIFO order.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace world {
/// Adds a process.  rank/size only name it; the body creates whatever it needs.
void spawn(const std::string &name, std::function<void()> body);
/// Runs all processes until each returned.  Fails the path on deadlock, rethrows an exception of any process.
void run();
/// Two-phase start: in the preparation hook of a scenario, spawn the processes and call prepare(): each process runs
/// concretely up to its call of ready() once, before the exploration forks; run() continues from there.
void prepare();
void ready();
/// The run ends when the current process returns control, whatever the others wait for
void abandonOthers();
/// Blocks the current process until ready() holds.
void waitFor(const std::function<bool()> &ready, const char *why);
/// Lets other processes run.
void yield();
/// Choose the next process by a symbolic choice at the first n scheduling points (default 0: round robin).
void exploreSchedules(int n);
/// Index of the running process, -1 outside run()
int current();
/// Bytes sent but never received, over all streams
size_t undelivered();
/// Messages of warnings raised so far
const std::vector<std::string> &warnings();
/// Configures n in-memory intra-participant ranks and runs body(rank) in each
void ranks(int n, std::function<void(int)> body);
/// What the library handed to its table writers (watch points, iteration and convergence logs), by file name
struct Table {
  std::vector<std::string>                                columns;
  std::vector<std::map<std::string, std::vector<double>>> rows;
};
std::map<std::string, Table> &tables();
/// The attribute text "sym:<name>" in a configuration stands for this (symbolic) value
void setSymbol(const std::string &name, double value);
void setSymbolInt(const std::string &name, int value);
/// Writes a configuration file to a private scratch directory and returns its path
std::string writeConfig(const std::string &xml);
} // namespace world
