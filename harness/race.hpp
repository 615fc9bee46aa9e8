// The interface between the scenarios (compiled with -fsanitize=thread, like the library) and the scheduler.
#pragma once
#include <functional>
#include <string>
#include <vector>

struct Scenario {
  std::string name, group;
  // runs in a process of its own; returns the bodies of the threads, which return what they observed
  std::function<std::vector<std::function<std::string()>>()> setup;
  // called when all threads have ended; "" if what is left is right
  std::function<std::string()> after;
  bool ordered = false; // what the threads observe may depend on the schedule (then only `after` is decided)
  int quick = 2;        // preemption bounds
  int thorough = 3;
};
std::vector<Scenario> scenarios();
