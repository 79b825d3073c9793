// Controlled execution of two calls on two threads (see runtime.cpp)
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched
{
/** shared memory is watched in units of 8 bytes */
using Unit = uint64_t;
enum Use : uint8_t
{
  READ = 1,
  WRITE = 2,
  LIBWRITE = 4  // changed by code that is not observed (libraries)
};
struct Touch
{
  Unit unit;
  uint8_t use;
};
/** run thread `who` until it is about to do its `stop`-th counted step (0: to the end) */
struct Leg
{
  int who;
  uint64_t stop;
};
enum Mode : uint8_t
{
  ACCESSES,  // the steps are the accesses to the watched units
  BLOCKS     // the steps are all basic blocks
};
struct Order
{
  std::vector<Leg> legs;
  std::vector<Unit> watched;
  Mode mode = ACCESSES;
  uint32_t perSite = 4, first = 40;  // a step counts if it is among the first `first` ones or the first `perSite` ones of its place in the code
  bool compare = false;              // look for writes of libraries
};
struct Outcome
{
  std::string result[3];         // [1], [2]
  std::vector<Touch> touched[3];
  uint64_t steps[3] = { 0, 0, 0 };   // counted steps
  uint64_t total[3] = { 0, 0, 0 };   // all steps
  uint64_t accesses[3] = { 0, 0, 0 };
  bool deadlock = false;
  uint64_t bytes[3] = { 0, 0, 0 };
};
/** from now on memory that is asked for belongs to the objects that the calls work on: 0 none, 1 what our own code asks for, 2 all */
void objects(int which);
using Body = std::function<std::string()>;
/** to be called once per process; an empty body means that the thread is not there */
Outcome execute(const Body& one, const Body& two, const Order& o);
/** whose memory it is: 1, 2 the threads', otherwise 0 */
int ownerOf(Unit u);
/** description of a unit for messages */
std::string where(Unit u);
}  // namespace sched
