// Runtime under the thread explorer: controlled scheduler and happens-before conflict detection.
#ifndef TRT_HPP
#define TRT_HPP
#include <cstddef>
#include <cstdint>
namespace trt {
static const int MAXT = 4;                 // thread 0 is the main thread, workers are 1..MAXT-1
struct Decision { uint8_t cur, enabled, chosen, forced; };   // enabled: bit mask of unfinished threads
static const int MAXD = 2000;
struct Shared {                            // memory shared by the explorer and the child that runs one schedule
    int nrace; char race[3000];
    int ndec; Decision dec[MAXD];
    uint64_t accesses, pages, blocks, syncs, bytes;
    char error[MAXT][400];
    size_t nlog[MAXT]; char log[MAXT][60000];
    char end[2000];
};
extern Shared* sh;
typedef void (*Body)(int thread);
int self();                                // number of the calling thread
bool in_parallel();
void step();                               // a point at which the scheduler may switch
// run body(1..nt) on real threads, one at a time; at decision point i < nc the thread choice[i] continues
void run(int nt, Body body, const uint8_t* choice, int nc);
void fresh_memory(bool on);                // operator new never returns an address twice
}
#endif
