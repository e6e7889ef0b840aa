// The simulated environment: clock, random numbers, disk (system calls on scratch files), memory, devices.
#pragma once
#include "core.h"
#include <pdfmm/pdfmm.h>

namespace sim {

enum class Io { Write = 0, Read, Seek, Close, Open, Flush, Count };
enum class Eff { None = 0, Short, Intr, Full, Error, Count };

// Faults placed on the n-th operation of a kind. `sticky` faults stay until cleared (full or dead disk).
struct Fault { Io io; uint64_t at; Eff eff; int64_t arg; bool sticky; };

struct FaultSchedule
{
    std::vector<Fault> faults;
    uint64_t count[(int)Io::Count] = {};
    uint64_t fired = 0;          // errors that must be visible to the caller (not short/EINTR)
    uint64_t firedAny = 0;
    bool enabled = true;
    // decide the fate of the next operation of this kind
    const Fault* next(Io io);
    void clear() { faults.clear(); for (auto& c : count) c = 0; fired = firedAny = 0; }
};

const char* effName(Io io, Eff e);

struct World
{
    bool active = false;
    uint64_t seed = 0;
    // clock
    int64_t clockNs = 0;
    int64_t clockStepNs = 0;     // advance per reading
    uint64_t clockReads = 0;
    // random
    Rng rnd{ 1 };
    uint64_t rndDraws = 0;
    // memory
    uint64_t allocs = 0;
    uint64_t failAlloc = 0;      // 1-based index of the allocation that fails; 0 = never
    uint64_t failAllocEvery = 0;
    uint64_t allocFired = 0;
    bool allocCounting = false;
    int fill = -1;               // byte that fresh memory holds; -1 = whatever is there
    size_t memLimit = (size_t)1 << 30;
    size_t single = (size_t)512 << 20;
    // disk
    FaultSchedule disk;
    uint64_t maxSteps = 50000000;

    void enter(uint64_t seed);
    void leave();
    std::string scratch(const std::string& name);   // path of a scratch file (directory made on first use)
    void cleanScratch(int pid);
    void setClock(int64_t sec, int64_t stepNs = 0) { clockNs = sec * 1000000000ll; clockStepNs = stepNs; }
    void setZone(const char* tz);
    void step() { if (++ctx().steps > maxSteps) ctx().die("hang:step-budget", "step budget exhausted in stage: " + ctx().stage); }
};
World& world();

std::string readFile(const std::string& path);
void writeFile(const std::string& path, std::string_view data);

// ---------------------------------------------------------------- simulated device
struct DevOpts
{
    int chunking = 0;       // 0 full reads, 1 one byte, 2 random 1..7, 3 random 1..600, 4 mostly full
    bool lazyEof = false;   // end of data only signalled by a read that returns nothing
    uint64_t seed = 1;
    int64_t capacity = -1;  // bytes that fit; more is a full disk
};

class SimDevice final : public mm::StreamDevice
{
public:
    SimDevice(std::shared_ptr<std::string> data, mm::DeviceAccess access, DevOpts opts = {}, bool ate = false);
    std::shared_ptr<std::string> data;
    FaultSchedule faults;
    DevOpts opts;
    uint64_t ops = 0, bytesRead = 0, bytesWritten = 0;
    std::vector<std::pair<size_t, std::string>>* log = nullptr;   // every accepted write with its position
    size_t GetLength() const override { return data->size(); }
    size_t GetPosition() const override { return m_pos; }
    bool CanSeek() const override { return true; }
    bool Eof() const override { return m_pos >= data->size(); }
protected:
    void writeBuffer(const char* buffer, size_t size) override;
    void flush() override;
    size_t readBuffer(char* buffer, size_t size, bool& eof) override;
    bool readChar(char& ch) override;
    bool peek(char& ch) const override;
    void seek(ssize_t offset, mm::SeekDirection direction) override;
private:
    void readFault(Io io, size_t& limit);
    size_t m_pos;
    Rng m_rng;
};

// Source/sink streams with chunking and faults (plain streams, not devices)
class SimInput final : public mm::InputStream
{
public:
    SimInput(std::string data, DevOpts opts = {}) : m_data(std::move(data)), m_opts(opts), m_rng(opts.seed) { }
    FaultSchedule faults;
protected:
    size_t readBuffer(char* buffer, size_t size, bool& eof) override;
private:
    std::string m_data; size_t m_pos = 0; DevOpts m_opts; Rng m_rng;
};

class SimOutput final : public mm::OutputStream
{
public:
    std::string data;
    FaultSchedule faults;
    bool flushed = false;
protected:
    void writeBuffer(const char* buffer, size_t size) override;
    void flush() override;
};

size_t chunkSize(Rng& rng, int chunking, size_t want);

// Turn plan ops "fault io at eff arg sticky" into a schedule
bool addFaultOp(FaultSchedule& s, const Op& op);

} // namespace sim
