#include "world.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <new>
#include <random>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <malloc.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/syscall.h>

using namespace std;

namespace sim {

static World s_world;
World& world() { return s_world; }
// per-thread random stream (threads must not influence each other's numbers)
thread_local Rng* t_rng = nullptr;

static const char* IoNames[] = { "write", "read", "seek", "close", "open", "flush" };
static const char* EffNames[] = { "none", "short", "eintr", "enospc", "eio" };
const char* effName(Io io, Eff e)
{
    static string names[(int)Io::Count][(int)Eff::Count];
    auto& n = names[(int)io][(int)e];
    if (n.empty()) n = string(IoNames[(int)io]) + "-" + EffNames[(int)e];
    return n.c_str();
}

const Fault* FaultSchedule::next(Io io)
{
    NoPreempt np;
    if (!enabled) return nullptr;
    uint64_t i = count[(int)io]++;
    for (auto& f : faults)
        if (f.io == io && (f.at == i || (f.sticky && i >= f.at)))
        {
            firedAny++;
            if (f.eff == Eff::Full || f.eff == Eff::Error) fired++;
            ctx().fault(effName(io, f.eff));
            return &f;
        }
    return nullptr;
}

bool addFaultOp(FaultSchedule& s, const Op& op)
{
    if (op.k != "fault") return false;
    Fault f;
    f.io = (Io)(op.u(0) % (uint64_t)Io::Count);
    f.at = op.u(1);
    f.eff = (Eff)(1 + op.u(2) % ((uint64_t)Eff::Count - 1));
    f.arg = op.at(3);
    f.sticky = op.at(4) != 0 && (f.eff == Eff::Full || f.eff == Eff::Error);      // interruptions end
    s.faults.push_back(f);
    return true;
}

void World::enter(uint64_t sd)
{
    seed = sd;
    rnd.reseed(sd ^ 0x5eed);
    rndDraws = 0;
    setZone("UTC");
    setClock(1700000000);
    clockReads = 0;
    allocs = 0; failAlloc = 0; allocFired = 0; allocCounting = false; failAllocEvery = 0;
    disk.clear();
    active = true;
}
void World::leave() { active = false; allocCounting = false; failAlloc = 0; failAllocEvery = 0; }

void World::setZone(const char* tz) { setenv("TZ", tz, 1); tzset(); }

static string scratchDir(int pid) { return strf("/tmp/pdfmm-sim-%d-%d", (int)getuid(), pid); }
string World::scratch(const string& name)
{
    static int made = 0;
    int pid = (int)getpid();
    auto dir = scratchDir(pid);
    if (made != pid) { mkdir(dir.c_str(), 0700); made = pid; }
    return dir + "/" + name;
}
void World::cleanScratch(int pid)
{
    auto dir = scratchDir(pid);
    DIR* d = opendir(dir.c_str());
    if (!d) return;
    while (auto e = readdir(d))
    {
        string n = e->d_name;
        if (n == "." || n == "..") continue;
        unlink((dir + "/" + n).c_str());
    }
    closedir(d);
    rmdir(dir.c_str());
}

static bool isScratch(const char* path) { return path && strncmp(path, "/tmp/pdfmm-sim-", 15) == 0; }

string readFile(const string& path)
{
    string r;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
    if (fd < 0) return r;
    char buf[65536]; ssize_t n;
    while ((n = syscall(SYS_read, fd, buf, sizeof buf)) > 0) r.append(buf, (size_t)n);
    syscall(SYS_close, fd);
    return r;
}
void writeFile(const string& path, string_view data)
{
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    size_t off = 0;
    while (off < data.size()) { ssize_t n = syscall(SYS_write, fd, data.data() + off, data.size() - off); if (n <= 0) break; off += (size_t)n; }
    syscall(SYS_close, fd);
}

// ---------------------------------------------------------------- devices
size_t chunkSize(Rng& rng, int chunking, size_t want)
{
    if (want == 0) return 0;
    switch (chunking)
    {
        case 1: return 1;
        case 2: return min<size_t>(want, 1 + rng.below(7));
        case 3: return min<size_t>(want, 1 + rng.below(600));
        case 4: return rng.chance(1, 5) ? min<size_t>(want, 1 + rng.below(want)) : want;
        default: return want;
    }
}

// Errors of a device come as the exceptions of the library or of the standard library
static void devErr(const char* what, const Fault* f = nullptr) { if (f && f->eff == Eff::Full) throw std::ios_base::failure(what); throw mm::PdfError(mm::PdfErrorCode::InvalidDeviceOperation, __FILE__, __LINE__, what); }

SimDevice::SimDevice(shared_ptr<string> d, mm::DeviceAccess access, DevOpts o, bool ate)
    : mm::StreamDevice(access), data(std::move(d)), opts(o), m_pos(ate ? data->size() : 0), m_rng(o.seed) { }

void SimDevice::writeBuffer(const char* buffer, size_t size)
{
    NoPreempt np;     // storage doesn't take part in the scheduling, nor in failing allocations
    world().step(); ops++;
    size_t accept = size;
    const char* err = nullptr;
    if (auto f = faults.next(Io::Write))
    {
        if (f->eff == Eff::Full || f->eff == Eff::Error) { accept = f->arg < 0 ? 0 : min<size_t>(size, (size_t)f->arg); err = f->eff == Eff::Full ? "simulated full device" : "simulated write error"; }
    }
    if (!err && opts.capacity >= 0 && (int64_t)(m_pos + size) > opts.capacity)
    {
        accept = opts.capacity > (int64_t)m_pos ? (size_t)opts.capacity - m_pos : 0;
        err = "simulated full device";
        faults.fired++;
        ctx().fault("device-full");
    }
    if (accept)
    {
        if (m_pos + accept > data->size()) data->resize(m_pos + accept);
        memcpy(&(*data)[m_pos], buffer, accept);
        if (log) log->emplace_back(m_pos, string(buffer, accept));
        m_pos += accept;
        bytesWritten += accept;
    }
    ctx().mixHash(&size, sizeof size);
    if (err) devErr(err);
}

void SimDevice::flush()
{
    NoPreempt np;     // storage doesn't take part in the scheduling, nor in failing allocations
    world().step(); ops++;
    if (auto f = faults.next(Io::Flush)) if (f->eff == Eff::Full || f->eff == Eff::Error) devErr("simulated flush error");
}

void SimDevice::readFault(Io io, size_t& limit)
{
    NoPreempt np;     // storage doesn't take part in the scheduling, nor in failing allocations
    if (auto f = faults.next(io))
    {
        if (f->eff == Eff::Full || f->eff == Eff::Error) devErr("simulated read error");
        limit = min<size_t>(limit, 1 + (size_t)(f->arg > 0 ? f->arg : 0));
    }
}

size_t SimDevice::readBuffer(char* buffer, size_t size, bool& eof)
{
    world().step(); ops++;
    eof = false;
    size_t n = chunkSize(m_rng, opts.chunking, size);
    readFault(Io::Read, n);
    size_t avail = m_pos < data->size() ? data->size() - m_pos : 0;
    bool hitEnd = n >= avail;
    n = min(n, avail);
    if (n) memcpy(buffer, data->data() + m_pos, n);
    m_pos += n;
    bytesRead += n;
    eof = opts.lazyEof ? (avail == 0) : (hitEnd && m_pos >= data->size());
    return n;
}

bool SimDevice::readChar(char& ch)
{
    world().step(); ops++;
    size_t n = 1;
    readFault(Io::Read, n);
    if (m_pos >= data->size()) { ch = '\0'; return false; }
    ch = (*data)[m_pos++];
    bytesRead++;
    return true;
}

bool SimDevice::peek(char& ch) const
{
    auto self = const_cast<SimDevice*>(this);
    world().step(); self->ops++;
    size_t n = 1;
    self->readFault(Io::Read, n);
    if (m_pos >= data->size()) { ch = '\0'; return false; }
    ch = (*data)[m_pos];
    return true;
}

void SimDevice::seek(ssize_t offset, mm::SeekDirection direction)
{
    world().step(); ops++;
    if (auto f = faults.next(Io::Seek)) if (f->eff == Eff::Full || f->eff == Eff::Error) devErr("simulated seek error");
    m_pos = SeekPosition(m_pos, data->size(), offset, direction);
}

size_t SimInput::readBuffer(char* buffer, size_t size, bool& eof)
{
    world().step();
    eof = false;
    size_t n = chunkSize(m_rng, m_opts.chunking, size);
    if (auto f = faults.next(Io::Read))
    {
        if (f->eff == Eff::Full || f->eff == Eff::Error) devErr("simulated source error", f);
        n = min<size_t>(n, 1 + (size_t)(f->arg > 0 ? f->arg : 0));
    }
    size_t avail = m_data.size() - m_pos;
    bool hitEnd = n >= avail;
    n = min(n, avail);
    if (n) memcpy(buffer, m_data.data() + m_pos, n);
    m_pos += n;
    eof = m_opts.lazyEof ? avail == 0 : (hitEnd && m_pos == m_data.size());
    return n;
}

void SimOutput::writeBuffer(const char* buffer, size_t size)
{
    world().step();
    if (auto f = faults.next(Io::Write))
        if (f->eff == Eff::Full || f->eff == Eff::Error)
        {
            size_t n = min<size_t>(size, f->arg > 0 ? (size_t)f->arg : 0);
            data.append(buffer, n);
            devErr("simulated sink error", f);
        }
    data.append(buffer, size);
}

void SimOutput::flush()
{
    world().step();
    if (auto f = faults.next(Io::Flush)) if (f->eff == Eff::Full || f->eff == Eff::Error) devErr("simulated sink flush error", f);
    flushed = true;
}

} // namespace sim

using namespace sim;

// ---------------------------------------------------------------- interposed environment
// Memory: operator new of the whole process. Counts, limits and fails allocations as the plan says.
static size_t s_live = 0;
static void* simNew(size_t n, size_t align, bool nothrow)
{
    if (s_world.active)
    {
        if (s_world.allocCounting && !t_noPreempt)
        {
            uint64_t i = ++s_world.allocs;
            if (s_world.failAlloc && (i == s_world.failAlloc || (s_world.failAllocEvery && i > s_world.failAlloc && (i - s_world.failAlloc) % s_world.failAllocEvery == 0)))
            {
                s_world.allocFired++;
                if (nothrow) return nullptr;
                throw std::bad_alloc();
            }
        }
        if (n > s_world.single || __atomic_load_n(&s_live, __ATOMIC_RELAXED) + n > s_world.memLimit)
        {
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    void* p = align ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    __atomic_fetch_add(&s_live, malloc_usable_size(p), __ATOMIC_RELAXED);
    if (s_world.fill >= 0 && s_world.active) memset(p, s_world.fill, n < 65536 ? n : 65536);
    return p;
}
static void simDelete(void* p)
{
    if (!p) return;
    __atomic_fetch_sub(&s_live, malloc_usable_size(p), __ATOMIC_RELAXED);
    free(p);
}
void* operator new(size_t n) { return simNew(n, 0, false); }
void* operator new[](size_t n) { return simNew(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return simNew(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return simNew(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return simNew(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return simNew(n, (size_t)a, false); }
void operator delete(void* p) noexcept { simDelete(p); }
void operator delete[](void* p) noexcept { simDelete(p); }
void operator delete(void* p, size_t) noexcept { simDelete(p); }
void operator delete[](void* p, size_t) noexcept { simDelete(p); }
void operator delete(void* p, std::align_val_t) noexcept { simDelete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { simDelete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { simDelete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { simDelete(p); }

// Random numbers
namespace sim { Rng& threadRng() { return t_rng ? *t_rng : s_world.rnd; } void setThreadRng(Rng* r) { t_rng = r; } }
extern "C" int rand(void) noexcept
{
    s_world.rndDraws++;
    return (int)(threadRng().next() & 0x7fffffff);
}
// Seeding restarts the stream, but the stream stays a function of the plan's seed and the value given
extern "C" void srand(unsigned v) noexcept { threadRng().reseed(Rng::mix(s_world.seed ^ 0x5eed) + v); }
extern "C" int RAND_bytes(unsigned char* buf, int n)
{
    s_world.rndDraws++;
    for (int i = 0; i < n; i++) buf[i] = (unsigned char)threadRng().next();
    return 1;
}
unsigned int std::random_device::_M_getval() 
{
    s_world.rndDraws++;
    // what threads get here may depend on who asks first; it must not move the stream their results come from
    return t_rng ? (unsigned)Rng::mix(s_world.seed + s_world.rndDraws) : (unsigned)threadRng().next();
}
void std::random_device::_M_init(const std::string&) { }
void std::random_device::_M_fini() { }

// Clock
static void readClock(timespec* ts)
{
    int64_t ns = s_world.clockNs;
    s_world.clockNs += s_world.clockStepNs;
    s_world.clockReads++;
    int64_t sec = ns / 1000000000, rem = ns % 1000000000;
    if (rem < 0) { rem += 1000000000; sec--; }
    ts->tv_sec = sec; ts->tv_nsec = rem;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    if (s_world.active) { readClock(ts); return 0; }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
extern "C" time_t time(time_t* t) noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

// Disk: system calls on scratch files opened through the C++ library (std::fstream) or C stdio
static bool s_simFd[1024];
static bool simFd(int fd) { return s_world.active && fd >= 0 && fd < 1024 && s_simFd[fd]; }

using FopenFn = FILE* (*)(const char*, const char*);
template <typename T> static T real(const char* name) { return (T)dlsym(RTLD_NEXT, name); }

static ssize_t cookieRead(void* c, char* buf, size_t n);
static ssize_t cookieWrite(void* c, const char* buf, size_t n);
static int cookieSeek(void* c, off64_t* off, int whence);
static int cookieClose(void* c);

extern "C" FILE* fopen(const char* path, const char* mode)
{
    static auto fn = real<FopenFn>("fopen");
    if (!s_world.active || !isScratch(path)) return fn(path, mode);
    s_world.step();
    if (auto f = s_world.disk.next(Io::Open))
        if (f->eff == Eff::Error || f->eff == Eff::Full) { errno = f->eff == Eff::Full ? ENOSPC : EIO; return nullptr; }
    Dl_info info;
    bool fromCxx = dladdr(__builtin_return_address(0), &info) && info.dli_fname && strstr(info.dli_fname, "libstdc++");
    FILE* r = fn(path, mode);
    if (!r) return r;
    ctx().ev("fopen", fromCxx);
    if (fromCxx)
    {
        int fd = fileno(r);
        if (fd >= 0 && fd < 1024) s_simFd[fd] = true;
        return r;
    }
    // C stdio does its system calls inside libc: route them through a cookie stream instead
    int fd = dup(fileno(r));
    fclose(r);
    if (fd >= 0 && fd < 1024) s_simFd[fd] = true;
    cookie_io_functions_t io = { cookieRead, cookieWrite, cookieSeek, cookieClose };
    return fopencookie((void*)(intptr_t)fd, mode, io);
}

extern "C" int fclose(FILE* f)
{
    static auto fn = real<int (*)(FILE*)>("fclose");
    int fd = f ? fileno(f) : -1;
    bool sim = simFd(fd);
    if (fd >= 0 && fd < 1024) s_simFd[fd] = false;
    bool fail = false;
    if (sim)
    {
        s_world.step();
        if (auto ft = s_world.disk.next(Io::Close)) fail = ft->eff == Eff::Error || ft->eff == Eff::Full;
    }
    int rc = fn(f);
    if (fail) { errno = EIO; return EOF; }
    return rc;
}

static ssize_t doWrite(int fd, const char* buf, size_t n)
{
    s_world.step();
    ctx().mixHash(&n, sizeof n);
    if (auto f = s_world.disk.next(Io::Write))
    {
        size_t part = f->arg < 0 ? 0 : min<size_t>(n, (size_t)f->arg);
        switch (f->eff)
        {
            case Eff::Short: if (part == 0) part = 1; return syscall(SYS_write, fd, buf, min(n, part));
            case Eff::Intr: errno = EINTR; return -1;
            case Eff::Full:
                // a disk that fills up takes what fits; only the next write fails
                if (part && f->sticky && s_world.disk.count[(int)Io::Write] == f->at + 1) { s_world.disk.fired--; return syscall(SYS_write, fd, buf, part); }
                errno = ENOSPC;
                return -1;
            case Eff::Error: errno = EIO; return -1;
            default: break;
        }
    }
    return syscall(SYS_write, fd, buf, n);
}
static ssize_t doRead(int fd, char* buf, size_t n)
{
    s_world.step();
    if (auto f = s_world.disk.next(Io::Read))
    {
        switch (f->eff)
        {
            case Eff::Short: return syscall(SYS_read, fd, buf, min<size_t>(n, 1 + (f->arg > 0 ? (size_t)f->arg : 0)));
            case Eff::Intr: errno = EINTR; return -1;
            case Eff::Full:
            case Eff::Error: errno = EIO; return -1;
            default: break;
        }
    }
    return syscall(SYS_read, fd, buf, n);
}
static off_t doSeek(int fd, off_t off, int whence)
{
    if (auto f = s_world.disk.next(Io::Seek))
        if (f->eff == Eff::Error || f->eff == Eff::Full) { errno = EIO; return -1; }
    return syscall(SYS_lseek, fd, off, whence);
}

extern "C" ssize_t write(int fd, const void* buf, size_t n)
{
    if (!simFd(fd)) return syscall(SYS_write, fd, buf, n);
    return doWrite(fd, (const char*)buf, n);
}
extern "C" ssize_t read(int fd, void* buf, size_t n)
{
    if (!simFd(fd)) return syscall(SYS_read, fd, buf, n);
    return doRead(fd, (char*)buf, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* iov, int cnt)
{
    if (!simFd(fd)) return syscall(SYS_writev, fd, iov, cnt);
    // join: the simulated disk decides about the whole request
    string all;
    for (int i = 0; i < cnt; i++) all.append((const char*)iov[i].iov_base, iov[i].iov_len);
    return doWrite(fd, all.data(), all.size());
}
extern "C" off_t lseek(int fd, off_t off, int whence) noexcept
{
    if (!simFd(fd)) return syscall(SYS_lseek, fd, off, whence);
    return doSeek(fd, off, whence);
}
extern "C" off64_t lseek64(int fd, off64_t off, int whence) noexcept { return lseek(fd, off, whence); }

static ssize_t cookieRead(void* c, char* buf, size_t n)
{
    ssize_t r;
    do r = read((int)(intptr_t)c, buf, n); while (r < 0 && errno == EINTR && false);
    return r;
}
static ssize_t cookieWrite(void* c, const char* buf, size_t n) { ssize_t r = write((int)(intptr_t)c, buf, n); return r < 0 ? 0 : r; }
static int cookieSeek(void* c, off64_t* off, int whence)
{
    off_t r = lseek((int)(intptr_t)c, *off, whence);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int cookieClose(void* c)
{
    int fd = (int)(intptr_t)c;
    if (fd >= 0 && fd < 1024) s_simFd[fd] = false;
    return (int)syscall(SYS_close, fd);
}
